#include <set>
#include "common.h"
#include "eckit/container/DenseSet.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/database/AxisRegistry.h"
#include "fdb5/database/Field.h"
#include "fdb5/database/Index.h"
#include "fdb5/database/IndexAxis.h"
#include "fdb5/database/IndexStats.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"
using namespace fdb5;
void sym_setup() {
    harnessInit();
    fdb5::LibFdb5::instance();
}
using Vals = std::vector<std::string>;
static const char* const kw[] = {"param", "step"};
static bool few(unsigned char c) { return unsigned(c - '/') < 3u; }
// value of keyword j of field i: absent, empty or text
static std::string value(unsigned lo, unsigned hi) {
    return symStr("value", lo, hi, valueChar, 'b');
}
static Key datum(const std::string& a, const std::string& b) {
    Key k;
    k.set(kw[0], a);
    k.set(kw[1], b);
    return k;
}
// the set of values of an axis is the one expected: ordered, each once
static void sameSet(const IndexAxis& ax, const std::string& keyword, const Vals& exp) {
    const auto& got = ax.values(keyword);
    for (size_t i = 1; i < got.size(); ++i)
        sym_assert(got[i - 1] < got[i], "an axis is sorted and has each value once");
    for (auto& e : exp) {
        bool in = false;
        for (const auto& g : got)
            in = in | (g == e);
        sym_assert(in, "every value archived is on the axis");
        sym_assert(got.contains(e), "and found");
    }
    for (const auto& g : got) {
        bool in = false;
        for (auto& e : exp)
            in = in | (g == e);
        sym_assert(in, "no value that was not archived is on the axis");
    }
}
static bool among(const Vals& v, const std::string& s) {
    bool in = false;
    for (auto& e : v)
        in = in | (e == s);
    return in;
}
struct Source {
    IndexAxis ax;
    Vals v[2];
    std::vector<Key> keys;
    Source(unsigned n, unsigned lo, unsigned hi) {
        for (unsigned i = 0; i < n; ++i) {
            std::string a = value(lo, hi), b = i == 0 ? value(0, 1) : "0";
            Key k = datum(a, b);
            ax.insert(k);
            v[0].push_back(a);
            v[1].push_back(b);
            keys.push_back(k);
        }
    }
};
SYM_CASE(insert, "2 (thorough 3) datum keys of 2 keywords, values of 0..2 characters a-z 0-9 - . / _, in any order; a probe key of 1..2 keywords") {
    Source s(deep() ? 3 : 2, 0, 2);
    sym_assert(s.ax.dirty(), "marked as changed");
    s.ax.sort();
    for (unsigned j = 0; j < 2; ++j)
        sameSet(s.ax, kw[j], s.v[j]);
    for (auto& k : s.keys)
        sym_assert(s.ax.contains(k) && s.ax.containsPartial(k), "an archived key is never hidden");
    std::string p = value(0, 2);
    unsigned two = sym_choice("probe", 3);
    Key probe;
    probe.set(kw[0], p);
    if (two)
        probe.set(kw[1], two == 1 ? s.v[1][0] : "zz");
    bool in = among(s.v[0], p);
    sym_assert(s.ax.containsPartial(probe) == (in && two != 2), "partial keys: each keyword given is on its axis");
    sym_assert(s.ax.contains(probe) == (in && two == 1), "full keys: each axis has the value");
    Key other = probe;
    other.set("other", "x");
    sym_assert(!s.ax.containsPartial(other), "a keyword without axis does not match");
    s.ax.wipe();
    sym_assert(!s.ax.dirty() && !s.ax.has(kw[0]), "wiped");
}
SYM_CASE(requests, "2 datum keys with values of 1..2 and 1 (thorough 1..2) characters / 0 1; requests with 0..2 values per keyword, keywords absent or unknown") {
    IndexAxis ax;
    Vals v[2];
    for (unsigned i = 0; i < 2; ++i) {
        v[0].push_back(symStr("value", 1, i && !deep() ? 1 : 2, few, '0'));
        v[1].push_back(i ? "0" : "1");
        ax.insert(datum(v[0][i], v[1][i]));
    }
    ax.sort();
    metkit::mars::MarsRequest rq("retrieve");
    bool exp = true;
    unsigned n = sym_choice("n", 3);
    if (n) {
        Vals r;
        for (unsigned i = 0; i < n; ++i)
            r.push_back(symStr("wanted", 1, i ? 1 : 2, few, '0'));
        bool any = false;
        for (auto& x : r)
            any = any | among(v[0], x);
        exp = any;
        rq.values(kw[0], r);
    }
    unsigned s = sym_choice("second", 3);
    if (s) {
        rq.setValue(kw[1], s == 1 ? "1" : "7");
        exp = exp && s == 1;
    }
    if (sym_choice("unknown", 2))
        rq.setValue("levelist", "500");
    sym_assert(ax.partialMatch(rq) == exp, "an index matches a request exactly when each axis has one of the values asked for");
}
SYM_CASE(codec, "axes of 1..2 (thorough 3) datum keys, values of 0..2 characters, versions 1, 2 and 3: encoded, decoded twice (shared), released in either order") {
    unsigned n = 1 + sym_choice("keys", deep() ? 3 : 2);
    Source s(n, 0, 2);
    s.ax.sort();
    int version = 1 + sym_choice("version", 3);
    eckit::Buffer b(4096);
    eckit::MemoryStream out(b);
    s.ax.encode(out, version);
    if (version == IndexAxis::currentVersion())
        sym_assert(out.position() <= s.ax.encodeSize(version), "the size announced is enough");
    out << "end";
    std::unique_ptr<IndexAxis> a[2];
    for (auto& x : a) {
        eckit::MemoryStream in(b);
        x.reset(new IndexAxis(in, version));
        std::string end;
        in >> end;
        sym_assert(end == "end", "everything written is read");
    }
    unsigned first = sym_choice("first", 2);
    for (unsigned round = 0; round < 2; ++round) {
        IndexAxis& x = *a[round == 0 ? first : 1 - first];
        sym_assert(x == s.ax && !(x != s.ax), "the axis read equals the one written");
        for (unsigned j = 0; j < 2; ++j)
            sameSet(x, kw[j], s.v[j]);
        for (auto& k : s.keys)
            sym_assert(x.contains(k), "an archived key is never hidden");
        a[round == 0 ? first : 1 - first].reset();
    }
    sym_assert(AxisRegistry::instance().axes_.empty(), "nothing is kept for axes that are gone");
}
SYM_CASE(share, "2 axes of 1..2 and 1 (thorough 1..2) values of 1 character decoded (so shared where equal), merged into a third: the decoded ones keep their values") {
    Source s1(1 + sym_choice("keys1", 2), 1, 1), s2(deep() ? 1 + sym_choice("keys2", 2) : 1, 1, 1);
    s1.ax.sort();
    s2.ax.sort();
    eckit::Buffer b(4096);
    eckit::MemoryStream out(b);
    s1.ax.encode(out, 3);
    s2.ax.encode(out, 3);
    eckit::MemoryStream in(b);
    {
        IndexAxis d1(in, 3), d2(in, 3);
        IndexAxis m;
        m.merge(d1);
        m.merge(d2);
        Vals u[2];
        for (unsigned j = 0; j < 2; ++j) {
            sameSet(d1, kw[j], s1.v[j]);
            sameSet(d2, kw[j], s2.v[j]);
            u[j] = s1.v[j];
            u[j].insert(u[j].end(), s2.v[j].begin(), s2.v[j].end());
            sameSet(m, kw[j], u[j]);
        }
        IndexAxis moved(std::move(d1));
        sameSet(moved, kw[0], s1.v[0]);
        sym_assert((moved == d2) == (moved.values(kw[0]) == d2.values(kw[0]) && moved.values(kw[1]) == d2.values(kw[1])), "equality is equality of the values");
        sym_assert(throws([&] { d2.insert(s1.keys[0]); }), "an axis that was read is not written to");
    }
    sym_assert(AxisRegistry::instance().axes_.empty(), "nothing is kept for axes that are gone");
}
// ---- an index without storage
struct FakeIndex : IndexBase {
    std::vector<Key> added;
    using IndexBase::IndexBase;
    const IndexLocation& location() const override { NOTIMP; }
    bool dirty() const override { return false; }
    void open() override {}
    void close() override {}
    void reopen() override {}
    void flush() override { axes_.sort(); takeTimestamp(); }
    void visit(IndexLocationVisitor&) const override {}
    bool get(const Key&, const Key&, Field&) const override { return false; }
    void add(const Key& k, const Field&) override { added.push_back(k); }
    void entries(EntryVisitor&) const override {}
    void print(std::ostream& s) const override { s << "FakeIndex"; }
    void dump(std::ostream&, const char*, bool, bool) const override {}
    void flock() const override {}
    void funlock() const override {}
    IndexStats statistics() const override { NOTIMP; }
};
SYM_CASE(index, "an index of 1..2 fields with values of 1..2 characters, written in versions 1, 2, 3 and read back: what it may contain; a probe of 1..2 characters") {
    Key ik;
    ik.set("levtype", symStr("levtype", 0, 2, valueChar, 's'));
    FakeIndex* w = new FakeIndex(ik, "BTreeIndex");
    Index hold(w);
    Vals v;
    unsigned n = 1 + sym_choice("fields", 2);
    for (unsigned i = 0; i < n; ++i) {
        v.push_back(value(1, 2));
        w->put(datum(v[i], "1"), Field());
    }
    sym_assert(w->added.size() == n, "each field is added");
    w->flush();
    int version = 1 + sym_choice("version", 3);
    eckit::Buffer b(4096);
    eckit::MemoryStream out(b);
    w->encode(out, version);
    eckit::MemoryStream in(b);
    FakeIndex* r = new FakeIndex(in, version);
    Index hold2(r);
    sym_assert(r->key() == ik && r->type() == "BTreeIndex", "same key and type");
    sym_assert(version < 3 || r->timestamp() == w->timestamp(), "same time");
    std::string p = value(1, 2);
    for (FakeIndex* x : {w, r}) {
        for (auto& e : v)
            sym_assert(x->mayContain(datum(e, "1")) && x->mayContainPartial(datum(e, "1")), "the index may contain every field put into it");
        sym_assert(x->mayContain(datum(p, "1")) == among(v, p), "and no value that was never put");
    }
}
SYM_CASE(element, "axes of a database sent to a client: 1..2 keys with values of 0..2 characters, database key of 0..2 characters") {
    Source s(1 + sym_choice("keys", 2), 0, 2);
    s.ax.sort();
    Key db;
    db.set("class", symStr("class", 0, 2, valueChar, 'c'));
    db.set("expver", "0001");
    IndexAxis copy;
    copy.merge(s.ax);
    AxesElement e(Key(db), std::move(copy));
    eckit::Buffer b(e.encodeSize());
    eckit::MemoryStream out(b);
    out << e;
    eckit::MemoryStream in(b);
    AxesElement r(in);
    sym_assert(r.dbKey_ == db && r.axes() == s.ax, "the client sees the same axes");
}
