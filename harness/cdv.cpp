#include <algorithm>
#include <map>
#include <set>
#include "common.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/PeekHandle.h"
#include "eckit/message/Message.h"
#include "eckit/message/MessageContent.h"
#include "eckit/message/Splitter.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"
#include "chunked_data_view/Axis.h"
#include "chunked_data_view/ChunkedDataView.h"
#include "chunked_data_view/ChunkedDataViewBuilder.h"
#include "chunked_data_view/ChunkedDataViewImpl.h"
#include "chunked_data_view/Fdb.h"
#include "chunked_data_view/GribExtractor.h"
#include "chunked_data_view/ListIterator.h"
#include "chunked_data_view/RequestManipulation.h"
#include "chunked_data_view/ViewPart.h"
#include "chunked_data_view/mapping/AxisMapper.h"
#include "chunked_data_view/mapping/IndexMapper.h"
using namespace chunked_data_view;
using fdb5::Key;
using metkit::mars::MarsRequest;
using u64 = unsigned long;

// ---- messages of the test: "TEST", number of values (1 byte), whether there is a bitmap (1 byte), number of the field (1 byte)
struct TestContent : eckit::message::MessageContent {
    unsigned char n, bitmap, id;
    TestContent(const unsigned char* p) : n(p[4]), bitmap(p[5]), id(p[6]) {}
    operator bool() const override { return true; }
    size_t getSize(const std::string&) const override { return n; }
    long getLong(const std::string&) const override { return bitmap; }
    double getDouble(const std::string&) const override { return 9999; }
    void getFloatArray(const std::string&, float* d, size_t len) const override {
        for (size_t i = 0; i < len; ++i)
            d[i] = i == 0 && bitmap ? 9999 : id * 10 + i;
    }
    void print(std::ostream& s) const override { s << "TestContent"; }
};
struct TestSplitter : eckit::message::Splitter {
    using Splitter::Splitter;
    eckit::message::Message next() override {
        unsigned char b[7];
        if (handle_.read(b, 7) != 7)
            return eckit::message::Message();
        return eckit::message::Message(new TestContent(b));
    }
    void print(std::ostream& s) const override { s << "TestSplitter"; }
};
struct TestSplitterBuilder : eckit::message::SplitterBuilderBase {
    eckit::message::Splitter* make(eckit::PeekHandle& h) const override { return new TestSplitter(h); }
    bool match(eckit::PeekHandle& h) const override { return h.peek(0) == 'T' && h.peek(1) == 'E'; }
};
void sym_setup() {
    harnessInit();
    fdb5::LibFdb5::instance();
    static TestSplitterBuilder b;
    std::string s = "TEST\1\0\1";
    MarsRequest("retrieve").setValue("step", "0");
}
// ---------------------------------------------------------------- boxes
static BoundingBox box(const char* name, std::vector<u64>& lo, std::vector<u64>& hi, unsigned dims, u64 max = ~0ul) {
    for (unsigned i = 0; i < dims; ++i) {
        lo.push_back(sym_any<u64>(name, 2));
        hi.push_back(sym_any<u64>(name, 5));
        sym_assume(lo[i] <= hi[i] && hi[i] <= max);
    }
    return BoundingBox(lo, hi);
}
SYM_CASE(boxes, "2 boxes of 1..2 dimensions with any corners of 64 bits, any point, any shift") {
    unsigned dims = 1 + sym_choice("dims", 2);
    std::vector<u64> al, ah, bl, bh;
    BoundingBox a = box("a", al, ah, dims), b = box("b", bl, bh, dims);
    std::vector<u64> p;
    bool inA = true, inB = true, aInB = true;
    for (unsigned i = 0; i < dims; ++i) {
        p.push_back(sym_any<u64>("point", 3));
        inA = inA & (al[i] <= p[i]) & (p[i] <= ah[i]);
        inB = inB & (bl[i] <= p[i]) & (p[i] <= bh[i]);
        aInB = aInB & (bl[i] <= al[i]) & (ah[i] <= bh[i]);
    }
    sym_assert(b.contains(a) == aInB, "containment of every corner");
    auto c = a.intersect(b);
    bool inC = c.has_value();
    if (c)
        for (unsigned i = 0; i < dims; ++i)
            inC = inC & (c->lower()[i] <= p[i]) & (p[i] <= c->upper()[i]);
    sym_assert(inC == (inA & inB), "a point is in the intersection exactly when it is in both boxes");
    if (c)
        sym_assert(a.contains(*c) && b.contains(*c), "the intersection is in both");
    auto d = b.intersect(a);
    sym_assert(d.has_value() == c.has_value(), "symmetric");
    std::vector<u64> s;
    bool fits = true;
    for (unsigned i = 0; i < dims; ++i) {
        s.push_back(sym_any<u64>("shift", 1));
        fits = fits & (s[i] <= al[i]);
    }
    if (fits) {
        BoundingBox t = a.subtract(s);
        bool in = true;
        for (unsigned i = 0; i < dims; ++i)
            in = in & (t.lower()[i] + s[i] == al[i]) & (t.upper()[i] + s[i] == ah[i]);
        sym_assert(in, "shifted");
    }
    else
        sym_assert(throws([&] { a.subtract(s); }), "a shift below zero is an error");
}
SYM_CASE(entries, "boxes of 1..3 dimensions with corners up to 255: number of entries; inverted corners are refused") {
    unsigned dims = 1 + sym_choice("dims", 3);
    std::vector<u64> lo, hi;
    u64 n = 1;
    BoundingBox a = box("a", lo, hi, dims, 255);
    for (unsigned i = 0; i < dims; ++i)
        n *= hi[i] - lo[i] + 1;
    sym_assert(a.entries() == n, "product of the extents");
    std::vector<u64> l2 = lo, h2 = hi;
    l2[0] = sym_any<u64>("low", 1);
    sym_assert(throws([&] { BoundingBox(l2, h2); }) == (l2[0] > h2[0]), "lower above upper is refused");
}
// ---------------------------------------------------------------- axes
static const char* const kw[] = {"date", "time", "step", "param", "levelist", "number"};
static Axis axis(unsigned params, unsigned first, std::vector<unsigned>& card, unsigned maxCard) {
    std::vector<Parameter> ps;
    for (unsigned i = 0; i < params; ++i) {
        card.push_back(1 + sym_choice("card", maxCard));
        std::vector<std::string> v;
        for (unsigned k = 0; k < card[i]; ++k)
            v.push_back(std::to_string((k * 7 + 3) % 10) + "x");
        ps.emplace_back(std::string(kw[first + i]), v);
    }
    return Axis(ps);
}
SYM_CASE(axes, "axes of 1..3 keywords with 1..3 (thorough 4) values each, any index in the axis and 5 beyond: keys and indices correspond one to one, last keyword fastest") {
    std::vector<unsigned> card;
    Axis ax = axis(1 + sym_choice("params", 3), 0, card, deep() ? 4 : 3);
    u64 size = 1;
    for (unsigned c : card)
        size *= c;
    sym_assert(ax.size() == size, "size is the product");
    static const u64 far[] = {0, 1, 7, ~0ul / 2, ~0ul - 64};
    u64 i = sym_bool("beyond") ? size + far[sym_choice("beyond", 5)] : sym_range<uint8_t>("index", 0, size - 1);
    if (i >= size) {
        sym_assert(throws([&] { index_mapping::to_axis_parameter_index(i, ax); }), "an index beyond the axis is an error");
        return;
    }
    auto m = index_mapping::to_axis_parameter_index(i, ax);
    sym_assert(m.size() == card.size(), "one index per keyword");
    u64 back = 0;
    bool in = true;
    for (unsigned k = 0; k < card.size(); ++k) {
        back = back * card[k] + m[k];
        in = in & (m[k] < card[k]);
    }
    sym_assert(in && back == i, "row-major");
    Key key;
    for (unsigned k = 0; k < card.size(); ++k)
        key.set(kw[k], ax.parameters()[k].values()[m[k]]);
    key.set("other", "z");
    sym_assert(ax.index(key) == i, "the key of an index has that index");
    key.set(kw[0], "not there");
    sym_assert(throws([&] { ax.index(key); }), "a value not on the axis is an error");
}
SYM_CASE(buffer, "1..2 axes of 2 keywords with 1..3 values each, any part offset, buffer offset and extent up to 7: each key of the part has its slot, inside the buffer") {
    unsigned n = 1 + sym_choice("axes", 2);
    std::vector<Axis> axes;
    std::vector<u64> po, bo, be, ix;
    Key key;
    bool ok = true;
    u64 slot = 0;
    for (unsigned a = 0; a < n; ++a) {
        std::vector<unsigned> card;
        axes.push_back(axis(a ? 1 : 2, a * 2, card, 3));
        po.push_back(sym_range<uint8_t>("part offset", 0, 7));
        bo.push_back(sym_range<uint8_t>("buffer offset", 0, 7));
        be.push_back(sym_range<uint8_t>("buffer extent", 1, 7));
        u64 i = 0;
        for (unsigned k = 0; k < card.size(); ++k) {
            unsigned v = sym_choice("value", card[k]);
            i = i * card[k] + v;
            key.set(kw[a * 2 + k], axes[a].parameters()[k].values()[v]);
        }
        ok = ok & (bo[a] < be[a]) & (i >= po[a]) & (i - po[a] + bo[a] < be[a]);
        slot = slot * be[a] + (i - po[a] + bo[a]);
    }
    u64 got = ~0ul;
    bool t = throws([&] { got = index_mapping::computeBufferIndex(axes, key, po, bo, be); });
    sym_assert(t == !ok, "a key outside the buffer is an error");
    if (ok)
        sym_assert(got == slot, "row-major slot");
}
SYM_CASE(chunks, "axes of 1..3 keywords with 1..4 values each, any chunk size up to 31: accepted exactly when every chunk is a rectangle of values; then each chunk selects its own indices") {
    std::vector<unsigned> card;
    unsigned n = 1 + sym_choice("params", 3);
    Axis ax = axis(n, 0, card, deep() ? 4 : 3);
    u64 c = sym_range<uint8_t>("chunk", 0, 31);
    if (c == 0) {
        sym_assert(throws([&] { AxisMapper::chunkSizeCheck(ax, c); }), "0 is refused");
        return;
    }
    bool exp = false;
    u64 trail = 1;
    for (unsigned k = n; k-- > 0;) {
        for (u64 d = 1; d <= card[k]; ++d)
            if (card[k] % d == 0)
                exp = exp | (c == trail * d);
        trail *= card[k];
    }
    sym_assert(AxisMapper::chunkSizeCheck(ax, c) == exp, "sizes that divide the axis into rectangles");
    if (!exp) {
        sym_assert(throws([&] { AxisMapper::mapAxisToChunks(ax, AxisDefinition::FixedSizeChunking{c}); }), "others are refused");
        return;
    }
    AxisChunks ch = AxisMapper::mapAxisToChunks(ax, AxisDefinition::FixedSizeChunking{c});
    u64 sum = 0;
    for (u64 e : ch.extensions()) {
        sym_assert(e == c, "equal chunks");
        MarsRequest rq("retrieve");
        for (unsigned k = 0; k < n; ++k)
            rq.values(kw[k], ax.parameters()[k].values());
        RequestManipulation::updateRequest(rq, ax, sum, sum + e - 1);
        u64 cnt = 1;
        for (unsigned k = 0; k < n; ++k)
            cnt *= rq.countValues(kw[k]);
        sym_assert(cnt == e, "a chunk is one request");
        sum += e;
    }
    sym_assert(sum == ax.size(), "the chunks make up the axis");
}
// which requests a range of an axis may be turned into
SYM_CASE(select, "an axis of 1..3 keywords with 1..3 values each, any range of it: the request has exactly the values of the range or it is refused") {
    std::vector<unsigned> card;
    unsigned n = 1 + sym_choice("params", 3);
    Axis ax = axis(n, 0, card, 3);
    unsigned size = ax.size();
    unsigned lo = sym_choice("low", size), hi = lo + sym_choice("count", size - lo);
    MarsRequest rq("retrieve");
    rq.setValue("class", "od");
    for (unsigned k = 0; k < n; ++k)
        rq.values(kw[k], ax.parameters()[k].values());
    if (throws([&] { RequestManipulation::updateRequest(rq, ax, lo, hi); })) {
        // must not be a rectangle
        std::vector<std::set<u64>> s(n);
        for (unsigned i = lo; i <= hi; ++i) {
            unsigned r = i;
            for (unsigned k = n; k-- > 0;) {
                s[k].insert(r % card[k]);
                r /= card[k];
            }
        }
        u64 cnt = 1;
        for (auto& x : s)
            cnt *= x.size();
        sym_assert(cnt != hi - lo + 1, "a range that is one request is not refused");
        return;
    }
    std::set<u64> got;
    std::vector<std::vector<std::string>> v;
    u64 cnt = 1;
    for (unsigned k = 0; k < n; ++k) {
        v.push_back(rq.values(kw[k]));
        cnt *= v[k].size();
    }
    for (u64 i = 0; i < cnt; ++i) {
        u64 r = i;
        Key key;
        for (unsigned k = n; k-- > 0;) {
            key.set(kw[k], v[k][r % v[k].size()]);
            r /= v[k].size();
        }
        got.insert(ax.index(key));
    }
    sym_assert(cnt == hi - lo + 1 && got.size() == cnt && *got.begin() == lo && *got.rbegin() == hi, "exactly the indices of the range");
    sym_assert(rq["class"] == "od", "the rest of the request is kept");
}
// ---------------------------------------------------------------- whole views
static unsigned fieldId(const Key& k) {
    unsigned id = 1;
    for (const char* w : {"step", "number", "levelist"}) {
        auto [it, found] = k.find(w);
        id = id * 4 + (found ? (it->second[0] - '0') % 4 : 0);
    }
    return id;
}
struct FakeFdb;
struct FakeList : ListIteratorInterface {
    std::vector<Key> keys;
    FakeFdb* fdb;
    size_t at = 0;
    std::optional<std::tuple<Key, std::unique_ptr<eckit::DataHandle>>> next() override;
};
struct FakeFdb : FdbInterface {
    unsigned values = 2, missing = 0, order = 0, bitmap = 0, oddSize = 0;
    std::unique_ptr<eckit::DataHandle> handle(unsigned id) {
        auto h = std::make_unique<eckit::MemoryHandle>(7);
        h->openForWrite(0);
        unsigned char b[7] = {'T', 'E', 'S', 'T', (unsigned char)(id && id == oddSize ? values + 1 : values), (unsigned char)(id == bitmap), (unsigned char)id};
        h->write(b, 7);
        h->close();
        return h;
    }
    std::unique_ptr<eckit::DataHandle> retrieve(const MarsRequest&) override { return handle(0); }
    std::unique_ptr<ListIteratorInterface> inspect(const MarsRequest& rq) override {
        auto l = std::make_unique<FakeList>();
        l->fdb = this;
        std::vector<Key> ks(1);
        for (const char* w : {"step", "number", "levelist"}) {
            std::vector<Key> nx;
            for (auto& k : ks)
                for (auto& v : rq.values(w, true)) {
                    Key c = k;
                    c.set(w, v);
                    nx.push_back(c);
                }
            if (!nx.empty())
                ks = nx;
        }
        for (auto& k : ks)
            if (fieldId(k) != missing)
                l->keys.push_back(k);
        if (order == 1)
            std::reverse(l->keys.begin(), l->keys.end());
        if (order == 2 && l->keys.size() > 2)
            std::swap(l->keys[0], l->keys[1]);
        return l;
    }
};
std::optional<std::tuple<Key, std::unique_ptr<eckit::DataHandle>>> FakeList::next() {
    if (at == keys.size())
        return std::nullopt;
    Key k = keys[at++];
    auto h = fdb->handle(fieldId(k));
    h->openForRead();
    return std::make_tuple(k, std::move(h));
}
static AxisDefinition::ChunkingType chunking(unsigned c) {
    if (c == 0)
        return AxisDefinition::WholeAxisChunking{};
    if (c == 1)
        return AxisDefinition::SingleValueChunking{};
    return AxisDefinition::FixedSizeChunking{c};
}
static const char* const steps[] = {"0", "1", "2", "3"};
static std::string list(unsigned first, unsigned n) {
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        s += (i ? "/" : "") + std::string(steps[first + i]);
    return s;
}
static void view(bool parts2) {
    // one or two axes from step, param, levelist; parts are put together along one of them
    unsigned layout = sym_choice("layout", 3);  // 0: [step][param]  1: [step,param]  2: [step,param][levelist]
    unsigned ext = layout == 1 ? 0 : sym_choice("extend", 2);
    unsigned np = sym_choice("params", 2) + 1;
    unsigned nl = layout == 2 ? 2 : 1;
    unsigned c0 = sym_choice("chunk0", 4), c1 = layout == 1 ? 0 : sym_choice("chunk1", 3);
    auto fdb = std::make_shared<FakeFdb>();
    fdb->order = parts2 && !deep() ? 1 : sym_choice("order", 3);
    unsigned odd = deep() || !parts2 ? sym_choice("odd", 4) : 0;
    struct Part {
        unsigned s0, ns, p0, np, l0, nl;
    };
    std::vector<Part> ps;
    unsigned n = parts2 ? 2 : 1;
    ChunkedDataViewBuilder b;
    std::vector<std::vector<unsigned>> cards;
    std::vector<std::shared_ptr<FakeFdb>> fdbs;
    unsigned otherSize = parts2 ? sym_choice("values of part 2", 2) : 0;
    for (unsigned i = 0; i < n; ++i) {
        Part p{i * 2, 1 + sym_choice("steps", 2 + (i == 0)), 0, np, 0, nl};
        if (i && ext == 1)
            (layout == 2 ? p.nl : p.np) = 1 + sym_choice("count", 2);
        ps.push_back(p);
        auto f = fdb;
        if (i && otherSize) {
            f = std::make_shared<FakeFdb>(*fdb);
            f->values = fdb->values + 1;
        }
        fdbs.push_back(f);
        std::string rq = "step=" + list(p.s0 > 2 ? 2 : p.s0, p.ns > 2 && p.s0 ? 2 : p.ns) + ",number=" + list(p.p0, p.np) + ",levelist=" + list(p.l0, p.nl);
        std::vector<AxisDefinition> defs;
        if (layout == 0)
            defs = {{{"step"}, chunking(c0)}, {{"number"}, chunking(c1)}};
        if (layout == 1)
            defs = {{{"step", "number"}, chunking(c0)}};
        if (layout == 2)
            defs = {{{"step", "number"}, chunking(c0)}, {{"levelist"}, chunking(c1)}};
        b.addPart(rq, defs, std::make_shared<GribExtractor>(f));
    }
    if (parts2)
        b.extendOnAxis(ext);
    b.fillMissingValue(-5);
    // expected shape
    auto dims = [&](const Part& p) { return layout == 0 ? std::vector<u64>{p.ns, p.np} : layout == 1 ? std::vector<u64>{p.ns * p.np} : std::vector<u64>{p.ns * p.np, p.nl}; };
    std::vector<u64> shape = dims(ps[0]);
    bool fit = true;
    if (parts2)
        for (u64 d = 0; d < shape.size(); ++d) {
            if (d == ext)
                shape[d] += dims(ps[1])[d];
            else
                fit = fit && shape[d] == dims(ps[1])[d];
        }
    unsigned target = 0;
    if (odd) {  // one field is missing, has missing values, or has another size
        Key k;
        k.set("step", steps[ps[0].ns - 1]);
        k.set("number", steps[np - 1]);
        k.set("levelist", steps[nl - 1]);
        target = fieldId(k);
        (odd == 1 ? fdb->missing : odd == 2 ? fdb->bitmap : fdb->oddSize) = target;
    }
    std::unique_ptr<ChunkedDataView> v;
    bool refused = throws([&] { v = b.build(); });
    if (refused) {
        // only what cannot be a view is refused: shapes that do not fit, chunk sizes that do not divide a part
        bool chunkOk = true;
        for (auto& p : ps) {
            auto d = dims(p);
            // [step,param] as one axis: sizes that are a rectangle
            unsigned inner = layout == 0 ? 1 : p.np;
            if (c0 > 1)
                chunkOk = chunkOk && (layout == 0 ? d[0] % c0 == 0 : (inner % c0 == 0 || (c0 % inner == 0 && p.ns % (c0 / inner) == 0)));
            if (d.size() > 1 && c1 > 1)
                chunkOk = chunkOk && d[1] % c1 == 0;
        }
        sym_assert(!fit || !chunkOk || otherSize, "a possible view is not refused");
        return;
    }
    sym_assert(fit && !otherSize, "parts that do not fit together are refused");
    u64 nv = fdb->values;
    std::vector<u64> full = shape;
    full.push_back(nv);
    sym_assert(v->shape() == full, "shape of the array");
    auto cs = v->chunkShape();
    auto nc = v->chunks();
    sym_assert(cs.size() == full.size() && nc.size() == full.size() && cs.back() == nv && nc.back() == 1, "dimensions");
    for (u64 d = 0; d < shape.size(); ++d) {
        unsigned c = d ? c1 : c0;
        sym_assert(cs[d] == (c == 0 ? shape[d] : c), "extent of a chunk");
        sym_assert(nc[d] * cs[d] == shape[d], "the chunks make up the array");
    }
    // every chunk
    bool failed = false, seen = false;
    for (u64 x = 0; x < nc[0]; ++x)
        for (u64 y = 0; y < (shape.size() > 1 ? nc[1] : 1); ++y) {
            std::vector<u64> idx{x};
            if (shape.size() > 1)
                idx.push_back(y);
            idx.push_back(0);
            u64 len = v->countChunkValues();
            std::vector<float> buf(len + 2, -1);
            bool has = false;
            bool t = throws([&] { v->at(idx, buf.data(), len); });
            u64 e1 = shape.size() > 1 ? cs[1] : 1;
            for (u64 i = 0; i < cs[0]; ++i)
                for (u64 j = 0; j < e1; ++j) {
                    u64 g[2] = {x * cs[0] + i, y * e1 + j};
                    const Part* p = &ps[0];
                    if (parts2 && g[ext] >= dims(ps[0])[ext]) {
                        g[ext] -= dims(ps[0])[ext];
                        p = &ps[1];
                    }
                    unsigned st = layout == 0 ? g[0] : g[0] / p->np, pa = layout == 0 ? g[1] : g[0] % p->np, le = layout == 2 ? g[1] : 0;
                    Key k;
                    k.set("step", steps[p->s0 + st]);
                    k.set("number", steps[p->p0 + pa]);
                    k.set("levelist", steps[p->l0 + le]);
                    unsigned id = fieldId(k);
                    bool special = odd && id == target;
                    has = has || special;
                    if (t)
                        continue;
                    for (u64 q = 0; q < nv; ++q) {
                        float f = id * 10 + q;
                        if (special && odd == 2 && q == 0)
                            f = -5;
                        sym_assert(special && odd != 2 ? false : buf[(i * e1 + j) * nv + q] == f, "every value is that of the field with the key of its position");
                    }
                }
            sym_assert(t == (has && odd != 2 && odd != 0), "a chunk fails exactly when one of its fields is missing or has another size");
            sym_assert(buf[len] == -1 && buf[len + 1] == -1, "nothing is written beyond the buffer");
            seen = seen || has;
        }
    sym_assert(!odd || seen, "every field is in a chunk");
    std::vector<float> buf(64);
    for (u64 d = 0; d < full.size(); ++d) {
        std::vector<u64> idx(full.size(), 0);
        idx[d] = nc[d];
        sym_assert(throws([&] { v->at(idx, buf.data(), 64); }), "a chunk outside the array is an error");
    }
    sym_reach("view");
}
SYM_CASE(view1, "1 part: 1..3 steps, 1..2 numbers, 1..2 levels as axes [step][number], [step,number], [step,number][levelist]; whole, single or fixed chunks of 2..3; fields found in any of 3 orders; one missing, with a bitmap or of another size") {
    view(false);
}
SYM_CASE(view2, "2 parts put together along either axis, with equal or different extents and field sizes; as above") {
    view(true);
}
