#include "local.h"
#include "fdb5/api/helpers/APIIterator.h"
#include "fdb5/toc/TocFieldLocation.h"
#include "fdb5/api/helpers/ListElement.h"
using namespace fdb5;
void sym_setup() {
    localSetup();
    throws([] { throw eckit::UserError("x"); });
    std::set<std::string> s{"a"};
}
template <class T>
struct Source : APIIteratorBase<T> {
    std::vector<T> v;
    size_t at = 0;
    int failAt = -1;
    bool* ended = nullptr;
    bool next(T& e) override {
        if ((int)at == failAt)
            throw eckit::ReadError("source");
        if (at == v.size()) {
            if (ended)
                *ended = true;
            return false;
        }
        e = v[at++];
        return true;
    }
};
static std::string val(const char* n) {
    // no ':' in values: what tells the values of a key apart
    return symStr(n, 0, 1, [](unsigned char c) { return (unsigned(c - 'a') < 26u) | (unsigned(c - '0') < 10u); });
}
static std::shared_ptr<const FieldLocation> loc(unsigned i) {
    return std::make_shared<TocFieldLocation>(eckit::PathName("/f"), eckit::Offset(i), eckit::Length(1), Key());
}
struct El {
    std::string a, b, c, d;
};
SYM_CASE(dedup, "3 (thorough 4) listed elements with any values of 0..1 characters in a database, an index and two datum keywords, in each list mode: first occurrences, later ones, all of them, in order") {
    unsigned n = deep() ? 4 : 3;
    auto* src = new Source<ListElement>;
    std::vector<El> els;
    for (unsigned i = 0; i < n; ++i) {
        El e{symStr("db", 1, 1, valueChar), i < 2 ? symStr("index", 1, 1, valueChar) : "i", val("datum"), val("datum2")};
        els.push_back(e);
        Key db, ix, da;
        db.set("cls", e.a);
        ix.set("typ", e.b);
        da.set("par", e.c);
        da.set("stp", e.d);
        src->v.push_back(ListElement(db, ix, da, loc(i), 100 - i));
    }
    auto same = [&](const El& x, const El& y) { return (x.a == y.a) & (x.b == y.b) & (x.c == y.c) & (x.d == y.d); };
    ListMode mode = sym_choice("mode", 3) == 0 ? ListMode::Full : sym_choice("mode2", 2) ? ListMode::Deduplicate : ListMode::OnlyDuplicates;
    ListIterator it(APIIterator<ListElement>(src), mode);
    ListElement got;
    for (unsigned i = 0; i < n; ++i) {
        bool before = false;
        for (unsigned j = 0; j < i; ++j)
            before = before | same(els[i], els[j]);
        bool want = mode == ListMode::Full ? true : mode == ListMode::Deduplicate ? !before : before;
        if (!want)
            continue;
        sym_assert(it.next(got), "every element that is due is delivered");
        sym_assert((long long)got.offset() == (long long)i, "the occurrence that is due, in order");
        sym_assert(got.keys()[0].get("cls") == els[i].a && got.keys()[2].get("stp") == els[i].d, "with its keys");
    }
    sym_assert(!it.next(got), "nothing else");
}
SYM_CASE(texts, "2 listed elements whose database, index and datum values have 1..2 (thorough 3) characters each, so that the values of different keys put together may be the same text; a keyword may be in the database key of one and the index key of the other") {
    auto* src = new Source<ListElement>;
    std::vector<El> els;
    unsigned top = deep() ? 3 : 2;
    auto letters = [](unsigned char c) { return unsigned(c - 'a') < 26u; };
    for (unsigned i = 0; i < 2; ++i) {
        El e{symStr("db", 1, top, letters), symStr("index", 1, top, letters), symStr("datum", 1, top, letters), ""};
        els.push_back(e);
        Key db, ix, da;
        db.set("cls", e.a);
        ix.set("typ", e.b);
        da.set("par", e.c);
        src->v.push_back(ListElement(db, ix, da, loc(i), 100 - i));
    }
    bool same = (els[0].a == els[1].a) & (els[0].b == els[1].b) & (els[0].c == els[1].c);
    bool only = sym_bool("only duplicates");
    ListIterator it(APIIterator<ListElement>(src), only ? ListMode::OnlyDuplicates : ListMode::Deduplicate);
    ListElement got;
    unsigned n = 0;
    while (it.next(got))
        ++n;
    sym_assert(n == (only ? (same ? 1 : 0) : (same ? 1 : 2)), "different fields are taken for one, or one for two");
}
SYM_CASE(aggregate, "0..3 sources of 0..2 elements each, one of which may fail at any point: every element of every source, in order; a failure is delivered") {
    unsigned n = sym_choice("sources", 4);
    std::queue<APIIterator<std::string>> q;
    std::vector<std::string> want;
    bool fails = false;
    for (unsigned i = 0; i < n; ++i) {
        auto* s = new Source<std::string>;
        unsigned m = sym_choice("elements", 3);
        for (unsigned k = 0; k < m; ++k)
            s->v.push_back(std::to_string(i) + std::to_string(k));
        if (!fails && sym_bool("fails")) {
            fails = true;
            s->failAt = sym_choice("at", m + 1);
            for (int k = 0; k < s->failAt; ++k)
                want.push_back(s->v[k]);
        }
        else if (!fails)
            want.insert(want.end(), s->v.begin(), s->v.end());
        q.emplace(s);
    }
    APIIterator<std::string> it(new APIAggregateIterator<std::string>(std::move(q)));
    std::vector<std::string> got;
    bool t = throws([&] {
        std::string s;
        while (it.next(s))
            got.push_back(s);
    });
    sym_assert(got == want, "elements of all sources in order");
    sym_assert(t == fails, "failure");
    if (!t) {
        std::string s;
        sym_assert(!it.next(s), "stays at the end");
    }
}
// producer runs to its end (or failure) before the consumer takes the first element; room for all
SYM_CASE(async, "a producer of 0..4 elements which may fail at any point or be abandoned: all elements, then the end or the failure") {
    unsigned n = sym_choice("elements", 5);
    int failAt = sym_bool("fails") ? (int)sym_choice("at", n + 1) : -1;
    unsigned take = sym_choice("taken", 3);
    std::vector<std::string> got;
    bool t = throws([&] {
        APIIterator<std::string> it(new APIAsyncIterator<std::string>(
            nullptr,
            [&](eckit::Queue<std::string>& q) {
                for (int i = 0; i < (int)n; ++i) {
                    if (i == failAt)
                        throw eckit::ReadError("producer");
                    q.emplace(std::to_string(i));
                }
                if ((int)n == failAt)
                    throw eckit::ReadError("producer");
            },
            10));
        std::string s;
        unsigned k = 0;
        while ((take == 2 || k++ < take) && it.next(s))
            got.push_back(s);
    });
    for (unsigned i = 0; i < got.size(); ++i)
        sym_assert(got[i] == std::to_string(i), "in order");
    if (take == 2) {
        sym_assert(t == (failAt >= 0), "a failure of the producer is delivered to the consumer");
        sym_assert(t || got.size() == n, "all elements");
    }
    else if (failAt < 0)
        sym_assert(!t && got.size() == std::min(n, take), "abandoned early");
}
// real databases
SYM_CASE(stored, "3 (thorough 5) archives of 3 fields in two databases by one or two processes, flushed or not in between: list in each mode against what was flushed") {
    std::string d = scratch();
    bool sub = sym_bool("subtocs");
    Config cfg = sub ? Config(localConfig(d), eckit::YAMLConfiguration(std::string("useSubToc: true"))) : localConfig(d);
    static const F fields[] = {{0, 0, 0}, {0, 0, 1}, {1, 1, 0}};
    std::unique_ptr<FDB> fdb(new FDB(cfg));
    std::map<std::string, std::vector<std::string>> all;  // versions that can be listed, oldest first
    std::map<std::string, std::string> pend;              // one index keeps one entry per key
    unsigned steps = deep() ? 5 : 3;
    unsigned n = 0;
    auto flushed = [&] {
        for (auto& p : pend)
            all[p.first].push_back(p.second);
        pend.clear();
    };
    for (unsigned k = 0; k < steps; ++k) {
        auto& f = fields[sym_choice("field", 3)];
        KV kv = fieldOf(f.db, f.ix, f.d);
        std::string b = "data" + std::to_string(n++);
        fdb->archive(mkKey(kv), b.data(), b.size());
        pend[textOf(kv)] = b;
        if (k + 1 == steps || sym_bool("flush")) {
            fdb->flush();
            flushed();
            if (k + 1 < steps && sym_bool("new process"))
                fdb.reset(new FDB(cfg));
        }
    }
    FDB rd(cfg);
    unsigned lvl = sym_choice("request", 2);
    FDBToolRequest rq(lvl ? mkRequest({{"cls", "od"}, {"ver", "0001"}}) : metkit::mars::MarsRequest(), !lvl);
    std::multimap<std::string, std::string> full, newest, seen;
    for (auto& v : all) {
        if (lvl && v.first.find("ver=0001") == std::string::npos)
            continue;
        newest.emplace(v.first, v.second.back());
        for (auto& x : v.second)
            full.emplace(v.first, x);
    }
    auto sorted = [](const std::multimap<std::string, std::string>& m) { return std::set<std::pair<std::string, std::string>>(m.begin(), m.end()); };
    auto dd = listAll(rd, rq, true, true);
    sym_assert(dd.size() == newest.size() && sorted(dd) == sorted(newest), "deduplicated: each key once, the newest");
    auto ff = listAll(rd, rq, false, true);
    // an index rewritten within one process keeps the newest entry of a key only
    sym_assert(ff.size() >= newest.size() && ff.size() <= full.size(), "not deduplicated: all occurrences");
    for (auto& x : ff)
        sym_assert(sorted(full).count(x), "nothing that was not archived");
    for (auto& x : newest)
        sym_assert(sorted(ff).count(x), "including the newest");
    // depth 1 and 2: each database, each index
    for (int level = 1; level <= 2; ++level) {
        auto it = rd.list(rq, true, level);
        ListElement e;
        std::set<std::string> got, want;
        unsigned cnt = 0;
        while (it.next(e)) {
            ++cnt;
            std::string s = "ver=" + e.keys()[0].get("ver");
            if (level == 2)
                s += ",typ=" + e.keys()[1].get("typ");
            got.insert(s);
        }
        for (auto& v : newest) {
            std::string ver = v.first.substr(v.first.find("ver="), 8), typ = v.first.substr(v.first.find("typ="), 6);
            want.insert(level == 2 ? ver + "," + typ : ver);
        }
        sym_assert(got == want && cnt == want.size(), "each database / index once at lower depths");
    }
}
