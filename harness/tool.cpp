// What the user asks for with a tool request is what is selected, refused, shown and sent; listings to a depth.
#include "local.h"
#include "fdb5/api/helpers/AxesIterator.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/toc/TocFieldLocation.h"
using namespace fdb5;
typedef std::vector<std::string> Strings;
void sym_setup() {
    localSetup();
    auto d = std::string(getenv("SYM_SCRATCH")) + "/warm2";
    mkdir(d.c_str(), 0777);
    FDB fdb(localConfig(d));
    auto it = fdb.axesIterator(FDBToolRequest({}, true), 3);
    AxesElement e;
    while (it.next(e))
        ;
    throws([] { FDBToolRequest::requestsFromString("x=1", {"y"}, true); });
    throws([] { FDBToolRequest::requestsFromString("class=od,expver=1,type=an,step=0", {}, false, "list"); });
}
static void check(const metkit::mars::MarsRequest& r, const std::map<std::string, Strings>& want) {
    auto got = r.params();
    sym_assert(got.size() == want.size(), "as many keywords");
    for (auto& kv : want) {
        sym_assert(r.has(kv.first), "every keyword");
        sym_assert(r.values(kv.first) == kv.second, "exactly the values");
    }
}
static char alnum(const char* n) {
    unsigned char c = sym_any<unsigned char>(n, 'a');
    sym_assume((c == 'a') | (c == 'q') | (c == '0') | (c == '7'));
    return (char)c;
}
SYM_CASE(text, "request texts over 3 keywords, each absent or with 1..2 values of one of four characters, any set of the keywords required; printed, sent and read back") {
    const char* kw[] = {"cls", "ver", "typ"};
    std::string t;
    std::map<std::string, Strings> want;
    Strings need;
    bool missing = false;
    for (unsigned i = 0; i < 3; ++i) {
        unsigned n = sym_choice("values", 3);
        bool min = sym_choice("minimum", 2);
        if (min) {
            need.push_back(kw[i]);
            missing |= !n;
        }
        if (!n)
            continue;
        t += std::string(t.empty() ? "" : ",") + kw[i] + "=";
        for (unsigned k = 0; k < n; ++k) {
            // the values of a keyword are different
            std::string v = i == 2 ? std::string(1, k ? 'b' : alnum("value")) + "x" : std::string(1, "ab"[k]) + "1";
            t += (k ? "/" : "") + v;
            want[kw[i]].push_back(v);
        }
    }
    if (t.empty())
        sym_end_path();
    std::vector<FDBToolRequest> rs;
    bool refused = throws([&] { rs = FDBToolRequest::requestsFromString(t, need, true); });
    sym_assert(refused == missing, "refused iff a required keyword is missing");
    if (refused)
        return;
    sym_assert(rs.size() == 1 && !rs[0].all(), "one request, not for everything");
    check(rs[0].request(), want);
    eckit::Buffer b(4096);
    eckit::MemoryStream w(b);
    w << rs[0];
    eckit::MemoryStream r(b);
    FDBToolRequest back(r);
    sym_assert(r.position() == w.position() && !back.all(), "sent");
    check(back.request(), want);
    sym_assert(!throws([&] { FDBToolRequest again(back.request(), false, need); }), "accepted again");
    // printed so that it can be given again
    std::ostringstream o;
    back.print(o, "", "");
    std::string p = o.str();
    sym_assert(p.find(",") != std::string::npos, "verb");
    auto again = FDBToolRequest::requestsFromString(p.substr(p.find(",") + 1), need, true);
    sym_assert(again.size() == 1, "one request");
    check(again[0].request(), want);
    sym_reach("accepted");
}
SYM_CASE(expanded, "texts that are expanded by the MARS language: class, expver, type, step in up to 3 spellings each or absent, any set of them required") {
    struct W {
        const char* kw;
        const char* text;
        Strings want;
    };
    static const W words[4][3] = {
        {{"class", "od", {"od"}}, {"class", "OD", {"od"}}, {"class", "rd", {"rd"}}},
        {{"expver", "1", {"0001"}}, {"expver", "0001", {"0001"}}, {"expver", "xxxy", {"xxxy"}}},
        {{"type", "an", {"an"}}, {"type", "fc", {"fc"}}, {"type", "forecast", {"fc"}}},
        {{"step", "0/to/6/by/3", {"0", "3", "6"}}, {"step", "12", {"12"}}, {"step", "6/0", {"6", "0"}}},
    };
    std::string t;
    std::map<std::string, Strings> want;
    Strings need;
    bool missing = false;
    for (unsigned i = 0; i < 4; ++i) {
        unsigned n = sym_choice("word", 4);
        if (n) {
            auto& x = words[i][n - 1];
            t += std::string(t.empty() ? "" : ",") + x.kw + "=" + x.text;
            want[x.kw] = x.want;
        }
    }
    if (unsigned m = sym_choice("minimum", 5)) {
        need.push_back(words[m - 1][0].kw);
        missing = !want.count(need[0]);
    }
    if (t.empty())
        sym_end_path();
    std::vector<FDBToolRequest> rs;
    bool refused = throws([&] { rs = FDBToolRequest::requestsFromString(t, need, false, "list"); });
    sym_assert(refused == missing, "refused iff a required keyword is missing");
    if (refused)
        return;
    sym_assert(rs.size() == 1 && !rs[0].all(), "one request, not for everything");
    check(rs[0].request(), want);
    sym_reach("expanded");
}
struct Fld {
    unsigned db, ix, d;
    bool operator<(const Fld& o) const { return std::tie(db, ix, d) < std::tie(o.db, o.ix, o.d); }
};
static const char* const vers[] = {"0001", "0002"};
static const char* const typs[] = {"an", "fc"};
static const char* const pars[] = {"167", "168"};
static std::string text(const Key& k) {
    std::string s;
    for (auto& kv : k)
        s += kv.first + "=" + kv.second + ",";
    return s;
}
SYM_CASE(depth, "2 fields (any of 2 databases, 2 indexes, 2 data), flushed together or apart; requests with none, one or both values of one keyword per level, or for everything, or an empty one; depths 1..3; database 0 possibly locked for listing") {
    auto dir = scratch();
    Config cfg = localConfig(dir);
    std::set<Fld> all;
    {
        FDB f(cfg);
        bool apart = sym_choice("apart", 2);
        for (unsigned i = 0; i < 2; ++i) {
            unsigned n = sym_choice("field", i ? 8 : deep() ? 8 : 2);
            Fld x{n & 1, n >> 1 & 1, n >> 2 & 1};
            f.archive(mkKey(fieldOf(x.db, x.ix, x.d)), "data", 4);
            if (apart)
                f.flush();
            all.insert(x);
        }
        f.flush();
    }
    unsigned rq[3];
    std::string t;
    bool everything = sym_choice("everything", 2), empty = everything;
    if (!everything) {
        const char* kw[] = {"ver", "typ", "par"};
        const char* const* vals[] = {vers, typs, pars};
        for (unsigned i = 0; i < 3; ++i) {
            rq[i] = sym_choice("values", 4);
            if (!rq[i])
                continue;
            t += std::string(t.empty() ? "" : ",") + kw[i] + "=";
            t += rq[i] == 3 ? std::string(vals[i][0]) + "/" + vals[i][1] : vals[i][rq[i] - 1];
        }
        empty = t.empty();
    }
    else
        rq[0] = rq[1] = rq[2] = 0;
    bool locked = everything && sym_choice("locked", 2);
    FDB f(cfg);
    if (locked) {
        auto c = f.control(FDBToolRequest(mkRequest({{"cls", "od"}, {"ver", "0001"}})), ControlAction::Disable, ControlIdentifier::List);
        ControlElement e;
        while (c.next(e))
            ;
    }
    FDBToolRequest r = empty ? FDBToolRequest({}, everything) : FDBToolRequest::requestsFromString(t, {}, true)[0];
    int level = 1 + sym_choice("depth", 3);
    std::map<std::string, unsigned> got, want;
    bool failed = throws([&] {
        auto it = f.list(r, true, level);
        ListElement e;
        while (it.next(e)) {
            auto& k = e.keys();
            sym_assert(!k[0].empty() && k[1].empty() == (level < 2) && k[2].empty() == (level < 3), "as many levels as asked for");
            ++got[text(k[0]) + "{" + text(k[1]) + "{" + text(k[2])];
            std::ostringstream o;
            o << e;
            Key c = e.combinedKey();
            for (auto& kv : c)
                sym_assert(o.str().find(kv.first + "=" + kv.second) != std::string::npos, "shown");
        }
    });
    sym_assert(failed == (empty && !everything), "an empty request selects everything only when it says so");
    if (failed)
        return;
    auto sel = [&](unsigned i, unsigned v) { return !rq[i] || rq[i] == 3 || rq[i] - 1 == v; };
    for (auto& x : all) {
        if (locked && !x.db)
            continue;
        if (!sel(0, x.db) || (level > 1 && (!sel(1, x.ix) || !sel(2, x.d))))
            continue;
        std::string k = std::string("cls=od,ver=") + vers[x.db] + ",{";
        if (level > 1)
            k += std::string("lev=sfc,typ=") + typs[x.ix] + ",";
        k += "{";
        if (level > 2)
            k += std::string("par=") + pars[x.d] + ",stp=0,";
        want[k] = 1;
    }
    sym_assert(got == want, "exactly what is asked for, once");
    if (!want.empty())
        sym_reach("listed");
    if (locked)
        return;
    // the axes
    auto it = f.axesIterator(r, level);
    AxesElement e;
    std::map<std::string, std::set<std::string>> ax;
    while (it.next(e)) {
        std::string ver = e.key().get("ver");
        for (auto kw : {"cls", "ver", "typ", "lev", "par", "stp"})
            if (e.axes().has(kw))
                for (auto& v : e.axes().values(kw))
                    sym_assert(ax[ver + kw].insert(v).second, "each value once");
    }
    for (unsigned db = 0; db < 2; ++db)
        for (unsigned i = 0; i < 3; ++i) {
            std::set<std::string> w;
            for (auto& x : all) {
                if (x.db != db || !sel(0, db))
                    continue;
                if (i == 0)
                    w.insert(vers[db]);
                if (i == 1 && level > 1) {
                    bool any = false;  // an index is selected by the values it holds
                    for (auto& y : all)
                        any |= y.db == x.db && y.ix == x.ix && sel(2, y.d);
                    if (any && sel(1, x.ix))
                        w.insert(typs[x.ix]);
                }
                if (i == 2 && level > 2) {
                    bool any = false;
                    for (auto& y : all)
                        any |= y.db == x.db && y.ix == x.ix && sel(2, y.d);
                    if (any && sel(1, x.ix))
                        w.insert(pars[x.d]);
                }
            }
            const char* kw[] = {"ver", "typ", "par"};
            auto g = ax.find(std::string(vers[db]) + kw[i]);
            auto have = g == ax.end() ? std::set<std::string>() : g->second;
            for (auto& v : have)
                sym_assert(w.count(v), "only axes of the indexes of what is asked for");
            for (auto& x : all)
                if (x.db == db && sel(0, db) && (i < 1 || (level > 1 && sel(1, x.ix) && sel(2, x.d))) && (i < 2 || level > 2))
                    sym_assert(have.count(i == 0 ? vers[db] : i == 1 ? typs[x.ix] : pars[x.d]), "the axes of what is asked for");
        }
}
static bool low(unsigned char c) { return unsigned(c - 'a') < 26u; }
SYM_CASE(element, "listed elements of 1..3 levels with values of 0..2 symbolic letters, any offset and length below 2^31 and any time: sent, shown as JSON and combined") {
    unsigned levels = 1 + sym_choice("levels", 3);
    std::string v[3];
    Key k[3];
    const char* kw[] = {"a", "b", "c"};
    for (unsigned i = 0; i < levels; ++i) {
        v[i] = symStr(kw[i], 0, i ? 1 : 2, low);
        k[i].push(kw[i], v[i]);
    }
    auto off = sym_range<long long>("offset", 0, 0x7fffffff), len = sym_range<long long>("length", 0, 0x7fffffff);
    auto t = sym_range<long>("time", 0, 0x7fffffff);
    auto loc = std::make_shared<TocFieldLocation>(eckit::PathName("/some/file"), eckit::Offset(off), eckit::Length(len), Key());
    ListElement e = levels == 1 ? ListElement(k[0], t) : levels == 2 ? ListElement(k[0], k[1], t) : ListElement(k[0], k[1], k[2], loc, t);
    eckit::Buffer b(4096);
    eckit::MemoryStream w(b);
    w << e;
    eckit::MemoryStream r(b);
    ListElement g(r);
    sym_assert(r.position() == w.position(), "consumed");
    sym_assert(g.timestamp() == t, "time");
    for (unsigned i = 0; i < 3; ++i) {
        sym_assert(g.keys()[i].size() == (i < levels ? 1u : 0u), "levels");
        if (i < levels)
            sym_assert(g.keys()[i].get(kw[i]) == v[i], "value");
    }
    if (levels == 3) {
        sym_assert((long long)g.offset() == off && (long long)g.length() == len, "location");
        sym_assert(g.uri().path() == eckit::PathName("/some/file"), "file");
    }
    else {
        sym_assert((long long)g.length() == 0 && throws([&] { g.location(); }), "no location");
    }
    Key c = g.combinedKey();
    sym_assert(c.size() == levels, "combined");
    for (unsigned i = 0; i < levels; ++i)
        sym_assert(c.get(kw[i]) == v[i], "combined value");
}
SYM_CASE(compact, "3 fields out of 2 databases, 2 indexes, 2 x 2 data of different lengths: the compact listing counts every field and its length once and its requests denote exactly the fields") {
    struct Src : APIIteratorBase<ListElement> {
        std::vector<ListElement> v;
        size_t at = 0;
        bool next(ListElement& e) override {
            if (at == v.size())
                return false;
            e = v[at++];
            return true;
        }
    };
    auto* s = new Src;
    std::set<std::string> want;
    long long total = 0;
    for (unsigned i = 0; i < 3; ++i) {
        unsigned n = sym_choice("field", i ? 16 : 4);
        KV kv = fieldOf(n >> 2 & 1, n >> 3 & 1, n & 1);
        kv["step"] = n & 2 ? "6" : "0";
        kv["param"] = kv["par"];
        kv.erase("par");
        kv.erase("stp");
        Key a, b, c;
        for (auto kw : {"cls", "ver"})
            a.push(kw, kv[kw]);
        for (auto kw : {"typ", "lev"})
            b.push(kw, kv[kw]);
        for (auto kw : {"param", "step"})
            c.push(kw, kv[kw]);
        if (!want.insert(textOf(kv)).second)
            sym_end_path();
        long long len = 1ll << 15 * i;
        total += len;
        s->v.push_back(ListElement(a, b, c, std::make_shared<TocFieldLocation>(eckit::PathName("/f"), eckit::Offset(0), eckit::Length(len), Key()), 1));
    }
    ListIterator it(APIIterator<ListElement>(s), ListMode::Full);
    std::ostringstream o;
    auto p = it.dumpCompact(o);
    sym_assert(p.first == want.size(), "fields counted");
    sym_assert((long long)p.second == total, "lengths added");
    // what the lines denote
    std::multiset<std::string> got;
    std::istringstream in(o.str());
    std::string line;
    while (std::getline(in, line)) {
        std::vector<KV> fs(1);
        std::istringstream w(line);
        std::string item;
        while (std::getline(w, item, ',')) {
            auto eq = item.find('=');
            if (eq == std::string::npos)
                continue;
            auto trim = [](std::string x) {
                std::string y;
                for (char ch : x)
                    if (ch != ' ' && ch != '\t')
                        y += ch;
                return y;
            };
            std::string kw = trim(item.substr(0, eq)), val;
            std::vector<KV> next;
            std::istringstream vs(item.substr(eq + 1));
            while (std::getline(vs, val, '/'))
                for (auto f : fs) {
                    f[kw] = trim(val);
                    next.push_back(f);
                }
            fs = next;
        }
        for (auto& f : fs)
            got.insert(textOf(f));
    }
    sym_assert(got == std::multiset<std::string>(want.begin(), want.end()), "the lines denote exactly the fields");
}
