#include <map>
#include <dlfcn.h>
#include "common.h"
#include "eckit/config/LocalConfiguration.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/FDBFactory.h"
#include "fdb5/api/SelectFDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListElement.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/Key.h"
#include "fdb5/rules/SelectMatcher.h"
#include "metkit/mars/Matcher.h"
#include "metkit/mars/MarsRequest.h"
using namespace fdb5;
using metkit::mars::MarsRequest;
using RMatcher = metkit::mars::Matcher;

// metkit's matcher, restricted to alternatives of literal texts, each possibly anchored with ^ and $; the case
// "matcher" compares it with the real one. (The real one calls regexec.)
static bool altMatch(const std::string& alt, const std::string& v) {
    bool b = !alt.empty() && alt[0] == '^', e = !alt.empty() && alt.back() == '$';
    size_t n = alt.size() - b - e;
    bool any = false;
    for (size_t at = 0; at + n <= v.size(); ++at) {
        if ((b && at) || (e && at + n != v.size()))
            continue;
        bool eq = true;
        for (size_t i = 0; i < n; ++i)
            eq = eq & (v[at + i] == alt[b + i]);
        any = any | eq;
    }
    return any;
}
static bool exprMatch(const std::string& expr, const std::string& v) {
    bool any = false;
    for (size_t p = 0; p <= expr.size();) {
        size_t q = std::min(expr.find('|', p), expr.size());
        any = any | altMatch(expr.substr(p, q - p), v);
        p = q + 1;
    }
    return any;
}
static bool standIn(const std::map<std::string, std::string>& m, bool all, const std::function<bool(const std::string&, std::vector<std::string>&)>& get, bool onMissing) {
    for (auto& kv : m) {
        std::vector<std::string> v;
        if (!get(kv.first, v)) {
            if (!onMissing)
                return false;
            continue;
        }
        bool r = all;
        for (auto& x : v)
            r = all ? r & exprMatch(kv.second, x) : r | exprMatch(kv.second, x);
        if (!r)
            return false;
    }
    return true;
}
#ifndef SYM_NATIVE
namespace metkit::mars {
bool Matcher::match(const RequestLike& rq, MatchMissingPolicy p) const {
    std::map<std::string, std::string> m;
    for (auto& kv : regexMap_)
        m[kv.first] = (const std::string&)kv.second;
    return standIn(m, policy_ == Policy::All,
                   [&](const std::string& k, std::vector<std::string>& v) {
                       auto r = rq.get(k);
                       if (!r)
                           return false;
                       if (auto s = std::get_if<std::reference_wrapper<const std::string>>(&*r))
                           v = {s->get()};
                       else
                           v = std::get<1>(*r).get();
                       return true;
                   },
                   p == MatchOnMissing);
}
bool Matcher::match(const MarsRequest& rq, MatchMissingPolicy p) const {
    std::map<std::string, std::string> m;
    for (auto& kv : regexMap_)
        m[kv.first] = (const std::string&)kv.second;
    return standIn(m, policy_ == Policy::All,
                   [&](const std::string& k, std::vector<std::string>& v) {
                       if (!rq.has(k))
                           return false;
                       v = rq.values(k);
                       return true;
                   },
                   p == MatchOnMissing);
}
}  // namespace metkit::mars
#endif
// ---- an FDB that records what it is asked
struct Call {
    std::string lane, what;
    bool operator==(const Call& o) const { return lane == o.lane && what == o.what; }
};
static std::vector<Call> calls;
static std::vector<std::pair<std::string, Key>> stored;
static unsigned perLane = 1;
template <class T>
struct Fixed : APIIteratorBase<T> {
    std::vector<T> v;
    size_t at = 0;
    bool next(T& e) override {
        if (at == v.size())
            return false;
        e = std::move(v[at++]);
        return true;
    }
};
struct Fake : FDBBase {
    Fake(const Config& c, const std::string& n) : FDBBase(c, n), id(c.getString("id")) {}
    std::string id;
    void rec(const std::string& w) { calls.push_back({id, w}); }
    const void* data = nullptr;
    void archive(const Key& k, const void* d, size_t n) override {
        rec("archive " + std::string((const char*)d, n));
        stored.emplace_back(id, k);
    }
    void flush() override { rec("flush"); }
    ListIterator lst() {
        auto f = new Fixed<ListElement>;
        for (unsigned i = 0; i < perLane; ++i) {
            Key k;
            k.set("id", id + std::to_string(i));
            f->v.push_back(ListElement(k, 0));
        }
        return ListIterator(APIIterator<ListElement>(f));
    }
    APIIterator<std::string> strs() {
        auto f = new Fixed<std::string>;
        for (unsigned i = 0; i < perLane; ++i)
            f->v.push_back(id + std::to_string(i));
        return APIIterator<std::string>(f);
    }
    ListIterator inspect(const MarsRequest&) override {
        rec("inspect");
        return lst();
    }
    ListIterator list(const FDBToolRequest& rq, int l) override {
        rec("list" + std::to_string(l) + (rq.all() ? "all" : ""));
        return lst();
    }
    DumpIterator dump(const FDBToolRequest&, bool s) override {
        rec(s ? "dump simple" : "dump");
        return strs();
    }
    StatusIterator status(const FDBToolRequest&) override {
        rec("status");
        return StatusIterator(new Fixed<StatusElement>);
    }
    WipeStateIterator wipe(const FDBToolRequest&, bool d, bool p, bool u) override {
        rec("wipe" + std::to_string(d) + std::to_string(p) + std::to_string(u));
        return WipeStateIterator(nullptr);
    }
    PurgeIterator purge(const FDBToolRequest&, bool d, bool p) override {
        rec("purge" + std::to_string(d) + std::to_string(p));
        return strs();
    }
    StatsIterator stats(const FDBToolRequest&) override {
        rec("stats");
        return StatsIterator(new Fixed<StatsElement>);
    }
    ControlIterator control(const FDBToolRequest&, ControlAction a, ControlIdentifiers i) override {
        rec("control" + std::to_string((unsigned)a) + std::to_string(!i.enabled(ControlIdentifier::Wipe)) + std::to_string(!i.enabled(ControlIdentifier::List)));
        return ControlIterator(new Fixed<ControlElement>);
    }
    MoveIterator move(const FDBToolRequest&, const eckit::URI&) override { NOTIMP; }
    AxesIterator axesIterator(const FDBToolRequest&, int l) override {
        rec("axes" + std::to_string(l));
        return AxesIterator(new Fixed<AxesElement>);
    }
    void print(std::ostream& s) const override { s << "Fake"; }
};
static FDBBuilder<Fake> fakeBuilder("fake");

struct Lane {
    std::map<std::string, std::string> select;
    std::vector<std::map<std::string, std::string>> excludes;
};
static std::string text(const std::map<std::string, std::string>& m) {
    std::string s;
    for (auto& kv : m)
        s += (s.empty() ? "" : ",") + kv.first + "=" + kv.second;
    return s;
}
typedef std::map<std::string, std::string> M;
static const std::vector<M> selects = {{{"cls", "^a$"}}, {{"cls", "b"}}, {{"cls", "^a$|^b"}, {"typ", "x"}}, {{"typ", "^x$|^y$"}}, {{"cls", "b$"}, {"typ", "^y"}, {"stp", "^0$"}}};
static const std::vector<std::vector<M>> excl = {{}, {{{"cls", "^a$"}}}, {{{"cls", "a"}, {"typ", "^x$"}}}, {{{"typ", "y"}}, {{"cls", "^b$"}, {"stp", "^0$"}}}};
static std::vector<Lane> lanes(unsigned n, unsigned nsel, unsigned nex, eckit::LocalConfiguration& cfg) {
    std::vector<Lane> ls;
    std::vector<eckit::LocalConfiguration> cs;
    for (unsigned i = 0; i < n; ++i) {
        Lane l{selects[sym_choice("select", nsel)], excl[sym_choice("excludes", nex)]};
        eckit::LocalConfiguration c;
        c.set("type", "fake");
        c.set("id", "lane" + std::to_string(i));
        c.set("select", text(l.select));
        if (!l.excludes.empty()) {
            std::vector<std::string> ex;
            for (auto& e : l.excludes)
                ex.push_back(text(e));
            c.set("excludes", ex);
        }
        ls.push_back(l);
        cs.push_back(c);
    }
    cfg.set("type", "select");
    cfg.set("fdbs", cs);
    return ls;
}
// all values a request may have for a keyword; absent keyword: not there
typedef std::map<std::string, std::vector<std::string>> V;
static bool matches(const Lane& l, const V& v, bool onMissing) {
    auto get = [&](const std::string& k, std::vector<std::string>& x) {
        auto i = v.find(k);
        if (i == v.end())
            return false;
        x = i->second;
        return true;
    };
    if (!standIn(l.select, false, get, onMissing))
        return false;
    for (auto& e : l.excludes)
        if (standIn(e, true, get, false))
            return false;
    return true;
}
void sym_setup() {
    harnessInit();
    LibFdb5::instance();
    eckit::LocalConfiguration cfg;
    std::vector<eckit::LocalConfiguration> cs(1);
    cs[0].set("type", "fake");
    cs[0].set("id", "x");
    cs[0].set("select", "cls=a");
    cfg.set("type", "select");
    cfg.set("fdbs", cs);
    SelectFDB f(Config(cfg), "select");
    MarsRequest rq("retrieve");
    rq.setValue("cls", "a");
    rq.setValue("typ", "a");
    f.list(FDBToolRequest(rq), 3);
    throws([] { throw eckit::UserError("x"); });
    calls.clear();
}
static std::string value(const char* name) {
    return symStr(name, 1, deep() ? 3 : 2, valueChar);
}
SYM_CASE(archive, "2 (thorough 3) lanes out of 5 selections and 4 exclude lists, a field with cls of 1..2 (thorough 3) and typ of 1 (2) characters and stp or not: it goes to the first lane that accepts it, only there, with its data, and is flushed there") {
    calls.clear();
    stored.clear();
    perLane = 1;
    eckit::LocalConfiguration cfg;
    auto ls = lanes(deep() ? 3 : 2, 5, 4, cfg);
    SelectFDB fdb(Config(cfg), "select");
    V v{{"cls", {value("cls")}}, {"typ", {symStr("typ", 1, deep() ? 2 : 1, valueChar)}}};
    if (sym_bool("stp"))
        v["stp"] = {symStr("step", 1, 1, valueChar)};
    Key k;
    for (auto& kv : v)
        k.set(kv.first, kv.second[0]);
    int want = -1;
    for (unsigned i = 0; i < ls.size() && want < 0; ++i)
        if (matches(ls[i], v, false))
            want = i;
    bool t = throws([&] { fdb.archive(k, "data", 4); });
    sym_assert(t == (want < 0), "refused exactly when no lane accepts it");
    if (want < 0) {
        sym_assert(calls.empty(), "a refused field goes nowhere");
        fdb.flush();
        sym_assert(calls.empty(), "nothing to flush");
        return;
    }
    std::string lane = "lane" + std::to_string(want);
    sym_assert(calls.size() == 1 && calls[0] == (Call{lane, "archive data"}), "one lane, once, with its data");
    bool same = stored[0].second.size() == v.size();
    for (auto& kv : v)
        same = same && stored[0].second.get(kv.first) == kv.second[0];
    sym_assert(same, "with its key");
    fdb.flush();
    sym_assert(calls.size() == 2 && calls[1] == (Call{lane, "flush"}), "flushed there");
    sym_reach("archived");
}
// letters of the selections and one that is in none
static bool clsChar(unsigned char c) {
    return (c == 'a') | (c == 'b') | (c == 'z');
}
static bool typChar(unsigned char c) {
    return (c == 'x') | (c == 'y') | (c == 'z');
}
static bool stpChar(unsigned char c) {
    return (c == '0') | (c == 'z');
}
SYM_CASE(found, "2 (thorough 3) lanes out of 4 (5) selections and 3 (4) exclude lists, a field of letters of the selections: every request that may mean it, also among other values, visits the lane it was archived to") {
    calls.clear();
    stored.clear();
    perLane = 1;
    eckit::LocalConfiguration cfg;
    auto ls = lanes(deep() ? 3 : 2, deep() ? 5 : 4, deep() ? 4 : 3, cfg);
    SelectFDB fdb(Config(cfg), "select");
    V v{{"cls", {symStr("cls", 1, deep() ? 2 : 1, clsChar)}}, {"typ", {symStr("typ", 1, 1, typChar, 'x')}}};
    if (sym_bool("stp"))
        v["stp"] = {symStr("step", 1, 1, stpChar, '0')};
    Key k;
    for (auto& kv : v)
        k.set(kv.first, kv.second[0]);
    if (throws([&] { fdb.archive(k, "data", 4); }))
        return;
    std::string lane = calls[0].lane;
    // any request that means this field
    V q;
    unsigned other = 1 + sym_choice("other values", 2);
    for (auto& kv : v) {
        if (sym_bool("keyword in request"))
            continue;
        std::vector<std::string> x{kv.second[0]};
        if (other == 1)
            x.push_back("a");
        if (other == 2)
            x.insert(x.begin(), "y");
        q[kv.first] = x;
    }
    MarsRequest rq("retrieve");
    for (auto& kv : q)
        rq.values(kv.first, kv.second);
    calls.clear();
    fdb.list(FDBToolRequest(rq), 3);
    bool seen = false;
    for (auto& c : calls)
        seen = seen || c.lane == lane;
    sym_assert(seen, "a query that may mean the field visits its lane");
    if (q.size() == v.size()) {
        calls.clear();
        fdb.inspect(rq);
        seen = false;
        for (auto& c : calls)
            seen = seen || c.lane == lane;
        sym_assert(seen, "a retrieval of the field visits its lane");
    }
    sym_reach("archived");
}
SYM_CASE(query, "1..2 (thorough 3) lanes out of 4 (5) selections and 3 (4) exclude lists, a request with cls (0..2 values), typ and (thorough) stp (0..1 values) of letters of the selections: exactly the lanes that may hold matching fields are visited, once, in order, and all their results are delivered") {
    calls.clear();
    perLane = 2;
    eckit::LocalConfiguration cfg;
    auto ls = lanes(1 + sym_choice("lanes", deep() ? 3 : 2), deep() ? 5 : 4, deep() ? 4 : 3, cfg);
    SelectFDB fdb(Config(cfg), "select");
    V q;
    for (const char* w : {"cls", "typ", "stp"}) {
        unsigned n = w[0] == 's' && !deep() ? 0 : sym_choice("values", w[0] == 'c' ? 3 : 2);
        for (unsigned i = 0; i < n; ++i)
            q[w].push_back(symStr(w, 1, deep() && w[0] == 'c' ? 2 : 1, w[0] == 'c' ? clsChar : w[0] == 't' ? typChar : stpChar, w[0] == 'c' ? 'a' : w[0] == 't' ? 'x' : '0'));
    }
    MarsRequest rq("retrieve");
    for (auto& kv : q)
        rq.values(kv.first, kv.second);
    bool all = q.empty() && sym_bool("all");
    bool insp = sym_bool("inspect");
    std::vector<Call> want;
    std::vector<std::string> ids;
    for (unsigned i = 0; i < ls.size(); ++i)
        if ((all && !insp) || matches(ls[i], q, !insp)) {
            std::string lane = "lane" + std::to_string(i);
            want.push_back({lane, insp ? "inspect" : all ? "list2all" : "list2"});
            ids.push_back(lane + "0");
            ids.push_back(lane + "1");
        }
    ListIterator it = insp ? fdb.inspect(rq) : fdb.list(FDBToolRequest(rq, all), 2);
    ListElement e;
    std::vector<std::string> got;
    while (it.next(e))
        got.push_back(e.combinedKey().get("id"));
    sym_assert(calls == want, "lanes visited");
    sym_assert(got == ids, "every result of every lane");
}
SYM_CASE(operations, "every other operation goes to the same lanes as list, with its arguments") {
    calls.clear();
    perLane = 1;
    eckit::LocalConfiguration cfg;
    auto ls = lanes(2, 3, 2, cfg);
    SelectFDB fdb(Config(cfg), "select");
    V q;
    q["cls"] = {symStr("cls", 1, 1, clsChar)};
    if (sym_bool("typ"))
        q["typ"] = {symStr("typ", 1, 1, typChar, 'x')};
    MarsRequest rq("retrieve");
    for (auto& kv : q)
        rq.values(kv.first, kv.second);
    FDBToolRequest tr(rq);
    bool a = sym_bool("a"), b = sym_bool("b"), c = sym_bool("c");
    std::string what;
    std::vector<std::string> got, ids;
    std::string s;
    switch (sym_choice("operation", 7)) {
        case 0: {
            auto it = fdb.dump(tr, a);
            while (it.next(s))
                got.push_back(s);
            what = a ? "dump simple" : "dump";
            break;
        }
        case 1: fdb.status(tr), what = "status"; break;
        case 2: fdb.wipe(tr, a, b, c), what = "wipe" + std::to_string(a) + std::to_string(b) + std::to_string(c); break;
        case 3: {
            auto it = fdb.purge(tr, a, b);
            while (it.next(s))
                got.push_back(s);
            what = "purge" + std::to_string(a) + std::to_string(b);
            break;
        }
        case 4: fdb.stats(tr), what = "stats"; break;
        case 5: {
            ControlIdentifiers id;
            if (b)
                id |= ControlIdentifier::Wipe;
            if (c)
                id |= ControlIdentifier::List;
            fdb.control(tr, a ? ControlAction::Enable : ControlAction::Disable, id);
            what = "control" + std::to_string((unsigned)(a ? ControlAction::Enable : ControlAction::Disable)) + std::to_string(b) + std::to_string(c);
            break;
        }
        case 6: fdb.axesIterator(tr, a ? 1 : 3), what = a ? "axes1" : "axes3"; break;
    }
    std::vector<Call> want;
    for (unsigned i = 0; i < ls.size(); ++i)
        if (matches(ls[i], q, true)) {
            want.push_back({"lane" + std::to_string(i), what});
            ids.push_back("lane" + std::to_string(i) + "0");
        }
    sym_assert(calls == want, "lanes visited, arguments");
    sym_assert(got.empty() || got == ids, "results");
}
// the stand-in for metkit's matcher against the real one
SYM_CASE(matcher, "model check: the harness's reading of match expressions agrees with metkit's on 5 selections, 8 values, both policies, missing keywords") {
#ifndef SYM_NATIVE
    auto real = (bool (*)(const RMatcher*, const MarsRequest*, RMatcher::MatchMissingPolicy))dlsym(RTLD_NEXT, "_ZNK6metkit4mars7Matcher5matchERKNS0_11MarsRequestENS1_18MatchMissingPolicyE");
    sym_assert(real != nullptr, "the real matcher is there");
    auto& m = selects[sym_choice("select", selects.size())];
    bool all = sym_bool("all"), miss = sym_bool("missing");
    RMatcher rm(text(m), all ? RMatcher::Policy::All : RMatcher::Policy::Any);
    static const char* const vals[] = {"a", "b", "ab", "ba", "x", "yx", "0", "00"};
    MarsRequest rq("retrieve");
    for (auto& kv : m) {
        unsigned n = sym_choice("values", kv.first == "stp" ? 2 : 3);
        std::vector<std::string> v;
        for (unsigned i = 0; i < n; ++i)
            v.push_back(vals[kv.first == "stp" ? 5 + sym_choice("value", 3) : i ? sym_choice("value", 2) * 4 : sym_choice("value", 6)]);
        if (n)
            rq.values(kv.first, v);
    }
    auto pol = miss ? RMatcher::MatchOnMissing : RMatcher::DontMatchOnMissing;
    sym_assert(rm.match(rq, pol) == real(&rm, &rq, pol), "same verdict");
#endif
}
