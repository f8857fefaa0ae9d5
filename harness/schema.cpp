// Schemas: the predicates a text states, the rule a field is archived under, and the combinations a request expands to.
#include <dlfcn.h>
#include <sstream>
#include "common.h"
#include "eckit/parser/StreamParser.h"
#include "fdb5/database/Key.h"
#include "fdb5/database/ReadVisitor.h"
#include "fdb5/database/WriteVisitor.h"
#include "fdb5/rules/Predicate.h"
#include "fdb5/rules/Rule.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/rules/SchemaParser.h"
#include "metkit/mars/MarsRequest.h"
using namespace fdb5;
using eckit::StreamParser;
void sym_setup() { harnessInit(); }

// eckit's character reader, restated so that the characters of a schema may be symbolic (compared with eckit's in case "reader")
static const std::string* gText = nullptr;
static size_t gPos;
static bool blank(unsigned char c) { return (c == ' ') | (unsigned(c - 9) < 5u); }
static char cur() { return gPos < gText->size() ? (*gText)[gPos] : 0; }
static void skip(bool spaces) {
    while (gPos < gText->size()) {
        char c = cur();
        if (c == '#')
            while (gPos < gText->size() && cur() != '\n')
                ++gPos;
        else if (!spaces && blank(c))
            ++gPos;
        else
            break;
    }
}
template <class F>
static F real(const char* nm) {
    return (F)dlsym(RTLD_NEXT, nm);
}
#ifndef SYM_NATIVE
namespace eckit {
char StreamParser::peek(bool spaces) {
    if (!gText)
        return real<char (*)(StreamParser*, bool)>("_ZN5eckit12StreamParser4peekEb")(this, spaces);
    skip(spaces);
    return cur();
}
char StreamParser::next(bool spaces) {
    if (!gText)
        return real<char (*)(StreamParser*, bool)>("_ZN5eckit12StreamParser4nextEb")(this, spaces);
    skip(spaces);
    char c = cur();
    if (!c)
        throw Error("StreamParser::next reached eof");
    ++gPos;
    return c;
}
void StreamParser::consume(char c) {
    if (!gText)
        return real<void (*)(StreamParser*, char)>("_ZN5eckit12StreamParser7consumeEc")(this, c);
    if (next(blank(c)) != c)
        throw Error("unexpected character");
}
void StreamParser::consume(const char* p) {
    if (!gText)
        return real<void (*)(StreamParser*, const char*)>("_ZN5eckit12StreamParser7consumeEPKc")(this, p);
    while (*p)
        consume(*p++);
}
}  // namespace eckit
#endif
static void parseInto(Schema& s, const std::string& text) {
#ifdef SYM_NATIVE
    std::istringstream in(text);
    s.load(in);
#else
    static std::istringstream in;
    gText = &text;
    gPos = 0;
    try {
        s.load(in);
    }
    catch (...) {
        gText = nullptr;
        throw;
    }
    gText = nullptr;
#endif
}
static std::string dumpOf(const Schema& s) {
    std::ostringstream o;
    s.dump(o);
    return o.str();
}

// ---- reference semantics
enum Kind { Always, Value, Any, NotValue, NotAny, Optional_, Hidden };
struct P {
    std::string kw;
    Kind kind = Always;
    std::vector<std::string> vals;  // values; or the default
    std::string text(const char* sp = "") const {
        std::string t = kw;
        if (kind == Optional_)
            return t + sp + "?" + sp + vals[0];
        if (kind == Hidden)
            return t + sp + "-" + sp + vals[0];
        if (kind == Always)
            return t;
        t += std::string(sp) + "=" + sp + (kind == NotValue || kind == NotAny ? "!" : "");
        for (size_t i = 0; i < vals.size(); ++i)
            t += (i ? std::string(sp) + "/" + sp : "") + vals[i];
        return t;
    }
    bool opt() const { return kind == Optional_ || kind == Hidden; }
    bool accepts(const std::string& v) const {
        bool in = false;
        for (auto& x : vals)
            in |= x == v;
        switch (kind) {
            case Value:
            case Any:
                return in;
            case NotValue:
            case NotAny:
                return !in;
            default:
                return true;
        }
    }
};
typedef std::vector<P> Ps;
struct Ix {
    Ps idx, dat;
};
struct Db {
    Ps db;
    std::vector<Ix> ix;
};
typedef std::vector<std::pair<std::string, std::string>> Fld;
static const std::string* get(const Fld& f, const std::string& k) {
    for (auto& kv : f)
        if (kv.first == k)
            return &kv.second;
    return nullptr;
}
static std::string text(const Ps& ps) {
    std::string t;
    for (auto& p : ps)
        t += (t.empty() ? "" : ", ") + p.text();
    return t;
}
static std::string text(const std::vector<Db>& s) {
    std::string t;
    for (auto& d : s) {
        t += "[ " + text(d.db);
        for (auto& i : d.ix)
            t += "\n  [ " + text(i.idx) + " [ " + text(i.dat) + " ]]";
        t += "]\n";
    }
    return t;
}
// keys as ordered lists
static bool fit(const Ps& ps, const Fld& f, Fld& out) {
    out.clear();
    for (auto& p : ps) {
        const std::string* v = get(f, p.kw);
        if (p.kind == Hidden) {
            out.push_back({p.kw, ""});  // type Ignore
            continue;
        }
        if (!v) {
            if (!p.opt())
                return false;
            out.push_back({p.kw, ""});
            continue;
        }
        if (!p.accepts(*v))
            return false;
        out.push_back({p.kw, *v});
    }
    return true;
}
static Fld fieldOf(const Key& k) {
    Fld f;
    for (auto& n : k.names())
        f.push_back({n, k.get(n)});
    return f;
}
static bool same(const Fld& a, const Fld& b) {
    if (a.size() != b.size())
        return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].first != b[i].first || a[i].second.size() != b[i].second.size())
            return false;
        ok &= a[i].second == b[i].second;
    }
    return ok;
}
static bool word(unsigned char c) { return unsigned(c - 'a') < 26u; }
static bool small(unsigned char c) { return unsigned(c - 'w') < 4u; }

static P anyPredicate(const char* kw, unsigned maxLen, bool dash) {
    P p;
    p.kw = kw;
    p.kind = (Kind)sym_choice("kind", 7);
    auto v = [&](unsigned lo) {
        std::string t = symStr("value", lo, maxLen, word);
        return p.vals.empty() && t.size() == maxLen && dash ? t + "-7." : t;
    };
    switch (p.kind) {
        case Any:
        case NotAny:
            p.vals = {v(1), v(1)};
            break;
        case Value:
        case NotValue:
            p.vals = {v(1)};
            break;
        case Always:
            break;
        default:
            p.vals = {v(0)};
    }
    return p;
}
SYM_CASE(predicate, "one predicate k, k=v, k=v/w, k=!v, k=!v/w, k?d, k-d at database, index or datum level; values and defaults of up to 2 symbolic letters (some followed by -7.), with and without blanks and comments; field values of up to 2 characters, or no such keyword; the schema as parsed and as dumped and parsed again") {
    unsigned form = sym_choice("form", 6);
    bool spaced = form == 3, dumped = form > 3;
    unsigned level = form < 3 ? form : form == 4 ? 2 : 0;
    P p = anyPredicate("k", deep() ? 3 : 2, form == 2 || form == 4);
    std::string t = p.text(spaced ? " " : "");
    if (spaced)
        t = " # a comment\n " + t + "\n";
    t = level == 0 ? "[" + t + "[m[n]]]" : level == 1 ? "[l[" + t + "[n]]]" : "[l[m[" + t + "]]]";
    Schema s;
    parseInto(s, t);
    Schema again;
    if (dumped) {
        parseInto(again, dumpOf(s));
        std::swap(s.rules_, again.rules_);
        s.check();
    }
    sym_assert(s.rules_.size() == 1 && s.rules_[0]->rules().size() == 1, "one rule");
    const Rule& r = level == 0 ? (const Rule&)*s.rules_[0] : level == 1 ? (const Rule&)*s.rules_[0]->rules()[0] : (const Rule&)s.rules_[0]->rules()[0]->rule();
    sym_assert(r.predicates_.size() == 1 && r.predicates_[0]->keyword() == "k", "one predicate on k");
    const Predicate& q = *r.predicates_[0];
    sym_assert(q.optional() == p.opt(), "optional");
    if (p.opt()) {
        sym_assert(q.defaultValue() == p.vals[0], "default value");
    }
    std::string v = symStr("field", 0, 2, word);
    bool ok = p.accepts(v);
    sym_assert(q.match(v) == ok, "accepted values are those the text states");
    Key k, none;
    k.push("other", "o");
    none.push("other", "o");
    k.push("k", v);
    sym_assert(q.match(k) == ok, "keys");
    if (p.kind == Value || p.kind == Any)
        sym_assert(!q.match(none), "a required value is not there");
    if (p.opt())
        sym_assert(q.match(none), "an optional keyword may be missing");
    sym_assert(r.registry().lookupType("k").type() == (p.kind == Hidden ? "Ignore" : "Default"), "type of the keyword");
    if (p.kind != Hidden)
        sym_assert(q.value(k) == v, "value of the key");
    if (p.kind == Optional_)
        sym_assert(q.value(none).empty(), "no value");
    sym_reach(p.kind == NotAny ? "notany" : "other");
}
// a schema with types, malformed texts
SYM_CASE(malformed, "schema texts with one character replaced by any of ][=,/:;?-!#a and blank, or cut at any place: parsed as some rules or refused, never accepted with a remainder") {
    static const std::string base = "t:Time;[a=b/c,d?e[f[g:Integer]]]";
    std::string t = base;
    static const char alphabet[] = "][=,/:;?-!#a ";
    size_t at = sym_choice("at", t.size());
    char kind = (char)sym_choice("char", sizeof alphabet);
    if (kind == sizeof alphabet - 1)
        t.resize(at);
    else
        t[at] = alphabet[(size_t)kind];
    Schema s;
    bool bad = throws([&] { parseInto(s, t); });
    // reference: bracket structure and separators outside comments
    int depth = 0;
    std::string eff;
    bool comment = false;
    for (char c : t) {
        if (c == '#')
            comment = true;
        if (!comment && c != ' ')
            eff += c;
    }
    bool closed = true;
    for (char c : eff) {
        depth += c == '[' ? 1 : c == ']' ? -1 : 0;
        if (depth < 0 || depth > 3)
            closed = false;
    }
    if (!closed || depth != 0)
        sym_assert(bad, "unbalanced brackets are refused");
    if (t == base)
        sym_assert(!bad, "the text itself is accepted");
    if (!bad) {
        Schema r;
        sym_assert(!throws([&] { parseInto(r, dumpOf(s)); }), "what was accepted can be dumped and parsed");
        sym_assert(dumpOf(r) == dumpOf(s), "and dumps as the same text");
        sym_reach("accepted");
    }
    else
        sym_reach("refused");
}
#ifndef SYM_NATIVE
SYM_CASE(reader, "model check: schemas read with the harness's character reader and with eckit's have the same rules (8 texts)") {
    static const char* texts[] = {"[a[b[c]]]", " [ a = x/y , b ? d [ c=!z [ d - e ] ] ]\n", "t:Time;\n[a:Integer[b[c]]]# end", "#x\n[a,b[c[d]]]\n#y\n[e[f[g?]]]", "[a=[b[c]]]", "[a[b[c]]", "x", "[a=b-c[d-[e]]] z"};
    std::string t = texts[sym_choice("text", 8)];
    Schema a, b;
    bool ta = throws([&] { parseInto(a, t); });
    bool tb = throws([&] {
        std::istringstream in(t);
        b.load(in);
    });
    sym_assert(ta == tb, "refused alike");
    if (!ta)
        sym_assert(dumpOf(a) == dumpOf(b), "same rules");
}
#endif
// ---- routing
struct Routed {
    const Rule* rule;
    Fld db, ix, dat;
};
struct Writer : WriteVisitor {
    const Schema& s;
    const Key& field;
    Routed got;
    unsigned n = 0;
    bool exist;
    Writer(std::vector<Key>& prev, const Schema& s, const Key& field, bool exist) : WriteVisitor(prev), s(s), field(field), exist(exist) {}
    bool selectDatabase(const Key& k, const Key& full) override {
        got.db = fieldOf(k);
        sym_assert(k == full, "full key of a database");
        return true;
    }
    bool selectIndex(const Key& k) override {
        got.ix = fieldOf(k);
        return exist;
    }
    bool createIndex(const Key& k, size_t) override {
        sym_assert(!exist && same(got.ix, fieldOf(k)), "the index that was not there is created");
        return true;
    }
    bool selectDatum(const Key& k, const Key& full) override {
        ++n;
        got.dat = fieldOf(k);
        Fld all = got.db, f = fieldOf(full);
        all.insert(all.end(), got.ix.begin(), got.ix.end());
        all.insert(all.end(), got.dat.begin(), got.dat.end());
        sym_assert(same(f, all), "full key");
        full.validateKeys(field);
        return true;
    }
    const Schema& databaseSchema() const override { return s; }
    void print(std::ostream&) const override {}
};
static P pick(const char* kw, unsigned mask) {
    P p;
    p.kw = kw;
    std::vector<Kind> ks;
    for (unsigned i = 0; i < 7; ++i)
        if (mask & (1u << i))
            ks.push_back((Kind)i);
    p.kind = ks[sym_choice(kw, ks.size())];
    if (p.kind == Value || p.kind == NotValue)
        p.vals = {"x"};
    if (p.kind == Any || p.kind == NotAny)
        p.vals = {"x", "y"};
    if (p.opt())
        p.vals = {"z"};
    return p;
}
static const unsigned A = 1u << Always, V = 1u << Value, O = 1u << Optional_, H = 1u << Hidden, N = 1u << NotValue, M = 1u << Any, X = 1u << NotAny;
// the shapes of schema considered
static std::vector<Db> shape() {
    switch (sym_choice("shape", 5)) {
        case 0:  // one database rule, two index rules told apart by a value
            return {{{pick("cls", deep() ? A | V | M | N | X : M | X), {"ver"}}, {{{pick("typ", V | M | N)}, {{"stp"}}}, {{{"typ"}, pick("lev", deep() ? A | O : O)}, {{"stp"}, pick("par", A | O)}}}}};
        case 1:  // two database rules with different keywords
            return {{{{"cls"}, pick("ver", A | V | O), {"lev"}}, {{{{"typ"}}, {{"stp"}}}}}, {{{"cls"}, pick("ver", A | N)}, {{{pick("typ", A | M), pick("lev", O | H)}, {{"stp"}, pick("par", O | H)}}}}};
        case 2:  // shorter one first
            return {{{pick("cls", A | V)}, {{{pick("typ", A | X)}, {{"stp"}}}}}, {{{"cls"}, {"ver"}}, {{{{"typ"}}, {{"stp"}, {"par"}}}, {{{"lev"}}, {{"stp"}, {"par"}}}}}};
        case 3: {  // told apart by a value
            P c = pick("cls", V | M), o = c;
            o.kind = c.kind == Value ? NotValue : NotAny;
            return {{{c, {"ver"}}, {{{{"typ"}}, {{"stp"}}}}}, {{o, {"ver"}}, {{{pick("typ", A | V), pick("lev", A | H)}, {{"stp"}}}}}};
        }
        default:  // optional keywords in every position
            return {{{pick("ver", O | H), {"cls"}}, {{{pick("lev", O | H), {"typ"}}, {pick("par", O | H), {"stp"}}}, {{{"lev"}}, {{"stp"}}}}}};
    }
}
static const char* KW[] = {"cls", "ver", "typ", "lev", "par", "stp"};
static Key symField(Fld& f) {
    // every subset of the keywords; one symbolic character each
    Key k;
    unsigned without = sym_choice("without", 3);  // none of these, cls, stp
    for (auto kw : KW)
        if (!strcmp(kw, "cls") ? without != 1 : !strcmp(kw, "stp") ? without != 2 : sym_bool(kw)) {
            f.push_back({kw, sym_string(kw, 1, small, 'x')});
            k.push(kw, f.back().second);
        }
    return k;
}
static bool covers(const Routed& r, const Fld& f) {
    for (auto& kv : f)
        if (!get(r.db, kv.first) && !get(r.ix, kv.first) && !get(r.dat, kv.first))
            return false;
    return true;
}
SYM_CASE(routing, "5 schema shapes of one or two database rules with up to two index rules each, predicates drawn from all kinds (values x, x/y, defaults z); fields with every subset of 6 keywords (two of which are not missing together), each value one symbolic character of w..z") {
    std::vector<Db> spec = shape();
    Schema s;
    parseInto(s, text(spec));
    sym_assert(s.rules_.size() == spec.size(), "rules parsed");
    Fld f;
    Key k = symField(f);
    // reference: the first rules, in order, that the field satisfies
    Routed want{};
    int wd = -1, wi = -1;
    for (size_t d = 0; d < spec.size() && wd < 0; ++d) {
        if (!fit(spec[d].db, f, want.db))
            continue;
        for (size_t i = 0; i < spec[d].ix.size() && wd < 0; ++i)
            if (fit(spec[d].ix[i].idx, f, want.ix) && fit(spec[d].ix[i].dat, f, want.dat)) {
                wd = d;
                wi = i;
            }
    }
    std::vector<Key> prev;
    Writer w(prev, s, k, f.size() % 2 || (deep() && sym_bool("exists")));
    bool refused = throws([&] { s.expand(k, w); });
    if (wd < 0) {
        sym_assert(!refused && w.n == 0 && w.rule() == nullptr, "a field that satisfies no rule is not routed");
        sym_reach("none");
        return;
    }
    sym_assert(w.n == 1, "routed once");
    sym_assert(same(w.got.db, want.db) && same(w.got.ix, want.ix) && same(w.got.dat, want.dat), "routed to the first rule it satisfies, with the keys that rule lists");
    sym_assert(refused == !covers(want, f), "keywords the rule does not use are refused");
    if (refused)
        return;
    const RuleDatum& r = s.rules_[wd]->rules()[wi]->rule();
    sym_assert(w.rule() == &r, "the rule is the one recorded");
    auto mk = [](const Fld& f) {
        Key k;
        for (auto& kv : f)
            k.push(kv.first, kv.second);
        return k;
    };
    sym_assert(&s.matchingRule(mk(want.db)) == s.rules_[wd].get(), "the database rule is found again from the database key");
    if (spec[wd].ix.size() == 1 || wi == 0 || !fit(spec[wd].ix[0].idx, want.ix, want.dat))
        sym_assert(&s.matchingRule(mk(want.db), mk(want.ix)) == &r, "the rule is found again from database and index keys");
    sym_reach(wd ? "second" : wi ? "second index" : "first");
}
// ---- requests
struct Reader : ReadVisitor {
    const Schema& s;
    std::vector<std::string> got;
    std::string db, ix;
    Reader(const Schema& s) : s(s) {}
    static std::string str(const Key& k) {
        std::string t;
        for (auto& n : k.names())
            t += n + "=" + k.get(n) + ",";
        return t;
    }
    bool selectDatabase(const Key& k, const Key&) override {
        db = str(k);
        return true;
    }
    void deselectDatabase() override { db = "?"; }
    bool selectIndex(const Key& k) override {
        ix = str(k);
        return true;
    }
    bool selectDatum(const Key& k, const Key& full) override {
        got.push_back(db + "|" + ix + "|" + str(k));
        sym_assert(str(full) == db + ix + str(k), "full key");
        return true;
    }
    const Schema& databaseSchema() const override { return s; }
    void print(std::ostream&) const override {}
};
typedef std::vector<std::pair<std::string, std::vector<std::string>>> Rq;
static const std::vector<std::string>* get(const Rq& f, const std::string& k) {
    for (auto& kv : f)
        if (kv.first == k)
            return &kv.second;
    return nullptr;
}
// how: 0 read, 1 read without catalogue (database only), 2 with a filler for missing keywords
static std::vector<std::string> combos(const Ps& ps, const Rq& rq, int how) {
    std::vector<std::string> r{""};
    for (auto& p : ps) {
        std::vector<std::string> vs;
        const auto* given = get(rq, p.kw);
        if (how == 2) {
            if (p.kind == Hidden)
                vs = {""};
            else if (!given)
                vs = {"*"};
            else
                for (auto& v : *given)
                    if (p.accepts(v))
                        vs.push_back(v);
        }
        else if (p.kind == Hidden)
            vs = {""};
        else if (!given) {
            if (p.kind == Optional_) {
                vs = {p.vals[0]};
                if (how == 0 && !p.vals[0].empty())
                    vs.push_back("");
            }
        }
        else
            for (auto& v : *given)
                if (p.accepts(v))
                    vs.push_back(v);
        std::vector<std::string> n;
        for (auto& a : r)
            for (auto& v : vs)
                n.push_back(a + p.kw + "=" + v + ",");
        r = n;
    }
    return r;
}
SYM_CASE(requests, "the 5 schema shapes; requests naming, for each of 6 keywords, none, one (only one keyword) or two of the values x, y, z") {
    std::vector<Db> spec = shape();
    Schema s;
    parseInto(s, text(spec));
    static const std::vector<std::vector<std::string>> choices = {{}, {"y"}, {"x", "z"}};
    static const std::vector<std::vector<std::string>> few = {{}, {"x", "y"}};
    Rq rq;
    metkit::mars::MarsRequest m("retrieve");
    for (auto kw : KW) {
        bool lots = deep() || !strcmp(kw, "cls");
        auto& c = lots ? choices[sym_choice(kw, 3)] : few[sym_choice(kw, 2)];
        if (!c.empty()) {
            rq.push_back({kw, c});
            m.values(kw, c);
        }
    }
    std::vector<std::string> want, wantDb, wantStar;
    for (auto& d : spec) {
        for (auto& db : combos(d.db, rq, 0))
            for (auto& i : d.ix)
                for (auto& ix : combos(i.idx, rq, 0))
                    for (auto& dat : combos(i.dat, rq, 0))
                        want.push_back(db + "|" + ix + "|" + dat);
        for (auto& db : combos(d.db, rq, 1))
            wantDb.push_back(db);
        for (auto& db : combos(d.db, rq, 2))
            wantStar.push_back(db);
    }
    Reader r(s);
    s.expand(m, r);
    sym_assert(r.got == want, "a request visits exactly the combinations that satisfy the rules, rule by rule in order");
    std::vector<std::string> gotDb;
    bool incomplete = false;
    for (auto& d : spec)
        for (auto& p : d.db)
            incomplete |= !p.opt() && !get(rq, p.kw);
    bool refused = throws([&] {
        for (auto& k : s.expandDatabase(m))
            gotDb.push_back(Reader::str(k));
    });
    sym_assert(incomplete || !refused, "complete requests are not refused");
    if (!refused)
        sym_assert(gotDb == wantDb, "databases");
    std::map<Key, const Rule*> found;
    s.matchDatabase(m, found, "*");
    std::set<std::string> gotStar;
    for (auto& kv : found)
        gotStar.insert(Reader::str(kv.first));
    sym_assert(gotStar == std::set<std::string>(wantStar.begin(), wantStar.end()), "partial databases");
    if (want.size() > 4)
        sym_reach("many");
}
// values that are the same once canonicalised
SYM_CASE(spellings, "schemas whose database, index and datum keywords are Integers or of mixed types; requests naming up to 3 (thorough 4) times one of two numbers in another spelling each time (thorough: in any of three), at two of the levels, in any order: every combination once, in the order of its first mention") {
    static const char* const texts[] = {"ver: Integer; stp: Integer; lev: Integer;\n[ cls, ver [ typ, lev [ par, stp ]]]\n",
                                        "ver: Integer; stp: Integer; lev: Integer;\n[ cls, ver? [ typ, lev? [ par, stp? ]]]\n"};
    unsigned which = sym_choice("schema", 2);
    Schema s;
    parseInto(s, texts[which]);
    static const char* const spell[2][3] = {{"1", "01", "001"}, {"2", "02", "002"}};
    static const char* const kws[] = {"ver", "lev", "stp"};
    unsigned missing = sym_choice("single", 3);
    metkit::mars::MarsRequest m("retrieve");
    m.setValue("cls", std::string("od"));
    m.setValue("typ", std::string("an"));
    m.setValue("par", std::string("t"));
    std::vector<std::string> uniq[3];
    for (unsigned i = 0; i < 3; ++i) {
        unsigned n = i == missing ? 1 : deep() ? 4 : 3;
        std::vector<std::string> vs;
        for (unsigned k = 0; k < n; ++k) {
            unsigned w = i == missing ? 0 : sym_choice("number", 2);
            std::string v = spell[w][(i == missing) ? 1 : deep() ? sym_choice("spelling", 3) : k];
            vs.push_back(v);
            std::string c = w ? "2" : "1";
            if (std::find(uniq[i].begin(), uniq[i].end(), c) == uniq[i].end())
                uniq[i].push_back(c);
        }
        m.values(kws[i], vs);
    }
    std::vector<std::string> want;
    for (auto& a : uniq[0])
        for (auto& b : uniq[1])
            for (auto& c : uniq[2])
                want.push_back("cls=od,ver=" + a + ",|typ=an,lev=" + b + ",|par=t,stp=" + c + ",");
    Reader r(s);
    s.expand(m, r);
    if (which)  // optional keywords may also be missing from what is stored
        r.got.erase(std::remove_if(r.got.begin(), r.got.end(), [](const std::string& x) { return x.find("=,") != std::string::npos; }), r.got.end());
    sym_assert(r.got == want, "a combination is missed, visited twice or out of order");
}
// the text of a database key (its directory name) gives the key back
SYM_CASE(fingerprint, "the 5 schema shapes; database keys of every rule with values of one symbolic character of w..z; the key, and any text of up to 3 values, looked up by its text") {
    std::vector<Db> spec = shape();
    Schema s;
    parseInto(s, text(spec));
    unsigned n = sym_choice("n", 4);
    if (!n)
        sym_end_path();
    std::vector<std::string> vals;
    std::string t;
    for (unsigned i = 0; i < n; ++i) {
        vals.push_back(symStr("v", 0, 1, small, 'x'));
        t += (i ? ":" : "") + vals.back();
    }
    if (t.empty())
        sym_end_path();
    const Db* want = nullptr;
    size_t wd = 0;
    for (auto& d : spec) {
        bool ok = d.db.size() == n;
        for (size_t i = 0; ok && i < n; ++i)
            ok &= d.db[i].accepts(vals[i]);
        if (ok) {
            want = &d;
            break;
        }
        ++wd;
    }
    std::optional<Key> got;
    bool bad = throws([&] { got = s.matchDatabase(t); });
    sym_assert(!bad, "looking a name up does not fail");
    sym_assert(got.has_value() == (want != nullptr), "found iff a rule has such keys");
    if (!got)
        return;
    Fld f, g;
    for (size_t i = 0; i < n; ++i)
        f.push_back({want->db[i].kw, want->db[i].kind == Hidden ? "" : vals[i]});
    sym_assert(same(fieldOf(*got), f), "the key of the first such rule");
    // the values of a rule's key fill the same key
    Key k = s.rules_[wd]->makeKey(t);
    bool keep = true;
    for (size_t i = 0; i < n; ++i)
        if (!(want->db[i].kind == Optional_ && vals[i].empty()))
            g.push_back({want->db[i].kw, vals[i]});
    sym_assert(same(fieldOf(k), g), "key made from its values");
    sym_reach("found");
}
