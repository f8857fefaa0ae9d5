// Canonical form of field values: spellings that mean the same value end up as the same key value, and canonicalisation is idempotent.
#include "common.h"
#include "eckit/types/Date.h"
#include "fdb5/database/Key.h"
#include "fdb5/types/Type.h"
#include "fdb5/types/TypesFactory.h"
#include "fdb5/types/TypesRegistry.h"
#include "metkit/mars/MarsRequest.h"
using namespace fdb5;
void sym_setup() { harnessInit(); }
static std::unique_ptr<const Type> mk(const char* t, const char* kw = "x") { return std::unique_ptr<const Type>(TypesFactory::build(t, kw)); }
static std::vector<std::string> requested(const Type& t, const std::string& kw, const std::vector<std::string>& vs) {
    metkit::mars::MarsRequest r("retrieve");
    r.values(kw, vs);
    eckit::StringList out;
    t.getValues(r, kw, out, nullptr);
    return out;
}
static char lowc(char c) { return c + (char)(32 * (unsigned(c - 'A') < 26u)); }

SYM_CASE(plain, "text values of 0..6 arbitrary printable characters, types Default/Ignore/Abbreviation/Grid") {
    std::string v = symStr("v", 0, deep() ? 8 : 6, anyChar);
    std::string low = v;
    for (auto& c : low)
        c = lowc(c);
    auto d = mk("Default");
    sym_assert(d->toKey(v) == low && d->tidy(v) == low, "plain values are stored in lower case");
    sym_assert(d->toKey(d->toKey(v)) == d->toKey(v) && d->tidy(d->tidy(v)) == d->tidy(v), "idempotent");
    sym_assert(mk("Ignore")->toKey(v).empty(), "ignored keyword has no value");
    std::string g = mk("Grid")->toKey(v);
    sym_assert(g.size() == v.size(), "grid keeps length");
    bool ok = true;
    for (size_t i = 0; i < v.size(); ++i)
        ok &= (v[i] == '/') ? g[i] == '+' : g[i] == v[i];
    sym_assert(ok, "grid replaces every slash");
    sym_assert(mk("Grid")->toKey(g) == g, "grid idempotent");
    std::string a = mk("First3")->toKey(v);
    sym_assert(a == v.substr(0, 3), "abbreviation is the first three characters");
    sym_assert(mk("First3")->toKey(a) == a, "abbreviation idempotent");
    if (v.size() == 6)
        sym_reach("six");
}
SYM_CASE(plain_match, "two text values of 0..3 printable characters") {
    std::string a = symStr("a", 0, 3, anyChar), b = symStr("b", 0, 3, anyChar);
    auto d = mk("Default");
    bool same = a.size() == b.size();
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        same &= lowc(a[i]) == lowc(b[i]);
    sym_assert((d->toKey(a) == d->toKey(b)) == same, "two spellings share a key value iff they differ in case only");
    sym_assert(d->match("x", a, b) == (a == b), "match is equality");
    sym_assert(d->match("x", a, b) == d->match("x", b, a), "match is symmetric");
}
SYM_CASE(expver, "experiment versions of 1..6 characters with blanks around") {
    std::string v = symStr("v", 1, 6, [](unsigned char c) { return (bool)(valueChar(c) | (c == ' ')); });
    auto t = mk("Expver");
    std::string k = t->tidy(v);
    size_t b = 0, e = v.size();
    while (b < e && v[b] == ' ')
        ++b;
    while (e > b && v[e - 1] == ' ')
        --e;
    std::string m = v.substr(b, e - b);
    while (m.size() < 4)
        m = "0" + m;
    sym_assert(k == m, "padded to four characters on the left");
    sym_assert(t->tidy(k) == k, "idempotent");
    if (e - b == 2)
        sym_reach("padded");
}
static const char* timeForm(unsigned f, std::string& s, unsigned h, unsigned m) {
    switch (f) {
        case 0: s = digits(h, 2) + digits(m, 2); return "HHMM";
        case 1: s = digits(h, 2) + ":" + digits(m, 2); return "HH:MM";
        case 2: s = digits(h, 2) + digits(m, 2) + "00"; return "HHMMSS";
        case 3: s = digits(h, 2) + ":" + digits(m, 2) + ":00"; return "HH:MM:SS";
        case 4: s = digits(h, 2); return "HH";
        default: s = digits(h, 1); return "H";
    }
}
SYM_CASE(time, "every hour and every 5th minute (thorough: every minute) in 6 spellings") {
    unsigned f = sym_choice("form", 6);
    unsigned h = sym_range<uint8_t>("h", 0, f == 5 ? 9 : 23), m = f >= 4 ? 0 : sym_range<uint8_t>("m", 0, deep() ? 59 : 11);
    if (!deep())
        m *= 5;
    auto t = mk("Time");
    std::string s;
    timeForm(f, s, h, m);
    std::string k = t->toKey(s), want = digits(h, 2) + digits(m, 2);
    sym_assert(k == want, "a time of day has one key value, HHMM");
    sym_assert(t->tidy(s) == want, "tidy agrees");
    sym_assert(t->toKey(k) == k, "idempotent");
}
static unsigned dim(unsigned y, unsigned m) {
    static const unsigned n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : n[m - 1];
}
SYM_CASE(dates, "every day of 2 years (thorough: 4), 2 spellings, all date-derived types") {
    static const unsigned Y[] = {2020, 1999, 2100, 2000};
    unsigned y = Y[sym_choice("year", deep() ? 4 : 2)], form = sym_choice("form", 2);
    unsigned m = sym_range<uint8_t>("m", 1, 12), d = sym_range<uint8_t>("d", 1, 31);
    m = (unsigned)sym_concrete_(m, 32);
    sym_assume(d <= dim(y, m));
    std::string iso = digits(y, 4) + "-" + digits(m, 2) + "-" + digits(d, 2), num = digits(y, 4) + digits(m, 2) + digits(d, 2);
    std::string v = form ? iso : num;
    auto date = mk("Date", "date");
    auto r = requested(*date, "date", {v});
    sym_assert(r.size() == 1 && r[0] == num, "requested dates become yyyymmdd");
    sym_assert(date->tidy(num) == num && date->toKey(num) == num, "yyyymmdd is canonical");
    sym_assert(mk("Month")->toKey(v) == std::to_string(m), "month");
    sym_assert(mk("MonthOfDate")->toKey(v) == digits(m, 2), "month of date");
    sym_assert(mk("Year")->toKey(v) == std::to_string(y), "year");
    sym_assert(mk("YearMonth")->toKey(v) == std::to_string(y * 100 + m), "year and month");
    sym_assert(mk("ClimateDaily")->toKey(v) == digits(m, 2) + digits(d, 2), "climatological day");
    sym_assert(mk("ClimateMonthly")->toKey(num) == std::to_string(m), "climatological month");
    if (m == 2 && d == 29)
        sym_reach("leap");
}
SYM_CASE(climate, "the 12 month names, every day of the month") {
    static const char* M[] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};
    unsigned m = sym_choice("m", 12), d = sym_range<uint8_t>("d", 1, 31);
    auto cd = mk("ClimateDaily");
    std::string two = std::string(M[m]) + "-" + digits(d, 2);
    sym_assert(cd->toKey(two) == digits(m + 1, 2) + digits(d, 2), "named day");
    sym_assert(cd->match("date", two, digits(2020, 4) + digits(m + 1, 2) + digits(d > 28 ? 28 : d, 2)) == (d <= 28), "named day matches the dates of that day only");
    auto cm = mk("ClimateMonthly");
    sym_assert(cm->toKey(M[m]) == std::to_string(m + 1) && cm->toKey(std::to_string(m + 1)) == cm->toKey(M[m]), "month name and number are the same");
    auto r = requested(*cm, "date", {std::to_string(m + 1)});
    sym_assert(r.size() == 1 && r[0] == M[m], "requested months become names");
    sym_assert(cm->toKey(r[0]) == cm->toKey(std::to_string(m + 1)), "what is requested is what is stored");
    sym_assert(throws([&] { cm->toKey("foo"); }), "unknown names are rejected");
}
SYM_CASE(relative_dates, "relative days 0..-40") {
    unsigned n = sym_range<uint8_t>("n", 0, 40);
    n = (unsigned)sym_concrete_(n, 32);
    auto t = mk("Date", "date");
    std::string v = n ? "-" + std::to_string(n) : "0";
    std::string want = std::to_string(eckit::Date(-(long)n).yyyymmdd());
    sym_assert(t->tidy(v) == want, "relative dates are resolved");
    sym_assert(t->tidy(t->tidy(v)) == want, "idempotent");
}
SYM_CASE(step, "steps 0..240 h (thorough 0..999) in 4 spellings and ranges") {
    unsigned f = sym_choice("form", 4), n = sym_range<uint16_t>("n", 0, deep() ? 999 : 240);
    n = (unsigned)sym_concrete_(n, 32);
    auto t = mk("Step", "step");
    std::string N = std::to_string(n), v;
    switch (f) {
        case 0: v = N; break;
        case 1: v = N + "h"; break;
        case 2: v = std::to_string(n * 60) + "m"; break;
        default: v = digits(n, 4); break;
    }
    std::string k = t->toKey(v);
    sym_assert(k == N, "a step in hours has one key value");
    sym_assert(t->toKey(k) == k, "idempotent");
    std::string rg = t->toKey("0-" + N);
    sym_assert(t->match("step", N, "0-" + N) && t->match("step", "0-" + N, N) && t->match("step", N, N), "a step matches the range from 0");
    std::string O = std::to_string(n + 1);
    sym_assert(!t->match("step", N, O) && !t->match("step", N, "0-" + O) && !t->match("step", "1-" + N, N) && !t->match("step", N, "1-" + N), "and no other");
    sym_assert(t->toKey("12-" + std::to_string(n + 13)) == "12-" + std::to_string(n + 13), "ranges are kept");
    sym_assert(requested(*t, "step", {v})[0] == N, "requested steps are canonical");
    (void)rg;
}
SYM_CASE(number, "decimal numbers with 1..2 integer and 0..2 fraction digits") {
    unsigned ni = 1 + sym_choice("ni", 2), nf = sym_choice("nf", 3);
    unsigned i = sym_range<uint8_t>("i", 0, ni == 1 ? 9 : 29), f = nf ? sym_range<uint8_t>("f", 0, nf == 1 ? 9 : 49) : 0;
    auto t = mk("Double");
    std::string v = digits(i, ni) + (nf ? "." + digits(f, nf) : "");
    std::string k = t->toKey(v);
    sym_assert(t->toKey(k) == k, "idempotent");
    sym_assert((k == std::to_string(i)) == (f == 0), "whole numbers are written without fraction");
    if (nf == 1)
        sym_assert(t->toKey(v + "0") == k, "trailing zeros do not matter");
    sym_assert(t->toKey("0" + v) == k, "leading zeros do not matter");
}
SYM_CASE(integer, "integers 0..99 with leading zeros") {
    unsigned n = sym_range<uint8_t>("n", 0, 99);
    auto t = mk("Integer", "number");
    auto r = requested(*t, "number", {digits(n, 3)});
    n = (unsigned)sym_concrete_(n, 32);
    sym_assert(r.size() == 1 && r[0] == std::to_string(n), "leading zeros of requested integers are dropped");
}
SYM_CASE(param, "parameters p[.t], p in 0..12 or 129..133 or 228001.., t in {none,1,128,228}") {
    static const char* T[] = {"", ".1", ".128", ".228"};
    static const unsigned TV[] = {0, 1, 128, 228};
    static const unsigned B[] = {0, 129, 228000, 1000};
    unsigned b1 = B[sym_choice("b1", 4)], b2 = B[sym_choice("b2", 4)], t1 = sym_choice("t1", 4), t2 = sym_choice("t2", 4);
    unsigned p1 = b1 + sym_choice("p1", deep() ? 8 : 2) , p2 = b2 + sym_choice("p2", deep() ? 8 : 2);
    auto t = mk("Param", "param");
    std::string v1 = std::to_string(p1) + T[t1], v2 = std::to_string(p2) + T[t2];
    bool m = t->match("param", v1, v2);
    sym_assert(m == t->match("param", v2, v1), "symmetric");
    sym_assert(t->match("param", v1, v1), "reflexive");
    bool want = (p1 == p2 && (TV[t1] == TV[t2] || TV[t1] == 0 || TV[t2] == 0)) || (TV[t1] * 1000 + p1 == p2) || (TV[t2] * 1000 + p2 == p1);
    sym_assert(m == want, "parameters match iff number and table (or the combined number) agree");
}
SYM_CASE(registry, "registry of <=3 types over 3 keywords, parent with 1; keyword and value symbolic") {
    static const char* KW[] = {"class", "date", "step"};
    static const char* TY[] = {"Default", "Grid", "Ignore"};
    TypesRegistry parent, reg;
    int pt = (int)sym_choice("pt", 4) - 1, own[3];
    if (pt >= 0)
        parent.addType("class", TY[pt]);
    reg.updateParent(parent);
    for (int i = 0; i < 3; ++i) {
        own[i] = (int)sym_choice("t", i == 0 ? 4 : 2) - 1;
        if (own[i] >= 0)
            reg.addType(KW[i], TY[own[i]]);
    }
    sym_assert(reg.lookupType("class").type() == (own[0] >= 0 ? TY[own[0]] : pt >= 0 ? TY[pt] : "Default"), "own type, then the parent's, then default");
    sym_assert(reg.lookupType("date").type() == (own[1] >= 0 ? TY[own[1]] : "Default"), "default type");
    eckit::Buffer b(1024);
    eckit::MemoryStream s(b);
    reg.encode(s);
    eckit::MemoryStream r(b);
    TypesRegistry back(r);
    sym_assert(back == reg && back.hash() == reg.hash(), "same registry after encoding");
    sym_assert(r.position() == s.position(), "encoding consumed");
    // keys are canonicalised with the type of each keyword
    TypedKey k(reg);
    std::string v1 = sym_string("v1", 2, anyChar), v2 = sym_string("v2", 2, anyChar);
    k.push("class", v1);
    k.push("step", v2);
    Key c = k.canonical();
    std::string l1 = v1, l2 = v2;
    for (auto& ch : l1)
        ch = lowc(ch);
    for (auto& ch : l2)
        ch = lowc(ch);
    int t0 = own[0] >= 0 ? own[0] : pt;
    std::string w = t0 == 2 ? "" : t0 == 1 ? v1 : l1;
    if (t0 == 1)
        for (auto& ch : w)
            if (ch == '/')
                ch = '+';
    sym_assert(c.get("class") == w, "value of class in the canonical key");
    sym_assert(c.names() == k.names(), "keyword order");
    TypedKey k2(reg);
    for (auto& n : c.names())
        k2.push(n, c.get(n));
    sym_assert(k2.canonical() == c, "canonical form is a fixed point");
}
