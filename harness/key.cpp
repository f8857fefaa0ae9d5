#include "common.h"
#include "eckit/container/DenseSet.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"
using fdb5::Key;
void sym_setup() { harnessInit(); }

static const char* KW[] = {"class", "expver", "step", "param"};
// ordered key with n of the keywords, values symbolic (some may be empty)
static Key mkKey(const char* nm, unsigned n, unsigned maxLen, bool rev = false) {
    Key k;
    for (unsigned i = 0; i < n; ++i)
        k.push(KW[rev ? n - 1 - i : i], symStr(nm, i == 0 ? 0 : 1, maxLen, [](unsigned char c) { return (bool)(valueChar(c) | (c == ' ')); }));
    return k;
}
// the stream encoding of a key decodes to the same key, in the same order, and its length is the announced one
SYM_CASE(roundtrip, "<=3 keywords in either order, values of 0..2 symbolic characters") {
    unsigned n = sym_choice("n", 4);
    Key k = mkKey("v", n, 2, sym_choice("rev", 2));
    eckit::Buffer b(4096);
    eckit::MemoryStream s(b);
    s << k;
    sym_assert(s.position() == k.encodeSize(), "announced size is the encoded size");
    eckit::MemoryStream r(b.data(), s.position());
    Key k2(r);
    sym_assert(k2 == k && !(k2 != k) && !(k2 < k) && !(k < k2), "decoded key equals the key");
    sym_assert(k2.names() == k.names(), "keyword order kept");
    sym_assert(r.position() == s.position(), "decoder consumes exactly the encoding");
    for (auto& kv : k)
        sym_assert(k2.get(kv.first) == kv.second, "value kept");
    sym_assert((std::string)k2 == (std::string)k, "same text");
    if (n == 3)
        sym_reach("n3");
}
// keys are matched keyword by keyword
SYM_CASE(match, "key of 3 keywords against key of <=2 keywords, values of <=2 symbolic characters") {
    Key a = mkKey("a", 3, 1);
    unsigned n = sym_choice("n", 3);
    Key b;
    bool expect = true;
    for (unsigned i = 0; i < n; ++i) {
        unsigned w = sym_choice("w", 4);
        if (b.find(KW[w]).second)
            sym_end_path();
        std::string v = symStr("b", 0, 1, valueChar);
        b.push(KW[w], v);
        bool ok = w < 3 && !v.empty() && a.get(KW[w]).size() == v.size();
        if (ok)
            for (size_t j = 0; j < v.size(); ++j)
                ok &= (bool)(a.get(KW[w])[j] == v[j]);
        expect &= ok;
    }
    sym_assert(a.match(b) == expect, "a key matches exactly the keys whose every non-empty value it holds");
    sym_assert(a.match(a) == !a.get("class").empty(), "a complete key matches itself");
    // validation against another key
    bool subset = true, same = true;
    for (auto& kv : b) {
        auto f = a.find(kv.first);
        if (!f.second)
            subset = false;
        else if (f.first->second != kv.second)
            same = false;
    }
    sym_assert(throws([&] { a.validateKeys(b); }) == !subset, "missing keywords are reported");
    sym_assert(throws([&] { a.validateKeys(b, true); }) == !(subset && same), "missing keywords or differing values are reported");
    if (expect && n == 2)
        sym_reach("match2");
}
SYM_CASE(matchvalues, "1 keyword, 3 candidate values of <=2 symbolic characters") {
    Key a = mkKey("a", 2, 2);
    eckit::DenseSet<std::string> ds;
    bool expect = false;
    std::string mine = a.get("expver");
    unsigned n = 1 + sym_choice("n", 2);
    for (unsigned i = 0; i < n; ++i) {
        std::string v = symStr("c", 1, 2, valueChar);
        ds.insert(v);
        expect |= (v == mine);
    }
    ds.sort();
    sym_assert(a.matchValues("expver", ds) == expect, "value filter");
    sym_assert(!a.matchValues("param", ds), "absent keyword never matches");
    if (expect)
        sym_reach("hit");
}
// equal keys have equal fingerprints, different values (without the separator) different ones
SYM_CASE(fingerprint, "3 keywords, values of 0..2 symbolic characters other than ':'") {
    Key a = mkKey("a", 3, 2), b = mkKey("b", 3, 2);
    bool eq = a == b;
    sym_assert((a.valuesToString() == b.valuesToString()) == eq, "the fingerprint identifies the values");
    sym_assert((a < b || b < a) == !eq && !(a < b && b < a), "strict order agrees with equality");
    std::string s = a.valuesToString();
    sym_assert(s == a.get("class") + ":" + a.get("expver") + ":" + a.get("step"), "fingerprint is the value list in keyword order");
    sym_reach("done");
}
// text form: parse(text(k)) == k for keys whose values are not empty
SYM_CASE(text, "1..3 keywords, values of 1..2 symbolic characters") {
    unsigned n = 1 + sym_choice("n", 3);
    Key k;
    for (unsigned i = 0; i < n; ++i)
        k.push(KW[(i + 1) % 3], symStr("v", 1, 2, valueChar));
    Key p = Key::parse((std::string)k);
    sym_assert(p == k && p.names() == k.names(), "text form parses back");
    if (n == 3)
        sym_reach("n3");
}
SYM_CASE(pushpop, "push/pop of a 2 keyword key on a 1 keyword key, set/overwrite") {
    Key a, b;
    a.push("class", symStr("c", 1, 2, valueChar));
    b.push("step", symStr("s", 1, 2, valueChar));
    b.push("param", symStr("p", 1, 2, valueChar));
    Key before = a;
    a.pushFrom(b);
    sym_assert(a.size() == 3 && a.get("step") == b.get("step") && a.get("param") == b.get("param") && a.get("class") == before.get("class"), "union");
    a.popFrom(b);
    sym_assert(a == before && a.names() == before.names(), "pop undoes push");
    std::string v = sym_string("v", 2, anyChar);
    a.set("class", v);
    sym_assert(a.size() == 1 && a.names().size() == 1, "overwrite does not add");
    for (int i = 0; i < 2; ++i) {
        unsigned char c = v[i];
        if (c >= 'A' && c <= 'Z')
            c += 32;
        sym_assert((unsigned char)a.get("class")[i] == c, "values are stored in lower case");
    }
    sym_reach("done");
}
// a keyword taken out of a key is gone from the key, its order and its text, and can be set again
SYM_CASE(unset, "keys of 1..3 keywords in either order, one of 4 keywords removed, values of 0..2 symbolic characters") {
    unsigned n = 1 + sym_choice("n", 3);
    bool rev = sym_choice("rev", 2);
    Key k = mkKey("v", n, 2, rev);
    const Key before = k;
    std::string kw = KW[sym_choice("kw", 4)];
    bool had = k.find(kw).second;
    k.unset(kw);
    sym_assert(k.size() == n - had && k.names().size() == n - had && !k.find(kw).second, "removed from the key and from its order");
    Key want;
    for (const auto& name : before.names())
        if (name != kw)
            want.push(name, before.get(name));
    sym_assert(k == want && k.names() == want.names() && (std::string)k == (std::string)want && k.valuesToString() == want.valuesToString(),
               "the key is the one built without the keyword");
    eckit::Buffer b(4096);
    eckit::MemoryStream s(b);
    s << k;
    eckit::MemoryStream r(b.data(), s.position());
    Key k2(r);
    sym_assert(k2 == want && k2.names() == want.names(), "and is transferred as such");
    std::string again = symStr("w", 0, 2, valueChar);
    k.set(kw, again);
    sym_assert(k.size() == want.size() + 1 && k.names().size() == want.size() + 1 && k.names().back() == kw, "set again at the end");
    k.pop(kw);
    sym_assert(k == want && k.names() == want.names(), "and popped");
    if (had && n == 3)
        sym_reach("n3");
}
// request filters
SYM_CASE(request, "key of 2 keywords, request with <=2 values for each of <=3 keywords") {
    Key k = mkKey("k", 2, 1);
    metkit::mars::MarsRequest r("retrieve");
    bool all = true, part = true;
    for (unsigned i = 0; i < 3; ++i) {
        unsigned nv = sym_choice("nv", 3);
        if (!nv)
            continue;
        std::vector<std::string> vs;
        bool hit = false;
        for (unsigned j = 0; j < nv; ++j) {
            // small alphabet: values cross into metkit
            std::string v(1, "ab"[sym_choice("val", 2)]);
            vs.push_back(v);
            if (i < 2)
                hit |= k.get(KW[i]) == v;
        }
        r.values(KW[i], vs);
        if (i < 2)
            part &= hit;
        all &= hit;
    }
    sym_assert(k.match(r) == all, "full match needs every request keyword");
    sym_assert(k.partialMatch(r) == part, "partial match only looks at the key's keywords");
    if (all)
        sym_reach("all");
}
