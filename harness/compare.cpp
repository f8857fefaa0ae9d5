// C23: fdb-compare reports two FDBs as equal exactly when they are
#include "common.h"
#include <sys/mman.h>
#include <cmath>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include "eckit/io/DataHandle.h"
#include "fdb5/LibFdb5.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/FDBFactory.h"
#include "fdb5/api/helpers/APIIterator.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/tools/compare/common/Types.h"
#include "fdb5/tools/compare/grib/Compare.h"
#include "fdb5/tools/compare/grib/CompareBitwise.h"
#include "fdb5/tools/compare/grib/CompareDatasection.h"
#include "fdb5/tools/compare/grib/CompareHash.h"
#include "fdb5/tools/compare/grib/CompareKeys.h"
#include "fdb5/tools/compare/grib/Utils.h"
#include "fdb5/tools/compare/mars/Compare.h"
#include "metkit/codes/api/CodesAPI.h"
#include "metkit/mars/MarsRequest.h"
using namespace fdb5;
using compare::grib::CompareResult;
using metkit::codes::CodesValue;
using metkit::codes::NativeType;
using metkit::codes::Span;
void sym_setup() {
    harnessInit();
    fdb5::LibFdb5::instance();
}
static bool any(unsigned char) { return true; }

// ---- messages
struct Message {
    std::string bytes;
    size_t dataAt = 0;   // offset of the data section
    size_t dataEnd = 0;  // and of what follows it
    std::map<int, std::string> sections;
};
static std::string be(uint64_t v, unsigned n) {
    std::string s;
    while (n--)
        s += (char)((v >> (8 * n)) & 0xff);
    return s;
}
static void finish(Message& m, unsigned edition, char other) {
    m.bytes += "7777";
    size_t total = m.bytes.size();
    std::string head = edition == 1 ? "GRIB" + be(total, 3) + (char)1 : std::string("GRIB") + '\0' + '\0' + other + (char)2 + be(total, 8);
    m.bytes.replace(0, head.size(), head);
}
// body of section 1 of a GRIB1 message: 4 bytes, the flags, more
static Message grib1(const std::string& s1, bool gds, const std::string& s2, bool bms, const std::string& s3, const std::string& s4) {
    Message m;
    m.bytes.assign(8, '\0');
    std::string b1 = s1;
    b1[4] = (char)((gds ? 0x80 : 0) | (bms ? 0x40 : 0));
    auto add = [&](int n, const std::string& b) {
        m.sections[n] = b;
        if (n == 4)
            m.dataAt = m.bytes.size();
        m.bytes += be(b.size() + 3, 3) + b;
        if (n == 4)
            m.dataEnd = m.bytes.size();
    };
    add(1, b1);
    if (gds)
        add(2, s2);
    if (bms)
        add(3, s3);
    add(4, s4);
    finish(m, 1, 0);
    return m;
}
static Message grib2(char discipline, const std::vector<std::pair<int, std::string>>& ss) {
    Message m;
    m.bytes.assign(16, '\0');
    for (auto& s : ss) {
        m.sections[s.first] = s.second;
        if (s.first == 7)
            m.dataAt = m.bytes.size();
        m.bytes += be(s.second.size() + 5, 4) + (char)s.first + s.second;
        if (s.first == 7)
            m.dataEnd = m.bytes.size();
    }
    finish(m, 2, discipline);
    return m;
}
// a message of some structure with symbolic contents; `shape` counts
static const unsigned SHAPES = 8;
static Message someMessage(unsigned shape, unsigned dataLen) {
    auto b = [](const char* n, unsigned len = 1) { return sym_string(n, len, any, 'x'); };
    if (shape < 4)
        return grib1(b("s1", 6), shape & 1, b("s2"), shape & 2, b("s3"), b("s4", dataLen));
    std::vector<std::pair<int, std::string>> ss;
    ss.push_back({1, b("s1")});
    if (shape & 1)
        ss.push_back({2, b("s2")});
    ss.push_back({3, b("s3")});
    ss.push_back({4, b("s4")});
    ss.push_back({5, b("s5")});
    ss.push_back({6, b("s6")});
    ss.push_back({7, b("s7", dataLen)});
    return grib2(b("discipline")[0], ss);
}
// a copy whose last byte is followed by memory that cannot be read
static const uint8_t* guarded(const std::string& s, unsigned which) {
    static char* page[2] = {nullptr, nullptr};
    char*& p = page[which];
    if (!p) {
        p = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(p + 4096, 4096, PROT_NONE);
    }
    char* at = p + 4096 - s.size();
    for (size_t i = 0; i < s.size(); ++i)
        at[i] = s[i];
    return (const uint8_t*)at;
}

// ---- stand-in for eccodes: what a message says is what the harness put in
struct FakeKeys : metkit::codes::KeyIterator {
    std::vector<std::string> names;
    size_t at = 0;
    std::string name() const override { return names[at]; }
    CodesValue get() const override { NOTIMP; }
    NativeType type() const override { NOTIMP; }
    long getLong() const override { NOTIMP; }
    double getDouble() const override { NOTIMP; }
    float getFloat() const override { NOTIMP; }
    std::string getString() const override { NOTIMP; }
    std::vector<long> getLongArray() const override { NOTIMP; }
    std::vector<double> getDoubleArray() const override { NOTIMP; }
    std::vector<float> getFloatArray() const override { NOTIMP; }
    std::vector<std::string> getStringArray() const override { NOTIMP; }
    std::vector<std::uint8_t> getBytes() const override { NOTIMP; }
    void next() override { ++at; }
    bool isValid() const override { return at < names.size(); }
};
struct FakeHandle : metkit::codes::CodesHandle {
    struct V {
        bool missing = false;
        NativeType type = NativeType::Long;
        CodesValue value = 0L;
    };
    std::map<std::string, V> kv;
    std::vector<double> vals;
    const uint8_t* data = nullptr;
    size_t size_ = 0;
    const V& v(const std::string& k) const {
        auto i = kv.find(k);
        if (i == kv.end())
            throw eckit::BadParameter("no key " + k);
        return i->second;
    }
    bool isDefined(const std::string& k) const override { return kv.count(k); }
    bool isMissing(const std::string& k) const override { return v(k).missing; }
    bool has(const std::string& k) const override { return kv.count(k) && !v(k).missing; }
    void setMissing(const std::string&) override { NOTIMP; }
    void set(const std::string&, const std::string&) override { NOTIMP; }
    void set(const std::string&, double) override { NOTIMP; }
    void set(const std::string&, long) override { NOTIMP; }
    void set(const std::string&, Span<const std::string>) override { NOTIMP; }
    void set(const std::string&, Span<const char*>) override { NOTIMP; }
    void set(const std::string&, Span<const double>) override { NOTIMP; }
    void set(const std::string&, Span<const float>) override { NOTIMP; }
    void set(const std::string&, Span<const long>) override { NOTIMP; }
    void set(const std::string&, Span<const uint8_t>) override { NOTIMP; }
    void forceSet(const std::string&, Span<const double>) override { NOTIMP; }
    void forceSet(const std::string&, Span<const float>) override { NOTIMP; }
    size_t size(const std::string& k) const override { return k == "values" ? vals.size() : 1; }
    size_t length(const std::string&) const override { NOTIMP; }
    CodesValue get(const std::string& k) const override { return v(k).value; }
    NativeType type(const std::string& k) const override { return v(k).type; }
    long getLong(const std::string& k) const override { return std::get<long>(v(k).value); }
    double getDouble(const std::string& k) const override { return std::get<double>(v(k).value); }
    std::string getString(const std::string& k) const override { return std::get<std::string>(v(k).value); }
    std::vector<long> getLongArray(const std::string&) const override { NOTIMP; }
    std::vector<double> getDoubleArray(const std::string& k) const override {
        if (k != "values")
            NOTIMP;
        return vals;
    }
    std::vector<float> getFloatArray(const std::string&) const override { NOTIMP; }
    std::vector<std::string> getStringArray(const std::string&) const override { NOTIMP; }
    std::vector<uint8_t> getBytes(const std::string&) const override { NOTIMP; }
    std::unique_ptr<CodesHandle> clone() const override { NOTIMP; }
    void copyInto(uint8_t*, size_t) const override { NOTIMP; }
    size_t messageSize() const override { return size_; }
    Span<const uint8_t> messageData() const override { return {data, size_}; }
    metkit::codes::KeyRange keys(metkit::codes::KeyIteratorFlags, std::optional<metkit::codes::Namespace>) const override {
        auto k = std::make_unique<FakeKeys>();
        for (auto& e : kv)
            if (e.first.compare(0, 3, "md5"))  // computed
                k->names.push_back(e.first);
        return metkit::codes::KeyRange(std::move(k));
    }
    metkit::codes::KeyRange keys(metkit::codes::Namespace) const override { NOTIMP; }
    metkit::codes::GeoRange values() const override { NOTIMP; }
    void* release() override { NOTIMP; }
};
static void put(FakeHandle& h, const std::string& k, CodesValue v, NativeType t) {
    auto& e = h.kv[k];
    e.value = std::move(v);
    e.type = t;
}
namespace metkit::codes {
// reads what finish(), grib1() and grib2() wrote; one value per byte of the data section, a key per other section
std::unique_ptr<CodesHandle> codesHandleFromMessage(Span<const uint8_t> sp) {
    auto h = std::make_unique<FakeHandle>();
    const uint8_t* p = sp.data();
    size_t n = sp.size();
    h->data = p;
    h->size_ = n;
    bool one = p[7] == 1;
    put(*h, "editionNumber", (long)p[7], NativeType::Long);
    put(*h, "discipline", (long)(one ? 0 : p[6]), NativeType::Long);
    size_t at = one ? 8 : 16;
    int sec = 0;
    uint8_t flags = one ? p[15] : 0;
    for (int i = 1; i <= 7; ++i)
        put(*h, "md5Section" + std::to_string(i), std::string("none"), NativeType::String);
    while (n - at > 4) {
        size_t len = one ? (p[at] << 16 | p[at + 1] << 8 | p[at + 2]) : ((size_t)p[at] << 24 | p[at + 1] << 16 | p[at + 2] << 8 | p[at + 3]);
        if (one) {
            ++sec;
            if (sec == 2 && !(flags & 0x80))
                ++sec;
            if (sec == 3 && !(flags & 0x40))
                ++sec;
        }
        else
            sec = p[at + 4];
        std::string body((const char*)p + at + (one ? 3 : 5), len - (one ? 3 : 5));
        std::string k = std::to_string(sec);
        put(*h, "md5Section" + k, "=" + body, NativeType::String);
        if (sec == (one ? 4 : 7)) {
            for (unsigned char c : body)
                h->vals.push_back((double)c);
            std::vector<long> v(body.begin(), body.end());
            put(*h, "values", v, NativeType::Double);
        }
        else
            for (size_t i = 0; i < body.size(); ++i)
                put(*h, "key" + k + "_" + std::to_string(i), (long)(unsigned char)body[i], NativeType::Long);
        at += len;
    }
    return h;
}
}  // namespace metkit::codes

// ---- bitwise comparison
SYM_CASE(bitwise, "two GRIB1 messages (with or without sections 2 and 3) or GRIB2 messages (with or without section 2), of the same or different structure, all contents symbolic (1..6 bytes per section, data of 0..2 bytes)") {
    unsigned sa = sym_choice("shape", SHAPES), sb = sym_choice("other", 2) ? sym_choice("shape2", SHAPES) : sa;
    Message a = someMessage(sa, sym_choice("len", 3)), b = someMessage(sb, sym_choice("len2", 3));
    if (a.bytes.size() != b.bytes.size())
        sym_end_path();  // refused by the caller
    size_t n = a.bytes.size();
    CompareResult r = compare::grib::bitComparison(guarded(a.bytes, 0), guarded(b.bytes, 1), n);
    bool same = true, sameBefore = true;
    for (size_t i = 0; i < n; ++i) {
        bool eq = a.bytes[i] == b.bytes[i];
        same = same & eq;
        if (i < a.dataAt)
            sameBefore = sameBefore & eq;
    }
    sym_assert((r == CompareResult::Match) == same, "messages match exactly when they are identical");
    bool sameStructure = a.dataAt == b.dataAt && a.dataEnd == b.dataEnd && a.bytes[7] == b.bytes[7];
    if (r == CompareResult::DataSectionMismatch)
        sym_assert(sameBefore, "only the data differs where data is said to differ");
    if (sameBefore && sameStructure && !same)
        sym_assert(r == CompareResult::DataSectionMismatch, "a difference in the data alone is told from others");
    if (r == CompareResult::Match)
        sym_reach("match");
    if (r == CompareResult::DataSectionMismatch)
        sym_reach("data");
    if (r == CompareResult::OtherMismatch)
        sym_reach("other");
}
SYM_CASE(damaged, "two messages of 17 or 20 (deep: up to 32) bytes: GRIB, edition 0..3, all other bytes of the first symbolic (the high bytes of lengths 0 unless deep); the second is the first with one symbolic byte at one of 6 positions (deep: anywhere), or the same") {
    size_t n = 17 + 3 * sym_choice("size", deep() ? 6 : 2);
    std::string a = sym_string("a", n, any, 'x');
    a.replace(0, 4, "GRIB");
    a[7] = (char)sym_choice("edition", 4);
    if (!deep())  // high bytes of lengths
        for (size_t i : {8, 9, 10, 11, 12, 13, 14})
            if (i < 10 || a[7] == 2)
                a[i] = '\0';
    std::string b = a;
    if (sym_choice("differ", 2)) {
        static const size_t some[] = {5, 6, 11, 15, 18, 16};
        size_t i = deep() ? sym_choice("at", n) : some[sym_choice("at", n > 18 ? 6 : 4)];
        b[i] = (char)sym_any<uint8_t>("byte");
        sym_assume(b[i] != a[i]);
    }
    bool same = true;
    for (size_t i = 0; i < n; ++i)
        same = same & (a[i] == b[i]);
    CompareResult r = compare::grib::bitComparison(guarded(a, 0), guarded(b, 1), n);
    if (r == CompareResult::Match) {
        sym_assert(same, "different messages never match");
        sym_reach("match");
    }
}
SYM_CASE(header, "as bitwise: everything before the data section") {
    unsigned sa = sym_choice("shape", SHAPES), sb = sym_choice("other", 2) ? sym_choice("shape2", SHAPES) : sa;
    Message a = someMessage(sa, sym_choice("len", 2)), b = someMessage(sb, sym_choice("len2", 2));
    FakeHandle h1, h2;
    h1.data = guarded(a.bytes, 0);
    h1.size_ = a.bytes.size();
    h2.data = guarded(b.bytes, 1);
    h2.size_ = b.bytes.size();
    bool r = compare::grib::compareHeader(h1, h2);
    bool same = a.dataAt == b.dataAt;
    for (size_t i = 0; i < a.dataAt && same; ++i)
        same = same & (a.bytes[i] == b.bytes[i]);
    if (r)
        sym_reach("same");
    sym_assert(r == same, "headers match exactly when all bytes before the data are the same");
}
SYM_CASE(header_damaged, "a header of 0..26 bytes: GRIB, edition 0..3, all other bytes symbolic") {
    size_t n = sym_choice("size", 27);
    std::string a = sym_string("a", n, any, 'x');
    if (n >= 4)
        a.replace(0, 4, "GRIB");
    if (n >= 8)
        a[7] = (char)sym_choice("edition", 4);
    FakeHandle h1, h2;
    h1.data = guarded(a, 0);
    h2.data = guarded(a, 1);
    h1.size_ = h2.size_ = n;
    try {
        sym_assert(compare::grib::compareHeader(h1, h2), "the same header matches, or is refused");
        sym_reach("parsed");
    }
    catch (std::exception&) {
        sym_reach("refused");
    }
}
SYM_CASE(md5, "editions 0..3 of each message, sums of 1..2 symbolic characters") {
    FakeHandle h1, h2;
    long e1 = sym_choice("edition", 4), e2 = sym_choice("edition2", 4);
    put(h1, "editionNumber", e1, NativeType::Long);
    put(h2, "editionNumber", e2, NativeType::Long);
    std::string s1[8], s2[8];
    unsigned len = 1 + sym_choice("len", 2);
    for (int i = 1; i <= 7; ++i) {
        s1[i] = sym_string("sum", len, any, 'x');
        s2[i] = sym_string("sum2", len, any, 'x');
        put(h1, "md5Section" + std::to_string(i), s1[i], NativeType::String);
        put(h2, "md5Section" + std::to_string(i), s2[i], NativeType::String);
    }
    CompareResult r = CompareResult::Match;
    bool failed = throws([&] { r = compare::grib::compareMd5sums(h1, h2); });
    sym_assert(failed == (e1 != e2 || e1 < 1 || e1 > 2), "editions other than 1 and 2 are refused");
    if (failed)
        return;
    bool other = e1 == 1 ? s1[3] != s2[3] : (s1[5] != s2[5] || s1[6] != s2[6]);
    bool data = e1 == 1 ? s1[4] != s2[4] : s1[7] != s2[7];
    sym_assert(r == (other ? CompareResult::OtherMismatch : data ? CompareResult::DataSectionMismatch : CompareResult::Match), "sums are compared section by section");
}

// ---- keys
static void someValue(FakeHandle& h, const std::string& k, unsigned kind) {
    auto& e = h.kv[k];
    switch (kind) {
        case 0:
            e.missing = true;
            e.type = NativeType::Long;
            break;
        case 1:
            put(h, k, (long)sym_range<uint8_t>("long", 0, 3), NativeType::Long);
            break;
        case 2:
            put(h, k, symStr("text", 1, 2, valueChar), NativeType::String);
            break;
        case 3: {
            std::vector<long> v;
            for (unsigned i = 1 + sym_choice("count", 2); i-- > 0;)
                v.push_back(sym_range<uint8_t>("element", 0, 3));
            put(h, k, v, NativeType::Long);
            break;
        }
        case 4: {
            std::vector<uint8_t> v;
            for (unsigned i = sym_choice("count", 2) + 1; i-- > 0;)
                v.push_back(sym_range<uint8_t>("byte", 0, 3));
            put(h, k, v, NativeType::Bytes);
            break;
        }
    }
}
static bool sameValue(const FakeHandle& a, const FakeHandle& b, const std::string& k) {
    auto &x = a.v(k), &y = b.v(k);
    if (x.missing || y.missing)
        return x.missing && y.missing;
    if (x.type != y.type || x.value.index() != y.value.index())
        return false;
    return x.value == y.value;
}
SYM_CASE(keys, "2 keys and values, each missing, a long, a text, longs or bytes of 1..2 elements in each message, symbolic; compared by name or all but those ignored") {
    FakeHandle h1, h2;
    const char* names[] = {"step", "level", "values"};
    unsigned focus = sym_choice("focus", 3);  // this one takes all kinds
    for (unsigned i = 0; i < 3; ++i) {
        if (i == focus) {
            someValue(h1, names[i], sym_choice("kind", 5));
            someValue(h2, names[i], sym_choice("kind2", 5));
        }
        else {
            someValue(h1, names[i], 1);
            someValue(h2, names[i], 1);
        }
    }
    std::unordered_set<std::string> ignore, select;
    unsigned mode = sym_choice("mode", 3);
    bool in[3];
    unsigned set = mode ? sym_choice("set", 8) : 0;
    for (unsigned i = 0; i < 3; ++i) {
        bool s = set >> i & 1;
        if (s)
            (mode == 1 ? ignore : select).insert(names[i]);
        in[i] = mode == 0 || (mode == 1 ? !s : s);
    }
    if (mode == 2 && select.empty())
        in[0] = in[1] = in[2] = true;
    CompareResult r = compare::grib::compareKeyByKey(h1, h2, ignore, select);
    bool other = false, data = false;
    for (unsigned i = 0; i < 3; ++i)
        if (in[i] && !sameValue(h1, h2, names[i])) {
            auto &x = h1.v(names[i]), &y = h2.v(names[i]);
            bool sized = x.value.index() >= 4;
            size_t lx = x.value.index() == 4 ? std::get<std::vector<long>>(x.value).size() : x.value.index() == 8 ? std::get<std::vector<uint8_t>>(x.value).size() : 0;
            size_t ly = y.value.index() == 4 ? std::get<std::vector<long>>(y.value).size() : y.value.index() == 8 ? std::get<std::vector<uint8_t>>(y.value).size() : 0;
            bool comparable = !x.missing && !y.missing && x.type == y.type && sized == (y.value.index() >= 4) && lx == ly;
            if (i == 2 && comparable)
                data = true;
            else
                other = true;
        }
    sym_assert(r == (other ? CompareResult::OtherMismatch : data ? CompareResult::DataSectionMismatch : CompareResult::Match), "keys match exactly when they have the same value; values that differ are left to the numeric comparison");
}

// ---- values
static const double grid[] = {0.0, -0.0, 1.0, 1.25, 1.5, -1.0, 1e300, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 5e-324};
static const double tolerances[] = {0.0, 2.220446049250313e-15, 0.25, 2.0};
static bool close(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= tol;
}
SYM_CASE(values, "1..2 values of 12 doubles (zeros, close, far, infinite, not a number), 4 tolerances, arrays of different sizes") {
    FakeHandle h1, h2;
    double tol = tolerances[sym_choice("tolerance", 4)];
    unsigned n = 1 + sym_choice("count", 2), m = sym_choice("longer", 2) ? n + 1 : n;
    for (unsigned i = 0; i < n; ++i) {
        bool second = i == 1 && !deep();
        h1.vals.push_back(second ? 1.0 : grid[sym_choice("v", 12)]);
        h2.vals.push_back(second ? (sym_choice("w", 2) ? 1.0 : 1.25) : grid[sym_choice("w", 12)]);
    }
    h2.vals.resize(m, 0.0);
    compare::grib::NumericResult r;
    bool failed = throws([&] { r = compare::grib::compareDataSection(h1, h2, tol); });
    sym_assert(failed == (n != m), "arrays of different sizes are refused");
    if (failed)
        return;
    bool ok = true;
    double worst = 0;
    for (unsigned i = 0; i < n; ++i) {
        bool c = close(h1.vals[i], h2.vals[i], tol);
        ok = ok && c;
        if (!c) {
            double e = std::fabs(h1.vals[i] - h2.vals[i]);
            worst = std::max(worst, std::isnan(e) ? std::numeric_limits<double>::infinity() : e);
        }
    }
    bool said = !(r.relativeError.max > tol) && !(r.absoluteError.max > tol);  // as judged by the comparison of messages
    sym_assert(said == ok, "values match exactly when each pair is within the tolerance");
    sym_assert(r.absoluteError.max == worst, "the largest error is reported");
    sym_assert(r.absoluteError.count == n && r.relativeError.count == n, "every value is counted");
}
SYM_CASE(results, "2 results, each with or without errors of 3 magnitudes, matching or not") {
    compare::Result r[2];
    double v[2][2] = {{0, 0}, {0, 0}};
    bool has[2][2];
    for (unsigned i = 0; i < 2; ++i) {
        r[i].match = sym_choice("match", 2);
        for (unsigned k = 0; k < 2; ++k) {
            has[i][k] = sym_choice("has", 2);
            if (!has[i][k])
                continue;
            v[i][k] = (double)sym_choice("value", 3);
            compare::NumericError e;
            e.update(v[i][k]);
            (k ? r[i].relativeError : r[i].absoluteError) = e;
        }
    }
    compare::Result t = r[0];
    t.update(r[1]);
    sym_assert(t.match == (r[0].match && r[1].match), "one mismatch is a mismatch");
    for (unsigned k = 0; k < 2; ++k) {
        auto& e = k ? t.relativeError : t.absoluteError;
        sym_assert(e.has_value() == (has[0][k] || has[1][k]), "errors are kept");
        if (!e)
            continue;
        double mx = 0, mn = 1e9, sum = 0;
        size_t c = 0;
        for (unsigned i = 0; i < 2; ++i)
            if (has[i][k]) {
                mx = std::max(mx, v[i][k]);
                mn = std::min(mn, v[i][k]);
                sum += v[i][k];
                ++c;
            }
        sym_assert(e->max == mx && e->min == mn && e->sum == sum && e->count == c && e->avg() == sum / c, "errors are accumulated");
    }
}

// ---- MARS keys
static Key mkKey(const std::vector<std::pair<const char*, std::string>>& v) {
    Key k;
    for (auto& p : v)
        k.set(p.first, p.second);
    return k;
}
struct TestHandle : eckit::DataHandle {
    std::string d;
    size_t at = 0, chunk;
    TestHandle(const std::string& s, size_t c) : d(s), chunk(c) {}
    eckit::Length openForRead() override { return d.size(); }
    long read(void* p, long n) override {
        size_t k = std::min({(size_t)n, d.size() - at, chunk});
        memcpy(p, d.data() + at, k);
        at += k;
        return k;
    }
    void close() override {}
    void print(std::ostream& s) const override { s << "TestHandle"; }
};
struct TestLocation : FieldLocation {
    std::string data;
    size_t chunk;
    TestLocation(long long len, const std::string& d, size_t c) : FieldLocation(eckit::URI("file", "/x"), 0, len, Key()), data(d), chunk(c) {}
    eckit::DataHandle* dataHandle() const override { return new TestHandle(data, chunk); }
    std::shared_ptr<const FieldLocation> make_shared() const override { return std::make_shared<TestLocation>(length_, data, chunk); }
    void visit(FieldLocationVisitor&) const override {}
    const eckit::ReanimatorBase& reanimator() const override { NOTIMP; }
};
static ListElement element(const Key& k, const std::string& data, long long len = -1, size_t chunk = 1000) {
    Key db, ix, da;
    for (auto& p : k)
        (p.first == "expver" ? db : p.first == "type" ? ix : da).set(p.first, p.second);
    return ListElement(db, ix, da, std::make_shared<TestLocation>(len < 0 ? (long long)data.size() : len, data, chunk), 0);
}
// request1/request2 of the command line: the same, another value, or a keyword of only one of them
static compare::KeyDiffMap someDiff(Key& r1, Key& r2) {
    switch (sym_choice("requests", 4)) {
        case 0:
            r1 = r2 = mkKey({{"expver", "1"}});
            break;
        case 1:
            r1 = mkKey({{"expver", "1"}});
            r2 = mkKey({{"expver", "2"}});
            break;
        case 2:
            r1 = mkKey({{"expver", "1"}, {"step", "1"}});
            r2 = mkKey({{"expver", "1"}, {"step", "2"}});
            break;
        case 3:
            r1 = mkKey({{"expver", "1"}});
            r2 = mkKey({{"expver", "2"}, {"type", "an"}});
            break;
    }
    return compare::requestDiff(r1, r2);
}
static Key mapped(const Key& k, const Key& from, const Key& to) {
    Key r;
    for (auto& p : k) {
        if (to.find(p.first).second)
            r.set(p.first, to.find(p.first).first->second);
        else if (!from.find(p.first).second)
            r.set(p.first, p.second);
    }
    for (auto& p : to)
        if (!from.find(p.first).second || from.find(p.first).first->second != p.second)
            r.set(p.first, p.second);
    return r;
}
SYM_CASE(mars, "any subsets of 3 keys on each side (key values and keyword type present or not), compared as they are or through 4 pairs of requests") {
    Key r1, r2;
    compare::Options o;
    o.marsReqDiff = someDiff(r1, r2);
    compare::DataIndex i[2];
    std::vector<Key> ks[2];
    for (unsigned s = 0; s < 2; ++s)
        for (unsigned k = 0; k < 3; ++k) {
            unsigned what = sym_choice("entry", deep() ? 4 : 3);
            if (!what)
                continue;
            Key key = mkKey({{"expver", s ? r2.get("expver") : r1.get("expver")}, {"step", std::to_string(k)}});
            if (what == 2)
                key.set("type", "an");
            if (what == 3)
                key.set("type", "fc");
            if (i[s].emplace(key, element(key, "")).second)
                ks[s].push_back(key);
        }
    bool ok = ks[0].size() == ks[1].size();
    std::set<std::string> hit;
    for (auto& k : ks[1]) {
        Key t = mapped(k, r2, r1);
        bool found = false;
        for (auto& q : ks[0])
            if (q == t)
                found = true;
        ok = ok && found && hit.insert(t.valuesToString()).second;
    }
    compare::Result r = compare::mars::compareMarsKeys(i[0], i[1], o);
    if (ok)
        sym_reach("match");
    sym_assert(r.match == ok, "the keys match exactly when each has one counterpart on the other side");
}
SYM_CASE(differences, "2 requests of up to 3 keywords with values of 1..2 symbolic characters, each keyword on both sides or one") {
    Key l, r;
    const char* names[] = {"expver", "step", "type"};
    for (auto n : names) {
        unsigned w = sym_choice("where", 4);
        if (w & 1)
            l.set(n, symStr("left", 1, 2, valueChar));
        if (w & 2)
            r.set(n, symStr("right", 1, 2, valueChar));
    }
    auto d = compare::requestDiff(l, r);
    for (auto n : names) {
        auto a = l.find(n), b = r.find(n);
        bool differ = a.second != b.second || (a.second && a.first->second != b.first->second);
        sym_assert((d.count(n) == 1) == differ, "exactly the keywords that differ are listed");
        if (differ)
            sym_assert(d[n].first.has_value() == a.second && d[n].second.has_value() == b.second && (!a.second || *d[n].first == a.first->second) && (!b.second || *d[n].second == b.first->second), "with the value of each side");
    }
    Key x = compare::applyKeyDiff(l, d), y = compare::applyKeyDiff(r, d, true);
    sym_assert(x == r && y == l, "the differences lead from one request to the other and back");
}
static std::vector<ListElement> listed[2];
static unsigned nextFdb;
template <class T>
struct Fixed : APIIteratorBase<T> {
    std::vector<T> v;
    size_t at = 0;
    bool next(T& e) override {
        if (at == v.size())
            return false;
        e = v[at++];
        return true;
    }
};
struct Fake : FDBBase {
    Fake(const Config& c, const std::string& n) : FDBBase(c, n) {}
    void archive(const Key&, const void*, size_t) override { NOTIMP; }
    void flush() override {}
    ListIterator inspect(const metkit::mars::MarsRequest&) override { NOTIMP; }
    ListIterator list(const FDBToolRequest&, int) override {
        auto f = new Fixed<ListElement>();
        f->v = listed[0];
        return ListIterator(APIIterator<ListElement>(f));
    }
    DumpIterator dump(const FDBToolRequest&, bool) override { NOTIMP; }
    StatusIterator status(const FDBToolRequest&) override { NOTIMP; }
    WipeStateIterator wipe(const FDBToolRequest&, bool, bool, bool) override { NOTIMP; }
    PurgeIterator purge(const FDBToolRequest&, bool, bool) override { NOTIMP; }
    StatsIterator stats(const FDBToolRequest&) override { NOTIMP; }
    ControlIterator control(const FDBToolRequest&, ControlAction, ControlIdentifiers) override { NOTIMP; }
    MoveIterator move(const FDBToolRequest&, const eckit::URI&) override { NOTIMP; }
    AxesIterator axesIterator(const FDBToolRequest&, int) override { NOTIMP; }
    void print(std::ostream& s) const override { s << "Fake"; }
};
static FDBBuilder<Fake> fakeBuilder("fake");
SYM_CASE(ignore, "3 fields of 2 keywords, 0..2 pairs to ignore (values of one symbolic character each); a keyword the fields do not have") {
    listed[0].clear();
    std::vector<Key> ks;
    for (unsigned i = 0; i < 3; ++i) {
        Key k = mkKey({{"expver", "1"}, {"type", i ? "an" : symStr("type", 1, 1, valueChar)}, {"step", i == 2 ? symStr("step", 1, 1, valueChar) : std::to_string(i)}});
        ks.push_back(k);
        listed[0].push_back(element(k, ""));
    }
    Key ignore;
    unsigned w = sym_choice("pairs", 8);
    if (w & 1)
        ignore.set("type", sym_choice("known", 2) ? std::string("an") : symStr("ignore", 1, 1, valueChar));
    if (w & 2)
        ignore.set("step", sym_choice("known", 2) ? std::string("1") : symStr("ignore", 1, 1, valueChar));
    if (w & 4)
        ignore.set("param", "1");
    eckit::LocalConfiguration c;
    c.set("type", "fake");
    FDB fdb{Config(c)};
    auto idx = compare::assembleCompareMap(fdb, FDBToolRequest(metkit::mars::MarsRequest{}, true, {}), ignore);
    size_t n = 0;
    for (unsigned i = 0; i < 3; ++i) {
        bool omit = false;
        for (auto& p : ignore) {
            auto f = ks[i].find(p.first);
            if (f.second && f.first->second == p.second)
                omit = true;
        }
        bool again = false;
        for (unsigned j = 0; j < i; ++j)
            if (ks[j] == ks[i])
                again = true;
        sym_assert((idx.count(ks[i]) == 1) == !omit, "messages with any of the pairs are left out, all others kept");
        if (!omit && !again)
            ++n;
    }
    sym_assert(idx.size() == n, "each message once");
    sym_reach("listed");
}

// ---- whole comparison
SYM_CASE(whole, "1..2 fields on each side, messages of 3 structures that differ in the discipline, a key or the data (3 distances), or do not; 3 methods, 2 scopes, 2 tolerances; keys mapped or not; reads of any size, data cut short") {
    compare::Options o;
    o.scope = sym_choice("scope", 2) ? compare::Scope::All : compare::Scope::HeaderOnly;
    unsigned method = sym_choice("method", 3);
    o.method = method == 0 ? compare::Method::KeyByKey : method == 1 ? compare::Method::BitIdentical : compare::Method::Hash;
    o.tolerance = sym_choice("tolerance", 2) ? 2.0 : 0.0;
    if (o.scope == compare::Scope::HeaderOnly)
        compare::grib::appendDataRelevantKeys(o.gribKeysIgnore);
    Key r1 = mkKey({{"expver", "1"}}), r2 = r1;
    if (sym_choice("mapped", 2)) {
        r2 = mkKey({{"expver", "2"}});
        o.marsReqDiff = compare::requestDiff(r1, r2);
    }
    unsigned shape = (unsigned[]){0, 3, 5}[sym_choice("shape", 3)];
    unsigned n = 1 + sym_choice("fields", 2);
    unsigned odd = sym_choice("which", n);
    unsigned difference = sym_choice("difference", 7);
    char key = (char)sym_range<uint8_t>("key", 0, 3), key2 = key;
    compare::DataIndex i[2];
    size_t chunk = 1000;
    for (unsigned k = 0; k < n; ++k)
        for (unsigned s = 0; s < 2; ++s) {
            bool d = s && k == odd;
            std::string s1(6, 'h');
            char disc = 1;
            std::string data = "dd";
            if (k == odd) {
                s1[0] = key;
                if (d && difference == 1) {
                    key2 = (char)sym_range<uint8_t>("key2", 0, 3);
                    s1[0] = key2;
                }
            }
            if (d && difference == 2)
                disc = 2;
            if (d && difference >= 3 && difference <= 5)
                data[1] += difference == 3 ? 1 : difference == 4 ? 2 : 3;
            Message m = shape < 4 ? grib1(s1, shape & 1, "g", shape & 2, "b", data)
                                  : grib2(disc, {{1, s1}, {3, "g"}, {4, "p"}, {5, "r"}, {6, "b"}, {7, data}});
            Key kk = mkKey({{"expver", s ? r2.get("expver") : r1.get("expver")}, {"step", std::to_string(k)}, {"type", "an"}});
            std::string bytes = m.bytes;
            size_t len = bytes.size();
            if (d && difference == 6)
                bytes.resize(len - 3);
            if (d && difference == 0)
                chunk = sym_choice("chunk", 2) ? 7 : 1000;
            i[s].emplace(kk, element(kk, bytes, len, chunk));
        }
    bool header = (difference == 1 && key != key2) || (difference == 2 && shape >= 4);
    bool data = difference >= 3 && difference <= 5;
    double dist = difference == 3 ? 1 : difference == 4 ? 2 : 3;
    bool expect = !header && (!data || (o.scope == compare::Scope::All ? dist <= o.tolerance : o.method == compare::Method::KeyByKey));
    compare::Result r;
    bool failed = throws([&] { r = compare::grib::compareGrib(i[0], i[1], o); });
    sym_assert(failed == (difference == 6), "data that cannot be read is reported");
    if (failed)
        return;
    sym_assert(r.match == expect, "messages match exactly when they are the same, or their values within the tolerance");
    if (data && o.scope == compare::Scope::All)
        sym_assert(r.absoluteError && r.absoluteError->max == (dist <= o.tolerance ? 0 : dist), "the largest error is reported");
    if (r.match)
        sym_reach("match");
}
SYM_CASE(words, "names of scopes and methods: each known one and texts of 1..4 symbolic characters; key lists of up to 4 symbolic characters") {
    switch (sym_choice("what", 3)) {
        case 0: {
            static const char* known[] = {"header-only", "all", "mars"};
            unsigned k = sym_choice("known", 4);
            std::string s = k < 3 ? std::string(known[k]) : symStr("scope", 1, 4, valueChar);
            bool is = s == known[0] || s == known[1] || s == known[2];
            compare::Scope got = compare::Scope::Mars;
            bool failed = throws([&] { got = compare::parseScope(s); });
            sym_assert(failed == !is, "unknown scopes are refused");
            if (!failed)
                sym_assert(got == (s == "all" ? compare::Scope::All : s == "mars" ? compare::Scope::Mars : compare::Scope::HeaderOnly), "scopes by their name");
            break;
        }
        case 1: {
            static const char* known[] = {"bit-identical", "hash-keys", "grib-keys"};
            unsigned k = sym_choice("known", 4);
            std::string s = k < 3 ? std::string(known[k]) : symStr("method", 1, 4, valueChar);
            compare::Method got = compare::Method::Hash;
            bool failed = throws([&] { got = compare::parseMethod(s); });
            sym_assert(failed == (k == 3), "unknown methods are refused");
            if (!failed)
                sym_assert(got == (k == 0 ? compare::Method::BitIdentical : k == 1 ? compare::Method::Hash : compare::Method::KeyByKey), "methods by their name");
            break;
        }
        case 2: {
            std::string s = symStr("keys", 0, 4, [](unsigned char c) { return (c == 'a') | (c == 'b') | (c == ','); });
            auto got = compare::parseKeySet(s);
            std::set<std::string> exp;
            std::string cur;
            for (size_t i = 0; i <= s.size(); ++i)
                if (i == s.size() || s[i] == ',') {
                    if (!cur.empty())
                        exp.insert(cur);
                    cur.clear();
                }
                else
                    cur += s[i];
            got.erase("");
            sym_assert(got.size() == exp.size(), "as many keys as named");
            for (auto& k : exp)
                sym_assert(got.count(k), "each of them");
            break;
        }
    }
}
