// Not a property: the same program is built instrumented (library functions are replaced by engine/models.cpp) and
// natively (the real ones); both write what they computed, setup.py compares the two texts.
#include "common.h"
#include <fcntl.h>
#include <strings.h>
#include <unistd.h>
#include <cctype>
#include <cstring>
#include <sstream>
#include "eckit/io/Length.h"
#include "eckit/io/Offset.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
#include "eckit/io/ResizableBuffer.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Tokenizer.h"
#include "eckit/utils/Translator.h"
void sym_setup() { harnessInit(); }
static int out = -1;
static void put(const std::string& s) {
    std::string l = s + "\n";
    if (::write(out, l.data(), l.size()) != (ssize_t)l.size())
        sym_fail("write");
}
static std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = ((const unsigned char*)p)[i];
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
static std::string num(long long v) {
    char b[32];
    unsigned i = 32;
    bool neg = v < 0;
    unsigned long long u = neg ? 0ull - (unsigned long long)v : v;
    do {
        b[--i] = '0' + u % 10;
        u /= 10;
    } while (u);
    if (neg)
        b[--i] = '-';
    return std::string(b + i, b + 32);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static const char* texts[] = {"", "a", "A", "ab", "aB", "abc", "0", "7", "-7", "+7", " 7", "7 ", "07", "0x1f", "0x", "7x", "x7", "--1", "-", "+", " ", "\t12", "2147483647", "2147483648", "-2147483648", "-2147483649",
                              "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "a/b", "a//b", "/a", "a/", "/",
                              "a,b/c", "  a b  ", "\xff\x80z", "aa\xff", "1.5", "1e3", "on", "TRUE"};
static const size_t NT = sizeof(texts) / sizeof(*texts);
template <typename T, typename F>
static std::string tr(const F& v) {
    T r{};
    if (throws([&] { r = eckit::Translator<F, T>()(v); }))
        return "throws";
    std::ostringstream s;
    s << r;
    return s.str();
}
SYM_CASE(strings, "concrete texts") {
    out = ::open("selftest.out", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    for (unsigned c = 0; c < 128; ++c)
        put("ct " + num(c) + " " + num(!!isdigit(c)) + num(!!isalpha(c)) + num(!!isalnum(c)) + num(!!isspace(c)) + num(!!isupper(c)) + num(!!islower(c)) + num(!!isxdigit(c)) + " " + num(tolower(c)) + " " + num(toupper(c)));
    for (size_t i = 0; i < NT; ++i) {
        const char* a = texts[i];
        size_t la = strlen(a);
        put("len " + num(la));
        for (int base : {10, 16, 0, 8}) {
            char* e;
            errno = 0;
            long v = strtol(a, &e, base);
            int er = errno;
            errno = 0;
            char* e2;
            unsigned long u = strtoul(a, &e2, base);
            put("strtol " + std::string(a) + " " + num(v) + " " + num(e - a) + " " + num(er) + " " + num((long long)u) + " " + num(e2 - a) + " " + num(errno));
        }
        put("tr " + std::string(a) + " " + tr<int, std::string>(a) + " " + tr<unsigned, std::string>(a) + " " + tr<long, std::string>(a) + " " + tr<unsigned long, std::string>(a) + " " + tr<long long, std::string>(a));
        put("st " + eckit::StringTools::lower(a) + "|" + eckit::StringTools::upper(a) + "|" + eckit::StringTools::trim(a));
        for (const char* sep : {"/", ",/", " "})
            for (bool keep : {false, true}) {
                std::vector<std::string> v;
                eckit::Tokenizer t(sep, keep);
                t(a, v);
                std::string r = "tok";
                for (auto& x : v)
                    r += " <" + x + ">";
                put(r);
            }
        char* ch = strchr((char*)a, 'b');
        void* mc = memchr((void*)a, '/', la);
        put("chr " + num(ch ? ch - a : -1) + " " + num(mc ? (char*)mc - a : -1) + " " + num(strchr((char*)a, 0) - a));
        char buf[12];
        memset(buf, 'z', sizeof buf);
        strncpy(buf, a, 11);
        put("ncpy " + hex(buf, 12));
        for (size_t j = 0; j < NT; ++j) {
            const char* b = texts[j];
            size_t m = std::min(la, strlen(b)) + 1;
            put("cmp " + num(sgn(strcmp(a, b))) + num(sgn(strncmp(a, b, 2))) + num(sgn(memcmp(a, b, m))) + num(!!bcmp(a, b, m)) + " " + num(std::string(a) < std::string(b)) + num(std::string(a).compare(b) == 0));
            const char* ss = strstr(a, b);
            put("strstr " + num(ss ? ss - a : -1));
        }
    }
}
static const long long nums[] = {0, 1, -1, 7, 9, 10, -10, 99, 100, 127, 128, 255, 256, -128, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 999999999999ll, 9223372036854775807ll, -9223372036854775807ll - 1};
SYM_CASE(numbers, "concrete numbers") {
    out = ::open("selftest.out", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    for (long long n : nums) {
        std::ostringstream s;
        s << (int)n << ' ' << (unsigned)n << ' ' << (long)n << ' ' << (unsigned long)n << ' ' << (long long)n << ' ' << (unsigned long long)n << ' ' << (short)n << ' ' << (unsigned short)n << ' ' << (n != 0) << ' ' << (char)('a' + (n & 7))
          << "text" << std::string("str");
        s.put('x');
        s.write("raw", 2);
        put("os " + s.str());
        std::stringstream t;
        t << n << "|" << true;
        put("ss " + t.str());
        put("tr " + eckit::Translator<int, std::string>()((int)n) + " " + eckit::Translator<unsigned, std::string>()((unsigned)n) + " " + eckit::Translator<long, std::string>()((long)n) + " " +
            eckit::Translator<unsigned long, std::string>()((unsigned long)n) + " " + eckit::Translator<long long, std::string>()(n));
    }
}
SYM_CASE(streams, "concrete values") {
    out = ::open("selftest.out", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    for (long long n : nums)
        for (const char* x : {"", "a", "text of some length", "\xff\x80"}) {
            static eckit::Buffer buf(4096);
            memset(buf.data(), 0, 4096);
            size_t len;
            {
                eckit::MemoryStream s(buf);
                s << (char)n << (unsigned char)n << (n != 0) << (int)n << (unsigned)n << (unsigned short)n << (long)n << (unsigned long)n << n << (unsigned long long)n << std::string(x) << x << eckit::Length(n) << eckit::Offset(n);
                s.startObject();
                s << (int)n;
                s.endObject();
                len = s.position();
            }
            put("enc " + hex(buf.data(), len));
            {
                eckit::MemoryStream s(buf.data(), len);
                char c;
                unsigned char uc;
                bool b;
                int i;
                unsigned u;
                unsigned short us;
                long l;
                unsigned long ul;
                long long ll;
                unsigned long long ull;
                std::string s1, s2;
                eckit::Length le;
                eckit::Offset of;
                s >> c >> uc >> b >> i >> u >> us >> l >> ul >> ll >> ull >> s1 >> s2 >> le >> of;
                put("dec " + num(c) + " " + num(uc) + " " + num(b) + " " + num(i) + " " + num(u) + " " + num(us) + " " + num(l) + " " + num((long long)ul) + " " + num(ll) + " " + num((long long)ull) + " " + s1 + " " + s2 + " " +
                    num((long long)le) + " " + num((long long)of));
                bool nx = s.next();
                int k = 0;
                s >> k;
                bool ef = s.endObjectFound();
                put("obj " + num(nx) + " " + num(k) + " " + num(ef));
            }
            {
                // what does not fit, or is of another type, is refused
                std::string r = "err ";
                for (size_t cut : {size_t(0), size_t(1), len / 3, len / 2}) {
                    std::string got;
                    eckit::MemoryStream s(buf.data(), cut);
                    r += num(throws([&] {
                        char c;
                        unsigned char uc;
                        bool b;
                        int i;
                        unsigned u;
                        unsigned short us;
                        long l;
                        s >> c >> uc >> b >> i >> u >> us >> l;
                        got = num(l);
                    })) + got + " ";
                }
                eckit::MemoryStream s(buf.data(), len);
                std::string z;
                int zi;
                r += num(throws([&] { s >> z; }));
                eckit::MemoryStream s2(buf.data(), len);
                r += num(throws([&] { s2 >> zi; }));
                put(r);
            }
        }
}
