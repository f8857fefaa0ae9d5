// Re-implementations, in instrumented code, of the few library primitives the
// FDB calls on data that is symbolic.  Each one is checked against the native
// library function (selftest.cpp) on every run.
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstring>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "eckit/exception/Exceptions.h"
#include "eckit/io/Length.h"
#include "eckit/io/Offset.h"
#include "eckit/serialisation/Stream.h"
#include "eckit/serialisation/Streamable.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Tokenizer.h"
#include "eckit/utils/Translator.h"

typedef unsigned char uc;
extern "C" {
std::ostream& symw_oinsert(std::ostream& os, const char* s, long n);
void symw_sbrange(std::stringbuf* b, char** lo, char** hi);
bool symw_issym(unsigned long v);
bool symw_anysym(const void* p, size_t n);
int symw_memcmp(const void* a, const void* b, size_t n);

// ---------------------------------------------------------------- C strings
uint64_t sym_concrete_(uint64_t, uint32_t);
int symm_memcmp(const void* a, const void* b, size_t n) {
    // the native shortcut sees concrete addresses and lengths only: fix symbolic ones first
    n = (size_t)sym_concrete_(n, 64);
    a = (const void*)sym_concrete_((uint64_t)a, 64);
    b = (const void*)sym_concrete_((uint64_t)b, 64);
    if (!symw_anysym(a, n) && !symw_anysym(b, n))
        return symw_memcmp(a, b, n);
    const uc *x = (const uc*)a, *y = (const uc*)b;
    int r = 0;
    for (size_t i = n; i-- > 0;) {
        int d = (int)x[i] - (int)y[i];
        int m = -(int)(d != 0);
        r = (d & m) | (r & ~m);
    }
    return r;
}
int symm_bcmp(const void* a, const void* b, size_t n) {
    // the native shortcut sees concrete addresses and lengths only: fix symbolic ones first
    n = (size_t)sym_concrete_(n, 64);
    a = (const void*)sym_concrete_((uint64_t)a, 64);
    b = (const void*)sym_concrete_((uint64_t)b, 64);
    if (!symw_anysym(a, n) && !symw_anysym(b, n))
        return symw_memcmp(a, b, n) != 0;
    const uc *x = (const uc*)a, *y = (const uc*)b;
    unsigned r = 0;
    for (size_t i = 0; i < n; ++i)
        r |= (unsigned)(x[i] ^ y[i]);
    return (int)r;
}
size_t symm_strlen(const char* s) {
    size_t n = 0;
    while (s[n])
        ++n;
    return n;
}
void* symm_memchr(const void* s, int c, size_t n) {
    const uc* p = (const uc*)s;
    for (size_t i = 0; i < n; ++i)
        if (p[i] == (uc)c)
            return (void*)(p + i);
    return nullptr;
}
int symm_strcmp(const char* a, const char* b) {
    while (*a && *a == *b)
        ++a, ++b;
    return (int)(uc)*a - (int)(uc)*b;
}
int symm_strncmp(const char* a, const char* b, size_t n) {
    while (n && *a && *a == *b)
        ++a, ++b, --n;
    return n ? (int)(uc)*a - (int)(uc)*b : 0;
}
char* symm_strchr(const char* a, int c) {
    for (;; ++a) {
        if (*a == (char)c)
            return (char*)a;
        if (!*a)
            return nullptr;
    }
}
char* symm_strncpy(char* d, const char* s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; ++i)
        d[i] = s[i];
    for (; i < n; ++i)
        d[i] = 0;
    return d;
}
char* symm_strstr(const char* h, const char* n) {
    size_t l = symm_strlen(n);
    for (;; ++h) {
        if (symm_strncmp(h, n, l) == 0)
            return (char*)h;
        if (!*h)
            return nullptr;
    }
}
int symm_tolower(int c) { return c + (int)((unsigned)(c - 'A') < 26u) * 32; }
int symm_toupper(int c) { return c - (int)((unsigned)(c - 'a') < 26u) * 32; }
int symm_isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int symm_isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; }
int symm_isalnum(int c) { return (int)((unsigned)((c | 32) - 'a') < 26u) | (int)((unsigned)(c - '0') < 10u); }
int symm_isspace(int c) { return (int)(c == ' ') | (int)((unsigned)(c - 9) < 5u); }
int symm_isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int symm_islower(int c) { return (unsigned)(c - 'a') < 26u; }
int symm_isxdigit(int c) { return (int)((unsigned)((c | 32) - 'a') < 6u) | (int)((unsigned)(c - '0') < 10u); }

static bool isspc(char c) { return c == ' ' || (c >= 9 && c <= 13); }

static unsigned long long parse(const char* s, char** end, int base, bool& neg, bool& overflow, bool& any) {
    const char* p = s;
    while (isspc(*p))
        ++p;
    neg = false;
    if (*p == '-') {
        neg = true;
        ++p;
    }
    else if (*p == '+')
        ++p;
    unsigned long long v = 0;
    overflow = false;
    any = false;
    if (base == 16 && p[0] == '0' && (p[1] | 32) == 'x' && (symm_isxdigit((uc)p[2])))
        p += 2;
    for (;; ++p) {
        unsigned d;
        uc c = *p;
        if (c >= '0' && c <= '9')
            d = c - '0';
        else if (base > 10 && symm_isalpha(c))
            d = (c | 32) - 'a' + 10;
        else
            break;
        if ((int)d >= base)
            break;
        any = true;
        unsigned long long nv;
        if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv))
            overflow = true;
        else
            v = nv;
    }
    if (end)
        *end = (char*)(any ? p : s);
    return v;
}
long symm_strtol(const char* s, char** end, int base) {
    if (base != 10 && base != 16)
        return strtol(s, end, base);
    bool neg, ov, any;
    unsigned long long v = parse(s, end, base, neg, ov, any);
    if (ov || v > (unsigned long long)LONG_MAX + (neg ? 1 : 0)) {
        errno = ERANGE;
        return neg ? LONG_MIN : LONG_MAX;
    }
    return neg ? (long)(0 - v) : (long)v;
}
unsigned long symm_strtoul(const char* s, char** end, int base) {
    if (base != 10 && base != 16)
        return strtoul(s, end, base);
    bool neg, ov, any;
    unsigned long long v = parse(s, end, base, neg, ov, any);
    if (ov) {
        errno = ERANGE;
        return ULONG_MAX;
    }
    return neg ? 0 - v : v;
}
}

// ---------------------------------------------------------------- streams
static int udec(char* b, unsigned long v) {
    char t[24];
    int n = 0;
    do {
        t[n++] = '0' + (char)(v % 10);
        v /= 10;
    } while (v);
    for (int i = 0; i < n; ++i)
        b[i] = t[n - 1 - i];
    return n;
}
static int sdec(char* b, long v) {
    if (v < 0) {
        b[0] = '-';
        return 1 + udec(b + 1, 0 - (unsigned long)v);
    }
    return udec(b, v);
}
static bool plain(std::ostream& os) {
    auto f = os.flags();
    return (f & std::ios_base::basefield) == std::ios_base::dec && !(f & std::ios_base::showpos);
}
static bool plainHex(std::ostream& os) {
    auto f = os.flags();
    return (f & std::ios_base::basefield) == std::ios_base::hex && !(f & (std::ios_base::showbase | std::ios_base::uppercase));
}
static int uhex(char* b, unsigned long v) {
    int n = 1;
    for (unsigned long x = v >> 4; x; x >>= 4)
        ++n;
    for (int i = 0; i < n; ++i) {
        unsigned d = v >> (4 * (n - 1 - i)) & 15;
        b[i] = (char)('0' + d + (d > 9) * ('a' - '0' - 10));
    }
    return n;
}
extern "C" {
std::ostream& symm_olong(std::ostream& os, long v) {
    if (!symw_issym(v) || !plain(os))
        return os << v;
    char b[32];
    return symw_oinsert(os, b, sdec(b, v));
}
std::ostream& symm_oulong(std::ostream& os, unsigned long v) {
    if (symw_issym(v) && plainHex(os)) {
        char b[32];
        return symw_oinsert(os, b, uhex(b, v));
    }
    if (!symw_issym(v) || !plain(os))
        return os << v;
    char b[32];
    return symw_oinsert(os, b, udec(b, v));
}
std::ostream& symm_oint(std::ostream& os, int v) {
    if (!symw_issym(v) || !plain(os))
        return os << v;
    char b[32];
    return symw_oinsert(os, b, sdec(b, v));
}
std::ostream& symm_obool(std::ostream& os, bool v) {
    if (os.flags() & std::ios_base::boolalpha)
        return os << v;
    char b = '0' + (char)v;
    return symw_oinsert(os, &b, 1);
}
std::ostream& symm_ocstr(std::ostream& os, const char* s) {
    if (!s)
        return os << s;
    return symw_oinsert(os, s, symm_strlen(s));
}
static void range(std::stringbuf* b, std::string* out) {
    char *lo, *hi;
    symw_sbrange(b, &lo, &hi);
    if (lo)
        new (out) std::string((const char*)lo, (size_t)(hi - lo));
    else
        new (out) std::string();
}
// sret in the first register, this in the second: same ABI as std::string f() const
struct Raw {
    char b[sizeof(std::string)];
    ~Raw() {}
    Raw() {}
    Raw(const Raw&) {}
};
std::string* symm_osstr(std::string* ret, const std::ostringstream* os) {
    range(os->rdbuf(), ret);
    return ret;
}
std::string* symm_ssstr(std::string* ret, const std::stringstream* os) {
    range(os->rdbuf(), ret);
    return ret;
}

// ---------------------------------------------------------------- eckit::Translator
std::string* symm_t_i2s(std::string* ret, void*, int v) {
    char b[32];
    int n = sdec(b, v);
    return new (ret) std::string(b, n);
}
std::string* symm_t_j2s(std::string* ret, void*, unsigned v) {
    char b[32];
    int n = udec(b, v);
    return new (ret) std::string(b, n);
}
std::string* symm_t_l2s(std::string* ret, void*, long v) {
    char b[32];
    int n = sdec(b, v);
    return new (ret) std::string(b, n);
}
std::string* symm_t_m2s(std::string* ret, void*, unsigned long v) {
    char b[32];
    int n = udec(b, v);
    return new (ret) std::string(b, n);
}
// eckit takes the leading number and ignores the rest; "on", "yes" and "true" are 1 for int and unsigned
static bool word(const std::string& s) {
    return s == "on" || s == "yes" || s == "true";
}
long symm_t_s2l(void*, const std::string& s) { return symm_strtol(s.c_str(), nullptr, 10); }
int symm_t_s2i(void*, const std::string& s) {
    if (word(s))
        return 1;
    return (int)symm_strtol(s.c_str(), nullptr, 10);
}
unsigned symm_t_s2j(void*, const std::string& s) {
    if (word(s))
        return 1;
    return (unsigned)symm_strtoul(s.c_str(), nullptr, 10);
}
unsigned long symm_t_s2m(void*, const std::string& s) { return symm_strtoul(s.c_str(), nullptr, 10); }

// ---------------------------------------------------------------- eckit::StringTools / Tokenizer
std::string* symm_st_lower(std::string* ret, const std::string& s) {
    new (ret) std::string(s);
    for (auto& c : *ret)
        c = (char)symm_tolower((uc)c);
    return ret;
}
std::string* symm_st_upper(std::string* ret, const std::string& s) {
    new (ret) std::string(s);
    for (auto& c : *ret)
        c = (char)symm_toupper((uc)c);
    return ret;
}
std::string* symm_st_trim(std::string* ret, const std::string& s) {
    size_t a = 0, b = s.size();
    auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; };
    while (a < b && sp(s[a]))
        ++a;
    while (b > a && sp(s[b - 1]))
        --b;
    return new (ret) std::string(s.data() + a, b - a);
}
void symm_tokenize(const eckit::Tokenizer* t, const std::string& s, std::vector<std::string>& v) {
    std::string tok;
    for (size_t i = 0; i < s.size(); ++i) {
        bool is = false;
        for (char c : t->separator_)
            if (c == s[i]) {
                is = true;
                break;
            }
        if (is) {
            if (!tok.empty() || t->keepEmpty_)
                v.push_back(tok);
            tok.clear();
        }
        else
            tok += s[i];
    }
    if (!tok.empty() || t->keepEmpty_)
        v.push_back(tok);
}

// ---------------------------------------------------------------- eckit::Stream
typedef eckit::Stream S;
static void putb(S* s, const void* p, long n) {
    long w = s->write(p, n);
    s->writeCount_ += w;
    if (w != n)
        throw eckit::WriteError("stream", Here());
}
static void getb(S* s, void* p, long n) {
    long r = s->read(p, n);
    if (r != n)
        throw eckit::ReadError("stream", Here());
}
static void put32(S* s, unsigned v) {
    uc b[4] = {(uc)(v >> 24), (uc)(v >> 16), (uc)(v >> 8), (uc)v};
    putb(s, b, 4);
}
static void tag(S* s, unsigned char t) { putb(s, &t, 1); }
S* symm_sw_char(S* s, char v) {
    tag(s, S::tag_char);
    putb(s, &v, 1);
    return s;
}
S* symm_sw_uchar(S* s, uc v) {
    tag(s, S::tag_unsigned_char);
    putb(s, &v, 1);
    return s;
}
S* symm_sw_bool(S* s, bool v) {
    tag(s, S::tag_int);
    put32(s, v);
    return s;
}
S* symm_sw_int(S* s, int v) {
    tag(s, S::tag_int);
    put32(s, v);
    return s;
}
S* symm_sw_uint(S* s, unsigned v) {
    tag(s, S::tag_unsigned_int);
    put32(s, v);
    return s;
}
S* symm_sw_ushort(S* s, unsigned short v) {
    tag(s, S::tag_unsigned_short);
    put32(s, v);
    return s;
}
S* symm_sw_long(S* s, long v) {
    tag(s, S::tag_long);
    put32(s, (unsigned)v);
    return s;
}
S* symm_sw_ulong(S* s, unsigned long v) {
    tag(s, S::tag_unsigned_long);
    put32(s, (unsigned)v);
    return s;
}
S* symm_sw_ll(S* s, long long v) {
    tag(s, S::tag_long_long);
    put32(s, (unsigned)((unsigned long long)v >> 32));
    put32(s, (unsigned)v);
    return s;
}
S* symm_sw_ull(S* s, unsigned long long v) {
    tag(s, S::tag_unsigned_long_long);
    put32(s, (unsigned)(v >> 32));
    put32(s, (unsigned)v);
    return s;
}
S* symm_sw_str(S* s, const std::string& v) {
    tag(s, S::tag_string);
    put32(s, (unsigned)v.size());
    putb(s, v.data(), v.size());
    return s;
}
S* symm_sw_cstr(S* s, const char* v) {
    size_t n = symm_strlen(v);
    tag(s, S::tag_string);
    put32(s, (unsigned)n);
    putb(s, v, n);
    return s;
}
S* symm_sw_len(S* s, const eckit::Length& l) { return symm_sw_ll(s, (long long)l); }
S* symm_sw_off(S* s, const eckit::Offset& l) { return symm_sw_ll(s, (long long)l); }

static unsigned nexttag(S* s) {
    if (s->lastTag_ != S::tag_zero) {
        unsigned t = s->lastTag_;
        s->lastTag_ = S::tag_zero;
        return t;
    }
    uc c = 0;
    long n = s->read(&c, 1);
    if (n == 0)
        return S::tag_eof;
    if (n < 0)
        throw eckit::ShortFile("stream", Here());
    return c;
}
static void rtag(S* s, unsigned want) {
    unsigned t;
    do {
        t = nexttag(s);
    } while (t == S::tag_end_obj);
    if (t != want || t == S::tag_exception) {
        if (t == S::tag_exception) {
            s->lastTag_ = (S::tag)t;
            s->readTag((S::tag)want);
        }
        else
            s->badTag((S::tag)want, (S::tag)t);
    }
}
static unsigned get32(S* s) {
    uc b[4] = {0, 0, 0, 0};
    getb(s, b, 4);
    return ((unsigned)b[0] << 24) | ((unsigned)b[1] << 16) | ((unsigned)b[2] << 8) | b[3];
}
S* symm_sr_uchar(S* s, uc& v) {
    rtag(s, S::tag_unsigned_char);
    getb(s, &v, 1);
    return s;
}
S* symm_sr_int(S* s, int& v) {
    rtag(s, S::tag_int);
    v = (int)get32(s);
    return s;
}
S* symm_sr_bool(S* s, bool& v) {
    int x;
    symm_sr_int(s, x);
    v = x != 0;
    return s;
}
S* symm_sr_uint(S* s, unsigned& v) {
    rtag(s, S::tag_unsigned_int);
    v = get32(s);
    return s;
}
S* symm_sr_ushort(S* s, unsigned short& v) {
    rtag(s, S::tag_unsigned_short);
    v = (unsigned short)get32(s);
    return s;
}
S* symm_sr_long(S* s, long& v) {
    rtag(s, S::tag_long);
    v = (long)(int)get32(s);
    return s;
}
S* symm_sr_ulong(S* s, unsigned long& v) {
    rtag(s, S::tag_unsigned_long);
    v = (unsigned long)get32(s);
    return s;
}
bool symm_s_next(S* s) {
    for (;;) {
        unsigned t = nexttag(s);
        if (t == S::tag_start_obj)
            return true;
        if (t == S::tag_eof)
            return false;
        if (t != S::tag_end_obj)
            s->badTag(S::tag_start_obj, (S::tag)t);
    }
}
bool symm_s_eof(S* s) {
    s->lastTag_ = (S::tag)nexttag(s);
    return ((unsigned)s->lastTag_ & ~2u) == 0;
}
void symm_s_start(S* s) { tag(s, S::tag_start_obj); }
void symm_s_end(S* s) { tag(s, S::tag_end_obj); }
static unsigned long long get64(S* s) {
    unsigned long long hi = get32(s);
    return (hi << 32) | get32(s);
}
S* symm_sr_ll(S* s, long long& v) {
    rtag(s, S::tag_long_long);
    v = (long long)get64(s);
    return s;
}
S* symm_sr_ull(S* s, unsigned long long& v) {
    rtag(s, S::tag_unsigned_long_long);
    v = get64(s);
    return s;
}
S* symm_sr_len(S* s, eckit::Length& l) {
    long long v;
    symm_sr_ll(s, v);
    l = v;
    return s;
}
S* symm_sr_off(S* s, eckit::Offset& l) {
    long long v;
    symm_sr_ll(s, v);
    l = v;
    return s;
}
S* symm_sr_str(S* s, std::string& v) {
    rtag(s, S::tag_string);
    unsigned n = get32(s);
    v.assign((size_t)n, '\0');
    getb(s, &v[0], n);
    return s;
}
}

// ---------------------------------------------------------------- members of eckit classes that copy bytes inline
// (same behaviour as the library's; defined here so that the copied bytes keep their symbolic value)
#include "eckit/io/Buffer.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/maths/Functions.h"
#include "eckit/serialisation/MemoryStream.h"
#include "eckit/serialisation/ResizableMemoryStream.h"
namespace eckit {
long MemoryStream::write(const void* p, long n) {
    size_t left = size_ - position_;
    size_t k = left < (size_t)n ? left : (size_t)n;
    memcpy(address_ + position_, p, k);
    position_ += k;
    return (long)k;
}
long MemoryStream::read(void* p, long n) {
    size_t left = size_ - position_;
    size_t k = left < (size_t)n ? left : (size_t)n;
    memcpy(p, address_ + position_, k);
    position_ += k;
    return (long)k;
}
long ResizableMemoryStream::write(const void* p, long n) {
    if (buffer_.size() - position_ < (size_t)n)
        buffer_.resize(eckit::round((position_ + n) * 2, 64), true);
    size_t left = buffer_.size() - position_;
    size_t k = left < (size_t)n ? left : (size_t)n;
    memcpy((char*)buffer_.data() + position_, p, k);
    position_ += k;
    return (long)k;
}
long ResizableMemoryStream::read(void* p, long n) {
    size_t left = buffer_.size() - position_;
    size_t k = left < (size_t)n ? left : (size_t)n;
    memcpy(p, (char*)buffer_.data() + position_, k);
    position_ += k;
    return (long)k;
}
Buffer::Buffer(const void* src, size_t n) : buffer_(nullptr), size_(n) {
    create();
    copy(src, n);
}
Buffer::Buffer(const std::string& s) : buffer_(nullptr), size_(s.size() + 1) {
    create();
    symm_strncpy(buffer_, s.c_str(), s.size() + 1);
}
void Buffer::copy(const void* src, size_t n, size_t pos) {
    ASSERT(buffer_);
    ASSERT(size_ >= pos + n);
    if (n)
        memcpy(buffer_ + pos, src, n);
}
void Buffer::resize(size_t n, bool preserve) {
    if (size_ == n)
        return;
    if (preserve) {
        char* nb = n ? new char[n] : nullptr;
        memcpy(nb, buffer_, size_ < n ? size_ : n);
        size_ = n;
        delete[] buffer_;
        buffer_ = nb;
    }
    else {
        delete[] buffer_;
        buffer_ = nullptr;
        size_ = n;
        buffer_ = n ? new char[n] : nullptr;
    }
}
long MemoryHandle::read(void* p, long n) {
    ASSERT(opened_);
    ASSERT(read_);
    ASSERT(n >= 0);
    size_t left = size_ - (size_t)(long long)position_;
    size_t k = left < (size_t)n ? left : (size_t)n;
    memcpy(p, address_ + (size_t)(long long)position_, k);
    position_ += k;
    return (long)k;
}
long MemoryHandle::write(const void* p, long n) {
    ASSERT(opened_);
    ASSERT(!read_);
    ASSERT(n >= 0);
    size_t pos = (size_t)(long long)position_;
    if (grow_ && size_ - pos < (size_t)n) {
        if (capacity_ - pos < (size_t)n) {
            size_t nc = eckit::round(capacity_ + n, 1024 * 1024);
            char* a = new char[nc];
            memcpy(a, address_, pos);
            delete[] address_;
            address_ = a;
            capacity_ = nc;
        }
        size_ += n;
    }
    size_t left = size_ - pos;
    size_t k = left < (size_t)n ? left : (size_t)n;
    memcpy(address_ + pos, p, k);
    position_ += k;
    return (long)k;
}
}  // namespace eckit
