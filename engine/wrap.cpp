// Interposed primitives used by native libraries as well (exported from the
// executable): they carry the shadow of copied bytes along.
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include "runtime.h"
using namespace symrt;
typedef unsigned long u64;
extern "C" {
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
    void* r = d;
    if (active && !quiet)
        __sym_memcpy_shadow(d, s, n);
    size_t k = n;
    void* dd = d;
    asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(k)::"memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if (active && !quiet)
        __sym_memcpy_shadow(d, s, n);
    size_t k = n;
    if ((u64)d - (u64)s >= n) {
        void* dd = d;
        asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(k)::"memory");
    }
    else {
        char* dd = (char*)d + n - 1;
        const char* ss = (const char*)s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(k)::"memory");
    }
    return d;
}
void* memset(void* d, int c, size_t n) {
    if (active && !quiet)
        __sym_memclear(d, n);
    size_t k = n;
    void* dd = d;
    asm volatile("rep stosb" : "+D"(dd), "+c"(k) : "a"(c) : "memory");
    return d;
}
}
static void* alloc(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    if (active && !quiet)
        __sym_memclear(p, n);
    return p;
}
static void dealloc(void* p) {
    if (p && active && !quiet)
        __sym_memclear(p, malloc_usable_size(p));
    free(p);
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }

// one hash function for everybody (any function of the contents is a valid hash; this one does not branch on them)
namespace std {
size_t _Hash_bytes(const void*, size_t n, size_t) { return 7 + n; }
}
// ------------------------------------------------------------------ output streams
#include <ostream>
#include <sstream>
namespace {
struct SB : std::stringbuf {
    static char* pp(std::stringbuf* b) { return (b->*(&SB::pptr))(); }
    static char* pb(std::stringbuf* b) { return (b->*(&SB::pbase))(); }
    static char* eg(std::stringbuf* b) { return (b->*(&SB::egptr))(); }
};
struct Quiet {
    Quiet() { ++quiet; }
    ~Quiet() { --quiet; }
};
void put(std::ostream& os, const char* s, long n, E single, bool pad) {
    std::stringbuf* sb = active ? dynamic_cast<std::stringbuf*>(os.rdbuf()) : nullptr;
    long w = pad ? os.width() : 0;
    bool left = (os.flags() & std::ios_base::adjustfield) == std::ios_base::left;
    if (pad)
        os << std::string_view(s, n);  // same as __ostream_insert
    else
        os.write(s, n);
    if (!sb || !os.good() || n <= 0)
        return;
    char* e = SB::pp(sb);
    char* d = e - n;
    if (w > n && left)
        d = e - w;
    if (single)
        setShadow1(d, single);
    else
        __sym_memcpy_shadow(d, s, n);
}
}  // namespace
extern "C" {
std::ostream& symw_oinsert(std::ostream& os, const char* s, long n) {
    if (fromInstr((void*)&symw_oinsert))
        pinArgs(3, 0xf100);
    put(os, s, n, nullptr, true);
    return os;
}
std::ostream& symw_owrite(std::ostream& os, const char* s, long n) {
    if (fromInstr((void*)&symw_owrite))
        pinArgs(3, 0xf110);
    put(os, s, n, nullptr, false);
    return os;
}
std::ostream& symw_ochar(std::ostream& os, char c) {
    E e = fromInstr((void*)&symw_ochar) ? __sym_args[1] : nullptr;
    put(os, &c, 1, e, true);
    return os;
}
std::ostream& symw_oput(std::ostream& os, char c) {
    E e = fromInstr((void*)&symw_oput) ? __sym_args[1] : nullptr;
    put(os, &c, 1, e, false);
    return os;
}
// range of the characters written so far
void symw_sbrange(std::stringbuf* b, char** lo, char** hi) {
    if (fromInstr((void*)&symw_sbrange))
        pinArgs(3, 0xf120);
    char* p = SB::pp(b);
    char* g = SB::eg(b);
    *lo = SB::pb(b);
    *hi = p;
    if (!p)
        *lo = *hi = nullptr;
    else if (g && g > p)
        *hi = g;
}
bool symw_issym(unsigned long v) {
    (void)v;
    E e = fromInstr((void*)&symw_issym) ? __sym_args[0] : nullptr;
    __sym_rets[0] = nullptr;
    return e != nullptr;
}
bool symw_anysym(const void* p, size_t n) {
    if (fromInstr((void*)&symw_anysym))
        pinArgs(2, 0xf130);
    __sym_rets[0] = nullptr;
    return active && anyShadow(p, n);
}
}
extern "C" int symw_memcmp(const void* a, const void* b, size_t n) {
    if (fromInstr((void*)&symw_memcmp))
        pinArgs(3, 0xf140);
    __sym_rets[0] = nullptr;
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i)
        if (x[i] != y[i])
            return (int)x[i] - (int)y[i];
    return 0;
}
static WrapReg w0((void*)&symw_memcmp, "symw_memcmp");
static WrapReg w1((void*)&symw_oinsert, "symw_oinsert"), w2((void*)&symw_owrite, "symw_owrite"), w3((void*)&symw_ochar, "symw_ochar"),
    w4((void*)&symw_oput, "symw_oput"), w5((void*)&symw_sbrange, "symw_sbrange"), w6((void*)&symw_issym, "symw_issym"),
    w7((void*)&symw_anysym, "symw_anysym");

// ------------------------------------------------------------------ threads
// A thread started by the code under test runs to completion where it is started; the thread handed back does nothing.
#include <dlfcn.h>
#include <pthread.h>
static void* nothing(void*) {
    ++quiet;  // shadow memory is only touched by the thread of the path
    return nullptr;
}
// a harness may take a thread over, to run it later
extern "C" __attribute__((weak)) int sym_defer_thread(void* (*fn)(void*), void* arg);
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    typedef int (*PC)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static PC real = (PC)dlsym(RTLD_NEXT, "pthread_create");
    if (!active)
        return real(t, a, fn, arg);
    if (!sym_defer_thread || !sym_defer_thread(fn, arg))
        fn(arg);
    return real(t, a, nothing, nullptr);
}
// runs a thread taken over
extern "C" void sym_run_thread(void* (*fn)(void*), void* arg) {
    fromInstr((void*)&sym_run_thread);
    fn(arg);
}
static WrapReg wt((void*)&sym_run_thread, "sym_run_thread");
