#pragma once
// Harness API.  The same harness source is compiled (a) instrumented, for
// symbolic execution, and (b) natively, to replay a concrete counterexample.
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

extern "C" {
void sym_bytes_(void* p, size_t n, const char* name, const void* init);
void sym_assume_(bool c);
void sym_assert_(bool c, const char* msg);
uint64_t sym_concrete_(uint64_t v, uint32_t bits);
void sym_reach(const char* label);
void sym_note(const char* text);
void sym_fail(const char* msg) __attribute__((noreturn));
void sym_end_path() __attribute__((noreturn));
int sym_is_replay();
}

template <typename T>
inline T sym_any(const char* name, T init = T()) {
    T v;
    sym_bytes_(&v, sizeof(T), name, &init);
    return v;
}
inline bool sym_bool(const char* name) {
    uint8_t v;
    uint8_t z = 0;
    sym_bytes_(&v, 1, name, &z);
    sym_assume_(v <= 1);
    return v == 1;
}
// symbolic value in [lo, hi]
template <typename T>
inline T sym_range(const char* name, T lo, T hi) {
    T v;
    sym_bytes_(&v, sizeof(T), name, &lo);
    sym_assume_(v >= lo && v <= hi);
    return v;
}
// concrete choice in [0,n): one path family per value
inline unsigned sym_choice(const char* name, unsigned n) {
    uint8_t v;
    uint8_t z = 0;
    sym_bytes_(&v, 1, name, &z);
    sym_assume_(v < n);
    return (unsigned)sym_concrete_(v, 8);
}
// fixed-length string whose characters are all symbolic, each satisfying pred (called on unsigned char)
template <typename P>
inline std::string sym_string(const char* name, size_t n, P pred, char init = 'a') {
    std::string s(n, init);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c;
        unsigned char d = init;
        sym_bytes_(&c, 1, name, &d);
        sym_assume_(pred(c));
        s[i] = (char)c;
    }
    return s;
}
#define sym_assume(c) sym_assume_(c)
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define sym_assert(c, msg) sym_assert_((c), msg " [" #c "]")

typedef void (*sym_fn)();
struct SymCase {
    SymCase(const char* name, sym_fn fn, const char* bounds);
};
// SYM_CASE(name, "bounds text") { body }
#define SYM_CASE(name, bounds)                             \
    static void symcase_##name();                          \
    static SymCase symcase_reg_##name(#name, symcase_##name, bounds); \
    static void symcase_##name()

// called once before any path is executed (concrete set-up, inherited by fork)
void sym_setup();
