#pragma once
#include <cstddef>
#include <cstdint>
#include "ops.h"

struct Expr {
    uint8_t op, bits;
    uint8_t inpc;
    uint8_t lo;  // OP_EXTRACT
    uint32_t id;
    uint64_t c;  // concrete value under the current input
    Expr *x, *y, *z;
    Expr* next;    // hash chain
    void* z3;      // cached translation
    uint64_t* dep; // cached dependency bitset
};
typedef Expr* E;

extern "C" {
extern __thread E __sym_args[64];
extern __thread uint64_t __sym_argvals[64];
extern __thread E __sym_rets[16];
extern __thread void* __sym_callee;

E __sym_bin(uint32_t op, uint32_t bits, E a, uint64_t ca, E b, uint64_t cb);
E __sym_cmp(uint32_t op, uint32_t bits, E a, uint64_t ca, E b, uint64_t cb);
E __sym_cast(uint32_t op, uint32_t from, uint32_t to, E a);
E __sym_ite(E c, uint64_t cc, E t, uint64_t ct, E f, uint64_t cf, uint32_t bits);
E __sym_load(const void* p, uint32_t n, uint32_t bits);
void __sym_store(void* p, uint32_t n, uint32_t bits, E e);
void __sym_branch(E c, uint32_t taken, uint32_t site);
void __sym_pin(E e, uint64_t v, uint32_t site);
void __sym_pinbits(E e, uint32_t site);
void __sym_memclear(void* p, uint64_t n);
void __sym_memcpy_shadow(void* d, const void* s, uint64_t n);
void __sym_memset_shadow(void* d, E e, uint64_t n);
}

namespace symrt {
extern bool active;            // some symbolic data exists on this path
extern thread_local int quiet;
E shadow1(const void* p);      // validated shadow of one byte
void setShadow1(void* p, E e);
bool anyShadow(const void* p, size_t n);
E mkConst(uint64_t v, uint32_t bits);
bool isInstrumented(void* f);
void registerWrapper(void* f, const char* name);
struct WrapReg {
    WrapReg(void* f, const char* n) { registerWrapper(f, n); }
};
// true iff the caller of wrapper `self` is instrumented code (argument shadows are valid); consumes the token
inline bool fromInstr(void* self) {
    if (__sym_callee == self) {
        __sym_callee = nullptr;
        return true;
    }
    return false;
}
void pinRange(const void* p, size_t n, uint32_t site);
// fixes the symbolic ones of the first n arguments of the instrumented caller
void pinArgs(unsigned n, unsigned site);
void pathEvent(const char* kind, const char* text);
[[noreturn]] void endPath(int outcome, const char* msg);
}  // namespace symrt
