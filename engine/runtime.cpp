// Runtime of the instrumented build: symbolic expressions, shadow memory, path
// conditions, and the exhaustive exploration driver (Z3 decides every branch).
#include "runtime.h"
#include "symapi.h"

#include <sys/uio.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
__thread E __sym_args[64] __attribute__((tls_model("initial-exec")));
__thread uint64_t __sym_argvals[64] __attribute__((tls_model("initial-exec")));
__thread E __sym_rets[16] __attribute__((tls_model("initial-exec")));
__thread void* __sym_callee __attribute__((tls_model("initial-exec")));
extern void* __start_symfuncs[] __attribute__((weak));
extern void* __stop_symfuncs[] __attribute__((weak));
}

typedef uint64_t u64;
typedef uint32_t u32;

namespace symrt {

bool active = false;
static bool recording = false;
thread_local int quiet = 0;

// ------------------------------------------------------------------ input
struct Var {
    std::string name;
};
static std::vector<uint8_t> input;   // prescribed input of this path
static std::vector<uint8_t> cur;     // value of every variable created so far
static std::vector<std::string> varNames;
static std::vector<E> varE;

// ------------------------------------------------------------------ stats
struct Stats {
    u64 branches = 0, pins = 0, pinlimit = 0, stale = 0, mismatch = 0, diverged = 0, queries = 0, sat = 0, unsat = 0, unknown = 0,
        asserts = 0, assertq = 0, assertunsat = 0, exprs = 0, nativecalls = 0, solver_us = 0, vars = 0, addrpins = 0;
} st;

// ------------------------------------------------------------------ expressions
static inline u64 mask(u32 b) {
    return b >= 64 ? ~0ull : ((1ull << b) - 1);
}
static inline int64_t sx(u64 v, u32 b) {
    return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b);
}

// arena: own bump allocator (mmap) so that the harness heap layout is independent of symbolic state
static char* arenaP = nullptr;
static char* arenaE = nullptr;
static void* aalloc(size_t n) {
    n = (n + 15) & ~15ull;
    if (arenaP + n > arenaE) {
        size_t sz = 16 << 20;
        arenaP = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arenaE = arenaP + sz;
    }
    void* r = arenaP;
    arenaP += n;
    return r;
}

static const u32 HB = 18;
static E* htab = nullptr;
static u32 nextId = 1;

static E mk(u32 op, u32 bits, u64 c, E x = nullptr, E y = nullptr, E z = nullptr, u32 lo = 0) {
    if (!htab)
        htab = (E*)mmap(nullptr, sizeof(E) << HB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    c &= mask(bits);
    u64 h = op * 0x9E3779B97F4A7C15ull + bits * 0x85ebca6b + lo * 77777;
    h ^= (u64)(x ? x->id : 0) * 0xff51afd7ed558ccdull;
    h = (h << 13) | (h >> 51);
    h ^= (u64)(y ? y->id : 0) * 0xc4ceb9fe1a85ec53ull;
    h = (h << 17) | (h >> 47);
    h ^= (u64)(z ? z->id : 0) * 0x2545F4914F6CDD1Dull;
    if (op == OP_CONST || op == OP_VAR)
        h ^= c * 0xd6e8feb86659fd93ull;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    E* slot = &htab[h & ((1u << HB) - 1)];
    for (E e = *slot; e; e = e->next)
        if (e->op == op && e->bits == bits && e->lo == lo && e->x == x && e->y == y && e->z == z && (op != OP_CONST || e->c == c))
            if (op != OP_VAR)
                return e;
    E e = (E)aalloc(sizeof(Expr));
    memset((void*)e, 0, sizeof *e);
    e->op = op;
    e->bits = bits;
    e->lo = lo;
    e->c = c;
    e->x = x;
    e->y = y;
    e->z = z;
    e->id = nextId++;
    e->next = *slot;
    *slot = e;
    st.exprs++;
    return e;
}

E mkConst(u64 v, u32 bits) {
    return mk(OP_CONST, bits, v & mask(bits));
}
static inline bool isC(E e) {
    return e->op == OP_CONST;
}
static inline bool isC(E e, u64 v) {
    return e->op == OP_CONST && e->c == v;
}

static E mkNot(E a);
static E mkBin(u32 op, E a, E b);
static E mkCmp(u32 op, E a, E b);
static E mkExtract(E a, u32 lo, u32 bits);
static E mkConcat(E hi, E lo);
static E mkIte(E c, E t, E f);

static E mkNot(E a) {
    if (isC(a))
        return mkConst(!a->c, 1);
    if (a->op == OP_NOT)
        return a->x;
    switch (a->op) {
        case OP_ULT: return mkCmp(OP_ULE, a->y, a->x);
        case OP_ULE: return mkCmp(OP_ULT, a->y, a->x);
        case OP_SLT: return mkCmp(OP_SLE, a->y, a->x);
        case OP_SLE: return mkCmp(OP_SLT, a->y, a->x);
    }
    return mk(OP_NOT, 1, !a->c, a);
}

static E mkZext(E a, u32 bits) {
    if (a->bits == bits)
        return a;
    if (isC(a))
        return mkConst(a->c, bits);
    if (a->op == OP_ZEXT)
        return mk(OP_ZEXT, bits, a->c, a->x);
    return mk(OP_ZEXT, bits, a->c, a);
}
static E mkSext(E a, u32 bits) {
    if (a->bits == bits)
        return a;
    if (isC(a))
        return mkConst((u64)sx(a->c, a->bits), bits);
    if (a->op == OP_ZEXT)
        return mkZext(a->x, bits);
    if (a->op == OP_SEXT)
        return mk(OP_SEXT, bits, (u64)sx(a->c, a->bits), a->x);
    return mk(OP_SEXT, bits, (u64)sx(a->c, a->bits), a);
}

static E mkExtract(E a, u32 lo, u32 bits) {
    if (lo == 0 && bits == a->bits)
        return a;
    if (isC(a))
        return mkConst(a->c >> lo, bits);
    if (a->op == OP_EXTRACT)
        return mkExtract(a->x, a->lo + lo, bits);
    if (a->op == OP_ZEXT) {
        u32 w = a->x->bits;
        if (lo >= w)
            return mkConst(0, bits);
        if (lo + bits <= w)
            return mkExtract(a->x, lo, bits);
        return mkZext(mkExtract(a->x, lo, w - lo), bits);
    }
    if (a->op == OP_SEXT && lo + bits <= a->x->bits)
        return mkExtract(a->x, lo, bits);
    if (a->op == OP_SEXT && lo == 0 && bits > a->x->bits)
        return mkSext(a->x, bits);
    if (a->op == OP_CONCAT) {
        u32 lw = a->y->bits;
        if (lo + bits <= lw)
            return mkExtract(a->y, lo, bits);
        if (lo >= lw)
            return mkExtract(a->x, lo - lw, bits);
        return mkConcat(mkExtract(a->x, 0, lo + bits - lw), mkExtract(a->y, lo, lw - lo));
    }
    if (a->op == OP_ITE && isC(a->y) && isC(a->z))
        return mkIte(a->x, mkConst(a->y->c >> lo, bits), mkConst(a->z->c >> lo, bits));
    if ((a->op == OP_AND || a->op == OP_OR || a->op == OP_XOR) && (isC(a->y) || a->x->op == OP_CONCAT || a->y->op == OP_CONCAT || a->x->op == OP_ZEXT || a->y->op == OP_ZEXT))
        return mkBin(a->op, mkExtract(a->x, lo, bits), mkExtract(a->y, lo, bits));
    if ((a->op == OP_ADD || a->op == OP_SUB || a->op == OP_MUL) && lo == 0 && bits < a->bits)
        return mkBin(a->op, mkExtract(a->x, 0, bits), mkExtract(a->y, 0, bits));
    if (a->op == OP_SHL && isC(a->y) && a->y->c < a->bits) {
        u32 s = a->y->c;
        if (lo >= s)
            return mkExtract(a->x, lo - s, bits);
        if (lo + bits <= s)
            return mkConst(0, bits);
    }
    if (a->op == OP_LSHR && isC(a->y) && lo + bits + a->y->c <= a->bits)
        return mkExtract(a->x, lo + a->y->c, bits);
    return mk(OP_EXTRACT, bits, a->c >> lo, a, nullptr, nullptr, lo);
}

// number of low bits known to be zero
static u32 tz(E e, int depth = 0) {
    if (isC(e))
        return e->c ? std::min<u32>(__builtin_ctzll(e->c), e->bits) : e->bits;
    if (depth > 12)
        return 0;
    switch (e->op) {
        case OP_ADD:
        case OP_SUB:
        case OP_OR:
        case OP_XOR: return std::min(tz(e->x, depth + 1), tz(e->y, depth + 1));
        case OP_AND: return std::max(tz(e->x, depth + 1), tz(e->y, depth + 1));
        case OP_ZEXT: {
            u32 t = tz(e->x, depth + 1);
            return t == e->x->bits ? e->bits : t;
        }
        case OP_CONCAT: {
            u32 t = tz(e->y, depth + 1);
            return t == e->y->bits ? t + tz(e->x, depth + 1) : t;
        }
        case OP_SHL: return isC(e->y) ? std::min<u64>(e->bits, tz(e->x, depth + 1) + e->y->c) : 0;
        case OP_ITE: return std::min(tz(e->y, depth + 1), tz(e->z, depth + 1));
    }
    return 0;
}
static E mkConcat(E hi, E lo) {
    u32 bits = hi->bits + lo->bits;
    if (bits > 64)
        abort();
    if (isC(hi) && isC(lo))
        return mkConst((hi->c << lo->bits) | lo->c, bits);
    if (isC(hi, 0))
        return mkZext(lo, bits);
    if (hi->op == OP_EXTRACT && hi->lo == lo->bits && ((isC(lo, 0) && tz(hi->x) >= lo->bits) || mkExtract(hi->x, 0, lo->bits) == lo))
        return mkExtract(hi->x, 0, bits);
    if (hi->op == OP_CONCAT && hi->y->op == OP_EXTRACT && hi->y->lo == lo->bits && mkExtract(hi->y->x, 0, lo->bits) == lo)
        return mkConcat(hi->x, mkExtract(hi->y->x, 0, hi->y->bits + lo->bits));
    if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->x == lo->x && hi->lo == lo->lo + lo->bits)
        return mkExtract(hi->x, lo->lo, bits);
    // concat(extract(x,hi), x') where x' is the whole low part
    if (hi->op == OP_EXTRACT && hi->x->op != OP_CONCAT && lo->op == OP_EXTRACT && lo->x == hi->x && lo->lo + lo->bits == hi->lo)
        return mkExtract(hi->x, lo->lo, bits);
    // re-associate: concat(concat(a,b), c) with b,c adjacent
    if (hi->op == OP_CONCAT && hi->y->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->y->x == lo->x && hi->y->lo == lo->lo + lo->bits)
        return mkConcat(hi->x, mkExtract(lo->x, lo->lo, hi->y->bits + lo->bits));
    if (isC(hi) && lo->op == OP_CONCAT && isC(lo->x))
        return mkConcat(mkConst((hi->c << lo->x->bits) | lo->x->c, hi->bits + lo->x->bits), lo->y);
    return mk(OP_CONCAT, bits, (hi->c << lo->bits) | lo->c, hi, lo);
}

static u64 evalBin(u32 op, u64 a, u64 b, u32 n) {
    switch (op) {
        case OP_ADD: return a + b;
        case OP_SUB: return a - b;
        case OP_MUL: return a * b;
        case OP_UDIV: return b ? a / b : mask(n);
        case OP_UREM: return b ? a % b : a;
        case OP_SDIV: {
            int64_t x = sx(a, n), y = sx(b, n);
            if (!y)
                return x < 0 ? 1 : mask(n);
            if (y == -1)
                return (u64)0 - (u64)x;
            return x / y;
        }
        case OP_SREM: {
            int64_t x = sx(a, n), y = sx(b, n);
            if (!y)
                return x;
            if (y == -1)
                return 0;
            return x % y;
        }
        case OP_SHL: return b >= n ? 0 : a << b;
        case OP_LSHR: return b >= n ? 0 : a >> b;
        case OP_ASHR: return b >= n ? (sx(a, n) < 0 ? mask(n) : 0) : (u64)(sx(a, n) >> b);
        case OP_AND: return a & b;
        case OP_OR: return a | b;
        case OP_XOR: return a ^ b;
    }
    return 0;
}
static u64 evalCmp(u32 op, u64 a, u64 b, u32 n) {
    switch (op) {
        case OP_EQ: return a == b;
        case OP_NE: return a != b;
        case OP_ULT: return a < b;
        case OP_ULE: return a <= b;
        case OP_UGT: return a > b;
        case OP_UGE: return a >= b;
        case OP_SLT: return sx(a, n) < sx(b, n);
        case OP_SLE: return sx(a, n) <= sx(b, n);
        case OP_SGT: return sx(a, n) > sx(b, n);
        case OP_SGE: return sx(a, n) >= sx(b, n);
        case OP_UADDO: return ((a + b) & mask(n)) < a;
        case OP_USUBO: return a < b;
        case OP_SADDO: {
            __int128 r = (__int128)sx(a, n) + sx(b, n);
            return r != sx((u64)r & mask(n), n);
        }
        case OP_SSUBO: {
            __int128 r = (__int128)sx(a, n) - sx(b, n);
            return r != sx((u64)r & mask(n), n);
        }
        case OP_UMULO: {
            unsigned __int128 r = (unsigned __int128)a * b;
            return (r >> n) != 0;
        }
        case OP_SMULO: {
            __int128 r = (__int128)sx(a, n) * sx(b, n);
            return r != sx((u64)r & mask(n), n);
        }
    }
    return 0;
}

// sums are kept in a canonical order so that equal sums are the same expression
struct Lin {
    E t[16];
    int k[16];
    int n = 0;
    u64 c = 0;
    bool ok = true;
};
static void lin(E e, int sgn, Lin& l, int depth) {
    if (!l.ok)
        return;
    if (isC(e)) {
        l.c += sgn > 0 ? e->c : (u64)0 - e->c;
        return;
    }
    if (depth < 16 && (e->op == OP_ADD || e->op == OP_SUB)) {
        lin(e->x, sgn, l, depth + 1);
        lin(e->y, e->op == OP_ADD ? sgn : -sgn, l, depth + 1);
        return;
    }
    for (int i = 0; i < l.n; ++i)
        if (l.t[i] == e) {
            l.k[i] += sgn;
            return;
        }
    if (l.n == 16) {
        l.ok = false;
        return;
    }
    l.t[l.n] = e;
    l.k[l.n++] = sgn;
}
static E mkLin(u32 op, E a, E b) {
    u32 n = a->bits;
    Lin l;
    lin(a, 1, l, 0);
    lin(b, op == OP_ADD ? 1 : -1, l, 0);
    if (!l.ok)
        return nullptr;
    for (int i = 0; i < l.n; ++i)
        if (l.k[i] < -1 || l.k[i] > 1)
            return nullptr;
    for (int i = 1; i < l.n; ++i)
        for (int j = i; j > 0 && l.t[j]->id < l.t[j - 1]->id; --j) {
            std::swap(l.t[j], l.t[j - 1]);
            std::swap(l.k[j], l.k[j - 1]);
        }
    E r = nullptr;
    for (int i = 0; i < l.n; ++i)
        if (l.k[i] > 0)
            r = r ? mk(OP_ADD, n, (r->c + l.t[i]->c) & mask(n), r, l.t[i]) : l.t[i];
    bool neg = false;
    if (!r) {
        for (int i = 0; i < l.n; ++i)
            neg |= l.k[i] < 0;
        r = mkConst(l.c, n);
        if (!neg)
            return r;
        l.c = 0;
    }
    for (int i = 0; i < l.n; ++i)
        if (l.k[i] < 0)
            r = mk(OP_SUB, n, (r->c - l.t[i]->c) & mask(n), r, l.t[i]);
    if (l.c & mask(n))
        r = mk(OP_ADD, n, (r->c + l.c) & mask(n), r, mkConst(l.c, n));
    return r;
}
static E mkBin(u32 op, E a, E b) {
    u32 n = a->bits;
    u64 c = evalBin(op, a->c, b->c, n) & mask(n);
    if (isC(a) && isC(b))
        return mkConst(c, n);
    bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
    if (comm && isC(a))
        std::swap(a, b);
    switch (op) {
        case OP_ADD:
            if (isC(b, 0))
                return a;
            if (n >= 16 && (a->op == OP_ADD || a->op == OP_SUB || b->op == OP_ADD || b->op == OP_SUB || a->id > b->id))
                if (E r = mkLin(op, a, b))
                    return r;
            if (isC(b) && a->op == OP_ADD && isC(a->y))
                return mkBin(OP_ADD, a->x, mkConst(a->y->c + b->c, n));
            break;
        case OP_SUB:
            if (isC(b, 0))
                return a;
            if (a == b)
                return mkConst(0, n);
            if (isC(b))
                return mkBin(OP_ADD, a, mkConst(0 - b->c, n));
            if (n >= 16 && (a->op == OP_ADD || a->op == OP_SUB || b->op == OP_ADD || b->op == OP_SUB))
                if (E r = mkLin(op, a, b))
                    return r;
            if (a->op == OP_ADD && a->x == b)
                return a->y;
            if (a->op == OP_ADD && a->y == b)
                return a->x;
            if (a->op == OP_ADD && b->op == OP_ADD && a->x == b->x)
                return mkBin(OP_SUB, a->y, b->y);
            break;
        case OP_MUL:
            if (isC(b, 0))
                return b;
            if (isC(b, 1))
                return a;
            if (isC(b) && (b->c & (b->c - 1)) == 0)
                return mkBin(OP_SHL, a, mkConst(__builtin_ctzll(b->c), n));
            break;
        case OP_UDIV:
            if (isC(b, 1))
                return a;
            if (isC(b) && b->c && (b->c & (b->c - 1)) == 0)
                return mkBin(OP_LSHR, a, mkConst(__builtin_ctzll(b->c), n));
            break;
        case OP_SDIV:
            if (isC(b, 1))
                return a;
            break;
        case OP_UREM:
            if (isC(b) && b->c && (b->c & (b->c - 1)) == 0)
                return mkBin(OP_AND, a, mkConst(b->c - 1, n));
            break;
        case OP_SHL:
        case OP_LSHR:
        case OP_ASHR:
            if (isC(b, 0))
                return a;
            if (isC(b) && op != OP_ASHR && b->c >= n)
                return mkConst(0, n);
            if (isC(b) && op == OP_LSHR) {
                // zext(extract) form exposes bytes
                E hi = mkExtract(a, b->c, n - b->c);
                return mkZext(hi, n);
            }
            if (isC(b) && op == OP_SHL && n <= 64 && b->c < n) {
                E lo = mkExtract(a, 0, n - b->c);
                return mkConcat(lo, mkConst(0, b->c));
            }
            break;
        case OP_AND: {
            if (isC(b, 0))
                return b;
            if (isC(b, mask(n)) || a == b)
                return a;
            if (isC(b)) {
                u64 m = b->c;
                if ((m & (m + 1)) == 0) {  // low mask
                    u32 w = 64 - __builtin_clzll(m);
                    return mkZext(mkExtract(a, 0, w), n);
                }
                // byte-wise masks on concats
                if (a->op == OP_CONCAT) {
                    u32 lw = a->y->bits;
                    return mkConcat(mkBin(OP_AND, a->x, mkConst(m >> lw, a->x->bits)), mkBin(OP_AND, a->y, mkConst(m, lw)));
                }
                if (a->op == OP_ZEXT) {
                    u32 lw = a->x->bits;
                    return mkZext(mkBin(OP_AND, a->x, mkConst(m, lw)), n);
                }
                // contiguous mask shifted
                u32 tz = __builtin_ctzll(m);
                u64 k = m >> tz;
                if ((k & (k + 1)) == 0 && tz) {
                    u32 w = 64 - __builtin_clzll(k);
                    E mid = mkExtract(a, tz, w);
                    E r = mkConcat(mid, mkConst(0, tz));
                    return mkZext(r, n);
                }
            }
            if (n == 1) {
                if (isC(b, 1))
                    return a;
            }
            break;
        }
        case OP_OR:
            if (isC(b, 0) || a == b)
                return a;
            if (isC(b, mask(n)))
                return b;
            {
                // or of disjoint concats: merge  (hi:0) | zext(lo)
                for (int k = 0; k < 2; ++k) {
                    E p = k ? b : a, q = k ? a : b;
                    if (p->op == OP_CONCAT && isC(p->y, 0) && q->op == OP_ZEXT && q->x->bits <= p->y->bits) {
                        return mkConcat(p->x, mkZext(q->x, p->y->bits));
                    }
                    if (p->op == OP_ZEXT && p->x->op == OP_CONCAT && isC(p->x->y, 0)) {
                        E pp = p->x;
                        if (q->op == OP_ZEXT && q->x->bits <= pp->y->bits)
                            return mkZext(mkConcat(pp->x, mkZext(q->x, pp->y->bits)), n);
                        if (q->op == OP_CONCAT && isC(q->y, 0) && q->y->bits >= pp->bits)
                            return mkConcat(q->x, mkZext(pp, q->y->bits));
                    }
                    if (p->op == OP_CONCAT && isC(p->y, 0) && q->op == OP_CONCAT && isC(q->x, 0) && q->y->bits == p->y->bits)
                        return mkConcat(p->x, q->y);
                }
            }
            break;
        case OP_XOR:
            if (isC(b, 0))
                return a;
            if (a == b)
                return mkConst(0, n);
            if (n == 1 && isC(b, 1))
                return mkNot(a);
            if (isC(b, mask(n)) && a->op == OP_XOR && isC(a->y, mask(n)))
                return a->x;
            break;
    }
    if (n == 1) {
        if (op == OP_ADD || op == OP_SUB)
            op = OP_XOR;
        if (op == OP_MUL)
            op = OP_AND;
    }
    if (comm && !isC(b) && a->id > b->id)
        std::swap(a, b);
    // push through ite with constants
    if (isC(b) && a->op == OP_ITE && isC(a->y) && isC(a->z))
        return mkIte(a->x, mkConst(evalBin(op, a->y->c, b->c, n), n), mkConst(evalBin(op, a->z->c, b->c, n), n));
    return mk(op, n, c, a, b);
}

static E mkCmp(u32 op, E a, E b) {
    u32 n = a->bits;
    u64 c = evalCmp(op, a->c, b->c, n);
    if (isC(a) && isC(b))
        return mkConst(c, 1);
    switch (op) {
        case OP_NE: return mkNot(mkCmp(OP_EQ, a, b));
        case OP_UGT: return mkCmp(OP_ULT, b, a);
        case OP_UGE: return mkCmp(OP_ULE, b, a);
        case OP_SGT: return mkCmp(OP_SLT, b, a);
        case OP_SGE: return mkCmp(OP_SLE, b, a);
        case OP_EQ:
            if (a == b)
                return mkConst(1, 1);
            if (isC(a))
                std::swap(a, b);
            if (n == 1) {
                if (isC(b))
                    return b->c ? a : mkNot(a);
            }
            if (isC(b)) {
                if (a->op == OP_ZEXT) {
                    if (b->c > mask(a->x->bits))
                        return mkConst(0, 1);
                    return mkCmp(OP_EQ, a->x, mkConst(b->c, a->x->bits));
                }
                if (a->op == OP_SEXT) {
                    u64 t = b->c & mask(a->x->bits);
                    if (((u64)sx(t, a->x->bits) & mask(n)) != b->c)
                        return mkConst(0, 1);
                    return mkCmp(OP_EQ, a->x, mkConst(t, a->x->bits));
                }
                if (a->op == OP_ADD && isC(a->y))
                    return mkCmp(OP_EQ, a->x, mkConst(b->c - a->y->c, n));
                if (a->op == OP_XOR && isC(a->y))
                    return mkCmp(OP_EQ, a->x, mkConst(b->c ^ a->y->c, n));
                if (a->op == OP_SUB && isC(b, 0))
                    return mkCmp(OP_EQ, a->x, a->y);
                if (a->op == OP_XOR && isC(b, 0))
                    return mkCmp(OP_EQ, a->x, a->y);
                if (a->op == OP_ITE) {
                    if (isC(a->y) && isC(a->z)) {
                        bool t = a->y->c == b->c, f = a->z->c == b->c;
                        if (t && f)
                            return mkConst(1, 1);
                        if (t)
                            return a->x;
                        if (f)
                            return mkNot(a->x);
                        return mkConst(0, 1);
                    }
                    if (isC(a->y))
                        return a->y->c == b->c ? mkBin(OP_OR, a->x, mkCmp(OP_EQ, a->z, b))
                                               : mkBin(OP_AND, mkNot(a->x), mkCmp(OP_EQ, a->z, b));
                    if (isC(a->z))
                        return a->z->c == b->c ? mkBin(OP_OR, mkNot(a->x), mkCmp(OP_EQ, a->y, b))
                                               : mkBin(OP_AND, a->x, mkCmp(OP_EQ, a->y, b));
                }
                if (a->op == OP_CONCAT)
                    return mkBin(OP_AND, mkCmp(OP_EQ, a->x, mkConst(b->c >> a->y->bits, a->x->bits)), mkCmp(OP_EQ, a->y, mkConst(b->c, a->y->bits)));
            }
            if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->x->bits == b->x->bits)
                return mkCmp(OP_EQ, a->x, b->x);
            if (!isC(b) && a->id > b->id)
                std::swap(a, b);
            break;
        case OP_ULT:
            if (a == b)
                return mkConst(0, 1);
            if (isC(b, 0))
                return mkConst(0, 1);
            if (isC(b, 1))
                return mkCmp(OP_EQ, a, mkConst(0, n));
            if (isC(b) && a->op == OP_ZEXT) {
                if (b->c > mask(a->x->bits))
                    return mkConst(1, 1);
                return mkCmp(OP_ULT, a->x, mkConst(b->c, a->x->bits));
            }
            if (isC(a) && b->op == OP_ZEXT) {
                if (a->c >= mask(b->x->bits))
                    return mkConst(0, 1);
                return mkCmp(OP_ULT, mkConst(a->c, b->x->bits), b->x);
            }
            if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->x->bits == b->x->bits)
                return mkCmp(OP_ULT, a->x, b->x);
            break;
        case OP_ULE:
            if (a == b)
                return mkConst(1, 1);
            if (isC(b, mask(n)) || isC(a, 0))
                return mkConst(1, 1);
            if (isC(b))
                return mkCmp(OP_ULT, a, mkConst(b->c + 1, n));
            if (isC(a) && b->op == OP_ZEXT) {
                if (a->c > mask(b->x->bits))
                    return mkConst(0, 1);
                return mkCmp(OP_ULE, mkConst(a->c, b->x->bits), b->x);
            }
            if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->x->bits == b->x->bits)
                return mkCmp(OP_ULE, a->x, b->x);
            break;
        case OP_SLT:
        case OP_SLE:
            if (a == b)
                return mkConst(op == OP_SLE, 1);
            // zext operands are non-negative
            {
                bool na = (a->op == OP_ZEXT) || (isC(a) && !(a->c >> (n - 1)));
                bool nb = (b->op == OP_ZEXT) || (isC(b) && !(b->c >> (n - 1)));
                if (na && nb)
                    return mkCmp(op == OP_SLT ? OP_ULT : OP_ULE, a, b);
                if (na && isC(b))
                    return mkConst(0, 1);
                if (isC(a) && nb)
                    return mkConst(1, 1);
                // ite of constants
                if (isC(b) && a->op == OP_ITE && isC(a->y))
                    return mkIte(a->x, mkConst(evalCmp(op, a->y->c, b->c, n), 1), mkCmp(op, a->z, b));
                if (isC(a) && b->op == OP_ITE && isC(b->y))
                    return mkIte(b->x, mkConst(evalCmp(op, a->c, b->y->c, n), 1), mkCmp(op, a, b->z));
                if (isC(b) && a->op == OP_ITE && isC(a->z))
                    return mkIte(a->x, mkCmp(op, a->y, b), mkConst(evalCmp(op, a->z->c, b->c, n), 1));
                if (isC(a) && b->op == OP_ITE && isC(b->z))
                    return mkIte(b->x, mkCmp(op, a, b->y), mkConst(evalCmp(op, a->c, b->z->c, n), 1));
                if (isC(b) && a->op == OP_SEXT && (int64_t)sx(b->c, n) >= -(1ll << (a->x->bits - 1)) && (int64_t)sx(b->c, n) < (1ll << (a->x->bits - 1)))
                    return mkCmp(op, a->x, mkConst(b->c, a->x->bits));
                if (isC(a) && b->op == OP_SEXT && (int64_t)sx(a->c, n) >= -(1ll << (b->x->bits - 1)) && (int64_t)sx(a->c, n) < (1ll << (b->x->bits - 1)))
                    return mkCmp(op, mkConst(a->c, b->x->bits), b->x);
            }
            break;
    }
    return mk(op, 1, c, a, b);
}

static E mkIte(E c, E t, E f) {
    if (isC(c))
        return c->c ? t : f;
    if (t == f)
        return t;
    if (c->op == OP_NOT)
        return mkIte(c->x, f, t);
    if (t->bits == 1) {
        if (isC(t, 1) && isC(f, 0))
            return c;
        if (isC(t, 0) && isC(f, 1))
            return mkNot(c);
        if (isC(t, 1))
            return mkBin(OP_OR, c, f);
        if (isC(t, 0))
            return mkBin(OP_AND, mkNot(c), f);
        if (isC(f, 0))
            return mkBin(OP_AND, c, t);
        if (isC(f, 1))
            return mkBin(OP_OR, mkNot(c), t);
    }
    if (t->bits > 1 && isC(f, 0) && isC(t, 1))
        return mkZext(c, t->bits);
    return mk(OP_ITE, t->bits, c->c ? t->c : f->c, c, t, f);
}

// ------------------------------------------------------------------ shadow memory
struct Page {
    u64 no;
    Page* next;
    u32 count;
    E sh[4096];
};
static const u32 PB = 14;
static Page* ptab[1 << PB];
static inline Page* page(u64 a, bool create) {
    u64 no = a >> 12;
    Page** s = &ptab[(no ^ (no >> PB)) & ((1u << PB) - 1)];
    for (Page* p = *s; p; p = p->next)
        if (p->no == no)
            return p;
    if (!create)
        return nullptr;
    Page* p = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p->no = no;
    p->next = *s;
    *s = p;
    return p;
}

E shadow1(const void* p) {
    if (!active)
        return nullptr;
    u64 a = (u64)p;
    Page* pg = page(a, false);
    if (!pg || !pg->count)
        return nullptr;
    E e = pg->sh[a & 4095];
    if (!e)
        return nullptr;
    if ((uint8_t)e->c != *(const uint8_t*)p) {
        pg->sh[a & 4095] = nullptr;
        pg->count--;
        st.stale++;
        return nullptr;
    }
    return e;
}
static u64 stackLow = ~0ull;  // lowest address of the stack that may have a shadow
void setShadow1(void* p, E e) {
    u64 a = (u64)p;
    if (e && a < stackLow && a > (u64)__builtin_frame_address(0) - (8u << 20) && a - (u64)__builtin_frame_address(0) + (8u << 20) < (64u << 20))
        stackLow = a;
    if (e && isC(e))
        e = nullptr;
    Page* pg = page(a, e != nullptr);
    if (!pg)
        return;
    E& s = pg->sh[a & 4095];
    if (!s && e)
        pg->count++;
    if (s && !e)
        pg->count--;
    s = e;
}
bool anyShadow(const void* p, size_t n) {
    if (!active || !n)
        return false;
    u64 a = (u64)p, e = a + n;
    while (a < e) {
        Page* pg = page(a, false);
        u64 pe = (a & ~4095ull) + 4096;
        if (pe > e)
            pe = e;
        if (pg && pg->count)
            for (u64 k = a; k < pe; ++k)
                if (pg->sh[k & 4095] && shadow1((void*)k))
                    return true;
        a = pe;
    }
    return false;
}

// ------------------------------------------------------------------ path condition
struct PC {
    E c;          // 1-bit condition that holds on this path
    u32 site;
    uint8_t pin;  // 1: pin (value enumeration)
    uint8_t taken;
    E e;          // pinned expression
    void* ret;
};
static thread_local void* curRet;
static std::vector<PC>* pc;
struct Assertion {
    size_t at;
    E c;
    const char* msg;
};
static std::vector<Assertion>* asserts;
static std::vector<std::string>* reached;
static std::vector<std::string>* notes;

struct Item {
    u32 bound = 0;
    std::vector<u64> excl;
    u64 prefixHash = 0;
    u32 expSite = 0;
    uint8_t expTaken = 2;  // 2 = no expectation, 3 = pin
    std::vector<uint8_t> in;
    std::string dbg;
};
static Item item;
static u32 maxPin = 4096;
static u32 queryMs = 10000;
static u64 maxBranches = 200000;
static int traceMode = 0;

static std::string show(E e, int d = 0);
static void record(E c, u32 site, bool pin, uint8_t taken, E e) {
    if (pc->size() >= maxBranches)
        endPath(5, "branch limit");
    pc->push_back({c, site, pin, taken, e, curRet});
    if (traceMode > 1)
        fprintf(stderr, "REC %zu site=%08x pin=%d taken=%d %s\n", pc->size() - 1, site, pin, taken, show(c).substr(0, 200).c_str());
}

struct FnSet {
    std::vector<void*> tab;
    size_t n = 0;
    FnSet() : tab(1 << 16) {}
    bool insert(void* p) {
        size_t h = ((u64)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
        while (tab[h & 0xffff]) {
            if (tab[h & 0xffff] == p)
                return false;
            ++h;
        }
        tab[h & 0xffff] = p;
        ++n;
        return true;
    }
    bool has(void* p) const {
        size_t h = ((u64)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
        while (tab[h & 0xffff]) {
            if (tab[h & 0xffff] == p)
                return true;
            ++h;
        }
        return false;
    }
};
struct BigSet {
    std::vector<void*> tab;
    u64 m;
    BigSet(size_t cap) : tab(cap), m(cap - 1) {}
    void insert(void* p) {
        u64 h = (((u64)p >> 1) * 0x9E3779B97F4A7C15ull) >> 20;
        while (tab[h & m]) {
            if (tab[h & m] == p)
                return;
            ++h;
        }
        tab[h & m] = p;
    }
    bool has(void* p) const {
        u64 h = (((u64)p >> 1) * 0x9E3779B97F4A7C15ull) >> 20;
        while (tab[h & m]) {
            if (tab[h & m] == p)
                return true;
            ++h;
        }
        return false;
    }
};
static BigSet* instrSet;
static FnSet* usedFns;       // functions executed with symbolic data live
static std::vector<void*>* newFns;
static std::vector<std::pair<void*, const char*>>& wrapRegs() {
    static std::vector<std::pair<void*, const char*>> w;
    return w;
}
void registerWrapper(void* f, const char* n) {
    wrapRegs().push_back({f, n});
}
static void buildInstrSet() {
    size_t n = (__start_symfuncs ? __stop_symfuncs - __start_symfuncs : 0) + wrapRegs().size();
    size_t cap = 1 << 12;
    while (cap < n * 3)
        cap <<= 1;
    instrSet = new BigSet(cap);
    for (void** p = __start_symfuncs; p < __stop_symfuncs; ++p)
        if (*p)
            instrSet->insert(*p);
    for (auto& w : wrapRegs())
        instrSet->insert(w.first);
}
bool isInstrumented(void* f) {
    return instrSet && instrSet->has(f);
}

// pins by native callee, for diagnostics
static std::map<std::string, u64>* pinSites;
static std::string fnName(void* p) {
    if (!p)
        return "-";
    Dl_info di;
    if (dladdr(p, &di) && di.dli_sname)
        return di.dli_sname;
    char b[512];
    if (dladdr(p, &di) && di.dli_fname)
        snprintf(b, sizeof b, "%s+%lx", di.dli_fname, (char*)p - (char*)di.dli_fbase);
    else
        snprintf(b, sizeof b, "%p", p);
    return b;
}

static void pinE(E e, u32 site, const char* why, void* where) {
    if (!recording || !e || isC(e))
        return;
    // a selection among alternatives is a branch on its condition
    while (e->op == OP_ITE) {
        E c = e->x->c ? e->x : mkNot(e->x);
        bool t = e->x->c;
        if (!isC(c) && !c->inpc) {
            c->inpc = 1;
            st.branches++;
            record(c, site, false, t, nullptr);
        }
        e = t ? e->y : e->z;
        site = site * 31 + 7;
    }
    if (isC(e))
        return;
    E c = mkCmp(OP_EQ, e, mkConst(e->c, e->bits));
    if (isC(c) || c->inpc)
        return;
    c->inpc = 1;
    st.pins++;
    if (pinSites) {
        std::string k = std::string(why) + (where ? ":" + fnName(where) : "");
        (*pinSites)[k]++;
    }
    if (e->bits == 1) {
        record(c, site, false, e->c, nullptr);
        return;
    }
    record(c, site, true, 3, e);
}

void pinRange(const void* p, size_t n, u32 site) {
    for (size_t i = 0; i < n; ++i)
        if (E e = shadow1((const char*)p + i))
            pinE(e, site + i, "range", nullptr);
}

void pinArgs(unsigned n, unsigned site) {
    for (unsigned i = 0; i < n; ++i)
        pinE(__sym_args[i], site + i, "model-arg", nullptr);
}

// ------------------------------------------------------------------ native-call policy
enum Policy { SAFE, PINARGS };
struct PolicyEntry {
    const char* prefix;
    Policy p;
};
static const PolicyEntry policies[] = {
#include "policy.inc"
    {nullptr, PINARGS}};
static std::unordered_map<void*, Policy>* policyCache;
static bool tracePins = false;
static bool looksMapped(u64 p) {
    return p > 0x1000 && p < 0x7fffffffffffull;
}
static void pinBytes(u64 p, size_t n, u32 site, const char* why, void* callee) {
    for (u64 a = p; a < p + n; ++a) {
        Page* pg = page(a, false);
        if (!pg || !pg->count) {
            a |= 4095;
            continue;
        }
        if (pg->sh[a & 4095])
            if (E e = shadow1((void*)a))
                pinE(e, site + (u32)(a - p), why, callee);
    }
}
// the object at p (n bytes) and what it points to: [begin,end) ranges, (pointer,length) pairs, other pointers
static void scanPin(u64 p, size_t n, int depth, u32 site, const char* why, void* callee) {
    if (!looksMapped(p))
        return;
    u64 a = p;
    u64 lim = std::min<u64>(p + n, (p & ~4095ull) + 4096);  // do not touch a page that may not be mapped
    static unsigned char bufs[4][4096];
    unsigned char* buf = bufs[depth & 3];
    {
        struct iovec li { buf, (size_t)(lim - p) }, ri { (void*)p, (size_t)(lim - p) };
        if (process_vm_readv((pid_t)syscall(SYS_getpid), &li, 1, &ri, 1, 0) != (ssize_t)(lim - p))
            return;
    }
    while (a < p + n) {
        if ((a & 7) || a + 8 > p + n) {
            pinBytes(a, 1, site + (u32)(a - p), why, callee);
            ++a;
            continue;
        }
        if ((a ^ p) & ~4095ull)
            break;  // do not touch a page that may not be mapped
        u64 q, r = ~0ull;
        memcpy(&q, buf + (a - p), 8);
        if (a + 16 <= lim)
            memcpy(&r, buf + (a + 8 - p), 8);
        if (q == a + 16 && r <= 15) {  // std::string with the characters inside
            pinBytes(q, r, site + (u32)(q - p), why, callee);
            a += 32;
            continue;
        }
        pinBytes(a, 8, site + (u32)(a - p), why, callee);
        u64 cap = 0;
        if (a + 32 <= lim)
            memcpy(&cap, buf + (a + 16 - p), 8);
        bool str = a + 32 <= p + n && r > 15 && r <= cap && cap <= 65536 && looksMapped(q);  // std::string with the characters elsewhere
        a += 8;
        if (str) {
            pinBytes(a, 24, site + (u32)(a - p), why, callee);
            a += 24;  // the last 8 bytes are not a pointer
        }
        if (depth <= 0 || !looksMapped(q) || (q >= p && q < p + n))
            continue;
        size_t len = 64;
        if (r > q && r - q <= 8192)
            len = r - q;
        else if (r <= 8192)
            len = r;
        if (!len)
            continue;
        if (len == 64 && !(q & 15)) {  // not beyond the end of a heap block (glibc: its size is in front of it)
            u64 h = 0;
            struct iovec li { &h, 8 }, ri { (void*)(q - 8), 8 };
            if (process_vm_readv((pid_t)syscall(SYS_getpid), &li, 1, &ri, 1, 0) == 8 && (h & ~7ull) >= 32 && !(h & 8) && (h & ~7ull) - 8 < len)
                len = (h & ~7ull) - 8;
        }
        Page* qp = page(q, false);
        bool strs = r > q && r - q <= 8192 && (r - q) % 8 == 0;
        if (qp && qp->count)
            scanPin(q, len, depth - 1, site + 1000, why, callee);
        else if (strs)
            scanPin(q, len, depth - 1, site + 2000, why, callee);
    }
}
}  // namespace symrt

using namespace symrt;

// ------------------------------------------------------------------ pass interface
extern "C" {

static E chk(E e, u64 c) {
    if (e && e->c != (c & mask(e->bits))) {
        st.mismatch++;
        return nullptr;
    }
    return e;
}

E __sym_bin(u32 op, u32 bits, E a, u64 ca, E b, u64 cb) {
    if (!a && !b)
        return nullptr;
    if (!recording)
        return nullptr;
    if (op == OP_CONCAT) {
        u32 hb = bits >> 8, lb = bits & 255;
        a = chk(a, ca);
        b = chk(b, cb);
        if (!a && !b)
            return nullptr;
        return mkConcat(a ? a : mkConst(ca, hb), b ? b : mkConst(cb, lb));
    }
    a = chk(a, ca);
    b = chk(b, cb);
    if (!a && !b)
        return nullptr;
    E r = mkBin(op, a ? a : mkConst(ca, bits), b ? b : mkConst(cb, bits));
    return isC(r) ? nullptr : r;
}
E __sym_cmp(u32 op, u32 bits, E a, u64 ca, E b, u64 cb) {
    if (!a && !b)
        return nullptr;
    if (!recording)
        return nullptr;
    a = chk(a, ca);
    b = chk(b, cb);
    if (!a && !b)
        return nullptr;
    E r = mkCmp(op, a ? a : mkConst(ca, bits), b ? b : mkConst(cb, bits));
    return isC(r) ? nullptr : r;
}
E __sym_cast(u32 op, u32 from, u32 to, E a) {
    if (!a || !recording)
        return nullptr;
    (void)from;
    E r = op == OP_TRUNC ? mkExtract(a, 0, to) : op == OP_ZEXT ? mkZext(a, to) : mkSext(a, to);
    return isC(r) ? nullptr : r;
}
E __sym_ite(E c, u64 cc, E t, u64 ct, E f, u64 cf, u32 bits) {
    if (!recording)
        return nullptr;
    if (c && c->c != (cc & 1)) {
        st.mismatch++;
        c = nullptr;
    }
    t = chk(t, ct);
    f = chk(f, cf);
    if (!c)
        return (cc & 1) ? t : f;
    E r = mkIte(c, t ? t : mkConst(ct, bits), f ? f : mkConst(cf, bits));
    return isC(r) ? nullptr : r;
}
E __sym_intrin1(u32 k, u32 bits, E a) {
    if (!a || !recording)
        return nullptr;
    E r = a;
    if (k == 1) {
        r = mkExtract(a, 0, 8);
        for (u32 i = 8; i < bits; i += 8)
            r = mkConcat(r, mkExtract(a, i, 8));
    }
    else if (k == 2)
        r = mkIte(mkCmp(OP_SLT, a, mkConst(0, bits)), mkBin(OP_SUB, mkConst(0, bits), a), a);
    else {
        r = mkConst(0, bits);
        for (u32 i = 0; i < bits; ++i)
            r = mkBin(OP_ADD, r, mkZext(mkExtract(a, i, 1), bits));
    }
    return isC(r) ? nullptr : r;
}
E __sym_load(const void* p, u32 nf, u32 bits) {
    if (!active)
        return nullptr;
    u32 n = nf & 0xfff;
    u64 a = (u64)p;
    Page* pg = page(a, false);
    if ((a & 4095) + n <= 4096) {
        if (!pg || !pg->count)
            return nullptr;
        bool any = false;
        for (u32 i = 0; i < n; ++i)
            if (pg->sh[(a & 4095) + i]) {
                any = true;
                break;
            }
        if (!any)
            return nullptr;
    }
    E sh[16];
    bool any = false;
    for (u32 i = 0; i < n && i < 16; ++i) {
        sh[i] = shadow1((const char*)p + i);
        if (sh[i])
            any = true;
    }
    if (!any)
        return nullptr;
    if (nf & 0x1000) {
        for (u32 i = 0; i < n && i < 16; ++i)
            if (sh[i])
                pinE(sh[i], 0xfeed + i, "wideload", nullptr);
        return nullptr;
    }
    E r = nullptr;
    const uint8_t* b = (const uint8_t*)p;
    for (u32 i = 0; i < n; ++i) {
        E x = sh[i] ? sh[i] : mkConst(b[i], 8);
        r = r ? mkConcat(x, r) : x;
    }
    if (bits < n * 8)
        r = mkExtract(r, 0, bits);
    return isC(r) ? nullptr : r;
}
void __sym_store(void* p, u32 n, u32 bits, E e) {
    if (!e) {
        __sym_memclear(p, n);
        return;
    }
    if (!recording)
        return;
    if (bits < n * 8)
        e = mkZext(e, n * 8);
    for (u32 i = 0; i < n; ++i)
        setShadow1((char*)p + i, mkExtract(e, 8 * i, 8));
}
void __sym_memclear(void* p, u64 n) {
    if (!active)
        return;
    u64 a = (u64)p, e = a + n;
    while (a < e) {
        Page* pg = page(a, false);
        u64 pe = (a & ~4095ull) + 4096;
        if (pe > e)
            pe = e;
        if (pg && pg->count)
            for (u64 k = a; k < pe; ++k)
                if (pg->sh[k & 4095]) {
                    pg->sh[k & 4095] = nullptr;
                    pg->count--;
                }
        a = pe;
    }
}
// called before or after the concrete copy: validates against source contents
void __sym_memcpy_shadow(void* d, const void* s, u64 n) {
    if (!active || !n || d == s)
        return;
    if (!anyShadow(s, n)) {
        __sym_memclear(d, n);
        return;
    }
    if ((char*)d < (const char*)s || (char*)d >= (const char*)s + n)
        for (u64 i = 0; i < n; ++i)
            setShadow1((char*)d + i, shadow1((const char*)s + i));
    else
        for (u64 i = n; i-- > 0;)
            setShadow1((char*)d + i, shadow1((const char*)s + i));
}
void __sym_memset_shadow(void* d, E e, u64 n) {
    if (!active)
        return;
    if (!e) {
        __sym_memclear(d, n);
        return;
    }
    for (u64 i = 0; i < n; ++i)
        setShadow1((char*)d + i, e);
}
void __sym_rawcopy(void* d, const void* s, u64 n) {
    if ((u64)d - (u64)s >= n)
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    else {
        char* dd = (char*)d + n - 1;
        const char* ss = (const char*)s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory");
    }
}
void __sym_rawset(void* d, uint8_t v, u64 n) {
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}
void __sym_byvalcopy(u32 flag, void* d, u64 s, u64 n) {
    if (!active)
        return;
    if (!flag) {
        __sym_memclear(d, n);
        return;
    }
    // contents are equal; shadow is validated against the source
    __sym_memcpy_shadow(d, (void*)s, n);
}
void __sym_branch(E c, u32 taken, u32 site) {
    if (!c || !recording)
        return;
    if (c->c != taken) {
        st.mismatch++;
        return;
    }
    E h = taken ? c : mkNot(c);
    if (isC(h) || h->inpc)
        return;
    h->inpc = 1;
    st.branches++;
    if (traceMode)
        curRet = __builtin_return_address(0);
    // split conjunctions: not needed for exhaustiveness
    record(h, site, false, taken, nullptr);
}
void __sym_switch(E v, u64 val, const u64* cases, u32 n, u32 bits, u32 site) {
    if (!v || !recording)
        return;
    for (u32 i = 0; i < n; ++i) {
        E c = mkCmp(OP_EQ, v, mkConst(cases[i], bits));
        bool t = (val & mask(bits)) == (cases[i] & mask(bits));
        if (!isC(c))
            __sym_branch(c, t, site + i);
        if (t)
            return;
    }
}
void __sym_pin(E e, u64 v, u32 site) {
    if (!e || !recording)
        return;
    if (e->c != (v & mask(e->bits))) {
        st.mismatch++;
        return;
    }
    pinE(e, site, "op", __builtin_return_address(0));
}
void __sym_pinaddr(E e, u64 v, u32 site) {
    if (!e || !recording)
        return;
    if (e->c != v) {
        st.mismatch++;
        return;
    }
    st.addrpins++;
    pinE(e, site, "addr", __builtin_return_address(0));
}
void __sym_pinbits(E e, u32 site) {
    if (!e || !recording)
        return;
    pinE(e, site, "bits", __builtin_return_address(0));
}
bool __sym_enter(void* self) {
    bool ok = __sym_callee == self;
    __sym_callee = nullptr;
    if (active && recording && usedFns->insert(self))
        newFns->push_back(self);
    return ok && recording;
}
E __sym_retget(u32 instr, u32 k) {
    return instr && recording ? __sym_rets[k] : nullptr;
}
// how the arguments of a native function are to be concretised, from its demangled signature:
// s = std::string, v = vector of strings, c = C string, n = number (value only), g = other object; leading sret/this
// argument kind for an object of a library class of known size
static char typeKind(const std::string& t) {
    static const struct {
        const char* n;
        unsigned words;
    } ts[] = {{"eckit::PathName", 1}, {"eckit::LocalPathName", 4}, {"eckit::URI", 26}, {"eckit::Length", 1}, {"eckit::Offset", 1}, {"eckit::Buffer", 2},
              {"eckit::Date", 1}, {"eckit::Time", 1}, {"eckit::LocalConfiguration", 0}, {"eckit::Configuration", 0}, {"eckit::net::Endpoint", 6},
              {"eckit::Regex", 13}, {"metkit::mars::MarsRequest", 7}, {"metkit::mars::Parameter", 0}};
    for (auto& x : ts)
        if (!t.compare(0, strlen(x.n), x.n) && !isalnum((unsigned char)t.c_str()[strlen(x.n)]) && t.find("**") == std::string::npos && t.find('<') == std::string::npos)
            return x.words ? (char)('A' + x.words - 1) : 'n';  // 0: what is stored in it was made concrete by the native code that stored it
    return 0;
}
static const std::string& argKinds(void* f, u32 nargs) {
    static auto* m = new std::unordered_map<void*, std::string>();
    auto it = m->find(f);
    if (it != m->end())
        return it->second;
    std::string n = fnName(f), k;
    int stt = 0;
    char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &stt);
    bool ok = false;
    if (d && !stt) {
        std::string t = d;
        size_t e = t.rfind(')');
        if (e != std::string::npos) {
            int par = 0;
            size_t o = e;
            while (o > 0) {
                if (t[o] == ')')
                    ++par;
                if (t[o] == '(' && --par == 0)
                    break;
                --o;
            }
            std::string in = t.substr(o + 1, e - o - 1);
            std::vector<std::string> ps;
            int dep = 0;
            std::string c;
            for (char ch : in) {
                if (ch == '<' || ch == '(')
                    ++dep;
                if (ch == '>' || ch == ')')
                    --dep;
                if (ch == ',' && !dep) {
                    ps.push_back(c);
                    c.clear();
                }
                else
                    c += ch;
            }
            if (!c.empty() && c != "void")
                ps.push_back(c);
            for (auto& q : ps) {
                while (!q.empty() && q[0] == ' ')
                    q.erase(0, 1);
                bool ptr = q.find('*') != std::string::npos, ref = q.find('&') != std::string::npos;
                if (q.find("std::vector<std::__cxx11::basic_string") != std::string::npos && ref)
                    k += 'v';
                else if (q.find("std::__cxx11::basic_string<char") != std::string::npos && q.find('<') == q.rfind('<', q.find("char")) && ref && q.find("map") == std::string::npos && q.find("set") == std::string::npos && q.find("vector") == std::string::npos)
                    k += 's';
                else if (q.find("char const*") != std::string::npos && !ref)
                    k += 'c';
                else if (!ptr && !ref && q.find("::") == std::string::npos)
                    k += 'n';
                else if (q == "bool const&")
                    k += '1';
                else if (q == "int const&" || q == "unsigned int const&" || q == "float const&")
                    k += '4';
                else if (q == "long const&" || q == "unsigned long const&" || q == "double const&" || q == "long long const&" || q == "unsigned long long const&")
                    k += '8';
                else if (char tk = typeKind(q))
                    k += tk;
                else
                    k += 'g';
            }
            if (k.size() <= nargs) {
                size_t extra = nargs - k.size();
                bool method = n.compare(0, 3, "_ZN") == 0;
                for (const char* ns : {"eckit::", "eckit::net::", "metkit::", "metkit::mars::", "std::"})  // free function of a namespace
                    if (t.compare(0, strlen(ns), ns) == 0 && t.substr(0, o).find("::", strlen(ns)) == std::string::npos)
                        method = false;
                if (n.compare(0, 5, "_ZNSo") == 0)
                    method = false;  // the stream itself is not an input
                std::string lead;
                if (extra >= 1 && method)
                    lead = std::string(extra - 1, 'r') + "t";
                else
                    lead = std::string(extra, 'r');
                {  // the object of a constructor is not an input
                    std::string q = t.substr(0, o);
                    size_t c2 = q.rfind("::");
                    if (c2 != std::string::npos) {
                        std::string last = q.substr(c2 + 2), pre = q.substr(0, c2);
                        size_t c1 = pre.rfind("::");
                        if ((c1 == std::string::npos ? pre : pre.substr(c1 + 2)) == last && !lead.empty())
                            lead.back() = 'r';
                        else if (!lead.empty() && lead.back() == 't')
                            if (char tk = typeKind(pre))
                                lead.back() = tk;
                    }
                }
                for (const char* cls : {"6metkit4mars11MarsR", "5eckit13Configuration", "5eckit18LocalConfiguration"}) {
                    std::string m0 = std::string("_ZN") + cls, m1 = std::string("_ZNK") + cls;
                    if (n.compare(0, m0.size(), m0) == 0 || n.compare(0, m1.size(), m1) == 0)
                        for (auto& ch : lead)
                            ch = 'r';  // values were concretised when they were stored
                }
                k = lead + k;
                ok = true;
            }
        }
    }
    free(d);
    size_t ns = n.size();
    if (n.compare(0, 2, "_Z") == 0 && ns > 6 && n[ns - 4] == 'D' && n[ns - 3] >= '0' && n[ns - 3] <= '2' && n[ns - 2] == 'E' && n[ns - 1] == 'v')
        k = std::string(nargs, 'r');  // destructor
    else if (!ok)
        k = std::string(nargs, 'g');
    return (*m)[f] = k;
}
u32 __sym_precall(void* callee, u32 nargs, u32 site, u32 flags) {
    if (flags & 1) {
        __sym_callee = callee;
        return 1;
    }
    if (!instrSet) {
        __sym_callee = nullptr;
        return 0;
    }
    if (instrSet->has(callee)) {
        __sym_callee = callee;
        for (int i = 0; i < 4; ++i)
            __sym_rets[i] = nullptr;
        return 1;
    }
    __sym_callee = nullptr;
    if (!active || !recording || quiet)
        return 0;
    st.nativecalls++;
    // what is below the caller's stack pointer is dead: its shadow must not reappear in the frames of native code
    u64 sp = (u64)__builtin_frame_address(0) + 16;
    if (stackLow < sp) {
        __sym_memclear((void*)stackLow, sp - stackLow);
        stackLow = sp;
    }
    auto it = policyCache->find(callee);
    Policy pol;
    if (it != policyCache->end())
        pol = it->second;
    else {
        std::string n = fnName(callee);
        pol = PINARGS;
        for (auto* e = policies; e->prefix; ++e) {
            size_t l = strlen(e->prefix);
            if (e->prefix[l - 1] == '$' ? (n.size() == l - 1 && !n.compare(0, l - 1, e->prefix, l - 1)) : !n.compare(0, l, e->prefix)) {
                pol = e->p;
                break;
            }
        }
        (*policyCache)[callee] = pol;
    }
    if (pol == SAFE)
        return 0;
    const std::string& kinds = argKinds(callee, nargs);
    for (u32 i = 0; i < nargs && i < 64; ++i) {
        if (__sym_args[i])
            pinE(__sym_args[i], site + i, "native-arg", callee);
        u64 p = __sym_argvals[i];
        char kd = i < kinds.size() ? kinds[i] : 'g';
        u64 pins0 = st.pins;
        struct Rep {
            u64 p0;
            void* f;
            u32 i;
            char kd;
            ~Rep() {
                if (traceMode && st.pins != p0)
                    fprintf(stderr, "PIN %s arg %u kind %c: %llu\n", fnName(f).c_str(), i, kd, (unsigned long long)(st.pins - p0));
            }
        } rep{pins0, callee, i, kd};
        if (!looksMapped(p) || kd == 'n' || kd == 'r')
            continue;
        u32 sb = site + 100 + i;
        if (kd >= '1' && kd <= '8') {
            pinBytes(p, kd - '0', sb, "native-arg", callee);
            continue;
        }
        if (kd == 'A') {  // PathName: only its string
            u64 w[16];
            struct iovec li { w, 8 }, ri { (void*)p, 8 };
            if (process_vm_readv((pid_t)syscall(SYS_getpid), &li, 1, &ri, 1, 0) != 8)
                continue;
            u64 o = w[0];
            li.iov_len = ri.iov_len = 96;
            ri.iov_base = (void*)o;
            if (process_vm_readv((pid_t)syscall(SYS_getpid), &li, 1, &ri, 1, 0) != 96)
                continue;
            for (int k = 0; k < 10; ++k)
                if ((w[k] == o + 8 * k + 16 && w[k + 1] <= 15) || (w[k + 1] && w[k + 1] < 4096 && w[k + 2] >= w[k + 1] && w[k + 2] < 8192 && looksMapped(w[k]))) {
                    pinBytes(w[k], w[k + 1], sb, "native-path", callee);
                    break;
                }
            continue;
        }
        if (kd == 's') {
            u64 q = ((u64*)p)[0], l = ((u64*)p)[1];
            if (l < (1 << 20))
                pinBytes(q, l, sb, "native-str", callee);
        }
        else if (kd == 'v') {
            u64 q = ((u64*)p)[0], e = ((u64*)p)[1];
            if (e >= q && e - q < (1 << 20))
                for (; q + 32 <= e; q += 32)
                    pinBytes(((u64*)q)[0], ((u64*)q)[1], sb += 1000, "native-vec", callee);
        }
        else if (kd == 'c') {
            for (u64 q = p;; ++q) {
                if (E e = shadow1((void*)q))
                    pinE(e, sb + (u32)(q - p), "native-cstr", callee);
                if (!*(char*)q)
                    break;
            }
        }
        else
            scanPin(p, kd == 't' ? 96 : kd >= 'A' && kd <= 'Z' ? (kd - 'A' + 1) * 8u : 64, 2, sb, "native-mem", callee);
    }
    return 0;
}

// ------------------------------------------------------------------ harness API
void sym_bytes_(void* p, size_t n, const char* name, const void* init) {
    // always called from instrumented harness code; consume token
    __sym_callee = nullptr;
    for (size_t i = 0; i < n; ++i) {
        size_t k = cur.size();
        uint8_t v = k < input.size() ? input[k] : (init ? ((const uint8_t*)init)[i] : 0);
        cur.push_back(v);
        varNames.push_back(n == 1 ? std::string(name) : std::string(name) + "[" + std::to_string(i) + "]");
        ((uint8_t*)p)[i] = v;
        if (recording) {
            active = true;
            E e = mk(OP_VAR, 8, v, nullptr, nullptr, nullptr, 0);
            e->z = nullptr;
            varE.push_back(e);
            setShadow1((char*)p + i, e);
        }
    }
}
void sym_assume_(bool c) {
    E e = fromInstr((void*)&sym_assume_) ? __sym_args[0] : nullptr;
    if (e && recording) {
        if (e->bits != 1)
            e = mkExtract(e, 0, 1);
        __sym_branch(e, c, 0xa55e);
    }
    if (!c)
        endPath(1, "assume");
}
void sym_assert_(bool c, const char* msg) {
    E e = fromInstr((void*)&sym_assert_) ? __sym_args[0] : nullptr;
    st.asserts++;
    if (!c)
        endPath(2, msg);
    if (e && recording) {
        if (e->bits != 1)
            e = mkExtract(e, 0, 1);
        if (!isC(e) && e->c == 1)
            asserts->push_back({pc->size(), e, msg});
    }
}
u64 sym_concrete_(u64 v, u32 bits) {
    E e = fromInstr((void*)&sym_concrete_) ? __sym_args[0] : nullptr;
    if (e && recording)
        pinE(e, 0xc0c0, "concrete", nullptr);
    __sym_rets[0] = nullptr;
    (void)bits;
    return v;
}
void sym_reach(const char* l) {
    __sym_callee = nullptr;
    if (reached)
        reached->push_back(l);
}
void sym_note(const char* l) {
    __sym_callee = nullptr;
    if (notes)
        notes->push_back(l);
}
void sym_fail(const char* msg) {
    endPath(2, msg);
}
void sym_end_path() {
    endPath(0, "");
}
int sym_is_replay() {
    return 0;
}
}  // extern "C"
static WrapReg r1((void*)&sym_bytes_, "sym_bytes_"), r2((void*)&sym_assume_, "sym_assume_"), r3((void*)&sym_assert_, "sym_assert_"),
    r4((void*)&sym_concrete_, "sym_concrete_"), r5((void*)&sym_reach, "sym_reach"), r6((void*)&sym_note, "sym_note");

// ------------------------------------------------------------------ solving
namespace symrt {
static Z3_context z3;
static Z3_solver z3s;
static std::vector<Z3_ast> z3vars;

static Z3_ast toBV(E e);
static Z3_ast toBool(E e);

static Z3_ast num(u64 v, u32 bits) {
    return Z3_mk_unsigned_int64(z3, v, Z3_mk_bv_sort(z3, bits));
}
static Z3_ast toBool(E e) {
    // 1-bit expressions are translated as Bool; cached in e->z3
    if (e->z3)
        return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    switch (e->op) {
        case OP_CONST: r = e->c ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
        case OP_NOT: r = Z3_mk_not(z3, toBool(e->x)); break;
        case OP_AND: {
            Z3_ast a[2] = {toBool(e->x), toBool(e->y)};
            r = Z3_mk_and(z3, 2, a);
            break;
        }
        case OP_OR: {
            Z3_ast a[2] = {toBool(e->x), toBool(e->y)};
            r = Z3_mk_or(z3, 2, a);
            break;
        }
        case OP_XOR: r = Z3_mk_xor(z3, toBool(e->x), toBool(e->y)); break;
        case OP_EQ:
            if (e->x->bits == 1)
                r = Z3_mk_iff(z3, toBool(e->x), toBool(e->y));
            else
                r = Z3_mk_eq(z3, toBV(e->x), toBV(e->y));
            break;
        case OP_ULT: r = Z3_mk_bvult(z3, toBV(e->x), toBV(e->y)); break;
        case OP_ULE: r = Z3_mk_bvule(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SLT: r = Z3_mk_bvslt(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SLE: r = Z3_mk_bvsle(z3, toBV(e->x), toBV(e->y)); break;
        case OP_ITE: r = Z3_mk_ite(z3, toBool(e->x), toBool(e->y), toBool(e->z)); break;
        case OP_UADDO: r = Z3_mk_not(z3, Z3_mk_bvadd_no_overflow(z3, toBV(e->x), toBV(e->y), false)); break;
        case OP_USUBO: r = Z3_mk_bvult(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SADDO: {
            Z3_ast a[2] = {Z3_mk_bvadd_no_overflow(z3, toBV(e->x), toBV(e->y), true), Z3_mk_bvadd_no_underflow(z3, toBV(e->x), toBV(e->y))};
            r = Z3_mk_not(z3, Z3_mk_and(z3, 2, a));
            break;
        }
        case OP_SSUBO: {
            Z3_ast a[2] = {Z3_mk_bvsub_no_overflow(z3, toBV(e->x), toBV(e->y)), Z3_mk_bvsub_no_underflow(z3, toBV(e->x), toBV(e->y), true)};
            r = Z3_mk_not(z3, Z3_mk_and(z3, 2, a));
            break;
        }
        case OP_UMULO: r = Z3_mk_not(z3, Z3_mk_bvmul_no_overflow(z3, toBV(e->x), toBV(e->y), false)); break;
        case OP_SMULO: {
            Z3_ast a[2] = {Z3_mk_bvmul_no_overflow(z3, toBV(e->x), toBV(e->y), true), Z3_mk_bvmul_no_underflow(z3, toBV(e->x), toBV(e->y))};
            r = Z3_mk_not(z3, Z3_mk_and(z3, 2, a));
            break;
        }
        case OP_EXTRACT: r = Z3_mk_eq(z3, Z3_mk_extract(z3, e->lo, e->lo, toBV(e->x)), num(1, 1)); break;
        case OP_SHL: case OP_LSHR: case OP_ASHR: case OP_UDIV: case OP_SDIV: case OP_UREM: case OP_SREM:
        default: {
            fprintf(stderr, "toBool: op %d\n", e->op);
            abort();
        }
    }
    Z3_inc_ref(z3, r);
    e->z3 = r;
    return r;
}
static Z3_ast toBV(E e) {
    if (e->bits == 1)
        return Z3_mk_ite(z3, toBool(e), num(1, 1), num(0, 1));
    if (e->z3)
        return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    switch (e->op) {
        case OP_CONST: r = num(e->c, e->bits); break;
        case OP_VAR: abort();
        case OP_ADD: r = Z3_mk_bvadd(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SUB: r = Z3_mk_bvsub(z3, toBV(e->x), toBV(e->y)); break;
        case OP_MUL: r = Z3_mk_bvmul(z3, toBV(e->x), toBV(e->y)); break;
        case OP_UDIV: r = Z3_mk_bvudiv(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SDIV: r = Z3_mk_bvsdiv(z3, toBV(e->x), toBV(e->y)); break;
        case OP_UREM: r = Z3_mk_bvurem(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SREM: r = Z3_mk_bvsrem(z3, toBV(e->x), toBV(e->y)); break;
        case OP_SHL: r = Z3_mk_bvshl(z3, toBV(e->x), toBV(e->y)); break;
        case OP_LSHR: r = Z3_mk_bvlshr(z3, toBV(e->x), toBV(e->y)); break;
        case OP_ASHR: r = Z3_mk_bvashr(z3, toBV(e->x), toBV(e->y)); break;
        case OP_AND: r = Z3_mk_bvand(z3, toBV(e->x), toBV(e->y)); break;
        case OP_OR: r = Z3_mk_bvor(z3, toBV(e->x), toBV(e->y)); break;
        case OP_XOR: r = Z3_mk_bvxor(z3, toBV(e->x), toBV(e->y)); break;
        case OP_CONCAT: r = Z3_mk_concat(z3, toBV(e->x), toBV(e->y)); break;
        case OP_EXTRACT: r = Z3_mk_extract(z3, e->lo + e->bits - 1, e->lo, toBV(e->x)); break;
        case OP_ZEXT: r = Z3_mk_zero_ext(z3, e->bits - e->x->bits, toBV(e->x)); break;
        case OP_SEXT: r = Z3_mk_sign_ext(z3, e->bits - e->x->bits, toBV(e->x)); break;
        case OP_ITE: r = Z3_mk_ite(z3, toBool(e->x), toBV(e->y), toBV(e->z)); break;
        default: fprintf(stderr, "toBV: op %d\n", e->op); abort();
    }
    Z3_inc_ref(z3, r);
    e->z3 = r;
    return r;
}

static u32 depWords;
static u64* deps(E e) {
    if (e->dep)
        return e->dep;
    if (e->op == OP_CONST) {
        e->dep = (u64*)aalloc(depWords * 8);
        return e->dep;
    }
    u64* d = (u64*)aalloc(depWords * 8);
    for (E k : {e->x, e->y, e->z})
        if (k) {
            u64* s = deps(k);
            for (u32 i = 0; i < depWords; ++i)
                d[i] |= s[i];
        }
    e->dep = d;
    return d;
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static u64 evalE(E e, const std::vector<uint8_t>& m) {
    switch (e->op) {
        case OP_CONST: return e->c;
        case OP_VAR:
            for (size_t i = 0; i < varE.size(); ++i)
                if (varE[i] == e)
                    return m[i];
            return 0;
        case OP_NOT: return !evalE(e->x, m);
        case OP_ZEXT: return evalE(e->x, m);
        case OP_SEXT: return (u64)sx(evalE(e->x, m), e->x->bits) & mask(e->bits);
        case OP_EXTRACT: return (evalE(e->x, m) >> e->lo) & mask(e->bits);
        case OP_CONCAT: return (evalE(e->x, m) << e->y->bits) | evalE(e->y, m);
        case OP_ITE: return evalE(e->x, m) ? evalE(e->y, m) : evalE(e->z, m);
    }
    u64 a = evalE(e->x, m), b = evalE(e->y, m);
    if (e->bits == 1 && e->op >= OP_EQ)
        return evalCmp(e->op, a, b, e->x->bits);
    return evalBin(e->op, a, b, e->bits) & mask(e->bits);
}
static std::string show(E e, int d) {
    if (d > 12)
        return "...";
    char b[64];
    switch (e->op) {
        case OP_CONST: snprintf(b, sizeof b, "%lx:%d", e->c, e->bits); return b;
        case OP_VAR:
            for (size_t i = 0; i < varE.size(); ++i)
                if (varE[i] == e)
                    return "v" + std::to_string(i);
            return "v?";
    }
    snprintf(b, sizeof b, "(op%d:%d", e->op, e->bits);
    std::string s = b;
    if (e->op == OP_EXTRACT)
        s += "@" + std::to_string(e->lo);
    for (E k : {e->x, e->y, e->z})
        if (k)
            s += " " + show(k, d + 1);
    return s + ")";
}
// prefix pc[0..n) and extra; returns 1 sat, 0 unsat, -1 unknown
static int solve(size_t n, const std::vector<E>& extra, std::vector<uint8_t>& model) {
    double t0 = now();
    std::vector<u64> set(depWords, 0);
    for (E e : extra) {
        u64* d = deps(e);
        for (u32 i = 0; i < depWords; ++i)
            set[i] |= d[i];
    }
    std::vector<char> in(n, 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t k = n; k-- > 0;)
            if (!in[k]) {
                u64* d = deps((*pc)[k].c);
                bool hit = false;
                for (u32 i = 0; i < depWords && !hit; ++i)
                    hit = set[i] & d[i];
                if (hit) {
                    in[k] = 1;
                    for (u32 i = 0; i < depWords; ++i)
                        if (d[i] & ~set[i]) {
                            set[i] |= d[i];
                            ch = true;
                        }
                }
            }
    }
    double tc = now();
    Z3_solver_push(z3, z3s);
    for (size_t k = 0; k < n; ++k)
        if (in[k])
            Z3_solver_assert(z3, z3s, toBool((*pc)[k].c));
    for (E e : extra)
        Z3_solver_assert(z3, z3s, toBool(e));
    double tq = now();
    Z3_lbool r = Z3_solver_check(z3, z3s);
    static const char* slow = getenv("SYM_SLOW");
    if (slow && now() - t0 > atof(slow))
        fprintf(stderr, "QTIME close %.3f translate %.3f check %.3f res %d pc %zu\n", tc - t0, tq - tc, now() - tq, (int)r, n);
    if (now() - tq > 1 && slow)
        fprintf(stderr, "SLOW %.1fs res %d\n%s\n", now() - tq, (int)r, Z3_solver_to_string(z3, z3s));
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
        Z3_model m = Z3_solver_get_model(z3, z3s);
        Z3_model_inc_ref(z3, m);
        model = cur;
        for (size_t v = 0; v < cur.size(); ++v)
            if (set[v / 64] >> (v % 64) & 1) {
                Z3_ast out;
                if (Z3_model_eval(z3, m, z3vars[v], true, &out)) {
                    u64 x = 0;
                    Z3_get_numeral_uint64(z3, out, (uint64_t*)&x);
                    model[v] = (uint8_t)x;
                }
            }
        Z3_model_dec_ref(z3, m);
        if (traceMode) {
            for (size_t k = 0; k < n; ++k)
                if (!evalE((*pc)[k].c, model))
                    fprintf(stderr, "BADMODEL pc[%zu] %s\n", k, show((*pc)[k].c).c_str());
            for (E x : extra)
                if (!evalE(x, model))
                    fprintf(stderr, "BADMODEL extra %s\n", show(x).c_str());
        }
    }
    Z3_solver_pop(z3, z3s, 1);
    st.queries++;
    (res == 1 ? st.sat : res == 0 ? st.unsat : st.unknown)++;
    st.solver_us += (u64)((now() - t0) * 1e6);
    return res;
}

// ------------------------------------------------------------------ child -> parent messages
static int outFd = -1;
static std::string outBuf;
static void put(const void* p, size_t n) {
    outBuf.append((const char*)p, n);
}
template <typename T>
static void putv(T v) {
    put(&v, sizeof v);
}
static void puts_(const std::string& s) {
    putv<u32>(s.size());
    put(s.data(), s.size());
}
static void flushOut() {
    size_t o = 0;
    while (o < outBuf.size()) {
        ssize_t w = ::write(outFd, outBuf.data() + o, outBuf.size() - o);
        if (w <= 0)
            break;
        o += w;
    }
    outBuf.clear();
}
static void putItem(const Item& it) {
    putv<char>('N');
    putv<u32>(it.bound);
    putv<u32>(it.excl.size());
    for (u64 v : it.excl)
        putv<u64>(v);
    putv<u64>(it.prefixHash);
    putv<u32>(it.expSite);
    putv<uint8_t>(it.expTaken);
    puts_(std::string(it.in.begin(), it.in.end()));
    puts_(it.dbg);
}
static u64 hstep(u64 h, const PC& p) {
    h ^= ((u64)p.site << 8) | p.taken;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 31;
    return h;
}
static bool ending = false;

void endPath(int outcome, const char* msg) {
    if (ending)
        _exit(99);
    ending = true;
    bool rec = recording;
    recording = false;
    active = false;
    struct itimerval z = {};
    setitimer(ITIMER_REAL, &z, nullptr);
    if (!rec) {  // concrete replay inside the instrumented binary
        printf("REPLAY-OUTCOME %d %s\n", outcome, msg);
        fflush(stdout);
        _exit(outcome == 0 || outcome == 1 ? 0 : 1);
    }
    st.vars = cur.size();
    depWords = (cur.size() + 63) / 64;
    if (!depWords)
        depWords = 1;
    Z3_sort s8 = Z3_mk_bv_sort(z3, 8);
    for (size_t i = 0; i < varE.size(); ++i) {
        Z3_ast v = Z3_mk_const(z3, Z3_mk_int_symbol(z3, (int)i), s8);
        Z3_inc_ref(z3, v);
        z3vars.push_back(v);
        varE[i]->z3 = v;
        u64* d = (u64*)aalloc(depWords * 8);
        d[i / 64] |= 1ull << (i % 64);
        varE[i]->dep = d;
    }
    // divergence check
    u64 h = 0;
    bool div = false;
    for (size_t i = 0; i < pc->size() && i < item.bound; ++i)
        if (i + 1 < item.bound || item.expTaken == 3 || item.expTaken == 2)
            h = hstep(h, (*pc)[i]);
    if (item.expTaken != 2) {
        size_t at = item.expTaken == 3 ? item.bound : item.bound - 1;
        if (pc->size() <= at || h != item.prefixHash || (*pc)[at].site != item.expSite || (*pc)[at].taken != item.expTaken)
            div = true;
    }
    std::string dbgAll;
    if (traceMode)
        for (auto& p : *pc)
            dbgAll.append((const char*)&p.site, 4), dbgAll.push_back((char)p.taken), dbgAll.append((const char*)&p.ret, 8);
    if (div) {
        st.diverged++;
        if (traceMode) {
            for (size_t i = 0; i * 13 < item.dbg.size(); ++i) {
                u32 es; u64 er;
                memcpy(&es, item.dbg.data() + i * 13, 4);
                memcpy(&er, item.dbg.data() + i * 13 + 5, 8);
                if (i >= pc->size() || (*pc)[i].site != es || (*pc)[i].taken != (uint8_t)item.dbg[i * 13 + 4]) {
                    fprintf(stderr, "  first difference at %zu/%u: exp %x/%d from %s got %x/%d from %s\n", i, item.bound, es, item.dbg[i * 13 + 4], fnName((void*)er).c_str(),
                            i < pc->size() ? (*pc)[i].site : 0, i < pc->size() ? (*pc)[i].taken : 9, i < pc->size() ? fnName((*pc)[i].ret).c_str() : "-");
                    break;
                }
            }
            size_t at = item.expTaken == 3 ? item.bound : item.bound - 1;
            if (at < pc->size()) fprintf(stderr, "  at: site %x taken %d from %s; before %s hashok %d\n", (*pc)[at].site, (*pc)[at].taken, fnName((*pc)[at].ret).c_str(), at ? fnName((*pc)[at-1].ret).c_str():"", h == item.prefixHash);
            if (at < pc->size()) fprintf(stderr, "  cond %s\n", show((*pc)[at].c).c_str()); for (size_t v = 0; v < cur.size(); ++v) fprintf(stderr, "v%zu=%d(in %d) ", v, cur[v], v < item.in.size() ? item.in[v] : -1);
            fprintf(stderr, "DIVERGED bound=%u pc=%zu exp site=%x taken=%d outcome=%d\n", item.bound, pc->size(), item.expSite, item.expTaken, outcome);
        }
    }
    // outcome first, so that a solver crash does not lose it
    putv<char>('O');
    putv<uint8_t>(outcome);
    puts_(msg ? msg : "");
    puts_(std::string(cur.begin(), cur.end()));
    if (outcome >= 2 || traceMode) {
        std::string names;
        for (size_t i = 0; i < cur.size(); ++i)
            names += varNames[i] + "=" + std::to_string(cur[i]) + " ";
        puts_(names);
    }
    else
        puts_("");
    flushOut();
    if (!div) {
        // assertions: is there any input on this path violating one?
        for (auto& a : *asserts) {
            st.assertq++;
            std::vector<uint8_t> m;
            int r = solve(a.at, {mkNot(a.c)}, m);
            if (r == 0)
                st.assertunsat++;
            if (r == 1) {
                Item it;
                it.in = m;
                it.bound = ~0u;  // run only; no children
                putItem(it);
            }
        }
        u64 hh = 0;
        for (size_t i = 0; i < pc->size(); ++i) {
            const PC& p = (*pc)[i];
            if (i >= item.bound) {
                std::vector<uint8_t> m;
                if (p.pin) {
                    std::vector<u64> ex;
                    if (i == item.bound && item.expTaken == 3)
                        ex = item.excl;
                    ex.push_back(p.e->c);
                    if (ex.size() > maxPin) {
                        st.pinlimit++;
                    }
                    else {
                        std::vector<E> extra;
                        for (u64 v : ex)
                            extra.push_back(mkNot(mkCmp(OP_EQ, p.e, mkConst(v, p.e->bits))));
                        bool triv = false;
                        for (E x : extra)
                            if (isC(x, 0))
                                triv = true;
                        if (!triv && solve(i, extra, m) == 1) {
                            Item it;
                            it.bound = i;
                            it.excl = ex;
                            it.prefixHash = hh;
                            it.expSite = p.site;
                            it.expTaken = 3;
                            it.in = m;
                            if (traceMode)
                                it.dbg = dbgAll.substr(0, i * 13);
                            putItem(it);
                        }
                    }
                }
                else {
                    if (solve(i, {mkNot(p.c)}, m) == 1) {
                        Item it;
                        it.bound = i + 1;
                        it.prefixHash = hh;
                        it.expSite = p.site;
                        it.expTaken = !p.taken;
                        it.in = m;
                        if (traceMode)
                            it.dbg = dbgAll.substr(0, i * 13);
                        putItem(it);
                    }
                }
                if (outBuf.size() > 60000)
                    flushOut();
            }
            hh = hstep(hh, p);
        }
    }
    for (auto& r : *reached) {
        putv<char>('R');
        puts_(r);
    }
    for (auto& r : *notes) {
        putv<char>('T');
        puts_(r);
    }
    for (void* f : *newFns) {
        putv<char>('F');
        putv<u64>((u64)f);
    }
    if (pinSites)
        for (auto& kv : *pinSites) {
            putv<char>('P');
            puts_(kv.first);
            putv<u64>(kv.second);
        }
    putv<char>('S');
    putv<Stats>(st);
    putv<char>('E');
    flushOut();
    _exit(0);
}

static void onSignal(int s) {
    if (traceMode && s != SIGALRM) {
        void* bt[60];
        int n = backtrace(bt, 60);
        fprintf(stderr, "signal %d\n", s);
        backtrace_symbols_fd(bt, n, 2);
    }
    if (s == SIGALRM) {
        endPath(4, "path timeout");
    }
    static char b[64];
    snprintf(b, sizeof b, "crash: signal %d", s);
    endPath(3, b);
}
}  // namespace symrt

// ------------------------------------------------------------------ driver
struct CaseReg {
    const char* name;
    sym_fn fn;
    const char* bounds;
};
static std::vector<CaseReg>& cases() {
    static std::vector<CaseReg> c;
    return c;
}
SymCase::SymCase(const char* n, sym_fn f, const char* b) {
    cases().push_back({n, f, b});
}

static void runCase(sym_fn fn) {
    try {
        fn();
    }
    catch (std::exception& e) {
        static std::string m;
        m = std::string("uncaught exception: ") + e.what();
        endPath(3, m.c_str());
    }
    catch (...) {
        endPath(3, "uncaught exception");
    }
    endPath(0, "");
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        }
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}
static std::string hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) {
        o += d[c >> 4];
        o += d[c & 15];
    }
    return o;
}

struct Violation {
    std::string msg, in, names;
    int outcome;
};
struct Total {
    Stats s;
    u64 paths = 0, ok = 0, assumed = 0, timeouts = 0, limits = 0, lost = 0;
    std::vector<Violation> viol;
    std::map<std::string, u64> reach, notes, pins;
    std::vector<std::string> samples;
    double wall = 0;
    bool exhaustive = false;
    size_t left = 0;
};

struct Child {
    pid_t pid;
    int fd;
    std::string buf;
    bool noChildren;
    double start;
    Item it;
};

static int jobs = 8;
static double caseTime = 60;
static u64 maxPaths = 1000000;
static double pathTime = 20;
static size_t maxViol = 3;
static u64 seed = 1;

// scratch directory of this run; every path may use the sub-directory named after its process
static std::string scratchDir;
static pid_t scratchOwner;
static void rmScratch() {
    if ((pid_t)syscall(SYS_getpid) == scratchOwner && !scratchDir.empty()) {
        std::error_code ec;
        std::filesystem::remove_all(scratchDir, ec);
    }
}
static void makeScratch() {
    char t[64] = "/dev/shm/fdbsym.XXXXXX";
    if (!mkdtemp(t)) {
        strcpy(t, "/tmp/fdbsym.XXXXXX");
        if (!mkdtemp(t))
            return;
    }
    scratchDir = t;
    scratchOwner = (pid_t)syscall(SYS_getpid);
    setenv("SYM_SCRATCH", t, 1);
    atexit(rmScratch);
}
static Total explore(const CaseReg& cr) {
    Total T;
    std::deque<Item> work;
    work.push_back(Item());
    std::vector<Child> ch;
    double t0 = now();
    u64 rng = seed * 0x9E3779B97F4A7C15ull + 1;
    bool stop = false;
    u64 started = 0;
    std::set<std::string> assertInputs;
    while (true) {
        while (!stop && !work.empty() && (int)ch.size() < jobs) {
            if (now() - t0 > caseTime || started >= maxPaths) {
                stop = true;
                break;
            }
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            // mostly depth first, sometimes a random pending item
            Item it;
            if (work.back().bound != ~0u && (rng & 3) == 0) {
                size_t k = (rng >> 8) % work.size();
                it = std::move(work[k]);
                if (k + 1 != work.size())
                    work[k] = std::move(work.back());
                work.pop_back();
            }
            else {
                it = std::move(work.back());
                work.pop_back();
            }
            if (it.bound == ~0u) {
                if (!assertInputs.insert(std::string(it.in.begin(), it.in.end())).second)
                    continue;
            }
            int p[2];
            if (pipe(p)) {
                perror("pipe");
                exit(2);
            }
            fflush(stdout);
            fflush(stderr);
            pid_t pid = fork();
            if (pid < 0) {
                perror("fork");
                exit(2);
            }
            if (pid == 0) {
                close(p[0]);
                outFd = p[1];
                for (auto& c : ch)
                    close(c.fd);
                item = it;
                bool nc = item.bound == ~0u;
                if (nc) {
                    item.expTaken = 2;
                }
                input = item.in;
                pc = new std::vector<PC>();
                pc->reserve(4096);
                asserts = new std::vector<Assertion>();
                reached = new std::vector<std::string>();
                notes = new std::vector<std::string>();
                newFns = new std::vector<void*>();
                policyCache = new std::unordered_map<void*, Policy>();
                pinSites = tracePins ? new std::map<std::string, u64>() : nullptr;
                st = Stats();
                // bigger alternate stack so that the solver can run after a crash
                size_t ss = 64 << 20;
                stack_t sg = {};
                sg.ss_sp = mmap(nullptr, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                sg.ss_size = ss;
                sigaltstack(&sg, nullptr);
                struct sigaction sa = {};
                sa.sa_handler = onSignal;
                sa.sa_flags = SA_ONSTACK | SA_NODEFER;
                for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM})
                    sigaction(s, &sa, nullptr);
                struct itimerval tv = {};
                tv.it_value.tv_sec = (long)pathTime;
                setitimer(ITIMER_REAL, &tv, nullptr);
                int dn = getenv("SYM_SLOW") ? -1 : open("/dev/null", O_WRONLY);
                if (!traceMode) {
                    dup2(dn, 1);
                    dup2(dn, 2);
                }
                recording = true;
                runCase(cr.fn);
                _exit(0);
            }
            close(p[1]);
            ++started;
            ch.push_back({pid, p[0], "", it.bound == ~0u, now(), it});
        }
        if (ch.empty())
            break;
        std::vector<struct pollfd> pf;
        for (auto& c : ch)
            pf.push_back({c.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < pf.size(); ++i) {
            Child& c = ch[i];
            bool eof = false;
            if (pf[i].revents) {
                char b[65536];
                ssize_t n = read(c.fd, b, sizeof b);
                if (n > 0)
                    c.buf.append(b, n);
                else
                    eof = true;
            }
            double lim = pathTime + 120;
            if (!eof && now() - c.start > lim) {
                kill(c.pid, SIGKILL);
                eof = true;
            }
            if (!eof && stop && now() - t0 > caseTime + 30) {
                kill(c.pid, SIGKILL);
                eof = true;
            }
            if (eof) {
                close(c.fd);
                int stt;
                waitpid(c.pid, &stt, 0);
                if (!scratchDir.empty()) {
                    std::string d = scratchDir + "/" + std::to_string(c.pid);
                    std::error_code ec;
                    if (access(d.c_str(), F_OK) == 0)
                        std::filesystem::remove_all(d, ec);
                }
                c.fd = -1;
                // parse
                const char* q = c.buf.data();
                const char* e = q + c.buf.size();
                bool complete = false;
                auto need = [&](size_t n) { return (size_t)(e - q) >= n; };
                auto g32 = [&]() {
                    u32 v = 0;
                    if (need(4)) {
                        memcpy(&v, q, 4);
                        q += 4;
                    }
                    return v;
                };
                auto g64 = [&]() {
                    u64 v = 0;
                    if (need(8)) {
                        memcpy(&v, q, 8);
                        q += 8;
                    }
                    return v;
                };
                auto gs = [&]() {
                    u32 n = g32();
                    if (!need(n))
                        n = e - q;
                    std::string s(q, n);
                    q += n;
                    return s;
                };
                bool gotOutcome = false;
                while (q < e) {
                    char k = *q++;
                    if (k == 'O') {
                        gotOutcome = true;
                        uint8_t o = *q++;
                        std::string m = gs(), in = gs(), nm = gs();
                        T.paths++;
                        if (o == 0)
                            T.ok++;
                        else if (o == 1)
                            T.assumed++;
                        else if (o == 4)
                            T.timeouts++;
                        else if (o == 5)
                            T.limits++;
                        else {
                            T.viol.push_back({m, in, nm, o});
                            if (T.viol.size() >= maxViol)
                                stop = true;
                        }
                        if (o == 0 && T.samples.size() < 5)
                            T.samples.push_back(in);
                    }
                    else if (k == 'N') {
                        Item it;
                        it.bound = g32();
                        u32 n = g32();
                        for (u32 j = 0; j < n; ++j)
                            it.excl.push_back(g64());
                        it.prefixHash = g64();
                        it.expSite = g32();
                        it.expTaken = *q++;
                        std::string s = gs();
                        it.in.assign(s.begin(), s.end());
                        it.dbg = gs();
                        if (!c.noChildren)
                            work.push_back(it);
                    }
                    else if (k == 'R')
                        T.reach[gs()]++;
                    else if (k == 'T')
                        T.notes[gs()]++;
                    else if (k == 'F')
                        usedFns->insert((void*)g64());
                    else if (k == 'P') {
                        std::string s = gs();
                        T.pins[s] += g64();
                    }
                    else if (k == 'S') {
                        Stats s;
                        memcpy((void*)&s, q, sizeof s);
                        q += sizeof s;
                        u64* d = (u64*)&T.s;
                        u64* x = (u64*)&s;
                        for (size_t j = 0; j < sizeof(Stats) / 8; ++j)
                            d[j] += x[j];
                    }
                    else if (k == 'E')
                        complete = true;
                    else
                        break;
                }
                if (!complete) {
                    T.lost++;
                    if (!gotOutcome) {
                        T.paths++;
                        if (traceMode)
                            fprintf(stderr, "lost child status=%x\n", stt);
                    }
                }
            }
        }
        std::vector<Child> nc;
        for (auto& c : ch)
            if (c.fd >= 0)
                nc.push_back(std::move(c));
        ch.swap(nc);
    }
    T.wall = now() - t0;
    T.left = work.size();
    T.exhaustive = work.empty() && !stop && !T.lost && !T.timeouts && !T.limits && !T.s.unknown && !T.s.pinlimit && !T.s.diverged &&
                   !T.s.mismatch;
    return T;
}

int main(int argc, char** argv) {
    std::vector<std::string> want;
    std::string out, replay;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--case")
            want.push_back(nx());
        else if (a == "--jobs")
            jobs = atoi(nx().c_str());
        else if (a == "--time")
            caseTime = atof(nx().c_str());
        else if (a == "--max-paths")
            maxPaths = atoll(nx().c_str());
        else if (a == "--path-time")
            pathTime = atof(nx().c_str());
        else if (a == "--query-ms")
            queryMs = atoi(nx().c_str());
        else if (a == "--max-pin")
            maxPin = atoi(nx().c_str());
        else if (a == "--seed")
            seed = atoll(nx().c_str()) + 1;
        else if (a == "--out")
            out = nx();
        else if (a == "--pins")
            tracePins = true;
        else if (a == "--trace")
            traceMode = getenv("SYM_TRACE2") ? 2 : 1;
        else if (a == "--replay")
            replay = nx();
        else if (a == "--list") {
            for (auto& c : cases())
                printf("%s\t%s\n", c.name, c.bounds);
            return 0;
        }
    }
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (512ul << 20) : rl.rlim_max;
    setrlimit(RLIMIT_STACK, &rl);
    buildInstrSet();
    usedFns = new FnSet();
    makeScratch();
    sym_setup();
    if (!replay.empty()) {
        FILE* f = fopen(replay.c_str(), "r");
        char name[256];
        static char hx[1 << 16];
        if (!f || fscanf(f, "%255s %65535s", name, hx) < 1)
            return 2;
        for (size_t i = 0; hx[i] && hx[i + 1]; i += 2) {
            unsigned v;
            sscanf(hx + i, "%2x", &v);
            input.push_back(v);
        }
        for (auto& c : cases())
            if (!strcmp(c.name, name))
                runCase(c.fn);
        return 2;
    }
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    z3 = Z3_mk_context(cfg);
    z3s = Z3_mk_solver_for_logic(z3, Z3_mk_string_symbol(z3, "QF_BV"));
    Z3_solver_inc_ref(z3, z3s);
    Z3_params ps = Z3_mk_params(z3);
    Z3_params_inc_ref(z3, ps);
    Z3_params_set_uint(z3, ps, Z3_mk_string_symbol(z3, "timeout"), queryMs);
    Z3_solver_set_params(z3, z3s, ps);
    signal(SIGPIPE, SIG_IGN);

    std::string js = "{\"cases\":[";
    bool first = true;
    int rc = 0;
    for (auto& c : cases()) {
        bool sel = want.empty();
        for (auto& w : want)
            if (w == c.name)
                sel = true;
        if (!sel)
            continue;
        Total T = explore(c);
        fprintf(stderr,
                "[%s] paths=%lu ok=%lu assume=%lu viol=%zu timeouts=%lu lost=%lu left=%zu branches=%lu pins=%lu(addr %lu) queries=%lu "
                "(sat %lu unsat %lu unk %lu) assertq=%lu/%lu stale=%lu mism=%lu div=%lu solver=%.1fs wall=%.1fs exhaustive=%d\n",
                c.name, T.paths, T.ok, T.assumed, T.viol.size(), T.timeouts, T.lost, T.left, T.s.branches, T.s.pins, T.s.addrpins, T.s.queries,
                T.s.sat, T.s.unsat, T.s.unknown, T.s.assertunsat, T.s.assertq, T.s.stale, T.s.mismatch, T.s.diverged, T.s.solver_us * 1e-6,
                T.wall, (int)T.exhaustive);
        for (auto& kv : T.pins)
            fprintf(stderr, "   pin %s %lu\n", kv.first.c_str(), kv.second);
        for (auto& kv : T.notes)
            fprintf(stderr, "   note %s %lu\n", kv.first.c_str(), kv.second);
        for (auto& v : T.viol)
            fprintf(stderr, "   VIOL %s :: %s\n", v.msg.c_str(), v.names.c_str());
        if (!first)
            js += ",";
        first = false;
        char b[2048];
        snprintf(b, sizeof b,
                 "\n{\"case\":\"%s\",\"bounds\":%s,\"paths\":%lu,\"paths_completed\":%lu,\"paths_infeasible_assume\":%lu,\"timeouts\":%lu,\"limits\":%lu,"
                 "\"lost\":%lu,\"left\":%zu,\"branches\":%lu,\"pins\":%lu,\"pinlimit\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,"
                 "\"asserts\":%lu,\"assert_queries\":%lu,\"assert_unsat\":%lu,\"stale\":%lu,\"mismatch\":%lu,\"diverged\":%lu,\"exprs\":%lu,"
                 "\"solver_s\":%.3f,\"wall_s\":%.3f,\"exhaustive\":%s",
                 c.name, jstr(c.bounds).c_str(), T.paths, T.ok, T.assumed, T.timeouts, T.limits, T.lost, T.left, T.s.branches, T.s.pins,
                 T.s.pinlimit, T.s.queries, T.s.sat, T.s.unsat, T.s.unknown, T.s.asserts, T.s.assertq, T.s.assertunsat, T.s.stale,
                 T.s.mismatch, T.s.diverged, T.s.exprs, T.s.solver_us * 1e-6, T.wall, T.exhaustive ? "true" : "false");
        js += b;
        js += ",\"reach\":{";
        bool f2 = true;
        for (auto& kv : T.reach) {
            js += (f2 ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second);
            f2 = false;
        }
        js += "},\"samples\":[";
        f2 = true;
        for (auto& s : T.samples) {
            js += (f2 ? "" : ",") + jstr(hex(s));
            f2 = false;
        }
        js += "],\"violations\":[";
        f2 = true;
        for (auto& v : T.viol) {
            js += std::string(f2 ? "" : ",") + "{\"msg\":" + jstr(v.msg) + ",\"input\":" + jstr(hex(v.in)) + ",\"vars\":" + jstr(v.names) + "}";
            f2 = false;
        }
        js += "]}";
        if (!T.viol.empty())
            rc = 1;
    }
    js += "],\"functions\":[";
    bool f3 = true;
    for (void* p : usedFns->tab)
        if (p) {
            Dl_info di;
            if (dladdr(p, &di) && di.dli_sname && strstr(di.dli_sname, "4fdb5")) {
                js += (f3 ? "" : ",") + jstr(di.dli_sname);
                f3 = false;
            }
            else if (dladdr(p, &di) && di.dli_sname && strstr(di.dli_sname, "chunked_data_view")) {
                js += (f3 ? "" : ",") + jstr(di.dli_sname);
                f3 = false;
            }
        }
    js += "],\"functions_total\":" + std::to_string(usedFns->n) + "}\n";
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fwrite(js.data(), 1, js.size(), f);
        fclose(f);
    }
    return rc;
}
