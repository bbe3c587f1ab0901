// Child-side tracing runtime: symbolic shadow memory, expression DAG, path log,
// interposed libc memory functions, heap bounds oracle.
#include "symrt.h"
#include <sys/mman.h>
#include <unistd.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <errno.h>
#include <dlfcn.h>
#include <math.h>

#define API extern "C" __attribute__((visibility("default")))
#define TLS __thread __attribute__((tls_model("initial-exec")))

API TLS uint32_t __sym_argsh[64];
API TLS uint64_t __sym_argptr[64];
API TLS void* __sym_callee;
API TLS uint32_t __sym_retsh[16];
API TLS void* __sym_retfn;
TLS uint32_t __sym_argsh[64];
TLS uint64_t __sym_argptr[64];
TLS void* __sym_callee;
TLS uint32_t __sym_retsh[16];
TLS void* __sym_retfn;

Shared* g_sh;
Global* g_gl;
static volatile int active = 0;
static int checkMem = 1;

static void rt_exit(int st) {
    g_sh->status = st;
    _exit(0);
}
static void rt_violation(const char* kind, const char* msg) {
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s%s", kind, msg);
    rt_exit(ST_VIOL);
}
static void rt_limit(const char* msg) {
    snprintf(g_sh->msg, sizeof g_sh->msg, "LIMIT: %s", msg);
    rt_exit(ST_LIMIT);
}

// ---------------------------------------------------------------- evaluation
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static inline double asd(uint64_t v) { double d; __builtin_memcpy(&d, &v, 8); return d; }
static inline float asf(uint64_t v) { uint32_t x = v; float d; __builtin_memcpy(&d, &x, 4); return d; }
static inline uint64_t ofd(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return v; }
static inline uint64_t off_(float d) { uint32_t v; __builtin_memcpy(&v, &d, 4); return v; }
static inline bool nan64(uint64_t v) { return (v & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static inline bool nan32(uint64_t v) { return (v & 0x7fffffffull) > 0x7f800000ull; }

API uint64_t sym_eval(uint8_t op, uint8_t w, uint64_t imm, uint8_t wa, uint64_t a, uint8_t wb, uint64_t b, uint64_t c) {
    uint64_t m = wmask(w);
    switch (op) {
        case O_ADD: return (a + b) & m;
        case O_SUB: return (a - b) & m;
        case O_MUL: return (a * b) & m;
        case O_UDIV: return b ? (a / b) & m : m;
        case O_UREM: return b ? (a % b) & m : a;
        case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
        case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case O_AND: return a & b;
        case O_OR: return a | b;
        case O_XOR: return a ^ b;
        case O_SHL: return b >= w ? 0 : (a << b) & m;
        case O_LSHR: return b >= w ? 0 : (a >> b);
        case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
        case O_EQ: return a == b;
        case O_ULT: return a < b;
        case O_ULE: return a <= b;
        case O_SLT: return sx(a, wa) < sx(b, wa);
        case O_SLE: return sx(a, wa) <= sx(b, wa);
        case O_NOT: return (~a) & 1;
        case O_ITE: return a ? b : c;
        case O_CONCAT: return (a << wb) | b;
        case O_EXTRACT: return (a >> imm) & m;
        case O_ZEXT: return a;
        case O_SEXT: return (uint64_t)sx(a, wa) & m;
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV:
            if (w == 64) {
                if (nan64(a)) return a | (1ull << 51);
                if (nan64(b)) return b | (1ull << 51);
                double x = asd(a), y = asd(b), r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y;
                return r != r ? 0xfff8000000000000ull : ofd(r);
            } else {
                if (nan32(a)) return a | (1u << 22);
                if (nan32(b)) return b | (1u << 22);
                float x = asf(a), y = asf(b), r = op == O_FADD ? x + y : op == O_FSUB ? x - y : op == O_FMUL ? x * y : x / y;
                return r != r ? 0xffc00000u : off_(r);
            }
        case O_FEQ: return wa == 64 ? asd(a) == asd(b) : asf(a) == asf(b);
        case O_FLT: return wa == 64 ? asd(a) < asd(b) : asf(a) < asf(b);
        case O_FLE: return wa == 64 ? asd(a) <= asd(b) : asf(a) <= asf(b);
        case O_FISNAN: return wa == 64 ? nan64(a) : nan32(a);
        case O_FPEXT:
            if (nan32(a)) return ((a >> 31) << 63) | 0x7ff8000000000000ull | ((a & 0x7fffff) << 29);
            return ofd((double)asf(a));
        case O_FPTRUNC:
            if (nan64(a)) return ((a >> 63) << 31) | 0x7fc00000u | ((a >> 29) & 0x3fffff);
            return off_((float)asd(a));
        case O_SITOFP: return w == 64 ? ofd((double)sx(a, wa)) : off_((float)sx(a, wa));
        case O_UITOFP: return w == 64 ? ofd((double)a) : off_((float)a);
        case O_FPTOSI: {
            double d = wa == 64 ? asd(a) : (double)asf(a);
            if (w == 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 1ull << 63; return (uint64_t)(int64_t)d; }
            // 32-bit and narrower: cvttsd2si r32
            if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & m;
            return (uint64_t)(uint32_t)(int32_t)d & m;
        }
        case O_FPTOUI: {
            double d = wa == 64 ? asd(a) : (double)asf(a);
            if (w <= 16) { if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ull & m; return (uint64_t)(uint32_t)(int32_t)d & m; }
            if (w == 32) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0; return (uint64_t)(int64_t)d & m; }
            return (uint64_t)d;
        }
    }
    return 0;
}

// ---------------------------------------------------------------- nodes
static const uint32_t HT = 1u << 21;
static uint32_t* ht;  // private

static inline Node& N(uint32_t i) { return g_sh->nodes[i]; }
static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

static uint32_t mk(uint8_t op, uint8_t w, uint32_t a, uint32_t b, uint32_t c, uint64_t imm, uint64_t val) {
    uint64_t h = mix(mix(mix(op * 131 + w, a ? N(a).hash : 0), b ? N(b).hash : 0), c ? N(c).hash : 0);
    h = mix(h, imm);
    uint32_t i = h & (HT - 1);
    while (ht[i]) {
        Node& n = N(ht[i]);
        if (n.hash == h && n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.imm == imm) return ht[i];
        i = (i + 1) & (HT - 1);
    }
    uint32_t id = ++g_sh->nnodes;
    if (id >= MAXNODES - 1 || id > HT * 3 / 4) rt_limit("expression arena full");
    Node& n = N(id);
    n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.imm = imm; n.val = val & wmask(w); n.hash = h; n.flags = 0;
    ht[i] = id;
    return id;
}
static uint32_t K(uint8_t w, uint64_t v) { v &= wmask(w); return mk(O_CONST, w, 0, 0, 0, v, v); }
static inline bool isK(uint32_t n) { return N(n).op == O_CONST; }
static inline uint32_t orK(uint32_t n, uint8_t w, uint64_t v) { return n ? n : K(w, v); }
static uint32_t ev(uint8_t op, uint8_t w, uint32_t a, uint32_t b, uint32_t c, uint64_t imm) {
    uint64_t v = sym_eval(op, w, imm, a ? N(a).w : 0, a ? N(a).val : 0, b ? N(b).w : 0, b ? N(b).val : 0, c ? N(c).val : 0);
    bool allk = (!a || isK(a)) && (!b || isK(b)) && (!c || isK(c));
    if (allk) return K(w, v);
    return mk(op, w, a, b, c, imm, v);
}

static uint32_t nExtract(uint32_t x, unsigned lo, unsigned w);
static uint32_t nZext(uint32_t x, unsigned w);
static uint32_t nSext(uint32_t x, unsigned w);
static uint32_t nConcat(uint32_t a, uint32_t b);
static uint32_t nIte(uint32_t c, uint32_t a, uint32_t b);
static uint32_t nBin(uint8_t op, uint32_t a, uint32_t b);
static uint32_t nCmp(uint8_t op, uint32_t a, uint32_t b);
static uint32_t nNot(uint32_t a);

static uint32_t nExtract(uint32_t x, unsigned lo, unsigned w) {
    Node n = N(x);
    if (lo == 0 && w == n.w) return x;
    if (n.op == O_CONST) return K(w, n.val >> lo);
    if (n.op == O_EXTRACT) return nExtract(n.a, n.imm + lo, w);
    if (n.op == O_CONCAT) {
        unsigned wb = N(n.b).w;
        if (lo + w <= wb) return nExtract(n.b, lo, w);
        if (lo >= wb) return nExtract(n.a, lo - wb, w);
        return nConcat(nExtract(n.a, 0, lo + w - wb), nExtract(n.b, lo, wb - lo));
    }
    if (n.op == O_ZEXT || n.op == O_SEXT) {
        unsigned wa = N(n.a).w;
        if (lo + w <= wa) return nExtract(n.a, lo, w);
        if (n.op == O_ZEXT) {
            if (lo >= wa) return K(w, 0);
            return nZext(nExtract(n.a, lo, wa - lo), w);
        }
        if (lo < wa) return nSext(nExtract(n.a, lo, wa - lo), w);
    }
    if (n.op == O_ITE) {
        Node p = N(n.b), q = N(n.c);
        if (p.op == O_CONST && q.op == O_CONST) {
            uint64_t x1 = (p.val >> lo) & wmask(w), x2 = (q.val >> lo) & wmask(w);
            if (x1 == x2) return K(w, x1);
        }
        if (lo == 0 && w >= 8 && w < n.w && (p.op == O_ZEXT || p.op == O_SEXT || p.op == O_CONST) && (q.op == O_ZEXT || q.op == O_SEXT || q.op == O_CONST))
            return nIte(n.a, nExtract(n.b, lo, w), nExtract(n.c, lo, w));
    }
    if (n.op == O_AND || n.op == O_OR || n.op == O_XOR) {
        if (N(n.b).op == O_CONST) {
            uint64_t m = (N(n.b).val >> lo) & wmask(w);
            if (n.op == O_AND && m == 0) return K(w, 0);
            if (n.op == O_AND && m == wmask(w)) return nExtract(n.a, lo, w);
            if (n.op != O_AND && m == 0) return nExtract(n.a, lo, w);
        }
        if (lo == 0 && w == 1) return nBin(n.op, nExtract(n.a, 0, 1), nExtract(n.b, 0, 1));
    }
    if (lo == 0 && (n.op == O_ADD || n.op == O_SUB) && n.w > w && w >= 8) return nBin(n.op, nExtract(n.a, 0, w), nExtract(n.b, 0, w));
    return ev(O_EXTRACT, w, x, 0, 0, lo);
}
static uint32_t nConcat(uint32_t a, uint32_t b) {
    Node x = N(a), y = N(b);
    unsigned w = x.w + y.w;
    if (x.op == O_CONST && y.op == O_CONST) return K(w, (x.val << y.w) | y.val);
    if (x.op == O_CONST && x.val == 0) return nZext(b, w);
    if (x.op == O_EXTRACT && y.op == O_EXTRACT && x.a == y.a && x.imm == y.imm + y.w) return nExtract(x.a, y.imm, w);
    if (x.op == O_EXTRACT && x.a == b && x.imm == y.w) return nExtract(x.a, 0, w);
    if (y.op == O_EXTRACT && N(y.a).op == O_ZEXT && y.imm + y.w >= N(N(y.a).a).w && x.op == O_CONST && x.val == 0) return nZext(b, w);
    if (x.op == O_CONCAT) {
        Node z = N(x.b);
        if (z.op == O_CONST && y.op == O_CONST) return nConcat(x.a, K(z.w + y.w, (z.val << y.w) | y.val));
        if (z.op == O_EXTRACT && y.op == O_EXTRACT && z.a == y.a && z.imm == y.imm + y.w) return nConcat(x.a, nExtract(z.a, y.imm, z.w + y.w));
    }
    // sign-extension pieces: extract(sext(q)) above q
    if (x.op == O_EXTRACT && N(x.a).op == O_SEXT && N(x.a).a == b && x.imm == y.w) return nExtract(x.a, 0, w);
    if (x.op == O_SEXT) return nSext(nConcat(x.a, b), w);
    if (x.op == O_EXTRACT && x.imm >= y.w && nExtract(x.a, x.imm - y.w, y.w) == b) return nExtract(x.a, x.imm - y.w, w);
    return ev(O_CONCAT, w, a, b, 0, 0);
}
static uint32_t nZext(uint32_t x, unsigned w) {
    Node n = N(x);
    if (n.w == w) return x;
    if (n.op == O_CONST) return K(w, n.val);
    if (n.op == O_ZEXT) return nZext(n.a, w);
    return ev(O_ZEXT, w, x, 0, 0, 0);
}
static uint32_t nSext(uint32_t x, unsigned w) {
    Node n = N(x);
    if (n.w == w) return x;
    if (n.op == O_CONST) return K(w, (uint64_t)sx(n.val, n.w));
    if (n.op == O_ZEXT) return nZext(n.a, w);
    if (n.op == O_SEXT) return nSext(n.a, w);
    return ev(O_SEXT, w, x, 0, 0, 0);
}
static uint32_t nNot(uint32_t a) {
    Node n = N(a);
    if (n.op == O_CONST) return K(1, !n.val);
    if (n.op == O_NOT) return n.a;
    return ev(O_NOT, 1, a, 0, 0, 0);
}
// Integer view of an exactly converted FP value: returns int node (signed) or 0
static uint32_t intView(uint32_t x) {
    Node n = N(x);
    unsigned lim = n.w == 64 ? 54 : 25;
    if (n.op == O_SITOFP && N(n.a).w <= lim) return n.a;
    if (n.op == O_CONST) {
        double d = n.w == 64 ? asd(n.val) : (double)asf(n.val);
        if (d != d) return 0;
        double L = n.w == 64 ? 4503599627370496.0 : 8388608.0;
        if (!(d > -L && d < L)) return 0;
        if (d != (double)(int64_t)d) return 0;
        if (d == 0 && signbit(d)) return 0;
        int64_t v = (int64_t)d;
        unsigned w = 2;
        while (sx((uint64_t)v & wmask(w), w) != v) w++;
        return K(w, (uint64_t)v);
    }
    return 0;
}
static uint32_t nSI(uint32_t i, unsigned w) {
    if (isK(i)) return K(w, w == 64 ? ofd((double)sx(N(i).val, N(i).w)) : off_((float)sx(N(i).val, N(i).w)));
    // strip redundant sign extension
    Node n = N(i);
    if (n.op == O_SEXT) return nSI(n.a, w);
    return ev(O_SITOFP, w, i, 0, 0, 0);
}
static uint32_t nIte(uint32_t c, uint32_t a, uint32_t b) {
    if (isK(c)) return N(c).val ? a : b;
    if (a == b) return a;
    Node x = N(a), y = N(b), z = N(c);
    if (z.op == O_NOT) return nIte(z.a, b, a);
    if (x.w == 1 && x.op == O_CONST && y.op == O_CONST) return x.val ? c : nNot(c);
    if (x.w == 1 && x.op == O_CONST) return x.val ? nBin(O_OR, c, b) : nBin(O_AND, nNot(c), b);
    if (y.w == 1 && y.op == O_CONST) return y.val ? nBin(O_OR, nNot(c), a) : nBin(O_AND, c, a);
    if (x.op == O_SITOFP || y.op == O_SITOFP) {
        uint32_t i = intView(a), j = intView(b);
        if (i && j) {
            unsigned w = N(i).w > N(j).w ? N(i).w : N(j).w;
            return nSI(nIte(c, nSext(i, w), nSext(j, w)), x.w);
        }
    }
    if (x.op == O_ZEXT && y.op == O_ZEXT && N(x.a).w == N(y.a).w) return nZext(nIte(c, x.a, y.a), x.w);
    if (x.op == O_ZEXT && y.op == O_CONST && y.val <= wmask(N(x.a).w)) return nZext(nIte(c, x.a, K(N(x.a).w, y.val)), x.w);
    if (y.op == O_ZEXT && x.op == O_CONST && x.val <= wmask(N(y.a).w)) return nZext(nIte(c, K(N(y.a).w, x.val), y.a), x.w);
    return ev(O_ITE, x.w, c, a, b, 0);
}
static bool commut(uint8_t op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR; }
static bool isMask(uint64_t v, unsigned& k) { k = 0; while (v & 1) { v >>= 1; k++; } return v == 0; }

static uint32_t nBin(uint8_t op, uint32_t a, uint32_t b) {
    if (isK(a) && isK(b)) return ev(op, N(a).w, a, b, 0, 0);
    if (commut(op) && isK(a)) { uint32_t t = a; a = b; b = t; }
    Node x = N(a), y = N(b);
    unsigned w = x.w;
    if (y.op == O_CONST) {
        uint64_t v = y.val;
        switch (op) {
            case O_ADD:
                if (v == 0) return a;
                if (x.op == O_ADD && isK(x.b)) return nBin(O_ADD, x.a, K(w, N(x.b).val + v));
                break;
            case O_SUB: return nBin(O_ADD, a, K(w, 0 - v));
            case O_MUL:
                if (v == 0) return K(w, 0);
                if (v == 1) return a;
                if (v && !(v & (v - 1))) return nBin(O_SHL, a, K(w, __builtin_ctzll(v)));
                break;
            case O_UDIV:
                if (v == 1) return a;
                if (v && !(v & (v - 1))) return nBin(O_LSHR, a, K(w, __builtin_ctzll(v)));
                break;
            case O_UREM:
                if (v && !(v & (v - 1))) return nBin(O_AND, a, K(w, v - 1));
                break;
            case O_AND: {
                if (v == 0) return K(w, 0);
                if (v == wmask(w)) return a;
                unsigned k;
                if (isMask(v, k)) return nZext(nExtract(a, 0, k), w);
                if (x.op == O_ZEXT) { unsigned wa = N(x.a).w; return nZext(nBin(O_AND, x.a, K(wa, v)), w); }
                if (x.op == O_AND && isK(x.b)) return nBin(O_AND, x.a, K(w, N(x.b).val & v));
                break;
            }
            case O_OR:
                if (v == 0) return a;
                if (v == wmask(w)) return b;
                break;
            case O_XOR:
                if (v == 0) return a;
                if (w == 1) return nNot(a);
                if (x.op == O_ZEXT && v <= wmask(N(x.a).w)) return nZext(nBin(O_XOR, x.a, K(N(x.a).w, v)), w);
                break;
            case O_SHL:
                if (v == 0) return a;
                if (v >= w) return K(w, 0);
                return nConcat(nExtract(a, 0, w - v), K(v, 0));
            case O_LSHR:
                if (v == 0) return a;
                if (v >= w) return K(w, 0);
                return nZext(nExtract(a, v, w - v), w);
            case O_ASHR:
                if (v == 0) return a;
                if (v >= w) v = w - 1;
                return nSext(nExtract(a, v, w - v), w);
        }
    }
    if (x.op == O_CONST && op == O_SUB && 0) {}
    if (a == b) {
        if (op == O_SUB || op == O_XOR) return K(w, 0);
        if (op == O_AND || op == O_OR) return a;
    }
    if (op == O_OR || op == O_ADD || op == O_XOR) {
        for (int s = 0; s < 2; s++) {
            Node& p = s ? y : x; uint32_t qn = s ? a : b; Node& q = s ? x : y;
            if (p.op == O_CONCAT && isK(p.b) && N(p.b).val == 0) {
                unsigned k = N(p.b).w;
                if (q.op == O_ZEXT && N(q.a).w <= k) return nConcat(p.a, nZext(q.a, k));
            }
            // zext(concat(a,0k)) | zext(b)
            if (p.op == O_ZEXT && N(p.a).op == O_CONCAT && isK(N(p.a).b) && N(N(p.a).b).val == 0) {
                unsigned k = N(N(p.a).b).w;
                if (q.op == O_ZEXT && N(q.a).w <= k) return nZext(nConcat(N(p.a).a, nZext(q.a, k)), w);
                if (q.op == O_CONCAT && isK(q.b) && N(q.b).val == 0 && N(q.b).w >= N(p.a).w)
                    return nConcat(q.a, nZext(p.a, N(q.b).w));
            }
            (void)qn;
        }
    }
    if (w == 1) {
        if (op == O_ADD || op == O_SUB) op = O_XOR;
        if (op == O_MUL) op = O_AND;
    }
    if (commut(op) && a > b) { uint32_t t = a; a = b; b = t; if (isK(a)) { t = a; a = b; b = t; } }
    return ev(op, w, a, b, 0, 0);
}
static uint32_t nCmp(uint8_t op, uint32_t a, uint32_t b) {
    if (isK(a) && isK(b)) return ev(op, 1, a, b, 0, 0);
    if (op == O_EQ && isK(a)) { uint32_t t = a; a = b; b = t; }
    Node x = N(a), y = N(b);
    unsigned w = x.w;
    if (a == b) return K(1, op == O_EQ || op == O_ULE || op == O_SLE);
    if (op == O_EQ) {
        if (y.op == O_CONST) {
            if (w == 1) return y.val ? a : nNot(a);
            if (x.op == O_ZEXT) { unsigned wa = N(x.a).w; return y.val > wmask(wa) ? K(1, 0) : nCmp(O_EQ, x.a, K(wa, y.val)); }
            if (x.op == O_SEXT) { unsigned wa = N(x.a).w; return (uint64_t)(sx(y.val & wmask(wa), wa)) != (uint64_t)sx(y.val, w) ? K(1, 0) : nCmp(O_EQ, x.a, K(wa, y.val)); }
            if (x.op == O_ITE && isK(x.b) && isK(x.c)) {
                bool p = N(x.b).val == y.val, q = N(x.c).val == y.val;
                if (p && !q) return x.a;
                if (!p && q) return nNot(x.a);
                if (!p && !q) return K(1, 0);
                return K(1, 1);
            }
            if (x.op == O_ITE && (isK(x.b) || isK(x.c))) return nIte(x.a, nCmp(O_EQ, x.b, b), nCmp(O_EQ, x.c, b));
            if (x.op == O_ADD && isK(x.b)) return nCmp(O_EQ, x.a, K(w, y.val - N(x.b).val));
            if (x.op == O_XOR && isK(x.b)) return nCmp(O_EQ, x.a, K(w, y.val ^ N(x.b).val));
            if (x.op == O_CONCAT) {
                unsigned wb = N(x.b).w;
                if (isK(x.b)) return N(x.b).val != (y.val & wmask(wb)) ? K(1, 0) : nCmp(O_EQ, x.a, K(w - wb, y.val >> wb));
            }
        }
        if (x.op == O_ZEXT && y.op == O_ZEXT && N(x.a).w == N(y.a).w) return nCmp(O_EQ, x.a, y.a);
        if (x.op == O_SEXT && y.op == O_SEXT && N(x.a).w == N(y.a).w) return nCmp(O_EQ, x.a, y.a);
        if (x.op == O_SITOFP && y.op == O_SITOFP) {
            uint32_t i = intView(a), j = intView(b);
            if (i && j) { unsigned ww = N(i).w > N(j).w ? N(i).w : N(j).w; return nCmp(O_EQ, nSext(i, ww), nSext(j, ww)); }
        }
        if (x.op == O_SITOFP && y.op == O_CONST) {
            uint32_t i = intView(a), j = intView(b);
            if (i && !j) return K(1, 0);
            if (i && j) { unsigned ww = N(i).w > N(j).w ? N(i).w : N(j).w; return nCmp(O_EQ, nSext(i, ww), nSext(j, ww)); }
        }
        if (x.op == O_FPEXT && y.op == O_FPEXT) {
            // injective on non-NaN; on NaN up to the quiet bit: leave to the solver
        }
        if (a > b && !isK(b)) { uint32_t t = a; a = b; b = t; }
    }
    if (op == O_ULT || op == O_ULE) {
        if (x.op == O_ZEXT && y.op == O_ZEXT && N(x.a).w == N(y.a).w) return nCmp(op, x.a, y.a);
        if (x.op == O_ZEXT && y.op == O_CONST) { unsigned wa = N(x.a).w; return y.val > wmask(wa) ? K(1, 1) : nCmp(op, x.a, K(wa, y.val)); }
        if (y.op == O_ZEXT && x.op == O_CONST) { unsigned wa = N(y.a).w; return x.val > wmask(wa) ? K(1, 0) : nCmp(op, K(wa, x.val), y.a); }
        if (op == O_ULT && y.op == O_CONST && y.val == 0) return K(1, 0);
        if (op == O_ULE && x.op == O_CONST && x.val == 0) return K(1, 1);
        if (op == O_ULE && y.op == O_CONST && y.val == wmask(w)) return K(1, 1);
        if (op == O_ULT && y.op == O_CONST && y.val == 1) return nCmp(O_EQ, a, K(w, 0));
    }
    if (op == O_SLT || op == O_SLE) {
        if (x.op == O_SEXT && y.op == O_SEXT && N(x.a).w == N(y.a).w) return nCmp(op, x.a, y.a);
        if (x.op == O_SEXT && y.op == O_CONST) {
            unsigned wa = N(x.a).w; int64_t v = sx(y.val, w), lo = -(1ll << (wa - 1)), hi = (1ll << (wa - 1)) - 1;
            if (v >= lo && v <= hi) return nCmp(op, x.a, K(wa, v));
            return K(1, v > hi);
        }
        if (y.op == O_SEXT && x.op == O_CONST) {
            unsigned wa = N(y.a).w; int64_t v = sx(x.val, w), lo = -(1ll << (wa - 1)), hi = (1ll << (wa - 1)) - 1;
            if (v >= lo && v <= hi) return nCmp(op, K(wa, v), y.a);
            return K(1, v < lo);
        }
        if (x.op == O_ZEXT && y.op == O_CONST) { int64_t v = sx(y.val, w); if (v < 0) return K(1, 0); return nCmp(op == O_SLT ? O_ULT : O_ULE, a, b); }
        if (y.op == O_ZEXT && x.op == O_CONST) { int64_t v = sx(x.val, w); if (v < 0) return K(1, 1); return nCmp(op == O_SLT ? O_ULT : O_ULE, a, b); }
        if (x.op == O_ZEXT && y.op == O_ZEXT) return nCmp(op == O_SLT ? O_ULT : O_ULE, a, b);
    }
    return ev(op, 1, a, b, 0, 0);
}
// ---- floating point node constructors
static uint32_t nIsNan(uint32_t a) {
    Node n = N(a);
    if (n.op == O_SITOFP || n.op == O_UITOFP) return K(1, 0);
    if (n.op == O_FPEXT || n.op == O_FPTRUNC) return nIsNan(n.a);
    if (n.op == O_ITE) return nIte(n.a, nIsNan(n.b), nIsNan(n.c));
    return ev(O_FISNAN, 1, a, 0, 0, 0);
}
static uint32_t nFCmp(uint8_t op, uint32_t a, uint32_t b) {  // FEQ/FLT/FLE ordered
    if (isK(a) && isK(b)) return ev(op, 1, a, b, 0, 0);
    Node x = N(a), y = N(b);
    uint32_t i = intView(a), j = intView(b);
    if (i && j) {
        unsigned w = N(i).w > N(j).w ? N(i).w : N(j).w;
        return nCmp(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, nSext(i, w), nSext(j, w));
    }
    if (i && y.op == O_CONST && x.op == O_SITOFP) {
        double d = y.w == 64 ? asd(y.val) : (double)asf(y.val);
        if (d != d) return K(1, 0);
        if (op == O_FEQ && d != floor(d)) return K(1, 0);
        double L = x.w == 64 ? 4503599627370496.0 : 8388608.0;
        if (d >= L) return K(1, op != O_FEQ);
        if (d <= -L) return K(1, 0);
        if (d != floor(d)) { uint32_t f = K(64, x.w == 64 ? ofd(floor(d)) : 0); if (x.w == 64) return nFCmp(O_FLE, a, f); }
    }
    if (j && x.op == O_CONST && y.op == O_SITOFP) {
        double d = x.w == 64 ? asd(x.val) : (double)asf(x.val);
        if (d != d) return K(1, 0);
        if (op == O_FEQ && d != floor(d)) return K(1, 0);
        double L = x.w == 64 ? 4503599627370496.0 : 8388608.0;
        if (d >= L) return K(1, 0);
        if (d <= -L) return K(1, op != O_FEQ);
        if (d != floor(d) && x.w == 64) return nFCmp(O_FLE, K(64, ofd(ceil(d))), b);
    }
    if (x.op == O_FPEXT && y.op == O_FPEXT) return nFCmp(op, x.a, y.a);
    if (x.op == O_FPEXT && y.op == O_CONST) {
        double d = asd(y.val); float f = (float)d;
        if (d != d) return K(1, 0);
        if ((double)f == d) return nFCmp(op, x.a, K(32, off_(f)));
        if (op == O_FEQ) return K(1, 0);
    }
    if (y.op == O_FPEXT && x.op == O_CONST) {
        double d = asd(x.val); float f = (float)d;
        if (d != d) return K(1, 0);
        if ((double)f == d) return nFCmp(op, K(32, off_(f)), y.a);
        if (op == O_FEQ) return K(1, 0);
    }
    if (a == b) return op == O_FLT ? K(1, 0) : nNot(nIsNan(a));
    if (y.op == O_CONST && (y.w == 64 ? nan64(y.val) : nan32(y.val))) return K(1, 0);
    if (x.op == O_CONST && (x.w == 64 ? nan64(x.val) : nan32(x.val))) return K(1, 0);
    if (op == O_FEQ && isK(a)) { uint32_t t = a; a = b; b = t; x = N(a); y = N(b); }
    if (op == O_FEQ && isK(b)) {
        uint64_t v = y.val & (y.w == 64 ? 0x7fffffffffffffffull : 0x7fffffffull);
        if (v != 0) return nCmp(O_EQ, a, b);  // equal to a non-zero, non-NaN constant iff bit-equal
    }
    if (op == O_FEQ && a > b && !isK(b)) { uint32_t t = a; a = b; b = t; }
    return ev(op, 1, a, b, 0, 0);
}
static uint32_t nFBin(uint8_t op, uint32_t a, uint32_t b) {
    if (isK(a) && isK(b)) return ev(op, N(a).w, a, b, 0, 0);
    unsigned w = N(a).w;
    uint32_t i = intView(a), j = intView(b);
    if (i && j && (op == O_FADD || op == O_FSUB)) {
        unsigned ww = (N(i).w > N(j).w ? N(i).w : N(j).w) + 1;
        if (ww <= (w == 64 ? 54u : 25u)) return nSI(nBin(op == O_FADD ? O_ADD : O_SUB, nSext(i, ww), nSext(j, ww)), w);
    }
    return ev(op, w, a, b, 0, 0);
}
static uint32_t nFTrunc(uint32_t a) {
    Node n = N(a);
    if (n.op == O_CONST) return ev(O_FPTRUNC, 32, a, 0, 0, 0);
    if (n.op == O_SITOFP && N(n.a).w <= 25) return nSI(n.a, 32);
    if (n.op == O_FPEXT) return nIte(nIsNan(n.a), nBin(O_OR, n.a, K(32, 1u << 22)), n.a);
    return ev(O_FPTRUNC, 32, a, 0, 0, 0);
}
static uint32_t nFExt(uint32_t a) {
    Node n = N(a);
    if (n.op == O_CONST) return ev(O_FPEXT, 64, a, 0, 0, 0);
    if (n.op == O_SITOFP && N(n.a).w <= 25) return nSI(n.a, 64);
    return ev(O_FPEXT, 64, a, 0, 0, 0);
}
static uint32_t nF2I(uint8_t op, uint32_t a, unsigned w) {
    uint32_t i = intView(a);
    if (i && !isK(a)) {
        unsigned wi = N(i).w;
        unsigned reg = op == O_FPTOSI ? (w == 64 ? 64 : 32) : (w <= 16 ? 32 : 64);
        if (op == O_FPTOUI && w == 64) return ev(op, w, a, 0, 0, 0);
        if (wi <= reg) return nExtract(nSext(i, reg), 0, w);
        // wi > 32 == reg: overflow gives the integer indefinite value
        uint32_t lo = nExtract(i, 0, 32);
        uint32_t fits = nCmp(O_EQ, nSext(lo, wi), i);
        return nExtract(nIte(fits, lo, K(32, 0x80000000u)), 0, w);
    }
    return ev(op, w, a, 0, 0, 0);
}

// ---------------------------------------------------------------- shadow memory
struct Page { uint64_t key; uint32_t any; uint32_t s[4096]; };   // any: may hold shadow
static const uint32_t PHT = 1u << 16;
static Page** ptab;
static Page* ppool;
static uint32_t npages;
static const uint32_t MAXPAGES = 20000;
static uint64_t lastKey = ~0ull;
static Page* lastPage;

static inline Page* pageOf(uint64_t addr, bool create) {
    uint64_t k = addr >> 12;
    if (k == lastKey && (lastPage || !create)) return lastPage;
    uint32_t i = (uint32_t)((k * 0x9e3779b97f4a7c15ull) >> 48);
    while (ptab[i]) {
        if (ptab[i]->key == k) { lastKey = k; lastPage = ptab[i]; return lastPage; }
        i = (i + 1) & (PHT - 1);
    }
    if (!create) { lastKey = k; lastPage = nullptr; return nullptr; }
    if (npages >= MAXPAGES) rt_limit("shadow pages");
    Page* p = &ppool[npages++];
    p->key = k;
    ptab[i] = p;
    lastKey = k; lastPage = p;
    return p;
}
static inline uint32_t getSh(uint64_t addr) {
    Page* p = pageOf(addr, false);
    if (!p) return 0;
    uint32_t s = p->s[addr & 4095];
    if (s && N(s).val != *(uint8_t*)addr) { p->s[addr & 4095] = 0; g_sh->stale++; return 0; }
    return s;
}
// is anything in [addr, addr+n) symbolic now?  (no bookkeeping: the memory may be uninitialised)
static bool peekSh(uint64_t addr, uint64_t n) {
    for (uint64_t i = 0; i < n; i++) {
        Page* p = pageOf(addr + i, false);
        if (!p) { i += 4095 - ((addr + i) & 4095); continue; }
        uint32_t s = p->s[(addr + i) & 4095];
        if (s && N(s).val == *(uint8_t*)(addr + i)) return true;
    }
    return false;
}
static inline void setSh(uint64_t addr, uint32_t s) {
    Page* p = pageOf(addr, s != 0);
    if (p) { p->s[addr & 4095] = s; if (s) p->any = 1; }
}
static void clearSh(uint64_t addr, uint64_t n) {
    while (n) {
        uint64_t c = 4096 - (addr & 4095);
        if (c > n) c = n;
        Page* p = pageOf(addr, false);
        if (p && p->any) { memset(p->s + (addr & 4095), 0, 4 * c); if (c == 4096) p->any = 0; }
        addr += c; n -= c;
    }
}
static bool anySh(uint64_t addr, uint64_t n) {
    while (n) {
        uint64_t c = 4096 - (addr & 4095);
        if (c > n) c = n;
        Page* p = pageOf(addr, false);
        if (p) for (uint64_t i = 0; i < c; i++) if (p->s[(addr & 4095) + i] && getSh(addr + i)) return true;
        addr += c; n -= c;
    }
    return false;
}
static void moveSh(uint64_t d, uint64_t s, uint64_t n) {
    if (d == s || !n) return;
    bool any = false;
    { uint64_t a = s, m = n; while (m) { uint64_t c = 4096 - (a & 4095); if (c > m) c = m; if (pageOf(a, false)) any = true; a += c; m -= c; } }
    if (!any) { clearSh(d, n); return; }
    if (d < s) for (uint64_t i = 0; i < n; i++) setSh(d + i, getSh(s + i));
    else for (uint64_t i = n; i-- > 0;) setSh(d + i, getSh(s + i));
}

// ---------------------------------------------------------------- heap
static uint8_t* const HEAP = (uint8_t*)0x600000000000ull;
static const uint64_t HEAPSZ = 8ull << 30;
static uint64_t hp;
struct Obj { uint64_t start, size; int freed; };
static Obj* objs;
static uint32_t nobjs;
static uint32_t* gran;   // per 16 bytes
static volatile int hlock;
static const uint64_t RZ = 32;

static inline bool inHeap(const void* p) { return (uint8_t*)p >= HEAP && (uint8_t*)p < HEAP + HEAPSZ; }
static inline Obj* objOf(uint64_t a) {
    if (!inHeap((void*)a)) return nullptr;
    uint32_t o = gran[(a - (uint64_t)HEAP) >> 4];
    return o ? &objs[o] : nullptr;
}
static void heapInit() {
    if (gran) return;
    void* p = mmap(HEAP, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != HEAP) { perror("heap mmap"); _exit(3); }
    gran = (uint32_t*)mmap(0, HEAPSZ / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    objs = (Obj*)mmap(0, sizeof(Obj) * 4000000ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ht = (uint32_t*)mmap(0, HT * 4ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ptab = (Page**)mmap(0, PHT * 8ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ppool = (Page*)mmap(0, sizeof(Page) * (uint64_t)MAXPAGES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    hp = 64;
}
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

static void* hAlloc(size_t n, size_t al, bool fill = true) {
    if (n > (1ull << 30)) return nullptr;
    while (__sync_lock_test_and_set(&hlock, 1)) {}
    if (al < 16) al = 16;
    uint64_t a = (hp + RZ + al - 1) & ~(uint64_t)(al - 1);
    if (a + n + RZ + 64 > HEAPSZ || nobjs > 3999990) { hlock = 0; return nullptr; }
    hp = (a + n + 15) & ~15ull;
    uint32_t o = ++nobjs;
    objs[o] = {(uint64_t)HEAP + a, n, 0};
    // cover at least one granule beyond for zero-size
    for (uint64_t g = a >> 4; g <= ((a + (n ? n - 1 : 0)) >> 4); g++) gran[g] = o;
    __sync_lock_release(&hlock);
    if (fill) __builtin_memset(HEAP + a, 0xbe, n < 4096 ? n : 4096);   // uninitialised memory never looks zeroed (same pattern as ASan)
    return HEAP + a;
}
static void hFree(void* p) {
    Obj* o = objOf((uint64_t)p);
    if (!o || o->start != (uint64_t)p || o->freed) { rt_violation("MEMORY: ", "invalid or double free"); }
    o->freed = 1;
}
API void* malloc(size_t n) { return active ? hAlloc(n, 16) : __libc_malloc(n); }
API void free(void* p) {
    if (!p) return;
    if (inHeap(p)) { if (active) hFree(p); return; }
    if (!active) __libc_free(p);
}
API void* calloc(size_t a, size_t b) { if (!active) return __libc_calloc(a, b); size_t r; if (__builtin_mul_overflow(a, b, &r)) return nullptr; return hAlloc(r, 16, false); }
API void* realloc(void* p, size_t n) {
    if (!active) return __libc_realloc(p, n);
    void* q = hAlloc(n, 16);
    if (p && q) {
        size_t old = n;
        if (inHeap(p)) { Obj* o = objOf((uint64_t)p); if (o && o->size < n) old = o->size; }
        memmove(q, p, old);   // (master-heap blocks: may over-read inside the arena, harmless)
        free(p);
    }
    return q;
}
API void* memalign(size_t al, size_t n) { return active ? hAlloc(n, al) : __libc_memalign(al, n); }
API void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
API int posix_memalign(void** r, size_t al, size_t n) { *r = memalign(al, n); return *r ? 0 : ENOMEM; }

static void memViolation(const char* what, uint64_t addr, uint64_t size, bool write) {
    char b[200];
    snprintf(b, sizeof b, "%s %s of %lu bytes", what, write ? "write" : "read", (unsigned long)size);
    (void)addr;
    rt_violation("MEMORY: ", b);
}
static inline void bounds(uint64_t a, uint64_t n, bool write) {
    if (!checkMem || !n) return;
    if (a - (uint64_t)HEAP >= HEAPSZ) return;
    Obj* o = objOf(a);
    if (!o || a < o->start || a + n > o->start + o->size) memViolation("heap out-of-bounds", a, n, write);
    if (o->freed) memViolation("use-after-free", a, n, write);
}

// ---------------------------------------------------------------- path log
static void logEv(uint32_t node, uint8_t kind, uint8_t taken, uint32_t site, uint64_t val, uint16_t cap) {
    uint32_t i = g_sh->nevents;
    if (i >= MAXEVENTS - 1) rt_limit("path events");
    Event& e = g_sh->ev[i];
    e.node = node; e.kind = kind; e.taken = taken; e.site = site; e.val = val; e.cap = cap;
    g_sh->nevents = i + 1;
}
static void branchOn(uint32_t s, bool taken, uint32_t site, uint8_t kind = E_BRANCH) {
    if (!s || isK(s)) return;
    Node n = N(s);
    if ((n.val != 0) != taken) { g_sh->semMismatch++; return; }
    if (n.op == O_NOT) { s = n.a; taken = !taken; }
    // de-duplicate: same condition already decided on this path
    if (N(s).flags & 1) return;
    N(s).flags |= 1;
    logEv(s, kind, taken, site, 0, 0);
}
static void concretise(uint32_t s, uint32_t site, uint16_t cap) {
    if (!s || isK(s)) return;
    if (N(s).flags & 2) return;
    N(s).flags |= 2;
    if (N(s).w == 1) { branchOn(s, N(s).val, site); return; }
    logEv(s, E_CONC, 1, site, N(s).val, cap);
}
static const uint16_t CAP = 300;

// ---------------------------------------------------------------- instrumentation entry points
static inline uint32_t chk(uint32_t s, uint64_t v) {
    if (!s) return 0;
    if (isK(s)) { if (N(s).val != (v & wmask(N(s).w))) g_sh->semMismatch++; return 0; }
    if (N(s).val != (v & wmask(N(s).w))) { g_sh->semMismatch++; return 0; }
    return s;
}
// operand sanity: a shadow whose concrete value does not match is stale
static inline uint32_t opnd(uint32_t s, unsigned w, uint64_t v) {
    if (!s) return 0;
    if (N(s).w != w || N(s).val != (v & wmask(w))) { g_sh->dropped++; return 0; }
    return s;
}

API uint32_t symrt_load(void* p, uint32_t size, uint64_t v) {
    if (!active) return 0;
    g_sh->opcount++;
    uint64_t a = (uint64_t)p;
    bounds(a, size, false);
    Page* pg = pageOf(a, false);
    if (!pg && ((a & 4095) + size <= 4096)) return 0;
    uint32_t b[8];
    bool any = false;
    for (uint32_t i = 0; i < size; i++) { b[i] = getSh(a + i); if (b[i]) any = true; }
    if (!any) return 0;
    uint32_t r = orK(b[size - 1], 8, *(uint8_t*)(a + size - 1));
    for (int i = (int)size - 2; i >= 0; i--) r = nConcat(r, orK(b[i], 8, *(uint8_t*)(a + i)));
    return chk(r, v);
}
API void symrt_store(void* p, uint32_t size, uint32_t s, uint64_t v) {
    if (!active) return;
    g_sh->opcount++;
    uint64_t a = (uint64_t)p;
    bounds(a, size, true);
    s = opnd(s, size * 8, v);
    if (!s) { clearSh(a, size); return; }
    for (uint32_t i = 0; i < size; i++) {
        uint32_t e = nExtract(s, 8 * i, 8);
        setSh(a + i, isK(e) ? 0 : e);
    }
}
API void symrt_clear(void* p, uint64_t n) { if (active) { bounds((uint64_t)p, n, true); clearSh((uint64_t)p, n); } }
API void symrt_alloca(void* p, uint64_t n) { if (active) clearSh((uint64_t)p, n); }
API void symrt_vecload(void* p, uint64_t n, uint32_t site) {
    if (!active) return;
    bounds((uint64_t)p, n, false);
    for (uint64_t i = 0; i < n; i++) { uint32_t s = getSh((uint64_t)p + i); if (s) concretise(s, site, CAP); }
}
static uint8_t binmap(uint32_t op) {
    // llvm::Instruction opcodes (LLVM 18)
    switch (op) {
        case 13: return O_ADD; case 14: return O_FADD; case 15: return O_SUB; case 16: return O_FSUB; case 17: return O_MUL; case 18: return O_FMUL;
        case 19: return O_UDIV; case 20: return O_SDIV; case 21: return O_FDIV; case 22: return O_UREM; case 23: return O_SREM;
        case 25: return O_SHL; case 26: return O_LSHR; case 27: return O_ASHR; case 28: return O_AND; case 29: return O_OR; case 30: return O_XOR;
    }
    return 0;
}
API uint32_t symrt_bin(uint32_t op, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b, uint64_t r) {
    if (!(sa | sb) || !active) return 0;
    g_sh->opcount++;
    sa = opnd(sa, w, a); sb = opnd(sb, w, b);
    if (!(sa | sb)) return 0;
    uint8_t o = binmap(op);
    if (!o) { concretise(sa, 0xdead0000 + op, CAP); concretise(sb, 0xdead0000 + op, CAP); return 0; }
    sa = orK(sa, w, a); sb = orK(sb, w, b);
    uint32_t n = (o >= O_FADD) ? nFBin(o, sa, sb) : nBin(o, sa, sb);
    return chk(n, r);
}
static uint32_t icmpNode(uint32_t pred, uint32_t a, uint32_t b) {
    switch (pred) {
        case 32: return nCmp(O_EQ, a, b);
        case 33: return nNot(nCmp(O_EQ, a, b));
        case 34: return nCmp(O_ULT, b, a);
        case 35: return nCmp(O_ULE, b, a);
        case 36: return nCmp(O_ULT, a, b);
        case 37: return nCmp(O_ULE, a, b);
        case 38: return nCmp(O_SLT, b, a);
        case 39: return nCmp(O_SLE, b, a);
        case 40: return nCmp(O_SLT, a, b);
        case 41: return nCmp(O_SLE, a, b);
    }
    return 0;
}
API uint32_t symrt_cmp(uint32_t pred, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b, uint64_t r) {
    if (!(sa | sb) || !active) return 0;
    g_sh->opcount++;
    sa = opnd(sa, w, a); sb = opnd(sb, w, b);
    if (!(sa | sb)) return 0;
    return chk(icmpNode(pred, orK(sa, w, a), orK(sb, w, b)), r);
}
API uint32_t symrt_fcmp(uint32_t pred, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b, uint64_t r) {
    if (!(sa | sb) || !active) return 0;
    g_sh->opcount++;
    sa = opnd(sa, w, a); sb = opnd(sb, w, b);
    if (!(sa | sb)) return 0;
    sa = orK(sa, w, a); sb = orK(sb, w, b);
    uint32_t n = 0;
    #define UNO nBin(O_OR, nIsNan(sa), nIsNan(sb))
    switch (pred) {
        case 1: n = nFCmp(O_FEQ, sa, sb); break;                       // oeq
        case 2: n = nFCmp(O_FLT, sb, sa); break;                       // ogt
        case 3: n = nFCmp(O_FLE, sb, sa); break;                       // oge
        case 4: n = nFCmp(O_FLT, sa, sb); break;                       // olt
        case 5: n = nFCmp(O_FLE, sa, sb); break;                       // ole
        case 6: n = nBin(O_AND, nNot(nFCmp(O_FEQ, sa, sb)), nNot(UNO)); break;  // one
        case 7: n = nNot(UNO); break;                                  // ord
        case 8: n = UNO; break;                                        // uno
        case 9: n = nBin(O_OR, nFCmp(O_FEQ, sa, sb), UNO); break;      // ueq
        case 10: n = nNot(nFCmp(O_FLE, sa, sb)); break;                // ugt
        case 11: n = nNot(nFCmp(O_FLT, sa, sb)); break;                // uge
        case 12: n = nNot(nFCmp(O_FLE, sb, sa)); break;                // ult
        case 13: n = nNot(nFCmp(O_FLT, sb, sa)); break;                // ule
        case 14: n = nNot(nFCmp(O_FEQ, sa, sb)); break;                // une
        default: return 0;
    }
    return chk(n, r);
}
API uint32_t symrt_cast(uint32_t op, uint32_t w0, uint32_t w1, uint32_t s, uint64_t a, uint64_t r) {
    if (!s || !active) return 0;
    // a caller may pass a value narrower than w0 (i1 in a byte): trust the shadow if the low bits agree
    if (N(s).w != w0) { g_sh->dropped++; return 0; }
    if ((N(s).val & wmask(w1 < w0 ? w1 : w0)) != (a & wmask(w1 < w0 ? w1 : w0))) { g_sh->dropped++; return 0; }
    uint32_t n = 0;
    switch (op) {
        case 38: n = nExtract(s, 0, w1); break;  // trunc
        case 39: n = nZext(s, w1); break;
        case 40: n = nSext(s, w1); break;
        case 41: n = nF2I(O_FPTOUI, s, w1); break;
        case 42: n = nF2I(O_FPTOSI, s, w1); break;
        case 43: n = (w0 < 64) ? nSI(nZext(s, w0 + 1), w1) : ev(O_UITOFP, w1, s, 0, 0, 0); break;
        case 44: n = nSI(s, w1); break;
        case 45: n = nFTrunc(s); break;
        case 46: n = nFExt(s); break;
        default: concretise(s, 0xdead1000 + op, CAP); return 0;
    }
    return chk(n, r);
}
API uint32_t symrt_ite(uint32_t w, uint32_t cs, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b) {
    if (!active) return 0;
    bool c = cs >> 31;
    uint32_t sc = cs & 0x7fffffff;
    sa = opnd(sa, w, a); sb = opnd(sb, w, b);
    sc = opnd(sc, 1, c);
    if (!sc) return c ? sa : sb;
    uint32_t n = nIte(sc, orK(sa, w, a), orK(sb, w, b));
    return chk(n, c ? a : b);
}
API void symrt_branch(uint32_t s, uint32_t taken, uint32_t site) {
    if (!s || !active) return;
    s = opnd(s, 1, taken);
    branchOn(s, taken, site);
}
API void symrt_conc(uint32_t s, uint64_t v, uint32_t site) {
    if (!s || !active) return;
    s = opnd(s, N(s).w, v);
    concretise(s, site, CAP);
}
static uint32_t basePart(uint32_t s, uint64_t& base) {
    // s = X + const  (const folded to the right): base = const if it looks like a pointer
    Node n = N(s);
    if (n.op == O_ADD && isK(n.b)) { base = N(n.b).val; return n.a; }
    base = 0;
    return s;
}
API void symrt_ptr(uint32_t s, uint64_t v, uint64_t size, uint32_t write, uint32_t site) {
    if (!s || !active) return;
    s = opnd(s, 64, v);
    if (!s || isK(s)) return;
    // heap provenance: the constant part names the object
    uint64_t base; basePart(s, base);
    Obj* o = nullptr;
    if (base) { o = objOf(base); if (o && !(base >= o->start && base <= o->start + o->size)) o = nullptr; }
    if (!o && checkMem) { o = objOf(v); if (o && (v < o->start || v + size > o->start + o->size)) o = nullptr; if (!base) {} }
    if (o && checkMem) {
        uint64_t lo = o->start, hi = o->start + o->size;
        bool ok = v >= lo && v + size <= hi && v + size >= v;
        if (o->size >= size) {
            uint32_t in = nCmp(O_ULE, nBin(O_SUB, s, K(64, lo)), K(64, hi - size - lo));
            branchOn(in, ok, site ^ 0x40000000);
        }
        if (!ok) memViolation("out-of-bounds (symbolic index)", v, size, write);
    }
    concretise(s, site, CAP);
}
static void concPtrs(uint32_t sd, const void* d, uint32_t ss, const void* s, uint32_t sn, uint64_t n, uint32_t site) {
    if (sn) { sn = opnd(sn, N(sn).w, n); if (sn && !isK(sn)) concretise(sn, site, CAP); }
    if (sd) symrt_ptr(sd, (uint64_t)d, n, 1, site + 0x100000);
    if (ss) symrt_ptr(ss, (uint64_t)s, n, 0, site + 0x200000);
}
static inline void rawmove(void* d, const void* s, size_t n) {
    if (d == s || !n) return;
    if ((uint8_t*)d < (const uint8_t*)s || (uint8_t*)d >= (const uint8_t*)s + n) {
        void* dd = d; const void* q = s; size_t c = n;
        __asm__ volatile("rep movsb" : "+D"(dd), "+S"(q), "+c"(c) : : "memory");
    } else {
        uint8_t* dd = (uint8_t*)d + n - 1; const uint8_t* q = (const uint8_t*)s + n - 1; size_t c = n;
        __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(q), "+c"(c) : : "memory");
    }
}
static inline void rawset(void* d, int c, size_t n) {
    void* dd = d;
    __asm__ volatile("rep stosb" : "+D"(dd), "+c"(n) : "a"(c) : "memory");
}
API void symrt_memmove(void* d, uint32_t sd, const void* s, uint32_t ss, uint64_t n, uint32_t sn, uint32_t site) {
    if (active) {
        if (sd | ss | sn) concPtrs(sd, d, ss, s, sn, n, site);
        bounds((uint64_t)d, n, true);
        bounds((uint64_t)s, n, false);
        moveSh((uint64_t)d, (uint64_t)s, n);
    }
    rawmove(d, s, n);
}
API void symrt_memcpy(void* d, uint32_t sd, const void* s, uint32_t ss, uint64_t n, uint32_t sn, uint32_t site) { symrt_memmove(d, sd, s, ss, n, sn, site); }
API void symrt_memset(void* d, uint32_t sd, uint32_t c, uint32_t sc, uint64_t n, uint32_t sn, uint32_t site) {
    if (active) {
        if (sd | sn) concPtrs(sd, d, 0, 0, sn, n, site);
        bounds((uint64_t)d, n, true);
        uint32_t s = 0;
        if (sc) { s = sc; if (N(s).w != 8) s = nExtract(s, 0, 8); if (isK(s)) s = 0; if (s && N(s).val != (c & 255)) s = 0; }
        if (s) for (uint64_t i = 0; i < n; i++) setSh((uint64_t)d + i, s);
        else clearSh((uint64_t)d, n);
    }
    rawset(d, c, n);
}
API void* memcpy(void* d, const void* s, size_t n) { if (active) moveSh((uint64_t)d, (uint64_t)s, n); rawmove(d, s, n); return d; }
API void* memmove(void* d, const void* s, size_t n) { if (active) moveSh((uint64_t)d, (uint64_t)s, n); rawmove(d, s, n); return d; }
API void* memset(void* d, int c, size_t n) { if (active) clearSh((uint64_t)d, n); rawset(d, c, n); return d; }
API void* __memcpy_chk(void* d, const void* s, size_t n, size_t) { return memcpy(d, s, n); }
API void* __memmove_chk(void* d, const void* s, size_t n, size_t) { return memmove(d, s, n); }
API void* __memset_chk(void* d, int c, size_t n, size_t) { return memset(d, c, n); }

API void symrt_byval(void* d, uint64_t src, uint64_t n) {
    if (!active) return;
    clearSh((uint64_t)d, n);
    if (src) for (uint64_t i = 0; i < n; i++) { uint32_t s = getSh(src + i); if (s && N(s).val == *((uint8_t*)d + i)) setSh((uint64_t)d + i, s); }
}
API uint32_t symrt_intr(uint32_t op, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b, uint32_t sc, uint64_t c, uint64_t r) {
    if (!(sa | sb | sc) || !active) return 0;
    sa = opnd(sa, w, a);
    if (op != 9 && op != 11 && op != 12 && op != 25) sb = opnd(sb, w, b);
    sc = opnd(sc, w, c);
    if (!(sa | sb | sc)) return 0;
    uint32_t A = orK(sa, w, a), B = orK(sb, w, b), n = 0;
    switch (op) {
        case 1: n = nBin(O_AND, A, K(w, wmask(w - 1))); break;                       // fabs
        case 2: n = nIte(nCmp(O_ULT, A, B), B, A); break;
        case 3: n = nIte(nCmp(O_ULT, A, B), A, B); break;
        case 4: n = nIte(nCmp(O_SLT, A, B), B, A); break;
        case 5: n = nIte(nCmp(O_SLT, A, B), A, B); break;
        case 6: { n = nExtract(A, 0, 8); for (unsigned i = 1; i < w / 8; i++) n = nConcat(n, nExtract(A, 8 * i, 8)); break; }
        case 7: case 8: {
            if (sc) { concretise(sc, 0xdead2000, CAP); }
            unsigned k = c % w;
            if (op == 8) k = (w - k) % w;
            uint32_t hi = A, lo = B;
            if (op == 8 && c % w == 0) { n = B; break; }
            if (k == 0) n = A;
            else n = nConcat(nExtract(hi, 0, w - k), nExtract(lo, w - k, k));
            break;
        }
        case 9: n = nIte(nCmp(O_SLT, A, K(w, 0)), nBin(O_SUB, K(w, 0), A), A); break; // abs
        case 10: { n = nZext(nExtract(A, 0, 1), w); for (unsigned i = 1; i < w; i++) n = nBin(O_ADD, n, nZext(nExtract(A, i, 1), w)); break; }
        case 11: { n = K(w, w); for (unsigned i = 0; i < w; i++) n = nIte(nExtract(A, i, 1), K(w, w - 1 - i), n); break; }   // ctlz
        case 12: { n = K(w, w); for (int i = (int)w - 1; i >= 0; i--) n = nIte(nExtract(A, i, 1), K(w, i), n); break; }       // cttz
        case 13: n = nCmp(O_ULT, nBin(O_ADD, A, B), A); break;                       // uaddo
        case 15: n = nCmp(O_ULT, A, B); break;                                       // usubo
        case 14: case 16: {                                                          // saddo/ssubo
            if (w >= 64) { uint32_t R = nBin(op == 14 ? O_ADD : O_SUB, A, B);
                uint32_t sA = nExtract(A, w - 1, 1), sB = nExtract(B, w - 1, 1), sR = nExtract(R, w - 1, 1);
                if (op == 16) sB = nNot(sB);
                n = nBin(O_AND, nNot(nBin(O_XOR, sA, sB)), nBin(O_XOR, sA, sR)); break; }
            uint32_t R = nBin(op == 14 ? O_ADD : O_SUB, nSext(A, w + 1), nSext(B, w + 1));
            n = nNot(nCmp(O_EQ, R, nSext(nExtract(R, 0, w), w + 1)));
            break;
        }
        case 17: case 18: {                                                          // umulo/smulo
            if (w <= 32) {
                uint32_t R = op == 17 ? nBin(O_MUL, nZext(A, 2 * w), nZext(B, 2 * w)) : nBin(O_MUL, nSext(A, 2 * w), nSext(B, 2 * w));
                n = op == 17 ? nNot(nCmp(O_EQ, nExtract(R, w, w), K(w, 0))) : nNot(nCmp(O_EQ, R, nSext(nExtract(R, 0, w), 2 * w)));
            } else if (op == 17) {
                if (isK(B) && N(B).val) n = nCmp(O_ULT, K(w, wmask(w) / N(B).val), A);
                else if (isK(A) && N(A).val) n = nCmp(O_ULT, K(w, wmask(w) / N(A).val), B);
                else { concretise(A, 0xdead3000, CAP); concretise(B, 0xdead3001, CAP); return 0; }
            } else { concretise(A, 0xdead3002, CAP); concretise(B, 0xdead3003, CAP); return 0; }
            break;
        }
        case 19: n = nIte(nCmp(O_ULT, A, B), K(w, 0), nBin(O_SUB, A, B)); break;     // usub.sat
        case 20: { uint32_t R = nBin(O_ADD, A, B); n = nIte(nCmp(O_ULT, R, A), K(w, wmask(w)), R); break; }
        case 25: {                                                                    // is.fpclass
            unsigned m = b;
            uint64_t sgn = 1ull << (w - 1), ex = w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, q = w == 64 ? 1ull << 51 : 1u << 22;
            uint32_t abs = nBin(O_AND, A, K(w, sgn - 1)), neg = nExtract(A, w - 1, 1), pos = nNot(neg);
            uint32_t isnan = nCmp(O_ULT, K(w, ex), abs), isinf = nCmp(O_EQ, abs, K(w, ex)), zero = nCmp(O_EQ, abs, K(w, 0));
            uint32_t qb = nNot(nCmp(O_EQ, nBin(O_AND, A, K(w, q)), K(w, 0)));
            uint32_t sub = nBin(O_AND, nNot(zero), nCmp(O_ULT, abs, K(w, ex & (~ex + 0 + (ex & -ex)) ? (ex & -ex) : (ex & -ex))));
            uint32_t norm = nBin(O_AND, nNot(nCmp(O_ULT, abs, K(w, ex & -ex))), nCmp(O_ULT, abs, K(w, ex)));
            n = K(1, 0);
            #define OR_(x) n = nBin(O_OR, n, x)
            if (m & 1) OR_(nBin(O_AND, isnan, nNot(qb)));
            if (m & 2) OR_(nBin(O_AND, isnan, qb));
            if (m & 4) OR_(nBin(O_AND, neg, isinf));
            if (m & 8) OR_(nBin(O_AND, neg, norm));
            if (m & 16) OR_(nBin(O_AND, neg, sub));
            if (m & 32) OR_(nBin(O_AND, neg, zero));
            if (m & 64) OR_(nBin(O_AND, pos, zero));
            if (m & 128) OR_(nBin(O_AND, pos, sub));
            if (m & 256) OR_(nBin(O_AND, pos, norm));
            if (m & 512) OR_(nBin(O_AND, pos, isinf));
            break;
        }
        case 26: n = nBin(O_OR, nBin(O_AND, A, K(w, wmask(w - 1))), nBin(O_AND, B, K(w, 1ull << (w - 1)))); break;
        default:
            if (sa) concretise(sa, 0xdead4000 + op, CAP);
            if (sb) concretise(sb, 0xdead4100 + op, CAP);
            if (sc) concretise(sc, 0xdead4200 + op, CAP);
            return 0;
    }
    return chk(n, r);
}

// ---------------------------------------------------------------- functions registry, external calls
struct Desc { void* fn; const char* name; uint32_t id; };
static Desc** fns; static uint32_t nfns; 
static const uint32_t FHT = 1u << 18;
static Desc** fht;
API void symrt_register(Desc** d, uint32_t n) {
    if (!fns) { fns = (Desc**)mmap(0, 8ull * MAXFN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); fht = (Desc**)mmap(0, 8ull * FHT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    for (uint32_t i = 0; i < n; i++) {
        uint64_t h = ((uint64_t)d[i]->fn * 0x9e3779b97f4a7c15ull) >> 46;
        bool dup = false;
        while (fht[h]) { if (fht[h]->fn == d[i]->fn) { dup = true; break; } h = (h + 1) & (FHT - 1); }
        if (dup) { d[i]->id = fht[h]->id; continue; }
        if (nfns + 1 >= MAXFN) { fprintf(stderr, "too many functions\n"); _exit(3); }
        d[i]->id = ++nfns;
        fns[nfns] = d[i];
        fht[h] = d[i];
    }
}
uint32_t rt_fn_count() { return nfns; }
const char* rt_fn_name(uint32_t i) { return fns[i]->name; }
static bool isInstr(void* f) {
    uint64_t h = ((uint64_t)f * 0x9e3779b97f4a7c15ull) >> 46;
    while (fht[h]) { if (fht[h]->fn == f) return true; h = (h + 1) & (FHT - 1); }
    return false;
}

API void symrt_fnenter(Desc* d) { if (active) g_gl->fncov[d->id] = 1; }

static bool pre(const char* n, const char* p) { return strncmp(n, p, strlen(p)) == 0; }
// 0: generic (concretise scalars, report symbolic memory reachable from pointer args)
// 1: arguments carry no data that matters (ignored completely)
// 2: scalars concretised, memory not inspected
static int policy(const char* n) {
    static const char* ign[] = {"__cxa_", "_Unwind", "_ZdlPv", "_ZdaPv", "__clang_call", "_ZSt9terminatev", "_ZSt17__throw", "_ZSt19__throw", "_ZSt20__throw",
        "_ZSt16__throw", "_ZSt18__throw", "_ZSt21__throw", "_ZSt22__throw", "_ZSt24__throw", "_ZSt25__throw", "_ZSt26__throw", "_ZSt28__throw", "__dynamic_cast", "free", "_ZSt29_Rb_tree_insert_and_rebalance", "_ZSt28_Rb_tree_rebalance", "_ZSt18_Rb_tree_incr",
        "_ZSt18_Rb_tree_decr", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt8ios_base", "_ZNKSt8ios_base",
        "_ZNSo", "_ZNSt9basic_ios", "_ZSt16__ostream_insert", "_ZStls", "pthread_", "_ZN6eckit3Log", "_ZN6eckit6Buffer", "_ZN6eckit12CodeLocation", "_ZN6eckit9Exception",
        "_ZNSt13runtime_error", "_ZNSt9exception", "_ZNSt11logic_error", "_ZNSt12out_of_range", "abort", "_exit", "exit", "atexit", "__assert_fail",
        "_ZSt18uncaught_exceptionv", "_ZSt9use_facet", "_ZSt9has_facet", "_ZNKSt7num_put", "_ZNSt7num_put", "backtrace", "_ZNSt6thread", "_ZNKSt5ctype", "_ZNKSt9type_info", "_ZNKSt7__cxx11", 0};
    for (int i = 0; ign[i]; i++) if (pre(n, ign[i])) return 1;
    static const char* sc[] = {"_Znwm", "_Znam", "malloc", "calloc", "realloc", 0};
    for (int i = 0; sc[i]; i++) if (!strcmp(n, sc[i])) return 2;
    return 0;
}
static void leak(const char* n, int kind) {
    for (int i = 0; i < g_gl->nleak && i < (int)MAXLEAK; i++) if (g_gl->leak[i].kind == kind && !strncmp(g_gl->leak[i].name, n, 199)) { __sync_fetch_and_add(&g_gl->leak[i].count, 1); return; }
    while (__sync_lock_test_and_set(&g_gl->lock, 1)) {}
    int i = g_gl->nleak;
    if (i < (int)MAXLEAK) { strncpy(g_gl->leak[i].name, n, 199); g_gl->leak[i].kind = kind; g_gl->leak[i].count = 1; g_gl->nleak = i + 1; }
    __sync_lock_release(&g_gl->lock);
}
static bool ctorDtor(const char* n) {
    if (!pre(n, "_ZN")) return false;
    for (const char* q = n + 3; *q; q++)
        if ((*q == 'C' || *q == 'D') && (q[1] == '0' || q[1] == '1' || q[1] == '2') && q[2] == 'E') return true;
    return false;
}
API void symrt_callpre(void* fn, const char* name, uint32_t n, uint32_t pmask) {
    if (!active) return;
    if (isInstr(fn)) return;
    // the frames of the code called reuse stack whose shadow is out of date
    clearSh((uint64_t)__builtin_frame_address(0) - 65536, 65536);
    const char* nm = name;
    if (!nm) {
        Dl_info di;
        active = 0;
        nm = dladdr(fn, &di) && di.dli_sname ? di.dli_sname : "?indirect";
        active = 1;
    }
    if (pre(nm, "symrt_")) return;
    int pol = policy(nm);
    if (pol == 1) return;
    for (uint32_t i = 0; i < n; i++) {
        uint32_t s = __sym_argsh[i];
        if (s) {
            s = opnd(s, N(s).w, __sym_argptr[i]);
            if (s && !isK(s)) {
                if (pol == 2 && N(s).w == 64) {
                    // allocation size: explored completely up to 64 KiB, one representative beyond
                    uint32_t small = nCmp(O_ULE, s, K(64, 65536));
                    branchOn(small, N(s).val <= 65536, 0xa110c000);
                    if (N(s).val > 65536) { logEv(s, E_CONC, 1, 0xa110c001, N(s).val, 1); continue; }
                }
                leak(nm, 1);
                concretise(s, 0xca110000 + i, CAP);
            }
        }
        if (pol == 0 && (pmask >> i & 1)) {
            uint64_t p = __sym_argptr[i], len = 32;
            if (p < 4096) continue;
            Obj* o = objOf(p);
            if (o && p >= o->start && p < o->start + o->size) { len = o->start + o->size - p; if (len > 4096) len = 4096; }
            // std::string by reference: follow the data pointer too
            if (i == 0 && ctorDtor(nm)) continue;   // `this` is not initialised yet / no longer used
            if (peekSh(p, len)) leak(nm, 0);
        }
    }
}

// ---------------------------------------------------------------- wrappers for libc readers
static inline uint32_t bsh(uint64_t a) { return orK(getSh(a), 8, *(uint8_t*)a); }
static void cargs(int n, void* self) {
    if (__sym_callee != self) { for (int i = 0; i < n; i++) __sym_argsh[i] = 0; }
    __sym_callee = nullptr;
}
static void ret(uint32_t s, void* self) { __sym_retsh[0] = (s && isK(s)) ? 0 : s; __sym_retfn = self; }
#define ARGP(i, v, sz) if (__sym_argsh[i]) symrt_ptr(__sym_argsh[i], (uint64_t)(v), sz, 0, 0x57000000 + i)
#define ARGN(i, v) if (__sym_argsh[i]) symrt_conc(__sym_argsh[i], (uint64_t)(v), 0x57100000 + i)

static int cmpModel(const uint8_t* a, const uint8_t* b, size_t n, bool str, void* self) {
    // concrete result and ITE-chain symbolic result (sign of first difference)
    int r = 0;
    size_t len = n;
    if (str) {
        for (size_t i = 0; i < n; i++) {
            bounds((uint64_t)a + i, 1, false); bounds((uint64_t)b + i, 1, false);
            uint32_t x = getSh((uint64_t)a + i), y = getSh((uint64_t)b + i);
            // stop conditions are branched on explicitly
            if (x) branchOn(nCmp(O_EQ, x, K(8, 0)), a[i] == 0, 0x57200000);
            if (a[i] == 0) { len = i + 1; break; }
            if (y) branchOn(nCmp(O_EQ, y, K(8, 0)), b[i] == 0, 0x57200001);
            if (b[i] == 0) { len = i + 1; break; }
            if (!x && !y && a[i] != b[i]) { len = i + 1; break; }
        }
    } else { bounds((uint64_t)a, n, false); bounds((uint64_t)b, n, false); }
    for (size_t i = 0; i < len; i++) if (a[i] != b[i]) { r = a[i] < b[i] ? -1 : 1; break; }
    uint32_t s = 0;
    if (active) {
        bool any = false;
        for (size_t i = 0; i < len; i++) if (getSh((uint64_t)a + i) || getSh((uint64_t)b + i)) any = true;
        if (any) {
            s = K(32, 0);
            for (size_t i = len; i-- > 0;) {
                uint32_t x = bsh((uint64_t)a + i), y = bsh((uint64_t)b + i);
                s = nIte(nCmp(O_EQ, x, y), s, nIte(nCmp(O_ULT, x, y), K(32, (uint64_t)-1), K(32, 1)));
            }
            s = chk(s, (uint32_t)r);
        }
    }
    ret(s, self);
    return r;
}
API int symrt_w_memcmp(const void* a, const void* b, size_t n) {
    if (!active) return memcmp(a, b, n);
    void* self = (void*)&symrt_w_memcmp;
    cargs(3, self); ARGN(2, n); ARGP(0, a, n); ARGP(1, b, n);
    return cmpModel((const uint8_t*)a, (const uint8_t*)b, n, false, self);
}
API int symrt_w_bcmp(const void* a, const void* b, size_t n) {
    if (!active) return memcmp(a, b, n);
    void* self = (void*)&symrt_w_bcmp;
    cargs(3, self); ARGN(2, n); ARGP(0, a, n); ARGP(1, b, n);
    return cmpModel((const uint8_t*)a, (const uint8_t*)b, n, false, self);
}
API int symrt_w_strcmp(const char* a, const char* b) {
    if (!active) return strcmp(a, b);
    void* self = (void*)&symrt_w_strcmp;
    cargs(2, self); ARGP(0, a, 1); ARGP(1, b, 1);
    return cmpModel((const uint8_t*)a, (const uint8_t*)b, (size_t)1 << 30, true, self);
}
API int symrt_w_strncmp(const char* a, const char* b, size_t n) {
    if (!active) return strncmp(a, b, n);
    void* self = (void*)&symrt_w_strncmp;
    cargs(3, self); ARGN(2, n); ARGP(0, a, 1); ARGP(1, b, 1);
    return cmpModel((const uint8_t*)a, (const uint8_t*)b, n, true, self);
}
static size_t lenModel(const char* s, size_t max) {
    size_t i = 0;
    for (; i < max; i++) {
        bounds((uint64_t)s + i, 1, false);
        uint32_t x = getSh((uint64_t)s + i);
        if (x) branchOn(nCmp(O_EQ, x, K(8, 0)), s[i] == 0, 0x57300000);
        if (!s[i]) break;
    }
    return i;
}
API size_t symrt_w_strlen(const char* s) {
    if (!active) return strlen(s);
    void* self = (void*)&symrt_w_strlen;
    cargs(1, self); ARGP(0, s, 1);
    size_t r = lenModel(s, (size_t)1 << 30);
    ret(0, self);
    return r;
}
API size_t symrt_w_strnlen(const char* s, size_t n) {
    if (!active) return strnlen(s, n);
    void* self = (void*)&symrt_w_strnlen;
    cargs(2, self); ARGN(1, n); ARGP(0, s, 1);
    size_t r = lenModel(s, n);
    ret(0, self);
    return r;
}
static const void* findModel(const uint8_t* s, int c, uint32_t sc, size_t n, bool str) {
    uint32_t cc = sc ? nExtract(sc, 0, 8) : K(8, (uint8_t)c);
    for (size_t i = 0; i < n; i++) {
        bounds((uint64_t)s + i, 1, false);
        uint32_t x = getSh((uint64_t)s + i);
        uint32_t e = (x || sc) ? nCmp(O_EQ, orK(x, 8, s[i]), cc) : 0;
        if (e) branchOn(e, s[i] == (uint8_t)c, 0x57400000);
        if (s[i] == (uint8_t)c) return s + i;
        if (str) {
            if (x) branchOn(nCmp(O_EQ, x, K(8, 0)), s[i] == 0, 0x57400001);
            if (!s[i]) return nullptr;
        }
    }
    return nullptr;
}
API void* symrt_w_memchr(const void* s, int c, size_t n) {
    if (!active) return (void*)memchr((void*)s, c, n);
    void* self = (void*)&symrt_w_memchr;
    cargs(3, self); ARGN(2, n); ARGP(0, s, 1);
    const void* r = findModel((const uint8_t*)s, c, __sym_argsh[1], n, false);
    ret(0, self);
    return (void*)r;
}
API char* symrt_w_strchr(const char* s, int c) {
    if (!active) return (char*)strchr((char*)s, c);
    void* self = (void*)&symrt_w_strchr;
    cargs(2, self); ARGP(0, s, 1);
    const void* r = findModel((const uint8_t*)s, c, __sym_argsh[1], (size_t)1 << 30, true);
    ret(0, self);
    return (char*)r;
}
API char* symrt_w_strrchr(const char* s, int c) {
    if (!active) return (char*)strrchr((char*)s, c);
    void* self = (void*)&symrt_w_strrchr;
    cargs(2, self); ARGP(0, s, 1); ARGN(1, c);
    size_t n = lenModel(s, (size_t)1 << 30);
    const char* r = nullptr;
    for (size_t i = 0; i <= n; i++) { uint32_t x = getSh((uint64_t)s + i); if (x) branchOn(nCmp(O_EQ, x, K(8, (uint8_t)c)), s[i] == (char)c, 0x57500000); if (s[i] == (char)c) r = s + i; }
    ret(0, self);
    return (char*)r;
}
API char* symrt_w_strcpy(char* d, const char* s) {
    void* self = (void*)&symrt_w_strcpy;
    if (!active) return strcpy(d, s);
    cargs(2, self); ARGP(0, d, 1); ARGP(1, s, 1);
    size_t n = lenModel(s, (size_t)1 << 30);
    symrt_memmove(d, 0, s, 0, n + 1, 0, 0);
    ret(0, self);
    return d;
}
API char* symrt_w_strncpy(char* d, const char* s, size_t m) {
    void* self = (void*)&symrt_w_strncpy;
    if (!active) return strncpy(d, s, m);
    cargs(3, self); ARGN(2, m); ARGP(0, d, 1); ARGP(1, s, 1);
    size_t n = lenModel(s, m);
    symrt_memmove(d, 0, s, 0, n, 0, 0);
    if (n < m) symrt_memset(d + n, 0, 0, 0, m - n, 0, 0);
    ret(0, self);
    return d;
}
// C-locale character classification over an int argument: a finite table, so branch on membership intervals
static uint32_t inRange(uint32_t s, int lo, int hi) { return nCmp(O_ULE, nBin(O_SUB, s, K(32, lo)), K(32, hi - lo)); }
#define CTYPE(name, expr, conc) \
    API int symrt_w_##name(int c) { \
        void* self = (void*)&symrt_w_##name; \
        if (!active) return conc; \
        cargs(1, self); uint32_t s = __sym_argsh[0]; s = opnd(s, 32, (uint32_t)c); int r = conc; \
        uint32_t q = 0; if (s) q = chk(expr, (uint32_t)r); ret(q, self); return r; }
CTYPE(isspace, nZext(nBin(O_OR, inRange(s, 9, 13), inRange(s, 32, 32)), 32), ((c >= 9 && c <= 13) || c == 32))
CTYPE(isdigit, nZext(inRange(s, '0', '9'), 32), (c >= '0' && c <= '9'))
CTYPE(isalpha, nZext(nBin(O_OR, inRange(s, 'a', 'z'), inRange(s, 'A', 'Z')), 32), ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')))
CTYPE(isalnum, nZext(nBin(O_OR, nBin(O_OR, inRange(s, 'a', 'z'), inRange(s, 'A', 'Z')), inRange(s, '0', '9')), 32), ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')))
CTYPE(tolower, nIte(inRange(s, 'A', 'Z'), nBin(O_ADD, s, K(32, 32)), s), ((c >= 'A' && c <= 'Z') ? c + 32 : c))
CTYPE(toupper, nIte(inRange(s, 'a', 'z'), nBin(O_ADD, s, K(32, (uint32_t)-32)), s), ((c >= 'a' && c <= 'z') ? c - 32 : c))

// ---------------------------------------------------------------- harness primitives
API void symrt_input(void* p, size_t n) {
    if (!active) { memset(p, 0, n); return; }
    for (size_t i = 0; i < n; i++) {
        uint32_t k = g_sh->inused++;
        if (k >= MAXIN) rt_limit("too many input bytes");
        uint8_t v = k < g_sh->inlen ? g_sh->in[k] : 0;
        if (k >= g_sh->inlen) { g_sh->in[k] = 0; }
        ((uint8_t*)p)[i] = v;
        setSh((uint64_t)p + i, mk(O_VAR, 8, 0, 0, 0, k, v));
    }
}
API void symrt_assume(int c) {
    if (!active) return;
    void* self = (void*)&symrt_assume;
    cargs(1, self);
    uint32_t s = opnd(__sym_argsh[0], 32, (uint32_t)c);
    if (s) branchOn(nNot(nCmp(O_EQ, s, K(32, 0))), c != 0, 0xa5500000, c ? E_ASSUME : E_BRANCH);
    if (!c) rt_exit(ST_ASSUME);
}
API void symrt_check(int c, const char* msg) {
    if (!active) return;
    void* self = (void*)&symrt_check;
    cargs(1, self);
    uint32_t s = opnd(__sym_argsh[0], 32, (uint32_t)c);
    if (s) branchOn(nNot(nCmp(O_EQ, s, K(32, 0))), c != 0, 0xc4ec0000);
    if (!c) rt_violation("CHECK: ", msg);
}
API uint64_t symrt_enum(uint64_t v, int cap) {   // concretise with complete enumeration
    if (!active) return v;
    void* self = (void*)&symrt_enum;
    cargs(1, self);
    uint32_t s = opnd(__sym_argsh[0], 64, v);
    if (s) concretise(s, 0xe4000000, cap);
    ret(0, self);
    return v;
}
API void symrt_reach(const char* name) {
    if (!active) return;
    for (int i = 0; i < g_gl->nreach; i++) if (!strcmp(g_gl->reach[i].name, name)) { __sync_fetch_and_add(&g_gl->reach[i].count, 1); return; }
    while (__sync_lock_test_and_set(&g_gl->lock, 1)) {}
    int i = g_gl->nreach;
    bool dup = false;
    for (int k = 0; k < i; k++) if (!strcmp(g_gl->reach[k].name, name)) { g_gl->reach[k].count = g_gl->reach[k].count + 1; dup = true; }
    if (!dup && i < (int)MAXREACH) { strncpy(g_gl->reach[i].name, name, 79); g_gl->reach[i].count = 1; g_gl->nreach = i + 1; }
    __sync_lock_release(&g_gl->lock);
}
API int symrt_is_symbolic(const void* p, size_t n) { return active ? anySh((uint64_t)p, n) : 0; }
API int symrt_active() { return active; }
API void symrt_pause(int on) { active = !on; lastKey = ~0ull; }
API void symrt_fail(const char* msg) { if (active) rt_violation("CHECK: ", msg); }

static void onSig(int s) {
    // async-signal context: only touch the shared page
    if (s == SIGALRM) { snprintf(g_sh->msg, sizeof g_sh->msg, "LIMIT: run timeout"); g_sh->status = ST_LIMIT; _exit(0); }
    snprintf(g_sh->msg, sizeof g_sh->msg, "CRASH: signal %d", s);
    g_sh->status = ST_VIOL;
    _exit(0);
}
static uint8_t altstk[65536];
void rt_child_begin(const uint8_t* in, uint32_t len) {
    heapInit();
    g_sh->status = ST_NONE;
    g_sh->msg[0] = 0;
    g_sh->nnodes = g_sh->nevents = g_sh->inused = 0;
    g_sh->inlen = len;
    for (uint32_t i = 0; i < len; i++) g_sh->in[i] = in[i];
    stack_t ss; ss.ss_flags = 0;
    ss.ss_sp = altstk; ss.ss_size = sizeof altstk;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_handler = onSig;
    sa.sa_flags = SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    __sym_callee = nullptr; __sym_retfn = nullptr;
    active = 1;
}
void rt_set_active(int a) { active = a; }
void rt_set_checkmem(int a) { checkMem = a; }
