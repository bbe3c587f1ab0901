// Shared between the child-side tracer (symrt.cpp) and the solver side (solve.cpp).
#pragma once
#include <cstdint>
#include <cstddef>

enum Op : uint8_t {
    O_NONE, O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_NOT, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FISNAN, O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
    O_LAST
};

struct Node {
    uint8_t op, w;
    uint16_t flags;
    uint32_t a, b, c;
    uint64_t imm;   // const value / var index / extract lo
    uint64_t val;   // concrete value on this run
    uint64_t hash;
};

enum EvKind : uint8_t { E_BRANCH, E_ASSUME, E_CONC };
struct Event {
    uint32_t node;
    uint8_t kind, taken;
    uint16_t cap;
    uint32_t site;
    uint64_t val;
};

enum Status : int { ST_NONE, ST_DONE, ST_VIOL, ST_ASSUME, ST_LIMIT };

static const uint32_t MAXNODES = 6u << 20;
static const uint32_t MAXEVENTS = 1u << 20;
static const uint32_t MAXIN = 2048;
static const uint32_t MAXREACH = 64;
static const uint32_t MAXLEAK = 256;
static const uint32_t MAXFN = 60000;

struct Shared {            // one per worker, MAP_SHARED
    volatile int status;
    char msg[400];
    uint32_t nnodes, nevents, inlen, inused;
    uint32_t semMismatch, stale, dropped;
    uint32_t capped;
    uint64_t opcount;
    uint8_t in[MAXIN];
    Event ev[MAXEVENTS];
    Node nodes[MAXNODES];
};

struct Global {            // one, MAP_SHARED
    volatile int lock;
    volatile int nreach;
    struct { char name[80]; volatile uint64_t count; } reach[MAXREACH];
    volatile int nleak;
    struct { char name[200]; volatile uint64_t count; int kind; } leak[MAXLEAK];
    uint8_t fncov[MAXFN];
};

extern Shared* g_sh;
extern Global* g_gl;
extern "C" uint64_t sym_eval(uint8_t op, uint8_t w, uint64_t imm, uint8_t wa, uint64_t a, uint8_t wb, uint64_t b, uint64_t c);
void rt_child_begin(const uint8_t* in, uint32_t len);
uint32_t rt_fn_count();
const char* rt_fn_name(uint32_t);
int solver_main(int argc, char** argv, void (*init)(), void (*run)(const char*));
static inline uint64_t wmask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
