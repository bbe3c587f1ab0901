// Master / worker processes: generational search over complete path trees with Z3.
#include "symrt.h"
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>

void rt_set_checkmem(int);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Item { uint32_t len, bound; uint64_t phash; uint8_t in[]; };
static uint32_t itemSz;
struct Viol { char msg[400]; uint32_t len; uint8_t in[MAXIN]; };
struct Ctl {
    volatile int lock;
    volatile int idle, stop;
    volatile uint64_t top;       // LIFO stack size
    volatile uint64_t runs, items, qsat, qunsat, qunknown, qcache, paths_done, assume_fail, limits, diverge, semMis, stale, dropped, capped, events, maxev, inputs, crashes, maxnodes, qtrivial;
    volatile uint64_t solver_us, run_us, max_query_us;
    volatile int nviol;
    volatile int nlimitmsg;
    char limitmsg[8][200];
    Viol viol[32];
    volatile int nsample;
    struct { uint32_t len; uint8_t in[MAXIN]; } sample[4];
};
static Ctl* C;
static uint8_t* items;
static uint64_t MAXITEMS = 400000;
static double tEnd;
static unsigned qTimeout = 20000;
static int maxviol = 1;
static std::vector<std::string> known;
static bool verbose = false;

static void lk() { while (__sync_lock_test_and_set(&C->lock, 1)) usleep(20); }
static void ulk() { __sync_lock_release(&C->lock); }
static Item* itemAt(uint64_t i) { return (Item*)(items + i * itemSz); }

static void pushItem(const uint8_t* in, uint32_t len, uint32_t bound, uint64_t ph) {
    lk();
    if (C->top >= MAXITEMS) { C->capped = C->capped + 1; ulk(); return; }
    Item* it = itemAt(C->top);
    it->len = len; it->bound = bound; it->phash = ph;
    memcpy(it->in, in, len);
    C->top = C->top + 1;
    C->items = C->items + 1;
    ulk();
}
static inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static uint64_t evHash(uint64_t h, const Event& e, const Node* nodes) {
    h = hmix(h, nodes[e.node].hash);
    h = hmix(h, (e.kind == E_ASSUME ? E_BRANCH : e.kind) * 16 + e.taken);   // a failing assume is logged as a branch
    if (e.kind == E_CONC) h = hmix(h, e.val);
    return h;
}

struct Solver {
    z3::context ctx;
    std::unordered_map<uint64_t, z3::expr> bvMemo, boolMemo;  // by structural hash
    struct CRes { bool sat; std::vector<std::pair<uint32_t, uint8_t>> model; };
    std::unordered_map<uint64_t, CRes> qcache;
    std::vector<std::vector<uint32_t>> vars;  // per node (this run) sorted var lists
    Node* nodes;
    uint32_t nn;

    z3::expr bv(uint32_t id) {
        const Node& n = nodes[id];
        auto it = bvMemo.find(n.hash);
        if (it != bvMemo.end()) return it->second;
        z3::expr e = mkbv(id);
        bvMemo.emplace(n.hash, e);
        return e;
    }
    z3::expr bl(uint32_t id) {
        const Node& n = nodes[id];
        auto it = boolMemo.find(n.hash);
        if (it != boolMemo.end()) return it->second;
        z3::expr e = mkbl(id);
        boolMemo.emplace(n.hash, e);
        return e;
    }
    z3::expr num(uint64_t v, unsigned w) { return ctx.bv_val((uint64_t)(v & wmask(w)), w); }
    z3::sort fps(unsigned w) { return w == 64 ? ctx.fpa_sort(11, 53) : ctx.fpa_sort(8, 24); }
    z3::expr tofp(z3::expr b, unsigned w) { return z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, fps(w))); }
    z3::expr toieee(z3::expr f) { return z3::expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, f)); }
    z3::expr rne() { return z3::expr(ctx, Z3_mk_fpa_round_nearest_ties_to_even(ctx)); }
    z3::expr rtz() { return z3::expr(ctx, Z3_mk_fpa_round_toward_zero(ctx)); }
    z3::expr isnan(z3::expr b, unsigned w) {
        return w == 64 ? z3::ugt(b & num(0x7fffffffffffffffull, 64), num(0x7ff0000000000000ull, 64)) : z3::ugt(b & num(0x7fffffff, 32), num(0x7f800000, 32));
    }
    // total order key for non-NaN values; -0 and +0 handled separately
    z3::expr fkey(z3::expr b, unsigned w) {
        z3::expr neg = b.extract(w - 1, w - 1) == ctx.bv_val(1, 1);
        return z3::ite(neg, ~b, b | num(1ull << (w - 1), w));
    }
    z3::expr iszero(z3::expr b, unsigned w) { return (b & num(wmask(w - 1), w)) == num(0, w); }
    z3::expr mkbl(uint32_t id) {
        const Node n = nodes[id];
        switch (n.op) {
            case O_CONST: return ctx.bool_val(n.imm & 1);
            case O_EQ: if (nodes[n.a].w == 1) return bl(n.a) == bl(n.b); return bv(n.a) == bv(n.b);
            case O_ULT: return z3::ult(bv(n.a), bv(n.b));
            case O_ULE: return z3::ule(bv(n.a), bv(n.b));
            case O_SLT: return z3::slt(bv(n.a), bv(n.b));
            case O_SLE: return z3::sle(bv(n.a), bv(n.b));
            case O_NOT: return !bl(n.a);
            case O_AND: return bl(n.a) && bl(n.b);
            case O_OR: return bl(n.a) || bl(n.b);
            case O_XOR: return bl(n.a) != bl(n.b);
            case O_ITE: return z3::ite(bl(n.a), bl(n.b), bl(n.c));
            case O_FISNAN: return isnan(bv(n.a), nodes[n.a].w);
            case O_FEQ: case O_FLT: case O_FLE: {
                unsigned w = nodes[n.a].w;
                z3::expr a = bv(n.a), b = bv(n.b);
                z3::expr ok = !isnan(a, w) && !isnan(b, w);
                z3::expr bothz = iszero(a, w) && iszero(b, w);
                if (n.op == O_FEQ) return ok && (bothz || a == b);
                if (n.op == O_FLT) return ok && !bothz && z3::ult(fkey(a, w), fkey(b, w));
                return ok && (bothz || z3::ule(fkey(a, w), fkey(b, w)));
            }
            case O_EXTRACT: return bv(n.a).extract(n.imm, n.imm) == ctx.bv_val(1, 1);
            default: return mkbv(id) == ctx.bv_val(1, 1);
        }
    }
    z3::expr mkbv(uint32_t id) {
        const Node n = nodes[id];
        unsigned w = n.w;
        if (w == 1 && n.op != O_EXTRACT && n.op != O_CONST && (n.op == O_EQ || n.op == O_ULT || n.op == O_ULE || n.op == O_SLT || n.op == O_SLE || n.op == O_NOT || n.op == O_AND || n.op == O_OR || n.op == O_XOR || n.op == O_ITE || n.op == O_FISNAN || n.op == O_FEQ || n.op == O_FLT || n.op == O_FLE))
            return z3::ite(bl(id), ctx.bv_val(1, 1), ctx.bv_val(0, 1));
        switch (n.op) {
            case O_CONST: return num(n.imm, w);
            case O_VAR: return ctx.bv_const(("i" + std::to_string(n.imm)).c_str(), 8);
            case O_ADD: return bv(n.a) + bv(n.b);
            case O_SUB: return bv(n.a) - bv(n.b);
            case O_MUL: return bv(n.a) * bv(n.b);
            case O_UDIV: return z3::udiv(bv(n.a), bv(n.b));
            case O_SDIV: return bv(n.a) / bv(n.b);
            case O_UREM: return z3::urem(bv(n.a), bv(n.b));
            case O_SREM: return z3::srem(bv(n.a), bv(n.b));
            case O_AND: return bv(n.a) & bv(n.b);
            case O_OR: return bv(n.a) | bv(n.b);
            case O_XOR: return bv(n.a) ^ bv(n.b);
            case O_SHL: return z3::shl(bv(n.a), bv(n.b));
            case O_LSHR: return z3::lshr(bv(n.a), bv(n.b));
            case O_ASHR: return z3::ashr(bv(n.a), bv(n.b));
            case O_ITE: return z3::ite(bl(n.a), bv(n.b), bv(n.c));
            case O_CONCAT: return z3::concat(bv(n.a), bv(n.b));
            case O_EXTRACT: return bv(n.a).extract(n.imm + w - 1, n.imm);
            case O_ZEXT: if (nodes[n.a].w == 1) return z3::ite(bl(n.a), num(1, w), num(0, w)); return z3::zext(bv(n.a), w - nodes[n.a].w);
            case O_SEXT: if (nodes[n.a].w == 1) return z3::ite(bl(n.a), num(~0ull, w), num(0, w)); return z3::sext(bv(n.a), w - nodes[n.a].w);
            case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
                z3::expr a = bv(n.a), b = bv(n.b), fa = tofp(a, w), fb = tofp(b, w), r(ctx);
                Z3_ast x = n.op == O_FADD ? Z3_mk_fpa_add(ctx, rne(), fa, fb) : n.op == O_FSUB ? Z3_mk_fpa_sub(ctx, rne(), fa, fb) : n.op == O_FMUL ? Z3_mk_fpa_mul(ctx, rne(), fa, fb) : Z3_mk_fpa_div(ctx, rne(), fa, fb);
                r = z3::expr(ctx, x);
                z3::expr rn(ctx, Z3_mk_fpa_is_nan(ctx, r));
                uint64_t q = w == 64 ? 1ull << 51 : 1u << 22, def = w == 64 ? 0xfff8000000000000ull : 0xffc00000u;
                return z3::ite(isnan(a, w), a | num(q, w), z3::ite(isnan(b, w), b | num(q, w), z3::ite(rn, num(def, w), toieee(r))));
            }
            case O_FPEXT: {
                z3::expr a = bv(n.a);
                z3::expr r(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), tofp(a, 32), fps(64)));
                z3::expr nn_ = z3::concat(a.extract(31, 31), z3::concat(num(0xfff, 12), z3::concat(a.extract(21, 0), num(0, 29))));
                return z3::ite(isnan(a, 32), nn_, toieee(r));
            }
            case O_FPTRUNC: {
                z3::expr a = bv(n.a);
                z3::expr r(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), tofp(a, 64), fps(32)));
                z3::expr nn_ = z3::concat(a.extract(63, 63), z3::concat(num(0x1ff, 9), a.extract(50, 29)));
                return z3::ite(isnan(a, 64), nn_, toieee(r));
            }
            case O_SITOFP: return toieee(z3::expr(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(n.a), fps(w))));
            case O_UITOFP: return toieee(z3::expr(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(n.a), fps(w))));
            case O_FPTOSI: case O_FPTOUI: {
                unsigned wa = nodes[n.a].w;
                z3::expr a = bv(n.a), f = tofp(a, wa);
                bool si = n.op == O_FPTOSI;
                unsigned reg = si ? (w == 64 ? 64 : 32) : (w <= 16 ? 32 : 64);
                // cvttsd2si: out of range (or NaN) gives the integer indefinite value
                z3::expr big(ctx, Z3_mk_fpa_to_sbv(ctx, rtz(), f, reg));
                z3::expr lim = reg == 64 ? ctx.fpa_val(-9223372036854775808.0) : ctx.fpa_val(-2147483649.0);
                z3::expr hi = reg == 64 ? ctx.fpa_val(9223372036854775808.0) : ctx.fpa_val(2147483648.0);
                z3::expr fd = wa == 64 ? f : z3::expr(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), f, fps(64)));
                z3::expr lo = reg == 64 ? z3::expr(ctx, Z3_mk_fpa_geq(ctx, fd, lim)) : z3::expr(ctx, Z3_mk_fpa_gt(ctx, fd, lim));
                z3::expr ok = lo && z3::expr(ctx, Z3_mk_fpa_lt(ctx, fd, hi));
                z3::expr r = z3::ite(ok, big, num(1ull << (reg - 1), reg));
                if (!si && w == 64) {
                    z3::expr u(ctx, Z3_mk_fpa_to_ubv(ctx, rtz(), f, 64));
                    r = z3::ite(ok, big, u);
                }
                return w == reg ? r : r.extract(w - 1, 0);
            }
        }
        fprintf(stderr, "mkbv: bad op %d\n", n.op);
        _exit(4);
    }
    const std::vector<uint32_t>& varsOf(uint32_t id) {
        if (vars.size() <= nn) vars.resize(nn + 1);
        if (!done[id]) {
            // iterative post-order to avoid deep recursion
            std::vector<uint32_t> st{id};
            while (!st.empty()) {
                uint32_t x = st.back();
                if (done[x]) { st.pop_back(); continue; }
                const Node& n = nodes[x];
                uint32_t ch[3] = {n.a, n.b, n.c};
                bool ready = true;
                for (uint32_t c : ch) if (c && !done[c]) { st.push_back(c); ready = false; }
                if (!ready) continue;
                std::vector<uint32_t> v;
                if (n.op == O_VAR) v.push_back(n.imm);
                for (uint32_t c : ch) if (c && n.op != O_VAR) { std::vector<uint32_t> t; std::set_union(v.begin(), v.end(), vars[c].begin(), vars[c].end(), std::back_inserter(t)); v.swap(t); }
                vars[x] = std::move(v);
                done[x] = true;
                st.pop_back();
            }
        }
        return vars[id];
    }
    std::vector<bool> done;
    void beginRun(Node* n, uint32_t count) {
        nodes = n; nn = count;
        vars.assign(nn + 1, {});
        done.assign(nn + 1, false);
        if (bvMemo.size() > 400000) { bvMemo.clear(); boolMemo.clear(); }
        if (qcache.size() > 300000) qcache.clear();
    }
    struct Con { uint32_t node; bool pol; bool conc; uint64_t val; };
    uint64_t conHash(const Con& c) { return hmix(hmix(nodes[c.node].hash, c.conc ? 2 + c.val * 3 : c.pol), 77); }
    z3::expr conExpr(const Con& c) {
        if (c.conc) return bv(c.node) == num(c.val, nodes[c.node].w);
        z3::expr e = bl(c.node);
        return c.pol ? e : !e;
    }
    // -1 unknown, 0 unsat, 1 sat
    int query(const std::vector<Con>& slice, const std::vector<Con>& neg, bool negOfAll, std::vector<std::pair<uint32_t, uint8_t>>& model) {
        std::vector<uint64_t> hs;
        for (auto& c : slice) hs.push_back(conHash(c));
        std::sort(hs.begin(), hs.end());
        uint64_t key = 0x1234;
        for (auto h : hs) key = hmix(key, h);
        for (auto& c : neg) key = hmix(key, conHash(c) * 31 + 5);
        auto it = qcache.find(key);
        if (it != qcache.end()) { __sync_fetch_and_add(&C->qcache, 1); model = it->second.model; return it->second.sat; }
        double t0 = now();
        int res = -1;
        try {
            bool fp = false;
            z3::expr_vector v(ctx);
            for (auto& c : slice) v.push_back(conExpr(c));
            for (auto& c : neg) v.push_back(!conExpr(c));
            z3::solver s(ctx, "QF_BV");
            {
                // FP operations anywhere in the slice?
                std::vector<uint32_t> st;
                std::set<uint32_t> seen;
                for (auto& c : slice) st.push_back(c.node);
                for (auto& c : neg) st.push_back(c.node);
                while (!st.empty() && !fp) {
                    uint32_t x = st.back(); st.pop_back();
                    if (!x || !seen.insert(x).second) continue;
                    const Node& n = nodes[x];
                    if ((n.op >= O_FADD && n.op <= O_FDIV) || n.op >= O_FPEXT) fp = true;
                    st.push_back(n.a); st.push_back(n.b); st.push_back(n.c);
                }
            }
            if (fp) s = z3::solver(ctx, "QF_BVFP"); 
            z3::params p(ctx);
            p.set("timeout", qTimeout);
            s.set(p);
            for (unsigned i = 0; i < v.size(); i++) s.add(v[i]);
            z3::check_result r = s.check();
            if (r == z3::sat) {
                res = 1;
                z3::model m = s.get_model();
                std::set<uint32_t> vs;
                for (auto& c : slice) { auto& q = varsOf(c.node); vs.insert(q.begin(), q.end()); }
                for (auto& c : neg) { auto& q = varsOf(c.node); vs.insert(q.begin(), q.end()); }
                for (uint32_t x : vs) {
                    z3::expr val = m.eval(ctx.bv_const(("i" + std::to_string(x)).c_str(), 8), true);
                    model.push_back({x, (uint8_t)val.get_numeral_uint()});
                }
            } else if (r == z3::unsat) res = 0;
            if (verbose && now() - t0 > 1) {
                std::string f = "/tmp/slow_" + std::to_string(getpid()) + "_" + std::to_string(C->qsat + C->qunsat) + ".smt2";
                FILE* o = fopen(f.c_str(), "w"); if (o) { std::string t = s.to_smt2(); fputs(t.c_str(), o); fclose(o); }
                fprintf(stderr, "slow query %.1fs res=%d -> %s\n", now() - t0, res, f.c_str());
            }
        } catch (z3::exception& e) {
            if (verbose) fprintf(stderr, "z3: %s\n", e.msg());
        }
        uint64_t us = (now() - t0) * 1e6;
        __sync_fetch_and_add(&C->solver_us, us);
        if (us > C->max_query_us) C->max_query_us = us;
        if (res == 1) __sync_fetch_and_add(&C->qsat, 1);
        else if (res == 0) __sync_fetch_and_add(&C->qunsat, 1);
        else __sync_fetch_and_add(&C->qunknown, 1);
        if (res >= 0) qcache[key] = {res == 1, model};
        return res;
    }
};

static bool isKnown(const char* m) {
    for (auto& k : known) if (strstr(m, k.c_str())) return true;
    return false;
}
static void recordViolation(const char* msg, const uint8_t* in, uint32_t len) {
    lk();
    bool dup = false;
    for (int i = 0; i < C->nviol; i++) if (!strcmp(C->viol[i].msg, msg)) dup = true;
    if (!dup && C->nviol < 32) {
        Viol& v = C->viol[C->nviol];
        strncpy(v.msg, msg, 399);
        v.len = len;
        memcpy(v.in, in, len);
        C->nviol = C->nviol + 1;
        int unk = 0;
        for (int i = 0; i < C->nviol; i++) if (!isKnown(C->viol[i].msg)) unk++;
        if (unk >= maxviol) C->stop = 1;
    }
    ulk();
}

static void process(Solver& S, Shared* sh, const Item* it) {
    // account for this run
    __sync_fetch_and_add(&C->runs, 1);
    __sync_fetch_and_add(&C->events, sh->nevents);
    if (sh->nevents > C->maxev) C->maxev = sh->nevents;
    if (sh->nnodes > C->maxnodes) C->maxnodes = sh->nnodes;
    if (sh->inused > C->inputs) C->inputs = sh->inused;
    __sync_fetch_and_add(&C->semMis, sh->semMismatch);
    __sync_fetch_and_add(&C->stale, sh->stale);
    __sync_fetch_and_add(&C->dropped, sh->dropped);
    uint32_t used = std::min(sh->inused, MAXIN);
    // the constraint conjunction so far
    uint64_t h = 0;
    std::vector<Solver::Con> pc;
    S.beginRun(sh->nodes, sh->nnodes);
    if (sh->nevents < it->bound) __sync_fetch_and_add(&C->diverge, 1);
    switch (sh->status) {
        case ST_DONE: __sync_fetch_and_add(&C->paths_done, 1);
            if (C->nsample < 4) { lk(); if (C->nsample < 4) { auto& s = C->sample[C->nsample]; s.len = used; memcpy(s.in, sh->in, used); C->nsample = C->nsample + 1; } ulk(); }
            break;
        case ST_ASSUME: __sync_fetch_and_add(&C->assume_fail, 1); break;
        case ST_VIOL: recordViolation(sh->msg, sh->in, used); break;
        default:
            __sync_fetch_and_add(&C->limits, 1);
            lk();
            { bool dup = false; for (int i = 0; i < C->nlimitmsg; i++) if (!strncmp(C->limitmsg[i], sh->msg, 199)) dup = true;
              if (!dup && C->nlimitmsg < 8) { strncpy(C->limitmsg[C->nlimitmsg], sh->status == ST_NONE ? "process died" : sh->msg, 199); C->nlimitmsg = C->nlimitmsg + 1; } }
            ulk();
            break;
    }
    // index constraints by variable for slicing
    std::unordered_map<uint32_t, std::vector<uint32_t>> byVar;
    for (uint32_t i = 0; i < sh->nevents; i++) {
        if (C->stop || now() > tEnd) return;
        const Event& e = sh->ev[i];
        uint64_t hprev = h;
        h = evHash(h, e, sh->nodes);
        if (i + 1 == it->bound && h != it->phash) { __sync_fetch_and_add(&C->diverge, 1); if (verbose) fprintf(stderr, "divergence at event %u of %u\n", i, sh->nevents); }
        Solver::Con con{e.node, e.taken != 0, e.kind == E_CONC, e.val};
        if (i >= it->bound && e.kind != E_ASSUME) {
            // slice
            auto slice = [&](std::vector<Solver::Con>& out) {
                std::vector<bool> inS(pc.size(), false);
                std::set<uint32_t> seenV;
                std::vector<uint32_t> wl(S.varsOf(e.node));
                for (auto v : wl) seenV.insert(v);
                while (!wl.empty()) {
                    uint32_t v = wl.back(); wl.pop_back();
                    auto f = byVar.find(v);
                    if (f == byVar.end()) continue;
                    for (uint32_t ci : f->second) {
                        if (inS[ci]) continue;
                        inS[ci] = true;
                        for (uint32_t u : S.varsOf(pc[ci].node)) if (seenV.insert(u).second) wl.push_back(u);
                    }
                }
                for (uint32_t k = 0; k < pc.size(); k++) if (inS[k]) out.push_back(pc[k]);
            };
            std::vector<Solver::Con> sl;
            slice(sl);
            std::vector<Solver::Con> neg{con};
            unsigned cap = e.kind == E_CONC ? e.cap : 1, found = 0;
            std::vector<uint8_t> nin(sh->in, sh->in + used);
            while (true) {
                std::vector<std::pair<uint32_t, uint8_t>> model;
                int r = S.query(sl, neg, true, model);
                if (r != 1) break;
                if (found >= cap) { if (e.kind == E_CONC) __sync_fetch_and_add(&C->capped, 1); break; }
                found++;
                std::vector<uint8_t> in2 = nin;
                for (auto& m : model) { if (m.first >= in2.size()) in2.resize(m.first + 1, 0); in2[m.first] = m.second; }
                Event e2 = e;
                if (e.kind == E_CONC) {
                    // evaluate e.node under the model: ask z3's substitution through a simple evaluator
                    std::vector<uint64_t> memo(sh->nnodes + 1);
                    std::vector<bool> md(sh->nnodes + 1, false);
                    std::vector<uint32_t> st{e.node};
                    while (!st.empty()) {
                        uint32_t x = st.back();
                        if (md[x]) { st.pop_back(); continue; }
                        const Node& n = sh->nodes[x];
                        uint32_t ch[3] = {n.a, n.b, n.c};
                        bool ready = true;
                        if (n.op != O_VAR && n.op != O_CONST) for (uint32_t c : ch) if (c && !md[c]) { st.push_back(c); ready = false; }
                        if (!ready) continue;
                        if (n.op == O_VAR) memo[x] = n.imm < in2.size() ? in2[n.imm] : 0;
                        else if (n.op == O_CONST) memo[x] = n.imm;
                        else memo[x] = sym_eval(n.op, n.w, n.imm, n.a ? sh->nodes[n.a].w : 0, n.a ? memo[n.a] : 0, n.b ? sh->nodes[n.b].w : 0, n.b ? memo[n.b] : 0, n.c ? memo[n.c] : 0);
                        md[x] = true;
                        st.pop_back();
                    }
                    e2.val = memo[e.node];
                    bool dup = false;
                    for (auto& q : neg) if (q.val == e2.val) dup = true;
                    if (dup) { __sync_fetch_and_add(&C->diverge, 1); break; }
                    neg.push_back(Solver::Con{e.node, true, true, e2.val});
                } else e2.taken = !e.taken;
                pushItem(in2.data(), in2.size(), i + 1, evHash(hprev, e2, sh->nodes));
                if (e.kind != E_CONC) break;
            }
        }
        uint32_t ci = pc.size();
        pc.push_back(con);
        for (uint32_t v : S.varsOf(e.node)) byVar[v].push_back(ci);
    }
}

static void (*g_run)(const char*);
static std::string g_case;

static void zygote(int rfd, int wfd, unsigned runTimeout) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::vector<uint8_t> buf(MAXIN + 8);
    while (true) {
        uint32_t len;
        if (read(rfd, &len, 4) != 4) _exit(0);
        uint32_t got = 0;
        while (got < len) { ssize_t k = read(rfd, buf.data() + got, len - got); if (k <= 0) _exit(0); got += k; }
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (!verbose) { int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); }
            alarm(runTimeout);
            rt_child_begin(buf.data(), len);
            g_run(g_case.c_str());
            g_sh->status = ST_DONE;
            _exit(0);
        }
        int st = 0;
        if (p > 0) waitpid(p, &st, 0);
        char c = p > 0 ? 1 : 0;
        if (write(wfd, &c, 1) != 1) _exit(0);
    }
}

static void worker(int id, unsigned runTimeout) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(5);
    pid_t z = fork();
    if (z == 0) { close(a[1]); close(b[0]); zygote(a[0], b[1], runTimeout); }
    close(a[0]); close(b[1]);
    Solver* S = new Solver;
    std::vector<uint8_t> ibuf(itemSz);
    Item* it = (Item*)ibuf.data();
    bool idle = false;
    while (!C->stop && now() < tEnd) {
        lk();
        if (C->top == 0) {
            if (!idle) { idle = true; C->idle = C->idle - 1; }
            bool fin = C->idle == 0;
            ulk();
            if (fin) break;
            usleep(500);
            continue;
        }
        if (idle) { idle = false; C->idle = C->idle + 1; }
        C->top = C->top - 1;
        memcpy(it, itemAt(C->top), itemSz);
        ulk();
        double t0 = now();
        if (write(a[1], &it->len, 4) != 4 || (it->len && write(a[1], it->in, it->len) != (ssize_t)it->len)) _exit(6);
        char c;
        if (read(b[0], &c, 1) != 1) _exit(7);
        __sync_fetch_and_add(&C->run_us, (uint64_t)((now() - t0) * 1e6));
        process(*S, g_sh, it);
    }
    kill(z, SIGKILL);
    _exit(0);
}

static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((unsigned char)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); }
    fputc('"', f);
}
static void jhex(FILE* f, const uint8_t* p, uint32_t n) { fputc('"', f); for (uint32_t i = 0; i < n; i++) fprintf(f, "%02x", p[i]); fputc('"', f); }

int solver_main(int argc, char** argv, void (*init)(), void (*run)(const char*)) {
    int jobs = 8;
    double timeout = 600;
    unsigned runTimeout = 20;
    std::string out = "/dev/stdout";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--case") g_case = nx();
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--timeout") timeout = atof(nx().c_str());
        else if (a == "--qtimeout") qTimeout = atoi(nx().c_str());
        else if (a == "--run-timeout") runTimeout = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--known") known.push_back(nx());
        else if (a == "--maxviol") maxviol = atoi(nx().c_str());
        else if (a == "--nomem") rt_set_checkmem(0);
        else if (a == "--verbose") verbose = true;
    }
    signal(SIGPIPE, SIG_IGN);
    itemSz = (sizeof(Item) + MAXIN + 15) & ~15u;
    C = (Ctl*)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    items = (uint8_t*)mmap(0, itemSz * MAXITEMS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_gl = (Global*)mmap(0, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_run = run;
    init();
    double t0 = now();
    tEnd = t0 + timeout;
    C->idle = jobs;  // number of busy workers
    uint8_t zero[1] = {0};
    pushItem(zero, 0, 0, 0);
    std::vector<pid_t> w;
    for (int i = 0; i < jobs; i++) { pid_t p = fork(); if (p == 0) worker(i, runTimeout); w.push_back(p); }
    int bad = 0;
    for (auto p : w) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
    double wall = now() - t0;
    bool exhausted = !C->stop && C->top == 0 && wall < timeout && !bad;
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"case\":"); jstr(f, g_case.c_str());
    fprintf(f, ",\"exhausted\":%s,\"wall_s\":%.3f,\"runs\":%lu,\"paths\":%lu,\"assume_fail\":%lu,\"limits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cached\":%lu,\"diverge\":%lu,\"sem_mismatch\":%lu,\"stale\":%lu,\"dropped\":%lu,\"capped\":%lu,\"events\":%lu,\"max_events\":%lu,\"max_nodes\":%lu,\"input_bytes\":%lu,\"solver_s\":%.3f,\"run_s\":%.3f,\"max_query_s\":%.3f,\"bad_workers\":%d,\"pending\":%lu",
            exhausted ? "true" : "false", wall, C->runs, C->paths_done, C->assume_fail, C->limits, C->qsat, C->qunsat, C->qunknown, C->qcache, C->diverge, C->semMis, C->stale, C->dropped, C->capped, C->events, C->maxev, C->maxnodes, C->inputs, C->solver_us * 1e-6, C->run_us * 1e-6, C->max_query_us * 1e-6, bad, C->top);
    fprintf(f, ",\"violations\":[");
    for (int i = 0; i < C->nviol; i++) { fprintf(f, "%s{\"msg\":", i ? "," : ""); jstr(f, C->viol[i].msg); fprintf(f, ",\"input\":"); jhex(f, C->viol[i].in, C->viol[i].len); fprintf(f, "}"); }
    fprintf(f, "],\"limit_msgs\":[");
    for (int i = 0; i < C->nlimitmsg; i++) { if (i) fputc(',', f); jstr(f, C->limitmsg[i]); }
    fprintf(f, "],\"samples\":[");
    for (int i = 0; i < C->nsample; i++) { if (i) fputc(',', f); jhex(f, C->sample[i].in, C->sample[i].len); }
    fprintf(f, "],\"reach\":{");
    for (int i = 0; i < g_gl->nreach; i++) { if (i) fputc(',', f); jstr(f, g_gl->reach[i].name); fprintf(f, ":%lu", g_gl->reach[i].count); }
    fprintf(f, "},\"leaks\":[");
    for (int i = 0; i < g_gl->nleak; i++) { fprintf(f, "%s{\"fn\":", i ? "," : ""); jstr(f, g_gl->leak[i].name); fprintf(f, ",\"kind\":%d,\"count\":%lu}", g_gl->leak[i].kind, g_gl->leak[i].count); }
    fprintf(f, "],\"functions\":[");
    bool first = true;
    std::set<std::string> seen;
    for (uint32_t i = 1; i <= rt_fn_count(); i++) if (g_gl->fncov[i] && seen.insert(rt_fn_name(i)).second) { if (!first) fputc(',', f); first = false; jstr(f, rt_fn_name(i)); }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
extern "C" __attribute__((visibility("default"))) int symrt_main(int argc, char** argv, void (*init)(), void (*run)(const char*)) { return solver_main(argc, argv, init, run); }
