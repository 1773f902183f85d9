// Explorer: drives an instrumented harness, collects path conditions over the symbolic inputs and decides
// with an SMT solver (z3) every branch alternative and every assertion, until the path tree is exhausted.
#include "ms_ops.h"
#include "ms_trace.h"
#include <z3++.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string; using std::vector;
typedef __int128 I128;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }

struct Job { std::shared_ptr<vector<char>> implied; vector<uint64_t> input; uint32_t bound = 0; struct Extra { uint32_t ev; uint64_t nodeHash; uint64_t val; }; vector<Extra> extras; vector<uint32_t> forced; uint64_t prefixHash = 0; uint32_t prefixLen = 0; bool tie = false; };
struct Violation { string label, kind; vector<uint64_t> input; vector<string> desc; };
struct Shared {
    std::mutex mu; std::condition_variable cv; vector<Job> jobs; int busy = 0; bool stop = false; bool truncated = false;
    string bin, harness; double deadline = 0; unsigned qTimeout = 10000; int runTimeout = 20; uint64_t maxPaths = ~0ull; int maxViol = 1;
    // statistics
    uint64_t runs = 0, paths = 0, assumeFailed = 0, divergences = 0, tieUnreached = 0, unknown = 0, stale = 0, maxEvents = 0, maxNodes = 0, overflow = 0, mismatch = 0, assumeOnly=0;
    uint64_t qSat = 0, qUnsat = 0, qUnknown = 0, qCache = 0, qRange = 0, qFP = 0; double solverTime = 0, maxQuery = 0;
    std::map<string, uint64_t> assertConst, assertSolver, assertUnknown, reach, concF, branchF, violCount;
    std::map<string, uint64_t> unknownAt, divergeAt, hot;
    vector<Violation> viol; vector<string> samples;
    uint64_t concEvents = 0, splits = 0, weak = 0, selfChecks = 0, selfMismatch = 0;
} S;

// ------------------------------------------------------------------ representations
struct Fx { z3::expr bv; I128 lo, hi; unsigned w;  I128 g = 1; }; // value is a multiple of g // signed bitvector with exact integer bounds
static unsigned widthFor(I128 lo, I128 hi) { unsigned w = 1; while (!(lo >= -((I128)1 << (w - 1)) && hi <= ((I128)1 << (w - 1)) - 1)) { ++w; if (w > 126) return 127; } return w; }

struct Give {}; // representation not available

struct Q { Fx n, d; int s; double err; double mag; bool cr = true; }; // value = n/d * 2^s, d >= 1; |fp - value| <= err; |value| <= mag
struct SRep { Q c; Q r; uint32_t rid; double err, mag; bool cr = false; };   // value = c * sqrt(r)
struct ARep { z3::expr x, y; };

struct Rep { int kind = 0; std::optional<Q> q; std::optional<SRep> s; }; // kind 1=Q 2=S

struct Worker {
    z3::context C; int shm = -1, wfd = -1, rfd = -1; pid_t pid = -1; uint8_t* sm = nullptr;
    MsHeader* H; MsNode* N; MsEvent* EV; MsVar* V; char* STR;
    // global (per worker) node table, hash-consed structurally
    struct GN { MsNode n; uint64_t h; vector<uint32_t> vars; int varsDone = 0; };
    vector<GN> G; std::unordered_map<uint64_t, uint32_t> gidx;
    struct GVar { uint32_t kind; int lo, hi, step; string name; std::optional<z3::expr> e; };
    std::map<uint32_t, GVar> gv; // by var index -> may differ between paths; key by hash
    std::unordered_map<uint64_t, uint32_t> gvKey; vector<GVar> GV; vector<uint32_t> gvIndex; // gvIndex: GV id -> var index
    std::unordered_map<uint32_t, z3::expr> ib, fpm, boolm; std::unordered_map<uint32_t, Rep> repm; std::unordered_map<uint32_t, std::pair<I128, I128>> rng;
    std::unordered_map<uint32_t, z3::expr> tieOf; // cmp node -> tie condition
    vector<uint32_t> L; // local node id -> global id
    vector<uint32_t> LV; // local var index -> GV id

    struct QRes { int r; std::map<uint32_t, uint64_t> model; bool tie; };
    std::unordered_map<uint64_t, QRes> cache;

    Worker() {}
    void start() {
        shm = memfd_create("ms", 0); if (ftruncate(shm, MS_TOTAL)) abort();
        sm = (uint8_t*)mmap(nullptr, MS_TOTAL, PROT_READ | PROT_WRITE, MAP_SHARED, shm, 0);
        H = (MsHeader*)sm; V = (MsVar*)(sm + MS_OFF_VARS); STR = (char*)(sm + MS_OFF_STR); EV = (MsEvent*)(sm + MS_OFF_EV); N = (MsNode*)(sm + MS_OFF_NODES);
        int a[2], b[2]; if (pipe(a) || pipe(b)) abort();
        pid = fork();
        if (pid == 0) { close(a[1]); close(b[0]); personality(ADDR_NO_RANDOMIZE); string s1 = std::to_string(shm), s2 = std::to_string(a[0]), s3 = std::to_string(b[1]), s4 = std::to_string(S.runTimeout); execl(S.bin.c_str(), S.bin.c_str(), S.harness.c_str(), s1.c_str(), s2.c_str(), s3.c_str(), s4.c_str(), (char*)nullptr); _exit(9); }
        close(a[0]); close(b[1]); wfd = a[1]; rfd = b[0];
        fcntl(wfd, F_SETFD, FD_CLOEXEC); fcntl(rfd, F_SETFD, FD_CLOEXEC); fcntl(shm, F_SETFD, FD_CLOEXEC);
        G.emplace_back();
    }
    int exec(const vector<uint64_t>& in) {
        uint32_t n = in.size(); if (write(wfd, &n, 4) != 4) return -1; size_t tot = 8ull * n; const char* p = (const char*)in.data(); while (tot) { ssize_t k = write(wfd, p, tot); if (k <= 0) return -1; p += k; tot -= k; }
        int32_t st; char* c = (char*)&st; size_t m = 4; while (m) { ssize_t k = read(rfd, c, m); if (k <= 0) return -1; c += k; m -= k; }
        return st;
    }
    void import() {
        L.assign(H->nNodes, 0); LV.clear();
        for (uint32_t i = 0; i < H->nVars; ++i) {
            uint64_t h = mix(mix(mix(mix(mix(77, i), V[i].kind), (uint32_t)V[i].lo), (uint32_t)V[i].hi), (uint32_t)V[i].step);
            auto it = gvKey.find(h);
            if (it == gvKey.end()) { gvKey[h] = GV.size(); LV.push_back(GV.size()); GVar g{V[i].kind, V[i].lo, V[i].hi, V[i].step, string(STR + V[i].name), {}}; GV.push_back(g); gvIndex.push_back(i); }
            else LV.push_back(it->second);
        }
        for (uint32_t i = 1; i < H->nNodes; ++i) {
            MsNode n = N[i]; n.a = L[n.a]; n.b = L[n.b]; n.c = L[n.c];
            uint64_t imm = n.op == OP_VAR ? LV[n.imm] : n.imm; n.imm = imm;
            uint64_t h = n.op | (n.w << 8) | (n.isf << 16);
            h = mix(h, n.a ? G[n.a].h : 0); h = mix(h, n.b ? G[n.b].h : 1); h = mix(h, n.c ? G[n.c].h : 2); h = mix(h, n.op == OP_VAR ? mix(mix(mix(mix(mix(77, gvIndex[imm]), GV[imm].kind), (uint32_t)GV[imm].lo), (uint32_t)GV[imm].hi), (uint32_t)GV[imm].step) : imm);
            auto it = gidx.find(h);
            if (it != gidx.end()) { L[i] = it->second; continue; }
            GN g; g.n = n; g.h = h; uint32_t id = G.size();
            std::set<uint32_t> vs; if (n.op == OP_VAR) vs.insert(imm); for (uint32_t k : {n.a, n.b, n.c}) if (k) vs.insert(G[k].vars.begin(), G[k].vars.end());
            g.vars.assign(vs.begin(), vs.end());
            G.push_back(std::move(g)); gidx[h] = id; L[i] = id; if (n.op == OP_VAR) vnode[imm] = id;
        }
    }
    // ------------------------------------------------------------------ integer encoding
    z3::expr varInt(uint32_t g) { auto& v = GV[g]; if (!v.e) v.e = C.bv_const(("v" + std::to_string(g)).c_str(), v.kind == 0 ? 32 : widthFor(v.lo, v.hi)); return *v.e; }
    z3::expr varFP(uint32_t g) { auto& v = GV[g]; if (!v.e) v.e = C.constant(("f" + std::to_string(g)).c_str(), C.fpa_sort<64>()); return *v.e; }
    z3::expr kbv(I128 v, unsigned w) {
        if (w <= 64) return C.bv_val((uint64_t)(w == 64 ? (uint64_t)v : ((uint64_t)v & ((1ull << w) - 1))), w);
        uint64_t lo = (uint64_t)v; unsigned hw = w - 64; uint64_t hi = (uint64_t)((unsigned __int128)v >> 64); if (hw < 64) hi &= ((1ull << hw) - 1);
        return z3::concat(C.bv_val(hi, hw), C.bv_val(lo, 64));
    }
    std::pair<I128, I128> full(unsigned w) { return {-((I128)1 << (w - 1)), ((I128)1 << (w - 1)) - 1}; }
    // signed interval of an integer node
    std::pair<I128, I128> range(uint32_t id) {
        auto it = rng.find(id); if (it != rng.end()) return it->second;
        auto& n = G[id].n; auto F = full(n.w); auto r = F;
        auto in = [&](I128 lo, I128 hi) { if (lo >= F.first && hi <= F.second) r = {lo, hi}; };
        switch (n.op) {
        case OP_VAR: r = {GV[n.imm].lo, GV[n.imm].hi}; break;
        case OP_CONST: { I128 v = n.w == 64 ? (I128)(int64_t)n.imm : (I128)((int64_t)(n.imm << (64 - n.w)) >> (64 - n.w)); r = {v, v}; break; }
        case OP_ADD: { auto a = range(n.a), b = range(n.b); in(a.first + b.first, a.second + b.second); break; }
        case OP_SUB: { auto a = range(n.a), b = range(n.b); in(a.first - b.second, a.second - b.first); break; }
        case OP_MUL: { auto a = range(n.a), b = range(n.b); if (widthFor(a.first, a.second) + widthFor(b.first, b.second) < 120) { I128 p[4] = {a.first * b.first, a.first * b.second, a.second * b.first, a.second * b.second}; in(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break; }
        case OP_SEXT: r = range(n.a); break;
        case OP_ZEXT: { auto a = range(n.a); if (a.first >= 0) r = a; else r = {0, ((I128)1 << G[n.a].n.w) - 1}; break; }
        case OP_TRUNC: { auto a = range(n.a); in(a.first, a.second); break; }
        case OP_ITE: { auto a = range(n.b), b = range(n.c); r = {std::min(a.first, b.first), std::max(a.second, b.second)}; break; }
        default: break; }
        rng[id] = r; return r;
    }
    z3::expr toBool(const z3::expr& e) { return e == C.bv_val(1, 1); }
    z3::expr fromBool(const z3::expr& b) { return z3::ite(b, C.bv_val(1, 1), C.bv_val(0, 1)); }
    z3::expr B(uint32_t id) { // boolean view of a 1-bit node
        auto it = boolm.find(id); if (it != boolm.end()) return it->second;
        auto& n = G[id].n; z3::expr r(C);
        switch (n.op) {
        case OP_EQ: case OP_NE: case OP_UGT: case OP_UGE: case OP_ULT: case OP_ULE: case OP_SGT: case OP_SGE: case OP_SLT: case OP_SLE: {
            if (G[n.a].n.w == 1 && (n.op == OP_EQ || n.op == OP_NE)) { auto a = B(n.a), b = B(n.b); r = n.op == OP_EQ ? a == b : a != b; break; }
            auto a = I(n.a), b = I(n.b);
            switch (n.op) { case OP_EQ: r = a == b; break; case OP_NE: r = a != b; break; case OP_UGT: r = z3::ugt(a, b); break; case OP_UGE: r = z3::uge(a, b); break; case OP_ULT: r = z3::ult(a, b); break; case OP_ULE: r = z3::ule(a, b); break; case OP_SGT: r = a > b; break; case OP_SGE: r = a >= b; break; case OP_SLT: r = a < b; break; default: r = a <= b; break; }
            break; }
        case OP_FCMP: r = fcmp(id); break;
        case OP_AND: { z3::expr x = B(n.a), y = B(n.b); r = x.is_false() || y.is_true() ? x : y.is_false() || x.is_true() ? y : (x && y); break; }
        case OP_OR: { z3::expr x = B(n.a), y = B(n.b); r = x.is_true() || y.is_false() ? x : y.is_true() || x.is_false() ? y : (x || y); break; }
        case OP_XOR: { auto a = B(n.a), b = B(n.b); r = a.is_false() ? b : b.is_false() ? a : b.is_true() ? !a : a.is_true() ? !b : (a != b); if (r.is_not() && (r.arg(0).is_true() || r.arg(0).is_false())) r = C.bool_val(r.arg(0).is_false()); break; }
        case OP_ITE: { z3::expr c = B(n.a); r = c.is_true() ? B(n.b) : c.is_false() ? B(n.c) : z3::ite(c, B(n.b), B(n.c)); break; }
        case OP_CONST: r = C.bool_val(n.imm & 1); break;
        case OP_FPCLASS: r = fpclass(id); break;
        case OP_OVF: {
            auto a = I(n.a), b = I(n.b);
            switch (n.imm) {
            case IN_UADDO: r = !z3::bvadd_no_overflow(a, b, false); break; case IN_USUBO: r = z3::ult(a, b); break; case IN_UMULO: r = !z3::bvmul_no_overflow(a, b, false); break;
            case IN_SADDO: r = !(z3::bvadd_no_overflow(a, b, true) && z3::bvadd_no_underflow(a, b)); break;
            case IN_SSUBO: r = !(z3::bvsub_no_overflow(a, b) && z3::bvsub_no_underflow(a, b, true)); break;
            default: r = !(z3::bvmul_no_overflow(a, b, true) && z3::bvmul_no_underflow(a, b)); break; }
            break; }
        default: r = toBool(I(id)); }
        boolm.emplace(id, r); return r;
    }
    z3::expr I(uint32_t id) {
        auto it = ib.find(id); if (it != ib.end()) return it->second;
        auto& n = G[id].n; z3::expr r(C); unsigned w = n.w;
        switch (n.op) {
        case OP_VAR: r = varInt(n.imm); break;
        case OP_CONST: r = C.bv_val((uint64_t)n.imm, w); break;
        case OP_ADD: r = I(n.a) + I(n.b); break; case OP_SUB: r = I(n.a) - I(n.b); break; case OP_MUL: r = I(n.a) * I(n.b); break;
        case OP_UDIV: r = z3::udiv(I(n.a), I(n.b)); break; case OP_SDIV: r = I(n.a) / I(n.b); break; case OP_UREM: r = z3::urem(I(n.a), I(n.b)); break; case OP_SREM: r = z3::srem(I(n.a), I(n.b)); break;
        case OP_SHL: r = z3::shl(I(n.a), I(n.b)); break; case OP_LSHR: r = z3::lshr(I(n.a), I(n.b)); break; case OP_ASHR: r = z3::ashr(I(n.a), I(n.b)); break;
        case OP_AND: if (w == 1) { r = fromBool(B(id)); break; } r = I(n.a) & I(n.b); break; case OP_OR: if (w == 1) { r = fromBool(B(id)); break; } r = I(n.a) | I(n.b); break; case OP_XOR: if (w == 1) { r = fromBool(B(id)); break; } r = I(n.a) ^ I(n.b); break;
        case OP_ZEXT: r = z3::zext(I(n.a), w - G[n.a].n.w); break; case OP_SEXT: r = z3::sext(I(n.a), w - G[n.a].n.w); break;
        case OP_TRUNC: r = I(n.a).extract(w - 1, 0); break; case OP_EXTRACT: r = I(n.a).extract(n.imm + w - 1, n.imm); break; case OP_CONCAT: r = z3::concat(I(n.a), I(n.b)); break;
        case OP_ITE: { z3::expr c = B(n.a); r = c.is_true() ? I(n.b) : c.is_false() ? I(n.c) : z3::ite(c, I(n.b), I(n.c)); break; }
        case OP_FPTOSI: case OP_FPTOUI: r = fptoi(id); break;
        case OP_BITS: r = z3::expr(C, Z3_mk_fpa_to_ieee_bv(C, FP(n.a))); break;
        default: r = fromBool(B(id)); }
        ib.emplace(id, r); return r;
    }
    // ------------------------------------------------------------------ exact fixed-point / rational encoding of doubles
    Fx fxk(I128 v) { unsigned w = widthFor(v, v); return Fx{kbv(v, w), v, v, w, v < 0 ? -v : v}; }
    static I128 gcd(I128 a, I128 b) { while (b) { I128 t = a % b; a = b; b = t; } return a; }
    z3::expr ext(const Fx& a, unsigned w) { return w > a.w ? z3::sext(a.bv, w - a.w) : a.bv; }
    Fx mkfx(z3::expr e, I128 lo, I128 hi, unsigned w) { return Fx{e, lo, hi, w}; }
    static void cap(I128 lo, I128 hi) { if (widthFor(lo, hi) > 118) throw Give(); }
    Fx add(const Fx& a, const Fx& b) { I128 lo = a.lo + b.lo, hi = a.hi + b.hi; cap(lo, hi); unsigned w = std::max(widthFor(lo, hi), std::max(a.w, b.w)); return Fx{(ext(a, w) + ext(b, w)), lo, hi, w, gcd(a.g, b.g)}; }
    Fx neg(const Fx& a) { unsigned w = std::max(a.w, widthFor(-a.hi, -a.lo)); return Fx{-ext(a, w), -a.hi, -a.lo, w, a.g}; }
    Fx sub(const Fx& a, const Fx& b) { I128 lo = a.lo - b.hi, hi = a.hi - b.lo; cap(lo, hi); unsigned w = std::max(widthFor(lo, hi), std::max(a.w, b.w)); return Fx{(ext(a, w) - ext(b, w)), lo, hi, w, gcd(a.g, b.g)}; }
    Fx mul(const Fx& a, const Fx& b) {
        if (widthFor(a.lo, a.hi) + widthFor(b.lo, b.hi) > 118) throw Give();
        if (a.lo == 1 && a.hi == 1) return b; if (b.lo == 1 && b.hi == 1) return a;
        I128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; I128 lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
        if (z3::eq(a.bv, b.bv)) lo = std::max<I128>(lo, 0);
        unsigned w = std::max(widthFor(lo, hi), std::max(a.w, b.w)); return Fx{ext(a, w) * ext(b, w), lo, hi, w, a.g * b.g};
    }
    Fx shl(const Fx& a, int k) { if (k == 0) return a; if (k > 110) throw Give(); return mul(a, fxk((I128)1 << k)); }
    z3::expr lt(const Fx& a, const Fx& b) { if (a.hi < b.lo) return C.bool_val(true); if (a.lo >= b.hi) return C.bool_val(false); unsigned w = std::max(a.w, b.w); return ext(a, w) < ext(b, w); }
    z3::expr eq(const Fx& a, const Fx& b) { if (a.hi < b.lo || a.lo > b.hi) return C.bool_val(false); unsigned w = std::max(a.w, b.w); return ext(a, w) == ext(b, w); }
    Fx fite(const z3::expr& c, const Fx& a, const Fx& b) { I128 lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi); unsigned w = std::max(a.w, b.w); return Fx{z3::ite(c, ext(a, w), ext(b, w)), lo, hi, w, gcd(a.g, b.g)}; }
    static double mx(const Fx& a) { I128 m = a.hi > -a.lo ? a.hi : -a.lo; return (double)m * (1 + 1e-15); }
    static constexpr double U = 1.1102230246251565e-16;
    bool isExactFx(const Q& q) { return q.d.lo == 1 && q.d.hi == 1 && q.err == 0; }
    Q mkq(Fx n, Fx d, int s, double err) { Q q{n, d, s, err, 0}; q.mag = std::ldexp(mx(n), s) / (double)(d.lo < 1 ? 1 : d.lo) * (1 + 1e-12); return q; }
    // after an operation whose exact value is q with propagated error e: add the rounding error unless the result is exactly representable
    Q rnd(Q q, double e) {
        bool exact = e == 0 && q.d.lo == 1 && q.d.hi == 1 && mx(q.n) <= 9007199254740992.0;
        q.cr = e == 0; q.err = exact ? 0 : (e + U * (q.mag + e)) * (1 + 1e-9) + 1e-300; return q;
    }
    static void align(int& s1, int& s2, int& k1, int& k2) { int s = std::min(s1, s2); k1 = s1 - s; k2 = s2 - s; s1 = s2 = s; }
    bool sameDen(const Q& a, const Q& b) { return z3::eq(a.d.bv, b.d.bv) && a.d.lo == b.d.lo && a.d.hi == b.d.hi; }
    Q qadd(const Q& a, const Q& b, bool minus) {
        int s1 = a.s, s2 = b.s, k1, k2; align(s1, s2, k1, k2);
        Fx an = shl(a.n, k1), bn = shl(b.n, k2);
        if (sameDen(a, b)) { return rnd(mkq(minus ? sub(an, bn) : add(an, bn), a.d, s1, 0), a.err + b.err); }
        an = mul(an, b.d); bn = mul(bn, a.d);
        return rnd(mkq(minus ? sub(an, bn) : add(an, bn), mul(a.d, b.d), s1, 0), a.err + b.err);
    }
    Q qmul(const Q& a, const Q& b) {
        double e = a.err * b.mag + b.err * a.mag + a.err * b.err;
        return rnd(mkq(mul(a.n, b.n), mul(a.d, b.d), a.s + b.s, 0), e);
    }
    Q qdiv(const Q& a, const Q& b) { // b != 0 on the path
        if (b.n.lo == b.n.hi && isExactFx(b)) { // constant divisor: power of two is exact
            I128 v = b.n.lo; if (v == 0) throw Give(); I128 av = v < 0 ? -v : v; if ((av & (av - 1)) == 0) { int k = 0; while (((I128)1 << k) < av) ++k; Q r = a; r.s = a.s - b.s - k; if (v < 0) r.n = neg(r.n); r.err = std::ldexp(a.err, -b.s - k); r.mag = std::ldexp(a.mag, -b.s - k); return r; }
        }
        // sign-normalise the divisor
        Fx dn = b.n; Fx num = mul(a.n, b.d); Fx den = mul(a.d, dn);
        if (den.hi <= -1) { num = neg(num); den = neg(den); }
        else if (den.lo < 1) { z3::expr isneg = den.bv < kbv(0, den.w); Fx nn = neg(num), nd = neg(den); num = fite(isneg, nn, num); I128 m = std::max(den.hi, nd.hi); den = fite(isneg, nd, den); den.lo = 1; den.hi = m; }
        double bmin = std::ldexp(1.0, b.s) / (double)b.d.hi; if (b.n.lo > 0) bmin = std::ldexp((double)b.n.lo, b.s) / (double)b.d.hi; if (b.n.hi < 0) bmin = std::ldexp((double)-b.n.hi, b.s) / (double)b.d.hi;
        double bm = bmin - b.err; if (!(bm > 0)) throw Give();
        Q q = mkq(num, den, a.s - b.s, 0);
        q.mag = std::min(q.mag, a.mag / bmin * (1 + 1e-12));
        double e = (a.err + q.mag * b.err) / bm * (1 + 1e-9);
        return rnd(q, e);
    }
    Q qneg(Q a) { a.n = neg(a.n); return a; }
    Q qconst(double d) {
        if (!std::isfinite(d)) throw Give();
        if (d == 0) return mkq(fxk(0), fxk(1), 0, 0);
        int ex; double m = std::frexp(d, &ex); int64_t k = (int64_t)std::ldexp(m, 53); ex -= 53; while ((k & 1) == 0) { k /= 2; ++ex; }
        if (std::abs(ex) > 100) { throw Give(); }
        return mkq(fxk(k), fxk(1), ex, 0);
    }
    const Rep& rep(uint32_t id) {
        auto it = repm.find(id); if (it != repm.end()) return it->second;
        Rep r; try { r = mkrep(id); } catch (Give&) { r = Rep(); }
        return repm.emplace(id, r).first->second;
    }
    const Q& needQ(uint32_t id) { auto& r = rep(id); if (r.kind != 1) throw Give(); return *r.q; }
    static Rep RQ(Q q) { Rep r; r.kind = 1; r.q = q; return r; }
    static Rep RS(SRep q) { Rep r; r.kind = 2; r.s = q; return r; }
    Rep mkrep(uint32_t id) {
        MsNode n = G[id].n;
        if (n.w != 64) throw Give();
        switch (n.op) {
        case OP_VAR: { auto& v = GV[n.imm]; if (v.kind != 1) throw Give(); Fx f{varInt(n.imm), v.lo, v.hi, widthFor(v.lo, v.hi)}; return RQ(mkq(f, fxk(1), v.step, 0)); }
        case OP_CONST: return RQ(qconst(bitsd(n.imm)));
        case OP_FADD: case OP_FSUB: {
            Rep ra = rep(n.a), rb = rep(n.b); bool minus = n.op == OP_FSUB;
            if (ra.kind == 1 && rb.kind == 1) { if (ra.q->n.lo == 0 && ra.q->n.hi == 0 && ra.q->err == 0) return minus ? RQ(qneg(*rb.q)) : rb; if (rb.q->n.lo == 0 && rb.q->n.hi == 0 && rb.q->err == 0) return ra; return RQ(qadd(*ra.q, *rb.q, minus)); }
            if (ra.kind == 2 && rb.kind == 1 && rb.q->n.lo == 0 && rb.q->n.hi == 0 && rb.q->err == 0) return ra;
            if (rb.kind == 2 && ra.kind == 1 && ra.q->n.lo == 0 && ra.q->n.hi == 0 && ra.q->err == 0) { if (minus) { SRep s = *rb.s; s.c = qneg(s.c); return RS(s); } return rb; }
            if (ra.kind == 2 && rb.kind == 2 && ra.s->rid == rb.s->rid) { SRep s = *ra.s; Q x = ra.s->c, y = rb.s->c; x.err = y.err = 0; s.c = qadd(x, y, minus); s.c.err = 0; s.cr = false; s.mag = s.c.mag * std::sqrt(ra.s->r.mag) * (1 + 1e-9); s.err = (ra.s->err + rb.s->err + U * s.mag) * (1 + 1e-9); return RS(s); }
            throw Give(); }
        case OP_FMUL: {
            Rep ra = rep(n.a), rb = rep(n.b);
            if (ra.kind == 1 && rb.kind == 1) return RQ(qmul(*ra.q, *rb.q));
            if (ra.kind == 2 && rb.kind == 2 && ra.s->rid == rb.s->rid) { Q x = ra.s->c, y = rb.s->c, z = ra.s->r; x.err = y.err = z.err = 0; Q q = qmul(qmul(x, y), z); q.cr = false; q.err = (ra.s->err * rb.s->mag + rb.s->err * ra.s->mag + ra.s->err * rb.s->err + U * q.mag) * (1 + 1e-9); return RQ(q); }
            if (ra.kind == 2 && rb.kind == 1) std::swap(ra, rb);
            if (ra.kind == 1 && rb.kind == 2) { SRep s = *rb.s; Q x = *ra.q, y = s.c; x.err = 0; y.err = 0; s.c = qmul(x, y); s.c.err = 0; s.cr = false; s.err = (rb.s->err * ra.q->mag + ra.q->err * rb.s->mag + ra.q->err * rb.s->err) + U * ra.q->mag * rb.s->mag; s.mag = ra.q->mag * rb.s->mag * (1 + 1e-9); return RS(s); }
            throw Give(); }
        case OP_FDIV: {
            Rep ra = rep(n.a), rb = rep(n.b);
            if (ra.kind == 1 && rb.kind == 1) return RQ(qdiv(*ra.q, *rb.q));
            if (ra.kind == 2 && rb.kind == 1) { SRep s = *ra.s; Q y = *rb.q; Q c = s.c; c.err = 0; double be = y.err; y.err = 0; double bmin = std::ldexp(1.0, y.s) / (double)y.d.hi; if (bmin <= be) throw Give(); s.c = qdiv(c, y); s.c.err = 0; s.cr = false; s.mag = ra.s->mag / bmin * (1 + 1e-9); s.err = (ra.s->err + s.mag * be) / (bmin - be) + U * s.mag; return RS(s); }
            if (ra.kind == 1 && rb.kind == 2) { // a / (c sqrt r) = a/(c r) * sqrt r
                SRep s = *rb.s; Q x = *ra.q, c = s.c, rr = s.r; double ae = x.err; x.err = c.err = rr.err = 0; Q den = qmul(c, rr); den.err = 0; s.c = qdiv(x, den); s.c.err = 0; s.cr = false;
                double bmin = std::ldexp(1.0, c.s) / (double)c.d.hi * std::sqrt(std::ldexp(1.0, rr.s) / (double)rr.d.hi); if (bmin <= rb.s->err) throw Give(); s.mag = ra.q->mag / bmin * (1 + 1e-9); s.err = (ae + s.mag * rb.s->err) / (bmin - rb.s->err) + U * s.mag; return RS(s); }
            throw Give(); }
        case OP_ITE: {
            z3::expr c = B(n.a); if (c.is_true()) return rep(n.b); if (c.is_false()) return rep(n.c);
            Rep ra = rep(n.b), rb = rep(n.c);
            if (ra.kind == 1 && rb.kind == 1) {
                Q a = *ra.q, b = *rb.q; int s1 = a.s, s2 = b.s, k1, k2; align(s1, s2, k1, k2);
                Q q{fite(c, shl(a.n, k1), shl(b.n, k2)), sameDen(a, b) ? a.d : fite(c, a.d, b.d), s1, std::max(a.err, b.err), std::max(a.mag, b.mag), a.cr && b.cr}; return RQ(q);
            }
            throw Give(); }
        case OP_SITOFP: case OP_UITOFP: {
            auto r = range(n.a); unsigned w = G[n.a].n.w; Fx f{I(n.a), r.first, r.second, w};
            if (n.op == OP_UITOFP && r.first < 0) { f.bv = z3::zext(f.bv, 1); f.w = w + 1; f.lo = 0; f.hi = ((I128)1 << w) - 1; }
            else { unsigned nw = widthFor(f.lo, f.hi); if (nw < f.w) { f.bv = f.bv.extract(nw - 1, 0); f.w = nw; } }
            return RQ(rnd(mkq(f, fxk(1), 0, 0), 0)); }
        case OP_FBITS: throw Give();
        case OP_FUN:
            switch (n.imm) {
            case FN_NEG: { Rep a = rep(n.a); if (a.kind == 1) return RQ(qneg(*a.q)); if (a.kind == 2) { SRep s = *a.s; s.c = qneg(s.c); return RS(s); } throw Give(); }
            case FN_ABS: { Rep a = rep(n.a); if (a.kind == 1) { Q q = *a.q; if (q.n.lo >= 0) return a; z3::expr ng = q.n.bv < kbv(0, q.n.w); I128 m = std::max(q.n.hi, -q.n.lo); q.n = fite(ng, neg(q.n), q.n); q.n.lo = 0; q.n.hi = m; return RQ(q); }
                if (a.kind == 2) { SRep s = *a.s; Q& q = s.c; if (q.n.lo >= 0) return a; z3::expr ng = q.n.bv < kbv(0, q.n.w); I128 m = std::max(q.n.hi, -q.n.lo); q.n = fite(ng, neg(q.n), q.n); q.n.lo = 0; q.n.hi = m; return RS(s); } throw Give(); }
            case FN_SQRT: { Q q = needQ(n.a); if (q.n.lo == q.n.hi && isExactFx(q)) throw Give(); double e; double mg = std::sqrt(q.mag) * (1 + 1e-12);
                // |sqrt(x+e)-sqrt(x)| <= min(sqrt(e), e/sqrt(xmin)); x = 0 is exact when err = 0
                bool ex = q.err == 0; e = ex ? 0 : std::sqrt(q.err); q.err = 0; if (q.n.lo < 0) { q.n.lo = 0; }
                SRep s{mkq(fxk(1), fxk(1), 0, 0), q, G[id].n.a, e + U * mg, mg, ex}; return RS(s); }
            case FN_HYPOT: { Q a = needQ(n.a), b = needQ(n.b); if (a.err || b.err) throw Give(); Q q = qadd(qmul(a, a), qmul(b, b), false); q.err = 0; double mg = std::sqrt(q.mag) * (1 + 1e-12); if (q.n.lo < 0) q.n.lo = 0;
                SRep s{mkq(fxk(1), fxk(1), 0, 0), q, id, 2 * U * mg, mg}; return RS(s); }
            case FN_FLOOR: case FN_CEIL: case FN_TRUNC: case FN_ROUND: { Q q = needQ(n.a); if (!isExactFx(q)) throw Give(); if (q.s >= 0) return RQ(q); int k = -q.s; if (k > 60) throw Give(); I128 one = (I128)1 << k;
                Fx f = q.n; if (n.imm == FN_TRUNC) { z3::expr ng = f.bv < kbv(0, f.w); Fx up = add(f, fxk(one - 1)); f = fite(ng, up, f); } else if (n.imm == FN_CEIL) f = add(f, fxk(one - 1));
                else if (n.imm == FN_ROUND) { // half away from zero
                    z3::expr ng = f.bv < kbv(0, f.w); Fx p = add(f, fxk(one / 2)); Fx m = add(f, fxk(one / 2 - 1)); f = fite(ng, m, p); }
                unsigned w = std::max<unsigned>(f.w, k + 1); z3::expr e = z3::ashr(ext(f, w), kbv(k, w)); I128 lo = f.lo >> k, hi = f.hi >> k; unsigned nw = widthFor(lo, hi); e = nw < w ? e.extract(nw - 1, 0) : e; return RQ(mkq(Fx{e, lo, hi, std::min(nw, w)}, fxk(1), 0, 0)); }
            case FN_MIN: case FN_MAX: { Q a = needQ(n.a), b = needQ(n.b); if (!isExactFx(a) || !isExactFx(b)) throw Give(); int s1 = a.s, s2 = b.s, k1, k2; align(s1, s2, k1, k2); Fx x = shl(a.n, k1), y = shl(b.n, k2); z3::expr c = lt(x, y); Fx r = n.imm == FN_MIN ? fite(c, x, y) : fite(c, y, x); return RQ(mkq(r, fxk(1), s1, 0)); }
            default: throw Give(); }
        default: throw Give(); }
    }
    // ------------------------------------------------------------------ IEEE encoding
    z3::expr rne() { return z3::expr(C, Z3_mk_fpa_rne(C)); }
    z3::expr FP(uint32_t id) {
        auto it = fpm.find(id); if (it != fpm.end()) return it->second;
        MsNode n = G[id].n; z3::expr r(C); z3::sort so = n.w == 64 ? C.fpa_sort<64>() : C.fpa_sort<32>();
        auto fx2fp = [&](const Q& q) { z3::expr e(C, Z3_mk_fpa_to_fp_signed(C, rne(), ext(q.n, std::max(q.n.w, 2u)), so)); if (q.s) { e = z3::expr(C, Z3_mk_fpa_mul(C, rne(), e, C.fpa_val(std::ldexp(1.0, q.s)))); } return e; };
        if (n.op != OP_CONST && n.w == 64) { auto& rp = rep(id); if (rp.kind == 1 && isExactFx(*rp.q)) { r = fx2fp(*rp.q); fpm.emplace(id, r); return r; } }
        switch (n.op) {
        case OP_VAR: if (GV[n.imm].kind != 2) throw Give(); r = varFP(n.imm); break;
        case OP_CONST: r = z3::expr(C, Z3_mk_fpa_to_fp_bv(C, C.bv_val((uint64_t)n.imm, n.w), so)); break;
        case OP_FADD: r = z3::expr(C, Z3_mk_fpa_add(C, rne(), FP(n.a), FP(n.b))); break; case OP_FSUB: r = z3::expr(C, Z3_mk_fpa_sub(C, rne(), FP(n.a), FP(n.b))); break;
        case OP_FMUL: r = z3::expr(C, Z3_mk_fpa_mul(C, rne(), FP(n.a), FP(n.b))); break; case OP_FDIV: r = z3::expr(C, Z3_mk_fpa_div(C, rne(), FP(n.a), FP(n.b))); break;
        case OP_ITE: { z3::expr c = B(n.a); r = c.is_true() ? FP(n.b) : c.is_false() ? FP(n.c) : z3::ite(c, FP(n.b), FP(n.c)); break; }
        case OP_SITOFP: r = z3::expr(C, Z3_mk_fpa_to_fp_signed(C, rne(), I(n.a), so)); break; case OP_UITOFP: r = z3::expr(C, Z3_mk_fpa_to_fp_unsigned(C, rne(), I(n.a), so)); break;
        case OP_FPEXT: case OP_FPTRUNC: r = z3::expr(C, Z3_mk_fpa_to_fp_float(C, rne(), FP(n.a), so)); break;
        case OP_FBITS: r = z3::expr(C, Z3_mk_fpa_to_fp_bv(C, I(n.a), so)); break;
        case OP_FUN: switch (n.imm) { case FN_NEG: r = z3::expr(C, Z3_mk_fpa_neg(C, FP(n.a))); break; case FN_ABS: r = z3::expr(C, Z3_mk_fpa_abs(C, FP(n.a))); break; case FN_SQRT: r = z3::expr(C, Z3_mk_fpa_sqrt(C, rne(), FP(n.a))); break;
            case FN_FLOOR: r = z3::expr(C, Z3_mk_fpa_round_to_integral(C, z3::expr(C, Z3_mk_fpa_rtn(C)), FP(n.a))); break; case FN_CEIL: r = z3::expr(C, Z3_mk_fpa_round_to_integral(C, z3::expr(C, Z3_mk_fpa_rtp(C)), FP(n.a))); break; case FN_TRUNC: r = z3::expr(C, Z3_mk_fpa_round_to_integral(C, z3::expr(C, Z3_mk_fpa_rtz(C)), FP(n.a))); break; case FN_ROUND: r = z3::expr(C, Z3_mk_fpa_round_to_integral(C, z3::expr(C, Z3_mk_fpa_rna(C)), FP(n.a))); break; case FN_RINT: r = z3::expr(C, Z3_mk_fpa_round_to_integral(C, rne(), FP(n.a))); break;
            case FN_MIN: r = z3::expr(C, Z3_mk_fpa_min(C, FP(n.a), FP(n.b))); break; case FN_MAX: r = z3::expr(C, Z3_mk_fpa_max(C, FP(n.a), FP(n.b))); break;
            default: throw Give(); } break;
        default: throw Give(); }
        fpm.emplace(id, r); return r;
    }
    z3::expr fptoi(uint32_t id) {
        MsNode n = G[id].n; auto& rp = rep(n.a);
        if (rp.kind == 1 && isExactFx(*rp.q)) {
            Q q = *rp.q; Fx f = q.n; if (q.s > 0) f = shl(f, q.s); else if (q.s < 0) { int k = -q.s; if (k > 60) throw Give(); I128 one = (I128)1 << k; z3::expr ng = f.bv < kbv(0, f.w); f = fite(ng, add(f, fxk(one - 1)), f); unsigned w = std::max<unsigned>(f.w, k + 1); f = Fx{z3::ashr(ext(f, w), kbv(k, w)), f.lo >> k, f.hi >> k, w}; }
            return f.w > n.w ? f.bv.extract(n.w - 1, 0) : ext(f, n.w);
        }
        if (rp.kind == 1 || rp.kind == 2) { // truncation of a rational: integer t with t = trunc(value); rounding near integers may be ambiguous -> FP
        }
        z3::expr f = FP(n.a), rz(C, Z3_mk_fpa_rtz(C));
        return z3::expr(C, n.op == OP_FPTOSI ? Z3_mk_fpa_to_sbv(C, rz, f, n.w) : Z3_mk_fpa_to_ubv(C, rz, f, n.w));
    }
    z3::expr fpclass(uint32_t id) {
        MsNode n = G[id].n; auto& rp = rep(n.a); uint64_t m = n.imm;
        if (rp.kind) { // finite
            if (m == 3) return C.bool_val(false); if (m == 0x1f8) return C.bool_val(true); if (m == 0x204) return C.bool_val(false);
        }
        z3::expr f = FP(n.a), r = C.bool_val(false);
        auto ex = [&](Z3_ast a) { return z3::expr(C, a); };
        z3::expr ng = ex(Z3_mk_fpa_is_negative(C, f));
        if (m & 3) r = r || ex(Z3_mk_fpa_is_nan(C, f));
        auto grp = [&](uint64_t nb, uint64_t pb, z3::expr c) { if (m & nb) r = r || (c && ng); if (m & pb) r = r || (c && !ng); };
        grp(4, 0x200, ex(Z3_mk_fpa_is_infinite(C, f))); grp(8, 0x100, ex(Z3_mk_fpa_is_normal(C, f))); grp(0x10, 0x80, ex(Z3_mk_fpa_is_subnormal(C, f))); grp(0x20, 0x40, ex(Z3_mk_fpa_is_zero(C, f)));
        return r;
    }
    // signed square of a representation, as rational N/D * 2^s with D>0
    Q ssq(const Rep& r) {
        if (r.kind == 1) { Q q = *r.q; q.err = 0; Q aq = q; if (q.n.lo < 0) { z3::expr ng = q.n.bv < kbv(0, q.n.w); I128 m = std::max(q.n.hi, -q.n.lo); aq.n = fite(ng, neg(q.n), q.n); aq.n.lo = 0; aq.n.hi = m; } Q z = qmul(aq, q); z.err = 0; return z; }
        Q c = r.s->c; c.err = 0; Q ac = c; if (c.n.lo < 0) { z3::expr ng = c.n.bv < kbv(0, c.n.w); I128 m = std::max(c.n.hi, -c.n.lo); ac.n = fite(ng, neg(c.n), c.n); ac.n.lo = 0; ac.n.hi = m; }
        Q z = qmul(qmul(ac, c), r.s->r); z.err = 0; return z;
    }
    string dump(uint32_t id, int d) {
        auto& n = G[id].n; if (n.op == OP_VAR) return GV[n.imm].name; if (n.op == OP_CONST) { char b[40]; if (n.isf) snprintf(b, 40, "%.17g", bitsd(n.imm)); else snprintf(b, 40, "%ld", (long)n.imm); return b; }
        string rk; if (n.isf && n.w == 64) { auto& r = rep(id); char b[80]; snprintf(b, 80, "{k%d s%d w%u e%.3g}", r.kind, r.kind == 1 ? r.q->s : 0, r.kind == 1 ? r.q->n.w : 0, r.kind == 1 ? r.q->err : r.kind == 2 ? r.s->err : 0.0); rk = b; }
        if (!d) return "#" + std::to_string(id) + rk;
        static const char* nm[] = {"none", "var", "const", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "frem", "fcmp", "fun", "zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bits", "fbits", "extract", "concat", "ite", "ovf", "fpclass"};
        string r = string("(") + nm[n.op] + rk; if (n.op == OP_FUN || n.op == OP_FCMP) r += ":" + std::to_string(n.imm); for (uint32_t k : {n.a, n.b, n.c}) if (k) r += " " + dump(k, d - 1); return r + ")";
    }
    z3::expr fcmp(uint32_t id) { MsNode n = G[id].n; int budget = 24; return fcmpAB(id, n, budget); }
    // n: operands and predicate of the comparison; id: the comparison node it stands for
    z3::expr fcmpAB(uint32_t id, MsNode n, int& budget) {
        unsigned p = n.imm; // LLVM predicate: 1 OEQ 2 OGT 3 OGE 4 OLT 5 OLE 6 ONE 7 ORD 8 UNO 9 UEQ 10 UGT 11 UGE 12 ULT 13 ULE 14 UNE
        try {
            Rep a = rep(n.a), b = rep(n.b);
            // a comparison against an infinite or huge constant is decided by the bounds
            auto mag = [](const Rep& r) { return r.kind == 1 ? r.q->mag + r.q->err : r.kind == 2 ? r.s->mag + r.s->err : -1.0; };
            for (int sw = 0; sw < 2; ++sw) { const Rep& x = sw ? b : a; uint32_t o = sw ? n.a : n.b; if (x.kind && G[o].n.op == OP_CONST) { double c = bitsd(G[o].n.imm); if (!std::isnan(c) && std::fabs(c) > mag(x)) { bool xlt = c > 0; bool alt = sw ? !xlt : xlt; unsigned q = p & 7; bool res = (q == 4 || q == 5) ? alt : (q == 2 || q == 3) ? !alt : q == 6 ? true : q == 7 ? p == 7 : false; if (p == 8) res = false; if (p == 7) res = true; return C.bool_val(res); } } }
            // a tiny nonzero constant against a value that is zero or much larger: only the sign of the value counts
            for (int sw = 0; sw < 2; ++sw) {
                const Rep& x = sw ? b : a; uint32_t o = sw ? n.a : n.b; if (x.kind != 1 || G[o].n.op != OP_CONST) continue;
                double c = bitsd(G[o].n.imm); if (!(std::fabs(c) < 1e-30) || c == 0) continue; const Q& q = *x.q; if (!(q.err == 0 || q.cr)) continue;
                double least = std::ldexp(1.0, q.s) / (double)q.d.hi; if (!(least * 0.5 > std::fabs(c))) continue;
                z3::expr xlt = c > 0 ? !lt(fxk(0), q.n) : lt(q.n, fxk(0)); z3::expr alt = sw ? !xlt : xlt;
                switch (p & 7) { case 1: return C.bool_val(false); case 2: case 3: return !alt; case 4: case 5: return alt; case 6: return C.bool_val(true); default: return C.bool_val(p == 7); }
            }
            if (a.kind && b.kind) {
                if (p == 7) return C.bool_val(true); if (p == 8) return C.bool_val(false);
                // a tiny nonzero constant against an exact fixed-point value was handled by qconst range; compare
                double ea = a.kind == 1 ? a.q->err : a.s->err, eb = b.kind == 1 ? b.q->err : b.s->err;
                if (a.kind == 1 && b.kind == 1) {
                    // threshold comparison with a high-precision constant: round the constant to the grid of the other side
                    for (int sw = 0; sw < 2; ++sw) {
                        Rep& x = sw ? b : a; Rep& k = sw ? a : b;
                        if (k.q->n.lo == k.q->n.hi && isExactFx(*k.q) && isExactFx(*x.q) && k.q->s < x.q->s) {
                            int d = x.q->s - k.q->s; I128 v = k.q->n.lo; 
                            I128 f = d > 120 ? (v < 0 ? -1 : 0) : (v >> d); // floor(k / grid)
                            bool exact = d <= 120 && (f << d) == v;
                            if (!exact) { // x < k <=> x <= floor ; x > k <=> x >= floor+1 ; never equal
                                z3::expr le = !lt(fxk(f), x.q->n); z3::expr xlt = le, xgt = !le; unsigned q = p & 7; z3::expr alt = sw ? xgt : xlt;
                                switch (q) { case 1: return C.bool_val(false); case 2: case 3: return !alt; case 4: case 5: return alt; default: return C.bool_val(true); }
                            }
                        }
                    }
                }
                bool exactCmp = ea == 0 && eb == 0;
                Q x = mkq(fxk(0), fxk(1), 0, 0), y = x; bool squared = false;
                if (a.kind == 1 && b.kind == 1) { x = *a.q; y = *b.q; }
                else if (a.kind == 2 && b.kind == 2 && a.s->rid == b.s->rid) { x = a.s->c; y = b.s->c; // same positive radicand (or zero)
                    Q xx = ssq(a), yy = ssq(b); x = xx; y = yy; squared = true; }
                else { x = ssq(a); y = ssq(b); squared = true; }
                int s1 = x.s, s2 = y.s, k1, k2; align(s1, s2, k1, k2);
                Fx l = shl(x.n, k1), r = shl(y.n, k2);
                double gap; // minimal nonzero distance between the two exact values
                if (!sameDen(x, y)) { l = mul(l, y.d); r = mul(r, x.d); gap = std::ldexp(1.0, s1) / ((double)x.d.hi * (double)y.d.hi); } else gap = std::ldexp(1.0, s1) / (double)x.d.hi;
                { // every difference is a multiple of the common content; with one side taking few values the least difference is found by listing them
                    I128 gl = l.g, gr = r.g, unit = gcd(gl, gr); if (unit > 1) gap *= (double)unit * (1 - 1e-15);
                    for (int sw = 0; sw < 2; ++sw) { I128 gx = sw ? gr : gl, gy = sw ? gl : gr; const Fx& f = sw ? l : r; if (gx <= 1 || gy <= 0) continue; I128 mxv = std::max(f.hi, -f.lo) / gy; if (mxv <= 0 || mxv > 5000) continue;
                        I128 step = gy % gx, cur = 0, best = gx; for (I128 j = 1; j <= mxv; ++j) { cur += step; if (cur >= gx) cur -= gx; I128 d = std::min(cur, gx - cur); if (d > 0 && d < best) best = d; }
                        double g2 = gap / (double)std::max<I128>(unit, 1) * (double)best * (1 - 1e-14); if (g2 > gap) gap = g2; }
                }
                if (squared) { double m = mag(a) + mag(b); gap = m > 0 ? gap / m : 0; }
                z3::expr LT = lt(l, r), EQ = eq(l, r);
                auto res = [&](z3::expr LTx, z3::expr EQx) { unsigned q = p & 7; switch (q) { case 1: return EQx; case 2: return !LTx && !EQx; case 3: return !LTx; case 4: return LTx; case 5: return LTx || EQx; default: return !EQx; } };
                if (exactCmp) return res(LT, EQ);
                if (!(gap > ea + eb)) throw Give();
                { bool ca = a.kind == 1 ? a.q->cr : a.s->cr, cb = b.kind == 1 ? b.q->cr : b.s->cr; if (ca && cb) return res(LT, EQ); } // both are the correct rounding of their exact value: equal values round equally
                // sqrt and division are correctly rounded: a perfect tie can fall either way only when both sides are inexact
                z3::expr amb = C.bool_const(("amb" + std::to_string(n.a) + "_" + std::to_string(n.b) + "_" + std::to_string(p)).c_str());
                { auto it = tieOf.find(id); if (it == tieOf.end()) tieOf.emplace(id, EQ); else it->second = it->second || EQ; }
                return z3::ite(EQ, amb, res(LT, C.bool_val(false)));
            }
        } catch (Give&) {}
        // compare the branches of a selection separately
        for (int sw = 0; sw < 2; ++sw) {
            uint32_t o = sw ? n.a : n.b; if (G[o].n.op != OP_ITE || --budget < 0) continue;
            z3::expr c = B(G[o].n.a); MsNode t = n, f = n; (sw ? t.a : t.b) = G[o].n.b; (sw ? f.a : f.b) = G[o].n.c;
            if (c.is_true()) return fcmpAB(id, t, budget); if (c.is_false()) return fcmpAB(id, f, budget);
            z3::expr x = fcmpAB(id, t, budget), y = fcmpAB(id, f, budget); return z3::ite(c, x, y);
        }
        if (G[n.a].n.op == OP_CONST && G[n.b].n.op == OP_CONST) { double x = bitsd(G[n.a].n.imm), y = bitsd(G[n.b].n.imm); bool un = std::isnan(x) || std::isnan(y); unsigned q = p & 7; bool r = q == 1 ? x == y : q == 2 ? x > y : q == 3 ? x >= y : q == 4 ? x < y : q == 5 ? x <= y : q == 6 ? x < y || x > y : false; return C.bool_val(p == 7 ? !un : p == 8 ? un : p > 8 ? un || r : r); }
        if (getenv("MS_DEBUG")) { static std::atomic<int> cnt{0}; if (cnt++ < 12) fprintf(stderr, "FP fallback: pred %u: %s  vs  %s\n", p, dump(n.a, 6).c_str(), dump(n.b, 6).c_str()); }
        z3::expr a = FP(n.a), b = FP(n.b);
        auto ex = [&](Z3_ast x) { return z3::expr(C, x); };
        z3::expr un = ex(Z3_mk_fpa_is_nan(C, a)) || ex(Z3_mk_fpa_is_nan(C, b));
        z3::expr r(C);
        switch (p & 7) { case 1: r = ex(Z3_mk_fpa_eq(C, a, b)); break; case 2: r = ex(Z3_mk_fpa_gt(C, a, b)); break; case 3: r = ex(Z3_mk_fpa_geq(C, a, b)); break; case 4: r = ex(Z3_mk_fpa_lt(C, a, b)); break; case 5: r = ex(Z3_mk_fpa_leq(C, a, b)); break; case 6: r = ex(Z3_mk_fpa_lt(C, a, b)) || ex(Z3_mk_fpa_gt(C, a, b)); break; default: r = !un; break; }
        if (p == 7) return !un; if (p == 8) return un;
        if (p > 8) return un || r;
        return r;
    }
    // ------------------------------------------------------------------ path constraints
    struct Con { uint32_t g; bool neg; int pinned; uint64_t val; uint64_t h; }; // literal over a node: bool node, or (node == val)
    z3::expr lit(const Con& c) {
        if (c.pinned && G[c.g].n.op == OP_VAR) { z3::expr v = varInt(G[c.g].n.imm); z3::expr e = v == kbv((I128)(int64_t)c.val, v.get_sort().bv_size()); return c.neg ? !e : e; }
        if (c.pinned) { z3::expr e = I(c.g) == C.bv_val((uint64_t)c.val, G[c.g].n.w); return c.neg ? !e : e; }
        z3::expr e = B(c.g); if (c.neg && (e.is_true() || e.is_false())) return C.bool_val(e.is_false()); return c.neg ? !e : e;
    }
    void collectTies(uint32_t g, std::set<uint32_t>& seen, vector<z3::expr>& out) {
        if (!g || !seen.insert(g).second) return; auto it = tieOf.find(g); if (it != tieOf.end()) out.push_back(it->second);
        collectTies(G[g].n.a, seen, out); collectTies(G[g].n.b, seen, out); collectTies(G[g].n.c, seen, out);
    }
    bool usesFP(const z3::expr& e) { std::set<unsigned> seen; vector<z3::expr> st{e}; while (!st.empty()) { z3::expr x = st.back(); st.pop_back(); if (!seen.insert(x.id()).second) continue; if (x.get_sort().sort_kind() == Z3_FLOATING_POINT_SORT) return true; if (x.is_app()) for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i)); } return false; }
    // conjunction of pc (sliced) and flip; returns 1 sat 0 unsat 2 unknown
    // incremental solver of the path being processed: its literals are asserted (and bit-blasted) once
    struct Inc { std::optional<z3::solver> so; size_t n = 0; bool fp = false, weak = false; std::set<uint32_t> vars; std::set<uint64_t> seen; } inc_;
    void incReset() { inc_ = Inc(); }
    bool incAssert(const vector<Con>& pc) {
        if (inc_.fp) return false;
        if (!inc_.so) { inc_.so.emplace(C, z3::solver::simple()); z3::params pr(C); pr.set("timeout", std::min(S.qTimeout, 3000u)); inc_.so->set(pr); }
        for (; inc_.n < pc.size(); ++inc_.n) {
            auto& c = pc[inc_.n]; if (!inc_.seen.insert(c.h).second) continue;
            try { z3::expr e = lit(c); if (usesFP(e)) { inc_.fp = true; inc_.so.reset(); return false; } addRanges(*inc_.so, c.g, inc_.vars); inc_.so->add(e); } catch (Give&) { inc_.weak = true; }
        }
        return true;
    }
    void addRanges(z3::solver& so, uint32_t node, std::set<uint32_t>& have) {
        for (uint32_t v : G[node].vars) { auto& g = GV[v]; if (g.kind == 2 || !g.e) continue; if (!have.insert(v).second) continue; z3::expr e = *g.e; unsigned w = e.get_sort().bv_size(); if (!(w == widthFor(g.lo, g.hi) && g.lo == full(w).first && g.hi == full(w).second)) { so.add(e >= kbv(g.lo, w)); so.add(e <= kbv(g.hi, w)); } }
    }
    void readModel(z3::model& m, const std::set<uint32_t>& vs, QRes& res) {
        for (uint32_t v : vs) { auto& g = GV[v]; if (!g.e) continue; z3::expr x = m.eval(*g.e, true);
            if (g.kind == 2) { z3::expr b = m.eval(z3::expr(C, Z3_mk_fpa_to_ieee_bv(C, x)), true).simplify(); uint64_t u; if (b.is_numeral_u64(u)) res.model[gvIndex[v]] = u; else res.model[gvIndex[v]] = 0x7ff8000000000000ull; }
            else { uint64_t u = 0; x.is_numeral_u64(u); unsigned w = g.e->get_sort().bv_size(); int64_t s = w == 64 ? (int64_t)u : ((int64_t)(u << (64 - w)) >> (64 - w)); res.model[gvIndex[v]] = (uint64_t)s; } }
    }
    QRes solve(const vector<Con>& pc, const Con& flip, bool noTies) {
        // decided by the value ranges alone
        try { z3::expr f = lit(flip); if (f.is_false()) { std::lock_guard<std::mutex> l(S.mu); S.qRange++; return QRes{0, {}, false}; } } catch (Give&) {} catch (z3::exception&) {}
        // slice
        vector<char> inc(pc.size(), 0); std::set<uint32_t> vs(G[flip.g].vars.begin(), G[flip.g].vars.end());
        bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < pc.size(); ++i) if (!inc[i]) { bool hit = false; for (uint32_t v : G[pc[i].g].vars) if (vs.count(v)) { hit = true; break; } if (hit) { inc[i] = 1; ch = true; vs.insert(G[pc[i].g].vars.begin(), G[pc[i].g].vars.end()); } } }
        vector<uint64_t> hs; for (size_t i = 0; i < pc.size(); ++i) if (inc[i]) hs.push_back(pc[i].h); std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
        uint64_t key = mix(flip.h, noTies); for (auto h : hs) key = mix(key, h);
        auto it = cache.find(key); if (it != cache.end()) { std::lock_guard<std::mutex> l(S.mu); S.qCache++; return it->second; }
        QRes res{2, {}, false};
        double t0 = now(); bool fp = false, weak = false;
        bool done = false;
        if (!getenv("MS_NOINC")) try {
            z3::expr fl = lit(flip);
            if (!usesFP(fl) && incAssert(pc)) {
                auto& so = *inc_.so; done = true; weak = inc_.weak;
                so.push(); std::set<uint32_t> have = inc_.vars; addRanges(so, flip.g, have); so.add(fl);
                if (noTies) { std::set<uint32_t> seen; vector<z3::expr> ties; for (size_t i = 0; i < pc.size(); ++i) if (inc[i]) collectTies(pc[i].g, seen, ties); collectTies(flip.g, seen, ties); for (auto& t : ties) so.add(!t); if (!ties.empty()) res.tie = true; }
                auto r = so.check(); if (r == z3::unknown) { done = false; res.tie = false; }
                if (r == z3::unsat) res.r = 0; else if (r == z3::sat) { res.r = 1; z3::model m = so.get_model(); readModel(m, vs, res); }
                so.pop();
            }
        } catch (Give&) { res.r = 2; done = true; } catch (z3::exception& e) { if (getenv("MS_DEBUG")) fprintf(stderr, "inc: %s\n", e.msg()); done = false; incReset(); }
        if (!done) try {
            vector<z3::expr> as; std::set<uint64_t> seenh;
            for (size_t i = 0; i < pc.size(); ++i) if (inc[i] && seenh.insert(pc[i].h).second) { try { as.push_back(lit(pc[i])); } catch (Give&) { weak = true; } }
            as.push_back(lit(flip));
            if (noTies) { std::set<uint32_t> seen; vector<z3::expr> ties; for (size_t i = 0; i < pc.size(); ++i) if (inc[i]) collectTies(pc[i].g, seen, ties); collectTies(flip.g, seen, ties); for (auto& t : ties) as.push_back(!t); if (!ties.empty()) res.tie = true; }
            for (uint32_t v : vs) { auto& g = GV[v]; if (g.kind == 2 || !g.e) continue; z3::expr e = *g.e; unsigned w = e.get_sort().bv_size(); if (!(w == widthFor(g.lo, g.hi) && g.lo == full(w).first && g.hi == full(w).second)) { as.push_back(e >= kbv(g.lo, w)); as.push_back(e <= kbv(g.hi, w)); } }
            for (auto& a : as) if (usesFP(a)) { fp = true; break; }
            z3::solver so = fp ? z3::tactic(C, "qffpbv").mk_solver() : z3::tactic(C, "qfbv").mk_solver();
            z3::params pr(C); pr.set("timeout", S.qTimeout); so.set(pr);
            for (auto& a : as) so.add(a);
            auto r = so.check();
            if (r == z3::unsat) res.r = 0;
            else if (r == z3::sat) {
                res.r = 1; z3::model m = so.get_model(); readModel(m, vs, res);
            }
        } catch (Give&) { res.r = 2; } catch (z3::exception& e) { res.r = 2; if (getenv("MS_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg()); }
        double dt = now() - t0;
        { std::lock_guard<std::mutex> l(S.mu); (res.r == 1 ? S.qSat : res.r == 0 ? S.qUnsat : S.qUnknown)++; S.solverTime += dt; S.maxQuery = std::max(S.maxQuery, dt); if (fp) S.qFP++; if (weak) S.weak++; }
        cache[key] = res; return res;
    }
    uint32_t varNode(uint32_t v) { auto it = vnode.find(v); return it == vnode.end() ? 0 : it->second; }
    std::unordered_map<uint32_t, uint32_t> vnode;
    Con mkCon(uint32_t g, bool neg, int pinned, uint64_t val) { Con c{g, neg, pinned, val, 0}; c.h = mix(mix(mix(G[g].h, neg), pinned), pinned ? val : 0); return c; }
    // translator self-check: the encoding of every condition on the path, evaluated on this run's concrete input, must equal what the real code computed
    double scTime = 0;
    void validate(const vector<Con>& pc, const vector<uint64_t>& in) {
        if (scTime > 3.0) return; double t0 = now();
        for (auto& c : pc) {
            try {
                z3::expr e = lit(c); z3::expr_vector from(C), to(C); bool ok = true;
                for (uint32_t v : G[c.g].vars) { auto& g = GV[v]; if (!g.e) continue; uint32_t ix = gvIndex[v]; if (ix >= in.size()) { ok = false; break; }
                    from.push_back(*g.e); if (g.kind == 2) to.push_back(z3::expr(C, Z3_mk_fpa_to_fp_bv(C, C.bv_val((uint64_t)in[ix], 64), C.fpa_sort<64>()))); else to.push_back(kbv((I128)(int64_t)in[ix], g.e->get_sort().bv_size())); }
                if (!ok) continue;
                z3::expr r = e.substitute(from, to).simplify();
                if (r.is_true()) { std::lock_guard<std::mutex> l(S.mu); S.selfChecks++; }
                else if (r.is_false()) { std::lock_guard<std::mutex> l(S.mu); S.selfChecks++; S.selfMismatch++; if (getenv("MS_DEBUG")) fprintf(stderr, "self-check mismatch: node op %u\n", G[c.g].n.op); }
            } catch (Give&) {} catch (z3::exception&) {}
            if ((scTime + now() - t0) > 3.0) break;
        }
        scTime += now() - t0;
    }

    void violation(const string& label, const string& kind, const vector<uint64_t>& in) {
        std::lock_guard<std::mutex> l(S.mu); S.violCount[label]++;
        for (auto& v : S.viol) if (v.label == label) return;
        Violation v{label, kind, in, {}};
        for (uint32_t i = 0; i < H->nVars; ++i) { char b[200]; if (V[i].kind == 0) snprintf(b, 200, "%s=%d", STR + V[i].name, (int)(int64_t)V[i].val); else if (V[i].kind == 1) snprintf(b, 200, "%s=%.17g", STR + V[i].name, std::ldexp((double)(int64_t)V[i].val, V[i].step)); else snprintf(b, 200, "%s=%.17g(0x%lx)", STR + V[i].name, bitsd(V[i].val), V[i].val); v.desc.push_back(b); }
        S.viol.push_back(v); if ((int)S.viol.size() >= S.maxViol) S.stop = true;
    }
    vector<uint64_t> curInput() { vector<uint64_t> r; for (uint32_t i = 0; i < H->nVars; ++i) r.push_back(V[i].val); return r; }

    void process(const Job& job) {
        incReset();
        int st = exec(job.input);
        if (st == -1) { std::lock_guard<std::mutex> l(S.mu); S.stop = true; S.truncated = true; S.unknownAt["harness server died"]++; return; }
        import();
        vector<uint64_t> in = curInput(); in.resize(std::max(in.size(), job.input.size())); for (size_t i = H->nVars; i < job.input.size(); ++i) in[i] = job.input[i];
        uint32_t ne = H->nEvents; vector<MsEvent> ev(EV, EV + ne);
        vector<string> nm(ne); for (uint32_t i = 0; i < ne; ++i) nm[i] = STR + ev[i].name;
        vector<uint32_t> gn(ne); for (uint32_t i = 0; i < ne; ++i) gn[i] = ev[i].node && !(ev[i].kind == EV_CONC && ev[i].aux == 3) ? L[ev[i].node] : 0;
        uint32_t stale = H->stale, nn = H->nNodes; uint32_t failed = H->failedLabel; string failedLabel = failed ? STR + failed : "";
        bool exited = WIFEXITED(st); int code = exited ? WEXITSTATUS(st) : -1;
        // prefix check
        uint64_t ph = 0; uint32_t k = 0; bool diverged = false; vector<uint64_t> hashes(ne + 1); hashes[0] = 1;
        for (uint32_t i = 0; i < ne; ++i) hashes[i + 1] = ev[i].kind == EV_ASSERT || ev[i].kind == EV_REACH || ev[i].kind == EV_CONC ? hashes[i] : mix(mix(mix(hashes[i], ev[i].kind), gn[i] ? G[gn[i]].h : 0), ev[i].val);
        (void)ph; (void)k;
        if (job.prefixLen) { if (job.prefixLen > ne || hashes[job.prefixLen] != job.prefixHash) diverged = true; }
        {
            std::lock_guard<std::mutex> l(S.mu); S.runs++; S.stale += stale; S.maxEvents = std::max<uint64_t>(S.maxEvents, ne); S.maxNodes = std::max<uint64_t>(S.maxNodes, nn);
            if (diverged) { if (job.tie) S.tieUnreached++; else S.divergences++; uint32_t dp = 0; S.divergeAt[dp < ne && job.prefixLen - 1 < ne ? nm[job.prefixLen - 1] : string("end")]++; }
            else if (exited && code == MS_EXIT_ASSUME) S.assumeFailed++;
            else S.paths++;
            if (code == MS_EXIT_OVERFLOW) { S.overflow++; S.truncated = true; }
            for (uint32_t i = 0; i < ne; ++i) { if (ev[i].kind == EV_CONC) { S.concF[nm[i] + (ev[i].aux == 3 ? " (external call)" : ev[i].aux == 2 ? " (stale)" : "")]++; S.concEvents++; } }
            if (!diverged && S.samples.size() < 3 && code == 0) { std::ostringstream o; o << "path with " << ne << " events, inputs:"; for (uint32_t i = 0; i < H->nVars && i < 24; ++i) { o << " " << STR + V[i].name << "="; if (V[i].kind == 1) o << std::ldexp((double)(int64_t)V[i].val, V[i].step); else if (V[i].kind == 2) o << bitsd(V[i].val); else o << (int64_t)V[i].val; } S.samples.push_back(o.str()); }
        }
        // concrete failures
        if (!exited) { int sig = WTERMSIG(st); if (sig == SIGALRM) violation("terminates within the time limit", "hang", in); else violation("no crash (signal " + std::to_string(sig) + ")", "crash", in); }
        else if (code == MS_EXIT_VIOL || code == MS_EXIT_UNCAUGHT) violation(failedLabel, code == MS_EXIT_VIOL ? "assertion" : "uncaught exception", in);
        else if (code != 0 && code != MS_EXIT_ASSUME && code != MS_EXIT_OVERFLOW) violation("exit code " + std::to_string(code), "crash", in);
        if (diverged) return;
        vector<Con> pc; size_t ex = 0; auto impl = std::make_shared<vector<char>>(ne, 0); // events whose outcome the conditions before them imply
        for (uint32_t i = 0; i < ne; ++i) {
            for (auto& x : job.extras) if (x.ev == i) { auto it = gidx.find(x.nodeHash); if (it != gidx.end()) pc.push_back(mkCon(it->second, true, 1, x.val)); }
            auto& e = ev[i]; bool fresh = i >= job.bound;
            if (S.stop) return;
            if (now() > S.deadline) { std::lock_guard<std::mutex> l(S.mu); S.truncated = true; S.stop = true; return; }
            auto push = [&](const Con& flip, bool isPin, bool isAssert, bool isForced = false) -> int {
                if (!fresh) return 0;
                double ts = now(); QRes r = solve(pc, flip, true); bool tie = false;
                { std::lock_guard<std::mutex> l(S.mu); S.hot[nm[i]] += (uint64_t)((now() - ts) * 1e6); }
                if (r.r == 0 && r.tie) { r = solve(pc, flip, false); tie = true; }
                if (isAssert) {
                    std::lock_guard<std::mutex> l(S.mu);
                    if (r.r == 0) S.assertSolver[nm[i]]++; if (r.r == 0 || r.r == 2) return r.r;
                } else if (r.r == 2) return 2;
                if (r.r != 1) return r.r;
                Job j; j.input = in; for (auto& [ix, v] : r.model) { if (ix >= j.input.size()) j.input.resize(ix + 1); j.input[ix] = v; }
                j.tie = tie; j.implied = impl; j.extras = job.extras; j.forced = job.forced; if (isForced && (j.forced.empty() || j.forced.back() != i)) j.forced.push_back(i);
                if (isAssert) { j.bound = i; j.prefixLen = i; j.prefixHash = hashes[i]; }
                else if (isPin) { j.bound = i; j.extras.push_back({i, G[flip.g].h, flip.val}); j.prefixLen = i; j.prefixHash = hashes[i]; }
                else { j.bound = i + 1; j.prefixLen = i + 1; j.prefixHash = mix(mix(mix(hashes[i], e.kind), G[gn[i]].h), e.val ^ 1); }
                std::lock_guard<std::mutex> l(S.mu); S.jobs.push_back(std::move(j)); S.cv.notify_one(); return 1;
            };
            // the solver could not decide this condition: fix the variables it depends on one by one (each feasible value becomes a path)
            auto split = [&](uint32_t g, bool isAssert) {
                bool ok = true;
                for (uint32_t v : G[g].vars) {
                    if (GV[v].kind == 2 || gvIndex[v] >= in.size()) { ok = false; continue; }
                    uint32_t vn = varNode(v); if (!vn) { ok = false; continue; }
                    Con c = mkCon(vn, false, 1, in[gvIndex[v]]), f = mkCon(vn, true, 1, in[gvIndex[v]]);
                    bool have = false; for (auto& q : pc) if (q.h == c.h) have = true; if (have) continue;
                    if (push(f, true, false, true) == 2) ok = false;
                    pc.push_back(c);
                }
                std::lock_guard<std::mutex> l(S.mu);
                if (ok) { S.splits++; if (isAssert) S.assertConst[nm[i]]++; } else { S.unknown++; if (isAssert) S.assertUnknown[nm[i]]++; else S.unknownAt[nm[i]]++; }
            };
            bool forcedHere = std::find(job.forced.begin(), job.forced.end(), i) != job.forced.end();
            switch (e.kind) {
            case EV_BRANCH: case EV_ASSUME: {
                if (G[gn[i]].vars.empty()) break;
                if (e.kind == EV_BRANCH && fresh) { std::lock_guard<std::mutex> l(S.mu); S.branchF[nm[i]]++; }
                Con c = mkCon(gn[i], !e.val, 0, 0), f = mkCon(gn[i], e.val, 0, 0);
                if (e.kind == EV_ASSUME && e.val) { pc.push_back(c); break; }
                if (forcedHere) { split(gn[i], false); pc.push_back(c); break; }
                if (!fresh) { if (job.implied && i < job.implied->size() && (*job.implied)[i]) { (*impl)[i] = 1; break; } pc.push_back(c); break; }
                int r = push(f, false, false); if (r == 0) { (*impl)[i] = 1; break; }
                if (r == 2) split(gn[i], false); pc.push_back(c); break; }
            case EV_PIN: {
                if (G[gn[i]].n.isf && G[gn[i]].n.op != OP_VAR) break;
                Con c = mkCon(gn[i], false, 1, e.val), f = mkCon(gn[i], true, 1, e.val); if (push(f, true, false) == 2) { std::lock_guard<std::mutex> l(S.mu); S.unknown++; S.unknownAt[nm[i]]++; } pc.push_back(c);
                break; }
            case EV_ASSERT: {
                if (!gn[i]) { if (fresh) { std::lock_guard<std::mutex> l(S.mu); if (e.val) S.assertConst[nm[i]]++; } break; }
                Con f = mkCon(gn[i], e.val ? true : false, 0, 0); if (e.val) { if (forcedHere) split(gn[i], true); else if (push(f, false, true) == 2 && fresh) split(gn[i], true); }
                break; }
            case EV_REACH: { if (fresh) { std::lock_guard<std::mutex> l(S.mu); S.reach[nm[i]]++; } break; }
            default: break; }
        }
        (void)ex; validate(pc, in);
    }
    void loop() {
        start();
        while (true) {
            Job j;
            { std::unique_lock<std::mutex> l(S.mu);
              while (S.jobs.empty() && S.busy > 0 && !S.stop) S.cv.wait_for(l, std::chrono::milliseconds(200));
              if (S.stop || (S.jobs.empty() && S.busy == 0)) { S.cv.notify_all(); break; }
              if (S.jobs.empty()) continue;
              j = std::move(S.jobs.back()); S.jobs.pop_back(); S.busy++;
              if (S.runs >= S.maxPaths) { S.truncated = true; S.stop = true; }
            }
            process(j);
            { std::lock_guard<std::mutex> l(S.mu); S.busy--; if (now() > S.deadline && !S.jobs.empty()) { S.truncated = true; S.stop = true; } }
            S.cv.notify_all();
        }
        close(wfd); kill(pid, SIGKILL); waitpid(pid, nullptr, 0);
    }
};
static string js(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static string jm(const std::map<string, uint64_t>& m) { string r = "{"; bool f = true; for (auto& [k, v] : m) { if (!f) r += ", "; f = false; r += js(k) + ": " + std::to_string(v); } return r + "}"; }
int main(int argc, char** argv) {
    int threads = 1; double budget = 60; string out;
    signal(SIGPIPE, SIG_IGN);
    for (int i = 1; i < argc; ++i) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "--bin") S.bin = nx(); else if (a == "--harness") S.harness = nx(); else if (a == "-j") threads = stoi(nx()); else if (a == "--budget") budget = stod(nx()); else if (a == "--qtimeout") S.qTimeout = stoi(nx()); else if (a == "--runtimeout") S.runTimeout = stoi(nx()); else if (a == "--maxviol") S.maxViol = stoi(nx()); else if (a == "--maxpaths") S.maxPaths = stoull(nx()); else if (a == "--out") out = nx(); }
    double t0 = now(); S.deadline = t0 + budget;
    S.jobs.push_back(Job());
    vector<std::thread> th; for (int i = 0; i < threads; ++i) th.emplace_back([] { auto* w = new Worker(); w->loop(); });
    for (auto& t : th) t.join();
    bool complete = !S.truncated && S.jobs.empty() && S.unknown == 0 && S.divergences == 0 && S.tieUnreached == 0 && S.concEvents == 0 && S.selfMismatch == 0 && S.viol.empty() && S.overflow == 0;
    std::ostringstream o; o << "{\"harness\": " << js(S.harness) << ", \"complete\": " << (complete ? "true" : "false") << ", \"truncated\": " << (S.truncated ? "true" : "false") << ", \"pending\": " << S.jobs.size()
      << ", \"runs\": " << S.runs << ", \"paths\": " << S.paths << ", \"assume_rejected\": " << S.assumeFailed << ", \"divergences\": " << S.divergences << ", \"tie_unreached\": " << S.tieUnreached << ", \"unknown\": " << S.unknown << ", \"stale_shadow\": " << S.stale << ", \"overflow\": " << S.overflow << ", \"splits\": " << S.splits << ", \"weakened_queries\": " << S.weak << ", \"translator_checks\": " << S.selfChecks << ", \"translator_mismatches\": " << S.selfMismatch
      << ", \"concretisations\": " << S.concEvents << ", \"concretised_in\": " << jm(S.concF) << ", \"diverge_at\": " << jm(S.divergeAt) << ", \"unknown_at\": " << jm(S.unknownAt)
      << ", \"queries_sat\": " << S.qSat << ", \"queries_unsat\": " << S.qUnsat << ", \"queries_unknown\": " << S.qUnknown << ", \"queries_cached\": " << S.qCache << ", \"decided_by_range\": " << S.qRange << ", \"hot\": " << jm(S.hot) << ", \"queries_fp\": " << S.qFP << ", \"solver_s\": " << S.solverTime << ", \"max_query_s\": " << S.maxQuery
      << ", \"max_events\": " << S.maxEvents << ", \"max_nodes\": " << S.maxNodes << ", \"asserts_solver\": " << jm(S.assertSolver) << ", \"asserts_folded\": " << jm(S.assertConst) << ", \"asserts_unknown\": " << jm(S.assertUnknown) << ", \"reached\": " << jm(S.reach) << ", \"branch_functions\": " << jm(S.branchF) << ", \"wall_s\": " << now() - t0 << ", \"samples\": [";
    for (size_t i = 0; i < S.samples.size(); ++i) o << (i ? ", " : "") << js(S.samples[i]);
    o << "], \"violations\": [";
    for (size_t i = 0; i < S.viol.size(); ++i) { auto& v = S.viol[i]; o << (i ? ", " : "") << "{\"label\": " << js(v.label) << ", \"kind\": " << js(v.kind) << ", \"input\": ["; for (size_t k = 0; k < v.input.size(); ++k) o << (k ? ", " : "") << v.input[k]; o << "], \"desc\": ["; for (size_t k = 0; k < v.desc.size(); ++k) o << (k ? ", " : "") << js(v.desc[k]); o << "]}"; }
    o << "]}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream f(out); f << o.str(); }
    fflush(stdout);
    _exit(S.viol.empty() ? 0 : 1);
}
