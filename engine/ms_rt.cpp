// Symbolic runtime linked into instrumented harness binaries.
#include "ms.h"
#include "ms_ops.h"
#include "ms_trace.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <malloc.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

typedef uint32_t E;
extern "C" {
E __ms_args[256];
E __ms_ret[64];
void* __ms_callee = nullptr;
void* __ms_byval[256];
}
static E zeroArgs[256];
static uint8_t* sm; // shared region
static MsHeader* H;
static MsNode* N;
static MsEvent* EV;
static MsVar* V;
static char* STR;
static std::vector<uint64_t> input;
static bool active = false;

[[noreturn]] static void die(int code) { _exit(code); }
static std::unordered_map<const void*, uint32_t> strMap;
static uint32_t intern(const char* s) {
    auto it = strMap.find(s); if (it != strMap.end()) return it->second;
    uint32_t off = H->nStr; size_t l = strlen(s) + 1;
    if (off + l > MS_MAX_STR) return 0;
    memcpy(STR + off, s, l); H->nStr = off + l; strMap[s] = off; return off;
}
// ---- nodes (hash-consed)
static uint64_t* NM; static std::vector<uint32_t> ht; static uint32_t htCount = 0;
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static uint64_t nh(const MsNode& n) { uint64_t h = n.op | (n.w << 8) | (n.isf << 16); h = mix(h, n.a); h = mix(h, n.b); h = mix(h, n.c); return mix(h, n.imm); }
static void rehash() { std::vector<uint32_t> o(ht.empty() ? 1 << 14 : ht.size() * 2, 0); for (uint32_t i : ht) if (i) { uint64_t p = nh(N[i]) & (o.size() - 1); while (o[p]) p = (p + 1) & (o.size() - 1); o[p] = i; } ht.swap(o); }
static E mk(unsigned op, unsigned w, unsigned isf, E a, E b, E c, uint64_t imm, uint64_t cval) {
    MsNode n{(uint8_t)op, (uint8_t)w, (uint8_t)isf, 0, a, b, c, imm, cval};
    if (htCount * 2 >= ht.size()) rehash();
    uint64_t p = nh(n) & (ht.size() - 1);
    while (ht[p]) { auto& m = N[ht[p]]; if (m.op == n.op && m.w == n.w && m.isf == n.isf && m.a == a && m.b == b && m.c == c && m.imm == imm) return ht[p]; p = (p + 1) & (ht.size() - 1); }
    if (H->nNodes + 1 >= MS_MAX_NODES) { H->overflow = 1; die(MS_EXIT_OVERFLOW); }
    uint32_t id = H->nNodes; N[id] = n; NM[id] = op == OP_VAR ? 1ull << (imm & 63) : (NM[a] | NM[b] | NM[c]); H->nNodes = id + 1; ht[p] = id; ++htCount; return id;
}
static uint64_t pinnedMask = 0; static std::vector<char> varPinned; // variables below a node (bit index mod 64), and those fixed on this path
static uint64_t msk(unsigned w, uint64_t v) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static E kI(unsigned w, uint64_t v) { v = msk(w, v); return mk(OP_CONST, w, 0, 0, 0, 0, v, v); }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint64_t fbits(unsigned w, double d) { if (w == 64) return dbits(d); float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
static E kF(unsigned w, double d) { uint64_t b = fbits(w, d); return mk(OP_CONST, w, 1, 0, 0, 0, b, b); }
static void event(unsigned kind, E n, uint64_t val, const char* name, uint32_t aux = 0) {
    if (H->nEvents >= MS_MAX_EV) { H->overflow = 1; die(MS_EXIT_OVERFLOW); }
    EV[H->nEvents] = MsEvent{kind, n, val, name ? intern(name) : 0, aux}; H->nEvents = H->nEvents + 1;
}
static bool dead(E e) { return !e || !(NM[e] & ~pinnedMask); }
static inline E fin(E e) { return dead(e) ? 0 : e; }
// Fix every variable an expression depends on (each value becomes a path of its own; the explorer asks the solver for the others).
static void pinVars(E e, const char* fn) {
    if (dead(e)) return;
    std::vector<E> st{e}; std::unordered_map<E, bool> seen;
    std::vector<uint32_t> vs;
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!x || seen[x]) continue; seen[x] = true; if (dead(x)) continue; if (N[x].op == OP_VAR) { vs.push_back(x); continue; } st.push_back(N[x].a); st.push_back(N[x].b); st.push_back(N[x].c); }
    std::sort(vs.begin(), vs.end());
    for (E x : vs) { uint32_t i = N[x].imm; if (varPinned[i]) continue; if (V[i].kind == 2) { event(EV_CONC, x, N[x].cval, fn, 1); continue; } event(EV_PIN, x, V[i].val, fn, 4); varPinned[i] = 1; }
    uint64_t m = ~0ull; for (size_t i = 0; i < varPinned.size(); ++i) if (!varPinned[i]) m &= ~(1ull << (i & 63)); pinnedMask = m;
}
static void evBranch(E e, uint32_t c, const char* fn) {
    if (dead(e)) return;
    if ((N[e].cval & 1) != (c & 1)) { H->stale = H->stale + 1; event(EV_CONC, e, c, fn, 2); return; }
    event(EV_BRANCH, e, c & 1, fn);
}
// ---- shadow memory: per byte (expr id, byte offset)
struct Page { E id[4096]; uint8_t off[4096]; uint32_t live; };
static std::unordered_map<uint64_t, Page*> pages; static uint64_t lastPg = ~0ull; static Page* lastP = nullptr;
static Page* page(uint64_t a, bool create) {
    uint64_t pg = a >> 12;
    if (pg == lastPg && (lastP || !create)) return lastP;
    auto it = pages.find(pg); Page* p = it == pages.end() ? nullptr : it->second;
    if (!p && create) { p = (Page*)calloc(1, sizeof(Page)); pages[pg] = p; }
    lastPg = pg; lastP = p; return p;
}
static inline void setByte(uint64_t a, E id, uint8_t off) { Page* p = page(a, id != 0); if (!p) return; unsigned i = a & 4095; if (p->id[i] && !id) p->live--; else if (!p->id[i] && id) p->live++; p->id[i] = id; p->off[i] = off; }
static inline void getByte(uint64_t a, E& id, uint8_t& off) { Page* p = page(a, false); if (!p) { id = 0; return; } id = p->id[a & 4095]; off = p->off[a & 4095]; }

static E extractByte(E e, unsigned off) { auto& n = N[e]; E x = e; if (n.isf) x = mk(OP_BITS, n.w, 0, e, 0, 0, 0, n.cval); if (off == 0 && N[x].w == 8) return x; unsigned w = N[x].w; if (w < 8 * (off + 1)) { x = mk(OP_ZEXT, 8 * (off + 1), 0, x, 0, 0, 0, N[x].cval); } return mk(OP_EXTRACT, 8, 0, x, 0, 0, off * 8, msk(8, N[x].cval >> (off * 8))); }

static void extPin(const char* name, uint32_t n) { for (uint32_t i = 0; i < n; ++i) if (__ms_args[i]) { if (__ms_args[i] < H->nNodes) pinVars(__ms_args[i], name); __ms_args[i] = 0; } }
extern "C" {
void* __ms_enter(void* self) { if (__ms_callee == self) { __ms_callee = nullptr; return __ms_args; } __ms_callee = nullptr; return zeroArgs; }
void __ms_post(void* callee, E any, const char* name, uint32_t n) {
    if (__ms_callee == callee && active && any) { extPin(name, n); }
    __ms_callee = nullptr;
}
E __ms_bin(uint32_t op, uint32_t w, E a, E b, uint64_t x, uint64_t y, uint64_t r) {
    if (!(a | b)) return 0;
    if (!a) a = kI(w, x); if (!b) b = kI(w, y);
    if ((op == OP_SUB || op == OP_XOR) && a == b) return 0;
    if (op == OP_MUL || op == OP_AND) { if ((N[a].op == OP_CONST && N[a].imm == 0) || (N[b].op == OP_CONST && N[b].imm == 0)) return 0; }
    if (op == OP_ADD || op == OP_OR || op == OP_XOR || op == OP_SUB || op == OP_SHL || op == OP_LSHR || op == OP_ASHR) { if (N[b].op == OP_CONST && N[b].imm == 0) return a; }
    if (op == OP_ADD || op == OP_OR || op == OP_XOR) { if (N[a].op == OP_CONST && N[a].imm == 0) return b; }
    return fin(mk(op, w, 0, a, b, 0, 0, msk(w, r)));
}
E __ms_icmp(uint32_t op, uint32_t w, E a, E b, uint64_t x, uint64_t y, uint32_t r) {
    if (!(a | b)) return 0;
    if (!a) a = kI(w, x); if (!b) b = kI(w, y);
    if (a == b) return 0;
    return fin(mk(op, 1, 0, a, b, 0, 0, r & 1));
}
E __ms_fbin(uint32_t op, uint32_t w, E a, E b, double x, double y, double r) {
    if (!(a | b)) return 0;
    bool sa = a, sb = b;
    if (!a) a = kF(w, x); if (!b) b = kF(w, y);
    if (op == OP_FDIV && sb && w == 64) {
        E z = mk(OP_FCMP, 1, 0, b, kF(w, 0.0), 0, 1 /*OEQ*/, y == 0.0);
        evBranch(z, y == 0.0, "fdiv");
        if (y == 0.0) { // result is +-inf or NaN, fixed by the sign of the numerator
            if (sa) { E p = mk(OP_FCMP, 1, 0, a, kF(w, 0.0), 0, 2 /*OGT*/, x > 0.0), q = mk(OP_FCMP, 1, 0, a, kF(w, 0.0), 0, 4 /*OLT*/, x < 0.0); evBranch(p, x > 0, "fdiv"); evBranch(q, x < 0, "fdiv"); }
            return 0;
        }
    }
    return fin(mk(op, w, 1, a, b, 0, 0, fbits(w, r)));
}
E __ms_fcmp(uint32_t pred, uint32_t w, E a, E b, double x, double y, uint32_t r) {
    if (!(a | b)) return 0;
    if (pred == 0 || pred == 15) return 0;
    if (!a) a = kF(w, x); if (!b) b = kF(w, y);
    return fin(mk(OP_FCMP, 1, 0, a, b, 0, pred, r & 1));
}
static const char* fnName(unsigned id) { switch (id) { case FN_ATAN2: return "atan2"; case FN_SIN: return "sin"; case FN_COS: return "cos"; case FN_ACOS: return "acos"; case FN_FMOD: return "fmod"; case FN_EXP: return "exp"; case FN_LOG: return "log"; case FN_POW: return "pow"; case FN_COPYSIGN: return "copysign"; default: return "libm"; } }
E __ms_fun(uint32_t id, uint32_t w, E a, E b, double x, double y, double r, uint64_t) {
    if (!(a | b)) return 0;
    bool two = id == FN_ATAN2 || id == FN_POW || id == FN_HYPOT || id == FN_FMOD || id == FN_MIN || id == FN_MAX || id == FN_COPYSIGN;
    if (!a) a = kF(w, x); if (!b && two) b = kF(w, y);
    if (!two) b = 0;
    if (id == FN_SQRT) {
        E z = mk(OP_FCMP, 1, 0, a, kF(w, 0.0), 0, 4 /*OLT*/, x < 0.0); evBranch(z, x < 0.0, "sqrt"); if (x < 0.0) return 0;
    }
    if (id == FN_POW && N[b].op == OP_CONST && y == 2.0) return mk(OP_FMUL, w, 1, a, a, 0, 0, fbits(w, x * x));
    switch (id) {
    case FN_NEG: case FN_ABS: case FN_SQRT: case FN_FLOOR: case FN_CEIL: case FN_TRUNC: case FN_ROUND: case FN_RINT: case FN_MIN: case FN_MAX: case FN_HYPOT: break;
    default: if (active) { pinVars(a, fnName(id)); pinVars(b, fnName(id)); } return 0; // no encoding: split on the arguments
    }
    return fin(mk(OP_FUN, w, 1, a, b, 0, id, fbits(w, r)));
}
E __ms_cast(uint32_t op, uint32_t fw, uint32_t tw, E e, uint64_t res) {
    if (!e) return 0;
    if (op == OP_FBITS && N[e].op == OP_BITS) return N[e].a;
    if (op == OP_BITS && N[e].op == OP_FBITS) return N[e].a;
    if (op == OP_TRUNC && N[e].op == OP_ZEXT && N[N[e].a].w == tw) return N[e].a;
    bool tf = op == OP_SITOFP || op == OP_UITOFP || op == OP_FPEXT || op == OP_FPTRUNC || op == OP_FBITS;
    return fin(mk(op, tw, tf, e, 0, 0, 0, msk(tw, res)));
}
E __ms_select(uint32_t k, E c, E t, E f, uint32_t cv, uint64_t tb, uint64_t fb) {
    unsigned w = k & 0xff; unsigned isf = (k >> 8) & 1;
    if (dead(c)) return cv ? t : f;
    if (!t && !f && tb == fb) return 0;
    if (!t) t = mk(OP_CONST, w, isf, 0, 0, 0, msk(w, tb), msk(w, tb));
    if (!f) f = mk(OP_CONST, w, isf, 0, 0, 0, msk(w, fb), msk(w, fb));
    if (t == f) return t;
    return fin(mk(OP_ITE, w, isf, c, t, f, 0, cv ? N[t].cval : N[f].cval));
}
void __ms_branch(E e, uint32_t c, const char* fn) { if (e && active) evBranch(e, c, fn); }
void __ms_pin(E e, uint64_t v, const char* fn) {
    if (!active || dead(e)) return;
    if (N[e].cval != msk(N[e].w, v)) { H->stale = H->stale + 1; return; }
    // a value already pinned on this path stays pinned
    static std::unordered_map<E, bool> done; if (done[e]) return; done[e] = true;
    if (N[e].isf) { pinVars(e, fn); return; }
    { E x = e; while (true) { auto& n = N[x]; if (n.op == OP_ZEXT || n.op == OP_SEXT) x = n.a; else if ((n.op == OP_ADD || n.op == OP_SUB || n.op == OP_SHL || n.op == OP_MUL) && n.b && N[n.b].op == OP_CONST) x = n.a; else if ((n.op == OP_ADD || n.op == OP_MUL) && N[n.a].op == OP_CONST) x = n.b; else break; } // an (in the ranges used) injective function of one variable: fix the variable
      if (N[x].op == OP_VAR) { pinVars(x, fn); return; } }
    event(EV_PIN, e, msk(N[e].w, v), fn);
}
void __ms_conc(E e, uint64_t v, const char* why, const char* fn) { (void)why; (void)v; if (active) pinVars(e, fn); }
E __ms_load(void* p, uint32_t n, uint32_t kind, uint64_t bits) {
    uint64_t a = (uint64_t)p; Page* pg = page(a, false);
    if (((a & 4095) + n) <= 4096 && (!pg || !pg->live)) return 0;
    E ids[8]; uint8_t off[8]; bool any = false, uni = true;
    for (unsigned i = 0; i < n; ++i) { getByte(a + i, ids[i], off[i]); any |= ids[i] != 0; }
    if (!any) return 0;
    for (unsigned i = 0; i < n; ++i) uni &= ids[i] == ids[0] && off[i] == i;
    unsigned w = kind & 0xff, isf = (kind >> 8) & 1;
    E r;
    if (uni && (N[ids[0]].w + 7) / 8 == n) {
        r = ids[0];
        if (N[r].w != w) { if (N[r].isf) r = mk(OP_BITS, N[r].w, 0, r, 0, 0, 0, N[r].cval); r = N[r].w < w ? mk(OP_ZEXT, w, 0, r, 0, 0, 0, N[r].cval) : mk(OP_TRUNC, w, 0, r, 0, 0, 0, msk(w, N[r].cval)); }
        if (N[r].isf && !isf) r = mk(OP_BITS, w, 0, r, 0, 0, 0, N[r].cval);
        else if (!N[r].isf && isf) r = N[r].op == OP_BITS ? N[r].a : mk(OP_FBITS, w, 1, r, 0, 0, 0, N[r].cval);
    } else {
        // contiguous extract of one wider value
        E base = ids[0]; bool contig = base != 0; for (unsigned i = 0; i < n; ++i) contig &= ids[i] == base && off[i] == off[0] + i;
        if (contig) { E x = base; if (N[x].isf) x = mk(OP_BITS, N[x].w, 0, x, 0, 0, 0, N[x].cval); if (N[x].w >= 8u * (off[0] + n)) { r = mk(OP_EXTRACT, 8 * n, 0, x, 0, 0, off[0] * 8, msk(8 * n, N[x].cval >> (off[0] * 8))); goto have; } }
        r = 0;
        for (unsigned i = 0; i < n; ++i) {
            E bt = ids[i] ? extractByte(ids[i], off[i]) : kI(8, bits >> (8 * i));
            r = i == 0 ? bt : mk(OP_CONCAT, 8 * (i + 1), 0, bt, r, 0, 0, N[r].cval | (N[bt].cval << (8 * i)));
        }
    have:
        if (N[r].w > w) r = mk(OP_TRUNC, w, 0, r, 0, 0, 0, msk(w, N[r].cval));
        if (isf) r = mk(OP_FBITS, w, 1, r, 0, 0, 0, N[r].cval);
    }
    if (N[r].cval != bits) { H->stale = H->stale + 1; for (unsigned i = 0; i < n; ++i) setByte(a + i, 0, 0); return 0; }
    return fin(r);
}
void __ms_store(void* p, uint32_t n, E e) {
    uint64_t a = (uint64_t)p;
    if (!e) { Page* pg = page(a, false); if (((a & 4095) + n) <= 4096 && (!pg || !pg->live)) return; for (unsigned i = 0; i < n; ++i) setByte(a + i, 0, 0); return; }
    for (unsigned i = 0; i < n; ++i) setByte(a + i, e, i);
}
void __ms_clear(void* p, uint64_t n) {
    uint64_t a = (uint64_t)p, e = a + n;
    while (a < e) { uint64_t nx = (a | 4095) + 1; if (nx > e) nx = e; Page* pg = page(a, false); if (pg && pg->live) for (uint64_t x = a; x < nx; ++x) setByte(x, 0, 0); a = nx; }
}
void __ms_memcpy(void* d, void* s, uint64_t n) {
    if (pages.empty() || d == s) return;
    uint64_t a = (uint64_t)d, b = (uint64_t)s;
    bool live = false; for (uint64_t x = b & ~4095ull; x < b + n; x += 4096) { Page* p = page(x, false); if (p && p->live) { live = true; break; } }
    if (!live) { __ms_clear(d, n); return; }
    if (a < b) for (uint64_t i = 0; i < n; ++i) { E id; uint8_t o = 0; getByte(b + i, id, o); setByte(a + i, id, o); }
    else for (uint64_t i = n; i-- > 0;) { E id; uint8_t o = 0; getByte(b + i, id, o); setByte(a + i, id, o); }
}
void __ms_byval_in(void* args, void* d, void* s, uint64_t n) { if (args == (void*)__ms_args) __ms_memcpy(d, s, n); else __ms_clear(d, n); }
void __ms_memset(void* d, E v, uint64_t n) { if (active) pinVars(v, "memset"); __ms_clear(d, n); }
void __ms_memcmp(void* x, void* y, uint64_t n) {
    for (void* p : {x, y}) for (uint64_t i = 0; i < n; ++i) { E id; uint8_t o; getByte((uint64_t)p + i, id, o); if (id && active) __ms_pin(id, N[id].cval, "memcmp"); }
}
E __ms_intr(uint32_t op, uint32_t w, E a, E b, E, uint64_t x, uint64_t y, uint64_t, uint64_t r) {
    if (!(a | b)) return 0;
    if (op == IN_FPCLASS) return mk(OP_FPCLASS, 1, 0, a, 0, 0, y, r & 1);
    if (op == IN_ABS) { E z = kI(w, 0); E neg = mk(OP_SUB, w, 0, z, a, 0, 0, msk(w, 0 - x)); E c = mk(OP_SLT, 1, 0, a, z, 0, 0, (x >> (w - 1)) & 1); return mk(OP_ITE, w, 0, c, neg, a, 0, msk(w, r)); }
    if (!a) a = kI(w, x); if (!b) b = kI(w, y);
    auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (op) {
    case IN_SMIN: { E c = mk(OP_SLT, 1, 0, a, b, 0, 0, sx(x) < sx(y)); return mk(OP_ITE, w, 0, c, a, b, 0, msk(w, r)); }
    case IN_SMAX: { E c = mk(OP_SGT, 1, 0, a, b, 0, 0, sx(x) > sx(y)); return mk(OP_ITE, w, 0, c, a, b, 0, msk(w, r)); }
    case IN_UMIN: { E c = mk(OP_ULT, 1, 0, a, b, 0, 0, x < y); return mk(OP_ITE, w, 0, c, a, b, 0, msk(w, r)); }
    case IN_UMAX: { E c = mk(OP_UGT, 1, 0, a, b, 0, 0, x > y); return mk(OP_ITE, w, 0, c, a, b, 0, msk(w, r)); }
    case IN_USUBSAT: { E c = mk(OP_UGT, 1, 0, a, b, 0, 0, x > y); return mk(OP_ITE, w, 0, c, mk(OP_SUB, w, 0, a, b, 0, 0, msk(w, x - y)), kI(w, 0), 0, msk(w, r)); }
    case IN_UADDSAT: { E s = mk(OP_ADD, w, 0, a, b, 0, 0, msk(w, x + y)); E c = mk(OP_ULT, 1, 0, s, a, 0, 0, msk(w, x + y) < x); return mk(OP_ITE, w, 0, c, kI(w, ~0ull), s, 0, msk(w, r)); }
    default: return mk(OP_OVF, 1, 0, a, b, 0, op, r & 1);
    }
}
void __ms_switch(E e, uint32_t w, uint64_t v, uint32_t n, uint64_t* cases, const char* fn) {
    if (!active || dead(e)) return;
    for (uint32_t i = 0; i < n; ++i) { bool hit = cases[i] == v; E c = mk(OP_EQ, 1, 0, e, kI(w, cases[i]), 0, 0, hit); evBranch(c, hit, fn); if (hit) return; }
}

// ---- harness interface
static uint64_t newVar(unsigned kind, const char* name, int lo, int hi, int step, E& node) {
    uint32_t i = H->nVars; if (i >= MS_MAX_VARS) die(MS_EXIT_OVERFLOW);
    uint64_t raw = i < input.size() ? input[i] : (kind == 2 ? dbits(1.0) : (uint64_t)(int64_t)lo);
    if (kind != 2) { int64_t s = (int64_t)raw; if (s < lo || s > hi) { s = lo; } raw = (uint64_t)s; }
    uint64_t cval = kind == 0 ? msk(32, raw) : kind == 1 ? dbits(ldexp((double)(int64_t)raw, step)) : raw;
    node = mk(OP_VAR, kind == 0 ? 32 : 64, kind != 0, 0, 0, 0, i, cval);
    V[i] = MsVar{kind, lo, hi, step, intern(name), node, raw}; H->nVars = i + 1;
    varPinned.resize(i + 1, 0); varPinned[i] = kind != 2 && lo == hi; if (!varPinned[i]) pinnedMask &= ~(1ull << (i & 63)); else if (i < 64) pinnedMask |= 1ull << i;
    return cval;
}
int ms_int(const char* name, int lo, int hi) { E n; uint64_t c = newVar(0, name, lo, hi, 0, n); __ms_ret[0] = lo == hi ? 0 : n; __ms_callee = nullptr; return (int)(uint32_t)c; }
int ms_pick(const char* name, int lo, int hi) { E n; uint64_t c = newVar(0, name, lo, hi, 0, n); if (lo != hi) pinVars(n, "pick"); __ms_ret[0] = 0; __ms_callee = nullptr; return (int)(uint32_t)c; }
int ms_thorough(void) { static int t = [] { const char* e = getenv("VERIF_TIER"); return e && !strcmp(e, "thorough"); }(); __ms_callee = nullptr; __ms_ret[0] = 0; return t; }
double ms_lattice(const char* name, int lo, int hi, int st) { E n; uint64_t c = newVar(1, name, lo, hi, st, n); __ms_ret[0] = lo == hi ? 0 : n; __ms_callee = nullptr; return bitsd(c); }
double ms_double(const char* name) { E n; uint64_t c = newVar(2, name, 0, 0, 0, n); __ms_ret[0] = n; __ms_callee = nullptr; return bitsd(c); }
void ms_assume(bool c) { E e = __ms_args[0]; __ms_callee = nullptr; if (!dead(e)) event(EV_ASSUME, e, c, "assume"); if (!c) die(MS_EXIT_ASSUME); }
void ms_assert(bool c, const char* label) {
    E e = __ms_args[0]; __ms_callee = nullptr;
    event(EV_ASSERT, dead(e) ? 0 : e, c, label);
    if (!c) { H->failedLabel = intern(label); die(MS_EXIT_VIOL); }
}
void ms_reach(const char* label) { __ms_callee = nullptr; event(EV_REACH, 0, 1, label); }
void ms_fail(const char* label) { __ms_callee = nullptr; event(EV_ASSERT, 0, 0, label); H->failedLabel = intern(label); die(MS_EXIT_VIOL); }
int ms_symbolic(void) { __ms_callee = nullptr; __ms_ret[0] = 0; return 1; }
}

static std::map<std::string, void (*)()>& regs() { static std::map<std::string, void (*)()> r; return r; }
ms_reg::ms_reg(const char* name, void (*fn)()) { regs()[name] = fn; }

static bool rd(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
int main(int argc, char** argv) {
    if (argc < 2 || std::string(argv[1]) == "--list") { for (auto& [k, v] : regs()) printf("%s\n", k.c_str()); return 0; }
    auto it = regs().find(argv[1]);
    if (it == regs().end()) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    int shm = argc > 2 ? atoi(argv[2]) : -1, rfd = argc > 3 ? atoi(argv[3]) : -1, wfd = argc > 4 ? atoi(argv[4]) : -1; int tmo = argc > 5 ? atoi(argv[5]) : 20;
    sm = (uint8_t*)mmap(nullptr, MS_TOTAL, PROT_READ | PROT_WRITE, shm >= 0 ? MAP_SHARED : (MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE), shm >= 0 ? shm : -1, 0);
    H = (MsHeader*)sm; V = (MsVar*)(sm + MS_OFF_VARS); STR = (char*)(sm + MS_OFF_STR); EV = (MsEvent*)(sm + MS_OFF_EV); N = (MsNode*)(sm + MS_OFF_NODES);
    NM = (uint64_t*)mmap(nullptr, MS_MAX_NODES * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    rehash();
    mallopt(M_PERTURB, 0xA5); // make reads of freed or uninitialised memory visible
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rlimit as{6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &as);
    while (true) {
        uint32_t n = 0;
        if (rfd >= 0) { if (!rd(rfd, &n, 4)) return 0; input.resize(n); if (n && !rd(rfd, input.data(), 8ull * n)) return 0; }
        H->nNodes = 1; H->nEvents = 0; H->nVars = 0; H->nStr = 1; H->stale = 0; H->failedLabel = 0; H->overflow = 0; H->finished = 0; STR[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            if (rfd >= 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("MS_STDERR")) dup2(dn, 2); }
            alarm(tmo);
            active = true;
            try { it->second(); }
            catch (std::exception& e) { if (getenv("MS_STDERR")) fprintf(stderr, "uncaught: %s\n", e.what()); event(EV_ASSERT, 0, 0, "uncaught exception"); H->failedLabel = intern("uncaught exception"); _exit(MS_EXIT_UNCAUGHT); }
            catch (...) { event(EV_ASSERT, 0, 0, "uncaught exception"); H->failedLabel = intern("uncaught exception"); _exit(MS_EXIT_UNCAUGHT); }
            H->finished = 1;
            _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        if (wfd >= 0) { int32_t s = st; if (write(wfd, &s, 4) != 4) return 0; }
        else { printf("status %x nodes %u events %u vars %u stale %u\n", st, H->nNodes, H->nEvents, H->nVars, H->stale); return 0; }
    }
}
