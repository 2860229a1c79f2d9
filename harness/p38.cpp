// P38: every public call, on operands placed in memory that ends where they end, under address,
// undefined-behaviour and initialised-memory monitors (a report ends the call and is a violation).
#include "mc.hpp"
#include "calls.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define ASAN 1
#endif
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
using namespace mc;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=1"; }
extern "C" unsigned zcm_calls(const Call**, unsigned*);
static unsigned elem(char k) { switch (k) { case 'f': case 'F': case 'i': case 'I': case 'u': return 4; case 'b': case 'B': return 1; case 'z': return 8; } return 0; }
static unsigned bytes(TypeCode t) { return elem(t.kind) * t.lanes; }

enum { SLOT = 256, NARG = 18, OUTB = 512 };
struct Frame { alignas(256) char in[NARG][SLOT]; alignas(64) char out[OUTB]; };
static void closeMem(const void* p, size_t n) {
#ifdef ASAN
    __asan_poison_memory_region(p, n);
#elif defined(MSAN)
    __msan_poison(p, n);
#endif
}
static void openMem(const void* p, size_t n) {
#ifdef ASAN
    __asan_unpoison_memory_region(p, n);
#elif defined(MSAN)
    __msan_unpoison(p, n);
#endif
}

// ---------------------------------------------------------------- operands
struct Lane { char kind; unsigned arg, lane; };
struct Space {
    const Call* c; std::string name; std::vector<Lane> L;
    std::vector<std::vector<double>> rich, shortA, ctx;      // per lane; contexts
    std::vector<u64> off1, off2; std::vector<std::pair<unsigned, unsigned>> pairs; u64 n1, n2, n3, total;
    bool tuple(u64 i, std::vector<double>& v) const {
        unsigned K = ctx.size();
        if (i < K) { v = ctx[i]; return true; }
        i -= K;
        if (i < n1) { unsigned k = i % K; i /= K; v = ctx[k]; unsigned l = std::upper_bound(off1.begin(), off1.end(), i) - off1.begin() - 1; v[l] = rich[l][i - off1[l]]; return true; }
        i -= n1;
        if (i < n2) { unsigned k = i % K; i /= K; v = ctx[k]; unsigned p = std::upper_bound(off2.begin(), off2.end(), i) - off2.begin() - 1; i -= off2[p]; auto [a, b] = pairs[p]; v[a] = shortA[a][i % shortA[a].size()]; v[b] = shortA[b][i / shortA[a].size()]; return true; }
        i -= n2;      // one value of the short alphabet in every lane that has it, or in every lane of one argument
        unsigned A = c->nargs + 1; unsigned a = i % A; unsigned s = i / A; v = ctx[1 % K];
        for (unsigned l = 0; l < L.size(); l++) if (a == c->nargs || L[l].arg == a) v[l] = shortA[l][s % shortA[l].size()];
        return true;
    }
};
static bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
static Space make(const Call* c) {
    Space S; S.c = c; S.name = c->name; const std::string n = c->name;
    for (unsigned a = 0; a < c->nargs; a++) for (unsigned l = 0; l < c->args[a].lanes; l++) S.L.push_back({char(c->args[a].kind | 32), a, l});
    static const std::vector<float> RF = richFloats(); static const std::vector<int32_t> RI = richInts();
    static const std::vector<double> SF = {0, -0.0, 1, -1, 0.5, 2, 3e9, -3e9, 1e-40, FLT_MAX, INFINITY, -INFINITY, NAN};
    static const std::vector<double> SI = {0, 1, -1, 7, 31, -100, 65536, INT_MAX, -INT_MAX, INT_MIN};
    // integer results that do not fit are the caller's doing: small operands there
    std::string op; size_t o = n.find("operator"); if (o != std::string::npos) { size_t e = n.find('(', o + 8); op = n.substr(o + 8, e - o - 8); if (!op.empty() && op[0] == ' ') op.erase(0, 1); }
    auto in = [&](std::initializer_list<const char*> l) { for (auto x : l) if (op == x) return true; return false; };
    bool addLike = in({"+", "-", "+=", "-=", "++", "--"}) || n.compare(0, 7, "compAdd") == 0, mulLike = in({"*", "*="}) || n.compare(0, 7, "compMul") == 0, divLike = in({"/", "%", "/=", "%="}), shift = in({"<<", ">>", "<<=", ">>="});
    bool isAbs = n.compare(0, 4, "abs(") == 0, lerp01 = n.compare(0, 5, "lerp(") == 0 || n.compare(0, 6, "nlerp(") == 0, aspect = n.compare(0, 11, "perspective") == 0;
    for (auto& l : S.L) {
        std::vector<double> r, s; bool last = l.arg + 1u == c->nargs;
        if (c->idxmod && l.kind == 'u') { for (unsigned i = 0; i < c->idxmod; i++) r.push_back(i); s = r; }
        else if (l.kind == 'f') {
            for (float f : RF) r.push_back(f); s = SF; if (S.L.size() <= 6) for (double d : {2147483648., -2147483904., 4e9, 6e9, -9e9, 1.5e19, 1e-3, 1.5, 3., 255., 16777217., 1e-20, 1e20}) s.push_back(d);
            if (lerp01 && last) { r = {0, 0.25, 0.5, 1, 1e-40, 0.99999994}; s = {0, 0.5, 1}; }
            if (aspect && l.arg == 1) { std::vector<double> q; for (double d : r) if (d == d && d != FLT_EPSILON) q.push_back(d); r = q; s = {0, 1, 1.5, -1, INFINITY}; }
        }
        else if (l.kind == 'i') {
            if (shift && last) { for (int i = 0; i < 32; i++) r.push_back(i); s = {0, 1, 5, 31}; }
            else if (divLike && last) { r = {1, -2, 2, 3, -3, 7, 10, 1000, -1000, 65536, INT_MAX}; s = {1, 2, -3, 1000}; }
            else if (divLike || addLike) { for (int i : RI) if (i >= -1000000000 && i <= 1000000000) r.push_back(i); r.push_back(1e9); r.push_back(-1e9); s = {0, 1, -1, 1e9, -1e9}; if (n.compare(0, 7, "compAdd") == 0) s = {0, 1, -5e8, 5e8}; }
            else if (mulLike) { r = {0, 1, -1, 2, -7, 30, 100, -999}; s = {0, -1, 7, 30, -30}; }
            else if (isAbs) { for (int i : RI) if (i != INT_MIN) r.push_back(i); s = {0, 5, -5, INT_MAX, -INT_MAX}; }
            else { for (int i : RI) r.push_back(i); s = SI; }
        }
        else if (l.kind == 'b') r = s = {0, 1};
        else { r = {0, 1, 17, 4294967295.0}; s = r; }
        S.rich.push_back(r); S.shortA.push_back(s);
    }
    for (int k = 0; k < 3; k++) {
        std::vector<double> v;
        for (unsigned q = 0; q < S.L.size(); q++) { auto& l = S.L[q]; double f = k == 0 ? 0.30 + 0.13 * l.arg + 0.07 * l.lane : k == 1 ? 1.0 : l.lane % 5 == 0 ? 1.0 : 0.0, i = k == 0 ? 2 + (l.arg + l.lane) % 3 : 1;
            v.push_back(l.kind == 'f' ? (lerp01 && l.arg + 1u == c->nargs ? 0.5 : f) : l.kind == 'i' ? i : l.kind == 'b' ? (q + k) % 2 : double((q + k) % (c->idxmod ? c->idxmod : 4))); }
        S.ctx.push_back(v);
    }
    u64 n1 = 0, n2 = 0; unsigned m = S.L.size(); if (!m) { S.ctx.resize(1); }
    for (unsigned l = 0; l < m; l++) { S.off1.push_back(n1); n1 += S.rich[l].size(); }
    for (unsigned a = 0; a < m; a++) for (unsigned b = a + 1; b < m; b++) { if (m > 12 && !isThorough() && (a * 7 + b) % 8) continue; S.pairs.push_back({a, b}); S.off2.push_back(n2); n2 += S.shortA[a].size() * S.shortA[b].size(); }
    S.n1 = n1 * S.ctx.size(); S.n2 = n2 * S.ctx.size(); S.n3 = m ? u64(c->nargs + 1) * SF.size() : 0; S.total = S.ctx.size() + S.n1 + S.n2 + S.n3; if (!m) S.total = 1;
    return S;
}
static void put(char* at, char k, double v) {
    switch (k) { case 'f': { float f = v; std::memcpy(at, &f, 4); break; } case 'i': { int i = int(v); std::memcpy(at, &i, 4); break; } case 'u': { unsigned i = unsigned(v); std::memcpy(at, &i, 4); break; } case 'z': { size_t i = size_t(v); std::memcpy(at, &i, 8); break; } case 'b': *at = v != 0; break; }
}
static std::string show(const Space& S, const std::vector<double>& v) { std::string s; for (unsigned q = 0; q < v.size(); q++) s += fmt("%s%.9g", q ? (S.L[q].arg != S.L[q - 1].arg ? " | " : ",") : "", v[q]); return s; }

static void one(const Space& S, u64 i, Ctx& c) {
    thread_local std::unique_ptr<Frame> F(new Frame); thread_local const Call* prepared = nullptr; thread_local char* at[NARG];
    const Call* k = S.c; Frame& f = *F; thread_local std::vector<double> v;
    S.tuple(i, v);
    if (prepared != k) {
        // every operand starts at an address aligned for its type and no better, nothing beside it may be read
        openMem(&f, sizeof f); std::memset(&f, 0x5a, sizeof f); openMem(&f, sizeof f);
        for (unsigned a = 0; a < k->nargs; a++) { unsigned al = k->al[a] & 127; if (!al) al = 8; at[a] = f.in[a] + 64 + al; unsigned n = bytes(k->args[a]);
            closeMem(f.in[a], at[a] - f.in[a]); closeMem(at[a] + n, f.in[a] + SLOT - at[a] - n); }
        for (unsigned a = k->nargs; a < NARG; a++) closeMem(f.in[a], SLOT);
#ifdef ASAN
        closeMem(f.out, OUTB); if (k->ret.lanes) openMem(f.out, bytes(k->ret)); for (unsigned r = 0; r < k->nrefs; r++) openMem(f.out + 64 + 64 * r, bytes(k->refs[r]));
#endif
        prepared = k;
    }
    for (unsigned q = 0; q < S.L.size(); q++) { auto& l = S.L[q]; put(at[l.arg] + l.lane * elem(k->args[l.arg].kind), l.kind, v[q]); }
    const void* a[NARG]; for (unsigned q = 0; q < k->nargs; q++) a[q] = at[q];
#ifdef MSAN
    for (unsigned q = 0; q < k->nargs; q++) { __msan_unpoison(at[q], bytes(k->args[q])); if (k->al[q] & 128) __msan_poison(at[q], bytes(k->args[q])); }   // passed for writing only
    __msan_poison(f.out, OUTB);
#endif
    k->fn(a, f.out);
    intptr_t bad = -1; const char* what = "result";
#ifdef MSAN
    bool ptr = false; (void)ptr;
    if (k->ret.lanes) bad = __msan_test_shadow(f.out, bytes(k->ret));
    bool passThrough = std::strncmp(k->name, "value_ptr", 9) == 0;
    if (!passThrough) for (unsigned r = 0; r < k->nrefs && bad < 0; r++) { bad = __msan_test_shadow(f.out + 64 + 64 * r, bytes(k->refs[r])); what = "object"; }
    __msan_unpoison(f.out, OUTB);
#endif
    c.nt(i != 0 || k->nargs == 0);
    c.check(bad < 0, [&] { return fmt("%s on (%s): byte %ld of the %s is not initialised", k->name, show(S, v).c_str(), (long)bad, what); });
}
void registerFamilies() {
    static std::vector<Space> all; const Call* tabs[64]; unsigned ns[64]; unsigned parts = zcm_calls(tabs, ns);
    unsigned n = 0; for (unsigned p = 0; p < parts; p++) n += ns[p]; all.reserve(n);
    for (unsigned p = 0; p < parts; p++) for (unsigned k = 0; k < ns[p]; k++) { all.push_back(make(tabs[p] + k)); const Space* S = &all.back(); mc::add(S->name, S->total, [S](u64 i, Ctx& c) { one(*S, i, c); }); }
}
