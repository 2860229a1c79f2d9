// Argument sets for the generated call table (shared by p31 and p32).
#pragma once
#include "mc.hpp"
#include "calls.hpp"
#include <sys/mman.h>
using mc::u64; using mc::u32; using mc::fmt; using mc::Ctx;
enum { OUT = 256, ARG = 64 };   // bytes of one result record and of one argument slot
struct Thunk { const Call* c; unsigned first, n; };            // its calls are [first, first + n)
struct Inv { unsigned thunk; u64 off; std::string desc; };     // off: where its argument bytes start in the arena
static std::vector<Thunk> thunks; static std::vector<Inv> invs; static unsigned char* arena; static u64 arenaUsed;
static const u64 ARENA = u64(1) << 30;

static unsigned elem(char k) { switch (k) { case 'f': case 'F': case 'i': case 'I': case 'u': return 4; case 'b': case 'B': return 1; case 'z': return 8; } return 0; }
static unsigned bytes(TypeCode t) { return elem(t.kind) * t.lanes; }
struct Val { int sel; };
// the alphabets: every lane has a base value and a changed value, different for every lane and parameter
static double pick(char k, unsigned p, unsigned l, int sel, const Call* c) {
    static const double F[] = {0, 1, -1, 0.5, -0.5, 2, 1e-3, 100, 3.14159274101257324, 1e10, 1e-30, -0.0, INFINITY, -INFINITY, NAN, 1e-42};
    static const double I[] = {1, 7, 13, 30, 2};
    bool idx = c->idxmod && p == 1u;
    // relations of size between the lanes: 1000+g, g < 48 (see makeSets)
    if (sel >= 1000 && sel < 2000 && (k == 'f' || k == 'F')) {
        static const double M[] = {1, 200, 0.02, 3e4, 1e-3, 7, 0.4, 1e-6, 2.5e7, 1e-12};
        unsigned g = sel - 1000, at = l + 3 * p; double sg = ((g * 2654435761u) >> (7 + at % 23)) & 1 ? -1 : 1, u = 1 + 0.0625 * ((at * 5 + g) % 7);
        switch (g % 6) { case 0: return sg * u * M[(at * 3 + g) % 10]; case 1: return sg * M[g / 6 % 10]; case 2: return at % 4 == g / 6 % 4 ? sg * 200 * u : sg * u; case 3: return at % 4 == g / 6 % 4 ? 0 : sg * u * M[g / 6 % 10]; case 4: return at % 3 == g / 6 % 3 ? sg * u : 0; default: return sg * u * M[(at / 3 * 3 + g / 6) % 10]; }
    }
    // parameters close to each other, of length near 1 (2000+g, g < 12)
    if (sel >= 2000 && (k == 'f' || k == 'F')) {
        static const double D[] = {0.04, 0.01, 1e-3, 1e-4}, U[] = {0.1, 0.7, -0.5, 0.5}, S[] = {0.25, 0.75, 1.5};
        unsigned g = sel - 2000; for (unsigned a = 0, q = 0; a < c->nargs; a++) { if (a == p && c->args[a].lanes == 1) return q ? S[g % 3] : 0.5 + p * D[g / 3 % 4]; q += c->args[a].lanes > 1; }
        return U[(l + g) % 4] + ((l * 3 + p * 5 + g) % 7 - 3.0) / 3 * D[g / 3 % 4];
    }
    if (sel >= 1000) sel = sel % 2;
    switch (k) {
        case 'f': case 'F': if (sel >= 10) return F[(sel - 10) % 16]; return sel == 0 ? 0.30 + 0.13 * p + 0.07 * l : 0.45 + 0.11 * p - 0.05 * l;
        case 'i': case 'I': if (sel >= 10) { double v = I[(sel - 10) % 5]; return c->nargs == 1 && sel >= 15 ? -v : v; } return sel == 0 ? 3 + (2 * p + l) % 5 : 9 + (p + 2 * l) % 6;
        case 'u': if (idx) return sel % c->idxmod; return sel == 0 ? 3 + l : 11 + sel + l;
        case 'z': return 17 + sel;
        case 'b': case 'B': return sel >= 10 ? sel % 2 : (sel + p + l) % 2;
    }
    return 0;
}
static void put(unsigned char* at, char k, double v) {
    switch (k) { case 'f': case 'F': { float f = v; std::memcpy(at, &f, 4); break; } case 'i': case 'I': { int i = v; std::memcpy(at, &i, 4); break; } case 'u': { unsigned i = v; std::memcpy(at, &i, 4); break; }
        case 'z': { size_t i = v; std::memcpy(at, &i, 8); break; } case 'b': case 'B': *at = v != 0; break; }
}
static void addInv(unsigned t, const std::vector<int>& sels, const std::string& d) {
    const Call* c = thunks[t].c; unsigned char* at = arena + arenaUsed; unsigned q = 0;
    for (unsigned p = 0; p < c->nargs; p++) for (unsigned l = 0; l < c->args[p].lanes; l++) put(at + ARG * p + l * elem(c->args[p].kind), c->args[p].kind, pick(c->args[p].kind, p, l, sels[q++], c));
    invs.push_back({t, arenaUsed, d}); arenaUsed += ARG * (c->nargs ? c->nargs : 1);
    if (arenaUsed > ARENA - 4096) abort();
}
// thunk order is the table order; the same sets in every build
static void makeSets(const Call* const* tabs, const unsigned* ns, unsigned parts, bool deep, bool relations = false) {
    arena = (unsigned char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (unsigned p = 0; p < parts; p++) for (unsigned k = 0; k < ns[p]; k++) {
        const Call* c = tabs[p] + k; unsigned t = thunks.size(); thunks.push_back({c, (unsigned)invs.size(), 0});
        unsigned L = 0; for (unsigned a = 0; a < c->nargs; a++) L += c->args[a].lanes;
        std::vector<int> s(L, 0); addInv(t, s, "base");
        if (L) {
            std::vector<int> ch(L, 1); addInv(t, ch, "all changed");
            for (unsigned l = 0; l < L; l++) { auto d = s; d[l] = 1; addInv(t, d, fmt("lane %u changed", l)); }
            for (int v = 10; v < 26; v++) { addInv(t, std::vector<int>(L, v), fmt("all lanes special %d", v - 10)); if (c->nargs > 1) { auto d = s; for (unsigned l = 0; l < c->args[0].lanes; l++) d[l] = v; addInv(t, d, fmt("first argument special %d", v - 10));
                auto e = s; for (unsigned l = L - c->args[c->nargs - 1].lanes; l < L; l++) e[l] = v; addInv(t, e, fmt("last argument special %d", v - 10)); } }
            bool fl = false; for (unsigned a = 0; a < c->nargs; a++) fl = fl || c->args[a].kind == 'f' || c->args[a].kind == 'F';
            if (relations && fl) { for (int g = 0; g < (deep ? 300 : 60); g++) addInv(t, std::vector<int>(L, 1000 + g), fmt("relation %d", g));
                if (c->nargs > 1) for (int g = 0; g < 12; g++) addInv(t, std::vector<int>(L, 2000 + g), fmt("close parameters %d", g));
                if (!deep) for (unsigned l = 0; l < L; l++) for (int v : {0, 2, 6, 7, 11, 14}) { auto d = s; d[l] = 10 + v; addInv(t, d, fmt("lane %u special %d", l, v)); } }
            if (deep) { for (unsigned l = 0; l < L; l++) for (unsigned m = l + 1; m < L; m++) { auto d = s; d[l] = d[m] = 1; addInv(t, d, fmt("lanes %u, %u changed", l, m)); }
                for (unsigned l = 0; l < L; l++) for (int v = 10; v < 26; v++) { auto d = s; d[l] = v; addInv(t, d, fmt("lane %u special %d", l, v - 10)); } }
        }
        thunks[t].n = invs.size() - thunks[t].first;
    }
    mprotect(arena, (arenaUsed + 4095) & ~u64(4095), PROT_READ);   // arguments are never written by a call
}
static inline void argPtrs(const Inv& v, const void** a) { const Call* c = thunks[v.thunk].c; for (unsigned p = 0; p < c->nargs; p++) a[p] = arena + v.off + ARG * p; }
static inline void invoke(const Inv& v, char* out) { const void* a[18]; argPtrs(v, a); thunks[v.thunk].c->fn(a, out); }
static unsigned outBytes(const Call* c) { return c->nrefs ? 64 + 64 * c->nrefs : bytes(c->ret); }
static std::string name(unsigned i) { return fmt("%s [%s]", thunks[invs[i].thunk].c->name, invs[i].desc.c_str()); }
static std::string show(const Call* c, const char* o) {
    std::string s; unsigned n = c->ret.lanes; for (unsigned l = 0; l < n && l < 16; l++) { const char* p = o + l * elem(c->ret.kind); if (l) s += ","; switch (c->ret.kind) { case 'f': { float f; std::memcpy(&f, p, 4); u32 w; std::memcpy(&w, p, 4); s += fmt("%g(%08x)", f, w); break; } case 'i': { int f; std::memcpy(&f, p, 4); s += fmt("%d", f); break; } case 'u': { u32 f; std::memcpy(&f, p, 4); s += fmt("%u", f); break; } case 'z': { u64 f; std::memcpy(&f, p, 8); s += fmt("%llx", (unsigned long long)f); break; } case 'b': s += fmt("%d", *p); break; } }
    for (unsigned r = 0; r < c->nrefs; r++) { s += " object:"; for (unsigned q = 0; q < 16 && 4 * q < bytes(c->refs[r]); q++) { u32 w; std::memcpy(&w, o + 64 + 64 * r + 4 * q, 4); s += fmt("%08x ", w); } }
    return s;
}
