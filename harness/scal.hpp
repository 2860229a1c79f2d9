// Unary functions checked against a reference on (a) every float (b) the encoding grid (c) all lanes of
// every vector overload.
#pragma once
#include "zall.hpp"
#ifdef NDEBUG
enum { RELEASE = 1 };
#else
enum { RELEASE = 0 };
#endif
inline const std::vector<float>& litNeighbours() {   // literals of the sources with the floats around them
    static std::vector<float> v = [] { std::vector<float> r;
        for (float f : mc::richFloats()) { r.push_back(f); if (!mc::finite(f)) continue; u32 w = mc::bits(f); for (int d = -40; d <= 40; d++) r.push_back(mc::fromBits(w + d)); }
        return r; }();
    return v;
}
// all 2^32 encodings, 4096 to an index; bad(x) is the fast comparison, body(x, c) repeats it with a message
template<class G, class F> void everyFloat(const std::string& name, int perCall, G bad, F body) {
    mc::add(name + " every float (index = 4096 encodings)", u64(1) << 20, [bad, body, perCall](u64 i, Ctx& c) {
        u32 w = u32(i << 12); u64 nt = 0;
        for (u32 k = 0; k < 4096; k++) { bool t = false; if (__builtin_expect(bad(mc::fromBits(w + k), t), 0)) body(mc::fromBits(w + k), c); nt += t; }
        c.evals += 4096ull * perCall; c.nontrivial += nt;
        if (c.verbose) body(mc::fromBits(w + 2048), c);
    }, 64);
}
template<class F> void gridFloat(const std::string& name, int mb, F body) {
    mc::add(name + " grid", mc::gridSize(mb), [body, mb](u64 i, Ctx& c) { body(mc::gridAt(i, mb), c); }, 1 << 12);
    mc::add(name + " around the literals of the sources", litNeighbours().size(), [body](u64 i, Ctx& c) { body(litNeighbours()[i], c); });
}
// vector overloads: body(V, lanes, N) over the lane space
template<class V, class F> void lanesOf(const std::string& name, std::vector<float> small, F body, std::vector<std::vector<float>> ctx = {}) {
    enum { N = Tr<V>::n };
    if (ctx.empty()) { ctx.resize(3); for (int k = 0; k < N; k++) { ctx[0].push_back(0.31f + 0.17f * k); ctx[1].push_back(1.25f + k); ctx[2].push_back((k % 2 ? 1 : -1) * (0.4f + 0.13f * k)); } }
    auto sp = std::make_shared<LaneSpace<float>>(N, small, mc::richFloats(), ctx);
    mc::add(name + " " + Tr<V>::name(), sp->size(), [sp, body](u64 i, Ctx& c) { float l[N]; sp->decode(i, l); V v = mk<V>(l); body(v, l, sp->fresh(i, l), c); });
}
