// bvec: complete truth tables.
#include "zall.hpp"
using namespace zcm;
template<class V> static V bv(unsigned m) { bool b[Tr<V>::n]; for (int k = 0; k < Tr<V>::n; k++) b[k] = m >> k & 1; return mk<V>(b); }
template<class V> static unsigned mask(const V& v) { unsigned char raw[sizeof(V)]; std::memcpy(raw, &v, sizeof raw); unsigned m = 0; for (int k = 0; k < Tr<V>::n; k++) { if (raw[k] > 1) return 999; m |= raw[k] << k; } return m; }
#define CK(E, X, ...) { unsigned g_ = (X), e_ = (E); c.check(g_ == e_, [&] { return fmt("%s " __VA_ARGS__) + fmt(": got %u, expected %u", g_, e_); }); }
template<class V> void reg() {
    enum { N = Tr<V>::n }; const unsigned M = 1u << N, F = M - 1; std::string nm = Tr<V>::name();
    mc::add(nm + " pairs", M * M, [=](u64 i, Ctx& c) {
        unsigned a = i % M, b = i / M; V x = bv<V>(a), y = bv<V>(b); const char* t = Tr<V>::name(); c.nt(a != b);
        CK(a & b, mask(V(x && y)), "%u && %u", t, a, b) CK(a | b, mask(V(x || y)), "%u || %u", t, a, b) CK(a ^ b, mask(V(x ^ y)), "%u ^ %u", t, a, b)
        CK(a == b, x == y, "%u == %u", t, a, b) CK(a != b, x != y, "%u != %u", t, a, b)
        CK(~(a ^ b) & F, mask(equal(x, y)), "equal(%u,%u)", t, a, b) CK(a ^ b, mask(notEqual(x, y)), "notEqual(%u,%u)", t, a, b)
        V q = x; q &= y; CK(a & b, mask(q), "%u &= %u", t, a, b) q = x; q |= y; CK(a | b, mask(q), "%u |= %u", t, a, b) q = x; q ^= y; CK(a ^ b, mask(q), "%u ^= %u", t, a, b)
        CK(a, mask(x), "operand of %u ? %u changed", t, a, b) CK(b, mask(y), "operand of %u ? %u changed", t, b, a)
    });
    mc::add(nm + " single", M * 2, [=](u64 i, Ctx& c) {
        unsigned a = i % M; bool s = i / M; unsigned S = s ? F : 0; V x = bv<V>(a); const char* t = Tr<V>::name(); c.nt(true);
        CK(~a & F, mask(!x), "!%u", t, a) CK(a == F, all(x), "all(%u)", t, a) CK(a != 0, any(x), "any(%u)", t, a)
        CK(a & S, mask(V(x && s)), "%u && scalar %d", t, a, s) CK(a & S, mask(V(s && x)), "scalar %d && %u", t, s, a)
        CK(a | S, mask(V(x || s)), "%u || scalar %d", t, a, s) CK(a | S, mask(V(s || x)), "scalar %d || %u", t, s, a)
        CK(a ^ S, mask(V(x ^ s)), "%u ^ scalar %d", t, a, s) CK(a ^ S, mask(V(s ^ x)), "scalar %d ^ %u", t, s, a)
        V q = x; q &= s; CK(a & S, mask(q), "%u &= scalar %d", t, a, s) q = x; q |= s; CK(a | S, mask(q), "%u |= scalar %d", t, a, s) q = x; q ^= s; CK(a ^ S, mask(q), "%u ^= scalar %d", t, a, s)
        // numbers convert to bool: zero is false, anything else is true
        static const int numbers[] = {0, 1, 2, -1, 256, 65536, INT_MIN, 6}; for (int z : numbers) { if ((z != 0) != s) continue; CK(a & S, mask(V(x && z)), "%u && number %d", t, a, z) CK(a | S, mask(V(z || x)), "number %d || %u", t, z, a) CK(a ^ S, mask(V(x ^ z)), "%u ^ number %d", t, a, z) CK(a ^ S, mask(V(z ^ x)), "number %d ^ %u", t, z, a) q = x; q ^= z; CK(a ^ S, mask(q), "%u ^= number %d", t, a, z) q = x; q &= z; CK(a & S, mask(q), "%u &= number %d", t, a, z) q = x; q |= z; CK(a | S, mask(q), "%u |= number %d", t, a, z) }
        { float f = s ? 0.5f : -0.f; CK(a ^ S, mask(V(x ^ f)), "%u ^ number %g", t, a, f) CK(a & S, mask(V(f && x)), "number %g && %u", t, f, a) }
        q = x; q &= q; CK(a, mask(q), "%u &= itself", t, a) q = x; q |= q; CK(a, mask(q), "%u |= itself", t, a) q = x; q ^= q; CK(0u, mask(q), "%u ^= itself", t, a)
        CK(S, mask(V(s)), "broadcast of %d", t, (int)s) CK(0u, mask(V()), "default", t)
        for (unsigned k = 0; k < N; k++) {
            const V& cx = x; CK((a >> k & 1), cx[k], "%u const [%u]", t, a, k) CK((a >> k & 1), x[k], "%u [%u]", t, a, k)
            V w = x; w[k] = s; CK((a & ~(1u << k)) | (unsigned(s) << k), mask(w), "%u, [%u] = %d", t, a, k, s)
            w = x; w &= w[k]; CK(a & ((a >> k & 1) ? F : 0), mask(w), "v=%u; v &= v[%u]", t, a, k)
            w = x; w |= w[k]; CK(a | ((a >> k & 1) ? F : 0), mask(w), "v=%u; v |= v[%u]", t, a, k)
            w = x; w ^= w[k]; CK(a ^ ((a >> k & 1) ? F : 0), mask(w), "v=%u; v ^= v[%u]", t, a, k)
        }
        bool arr[N]; for (int k = 0; k < N; k++) arr[k] = a >> k & 1;
        CK(a, N == 2 ? mask(make_bvec2(arr)) : N == 3 ? mask(make_bvec3(arr)) : mask(make_bvec4(arr)), "make of %u", t, a)
        CK((a & 1), x.x, "%u .x", t, a) CK((a >> 1 & 1), x.y, "%u .y", t, a)
    });
}
void registerFamilies() {
    reg<bvec2>(); reg<bvec3>(); reg<bvec4>();
    mc::add("constructors", 16, [](u64 a, Ctx& c) {
        bool x = a & 1, y = a >> 1 & 1, z = a >> 2 & 1, w = a >> 3 & 1; c.nt(a != 0 && a != 15);
        CK((unsigned)(a & 3), mask(bvec2(x, y)), "%u", "bvec2(x,y)", (unsigned)a) CK((unsigned)(a & 7), mask(bvec3(x, y, z)), "%u", "bvec3(x,y,z)", (unsigned)a) CK((unsigned)a, mask(bvec4(x, y, z, w)), "%u", "bvec4(x,y,z,w)", (unsigned)a)
        CK((unsigned)(a & 7), mask(bvec3(bvec2(x, y), z)), "%u", "bvec3(xy,z)", (unsigned)a) CK((unsigned)(a & 7), mask(bvec3(x, bvec2(y, z))), "%u", "bvec3(x,yz)", (unsigned)a)
        CK((unsigned)a, mask(bvec4(bvec3(x, y, z), w)), "%u", "bvec4(xyz,w)", (unsigned)a) CK((unsigned)a, mask(bvec4(x, bvec3(y, z, w))), "%u", "bvec4(x,yzw)", (unsigned)a)
        CK((unsigned)a, mask(bvec4(bvec2(x, y), bvec2(z, w))), "%u", "bvec4(xy,zw)", (unsigned)a) CK((unsigned)a, mask(bvec4(bvec2(x, y), z, w)), "%u", "bvec4(xy,z,w)", (unsigned)a)
        CK((unsigned)a, mask(bvec4(x, bvec2(y, z), w)), "%u", "bvec4(x,yz,w)", (unsigned)a) CK((unsigned)a, mask(bvec4(x, y, bvec2(z, w))), "%u", "bvec4(x,y,zw)", (unsigned)a)
    });
    mc::add("z and w members", 16, [](u64 a, Ctx& c) { bvec3 b = bv<bvec3>(a & 7); bvec4 d = bv<bvec4>(a); c.nt(a > 3);
        CK((unsigned)(a >> 2 & 1), b.z, "%u", "bvec3 .z", (unsigned)a) CK((unsigned)(a >> 2 & 1), d.z, "%u", "bvec4 .z", (unsigned)a) CK((unsigned)(a >> 3 & 1), d.w, "%u", "bvec4 .w", (unsigned)a) });
}
