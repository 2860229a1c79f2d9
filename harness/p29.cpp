// Hashes: consistency with equality, influence of every component, agreement of std::hash, containers.
#include "zall.hpp"
#include <unordered_set>
#include <unordered_map>
#include <set>
using namespace zcm;
template<class V> struct Eq { static bool eq(const V& a, const V& b) { return a == b; } };
template<class B> static B fix(B x) { return x; }
template<class V, class S> static bool lanesEq(const S* a, const S* b) { for (int k = 0; k < Tr<V>::n; k++) if (!(a[k] == b[k])) return false; return true; }
template<class S> static std::vector<S> vals(); template<> std::vector<float> vals() { return mc::richFloats(); } template<> std::vector<int32_t> vals() { return mc::richInts(); } template<> std::vector<bool> vals() { return {false, true}; }
template<class S> static S base(int t, int k); template<> float base(int t, int k) { return t == 0 ? 0.f : t == 1 ? 1.5f + k : t == 2 ? (k % 2 ? -0.37f : 0.91f) * (k + 1) : t == 3 ? 1e-3f / (k + 1) : t == 4 ? 1.f : t == 5 ? (k % 2 ? 0.37f : -0.91f) * (k + 1) : t == 6 ? -1.f : t == 7 ? -3e30f : 1e-40f; } template<> int32_t base(int t, int k) { return t == 0 ? 0 : t == 1 ? k + 1 : t == 2 ? (k % 2 ? -1 : 1) * (43 - 3 * k) : t == 3 ? 0x1234567 * (k + 3) : t == 4 ? 7 : t == 5 ? (k % 2 ? 1 : -1) * (43 - 3 * k) : t == 6 ? -1 : t == 7 ? INT32_MIN : INT32_MAX; } template<> bool base(int t, int k) { return t >> k & 1; }
template<class V> static size_t H(const V& v) { return zcm::hash(v); } template<class V> static size_t SH(const V& v) { return std::hash<V>()(v); }
template<class V> static void reg() {
    typedef typename Tr<V>::S S; enum { N = Tr<V>::n }; static std::vector<S> al; al = vals<S>(); std::string nm = Tr<V>::name(); u64 A = al.size();
    auto one = [](const S* l, Ctx& c) { V v = mk<V>(l); size_t h = H(v), s = SH(v), h2 = H(v); V w = mk<V>(l); c.check(h == s && h == h2 && h == H(w), [&] { return fmt("hash(%s %s) = %zx, again %zx, of a copy %zx, std::hash %zx", Tr<V>::name(), vsx(l, N).c_str(), h, h2, H(w), s); }); return h; };
    // equal objects: every lane over the alphabet, compared with a copy in which zeros change sign (alone and together)
    mc::add(nm + " influence and repetition", u64(N) * (sizeof(S) == 1 ? 1 << N : 9), [one, A](u64 i, Ctx& c) { int k = (int)(i % N), t = (int)(i / N); S l[N]; for (int j = 0; j < N; j++) l[j] = base<S>(t, j); std::set<size_t> hs; std::vector<S> dist; u64 n = 0; for (u64 a = 0; a < A; a++) { l[k] = al[a]; S x = al[a]; bool dup = !(x == x); for (S d : dist) if (d == x) dup = true; size_t h = one(l, c); if (dup) continue; dist.push_back(x); hs.insert(h); ++n; } c.nt(true); c.evals += n; c.nontrivial += n;
        c.check(hs.size() * 10 > n * 3 && (hs.size() > 1 || n < 2), [&] { l[k] = base<S>(t, k); return fmt("hash(%s): component %d of %s takes %llu distinct values but only %zu distinct hashes", Tr<V>::name(), k, vsx(l, N).c_str(), (unsigned long long)n, hs.size()); }); });
    // single collisions are inherent, but no two values of a component may have the same hash whatever the others are
    mc::add(nm + " systematic collisions", N, [A](u64 i, Ctx& c) { int k = (int)i; enum { T = sizeof(S) == 1 ? 1 << N : 9 }; std::vector<S> dist; std::vector<std::vector<size_t>> hs; for (u64 a = 0; a < A; a++) { S x = al[a]; bool dup = !(x == x); for (S d : dist) if (d == x) dup = true; if (dup) continue; dist.push_back(x); std::vector<size_t> row; for (int t = 0; t < T; t++) { S l[N]; for (int j = 0; j < N; j++) l[j] = base<S>(t, j); l[k] = x; row.push_back(H(mk<V>(l))); } hs.push_back(row); }
        for (size_t a = 0; a < dist.size(); a++) for (size_t b = 0; b < a; b++) { c.nt(true); S x = dist[a], y = dist[b]; c.check(hs[a] != hs[b], [&] { return fmt("hash(%s) never tells %s from %s in component %d, whatever the other components are", Tr<V>::name(), vsx(&y, 1).c_str(), vsx(&x, 1).c_str(), k); }); } });
    // negating the same components of every value (q and -q, mirrored points) must not leave the hash as it is
    if (sizeof(S) > 1) mc::add(nm + " sign patterns", (u64(1) << N) - 1, [](u64 i, Ctx& c) {
        const u64 pat = i + 1; int same = 0; enum { T = 24 }; std::string ex;
        for (int t = 0; t < T; t++) { S l[N], m[N]; for (int j = 0; j < N; j++) { S b = S((j * 5 + t * 3) % 11 + 1) + S(sizeof(S) > 1 && std::is_floating_point<S>::value ? 0.25 * (t % 4) : 0); if ((t >> (j % 3)) & 1) b = S(-b); l[j] = b; m[j] = pat >> j & 1 ? S(-b) : b; } V a = mk<V>(l), b = mk<V>(m); same += zcm::hash(a) == zcm::hash(b); if (!t) ex = vsx(l, N); }
        c.nt(true); c.check(same < T, [&] { return fmt("hash(%s): negating components of the set %llx leaves the hash of every value unchanged, e.g. of %s", Tr<V>::name(), (unsigned long long)pat, ex.c_str()); });
    });
    u64 P = A * A; mc::add(nm + " equality", u64(N) * N * 5 * (sizeof(S) == 1 ? P : std::min<u64>(P, 2500)), [A](u64 i, Ctx& c) { mc::Radix r(i); int k = (int)r.take(N), j = (int)r.take(N), t = (int)r.take(5); u64 M = sizeof(S) == 1 ? A : std::min<u64>(A, 50); S l[N], m[N]; for (int q = 0; q < N; q++) m[q] = l[q] = base<S>(t, q); l[k] = m[k] = al[r.take(M)]; m[j] = al[r.take(M)]; V a = mk<V>(l), b = mk<V>(m); bool eq = a == b; bool me = lanesEq<V, S>(l, m); c.nt(k != j); c.check(eq == me && (!me || (H(a) == H(b) && SH(a) == SH(b))), [&] { return fmt("%s %s and %s: equal %d (expected %d), hashes %zx and %zx", Tr<V>::name(), vsx(l, N).c_str(), vsx(m, N).c_str(), eq, me, H(a), H(b)); }); });
    // hashed containers: all insertion / removal / lookup sequences
    mc::add(nm + " unordered_set histories", 1, [](u64, Ctx& c) { std::vector<V> keys; std::vector<std::vector<S>> raw; int K = 5; for (int q = 0; q < K; q++) { S l[N]; for (int j = 0; j < N; j++) l[j] = base<S>(sizeof(S) == 1 ? 0 : 1, j); if (q) l[(q - 1) % N] = sizeof(S) == 1 ? S(true) : S(q > 3 ? 9 : 0); if (q == 4 && N == 2 && sizeof(S) == 1) l[0] = l[1] = S(true); keys.push_back(mk<V>(l)); raw.push_back(std::vector<S>(l, l + N)); }
        int depth = mc::isThorough() ? 6 : 5, ops = 2 * K; u64 tot = 1; for (int d = 0; d < depth; d++) tot *= ops; auto id = [&](int a) { for (int b = 0; b < a; b++) { bool e = true; for (int j = 0; j < N; j++) e = e && raw[a][j] == raw[b][j]; if (e) return b; } return a; };
        for (u64 s = 0; s < tot; s++) { std::unordered_set<V> us; std::set<int> ref; mc::Radix r(s); bool ok = true; for (int d = 0; d < depth; d++) { int o = (int)r.take(ops), k = o % K; if (o < K) { us.insert(keys[k]); ref.insert(id(k)); } else { us.erase(keys[k]); ref.erase(id(k)); } ++c.transitions; } for (int k = 0; k < K; k++) ok = ok && us.count(keys[k]) == ref.count(id(k)); ok = ok && us.size() == ref.size(); ++c.states; ++c.traces; c.nt(true); c.check(ok, [&] { return fmt("unordered_set<%s> after sequence %llu of inserts and erases has %zu elements, expected %zu", Tr<V>::name(), (unsigned long long)s, us.size(), ref.size()); }); } }, 1);
}
void registerFamilies() {
    reg<vec2>(); reg<vec3>(); reg<vec4>(); reg<quat>(); reg<mat2>(); reg<mat3>(); reg<mat4>(); reg<ivec2>(); reg<ivec3>(); reg<ivec4>(); reg<bvec2>(); reg<bvec3>(); reg<bvec4>();
    static std::vector<float> f = vals<float>(); u64 n = f.size(); mc::add("float pairs", n * n, [n](u64 i, Ctx& c) { float a = f[i % n], b = f[i / n]; size_t x = zcm::hash(a), y = zcm::hash(b); c.nt(a != b); c.check(a == b ? x == y : (a != a || b != b || x != y) && x == zcm::hash(a), [&] { return fmt("hash(%s) = %zx, hash(%s) = %zx", fs(a).c_str(), x, fs(b).c_str(), y); }); });
    mc::add("float encodings in steps", 1 << 20, [](u64 i, Ctx& c) { float a = mc::fromBits(u32(i << 12) | u32(i % 4096)); size_t x = zcm::hash(a); float b = mc::fromBits(mc::bits(a) ^ 1); c.nt(true); c.check(x == zcm::hash(a) && (a != a || b != b || a == b || x != zcm::hash(b)), [&] { return fmt("hash(%s) = %zx, hash(%s) = %zx", fs(a).c_str(), x, fs(b).c_str(), zcm::hash(b)); }); });
    static std::vector<int32_t> v = vals<int32_t>(); u64 m = v.size(); mc::add("int, unsigned, bool pairs", m * m, [m](u64 i, Ctx& c) { int a = v[i % m], b = v[i / m]; c.nt(a != b); c.check((a == b) == (zcm::hash(a) == zcm::hash(b)) && (a == b) == (zcm::hash(unsigned(a)) == zcm::hash(unsigned(b))) && zcm::hash(true) != zcm::hash(false) && zcm::hash(a > b) == zcm::hash(bool(a > b)), [&] { return fmt("hash(%d) = %zx, hash(%d) = %zx; unsigned %zx, %zx", a, zcm::hash(a), b, zcm::hash(b), zcm::hash(unsigned(a)), zcm::hash(unsigned(b))); }); });
}
