// Selection and relational functions against their GLSL definitions.
#include "scal.hpp"
using namespace zcm;
static inline bool eq(float a, float b) { return a == b || (a != a && b != b); }
static inline float rAbs(float x) { return mc::fromBits(mc::bits(x) & 0x7fffffffu); }
static inline bool rNan(float x) { return (mc::bits(x) & 0x7fffffffu) > 0x7f800000u; }
static inline bool rInf(float x) { return (mc::bits(x) & 0x7fffffffu) == 0x7f800000u; }
static inline float rSign(float x) { u32 w = mc::bits(x); return (w & 0x7fffffffu) == 0 ? 0.f : w >> 31 ? -1.f : 1.f; }
static inline float rSnz(float x) { u32 w = mc::bits(x); return (w & 0x7fffffffu) == 0 ? 1.f : w >> 31 ? -1.f : 1.f; }
// order of the encodings of two numbers: -1, 0, 1
static inline int cmp(float a, float b) { int32_t x = (int32_t)mc::bits(a), y = (int32_t)mc::bits(b); if (x < 0) x = -(x & 0x7fffffff); if (y < 0) y = -(y & 0x7fffffff); return x < y ? -1 : x > y; }
static inline bool lt(float a, float b) { return !rNan(a) && !rNan(b) && cmp(a, b) < 0; }
static inline bool eqf(float a, float b) { return !rNan(a) && !rNan(b) && cmp(a, b) == 0; }
static inline bool le(float a, float b) { return lt(a, b) || eqf(a, b); }

static void un(float x, Ctx& c) {
    bool n = rNan(x); c.nt(!n && mc::bits(x) >> 31);
    { float g = zcm::abs(x); c.check(eq(g, rAbs(x)), [&] { return fmt("abs(%s) = %s", fs(x).c_str(), fs(g).c_str()); }); }
    if (!n) { float g = zcm::sign(x); c.check(g == rSign(x), [&] { return fmt("sign(%s) = %s", fs(x).c_str(), fs(g).c_str()); }); }
    if (!n) { float g = zcm::signNotZero(x); c.check(g == rSnz(x), [&] { return fmt("signNotZero(%s) = %s", fs(x).c_str(), fs(g).c_str()); }); }
    { bool g = zcm::isnan(x); c.check(g == n, [&] { return fmt("isnan(%s) = %d", fs(x).c_str(), g); }); }
    { bool g = zcm::isinf(x); c.check(g == rInf(x), [&] { return fmt("isinf(%s) = %d", fs(x).c_str(), g); }); }
}
static inline bool unBad(float x, bool& nt) { bool n = rNan(x); nt = !n && mc::bits(x) >> 31;
    return !(eq(zcm::abs(x), rAbs(x)) & (n || zcm::sign(x) == rSign(x)) & (n || zcm::signNotZero(x) == rSnz(x)) & (zcm::isnan(x) == n) & (zcm::isinf(x) == rInf(x))); }
static void iun(int32_t x, Ctx& c) { c.nt(x < 0);
    if (x != INT_MIN) { int g = zcm::abs(int(x)); c.check(g == (x < 0 ? -x : x), [&] { return fmt("abs(%d) = %d", x, g); }); }
    { int g = zcm::sign(int(x)); c.check(g == (x > 0) - (x < 0), [&] { return fmt("sign(%d) = %d", x, g); }); }
    { int g = zcm::signNotZero(int(x)); c.check(g == (x < 0 ? -1 : 1), [&] { return fmt("signNotZero(%d) = %d", x, g); }); } }

template<class V> struct BV; template<> struct BV<vec2> { typedef bvec2 T; }; template<> struct BV<vec3> { typedef bvec3 T; }; template<> struct BV<vec4> { typedef bvec4 T; }; template<> struct BV<quat> { typedef bvec4 T; };
template<class A> static bool eqz(const A& v, const typename Tr<A>::S* e) { typename Tr<A>::S p[Tr<A>::n]; rd(v, p); for (int i = 0; i < Tr<A>::n; i++) if (!(p[i] == e[i] || (p[i] != p[i] && e[i] != e[i]))) return false; return true; }
#define CK(FN, CALL, EXPR, SKIP, TXT) { bool ok = true; for (int k = 0; k < N && ok; k++) { if (SKIP) { ok = false; break; } e[k] = EXPR; } if (ok) { auto r = CALL; c.check(eqz(r, e), [&] { return fmt("%s " FN " %s = %s, expected %s", Tr<V>::name(), (TXT).c_str(), sh(r).c_str(), vs(e, N).c_str()); }); } }
template<class V> static void vun(const V& v, const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; c.nt(fr && l[0] < 0);
    { float e[N]; CK("abs", zcm::abs(v), rAbs(l[k]), false, vsx(l, N)) CK("sign", zcm::sign(v), rSign(l[k]), rNan(l[k]), vsx(l, N)) CK("signNotZero", zcm::signNotZero(v), rSnz(l[k]), rNan(l[k]), vsx(l, N)) }
    { bool e[N]; CK("isnan", zcm::isnan(v), rNan(l[k]), false, vsx(l, N)) CK("isinf", zcm::isinf(v), rInf(l[k]), false, vsx(l, N)) } }
template<class V> static void vbin(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V a = mk<V>(l), b = mk<V>(l + N); const float* m = l + N; auto txt = [&] { return vsx(l, N) + ", " + vsx(m, N); }; c.nt(fr && lt(l[0], m[0]));
    { float e[N]; CK("min", zcm::min(a, b), lt(m[k], l[k]) ? m[k] : l[k], false, txt()) CK("max", zcm::max(a, b), lt(l[k], m[k]) ? m[k] : l[k], false, txt()) CK("step(edge, x)", zcm::step(a, b), lt(m[k], l[k]) ? 0.f : 1.f, false, txt()) }
    { bool e[N]; CK("lessThan", zcm::lessThan(a, b), lt(l[k], m[k]), false, txt()) CK("lessThanEqual", zcm::lessThanEqual(a, b), le(l[k], m[k]), false, txt()) CK("greaterThan", zcm::greaterThan(a, b), lt(m[k], l[k]), false, txt()) CK("greaterThanEqual", zcm::greaterThanEqual(a, b), le(m[k], l[k]), false, txt())
      CK("equal", zcm::equal(a, b), eqf(l[k], m[k]), false, txt()) CK("notEqual", zcm::notEqual(a, b), !eqf(l[k], m[k]), false, txt()) }
    for (unsigned s = 0; s < 1u << N; s++) { float e[N]; bool t[N]; for (int k = 0; k < N; k++) { t[k] = s >> k & 1; e[k] = t[k] ? m[k] : l[k]; } V r = zcm::mix(a, b, mk<typename BV<V>::T>(t)); c.check(eqz(r, e), [&] { return fmt("%s mix(%s, %s) = %s", Tr<V>::name(), txt().c_str(), vs(t, N).c_str(), sh(r).c_str()); }); } }
// what clamp may return: only meaningful for lo <= hi and a numeric x
template<class V, class S> static void vclamp(const S* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V a = mk<V>(l), b = mk<V>(l + N), d = mk<V>(l + 2 * N); const S *lo = l + N, *hi = l + 2 * N; S e[N]; c.nt(fr && l[0] < lo[0] && lo[0] < hi[0]);
    CK("clamp", zcm::clamp(a, b, d), l[k] < lo[k] ? lo[k] : l[k] > hi[k] ? hi[k] : l[k], !(lo[k] <= hi[k]) || l[k] != l[k], vsx(l, N) + " to " + vsx(lo, N) + " .. " + vsx(hi, N)) }
template<class V> static void ivun(const int32_t* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V v = mk<V>(l); int32_t e[N]; c.nt(fr && l[0] < 0);
    CK("abs", zcm::abs(v), l[k] < 0 ? -l[k] : l[k], l[k] == INT_MIN, vs(l, N)) CK("sign", zcm::sign(v), (l[k] > 0) - (l[k] < 0), false, vs(l, N)) CK("signNotZero", zcm::signNotZero(v), l[k] < 0 ? -1 : 1, false, vs(l, N)) }
template<class V> static void ivbin(const int32_t* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V a = mk<V>(l), b = mk<V>(l + N); const int32_t* m = l + N; int32_t e[N]; c.nt(fr && l[0] < m[0]);
    CK("min", zcm::min(a, b), std::min(l[k], m[k]), false, vs(l, N) + ", " + vs(m, N)) CK("max", zcm::max(a, b), std::max(l[k], m[k]), false, vs(l, N) + ", " + vs(m, N)) }
template<class S, class F> static void space(const std::string& nm, int lanes, std::vector<S> small, std::vector<S> rich, F body) {
    std::vector<std::vector<S>> cx(3); for (int k = 0; k < lanes; k++) { cx[0].push_back(S(1 + k)); cx[1].push_back(S((k % 2 ? -1 : 1) * (43 - 3 * k))); cx[2].push_back(S(-30 + 7 * k)); }
    auto sp = std::make_shared<LaneSpace<S>>(lanes, small, rich, cx);
    mc::add(nm, sp->size(), [sp, body](u64 i, Ctx& c) { S l[16]; sp->decode(i, l); body(l, sp->fresh(i, l), c); });
}
template<class V> static void regV() { std::string n = Tr<V>::name(); enum { N = Tr<V>::n };
    lanesOf<V>("unary", {0.f, -0.f, 1.f, -2.f, NAN, INFINITY}, [](const V& v, const float* l, bool fr, Ctx& c) { vun<V>(v, l, fr, c); });
    space<float>(n + " binary", 2 * N, N < 4 ? std::vector<float>{0.f, 1.f, -2.f, NAN} : std::vector<float>{0.f, 1.f, NAN}, mc::richFloats(), [](const float* l, bool fr, Ctx& c) { vbin<V>(l, fr, c); });
    space<float>(n + " clamp", 3 * N, N == 2 ? std::vector<float>{-1.f, 0.f, 2.f} : std::vector<float>{-1.f, 2.f}, mc::richFloats(), [](const float* l, bool fr, Ctx& c) { vclamp<V, float>(l, fr, c); });
    // ordered bounds, with every lane of x anywhere relative to them
    std::vector<float> xs = {-INFINITY, -9.f, -5.f, -4.f, 0.f, 3.f, 4.f, INFINITY}; u64 cnt = 1; for (int k = 0; k < N; k++) cnt *= xs.size();
    mc::add(n + " clamp, ordered bounds", cnt, [xs](u64 i, Ctx& c) { float l[3 * N]; mc::Radix r(i); for (int k = 0; k < N; k++) { l[k] = xs[r.take(xs.size())]; l[N + k] = -5.f + k; l[2 * N + k] = k == 1 ? -4.f : 3.f + k; } vclamp<V, float>(l, true, c); });
}
template<class V> static void regI() { std::string n = Tr<V>::name(); enum { N = Tr<V>::n }; auto rich = mc::richInts();
    space<int32_t>(n + " unary", N, {0, 1, -1, INT_MIN, 7}, rich, [](const int32_t* l, bool fr, Ctx& c) { ivun<V>(l, fr, c); });
    space<int32_t>(n + " binary", 2 * N, {0, 1, -7}, rich, [](const int32_t* l, bool fr, Ctx& c) { ivbin<V>(l, fr, c); });
    space<int32_t>(n + " clamp", 3 * N, N == 2 ? std::vector<int32_t>{-1, 0, 2} : std::vector<int32_t>{-1, 2}, rich, [](const int32_t* l, bool fr, Ctx& c) { vclamp<V, int32_t>(l, fr, c); });
    std::vector<int32_t> xs = {INT_MIN, -9, -5, -4, 0, 3, 4, INT_MAX}; u64 cnt = 1; for (int k = 0; k < N; k++) cnt *= xs.size();
    mc::add(n + " clamp, ordered bounds", cnt, [xs](u64 i, Ctx& c) { int32_t l[3 * N]; mc::Radix r(i); for (int k = 0; k < N; k++) { l[k] = xs[r.take(xs.size())]; l[N + k] = -5 + k; l[2 * N + k] = k == 1 ? -4 : 3 + k; } vclamp<V, int32_t>(l, true, c); });
}
static std::vector<float> pairAlphabet() { std::vector<float> v = mc::richFloats(); int mb = mc::isThorough() ? 3 : 1; for (u64 i = 0; i < mc::gridSize(mb); i++) v.push_back(mc::gridAt(i, mb)); for (int k = -50; k <= 50; k++) v.push_back(k * 0.25f); return v; }
static std::vector<float> tripleAlphabet() { std::vector<float> v = mc::richFloats(); for (u64 i = 0; i < mc::gridSize(0); i += mc::isThorough() ? 5 : 17) v.push_back(mc::gridAt(i, 0)); mc::uniq(v); return v; }
static std::vector<int32_t> intAlphabet() { std::vector<int32_t> v = mc::richInts(); for (int k = 0; k < 31; k++) for (int d = -1; d <= 1; d++) { v.push_back(int32_t((1u << k) + d)); v.push_back(-int32_t((1u << k) + d)); } for (int k = -40; k < 40; k++) v.push_back(k); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
void registerFamilies() {
    gridFloat("scalar", 10, un);
    if (RELEASE || mc::isThorough()) {
        everyFloat("abs, sign, signNotZero, isnan, isinf:", 5, unBad, un);
        mc::add("int abs, sign, signNotZero: every int (index = 4096 values)", u64(1) << 20, [](u64 i, Ctx& c) { u64 nt = 0; for (u32 k = 0; k < 4096; k++) { int32_t x = int32_t(u32(i << 12) + k); nt += x < 0;
            if (__builtin_expect(!((x == INT_MIN || zcm::abs(int(x)) == (x < 0 ? -x : x)) & (zcm::sign(int(x)) == (x > 0) - (x < 0)) & (zcm::signNotZero(int(x)) == (x < 0 ? -1 : 1))), 0)) iun(x, c); } c.evals += 3 * 4096; c.nontrivial += nt; if (c.verbose) iun(-5, c); }, 64);
    }
    { auto A = std::make_shared<std::vector<int32_t>>(intAlphabet()); u64 n = A->size(); mc::add("int unary", n, [A](u64 i, Ctx& c) { iun((*A)[i], c); });
      mc::add("int min, max, clamp", n * n * n, [A, n](u64 i, Ctx& c) { mc::Radix r(i); int x = (*A)[r.take(n)], lo = (*A)[r.take(n)], hi = (*A)[r.take(n)];
        if (lo <= hi) { int g = zcm::clamp(x, lo, hi); c.nt(g != x); c.check(g == (x < lo ? lo : x > hi ? hi : x), [&] { return fmt("clamp(%d, %d, %d) = %d", x, lo, hi, g); }); }
        if (hi == 0) { int a = zcm::min(x, lo), b = zcm::max(x, lo); c.check(a == std::min(x, lo) && b == std::max(x, lo), [&] { return fmt("min/max(%d, %d) = %d/%d", x, lo, a, b); }); } }); }
    { auto A = std::make_shared<std::vector<float>>(pairAlphabet()); u64 n = A->size();
      mc::add("min, max, step, mix by bool", n * n, [A, n](u64 i, Ctx& c) { float x = (*A)[i % n], y = (*A)[i / n]; c.nt(lt(x, y));
        { float g = zcm::min(x, y); c.check(eq(g, lt(y, x) ? y : x), [&] { return fmt("min(%s, %s) = %s", fs(x).c_str(), fs(y).c_str(), fs(g).c_str()); }); }
        { float g = zcm::max(x, y); c.check(eq(g, lt(x, y) ? y : x), [&] { return fmt("max(%s, %s) = %s", fs(x).c_str(), fs(y).c_str(), fs(g).c_str()); }); }
        { float g = zcm::step(x, y); c.check(g == (lt(y, x) ? 0.f : 1.f), [&] { return fmt("step(edge %s, %s) = %s", fs(x).c_str(), fs(y).c_str(), fs(g).c_str()); }); }
        { float g = zcm::mix(x, y, true), h = zcm::mix(x, y, false); c.check(same(g, y) && same(h, x), [&] { return fmt("mix(%s, %s, true/false) = %s/%s", fs(x).c_str(), fs(y).c_str(), fs(g).c_str(), fs(h).c_str()); }); } }); }
    { auto A = std::make_shared<std::vector<float>>(tripleAlphabet()); u64 n = A->size();
      mc::add("clamp", n * n * n, [A, n](u64 i, Ctx& c) { mc::Radix r(i); float x = (*A)[r.take(n)], lo = (*A)[r.take(n)], hi = (*A)[r.take(n)]; if (rNan(x) || !(lo <= hi)) return;
        float g = zcm::clamp(x, lo, hi); c.nt(g != x); c.check(g == (lt(x, lo) ? lo : lt(hi, x) ? hi : x), [&] { return fmt("clamp(%s, %s, %s) = %s", fs(x).c_str(), fs(lo).c_str(), fs(hi).c_str(), fs(g).c_str()); }); }); }
    regV<vec2>(); regV<vec3>(); regV<vec4>(); regI<ivec2>(); regI<ivec3>(); regI<ivec4>();
    lanesOf<quat>("isnan, isinf", {0.f, 1.f, NAN, INFINITY, -INFINITY}, [](const quat& v, const float* l, bool fr, Ctx& c) { typedef quat V; enum { N = 4 }; bool e[N]; c.nt(fr && l[0] < 0); CK("isnan", zcm::isnan(v), rNan(l[k]), false, vsx(l, N)) CK("isinf", zcm::isinf(v), rInf(l[k]), false, vsx(l, N)) });
    space<float>("quat equal, notEqual", 8, {0.f, 1.f, -2.f}, mc::richFloats(), [](const float* l, bool fr, Ctx& c) { typedef quat V; enum { N = 4 }; V a = mk<V>(l), b = mk<V>(l + 4); bool e[N]; const float* m = l + 4; c.nt(fr && l[0] != m[0]); CK("equal", zcm::equal(a, b), eqf(l[k], m[k]), false, vsx(l, 4) + ", " + vsx(m, 4)) CK("notEqual", zcm::notEqual(a, b), !eqf(l[k], m[k]), false, vsx(l, 4) + ", " + vsx(m, 4)) });
    mc::add("bvec equal, notEqual", 256, [](u64 i, Ctx& c) { typedef bvec4 V; enum { N = 4 }; bool l[4], m[4], e[4]; for (int k = 0; k < 4; k++) { l[k] = i >> k & 1; m[k] = i >> (k + 4) & 1; } c.nt(true); auto txt = [&] { return vs(l, 4) + ", " + vs(m, 4); };
        { bvec4 a = mk<bvec4>(l), b = mk<bvec4>(m); CK("equal", zcm::equal(a, b), l[k] == m[k], false, txt()) CK("notEqual", zcm::notEqual(a, b), l[k] != m[k], false, txt()) }
        { typedef bvec3 V; enum { N = 3 }; V a = mk<V>(l), b = mk<V>(m); CK("equal", zcm::equal(a, b), l[k] == m[k], false, txt()) CK("notEqual", zcm::notEqual(a, b), l[k] != m[k], false, txt()) }
        { typedef bvec2 V; enum { N = 2 }; V a = mk<V>(l), b = mk<V>(m); CK("equal", zcm::equal(a, b), l[k] == m[k], false, txt()) CK("notEqual", zcm::notEqual(a, b), l[k] != m[k], false, txt()) } });
}
