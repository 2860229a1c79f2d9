// Vector and quaternion overloads: lane k of the result is the scalar function of lane k of the operands.
#include "zall.hpp"
using namespace zcm;
template<class A> static bool eqz(const A& v, const typename Tr<A>::S* e) { typename Tr<A>::S p[Tr<A>::n]; rd(v, p); for (int i = 0; i < Tr<A>::n; i++) if (!(p[i] == e[i] || (p[i] != p[i] && e[i] != e[i]))) return false; return true; }
template<class V> struct BV; template<> struct BV<vec2> { typedef bvec2 T; }; template<> struct BV<vec3> { typedef bvec3 T; }; template<> struct BV<vec4> { typedef bvec4 T; }; template<> struct BV<quat> { typedef bvec4 T; };
template<class S> static std::vector<S> smallA(int n); // n = number of lanes
template<> std::vector<float> smallA<float>(int n) { std::vector<float> v = {0.5f, -2.f}; if (n <= 8) v.push_back(0.f); if (n <= 6) { v.push_back(NAN); v.push_back(3.25f); } if (n <= 4) { v.push_back(INFINITY); v.push_back(-0.75f); v.push_back(1.f); v.push_back(100.f); } return v; }
template<> std::vector<int32_t> smallA<int32_t>(int n) { std::vector<int32_t> v = {1, -2}; if (n <= 8) v.push_back(0); if (n <= 6) { v.push_back(INT_MAX); v.push_back(7); } if (n <= 4) { v.push_back(-INT_MAX); v.push_back(100); } return v; }
template<class S> static std::vector<S> richA(); template<> std::vector<float> richA<float>() { return mc::richFloats(); }
template<> std::vector<int32_t> richA<int32_t>() { std::vector<int32_t> o; for (int32_t x : mc::richInts()) if (x != INT_MIN) o.push_back(x); return o; }
// at most n values, the literals of the sources always among them
static std::vector<float> lim(std::vector<float> v, size_t n) { if (v.size() <= n || mc::isThorough()) return v; std::vector<float> d = mc::dictFloats(), o; for (float f : v) if (o.size() + d.size() < n) o.push_back(f); for (float f : d) o.push_back(f); mc::uniq(o); return o; }
// contexts in which no two lanes hold the same value
template<class S> static std::vector<std::vector<S>> ctxs(int n) { std::vector<std::vector<S>> c(2); for (int i = 0; i < n; i++) { c[0].push_back(S(1 + i)); c[1].push_back(S((i % 2 ? -1 : 1) * (43 - 3 * i))); }
    if (!std::is_integral<S>::value) { c.push_back({}); for (int i = 0; i < n; i++) c[2].push_back(S((i % 3 == 1 ? -1 : 1) * (0.07 + 0.06 * i))); } return c; }
#define SHOW(FN, V, ARGS) [&] { return fmt("%s %s" FN "%s: got %s, lanes of the scalar function are %s", Tr<V>::name(), "", (ARGS).c_str(), sh(r).c_str(), vs(e, N).c_str()); }
#define U(FN) { for (int k = 0; k < N; k++) e[k] = zcm::FN(l[k]); V r = zcm::FN(a); c.check(eqz(r, e), SHOW(#FN, V, vsx(l, N))); c.nt(fr && e[0] == e[0] && e[0] != l[0]); }
#define UNARY_BOTH U(exp) U(exp2) U(inversesqrt) U(log) U(log2) U(sqrt) U(cbrt)
template<class V> static void unaryF(u64, const float* l, bool fr, Ctx& c) {
    enum { N = Tr<V>::n }; float e[N]; V a = mk<V>(l);
    U(abs) U(ceil) U(floor) U(fract) U(round) U(roundEven) U(sign) U(signNotZero) U(trunc) UNARY_BOTH
    U(cos) U(sin) U(acos) U(acosh) U(asin) U(asinh) U(atan) U(atanh) U(cosh) U(degrees) U(radians) U(sinh) U(tan) U(tanh)
}
template<class V> static void unaryQ(u64, const float* l, bool fr, Ctx& c) { enum { N = 4 }; float e[4]; V a = mk<V>(l); UNARY_BOTH
    for (float y : {2.f, 0.5f, -1.f, 0.f, 3.f, -0.25f, 10.f}) { for (int k = 0; k < N; k++) e[k] = zcm::pow(l[k], y); quat r = zcm::pow(a, y); c.check(eqz(r, e), SHOW("pow by scalar", V, vsx(l, N) + " ^ " + fs(y))); c.nt(fr && e[0] == e[0]); } }
template<class V> static void preds(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; typedef typename BV<V>::T B; bool e[N]; V a = mk<V>(l);
#define P1(FN) { for (int k = 0; k < N; k++) e[k] = zcm::FN(l[k]); B r = zcm::FN(a); c.check(eqz(r, e), SHOW(#FN, V, vsx(l, N))); c.nt(fr && e[0]); }
    P1(isnan) P1(isinf) }
template<class V> static void relQ(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; typedef typename BV<V>::T B; bool e[N]; V a = mk<V>(l), b = mk<V>(l + N);
#define P2(FN, OP) { for (int k = 0; k < N; k++) e[k] = l[k] OP l[N + k]; B r = zcm::FN(a, b); c.check(eqz(r, e), SHOW(#FN, V, vsx(l, N) + " , " + vsx(l + N, N))); c.nt(fr && l[0] != l[N]); }
    P2(equal, ==) P2(notEqual, !=) }
template<class V> static void binaryF(const float* l, bool fr, Ctx& c) {
    enum { N = Tr<V>::n }; float e[N]; V a = mk<V>(l), b = mk<V>(l + N);
#define B2(FN) { for (int k = 0; k < N; k++) e[k] = zcm::FN(l[k], l[N + k]); V r = zcm::FN(a, b); c.check(eqz(r, e), SHOW(#FN, V, vsx(l, N) + " , " + vsx(l + N, N))); c.nt(fr && e[0] == e[0] && e[0] != l[0]); }
    B2(max) B2(min) B2(mod) B2(step) B2(pow) B2(atan)
    { typedef V W; typedef typename BV<V>::T B; bool e[N]; typedef W V2; (void)sizeof(V2); P2(lessThan, <) P2(lessThanEqual, <=) P2(greaterThan, >) P2(greaterThanEqual, >=) }
    relQ<V>(l, fr, c);
}
template<class V> static void vecScalar(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; float e[N]; V a = mk<V>(l); float s = l[N];
    { for (int k = 0; k < N; k++) e[k] = zcm::mod(l[k], s); V r = zcm::mod(a, s); c.check(eqz(r, e), SHOW("mod by scalar", V, vsx(l, N) + " , " + fs(s))); c.nt(fr && e[0] == e[0] && e[0] != l[0]); } }
template<class V> static void ternF(const float* l, bool fr, Ctx& c) {
    enum { N = Tr<V>::n }; float e[N]; V a = mk<V>(l), b = mk<V>(l + N), d = mk<V>(l + 2 * N);
#define T3(FN) { for (int k = 0; k < N; k++) e[k] = zcm::FN(l[k], l[N + k], l[2 * N + k]); V r = zcm::FN(a, b, d); c.check(eqz(r, e), SHOW(#FN, V, vsx(l, N) + " , " + vsx(l + N, N) + " , " + vsx(l + 2 * N, N))); c.nt(fr && e[0] == e[0] && e[0] != l[0]); }
    T3(clamp) T3(fma) T3(mix) T3(smoothstep)
}
template<class V> static void mixS(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; float e[N]; V a = mk<V>(l), b = mk<V>(l + N); float t = l[2 * N];
    for (int k = 0; k < N; k++) e[k] = zcm::mix(l[k], l[N + k], t); V r = zcm::mix(a, b, t); c.check(eqz(r, e), SHOW("mix by scalar", V, vsx(l, N) + " , " + vsx(l + N, N) + " , " + fs(t))); c.nt(fr && e[0] == e[0] && e[0] != l[0]); }
template<class V> static void mixB(const float* l, unsigned m, bool fr, Ctx& c) { enum { N = Tr<V>::n }; float e[N]; bool t[N]; V a = mk<V>(l), b = mk<V>(l + N); 
    for (int k = 0; k < N; k++) { t[k] = m >> k & 1; e[k] = zcm::mix(l[k], l[N + k], t[k]); } V r = zcm::mix(a, b, mk<typename BV<V>::T>(t)); c.check(eqz(r, e), SHOW("mix by booleans", V, vsx(l, N) + " , " + vsx(l + N, N) + " , " + vs(t, N))); c.nt(fr && m && !same(l[0], l[N])); }
template<class F> static void space(const std::string& name, int lanes, size_t richLimit, F body) {
    auto sp = std::make_shared<LaneSpace<float>>(lanes, smallA<float>(lanes), lim(richA<float>(), richLimit), ctxs<float>(lanes));
    mc::add(name, sp->size(), [sp, body, lanes](u64 i, Ctx& c) { float l[16]; sp->decode(i, l); body(l, sp->fresh(i, l), c); });
}
template<class F> static void ispace(const std::string& name, int lanes, F body) {
    auto sp = std::make_shared<LaneSpace<int32_t>>(lanes, smallA<int32_t>(lanes), richA<int32_t>(), ctxs<int32_t>(lanes));
    mc::add(name, sp->size(), [sp, body, lanes](u64 i, Ctx& c) { int32_t l[16]; sp->decode(i, l); body(l, sp->fresh(i, l), c); });
}
template<class V> static void regF() {
    enum { N = Tr<V>::n }; std::string n = Tr<V>::name();
    space(n + " unary", N, 400, [](const float* l, bool fr, Ctx& c) { unaryF<V>(0, l, fr, c); preds<V>(l, fr, c); });
    space(n + " unary, every literal and special", N, 400, [](const float* l, bool fr, Ctx& c) { preds<V>(l, fr, c); });
    space(n + " binary", 2 * N, 60, [](const float* l, bool fr, Ctx& c) { binaryF<V>(l, fr, c); });
    space(n + " mod by scalar", N + 1, 400, [](const float* l, bool fr, Ctx& c) { vecScalar<V>(l, fr, c); });
    space(n + " ternary", 3 * N, 60, [](const float* l, bool fr, Ctx& c) { ternF<V>(l, fr, c); });
    space(n + " mix by scalar", 2 * N + 1, 80, [](const float* l, bool fr, Ctx& c) { mixS<V>(l, fr, c); });
    auto sp = std::make_shared<LaneSpace<float>>(2 * N, smallA<float>(2 * N), std::vector<float>{NAN, INFINITY, -0.f, 5, FLT_MAX, 1e-40f}, ctxs<float>(2 * N));
    mc::add(n + " mix by booleans", sp->size() << N, [sp](u64 i, Ctx& c) { float l[8]; sp->decode(i >> N, l); mixB<V>(l, i & ((1u << N) - 1), sp->fresh(i >> N, l), c); });
}
template<class V> static void regI() {
    enum { N = Tr<V>::n }; std::string n = Tr<V>::name();
    ispace(n + " unary", N, [](const int32_t* l, bool fr, Ctx& c) { int32_t e[N]; V a = mk<V>(l); U(abs) U(sign) U(signNotZero) });
    ispace(n + " binary", 2 * N, [](const int32_t* l, bool fr, Ctx& c) { int32_t e[N]; V a = mk<V>(l), b = mk<V>(l + N); B2(max) B2(min) });
    ispace(n + " clamp", 3 * N, [](const int32_t* l, bool fr, Ctx& c) { int32_t e[N]; V a = mk<V>(l), b = mk<V>(l + N), d = mk<V>(l + 2 * N); T3(clamp) });
}
void registerFamilies() {
    regF<vec2>(); regF<vec3>(); regF<vec4>(); regI<ivec2>(); regI<ivec3>(); regI<ivec4>();
    space("quat unary", 4, 400, [](const float* l, bool fr, Ctx& c) { unaryQ<quat>(0, l, fr, c); });
    space("quat isnan, isinf", 4, 400, [](const float* l, bool fr, Ctx& c) { preds<quat>(l, fr, c); });
    space("quat equal, notEqual", 8, 100, [](const float* l, bool fr, Ctx& c) { relQ<quat>(l, fr, c); });
}
