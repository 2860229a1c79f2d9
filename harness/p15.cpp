// dot, cross, length, distance, normalize against double precision with rounding-error bounds; exact on
// small dyadic operands, and exact Pythagorean lengths.
#include "zall.hpp"
using namespace zcm;
static const double E = 5.9604644775390625e-8;
template<class V> struct T0 { enum { N = Tr<V>::n }; static V mkv(const float* l) { return mk<V>(l); } }; template<> struct T0<float> { enum { N = 1 }; static float mkv(const float* l) { return *l; } };
static bool dy(const float* l, int n) { for (int k = 0; k < n; k++) if (!(std::fabs(l[k]) <= 64) || l[k] * 8 != std::floor(l[k] * 8)) return false; return true; }
static bool numeric(const float* l, int n) { for (int k = 0; k < n; k++) if (!mc::finite(l[k]) || std::fabs(l[k]) > 4e18 || (l[k] != 0 && std::fabs(l[k]) < 3e-18f)) return false; return true; }
template<int N> static std::string two(const float* l) { return (N == 1 ? fs(l[0]) : vsx(l, N)) + ", " + (N == 1 ? fs(l[N]) : vsx(l + N, N)); }
#define NEAR(NAME, G, REF, TOL, EXACT, TXT) { float g_ = G; double r_ = REF; c.check(EXACT ? double(g_) == r_ : std::fabs(g_ - r_) <= (TOL), [&] { return fmt(NAME "(%s) = %s, expected %.9g (within %.3g)", (TXT).c_str(), fs(g_).c_str(), r_, EXACT ? 0.0 : (TOL)); }); }
template<class V> struct Dist { template<int N> static void run(const V& a, const V& b, const float* l, double d2, double s2, bool ex, Ctx& c) {
    NEAR("distance2", zcm::distance2(a, b), d2, (N + 4) * E * (d2 + 4e-16 * 0) + 4 * E * std::sqrt(d2) * s2, ex, two<N>(l)) double d = std::sqrt(d2), f = std::floor(d + 0.5); bool px = ex && f * f == d2; NEAR("distance", zcm::distance(a, b), d, (N + 4) * E * d + 4 * E * s2, px, two<N>(l)) } };
template<> struct Dist<quat> { template<int N> static void run(const quat&, const quat&, const float*, double, double, bool, Ctx&) {} };
template<class V> static void pairs(const float* l, bool fr, Ctx& c) { enum { N = T0<V>::N }; if (!numeric(l, 2 * N)) return; V a = T0<V>::mkv(l), b = T0<V>::mkv(l + N); const float* m = l + N; bool ex = dy(l, 2 * N);
    double d = 0, t = 0, d2 = 0, s2 = 0; bool tinyDiff = false; for (int k = 0; k < N; k++) { double p = double(l[k]) * m[k], q = double(l[k]) - m[k]; d += p; t += std::fabs(p); d2 += q * q; s2 += std::fabs(double(l[k])) + std::fabs(double(m[k])); if (q != 0 && std::fabs(q) < 1e-18) tinyDiff = true; }
    c.nt(fr && d != 0); NEAR("dot", zcm::dot(a, b), d, (N + 2) * E * t + 1e-38, ex, two<N>(l)) (void)tinyDiff;
    // component differences are rounded relative to themselves (Sterbenz and below): s2 only enters as slack
    Dist<V>::template run<N>(a, b, l, d2, 0 * s2 + (tinyDiff ? 1e-17 : 0), ex, c); }
template<class V> struct Norm { template<int N> static void run(const V& a, const float* l, double len, Ctx& c) { float p[N]; V n = zcm::normalize(a); rd(n, p); bool ok = true; double s = 0; for (int k = 0; k < N; k++) { double r = l[k] / len; ok = ok && std::fabs(p[k] - r) <= 10 * E * std::fabs(r) + 1e-38; s += double(p[k]) * p[k]; }
    ok = ok && std::fabs(s - 1) <= 16 * E; c.check(ok, [&] { std::string e; for (int k = 0; k < N; k++) e += fmt("%s%.9g", k ? ", " : "", l[k] / len); return fmt("normalize(%s %s) = %s (length^2 %.9g), expected (%s)", Tr<V>::name(), vsx(l, N).c_str(), vs(p, N).c_str(), s, e.c_str()); }); } };
template<> struct Norm<float> { template<int N> static void run(float, const float*, double, Ctx&) {} };
template<class V> static void single(const float* l, bool fr, Ctx& c) { enum { N = T0<V>::N }; if (!numeric(l, N)) return; V a = T0<V>::mkv(l); double s = 0; for (int k = 0; k < N; k++) s += double(l[k]) * l[k]; double len = std::sqrt(s), f = std::floor(len + 0.5); bool ex = dy(l, N), px = ex && f * f == s; c.nt(fr && s != 0);
    auto one = [&] { return N == 1 ? fs(l[0]) : vsx(l, N); };
    NEAR("length2", zcm::length2(a), s, (N + 2) * E * s + 1e-38, ex, one()) NEAR("length", zcm::length(a), len, (N + 3) * E * len + 1e-38, px, one()) if (s > 0) Norm<V>::template run<N>(a, l, len, c); }
static void crossp(const float* l, bool fr, Ctx& c) { if (!numeric(l, 6)) return; const float *a = l, *b = l + 3; float p[3]; rd(zcm::cross(mk<vec3>(a), mk<vec3>(b)), p); bool ex = dy(l, 6), ok = true; double r[3]; for (int k = 0; k < 3; k++) { int i = (k + 1) % 3, j = (k + 2) % 3; double x = double(a[i]) * b[j], y = double(a[j]) * b[i]; r[k] = x - y; ok = ok && (ex ? double(p[k]) == r[k] : std::fabs(p[k] - r[k]) <= 3 * E * (std::fabs(x) + std::fabs(y)) + 1e-38); } c.nt(fr && r[0] != 0);
    c.check(ok, [&] { return fmt("cross(%s) = %s, expected (%.9g, %.9g, %.9g)", two<3>(l).c_str(), vsx(p, 3).c_str(), r[0], r[1], r[2]); });
    float q[3], da = zcm::dot(mk<vec3>(p), mk<vec3>(a)), db = zcm::dot(mk<vec3>(p), mk<vec3>(b)); rd(zcm::cross(mk<vec3>(b), mk<vec3>(a)), q); if (ex) c.check(q[0] == -p[0] && q[1] == -p[1] && q[2] == -p[2] && da == 0 && db == 0, [&] { return fmt("cross(%s) = %s: swapped operands give %s, products with the operands %s, %s", two<3>(l).c_str(), vs(p, 3).c_str(), vs(q, 3).c_str(), fs(da).c_str(), fs(db).c_str()); }); }
static std::vector<float> alpha() { std::vector<float> o = mc::finiteOnly(mc::richFloats(), 4e18, 3e-18); return o; }
template<class F> static void space(const std::string& nm, int lanes, std::vector<float> small, F body) { std::vector<std::vector<float>> cx(3); for (int k = 0; k < lanes; k++) { cx[0].push_back(1.5f + k); cx[1].push_back((k % 2 ? -1 : 1) * (0.93f - 0.17f * k)); cx[2].push_back((k % 3 ? 1 : -1) * (43.7f - 3.1f * k)); }
    auto sp = std::make_shared<LaneSpace<float>>(lanes, small, alpha(), cx); mc::add(nm, sp->size(), [sp, body](u64 i, Ctx& c) { float l[8]; sp->decode(i, l); body(l, sp->fresh(i, l), c); }); }
static std::vector<float> ints(int k) { std::vector<float> v; for (int i = -k; i <= k; i++) v.push_back(i); return v; }
// unit directions scaled to lengths next to one (and next to a few other exact lengths)
template<class V> static void nearUnit(int k) { enum { N = Tr<V>::n }; auto D = std::make_shared<std::vector<std::vector<float>>>(); u64 c = 1; for (int i = 0; i < N; i++) c *= 2 * k + 1; for (u64 i = 0; i < c; i++) { mc::Radix r(i); double s = 0; int t[N]; for (int j = 0; j < N; j++) { t[j] = (int)r.take(2 * k + 1) - k; s += t[j] * t[j]; } if (s == 0) continue; for (double m : {1., 2., 0.5, 5., 1000.}) for (double d : mc::deltas()) { std::vector<float> v(N); for (int j = 0; j < N; j++) v[j] = float(t[j] / std::sqrt(s) * m * (1 + d)); D->push_back(v); } }
    mc::add(std::string(Tr<V>::name()) + " of nearly exact length", D->size(), [D](u64 i, Ctx& c) { single<V>((*D)[i].data(), true, c); float l[2 * N]; for (int k = 0; k < N; k++) { l[k] = (*D)[i][k]; l[N + k] = (*D)[i ^ 1][k]; } pairs<V>(l, true, c); for (int k = 0; k < N; k++) { float f = l[k]; l[k] = l[N + k] + (k == 1 ? 1 : -2); l[N + k] += f; } pairs<V>(l, true, c); }); }
void registerFamilies() {
    nearUnit<vec2>(5); nearUnit<vec3>(2); nearUnit<vec4>(2); nearUnit<quat>(2);
    int t = mc::isThorough();
    space("scalars", 1, ints(60), single<float>); space("scalar pairs", 2, ints(40), pairs<float>);
    space("vec2", 2, ints(120), single<vec2>); space("vec2 pairs", 4, ints(8 + 4 * t), pairs<vec2>); space("vec3", 3, ints(32), single<vec3>); space("vec3 pairs", 6, ints(4 + t), pairs<vec3>); space("vec4", 4, ints(13), single<vec4>); space("vec4 pairs", 8, ints(2 + t), pairs<vec4>);
    space("quat", 4, ints(13), single<quat>); space("quat pairs", 8, ints(2 + t), pairs<quat>); space("cross", 6, ints(4 + t), crossp);
    std::vector<float> fr = {0.1f, -0.7f, 1.3e9f, 2.5e-9f, -3.14159f, 0.f}; space("vec4 mixed magnitudes", 4, fr, single<vec4>); space("quat mixed magnitudes", 4, fr, single<quat>); space("vec3 pairs mixed magnitudes", 6, fr, pairs<vec3>); space("cross mixed magnitudes", 6, fr, crossp); std::vector<float> f4(fr.begin(), fr.begin() + 4); space("vec4 pairs mixed magnitudes", 8, f4, pairs<vec4>);
}
