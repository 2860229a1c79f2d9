// mod, fract, mix, smoothstep, fma: double-precision evaluation of the GLSL definition, with an error
// allowance of a few single-precision roundings of the terms.
#include "scal.hpp"
using namespace zcm;
static const double E = 5.9604644775390625e-8;   // 2^-24, half an ulp of 1
static const double TINY = 1e-44;
struct Want { double v, tol; bool defined; double alt; };
static inline bool meets(float g, const Want& w) { return !w.defined || (g == g && (std::fabs(double(g) - w.v) <= w.tol || std::fabs(double(g) - w.alt) <= w.tol)); }
static Want mk_(double v, double tol) { return {v, tol + TINY, true, v}; }
static Want none() { return {0, 0, false, 0}; }
static Want wMod(float x, float y) {
    if (!mc::finite(x) || !mc::finite(y) || y == 0) return none();
    double q = double(x) / y; if (std::fabs(q) > 3e38 || (q != 0 && std::fabs(q) < 1e-37)) return none();
    double k = std::floor(q), k2 = std::floor(q + std::fabs(q) * 2 * E), k3 = std::floor(q - std::fabs(q) * 2 * E);   // x/y is rounded before floor
    if (std::fabs(double(y) * k) > 3e38 || std::fabs(x) > 3e38) return none();
    double big = std::fabs(k) >= 16777216.0 ? 4 * E * std::fabs(double(y) * k) : 0;
    Want w = mk_(double(x) - double(y) * k, 3 * E * (std::fabs(x) + std::fabs(double(y) * k)) + big + 1e-38 * (std::fabs(double(y) * k) < 1e-30));
    double a = k2 != k ? k2 : k3; w.alt = double(x) - double(y) * a;
    if (std::fabs(x) <= 1024 && std::fabs(y) <= 1024 && x * 16 == std::floor(x * 16) && y * 16 == std::floor(y * 16)) { w.tol = 0; w.alt = w.v; }   // everything exact
    return w;
}
static Want wFract(float x) { if (!mc::finite(x)) return none(); double v = double(x) - std::floor(double(x)); return mk_(v, 1.001 * E * v); }
static bool dy(float x) { return std::fabs(x) <= 256 && x * 16 == std::floor(x * 16); }
static Want wMix(float x, float y, float t) {
    if (!mc::finite(x) || !mc::finite(y) || !mc::finite(t)) return none();
    double X = x, Y = y, T = t, m = (std::fabs(X) + std::fabs(Y)) * (1 + std::fabs(T)); if (m > 1.5e38) return none();
    if (dy(x) && dy(y) && dy(t)) return {X * (1 - T) + Y * T, 0, true, X * (1 - T) + Y * T};
    return mk_(X * (1 - T) + Y * T, 6 * E * m);
}
static Want wSmooth(float e0, float e1, float x) {
    if (!mc::finite(e0) || !mc::finite(e1) || x != x || !(e0 < e1)) return none();
    if (std::fabs(double(e1) - e0) > 3e38) return none();
    if (x <= e0) return {0, 0, true, 0}; if (x >= e1) return {1, 0, true, 1};
    if (double(e1) - e0 < 1e-36) return none();
    double t = (double(x) - e0) / (double(e1) - e0); double v = t * t * (3 - 2 * t); return mk_(v, 24 * E * v + 1e-37);
}
static Want wFma(float a, float b, float c) {
    if (!mc::finite(a) || !mc::finite(b) || !mc::finite(c)) return none();
    double p = double(a) * b; if (std::fabs(p) > 1.5e38 || std::fabs(c) > 1.5e38) return none();
    Want w = mk_(p + c, 3 * E * (std::fabs(p) + std::fabs(double(c))));
    if (std::fabs(p) < 1e-30) w.tol += 2e-45;
    return w;
}
#define REPORT(TXT, G, W) [&] { return fmt("%s = %s, expected %.9g (within %.3g)", (TXT).c_str(), fs(G).c_str(), (W).v, (W).tol); }
#define S2(FN, W, X, Y) { Want w = W(X, Y); float g = zcm::FN(X, Y); c.nt(w.defined && w.v != X); c.check(meets(g, w), REPORT(fmt(#FN "(%s, %s)", fs(X).c_str(), fs(Y).c_str()), g, w)); }
#define S3(FN, W, X, Y, Z) { Want w = W(X, Y, Z); float g = zcm::FN(X, Y, Z); c.nt(w.defined && w.v != X); c.check(meets(g, w), REPORT(fmt(#FN "(%s, %s, %s)", fs(X).c_str(), fs(Y).c_str(), fs(Z).c_str()), g, w)); }
template<class V, class W> static void lanes(const V& r, W want, const char* what, const float* l, int used, bool fr, Ctx& c) { enum { N = Tr<V>::n }; float p[N]; rd(r, p); bool first = true;
    for (int k = 0; k < N; k++) { Want w = want(k); if (first) { c.nt(fr && w.defined && w.v != l[0]); first = false; } c.check(meets(p[k], w), [&] { return fmt("%s %s of operands %s: component %d is %s, expected %.9g (within %.3g)", Tr<V>::name(), what, vsx(l, used).c_str(), k, fs(p[k]).c_str(), w.v, w.tol); }); } }
template<class V> static void all(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V a = mk<V>(l), b = mk<V>(l + N), d = mk<V>(l + 2 * N); const float *m = l + N, *o = l + 2 * N;
    lanes(zcm::mix(a, b, d), [&](int k) { return wMix(l[k], m[k], o[k]); }, "mix(x, y, vector)", l, 3 * N, fr, c);
    lanes(zcm::smoothstep(a, b, d), [&](int k) { return wSmooth(l[k], m[k], o[k]); }, "smoothstep", l, 3 * N, fr, c);
    lanes(zcm::fma(a, b, d), [&](int k) { return wFma(l[k], m[k], o[k]); }, "fma", l, 3 * N, fr, c); }
template<class V> static void two(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V a = mk<V>(l), b = mk<V>(l + N); const float* m = l + N; float s = l[2 * N];
    lanes(zcm::mod(a, b), [&](int k) { return wMod(l[k], m[k]); }, "mod(x, y)", l, 2 * N, fr, c);
    lanes(zcm::mod(a, s), [&](int k) { return wMod(l[k], s); }, "mod(x, scalar last)", l, 2 * N + 1, fr, c);
    lanes(zcm::mix(a, b, s), [&](int k) { return wMix(l[k], m[k], s); }, "mix(x, y, scalar)", l, 2 * N + 1, fr, c);
    lanes(zcm::fract(a), [&](int k) { return wFract(l[k]); }, "fract", l, N, fr, c); }
template<class F> static void space(const std::string& nm, int lanes, std::vector<float> small, F body, bool unit) {
    std::vector<std::vector<float>> cx(3); for (int k = 0; k < lanes; k++) { cx[0].push_back(1.5f + k); cx[1].push_back((k % 2 ? -1 : 1) * (43.25f - 3 * k)); cx[2].push_back(0.1f + 0.07f * k); } (void)unit;
    auto sp = std::make_shared<LaneSpace<float>>(lanes, small, mc::finiteOnly(mc::richFloats()), cx);
    mc::add(nm, sp->size(), [sp, body](u64 i, Ctx& c) { float l[16]; sp->decode(i, l); body(l, sp->fresh(i, l), c); });
}
template<class V> static void regV() { enum { N = Tr<V>::n }; std::string n = Tr<V>::name();
    space(n + " mix, smoothstep, fma", 3 * N, N == 2 ? std::vector<float>{0.f, 1.f, -2.f, 0.25f, 3.f} : N == 3 ? std::vector<float>{0.f, 1.f, -2.f} : std::vector<float>{0.25f, 1.f}, all<V>, false);
    space(n + " mod, fract, mix by scalar", 2 * N + 1, N == 2 ? std::vector<float>{1.f, -2.5f, 0.25f, 3.f, 0.f} : std::vector<float>{1.f, -2.5f, 0.25f}, two<V>, false);
    // smoothstep with ordered edges in every lane and x below, at, between, at and above
    std::vector<float> at = {-9.f, 0.f, 0.25f, 0.5f, 0.75f, 1.f, 9.f}; u64 cnt = 1; for (int k = 0; k < N; k++) cnt *= at.size();
    mc::add(n + " smoothstep, ordered edges", cnt, [at](u64 i, Ctx& c) { float l[3 * N]; mc::Radix r(i); for (int k = 0; k < N; k++) { l[k] = -1.f - k; l[N + k] = 3.f + 2 * k; l[2 * N + k] = l[k] + (l[N + k] - l[k]) * at[r.take(at.size())]; } all<V>(l, true, c); });
}
// edges as near and as far from each other as floats allow, x on, between and beyond them
static const float (*edgeCases())[2] { static const float e[][2] = {{0, 1e-39f}, {0, 1}, {-1e-39f, 2e-39f}, {0, 1e-45f}, {1.1754944e-38f, 1.2e-38f}, {5, 5.0000005f}, {0, 1e-20f}, {-1e20f, 1e20f}, {0, 3e38f}, {-1e38f, 1e38f}, {-7, -6.9999995f}, {-1e30f, 1e-30f}}; return e; }
static void edgeAt(u64 i, float* l) { const float* e = edgeCases()[i % 12]; l[0] = e[0]; l[1] = e[1]; switch (i / 12 % 7) { case 0: l[2] = e[0]; break; case 1: l[2] = e[1]; break; case 2: l[2] = float(e[0] + (double(e[1]) - e[0]) / 2); break; case 3: l[2] = float(e[0] + (double(e[1]) - e[0]) * 0.8); break; case 4: l[2] = std::nextafter(e[0], -INFINITY); break; case 5: l[2] = std::nextafter(e[1], INFINITY); break; default: l[2] = float(e[0] + (double(e[1]) - e[0]) / 64); } }
template<class V> static void regEdges() { enum { N = Tr<V>::n }; mc::add(std::string(Tr<V>::name()) + " smoothstep, near and far edges", 84 * 84 * N, [](u64 i, Ctx& c) { mc::Radix r(i); int at = (int)r.take(N); u64 a = r.take(84), b = r.take(84); float l[3 * N], s[3]; for (int k = 0; k < N; k++) { edgeAt(k == at ? a : k == (at + 1) % N ? b : b / 7 + k, s); for (int j = 0; j < 3; j++) l[j * N + k] = s[j]; } V x = mk<V>(l), y = mk<V>(l + N), z = mk<V>(l + 2 * N); lanes(zcm::smoothstep(x, y, z), [&](int k) { return wSmooth(l[k], l[N + k], l[2 * N + k]); }, "smoothstep", l, 3 * N, true, c); }); }
static std::vector<float> tri() { std::vector<float> v = mc::finiteOnly(mc::richFloats()); for (int k = -20; k <= 20; k++) v.push_back(k * 0.125f); for (u64 i = 0; i < mc::gridSize(0); i += mc::isThorough() ? 7 : 41) if (mc::finite(mc::gridAt(i, 0))) v.push_back(mc::gridAt(i, 0)); mc::uniq(v); return v; }
static std::vector<float> pair() { std::vector<float> v = mc::finiteOnly(mc::richFloats()); for (int k = -80; k <= 80; k++) v.push_back(k * 0.0625f); for (u64 i = 0; i < mc::gridSize(mc::isThorough() ? 2 : 0); i++) if (mc::finite(mc::gridAt(i, mc::isThorough() ? 2 : 0))) v.push_back(mc::gridAt(i, mc::isThorough() ? 2 : 0)); mc::uniq(v); return v; }
static void fr1(float x, Ctx& c) { Want w = wFract(x); float g = zcm::fract(x); c.nt(w.defined && w.v != x); c.check(meets(g, w) && (!w.defined || (g >= 0 && g <= 1)), REPORT(fmt("fract(%s)", fs(x).c_str()), g, w)); }
static inline bool frBad(float x, bool& nt) { if (!mc::finite(x)) return false; float g = zcm::fract(x); if (std::fabs(x) >= 8388608.f) return g != 0; int n = int(x); float t = float(n); if (x < t) t -= 1.f; float r = x - t; nt = r != x; return !(g == r || std::fabs(g - r) <= 1.2e-7f * r); }
static void ss1(float x, Ctx& c) { if (!(x >= 0 && x <= 1)) return; Want w = wSmooth(0, 1, x); float g = zcm::smoothstep(0.f, 1.f, x); c.nt(w.v != x); c.check(meets(g, w) && g >= 0 && g <= 1, REPORT(fmt("smoothstep(0, 1, %s)", fs(x).c_str()), g, w));
    float b = zcm::smoothstep(0.f, 1.f, mc::fromBits(mc::bits(x) + 1)); c.check(x == 1 || b >= g - 3e-7f * g, [&] { return fmt("smoothstep(0, 1, .) falls from %s to %s after %s", fs(g).c_str(), fs(b).c_str(), fs(x).c_str()); }); }
void registerFamilies() {
    gridFloat("fract", 10, fr1); gridFloat("smoothstep(0,1,x)", 12, ss1);
    if (RELEASE || mc::isThorough()) everyFloat("fract:", 1, frBad, fr1);
    if (mc::isThorough()) mc::add("smoothstep(0,1,x) for every float x in [0,1]", 0x3f800001u >> 12, [](u64 i, Ctx& c) { for (u32 k = 0; k < 4096; k++) ss1(mc::fromBits(u32(i << 12) + k), c); }, 64);
    { auto A = std::make_shared<std::vector<float>>(pair()); u64 n = A->size(); mc::add("mod", n * n, [A, n](u64 i, Ctx& c) { float x = (*A)[i % n], y = (*A)[i / n]; S2(mod, wMod, x, y) }); }
    { auto A = std::make_shared<std::vector<float>>(tri()); u64 n = A->size(); mc::add("mix, smoothstep, fma", n * n * n, [A, n](u64 i, Ctx& c) { mc::Radix r(i); float x = (*A)[r.take(n)], y = (*A)[r.take(n)], z = (*A)[r.take(n)]; S3(mix, wMix, x, y, z) S3(smoothstep, wSmooth, x, y, z) S3(fma, wFma, x, y, z) }); }
    // between edges: 17 edges pairwise, 512 positions
    mc::add("smoothstep between edges, monotone", 17 * 17 * 512, [](u64 i, Ctx& c) { static const float e[17] = {-1000, -10, -3.5f, -1, -0.25f, -1e-3f, 0, 1e-5f, 0.1f, 0.5f, 1, 1.5f, 2, 7, 64, 1e4f, 1e10f}; mc::Radix r(i); float a = e[r.take(17)], b = e[r.take(17)]; int k = (int)r.take(512); if (!(a < b)) return;
        float x = float(a + (double(b) - a) * (k / 512.0)), y = float(a + (double(b) - a) * ((k + 1) / 512.0)); S3(smoothstep, wSmooth, a, b, x) float g = zcm::smoothstep(a, b, x), h = zcm::smoothstep(a, b, y);
        c.check(g >= 0 && h <= 1 && g <= h + 3e-7f * h, [&] { return fmt("smoothstep(%s, %s, .) falls from %s to %s", fs(a).c_str(), fs(b).c_str(), fs(g).c_str(), fs(h).c_str()); }); });
    regV<vec2>(); regV<vec3>(); regV<vec4>(); regEdges<vec2>(); regEdges<vec3>(); regEdges<vec4>();
}
