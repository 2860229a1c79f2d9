// Exponential functions against double precision.
#include "acc.hpp"
using namespace zcm;
static double dRsqrt(double x) { return 1.0 / std::sqrt(x); }
static const std::vector<Fn>& T() { static const std::vector<Fn> t = { FNQ(exp, std::exp, 4, false), FNQ(exp2, std::exp2, 4, false), FNQ(log, std::log, 4, false), FNQ(log2, std::log2, 4, false), FNQ(sqrt, std::sqrt, 1, false), FNQ(inversesqrt, dRsqrt, 4, true), FNQ(cbrt, std::cbrt, 4, false) }; return t; }
static inline bool powOk(float x, float y, float g, double& ref) {
    ref = std::pow(double(x), double(y));
    if (x == 0 || std::isinf(x)) { if (std::fabs(double(g)) == std::fabs(ref)) return true; }   // the sign that comes from a zero or infinite base is not looked at
    if (x == 1 || y == 0 || (x == -1 && std::isinf(y))) { if (x != x || y != y || std::isinf(x) || std::isinf(y) || x == 0) return true; }   // indeterminate forms
    return mc::nearUlp(g, ref, 4);
}
template<class V> static void powV(const V& r, const float* x, const float* y, bool fr, const char* what, Ctx& c) { enum { N = Tr<V>::n }; float p[N]; rd(r, p); bool ok = true; double ref[N]; for (int k = 0; k < N; k++) ok = powOk(x[k], y[k], p[k], ref[k]) && ok; c.nt(fr && mc::finite(ref[0]) && ref[0] != x[0]);
    c.check(ok, [&] { std::string e; for (int k = 0; k < N; k++) e += fmt("%s%.9g", k ? ", " : "", ref[k]); return fmt("%s(%s %s, %s) = %s, expected (%s)", what, Tr<V>::name(), vsx(x, N).c_str(), vsx(y, N).c_str(), vs(p, N).c_str(), e.c_str()); }); }
template<class V> static void regPow() { enum { N = Tr<V>::n }; std::vector<std::vector<float>> cx(2); for (int k = 0; k < 2 * N; k++) { cx[0].push_back(k < N ? 0.5f + 0.7f * k : -1.5f + 0.8f * k); cx[1].push_back(k < N ? 7.f + 3 * k : 1.f - 0.3f * k); }
    auto sp = std::make_shared<LaneSpace<float>>(2 * N, std::vector<float>{0.5f, 2.f, -1.f}, mc::richFloats(), cx);
    mc::add(std::string("pow ") + Tr<V>::name(), sp->size(), [sp](u64 i, Ctx& c) { float l[2 * N]; sp->decode(i, l); powV(zcm::pow(mk<V>(l), mk<V>(l + N)), l, l + N, sp->fresh(i, l), "pow", c); }); }
static std::vector<float> alpha() { std::vector<float> v = mc::richFloats(); int mb = mc::isThorough() ? 3 : 0; for (u64 i = 0; i < mc::gridSize(mb); i++) v.push_back(mc::gridAt(i, mb)); for (int k = -64; k <= 64; k++) v.push_back(k * 0.25f); for (int k = -40; k <= 40; k++) v.push_back(1.f + k * 5.96e-8f * 17); mc::uniq(v); return v; }
void registerFamilies() {
    regFns(T(), 12, true);
    { auto A = std::make_shared<std::vector<float>>(alpha()); u64 n = A->size(); mc::add("pow", n * n, [A, n](u64 i, Ctx& c) { float x = (*A)[i % n], y = (*A)[i / n], g = zcm::pow(x, y); double ref; bool ok = powOk(x, y, g, ref); c.nt(mc::finite(ref) && ref != 0 && ref != x && y != 0); c.check(ok, [&] { return fmt("pow(%s, %s) = %s, expected %.9g", fs(x).c_str(), fs(y).c_str(), fs(g).c_str(), ref); }); }); }
    regPow<vec2>(); regPow<vec3>(); regPow<vec4>();
    { auto sp = std::make_shared<LaneSpace<float>>(5, std::vector<float>{0.5f, 2.f, -1.f, 3.f}, mc::richFloats(), std::vector<std::vector<float>>{{0.5f, 1.2f, 1.9f, 2.6f, 1.5f}, {7, 10, 13, 16, -0.4f}}); mc::add("pow quat, scalar", sp->size(), [sp](u64 i, Ctx& c) { float l[5]; sp->decode(i, l); float y[4] = {l[4], l[4], l[4], l[4]}; powV(zcm::pow(mk<quat>(l), l[4]), l, y, sp->fresh(i, l), "pow", c); }); }
    // inverse pairs, on every multiple of 2^-12 of the ranges in which both directions are representable
    mc::add("inverse pairs", 1 << 18, [](u64 i, Ctx& c) { float x = (float(int(i) - (1 << 17))) / 4096.f; c.nt(x != 0); double t = 1e-6 * (1 + std::fabs(x));
        { float g = zcm::log(zcm::exp(x)); c.check(mc::nearAbs(g, x, t), [&] { return fmt("log(exp(%s)) = %s", fs(x).c_str(), fs(g).c_str()); }); } { float g = zcm::log2(zcm::exp2(x)); c.check(mc::nearAbs(g, x, t), [&] { return fmt("log2(exp2(%s)) = %s", fs(x).c_str(), fs(g).c_str()); }); }
        { float b = zcm::cbrt(x), g = b * b * b; c.check(mc::nearAbs(g, x, t), [&] { return fmt("cbrt(%s) cubed = %s", fs(x).c_str(), fs(g).c_str()); }); }
        if (x > 0) { float b = zcm::sqrt(x), g = b * b, h = zcm::inversesqrt(x) * b, q = zcm::pow(x, 0.5f); c.check(mc::nearAbs(g, x, t) && mc::nearAbs(h, 1, 1e-6) && mc::nearAbs(q, b, t), [&] { return fmt("sqrt(%s) squared = %s, inversesqrt*sqrt = %s, pow(x, 1/2) = %s", fs(x).c_str(), fs(g).c_str(), fs(h).c_str(), fs(q).c_str()); }); } });
}
