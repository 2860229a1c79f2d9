// Trigonometric functions and angle conversion against double precision.
#include "acc.hpp"
using namespace zcm;
static double dDeg(double x) { return x * (180.0 / 3.14159265358979323846); } static double dRad(double x) { return x * (3.14159265358979323846 / 180.0); }
static double dSin(double x) { return std::isinf(x) ? NAN : std::sin(x); } static double dCos(double x) { return std::isinf(x) ? NAN : std::cos(x); } static double dTan(double x) { return std::isinf(x) ? NAN : std::tan(x); }
static float atan1(float x) { return zcm::atan(x); }
static const std::vector<Fn>& T() { static const std::vector<Fn> t = { FN(sin, dSin, 4, false), FN(cos, dCos, 4, false), FN(tan, dTan, 4, false), FN(asin, std::asin, 4, false), FN(acos, std::acos, 4, false), FN(atan, std::atan, 4, false), FN(sinh, std::sinh, 4, false), FN(cosh, std::cosh, 4, false), FN(tanh, std::tanh, 4, false),
    FN(asinh, std::asinh, 4, false), FN(acosh, std::acosh, 4, false), FN(atanh, std::atanh, 4, false), FN(degrees, dDeg, 3, false), FN(radians, dRad, 3, false) }; return t; }
static inline bool at2(float y, float x, float g, double& ref) { ref = std::atan2(double(y), double(x)); if (y == 0 && x == 0) return true; if (y == 0 && x < 0) return mc::nearUlp(std::fabs(g), std::fabs(ref), 4); return mc::nearUlp(g, ref, 4); }
template<class V> static void reg2() { enum { N = Tr<V>::n }; std::vector<std::vector<float>> cx(2); for (int k = 0; k < 2 * N; k++) { cx[0].push_back((k % 3 ? 1 : -1) * (0.5f + 0.7f * k)); cx[1].push_back((k % 2 ? 1 : -1) * (7.f + 3 * k)); }
    auto sp = std::make_shared<LaneSpace<float>>(2 * N, std::vector<float>{0.5f, -2.f, 1.f}, mc::richFloats(), cx);
    mc::add(std::string("atan(y, x) ") + Tr<V>::name(), sp->size(), [sp](u64 i, Ctx& c) { float l[2 * N], p[N]; sp->decode(i, l); rd(zcm::atan(mk<V>(l), mk<V>(l + N)), p); bool ok = true; double ref[N]; for (int k = 0; k < N; k++) ok = at2(l[k], l[N + k], p[k], ref[k]) && ok; c.nt(sp->fresh(i, l) && ref[0] == ref[0]);
        c.check(ok, [&] { std::string e; for (int k = 0; k < N; k++) e += fmt("%s%.9g", k ? ", " : "", ref[k]); return fmt("atan(%s %s, %s) = %s, expected (%s)", Tr<V>::name(), vsx(l, N).c_str(), vsx(l + N, N).c_str(), vs(p, N).c_str(), e.c_str()); }); }); }
static std::vector<float> alpha() { std::vector<float> v = mc::richFloats(); int mb = mc::isThorough() ? 3 : 0; for (u64 i = 0; i < mc::gridSize(mb); i++) v.push_back(mc::gridAt(i, mb)); for (int k = -64; k <= 64; k++) v.push_back(k * 0.25f); mc::uniq(v); return v; }
void registerFamilies() {
    regFns(T(), mc::isThorough() ? 13 : 11, false);
    { auto A = std::make_shared<std::vector<float>>(alpha()); u64 n = A->size(); mc::add("atan(y, x)", n * n, [A, n](u64 i, Ctx& c) { float y = (*A)[i % n], x = (*A)[i / n], g = zcm::atan(y, x); double ref; bool ok = at2(y, x, g, ref); c.nt(ref == ref && ref != 0); c.check(ok, [&] { return fmt("atan(%s, %s) = %s, expected %.9g", fs(y).c_str(), fs(x).c_str(), fs(g).c_str(), ref); }); }); }
    reg2<vec2>(); reg2<vec3>(); reg2<vec4>();
    mc::add("degrees and radians are inverse", mc::gridSize(8), [](u64 i, Ctx& c) { float x = mc::gridAt(i, 8); if (!mc::finite(x) || std::fabs(x) > 1e36 || std::fabs(x) < 1e-35) return; float a = zcm::degrees(zcm::radians(x)), b = zcm::radians(zcm::degrees(x)); c.nt(true); c.check(mc::nearUlp(a, x, 5) && mc::nearUlp(b, x, 5), [&] { return fmt("x = %s: degrees(radians(x)) = %s, radians(degrees(x)) = %s", fs(x).c_str(), fs(a).c_str(), fs(b).c_str()); }); });
}
