// Component reductions.
#include "zall.hpp"
using namespace zcm;
static const double E = 5.9604644775390625e-8;
template<class V> static void fl(const float* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V v = mk<V>(l); bool nan = false, fin = true; double s = 0, a = 0, p = 1, lo = 0, hi = 0; bool z = false, dy = true; double units = 1; // exact in every order: the product counted in eighths per factor fits a significand
    for (int k = 0; k < N; k++) { double x = l[k]; nan |= x != x; fin &= mc::finite(l[k]); s += x; a += std::fabs(x); p *= x; if (x == 0) z = true; else { double m = std::fabs(std::log2(std::fabs(x))); if (std::log2(std::fabs(x)) > 0) hi += m; else lo += m; } double u = 1; while (u > 0.1 && std::floor(x / u) * u != x) u /= 2; if (x != 0) units *= std::fabs(x) / u; dy &= std::fabs(x) <= 64 && x * 8 == std::floor(x * 8) && units <= 16777216.; }
    c.nt(fr && !nan && l[0] != l[1]);
    if (fin && a < 3e38) { float g = zcm::compAdd(v); c.check(std::fabs(g - s) <= (dy ? 0 : N * E * a * 1.01 + 1e-44), [&] { return fmt("compAdd(%s) = %s, expected %.9g", vsx(l, N).c_str(), fs(g).c_str(), s); }); }
    if (fin && hi < 127 && lo < 120) { float g = zcm::compMul(v); c.check(z ? g == 0 : dy ? double(g) == p : std::fabs(g - p) <= 2 * N * E * std::fabs(p), [&] { return fmt("compMul(%s) = %s, expected %.9g", vsx(l, N).c_str(), fs(g).c_str(), p); }); }
    if (!fin) { // NaN and infinities, where every order of the operations gives the same
        bool pi = false, ni = false, mod = true, neg = false; for (int k = 0; k < N; k++) { pi |= l[k] == INFINITY; ni |= l[k] == -INFINITY; mod &= !mc::finite(l[k]) || l[k] == 0 || (std::fabs(l[k]) < 1e9f && std::fabs(l[k]) > 1e-9f); neg ^= l[k] < 0; }
        bool sn = nan || (pi && ni), mn = nan || z; float g = zcm::compAdd(v), m = zcm::compMul(v); c.check(sn ? g != g : a < INFINITY || g == (pi ? INFINITY : -INFINITY), [&] { return fmt("compAdd(%s) = %s", vsx(l, N).c_str(), fs(g).c_str()); });
        if (nan || mod) c.check(mn ? m != m : m == (neg ? -INFINITY : INFINITY), [&] { return fmt("compMul(%s) = %s", vsx(l, N).c_str(), fs(m).c_str()); }); }
    if (!nan) { float mn = l[0], mx = l[0]; for (int k = 1; k < N; k++) { if (l[k] < mn) mn = l[k]; if (l[k] > mx) mx = l[k]; } float g = zcm::compMin(v), h = zcm::compMax(v); c.check(g == mn && h == mx, [&] { return fmt("compMin/compMax(%s) = %s/%s, expected %s/%s", vsx(l, N).c_str(), fs(g).c_str(), fs(h).c_str(), fs(mn).c_str(), fs(mx).c_str()); }); } }
template<class V> static void in(const int32_t* l, bool fr, Ctx& c) { enum { N = Tr<V>::n }; V v = mk<V>(l); double a = 0, b = 1; int64_t s = 0, p = 1; int32_t mn = l[0], mx = l[0]; for (int k = 0; k < N; k++) { a += std::fabs(double(l[k])); b *= l[k] ? std::fabs(double(l[k])) : 1; s += l[k]; mn = std::min(mn, l[k]); mx = std::max(mx, l[k]); } c.nt(fr && l[0] != l[1]);
    if (a <= INT_MAX) { int g = zcm::compAdd(v); c.check(g == s, [&] { return fmt("compAdd(%s) = %d", vs(l, N).c_str(), g); }); }
    if (b <= INT_MAX) { for (int k = 0; k < N; k++) p *= l[k]; int g = zcm::compMul(v); c.check(g == p, [&] { return fmt("compMul(%s) = %d, expected %d", vs(l, N).c_str(), g, (int)p); }); }
    int g = zcm::compMin(v), h = zcm::compMax(v); c.check(g == mn && h == mx, [&] { return fmt("compMin/compMax(%s) = %d/%d", vs(l, N).c_str(), g, h); }); }
template<class V> static void regF() { enum { N = Tr<V>::n }; std::vector<float> s; for (int k = -6; k <= 6; k++) s.push_back(k * 0.5f); s.push_back(INFINITY); s.push_back(-INFINITY); s.push_back(NAN); s.push_back(1e-20f); s.push_back(100.f); if (N < 4 || mc::isThorough()) for (int k = 4; k < 20; k++) { s.push_back(k * 1.25f); s.push_back(-k * 0.3f); }
    std::vector<std::vector<float>> cx(3); for (int k = 0; k < N; k++) { cx[0].push_back(1.5f + k); cx[1].push_back((k % 2 ? -1 : 1) * (0.1f + 0.13f * k)); cx[2].push_back(1e3f * (N - k)); }
    auto sp = std::make_shared<LaneSpace<float>>(N, s, mc::richFloats(), cx); mc::add(Tr<V>::name(), sp->size(), [sp](u64 i, Ctx& c) { float l[N]; sp->decode(i, l); fl<V>(l, sp->fresh(i, l), c); }); }
template<class V> static void regI() { enum { N = Tr<V>::n }; std::vector<int32_t> s; for (int k = -7; k <= 7; k++) s.push_back(k); s.insert(s.end(), {100, -100, INT_MAX, INT_MIN, 46340, 11, -13, 1 << 20}); std::vector<std::vector<int32_t>> cx(3); for (int k = 0; k < N; k++) { cx[0].push_back(2 + 3 * k); cx[1].push_back((k % 2 ? -1 : 1) * (43 - 3 * k)); cx[2].push_back(N - k); }
    auto sp = std::make_shared<LaneSpace<int32_t>>(N, s, mc::richInts(), cx); mc::add(Tr<V>::name(), sp->size(), [sp](u64 i, Ctx& c) { int32_t l[N]; sp->decode(i, l); in<V>(l, sp->fresh(i, l), c); }); }
void registerFamilies() { regF<vec2>(); regF<vec3>(); regF<vec4>(); regI<ivec2>(); regI<ivec3>(); regI<ivec4>(); }
