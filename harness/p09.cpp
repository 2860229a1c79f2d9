// Rounding family: references work on the bit pattern of the argument.
#include "scal.hpp"
using namespace zcm;
// (the float toward zero, what was cut off compared with one half: 0 nothing, 1 below, 2 exactly, 3 above)
static inline float cut(float x, int& frac) {
    u32 w = mc::bits(x); int e = int(w >> 23 & 255) - 127;
    if (e >= 23) { frac = 0; return x; }
    if (e < 0) { u32 m = w & 0x7fffffffu; frac = m == 0 ? 0 : m < 0x3f000000u ? 1 : m == 0x3f000000u ? 2 : 3; return mc::fromBits(w & 0x80000000u); }
    u32 mask = 0x7fffffu >> e, f = w & mask, half = (mask + 1) >> 1;
    frac = f == 0 ? 0 : f < half ? 1 : f == half ? 2 : 3;
    return mc::fromBits(w & ~mask);
}
static inline bool oddInt(float t) { float a = std::fabs(t); return a < 16777216.f && (int(a) & 1); }
static inline void refs(float x, float r[5]) {   // floor ceil trunc round roundEven
    if (x != x || std::isinf(x)) { for (int k = 0; k < 5; k++) r[k] = x; return; }
    int f; float t = cut(x, f); bool neg = mc::bits(x) >> 31;
    float away = t + (neg ? -1.f : 1.f);
    r[0] = neg && f ? away : t; r[1] = !neg && f ? away : t; r[2] = t; r[3] = f >= 2 ? away : t; r[4] = f == 3 || (f == 2 && oddInt(t)) ? away : t;
}
static const char* nm[] = {"floor", "ceil", "trunc", "round", "roundEven"};
static inline bool eq(float a, float b) { return a == b || (a != a && b != b); }
static void scalar(float x, Ctx& c) {
    float r[5]; refs(x, r); float g[5] = {zcm::floor(x), zcm::ceil(x), zcm::trunc(x), zcm::round(x), zcm::roundEven(x)};
    c.nt(!(r[2] == x) && x == x);
    bool ok = eq(g[0], r[0]) & eq(g[1], r[1]) & eq(g[2], r[2]) & eq(g[3], r[3]) & eq(g[4], r[4]);
    c.evals += 4;
    c.check(ok, [&] { for (int k = 0; k < 5; k++) if (!eq(g[k], r[k])) return fmt("%s(%s) = %s, expected %s", nm[k], fs(x).c_str(), fs(g[k]).c_str(), fs(r[k]).c_str()); return fmt("floor(%s) = %s", fs(x).c_str(), fs(g[0]).c_str()); });
}
template<class V> static void vec(const V& v, const float* l, bool fr, Ctx& c) {
    enum { N = Tr<V>::n }; V g[5] = {zcm::floor(v), zcm::ceil(v), zcm::trunc(v), zcm::round(v), zcm::roundEven(v)}; float r[N][5]; for (int k = 0; k < N; k++) refs(l[k], r[k]);
    c.nt(fr && l[0] == l[0] && r[0][2] != l[0]);
    for (int f = 0; f < 5; f++) { float p[N]; rd(g[f], p); bool ok = true; for (int k = 0; k < N; k++) ok = ok && eq(p[k], r[k][f]);
        c.check(ok, [&] { std::string e; for (int k = 0; k < N; k++) e += (k ? ", " : "") + fs(r[k][f]); return fmt("%s(%s) = %s, expected (%s)", nm[f], vsx(l, N).c_str(), vs(p, N).c_str(), e.c_str()); }); }
}
// the same reference, branch-free
static inline bool fast(float x, bool& nt) {
    if (!(std::fabs(x) < 8388608.f)) { nt = false; return !(eq(zcm::floor(x), x) & eq(zcm::ceil(x), x) & eq(zcm::trunc(x), x) & eq(zcm::round(x), x) & eq(zcm::roundEven(x), x)); }
    int n = int(x); float t = float(n), d = x - t, s = d < 0 ? -1.f : 1.f, a = std::fabs(d);   // exact
    nt = d != 0;
    return !((zcm::floor(x) == t - (d < 0 ? 1.f : 0.f)) & (zcm::ceil(x) == t + (d > 0 ? 1.f : 0.f)) & (zcm::trunc(x) == t) & (zcm::round(x) == (a >= 0.5f ? t + s : t)) & (zcm::roundEven(x) == (a > 0.5f || (a == 0.5f && (n & 1)) ? t + s : t)));
}
void registerFamilies() {
    gridFloat("scalar", 10, scalar);
    if (RELEASE || mc::isThorough()) everyFloat("scalar", 5, fast, scalar);
    std::vector<float> s = {0.5f, -0.5f, 1.5f, -2.5f, 3.f, 0.f, -0.7f};
    lanesOf<vec2>("overloads", s, [](const vec2& v, const float* l, bool fr, Ctx& c) { vec(v, l, fr, c); });
    lanesOf<vec3>("overloads", s, [](const vec3& v, const float* l, bool fr, Ctx& c) { vec(v, l, fr, c); });
    lanesOf<vec4>("overloads", s, [](const vec4& v, const float* l, bool fr, Ctx& c) { vec(v, l, fr, c); });
}
