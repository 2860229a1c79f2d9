// Accuracy tables: single-argument functions against the double-precision mathematical function.
#pragma once
#include "scal.hpp"
struct Fn { const char* name; float (*f)(float); double (*ref)(double); double ulps; bool skipNegZero;
            zcm::vec2 (*f2)(const zcm::vec2&); zcm::vec3 (*f3)(const zcm::vec3&); zcm::vec4 (*f4)(const zcm::vec4&); zcm::quat (*fq)(const zcm::quat&); };
inline bool okFn(const Fn& f, float x, float g, double& ref) { if (f.skipNegZero && mc::bits(x) == 0x80000000u) return true; ref = f.ref(double(x)); return mc::nearUlp(g, ref, f.ulps); }
inline void scalarFns(const std::vector<Fn>& T, float x, Ctx& c) {
    for (auto& f : T) { float g = f.f(x); double ref = 0; bool ok = okFn(f, x, g, ref); c.nt(mc::finite(x) && mc::finite(ref) && ref != 0 && ref != double(x));
        c.check(ok, [&] { return fmt("%s(%s = %.9g) = %s = %.9g, expected %.9g within %g units in the last place", f.name, fs(x).c_str(), x, fs(g).c_str(), g, ref, f.ulps); }); }
}
template<class V, class G> void vecFns(const std::vector<Fn>& T, const V& v, const float* l, bool fr, Ctx& c, G call) { enum { N = Tr<V>::n };
    for (auto& f : T) { V r = call(f, v); float p[N]; rd(r, p); double ref[N] = {}; bool ok = true; for (int k = 0; k < N; k++) ok = okFn(f, l[k], p[k], ref[k]) && ok; c.nt(fr && mc::finite(ref[0]) && ref[0] != double(l[0]));
        c.check(ok, [&] { std::string e; for (int k = 0; k < N; k++) e += fmt("%s%.9g", k ? ", " : "", ref[k]); return fmt("%s(%s %s) = %s, expected (%s) within %g units in the last place", f.name, Tr<V>::name(), vsx(l, N).c_str(), vs(p, N).c_str(), e.c_str(), f.ulps); }); } }
inline void regFns(const std::vector<Fn>& T, int mb, bool quats) {
    gridFloat("scalar", mb, [&T](float x, Ctx& c) { scalarFns(T, x, c); });
    // a linear grid over the range ordinary arguments come from
    mc::add("scalar, multiples of 2^-14 in [-64, 64]", (1u << 21) + 1, [&T](u64 i, Ctx& c) { scalarFns(T, (float(int(i) - (1 << 20))) / 16384.f, c); }, 1 << 12);
    if (mc::isThorough() && RELEASE) everyFloat("scalar:", (int)T.size(), [&T](float x, bool& nt) { bool bad = false; nt = x == x; for (auto& f : T) { double r; bad |= !okFn(f, x, f.f(x), r); } return bad; }, [&T](float x, Ctx& c) { scalarFns(T, x, c); });
    std::vector<float> s = {0.5f, -0.25f, 0.f, 2.f, 1.f};
    lanesOf<zcm::vec2>("overloads", s, [&T](const zcm::vec2& v, const float* l, bool fr, Ctx& c) { vecFns(T, v, l, fr, c, [](const Fn& f, const zcm::vec2& v) { return f.f2(v); }); });
    lanesOf<zcm::vec3>("overloads", s, [&T](const zcm::vec3& v, const float* l, bool fr, Ctx& c) { vecFns(T, v, l, fr, c, [](const Fn& f, const zcm::vec3& v) { return f.f3(v); }); });
    lanesOf<zcm::vec4>("overloads", s, [&T](const zcm::vec4& v, const float* l, bool fr, Ctx& c) { vecFns(T, v, l, fr, c, [](const Fn& f, const zcm::vec4& v) { return f.f4(v); }); });
    if (quats) lanesOf<zcm::quat>("overloads", s, [&T](const zcm::quat& v, const float* l, bool fr, Ctx& c) { vecFns(T, v, l, fr, c, [](const Fn& f, const zcm::quat& v) { return f.fq(v); }); });
}
#define FN(NAME, REF, ULPS, SKIP) { #NAME, [](float x) { return zcm::NAME(x); }, REF, ULPS, SKIP, [](const zcm::vec2& v) { return zcm::NAME(v); }, [](const zcm::vec3& v) { return zcm::NAME(v); }, [](const zcm::vec4& v) { return zcm::NAME(v); }, nullptr }
#define FNQ(NAME, REF, ULPS, SKIP) { #NAME, [](float x) { return zcm::NAME(x); }, REF, ULPS, SKIP, [](const zcm::vec2& v) { return zcm::NAME(v); }, [](const zcm::vec3& v) { return zcm::NAME(v); }, [](const zcm::vec4& v) { return zcm::NAME(v); }, [](const zcm::quat& v) { return zcm::NAME(v); } }
