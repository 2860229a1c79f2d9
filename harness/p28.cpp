// Colour conversions: transfer curve, inverse, channel independence, alpha.
#include "rot.hpp"
using namespace zcm;
static double curve(double x, double g) { return x < 0.0031308 ? 12.92 * x : 1.055 * std::pow(x, 1 / g) - 0.055; }
static double back(double s, double g) { return s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, g); }
static double apx(double x) { double a = std::sqrt(x), b = std::sqrt(a), d = std::sqrt(b); return 0.662002687 * a + 0.684122060 * b - 0.323583601 * d - 0.0225411470 * x; }
static bool nearT(float x, float t) { return std::fabs(x - t) <= 4e-9 + 2e-7 * t; }
static bool okToS(float got, float x, float g) { double e = curve(x, double(g)), tol = 4e-7 + 3e-7 / g; if (std::fabs(got - e) <= tol) return true; return nearT(x, 0.0031308f) && (std::fabs(got - 12.92 * x) <= tol || std::fabs(got - (1.055 * std::pow(double(x), 1 / double(g)) - 0.055)) <= tol); }
static bool okToL(float got, float s, float g) { double e = back(s, double(g)), tol = 8e-8 + 4e-7 * g * e; if (std::fabs(got - e) <= tol) return true; return nearT(s, 0.04045f) && (std::fabs(got - s / 12.92) <= tol || std::fabs(got - std::pow((s + 0.055) / 1.055, double(g))) <= tol); }
// both ends on the same segment of the curve
static bool sameSeg(float x, double g) { double s = curve(x, g); return x < 0.003130 ? s <= 0.04044 : x > 0.003132 && s > 0.04046; }
static void scalar(float x, float g, Ctx& c) { if (!(x >= 0 && x <= 1)) return; vec3 V(x, x, x); float p[3]; c.nt(x > 0 && x < 1);
    vec3 s = convertLinearToSRGB(V, g); rd(s, p); float sg = p[0]; c.check(okToS(p[0], x, g), [&] { return fmt("convertLinearToSRGB(%s, gamma %s) = %s, expected %.9g", fs(x).c_str(), fs(g).c_str(), fs(p[0]).c_str(), curve(x, g)); });
    rd(convertSRGBToLinear(V, g), p); c.check(okToL(p[0], x, g), [&] { return fmt("convertSRGBToLinear(%s, gamma %s) = %s, expected %.9g", fs(x).c_str(), fs(g).c_str(), fs(p[0]).c_str(), back(x, g)); }); float lg = p[0];
    if (sameSeg(x, g)) { rd(convertSRGBToLinear(s, g), p); double dl = x < 0.0031308 ? 1 / 12.92 : g / 1.055 * std::pow((sg + 0.055) / 1.055, g - 1.0); c.check(std::fabs(p[0] - x) <= 1e-7 + 4e-7 * g * x + (4e-7 + 3e-7 / g) * dl, [&] { return fmt("gamma %s: linear %s -> sRGB %s -> linear %s", fs(g).c_str(), fs(x).c_str(), fs(sg).c_str(), fs(p[0]).c_str()); }); }
    if (lg >= 0 && lg <= 1 && ((x < 0.0404 && lg < 0.00313) || (x > 0.0405 && lg > 0.003132))) { rd(convertLinearToSRGB(mk<vec3>(std::vector<float>{lg, lg, lg}.data()), g), p); double dl = x <= 0.04045 ? 12.92 : 1.055 / g * std::pow(double(lg), 1 / double(g) - 1); c.check(std::fabs(p[0] - x) <= 4e-7 + 3e-7 / g + (8e-8 + 4e-7 * g * lg) * dl, [&] { return fmt("gamma %s: sRGB %s -> linear %s -> sRGB %s", fs(g).c_str(), fs(x).c_str(), fs(lg).c_str(), fs(p[0]).c_str()); }); } }
static void deflt(float x, Ctx& c) { if (!(x >= 0 && x <= 1)) return; vec3 V(x, x, x); float p[3], q[3], r[3]; rd(convertLinearToSRGB(V), p); rd(convertSRGBToLinear(V), q); c.nt(x > 0 && x < 1); double ex = curve(x, 2.4), a = apx(x);
    c.check(std::fabs(p[0] - ex) <= 1.2 * std::fabs(a - ex) + 1e-3, [&] { return fmt("convertLinearToSRGB(%s) = %s, the sRGB curve gives %.9g (approximation %.9g)", fs(x).c_str(), fs(p[0]).c_str(), ex, a); });
    c.check(okToL(q[0], x, 2.4f), [&] { return fmt("convertSRGBToLinear(%s) = %s, expected %.9g", fs(x).c_str(), fs(q[0]).c_str(), back(x, 2.4)); });
    if (x == 0 || x == 1) c.check(std::fabs(p[0] - x) <= 1e-6 && std::fabs(q[0] - x) <= 1e-6, [&] { return fmt("default conversions of %g: %s, %s", x, fs(p[0]).c_str(), fs(q[0]).c_str()); });
    // monotone: a step of 1e-4 relative up never goes down by more than rounding (the approximation turns below 1e-5)
    float y = std::min(1.f, x + std::max(1e-7f, x * 1e-4f)); vec3 Y(y, y, y); rd(convertSRGBToLinear(Y), r); c.check(r[0] >= q[0] - 3e-7f * q[0], [&] { return fmt("convertSRGBToLinear falls from %s at %s to %s at %s", fs(q[0]).c_str(), fs(x).c_str(), fs(r[0]).c_str(), fs(y).c_str()); }); if (x >= 1e-5f) { rd(convertLinearToSRGB(Y), r); c.check(r[0] >= p[0] - 3e-7f, [&] { return fmt("convertLinearToSRGB falls from %s at %s to %s at %s", fs(p[0]).c_str(), fs(x).c_str(), fs(r[0]).c_str(), fs(y).c_str()); }); } }
// every channel on its own: compared with the conversion of the grey of that channel; alpha is copied
static void lanes(const float* l, float g, bool fr, Ctx& c) { vec3 v3_ = mk<vec3>(l); vec4 v4_ = mk<vec4>(l); float a[4], b[4], e[4]; c.nt(fr && l[0] != l[1]); struct O { const char* n; vec3 (*f3)(vec3, float); vec4 (*f4)(vec4, float); };
    static const O os[] = {{"convertLinearToSRGB(c)", [](vec3 v, float) { return convertLinearToSRGB(v); }, [](vec4 v, float) { return convertLinearToSRGB(v); }}, {"convertSRGBToLinear(c)", [](vec3 v, float) { return convertSRGBToLinear(v); }, [](vec4 v, float) { return convertSRGBToLinear(v); }}, {"convertLinearToSRGB(c, gamma)", [](vec3 v, float g) { return convertLinearToSRGB(v, g); }, [](vec4 v, float g) { return convertLinearToSRGB(v, g); }}, {"convertSRGBToLinear(c, gamma)", [](vec3 v, float g) { return convertSRGBToLinear(v, g); }, [](vec4 v, float g) { return convertSRGBToLinear(v, g); }}};
    for (auto& o : os) { rd(o.f3(v3_, g), a); rd(o.f4(v4_, g), b); bool ok = same(b[3], l[3]); for (int k = 0; k < 3; k++) { float q[3] = {l[k], l[k], l[k]}; rd(o.f3(mk<vec3>(q), g), q); e[k] = q[k]; ok = ok && (same(a[k], e[k]) || std::fabs(a[k] - e[k]) <= 2e-7) && (same(b[k], e[k]) || std::fabs(b[k] - e[k]) <= 2e-7); } e[3] = l[3]; c.check(ok, [&] { return fmt("%s of %s, gamma %s: vec3 %s, vec4 %s, expected channel by channel %s", o.n, vsx(l, 4).c_str(), fs(g).c_str(), vs(a, 3).c_str(), vs(b, 4).c_str(), vs(e, 4).c_str()); });
        for (int k = 0; k < 3; k++) { float x = l[k]; bool in = x >= 0 && x <= 1; bool toS = o.n[7] == 'L'; bool cust = std::strchr(o.n, ',') != nullptr;
            if (!in && x == x && cust && toS) { float y = x < 0 ? 0.f : 1.f; c.check(okToS(a[k], y, g) && okToS(b[k], y, g), [&] { return fmt("%s of a channel %s, gamma %s: vec3 %s, vec4 %s, expected that of %g", o.n, fs(x).c_str(), fs(g).c_str(), fs(a[k]).c_str(), fs(b[k]).c_str(), y); }); }
            if (!in && !toS && std::fabs(x) <= 1e3) { double e = back(x, cust ? double(g) : double(2.4f)), tol = (8e-8 + 1e-6 * g) * std::fabs(e) + 1e-44; c.check(std::fabs(a[k] - e) <= tol && std::fabs(b[k] - e) <= tol, [&] { return fmt("%s of a channel %s, gamma %s: vec3 %s, vec4 %s, expected %.9g", o.n, fs(x).c_str(), fs(g).c_str(), fs(a[k]).c_str(), fs(b[k]).c_str(), e); }); }
            if (!in) continue; bool r = toS ? (cust ? okToS(b[k], x, g) && okToS(a[k], x, g) : std::fabs(b[k] - apx(x)) <= 0.05 && std::fabs(a[k] - apx(x)) <= 0.05) : okToL(a[k], x, cust ? g : 2.4f) && okToL(b[k], x, cust ? g : 2.4f); c.check(r, [&] { return fmt("%s of %s, gamma %s: channel %d is %s (vec3), %s (vec4)", o.n, vsx(l, 4).c_str(), fs(g).c_str(), k, fs(a[k]).c_str(), fs(b[k]).c_str()); }); } } }
void registerFamilies() {
    bool th = mc::isThorough(); static std::vector<float> gs = {1, 2.4f, 2.2f, 1.8f, 0.5f, 3, 1.0001f, 2.35f, 5}; for (float f : mc::dictFloats()) if (f >= 0.4f && f <= 6 && gs.size() < 24) gs.push_back(f); mc::uniq(gs); for (double b : {1., 2.2, 2.4}) for (double d : {1e-6, -1e-6, 1e-4, -1e-4, 2e-3, -2e-3, 0.03, -0.03}) gs.push_back(float(b * (1 + d))); mc::uniq(gs); u64 G = gs.size(); static std::vector<float> xs; u64 n = th ? 65536 : 4096; for (u64 k = 0; k <= n; k++) xs.push_back(float(k) / n); for (float e = 1; e > 1e-12f; e *= 0.97f) xs.push_back(e); for (float t : {0.0031308f, 0.04045f, 1e-5f}) for (int d = -200; d <= 200; d++) xs.push_back(mc::fromBits(mc::bits(t) + d * 3)); for (int d = 0; d < 64; d++) xs.push_back(mc::fromBits(0x3f800000u - d)); for (float f : mc::dictFloats()) for (int d = -20; d <= 20; d++) { float y = mc::fromBits(mc::bits(f) + d); if (y >= 0 && y <= 1) xs.push_back(y); } u64 X = xs.size();
    mc::add("custom gamma, grey", X * G, [=](u64 i, Ctx& c) { scalar(xs[i % X], gs[i / X], c); }); mc::add("default conversions, grey", X, [](u64 i, Ctx& c) { deflt(xs[i], c); }); mc::add("default conversions, grey, all encodings of [0,1] in steps", th ? 0x3f800001ull / 16 : 0x3f800001ull / 1024, [th](u64 i, Ctx& c) { deflt(mc::fromBits(u32(i * (th ? 16 : 1024) + i % 13)), c); });
    std::vector<float> rich = mc::richFloats(); for (float f : {0.2f, 0.04f, 0.003f, 0.9f, 0.05f}) rich.push_back(f); auto sp = std::make_shared<LaneSpace<float>>(4, std::vector<float>{0, 0.002f, 0.02f, 0.3f, 0.7f, 1}, rich, std::vector<std::vector<float>>{{0.1f, 0.5f, 0.9f, 0.25f}, {0.001f, 0.03f, 0.6f, 0.8f}, {1, 0.002f, 0.2f, 0.f}, {-0.4f, 1.7f, -3.f, 2.f}}); u64 S = sp->size(); mc::add("channels and alpha", S * 4, [=](u64 i, Ctx& c) { float l[4]; sp->decode(i % S, l); static const float g[] = {2.2f, 2.4f, 1.f, 3.f}; lanes(l, g[i / S], sp->fresh(i % S, l), c); });
}
