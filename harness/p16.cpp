// reflect, refract, faceforward, orthogonal.
#include "zall.hpp"
using namespace zcm;
static const double E = 5.9604644775390625e-8;
template<class V> struct T0 { enum { N = Tr<V>::n }; static V mkv(const float* l) { return mk<V>(l); } static void get(const V& v, float* p) { rd(v, p); } }; template<> struct T0<float> { enum { N = 1 }; static float mkv(const float* l) { return *l; } static void get(float v, float* p) { *p = v; } };
// unit directions: normalised integer vectors of [-k,k]^n
template<int N> static std::vector<std::vector<float>> dirs(int k, bool signsOfZero = false) { std::vector<std::vector<float>> o; u64 c = 1; for (int i = 0; i < N; i++) c *= 2 * k + 1; for (u64 i = 0; i < c; i++) { mc::Radix r(i); double s = 0; int t[N], g = 0; for (int j = 0; j < N; j++) { t[j] = (int)r.take(2 * k + 1) - k; s += t[j] * t[j]; int a = std::abs(t[j]), b = g; while (b) { int m = a % b; a = b; b = m; } g = a; } if (g != 1) continue; std::vector<float> v(N); for (int j = 0; j < N; j++) v[j] = float(t[j] / std::sqrt(s)); o.push_back(v); } (void)signsOfZero; return o; }
// directions with one or two tiny components: close to an axis, to a diagonal, and to each other
template<int N> static std::vector<std::vector<float>> skewDirs(bool few) { std::vector<std::vector<float>> o; if (N < 2) return o; for (double e : few ? std::vector<double>{1e-4, -0.02, 1e-9} : std::vector<double>{1e-12, -3e-8, 1e-6, -1e-4, 2e-3, -0.03, 0.11}) for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) for (int g = 0; g < (few ? 2 : 4); g++) { if (a == b) continue; double t[N], s = 0; for (int j = 0; j < N; j++) t[j] = g & 2 ? e * e : 0; t[a] = g & 1 ? -1 : 1; t[b] = e; if (g == 3 && N > 2) t[(a + 1) % N == b ? (a + 2) % N : (a + 1) % N] = 0.7; for (int j = 0; j < N; j++) s += t[j] * t[j]; std::vector<float> v(N); for (int j = 0; j < N; j++) v[j] = float(t[j] / std::sqrt(s)); o.push_back(v); } return o; }
template<class V> static void refl(const float* I, const float* N_, Ctx& c) { enum { N = T0<V>::N }; float p[N]; T0<V>::get(zcm::reflect(T0<V>::mkv(I), T0<V>::mkv(N_)), p); double d = 0, t = 0; for (int k = 0; k < N; k++) { d += double(I[k]) * N_[k]; t += std::fabs(double(I[k]) * N_[k]); } bool ok = true, axis = true; double r[N]; for (int k = 0; k < N; k++) axis = axis && (N_[k] == 0 || std::fabs(N_[k]) == 1);
    for (int k = 0; k < N; k++) { r[k] = I[k] - 2 * d * N_[k]; ok = ok && (axis && std::fabs(I[k]) < 4096 ? double(p[k]) == r[k] : std::fabs(p[k] - r[k]) <= (N + 4) * 2 * E * (t * std::fabs(N_[k]) + std::fabs(I[k])) + 1e-37); } c.nt(d != 0 && r[0] != I[0]);
    c.check(ok, [&] { std::string e; for (int k = 0; k < N; k++) e += fmt("%s%.9g", k ? ", " : "", r[k]); return fmt("reflect(I=%s, N=%s) = %s, expected (%s)", vsx(I, N).c_str(), vsx(N_, N).c_str(), vs(p, N).c_str(), e.c_str()); }); }
template<class V> static void refr(const float* I, const float* N_, float eta, Ctx& c) { enum { N = T0<V>::N }; float p[N]; T0<V>::get(zcm::refract(T0<V>::mkv(I), T0<V>::mkv(N_), eta), p); double d = 0; for (int k = 0; k < N; k++) d += double(I[k]) * N_[k]; double h = eta, k0 = 1 - h * h * (1 - d * d), dk = 24 * E * (1 + h * h); double r[N]; bool ok;
    auto txt = [&](const char* why) { std::string e; for (int k = 0; k < N; k++) e += fmt("%s%.9g", k ? ", " : "", r[k]); return fmt("refract(I=%s, N=%s, eta=%s) = %s, expected (%s)%s", vsx(I, N).c_str(), vsx(N_, N).c_str(), fs(eta).c_str(), vs(p, N).c_str(), e.c_str(), why); };
    bool zero = true; for (int k = 0; k < N; k++) { zero = zero && p[k] == 0; r[k] = 0; }
    if (k0 < -dk) { c.nt(true); c.check(zero, [&] { return txt(" (total internal reflection)"); }); return; }
    double s = std::sqrt(std::max(k0, 0.0)), ds = k0 > dk ? dk / (2 * s) + dk * dk / (4 * s * s * s) : 2 * std::sqrt(2 * dk); ok = true; for (int k = 0; k < N; k++) { r[k] = h * I[k] - (h * d + s) * N_[k]; ok = ok && std::fabs(p[k] - r[k]) <= 16 * E * (1 + std::fabs(h)) + ds * std::fabs(N_[k]); } bool exact = std::fabs(h) <= 4 && h * 8 == std::floor(h * 8); for (int k = 0; k < N; k++) exact = exact && I[k] * 8 == std::floor(I[k] * 8) && N_[k] * 8 == std::floor(N_[k] * 8);
    if (k0 <= dk && !(exact && k0 >= 0)) ok = ok || zero; c.nt(k0 > dk && d < 0);
    c.check(ok, [&] { return txt(""); });
    if (k0 > dk && d < -1e-3 && h > 0) { double tn = 0, l2 = 0; for (int k = 0; k < N; k++) { tn += double(p[k]) * N_[k]; l2 += double(p[k]) * p[k]; } double si = std::sqrt(std::max(0.0, 1 - d * d)), st2 = l2 - tn * tn; 
        c.check(tn < 1e-6 + ds && std::fabs(l2 - 1) < 1e-5 * (1 + h * h) + 2 * ds && std::fabs(std::max(0.0, st2) - h * h * si * si) < 2e-5 * (1 + h * h) + 4 * ds, [&] { return txt(" -- not a unit vector on the far side obeying Snell's law"); }); } }
template<class V> static void ff(const float* l, Ctx& c, float sc = 1) { enum { N = T0<V>::N }; const float *n = l, *I = l + N, *R = l + 2 * N; float p[N]; T0<V>::get(zcm::faceforward(T0<V>::mkv(n), T0<V>::mkv(I), T0<V>::mkv(R)), p); double d = 0, t = 0; bool ex = true; for (int k = 0; k < N; k++) { d += double(I[k]) * R[k]; t += std::fabs(double(I[k]) * R[k]); ex = ex && std::fabs(I[k]) <= 64 * sc && std::fabs(R[k]) <= 64 && I[k] / sc == std::floor(I[k] / sc) && R[k] == std::floor(R[k]); }
    bool pos = true, neg = true; for (int k = 0; k < N; k++) { pos = pos && p[k] == n[k]; neg = neg && p[k] == -n[k]; } bool unsure = !ex && std::fabs(d) <= (N + 1) * E * t + 1e-38; c.nt(d < 0);
    c.check(unsure ? pos || neg : d < 0 ? pos : neg, [&] { return fmt("faceforward(N=%s, I=%s, Nref=%s) = %s, dot(Nref, I) = %.9g", vsx(n, N).c_str(), vsx(I, N).c_str(), vsx(R, N).c_str(), vs(p, N).c_str(), d); }); }
static double dotd(const float* a, const float* b, double& t) { double d = 0; t = 0; for (int k = 0; k < 3; k++) { d += double(a[k]) * b[k]; t += std::fabs(double(a[k]) * b[k]); } return d; }
static void orth(const float* v, Ctx& c) { float p[3]; rd(zcm::orthogonal(mk<vec3>(v)), p); double t, d = dotd(v, p, t); bool nz = p[0] || p[1] || p[2], fin = mc::finite(p[0]) && mc::finite(p[1]) && mc::finite(p[2]); c.nt(v[0] && v[1] && v[2]); c.check(fin && nz && std::fabs(d) <= 4 * E * t, [&] { return fmt("orthogonal(%s) = %s: product with the input %.9g", vsx(v, 3).c_str(), vsx(p, 3).c_str(), d); }); }
static void orthB(const float* v, Ctx& c) { float p[3]; rd(zcm::orthogonal_branchless(mk<vec3>(v)), p); double t, d = dotd(v, p, t), l = std::sqrt(double(p[0]) * p[0] + double(p[1]) * p[1] + double(p[2]) * p[2]); c.nt(v[0] && v[1] && v[2]); c.check(l > 1e-6 && std::fabs(d) <= 1e-6, [&] { return fmt("orthogonal_branchless(%s) = %s: length %.9g, product with the input %.9g", vsx(v, 3).c_str(), vsx(p, 3).c_str(), l, d); }); }
static const std::vector<float>& etas() { static const std::vector<float> e = {1.f, 0.5f, 2.f, 0.75f, 1.5f, 1.f / 1.33f, 1.33f, 0.f, 0.1f, 3.f, 1.001f, 0.999f, 0.02f, 0.3f, 2.42f, 4.f, 12.f, 0.95f}; return e; }
template<class V> static void reg(int k, int ik) { enum { N = T0<V>::N }; std::string n = N == 1 ? "float" : N == 2 ? "vec2" : N == 3 ? "vec3" : "vec4"; auto D = std::make_shared<std::vector<std::vector<float>>>(dirs<N>(k)); for (auto& v : skewDirs<N>(N == 4 || (N == 3 && !mc::isThorough()))) D->push_back(v); u64 m = D->size(); auto I = std::make_shared<std::vector<std::vector<float>>>();
    { u64 c = 1; for (int i = 0; i < N; i++) c *= 2 * ik + 1; for (u64 i = 0; i < c; i++) { mc::Radix r(i); std::vector<float> v(N); for (int j = 0; j < N; j++) v[j] = float((int)r.take(2 * ik + 1) - ik); I->push_back(v); } for (float s : {0.3f, 17.7f, 1e-6f, 1e6f, -0.8f, 0.03f, -3e-3f, 2e-4f, -1e-9f, -45.f, 2e3f, -3e4f, 4e8f, -1e11f}) for (auto& d : dirs<N>(N == 4 && s != 17.7f ? 1 : 2)) { auto v = d; for (auto& x : v) x *= s; I->push_back(v); } for (float q : {1e-5f, -0.01f, 33.f, -2e4f, 1e7f}) for (int a = 0; a < N; a++) for (auto& d : dirs<N>(1)) { auto v = d; v[a] *= q; I->push_back(v); } }
    mc::add("reflect " + n, m * I->size(), [D, I, m](u64 i, Ctx& c) { refl<V>((*I)[i / m].data(), (*D)[i % m].data(), c); });
    mc::add("refract " + n, m * m * etas().size(), [D, m](u64 i, Ctx& c) { mc::Radix r(i); const float *a = (*D)[r.take(m)].data(), *b = (*D)[r.take(m)].data(); refr<V>(a, b, etas()[r.take(etas().size())], c); });
    int fk = N <= 2 ? 4 : N == 3 ? 2 : 1; u64 fc = 1; for (int i = 0; i < 2 * N; i++) fc *= 2 * fk + 1; mc::add("faceforward " + n + ", integer operands, scaled", fc * 4, [fk](u64 i, Ctx& c) { float l[3 * N]; mc::Radix r(i); float sc = (float[]){1.f, 0x1p-20f, 0x1p-40f, 0x1p20f}[r.take(4)]; for (int k = 0; k < N; k++) l[k] = (k % 2 ? -1.f : 1.f) * (1.25f + k); for (int k = 0; k < 2 * N; k++) l[N + k] = float((int)r.take(2 * fk + 1) - fk) * (k < N ? sc : 1.f); ff<V>(l, c, sc); });
    std::vector<std::vector<float>> cx(3); for (int q = 0; q < 3 * N; q++) { cx[0].push_back(1.5f + q); cx[1].push_back((q % 2 ? -1 : 1) * (0.93f - 0.17f * q)); cx[2].push_back((q % 3 ? 1 : -1) * (43.7f - 3.1f * q)); } auto sp = std::make_shared<LaneSpace<float>>(3 * N, N < 4 ? std::vector<float>{-1.f, 0.f, 0.5f} : std::vector<float>{-1.f, 0.5f}, mc::finiteOnly(mc::richFloats(), 4e18, 3e-18), cx); mc::add("faceforward " + n, sp->size(), [sp](u64 i, Ctx& c) { float l[3 * N]; sp->decode(i, l); ff<V>(l, c); });
}
void registerFamilies() {
    int t = mc::isThorough(); reg<float>(1, 50); reg<vec2>(9 + 6 * t, 20); reg<vec3>(3 + t, 5 + t); reg<vec4>(1 + t, 2 + t);
    // scalars: the formula for every incident value, exact operands
    mc::add("refract float, formula", 33 * 3 * 25, [](u64 i, Ctx& c) { mc::Radix r(i); float I = (int(r.take(33)) - 16) / 8.f, N_ = int(r.take(3)) - 1.f, h = r.take(25) / 8.f, g = zcm::refract(I, N_, h); double d = double(I) * N_, k = 1 - double(h) * h * (1 - d * d), e = k < 0 ? 0 : h * I - (h * d + std::sqrt(k)) * N_; c.nt(k < 0); c.check(std::fabs(g - e) <= 1e-5 || (std::fabs(k) < 1e-9 && g == 0), [&] { return fmt("refract(%g, %g, %g) = %.9g, expected %.9g", I, N_, h, g, e); }); });
    // refraction near the critical angle and near grazing incidence, in the plane
    mc::add("refract vec2, fine angles", 20000 * etas().size(), [](u64 i, Ctx& c) { mc::Radix r(i); double a = (r.take(20000) + 0.5) * (6.283185307179586 / 20000); float N_[2] = {0, 1}, I[2] = {float(std::cos(a)), float(std::sin(a))}; refr<vec2>(I, N_, etas()[r.take(etas().size())], c); });
    { auto sp = std::make_shared<LaneSpace<float>>(3, std::vector<float>{0.f, -0.f, 1.f, -1.f, 2.f, -3.f, 0.1f, 1e-20f, 1e20f, 1e-38f, -1e-45f, 3e38f}, mc::finiteOnly(mc::richFloats()), mc::contexts<float>(3)); mc::add("orthogonal", sp->size(), [sp](u64 i, Ctx& c) { float l[3]; sp->decode(i, l); if (l[0] || l[1] || l[2]) orth(l, c); }); }
    int K = t ? 60 : 30; mc::add("orthogonal, orthogonal_branchless: integer directions", u64(2 * K + 1) * (2 * K + 1) * (2 * K + 1), [K](u64 i, Ctx& c) { mc::Radix r(i); float l[3]; double s = 0; for (int k = 0; k < 3; k++) { l[k] = float((int)r.take(2 * K + 1) - K); s += l[k] * l[k]; } if (s == 0) return; orth(l, c); float u[3]; for (int k = 0; k < 3; k++) u[k] = float(l[k] / std::sqrt(s)); orth(u, c); orthB(u, c); });
    mc::add("orthogonal_branchless: great circles through the axes", 3 * 200000, [](u64 i, Ctx& c) { double a = (i / 3) * (6.283185307179586 / 200000); float l[3]; int k = i % 3; l[k] = float(std::cos(a)); l[(k + 1) % 3] = float(std::sin(a)); l[(k + 2) % 3] = 0; orthB(l, c); orth(l, c); });
}
