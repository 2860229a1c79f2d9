// Projections: the corners of the view volume go to the corners of the clip volume.
#include "rot.hpp"
using namespace zcm;
struct Fn { const char* n; mat4 (*o)(float, float, float, float, float, float); mat4 (*p)(float, float, float, float); bool rh, zo; };
static mat4 pw(mat4 (*f)(float, float, float, float), float a, float b, float c, float d) { return f(a, b, c, d); }
static const Fn fns[] = {
    {"orthoLH_ZO", [](float a, float b, float c, float d, float e, float f) { return orthoLH_ZO(a, b, c, d, e, f); }, nullptr, false, true}, {"orthoRH_ZO", [](float a, float b, float c, float d, float e, float f) { return orthoRH_ZO(a, b, c, d, e, f); }, nullptr, true, true},
    {"orthoLH_NO", [](float a, float b, float c, float d, float e, float f) { return orthoLH_NO(a, b, c, d, e, f); }, nullptr, false, false}, {"orthoRH_NO", [](float a, float b, float c, float d, float e, float f) { return orthoRH_NO(a, b, c, d, e, f); }, nullptr, true, false},
    {"perspectiveLH_ZO", nullptr, [](float a, float b, float c, float d) { return perspectiveLH_ZO(a, b, c, d); }, false, true}, {"perspectiveRH_ZO", nullptr, [](float a, float b, float c, float d) { return perspectiveRH_ZO(a, b, c, d); }, true, true},
    {"perspectiveLH_NO", nullptr, [](float a, float b, float c, float d) { return perspectiveLH_NO(a, b, c, d); }, false, false}, {"perspectiveRH_NO", nullptr, [](float a, float b, float c, float d) { return perspectiveRH_NO(a, b, c, d); }, true, false}};
static void app(const float* m, D3 p, Tm* r) { for (int w = 0; w < 4; w++) { r[w] = Tm(); r[w].add(m[w] * p.x); r[w].add(m[4 + w] * p.y); r[w].add(m[8 + w] * p.z); r[w].add(m[12 + w]); } }
// clip position of a view-space point: expected normalised device coordinates (z may be NAN: only bounded)
static bool hit(const float* m, D3 p, D3 e, double k) { Tm r[4]; app(m, p, r); if (!(r[3].v > 0)) return false; for (int w = 0; w < 3; w++) if (!(std::fabs(r[w].v / r[3].v - e[w]) <= k * E24 * (r[w].t / r[3].v + std::fabs(e[w])) + 1e-30)) return false; return true; }
static void ortho6(const Fn& f, const float* a, Ctx& c) { float l = a[0], r = a[1], b = a[2], t = a[3], n = a[4], fa = a[5]; if (l == r || b == t || n == fa) return; float m[16]; rd(f.o(l, r, b, t, n, fa), m); bool ok = true, w1 = true; double sg = f.rh ? -1 : 1; 
    for (int k = 0; k < 8 && ok; k++) { D3 p{k & 1 ? r : l, k & 2 ? t : b, sg * (k & 4 ? fa : n)}; D3 e{k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 1. : f.zo ? 0. : -1.}; ok = hit(m, p, e, 10); Tm q[4]; app(m, p, q); w1 = w1 && q[3].v == 1; }
    // strictly increasing along the depth: four steps between the planes
    double last = -INFINITY; bool inc = true; for (int s = 0; s <= 4; s++) { double z = sg * (n + (double(fa) - n) * s / 4); double v = m[10] * z + m[14]; inc = inc && v > last; last = v; }
    c.nt(l + r != 0 || b + t != 0); c.check(ok && w1 && inc, [&] { return fmt("%s(%s) = %s: corners %s, w = 1 %s, depth increasing %s", f.n, vsx(a, 6).c_str(), vs(m, 16).c_str(), ok ? "right" : "WRONG", w1 ? "yes" : "NO", inc ? "yes" : "NO"); }); }
static void ortho4(const float* a, Ctx& c) { float l = a[0], r = a[1], b = a[2], t = a[3]; if (l == r || b == t) return; float m[16]; rd(zcm::ortho(l, r, b, t), m); bool ok = true; for (int k = 0; k < 4 && ok; k++) for (double z : {-1., 0., 1.}) ok = ok && hit(m, D3{k & 1 ? r : l, k & 2 ? t : b, z}, D3{k & 1 ? 1. : -1., k & 2 ? 1. : -1., -z}, 10) && m[3] == 0 && m[7] == 0 && m[11] == 0 && m[15] == 1; c.nt(l + r != 0); c.check(ok, [&] { return fmt("ortho(%s) = %s", vsx(a, 4).c_str(), vs(m, 16).c_str()); }); }
static void persp(const Fn& f, float fov, float asp, float n, float fa, Ctx& c) { if (n == fa) return; float m[16]; rd(f.p(fov, asp, n, fa), m); double sg = f.rh ? -1 : 1, th = std::tan(double(fov) / 2); bool ok = true; for (int k = 0; k < 8 && ok; k++) { double d = k & 4 ? fa : n; D3 p{(k & 1 ? 1 : -1) * d * th * asp, (k & 2 ? 1 : -1) * d * th, sg * d}; D3 e{k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 1. : f.zo ? 0. : -1.}; ok = hit(m, p, e, 12 + 4 * std::fabs(fov)); }
    double last = -INFINITY; bool inc = true, w = true; for (int s = 0; s <= 8; s++) { double d = n * std::pow(double(fa) / n, s / 8.); Tm q[4]; app(m, D3{0, 0, sg * d}, q); inc = inc && (q[2].v / q[3].v > last || std::fabs(double(fa) / n - 1) < 1e-4); last = q[2].v / q[3].v; w = w && q[3].v > 0; app(m, D3{0, 0, -sg * d}, q); w = w && q[3].v < 0; }
    c.nt(asp != 1); c.check(ok && inc && w, [&] { return fmt("%s(fovy %s, aspect %s, near %s, far %s) = %s: corners %s, depth increasing %s, w positive in front and negative behind %s", f.n, fs(fov).c_str(), fs(asp).c_str(), fs(n).c_str(), fs(fa).c_str(), vs(m, 16).c_str(), ok ? "right" : "WRONG", inc ? "yes" : "NO", w ? "yes" : "NO"); }); }
void registerFamilies() {
    bool th = mc::isThorough(); 
    static std::vector<float> sm = {-3, -1, 0, 0.1f, 2, 10}; if (th) for (float f : {-640.f, 7.5f, 1e-3f}) sm.push_back(f); u64 S = sm.size(), T = S * S * S * S * S * S;
    for (int i = 0; i < 4; i++) { const Fn* f = &fns[i]; mc::add(std::string(f->n) + " volumes", T, [f, S](u64 k, Ctx& c) { mc::Radix r(k); float a[6]; for (float& x : a) x = sm[r.take(S)]; ortho6(*f, a, c); });
        mc::add(std::string(f->n) + " nearly symmetric volumes", mc::deltas().size() * mc::deltas().size() * 6, [f](u64 k, Ctx& c) { mc::Radix r(k); u64 n = mc::deltas().size(); double d = mc::deltas()[r.take(n)], e = mc::deltas()[r.take(n)]; int z = (int)r.take(6); float a[6] = {-4, 4, -3, 3, -1, 1}; if (z == 4) { a[4] = 0; a[5] = 1; } if (z == 5) for (float& x : a) x *= 0.25f; a[z % 6] *= float(1 + d); a[(z + 1) % 6] *= float(1 + e); ortho6(*f, a, c); });
        std::vector<std::vector<float>> cx = {{-2, 5, -7, 3, 0.5f, 100}, {640, 0, 480, 0, -1, 1}, {-1, 1, -1, 1, -1, 1}, {1e3f, 1.001e3f, 20, 30, 10, 11}}; auto sp = std::make_shared<LaneSpace<float>>(6, std::vector<float>(), mc::finiteOnly(mc::richFloats(), 1e9, 1e-9), cx); mc::add(std::string(f->n) + " deviations", sp->size(), [f, sp](u64 k, Ctx& c) { float a[6]; sp->decode(k, a); ortho6(*f, a, c); }); }
    { auto sp = std::make_shared<LaneSpace<float>>(4, std::vector<float>{-640, -3, -1, 0, 0.1f, 1, 2, 7.5f, 10, 800}, mc::finiteOnly(mc::richFloats(), 1e9, 1e-9), std::vector<std::vector<float>>{{-2, 5, -7, 3}, {640, 0, 480, 0}, {-1, 1, -1, 1}}); mc::add("ortho rectangles", sp->size(), [sp](u64 k, Ctx& c) { float a[4]; sp->decode(k, a); ortho4(a, c); }); }
    static std::vector<float> fov, asp, z; for (int k = 1; k < (th ? 120 : 60); k++) fov.push_back(float(k * M_PI / (th ? 120 : 60))); for (float f : {1e-3f, 0.05f, 3.1f}) fov.push_back(f); for (float f : mc::dictFloats()) if (f > 1e-3 && f < 3.1) fov.push_back(f); for (float f : {1.f, 4 / 3.f, 16 / 9.f, 0.5f, 0.01f, 100.f, 1.25f, 2.39f}) asp.push_back(f); for (double d : mc::deltas()) asp.push_back(float(1 + d)); for (float f : mc::dictFloats()) if (f > 1e-3 && f < 1e3 && asp.size() < 56) asp.push_back(f); for (float f : {1e-3f, 0.01f, 0.1f, 0.5f, 1.f, 1.5f, 2.f, 3.f, 10.f, 99.f, 100.f, 1000.f, 1e4f}) z.push_back(f); if (th) for (float f : {0.25f, 7.f, 33.3f, 5e4f, 1e5f}) z.push_back(f);
    for (float f : mc::dictFloats()) if (f > 1e-3 && f < 1e4 && z.size() < 24) z.push_back(f);
    mc::uniq(fov); mc::uniq(asp); mc::uniq(z); u64 F = fov.size(), A = asp.size(), Z = z.size();
    static std::vector<float> nz, rt, fx, ax; for (double d = 1e-9; d < 2e7; d *= 6.3) nz.push_back(float(d)); for (double d : {1.0003, 1.02, 1.3, 3., 47., 3e3, 1.1e5, 2e6, 4e7, 1e9}) rt.push_back(float(d)); for (double d : {1e-5, 3e-3, 0.7, 1.5707964, 2.4, 3.13}) fx.push_back(float(d)); for (double d : {1e-4, 0.3, 1., 1.7, 40., 5e4}) ax.push_back(float(d));
    for (int i = 4; i < 8; i++) { const Fn* f = &fns[i]; u64 n = nz.size(), m = rt.size(); mc::add(std::string(f->n) + " volumes of every scale and ratio", n * m * 36, [f, n, m](u64 k, Ctx& c) { mc::Radix r(k); float a = nz[r.take(n)], b = rt[r.take(m)], x = fx[r.take(6)]; persp(*f, x, ax[r.take(6)], a, a * b, c); }); }
    for (int i = 4; i < 8; i++) { const Fn* f = &fns[i]; mc::add(std::string(f->n) + " volumes", F * A * Z * Z, [f, F, A, Z](u64 k, Ctx& c) { mc::Radix r(k); float a = fov[r.take(F)], b = asp[r.take(A)], n = z[r.take(Z)], fa = z[r.take(Z)]; if (n < fa) persp(*f, a, b, n, fa, c); }); }
}
