// lookAt and quatLookAt against the frame of the definition.
#include "rot.hpp"
using namespace zcm;
static void look(const float* e, const float* ce, const float* up, Ctx& c) { D3 E = d3(e), C = d3(ce), U = d3(up), F = C - E; double lf = lend(F), lu = lend(U); if (lf < 1e-6 || lu < 1e-6) return; F = F * (1 / lf); D3 S = crossd(F, U); double sn = lend(S) / lu; if (sn < 0.03) return; S = unit(S); D3 V = crossd(S, F);
    double canc = (lend(E) + lend(C)) / lf; (void)canc; c.nt(std::fabs(F.x) > 1e-6 && std::fabs(F.y) > 1e-6);
    for (int rh = 0; rh < 2; rh++) { mat4 M = rh ? lookAtRH(mk<vec3>(e), mk<vec3>(ce), mk<vec3>(up)) : lookAtLH(mk<vec3>(e), mk<vec3>(ce), mk<vec3>(up)); float m[16]; rd(M, m); D3 row[3] = {rh ? S : S * -1, V, rh ? F * -1 : F}; bool ok = true; double tol = 14 * E24 / sn; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) ok = ok && std::fabs(m[j * 4 + i] - row[i][j]) <= tol; ok = ok && std::fabs(m[12 + i] + dotd(row[i], E)) <= (tol + 4 * E24) * (std::fabs(E.x) + std::fabs(E.y) + std::fabs(E.z)) && m[i * 4 + 3] == 0; } ok = ok && m[15] == 1;
        c.check(ok, [&] { return fmt("lookAt%s(eye %s, centre %s, up %s) = %s, expected rows %s %s %s, translation %s", rh ? "RH" : "LH", s3(E).c_str(), s3(C).c_str(), s3(U).c_str(), vs(m, 16).c_str(), s3(row[0]).c_str(), s3(row[1]).c_str(), s3(row[2]).c_str(), s3(D3{-dotd(row[0], E), -dotd(row[1], E), -dotd(row[2], E)}).c_str()); }); } }
static void qlook(D3 dir, const float* up, Ctx& c) { float d[3]; rd(v3(unit(dir)), d); D3 F = unit(d3(d)), U = d3(up); double lu = lend(U); if (lu < 1e-6) return; double sn = lend(crossd(F, U)) / lu; if (sn < 0.03) return; c.nt(std::fabs(F.x) > 1e-6 && std::fabs(F.y) > 1e-6);
    for (int rh = 0; rh < 2; rh++) { quat q = rh ? quatLookAtRH(mk<vec3>(d), mk<vec3>(up)) : quatLookAtLH(mk<vec3>(d), mk<vec3>(up)); DQ g = dq(q); DM R = matq(g); double tol = 24 * E24 / sn; bool unitq = std::fabs(lenq(g) - 1) <= 12 * E24 / sn; D3 z = mulv(R, D3{0, 0, rh ? -1. : 1.}), y = mulv(R, D3{0, 1, 0}), x = mulv(R, D3{1, 0, 0}); D3 V = unit(U - F * dotd(F, U)); bool ok = lend(z - F) <= tol && lend(y - V) <= tol && std::fabs(dotd(x, U)) / lu <= tol; c.check(ok && unitq, [&] { return fmt("quatLookAt%s(%s, up %s) = %s (length %.9g): forward axis %s, expected %s; y axis %s, expected %s", rh ? "RH" : "LH", vsx(d, 3).c_str(), s3(U).c_str(), sq(g).c_str(), lenq(g), s3(z).c_str(), s3(F).c_str(), s3(y).c_str(), s3(V).c_str()); }); } }
void registerFamilies() {
    bool th = mc::isThorough(); static std::vector<D3> dir = directions(2), ups = directions(2), eyes; eyes = {{0, 0, 0}, {1, -2, 3}, {-7.3, 0.2, 0.9}, {100, 50, -80}, {0, 0, 5}, {1e-3, 0, 0}}; static const double mag[] = {1, 0.01, 37.5, 1e4};
    static std::vector<D3> d4 = directions(th ? 7 : 5); 
    u64 D = dir.size(), U = ups.size(), E = eyes.size(), F = d4.size();
    mc::add("lookAt: eyes, directions, ups", E * F * U, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 e = eyes[r.take(E)], d = d4[r.take(F)], u = ups[r.take(U)]; float ef[3], cf[3], uf[3]; rd(v3(e), ef); rd(v3(e + d * mag[i % 4]), cf); rd(v3(u * (i % 3 ? 1 : 0.037)), uf); look(ef, cf, uf, c); });
    static std::vector<double> ds = [] { std::vector<double> r = mc::deltas(); r.push_back(0); return r; }(); u64 ND = ds.size(); static std::vector<D3> d1 = directions(1); u64 D1 = d1.size();
    mc::add("nearly special frames", D1 * D1 * ND * 4, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 d = d1[r.take(D1)], u = d1[r.take(D1)]; double x = ds[r.take(ND)]; int k = (int)r.take(4); D3 p{0.3, -1, 0.6}; if (k == 0) d = unit(d) * (1 + x); if (k == 1) u = unit(u) * (1 + x); if (k == 2) d = d + p * x; if (k == 3) { u = u - d * (dotd(u, d) / dotd(d, d)); if (lend(u) < 1e-6) return; u = unit(u) + d * x; } float e[3], ce[3], up[3]; for (int z = 0; z < 2; z++) { D3 E = z ? D3{1, -2, 3} : D3{0, 0, 0}; rd(v3(E), e); rd(v3(E + d), ce); rd(v3(u), up); look(e, ce, up, c); } qlook(d, up, c); });
    // the whole scene at other scales, and eyes of one scale looking at points of another
    mc::add("lookAt: scenes of every scale", 13 * 3 * F * 26, [=](u64 i, Ctx& c) { mc::Radix r(i); double s = std::pow(10., (int)r.take(13) - 4.), q = (double[]){1, 1e-3, 200}[r.take(3)]; D3 d = d4[r.take(F)], e = unit(d1[r.take(26) % d1.size()] + D3{0.1, 0.03, -0.2}) * s, u = ups[i % U]; float ef[3], cf[3], uf[3]; rd(v3(e), ef); rd(v3(e + d * (s * q)), cf); rd(v3(u * (double[]){1, 1e-4, 45, 3e6}[i / U % 4]), uf); look(ef, cf, uf, c); });
    mc::add("quatLookAt: ups of every length", F * U * 8, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 d = d4[r.take(F)], u = ups[r.take(U)]; float uf[3]; rd(v3((u + D3{0.02, -0.3, 0.11}) * (double[]){1e-5, 1e-4, 0.03, 7, 90, 2e4, 1e7, 3e9}[r.take(8)]), uf); qlook(d, uf, c); });
    int k = 1; u64 g = 3; mc::add("lookAt: all points of a grid", g * g * g * g * g * g * g * g * g, [k, g](u64 i, Ctx& c) { mc::Radix r(i); float p[9]; for (float& x : p) x = (int)r.take(g) - k; look(p, p + 3, p + 6, c); });
    std::vector<std::vector<float>> cx = {{1, 2, 3, 4, -5, 6, 0.1f, 1, 0.2f}, {0, 0, 0, 0, 0, -1, 0, 1, 0}, {-30, 2, 7, 11, 13, -17, 0, 0, 1}}; auto rich = mc::finiteOnly(mc::richFloats(), 1e6, 1e-4); auto sp = std::make_shared<LaneSpace<float>>(9, std::vector<float>(), rich, cx); mc::add("lookAt: deviations", sp->size(), [sp](u64 i, Ctx& c) { float p[9]; sp->decode(i, p); look(p, p + 3, p + 6, c); });
    mc::add("quatLookAt: directions, ups", F * U * 3, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 d = d4[r.take(F)], u = ups[r.take(U)]; double s[] = {1, 1e-3, 250}; float uf[3]; rd(v3(u * s[r.take(3)]), uf); qlook(d, uf, c); });
    u64 N = th ? 360 : 120; mc::add("quatLookAt: great circles", N * N * U, [=](u64 i, Ctx& c) { mc::Radix r(i); double a = r.take(N) * 2 * M_PI / N, b = r.take(N) * 2 * M_PI / N; D3 u = ups[r.take(U)]; float uf[3]; rd(v3(u), uf); qlook(D3{std::cos(a) * std::cos(b), std::sin(b), std::sin(a) * std::cos(b)}, uf, c); });
    (void)D; (void)dir;
}
