// Quaternions from pairs of vectors, Euler angles and matrices.
#include "rot.hpp"
using namespace zcm;
static void uv(D3 u0, D3 v0, Ctx& c) { vec3 U = v3(u0), V = v3(v0); D3 u = unit(d3(U)), v = unit(d3(V)); quat Q(U, V); DQ q = dq(Q); double del = lend(u + v); double tol = del < 4e-3 ? 3e-3 : 16 * E24 + 16 * E24 / del + (del < 0.1 ? 8 * E24 / (del * del) : 0); if (tol > 3e-3) tol = 3e-3; D3 r = mulv(matq(q), u), z = d3(Q * v3(u)); c.nt(lend(u - v) > 1e-3); bool un = std::fabs(lenq(q) - 1) <= 12 * E24;
    // the rotation is the direct one: its axis is orthogonal to both vectors
    double orth = std::max(std::fabs(dotd(D3{q.x, q.y, q.z}, u)), std::fabs(dotd(D3{q.x, q.y, q.z}, v))); bool ok = un && lend(r - v) <= tol && lend(z - v) <= tol + 24 * E24 && orth <= tol + 24 * E24;
    c.check(ok, [&] { return fmt("quat(%s, %s) = %s (length %.9g) rotates the first direction to %s, expected %s (within %.2g)", s3(d3(U)).c_str(), s3(d3(V)).c_str(), sq(q).c_str(), lenq(q), s3(r).c_str(), s3(v).c_str(), tol); }); }
static void cast(DQ q0, Ctx& c) { DM R = matq(q0); float m[9], n[16]; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) n[j * 4 + i] = m[j * 3 + i] = float(R.m[j][i]); static const float rim[4][7] = {{0, 0, 0, -40, -36.5f, -33, 1}, {0.5f, -2, 3, 1e-3f, 7, -1, 2}, {-1, 0, 1e10f, 0, 0, 0, 0}, {0, 0, 0, 1, 2, 3, -0.5f}}; // fourth row, fourth column and corner have no part
    for (int f = 0; f < 5; f++) { if (f) { for (int i = 0; i < 3; i++) { n[i * 4 + 3] = rim[f - 1][i]; n[12 + i] = rim[f - 1][3 + i]; } n[15] = rim[f - 1][6]; } quat g = f ? quat_cast(mk<mat4>(n)) : quat_cast(mk<mat3>(m)); DQ q = dq(g); c.nt(true); c.check(std::fabs(lenq(q) - 1) <= 8 * E24 && rotdiff(q, unit(q0)) <= 8 * E24, [&] { return fmt("quat_cast(%s of %s) = %s (length %.9g)", f ? "mat4" : "mat3", sq(q0).c_str(), sq(q).c_str(), lenq(q)); }); } 
    float b[9]; rd(mat3_cast(quat_cast(mk<mat3>(m))), b); bool ok = true; for (int k = 0; k < 9; k++) ok = ok && std::fabs(b[k] - m[k]) <= 32 * E24; c.check(ok, [&] { return fmt("mat3_cast(quat_cast(%s)) = %s", vs(m, 9).c_str(), vs(b, 9).c_str()); });
    quat Q = zq(q0), k = quat_cast(mat3_cast(Q)), l = quat_cast(mat4_cast(Q)); c.check(rotdiff(dq(k), dq(Q)) <= 24 * E24 && rotdiff(dq(l), dq(Q)) <= 24 * E24, [&] { return fmt("quat_cast(mat3_cast(%s)) = %s, through mat4 %s", sq(q0).c_str(), sq(dq(k)).c_str(), sq(dq(l)).c_str()); }); }
static double wrap(double a) { return std::remainder(a, 2 * M_PI); }
static void eul(float p, float y, float r, Ctx& c) { float e[3] = {p, y, r}; quat Q(mk<vec3>(e)); DQ q = dq(Q), x = mulq(mulq(axisAngle({0, 0, 1}, r), axisAngle({0, 1, 0}, y)), axisAngle({1, 0, 0}, p)); c.nt(p != 0 && y != 0 && r != 0); c.check(maxdiff(q, x) <= 10 * E24, [&] { return fmt("quat(euler %s) = %s, expected %s", vsx(e, 3).c_str(), sq(q).c_str(), sq(x).c_str()); });
    double cy = std::fabs(std::cos(double(y))); if (cy < 1e-4) return; double tol = 32 * E24 / cy; float g[3]; rd(eulerAngles(Q), g); float pi = zcm::pitch(Q), ya = zcm::yaw(Q), ro = zcm::roll(Q); DQ back = mulq(mulq(axisAngle({0, 0, 1}, g[2]), axisAngle({0, 1, 0}, g[1])), axisAngle({1, 0, 0}, g[0])); bool ok = rotdiff(back, unit(q)) <= tol && std::fabs(wrap(g[0] - pi)) <= tol && std::fabs(wrap(g[1] - ya)) <= tol && std::fabs(wrap(g[2] - ro)) <= tol;
    if (std::cos(double(y)) > 0) ok = ok && std::fabs(wrap(double(pi) - p)) <= tol && std::fabs(wrap(double(ro) - r)) <= tol && std::fabs(ya - wrap(y)) <= tol; quat Q2(mk<vec3>(g)); ok = ok && rotdiff(dq(Q2), q) <= tol + 16 * E24;
    c.check(ok, [&] { return fmt("euler %s: quaternion %s, eulerAngles %s, pitch %.9g yaw %.9g roll %.9g (tolerance %.2g)", vs(e, 3).c_str(), sq(q).c_str(), vs(g, 3).c_str(), pi, ya, ro, tol); }); }
// At gimbal lock itself the angles are not unique, but they still describe the same rotation. The attitudes taken have components
// +-1/2, so that every product and sum of the conversion is exact in any order.
static void eulLock(u64 i, Ctx& c) { DQ q{i & 1 ? -.5 : .5, i & 2 ? -.5 : .5, i & 4 ? -.5 : .5, i & 8 ? -.5 : .5}; if (std::fabs(q.x * q.z - q.w * q.y) != 0.5) return; float g[3]; rd(eulerAngles(zq(q)), g); DQ back = mulq(mulq(axisAngle({0, 0, 1}, g[2]), axisAngle({0, 1, 0}, g[1])), axisAngle({1, 0, 0}, g[0])); c.nt(true);
    c.check(rotdiff(back, q) <= 1e-5, [&] { return fmt("eulerAngles(%s) = %s at gimbal lock: rotation %s", sq(q).c_str(), vs(g, 3).c_str(), sq(back).c_str()); }); }
// Euler angles of any quaternion, also on the other sheet
static void eulq(DQ q0, Ctx& c) { quat Q = zq(q0); DQ q = dq(Q); double sx = 2 * (q.y * q.z + q.w * q.x), sw = q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z, cy2 = sx * sx + sw * sw; if (cy2 < 1e-8) return; double tol = 32 * E24 / std::sqrt(cy2); float g[3]; rd(eulerAngles(Q), g); DQ back = mulq(mulq(axisAngle({0, 0, 1}, g[2]), axisAngle({0, 1, 0}, g[1])), axisAngle({1, 0, 0}, g[0])); float pi = zcm::pitch(Q), ya = zcm::yaw(Q), ro = zcm::roll(Q); c.nt(true); c.check(rotdiff(back, q) <= tol && std::fabs(wrap(g[0] - pi)) <= tol && std::fabs(wrap(g[1] - ya)) <= tol && std::fabs(wrap(g[2] - ro)) <= tol, [&] { return fmt("eulerAngles(%s) = %s, pitch %.9g yaw %.9g roll %.9g: rotation %s", sq(q).c_str(), vs(g, 3).c_str(), pi, ya, ro, sq(back).c_str()); }); }
void registerFamilies() {
    bool th = mc::isThorough(); static std::vector<D3> di = directions(th ? 4 : 3), d1 = directions(2); u64 N = di.size(), N1 = d1.size(); static const double mg[] = {1, 1e-3, 250, 0.3};
    mc::add("quat(u, v): all pairs of directions", N * N * 4, [=](u64 i, Ctx& c) { mc::Radix r(i); int m = (int)r.take(4); D3 a = di[r.take(N)], b = di[r.take(N)]; uv(a * mg[m], b * mg[(m * 3 + i / 4) % 4], c); });
    mc::add("quat(u, v): nearly parallel and nearly opposite", N1 * N1 * 40 * 2, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 a = d1[r.take(N1)], b = d1[r.take(N1)]; int k = (int)r.take(40); bool opp = r.take(2); D3 pert = unit(b) * (lend(a) * std::pow(10.0, -k / 4.)); D3 v = a * (opp ? -1 : 1) + pert; if (lend(v) < 1e-6) return; static const double s[] = {1, 7.5, 1e-3}; uv(a, v * s[i % 3], c); });
    static std::vector<double> ds = [] { std::vector<double> r = mc::deltas(); r.push_back(0); return r; }(); u64 ND = ds.size(); mc::add("quat(u, v): nearly unit, nearly orthogonal", N1 * N1 * ND * 3, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 a = unit(d1[r.take(N1)]), b = unit(d1[r.take(N1)]); double d = ds[r.take(ND)]; int k = (int)r.take(3); if (k == 0) a = a * (1 + d); if (k == 1) b = b * (1 + d); if (k == 2) { D3 o = crossd(a, b); if (lend(o) < 1e-6) return; b = unit(o) + a * d; } uv(a, b, c); });
    static std::vector<float> an2; for (int k = -4; k <= 4; k++) for (double d : ds) an2.push_back(float(k * M_PI / 4 + d)); mc::uniq(an2); u64 A2 = an2.size(); mc::add("Euler angles nearly special", A2 * A2 * 3 * 5, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = an2[r.take(A2)], b = an2[r.take(A2)]; int k = (int)r.take(3); float o = (float[]){0.f, 0.6f, -2.f, 1.5707964f, 1e-4f}[r.take(5)]; if (k == 0) eul(a, b, o, c); else if (k == 1) eul(o, a, b, c); else eul(a, o, b, c); });
    static std::vector<double> sp; for (double d : {0., 1., -1., 1e-3, -2.5, 0.7}) sp.push_back(d); u64 S = sp.size(); mc::add("quat(u, v): component grid", S * S * S * S * S * S, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 a{sp[r.take(S)], sp[r.take(S)], sp[r.take(S)]}, b{sp[r.take(S)], sp[r.take(S)], sp[r.take(S)]}; if (lend(a) == 0 || lend(b) == 0) return; uv(a, b, c); });
    mc::add("eulerAngles at gimbal lock", 16, eulLock);
    // small angles of every size together, and attitudes close to gimbal lock
    static std::vector<float> sma; for (double d = 1e-5; d < 1; d *= 1.9) { sma.push_back(float(d)); sma.push_back(float(-d * 1.3)); } u64 SA = sma.size(); mc::add("Euler angles, all small", SA * SA * SA, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = sma[r.take(SA)], b = sma[r.take(SA)]; eul(a, b, sma[r.take(SA)], c); });
    mc::add("Euler angles close to gimbal lock", 24 * 24 * 40 * 2, [=](u64 i, Ctx& c) { mc::Radix r(i); double p = (int(r.take(24)) - 12) * 0.26 + 0.07, o = (int(r.take(24)) - 12) * 0.26 - 0.04, d = std::pow(10., -int(r.take(40)) / 10.); eul(float(p), float((r.take(2) ? -1 : 1) * (M_PI / 2 - d)), float(o), c); });
    static std::vector<DQ> qs = unitQuats(th ? 8 : 6); auto s2 = specialQuats(); qs.insert(qs.end(), s2.begin(), s2.end()); { auto l = leaningQuats(th); qs.insert(qs.end(), l.begin(), l.end()); } mc::add("quat_cast", qs.size(), [](u64 i, Ctx& c) { cast(qs[i], c); }); mc::add("eulerAngles of quaternions", qs.size(), [](u64 i, Ctx& c) { eulq(qs[i], c); });
    static std::vector<float> an; int n = th ? 36 : 18; for (int k = -n; k <= n; k++) an.push_back(float(k * M_PI / n)); for (float f : {1e-6f, 0.01f, -0.02f, 1.55f, -1.5f, 1.6f, 3.1f, 0.7f, 2.f}) an.push_back(f); for (float f : mc::dictFloats()) if (std::fabs(f) < 3.1 && an.size() < 80) an.push_back(f); mc::uniq(an); u64 A = an.size(); mc::add("Euler angles", A * A * A, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = an[r.take(A)], b = an[r.take(A)]; eul(a, b, an[r.take(A)], c); });
}
