// Rotation semantics of unit quaternions.
#include "rot.hpp"
using namespace zcm;
static const std::vector<D3>& vecs() { static std::vector<D3> v = [] { std::vector<D3> r = directions(1); for (D3 d : {D3{1.5, -2.25, 7}, D3{1e-6, 2e-6, -3e-6}, D3{1e8, 0, -3e8}, D3{0.1, 0.2, 0.3}, D3{0, 0, 0}}) r.push_back(d); return r; }(); return v; }
static void act(DQ q0, D3 v, Ctx& c) { quat Q = zq(q0); DQ q = dq(Q); vec3 V = v3(v); v = d3(V); DM R = matq(q); D3 e = mulv(R, v); double tol = 16 * E24 * lend(v); 
    D3 a = d3(Q * V), b = d3(mat3_cast(Q) * V); float v4[4] = {float(v.x), float(v.y), float(v.z), 1}, r4[4]; rd(mat4_cast(Q) * mk<vec4>(v4), r4); D3 m{r4[0], r4[1], r4[2]}; DM T; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) T.m[j][i] = R.m[i][j]; D3 ie = mulv(T, v), iv = d3(V * Q); c.nt(lend(e - v) > 0.01 * lend(v));
    c.check(lend(a - e) <= tol && lend(b - e) <= tol && lend(m - e) <= tol && r4[3] == 1 && lend(iv - ie) <= tol, [&] { return fmt("q = %s, v = %s: q*v = %s, mat3_cast(q)*v = %s, mat4_cast(q)*v = %s w %.9g, expected %s; v*q = %s, expected %s", sq(q).c_str(), s3(v).c_str(), s3(a).c_str(), s3(b).c_str(), s3(m).c_str(), r4[3], s3(e).c_str(), s3(iv).c_str(), s3(ie).c_str()); }); }
static void mats(DQ q0, Ctx& c) { quat Q = zq(q0); DQ q = dq(Q); DM R = matq(q); float m[9], n[16]; rd(mat3_cast(Q), m); rd(mat4_cast(Q), n); bool ok = true; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) ok = ok && std::fabs(m[j * 3 + i] - R.m[j][i]) <= 12 * E24 && std::fabs(n[j * 4 + i] - R.m[j][i]) <= 12 * E24; for (int i = 0; i < 3; i++) ok = ok && n[i * 4 + 3] == 0 && n[12 + i] == 0; ok = ok && n[15] == 1; c.nt(true);
    c.check(ok, [&] { return fmt("mat3_cast(%s) = %s, mat4_cast = %s", sq(q).c_str(), vs(m, 9).c_str(), vs(n, 16).c_str()); });
    // axis and angle recover the rotation; the rounding of w limits them near the identity
    double s2 = std::max(0.0, 1 - q.w * q.w), sn = std::sqrt(s2); float g = zcm::angle(Q); D3 u = d3(zcm::axis(Q)); double w = q.w > 1 ? 1 : q.w < -1 ? -1 : q.w, ref = 2 * std::acos(w), atol = sn > 1e-2 ? 20 * E24 / sn + 8 * E24 : 3e-3; 
    c.check(std::fabs(g - ref) <= atol && g >= 0 && g <= 6.2831860, [&] { return fmt("angle(%s) = %s, expected %.9g (within %.2g)", sq(q).c_str(), fs(g).c_str(), ref, atol); });
    if (sn > 3e-3) { D3 r = D3{q.x, q.y, q.z} * (1 / sn); double t = 4 * E24 / s2 + 10 * E24; c.check(lend(u - r) <= t, [&] { return fmt("axis(%s) = %s, expected %s (within %.2g)", sq(q).c_str(), s3(u).c_str(), s3(r).c_str(), t); }); } else { double vl = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z); D3 r = vl > 0 ? D3{q.x, q.y, q.z} * (1 / vl) : u; double ul = lend(u); bool dir = s2 < 2.5e-7 || vl < 1e-4 || (ul > 0.5 && ul < 2 && lend(u * (1 / ul) - r) <= 1e-3);   // the length is as inexact as w, the direction is not
        c.check(u.x == u.x && u.y == u.y && u.z == u.z && ul < 1e4 && dir, [&] { return fmt("axis(%s) = %s, expected the direction of %s", sq(q).c_str(), s3(u).c_str(), s3(r).c_str()); }); }
    quat back = angleAxis(g, v3(unit(sn > 3e-3 ? u : D3{0, 0, 1}))); double bt = sn > 3e-3 ? 8 * E24 / s2 + 40 * E24 / sn : 1e-2; c.check(rotdiff(dq(back), q) <= bt, [&] { return fmt("angleAxis(angle(q), axis(q)) = %s for q = %s", sq(dq(back)).c_str(), sq(q).c_str()); }); }
static void aa(float a, D3 u, DQ q0, Ctx& c) { vec3 U = v3(unit(u)); D3 ud = d3(U); quat G = angleAxis(a, U); DQ g = dq(G), e = axisAngle(ud, a); double tol = 10 * E24; c.nt(a != 0); c.check(maxdiff(g, e) <= tol, [&] { return fmt("angleAxis(%s, %s) = %s, expected %s", fs(a).c_str(), s3(ud).c_str(), sq(g).c_str(), sq(e).c_str()); });
    DM R = matAxis(ud, a); for (D3 v : {D3{1, 2, -3}, D3{0.5, 0, 1}}) { D3 r = d3(G * v3(v)), x = mulv(R, v); c.check(lend(r - x) <= 24 * E24 * lend(v), [&] { return fmt("angleAxis(%s, %s) * %s = %s, expected %s", fs(a).c_str(), s3(ud).c_str(), s3(v).c_str(), s3(r).c_str(), s3(x).c_str()); }); }
    // rotate post-multiplies, axis of any length
    static const double mag[] = {1, 3.7, 1e-4, 1e6, 0.2, 1.02, 0.98, 1.0005}; for (double s : mag) { vec3 W = v3(u * s); quat Q = zq(q0); DQ q = dq(Q), x = mulq(q, axisAngle(d3(W), a)); DQ r = dq(zcm::rotate(Q, a, W)); c.check(maxdiff(r, x) <= 40 * E24, [&] { return fmt("rotate(%s, %s, %s) = %s, expected %s", sq(q).c_str(), fs(a).c_str(), s3(d3(W)).c_str(), sq(r).c_str(), sq(x).c_str()); }); } }
static void comp(DQ p, DQ q, Ctx& c) { quat P = zq(p), Q = zq(q); DM A = matq(dq(P)), B = matq(dq(Q)); for (D3 v : {D3{1, -2, 0.5}, D3{0.3, 4, 1}}) { vec3 V = v3(v); v = d3(V); D3 e = mulv(A, mulv(B, v)), x = d3((P * Q) * V), y = d3(P * (Q * V)), z = d3(mat3_cast(P) * (mat3_cast(Q) * V)), w = d3(mat3_cast(P * Q) * V); double t = 48 * E24 * lend(v); c.nt(true); c.check(lend(x - e) <= t && lend(y - e) <= t && lend(z - e) <= t && lend(w - e) <= t, [&] { return fmt("p = %s, q = %s, v = %s: (p*q)*v = %s, p*(q*v) = %s, by matrices %s and %s, expected %s", sq(p).c_str(), sq(q).c_str(), s3(v).c_str(), s3(x).c_str(), s3(y).c_str(), s3(z).c_str(), s3(w).c_str(), s3(e).c_str()); }); } }
void registerFamilies() {
    bool th = mc::isThorough(); static std::vector<DQ> qs = unitQuats(th ? 6 : 4), q2 = unitQuats(th ? 3 : 2); auto sp = specialQuats(); qs.insert(qs.end(), sp.begin(), sp.end()); q2.insert(q2.end(), sp.begin(), sp.end()); static std::vector<D3> di = directions(th ? 5 : 3); u64 Q = qs.size(), V = vecs().size(), Q2 = q2.size(), N = di.size();
    mc::add("q*v, v*q, casts", Q * V, [=](u64 i, Ctx& c) { act(qs[i / V], vecs()[i % V], c); }); static std::vector<DQ> q3 = unitQuats(1); static std::vector<float> fv = mc::finiteOnly(mc::richFloats(), 1e15, 1e-15); u64 F = fv.size(); mc::add("q*v over all vector components", q3.size() * F * F * 2, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = fv[r.take(F)], b = fv[r.take(F)]; DQ q = q3[r.take(q3.size())]; act(q, r.take(2) ? D3{a, b, -b} : D3{1, a, b}, c); });
    static std::vector<double> ds = mc::deltas(); for (double d : {1e-7, -1e-7, 1e-8, 1e-9}) ds.push_back(d); static std::vector<D3> ax1 = directions(2); mc::add("nearly special rotations", ax1.size() * ds.size() * 10, [](u64 i, Ctx& c) { mc::Radix r(i); D3 u = ax1[r.take(ax1.size())]; double d = ds[r.take(ds.size())]; double a = (double(r.take(10)) - 1) * M_PI / 4 + d; DQ q = axisAngle(u, a); mats(q, c); act(q, D3{1, -2, 0.5}, c); act(q, unit(u) * (1 + d), c); act(q, u + D3{d, 0, -d}, c); comp(q, axisAngle(u + D3{d, 0, 0.5 * d}, 1.1), c); aa(float(a), unit(u) * (1), DQ{0, 0, 0, 1}, c); });
    mc::add("matrices, axis, angle", Q, [=](u64 i, Ctx& c) { mats(qs[i], c); }); u64 G = th ? 400000 : 40000; mc::add("axis, angle along arcs", G * 13, [=](u64 i, Ctx& c) { static std::vector<D3> ax = directions(1); double a = double(i / 13) / G * 2 * M_PI; mats(axisAngle(ax[i % 13], a), c); });
    { // components rounded past one
      static std::vector<std::vector<float>> over; for (u32 d = 0; d < 8; d++) for (int s = -1; s <= 1; s += 2) for (float x : {0.f, 1e-8f, 1e-4f, 3e-4f}) over.push_back({x, 0, -x, s * mc::fromBits(0x3f800000u + d - 4)}); mc::add("w next to one", over.size(), [](u64 i, Ctx& c) { DQ q{over[i][0], over[i][1], over[i][2], over[i][3]}; if (std::fabs(lenq(q) - 1) < 1e-6) { float g = zcm::angle(zq(q)); double w = std::min(1.0, std::max(-1.0, q.w)); c.nt(true); c.check(std::fabs(g - 2 * std::acos(w)) <= 3e-3, [&] { return fmt("angle(%s) = %s", sq(q).c_str(), fs(g).c_str()); }); D3 u = d3(zcm::axis(zq(q))); c.check(lend(u) < 1e4, [&] { return fmt("axis(%s) = %s", sq(q).c_str(), s3(u).c_str()); }); } }); }
    static std::vector<float> an; for (int k = -48; k <= 48; k++) { an.push_back(float(k * M_PI / 24)); an.push_back(0.137f * k); } for (float f : {1e-8f, 1e-5f, 1e-3f, 7.f, -12.5f, 3.1415925f}) an.push_back(f); for (float f : mc::dictFloats()) if (std::fabs(f) < 100) an.push_back(f); mc::uniq(an); u64 A = an.size();
    mc::add("angleAxis, rotate", A * N * 3, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = an[r.take(A)]; D3 u = di[r.take(N)]; aa(a, u, q2[r.take(3) * (Q2 / 3) + i % 7], c); });
    mc::add("composition", Q2 * Q2, [=](u64 i, Ctx& c) { comp(q2[i % Q2], q2[i / Q2], c); });
}
