// lerp, nlerp, slerp.
#include "rot.hpp"
using namespace zcm;
static double l1(DQ a) { return std::fabs(a.x) + std::fabs(a.y) + std::fabs(a.z) + std::fabs(a.w); }
static void lin(DQ a0, DQ b0, float t, Ctx& c) { quat A = zq(a0), B = zq(b0); DQ a = dq(A), b = dq(B), e = a * (1 - double(t)) + b * double(t), g = dq(zcm::lerp(A, B, t)); auto ok1 = [&](double x, double y, double p, double q) { return std::fabs(x - y) <= 4 * E24 * (std::fabs(p) + std::fabs(q)) + 1e-37; }; bool ok = ok1(g.x, e.x, a.x, b.x) && ok1(g.y, e.y, a.y, b.y) && ok1(g.z, e.z, a.z, b.z) && ok1(g.w, e.w, a.w, b.w); if (t == 0) ok = ok && maxdiff(g, a) <= 2 * E24 * l1(b); if (t == 1) ok = ok && maxdiff(g, b) <= 2 * E24 * l1(a); c.nt(t != 0 && t != 1);
    c.check(ok, [&] { return fmt("lerp(%s, %s, %s) = %s, expected %s", sq(a).c_str(), sq(b).c_str(), fs(t).c_str(), sq(g).c_str(), sq(e).c_str()); });
    double m = lenq(e), sz = std::max(lenq(a), lenq(b)); if (m < 0.01 * sz || m < 1e-15) { if (m < 1e-5 * sz || m < 1e-15) return; } DQ n = dq(zcm::nlerp(A, B, t)), u = unit(e); double tol = 12 * E24 + 16 * E24 * sz / m; c.check(std::fabs(lenq(n) - 1) <= 12 * E24 && maxdiff(n, u) <= tol, [&] { return fmt("nlerp(%s, %s, %s) = %s (length %.9g), expected %s", sq(a).c_str(), sq(b).c_str(), fs(t).c_str(), sq(n).c_str(), lenq(n), sq(u).c_str()); }); }
static void sph(DQ a0, DQ b0, float t, Ctx& c) { quat A = zq(a0), B = zq(b0); DQ a = unit(dq(A)), b = unit(dq(B)); double d = dotq(a, b); DQ g = dq(zcm::slerp(A, B, t)); auto ref = [&](double sg) { DQ z = b * sg; // angle from the chord lengths: accurate for nearly equal ends
            double th = 2 * std::atan2(lenq(a + z * -1), lenq(a + z)); if (th < 1e-12) return a; return (a * (std::sin((1 - double(t)) * th) / std::sin(th))) + (z * (std::sin(t * th) / std::sin(th))); };
    DQ e = ref(d < 0 ? -1 : 1); double tol = 24 * E24; bool ok = maxdiff(g, e) <= tol || (std::fabs(d) < 1e-6 && maxdiff(g, ref(d < 0 ? 1 : -1)) <= tol); ok = ok && std::fabs(lenq(g) - 1) <= 24 * E24; c.nt(d < 0 && t != 0 && t != 1); c.check(ok, [&] { return fmt("slerp(%s, %s, %s) = %s (length %.9g), expected %s", sq(a).c_str(), sq(b).c_str(), fs(t).c_str(), sq(g).c_str(), lenq(g), sq(e).c_str()); }); }
void registerFamilies() {
    bool th = mc::isThorough(); static std::vector<DQ> qs = unitQuats(th ? 2 : 2); static std::vector<float> ts; for (int k = 0; k <= (th ? 32 : 12); k++) ts.push_back(k / (th ? 32.f : 12.f)); for (float f : {1e-7f, 1e-3f, 0.999f, 0.99999994f, 0.1f, 1e-5f, 0.99999f, 0.500001f, 0.4999f, 0.505f}) ts.push_back(f); for (float f : mc::dictFloats()) if (f >= 0 && f <= 1 && ts.size() < 48) ts.push_back(f); mc::uniq(ts); u64 Q = qs.size(), T = ts.size();
    mc::add("all pairs of unit quaternions", Q * Q * T, [=](u64 i, Ctx& c) { mc::Radix r(i); float t = ts[r.take(T)]; DQ a = qs[r.take(Q)], b = qs[r.take(Q)]; sph(a, b, t, c); lin(a, b, t, c); });
    static std::vector<DQ> q1 = unitQuats(1); u64 Q1 = q1.size(); mc::add("nearly equal, opposite and orthogonal ends", Q1 * Q1 * T * 72 * 3, [=](u64 i, Ctx& c) { mc::Radix r(i); float t = ts[r.take(T)]; DQ a = q1[r.take(Q1)], p = q1[r.take(Q1)]; double m = std::pow(10.0, -double(r.take(72)) / 8.); int k = (int)r.take(3); DQ base = a; if (k == 1) base = a * -1; if (k == 2) { base = DQ{-a.y, a.x, -a.w, a.z}; } DQ b = base + p * m; if (lenq(b) < 1e-6) return; b = unit(b); sph(a, b, t, c); lin(a, b, t, c); });
    // one geodesic in fine steps: constant speed
    u64 G = th ? 20001 : 2001; mc::add("fine factors", G * 40, [=](u64 i, Ctx& c) { DQ a = qs[(i % 40) * 13 % qs.size()], b = qs[((i % 40) * 37 + 11) % qs.size()]; float t = float(double(i / 40) / (G - 1)); sph(a, b, t, c); lin(a, b, t, c); });
    { auto sp = std::make_shared<LaneSpace<float>>(9, std::vector<float>{-3, 0, 0.25f}, mc::finiteOnly(mc::richFloats(), 1e17, 1e-17), std::vector<std::vector<float>>{{1, -2, 3, 4, 5, 0.6f, -7, 8, 0.3f}, {0.1f, 0.2f, -0.3f, 0.4f, -9, 10, 0, 1, 0.75f}}); mc::add("lerp, nlerp of any quaternions", sp->size(), [sp](u64 i, Ctx& c) { float l[9]; sp->decode(i, l); float t = l[8]; if (!(t >= 0 && t <= 1)) return; lin(DQ{l[0], l[1], l[2], l[3]}, DQ{l[4], l[5], l[6], l[7]}, t, c); }); }
}
