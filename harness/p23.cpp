// decompose_orthogonal of composed matrices.
#include "rot.hpp"
using namespace zcm;
static void dec(DQ q, D3 s, D3 t, Ctx& c) { DM R = matq(q); float m[16] = {}; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) m[j * 4 + i] = float(R.m[j][i] * s[j]); float tf[3] = {float(t.x), float(t.y), float(t.z)}; for (int i = 0; i < 3; i++) m[12 + i] = tf[i]; m[15] = 1;
    vec3 sc(7.f, 8.f, 9.f), tr(4.f, 5.f, 6.f); quat o; float garbage[4] = {NAN, 3, -2, 1e9f}; o = mk<quat>(garbage); mat4 M = mk<mat4>(m); decompose_orthogonal(M, sc, o, tr); float sg[3], tg[3], m2[16]; rd(sc, sg); rd(tr, tg); rd(M, m2); DQ g = dq(o); DM G = matq(g); 
    bool trOk = tg[0] == tf[0] && tg[1] == tf[1] && tg[2] == tf[2], uOk = std::fabs(lenq(g) - 1) <= 16 * E24, scOk = true, mOk = true, kept = std::memcmp(m, m2, sizeof m) == 0; 
    for (int j = 0; j < 3; j++) { double ln = lend(D3{m[j * 4], m[j * 4 + 1], m[j * 4 + 2]}); scOk = scOk && std::fabs(std::fabs(sg[j]) - ln) <= 8 * E24 * ln; for (int i = 0; i < 3; i++) mOk = mOk && std::fabs(G.m[j][i] * sg[j] - m[j * 4 + i]) <= 32 * E24 * ln; }
    bool pos = s.x * s.y * s.z > 0; for (int j = 0; j < 3; j++) scOk = scOk && (pos ? sg[j] > 0 : sg[j] < 0);
    c.nt(!(s.x == 1 && s.y == 1 && s.z == 1)); c.check(trOk && uOk && scOk && mOk && kept, [&] { return fmt("decompose_orthogonal of rotation %s, scale %s, translation %s: scale %s (%s), orientation %s length %.9g (%s), translation %s (%s), recomposed matrix %s", sq(q).c_str(), s3(s).c_str(), s3(t).c_str(), vs(sg, 3).c_str(), scOk ? "ok" : "WRONG", sq(g).c_str(), lenq(g), uOk ? "ok" : "WRONG", vs(tg, 3).c_str(), trOk ? "ok" : "WRONG", mOk ? "ok" : "WRONG"); }); }
void registerFamilies() {
    bool th = mc::isThorough(); static std::vector<DQ> qs = unitQuats(th ? 7 : 5); { auto sp = specialQuats(); qs.insert(qs.end(), sp.begin(), sp.end()); } static std::vector<DQ> q2 = unitQuats(2); { auto sp = specialQuats(); q2.insert(q2.end(), sp.begin(), sp.end()); }
    static std::vector<D3> sc = {{1, 1, 1}, {2, 0.5, 3}, {1e-3, 10, 700}, {0.1, 0.1, 0.1}, {1e5, 1e-5, 1}, {-1, 1, 1}, {2, -3, 0.25}, {-2, -2, -2}, {-1, -4, 1}}; static std::vector<D3> tr = {{0, 0, 0}, {1, -2, 3}, {1e6, -1e-6, 0.1}};
    u64 Q = qs.size(), S = sc.size(), T = tr.size(); mc::add("rotations, scales, translations", Q * S * T, [=](u64 i, Ctx& c) { mc::Radix r(i); DQ q = qs[r.take(Q)]; D3 s = sc[r.take(S)], t = tr[r.take(T)]; dec(q, s, t, c); });
    static std::vector<double> ds = [] { std::vector<double> r = mc::deltas(); r.push_back(0); return r; }(); u64 ND = ds.size(); mc::add("nearly unit and nearly equal scales", q2.size() * ND * 8, [=](u64 i, Ctx& c) { mc::Radix r(i); DQ q = q2[r.take(q2.size())]; double d = ds[r.take(ND)]; int k = (int)r.take(8); double m = k & 4 ? 3 : 1; D3 s{m, m, m}; if (k % 4 == 3) s = s * (1 + d); else s[k % 4] *= 1 + d; D3 t{d, k & 1 ? 1 + d : 0, k & 2 ? -5 : 0}; dec(q, s, t, c); });
    static std::vector<double> al; for (float f : mc::finiteOnly(mc::richFloats(), 1e6, 1e-6)) if (f != 0) al.push_back(f); u64 A = al.size(), Q2 = q2.size(); mc::add("rotations, every scale value on one axis", Q2 * A * 3, [=](u64 i, Ctx& c) { mc::Radix r(i); DQ q = q2[r.take(Q2)]; D3 s{1, 2, 0.5}; double v = al[r.take(A)]; s[(int)r.take(3)] = v; dec(q, s, D3{v, -v, v / 3}, c); });
}
