// determinant, adjugate, inverse, their transposes and the division operators.
#include "mats.hpp"
using namespace zcm;
#define LIST(p, n) vs(p, n).c_str()
template<int D> struct Inv { typedef typename MT<D>::M M; typedef typename MT<D>::V V; enum { N = D * D };
    static std::string nm() { return Tr<M>::name(); }
    static void near(const char* f, const M& got, const Tm* r, double k, bool ex, const float* a, Ctx& c) { float p[N]; rd(got, p); c.check(nearTm(p, r, N, k, ex), [&] { return fmt("%s(%s %s) = %s, expected %s", f, nm().c_str(), vsx(a, N).c_str(), LIST(p, N), tms(r, N).c_str()); }); }
    static void inv(const float* a, bool fr, Ctx& c, const float* b_ = nullptr, const float* v_ = nullptr) { if (!bounded(a, N, 1e7, 1e-7)) return; double m[N]; for (int k = 0; k < N; k++) m[k] = a[k]; M A = mk<M>(a); bool ex = dyadic(a, N, 16);
        Tm d = detRef<D>(m), adj[N], adjT[N]; adjRef<D>(m, adj); for (int k = 0; k < N; k++) adjT[k % D * D + k / D] = adj[k];
        float g = determinant(A); c.check(nearTm(&g, &d, 1, 4 * D, ex), [&] { return fmt("determinant(%s %s) = %s, expected %.9g", nm().c_str(), vsx(a, N).c_str(), fs(g).c_str(), d.v); }); c.nt(fr && d.v != 0);
        near("adjugate", adjugate(A), adj, 4 * D, ex, a, c); near("adjugateTranspose", adjugateTranspose(A), adjT, 4 * D, ex, a, c);
        if (ex) { float p[N], q[N], e[N]; rd(A * adjugate(A), p); rd(adjugate(A) * A, q); rd(M(float(d.v)), e); bool ok = true; for (int k = 0; k < N; k++) ok = ok && p[k] == e[k] && q[k] == e[k]; c.check(ok, [&] { return fmt("%s m = %s: m*adjugate(m) = %s, adjugate(m)*m = %s, determinant %.9g", nm().c_str(), LIST(a, N), LIST(p, N), LIST(q, N), d.v); }); }
        if (!(std::fabs(d.v) > 1e-2 * d.t) || std::fabs(d.v) < 1e-30) return;   // well conditioned only
        // relative error of the quotient: that of the determinant plus that of the minor
        double rel = 8 * D * E24 * d.t / std::fabs(d.v); Tm I[N], IT[N]; for (int k = 0; k < N; k++) { I[k].v = adj[k].v / d.v; I[k].t = (std::fabs(I[k].v) * rel + 4 * D * E24 * adj[k].t / std::fabs(d.v) + 4 * E24 * std::fabs(I[k].v)) / E24; } for (int k = 0; k < N; k++) IT[k % D * D + k / D] = I[k];
        M Z = inverse(A); near("inverse", Z, I, 1, false, a, c); near("inverseTranspose", inverseTranspose(A), IT, 1, false, a, c);
        // division: b / m = b * inverse(m), m / v = inverse(m) * v, v / m = v * inverse(m)
        float b[N]; for (int k = 0; k < N; k++) b[k] = b_ ? b_[k] : float((k * 7 + 3) % 11) - 4.5f; M B = mk<M>(b); Tm R[N]; for (int cc = 0; cc < D; cc++) for (int w = 0; w < D; w++) { Tm t; double sl = 0; for (int k = 0; k < D; k++) { t.add(I[k * 0 + cc * D + k].v * b[k * D + w]); sl += I[cc * D + k].t * std::fabs(b[k * D + w]); } t.t = 2 * D * t.t + sl; R[cc * D + w] = t; }
        near(b_ ? "operator/ (varied dividend)" : "operator/ (fixed dividend)", B / A, R, 1, false, a, c); { M T = B; T /= A; near("operator/=", T, R, 1, false, a, c); }
        { M T = A; T /= A; float p[N]; rd(T, p); bool ok = true; double tol = 0; for (int cc = 0; cc < D; cc++) for (int w = 0; w < D; w++) { double s = 0; for (int k = 0; k < D; k++) s += (I[cc * D + k].t + 2 * D * std::fabs(I[cc * D + k].v)) * std::fabs(m[k * D + w]); ok = ok && std::fabs(p[cc * D + w] - (cc == w)) <= E24 * s; tol = std::max(tol, E24 * s); } c.check(ok, [&] { return fmt("%s m /= m with m = %s gives %s (tolerance %.2g)", nm().c_str(), LIST(a, N), LIST(p, N), tol); });
          rd(Z * A, p); ok = true; for (int cc = 0; cc < D; cc++) for (int w = 0; w < D; w++) { double s = 0; for (int k = 0; k < D; k++) s += (I[k * D + w].t + 2 * D * std::fabs(I[k * D + w].v)) * std::fabs(m[cc * D + k]); ok = ok && std::fabs(p[cc * D + w] - (cc == w)) <= E24 * s; } c.check(ok, [&] { return fmt("%s inverse(m) * m with m = %s gives %s", nm().c_str(), LIST(a, N), LIST(p, N)); }); }
        float v[D], p[D]; for (int k = 0; k < D; k++) v[k] = v_ ? v_[k] : 1.5f - 2 * k + k * k; V X = mk<V>(v); Tm r[D]; for (int w = 0; w < D; w++) { Tm t; double sl = 0; for (int k = 0; k < D; k++) { t.add(I[k * D + w].v * v[k]); sl += I[k * D + w].t * std::fabs(v[k]); } t.t = 2 * D * t.t + sl; r[w] = t; } rd(A / X, p); c.check(nearTm(p, r, D, 1, false), [&] { return fmt("%s %s / %s = %s, expected %s", nm().c_str(), LIST(a, N), LIST(v, D), LIST(p, D), tms(r, D).c_str()); });
        for (int w = 0; w < D; w++) { Tm t; double sl = 0; for (int k = 0; k < D; k++) { t.add(I[w * D + k].v * v[k]); sl += I[w * D + k].t * std::fabs(v[k]); } t.t = 2 * D * t.t + sl; r[w] = t; } rd(X / A, p); c.check(nearTm(p, r, D, 1, false), [&] { return fmt("%s (row) / %s %s = %s, expected %s", LIST(v, D), nm().c_str(), LIST(a, N), LIST(p, D), tms(r, D).c_str()); }); }
    static void space(const char* nm_, std::vector<float> small, std::vector<float> rich) { std::vector<std::vector<float>> cx(4); for (int k = 0; k < N; k++) { bool dg = k / D == k % D; cx[0].push_back(dg ? 1.f : 0.f); cx[1].push_back((dg ? 3.f : 0.f) + (k * 5 % 7) - 2); cx[2].push_back((dg ? 2.3f : 0.f) + 0.17f * (k * 3 % 8) - 0.7f); cx[3].push_back(k / D + k % D == D - 1 ? -2.f : 0.25f * (k % 3)); }
        auto sp = std::make_shared<LaneSpace<float>>(N, small, rich, cx); mc::add(nm() + " " + nm_, sp->size(), [sp](u64 i, Ctx& c) { float l[16]; sp->decode(i, l); inv(l, sp->fresh(i, l), c); }); }
    static void reg() { bool th = mc::isThorough(); std::vector<float> s; if (D == 2) for (int k = -9; k <= 9; k++) s.push_back(k); else if (D == 3) { s = {-1, 0, 1}; if (th) s = {-2, -1, 0, 1, 3}; else s = {-1, 0, 1, 2}; } else s = th ? std::vector<float>{-1, 0, 1} : std::vector<float>{0, 1};
        std::vector<float> rich = mc::finiteOnly(mc::richFloats(), 1e4, 1e-4); if (D == 4 && !th && rich.size() > 40) rich.resize(40); space("matrices", s, rich); 
        // divisor, matrix dividend and vector together
        std::vector<float> q = {0.f, -0.f, 1.f, -1.f, 2.f, -0.5f, 3.f, 0.1f, -7.f, 1e-4f, 1e4f, 1.f / 3, 1000.f, -1000.f, 40.f, -1e4f}; if (D == 4 && !th) q.resize(9); std::vector<std::vector<float>> cx(3, std::vector<float>(2 * N + D)); for (int k = 0; k < 2 * N + D; k++) { int e = k % N; bool dg = e / D == e % D; cx[0][k] = k < N ? dg : float((k * 7 + 3) % 11) - 4.5f; cx[1][k] = k < N ? (dg ? 3.f : 0.f) + (e * 5 % 7) - 2 : (k % 3 ? 1 : -1) * (1.f + k); cx[2][k] = k < N ? (dg ? -2.3f : 0.f) - 0.17f * (e * 3 % 8) : 0; }
        auto sp = std::make_shared<LaneSpace<float>>(2 * N + D, std::vector<float>(), q, cx); mc::add(nm() + " quotients", sp->size(), [sp](u64 i, Ctx& c) { float l[40]; sp->decode(i, l); if (bounded(l, 2 * N + D, 1e7, 1e-7)) inv(l, sp->fresh(i, l), c, l + N, l + 2 * N); });
        // special forms -- identity, diagonal, rotation, rigid, symmetric, triangular, unit determinant -- with one or two elements slightly off
        auto B = std::make_shared<std::vector<std::vector<float>>>(); for (int t = 0; t < 7; t++) { std::vector<float> m(N); for (int k = 0; k < N; k++) { int cc = k / D, w = k % D; bool dg = cc == w; m[k] = t == 0 ? dg : t == 1 ? (dg ? 2.f + cc : 0) : t == 4 ? (dg ? 3.f : 0.25f * (cc + w)) : t == 5 ? (dg ? 1.f + 0.5f * cc : cc > w ? 0.75f : 0) : t == 6 ? (dg ? (cc == 0 ? 2.f : cc == 1 ? 0.5f : 1.f) : cc < w ? 1.25f : 0) : dg; }
            if (t == 2 || t == 3) { double a = 0.6435011087932844; m[0] = m[D + 1] = float(std::cos(a)); m[1] = float(std::sin(a)); m[D] = -m[1]; if (D == 4) for (int k = 0; k < 3; k++) m[12 + k] = t == 3 ? 1.5f - 4 * k : 0; if (D == 3 && t == 3) { m[6] = 2; m[7] = -3; } } B->push_back(m); }
        u64 nd = mc::deltas().size(), np = N * N; mc::add(nm() + " nearly special", 7 * np * nd, [B, np, nd](u64 i, Ctx& c) { mc::Radix r(i); float l[N]; auto& b = (*B)[r.take(7)]; double d = mc::deltas()[r.take(nd)]; int p = (int)r.take(N), q = (int)r.take(N); for (int k = 0; k < N; k++) l[k] = b[k]; if (std::fabs(d) < 1e-4) { l[p] = float(l[p] == 0 ? 0 : l[p] * (1 + d)); if (q != p) l[q] = float(l[q] == 0 ? 0 : l[q] * (1 - d)); } else { l[p] += float(d); if (q != p) l[q] -= float(d / 2); } inv(l, true, c); });
        mc::add(nm() + " nearly special, scaled", 7 * nd * 16, [B, nd](u64 i, Ctx& c) { mc::Radix r(i); float l[N]; auto& b = (*B)[r.take(7)]; double d = mc::deltas()[r.take(nd)], m = (double[]){1, 2, 0.1, 30, 1e-3, 1.3e-5, 1e-6, 7000, 1e5, 1.7e6, -1, -45, -0.02, -3e-5, -4e5, 310}[r.take(16)]; for (int k = 0; k < N; k++) { l[k] = float(b[k] * m * (1 + d)); } bool ok = true; for (float f : l) ok = ok && (f == 0 || std::fabs(f) > 1e-7f); if (ok) inv(l, true, c); }); }
};
// the signed permutations and the unit shears have exact inverses: inverse is exact on them
template<int D> static void monomial() { typedef typename MT<D>::M M; enum { N = D * D }; std::vector<int> p; for (int i = 0; i < D; i++) p.push_back(i); auto all = std::make_shared<std::vector<std::vector<int>>>(); do all->push_back(p); while (std::next_permutation(p.begin(), p.end()));
    static const float sc[] = {1, -1, 2, -0.5f}; u64 S = 1; for (int i = 0; i < D; i++) S *= 4; mc::add(std::string(Tr<M>::name()) + " scaled signed permutations, sheared", all->size() * S * (N + 1), [all, S](u64 i, Ctx& c) { mc::Radix r(i); auto& q = (*all)[r.take(all->size())]; u64 s = r.take(S); int sh_ = (int)r.take(N + 1); float a[N] = {}, e[N] = {}; for (int k = 0; k < D; k++) { float f = sc[s >> 2 * k & 3]; a[k * D + q[k]] = f; e[q[k] * D + k] = 1 / f; }
        if (sh_ < N && sh_ / D != sh_ % D) { // a := a * (1 + 2 E_xy): column y += 2 * column x ; inverse: row x -= 2 * row y
            int x = sh_ / D, y = sh_ % D; for (int k = 0; k < D; k++) a[y * D + k] += 2 * a[x * D + k]; for (int k = 0; k < D; k++) e[k * D + x] -= 2 * e[k * D + y]; }
        float p[N], t[N]; rd(inverse(mk<M>(a)), p); rd(inverseTranspose(mk<M>(a)), t); bool ok = true; for (int k = 0; k < N; k++) ok = ok && p[k] == e[k] && t[k % D * D + k / D] == e[k]; c.nt(s != 0); c.check(ok, [&] { return fmt("inverse(%s %s) = %s, inverseTranspose %s, expected inverse %s", Tr<M>::name(), vs(a, N).c_str(), vs(p, N).c_str(), vs(t, N).c_str(), vs(e, N).c_str()); }); }); }
void registerFamilies() { Inv<2>::reg(); Inv<3>::reg(); Inv<4>::reg(); monomial<2>(); monomial<3>(); monomial<4>(); }
