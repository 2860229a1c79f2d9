// Matrix operators against plain-array linear algebra; finite matrix groups explored to closure.
#include "mats.hpp"
#include <map>
using namespace zcm;
#define LIST(p, n) vsx(p, n).c_str()
template<int D> struct Ops { typedef typename MT<D>::M M; typedef typename MT<D>::V V; enum { N = D * D };
    static std::string nm() { return Tr<M>::name(); }
    // bit-exact, element by element
    template<class F> static void each(const char* op, const M& r, const float* in, int n, F f, Ctx& c, double ulps = 0) { float p[N]; rd(r, p); bool ok = true; float e[N]; for (int k = 0; k < N; k++) { e[k] = f(k); ok = ok && (mc::sameZ(p[k], e[k]) || (ulps > 0 && (mc::finite(e[k]) && std::fabs(e[k]) > 1e-37 && std::fabs(e[k]) < 3e38) && std::fabs(double(p[k]) - e[k]) <= ulps * mc::ulpOf(e[k]))); } c.check(ok, [&] { return fmt("%s %s on %s = %s, expected %s", nm().c_str(), op, LIST(in, n), LIST(p, N), LIST(e, N)); }); }
    static void pair(const float* l, bool fr, Ctx& c) { const float *a = l, *b = l + N; M A = mk<M>(a), B = mk<M>(b); bool ex = dyadic(l, 2 * N), mul = bounded(l, 2 * N, 1e18, 1e-18); float p[N];
        each("+", A + B, l, 2 * N, [&](int k) { return a[k] + b[k]; }, c); each("-", A - B, l, 2 * N, [&](int k) { return a[k] - b[k]; }, c); each("matrixCompMult", matrixCompMult(A, B), l, 2 * N, [&](int k) { return a[k] * b[k]; }, c);
        { M T = A; T += B; each("+=", T, l, 2 * N, [&](int k) { return a[k] + b[k]; }, c); } { M T = A; T -= B; each("-=", T, l, 2 * N, [&](int k) { return a[k] - b[k]; }, c); }
        bool eq = true; for (int k = 0; k < N; k++) eq = eq && a[k] == b[k]; c.check((A == B) == eq && (A != B) == !eq, [&] { return fmt("%s %s ==, != %s give %d, %d", nm().c_str(), LIST(a, N), LIST(b, N), A == B, A != B); });
        c.nt(fr); if (!mul) return;
        Tm r[N]; mulMM<D>(a, b, r); M P = A * B; rd(P, p); c.check(nearTm(p, r, N, 2 * D, ex), [&] { return fmt("%s %s * %s = %s, expected %s", nm().c_str(), LIST(a, N), LIST(b, N), LIST(p, N), tms(r, N).c_str()); });
        M T = A; T *= B; rd(T, p); c.check(nearTm(p, r, N, 2 * D, ex), [&] { return fmt("%s %s *= %s = %s, expected %s", nm().c_str(), LIST(a, N), LIST(b, N), LIST(p, N), tms(r, N).c_str()); });
        if (ex) { c.check(transpose(P) == transpose(B) * transpose(A), [&] { return fmt("%s transpose of product of %s", nm().c_str(), LIST(l, 2 * N)); }); c.check((A * B) * A == A * (B * A), [&] { return fmt("%s product not associative on %s", nm().c_str(), LIST(l, 2 * N)); }); } }
    static void scal(const float* l, bool fr, Ctx& c) { const float* a = l; float s = l[N]; M A = mk<M>(a); c.nt(fr);
        each("* scalar", A * s, l, N + 1, [&](int k) { return a[k] * s; }, c); each("scalar *", s * A, l, N + 1, [&](int k) { return s * a[k]; }, c); each("/ scalar", A / s, l, N + 1, [&](int k) { return a[k] / s; }, c, 1); each("scalar /", s / A, l, N + 1, [&](int k) { return s / a[k]; }, c, 1);
        each("unary -", -A, l, N, [&](int k) { return -a[k]; }, c); each("unary +", +A, l, N, [&](int k) { return a[k]; }, c); each("transpose", transpose(A), l, N, [&](int k) { return a[k % D * D + k / D]; }, c); each("transpose(transpose)", transpose(transpose(A)), l, N, [&](int k) { return a[k]; }, c); }
    static void vect(const float* l, bool fr, Ctx& c) { if (!bounded(l, N + D, 1e18, 1e-18)) return; const float *a = l, *v = l + N; M A = mk<M>(a); V x = mk<V>(v); bool ex = dyadic(l, N + D); Tm r[D]; float p[D]; c.nt(fr);
        mulMV<D>(a, v, r); rd(A * x, p); c.check(nearTm(p, r, D, 2 * D, ex), [&] { return fmt("%s %s * %s = %s, expected %s", nm().c_str(), LIST(a, N), LIST(v, D), LIST(p, D), tms(r, D).c_str()); });
        mulVM<D>(v, a, r); rd(x * A, p); c.check(nearTm(p, r, D, 2 * D, ex), [&] { return fmt("%s %s (row) * %s = %s, expected %s", nm().c_str(), LIST(v, D), LIST(a, N), LIST(p, D), tms(r, D).c_str()); });
        if (ex) c.check(transpose(A) * x == x * A, [&] { return fmt("%s transpose(m) * v and v * m differ on %s", nm().c_str(), LIST(l, N + D)); }); }
    static std::vector<float> rich(bool th) { std::vector<float> r = mc::finiteOnly(mc::richFloats()); if (!th) { std::vector<float> o = {0.f, -0.f, 1.f, -1.f, 2.f, -0.5f, 3.f, 0.1f, -7.f, 1e-10f, 1e10f, 16777218.f, 1.f / 3, FLT_MIN, 1e17f, -0.f}; for (float f : mc::dictFloats()) if (o.size() < 28) o.push_back(f); mc::uniq(o); return o; } return r; }
    template<class F> static void space(const char* nm_, int lanes, std::vector<float> small, std::vector<float> rich, F body) { std::vector<std::vector<float>> cx(3); for (int k = 0; k < lanes; k++) { cx[0].push_back((k % 3 ? 1 : -1) * (1.f + k)); cx[1].push_back(0); cx[2].push_back(0.17f * k - 1.3f); }
        auto sp = std::make_shared<LaneSpace<float>>(lanes, small, rich, cx); mc::add(nm() + " " + nm_, sp->size(), [sp, body](u64 i, Ctx& c) { float l[40]; sp->decode(i, l); body(l, sp->fresh(i, l), c); }); }
    static void reg() { bool th = mc::isThorough(); std::vector<float> none, b2 = {-1.f, 2.f}, t3 = {-1.f, 0.f, 1.f};
        std::vector<float> full = mc::richFloats(), few = rich(false); few.resize(std::min<size_t>(few.size(), 18));
        space("pairs", 2 * N, D == 2 ? (th ? std::vector<float>{-2, -1, 0, 1, 3} : std::vector<float>{-1, 0, 1, 3}) : none, D == 4 && !th ? few : rich(th && D < 4), pair);
        space("scalar operations", N + 1, D == 2 ? std::vector<float>{-2, -1, 0, 1, 0.5f, 3, NAN} : D == 3 ? (th ? t3 : b2) : th ? b2 : none, D == 4 && !th ? rich(false) : full, scal);
        space("vector products", N + D, D == 2 ? std::vector<float>{-2, -1, 0, 1, 3, 0.1f} : D == 3 ? (th ? t3 : b2) : none, D == 4 && !th ? rich(false) : mc::finiteOnly(full), vect); special(); group(); }
    // identity, diagonal, affine, rotation, symmetric, triangular matrices with one element slightly off, against each other and against vectors
    static void special() { auto B = std::make_shared<std::vector<std::vector<float>>>(); for (int t = 0; t < 8; t++) { std::vector<float> m(N); for (int k = 0; k < N; k++) { int cc = k / D, w = k % D; bool dg = cc == w; m[k] = t == 0 ? 0 : t == 1 ? dg : t == 2 ? (dg ? 2.f + cc : 0) : t == 3 ? (w == D - 1 ? float(dg) : (k % 3 ? 1 : -1) * (k + 1.f)) : t == 4 ? 0.25f * (cc + w) - 1 : t == 5 ? (cc >= w ? k + 1.f : 0) : t == 6 ? (cc <= w ? k - 3.5f : 0) : dg; } if (t == 7) { m[0] = m[D + 1] = 0.8f; m[1] = 0.6f; m[D] = -0.6f; } B->push_back(m); }
        u64 nd = mc::deltas().size() + 1; mc::add(nm() + " nearly special", 64 * N * nd * 2, [B, nd](u64 i, Ctx& c) { mc::Radix r(i); float l[2 * N + 1], v[N + D]; int ai = (int)r.take(8), bi = (int)r.take(8); u64 di = r.take(nd); double d = di ? mc::deltas()[di - 1] : 0; int p = (int)r.take(N); bool second = r.take(2); for (int k = 0; k < N; k++) { l[k] = (*B)[ai][k]; l[N + k] = (*B)[bi][k]; } (second ? l + N : l)[p] += float(d); pair(l, true, c); for (int k = 0; k < N; k++) v[k] = (second ? l + N : l)[k]; for (int k = 0; k < D; k++) v[N + k] = k == D - 1 ? (ai % 3 == 0 ? 1.f : ai % 3 == 1 ? 0.f : 2.5f) : 1.5f - 3 * k; vect(v, true, c); if (bi == 0) { v[N + D - 1] += float(d); vect(v, true, c); l[N] = float(1 + d); scal(l, true, c); l[N] = float(d); scal(l, true, c); } }); }
    // signed permutation group: closure of generators under the real product, every product against the model
    static void group() { mc::add(nm() + " signed permutation group", 1, [](u64, Ctx& c) { typedef std::vector<float> K; auto key = [](const float* p) { K k(p, p + N); for (float& f : k) if (f == 0) f = 0; return k; };
            std::vector<K> gens, st; float q[N]; for (int s = 0; s + 1 < D; s++) { std::fill(q, q + N, 0.f); for (int i = 0; i < D; i++) q[i * D + (i == s ? s + 1 : i == s + 1 ? s : i)] = 1; gens.push_back(key(q)); } std::fill(q, q + N, 0.f); for (int i = 0; i < D; i++) q[i * D + i] = i ? 1 : -1; gens.push_back(key(q));
            std::map<K, int> seen; rd(M(1.f), q); st.push_back(key(q)); seen[st[0]] = 0;
            for (size_t i = 0; i < st.size(); i++) { ++c.states; for (auto& g : gens) { M r = mk<M>(st[i].data()) * mk<M>(g.data()); rd(r, q); ++c.transitions; Tm t[N]; mulMM<D>(st[i].data(), g.data(), t); bool ok = nearTm(q, t, N, 0, true); c.check(ok, [&] { return fmt("%s * %s = %s", LIST(st[i].data(), N), LIST(g.data(), N), LIST(q, N)); }); if (!ok) return; if (seen.emplace(key(q), (int)st.size()).second) st.push_back(key(q)); } }
            size_t order = D == 2 ? 8 : D == 3 ? 48 : 384; c.check(st.size() == order, [&] { return fmt("closure of the generators has %zu elements, expected %zu", st.size(), order); });
            for (auto& a : st) { M A = mk<M>(a.data()); rd(A * transpose(A), q); c.check(A * transpose(A) == M(1.f), [&] { return fmt("%s times its transpose is %s", LIST(a.data(), N), LIST(q, N)); }); for (auto& b : st) { ++c.transitions; ++c.traces; M B = mk<M>(b.data()); M P = A * B; rd(P, q); auto it = seen.find(key(q)); Tm t[N]; mulMM<D>(a.data(), b.data(), t); c.nt(!(a == b)); c.check(it != seen.end() && nearTm(q, t, N, 0, true), [&] { return fmt("%s * %s = %s", LIST(a.data(), N), LIST(b.data(), N), LIST(q, N)); }); M T = A; T *= B; c.check(T == P, [&] { return fmt("*= and * differ on %s, %s", LIST(a.data(), N), LIST(b.data(), N)); }); } } }); }
};
void registerFamilies() { Ops<2>::reg(); Ops<3>::reg(); Ops<4>::reg(); }
