// Quaternion algebra: exact on small dyadic quaternions, finite quaternion groups explored to closure.
#include "rot.hpp"
#include <map>
using namespace zcm;
#define LIST(p, n) vsx(p, n).c_str()
static double l1(const float* p) { return std::fabs(double(p[0])) + std::fabs(double(p[1])) + std::fabs(double(p[2])) + std::fabs(double(p[3])); }
static DQ D(const float* p) { return {p[0], p[1], p[2], p[3]}; }
static bool closeQ(const quat& g, DQ e, double tol, bool exact) { DQ q = dq(g); return exact ? maxdiff(q, e) == 0 : maxdiff(q, e) <= tol; }
template<class F> static void each(const char* op, const quat& r, const float* l, int n, F f, Ctx& c, double ulps = 0) { float p[4], e[4]; rd(r, p); bool ok = true; for (int k = 0; k < 4; k++) { e[k] = f(k); ok = ok && (mc::sameZ(p[k], e[k]) || (ulps > 0 && mc::finite(e[k]) && std::fabs(e[k]) > 1e-37 && std::fabs(e[k]) < 3e38 && std::fabs(double(p[k]) - e[k]) <= ulps * mc::ulpOf(e[k]))); } c.check(ok, [&] { return fmt("quat %s on (x,y,z,w) %s = %s, expected %s", op, LIST(l, n), LIST(p, 4), LIST(e, 4)); }); }
static void pair(const float* l, bool fr, Ctx& c) { const float *a = l, *b = l + 4; quat A = mk<quat>(a), B = mk<quat>(b); bool ex = dyadic(l, 8, 16); c.nt(fr);
    each("+", A + B, l, 8, [&](int k) { return a[k] + b[k]; }, c); each("-", A - B, l, 8, [&](int k) { return a[k] - b[k]; }, c); { quat T = A; T += B; each("+=", T, l, 8, [&](int k) { return a[k] + b[k]; }, c); } { quat T = A; T -= B; each("-=", T, l, 8, [&](int k) { return a[k] - b[k]; }, c); }
    bool eq = true; for (int k = 0; k < 4; k++) eq = eq && a[k] == b[k]; c.check((A == B) == eq && (A != B) == !eq, [&] { return fmt("quat %s ==, != %s give %d, %d", LIST(a, 4), LIST(b, 4), A == B, A != B); });
    if (!bounded(l, 8, 1e17, 1e-17)) return; DQ e = mulq(D(a), D(b)); double tol = 16 * E24 * l1(a) * l1(b) + 1e-33; quat P = A * B; auto msg = [&](const char* op, const quat& g, DQ e) { return fmt("quat %s %s %s = %s, expected %s", sq(D(a)).c_str(), op, sq(D(b)).c_str(), sq(dq(g)).c_str(), sq(e).c_str()); };
    c.check(closeQ(P, e, tol, ex), [&] { return msg("*", P, e); }); { quat T = A; T *= B; c.check(closeQ(T, e, tol, ex), [&] { return msg("*=", T, e); }); } { quat T = A; T *= T; DQ s = mulq(D(a), D(a)); c.check(closeQ(T, s, 16 * E24 * l1(a) * l1(a) + 1e-33, ex), [&] { return fmt("q *= q with q = %s gives %s, expected %s", sq(D(a)).c_str(), sq(dq(T)).c_str(), sq(s).c_str()); }); } { quat T = A; T += T; each("+= itself", T, l, 4, [&](int k) { return a[k] + a[k]; }, c); T = A; T -= T; each("-= itself", T, l, 4, [&](int k) { return a[k] - a[k]; }, c); }
    if (ex && dyadic(l, 8, 4)) { c.check(conjugate(P) == conjugate(B) * conjugate(A), [&] { return msg("conjugate of product:", conjugate(B) * conjugate(A), dq(conjugate(P))); }); c.check((A * B) * A == A * (B * A), [&] { return msg("not associative on", (A * B) * A, dq(A * (B * A))); }); c.check(A * (B + A) == A * B + A * A && (B + A) * B == B * B + A * B, [&] { return msg("not distributive on", A * (B + A), dq(A * B + A * A)); }); } }
static void single(const float* l, bool fr, Ctx& c) { const float* a = l; float s = l[4]; quat A = mk<quat>(a); c.nt(fr); each("* scalar", A * s, l, 5, [&](int k) { return a[k] * s; }, c); each("scalar *", s * A, l, 5, [&](int k) { return s * a[k]; }, c); each("/ scalar", A / s, l, 5, [&](int k) { return a[k] / s; }, c, 1); each("scalar /", s / A, l, 5, [&](int k) { return s / a[k]; }, c, 1); { quat T = A; T *= s; each("*= scalar", T, l, 5, [&](int k) { return a[k] * s; }, c); T = A; T /= s; each("/= scalar", T, l, 5, [&](int k) { return a[k] / s; }, c, 1); }
    each("unary -", -A, l, 4, [&](int k) { return -a[k]; }, c); each("unary +", +A, l, 4, [&](int k) { return a[k]; }, c); each("conjugate", conjugate(A), l, 4, [&](int k) { return k < 3 ? -a[k] : a[k]; }, c);
    if (!bounded(a, 4, 1e17, 1e-17)) return; double n2 = 0; for (int k = 0; k < 4; k++) n2 += double(a[k]) * a[k]; if (n2 == 0) return; DQ e = DQ{-double(a[0]), -double(a[1]), -double(a[2]), double(a[3])} * (1 / n2); DQ g = dq(inverse(A)); auto ne = [&](double x, double y) { return std::fabs(x - y) <= 10 * E24 * std::fabs(y) + 1e-37; }; c.check(ne(g.x, e.x) && ne(g.y, e.y) && ne(g.z, e.z) && ne(g.w, e.w), [&] { return fmt("inverse(quat %s) = %s, expected %s", sq(D(a)).c_str(), sq(g).c_str(), sq(e).c_str()); });
    quat I = A * inverse(A), J = inverse(A) * A; DQ one{0, 0, 0, 1}; c.check(maxdiff(dq(I), one) <= 80 * E24 && maxdiff(dq(J), one) <= 80 * E24, [&] { return fmt("quat %s times its inverse: %s and %s", sq(D(a)).c_str(), sq(dq(I)).c_str(), sq(dq(J)).c_str()); }); }
static void triple(const float* l, bool, Ctx& c) { quat A = mk<quat>(l), B = mk<quat>(l + 4), C = mk<quat>(l + 8); quat x = (A * B) * C, y = A * (B * C); DQ e = mulq(mulq(D(l), D(l + 4)), D(l + 8)); double tol = dyadic(l, 12, 4) ? 0 : 64 * E24 * l1(l) * l1(l + 4) * l1(l + 8); if (tol == 0) for (int k = 0; k < 12; k++) if (l[k] * 2 != std::floor(l[k] * 2)) tol = 1e-6; c.nt(true); c.check(maxdiff(dq(x), e) <= tol && maxdiff(dq(y), e) <= tol, [&] { return fmt("quat products (%s * %s) * %s = %s, other grouping %s, expected %s", sq(D(l)).c_str(), sq(D(l + 4)).c_str(), sq(D(l + 8)).c_str(), sq(dq(x)).c_str(), sq(dq(y)).c_str(), sq(e).c_str()); }); }
// closure of generators under the real product; model elements are tracked exactly as integers over a common scale
static void group(const char* name, std::vector<DQ> gens, size_t order, double tol) { mc::add(name, 1, [=](u64, Ctx& c) { std::vector<DQ> model; std::vector<quat> real; auto find = [&](DQ q) { for (size_t i = 0; i < model.size(); i++) if (maxdiff(model[i], q) < 1e-9) return (int)i; return -1; }; model.push_back({0, 0, 0, 1}); real.push_back(quat()); 
        for (size_t i = 0; i < model.size() && model.size() <= order; i++) { ++c.states; for (auto& g : gens) { DQ e = mulq(model[i], g); quat r = real[i] * zq(g); ++c.transitions; bool ok = maxdiff(dq(r), e) <= tol; c.check(ok, [&] { return fmt("%s * %s = %s, expected %s", sq(dq(real[i])).c_str(), sq(g).c_str(), sq(dq(r)).c_str(), sq(e).c_str()); }); if (!ok) return; if (find(e) < 0) { model.push_back(e); real.push_back(zq(e)); } } }
        c.check(model.size() == order, [&] { return fmt("closure has %zu elements, expected %zu", model.size(), order); });
        for (size_t i = 0; i < model.size(); i++) for (size_t j = 0; j < model.size(); j++) { DQ e = mulq(model[i], model[j]); quat r = real[i] * real[j], t = real[i]; t *= real[j]; ++c.transitions; ++c.traces; c.nt(i != j); c.check(find(e) >= 0 && maxdiff(dq(r), e) <= tol && maxdiff(dq(t), e) <= tol && maxdiff(dq(conjugate(r)), dq(conjugate(real[j]) * conjugate(real[i]))) <= tol && maxdiff(dq(inverse(real[i]) * r), model[j]) <= 4 * tol + 1e-6 * (tol > 0), [&] { return fmt("group product %s * %s = %s (*= gives %s), expected %s", sq(model[i]).c_str(), sq(model[j]).c_str(), sq(dq(r)).c_str(), sq(dq(t)).c_str(), sq(e).c_str()); }); } }); }
template<class F> static void space(const std::string& nm, int lanes, std::vector<float> small, std::vector<float> rich, F body) { std::vector<std::vector<float>> cx(3); for (int k = 0; k < lanes; k++) { cx[0].push_back((k % 3 ? 1 : -1) * (1.f + k)); cx[1].push_back(0); cx[2].push_back(0.17f * k - 1.3f); } auto sp = std::make_shared<LaneSpace<float>>(lanes, small, rich, cx); mc::add(nm, sp->size(), [sp, body](u64 i, Ctx& c) { float l[16]; sp->decode(i, l); body(l, sp->fresh(i, l), c); }); }
void registerFamilies() {
    bool th = mc::isThorough(); space("pairs", 8, th ? std::vector<float>{-2, -1, 0, 1, 3, 0.5f} : std::vector<float>{-2, 0, 1, 0.5f}, mc::richFloats(), pair); space("scalars, conjugate, inverse", 5, {-3, -2, -1, -0.5f, 0, 0.25f, 1, 2, 0.1f, 7}, mc::richFloats(), single);
    std::vector<float> big = {1e-9f, -3e-9f, 1e9f, 2.5e9f, 0.f, 1.f}; space("mixed magnitudes", 5, big, {0.f}, single); space("pairs of mixed magnitudes", 8, {1e-8f, -2.5e8f, 0.3f}, {0.f}, pair);
    space("associativity", 12, th ? std::vector<float>{-1, 0, 2} : std::vector<float>{-1, 2}, {-2, -1, 0, 1, 3, 0.5f}, triple);
    static std::vector<DQ> nq = unitQuats(2); mc::add("nearly unit quaternions", nq.size() * mc::deltas().size(), [](u64 i, Ctx& c) { u64 n = mc::deltas().size(); DQ q = nq[i / n] * (1 + mc::deltas()[i % n]); float l[8] = {float(q.x), float(q.y), float(q.z), float(q.w), 2.5f}; single(l, true, c); DQ e = nq[(i / n * 7 + i) % nq.size()] * (1 + mc::deltas()[(i / 3) % n]); l[4] = float(e.x); l[5] = float(e.y); l[6] = float(e.z); l[7] = float(e.w); pair(l, true, c); l[4] = l[0]; l[5] = l[1]; l[6] = l[2]; l[7] = l[3]; l[4 + i % 4] *= float(1 + mc::deltas()[(i / 5) % n]); pair(l, true, c); });
    double h = std::sqrt(0.5); group("quaternion units", {{1, 0, 0, 0}, {0, 1, 0, 0}}, 8, 0); group("binary tetrahedral group", {{0.5, 0.5, 0.5, 0.5}, {1, 0, 0, 0}}, 24, 0); group("binary octahedral group", {{h, 0, 0, h}, {0.5, 0.5, 0.5, 0.5}}, 48, 1e-6); double p = (1 + std::sqrt(5.)) / 4; group("binary icosahedral group", {{0.5, 0.5, 0.5, 0.5}, {0.5, p - 0.5, 0, p}}, 120, 1e-6);
}
