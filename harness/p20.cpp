// translate, rotate, scale against the elementary matrices; all chains up to a bounded length.
#include "rot.hpp"
using namespace zcm;
struct M4 { double m[16]; };
static M4 ident() { M4 r{}; for (int k = 0; k < 4; k++) r.m[k * 5] = 1; return r; }
static M4 mul(const M4& a, const M4& b) { M4 r; for (int c = 0; c < 4; c++) for (int w = 0; w < 4; w++) { double s = 0; for (int k = 0; k < 4; k++) s += a.m[k * 4 + w] * b.m[c * 4 + k]; r.m[c * 4 + w] = s; } return r; }
static M4 tr(D3 v) { M4 r = ident(); for (int k = 0; k < 3; k++) r.m[12 + k] = v[k]; return r; } static M4 sc(D3 v) { M4 r = ident(); for (int k = 0; k < 3; k++) r.m[k * 5] = v[k]; return r; } static M4 ro(double a, D3 u) { M4 r = ident(); DM d = matAxis(u, a); for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) r.m[j * 4 + i] = d.m[j][i]; return r; }
static M4 wide(const float* p) { M4 r; for (int k = 0; k < 16; k++) r.m[k] = p[k]; return r; }
static std::string s16(const double* p) { std::string s = "("; for (int i = 0; i < 16; i++) s += fmt("%s%.9g", i ? ", " : "", p[i]); return s + ")"; }
static const std::vector<std::vector<float>>& bases() { static std::vector<std::vector<float>> b = [] { std::vector<std::vector<float>> r; for (int t = 0; t < 4; t++) { std::vector<float> m; for (int k = 0; k < 16; k++) m.push_back(t == 0 ? k % 5 == 0 : t == 1 ? (k % 3 ? 1 : -1) * (k + 1.f) : t == 2 ? 0.37f * (k * 7 % 16) - 2.1f : k % 5 == 0 ? 1.f : k / 4 == 3 ? 3.5f * k : 0.f); r.push_back(m); } return r; }(); return b; }
// got == base * e, each element within k roundings of the magnitudes summed; columns 'keep' are copied
static void cmp(const char* op, const mat4& got, const float* b, const M4& e, double k, bool exact, const std::string& arg, Ctx& c) { float p[16]; rd(got, p); M4 r = mul(wide(b), e); bool ok = true; for (int cc = 0; cc < 4; cc++) for (int w = 0; w < 4; w++) { double t = 0; for (int q = 0; q < 4; q++) t += std::fabs(double(b[q * 4 + w])) * std::max(std::fabs(e.m[cc * 4 + q]), op[0] == 'r' && q < 3 && cc < 3 ? 1.0 : 0.0); ok = ok && (exact ? p[cc * 4 + w] == r.m[cc * 4 + w] : std::fabs(p[cc * 4 + w] - r.m[cc * 4 + w]) <= k * E24 * t + 1e-36); }
    c.check(ok, [&] { return fmt("%s(%s, %s) = %s, expected %s", op, vs(b, 16).c_str(), arg.c_str(), vs(p, 16).c_str(), s16(r.m).c_str()); }); }
static void ts(const float* b, const float* v, bool fr, Ctx& c) { if (!bounded(b, 16, 1e12, 1e-12) || !bounded(v, 3, 1e12, 1e-12)) return; bool ex = dyadic(b, 16) && dyadic(v, 3); mat4 B = mk<mat4>(b); D3 d = d3(v); vec3 V = mk<vec3>(v); c.nt(fr); cmp("translate", translate(B, V), b, tr(d), 8, ex, vsx(v, 3), c); cmp("scale", zcm::scale(B, V), b, sc(d), 2, ex, vsx(v, 3), c); }
static void rt(const float* b, float a, D3 u, Ctx& c) { vec3 U = v3(u); D3 w = d3(U); c.nt(a != 0); cmp("rotate", zcm::rotate(mk<mat4>(b), a, U), b, ro(a, w), 20, false, fmt("%s, %s", fs(a).c_str(), s3(w).c_str()), c); }
static std::vector<float> angles() { std::vector<float> r; for (int k = -24; k <= 24; k++) { r.push_back(float(k * M_PI / 12)); r.push_back(float(k * 0.31)); } for (float f : {1e-8f, 1e-4f, -1e-3f, 100.f, -57.3f, 1000.f, 3.1415925f, 1.5707964f}) r.push_back(f); for (float f : mc::dictFloats()) if (std::fabs(f) < 2000) r.push_back(f); mc::uniq(r); return r; }
// chains: the tree of all sequences of elementary transforms
struct Step { std::string n; std::function<mat4(const mat4&)> f; M4 e; };
static const std::vector<Step>& steps() { static std::vector<Step> v = [] { std::vector<Step> r; for (int k = 0; k < 3; k++) { D3 e{double(k == 0), double(k == 1), double(k == 2)}; D3 t = e * (k + 1.5) + D3{0.25, -0.5, 0}; vec3 T = v3(t); r.push_back({"translate" + s3(t), [T](const mat4& m) { return translate(m, T); }, tr(t)}); D3 s = D3{1, 1, 1} + e * (0.5 + k); vec3 S = v3(s); r.push_back({"scale" + s3(s), [S](const mat4& m) { return zcm::scale(m, S); }, sc(s)}); float a = 0.7f + 0.9f * k; vec3 U = v3(e); r.push_back({fmt("rotate(%.3g, axis %d)", a, k), [U, a](const mat4& m) { return zcm::rotate(m, a, U); }, ro(a, e)}); }
        D3 u{-1, 2, 3}; vec3 U = v3(u); r.push_back({"rotate(-2.1, (-1,2,3))", [U](const mat4& m) { return zcm::rotate(m, -2.1f, U); }, ro(-2.1f, u)}); return r; }(); return v; }
static void chain(const mat4& m, const M4& ref, const std::string& h, int depth, double mag, Ctx& c) { if (!depth) return; for (auto& s : steps()) { mat4 g = s.f(m); M4 r = mul(ref, s.e); ++c.states; ++c.transitions; ++c.traces; c.nt(true); double n = 0; for (double x : s.e.m) n += std::fabs(x); double mg = mag * n; float p[16]; rd(g, p); bool ok = true; for (int k = 0; k < 16; k++) ok = ok && std::fabs(p[k] - r.m[k]) <= 24 * E24 * mg; std::string hh = h + s.n + "; "; c.check(ok, [&] { return fmt("chain %s gives %s, expected %s", hh.c_str(), vs(p, 16).c_str(), s16(r.m).c_str()); }); if (!ok) continue; chain(g, r, hh, depth - 1, mg, c); } }
void registerFamilies() {
    bool th = mc::isThorough(); 
    { std::vector<std::vector<float>> cx(3); for (int t = 0; t < 3; t++) { for (float f : bases()[t]) cx[t].push_back(f); for (int k = 0; k < 3; k++) cx[t].push_back((k - 0.7f) * (t + 1.25f)); } auto rich = mc::finiteOnly(mc::richFloats(), 1e12, 1e-12); if (!th && rich.size() > 48) rich.resize(48); auto sp = std::make_shared<LaneSpace<float>>(19, std::vector<float>(), rich, cx); mc::add("translate, scale: matrix and vector", sp->size(), [sp](u64 i, Ctx& c) { float l[19]; sp->decode(i, l); ts(l, l + 16, sp->fresh(i, l), c); }); }
    { auto al = std::make_shared<std::vector<float>>(mc::finiteOnly(mc::richFloats(), 1e6, 1e-6)); for (int k = -4; k <= 4; k++) al->push_back(k * 0.75f); u64 n = al->size(); mc::add("translate, scale: all vectors", n * n * n * 2, [al, n](u64 i, Ctx& c) { mc::Radix r(i); float v[3] = {(*al)[r.take(n)], (*al)[r.take(n)], (*al)[r.take(n)]}; ts(bases()[1 + r.take(2)].data(), v, true, c); }); }
    { auto an = std::make_shared<std::vector<float>>(angles()); auto di = std::make_shared<std::vector<D3>>(directions(th ? 6 : 4)); u64 A = an->size(), N = di->size(); mc::add("rotate: bases, angles, axes", A * N * 4, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = (*an)[r.take(A)]; D3 d = (*di)[r.take(N)]; rt(bases()[r.take(4)].data(), a, d, c); });
      auto d2 = std::make_shared<std::vector<D3>>(directions(2)); u64 N2 = d2->size(); static const double mag[] = {1e-15, 1e-6, 0.1, 1 / 3., 1e-3, 7e3, 1e9, 1e17}; mc::add("rotate: axis lengths", A * N2 * 8 * 2, [=](u64 i, Ctx& c) { mc::Radix r(i); float a = (*an)[r.take(A)]; D3 d = (*d2)[r.take(N2)]; d = d * mag[r.take(8)]; rt(bases()[1 + r.take(2)].data(), a, d, c); });
      static std::vector<double> ds = [] { std::vector<double> r = mc::deltas(); r.push_back(0); return r; }(); u64 ND = ds.size(); mc::add("rotate: nearly unit axes", N2 * ND * 8 * 2, [=](u64 i, Ctx& c) { mc::Radix r(i); D3 d = (*d2)[r.take(N2)]; d = unit(d) * (1 + ds[r.take(ND)]); static const float as[] = {0.7f, -2.f, 1.5707964f, 3.1415927f, -0.01f, 6.f, 0.f, 40.f}; float a = as[r.take(8)]; rt(bases()[1 + r.take(2)].data(), a, d, c); });
      mc::add("rotate: nearly coordinate axes, nearly special angles and bases", 26 * ND * ND * 9, [=](u64 i, Ctx& c) { mc::Radix r(i); static std::vector<D3> ax = directions(1); u64 q = r.take(26); double d1 = ds[r.take(ND)], d0 = ds[r.take(ND)]; int k = (int)r.take(9); D3 u = ax[q] + D3{d1, -0.5 * d1, 0.25 * d1}; float b[16]; for (int z = 0; z < 16; z++) b[z] = bases()[q % 4][z]; b[(q + k) % 16] += float(d1); rt(b, float((k - 4) * M_PI / 2 + d0), u, c); float v[3] = {float(d1), float(1 + d0), float(k - 4)}, w[3] = {float(1 + d1), float(1 + d0), float(1 + d1 / 2)}; ts(b, v, true, c); ts(b, w, true, c); });
      std::vector<std::vector<float>> cx(2); for (int t = 0; t < 2; t++) for (float f : bases()[t + 1]) cx[t].push_back(f); auto rich = mc::finiteOnly(mc::richFloats(), 1e10, 1e-10); if (rich.size() > 40) rich.resize(40); auto sp = std::make_shared<LaneSpace<float>>(16, std::vector<float>(), rich, cx); mc::add("rotate: base matrices", sp->size(), [sp](u64 i, Ctx& c) { float l[16]; sp->decode(i, l); rt(l, 0.83f + (i % 7), D3{1, -2, 0.5}, c); }); }
    { u64 S = steps().size(); int depth = th ? 6 : 5; mc::add(fmt("chains of %d transforms", depth), S * S, [S, depth](u64 i, Ctx& c) { for (int b = 0; b < 2; b++) { auto& base = bases()[b ? 2 : 0]; auto& s0 = steps()[i % S]; auto& s1 = steps()[i / S]; double n = b ? 20 : 4; for (double x : s0.e.m) (void)x; double n0 = 0, n1 = 0; for (double x : s0.e.m) n0 += std::fabs(x); for (double x : s1.e.m) n1 += std::fabs(x); M4 r = mul(mul(wide(base.data()), s0.e), s1.e); mat4 g = s1.f(s0.f(mk<mat4>(base.data()))); float p[16]; rd(g, p); bool ok = true; for (int k = 0; k < 16; k++) ok = ok && std::fabs(p[k] - r.m[k]) <= 24 * E24 * n * n0 * n1; std::string h = s0.n + "; " + s1.n + "; "; c.states += 2; c.transitions += 2; c.check(ok, [&] { return fmt("chain %s gives %s, expected %s", h.c_str(), vs(p, 16).c_str(), s16(r.m).c_str()); }); if (ok) chain(g, r, h, depth - 2, n * n0 * n1, c); } }, 1); }
}
