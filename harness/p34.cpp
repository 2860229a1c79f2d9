// Every expression shared with GLM gives GLM's result.  The reference is GLM evaluated in double precision;
// the tolerance is what changing every operand by a few float roundings does to that reference, plus a few
// roundings of the result, so it adapts to the conditioning of each expression at each input.
#include "mc.hpp"
#include "p34.hpp"
using namespace mc;
static int floatLanes(const Shape& s, int* n) { int k = 0, f = 0; for (int a = 0; a < s.nargs; a++) { if (strchr("fvqm", s.args[a].kind)) f += s.args[a].lanes; k += s.args[a].lanes; } *n = k; return f; }
static bool has(const Shape& s, const char* t) { return std::strstr(s.name, t); }
static double intLane(const Shape& s, int arg, double v) {
    long k = std::lrint(std::fmod(std::isfinite(v) ? v * 3 : 1, 200.0));
    if (has(s, "[")) { int n = s.args[0].kind == 'm' ? (s.args[0].lanes == 4 ? 2 : s.args[0].lanes == 9 ? 3 : 4) : s.args[0].lanes; return double(std::labs(k) % n); }
    if (has(s, "<<") || has(s, ">>")) { k = std::labs(k); return arg ? double(k % 20) : double(k); }
    if ((has(s, "/") || has(s, "%")) && arg && k == 0) k = 1;
    if (s.args[arg].kind == 'u') k = std::labs(k);
    return double(k);
}
static void adapt(const Shape& s, float* x, bool unit) {
    int o = 0;
    for (int a = 0; a < s.nargs; a++) {
        int n = s.args[a].lanes; char k = s.args[a].kind;
        if (strchr("iu", k)) for (int l = 0; l < n; l++) x[o + l] = float(intLane(s, a, x[o + l]));
        if (k == 'b') for (int l = 0; l < n; l++) x[o + l] = float(std::lrint(std::fabs(std::fmod(double(x[o + l]), 100.0)) * 2) & 1);
        if (unit && (k == 'v' || k == 'q')) { double q = 0; for (int l = 0; l < n; l++) q += double(x[o + l]) * x[o + l]; q = std::sqrt(q); if (q > 0) for (int l = 0; l < n; l++) x[o + l] = float(x[o + l] / q); }
        if (has(s, "lerp") && a == 2) x[o] = x[o] == 1 ? 1 : float(std::fmod(std::fabs(x[o]), 1.0f));   // factors between the ends
        if (has(s, "SRGB") && a == 0) for (int l = 0; l < n; l++) if (std::fabs(x[o + l]) > 1 || x[o + l] < 0) x[o + l] = float(std::fmod(std::fabs(x[o + l]), 1.0f));
        o += n;
    }
}
// operands outside the domain the expression is defined on
static bool domain(const Shape& s, const float* x, bool unit) {
    int o = 0; for (int a = 0; a < s.nargs; a++) { int n = s.args[a].lanes; bool zero = true; for (int l = 0; l < n; l++) zero = zero && x[o + l] == 0;
        if (zero && (s.args[a].kind == 'q' || s.args[a].kind == 'v') && (has(s, "normalize") || has(s, "quat(vec3, vec3") || has(s, "LookAt") || has(s, "axis") || has(s, "rotate") || has(s, "/"))) return false; o += n; }
    if (has(s, "refract") || has(s, "angle(") || has(s, "axis(") || has(s, "slerp")) if (!unit) return false;
    if (has(s, "angle(") && !(x[3] >= 0 && x[3] < 0.9f)) return false;                              // GLM names the other of the two covers, and zcm's acos loses digits near one
    if (has(s, "quat(vec3, vec3")) { double d = 0, u = 0, v = 0; for (int k = 0; k < 3; k++) { d += double(x[k]) * x[3 + k]; u += double(x[k]) * x[k]; v += double(x[3 + k]) * x[3 + k]; } if (d < -0.9999 * std::sqrt(u * v)) return false; }   // next to the half turn
    if (has(s, "rotate(quat")) { double q = 0; for (int k = 0; k < 3; k++) q += double(x[5 + k]) * x[5 + k]; q = std::fabs(std::sqrt(q) - 1); if (q > 1e-6 && q < 2e-3) return false; }   // GLM does not normalise these
    if (has(s, "quatLookAt")) { double c[3], q = 0, u = 0; if (!unit) return false; for (int k = 0; k < 3; k++) { c[k] = double(x[(k + 1) % 3]) * x[3 + (k + 2) % 3] - double(x[(k + 2) % 3]) * x[3 + (k + 1) % 3]; q += c[k] * c[k]; u += double(x[3 + k]) * x[3 + k]; } if (!(q > 1e-3 * u)) return false; }
    if (std::strncmp(s.name, "mod(", 4) == 0) { int n = s.args[0].lanes, m = s.args[1].lanes; for (int l = 0; l < n; l++) if (!(std::fabs(double(x[l])) < 1e4 * std::fabs(double(x[n + (m == n ? l : 0)])))) return false; }
    return true;
}
static bool coupled(const Shape& s) { if (has(s, "inverse(") || has(s, "inverseTranspose") || has(s, "ookAt") || has(s, "quat(vec3, vec3") || has(s, "slerp") || has(s, "quat_cast") || has(s, "euler")) return true; if (has(s, "/")) for (int a = 0; a < s.nargs; a++) if (s.args[a].kind == 'm') return true; return false; }
// 1 agrees, 0 disagrees, -1 GLM's result is no number of moderate size or jumps here
static int agree(const Shape& s, int n, const float* x, double* z, double* g, double* tol, bool* nt) {
    double d[64], p[16]; for (int l = 0; l < n; l++) d[l] = x[l];
    s.z(x, z); s.g(d, g); const int R = s.ret.lanes; *nt = false;
    if (strchr("iub", s.ret.kind)) { for (int j = 0; j < R; j++) { tol[j] = 0; if (z[j] != g[j]) return 0; } *nt = true; return 1; }
    double m = 0; int res = 1; for (int j = 0; j < R; j++) { if (!std::isfinite(g[j]) || std::fabs(g[j]) > 1e25) { if (!(g[j] != g[j] && z[j] != z[j])) return -1; } else m = std::max(m, std::fabs(g[j])); }
    bool same = true; for (int j = 0; j < R; j++) same = same && (z[j] == g[j] || (z[j] != z[j] && g[j] != g[j]));
    *nt = m > 0;
    if (same) return 1;
    for (int j = 0; j < R; j++) tol[j] = 2e-6 * m + 1e-30;
    if (has(s, "determinant")) { int D = s.args[0].lanes == 4 ? 2 : s.args[0].lanes == 9 ? 3 : 4; double p = 1; for (int c = 0; c < D; c++) { double q = 0; for (int r = 0; r < D; r++) q += std::fabs(d[c * D + r]); p *= q; } tol[0] += 4e-6 * p; m = std::max(m, 1e3 * tol[0]); }
    int o = 0;
    for (int a = 0; a < s.nargs; a++) {
        int k = s.args[a].lanes; if (!strchr("fvqm", s.args[a].kind)) { o += k; continue; }
        double big = 0; for (int l = 0; l < k; l++) big = std::max(big, std::fabs(d[o + l]));
        for (int l = o; l < o + k; l++) {
            double keep = d[l], h = std::max(std::fabs(keep), big) * 1.2e-7, w[16] = {0}; int seen = 0;
            for (int sg = -1; sg <= 1; sg += 2) { d[l] = keep + sg * h; s.g(d, p); bool num = true; for (int j = 0; j < R; j++) num = num && (p[j] == p[j]); if (!num) continue; seen++; for (int j = 0; j < R; j++) w[j] = std::max(w[j], std::fabs(p[j] - g[j])); }
            d[l] = keep; if (!seen) return -1;
            for (int j = 0; j < R; j++) tol[j] += 12 * w[j];
        }
        o += k;
    }
    double top = 0; for (int j = 0; j < R; j++) { if (!(tol[j] <= 1e-3 * m)) return -1; top = std::max(top, tol[j]); }
    if (coupled(s)) for (int j = 0; j < R; j++) tol[j] = top;                                        // an inner cancellation reaches every lane
    for (int j = 0; j < R; j++) { if (g[j] != g[j]) { if (z[j] == z[j]) return 0; continue; } if (!(tol[j] < INFINITY)) { res = -1; continue; } if (!(std::fabs(z[j] - g[j]) <= tol[j])) return 0;}
    return res;
}
typedef std::shared_ptr<LaneSpace<float>> SP;
static SP space(int n, bool two, int cap) {
    static std::map<std::tuple<int,bool,int>, SP> memo; SP& p = memo[std::make_tuple(n, two, cap)]; if (p) return p;
    std::vector<float> r = {0.f, 1.f, -1.f, 0.5f, -0.5f, 2.f, -2.f, 3.f, 0.25f, 1.5f, -1.5f, 2.5f, -2.5f, 10.f, 0.1f, -0.1f, 0.999f, -0.99f, 0.9999f, 1.0001f, 100.f, -100.f, 1000.f, 1e-3f, -1e-3f, 1e-5f, 3.14159274f, 1.57079637f, -1.57079637f, 0.785398185f, 6.28318548f, 0.707106769f, -0.707106769f, 0.3f, -0.7f, 0.0031308f, 0.04045f, 7.f, -13.f, 33.f, 90.f, 180.f, 5000.f, -9000.f};
    for (float f : finiteOnly(dictFloats(), 1e4, 1e-6)) r.push_back(f); uniq(r);
    std::vector<float> all = r; if ((int)r.size() > cap) { std::vector<float> k; for (int i = 0; i < cap; i++) k.push_back(r[i]); r = k; }
    std::vector<std::vector<float>> ctx(3, std::vector<float>(n));
    static const float A[] = {0.83f, -1.37f, 0.46f, 2.11f, -0.59f, 1.73f, 0.29f, -0.92f, 1.21f}; static const float B[] = {3, 1, -2, 5, 4, -1, 2, 7, -3, 6, 1}; static const float Cc[] = {0.31f, 0.72f, 0.11f, 0.57f, 0.93f, 0.24f, 0.66f};
    for (int k = 0; k < n; k++) { ctx[0][k] = A[k % 9] * (1 + 0.03f * k); ctx[1][k] = B[k % 11]; ctx[2][k] = Cc[k % 7] * (1 + 0.02f * k); }
    std::vector<float> small; if (n <= 2) small = all; else if (n <= 4) small = {0, 1, -1, 0.5f, -2, 3, 0.7f}; else if (n <= 6) small = {0, 1, -1, 0.6f}; else if (n <= 8) small = {0, 1, -0.7f}; else if (n <= 10) small = {0, 1};
    return p = SP(new LaneSpace<float>(n, small, two ? r : all, ctx, two));
}
void registerFamilies() {
    static std::vector<Shape> S = shapes(); bool T = isThorough();
    for (const Shape& s : S) {
        int n; int f = floatLanes(s, &n); const Shape* sp = &s; bool vq = false; for (int a = 0; a < s.nargs; a++) vq = vq || (strchr("vq", s.args[a].kind) && s.args[a].lanes > 1);
        std::vector<SP> spaces;
        if (!f || n <= 4) spaces = {space(n, n <= 4 || T, T ? 200 : n <= 3 ? 100 : 44)}; else if (n <= 8) spaces = {space(n, true, T ? 44 : 24)}; else if (n <= 20) spaces = {space(n, true, T ? 24 : 8), space(n, false, 200)}; else spaces = {space(n, T, 8), space(n, false, 200)};
        for (int unit = 0; unit < (vq && f ? 2 : 1); unit++) for (size_t q = 0; q < spaces.size(); q++) {
            SP L = spaces[q];
            add(fmt("%s%s%s", s.name, unit ? ", unit operands" : "", q ? ", one lane" : ""), L->size(), [=](u64 i, Ctx& c) {
                float x[64]; L->decode(i, x); adapt(*sp, x, unit); if (!domain(*sp, x, unit)) return; double z[16], g[16], tol[16] = {0}; bool nt;
                int r = agree(*sp, n, x, z, g, tol, &nt); if (r < 0) return;
                c.nt(nt && L->fresh(i, x));
                c.check(r, [&] { std::string m = std::string(sp->name) + " of " + vs(x, n) + ": zcm"; for (int j = 0; j < sp->ret.lanes; j++) m += fmt(" %.9g", z[j]); m += ", GLM"; for (int j = 0; j < sp->ret.lanes; j++) m += fmt(" %.9g", g[j]); m += ", tolerance"; for (int j = 0; j < sp->ret.lanes; j++) m += fmt(" %.2g", tol[j]); return m; });
            });
        }
    }
}
