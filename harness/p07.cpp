// Histories: breadth-first search over the states of two objects of one type under every mutating
// operation; each transition is executed on the real objects (with guard words around them) and on
// plain arrays.
#include "zall.hpp"
#include <unordered_map>
#include <unordered_set>
using namespace zcm;
typedef std::string Str;
template<class V> struct Op { Str name; std::function<bool(typename Tr<V>::S*, typename Tr<V>::S*)> model; std::function<void(V&, V&)> real; };
#define OP(NAME, MODEL, REAL) ops.push_back({NAME, [=](S* A, S* B) -> bool { (void)A; (void)B; MODEL; return true; }, [=](V& a, V& b) { (void)a; (void)b; REAL; }})
static bool fits(int64_t v, int32_t& r) { if (v < INT_MIN || v > INT_MAX) return false; r = (int32_t)v; return true; }
static bool ap(char op, float& r, float a, float b) { switch (op) { case '+': r = a + b; break; case '-': r = a - b; break; case '*': r = a * b; break; default: r = a / b; } return true; }
static bool ap(char op, int32_t& r, int64_t a, int64_t b) { switch (op) { case '+': return fits(a + b, r); case '-': return fits(a - b, r); case '*': return fits(a * b, r); case '/': return b != 0 && fits(a / b, r); case '%': return b != 0 && b != -1 && fits(a % b, r);
    case '&': return fits(a & b, r); case '|': return fits(a | b, r); case '^': return fits(a ^ b, r); case 'l': return b >= 0 && b < 32 && a >= 0 && fits(a << b, r); default: return b >= 0 && b < 32 && fits(a >> b, r); } }
template<int N, class S> static bool lanes(char op, S* r, const S* x, const S* y) { S t[N]; for (int k = 0; k < N; k++) if (!ap(op, t[k], x[k], y[k])) return false; std::copy(t, t + N, r); return true; }
template<int N, class S> static bool lanesS(char op, S* r, const S* x, S y) { S t[N]; for (int k = 0; k < N; k++) if (!ap(op, t[k], x[k], y)) return false; std::copy(t, t + N, r); return true; }
template<class V, class S> static void arith(std::vector<Op<V>>& ops, char ch, const char* t, void (*vv)(V&, V&), void (*vs_)(V&, const S&)) {   // by reference, so that a component of the object itself arrives as such
    enum { N = Tr<V>::n }; Str T = t;
    OP("a " + T + " b", if (!lanes<N>(ch, A, A, B)) return false, vv(a, b));
    OP("a " + T + " a", if (!lanes<N>(ch, A, A, A)) return false, vv(a, a));
    OP("b " + T + " a", if (!lanes<N>(ch, B, B, A)) return false, vv(b, a));
    OP("a " + T + " 2", if (!lanesS<N>(ch, A, A, S(2))) return false, vs_(a, S(2)));
    for (int k = 0; k < N; k++) {
        OP("a " + T + " a[" + std::to_string(k) + "]", if (!lanesS<N>(ch, A, A, S(A[k]))) return false, vs_(a, a[k]));
        OP("a " + T + " b[" + std::to_string(k) + "]", if (!lanesS<N>(ch, A, A, S(B[k]))) return false, vs_(a, b[k]));
    }
}
template<class V> static void common(std::vector<Op<V>>& ops) {
    typedef typename Tr<V>::S S; enum { N = Tr<V>::n };
    OP("a = b", std::copy(B, B + N, A), a = b); OP("b = a", std::copy(A, A + N, B), b = a);
    OP("a = a", , { V& r = a; a = r; }); OP("swap(a, b)", std::swap_ranges(A, A + N, B), std::swap(a, b)); OP("a = copy of b", std::copy(B, B + N, A), { V t(b); a = t; });
}
template<class V> static void index(std::vector<Op<V>>& ops) {
    typedef typename Tr<V>::S S; enum { N = Tr<V>::n };
    for (int k = 0; k < N; k++) { OP("a[" + std::to_string(k) + "] = 3", A[k] = S(3), a[k] = S(3)); for (int j = 0; j < N; j++) OP("a[" + std::to_string(k) + "] = b[" + std::to_string(j) + "]", A[k] = B[j], a[k] = b[j]); OP("a[" + std::to_string(k) + "] = a[" + std::to_string((k + 1) % N) + "]", A[k] = A[(k + 1) % N], a[k] = a[(k + 1) % N]); }
}
template<class V> static void incdec(std::vector<Op<V>>& ops) {
    typedef typename Tr<V>::S S; enum { N = Tr<V>::n };
    OP("++a", if (!lanesS<N>('+', A, A, S(1))) return false, ++a); OP("--b", if (!lanesS<N>('-', B, B, S(1))) return false, --b);
    OP("b = a++", { S o[N]; std::copy(A, A + N, o); if (!lanesS<N>('+', A, A, S(1))) return false; std::copy(o, o + N, B); }, b = a++); OP("b = a--", { S o[N]; std::copy(A, A + N, o); if (!lanesS<N>('-', A, A, S(1))) return false; std::copy(o, o + N, B); }, b = a--);
    OP("b = ++a", { if (!lanesS<N>('+', A, A, S(1))) return false; std::copy(A, A + N, B); }, b = ++a); OP("a = a++", { S o[N]; if (!lanesS<N>('+', o, A, S(1))) return false; }, a = a++);
}
// component names: x with r and s as aliases of it
#define NAMES(M) M(0, x, y) M(1, g, r)
#define NAME1(I, NM, NM2) OP("a." #NM " += b." #NM2, if (!ap('+', A[I], A[I], B[1 - I])) return false, a.NM += b.NM2); OP("a." #NM " = b." #NM, A[I] = B[I], a.NM = b.NM); OP("a." #NM " *= a." #NM2, if (!ap('*', A[I], A[I], A[1 - I])) return false, a.NM *= a.NM2); OP("a." #NM "++", if (!ap('+', A[I], A[I], S(1))) return false, a.NM++);
template<class V> static void names(std::vector<Op<V>>& ops) { typedef typename Tr<V>::S S; NAMES(NAME1) }
#define N3(I, NM, J, NM2) { OP("a." #NM " = b." #NM, A[I] = B[I], a.NM = b.NM); OP("b." #NM " -= a." #NM2, if (!ap('-', B[I], B[I], A[J])) return false, b.NM -= a.NM2); OP("--a." #NM, if (!ap('-', A[I], A[I], S(1))) return false, --a.NM); }
#define ARI(CH, TOK) arith<V, S>(ops, CH, #TOK, [](V& a, V& b) { a TOK b; }, [](V& a, const S& s) { a TOK s; });
template<class V> std::vector<Op<V>> opsOf();
template<class V> static std::vector<Op<V>> fvec() { typedef float S; std::vector<Op<V>> ops; ARI('+', +=) ARI('-', -=) ARI('*', *=) ARI('/', /=) common<V>(ops); index<V>(ops); incdec<V>(ops); names<V>(ops); return ops; }
template<class V> static std::vector<Op<V>> ivec() { typedef int32_t S; std::vector<Op<V>> ops; ARI('+', +=) ARI('-', -=) ARI('*', *=) ARI('/', /=) ARI('%', %=) ARI('&', &=) ARI('|', |=) ARI('^', ^=) ARI('l', <<=) ARI('r', >>=) common<V>(ops); index<V>(ops); incdec<V>(ops); names<V>(ops); return ops; }
template<> std::vector<Op<vec2>> opsOf<vec2>() { return fvec<vec2>(); }
template<> std::vector<Op<vec3>> opsOf<vec3>() { typedef vec3 V; typedef float S; auto ops = fvec<vec3>(); N3(2, z, 0, x) N3(2, b, 1, y) return ops; }
template<> std::vector<Op<vec4>> opsOf<vec4>() { typedef vec4 V; typedef float S; auto ops = fvec<vec4>(); N3(2, z, 0, x) N3(3, w, 1, y) N3(3, a, 2, b) return ops; }
template<> std::vector<Op<ivec2>> opsOf<ivec2>() { return ivec<ivec2>(); }
template<> std::vector<Op<ivec3>> opsOf<ivec3>() { typedef ivec3 V; typedef int32_t S; auto ops = ivec<ivec3>(); N3(2, z, 0, x) N3(2, p, 1, y) return ops; }
template<> std::vector<Op<ivec4>> opsOf<ivec4>() { typedef ivec4 V; typedef int32_t S; auto ops = ivec<ivec4>(); N3(2, z, 0, x) N3(3, w, 1, y) N3(3, q, 2, b) return ops; }
template<class V> static std::vector<Op<V>> bvec() {
    typedef bool S; enum { N = Tr<V>::n }; std::vector<Op<V>> ops;
#define BO(T, E) { OP("a " #T " b", for (int k = 0; k < N; k++) { bool x = A[k]; bool y = B[k]; A[k] = E; }, a T b); OP("a " #T " a", for (int k = 0; k < N; k++) { bool x = A[k]; bool y = A[k]; A[k] = E; }, a T a); OP("b " #T " a", for (int k = 0; k < N; k++) { bool x = B[k]; bool y = A[k]; B[k] = E; }, b T a); \
    for (int s = 0; s < 2; s++) OP(Str("a " #T) + (s ? " true" : " false"), for (int k = 0; k < N; k++) { bool x = A[k]; bool y = s; A[k] = E; }, a T bool(s)); \
    for (int j = 0; j < N; j++) { OP("a " #T " a[" + std::to_string(j) + "]", bool y = A[j]; for (int k = 0; k < N; k++) { bool x = A[k]; A[k] = E; }, a T a[j]); OP("a " #T " b[" + std::to_string(j) + "]", bool y = B[j]; for (int k = 0; k < N; k++) { bool x = A[k]; A[k] = E; }, a T b[j]); } }
    BO(&=, x && y) BO(|=, x || y) BO(^=, x != y)
    common<V>(ops); index<V>(ops); for (int k = 0; k < N; k++) OP("a[" + std::to_string(k) + "] = false", A[k] = false, a[k] = false);
    OP("a.x = b.y", A[0] = B[1], a.x = b.y); OP("a.y = a.x", A[1] = A[0], a.y = a.x); OP("a = !b", for (int k = 0; k < N; k++) A[k] = !B[k], a = !b);
    return ops;
}
template<> std::vector<Op<bvec2>> opsOf<bvec2>() { return bvec<bvec2>(); } template<> std::vector<Op<bvec3>> opsOf<bvec3>() { return bvec<bvec3>(); } template<> std::vector<Op<bvec4>> opsOf<bvec4>() { return bvec<bvec4>(); }
// products are only modelled while every way of writing them (sums of pairs included) is exact in a float:
// headroom * max|a| * max|b| counted in units of the coarsest common granularity has to fit the significand
static void grain(const float* p, int n, double& top, double& unit) { top = 0; unit = 1; for (int k = 0; k < n; k++) { double v = std::fabs(p[k]); if (!(v <= 1e6)) { top = 1e30; return; } top = std::max(top, v); while (std::floor(v / unit) * unit != v && unit > 1e-6) unit /= 2; } }
static bool exactProduct(const float* a, const float* b, int n, double headroom) { double ta, ua, tb, ub; grain(a, n, ta, ua); grain(b, n, tb, ub); return ua > 1e-6 && ub > 1e-6 && headroom * (ta / ua) * (tb / ub) <= 16777216.; }
static bool qmul(float* R, const float* a, const float* b) { if (!exactProduct(a, b, 4, 64)) return false; float x = a[0], y = a[1], z = a[2], w = a[3], X = b[0], Y = b[1], Z = b[2], W = b[3];
    float r[4] = {w * X + x * W + y * Z - z * Y, w * Y - x * Z + y * W + z * X, w * Z + x * Y - y * X + z * W, w * W - x * X - y * Y - z * Z}; std::copy(r, r + 4, R); return true; }
template<> std::vector<Op<quat>> opsOf<quat>() {
    typedef quat V; typedef float S; enum { N = 4 }; std::vector<Op<V>> ops;
    OP("a += b", if (!lanes<4>('+', A, A, B)) return false, a += b); OP("a += a", if (!lanes<4>('+', A, A, A)) return false, a += a); OP("a -= b", if (!lanes<4>('-', A, A, B)) return false, a -= b); OP("a -= a", if (!lanes<4>('-', A, A, A)) return false, a -= a); OP("b -= a", if (!lanes<4>('-', B, B, A)) return false, b -= a);
    OP("a *= b", if (!qmul(A, A, B)) return false, a *= b); OP("a *= a", if (!qmul(A, A, A)) return false, a *= a); OP("b *= a", if (!qmul(B, B, A)) return false, b *= a);
    for (float s : {2.f, 0.5f, -1.f}) { OP(fmt("a *= %g", s), lanesS<4>('*', A, A, s), a *= s); OP(fmt("a /= %g", s), lanesS<4>('/', A, A, s), a /= s); }
    for (int k = 0; k < 4; k++) { OP(fmt("a *= a[%d]", k), { float s = A[k]; lanesS<4>('*', A, A, s); }, a *= a[k]); OP(fmt("a /= a[%d] (power of two)", k), { float s = A[k]; int e; if (s == 0 || std::fabs(std::frexp(s, &e)) != 0.5f || !mc::finite(s)) return false; lanesS<4>('/', A, A, s); }, a /= a[k]); }
    OP("a.x = b.w", A[0] = B[3], a.x = b.w); OP("a.w = a.z", A[3] = A[2], a.w = a.z); OP("a.y = 5", A[1] = 5, a.y = 5);
    common<V>(ops); index<V>(ops); return ops;
}
template<int D> static bool mmul(float* R, const float* a, const float* b) { if (!exactProduct(a, b, D * D, 16)) return false; float r[D * D];
    for (int c = 0; c < D; c++) for (int w = 0; w < D; w++) { float s = 0; for (int k = 0; k < D; k++) s += a[k * D + w] * b[c * D + k]; r[c * D + w] = s; } std::copy(r, r + D * D, R); return true; }
template<class V, class C, int D> static std::vector<Op<V>> mops() {
    typedef float S; enum { N = D * D }; std::vector<Op<V>> ops;
    OP("a += b", lanes<N>('+', A, A, B), a += b); OP("a += a", lanes<N>('+', A, A, A), a += a); OP("a -= b", lanes<N>('-', A, A, B), a -= b); OP("a -= a", lanes<N>('-', A, A, A), a -= a); OP("b -= a", lanes<N>('-', B, B, A), b -= a);
    OP("a *= b", if (!mmul<D>(A, A, B)) return false, a *= b); OP("a *= a", if (!mmul<D>(A, A, A)) return false, a *= a); OP("b *= a", if (!mmul<D>(B, B, A)) return false, b *= a);
    OP("a = a * b", if (!mmul<D>(A, A, B)) return false, a = a * b); OP("a = b * a", if (!mmul<D>(A, B, A)) return false, a = b * a); OP("a = transpose(a)", for (int i = 0; i < D; i++) for (int j = 0; j < i; j++) std::swap(A[i * D + j], A[j * D + i]), a = transpose(a));
    for (int j = 0; j < D; j++) { for (int k = 0; k < D; k++) { OP(fmt("a[%d] = b[%d]", j, k), std::copy(B + k * D, B + k * D + D, A + j * D), a[j] = b[k]); OP(fmt("a[%d][%d] = 3", j, k), A[j * D + k] = 3, a[j][k] = 3.f);
            if (j != k) { OP(fmt("a[%d] += a[%d]", j, k), lanes<D>('+', A + j * D, A + j * D, A + k * D), a[j] += a[k]); OP(fmt("a[%d] = a[%d]", j, k), std::copy(A + k * D, A + k * D + D, A + j * D), a[j] = a[k]); } }
        OP(fmt("a[%d].x = b[%d].y", j, j), A[j * D] = B[j * D + 1], a[j].x = b[j].y); OP(fmt("a[%d].y = b[%d].y", j, j), A[j * D + 1] = B[j * D + 1], a[j].y = b[j].y); OP(fmt("a[%d] -= a[%d]", j, j), lanes<D>('-', A + j * D, A + j * D, A + j * D), a[j] -= a[j]); OP(fmt("a[%d] *= 2", j), lanesS<D>('*', A + j * D, A + j * D, 2.f), a[j] *= 2.f); }
    common<V>(ops); return ops;
}
template<> std::vector<Op<mat2>> opsOf<mat2>() { return mops<mat2, vec2, 2>(); } template<> std::vector<Op<mat3>> opsOf<mat3>() { return mops<mat3, vec3, 3>(); } template<> std::vector<Op<mat4>> opsOf<mat4>() { return mops<mat4, vec4, 4>(); }

template<class S> static S val(int i); template<> float val(int i) { static const float t[] = {1, -2, 3, 0, 4, -1, 2, 5, -3, 7, 6, -4, 1, 0, -5, 8}; return t[i % 16]; } template<> int32_t val(int i) { return (int32_t)val<float>(i); } template<> bool val(int i) { return val<float>(i) > 0 && i != 2; }
template<class S> static S extreme(int i); template<> float extreme(int i) { static const float t[] = {INFINITY, 1, -2, NAN, 3, -INFINITY, 0.25f}; return t[i % 7]; } template<> int32_t extreme(int i) { static const int32_t t[] = {INT_MAX, 1, INT_MIN, -3, INT_MAX / 2, -49, 1 << 24 | 1}; return t[i % 7]; } template<> bool extreme(int i) { return i % 3 == 0; }
// sums of products may produce either zero: quaternion and matrix states do not tell them apart (vector states do)
template<class V> static bool zeroBlind() { return Tr<V>::n > 4 || std::is_same<V, quat>::value || std::is_same<V, mat2>::value; }
template<class V, class S> static S canon(S s) { return s; } template<class V> static float canon(float f) { return f != f ? NAN : zeroBlind<V>() && f == 0 ? 0.f : f; }
template<class V> static bool agree(const V& v, const typename Tr<V>::S* e) { if (!zeroBlind<V>()) return eqv(v, e); typename Tr<V>::S p[Tr<V>::n]; rd(v, p); for (int k = 0; k < Tr<V>::n; k++) if (!mc::sameZ(float(p[k]), float(e[k]))) return false; return true; }

template<class V> static void bfs(u64 i, int depth, u64 cap, Ctx& c) {
    typedef typename Tr<V>::S S; enum { N = Tr<V>::n };
    static const std::vector<Op<V>> ops = opsOf<V>();
    struct St { S a[N], b[N]; }; struct Key { size_t operator()(const Str& s) const { return std::hash<Str>()(s); } };
    std::vector<St> states; std::vector<int> parent, via, dep; std::unordered_set<Str> seen;
    auto add = [&](const St& s, int p, int o, int d) { St t; std::memset((void*)&t, 0, sizeof t); for (int k = 0; k < N; k++) { t.a[k] = canon<V>(s.a[k]); t.b[k] = canon<V>(s.b[k]); } if (seen.insert(Str((char*)&t, sizeof t)).second) { states.push_back(t); parent.push_back(p); via.push_back(o); dep.push_back(d); ++c.states; } };
    St s0; for (int k = 0; k < N; k++) { s0.a[k] = val<S>(k + (i ? 5 : 0)); s0.b[k] = i == 1 ? s0.a[k] : val<S>(k + 7); if (i == 2) { s0.a[k] = S(0); s0.b[k] = S(k == 0); } if (i == 3) { s0.a[k] = extreme<S>(k); s0.b[k] = extreme<S>(k + 3); } } add(s0, -1, -1, 0);
    struct Box { S g0[8]; alignas(16) V a; S g1[8]; alignas(16) V b; S g2[8]; };
    for (size_t q = 0; q < states.size(); q++) {
        if (dep[q] >= depth) break;
        for (size_t o = 0; o < ops.size(); o++) {
            St m = states[q]; if (!ops[o].model(m.a, m.b)) continue;
            Box x; S g = S(1); for (int k = 0; k < 8; k++) x.g0[k] = x.g1[k] = x.g2[k] = g; x.a = mk<V>(states[q].a); x.b = mk<V>(states[q].b);
            ops[o].real(x.a, x.b); ++c.transitions; ++c.traces;
            bool gu = true; for (int k = 0; k < 8; k++) gu = gu && std::memcmp(&x.g0[k], &g, sizeof g) == 0 && std::memcmp(&x.g1[k], &g, sizeof g) == 0 && std::memcmp(&x.g2[k], &g, sizeof g) == 0;
            c.nt(std::memcmp(&m, &states[q], sizeof m) != 0);
            c.check(gu && agree(x.a, m.a) && agree(x.b, m.b), [&] { Str h; int p = (int)q; while (p > 0) { h = ops[via[p]].name + "; " + h; p = parent[p]; }
                return fmt("%s a=%s b=%s; history: %s%s gives a=%s b=%s, expected a=%s b=%s (guards intact: %d)", Tr<V>::name(), vs(s0.a, N).c_str(), vs(s0.b, N).c_str(), h.c_str(), ops[o].name.c_str(), sh(x.a).c_str(), sh(x.b).c_str(), vs(m.a, N).c_str(), vs(m.b, N).c_str(), gu); });
            if (dep[q] + 1 < depth) add(m, (int)q, (int)o, dep[q] + 1); else if (seen.size() < cap) add(m, (int)q, (int)o, dep[q] + 1);
        }
    }
}
template<class V> static void reg(int depth) { 
    mc::add(std::string(Tr<V>::name()) + " histories, depth " + std::to_string(depth), 4, [depth](u64 i, Ctx& c) { bfs<V>(i, depth, 200000, c); }, 1); }
void registerFamilies() {
    int t = mc::isThorough();
    reg<vec2>(3 + t); reg<vec3>(3 + t); reg<vec4>(3 + t); reg<ivec2>(3); reg<ivec3>(3); reg<ivec4>(2 + t); reg<bvec2>(9); reg<bvec3>(9); reg<bvec4>(9); reg<quat>(3 + t); reg<mat2>(3 + t); reg<mat3>(2 + t); reg<mat4>(2 + t);
}
