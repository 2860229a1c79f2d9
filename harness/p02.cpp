// Integer vector operators: every lane is the defined 32-bit result; == / != ; conversion to bool vectors.
#include "zall.hpp"
using namespace zcm;
typedef int64_t i64;
// 32-bit result of an operator where C++ defines it
static bool model(int op, i64 a, i64 b, int32_t& r) {
    i64 v;
    switch (op) {
    case 0: v = a + b; break; case 1: v = a - b; break; case 2: v = a * b; break;
    case 3: if (b == 0) return false; v = a / b; break;
    case 4: if (b == 0 || (a == INT_MIN && b == -1)) return false; v = a % b; break;
    case 5: v = a & b; break; case 6: v = a | b; break; case 7: v = a ^ b; break;
    case 8: if (b < 0 || b > 31 || a < 0) return false; v = a << b; break;
    default: if (b < 0 || b > 31) return false; v = a >> b; break;   // arithmetic on every supported compiler
    }
    if (v < INT_MIN || v > INT_MAX) return false;
    r = (int32_t)v; return true;
}
static const char* nm[] = {"+","-","*","/","%","&","|","^","<<",">>"};
#define APPLY(OPI, OP) template<class A, class B> static auto ap##OPI(A a, B b) -> decltype(a OP b) { return a OP b; } template<class A, class B> static void as##OPI(A& a, const B& b) { a OP##= b; }
APPLY(0,+) APPLY(1,-) APPLY(2,*) APPLY(3,/) APPLY(4,%) APPLY(5,&) APPLY(6,|) APPLY(7,^) APPLY(8,<<) APPLY(9,>>)
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9)
template<class V> struct BV; template<> struct BV<ivec2> { typedef bvec2 T; }; template<> struct BV<ivec3> { typedef bvec3 T; }; template<> struct BV<ivec4> { typedef bvec4 T; };

template<class V> void reg() {
    enum { N = Tr<V>::n };
    std::string nmv = Tr<V>::name();
    std::vector<int32_t> small = {0, 1, -1, 3, -7}, rich = mc::richInts();
    if (mc::isThorough()) { small.push_back(31); small.push_back(INT_MIN); }
    // contexts: safe for all operators (both operands 1..16, shifts defined)
    std::vector<std::vector<int32_t>> cx;
    { std::vector<int32_t> x, y; for (int k = 0; k < N; k++) x.push_back(17 + 5 * k); for (int k = 0; k < N; k++) x.push_back(1 + k);
      for (int k = 0; k < N; k++) y.push_back(1000 - 77 * k); for (int k = 0; k < N; k++) y.push_back(7 + 3 * k); cx = {x, y}; }
    auto sp = std::make_shared<LaneSpace<int32_t>>(2 * N, small, rich, cx);
    mc::add(nmv + " binary ops", sp->size(), [sp](u64 i, Ctx& c) {
        int32_t l[2 * N], e[N]; sp->decode(i, l); int32_t *la = l, *lb = l + N; bool fr = sp->fresh(i, l);
        V a = mk<V>(la), b = mk<V>(lb); bool ok;
#define ONE(K) ok = true; for (int k = 0; k < N && ok; k++) ok = model(K, la[k], lb[k], e[k]); \
        if (ok) { V r = ap##K(a, b); c.check(eqv(r, e), [&] { return fmt("%s %s %s %s = %s, expected %s", Tr<V>::name(), vs(la, N).c_str(), nm[K], vs(lb, N).c_str(), sh(r).c_str(), vs(e, N).c_str()); }); \
            c.nt(fr && e[0] != la[0]); \
            V q = a; as##K(q, b); c.check(eqv(q, e), [&] { return fmt("%s %s %s= %s gives %s, expected %s", Tr<V>::name(), vs(la, N).c_str(), nm[K], vs(lb, N).c_str(), sh(q).c_str(), vs(e, N).c_str()); }); }
        EACH(ONE)
    });
    {
        std::vector<std::vector<int32_t>> c2; { std::vector<int32_t> x, y; for (int k = 0; k < N; k++) { x.push_back(17 + 5 * k); y.push_back(2 + k); } x.push_back(3); y.push_back(5); c2 = {x, y}; }
        auto s2 = std::make_shared<LaneSpace<int32_t>>(N + 1, small, rich, c2);
        mc::add(nmv + " scalar ops", s2->size(), [s2](u64 i, Ctx& c) {
            int32_t l[N + 1], e[N]; s2->decode(i, l); int32_t* la = l; int32_t s = l[N]; V a = mk<V>(la); bool ok, fr = s2->fresh(i, l);
#define TWO(K) ok = true; for (int k = 0; k < N && ok; k++) ok = model(K, la[k], s, e[k]); \
            if (ok) { V r = ap##K(a, s); c.check(eqv(r, e), [&] { return fmt("%s %s %s scalar %d = %s, expected %s", Tr<V>::name(), vs(la, N).c_str(), nm[K], s, sh(r).c_str(), vs(e, N).c_str()); }); c.nt(fr && e[0] != la[0]); \
                V q = a; as##K(q, s); c.check(eqv(q, e), [&] { return fmt("%s %s %s= scalar %d gives %s, expected %s", Tr<V>::name(), vs(la, N).c_str(), nm[K], s, sh(q).c_str(), vs(e, N).c_str()); }); } \
            ok = true; for (int k = 0; k < N && ok; k++) ok = model(K, s, la[k], e[k]); \
            if (ok) { V r = ap##K(s, a); c.check(eqv(r, e), [&] { return fmt("scalar %d %s %s %s = %s, expected %s", s, nm[K], Tr<V>::name(), vs(la, N).c_str(), sh(r).c_str(), vs(e, N).c_str()); }); }
            EACH(TWO)
        });
    }
    // every pair of small numbers, in every lane at once: divisors and shift counts leave no gap
    { const int R = mc::isThorough() ? 700 : 130, W = 2 * R + 1; mc::add(nmv + " all pairs up to " + std::to_string(R), u64(W) * W, [R, W](u64 i, Ctx& c) {
        int32_t x = int32_t(i % W) - R, y = int32_t(i / W) - R, la[N], lb[N], e[N]; for (int k = 0; k < N; k++) { la[k] = x; lb[k] = y; } V a = mk<V>(la), b = mk<V>(lb); c.nt(x != y);
#define GRID(K) if (model(K, x, y, e[0])) { for (int k = 1; k < N; k++) e[k] = e[0]; V r = ap##K(a, b), s = ap##K(a, y), t = ap##K(x, b), q = a, u = a; as##K(q, b); as##K(u, y); \
            c.check(eqv(r, e) && eqv(s, e) && eqv(t, e) && eqv(q, e) && eqv(u, e), [&] { return fmt("%d %s %d in every lane of %s: vector with vector %s, with scalar %s, scalar with vector %s, in place %s, with scalar %s; expected %d", x, nm[K], y, Tr<V>::name(), sh(r).c_str(), sh(s).c_str(), sh(t).c_str(), sh(q).c_str(), sh(u).c_str(), e[0]); }); }
        EACH(GRID)
    }); }
    {
        std::vector<int32_t> s3 = {0, 1, -1, 2, 5, -8, 31}; 
        std::vector<std::vector<int32_t>> c3; { std::vector<int32_t> x, y; for (int k = 0; k < N; k++) { x.push_back(1 + k); y.push_back(7 - 2 * k); } c3 = {x, y}; }
        auto sp3 = std::make_shared<LaneSpace<int32_t>>(N, s3, rich, c3);
        mc::add(nmv + " unary, inc/dec, self-aliasing, to bool", sp3->size(), [sp3](u64 i, Ctx& c) {
            int32_t la[N], e[N]; sp3->decode(i, la); V a = mk<V>(la); bool ok, fr = sp3->fresh(i, la);
            V p = +a; c.check(eqv(p, la), [&] { return fmt("+%s = %s", vs(la, N).c_str(), sh(p).c_str()); });
            ok = true; for (int k = 0; k < N && ok; k++) ok = model(1, 0, la[k], e[k]);
            if (ok) { V m = -a; c.check(eqv(m, e), [&] { return fmt("-%s %s = %s", Tr<V>::name(), vs(la, N).c_str(), sh(m).c_str()); }); c.nt(fr); }
            for (int d = 1; d >= -1; d -= 2) {
                ok = true; for (int k = 0; k < N && ok; k++) ok = model(0, la[k], d, e[k]);
                if (!ok) continue;
                V q = a; V& r = d > 0 ? ++q : --q;
                c.check(eqv(q, e) && &r == &q, [&] { return fmt("prefix %+d on %s %s leaves %s, expected %s (returns the object: %d)", d, Tr<V>::name(), vs(la, N).c_str(), sh(q).c_str(), vs(e, N).c_str(), &r == &q); });
                V w = a; V old = d > 0 ? w++ : w--;
                c.check(eqv(w, e) && eqv(old, la), [&] { return fmt("postfix %+d on %s %s leaves %s returns %s, expected %s", d, Tr<V>::name(), vs(la, N).c_str(), sh(w).c_str(), sh(old).c_str(), vs(e, N).c_str()); });
            }
#define SELF(K) ok = true; for (int k = 0; k < N && ok; k++) ok = model(K, la[k], la[k], e[k]); \
            if (ok) { V q = a; as##K(q, q); c.check(eqv(q, e), [&] { return fmt("%s v=%s; v %s= v gives %s, expected %s", Tr<V>::name(), vs(la, N).c_str(), nm[K], sh(q).c_str(), vs(e, N).c_str()); }); } \
            for (int j = 0; j < N; j++) { ok = true; for (int k = 0; k < N && ok; k++) ok = model(K, la[k], la[j], e[k]); \
                if (ok) { V w = a; as##K(w, w[j]); c.check(eqv(w, e), [&] { return fmt("%s v=%s; v %s= v[%d] gives %s, expected %s", Tr<V>::name(), vs(la, N).c_str(), nm[K], j, sh(w).c_str(), vs(e, N).c_str()); }); } }
            EACH(SELF)
            typename BV<V>::T b = a; bool eb[N]; for (int k = 0; k < N; k++) eb[k] = la[k] != 0;
            c.check(eqv(b, eb), [&] { return fmt("bool vector of %s %s is %s", Tr<V>::name(), vs(la, N).c_str(), sh(b).c_str()); });
        });
    }
    {
        std::vector<std::vector<int32_t>> cx2; for (int w = 0; w < 3; w++) { std::vector<int32_t> x; for (int k = 0; k < 2 * N; k++) { int j = k % N; x.push_back(w == 0 ? 1 + j : w == 1 ? 0 : -1000 * j + 7); } cx2.push_back(x); }
        auto s4 = std::make_shared<LaneSpace<int32_t>>(2 * N, std::vector<int32_t>{0, 1, -1, 256}, rich, cx2);
        mc::add(nmv + " == and !=", s4->size(), [s4](u64 i, Ctx& c) {
            int32_t l[2 * N]; s4->decode(i, l); V a = mk<V>(l), b = mk<V>(l + N); bool e = std::memcmp(l, l + N, 4 * N) == 0;
            bool g = a == b, h = a != b; c.check(g == e && h == !e, [&] { return fmt("%s %s vs %s: == is %d, != is %d", Tr<V>::name(), vs(l, N).c_str(), vs(l + N, N).c_str(), g, h); });
            c.nt(s4->fresh(i, l) && e);
        });
    }
}
void registerFamilies() { reg<ivec2>(); reg<ivec3>(); reg<ivec4>(); }
