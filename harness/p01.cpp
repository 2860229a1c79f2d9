// Float vector operators: every lane is the IEEE result of the operator on that lane.
#include "zall.hpp"
using namespace zcm;
template<class T> T opAdd(T a, T b) { return a + b; }
#define BIN(OPN, OP) { \
    for (int k = 0; k < N; k++) e[k] = la[k] OP lb[k]; \
    V r = a OP b; c.check(eqv(r, e), [&] { return fmt("%s %s " #OP " %s = %s, expected %s", Tr<V>::name(), vsx(la, N).c_str(), vsx(lb, N).c_str(), sh(r).c_str(), vs(e, N).c_str()); }); \
    c.nt(fr && e[0] == e[0] && !same(e[0], la[0])); \
    V q = a; q OP##= b; c.check(eqv(q, e), [&] { return fmt("%s %s " #OP "= %s gives %s, expected %s", Tr<V>::name(), vsx(la, N).c_str(), vsx(lb, N).c_str(), sh(q).c_str(), vs(e, N).c_str()); }); }
#define SCA(OP) { \
    for (int k = 0; k < N; k++) e[k] = la[k] OP s; \
    V r = a OP s; c.check(eqv(r, e), [&] { return fmt("%s %s " #OP " scalar %s = %s, expected %s", Tr<V>::name(), vsx(la, N).c_str(), fs(s).c_str(), sh(r).c_str(), vs(e, N).c_str()); }); \
    c.nt(fr && e[0] == e[0] && !same(e[0], la[0])); \
    V q = a; q OP##= s; c.check(eqv(q, e), [&] { return fmt("%s %s " #OP "= scalar %s gives %s, expected %s", Tr<V>::name(), vsx(la, N).c_str(), fs(s).c_str(), sh(q).c_str(), vs(e, N).c_str()); }); \
    for (int k = 0; k < N; k++) e[k] = s OP la[k]; \
    V t = s OP a; c.check(eqv(t, e), [&] { return fmt("scalar %s " #OP " %s %s = %s, expected %s", fs(s).c_str(), Tr<V>::name(), vsx(la, N).c_str(), sh(t).c_str(), vs(e, N).c_str()); }); }
// the object itself, or one of its own lanes, is the right operand
#define ALIAS(OP) { \
    for (int k = 0; k < N; k++) e[k] = la[k] OP la[k]; \
    V q = a; q OP##= q; c.check(eqv(q, e), [&] { return fmt("%s v=%s; v " #OP "= v gives %s, expected %s", Tr<V>::name(), vsx(la, N).c_str(), sh(q).c_str(), vs(e, N).c_str()); }); \
    for (int j = 0; j < N; j++) { for (int k = 0; k < N; k++) e[k] = la[k] OP la[j]; \
        V w = a; w OP##= w[j]; c.check(eqv(w, e), [&] { return fmt("%s v=%s; v " #OP "= v[%d] gives %s, expected %s", Tr<V>::name(), vsx(la, N).c_str(), j, sh(w).c_str(), vs(e, N).c_str()); }); } }

template<class V> void reg() {
    enum { N = Tr<V>::n };
    std::string nm = Tr<V>::name();
    std::vector<float> small = {0.f, 1.f, -2.f, INFINITY, NAN};
    if (mc::isThorough()) { small.push_back(-0.f); small.push_back(0.1f); }
    auto rich = mc::richFloats();
    {
        auto sp = std::make_shared<LaneSpace<float>>(2 * N, small, rich, mc::contexts<float>(2 * N));
        mc::add(nm + " binary ops", sp->size(), [sp](u64 i, Ctx& c) {
            float l[2 * N], e[N]; sp->decode(i, l); float *la = l, *lb = l + N; bool fr = sp->fresh(i, l);
            V a = mk<V>(la), b = mk<V>(lb);
            BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /)
        });
    }
    {
        auto sp = std::make_shared<LaneSpace<float>>(N + 1, small, rich, mc::contexts<float>(N + 1));
        mc::add(nm + " scalar ops", sp->size(), [sp](u64 i, Ctx& c) {
            float l[N + 1], e[N]; sp->decode(i, l); float* la = l; float s = l[N]; bool fr = sp->fresh(i, l);
            V a = mk<V>(la);
            SCA(+) SCA(-) SCA(*) SCA(/)
        });
    }
    {
        std::vector<float> s2 = small; s2.insert(s2.end(), {-0.f, -1.f, 8388608.f, -0.75f});
        auto sp = std::make_shared<LaneSpace<float>>(N, s2, rich, mc::contexts<float>(N));
        mc::add(nm + " unary ops, inc/dec, self-aliasing", sp->size(), [sp](u64 i, Ctx& c) {
            float la[N], e[N]; sp->decode(i, la); bool fr = sp->fresh(i, la);
            V a = mk<V>(la);
            V m = -a; for (int k = 0; k < N; k++) e[k] = -la[k];
            c.check(eqv(m, e), [&] { return fmt("-%s %s = %s", Tr<V>::name(), vsx(la, N).c_str(), sh(m).c_str()); }); c.nt(fr && e[0] == e[0]);
            V p = +a; c.check(eqv(p, la), [&] { return fmt("+%s %s = %s", Tr<V>::name(), vsx(la, N).c_str(), sh(p).c_str()); });
            for (int d = 1; d >= -1; d -= 2) {
                for (int k = 0; k < N; k++) e[k] = la[k] + float(d);
                V q = a; V& r = d > 0 ? ++q : --q;
                c.check(eqv(q, e) && &r == &q, [&] { return fmt("prefix %+d on %s %s leaves %s, expected %s (returns the object: %d)", d, Tr<V>::name(), vsx(la, N).c_str(), sh(q).c_str(), vs(e, N).c_str(), &r == &q); });
                V w = a; V old = d > 0 ? w++ : w--;
                c.check(eqv(w, e) && eqv(old, la), [&] { return fmt("postfix %+d on %s %s leaves %s returns %s, expected %s returns the old value", d, Tr<V>::name(), vsx(la, N).c_str(), sh(w).c_str(), sh(old).c_str(), vs(e, N).c_str()); });
            }
            ALIAS(+) ALIAS(-) ALIAS(*) ALIAS(/)
        });
    }
    {   // equality: pairs that agree except in at most two of the 2N lanes, plus all small combinations
        std::vector<std::vector<float>> cx;
        for (int w = 0; w < 3; w++) { std::vector<float> x; for (int k = 0; k < 2 * N; k++) { int j = k % N; x.push_back(w == 0 ? 1.f + j : w == 1 ? 0.f : (j == N - 1 ? NAN : -3.f * j + 50.f)); } cx.push_back(x); }
        auto sp = std::make_shared<LaneSpace<float>>(2 * N, std::vector<float>{0.f, -0.f, 1.f, NAN}, rich, cx);
        mc::add(nm + " == and !=", sp->size(), [sp](u64 i, Ctx& c) {
            float l[2 * N]; sp->decode(i, l); bool fr = sp->fresh(i, l);
            V a = mk<V>(l), b = mk<V>(l + N); bool e = true; for (int k = 0; k < N; k++) e = e && l[k] == l[N + k];
            bool g = a == b, h = a != b;
            c.check(g == e && h == !e, [&] { return fmt("%s %s vs %s: == is %d, != is %d, expected %d %d", Tr<V>::name(), vsx(l, N).c_str(), vsx(l + N, N).c_str(), g, h, e, !e); });
            c.nt(fr && e);
        });
    }
}
void registerFamilies() { reg<vec2>(); reg<vec3>(); reg<vec4>(); }
