#pragma once
#ifndef MC_MAIN
#define MC_NO_MAIN
#endif
#include "mc.hpp"
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <type_traits>
using mc::u64; using mc::Ctx; using mc::fmt; using mc::same; using mc::vs;
template<class V> struct Sc; 
#define SC(V, T, N) template<> struct Sc<zcm::V> { typedef T S; enum { n = N }; };
SC(vec2, float, 2) SC(vec3, float, 3) SC(vec4, float, 4) SC(ivec2, int32_t, 2) SC(ivec3, int32_t, 3) SC(ivec4, int32_t, 4)
#undef SC
template<class V> V make_(const typename Sc<V>::S* p) { V v; std::memcpy((void*)&v, p, sizeof(V)); return v; }
template<class V> bool is_(const V& v, const typename Sc<V>::S* e) { typename Sc<V>::S p[Sc<V>::n]; std::memcpy(p, (const void*)&v, sizeof p); for (int k = 0; k < Sc<V>::n; k++) if (!same(p[k], e[k])) return false; return true; }
template<class V> std::string show_(const V& v) { typename Sc<V>::S p[Sc<V>::n]; std::memcpy(p, (const void*)&v, sizeof p); return vs(p, Sc<V>::n); }
inline bool is_(float v, const float* e) { return same(v, *e); } inline bool is_(int32_t v, const int32_t* e) { return v == *e; }
inline std::string show_(float v) { return mc::fs(v); } inline std::string show_(int32_t v) { return fmt("%d", v); }
// a tuple space of pairwise distinct components with one deviating lane
template<class S> std::vector<S> rich_(); template<> inline std::vector<float> rich_() { return mc::richFloats(); } template<> inline std::vector<int32_t> rich_() { return mc::richInts(); }
template<class V> struct Space { typedef typename Sc<V>::S S; enum { n = Sc<V>::n };
    mc::LaneSpace<S> sp; Space() : sp(n, {}, rich_<S>(), {base(0), base(1)}, false) {}
    static std::vector<S> base(int w) { std::vector<S> b; for (int k = 0; k < n; k++) b.push_back(w ? S(-50 + 7 * k) : S(1 + k)); return b; } };

// read a name: 1 = right, 0 = wrong or missing.  out receives the value
#define P06_READ(V, NM, R) \
    template<class V_> bool rdi_##NM(const V_& v, R& o, decltype((void)static_cast<R>(v.NM), 0)) { R a = v.NM; R b = format_as(v.NM); o = a; return std::memcmp((const void*)&a, (const void*)&b, sizeof(R)) == 0; } \
    template<class V_> bool rdi_##NM(const V_&, R&, ...) { return false; } \
    template<class V_> bool rd_##NM(const V_& v, R& o) { return rdi_##NM<V_>(v, o, 0); } \
    template<class V_> auto asi_##NM(V_& v, const V_& u, int) -> decltype((void)(v.NM = u.NM), true) { v.NM = u.NM; return true; } \
    template<class V_> bool asi_##NM(V_&, const V_&, long) { return false; } \
    template<class V_> bool as_##NM(V_& v, const V_& u) { return asi_##NM<V_>(v, u, 0); }
template<class V, class R> struct Name { const char* nm; int ix[4]; bool (*rd)(const V&, R&); bool (*as)(V&, const V&); };
template<class V, class R, int L> void readers(const char* type, const Name<V, R>* t, size_t cnt) {
    typedef typename Sc<V>::S S; enum { n = Sc<V>::n }; auto sp = std::make_shared<Space<V>>(); u64 W = sp->sp.size();
    mc::add(std::string(type) + " reads of length " + std::to_string(L), cnt * W, [=](u64 i, Ctx& c) {
        const Name<V, R>& m = t[i / W]; S l[n], e[4]; sp->sp.decode(i % W, l); V v = make_<V>(l); R got{}; for (int k = 0; k < L; k++) e[k] = l[m.ix[k]];
        bool ok = m.rd(v, got) && is_(got, e); c.nt(sp->sp.fresh(i % W, l) && (i % W) != 0);
        c.check(ok && is_(v, l), [&] { return fmt("%s %s .%s = %s, expected %s", type, vs(l, n).c_str(), m.nm, show_(got).c_str(), vs(e, L).c_str()); });
        if (m.as) { S q[n], x[n]; for (int k = 0; k < n; k++) { q[k] = S(200 + k); x[k] = q[k]; } for (int k = 0; k < L; k++) x[m.ix[k]] = l[m.ix[k]];
            V w = make_<V>(q); bool done = m.as(w, v);
            if (done) c.check(is_(w, x) && is_(v, l), [&] { return fmt("%s %s .%s = (%s).%s leaves %s, expected %s", type, vs(q, n).c_str(), m.nm, vs(l, n).c_str(), m.nm, show_(w).c_str(), vs(x, n).c_str()); }); 
            if (L == 1) c.check(done, [&] { return fmt("%s .%s cannot be assigned from the same component of another object", type, m.nm); }); }
    });
}
// write a name: operation op with operand s; returns false if the operation does not exist
template<class A, class S> typename std::enable_if<std::is_floating_point<S>::value, bool>::type iops(A&, int, S) { return false; }
template<class A, class S> typename std::enable_if<!std::is_floating_point<S>::value, bool>::type iops(A& a, int op, S s) {
    switch (op) { case 9: a %= s; return true; case 10: a |= s; return true; case 11: a &= s; return true; case 12: a ^= s; return true; case 13: a <<= s; return true; case 14: a >>= s; return true; } return false; }
template<class A, class S> auto setv(A& a, S s, int) -> decltype((void)(a = s), true) { a = s; return true; }
template<class A, class S> bool setv(A&, S, long) { return false; }
#define P06_WRITE(V, NM, S) template<class V_> bool wr_##NM(V_& v, int op, S s, S& ret) { switch (op) { \
    case 0: return setv(v.NM, s, 0); case 1: v.NM += s; return true; case 2: v.NM -= s; return true; case 3: v.NM *= s; return true; case 4: v.NM /= s; return true; \
    case 5: ret = ++v.NM; return true; case 6: ret = v.NM++; return true; case 7: ret = --v.NM; return true; case 8: ret = v.NM--; return true; } return iops(v.NM, op, s); }
template<class V> struct Writer { const char* nm; int ix; bool (*wr)(V&, int, typename Sc<V>::S, typename Sc<V>::S&); };
inline bool modelW(int op, float a, float s, float& r, float& ret) { ret = 0; switch (op) { case 0: r = s; break; case 1: r = a + s; break; case 2: r = a - s; break; case 3: r = a * s; break; case 4: r = a / s; break; case 5: r = a + 1; ret = r; break; case 6: r = a + 1; ret = a; break; case 7: r = a - 1; ret = r; break; case 8: r = a - 1; ret = a; break; default: return false; } return true; }
inline bool modelW(int op, int32_t a_, int32_t s_, int32_t& r_, int32_t& ret) { int64_t a = a_, s = s_, r; ret = 0; switch (op) { case 0: r = s; break; case 1: r = a + s; break; case 2: r = a - s; break; case 3: r = a * s; break; case 4: if (!s) return false; r = a / s; break;
    case 5: case 6: r = a + 1; break; case 7: case 8: r = a - 1; break; case 9: if (!s || s == -1) return false; r = a % s; break; case 10: r = a | s; break; case 11: r = a & s; break; case 12: r = a ^ s; break;
    case 13: if (s < 0 || s > 31 || a < 0) return false; r = a << s; break; default: if (s < 0 || s > 31) return false; r = a >> s; }
    if (r < INT_MIN || r > INT_MAX) return false; r_ = (int32_t)r; if (op == 5 || op == 7) ret = r_; if (op == 6 || op == 8) ret = a_; return true; }
static const char* const opn[] = {"=","+=","-=","*=","/=","pre++","post++","pre--","post--","%=","|=","&=","^=","<<=",">>="};
template<class V> void writers(const char* type, const Writer<V>* t, size_t cnt) {
    typedef typename Sc<V>::S S; enum { n = Sc<V>::n }; auto sp = std::make_shared<Space<V>>(); u64 W = sp->sp.size(); auto ops = std::make_shared<std::vector<S>>(rich_<S>()); const int NO = std::is_floating_point<S>::value ? 9 : 15;
    // every operation on every name; operand over the alphabet on two base vectors, and every deviating vector with two operands
    u64 nv = 2 * ops->size() + W * 2;
    mc::add(std::string(type) + " writes through a name", cnt * NO * nv, [=](u64 i, Ctx& c) {
        u64 k = i % nv; i /= nv; int op = i % NO; i /= NO; const Writer<V>& m = t[i]; S l[n], s, r, ret, g = 0;
        if (k < 2 * ops->size()) { auto b = Space<V>::base(k % 2); std::copy(b.begin(), b.end(), l); s = (*ops)[k / 2]; } else { k -= 2 * ops->size(); sp->sp.decode(k / 2, l); s = k % 2 ? S(3) : S(2); }
        if (!modelW(op, l[m.ix], s, r, ret)) return;
        S e[n]; std::copy(l, l + n, e); e[m.ix] = r; struct { S g0[4]; alignas(16) V v; S g1[4]; } b; for (int q = 0; q < 4; q++) b.g0[q] = b.g1[q] = S(123); b.v = make_<V>(l);
        bool have = m.wr(b.v, op, s, g); bool gu = true; for (int q = 0; q < 4; q++) gu = gu && b.g0[q] == S(123) && b.g1[q] == S(123);
        c.nt(!same(r, l[m.ix])); V ex = make_<V>(e);
        c.check(have && is_(b.v, e) && gu && (op < 5 || op > 8 || same(g, ret)), [&] { return fmt("%s %s: .%s %s %s leaves %s (returns %s, guards intact %d, operation exists %d), expected %s", type, vs(l, n).c_str(), m.nm, opn[op], show_(s).c_str(), show_(b.v).c_str(), show_(g).c_str(), gu, have, show_(ex).c_str()); });
        // the write is observed by index and by every other spelling
        const V& cv = b.v; bool seen = true; for (unsigned q = 0; q < n; q++) seen = seen && same((S)cv[q], e[q]) && same((S)b.v[q], e[q]);
        c.check(seen, [&] { return fmt("%s %s: .%s %s %s is not observed by index", type, vs(l, n).c_str(), m.nm, opn[op], show_(s).c_str()); });
    });
    // every pair of the alphabet through every name
    const u64 A = ops->size();
    mc::add(std::string(type) + " writes through a name, all pairs of the alphabet", cnt * A * A, [=](u64 i, Ctx& c) {
        S a = (*ops)[i % A], s = (*ops)[i / A % A]; const Writer<V>& m = t[i / (A * A)]; c.nt(!same(a, s));
        for (int op = 1; op < NO; op = op == 4 ? 9 : op + 1) { S r, ret, g, l[n]; if (!modelW(op, a, s, r, ret)) continue; for (int q = 0; q < n; q++) l[q] = S(40 + q); l[m.ix] = a; V v = make_<V>(l); bool have = m.wr(v, op, s, g); l[m.ix] = r;
            c.check(have && is_(v, l), [&] { return fmt("%s with .%s = %s: .%s %s %s leaves %s, expected %s", type, m.nm, show_(a).c_str(), m.nm, opn[op], show_(s).c_str(), show_(v).c_str(), vs(l, n).c_str()); }); }
    });
    // every pair of small numbers through every name
    const int R = mc::isThorough() ? 700 : 130; const u64 G = 2 * R + 1;
    mc::add(std::string(type) + " writes through a name, all pairs up to " + std::to_string(R), cnt * G * G, [=](u64 i, Ctx& c) {
        S a = S(int(i % G) - R), s = S(int(i / G % G) - R); const Writer<V>& m = t[i / (G * G)]; c.nt(!same(a, s));
        for (int op = 1; op < NO; op = op == 4 ? 9 : op + 1) { S r, ret, g, l[n]; if (!modelW(op, a, s, r, ret)) continue; for (int q = 0; q < n; q++) l[q] = S(40 + q); l[m.ix] = a; V v = make_<V>(l); bool have = m.wr(v, op, s, g); l[m.ix] = r;
            c.check(have && is_(v, l), [&] { return fmt("%s with .%s = %s: .%s %s %s leaves %s, expected %s", type, m.nm, show_(a).c_str(), m.nm, opn[op], show_(s).c_str(), show_(v).c_str(), vs(l, n).c_str()); }); }
    });
}
// v.a = u.b for all pairs of names, with u another object or v itself
template<class A, class B> auto cross_(A& a, const B& b, int) -> decltype((void)(a = b)) { a = b; }
template<class A, class B> void cross_(A&, const B&, long) {}
template<class V> struct Cross { const char *a, *b; int i, j; void (*f)(V&, const V&); };
template<class V> void crosses(const char* type, const Cross<V>* t, size_t cnt) {
    typedef typename Sc<V>::S S; enum { n = Sc<V>::n };
    mc::add(std::string(type) + " v.a = u.b", cnt * 2, [=](u64 i, Ctx& c) {
        const Cross<V>& m = t[i / 2]; S l[n], u[n], e[n]; for (int k = 0; k < n; k++) { l[k] = S(1 + k); u[k] = S(100 + k); } std::copy(l, l + n, e); bool self = i % 2; e[m.i] = self ? l[m.j] : u[m.j];
        V v = make_<V>(l), w = make_<V>(u); m.f(v, self ? v : w); c.nt(m.i != m.j);
        c.check(is_(v, e) && is_(w, u), [&] { return fmt("%s v.%s = %s.%s with v=%s u=%s leaves v=%s u=%s", type, m.a, self ? "v" : "u", m.b, vs(l, n).c_str(), vs(u, n).c_str(), show_(v).c_str(), show_(w).c_str()); });
    });
}
template<class V> void indexing() {
    typedef typename Sc<V>::S S; enum { n = Sc<V>::n }; auto sp = std::make_shared<Space<V>>(); u64 W = sp->sp.size(); auto ops = std::make_shared<std::vector<S>>(rich_<S>()); u64 R = ops->size();
    mc::add(std::string("indexing of vector type ") + (std::is_floating_point<S>::value ? "float " : "int ") + std::to_string((int)n), W * n * R, [=](u64 i, Ctx& c) {
        u64 r = i % R; i /= R; unsigned k = i % n; i /= n; S l[n], e[n]; sp->sp.decode(i, l); V v = make_<V>(l); const V& cv = v; c.nt(!same((*ops)[r], l[k]));
        c.check(same(v[k], l[k]) && same(cv[k], l[k]) && &v[k] == (S*)&v + k && &cv[k] == (const S*)&v + k, [&] { return fmt("%s [%u] reads %s", vs(l, n).c_str(), k, show_(v[k]).c_str()); });
        v[k] = (*ops)[r]; std::copy(l, l + n, e); e[k] = (*ops)[r]; c.check(is_(v, e), [&] { return fmt("%s [%u] = %s leaves %s", vs(l, n).c_str(), k, show_((*ops)[r]).c_str(), show_(v).c_str()); });
    });
}
