// Constructors, make_*, value_ptr, conversions, layout: every component lands where its position says.
#include "zall.hpp"
#include <type_traits>
using namespace zcm;
// lanes l[0..n) are the constructor arguments in order; e is the expected memory image
template<class V> static void chk(Ctx& c, const char* what, const V& v, const typename Tr<V>::S* e) {
    c.check(eqv(v, e), [&] { return fmt("%s = %s, expected %s", what, sh(v).c_str(), vs(e, Tr<V>::n).c_str()); });
}
// The object is built in storage with a known other content, so that a component left unset cannot look right by what an
// earlier object left there, and nothing next to it may be written.
struct Poisoned { alignas(16) unsigned char b[96]; Poisoned() { std::memset(b, 0xA7, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); } unsigned char* at() { return b + 16; }
    bool clean(size_t n) const { for (size_t k = 0; k < 16; k++) if (b[k] != 0xA7) return false; for (size_t k = 16 + n; k < sizeof b; k++) if (b[k] != 0xA7) return false; return true; } };
#define K(V, ...) { Poisoned p_; V* v_ = new (p_.at()) V(__VA_ARGS__); chk(c, #__VA_ARGS__, *v_, l); c.check(p_.clean(sizeof(V)), [&] { return std::string("writes outside the object: " #__VA_ARGS__); }); }
#define KE(W, E, ...) { typedef std::decay<decltype(__VA_ARGS__)>::type V_; Poisoned p_; V_* v_ = new (p_.at()) V_(__VA_ARGS__); chk(c, W, *v_, E); c.check(p_.clean(sizeof(V_)), [&] { return std::string("writes outside the object: " W); }); }
template<class F> static void space(const char* nm, int n, std::vector<float> small, F f) {
    auto sp = std::make_shared<LaneSpace<float>>(n, small, mc::richFloats(), mc::contexts<float>(n));
    mc::add(nm, sp->size(), [sp, f, n](u64 i, Ctx& c) { float l[16]; sp->decode(i, l); c.nt(sp->fresh(i, l) && std::memcmp(l, l + 1, 4)); f(c, l); });
}
template<class F> static void spaceI(const char* nm, int n, F f) {
    auto sp = std::make_shared<LaneSpace<int32_t>>(n, std::vector<int32_t>{0, 1, -2, 7}, mc::richInts(), mc::contexts<int32_t>(n));
    mc::add(nm, sp->size(), [sp, f, n](u64 i, Ctx& c) { int32_t l[4]; sp->decode(i, l); c.nt(sp->fresh(i, l) && l[0] != l[1]); f(c, l); });
}
template<class M, class C> static void columns(Ctx& c, M& m, const float* l, int N) {
    const M& cm = m;
    for (int j = 0; j < N; j++) { C a = m[j], b = cm[j]; chk(c, "column by index", a, l + j * N); chk(c, "column by const index", b, l + j * N);
        M w = m; w[j] = C(77.f); float e[16]; std::memcpy(e, l, 4 * N * N); for (int k = 0; k < N; k++) e[j * N + k] = 77.f; chk(c, "after writing one column", w, e);
        for (int k = 0; k < N; k++) { M u = m; u[j][k] = -5.f; std::memcpy(e, l, 4 * N * N); e[j * N + k] = -5.f; chk(c, "after writing one element", u, e); } }
    const float* p = value_ptr(cm); c.check((const void*)p == (const void*)&m && std::memcmp(p, l, 4 * N * N) == 0, [&] { return std::string("value_ptr of a const matrix"); });
    float* q = value_ptr(m); c.check((const void*)q == (const void*)&m, [&] { return std::string("value_ptr of a matrix"); });
}
#define PTR(v) { auto& v__ = v; const auto& c__ = v; c.check((void*)value_ptr(v__) == (void*)&v__ && (const void*)value_ptr(c__) == (const void*)&v__, [&] { return std::string("value_ptr of " #v); }); }
static_assert(sizeof(vec2) == 8 && sizeof(vec3) == 12 && sizeof(vec4) == 16 && sizeof(quat) == 16 && sizeof(ivec2) == 8 && sizeof(ivec3) == 12 && sizeof(ivec4) == 16, "");
template<class A, class B> static void noconv(const char* w) { bool b = std::is_constructible<A, B>::value; mc::add(std::string("no construction ") + w, 1, [=](u64, Ctx& c) { c.check(!b, [&] { return std::string("construction is possible: ") + w; }); c.nt(true); }); }
void registerFamilies() {
    std::vector<float> s5 = {0.f, -0.f, 1.f, -2.5f, NAN}, s2 = {0.f, 3.f};
    mc::add("defaults, size and alignment", 1, [](u64, Ctx& c) {
        float z[16] = {}, id2[4] = {1,0,0,1}, id3[9] = {1,0,0,0,1,0,0,0,1}, id4[16] = {1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1}, qi[4] = {0,0,0,1}; int32_t zi[4] = {}; bool zb[4] = {}; c.nt(true);
        char junk[64]; 
        for (int f = 0; f < 2; f++) {   // the previous content of the storage must not matter
#define D(V, E) { alignas(16) char buf[sizeof(V)]; std::memset(buf, f ? 0xff : 0x55, sizeof buf); V* v = new (buf) V(); chk(c, #V "()", *v, E); }
            D(vec2, z) D(vec3, z) D(vec4, z) D(ivec2, zi) D(ivec3, zi) D(ivec4, zi) D(bvec2, zb) D(bvec3, zb) D(bvec4, zb) D(quat, qi) D(mat2, id2) D(mat3, id3) D(mat4, id4)
        }
        (void)junk;
        c.check(sizeof(mat2) == 16 && sizeof(mat3) == 36 && sizeof(mat4) == 64 && sizeof(bvec2) == 2 && sizeof(bvec3) == 3 && sizeof(bvec4) == 4, [] { return std::string("sizes"); });
        c.check(alignof(vec4) == 16 && alignof(ivec4) == 16 && alignof(quat) == 16 && alignof(mat4) == 16 && alignof(vec3) == 4 && alignof(vec2) == 4 && alignof(mat3) == 4, [] { return std::string("alignment"); });
        c.check(std::is_standard_layout<vec2>::value && std::is_standard_layout<vec3>::value && std::is_standard_layout<vec4>::value && std::is_standard_layout<quat>::value && std::is_standard_layout<mat4>::value && std::is_standard_layout<ivec4>::value && std::is_trivially_destructible<vec4>::value, [] { return std::string("standard layout"); });
        { alignas(16) unsigned char buf[64]; 
#define NI(V) { std::memset(buf, 0x5a, 64); std::memset(buf, 0x5a, 64); V* v = new (buf) V(no_init_t()); (void)v; c.check(buf[sizeof(V) < 64 ? sizeof(V) : 63] == 0x5a, [] { return std::string("no_init construction of " #V " writes past the object"); }); }
          NI(vec2) NI(vec3) NI(vec4) NI(ivec2) NI(ivec3) NI(ivec4) NI(quat) NI(mat2) NI(mat3) }
    });
    noconv<vec2, double>("vec2(double)"); noconv<vec3, double>("vec3(double)"); noconv<vec4, double>("vec4(double)"); noconv<vec2, int64_t>("vec2(int64)"); noconv<vec3, int64_t>("vec3(int64)"); noconv<vec4, int64_t>("vec4(int64)");
    noconv<ivec2, float>("ivec2(float)"); noconv<ivec3, float>("ivec3(float)"); noconv<ivec4, float>("ivec4(float)"); noconv<ivec2, double>("ivec2(double)"); noconv<ivec3, double>("ivec3(double)"); noconv<ivec4, double>("ivec4(double)"); noconv<ivec2, int64_t>("ivec2(int64)"); noconv<ivec3, int64_t>("ivec3(int64)"); noconv<ivec4, int64_t>("ivec4(int64)");
    space("float broadcast", 1, {}, [](Ctx& c, const float* l) {
        float s = l[0], e[16]; for (float& x : e) x = s;
        KE("vec2(s)", e, vec2(s)) KE("vec3(s)", e, vec3(s)) KE("vec4(s)", e, vec4(s))
        vec2 a = s; vec3 b = s; vec4 d = s; chk(c, "vec2 = s", a, e); chk(c, "vec3 = s", b, e); chk(c, "vec4 = s", d, e);
        float m2[4] = {s,0,0,s}, m3[9] = {s,0,0,0,s,0,0,0,s}, m4[16] = {s,0,0,0,0,s,0,0,0,0,s,0,0,0,0,s};
        KE("mat2(s)", m2, mat2(s)) KE("mat3(s)", m3, mat3(s)) KE("mat4(s)", m4, mat4(s))
    });
    { auto ri = mc::richInts(); mc::add("int broadcast", ri.size(), [ri](u64 i, Ctx& c) {
        int32_t s = ri[i], e[4] = {s,s,s,s}; float f[4]; for (float& x : f) x = float(s); c.nt(s != 0);
        KE("ivec2(s)", e, ivec2(s)) KE("ivec3(s)", e, ivec3(s)) KE("ivec4(s)", e, ivec4(s)) KE("vec2(int)", f, vec2(s)) KE("vec3(int)", f, vec3(s)) KE("vec4(int)", f, vec4(s)) }); }
    space("vec2, 2 lanes", 2, s5, [](Ctx& c, const float* l) { K(vec2, vec2(l[0], l[1])) K(vec2, make_vec2(l)) vec2 v(l[0], l[1]); PTR(v) vec2 w(v); chk(c, "copy", w, l); vec2 x; x = v; chk(c, "assignment", x, l); chk(c, "assignment source", v, l); });
    space("vec3, 3 lanes", 3, s5, [](Ctx& c, const float* l) { K(vec3, vec3(l[0], l[1], l[2])) K(vec3, vec3(vec2(l[0], l[1]), l[2])) K(vec3, vec3(l[0], vec2(l[1], l[2]))) K(vec3, make_vec3(l)) vec3 v(l[0], l[1], l[2]); PTR(v) vec3 w(v); chk(c, "copy", w, l); vec3 x; x = v; chk(c, "assignment", x, l); });
    space("vec4, 4 lanes", 4, s5, [](Ctx& c, const float* l) {
        K(vec4, vec4(l[0], l[1], l[2], l[3])) K(vec4, vec4(vec3(l[0], l[1], l[2]), l[3])) K(vec4, vec4(l[0], vec3(l[1], l[2], l[3]))) K(vec4, vec4(vec2(l[0], l[1]), vec2(l[2], l[3])))
        K(vec4, vec4(vec2(l[0], l[1]), l[2], l[3])) K(vec4, vec4(l[0], vec2(l[1], l[2]), l[3])) K(vec4, vec4(l[0], l[1], vec2(l[2], l[3]))) K(vec4, make_vec4(l))
        vec4 v(l[0], l[1], l[2], l[3]); PTR(v) vec4 w(v); chk(c, "copy", w, l); vec4 x; x = v; chk(c, "assignment", x, l);
    });
    space("quat, 4 lanes", 4, s5, [](Ctx& c, const float* l) {   // l = x y z w
        K(quat, quat(l[3], l[0], l[1], l[2])) K(quat, quat::wxyz(l[3], l[0], l[1], l[2])) K(quat, quat(l[3], vec3(l[0], l[1], l[2]))) K(quat, quat(vec3(l[0], l[1], l[2]), l[3])) K(quat, make_quat(l))
        quat q(l[3], l[0], l[1], l[2]); PTR(q) const quat& cq = q;
        c.check(same(q.x, l[0]) && same(q.y, l[1]) && same(q.z, l[2]) && same(q.w, l[3]), [&] { return fmt("members of quat wxyz(%s)", vs(l, 4).c_str()); });
        for (unsigned k = 0; k < 4; k++) { c.check(same(q[k], l[k]) && same(cq[k], l[k]), [&] { return fmt("quat[%u] of xyzw %s", k, vs(l, 4).c_str()); });
            quat w = q; w[k] = 9.f; float e[4] = {l[0], l[1], l[2], l[3]}; e[k] = 9.f; chk(c, "quat after writing one component", w, e); }
    });
    spaceI("ivec2, 2 lanes", 2, [](Ctx& c, const int32_t* l) { K(ivec2, ivec2(l[0], l[1])) K(ivec2, make_ivec2(l)) ivec2 v(l[0], l[1]), x; x = v; chk(c, "assignment", x, l); });
    spaceI("ivec3, 3 lanes", 3, [](Ctx& c, const int32_t* l) { K(ivec3, ivec3(l[0], l[1], l[2])) K(ivec3, ivec3(ivec2(l[0], l[1]), l[2])) K(ivec3, ivec3(l[0], ivec2(l[1], l[2]))) K(ivec3, make_ivec3(l)) ivec3 v(l[0], l[1], l[2]), x; x = v; chk(c, "assignment", x, l); });
    spaceI("ivec4, 4 lanes", 4, [](Ctx& c, const int32_t* l) {
        K(ivec4, ivec4(l[0], l[1], l[2], l[3])) K(ivec4, ivec4(ivec3(l[0], l[1], l[2]), l[3])) K(ivec4, ivec4(l[0], ivec3(l[1], l[2], l[3]))) K(ivec4, ivec4(ivec2(l[0], l[1]), ivec2(l[2], l[3])))
        K(ivec4, ivec4(ivec2(l[0], l[1]), l[2], l[3])) K(ivec4, ivec4(l[0], ivec2(l[1], l[2]), l[3])) K(ivec4, ivec4(l[0], l[1], ivec2(l[2], l[3]))) K(ivec4, make_ivec4(l)) ivec4 v(l[0], l[1], l[2], l[3]), x; x = v; chk(c, "assignment", x, l); });
    mc::add("bvec make and value_ptr", 16, [](u64 i, Ctx& c) { bool l[4] = {bool(i & 1), bool(i & 2), bool(i & 4), bool(i & 8)}; c.nt(i % 15 != 0); K(bvec2, make_bvec2(l)) K(bvec3, make_bvec3(l)) K(bvec4, make_bvec4(l)) bvec2 a(l[0], l[1]); bvec3 b(l[0], l[1], l[2]); bvec4 d(l[0], l[1], l[2], l[3]); PTR(a) PTR(b) PTR(d) });
    space("mat2, 4 elements", 4, s5, [](Ctx& c, const float* l) {
        K(mat2, mat2(l[0], l[1], l[2], l[3])) K(mat2, mat2(vec2(l[0], l[1]), vec2(l[2], l[3]))) K(mat2, make_mat2(l))
        float g[9] = {l[0], l[1], 0, l[2], l[3], 0, 0, 0, 1}; KE("mat3(mat2)", g, mat3(mat2(l[0], l[1], l[2], l[3]))) mat2 m(l[0], l[1], l[2], l[3]); columns<mat2, vec2>(c, m, l, 2);
    });
    space("mat3, 9 elements", 9, s2, [](Ctx& c, const float* l) {
        K(mat3, mat3(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8])) K(mat3, mat3(vec3(l[0], l[1], l[2]), vec3(l[3], l[4], l[5]), vec3(l[6], l[7], l[8]))) K(mat3, make_mat3(l))
        mat3 m(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8]);
        float g[16] = {l[0], l[1], l[2], 0, l[3], l[4], l[5], 0, l[6], l[7], l[8], 0, 0, 0, 0, 1}, t[4] = {l[0], l[1], l[3], l[4]};
        KE("mat4(mat3)", g, mat4(m)) KE("mat2(mat3)", t, (mat2)m) columns<mat3, vec3>(c, m, l, 3);
    });
    space("mat4, 16 elements", 16, mc::isThorough() ? s2 : std::vector<float>{}, [](Ctx& c, const float* l) {
        K(mat4, mat4(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7], l[8], l[9], l[10], l[11], l[12], l[13], l[14], l[15]))
        K(mat4, mat4(vec4(l[0], l[1], l[2], l[3]), vec4(l[4], l[5], l[6], l[7]), vec4(l[8], l[9], l[10], l[11]), vec4(l[12], l[13], l[14], l[15]))) K(mat4, make_mat4(l))
        mat4 m = mk<mat4>(l); float t[9] = {l[0], l[1], l[2], l[4], l[5], l[6], l[8], l[9], l[10]}; KE("mat3(mat4)", t, (mat3)m)
        mat4 w; w = m; chk(c, "assignment", w, l); columns<mat4, vec4>(c, m, l, 4);
    });
}
