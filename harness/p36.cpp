// Misuse is caught in debug builds: an index no element has, a null array, an interpolation factor outside [0,1].
// Every call runs on the real library; a failed assertion (or abort) jumps back into the harness, anything else the
// call does instead (returning, a memory fault) is seen.  Legal use is accepted and reaches the right element.
#include "mc.hpp"
#include "zall.hpp"
#include <csetjmp>
#include <sys/mman.h>
using namespace mc; using namespace zcm;
#ifdef NDEBUG
static const bool DEBUG = false;
#else
static const bool DEBUG = true;
#endif
static thread_local sigjmp_buf back; static thread_local bool armed = false;
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
    if (armed) { armed = false; siglongjmp(back, 1); }
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, e); signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(99);
}
extern "C" void abort() noexcept { if (armed) { armed = false; siglongjmp(back, 1); } raise(SIGABRT); _exit(99); }
template<class F> static bool aborts(F f) {
    armed = true;
    if (sigsetjmp(back, 0)) return true;
    f(); armed = false; return false;
}
static std::vector<u32> indices() {
    std::vector<u32> r; for (u32 i = 0; i <= 4100; i++) r.push_back(i);
    for (int k = 12; k < 32; k++) for (int d = -5; d <= 5; d++) r.push_back((1u << k) + d);
    for (u32 hi = 1; hi < 256; hi++) for (int sh : {8, 16, 24}) for (u32 lo = 0; lo < 5; lo++) r.push_back((hi << sh) + lo);
    for (int d = 0; d < 300; d++) r.push_back(0u - 1 - d);
    for (u32 k = 0; k < 65536; k++) r.push_back(k << 16 | (k & 3));
    for (u32 w : dictWords()) for (int d = -1; d <= 1; d++) r.push_back(w + d);
    for (float f : dictFloats()) if (std::fabs(f) < 4e9f) r.push_back(u32(std::llabs((long long)f)));
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static u64 indexCount() { static u64 n = indices().size(); return thorough() ? (u64(1) << 32) : n; }
static u32 indexAt(u64 i) { if (thorough()) return u32(i); static std::vector<u32> r = indices(); return r[i]; }
template<class T> struct Guarded { unsigned char before[64]; T v; unsigned char after[64]; };
template<class T, class E> static void fill(T& v, int n) { E* p = reinterpret_cast<E*>(&v); for (int k = 0; k < n; k++) p[k] = E(k + 1); }
template<class T, class S, int N, int L> static void indexing(const char* name) {   // S: what an index names, L: numbers per element
    typedef typename std::remove_reference<decltype(std::declval<T&>()[0])>::type E;
    typedef S Num;
    add(std::string(name) + "[index]", indexCount(), [=](u64 i, Ctx& c) {
        const u32 k = indexAt(i); if (!DEBUG && k >= N) return;
        Guarded<T> g; memset(static_cast<void*>(&g), 0x5a, sizeof g); fill<T, Num>(g.v, N * L); const Guarded<T> was = g;
        const E* volatile at = nullptr; bool st = aborts([&] { at = &g.v[k]; });
        const bool legal = k < N; const E* want = reinterpret_cast<const E*>(&g.v) + k;
        c.nt(!legal || k);
        c.check(legal ? !st && at == want : st && !at, [&] { return fmt("%s v; v[%u] %s", name, k, st ? "failed an assertion" : at == want ? "gave the element" : "returned a wrong reference"); });
        c.check(!memcmp(&g, &was, sizeof g), [&] { return fmt("%s v; v[%u] changed memory", name, k); });
        const T& cv = g.v; Num got[16] = {0}; const Num* volatile src = nullptr; volatile bool done = false;
        st = aborts([&] { auto&& r = cv[k]; memcpy(got, &r, L * sizeof(Num)); done = true; });
        bool eq = true; if (legal) for (int l = 0; l < L; l++) eq = eq && got[l] == Num(k * L + l + 1);
        c.check(legal ? !st && eq : st && !done, [&] { return fmt("const %s v; v[%u] %s", name, k, st ? "failed an assertion" : legal ? "gave a wrong value" : "returned"); });
        (void)src;
    });
}
// arrays that end right before, or start right after, a page nothing may touch
static unsigned char* fenced() { static unsigned char* p = [] { unsigned char* m = (unsigned char*)mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, 4096, PROT_NONE); mprotect(m + 8192, 4096, PROT_NONE); return m + 4096; }(); return p; }
template<class T, class E, int N, class F> static void make(const char* name, F f) {
    add(std::string(name) + "(pointer)", DEBUG ? 3 : 2, [=](u64 i, Ctx& c) {
        if (i == 2) { volatile bool done = false; bool st = aborts([&] { T r = f(nullptr); volatile unsigned char x = *reinterpret_cast<unsigned char*>(&r); (void)x; done = true; }); c.nt(true);
            c.check(st && !done, [&] { return fmt("%s(null) returned", name); }); return; }
        E buf[N]; for (int k = 0; k < N; k++) buf[k] = E(k % 3 + 1);
        unsigned char* at = fenced() + (i ? 4096 - sizeof buf : 0); static std::mutex mu; std::lock_guard<std::mutex> lk(mu); memcpy(at, buf, sizeof buf);
        T r; bool st = aborts([&] { r = f(reinterpret_cast<const E*>(at)); }); c.nt(true);
        c.check(!st && !memcmp(&r, buf, sizeof buf), [&] { return fmt("%s of an array %s an unreadable page %s", name, i ? "before" : "after", st ? "failed an assertion" : "gave wrong elements"); });
    });
}
static std::vector<float> factors() {
    std::vector<float> r; for (u32 hi = 0; hi < (1u << 16); hi++) for (u32 lo : {0u, 1u, 0xffffu}) { float f; u32 w = hi << 16 | lo; memcpy(&f, &w, 4); r.push_back(f); }
    for (int d = -2000; d <= 2000; d++) for (u32 b : {0x3f800000u, 0xbf800000u, 0x3f000000u}) { u32 w = b + d; float f; memcpy(&f, &w, 4); r.push_back(f); }
    for (u32 d = 0; d <= 2000; d++) for (u32 b : {0u, 0x80000000u}) { u32 w = b + d; float f; memcpy(&f, &w, 4); r.push_back(f); }
    for (float f : dictFloats()) { r.push_back(f); r.push_back(std::nextafter(f, 1e38f)); r.push_back(std::nextafter(f, -1e38f)); }
    return r;
}
static u64 factorCount() { static u64 n = factors().size(); return thorough() ? (u64(1) << 32) : n; }
static float factorAt(u64 i) { if (thorough()) { u32 w = u32(i); float f; memcpy(&f, &w, 4); return f; } static std::vector<float> r = factors(); return r[i]; }
template<class F> static void factor(const char* name, F f) {
    add(std::string(name) + "(quat, quat, factor)", factorCount(), [=](u64 i, Ctx& c) {
        static const quat P[] = {quat(0.5f, 0.5f, -0.5f, 0.5f), quat(1, 0, 0, 0), quat(0.6f, 0, 0.8f, 0), quat(2, -3, 1, 5)};
        const float t = factorAt(i); const bool legal = t >= 0 && t <= 1; if (!DEBUG && !legal) return;
        for (int a = 0; a < 4; a++) { const int b = (a + 1 + i % 3) % 4; volatile bool done = false; bool st = aborts([&] { volatile float w = f(P[a], P[b], t).w; (void)w; done = true; }); c.nt(t != 0);
            c.check(legal ? !st && done : st && !done, [&] { return fmt("%s(quats %d %d, %.9g) %s", name, a, b, t, st ? "failed an assertion" : "returned"); }); }
    });
}
// the projections accept every view: any aspect ratio but none, any two depths, either way round
static void frustums() {
    static const float FOV[] = {0.01f, 0.5f, 0.785398185f, 1.57079637f, 2, 3, 3.1f, -0.5f}, ASP[] = {1e-3f, 0.1f, 0.5f, 1, 1.25f, 1.77777779f, 4, 1000, -1, -0.5f}, D[] = {-10, -1, -0.1f, 0, 1e-3f, 0.1f, 0.5f, 1, 1.5f, 2, 10, 100, 1000, 1e6f};
    static const u64 nf = sizeof FOV / 4, na = sizeof ASP / 4, nd = sizeof D / 4;
    static mat4 (*const P[])(float, float, float, float) = {perspectiveRH_ZO, perspectiveRH_NO, perspectiveLH_ZO, perspectiveLH_NO};
    static const char* const N[] = {"perspectiveRH_ZO", "perspectiveRH_NO", "perspectiveLH_ZO", "perspectiveLH_NO"};
    static mat4 (*const O[])(float, float, float, float, float, float) = {orthoRH_ZO, orthoRH_NO, orthoLH_ZO, orthoLH_NO};
    add("perspectives of every view", 4 * nf * na * nd * nd, [](u64 i, Ctx& c) {
        const int k = i % 4; i /= 4; const float f = FOV[i % nf]; i /= nf; const float a = ASP[i % na]; i /= na; const float n = D[i % nd], z = D[i / nd];
        c.nt(n > z); if (n == z) return;
        bool st = aborts([&] { volatile float w = P[k](f, a, n, z)[3].w; (void)w; });
        c.check(!st, [&] { return fmt("%s(%g, %g, %g, %g) failed an assertion", N[k], f, a, n, z); });
        st = aborts([&] { volatile float w = O[k](-a, a, -f, f, n, z)[3].w; (void)w; w = O[k](a, -a, f, -f, n, z)[3].w; });
        c.check(!st, [&] { return fmt("ortho %d of %g, %g, depths %g, %g failed an assertion", k, a, f, n, z); });
    });
}
void registerFamilies() {
    indexing<vec2, float, 2, 1>("vec2"); indexing<vec3, float, 3, 1>("vec3"); indexing<vec4, float, 4, 1>("vec4");
    indexing<ivec2, int32_t, 2, 1>("ivec2"); indexing<ivec3, int32_t, 3, 1>("ivec3"); indexing<ivec4, int32_t, 4, 1>("ivec4");
    indexing<quat, float, 4, 1>("quat"); indexing<mat2, float, 2, 2>("mat2"); indexing<mat3, float, 3, 3>("mat3"); indexing<mat4, float, 4, 4>("mat4");
    indexing<bvec2, bool, 2, 1>("bvec2"); indexing<bvec3, bool, 3, 1>("bvec3"); indexing<bvec4, bool, 4, 1>("bvec4");
    make<vec2, float, 2>("make_vec2", [](const float* p) { return make_vec2(p); }); make<vec3, float, 3>("make_vec3", [](const float* p) { return make_vec3(p); }); make<vec4, float, 4>("make_vec4", [](const float* p) { return make_vec4(p); });
    make<ivec2, int32_t, 2>("make_ivec2", [](const int32_t* p) { return make_ivec2(p); }); make<ivec3, int32_t, 3>("make_ivec3", [](const int32_t* p) { return make_ivec3(p); }); make<ivec4, int32_t, 4>("make_ivec4", [](const int32_t* p) { return make_ivec4(p); });
    make<mat2, float, 4>("make_mat2", [](const float* p) { return make_mat2(p); }); make<mat3, float, 9>("make_mat3", [](const float* p) { return make_mat3(p); }); make<mat4, float, 16>("make_mat4", [](const float* p) { return make_mat4(p); });
    make<bvec2, bool, 2>("make_bvec2", [](const bool* p) { return make_bvec2(p); }); make<bvec3, bool, 3>("make_bvec3", [](const bool* p) { return make_bvec3(p); }); make<bvec4, bool, 4>("make_bvec4", [](const bool* p) { return make_bvec4(p); });
    make<quat, float, 4>("make_quat", [](const float* p) { return make_quat(p); });
    frustums();
    factor("lerp", [](quat a, quat b, float t) { return lerp(a, b, t); }); factor("nlerp", [](quat a, quat b, float t) { return nlerp(a, b, t); });
}
