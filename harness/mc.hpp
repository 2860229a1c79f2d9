// Small exhaustive-exploration kernel.
//
// A *family* is a finite, totally ordered space of executions of the real zcm
// code: index i in [0, count) decodes to one input tuple / operation history /
// state.  explore() runs every index of every family (8 worker threads), the
// body compares the implementation with the reference model.  Nothing is
// sampled: the index space is enumerated completely, and a violation is
// identified by (family, index), which --only/--index replays alone.
#pragma once
#include <atomic>
#include <cmath>
#include <cfloat>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>

namespace mc {

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- reporting
struct Fail { std::string family; u64 index; std::string msg; };

struct Ctx {
    u64 evals = 0;        // comparisons of implementation result against the model
    u64 nontrivial = 0;   // of these: model result not NaN / not equal to the first input
    u64 states = 0, transitions = 0, traces = 0;  // used by the state-space harnesses
    std::vector<std::pair<u64,std::string>> fails;
    u64 nfails = 0;
    bool verbose = false;
    std::vector<std::string> samples;
    u64 cur = 0;

    template<class F> void check(bool ok, F msg) {
        ++evals;
        if (__builtin_expect(verbose, 0) && samples.size() < 3) samples.push_back(msg());
        if (__builtin_expect(!ok, 0)) {
            ++nfails;
            if (fails.size() < 4) fails.push_back({cur, msg()});
        }
    }
    void nt(bool b) { nontrivial += b; }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

struct Family {
    std::string name;
    u64 count;
    std::function<void(u64,u64,Ctx&)> run;   // [lo,hi)
    u64 block;
};

inline std::vector<Family>& families() { static std::vector<Family> f; return f; }
inline bool& thorough() { static bool t = false; return t; }
inline bool isThorough() { return thorough(); }

struct Cur { volatile u64 idx; volatile int fam; volatile bool active; };
inline Cur* curs() { static Cur c[256]; return c; }
inline thread_local int curSlot = 0;

template<class F>
void add(const std::string& name, u64 count, F body, u64 block = 0) {
    Family f; f.name = name; f.count = count;
    f.block = block ? block : std::max<u64>(1, std::min<u64>(1u<<16, count / 64 + 1));
    f.run = [body](u64 lo, u64 hi, Ctx& c) {
        Cur& k = curs()[curSlot];
        for (u64 i = lo; i < hi; ++i) { k.idx = i; c.cur = i; body(i, c); }
    };
    families().push_back(std::move(f));
}

// ---------------------------------------------------------------- floats
inline u32 bits(float f) { u32 u; std::memcpy(&u, &f, 4); return u; }
inline float fromBits(u32 u) { float f; std::memcpy(&f, &u, 4); return f; }
// identical result: same bit pattern, or both NaN (payload and sign of NaN ignored)
inline bool same(float a, float b) { return bits(a) == bits(b) || (a != a && b != b); }
// equal, zero signs not distinguished
inline bool sameZ(float a, float b) { return a == b || (a != a && b != b); }
inline bool same(int32_t a, int32_t b) { return a == b; }
inline bool same(bool a, bool b) { return a == b; }
inline bool finite(float f) { return (bits(f) & 0x7f800000u) != 0x7f800000u; }
inline bool finite(double d) { return std::isfinite(d); }
inline double ulpOf(double ref) {   // spacing of float at |ref|
    double a = std::fabs(ref);
    if (!(a > FLT_MIN)) return 1.401298464324817e-45;
    if (a > FLT_MAX) a = FLT_MAX;
    int e; std::frexp(a, &e);
    return std::ldexp(1.0, e - 24);
}
// got is within n float-ulps of the exact value ref (ref in double)
inline bool nearUlp(float got, double ref, double n) {
    if (ref != ref) return got != got;
    if (got != got) return false;
    if (std::isinf(ref)) return double(got) == ref || (n > 0 && std::fabs(double(got)) >= FLT_MAX * 0.999999 && (got > 0) == (ref > 0));
    if (std::fabs(ref) >= FLT_MAX * (1 - n * 6e-8)) {
        if (std::isinf(got)) return (got > 0) == (ref > 0);
    }
    return std::fabs(double(got) - ref) <= n * ulpOf(ref);
}
inline bool nearAbs(float got, double ref, double tol) {
    if (ref != ref) return got != got;
    if (std::isinf(ref)) return double(got) == ref;
    return std::fabs(double(got) - ref) <= tol;
}
inline std::string fs(float f) { return fmt("%a(0x%08x)", double(f), bits(f)); }
inline std::string vs(const float* p, int n) { std::string s = "("; for (int i = 0; i < n; i++) s += (i ? ", " : "") + fmt("%.9g", double(p[i])); return s + ")"; }
inline std::string vsx(const float* p, int n) { std::string s = "("; for (int i = 0; i < n; i++) s += (i ? ", " : "") + fs(p[i]); return s + ")"; }
inline std::string vs(const int32_t* p, int n) { std::string s = "("; for (int i = 0; i < n; i++) s += (i ? ", " : "") + fmt("%d", p[i]); return s + ")"; }
inline std::string vsx(const int32_t* p, int n) { return vs(p, n); }
inline std::string vs(const bool* p, int n) { std::string s = "("; for (int i = 0; i < n; i++) s += p[i] ? "T" : "F"; return s + ")"; }
inline std::string vsx(const bool* p, int n) { return vs(p, n); }
inline std::string sv(float f) { return fs(f); }
inline std::string sv(int32_t f) { return fmt("%d", f); }
inline std::string sv(bool f) { return f ? "true" : "false"; }

// ---------------------------------------------------------------- alphabets
// numeric literals found in the sources under check are added to the alphabets
// (ZCM_DICT: one 8-digit hex word per line), so constants the code branches on
// are always among the inputs.
inline const std::vector<u32>& dictWords() {
    static std::vector<u32> v = [] {
        std::vector<u32> r; const char* p = getenv("ZCM_DICT");
        if (p) if (FILE* f = fopen(p, "r")) { unsigned u; while (fscanf(f, "%x", &u) == 1) r.push_back(u); fclose(f); }
        return r; }();
    return v;
}
inline void uniq(std::vector<float>& v) {
    std::vector<float> o; 
    for (float f : v) { bool dup = false; for (float g : o) if (bits(f) == bits(g)) { dup = true; break; } if (!dup) o.push_back(f); }
    v.swap(o);
}
// literals as floats with their float neighbours; only finite
inline const std::vector<float>& dictFloats() {
    static std::vector<float> v = [] {
        std::vector<float> r;
        for (u32 w : dictWords()) { float f = fromBits(w); if (finite(f)) r.push_back(f); }
        uniq(r); return r; }();
    return v;
}
inline std::vector<float> stdFloats() {
    std::vector<float> r = {
        0.f, -0.f, 1.f, -1.f, 2.f, -2.f, 3.f, 0.5f, -0.5f, 0.25f, 1.5f, -1.5f, 2.5f, -2.5f, 3.5f, 0.1f, -0.1f, 1.f/3, 0.7f, 10.f, -7.f,
        INFINITY, -INFINITY, NAN, fromBits(1), fromBits(0x80000001u), fromBits(0x007fffffu), FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX,
        FLT_EPSILON, 1.f + FLT_EPSILON, 1.f - FLT_EPSILON/2, -1.f - FLT_EPSILON, -1.f + FLT_EPSILON/2, fromBits(0x3effffffu), fromBits(0xbeffffffu),
        1e-3f, -1e-3f, 1e-6f, 1e-10f, 1e-20f, -1e-20f, 1e-38f, 1e10f, -1e10f, 1e19f, 1.9e19f, 1e20f, -1e20f, 1e38f, 3e38f,
        4194303.75f, 8388607.5f, -8388607.5f, 8388608.f, 8388609.f, 16777215.f, 16777216.f, 16777218.f, 2147483648.f, -2147483648.f, 4294967296.f, 9.223372e18f,
        3.14159274f, 1.57079637f, 0.785398185f, 6.28318548f, -3.14159274f, 2.71828175f, 1.41421354f, 0.707106769f, 57.2957795f, 90.f, 180.f, 360.f, 12345.678f, 1000.f, -1000.f, 255.f, 128.f };
    uniq(r); return r;
}
inline std::vector<float> richFloats() {
    std::vector<float> r = stdFloats();
    for (float f : dictFloats()) r.push_back(f);
    uniq(r); return r;
}
inline std::vector<float> finiteOnly(std::vector<float> v, double maxAbs = FLT_MAX, double minAbs = 0) {
    std::vector<float> o; for (float f : v) if (finite(f) && std::fabs(f) <= maxAbs && (f == 0 || std::fabs(f) >= minAbs)) o.push_back(f); return o;
}
inline std::vector<int32_t> richInts() {
    std::vector<int32_t> r = {0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 8, 10, 15, 16, 31, 32, -31, 63, 100, 127, 128, 255, 256, -255, 1000, 0x5555, 0xffff, 0x10000, -65536, 46340, 46341, -46340,
        0x7fffffff, 0x7ffffffe, INT_MIN, INT_MIN + 1, 0x40000000, -0x40000000, 0x55555555, (int32_t)0xaaaaaaaau, 0x0f0f0f0f, 123456789, -123456789};
    for (u32 w : dictWords()) { float f = fromBits(w); if (finite(f) && std::fabs(f) < 2e9) { int32_t k = (int32_t)f; r.push_back(k); r.push_back(-k); r.push_back(k + 1); r.push_back(k - 1); } 
        r.push_back((int32_t)w); }
    std::vector<int32_t> o; for (int32_t x : r) if (std::find(o.begin(), o.end(), x) == o.end()) o.push_back(x);
    return o;
}

// ---------------------------------------------------------------- lane spaces
// All tuples of n lanes that are (a) any combination of the small alphabet, or
// (b) a context tuple with at most two lanes replaced by any rich-alphabet value
// (deviation bound 2), or
// (c) a pattern between lanes: every combination of the two zeros (all lanes, or a
// contiguous range of a context), one value repeated over a range, operands that are
// copies (or negatives) of one another, exactly or up to one lane, or
// (d) a relation over a context: one lane at every order of magnitude, the whole tuple or
// its first lanes rescaled, every assignment of signs, every order of the lanes, two lanes
// equal, opposite, doubled, halved or almost equal, one lane the sum of two others
// (values stay within the range of the rich alphabet).
inline bool signedZeros(float) { return true; } template<class T> inline bool signedZeros(T) { return false; }
// relative distances from a special value, from a few roundings to a large fraction
inline const std::vector<double>& deltas() { static const std::vector<double> d = [] { std::vector<double> r; for (double x : {6e-8, 1.2e-7, 3e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.02, 0.05, 0.1, 0.3}) { r.push_back(x); r.push_back(-x); } return r; }(); return d; }
template<class T> struct LaneSpace {
    int n; std::vector<T> small, rich; std::vector<std::vector<T>> ctx; bool twoLanes;
    u64 nA, nB1, nB2, nC, total; std::vector<T> pat; // pat: nC rows
    std::vector<std::pair<int,int>> pairs;
    LaneSpace(int n_, std::vector<T> s, std::vector<T> r, std::vector<std::vector<T>> c, bool two = true) : n(n_), small(s), rich(r), ctx(c), twoLanes(two) {
        nA = small.empty() ? 0 : 1; for (int i = 0; i < n && !small.empty(); i++) nA *= small.size();
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pairs.push_back({i, j});
        nB1 = u64(ctx.size()) * n * rich.size();
        nB2 = two ? u64(ctx.size()) * pairs.size() * rich.size() * rich.size() : 0;
        nC = 0; patterns(); total = nA + nB1 + nB2 + nC;
    }
    bool inA(const T* l) const { if (small.empty()) return false; for (int k = 0; k < n; k++) { bool f = false; for (auto& s : small) if (std::memcmp(&s, &l[k], sizeof(T)) == 0) { f = true; break; } if (!f) return false; } return true; }
    bool isRich(const T& v) const { for (auto& r : rich) if (std::memcmp(&r, &v, sizeof(T)) == 0) return true; return false; }
    // (d)
    void relations(std::vector<std::vector<T>>& rows) const {
        double lo = 1e300, hi = 0, mn = 1e300, mx = -1e300; for (const T& r : rich) { double v = double(r), a = std::fabs(v); if (!(a < 3.4e38)) continue; if (a) lo = std::min(lo, a); hi = std::max(hi, a); mn = std::min(mn, v); mx = std::max(mx, v); }
        if (!(hi > 0)) return; if (mn < 0) mn = -hi;
        static const double mags[] = {3e-33, 2.5e-20, 4e-11, 3.7e-8, 6e-6, 2.3e-4, 4e-3, 0.03, 0.17, 0.37, 0.61, 0.87, 1.2, 2.7, 7, 11, 45, 310, 4.1e3, 5.3e4, 2.7e6, 4.4e7, 6.3e8, 5e15, 7e31};
        auto val = [&](double v, T& o) { double a = std::fabs(v); if (!(v >= mn && v <= mx) || (a && a < lo)) return false; o = T(v); return double(o) >= mn && double(o) <= mx && (std::fabs(double(o)) >= lo || double(o) == 0); };
        auto put = [&](const std::vector<double>& d) { std::vector<T> t(n); for (int k = 0; k < n; k++) if (!val(d[k], t[k])) return; rows.push_back(t); };
        for (auto& c0 : ctx) { std::vector<double> c(c0.begin(), c0.end());
            for (int k = 0; k < n; k++) for (double m : mags) for (int s = -1; s < 2; s += 2) { auto t = c; t[k] = s * m; put(t); }
            for (double m : {1., 0.37, 0.01, 1e-4, 1e-7, 1e-15, 1e-25, 6., 50., 3e3, 1e6, 1e9, 1e15, 1e25}) for (int s = -1; s < 2; s += 2) { auto t = c; for (double& v : t) v *= s * m; put(t); for (int p : {1, n / 4, n / 3, n / 2, n - 1}) if (p >= 1 && p < n) { auto u = c; for (int k = 0; k < p; k++) u[k] *= s * m; put(u); if (m > 1) { for (int k = p; k < n; k++) u[k] /= m; put(u); } } }
            if (n <= 10) for (int m = 0; m < 1 << n; m++) { auto t = c; for (int k = 0; k < n; k++) t[k] = (m >> k & 1 ? -1 : 1) * std::fabs(t[k]); put(t); }
            else for (int a = -1; a < n; a++) for (int s = -1; s < 2; s += 2) { auto t = c; for (int k = 0; k < n; k++) t[k] = (k == a ? -s : s) * std::fabs(t[k]); put(t); }
            if (n <= 5) { std::vector<int> q(n); for (int k = 0; k < n; k++) q[k] = k; do { std::vector<double> t(n); for (int k = 0; k < n; k++) t[k] = c[q[k]]; put(t); } while (std::next_permutation(q.begin(), q.end())); }
            for (int k = 1; k < n; k++) { auto t = c; std::rotate(t.begin(), t.begin() + k, t.end()); put(t); std::reverse(t.begin(), t.end()); put(t); t = c; for (int j = 0; j < n; j++) t[j] = j == k ? c[k] : 0; put(t); for (int j = 0; j < n; j++) t[j] = j == k ? 0 : c[j]; put(t); }
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { for (double f : {1., -1., 2., -2., 0.5, 1.003, 0.9999, 1e-5, 1e5}) { auto t = c; t[j] = c[i] * f; put(t); } auto t = c; t[j] = c[i] + 1; put(t); std::swap(t[i], t[j]); put(t); t = c; std::swap(t[i], t[j]); put(t); }
            if (n <= 9) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = 0; k < n; k++) if (k != i && k != j) { auto t = c; t[k] = c[i] + c[j]; put(t); t[k] = c[i] - c[j]; put(t); t[k] = c[i] * c[j]; put(t); t[k] = -c[i] - c[j]; put(t); } }
    }
    void patterns() {
        std::vector<std::vector<T>> rows; std::vector<std::pair<int,int>> rg;      // [first, last)
        for (int a = 0; a < n; a++) for (int len = 2; a + len <= n; len++) if (n <= 9 || len == 2 || (a % len == 0 && (len <= 4 || len == 8 || len == 9 || len == 16)) || len == n || (n % 2 == 0 && len == n / 2 && a % len == 0)) rg.push_back({a, a + len});
        std::vector<T> some = rich; size_t cap = n <= 4 ? 400 : n <= 9 ? 80 : 16; if (some.size() > cap) some.resize(cap);
        for (auto& c : ctx) for (auto& r : rg) {
            for (const T& v : some) { auto t = c; for (int k = r.first; k < r.second; k++) t[k] = v; rows.push_back(t); }
            if (signedZeros(T()) && isRich(T(0)) && r.second - r.first <= 4) for (int m = 0; m < 1 << (r.second - r.first); m++) { auto t = c; for (int k = r.first; k < r.second; k++) t[k] = (m >> (k - r.first) & 1) ? -T(0) : T(0); rows.push_back(t); }
        }
        if (signedZeros(T()) && isRich(T(0)) && n <= 12) for (u64 m = 0; m < u64(1) << n; m++) { std::vector<T> t(n); for (int k = 0; k < n; k++) t[k] = (m >> k & 1) ? -T(0) : T(0); rows.push_back(t); }
        for (int p : {n / 2, n / 3, n / 4, n - 1}) if (p >= 1 && p < n) for (auto& c : ctx) for (int neg = 0; neg < 2; neg++) {
            auto t = c; for (int k = p; k < n; k++) t[k] = neg ? T(-t[k - p]) : t[k - p]; rows.push_back(t);
            for (int k = 0; k < n; k++) for (const T& v : some) { auto u = t; u[k] = v; rows.push_back(u); }
            if (signedZeros(T())) for (int k = 0; k < n; k++) for (double d : deltas()) { auto u = t; u[k] = T(u[k] * (1 + d)); rows.push_back(u); }
        }
        if (twoLanes) relations(rows);
        std::sort(rows.begin(), rows.end(), [](const std::vector<T>& a, const std::vector<T>& b) { return std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) < 0; });
        const std::vector<T>* last = nullptr; std::vector<T> keep;
        for (auto& t : rows) {
            if (last && !std::memcmp(last->data(), t.data(), n * sizeof(T))) continue; last = &t;
            if (inA(t.data())) continue;
            bool inB = false; for (auto& c : ctx) { int d = 0; bool r = true; for (int k = 0; k < n; k++) if (std::memcmp(&c[k], &t[k], sizeof(T))) { d++; r = r && isRich(t[k]); } if (r && (d <= 1 || (d == 2 && nB2))) inB = true; }
            if (inB) continue;
            pat.insert(pat.end(), t.begin(), t.end()); nC++;
        }
    }
    u64 size() const { return total; }
    // true iff tuple i is not already produced by another index (each distinct tuple is fresh exactly once)
    bool fresh(u64 i, const T* l) const {
        if (i < nA) return true;
        if (i >= nA + nB1 + nB2) return true;
        if (inA(l)) return false;
        i -= nA;
        if (i < nB1) {
            u64 r = i % rich.size(); i /= rich.size(); u64 lane = i % n; i /= n;
            if (std::memcmp(&rich[r], &ctx[i][lane], sizeof(T)) == 0) { if (lane) return false; for (u64 q = 0; q < r; q++) if (std::memcmp(&rich[q], &rich[r], sizeof(T)) == 0) return false; return true; }
            return true;
        }
        i -= nB1;
        u64 r1 = i % rich.size(); i /= rich.size(); u64 r2 = i % rich.size(); i /= rich.size();
        u64 p = i % pairs.size(); i /= pairs.size();
        return std::memcmp(&rich[r1], &ctx[i][pairs[p].first], sizeof(T)) && std::memcmp(&rich[r2], &ctx[i][pairs[p].second], sizeof(T));
    }
    void decode(u64 i, T* out) const {
        if (i >= nA + nB1 + nB2) { std::memcpy(out, &pat[(i - nA - nB1 - nB2) * n], n * sizeof(T)); return; }
        if (i < nA) { for (int k = 0; k < n; k++) { out[k] = small[i % small.size()]; i /= small.size(); } return; }
        i -= nA;
        if (i < nB1) {
            u64 r = i % rich.size(); i /= rich.size(); u64 l = i % n; i /= n;
            for (int k = 0; k < n; k++) out[k] = ctx[i][k];
            out[l] = rich[r]; return;
        }
        i -= nB1;
        u64 r1 = i % rich.size(); i /= rich.size(); u64 r2 = i % rich.size(); i /= rich.size();
        u64 p = i % pairs.size(); i /= pairs.size();
        for (int k = 0; k < n; k++) out[k] = ctx[i][k];
        out[pairs[p].first] = rich[r1]; out[pairs[p].second] = rich[r2];
    }
};
// base tuples of the deviation space; any two differ in every lane
template<class T> std::vector<std::vector<T>> contexts(int n) {
    std::vector<std::vector<T>> c(n <= 2 ? 1 : 3);
    for (int i = 0; i < n; i++) { c[0].push_back(T(1 + i)); if (n > 2) { c[1].push_back(T(0)); c[2].push_back(T((i % 2 ? -1 : 1) * (43 - 3 * i))); } }
    return c;
}
// Grid over the float encodings: every sign and exponent, every pattern of the top mb mantissa bits, and
// four patterns of the remaining bits (zeros, one, alternating, ones).
inline u64 gridSize(int mb) { return u64(512) << (mb + 2); }
inline float gridAt(u64 i, int mb) {
    u32 low = i & 3; i >>= 2; int rest = 23 - mb; u32 ones = (1u << rest) - 1;
    u32 l = low == 0 ? 0 : low == 1 ? 1 : low == 2 ? (0x2aaaaau & ones) : ones;
    return fromBits((u32(i >> mb) << 23) | ((u32(i) & ((1u << mb) - 1)) << rest) | l);
}
// mixed-radix decoder
struct Radix { u64 i; explicit Radix(u64 x) : i(x) {} u64 take(u64 n) { u64 r = i % n; i /= n; return r; } };

// ---------------------------------------------------------------- driver
inline std::string jesc(const std::string& s) {
    std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o;
}
inline int& crashFd() { static int fd = -1; return fd; }
inline void dumpCur(const char* why) {
    char buf[256];
    Cur& k = curs()[curSlot];
    if (crashFd() >= 0) {
        int n = snprintf(buf, sizeof buf, "%s %d %llu\n", why, k.active ? (int)k.fam : -1, (unsigned long long)k.idx);
        (void)!write(crashFd(), buf, n);
    }
}
inline void onCrash(int sig) { char b[32]; snprintf(b, sizeof b, "signal:%d", sig); dumpCur(b); _exit(77); }
// calls that never end use up the stack (AddressSanitizer has its own): the handler runs on one of its own
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_NO_CRASH_STACK
#endif
#endif
#if defined(MC_NO_CRASH_STACK) || defined(__SANITIZE_ADDRESS__)
inline void crashStack() {}
inline void dropCrashStack() {}
#else
inline void crashStack() {
    static const size_t N = 1 << 16; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = malloc(N); st.ss_size = N;   // kept for the life of the thread
    if (st.ss_sp) sigaltstack(&st, nullptr);
}
inline void dropCrashStack() { stack_t st, old; memset(&st, 0, sizeof st); st.ss_flags = SS_DISABLE; if (!sigaltstack(&st, &old) && !(old.ss_flags & SS_DISABLE)) free(old.ss_sp); }
#endif
inline void onTerm(int) {
    char buf[256];
    for (int s = 0; s < 256; s++) { Cur& k = curs()[s]; if (k.active && crashFd() >= 0) { int n = snprintf(buf, sizeof buf, "hang %d %llu\n", (int)k.fam, (unsigned long long)k.idx); (void)!write(crashFd(), buf, n); } }
    _exit(78);
}

inline int explore(int argc, char** argv) {
    const char* out = nullptr; const char* only = nullptr; bool haveIdx = false; u64 index = 0; unsigned jobs = 8; const char* crash = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--only") only = argv[++i];
        else if (a == "--index") { haveIdx = true; index = strtoull(argv[++i], 0, 10); }
        else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--crash") crash = argv[++i];
        else if (a == "--list") { for (auto& f : families()) printf("%s %llu\n", f.name.c_str(), (unsigned long long)f.count); return 0; }
    }
    if (crash) crashFd() = open(crash, O_WRONLY | O_CREAT | O_APPEND, 0644);
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
    signal(SIGTERM, onTerm); crashStack();
    std::vector<Family>& fam = families();
    FILE* o = out ? fopen(out, "w") : stdout;
    fprintf(o, "{\"families\":[");
    bool first = true; u64 totalFail = 0; std::vector<Fail> fails; std::vector<std::string> smp;
    u64 te = 0, tn = 0, ts = 0, tt = 0, tr = 0;
    for (size_t fi = 0; fi < fam.size(); fi++) {
        Family& f = fam[fi];
        if (only && f.name != only) continue;
        u64 lo = 0, hi = f.count;
        if (haveIdx) { lo = index; hi = index + 1; }
        std::atomic<u64> next{lo};
        unsigned nt = haveIdx ? 1 : std::max<u64>(1, std::min<u64>(jobs, (hi - lo + f.block - 1) / f.block));
        std::vector<Ctx> ctxs(nt);
        auto work = [&](unsigned t) {
            curSlot = t + 1; Cur& k = curs()[curSlot]; k.fam = fi; k.active = true;
            for (;;) {
                u64 b = next.fetch_add(f.block); if (b >= hi) break;
                f.run(b, std::min(hi, b + f.block), ctxs[t]);
                if (ctxs[t].nfails > 1000) break;
            }
            k.active = false;
        };
        if (nt == 1) work(0);
        else { std::vector<std::thread> th; for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] { crashStack(); work(t); dropCrashStack(); }); for (auto& x : th) x.join(); }
        u64 e = 0, n = 0, nf = 0, s = 0, tr2 = 0, tc = 0; std::vector<std::pair<u64,std::string>> ff;
        for (auto& c : ctxs) { e += c.evals; n += c.nontrivial; nf += c.nfails; s += c.states; tr2 += c.transitions; tc += c.traces; for (auto& x : c.fails) ff.push_back(x); }
        std::sort(ff.begin(), ff.end());
        if (!haveIdx && smp.size() < 8 && f.count) {   // write out an actual case of this family
            Ctx c; c.verbose = true; curSlot = 0; Cur& k = curs()[0]; k.fam = fi; k.active = true;
            u64 at = f.count / 2 + f.count / 7; if (at >= f.count) at = f.count - 1;
            f.run(at, at + 1, c); k.active = false;
            if (!c.samples.empty()) smp.push_back(f.name + " [" + std::to_string(at) + "]: " + c.samples[0]);
        }
        te += e; tn += n; ts += s; tt += tr2; tr += tc; totalFail += nf;
        fprintf(o, "%s{\"name\":\"%s\",\"inputs\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"fails\":%llu}", first ? "" : ",\n", jesc(f.name).c_str(),
                (unsigned long long)(hi - lo), (unsigned long long)e, (unsigned long long)n, (unsigned long long)s, (unsigned long long)tr2, (unsigned long long)tc, (unsigned long long)nf);
        first = false;
        for (size_t i = 0; i < ff.size() && i < 2; i++) fails.push_back({f.name, ff[i].first, ff[i].second});
    }
    fprintf(o, "],\n\"evals\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"nfails\":%llu,\"fails\":[",
            (unsigned long long)te, (unsigned long long)tn, (unsigned long long)ts, (unsigned long long)tt, (unsigned long long)tr, (unsigned long long)totalFail);
    for (size_t i = 0; i < fails.size(); i++)
        fprintf(o, "%s{\"family\":\"%s\",\"index\":%llu,\"msg\":\"%s\"}", i ? ",\n" : "", jesc(fails[i].family).c_str(), (unsigned long long)fails[i].index, jesc(fails[i].msg).c_str());
    fprintf(o, "],\n\"samples\":[");
    for (size_t i = 0; i < smp.size(); i++) fprintf(o, "%s\"%s\"", i ? ",\n" : "", jesc(smp[i]).c_str());
    fprintf(o, "]}\n");
    if (out) fclose(o);
    return totalFail ? 1 : 0;
}

} // namespace mc

// Every harness defines this: register the families for the given tier.
void registerFamilies();
#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
    const char* t = getenv("VERIF_TIER");
    for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "--thorough") mc::thorough() = true;
    (void)t;
    registerFamilies();
    return mc::explore(argc, argv);
}
#endif
