// ivec relational operators: lexicographic total order; ordered-container use.
#include "zall.hpp"
#include <map>
#include <set>
#include <algorithm>
using namespace zcm;
template<class V> static int lex(const int32_t* a, const int32_t* b) { for (int k = 0; k < Tr<V>::n; k++) if (a[k] != b[k]) return a[k] < b[k] ? -1 : 1; return 0; }
template<class V> void reg() {
    enum { N = Tr<V>::n }; std::string nm = Tr<V>::name();
    // pairs: small alphabet fully, then pairs that differ from equal contexts in up to two lanes
    std::vector<int32_t> small = {-1, 0, 1, INT_MIN}; if (N <= 3) { small.push_back(INT_MAX); small.push_back(2); }
    if (mc::isThorough() && N == 4) { small.push_back(INT_MAX); small.push_back(2); }
    std::vector<std::vector<int32_t>> cx; for (int w = 0; w < 3; w++) { std::vector<int32_t> x; for (int k = 0; k < 2 * N; k++) { int j = k % N; x.push_back(w == 0 ? 3 + j : w == 1 ? 0 : 100 - 60 * j); } cx.push_back(x); }
    { std::vector<int32_t> x; for (int k = 0; k < 2 * N; k++) x.push_back(k == N - 1 ? 5 : k >= N ? 4 : 4); cx.push_back(x); }
    auto sp = std::make_shared<LaneSpace<int32_t>>(2 * N, small, mc::richInts(), cx);
    mc::add(nm + " relational pairs", sp->size(), [sp](u64 i, Ctx& c) {
        int32_t l[2 * N]; sp->decode(i, l); V a = mk<V>(l), b = mk<V>(l + N); int o = lex<V>(l, l + N);
        bool lt = a < b, le = a <= b, gt = a > b, ge = a >= b, eq = a == b, ne = a != b;
        c.check(lt == (o < 0) && le == (o <= 0) && gt == (o > 0) && ge == (o >= 0) && eq == (o == 0) && ne == (o != 0),
            [&] { return fmt("%s %s ? %s: < %d <= %d > %d >= %d == %d != %d, lexicographic order says %d", Tr<V>::name(), vs(l, N).c_str(), vs(l + N, N).c_str(), lt, le, gt, ge, eq, ne, o); });
        c.nt(sp->fresh(i, l) && o != 0);
    });
    // order axioms on triples, straight from the operators
    int A = N == 4 ? 2 : N == 3 ? 3 : 5; u64 M = 1; for (int k = 0; k < N; k++) M *= A; 
    std::vector<int32_t> al = A == 2 ? std::vector<int32_t>{-1, 1} : A == 3 ? std::vector<int32_t>{-5, 0, 5} : std::vector<int32_t>{INT_MIN, -1, 0, 1, INT_MAX};
    mc::add(nm + " order axioms on triples", M * M * M, [=](u64 i, Ctx& c) {
        int32_t p[3][N]; for (int t = 0; t < 3; t++) for (int k = 0; k < N; k++) { p[t][k] = al[i % A]; i /= A; }
        V x = mk<V>(p[0]), y = mk<V>(p[1]), z = mk<V>(p[2]);
        bool xy = x < y, yz = y < z, xz = x < z, yx = y < x;
        c.check(!(x < x) && !(xy && yx) && (xy || yx || x == y) && (!(xy && yz) || xz), [&] { return fmt("%s x=%s y=%s z=%s: x<y %d y<x %d y<z %d x<z %d", Tr<V>::name(), vs(p[0], N).c_str(), vs(p[1], N).c_str(), vs(p[2], N).c_str(), xy, yx, yz, xz); });
        c.nt(xy && yz);
    });
    // histories: every insertion order of up to 5 keys (with repetition) into set and map, against a sorted reference
    static const int K = 8; static int32_t keys[K][4] = {{0,0,0,0},{0,0,0,1},{0,0,1,0},{0,1,0,0},{1,0,0,0},{0,1,1,0},{-1,9,9,9},{0,0,1,-7}};
    auto key = [](int j, int32_t* o) { static const int32_t k2[K][2] = {{0,0},{0,1},{1,0},{1,1},{-1,9},{9,-1},{0,-7},{INT_MIN,INT_MAX}};
        if (N == 2) { o[0] = k2[j][0]; o[1] = k2[j][1]; } else if (N == 3) { for (int k = 0; k < 3; k++) o[k] = keys[j][k + 1]; if (j == 4) { o[0] = 1; o[1] = 1; o[2] = 1; } if (j == 6) o[0] = -9; } else for (int k = 0; k < 4; k++) o[k] = keys[j][k]; };
    int L = mc::isThorough() ? 6 : 5; u64 H = 1; for (int k = 0; k < L; k++) H *= K;
    mc::add(nm + " ordered containers, all insertion histories", H, [=](u64 i, Ctx& c) {
        std::set<V> s; std::map<V, int> m; std::map<std::vector<int32_t>, int> ref; std::vector<std::vector<int32_t>> seq; std::vector<V> sorted;
        for (int t = 0; t < L; t++) { int j = i % K; i /= K; int32_t o[N]; key(j, o); V v = mk<V>(o); s.insert(v); m[v] = t; sorted.push_back(v); std::vector<int32_t> rv(o, o + N); ref[rv] = t; seq.push_back(rv); ++c.transitions; }
        bool ok = s.size() == ref.size() && m.size() == ref.size(); auto si = s.begin(); auto mi = m.begin();
        for (auto& r : ref) { if (!ok) break; ok = eqv(*si++, r.first.data()) && eqv(mi->first, r.first.data()) && mi->second == r.second && m.count(mk<V>(r.first.data())) == 1; ++mi; }
        std::sort(sorted.begin(), sorted.end()); std::sort(seq.begin(), seq.end());
        for (int t = 0; t < L && ok; t++) ok = eqv(sorted[t], seq[t].data());
        ++c.states; c.nt(ref.size() > 1);
        c.check(ok, [&] { std::string q; for (auto& x : seq) q += vs(x.data(), N); return fmt("%s keys inserted %s: set holds %zu, map %zu, expected %zu distinct keys in lexicographic order", Tr<V>::name(), q.c_str(), s.size(), m.size(), ref.size()); });
    });
}
void registerFamilies() { reg<ivec2>(); reg<ivec3>(); reg<ivec4>(); }
