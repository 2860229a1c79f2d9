// Matrices as plain column-major double arrays.
#pragma once
#include "zall.hpp"
static const double E24 = 5.9604644775390625e-8;   // half an ulp of one
template<int D> struct MT; template<> struct MT<2> { typedef zcm::mat2 M; typedef zcm::vec2 V; }; template<> struct MT<3> { typedef zcm::mat3 M; typedef zcm::vec3 V; }; template<> struct MT<4> { typedef zcm::mat4 M; typedef zcm::vec4 V; };
// a value with the sum of the magnitudes of the terms it was summed from
struct Tm { double v = 0, t = 0; void add(double x) { v += x; t += std::fabs(x); } };
inline bool dyadic(const float* l, int n, double lim = 64) { for (int k = 0; k < n; k++) if (!(std::fabs(l[k]) <= lim) || l[k] * 8 != std::floor(l[k] * 8)) return false; return true; }
inline bool bounded(const float* l, int n, double hi, double lo = 0) { for (int k = 0; k < n; k++) if (!mc::finite(l[k]) || std::fabs(l[k]) > hi || (l[k] != 0 && std::fabs(l[k]) < lo)) return false; return true; }
template<int D> inline void mulMM(const float* a, const float* b, Tm* r) { for (int c = 0; c < D; c++) for (int w = 0; w < D; w++) { r[c * D + w] = Tm(); for (int k = 0; k < D; k++) r[c * D + w].add(double(a[k * D + w]) * b[c * D + k]); } }
template<int D> inline void mulMV(const float* a, const float* v, Tm* r) { for (int w = 0; w < D; w++) { r[w] = Tm(); for (int k = 0; k < D; k++) r[w].add(double(a[k * D + w]) * v[k]); } }
template<int D> inline void mulVM(const float* v, const float* a, Tm* r) { for (int w = 0; w < D; w++) { r[w] = Tm(); for (int k = 0; k < D; k++) r[w].add(double(a[w * D + k]) * v[k]); } }
inline bool nearTm(const float* p, const Tm* r, int n, double k, bool exact) { for (int i = 0; i < n; i++) if (exact ? double(p[i]) != r[i].v : !(std::fabs(p[i] - r[i].v) <= k * E24 * r[i].t + 1e-36)) return false; return true; }
inline std::string tms(const Tm* r, int n) { std::string s = "("; for (int i = 0; i < n; i++) s += fmt("%s%.9g", i ? ", " : "", r[i].v); return s + ")"; }
// determinant by expansion over permutations; adjugate by minors
template<int D> inline Tm detRef(const double* m) { int p[D]; for (int i = 0; i < D; i++) p[i] = i; Tm r; do { int inv = 0; for (int i = 0; i < D; i++) for (int j = i + 1; j < D; j++) inv += p[i] > p[j]; double x = inv & 1 ? -1 : 1; for (int i = 0; i < D; i++) x *= m[i * D + p[i]]; r.add(x); } while (std::next_permutation(p, p + D)); return r; }
template<> inline Tm detRef<1>(const double* m) { Tm r; r.add(m[0]); return r; }
template<int D> inline void adjRef(const double* m, Tm* r) { for (int c = 0; c < D; c++) for (int w = 0; w < D; w++) { double q[(D - 1) * (D - 1)]; int n = 0; for (int i = 0; i < D; i++) if (i != w) for (int j = 0; j < D; j++) if (j != c) q[n++] = m[i * D + j]; Tm t = detRef<D - 1>(q); if ((c + w) & 1) t.v = -t.v; r[c * D + w] = t; } }
