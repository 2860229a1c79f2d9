// Rotations, quaternions and rigid transforms in double precision.
#pragma once
#include "mats.hpp"
struct D3 { double x, y, z; double& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; } double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
inline D3 operator+(D3 a, D3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } inline D3 operator-(D3 a, D3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } inline D3 operator*(D3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline double dotd(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } inline D3 crossd(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } inline double lend(D3 a) { return std::sqrt(dotd(a, a)); } inline D3 unit(D3 a) { return a * (1 / lend(a)); }
inline D3 d3(const float* p) { return {p[0], p[1], p[2]}; } inline D3 d3(const zcm::vec3& v) { float p[3]; rd(v, p); return d3(p); } inline zcm::vec3 v3(D3 a) { float p[3] = {float(a.x), float(a.y), float(a.z)}; return mk<zcm::vec3>(p); }
inline std::string s3(D3 a) { return fmt("(%.9g, %.9g, %.9g)", a.x, a.y, a.z); }
struct DQ { double x, y, z, w; };
inline DQ dq(const zcm::quat& q) { float p[4]; rd(q, p); return {p[0], p[1], p[2], p[3]}; } inline zcm::quat zq(DQ q) { float p[4] = {float(q.x), float(q.y), float(q.z), float(q.w)}; return mk<zcm::quat>(p); }
inline std::string sq(DQ q) { return fmt("[x %.9g y %.9g z %.9g w %.9g]", q.x, q.y, q.z, q.w); }
inline double lenq(DQ q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); } inline DQ operator*(DQ q, double s) { return {q.x * s, q.y * s, q.z * s, q.w * s}; } inline DQ operator+(DQ a, DQ b) { return {a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w}; } inline DQ unit(DQ q) { return q * (1 / lenq(q)); } inline double dotq(DQ a, DQ b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
inline DQ mulq(DQ a, DQ b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
inline double maxdiff(DQ a, DQ b) { return std::max(std::max(std::fabs(a.x - b.x), std::fabs(a.y - b.y)), std::max(std::fabs(a.z - b.z), std::fabs(a.w - b.w))); }
// distance up to sign (the double cover)
inline double rotdiff(DQ a, DQ b) { double p = maxdiff(a, b), m = maxdiff(a, b * -1); return p != p || m != m ? 9e9 : std::min(p, m); }
inline DQ axisAngle(D3 u, double a) { u = unit(u); double s = std::sin(a / 2); return {u.x * s, u.y * s, u.z * s, std::cos(a / 2)}; }
struct DM { double m[3][3]; };   // m[column][row]
inline DM matq(DQ q) { q = unit(q); double x = q.x, y = q.y, z = q.z, w = q.w; return {{{1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y)}, {2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)}, {2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)}}}; }
inline D3 mulv(const DM& a, D3 v) { D3 r; for (int i = 0; i < 3; i++) r[i] = a.m[0][i] * v.x + a.m[1][i] * v.y + a.m[2][i] * v.z; return r; }
// Rodrigues' formula, independent of the quaternion form
inline DM matAxis(D3 u, double a) { u = unit(u); double c = std::cos(a), s = std::sin(a); DM r; for (int j = 0; j < 3; j++) { D3 e{double(j == 0), double(j == 1), double(j == 2)}; D3 t = e * c + crossd(u, e) * s + u * (dotd(u, e) * (1 - c)); for (int i = 0; i < 3; i++) r.m[j][i] = t[i]; } return r; }
// primitive integer directions of a box
inline std::vector<D3> directions(int n) { std::vector<D3> r; for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = -n; z <= n; z++) { int g = 0; for (int v : {x, y, z}) { int a = std::abs(v), b = g; while (a) { int t = b % a; b = a; a = t; } g = b; } if (g == 1) r.push_back({double(x), double(y), double(z)}); } return r; }
// unit quaternions: primitive integer quaternions of a box, normalised; optionally near-identity ones and
// rotations around the branch boundaries
inline std::vector<DQ> unitQuats(int n) { std::vector<DQ> r; for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = -n; z <= n; z++) for (int w = -n; w <= n; w++) { int g = 0; for (int v : {x, y, z, w}) { int a = std::abs(v), b = g; while (a) { int t = b % a; b = a; a = t; } g = b; } if (g == 1) r.push_back(unit(DQ{double(x), double(y), double(z), double(w)})); } return r; }
inline std::vector<DQ> specialQuats() { std::vector<DQ> r; std::vector<D3> ax = directions(1); for (D3 u : ax) for (double a : {1e-6, 1e-4, 1e-3, 0.01, 0.1, M_PI / 2 - 1e-5, M_PI / 2 + 1e-5, 2 * M_PI / 3 - 1e-5, 2 * M_PI / 3, 2 * M_PI / 3 + 1e-5, M_PI - 1e-2, M_PI - 1e-4, M_PI - 1e-6, M_PI + 1e-4, M_PI + 0.2, 2 * M_PI - 1e-3}) r.push_back(axisAngle(u, a)); return r; }
// one component dominates, two others deviate by every pair of small distances: boundaries of any choice by the largest component
inline std::vector<DQ> leaningQuats(bool deep) { std::vector<DQ> r; std::vector<double> ds{0}; const std::vector<double>& a = mc::deltas(); for (size_t i = 0; i < a.size(); i++) if (deep || i % 4 == 0 || i % 4 == 3) ds.push_back(a[i]); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = j + 1; k < 4; k++) { if (j == i || k == i) continue; for (double x : ds) for (double y : ds) { double q[4] = {}; q[i] = 1; q[j] = x; q[k] = y; r.push_back(unit(DQ{q[0], q[1], q[2], q[3]})); } } 
    for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) for (double x : ds) for (double y : ds) { double q[4] = {x, x, x, x}; q[i] = 1; q[j] = 1 + y; r.push_back(unit(DQ{q[0], q[1], q[2], q[3]})); } return r; }
inline zcm::vec3 scaledv(D3 a, double s) { return v3(a * s); }
