// Octahedral encoding: the reference decoder works in double precision.
#include "zall.hpp"
using namespace zcm;
static void refDec(double x, double y, double* v) { double z = 1 - std::fabs(x) - std::fabs(y); if (z < 0) { double ox = x; x = (1 - std::fabs(y)) * (x < 0 ? -1 : 1); y = (1 - std::fabs(ox)) * (y < 0 ? -1 : 1); } double l = std::sqrt(x * x + y * y + z * z); v[0] = x / l; v[1] = y / l; v[2] = z / l; }
static double dist(const double* a, const float* b) { double s = 0; for (int k = 0; k < 3; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s); }
static void dir(const float* v, Ctx& c) { float e[2], d[3]; rd(zcm::encode_octahedral(mk<vec3>(v)), e); rd(zcm::decode_octahedral(mk<vec2>(e)), d); double r[3]; refDec(e[0], e[1], r); double vd[3] = {v[0], v[1], v[2]}; c.nt(v[2] < 0);
    c.check(std::fabs(e[0]) <= 1 + 1e-6 && std::fabs(e[1]) <= 1 + 1e-6, [&] { return fmt("encode_octahedral(%s) = %s lies outside the square", vsx(v, 3).c_str(), vsx(e, 2).c_str()); });
    c.check(dist(vd, d) <= 2e-6, [&] { return fmt("decode(encode(%s) = %s) = %s", vsx(v, 3).c_str(), vsx(e, 2).c_str(), vs(d, 3).c_str()); });
    c.check(dist(r, v) <= 2e-6, [&] { return fmt("encode_octahedral(%s) = %s, which is the code of (%.9g, %.9g, %.9g)", vsx(v, 3).c_str(), vsx(e, 2).c_str(), r[0], r[1], r[2]); }); }
static void code(const float* e, Ctx& c) { float d[3]; rd(zcm::decode_octahedral(mk<vec2>(e)), d); double r[3]; refDec(e[0], e[1], r); double l = double(d[0]) * d[0] + double(d[1]) * d[1] + double(d[2]) * d[2]; c.nt(std::fabs(e[0]) + std::fabs(e[1]) > 1);
    c.check(std::fabs(l - 1) <= 1e-6 && dist(r, d) <= 2e-6, [&] { return fmt("decode_octahedral(%s) = %s, expected (%.9g, %.9g, %.9g)", vsx(e, 2).c_str(), vsx(d, 3).c_str(), r[0], r[1], r[2]); }); }
static void norm(float* l) { double s = 0; for (int k = 0; k < 3; k++) s += double(l[k]) * l[k]; s = std::sqrt(s); for (int k = 0; k < 3; k++) l[k] = float(l[k] / s); }
void registerFamilies() {
    int t = mc::isThorough(); int K = t ? 110 : 50;
    mc::add("integer directions", u64(2 * K + 1) * (2 * K + 1) * (2 * K + 1), [K](u64 i, Ctx& c) { mc::Radix r(i); float l[3]; for (int k = 0; k < 3; k++) l[k] = float((int)r.take(2 * K + 1) - K); if (!l[0] && !l[1] && !l[2]) return; norm(l); dir(l, c); });
    // two components from ordinary values, one tiny of either sign (including the zeros): seams of the folding
    static const std::vector<float> tiny = {0.f, -0.f, 1e-45f, -1e-45f, 1e-38f, -1e-38f, 1e-20f, -1e-20f, 1e-10f, -1e-10f, 1e-8f, -1e-8f, 3e-8f, -3e-8f, 6e-8f, -6e-8f, 1e-7f, -1e-7f, 1e-6f, -1e-6f, 1e-4f, -1e-4f, 0.01f, -0.01f};
    mc::add("directions near the seams", 3 * 720 * tiny.size(), [](u64 i, Ctx& c) { mc::Radix r(i); int k = (int)r.take(3); double a = r.take(720) * (6.283185307179586 / 720); float z = tiny[r.take(tiny.size())]; float l[3]; l[k] = z; l[(k + 1) % 3] = float(std::cos(a)); l[(k + 2) % 3] = float(std::sin(a)); norm(l); dir(l, c); });
    mc::add("directions near the axes", 3 * 2 * tiny.size() * tiny.size(), [](u64 i, Ctx& c) { mc::Radix r(i); int k = (int)r.take(3); float s = r.take(2) ? 1.f : -1.f; float l[3]; l[k] = s; l[(k + 1) % 3] = tiny[r.take(tiny.size())]; l[(k + 2) % 3] = tiny[r.take(tiny.size())]; norm(l); dir(l, c); });
    int G = t ? 4000 : 1500; mc::add("grid of the square", u64(G + 1) * (G + 1), [G](u64 i, Ctx& c) { float e[2] = {float(-1 + 2.0 * (i % (G + 1)) / G), float(-1 + 2.0 * (i / (G + 1)) / G)}; code(e, c); });
    { auto A = std::make_shared<std::vector<float>>(); for (float f : mc::richFloats()) if (std::fabs(f) <= 1) A->push_back(f); for (int k = 0; k < 64; k++) for (float s : {1.f, -1.f}) { A->push_back(s * mc::fromBits(0x3f800000u - k)); A->push_back(s * mc::fromBits(0x3f000000u + k)); A->push_back(s * mc::fromBits(0x3f000000u - k)); A->push_back(s * std::ldexp(1.f, -2 * k)); } mc::uniq(*A); u64 n = A->size(); mc::add("special points of the square", n * n, [A, n](u64 i, Ctx& c) { float e[2] = {(*A)[i % n], (*A)[i / n]}; code(e, c); }); }
}
