#pragma once
#include "mc.hpp"
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/quat.hpp>
#include <zcm/common.hpp>
#include <zcm/exponential.hpp>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/geometric.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/color_space.hpp>
#include <zcm/constants.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/hash.hpp>
using mc::u64; using mc::u32; using mc::Ctx; using mc::fmt; using mc::LaneSpace; using mc::same; using mc::vs; using mc::vsx; using mc::fs;

// Raw lane access that does not go through the accessors under test.
template<class V> struct Tr;
#define ZTR(V, T, N) template<> struct Tr<zcm::V> { typedef T S; enum { n = N }; static const char* name() { return #V; } };
ZTR(vec2, float, 2) ZTR(vec3, float, 3) ZTR(vec4, float, 4) ZTR(quat, float, 4)
ZTR(ivec2, int32_t, 2) ZTR(ivec3, int32_t, 3) ZTR(ivec4, int32_t, 4)
ZTR(bvec2, bool, 2) ZTR(bvec3, bool, 3) ZTR(bvec4, bool, 4)
ZTR(mat2, float, 4) ZTR(mat3, float, 9) ZTR(mat4, float, 16)
#undef ZTR
template<class V> inline V mk(const typename Tr<V>::S* p) {
    static_assert(sizeof(V) == Tr<V>::n * sizeof(typename Tr<V>::S), "layout");
    V v; std::memcpy((void*)&v, p, sizeof(V)); return v;
}
template<class V> inline void rd(const V& v, typename Tr<V>::S* p) { std::memcpy((void*)p, (const void*)&v, sizeof(V)); }
template<class V> inline std::string sh(const V& v) { typename Tr<V>::S p[Tr<V>::n]; rd(v, p); return vs(p, Tr<V>::n); }
// compare every lane of a zcm object with an expected array; exact (NaN = NaN)
template<class V> inline bool eqv(const V& v, const typename Tr<V>::S* e) {
    typename Tr<V>::S p[Tr<V>::n]; rd(v, p);
    for (int i = 0; i < Tr<V>::n; i++) if (!same(p[i], e[i])) return false;
    return true;
}
