// A program using the swizzles, compiled under every standard.
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/bvec2.hpp>
#include <cstdio>
template<class A, class B> static int ne(const A& a, const B& b) { return a == b ? 0 : 1; }
int main() {
    using namespace zcm; int bad = 0;
    vec4 v(1, 2, 3, 4); vec3 t(5, 6, 7); vec2 p(8, 9); ivec4 k(1, 2, 3, 4); ivec3 m(5, 6, 7); ivec2 n(8, 9);
    vec2 a = v.wx; vec3 b = v.zyx; vec4 c = v.wzyx; vec3 d = t.zyx; vec2 e = p.yx; vec3 f = v.bgr; vec2 g = v.ts;
    bad += ne(a, vec2(4, 1)) + ne(b, vec3(3, 2, 1)) + ne(c, vec4(4, 3, 2, 1)) + ne(d, vec3(7, 6, 5)) + ne(e, vec2(9, 8)) + ne(f, vec3(3, 2, 1)) + ne(g, vec2(2, 1));
    ivec2 h = k.wx; ivec3 i = k.zyx; ivec3 j = m.zyx; ivec2 l = n.yy;
    bad += ne(h, ivec2(4, 1)) + ne(i, ivec3(3, 2, 1)) + ne(j, ivec3(7, 6, 5)) + ne(l, ivec2(9, 9));
    v.x = 10; v.y += 1; v.b *= 2; v.q -= 1; float s = v.x + t.y; int u = k.w + m.r; v.x = v.y;
    bad += ne(v, vec4(3, 3, 6, 3)) + (s != 16) + (u != 9); k.x = 7; k.y = k.x; bad += ne(k, ivec4(7, 7, 3, 4));
    if (bad) std::printf("%d wrong\n", bad);
    return bad != 0;
}
