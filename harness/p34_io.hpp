// Values of zcm and GLM types from and to flat lanes.
#pragma once
#include <cstring>
#include <type_traits>
#include <cmath>
inline int laneInt(double d) { return (int)std::lrint(d); }
#ifndef P34_GLM
template<class T> struct El { typedef float type; };
template<> struct El<zcm::bvec2> { typedef bool type; }; template<> struct El<zcm::bvec3> { typedef bool type; }; template<> struct El<zcm::bvec4> { typedef bool type; }; template<> struct El<bool> { typedef bool type; };
template<> struct El<zcm::ivec2> { typedef int type; }; template<> struct El<zcm::ivec3> { typedef int type; }; template<> struct El<zcm::ivec4> { typedef int type; }; template<> struct El<int> { typedef int type; }; template<> struct El<unsigned> { typedef unsigned type; };
template<class T> T in(const float*& l) {
    typedef typename El<T>::type E; const int n = sizeof(T) / sizeof(E); E e[n];
    for (int k = 0; k < n; k++) e[k] = std::is_same<E, float>::value ? E(l[k]) : std::is_same<E, bool>::value ? E(l[k] != 0) : E(laneInt(l[k]));
    l += n; T t; std::memcpy((void*)&t, e, sizeof t); return t;
}
template<class T> void out(const T& t, double* o) { typedef typename El<T>::type E; const int n = sizeof(T) / sizeof(E); E e[n]; std::memcpy(e, (const void*)&t, sizeof t); for (int k = 0; k < n; k++) o[k] = double(e[k]); }
#else
inline void rd(double& v, double d) { v = d; } inline void rd(int& v, double d) { v = laneInt(d); } inline void rd(unsigned& v, double d) { v = laneInt(d); } inline void rd(bool& v, double d) { v = d != 0; }
template<class T> struct Gin { static T get(const double*& l) { T t; rd(t, *l++); return t; } static void put(const T& t, double* o) { *o = double(t); } };
template<int N, class E> struct Gin<glm::vec<N, E, glm::defaultp>> { typedef glm::vec<N, E, glm::defaultp> T; static T get(const double*& l) { T t; for (int k = 0; k < N; k++) rd(t[k], *l++); return t; } static void put(const T& t, double* o) { for (int k = 0; k < N; k++) o[k] = double(t[k]); } };
template<int N, class E> struct Gin<glm::mat<N, N, E, glm::defaultp>> { typedef glm::mat<N, N, E, glm::defaultp> T; static T get(const double*& l) { T t; for (int c = 0; c < N; c++) for (int r = 0; r < N; r++) t[c][r] = *l++; return t; } static void put(const T& t, double* o) { for (int c = 0; c < N; c++) for (int r = 0; r < N; r++) *o++ = t[c][r]; } };
template<class E> struct Gin<glm::qua<E, glm::defaultp>> { typedef glm::qua<E, glm::defaultp> T; static T get(const double*& l) { T t; t.x = l[0]; t.y = l[1]; t.z = l[2]; t.w = l[3]; l += 4; return t; } static void put(const T& t, double* o) { o[0] = t.x; o[1] = t.y; o[2] = t.z; o[3] = t.w; } };
template<class T> T gin(const double*& l) { return Gin<T>::get(l); }
template<class T> void gout(const T& t, double* o) { Gin<T>::put(t, o); }
#endif
