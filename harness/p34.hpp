#pragma once
#include <vector>
struct Kind { char kind; unsigned char lanes; };     // f scalar, v vector, q quaternion, m matrix, i int, u unsigned, b bool
struct Shape { void (*z)(const float*, double*); void (*g)(const double*, double*); const char* name; int nargs; Kind args[16]; Kind ret; };
std::vector<Shape> shapes();
