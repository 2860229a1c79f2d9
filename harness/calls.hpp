// Call table shared by the generated thunks and the harness that drives them.
#pragma once
struct TypeCode { char kind; unsigned char lanes; };   // f i u b z(size_t) v(void); F I B: pointer to that many
struct Call { void (*fn)(const void* const* args, char* out); const char* name; unsigned char nargs; TypeCode args[18]; TypeCode ret; unsigned char idxmod, nrefs; TypeCode refs[3]; unsigned char al[18]; };   // al: alignment of each parameter, + 128 if it is passed for writing
