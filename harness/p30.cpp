// Constants: the nearest float of the 50-digit value, on every one of a sequence of calls.
#include "zall.hpp"
struct K { const char* n; float (*f)(); long double v; };
static const K ks[] = {
#define CONST(N, V) {#N, [] { return zcm::N(); }, V},
#include "constants.inc"
};
void registerFamilies() {
    const u64 n = sizeof ks / sizeof *ks;
    mc::add("every constant, after every other one", n * n, [n](u64 i, Ctx& c) { const K &a = ks[i % n], &b = ks[i / n]; float x = b.f(), g = a.f(), h = a.f(), y = b.f(); float e = (float)a.v;
        // nearest: no neighbouring float is closer
        bool near = g == e; float up = std::nextafterf(g, INFINITY), dn = std::nextafterf(g, -INFINITY); near = near && std::fabs((long double)g - a.v) <= std::fabs((long double)up - a.v) && std::fabs((long double)g - a.v) <= std::fabs((long double)dn - a.v);
        c.nt(i % n == i / n && a.v != 0); c.check(near && mc::bits(g) == mc::bits(h) && mc::bits(x) == mc::bits(y), [&] { return fmt("%s() = %s after %s(), then %s; expected %s (%.20Lg)", a.n, fs(g).c_str(), b.n, fs(h).c_str(), fs(e).c_str(), a.v); }); });
}
