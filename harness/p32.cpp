// Makes every call of the generated table once per argument set and writes the results;
// --compare reads two such files and compares them value by value.
#define MC_NO_MAIN
#include "callset.hpp"
#include <csetjmp>
extern "C" unsigned zcm_calls(const Call**, unsigned*);
static sigjmp_buf jb;
static void onSig(int s) { siglongjmp(jb, s); }
static bool near(float a, float b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (a == b) return true; if (std::isinf(a) || std::isinf(b)) return false; return std::fabs((double)a - b) <= 5e-7 * std::max(std::fabs((double)a), std::fabs((double)b)) + 1e-43; }
// The same IEEE operations in the same order: a few units in the last place, for compilers that fold a constant differently, are all
// that may differ; on the tree as it is nothing does.
static bool values(char kind, unsigned lanes, const char* a, const char* b) {
    if (kind != 'f' && kind != 'F') return !std::memcmp(a, b, elem(kind) * lanes);
    for (unsigned l = 0; l < lanes; l++) { float x, y; std::memcpy(&x, a + 4 * l, 4); std::memcpy(&y, b + 4 * l, 4); if (!near(x, y)) return false; }
    return true;
}
int main(int argc, char** argv) {
    const Call* tabs[64]; unsigned ns[64]; unsigned parts = zcm_calls(tabs, ns); bool deep = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough"; makeSets(tabs, ns, parts, deep, true);
    if (argc == 3) {   // --run FILE
        FILE* f = fopen(argv[2], "wb"); alignas(64) static char o[OUT + 1];
        for (size_t i = 0; i < invs.size(); i++) {
            std::memset(o, 0xa5, OUT); o[OUT] = 1;
            for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) { struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_handler = onSig; a.sa_flags = SA_NODEFER; sigaction(s, &a, 0); }
            int r = sigsetjmp(jb, 1); if (!r) invoke(invs[i], o); else { std::memset(o, 0, OUT); o[OUT] = r == SIGABRT ? 2 : 3; }
            fwrite(o, 1, OUT + 1, f);
        }
        fclose(f); return 0;
    }
    // --compare A B
    FILE *a = fopen(argv[2], "rb"), *b = fopen(argv[3], "rb"); static char x[OUT + 1], y[OUT + 1]; u64 n = 0, nt = 0, bad = 0;
    for (size_t i = 0; i < invs.size(); i++) {
        if (fread(x, OUT + 1, 1, a) != 1 || fread(y, OUT + 1, 1, b) != 1) { printf("BAD short result file\n"); return 1; }
        const Call* c = thunks[invs[i].thunk].c; bool ok;
        if (x[OUT] == 2 || y[OUT] == 2) ok = i >= thunks[invs[i].thunk].first + 2;   // an assertion on a special value is a precondition of debug builds
        else if (x[OUT] == 3 || y[OUT] == 3) ok = false;
        else {
            ok = values(c->ret.kind, c->ret.lanes, x, y); for (unsigned q = 0; q < c->nrefs && ok; q++) ok = values(c->refs[q].kind, c->refs[q].lanes, x + 64 + 64 * q, y + 64 + 64 * q);
        }
        ++n; nt += x[OUT] == 1 && c->nargs;
        if (!ok && ++bad <= 4) printf("BAD %s: %s (status %d) and %s (status %d)\n", name(i).c_str(), show(c, x).c_str(), x[OUT], show(c, y).c_str(), y[OUT]);
    }
    printf("COMPARED %llu %llu\n", (unsigned long long)n, (unsigned long long)nt); return bad ? 1 : 0;
}
