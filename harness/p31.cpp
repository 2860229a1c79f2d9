// Purity: every public call, driven through generated thunks in a shared object that is loaded into a process
// which itself never calls zcm.  Every index of every family runs in a process forked from that pristine state.
#define MC_NO_MAIN
#include "callset.hpp"
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <xmmintrin.h>
#include <thread>
static u64 seg0, seg1, tls0, tlsN; static const char* soPath; static void (**yieldHook)();
static unsigned char* golden; static unsigned char* goldenOk;   // shared: result of the call as the first one of a process
static std::vector<std::pair<unsigned, std::string>> failedCalls; static u64 excluded;
static int phdr(dl_phdr_info* i, size_t, void*) {
    if (!i->dlpi_name || std::strcmp(i->dlpi_name, soPath)) return 0;
    u64 rel0 = 0, rel1 = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; u64 a = i->dlpi_addr + p.p_vaddr;
        if (p.p_type == PT_GNU_RELRO) { rel0 = a; rel1 = (a + p.p_memsz + 4095) & ~u64(4095); }
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { seg0 = a; seg1 = a + p.p_memsz; }
        if (p.p_type == PT_TLS) tlsN = p.p_memsz; }
    if (rel1 > seg0 && rel0 <= seg0) seg0 = rel1;   // relocated once, read-only since
    if (seg0 > seg1) seg0 = seg1;
    return 1;
}
static char* tlsBlock() { struct P { char* r; } p{nullptr}; if (!tlsN) return nullptr;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* d) { if (i->dlpi_name && !std::strcmp(i->dlpi_name, soPath)) { ((P*)d)->r = (char*)i->dlpi_tls_data; return 1; } return 0; }, &p); return p.r; }
static void run(unsigned i, char* out) { std::memset(out, 0xa5, OUT); invoke(invs[i], out); }
static bool same(unsigned i, const char* o) { return !goldenOk[i] || !std::memcmp(o, golden + u64(i) * OUT, OUT); }
static std::string diff(unsigned i, const char* o) { const Call* c = thunks[invs[i].thunk].c; return fmt("%s = %s, but %s as the first call of a process", name(i).c_str(), show(c, o).c_str(), show(c, (char*)golden + u64(i) * OUT).c_str()); }
// ------------------------------------------------------------ stale memory, guarded arguments
static unsigned char* guardArea;   // 18 x (read-only page, inaccessible page)
__attribute__((noinline)) static void dirtyStack(int pat) { volatile unsigned char b[16384]; std::memset((void*)b, pat, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
__attribute__((noinline)) static void callDirty(const Call* c, const void* const* a, char* out, int pat) {
    alignas(16) unsigned char x[16]; std::memset(x, pat, 16); dirtyStack(pat);
    asm volatile("movaps (%0),%%xmm0\n movaps %%xmm0,%%xmm1\n movaps %%xmm0,%%xmm2\n movaps %%xmm0,%%xmm3\n movaps %%xmm0,%%xmm4\n movaps %%xmm0,%%xmm5\n movaps %%xmm0,%%xmm6\n movaps %%xmm0,%%xmm7\n movaps %%xmm0,%%xmm8\n movaps %%xmm0,%%xmm9\n movaps %%xmm0,%%xmm10\n movaps %%xmm0,%%xmm11\n movaps %%xmm0,%%xmm12\n movaps %%xmm0,%%xmm13\n movaps %%xmm0,%%xmm14\n movaps %%xmm0,%%xmm15\n"
        : : "r"(x) : "memory", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
    c->fn(a, out);
}
static unsigned control() { unsigned short w; asm volatile("fnstcw %0" : "=m"(w)); return (_mm_getcsr() & 0xffc0) << 16 | w; }
static void guarded(u64 t, Ctx& ctx) {
    guardArea = (unsigned char*)mmap(0, 18 * 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int g = 0; g < 18; g++) mprotect(guardArea + g * 8192 + 4096, 4096, PROT_NONE);
    const Thunk& T = thunks[t]; const Call* c = T.c; unsigned cw = control();
    alignas(64) char buf[OUT];
    for (unsigned i = T.first; i < T.first + T.n; i++) {
        const void* a[18]; const Inv& v = invs[i];
        mprotect(guardArea, 18 * 8192, PROT_READ | PROT_WRITE);
        for (unsigned p = 0; p < c->nargs; p++) { unsigned n = bytes(c->args[p]); unsigned char* at = guardArea + p * 8192 + 4096 - n; std::memset(guardArea + p * 8192, 0xee, 4096 - n); std::memcpy(at, arena + v.off + ARG * p, n); a[p] = at; }
        for (unsigned p = 0; p < c->nargs; p++) { mprotect(guardArea + p * 8192, 4096, PROT_READ); mprotect(guardArea + p * 8192 + 4096, 4096, PROT_NONE); }
        for (int pat : {0x00, 0xff, 0x3e, 0x7f}) {
            std::memset(buf, pat, OUT); callDirty(c, a, buf, pat); ++ctx.transitions;
            const char* g = (char*)golden + u64(i) * OUT; bool ok = true;
            for (unsigned b = 0; b < OUT && ok; b++) { bool typed = b < bytes(c->ret) || (b >= 64 && b < 64 + 64 * c->nrefs); if (typed && (unsigned char)g[b] != 0xa5) ok = buf[b] == g[b]; else if (!typed) ok = (unsigned char)buf[b] == pat; }
            ctx.nt(pat == 0xff);
            ctx.check(!goldenOk[i] || ok, [&] { return fmt("stale memory %02x: ", pat) + diff(i, buf); });
            ctx.check(control() == cw, [&] { return fmt("%s changes the floating-point control word from %08x to %08x", name(i).c_str(), cw, control()); });
        }
    }
}
// the environment of the caller, not only the default one: rounding modes, flush-to-zero, double-precision x87
static void environments(u64 t, Ctx& ctx) {
    const Thunk& T = thunks[t]; alignas(64) char buf[OUT]; unsigned csr0 = _mm_getcsr(); unsigned short cw0; asm volatile("fnstcw %0" : "=m"(cw0));
    for (unsigned i = T.first; i < T.first + T.n; i++) for (unsigned e = 0; e < 12; e++) {
        unsigned csr = (csr0 & ~0xe040u & ~0x3fu) | (e % 4) << 13 | (e / 4 == 1 ? 0x8040 : 0); unsigned short cw = (cw0 & ~0x0f00) | (e % 4) << 10 | (e / 4 == 2 ? 0x200 : 0x300);
        const void* a[18]; argPtrs(invs[i], a); auto fn = thunks[invs[i].thunk].c->fn; unsigned cs; unsigned short cn;
        _mm_setcsr(csr); asm volatile("fldcw %0" : : "m"(cw)); fn(a, buf); cs = _mm_getcsr(); asm volatile("fnstcw %0" : "=m"(cn)); _mm_setcsr(csr0); asm volatile("fldcw %0" : : "m"(cw0));
        ++ctx.transitions; ctx.nt(e != 0);
        ctx.check((cs & ~0x3fu) == csr && cn == cw, [&] { return fmt("%s called with control words %04x and %04x leaves %04x and %04x", name(i).c_str(), csr, cw, cs & ~0x3f, cn); });
    }
}
// ------------------------------------------------------------ histories
static void sameFunction(u64 t, Ctx& c) {
    const Thunk& T = thunks[t]; alignas(64) char o[OUT];
    for (unsigned i = T.first; i < T.first + T.n; i++) for (unsigned j = T.first; j < T.first + T.n; j++) {
        run(i, o); c.check(same(i, o), [&] { return fmt("after %s: ", name(j ? j - 1 : 0).c_str()) + diff(i, o); });
        run(j, o); c.transitions += 2; c.nt(i != j); c.check(same(j, o), [&] { return fmt("after %s: ", name(i).c_str()) + diff(j, o); });
    }
    for (unsigned i = T.first; i < T.first + std::min(2u, T.n); i++) for (int r = 0; r < (mc::isThorough() ? 70000 : 5000); r++) { run(i, o); ++c.transitions; c.check(same(i, o), [&] { return fmt("call number %d in a row: ", r + 1) + diff(i, o); }); }
}
static void crossFunction(u64 t, Ctx& c) {
    const Thunk& F = thunks[t]; alignas(64) char o[OUT]; unsigned fs = mc::isThorough() ? std::min(4u, F.n) : std::min(2u, F.n);
    for (unsigned i = F.first; i < F.first + fs; i++) for (const Thunk& G : thunks) for (unsigned j = G.first; j < G.first + G.n; j++) {
        run(i, o); c.check(same(i, o), [&] { return fmt("after %s: ", name(j ? j - 1 : 0).c_str()) + diff(i, o); });
        run(j, o); c.transitions += 2; c.nt(&G != &F); c.check(same(j, o), [&] { return fmt("after %s: ", name(i).c_str()) + diff(j, o); });
    }
}
// ------------------------------------------------------------ library state
static std::string snap() { std::string s((char*)seg0, seg1 - seg0); if (char* t = tlsBlock()) s.append(t, tlsN); return s; }
static void warm() { alignas(64) char o[OUT]; for (const Thunk& T : thunks) for (unsigned i = T.first; i < T.first + T.n; i++) if (goldenOk[i]) run(i, o); }
// One state, closed under every call: histories of any length return what the first call returns.
static void closure(u64 t, Ctx& c) {
    alignas(64) char o[OUT]; warm(); const Thunk& T = thunks[t]; std::string s0 = snap(); c.states += 1;
    for (unsigned i = T.first; i < T.first + T.n; i++) if (goldenOk[i]) {
        run(i, o); ++c.transitions; std::string s1 = snap(); c.nt(true);
        c.check(same(i, o), [&] { return "after every other call: " + diff(i, o); });
        c.check(s0 == s1, [&] { size_t k = 0; while (k < s0.size() && s0[k] == s1[k]) k++; return fmt("%s changes the state of the library (byte %zu of %zu, %s)", name(i).c_str(), k, s0.size(), k < seg1 - seg0 ? "static" : "thread-local"); });
        if (s0 != s1) { c.states++; s0 = s1; }
    }
}
// ------------------------------------------------------------ schedules
// Two threads, one call each.  Scheduling points are the accesses to the library's static storage, which is kept
// inaccessible: each access faults, may hand the baton to the other thread, and then executes alone (single step).
// Calls that touch no static storage have a single point, so every interleaving of them equals one of the two
// orders; that independence is demonstrated on the real code by running the other call at every instruction.
struct Point { int me; bool other; u64 addr; bool write, lock; };
struct Run { volatile int turn; volatile int done[2]; unsigned inv[2]; alignas(64) char out[2][OUT]; int nprefix; unsigned char prefix[4096]; int npoints; Point pts[4096]; volatile bool overflow, stuck, racy; u64 steps, foreign; };
static Run* R; static thread_local int me = -1; static thread_local bool lockedBefore = false; static int waits = 0;
static void fwait(volatile int* p, int v) { timespec ts{0, 200000000}; syscall(SYS_futex, (int*)p, FUTEX_WAIT, v, &ts, 0, 0); }
static void fwake(volatile int* p) { syscall(SYS_futex, (int*)p, FUTEX_WAKE, 4, 0, 0, 0); }
static void waitTurn() { int n = 0; while (R->turn != me) { fwait(&R->turn, 1 - me); if (++n > 50) { R->stuck = true; _exit(3); } } }
static void give() { if (R->done[1 - me]) return; R->turn = 1 - me; fwake(&R->turn); waitTurn(); }
static bool combined = false;
static void protect(bool on) { if (seg1 > seg0) mprotect((void*)(seg0 & ~u64(4095)), ((seg1 + 4095) & ~u64(4095)) - (seg0 & ~u64(4095)), on ? PROT_NONE : PROT_READ | PROT_WRITE); }
static bool isLock(const unsigned char* p) { for (int i = 0; i < 4; i++) { if (p[i] == 0xf0) return true; if (p[i] == 0x66 || p[i] == 0xf2 || p[i] == 0xf3 || (p[i] & 0xf0) == 0x40) continue; return p[i] == 0x86 || p[i] == 0x87; } return false; }
static void onSegv(int, siginfo_t* si, void* u) {
    ucontext_t* x = (ucontext_t*)u; u64 a = (u64)si->si_addr;
    if (me < 0 || a < (seg0 & ~u64(4095)) || a >= ((seg1 + 4095) & ~u64(4095))) { signal(SIGSEGV, SIG_DFL); return; }
    if (a >= seg0 && a < seg1) {
        bool w = x->uc_mcontext.gregs[REG_ERR] & 2, l = isLock((unsigned char*)x->uc_mcontext.gregs[REG_RIP]);
        int k = R->npoints; if (k >= 4096) R->overflow = true; else { R->npoints++; bool other = !R->done[1 - me]; R->pts[k] = {me, other, a, w, l}; bool sw = k < R->nprefix ? R->prefix[k] : 0; if (l) lockedBefore = true; if (sw && other) give(); }
        if (w && !l && !lockedBefore) R->racy = true;
    }
    protect(false); x->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void onTrap(int, siginfo_t*, void* u) {
    ucontext_t* x = (ucontext_t*)u;
    if (me < 0) return;
    if (!combined) { protect(true); x->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; }
    ++R->steps; give();
}
static void yieldFn() { if (me >= 0) { if (++waits > 10000) { R->stuck = true; _exit(3); } give(); } }
static void trapOn() { asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }
static void trapOff() { asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }
static void handlers() { struct sigaction s; std::memset(&s, 0, sizeof s); s.sa_flags = SA_SIGINFO | SA_NODEFER; s.sa_sigaction = onSegv; sigaction(SIGSEGV, &s, 0); s.sa_sigaction = onTrap; sigaction(SIGTRAP, &s, 0); }
static void finishThread() { R->done[me] = 1; R->turn = 1 - me; fwake(&R->turn); }
static void threadBody(int id) { me = id; waitTurn(); std::memset(R->out[id], 0xa5, OUT); invoke(invs[R->inv[id]], R->out[id]); finishThread(); me = -1; }
static void accessRun() {   // in a child: both threads, schedule R->prefix
    handlers(); R->turn = 0; R->npoints = 0; R->done[0] = R->done[1] = 0; R->overflow = R->racy = false;
    std::thread a(threadBody, 0), b(threadBody, 1);
    // the library is closed only while the threads make their calls; thread start-up does not touch it
    protect(true); a.join(); b.join(); protect(false);
}
static void combinedRun() { // thread 0 single-steps; thread 1 makes its whole call at every instruction boundary
    handlers(); combined = true; R->turn = 0; R->done[0] = R->done[1] = 0; R->steps = R->foreign = 0; R->stuck = false; unsigned j = R->inv[1];
    std::thread b([&] { me = 1; alignas(64) char o[OUT]; for (;;) { while (R->turn != 1) { fwait(&R->turn, 0); } if (R->done[0]) break; run(j, o); if (!same(j, o)) { R->foreign++; std::memcpy(R->out[1], o, OUT); } R->turn = 0; fwake(&R->turn); } me = -1; });
    std::thread a([&] { me = 0; std::memset(R->out[0], 0xa5, OUT); const void* p[18]; argPtrs(invs[R->inv[0]], p); auto fn = thunks[invs[R->inv[0]].thunk].c->fn; trapOn(); fn(p, R->out[0]); trapOff(); combined = false; R->done[0] = 1; R->turn = 1; fwake(&R->turn); me = -1; });
    a.join(); b.join();
}
template<class F> static int inChild(F f, int secs) { pid_t p = fork(); if (!p) { alarm(secs); f(); _exit(0); } int st = 0; while (waitpid(p, &st, 0) < 0) {} return st; }
static void schedules(u64 t, Ctx& c) {
    R = (Run*)mmap(0, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const Thunk& T = thunks[t]; const int bound = mc::isThorough() ? 3 : 2; const u64 cap = mc::isThorough() ? 4000 : 400;
    auto pairOf = [&](unsigned i, unsigned j, bool isWarm) {
        R->inv[0] = i; R->inv[1] = j; u64 runs = 0; bool capped = false;
        std::function<bool(std::vector<unsigned char>)> dfs = [&](std::vector<unsigned char> prefix) -> bool {
            if (++runs > cap) { capped = true; return true; }
            R->nprefix = prefix.size(); std::memcpy(R->prefix, prefix.data(), prefix.size()); R->stuck = false; waits = 0;
            int st = inChild([&] { alignas(64) char o[OUT]; if (isWarm) { run(i, o); run(j, o); } accessRun(); }, 20);
            ++c.traces; c.transitions += R->npoints;
            if (R->stuck || R->overflow || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) { capped = true; return true; }   // waits on something not under control: the schedule is given up, not reported
            auto desc = [&] { std::string s; for (unsigned char ch : prefix) s += char('0' + ch); return fmt("%s in parallel with %s, switches at accesses %s%s: ", name(i).c_str(), name(j).c_str(), s.c_str(), isWarm ? "" : " (first calls)"); };
            c.check(!WIFSIGNALED(st) && WEXITSTATUS(st) == 0, [&] { return desc() + fmt("ended with status %x", st); });
            if (st) return false;
            bool ok = same(i, R->out[0]) && same(j, R->out[1]); c.nt(R->npoints > 0);
            c.check(ok, [&] { return desc() + (same(i, R->out[0]) ? diff(j, R->out[1]) : diff(i, R->out[0])); });
            c.check(!isWarm || !R->racy, [&] { return desc() + "a plain write to static storage that the other thread also uses (data race)"; });
            if (!ok || (isWarm && R->racy)) return false;
            std::vector<Point> pts(R->pts, R->pts + R->npoints); int used = 0; for (unsigned char ch : prefix) used += ch;
            if (used >= bound) return true;
            for (size_t k = prefix.size(); k < pts.size(); k++) if (pts[k].other) { auto q = prefix; q.resize(k, 0); q.push_back(1); if (!dfs(q)) return false; }
            return true;
        };
        bool ok = dfs({}); c.states += 1; (void)capped; return ok;
    };
    unsigned i = T.first, j = T.n > 1 ? T.first + 1 : T.first;
    if (!T.n) return;
    bool ok = pairOf(i, j, false) && pairOf(j, i, true);
    if (ok) for (int k = 0; k < (T.n > 1 ? 2 : 1); k++) {
        R->inv[0] = k ? j : i; R->inv[1] = k ? i : j; R->stuck = false; std::memset(R->out, 0, sizeof R->out);
        int st = inChild(combinedRun, 60); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) continue;
        ++c.traces; c.transitions += R->steps; c.nt(R->steps > 3);
        c.check(st == 0 && same(R->inv[0], R->out[0]) && !R->foreign, [&] { return fmt("%s while another thread makes the call %s at each of its %llu instructions: ", name(R->inv[0]).c_str(), name(R->inv[1]).c_str(), (unsigned long long)R->steps) + (st ? fmt("ended with status %x", st) : R->foreign ? diff(R->inv[1], R->out[1]) : diff(R->inv[0], R->out[0])); });
    }
}
// every pair of different functions that touch static storage when called warm
static std::vector<unsigned> touching() {
    unsigned char* t = (unsigned char*)mmap(0, thunks.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    R = (Run*)mmap(0, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    inChild([&] { handlers(); alignas(64) char o[OUT]; warm(); for (size_t k = 0; k < thunks.size(); k++) if (thunks[k].n) { me = 0; R->npoints = 0; R->done[1] = 1; R->nprefix = 0; protect(true); for (unsigned i = thunks[k].first; i < thunks[k].first + thunks[k].n; i++) if (goldenOk[i]) invoke(invs[i], o); protect(false); me = -1; t[k] = R->npoints > 0; } }, 120);
    std::vector<unsigned> r; for (size_t k = 0; k < thunks.size(); k++) if (t[k]) r.push_back(k); return r;
}
// ------------------------------------------------------------ driver: one process per index
struct Slot { u64 evals, nontrivial, states, transitions, traces, nfails; char msg[1500]; char sample[600]; int done; };
int main(int argc, char** argv) {
    const char* out = nullptr; const char* only = nullptr; bool haveIdx = false; u64 index = 0; unsigned jobs = 8; bool list = false;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--out") out = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--index") { haveIdx = true; index = strtoull(argv[++i], 0, 10); } else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--crash") ++i; else if (a == "--list") list = true; else if (a == "--thorough") mc::thorough() = true; }
    soPath = getenv("P31_SO"); void* h = dlopen(soPath, RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 5; }
    auto get = (unsigned (*)(const Call**, unsigned*))dlsym(h, "zcm_calls"); yieldHook = (void (**)())dlsym(h, "zcm_yield"); if (yieldHook) *yieldHook = yieldFn;
    const Call* tabs[64]; unsigned ns[64]; unsigned parts = get(tabs, ns); makeSets(tabs, ns, parts, mc::isThorough());
    dl_iterate_phdr(phdr, 0);
    golden = (unsigned char*)mmap(0, u64(invs.size()) * (OUT + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); goldenOk = golden + u64(invs.size()) * OUT;
    struct Fam { const char* name; u64 count; void (*body)(u64, Ctx&); };
    const u64 N = thunks.size();
    const Fam fams[] = {{"first call of a process", N, [](u64 t, Ctx& c) { for (unsigned i = thunks[t].first; i < thunks[t].first + thunks[t].n; i++) { c.nt(true); c.check(true, [&] { return name(i); }); ++c.states; } for (auto& f : failedCalls) if (f.first == t) c.check(false, [&] { return f.second + " does not return (crash or hang) in a fresh process"; }); }},
        {"guarded arguments, stale memory", N, guarded}, {"environments of the caller", N, environments}, {"histories of one function", N, sameFunction}, {"histories of two functions", N, crossFunction}, {"library state is closed", N, closure}, {"two threads", N, schedules}};
    if (list) { for (auto& f : fams) printf("%s %llu\n", f.name, (unsigned long long)f.count); return 0; }
    // reference results: each call alone in a process that has made no other
    { std::vector<pid_t> ps; for (unsigned w = 0; w < 8; w++) { pid_t p = fork(); if (!p) { for (u64 i = w; i < invs.size(); i += 8) { int st = inChild([&] { alignas(64) char o[OUT]; run(i, o); std::memcpy(golden + i * OUT, o, OUT); goldenOk[i] = 1; }, 20); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && i >= thunks[invs[i].thunk].first + 2) goldenOk[i] = 2; } _exit(0); } ps.push_back(p); } for (pid_t p : ps) waitpid(p, 0, 0); }
    // an assertion on a special value is a precondition: that set is left out; any other failure is reported
    { std::vector<Inv> keep; std::vector<unsigned> from; for (Thunk& T : thunks) { unsigned f = keep.size(); for (unsigned i = T.first; i < T.first + T.n; i++) { if (goldenOk[i] == 1) { from.push_back(i); keep.push_back(invs[i]); } else if (!goldenOk[i]) failedCalls.push_back({unsigned(&T - &thunks[0]), name(i)}); else excluded++; } T.first = f; T.n = keep.size() - f; }
      for (size_t k = 0; k < keep.size(); k++) if (from[k] != k) std::memmove(golden + k * OUT, golden + u64(from[k]) * OUT, OUT); invs = keep; std::memset(goldenOk, 1, invs.size()); }
    FILE* o = out ? fopen(out, "w") : stdout; u64 te = 0, tn = 0, ts = 0, tt = 0, tr = 0, tf = 0; std::string fails, smp, fj;
    for (auto& f : fams) {
        if (only && std::string(only) != f.name) continue;
        u64 lo = haveIdx ? index : 0, hi = haveIdx ? index + 1 : f.count;
        Slot* sl = (Slot*)mmap(0, (hi - lo) * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto* next = (std::atomic<u64>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); next->store(lo);
        std::vector<pid_t> ps;
        for (unsigned w = 0; w < std::max(1u, jobs); w++) { pid_t p = fork(); if (!p) {
                for (;;) { u64 i = next->fetch_add(1); if (i >= hi) break; Slot& s = sl[i - lo];
                    int st = inChild([&] { Ctx c; c.cur = i; c.verbose = i == lo + (hi - lo) / 2; f.body(i, c); s.evals = c.evals; s.nontrivial = c.nontrivial; s.states = c.states; s.transitions = c.transitions; s.traces = c.traces; s.nfails = c.nfails; if (!c.fails.empty()) snprintf(s.msg, sizeof s.msg, "%s", c.fails[0].second.c_str()); if (!c.samples.empty()) snprintf(s.sample, sizeof s.sample, "%s", c.samples[0].c_str()); s.done = 1; }, 300);
                    if (!s.done) { s.nfails = 1; snprintf(s.msg, sizeof s.msg, "%s: %s", thunks[i].c->name, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "does not return" : WIFSIGNALED(st) ? "crashes (it writes an argument, memory it was not given, or reads beyond an argument)" : "ended the process"); if (WIFSIGNALED(st)) snprintf(s.msg + std::strlen(s.msg), 40, " [signal %d]", WTERMSIG(st)); } }
                _exit(0); } ps.push_back(p); }
        for (pid_t p : ps) waitpid(p, 0, 0);
        u64 e = 0, n = 0, s = 0, t2 = 0, tc = 0, nf = 0; int shown = 0;
        for (u64 i = lo; i < hi; i++) { Slot& x = sl[i - lo]; e += x.evals; n += x.nontrivial; s += x.states; t2 += x.transitions; tc += x.traces; nf += x.nfails;
            if (x.nfails && shown < 2) { shown++; fails += fmt("%s{\"family\":\"%s\",\"index\":%llu,\"msg\":\"", fails.empty() ? "" : ",\n", f.name, (unsigned long long)i) + mc::jesc(x.msg) + "\"}"; }
            if (x.sample[0]) smp += (smp.empty() ? "\"" : ",\n\"") + mc::jesc(std::string(f.name) + ": " + x.sample) + "\""; }
        te += e; tn += n; ts += s; tt += t2; tr += tc; tf += nf;
        fj += fmt("%s{\"name\":\"%s\",\"inputs\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"fails\":%llu}", fj.empty() ? "" : ",\n", f.name, (unsigned long long)(hi - lo), (unsigned long long)e, (unsigned long long)n, (unsigned long long)s, (unsigned long long)t2, (unsigned long long)tc, (unsigned long long)nf);
        munmap(sl, (hi - lo) * sizeof(Slot));
    }
    fprintf(o, "{\"families\":[%s],\n\"evals\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"nfails\":%llu,\"fails\":[%s],\n\"samples\":[%s]}\n", fj.c_str(), (unsigned long long)te, (unsigned long long)tn, (unsigned long long)ts, (unsigned long long)tt, (unsigned long long)tr, (unsigned long long)tf, fails.c_str(), smp.c_str());
    if (out) fclose(o);
    return tf ? 1 : 0;
}
