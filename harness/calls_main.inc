// Guarded initialisation of function statics, made visible to the scheduler: a thread that would wait yields instead.
extern "C" { void (*zcm_yield)() = 0; }
extern "C" __attribute__((visibility("hidden"))) int __cxa_guard_acquire(unsigned long long* g) {
    volatile char* b = (volatile char*)g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (zcm_yield) zcm_yield(); else __builtin_trap();
    }
}
extern "C" __attribute__((visibility("hidden"))) void __cxa_guard_release(unsigned long long* g) { volatile char* b = (volatile char*)g; b[0] = 1; b[1] = 0; }
extern "C" __attribute__((visibility("hidden"))) void __cxa_guard_abort(unsigned long long* g) { volatile char* b = (volatile char*)g; b[1] = 0; }
