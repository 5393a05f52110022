// The simulator proper: one execution of a plan inside one process.
//
// The library is compiled from /repo with -fsanitize-coverage=trace-pc; every
// basic block calls __sanitizer_cov_trace_pc below, which is the simulator's
// notion of time: it advances the simulated clocks, and it is the only place
// where client tasks are preempted and where asynchronous faults (SIGINT,
// clock jumps) strike.  All calls the library makes to the outside world
// (allocation, output, signals, clocks, random numbers, process exit) are
// redirected with --wrap to the stand-ins in this file.
#include "common.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <setjmp.h>
extern "C" {
#include "ecos.h"
#include "ecos_bb.h"
#include "ldl.h"
}
#ifndef SIM_ASAN
#define SIM_ASAN 0
#endif
#ifndef SIM_VARIANT
#define SIM_VARIANT "long"
#endif
const char *sim_variant = SIM_VARIANT;
i64 g_tot_ticks, g_tot_simns, g_tot_execs, g_tot_switches;

#define MAPBITS 16
#define MAPSIZE (1u << MAPBITS)
#define STACKSZ (512 * 1024)

// ---------------------------------------------------------------- state
struct Progress { int task, op; i64 ticks, oom, amd; int inlib; int hang, killed; };
static Progress *g_prog;

struct Slot {
    pwork *w = nullptr; ecos_bb_pwork *bb = nullptr;
    Problem P;                       // shape in force
    // caller arrays currently handed to the library
    double *a[5] = {0, 0, 0, 0, 0}; i64 len[5] = {0, 0, 0, 0, 0}; // G A c h b
    double *adj[5] = {0, 0, 0, 0, 0};
    idxint *Gjc = 0, *Gir = 0, *Ajc = 0, *Air = 0, *q = 0, *bi = 0, *ii = 0;
    u64 idxhash = 0;
    settings_bb *stg = nullptr;
};
struct Task {
    int id = 0;
    ucontext_t ctx; void *stack = nullptr;
    i64 k = 0, deadline = 0, qend = 0;
    int op = -1; bool done = false, started = false, inlib = false, insig = false;
    bool blocked = false, pending = false; // SIGINT in the task's signal mask; arrived while it was
    int slot = 0;
    Slot s[MAXSLOT];
    i64 nalloc = 0, namd = 0, nfact = 0, nsolv = 0, nsys = 0, nrel = 0, nbad = 0, ninacc = 0, nloose = 0;
    u64 rnd = 1;
    i64 interrupts = 0, int_iter = 0, int_tick = 0, int_bb = 0, int_fact = 0;
    i64 outbytes = 0; u64 outhash = 0; std::string text;
    std::vector<Fault *> fl;          // faults of the current op
    const std::vector<Op> *ops = nullptr;
    Rng outrng{1};
};
static const Plan *g_plan;
static History *g_h;
static ExecOpts g_o;
static std::vector<Task *> g_tasks;
static Task *cur;
static ucontext_t g_sched;
static volatile int g_on;           // library code is running under the simulator
static i64 g_ticks, g_reads, g_jump, g_wall, g_qused;
static unsigned char *g_map;
static i64 g_blocks_alive_lib;
static std::vector<Fault> g_faults;
static std::vector<char> g_fired;
static bool g_multi;

static void finish_child();
static void viol(const std::string &s) { if (g_h->viol.size() < 40) g_h->viol.push_back(s); }
static void tracef(const char *f, ...) {
    if (!g_o.trace) return;
    char b[1500]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (n > 0) { if (n > 1499) n = 1499; ssize_t r = write(2, b, n); (void)r; }
}
static i64 mono_ns() { return g_plan->env.base + g_ticks * g_plan->env.tick + g_reads * g_plan->env.read + g_jump; }
struct Pause { int o; Pause() { o = g_on; g_on = 0; } ~Pause() { g_on = o; } };

// ---------------------------------------------------------------- signals
typedef void (*handler_t)(int);
static struct sigaction g_sig[65];
static i64 g_appcount;
static void app_handler(int) { g_appcount++; }
static void app_siginfo(int, siginfo_t *, void *) { g_appcount++; }
// 0 default, 1 ignored, 2 the application's handler (with the flags it was registered with), 3 anything else
static int disp_of(const struct sigaction &sa) {
    if (sa.sa_flags & SA_SIGINFO) return sa.sa_sigaction == app_siginfo ? 2 : sa.sa_handler == app_handler ? 4 : 3;
    return sa.sa_handler == SIG_DFL ? 0 : sa.sa_handler == SIG_IGN ? 1 : sa.sa_handler == app_handler ? 2 : (void *)sa.sa_handler == (void *)app_siginfo ? 4 : 3;
}
static void set_app(int d, int flags) {
    struct sigaction &s = g_sig[SIGINT]; memset(&s, 0, sizeof s); sigemptyset(&s.sa_mask);
    if (d == 2 && flags) { s.sa_sigaction = app_siginfo; s.sa_flags = SA_SIGINFO | SA_RESTART | (flags & 2 ? SA_NODEFER : 0); sigaddset(&s.sa_mask, SIGTERM); sigaddset(&s.sa_mask, SIGUSR1); }
    else s.sa_handler = d == 2 ? app_handler : d == 1 ? SIG_IGN : SIG_DFL;
}
static bool same_disp(const struct sigaction &a, const struct sigaction &b) {
    if (a.sa_handler != b.sa_handler || a.sa_flags != b.sa_flags) return false;
    if (a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN) for (int k = 1; k < 32; k++) if (sigismember(&a.sa_mask, k) != sigismember(&b.sa_mask, k)) return false;
    return true;
}
static i64 cur_iter() {
    Slot &s = cur->s[cur->slot];
    if (s.bb && s.bb->ecos_prob && s.bb->ecos_prob->info) return s.bb->ecos_prob->info->iter;
    if (s.w && s.w->info) return s.w->info->iter;
    return -1;
}
static void deliver(int sig) {
    struct sigaction sa = g_sig[sig];
    int flags = sa.sa_flags;
    if (cur->blocked) { cur->pending = true; g_h->fired["sigpend"]++; return; }
    g_h->fired["sigint"]++;
    i64 it = cur->inlib ? cur_iter() : -2, bb = 0;
    if (cur->inlib && cur->s[cur->slot].bb) bb = cur->s[cur->slot].bb->iter;
    int disp = disp_of(sa);
    tracef("  sigint task %d op %d tick %lld iter %lld disp %d\n", cur->id, cur->op, (long long)cur->k, (long long)it, disp);
    g_h->sigs.push_back({cur->id, cur->op, cur->k, it, disp, bb, cur->nfact, cur->nsolv, cur->inlib});
    if (disp == 0) { g_h->killed = true; finish_child(); }
    if (disp == 1) { g_h->ignsig++; return; }
    if (disp == 2) { g_h->appsig++; g_appcount++; return; }
    if (disp == 4) return; // the application's handler, called with the wrong convention
    if (flags & SA_RESETHAND) { g_sig[sig].sa_handler = SIG_DFL; g_sig[sig].sa_flags = 0; }
    if (!cur->interrupts) { cur->int_iter = it; cur->int_tick = cur->k; cur->int_bb = bb; cur->int_fact = cur->nfact; }
    cur->interrupts++;
    cur->insig = true;
    if (flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; sa.sa_sigaction(sig, &si, nullptr); }
    else sa.sa_handler(sig);
    cur->insig = false;
}

// ---------------------------------------------------------------- faults and preemption
static void fire(Fault &f) {
    Pause p;
    if (f.kind == "sigint") { int o = p.o; g_on = o; deliver(SIGINT); }
    else if (f.kind == "clockjump") { g_jump += f.delta; g_h->fired["clockjump"]++; }
    else if (f.kind == "walljump") { g_wall += f.delta; g_h->fired["walljump"]++; }
}
static void recalc(Task *t) {
    i64 d = g_o.tickcap;
    for (auto f : t->fl) if (f->tick > 0 && f->tick < d) d = f->tick > t->k ? f->tick : t->k + 1; // one that fell into a signal handler fires right after it
    if (t->qend < d) d = t->qend;
    t->deadline = d;
}
static __attribute__((noinline)) void slow() {
    Task *t = cur;
    if (t->k >= g_o.tickcap) { g_h->hang = true; finish_child(); }
    if (!t->insig) for (auto f : t->fl) if (f->tick > 0 && f->tick <= t->k) { f->tick = -1; fire(*f); }
    if (t->k >= t->qend && g_multi) {
        // preempted: hand control back to the scheduler
        int o = g_on; g_on = 0; g_h->switches++;
        swapcontext(&t->ctx, &g_sched);
        g_on = o;
    }
    recalc(cur);
}
extern "C" void __sanitizer_cov_trace_pc(void) {
    if (!g_on) return;
    ++g_ticks; ++cur->k;
    g_map[(((uintptr_t)__builtin_return_address(0)) * 0x9E3779B1u >> 8) & (MAPSIZE - 1)] = 1;
    if (__builtin_expect(cur->k >= cur->deadline, 0)) slow();
}
extern "C" void __sanitizer_cov_trace_pc_guard(unsigned *) {}
#if SIM_FINE
// the library is compiled with the thread-sanitizer instrumentation: every
// shared memory access is a point where a signal or a preemption may fall
static inline void access_tick() {
    if (!g_on) return;
    ++g_ticks; ++cur->k;
    if (__builtin_expect(cur->k >= cur->deadline, 0)) slow();
}
extern "C" {
#define TS(n) void n(void *) { access_tick(); }
TS(__tsan_read1) TS(__tsan_read2) TS(__tsan_read4) TS(__tsan_read8) TS(__tsan_read16) TS(__tsan_write1) TS(__tsan_write2) TS(__tsan_write4) TS(__tsan_write8) TS(__tsan_write16)
TS(__tsan_unaligned_read2) TS(__tsan_unaligned_read4) TS(__tsan_unaligned_read8) TS(__tsan_unaligned_read16) TS(__tsan_unaligned_write2) TS(__tsan_unaligned_write4) TS(__tsan_unaligned_write8) TS(__tsan_unaligned_write16)
TS(__tsan_volatile_read1) TS(__tsan_volatile_read2) TS(__tsan_volatile_read4) TS(__tsan_volatile_read8) TS(__tsan_volatile_read16) TS(__tsan_volatile_write1) TS(__tsan_volatile_write2) TS(__tsan_volatile_write4) TS(__tsan_volatile_write8) TS(__tsan_volatile_write16)
void __tsan_read_range(void *, long) { access_tick(); }
void __tsan_write_range(void *, long) { access_tick(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
#define TA(T, S) \
T __tsan_atomic##S##_load(const volatile T *a, int) { access_tick(); return *a; } \
void __tsan_atomic##S##_store(volatile T *a, T v, int) { access_tick(); *a = v; } \
T __tsan_atomic##S##_exchange(volatile T *a, T v, int) { access_tick(); T o = *a; *a = v; return o; } \
T __tsan_atomic##S##_fetch_add(volatile T *a, T v, int) { access_tick(); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##S##_fetch_sub(volatile T *a, T v, int) { access_tick(); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##S##_fetch_and(volatile T *a, T v, int) { access_tick(); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##S##_fetch_or(volatile T *a, T v, int) { access_tick(); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##S##_fetch_xor(volatile T *a, T v, int) { access_tick(); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##S##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access_tick(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##S##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { access_tick(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##S##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access_tick(); T o = *a; if (o == e) *a = v; return o; }
TA(char, 8) TA(short, 16) TA(int, 32) TA(long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
static void sys_hook() {
    cur->nsys++;
    for (auto f : cur->fl) if (f->sys == cur->nsys) fire(*f);
}
static bool nth_hit(const char *kind, i64 n, Fault **out = nullptr) {
    for (auto f : cur->fl) if (f->nth >= 0 && f->kind == kind && n >= f->nth && (f->cnt < 0 || n < f->nth + f->cnt)) { if (out) *out = f; return true; }
    return false;
}

// ---------------------------------------------------------------- allocator
struct Blk { size_t size, cap; int owner; int task, slot; bool alive; }; // owner 0 user, 1 lib
static std::map<uintptr_t, Blk> g_blk;
static char *g_arena, *g_cur, *g_end;
static Rng g_arng(1);
static const size_t RZ = 64;
static unsigned char g_rzbyte;
static std::map<size_t, std::vector<uintptr_t>> g_free;
static void fillblk(char *p, size_t n) {
    const Env &e = g_plan->env;
    switch (e.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;
    case 4: memset(p, 0x7f, n); break;
    case 2: for (size_t i = 0; i < n; i++) p[i] = (char)g_arng.next(); break;
    default: for (size_t i = 0; i + 8 <= n; i += 8) { double d = g_arng.uni(0.5, 2.0); memcpy(p + i, &d, 8); } if (n & 7) memset(p + (n & ~(size_t)7), 1, n & 7);
    }
}
#if SIM_ASAN
// blocks live at the same fixed addresses as in the other variants; the
// sanitizer is told which bytes of the arena may be touched
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#define POISON(p, n) __asan_poison_memory_region((void *)(p), n)
static const bool g_may_reuse = false;
#else
#define POISON(p, n) ((void)0)
static const bool g_may_reuse = true;
#endif
static void *arena_alloc(size_t n, int owner) {
    size_t cap = (n + 15) & ~(size_t)15;
    uintptr_t p = 0;
    auto fl = g_free.find(cap);
    if (g_may_reuse && g_plan->env.reuse && owner == 1 && fl != g_free.end() && !fl->second.empty()) { p = fl->second.back(); fl->second.pop_back(); }
    else {
        size_t gap = g_plan->env.gap ? 16 * (size_t)g_arng.range(0, g_plan->env.gap) : 0;
        if (n > (size_t)1 << 34 || g_cur + gap + cap + 2 * RZ > g_end) return nullptr; // simulated machine out of memory
        p = (uintptr_t)(g_cur + gap + RZ);
        g_cur += gap + cap + 2 * RZ;
        memset((char *)p - RZ, g_rzbyte, RZ);
        fillblk((char *)p, cap);
    }
    memset((char *)p + n, g_rzbyte, cap - n + RZ);
    POISON(p - RZ, RZ); POISON(p + n, cap - n + RZ);
    g_blk[p] = Blk{n, cap, owner, cur ? cur->id : -1, cur ? cur->slot : 0, true};
    if (owner) g_blocks_alive_lib++;
    return (void *)p;
}
static bool rz_ok(uintptr_t p, const Blk &b) {
    const unsigned char *q = (const unsigned char *)p;
    for (size_t i = 0; i < RZ; i++) if (q[-(ptrdiff_t)RZ + (ptrdiff_t)i] != g_rzbyte) return false;
    for (size_t i = b.size; i < b.cap + RZ; i++) if (q[i] != g_rzbyte) return false;
    return true;
}
static void rz_check_all() {
#if !SIM_ASAN
    for (auto &kv : g_blk) if (kv.second.alive && !rz_ok(kv.first, kv.second)) { viol(std::string("overrun: write outside a ") + (kv.second.owner ? "library block" : "caller array")); memset((char *)kv.first - RZ, g_rzbyte, RZ); memset((char *)kv.first + kv.second.size, g_rzbyte, kv.second.cap - kv.second.size + RZ); }
#endif
}
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
}
static void *sim_alloc(size_t n, bool amd, int owner) {
    if (owner == 1) {
        sys_hook();
        if (amd) { cur->namd++; if (nth_hit("amdoom", cur->namd)) { g_h->fired["amdoom"]++; g_h->amdfired++; g_prog->amd++; errno = ENOMEM; return nullptr; } }
        else { cur->nalloc++; if (nth_hit("oom", cur->nalloc)) { g_h->fired["oom"]++; g_h->oomfired++; g_prog->oom++; errno = ENOMEM; return nullptr; } }
        if (n == 0 && g_plan->env.zero == 1) return nullptr;
    }
    return arena_alloc(n, owner);
}
static void sim_free(void *p) {
    if (!p) return;
    auto it = g_blk.find((uintptr_t)p);
    if (it == g_blk.end()) { viol("badfree: free of a pointer that was not allocated"); return; }
    if (!it->second.alive) { viol("doublefree: block freed twice"); return; }
    if (it->second.owner == 0 && g_on) { viol("userfree: library freed memory of the caller"); return; }
#if !SIM_ASAN
    if (!rz_ok(it->first, it->second)) viol("overrun: write outside a library block (seen at free)");
#endif
    it->second.alive = false;
    if (it->second.owner) g_blocks_alive_lib--;
    if (g_may_reuse && g_plan->env.reuse && it->second.owner == 1) g_free[it->second.cap].push_back(it->first);
    else { memset(p, 0xDB, it->second.size); POISON(p, it->second.cap); }
}
static size_t blk_size(void *p) { auto it = g_blk.find((uintptr_t)p); return it == g_blk.end() ? 0 : it->second.size; }

extern "C" {
void *__wrap_malloc(size_t n) { if (!g_on) return __real_malloc(n); return sim_alloc(n, false, 1); }
void *__wrap_calloc(size_t a, size_t b) { if (!g_on) return __real_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = sim_alloc(n, false, 1); if (p) memset(p, 0, n); return p; }
void __wrap_free(void *p) { if (!g_on) { __real_free(p); return; } sys_hook(); sim_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!g_on) return __real_realloc(p, n);
    void *r = sim_alloc(n, false, 1); if (!r) return r;
    if (p) { size_t o = blk_size(p); memcpy(r, p, o < n ? o : n); sim_free(p); }
    return r;
}
void *__wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }
int __wrap_posix_memalign(void **p, size_t, size_t n) { *p = __wrap_malloc(n); return *p ? 0 : ENOMEM; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)__wrap_malloc(n); if (r) memcpy(r, s, n); return r; }
// the ordering package's allocator (its function pointers are initialised to these)
void *simamd_malloc(size_t n) { if (!g_on) return __real_malloc(n); return sim_alloc(n, true, 1); }
void *simamd_calloc(size_t a, size_t b) { if (!g_on) return __real_calloc(a, b); void *p = sim_alloc(a * b, true, 1); if (p) memset(p, 0, a * b); return p; }
void simamd_free(void *p) { __wrap_free(p); }
void *simamd_realloc(void *p, size_t n) { if (!g_on) return __real_realloc(p, n); void *r = sim_alloc(n, true, 1); if (!r) return r; if (p) { size_t o = blk_size(p); memcpy(r, p, o < n ? o : n); sim_free(p); } return r; }

// ---------------------------------------------------------------- output
static int sim_out(const char *b, size_t n) {
    sys_hook();
    if (g_o.trace) tracef("%.*s", (int)n, b);
    cur->outbytes += n; if (cur->text.size() < 400000) cur->text.append(b, n); for (size_t i = 0; i < n; i++) cur->outhash = (cur->outhash ^ (unsigned char)b[i]) * 1099511628211ull;
    int m = g_plan->env.out;
    if (m == 1 || (m == 3 && cur->outrng.chance(0.4))) { g_h->fired["outfail"]++; errno = m == 1 ? EPIPE : ENOSPC; return -1; }
    if (m == 2) { g_h->fired["outslow"]++; g_jump += 1000000; }
    return (int)n;
}
int __wrap_vprintf(const char *f, va_list ap) { char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); if (n < 0) return n; return sim_out(b, n < 2047 ? n : 2047); }
int __wrap_printf(const char *f, ...) { va_list ap; va_start(ap, f); if (!g_on) { char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); ssize_t r = write(1, b, n < 2047 ? n : 2047); (void)r; return n; } int r = __wrap_vprintf(f, ap); va_end(ap); return r; }
int __wrap_vfprintf(FILE *, const char *f, va_list ap) { return __wrap_vprintf(f, ap); }
int __wrap_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vprintf(f, ap); va_end(ap); return r; }
int __wrap_puts(const char *s) { int r = sim_out(s, strlen(s)); return r < 0 ? r : sim_out("\n", 1); }
int __wrap_putchar(int c) { char b = (char)c; return sim_out(&b, 1) < 0 ? -1 : c; }
int __wrap_putc(int c, FILE *) { return __wrap_putchar(c); }
int __wrap_fputc(int c, FILE *) { return __wrap_putchar(c); }
int __wrap_fputs(const char *s, FILE *) { return sim_out(s, strlen(s)); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *) { return sim_out((const char *)p, a * b) < 0 ? 0 : b; }
int __wrap_fflush(FILE *) { if (!g_on) return 0; sys_hook(); return g_plan->env.out == 1 ? -1 : 0; }

// ---------------------------------------------------------------- signals (library side)
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (!g_on) return -1;
    sys_hook();
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    struct sigaction old = g_sig[s];
    if (a) g_sig[s] = *a;
    if (o) *o = old;
    sys_hook();
    return 0;
}
handler_t __wrap_signal(int s, handler_t h) {
    sys_hook();
    if (s < 1 || s > 64) { errno = EINVAL; return SIG_ERR; }
    handler_t o = g_sig[s].sa_handler; memset(&g_sig[s], 0, sizeof g_sig[s]); g_sig[s].sa_handler = h; g_sig[s].sa_flags = SA_RESTART;
    sys_hook();
    return o;
}
int __wrap_pthread_sigmask(int how, const sigset_t *a, sigset_t *o) {
    if (!g_on) return 0;
    sys_hook();
    bool b = cur->blocked;
    if (o) { sigemptyset(o); if (b) sigaddset(o, SIGINT); }
    if (a) {
        bool m = sigismember(a, SIGINT) == 1;
        if (how == SIG_BLOCK) b |= m; else if (how == SIG_UNBLOCK) { if (m) b = false; } else if (how == SIG_SETMASK) b = m; else return EINVAL;
        cur->blocked = b;
        if (!b && cur->pending) { cur->pending = false; deliver(SIGINT); }
    }
    sys_hook();
    return 0;
}
int __wrap_sigprocmask(int how, const sigset_t *a, sigset_t *o) { int r = __wrap_pthread_sigmask(how, a, o); if (r) { errno = r; return -1; } return 0; }
int __wrap_raise(int s) { if (!g_on) return 0; if (s == SIGINT) deliver(s); else viol("raise: library raised a signal"); return 0; }
int __wrap_kill(pid_t, int s) { return __wrap_raise(s); }

// ---------------------------------------------------------------- clocks
static void put_ts(struct timespec *t, i64 ns) { i64 s = ns / 1000000000, r = ns % 1000000000; if (r < 0) { r += 1000000000; s--; } t->tv_sec = s; t->tv_nsec = r; }
static i64 clock_of(int id) {
    g_reads++;
    switch (id) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return mono_ns() + 1700000000ll * 1000000000 + g_wall;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: return g_ticks * g_plan->env.tick / 3;
    default: return mono_ns();
    }
}
int __wrap_clock_gettime(clockid_t id, struct timespec *t) { if (!g_on) { put_ts(t, 0); return 0; } sys_hook(); put_ts(t, clock_of(id)); g_h->fired["clockread"]++; sys_hook(); return 0; }
time_t __wrap_time(time_t *t) { if (!g_on) return 0; sys_hook(); time_t v = clock_of(CLOCK_REALTIME) / 1000000000; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *t, void *) { if (!g_on) { t->tv_sec = t->tv_usec = 0; return 0; } sys_hook(); struct timespec x; put_ts(&x, clock_of(CLOCK_REALTIME)); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0; }
clock_t __wrap_clock(void) { if (!g_on) return 0; return clock_of(CLOCK_PROCESS_CPUTIME_ID) / 1000; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *) { g_jump += a->tv_sec * 1000000000ll + a->tv_nsec; return 0; }
unsigned __wrap_sleep(unsigned s) { g_jump += s * 1000000000ll; return 0; }
int __wrap_usleep(useconds_t s) { g_jump += s * 1000ll; return 0; }

// ---------------------------------------------------------------- randomness and the rest
static u64 sim_rand() { sys_hook(); g_h->fired["rand"]++; u64 z = (cur->rnd += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
int __wrap_rand(void) { return (int)(sim_rand() & 0x7fffffff); }
void __wrap_srand(unsigned s) { cur->rnd = mix64(cur->rnd, s); }
long __wrap_random(void) { return (long)(sim_rand() & 0x7fffffff); }
void __wrap_srandom(unsigned s) { cur->rnd = mix64(cur->rnd, s); }
double __wrap_drand48(void) { return (double)(sim_rand() >> 11) / 9007199254740992.0; }
long __wrap_lrand48(void) { return __wrap_random(); }
int __wrap_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345; return (int)(*s >> 1); }
char *__wrap_getenv(const char *) { return nullptr; }
void __wrap_exit(int) { g_on = 0; viol("exit: library called exit"); finish_child(); __builtin_unreachable(); }
void __wrap_abort(void) { g_on = 0; viol("abort: library called abort"); finish_child(); __builtin_unreachable(); }
void __wrap___assert_fail(const char *, const char *, unsigned, const char *) { __wrap_abort(); __builtin_unreachable(); }

// ---------------------------------------------------------------- linear-system faults
#ifdef DLONG
typedef SuiteSparse_long lidx;
#define W_NUM __wrap_ldl_l_numeric2
#define R_NUM __real_ldl_l_numeric2
#define W_LTS __wrap_ldl_l_ltsolve
#define R_LTS __real_ldl_l_ltsolve
#else
typedef int lidx;
#define W_NUM __wrap_ldl_numeric2
#define R_NUM __real_ldl_numeric2
#define W_LTS __wrap_ldl_ltsolve
#define R_LTS __real_ldl_ltsolve
#endif
lidx R_NUM(lidx, lidx *, lidx *, double *, lidx *, lidx *, lidx *, double, double, lidx *, lidx *, double *, double *, double *, lidx *, lidx *);
lidx W_NUM(lidx n, lidx *Ap, lidx *Ai, double *Ax, lidx *Lp, lidx *Parent, lidx *Sign, double eps, double delta, lidx *Lnz, lidx *Li, double *Lx, double *D, double *Y, lidx *Pat, lidx *Flag) {
    if (!g_on) return R_NUM(n, Ap, Ai, Ax, Lp, Parent, Sign, eps, delta, Lnz, Li, Lx, D, Y, Pat, Flag);
    cur->nfact++;
    lidx r = R_NUM(n, Ap, Ai, Ax, Lp, Parent, Sign, eps, delta, Lnz, Li, Lx, D, Y, Pat, Flag);
    Fault *f = nullptr;
    if (nth_hit("kktfail", cur->nfact, &f)) { g_h->fired["kktfail"]++; return n > 1 ? (lidx)(f->seed % n) : 0; }
    return r;
}
void R_LTS(lidx, double *, lidx *, lidx *, double *);
void W_LTS(lidx n, double *X, lidx *Lp, lidx *Li, double *Lx) {
    R_LTS(n, X, Lp, Li, Lx);
    if (!g_on) return;
    cur->nsolv++;
    Fault *f = nullptr;
    if (nth_hit("kktnan", cur->nsolv, &f)) { g_h->fired["kktnan"]++; if (f->mag == 0) for (lidx i = 0; i < n; i++) X[i] = NAN; else X[f->seed % n] = f->mag > 0 ? (f->mag > 1 ? INFINITY : NAN) : -INFINITY; }
    if (nth_hit("sigkkt", cur->nsolv, &f)) { g_h->fired["sigkkt"]++; Pause q; int o = q.o; g_on = o; deliver(SIGINT); }
    if (nth_hit("kktpert", cur->nsolv, &f)) { g_h->fired["kktpert"]++; Rng r(f->seed + cur->nsolv); for (lidx i = 0; i < n; i++) X[i] *= 1 + f->mag * r.uni(-1, 1); }
}
// relaxations of the branch-and-bound module, observed only
idxint __real_ECOS_solve(pwork *w);
idxint __wrap_ECOS_solve(pwork *w) {
    idxint r = __real_ECOS_solve(w);
    if (g_on && cur) { Pause q; tracef("  relaxation task %d op %d: code %lld, %lld iterations, cost %.9g, dual cost %.9g, gap %.3g, pres %.3g, dres %.3g, tau %.3g\n", cur->id, cur->op, (long long)r, (long long)w->info->iter, w->info->pcost, w->info->dcost, w->info->gap, w->info->pres, w->info->dres, w->tau); }
    if (g_on && cur && g_o.trace && w->m <= 30) { Pause q; std::string t = "   "; char b[32]; for (idxint i = 0; i < w->m; i++) { snprintf(b, sizeof b, " s%lld=%.4g", (long long)i, w->s[i]); t += b; snprintf(b, sizeof b, " z=%.4g", w->z[i]); t += b; } tracef("%s\n", t.c_str()); }
    if (g_on && cur) { cur->nrel++; if (r < 0 || r > 12) cur->nbad++; else if (r >= 10) cur->ninacc++;
        // a full-accuracy verdict of the exit test whose duality gap, divided by tau^2 (as it must be), is above the tolerances: finding C01 opt-gap-tau
        else if (r == 0) { stats *in = w->info; double g = in->gap / (w->tau * w->tau), pc = fabs(in->pcost); if (!(g <= 1.5 * std::max(w->stgs->abstol, w->stgs->reltol * std::max(pc, fabs(in->dcost))) + 1e-12)) cur->nloose++; } }
    return r;
}
} // extern "C"

// ---------------------------------------------------------------- operations
static double *user_doubles(const std::vector<double> &v, int adj, double **second) {
    size_t n = v.size();
    double *p = (double *)sim_alloc((adj ? 2 : 1) * n * sizeof(double), false, 0);
    for (size_t i = 0; i < n; i++) p[i] = v[i];
    if (adj) { for (size_t i = 0; i < n; i++) p[n + i] = 0; *second = p + n; }
    return p;
}
static idxint *user_idx(const std::vector<i64> &v) { idxint *p = (idxint *)sim_alloc(v.size() * sizeof(idxint), false, 0); for (size_t i = 0; i < v.size(); i++) p[i] = (idxint)v[i]; return p; }
static u64 idx_hash(Slot &s) {
    u64 h = 1; const Problem &P = s.P;
    auto add = [&](idxint *p, size_t n) { for (size_t i = 0; p && i < n; i++) h = mix64(h, (u64)(i64)p[i]); };
    add(s.Gjc, P.Gjc.size()); add(s.Gir, P.Gir.size()); if (P.hasA) { add(s.Ajc, P.Ajc.size()); add(s.Air, P.Air.size()); }
    add(s.q, P.q.size()); add(s.bi, P.boolv.size()); add(s.ii, P.intv.size());
    return h;
}
static void make_arrays(Slot &s, const Problem &P, int adj, bool dup, int dupm, const Op &op) {
    s.P = P;
    Problem &Q = s.P;
    apply_patch(Q, op.gets("patch", ""));
    if (op.geti("pert", 0)) { // relative rounding-level perturbation of all data (comparison runs)
        Rng r(op.geti("pert", 0));
        for (auto v : {&Q.Gpr, &Q.Apr, &Q.c, &Q.h, &Q.b}) for (auto &d : *v) d *= 1 + 1e-13 * r.uni(-1, 1);
    }
    if (dup) {
        bool done = false;
        auto d = [&](std::vector<i64> &jc, std::vector<i64> &ir) {
            for (i64 j = 0; !done && j < Q.n; j++) if (jc[j + 1] - jc[j] >= 2) { i64 k = jc[j] + (dupm % (jc[j + 1] - jc[j] - 1)); ir[k + 1] = ir[k]; done = true; }
        };
        if (dupm & 1 && Q.hasA) { d(Q.Ajc, Q.Air); if (!done) d(Q.Gjc, Q.Gir); } else { d(Q.Gjc, Q.Gir); if (!done && Q.hasA) d(Q.Ajc, Q.Air); }
        g_h->fired[done ? "dup" : "dup_na"]++;
    }
    const std::vector<double> *src[5] = {&Q.Gpr, &Q.Apr, &Q.c, &Q.h, &Q.b};
    for (int i = 0; i < 5; i++) { s.a[i] = nullptr; s.adj[i] = nullptr; s.len[i] = src[i]->size(); if ((i == 1 || i == 4) && !Q.hasA) continue; if ((i == 0 || i == 3) && !Q.m && !Q.mip) continue; s.a[i] = user_doubles(*src[i], adj, &s.adj[i]); }
    s.Gjc = Q.m || Q.mip ? user_idx(Q.Gjc) : nullptr; s.Gir = Q.m || Q.mip ? user_idx(Q.Gir) : nullptr;
    s.Ajc = Q.hasA ? user_idx(Q.Ajc) : nullptr; s.Air = Q.hasA ? user_idx(Q.Air) : nullptr;
    s.q = user_idx(Q.q); s.bi = Q.mip ? user_idx(Q.boolv) : nullptr; s.ii = Q.mip ? user_idx(Q.intv) : nullptr;
    s.idxhash = idx_hash(s);
}
static void snap(Rec &r, double **a, i64 *len, int mask) {
    for (int i = 0; i < 5; i++) if (mask >> i & 1) { if (!a[i]) continue; r.data.insert(r.data.end(), a[i], a[i] + len[i]); }
}
static void get_info(Rec &r, stats *in) {
    r.info = {in->pcost, in->dcost, in->pres, in->dres, in->pinf, in->dinf, in->pinfres, in->dinfres, in->gap, in->relgap, in->sigma, in->mu, in->step, in->kapovert, 1.0};
}
// dirty the stack below the current frame so that uninitialised locals show
static __attribute__((noinline)) void dirty_stack(int mode, u64 seed) {
    volatile unsigned char buf[24576]; Rng r(seed);
    switch (mode) {
    case 0: for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0; break;
    case 1: for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0xFF; break;
    case 4: for (size_t i = 0; i < sizeof buf; i++) buf[i] = 0x7f; break;
    case 2: for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)r.next(); break;
    default: { volatile double *d = (volatile double *)buf; for (size_t i = 0; i < sizeof buf / 8; i++) d[i] = r.uni(0.5, 2.0); }
    }
}
#define LIB(stmt) do { dirty_stack(g_plan->env.fill, g_plan->env.fseed + cur->op); cur->inlib = true; g_prog->inlib = 1; g_on = 1; stmt; g_on = 0; g_prog->inlib = 0; cur->inlib = false; } while (0)

static std::map<int, Problem> g_probs;
static const Problem &prob_of(int i) { auto it = g_probs.find(i); if (it == g_probs.end()) it = g_probs.emplace(i, make_problem(g_plan->probs[i])).first; return it->second; }

static void run_op(Task *t, int opi) {
    const Op &op = (*t->ops)[opi];
    const std::string &K = op.kind;
    t->op = opi; t->k = 0; t->nalloc = t->namd = t->nfact = t->nsolv = t->nsys = t->nrel = t->nbad = t->ninacc = t->nloose = 0; t->interrupts = 0; t->int_iter = t->int_tick = t->int_bb = t->int_fact = 0; t->outbytes = 0; t->text.clear(); t->outhash = 14695981039346656037ull;
    t->slot = (int)op.geti("w", 0) % MAXSLOT;
    Slot &s = t->s[t->slot];
    g_prog->task = t->id; g_prog->op = opi; g_prog->ticks = g_ticks;
    t->fl.clear();
    for (auto &f : g_faults) if (f.task == t->id && f.op == opi) t->fl.push_back(&f);
    if (!g_multi) t->qend = INT64_MAX / 2; // with several tasks the quantum carries over from the previous op
    recalc(t);
    Rec r; r.task = t->id; r.op = opi;
    i64 alive0 = g_blocks_alive_lib; struct sigaction sg0 = g_sig[SIGINT];
    i64 app0 = g_h->appsig;
    r.t0 = mono_ns();
    tracef("op %d.%d %s\n", t->id, opi, K.c_str());
    if (K == "setup" && !s.w && !s.bb) {
        const Problem &P = prob_of((int)op.geti("prob", 0));
        make_arrays(s, P, (int)op.geti("adj", 0), op.geti("dup", 0) > 0, (int)op.geti("dup", 0) - 1, op);
        const Problem &Q = s.P;
        idxint m = Q.m, l = Q.l + op.geti("dl", 0), nex = Q.nex + op.geti("de", 0), nc = Q.ncones;
        if (op.geti("dq", 0) && nc > 0) s.q[0] += op.geti("dq", 0), s.idxhash = idx_hash(s);
        r.t0 = mono_ns();
        pwork *w = nullptr;
        LIB(w = ECOS_setup(Q.n, m, Q.p, l, nc, s.q, nex, s.a[0], s.Gjc, s.Gir, s.a[1], s.Ajc, s.Air, s.a[2], s.a[3], s.a[4]));
        r.t1 = mono_ns();
        s.w = w; r.ret = w ? 0 : -1000;
        if (w) { w->stgs->verbose = 0; r.tsetup = w->info->tsetup; r.info.assign(IN_N, 0); }
        snap(r, s.a, s.len, 31);
    } else if (K == "set" && (s.w || s.bb)) {
        settings *g = s.w ? s.w->stgs : s.bb->ecos_stgs;
        for (auto &kv : op.a) {
            double v = strtod(kv.second.c_str(), 0);
            if (kv.first == "maxit") g->maxit = (idxint)v; else if (kv.first == "verbose") g->verbose = (idxint)v; else if (kv.first == "nitref") g->nitref = (idxint)v;
            else if (kv.first == "feastol") g->feastol = v; else if (kv.first == "abstol") g->abstol = v; else if (kv.first == "reltol") g->reltol = v;
            else if (kv.first == "feastol_inacc") g->feastol_inacc = v; else if (kv.first == "abstol_inacc") g->abstol_inacc = v; else if (kv.first == "reltol_inacc") g->reltol_inacc = v;
            else if (kv.first == "maxbk") g->max_bk_iter = (idxint)v; else if (kv.first == "bkscale") g->bk_scale = v; else if (kv.first == "centrality") g->centrality = v;
            else if (kv.first == "delta") g->delta = v; else if (kv.first == "eps") g->eps = v; else if (kv.first == "gamma") g->gamma = v;
        }
    } else if (K == "solve" && s.w) {
        pwork *w = s.w;
        w->info->iter = -1; w->info->tsolve = -1;
        idxint ret = 0;
        r.t0 = mono_ns();
        LIB(ret = ECOS_solve(w));
        r.t1 = mono_ns();
        r.ret = ret; r.iter = w->info->iter; r.tsolve = w->info->tsolve; r.tsetup = w->info->tsetup;
        get_info(r, w->info); r.info[IN_TAU] = w->tau;
        r.x.assign(w->x, w->x + w->n); r.y.assign(w->y, w->y + w->p); r.s.assign(w->s, w->s + w->m); r.z.assign(w->z, w->z + w->m);
        r.eq.assign(w->xequil, w->xequil + w->n); r.eq.insert(r.eq.end(), w->Aequil, w->Aequil + w->p); r.eq.insert(r.eq.end(), w->Gequil, w->Gequil + w->m);
        snap(r, s.a, s.len, 4);
    } else if (K == "upd" && s.w) {
        const Problem &P = prob_of((int)op.geti("prob", 0));
        std::string mode = op.gets("mode", "new");
        int mask = mode == "new" ? 31 : mode == "same" ? 0 : mode == "adj" ? 31 : (int)op.geti("mask", 21);
        const std::vector<double> *src[5] = {&P.Gpr, &P.Apr, &P.c, &P.h, &P.b};
        double *na[5], *old[5];
        bool shape = true; for (int i = 0; i < 5; i++) if ((i64)src[i]->size() != s.len[i]) shape = false;
        if (!shape) { viol("plan: update with a different shape"); }
        else {
            for (int i = 0; i < 5; i++) {
                old[i] = s.a[i]; na[i] = s.a[i];
                if (!s.a[i]) continue;
                if (mode == "adj" && s.adj[i]) { na[i] = s.adj[i]; s.adj[i] = old[i]; }
                else if (mask >> i & 1) na[i] = user_doubles(*src[i], 0, nullptr);
                for (size_t k = 0; k < src[i]->size(); k++) na[i][k] = (*src[i])[k];
            }
            r.t0 = mono_ns();
            LIB(ECOS_updateData(s.w, na[0], na[1], na[2], na[3], na[4]));
            r.t1 = mono_ns();
            for (int i = 0; i < 5; i++) s.a[i] = na[i];
            s.P.Gpr = P.Gpr; s.P.Apr = P.Apr; s.P.c = P.c; s.P.h = P.h; s.P.b = P.b;
            double *o2[5]; for (int i = 0; i < 5; i++) o2[i] = old[i];
            if (mode == "new" || mode == "adj") snap(r, o2, s.len, 31);
        }
    } else if (K == "updh" && s.w) {
        double v = op.geti("raw", 0) ? s.w->h[op.geti("i", 0)] : op.getd("v", 0); r.x.assign(1, v); // raw: the number now stored, which is scaled
        LIB(ecos_updateDataEntry_h(s.w, (idxint)op.geti("i", 0), v));
    } else if (K == "updc" && s.w) {
        double v = op.geti("raw", 0) ? s.w->c[op.geti("i", 0)] : op.getd("v", 0); r.x.assign(1, v);
        LIB(ecos_updateDataEntry_c(s.w, (idxint)op.geti("i", 0), v));
    } else if ((K == "cleanup" && s.w) || (K == "bcleanup" && s.bb)) {
        idxint keep = (idxint)op.geti("keep", 0);
        pwork *w = s.w ? s.w : s.bb->ecos_prob;
        double *v[4] = {w->x, w->y, w->s, w->z}; i64 n[4] = {(i64)w->n, (i64)w->p, (i64)w->m, (i64)w->m};
        std::vector<double> val[4]; for (int i = 0; i < 4; i++) val[i].assign(v[i], v[i] + n[i]);
        int tsk = t->id, slot = t->slot;
        if (s.w) LIB(ECOS_cleanup(s.w, keep)); else LIB(ECOS_BB_cleanup(s.bb, keep));
        s.w = nullptr; s.bb = nullptr;
        // exactly the kept vectors remain, readable and unchanged
        std::set<uintptr_t> want;
        for (int i = 0; i < keep && i < 4; i++) if (v[i]) want.insert((uintptr_t)v[i]);
        std::vector<uintptr_t> left;
        for (auto &kv : g_blk) if (kv.second.alive && kv.second.owner == 1 && kv.second.task == tsk && kv.second.slot == slot) left.push_back(kv.first);
        i64 extra = 0; for (auto p : left) if (!want.count(p)) extra++;
        if (extra) viol("leak: " + std::to_string(extra) + " library blocks remain after cleanup");
        for (int i = 0; i < keep && i < 4; i++) if (v[i]) {
            auto it = g_blk.find((uintptr_t)v[i]);
            if (it == g_blk.end() || !it->second.alive) { viol("keep: a vector the caller asked to keep was freed"); continue; }
            if (n[i] && memcmp(v[i], val[i].data(), n[i] * sizeof(double))) viol("keep: a kept vector changed during cleanup");
        }
        for (auto p : left) sim_free((void *)p); // the caller frees what it kept (and the leaks, so that they are reported once)
        snap(r, s.a, s.len, 31);
    } else if (K == "bsetup" && !s.w && !s.bb) {
        const Problem &P = prob_of((int)op.geti("prob", 0));
        make_arrays(s, P, 0, op.geti("dup", 0) > 0, (int)op.geti("dup", 0) - 1, op);
        const Problem &Q = s.P;
        settings_bb *st = nullptr;
        if (op.a.count("maxit") || op.a.count("strat") || op.a.count("node") || op.a.count("eta") || op.a.count("agap") || op.a.count("rgap") || op.a.count("itol") || op.a.count("verbose")) {
            settings_bb *d = nullptr; LIB(d = get_default_ECOS_BB_settings());
            st = (settings_bb *)sim_alloc(sizeof(settings_bb), false, 0); *st = *d;
            LIB(__wrap_free(d));
            st->verbose = 0;
            if (op.a.count("maxit")) st->maxit = (idxint)op.geti("maxit", 1000);
            if (op.a.count("strat")) st->branching_strategy = (enum BRANCHING_STRATEGY)op.geti("strat", 0);
            if (op.a.count("node")) st->node_selection_method = (enum NODE_SELECTION_METHOD)op.geti("node", 0);
            if (op.a.count("eta")) st->reliable_eta = (idxint)op.geti("eta", 1);
            if (op.a.count("agap")) st->abs_tol_gap = op.getd("agap", 1e-6);
            if (op.a.count("rgap")) st->rel_tol_gap = op.getd("rgap", 1e-3);
            if (op.a.count("itol")) st->integer_tol = op.getd("itol", 1e-4);
            if (op.a.count("verbose")) st->verbose = (idxint)op.geti("verbose", 0);
            s.stg = st;
        }
        r.t0 = mono_ns();
        ecos_bb_pwork *bb = nullptr;
        LIB(bb = ECOS_BB_setup(Q.n, Q.m, Q.p, Q.l + op.geti("dl", 0), Q.ncones, s.q, Q.nex, s.a[0], s.Gjc, s.Gir, s.a[1], s.Ajc, s.Air, s.a[2], s.a[3], s.a[4], Q.boolv.size(), s.bi, Q.intv.size(), s.ii, st));
        r.t1 = mono_ns();
        s.bb = bb; r.ret = bb ? 0 : -1000;
        if (bb && !st) bb->stgs->verbose = 0;
        snap(r, s.a, s.len, 9);
    } else if (K == "bset" && s.bb) {
        settings_bb *st = s.bb->stgs;
        for (auto &kv : op.a) {
            double v = strtod(kv.second.c_str(), 0);
            if (kv.first == "maxit") st->maxit = (idxint)v; else if (kv.first == "verbose") st->verbose = (idxint)v;
            else if (kv.first == "strat") st->branching_strategy = (enum BRANCHING_STRATEGY)(int)v; else if (kv.first == "node") st->node_selection_method = (enum NODE_SELECTION_METHOD)(int)v;
            else if (kv.first == "agap") st->abs_tol_gap = v; else if (kv.first == "rgap") st->rel_tol_gap = v; else if (kv.first == "eta") st->reliable_eta = (idxint)v; else if (kv.first == "itol") st->integer_tol = v;
        }
    } else if (K == "bsolve" && s.bb) {
        ecos_bb_pwork *bb = s.bb;
        idxint ret = 0;
        bb->ecos_prob->info->iter = -1;
        r.t0 = mono_ns();
        LIB(ret = ECOS_BB_solve(bb));
        r.t1 = mono_ns();
        r.ret = ret; r.iter = bb->iter;
        get_info(r, bb->info);
        r.x.assign(bb->x, bb->x + bb->ecos_prob->n); r.y.assign(bb->y, bb->y + bb->ecos_prob->p); r.s.assign(bb->s, bb->s + bb->ecos_prob->m); r.z.assign(bb->z, bb->z + bb->ecos_prob->m);
        r.x2.assign(bb->ecos_prob->x, bb->ecos_prob->x + bb->ecos_prob->n);
        { pwork *e = bb->ecos_prob; auto ne = [](const double *a, const double *b, idxint n) { return n > 0 && memcmp(a, b, n * sizeof(double)) != 0; };
          Rec q; get_info(q, e->info);
          r.twodiff = ne(bb->x, e->x, e->n) | ne(bb->y, e->y, e->p) << 1 | ne(bb->s, e->s, e->m) << 2 | ne(bb->z, e->z, e->m) << 3 | (q.info.size() != r.info.size() || ne(q.info.data(), r.info.data(), (idxint)q.info.size()) || bb->info->iter != e->info->iter) << 4; }
        r.gU = bb->global_U; r.gL = bb->global_L;
        if (std::isfinite(r.gU)) { r.info[IN_TAU] = bb->tau; pwork *w = bb->ecos_prob; r.eq.assign(w->xequil, w->xequil + w->n); r.eq.insert(r.eq.end(), w->Aequil, w->Aequil + w->p); r.eq.insert(r.eq.end(), w->Gequil, w->Gequil + w->m); }
        snap(r, s.a, s.len, 1 | 4 | 8);
    } else if (K == "bupdh" && s.bb) {
        double v = op.geti("raw", 0) ? s.bb->h[op.geti("i", 0)] : op.getd("v", 0); r.x.assign(1, v);
        if (op.geti("raw", 0) && fabs(v - floor(v + 0.5)) < 1e-3) r.ret = -9999; // too close to a bound an integer point meets exactly
        else LIB(updateDataEntry_h(s.bb, (idxint)op.geti("i", 0), v));
    } else if (K == "bupdc" && s.bb) {
        double v = op.geti("raw", 0) ? s.bb->c[op.geti("i", 0)] : op.getd("v", 0); r.x.assign(1, v);
        LIB(updateDataEntry_c(s.bb, (idxint)op.geti("i", 0), v));
    } else if (K == "setsig") {
        set_app((int)op.geti("d", 0), (int)op.geti("flags", 0)); sg0 = g_sig[SIGINT];
    } else if (K == "sig") {
        deliver(SIGINT);
    } else if (K == "sleep") {
        g_jump += op.geti("ns", 1000);
    } else r.ret = -9999; // not applicable in this state
    if (!r.t1) r.t1 = mono_ns();
    r.k1 = t->k; r.netalloc = g_blocks_alive_lib - alive0;
    r.nrel = t->nrel; r.nbad = t->nbad; r.ninacc = t->ninacc; r.nloose = t->nloose; r.sysn = t->nsys; r.nfact = t->nfact; r.nsolv = t->nsolv; r.nalloc = t->nalloc; r.namd = t->namd;
    r.interrupts = t->interrupts; r.int_iter = t->int_iter; r.int_tick = t->int_tick; r.int_bbiter = t->int_bb; r.int_fact = t->int_fact;
    r.outbytes = t->outbytes; r.outhash = t->outhash; if (g_plan->check == "C19") r.text = t->text;
    r.sigdelta = !same_disp(g_sig[SIGINT], sg0) || t->blocked;
    r.appsig = g_h->appsig - app0;
    if (s.Gjc && idx_hash(s) != s.idxhash) { r.idx_ok = 0; viol("index: a caller index array was modified"); s.idxhash = idx_hash(s); }
    rz_check_all();
    tracef("  ret %lld iter %lld ticks %lld rel %lld bad %lld inacc %lld facts %lld solves %lld sys %lld net %lld\n", (long long)r.ret, (long long)r.iter, (long long)r.k1, (long long)r.nrel, (long long)r.nbad, (long long)r.ninacc, (long long)r.nfact, (long long)r.nsolv, (long long)r.sysn, (long long)r.netalloc);
    g_h->recs.push_back(std::move(r));
}
static void task_main(int id) {
    Task *t = g_tasks[id];
    for (size_t i = 0; i < t->ops->size(); i++) {
        run_op(t, (int)i);
        if (g_multi) { // an operation boundary is a scheduling point only through the quantum: carry it over
            t->qend -= t->k; if (t->qend < 1) t->qend = 1;
        }
    }
    t->done = true;
#if !SIM_ASAN
    swapcontext(&t->ctx, &g_sched);
#endif
}

// ---------------------------------------------------------------- history transport
struct W { std::string b; void i(i64 v) { b.append((char *)&v, 8); } void d(double v) { b.append((char *)&v, 8); } void v(const std::vector<double> &x) { i(x.size()); b.append((char *)x.data(), x.size() * 8); } void s(const std::string &x) { i(x.size()); b += x; } };
struct R { const char *p, *e; bool bad = false; bool need(size_t n) { if ((size_t)(e - p) < n) { bad = true; return false; } return true; } i64 i() { i64 v = 0; if (need(8)) { memcpy(&v, p, 8); p += 8; } return v; } double d() { double v = 0; if (need(8)) { memcpy(&v, p, 8); p += 8; } return v; }
    void v(std::vector<double> &x) { i64 n = i(); if (n < 0 || !need(n * 8)) { bad = true; return; } x.resize(n); memcpy(x.data(), p, n * 8); p += n * 8; } void s(std::string &x) { i64 n = i(); if (n < 0 || !need(n)) { bad = true; return; } x.assign(p, n); p += n; } };
static i64 *rec_fields(Rec &r, int k) {
    i64 *f[] = {&r.task, &r.op, &r.ret, &r.iter, &r.t0, &r.t1, &r.k0, &r.k1, &r.sigdelta, &r.netalloc, &r.sysn, &r.nrel, &r.nbad, &r.ninacc, &r.nloose, &r.nfact, &r.nsolv, &r.nalloc, &r.namd, &r.interrupts, &r.int_iter, &r.int_tick, &r.int_bbiter, &r.int_fact, &r.outbytes, (i64 *)&r.outhash, &r.idx_ok, &r.twodiff, &r.appsig, (i64 *)&r.tsetup, (i64 *)&r.tsolve, (i64 *)&r.gU, (i64 *)&r.gL};
    return k < (int)(sizeof f / sizeof *f) ? f[k] : nullptr;
}
static std::string ser(History &h) {
    W w;
    w.i(h.hang); w.i(h.killed); w.i(h.ticks); w.i(h.simns); w.i(h.switches); w.i(h.schedhash); w.i(h.covhash); w.i(h.covcount); w.i(h.oomfired); w.i(h.amdfired); w.i(h.appsig); w.i(h.ignsig); w.i(h.sigend);
    w.i(h.viol.size()); for (auto &v : h.viol) w.s(v);
    w.i(h.fired.size()); for (auto &kv : h.fired) { w.s(kv.first); w.i(kv.second); }
    w.i(h.sigs.size()); for (auto &s : h.sigs) { w.i(s.task); w.i(s.op); w.i(s.tick); w.i(s.iter); w.i(s.disp); w.i(s.bb); w.i(s.nf); w.i(s.ns); w.i(s.lib); }
    w.i(h.recs.size());
    for (auto &r : h.recs) { for (int k = 0; rec_fields(r, k); k++) w.i(*rec_fields(r, k)); w.v(r.info); w.v(r.x); w.v(r.y); w.v(r.s); w.v(r.z); w.v(r.x2); w.v(r.eq); w.v(r.data); w.s(r.text); }
    return w.b;
}
static bool deser(const std::string &b, History &h) {
    R r{b.data(), b.data() + b.size()};
    h.hang = r.i(); h.killed = r.i(); h.ticks = r.i(); h.simns = r.i(); h.switches = r.i(); h.schedhash = r.i(); h.covhash = r.i(); h.covcount = r.i(); h.oomfired = r.i(); h.amdfired = r.i(); h.appsig = r.i(); h.ignsig = r.i(); h.sigend = r.i();
    i64 n = r.i(); for (i64 k = 0; k < n && !r.bad; k++) { std::string s; r.s(s); h.viol.push_back(s); }
    n = r.i(); for (i64 k = 0; k < n && !r.bad; k++) { std::string s; r.s(s); h.fired[s] = r.i(); }
    n = r.i(); for (i64 k = 0; k < n && !r.bad; k++) { History::Sig s; s.task = r.i(); s.op = r.i(); s.tick = r.i(); s.iter = r.i(); s.disp = r.i(); s.bb = r.i(); s.nf = r.i(); s.ns = r.i(); s.lib = r.i(); h.sigs.push_back(s); }
    n = r.i(); for (i64 k = 0; k < n && !r.bad; k++) { Rec c; for (int j = 0; rec_fields(c, j); j++) *rec_fields(c, j) = r.i(); r.v(c.info); r.v(c.x); r.v(c.y); r.v(c.s); r.v(c.z); r.v(c.x2); r.v(c.eq); r.v(c.data); r.s(c.text); h.recs.push_back(c); }
    return !r.bad;
}
static u64 hash_bytes(const std::string &b) { u64 h = 1469598103934665603ull; size_t i = 0; for (; i + 8 <= b.size(); i += 8) { u64 v; memcpy(&v, b.data() + i, 8); h = mix64(h, v); } for (; i < b.size(); i++) h = mix64(h, (unsigned char)b[i]); return h; }

static int g_pipe = -1;
static void finish_child() {
    g_on = 0;
    History &h = *g_h;
    h.sigend = disp_of(g_sig[SIGINT]);
    h.ticks = g_ticks; h.simns = mono_ns() - g_plan->env.base;
    g_prog->hang = h.hang; g_prog->killed = h.killed;
    u64 ch = 7; i64 cc = 0;
    for (unsigned i = 0; i < MAPSIZE; i++) if (g_map[i]) { ch = mix64(ch, i); cc++; }
    h.covhash = ch; h.covcount = cc;
    std::string b = ser(h);
    size_t off = 0;
    while (off < b.size()) { ssize_t w = write(g_pipe, b.data() + off, b.size() - off); if (w <= 0) _exit(3); off += w; }
    _exit(0);
}
static void child(const Plan &p, int fd) {
    g_pipe = fd; g_plan = &p;
    History h; g_h = &h;
    struct rlimit rl = {60, 60}; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    if (!g_o.trace) { int n = open("/dev/null", O_RDWR); if (n >= 0) { dup2(n, 1); dup2(n, 2); } }
    size_t asz = (size_t)512 << 20;
    g_arena = (char *)mmap((void *)0x200000000000ull, asz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (g_arena == MAP_FAILED) _exit(4);
    g_arng = Rng(p.env.fseed * 77 + 5);
    g_cur = g_arena + 4096 + (p.env.gap ? 16 * g_arng.range(0, 4096) : 0); g_end = g_arena + asz;
    g_rzbyte = (unsigned char)(0x80 | (mix64(p.env.fseed, 3) & 0x7f));
    memset(g_map, 0, MAPSIZE);
    memset(g_sig, 0, sizeof g_sig);
    set_app(p.env.sig & 3, p.env.sig >> 2);
    g_faults = p.faults;
    g_multi = p.tasks.size() > 1;
    for (size_t i = 0; i < p.tasks.size(); i++) {
        Task *t = new Task; t->id = (int)i; t->ops = &p.tasks[i]; t->rnd = mix64(p.env.rnd, i + 17); t->outrng = Rng(mix64(p.env.fseed, i + 99));
        t->qend = INT64_MAX / 2; t->deadline = 0;
        g_tasks.push_back(t);
    }
#if SIM_ASAN
    for (auto t : g_tasks) { cur = t; task_main(t->id); }
    finish_child();
#else
    for (auto t : g_tasks) {
        t->stack = mmap((void *)(0x300000000000ull + (u64)t->id * (16u << 20)), STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        if (t->stack == MAP_FAILED) _exit(4);
        getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STACKSZ; t->ctx.uc_link = &g_sched;
        makecontext(&t->ctx, (void (*)())task_main, 1, t->id);
    }
    size_t si = 0; u64 sh = 1; size_t rr = 0;
    while (true) {
        int id = -1; i64 q = INT64_MAX / 4;
        if (!g_multi) { id = 0; if (g_tasks[0]->done) break; }
        else {
            while (si < p.sched.size()) { int c = p.sched[si].first; i64 qq = p.sched[si].second; si++; if (c >= 0 && c < (int)g_tasks.size() && !g_tasks[c]->done) { id = c; q = std::max<i64>(1, qq); break; } }
            if (id < 0) { while (rr < g_tasks.size() && g_tasks[rr]->done) rr++; if (rr == g_tasks.size()) break; id = (int)rr; }
        }
        Task *t = g_tasks[id];
        t->qend = g_multi ? t->k + q : INT64_MAX / 2;
        if (g_multi && !t->started) t->qend = q;
        t->started = true;
        recalc(t);
        g_prog->task = id; g_prog->op = t->op;
        cur = t;
        swapcontext(&g_sched, &t->ctx);
        sh = mix64(mix64(sh, id), mix64(t->op + 1, t->k));
        if (!g_multi) break;
    }
    h.schedhash = sh;
    finish_child();
#endif
}
extern "C" const char *__asan_default_options() { return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:detect_odr_violation=0:print_legend=0"; }

void exec_plan(const Plan &p, History &h, const ExecOpts &o) {
    h = History();
    if (!g_prog) { g_prog = (Progress *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_map = (unsigned char *)mmap(nullptr, MAPSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    memset(g_prog, 0, sizeof *g_prog); g_prog->task = g_prog->op = -1;
    g_o = o;
    int fd[2]; if (pipe(fd)) { perror("pipe"); _exit(5); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(5); }
    if (pid == 0) { close(fd[0]); child(p, fd[1]); _exit(6); }
    close(fd[1]);
    std::string b; char buf[65536]; ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, n);
    close(fd[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (!deser(b, h)) { fprintf(stderr, "simulator: broken history\n"); _exit(5); } h.hash = hash_bytes(b); }
    else if (WIFSIGNALED(st)) { h.crash_sig = WTERMSIG(st); if (h.crash_sig == SIGKILL) { fprintf(stderr, "simulator: child killed by SIGKILL (out of memory?)\n"); _exit(5); } if (h.crash_sig == SIGXCPU) { h.hang = true; h.cpu = true; } else h.crashed = true; h.hash = mix64(h.crash_sig, g_prog->ticks + g_prog->op); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { h.crashed = true; h.asan = true; h.exitcode = 77; h.hash = mix64(77, g_prog->op); }
    else { fprintf(stderr, "simulator: child failed with status %x\n", st); _exit(5); }
    h.last_task = g_prog->task; h.last_op = g_prog->op;
    if (h.crashed) { h.oomfired = g_prog->oom; h.amdfired = g_prog->amd; h.inlib = g_prog->inlib; }
    g_tot_execs++; g_tot_ticks += h.ticks; g_tot_simns += h.simns; g_tot_switches += h.switches;
}
