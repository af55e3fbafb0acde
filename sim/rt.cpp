// The simulator: see DESIGN.md. One translation unit, never instrumented.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <link.h>
#include <net/if.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <initializer_list>
#include <new>

#include "rt.hpp"

#include "core.inc"
#include "tsan.inc"
#include "alloc.inc"
#include "posix.inc"
#include "net.inc"

namespace sim {

struct Snap { uintptr_t at; size_t n; uint8_t* copy; };
// Driver state: outside everything that is restored.
struct Driver {
    Snap snaps[16];
    int nsnaps;
    uintptr_t snap_top;
    uint8_t *arena_copy, *arena_shadow_copy;
    size_t arena_copy_n;
    uint8_t* stack_copy[MAXF];
    size_t stack_copy_n[MAXF];
    uint64_t base_live_n, base_live_b, base_alloc_id, base_alloc_total;
    uint64_t* seen;           // set of trace hashes of non-trivial runs
    uint64_t nseen, nseen_sched;
    uint64_t* seen_sched;
    // totals
    uint64_t runs, nontrivial, steps, switches, preempts, stalls, infra, fails, replays, selfchecks, strat[8];
    double sim_s;
};
static Driver* const D = reinterpret_cast<Driver*>(GLOBAL_BASE + 0x60000000ULL);
constexpr uint64_t SEEN = 1ULL << 23;

static void map_fixed(uintptr_t at, size_t n) {
    long r = raw_syscall(SYS_mmap, (long)at, (long)n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long)at) {
        static const char m[] = "simulator: cannot map a fixed region\n";
        raw_syscall(SYS_write, 2, (long)m, sizeof m - 1);
        raw_syscall(SYS_exit_group, 3);
    }
}
static void preinit(int, char**, char**) {
    map_fixed(GLOBAL_BASE, 0x80000000ULL);
    map_fixed(HARENA_BASE, HARENA_SIZE);
    map_fixed(DARENA_BASE, DARENA_SIZE);
    map_fixed(ARENA_BASE, ARENA_SIZE);
    map_fixed(SHADOW_BASE, ARENA_SIZE / 8);
    map_fixed(RACE_BASE, ARENA_SIZE * 4);
    map_fixed(RACEG_BASE, 1ULL << 30);
    map_fixed(STACK_BASE, STACK_SIZE * MAXF);
    map_fixed(SNAP_BASE, 1ULL << 30);
    G->cur              = &G->idle_fiber;
    G->idle_fiber.quiet = 1;
    G->idle_fiber.id    = MAXF - 1;
    G->arena_top        = ARENA_BASE + 4096;
    G->harena_top       = HARENA_BASE + 64;
    *darena_top         = DARENA_BASE + 64;
    D->snap_top         = SNAP_BASE;
    g_phase             = PH_INIT;
}
__attribute__((section(".preinit_array"), used)) static void (*preinit_p)(int, char**, char**) = preinit;

static uint8_t* snap_copy(uintptr_t at, size_t n) {
    uint8_t* c  = (uint8_t*)D->snap_top;
    D->snap_top = (D->snap_top + n + 63) & ~uintptr_t(63);
    memcpy(c, (void*)at, n);
    return c;
}
static int find_segs(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        const ElfW(Phdr)& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
            uintptr_t a = i->dlpi_addr + p.p_vaddr;
            D->snaps[D->nsnaps++] = Snap{a, p.p_memsz, nullptr};
            if (!G->data_lo || a < G->data_lo) G->data_lo = a & ~uintptr_t(7);
            if (a + p.p_memsz > G->data_hi) G->data_hi = a + p.p_memsz;
        }
    }
    return 1;   // only the executable
}
static void* fiber_thread(void* a) {
    Fiber* f  = (Fiber*)a;
    f->self   = pthread_self();
    uint64_t fs;
    asm volatile("rdfsbase %0" : "=r"(fs));
    f->fsbase = fs;
    sim_capture(&f->init_rsp);
    fiber_main(G->cur);
    return nullptr;
}
static void* run_scenario(void*) {
    scenario();
    return nullptr;
}

static void on_signal(int sig, siginfo_t* si, void* uc) {
    uint64_t pc = (uint64_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGALRM) {
        if (G->in_run) {
            snprintf(G->fail_msg, sizeof G->fail_msg, "a run took too long in real time, at pc 0x%llx, seed %llu", (unsigned long long)pc, (unsigned long long)G->seed);
            strcpy(G->fail_cls, "infra");
            G->infra = true;
            finish_run();
        }
        return;
    }
    if (!G->in_run) {
        char b[128];
        int n = snprintf(b, sizeof b, "simulator: signal %d at pc 0x%llx addr %p outside a run\n", sig, (unsigned long long)pc, si->si_addr);
        raw_syscall(SYS_write, 2, (long)b, n);
        raw_syscall(SYS_exit_group, 3);
    }
    uintptr_t a = (uintptr_t)si->si_addr;
    if (a >= STACK_BASE && a < STACK_BASE + STACK_SIZE * MAXF) fail("stack-overflow", "thread %d overflowed its stack at pc 0x%llx", G->cur->id, (unsigned long long)pc);
    // Where it was called from: the return addresses on top of the stack
    char from[120];
    int n        = 0;
    from[0]      = 0;
    uintptr_t* p = (uintptr_t*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RSP];
    uintptr_t* e = (uintptr_t*)(((uintptr_t)p + STACK_SIZE) & ~(STACK_SIZE - 1));
    if ((uintptr_t)p >= STACK_BASE && (uintptr_t)p < STACK_BASE + STACK_SIZE * MAXF)
        for (int k = 0; p < e && k < 4; ++p)
            if (in_text(*p)) { n += snprintf(from + n, sizeof from - (size_t)n, " pc 0x%llx", (unsigned long long)*p); ++k; }
    G->sig_rsp = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RSP];
    fail("crash", "signal %d at pc 0x%llx accessing %p in thread %d, from%s", sig, (unsigned long long)pc, si->si_addr, G->cur->id, from);
}

static void boot(int nthreads) {
    sigset_t all, old;
    sigfillset(&all);
    sigprocmask(SIG_BLOCK, &all, &old);
    for (int i = 0; i < nthreads; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        uintptr_t s = STACK_BASE + (uintptr_t)i * STACK_SIZE;
        pthread_attr_setstack(&at, (void*)s, STACK_SIZE);
        pthread_t t;
        if (pthread_create(&t, &at, fiber_thread, &G->f[i]) != 0) { perror("pthread_create"); _exit(3); }
        while (__atomic_load_n((uintptr_t*)&G->f[i].init_rsp, __ATOMIC_ACQUIRE) == 0) raw_syscall(SYS_sched_yield);
        mprotect((void*)s, 16384, PROT_NONE);
    }
    G->nfibers_ready = nthreads;
    sigprocmask(SIG_SETMASK, &old, nullptr);
    stack_t ss{};
    ss.ss_sp = mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 1 << 18;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);

    G->dtab_size = 1 << 20;
    g_phase = PH_DRIVER;
    G->dtab = (DecSlot*)calloc(G->dtab_size, sizeof(DecSlot));
    G->sync = (SyncVar*)calloc(SYNC_TAB, sizeof(SyncVar));
    D->seen = (uint64_t*)calloc(SEEN, 8);
    D->seen_sched = (uint64_t*)calloc(SEEN, 8);
    G->arena_base_top    = G->arena_top;
    D->base_live_n       = G->live_n;
    D->base_live_b       = G->live_b;
    D->base_alloc_id     = G->alloc_id;
    D->base_alloc_total  = G->alloc_total;
    dl_iterate_phdr(find_segs, nullptr);
    for (int i = 0; i < D->nsnaps; ++i) D->snaps[i].copy = snap_copy(D->snaps[i].at, D->snaps[i].n);
    D->arena_copy_n      = G->arena_top - ARENA_BASE;
    D->arena_copy        = snap_copy(ARENA_BASE, D->arena_copy_n);
    D->arena_shadow_copy = snap_copy(SHADOW_BASE, D->arena_copy_n / 8 + 1);
    for (int i = 0; i < nthreads; ++i) {
        uintptr_t lo = (uintptr_t)G->f[i].init_rsp, hi = STACK_BASE + (uintptr_t)(i + 1) * STACK_SIZE;
        D->stack_copy_n[i] = hi - lo;
        D->stack_copy[i]   = snap_copy(lo, hi - lo);
    }
}

static void restore() {
    for (int i = 0; i < D->nsnaps; ++i) memcpy((void*)D->snaps[i].at, D->snaps[i].copy, D->snaps[i].n);
    memcpy((void*)ARENA_BASE, D->arena_copy, D->arena_copy_n);
    memcpy((void*)SHADOW_BASE, D->arena_shadow_copy, D->arena_copy_n / 8 + 1);
    if (G->arena_top > G->arena_base_top) {
        memset((void*)G->arena_base_top, 0, G->arena_top - G->arena_base_top);
        uintptr_t s = SHADOW_BASE + ((G->arena_base_top - ARENA_BASE) >> 3) + 1, e = SHADOW_BASE + ((G->arena_top - ARENA_BASE) >> 3) + 2;
        memset((void*)s, 0, e - s);
    }
    memset((void*)HARENA_BASE, 0, G->harena_top - HARENA_BASE);
    int used = G->created ? G->created : 1;
    for (int i = 0; i < used; ++i) {
        uint8_t* lo = (uint8_t*)G->f[i].init_rsp;
        memcpy(lo, D->stack_copy[i], D->stack_copy_n[i]);
        memset(lo - 49152, 0, 49152);
    }
    G->arena_top  = G->arena_base_top;
    G->harena_top = HARENA_BASE + 64;
    G->live_n = D->base_live_n; G->live_b = D->base_live_b; G->alloc_id = D->base_alloc_id; G->alloc_total = D->base_alloc_total;
    memset(G->freelist, 0, sizeof G->freelist);
    memset(G->big, 0, sizeof G->big);
}

struct RunCfg {
    uint64_t spin_max, budget;
    int64_t step_ns, sim_start, real_off;
    int reuse;
    unsigned spur_num, spur_den;
    Strat st;
};
static uint64_t loguni(Rng& r, uint64_t lo, uint64_t hi) {
    double a = __builtin_log((double)lo), b = __builtin_log((double)hi + 1);
    uint64_t v = (uint64_t)__builtin_exp(a + (b - a) * ((double)(r.next() >> 11) / 9007199254740992.0));
    return v < lo ? lo : v > hi ? hi : v;
}
static RunCfg sample_cfg(uint64_t seed) {
    Rng r;
    r.seed(seed ^ 0xC0FFEE1234ULL);
    RunCfg c;
    memset(&c, 0, sizeof c);
    c.budget    = 400000;
    c.spin_max  = loguni(r, 300, 4000);
    c.step_ns   = (int64_t)loguni(r, 5, 400);
    c.sim_start = (int64_t)(1000000000ULL + r.below(1ULL << 40));
    c.real_off  = (int64_t)(1700000000000000000ULL + r.below(1ULL << 50)) - c.sim_start;
    c.reuse     = (int)r.below(2);
    c.spur_den  = 20;
    c.spur_num  = r.chance(3, 10) ? (unsigned)(1 + r.below(4)) : 0;
    Strat& s    = c.st;
    uint64_t k  = r.below(100);
    if (k < 33) { s.type = ST_RW; s.sync_mean = loguni(r, 1, 60); }
    else if (k < 58) { s.type = ST_PLAIN; s.sync_mean = loguni(r, 3, 200); s.plain_mean = loguni(r, 4, 3000); }
    else if (k < 75) {
        s.type = ST_PCT; s.pct_depth = 1 + (int)r.below(6);
        for (int i = 0; i < s.pct_depth; ++i) s.pct_points[i] = loguni(r, 10, 40000);
        s.sync_mean = 0;
        if (r.chance(1, 3)) s.plain_mean = loguni(r, 50, 3000);
    }
    else if (k < 92) {
        s.type = ST_HOT; s.sync_mean = loguni(r, 10, 400); s.hot_mask = (1ULL << (3 + r.below(5))) - 1; s.hot_salt = r.next();
        if (r.chance(1, 3)) s.plain_mean = loguni(r, 20, 3000);
    }
    else { s.type = ST_NONE; }
    if (r.chance(1, 2)) { s.stall_pm = (unsigned)loguni(r, 3, 400); s.stall_scale = (int64_t)loguni(r, 500, 20000000); }
    if (r.chance(1, 5)) s.jump_pm = (unsigned)loguni(r, 2, 150);
    return c;
}

struct Replay {
    RunCfg cfg;
    Dec* d;
    int n;
    uint64_t hash;
    char cls[64];
};

static double wall() {
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static void one_run(uint64_t seed, const RunCfg& c, const Replay* rp) {
    restore();
    G->run_no++;
    if ((G->run_no & 0xffff) == 0) {   // race shadow tags wrap: forget everything
        G->run_no++;
        madvise((void*)RACE_BASE, ARENA_SIZE * 4, MADV_DONTNEED);
        madvise((void*)RACEG_BASE, 1ULL << 30, MADV_DONTNEED);
    }
    G->sync_used = 0;
    G->seed = seed;
    G->st = c.st;
    G->spin_max = c.spin_max; G->budget = c.budget; G->step_ns = c.step_ns;
    G->now = G->sim_start = c.sim_start; G->real_off = c.real_off;
    G->reuse = c.reuse; G->spur_num = c.spur_num; G->spur_den = c.spur_den;
    G->max_stall = 50000;
    G->plain_ok = true; G->race = false; G->race_all = false; G->faults = true; G->fair = false;
    G->failed = G->infra = G->is_nontrivial = G->dec_overflow = false;
    G->fail_cls[0] = G->fail_msg[0] = 0; G->samples[0] = 0; G->nsamples = 0;
    G->ntimers = 0; G->next_due = INT64_MAX; G->timer_seq = G->wait_seq = G->evseq = 0;
    G->steps = G->switches = G->preempts = G->stalls = G->jumps = G->notes = 0;
    G->ndec = G->nfaultc = G->nprobes = G->ntr = 0;
    G->trace_hash = 0x1234; G->sched_hash = 0x777;
    G->prio_low = 1ULL << 31;
    G->r_work.seed(seed * 3 + 1); G->r_sched.seed(seed * 5 + 2); G->r_fault.seed(seed * 7 + 3);
    G->replaying = rp != nullptr;
    memset(G->rp_n, 0, sizeof G->rp_n);
    if (rp) {
        memset(G->dtab, 0, sizeof(DecSlot) * G->dtab_size);
        uint64_t cnt[MAXF] = {0};
        for (int i = 0; i < rp->n; ++i) {
            const Dec& d = rp->d[i];
            DecSlot* s = dfind(dkey(d.kind, d.fiber), d.ctr, true);
            s->val = d.val;
            if (d.kind == K_PREEMPT) cnt[d.fiber]++;
        }
        for (int f = 0; f < MAXF; ++f) G->rp_ops[f] = cnt[f] ? (uint64_t*)halloc(cnt[f] * 8) : nullptr;
        for (int i = 0; i < rp->n; ++i) {
            const Dec& d = rp->d[i];
            if (d.kind != K_PREEMPT) continue;
            int k = G->rp_n[d.fiber]++;
            uint64_t* o = G->rp_ops[d.fiber];
            while (k > 0 && o[k - 1] > d.ctr) { o[k] = o[k - 1]; --k; }
            o[k] = d.ctr;
        }
    }
    for (int i = 0; i < MAXF; ++i) { G->f[i].state = FREE; G->f[i].created = false; G->f[i].ops = 0; G->f[i].node = 0; G->f[i].run_syncs = 0; }
    G->created = 1; G->ended = 0;
    net_reset();
    Fiber* f = &G->f[0];
    init_fiber(f, 0);
    f->fn = run_scenario; f->arg = nullptr;
    uint64_t fs;
    asm volatile("rdfsbase %0" : "=r"(fs));
    G->drv_fs = fs;
    G->cur = f;
    struct itimerval it{{0, 0}, {40, 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    G->in_run = true;
    sim_switch(&G->drv_rsp, f->rsp, f->fsbase);
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_REAL, &it, nullptr);
    G->in_run = false;
    G->cur = &G->idle_fiber;
    if (G->dec_overflow && !G->infra) { G->infra = true; strcpy(G->fail_msg, "decision log overflow"); }
}

static bool set_add(uint64_t* t, uint64_t h, uint64_t& n) {
    if (h == 0) h = 1;
    if (n * 2 > SEEN) return false;
    for (uint64_t i = h & (SEEN - 1);; i = (i + 1) & (SEEN - 1)) {
        if (t[i] == h) return false;
        if (t[i] == 0) { t[i] = h; n++; return true; }
    }
}
static void add_counts(FaultCount* to, int& n, const FaultCount* from, int m) {
    for (int i = 0; i < m; ++i) {
        int k = 0;
        while (k < n && strcmp(to[k].name, from[i].name)) ++k;
        if (k == n) {
            if (n >= MAXFAULTKINDS) continue;
            size_t l = strlen(from[i].name) + 1;
            char* c  = (char*)malloc(l);
            memcpy(c, from[i].name, l);
            to[n++] = {c, 0};
        }
        to[k].n += from[i].n;
    }
}
static void jstr(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static void write_replay(const char* path, const RunCfg& c, uint64_t seed, const Dec* d, int n, uint64_t hash, const char* cls, const char* msg, const char* samples) {
    // Whole or not at all, we may be stopped at any moment
    char tmp[1100];
    snprintf(tmp, sizeof tmp, "%s.part", path);
    FILE* f = fopen(tmp, "w");
    if (!f) { perror(tmp); return; }
    fprintf(f, "sim-replay 1\nproperty %s\nseed %llu\nclass %s\nhash %llx\n", scenario_property, (unsigned long long)seed, cls, (unsigned long long)hash);
    fprintf(f, "cfg %llu %llu %lld %lld %lld %d %u %u\n", (unsigned long long)c.spin_max, (unsigned long long)c.budget, (long long)c.step_ns, (long long)c.sim_start,
            (long long)c.real_off, c.reuse, c.spur_num, c.spur_den);
    fprintf(f, "message ");
    jstr(f, msg);
    fprintf(f, "\ndecisions %d\n", n);
    static const char* const kn[] = {"preempt", "next", "wake", "spurious", "work", "fault", "fault-value", "jump"};
    for (int i = 0; i < n; ++i) fprintf(f, "%s %d %llu %llu\n", kn[d[i].kind], d[i].fiber, (unsigned long long)d[i].ctr, (unsigned long long)d[i].val);
    fprintf(f, "end\n");
    for (const char* s = samples; *s;) {
        const char* e = strchr(s, '\n');
        if (!e) e = s + strlen(s);
        fprintf(f, "# %.*s\n", (int)(e - s), s);
        s = *e ? e + 1 : e;
    }
    fclose(f);
    if (rename(tmp, path)) perror(path);
}
static bool read_replay(const char* path, Replay& r) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[8192];
    memset(&r, 0, sizeof r);
    r.d = (Dec*)malloc(sizeof(Dec) * MAXDEC);
    unsigned long long a, b, h;
    long long x, y, z;
    bool ok = false;
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "class %63s", r.cls) == 1) continue;
        if (sscanf(line, "hash %llx", &h) == 1) { r.hash = h; continue; }
        if (sscanf(line, "cfg %llu %llu %lld %lld %lld %d %u %u", &a, &b, &x, &y, &z, &r.cfg.reuse, &r.cfg.spur_num, &r.cfg.spur_den) == 8) {
            r.cfg.spin_max = a; r.cfg.budget = b; r.cfg.step_ns = x; r.cfg.sim_start = y; r.cfg.real_off = z;
            continue;
        }
        if (!strncmp(line, "end", 3)) { ok = true; break; }
        char k[32];
        int fb;
        if (sscanf(line, "%31s %d %llu %llu", k, &fb, &a, &b) == 4) {
            static const char* const kn[] = {"preempt", "next", "wake", "spurious", "work", "fault", "fault-value", "jump"};
            for (int i = 0; i < 8; ++i)
                if (!strcmp(k, kn[i]) && r.n < MAXDEC) r.d[r.n++] = Dec{i, fb, a, b};
        }
    }
    fclose(f);
    return ok;
}

// ---------------------------------------------------------------- minimisation
struct Mini {
    Replay cur;
    uint64_t tests;
    double until;
    char cls[64];
    uint64_t max_tests;
};
static bool still_fails(Mini& m, const Dec* d, int n) {
    Replay r = m.cur;
    r.d = (Dec*)d;
    r.n = n;
    m.tests++;
    one_run(1, r.cfg, &r);
    return G->failed && !strcmp(G->fail_cls, m.cls);
}
static void adopt(Mini& m) {   // the decisions that were actually used
    m.cur.n = G->ndec;
    memcpy(m.cur.d, G->dec, sizeof(Dec) * (size_t)G->ndec);
}
static void minimise(Mini& m) {
    Dec* tmp = (Dec*)malloc(sizeof(Dec) * MAXDEC);
    auto over = [&] { return wall() > m.until || m.tests > m.max_tests; };
    // whole kinds first
    for (int k : {K_FAULT, K_SPUR, K_FVAL, K_WAKE, K_PREEMPT, K_NEXT, K_WORK}) {
        int n = 0;
        for (int i = 0; i < m.cur.n; ++i) if (m.cur.d[i].kind != k) tmp[n++] = m.cur.d[i];
        if (n < m.cur.n && !over() && still_fails(m, tmp, n)) adopt(m);
    }
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (int chunk = m.cur.n / 2 > 0 ? m.cur.n / 2 : 1; chunk >= 1 && !over(); chunk /= 2) {
            for (int at = m.cur.n; at > 0 && !over();) {
                int lo = at - chunk < 0 ? 0 : at - chunk;
                if (at > m.cur.n) at = m.cur.n;
                if (lo >= at) { at = lo; continue; }
                int n = 0;
                for (int i = 0; i < m.cur.n; ++i) if (i < lo || i >= at) tmp[n++] = m.cur.d[i];
                if (still_fails(m, tmp, n) && G->ndec <= m.cur.n) {
                    if (G->ndec < m.cur.n) progress = true;
                    adopt(m);
                }
                at = lo;
            }
        }
        // values
        for (int i = 0; i < m.cur.n && !over(); ++i) {
            Dec& d = m.cur.d[i];
            if (d.kind == K_NEXT || d.kind == K_WAKE) continue;
            if (d.kind == K_PREEMPT) {
                if (d.val >> 8) {
                    memcpy(tmp, m.cur.d, sizeof(Dec) * (size_t)m.cur.n);
                    tmp[i].val &= 0xff;
                    if (still_fails(m, tmp, m.cur.n) && G->ndec <= m.cur.n) { adopt(m); progress = true; }
                }
                continue;
            }
            for (uint64_t v : {(uint64_t)1, d.val / 2, d.val - 1}) {
                if (i >= m.cur.n || v == 0 || v >= m.cur.d[i].val || over()) continue;
                memcpy(tmp, m.cur.d, sizeof(Dec) * (size_t)m.cur.n);
                tmp[i].val = v;
                if (still_fails(m, tmp, m.cur.n) && G->ndec <= m.cur.n) { adopt(m); progress = true; break; }
            }
        }
    }
}

static void dump_stats(const char* out, double t0, const char* status) {
    FILE* f = strcmp(out, "-") ? fopen(out, "w") : stdout;
    if (!f) { perror(out); return; }
    uint64_t pairs = 0;
    for (auto b : G->pairmap) pairs += (uint64_t)__builtin_popcount(b);
    fprintf(f, "{\"status\":\"%s\",\"runs\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"distinct_schedules\":%llu,\"switch_pairs\":%llu,\"steps\":%llu,\"switches\":%llu,"
               "\"preemptions\":%llu,\"stalls\":%llu,\"infra\":%llu,\"selfchecks\":%llu,\"sim_seconds\":%.6f,\"wall\":%.3f,\"strategies\":[%llu,%llu,%llu,%llu,%llu],\"faults\":{",
            status, (unsigned long long)D->runs, (unsigned long long)D->nontrivial, (unsigned long long)D->nseen, (unsigned long long)D->nseen_sched, (unsigned long long)pairs,
            (unsigned long long)D->steps, (unsigned long long)D->switches, (unsigned long long)D->preempts, (unsigned long long)D->stalls, (unsigned long long)D->infra,
            (unsigned long long)D->selfchecks, D->sim_s, wall() - t0, (unsigned long long)D->strat[0], (unsigned long long)D->strat[1], (unsigned long long)D->strat[2],
            (unsigned long long)D->strat[3], (unsigned long long)D->strat[4]);
    for (int i = 0; i < G->ntot_fault; ++i) { if (i) fputc(',', f); jstr(f, G->tot_fault[i].name); fprintf(f, ":%llu", (unsigned long long)G->tot_fault[i].n); }
    fprintf(f, "},\"probes\":{");
    for (int i = 0; i < G->ntot_probe; ++i) { if (i) fputc(',', f); jstr(f, G->tot_probe[i].name); fprintf(f, ":%llu", (unsigned long long)G->tot_probe[i].n); }
    fprintf(f, "},\"samples\":[");
    jstr(f, G->logbuf);
    fprintf(f, "],\"infra_msg\":");
    jstr(f, (const char*)G->user[0] ? (const char*)G->user[0] : "");
    fprintf(f, "}\n");
    if (f == stdout) { fflush(f); return; }
    fclose(f);
    char p[1024];
    snprintf(p, sizeof p, "%s.seen", out);
    f = fopen(p, "w");
    if (!f) return;
    for (uint64_t i = 0; i < SEEN; ++i) if (D->seen[i]) fwrite(&D->seen[i], 8, 1, f);
    fclose(f);
}
static uint64_t run_seed(uint64_t base, uint64_t idx) {
    uint64_t x = base * 0x9E3779B97F4A7C15ULL + idx * 0xD1B54A32D192ED03ULL + 12345;
    for (const char* p = scenario_property; *p; ++p) x = mix(x, (uint64_t)*p);
    return Rng::splitmix(x) | 1;
}

// search: --base B --start I --stride K --seconds T --max N --out stats.json --replay path [--keep-going]
static int do_search(int argc, char** argv) {
    uint64_t base = 1, start = 0, stride = 1, max = ~0ULL;
    double secs = 10;
    const char *out = "-", *rpath = "/tmp/sim-replay";
    bool keep = false, hashes = false;
    uint64_t selfcheck = 97;
    for (int i = 2; i < argc; ++i) {
        if (!strcmp(argv[i], "--keep-going")) { keep = true; continue; }
        if (!strcmp(argv[i], "--hashes")) { hashes = true; continue; }
        if (i + 1 >= argc) break;
        if (!strcmp(argv[i], "--base")) base = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--start")) start = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--stride")) stride = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--max")) max = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--seconds")) secs = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--replay")) rpath = argv[++i];
        else if (!strcmp(argv[i], "--selfcheck")) selfcheck = strtoull(argv[++i], nullptr, 10);
    }
    double t0 = wall();
    int rc = 0;
    Dec* log = (Dec*)malloc(sizeof(Dec) * MAXDEC);
    int nfail = 0;
    for (uint64_t k = 0; k < max; ++k) {
        if (wall() - t0 > secs) break;
        uint64_t idx = start + k * stride, seed = run_seed(base, idx);
        RunCfg c = sample_cfg(seed);
        one_run(seed, c, nullptr);
        if (hashes) printf("%llu %llx %d %s\n", (unsigned long long)idx, (unsigned long long)G->trace_hash, G->ndec, G->failed ? G->fail_cls : "");
        D->runs++;
        D->steps += G->steps; D->switches += G->switches; D->preempts += G->preempts; D->stalls += G->stalls;
        D->sim_s += (double)(G->now - G->sim_start) * 1e-9;
        D->strat[c.st.type]++;
        add_counts(G->tot_fault, G->ntot_fault, G->faultc, G->nfaultc);
        add_counts(G->tot_probe, G->ntot_probe, G->probes, G->nprobes);
        if (G->infra) {
            D->infra++;
            if (!G->user[0]) { size_t l = strlen(G->fail_msg) + 1; G->user[0] = malloc(l); memcpy(G->user[0], G->fail_msg, l); }
            continue;
        }
        if (G->is_nontrivial) { D->nontrivial++; set_add(D->seen, G->trace_hash, D->nseen); }
        set_add(D->seen_sched, G->sched_hash, D->nseen_sched);
        if (k < 3 && G->nsamples) {
            size_t l = strlen(G->logbuf);
            snprintf(G->logbuf + l, sizeof G->logbuf - l, "run %llu seed %llu: %u threads, %llu steps, %llu switches, %.3f ms simulated\n%.1500s\n", (unsigned long long)idx,
                     (unsigned long long)seed, (unsigned)G->created, (unsigned long long)G->steps, (unsigned long long)G->switches, (double)(G->now - G->sim_start) * 1e-6, G->samples);
        }
        bool failed = G->failed;
        if (failed || (selfcheck && k % selfcheck == selfcheck - 1)) {
            // The same seed again, then the recorded decisions on their own: both must give the same run.
            uint64_t h = G->trace_hash;
            int nd = G->ndec;
            char cls[64], msg[4096];
            strcpy(cls, G->fail_cls); strcpy(msg, G->fail_msg);
            char* smp = (char*)malloc(sizeof G->samples);
            memcpy(smp, G->samples, sizeof G->samples);
            memcpy(log, G->dec, sizeof(Dec) * (size_t)nd);
            one_run(seed, c, nullptr);
            bool same = G->trace_hash == h && !strcmp(G->fail_cls, cls);
            Replay rp{};
            rp.cfg = c; rp.cfg.st = Strat(); rp.d = log; rp.n = nd;
            if (same) {
                one_run(seed, rp.cfg, &rp);
                same = G->trace_hash == h && !strcmp(G->fail_cls, cls);
            }
            D->selfchecks++;
            if (!same) {
                fprintf(stderr, "simulator: run %llu (seed %llu) did not repeat: %llx/%s then %llx/%s (%s | %s)\n", (unsigned long long)idx, (unsigned long long)seed, (unsigned long long)h, cls,
                        (unsigned long long)G->trace_hash, G->fail_cls, msg, G->fail_msg);
                dump_stats(out, t0, "nondeterminism");
                return 3;
            }
            if (failed) {
                char p[1024];
                snprintf(p, sizeof p, "%s%s%d", rpath, keep ? "." : "", nfail);
                if (!keep) snprintf(p, sizeof p, "%s", rpath);
                write_replay(p, c, seed, log, nd, h, cls, msg, smp);
                nfail++;
                printf("FAIL %llu %s %s\n", (unsigned long long)idx, cls, msg);
                fflush(stdout);
                rc = 1;
                if (!keep || nfail >= 20) break;
            }
        }
    }
    dump_stats(out, t0, rc ? "fail" : "ok");
    return rc;
}
static int do_replay(int argc, char** argv) {
    Replay r;
    if (argc < 3 || !read_replay(argv[2], r)) { fprintf(stderr, "cannot read the replay file\n"); return 3; }
    if (argc > 3 && !strcmp(argv[3], "-v")) G->user[1] = (void*)1;
    one_run(1, r.cfg, &r);
    printf("%s %s hash %llx %s\n%s\n", G->failed ? "FAIL" : G->infra ? "INFRA" : "PASS", G->fail_cls, (unsigned long long)G->trace_hash, G->trace_hash == r.hash ? "same" : "different", G->fail_msg);
    printf("%s", G->samples);
    return G->failed ? 1 : G->infra ? 3 : 0;
}
static int do_min(int argc, char** argv) {
    // min in out seconds
    Mini m;
    memset(&m, 0, sizeof m);
    if (argc < 5 || !read_replay(argv[2], m.cur)) return 3;
    m.until = wall() + atof(argv[4]);
    m.max_tests = 50000;
    one_run(1, m.cur.cfg, &m.cur);
    if (!G->failed) { fprintf(stderr, "the input does not fail\n"); return 3; }
    strcpy(m.cls, G->fail_cls);
    int before = m.cur.n;
    minimise(m);
    one_run(1, m.cur.cfg, &m.cur);
    if (!G->failed) { fprintf(stderr, "minimisation lost the failure\n"); return 3; }
    write_replay(argv[3], m.cur.cfg, 0, m.cur.d, m.cur.n, G->trace_hash, G->fail_cls, G->fail_msg, G->samples);
    printf("minimised %d -> %d decisions in %llu replays\n", before, m.cur.n, (unsigned long long)m.tests);
    return 0;
}
}  // namespace sim

int main(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: search|replay|min\n"); return 3; }
    boot(63);
    if (!strcmp(argv[1], "search")) return do_search(argc, argv);
    if (!strcmp(argv[1], "replay")) return do_replay(argc, argv);
    if (!strcmp(argv[1], "min")) return do_min(argc, argv);
    return 3;
}
