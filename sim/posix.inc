// Threads, locks, time: the C library calls the program makes, answered by the simulator.
namespace sim {

struct SimMutex {      // overlays pthread_mutex_t (40 bytes, zero = unlocked)
    int locked;        // +0
    int count;         // +4
    int owner;         // +8 (fiber id + 1)
    int waiters;       // +12
    int kind;          // +16 as glibc: 0 normal, 1 recursive, 2 errorcheck
    int pad[5];
};
static_assert(sizeof(SimMutex) <= sizeof(pthread_mutex_t), "");

static void wake_waiters(void* obj, int kind) {
    for (int i = 0; i < G->created; ++i) {
        Fiber& f = G->f[i];
        if (f.state == BLOCKED && f.wait_obj == obj && f.wait_kind == kind) make_runnable(&f, R_SIGNAL);
    }
}

static void mem_check(void* p, size_t n, uint64_t pc) {
    if (in_arena((uintptr_t)p)) check_access((uintptr_t)p, n, true, pc);
}

static int mutex_lock(SimMutex* m, bool try_only, uint64_t pc) {
    if (!active()) {
        return 0;   // outside runs and in harness sections nothing else can hold it across
    }
    sync_point(pc);
    mem_check(m, 8, pc);
    Fiber* f = G->cur;
    if (m->locked && m->owner == f->id + 1) {
        if (m->kind == 1) { m->count++; return 0; }
        if (try_only) return EBUSY;
        fail("self-deadlock", "thread %d locks a mutex it already holds, at pc 0x%llx", f->id, (unsigned long long)pc);
    }
    while (m->locked) {
        if (try_only) return EBUSY;
        m->waiters++;
        block(W_MUTEX, m, -1);
        mem_check(m, 8, pc);
        m->waiters--;
    }
    m->locked = 1;
    m->owner  = f->id + 1;
    m->count  = 1;
    race_acquire(m);
    return 0;
}
static int mutex_unlock(SimMutex* m, uint64_t pc, bool point) {
    if (!active()) return 0;
    mem_check(m, 8, pc);
    Fiber* f = G->cur;
    if (m->owner != f->id + 1) {
        fail("bad-unlock", "thread %d unlocks a mutex it does not hold, at pc 0x%llx", f->id, (unsigned long long)pc);
    }
    if (--m->count > 0) return 0;
    race_release(m, false);
    m->locked = 0;
    m->owner  = 0;
    if (m->waiters) wake_waiters(m, W_MUTEX);
    if (point) sync_point(pc);
    return 0;
}

static int cond_wait(pthread_cond_t* c, SimMutex* m, bool timed, int clock, const struct timespec* ts, uint64_t pc) {
    if (!active()) return 0;
    sync_point(pc);
    mem_check(c, 8, pc);
    Fiber* f         = G->cur;
    int64_t deadline = -1, absd = 0;
    if (timed) {
        // saturate: callers pass far-future time points
        __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
        if (clock == CLOCK_REALTIME) t -= G->real_off;
        if (t < G->now) t = G->now;
        if (t > INT64_MAX / 4) t = INT64_MAX / 4;
        deadline = (int64_t)t;
        absd     = (int64_t)((__int128)ts->tv_sec * 1000000000 + ts->tv_nsec > INT64_MAX / 2 ? INT64_MAX / 2 : ts->tv_sec * 1000000000LL + ts->tv_nsec);
    }
    int spur = 0;
    if (G->spur_num && fault("spurious-wakeup", G->spur_num, G->spur_den)) {
        uint64_t d = 1 + fault_value(20000);
        if (deadline < 0 || G->now + (int64_t)d < deadline) { deadline = G->now + (int64_t)d; spur = 1; }
    }
    mutex_unlock(m, pc, false);
    f->spur = spur;
    block(W_COND, c, deadline, clock, absd);
    f->spur    = 0;
    int reason = f->wake_reason;
    mutex_lock(m, false, pc);
    return reason == R_TIMEOUT && timed ? ETIMEDOUT : 0;
}
static int cond_signal(pthread_cond_t* c, bool all, uint64_t pc) {
    if (!active()) return 0;
    sync_point(pc);
    mem_check(c, 8, pc);
    if (all) { wake_waiters(c, W_COND); return 0; }
    Fiber* w[MAXF];
    int n = 0;
    for (int i = 0; i < G->created; ++i)
        if (G->f[i].state == BLOCKED && G->f[i].wait_kind == W_COND && G->f[i].wait_obj == c) {
            // ordered by arrival
            int k = n++;
            w[k]  = &G->f[i];
            while (k > 0 && w[k - 1]->wait_seq > w[k]->wait_seq) { Fiber* t = w[k]; w[k] = w[k - 1]; w[k - 1] = t; --k; }
        }
    if (n == 0) return 0;
    uint64_t v = n == 1 ? 0 : decide(K_WAKE, [&] { return G->r_sched.below((uint64_t)n); });
    make_runnable(w[v % (uint64_t)n], R_SIGNAL);
    return 0;
}

static void fiber_main(Fiber* f) {
    // runs on f's own stack, first time it is switched to
    f->ret = f->fn(f->arg);
    for (;;) {
        int n = f->ndtors;
        if (n == 0) break;
        f->ndtors--;
        f->dtors[n - 1].fn(f->dtors[n - 1].obj);
    }
    sync_point(3);
    if (f->id == 0) finish_run();
    race_release(f, false);
    f->state = DONE;
    f->exited = true;
    G->ended++;
    wake_waiters(f, W_JOIN);
    schedule_next(false);
    __builtin_trap();
}

static Fiber* by_self(pthread_t t) {
    for (int i = 0; i < MAXF; ++i)
        if (G->f[i].self == t) return &G->f[i];
    return nullptr;
}
int fiber_of_pthread(unsigned long t) { Fiber* f = by_self((pthread_t)t); return f ? f->id : -1; }
int self() { return G->cur->id; }
uint64_t seq() { return ++G->evseq; }
uint64_t steps() { return G->steps; }
int live_threads() { return G->created - 1 - G->ended; }
bool thread_blocked(int i) { return G->f[i].state == BLOCKED; }
int runnable_others() {
    int n = 0;
    for (int i = 0; i < G->created; ++i)
        if (&G->f[i] != G->cur && (G->f[i].state == RUNNABLE || G->f[i].state == STALLED)) n++;
    return n;
}

static void init_fiber(Fiber* f, int id) {
    f->ops = f->syncs = f->run_syncs = 0;
    f->quiet         = 0;
    f->id            = id;
    f->state         = RUNNABLE;
    f->deadline      = -1;
    f->wait_kind     = W_NONE;
    f->wait_obj      = nullptr;
    f->spur          = 0;
    f->created       = true;
    f->detached = f->joined = f->exited = false;
    f->rsp           = f->init_rsp;
    memset(f->ctr, 0, sizeof f->ctr);
    f->ndtors        = 0;
    f->last_pc       = 1;
    f->has_acq_pending = f->has_rel_fence = false;
    memset(&f->vc, 0, sizeof f->vc);
    f->vc.c[id] = 1;
    G->rp_i[id] = 0;
    if (G->replaying) {
        f->next_stop = G->rp_n[id] ? G->rp_ops[id][0] : UINT64_MAX;
    }
    else {
        f->next_stop = G->st.plain_mean && G->plain_ok ? G->r_sched.gap(G->st.plain_mean) : UINT64_MAX;
        resample_gap(f);
        f->prio = (1ULL << 32) + G->r_sched.below(1ULL << 31);
    }
}

bool wait_quiescent(int64_t max_ns) {
    sync_point(5);
    Fiber* f = G->cur;
    block(W_QUIESCE, nullptr, max_ns < 0 ? -1 : G->now + max_ns);
    return f->wake_reason == R_SIGNAL;
}
void sleep_ns(int64_t ns) {
    if (ns <= 0) { yield(); return; }
    sync_point(6);
    if (ns > INT64_MAX / 4 - G->now) ns = INT64_MAX / 4 - G->now;
    block(W_SLEEP, nullptr, G->now + ns);
}
void yield() {
    if (!active()) return;
    sync_point(7);
    G->cur->run_syncs = 0;
    if (G->st.type == ST_PCT && !G->replaying) G->cur->prio = --G->prio_low;
    schedule_next(true);
}

// configuration
void allow_long_stalls(uint64_t ns) { G->max_stall = (int64_t)ns; }
void no_stalls() { G->max_stall = 0; }
void no_preempt_plain() {
    G->plain_ok = false;
    if (!G->replaying) for (int i = 0; i < G->created; ++i) G->f[i].next_stop = UINT64_MAX;
}
void set_budget(uint64_t n) { G->budget = n; }
void set_spurious(unsigned a, unsigned b) { G->spur_num = a; G->spur_den = b; }
void fair_from_now() {
    G->fair = true;
    if (!G->replaying) for (int i = 0; i < G->created; ++i) resample_gap(&G->f[i]);
}
void step_cost(uint64_t ns) { G->step_ns = (int64_t)ns; }
}  // namespace sim

using namespace sim;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock((SimMutex*)m, false, PC); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutex_lock((SimMutex*)m, true, PC); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mutex_unlock((SimMutex*)m, PC, true); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((SimMutex*)m)->kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (active() && ((SimMutex*)m)->locked) fail("mutex-destroyed-locked", "a locked mutex is destroyed at pc 0x%llx", (unsigned long long)PC);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, (SimMutex*)m, false, 1, nullptr, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    return cond_wait(c, (SimMutex*)m, true, CLOCK_REALTIME, t, PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    return cond_wait(c, (SimMutex*)m, true, k == CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t, PC);
}
int pthread_cond_signal(pthread_cond_t* c) { return cond_signal(c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t* c) { return cond_signal(c, true, PC); }

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!G->in_run) {
        typedef int (*real_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
        static real_t real = (real_t)dlsym(RTLD_NEXT, "pthread_create");
        return real(t, a, fn, arg);
    }
    sync_point(PC);
    if (G->created >= G->nfibers_ready) fail_infra("more than %d threads in one run", G->nfibers_ready);
    Fiber* f = &G->f[G->created];
    init_fiber(f, G->created);
    G->created++;
    f->fn   = fn;
    f->arg  = arg;
    f->node = G->cur->node;
    hb_thread_create(G->cur, f);
    *t = f->self;
    if (G->st.type == ST_PCT && !G->replaying && f->prio > G->cur->prio) G->cur->sync_gap = 0;
    sync_point(PC);
    return 0;
}
int pthread_join(pthread_t t, void** r) {
    if (!G->in_run) return 0;
    sync_point(PC);
    Fiber* f = by_self(t);
    if (!f || f->joined) return ESRCH;
    if (f == G->cur) return EDEADLK;
    while (f->state != DONE) block(W_JOIN, f, -1);
    race_acquire(f);
    f->joined = true;
    if (r) *r = f->ret;
    return 0;
}
int pthread_detach(pthread_t t) {
    Fiber* f = by_self(t);
    if (f) f->detached = true;
    return 0;
}
int pthread_setname_np(pthread_t, const char*) { return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
int sched_yield() { yield(); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!active()) {
        if (*o != 2) { *o = 2; fn(); }
        return 0;
    }
    sync_point(PC);
    while (*o == 1) block(W_ONCE, o, -1);
    if (*o == 0) {
        *o = 1;
        fn();
        race_release(o, false);
        *o = 2;
        wake_waiters(o, W_ONCE);
    }
    race_acquire(o);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(long long* g) {
    uint8_t* b = (uint8_t*)g;
    if (!active()) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    sync_point(PC);
    while (b[1] && !b[0]) block(W_GUARD, g, -1);
    if (b[0]) { race_acquire(g); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    uint8_t* b = (uint8_t*)g;
    b[0]       = 1;
    b[1]       = 0;
    if (!active()) return;
    race_release(g, false);
    wake_waiters(g, W_GUARD);
}
void __cxa_guard_abort(long long* g) {
    ((uint8_t*)g)[1] = 0;
    if (active()) wake_waiters(g, W_GUARD);
}
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
    if (!G->in_run) return 0;
    Fiber* f = G->cur;
    if (f->ndtors < 32) f->dtors[f->ndtors++] = TlsDtor{fn, obj};
    return 0;
}

int __cxa_atexit(void (*fn)(void*), void* obj, void* dso) {
    if (G->in_run) return 0;   // destructors of statics created in a run never execute: the run's memory is discarded
    typedef int (*real_t)(void (*)(void*), void*, void*);
    static real_t real = (real_t)dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(fn, obj, dso);
}
int clock_gettime(clockid_t k, struct timespec* ts) {
    if (!G->in_run) {
        // Statics that look at the clock before the first run must not make processes differ
        ts->tv_sec  = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? 1700000000 : 1;
        ts->tv_nsec = 0;
        return 0;
    }
    if (active()) sync_point(PC);
    G->now += 20;
    int64_t t   = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? real_ns() : G->now;
    ts->tv_sec  = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
    if (!G->in_run) return (int)raw_syscall(SYS_nanosleep, (long)r, (long)rem);
    if (r->tv_sec < 0) { errno = EINVAL; return -1; }
    int64_t s = r->tv_sec > 1000000000 ? 1000000000 : r->tv_sec;
    sleep_ns(s * 1000000000 + r->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* r, struct timespec* rem) {
    if (!G->in_run) return (int)raw_syscall(SYS_clock_nanosleep, k, flags, (long)r, (long)rem);
    int64_t t = r->tv_sec * 1000000000LL + r->tv_nsec;
    if (flags & TIMER_ABSTIME) t -= k == CLOCK_REALTIME ? real_ns() : now_ns();
    sleep_ns(t);
    return 0;
}
int usleep(useconds_t us) { sleep_ns((int64_t)us * 1000); return 0; }
unsigned sleep(unsigned s) { sleep_ns((int64_t)s * 1000000000); return 0; }
void abort() {
    if (G->in_run) {
        // std::terminate, a failed assertion, a pure virtual call
        fail("abort", "the program aborted (terminate or assertion) in thread %d", G->cur->id);
    }
    raw_syscall(SYS_exit_group, 134);
    __builtin_unreachable();
}
}
