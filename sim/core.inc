// Fibers, scheduling decisions, simulated time.
namespace sim {

extern "C" void sim_switch(void** save, void* to, uint64_t fsbase);
extern "C" void sim_capture(void** save);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  wrfsbase %rdx
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_capture
.type sim_capture,@function
sim_capture:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  subq $4096, %rsp
1:
  movl $34, %eax
  syscall
  jmp 1b
.size sim_capture,.-sim_capture
)");

long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8")   = e;
    register long r9 asm("r9")   = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
static inline void trace(uint64_t v) { G->trace_hash = mix(G->trace_hash, v); }

void* halloc(size_t n) {
    n           = (n + 15) & ~size_t(15);
    uintptr_t p = G->harena_top;
    if (p + n > HARENA_BASE + HARENA_SIZE) { fail_infra("harness arena exhausted"); }
    G->harena_top = p + n;
    return (void*)p;
}

// ---------------------------------------------------------------- decisions
static inline uint64_t dkey(int kind, int fiber) { return ((uint64_t)kind << 8) | (uint64_t)fiber; }

static DecSlot* dfind(uint64_t key, uint64_t ctr, bool make) {
    uint64_t h = mix(key * 0x9E3779B97F4A7C15ULL, ctr);
    for (uint32_t i = 0; i < G->dtab_size; ++i) {
        DecSlot* s = &G->dtab[(h + i) & (G->dtab_size - 1)];
        if (s->run == 0) {
            if (!make) return nullptr;
            s->key = key; s->ctr = ctr; s->run = 1;
            return s;
        }
        if (s->key == key && s->ctr == ctr) return s;
    }
    return nullptr;
}

// In replay: consumes the identity and says whether the log holds a value for it.
static inline bool replayed(int kind, uint64_t* val) {
    Fiber* f     = G->cur;
    uint64_t ctr = f->ctr[kind]++;
    if (!G->replaying) return false;
    DecSlot* s = dfind(dkey(kind, f->id), ctr, false);
    *val       = s ? s->val : 0;
    return true;
}
static inline void rec_at(int kind, int fiber, uint64_t ctr, uint64_t val) {
    if (val == 0) return;
    if (G->ndec < MAXDEC) G->dec[G->ndec++] = Dec{kind, fiber, ctr, val};
    else G->dec_overflow = true;
    trace(mix(dkey(kind, fiber), mix(ctr, val)));
}
// Record under the identity consumed by the last replayed() call of this kind on the current fiber
void record(int kind, uint64_t val) { rec_at(kind, G->cur->id, G->cur->ctr[kind] - 1, val); }

template <typename S>
static inline uint64_t decide(int kind, S sampler) {
    uint64_t v;
    if (!replayed(kind, &v)) v = sampler();
    record(kind, v);
    return v;
}

void fault_count(const char* kind, uint64_t n) {
    for (int i = 0; i < G->nfaultc; ++i)
        if (G->faultc[i].name == kind || !strcmp(G->faultc[i].name, kind)) { G->faultc[i].n += n; return; }
    if (G->nfaultc < MAXFAULTKINDS) G->faultc[G->nfaultc++] = {kind, n};
}
void count_fault(const char* kind, uint64_t n) { fault_count(kind, n); }
void probe(const char* name) {
    for (int i = 0; i < G->nprobes; ++i)
        if (!strcmp(G->probes[i].name, name)) { G->probes[i].n++; return; }
    if (G->nprobes < MAXFAULTKINDS) G->probes[G->nprobes++] = {name, 1};
}

uint64_t choose(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v = decide(K_WORK, [&] { return G->r_work.below(n); });
    return v < n ? v : v % n;
}
bool chance(unsigned num, unsigned den) {
    return decide(K_WORK, [&] { return (uint64_t)G->r_work.chance(num, den); }) != 0;
}
uint64_t pick_log(uint64_t lo, uint64_t hi) {
    if (hi <= lo) return lo;
    uint64_t v = decide(K_WORK, [&]() -> uint64_t {
        double a = __builtin_log((double)(lo ? lo : 1)), b = __builtin_log((double)hi + 1);
        double x = a + (b - a) * ((double)(G->r_work.next() >> 11) / 9007199254740992.0);
        uint64_t r = (uint64_t)__builtin_exp(x);
        if (r < lo) r = lo;
        if (r > hi) r = hi;
        return r - lo;
    });
    return lo + v > hi ? hi : lo + v;
}
bool fault(const char* kind, unsigned num, unsigned den) {
    if (!G->faults) return false;
    bool v = decide(K_FAULT, [&] { return (uint64_t)G->r_fault.chance(num, den); }) != 0;
    if (v) fault_count(kind, 1);
    return v;
}
uint64_t fault_value(uint64_t n) {
    if (n <= 1) return 0;
    uint64_t v = decide(K_FVAL, [&] { return G->r_fault.below(n); });
    return v < n ? v : v % n;
}
void stop_faults() { G->faults = false; }
bool faults_on() { return G->faults; }

// ---------------------------------------------------------------- verdicts
static void vset(const char* cls, const char* fmt, __builtin_va_list ap) {
    strncpy(G->fail_cls, cls, sizeof G->fail_cls - 1);
    vsnprintf(G->fail_msg, sizeof G->fail_msg, fmt, ap);
}
void fail(const char* cls, const char* fmt, ...) {
    if (!G->failed) {
        __builtin_va_list ap;
        __builtin_va_start(ap, fmt);
        Quiet q;
        vset(cls, fmt, ap);
        __builtin_va_end(ap);
        G->failed = true;
    }
    finish_run();
}
void fail_infra(const char* fmt, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, fmt);
    {
        Quiet q;
        vset("infra", fmt, ap);
    }
    __builtin_va_end(ap);
    G->infra = true;
    finish_run();
}
// Debugging aid: return addresses on the stacks of the fibers that have not ended
extern char x_start asm("__executable_start"), x_end asm("etext");
static bool in_text(uintptr_t a) { return a > (uintptr_t)&x_start && a < (uintptr_t)&x_end; }
static void dump_stacks() {
    static bool on = getenv("SIM_BT") != nullptr;
    if (!on || !(G->failed || G->infra)) return;
    Quiet q;
    for (int i = 0; i < G->created; ++i) {
        Fiber& f = G->f[i];
        if (f.state == DONE) continue;
        fprintf(stderr, "stack of t%d:\n", i);
        uintptr_t* p = &f == G->cur ? (uintptr_t*)(G->sig_rsp ? G->sig_rsp : __builtin_frame_address(0)) : (uintptr_t*)f.rsp;
        uintptr_t* e = (uintptr_t*)(((uintptr_t)p + STACK_SIZE) & ~(STACK_SIZE - 1));
        for (int n = 0; p < e && n < 120; ++p)
            if (in_text(*p)) { fprintf(stderr, " pc 0x%lx\n", (unsigned long)*p); ++n; }
    }
}
void finish_run() {
    dump_stacks();
    G->in_run = false;
    G->cur    = &G->idle_fiber;
    void* dummy;
    sim_switch(&dummy, G->drv_rsp, G->drv_fs);
    __builtin_unreachable();
}
void note(uint64_t v) { G->notes++; trace(mix(0x1234567, v)); }
void nontrivial() { G->is_nontrivial = true; }
void sample(const char* fmt, ...) {
    Quiet q;
    int left = (int)sizeof G->samples - G->nsamples - 2;
    if (left < 16) return;
    __builtin_va_list ap;
    __builtin_va_start(ap, fmt);
    int n = vsnprintf(G->samples + G->nsamples, (size_t)left, fmt, ap);
    __builtin_va_end(ap);
    if (n > left) n = left;
    G->nsamples += n;
    G->samples[G->nsamples++] = '\n';
    G->samples[G->nsamples]   = 0;
}

Quiet::Quiet() { G->cur->quiet++; }
Quiet::~Quiet() { G->cur->quiet--; }

// ---------------------------------------------------------------- time and timers
static bool tless(const Timer& a, const Timer& b) { return a.at != b.at ? a.at < b.at : a.seq < b.seq; }
void add_timer(int64_t at, void (*fn)(void*), void* arg) {
    if (G->ntimers >= MAXTIMERS) fail_infra("timer heap full");
    int i          = G->ntimers++;
    G->timers[i]   = Timer{at, ++G->timer_seq, fn, arg};
    while (i > 0 && tless(G->timers[i], G->timers[(i - 1) / 2])) {
        Timer t = G->timers[i]; G->timers[i] = G->timers[(i - 1) / 2]; G->timers[(i - 1) / 2] = t;
        i = (i - 1) / 2;
    }
    if (at < G->next_due) G->next_due = at;
}
static Timer pop_timer() {
    Timer r      = G->timers[0];
    G->timers[0] = G->timers[--G->ntimers];
    int i        = 0;
    for (;;) {
        int l = 2 * i + 1, m = i;
        if (l < G->ntimers && tless(G->timers[l], G->timers[m])) m = l;
        if (l + 1 < G->ntimers && tless(G->timers[l + 1], G->timers[m])) m = l + 1;
        if (m == i) break;
        Timer t = G->timers[i]; G->timers[i] = G->timers[m]; G->timers[m] = t;
        i = m;
    }
    return r;
}
int64_t next_event_time() {
    int64_t t = INT64_MAX;
    if (G->ntimers) t = G->timers[0].at;
    for (int i = 0; i < G->created; ++i) {
        Fiber& f = G->f[i];
        if ((f.state == BLOCKED || f.state == STALLED) && f.deadline >= 0 && f.deadline < t) t = f.deadline;
    }
    return t;
}
void make_runnable(Fiber* f, int reason) {
    f->state       = RUNNABLE;
    f->wake_reason = reason;
    f->wait_kind   = W_NONE;
    f->wait_obj    = nullptr;
    f->deadline    = -1;
    if (G->st.type == ST_PCT && !G->replaying && f->prio > G->cur->prio) G->cur->sync_gap = 0;
}
// Fire everything that is due. Never switches fibers.
void process_time() {
    while (true) {
        // timers first, then deadlines, each in time order
        int64_t td = INT64_MAX;
        Fiber* df  = nullptr;
        for (int i = 0; i < G->created; ++i) {
            Fiber& f = G->f[i];
            if ((f.state == BLOCKED || f.state == STALLED) && f.deadline >= 0
                && (f.deadline < td || (f.deadline == td && df && f.wait_seq < df->wait_seq))) {
                td = f.deadline; df = &f;
            }
        }
        int64_t tt = G->ntimers ? G->timers[0].at : INT64_MAX;
        int64_t t  = tt < td ? tt : td;
        if (t > G->now) { G->next_due = t; return; }
        if (tt <= td) {
            Timer x = pop_timer();
            x.fn(x.arg);
        }
        else {
            make_runnable(df, df->state == STALLED ? R_NONE : (df->spur ? R_SPURIOUS : R_TIMEOUT));
        }
    }
}
int64_t now_ns() { return G->now; }
int64_t real_ns() { return G->now + G->real_off; }
void jump_realtime(int64_t d) {
    Quiet q;
    G->real_off += d;
    fault_count(d < 0 ? "clock-jump-back" : "clock-jump-forward", 1);
    for (int i = 0; i < G->created; ++i) {
        Fiber& f = G->f[i];
        if (f.state == BLOCKED && f.deadline >= 0 && f.deadline_clock == 0 && !f.spur) {
            f.deadline = f.abs_deadline - G->real_off;
            if (f.deadline < G->now) f.deadline = G->now;
        }
    }
    G->next_due = next_event_time();
    trace(mix(77, (uint64_t)d));
}

// ---------------------------------------------------------------- scheduling
static void deadlock();

static void switch_to(Fiber* n, uint64_t pc) {
    Fiber* o = G->cur;
    if (n == o) return;
    G->switches++;
    G->sched_hash = mix(G->sched_hash, mix((uint64_t)o->id * 64 + (uint64_t)n->id, pc));
    trace(mix(o->ops, (uint64_t)n->id));
    uint64_t ph = mix(pc, n->last_pc) & ((1u << 19) - 1);
    G->pairmap[ph >> 3] |= (uint8_t)(1u << (ph & 7));
    o->last_pc   = pc;
    o->run_syncs = 0;
    n->run_syncs = 0;
    G->cur       = n;
    sim_switch(&o->rsp, n->rsp, n->fsbase);
}

static int runnable_list(Fiber** out, Fiber* except) {
    // in cyclic order after the current fiber, so index 0 is the fair default
    int n  = 0;
    int c  = G->cur->id;
    int nf = G->created;
    for (int k = 1; k <= nf; ++k) {
        Fiber* f = &G->f[(c + k) % nf];
        if (f != except && f->state == RUNNABLE) out[n++] = f;
    }
    return n;
}

// Pick who runs next among `n` candidates; value recorded is the index.
static Fiber* pick_next(Fiber** c, int n) {
    if (n == 1) return c[0];
    uint64_t v = decide(K_NEXT, [&]() -> uint64_t {
        if (G->st.type == ST_PCT && !G->fair) {
            int b = 0;
            for (int i = 1; i < n; ++i)
                if (c[i]->prio > c[b]->prio) b = i;
            return (uint64_t)b;
        }
        return G->r_sched.below((uint64_t)n);
    });
    return c[v % (uint64_t)n];
}

// The current fiber cannot (or does not want to) go on.
void schedule_next(bool yielding) {
    Fiber* me = G->cur;
    Fiber* c[MAXF];
    for (;;) {
        if (G->now >= G->next_due) process_time();
        int n = runnable_list(c, yielding ? me : nullptr);
        if (n > 0) {
            Fiber* nx = pick_next(c, n);
            switch_to(nx, (uint64_t)me->wait_kind * 4 + 2);
            return;
        }
        if (yielding) {
            // A thread that yields while nobody else can run is waiting for time to pass
            int64_t t = next_event_time();
            if (t > G->now + 5000) t = G->now + 5000;
            if (t > G->now) G->now = t;
            if (G->now >= G->next_due) process_time();
            return;
        }
        // Nobody can run: jump to the next event
        int64_t t = next_event_time();
        // quiescence waiters run when nothing but idle waiting is left
        Fiber* q = nullptr;
        for (int i = 0; i < G->created; ++i)
            if (G->f[i].state == BLOCKED && G->f[i].wait_kind == W_QUIESCE) { q = &G->f[i]; break; }
        if (q) {
            bool others = G->ntimers > 0;
            for (int i = 0; i < G->created && !others; ++i) {
                Fiber& f = G->f[i];
                if (&f != q && (f.state == BLOCKED || f.state == STALLED) && f.deadline >= 0) others = true;
            }
            if (!others) { make_runnable(q, R_SIGNAL); continue; }
        }
        if (t == INT64_MAX) { deadlock(); }
        if (t > G->now) G->now = t;
        process_time();
    }
}

void block(WaitKind k, void* obj, int64_t deadline, int clock, int64_t absd) {
    Fiber* f          = G->cur;
    f->state          = BLOCKED;
    f->wait_kind      = k;
    f->wait_obj       = obj;
    f->deadline       = deadline;
    f->deadline_clock = clock;
    f->abs_deadline   = absd;
    f->wake_reason    = R_NONE;
    f->wait_seq       = ++G->wait_seq;
    if (deadline >= 0 && deadline < G->next_due) G->next_due = deadline;
    schedule_next(false);
}

static const char* wk_name(int k) {
    static const char* const n[] = {"-", "mutex", "condition", "join", "sleep", "io", "quiescence", "static-init", "once"};
    return n[k];
}
void dump_state(char* out, size_t cap) {
    size_t o = 0;
    for (int i = 0; i < G->created && o + 120 < cap; ++i) {
        Fiber& f = G->f[i];
        if (f.state == DONE) continue;
        o += (size_t)snprintf(out + o, cap - o, "t%d:%s%s%s ", i,
                              f.state == RUNNABLE ? "runnable" : f.state == STALLED ? "stalled" : "waits-for-",
                              f.state == BLOCKED ? wk_name(f.wait_kind) : "",
                              f.state == BLOCKED && f.deadline >= 0 ? "(timed)" : "");
    }
    out[o] = 0;
}
static void deadlock() {
    char st[1500];
    {
        Quiet q;
        dump_state(st, sizeof st);
    }
    fail("hang", "nothing can ever run again: %s", st);
}
static void over_budget() {
    char st[1500];
    {
        Quiet q;
        dump_state(st, sizeof st);
    }
    fail("hang", "no end after %llu scheduling points (the last half scheduled fairly, without faults), at %lld ns: %s",
         (unsigned long long)G->steps, (long long)G->now, st);
}

static void do_preempt(Fiber* f, uint64_t pc, uint64_t val) {
    // val: low byte target+1 (0xff: only jump), rest stall
    uint64_t tgt = val & 0xff, stall = val >> 8;
    if (tgt == 0xff) {
        int64_t t = next_event_time();
        if (t != INT64_MAX && t > G->now && t - G->now < G->max_stall) {
            G->now = t;
            G->jumps++;
            fault_count("slow-cpu", 1);
            process_time();
        }
        return;
    }
    Fiber* n = tgt >= 1 && tgt <= (uint64_t)G->created ? &G->f[tgt - 1] : nullptr;
    if (n == nullptr || n->state != RUNNABLE || n == f) return;
    G->preempts++;
    if (stall > 0) {
        f->state    = STALLED;
        f->deadline = G->now + (int64_t)stall;
        f->wait_seq = ++G->wait_seq;
        if (f->deadline < G->next_due) G->next_due = f->deadline;
        G->stalls++;
        fault_count("thread-stall", 1);
    }
    switch_to(n, pc);
}

static uint64_t sample_preempt(Fiber* f) {
    Fiber* c[MAXF];
    int n = runnable_list(c, f);
    if (G->st.jump_pm && !G->fair && G->faults && G->max_stall > 0 && G->r_sched.chance(G->st.jump_pm, 1000)) return 0xff;
    if (n == 0) return 0;
    Fiber* t;
    if (G->st.type == ST_PCT && !G->fair) {
        t = c[0];
        for (int i = 1; i < n; ++i)
            if (c[i]->prio > t->prio) t = c[i];
        if (t->prio < f->prio) return 0;
    }
    else {
        t = c[G->r_sched.below((uint64_t)n)];
    }
    uint64_t stall = 0;
    if (G->st.stall_pm && !G->fair && G->faults && G->max_stall > 0 && G->r_sched.chance(G->st.stall_pm, 1000)) {
        // heavy tail around the scale
        uint64_t s = G->r_sched.gap((uint64_t)G->st.stall_scale);
        if (G->r_sched.chance(1, 8)) s *= 30;
        if (s > (uint64_t)G->max_stall) s = (uint64_t)G->max_stall;
        stall = s;
    }
    return (uint64_t)(t->id + 1) | (stall << 8);
}

static void next_replay_stop(Fiber* f) {
    int i = G->rp_i[f->id];
    while (i < G->rp_n[f->id] && G->rp_ops[f->id][i] <= f->ops) ++i;
    G->rp_i[f->id] = i;
    f->next_stop   = i < G->rp_n[f->id] ? G->rp_ops[f->id][i] : UINT64_MAX;
}

// f->ops reached f->next_stop
void plain_stop(Fiber* f, uint64_t pc) {
    if (G->replaying) {
        uint64_t op = f->ops;
        next_replay_stop(f);
        DecSlot* s = dfind(dkey(K_PREEMPT, f->id), op, false);
        if (s) {
            // A shortened trace can have what stood before the end of the faults behind it
            uint64_t v = s->val;
            if (G->fair || !G->faults) v = (v & 0xff) == 0xff ? 0 : v & 0xff;
            rec_at(K_PREEMPT, f->id, op, v);
            do_preempt(f, pc, v);
        }
        return;
    }
    f->next_stop = f->ops + (G->st.plain_mean ? G->r_sched.gap(G->st.plain_mean) : UINT64_MAX / 2);
    if (G->fair || !G->plain_ok) { f->next_stop = UINT64_MAX; return; }
    uint64_t v = sample_preempt(f);
    if (v) {
        rec_at(K_PREEMPT, f->id, f->ops, v);
        do_preempt(f, pc, v);
    }
}

static void resample_gap(Fiber* f) {
    uint64_t m  = G->fair ? 64 : G->st.sync_mean;
    f->sync_gap = m ? (int64_t)G->r_sched.gap(m) : INT64_MAX / 2;
}

void sync_point(uint64_t pc) {
    Fiber* f = G->cur;
    if (f->quiet) return;
    f->ops++;
    f->syncs++;
    f->run_syncs++;
    G->now += G->step_ns;
    if (UNLIKELY(++G->steps >= G->budget / 2)) {
        if (G->steps == G->budget / 2) {
            G->fair = true; G->faults = false;
            for (int i = 0; i < G->created; ++i) resample_gap(&G->f[i]);
        }
        if (G->steps >= G->budget) over_budget();
    }
    if (UNLIKELY(G->now >= G->next_due)) process_time();
    if (G->replaying) {
        if (UNLIKELY(f->ops >= f->next_stop)) plain_stop(f, pc);
    }
    else {
        bool pre = false;
        if (UNLIKELY(f->ops >= f->next_stop)) {
            f->next_stop = f->ops + (G->st.plain_mean ? G->r_sched.gap(G->st.plain_mean) : UINT64_MAX / 2);
            pre          = true;
        }
        if (--f->sync_gap <= 0) { pre = true; resample_gap(f); }
        if (G->st.type == ST_HOT && !G->fair && (mix(pc, G->st.hot_salt) & G->st.hot_mask) == 0)
            pre = G->r_sched.chance(1, 2) || pre;
        if (G->st.type == ST_PCT && !G->fair) {
            for (int i = 0; i < G->st.pct_depth; ++i)
                if (G->st.pct_points[i] == G->steps) { f->prio = --G->prio_low; pre = true; }
        }
        if (UNLIKELY(pre)) {
            uint64_t v = sample_preempt(f);
            if (v) {
                rec_at(K_PREEMPT, f->id, f->ops, v);
                do_preempt(f, pc, v);
            }
        }
    }
    if (UNLIKELY(f->run_syncs > G->spin_max)) {
        // A thread that spins does not keep the processor for ever
        f->run_syncs = 0;
        if (G->st.type == ST_PCT) f->prio = --G->prio_low;
        schedule_next(true);
    }
}
}  // namespace sim
