// Internal state of the simulator. Everything that must survive the per-run memory restore lives in one
// region at a fixed address (G), outside the snapshot.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include <pthread.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include "sim.hpp"

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {

constexpr uintptr_t GLOBAL_BASE = 0x200000000000ULL;
constexpr uintptr_t HARENA_BASE = 0x208000000000ULL;   // harness allocations, reset per run
constexpr size_t HARENA_SIZE    = 1ULL << 30;
constexpr uintptr_t ARENA_BASE  = 0x210000000000ULL;   // the program's heap
constexpr size_t ARENA_SIZE     = 1ULL << 30;
constexpr uintptr_t SHADOW_BASE = 0x220000000000ULL;   // 1 byte per 8
constexpr uintptr_t RACE_BASE   = 0x230000000000ULL;   // 32 bytes per 8
constexpr uintptr_t RACEG_BASE  = 0x238000000000ULL;   // same, for the executable's data
constexpr uintptr_t STACK_BASE  = 0x240000000000ULL;
constexpr size_t STACK_SIZE     = 1ULL << 20;
constexpr uintptr_t SNAP_BASE   = 0x250000000000ULL;
constexpr int MAXF              = 64;

enum State : int { FREE, RUNNABLE, BLOCKED, STALLED, DONE };
enum WaitKind : int { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_IO, W_QUIESCE, W_GUARD, W_ONCE };
enum WakeReason : int { R_NONE, R_SIGNAL, R_TIMEOUT, R_SPURIOUS };

enum Kind : int {
    K_PREEMPT,   // at fiber's op #n: switch to (val&0xff)-1, stall for val>>8 ns
    K_NEXT,      // fiber blocked or yielded: who is next
    K_WAKE,      // which waiter a signal wakes
    K_SPUR,      // spurious wakeup after val ns
    K_WORK,      // scenario choice
    K_FAULT,     // fault fires
    K_FVAL,      // fault parameter
    K_JUMP,      // time jump while threads are runnable
    K_COUNT
};

struct VC { uint32_t c[MAXF]; };

struct TlsDtor { void (*fn)(void*); void* obj; };

struct Fiber {
    // hot
    uint64_t ops;
    uint64_t next_stop;
    int quiet;
    int id;
    int64_t sync_gap;
    uint64_t run_syncs;
    int state;
    int wait_kind;
    void* wait_obj;
    int64_t deadline;      // simulated monotonic ns, -1 none
    int deadline_clock;    // CLOCK_MONOTONIC or CLOCK_REALTIME (deadline is recomputed on a realtime jump)
    int64_t abs_deadline;  // in its own clock
    int wake_reason;
    int spur;
    uint64_t prio;
    uint64_t syncs;
    uint64_t wait_seq;
    uint64_t last_pc;
    int node;
    bool created, detached, joined, exited;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    void* rsp;
    void* init_rsp;
    uint64_t fsbase;
    pthread_t self;
    uint32_t ctr[K_COUNT];
    TlsDtor dtors[32];
    int ndtors;
    VC vc, acq_pending, rel_fence;
    bool has_acq_pending, has_rel_fence;
};

struct Dec { int kind; int fiber; uint64_t ctr; uint64_t val; };
constexpr int MAXDEC = 400000;

struct Rng {
    uint64_t s[4];
    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void seed(uint64_t x) { for (auto& v : s) v = splitmix(x); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() {
        const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)next() * n) >> 64); }
    bool chance(unsigned a, unsigned b) { return below(b) < a; }
    // geometric-ish gap with the given mean, >= 1
    uint64_t gap(uint64_t mean) {
        if (mean <= 1) return 1;
        // -ln(u) * mean via log2 approximation on integers
        uint64_t u = next() >> 11;
        double x   = (double)(u + 1) / 9007199254740993.0;
        double g   = -__builtin_log(x) * (double)mean;
        return 1 + (uint64_t)g;
    }
};

enum StratType : int { ST_RW, ST_PLAIN, ST_PCT, ST_HOT, ST_NONE, ST_FAIR };
struct Strat {
    int type;
    uint64_t sync_mean;     // mean distance of preemptions in synchronisation operations
    uint64_t plain_mean;    // 0: none
    unsigned stall_pm;      // per mille of preemptions that stall the preempted thread
    int64_t stall_scale;    // ns
    uint64_t hot_mask, hot_salt;
    int pct_depth;
    uint64_t pct_points[8];
    unsigned jump_pm;       // per mille of preemptions that jump time to the next timer
};

struct SyncVar { uintptr_t addr; uint32_t run; VC vc; };
constexpr uint32_t SYNC_TAB = 1 << 14;

struct FaultCount { const char* name; uint64_t n; };
constexpr int MAXFAULTKINDS = 64;

struct Timer { int64_t at; uint64_t seq; void (*fn)(void*); void* arg; };
constexpr int MAXTIMERS = 65536;

struct DecSlot { uint64_t key; uint64_t ctr; uint64_t val; uint32_t run; };

struct Global {
    Fiber* cur;
    Fiber idle_fiber;      // stands in when no run is active
    Fiber f[MAXF];
    int nfibers_ready;
    bool in_run;
    bool plain_ok;         // plain accesses may be scheduling points
    bool race;
    bool faults;
    bool replaying;
    bool aborting;
    uint32_t run_no;
    uint64_t seed;
    // time
    int64_t now, real_off, step_ns;
    int64_t sim_start;
    Timer timers[MAXTIMERS];
    int ntimers;
    int64_t next_due;      // earliest of timers and deadlines (cached lower bound)
    uint64_t timer_seq;
    // schedule
    Strat st;
    uint64_t steps, budget, spin_max;
    int64_t max_stall;
    bool fair;
    unsigned spur_num, spur_den;
    Rng r_work, r_sched, r_fault;
    uint64_t prio_low;
    uint64_t evseq;
    uint64_t trace_hash, sched_hash;
    uint64_t switches, preempts, stalls, jumps;
    // decisions
    Dec dec[MAXDEC];
    int ndec;
    bool dec_overflow;
    DecSlot* dtab;         // replay table
    uint32_t dtab_size;
    uint64_t* rp_ops[MAXF];   // replay: sorted preempt positions per fiber
    int rp_n[MAXF], rp_i[MAXF];
    // verdict
    bool failed;
    char fail_cls[64];
    char fail_msg[4096];
    bool infra;            // simulator limit reached: not a verdict
    bool is_nontrivial;
    uint64_t notes;
    char samples[8192];
    int nsamples;
    // stats
    FaultCount faultc[MAXFAULTKINDS];
    int nfaultc;
    FaultCount probes[MAXFAULTKINDS];
    int nprobes;
    // accumulated over runs (worker)
    FaultCount tot_fault[MAXFAULTKINDS];
    int ntot_fault;
    FaultCount tot_probe[MAXFAULTKINDS];
    int ntot_probe;
    uint8_t pairmap[1 << 16];
    // memory
    uintptr_t arena_top, arena_base_top;   // bump
    uintptr_t harena_top;
    uint64_t alloc_id, live_n, live_b, alloc_total;
    int reuse;             // 0 never, 1 LIFO
    void* freelist[64];
    struct { size_t size; void* head; } big[32];      // freed blocks above 1 KiB, used again only when the arena gets full
    uintptr_t data_lo, data_hi;
    // race
    SyncVar* sync;
    uint64_t sync_used;
    bool race_all;         // report every race, not only those on tracked memory
    // driver context
    void* sig_rsp;
    void* drv_rsp;
    uint64_t drv_fs;
    // waiters
    uint64_t wait_seq;
    int created, ended;
    // tracked regions outside the heap
    struct { uintptr_t lo, hi; } tr[32];
    int ntr;
    char logbuf[1 << 16];
    void* user[16];
};
static Global* const G = reinterpret_cast<Global*>(GLOBAL_BASE);

// core
void sync_point(uint64_t pc);
void plain_stop(Fiber* f, uint64_t pc);
[[noreturn]] void finish_run();
void block(WaitKind k, void* obj, int64_t deadline, int clock = 1, int64_t absd = 0);
void make_runnable(Fiber* f, int reason);
void schedule_next(bool yielding);
int64_t next_event_time();
void process_time();
void add_timer(int64_t at, void (*fn)(void*), void* arg);
bool ask(int kind, uint64_t* val);
void record(int kind, uint64_t val);
void wake_io();
void* halloc(size_t n);
void fail_infra(const char* fmt, ...);
void vc_join(VC& a, const VC& b);
void race_acquire(void* addr);
void race_release(void* addr, bool join);
void hb_thread_create(Fiber* parent, Fiber* child);
inline bool active() { return G->in_run && !G->cur->quiet; }
inline void step_syscall(int64_t ns) { G->now += ns; }
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
void fault_count(const char* kind, uint64_t n);
void net_reset();

}  // namespace sim
#endif
