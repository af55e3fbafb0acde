// The ThreadSanitizer ABI: every instrumented access of the program under test comes here.
namespace sim {

static inline bool in_arena(uintptr_t p) { return p - ARENA_BASE < ARENA_SIZE; }
static inline uint8_t* shadow(uintptr_t p) { return (uint8_t*)(SHADOW_BASE + ((p - ARENA_BASE) >> 3)); }
enum : uint8_t { SH_NONE = 0, SH_FREED = 0xFD, SH_TRACK = 0x40, SH_MASK = 0x0F };

struct BlockHdr { uint64_t size; uint32_t magic; uint32_t flags; uint64_t id; void* site; };
static_assert(sizeof(BlockHdr) == 32, "");
constexpr uint32_t MAGIC_LIVE = 0xA110C8ED, MAGIC_DEAD = 0xDEADB10C;

static void describe_addr(uintptr_t p, char* out, size_t cap) {
    // walk back to the block header
    for (uintptr_t q = p & ~uintptr_t(15), n = 0; n < 65536 && q >= ARENA_BASE + 32; q -= 16, ++n) {
        BlockHdr* h = (BlockHdr*)(q - sizeof(BlockHdr));
        if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_DEAD) && h->size < ARENA_SIZE && q <= p) {
            snprintf(out, cap, "%lld bytes into a %s block of %llu bytes allocated at pc %p", (long long)(p - q),
                     h->magic == MAGIC_LIVE ? "live" : "freed", (unsigned long long)h->size, h->site);
            return;
        }
    }
    snprintf(out, cap, "unknown heap address");
}

__attribute__((noinline, cold)) static void bad_access(uintptr_t p, size_t n, bool w, uint64_t pc) {
    char d[256];
    {
        Quiet q;
        describe_addr(p, d, sizeof d);
    }
    uint8_t s = *shadow(p);
    fail(s == SH_FREED ? "use-after-free" : "out-of-bounds", "%s of %zu bytes at pc 0x%llx: %s", w ? "write" : "read", n,
         (unsigned long long)pc, d);
}

static inline void check_access(uintptr_t p, size_t n, bool w, uint64_t pc) {
    // small accesses: at most two granules
    uint8_t s = *shadow(p) & 0xBF;
    if (LIKELY(s == 8)) {
        if (UNLIKELY((p & 7) + n > 8)) {
            uintptr_t e = p + n - 1;
            for (uintptr_t q = (p & ~uintptr_t(7)) + 8; q <= e; q += 8) {
                uint8_t t = *shadow(q) & 0xBF;
                if (t != 8 && (t > 8 || (e - q >= t && q + t <= e))) bad_access(q, n, w, pc);
            }
        }
        return;
    }
    if (s == 0 || s > 8 || (p & 7) + n > s) bad_access(p, n, w, pc);
}
static void check_range(uintptr_t p, size_t n, bool w, uint64_t pc) {
    if (n == 0 || !in_arena(p)) return;
    uintptr_t e = p + n;
    for (uintptr_t q = p & ~uintptr_t(7); q < e; q += 8) {
        uint8_t t    = *shadow(q) & 0xBF;
        size_t hi    = e - q < 8 ? (size_t)(e - q) : 8;
        if (t > 8 || t < hi) bad_access(q < p ? p : q, n, w, pc);
    }
}

// ---------------------------------------------------------------- happens-before
// Shadow cell: run:16 | clock:24 | tid:6 | write:1 | atomic:1 | mask:8  (8 unused)
struct Cell { uint64_t v; };
static inline uint64_t mkcell(uint32_t run, uint32_t clk, int tid, bool w, bool at, uint8_t mask) {
    return ((uint64_t)(run & 0xffff) << 40) | ((uint64_t)(clk & 0xffffff) << 16) | ((uint64_t)tid << 10)
           | ((uint64_t)w << 9) | ((uint64_t)at << 8) | mask;
}
static SyncVar* syncvar(uintptr_t a, bool make) {
    uint64_t h = (a >> 2) * 0x9E3779B97F4A7C15ULL >> 40;
    for (uint32_t i = 0; i < SYNC_TAB; ++i) {
        SyncVar* s = &G->sync[(h + i) & (SYNC_TAB - 1)];
        if (s->run != G->run_no) {
            if (!make) return nullptr;
            if (++G->sync_used > SYNC_TAB * 3 / 4) fail_infra("too many synchronisation objects");
            s->run = G->run_no; s->addr = a;
            memset(&s->vc, 0, sizeof s->vc);
            return s;
        }
        if (s->addr == a) return s;
    }
    return nullptr;
}
void vc_join(VC& a, const VC& b) {
    int n = G->created;
    for (int i = 0; i < n; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static void vc_tick(Fiber* f) { f->vc.c[f->id]++; }
void race_acquire(void* addr) {
    if (!G->race) return;
    if (SyncVar* s = syncvar((uintptr_t)addr, false)) vc_join(G->cur->vc, s->vc);
}
void race_release(void* addr, bool join) {
    if (!G->race) return;
    SyncVar* s = syncvar((uintptr_t)addr, true);
    if (join) vc_join(s->vc, G->cur->vc);
    else s->vc = G->cur->vc;
    vc_tick(G->cur);
}
void hb_thread_create(Fiber* p, Fiber* c) {
    if (!G->race) return;
    c->vc = p->vc;
    c->vc.c[c->id] = 1;
    vc_tick(p);
}

static inline bool mo_acq(int m) { return m == 1 || m == 2 || m == 4 || m == 5; }
static inline bool mo_rel(int m) { return m == 3 || m == 4 || m == 5; }

static void atomic_hb(void* a, bool rd, bool wr, int mo) {
    Fiber* f   = G->cur;
    SyncVar* s = syncvar((uintptr_t)a, wr);
    if (rd && s) {
        if (mo_acq(mo)) vc_join(f->vc, s->vc);
        else {
            if (!f->has_acq_pending) { memset(&f->acq_pending, 0, sizeof(VC)); f->has_acq_pending = true; }
            vc_join(f->acq_pending, s->vc);
        }
    }
    if (wr) {
        if (mo_rel(mo)) {
            if (rd) vc_join(s->vc, f->vc);
            else s->vc = f->vc;
            vc_tick(f);
        }
        else if (f->has_rel_fence) {
            if (rd) vc_join(s->vc, f->rel_fence);
            else s->vc = f->rel_fence;
        }
        else if (!rd) {
            memset(&s->vc, 0, sizeof(VC));  // a relaxed store ends the release sequence
        }
    }
}

__attribute__((noinline, cold)) static void report_race(uintptr_t p, bool w, bool pw, int other, uint64_t pc) {
    char d[300] = "";
    {
        Quiet q;
        if (in_arena(p)) describe_addr(p, d, sizeof d);
        else snprintf(d, sizeof d, "static object at %p", (void*)p);
    }
    fail("data-race", "%s by thread %d at pc 0x%llx is unordered with an earlier %s by thread %d: %s", w ? "write" : "read",
         G->cur->id, (unsigned long long)pc, pw ? "write" : "read", other, d);
}

static inline uint64_t* cells(uintptr_t p) {
    if (in_arena(p)) return (uint64_t*)(RACE_BASE + ((p - ARENA_BASE) >> 3) * 32);
    return (uint64_t*)(RACEG_BASE + ((p - G->data_lo) >> 3) * 32);
}
static bool tracked(uintptr_t p) {
    if (G->race_all) return true;
    if (in_arena(p)) return (*shadow(p) & SH_TRACK) && *shadow(p) != SH_FREED;
    for (int i = 0; i < G->ntr; ++i)
        if (p >= G->tr[i].lo && p < G->tr[i].hi) return true;
    return false;
}
static void race_granule(uintptr_t p, uint8_t mask, bool w, uint64_t pc) {
    if (!tracked(p)) return;
    Fiber* f      = G->cur;
    uint64_t* c   = cells(p);
    uint64_t mine = mkcell(G->run_no, f->vc.c[f->id], f->id, w, false, mask);
    int slot      = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t v = c[i];
        if ((v >> 40) != (G->run_no & 0xffff) || v == 0) {
            if (slot < 0) slot = i;
            continue;
        }
        uint8_t m = (uint8_t)v;
        if (!(m & mask)) continue;
        int tid  = (int)(v >> 10) & 63;
        bool vw  = (v >> 9) & 1;
        uint32_t k = (uint32_t)(v >> 16) & 0xffffff;
        if (tid == f->id) {
            if (m == mask && (vw || !w) && (vw == w)) slot = i;
            else if ((m & ~mask) == 0 && (w || !vw)) slot = i;
            continue;
        }
        if (!(vw || w)) continue;
        if (k > f->vc.c[tid]) report_race(p, w, vw, tid, pc);
        if (w && (m & ~mask) == 0 && slot < 0) slot = i;  // ordered before this write: may be replaced
    }
    if (slot < 0) slot = (int)(f->ops & 3);
    c[slot] = mine;
}
static void race_access(uintptr_t p, size_t n, bool w, uint64_t pc) {
    while (n > 0) {
        size_t off = p & 7, k = 8 - off < n ? 8 - off : n;
        race_granule(p & ~uintptr_t(7), (uint8_t)(((1u << k) - 1) << off), w, pc);
        p += k; n -= k;
    }
}
// The heap hands memory out again: forget what happened to it before
static void race_forget(uintptr_t p, size_t n) {
    if (!G->race) return;
    for (uintptr_t q = p & ~uintptr_t(7); q < p + n; q += 8) memset(cells(q), 0, 32);
}

static inline void plain(const volatile void* a, size_t n, bool w, uint64_t pc) {
    Fiber* f = G->cur;
    if (f->quiet) return;
    uintptr_t p = (uintptr_t)a;
    if (in_arena(p)) {
        check_access(p, n, w, pc);
        if (UNLIKELY(G->race)) race_access(p, n, w, pc);
    }
    else if (UNLIKELY(G->race) && p >= G->data_lo && p < G->data_hi) race_access(p, n, w, pc);
    if (UNLIKELY(++f->ops >= f->next_stop)) plain_stop(f, pc);
}
static void range(const volatile void* a, size_t n, bool w, uint64_t pc) {
    Fiber* f = G->cur;
    if (f->quiet || n == 0) return;
    uintptr_t p = (uintptr_t)a;
    if (in_arena(p)) check_range(p, n, w, pc);
    if (UNLIKELY(G->race) && (in_arena(p) || (p >= G->data_lo && p < G->data_hi))) race_access(p, n, w, pc);
    if (UNLIKELY(++f->ops >= f->next_stop)) plain_stop(f, pc);
}
}  // namespace sim

#define PC ((uint64_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                   \
    void __tsan_read##N(void* a) { sim::plain(a, N, false, PC); }                               \
    void __tsan_write##N(void* a) { sim::plain(a, N, true, PC); }                               \
    void __tsan_unaligned_read##N(void* a) { sim::plain(a, N, false, PC); }                     \
    void __tsan_unaligned_write##N(void* a) { sim::plain(a, N, true, PC); }                     \
    void __tsan_read_write##N(void* a) { sim::plain(a, N, true, PC); }                          \
    void __tsan_volatile_read##N(void* a) { sim::plain(a, N, false, PC); }                      \
    void __tsan_volatile_write##N(void* a) { sim::plain(a, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { sim::range(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { sim::range(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { sim::plain(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { sim::plain(a, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    sim::range(s, n, false, PC);
    sim::range(d, n, true, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    sim::range(s, n, false, PC);
    sim::range(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    sim::range(d, n, true, PC);
    return memset(d, c, n);
}

#define PRE(a, rd, wr, mo)                                                                      \
    if (!sim::G->cur->quiet) {                                                                  \
        sim::sync_point(PC);                                                                    \
        if (sim::in_arena((uintptr_t)(a))) sim::check_access((uintptr_t)(a), sizeof(*(a)), wr, PC); \
        if (UNLIKELY(sim::G->race)) sim::atomic_hb((void*)(a), rd, wr, mo);                      \
    }
#define ATOMICS(B, T)                                                                           \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                    \
        PRE(a, true, false, mo)                                                                 \
        return *a;                                                                              \
    }                                                                                           \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                 \
        PRE(a, false, true, mo)                                                                 \
        *a = v;                                                                                 \
    }                                                                                           \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                 \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = v; return o;                                                             \
    }                                                                                           \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = (T)(o + v); return o;                                                    \
    }                                                                                           \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = (T)(o - v); return o;                                                    \
    }                                                                                           \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = (T)(o & v); return o;                                                    \
    }                                                                                           \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                 \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = (T)(o | v); return o;                                                    \
    }                                                                                           \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = (T)(o ^ v); return o;                                                    \
    }                                                                                           \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) {                               \
        PRE(a, true, true, mo)                                                                  \
        T o = *a; *a = (T)(~(o & v)); return o;                                                 \
    }                                                                                           \
    static inline T sim_cas##B(volatile T* a, T c, T v, int mo, int fmo, bool weak, uint64_t pc) { \
        if (!sim::G->cur->quiet) {                                                              \
            sim::sync_point(pc);                                                                \
            if (sim::in_arena((uintptr_t)a)) sim::check_access((uintptr_t)a, sizeof(T), true, pc); \
        }                                                                                       \
        T o       = *a;                                                                         \
        bool ok   = o == c;                                                                     \
        if (!sim::G->cur->quiet && UNLIKELY(sim::G->race)) sim::atomic_hb((void*)a, true, ok, ok ? mo : fmo); \
        if (ok) *a = v;                                                                         \
        (void)weak;                                                                             \
        return o;                                                                               \
    }                                                                                           \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
        T o = sim_cas##B(a, *c, v, mo, fmo, false, PC);                                          \
        if (o == *c) return 1;                                                                  \
        *c = o;                                                                                 \
        return 0;                                                                               \
    }                                                                                           \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {   \
        T o = sim_cas##B(a, *c, v, mo, fmo, true, PC);                                           \
        if (o == *c) return 1;                                                                  \
        *c = o;                                                                                 \
        return 0;                                                                               \
    }                                                                                           \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {       \
        return sim_cas##B(a, c, v, mo, fmo, false, PC);                                          \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!sim::active()) return;
    sim::sync_point(PC);
    if (!sim::G->race) return;
    sim::Fiber* f = sim::G->cur;
    if (sim::mo_acq(mo) && f->has_acq_pending) sim::vc_join(f->vc, f->acq_pending);
    if (sim::mo_rel(mo)) {
        f->rel_fence     = f->vc;
        f->has_rel_fence = true;
        sim::vc_tick(f);
    }
}
void __tsan_atomic_signal_fence(int) {}
}
