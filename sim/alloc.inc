// The heap. During a run: a private arena with red zones and a shadow map; addresses depend on nothing but the run.
namespace sim {
enum Phase : int { PH_BOOT, PH_INIT, PH_DRIVER };
static int g_phase = PH_BOOT;   // never changes after the snapshot is taken
constexpr uintptr_t DARENA_BASE = 0x20c000000000ULL;
constexpr size_t DARENA_SIZE    = 1ULL << 30;
static char boot_buf[65536];
static size_t boot_used;
static uintptr_t* const darena_top = reinterpret_cast<uintptr_t*>(GLOBAL_BASE + sizeof(Global) + 64);

static void shadow_set(uintptr_t p, size_t n, uint8_t v) {
    uint8_t* s = shadow(p);
    memset(s, v, n >> 3);
    if (n & 7) s[n >> 3] = v == 8 ? (uint8_t)(n & 7) : v;
}
static int size_class(size_t n) { return n <= 1024 ? (int)((n + 15) / 16) - 1 : -1; }   // 0..63

static void* arena_alloc(size_t n, size_t align, void* site) {
    if (n == 0) n = 1;
    size_t rn   = (n + 15) & ~size_t(15);
    int cls     = size_class(rn);
    uintptr_t u = 0;
    if (G->reuse && align <= 16 && cls >= 0 && G->freelist[cls]) {
        u                = (uintptr_t)G->freelist[cls];
        G->freelist[cls] = *(void**)u;
    }
    if (cls < 0 && align <= 16 && G->arena_top - ARENA_BASE > ARENA_SIZE / 4)
        for (auto& b : G->big)
            if (b.size == rn && b.head) {
                u      = (uintptr_t)b.head;
                b.head = *(void**)u;
                break;
            }
    if (!u) {
        uintptr_t p = G->arena_top + sizeof(BlockHdr);
        u           = (p + align - 1) & ~(align - 1);
        if (n > ARENA_SIZE / 2 || u + rn + 16 > ARENA_BASE + ARENA_SIZE) {
            if (G->in_run && n < ARENA_SIZE / 8 && G->live_b < ARENA_SIZE / 8) fail_infra("heap is used up by blocks that have been freed");
            if (G->in_run) fail("alloc-explosion", "heap of %llu bytes exhausted by a request of %zu bytes at pc %p", (unsigned long long)ARENA_SIZE, n, site);
            return nullptr;
        }
        G->arena_top = u + rn + 16;
    }
    BlockHdr* h = (BlockHdr*)(u - sizeof(BlockHdr));
    *h          = BlockHdr{n, MAGIC_LIVE, 0, ++G->alloc_id, site};
    shadow_set(u, n, 8);
    race_forget(u, n);
    G->live_n++;
    G->live_b += n;
    G->alloc_total += n;
    return (void*)u;
}
static void arena_free(void* q, uint64_t pc) {
    uintptr_t p = (uintptr_t)q;
    BlockHdr* h = (BlockHdr*)(p - sizeof(BlockHdr));
    if (h->magic != MAGIC_LIVE) {
        if (G->in_run) {
            char d[200];
            { Quiet qq; describe_addr(p, d, sizeof d); }
            fail(h->magic == MAGIC_DEAD ? "double-free" : "bad-free", "free at pc 0x%llx: %s", (unsigned long long)pc, d);
        }
        return;
    }
    if (UNLIKELY(G->race) && G->in_run && !G->cur->quiet) {
        // Freeing counts as writing the whole block, so an unordered last use is a race on tracked memory
        race_access(p, h->size, true, pc);
    }
    h->magic = MAGIC_DEAD;
    G->live_n--;
    G->live_b -= h->size;
    shadow_set(p, (h->size + 7) & ~size_t(7), SH_FREED);
    if (h->size > 1024 && (p & 15) == 0 && p >= G->arena_base_top && G->in_run) {
        const size_t rn = (h->size + 15) & ~size_t(15);
        for (auto& b : G->big)
            if (b.size == rn || b.size == 0) {
                b.size     = rn;
                *(void**)p = b.head;
                b.head     = q;
                break;
            }
    }
    if (G->reuse && p >= G->arena_base_top) {
        int cls = size_class((h->size + 15) & ~size_t(15));
        if (cls >= 0 && (p & 15) == 0) {
            *(void**)p       = G->freelist[cls];
            G->freelist[cls] = q;
        }
    }
}
static void* x_alloc(size_t n, size_t align, void* site) {
    if (g_phase == PH_BOOT) {
        size_t o = (boot_used + align + 15) & ~(align - 1) & ~size_t(15);
        o = ((size_t)(boot_buf + o) + align - 1 & ~(align - 1)) - (size_t)boot_buf;
        if (o + n + 16 > sizeof boot_buf) return nullptr;
        *(size_t*)(boot_buf + o) = n;
        boot_used = o + 16 + n;
        return boot_buf + o + 16;
    }
    if (g_phase == PH_INIT) return arena_alloc(n, align, site);
    if (G->in_run && !G->cur->quiet) return arena_alloc(n, align, site);
    // harness
    if (align < 16) align = 16;
    uintptr_t* top = G->in_run ? &G->harena_top : darena_top;
    uintptr_t lim  = G->in_run ? HARENA_BASE + HARENA_SIZE : DARENA_BASE + DARENA_SIZE;
    uintptr_t p    = (*top + 16 + align - 1) & ~(align - 1);
    if (p + n + 16 > lim) return nullptr;
    *(size_t*)(p - 16) = n;
    *top               = (p + n + 15) & ~uintptr_t(15);
    return (void*)p;
}
static size_t x_size(void* p) {
    if (in_arena((uintptr_t)p)) return ((BlockHdr*)((uintptr_t)p - sizeof(BlockHdr)))->size;
    return *(size_t*)((uintptr_t)p - 16);
}
static void x_free(void* p, uint64_t pc) {
    if (p == nullptr) return;
    if (in_arena((uintptr_t)p)) arena_free(p, pc);
}
uint64_t live_blocks() { return G->live_n; }
uint64_t live_bytes() { return G->live_b; }
uint64_t alloc_mark() { return G->alloc_id; }
uint64_t allocated_total() { return G->alloc_total; }
uint64_t live_bytes_since(uint64_t mark, const void** first, size_t* first_size) {
    // blocks are laid out in order in the arena; walk it
    uint64_t b = 0;
    if (first) *first = nullptr;
    for (uintptr_t p = G->arena_base_top & ~uintptr_t(15); p + sizeof(BlockHdr) < G->arena_top; p += 16) {
        BlockHdr* h = (BlockHdr*)p;
        if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_DEAD) && h->size < ARENA_SIZE && h->id <= G->alloc_id) {
            if (h->magic == MAGIC_LIVE && h->id > mark) {
                b += h->size;
                if (first && !*first) { *first = (void*)(p + sizeof(BlockHdr)); *first_size = h->size; }
            }
            p += sizeof(BlockHdr) + ((h->size + 15) & ~size_t(15)) - 16;
        }
    }
    return b;
}
void walk_live(uint64_t mark, void (*cb)(void*, const void*, size_t, void*), void* ctx) {
    for (uintptr_t p = G->arena_base_top & ~uintptr_t(15); p + sizeof(BlockHdr) < G->arena_top; p += 16) {
        BlockHdr* h = (BlockHdr*)p;
        if ((h->magic == MAGIC_LIVE || h->magic == MAGIC_DEAD) && h->size < ARENA_SIZE && h->id <= G->alloc_id) {
            if (h->magic == MAGIC_LIVE && h->id > mark) cb(ctx, (void*)(p + sizeof(BlockHdr)), h->size, h->site);
            p += sizeof(BlockHdr) + ((h->size + 15) & ~size_t(15)) - 16;
        }
    }
}
// Blocks that nothing leads to any more: not the program's static data, not a stack or the thread locals of a thread that has not
// ended, not what was allocated before the run, and not a block that one of these leads to (interior pointers count).
namespace {
struct Sweep { const char** at; size_t* size; void** site; bool* seen; size_t n, cap; size_t* work; size_t nw; };
}
static void sweep_add(void* c, const void* p, size_t n, void* site) {
    Sweep& s = *(Sweep*)c;
    if (s.n < s.cap) { s.at[s.n] = (const char*)p; s.size[s.n] = n; s.site[s.n] = site; s.seen[s.n] = false; }
    s.n++;
}
static void sweep_scan(Sweep& s, uintptr_t lo, uintptr_t hi) {
    for (uintptr_t p = (lo + 7) & ~uintptr_t(7); p + 8 <= hi; p += 8) {
        uintptr_t v = *(const uintptr_t*)p;
        if (v < G->arena_base_top || v >= G->arena_top) continue;
        size_t a = 0, b = s.n;
        while (a < b) { size_t m = (a + b) / 2; if ((uintptr_t)s.at[m] <= v) a = m + 1; else b = m; }
        if (a == 0) continue;
        --a;
        if (s.seen[a] || v > (uintptr_t)s.at[a] + s.size[a]) continue;
        s.seen[a] = true;
        s.work[s.nw++] = a;
    }
}
uint64_t unreachable(void (*cb)(void*, const void*, size_t, void*), void* ctx) {
    Quiet q;
    Sweep s{};
    walk_live(0, sweep_add, &s);
    s.cap = s.n;
    s.at = new const char*[s.cap + 1]; s.size = new size_t[s.cap + 1]; s.site = new void*[s.cap + 1]; s.seen = new bool[s.cap + 1]; s.work = new size_t[s.cap + 1];
    s.n = 0;
    walk_live(0, sweep_add, &s);
    sweep_scan(s, G->data_lo, G->data_hi);
    sweep_scan(s, ARENA_BASE, G->arena_base_top);
    for (int i = 0; i < G->created; ++i) {
        Fiber& f = G->f[i];
        if (f.state == DONE) continue;
        uintptr_t sp = &f == G->cur ? (uintptr_t)__builtin_frame_address(0) : (uintptr_t)f.rsp;
        sweep_scan(s, sp, (sp + STACK_SIZE) & ~(STACK_SIZE - 1));
        sweep_scan(s, f.fsbase - 2048, f.fsbase);
        sweep_scan(s, (uintptr_t)&f.arg, (uintptr_t)(&f.ret + 1));
        for (int d = 0; d < f.ndtors; ++d) sweep_scan(s, (uintptr_t)&f.dtors[d], (uintptr_t)(&f.dtors[d] + 1));
    }
    while (s.nw) {
        size_t i = s.work[--s.nw];
        sweep_scan(s, (uintptr_t)s.at[i], (uintptr_t)s.at[i] + s.size[i]);
    }
    uint64_t n = 0;
    for (size_t i = 0; i < s.n; ++i) if (!s.seen[i]) { ++n; cb(ctx, s.at[i], s.size[i], s.site[i]); }
    return n;
}
void* alloc_site(const void* p) { return ((BlockHdr*)((uintptr_t)p - sizeof(BlockHdr)))->site; }
void track(const void* p, size_t n, const char*) {
    uintptr_t q = (uintptr_t)p;
    if (in_arena(q)) {
        for (uintptr_t a = q & ~uintptr_t(7); a < q + n; a += 8) *shadow(a) |= SH_TRACK;
    }
    else if (G->ntr < 32) { G->tr[G->ntr].lo = q; G->tr[G->ntr].hi = q + n; G->ntr++; }
}
void enable_race_detector() { G->race = true; }
}  // namespace sim

#define SITE __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) { return sim::x_alloc(n, 16, SITE); }
void free(void* p) { sim::x_free(p, PC); }
void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = sim::x_alloc(n, 16, SITE);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    void* q = sim::x_alloc(n, 16, SITE);
    if (p && q) {
        size_t o = sim::x_size(p);
        memcpy(q, p, o < n ? o : n);
        sim::x_free(p, PC);
    }
    return q;
}
void* memalign(size_t a, size_t n) { return sim::x_alloc(n, a < 16 ? 16 : a, SITE); }
void* aligned_alloc(size_t a, size_t n) { return sim::x_alloc(n, a < 16 ? 16 : a, SITE); }
int posix_memalign(void** r, size_t a, size_t n) { *r = sim::x_alloc(n, a < 16 ? 16 : a, SITE); return *r ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? sim::x_size(p) : 0; }
}
static void* op_new(size_t n, size_t al, void* site) {
    void* p = sim::x_alloc(n, al, site);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return op_new(n, 16, SITE); }
void* operator new[](size_t n) { return op_new(n, 16, SITE); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::x_alloc(n, 16, SITE); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::x_alloc(n, 16, SITE); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a < 16 ? 16 : (size_t)a, SITE); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a < 16 ? 16 : (size_t)a, SITE); }
void operator delete(void* p) noexcept { sim::x_free(p, PC); }
void operator delete[](void* p) noexcept { sim::x_free(p, PC); }
void operator delete(void* p, size_t) noexcept { sim::x_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { sim::x_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { sim::x_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::x_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::x_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::x_free(p, PC); }
