// Idle reactions: triggered when a pool, or everything, runs out of work; never while there is work; never lost.
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "I09";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
using NUClear::threading::ReactionTask;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 2; };
struct OBS { static constexpr const char* name = "OBS"; static constexpr int concurrency = 1; static constexpr bool counts_for_idle = false; };
struct NON { static constexpr const char* name = "NON"; static constexpr int concurrency = 2; static constexpr bool counts_for_idle = false; };
struct SG {}; struct SH {};
enum Pl { DEF, MAIN, pA, pB, NPOOL, pNON = NPOOL, pOBS };
static const char* const POOL[] = {"the default pool", "the main thread", "PA", "PB", "NON", "OBS"};
enum Gr { NONE, ONE, MANY };
struct Spec { const char* what; int type, pool, groups; };
static const Spec SPECS[] = {
    {"Trigger<A>, PA", 0, pA, NONE},
    {"Trigger<A>, PB", 0, pB, NONE},
    {"Trigger<B>", 1, DEF, NONE},
    {"Trigger<B>, MainThread", 1, MAIN, NONE},
    {"Trigger<C>, PB, Sync", 2, pB, ONE},
    {"Trigger<C>, NON, Sync", 2, pNON, ONE},
    {"Trigger<D>, PA, Sync, Sync", 3, pA, MANY},
    {"Trigger<D>, NON, Sync", 3, pNON, ONE},
    {"Trigger<B>, PB, Sync, Sync", 1, pB, MANY},
    {"Trigger<A>, NON", 0, pNON, NONE},
    {"Trigger<C>, Sync", 2, DEF, ONE},
    {"Trigger<D>, MainThread, Sync", 3, MAIN, ONE},
};
enum { NSPEC = sizeof SPECS / sizeof SPECS[0], NTYPE = 4 };
struct TaskS { int spec, pool; bool plain; uint64_t sub_begin, sub_end, start, end; };
struct IdleS { int watch, on; int self_left; int emits; uint64_t bound, unbound; uint64_t created = 0, executed = 0, last = 0; bool handle_set = false; ReactionHandle handle = ReactionHandle(); };   // watch: a pool or -1 for all
struct EmitS { int type; std::vector<int> task; };
struct World {
    uint32_t mask = 0;
    std::vector<EmitS> emits;
    std::vector<TaskS> tasks;
    std::vector<IdleS> idles;
    std::map<int, uint64_t> last_end;         // per thread
    uint64_t pool_last_start[NPOOL + 2] = {}, pool_last_end[NPOOL + 2] = {};
    uint64_t all_last_start = 0, all_last_end = 0;
    uint64_t submits = 0, n_trig = 0, n_checked = 0, n_global = 0;
    int budget = 0;
    bool throws = false;
    // Something that always runs, on a pool that doesn't count
    bool always = false, over = false;
    int wakes = 0;
    std::mutex m;
    std::condition_variable cv;
    NUClear::PowerPlant* plant = nullptr;
};
World* W;
template <int I> struct Msg { int eid; };
template <int I> void emit_one() {
    auto m = std::make_unique<Msg<I>>();
    std::vector<int> mine;
    {
        sim::Quiet q;
        m->eid = int(W->emits.size());
        EmitS e; e.type = I; e.task.assign(NSPEC, -1);
        const uint64_t now = sim::seq();
        for (int s = 0; s < NSPEC; ++s)
            if (((W->mask >> s) & 1) && SPECS[s].type == I) {
                e.task[size_t(s)] = int(W->tasks.size());
                mine.push_back(int(W->tasks.size()));
                W->tasks.push_back(TaskS{s, SPECS[s].pool, SPECS[s].groups != ONE, now, 0, 0, 0});
                ++W->submits;
            }
        W->emits.push_back(e);
    }
    W->plant->emit(m);
    sim::Quiet q;
    const uint64_t now = sim::seq();
    for (int t : mine) W->tasks[size_t(t)].sub_end = now;
    mine.clear(); mine.shrink_to_fit();
}
void emit_any() {
    int t;
    { sim::Quiet q; t = int(sim::choose(NTYPE)); }
    if (t == 0) emit_one<0>(); else if (t == 1) emit_one<1>(); else if (t == 2) emit_one<2>(); else emit_one<3>();
}
bool parks(int pool) {
    for (int s = 0; s < NSPEC; ++s) if (((W->mask >> s) & 1) && SPECS[s].pool == pool && SPECS[s].groups == ONE) return true;
    return false;
}
void started(int pool) {
    const uint64_t now = sim::seq();
    W->pool_last_start[pool] = now;
    if (pool < NPOOL) W->all_last_start = now;
}
void ended(int pool) {
    const uint64_t now = sim::seq();
    W->pool_last_end[pool] = now;
    if (pool < NPOOL) W->all_last_end = now;
    W->last_end[sim::self()] = now;
}
template <int S, int I> void body(const Msg<I>& m) {
    int ti, nap = 0, child = 0;
    bool thr;
    {
        sim::Quiet q;
        ti = W->emits[size_t(m.eid)].task[S];
        TaskS& t = W->tasks[size_t(ti)];
        if (t.start) sim::fail("twice", "%s executed twice for one emission", SPECS[S].what);
        t.start = sim::seq();
        started(t.pool);
        if (sim::chance(1, 2)) nap = int(sim::pick_log(100, t.pool == pNON ? 200000 : 40000));
        if (W->budget > 0 && sim::chance(1, 4)) { child = 1; --W->budget; }
        thr = W->throws && sim::chance(1, 6);
    }
    if (nap) sim::sleep_ns(nap);
    if (child) emit_any();
    {
        sim::Quiet q;
        W->tasks[size_t(ti)].end = sim::seq();
        ended(W->tasks[size_t(ti)].pool);
    }
    if (thr) throw std::runtime_error("callback");
}
// A word (a documented extension point) that sees when a task of an Idle reaction is created
struct Mark {
    template <typename DSL> static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) { sim::Quiet q; of()[r->id] = idx; }
    template <typename DSL> static bool precondition(ReactionTask& t) { sim::Quiet q; triggered(of().at(t.parent->id)); return true; }
    static std::map<NUClear::id_t, int>& of() { static auto* m = new std::map<NUClear::id_t, int>(); return *m; }
    static void triggered(int i) {
        IdleS& x = W->idles[size_t(i)];
        // The decision was made by this thread after it last did anything
        const uint64_t low = W->last_end.count(sim::self()) ? W->last_end[sim::self()] : 0;
        for (auto& t : W->tasks) {
            if (!t.plain || t.pool >= NPOOL || !t.sub_end || t.sub_end >= low || t.end) continue;
            // A task that waits for its group wakes its pool to tell that it is idle, whatever else it has to do by then
            if (x.watch >= 0 && (t.pool != x.watch || parks(t.pool))) continue;
            const Spec& s = SPECS[t.spec];
            sim::fail("idle-with-work", "the Idle reaction of %s was triggered although %s of %s had been submitted before and %s all the time", x.watch < 0 ? "the whole system" : POOL[x.watch], s.what, POOL[t.pool], t.start ? "executed" : "waited");
        }
        x.last = sim::seq();
        ++x.created;
        ++W->n_trig;
        if (x.watch < 0) ++W->n_global;
    }
};
void idle_body(int i) {
    int n = 0, nap = 0;
    bool unb = false;
    IdleS* x;
    {
        sim::Quiet q;
        x = &W->idles[size_t(i)];
        if (++x->executed > x->created) sim::fail("idle-twice", "an Idle reaction executed more often than it was triggered");
        started(x->on);
        if (W->budget > 0 && x->emits && sim::chance(1, 2)) { n = int(sim::range(1, uint64_t(x->emits))); W->budget -= n; }
        if (sim::chance(1, 3)) nap = int(sim::pick_log(100, 60000));
        if (x->self_left > 0 && x->handle_set && --x->self_left == 0) unb = true;
    }
    for (int k = 0; k < n; ++k) emit_any();
    if (nap) sim::sleep_ns(nap);
    if (unb) { x->handle.unbind(); sim::Quiet q; x->unbound = sim::seq(); }
    sim::Quiet q;
    ended(x->on);
}
class R : public NUClear::Reactor {
public:
    template <typename Watch> void own(int i, int pool) {
        auto f = [i] { idle_body(i); };
        ReactionHandle h = ReactionHandle();
        switch (pool) {
            case DEF: h = on<Mark, Idle<Watch>>(i).then(std::move(f)); break;
            case MAIN: h = on<Mark, Idle<Watch>, MainThread>(i).then(std::move(f)); break;
            case pA: h = on<Mark, Idle<Watch>, Pool<PA>>(i).then(std::move(f)); break;
            case pB: h = on<Mark, Idle<Watch>, Pool<PB>>(i).then(std::move(f)); break;
            default: h = on<Mark, Idle<Watch>, Pool<OBS>>(i).then(std::move(f)); break;
        }
        sim::Quiet q;
        W->idles[size_t(i)].handle = h;
        W->idles[size_t(i)].handle_set = true;
        W->idles[size_t(i)].bound = sim::seq();
    }
    void bind(int i) {
        int w, p;
        { sim::Quiet q; w = W->idles[size_t(i)].watch; p = W->idles[size_t(i)].on; }
        switch (w) {
            case DEF: own<Pool<>>(i, p); break;
            case MAIN: own<MainThread>(i, p); break;
            case pA: own<Pool<PA>>(i, p); break;
            case pB: own<Pool<PB>>(i, p); break;
            default: own<void>(i, p); break;
        }
    }
    explicit R(std::unique_ptr<NUClear::Environment> e, size_t n) : Reactor(std::move(e)) {
        using A = Msg<0>; using B = Msg<1>; using C = Msg<2>; using D = Msg<3>;
        auto has = [](int b) { return (W->mask >> b) & 1; };
        for (size_t i = 0; i < n; ++i) bind(int(i));
        if (has(0)) on<Trigger<A>, Pool<PA>>().then([](const A& m) { body<0>(m); });
        if (has(1)) on<Trigger<A>, Pool<PB>>().then([](const A& m) { body<1>(m); });
        if (has(2)) on<Trigger<B>>().then([](const B& m) { body<2>(m); });
        if (has(3)) on<Trigger<B>, MainThread>().then([](const B& m) { body<3>(m); });
        if (has(4)) on<Trigger<C>, Pool<PB>, Sync<SG>>().then([](const C& m) { body<4>(m); });
        if (has(5)) on<Trigger<C>, Pool<NON>, Sync<SG>>().then([](const C& m) { body<5>(m); });
        if (has(6)) on<Trigger<D>, Pool<PA>, Sync<SG>, Sync<SH>>().then([](const D& m) { body<6>(m); });
        if (has(7)) on<Trigger<D>, Pool<NON>, Sync<SH>>().then([](const D& m) { body<7>(m); });
        if (has(8)) on<Trigger<B>, Pool<PB>, Sync<SH>, Sync<SG>>().then([](const B& m) { body<8>(m); });
        if (has(9)) on<Trigger<A>, Pool<NON>>().then([](const A& m) { body<9>(m); });
        if (has(10)) on<Trigger<C>, Sync<SG>>().then([](const C& m) { body<10>(m); });
        if (has(11)) on<Trigger<D>, MainThread, Sync<SH>>().then([](const D& m) { body<11>(m); });
        if (W->always)
            on<Always>().then([] {
                std::unique_lock<std::mutex> lock(W->m);
                W->cv.wait(lock, [] { return W->over || W->wakes > 0; });
                if (W->wakes > 0) --W->wakes;
            });
    }
};
// Nothing can run: everything was executed, and everything that ran dry said so
void check() {
    sim::Quiet q;
    for (auto& t : W->tasks) if (!t.end) sim::fail("lost", "%s was never executed", SPECS[t.spec].what);
    for (size_t i = 0; i < W->idles.size(); ++i) {
        IdleS& x = W->idles[i];
        if (x.executed != x.created) sim::fail("idle-lost", "an Idle reaction was triggered %lu times and executed %lu times", (unsigned long)x.created, (unsigned long)x.executed);
        const uint64_t start = x.watch < 0 ? W->all_last_start : W->pool_last_start[x.watch], end = x.watch < 0 ? W->all_last_end : W->pool_last_end[x.watch];
        if (!x.bound || x.unbound || x.self_left >= 0 || !start || x.bound >= start) continue;
        ++W->n_checked;
        if (x.last < end) sim::fail("not-idle", "the Idle reaction of %s was not triggered although the last work of %s has ended", x.watch < 0 ? "the whole system" : POOL[x.watch], x.watch < 0 ? "all pools" : POOL[x.watch]);
        if (x.created > 4 * (W->submits + W->n_trig) + 20) sim::fail("idle-repeats", "an Idle reaction was triggered %lu times for %lu tasks", (unsigned long)x.created, (unsigned long)W->submits);
    }
}
}  // namespace
void scenario() {
    int conc, nt, per, rounds, late;
    size_t n;
    {
        sim::Quiet q;
        W = new World();
        Mark::of().clear();
        W->mask   = uint32_t(sim::choose(1u << NSPEC)) | (1u << sim::choose(3));
        W->budget = int(sim::choose(16));
        W->throws = sim::chance(1, 4);
        W->always = sim::chance(1, 2);
        conc   = int(sim::range(1, 3));
        nt     = int(sim::range(1, 3));
        per    = int(sim::range(1, 5));
        rounds = int(sim::range(1, 4));
        late   = sim::chance(1, 3) ? 1 : 0;
        n      = size_t(sim::range(1, 5));
        for (size_t i = 0; i < n + size_t(late); ++i) {
            IdleS x{};
            x.watch     = int(sim::choose(NPOOL + 2));
            if (x.watch >= NPOOL) x.watch = -1;
            x.on        = pOBS;
            x.self_left = -1;
            x.emits     = sim::chance(1, 3) ? int(sim::range(1, 2)) : 0;
            // on a pool that counts, it is work itself: the pool runs dry again each time, until it is unbound
            if (sim::chance(1, 5)) { x.on = x.watch >= 0 && sim::chance(1, 2) ? x.watch : int(sim::choose(NPOOL)); x.self_left = int(sim::range(1, 4)); }
            W->idles.push_back(x);
        }
    }
    sim::set_budget(2000000);
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        W->plant = &plant;
        R& r = plant.install<R>(n);
        bool pre;
        { sim::Quiet q; pre = sim::chance(1, 2); }
        if (pre) emit_any();
        std::thread driver([&] {
            for (int round = 0; round < rounds; ++round) {
                std::vector<std::thread> ts;
                for (int t = 0; t < nt; ++t)
                    ts.emplace_back([&] {
                        for (int i = 0; i < per; ++i) {
                            emit_any();
                            int64_t d;
                            { sim::Quiet q; d = sim::chance(1, 2) ? int64_t(sim::pick_log(100, 60000)) : 0; }
                            if (d) sim::sleep_ns(d);
                        }
                    });
                if (late && round == rounds / 2) r.bind(int(n));
                for (auto& t : ts) t.join();
                if (W->always) {
                    const std::lock_guard<std::mutex> lock(W->m);
                    ++W->wakes;
                    W->cv.notify_all();
                }
                sim::wait_quiescent();
                check();
            }
            plant.shutdown();
            const std::lock_guard<std::mutex> lock(W->m);
            W->over = true;
            W->cv.notify_all();
        });
        plant.start();
        driver.join();
        sim::Quiet q;
        W->idles.clear();
    }
    sim::Quiet q;
    if (W->n_checked >= 1 && W->n_trig >= 1) sim::nontrivial();
    if (W->n_global) sim::probe("global-idle");
    if (late) sim::probe("bound-at-run-time");
    if (W->always && W->n_global) sim::probe("global-idle-beside-always");
    sim::sample("%zu tasks, %lu idle triggers (%lu of them global), %lu idle periods required", W->tasks.size(), (unsigned long)W->n_trig, (unsigned long)W->n_global, (unsigned long)W->n_checked);
}
