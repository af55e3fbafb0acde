// The life of a system: start-up, work, and shutdown requests of every kind at every moment.
#ifndef VERIF_LIFE_HPP
#define VERIF_LIFE_HPP
#include <sys/socket.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <mutex>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
namespace life {
namespace word = NUClear::dsl::word;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 3; };
struct PC { static constexpr const char* name = "PC"; static constexpr int concurrency = 2; static constexpr bool persistent = true; };
struct PD { static constexpr const char* name = "PD"; static constexpr int concurrency = 1; static constexpr bool persistent = true; };
struct PE { static constexpr const char* name = "PE"; static constexpr int concurrency = 1; };
struct SG {}; struct SH {}; struct SI {};
struct G2 { static constexpr int concurrency = 2; };
enum Pl { DEF, MAIN, pA, pB, pC, pD, pE, INL };   // where a reaction executes
inline bool persistent(int p) { return p == pC || p == pD; }
struct Spec { const char* what; int type, pool; bool groups; };
enum { NTYPE = 3 };
static const Spec SPECS[] = {
    {"Trigger<A>", 0, DEF, false},
    {"Trigger<A>, PA, Sync", 0, pA, true},
    {"Trigger<A>, PB", 0, pB, false},
    {"Trigger<A>, PC", 0, pC, false},
    {"Trigger<B>, PC, Sync", 1, pC, true},
    {"Trigger<B>, PB, Sync, Sync", 1, pB, true},
    {"Trigger<B>, MainThread", 1, MAIN, false},
    {"Trigger<B>, PD, Group", 1, pD, true},
    {"Trigger<C>, MainThread, Sync", 2, MAIN, true},
    {"Trigger<C>, PD, Sync, Sync", 2, pD, true},
    {"Trigger<C>, PC, LOW", 2, pC, false},
    {"Trigger<C>, PA, REALTIME", 2, pA, false},
    {"Trigger<C>, Group", 2, DEF, true},
    {"Trigger<A>, Inline::ALWAYS", 0, INL, false},
    {"Trigger<B>, PB, IDLE", 1, pB, false},
};
enum { NSPEC = sizeof SPECS / sizeof SPECS[0] };
struct EmitS { int type; uint64_t begin, end; int from_pool; int from_fiber; int runs[NSPEC]; };
struct World {
    bool forced = false;                   // S12: a forced request will be made
    uint32_t mask = 0;
    int n_startup = 0, n_shutdown = 0;
    std::vector<EmitS> emits;
    int budget = 0;
    int startup_runs[4] = {}, shutdown_runs[8] = {};
    int startups_done = 0;
    std::set<int> shutdown_pools;
    bool started = false, returned = false, throws = false;
    uint64_t req_begin = 0, force_end = 0;
    std::map<int, int> starts_after_force;   // per thread
    std::map<int, int> pool_of_fiber;        // executing a pool task of this pool
    int in_pool = 0, main_fiber = -1;
    uint64_t n_run = 0, n_required = 0, n_after = 0, n_optional_dropped = 0;
    int stop_at_run = -1, stop_kind = 0;     // requested by the n-th task
    int stop_at_startup = -1;
    int stop_in_shutdown = -1;
    int requests = 0;
    NUClear::PowerPlant* plant = nullptr;
};
static World* W;
struct Payload { int eid; uint64_t canary; };
template <int I> struct Msg { int eid; uint64_t canary; ~Msg() { canary = 0; } };
template <int I> void emit_one(int from_pool) {
    auto m = std::make_unique<Msg<I>>();
    {
        sim::Quiet q;
        m->eid = int(W->emits.size());
        m->canary = 0xfeed0000u + uint64_t(m->eid);
        W->emits.push_back(EmitS{I, sim::seq(), 0, from_pool, sim::self(), {}});
    }
    const int e = m->eid;
    W->plant->emit(m);
    sim::Quiet q;
    W->emits[size_t(e)].end = sim::seq();
}
inline void emit_any(int from_pool) {
    int t;
    { sim::Quiet q; t = int(sim::choose(NTYPE)); }
    if (t == 0) emit_one<0>(from_pool); else if (t == 1) emit_one<1>(from_pool); else emit_one<2>(from_pool);
}
// kind: 0 graceful, 1 forced, 2 graceful then forced
inline void request(int kind) {
    { sim::Quiet q; if (!W->req_begin) W->req_begin = sim::seq(); ++W->requests; }
    if (kind == 0 || kind == 2) W->plant->shutdown();
    if (kind != 0) {
        W->plant->shutdown(true);
        sim::Quiet q;
        // A request made while another thread is still in its first one is only certain to be in effect when both are done
        if (!W->force_end) W->force_end = sim::seq();
    }
}
struct Exec {
    int pool, prev = -1, fiber;
    bool counted;
    Exec(int p, const char* what) : pool(p), counted(p != INL) {
        sim::Quiet q;
        fiber = sim::self();
        ++W->n_run;
        if (!counted) return;
        if (!W->started) sim::fail("before-start", "%s was executed before start() was called", what);
        if (W->startups_done < W->n_startup) sim::fail("before-startup", "%s was executed on a pool before the Startup reactions were done", what);
        if (W->returned) sim::fail("late", "%s started to execute after start() had returned", what);
        if (W->force_end && ++W->starts_after_force[fiber] > 1) sim::fail("not-discarded", "a thread started a second task (%s) after shutdown(true) had returned", what);
        auto it = W->pool_of_fiber.find(fiber);
        prev = it == W->pool_of_fiber.end() ? -1 : it->second;
        W->pool_of_fiber[fiber] = p;
        ++W->in_pool;
    }
    ~Exec() {
        if (!counted) return;
        sim::Quiet q;
        if (W->returned) sim::fail("late", "a task was still executing after start() had returned");
        --W->in_pool;
        if (prev < 0) W->pool_of_fiber.erase(fiber); else W->pool_of_fiber[fiber] = prev;
    }
};
inline void work(int pool, int max_child) {
    int child = 0, nap = 0, stop = -1;
    bool thr = false;
    {
        sim::Quiet q;
        const int p = pool == INL ? -1 : pool;
        if (W->budget > 0 && p >= 0 && sim::chance(1, 3)) { child = int(sim::range(1, uint64_t(max_child))); W->budget -= child; }
        if (sim::chance(1, 3)) nap = int(sim::pick_log(100, 60000));
        thr = W->throws && sim::chance(1, 6);
        if (W->stop_at_run >= 0 && int(W->n_run) >= W->stop_at_run) { stop = W->stop_kind; W->stop_at_run = -1; }
    }
    if (nap) sim::sleep_ns(nap);
    if (stop >= 0) request(stop);
    for (int i = 0; i < child; ++i) emit_any(pool);
    if (thr) throw std::runtime_error("callback");
}
template <int S, int I> void body(const Msg<I>& m) {
    Exec x(SPECS[S].pool, SPECS[S].what);
    {
        sim::Quiet q;
        if (m.eid < 0 || m.eid >= int(W->emits.size()) || m.canary != 0xfeed0000u + uint64_t(m.eid)) sim::fail("dead-message", "%s was given a message that does not exist", SPECS[S].what);
        if (++W->emits[size_t(m.eid)].runs[S] > 1) sim::fail("twice", "%s executed twice for emission %d", SPECS[S].what, m.eid);
    }
    work(SPECS[S].pool, 2);
}
class R : public NUClear::Reactor {
    template <int K> void on_startup() {
        on<Startup>().then([] {
            int n;
            bool stop;
            {
                sim::Quiet q;
                if (sim::self() != W->main_fiber) sim::fail("startup-thread", "a Startup reaction was not executed by the caller of start()");
                if (++W->startup_runs[K] > 1) sim::fail("startup-twice", "a Startup reaction executed twice");
                n    = int(sim::choose(4));
                stop = W->stop_at_startup == K;
            }
            for (int i = 0; i < n; ++i) emit_any(-1);
            if (stop) request(W->stop_kind);
            sim::sleep_ns(1000);
            { sim::Quiet q; ++W->startups_done; }
            if (W->throws && K == 1) throw 1;
        });
    }
    static void shut(int k, int pool) {
        Exec x(pool, "a Shutdown reaction");
        bool again;
        {
            sim::Quiet q;
            if (!W->req_begin) sim::fail("shutdown-early", "a Shutdown reaction executed although nobody requested a shutdown");
            if (++W->shutdown_runs[k] > 1) sim::fail("shutdown-twice", "a Shutdown reaction executed twice");
            again = W->stop_in_shutdown == k;
        }
        if (again) request(W->forced ? 1 : 0);
        work(pool, 2);
    }
public:
    explicit R(std::unique_ptr<NUClear::Environment> e, int fd) : Reactor(std::move(e)) {
        using A = Msg<0>; using B = Msg<1>; using C = Msg<2>;
        auto has = [](int b) { return (W->mask >> b) & 1; };
        if (has(0)) on<Trigger<A>>().then([](const A& m) { body<0>(m); });
        if (has(1)) on<Trigger<A>, Pool<PA>, Sync<SG>>().then([](const A& m) { body<1>(m); });
        if (has(2)) on<Trigger<A>, Pool<PB>>().then([](const A& m) { body<2>(m); });
        if (has(3)) on<Trigger<A>, Pool<PC>>().then([](const A& m) { body<3>(m); });
        if (has(4)) on<Trigger<B>, Pool<PC>, Sync<SG>>().then([](const B& m) { body<4>(m); });
        if (has(5)) on<Trigger<B>, Pool<PB>, Sync<SG>, Sync<SH>>().then([](const B& m) { body<5>(m); });
        if (has(6)) on<Trigger<B>, MainThread>().then([](const B& m) { body<6>(m); });
        if (has(7)) on<Trigger<B>, Pool<PD>, Group<G2>>().then([](const B& m) { body<7>(m); });
        if (has(8)) on<Trigger<C>, MainThread, Sync<SH>>().then([](const C& m) { body<8>(m); });
        if (has(9)) on<Trigger<C>, Pool<PD>, Sync<SG>, Sync<SI>>().then([](const C& m) { body<9>(m); });
        if (has(10)) on<Trigger<C>, Pool<PC>, Priority::LOW>().then([](const C& m) { body<10>(m); });
        if (has(11)) on<Trigger<C>, Pool<PA>, Priority::REALTIME>().then([](const C& m) { body<11>(m); });
        if (has(12)) on<Trigger<C>, Group<G2>>().then([](const C& m) { body<12>(m); });
        if (has(13)) on<Trigger<A>, Inline::ALWAYS>().then([](const A& m) { body<13>(m); });
        if (has(14)) on<Trigger<B>, Pool<PB>, Priority::IDLE>().then([](const B& m) { body<14>(m); });
        if (W->n_startup > 0) on_startup<0>();
        if (W->n_startup > 1) on_startup<1>();
        if (W->n_startup > 2) on_startup<2>();
        for (int i = 0; i < W->n_shutdown; ++i) {
            int v;
            { sim::Quiet q; v = int(sim::choose(7)); if (v == 2) W->shutdown_pools.insert(pC); }
            switch (v) {
                case 0: on<Shutdown>().then([i] { shut(i, DEF); }); break;
                case 1: on<Shutdown, Pool<PA>, Priority::HIGH>().then([i] { shut(i, pA); }); break;
                case 2: on<Shutdown, Pool<PC>>().then([i] { shut(i, pC); }); break;
                case 3: on<Shutdown, MainThread>().then([i] { shut(i, MAIN); }); break;
                case 4: on<Shutdown, Pool<PB>, Sync<SG>>().then([i] { shut(i, pB); }); break;
                case 5: on<Shutdown, Pool<PE>>().then([i] { shut(i, pE); }); break;   // nothing else uses this pool
                default: on<Shutdown, Sync<SG>, Sync<SH>>().then([i] { shut(i, DEF); }); break;
            }
        }
        if (has(16)) on<Every<>>(std::chrono::microseconds(700)).then([] { Exec x(DEF, "Every"); work(DEF, 1); });
        if (has(17)) on<Always>().then([] { { Exec x(DEF, "Always"); { sim::Quiet q; if (W->force_end) W->starts_after_force[sim::self()] = 0; } work(DEF, 1); } sim::sleep_ns(90000); });
        if (has(18)) on<IO>(fd, IO::READ).then([](const IO::Event& ev) { Exec x(DEF, "IO"); char b[8]; if (::read(ev.fd, b, 8) > 0) work(DEF, 1); });
        if (has(19)) on<Idle<>>().then([] { Exec x(DEF, "Idle"); bool go; { sim::Quiet q; go = W->budget > 0; if (go) --W->budget; } if (go) emit_any(DEF); });
        if (has(20)) on<Idle<Pool<PB>>, Pool<PC>>().then([] { Exec x(pC, "Idle<PB>"); bool go; { sim::Quiet q; go = W->budget > 0; if (go) --W->budget; } if (go) emit_any(pC); });
    }
};
inline void run(bool forced) {
    int conc, nt, per, flood, kind, when, nreq, delay_kinds;
    int64_t at[3];
    {
        sim::Quiet q;
        W = new World();
        W->forced     = forced;
        W->mask       = uint32_t(sim::choose(1u << 15)) | (1u << sim::choose(13));
        if (sim::chance(1, 2)) W->mask |= uint32_t(sim::choose(1u << 5)) << 16;
        W->n_startup  = int(sim::choose(4));
        W->n_shutdown = int(sim::range(1, 4));
        W->throws     = sim::chance(1, 3);
        W->budget     = int(sim::range(0, 30));
        conc   = int(sim::range(1, 3));
        nt     = int(sim::range(0, 3));
        per    = int(sim::range(1, 12));
        flood  = sim::chance(1, 6) ? int(sim::range(60, 140)) : 0;
        kind   = forced ? int(sim::range(1, 2)) : 0;
        when   = int(sim::choose(8));   // who asks first: 0-3 a thread of ours, 4 a task, 5 a Startup reaction, 6 before start, 7 a task and threads
        nreq   = sim::chance(1, 3) ? int(sim::range(2, 3)) : 1;
        W->stop_kind = kind;
        if (when == 4 || when == 7) W->stop_at_run = int(sim::range(1, 12));
        if (when == 5 && W->n_startup) W->stop_at_startup = int(sim::choose(uint64_t(W->n_startup)));
        if (sim::chance(1, 3)) W->stop_in_shutdown = int(sim::choose(uint64_t(W->n_shutdown)));
        for (auto& a : at) a = int64_t(sim::pick_log(500, 2000000));
        delay_kinds = int(sim::choose(3));
    }
    sim::set_budget(2500000);
    sim::net::Config nc;
    { sim::Quiet q; if (sim::chance(1, 3)) nc.eintr = 20; }
    sim::net::configure(nc);
    int fd[2];
    if (::pipe(fd) != 0) sim::fail("setup", "pipe");
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        W->plant      = &plant;
        W->main_fiber = sim::self();
        if ((W->mask >> 16) & 1) plant.install<NUClear::extension::ChronoController>();
        if ((W->mask >> 18) & 1) plant.install<NUClear::extension::IOController>();
        plant.install<R>(fd[0]);
        bool pre;
        { sim::Quiet q; pre = sim::chance(1, 3); }
        for (int i = 0; pre && i < per; ++i) emit_any(-1);
        if (when == 6) request(kind);
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t)
            ts.emplace_back([&, t] {
                for (int i = 0; i < per; ++i) {
                    emit_any(-1);
                    int64_t d;
                    { sim::Quiet q; d = sim::chance(1, 3) ? int64_t(sim::pick_log(100, 200000)) : 0; }
                    if (d) sim::sleep_ns(d);
                    if (i == 1 && ::write(fd[1], "x", 1) != 1) sim::fail("setup", "write");
                }
                if (t == 0) for (int i = 0; i < flood; ++i) emit_one<1>(-1);
            });
        for (int t = 0; t < nreq; ++t)
            ts.emplace_back([&, t] {
                sim::sleep_ns(delay_kinds == 0 ? at[0] : delay_kinds == 1 ? at[t] : at[0] + 3000 * t);
                if (when >= 4)   // somebody else is to ask first; make sure that somebody does
                    for (int i = 0; i < 60; ++i) { bool r; { sim::Quiet q; r = W->req_begin != 0; } if (r) break; sim::sleep_ns(20000); }
                int k;
                { sim::Quiet q; k = kind == 0 ? 0 : t == nreq - 1 || sim::chance(1, 2) ? kind : 0; }
                request(k);
            });
        { sim::Quiet q; W->started = true; }
        plant.start();
        {
            sim::Quiet q;
            if (W->in_pool) sim::fail("late", "a task was still executing on a pool when start() returned");
            W->returned = true;
            if (!W->req_begin) sim::fail("returned-early", "start() returned although nobody requested a shutdown");
            for (int i = 0; i < W->n_startup; ++i) if (W->startup_runs[i] != 1) sim::fail("startup-lost", "a Startup reaction did not execute");
            if (!forced)
                for (int i = 0; i < W->n_shutdown; ++i) if (W->shutdown_runs[i] != 1) sim::fail("shutdown-lost", "Shutdown reaction %d had not executed when start() returned", i);
            // A pool that nothing used before the shutdown is not made any more
            std::set<int> made(W->shutdown_pools.begin(), W->shutdown_pools.end());
            for (auto& m : W->emits)
                for (int s = 0; s < NSPEC; ++s)
                    if (((W->mask >> s) & 1) && SPECS[s].type == m.type && m.end && m.end < W->req_begin) made.insert(SPECS[s].pool);
            for (size_t e = 0; e < W->emits.size(); ++e) {
                const EmitS& m = W->emits[e];
                const bool before = m.end && m.end < W->req_begin;
                for (int s = 0; s < NSPEC; ++s) {
                    const Spec& sp = SPECS[s];
                    if (!((W->mask >> s) & 1) || sp.type != m.type || sp.pool == INL) continue;
                    // Persistent pools accept tasks until all the other pools have ended, and from themselves
                    const bool late_ok = m.end && persistent(sp.pool) && made.count(sp.pool) && m.from_pool >= 0 && (!persistent(m.from_pool) || m.from_pool == sp.pool);
                    if (!forced && (before || late_ok)) {
                        ++W->n_required;
                        if (!before) ++W->n_after;
                        if (!m.runs[s]) sim::fail("lost", "%s had not executed for emission %zu of thread %d on pool %d (%s) when start() returned", sp.what, e, m.from_fiber, m.from_pool, before ? "made before shutdown was requested" : "made by a task, for a persistent pool");
                    }
                    else if (!m.runs[s]) ++W->n_optional_dropped;
                }
            }
        }
        int64_t d;
        { sim::Quiet q; d = int64_t(sim::pick_log(1, 300000)); }
        sim::sleep_ns(d);
        for (auto& t : ts) t.join();
        emit_any(-1);   // into a system that has ended
        sim::wait_quiescent(1000000);
        sim::Quiet q;
        if (sim::live_threads() != 0) sim::fail("thread-left", "%d threads had not ended when start() returned", sim::live_threads());
    }
    ::close(fd[0]);
    ::close(fd[1]);
    sim::Quiet q;
    if (when == 4 || when == 7) sim::probe("asked-by-a-task");
    if (when == 5 && W->n_startup) sim::probe("asked-at-startup");
    if (when == 6) sim::probe("asked-before-start");
    if (W->requests > 1) sim::probe("several-requests");
    if (W->n_after) sim::probe("required-after-request");
    if (W->n_optional_dropped) sim::probe("dropped");
    if (flood && nt) sim::probe("flood");
    if (forced ? W->n_run >= 2 && W->n_optional_dropped : W->n_required >= 2) sim::nontrivial();
    sim::sample("%zu emissions, %lu executions, %lu required (%lu of them emitted after the request), %lu not executed, %d requests, first %s", W->emits.size(), (unsigned long)W->n_run, (unsigned long)W->n_required, (unsigned long)W->n_after,
                (unsigned long)W->n_optional_dropped, W->requests, when < 4 ? "by a thread" : when == 5 ? "at start-up" : when == 6 ? "before start" : "by a task");
}
}  // namespace life
#endif
