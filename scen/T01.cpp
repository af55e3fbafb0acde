#include "world.hpp"
const char* const scenario_property = "T01";
namespace {
// Enough tasks at once that the queues of the pools and groups grow, while they are consumed
namespace flood {
struct PA { static constexpr const char* name = "FA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "FB"; static constexpr int concurrency = 3; };
struct SG {};
struct F { int thread, n; };
constexpr int NR = 5, NT = 4, NM = 200;
struct S { int on[NR], seen[NR][NT][NM], last[NR][NT], sent[NT]; int pause; uint64_t total; };
S* W;
void got(int r, const F& f, bool ordered) {
    sim::Quiet q;
    if (f.n < 0 || f.thread < 0 || f.thread >= NT || f.n >= W->sent[f.thread]) sim::fail("invented", "reaction %d ran with a message that was not emitted", r);
    if (W->seen[r][f.thread][f.n]++) sim::fail("duplicate", "reaction %d ran twice for message %d of emitter %d", r, f.n, f.thread);
    if (ordered) {
        if (W->last[r][f.thread] > f.n) sim::fail("order", "pool of one thread: message %d of emitter %d ran after message %d", f.n, f.thread, W->last[r][f.thread]);
        W->last[r][f.thread] = f.n;
    }
    ++W->total;
}
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        if (W->on[0]) on<Trigger<F>, Pool<PA>>().then([](const F& f) { got(0, f, true); });
        if (W->on[1]) on<Trigger<F>, Pool<PB>>().then([](const F& f) { got(1, f, false); });
        if (W->on[2]) on<Trigger<F>>().then([](const F& f) { got(2, f, false); });
        if (W->on[3]) on<Trigger<F>, Sync<SG>, Pool<PB>>().then([](const F& f) { got(3, f, false); });
        if (W->on[4]) on<Trigger<F>, MainThread>().then([](const F& f) { got(4, f, true); });
    }
};
void run() {
    int nt, lens[NT];
    NUClear::Configuration c;
    {
        sim::Quiet q;
        W = new S();
        nt = int(sim::range(1, NT));
        const int which = int(sim::range(1, (1 << NR) - 1));
        for (int r = 0; r < NR; ++r) { W->on[r] = (which >> r) & 1; for (int t = 0; t < NT; ++t) W->last[r][t] = -1; }
        for (int t = 0; t < nt; ++t) lens[t] = int(sim::chance(1, 3) ? sim::range(60, 68) : sim::range(20, 150));
        c.default_pool_concurrency = int(sim::range(1, 3));
        W->pause = int(sim::choose(3));
    }
    sim::set_budget(600000);
    NUClear::PowerPlant plant(c);
    plant.install<R>();
    std::thread driver([&] {
        sim::wait_quiescent(100000);
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; ++t)
            ts.emplace_back([t, &lens, &plant] {
                for (int i = 0; i < lens[t]; ++i) {
                    auto f = std::make_unique<F>(F{t, i});
                    bool rest;
                    { sim::Quiet q; W->sent[t] = i + 1; rest = W->pause && sim::chance(1, W->pause == 1 ? 8 : 40); }
                    plant.emit(f);
                    if (rest) sim::yield();
                }
            });
        for (auto& t : ts) t.join();
        // No faults and no unfairness any more: everything has to run
        sim::stop_faults();
        sim::fair_from_now();
        sim::wait_quiescent(10000000000);
        { 
            sim::Quiet q;
            for (int r = 0; r < NR; ++r)
                for (int t = 0; t < nt; ++t)
                    for (int i = 0; W->on[r] && i < lens[t]; ++i)
                        if (!W->seen[r][t][i]) sim::fail("lost", "reaction %d never ran for message %d of emitter %d (%d messages)", r, i, t, lens[t]);
        }
        plant.shutdown();
    });
    plant.start();
    driver.join();
    sim::Quiet q;
    sim::probe("flood");
    sim::nontrivial();
    sim::sample("flood: %d emitters, %lu tasks executed", nt, (unsigned long)W->total);
}
}  // namespace flood
}  // namespace
void scenario() {
    if (sim::chance(1, 6)) return flood::run();
    world::Knobs k;
    k.o_exact = k.o_order = true;
    world::run_world(k);
}
