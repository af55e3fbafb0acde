// Emitting publishes memory: race detection on what user code writes before it emits, in Sync groups and before the end.
#include <algorithm>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "V06";
namespace {
namespace word = NUClear::dsl::word;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 3; };
struct SG {};
struct SH {};
struct G2 { static constexpr int concurrency = 2; };
constexpr uint64_t FILL = 0x9E3779B97F4A7C15ULL;

// What a message points to: ordinary memory of the user's, written just before the emit
struct Box {
    uint64_t id, words[5];
    std::string text;
};
Box* make_box(uint64_t id) {
    auto* b = new Box();
    { sim::Quiet q; sim::track(b, sizeof(Box), "message payload"); }
    b->id = id;
    for (int i = 0; i < 5; ++i) b->words[i] = id * FILL + uint64_t(i);
    b->text.assign(24, char('a' + id % 26));
    return b;
}
void read_box(const Box* b, const char* where) {
    const uint64_t id = b->id;
    bool ok           = b->text.size() == 24 && b->text[0] == char('a' + id % 26);
    for (int i = 0; i < 5; ++i) ok = ok && b->words[i] == id * FILL + uint64_t(i);
    if (!ok) { sim::Quiet q; sim::fail("torn", "%s: a reaction read a payload that was not what had been written before the emit", where); }
}
template <int I>
struct Msg {
    uint64_t id;
    std::shared_ptr<Box> box;
    explicit Msg(uint64_t id) : id(id), box(make_box(id)) { sim::Quiet q; sim::track(&this->id, sizeof this->id, "message"); }
};
// State touched only by the tasks of one Sync group
struct State { uint64_t n = 0, sum = 0; std::vector<uint64_t> log; uint64_t twin = 0; };
struct World {
    State sg, sh;
    uint64_t before_start[4] = {}, shutdown_note = 0, per_task[600] = {}, startup_note = 0;
    // the harness's own
    uint64_t next_id = 1, slots = 0, n_sync = 0, n_run = 0;
    int budget = 40;
    bool closed = false;
    NUClear::PowerPlant* plant = nullptr;
};
World* W;
void touch(State& s, uint64_t v) {
    const uint64_t n = s.n;
    if (s.twin != n) { sim::Quiet q; sim::fail("sync-state", "the state of a Sync group was seen half updated"); }
    s.sum += v;
    s.log.push_back(v);
    { sim::Quiet q; ++W->n_sync; if (!s.log.empty()) sim::track(s.log.data(), s.log.capacity() * sizeof(uint64_t), "state of a Sync group"); }
    bool rest;
    { sim::Quiet q; rest = sim::chance(1, 4); }
    if (rest) sim::yield();
    s.n    = n + 1;
    s.twin = n + 1;
}
template <int I> void send(int how);
void more(int depth) {
    int n, type, how;
    {
        sim::Quiet q;
        n    = W->closed || W->budget <= 0 || depth > 3 ? 0 : int(sim::choose(2));
        type = int(sim::choose(3)), how = int(sim::choose(4));
        W->budget -= n;
    }
    if (!n) return;
    if (type == 0) send<0>(how); else if (type == 1) send<1>(how); else send<2>(how);
}
template <int I> void send(int how) {
    uint64_t id;
    int64_t d;
    { sim::Quiet q; id = W->next_id++; d = int64_t(sim::pick_log(1000, 500000)); }
    auto m = std::make_unique<Msg<I>>(id);
    if (how == 1) W->plant->emit<word::emit::Inline>(m);
    else if (how == 2) W->plant->emit<word::emit::Delay>(m, NUClear::clock::duration(d));
    else W->plant->emit(m);
}
// Every task leaves its result in memory of its own, read once start() has returned
void result() {
    uint64_t slot;
    { sim::Quiet q; slot = W->slots++; ++W->n_run; }
    if (slot < 600) W->per_task[slot] = slot + 1;
}
template <int I> void use(const Msg<I>& m, const char* where) {
    if (m.box->id != m.id) { sim::Quiet q; sim::fail("torn", "%s: wrong payload", where); }
    read_box(m.box.get(), where);
    result();
    more(0);
}
struct Tick {};
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        uint64_t m;
        { sim::Quiet q; m = sim::choose(1u << 16) | (1u << sim::choose(3)); }
        auto has = [&](int b) { return (m >> b) & 1; };
        if (has(0)) on<Trigger<Msg<0>>>().then([](const Msg<0>& x) { use(x, "Trigger"); });
        if (has(1)) on<Trigger<Msg<0>>, Pool<PA>>().then([](const Msg<0>& x) { use(x, "Trigger, Pool<1>"); });
        if (has(2)) on<Trigger<Msg<0>>, Pool<PB>, Sync<SG>>().then([](const Msg<0>& x) { use(x, "Trigger, Pool<3>, Sync"); touch(W->sg, x.id); });
        if (has(3)) on<Trigger<Msg<1>>, Sync<SG>>().then([](const Msg<1>& x) { touch(W->sg, x.id); use(x, "Trigger, Sync"); });
        if (has(4)) on<Trigger<Msg<1>>, Sync<SG>, MainThread>().then([](const Msg<1>& x) { use(x, "Trigger, Sync, MainThread"); touch(W->sg, x.id); });
        if (has(5)) on<Trigger<Msg<1>>, Sync<SG>, Sync<SH>, Pool<PA>>().then([](const Msg<1>& x) { touch(W->sg, x.id); touch(W->sh, x.id); use(x, "Trigger, Sync, Sync"); });
        if (has(6)) on<Trigger<Msg<2>>, Sync<SH>, Inline::ALWAYS>().then([](const Msg<2>& x) { touch(W->sh, x.id); use(x, "Trigger, Sync, Inline"); });
        if (has(7)) on<Trigger<Msg<2>>, With<Msg<0>>, Pool<PB>>().then([](const Msg<2>& x, const Msg<0>& y) { use(y, "With"); use(x, "Trigger with With"); });
        if (has(8)) on<Last<3, Trigger<Msg<0>>>, Pool<PA>>().then([](const std::list<std::shared_ptr<const Msg<0>>>& l) { for (auto& x : l) if (x) use(*x, "Last"); });
        if (has(9)) on<Trigger<Msg<1>>, Optional<With<Msg<2>>>, Single>().then([](const Msg<1>& x, const std::shared_ptr<const Msg<2>>& y) { if (y) use(*y, "Optional<With>"); use(x, "Trigger, Single"); });
        if (has(10)) on<Every<>, Sync<SG>, With<Msg<1>>>(std::chrono::microseconds(500)).then([](const Msg<1>& x) { bool go; { sim::Quiet q; go = W->n_run < 300; } if (!go) return; touch(W->sg, 1); use(x, "Every with With"); });
        if (has(11)) on<Trigger<Msg<0>>, Trigger<Msg<1>>, Group<G2>>().then([](const Msg<0>& x, const Msg<1>& y) { use(x, "Trigger of two"); use(y, "Trigger of two"); });
        if (has(12)) on<Trigger<Msg<2>>, Once, Pool<PA>>().then([](const Msg<2>& x) { use(x, "Once"); });
        if (has(13)) on<Trigger<Msg<2>>, Buffer<2>, Priority::HIGH, Group<G2>, Sync<SH>>().then([](const Msg<2>& x) { touch(W->sh, x.id); use(x, "Buffer, Group, Sync"); });
        on<Startup>().then([] {
            if (W->before_start[0] != 1 || W->before_start[3] != 4) sim::fail("torn", "Startup does not see what was written before start()");
            W->startup_note = 7;
        });
        // pool tasks see what the main thread and the Startup reactions did
        on<Trigger<Tick>, Pool<PB>>().then([] {
            if (W->before_start[1] != 2 || W->startup_note != 7) sim::fail("torn", "a task does not see what was written before start() or in Startup");
            result();
        });
        on<Startup>().then([this] { emit(std::make_unique<Tick>()); });
        on<Shutdown, Pool<PB>>().then([] { if (W->shutdown_note != 99) sim::fail("torn", "Shutdown does not see what was written before shutdown()"); result(); });
    }
};
}  // namespace
void scenario() {
    NUClear::Configuration c;
    World* w;
    int nt, per;
    {
        sim::Quiet q;
        W = w = new World();
        sim::enable_race_detector();
        sim::track(&w->sg, sizeof w->sg, "state of a Sync group");
        sim::track(&w->sh, sizeof w->sh, "state of a Sync group");
        sim::track(w->before_start, sizeof w->before_start, "memory written before start()");
        sim::track(&w->shutdown_note, 8, "memory written before shutdown()");
        sim::track(&w->startup_note, 8, "memory written in Startup");
        sim::track(w->per_task, sizeof w->per_task, "result of a task");
        c.default_pool_concurrency = int(sim::range(1, 3));
        nt  = int(sim::range(1, 3));
        per = int(sim::range(2, 8));
    }
    {
        NUClear::PowerPlant plant(c);
        w->plant = &plant;
        plant.install<NUClear::extension::ChronoController>();
        plant.install<R>();
        for (uint64_t i = 0; i < 4; ++i) w->before_start[i] = i + 1;
        std::thread driver([&] {
            sim::sleep_ns(100000);
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([per] {
                    for (int i = 0; i < per; ++i) {
                        int how, type;
                        { sim::Quiet q; how = int(sim::choose(4)); type = int(sim::choose(3)); }
                        if (type == 0) send<0>(how); else if (type == 1) send<1>(how); else send<2>(how);
                        bool nap;
                        { sim::Quiet q; nap = sim::chance(1, 3); }
                        if (nap) sim::sleep_ns(20000);
                    }
                });
            for (auto& t : ts) t.join();
            sim::sleep_ns(2000000);
            { sim::Quiet q; w->closed = true; }
            w->shutdown_note = 99;
            plant.shutdown();
        });
        plant.start();
        // after start() returns everything the tasks wrote is there, without asking the driver
        uint64_t n;
        { sim::Quiet q; n = std::min<uint64_t>(w->slots, 600); }
        for (uint64_t i = 0; i < n; ++i)
            if (w->per_task[i] != i + 1) sim::fail("torn", "the result of a task is not visible after start() returned");
        if (w->sg.n != w->sg.log.size() || w->sg.twin != w->sg.n || w->sh.n != w->sh.log.size()) sim::fail("sync-state", "updates in a Sync group were lost");
        driver.join();
    }
    sim::Quiet q;
    if (w->n_sync >= 2) sim::probe("sync");
    if (w->n_run >= 5) sim::nontrivial();
    sim::sample("%lu tasks, %lu updates of Sync state", (unsigned long)w->n_run, (unsigned long)w->n_sync);
}
