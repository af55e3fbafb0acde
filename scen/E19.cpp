// Callbacks that throw, under every kind of reaction: nothing but their own task may be affected.
#include <unistd.h>
#include <algorithm>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "E19";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::message::ReactionEvent;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 2; };
struct SG {};
struct WG {};
struct G2 { static constexpr int concurrency = 2; };
struct Msg { int eid; };
struct Later { int id; };
struct Custom { int v; };
struct Derived : std::runtime_error { Derived() : std::runtime_error("derived") {} };

enum Kind { TRIG, SINGLE, BUF, ONCE, EVERY, DOG, DELAY, PIPE, ALWAYS, IDLE, START, STOP, NKIND };
const char* const NAME[NKIND] = {"Trigger", "Single", "Buffer<2>", "Once", "Every", "Watchdog", "Delay", "IO", "Always", "Idle", "Startup", "Shutdown"};
struct Re { Kind kind; std::string what; bool sync, group2; unsigned p_throw; uint64_t runs = 0, threw = 0, ended = 0; uint64_t id = 0; };
struct Run { int re; bool threw; int type; uint64_t task; int eid; };

struct World {
    std::vector<Re> re;
    std::vector<Run> runs;
    std::map<uint64_t, int> run_of_task;
    std::map<uint64_t, int> re_of_id;
    int in_sync = 0, in_g2 = 0;
    uint64_t emits = 0, delays = 0, finished = 0, finished_exc = 0, queued = 0, bytes_sent = 0, bytes_got = 0;
    bool stopping = false;
    int fds[2]{-1, -1};
    int64_t period = 0, dog = 0;
    NUClear::PowerPlant* plant = nullptr;
};
World* W;

void body(int r, int eid) {
    int sleep;
    size_t k;
    {
        sim::Quiet q;
        auto* t = NUClear::threading::ReactionTask::get_current_task();
        if (!t) sim::fail("no-task", "%s: no current task inside a callback", W->re[size_t(r)].what.c_str());
        k = W->runs.size();
        W->runs.push_back(Run{r, false, 0, t->id, eid});
        W->run_of_task[t->id] = int(k);
        W->re[size_t(r)].id = t->parent->id;
        W->re_of_id[t->parent->id] = r;
        ++W->re[size_t(r)].runs;
        if (eid >= 0) for (size_t i = 0; i < k; ++i) if (W->runs[i].re == r && W->runs[i].eid == eid) sim::fail("duplicate", "%s ran twice for one emit", W->re[size_t(r)].what.c_str());
        if (W->re[size_t(r)].sync && ++W->in_sync > 1) sim::fail("sync", "two tasks of one Sync group executed at once (%s entered)", W->re[size_t(r)].what.c_str());
        if (W->re[size_t(r)].group2 && ++W->in_g2 > 2) sim::fail("group", "three tasks of a group of two executed at once (%s entered)", W->re[size_t(r)].what.c_str());
        sleep = int(sim::choose(3));
    }
    if (sleep == 1) sim::sleep_ns(int64_t(sim::pick_log(100, 50000)));
    else if (sleep == 2) sim::yield();
    int type = 0;
    {
        sim::Quiet q;
        if (W->re[size_t(r)].kind == ALWAYS) type = 0;
        if (sim::chance(W->re[size_t(r)].p_throw, 100)) type = int(sim::range(1, 5));
        if (W->re[size_t(r)].sync) --W->in_sync;
        if (W->re[size_t(r)].group2) --W->in_g2;
        W->runs[k].threw = type != 0;
        W->runs[k].type  = type;
        if (type) { ++W->re[size_t(r)].threw; sim::count_fault("callback-exception"); }
        ++W->re[size_t(r)].ended;
    }
    switch (type) {
        case 1: throw std::runtime_error("runtime");
        case 2: throw 42;
        case 3: throw Custom{7};
        case 4: throw Derived();
        case 5: throw std::unique_ptr<int>(new int(3));
        default: return;
    }
}
int type_of(const std::exception_ptr& p) {
    try { std::rethrow_exception(p); }
    catch (const Derived&) { return 4; }
    catch (const std::runtime_error&) { return 1; }
    catch (int i) { return i == 42 ? 2 : -1; }
    catch (const Custom& c) { return c.v == 7 ? 3 : -1; }
    catch (const std::unique_ptr<int>& u) { return u && *u == 3 ? 5 : -1; }
    catch (...) { return -1; }
}
class R : public NUClear::Reactor {
public:
    int rec(Kind k, const char* extra = "", bool sync = false, bool g2 = false) {
        sim::Quiet q;
        Re r{};
        r.kind = k; r.what = std::string(NAME[k]) + extra; r.sync = sync; r.group2 = g2;
        r.p_throw = sim::chance(1, 4) ? 100 : sim::chance(1, 3) ? 0 : 50;
        W->re.push_back(r);
        return int(W->re.size()) - 1;
    }
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        unsigned mask;
        uint64_t variant;
        {
            sim::Quiet q;
            mask = unsigned(sim::choose(1u << NKIND)) | 1;
            variant = sim::choose(4096);
            W->period = int64_t(sim::range(1, 4)) * 1000000;
            W->dog    = int64_t(sim::range(2, 6)) * 1000000;
        }
        // The finishing event of each task
        on<Trigger<ReactionEvent>>().then([](const ReactionEvent& ev) {
            if (ev.type != ReactionEvent::FINISHED) return;
            int got = 0;
            const bool has = ev.statistics->exception != nullptr;
            int k;
            {
                sim::Quiet q;
                auto it = W->run_of_task.find(ev.statistics->target.task_id);
                if (it == W->run_of_task.end()) { if (has) sim::fail("false-exception", "a task of another reaction was reported to have thrown"); return; }
                k = it->second;
                const Run& run = W->runs[size_t(k)];
                ++W->finished;
                if (has) ++W->finished_exc;
                if (run.threw != has) sim::fail("exception-report", "%s: callback threw %d (kind %d), finishing event reports an exception %d", W->re[size_t(run.re)].what.c_str(), run.threw, run.type, has);
            }
            if (has) {
                got = type_of(ev.statistics->exception);
                sim::Quiet q;
                if (got != W->runs[size_t(k)].type) sim::fail("exception-value", "%s threw kind %d, its finishing event holds kind %d", W->re[size_t(W->runs[size_t(k)].re)].what.c_str(), W->runs[size_t(k)].type, got);
            }
        });
        for (int n = 0; n < 2; ++n) {
            switch ((variant >> (n * 3)) & 7) {
                case 0: { int r = rec(TRIG); on<Trigger<Msg>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                case 1: { int r = rec(TRIG, ", Sync", true); on<Trigger<Msg>, Sync<SG>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                case 2: { int r = rec(TRIG, ", Pool<2>, Sync", true); on<Trigger<Msg>, Pool<PB>, Sync<SG>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                case 3: { int r = rec(TRIG, ", Group<2>, Pool<2>", false, true); on<Trigger<Msg>, Group<G2>, Pool<PB>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                case 4: { int r = rec(TRIG, ", Inline::ALWAYS, Sync", true); on<Trigger<Msg>, Inline::ALWAYS, Sync<SG>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                case 5: { int r = rec(TRIG, ", MainThread"); on<Trigger<Msg>, MainThread>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                case 6: { int r = rec(TRIG, ", Pool<1>, Group<2>", false, true); on<Trigger<Msg>, Pool<PA>, Group<G2>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
                default: { int r = rec(TRIG, ", Sync, Group<2>", true, true); on<Trigger<Msg>, Sync<SG>, Group<G2>>().then([r](const Msg& m) { body(r, m.eid); }); break; }
            }
        }
        if (mask & (1 << SINGLE)) { int r = rec(SINGLE); on<Trigger<Msg>, Single>().then([r](const Msg&) { body(r, -1); }); }
        if (mask & (1 << BUF)) { int r = rec(BUF); on<Trigger<Msg>, Buffer<2>, Pool<PA>>().then([r](const Msg&) { body(r, -1); }); }
        if (mask & (1 << ONCE)) { int r = rec(ONCE); on<Trigger<Msg>, Once>().then([r](const Msg&) { body(r, -1); }); }
        if (mask & (1 << EVERY)) { int r = rec(EVERY); on<Every<>, Pool<PB>>(NUClear::clock::duration(W->period)).then([r] { body(r, -1); }); }
        if (mask & (1 << DOG)) { int r = rec(DOG); on<Watchdog<WG, 5, std::chrono::milliseconds>>().then([r] { body(r, -1); }); }
        if (mask & (1 << DELAY)) { int r = rec(DELAY); on<Trigger<Later>>().then([r](const Later& l) { body(r, l.id); }); }
        if (mask & (1 << PIPE)) {
            int r = rec(PIPE);
            on<IO>(W->fds[0], IO::READ).then([r](const IO::Event& ev) {
                if (!(ev.events & IO::READ)) sim::fail("io-event", "IO reaction ran without its event");
                char b[3];
                const ssize_t n = ::read(W->fds[0], b, 1);
                { sim::Quiet q; if (n > 0) W->bytes_got += uint64_t(n); }
                body(r, -1);
            });
        }
        if (mask & (1 << ALWAYS)) { int r = rec(ALWAYS); on<Always>().then([r] { { sim::Quiet q; if (W->re[size_t(r)].runs - W->re[size_t(r)].ended) sim::fail("always-twice", "two instances of an Always reaction"); } sim::sleep_ns(300000); body(r, -1); }); }
        if (mask & (1 << IDLE)) { int r = rec(IDLE); on<Idle<Pool<PA>>>().then([r] { body(r, -1); }); int t = rec(TRIG, ", Pool<1>"); on<Trigger<Msg>, Pool<PA>>().then([t](const Msg& m) { body(t, m.eid); }); }
        if (mask & (1 << START)) { int r = rec(START); on<Startup>().then([r] { body(r, -1); }); }
        if (mask & (1 << STOP)) { int r = rec(STOP); on<Shutdown>().then([r] { body(r, -1); }); }
    }
};
const Re* find(Kind k) { for (auto& r : W->re) if (r.kind == k) return &r; return nullptr; }
}  // namespace
void scenario() {
    NUClear::Configuration c;
    World* w;
    int nthreads, phases;
    {
        sim::Quiet q;
        W = w = new World();
        c.default_pool_concurrency = int(sim::range(1, 3));
        nthreads = int(sim::range(1, 3));
        phases   = int(sim::range(1, 3));
    }
    sim::no_stalls();
    if (::pipe(w->fds) != 0) sim::fail("setup", "pipe");
    NUClear::PowerPlant plant(c);
    w->plant = &plant;
    plant.install<NUClear::extension::ChronoController>();
    plant.install<NUClear::extension::IOController>();
    plant.install<R>();
    uint64_t emitted = 0;
    std::thread driver([&] {
        sim::sleep_ns(1000000);
        for (int p = 0; p < phases; ++p) {
            std::vector<uint64_t> runs0;
            { sim::Quiet q; for (auto& r : w->re) runs0.push_back(r.runs); }
            const uint64_t queued0 = w->queued;
            const int64_t t0 = sim::now_ns();
            std::vector<std::thread> t;
            for (int i = 0; i < nthreads; ++i)
                t.emplace_back([w] {
                    int n;
                    { sim::Quiet q; n = int(sim::range(1, 4)); }
                    for (int j = 0; j < n; ++j) {
                        auto m = std::make_unique<Msg>();
                        bool inl, later, pipe;
                        int64_t d;
                        { sim::Quiet q; m->eid = int(w->emits++); inl = sim::chance(1, 4); w->queued += !inl; later = sim::chance(1, 3); pipe = sim::chance(1, 2); d = int64_t(sim::pick_log(1000, 3000000)); }
                        if (inl) w->plant->emit<word::emit::Inline>(m); else w->plant->emit(m);
                        if (later) {
                            auto l = std::make_unique<Later>();
                            { sim::Quiet q; l->id = int(w->delays++); }
                            w->plant->emit<word::emit::Delay>(l, NUClear::clock::duration(d));
                        }
                        if (pipe) { if (::write(w->fds[1], "x", 1) == 1) { sim::Quiet q; ++w->bytes_sent; } }
                        sim::sleep_ns(20000);
                    }
                });
            for (auto& x : t) x.join();
            // two watchdog timeouts and several periods
            sim::sleep_ns(16000000);
            sim::Quiet q;
            const int64_t dt = sim::now_ns() - t0;
            for (size_t i = 0; i < w->re.size(); ++i) {
                Re& r = w->re[i];
                const uint64_t n = r.runs - runs0[i];
                auto lost = [&](const char* why, uint64_t want) { sim::fail("stopped", "%s (%lu of %lu runs so far threw): %s: executed %lu times in %.1f ms, at least %lu expected", r.what.c_str(), (unsigned long)r.threw, (unsigned long)r.runs, why, (unsigned long)n, double(dt) / 1e6, (unsigned long)want); };
                switch (r.kind) {
                    case TRIG: if (r.runs != w->emits) sim::fail("lost", "%s ran %lu times for %lu emits", r.what.c_str(), (unsigned long)r.runs, (unsigned long)w->emits); break;
                    case SINGLE: case BUF: if (n == 0) lost("a limit was never released", 1); break;
                    case ONCE: if (r.runs != 1) sim::fail("once", "Once ran %lu times", (unsigned long)r.runs); break;
                    case EVERY: { const uint64_t want = uint64_t(dt / w->period); if (n + 2 < want) lost("periods were lost", want - 2); if (n > want + 2) sim::fail("too-often", "Every ran %lu times in %lu periods", (unsigned long)n, (unsigned long)want); break; }
                    case DOG: { const uint64_t want = uint64_t(dt / 5000000); if (n + 1 < want) lost("the watchdog stopped", want - 1); if (n > want + 1) sim::fail("too-often", "Watchdog fired %lu times in %.1f ms", (unsigned long)n, double(dt) / 1e6); break; }
                    case DELAY: if (r.runs != w->delays) sim::fail("lost", "Delay delivered %lu of %lu", (unsigned long)r.runs, (unsigned long)w->delays); break;
                    case PIPE: if (w->bytes_got != w->bytes_sent) sim::fail("lost", "IO reaction stopped: %lu of %lu bytes were read (%lu of %lu runs threw)", (unsigned long)w->bytes_got, (unsigned long)w->bytes_sent, (unsigned long)r.threw, (unsigned long)r.runs); break;
                    case ALWAYS: if (n < uint64_t(dt / 1500000)) lost("the loop stopped", uint64_t(dt / 1500000)); break;
                    case IDLE: if (n == 0 && w->queued > queued0) lost("never idle again", 1); break;
                    case START: if (r.runs != 1) sim::fail("startup", "Startup ran %lu times", (unsigned long)r.runs); break;
                    default: break;
                }
            }
        }
        { sim::Quiet q; w->stopping = true; }
        plant.shutdown();
    });
    plant.start();
    driver.join();
    sim::Quiet q;
    uint64_t threw = 0;
    for (auto& r : w->re) {
        if (r.kind == STOP && r.runs != 1) sim::fail("shutdown", "Shutdown reaction ran %lu times", (unsigned long)r.runs);
        threw += r.threw;
        if (r.threw) sim::probe((std::string("threw:") + NAME[r.kind]).c_str());
    }
    sim::sample("%zu reactions, %zu tasks, %lu threw, %lu finishing events seen (%lu with exception)", w->re.size(), w->runs.size(), (unsigned long)threw, (unsigned long)w->finished, (unsigned long)w->finished_exc);
    if (threw && w->finished_exc) sim::nontrivial();
    ::close(w->fds[0]);
    ::close(w->fds[1]);
}
