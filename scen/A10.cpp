// Always reactions of every kind next to other work: each runs again and again, alone, on a thread of its own, and no faster
// than it finishes.
#include <algorithm>
#include <map>
#include <memory>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "A10";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
using NUClear::threading::ReactionTask;
constexpr uint64_t US = 1000, MS = 1000000;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 2; };
struct SG {};
struct G2 { static constexpr int concurrency = 2; };
struct Need { int v; };
struct Note { int v; };
struct Work { int v; };
enum { PLAIN, P_IDLE, P_LOW, P_HIGH, P_RT, SYNC, GROUP, WITH, LAST_OF, OPTIONAL, SINGLE, NKIND };
static const char* const KIND[] = {"", ", Priority::IDLE", ", Priority::LOW", ", Priority::HIGH", ", Priority::REALTIME", ", Sync", ", Group of 2", ", With", ", Last<2, With>", ", Optional<With>", ", Single"};
struct Loop {
    int kind, throws, self_off;
    bool busy = false, set = false, enabled = true;
    int thread = -1;
    uint64_t created = 0, executed = 0, finished = 0;
    uint64_t off = 0;                    // when disable() or unbind() returned
    uint64_t left = 0;                   // what was on its way then
    bool was_off = false;
    int state = 0;                       // 0 on, 1 being changed, 2 disabled, 3 unbound
    ReactionHandle handle = ReactionHandle();
};
struct World {
    std::vector<Loop> loop;
    std::map<NUClear::id_t, int> of;
    std::set<int> others;                // threads that other reactions ran on
    bool need = false, need_begun = false, down = false, calm = false;
    uint64_t n_exec = 0, n_throw = 0, n_other = 0, n_off = 0, n_missing = 0, worst = 0;
    int in[8] = {};
};
World* W;
struct Mark {
    template <typename DSL> static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) { sim::Quiet q; W->of[r->id] = idx; }
    template <typename DSL> static bool precondition(ReactionTask& t) {
        sim::Quiet q;
        Loop& l = W->loop[size_t(W->of.at(t.parent->id))];
        // Each that runs makes one more, and the one that looks after it a few at the start
        if ((l.kind == WITH || l.kind == LAST_OF) && !W->need) return true;   // those have nothing to run with
        ++l.created;
        const uint64_t n = l.created - l.executed;
        W->worst = std::max(W->worst, n);
        if (n > 8 && l.kind != SINGLE && l.kind != WITH && l.kind != LAST_OF) sim::fail("many", "there are %lu instances of an Always%s reaction", (unsigned long)n, KIND[l.kind]);
        return true;
    }
};
void body(int i) {
    bool thr, off;
    int64_t nap;
    {
        sim::Quiet q;
        Loop& l = W->loop[size_t(i)];
        if (l.busy) sim::fail("two", "two instances of an Always%s reaction ran at once", KIND[l.kind]);
        l.busy = true;
        ++l.executed;
        ++W->n_exec;
        const int me = sim::self();
        if (l.thread == -1) {
            l.thread = me;
            for (auto& o : W->loop) if (&o != &l && o.thread == me) sim::fail("thread", "two Always reactions ran on one thread");
            if (W->others.count(me)) sim::fail("thread", "an Always reaction ran on the thread of others");
        }
        if (l.thread != me) sim::fail("thread", "an Always%s reaction ran on another thread than before", KIND[l.kind]);
        if (l.state >= 2) {
            if (l.left == 0) sim::fail("off", "an Always%s reaction was executed after it had been %s", KIND[l.kind], l.state == 3 ? "unbound" : "disabled");
            --l.left;
        }
        thr = l.throws && sim::chance(1, unsigned(l.throws));
        off = l.self_off > 0 && l.set && --l.self_off == 0 && l.state == 0;
        if (off) l.state = 1;
        nap = int64_t(sim::chance(1, 8) ? sim::pick_log(100, 300 * US) : sim::pick_log(1 * US, 20 * US));
    }
    sim::sleep_ns(nap);
    if (off) {
        W->loop[size_t(i)].handle.unbind();
        sim::Quiet q;
        W->loop[size_t(i)].state = 3;
        ++W->n_off;
    }
    {
        sim::Quiet q;
        W->loop[size_t(i)].busy = false;
        ++W->loop[size_t(i)].finished;
        if (thr) ++W->n_throw;
    }
    if (thr) throw std::runtime_error("callback");
}
void other() {
    sim::Quiet q;
    const int me = sim::self();
    W->others.insert(me);
    ++W->n_other;
    for (auto& l : W->loop) if (l.thread == me) sim::fail("thread", "another reaction ran on the thread of an Always reaction");
}
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e, int n) : Reactor(std::move(e)) {
        for (int i = 0; i < n; ++i) bind(i);
        on<Trigger<Work>>().then([](const Work& w) { other(); nap(w.v); });
        on<Trigger<Work>, Sync<SG>>().then([](const Work& w) { other(); nap(w.v); });
        on<Trigger<Work>, Group<G2>, Pool<PA>>().then([](const Work& w) { other(); nap(w.v); });
        on<Trigger<Note>, Inline::ALWAYS>().then([](const Note&) {});
    }
    static void nap(int v) { if (v) sim::sleep_ns(v); }
    void bind(int i) {
        int kind;
        { sim::Quiet q; kind = W->loop[size_t(i)].kind; }
        auto f = [i] { body(i); };
        ReactionHandle h = ReactionHandle();
        switch (kind) {
            case PLAIN: h = on<Mark, Always>(i).then(std::move(f)); break;
            case P_IDLE: h = on<Mark, Always, Priority::IDLE>(i).then(std::move(f)); break;
            case P_LOW: h = on<Mark, Always, Priority::LOW>(i).then(std::move(f)); break;
            case P_HIGH: h = on<Mark, Always, Priority::HIGH>(i).then(std::move(f)); break;
            case P_RT: h = on<Mark, Always, Priority::REALTIME>(i).then(std::move(f)); break;
            case SYNC: h = on<Mark, Always, Sync<SG>>(i).then(std::move(f)); break;
            case GROUP: h = on<Mark, Always, Group<G2>>(i).then(std::move(f)); break;
            case WITH: h = on<Mark, Always, With<Need>>(i).then([i](const Need&) { body(i); }); break;
            case LAST_OF: h = on<Mark, Always, Last<2, With<Need>>>(i).then([i](const std::list<std::shared_ptr<const Need>>& l) { if (l.empty()) { sim::Quiet q; sim::fail("data", "Last without data"); } body(i); }); break;
            case OPTIONAL: h = on<Mark, Always, Optional<With<Need>>>(i).then([i](const std::shared_ptr<const Need>&) { body(i); }); break;
            default: h = on<Mark, Always, Single>(i).then(std::move(f)); break;
        }
        sim::Quiet q;
        W->loop[size_t(i)].handle = h;
        W->loop[size_t(i)].set    = true;
    }
    void work(int v) { emit(std::make_unique<Work>(Work{v})); }
    void need() {
        { sim::Quiet q; W->need = true; }
        emit(std::make_unique<Need>(Need{1}));
    }
};
R* reactor;
void act() {
    int what, i = -1, v = 0;
    {
        sim::Quiet q;
        what = int(sim::choose(6));
        i    = int(sim::choose(W->loop.size()));
        v    = sim::chance(1, 3) ? 0 : int(sim::pick_log(100, 50 * US));
        Loop& l = W->loop[size_t(i)];
        if (what == 0 && l.set && (l.state == 0 || l.state == 2)) {
            what    = l.state == 2 ? 1 : sim::chance(1, 4) ? 2 : 0;
            l.state = 1;
        }
        else what = what == 5 ? 4 : 3;
    }
    Loop& l = W->loop[size_t(i)];
    if (what == 0) { l.handle.disable(); }
    if (what == 1) { l.handle.enable(); }
    if (what == 2) { l.handle.unbind(); }
    if (what == 3) reactor->work(v);
    if (what == 4) reactor->need();
    sim::Quiet q;
    if (what <= 2) {
        l.state = what == 0 ? 2 : what == 1 ? 0 : 3;
        l.left  = l.created - l.executed + (l.kind == WITH || l.kind == LAST_OF ? 3 : 1);   // those may not have been counted
        l.was_off = true;
        ++W->n_off;
    }
}
}  // namespace
void scenario() {
    int conc, n, nt, per;
    World world;
    {
        sim::Quiet q;
        W    = &world;
        conc = int(sim::range(1, 3));
        n    = int(sim::range(1, 3));
        nt   = int(sim::range(1, 2));
        per  = int(sim::range(1, 8));
        for (int i = 0; i < n; ++i) {
            Loop l{};
            l.kind     = int(sim::choose(NKIND));
            l.throws   = sim::chance(1, 3) ? int(sim::range(1, 4)) : 0;
            l.self_off = sim::chance(1, 8) ? int(sim::range(1, 5)) : 0;
            W->loop.push_back(l);
        }
        sim::set_spurious(1, 30);
    }
    sim::set_budget(2000000);
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        reactor = &plant.install<R>(n);
        std::thread driver([&] {
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([&] {
                    for (int i = 0; i < per; ++i) {
                        act();
                        int64_t d = 0;
                        { sim::Quiet q; if (sim::chance(2, 3)) d = int64_t(sim::pick_log(100, 200 * US)); }
                        if (d) sim::sleep_ns(d);
                    }
                });
            for (auto& t : ts) t.join();
            sim::stop_faults();
            sim::fair_from_now();
            bool need;
            { sim::Quiet q; need = sim::chance(3, 4); }
            if (need) reactor->need();
            std::vector<uint64_t> was;
            { sim::Quiet q; for (auto& l : W->loop) was.push_back(l.finished); }
            auto going = [&] {
                sim::Quiet q;
                for (size_t i = 0; i < W->loop.size(); ++i) {
                    Loop& l = W->loop[i];
                    if (l.state != 0 || ((l.kind == WITH || l.kind == LAST_OF) && !W->need)) continue;
                    // What starts it again has a lower priority than the other reactions of its group that are always waiting
                    if (l.was_off && (l.kind == SYNC || l.kind == GROUP) && std::count_if(W->loop.begin(), W->loop.end(), [&](const Loop& o) { return o.kind == l.kind; }) > 1) continue;
                    if (l.finished < was[i] + 3) return int(i);
                }
                return -1;
            };
            for (int k = 0; k < 300 && going() >= 0; ++k) sim::sleep_ns(50 * US);
            {
                const int i = going();
                sim::Quiet q;
                if (i >= 0) sim::fail("stopped", "an Always%s reaction was executed %lu times and then not any more", KIND[W->loop[size_t(i)].kind], (unsigned long)W->loop[size_t(i)].finished);
                for (auto& l : W->loop) if ((l.kind == WITH || l.kind == LAST_OF) && !W->need) ++W->n_missing;
            }
            plant.shutdown();
        });
        plant.start();
        driver.join();
        sim::Quiet q;
        for (auto& l : W->loop) if (l.busy) sim::fail("busy", "an Always reaction was still executing when the system had ended");
        for (auto& l : W->loop) l.handle = ReactionHandle();
    }
    sim::Quiet q;
    if (W->n_exec >= 10) sim::nontrivial();
    if (W->n_throw) sim::probe("threw");
    if (W->n_off) sim::probe("switched-off");
    if (W->n_missing) sim::probe("missing-data");
    sim::sample("%d loops, %lu executions, %lu at most on their way", n, (unsigned long)W->n_exec, (unsigned long)W->worst);
}
