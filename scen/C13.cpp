// Timers: Every reactions and delayed emits of all lengths, added and removed at any moment by several threads; each firing is
// judged against the exact schedule on the simulated clock.
#include <algorithm>
#include <map>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "C13";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
using NUClear::threading::ReactionTask;
using clk = NUClear::clock;
using ns = std::chrono::nanoseconds;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct SG {};
constexpr int64_t US = 1000, MS = 1000000;
constexpr int64_t SLACK = 2 * MS;         // how late a timer of a system that isn't overloaded may be
int64_t clock_ns() { return std::chrono::duration_cast<ns>(clk::now().time_since_epoch()).count(); }
enum { DEF, MAIN, pA, SYNC, INL, NKIND };
static const char* const KIND[] = {"", ", MainThread", ", Pool", ", Sync", ", Inline::ALWAYS"};
struct EveryS {
    int64_t period; int kind; int self_unbind;
    int64_t b0 = 0, b1 = 0;               // the clock around the bind
    uint64_t bound = 0, unb_begin = 0, unb_end = 0; int64_t unb_clock = 0;
    int created = 0, executed = 0, after_unbind = 0;
    bool busy = false, handle_set = false;
    ReactionHandle handle = ReactionHandle();
};
struct DelayS {
    int64_t lo, hi, created_at; int type; // due within
    uint64_t begun, ended; bool on_chrono;
    int created = 0, executed = 0;
};
struct Span;
struct World {
    std::vector<Span*> spans;
    std::vector<EveryS> every;
    std::vector<DelayS> delay;
    std::map<NUClear::id_t, int> of;      // reaction -> every (or -1 - type of delayed message)
    int64_t high = 0;                     // what the clock had reached before it was set back
    uint64_t chrono_last = 0;             // the chrono thread's last doing that we saw
    int chrono = -1;
    bool prompt = false, jumps = false, throws = false;
    uint64_t n_fired = 0, n_prompt = 0, n_order = 0, n_unb = 0, n_inline_unb = 0;
    int64_t worst = 0;
    int budget = 0;
    NUClear::PowerPlant* plant = nullptr;
};
World* W;
template <int I> struct Msg { int id; };
// The lowest and highest readings of the clock there could be since a moment
struct Span {
    int64_t lo, hi;
    Span() : lo(clock_ns()), hi(lo) { W->spans.push_back(this); }
    void end() {
        W->spans.erase(std::find(W->spans.begin(), W->spans.end(), this));
        add(clock_ns());
    }
    void add(int64_t t) { lo = std::min(lo, t); hi = std::max(hi, t); }
};
void jump(int64_t by) {
    W->high = std::max(W->high, clock_ns());
    for (auto* s : W->spans) s->add(clock_ns());
    sim::jump_realtime(by);
    for (auto* s : W->spans) s->add(clock_ns());
}
int64_t next_lo(const EveryS& e) { return e.b0 + (e.created + 1) * e.period; }
int64_t next_hi(const EveryS& e) { return e.b1 + (e.created + 1) * e.period; }
// The thread that serves the timers took this one, which was due between lo and hi: no other that it knew of was due earlier
void served(int64_t lo, const char* what) {
    for (size_t i = 0; i < W->every.size(); ++i) {
        const EveryS& y = W->every[i];
        if (!y.bound || y.bound > W->chrono_last || y.unb_begin) continue;
        ++W->n_order;
        if (next_hi(y) < lo) sim::fail("order", "%s that was due at %ld was served before Every %zu (period %ld), which was due at %ld", what, long(lo), i, long(y.period), long(next_hi(y)));
    }
    for (size_t i = 0; i < W->delay.size(); ++i) {
        const DelayS& y = W->delay[i];
        if (!y.ended || y.ended > W->chrono_last || y.created) continue;
        ++W->n_order;
        if (y.hi < lo) sim::fail("order", "%s that was due at %ld was served before delayed message %zu, which was due at %ld", what, long(lo), i, long(y.hi));
    }
}
void mark_chrono() {
    W->chrono      = sim::self();
    W->chrono_last = sim::seq();
}
void on_time(int64_t now, int64_t lo, int64_t hi, const char* what, size_t i) {
    if (std::max(now, W->high) < lo) sim::fail("early", "%s %zu that was due at %ld happened at %ld", what, i, long(lo), long(now));
    ++W->n_fired;
    if (!W->prompt) return;
    ++W->n_prompt;
    W->worst = std::max(W->worst, now - hi);
    if (now > hi + SLACK) sim::fail("late", "%s %zu that was due at %ld happened at %ld although there was nothing else to do", what, i, long(hi), long(now));
}
struct Mark {
    template <typename DSL> static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) { sim::Quiet q; W->of[r->id] = idx; }
    template <typename DSL> static bool precondition(ReactionTask& t) {
        sim::Quiet q;
        const int64_t now = clock_ns();
        EveryS& e         = W->every[size_t(W->of.at(t.parent->id))];
        const size_t i    = size_t(&e - W->every.data());
        const int64_t lo = e.bound ? next_lo(e) : 0, hi = next_hi(e);
        on_time(now, lo, e.bound ? hi : INT64_MAX / 2, "Every", i);
        if (e.unb_end) {
            if (e.after_unbind++ || lo > std::max(W->high, e.unb_clock)) sim::fail("unbound", "Every %zu was triggered again after unbind() had returned", i);
        }
        served(lo, "an Every reaction");
        ++e.created;
        mark_chrono();
        return true;
    }
};
void emit_delay(int type, int64_t d, bool absolute);
void act();
void bind_every(int i);
void every_body(int i) {
    bool thr, unb, more;
    int64_t nap = 0;
    EveryS* e;
    {
        sim::Quiet q;
        e = &W->every[size_t(i)];
        if (++e->executed > e->created) sim::fail("twice", "Every %d was executed more often than it was triggered", i);
        if (e->kind == SYNC && e->busy) sim::fail("setup", "Sync");
        e->busy = true;
        thr     = W->throws && sim::chance(1, 6);
        more    = W->budget > 0 && sim::chance(1, 6);
        if (more) --W->budget;
        if (sim::chance(1, 4)) nap = int64_t(sim::pick_log(100, 20 * US));
        unb = e->self_unbind > 0 && e->handle_set && --e->self_unbind == 0;
    }
    if (nap) sim::sleep_ns(nap);
    if (unb) {
        { sim::Quiet q; e = &W->every[size_t(i)]; if (e->unb_begin) unb = false; else e->unb_begin = sim::seq(); if (unb && e->kind == INL) ++W->n_inline_unb; }
        if (unb) {
            e->handle.unbind();
            sim::Quiet q;
            e->unb_clock = clock_ns();
            e->unb_end   = sim::seq();
            ++W->n_unb;
        }
    }
    if (more) act();
    { sim::Quiet q; W->every[size_t(i)].busy = false; }
    if (thr) throw std::runtime_error("callback");
}
class R : public NUClear::Reactor {
public:
    template <int I> void got(const Msg<I>& m) {
        bool more;
        {
            sim::Quiet q;
            DelayS& d = W->delay[size_t(m.id)];
            if (++d.executed > d.created) sim::fail("twice", "delayed message %d was delivered twice", m.id);
            more = W->budget > 0 && sim::chance(1, 4);
            if (more) --W->budget;
        }
        if (more) act();
    }
    // Sees the message the moment it is emitted
    template <int I> void due(const Msg<I>& m) {
        sim::Quiet q;
        DelayS& d         = W->delay[size_t(m.id)];
        const int64_t now = clock_ns();
        d.created_at = now;
        if (d.created++) sim::fail("twice", "delayed message %d was emitted twice", m.id);
        on_time(now, d.lo, d.hi ? d.hi : INT64_MAX / 2, "the delayed message", size_t(m.id));
        served(d.lo, "a delayed message");
        mark_chrono();
    }
    explicit R(std::unique_ptr<NUClear::Environment> e, int n) : Reactor(std::move(e)) {
        on<Trigger<Msg<0>>, Inline::ALWAYS>().then([this](const Msg<0>& m) { due<0>(m); });
        on<Trigger<Msg<1>>, Inline::ALWAYS>().then([this](const Msg<1>& m) { due<1>(m); });
        on<Trigger<Msg<0>>>().then([this](const Msg<0>& m) { got<0>(m); });
        on<Trigger<Msg<1>>, Pool<PA>, Sync<SG>>().then([this](const Msg<1>& m) { got<1>(m); });
        for (int i = 0; i < n; ++i) bind(i);
    }
    void bind(int i) {
        int64_t p;
        int kind;
        std::unique_ptr<Span> span;
        { sim::Quiet q; EveryS& e = W->every[size_t(i)]; p = e.period; kind = e.kind; span.reset(new Span()); }
        auto f = [i] { every_body(i); };
        const clk::duration d = std::chrono::duration_cast<clk::duration>(ns(p));
        ReactionHandle h = ReactionHandle();
        switch (kind) {
            case DEF:
                if (p == 5 * MS) h = on<Mark, Every<5>>(i).then(std::move(f));
                else if (p == 4 * MS) h = on<Mark, Every<250, Per<std::chrono::seconds>>>(i).then(std::move(f));
                else if (p == 2 * MS) h = on<Mark, Every<2000, std::chrono::microseconds>>(i).then(std::move(f));
                else h = on<Every<>, Mark>(d, i).then(std::move(f));
                break;
            case MAIN: h = on<Every<>, Mark, MainThread>(d, i).then(std::move(f)); break;
            case pA: h = on<Every<>, Mark, Pool<PA>>(d, i).then(std::move(f)); break;
            case SYNC: h = on<Every<>, Mark, Sync<SG>>(d, i).then(std::move(f)); break;
            default: h = on<Every<>, Mark, Inline::ALWAYS>(d, i).then(std::move(f)); break;
        }
        sim::Quiet q;
        EveryS& e    = W->every[size_t(i)];
        span->end();
        e.b0         = span->lo;
        e.b1         = span->hi;
        span.reset();
        e.bound      = sim::seq();
        e.handle     = h;
        e.handle_set = true;
    }
    template <int I> void delayed(int64_t d, bool absolute) {
        auto m = std::make_unique<Msg<I>>();
        clk::time_point at;
        int id;
        std::unique_ptr<Span> span;
        {
            sim::Quiet q;
            id    = int(W->delay.size());
            m->id = id;
            DelayS s{};
            s.type  = I;
            s.begun = sim::seq();
            span.reset(new Span());
            s.lo = span->lo + d;
            at   = clk::time_point(std::chrono::duration_cast<clk::duration>(ns(s.lo)));
            if (!absolute) s.lo = 0;
            W->delay.push_back(s);
        }
        if (absolute) emit<Scope::DELAY>(m, at);
        else emit<Scope::DELAY>(m, std::chrono::duration_cast<clk::duration>(ns(d)));
        sim::Quiet q;
        DelayS& s = W->delay[size_t(id)];
        span->end();
        if (absolute) s.hi = s.lo;
        else { s.lo = span->lo + d; s.hi = span->hi + d; }
        span.reset();
        s.ended = sim::seq();
        if (s.created && std::max(s.created_at, W->high) < s.lo) sim::fail("early", "the delayed message %d that was due at %ld happened at %ld", id, long(s.lo), long(s.created_at));
    }
};
R* reactor;
int64_t pick_period() {
    switch (sim::choose(8)) {
        case 0: return 5 * MS;
        case 1: return 4 * MS;
        case 2: return 2 * MS;
        case 3: return 700 * US;
        case 4: return 1 * MS;
        default: return int64_t(600 * US + sim::pick_log(1, 20 * MS));
    }
}
// Something that adds or removes timers
void act() {
    int what, i = -1;
    int64_t d = 0;
    bool abs = false;
    {
        sim::Quiet q;
        what = int(sim::choose(6));
        if (what == 0 && W->every.size() < 6) {
            i = int(W->every.size());
            EveryS e{};
            e.period      = pick_period();
            e.kind        = int(sim::choose(NKIND));
            e.self_unbind = sim::chance(1, 3) ? int(sim::range(1, 4)) : 0;
            W->every.push_back(e);
        }
        else if (what == 1) {
            const int c = int(sim::choose(W->every.size() + 1)) - 1;
            if (c >= 0 && W->every[size_t(c)].handle_set && !W->every[size_t(c)].unb_begin) { i = c; W->every[size_t(c)].unb_begin = sim::seq(); }
        }
        if (i < 0) {
            what = 2;
            d    = sim::chance(1, 6) ? 0 : sim::chance(1, 10) ? -int64_t(sim::pick_log(1, MS)) : int64_t(sim::pick_log(1, 30 * MS));
            abs  = sim::chance(1, 2);
            i    = int(sim::choose(2));
        }
    }
    if (what == 0) reactor->bind(i);
    else if (what == 1) {
        EveryS& e = W->every[size_t(i)];
        e.handle.unbind();
        sim::Quiet q;
        e.unb_clock = clock_ns();
        e.unb_end   = sim::seq();
        ++W->n_unb;
    }
    else if (i == 0) reactor->delayed<0>(d, abs);
    else reactor->delayed<1>(d, abs);
}
// Whether something that was due has not been served yet
bool behind() {
    sim::Quiet q;
    const int64_t now = clock_ns() - MS / 2;
    for (auto& d : W->delay) if (d.ended && !d.created && d.hi < now) return true;
    for (auto& e : W->every) if (e.handle_set && !e.unb_begin && next_hi(e) < now) return true;
    return false;
}
void settle(int64_t until) {
    while (clock_ns() < until) sim::sleep_ns(std::max<int64_t>(until - clock_ns(), US));
}
}  // namespace
void scenario() {
    int conc, nt, per, n;
    int64_t window;
    World world;
    {
        sim::Quiet q;
        W       = &world;
        conc    = int(sim::range(1, 3));
        nt      = int(sim::range(1, 3));
        per     = int(sim::range(1, 6));
        n       = int(sim::range(0, 3));
        window  = int64_t(sim::pick_log(3 * MS, 20 * MS));
        W->budget = int(sim::choose(8));
        W->jumps  = sim::chance(1, 5);
        W->throws = sim::chance(1, 4);
        W->every.reserve(16);
        for (int i = 0; i < n; ++i) {
            EveryS e{};
            e.period      = pick_period();
            e.kind        = int(sim::choose(NKIND));
            e.self_unbind = sim::chance(1, 4) ? int(sim::range(1, 4)) : 0;
            W->every.push_back(e);
        }
        sim::set_spurious(1, 30);
        if (sim::chance(1, 5)) sim::allow_long_stalls(uint64_t(sim::pick_log(100 * US, 20 * MS)));
    }
    sim::set_budget(4000000);
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        W->plant = &plant;
        plant.install<NUClear::extension::ChronoController>();
        reactor = &plant.install<R>(n);
        std::thread driver([&] {
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([&] {
                    for (int i = 0; i < per; ++i) {
                        act();
                        int64_t d = 0;
                        {
                            sim::Quiet q;
                            if (sim::chance(2, 3)) d = int64_t(sim::pick_log(100, 8 * MS));
                            if (W->jumps && sim::chance(1, 4)) jump((sim::chance(1, 2) ? 1 : -1) * int64_t(sim::pick_log(US, 15 * MS)));
                        }
                        if (d) sim::sleep_ns(d);
                    }
                });
            for (auto& t : ts) t.join();
            // From here on nothing is in the way
            sim::stop_faults();
            sim::fair_from_now();
            sim::sleep_ns(25 * MS);   // longer than the longest stall that can be going on
            int64_t now = clock_ns(), until;
            {
                sim::Quiet q;
                W->budget = 0;
                W->throws = false;
                // After a jump the controller finds the new time when it next looks
                until = now + SLACK;
                if (W->jumps) { until = std::max(until, W->high); for (auto& e : W->every) if (e.handle_set && !e.unb_begin) until = std::max(until, next_hi(e)); }
                for (auto& d : W->delay) until = std::max(until, d.hi);
                until += 2 * SLACK + (W->jumps ? 30 * MS : 0);
            }
            if (!W->jumps) {
                // What was due while it was busy is caught up with
                for (int i = 0; behind(); ++i) {
                    if (i == 500) sim::fail("behind", "the timers don't catch up although nothing is in the way any more");
                    sim::sleep_ns(MS);
                }
                sim::Quiet q;
                W->prompt = true;
            }
            settle(until + window);
            if (W->jumps) for (int i = 0; i < 300 && behind(); ++i) sim::sleep_ns(MS);
            {
                sim::Quiet q;
                now = clock_ns();
                for (size_t i = 0; i < W->delay.size(); ++i)
                    if (!W->delay[i].created && W->delay[i].ended && W->delay[i].hi + SLACK < now) sim::fail("lost", "delayed message %zu that was due at %ld was not emitted by %ld", i, long(W->delay[i].hi), long(now));
                for (size_t i = 0; i < W->every.size(); ++i) {
                    EveryS& e = W->every[i];
                    if (!e.handle_set || e.unb_begin) continue;
                    if (next_hi(e) + SLACK < now) sim::fail("lost", "Every %zu with a period of %ld%s that was bound at %ld was triggered %d times by %ld", i, long(e.period), KIND[e.kind], long(e.b1), e.created, long(now));
                }
            }
            // Everything that was triggered is executed
            std::vector<ReactionHandle> hs;
            {
                sim::Quiet q;
                for (auto& e : W->every) if (e.handle_set && !e.unb_begin) { e.unb_begin = sim::seq(); hs.push_back(e.handle); }
            }
            for (auto& h : hs) h.unbind();
            {
                sim::Quiet q;
                for (auto& e : W->every) if (e.unb_begin && !e.unb_end) { e.unb_end = sim::seq(); e.unb_clock = clock_ns(); }
            }
            sim::wait_quiescent();
            {
                sim::Quiet q;
                for (size_t i = 0; i < W->every.size(); ++i)
                    if (W->every[i].executed != W->every[i].created) sim::fail("not-executed", "Every %zu was triggered %d times and executed %d times", i, W->every[i].created, W->every[i].executed);
                for (size_t i = 0; i < W->delay.size(); ++i)
                    if (W->delay[i].executed != 1) sim::fail("not-executed", "delayed message %zu was delivered %d times", i, W->delay[i].executed);
            }
            { std::vector<ReactionHandle>().swap(hs); }
            plant.shutdown();
        });
        plant.start();
        driver.join();
        sim::Quiet q;
        for (auto& e : W->every) e.handle = ReactionHandle();
    }
    sim::Quiet q;
    if (W->n_fired >= 5 && W->n_order >= 3) sim::nontrivial();
    if (W->n_unb) sim::probe("unbound");
    if (W->n_inline_unb) sim::probe("unbound-by-itself-inline");
    if (W->n_prompt) sim::probe("prompt");
    if (W->jumps) sim::probe("clock-jumps");
    sim::sample("%zu Every, %zu delays, %lu firings (%lu judged for promptness, worst %ld ns), %lu order checks", W->every.size(), W->delay.size(), (unsigned long)W->n_fired, (unsigned long)W->n_prompt, long(W->worst), (unsigned long)W->n_order);
}
