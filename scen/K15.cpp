// The clock and time travel. One kind of run has threads read the clock while others adjust it, and judges each reading against
// the adjustments it could have seen; the other kind travels through time with timers pending.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "K15";
namespace {
using NUClear::threading::ReactionHandle;
using NUClear::threading::ReactionTask;
using NUClear::message::TimeTravel;
using clk  = NUClear::clock;
using base = NUClear::base_clock;
using ns   = std::chrono::nanoseconds;
constexpr int64_t US = 1000, MS = 1000000, SEC = 1000 * MS;
constexpr int64_t SLACK = 2 * MS;
int64_t clock_ns() { return std::chrono::duration_cast<ns>(clk::now().time_since_epoch()).count(); }
int64_t base_ns() { return std::chrono::duration_cast<ns>(base::now().time_since_epoch()).count(); }
clk::time_point at(int64_t t) { return clk::time_point(std::chrono::duration_cast<clk::duration>(ns(t))); }
double pick_rtf(bool zero) {
    switch (sim::choose(7)) {
        case 0: return zero ? 0.0 : 1.0;
        case 1: return 0.5;
        case 2: return 2.0;
        case 3: return 0.25 * double(sim::range(1, 12));
        default: return 1.0;
    }
}

// ------------------------------------------------------------------------------------------------ readers and adjusters
struct Line {
    double e0, e1, rtf;                  // what the clock showed at b1 and b0 can have been between e0 and e1
    int64_t b0, b1;                      // the base clock around the adjustment
    uint64_t begun, ended;
};
struct Lines {
    std::vector<Line> v;
    uint64_t n_read = 0, n_busy = 0;
};
Lines* L;
constexpr double TOL = 4096;             // a double holds today's nanoseconds to within 256
void judge(int64_t got, bool is_rtf, double rtf, int64_t t0, int64_t t1, uint64_t begun, uint64_t ended) {
    ++L->n_read;
    int can = 0;
    std::string seen;
    for (size_t i = 0; i < L->v.size(); ++i) {
        const Line& l = L->v[i];
        if (l.begun > ended) continue;
        bool old = false;
        for (auto& o : L->v) old = old || (l.ended && o.begun > l.ended && o.ended && o.ended < begun);
        if (old) continue;
        ++can;
        if (is_rtf) {
            if (l.rtf == rtf) return;
            continue;
        }
        // An adjustment that is going on ends up at a moment we don't know yet
        const int64_t b1 = l.ended ? l.b1 : t1;
        const double lo = l.e0 + double(t0 - b1) * l.rtf - TOL, hi = l.e1 + double(t1 - l.b0) * l.rtf + TOL;
        if (double(got) >= lo && double(got) <= hi) { if (can > 1) ++L->n_busy; return; }
        char b[160];
        snprintf(b, sizeof b, " [%.0f, %.0f]", lo, hi);
        seen += b;
    }
    if (is_rtf) sim::fail("torn-rate", "the rate of the clock was %g, which no adjustment set", rtf);
    sim::fail("torn", "the clock showed %ld, no adjustment makes it show that. It can have been within%s", long(got), seen.c_str());
}
void read_clock() {
    int64_t t0, got;
    uint64_t b;
    bool is_rtf;
    { sim::Quiet q; t0 = base_ns(); b = sim::seq(); is_rtf = sim::chance(1, 5); }
    double rtf = 0;
    if (is_rtf) { rtf = clk::rtf(); got = 0; }
    else got = std::chrono::duration_cast<ns>(clk::now().time_since_epoch()).count();
    sim::Quiet q;
    judge(got, is_rtf, rtf, t0, base_ns(), b, sim::seq());
}
void adjust(bool alone) {
    size_t i;
    int64_t d;
    double rtf;
    bool set;
    {
        sim::Quiet q;
        set = !alone || sim::chance(1, 2);
        rtf = pick_rtf(true);
        i   = L->v.size();
        Line l{};
        l.rtf   = rtf;
        l.b0    = base_ns();
        l.begun = sim::seq();
        // Far enough from the others that a mixture is like none of them
        d = set ? l.b0 + int64_t(i + 1) * 1000 * SEC : (sim::chance(1, 3) ? 0 : (sim::chance(1, 2) ? 1 : -1) * int64_t(sim::pick_log(US, 100 * SEC)));
        l.e0 = l.e1 = double(d);
        if (!set) {
            const Line& p = L->v.back();
            l.e0 = p.e0 + double(l.b0 - p.b1) * p.rtf + double(d);
            l.e1 = 1e30;
        }
        L->v.push_back(l);
    }
    if (set) clk::set_clock(at(d), rtf);
    else clk::adjust_clock(std::chrono::duration_cast<clk::duration>(ns(d)), rtf);
    sim::Quiet q;
    Line& l = L->v[i];
    l.b1    = base_ns();
    l.ended = sim::seq();
    if (!set) {
        const Line& p = L->v[i - 1];
        l.e1 = p.e1 + double(l.b1 - p.b0) * p.rtf + double(d);
    }
}
void readers() {
    Lines lines;
    int nr, na, kr, ka;
    {
        sim::Quiet q;
        L = &lines;
        lines.v.reserve(256);
        nr = int(sim::range(1, 3));
        na = sim::chance(2, 3) ? 1 : int(sim::range(2, 3));
        kr = int(sim::range(2, 12));
        ka = int(sim::range(1, 16));
        const int64_t b = base_ns();
        clk::set_clock(at(b), 1.0);
        Line l{};
        l.e0 = l.e1 = double(b);
        l.rtf = 1; l.b0 = l.b1 = b; l.begun = l.ended = sim::seq();
        lines.v.push_back(l);
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < nr; ++t)
        ts.emplace_back([&] {
            for (int k = 0; k < kr; ++k) {
                read_clock();
                int64_t d = 0;
                { sim::Quiet q; if (sim::chance(1, 3)) d = int64_t(sim::pick_log(10, 10 * US)); }
                if (d) sim::sleep_ns(d);
            }
        });
    for (int t = 0; t < na; ++t)
        ts.emplace_back([&] {
            for (int k = 0; k < ka; ++k) {
                adjust(na == 1);
                int64_t d = 0;
                { sim::Quiet q; if (sim::chance(1, 4)) d = int64_t(sim::pick_log(10, 10 * US)); }
                if (d) sim::sleep_ns(d);
            }
        });
    for (auto& t : ts) t.join();
    read_clock();
    sim::Quiet q;
    if (lines.n_read >= 3 && lines.v.size() >= 3) sim::nontrivial();
    if (lines.n_busy) sim::probe("read-during-adjustment");
    if (na > 1) sim::probe("several-adjusters");
    clk::set_clock(at(base_ns()), 1.0);
    sim::sample("%d readers, %d adjusters, %lu readings", nr, na, (unsigned long)lines.n_read);
}

// Several threads shift the clock at once: no shift may be lost or applied twice
struct Shift { int64_t d; uint64_t begun = 0, ended = 0; };
std::vector<Shift>* SH;
void judge_shifts(int64_t got, int64_t t0, int64_t t1, uint64_t begun, uint64_t ended, const char* when) {
    int64_t lo = t0, hi = t1;
    for (const Shift& s : *SH) {
        const bool must = s.ended && s.ended < begun, may = s.begun && s.begun < ended;
        if (must || (may && s.d < 0)) lo += s.d;
        if (must || (may && s.d > 0)) hi += s.d;
    }
    if (got < lo - int64_t(TOL) || got > hi + int64_t(TOL)) sim::fail("shift", "with the shifts that were made the clock can have been between %ld and %ld, it showed %ld (%s)", long(lo), long(hi), long(got), when);
}
void read_shifted(const char* when) {
    int64_t t0;
    uint64_t b;
    { sim::Quiet q; t0 = base_ns(); b = sim::seq(); }
    const int64_t got = std::chrono::duration_cast<ns>(clk::now().time_since_epoch()).count();
    sim::Quiet q;
    judge_shifts(got, t0, base_ns(), b, sim::seq(), when);
}
void shifters() {
    std::vector<Shift> shifts;
    int na, ka, nr;
    {
        sim::Quiet q;
        SH = &shifts;
        na = int(sim::range(2, 4));
        ka = int(sim::range(1, 6));
        nr = int(sim::range(0, 2));
        for (int i = 0; i < na * ka; ++i) shifts.push_back(Shift{(sim::chance(1, 3) ? -1 : 1) * int64_t(sim::pick_log(10 * US, 100 * SEC))});
        clk::set_clock(at(base_ns()), 1.0);
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < na; ++t)
        ts.emplace_back([&, t] {
            for (int k = 0; k < ka; ++k) {
                Shift& s = shifts[size_t(t * ka + k)];
                { sim::Quiet q; s.begun = sim::seq(); }
                clk::adjust_clock(std::chrono::duration_cast<clk::duration>(ns(s.d)), 1.0);
                { sim::Quiet q; s.ended = sim::seq(); }
                bool look;
                { sim::Quiet q; look = sim::chance(1, 3); }
                if (look) read_shifted("while others shift it");
            }
        });
    for (int t = 0; t < nr; ++t)
        ts.emplace_back([&] { for (int k = 0; k < 6; ++k) read_shifted("while others shift it"); });
    for (auto& t : ts) t.join();
    read_shifted("at the end");
    sim::Quiet q;
    sim::nontrivial();
    sim::probe("shifted");
    clk::set_clock(at(base_ns()), 1.0);
    sim::sample("%d threads made %d shifts each", na, ka);
}

// ------------------------------------------------------------------------------------------------ time travel
struct Timer {
    bool every;
    int kind;                            // 0 pool, 1 inline
    int64_t period, lo, hi;              // next due
    bool on = false, gone = false;
    int fired = 0, executed = 0, late = 0;
    bool handle_set = false;
    ReactionHandle handle = ReactionHandle();
    std::vector<int64_t> unsure;         // fired at, while a travel was going on
};
struct World {
    std::vector<Timer> t;
    std::map<NUClear::id_t, int> of;
    bool travelling = false, ready = false;
    int inside = 0;                      // travels that an inline timer reaction starts
    uint64_t n_fired = 0, n_rel = 0, n_abs = 0, n_near = 0, n_held = 0, n_paused = 0, n_inside = 0, n_back = 0, n_far = 0;
    int budget = 0;
};
World* W;
template <int I> struct Msg { int id; };
void fire(size_t i) {
    Timer& t          = W->t[i];
    const int64_t now = clock_ns();
    ++W->n_fired;
    ++t.fired;
    if (t.every && t.gone) {
        // What was on its way when it was unbound
        if (++t.late > 1) sim::fail("unbound", "Every %zu was triggered again after unbind() had returned", i);
        return;
    }
    if (t.gone) sim::fail("twice", "delayed message %zu was emitted again", i);
    if (W->travelling) t.unsure.push_back(now);
    else if (now < t.lo) sim::fail("early", "%s %zu that was due at %ld happened at %ld", t.every ? "Every" : "delayed message", i, long(t.lo), long(now));
    if (t.every) {
        t.lo += t.period;
        t.hi += t.period;
    }
    else t.gone = true;
}
struct Mark {
    template <typename DSL> static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) { sim::Quiet q; W->of[r->id] = idx; }
    template <typename DSL> static bool precondition(ReactionTask& t) {
        sim::Quiet q;
        fire(size_t(W->of.at(t.parent->id)));
        return true;
    }
};
class R;
R* reactor;
void travel(bool inside);
class R : public NUClear::Reactor {
public:
    template <int I> void due(const Msg<I>& m) { sim::Quiet q; fire(size_t(m.id)); }
    template <int I> void got(const Msg<I>& m) { sim::Quiet q; if (++W->t[size_t(m.id)].executed != 1) sim::fail("twice", "delayed message %d was delivered twice", m.id); }
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        on<Trigger<Msg<0>>, Inline::ALWAYS>().then([this](const Msg<0>& m) { due<0>(m); });
        on<Trigger<Msg<0>>>().then([this](const Msg<0>& m) { got<0>(m); });
    }
    void bind(int i) {
        int64_t p;
        int kind;
        { sim::Quiet q; Timer& t = W->t[size_t(i)]; p = t.period; kind = t.kind; t.lo = clock_ns() + p; t.hi = INT64_MAX / 2; }
        auto f = [i] {
            bool in = false;
            {
                sim::Quiet q;
                Timer& t = W->t[size_t(i)];
                if (++t.executed > t.fired) sim::fail("twice", "Every %d was executed more often than it was triggered", i);
                in = t.kind == 1 && W->inside > 0 && W->ready && !W->travelling && sim::chance(1, 3);
                if (in) --W->inside;
            }
            if (in) travel(true);
        };
        const auto d = std::chrono::duration_cast<clk::duration>(ns(p));
        ReactionHandle h = ReactionHandle();
        if (kind == 0) h = on<Every<>, Mark>(d, i).then(std::move(f));
        else h = on<Every<>, Mark, Inline::ALWAYS>(d, i).then(std::move(f));
        sim::Quiet q;
        Timer& t = W->t[size_t(i)];
        t.hi = clock_ns() + p + t.fired * p;
        t.on = true;
        t.handle = h;
        t.handle_set = true;
    }
    void delay(int i) {
        auto m = std::make_unique<Msg<0>>();
        m->id  = i;
        int64_t d;
        bool abs;
        { sim::Quiet q; Timer& t = W->t[size_t(i)]; d = t.period; t.lo = clock_ns() + d; t.hi = INT64_MAX / 2; abs = sim::chance(1, 2); if (abs) t.hi = t.lo; }
        if (abs) emit<Scope::DELAY>(m, at(W->t[size_t(i)].lo));
        else emit<Scope::DELAY>(m, std::chrono::duration_cast<clk::duration>(ns(d)));
        sim::Quiet q;
        Timer& t = W->t[size_t(i)];
        if (!abs) t.hi = clock_ns() + d;
        t.on = true;
    }
    void go(const TimeTravel& t) { emit<Scope::INLINE>(std::make_unique<TimeTravel>(t)); }
};
// Travel, and check where that took us
void go(TimeTravel::Action a, int64_t target, double rtf, bool inside) {
    int64_t c0, t0, near_lo = INT64_MAX;
    double rate;
    {
        sim::Quiet q;
        W->travelling = true;
        c0   = clock_ns();
        t0   = base_ns();
        rate = clk::rtf();
        for (auto& t : W->t) if (t.on && !t.gone) near_lo = std::min(near_lo, t.lo);
    }
    reactor->go(TimeTravel(at(target), rtf, a));
    sim::Quiet q;
    const int64_t t1 = base_ns(), c1 = clock_ns();
    W->travelling    = false;
    if (clk::rtf() != rtf) sim::fail("rate", "the rate of the clock is %g after it was set to %g", clk::rtf(), rtf);
    int64_t lo = target, hi = target;
    if (a == TimeTravel::Action::NEAREST) {
        int64_t near_hi = INT64_MAX;
        for (auto& t : W->t) if (t.on && !t.gone) near_hi = std::min(near_hi, t.hi);
        lo = std::min(target, near_lo);
        hi = std::min(target, near_hi);
        ++W->n_near;
        if (near_hi < target) ++W->n_held;
    }
    hi += int64_t(double(t1 - t0) * rtf) + int64_t(TOL);
    lo -= int64_t(TOL);
    if (c1 < lo || c1 > hi) sim::fail("target", "after travelling to %ld (%s) the clock shows %ld, it should be between %ld and %ld", long(target), a == TimeTravel::Action::NEAREST ? "nearest" : a == TimeTravel::Action::RELATIVE ? "relative" : "absolute", long(c1), long(lo), long(hi));
    if (c1 < c0) ++W->n_back;
    if (a == TimeTravel::Action::ABSOLUTE) ++W->n_abs;
    if (rtf == 0) ++W->n_paused;
    if (inside) ++W->n_inside;
    int64_t adj_lo = 0, adj_hi = 0;
    if (a == TimeTravel::Action::RELATIVE) {
        ++W->n_rel;
        // The clock at the moment of the travel
        adj_lo = target - (c0 + int64_t(double(t1 - t0) * rate)) - int64_t(TOL);
        adj_hi = target - c0 + int64_t(TOL);
    }
    for (size_t i = 0; i < W->t.size(); ++i) {
        Timer& t = W->t[i];
        const int64_t was = t.lo;
        if (t.on && !t.gone) { t.lo += adj_lo; t.hi += adj_hi; }
        // Those that happened before have nothing to do with it, those after do
        for (size_t k = 0; k < t.unsure.size(); ++k) {
            const int64_t due = was - (t.every ? int64_t(t.unsure.size() - k) * t.period : 0);
            if (t.unsure[k] < due + std::min<int64_t>(adj_lo, 0)) sim::fail("early", "%s %zu that was due at %ld happened at %ld", t.every ? "Every" : "delayed message", i, long(due + std::min<int64_t>(adj_lo, 0)), long(t.unsure[k]));
        }
        t.unsure.clear();
    }
}
void travel(bool inside) {
    TimeTravel::Action a;
    int64_t target;
    double rtf;
    {
        sim::Quiet q;
        // (what is nearest depends on what the timer that is being served does next, so that is not for them)
        a   = TimeTravel::Action(inside ? sim::choose(2) : sim::choose(3));
        rtf = pick_rtf(!inside);
        const int64_t now = clock_ns();
        bool every = false;
        for (auto& t : W->t) every = every || (t.every && t.on);
        target = now + (sim::chance(2, 3) ? 1 : -1) * int64_t(sim::pick_log(US, 25 * MS));
        if ((a == TimeTravel::Action::RELATIVE && sim::chance(1, 3)) || (!every && sim::chance(1, 4)) || (a == TimeTravel::Action::NEAREST && sim::chance(1, 3))) {
            target = now + (sim::chance(1, 2) ? 1 : -1) * int64_t(sim::pick_log(SEC, 100000 * SEC));
            if (a != TimeTravel::Action::RELATIVE) target = std::max(target, now);
            ++W->n_far;
        }
    }
    go(a, target, rtf, inside);
}
bool behind() {
    sim::Quiet q;
    const int64_t now = clock_ns() - MS / 2;
    for (auto& t : W->t) if (t.on && !t.gone && t.hi < now) return true;
    return false;
}
void catch_up(const char* when) {
    for (int i = 0; behind(); ++i) {
        sim::Quiet q;
        if (i == 500) {
            for (size_t k = 0; k < W->t.size(); ++k) { Timer& t = W->t[k]; if (t.on && !t.gone && t.hi < clock_ns() - MS / 2) sim::fail("lost", "%s %zu that was due at %ld has not happened by %ld (%s)", t.every ? "Every" : "delayed message", k, long(t.hi), long(clock_ns()), when); }
        }
        sim::sleep_ns(MS);
    }
}
void travels() {
    World world;
    int conc, n, ops;
    {
        sim::Quiet q;
        W    = &world;
        conc = int(sim::range(1, 2));
        n    = int(sim::range(1, 4));
        ops  = int(sim::range(1, 8));
        W->inside = sim::chance(1, 4) ? int(sim::range(1, 3)) : 0;
        W->t.reserve(32);
        clk::set_clock(at(base_ns()), 1.0);
        sim::set_spurious(1, 30);
    }
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        plant.install<NUClear::extension::ChronoController>();
        reactor = &plant.install<R>();
        std::thread driver([&] {
            auto add = [&] {
                int i;
                {
                    sim::Quiet q;
                    i = int(W->t.size());
                    if (i >= 24) return;
                    Timer t{};
                    t.every  = sim::chance(1, 2);
                    t.kind   = int(sim::choose(2));
                    t.period = t.every ? int64_t(3 * MS + sim::pick_log(1, 10 * MS)) : int64_t(sim::chance(1, 8) ? sim::pick_log(SEC, 20000 * SEC) : sim::pick_log(1, 30 * MS));
                    W->t.push_back(t);
                }
                if (W->t[size_t(i)].every) reactor->bind(i);
                else reactor->delay(i);
            };
            for (int i = 0; i < n; ++i) add();
            bool in;
            { sim::Quiet q; in = W->inside > 0; }
            // A timer that travels in time does so when there is nobody else who adds any
            { sim::Quiet q; W->ready = true; }
            for (int k = 0; k < ops; ++k) {
                int what;
                int64_t d = 0;
                {
                    sim::Quiet q;
                    what = int(sim::choose(3));
                    if (sim::chance(2, 3)) d = int64_t(sim::pick_log(100, 8 * MS));
                }
                if (in) {}
                else if (what == 0) add();
                else travel(false);
                if (d) {
                    sim::sleep_ns(d);
                }
            }
            sim::stop_faults();
            sim::fair_from_now();
            // Nobody travels any more, the clock goes on as usual
            for (int k = 0; in && k < 2; ++k) {
                { sim::Quiet q; W->inside = 0; }
                sim::sleep_ns(500 * US);
            }
            int64_t now;
            { sim::Quiet q; now = clock_ns(); }
            go(TimeTravel::Action::ABSOLUTE, now, 1.0, false);
            catch_up("after the travels");
            sim::sleep_ns(8 * MS);
            catch_up("a while later");
            // Travel to the last delayed message without the others in the way
            std::vector<ReactionHandle> hs;
            {
                sim::Quiet q;
                for (auto& t : W->t) if (t.every && t.handle_set) hs.push_back(t.handle);
            }
            for (auto& h : hs) h.unbind();
            {
                sim::Quiet q;
                for (auto& t : W->t) if (t.every) t.gone = true;
                now = clock_ns();
                for (auto& t : W->t) if (!t.gone) now = std::max(now, t.hi);
            }
            go(TimeTravel::Action::ABSOLUTE, now, 1.0, false);
            sim::sleep_ns(MS);
            catch_up("after travelling to the last one");
            sim::wait_quiescent();
            {
                sim::Quiet q;
                for (size_t i = 0; i < W->t.size(); ++i) {
                    if (W->t[i].executed != W->t[i].fired) sim::fail("not-executed", "timer %zu happened %d times and was executed %d times", i, W->t[i].fired, W->t[i].executed);
                    if (!W->t[i].every && W->t[i].executed != 1) sim::fail("lost", "delayed message %zu was delivered %d times", i, W->t[i].executed);
                }
            }
            { std::vector<ReactionHandle>().swap(hs); }
            plant.shutdown();
        });
        plant.start();
        driver.join();
        sim::Quiet q;
        for (auto& t : W->t) t.handle = ReactionHandle();
    }
    sim::Quiet q;
    clk::set_clock(at(base_ns()), 1.0);
    if (W->n_fired >= 3 && W->n_rel + W->n_abs + W->n_near >= 2) sim::nontrivial();
    if (W->n_rel) sim::probe("relative");
    if (W->n_abs > 1) sim::probe("absolute");
    if (W->n_near) sim::probe("nearest");
    if (W->n_held) sim::probe("nearest-stopped-at-timer");
    if (W->n_paused) sim::probe("paused");
    if (W->n_back) sim::probe("back");
    if (W->n_inside) sim::probe("by-a-timer");
    if (W->n_far) sim::probe("far");
    sim::sample("%zu timers, %lu firings, %lu relative %lu absolute %lu nearest travels", W->t.size(), (unsigned long)W->n_fired, (unsigned long)W->n_rel, (unsigned long)W->n_abs, (unsigned long)W->n_near);
}
}  // namespace
void scenario() {
    bool r, shift;
    {
        sim::Quiet q;
        r     = sim::chance(1, 2);
        shift = r && sim::chance(1, 4);
        if (sim::chance(1, 4)) sim::allow_long_stalls(uint64_t(sim::pick_log(100 * US, 5 * MS)));
    }
    sim::set_budget(4000000);
    if (shift) shifters();
    else if (r) readers();
    else travels();
}
