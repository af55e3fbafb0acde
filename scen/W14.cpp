// Watchdogs: several of them over void and keyed stores, bound, unbound and serviced by many threads. Every firing is judged
// against the intervals between the services on the simulated clock.
#include <algorithm>
#include <map>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "W14";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
using NUClear::threading::ReactionTask;
using clk = NUClear::clock;
using ns = std::chrono::nanoseconds;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct SG {};
struct G0 {};
struct G1 {};
constexpr int64_t US = 1000, MS = 1000000;
constexpr int64_t SLACK = 2 * MS;
int64_t clock_ns() { return std::chrono::duration_cast<ns>(clk::now().time_since_epoch()).count(); }
enum { DEF, pA, SYNC, INL, NKIND };
enum { S_INT0, S_INT1, S_CHAR, S_VOID0, S_VOID1, NSTORE };
static const char* const STORE[] = {"<G0>(0)", "<G0>(1)", "<G0>('x')", "<G0>()", "<G1>()"};
constexpr int64_t PERIOD[] = {900 * US, 2 * MS, 5 * MS};
struct Service { int64_t s0 = 0, s1 = 0; uint64_t begun = 0, ended = 0; };
struct Dog {
    int store, per, kind, self_unbind;
    int64_t period;
    int64_t b0 = 0, b1 = 0;               // the clock around the bind
    uint64_t begun = 0, bound = 0, unb_begin = 0, unb_end = 0;
    int created = 0, executed = 0, after_unbind = 0;
    std::vector<std::pair<int64_t, uint64_t>> fired;
    bool handle_set = false;
    ReactionHandle handle = ReactionHandle();
};
struct World {
    std::vector<Dog> dog;
    std::vector<Service> services[NSTORE];
    std::map<NUClear::id_t, int> of;
    uint64_t chrono_last = 0;             // the last thing that the thread of the timers did that we saw
    bool throws = false;
    int budget = 0;
    uint64_t n_fired = 0, n_saved = 0, n_unb = 0, n_unknown = 0, n_shared = 0;
};
World* W;
// Was there a moment after `from` (up to now) at which the watchdog had not been serviced for its period?
bool expired_since(const Dog& w, uint64_t from, int64_t now, uint64_t now_seq) {
    const auto& sv = W->services[w.store];
    auto expired = [&](const Service* before, int64_t at, uint64_t at_seq) {
        int64_t base = w.b0;
        for (auto& y : sv) if (&y != before && y.ended && y.ended < at_seq) base = std::max(base, y.s0);
        return base + w.period < at;
    };
    if (expired(nullptr, now, now_seq)) return true;
    for (auto& z : sv) if (z.ended > from && expired(&z, z.s1, z.ended)) return true;
    return false;
}
void check_fire(Dog& w, size_t i) {
    const int64_t now  = clock_ns();
    const uint64_t seq = sim::seq();
    if (w.begun == 0 || now < w.b0 + w.period) sim::fail("early", "watchdog %zu %s of %ld ns that was bound at %ld fired at %ld", i, STORE[w.store], long(w.period), long(w.b0), long(now));
    if (!expired_since(w, W->chrono_last, now, seq)) {
        int64_t last = w.b0;
        for (auto& y : W->services[w.store]) if (y.ended) last = std::max(last, y.s0);
        sim::fail("serviced", "watchdog %zu %s of %ld ns fired at %ld although it was serviced at %ld, and in time before", i, STORE[w.store], long(w.period), long(now), long(last));
    }
    w.fired.emplace_back(now, seq);
    // Not more often than the time since any service allows
    auto count = [&](int64_t s0, uint64_t ended, const char* what) {
        const int64_t n = std::count_if(w.fired.begin(), w.fired.end(), [&](const std::pair<int64_t, uint64_t>& f) { return f.second > ended; });
        if (n > (now - s0) / w.period + 1) sim::fail("often", "watchdog %zu %s of %ld ns fired %ld times in the %ld ns since %s", i, STORE[w.store], long(w.period), long(n), long(now - s0), what);
    };
    if (w.created > (now - w.b0) / w.period) sim::fail("often", "watchdog %zu %s of %ld ns fired %d times in the %ld ns since it was bound", i, STORE[w.store], long(w.period), w.created, long(now - w.b0));
    for (auto& y : W->services[w.store]) if (y.ended && y.begun > w.bound && w.bound) count(y.s0, y.ended, "it was serviced");
    if (w.unb_end && w.after_unbind++) sim::fail("unbound", "watchdog %zu %s fired again after unbind() had returned", i, STORE[w.store]);
    ++W->n_fired;
    W->chrono_last = seq;
}
struct Mark {
    template <typename DSL> static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) { sim::Quiet q; W->of[r->id] = idx; }
    template <typename DSL> static bool precondition(ReactionTask& t) {
        sim::Quiet q;
        Dog& w = W->dog[size_t(W->of.at(t.parent->id))];
        ++w.created;
        check_fire(w, size_t(&w - W->dog.data()));
        return true;
    }
};
void act();
class R;
R* reactor;
void service(int store);
void unbind(int i) {
    // Claimed by setting unb_begin
    Dog& w = W->dog[size_t(i)];
    w.handle.unbind();
    sim::Quiet q;
    w.unb_end = sim::seq();
    ++W->n_unb;
}
void body(int i) {
    bool thr, unb, more, mine;
    int64_t nap = 0;
    int store;
    {
        sim::Quiet q;
        Dog& w = W->dog[size_t(i)];
        if (++w.executed > w.created) sim::fail("twice", "watchdog %d was executed more often than it fired", i);
        thr   = W->throws && sim::chance(1, 6);
        more  = W->budget > 0 && sim::chance(1, 4);
        mine  = W->budget > 0 && sim::chance(1, 6);
        if (more || mine) --W->budget;
        store = w.store;
        if (sim::chance(1, 4)) nap = int64_t(sim::pick_log(100, 20 * US));
        unb = w.self_unbind > 0 && w.handle_set && --w.self_unbind == 0 && !w.unb_begin;
        if (unb) w.unb_begin = sim::seq();
    }
    if (nap) sim::sleep_ns(nap);
    if (mine) service(store);
    if (unb) unbind(i);
    if (more) act();
    if (thr) throw std::runtime_error("callback");
}
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e, int n) : Reactor(std::move(e)) {
        for (int i = 0; i < n; ++i) bind(i);
    }
    template <typename G, int us, typename F, typename... A> ReactionHandle with(int kind, F f, A... a) {
        switch (kind) {
            case DEF: return on<Mark, Watchdog<G, us, std::chrono::microseconds>>(a...).then(std::move(f));
            case pA: return on<Mark, Watchdog<G, us, std::chrono::microseconds>, Pool<PA>>(a...).then(std::move(f));
            case SYNC: return on<Mark, Watchdog<G, us, std::chrono::microseconds>, Sync<SG>>(a...).then(std::move(f));
            default: return on<Mark, Watchdog<G, us, std::chrono::microseconds>, Inline::ALWAYS>(a...).then(std::move(f));
        }
    }
    template <typename G, typename F, typename... A> ReactionHandle per(int p, int kind, F f, A... a) {
        switch (p) {
            case 0: return with<G, 900>(kind, std::move(f), a...);
            case 1: return with<G, 2000>(kind, std::move(f), a...);
            default: return with<G, 5000>(kind, std::move(f), a...);
        }
    }
    void bind(int i);
    template <typename G, typename... A> void serve(A&&... a) { emit<Scope::WATCHDOG>(ServiceWatchdog<G>(std::forward<A>(a)...)); }
};
void R::bind(int i) {
    int store, p, kind;
    { sim::Quiet q; Dog& w = W->dog[size_t(i)]; store = w.store; p = w.per; kind = w.kind; w.begun = sim::seq(); w.b0 = clock_ns(); }
    auto f = [i] { body(i); };
    ReactionHandle h = ReactionHandle();
    switch (store) {
        case S_INT0: h = per<G0>(p, kind, std::move(f), i, 0); break;
        case S_INT1: h = per<G0>(p, kind, std::move(f), i, 1); break;
        case S_CHAR: h = per<G0>(p, kind, std::move(f), i, 'x'); break;
        case S_VOID0: h = per<G0>(p, kind, std::move(f), i); break;
        default: h = per<G1>(p, kind, std::move(f), i); break;
    }
    sim::Quiet q;
    Dog& w       = W->dog[size_t(i)];
    w.b1         = clock_ns();
    w.bound      = sim::seq();
    w.handle     = h;
    w.handle_set = true;
    for (auto& o : W->dog) if (&o != &w && o.store == store && o.begun && !o.unb_begin) ++W->n_shared;
}
void service(int store) {
    size_t k;
    bool must = false, may = false;
    {
        sim::Quiet q;
        k = W->services[store].size();
        Service s;
        s.s0    = clock_ns();
        s.begun = sim::seq();
        for (auto& w : W->dog) {
            if (w.store == store && w.bound && !w.unb_begin) must = true;
            if (w.store == store && w.begun && !w.unb_end) may = true;
        }
        W->services[store].push_back(s);
    }
    bool ok = true;
    try {
        switch (store) {
            case S_INT0: reactor->serve<G0>(0); break;
            case S_INT1: reactor->serve<G0>(1); break;
            case S_CHAR: reactor->serve<G0>('x'); break;
            case S_VOID0: reactor->serve<G0>(); break;
            default: reactor->serve<G1>(); break;
        }
    }
    catch (const std::domain_error&) {
        ok = false;
    }
    sim::Quiet q;
    Service& s = W->services[store][k];
    if (ok) {
        s.s1    = clock_ns();
        s.ended = sim::seq();
        for (auto& w : W->dog) if (w.store == store && w.begun && w.begun > s.begun) may = true;
        if (!may) sim::fail("unknown", "servicing %s worked although there was no watchdog", STORE[store]);
        for (auto& w : W->dog) if (w.store == store && w.bound && !w.unb_begin && s.s1 < w.b1 + w.period * (w.created + 1)) ++W->n_saved;
    }
    else {
        ++W->n_unknown;
        if (must) for (auto& w : W->dog) if (w.store == store && w.bound && w.bound < s.begun && !w.unb_begin) sim::fail("unknown", "servicing %s failed although a watchdog was bound", STORE[store]);
    }
}
void act() {
    int what, i = -1;
    {
        sim::Quiet q;
        what = int(sim::choose(8));
        if (what == 0 && W->dog.size() < 8) {
            i = int(W->dog.size());
            Dog w{};
            w.store       = int(sim::choose(NSTORE));
            w.per         = int(sim::choose(3));
            w.period      = PERIOD[w.per];
            w.kind        = int(sim::choose(NKIND));
            w.self_unbind = sim::chance(1, 3) ? int(sim::range(1, 3)) : 0;
            W->dog.push_back(w);
        }
        else if (what == 1) {
            const int c = int(sim::choose(W->dog.size() + 1)) - 1;
            if (c >= 0 && W->dog[size_t(c)].handle_set && !W->dog[size_t(c)].unb_begin) { i = c; W->dog[size_t(c)].unb_begin = sim::seq(); }
        }
        if (i < 0) {
            what = 2;
            i    = int(sim::choose(NSTORE));
            // Rather one that somebody watches
            const size_t n = W->dog.size();
            if (n && sim::chance(4, 5)) i = W->dog[sim::choose(n)].store;
        }
    }
    if (what == 0) reactor->bind(i);
    else if (what == 1) unbind(i);
    else service(i);
}
// How often it fired since it was last serviced, and how often that should have been
bool missing(const char* when) {
    sim::Quiet q;
    const int64_t now = clock_ns();
    for (size_t i = 0; i < W->dog.size(); ++i) {
        Dog& w = W->dog[i];
        if (!w.bound || w.unb_begin) continue;
        int64_t last  = w.b1;
        uint64_t from = 0;
        for (auto& y : W->services[w.store]) if (y.ended) { if (y.s1 > last) last = y.s1; from = std::max(from, y.begun); }
        const int64_t n    = std::count_if(w.fired.begin(), w.fired.end(), [&](const std::pair<int64_t, uint64_t>& f) { return f.second > from; });
        const int64_t want = (now - last - SLACK) / w.period;
        if (n < want && !when) return true;
        if (n < want) sim::fail("lost", "watchdog %zu %s of %ld ns that was last serviced at %ld fired %ld times since then by %ld (%s)", i, STORE[w.store], long(w.period), long(last), long(n), long(now), when);
    }
    return false;
}
}  // namespace
void scenario() {
    int conc, nt, per, n;
    World world;
    {
        sim::Quiet q;
        W         = &world;
        conc      = int(sim::range(1, 3));
        nt        = int(sim::range(1, 4));
        per       = int(sim::range(1, 10));
        n         = int(sim::range(1, 4));
        W->budget = int(sim::choose(8));
        W->throws = sim::chance(1, 4);
        W->dog.reserve(16);
        for (auto& s : W->services) s.reserve(256);
        for (int i = 0; i < n; ++i) {
            Dog w{};
            w.store       = int(sim::choose(sim::chance(1, 2) ? 2 : NSTORE)) + (sim::chance(1, 3) ? 3 : 0);
            if (w.store >= NSTORE) w.store = S_VOID0;
            w.per         = int(sim::choose(3));
            w.period      = PERIOD[w.per];
            w.kind        = int(sim::choose(NKIND));
            w.self_unbind = sim::chance(1, 4) ? int(sim::range(1, 3)) : 0;
            W->dog.push_back(w);
        }
        sim::set_spurious(1, 30);
        if (sim::chance(1, 3)) sim::allow_long_stalls(uint64_t(sim::pick_log(100 * US, 10 * MS)));
    }
    sim::set_budget(4000000);
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        plant.install<NUClear::extension::ChronoController>();
        reactor = &plant.install<R>(n);
        std::thread driver([&] {
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([&] {
                    for (int i = 0; i < per; ++i) {
                        act();
                        int64_t d = 0;
                        {
                            sim::Quiet q;
                            // Often just before or after somebody's time is up
                            if (!W->dog.empty() && sim::chance(1, 2)) {
                                const Dog& w = W->dog[sim::choose(W->dog.size())];
                                int64_t base = w.b0;
                                for (auto& y : W->services[w.store]) if (y.ended) base = std::max(base, y.s0);
                                d = base + w.period - clock_ns() + (sim::chance(1, 2) ? 1 : -1) * int64_t(sim::pick_log(1, 50 * US));
                            }
                            else if (sim::chance(2, 3)) d = int64_t(sim::pick_log(100, 5 * MS));
                        }
                        if (d > 0) sim::sleep_ns(d);
                    }
                });
            for (auto& t : ts) t.join();
            sim::stop_faults();
            sim::fair_from_now();
            { sim::Quiet q; W->budget = 0; W->throws = false; }
            sim::sleep_ns(12 * MS);
            for (int k = 0; k < 500 && missing(nullptr); ++k) sim::sleep_ns(MS);   // what it was too busy for is caught up with
            missing("after a while without services");
            // Service them all for a while, none may fire
            for (int k = 0; k < 40; ++k) {
                for (int s = 0; s < NSTORE; ++s) service(s);
                sim::sleep_ns(200 * US);
            }
            sim::sleep_ns(6 * MS);
            missing("after it was serviced all the time");
            std::vector<ReactionHandle> hs;
            {
                sim::Quiet q;
                for (auto& w : W->dog) if (w.handle_set && !w.unb_begin) { w.unb_begin = sim::seq(); hs.push_back(w.handle); }
            }
            for (auto& h : hs) h.unbind();
            {
                sim::Quiet q;
                for (auto& w : W->dog) if (w.unb_begin && !w.unb_end) w.unb_end = sim::seq();
            }
            for (int s = 0; s < NSTORE; ++s) service(s);
            sim::wait_quiescent();
            {
                sim::Quiet q;
                for (size_t i = 0; i < W->dog.size(); ++i)
                    if (W->dog[i].executed != W->dog[i].created) sim::fail("not-executed", "watchdog %zu fired %d times and was executed %d times", i, W->dog[i].created, W->dog[i].executed);
            }
            { std::vector<ReactionHandle>().swap(hs); }
            plant.shutdown();
        });
        plant.start();
        driver.join();
        sim::Quiet q;
        for (auto& w : W->dog) w.handle = ReactionHandle();
    }
    sim::Quiet q;
    if (W->n_fired >= 3 && W->n_saved >= 3) sim::nontrivial();
    if (W->n_unb) sim::probe("unbound");
    if (W->n_shared) sim::probe("shared-store");
    if (W->n_unknown) sim::probe("unknown-key");
    sim::sample("%zu watchdogs, %lu firings, %lu services in time, %lu unbinds", W->dog.size(), (unsigned long)W->n_fired, (unsigned long)W->n_saved, (unsigned long)W->n_unb);
}
