// Buffer, Single and Once under racing emitters, parked and queued tasks, slow and throwing callbacks.
#include <algorithm>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "B08";
namespace {
namespace word = NUClear::dsl::word;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 2; };
struct SG {};
constexpr int NTYPE = 2;
template <int I> struct Msg { int eid; };

struct Exec { int reaction, eid, fiber; uint64_t start, end, upper; bool inl; };
struct Emit { int id, type; uint64_t inv, ret; };
struct Re { int type, limit; bool once; int pool; const char* what; };
struct World {
    std::vector<Re> re;
    std::vector<Emit> emits;
    std::vector<Exec> execs;
    std::map<int, std::vector<size_t>> open_upper;   // fiber -> executions whose task may not be destroyed yet
    bool throws = false;
    bool closed = false;
    int budget = 0;
    NUClear::PowerPlant* plant = nullptr;

    template <int I> void emit1(bool inl) {
        int eid;
        { sim::Quiet q; eid = int(emits.size()); emits.push_back(Emit{eid, I, sim::seq(), 0}); }
        auto m = std::make_unique<Msg<I>>();
        m->eid = eid;
        if (inl) plant->emit<word::emit::Inline>(m); else plant->emit(m);
        sim::Quiet q;
        emits[size_t(eid)].ret = sim::seq();
    }
    bool emit_any() {
        int t; bool inl;
        {
            sim::Quiet q;
            if (closed || budget <= 0) return false;
            --budget;
            t = int(sim::choose(NTYPE));
            inl = sim::chance(1, 5);
        }
        if (t == 0) emit1<0>(inl); else emit1<1>(inl);
        return true;
    }
    // everything that had finished has been destroyed by now
    void settle() { sim::Quiet q; for (auto& x : open_upper) { for (size_t i : x.second) execs[i].upper = sim::seq(); x.second.clear(); } }
    void run(int r, int type, int eid) {
        size_t k;
        int acts; bool thr;
        const int f = sim::self();
        {
            sim::Quiet q;
            if (eid < 0 || eid >= int(emits.size()) || emits[size_t(eid)].type != type) sim::fail("corrupt", "reaction %d (%s) ran with a message never emitted", r, re[size_t(r)].what);
            for (auto& x : execs) if (x.reaction == r && x.eid == eid) sim::fail("duplicate", "reaction %d (%s) ran twice for one emit", r, re[size_t(r)].what);
            k = execs.size();
            execs.push_back(Exec{r, eid, f, sim::seq(), 0, ~0ULL, false});
            // Running at the bottom of this thread's stack: earlier tasks of this thread are gone
            bool nested = false;
            for (size_t i = 0; i < k; ++i) if (execs[i].fiber == f && !execs[i].end) nested = true;
            if (!nested) { for (size_t i : open_upper[f]) execs[i].upper = execs[k].start; open_upper[f].clear(); }
            acts = int(sim::choose(4));
            thr  = throws && sim::chance(1, 3);
        }
        for (int i = 0; i < acts; ++i) {
            int what;
            { sim::Quiet q; what = int(sim::choose(4)); }
            if (what == 0) emit_any();
            else if (what == 1) sim::sleep_ns(int64_t(sim::pick_log(100, 100000)));
            else sim::yield();
        }
        { sim::Quiet q; execs[k].end = sim::seq(); open_upper[f].push_back(k); }
        if (thr) throw std::runtime_error("callback failure");
    }
    void check() {
        sim::Quiet q;
        uint64_t dropped = 0, accepted = execs.size();
        for (size_t r = 0; r < re.size(); ++r) {
            std::vector<const Exec*> ex;
            for (auto& x : execs) if (x.reaction == int(r)) ex.push_back(&x);
            size_t relevant = 0;
            for (auto& e : emits) relevant += e.type == re[r].type;
            if (re[r].once) {
                if (ex.size() > 1) sim::fail("once-repeated", "reaction %zu (%s) executed %zu times", r, re[r].what, ex.size());
                if (relevant && ex.empty()) sim::fail("once-never", "reaction %zu (%s) was triggered %zu times and never executed", r, re[r].what, relevant);
                continue;
            }
            // definitely existing at once
            for (auto* x : ex) {
                const uint64_t from = std::min(emits[size_t(x->eid)].ret, x->start);
                int n = 0;
                for (auto* y : ex) {
                    const uint64_t yf = std::min(emits[size_t(y->eid)].ret, y->start);
                    if (yf <= from && y->end >= from) ++n;
                }
                if (n > re[r].limit) sim::fail("limit", "reaction %zu (%s): %d tasks existed at once, the limit is %d (emit %d)", r, re[r].what, n, re[r].limit, x->eid);
            }
            // dropped only if the limit may have been reached at some moment during the emit
            for (auto& e : emits) {
                if (e.type != re[r].type) continue;
                bool ran = false;
                for (auto* x : ex) if (x->eid == e.id) ran = true;
                if (ran) continue;
                ++dropped;
                int most = 0;
                std::vector<uint64_t> at{e.inv};
                for (auto* x : ex) { const uint64_t b = emits[size_t(x->eid)].inv; if (b > e.inv && b < e.ret) at.push_back(b); }
                for (uint64_t a : at) {
                    int n = 0;
                    for (auto* x : ex) if (emits[size_t(x->eid)].inv <= a && x->upper >= a) ++n;
                    most = std::max(most, n);
                }
                if (most < re[r].limit)
                    sim::fail("dropped", "reaction %zu (%s): emit %d was dropped although at most %d task(s) of it existed during the emit and the limit is %d", r, re[r].what, e.id, most, re[r].limit);
            }
        }
        sim::sample("%zu emits, %lu executed, %lu dropped by a limit, throwing %d", emits.size(), (unsigned long)accepted, (unsigned long)dropped, throws);
        if (dropped) sim::probe("dropped-by-limit");
        if (accepted >= 2 && dropped) sim::nontrivial();
    }
};
World* W;
class R : public NUClear::Reactor {
public:
    template <int I> void add(int variant) {
        const int id = int(W->re.size());
        auto f = [id](const Msg<I>& m) { W->run(id, I, m.eid); };
        auto rec = [&](int limit, bool once, const char* what) { sim::Quiet q; W->re.push_back(Re{I, limit, once, 0, what}); };
        switch (variant) {
            case 0: rec(1, false, "Single"); on<Trigger<Msg<I>>, Single>().then(std::move(f)); break;
            case 1: rec(2, false, "Buffer<2>"); on<Trigger<Msg<I>>, Buffer<2>>().then(std::move(f)); break;
            case 2: rec(3, false, "Buffer<3>, Pool<1>"); on<Trigger<Msg<I>>, Buffer<3>, Pool<PA>>().then(std::move(f)); break;
            case 3: rec(1, false, "Single, Sync"); on<Trigger<Msg<I>>, Single, Sync<SG>>().then(std::move(f)); break;
            case 4: rec(1, true, "Once"); on<Trigger<Msg<I>>, Once>().then(std::move(f)); break;
            case 5: rec(1, true, "Once, Pool<2>"); on<Trigger<Msg<I>>, Once, Pool<PB>>().then(std::move(f)); break;
            case 6: rec(2, false, "Buffer<2>, Sync, Pool<2>"); on<Trigger<Msg<I>>, Buffer<2>, Sync<SG>, Pool<PB>>().then(std::move(f)); break;
            case 7: rec(1, false, "Single, Inline"); on<Trigger<Msg<I>>, Single, Inline::ALWAYS>().then(std::move(f)); break;
            case 8: rec(1, true, "Once, Sync"); on<Trigger<Msg<I>>, Once, Sync<SG>>().then(std::move(f)); break;
            default: rec(1, false, "Single, MainThread"); on<Trigger<Msg<I>>, Single, MainThread>().then(std::move(f)); break;
        }
    }
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        int n;
        { sim::Quiet q; n = int(sim::range(1, 4)); }
        for (int i = 0; i < n; ++i) {
            int t, v;
            { sim::Quiet q; t = int(sim::choose(NTYPE)); v = int(sim::choose(10)); }
            if (t == 0) add<0>(v); else add<1>(v);
        }
    }
};
}  // namespace
void scenario() {
    NUClear::Configuration c;
    World* w;
    int nthreads;
    {
        sim::Quiet q;
        W = w = new World();
        w->throws = sim::chance(1, 2);
        w->budget = int(sim::range(4, 24));
        c.default_pool_concurrency = int(sim::range(1, 3));
        nthreads = int(sim::range(1, 4));
    }
    NUClear::PowerPlant plant(c);
    w->plant = &plant;
    plant.install<R>();
    std::thread driver([&] {
        sim::wait_quiescent();
        int phases;
        { sim::Quiet q; phases = int(sim::range(1, 3)); }
        for (int p = 0; p < phases; ++p) {
            std::vector<std::thread> t;
            for (int i = 0; i < nthreads; ++i)
                t.emplace_back([w] {
                    int n;
                    { sim::Quiet q; n = int(sim::range(1, 5)); }
                    for (int j = 0; j < n; ++j) {
                        if (!w->emit_any()) break;
                        if (sim::chance(1, 4)) sim::sleep_ns(int64_t(sim::pick_log(100, 50000)));
                    }
                });
            for (auto& x : t) x.join();
            sim::wait_quiescent();
            w->settle();
            { sim::Quiet q; w->budget = std::max(w->budget, 3); }
        }
        w->check();
        { sim::Quiet q; w->closed = true; }
        plant.shutdown();
    });
    plant.start();
    driver.join();
}
