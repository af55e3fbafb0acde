// Reaction handles used and reactions bound from every thread while their types are emitted.
#include <algorithm>
#include <memory>
#include <mutex>
#include <nuclear>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "R18";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct SG {};
constexpr int NTYPE = 2;
template <int I> struct Msg { int eid; };
struct Op { int kind; uint64_t inv, ret; };    // 0 enable (also: bound), 1 disable, 2 unbind
struct Re {
    int type; bool two;   // triggered by both types
    const char* what;
    uint64_t bind_inv, bind_ret = ~0ULL;
    std::vector<Op> ops;
    ReactionHandle handle = ReactionHandle();
    bool have = false;
};
struct Emit { int id, type; uint64_t inv, ret; };
struct World {
    std::vector<Re> re;
    std::vector<Emit> emits;
    std::vector<std::vector<int>> ran;    // [reaction] -> emit ids
    std::vector<uint64_t> ran_at;
    bool closed = false;
    int budget = 40, binds = 3;
    NUClear::PowerPlant* plant = nullptr;
    class R* reactor           = nullptr;
    uint64_t n_ops = 0, n_idle = 0;
    // idle reaction
    ReactionHandle idle{};
    uint64_t idle_unbound = 0, idle_after = 0;
};
World* W;
void act(int depth, int self_reaction);

template <int I> void emit1(bool inl) {
    int eid;
    { sim::Quiet q; eid = int(W->emits.size()); W->emits.push_back(Emit{eid, I, sim::seq(), 0}); }
    auto m = std::make_unique<Msg<I>>();
    m->eid = eid;
    if (inl) W->plant->emit<word::emit::Inline>(m); else W->plant->emit(m);
    sim::Quiet q;
    W->emits[size_t(eid)].ret = sim::seq();
}
void ran(int r, int type, int eid) {
    bool a;
    {
        sim::Quiet q;
        if (eid < 0 || eid >= int(W->emits.size()) || W->emits[size_t(eid)].type != type) sim::fail("corrupt", "reaction %d ran with a message that was never emitted", r);
        auto& x = W->ran[size_t(r)];
        if (std::find(x.begin(), x.end(), eid) != x.end()) sim::fail("duplicate", "reaction %d (%s) ran twice for emit %d", r, W->re[size_t(r)].what, eid);
        x.push_back(eid);
        a = !W->closed && sim::chance(1, 3);
    }
    if (a) act(1, r);
    sim::yield();
}
class R : public NUClear::Reactor {
public:
    template <int I> void add(int variant) {
        int id;
        {
            sim::Quiet q;
            id = int(W->re.size());
            Re r{};
            r.type = I; r.two = false; r.what = ""; r.bind_inv = sim::seq();
            W->re.push_back(r);
            W->ran.emplace_back();
        }
        auto f = [id](const Msg<I>& m) { ran(id, I, m.eid); };
        ReactionHandle h;
        const char* what = "";
        switch (variant) {
            case 0: what = "Trigger"; h = on<Trigger<Msg<I>>>().then(std::move(f)); break;
            case 1: what = "Trigger, Pool<1>"; h = on<Trigger<Msg<I>>, Pool<PA>>().then(std::move(f)); break;
            case 2: what = "Trigger, Sync"; h = on<Trigger<Msg<I>>, Sync<SG>>().then(std::move(f)); break;
            case 3: what = "Trigger, Inline::ALWAYS"; h = on<Trigger<Msg<I>>, Inline::ALWAYS>().then(std::move(f)); break;
            default: what = "Trigger, MainThread, HIGH"; h = on<Trigger<Msg<I>>, MainThread, Priority::HIGH>().then(std::move(f)); break;
        }
        sim::Quiet q;
        Re& r = W->re[size_t(id)];
        r.what = what; r.handle = h; r.have = true; r.bind_ret = sim::seq();
        r.ops.push_back(Op{0, r.bind_inv, r.bind_ret});
    }
    void add_any() {
        int t, v;
        { sim::Quiet q; t = int(sim::choose(NTYPE)); v = int(sim::choose(5)); }
        if (t == 0) add<0>(v); else add<1>(v);
    }
    void add_idle() {
        auto h = on<Idle<Pool<PA>>>().then([] { sim::Quiet q; ++W->n_idle; if (W->idle_after) sim::fail("idle-after-unbind", "an Idle reaction was executed after it had been unbound and everything had come to rest"); });
        sim::Quiet q;
        W->idle = h;
    }
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        int n;
        { sim::Quiet q; n = int(sim::range(1, 4)); W->reactor = this; }
        for (int i = 0; i < n; ++i) add_any();
    }
};
// One random operation
void act(int depth, int self_reaction) {
    int what, t, target = -1;
    bool inl;
    ReactionHandle h;
    {
        sim::Quiet q;
        if (W->closed || W->budget-- <= 0) return;
        what = int(sim::choose(10));
        t    = int(sim::choose(NTYPE));
        inl  = sim::chance(1, 3);
        if (what >= 4) {
            std::vector<int> c;
            for (size_t i = 0; i < W->re.size(); ++i) if (W->re[i].have) c.push_back(int(i));
            target = (self_reaction >= 0 && sim::chance(1, 2) && W->re[size_t(self_reaction)].have) ? self_reaction : c.empty() ? -1 : c[sim::choose(c.size())];
            if (target < 0) return;
            h = W->re[size_t(target)].handle;
        }
        if (what == 3 && W->binds-- <= 0) what = 0;
    }
    if (what < 3) { if (depth < 5) { if (t == 0) emit1<0>(inl); else emit1<1>(inl); } return; }
    if (what == 3) { W->reactor->add_any(); return; }
    size_t k;
    const int kind = what < 6 ? 1 : what < 9 ? 0 : 2;
    { sim::Quiet q; k = W->re[size_t(target)].ops.size(); W->re[size_t(target)].ops.push_back(Op{kind, sim::seq(), ~0ULL}); ++W->n_ops; }
    if (kind == 1) { if (inl) h.disable(); else h.enable(false); }
    else if (kind == 0) { if (inl) h.enable(); else h.enable(true); }
    else h.unbind();
    sim::Quiet q;
    W->re[size_t(target)].ops[k].ret = sim::seq();
}
void check() {
    sim::Quiet q;
    uint64_t must = 0, mustnot = 0, may = 0;
    for (size_t r = 0; r < W->re.size(); ++r) {
        auto& re = W->re[r];
        for (auto& e : W->emits) {
            const bool did = std::find(W->ran[r].begin(), W->ran[r].end(), e.id) != W->ran[r].end();
            if (e.type != re.type) { if (did) sim::fail("cross-delivery", "reaction %zu ran for another type", r); continue; }
            bool gone = false, perhaps_gone = false;
            for (auto& o : re.ops)
                if (o.kind == 2) { if (o.ret < e.inv) gone = true; else if (o.inv < e.ret) perhaps_gone = true; }
            const bool bound = re.bind_ret < e.inv, perhaps_bound = re.bind_inv < e.ret;
            // can the reaction have been enabled / disabled at some moment of the emit?
            auto surely = [&](int kind) {
                for (auto& o : re.ops) {
                    if (o.kind != kind || o.ret >= e.inv) continue;
                    bool undone = false;
                    for (auto& u : re.ops) if (u.kind == 1 - kind && u.ret > o.inv && u.inv < e.ret) undone = true;
                    if (!undone) return true;
                }
                return false;
            };
            if (!perhaps_bound || gone || surely(1)) {
                ++mustnot;
                if (did) sim::fail(gone ? "ran-unbound" : "ran-disabled", "reaction %zu (%s) was executed for emit %d, which began after %s had returned", r, re.what, e.id, gone ? "unbind()" : "disable()");
            }
            else if (bound && !perhaps_gone && surely(0)) {
                ++must;
                if (!did) sim::fail("lost", "reaction %zu (%s) was bound and enabled during all of emit %d but was not executed for it", r, re.what, e.id);
            }
            else ++may;
        }
    }
    for (auto& re : W->re) {
        if (!re.have) continue;
        bool conc = false; 
        // with no concurrent operations the handle reports the last one
        const Op* last = nullptr;
        for (auto& o : re.ops) { if (o.kind == 2) conc = true; if (!last || o.inv > last->inv) last = &o; }
        for (auto& o : re.ops) if (&o != last && o.ret > last->inv) conc = true;
        if (!conc && last && re.handle.enabled() != (last->kind == 0)) sim::fail("enabled", "enabled() reports %d after the last operation was %s", re.handle.enabled(), last->kind == 0 ? "enable" : "disable");
    }
    sim::sample("%zu reactions, %zu emits, %lu handle operations: %lu deliveries required, %lu forbidden, %lu either way, idle %lu", W->re.size(), W->emits.size(), (unsigned long)W->n_ops, (unsigned long)must, (unsigned long)mustnot, (unsigned long)may, (unsigned long)W->n_idle);
    if (mustnot) sim::probe("forbidden-deliveries");
    if (may) sim::probe("concurrent-with-emit");
    if (must && mustnot) sim::nontrivial();
}
}  // namespace
void scenario() {
    NUClear::Configuration c;
    int nthreads, with_idle;
    {
        sim::Quiet q;
        W = new World();
        W->budget = int(sim::range(8, 50));
        c.default_pool_concurrency = int(sim::range(1, 3));
        nthreads = int(sim::range(1, 4));
        with_idle = int(sim::choose(3));
    }
    NUClear::PowerPlant plant(c);
    W->plant = &plant;
    plant.install<R>();
    std::thread driver([&] {
        sim::wait_quiescent();
        if (with_idle) W->reactor->add_idle();
        std::vector<std::thread> t;
        for (int i = 0; i < nthreads; ++i)
            t.emplace_back([] {
                int n;
                { sim::Quiet q; n = int(sim::range(1, 8)); }
                for (int j = 0; j < n; ++j) act(0, -1);
            });
        if (with_idle == 2) W->idle.unbind();
        for (auto& x : t) x.join();
        sim::wait_quiescent();
        if (with_idle == 2) { sim::Quiet q; W->idle_after = 1; }
        // settled: everything that is bound and enabled must still work
        for (int i = 0; i < 3; ++i) { emit1<0>(i == 1); emit1<1>(i == 2); }
        sim::wait_quiescent();
        check();
        { sim::Quiet q; W->closed = true; }
        plant.shutdown();
    });
    plant.start();
    driver.join();
    {
        sim::Quiet q;
        for (auto& r : W->re) r.handle = ReactionHandle();
        W->idle = ReactionHandle();
    }
}
