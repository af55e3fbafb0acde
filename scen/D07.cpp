// What each reaction is given: messages emitted by several threads, nested and inline, into reactions with every combination
// of data words; every value is judged against the history of the emits.
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "D07";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionTask;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 3; };
struct SG {};
constexpr uint64_t FILL = 0x9E3779B97F4A7C15ULL;

struct Emission { int id, type, fiber; uint64_t begin, end; bool inl; };
template <int I> struct Msg {
    int id;
    uint64_t words[6];
    explicit Msg(int id) : id(id) { for (int i = 0; i < 6; ++i) words[i] = uint64_t(id) * FILL + uint64_t(i) + I; }
    ~Msg() { for (auto& w : words) w = 0xDEAD; }
    Msg(const Msg&) = delete;
};
struct Task {
    int reaction, emission;
    uint64_t created;
    bool ran = false;
};
struct Spec {
    const char* what;
    std::vector<int> required, optional;   // types besides the trigger
    bool may_reject = false;               // Single and the like
};
struct World {
    std::vector<Emission> em;
    std::map<NUClear::id_t, Task> tasks;
    std::map<NUClear::id_t, int> reactions;
    std::vector<Spec> specs;
    std::map<int, std::vector<int>> stack;   // fiber -> emissions in progress
    // Last: trigger id -> the list before it, per reaction
    std::map<int, std::map<int, std::vector<int>>> windows;
    int budget = 30, active = 0;
    uint64_t n_run = 0, n_with = 0, n_null = 0, n_drop = 0, n_last = 0, n_race = 0, n_nested = 0;
    NUClear::PowerPlant* plant = nullptr;
};
World* W;
// A word that only watches the creation of tasks
struct Mark {
    template <typename DSL>
    static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) {
        sim::Quiet q;
        W->reactions[r->id] = idx;
    }
    template <typename DSL>
    static bool precondition(ReactionTask& t) {
        sim::Quiet q;
        Task n;
        n.reaction = W->reactions.at(t.parent->id);
        auto& s    = W->stack[sim::self()];
        n.emission = s.empty() ? -1 : s.back();
        n.created  = sim::seq();
        W->tasks.emplace(t.id, n);
        return true;
    }
};
template <int I> const Emission& check(const Msg<I>& m, const char* where) {
    const int id = m.id;
    bool ok = id >= 0 && id < int(W->em.size());
    for (int i = 0; i < 6; ++i) ok = ok && m.words[i] == uint64_t(id) * FILL + uint64_t(i) + I;
    if (!ok) sim::fail("not-whole", "%s: received a %s message that was never emitted (id %d)", where, I == 0 ? "A" : I == 1 ? "B" : "C", id);
    if (W->em[size_t(id)].type != I) sim::fail("not-whole", "%s: received message %d as another type", where, id);
    return W->em[size_t(id)];
}
Task& current(const char* where) {
    const auto* t = ReactionTask::get_current_task();
    if (!t) sim::fail("setup", "no current task in %s", where);
    auto it = W->tasks.find(t->id);
    if (it == W->tasks.end()) sim::fail("setup", "unknown task in %s", where);
    return it->second;
}
// is v (may be null) a legal value of type I for a task of which emission e was the trigger
void judge_value(int type, const Emission* v, const Task& t, const char* where) {
    if (t.emission < 0) return;
    const Emission& e = W->em[size_t(t.emission)];
    // a member of the type that is being emitted is the message itself
    if (e.type == type) {
        if (!v || v->id != e.id) sim::fail("wrong-trigger", "%s: triggered by message %d and was given %d", where, e.id, v ? v->id : -1);
        return;
    }
    ++W->n_with;
    const Emission* newest = nullptr;   // one that had certainly been stored
    for (auto& x : W->em) if (x.type == type && x.end && x.end < e.begin && (!newest || x.begin > newest->end)) newest = &x;
    if (!v) {
        if (newest) sim::fail("missing", "%s: was given nothing although the emit of message %d had returned before the trigger %d was emitted", where, newest->id, e.id);
        ++W->n_null;
        return;
    }
    if (e.end && v->begin > e.end) sim::fail("from-the-future", "%s: its task was created by trigger %d and it was given message %d, which was emitted after the emit of the trigger had returned", where, e.id, v->id);
    if (!v->end || v->end > e.begin) ++W->n_race;
    for (auto& x : W->em)
        if (x.type == type && v->end && x.begin > v->end && x.end && x.end < e.begin)
            sim::fail("stale", "%s: triggered by message %d it was given message %d, but the newer %d had been emitted completely before the trigger", where, e.id, v->id, x.id);
}
void finish(Task& t, const char* where) {
    if (t.ran) sim::fail("twice", "%s: one task executed twice", where);
    t.ran = true;
    ++W->n_run;
}
template <int I> void send(bool inl);
void more() {
    int n, ty;
    bool inl;
    {
        sim::Quiet q;
        n  = W->budget > 0 && sim::chance(1, 4) ? 1 : 0;
        W->budget -= n;
        ty = int(sim::choose(3));
        inl = sim::chance(1, 3);
        if (n) ++W->n_nested;
    }
    if (!n) return;
    if (ty == 0) send<0>(inl); else if (ty == 1) send<1>(inl); else send<2>(inl);
}
template <int I> void send(bool inl) {
    int id;
    {
        sim::Quiet q;
        id = int(W->em.size());
        W->em.push_back(Emission{id, I, sim::self(), sim::seq(), 0, inl});
        W->stack[sim::self()].push_back(id);
    }
    auto m = std::make_unique<Msg<I>>(id);
    if (inl) W->plant->emit<word::emit::Inline>(m);
    else W->plant->emit(m);
    sim::Quiet q;
    W->stack[sim::self()].pop_back();
    W->em[size_t(id)].end = sim::seq();
}
template <int I> void value(const Msg<I>& m, const Task& t, const char* where) { judge_value(I, &check(m, where), t, where); }
template <int I> void value(const std::shared_ptr<const Msg<I>>& m, const Task& t, const char* where) { judge_value(I, m ? &check(*m, where) : nullptr, t, where); }

struct Body {
    Body() { sim::Quiet q; ++W->active; }
    ~Body() { sim::Quiet q; --W->active; }
};
template <typename... D> void react(const char* where, const D&... d) {
    Body body;
    {
        sim::Quiet q;
        Task& t = current(where);
        (void)std::initializer_list<int>{(value(d, t, where), 0)...};
        finish(t, where);
    }
    more();
    sim::Quiet q;   // what it was given stays whole for as long as it executes
    Task& t = current(where);
    (void)std::initializer_list<int>{(value(d, t, where), 0)...};
}
// The list of Last<n> is the window of the order in which the triggers of the reaction were seen
template <int I, typename L> void window(const char* where, int n, const L& l, bool trigger) {
    sim::Quiet q;
    Task& t = current(where);
    ++W->n_last;
    std::vector<int> ids;
    for (auto& x : l) {
        if (!x) sim::fail("not-whole", "%s: an element of the list is null", where);
        ids.push_back(check(*x, where).id);
    }
    if (ids.empty() || int(ids.size()) > n) sim::fail("window", "%s: a list of %zu values", where, ids.size());
    if (t.emission < 0) return;
    const Emission& e = W->em[size_t(t.emission)];
    if (trigger && e.type == I) {
        if (ids.back() != e.id) sim::fail("window", "%s: the newest value is %d, the trigger was %d", where, ids.back(), e.id);
        auto& w = W->windows[t.reaction];
        if (!w.emplace(e.id, ids).second) sim::fail("twice", "%s: triggered twice by message %d", where, e.id);
    }
    else judge_value(I, &W->em[size_t(ids.back())], t, where);
    // values of one thread are in the order it emitted them
    for (size_t i = 0; i < ids.size(); ++i)
        for (size_t j = i + 1; j < ids.size(); ++j) {
            auto &a = W->em[size_t(ids[i])], &c = W->em[size_t(ids[j])];
            if (trigger && ids[i] == ids[j]) sim::fail("window", "%s: message %d is in the list twice", where, ids[i]);
            if (trigger && c.end && c.end < a.begin) sim::fail("window", "%s: message %d comes before the older %d", where, ids[i], ids[j]);
        }
}
template <int I, typename L> void last_of(const char* where, int n, const L& l, bool trigger) {
    Body body;
    { sim::Quiet q; finish(current(where), where); }
    window<I>(where, n, l, trigger);
    more();
}
class R : public NUClear::Reactor {
public:
    template <typename... Words, typename F> void add(const char* what, std::vector<int> req, std::vector<int> opt, bool rej, F f) {
        int idx;
        { sim::Quiet q; idx = int(W->specs.size()); W->specs.push_back(Spec{what, req, opt, rej}); }
        on<Mark, Words...>(idx).then(std::move(f));
    }
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        uint64_t m;
        { sim::Quiet q; m = sim::choose(1u << 16) | (1u << sim::choose(16)) | (1u << sim::choose(16)); }
        using A = Msg<0>; using B = Msg<1>; using C = Msg<2>;
        using SA = std::shared_ptr<const A>; using SB = std::shared_ptr<const B>; using SC = std::shared_ptr<const C>;
        using L = std::vector<int>;
        auto has = [m](int b) { return (m >> b) & 1; };
        if (has(0)) add<Trigger<A>>("Trigger<A>", {}, {}, false, [](const A& a) { react("Trigger<A>", a); });
        if (has(1)) add<Trigger<A>, Pool<PA>, With<B>>("Trigger<A>, With<B>", L{1}, {}, false, [](const A& a, const B& b) { react("Trigger<A>, With<B>", a, b); });
        if (has(2)) add<Trigger<A>, With<B>, With<C>, Pool<PB>>("Trigger<A>, With<B>, With<C>", L{1, 2}, {}, false, [](const A& a, const B& b, const SC& c) { react("Trigger<A>, With<B>, With<C>", a, b, c); });
        if (has(3)) add<Trigger<A>, Trigger<B>>("Trigger<A>, Trigger<B>", L{0, 1}, {}, false, [](const SA& a, const SB& b) { react("Trigger<A>, Trigger<B>", a, b); });
        if (has(4)) add<Trigger<A>, Optional<With<B>>, Pool<PA>>("Trigger<A>, Optional<With<B>>", {}, L{1}, false, [](const A& a, const SB& b) { react("Trigger<A>, Optional<With<B>>", a, b); });
        if (has(5)) add<Optional<Trigger<A>>, Optional<Trigger<B>>, Pool<PB>>("Optional<Trigger<A>>, Optional<Trigger<B>>", {}, L{0, 1}, false, [](const SA& a, const SB& b) { react("Optional<Trigger<A>>, Optional<Trigger<B>>", a, b); });
        if (has(6)) add<Last<3, Trigger<A>>>("Last<3, Trigger<A>>", {}, {}, false, [](const std::list<SA>& l) { last_of<0>("Last<3, Trigger<A>>", 3, l, true); });
        if (has(7)) add<Last<2, Trigger<A>>, With<B>, Pool<PB>>("Last<2, Trigger<A>>, With<B>", L{1}, {}, true, [](const std::vector<SA>& l, const B& b) { { sim::Quiet q; value(b, current("Last<2, Trigger<A>>, With<B>"), "Last<2, Trigger<A>>, With<B>"); } last_of<0>("Last<2, Trigger<A>>, With<B>", 2, l, true); });
        if (has(8)) add<Trigger<B>, Last<4, With<A>>, Pool<PA>>("Trigger<B>, Last<4, With<A>>", L{0}, {}, false, [](const B& b, const std::list<SA>& l) { { sim::Quiet q; value(b, current("Trigger<B>, Last<4, With<A>>"), "Trigger<B>, Last<4, With<A>>"); } last_of<0>("Trigger<B>, Last<4, With<A>>", 4, l, false); });
        if (has(9)) add<Trigger<B>, With<A>, Inline::ALWAYS>("Trigger<B>, With<A>, Inline::ALWAYS", L{0}, {}, false, [](const B& b, const A& a) { react("Trigger<B>, With<A>, Inline::ALWAYS", b, a); });
        if (has(10)) add<Trigger<A>, Inline::ALWAYS>("Trigger<A>, Inline::ALWAYS", {}, {}, false, [](const A& a) { react("Trigger<A>, Inline::ALWAYS", a); });
        if (has(11)) add<Trigger<C>, With<A>, Sync<SG>>("Trigger<C>, With<A>, Sync", L{0}, {}, false, [](const C& c, const SA& a) { react("Trigger<C>, With<A>, Sync", c, a); });
        if (has(12)) add<Trigger<C>, Optional<With<A>>, Optional<With<B>>, MainThread>("Trigger<C>, Optional<With<A>>, Optional<With<B>>, MainThread", {}, L{0, 1}, false, [](const C& c, const SA& a, const SB& b) { react("Trigger<C>, 2 Optional, MainThread", c, a, b); });
        if (has(13)) add<Trigger<C>, With<B>, Single, Pool<PA>>("Trigger<C>, With<B>, Single", L{1}, {}, true, [](const C& c, const B& b) { react("Trigger<C>, With<B>, Single", c, b); });
        if (has(14)) add<Trigger<C>, Priority::HIGH, Pool<PB>>("Trigger<C>, Priority::HIGH", {}, {}, false, [](const SC& c) { react("Trigger<C>, HIGH", c); });
        if (has(15)) add<Last<5, Trigger<C>>, Pool<PB>, Sync<SG>>("Last<5, Trigger<C>>, Pool<3>, Sync", {}, {}, false, [](const std::list<SC>& l) { last_of<2>("Last<5, Trigger<C>>", 5, l, true); });
    }
};
template <class F> bool until(F f) {
    for (int i = 0; i < 1000; ++i) {
        { sim::Quiet q; if (f()) return true; }
        if (i == 500) { sim::stop_faults(); sim::fair_from_now(); }
        sim::sleep_ns(20000);
    }
    return false;
}
// must the task have run? 1 yes, 0 no, -1 either
int expected(const Task& t) {
    const Spec& s = W->specs[size_t(t.reaction)];
    if (t.emission < 0 || s.may_reject) return -1;
    const Emission& e = W->em[size_t(t.emission)];
    int r = 1;
    for (int ty : s.required) {
        if (ty == e.type) continue;
        bool sure = false, can = false;
        for (auto& x : W->em) if (x.type == ty) { sure = sure || (x.end && x.end < e.begin); can = can || x.begin < e.end; }
        if (!can) return 0;
        if (!sure) r = -1;
    }
    return r;
}
bool all_ran() {
    if (W->active) return false;
    for (auto& kv : W->tasks) if (!kv.second.ran && expected(kv.second) == 1) return false;
    return true;
}
}  // namespace
void scenario() {
    NUClear::Configuration c;
    World* w;
    int nt, per, inl, warm;
    {
        sim::Quiet q;
        W = w = new World();
        c.default_pool_concurrency = int(sim::range(1, 3));
        nt   = int(sim::range(1, 3));
        per  = int(sim::range(1, 9));
        inl  = int(sim::choose(4));
        warm = int(sim::choose(4));
    }
    {
        NUClear::PowerPlant plant(c);
        w->plant = &plant;
        plant.install<R>();
        // some types have a value before anything is triggered
        if (warm & 1) send<1>(false);
        if (warm & 2) send<0>(false);
        std::thread driver([&] {
            sim::sleep_ns(100000);
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([per, inl] {
                    for (int i = 0; i < per; ++i) {
                        int ty;
                        bool in, nap;
                        { sim::Quiet q; ty = int(sim::choose(3)); in = int(sim::choose(4)) < inl; nap = sim::chance(1, 4); }
                        if (ty == 0) send<0>(in); else if (ty == 1) send<1>(in); else send<2>(in);
                        if (nap) sim::sleep_ns(20000);
                    }
                });
            for (auto& t : ts) t.join();
            bool quiet = sim::wait_quiescent(10000000);
            if (!quiet) { sim::stop_faults(); sim::fair_from_now(); quiet = sim::wait_quiescent(10000000); }
            if (!quiet || !until(all_ran)) {
                sim::Quiet q;
                for (auto& kv : w->tasks) if (!kv.second.ran && expected(kv.second) == 1) sim::fail("not-run", "%s was not executed for message %d within 20 ms although all of its data had been emitted before", w->specs[size_t(kv.second.reaction)].what, kv.second.emission);
            }
            plant.shutdown();
        });
        plant.start();
        driver.join();
    }
    sim::Quiet q;
    for (auto& kv : w->tasks) {
        const Task& t = kv.second;
        const int ex  = expected(t);
        const Spec& s = w->specs[size_t(t.reaction)];
        if (!t.ran && ex == 1) sim::fail("not-run", "%s was not executed for message %d although all of its data had been emitted before", s.what, t.emission);
        if (t.ran && ex == 0) sim::fail("run-without-data", "%s was executed for message %d although what it requires had not been emitted", s.what, t.emission);
        if (!t.ran) ++w->n_drop;
    }
    // the windows of a Last are those of one order of all of its triggers
    for (auto& r : w->windows) {
        const Spec& s = w->specs[size_t(r.first)];
        if (s.may_reject) continue;
        size_t n = 0;
        for (auto& kv : r.second) n = std::max(n, kv.second.size());
        const size_t cap = std::string(s.what).find("Last<3") == 0 ? 3 : 5;
        std::map<int, int> follows;
        int firsts = 0;
        for (auto& kv : r.second) {
            const auto& l = kv.second;
            if (l.size() == 1) { ++firsts; continue; }
            const int pred = l[l.size() - 2];
            if (!follows.emplace(pred, kv.first).second) sim::fail("window", "%s: both message %d and %d directly follow %d in the lists that were given", s.what, kv.first, follows[pred], pred);
            auto p = r.second.find(pred);
            if (p == r.second.end()) sim::fail("window", "%s: message %d is in a list and its own trigger was not executed", s.what, pred);
            std::vector<int> want = p->second;
            want.push_back(kv.first);
            if (want.size() > cap) want.erase(want.begin());
            if (want != l) sim::fail("window", "%s: the list given for message %d is not the one for %d with it added", s.what, kv.first, pred);
        }
        if (firsts != 1) sim::fail("window", "%s: %d triggers were given a list of one", s.what, firsts);
        if (r.second.size() > cap) sim::probe("window-slid");
    }
    if (w->n_null) sim::probe("optional-null");
    if (w->n_drop) sim::probe("dropped-without-data");
    if (w->n_race) sim::probe("read-during-emit");
    if (w->n_last) sim::probe("last");
    if (w->n_nested) sim::probe("nested-emit");
    if (w->n_run >= 3 && w->n_with) sim::nontrivial();
    sim::sample("%zu emits, %lu tasks executed, %lu values judged, %lu lists, %lu dropped, %lu read while being emitted", w->em.size(), (unsigned long)w->n_run, (unsigned long)w->n_with, (unsigned long)w->n_last, (unsigned long)w->n_drop, (unsigned long)w->n_race);
}
