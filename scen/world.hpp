// A random scheduler workload: reactions over random pools, groups, priorities and inline levels; callbacks that emit,
// take time, hold their place until released, and throw. Each scenario chooses the mix and the oracles it enables.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include <algorithm>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"

namespace world {

using NUClear::threading::ReactionTask;
using NUClear::util::GroupDescriptor;
using NUClear::util::ThreadPoolDescriptor;
namespace word = NUClear::dsl::word;

constexpr int NTYPE = 3;
static const int PRIOS[5] = {1000, 750, 500, 250, 0};

struct Knobs {
    int min_reactions = 2, max_reactions = 7;
    int max_user_pools = 3, max_pool_conc = 3;
    int max_groups = 3;
    int max_group_conc = 2;
    unsigned p_group = 500, p_multi = 300;       // per mille: a reaction has groups; of those, several
    unsigned p_inline_word = 150;                // reaction is ALWAYS or NEVER
    unsigned p_static = 300;                     // reaction built from the public words rather than Dyn
    unsigned p_inline_emit = 200;                // an emit is an inline one
    unsigned p_hold = 150, p_throw = 100, p_child = 350, p_sleep = 150;
    int max_emits = 24;
    int max_external = 2;                        // emitting threads of the user's
    int burst = 3;
    bool spread_priorities = false;
    // oracles
    bool o_exact = false, o_group = false, o_progress = false, o_pool = false, o_prio = false, o_inline = false, o_order = false;
};

struct PoolS {
    std::shared_ptr<const ThreadPoolDescriptor> desc;
    int conc;
    std::set<int> fibers;
    int running = 0;
};
struct GroupS {
    std::shared_ptr<const GroupDescriptor> desc;
    int conc;
    int running = 0;
    int multi_users = 0;
};
struct Spec {
    int id, type, pool, prio;
    int inl;   // 0 neutral, 1 always, 2 never
    std::vector<int> groups;
    bool throws;
    int bind_order;
};
enum TState { PENDING, RUNNING, DONE };
struct TaskS {
    int reaction, emission;
    TState state;
    bool want_inline;
    uint64_t sub_begin, sub_end, start, end;   // event sequence numbers; 0 not yet
    int64_t t_sub;
    int emitter;         // fiber that emitted
    int fiber;           // fiber that executed
    int depth;           // nesting depth on that fiber
    uint64_t held_from;
};
struct EmitS {
    int id, type, depth;
    bool inl;
    int fiber;
    std::vector<int> tasks;
};

struct World;
static World* W = nullptr;

template <int I>
struct Msg {
    int eid;
    uint64_t canary;
};

// Documented extension point: a DSL word. It takes everything from the specification chosen for this run.
struct Dyn {
    template <typename DSL>
    static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx);
    template <typename DSL>
    static std::shared_ptr<const ThreadPoolDescriptor> pool(const ReactionTask& t);
    template <typename DSL>
    static std::set<std::shared_ptr<const GroupDescriptor>> group(const ReactionTask& t);
    template <typename DSL>
    static int priority(const ReactionTask& t);
    template <typename DSL>
    static NUClear::util::Inline run_inline(const ReactionTask& t);
};

struct SP0 { static constexpr const char* name = "SP0"; static constexpr int concurrency = 1; };
struct SP1 { static constexpr const char* name = "SP1"; static constexpr int concurrency = 2; };
struct SG0 {};
struct SG1 {};
struct SG2 { static constexpr int concurrency = 2; };

struct World {
    Knobs k;
    std::vector<PoolS> pools;
    std::vector<GroupS> groups;
    std::vector<Spec> specs;
    std::vector<TaskS> tasks;
    std::vector<EmitS> emits;
    std::map<NUClear::id_t, int> by_reaction;
    std::map<std::pair<int, int>, int> task_of;    // (emission, reaction) -> task
    std::map<int, std::vector<int>> stack;         // fiber -> running tasks
    std::map<int, uint64_t> last_free;             // fiber -> when its last pool task ended
    std::map<int, std::vector<int>> inl_emit;      // fiber -> emissions in progress
    int main_fiber = -1, main_pool = 1;
    int default_conc = 1;
    // gates (real primitives: holding callbacks block like user code would)
    std::mutex gm;
    std::condition_variable gcv;
    std::set<int> held;      // tasks at a gate
    std::set<int> released;
    bool no_more_holds = false;
    bool in_startup = false;   // pools have not started: nobody could release
    int nested_inline_groups = 0;
    bool closed = false;     // shutdown began: emissions are no longer obliged to run
    uint64_t n_exec = 0, n_inline = 0, n_parked = 0, n_throw = 0, n_hold = 0, n_multi = 0;
    NUClear::PowerPlant* plant = nullptr;

    int static_pool(const std::shared_ptr<const ThreadPoolDescriptor>& d) {
        for (size_t i = 0; i < pools.size(); ++i) if (pools[i].desc == d) return int(i);
        pools.push_back(PoolS{d, d->concurrency, {}, 0});
        return int(pools.size()) - 1;
    }
    int static_group(const std::shared_ptr<const GroupDescriptor>& d) {
        for (size_t i = 0; i < groups.size(); ++i) if (groups[i].desc == d) return int(i);
        groups.push_back(GroupS{d, d->concurrency, 0, 0});
        return int(groups.size()) - 1;
    }

    void generate(const Knobs& kn) {
        k            = kn;
        default_conc = int(sim::range(1, 3));
        pools.push_back(PoolS{word::Pool<>::descriptor(), default_conc, {}, 0});
        pools.push_back(PoolS{word::MainThread::descriptor(), 1, {}, 0});
        const int np = int(sim::choose(uint64_t(k.max_user_pools) + 1));
        for (int i = 0; i < np; ++i) {
            const int c = int(sim::range(1, uint64_t(k.max_pool_conc)));
            pools.push_back(PoolS{std::make_shared<ThreadPoolDescriptor>("P" + std::to_string(i), c, !sim::chance(1, 5)), c, {}, 0});
        }
        const int ng = k.p_group ? int(sim::range(1, uint64_t(k.max_groups))) : 0;
        for (int i = 0; i < ng; ++i) {
            const int c = sim::chance(1, 3) ? int(sim::range(1, uint64_t(k.max_group_conc))) : 1;
            groups.push_back(GroupS{std::make_shared<GroupDescriptor>("G" + std::to_string(i), c), c, 0, 0});
        }
        const int nr = int(sim::range(uint64_t(k.min_reactions), uint64_t(k.max_reactions)));
        for (int i = 0; i < nr; ++i) {
            Spec s{};
            s.id   = i;
            s.type = int(sim::choose(NTYPE));
            s.pool = sim::chance(1, 2) ? 0 : int(sim::choose(uint64_t(np) + 2));
            s.prio = (k.spread_priorities || sim::chance(1, 3)) ? PRIOS[sim::choose(5)] : 500;
            s.inl  = sim::chance(k.p_inline_word, 1000) ? int(sim::range(1, 2)) : 0;
            if (ng && sim::chance(k.p_group, 1000)) {
                int n = sim::chance(k.p_multi, 1000) ? int(sim::range(2, 3)) : 1;
                for (int j = 0; j < n; ++j) {
                    const int g = int(sim::choose(uint64_t(ng)));
                    if (std::find(s.groups.begin(), s.groups.end(), g) == s.groups.end()) s.groups.push_back(g);
                }
            }
            s.throws = sim::chance(k.p_throw, 1000);
            specs.push_back(s);
        }
    }

    [[noreturn]] void violation(const char* cls, const char* what, const TaskS& t, const std::string& more = "") {
        const Spec& s = specs[size_t(t.reaction)];
        std::string g;
        for (int x : s.groups) g += " " + groups[size_t(x)].desc->name + "(" + std::to_string(groups[size_t(x)].conc) + ")";
        sim::fail(cls, "%s: reaction %d (message type %d, pool %s of %d, priority %d, inline %s, groups%s), emission %d by thread %d%s. %s", what,
                  s.id, s.type, pools[size_t(s.pool)].desc->name.c_str(), pools[size_t(s.pool)].conc, s.prio,
                  s.inl == 0 ? "neutral" : s.inl == 1 ? "always" : "never", g.empty() ? " none" : g.c_str(), t.emission, t.emitter,
                  emits[size_t(t.emission)].inl ? " (inline)" : "", more.c_str());
    }

    // ---- emitting
    template <int I>
    void do_emit(int depth, bool inl) {
        int eid;
        const int fib = sim::self();
        {
            sim::Quiet q;
            eid = int(emits.size());
            emits.push_back(EmitS{eid, I, depth, inl, fib, {}});
            for (auto& s : specs) {
                if (s.type != I) continue;
                TaskS t{};
                t.reaction = s.id;
                t.emission = eid;
                t.state    = PENDING;
                t.want_inline = s.inl == 1 || (s.inl == 0 && inl);
                t.sub_begin = sim::seq();
                t.t_sub     = sim::now_ns();
                t.emitter   = fib;
                task_of[{eid, s.id}] = int(tasks.size());
                emits.back().tasks.push_back(int(tasks.size()));
                tasks.push_back(t);
            }
            inl_emit[fib].push_back(eid);
        }
        auto m = std::make_unique<Msg<I>>();
        m->eid    = eid;
        m->canary = 0xC0FFEE0000000000ULL + uint64_t(eid);
        if (inl) plant->emit<word::emit::Inline>(m);
        else plant->emit(m);
        {
            sim::Quiet q;
            inl_emit[fib].pop_back();
            uint64_t last_start = 0;
            for (int ti : emits[size_t(eid)].tasks) {
                TaskS& t = tasks[size_t(ti)];
                t.sub_end = sim::seq();
                if (!k.o_inline) continue;
                const Spec& s = specs[size_t(t.reaction)];
                if (t.want_inline && s.groups.empty()) {
                    if (t.state != DONE) violation("inline-not-done", "an inline emit returned before an inlinable reaction completed", t);
                    if (t.fiber != fib) violation("inline-wrong-thread", "an inlined reaction ran on another thread", t);
                    if (t.start < last_start) violation("inline-order", "inlined reactions ran out of binding order", t);
                    last_start = t.start;
                }
            }
        }
    }
    bool emit_any(int depth) {
        int type;
        bool inl;
        {
            sim::Quiet q;
            if (int(emits.size()) >= k.max_emits || closed) return false;
            type = int(sim::choose(NTYPE));
            inl  = sim::chance(k.p_inline_emit, 1000);
        }
        if (type == 0) do_emit<0>(depth, inl);
        else if (type == 1) do_emit<1>(depth, inl);
        else do_emit<2>(depth, inl);
        return true;
    }

    // ---- executing
    void begin(int ti) {
        TaskS& t      = tasks[size_t(ti)];
        const Spec& s = specs[size_t(t.reaction)];
        const int fib = sim::self();
        if (t.state != PENDING) {
            if (k.o_exact) violation("duplicate", "a task was executed twice", t);
            return;
        }
        auto& st = stack[fib];
        t.state  = RUNNING;
        t.start  = sim::seq();
        t.fiber  = fib;
        t.depth  = int(st.size());
        // Was it run inline? Only if the emission is in progress on this thread
        const auto& ie     = inl_emit[fib];
        const bool in_emit = std::find(ie.begin(), ie.end(), t.emission) != ie.end();
        if (k.o_inline) {
            if (in_emit && !t.want_inline) violation("ran-inline", "a reaction that is not to run inline ran on the emitting thread inside the emit", t);
            if (!in_emit && t.want_inline && s.groups.empty()) violation("not-inline", "a reaction to be run inline ran outside the emit", t);
        }
        if (!in_emit) on_pool_start(ti);
        else ++n_inline;
        for (int g : s.groups) {
            GroupS& gr = groups[size_t(g)];
            ++gr.running;
            if (k.o_group && gr.running > gr.conc) {
                std::string o;
                for (auto& x : tasks) if (x.state == RUNNING && &x != &t) {
                    auto& xg = specs[size_t(x.reaction)].groups;
                    if (std::find(xg.begin(), xg.end(), g) != xg.end()) o += " reaction " + std::to_string(x.reaction) + " emission " + std::to_string(x.emission) + " on thread " + std::to_string(x.fiber);
                }
                violation("group-exceeded", "more tasks of a group execute than its concurrency", t, "group " + gr.desc->name + ": " + std::to_string(gr.running) + " of " + std::to_string(gr.conc) + "; also" + o);
            }
        }
        st.push_back(ti);
        ++n_exec;
        if (s.groups.size() > 1) ++n_multi;
    }
    void on_pool_start(int ti) {
        TaskS& t      = tasks[size_t(ti)];
        const Spec& s = specs[size_t(t.reaction)];
        PoolS& p      = pools[size_t(s.pool)];
        const int fib = t.fiber;
        if (k.o_pool) {
            for (size_t i = 0; i < pools.size(); ++i)
                if (int(i) != s.pool && pools[i].fibers.count(fib)) violation("wrong-pool", "a task ran on a thread of another pool", t, "thread " + std::to_string(fib) + " has run tasks of " + pools[i].desc->name);
            if (s.pool == main_pool && fib != main_fiber) violation("main-thread", "a MainThread task ran on a thread other than the one that called start()", t);
            if (s.pool != main_pool && fib == main_fiber) violation("main-thread", "a task of another pool ran on the main thread", t);
            if (t.depth != 0) violation("nested", "a queued task started while another task executes on the same thread", t);
        }
        p.fibers.insert(fib);
        if (k.o_pool && int(p.fibers.size()) > p.conc) violation("pool-threads", "a pool used more threads than its concurrency", t);
        if (k.o_pool && fib == main_fiber && s.pool != main_pool) violation("main-thread", "a task of another pool ran on the main thread", t);
        if (k.o_prio) check_priority(ti);
        if (k.o_order && p.conc == 1 && s.groups.empty()) {
            for (auto& x : tasks)
                if (x.state == PENDING && x.sub_end && x.sub_end < t.sub_begin && x.emitter == t.emitter && !x.want_inline) {
                    const Spec& xs = specs[size_t(x.reaction)];
                    if (xs.pool == s.pool && xs.prio == s.prio && xs.groups.empty())
                        violation("order", "a task started before one that the same thread submitted earlier to the same single-threaded pool at the same priority", t,
                                  "earlier: reaction " + std::to_string(x.reaction) + " emission " + std::to_string(x.emission));
                }
        }
    }
    void check_priority(int ti) {
        TaskS& t      = tasks[size_t(ti)];
        const Spec& s = specs[size_t(t.reaction)];
        PoolS& p      = pools[size_t(s.pool)];
        // The pool's choice: tasks of a higher level, without groups, that were in the queue for the whole time since this thread became free
        auto lf = last_free.find(t.fiber);
        if (lf != last_free.end()) {
            int higher = 0, example = -1;
            for (size_t i = 0; i < tasks.size(); ++i) {
                auto& x  = tasks[i];
                auto& xs = specs[size_t(x.reaction)];
                if (x.state == PENDING && !x.want_inline && xs.pool == s.pool && xs.groups.empty() && xs.prio > s.prio && x.sub_end && x.sub_end < lf->second) {
                    ++higher;
                    example = int(i);
                }
            }
            int may_have_taken = 0;   // other threads of the pool that are between taking a task and executing it, perhaps
            int busy           = 0;
            for (auto& x : stack) if (x.first != t.fiber && p.fibers.count(x.first) && !x.second.empty()) ++busy;
            may_have_taken = p.conc - 1 - busy;
            if (higher) sim::probe("higher-priority-work-queued");
            if (higher > may_have_taken)
                violation("priority", "a task started on a pool thread while a higher priority task was already waiting in its queue", t,
                          "waiting: reaction " + std::to_string(tasks[size_t(example)].reaction) + " emission " + std::to_string(tasks[size_t(example)].emission) + " priority " + std::to_string(specs[size_t(tasks[size_t(example)].reaction)].prio));
        }
        // The group's choice: tasks that all waited while another task held the group's only place
        if (s.groups.size() == 1) {
            GroupS& g = groups[size_t(s.groups[0])];
            if (g.conc == 1 && g.multi_users == 0) {
                uint64_t holder_start = 0, holder_end = 0;
                for (auto& x : tasks)
                    if (x.state == DONE && specs[size_t(x.reaction)].groups == s.groups && x.end > holder_end) { holder_end = x.end; holder_start = x.start; }
                if (holder_end && holder_start < t.sub_begin && t.sub_end && t.sub_end < holder_end)
                    for (auto& x : tasks) {
                        auto& xs = specs[size_t(x.reaction)];
                        if (x.state == PENDING && xs.groups == s.groups && xs.prio > s.prio && x.sub_begin > holder_start && x.sub_end && x.sub_end < holder_end) {
                            violation("group-priority", "a group's place went to a lower priority waiter", t, "waiting: reaction " + std::to_string(x.reaction) + " emission " + std::to_string(x.emission));
                        }
                        if (x.state == PENDING && &x != &t && xs.groups == s.groups && x.sub_begin > holder_start && x.sub_end && x.sub_end < holder_end) sim::probe("group-choice");
                    }
            }
        }
    }
    void end(int ti) {
        TaskS& t      = tasks[size_t(ti)];
        const Spec& s = specs[size_t(t.reaction)];
        for (int g : s.groups) --groups[size_t(g)].running;
        auto& st = stack[t.fiber];
        if (!st.empty()) st.pop_back();
        t.state = DONE;
        t.end   = sim::seq();
        if (st.empty()) last_free[t.fiber] = t.end;
    }

    template <int I>
    void run(int idx, const Msg<I>& m) {
        int ti = -1, nact = 0, depth = 0;
        bool thr = false, hold = false;
        {
            sim::Quiet q;
            if (m.canary != 0xC0FFEE0000000000ULL + uint64_t(m.eid) || m.eid < 0 || m.eid >= int(emits.size()))
                sim::fail("corrupt", "reaction %d received a message that was never emitted (emission %d)", idx, m.eid);
            auto it = task_of.find({m.eid, idx});
            if (it == task_of.end()) sim::fail("cross-delivery", "reaction %d was executed for emission %d of another type", idx, m.eid);
            ti = it->second;
            if (tasks[size_t(ti)].state != PENDING && !k.o_exact) return;
            begin(ti);
            depth = emits[size_t(m.eid)].depth;
            nact  = int(sim::choose(3));
            thr   = specs[size_t(idx)].throws && sim::chance(1, 2);
            hold  = !no_more_holds && !in_startup && sim::chance(k.p_hold, 1000);
        }
        for (int a = 0; a < nact; ++a) {
            bool child, slp;
            {
                sim::Quiet q;
                child = depth < 4 && sim::chance(k.p_child, 1000);
                slp   = sim::chance(k.p_sleep, 1000);
            }
            if (child) emit_any(depth + 1);
            else if (slp) sim::sleep_ns(int64_t(sim::pick_log(100, 200000)));
            else sim::yield();
        }
        if (hold) gate(ti);
        {
            sim::Quiet q;
            end(ti);
            if (thr) ++n_throw;
        }
        if (thr) {
            if (ti % 3 == 0) throw std::runtime_error("callback failure");
            if (ti % 3 == 1) throw 42;
            throw std::string("not even a std::exception");
        }
    }
    void gate(int ti) {
        std::unique_lock<std::mutex> l(gm);
        { sim::Quiet q; held.insert(ti); ++n_hold; }
        gcv.wait(l, [&] { sim::Quiet q; return released.count(ti) != 0; });
        { sim::Quiet q; held.erase(ti); }
    }
    void release(int ti) {
        { std::lock_guard<std::mutex> l(gm); sim::Quiet q; released.insert(ti); }
        gcv.notify_all();
    }

    // At a quiescent moment (nothing can run): every waiting task must really have to wait.
    void check_progress() {
        std::vector<int> busy(pools.size(), 0);
        for (size_t p = 0; p < pools.size(); ++p) {
            std::set<int> f;
            for (auto& x : stack)
                if (!x.second.empty() && (pools[p].fibers.count(x.first) || (int(p) == main_pool && x.first == main_fiber))) f.insert(x.first);
            busy[p] = int(f.size());
        }
        for (auto& t : tasks) {
            if (t.state != PENDING || !t.sub_end) continue;
            const Spec& s = specs[size_t(t.reaction)];
            if (busy[size_t(s.pool)] >= pools[size_t(s.pool)].conc) continue;
            bool free = true;
            for (int g : s.groups) {
                int places = groups[size_t(g)].running;
                // tasks that wait for a thread of their (busy) pool may already hold a place
                for (auto& x : tasks)
                    if (x.state == PENDING && busy[size_t(specs[size_t(x.reaction)].pool)] >= pools[size_t(specs[size_t(x.reaction)].pool)].conc) {
                        auto& xg = specs[size_t(x.reaction)].groups;
                        if (xg.size() == 1 && xg[0] == g) ++places;
                    }
                if (places >= groups[size_t(g)].conc) free = false;
                // a waiting task of several groups may have the place reserved
                for (auto& x : tasks)
                    if (&x != &t && x.state == PENDING && specs[size_t(x.reaction)].groups.size() > 1) {
                        auto& xg = specs[size_t(x.reaction)].groups;
                        if (std::find(xg.begin(), xg.end(), g) != xg.end()) free = false;
                    }
            }
            if (free) {
                std::string h;
                for (int x : held) h += " (reaction " + std::to_string(tasks[size_t(x)].reaction) + " emission " + std::to_string(tasks[size_t(x)].emission) + " on thread " + std::to_string(tasks[size_t(x)].fiber) + ")";
                std::string w;
                for (auto& x : tasks) if (x.state == PENDING) w += " (reaction " + std::to_string(x.reaction) + " emission " + std::to_string(x.emission) + ")";
                violation("stuck", "nothing is running, the pool has a free thread and the task's groups have free places, yet the task waits", t,
                          "executing and holding:" + (h.empty() ? std::string(" none") : h) + "; waiting:" + w);
            }
        }
    }
    void check_done() {
        for (auto& t : tasks)
            if (t.state != DONE) {
                if (t.state == RUNNING) violation("unfinished", "a task never finished", t);
                violation("lost", "an emitted message did not execute a reaction bound to its type", t);
            }
    }

    // Drive to the end: at each quiescent moment check, then release something.
    void drive() {
        for (;;) {
            sim::wait_quiescent();
            int rel = -1;
            {
                sim::Quiet q;
                if (k.o_progress) check_progress();
                if (held.empty()) break;
                auto it = held.begin();
                std::advance(it, long(sim::choose(held.size())));
                rel = *it;
                if (emits.size() > size_t(k.max_emits) * 2) no_more_holds = true;
            }
            release(rel);
        }
        sim::Quiet q;
        if (k.o_exact || k.o_progress) check_done();
    }

    void finish_sample() {
        sim::Quiet q;
        std::string s;
        for (auto& p : pools) s += p.desc->name + ":" + std::to_string(p.conc) + " ";
        s += "|";
        for (auto& x : specs) {
            s += " r" + std::to_string(x.id) + "(m" + std::to_string(x.type) + " " + pools[size_t(x.pool)].desc->name + " p" + std::to_string(x.prio);
            for (int g : x.groups) s += " " + groups[size_t(g)].desc->name + "/" + std::to_string(groups[size_t(g)].conc);
            if (x.inl) s += x.inl == 1 ? " ALWAYS" : " NEVER";
            if (x.throws) s += " throws";
            s += ")";
        }
        sim::sample("%s | %zu emits, %zu tasks, %lu inline, %lu held, %lu threw", s.c_str(), emits.size(), tasks.size(), (unsigned long)n_inline, (unsigned long)n_hold, (unsigned long)n_throw);
        if (n_inline) sim::probe("inline-run");
        if (n_throw) sim::probe("callback-threw");
        if (n_hold) sim::probe("callback-held");
        if (n_multi) sim::probe("multi-group-run");
    }
};

template <typename DSL>
void Dyn::bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& idx) {
    sim::Quiet q;
    W->by_reaction[r->id] = idx;
}
static const Spec& spec_of(const ReactionTask& t) { return W->specs[size_t(W->by_reaction.at(t.parent->id))]; }
template <typename DSL>
std::shared_ptr<const ThreadPoolDescriptor> Dyn::pool(const ReactionTask& t) {
    int p;
    { sim::Quiet q; p = spec_of(t).pool; }
    return W->pools[size_t(p)].desc;
}
template <typename DSL>
std::set<std::shared_ptr<const GroupDescriptor>> Dyn::group(const ReactionTask& t) {
    const std::vector<int>* g;
    { sim::Quiet q; g = &spec_of(t).groups; }
    std::set<std::shared_ptr<const GroupDescriptor>> r;
    for (int x : *g) r.insert(W->groups[size_t(x)].desc);
    return r;
}
template <typename DSL>
int Dyn::priority(const ReactionTask& t) { sim::Quiet q; return spec_of(t).prio; }
template <typename DSL>
NUClear::util::Inline Dyn::run_inline(const ReactionTask& t) {
    sim::Quiet q;
    const int i = spec_of(t).inl;
    return i == 0 ? NUClear::util::Inline::NEUTRAL : i == 1 ? NUClear::util::Inline::ALWAYS : NUClear::util::Inline::NEVER;
}

class WReactor : public NUClear::Reactor {
public:
    template <int I>
    void bind_one(int idx) {
        auto f = [idx](const Msg<I>& m) { W->run<I>(idx, m); };
        Spec& s = W->specs[size_t(idx)];
        int variant = 0;
        { sim::Quiet q; if (sim::chance(W->k.p_static, 1000)) variant = int(sim::range(1, 9)); }
        auto set = [&](const std::shared_ptr<const ThreadPoolDescriptor>& p, std::vector<std::shared_ptr<const GroupDescriptor>> g, int prio, int inl) {
            s.pool = W->static_pool(p);
            s.groups.clear();
            for (auto& x : g) s.groups.push_back(W->static_group(x));
            std::sort(s.groups.begin(), s.groups.end());
            s.prio = prio;
            s.inl  = inl;
        };
        const bool groups_ok = W->k.p_group != 0, inl_ok = W->k.p_inline_word != 0;
        if (!groups_ok && (variant == 2 || variant == 3 || variant == 5 || variant == 9)) variant = 1;
        if (!inl_ok && (variant == 6 || variant == 7)) variant = 1;
        auto def = word::Pool<>::descriptor();
        switch (variant) {
            case 1: set(word::Pool<SP0>::descriptor(), {}, 750, 0); on<word::Trigger<Msg<I>>, word::Pool<SP0>, Priority::HIGH>().then(std::move(f)); break;
            case 2: set(def, {word::Sync<SG0>::descriptor()}, 500, 0); on<word::Trigger<Msg<I>>, word::Sync<SG0>>().then(std::move(f)); break;
            case 3: set(word::Pool<SP1>::descriptor(), {word::Group<SG2>::descriptor()}, 500, 0); on<word::Trigger<Msg<I>>, word::Group<SG2>, word::Pool<SP1>>().then(std::move(f)); break;
            case 4: set(word::MainThread::descriptor(), {}, 250, 0); on<word::Trigger<Msg<I>>, word::MainThread, Priority::LOW>().then(std::move(f)); break;
            case 5: set(def, {word::Sync<SG0>::descriptor(), word::Sync<SG1>::descriptor()}, 500, 0); on<word::Trigger<Msg<I>>, word::Sync<SG0>, word::Sync<SG1>>().then(std::move(f)); break;
            case 6: set(def, {}, 500, 1); on<word::Trigger<Msg<I>>, word::Inline::ALWAYS>().then(std::move(f)); break;
            case 7: set(def, {}, 1000, 2); on<word::Trigger<Msg<I>>, word::Inline::NEVER, Priority::REALTIME>().then(std::move(f)); break;
            case 8: set(def, {}, 0, 0); on<word::Trigger<Msg<I>>, Priority::IDLE>().then(std::move(f)); break;
            case 9: set(word::Pool<SP0>::descriptor(), {word::Sync<SG1>::descriptor()}, 500, 0); on<word::Trigger<Msg<I>>, word::Sync<SG1>, word::Pool<SP0>>().then(std::move(f)); break;
            default: on<word::Trigger<Msg<I>>, Dyn>(idx).then(std::move(f)); break;
        }
        for (int g : s.groups) if (s.groups.size() > 1) ++W->groups[size_t(g)].multi_users;
        s.bind_order = idx;
    }
    explicit WReactor(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        for (auto& s : W->specs) {
            switch (s.type) {
                case 0: bind_one<0>(s.id); break;
                case 1: bind_one<1>(s.id); break;
                default: bind_one<2>(s.id); break;
            }
        }
        on<Startup>().then([] {
            int n;
            { sim::Quiet q; n = int(sim::range(1, uint64_t(W->k.burst) + 1)); W->in_startup = true; }
            for (int i = 0; i < n; ++i) W->emit_any(0);
            W->in_startup = false;
        });
    }
};

// Build, run to quiescence with the oracles, shut down.
inline void run_world(const Knobs& k, void (*after)(World&) = nullptr) {
    World* w;
    {
        sim::Quiet q;
        w = new World();
        W = w;
        w->generate(k);
    }
    NUClear::Configuration c;
    c.default_pool_concurrency = w->default_conc;
    {
        NUClear::PowerPlant plant(c);
        w->plant      = &plant;
        w->main_fiber = sim::self();
        plant.install<WReactor>();
        int next = 0;
        { sim::Quiet q; next = int(sim::choose(uint64_t(k.max_external) + 1)); }
        std::vector<std::thread> ext;
        std::thread driver([&] {
            // users' own threads, emitting while the system runs
            sim::wait_quiescent(int64_t(sim::pick_log(1000, 300000)));
            for (int i = 0; i < next; ++i)
                ext.emplace_back([w] {
                    int n;
                    { sim::Quiet q; n = int(sim::range(1, uint64_t(w->k.burst) * 2)); }
                    for (int j = 0; j < n; ++j) w->emit_any(0);
                });
            w->drive();
            for (auto& t : ext) t.join();
            w->drive();
            { sim::Quiet q; w->closed = true; }
            plant.shutdown();
        });
        plant.start();
        driver.join();
        if (after) after(*w);
        w->finish_sample();
    }
    sim::Quiet q;
    if (w->n_exec >= 3) sim::nontrivial();
}

}  // namespace world
#endif
