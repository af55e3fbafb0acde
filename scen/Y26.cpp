// What the system reports about its tasks, compared with what happened to them.
#include <algorithm>
#include <map>
#include <memory>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "Y26";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::message::LogMessage;
using NUClear::message::ReactionEvent;
using NUClear::message::ReactionStatistics;
using NUClear::threading::ReactionTask;
using NUClear::util::ThreadPoolDescriptor;
constexpr uint64_t US = 1000, MS = 1000000;
struct PO { static constexpr const char* name = "PO"; static constexpr int concurrency = 1; };
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 2; };
struct SG {};
struct SH {};
struct Msg { int left; };
struct Msg2 { int left; };
struct Echo { int v; };
struct Need { int v; };
enum { PLAIN, SINGLE, BUF, ONCE, WITH, SYNC, SYNC2, MAIN, ONPA, INL, LOGGED, STARTUP, SHUTDOWN, IDLE, ECHO, NKIND };
static const char* const NAME[NKIND] = {"plain", "single", "buffer", "once", "with", "sync", "two groups", "main", "PA", "inline", "log handler", "startup", "shutdown", "idle", "echo"};
enum { CREATED, MISSING, BLOCKED, STARTED, FINISHED };
struct Task {
    int kind;
    uint64_t reaction, cause_task, cause_reaction;
    bool reported;                     // whether there should be reports
    int made_by;                       // thread
    int64_t made_at;
    bool inl;
    std::shared_ptr<const ThreadPoolDescriptor> pool;
    bool began = false, ended = false, threw = false, could_block = false, need_before = false, need_after = false;
    int ran_by = -1;
    int64_t began_at = 0, ended_at = 0;
    int seen[5] = {}, late[5] = {}, last = -1, summary = 0;
};
struct Frame { uint64_t task, reaction; bool reported; };
struct World {
    std::map<uint64_t, Task> task;
    std::map<NUClear::id_t, int> kind;
    std::map<int, std::vector<Frame>> stack;      // what really runs on each thread
    std::map<int, std::shared_ptr<const ThreadPoolDescriptor>> pool;
    std::set<int> outside;
    std::map<std::thread::id, int> fiber;
    int main_fiber = -1;
    int p_throw = 0, p_echo = 0, p_log = 0;
    bool need_begun = false, need_done = false, down = false;
    uint64_t events = 0, late_events = 0, summaries = 0, n_blocked = 0, n_missing = 0, n_threw = 0, n_caused = 0, n_silent = 0, n_inline = 0, finished = 0, echoes = 0, n_chain = 0;
};
World* W;
Frame top() {
    auto& s = W->stack[sim::self()];
    return s.empty() ? Frame{0, 0, true} : s.back();
}
struct Push {
    explicit Push(const Frame& f) { sim::Quiet q; W->stack[sim::self()].push_back(f); }
    ~Push() { sim::Quiet q; W->stack[sim::self()].pop_back(); }
    Push(const Push&) = delete;
    Push& operator=(const Push&) = delete;
};
struct Mark {
    template <typename DSL> static void bind(const std::shared_ptr<NUClear::threading::Reaction>& r, const int& kind) { sim::Quiet q; W->kind[r->id] = kind; }
    template <typename DSL> static bool precondition(ReactionTask& t) {
        sim::Quiet q;
        const Frame f = top();
        Task n{};
        n.kind = W->kind.at(t.parent->id);
        n.reaction = t.parent->id;
        n.cause_task = f.task; n.cause_reaction = f.reaction;
        n.reported = f.reported;
        n.made_by = sim::self();
        n.made_at = sim::now_ns();
        n.inl = t.run_inline;
        n.pool = t.pool_descriptor;
        n.need_before = W->need_done;
        if (W->task.count(t.id)) sim::fail("identity", "two tasks have the id %lu", (unsigned long)t.id);
        if (f.task) ++W->n_caused;
        if (!f.reported) ++W->n_silent;
        W->task[t.id] = n;
        return true;
    }
    struct Scope {
        uint64_t id;
        explicit Scope(ReactionTask& t) : id(t.id) {
            sim::Quiet q;
            Task& k = W->task.at(id);
            if (k.began) sim::fail("twice", "a task of '%s' ran twice", NAME[k.kind]);
            k.began = true;
            k.began_at = sim::now_ns();
            k.ran_by = sim::self();
            if (k.reported && k.seen[STARTED] != 1) sim::fail("started", "a task of '%s' runs but its start was reported %d times", NAME[k.kind], k.seen[STARTED]);
            if (!t.run_inline) {
                auto& p = W->pool[sim::self()];
                if (p && p != t.pool_descriptor) sim::fail("pool", "a task of '%s' ran on a thread of %s", NAME[k.kind], p->name.c_str());
                p = t.pool_descriptor;
            }
            W->stack[sim::self()].push_back(Frame{id, k.reaction, k.reported});
        }
        Scope(Scope&& o) noexcept : id(o.id) { o.id = 0; }
        Scope(const Scope&) = delete;
        Scope& operator=(const Scope&) = delete;
        Scope& operator=(Scope&&) = delete;
        ~Scope() {
            if (id == 0) return;
            sim::Quiet q;
            Task& k = W->task.at(id);
            k.ended = true;
            k.ended_at = sim::now_ns();
            W->stack[sim::self()].pop_back();
        }
    };
    template <typename DSL> static Scope scope(ReactionTask& t) { return Scope(t); }
};
int what(const ReactionEvent::Event& e) {
    switch (e) {
        case ReactionEvent::CREATED: return CREATED;
        case ReactionEvent::MISSING_DATA: return MISSING;
        case ReactionEvent::BLOCKED: return BLOCKED;
        case ReactionEvent::STARTED: return STARTED;
        default: return FINISHED;
    }
}
static const char* const EV[5] = {"CREATED", "MISSING_DATA", "BLOCKED", "STARTED", "FINISHED"};
Task& find(const ReactionStatistics& s, bool* mine) {
    static Task none;
    *mine = false;
    auto it = W->task.find(s.target.task_id);
    if (it == W->task.end()) {
        if (W->kind.count(s.target.reaction_id)) sim::fail("identity", "there was a report on a task that doesn't exist");
        return none;                       // not one of ours
    }
    *mine = true;
    Task& k = it->second;
    if (!k.reported) sim::fail("loop", "there was a report on a task of '%s' that was caused by reporting", NAME[k.kind]);
    if (s.target.reaction_id != k.reaction) sim::fail("identity", "the report on a task of '%s' names another reaction", NAME[k.kind]);
    // Idle reactions are triggered by a task that belongs to no reaction
    if (k.kind == IDLE && k.cause_task == 0 && s.cause.reaction_id == 0 && s.cause.task_id != 0 && !W->task.count(s.cause.task_id)) {}
    else if (s.cause.task_id != k.cause_task || s.cause.reaction_id != k.cause_reaction)
        sim::fail("cause", "a task of '%s' was caused by task %lu but the report says %lu", NAME[k.kind], (unsigned long)k.cause_task, (unsigned long)s.cause.task_id);
    if (!s.identifiers || s.identifiers->name != NAME[k.kind]) sim::fail("identity", "the report on a task of '%s' has another name", NAME[k.kind]);
    if (s.target_pool != k.pool) sim::fail("pool", "the report on a task of '%s' names another target pool", NAME[k.kind]);
    const size_t ng = k.kind == SYNC ? 1 : k.kind == SYNC2 ? 2 : 0;
    if (s.target_groups.size() != ng) sim::fail("groups", "the report on a task of '%s' names %zu groups", NAME[k.kind], s.target_groups.size());
    return k;
}
void check(const ReactionStatistics::Event& e, int fiber, int64_t lo, int64_t hi, int kind, const char* name) {
    const int64_t t = std::chrono::duration_cast<std::chrono::nanoseconds>(e.real_time.time_since_epoch()).count();
    if (t < lo || t > hi) sim::fail("time", "the %s time of a task of '%s' is %ld ns %s when that happened", name, NAME[kind], long(t < lo ? lo - t : t - hi), t < lo ? "before" : "after");
    auto f = W->fiber.find(e.thread.thread_id);
    const int was = f == W->fiber.end() ? -1 : f->second;
    if (was != fiber) sim::fail("thread", "the %s event of a task of '%s' names another thread than that it happened on", name, NAME[kind]);
    auto p = W->pool.find(fiber);
    if (W->outside.count(fiber)) { if (e.thread.pool) sim::fail("pool", "the %s event of a task of '%s' on a thread that belongs to no pool names %s", name, NAME[kind], e.thread.pool->name.c_str()); }
    else if (p != W->pool.end() && p->second && p->second != e.thread.pool) sim::fail("pool", "the %s event of a task of '%s' on a thread of %s names %s", name, NAME[kind], p->second->name.c_str(), e.thread.pool ? e.thread.pool->name.c_str() : "none");
    else if (!e.thread.pool) sim::fail("pool", "the %s event of a task of '%s' on a thread of a pool names none", name, NAME[kind]);
}
int value(const std::exception_ptr& p) {
    try { std::rethrow_exception(p); }
    catch (int v) { return v; }
    catch (...) { return -1; }
}
void body(int kind, int left);
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e, unsigned mask, bool echo_here, bool echo_there) : Reactor(std::move(e)) {
        // The first: sees everything as it happens
        on<Trigger<ReactionEvent>, Inline::ALWAYS>().then("observer", [this, echo_here](const ReactionEvent& ev) {
            int v = -1;
            {
                sim::Quiet q;
                W->fiber[std::this_thread::get_id()] = sim::self();
                const int w = what(ev.type);
                bool mine;
                Task& k = find(*ev.statistics, &mine);
                if (!mine) return;
                ++W->events;
                const ReactionStatistics& s = *ev.statistics;
                const int64_t now = sim::now_ns();
                ++k.seen[w];
                const auto prev = k.last;
                k.last = w;
                if (k.seen[w] > 1) sim::fail("repeated", "%s was reported twice for a task of '%s'", EV[w], NAME[k.kind]);
                const bool first = w == CREATED || w == MISSING || w == BLOCKED;
                if (first ? prev != -1 : w == STARTED ? prev != CREATED : prev != STARTED)
                    sim::fail("order", "%s was reported after %s for a task of '%s'", EV[w], prev < 0 ? "nothing" : EV[prev], NAME[k.kind]);
                if (first) {
                    if (sim::self() != k.made_by) sim::fail("thread", "the making of a task of '%s' was reported by another thread", NAME[k.kind]);
                    // made_at was taken just after the time of the event
                    check(s.created, k.made_by, 0, k.made_at, k.kind, "created");
                    if (k.made_at - std::chrono::duration_cast<std::chrono::nanoseconds>(s.created.real_time.time_since_epoch()).count() > int64_t(30 * MS)) sim::fail("time", "the created time of a task of '%s' is long before that happened", NAME[k.kind]);
                }
                if (w == STARTED) {
                    if (k.began) sim::fail("order", "STARTED was reported after a task of '%s' began", NAME[k.kind]);
                    check(s.started, sim::self(), k.made_at, now, k.kind, "started");
                }
                if (w == FINISHED) {
                    if (!k.ended) sim::fail("order", "FINISHED was reported before a task of '%s' ended", NAME[k.kind]);
                    if (sim::self() != k.ran_by) sim::fail("thread", "a task of '%s' was reported as finished by another thread", NAME[k.kind]);
                    check(s.started, k.ran_by, k.made_at, k.began_at, k.kind, "started");
                    check(s.finished, k.ran_by, k.ended_at, now, k.kind, "finished");
                    if (s.finished.nuclear_time < s.started.nuclear_time || s.started.nuclear_time < s.created.nuclear_time) sim::fail("time", "the NUClear times of a task of '%s' are not in order", NAME[k.kind]);
                    if (s.finished.thread_time < s.started.thread_time) sim::fail("time", "the CPU times of a task of '%s' are not in order", NAME[k.kind]);
                    ++W->finished;
                }
                if (w == BLOCKED) {
                    ++W->n_blocked;
                    if (k.kind != IDLE && k.kind != SINGLE && k.kind != BUF && k.kind != ONCE) sim::fail("blocked", "a task of '%s' was reported as blocked", NAME[k.kind]);
                }
                if (w == MISSING) {
                    ++W->n_missing;
                    if (k.kind != WITH || k.need_before) sim::fail("missing", "data was reported as missing for a task of '%s' that had it", NAME[k.kind]);
                }
                if (w == CREATED && k.kind == WITH && !W->need_begun) sim::fail("missing", "a task of 'with' has data that doesn't exist");
                if (echo_here && sim::chance(1, 4)) v = int(sim::range(1, 3));
            }
            if (w_finished(ev) && ev.statistics->exception) {
                const int x = value(ev.statistics->exception);
                sim::Quiet q;
                Task& k = W->task.at(ev.statistics->target.task_id);
                if (!k.threw) sim::fail("exception", "an exception was reported for a task of '%s' that threw none", NAME[k.kind]);
                if (x != int(ev.statistics->target.task_id)) sim::fail("exception", "another exception was reported for a task of '%s' than that it threw", NAME[k.kind]);
            }
            else if (w_finished(ev)) {
                sim::Quiet q;
                Task& k = W->task.at(ev.statistics->target.task_id);
                if (k.threw) sim::fail("exception", "the exception of a task of '%s' was not reported", NAME[k.kind]);
            }
            if (v > 0) {
                Push p(Frame{0, 0, false});
                emit(std::make_unique<Echo>(Echo{v}));
            }
        });
        // The second: sees everything in order, later
        on<Trigger<ReactionEvent>, Pool<PO>>().then("late observer", [this, echo_there](const ReactionEvent& ev) {
            bool echo = false;
            {
                sim::Quiet q;
                bool mine;
                const int w = what(ev.type);
                Task& k = find(*ev.statistics, &mine);
                if (!mine) return;
                ++W->late_events;
                if (++k.late[w] > 1) sim::fail("repeated", "%s was delivered twice for a task of '%s'", EV[w], NAME[k.kind]);
                if (k.seen[w] == 0) sim::fail("order", "%s was delivered to one observer only", EV[w]);
                if ((w == STARTED && !k.late[CREATED]) || (w == FINISHED && !k.late[STARTED])) sim::fail("order", "%s was delivered before what preceded it for a task of '%s'", EV[w], NAME[k.kind]);
                echo = echo_there && sim::chance(1, 4);
            }
            if (echo) {
                Push p(Frame{0, 0, false});
                int far;
                { sim::Quiet q; far = int(sim::range(1, 3)); }
                emit<Scope::INLINE>(std::make_unique<Echo>(Echo{far}));
            }
        });
        on<Trigger<ReactionStatistics>, Pool<PO>>().then("summary", [](const ReactionStatistics& s) {
            sim::Quiet q;
            bool mine;
            Task& k = find(s, &mine);
            if (!mine) return;
            ++W->summaries;
            if (!k.seen[FINISHED] || !k.ended) sim::fail("order", "a task of '%s' was summarised before it finished", NAME[k.kind]);
            if (++k.summary > 1) sim::fail("repeated", "a task of '%s' was summarised twice", NAME[k.kind]);
            if (bool(s.exception) != k.threw) sim::fail("exception", "the summary of a task of '%s' is wrong about its exception", NAME[k.kind]);
        });
        if (mask & 1) on<Mark, Trigger<Msg>>(PLAIN).then(NAME[PLAIN], [](const Msg& m) { body(PLAIN, m.left); });
        if (mask & 2) on<Mark, Trigger<Msg>, Single>(SINGLE).then(NAME[SINGLE], [](const Msg& m) { body(SINGLE, m.left); });
        if (mask & 4) on<Mark, Trigger<Msg>, Buffer<2>>(BUF).then(NAME[BUF], [](const Msg& m) { body(BUF, m.left); });
        if (mask & 8) on<Mark, Trigger<Msg2>, Once>(ONCE).then(NAME[ONCE], [](const Msg2& m) { body(ONCE, m.left); });
        if (mask & 16) on<Mark, Trigger<Msg>, With<Need>>(WITH).then(NAME[WITH], [](const Msg& m, const Need&) { body(WITH, m.left); });
        if (mask & 32) on<Mark, Trigger<Msg2>, Sync<SG>>(SYNC).then(NAME[SYNC], [](const Msg2& m) { body(SYNC, m.left); });
        if (mask & 64) on<Mark, Trigger<Msg2>, Sync<SG>, Sync<SH>, Pool<PB>>(SYNC2).then(NAME[SYNC2], [](const Msg2& m) { body(SYNC2, m.left); });
        if (mask & 128) on<Mark, Trigger<Msg>, MainThread>(MAIN).then(NAME[MAIN], [](const Msg& m) { body(MAIN, m.left); });
        if (mask & 256) on<Mark, Trigger<Msg2>, Pool<PA>>(ONPA).then(NAME[ONPA], [](const Msg2& m) { body(ONPA, m.left); });
        if (mask & 512) on<Mark, Trigger<Msg>, Inline::ALWAYS>(INL).then(NAME[INL], [](const Msg& m) { body(INL, m.left); });
        if (mask & 1024) on<Mark, Trigger<LogMessage>, Inline::ALWAYS>(LOGGED).then(NAME[LOGGED], [](const LogMessage& m) {
            sim::Quiet q;
            auto& s = W->stack[sim::self()];
            const Frame f = s.size() >= 2 ? s[s.size() - 2] : Frame{0, 0, true};   // ours is the last one
            const bool has = m.statistics != nullptr;
            if (has != (f.task != 0 && f.reported)) sim::fail("log", "a log message that came from %s task has %s", f.task ? "a" : "no", has ? "one" : "none");
            if (has && m.statistics->target.task_id != f.task) sim::fail("log", "a log message has another task than that it came from");
        });
        if (mask & 2048) on<Mark, Startup>(STARTUP).then(NAME[STARTUP], [] { body(STARTUP, 1); });
        if (mask & 4096) on<Mark, Shutdown>(SHUTDOWN).then(NAME[SHUTDOWN], [] { body(SHUTDOWN, 1); });
        if (mask & 8192) on<Mark, Idle<Pool<PB>>, Pool<PA>, Single>(IDLE).then(NAME[IDLE], [] { body(IDLE, 0); });
        on<Mark, Trigger<Echo>>(ECHO).then(NAME[ECHO], [this](const Echo& e) {
            { sim::Quiet q; ++W->echoes; W->n_chain += e.v == 1; }
            // What it causes is caused by reporting as well
            if (e.v > 1) emit(std::make_unique<Echo>(Echo{e.v - 1}));
        });
    }
    static bool w_finished(const ReactionEvent& e) { return what(e.type) == FINISHED; }
    void send(int left) {
        int how;
        { sim::Quiet q; how = int(sim::choose(5)); }
        switch (how) {
            case 0: emit(std::make_unique<Msg>(Msg{left})); break;
            case 1: emit(std::make_unique<Msg2>(Msg2{left})); break;
            case 2: emit<Scope::INLINE>(std::make_unique<Msg>(Msg{left})); break;
            case 3: emit<Scope::INLINE>(std::make_unique<Msg2>(Msg2{left})); break;
            default: emit(std::make_unique<Echo>(Echo{0})); break;
        }
    }
    void need() {
        { sim::Quiet q; W->need_begun = true; }
        emit(std::make_unique<Need>(Need{1}));
        { sim::Quiet q; W->need_done = true; }
    }
    void say() { log<LogLevel::ERROR>("said"); }
    using LogLevel = NUClear::LogLevel;
};
R* reactor;
void body(int kind, int left) {
    int nap = 0, n = 0;
    bool thr, say, need;
    uint64_t id;
    {
        sim::Quiet q;
        id = W->stack[sim::self()].back().task;
        thr = sim::chance(unsigned(W->p_throw), 8);
        say = sim::chance(unsigned(W->p_log), 8);
        need = sim::chance(1, 30);
        n = left > 0 ? int(sim::choose(3)) : 0;
        if (sim::chance(1, 2)) nap = int(sim::pick_log(100, 40 * US));
    }
    (void)kind;
    if (need) reactor->need();
    for (int i = 0; i < n; ++i) reactor->send(left - 1);
    if (nap) sim::sleep_ns(nap);
    if (say) reactor->say();
    if (n && nap) reactor->send(0);
    if (thr) {
        { sim::Quiet q; W->task.at(id).threw = true; ++W->n_threw; }
        throw int(id);
    }
}
}  // namespace
void scenario() {
    World world;
    int conc, nt, per;
    unsigned mask;
    bool eh, et;
    {
        sim::Quiet q;
        W    = &world;
        conc = int(sim::range(1, 3));
        nt   = int(sim::range(1, 3));
        per  = int(sim::range(1, 5));
        mask = unsigned(sim::choose(1u << 14)) | unsigned(sim::choose(1u << 14));
        eh   = sim::chance(1, 3);
        et   = sim::chance(1, 3);
        W->p_throw = sim::chance(1, 2) ? int(sim::choose(5)) : 0;
        W->p_log   = sim::chance(1, 2) ? int(sim::choose(5)) : 0;
        W->main_fiber = sim::self();
        W->fiber[std::this_thread::get_id()] = sim::self();
        W->pool[sim::self()] = word::MainThread::descriptor();
        sim::set_spurious(1, 30);
    }
    sim::set_budget(2000000);
    uint64_t until = 0;
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        reactor = &plant.install<R>(mask, eh, et);
        int early;
        { sim::Quiet q; early = int(sim::choose(3)); }
        for (int i = 0; i < early; ++i) reactor->send(1);
        std::thread driver([&] {
            {
                sim::Quiet q;
                W->outside.insert(sim::self());
                W->fiber[std::this_thread::get_id()] = sim::self();
            }
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([&] {
                    {
                        sim::Quiet q;
                        W->outside.insert(sim::self());
                        W->fiber[std::this_thread::get_id()] = sim::self();
                    }
                    for (int i = 0; i < per; ++i) {
                        int left, d = 0;
                        bool need, say;
                        { sim::Quiet q; left = int(sim::choose(3)); need = sim::chance(1, 8); say = sim::chance(1, 8); if (sim::chance(1, 2)) d = int(sim::pick_log(100, 100 * US)); }
                        if (need) reactor->need();
                        if (say) reactor->say();
                        reactor->send(left);
                        if (d) sim::sleep_ns(d);
                    }
                });
            for (auto& t : ts) t.join();
            bool early_end;
            { sim::Quiet q; early_end = sim::chance(1, 4); }
            if (!early_end) {
                sim::stop_faults();
                sim::fair_from_now();
                if (!sim::wait_quiescent(int64_t(400 * MS))) { sim::Quiet q; sim::fail("progress", "the system didn't come to rest"); }
                sim::Quiet q;
                until = 1;
                for (auto& e : W->task) {
                    Task& k = e.second;
                    for (int w = 0; w < 5; ++w) if (k.seen[w] != k.late[w]) sim::fail("lost", "%s of a task of '%s' was not delivered", EV[w], NAME[k.kind]);
                    if (k.reported && k.ended && k.summary != 1) sim::fail("lost", "a task of '%s' was not summarised", NAME[k.kind]);
                    if (k.seen[CREATED] && !k.began) sim::fail("lost", "a task of '%s' was created but never started", NAME[k.kind]);
                }
            }
            { sim::Quiet q; W->down = true; }
            plant.shutdown();
        });
        plant.start();
        driver.join();
    }
    sim::Quiet q;
    for (auto& e : W->task) {
        Task& k = e.second;
        if (!k.reported) continue;
        const int made = k.seen[CREATED] + k.seen[MISSING] + k.seen[BLOCKED];
        if (made != 1) sim::fail("lost", "the making of a task of '%s' was reported %d times", NAME[k.kind], made);
        if (k.seen[STARTED] != int(k.began) || k.seen[FINISHED] != int(k.ended)) sim::fail("lost", "a task of '%s' %s but that was reported %d and %d times", NAME[k.kind], k.ended ? "ran" : "didn't run", k.seen[STARTED], k.seen[FINISHED]);
        if (k.began && !k.ended) sim::fail("busy", "a task of '%s' was still executing when the system had ended", NAME[k.kind]);
    }
    if (W->finished >= 4 && W->n_caused) sim::nontrivial();
    if (W->n_blocked) sim::probe("blocked");
    if (W->n_missing) sim::probe("missing-data");
    if (W->n_threw) sim::probe("threw");
    if (W->n_silent) sim::probe("caused-by-reporting");
    if (until) sim::probe("all-delivered");
    sim::sample("%zu tasks, %lu reports, %lu blocked, %lu missing, %lu threw", W->task.size(), (unsigned long)W->events, (unsigned long)W->n_blocked, (unsigned long)W->n_missing, (unsigned long)W->n_threw);
}
