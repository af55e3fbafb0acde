// Every message, task and queue block is accounted for: random systems that are filled, stopped, forced to stop or never started,
// and destroyed, after which the heap must be what it was after the one before. All accesses are checked against the heap.
#include <sys/socket.h>
#include <unistd.h>
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "M21";
namespace {
namespace word = NUClear::dsl::word;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct PB { static constexpr const char* name = "PB"; static constexpr int concurrency = 3; };
struct PC { static constexpr const char* name = "PC"; static constexpr int concurrency = 2; static constexpr bool persistent = true; };
struct SG {}; struct SH {};
struct G2 { static constexpr int concurrency = 2; };
enum St : uint8_t { NONE, ALIVE, GONE };
struct Rec { St st = NONE; int type = 0, users = 0; const void* at = nullptr; };
struct World {
    std::vector<Rec> m;
    int live[4] = {};
    int budget = 0, in = 0;
    bool throws = false, stopped = false, returned = false, dropping = false;
    int stop_at = -1, stop_kind = 0;
    uint64_t n_run = 0, n_disc = 0, n_late = 0, made = 0;
    NUClear::PowerPlant* plant = nullptr;
    int* tokens = new int(0);
};
World* W;
// Owned by a callback: there is one for each copy of it
struct Token {
    Token() { sim::Quiet q; ++*n(); }
    Token(const Token&) { sim::Quiet q; ++*n(); }
    ~Token() { sim::Quiet q; --*n(); }
    static int* n() { return W->tokens; }
};
template <int I> struct Msg {
    int id;
    std::shared_ptr<std::string> payload;
    std::vector<int> numbers;
    explicit Msg(int n) : payload(std::make_shared<std::string>(40, 'x')), numbers(size_t(n % 5 + 1), n) {
        sim::Quiet q;
        id = int(W->m.size());
        Rec r; r.st = ALIVE; r.type = I; r.at = this;
        W->m.push_back(r);
        ++W->live[I]; ++W->made;
    }
    Msg(const Msg&) = delete;
    ~Msg() {
        sim::Quiet q;
        if (id < 0 || id >= int(W->m.size()) || W->m[size_t(id)].at != this) sim::fail("bad-destroy", "something that is not a message was destroyed as one");
        Rec& r = W->m[size_t(id)];
        if (r.st != ALIVE) sim::fail("destroyed-twice", "message %d was destroyed twice", id);
        if (r.users) sim::fail("destroyed-in-use", "message %d was destroyed while %d tasks that received it execute", id, r.users);
        r.st = GONE;
        --W->live[I];
    }
};
template <int I> void use(const Msg<I>& m, int d, const char* where) {
    sim::Quiet q;
    if (m.id < 0 || m.id >= int(W->m.size()) || W->m[size_t(m.id)].at != &m || W->m[size_t(m.id)].st != ALIVE) sim::fail("dead-message", "%s was given a message that does not exist (any more)", where);
    if (m.payload->size() != 40 || m.numbers.empty()) sim::fail("dead-message", "%s: the content of message %d is damaged", where, m.id);
    W->m[size_t(m.id)].users += d;
}
template <int I> void use(const std::shared_ptr<const Msg<I>>& m, int d, const char* where) { if (m) use(*m, d, where); }
template <typename T> void use(const std::list<T>& l, int d, const char* where) { for (auto& x : l) use(x, d, where); }
template <int I> void send(int how);
void send_any() {
    int ty, how;
    { sim::Quiet q; ty = int(sim::choose(3)); how = int(sim::choose(8)); }
    if (ty == 0) send<0>(how); else if (ty == 1) send<1>(how); else send<2>(how);
}
template <int I> void send(int how) {
    int64_t d;
    int n;
    { sim::Quiet q; n = int(W->made % 7); d = int64_t(sim::pick_log(1000, 3000000)); }
    auto m = std::make_unique<Msg<I>>(n);
    if (how == 1 || how == 2) W->plant->emit<word::emit::Inline>(m);
    else if (how == 3) W->plant->emit<word::emit::Delay>(m, NUClear::clock::duration(d));
    else W->plant->emit(m);
}
void request_stop(int kind) {
    { sim::Quiet q; W->stopped = true; }
    if (kind == 2) { W->plant->shutdown(); W->plant->shutdown(true); }
    else W->plant->shutdown(kind == 1);
}
template <typename... D> void body(const char* where, const D&... d) {
    bool thr, nap, stop = false;
    int more;
    {
        sim::Quiet q;
        if (W->returned && !W->dropping) sim::fail("late", "%s was executed after start() had returned", where);
        ++W->in; ++W->n_run;
        (void)std::initializer_list<int>{(use(d, 1, where), 0)...};
        thr  = W->throws && sim::chance(1, 6);
        nap  = sim::chance(1, 4);
        more = W->budget > 0 && sim::chance(1, 3) ? 1 : 0;
        W->budget -= more;
        if (W->stop_at >= 0 && int(W->n_run) == W->stop_at) { stop = true; }
    }
    if (more) send_any();
    if (nap) { int64_t t; { sim::Quiet q; t = int64_t(sim::pick_log(100, 30000)); } sim::sleep_ns(t); }
    if (stop) request_stop(W->stop_kind);
    {
        sim::Quiet q;
        (void)std::initializer_list<int>{(use(d, -1, where), 0)...};
        --W->in;
    }
    if (thr) throw std::runtime_error("callback");
}
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e, uint32_t m, int fd) : Reactor(std::move(e)) {
        using A = Msg<0>; using B = Msg<1>; using C = Msg<2>;
        using SA = std::shared_ptr<const A>; using SB = std::shared_ptr<const B>; using SC = std::shared_ptr<const C>;
        auto has = [m](int b) { return (m >> b) & 1; };
        Token k;
        if (has(0)) on<Trigger<A>>().then([k](const A& a) { body("Trigger", a); });
        if (has(1)) on<Trigger<A>, Pool<PA>, With<B>>().then([k](const A& a, const B& b) { body("Trigger, With", a, b); });
        if (has(2)) on<Trigger<B>, Pool<PB>, Sync<SG>>().then([k](const SB& b) { body("Trigger, Sync", b); });
        if (has(3)) on<Trigger<B>, Sync<SG>, Sync<SH>, Pool<PA>>().then([k](const SB& b) { body("Trigger, Sync, Sync", b); });
        if (has(4)) on<Trigger<A>, Trigger<B>, Group<G2>>().then([k](const SA& a, const SB& b) { body("Trigger, Trigger, Group", a, b); });
        if (has(5)) on<Last<3, Trigger<C>>, Pool<PB>>().then([k](const std::list<SC>& l) { body("Last", l); });
        if (has(6)) on<Trigger<C>, Optional<With<A>>, MainThread>().then([k](const SC& c, const SA& a) { body("Optional", c, a); });
        if (has(7)) on<Trigger<C>, Single, Pool<PC>>().then([k](const C& c) { body("Single, persistent", c); });
        if (has(8)) on<Trigger<A>, Buffer<3>, Inline::ALWAYS>().then([k](const A& a) { body("Inline::ALWAYS", a); });
        if (has(9)) on<Trigger<B>, Inline::NEVER, Group<G2>, Sync<SH>>().then([k](const B& b) { body("Inline::NEVER, Group, Sync", b); });
        if (has(10)) on<Trigger<C>, Once>().then([k](const C& c) { body("Once", c); });
        if (has(11)) on<Every<>, Optional<With<B>>>(std::chrono::milliseconds(1)).then([k](const SB& b) { body("Every", b); });
        if (has(12)) on<Watchdog<SG, 1, std::chrono::milliseconds>, Optional<With<A>>>().then([k](const SA& a) { body("Watchdog", a); });
        if (has(13)) on<Idle<Pool<PA>>, Optional<With<A>>>().then([k](const SA& a) { body("Idle", a); });
        if (has(14)) on<Shutdown, Optional<With<C>>>().then([k](const SC& c) { body("Shutdown", c); });
        if (has(15)) on<IO>(fd, IO::READ).then([k](const IO::Event& ev) { char b[4]; if (::read(ev.fd, b, 4) > 0) body("IO"); });
        if (has(16)) handle = on<Trigger<A>, With<C>, Pool<PB>>().then([k](const A& a, const C& c) { body("unbound one", a, c); });
        if (has(17)) on<Trigger<C>, Priority::LOW, Pool<PC>, Sync<SG>>().then([k](const C& c) { body("LOW, persistent, Sync", c); });
        if (has(18)) on<Startup>().then([k] { send_any(); });
        if (has(19)) on<Trigger<B>, Priority::REALTIME, MainThread, Sync<SH>>().then([k](const B& b) { body("REALTIME, MainThread, Sync", b); });
        if (has(20)) on<Always, Optional<With<B>>>().then([k](const SB& b) { body("Always", b); sim::sleep_ns(150000); });
    }
    ReactionHandle handle = ReactionHandle();
};
template <int I> void clear_store(bool check, const char* when) {
    using Store = NUClear::dsl::store::DataStore<Msg<I>>;
    {
        sim::Quiet q;
        auto last = Store::get();
        const int want = last ? 1 : 0;
        if (check && W->live[I] != want) {
            int ex = -1;
            for (size_t i = 0; i < W->m.size(); ++i) if (W->m[i].st == ALIVE && W->m[i].type == I && W->m[i].at != last.get()) ex = int(i);
            sim::fail("message-leak", "%d messages of a type still exist %s, %d of them is the latest (message %d of %zu is one of the others)", W->live[I], when, want, ex, W->m.size());
        }
    }
    Store::set(nullptr);
    sim::Quiet q;
    if (check && W->live[I] != 0) sim::fail("message-leak", "the latest message of a type was not destroyed when it was taken out of the store");
}
// One system from construction to destruction
struct Shape { uint32_t words; int conc, nt, per, flood, end; bool started, late, unbind; };
enum { GRACEFUL, FORCED, BOTH, FROM_TASK, FROM_TASK_FORCED };
void one(const Shape& s) {
    int fd[2];
    if (::pipe(fd) != 0) sim::fail("setup", "pipe");
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = s.conc;
        NUClear::PowerPlant plant(c);
        W->plant = &plant;
        plant.install<NUClear::extension::ChronoController>();
        plant.install<NUClear::extension::IOController>();
        R& r = plant.install<R>(s.words, fd[0]);
        if (s.started) {
            std::thread driver([&] {
                int64_t d;
                { sim::Quiet q; d = int64_t(sim::pick_log(1000, 300000)); }
                sim::sleep_ns(d);
                std::vector<std::thread> ts;
                for (int t = 0; t < s.nt; ++t)
                    ts.emplace_back([&, t] {
                        for (int i = 0; i < s.per; ++i) {
                            send_any();
                            bool nap;
                            { sim::Quiet q; nap = sim::chance(1, 5); }
                            if (nap) sim::sleep_ns(10000);
                            if (s.unbind && t == 0 && i == s.per / 2) r.handle.unbind();
                            if (i == 2 && ::write(fd[1], "x", 1) != 1) sim::fail("setup", "write");
                        }
                        if (t < s.flood) for (int i = 0; i < 70; ++i) send<1>(0);
                    });
                bool early;
                { sim::Quiet q; early = sim::chance(1, 2); }
                if (!early) for (auto& t : ts) t.join();
                { sim::Quiet q; d = int64_t(sim::pick_log(1000, 2000000)); }
                sim::sleep_ns(d);
                if (s.end >= FROM_TASK) { for (int i = 0; i < 100 && !W->stopped; ++i) sim::sleep_ns(10000); }
                request_stop(s.end == GRACEFUL || s.end == FROM_TASK ? 0 : s.end == BOTH ? 2 : 1);
                if (early) for (auto& t : ts) t.join();
            });
            plant.start();
            { sim::Quiet q; W->returned = true; if (W->in) { /* inline reactions of threads of ours may still execute */ } W->dropping = true; }
            driver.join();
            if (s.late) for (int i = 0; i < 3; ++i) send_any();   // into a system that has ended
        }
        else {
            for (int i = 0; i < s.per; ++i) send_any();
            for (int t = 0; t < s.flood; ++t) for (int i = 0; i < 70; ++i) send<1>(0);
        }
        sim::Quiet q;
        for (int i = 0; i < 3; ++i) W->n_late += uint64_t(W->live[i]);
    }
    W->plant = nullptr;
    ::close(fd[0]);
    ::close(fd[1]);
}
// Internal messages are kept like every latest value: a delayed emission with its message, a configuration with its reaction
void clear_stores(const char* when) {
    NUClear::dsl::store::DataStore<NUClear::dsl::operation::ChronoTask>::set(nullptr);
    NUClear::dsl::store::DataStore<NUClear::message::ReactionEvent>::set(nullptr);
    NUClear::dsl::store::DataStore<NUClear::message::LogMessage>::set(nullptr);
    NUClear::dsl::store::DataStore<NUClear::dsl::word::IOConfiguration>::set(nullptr);
    NUClear::dsl::store::DataStore<NUClear::message::ReactionStatistics>::set(nullptr);
    clear_store<0>(true, when);
    clear_store<1>(true, when);
    clear_store<2>(true, when);
}
void lost(void*, const void* p, size_t size, void* site) {
    sim::fail("leak", "a block of %zu bytes allocated at pc %p still exists once the system is destroyed, and nothing leads to it", size, site);
}
}  // namespace
void scenario() {
    Shape warm{0x1fffff, 1, 1, 12, 1, GRACEFUL, true, true, true}, s{};
    {
        sim::Quiet q;
        W = new World();
        s.words   = uint32_t(sim::choose(1u << 21)) | (1u << sim::choose(8));
        s.conc    = int(sim::range(1, 3));
        s.nt      = int(sim::range(1, 3));
        s.per     = int(sim::range(3, 20));
        s.flood   = sim::chance(1, 5) ? 1 : 0;
        s.end     = int(sim::choose(5));
        s.started = !sim::chance(1, 8);
        s.late    = sim::chance(1, 2);
        s.unbind  = sim::chance(1, 3);
    }
    sim::set_budget(3000000);
    // The first system makes everything that lasts for the process (lists of reactions, the latest values, ...)
    { sim::Quiet q; W->budget = 5; }
    one(warm);
    clear_stores("after the first system was destroyed");
    uint64_t blocks, bytes;
    {
        sim::Quiet q;
        sim::unreachable(lost, nullptr);
        blocks = sim::live_blocks(); bytes = sim::live_bytes();
    }
    {
        sim::Quiet q;
        W->returned = W->stopped = W->dropping = false;
        W->budget   = 25;
        W->throws   = sim::chance(1, 3);
        W->stop_at  = s.end >= FROM_TASK ? int(W->n_run + sim::range(1, 20)) : -1;
        W->stop_kind = s.end == FROM_TASK ? 0 : 1;
    }
    one(s);
    clear_stores("after the system was destroyed");
    sim::Quiet q;
    sim::unreachable(lost, nullptr);
    if (*W->tokens) sim::fail("reaction-leak", "%d reactions still exist once their system is destroyed", *W->tokens);
    // Lists that last for the process may have been moved about, and Always keeps the description of the pool of each of its
    // reactions for good (the TODO in Always.hpp says so); beyond that a system leaves as much as the one before it did
    const int64_t nb = int64_t(sim::live_blocks() - blocks), ny = int64_t(sim::live_bytes() - bytes);
    if (nb > 40 || ny > 8192) sim::fail("growth", "%ld blocks with %ld bytes more than after the system before it exist once the system is destroyed", long(nb), long(ny));
    if (s.flood) sim::probe("flood");
    if (!s.started) sim::probe("never-started");
    if (s.end == FORCED || s.end == FROM_TASK_FORCED) sim::probe("forced");
    if (W->n_late > 3) sim::probe("discarded-by-destruction");
    if (s.end >= FROM_TASK) sim::probe("stopped-by-a-task");
    if (W->n_run >= 5) sim::nontrivial();
    sim::sample("%lu messages, %lu tasks, %s, %s", (unsigned long)W->made, (unsigned long)W->n_run, s.started ? "started" : "never started", s.end == GRACEFUL ? "graceful" : s.end == FORCED ? "forced" : s.end == BOTH ? "graceful then forced" : s.end == FROM_TASK ? "by a task" : "forced by a task");
}
