// Who is on the network: joins and leaves against the truth, with crashes, restarts, reconfigurations, partitions and slow nodes.
#include "net.hpp"
const char* const scenario_property = "N23";
using namespace nw;
namespace {
std::string fresh_name(int i) { return std::string(1, char('a' + i)) + std::to_string(W->n_inst + int(W->peer.size())); }
// What every running node should think of every peer. Returns the number of differences.
int wrong(const char** what, int* a, int* b) {
    int n = 0;
    for (auto& nd : W->node) {
        if (!nd.up) continue;
        for (size_t p = 0; p < W->peer.size(); ++p) {
            const Peer& x = W->peer[p];
            if (x.node == nd.id && x.inst == nd.inst) continue;     // itself
            const bool is = W->link[{nd.inst, int(p)}].member;
            if (is != x.alive) { ++n; *what = is ? "still" : "not"; *a = nd.id; *b = x.node; }
        }
    }
    return n;
}
void late_leavers(int64_t slack) {
    const int64_t now = sim::now_ns();
    for (auto& nd : W->node) {
        if (!nd.up || nd.resetting) continue;
        for (size_t p = 0; p < W->peer.size(); ++p) {
            const Peer& x = W->peer[p];
            auto& l       = W->link[{nd.inst, int(p)}];
            if (x.node == nd.id || x.alive || !l.member) continue;
            const int64_t since = std::max(std::max(x.died, W->heard[{nd.id, int(p)}]), l.joined_at);
            if (now - since > 2600 * MS + slack) sim::fail("left-late", "node %d still lists a peer that is gone, %ld ms after it heard from it the last time", nd.id, long((now - since) / MS));
        }
    }
}
}
void scenario() {
    World w;
    W = &w;
    int nd, steps;
    int64_t slack = 1000 * MS;
    {
        sim::Quiet q;
        w.mode = int(sim::choose(6));
        if (w.mode >= NMODE) w.mode = MCAST4;
        w.n = nd = w.mode == UNICAST ? 2 : int(sim::range(2, 4));
        for (int i = 0; i < nd; ++i) {
            w.node.emplace_back();
            w.node.back().id   = i;
            w.node.back().name = fresh_name(i);
        }
        steps = int(sim::range(1, 8));
        sim::net::Config c;
        if (!sim::chance(1, 4)) {
            c.loss    = unsigned(sim::choose(4) * 100);
            c.dup     = unsigned(sim::choose(3) * 150);
            c.reorder = unsigned(sim::choose(3) * 150);
            if (sim::chance(1, 3)) { c.send_err = 100; c.eintr = 20; }
        }
        w.dup       = c.dup > 0;
        c.min_delay = int64_t(sim::pick_log(5 * US, 20 * MS));
        c.jitter    = int64_t(sim::pick_log(5 * US, 20 * MS));
        sim::net::configure(c);
        sim::net::tap(tap);
        sim::set_budget(8000000);
        if (sim::chance(1, 3)) { const int64_t s = int64_t(sim::pick_log(10 * MS, 4000 * MS)); sim::allow_long_stalls(uint64_t(s)); slack += 3 * s; sim::probe("slow-node"); }
        w.races = sim::chance(1, 4);
        if (w.races) sim::enable_race_detector(); else if (sim::chance(2, 3)) sim::no_preempt_plain();
    }
    for (int i = 0; i < nd; ++i) start(i);
    bool talk;
    { sim::Quiet q; talk = sim::chance(1, 2); }
    bool talking = true;
    std::vector<std::thread> ts;
    if (talk)
        for (int a = 0; a < nd; ++a)
            ts.emplace_back([&, a] {
                for (;;) {
                    std::string target;
                    bool reliable, on;
                    int64_t d;
                    {
                        sim::Quiet q;
                        if (!talking) return;
                        const int t = int(sim::choose(4));
                        target   = t == 0 ? "" : w.node[sim::choose(uint64_t(nd))].name;
                        reliable = sim::chance(1, 2);
                        d  = int64_t(sim::pick_log(20 * MS, 2500 * MS));
                        on = w.node[size_t(a)].up && !w.node[size_t(a)].resetting && !w.node[size_t(a)].reset_wanted;
                    }
                    if (on) {
                        sim::net::set_node(a);
                        const std::lock_guard<std::mutex> lock(w.node[size_t(a)].sending);
                        { sim::Quiet q; on = w.node[size_t(a)].up; }
                        if (on) nw::send(a, target, reliable, 20);
                    }
                    sim::sleep_ns(d);
                }
            });
    for (int s = 0; s < steps; ++s) {
        int what, a, b;
        int64_t d;
        bool graceful, kept;
        {
            sim::Quiet q;
            what = int(sim::choose(6));
            a = int(sim::choose(uint64_t(nd))); b = (a + 1 + int(sim::choose(uint64_t(nd - 1)))) % nd;
            d = int64_t(sim::pick_log(1 * MS, 5000 * MS));
            graceful = sim::chance(1, 2);
            kept = sim::chance(1, 2);
        }
        auto& x = w.node[size_t(a)];
        auto settle = [&] { x.sending.lock(); };
        auto release = [&] { x.sending.unlock(); };
        switch (what) {
            case 0:
            case 1:
                if (x.up) { settle(); stop(a, graceful); release(); if (!graceful) sim::probe("crash"); else sim::probe("shutdown"); }
                else {
                    { sim::Quiet q; if (!kept) x.name = fresh_name(a); }
                    start(a);
                    sim::probe("restart");
                }
                break;
            case 2:
            case 3: sim::net::partition(a, b, sim::chance(2, 3)); break;
            case 4: sim::net::partition_oneway(a, b, sim::chance(2, 3)); break;
            default:
                if (x.up) {
                    settle();
                    { const std::lock_guard<std::mutex> lock(x.ctl); sim::Quiet q; if (!kept) x.name = fresh_name(a); x.reset_wanted = true; }
                    for (;;) { { sim::Quiet q; if (!x.reset_wanted && !x.resetting && x.peer >= 0 && w.peer[size_t(x.peer)].alive) break; } sim::sleep_ns(1 * MS); }
                    sim::sleep_ns(1 * MS);
                    x.ctl.lock(); x.ctl.unlock();
                    release();
                    sim::probe("reconfigured");
                }
                break;
        }
        sim::sleep_ns(d);
        sim::Quiet q;
        late_leavers(slack);
    }
    for (int i = 0; i < nd; ++i) if (!w.node[size_t(i)].up) start(i);
    sim::stop_faults();
    sim::fair_from_now();
    sim::net::heal_all();
    { sim::Quiet q; talking = false; }
    for (auto& t : ts) t.join();
    const char* what = "";
    int a = 0, b = 0;
    sim::sleep_ns(6000 * MS);
    {
        sim::Quiet q;
        if (wrong(&what, &a, &b)) sim::fail("membership", "6 s after all faults stopped node %d does %s list a peer at node %d", a, what, b);
        late_leavers(0);
    }
    // Now nothing changes any more
    uint64_t joins, leaves;
    { sim::Quiet q; joins = w.n_join; leaves = w.n_leave; }
    std::vector<uint64_t> ids;
    for (int i = 0; i < nd; ++i) {
        std::string to;
        { sim::Quiet q; to = w.node[size_t((i + 1) % nd)].name; }
        sim::net::set_node(i);
        ids.push_back(nw::send(i, to, true, 30));
    }
    sim::net::set_node(15);
    sim::sleep_ns(4000 * MS);
    {
        sim::Quiet q;
        if (w.n_join != joins || w.n_leave != leaves) sim::fail("unstable", "nodes joined or left although nothing happens any more");
        for (int i = 0; i < nd; ++i)
            if (w.msg[ids[size_t(i)]].count[w.node[size_t((i + 1) % nd)].inst] != 1) sim::fail("exchange", "a reliable message between two connected nodes didn't arrive within 4 s");
    }
    for (int i = 0; i < nd; ++i) stop(i, true);
    sim::Quiet q;
    if (w.n_leave) sim::nontrivial();
    sim::sample("%d nodes, mode %d, %d events, %lu joins, %lu leaves", nd, w.mode, steps, (unsigned long)w.n_join, (unsigned long)w.n_leave);
}
