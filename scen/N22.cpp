// Messages between NUClearNetwork nodes while the network loses, duplicates, reorders, delays and is partitioned.
#include "net.hpp"
const char* const scenario_property = "N22";
using namespace nw;
void scenario() {
    World w;
    W = &w;
    int nd, total, nsend;
    bool burst = false, big = false, huge = false;
    {
        sim::Quiet q;
        w.mode = int(sim::choose(6));
        if (w.mode >= NMODE) w.mode = MCAST4;
        w.n = nd = w.mode == UNICAST ? 2 : int(sim::range(2, 4));
        static const int mtus[] = {1500, 576, 140, 9000, 80};
        const bool same_mtu = !sim::chance(1, 3);
        const int m0 = mtus[sim::choose(5)];
        const bool twins = sim::chance(1, 5);
        for (int i = 0; i < nd; ++i) {
            w.node.emplace_back();
            Node& x = w.node.back();
            x.id   = i;
            x.name = twins && i > 0 ? std::string("twin") : std::string(1, char('a' + i)) + (sim::chance(1, 8) ? std::string(size_t(sim::range(1, 200)), 'n') : "");
            x.mtu  = uint16_t(same_mtu ? m0 : mtus[sim::choose(5)]);
        }
        burst = sim::chance(1, 6);
        huge  = sim::chance(1, 8);
        big   = sim::chance(1, 6);
        total = int(sim::range(4, 24));
        nsend = int(sim::range(1, 2));
        sim::net::Config c;
        if (!sim::chance(1, 4)) {
            c.loss    = unsigned(sim::choose(4) * 100);
            c.dup     = unsigned(sim::choose(3) * 150);
            c.reorder = unsigned(sim::choose(3) * 150);
            if (sim::chance(1, 4)) { c.send_err = 50; c.eintr = 20; }
        }
        w.dup       = c.dup > 0;
        c.min_delay = int64_t(sim::pick_log(5 * US, 20 * MS));
        c.jitter    = int64_t(sim::pick_log(5 * US, 20 * MS));
        sim::net::configure(c);
        sim::set_budget(8000000);
        w.races = sim::chance(1, 4);
        if (w.races) sim::enable_race_detector(); else if (sim::chance(2, 3)) sim::no_preempt_plain();
    }
    sim::net::tap(tap);
    for (int i = 0; i < nd; ++i) start(i);
    auto connected = [&] {
        sim::Quiet q;
        for (int a = 0; a < nd; ++a) for (int b = 0; b < nd; ++b) if (a != b && !w.link[{w.node[size_t(a)].inst, w.node[size_t(b)].peer}].member) return false;
        return true;
    };
    for (int i = 0; i < 400 && !connected(); ++i) sim::sleep_ns(10 * MS);
    std::vector<std::thread> ts;
    for (int a = 0; a < nd; ++a)
        for (int s = 0; s < nsend; ++s)
            ts.emplace_back([&, a] {
                sim::net::set_node(a);
                for (int i = 0; i < total / nd / nsend + 1; ++i) {
                    std::string target;
                    bool reliable;
                    size_t size;
                    int times = 1;
                    int64_t d = 0;
                    {
                        sim::Quiet q;
                        const auto& me = w.node[size_t(a)];
                        const size_t frag = size_t(me.mtu) - 68;
                        const int t = int(sim::choose(6));
                        target   = t == 0 ? "" : t == 1 ? "nobody" : w.node[size_t((a + 1 + int(sim::choose(uint64_t(nd - 1)))) % nd)].name;
                        reliable = !sim::chance(1, 3);
                        switch (sim::choose(8)) {
                            case 0: size = 0; break;
                            case 1: size = frag - 1; break;
                            case 2: size = frag; break;
                            case 3: size = frag + 1; break;
                            case 4: size = frag * sim::range(2, 9); break;
                            case 5: size = frag * sim::range(1, big ? 300 : 20) + sim::choose(frag); break;
                            default: size = size_t(sim::pick_log(1, 60)); break;
                        }
                        if (huge && me.mtu < 100 && sim::chance(1, 4)) { size = frag * (65535 + sim::range(0, 2)) + sim::choose(frag); sim::probe("huge"); }
                        if (burst && sim::chance(1, 6)) { times = int(sim::range(20, 300)); size = size_t(sim::choose(frag)); }
                        if (sim::chance(3, 4)) d = int64_t(sim::pick_log(10 * US, 400 * MS));
                    }
                    for (int k = 0; k < times; ++k) nw::send(a, target, reliable, size);
                    if (d) sim::sleep_ns(d);
                }
            });
    bool parts;
    { sim::Quiet q; parts = sim::chance(1, 2); }
    if (parts)
        for (int i = 0; i < 4; ++i) {
            int a, b; int64_t d, e; bool one;
            {
                sim::Quiet q;
                a = int(sim::choose(uint64_t(nd))); b = (a + 1 + int(sim::choose(uint64_t(nd - 1)))) % nd;
                d = int64_t(sim::pick_log(1 * MS, 1200 * MS)); e = int64_t(sim::pick_log(1 * MS, 500 * MS)); one = sim::chance(1, 3);
            }
            if (one) sim::net::partition_oneway(a, b, true); else sim::net::partition(a, b, true);
            sim::sleep_ns(d);
            sim::net::partition(a, b, false);
            sim::sleep_ns(e);
        }
    for (auto& t : ts) t.join();
    // One of them leaves, or is just gone, while the others go on
    int gone = -1;
    bool crash = false;
    { sim::Quiet q; if (nd >= 3 && sim::chance(1, 2)) { gone = int(sim::choose(uint64_t(nd))); crash = sim::chance(1, 2); } }
    if (gone >= 0) {
        stop(gone, !crash);
        for (int i = 0; i < 12; ++i) {
            int a; std::string target; int64_t d; size_t size;
            {
                sim::Quiet q;
                do a = int(sim::choose(uint64_t(nd))); while (a == gone);
                target = sim::chance(1, 6) ? "" : w.node[size_t(sim::choose(uint64_t(nd)))].name;
                size   = size_t(sim::pick_log(1, 300));
                d      = int64_t(sim::pick_log(1 * MS, 600 * MS));
            }
            sim::net::set_node(a);
            nw::send(a, target, true, size);
            sim::net::set_node(15);
            sim::sleep_ns(d);
        }
    }
    sim::stop_faults();
    sim::fair_from_now();
    sim::net::heal_all();
    for (int i = 0; i < 3000; ++i) {
        { sim::Quiet q; if (missing() == 0) break; }
        sim::sleep_ns(10 * MS);
    }
    {
        sim::Quiet q;
        uint64_t id = 0; int to = 0;
        if (missing(&id, &to)) {
            auto& m = w.msg[id];
            sim::fail("lost", "a reliable message of %zu bytes (%zu fragments) to node %d was not delivered within 30 s after all faults stopped", m.bytes.size(), m.bytes.size() / (size_t(w.node[size_t(w.peer[size_t(m.from_peer)].node)].mtu) - 68) + 1, to);
        }
    }
    // Nothing of what is still under way may come a second time
    sim::sleep_ns(1500 * MS);
    // What every receiver has got is not kept by the sender
    bool memory;
    { sim::Quiet q; memory = sim::chance(1, 3); }
    if (memory) {
        const uint64_t before = sim::live_bytes();
        uint64_t sent = 0;
        for (int k = 0; sent < 600000 && k < 400; ++k) {
            const int a = k % nd;
            if (a == gone) continue;
            size_t size; std::string target;
            {
                sim::Quiet q;
                const size_t frag = size_t(w.node[size_t(a)].mtu) - 68;
                size   = std::min<size_t>(frag * (k % 3 == 0 ? sim::range(1, 20) : 8 * sim::range(1, 3)) - (sim::chance(1, 2) ? 1 + sim::choose(frag) : 0), 60000);
                target = sim::chance(1, 4) ? "" : w.node[size_t((a + 1) % nd)].name;
            }
            sim::net::set_node(a);
            nw::send(a, target, true, size);
            sim::net::set_node(15);
            sent += size;
            sim::sleep_ns(2 * MS);
        }
        auto settled = [&] { sim::Quiet q; return missing() == 0 && sim::live_bytes() < before + sent / 4 + 16384; };
        for (int i = 0; i < 1000 && !settled(); ++i) sim::sleep_ns(10 * MS);
        sim::Quiet q;
        if (missing()) sim::fail("lost", "a reliable message was not delivered within 10 s without any faults");
        if (!settled()) sim::fail("memory", "10 s after %lu bytes of reliable messages had been sent %ld more bytes are in use than before (everything has been delivered)", (unsigned long)sent, long(sim::live_bytes() - before));
        sim::probe("memory");
    }
    for (int i = 0; i < nd; ++i) if (i != gone) stop(i, true);
    sim::Quiet q;
    if (w.n_delivered >= 3) sim::nontrivial();
    if (w.n_frag) sim::probe("fragmented");
    if (burst) sim::probe("burst");
    if (gone >= 0) sim::probe("one-gone");
    if (w.n_leave) sim::probe("left");
    if (w.n_throw) sim::probe("too-large");
    for (auto& k : w.msg) if (k.second.reliable && k.second.target.empty() && k.second.count.size() > 1) sim::probe("reliable-to-all");
    sim::sample("%d nodes, mode %d, %lu reliable and %lu unreliable messages, %lu delivered, %lu leaves", nd, w.mode, (unsigned long)w.n_reliable, (unsigned long)w.n_unreliable, (unsigned long)w.n_delivered, (unsigned long)w.n_leave);
}
