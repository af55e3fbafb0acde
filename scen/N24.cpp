// Arbitrary datagrams and failing system calls against nodes that also have real traffic.
#include "net.hpp"
const char* const scenario_property = "N24";
using namespace nw;
namespace {
std::vector<std::string> captured;
uint64_t injected = 0, injected_bytes = 0;
void tap24(uint32_t sip, uint16_t sport, uint32_t dip, uint16_t dport, const uint8_t* d, size_t n, int fate) {
    tap(sip, sport, dip, dport, d, n, fate);
    if (captured.size() < 64) captured.emplace_back(reinterpret_cast<const char*>(d), n);
    else if (sim::chance(1, 8)) captured[size_t(sim::choose(64))] = std::string(reinterpret_cast<const char*>(d), n);
}
void put(std::string& s, uint64_t v, int n) { for (int i = 0; i < n; ++i) s += char(v >> (8 * i)); }
uint64_t number() {
    switch (sim::choose(8)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return 0xffff;
        case 3: return 0x8000 + sim::choose(3) - 1;
        case 4: return sim::choose(65536);
        case 5: return 8 * sim::choose(40) + sim::choose(3);
        default: return sim::choose(20);
    }
}
std::string forge() {
    std::string s;
    const int how = int(sim::choose(8));
    if (how < 3 && !captured.empty()) {
        s = captured[size_t(sim::choose(captured.size()))];
        for (uint64_t k = sim::choose(4); k-- > 0 && !s.empty();)
            switch (sim::choose(4)) {
                case 0: s[size_t(sim::choose(s.size()))] = char(sim::choose(256)); break;
                case 1: s.resize(size_t(sim::choose(s.size() + 1))); break;
                case 2: s.append(size_t(sim::choose(40)), char(sim::choose(256))); break;
                default: if (s.size() > 12) { std::string v; put(v, number(), 2); s.replace(size_t(5 + 2 * sim::choose(3)), 2, v); } break;
            }
        if (sim::chance(1, 8) && s.size() > 4) s[4] = char(sim::choose(8));
        return s;
    }
    if (how == 3) {
        const size_t n = size_t(sim::chance(1, 3) ? 0 : sim::pick_log(1, 1400));
        for (size_t i = 0; i < n; ++i) s += char(sim::choose(256));
        return s;
    }
    put(s, 0x02a298e2u, 4);
    const int type = sim::chance(1, 10) ? int(sim::choose(256)) : int(1 + sim::choose(6));
    put(s, uint64_t(type), 1);
    switch (type) {
        case 1: s.append(size_t(sim::choose(30)), 'q'); s += char(0); break;
        case 3:
        case 4: {
            put(s, number() % 64, 2); put(s, number(), 2); put(s, number(), 2); put(s, sim::choose(2), 1); put(s, sim::choose(1u << 30), 8);
            s.append(size_t(sim::choose(40)), 'd');
            break;
        }
        case 5:
        case 6: {
            const uint64_t count = sim::chance(1, 2) ? sim::choose(12) : number();
            put(s, number() % 64, 2);
            if (type == 5) put(s, number(), 2);
            put(s, count, 2);
            s.append(size_t(1 + count / 8), char(sim::chance(1, 2) ? 0xff : sim::choose(256)));
            break;
        }
        default: s.append(size_t(sim::choose(30)), 'z'); break;
    }
    if (sim::chance(1, 3)) s.resize(size_t(sim::choose(s.size() + 1)));
    return s;
}
}
void scenario() {
    World w;
    W = &w;
    captured.clear();
    injected = injected_bytes = 0;
    int nd, total;
    bool errs;
    {
        sim::Quiet q;
        w.mode = int(sim::choose(3));
        w.n = nd = w.mode == UNICAST ? 2 : int(sim::range(2, 3));
        w.forged = true; w.check_members = false; w.dup = true;
        for (int i = 0; i < nd; ++i) {
            w.node.emplace_back();
            w.node.back().id   = i;
            w.node.back().name = std::string(1, char('a' + i));
            w.node.back().mtu  = sim::chance(1, 2) ? 140 : 1500;
        }
        total = int(sim::range(10, 120));
        errs  = sim::chance(1, 2);
        sim::net::Config c;
        if (sim::chance(1, 2)) { c.loss = 100; c.dup = 100; c.reorder = 100; }
        c.min_delay = int64_t(sim::pick_log(5 * US, 1 * MS));
        c.jitter    = int64_t(sim::pick_log(5 * US, 1 * MS));
        if (errs) { c.recv_err = 100; c.spurious_ready = 50; c.send_err = 100; c.eintr = 30; }
        sim::net::configure(c);
        sim::net::tap(tap24);
        sim::set_budget(8000000);
        w.races = sim::chance(1, 4);
        if (w.races) sim::enable_race_detector(); else if (sim::chance(2, 3)) sim::no_preempt_plain();
    }
    for (int i = 0; i < nd; ++i) start(i);
    sim::sleep_ns(100 * MS);
    const uint64_t before = sim::live_bytes();
    std::vector<std::thread> ts;
    for (int a = 0; a < nd; ++a)
        ts.emplace_back([&, a] {
            sim::net::set_node(a);
            for (int i = 0; i < 12; ++i) {
                std::string target;
                bool reliable;
                size_t size;
                int64_t d;
                {
                    sim::Quiet q;
                    target   = sim::chance(1, 4) ? "" : w.node[sim::choose(uint64_t(nd))].name;
                    reliable = sim::chance(2, 3);
                    size     = size_t(sim::pick_log(1, 3000));
                    d        = int64_t(sim::pick_log(1 * MS, 300 * MS));
                }
                nw::send(a, target, reliable, size);
                sim::sleep_ns(d);
            }
        });
    for (int i = 0; i < total; ++i) {
        int burst;
        int64_t d;
        {
            sim::Quiet q;
            burst = sim::chance(1, 4) ? int(sim::range(2, 20)) : 1;
            d = int64_t(sim::pick_log(10 * US, 100 * MS));
            const int to = int(sim::choose(uint64_t(nd)));
            for (int k = 0; k < burst; ++k) {
                uint32_t sip = sim::net::node_ip(int(sim::choose(uint64_t(nd))));
                uint16_t sport = 0;
                switch (sim::choose(6)) {
                    case 0: sip = sim::net::node_ip(9); sport = uint16_t(1000 + sim::choose(20)); break;
                    case 1: sport = PORT; break;
                    case 2: sport = uint16_t(sim::choose(65536)); break;
                    default: { const auto& x = w.node[sim::choose(uint64_t(nd))]; sip = sim::net::node_ip(x.id); sport = w.peer[size_t(x.peer)].port; break; }
                }
                const std::string s = forge();
                ++injected; injected_bytes += s.size();
                if (getenv("DBG")) { fprintf(stderr, "inject to %d from %08x:%d:", to, sip, sport); for (size_t j = 0; j < s.size() && j < 24; ++j) fprintf(stderr, " %02x", uint8_t(s[j])); fprintf(stderr, " (%zu)\n", s.size()); }
                sim::net::inject(sip, sport, sim::net::node_ip(to), sim::chance(1, 2) ? PORT : w.peer[size_t(w.node[size_t(to)].peer)].port, s.data(), s.size());
                sim::count_fault(s.empty() ? "empty-datagram" : "forged-datagram");
            }
        }
        sim::sleep_ns(d);
        sim::Quiet q;
        if (sim::net::blocking_recv_waiters()) sim::fail("blocked", "a thread is blocked reading from a socket that has nothing to read");
    }
    for (auto& t : ts) t.join();
    sim::stop_faults();
    sim::fair_from_now();
    sim::net::heal_all();
    sim::net::config().recv_err = sim::net::config().send_err = 0;
    auto all = [&](bool want) {
        for (int a = 0; a < nd; ++a)
            for (int b = 0; b < nd; ++b)
                if (a != b && w.link[{w.node[size_t(a)].inst, w.node[size_t(b)].peer}].member != want) return false;
        return true;
    };
    sim::sleep_ns(7000 * MS);
    {
        sim::Quiet q;
        if (!all(true)) sim::fail("membership", "7 s after the last forged datagram not all nodes are connected");
        for (auto& x : w.node)
            if (x.busy_since && sim::now_ns() - x.busy_since > 3000 * MS) sim::fail("wedged", "process() of a node hasn't returned for seconds");
        const uint64_t now = sim::live_bytes();
        if (now > before + 20 * injected_bytes + 400000) sim::fail("memory", "%lu bytes are in use after %lu bytes of forged datagrams (%lu before)", (unsigned long)now, (unsigned long)injected_bytes, (unsigned long)before);
    }
    // Anyone can claim a node's address, and with that tell the others another name for it
    auto renamed = [&](int i) { sim::Quiet q; return w.link[{w.node[size_t(i)].inst, w.node[size_t((i + 1) % nd)].peer}].renamed; };
    auto exchange = [&](int count) {
        std::vector<std::vector<uint64_t>> ids;
        ids.resize(size_t(nd));
        for (int i = 0; i < nd; ++i) {
            sim::net::set_node(i);
            if (renamed(i)) continue;
            for (int k = 0; k < count; ++k) ids[size_t(i)].push_back(nw::send(i, w.node[size_t((i + 1) % nd)].name, true, k % 2 ? 30 : 2000));
        }
        sim::net::set_node(15);
        sim::sleep_ns(4000 * MS);
        int least = count;
        sim::Quiet q;
        for (int i = 0; i < nd; ++i) {
            int n = 0;
            if (renamed(i)) continue;
            for (auto id : ids[size_t(i)]) n += w.msg[id].count[w.node[size_t((i + 1) % nd)].inst] == 1;
            least = std::min(least, n);
        }
        return least;
    };
    // Forged packets with a node's address may have used up some packet ids
    if (exchange(20) < 1) { sim::Quiet q; sim::fail("served", "not one of 20 reliable messages was delivered after the forged datagrams had stopped"); }
    // After the nodes have lost sight of each other there is nothing left of the forged packets
    for (int a = 0; a < nd; ++a) for (int b = 0; b < a; ++b) sim::net::partition(a, b, true);
    sim::sleep_ns(4000 * MS);
    sim::net::heal_all();
    sim::sleep_ns(4000 * MS);
    { sim::Quiet q; if (!all(true)) sim::fail("membership", "not all nodes are connected 4 s after a partition"); }
    if (exchange(6) < 6) { sim::Quiet q; sim::fail("served", "reliable messages between nodes that joined after the forged datagrams had stopped were lost"); }
    // Messages of which parts got lost are not kept for ever
    bool hoard;
    { sim::Quiet q; hoard = sim::chance(1, 3); }
    if (hoard) {
        const uint64_t clean = sim::live_bytes();
        auto part = [&](int id) {
            sim::Quiet q;
            std::string s;
            put(s, 0x02a298e2u, 4); put(s, 3, 1); put(s, uint64_t(id), 2); put(s, 0, 2); put(s, 3, 2); put(s, 0, 1); put(s, 7, 8);
            s.append(400, 'h');
            sim::net::inject(sim::net::node_ip(0), w.peer[size_t(w.node[0].peer)].port, sim::net::node_ip(1), w.peer[size_t(w.node[1].peer)].port, s.data(), s.size());
        };
        for (int i = 0; i < 300; ++i) {
            part(20000 + i);
            sim::sleep_ns(50 * US);
        }
        const uint64_t full = sim::live_bytes();
        sim::sleep_ns(15 * SEC);
        part(30000);
        sim::sleep_ns(1 * SEC);
        sim::Quiet q;
        if (full > clean + 30000) {
            const uint64_t now = sim::live_bytes();
            if (now > clean + (full - clean) / 2) sim::fail("hoard", "15 s after a part of each of 300 messages %ld more bytes are in use than before, of %ld", long(now - clean), long(full - clean));
            sim::probe("incomplete");
        }
    }
    for (int i = 0; i < nd; ++i) stop(i, true);
    sim::Quiet q;
    if (injected >= 10) sim::nontrivial();
    if (errs) sim::probe("errors");
    sim::sample("%d nodes, mode %d, %lu forged datagrams, %lu joins, %lu leaves", nd, w.mode, (unsigned long)injected, (unsigned long)w.n_join, (unsigned long)w.n_leave);
}
