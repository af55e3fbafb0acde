// Several NUClearNetwork engines (real code) on the simulated network, each driven the way NetworkController drives one.
#ifndef NET_HPP
#define NET_HPP
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include "extension/network/NUClearNetwork.hpp"
#include "sim.hpp"
namespace nw {
using Net = NUClear::extension::network::NUClearNetwork;
using Target = Net::NetworkTarget;
constexpr int64_t US = 1000, MS = 1000000, SEC = 1000 * MS;
enum { MCAST4, BCAST, UNICAST, MCAST6, NMODE };
constexpr uint16_t PORT = 7447;

struct Link {                    // what one node thinks of another
    bool member = false, renamed = false;
    uint64_t joins = 0, leaves = 0;
    int64_t joined_at = 0, left_at = 0;
};
// A node can be started several times, and each time it may be reconfigured several times. What its peers can tell apart is its address.
struct Peer { int node = 0, inst = 0; uint16_t port = 0; std::string name; bool alive = true; int64_t died = 0; };
struct Node {
    int id = 0, inst = -1, peer = -1;
    std::string name;
    std::unique_ptr<Net> net;
    std::thread loop;
    uint16_t mtu = 1500;
    bool up = false, stop = false, resetting = false, reset_wanted = false;
    std::mutex ctl;               // orders what the main thread did before it asked for a reset
    std::mutex sending;           // held by whoever sends, and while it is stopped or reconfigured
    std::set<int64_t> events;     // when process() was asked for
    int64_t busy_since = 0;       // inside process() since then
    uint64_t n_process = 0;
};
struct Msg {
    int from = 0, from_peer = -1;
    std::string target, bytes;
    bool reliable = false;
    std::map<int, std::pair<uint64_t, uint64_t>> must;   // peer -> how often the sender, the receiver had seen the other leave
    std::map<int, int> count;
    std::map<int, uint64_t> first_leaves;
    int64_t at = 0;
};
struct World {
    int mode = 0, n = 0;
    bool races = false, dup = false, forged = false, check_members = true;
    std::deque<Node> node;
    std::deque<Peer> peer;
    std::map<std::pair<int, int>, Link> link;                // what an instance thinks of a peer
    int n_inst = 0;
    std::map<std::pair<int, int>, int64_t> heard;            // when a node last got something from a peer
    std::map<std::pair<int, int>, int64_t> said_bye;         // ... when that was a LEAVE
    std::map<uint64_t, Msg> msg;
    uint64_t next = 1, n_delivered = 0, n_reliable = 0, n_frag = 0, n_unreliable = 0, n_join = 0, n_leave = 0, n_throw = 0;
};
inline World* W = nullptr;

inline int peer_of(int node, uint16_t port) {
    for (size_t i = W->peer.size(); i-- > 0;) if (W->peer[i].node == node && W->peer[i].port == port) return int(i);
    return -1;
}
inline int peer_at(const NUClear::util::network::sock_t& s) {
    if (s.sock.sa_family == AF_INET) return peer_of(int(ntohl(s.ipv4.sin_addr.s_addr) - sim::net::node_ip(0)), ntohs(s.ipv4.sin_port));
    return peer_of(int(s.ipv6.sin6_addr.s6_addr[15]) - 1, ntohs(s.ipv6.sin6_port));
}
inline void tap(uint32_t sip, uint16_t sport, uint32_t dip, uint16_t dport, const uint8_t* d, size_t n, int fate) {
    if (getenv("DBG"))
        fprintf(stderr, "%9.3f ms %08x:%d -> %08x:%d type %d len %zu id %d no %d/%d fate %d (node %d)\n", double(sim::now_ns()) / 1e6, sip, sport, dip, dport, n > 4 ? d[4] : -1, n, n > 6 ? d[5] | d[6] << 8 : -1, n > 8 ? d[7] | d[8] << 8 : -1, n > 10 ? d[9] | d[10] << 8 : -1, fate, fate == 1 ? sim::net::tap_node() : -1);
    if (fate != 1) return;
    const int p = peer_of(W->mode == MCAST6 ? int(sip) - 1 : int(sip - sim::net::node_ip(0)), sport);
    if (p < 0) return;
    W->heard[{sim::net::tap_node(), p}] = sim::now_ns();
    if (n == 5 && d[4] == 2) W->said_bye[{sim::net::tap_node(), p}] = sim::now_ns();
}
inline std::string address_of(int mode, int node) {
    switch (mode) {
        case MCAST4: return "239.226.152.162";
        case BCAST: return "10.0.0.255";
        case UNICAST: return node == 0 ? "10.0.0.2" : "10.0.0.1";
        default: return "ff02::98a2";
    }
}
inline void joined(int a, int inst, const Target& t) {
    sim::Quiet q;
    const int b = peer_at(t.target);
    if (b < 0) { if (W->forged) return; sim::fail("unknown", "node %d reported that a node joined which doesn't exist", a); }
    auto& l = W->link[{inst, b}];
    if (getenv("DBG")) fprintf(stderr, "%9.3f ms node %d (instance %d): peer %d joined\n", double(sim::now_ns()) / 1e6, a, inst, b);
    if (l.member) sim::fail("join-twice", "node %d reported that a peer joined although it hadn't left", a);
    if (!W->forged && t.name != W->peer[size_t(b)].name) sim::fail("name", "a peer joined under another name");
    l.renamed = t.name != W->peer[size_t(b)].name;
    l.member = true; ++l.joins; l.joined_at = sim::now_ns();
    ++W->n_join;
}
inline void left(int a, int inst, const Target& t) {
    sim::Quiet q;
    const int b = peer_at(t.target);
    if (b < 0) { if (W->forged) return; sim::fail("unknown", "node %d reported that a node left which doesn't exist", a); }
    auto& l = W->link[{inst, b}];
    if (getenv("DBG")) fprintf(stderr, "%9.3f ms node %d (instance %d): peer %d left\n", double(sim::now_ns()) / 1e6, a, inst, b);
    if (!l.member) sim::fail("leave-twice", "node %d reported that a peer left although it hadn't joined", a);
    l.member = false; ++l.leaves; l.left_at = sim::now_ns();
    ++W->n_leave;
    if (W->forged || !W->check_members) return;
    // It must have said so or not have been heard of for two seconds
    const Node& nd = W->node[size_t(a)];
    if (!nd.up || nd.resetting) return;
    if (W->said_bye.count({a, b})) return;
    const int64_t at = W->heard[{a, b}];
    if (at < nd.busy_since && at > sim::now_ns() - 1990 * MS)
        sim::fail("left-early", "node %d reported that a peer left which had not said so, and from which it got a datagram %ld ms before", a, long((sim::now_ns() - at) / MS));
}
inline void packet(int a, int inst, const Target& t, uint64_t hash, bool reliable, std::vector<uint8_t>&& bytes) {
    sim::Quiet q;
    const int b = peer_at(t.target);
    auto it = W->msg.find(hash);
    if (b < 0 || it == W->msg.end()) { if (W->forged) return; sim::fail("phantom", "node %d got a message that was never sent", a); }
    Msg& m = it->second;
    if (m.from != W->peer[size_t(b)].inst) { if (W->forged) return; sim::fail("sender", "node %d got a message from the wrong node", a); }
    auto& l = W->link[{inst, b}];
    if (!l.member) sim::fail("not-member", "node %d got a message of a peer which it hadn't reported as joined", a);
    if (W->forged) { if (bytes.size() == m.bytes.size() && std::equal(bytes.begin(), bytes.end(), reinterpret_cast<const uint8_t*>(m.bytes.data()))) ++m.count[inst]; return; }
    if (bytes.size() != m.bytes.size()) sim::fail("corrupt", "node %d got a message of %zu bytes as %zu bytes (%s)", a, m.bytes.size(), bytes.size(), m.reliable ? "reliable" : "unreliable");
    if (!bytes.empty() && memcmp(bytes.data(), m.bytes.data(), bytes.size()) != 0) sim::fail("corrupt", "node %d got other bytes than were sent (%s, %zu bytes)", a, m.reliable ? "reliable" : "unreliable", bytes.size());
    if (reliable != m.reliable) sim::fail("reliability", "a message was reported with the wrong reliability");
    if (!m.target.empty() && m.target != W->peer[size_t(W->node[size_t(a)].peer)].name) sim::fail("target", "node %d got a message for somebody else", a);
    const int k = ++m.count[inst];
    ++W->n_delivered;
    if (k == 1) m.first_leaves[inst] = l.leaves;
    else if (m.reliable ? m.first_leaves[inst] == l.leaves : !W->dup)
        sim::fail("twice", "node %d got a%s message of %zu bytes twice", a, m.reliable ? " reliable" : "n unreliable", bytes.size());
}
inline void wire(Node& nd) {
    const int id = nd.id, inst = nd.inst;
    nd.net->set_join_callback([id, inst](const Target& t) { joined(id, inst, t); });
    nd.net->set_leave_callback([id, inst](const Target& t) { left(id, inst, t); });
    nd.net->set_packet_callback([id, inst](const Target& t, const uint64_t& h, const bool& r, std::vector<uint8_t>&& d) { packet(id, inst, t, h, r, std::move(d)); });
    nd.net->set_next_event_callback([id](std::chrono::steady_clock::time_point t) {
        sim::Quiet q;
        W->node[size_t(id)].events.insert(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count());
    });
}
// Join the network (again) under the node's present name
inline void configure(int id) {
    Node& nd = W->node[size_t(id)];
    {
        sim::Quiet q;
        nd.resetting = true;
        if (nd.peer >= 0) { W->peer[size_t(nd.peer)].alive = false; W->peer[size_t(nd.peer)].died = sim::now_ns(); }
    }
    nd.net->reset(nd.name, address_of(W->mode, id), PORT, nd.mtu);
    const int fd = nd.net->listen_fds()[0];
    sim::Quiet q;
    nd.peer = int(W->peer.size());
    W->peer.push_back(Peer{id, nd.inst, sim::net::local_port(fd), nd.name, true, 0});
    nd.resetting = false;
}
inline void run_loop(int id) {
    Node& nd = W->node[size_t(id)];
    bool first = true;
    for (;;) {
        std::vector<NUClear::fd_t> fds;
        int64_t wait;
        bool again;
        { const std::lock_guard<std::mutex> lock(nd.ctl); sim::Quiet q; again = nd.reset_wanted; nd.reset_wanted = false; }
        if (again) { configure(id); const std::lock_guard<std::mutex> lock(nd.ctl); first = true; }
        {
            sim::Quiet q;
            if (nd.stop) return;
            wait = nd.events.empty() ? 10 * MS : *nd.events.begin() - sim::now_ns();
            if (wait < 0) wait = 0;
            if (wait > 10 * MS) wait = 10 * MS;
        }
        fds = nd.net->listen_fds();
        pollfd p[2] = {{fds[0], POLLIN, 0}, {fds[1], POLLIN, 0}};
        const int r = ::poll(p, 2, int((wait + MS - 1) / MS));
        bool due = first;
        {
            sim::Quiet q;
            if (nd.stop) return;
            while (!nd.events.empty() && *nd.events.begin() <= sim::now_ns()) { nd.events.erase(nd.events.begin()); due = true; }
        }
        if (r > 0 || due) {
            first = false;
            { sim::Quiet q; nd.busy_since = sim::now_ns(); ++nd.n_process; }
            try {
                nd.net->process();
            }
            catch (const std::system_error& e) {
                // It reports that it couldn't announce; it has to carry on all the same
                sim::Quiet q;
                ++W->n_throw;
                if (!sim::net::config().send_err) sim::fail("exception", "process() threw %s", e.what());
            }
            catch (const std::exception& e) {
                sim::Quiet q;
                sim::fail("exception", "process() threw %s", e.what());
            }
            { sim::Quiet q; nd.busy_since = 0; }
        }
    }
}
inline void start(int id) {
    Node& nd = W->node[size_t(id)];
    sim::net::set_node(id);
    { sim::Quiet q; nd.inst = W->n_inst++; nd.peer = -1; nd.events.clear(); nd.stop = false; }
    nd.net = std::make_unique<Net>();
    if (W->races) sim::track(nd.net.get(), sizeof(Net), "the state of the network");
    wire(nd);
    configure(id);
    { sim::Quiet q; nd.up = true; }
    nd.loop = std::thread([id] { run_loop(id); });
    sim::net::set_node(15);
}
// A crash is the same as a shutdown of which nobody hears
inline void stop(int id, bool graceful) {
    Node& nd = W->node[size_t(id)];
    { sim::Quiet q; nd.stop = true; nd.up = false; W->peer[size_t(nd.peer)].alive = false; W->peer[size_t(nd.peer)].died = sim::now_ns(); }
    if (!graceful) { sim::count_fault("node-crash"); for (int i = 0; i < W->n; ++i) if (i != id) sim::net::partition(id, i, true); }
    nd.loop.join();
    // It might have been in the middle of a reset
    { sim::Quiet q; Peer& x = W->peer[size_t(nd.peer)]; if (x.alive) { x.alive = false; x.died = sim::now_ns(); } }
    sim::net::set_node(id);
    nd.net->shutdown();
    nd.net.reset();
    sim::net::set_node(15);
    if (!graceful) for (int i = 0; i < W->n; ++i) if (i != id) sim::net::partition(id, i, false);
}
// What node `a` sends; everything it needs to be judged is recorded first.
inline uint64_t send(int a, const std::string& target, bool reliable, size_t size) {
    Node& nd = W->node[size_t(a)];
    uint64_t id;
    std::vector<uint8_t> bytes;
    {
        sim::Quiet q;
        id = W->next++ * 0x9E3779B97F4A7C15ull;
        Msg& m = W->msg[id];
        m.from = nd.inst; m.target = target; m.reliable = reliable; m.at = sim::now_ns();
        m.bytes.resize(size);
        uint64_t x = id;
        for (size_t i = 0; i < size; ++i) { if (i % 8 == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; m.bytes[i] = char(x >> (8 * (i % 8))); }
        if (reliable)
            for (auto& l : W->link)
                if (l.first.first == nd.inst && l.second.member && (target.empty() || target == W->peer[size_t(l.first.second)].name))
                    m.must[l.first.second] = {l.second.leaves, W->link[{W->peer[size_t(l.first.second)].inst, nd.peer}].leaves};
        m.from_peer = nd.peer;
        (reliable ? W->n_reliable : W->n_unreliable)++;
        if (size > nd.mtu) ++W->n_frag;
    }
    bytes.assign(W->msg[id].bytes.begin(), W->msg[id].bytes.end());
    try {
        nd.net->send(id, bytes, target, reliable);
    }
    catch (const std::exception& e) {
        sim::Quiet q;
        ++W->n_throw;
        W->msg[id].must.clear();
        if (size / size_t(nd.mtu - 68) >= 65535) return id;    // can't be represented
        sim::fail("send-exception", "send threw %s", e.what());
    }
    return id;
}
// Reliable messages that should have arrived by now and haven't
inline int missing(uint64_t* id = nullptr, int* to = nullptr) {
    int n = 0;
    for (auto& k : W->msg)
        for (auto& t : k.second.must) {
            const Peer &to_peer = W->peer[size_t(t.first)], &me = W->peer[size_t(k.second.from_peer)];
            if (k.second.count[to_peer.inst] > 0) continue;
            // Only for those who stayed connected, both ways
            if (!to_peer.alive || !me.alive) continue;
            if (W->link[{me.inst, t.first}].leaves != t.second.first || W->link[{to_peer.inst, k.second.from_peer}].leaves != t.second.second) continue;
            ++n;
            if (id) { *id = k.first; *to = to_peer.node; }
        }
    return n;
}
}  // namespace nw
#endif
