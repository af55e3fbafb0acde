// UDP and TCP reactions, and UDP emits, against what was really on the simulated wire.
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "U17";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
constexpr int64_t US = 1000, MS = 1000000;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 1; };
struct SG {};
struct Other { int v; };
enum { UNI, BCAST, MCAST, STREAM, NKIND };
static const char* const KIND[] = {"UDP", "UDP::Broadcast", "UDP::Multicast", "TCP"};
struct Dgram {
    uint32_t sip, dip;
    uint16_t sport, dport;
    std::string bytes;
};
struct Re {
    int kind, variant;                   // variant: pool etc.
    bool v6, sync;
    uint16_t port = 0;
    int p_throw = 0;
    std::deque<Dgram> arrived;           // and not delivered yet
    bool busy = false, dead = false, unbinding = false, off = false, set = false;
    int left = 0;                        // executions that may still follow
    uint64_t got = 0, empties = 0;
    ReactionHandle handle = ReactionHandle();
};
struct Conn { int re; uint16_t from = 0; int delivered = 0; bool echoed = false, refused = false, reset = false; };
struct World {
    std::deque<Re> re;
    std::map<uint16_t, int> of_port;     // UDP
    std::vector<Conn> conn;
    std::map<uint64_t, std::string> emitted;   // by id
    std::map<uint64_t, int> on_wire;
    std::vector<std::pair<int, uint32_t>> waiting;
    uint64_t next = 1, sent = 0, dropped = 0, n_got = 0, n_filtered = 0, n_conn = 0, n_max = 0, n_empty = 0, n_emit = 0, n_unbound = 0, n_threw = 0;
    size_t limit = 6;
};
World* W;
bool addressed(const Re& r, const Dgram& d) {
    const bool m = (d.dip >> 28) == 0xe, b = d.dip == 0xffffffffu || d.dip == 0x0a0000ffu;
    if (r.v6) return r.kind == UNI;
    if (r.kind == MCAST) return m;
    if (r.kind == BCAST) return b;
    return !m && !b;
}
void tap(uint32_t sip, uint16_t sport, uint32_t dip, uint16_t dport, const uint8_t* d, size_t n, int fate) {
    if (fate != 1) { ++W->dropped; }
    auto it = W->of_port.find(dport);
    uint64_t id = 0;
    if (n >= 9 && d[8] == 'E') {
        memcpy(&id, d, 8);
        auto e = W->emitted.find(id);
        if (e == W->emitted.end() || e->second != std::string(reinterpret_cast<const char*>(d), n)) sim::fail("emit-bytes", "a UDP emit put other bytes on the wire than it was given");
        ++W->on_wire[id];
    }
    if (it == W->of_port.end()) return;
    Re& r = W->re[size_t(it->second)];
    if (fate == 1) r.arrived.push_back(Dgram{sip, dip, sport, dport, std::string(reinterpret_cast<const char*>(d), n)});
}
struct Enter {
    Re& r;
    explicit Enter(int i, const char* what) : r(W->re[size_t(i)]) {
        if (r.busy && !r.dead && r.kind != STREAM) sim::fail("twice", "two packets of a %s reaction were processed at once", what);
        if (r.dead && r.left-- <= 0) sim::fail("dead", "a %s reaction was executed after it was unbound", what);
        if (r.off && r.left-- <= 0) sim::fail("disabled", "a %s reaction was executed while it was disabled", what);
        r.busy = true;
        ++r.got;
        ++W->n_got;
    }
};
bool leave(int i) {
    sim::Quiet q;
    Re& r = W->re[size_t(i)];
    r.busy = false;
    if (r.p_throw && sim::chance(1, unsigned(r.p_throw))) { ++W->n_threw; return true; }
    return false;
}
void nap() {
    int64_t t = 0;
    { sim::Quiet q; if (sim::chance(1, 2)) t = int64_t(sim::pick_log(100, 60 * US)); }
    if (t) sim::sleep_ns(t);
}
void on_packet(int i, const word::UDP::Packet& p) {
    {
        sim::Quiet q;
        Enter e(i, KIND[W->re[size_t(i)].kind]);
        Re& r = e.r;
        if (!p.valid) sim::fail("invalid", "a %s reaction got an invalid packet", KIND[r.kind]);
        // Those that it is not addressed by deliver nothing
        while (!r.arrived.empty() && !addressed(r, r.arrived.front())) { r.arrived.pop_front(); ++W->n_filtered; }
        if (r.arrived.empty()) sim::fail("extra", "a %s reaction was executed with a packet of %zu bytes although nothing (more) had arrived for it", KIND[r.kind], p.payload.size());
        const Dgram d = r.arrived.front();
        r.arrived.pop_front();
        if (p.payload.size() != d.bytes.size() || memcmp(p.payload.data(), d.bytes.data(), d.bytes.size()) != 0)
            sim::fail("bytes", "a %s reaction got a packet of %zu bytes that differs from the one of %zu bytes that arrived", KIND[r.kind], p.payload.size(), d.bytes.size());
        if (r.v6) {
            if (p.remote.sock.sa_family != AF_INET6 || p.local.sock.sa_family != AF_INET6) sim::fail("endpoints", "wrong address family");
            if (ntohs(p.remote.ipv6.sin6_port) != d.sport || ntohs(p.local.ipv6.sin6_port) != d.dport || p.remote.ipv6.sin6_addr.s6_addr[15] != uint8_t(d.sip) || p.local.ipv6.sin6_addr.s6_addr[15] != uint8_t(d.dip))
                sim::fail("endpoints", "a packet has other endpoints than it was sent from and to");
        }
        else {
            if (p.remote.sock.sa_family != AF_INET || p.local.sock.sa_family != AF_INET) sim::fail("endpoints", "wrong address family");
            if (ntohs(p.remote.ipv4.sin_port) != d.sport || ntohs(p.local.ipv4.sin_port) != d.dport || ntohl(p.remote.ipv4.sin_addr.s_addr) != d.sip || ntohl(p.local.ipv4.sin_addr.s_addr) != d.dip)
                sim::fail("endpoints", "a packet has other endpoints than it was sent from and to");
        }
        if (d.bytes.empty()) ++W->n_empty;
        if (d.bytes.size() > 65000) ++W->n_max;
    }
    nap();
    if (leave(i)) throw std::runtime_error("callback");
}
void on_connection(int i, const word::TCP::Connection& c) {
    uint16_t port = 0;
    {
        sim::Quiet q;
        Enter e(i, "TCP");
        if (!c) sim::fail("invalid", "a TCP reaction got an invalid connection");
        if (!sim::net::fd_open(c.fd)) sim::fail("descriptor", "a TCP reaction got a descriptor that is not open");
        if (c.remote.sock.sa_family != AF_INET || c.local.sock.sa_family != AF_INET) sim::fail("endpoints", "wrong address family");
        port = ntohs(c.remote.ipv4.sin_port);
        if (ntohs(c.local.ipv4.sin_port) != W->re[size_t(i)].port) sim::fail("endpoints", "a connection has another local port");
        ++W->n_conn;
    }
    nap();
    uint32_t id = 0;
    size_t got  = 0;
    while (got < 4) {
        const ssize_t n = ::recv(c.fd, reinterpret_cast<char*>(&id) + got, 4 - got, 0);
        if (n <= 0) { sim::Quiet q; sim::fail("descriptor", "the descriptor of a connection can't be read from (%d)", errno); }
        got += size_t(n);
    }
    {
        sim::Quiet q;
        if (id >= W->conn.size()) sim::fail("descriptor", "a connection has other data than was sent");
        Conn& k = W->conn[id];
        if (k.re != i) sim::fail("reaction", "a connection was delivered to another reaction");
        if (k.from != port) sim::fail("endpoints", "a connection has another remote port than it came from");
        if (++k.delivered > 1) sim::fail("duplicate", "a connection was delivered twice");
    }
    id = ~id;
    if (::send(c.fd, &id, 4, 0) != 4) { sim::Quiet q; sim::fail("descriptor", "the descriptor of a connection can't be written to"); }
    ::close(c.fd);
    if (leave(i)) throw std::runtime_error("callback");
}
class R : public NUClear::Reactor {
public:
    explicit R(std::unique_ptr<NUClear::Environment> e, int n) : Reactor(std::move(e)) {
        for (int i = 0; i < n; ++i) add(i);
    }
    template <typename... Words, typename... A>
    std::tuple<ReactionHandle, in_port_t, NUClear::fd_t> udp(int i, int variant, A... a) {
        auto f = [i](const word::UDP::Packet& p) { on_packet(i, p); };
        switch (variant) {
            case 0: return on<Words...>(a...).then(std::move(f));
            case 1: return on<Words..., Pool<PA>>(a...).then(std::move(f));
            case 2: return on<Words..., Sync<SG>>(a...).then(std::move(f));
            case 3: return on<Words..., Single>(a...).then(std::move(f));
            case 4: return on<Words..., MainThread>(a...).then(std::move(f));
            default: return on<Words..., Buffer<2>, Priority::HIGH>(a...).then(std::move(f));
        }
    }
    void add(int i) {
        int kind, variant;
        bool v6;
        { sim::Quiet q; kind = W->re[size_t(i)].kind; variant = W->re[size_t(i)].variant; v6 = W->re[size_t(i)].v6; }
        std::tuple<ReactionHandle, in_port_t, NUClear::fd_t> t{ReactionHandle(), 0, -1};
        uint16_t want;
        { sim::Quiet q; want = uint16_t(5000 + i); if (kind != STREAM) W->of_port[want] = i; W->re[size_t(i)].port = want; }
        switch (kind) {
            case UNI: t = v6 ? udp<UDP>(i, variant, in_port_t(want), std::string("::")) : udp<UDP>(i, variant, in_port_t(want)); break;
            case BCAST: t = udp<UDP::Broadcast>(i, variant, in_port_t(want)); break;
            case MCAST: t = udp<UDP::Multicast>(i, variant, std::string("239.1.2." + std::to_string(i + 1)), in_port_t(want)); break;
            default: {
                auto f = [i](const word::TCP::Connection& c) { on_connection(i, c); };
                switch (variant) {
                    case 0: t = on<TCP>(in_port_t(want)).then(std::move(f)); break;
                    case 1: t = on<TCP, Pool<PA>>(in_port_t(want)).then(std::move(f)); break;
                    case 2: t = on<TCP, Sync<SG>>(in_port_t(want)).then(std::move(f)); break;
                    case 3: t = on<TCP, Single>(in_port_t(want)).then(std::move(f)); break;
                    default: t = on<TCP, MainThread>(in_port_t(want)).then(std::move(f)); break;
                }
            }
        }
        sim::Quiet q;
        if (std::get<1>(t) != want) sim::fail("port", "bind reported port %d instead of %d", int(std::get<1>(t)), int(want));
        W->re[size_t(i)].handle = std::get<0>(t);
        W->re[size_t(i)].set    = true;
    }
};
R* reactor;
Re random_re(bool first) {
    Re r{};
    r.kind    = int(first ? sim::choose(NKIND) : sim::choose(NKIND));
    r.variant = int(sim::choose(6));
    r.v6      = r.kind == UNI && sim::chance(1, 4);
    r.p_throw = sim::chance(1, 4) ? int(sim::range(2, 6)) : 0;
    return r;
}
std::string payload(bool emit) {
    size_t n = sim::chance(1, 12) ? 0 : sim::chance(1, 12) ? 65507 - sim::choose(3) : size_t(sim::pick_log(1, 3000));
    if (emit && n < 9) n = 9;
    std::string s(n, 'x');
    const uint64_t id = W->next++;
    for (size_t k = 0; k < n; ++k) s[k] = char('a' + (id * 7 + k * (id % 5 + 1)) % 19);
    if (n >= 9) { memcpy(&s[0], &id, 8); s[8] = emit ? 'E' : 'D'; }
    return s;
}
std::string where(const Re& r, bool* bc) {
    *bc = false;
    if (r.v6) return sim::net::node() == 0 && sim::chance(1, 2) ? "::1" : "fd00::1";
    switch (int(sim::choose(8))) {
        case 0: *bc = true; return "255.255.255.255";
        case 1: *bc = true; return "10.0.0.255";
        case 2: return "239.1.2." + std::to_string(sim::choose(W->re.size()) + 1);
        case 3: if (sim::net::node() == 0) return "127.0.0.1"; return "10.0.0.1";
        default: break;
    }
    if (r.kind == BCAST) { *bc = true; return "10.0.0.255"; }
    if (r.kind == MCAST) { for (size_t i = 0; i < W->re.size(); ++i) if (&W->re[i] == &r) return "239.1.2." + std::to_string(i + 1); }
    return "10.0.0.1";
}
int open_udp(bool v6) {
    for (;;) {
        const int fd = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0);
        if (fd < 0) { sim::sleep_ns(10 * US); continue; }
        int yes = 1;
        ::setsockopt(fd, SOL_SOCKET, SO_BROADCAST, &yes, sizeof yes);
        return fd;
    }
}
void send_one(int fd4, int fd6) {
    std::string to, data;
    uint16_t port;
    bool v6, bc;
    {
        sim::Quiet q;
        const size_t n = W->re.size();
        size_t i = sim::choose(n);
        for (size_t k = 0; k < n && W->re[i].kind == STREAM; ++k) i = (i + 1) % n;
        Re& r = W->re[i];
        v6   = r.v6;
        port = r.port ? r.port : 5000;
        to   = where(r, &bc);
        data = payload(false);
    }
    sockaddr_storage ss{};
    socklen_t len;
    if (v6) {
        auto* s = reinterpret_cast<sockaddr_in6*>(&ss);
        s->sin6_family = AF_INET6; s->sin6_port = htons(port); inet_pton(AF_INET6, to.c_str(), &s->sin6_addr);
        len = sizeof *s;
    }
    else {
        auto* s = reinterpret_cast<sockaddr_in*>(&ss);
        s->sin_family = AF_INET; s->sin_port = htons(port); inet_pton(AF_INET, to.c_str(), &s->sin_addr);
        len = sizeof *s;
    }
    ::sendto(v6 ? fd6 : fd4, data.data(), data.size(), 0, reinterpret_cast<sockaddr*>(&ss), len);
    sim::Quiet q;
    ++W->sent;
}
void emit_one() {
    std::string to, data;
    std::string from;
    uint16_t port, from_port = 0;
    uint64_t id = 0;
    bool bc;
    {
        sim::Quiet q;
        const size_t n = W->re.size();
        size_t i = sim::choose(n);
        for (size_t k = 0; k < n && W->re[i].kind == STREAM; ++k) i = (i + 1) % n;
        Re& r = W->re[i];
        port = r.port ? r.port : 5000;
        to   = where(r, &bc);
        data = payload(true);
        memcpy(&id, data.data(), 8);
        if (!r.v6 && sim::chance(1, 3)) { from = "10.0.0.1"; from_port = sim::chance(1, 2) ? uint16_t(6000 + sim::choose(3)) : 0; }
        W->emitted[id] = data;
        W->on_wire[id] = 0;
    }
    bool ok = true;
    try {
        auto m = std::make_unique<std::vector<char>>(data.begin(), data.end());
        if (from.empty()) reactor->emit<NUClear::dsl::word::emit::UDP>(std::move(m), to, in_port_t(port));
        else reactor->emit<NUClear::dsl::word::emit::UDP>(std::move(m), to, in_port_t(port), from, in_port_t(from_port));
    }
    catch (const std::system_error&) { ok = false; }
    sim::Quiet q;
    ++W->n_emit;
    if (!ok && W->on_wire[id]) sim::fail("emit", "a UDP emit that failed was sent");
    if (!ok) W->emitted.erase(id);
}
void await(int fd, uint32_t id, int tries) {
    uint32_t back = 0;
    size_t got    = 0;
    bool reset    = false;
    for (int k = 0; got < 4 && k < tries; ++k) {
        const ssize_t n = ::recv(fd, reinterpret_cast<char*>(&back) + got, 4 - got, MSG_DONTWAIT);
        if (n > 0) { got += size_t(n); continue; }
        if (n == 0 || (errno != EAGAIN && errno != EINTR)) { reset = true; break; }
        sim::sleep_ns(20 * US);
        { sim::Quiet q; if (W->re[size_t(W->conn[id].re)].dead) { reset = true; break; } }
    }
    {
        sim::Quiet q;
        Conn& k = W->conn[id];
        k.reset  = reset;
        k.echoed = got == 4;
        if (k.echoed && back != ~id) sim::fail("descriptor", "a connection returned other data");
        if (got > 0 && got < 4 && !reset) sim::fail("harness", "part of an answer");
        if (!k.echoed && !k.reset) {
            if (tries > 1000) sim::fail("lost", "a connection was never delivered to its TCP reaction");
            W->waiting.push_back({fd, id});
            return;
        }
    }
    ::close(fd);
}
void connect_one() {
    int re = -1;
    uint32_t id;
    uint16_t port;
    {
        sim::Quiet q;
        std::vector<int> c;
        for (size_t i = 0; i < W->re.size(); ++i) if (W->re[i].kind == STREAM && W->re[i].set) c.push_back(int(i));
        if (c.empty()) return;
        re = c[sim::choose(c.size())];
        id = uint32_t(W->conn.size());
        Conn k{};
        k.re = re;
        W->conn.push_back(k);
        port = W->re[size_t(re)].port;
    }
    int fd = -1;
    while ((fd = ::socket(AF_INET, SOCK_STREAM, 0)) < 0) sim::sleep_ns(10 * US);
    // So that the port is known before the connection can be delivered
    for (;;) {
        sockaddr_in me{};
        me.sin_family = AF_INET;
        if (::bind(fd, reinterpret_cast<sockaddr*>(&me), sizeof me) == 0) break;
        sim::sleep_ns(10 * US);
    }
    { sim::Quiet q; W->conn[id].from = sim::net::local_port(fd); }
    sockaddr_in s{};
    s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(0x0a000001u);
    if (::connect(fd, reinterpret_cast<sockaddr*>(&s), sizeof s) != 0) {
        {
            sim::Quiet q;
            W->conn[id].refused = true;
            if (!W->re[size_t(re)].dead && !W->re[size_t(re)].unbinding) sim::fail("refused", "a connection to a bound TCP reaction was refused");
        }
        ::close(fd);
        return;
    }
    ::send(fd, &id, 4, 0);
    await(fd, id, 40);
}
void change() {
    int i, what;
    {
        sim::Quiet q;
        i    = int(sim::choose(W->re.size()));
        what = int(sim::choose(4));
        Re& r = W->re[size_t(i)];
        if (!r.set || r.dead || r.unbinding) return;
        if (what == 0) {
            r.unbinding = true;
            ++W->n_unbound;
        }
        if (what == 2 && W->re.size() < W->limit) {
            i = int(W->re.size());
            W->re.push_back(random_re(false));
        }
        else if (what == 2) return;
    }
    if (what == 0) {
        W->re[size_t(i)].handle.unbind();
        sim::Quiet q;
        Re& r = W->re[size_t(i)];
        r.dead = true;
        r.left = 1;
        if (sim::net::port_held(r.port, r.kind == STREAM)) sim::fail("port", "port %d is still in use after the %s reaction that was bound to it was unbound", int(r.port), KIND[r.kind]);
        sim::probe("unbound");
    }
    if (what == 1) {
        { sim::Quiet q; W->re[size_t(i)].unbinding = true; }
        W->re[size_t(i)].handle.disable();
        { sim::Quiet q; W->re[size_t(i)].off = true; W->re[size_t(i)].left = 1; }
        sim::sleep_ns(30 * US);
        { sim::Quiet q; W->re[size_t(i)].off = false; }
        W->re[size_t(i)].handle.enable();
        { sim::Quiet q; W->re[size_t(i)].unbinding = false; }
    }
    if (what == 2) reactor->add(i);
    if (what == 3) reactor->emit(std::make_unique<Other>(Other{1}));
}
}  // namespace
void scenario() {
    World world;
    int conc, n, nt, per;
    bool changes, errs, churn;
    {
        sim::Quiet q;
        W       = &world;
        conc    = int(sim::range(1, 3));
        n       = int(sim::range(1, 3));
        nt      = int(sim::range(1, 3));
        per     = int(sim::range(1, 8));
        changes = sim::chance(1, 2);
        errs    = sim::chance(1, 2);
        churn   = changes && sim::chance(1, 2);
        if (churn) { per *= 2; W->limit = 10; }
        for (int i = 0; i < n; ++i) W->re.push_back(random_re(true));
        sim::net::Config c;
        if (sim::chance(1, 3)) { c.loss = 50; c.dup = 50; c.reorder = 100; }
        c.min_delay = int64_t(sim::pick_log(1 * US, 50 * US));
        c.jitter    = int64_t(sim::pick_log(1 * US, 100 * US));
        sim::net::configure(c);
        sim::net::tap(tap);
        sim::net::set_node(0);
        sim::set_spurious(1, 30);
    }
    sim::set_budget(1000000);
    {
        NUClear::Configuration c;
        c.default_pool_concurrency = conc;
        NUClear::PowerPlant plant(c);
        plant.install<NUClear::extension::IOController>();
        reactor = &plant.install<R>(n);
        if (errs) {
            auto& nc = sim::net::config();
            nc.recv_err = 60; nc.spurious_ready = 20; nc.conn_abort = 60; nc.send_err = 20; nc.eintr = 10;
        }
        std::thread driver([&] {
            std::vector<std::thread> ts;
            for (int t = 0; t < nt; ++t)
                ts.emplace_back([&] {
                    int node;
                    { sim::Quiet q; node = int(sim::choose(2)); sim::net::set_node(node); }
                    const int fd4 = open_udp(false), fd6 = open_udp(true);
                    for (int i = 0; i < per; ++i) {
                        int what, burst, d = 0;
                        {
                            sim::Quiet q;
                            what  = int(sim::choose(8));
                            if (churn && sim::chance(1, 2)) what = 7;
                            burst = sim::chance(1, 4) ? int(sim::range(2, 6)) : 1;
                            if (sim::chance(1, 2)) d = int(sim::pick_log(100, 200 * US));
                        }
                        if (what < 4) for (int k = 0; k < burst; ++k) send_one(fd4, fd6);
                        else if (what == 4) { if (node == 0) emit_one(); else send_one(fd4, fd6); }
                        else if (what < 7) connect_one();
                        else if (changes && node == 0) change();
                        if (d) sim::sleep_ns(d);
                    }
                    ::close(fd4);
                    ::close(fd6);
                });
            for (auto& t : ts) t.join();
            sim::stop_faults();
            sim::fair_from_now();
            for (auto& w : W->waiting) await(w.first, w.second, 4000);
            if (!sim::wait_quiescent(int64_t(2000 * MS))) { sim::Quiet q; sim::fail("progress", "the system didn't come to rest"); }
            {
                sim::Quiet q;
                for (auto& r : W->re) {
                    if (r.dead || !r.set) continue;
                    while (!r.arrived.empty() && !addressed(r, r.arrived.front())) { r.arrived.pop_front(); ++W->n_filtered; }
                    if (r.kind != STREAM && !r.arrived.empty()) sim::fail("lost", "%zu packets for a %s reaction were never delivered to it", r.arrived.size(), KIND[r.kind]);
                }
                uint64_t lost = 0;
                for (auto& k : W->conn)
                    if (!k.refused && !k.echoed && k.delivered == 0 && !W->re[size_t(k.re)].dead) ++lost;
                if (lost > sim::net::aborted()) sim::fail("lost", "%lu connections were never delivered to their TCP reaction", (unsigned long)lost);
                for (auto& e : W->emitted) if (W->on_wire[e.first] == 0) sim::fail("emit", "a UDP emit that returned was not sent");
            }
            plant.shutdown();
        });
        plant.start();
        driver.join();
        sim::Quiet q;
        for (auto& r : W->re) if (r.busy) sim::fail("busy", "a reaction was still executing when the system had ended");
        for (auto& r : W->re) r.handle = ReactionHandle();
    }
    sim::Quiet q;
    if (W->n_got >= 3) sim::nontrivial();
    if (W->n_filtered) sim::probe("not-addressed");
    if (W->n_empty) sim::probe("empty");
    if (W->n_max) sim::probe("maximum");
    if (W->n_conn) sim::probe("connections");
    if (W->n_unbound) sim::probe("unbound");
    if (sim::net::aborted()) sim::probe("aborted");
    sim::sample("%zu reactions, %lu datagrams sent, %lu emitted, %lu executions, %lu connections", W->re.size(), (unsigned long)W->sent, (unsigned long)W->n_emit, (unsigned long)W->n_got, (unsigned long)W->n_conn);
}
