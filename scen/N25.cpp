// A PowerPlant with the NetworkController on one node, bare network engines (the real code too) on the others.
#include <arpa/inet.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <nuclear>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "extension/network/NUClearNetwork.hpp"
#include "extension/network/wire_protocol.hpp"
#include "sim.hpp"
const char* const scenario_property = "N25";
namespace n25 {
constexpr int64_t US = 1000, MS = 1000000;
constexpr uint16_t PORT = 7447;
struct Small { uint64_t id; uint8_t fill[24]; };
struct Big { uint64_t id = 0; std::string body; };
struct Numbers { std::vector<uint64_t> v; };
inline std::string body_of(uint64_t id, size_t n) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) id = id * 6364136223846793005ull + 1442695040888963407ull; s[i] = char(id >> (8 * (i % 8))); }
    return s;
}
}
namespace NUClear { namespace util { namespace serialise {
template <>
struct Serialise<n25::Big, n25::Big> {
    static std::vector<uint8_t> serialise(const n25::Big& b) {
        std::vector<uint8_t> o(8 + b.body.size());
        memcpy(o.data(), &b.id, 8);
        memcpy(o.data() + 8, b.body.data(), b.body.size());
        return o;
    }
    static n25::Big deserialise(const std::vector<uint8_t>& in) {
        n25::Big b;
        if (in.size() < 8) throw std::runtime_error("not a Big");
        memcpy(&b.id, in.data(), 8);
        b.body.assign(reinterpret_cast<const char*>(in.data()) + 8, in.size() - 8);
        if (b.body != n25::body_of(b.id, b.body.size())) throw std::runtime_error("not a Big");
        return b;
    }
    static uint64_t hash() { return 0x0123456789abcdefull; }
};
}}}
namespace n25 {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
using NUClear::message::NetworkConfiguration;
using NUClear::message::NetworkJoin;
using NUClear::message::NetworkLeave;
using Net = NUClear::extension::network::NUClearNetwork;
using Ser = NUClear::util::serialise::Serialise<Small>;
using SerB = NUClear::util::serialise::Serialise<Big>;
struct SG {};
struct Go { int to; int kind; bool reliable; bool big; size_t size; };
struct Rebind {};
struct Ping {};
struct Link { bool member = false; uint64_t leaves = 0; std::string name; };
struct Raw {
    int id = 0;
    std::string name;
    std::unique_ptr<Net> net;
    std::thread loop;
    uint16_t port = 0;
    bool stop = false;
    std::set<int64_t> events;
    std::map<uint16_t, Link> link;        // what it thinks of the plant's addresses
};
struct Msg {
    bool to_plant, reliable, big;
    int raw;                              // sender, or -1
    std::string target;
    size_t size;
    uint64_t generation = 0, plant_leaves = 0, raw_leaves = 0;
    bool must = false;
    std::map<int, std::array<uint64_t, 3>> musts;  // raw -> leaves seen by it and by the plant, its port of the plant
    std::map<int, int> count;             // per node, or 100 + reaction
    std::map<int, uint64_t> first;        // how often the sender had been seen to leave when it was delivered first
};
struct Re { bool big = false, fixed = true, bound = true, gone = false; int left = 0; uint64_t got = 0; ReactionHandle handle = ReactionHandle(); };
struct World {
    int n = 0, mode = 0;
    bool dup = false, races = false, done = false, no_oracle = false;
    std::string name;                     // of the plant
    uint16_t port = 0;                    // ... and its address, once it announced itself
    uint64_t generation = 0;              // counts its configurations
    bool configuring = false;
    std::deque<Raw> raw;
    std::map<uint16_t, Link> plant_link[8];  // what the plant thinks of an address on a node
    std::deque<Re> re;
    std::map<uint64_t, Msg> msg;
    std::vector<int64_t> announced;
    std::map<std::string, uint64_t> names;
    uint64_t next = 1, n_got = 0, n_raw_got = 0, n_join = 0, n_leave = 0, n_bad = 0, n_conf = 0, n_rebind = 0, n_threw = 0;
};
World* W;
NUClear::PowerPlant* P;
uint64_t new_id() { return W->next++ * 0x9E3779B97F4A7C15ull; }
int node_of(const NUClear::util::network::sock_t& s) { return int(ntohl(s.ipv4.sin_addr.s_addr) - sim::net::node_ip(0)); }
void tap(uint32_t sip, uint16_t sport, uint32_t dip, uint16_t dport, const uint8_t* d, size_t n, int fate) {
    if (getenv("DBG"))
        fprintf(stderr, "%9.3f ms %08x:%d -> %08x:%d type %d len %zu id %d no %d/%d fate %d (node %d)\n", double(sim::now_ns()) / 1e6, sip, sport, dip, dport, n > 4 ? d[4] : -1, n, n > 6 ? d[5] | d[6] << 8 : -1, n > 8 ? d[7] | d[8] << 8 : -1, n > 10 ? d[9] | d[10] << 8 : -1, fate, fate == 1 ? sim::net::tap_node() : -1);
    if (sip == sim::net::node_ip(0) && n > 5 && d[4] == 1) {
        W->port = sport;
        if (W->announced.empty() || sim::now_ns() - W->announced.back() > 100 * MS) W->announced.push_back(sim::now_ns());
    }
}
void nap() {
    int64_t t = 0;
    { sim::Quiet q; if (sim::chance(1, 3)) t = int64_t(sim::pick_log(100, 100 * US)); }
    if (t) sim::sleep_ns(t);
}
// --- the plant
void got(int i, const word::NetworkSource& src, uint64_t id, size_t size, const void* bytes) {
    sim::Quiet q;
    Re& r = W->re[size_t(i)];
    ++r.got; ++W->n_got;
    auto it = W->msg.find(id);
    if (it == W->msg.end()) sim::fail("unknown", "a Network reaction got a message that nobody sent");
    Msg& m = it->second;
    if (m.big != r.big) sim::fail("type", "a Network reaction got a message of another type");
    if (m.size != size || body_of(id, size) != std::string(static_cast<const char*>(bytes), size)) sim::fail("bytes", "a Network reaction got other data than was sent");
    if (src.reliable != m.reliable) sim::fail("source", "a message is reported as %s", src.reliable ? "reliable" : "unreliable");
    const int from = node_of(src.address);
    if (m.raw >= 0) {
        if (src.name != W->raw[size_t(m.raw)].name) sim::fail("source", "a message has another source name than its sender");
        if (from != m.raw + 1 || ntohs(src.address.ipv4.sin_port) != W->raw[size_t(m.raw)].port) sim::fail("source", "a message has another source address than its sender");
    }
    else if (from != 0 || W->names.count(src.name) == 0) sim::fail("source", "a message of the plant itself has another source");
    if (m.raw >= 0 && !m.target.empty() && W->names.count(m.target) == 0) sim::fail("target", "the plant got a message that was for another node");
    const uint64_t leaves = W->plant_link[from][ntohs(src.address.ipv4.sin_port)].leaves;
    if (m.count[100 + i] == 0) m.first[100 + i] = leaves;
    if (++m.count[100 + i] > 1 && i != 5 && m.first[100 + i] == leaves && (m.reliable || !W->dup)) sim::fail("twice", "a Network reaction was executed twice for one %s message", m.reliable ? "reliable" : "unreliable");
    if (r.gone && r.left-- <= 0) sim::fail("unbound", "a Network reaction was executed for a message that arrived after it was unbound");
}
struct Reactor1 : NUClear::Reactor {
    explicit Reactor1(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        { sim::Quiet q; W->re.resize(6); W->re[1].big = W->re[3].big = W->re[5].big = true; }
        on<Network<Small>>().then("plain", [](const NetworkSource& s, const Small& m) { got(0, s, m.id, 24, m.fill); nap(); thrown(); });
        on<Network<Big>>().then("big", [](const NetworkSource& s, const Big& m) { got(1, s, m.id, m.body.size(), m.body.data()); nap(); });
        on<Network<Small>, Sync<SG>>().then("sync", [](const NetworkSource& s, const Small& m) { got(2, s, m.id, 24, m.fill); nap(); });
        on<Network<Big>, Inline::ALWAYS>().then("inline", [this](const NetworkSource& s, const Big& m) { got(3, s, m.id, m.body.size(), m.body.data()); thrown(); bool b; { sim::Quiet q; b = sim::chance(1, 2); } if (b) change(); });
        on<Network<Small>, Pool<>, Priority::HIGH>().then("source only", [](const NetworkSource& s, const Small& m) { got(4, s, m.id, 24, m.fill); });
        // A Ping is no message, this is executed with the last one then (if there is any)
        on<Trigger<Ping>, Network<Big>>().then("both", [](const Ping&, const NetworkSource& s, const Big& m) { got(5, s, m.id, m.body.size(), m.body.data()); });
        on<Trigger<NetworkJoin>, Inline::ALWAYS>().then([](const NetworkJoin& j) {
            sim::Quiet q;
            Link& l = W->plant_link[node_of(j.address)][ntohs(j.address.ipv4.sin_port)];
            if (getenv("DBG")) fprintf(stderr, "%9.3f ms plant: %s joined\n", double(sim::now_ns()) / 1e6, j.name.c_str());
            if (l.member) sim::fail("join-twice", "NetworkJoin was emitted for a node that hadn't left");
            l.member = true; l.name = j.name; ++W->n_join;
        });
        on<Trigger<NetworkLeave>, Inline::ALWAYS>().then([](const NetworkLeave& j) {
            sim::Quiet q;
            Link& l = W->plant_link[node_of(j.address)][ntohs(j.address.ipv4.sin_port)];
            if (getenv("DBG")) fprintf(stderr, "%9.3f ms plant: %s left\n", double(sim::now_ns()) / 1e6, j.name.c_str());
            if (!l.member) sim::fail("leave-twice", "NetworkLeave was emitted for a node that hadn't joined");
            l.member = false; ++l.leaves; ++W->n_leave;
        });
        on<Trigger<Go>>().then([this](const Go& g) { emit(std::make_unique<Ping>()); send(g); });
        on<Trigger<Rebind>>().then([this] { change(); });
        on<Startup>().then([this] { configure(); });
    }
    static void thrown() {
        bool t;
        { sim::Quiet q; t = sim::chance(1, 10); if (t) ++W->n_threw; }
        if (t) throw std::runtime_error("callback");
    }
    std::mutex changing;
    // Binds another reaction, or unbinds one
    void change() {
        const std::lock_guard<std::mutex> lock(changing);
        int i = -1;
        {
            sim::Quiet q;
            ++W->n_rebind;
            for (size_t k = 6; k < W->re.size(); ++k) if (W->re[k].bound && sim::chance(1, 2)) { i = int(k); break; }
            if (i < 0 && W->re.size() >= 12) return;
        }
        if (i >= 0) {
            ReactionHandle h;
            { sim::Quiet q; h = W->re[size_t(i)].handle; }
            h.unbind();
            sim::Quiet q;
            Re& r = W->re[size_t(i)];
            r.bound = false;
            r.gone = true;
            r.left = 1000000;                  // what had arrived before may still be executed
            return;
        }
        { sim::Quiet q; i = int(W->re.size()); W->re.emplace_back(); W->re.back().fixed = false; W->re.back().bound = false; }
        auto h = on<Network<Small>>().then("dynamic", [i](const NetworkSource& s, const Small& m) { got(i, s, m.id, 24, m.fill); });
        sim::Quiet q;
        W->re[size_t(i)].handle = h;
        W->re[size_t(i)].bound = true;
    }
    void send(const Go& g) {
        uint64_t id;
        std::string target;
        {
            sim::Quiet q;
            id = new_id();
            Msg& m = W->msg[id];
            target = g.to < 0 ? "" : g.to >= W->n ? "nobody" : W->raw[size_t(g.to)].name;
            m.to_plant = target.empty(); m.reliable = g.reliable; m.big = g.big; m.raw = -1; m.target = target; m.size = g.big ? g.size : 24;
            m.generation = W->generation;
            if (g.reliable && !W->configuring)
                for (auto& r : W->raw) {
                    const Link& here = W->plant_link[r.id + 1][r.port];
                    const Link& there = r.link[W->port];
                    if ((g.to < 0 || g.to == r.id) && here.member && there.member) m.musts[r.id] = {there.leaves, here.leaves, W->port};
                }
        }
        if (g.big) {
            auto b = std::make_unique<Big>();
            b->id = id; { sim::Quiet q; b->body = body_of(id, g.size); }
            emit<Scope::NETWORK>(b, target, g.reliable);
        }
        else {
            auto b = std::make_unique<Small>();
            b->id = id;
            { sim::Quiet q; const std::string s = body_of(id, 24); memcpy(b->fill, s.data(), 24); }
            emit<Scope::NETWORK>(b, target, g.reliable);
        }
    }
    void configure() {
        auto c = std::make_unique<NetworkConfiguration>();
        {
            sim::Quiet q;
            W->configuring = true;
            ++W->generation; ++W->n_conf;
            W->name = "plant" + std::to_string(W->generation);
            W->names[W->name] = W->generation;
            c->name = W->name;
            c->announce_address = W->mode == 0 ? "239.226.152.162" : W->mode == 1 ? "10.0.0.255" : "10.0.0.2";
            c->announce_port = PORT;
            c->mtu = sim::chance(1, 2) ? 1500 : 140;
        }
        emit(c);
    }
};
// --- the others
void raw_packet(int a, const Net::NetworkTarget& t, uint64_t hash, bool reliable, const std::vector<uint8_t>& d) {
    sim::Quiet q;
    Raw& r = W->raw[size_t(a)];
    const int from = node_of(t.target);
    if (from != 0) return;
    if (d.size() < 8) sim::fail("bytes", "a node got a message of %zu bytes from the plant", d.size());
    uint64_t id;
    memcpy(&id, d.data(), 8);
    auto it = W->msg.find(id);
    if (it == W->msg.end() || it->second.raw >= 0) sim::fail("unknown", "a node got a message that the plant hasn't sent");
    Msg& m = it->second;
    ++W->n_raw_got;
    if (hash != (m.big ? SerB::hash() : Ser::hash())) sim::fail("type", "a message was sent as another type");
    if (reliable != m.reliable) sim::fail("source", "a message was sent as %s", reliable ? "reliable" : "unreliable");
    if (d.size() != 8 + m.size || body_of(id, m.size) != std::string(reinterpret_cast<const char*>(d.data()) + 8, m.size)) sim::fail("bytes", "the plant sent other data than was emitted");
    if (!m.target.empty() && m.target != r.name) sim::fail("target", "the plant sent a message to a node it wasn't for");
    const uint64_t leaves = r.link[ntohs(t.target.ipv4.sin_port)].leaves;
    if (m.count[a] == 0) m.first[a] = leaves;
    if (++m.count[a] > 1 && m.first[a] == leaves && (reliable || !W->dup)) sim::fail("twice", "a node got a message of the plant twice");
}
void raw_start(int a) {
    Raw& r = W->raw[size_t(a)];
    sim::net::set_node(a + 1);
    r.net = std::make_unique<Net>();
    r.net->set_join_callback([a](const Net::NetworkTarget& t) {
        sim::Quiet q;
        if (node_of(t.target) != 0) return;
        Link& l = W->raw[size_t(a)].link[ntohs(t.target.ipv4.sin_port)];
        if (W->names.count(t.name) == 0) sim::fail("name", "the plant joined under another name");
        l.member = true; l.name = t.name;
    });
    r.net->set_leave_callback([a](const Net::NetworkTarget& t) {
        sim::Quiet q;
        if (node_of(t.target) != 0) return;
        Link& l = W->raw[size_t(a)].link[ntohs(t.target.ipv4.sin_port)];
        l.member = false; ++l.leaves;
    });
    r.net->set_packet_callback([a](const Net::NetworkTarget& t, const uint64_t& h, const bool& rel, std::vector<uint8_t>&& d) { raw_packet(a, t, h, rel, d); });
    r.net->set_next_event_callback([a](std::chrono::steady_clock::time_point t) {
        sim::Quiet q;
        W->raw[size_t(a)].events.insert(t.time_since_epoch().count());
    });
    r.net->reset(r.name, W->mode == 0 ? "239.226.152.162" : W->mode == 1 ? "10.0.0.255" : "10.0.0.1", PORT, 576);
    { sim::Quiet q; r.port = sim::net::local_port(r.net->listen_fds()[0]); }
    r.loop = std::thread([a] {
        Raw& x = W->raw[size_t(a)];
        bool due = true;
        const auto fds = x.net->listen_fds();
        for (;;) {
            int64_t wait;
            {
                sim::Quiet q;
                if (x.stop) return;
                wait = x.events.empty() ? 10 * MS : std::min(10 * MS, std::max<int64_t>(0, *x.events.begin() - sim::now_ns()));
            }
            pollfd p[2] = {{fds[0], POLLIN, 0}, {fds[1], POLLIN, 0}};
            const int n = due ? 1 : ::poll(p, 2, int((wait + MS - 1) / MS));
            { sim::Quiet q; while (!x.events.empty() && *x.events.begin() <= sim::now_ns()) { x.events.erase(x.events.begin()); due = true; } }
            if (n > 0 || due) { due = false; try { x.net->process(); } catch (const std::system_error&) {} }
        }
    });
    sim::net::set_node(15);
}
void raw_send(int a, bool to_all, bool reliable, bool big, size_t size, bool bad) {
    Raw& r = W->raw[size_t(a)];
    std::vector<uint8_t> d;
    std::string target;
    {
        sim::Quiet q;
        const uint64_t id = new_id();
        if (!big) size = 24;
        const std::string b = body_of(id, size);
        target = to_all ? "" : W->name;
        d.resize(8 + size);
        memcpy(d.data(), &id, 8);
        memcpy(d.data() + 8, b.data(), size);
        if (bad) {
            ++W->n_bad;
            if (big && size) d[8] ^= 1; else if (sim::chance(1, 2)) d.resize(size_t(sim::choose(8))); else if (big) d.resize(size_t(sim::choose(8))); else d.push_back(0);
            sim::count_fault("undecodable-message");
        }
        else {
            Msg& m = W->msg[id];
            m.to_plant = true; m.reliable = reliable; m.big = big; m.raw = a; m.target = target; m.size = size; m.generation = W->generation;
            const Link& there = W->plant_link[a + 1][r.port];
            const Link& here = r.link[W->port];
            m.must = reliable && !W->configuring && there.member && here.member && here.name == W->name;
            m.plant_leaves = there.leaves; m.raw_leaves = here.leaves;
        }
    }
    sim::net::set_node(a + 1);
    r.net->send(big ? SerB::hash() : Ser::hash(), d, target, reliable);
    sim::net::set_node(15);
}
const Msg* missing(int* who) {
    for (auto& e : W->msg) {
        Msg& m = e.second;
        if (m.raw >= 0 && m.must && m.generation == W->generation && W->plant_link[m.raw + 1][W->raw[size_t(m.raw)].port].leaves == m.plant_leaves && W->raw[size_t(m.raw)].link[W->port].leaves == m.raw_leaves)
            for (int i = 0; i < 5; ++i) if (W->re[size_t(i)].big == m.big && m.count[100 + i] == 0) { *who = i; return &m; }
        if (m.raw < 0 && m.generation == W->generation)
            for (auto& k : m.musts)
                if (k.second[2] == W->port && W->raw[size_t(k.first)].link[W->port].leaves == k.second[0] && W->plant_link[k.first + 1][W->raw[size_t(k.first)].port].leaves == k.second[1] && m.count[k.first] == 0) { *who = k.first; return &m; }
    }
    return nullptr;
}
bool all_connected() {
    for (auto& r : W->raw) if (!W->plant_link[r.id + 1][r.port].member || !r.link[W->port].member || r.link[W->port].name != W->name) return false;
    return true;
}
}
using namespace n25;
void scenario() {
    World w;
    W = &w;
    int total;
    bool alone, reconf, bads;
    NUClear::Configuration conf;
    {
        sim::Quiet q;
        w.mode = int(sim::choose(3));
        w.n = w.mode == 2 ? 1 : int(sim::range(1, 2));
        for (int i = 0; i < w.n; ++i) { w.raw.emplace_back(); w.raw.back().id = i; w.raw.back().name = "r" + std::to_string(i); }
        total  = int(sim::range(10, 80));
        alone  = sim::chance(1, 4);
        reconf = sim::chance(1, 3);
        bads   = sim::chance(1, 3);
        sim::net::Config c;
        if (sim::chance(1, 2)) { c.loss = unsigned(sim::choose(3) * 100); c.dup = unsigned(sim::choose(2) * 150); c.reorder = unsigned(sim::choose(2) * 150); }
        w.dup = c.dup > 0;
        c.min_delay = int64_t(sim::pick_log(5 * US, 5 * MS));
        c.jitter    = int64_t(sim::pick_log(5 * US, 5 * MS));
        sim::net::configure(c);
        sim::net::tap(tap);
        sim::set_budget(8000000);
        w.races = sim::chance(1, 4);
        if (w.races) sim::enable_race_detector(); else if (sim::chance(2, 3)) sim::no_preempt_plain();
        conf.default_pool_concurrency = int(sim::range(1, 4));
    }
    sim::net::set_node(0);
    auto plant = std::make_unique<NUClear::PowerPlant>(conf);
    P = plant.get();
    plant->install<NUClear::extension::ChronoController>();
    plant->install<NUClear::extension::IOController>();
    auto& nc = plant->install<NUClear::extension::NetworkController>();
    if (w.races) sim::track(&nc, sizeof(nc), "the state of the NetworkController");
    auto& re = plant->install<Reactor1>();
    const int base_fds = sim::net::open_fds();
    std::thread th([&] { plant->start(); });
    sim::net::set_node(15);
    const int64_t started = sim::now_ns();
    if (alone) {
        sim::sleep_ns(2600 * MS);
        sim::Quiet q;
        if (w.announced.size() < 3) sim::fail("silent", "a plant announced itself %zu times within 2.6 s of its start", w.announced.size());
        sim::probe("alone");
    }
    for (int i = 0; i < w.n; ++i) raw_start(i);
    auto settle = [&](int ms) {
        for (int i = 0; i < ms / 10; ++i) { { sim::Quiet q; if (w.port && all_connected()) return true; } sim::sleep_ns(10 * MS); }
        return false;
    };
    settle(3000);
    { sim::Quiet q; w.configuring = false; }
    for (int i = 0; i < total; ++i) {
        int what, from;
        bool big, reliable, all, bad;
        size_t size;
        int64_t d;
        {
            sim::Quiet q;
            what = int(sim::choose(10)); from = int(sim::choose(uint64_t(w.n)));
            big = sim::chance(1, 2); reliable = sim::chance(2, 3); all = sim::chance(1, 4); bad = bads && sim::chance(1, 5);
            size = size_t(sim::chance(1, 3) ? sim::pick_log(1, 6000) : sim::choose(60));
            d = sim::chance(1, 3) ? 0 : int64_t(sim::pick_log(10 * US, 100 * MS));
        }
        if (what < 5) raw_send(from, all, reliable, big, size, bad);
        else if (what < 8) {
            Go g{all ? -1 : from, 0, reliable, big, size};
            { sim::Quiet q; if (sim::chance(1, 10)) g.to = 99; }
            if (what == 7) re.send(g); else re.emit(std::make_unique<Go>(g));
        }
        else if (what == 8) { if (d & 1) re.change(); else re.emit(std::make_unique<Rebind>()); }
        else if (reconf) {
            bool now;
            { sim::Quiet q; now = sim::chance(1, 4); }
            if (now) {
                re.configure();
                { sim::Quiet q; if (sim::chance(1, 2)) d = 0; }
            }
        }
        if (d) sim::sleep_ns(d);
    }
    sim::stop_faults();
    sim::fair_from_now();
    const bool joined = settle(9000);
    int who = 0;
    {
        sim::Quiet q;
        if (!joined) sim::fail("membership", "the plant and the other nodes are not connected 9 s after all faults stopped");
        w.configuring = false;
    }
    auto arrived = [&] { sim::Quiet q; return missing(&who) == nullptr; };
    auto wait_all = [&](int ms) { for (int i = 0; i < ms / 10 && !arrived(); ++i) sim::sleep_ns(10 * MS); };
    wait_all(20000);
    auto judge = [&] {
        sim::Quiet q;
        const Msg* m = missing(&who);
        if (m && m->raw >= 0) sim::fail("lost", "a reliable message (%s) of a node was not delivered to Network reaction %d of the plant", m->big ? "big" : "small", who);
        if (m) sim::fail("lost", "a reliable message (%s, %zu bytes) emitted by the plant was not delivered to node %d", m->big ? "big" : "small", m->size, who + 1);
    };
    judge();
    // From here everything has to work
    for (int k = 0; k < 6; ++k) {
        for (int a = 0; a < w.n; ++a) raw_send(a, k == 0, true, k % 2 == 0, 300, false);
        re.send(Go{k % 3 == 0 ? -1 : 0, 0, true, k % 2 == 0, 2000});
    }
    wait_all(8000);
    judge();
    const size_t before = w.announced.size();
    sim::sleep_ns(3000 * MS);
    {
        sim::Quiet q;
        if (w.announced.size() < before + 4) sim::fail("silent", "the plant announced itself %zu times in 3 s", w.announced.size() - before);
        if (w.announced.size() > before + 12) sim::fail("noisy", "the plant announced itself %zu times in 3 s", w.announced.size() - before);
        if (!all_connected()) sim::fail("membership", "the plant and the other nodes lost each other without any faults");
    }
    plant->shutdown();
    th.join();
    plant.reset();
    sim::sleep_ns(400 * MS);
    {
        sim::Quiet q;
        for (auto& r : w.raw)
            for (auto& l : r.link)
                if (l.second.member && l.first == w.port) sim::fail("goodbye", "400 ms after the plant was shut down node %d still counts it among its peers", r.id + 1);
    }
    for (auto& r : w.raw) { { sim::Quiet q; r.stop = true; } r.loop.join(); sim::net::set_node(r.id + 1); r.net->shutdown(); r.net.reset(); sim::net::set_node(15); }
    sim::Quiet q;
    (void)started;
    if (sim::net::open_fds() > base_fds) sim::fail("descriptor", "%d sockets are still open", int(sim::net::open_fds() - base_fds));
    if (w.n_got >= 5 && w.n_raw_got >= 3) sim::nontrivial();
    if (w.n_conf > 1) sim::probe("reconfigured");
    if (w.n_bad) sim::probe("undecodable");
    if (w.n_rebind) sim::probe("rebound");
    sim::sample("%d nodes, mode %d, %lu executions, %lu messages out, %lu joins, %lu leaves, %lu configurations, %lu undecodable", w.n, w.mode, (unsigned long)w.n_got, (unsigned long)w.n_raw_got, (unsigned long)w.n_join, (unsigned long)w.n_leave, (unsigned long)w.n_conf, (unsigned long)w.n_bad);
}
