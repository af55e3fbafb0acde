// Descriptors opened, bound, written, disabled, rebound, closed and reused by several threads; reactions reading, writing,
// throwing and unbinding themselves; interrupted polls.
#include <arpa/inet.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include <nuclear>
#include <string>
#include <thread>
#include <vector>
#include "sim.hpp"
const char* const scenario_property = "O16";
namespace {
namespace word = NUClear::dsl::word;
using NUClear::threading::ReactionHandle;
using IO = word::IO;
struct PA { static constexpr const char* name = "PA"; static constexpr int concurrency = 2; };
struct SG {};

// One binding of one reaction to one descriptor
struct Bound {
    int id, fd, wfd;
    int want;
    const char* what;
    bool writer = false;         // a WRITE reaction
    int in = 0;
    uint64_t runs = 0, got = 0, threw = 0;
    bool sent_ok = true;
    uint64_t first = 0;          // sequence of the first byte it may see
    uint64_t* next = nullptr;    // shared with the channel: next byte expected
    uint64_t quota = 0, wrote = 0;
    bool saw_close = false, closed_writer = false, unbound = false, retired = false, settled = false;
    uint64_t runs_at_unbind = 0;
    bool inline_always = false;
    ReactionHandle h = ReactionHandle();
};
struct World {
    std::vector<Bound*> all;
    bool throws = false, closing = false;
    int listener = -1;
    uint16_t port = 0;
    uint64_t late = 0, bytes = 0, closes = 0, writes = 0, rebinds = 0, disables = 0, duplex = 0, events = 0, reused = 0, thrown = 0;
    std::set<int> used;
    NUClear::PowerPlant* plant = nullptr;
    class R* reactor = nullptr;
};
World* W;
bool is_ready(int fd, short ev) {
    pollfd p{fd, ev, 0};
    int n;
    do n = ::poll(&p, 1, 0); while (n < 0);   // interrupted
    return n == 1 && (p.revents & ev);
}
bool readable(int fd) { return is_ready(fd, POLLIN); }
bool writable(int fd) { return is_ready(fd, POLLOUT); }

void fired(Bound* b, const IO::Event& ev) {
    int extra;
    bool thr;
    size_t amount;
    bool self_unbind;
    bool can;
    {
        sim::Quiet q;
        ++b->runs; ++W->events;
        if (b->unbound && b->settled) sim::fail("after-unbind", "%s on fd %d was executed for an event that happened after unbind() had returned", b->what, b->fd);
        if (b->unbound && b->runs > b->runs_at_unbind + 1) sim::fail("after-unbind", "%s on fd %d was executed twice after unbind() had returned", b->what, b->fd);
        if (b->retired) { ++W->late; return; }   // queued before it was unbound
        if (++b->in > 1) sim::fail("concurrent", "%s on fd %d executes concurrently with itself", b->what, b->fd);
        if (ev.fd != b->fd) sim::fail("wrong-fd", "%s bound to fd %d got an event of fd %d", b->what, b->fd, ev.fd);
        if (ev.events == 0 || (ev.events & ~(b->want | IO::CLOSE))) sim::fail("wrong-event", "%s asked for events 0x%x and got 0x%x", b->what, b->want, ev.events);
        if ((ev.events & IO::CLOSE) && !b->closed_writer) sim::fail("false-close", "%s on fd %d was told that it was closed, which it was not (events 0x%x)", b->what, b->fd, ev.events);
        if (b->saw_close) sim::fail("doubled-close", "%s on fd %d was executed again after it had been told of the close", b->what, b->fd);
        extra = int(sim::choose(3));
        thr   = W->throws && sim::chance(1, 3);
        amount = size_t(sim::range(1, 4));
        self_unbind = b->writer && b->wrote >= b->quota;
    }
    if (extra == 1) sim::sleep_ns(int64_t(sim::pick_log(100, 40000)));
    else if (extra == 2) sim::yield();
    if (ev.events & IO::READ) {
        { sim::Quiet q; can = readable(b->fd); }
        if (!can) sim::fail("false-read", "%s on fd %d was told that it can be read, which it cannot (events 0x%x)", b->what, b->fd, ev.events);
        uint8_t buf[64];
        do {
            const ssize_t n = ::read(b->fd, buf, (ev.events & IO::CLOSE) ? sizeof buf : amount);
            if (n <= 0) break;
            sim::Quiet q;
            for (ssize_t i = 0; i < n; ++i) { if (buf[i] != uint8_t(*b->next)) sim::fail("data", "wrong byte on fd %d", b->fd); ++*b->next; }
            b->got += uint64_t(n);
            W->bytes += uint64_t(n);
        } while ((ev.events & IO::CLOSE) && readable(b->fd));
    }
    if ((ev.events & IO::WRITE) && !self_unbind) {
        { sim::Quiet q; can = writable(b->fd); }
        if (!can) sim::fail("false-write", "%s on fd %d was told that it can be written, which it cannot", b->what, b->fd);
        uint8_t buf[8000];
        { sim::Quiet q; for (size_t i = 0; i < sizeof buf; ++i) buf[i] = uint8_t(b->wrote + i); }
        const size_t n = size_t(std::min<uint64_t>(amount * 2000, b->quota - b->wrote));
        const ssize_t k = ::write(b->fd, buf, n);
        sim::Quiet q;
        if (k > 0) { b->wrote += uint64_t(k); W->writes += uint64_t(k); }
    }
    if (self_unbind) { b->h.unbind(); sim::Quiet q; b->unbound = true; b->runs_at_unbind = b->runs; }
    if (ev.events & IO::CLOSE) { sim::Quiet q; b->saw_close = true; ++W->closes; }
    {
        sim::Quiet q;
        --b->in;
        if (thr) { ++b->threw; ++W->thrown; sim::count_fault("callback-exception"); }
    }
    if (thr) throw std::runtime_error("io callback");
}
class R : public NUClear::Reactor {
public:
    Bound* add(int fd, int events, uint64_t* next, int variant, uint64_t quota = 0) {
        Bound* b;
        {
            sim::Quiet q;
            b = new Bound();
            b->id = int(W->all.size()); b->fd = fd; b->want = events; b->next = next; b->quota = quota;
            b->writer = (events & IO::WRITE) != 0;
            W->all.push_back(b);
        }
        auto f = [b](const IO::Event& ev) { fired(b, ev); };
        ReactionHandle h;
        const auto ev = NUClear::dsl::word::event_t(events);
        const char* what;
        switch (variant) {
            case 0: what = "IO"; h = on<IO>(fd, ev).then(std::move(f)); break;
            case 1: what = "IO, Sync"; h = on<IO, Sync<SG>>(fd, ev).then(std::move(f)); break;
            case 2: what = "IO, Pool<2>"; h = on<IO, Pool<PA>>(fd, ev).then(std::move(f)); break;
            case 3: what = "IO, MainThread"; h = on<IO, MainThread>(fd, ev).then(std::move(f)); break;
            case 4: what = "IO, Priority::HIGH"; h = on<IO, Priority::HIGH>(fd, ev).then(std::move(f)); break;
            case 5: what = "IO, Single"; h = on<IO, Single>(fd, ev).then(std::move(f)); break;
            default: what = "IO, Inline::ALWAYS"; h = on<IO, Inline::ALWAYS>(fd, ev).then(std::move(f)); break;
        }
        sim::Quiet q;
        b->what = what;
        b->h = h;
        return b;
    }
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) { W->reactor = this; }
};
uint64_t pick(uint64_t n) { sim::Quiet q; return sim::choose(n); }
void gap() { const int64_t d = int64_t(sim::pick_log(100, 100000)); sim::sleep_ns(d); }
template <class F> bool until(F f) {
    for (int i = 0; i < 800; ++i) {
        { sim::Quiet q; if (f()) return true; }
        if (i == 400) { sim::stop_faults(); sim::fair_from_now(); }   // nothing may starve it from here on
        sim::sleep_ns(50000);
    }
    return false;
}
// Without anything left to do for it when it is unbound (settled), it must not be executed at all any more; otherwise one
// execution may have been queued.
void retire(Bound* b, bool settled) {
    if (b->unbound) return;
    { sim::Quiet q; b->retired = true; b->settled = settled && b->in == 0; }
    b->h.unbind();
    { sim::Quiet q; b->runs_at_unbind = b->runs; b->unbound = true; }
    if (!until([b] { return b->in == 0; })) sim::fail("stuck", "%s never finished", b->what);
}
// open one channel -> {reading descriptor, writing descriptor}
bool open_channel(int kind, int* fd) {
    if (kind == 0) return ::pipe(fd) == 0;
    const int c = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_port = htons(W->port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (c < 0 || ::connect(c, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) return false;
    const int s = ::accept(W->listener, nullptr, nullptr);
    if (s < 0) return false;
    fd[0] = s; fd[1] = c;
    return true;
}
std::mutex* open_mutex;
void send_some(int wfd, uint64_t* seq, uint64_t n) {
    uint8_t buf[8];
    { sim::Quiet q; for (uint64_t i = 0; i < n; ++i) buf[i] = uint8_t((*seq)++); }
    if (::write(wfd, buf, n) != ssize_t(n)) sim::fail("setup", "write of the peer failed");
}
void owner() {
    const int iters = int(pick(3)) + 1;
    for (int it = 0; it < iters; ++it) {
        int fd[2];
        const int kind = int(pick(3)) ? 0 : 1;
        { std::lock_guard<std::mutex> l(*open_mutex); if (!open_channel(kind, fd)) sim::fail("setup", "cannot open a channel"); }
        { sim::Quiet q; if (!W->used.insert(fd[0]).second) ++W->reused; }
        uint64_t sent = 0, next = 0;
        const int use = int(pick(5));
        if (use == 4 && kind == 1) {
            // two reactions on one descriptor, one that reads and one that writes
            const uint64_t quota = (1 + pick(10)) * 8000;
            const int want = pick(2) ? IO::READ : (IO::READ | IO::CLOSE);
            Bound *rd, *wr;
            if (pick(2)) { rd = W->reactor->add(fd[0], want, &next, int(pick(7))); wr = W->reactor->add(fd[0], IO::WRITE, nullptr, int(pick(7)), quota); }
            else { wr = W->reactor->add(fd[0], IO::WRITE, nullptr, int(pick(7)), quota); rd = W->reactor->add(fd[0], want, &next, int(pick(7))); }
            { sim::Quiet q; ++W->duplex; }
            uint64_t got = 0;
            bool bound = true;
            const int rounds = int(pick(8)) + 2;
            auto take = [&](bool all) {
                uint8_t buf[4096];
                bool more;
                do {
                    { sim::Quiet q; more = readable(fd[1]); }
                    if (!more) return;
                    const ssize_t n = ::read(fd[1], buf, sizeof buf);
                    sim::Quiet q;
                    for (ssize_t i = 0; i < n; ++i) { if (buf[i] != uint8_t(got)) sim::fail("data", "wrong byte written"); ++got; }
                } while (all);
            };
            for (int r = 0; r < rounds; ++r) {
                switch (pick(5)) {
                    case 0: send_some(fd[1], &sent, 1 + pick(6)); break;
                    case 1: take(false); break;
                    case 2: take(true); break;
                    case 3: gap(); break;
                    default:   // the reader must get what was sent while the writer waits for space
                        if (!until([&] { return next == sent; })) sim::fail("lost-read", "%s: fd %d can be read (%d) but its reaction was not executed for 40 ms: %lu of %lu bytes, beside a writer with %lu of %lu", rd->what, rd->fd, readable(rd->fd), (unsigned long)next, (unsigned long)sent, (unsigned long)wr->wrote, (unsigned long)quota);
                        if (pick(4) == 0) { retire(rd, false); bound = false; r = rounds; }
                        break;
                }
            }
            if (bound && !until([&] { return next == sent; })) sim::fail("lost-read", "%s: fd %d can be read (%d) but its reaction was not executed for 40 ms: %lu of %lu bytes, beside a writer with %lu of %lu", rd->what, rd->fd, readable(rd->fd), (unsigned long)next, (unsigned long)sent, (unsigned long)wr->wrote, (unsigned long)quota);
            while (got < quota) {
                if (!until([&] { return readable(fd[1]); })) sim::fail("lost-write", "%s: fd %d can be written (%d) and nothing was written for 40 ms: %lu of %lu bytes, executed %lu times, %lu threw, beside a reader", wr->what, wr->fd, writable(fd[0]), (unsigned long)wr->wrote, (unsigned long)quota, (unsigned long)wr->runs, (unsigned long)wr->threw);
                take(pick(2) != 0);
            }
            if (bound) retire(rd, false);
            retire(wr, false);
        }
        else if (use >= 3) {
            // a reaction that writes
            const uint64_t quota = kind == 0 ? (1 + pick(12)) * 10000 : (1 + pick(3)) * 3000;
            Bound* b = W->reactor->add(fd[1], IO::WRITE, nullptr, int(pick(7)), quota);
            uint64_t got = 0;
            while (true) {
                gap();
                uint8_t buf[4096];
                bool more;
                { sim::Quiet q; more = readable(fd[0]); }
                if (!more) {
                    if (!until([&] { return readable(fd[0]) || b->wrote >= b->quota; })) sim::fail("lost-write", "%s: fd %d can be written (%d) and nothing was written for 40 ms: %lu of %lu bytes, executed %lu times, %lu threw", b->what, b->fd, writable(fd[1]), (unsigned long)b->wrote, (unsigned long)b->quota, (unsigned long)b->runs, (unsigned long)b->threw);
                    { sim::Quiet q; more = readable(fd[0]); }
                    if (!more) break;
                }
                const ssize_t n = ::read(fd[0], buf, sizeof buf);
                sim::Quiet q;
                for (ssize_t i = 0; i < n; ++i) { if (buf[i] != uint8_t(got)) sim::fail("data", "wrong byte written"); ++got; }
                if (got >= b->quota) break;
            }
            retire(b, false);
        }
        else {
            int want = (use == 0) ? IO::READ : (IO::READ | IO::CLOSE);
            Bound* b = nullptr;
            if (pick(4) == 0) send_some(fd[1], &sent, 1 + pick(3));   // before anything is bound
            b = W->reactor->add(fd[0], want, &next, int(pick(7)));
            const int rounds = int(pick(4)) + 1;
            for (int r = 0; r < rounds; ++r) {
                switch (pick(6)) {
                    default: send_some(fd[1], &sent, 1 + pick(6)); break;
                    case 1: gap(); break;
                    case 2: {   // disable, and enable again
                        b->h.disable();
                        { sim::Quiet q; ++W->disables; }
                        if (pick(2)) send_some(fd[1], &sent, 1 + pick(3));
                        gap();
                        b->h.enable();
                        break;
                    }
                    case 3: {   // unbind and bind again
                        const bool settled = pick(2) && until([&] { return next == sent && b->in == 0; });
                        retire(b, settled);
                        if (pick(2)) { send_some(fd[1], &sent, 1 + pick(3)); gap(); }
                        { sim::Quiet q; ++W->rebinds; }
                        b = W->reactor->add(fd[0], want, &next, int(pick(7)));
                        break;
                    }
                }
                if (pick(2)) gap();
            }
            if (!until([&] { return next == sent; })) sim::fail("lost-read", "%s: fd %d can be read (%d) but its reaction was not executed for 40 ms: %lu of %lu bytes, executed %lu times, %lu threw, enabled %d", b->what, b->fd, readable(b->fd), (unsigned long)next, (unsigned long)sent, (unsigned long)b->runs, (unsigned long)b->threw, b->h.enabled());
            if ((want & IO::CLOSE) && pick(3)) {
                if (pick(2)) send_some(fd[1], &sent, 1 + pick(3));
                { sim::Quiet q; b->closed_writer = true; }
                ::close(fd[1]);
                fd[1] = -1;
                if (!until([&] { return b->saw_close && b->in == 0; })) sim::fail("lost-close", "%s: the other end of fd %d was closed and its reaction was not told within 40 ms (%lu of %lu bytes read)", b->what, b->fd, (unsigned long)next, (unsigned long)sent);
                { sim::Quiet q; if (next != sent) sim::fail("lost-read", "%s: %lu of %lu bytes were read before the close", b->what, (unsigned long)next, (unsigned long)sent); }
            }
            const bool settled = b->saw_close || (pick(2) && until([&] { return b->in == 0; }));
            retire(b, settled);
            if (fd[1] >= 0 && pick(2)) { send_some(fd[1], &sent, 1); gap(); }
        }
        ::close(fd[0]);
        if (fd[1] >= 0) ::close(fd[1]);
    }
}
}  // namespace
void scenario() {
    NUClear::Configuration c;
    World* w;
    int nthreads, low;
    bool eintr;
    {
        sim::Quiet q;
        W = w = new World();
        open_mutex = new std::mutex();
        w->throws = sim::chance(1, 3);
        c.default_pool_concurrency = int(sim::range(1, 3));
        nthreads = int(sim::range(1, 4));
        low = int(sim::choose(4));
        eintr = sim::chance(1, 3);
    }
    sim::no_stalls();
    sim::net::Config nc;
    if (eintr) nc.eintr = 50;
    sim::net::configure(nc);
    // some low descriptors that become free later, so that user descriptors lie on both sides of the controller's own
    std::vector<int> hold;
    for (int i = 0; i < low; ++i) { int p[2]; if (::pipe(p) == 0) { sim::Quiet q; hold.push_back(p[0]); hold.push_back(p[1]); } }
    NUClear::PowerPlant plant(c);
    w->plant = &plant;
    plant.install<NUClear::extension::IOController>();
    plant.install<R>();
    w->listener = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::bind(w->listener, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || ::listen(w->listener, 10) != 0) sim::fail("setup", "listener");
    socklen_t len = sizeof a;
    ::getsockname(w->listener, reinterpret_cast<sockaddr*>(&a), &len);
    w->port = ntohs(a.sin_port);
    for (int f : hold) ::close(f);
    std::thread driver([&] {
        sim::sleep_ns(1000000);
        std::vector<std::thread> t;
        for (int i = 0; i < nthreads; ++i) t.emplace_back(owner);
        for (auto& x : t) x.join();
        { sim::Quiet q; w->closing = true; }
        plant.shutdown();
    });
    plant.start();
    driver.join();
    sim::Quiet q;
    for (auto* b : w->all) { b->h = ReactionHandle(); if (b->in) sim::fail("running", "a callback was still executing after start() returned"); }
    sim::sample("%zu bindings, %lu events, %lu bytes read, %lu written, %lu closes, %lu rebinds, %lu disables, %lu descriptors reused, %lu exceptions", w->all.size(), (unsigned long)w->events, (unsigned long)w->bytes, (unsigned long)w->writes, (unsigned long)w->closes, (unsigned long)w->rebinds, (unsigned long)w->disables, (unsigned long)w->reused, (unsigned long)w->thrown);
    if (w->closes) sim::probe("close-event");
    if (w->reused) sim::probe("descriptor-reused");
    if (w->rebinds) sim::probe("rebound");
    if (w->disables) sim::probe("disabled-and-enabled");
    if (w->writes) sim::probe("write-event");
    if (w->duplex) sim::probe("reader-and-writer-on-one-descriptor");
    if (w->thrown) sim::probe("callback-threw");
    if (w->events >= 2) sim::nontrivial();
    delete open_mutex;
}
