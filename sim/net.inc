// Descriptors, pipes, sockets and the network between the simulated nodes. No descriptor of the host is ever used.
namespace sim {
namespace net {

struct Addr {          // v4 addresses are kept in mapped form
    int fam;           // AF_INET / AF_INET6 / 0
    uint8_t ip[16];
    uint16_t port;     // host order
};
struct Seg { Seg* next; uint8_t* d; size_t n, off; Addr from, to; };
enum ObjKind : int { O_PIPE, O_UDP, O_LISTEN, O_TCP, O_SOCK };
struct Obj {
    int kind, node, id;
    int readers, writers;      // pipe ends
    bool closed, nonblock, bound, connected, broadcast, pktinfo, reuse_addr, reuse_port, rx_shut, tx_shut, peer_gone, reset;
    int fam, type;
    Addr local, remote;
    Seg *head, *tail;          // received data / datagrams
    size_t queued, bytes;
    Obj* peer;
    Obj* acceptq[64];
    int nacc;
    Addr groups[8];
    int ngroups;
    int64_t last_arrival;
    size_t flight;          // bytes sent to it that have not arrived
    Obj* next_all;
    int refs;
};
constexpr int MAXFD = 256;
struct Fd { Obj* o; bool wr; bool rd; int flags; };
struct Tapped { };
struct NetState {
    Fd fd[MAXFD];
    Obj* all;
    int nobj;
    Config cfg;
    uint8_t cut[16][16];
    bool dead[16];
    uint16_t next_port[16];
    Tap tap;
    uint64_t in_flight, delivered, aborted;
    int blocked_recv, tap_to;
    int64_t last_path[16][16];
};
static NetState* const N = reinterpret_cast<NetState*>(GLOBAL_BASE + 0x40000000ULL);

static void v4_to(uint8_t* ip, uint32_t host) {
    memset(ip, 0, 10); ip[10] = ip[11] = 0xff;
    ip[12] = (uint8_t)(host >> 24); ip[13] = (uint8_t)(host >> 16); ip[14] = (uint8_t)(host >> 8); ip[15] = (uint8_t)host;
}
static uint32_t v4_of(const Addr& a) { return (uint32_t)a.ip[12] << 24 | (uint32_t)a.ip[13] << 16 | (uint32_t)a.ip[14] << 8 | a.ip[15]; }
static Addr mk4(uint32_t host, uint16_t port) { Addr a{}; a.fam = AF_INET; v4_to(a.ip, host); a.port = port; return a; }
static Addr node_addr(int fam, int node, uint16_t port) {
    if (fam == AF_INET) return mk4(0x0a000001u + (uint32_t)node, port);
    Addr a{}; a.fam = AF_INET6; a.ip[0] = 0xfd; a.ip[15] = (uint8_t)(node + 1); a.port = port;
    return a;
}
static bool is_any(const Addr& a) {
    if (a.fam == AF_INET) return v4_of(a) == 0;
    for (int i = 0; i < 16; ++i) if (a.ip[i]) return false;
    return true;
}
static bool is_loop(const Addr& a) {
    if (a.fam == AF_INET) return a.ip[12] == 127;
    for (int i = 0; i < 15; ++i) if (a.ip[i]) return false;
    return a.ip[15] == 1;
}
static bool is_mcast(const Addr& a) { return a.fam == AF_INET ? (a.ip[12] & 0xf0) == 0xe0 : a.ip[0] == 0xff; }
static bool is_bcast(const Addr& a) { return a.fam == AF_INET && (v4_of(a) == 0xffffffffu || v4_of(a) == 0x0a0000ffu || v4_of(a) == 0x7fffffffu); }
static bool same_ip(const Addr& a, const Addr& b) { return a.fam == b.fam && !memcmp(a.ip, b.ip, 16); }
// node the address belongs to as seen from `from`, -1 none
static int node_of(const Addr& a, int from) {
    if (is_loop(a)) return from;
    if (is_any(a)) return from;
    if (a.fam == AF_INET) { uint32_t v = v4_of(a) - 0x0a000001u; return v < 16 ? (int)v : -1; }
    if (a.ip[0] == 0xfd) { for (int i = 1; i < 15; ++i) if (a.ip[i]) return -1; return a.ip[15] >= 1 && a.ip[15] <= 16 ? a.ip[15] - 1 : -1; }
    return -1;
}
static Addr from_sa(const struct sockaddr* s, socklen_t n) {
    Addr a{};
    if (s == nullptr || n < 2) return a;
    if (s->sa_family == AF_INET && n >= sizeof(sockaddr_in)) {
        const sockaddr_in* i = (const sockaddr_in*)s;
        a = mk4(ntohl(i->sin_addr.s_addr), ntohs(i->sin_port));
    }
    else if (s->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6)) {
        const sockaddr_in6* i = (const sockaddr_in6*)s;
        a.fam = AF_INET6; memcpy(a.ip, &i->sin6_addr, 16); a.port = ntohs(i->sin6_port);
    }
    return a;
}
static socklen_t to_sa(const Addr& a, struct sockaddr* s, socklen_t cap) {
    if (a.fam == AF_INET6) {
        sockaddr_in6 i{}; i.sin6_family = AF_INET6; memcpy(&i.sin6_addr, a.ip, 16); i.sin6_port = htons(a.port);
        memcpy(s, &i, cap < sizeof i ? cap : sizeof i);
        return sizeof i;
    }
    sockaddr_in i{}; i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(v4_of(a)); i.sin_port = htons(a.port);
    memcpy(s, &i, cap < sizeof i ? cap : sizeof i);
    return sizeof i;
}
static Obj* obj(int fd) { return fd >= 0 && fd < MAXFD ? N->fd[fd].o : nullptr; }
static int new_fd(Obj* o, bool rd, bool wr) {
    for (int i = 3; i < MAXFD; ++i)
        if (!N->fd[i].o) { N->fd[i] = Fd{o, wr, rd, 0}; o->refs++; return i; }
    errno = EMFILE;
    return -1;
}
static Obj* new_obj(int kind) {
    Obj* o = (Obj*)halloc(sizeof(Obj));
    memset(o, 0, sizeof *o);
    o->kind = kind; o->node = G->cur->node; o->id = ++N->nobj;
    o->next_all = N->all; N->all = o;
    return o;
}
static void push_seg(Obj* o, const void* d, size_t n, const Addr& from, const Addr& to) {
    Seg* s = (Seg*)halloc(sizeof(Seg));
    s->next = nullptr; s->n = n; s->off = 0; s->from = from; s->to = to;
    s->d = (uint8_t*)halloc(n ? n : 1);
    memcpy(s->d, d, n);
    if (o->tail) o->tail->next = s; else o->head = s;
    o->tail = s; o->queued++; o->bytes += n;
}
static void pop_seg(Obj* o) {
    Seg* s = o->head;
    o->head = s->next; if (!o->head) o->tail = nullptr;
    o->queued--; o->bytes -= s->n - s->off;
}
static bool port_used(int node, int type, const Addr& a, const Obj* me) {
    for (Obj* o = N->all; o; o = o->next_all)
        if (!o->closed && o->bound && o->node == node && o->type == type && o->local.port == a.port && o != me && o->kind != O_TCP) {
            if (o->fam == a.fam && !is_any(o->local) && !is_any(a) && !same_ip(o->local, a)) continue;
            if (o->fam != a.fam) continue;
            if (me && me->type == SOCK_DGRAM && ((me->reuse_port && o->reuse_port) || (me->reuse_addr && o->reuse_addr))) continue;
            return true;
        }
    return false;
}
static bool auto_bind(Obj* o, Addr a) {
    if (a.port == 0) {
        for (int k = 0; k < 20000; ++k) {
            uint16_t& np = N->next_port[o->node];
            a.port = np++;
            if (np < 32768) np = 32768;
            if (!port_used(o->node, o->type, a, nullptr)) break;
        }
    }
    o->local = a; o->bound = true;
    return true;
}
constexpr size_t TCP_BUFFER = 24000;   // received and not read
static short ready(Obj* o, bool rd, bool wr) {
    short r = 0;
    switch (o->kind) {
        case O_PIPE:
            if (rd) { if (o->bytes) r |= POLLIN | POLLRDNORM; if (o->writers == 0) r |= POLLHUP; }
            if (wr) { if (o->bytes < 65536) r |= POLLOUT | POLLWRNORM; if (o->readers == 0) r |= POLLERR; }
            break;
        case O_UDP: if (o->head || o->rx_shut) r |= POLLIN | POLLRDNORM; r |= POLLOUT | POLLWRNORM; break;
        case O_LISTEN: if (o->nacc) r |= POLLIN | POLLRDNORM; break;
        case O_TCP:
            if (o->bytes || o->peer_gone || o->rx_shut) r |= POLLIN | POLLRDNORM;
            if (o->peer_gone) r |= POLLRDHUP;
            if (o->reset) r |= POLLERR | POLLHUP | POLLIN;
            if ((o->peer_gone || o->rx_shut) && o->tx_shut) r |= POLLHUP;
            if (o->connected && (o->peer == nullptr || o->peer->bytes + o->peer->flight < TCP_BUFFER)) r |= POLLOUT | POLLWRNORM;
            break;
        case O_SOCK: r |= POLLOUT | POLLHUP; break;
    }
    return r;
}
static void sys_enter(uint64_t pc) { if (active()) sync_point(pc); step_syscall(300); }
static void buf_check(const void* p, size_t n, bool w, uint64_t pc) { if (active()) range(p, n, w, pc); }

// ---------------------------------------------------------------- the wire
struct Flight { Addr src, dst; int node, to; uint8_t* d; size_t n; };
static void tap_out(const Addr& s, const Addr& d, const uint8_t* p, size_t n, int fate) {
    if (N->tap) { Quiet q; N->tap(v4_of(s), s.port, v4_of(d), d.port, p, n, fate); }
}
static bool udp_match(Obj* o, int node, const Addr& dst) {
    return o->kind == O_UDP && !o->closed && o->node == node && o->bound && o->local.port == dst.port && o->fam == dst.fam && !o->rx_shut;
}
static bool udp_put(Obj* o, const Flight& f) {
    if (o->connected && (!same_ip(o->remote, f.src) || o->remote.port != f.src.port)) return false;
    if (o->queued >= 256 || o->bytes > 212992) { fault_count("rcvbuf-overflow", 1); tap_out(f.src, f.dst, f.d, f.n, 3); return false; }
    push_seg(o, f.d, f.n, f.src, f.dst);
    N->delivered++;
    return true;
}
static void deliver_udp(void* p) {
    Flight& f = *(Flight*)p;
    N->in_flight--;
    if (f.node != f.to && (N->cut[f.node][f.to] || N->dead[f.to])) { tap_out(f.src, f.dst, f.d, f.n, 2); return; }
    bool any = false;
    if (is_mcast(f.dst) || is_bcast(f.dst)) {
        bool member = is_bcast(f.dst);
        for (Obj* o = N->all; o && !member; o = o->next_all)
            if (o->kind == O_UDP && !o->closed && o->node == f.to)
                for (int i = 0; i < o->ngroups; ++i) if (same_ip(o->groups[i], f.dst)) member = true;
        if (member)
            for (Obj* o = N->all; o; o = o->next_all)
                if (udp_match(o, f.to, f.dst) && (is_any(o->local) || same_ip(o->local, f.dst))) any |= udp_put(o, f);
    }
    else {
        Obj* c[32]; int n = 0; int best = -1;
        for (Obj* o = N->all; o; o = o->next_all)
            if (udp_match(o, f.to, f.dst) && (is_any(o->local) || same_ip(o->local, f.dst))) {
                int score = (is_any(o->local) ? 0 : 1) + (o->connected ? (same_ip(o->remote, f.src) && o->remote.port == f.src.port ? 4 : -9) : 0);
                if (score < 0) continue;
                if (score > best) { best = score; n = 0; }
                if (score == best && n < 32) c[n++] = o;
            }
        if (n) any = udp_put(c[(f.src.port * 7 + f.src.ip[15]) % n], f);
    }
    N->tap_to = f.to;
    tap_out(f.src, f.dst, f.d, f.n, any ? 1 : 4);
    if (any) wake_io();
}
static void launch(const Addr& src, const Addr& dst, int from, int to, const uint8_t* d, size_t n) {
    const bool local = from == to;
    const Config& c  = N->cfg;
    if (!local) {
        if (N->cut[from][to] || N->dead[to]) { fault_count("partition-drop", 1); tap_out(src, dst, d, n, 2); return; }
        if (c.loss && fault("packet-loss", c.loss, 1000)) { tap_out(src, dst, d, n, 2); return; }
    }
    int copies = 1;
    if (!local && c.dup && fault("packet-dup", c.dup, 1000)) copies = 2;
    for (int k = 0; k < copies; ++k) {
        int64_t delay = local ? 5000 : c.min_delay;
        if (!local && c.jitter > 0) {
            uint64_t j = 0;
            if (G->faults) j = fault_value((uint64_t)c.jitter);
            delay += (int64_t)j;
            if (c.reorder && fault("packet-delay", c.reorder, 1000)) delay += (int64_t)fault_value((uint64_t)c.jitter * 50);
        }
        int64_t at = G->now + delay;
        if (local) { if (at <= N->last_path[from][to]) at = N->last_path[from][to] + 1; N->last_path[from][to] = at; }
        Flight* f = (Flight*)halloc(sizeof(Flight));
        f->src = src; f->dst = dst; f->node = from; f->to = to; f->n = n;
        f->d = (uint8_t*)halloc(n ? n : 1);
        memcpy(f->d, d, n);
        N->in_flight++;
        add_timer(at, deliver_udp, f);
    }
}
static ssize_t udp_send(Obj* o, const uint8_t* d, size_t n, Addr dst) {
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    if (dst.fam == 0) { errno = EDESTADDRREQ; return -1; }
    if (dst.fam != o->fam) { errno = EAFNOSUPPORT; return -1; }
    if (dst.port == 0) { errno = EINVAL; return -1; }
    if (is_bcast(dst) && !o->broadcast) { errno = EACCES; return -1; }
    if (!o->bound) { Addr a{}; a.fam = o->fam; if (a.fam == AF_INET) v4_to(a.ip, 0); auto_bind(o, a); }
    if (N->cfg.send_err && fault("send-error", N->cfg.send_err, 1000)) {
        static const int errs[] = {ENOBUFS, ENETUNREACH, EPERM};
        errno = errs[fault_value(3)];
        return -1;
    }
    Addr src = o->local;
    if (is_any(src)) {
        if (is_loop(dst)) { src = dst; src.port = o->local.port; }
        else src = node_addr(o->fam, o->node, o->local.port);
    }
    if (N->dead[o->node]) return (ssize_t)n;
    if (is_mcast(dst) || is_bcast(dst)) {
        for (int t = 0; t < 16; ++t) {
            bool has = t == o->node;
            for (Obj* x = N->all; x && !has; x = x->next_all) has = x->node == t && x->kind == O_UDP && !x->closed;
            if (is_loop(src) && t != o->node) has = false;
            if (has) launch(src, dst, o->node, t, d, n);
        }
    }
    else {
        int t = node_of(dst, o->node);
        if (t < 0) { tap_out(src, dst, d, n, 4); return (ssize_t)n; }
        if (is_any(dst)) { dst = dst.fam == AF_INET ? mk4(0x7f000001u, dst.port) : dst; if (dst.fam == AF_INET6) dst.ip[15] = 1; }
        launch(src, dst, o->node, t, d, n);
    }
    return (ssize_t)n;
}

// ---------------------------------------------------------------- TCP
struct TcpEv { Obj* o; int what; uint8_t* d; size_t n; Addr a; };
static void tcp_event(void* p) {
    TcpEv& e = *(TcpEv*)p;
    Obj* o   = e.o;
    if (e.what == 0) {
        o->flight -= e.n;
        if (o->closed) { if (o->peer && !o->peer->closed) { o->peer->reset = true; } }
        else push_seg(o, e.d, e.n, e.a, e.a);
    }
    else if (e.what == 1) o->peer_gone = true;
    else if (e.what == 2) { o->reset = true; o->peer_gone = true; }
    wake_io();
}
static void tcp_post(Obj* to, int from, int what, const uint8_t* d, size_t n, const Addr& a) {
    TcpEv* e = (TcpEv*)halloc(sizeof(TcpEv));
    e->o = to; e->what = what; e->n = n; e->a = a; e->d = nullptr; to->flight += n;
    if (n) { e->d = (uint8_t*)halloc(n); memcpy(e->d, d, n); }
    int64_t delay = from == to->node ? 5000 : N->cfg.min_delay + (int64_t)(G->faults && N->cfg.jitter ? fault_value((uint64_t)N->cfg.jitter) : 0);
    int64_t at    = G->now + delay;
    if (at <= to->last_arrival) at = to->last_arrival + 1;
    to->last_arrival = at;
    add_timer(at, tcp_event, e);
}
static void obj_close(Obj* o) {
    o->closed = true;
    if (o->kind == O_TCP && o->peer && !o->peer->closed) tcp_post(o->peer, o->node, o->bytes ? 2 : 1, nullptr, 0, o->local);
    if (o->kind == O_LISTEN)
        for (int i = 0; i < o->nacc; ++i)
            if (!o->acceptq[i]->closed) { o->acceptq[i]->closed = true; if (o->acceptq[i]->peer) tcp_post(o->acceptq[i]->peer, o->node, 2, nullptr, 0, o->local); }
}
// Wait until cond(o) or error. Returns false and sets errno on non-blocking.
template <typename C>
static bool wait_io(Obj* o, bool dontwait, C cond) {
    while (!cond()) {
        if (dontwait) { errno = EAGAIN; return false; }
        N->blocked_recv++;
        block(W_IO, o, -1);
        N->blocked_recv--;
    }
    return true;
}
static ssize_t do_recv(int fd, const struct iovec* iov, size_t niov, int flags, Addr* from, Addr* to, bool* trunc, uint64_t pc) {
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    size_t cap = 0;
    for (size_t i = 0; i < niov; ++i) { cap += iov[i].iov_len; buf_check(iov[i].iov_base, iov[i].iov_len, true, pc); }
    auto copy = [&](const uint8_t* d, size_t n) {
        size_t done = 0;
        for (size_t i = 0; i < niov && done < n; ++i) {
            size_t k = n - done < iov[i].iov_len ? n - done : iov[i].iov_len;
            memcpy(iov[i].iov_base, d + done, k);
            done += k;
        }
        return done;
    };
    switch (o->kind) {
        case O_UDP: {
            if (N->cfg.recv_err && fault("recv-error", N->cfg.recv_err, 1000)) {
                static const int errs[] = {EINTR, ECONNREFUSED, ENOMEM, EAGAIN};
                errno = errs[fault_value(nb ? 4 : 3)];
                return -1;
            }
            if (!wait_io(o, nb, [&] { return o->head || o->rx_shut; })) return -1;
            if (!o->head) return 0;
            Seg* s = o->head;
            if (from) *from = s->from;
            if (to) *to = s->to;
            if (trunc) *trunc = s->n > cap;
            size_t n = copy(s->d, s->n < cap ? s->n : cap);
            size_t full = s->n;
            if (!(flags & MSG_PEEK)) pop_seg(o);
            return (ssize_t)((flags & MSG_TRUNC) ? full : n);
        }
        case O_PIPE:
        case O_TCP: {
            if (o->kind == O_PIPE && !N->fd[fd].rd) { errno = EBADF; return -1; }
            if (cap == 0) return 0;
            auto eof = [&] { return o->kind == O_PIPE ? o->writers == 0 : (o->peer_gone || o->rx_shut || o->reset); };
            if (!wait_io(o, nb, [&] { return o->bytes > 0 || eof(); })) return -1;
            if (o->kind == O_TCP && o->reset && o->bytes == 0) { errno = ECONNRESET; return -1; }
            size_t done = 0;
            size_t lim = cap;
            if (lim > 1 && N->cfg.short_io && fault("short-read", N->cfg.short_io, 1000)) lim = 1 + fault_value(lim - 1);
            for (size_t i = 0; i < niov && done < lim; ++i) {
                size_t io = 0;
                while (io < iov[i].iov_len && done < lim && o->head) {
                    Seg* s = o->head;
                    size_t k = s->n - s->off;
                    if (k > iov[i].iov_len - io) k = iov[i].iov_len - io;
                    if (k > lim - done) k = lim - done;
                    memcpy((uint8_t*)iov[i].iov_base + io, s->d + s->off, k);
                    s->off += k; o->bytes -= k; io += k; done += k;
                    if (s->off == s->n) { o->head = s->next; if (!o->head) o->tail = nullptr; o->queued--; }
                }
            }
            race_acquire(o);
            wake_io();
            return (ssize_t)done;
        }
        default: errno = o->kind == O_LISTEN ? ENOTCONN : EINVAL; return -1;
    }
}
static ssize_t do_send(int fd, const struct iovec* iov, size_t niov, int flags, Addr dst, uint64_t pc) {
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    size_t n = 0;
    for (size_t i = 0; i < niov; ++i) { n += iov[i].iov_len; buf_check(iov[i].iov_base, iov[i].iov_len, false, pc); }
    uint8_t* flat = (uint8_t*)halloc(n ? n : 1);
    size_t k = 0;
    for (size_t i = 0; i < niov; ++i) { if (iov[i].iov_len) memcpy(flat + k, iov[i].iov_base, iov[i].iov_len); k += iov[i].iov_len; }
    bool nb = o->nonblock || (flags & MSG_DONTWAIT);
    switch (o->kind) {
        case O_UDP: return udp_send(o, flat, n, dst.fam ? dst : (o->connected ? o->remote : dst));
        case O_PIPE: {
            if (!N->fd[fd].wr) { errno = EBADF; return -1; }
            if (n == 0) return 0;
            if (!wait_io(o, nb, [&] { return o->readers == 0 || o->bytes + (n <= 4096 ? n : 1) <= 65536; })) return -1;
            if (o->readers == 0) { errno = EPIPE; return -1; }
            size_t m = n <= 65536 - o->bytes ? n : 65536 - o->bytes;
            push_seg(o, flat, m, Addr{}, Addr{});
            race_release(o, true);
            wake_io();
            return (ssize_t)m;
        }
        case O_TCP: {
            if (o->reset) { errno = ECONNRESET; return -1; }
            if (!o->connected) { errno = ENOTCONN; return -1; }
            if (o->tx_shut) { errno = EPIPE; return -1; }
            if (n == 0) return 0;
            if (!wait_io(o, nb, [&] { return o->reset || !o->peer || o->peer->closed || o->peer->bytes + o->peer->flight < TCP_BUFFER; })) return -1;
            if (o->peer) tcp_post(o->peer, o->node, 0, flat, n, o->local);
            return (ssize_t)n;
        }
        default: errno = ENOTCONN; return -1;
    }
}

void configure(const Config& c) { N->cfg = c; }
Config& config() { return N->cfg; }
void set_node(int n) { G->cur->node = n; }
int node() { return G->cur->node; }
void partition(int a, int b, bool cut) {
    Quiet q;
    if (N->cut[a][b] != cut) fault_count(cut ? "partition" : "heal", 1);
    N->cut[a][b] = N->cut[b][a] = cut;
}
void partition_oneway(int a, int b, bool cut) {
    Quiet q;
    if (N->cut[a][b] != cut) fault_count(cut ? "partition-oneway" : "heal", 1);
    N->cut[a][b] = cut;
}
void heal_all() { memset(N->cut, 0, sizeof N->cut); }
void kill_node(int n) {
    Quiet q;
    fault_count("node-crash", 1);
    for (int i = 0; i < MAXFD; ++i)
        if (N->fd[i].o && N->fd[i].o->node == n) { if (--N->fd[i].o->refs == 0) obj_close(N->fd[i].o); N->fd[i].o = nullptr; }
    for (Obj* o = N->all; o; o = o->next_all) if (o->node == n) o->closed = true;
}
uint32_t node_ip(int n) { return 0x0a000001u + (uint32_t)n; }
void inject(uint32_t sip, uint16_t sport, uint32_t dip, uint16_t dport, const void* d, size_t n) {
    Quiet q;
    Flight* f = (Flight*)halloc(sizeof(Flight));
    f->src = mk4(sip, sport); f->dst = mk4(dip, dport); f->n = n;
    f->to = node_of(f->dst, 0);
    f->node = f->to;
    f->d = (uint8_t*)halloc(n ? n : 1);
    memcpy(f->d, d, n);
    N->in_flight++;
    add_timer(G->now + 1000, deliver_udp, f);
}
void tap(Tap t) { N->tap = t; }
int tap_node() { return N->tap_to; }
uint64_t in_flight() { return N->in_flight; }
bool fd_open(int fd) { return obj(fd) != nullptr; }
bool port_held(uint16_t port, bool stream) {
    for (int i = 0; i < MAXFD; ++i) {
        Obj* o = N->fd[i].o;
        if (o && o->bound && o->local.port == port && (stream ? o->kind == O_LISTEN || (o->kind == O_SOCK && o->type == SOCK_STREAM) : o->kind == O_UDP)) return true;
    }
    return false;
}
int open_fds() { int n = 0; for (int i = 0; i < MAXFD; ++i) n += N->fd[i].o != nullptr; return n; }
bool blocking_recv_waiters() { return N->blocked_recv > 0; }
uint64_t delivered() { return N->delivered; }
uint64_t aborted() { return N->aborted; }
int sock_queue(int fd) { Obj* o = obj(fd); return o ? (int)o->queued : -1; }
uint16_t local_port(int fd) { Obj* o = obj(fd); return o ? o->local.port : 0; }
}  // namespace net

void wake_io() {
    for (int i = 0; i < G->created; ++i)
        if (G->f[i].state == BLOCKED && G->f[i].wait_kind == W_IO) make_runnable(&G->f[i], R_SIGNAL);
}
void net_reset() {
    memset((void*)net::N, 0, sizeof *net::N);
    for (auto& p : net::N->next_port) p = 40000;
    net::N->cfg = net::Config();
}
}  // namespace sim

using namespace sim::net;
#define REAL(nr, ...) ({ long r_ = raw_syscall(nr, ##__VA_ARGS__); if (r_ < 0) { errno = (int)-r_; r_ = -1; } r_; })
extern "C" {
int pipe2(int* v, int flags) {
    if (!G->in_run) return (int)REAL(SYS_pipe2, (long)v, flags);
    sys_enter(PC);
    Quiet q;
    if (N->cfg.sock_err && fault("fd-exhausted", N->cfg.sock_err, 1000)) { errno = EMFILE; return -1; }
    Obj* o = new_obj(O_PIPE);
    o->readers = o->writers = 1;
    o->nonblock = flags & O_NONBLOCK;
    v[0] = new_fd(o, true, false);
    v[1] = new_fd(o, false, true);
    return 0;
}
int pipe(int* v) { return pipe2(v, 0); }
ssize_t read(int fd, void* b, size_t n) {
    if (!G->in_run) return REAL(SYS_read, fd, (long)b, (long)n);
    sys_enter(PC);
    struct iovec v { b, n };
    return do_recv(fd, &v, 1, 0, nullptr, nullptr, nullptr, PC);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (!G->in_run) return REAL(SYS_write, fd, (long)b, (long)n);
    if (fd == 1 || fd == 2) return (ssize_t)n;   // the program's own output is discarded
    sys_enter(PC);
    struct iovec v { (void*)b, n };
    return do_send(fd, &v, 1, 0, Addr{}, PC);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!G->in_run) return REAL(SYS_writev, fd, (long)v, n);
    size_t t = 0;
    for (int i = 0; i < n; ++i) t += v[i].iov_len;
    if (fd == 1 || fd == 2) return (ssize_t)t;
    sys_enter(PC);
    return do_send(fd, v, (size_t)n, 0, Addr{}, PC);
}
int close(int fd) {
    if (!G->in_run) return (int)REAL(SYS_close, fd);
    sys_enter(PC);
    Quiet q;
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    Fd f = N->fd[fd];
    N->fd[fd] = Fd{};
    if (o->kind == O_PIPE) { if (f.rd) o->readers--; if (f.wr) o->writers--; }
    if (--o->refs == 0) obj_close(o);
    wake_io();
    return 0;
}
int fcntl(int fd, int cmd, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, cmd);
    long arg = __builtin_va_arg(ap, long);
    __builtin_va_end(ap);
    if (!G->in_run) return (int)REAL(SYS_fcntl, fd, cmd, arg);
    sys_enter(PC);
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return (o->nonblock ? O_NONBLOCK : 0) | O_RDWR;
    if (cmd == F_SETFL) { o->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    __builtin_va_list ap;
    __builtin_va_start(ap, req);
    long arg = __builtin_va_arg(ap, long);
    __builtin_va_end(ap);
    if (!G->in_run) return (int)REAL(SYS_ioctl, fd, (long)req, arg);
    sys_enter(PC);
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (req == FIONREAD) {
        if (o->kind == O_LISTEN) { errno = EINVAL; return -1; }
        int v = 0;
        if (o->kind == O_UDP) v = o->head ? (int)o->head->n : 0;
        else v = (int)o->bytes;
        buf_check((void*)arg, sizeof(int), true, PC);
        *(int*)arg = v;
        return 0;
    }
    if (req == FIONBIO) { o->nonblock = *(int*)arg; return 0; }
    errno = EINVAL;
    return -1;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
    if (!G->in_run) return (int)REAL(SYS_poll, (long)p, (long)n, timeout);
    uint64_t pc = PC;
    sys_enter(pc);
    buf_check(p, n * sizeof *p, false, pc);
    if (n > 256) { errno = EINVAL; return -1; }
    if (N->cfg.eintr && fault("poll-eintr", N->cfg.eintr, 1000)) { errno = EINTR; return -1; }
    Obj* ob[256];
    Fd f[256];
    short ev[256];
    for (nfds_t i = 0; i < n; ++i) { ob[i] = obj(p[i].fd); if (ob[i]) f[i] = N->fd[p[i].fd]; ev[i] = p[i].events; }
    int64_t dl = timeout < 0 ? -1 : G->now + (int64_t)timeout * 1000000;
    for (;;) {
        int cnt = 0;
        short out[256];
        for (nfds_t i = 0; i < n; ++i) {
            short r = 0;
            if (p[i].fd >= 0) {
                if (!ob[i]) r = POLLNVAL;
                else if (!ob[i]->closed && ob[i]->kind == O_UDP && (ev[i] & POLLIN) && N->cfg.spurious_ready && fault("spurious-readiness", N->cfg.spurious_ready, 1000)) r = POLLIN;
                else if (!ob[i]->closed) r = (short)(ready(ob[i], f[i].rd, f[i].wr) & (ev[i] | POLLERR | POLLHUP));
            }
            out[i] = r;
            cnt += r != 0;
        }
        if (cnt || timeout == 0 || (dl >= 0 && G->now >= dl)) {
            buf_check(p, n * sizeof *p, true, pc);
            for (nfds_t i = 0; i < n; ++i) {
                p[i].revents = out[i];
                if (ob[i] && out[i]) race_acquire(ob[i]);
            }
            return cnt;
        }
        block(W_IO, nullptr, dl);
    }
}
int socket(int fam, int type, int) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Quiet q;
    if (fam != AF_INET && fam != AF_INET6) { errno = EAFNOSUPPORT; return -1; }
    if (N->cfg.sock_err && fault("fd-exhausted", N->cfg.sock_err, 1000)) { errno = EMFILE; return -1; }
    int t = type & 0xf;
    Obj* o = new_obj(t == SOCK_DGRAM ? O_UDP : O_SOCK);
    o->fam = fam; o->type = t;
    o->nonblock = type & SOCK_NONBLOCK;
    o->local.fam = fam;
    if (fam == AF_INET) v4_to(o->local.ip, 0);
    return new_fd(o, true, true);
}
int bind(int fd, const struct sockaddr* sa, socklen_t len) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    buf_check(sa, len, false, PC);
    Quiet q;
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (o->bound) { errno = EINVAL; return -1; }
    Addr a = from_sa(sa, len);
    if (a.fam != o->fam) { errno = EAFNOSUPPORT; return -1; }
    if (!is_any(a) && !is_loop(a) && !is_mcast(a) && !is_bcast(a) && node_of(a, -1) != o->node) { errno = EADDRNOTAVAIL; return -1; }
    if (a.port && port_used(o->node, o->type, a, o)) { errno = EADDRINUSE; return -1; }
    if (N->cfg.sock_err && fault("bind-error", N->cfg.sock_err, 1000)) { errno = EADDRINUSE; return -1; }
    auto_bind(o, a);
    return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    buf_check(v, n, false, PC);
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    int val = n >= 4 ? *(const int*)v : 0;
    if (level == SOL_SOCKET && opt == SO_REUSEADDR) o->reuse_addr = val;
    else if (level == SOL_SOCKET && opt == SO_REUSEPORT) o->reuse_port = val;
    else if (level == SOL_SOCKET && opt == SO_BROADCAST) o->broadcast = val;
    else if (level == IPPROTO_IP && opt == IP_PKTINFO) o->pktinfo = val;
    else if (level == IPPROTO_IPV6 && opt == IPV6_RECVPKTINFO) o->pktinfo = val;
    else if (level == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP) {
        const ip_mreq* m = (const ip_mreq*)v;
        Addr g = mk4(ntohl(m->imr_multiaddr.s_addr), 0);
        if (!is_mcast(g)) { errno = EINVAL; return -1; }
        if (o->ngroups < 8) o->groups[o->ngroups++] = g;
    }
    else if (level == IPPROTO_IPV6 && opt == IPV6_JOIN_GROUP) {
        const ipv6_mreq* m = (const ipv6_mreq*)v;
        Addr g{};
        g.fam = AF_INET6;
        memcpy(g.ip, &m->ipv6mr_multiaddr, 16);
        if (!is_mcast(g)) { errno = EINVAL; return -1; }
        if (o->ngroups < 8) o->groups[o->ngroups++] = g;
    }
    return 0;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* n) {
    if (!obj(fd)) { errno = EBADF; return -1; }
    if (obj(fd)->kind == O_PIPE) { errno = ENOTSOCK; return -1; }
    if (*n >= 4) *(int*)v = level == SOL_SOCKET && opt == SO_TYPE ? obj(fd)->type : 0;
    return 0;
}
int getsockname(int fd, struct sockaddr* sa, socklen_t* n) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    buf_check(sa, *n < sizeof(sockaddr_in6) ? *n : sizeof(sockaddr_in6), true, PC);
    *n = to_sa(o->local, sa, *n);
    return 0;
}
int getpeername(int fd, struct sockaddr* sa, socklen_t* n) {
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (!o->connected) { errno = ENOTCONN; return -1; }
    *n = to_sa(o->remote, sa, *n);
    return 0;
}
int listen(int fd, int) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Quiet q;
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (!o->bound) auto_bind(o, o->local);
    o->kind = O_LISTEN;
    return 0;
}
int accept4(int fd, struct sockaddr* sa, socklen_t* n, int flags) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (o->kind != O_LISTEN) { errno = EINVAL; return -1; }
    if (N->cfg.recv_err && fault("accept-error", N->cfg.recv_err, 1000)) {
        static const int errs[] = {EINTR, EMFILE, ENOBUFS};
        errno = errs[fault_value(3)];
        return -1;
    }
    // A connection that is reset by its peer before it is accepted may just vanish
    if (N->cfg.conn_abort && o->nacc > 0 && fault("connection-aborted", N->cfg.conn_abort, 1000)) {
        Obj* c = o->acceptq[0];
        for (int i = 1; i < o->nacc; ++i) o->acceptq[i - 1] = o->acceptq[i];
        o->nacc--;
        c->closed = true;
        N->aborted++;
        if (c->peer) tcp_post(c->peer, o->node, 2, nullptr, 0, o->local);
        if (fault_value(2)) { errno = ECONNABORTED; return -1; }
    }
    if (!wait_io(o, o->nonblock, [&] { return o->nacc > 0; })) return -1;
    Quiet q;
    if (N->cfg.sock_err && fault("fd-exhausted", N->cfg.sock_err, 1000)) { errno = EMFILE; return -1; }
    Obj* c = o->acceptq[0];
    for (int i = 1; i < o->nacc; ++i) o->acceptq[i - 1] = o->acceptq[i];
    o->nacc--;
    c->nonblock = flags & SOCK_NONBLOCK;
    if (sa) *n = to_sa(c->remote, sa, *n);
    return new_fd(c, true, true);
}
int accept(int fd, struct sockaddr* sa, socklen_t* n) { return accept4(fd, sa, n, 0); }
struct ConnEv { Obj* c; Addr to; int node; int result; };
static void conn_event(void* p) {
    ConnEv& e = *(ConnEv*)p;
    int t = node_of(e.to, e.node);
    Obj* l = nullptr;
    for (Obj* o = N->all; o; o = o->next_all)
        if (o->kind == O_LISTEN && !o->closed && o->node == t && o->local.port == e.to.port && o->fam == e.to.fam && (is_any(o->local) || same_ip(o->local, e.to))) l = o;
    if (!l || l->nacc >= 64) e.result = ECONNREFUSED;
    else {
        Obj* s = new_obj(O_TCP);
        s->node = t; s->fam = l->fam; s->type = SOCK_STREAM; s->bound = s->connected = true;
        s->local = e.to; s->remote = e.c->local;
        s->peer = e.c; e.c->peer = s; e.c->connected = true;
        l->acceptq[l->nacc++] = s;
        e.result = 0;
    }
    wake_io();
}
int connect(int fd, const struct sockaddr* sa, socklen_t n) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    Addr a = from_sa(sa, n);
    if (a.fam != o->fam) { errno = EAFNOSUPPORT; return -1; }
    if (is_any(a)) { if (a.fam == AF_INET) a = mk4(0x7f000001u, a.port); else a.ip[15] = 1; }
    if (!o->bound) { Quiet q; auto_bind(o, o->local); }
    if (is_any(o->local)) { uint16_t p = o->local.port; o->local = is_loop(a) ? a : node_addr(o->fam, o->node, p); o->local.port = p; }
    o->remote = a;
    if (o->kind == O_UDP) { o->connected = true; return 0; }
    o->kind = O_TCP;
    ConnEv* e = (ConnEv*)halloc(sizeof(ConnEv));
    *e = ConnEv{o, a, o->node, -1};
    add_timer(G->now + (node_of(a, o->node) == o->node ? 5000 : N->cfg.min_delay), conn_event, e);
    while (e->result < 0) block(W_IO, o, -1);
    if (e->result) { errno = e->result; o->kind = O_SOCK; return -1; }
    return 0;
}
int shutdown(int fd, int how) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Quiet q;
    Obj* o = obj(fd);
    if (!o) { errno = EBADF; return -1; }
    if (o->kind == O_TCP) {
        if ((how == SHUT_WR || how == SHUT_RDWR) && !o->tx_shut) { o->tx_shut = true; if (o->peer) tcp_post(o->peer, o->node, 1, nullptr, 0, o->local); }
        if (how == SHUT_RD || how == SHUT_RDWR) o->rx_shut = true;
    }
    wake_io();
    return 0;
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* sa, socklen_t len) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    struct iovec v { (void*)b, n };
    return do_send(fd, &v, 1, flags, from_sa(sa, len), PC);
}
ssize_t send(int fd, const void* b, size_t n, int flags) { return sendto(fd, b, n, flags, nullptr, 0); }
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    return do_send(fd, m->msg_iov, m->msg_iovlen, flags, from_sa((const sockaddr*)m->msg_name, m->msg_namelen), PC);
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* sa, socklen_t* len) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    struct iovec v { b, n };
    Addr from{};
    ssize_t r = do_recv(fd, &v, 1, flags, &from, nullptr, nullptr, PC);
    if (r >= 0 && sa) *len = to_sa(from, sa, *len);
    return r;
}
ssize_t recv(int fd, void* b, size_t n, int flags) { return recvfrom(fd, b, n, flags, nullptr, nullptr); }
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {
    if (!G->in_run) { errno = EPERM; return -1; }
    sys_enter(PC);
    Addr from{}, to{};
    bool trunc = false;
    ssize_t r = do_recv(fd, m->msg_iov, m->msg_iovlen, flags, &from, &to, &trunc, PC);
    if (r < 0) return r;
    m->msg_flags = trunc ? MSG_TRUNC : 0;
    if (m->msg_name && from.fam) m->msg_namelen = to_sa(from, (sockaddr*)m->msg_name, m->msg_namelen);
    Obj* o = obj(fd);
    if (o && o->pktinfo && m->msg_control && to.fam == AF_INET && m->msg_controllen >= CMSG_SPACE(sizeof(in_pktinfo))) {
        cmsghdr* c = CMSG_FIRSTHDR(m);
        c->cmsg_level = IPPROTO_IP; c->cmsg_type = IP_PKTINFO; c->cmsg_len = CMSG_LEN(sizeof(in_pktinfo));
        in_pktinfo pi{};
        pi.ipi_ifindex = is_loop(to) ? 1 : 2;
        pi.ipi_addr.s_addr = htonl(v4_of(to));
        pi.ipi_spec_dst = pi.ipi_addr;
        memcpy(CMSG_DATA(c), &pi, sizeof pi);
        m->msg_controllen = CMSG_SPACE(sizeof(in_pktinfo));
    }
    else if (o && o->pktinfo && m->msg_control && to.fam == AF_INET6 && m->msg_controllen >= CMSG_SPACE(sizeof(in6_pktinfo))) {
        cmsghdr* c = CMSG_FIRSTHDR(m);
        c->cmsg_level = IPPROTO_IPV6; c->cmsg_type = IPV6_PKTINFO; c->cmsg_len = CMSG_LEN(sizeof(in6_pktinfo));
        in6_pktinfo pi{};
        pi.ipi6_ifindex = is_loop(to) ? 1 : 2;
        memcpy(&pi.ipi6_addr, to.ip, 16);
        memcpy(CMSG_DATA(c), &pi, sizeof pi);
        m->msg_controllen = CMSG_SPACE(sizeof(in6_pktinfo));
    }
    else m->msg_controllen = 0;
    return r;
}
int getaddrinfo(const char* host, const char* serv, const struct addrinfo* hints, struct addrinfo** res) {
    if (!G->in_run) return EAI_FAIL;
    sys_enter(PC);
    Addr a{};
    uint16_t port = serv ? (uint16_t)atoi(serv) : 0;
    in_addr i4; in6_addr i6;
    if (!host || !*host) return EAI_NONAME;
    if (!strcmp(host, "localhost")) a = mk4(0x7f000001u, port);
    else if (inet_pton(AF_INET, host, &i4) == 1) a = mk4(ntohl(i4.s_addr), port);
    else if (inet_pton(AF_INET6, host, &i6) == 1) { a.fam = AF_INET6; memcpy(a.ip, &i6, 16); a.port = port; }
    else if (!strncmp(host, "node", 4)) a = node_addr(AF_INET, atoi(host + 4), port);
    else { errno = ENOENT; return EAI_NONAME; }
    if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != a.fam) return EAI_NONAME;
    struct addrinfo* r = (struct addrinfo*)malloc(sizeof(struct addrinfo) + sizeof(sockaddr_storage));
    memset(r, 0, sizeof(struct addrinfo) + sizeof(sockaddr_storage));
    r->ai_family = a.fam;
    r->ai_addr = (sockaddr*)(r + 1);
    r->ai_addrlen = to_sa(a, r->ai_addr, sizeof(sockaddr_storage));
    r->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_DGRAM;
    *res = r;
    return 0;
}
void freeaddrinfo(struct addrinfo* r) { free(r); }
int getnameinfo(const struct sockaddr* sa, socklen_t n, char* host, socklen_t hn, char* serv, socklen_t sn, int) {
    Addr a = from_sa(sa, n);
    if (!a.fam) return EAI_FAMILY;
    if (host && hn) {
        if (a.fam == AF_INET) { in_addr i; i.s_addr = htonl(v4_of(a)); inet_ntop(AF_INET, &i, host, hn); }
        else inet_ntop(AF_INET6, a.ip, host, hn);
    }
    if (serv && sn) snprintf(serv, sn, "%u", a.port);
    return 0;
}
struct IfBlock { struct ifaddrs a[4]; sockaddr_storage s[4][3]; };
int getifaddrs(struct ifaddrs** out) {
    if (!G->in_run) { errno = ENOSYS; return -1; }
    sys_enter(PC);
    IfBlock* b = (IfBlock*)malloc(sizeof(IfBlock));
    memset(b, 0, sizeof *b);
    int node = G->cur->node;
    Addr addr[4], mask[4], bc[4];
    memset(mask, 0, sizeof mask); memset(bc, 0, sizeof bc);
    addr[0] = mk4(0x7f000001u, 0); mask[0] = mk4(0xff000000u, 0);
    addr[1] = node_addr(AF_INET, node, 0); mask[1] = mk4(0xffffff00u, 0); bc[1] = mk4(0x0a0000ffu, 0);
    memset(&addr[2], 0, sizeof(Addr)); addr[2].fam = AF_INET6; addr[2].ip[15] = 1; mask[2].fam = AF_INET6; memset(mask[2].ip, 0xff, 16);
    addr[3] = node_addr(AF_INET6, node, 0); mask[3].fam = AF_INET6; memset(mask[3].ip, 0xff, 8);
    for (int i = 0; i < 4; ++i) {
        struct ifaddrs& x = b->a[i];
        x.ifa_next = i < 3 ? &b->a[i + 1] : nullptr;
        x.ifa_name = (char*)(i % 2 == 0 ? "lo" : "eth0");
        x.ifa_flags = IFF_UP | (i % 2 == 0 ? IFF_LOOPBACK : IFF_MULTICAST | (i == 1 ? IFF_BROADCAST : 0));
        x.ifa_addr = (sockaddr*)&b->s[i][0]; to_sa(addr[i], x.ifa_addr, sizeof(sockaddr_storage));
        x.ifa_netmask = (sockaddr*)&b->s[i][1]; to_sa(mask[i], x.ifa_netmask, sizeof(sockaddr_storage));
        if (bc[i].fam) { x.ifa_ifu.ifu_broadaddr = (sockaddr*)&b->s[i][2]; to_sa(bc[i], x.ifa_ifu.ifu_broadaddr, sizeof(sockaddr_storage)); }
    }
    *out = b->a;
    return 0;
}
void freeifaddrs(struct ifaddrs* a) { free(a); }
unsigned if_nametoindex(const char* n) { return !strcmp(n, "lo") ? 1 : !strcmp(n, "eth0") ? 2 : 0; }
int uname(struct utsname* u) {
    memset(u, 0, sizeof *u);
    strcpy(u->sysname, "SimOS");
    snprintf(u->nodename, sizeof u->nodename, "node%d", G->in_run ? G->cur->node : 0);
    return 0;
}
int gethostname(char* b, size_t n) { snprintf(b, n, "node%d", G->in_run ? G->cur->node : 0); return 0; }
}
