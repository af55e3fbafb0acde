// Public interface of the deterministic simulator, used by the scenarios in /verif/scen.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstddef>
#include <cstdint>

namespace sim {

// ---- choices. All of these go through the decision log; 0 / false is the default a minimised replay falls back to.
uint64_t choose(uint64_t n);               // 0..n-1, workload stream
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + choose(hi - lo + 1); }
bool chance(unsigned num, unsigned den);   // workload stream
uint64_t pick_log(uint64_t lo, uint64_t hi);  // log-uniform, default lo
bool fault(const char* kind, unsigned num, unsigned den);  // fault stream; counted when it fires; false once faults stopped
uint64_t fault_value(uint64_t n);          // 0..n-1, fault stream
void count_fault(const char* kind, uint64_t n = 1);
void stop_faults();                        // from here on no fault or stall is injected
bool faults_on();

// ---- configuration a scenario sets at its start
void enable_race_detector();
void allow_long_stalls(uint64_t max_ns);   // thread stalls up to this long (default 50us)
void no_stalls();
void no_preempt_plain();                   // only synchronisation operations are scheduling points
void set_budget(uint64_t sync_steps);      // liveness bound: scheduling points per run
void set_spurious(unsigned num, unsigned den);  // spurious condition-variable wakeups
void fair_from_now();                      // stop adversarial scheduling: random fair choice from here on
void step_cost(uint64_t ns);

// ---- time (simulated)
int64_t now_ns();                          // monotonic
int64_t real_ns();                         // wall clock
void jump_realtime(int64_t delta_ns);      // clock jump fault (counted)
void sleep_ns(int64_t ns);
void yield();

// ---- waiting
// Block until nothing else can run and no timer is pending. Returns false if woken because of the limit.
bool wait_quiescent(int64_t max_ns = -1);
int runnable_others();
int self();                                // fiber id of the calling thread
int fiber_of_pthread(unsigned long pthread_self);
uint64_t seq();                            // global event sequence number: increases on every call
uint64_t steps();
int live_threads();                        // threads created and not yet ended, other than the main one
bool thread_blocked(int fiber);            // waiting on a lock, condition, timer or I/O
bool fiber_holds_cpu_wait(int fiber);

// ---- verdicts
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name);              // "this condition was reached"
void note(uint64_t v);                     // mixed into the run's trace hash
void nontrivial();                         // marks the run as exercising its property
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // human readable line for evidence/replay

// ---- memory
void track(const void* p, size_t n, const char* what);  // user payload: a data race here is a violation
uint64_t live_blocks();
uint64_t live_bytes();
// Fail on blocks allocated since the mark and still live (M21).
uint64_t alloc_mark();
uint64_t live_since(uint64_t mark);
uint64_t live_bytes_since(uint64_t mark, const void** first, size_t* first_size);
void* alloc_site(const void* p);
void walk_live(uint64_t mark, void (*cb)(void* ctx, const void* p, size_t size, void* site), void* ctx);  // blocks allocated since the mark
uint64_t unreachable(void (*cb)(void* ctx, const void* p, size_t size, void* site), void* ctx);  // live blocks that nothing leads to any more
uint64_t allocated_total();                // bytes ever requested in this run

// Code under this guard is the harness's own: no scheduling points, no race or heap accounting.
struct Quiet {
    Quiet();
    ~Quiet();
    Quiet(const Quiet&) = delete;
    Quiet& operator=(const Quiet&) = delete;
};

// ---- network (see net.inc)
namespace net {
    struct Config {
        unsigned loss = 0, dup = 0, reorder = 0, send_err = 0, sock_err = 0, eintr = 0, short_io = 0, recv_err = 0, spurious_ready = 0, conn_abort = 0;   // per 1000
        int64_t min_delay = 20000, jitter = 100000;                          // ns
    };
    void configure(const Config& c);
    Config& config();
    void set_node(int n);                  // the calling thread (and threads it creates) lives on node n
    int node();
    void partition(int a, int b, bool cut);  // both ways
    void partition_oneway(int a, int b, bool cut);
    void heal_all();
    void kill_node(int n);                 // closes all of its sockets, drops what is queued for it
    uint32_t node_ip(int n);               // host order
    void inject(uint32_t src_ip, uint16_t src_port, uint32_t dst_ip, uint16_t dst_port, const void* data, size_t n);
    typedef void (*Tap)(uint32_t src_ip, uint16_t sport, uint32_t dst_ip, uint16_t dport, const uint8_t* d, size_t n, int fate);
    void tap(Tap t);
    int tap_node();                        // inside of the tap, for fate 1: the node that got the datagram
    uint64_t in_flight();
    bool fd_open(int fd);
    bool port_held(uint16_t port, bool stream);   // by a socket that takes datagrams or connections
    int open_fds();
    bool blocking_recv_waiters();          // a thread is blocked inside recv/recvmsg/read on an empty descriptor
    uint64_t delivered();
    uint64_t aborted();                    // connections that vanished before they were accepted
    int sock_queue(int fd);
    uint16_t local_port(int fd);
}

}  // namespace sim

// Defined by each scenario
extern const char* const scenario_property;
void scenario();
#endif
