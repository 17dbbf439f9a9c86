// Deterministic simulation runtime: the seam under the library.
//
// The library is compiled with clang's -fsanitize=thread instrumentation but
// WITHOUT libtsan: this runtime implements the callbacks.  Every load/store,
// allocation, release, lock, atomic, static-init guard and simulated I/O call
// made by library code is a scheduling point owned by one seeded PRNG (or by
// an explicit schedule on replay).  Tasks are real threads parked on
// semaphores; exactly one runs at a time.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

constexpr int MAXT = 5;        // task 0 is the driver; 1..4 are simulated threads
constexpr int MAXSW = 20000;   // recorded context switches
constexpr int MAXOPS = 96;     // per task, for digests
constexpr int MAXHAND = 256;   // recorded hand-overs

enum Kind : uint8_t { K_READ, K_WRITE, K_ALLOC, K_FREE, K_LOCK, K_UNLOCK, K_ATOMIC, K_GUARD, K_OP, K_IO, K_EXIT, K_N };

enum FaultKind : uint8_t { F_NONE, F_ONE, F_FROM, F_SIZE, F_EVERY, F_N };
// F_ONE k: k-th allocation of the op fails; F_FROM k: all from the k-th;
// F_SIZE k: every allocation larger than k bytes; F_EVERY k: every (k+1)-th.

struct Switch { uint32_t step; uint8_t to; };

enum Status : int32_t { S_NONE = 0, S_OK = 1, S_VIOLATION = 2, S_ERROR = 3 };

// Lives in shared memory; written by the forked run, read by the parent.
struct Result {
    int32_t status;
    char cls[48];
    char msg[1400];
    uint64_t hash;           // event-log hash
    uint64_t steps;          // logical steps (scheduling points passed)
    uint64_t kinds[K_N];
    uint64_t faults[F_N];    // fired, by kind
    uint64_t reported, refused, okops, skipped, retried, switches, contended, preempt_in_op, shared_conflict;
    uint64_t allocs, io_faults[12], probes[32];
    int32_t phase;           // phase of the task that violated
    uint32_t ncov;           // coverage tuples (fault sites, preemption pairs, outcomes)
    uint64_t cov[256];
    uint32_t nsw;
    Switch sw[MAXSW];
    uint32_t ndig[MAXT];
    uint64_t dig[MAXT][MAXOPS];
    uint8_t st[MAXT][MAXOPS];
    uint32_t nhand;          // jets handed between threads, in the order of their locks
    uint16_t hand[MAXHAND];  // task << 8 | operation
    char curop[MAXT][160];
};
extern Result *res;

struct Config {
    uint64_t seed = 1;
    int policy = 0;            // 0 none(serial) 1 random 2 pct 3 conflict 4 boundary
    uint32_t p_inv = 20;       // random: switch with probability 1/p_inv
    uint32_t est_steps = 2000; // for pct
    int pct_d = 3;
    bool replay = false;       // follow sched[] instead of drawing
    const Switch *sched = nullptr;
    uint32_t nsched = 0;
    uint32_t max_steps = 20000000;
    // environment garbage
    uint64_t garbage = 1;      // seed of fresh-memory contents
    int garbage_mode = 0;      // 0 zero 1 ones(NaN) 2 random doubles 3 random bytes 4 small finite
    int layout_jitter = 0;     // extra gap granules between blocks (max)
    int caller = 0;            // what the calling thread left in errno and the floating-point flags: 0 as it comes, 1 nothing, 2 anything
    bool check_races = true;
};

void init();                         // once, before fork
void begin(const Config &c);         // start of a run (in the forked child)
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();          // run completed, status OK
void set_op(const char *text);       // what the current task is doing (for messages)

// library scope: hooks are live only inside
void lib_enter();
void lib_leave();
struct LibScope {
    LibScope() { lib_enter(); }
    ~LibScope() { lib_leave(); }
};

// allocation faults for the current task's next library scope(s)
void arm_fault(FaultKind k, uint32_t arg);
void disarm_fault();
uint32_t fault_fired();              // since arm
uint32_t op_allocs();                // allocations since arm/disarm
uint64_t live_blocks();              // library blocks currently live
void *raw_alloc(size_t n, size_t align = 16);  // arena block for harness objects (never fails, not counted as library)
void raw_free(void *);
bool in_arena(const void *);
void dirty_stack();                  // fills the unused stack with garbage
void hash_event(uint64_t a, uint64_t b = 0);
void cover(uint64_t tuple);             // remembered by the parent
extern uint64_t cover_base[MAXT];       // what each task is doing, set by the engine

// threads
int spawn(void (*fn)(int, void *), void *arg);   // before run_tasks; returns task id
void run_tasks();                                // schedules all spawned tasks to completion
int self_id();
bool task_ended(int id);                         // the thread is gone, with everything it kept for itself
void yield_point(Kind k, uintptr_t addr = 0);    // explicit scheduling point
bool concurrent();

struct Mutex { int owner = 0; uint32_t vc[MAXT] = {}; };
void lock(Mutex &);
void unlock(Mutex &);

uint64_t mix(uint64_t a, uint64_t b);
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed ? seed : 0x9E3779B97F4A7C15ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double range(double a, double b) { return a + (b - a) * unit(); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

} // namespace rt
