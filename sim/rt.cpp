#include "rt.h"
#include <cerrno>
#include <cfenv>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <initializer_list>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
}

extern __thread int phase_of_task;
namespace rt {

Result *res;
uint64_t cover_base[MAXT];
static Config cfg;
static bool active = false;      // between begin() and finish()
static bool conc = false;        // tasks are being scheduled

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
void cover(uint64_t t) {
    for (uint32_t i = 0; i < res->ncov; i++) if (res->cov[i] == t) return;
    if (res->ncov < 256) res->cov[res->ncov++] = t;
}
void hash_event(uint64_t a, uint64_t b) { res->hash = mix(res->hash ^ a, b); }

// ------------------------------------------------------------------ arena
static constexpr uintptr_t ABASE = 0x200000000000ull;
static constexpr size_t ASIZE = 256u << 20;
static constexpr int GRAN = 16;
static constexpr uint32_t MAXB = 1u << 19;
struct Block { uintptr_t start; uint32_t size; uint8_t live, lib, task; };
static uint32_t *gmap;
static Block *blocks;
static uint32_t nblocks;
static size_t bump;
static uint64_t live_lib;
static uint64_t grng;

extern "C" char __executable_start, _end;
// memory whose allocation this runtime sees: the arena and the program's own statics
static inline bool known_storage(uintptr_t a) { return a - ABASE < ASIZE || (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end); }
static inline bool arena_addr(uintptr_t a) { return a - ABASE < ASIZE; }
bool in_arena(const void *p) { return arena_addr((uintptr_t)p); }
uint64_t live_blocks() { return live_lib; }

static uint64_t gnext() {
    uint64_t z = (grng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t garbage_word() {
    switch (cfg.garbage_mode) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: { double d = ((double)(gnext() >> 11) * 0x1p-53 - 0.5) * 64; uint64_t u; memcpy(&u, &d, 8); return u; }
    case 3: return gnext();
    default: { double d = 1.0 + (double)(gnext() & 7); uint64_t u; memcpy(&u, &d, 8); return u; }
    }
}
static void fill_garbage(void *p, size_t n) {
    char *c = (char *)p;
    while (n) {
        uint64_t w = garbage_word();
        size_t k = n < 8 ? n : 8;
        memcpy(c, &w, k);
        c += k; n -= k;
    }
}

static void shadow_clear(uintptr_t a, size_t n);

static void *arena_new(size_t n, size_t align, bool lib, int task) {
    if (align < GRAN) align = GRAN;
    size_t gap = 32;
    if (cfg.layout_jitter) gap += GRAN * (mix(cfg.garbage, nblocks) % (cfg.layout_jitter + 1));
    size_t at = (bump + gap + align - 1) & ~(align - 1);
    size_t span = (n ? n : 1);
    if (n > ASIZE || at + span + 64 > ASIZE || nblocks + 2 >= MAXB) return nullptr;
    uint32_t id = ++nblocks;
    blocks[id] = Block{ABASE + at, (uint32_t)n, 1, (uint8_t)lib, (uint8_t)task};
    for (size_t g = at / GRAN; g <= (at + span - 1) / GRAN; g++) gmap[g] = id;
    bump = (at + span + GRAN - 1) & ~(size_t)(GRAN - 1);
    void *p = (void *)(ABASE + at);
    fill_garbage(p, n);
    if (lib) live_lib++;
    return p;
}
static void arena_delete(void *p) {
    uintptr_t a = (uintptr_t)p;
    uint32_t id = gmap[(a - ABASE) / GRAN];
    Block *b = &blocks[id];
    if (id == 0 || b->start != a) violation("bad-free", "release of an address that is not the start of a block");
    if (!b->live) violation("double-free", "block of %u bytes released twice", b->size);
    b->live = 0;
    if (b->lib) live_lib--;
    shadow_clear(a, b->size);
    // poison: a released double reads as a signalling NaN pattern
    uint64_t w = 0x7ff4dead7ff4deadull;
    size_t n = b->size;
    char *c = (char *)p;
    while (n) { size_t k = n < 8 ? n : 8; memcpy(c, &w, k); c += k; n -= k; }
}

// ------------------------------------------------------------------ tasks
enum TState : uint8_t { T_FREE, T_READY, T_BLOCKED, T_DONE };
struct Task {
    int id;
    TState st;
    sem_t sem;
    pthread_t th;
    void (*fn)(int, void *);
    void *arg;
    uint32_t vc[MAXT];
    uintptr_t stk_lo, stk_hi;
    const void *wait;
    FaultKind fk;
    uint32_t farg, nalloc, fired;
    int in_op;
    void *fake_stack;
};
static Task T[MAXT];
static int ntask = 1, cur = 0;
static uint32_t step_;
static Rng srng(1);
static uint32_t nextsw;          // replay cursor
static uint32_t pctpts[16]; static int npct;
static __thread Task *self = nullptr;
static __thread int depth = 0;

int self_id() { return self ? self->id : 0; }
bool concurrent() { return conc; }
void lib_enter() { depth++; }
void lib_leave() { depth--; }

void set_op(const char *t) {
    int id = self_id();
    snprintf(res->curop[id], sizeof res->curop[id], "%s", t);
}

static void stack_bounds(Task *t) {
    pthread_attr_t a;
    void *lo; size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &lo, &sz);
        t->stk_lo = (uintptr_t)lo; t->stk_hi = (uintptr_t)lo + sz;
        pthread_attr_destroy(&a);
    }
}

// ------------------------------------------------------------------ verdicts
static void __attribute__((noreturn)) leave_process(int st) {
    __atomic_store_n(&res->status, st, __ATOMIC_SEQ_CST);
    _exit(0);
}
void violation(const char *cls, const char *fmt, ...) {
    active = false;
    char buf[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    snprintf(res->cls, sizeof res->cls, "%s", cls);
    int id = self_id();
    snprintf(res->msg, sizeof res->msg, "%s [task %d, step %u, op: %s]", buf, id, step_, res->curop[id]);
    res->steps = step_;
    res->phase = phase_of_task;
    leave_process(S_VIOLATION);
}
void finish() {
    active = false;
    res->steps = step_;
    leave_process(S_OK);
}
static void on_terminate() {
    depth = 0;
    violation("terminate", "std::terminate was called: an exception could not reach the caller");
}
static void on_signal(int sig) {
    depth = 0;
    if (sig == SIGILL || sig == SIGTRAP) violation("bad-index", "an array is indexed beyond its end (or a null object used, or a function left without its result)");
    violation(sig == SIGABRT ? "abort" : sig == SIGFPE ? "sigfpe" : sig == SIGXCPU ? "no-progress" : "segv",
              "fatal signal %d inside the library", sig);
}

void init() {
    void *p = mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ABASE) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
    gmap = (uint32_t *)mmap(nullptr, ASIZE / GRAN * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = (Block *)mmap(nullptr, sizeof(Block) * MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (gmap == MAP_FAILED || blocks == MAP_FAILED) { fprintf(stderr, "map failed\n"); _exit(3); }
    std::set_terminate(on_terminate);
}

// ------------------------------------------------------------------ race shadow
struct Cell { uintptr_t tag; uint32_t wclk[8]; uint8_t wtid[8]; uint32_t rclk[8][MAXT]; };
static constexpr uint32_t NCELL = 1u << 16;
static Cell *cells;
static uint32_t ncells_used;

static Cell *cell(uintptr_t g, bool create) {
    if (!cells) return nullptr;
    uint32_t h = (uint32_t)(mix(g, 7) & (NCELL - 1));
    for (int i = 0; i < 64; i++) {
        Cell *c = &cells[(h + i) & (NCELL - 1)];
        if (c->tag == g) return c;
        if (c->tag == 0) {
            if (!create || ncells_used > NCELL * 3 / 4) return nullptr;
            ncells_used++;
            c->tag = g;
            return c;
        }
    }
    return nullptr;
}
static void shadow_clear(uintptr_t a, size_t n) {
    if (!conc || !cells) return;
    for (uintptr_t g = a >> 3; g <= (a + n) >> 3; g++) {
        Cell *c = cell(g, false);
        if (c) { memset(c->wclk, 0, sizeof c->wclk); memset(c->wtid, 0, sizeof c->wtid); memset(c->rclk, 0, sizeof c->rclk); }
    }
}
static void describe(uintptr_t a, char *out, size_t n) {
    if (arena_addr(a)) {
        uint32_t id = gmap[(a - ABASE) / GRAN];
        if (id) snprintf(out, n, "heap block of %u bytes + %lu (allocated by task %d)", blocks[id].size, (unsigned long)(a - blocks[id].start), blocks[id].task);
        else snprintf(out, n, "heap outside any block");
    } else {
        Dl_info i;
        if (dladdr((void *)a, &i) && i.dli_sname) snprintf(out, n, "static object %s + %lu", i.dli_sname, (unsigned long)(a - (uintptr_t)i.dli_saddr));
        else snprintf(out, n, "static storage 0x%lx", (unsigned long)a);
    }
}
// returns true if another task touched this address before (for conflict-directed switching)
static bool race_access(uintptr_t a, unsigned n, bool write) {
    bool conflict = false;
    int t = self->id;
    uint32_t *vc = self->vc;
    for (unsigned i = 0; i < n;) {
        uintptr_t g = (a + i) >> 3;
        Cell *c = cell(g, true);
        unsigned o = (a + i) & 7;
        for (; o < 8 && i < n; o++, i++) {
            if (!c) continue;
            if (c->wtid[o] && c->wtid[o] != t) {
                conflict = true;
                if (cfg.check_races && c->wclk[o] > vc[c->wtid[o]]) {
                    char d[200]; describe(a + i, d, sizeof d);
                    violation("race", "%s of %s by task %d unordered with a write by task %d (then: %s)", write ? "write" : "read", d, t, c->wtid[o], res->curop[c->wtid[o]]);
                }
            }
            if (write) {
                for (int r = 1; r < MAXT; r++)
                    if (r != t && c->rclk[o][r]) {
                        conflict = true;
                        if (cfg.check_races && c->rclk[o][r] > vc[r]) {
                            char d[200]; describe(a + i, d, sizeof d);
                            violation("race", "write of %s by task %d unordered with a read by task %d (then: %s)", d, t, r, res->curop[r]);
                        }
                    }
                c->wtid[o] = t; c->wclk[o] = vc[t];
                for (int r = 0; r < MAXT; r++) c->rclk[o][r] = 0;
            } else {
                for (int r = 1; r < MAXT; r++) if (r != t && c->rclk[o][r]) conflict = conflict;
                c->rclk[o][t] = vc[t];
            }
        }
    }
    return conflict;
}
// synchronisation objects by address
struct Sync { uintptr_t a; uint32_t vc[MAXT]; int owner; int readers; };
static Sync syncs[512];
static Sync *sync_of(uintptr_t a) {
    uint32_t h = mix(a, 3) & 511;
    for (int i = 0; i < 512; i++) {
        Sync *s = &syncs[(h + i) & 511];
        if (s->a == a) return s;
        if (!s->a) { s->a = a; return s; }
    }
    violation("internal", "too many synchronisation objects");
}
static void vc_acquire(const uint32_t *v) { if (!self) return; for (int i = 0; i < MAXT; i++) if (v[i] > self->vc[i]) self->vc[i] = v[i]; }
static void vc_release(uint32_t *v) { if (!self) return; for (int i = 0; i < MAXT; i++) if (self->vc[i] > v[i]) v[i] = self->vc[i]; self->vc[self->id]++; }

// ------------------------------------------------------------------ scheduler
static int pick_other() {
    int c[MAXT], n = 0;
    for (int i = 1; i < ntask; i++) if (i != cur && T[i].st == T_READY) c[n++] = i;
    if (!n) return 0;
    return c[srng.below(n)];
}
static void record(int to) {
    if (res->nsw < MAXSW) res->sw[res->nsw] = Switch{step_, (uint8_t)to};
    else violation("internal", "too many switches");
    res->nsw++;
    hash_event(0x5157, ((uint64_t)step_ << 8) | to);
}
static void handoff(int to) {
    Task *me = self;
    int e = errno;
    cur = to;
    res->switches++;
    sem_post(&T[to].sem);
    if (me) while (sem_wait(&me->sem) != 0) {}
    errno = e;
}
// the current task cannot continue: someone else must run
static void must_switch() {
    int to = 0;
    if (cfg.replay) {
        // skip stale entries, obey an entry for exactly this step
        while (nextsw < cfg.nsched && cfg.sched[nextsw].step < step_) nextsw++;
        if (nextsw < cfg.nsched && cfg.sched[nextsw].step == step_) {
            int c = cfg.sched[nextsw].to;
            nextsw++;
            if (c > 0 && c < ntask && T[c].st == T_READY) to = c;
        }
        if (!to) for (int i = 1; i < ntask && !to; i++) if (T[i].st == T_READY) to = i;
    } else {
        to = pick_other();
    }
    if (!to) {
        bool all = true;
        for (int i = 1; i < ntask; i++) if (T[i].st != T_DONE) all = false;
        if (all) { // back to the driver
            cur = 0;
            sem_post(&T[0].sem);
            return;
        }
        violation("deadlock", "no simulated thread can proceed");
    }
    record(to);
    if (self && self->st == T_DONE) { cur = to; res->switches++; sem_post(&T[to].sem); }
    else handoff(to);
}

void yield_point(Kind k, uintptr_t addr) {
    if (!active) return;
    step_++;
    res->kinds[k]++;
    if (step_ > cfg.max_steps) violation("no-progress", "step limit exceeded: the run makes no progress");
    if (!conc || !self || self->id == 0) return;
    int to = 0;
    if (cfg.replay) {
        while (nextsw < cfg.nsched && cfg.sched[nextsw].step < step_) nextsw++;
        if (nextsw < cfg.nsched && cfg.sched[nextsw].step == step_) {
            int c = cfg.sched[nextsw++].to;
            if (c > 0 && c < ntask && c != cur && T[c].st == T_READY) to = c;
        }
    } else {
        bool sw = false;
        switch (cfg.policy) {
        case 1: sw = srng.below(cfg.p_inv) == 0; break;
        case 2:
            for (int i = 0; i < npct; i++) if (pctpts[i] == step_) sw = true;
            break;
        case 3:
            if (addr) sw = srng.below(3) == 0; // addr != 0 only for conflicting accesses
            else if (k != K_READ && k != K_WRITE) sw = srng.below(12) == 0;
            break;
        case 4:
            if (k != K_READ && k != K_WRITE) sw = srng.below(3) == 0;
            break;
        default: break;
        }
        if (sw && res->nsw < MAXSW - 100) to = pick_other();
    }
    if (to) {
        if (depth) { res->preempt_in_op++; cover(mix(mix(cover_base[self->id], cover_base[to]), k)); }
        record(to);
        handoff(to);
    }
}

static void block_on(const void *w) {
    self->wait = w;
    self->st = T_BLOCKED;
    res->contended++;
    must_switch();
}
static void wake(const void *w) {
    for (int i = 1; i < ntask; i++) if (T[i].st == T_BLOCKED && T[i].wait == w) { T[i].st = T_READY; T[i].wait = nullptr; }
}

void lock(Mutex &m) {
    if (!conc || !self || !self->id) return;
    yield_point(K_LOCK);
    while (m.owner) block_on(&m);
    m.owner = self->id;
    vc_acquire(m.vc);
}
void unlock(Mutex &m) {
    if (!conc || !self || !self->id) return;
    m.owner = 0;
    vc_release(m.vc);
    wake(&m);
    yield_point(K_UNLOCK);
}

static pthread_key_t end_key;
static void *thread_main(void *p) {
    Task *t = (Task *)p;
    self = t;
    stack_bounds(t);
    sem_post(&T[0].sem);               // registered
    while (sem_wait(&t->sem) != 0) {}  // first schedule
    t->fn(t->id, t->arg);
    // the thread ends here and now: what it runs while it ends (destructors of thread-local
    // objects) is library code under the scheduler like any other
    depth = 1;
    pthread_setspecific(end_key, t);
    return nullptr;
}
static void thread_end(void *p) {
    Task *t = (Task *)p;
    depth = 0;
    t->st = T_DONE;
    step_++;
    for (int i = 0; i < MAXT; i++) if (t->vc[i] > T[0].vc[i]) T[0].vc[i] = t->vc[i];
    must_switch();
    self = nullptr;
}
bool task_ended(int id) { return T[id].st == T_DONE; }
int spawn(void (*fn)(int, void *), void *arg) {
    static bool keyed = false;
    if (!keyed) { if (pthread_key_create(&end_key, thread_end)) violation("internal", "pthread_key_create"); keyed = true; }
    int id = ntask++;
    if (id >= MAXT) violation("internal", "too many tasks");
    Task *t = &T[id];
    t->id = id; t->st = T_READY; t->fn = fn; t->arg = arg;
    t->fk = F_NONE; t->wait = nullptr;
    memset(t->vc, 0, sizeof t->vc);
    t->vc[id] = 1;
    sem_init(&t->sem, 0, 0);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 8 << 20);
    if (pthread_create(&t->th, &a, thread_main, t)) violation("internal", "pthread_create");
    pthread_attr_destroy(&a);
    while (sem_wait(&T[0].sem) != 0) {}
    return id;
}
void run_tasks() {
    cells = (Cell *)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ncells_used = 0;
    npct = 0;
    uint32_t base = step_;
    if (cfg.policy == 2) for (int i = 0; i < cfg.pct_d && i < 16; i++) pctpts[npct++] = base + 1 + srng.below(cfg.est_steps ? cfg.est_steps : 1);
    conc = true;
    int to = 0;
    if (cfg.replay) {
        if (nextsw < cfg.nsched && cfg.sched[nextsw].step <= step_) { to = cfg.sched[nextsw].to; nextsw++; if (to <= 0 || to >= ntask) to = 0; }
        if (!to) to = 1;
    } else to = 1 + srng.below(ntask - 1);
    record(to);
    cur = to;
    sem_post(&T[to].sem);
    while (sem_wait(&T[0].sem) != 0) {}
    conc = false;
    cur = 0;
    for (int i = 1; i < ntask; i++) pthread_join(T[i].th, nullptr);
    ntask = 1;
}

void begin(const Config &c) {
    cfg = c;
    memset(res, 0, offsetof(Result, sw));
    memset(res->ndig, 0, sizeof res->ndig);
    memset(res->st, 0, sizeof res->st);
    res->nhand = 0;
    memset(res->curop, 0, sizeof res->curop);
    step_ = 0; nextsw = 0; ntask = 1; cur = 0;
    nblocks = 0; bump = 4096; live_lib = 0;
    grng = mix(c.garbage, 99);
    srng = Rng(mix(c.seed, 17));
    memset(syncs, 0, sizeof syncs);
    memset(&T[0], 0, sizeof T[0]);
    sem_init(&T[0].sem, 0, 0);
    T[0].st = T_READY;
    self = &T[0];
    stack_bounds(self);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    static char alt[65536];
    stack_t ss = {alt, 0, sizeof alt};
    sigaltstack(&ss, nullptr);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    struct rlimit rl = {12, 14};
    setrlimit(RLIMIT_CPU, &rl);
    active = true;
}

// ------------------------------------------------------------------ allocation seam
void arm_fault(FaultKind k, uint32_t a) { self->fk = k; self->farg = a; self->nalloc = 0; self->fired = 0; }
void disarm_fault() { self->fk = F_NONE; self->nalloc = 0; self->fired = 0; }
uint32_t fault_fired() { return self->fired; }
uint32_t op_allocs() { return self->nalloc; }

static bool alloc_fails(size_t n) {
    uint32_t i = self->nalloc++;
    bool f = false;
    switch (self->fk) {
    case F_ONE: f = i == self->farg; break;
    case F_FROM: f = i >= self->farg; break;
    case F_SIZE: f = n > self->farg; break;
    case F_EVERY: f = i % (self->farg + 1) == self->farg; break;
    default: break;
    }
    if (f) {
        self->fired++; res->faults[self->fk]++;
        cover(mix(mix(cover_base[self->id], 1), ((uint64_t)self->fk << 32) | i));
    }
    return f;
}
static void *lib_alloc(size_t n, size_t align) {
    yield_point(K_ALLOC);
    res->allocs++;
    hash_event(0xA110C, ((uint64_t)self->id << 32) ^ n);
    if (alloc_fails(n)) { errno = ENOMEM; return nullptr; }
    int d = depth; depth = 0;
    void *p = arena_new(n, align, true, self->id);
    depth = d;
    return p;
}
static inline bool hooked() { return active && depth > 0 && self; }

void *raw_alloc(size_t n, size_t align) {
    void *p = arena_new(n, align, false, self_id());
    if (!p) violation("internal", "arena exhausted");
    return p;
}
void raw_free(void *p) { arena_delete(p); }

static void do_free(void *p) {
    if (!p) return;
    if (arena_addr((uintptr_t)p)) {
        if (hooked()) yield_point(K_FREE);
        arena_delete(p);
        return;
    }
    __real_free(p);
}

__attribute__((noinline)) void dirty_stack() {
    volatile uint64_t buf[3072];
    for (size_t i = 0; i < 3072; i++) buf[i] = garbage_word();
    asm volatile("" ::"r"(buf) : "memory");
    if (cfg.caller == 1) { errno = 0; feclearexcept(FE_ALL_EXCEPT); }
    if (cfg.caller == 2) {
        static const int left[] = {ERANGE, EDOM, ENOMEM, EINVAL, EINTR};
        feraiseexcept(FE_ALL_EXCEPT);
        errno = left[gnext() % 5];
    }
}

// ------------------------------------------------------------------ accesses
static inline void access(uintptr_t a, unsigned n, bool write) {
    if (!active || depth <= 0) return;
    Task *s = self;
    if (!s) return;
    if (a - s->stk_lo < s->stk_hi - s->stk_lo) return;
    if (arena_addr(a)) {
        uint32_t id = gmap[(a - ABASE) / GRAN];
        Block *b = &blocks[id];
        if (id == 0 || a < b->start || a + n > b->start + b->size || !b->live) {
            char d[200]; describe(a, d, sizeof d);
            // identify the neighbouring block for the report
            if (!id || a + n > b->start + b->size || a < b->start) {
                uintptr_t g = (a - ABASE) / GRAN;
                uint32_t lo = 0;
                for (uintptr_t k = 0; k < 64 && g - k > 0; k++) if (gmap[g - k]) { lo = gmap[g - k]; break; }
                violation("out-of-bounds", "%s of %u bytes outside live storage (%ld bytes past the end of a block of %u bytes)", write ? "write" : "read", n, lo ? (long)(a - blocks[lo].start - blocks[lo].size) : -1L, lo ? blocks[lo].size : 0);
            }
            violation("use-after-free", "%s of %u bytes in released storage: %s", write ? "write" : "read", n, d);
        }
    }
    bool conflict = false;
    if (conc && s->id && known_storage(a)) conflict = race_access(a, n, write);
    if (conflict) res->shared_conflict++;
    yield_point(write ? K_WRITE : K_READ, conflict ? a : 0);
}
static void range_access(const void *p, size_t n, bool write) {
    if (!active || depth <= 0 || !n) return;
    uintptr_t a = (uintptr_t)p;
    size_t i = 0;
    while (i < n) { size_t k = n - i < 8 ? n - i : 8; access(a + i, (unsigned)k, write); i += k; }
}
} // namespace rt

using namespace rt;

// ------------------------------------------------------------------ replaced allocation functions
static void *op_new(size_t n, size_t align, bool nothrow) {
    void *p;
    if (hooked()) p = lib_alloc(n, align);
    else if (align > 16) { p = __real_aligned_alloc(align, (n + align - 1) & ~(align - 1)); }
    else p = __real_malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return op_new(n, 16, false); }
void *operator new[](size_t n) { return op_new(n, 16, false); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return op_new(n, (size_t)a, true); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_free(p); }

extern "C" {
void *__wrap_malloc(size_t n) { return hooked() ? lib_alloc(n, 16) : __real_malloc(n); }
void __wrap_free(void *p) { do_free(p); }
void *__wrap_calloc(size_t a, size_t b) {
    if (!hooked()) return __real_calloc(a, b);
    void *p = lib_alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!hooked() && !(p && in_arena(p))) return __real_realloc(p, n);
    void *q = lib_alloc(n, 16);
    if (q && p) {
        size_t old = n;
        if (in_arena(p)) old = blocks[gmap[((uintptr_t)p - ABASE) / GRAN]].size;
        memcpy(q, p, old < n ? old : n);
        do_free(p);
    }
    return q;
}
int __wrap_posix_memalign(void **o, size_t al, size_t n) {
    if (!hooked()) return __real_posix_memalign(o, al, n);
    void *p = lib_alloc(n, al);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return hooked() ? lib_alloc(n, al) : __real_aligned_alloc(al, n); }

// ------------------------------------------------------------------ locks used by library code
static bool simlock() { return hooked() && conc && self->id; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!simlock()) return __real_pthread_mutex_lock(m);
    yield_point(K_LOCK);
    Sync *s = sync_of((uintptr_t)m);
    while (s->owner) {
        if (s->owner == self->id) violation("deadlock", "a thread locks a mutex it already holds");
        block_on(m);
    }
    s->owner = self->id;
    vc_acquire(s->vc);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!simlock()) return __real_pthread_mutex_trylock(m);
    yield_point(K_LOCK);
    Sync *s = sync_of((uintptr_t)m);
    if (s->owner) return EBUSY;
    s->owner = self->id;
    vc_acquire(s->vc);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!simlock()) return __real_pthread_mutex_unlock(m);
    Sync *s = sync_of((uintptr_t)m);
    s->owner = 0;
    vc_release(s->vc);
    wake(m);
    yield_point(K_UNLOCK);
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!simlock()) return __real_pthread_rwlock_rdlock(m);
    yield_point(K_LOCK);
    Sync *s = sync_of((uintptr_t)m);
    while (s->owner) block_on(m);
    s->readers++;
    vc_acquire(s->vc);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!simlock()) return __real_pthread_rwlock_wrlock(m);
    yield_point(K_LOCK);
    Sync *s = sync_of((uintptr_t)m);
    while (s->owner || s->readers) block_on(m);
    s->owner = self->id;
    vc_acquire(s->vc);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!simlock()) return __real_pthread_rwlock_unlock(m);
    Sync *s = sync_of((uintptr_t)m);
    if (s->owner == self->id) s->owner = 0; else s->readers--;
    vc_release(s->vc);
    wake(m);
    yield_point(K_UNLOCK);
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
    if (!simlock()) return __real_pthread_once(o, f);
    yield_point(K_GUARD);
    Sync *s = sync_of((uintptr_t)o);
    while (s->owner) block_on(o);
    vc_acquire(s->vc);
    if (*(volatile int *)o & 2) return 0;
    s->owner = self->id;
    try { f(); } catch (...) { s->owner = 0; vc_release(s->vc); wake(o); throw; }
    *(volatile int *)o = 2;
    s->owner = 0;
    vc_release(s->vc);
    wake(o);
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t *g) {
    if (!simlock()) return __real___cxa_guard_acquire(g);
    yield_point(K_GUARD);
    Sync *s = sync_of((uintptr_t)g);
    while (s->owner) block_on(g);
    vc_acquire(s->vc);
    if (*(volatile char *)g) return 0;
    s->owner = self->id;
    return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
    Sync *s = simlock() ? sync_of((uintptr_t)g) : nullptr;
    if (!s || s->owner != self->id) { __real___cxa_guard_release(g); return; }
    *(volatile char *)g = 1;
    s->owner = 0;
    vc_release(s->vc);
    wake(g);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
    Sync *s = simlock() ? sync_of((uintptr_t)g) : nullptr;
    if (!s || s->owner != self->id) { __real___cxa_guard_abort(g); return; }
    s->owner = 0;
    vc_release(s->vc);
    wake(g);
}

// ------------------------------------------------------------------ instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) \
    void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read_write##n(void *p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { range_access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { range_access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range_access(s, n, false); range_access(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range_access(s, n, false); range_access(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range_access(d, n, true); return memset(d, c, n); }

static void atomic_point(const volatile void *p) {
    if (!active || depth <= 0 || !self) return;
    yield_point(K_ATOMIC);
    if (!conc || !self->id) return;
    Sync *s = sync_of((uintptr_t)p);
    vc_acquire(s->vc);
    vc_release(s->vc);
}
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { atomic_point(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atomic_point(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atomic_point(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atomic_point(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atomic_point(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atomic_point(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atomic_point(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atomic_point(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { atomic_point(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atomic_point(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { atomic_point(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atomic_point(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
