// Seam under the Python module: heap, memory access checks, allocation faults
// and the scheduler of Python threads.  Linked into the simulated hyperjet
// module together with the unmodified binding sources, which are compiled with
// clang's -fsanitize=thread instrumentation (call-outs land here, no libtsan).
#include <Python.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <initializer_list>
#include <new>
#include <unwind.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define NOSAN __attribute__((no_sanitize("thread")))

namespace {

constexpr int MAXT = 6, MAXSW = 4000;
struct Switch { uint32_t step, to; };
struct Shared {                 // read by the parent; layout mirrored in pysim.py
    int32_t status;             // 0 running 2 violation 3 error
    int32_t nsw;
    char cls[64];
    char msg[1600];
    char op[320];
    uint64_t steps, opcode_points, native_points, switches, native_switches, gil_released, blocked;
    uint64_t allocs, frees, faults, accesses;
    uint64_t hash;
    uint64_t npc, pc[24];       // callers of the first allocation that was made to fail
    char where[400];            // innermost functions when a fatal signal arrived
    Switch sw[MAXSW];
};
Shared *sh;

// ------------------------------------------------------------------ heap
constexpr uintptr_t BASE = 0x6b0000000000ull;
constexpr size_t ARENA = 256u << 20, SHADOW = ARENA / 8;
uint8_t *shadow;                // addressable bytes of each 8-byte granule, 0..8
uintptr_t bump = BASE;
bool ready;
struct Head { uint32_t magic, cap; uint64_t size; Head *next, *prev_live, *next_live; uint64_t gen; }; // in front of every block
constexpr size_t HEAD = 48;
static_assert(sizeof(Head) == HEAD, "");
constexpr size_t RZ = 32;
constexpr uint8_t POISON = 0xDB, REDZONE = 0xFA;
Head *freelist[64];
Head *q_head, *q_tail;
uint32_t q_len, q_max = 64;
uint64_t live, gen;
Head live_list{0, 0, 0, nullptr, nullptr, nullptr, 0};
int fill_mode;
uint64_t fill_seed = 1;
size_t max_alloc = 64u << 20;
int fault_kind; uint32_t fault_arg, fault_no, fault_fired;
bool checks = true;

uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
[[noreturn]] void die(int status, const char *cls, const char *fmt, ...) {
    if (sh && sh->status == 0) {
        sh->status = status;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        va_list ap; va_start(ap, fmt);
        vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
        va_end(ap);
    }
    _exit(77);
}
void hash_event(uint64_t a) { if (sh) sh->hash = mix(sh->hash ^ a); }

void heap_init() {
    if (ready) return;
    void *a = mmap((void *)BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap(nullptr, SHADOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (a != (void *)BASE || s == MAP_FAILED || sh == MAP_FAILED) { fprintf(stderr, "hjs: cannot map the simulated heap\n"); _exit(3); }
    shadow = (uint8_t *)s;
    live_list.prev_live = live_list.next_live = &live_list;
    ready = true;
}
bool in_arena(const void *p) { return (uintptr_t)p - BASE < ARENA; }
int klass(size_t cap) { return cap <= 2048 ? (int)(cap / 64) : 33 + (63 - __builtin_clzll(cap)) - 11; }
size_t round_cap(size_t n) {
    if (n == 0) n = 1;
    if (n <= 2048) return (n + 63) / 64 * 64;
    size_t c = 4096;
    while (c < n) c *= 2;
    return c;
}
void set_shadow(uintptr_t p, size_t n, bool on) {
    uint8_t *s = shadow + (p - BASE) / 8;
    if (!on) { memset(s, 0, (n + 7) / 8); return; }
    memset(s, 8, n / 8);
    if (n % 8) s[n / 8] = n % 8;
}
uint8_t *user(Head *h) { return (uint8_t *)h + HEAD; }
void check_block(Head *h, bool freed) {
    uint8_t *u = user(h);
    if (freed) {
        for (size_t i = 0; i < h->size; i++)
            if (u[i] != POISON) die(2, "write-after-free", "released block of %lu bytes was written at offset %zu", (unsigned long)h->size, i);
    }
    for (size_t i = h->size; i < h->cap + RZ; i++)
        if (u[i] != REDZONE) die(2, "heap-overrun", "write behind a block of %lu bytes, at offset %zu", (unsigned long)h->size, i);
}
void *take(size_t n, size_t al) {
    (void)al; // blocks are 16-byte aligned; larger alignments do not occur in the module
    const size_t cap = round_cap(n);
    if (n > max_alloc || cap > ARENA / 4) return nullptr;
    const int k = klass(cap);
    Head *h = freelist[k];
    if (h && h->cap == cap) freelist[k] = h->next;
    else {
        const size_t total = HEAD + cap + RZ;
        if (bump + total > BASE + ARENA) return nullptr;
        h = (Head *)bump;
        bump += (total + 15) / 16 * 16;
    }
    h->magic = 0x51AB51AB; h->cap = (uint32_t)cap; h->size = n; h->gen = ++gen;
    h->next_live = live_list.next_live; h->prev_live = &live_list;
    live_list.next_live->prev_live = h; live_list.next_live = h;
    uint8_t *u = user(h);
    switch (fill_mode) {
    case 0: memset(u, 0, n); break;
    case 1: memset(u, 0xFF, n); break;
    case 2: memset(u, 0x41, n); break;
    default: for (size_t i = 0; i < n; i += 8) { uint64_t v = mix(fill_seed ^ h->gen * 1315423911u ^ i); if (fill_mode == 3) v = (v & 0x000fffffffffffffull) | 0x3ff0000000000000ull; memcpy(u + i, &v, n - i < 8 ? n - i : 8); }
    }
    memset(u + n, REDZONE, cap + RZ - n);
    set_shadow((uintptr_t)u, n, true);
    live++;
    sh->allocs++;
    return u;
}
void give(void *p) {
    Head *h = (Head *)((uint8_t *)p - HEAD);
    if (h->magic == 0xDEADF1EE) die(2, "double-free", "block of %lu bytes released twice", (unsigned long)h->size);
    if (h->magic != 0x51AB51AB) die(2, "bad-free", "release of a pointer that is not the start of a block");
    check_block(h, false);
    h->magic = 0xDEADF1EE;
    h->next_live->prev_live = h->prev_live; h->prev_live->next_live = h->next_live;
    memset(user(h), POISON, h->size);
    set_shadow((uintptr_t)user(h), h->size, false);
    live--;
    sh->frees++;
    h->next = nullptr;
    if (q_tail) q_tail->next = h; else q_head = h;
    q_tail = h;
    q_len++;
    while (q_len > q_max) {
        Head *o = q_head;
        q_head = o->next; if (!q_head) q_tail = nullptr;
        q_len--;
        check_block(o, true);
        const int k = klass(o->cap);
        o->next = freelist[k];
        freelist[k] = o;
    }
}
struct Range { uint64_t lo, len; } excl[512];   // code whose allocations are not made to fail
int n_excl; uint64_t excl_hits;
bool fault_now(size_t n) {
    if (!fault_kind) return false;
    const uint32_t i = fault_no++;
    bool f = false;
    switch (fault_kind) {
    case 1: f = i == fault_arg; break;              // one
    case 2: f = i >= fault_arg; break;              // all from
    case 3: f = n > fault_arg; break;               // larger than
    case 4: f = i % (fault_arg + 1) == fault_arg; break; // every
    }
    if (f) {
        struct W { uint64_t pc[40]; int n; } w{{}, 0};
        _Unwind_Backtrace([](_Unwind_Context *c, void *p) -> _Unwind_Reason_Code {
            W *w = (W *)p;
            if (w->n == 40) return _URC_END_OF_STACK;
            w->pc[w->n++] = (uint64_t)_Unwind_GetIP(c);
            return _URC_NO_REASON;
        }, &w);
        for (int i = 0; i < w.n; i++)
            for (int j = 0; j < n_excl; j++)
                if (w.pc[i] - excl[j].lo < excl[j].len) { excl_hits++; return false; }
        if (!fault_fired) { sh->npc = w.n < 24 ? w.n : 24; memcpy(sh->pc, w.pc, sh->npc * 8); }
        fault_fired++; sh->faults++;
    }
    return f;
}

// -------------------------------------------------------------- scheduler
enum St { UNUSED, RUN, WAIT_GIL, WAIT_ADDR, DONE };
struct Th { sem_t sem; St st; const void *addr; bool gilfree, in_module; };
Th th[MAXT];
int nth, cur = -1, nfree, gil_holder = -1;
bool active;
thread_local int me = -1;
sem_t main_sem;
uint64_t rng;
uint32_t p_op = 20, p_nat = 20, max_steps = 3000000;
uint64_t quantum;
bool replaying; const Switch *plan; uint32_t nplan, iplan;
uint64_t next() { rng += 0x9E3779B97F4A7C15ull; return mix(rng); }

bool can_run(int t) {
    if (th[t].st == RUN) return true;
    if (th[t].st == WAIT_GIL) return gil_holder == -1;
    return false;
}
int pick(bool other) {
    int c[MAXT], n = 0;
    for (int t = 0; t < nth; t++)
        if (can_run(t) && !(other && t == cur)) c[n++] = t;
    if (!n) return -1;
    return c[replaying ? 0 : next() % n];
}
void handoff(int to) {            // returns when this thread is chosen again
    if (to == me) return;
    if (sh->nsw < MAXSW) sh->sw[sh->nsw++] = {(uint32_t)sh->steps, (uint32_t)to};
    sh->switches++;
    hash_event(sh->steps * 8 + to);
    cur = to;
    sem_post(&th[to].sem);
    while (sem_wait(&th[me].sem)) {}
}
// whom to run at this point: me, or another one (voluntary)
int decide(uint32_t p) {
    sh->steps++;
    if (sh->steps > max_steps) die(3, "steps", "too many steps");
    if (replaying) {
        while (iplan < nplan && plan[iplan].step < sh->steps) iplan++;
        if (iplan < nplan && plan[iplan].step == sh->steps) { const int to = plan[iplan].to; if (to < nth && can_run(to)) return to; }
        return me;
    }
    if (p_op == 0) {              // each thread goes on for a drawn number of steps
        if (quantum) { quantum--; return me; }
        const int t = pick(true);
        const int g = t < 0 ? me : t;
        quantum = next() % (1u << next() % (th[g].gilfree ? 5 : 10));
        return g;
    }
    if (next() % p) return me;
    const int t = pick(true);
    return t < 0 ? me : t;
}
int forced() {                    // this thread cannot go on
    sh->steps++;
    int t = -1;
    if (replaying) {
        while (iplan < nplan && plan[iplan].step < sh->steps) iplan++;
        if (iplan < nplan && plan[iplan].step == sh->steps) { const int to = plan[iplan].to; if (to < nth && to != me && can_run(to)) t = to; }
    }
    if (t < 0) t = pick(true);
    if (t < 0) die(2, "deadlock", "no thread can proceed: thread %d waits for %s", me, th[me].st == WAIT_GIL ? "the interpreter lock" : "a lock");
    return t;
}
void wait_while_gil_taken() {
    th[me].st = WAIT_GIL;
    while (gil_holder != -1) { sh->blocked++; handoff(forced()); }
    th[me].st = RUN;
    gil_holder = me;
}
void native_point() {
    if (!active || me < 0 || nfree == 0) return;
    sh->native_points++;
    const int t = decide(p_nat);
    if (t != me) { sh->native_switches++; handoff(t); }
}
void released() {                 // this thread gave up the interpreter lock inside the module
    if (!active || me < 0) return;
    th[me].gilfree = true; nfree++; gil_holder = -1; sh->gil_released++;
    if (p_op == 0) quantum = quantum < 8 ? quantum : next() % 8;
    native_point();
}
void reacquire() {
    if (!active || me < 0) return;
    if (gil_holder == me) return;
    native_point();
    wait_while_gil_taken();
    if (th[me].gilfree) { th[me].gilfree = false; nfree--; }
}
// the interpreter has ended: what its objects lived in is not the module's to change any more
bool over;
void after_end(uintptr_t p, size_t n) {
    char here;
    if (p - ((uintptr_t)&here - (1u << 20)) < (16u << 20)) return;      // the stack
    Dl_info i;
    if (dladdr((void *)p, &i)) return;                                  // variables of a loaded object
    die(2, "after-end", "the module writes %zu bytes to memory of the interpreter after that has ended", n);
}
void access(uintptr_t p, size_t n, bool w) {
    if (p - BASE < ARENA) {
        sh->accesses++;
        if (checks) {
            const uintptr_t e = p + n;
            for (uintptr_t q = p; q < e;) {
                const uint8_t s = shadow[(q - BASE) / 8];
                const size_t off = q & 7, len = e - q < 8 - off ? e - q : 8 - off;
                if (off + len > s) die(2, w ? "invalid-write" : "invalid-read", "%s of %zu bytes outside live storage", w ? "write" : "read", n);
                q += len;
            }
        }
        native_point();
    } else if (over && w) after_end(p, n);
}
void range(const void *p, size_t n, bool w) { if (n) access((uintptr_t)p, n, w); }
void *alloc(size_t n, size_t al) {
    heap_init();
    if (fault_now(n)) return nullptr;
    native_point();
    return take(n, al);
}
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); }
void release(void *p) {
    if (!p) return;
    if (!in_arena(p)) { __real_free(p); return; }
    native_point();
    give(p);
}
void *op_new(size_t n, size_t al, bool nothrow) {
    void *p = alloc(n, al);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
} // namespace

void *operator new(size_t n) { return op_new(n, 16, false); }
void *operator new[](size_t n) { return op_new(n, 16, false); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p); }

extern "C" {
void *__wrap_malloc(size_t n) { return alloc(n, 16); }
void __wrap_free(void *p) { release(p); }
void *__wrap_calloc(size_t a, size_t b) {
    if (b && a > (size_t)-1 / b) return nullptr;
    void *p = alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return alloc(n, 16);
    if (!in_arena(p)) return __real_realloc(p, n);
    if (!n) { release(p); return nullptr; }
    void *q = alloc(n, 16);
    if (!q) return nullptr;
    const size_t o = ((Head *)((uint8_t *)p - HEAD))->size;
    memcpy(q, p, o < n ? o : n);
    release(p);
    return q;
}
int __wrap_posix_memalign(void **o, size_t al, size_t n) { void *p = alloc(n, al); if (!p) return 12; *o = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return alloc(n, al); }

// ---- interpreter lock, as used by the module
PyThreadState *__real_PyEval_SaveThread();
void __real_PyEval_RestoreThread(PyThreadState *);
void __real_PyEval_AcquireThread(PyThreadState *);
void __real_PyEval_ReleaseThread(PyThreadState *);
PyGILState_STATE __real_PyGILState_Ensure();
void __real_PyGILState_Release(PyGILState_STATE);
PyThreadState *__wrap_PyEval_SaveThread() { PyThreadState *s = __real_PyEval_SaveThread(); released(); return s; }
void __wrap_PyEval_RestoreThread(PyThreadState *s) { reacquire(); __real_PyEval_RestoreThread(s); }
void __wrap_PyEval_AcquireThread(PyThreadState *s) { reacquire(); __real_PyEval_AcquireThread(s); }
void __wrap_PyEval_ReleaseThread(PyThreadState *s) { __real_PyEval_ReleaseThread(s); released(); }
PyGILState_STATE __wrap_PyGILState_Ensure() { if (active && me >= 0 && gil_holder != me) reacquire(); return __real_PyGILState_Ensure(); }
void __wrap_PyGILState_Release(PyGILState_STATE s) { __real_PyGILState_Release(s); if (s == PyGILState_UNLOCKED) released(); }

// ---- locks, as used by the module
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active || me < 0) return __real_pthread_mutex_lock(m);
    for (;;) {
        native_point();
        const int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        th[me].st = WAIT_ADDR; th[me].addr = m; sh->blocked++;
        handoff(forced());
        th[me].st = RUN;
    }
}
static void wake(const void *a) { for (int t = 0; t < nth; t++) if (th[t].st == WAIT_ADDR && th[t].addr == a) th[t].st = RUN; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    const int r = __real_pthread_mutex_unlock(m);
    if (active && me >= 0) { wake(m); native_point(); }
    return r;
}
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
static uint64_t *in_init[8]; static int n_init;
int __wrap___cxa_guard_acquire(uint64_t *g) {
    if (active && me >= 0)
        for (;;) {
            bool busy = false;
            for (int i = 0; i < n_init; i++) busy |= in_init[i] == g;
            if (!busy) break;
            th[me].st = WAIT_ADDR; th[me].addr = g; sh->blocked++;
            handoff(forced());
            th[me].st = RUN;
        }
    const int r = __real___cxa_guard_acquire(g);
    if (r && active && n_init < 8) in_init[n_init++] = g;
    return r;
}
static void init_done(uint64_t *g) { for (int i = 0; i < n_init; i++) if (in_init[i] == g) { in_init[i] = in_init[--n_init]; break; } if (active && me >= 0) wake(g); }
void __wrap___cxa_guard_release(uint64_t *g) { __real___cxa_guard_release(g); init_done(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { __real___cxa_guard_abort(g); init_done(g); }

// ---- instrumentation call-outs
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) \
    void __tsan_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_unaligned_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access((uintptr_t)p, n, false); } \
    void __tsan_volatile_write##n(void *p) { access((uintptr_t)p, n, true); } \
    void __tsan_read_write##n(void *p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read_write##n(void *p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { range(p, n, false); }
void __tsan_write_range(void *p, size_t n) { range(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range(s, n, false); range(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range(s, n, false); range(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range(d, n, true); return memset(d, c, n); }
#define ATOM(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { native_point(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { native_point(); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { native_point(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { native_point(); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { native_point(); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { native_point(); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { native_point(); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { native_point(); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { native_point(); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { native_point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { native_point(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { native_point(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ------------------------------------------------------ control, via ctypes
EXPORT void *hjs_shared() { heap_init(); return sh; }
static void on_fatal(int sig) {
    struct W { int n; size_t len; } w{0, 0};
    _Unwind_Backtrace([](_Unwind_Context *c, void *p) -> _Unwind_Reason_Code {
        W *w = (W *)p;
        if (w->n++ > 14) return _URC_END_OF_STACK;
        Dl_info i;
        const char *f = "?", *fn = "?";
        if (dladdr((void *)_Unwind_GetIP(c), &i)) {
            if (i.dli_fname) { f = strrchr(i.dli_fname, '/'); f = f ? f + 1 : i.dli_fname; }
            if (i.dli_sname) fn = i.dli_sname;
        }
        if (!strcmp(fn, "?")) w->len += snprintf(sh->where + w->len, sizeof sh->where - w->len, "%s%.20s+0x%lx", w->len ? " < " : "", f, (unsigned long)(_Unwind_GetIP(c) - (uint64_t)i.dli_fbase));
        else w->len += snprintf(sh->where + w->len, sizeof sh->where - w->len, "%s%.20s:%.50s", w->len ? " < " : "", f, fn);
        if (w->len >= sizeof sh->where) w->len = sizeof sh->where - 1;
        return _URC_NO_REASON;
    }, &w);
    signal(sig, SIG_DFL);
    raise(sig);
}
EXPORT void hjs_begin(uint64_t seed, int fill, uint32_t quarantine) {  // in the forked run
    memset(sh, 0, sizeof *sh);
    fill_mode = fill; fill_seed = seed; q_max = quarantine;
    rng = seed;
    static char alt[1 << 16];
    stack_t st; st.ss_sp = alt; st.ss_size = sizeof alt; st.ss_flags = 0;
    sigaltstack(&st, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_fatal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(g, &sa, nullptr);
}
EXPORT void hjs_arm(int kind, uint32_t arg) { fault_kind = kind; fault_arg = arg; fault_no = 0; fault_fired = 0; }
EXPORT uint32_t hjs_disarm() { fault_kind = 0; return fault_fired; }
EXPORT void hjs_exclude(uint64_t lo, uint64_t len) { if (n_excl < 512) excl[n_excl++] = {lo, len}; }
EXPORT uint64_t hjs_allocs() { return sh->allocs; }
EXPORT uint64_t hjs_live() { return live; }
EXPORT uint64_t hjs_gen() { return gen; }
EXPORT uint64_t hjs_live_since(uint64_t g, uint64_t *size) { // live blocks made after g
    uint64_t n = 0;
    for (Head *h = live_list.next_live; h != &live_list; h = h->next_live) if (h->gen > g) { n++; *size = h->size; }
    return n;
}
EXPORT void hjs_check_heap() {
    for (Head *h = live_list.next_live; h != &live_list; h = h->next_live) check_block(h, false);
    for (Head *h = q_head; h; h = h->next) check_block(h, true);
}
// 1: [p, p+n) is live storage of one block or not in the simulated heap at all; 0: dead
EXPORT int hjs_addressable(uint64_t p, uint64_t n) {
    if (p - BASE >= ARENA) return 1;
    for (uint64_t q = p; q < p + n; q++) if ((q & 7) >= shadow[(q - BASE) / 8]) return 0;
    return 1;
}
EXPORT void hjs_end() { Py_AtExit([] { hjs_check_heap(); over = true; }); }
EXPORT void hjs_hash(uint64_t v) { hash_event(v); }
EXPORT void hjs_violation(const char *cls, const char *msg) { die(2, cls, "%s", msg); }
// fresh stack memory of the next operation has contents given by the fill mode
__attribute__((noinline)) static void fill_stack() {
    volatile uint64_t a[8192];
    uint64_t v = fill_mode == 0 ? 0 : fill_mode == 1 ? ~0ull : fill_mode == 2 ? 0x4141414141414141ull : mix(fill_seed);
    if (fill_mode == 3) v = (v & 0x000fffffffffffffull) | 0x3ff0000000000000ull;
    for (auto &x : a) x = v;
}
EXPORT void hjs_op(const char *s) { snprintf(sh->op, sizeof sh->op, "%s", s); fill_stack(); }

// threads: hjs_setup, then each thread calls hjs_enter(id) ... hjs_leave(id), main calls hjs_run()
EXPORT void hjs_setup(int n, uint64_t seed, uint32_t pop, uint32_t pnat, const uint32_t *sched, uint32_t nsched, int replay) {
    nth = n; rng = seed; p_op = pop; quantum = 0; p_nat = pnat; cur = -1; nfree = 0; gil_holder = -1; active = false;
    replaying = replay; iplan = 0; nplan = nsched;
    Switch *p = (Switch *)__real_malloc(sizeof(Switch) * (nsched + 1));
    for (uint32_t i = 0; i < nsched; i++) p[i] = {sched[2 * i], sched[2 * i + 1]};
    plan = p;
    sem_init(&main_sem, 0, 0);
    for (int i = 0; i < n; i++) { sem_init(&th[i].sem, 0, 0); th[i].st = UNUSED; th[i].gilfree = false; }
}
EXPORT void hjs_enter(int id) {
    me = id;
    th[id].st = WAIT_GIL;
    PyThreadState *s = __real_PyEval_SaveThread();
    sem_post(&main_sem);
    while (sem_wait(&th[id].sem)) {}
    __real_PyEval_RestoreThread(s);
    th[id].st = RUN;
    gil_holder = id;
}
EXPORT void hjs_wait_registered() {
    PyThreadState *s = __real_PyEval_SaveThread();
    while (sem_wait(&main_sem)) {}
    __real_PyEval_RestoreThread(s);
}
EXPORT void hjs_run() {
    PyThreadState *s = __real_PyEval_SaveThread();
    active = true;
    cur = replaying && nplan && plan[0].step == 0 && (int)plan[0].to < nth ? (int)plan[0].to : (int)(replaying ? 0 : next() % nth);
    if (sh->nsw < MAXSW) sh->sw[sh->nsw++] = {0, (uint32_t)cur};
    sem_post(&th[cur].sem);
    while (sem_wait(&main_sem)) {}
    active = false;
    __real_PyEval_RestoreThread(s);
    for (int i = 0; i < nth; i++) sem_post(&th[i].sem);   // let them end
}
EXPORT void hjs_leave(int id) {
    th[id].st = DONE;
    gil_holder = -1;
    PyThreadState *s = __real_PyEval_SaveThread();
    bool all = true;
    for (int t = 0; t < nth; t++) all &= th[t].st == DONE;
    if (all) sem_post(&main_sem);
    else {
        const int t = forced();
        if (sh->nsw < MAXSW) sh->sw[sh->nsw++] = {(uint32_t)sh->steps, (uint32_t)t};
        hash_event(sh->steps * 8 + t);
        cur = t;
        sem_post(&th[t].sem);
    }
    while (sem_wait(&th[id].sem)) {}   // until hjs_run has ended
    me = -1;
    __real_PyEval_RestoreThread(s);
}
EXPORT void hjs_point() {              // between two bytecodes of a thread
    if (!active || me < 0) return;
    sh->opcode_points++;
    gil_holder = -1;                   // the interpreter could give up its lock here
    const int t = decide(p_op);
    if (t == me) { gil_holder = me; return; }
    th[me].st = WAIT_GIL;
    PyThreadState *s = __real_PyEval_SaveThread();
    handoff(t);
    while (gil_holder != -1) { sh->blocked++; handoff(forced()); }
    __real_PyEval_RestoreThread(s);
    th[me].st = RUN;
    gil_holder = me;
}
EXPORT uint64_t hjs_step() { return sh->steps; }
