// hjsim: seeded search over simulated runs, replay and minimisation.
//
//   hjsim sweep   --prop C01 --seed S --from A --to B --cap SECONDS --out DIR --max-violations N
//   hjsim replay  FILE
//   hjsim minimize FILE OUT SECONDS
//   hjsim gen --prop C01 --seed S --index K        (prints the program)
#include "prog.h"
#include "simbuf.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using rt::Rng;

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ program generation (swarm style)
static const std::vector<int> &codes_of(const std::string &type, char kinds) {
    static std::map<std::pair<std::string, char>, std::vector<int>> cache;
    auto &v = cache[{type, kinds}];
    if (v.empty())
        for (int c = 0; c < OP_COUNT; c++) {
            if (!op_supported(type, c)) continue;
            char k = op_info[c].kind;
            bool in = kinds == '*' || kinds == k || (kinds == 'R' && k != 'I');
            if (in) v.push_back(c);
        }
    return v;
}
static std::vector<int> swarm(Rng &r, const std::vector<int> &all) {
    if (all.empty() || r.chance(1, 4)) return all;
    std::vector<int> v;
    int m = 1 + (int)r.below(8);
    for (int i = 0; i < m; i++) v.push_back(all[r.below(all.size())]);
    return v;
}
static std::string pick_type(Rng &r, const char *const *w, int n) { return w[r.below(n)]; }

static void set_fault(Rng &r, Op &o) {
    switch (r.below(10)) {
    case 0: case 1: case 2: case 3: case 4: o.fk = rt::F_ONE; o.fa = (int)r.below(r.chance(1, 4) ? 24 : 5); break;
    case 5: case 6: o.fk = rt::F_FROM; o.fa = (int)r.below(6); break;
    case 7: case 8: { o.fk = rt::F_SIZE; const int s[] = {8, 16, 24, 32, 48, 64, 128}; o.fa = s[r.below(7)]; break; }
    default: o.fk = rt::F_EVERY; o.fa = 1 + (int)r.below(3);
    }
}
static Op gen_op(Rng &r, int t, const std::vector<int> &codes, bool shared_operands) {
    Op o;
    o.t = t;
    o.code = codes[r.below(codes.size())];
    o.d = (int)r.below(4);
    auto reg = [&]() { return shared_operands ? 4 + (int)r.below(4) : (int)(r.chance(3, 4) ? r.below(4) : 4 + r.below(4)); };
    o.a = reg(); o.b = reg(); o.c = reg();
    if (r.chance(1, 6)) o.b = o.a;
    if (!shared_operands && op_info[o.code].kind == 'I' && r.chance(1, 4)) o.b = o.d; // x op= x
    o.s = r.chance(1, 8) ? (double)r.below(3) : r.range(-2, 2);
    o.n = (int)r.below(o.code == OP_STREAM ? 1 << 15 : 64);
    return o;
}
static Prog gen(const std::string &prop, uint64_t seed, uint64_t index) {
    // programs come in groups that share everything but the schedule
    bool grouped = prop == "C01" || prop == "C02" || prop == "C08" || prop == "C15";
    uint64_t g = grouped ? index / 8 : index, sub = grouped ? index % 8 : 0;
    uint64_t ph = 0;
    for (char c : prop) ph = rt::mix(ph, (unsigned char)c);
    Rng r(rt::mix(rt::mix(seed, ph), g));
    Prog p;
    p.prop = prop;
    p.init = 1 + r.below(1u << 30);
    { // number of variables: mostly few, sometimes many
        uint64_t z = r.below(40);
        p.n = z < 7 ? (int)r.below(2) : z < 35 ? 2 + (int)r.below(5) : z < 38 ? 7 + (int)r.below(12) : 19 + (int)r.below(22);
    }
    p.gmode = (int)r.below(5);
    p.gmode2 = (int)((p.gmode + 1 + r.below(4)) % 5);
    p.garbage = r.below(1u << 30);
    p.garbage2 = p.garbage + 1 + r.below(1000);
    p.jitter = r.chance(1, 2) ? (int)r.below(6) : 0;
    static const char *all[] = {"D2d", "D2d", "D1d", "SS", "SS", "D2s3", "D1s3", "D2s2", "D2s1", "D2s0", "D2s6", "D1s9", "F2s2", "F1d", "NS"};
    static const char *alloc[] = {"D2d", "D2d", "D1d", "SS", "SS", "NS", "F1d", "D2s3", "D1s3", "D2s6", "F2s2"};
    static const char *inpl[] = {"D2d", "D2d", "D2d", "D1d", "SS", "SS", "SS", "F1d"};
    static const char *acc[] = {"D2d", "D2d", "SS", "SS", "D1d", "D2s3", "D1s3", "D2s2", "D2s1", "D2s6", "D1s9", "F2s2", "F1d"};
    static const char *strm[] = {"D2d", "SS", "SS", "D2s3", "F1d", "D1s3", "D1s9"};
    auto add_tasks = [&](int nt, int lo, int hi, const std::vector<int> &codes, bool shared_ops, int faultden) {
        for (int t = 1; t <= nt; t++) {
            int m = lo + (int)r.below(hi - lo + 1);
            for (int i = 0; i < m; i++) {
                Op o = gen_op(r, t, codes, shared_ops && !r.chance(1, 5));
                if (faultden && r.chance(1, faultden)) set_fault(r, o);
                if (o.code == OP_STREAM && r.chance(1, 3)) { o.ik = 1 + (int)r.below(IO_N - 1); if (o.ik == IO_PREFAILED) o.ik = IO_EOF; o.ia = (int)r.below(20); }
                p.ops.push_back(o);
            }
        }
    };
    if (prop == "C01") {
        p.type = pick_type(r, all, 15);
        p.ntask = 2 + (int)r.below(3);
        auto codes = swarm(r, codes_of(p.type, 'R'));
        add_tasks(p.ntask, 1, 7, codes, true, 0);
    } else if (prop == "C02") {
        p.type = pick_type(r, all, 15);
        p.ntask = 2 + (int)r.below(3);
        auto codes = swarm(r, codes_of(p.type, '*'));
        int fd = r.chance(1, 2) ? 0 : 3;
        for (int t = 1; t <= p.ntask; t++) {
            int m = 1 + (int)r.below(8);
            for (int i = 0; i < m; i++) {
                Op o = gen_op(r, t, codes, false);
                // disjoint: own registers only
                o.a %= 4; o.b %= 4; o.c %= 4;
                if (fd && r.chance(1, fd)) set_fault(r, o);
                p.ops.push_back(o);
            }
        }
    } else if (prop == "C03") {
        p.type = pick_type(r, alloc, 11);
        p.ntask = 1;
        std::vector<int> codes = swarm(r, codes_of(p.type, 'R'));
        add_tasks(1, 1, 5, codes, false, 2);
        for (auto &o : p.ops) if (o.code == OP_STREAM) o.code = OP_STR;
        set_fault(r, p.ops.back());
    } else if (prop == "C04") {
        p.type = pick_type(r, inpl, 8);
        p.ntask = 1;
        auto codes = swarm(r, codes_of(p.type, 'I'));
        auto vals = codes_of(p.type, 'V');
        for (int i = 0, m = 1 + (int)r.below(6); i < m; i++) {
            Op o = gen_op(r, 1, r.chance(1, 5) ? vals : codes, false);
            if (r.chance(2, 3)) set_fault(r, o);
            p.ops.push_back(o);
        }
        Op o = gen_op(r, 1, codes, false);
        set_fault(r, o);
        p.ops.push_back(o);
    } else if (prop == "C05") {
        p.type = pick_type(r, all, 15);
        p.ntask = 1 + (int)(r.chance(1, 3) ? r.below(3) : 0);
        auto codes = swarm(r, codes_of(p.type, '*'));
        bool lng = r.chance(1, 24);
        add_tasks(p.ntask, lng ? 50 : 2, lng ? 90 : 14, codes, false, r.chance(1, 3) ? 0 : 3);
    } else if (prop == "C06") {
        p.type = pick_type(r, all, 15);
        p.ntask = 1;
        auto codes = swarm(r, codes_of(p.type, '*'));
        add_tasks(1, 1, 8, codes, false, 0);
        // unrelated earlier history: any operations, some of them failing
        auto all_codes = r.chance(1, 2) ? codes : codes_of(p.type, '*');
        for (int i = 0, m = (int)r.below(10); i < m; i++) {
            Op o = gen_op(r, 4, all_codes, false);
            o.a %= 4; o.b %= 4; o.c %= 4;
            if (r.chance(1, 3)) set_fault(r, o);
            p.ops.push_back(o);
        }
    } else if (prop == "C07") {
        p.type = pick_type(r, strm, 7);
        p.ntask = r.chance(1, 4) ? 2 : 1;
        auto vals = swarm(r, codes_of(p.type, 'V'));
        for (int t = 1; t <= p.ntask; t++)
            for (int i = 0, m = 1 + (int)r.below(5); i < m; i++) {
                Op o = gen_op(r, t, vals, false);
                if (i == m - 1 || r.chance(2, 3)) {
                    o.code = OP_STREAM;
                    o.ik = (int)r.below(IO_N);
                    o.ia = (int)r.below(r.chance(1, 2) ? 8 : 256);
                    if (r.chance(1, 3)) o.ia |= 64 | (r.chance(1, 2) ? 128 : 0);
                    o.n = (int)r.below(r.chance(1, 2) ? 64 : 1 << 15);
                    if (r.chance(1, 5)) set_fault(r, o);
                }
                p.ops.push_back(o);
            }
    } else if (prop == "C15") {
        p.type = pick_type(r, all, 15);
        p.ntask = 2 + (int)r.below(3);
        auto codes = swarm(r, codes_of(p.type, '*'));
        auto vals = codes_of(p.type, 'V');
        int nb = 1 + (int)r.below(3), fd = r.chance(1, 3) ? 4 : 0;
        for (int t = 1; t <= p.ntask; t++)
            for (int i = 0, m = 1 + (int)r.below(8); i < m; i++) {
                Op o = gen_op(r, t, r.chance(1, 3) ? vals : codes, false);
                if (r.chance(1, 2)) { o.lk = 2; o.d = (int)r.below(nb); o.ik = (int)r.below(7); o.s = 1; o.n = 0; o.code = OP_IADD; }
                else if (fd && r.chance(1, fd)) set_fault(r, o);
                p.ops.push_back(o);
            }
    } else if (prop == "C08") {
        p.type = pick_type(r, acc, 13);
        p.ntask = 2 + (int)r.below(3);
        static const int upd[] = {OP_IADD, OP_ISUB, OP_IMUL, OP_IDIV, OP_IADDS, OP_ISUBS, OP_IMULS, OP_IDIVS, OP_ASSIGN, OP_IMULF, OP_IMULG, OP_IDIVF, OP_IADDF};
        auto vals = codes_of(p.type, 'V');
        std::vector<int> u;
        for (int i = 0, m = 1 + (int)r.below(6); i < m; i++) u.push_back(upd[r.below(13)]);
        int na = 1 + (int)r.below(3), fd = r.chance(1, 3) ? 0 : 3;
        for (int t = 1; t <= p.ntask; t++)
            for (int i = 0, m = 1 + (int)r.below(6); i < m; i++) {
                if (r.chance(1, 5)) { p.ops.push_back(gen_op(r, t, vals, false)); continue; }
                Op o = gen_op(r, t, u, false);
                o.d = (int)r.below(na);
                o.lk = 1;
                o.c = r.chance(1, 5) ? 7 : 0;
                if (fd && r.chance(1, fd)) set_fault(r, o);
                p.ops.push_back(o);
            }
    }
    // schedule
    // refusals in several threads, and in the history before
    if ((prop == "C01" || prop == "C02" || prop == "C06" || prop == "C15") && r.chance(1, 7)) {
        const auto codes = codes_of(p.type, '*');
        if (std::find(codes.begin(), codes.end(), (int)OP_BADMAKE) != codes.end())
            for (auto &o : p.ops)
                if (!o.lk && r.chance(1, 2)) { o.code = OP_BADMAKE; o.n = (int)r.below(78); }
    }
    Rng q(rt::mix(rt::mix(seed, 0x5c4ed), index));
    p.seed = 1 + q.below(1u << 30);
    static const int pol[] = {1, 1, 2, 2, 3, 3, 4, 1};
    p.policy = pol[(sub + q.below(8)) % 8];
    static const int inv[] = {2, 5, 20, 60, 200};
    p.p_inv = inv[q.below(5)];
    p.pct_d = 1 + (int)q.below(4);
    return p;
}

// ------------------------------------------------------------------ one child process
struct Outcome {
    int status = 0;          // rt::Status; S_ERROR when the child gave no answer
    std::string cls, msg;
    int phase = 0;
    uint64_t hash = 0;
};
enum RunKind { RK_ALONE, RK_CONC, RK_SERIAL, RK_ROUNDS, RK_NOISE, RK_ORDER };
static std::vector<uint16_t> hand_order;   // RK_ORDER: the hand-overs of the run to repeat in one thread

static std::unique_ptr<Engine> engines_of(const std::string &t) { return std::unique_ptr<Engine>(make_engine(t)); }
static Engine *cur_eng;
static const Prog *cur_prog;
static Mode cur_mode;
// jets a thread keeps to itself end with it: registered first, so destroyed after whatever the library keeps per thread
struct Keeper {
    int id = 0;
    ~Keeper() { rt::lib_leave(); if (id) cur_eng->thread_ends(id); rt::lib_enter(); }
};
static void task_main(int id, void *) {
    if (cur_prog->prop == "C15" && rt::concurrent()) {
        static thread_local Keeper keeper;
        keeper.id = id;
    }
    int i = 0;
    for (auto &o : cur_prog->ops) if (o.t == id) cur_eng->exec(o, i++, cur_mode);
    if (cur_prog->prop == "C15" && rt::concurrent()) cur_eng->thread_about_to_end(id);
}

static void child(const Prog &p, RunKind k, Mode m, int only, uint32_t est) {
    rt::Config c;
    c.seed = p.seed;
    c.policy = p.policy; c.p_inv = p.p_inv; c.pct_d = p.pct_d; c.est_steps = est;
    c.replay = p.replay;
    c.sched = p.sched.data(); c.nsched = (uint32_t)p.sched.size();
    c.garbage = p.garbage; c.garbage_mode = p.gmode; c.layout_jitter = p.jitter;
    if (k == RK_NOISE) { c.garbage = p.garbage2; c.garbage_mode = p.gmode2; c.layout_jitter = p.jitter + 3; }
    if (p.prop == "C06") c.caller = k == RK_NOISE ? 2 : 1;
    rt::begin(c);
    cur_eng = engines_of(p.type).release();
    cur_prog = &p;
    cur_mode = m;
    if (k == RK_ROUNDS) {
        uint64_t live[3];
        for (int round = 0; round < 3; round++) {
            cur_eng->setup(p);
            rt::res->nhand = 0;
            if (p.ntask > 1) {
                for (int t = 1; t <= p.ntask; t++) rt::spawn(task_main, nullptr);
                rt::run_tasks();
            } else {
                task_main(1, nullptr);
            }
            cur_eng->check_shared("after the run");
            rt::set_op("destruction of all jets");
            cur_eng->teardown();
            live[round] = rt::live_blocks();
        }
        if (live[1] > live[0] && live[2] > live[1]) rt::violation("leak", "each repetition of the history leaves %lu allocations behind", (unsigned long)(live[2] - live[1]));
        rt::finish();
    }
    cur_eng->setup(p);
    switch (k) {
    case RK_ALONE: task_main(only, nullptr); break;
    case RK_CONC:
        for (int t = 1; t <= p.ntask; t++) rt::spawn(task_main, nullptr);
        rt::run_tasks();
        break;
    case RK_SERIAL: for (int t = 1; t <= p.ntask; t++) task_main(t, nullptr); break;
    case RK_NOISE:
        task_main(4, nullptr);
        if (p.garbage2 & 1) { rt::spawn(task_main, nullptr); rt::run_tasks(); }   // in another thread
        else task_main(1, nullptr);
        break;
    case RK_ORDER: {
        int pos[rt::MAXT] = {};
        auto upto = [&](int t, int last) {
            int i = 0;
            for (auto &o : p.ops) if (o.t == t) { if (i >= pos[t] && i <= last) cur_eng->exec(o, i, m); i++; }
            pos[t] = last + 1;
        };
        for (uint16_t h : hand_order) upto(h >> 8, h & 255);
        for (int t = 1; t <= p.ntask; t++) upto(t, 1 << 20);
        break;
    }
    default: break;
    }
    rt::set_op("end of run");
    cur_eng->check_shared("after the run");
    rt::finish();
}
static Outcome fork_run(const Prog &p, RunKind k, Mode m, int only = 0, uint32_t est = 2000) {
    rt::res->status = 0;
    rt::res->phase = 0;
    pid_t pid = fork();
    if (pid == 0) { child(p, k, m, only, est); _exit(9); }
    int ws = 0;
    if (pid < 0) { perror("fork"); exit(2); }
    while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.status = rt::res->status;
    o.hash = rt::mix(rt::res->hash, rt::res->steps);
    if (o.status == rt::S_VIOLATION) { o.cls = rt::res->cls; o.msg = rt::res->msg; o.phase = rt::res->phase; }
    if (o.status == 0) {
        o.status = rt::S_VIOLATION;
        o.cls = "process-death";
        char b[300];
        snprintf(b, sizeof b, "the simulated process ended without an answer (%s %d) [op: %s]", WIFSIGNALED(ws) ? "signal" : "exit code", WIFSIGNALED(ws) ? WTERMSIG(ws) : WEXITSTATUS(ws), rt::res->curop[0]);
        o.msg = b;
        if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) o.status = rt::S_ERROR;
    }
    if (o.cls == "internal") o.status = rt::S_ERROR;
    return o;
}

// ------------------------------------------------------------------ one simulated run = baseline(s) + deciding run
struct Stats {
    uint64_t runs = 0, child_runs = 0, steps = 0, kinds[rt::K_N] = {}, faults[rt::F_N] = {}, io[12] = {}, probes[32] = {};
    uint64_t reported = 0, refused = 0, okops = 0, skipped = 0, retried = 0, switches = 0, contended = 0, preempt = 0, shared_conflict = 0, allocs = 0;
    uint64_t unsuitable = 0, nontrivial = 0;
    std::unordered_set<uint64_t> cov, hashes, scheds;
    void add() {
        const rt::Result &r = *rt::res;
        steps += r.steps;
        for (int i = 0; i < rt::K_N; i++) kinds[i] += r.kinds[i];
        for (int i = 0; i < rt::F_N; i++) faults[i] += r.faults[i];
        for (int i = 0; i < 12; i++) io[i] += r.io_faults[i];
        for (int i = 0; i < 32; i++) probes[i] += r.probes[i];
        reported += r.reported; refused += r.refused; okops += r.okops; skipped += r.skipped; retried += r.retried;
        switches += r.switches; contended += r.contended; preempt += r.preempt_in_op; shared_conflict += r.shared_conflict; allocs += r.allocs;
        for (uint32_t i = 0; i < r.ncov; i++) cov.insert(r.cov[i]);
    }
};
struct Base { // digests of each task running alone
    bool ok = false;
    uint32_t n[rt::MAXT] = {};
    uint64_t dig[rt::MAXT][rt::MAXOPS];
    uint8_t st[rt::MAXT][rt::MAXOPS];
    uint64_t steps = 0;
    Outcome bad;
};
static void keep(Base &b, int t) {
    b.n[t] = rt::res->ndig[t];
    memcpy(b.dig[t], rt::res->dig[t], sizeof b.dig[t]);
    memcpy(b.st[t], rt::res->st[t], sizeof b.st[t]);
}
static const Op *op_of(const Prog &p, int t, int i) {
    for (auto &o : p.ops) if (o.t == t && i-- == 0) return &o;
    return nullptr;
}
static bool base_of(const Prog &p, Base &b, Stats *s) {
    b = Base();
    for (int t = 1; t <= p.ntask; t++) {
        Outcome o = fork_run(p, RK_ALONE, M_PLAIN, t);
        if (s) s->child_runs++;
        if (o.status != rt::S_OK) { b.bad = o; return false; }
        keep(b, t);
        b.steps += rt::res->steps;
    }
    b.ok = true;
    return true;
}
static std::vector<rt::Switch> recorded();
static bool nontrivial(const std::string &prop) {
    const rt::Result &r = *rt::res;
    uint64_t f = 0, io = 0;
    for (int i = 1; i < rt::F_N; i++) f += r.faults[i];
    for (int i = 0; i < 8; i++) io += r.io_faults[i];
    if (prop == "C01" || prop == "C02") return r.preempt_in_op > 0;
    if (prop == "C03" || prop == "C04") return f > 0;
    if (prop == "C05") return r.allocs > 0 && (f > 0 || r.okops >= 3);
    if (prop == "C06") return r.okops > 0;
    if (prop == "C07") return f + io > 0;
    if (prop == "C15") return r.probes[11] > 0;
    if (prop == "C08") return r.preempt_in_op > 0 && r.probes[8] > 0;
    return true;
}
// Decides one program.  cls empty: held.
static Outcome decide(const Prog &p, Stats *s, Base *cache = nullptr) {
    Outcome o, none;
    none.status = rt::S_OK;
    if (s) s->runs++;
    auto account = [&]() { if (s) { s->child_runs++; s->add(); } };
    auto unsuitable = [&]() { if (s) s->unsuitable++; none.hash = 1; return none; };
    if (p.prop == "C01" || p.prop == "C02") {
        Base local, *b = cache ? cache : &local;
        if (!b->ok && b->bad.status == 0) base_of(p, *b, s);
        if (!b->ok) { if (b->bad.status == rt::S_ERROR) return b->bad; return unsuitable(); }
        o = fork_run(p, RK_CONC, M_PLAIN, 0, (uint32_t)b->steps);
        account();
        if (o.status == rt::S_OK) {
            for (int t = 1; t <= p.ntask && o.cls.empty(); t++)
                for (uint32_t i = 0; i < b->n[t] || i < rt::res->ndig[t]; i++) {
                    const Op *op = op_of(p, t, (int)i);
                    bool nomem = b->st[t][i] == 2 || rt::res->st[t][i] == 2;
                    if (op && op->fk && nomem && b->st[t][i] != rt::res->st[t][i]) break; // the fault met another allocation
                    if (b->dig[t][i] != rt::res->dig[t][i]) {
                        o.status = rt::S_VIOLATION;
                        o.cls = "result-differs";
                        char m[300];
                        snprintf(m, sizeof m, "operation #%u (%s on %s) of thread %d gives another result than when the thread runs alone", i, op ? op_info[op->code].name : "?", p.type.c_str(), t);
                        o.msg = m;
                        break;
                    }
                }
        }
        if (s && nontrivial(p.prop)) s->nontrivial++;
        return o;
    }
    if (p.prop == "C15") {
        o = fork_run(p, RK_ROUNDS, M_PLAIN, 0, 6000);
        account();
        if (s && nontrivial(p.prop)) s->nontrivial++;
        if (o.status != rt::S_OK) return o;
        Base b;
        for (int t = 1; t <= p.ntask; t++) keep(b, t);
        std::vector<rt::Switch> sw = recorded();
        hand_order.assign(rt::res->hand, rt::res->hand + rt::res->nhand);
        Outcome ref = fork_run(p, RK_ORDER, M_PLAIN);
        if (s) s->child_runs++;
        if (ref.status == rt::S_ERROR) return ref;
        if (ref.status == rt::S_OK) {
            bool stop = false;
            for (int t = 1; t <= p.ntask; t++)      // a fault that met another allocation makes everything after it incomparable
                for (uint32_t i = 0; i < b.n[t]; i++) if (b.st[t][i] != rt::res->st[t][i] && (b.st[t][i] == 2 || rt::res->st[t][i] == 2)) stop = true;
            for (int t = 1; t <= p.ntask && !stop && o.cls.empty(); t++)
                for (uint32_t i = 0; i < b.n[t] || i < rt::res->ndig[t]; i++)
                    if (b.dig[t][i] != rt::res->dig[t][i]) {
                        const Op *op = op_of(p, t, (int)i);
                        o.status = rt::S_VIOLATION;
                        o.cls = "result-differs";
                        char m[300];
                        snprintf(m, sizeof m, "operation #%u (%s on %s) of thread %d gives another result than the same operations in the same hand-over order in a single thread", i, op ? (op->lk ? "hand-over" : op_info[op->code].name) : "?", p.type.c_str(), t);
                        o.msg = m;
                        break;
                    }
        } else if (s) s->unsuitable++;
        rt::res->nsw = (uint32_t)sw.size();
        std::copy(sw.begin(), sw.end(), rt::res->sw);
        return o;
    }
    if (p.prop == "C06") {
        Outcome a = fork_run(p, RK_ALONE, M_PLAIN, 1);
        account();
        if (a.status != rt::S_OK) { o = a; return o; }
        Base b; keep(b, 1);
        o = fork_run(p, RK_NOISE, M_PLAIN);
        account();
        o.hash = rt::mix(o.hash, a.hash);
        if (o.status == rt::S_OK)
            for (uint32_t i = 0; i < b.n[1]; i++)
                if (b.dig[1][i] != rt::res->dig[1][i]) {
                    const Op *op = op_of(p, 1, (int)i);
                    o.status = rt::S_VIOLATION;
                    o.cls = "environment-dependent";
                    char m[300];
                    snprintf(m, sizeof m, "operation #%u (%s on %s) gives another result when fresh memory holds other garbage, objects lie elsewhere and unrelated operations ran before", i, op ? op_info[op->code].name : "?", p.type.c_str());
                    o.msg = m;
                    break;
                }
        if (s && nontrivial(p.prop)) s->nontrivial++;
        return o;
    }
    if (p.prop == "C03" || p.prop == "C04") {
        o = fork_run(p, RK_SERIAL, M_FAULTS);
        account();
        if (o.status == rt::S_VIOLATION && o.phase == PH_PLAIN && o.cls != "process-death") return unsuitable();
        if (s && nontrivial(p.prop)) s->nontrivial++;
        return o;
    }
    if (p.prop == "C05") {
        o = fork_run(p, RK_ROUNDS, M_PLAIN);
        account();
        if (s && nontrivial(p.prop)) s->nontrivial++;
        static const char *const mem[] = {"out-of-bounds", "use-after-free", "double-free", "bad-free", "bad-index", "segv", "abort", "sigfpe", "leak", "ill-formed", "terminate", "process-death", "no-progress"};
        if (o.status == rt::S_VIOLATION) {
            for (auto m : mem) if (o.cls == m) return o;
            return unsuitable();
        }
        return o;
    }
    if (p.prop == "C07") {
        o = fork_run(p, p.ntask > 1 ? RK_CONC : RK_SERIAL, M_STREAM);
        account();
        if (s && nontrivial(p.prop)) s->nontrivial++;
        return o;
    }
    if (p.prop == "C08") {
        o = fork_run(p, RK_CONC, M_ACC);
        account();
        if (s && nontrivial(p.prop)) s->nontrivial++;
        return o;
    }
    fprintf(stderr, "unknown property %s\n", p.prop.c_str());
    exit(2);
}
static std::vector<rt::Switch> recorded() { return std::vector<rt::Switch>(rt::res->sw, rt::res->sw + std::min<uint32_t>(rt::res->nsw, rt::MAXSW)); }
static uint64_t sched_hash() {
    uint64_t h = 1;
    for (uint32_t i = 0; i < rt::res->nsw; i++) h = rt::mix(h, ((uint64_t)rt::res->sw[i].step << 8) | rt::res->sw[i].to);
    return h;
}

// ------------------------------------------------------------------ minimisation
static bool same(const Prog &p, const std::string &cls, Outcome *out = nullptr) {
    Outcome o = decide(p, nullptr);
    if (out) *out = o;
    return o.status == rt::S_VIOLATION && o.cls == cls;
}
static bool conc_prop(const Prog &p) { return (p.prop == "C01" || p.prop == "C02" || p.prop == "C08" || p.prop == "C15" || ((p.prop == "C05" || p.prop == "C07") && p.ntask > 1)); }
// the reduced program fails the same way under some schedule; fixes that schedule
static bool same_searching(Prog &p, const std::string &cls, int tries) {
    if (!conc_prop(p)) return same(p, cls);
    Prog q = p;
    for (int i = 0; i < tries; i++) {
        if (i == 0) { q.replay = true; }                        // the old schedule
        else if (i == 1) { q.replay = true; q.sched.clear(); } // one thread after the other
        else {
            static const int pol[] = {3, 1, 2, 4};
            q.replay = false; q.sched.clear(); q.policy = pol[i % 4]; q.seed = 100 + i; q.p_inv = i % 3 ? 5 : 30;
        }
        if (same(q, cls)) {
            if (!q.replay) { q.sched = recorded(); q.replay = true; if (!same(q, cls)) continue; }
            p = q;
            return true;
        }
    }
    return false;
}
static Prog minimise(Prog p, const std::string &cls, double seconds) {
    double end = now_s() + seconds;
    auto time_left = [&]() { return now_s() < end; };
    if (conc_prop(p) && !p.replay) {
        if (!same(p, cls)) return p;
        Prog q = p;
        q.sched = recorded();
        q.replay = true;
        if (same(q, cls)) p = q;
    }
    // operations
    bool progress = true;
    while (progress && time_left()) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && time_left(); chunk /= 2) {
            for (size_t i = 0; i < p.ops.size() && time_left();) {
                Prog q = p;
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(p.ops.size(), i + chunk));
                if (!q.ops.empty() && same_searching(q, cls, 14)) { p = q; progress = true; }
                else i += chunk;
            }
            if (chunk == 1) break;
        }
    }
    // simplify the environment and the arguments
    auto attempt = [&](auto &&edit) {
        if (!time_left()) return;
        Prog q = p;
        edit(q);
        if (same_searching(q, cls, 4)) p = q;
    };
    attempt([](Prog &q) { q.jitter = 0; });
    attempt([](Prog &q) { q.gmode = 0; });
    attempt([](Prog &q) { q.n = 2; });
    attempt([](Prog &q) { q.n = 1; });
    for (size_t i = 0; i < p.ops.size(); i++) {
        attempt([&](Prog &q) { q.ops[i].fk = q.ops[i].fa = 0; });
        attempt([&](Prog &q) { q.ops[i].ik = q.ops[i].ia = 0; });
        if (p.ops[i].fk) attempt([&](Prog &q) { q.ops[i].fk = rt::F_ONE; q.ops[i].fa = 0; });
        attempt([&](Prog &q) { q.ops[i].n = 0; });
        attempt([&](Prog &q) { q.ops[i].s = 1; });
    }
    // context switches
    if (p.replay && conc_prop(p)) {
        progress = true;
        while (progress && time_left()) {
            progress = false;
            for (size_t chunk = std::max<size_t>(1, p.sched.size() / 2); chunk >= 1 && !p.sched.empty() && time_left(); chunk /= 2) {
                for (size_t i = 0; i < p.sched.size() && time_left();) {
                    Prog q = p;
                    q.sched.erase(q.sched.begin() + i, q.sched.begin() + std::min(p.sched.size(), i + chunk));
                    if (same(q, cls)) { p = q; progress = true; }
                    else i += chunk;
                }
                if (chunk == 1) break;
            }
        }
    }
    p.violation = cls;
    return p;
}

// ------------------------------------------------------------------ command line
static std::string arg(int argc, char **argv, const char *k, const char *def) {
    for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1];
    return def;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else if (c >= 127) o += '?';
        else o += c;
    }
    return o + "\"";
}
static bool load(const char *f, Prog &p) {
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    std::string err;
    if (!from_text(s.str(), p, err)) { fprintf(stderr, "%s: %s\n", f, err.c_str()); return false; }
    if (p.ops.empty() || !engines_of(p.type)) { fprintf(stderr, "%s: empty or unknown type\n", f); return false; }
    return true;
}
static void save(const std::string &f, const Prog &p) { std::ofstream o(f); o << to_text(p); }

int main(int argc, char **argv) {
    if (argc < 2) { fprintf(stderr, "usage\n"); return 2; }
    rt::init();
    { std::ostringstream w; w.imbue(sim_locale()); w << 12345.5 << 7L; } // lazily created facet caches exist before the first run
    rt::res = (rt::Result *)mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string cmd = argv[1];
    if (cmd == "gen") {
        Prog p = gen(arg(argc, argv, "--prop", "C01"), strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), strtoull(arg(argc, argv, "--index", "0").c_str(), 0, 10));
        fputs(to_text(p).c_str(), stdout);
        return 0;
    }
    if (cmd == "replay") {
        Prog p;
        if (argc < 3 || !load(argv[2], p)) return 2;
        Outcome o = decide(p, nullptr);
        if (o.status == rt::S_ERROR) { printf("{\"status\":\"error\",\"class\":%s,\"message\":%s}\n", jstr(o.cls).c_str(), jstr(o.msg).c_str()); return 2; }
        printf("{\"status\":\"%s\",\"class\":%s,\"message\":%s,\"hash\":\"%016llx\"}\n", o.status == rt::S_VIOLATION ? "violation" : "held", jstr(o.cls).c_str(), jstr(o.msg).c_str(), (unsigned long long)o.hash);
        return o.status == rt::S_VIOLATION ? 1 : 0;
    }
    if (cmd == "minimize") {
        Prog p;
        if (argc < 5 || !load(argv[2], p)) return 2;
        Outcome o = decide(p, nullptr);
        if (o.status != rt::S_VIOLATION) { printf("no violation\n"); return 2; }
        Prog q = minimise(p, o.cls, atof(argv[4]));
        save(argv[3], q);
        return 0;
    }
    if (cmd == "hashes") { // determinism proof: prints the event-log hash of each run
        std::string prop = arg(argc, argv, "--prop", "C01");
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), a = strtoull(arg(argc, argv, "--from", "0").c_str(), 0, 10), b = strtoull(arg(argc, argv, "--to", "100").c_str(), 0, 10);
        for (uint64_t i = a; i < b; i++) { Outcome o = decide(gen(prop, seed, i), nullptr); printf("%s %llu %016llx %d\n", prop.c_str(), (unsigned long long)i, (unsigned long long)o.hash, o.status); }
        return 0;
    }
    if (cmd != "sweep") { fprintf(stderr, "unknown command\n"); return 2; }
    std::string prop = arg(argc, argv, "--prop", "C01"), dir = arg(argc, argv, "--out", ".");
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), from = strtoull(arg(argc, argv, "--from", "0").c_str(), 0, 10), to = strtoull(arg(argc, argv, "--to", "1000").c_str(), 0, 10);
    double cap = atof(arg(argc, argv, "--cap", "60").c_str()), t0 = now_s();
    int maxv = atoi(arg(argc, argv, "--max-violations", "3").c_str());
    Stats s;
    std::string viol, samples;
    int nviol = 0, nsamples = 0;
    std::map<std::string, int> classes;
    Base base;
    uint64_t group = ~0ull, i;
    bool err = false;
    int lost = 0;
    bool grouped = prop == "C01" || prop == "C02";
    for (i = from; i < to; i++) {
        if ((i & 15) == 0 && now_s() - t0 > cap) break;
        Prog p = gen(prop, seed, i);
        if (grouped && i / 8 != group) { group = i / 8; base = Base(); }
        uint64_t nt0 = s.nontrivial;
        Outcome o = decide(p, &s, grouped ? &base : nullptr);
        if (o.status == rt::S_OK || o.status == rt::S_VIOLATION) { if (s.nontrivial > nt0) s.hashes.insert(o.hash); if (rt::res->nsw) s.scheds.insert(rt::mix(sched_hash(), rt::mix(p.init, p.ops.size()))); }
        if (nsamples < 2 && s.nontrivial > nt0 && o.status == rt::S_OK && p.ops.size() < 9) { samples += (nsamples ? "," : "") + jstr(to_text(p)); nsamples++; }
        if (o.status == rt::S_ERROR) { fprintf(stderr, "error in run %llu: %s %s\n", (unsigned long long)i, o.cls.c_str(), o.msg.c_str()); err = true; break; }
        if (o.status == rt::S_VIOLATION) {
            // gate: the same run again must fail the same way
            Outcome o2 = decide(p, nullptr);
            if (o2.status != o.status || o2.cls != o.cls) {
                fprintf(stderr, "run %llu is not reproducible: %s/%s %016llx/%016llx\n", (unsigned long long)i, o.cls.c_str(), o2.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)o2.hash);
                err = true;
                if (++lost > 8) break;
                continue;
            }
            std::string sig = o.cls + o.msg.substr(o.msg.find("op: ") == std::string::npos ? 0 : o.msg.find("op: "));
            if (classes[o.cls]++ > 1) { if (++nviol >= maxv * 8) break; continue; }
            char name[64];
            snprintf(name, sizeof name, "/raw-%llu.replay", (unsigned long long)i);
            p.violation = o.cls;
            save(dir + name, p);
            viol += (viol.empty() ? "" : ",") + std::string("{\"index\":") + std::to_string(i) + ",\"class\":" + jstr(o.cls) + ",\"message\":" + jstr(o.msg) + ",\"file\":" + jstr(dir + name) + "}";
            if (++nviol >= maxv) { i++; break; }
        }
    }
    static const char *kn[] = {"read", "write", "allocation", "release", "lock", "unlock", "atomic", "static-init guard", "operation start", "stream I/O", "exit"};
    static const char *fn[] = {"none", "single allocation failure", "persistent allocation failure", "large allocations fail", "periodic allocation failures"};
    static const char *in[] = {"none", "sink refuses bytes (full)", "sink throws", "transient sink failure", "stream failed beforehand", "short write", "slow sink", "sink out of memory", "flush fails"};
    std::ostringstream j;
    j << "{\"prop\":" << jstr(prop) << ",\"seed\":" << seed << ",\"from\":" << from << ",\"next\":" << i << ",\"error\":" << (err ? "true" : "false") << ",\"wall\":" << now_s() - t0
      << ",\"runs\":" << s.runs << ",\"processes\":" << s.child_runs << ",\"steps\":" << s.steps << ",\"unsuitable\":" << s.unsuitable << ",\"nontrivial\":" << s.nontrivial
      << ",\"okops\":" << s.okops << ",\"reported\":" << s.reported << ",\"refused\":" << s.refused << ",\"retried\":" << s.retried << ",\"skipped\":" << s.skipped
      << ",\"switches\":" << s.switches << ",\"preempt\":" << s.preempt << ",\"contended\":" << s.contended << ",\"conflicts\":" << s.shared_conflict << ",\"allocs\":" << s.allocs;
    j << ",\"kinds\":{";
    for (int k = 0; k < rt::K_N; k++) j << (k ? "," : "") << jstr(kn[k]) << ":" << s.kinds[k];
    j << "},\"faults\":{";
    for (int k = 1; k < rt::F_N; k++) j << (k > 1 ? "," : "") << jstr(fn[k]) << ":" << s.faults[k];
    for (int k = 1; k < IO_N; k++) j << "," << jstr(in[k]) << ":" << s.io[k];
    j << "},\"probes\":[";
    for (int k = 0; k < 16; k++) j << (k ? "," : "") << s.probes[k];
    j << "],\"violations\":[" << viol << "],\"samples\":[" << samples << "]}\n";
    std::ofstream(dir + "/result.json") << j.str();
    auto dump = [&](const char *n, const std::unordered_set<uint64_t> &v) {
        std::ofstream f(dir + n, std::ios::binary);
        for (uint64_t x : v) f.write((const char *)&x, 8);
    };
    dump("/hashes.bin", s.hashes);
    dump("/scheds.bin", s.scheds);
    dump("/cov.bin", s.cov);
    return err ? 2 : 0;
}
