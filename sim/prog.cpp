#include "prog.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

const OpInfo op_info[OP_COUNT] = {
#define V 'V'
#define I 'I'
#define O 'O'
#define X(n, k) {#n, k},
    OPS(X)
#undef X
#undef V
#undef I
#undef O
};
__thread int phase_of_task = 0;

#define TYPES(X) X(D1d) X(D2d) X(D1s3) X(D2s3) X(D2s1) X(D2s0) X(D2s2) X(D2s6) X(D1s9) X(F2s2) X(F1d) X(SS) X(NS)
#define X(t) Engine *make_##t(); bool sup_##t(int);
TYPES(X)
#undef X
Engine *make_engine(const std::string &t) {
#define X(n) if (t == #n) return make_##n();
    TYPES(X)
#undef X
    return nullptr;
}
const std::vector<std::string> &engine_types() {
    static const std::vector<std::string> v = {
#define X(n) #n,
        TYPES(X)
#undef X
    };
    return v;
}
bool op_supported(const std::string &t, int code) {
#define X(n) if (t == #n) return sup_##n(code);
    TYPES(X)
#undef X
    return false;
}

std::string op_text(const Op &o) {
    char b[256];
    snprintf(b, sizeof b, "op t=%d code=%s d=%d a=%d b=%d c=%d s=%.17g n=%d fk=%d fa=%d ik=%d ia=%d lk=%d", o.t, op_info[o.code].name, o.d, o.a, o.b, o.c, o.s, o.n, o.fk, o.fa, o.ik, o.ia, o.lk);
    return b;
}
std::string to_text(const Prog &p) {
    std::ostringstream s;
    s << "hjsim-replay 1\n# prop type; threads and registers; environment; scheduler; operations (fk/fa: allocation fault, ik/ia: stream fault, lk: under the lock of shared jet d); context switches\n";
    s << "prop " << p.prop << "\ntype " << p.type << "\nseed " << p.seed << "\ninit " << p.init << "\nntask " << p.ntask << "\nn " << p.n
      << "\ngmode " << p.gmode << "\ngmode2 " << p.gmode2 << "\njitter " << p.jitter << "\ngarbage " << p.garbage << "\ngarbage2 " << p.garbage2
      << "\npolicy " << p.policy << "\np_inv " << p.p_inv << "\npct_d " << p.pct_d << "\nreplay " << (p.replay ? 1 : 0) << "\n";
    if (!p.violation.empty()) s << "violation " << p.violation << "\n";
    for (auto &o : p.ops) s << op_text(o) << "\n";
    for (auto &w : p.sched) s << "switch " << w.step << " " << (int)w.to << "\n";
    s << "end\n";
    return s.str();
}
bool from_text(const std::string &text, Prog &p, std::string &err) {
    std::istringstream in(text);
    std::string line;
    bool ended = false;
    p = Prog();
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k.empty() || k[0] == '#') continue;
        if (k == "hjsim-replay") continue;
        if (k == "end") { ended = true; break; }
        if (k == "prop") l >> p.prop;
        else if (k == "type") l >> p.type;
        else if (k == "seed") l >> p.seed;
        else if (k == "init") l >> p.init;
        else if (k == "ntask") l >> p.ntask;
        else if (k == "n") l >> p.n;
        else if (k == "gmode") l >> p.gmode;
        else if (k == "gmode2") l >> p.gmode2;
        else if (k == "jitter") l >> p.jitter;
        else if (k == "garbage") l >> p.garbage;
        else if (k == "garbage2") l >> p.garbage2;
        else if (k == "policy") l >> p.policy;
        else if (k == "p_inv") l >> p.p_inv;
        else if (k == "pct_d") l >> p.pct_d;
        else if (k == "replay") { int x; l >> x; p.replay = x; }
        else if (k == "violation") l >> p.violation;
        else if (k == "switch") { unsigned a; int b; l >> a >> b; p.sched.push_back({a, (uint8_t)b}); }
        else if (k == "op") {
            Op o;
            std::string kv;
            while (l >> kv) {
                auto q = kv.find('=');
                std::string key = kv.substr(0, q), v = kv.substr(q + 1);
                if (key == "code") {
                    o.code = -1;
                    for (int i = 0; i < OP_COUNT; i++) if (v == op_info[i].name) o.code = i;
                    if (o.code < 0) { err = "unknown operation " + v; return false; }
                } else if (key == "s") o.s = strtod(v.c_str(), nullptr);
                else {
                    int x = atoi(v.c_str());
                    if (key == "t") o.t = x; else if (key == "d") o.d = x; else if (key == "a") o.a = x; else if (key == "b") o.b = x; else if (key == "c") o.c = x;
                    else if (key == "n") o.n = x; else if (key == "fk") o.fk = x; else if (key == "fa") o.fa = x; else if (key == "ik") o.ik = x; else if (key == "ia") o.ia = x; else if (key == "lk") o.lk = x;
                    else { err = "unknown field " + key; return false; }
                }
            }
            p.ops.push_back(o);
        } else { err = "unknown line " + k; return false; }
        if (!l && k != "op") { err = "bad line " + line; return false; }
    }
    if (!ended) { err = "truncated"; return false; }
    return true;
}
