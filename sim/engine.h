#pragma once
// The real library, instrumented.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <stdexcept>
#include <algorithm>
#include <hyperjet/hyperjet.h>

#include "model.h"
#include "prog.h"
#include "rt.h"
#include "simbuf.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <typeinfo>

namespace hj = hyperjet;

template <class> struct Kind;
template <hj::index O, class S, hj::index N> struct Kind<hj::DDScalar<O, S, N>> {
    static constexpr bool sparse = false, dyn = N == hj::Dynamic;
    static constexpr bool nested = !std::is_arithmetic_v<S>;
    static constexpr int order = (int)O, size = (int)N;
};
template <class S> struct Kind<hj::SScalar<S>> {
    static constexpr bool sparse = true, dyn = false, nested = false;
    static constexpr int order = 1, size = -2;
};

// "e" names exceed the small-string buffer so that copying a name allocates
constexpr int NN = 16;
static const char *const NAMES[NN] = {"x", "y", "z", "node_17_displacement_u", "node_17_displacement_v", "w", "", "q1", "q2", "a_name_of_exactly_", "lambda", "X", "node_17_displacement_", "t", "u v", "q10"};

using Bits = std::vector<uint64_t>;
static inline uint64_t bits_of(double d) { uint64_t u; memcpy(&u, &d, 8); if (d != d) return 0x7ff8000000000000ull; return u; }

static inline void flat(double v, Bits &b) { b.push_back(bits_of(v)); }
static inline void flat(float v, Bits &b) { b.push_back(bits_of((double)v)); }
static inline void flat(const hj::SScalar<double> &v, Bits &b) {
    // forwards and backwards in turn: the first derivative asked for is the last one asked for before,
    // usually of another jet
    static thread_local bool back = false;
    b.push_back(bits_of(v.f()));
    const size_t at = b.size();
    b.resize(at + NN);
    if (back) for (int i = NN - 1; i >= 0; i--) b[at + i] = bits_of(v.d(NAMES[i]));
    else for (int i = 0; i < NN; i++) b[at + i] = bits_of(v.d(NAMES[i]));
    back = !back;
    b.push_back((uint64_t)v.size());
}
template <hj::index O, class S, hj::index N> static inline void flat(const hj::DDScalar<O, S, N> &v, Bits &b) {
    b.push_back((uint64_t)v.size());
    b.push_back((uint64_t)v.data().size());
    for (const auto &x : v.data()) flat(x, b);
}
static uint64_t digest_bits(const Bits &b) {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t x : b) h = rt::mix(h, x);
    return h;
}

enum OpStatus { ST_OK, ST_NOMEM, ST_REFUSED, ST_OTHER, ST_SKIP };

template <class T> struct Eng : Engine {
    using K = Kind<T>;
    using S = typename T::Scalar;
    static constexpr int NP = 4, NS = 4, NA = 3;
    Prog P;
    T *priv[rt::MAXT][NP] = {};
    T *shared[NS] = {};
    Bits shared0[NS];
    T *acc[NA] = {};
    Bits acc_last[NA];
    uint64_t acc_n[NA] = {};
    rt::Mutex lk[NA];

    struct Out {
        int kind = 0; // 0 none 1 jet 2 values 3 text
        T *jet = nullptr;
        double v[480]; int nv = 0;
        char text[2048]; size_t nt = 0;
        void put(double x) { if (nv < 480) v[nv++] = x; }
        void put(const hj::SScalar<double> &x) { put(x.f()); for (const char *n : NAMES) put(x.d(n)); }
        void put_text(const std::string &s) { nt = s.size() < sizeof text ? s.size() : sizeof text; memcpy(text, s.data(), nt); }
    };

    // ---------------------------------------------------------------- construction
    static bool &coarse() { static bool b = false; return b; }   // few distinct values: operands agree in part
    static double tame(rt::Rng &r) {
        double v = coarse() ? 0.5 * (double)(1 + r.below(4)) : r.range(0.3, 1.9);
        if (r.chance(1, 3)) v = -v;
        const uint64_t k = r.below(24);
        if (k == 0) return 0;
        if (k == 1) return v * 1e-12;
        if (k == 2) return v * 1e12;
        if (k == 3 && r.chance(1, 3)) {
            static const double odd[] = {-0.0, __builtin_inf(), -__builtin_inf(), __builtin_nan(""), 5e-324, 1e308};
            return odd[r.below(6)];
        }
        return v;
    }
    template <class X> static X scalar(rt::Rng &r, double f) {
        if constexpr (std::is_arithmetic_v<X>) { (void)r; return (X)f; }
        else { typename X::Data d; int m = (int)r.below(3); for (int i = 0; i < m; i++) d[NAMES[r.below(6)]] = tame(r); return X(f, d); }
    }
    static void build(T *at, rt::Rng &r, int n) {
        rt::LibScope L;
        double f = tame(r);
        if constexpr (K::sparse) {
            typename T::Data d;
            int m = n > 6 ? 4 + (int)r.below(20) : n > 0 ? 1 + (int)r.below(5) : 0;
            for (int i = 0; i < m; i++) d[NAMES[r.below(n > 6 ? NN : 6)]] = tame(r);
            new (at) T(f, d);
        } else if constexpr (K::dyn) {
            typename T::Data d((size_t)T::data_length_from_size(n));
            d[0] = (S)f;
            for (size_t i = 1; i < d.size(); i++) d[i] = (S)tame(r);
            new (at) T(T::create(d));
        } else {
            typename T::Data d;
            d[0] = scalar<S>(r, f);
            for (size_t i = 1; i < d.size(); i++) d[i] = scalar<S>(r, tame(r));
            new (at) T(T::create(d));
        }
    }
    static T *mem() { return (T *)rt::raw_alloc(sizeof(T), alignof(T)); }
    static T *fresh(rt::Rng &r, int n) { T *p = mem(); build(p, r, n); return p; }
    static T *clone(const T &x) { T *p = mem(); rt::LibScope L; new (p) T(x); return p; }
    static void destroy(T *&p) { if (!p) return; { rt::LibScope L; p->~T(); } rt::raw_free(p); p = nullptr; }
    static Bits snap(const T &x) { Bits b; flat(x, b); return b; }
    static bool wellformed(const T &x) {
        if constexpr (K::dyn) return x.size() >= 0 && (hj::index)x.data().size() == T::data_length_from_size(x.size());
        else return true;
    }
    int base_n() const { return K::dyn ? P.n : K::size > 0 ? K::size : P.n; }

    uint64_t type_hash = 0;
    void setup(const Prog &p) override {
        P = p;
        for (char ch : p.type) type_hash = rt::mix(type_hash, (unsigned char)ch);
        rt::Rng r(rt::mix(p.init, 5));
        coarse() = (p.init >> 3) % 3 == 0;
        for (int s = 0; s < NS; s++) { shared[s] = fresh(r, base_n()); shared0[s] = snap(*shared[s]); }
        for (int t = 1; t < rt::MAXT; t++) for (int i = 0; i < NP; i++) priv[t][i] = fresh(r, base_n());
        for (int a = 0; a < NA; a++) { acc[a] = fresh(r, base_n()); acc_last[a] = snap(*acc[a]); box_from[a] = 0; }
    }
    // some of the thread's operations again, on copies of what it keeps to itself
    std::vector<Bits> again[rt::MAXT];
    std::vector<Bits> some_work(int t) {
        std::vector<Bits> r;
        std::vector<Op> todo;
        for (size_t i = P.ops.size(); i-- > 0 && todo.size() < 3;) if (P.ops[i].t == t && !P.ops[i].lk && P.ops[i].code != OP_STREAM) todo.push_back(P.ops[i]);
        Op o;
        o.t = t; o.a = 1; o.b = 2; o.c = 1; o.s = 1.5;
        for (int code : {OP_IDIV, OP_IMUL, OP_EVAL, OP_STR}) { o.code = code; todo.push_back(o); }
        for (Op &o : todo) {
            if (!supported(o.code)) continue;
            T *tgt = clone(*priv[t][1]);
            const T &a = *reg(t, o.a), &b = *reg(t, o.b), &c = *reg(t, o.c);
            if (in_domain(o.code, a, b, c, o.s) && !(o.code == OP_IDIVF && fabs(fval(*tgt)) <= 0.05) && !(o.code == OP_IDIV && fabs(fval(*tgt)) <= 0.05)) {
                Out out;
                T *at = op_info[o.code].kind == 'V' ? mem() : nullptr;
                OpStatus st = attempt(o, op_info[o.code].kind == 'I' ? tgt : nullptr, a, b, c, at, out, false);
                Bits v = op_info[o.code].kind == 'I' ? snap(*tgt) : out_bits(out);
                v.push_back((uint64_t)st);
                r.push_back(v);
                drop(out);
                if (at) rt::raw_free(at);
            }
            destroy(tgt);
        }
        return r;
    }
    void thread_about_to_end(int t) override {
        rt::set_op("last operations of a thread");
        again[t] = some_work(t);
    }
    void thread_ends(int t) override {
        rt::set_op("operations of a thread that ends, after the library's own thread-local objects");
        if (some_work(t) != again[t]) rt::violation("thread-end-differs", "an operation made while the thread ends gives another result than before");
        rt::set_op("destruction of jets by a thread that ends");
        destroy(priv[t][0]);
        if (P.init & 1) destroy(priv[t][2]);
        if (P.init & 2) { T *q = clone(*priv[t][1]); destroy(q); }
    }
    void teardown() override {
        for (auto &s : shared) destroy(s);
        for (auto &t : priv) for (auto &q : t) destroy(q);
        for (auto &a : acc) destroy(a);
    }
    void check_shared(const char *when) override {
        for (int s = 0; s < NS; s++)
            if (snap(*shared[s]) != shared0[s]) rt::violation("operand-changed", "shared jet %d changed its contents (%s)", s, when);
    }
    T *reg(int t, int i) { i %= (NP + NS); return i < NP ? priv[t][i] : shared[i - NP]; }

    // ---------------------------------------------------------------- domain of functions
    static double fval(const T &x) {
        if constexpr (K::nested) return x.f().f();
        else return (double)x.f();
    }
    static int in_domain(int code, const T &a, const T &b, const T &c, double s) {
        double f = fval(a), g = fval(b), h = fval(c);
        switch (code) {
        case OP_SQRT: case OP_LOG: case OP_LOG2: case OP_LOG10: case OP_POW: case OP_POWF: case OP_LOGB: return f > 0.05;
        case OP_CBRT: case OP_RECIP: case OP_SDIV: case OP_POWI: return fabs(f) > 0.05;
        case OP_ASIN: case OP_ACOS: case OP_ATANH: return fabs(f) < 0.95;
        case OP_ACOSH: return f > 1.05;
        case OP_TAN: return fabs(cos(f)) > 0.1;
        case OP_DIV: case OP_IDIV: return fabs(g) > 0.05;
        case OP_DIVS: case OP_IDIVS: return fabs(s) > 0.05;
        case OP_ATAN2: case OP_HYPOT2: return f * f + g * g > 0.01;
        case OP_HYPOT3: return f * f + g * g + h * h > 0.01;
        default: return 1;
        }
    }
    static bool supported(int code) {
        if constexpr (K::sparse) {
            switch (code) {
            case OP_VARS: case OP_VARSA: case OP_CREATE: case OP_FROMARR: case OP_PADL: case OP_PADR: case OP_INITL:
            case OP_EDOT: case OP_ENORM: case OP_ECROSS: case OP_EMAT: case OP_EDYN: case OP_EMORE: case OP_BADMAKE: case OP_DYNVARS: case OP_SETREF: case OP_HMOUT:
            case OP_SETZERO: case OP_SETF: case OP_SETG: case OP_SETH: case OP_SETHM: case OP_SETDATA: case OP_RESIZE: case OP_HM: case OP_ZERO: case OP_VASSIGN: return false;
            default: return true;
            }
        } else {
            if (code == OP_NAMED) return false;
            if constexpr (K::nested) {
                switch (code) {
                case OP_ADD: case OP_SUB: case OP_MUL: case OP_NEG: case OP_COS: case OP_SIN: case OP_EXP: case OP_COPY: case OP_CONST: case OP_VAR: case OP_ZERO: case OP_VARS:
                case OP_IADD: case OP_ISUB: case OP_IMUL: case OP_ASSIGN: case OP_MOVE: case OP_SWAP: case OP_SETZERO: case OP_GETS: case OP_VECPUSH: case OP_ADDS: case OP_SUBS: case OP_MULS: case OP_VASSIGN: case OP_CREATE: case OP_SIZES: case OP_CONTAIN: return true;
                default: return false;
                }
            }
            if constexpr (K::dyn) { if (code == OP_VARSA) return false; }
            else { if (code == OP_DYNVARS || code == OP_PADL || code == OP_PADR || code == OP_RESIZE) return false; }
            if constexpr (K::order == 1) { if (code == OP_SETH || code == OP_SETHM || code == OP_HM || code == OP_HMOUT) return false; }
            if constexpr (K::size == 0) { if (code == OP_VAR || code == OP_VARS || code == OP_VARSA || code == OP_SETG || code == OP_SETH) return false; }
            if constexpr (!std::is_same_v<S, double>) {
                switch (code) { case OP_EDOT: case OP_ENORM: case OP_ECROSS: case OP_EMAT: case OP_EDYN: case OP_EMORE: return false; default: break; }
            }
            return true;
        }
    }

    // ---------------------------------------------------------------- one library operation
    // Everything in here runs inside the library scope of the caller.
    void lib(const Op &o, T *tgt, const T &a, const T &b, const T &c, T *at, Out &out) {
        using namespace hyperjet;
        const S s = mk_s(o.s);
#define V(code, ...) case OP_##code: new (at) T(__VA_ARGS__); out.jet = at; break
        if constexpr (K::nested) {
            switch (o.code) {
                V(ADD, a + b); V(SUB, a - b); V(MUL, a * b); V(NEG, -a); V(ADDS, a + s); V(SUBS, a - s); V(MULS, a * s);
                V(COS, a.cos()); V(SIN, a.sin()); V(EXP, a.exp()); V(COPY, a);
                V(CONST, T::constant(s, K::size)); V(VAR, T::variable(o.n % K::size, s, K::size)); V(ZERO, T::zero());
                V(CREATE, T::create(a.data()));
            case OP_VARS: { std::vector<S> v((size_t)K::size, s); auto r = T::variables(v); new (at) T(std::move(r[(size_t)(o.n % K::size)])); out.jet = at; break; }
            case OP_VECPUSH: { std::vector<T> v; for (int i = 0; i < 2 + o.n % 4; i++) v.push_back(i & 1 ? a : b); new (at) T(std::move(v.back())); out.jet = at; break; }
            case OP_CONTAIN: contain(o, a, b, at); out.jet = at; break;
            case OP_IADD: *tgt += b; break;
            case OP_ISUB: *tgt -= b; break;
            case OP_IMUL: *tgt *= b; break;
            case OP_ASSIGN: *tgt = b; break;
            case OP_VASSIGN: *tgt = T::variable(o.n % K::size, s, K::size); break;
            case OP_MOVE: { T t(b); *tgt = std::move(t); break; }
            case OP_SWAP: { T t(b); std::swap(*tgt, t); break; }
            case OP_SETZERO: tgt->set_zero(); break;
            case OP_GETS: out.kind = 2; for (hj::index i = 0; i < a.size(); i++) out.put(a.g(i)); break;
            case OP_SIZES: out.kind = 2; out.put((double)a.size()); out.put((double)a.data_length()); break;
            default: break;
            }
            if (out.jet) out.kind = 1;
            return;
        } else {
        switch (o.code) {
            V(ADD, a + b); V(SUB, a - b); V(MUL, a * b); V(DIV, a / b);
            V(ADDS, a + s); V(SADD, s + a); V(SUBS, a - s); V(SSUB, s - a); V(MULS, a * s); V(SMUL, s * a); V(DIVS, a / s); V(SDIV, s / a);
            V(NEG, -a); V(RECIP, a.reciprocal()); V(LOGB, a.log((S)(1.5 + fabs(o.s)))); V(COPY, a);
            V(POW, a.pow(s)); V(POWI, hyperjet::pow(a, (hj::index)(o.n % 4 + 1)));
            // member and free spelling alternate, so both are exercised
#define U(code, fn) case OP_##code: if (o.n & 1) new (at) T(a.fn()); else new (at) T(hyperjet::fn(a)); out.jet = at; break
            U(SQRT, sqrt); U(CBRT, cbrt); U(COS, cos); U(SIN, sin); U(TAN, tan); U(ACOS, acos); U(ASIN, asin); U(ATAN, atan);
            U(COSH, cosh); U(SINH, sinh); U(TANH, tanh); U(ACOSH, acosh); U(ASINH, asinh); U(ATANH, atanh);
            U(EXP, exp); U(LOG, log); U(LOG2, log2); U(LOG10, log10); U(ABS, abs);
#undef U
            V(ATAN2, o.n & 1 ? a.atan2(b) : hyperjet::atan2(a, b)); V(HYPOT2, o.n & 1 ? T::hypot(a, b) : hyperjet::hypot(a, b)); V(HYPOT3, o.n & 1 ? T::hypot(a, b, c) : hyperjet::hypot(a, b, c));
        case OP_CONTAIN: contain(o, a, b, at); out.jet = at; break;
        case OP_POWF: new (at) T(hyperjet::pow(a, (S)o.s)); out.jet = at; break;
            V(CTORF, T(s));
        case OP_FORMULA: new (at) T((a * b + c * s) / (a * a + S(2)) - s * sin(b) + exp(-(c * c)) * sqrt(b * b + S(1))); out.jet = at; break;
        case OP_VECPUSH: {
            std::vector<T> v;
            for (int i = 0; i < 2 + o.n % 5; i++) v.push_back(i & 1 ? a : b);
            T sum = v[0];
            for (size_t i = 1; i < v.size(); i++) sum += v[i];
            new (at) T(sum); out.jet = at; break;
        }
        case OP_IADD: *tgt += b; break;
        case OP_ISUB: *tgt -= b; break;
        case OP_IMUL: *tgt *= b; break;
        case OP_IDIV: *tgt /= b; break;
        case OP_IADDS: *tgt += s; break;
        case OP_ISUBS: *tgt -= s; break;
        case OP_IMULS: *tgt *= s; break;
        case OP_IDIVS: *tgt /= s; break;
        // the scalar is an entry of the target itself
        case OP_IADDF: *tgt += tgt->f(); break;
        case OP_IMULF: *tgt *= tgt->f(); break;
        case OP_IDIVF: *tgt /= tgt->f(); break;
        case OP_IMULG: if constexpr (K::sparse) *tgt *= tgt->d(NAMES[3]); else if (tgt->size() > 0) *tgt *= tgt->g(o.n % tgt->size()); break;
        case OP_ASSIGN: *tgt = b; break;
        case OP_MOVE: { T t(b); *tgt = std::move(t); break; }
        case OP_SWAP: { T t(b); std::swap(*tgt, t); break; }
        case OP_CTORASSIGN: *tgt = s; break;
        case OP_CMP: {
            out.kind = 2;
            bool q[18] = {a == b, a != b, a < b, a > b, a <= b, a >= b, a == s, a != s, a < s, a > s, a <= s, a >= s, s == a, s != a, s < a, s > a, s <= a, s >= a};
            for (bool x : q) out.put(x);
            break;
        }
        case OP_STR: { out.kind = 3; T &m = const_cast<T &>(a); std::string t = m.to_string(); out.put_text(t); break; }
        default:
            if constexpr (K::sparse) lib_sparse(o, a, b, s, at, out);
            else lib_dense(o, tgt, a, b, c, s, at, out);
        }
        if (out.jet) out.kind = 1;
        }
    }
    static S mk_s(double x) {
        if constexpr (std::is_arithmetic_v<S>) return (S)x;
        else return S(x, {{NAMES[3], 1.0}, {NAMES[0], 0.5}});
    }
    // jets as values of standard containers and algorithms
    static void contain(const Op &o, const T &a, const T &b, T *at) {
        std::vector<T> v;
        v.assign((size_t)(1 + o.n % 3), a);
        v.insert(v.begin(), b);
        v.emplace_back(a * b);
        v.insert(v.begin() + 1, 2, b);
        v.erase(v.begin() + o.n % 2);
        std::rotate(v.begin(), v.begin() + 1, v.end());
        bool ordered = true;
        for (auto &x : v) ordered = ordered && fval(x) == fval(x);
        if (!K::nested && ordered && o.n & 4) std::stable_sort(v.begin(), v.end(), [](const T &x, const T &y) { return fval(x) < fval(y); });
        if constexpr (!K::nested) if (ordered && o.n & 8) std::sort(v.begin(), v.end());
        std::reverse(v.begin() + 1, v.end());
        v.resize(v.size() + 2, a);
        v.shrink_to_fit();
        std::map<int, T> m;
        for (size_t i = 0; i < v.size(); i++) m[(int)(i * 7 % 5)] = v[i];
        std::vector<T> w(2);
        w[0] = m.rbegin()->second;
        w[1] = std::move(v[v.size() / 2]);
        v = w;
        v.push_back(v[0]);
        std::swap(v[0], v[1]);
        T sum(v[2]);
        for (auto &x : v) sum = sum - x;
        if (o.n & 16) std::swap(sum, v[(size_t)(o.n % 3)]);
        new (at) T(std::move(sum));
    }
    void lib_sparse(const Op &o, const T &a, const T &b, const S s, T *at, Out &out) {
        if constexpr (K::sparse) {
            switch (o.code) {
                V(CONST, T::constant(s)); V(VAR, T::variable(NAMES[o.n % 6], s));
            case OP_NAMED: { typename T::Data d; for (int i = 0; i <= (o.n < 58 ? o.n % 6 : NN - 1); i++) d[NAMES[i]] = s * i; new (at) T(s, d); out.jet = at; break; }
            case OP_EVAL: { typename T::Data d; for (int i = 0; i <= (o.n < 50 ? o.n % 6 : NN); i++) d[NAMES[(i * 5 + o.n) % (o.n < 50 ? 6 : NN)]] = 0.25 * i; out.kind = 2; out.put(a.eval(d)); break; }
            case OP_GETS: out.kind = 2; out.put(a.f()); for (const char *n : NAMES) out.put(a.d(n)); break;
            case OP_SIZES: out.kind = 2; out.put((double)a.size()); break;
            default: break;
            }
        }
        (void)b;
    }
    void lib_dense(const Op &o, T *tgt, const T &a, const T &b, const T &c, const S s, T *at, Out &out) {
        using namespace hyperjet;
        if constexpr (!K::sparse && !K::nested) {
            using Data = typename T::Data;
            const hj::index n = K::dyn ? (hj::index)P.n : (hj::index)K::size;
            const hj::index i = n > 0 ? o.n % n : 0;
            switch (o.code) {
                V(CONST, T::constant(s, n));
            case OP_VAR: if (n > 0) new (at) T(T::variable(i, s, n)); else new (at) T(T::constant(s, n)); out.jet = at; break;
            case OP_ZERO: if (o.n & 1) new (at) T(T::zero(n)); else new (at) T(T::zero()); out.jet = at; break;
            case OP_VARS: {
                std::vector<S> v((size_t)n);
                for (hj::index k = 0; k < n; k++) v[(size_t)k] = s + S(k);
                auto r = T::variables(v);
                T sum = T::constant(0, n);
                for (size_t k = 0; k < r.size(); k += 1 + r.size() / 6) sum = sum + r[k] * r[k];
                new (at) T(sum); out.jet = at; break;
            }
            case OP_VARSA:
                if constexpr (!K::dyn && K::size > 0) {
                    std::array<S, (size_t)(K::size > 0 ? K::size : 1)> v;
                    for (auto &x : v) x = s;
                    auto r = T::template variables<K::size>(v);
                    new (at) T(r[(size_t)i]); out.jet = at;
                }
                break;
            case OP_CREATE: { Data d = a.data(); new (at) T(T::create(d)); out.jet = at; break; }
            case OP_FROMARR: {
                using Vec = typename T::Vector;
                using Mat = typename T::Matrix;
                Vec g(a.size());
                for (hj::index k = 0; k < a.size(); k++) g(k) = a.g(k) * s;
                if constexpr (K::order == 1) new (at) T(T::from_gradient(s, g));
                else { Mat h = a.hm("full"); new (at) T(T::from_arrays(s, g, h)); }
                out.jet = at; break;
            }
            case OP_PADL: if constexpr (K::dyn) { new (at) T(a.pad_left(a.size() + (o.n % 8 == 7 ? 4 + o.n / 8 : o.n % 4) - (o.n >= 48 ? 3 : 0))); out.jet = at; } break;
            case OP_PADR: if constexpr (K::dyn) { new (at) T(a.pad_right(a.size() + (o.n % 8 == 7 ? 4 + o.n / 8 : o.n % 4) - (o.n >= 48 ? 3 : 0))); out.jet = at; } break;
            case OP_INITL: {
                if constexpr (K::order == 1) {
                    if constexpr (K::dyn || K::size == 3) new (at) T{s, S(1), S(2), S(3)};
                    else if constexpr (K::size == 1) new (at) T{s, S(1)};
                    else new (at) T(a);
                } else {
                    if constexpr (K::dyn || K::size == 2) new (at) T{s, S(1), S(2), S(3), S(4), S(5)};
                    else if constexpr (K::size == 1) new (at) T{s, S(1), S(2)};
                    else new (at) T(a);
                }
                out.jet = at; break;
            }
            case OP_BADMAKE: {     // most of these are refused
                const hj::index z = a.size();
                switch (o.n % 13) {
                case 10: { const T w = T::zero(K::dyn ? z + 1 + o.n / 13 : z); if (o.n & 16) new (at) T(a + w); else new (at) T(w * a); break; }
                case 11: { const T w = T::zero(K::dyn ? z + 1 + o.n / 13 : z); if (o.n & 16) new (at) T(T::hypot(a, a, w)); else new (at) T(T::hypot(w, a)); break; }
                case 12: { T w = T::zero(K::dyn ? z + 1 + o.n / 13 : z); if (o.n & 16) w -= a; else w *= a; new (at) T(w); break; }
                case 0: if constexpr (K::dyn) { Data d((size_t)(o.n / 10 % 3 == 0 ? 0 : K::order == 2 ? 4 + o.n / 10 % 2 : 2), s); new (at) T(T::create(d)); } else new (at) T(T::zero(z + 1)); break;
                case 1: new (at) T(T::zero(K::dyn ? -1 - o.n / 10 : z + 1)); break;
                case 2: new (at) T(T::constant(s, K::dyn ? -2 : z - 1)); break;
                case 3: if (z > 0) new (at) T(T::variable(0, s, K::dyn ? -1 : z + 2)); else new (at) T(T::zero(-1)); break;
                case 4: { typename T::Vector g = T::Vector::Zero(z); typename T::Matrix h = T::Matrix::Zero(z, z);
                    if constexpr (K::order == 1) { Eigen::Matrix<S, Eigen::Dynamic, 1> w = Eigen::Matrix<S, Eigen::Dynamic, 1>::Constant(z + (K::dyn ? 0 : 1), s); new (at) T(T::from_gradient(s, g)); (void)w; }
                    else if constexpr (K::dyn) { typename T::Matrix w = T::Matrix::Constant(z + 1, z + 1, s); new (at) T(T::from_arrays(s, g, o.n & 1 ? w : h)); }
                    else new (at) T(T::from_arrays(s, g, h));
                    break; }
                case 5: if constexpr (K::order == 2) new (at) T{s, S(1), S(2), S(3)}; else if constexpr (K::dyn) new (at) T{s}; else new (at) T{s, S(1), S(2), S(3), S(4), S(5), S(6), S(7), S(8), S(9), S(9), S(9)}; break;
                case 6: if constexpr (K::dyn) new (at) T(a.pad_left(z - 1)); else new (at) T(T::constant(s, -1)); break;
                case 7: if constexpr (K::dyn) new (at) T(a.pad_right(z - 1 - o.n / 10)); else new (at) T(T::empty(z + 1)); break;
                case 8: if constexpr (K::dyn) new (at) T(T::zero((hj::index)1 << ((K::order == 1 ? 40 : 20) + o.n / 10))); else new (at) T(T::zero(-1)); break;
                default: {
                    std::vector<S> w((size_t)(z + 1), s);
                    if constexpr (K::dyn) new (at) T(T::constant(a.eval(w), z));
                    else new (at) T(T::variable(0, s, z + 1));
                    break; }
                }
                out.jet = at; break;
            }
            case OP_DYNVARS:
                if constexpr (K::dyn) {
                    std::array<S, 3> v{s, S(1), S(2)};
                    std::vector<T> r = T::template variables<3>(v);
                    new (at) T(r[0] * r[1] + r[(size_t)(o.n % 3)]); out.jet = at;
                }
                break;
            case OP_HMOUT:
                if constexpr (K::order == 2) {
                    using Mat = typename T::Matrix;
                    const hj::index z = a.size();
                    Mat h = Mat::Constant(z, z, S(-7));
                    if (o.n % 8 == 7) { if constexpr (K::dyn) { Mat w = Mat::Constant(z + 1, z, S(-7)); a.hm("full", w); } else a.hm("other", h); }
                    else a.hm(o.n & 1 ? "zeros" : "full", h);
                    out.kind = 2;
                    for (hj::index k = 0; k < z; k++) for (hj::index l = 0; l < z; l++) out.put(h(k, l));
                }
                break;
            case OP_SETREF: {
                const hj::index z = tgt->size(), k = o.n % tgt->data_length();
                switch (o.n % 7) {
                case 0: tgt->f() = s; break;
                case 1: if (z) tgt->g(o.n % z) *= s; break;
                case 2: tgt->data()[(size_t)k] = s; break;
                case 3: tgt->ptr()[k] -= s; break;
                case 4: if constexpr (K::order == 2) { if (z) tgt->h(o.n % z, o.n / 3 % z) = s; } break;
                case 5: if constexpr (K::order == 2) { if (z) { tgt->h(o.n % (z * (z + 1) / 2)) += s; tgt->set_h(o.n / 2 % (z * (z + 1) / 2), s); } } break;
                default: tgt->ag() *= s; tgt->adata().array() += s; break;
                }
                break;
            }
            case OP_SETZERO: tgt->set_zero(); break;
            case OP_SETF: tgt->set_f(s); tgt->f() += S(0.5); break;
            case OP_SETG: if (tgt->size() > 0) { tgt->set_g(o.n % tgt->size(), s); } break;
            case OP_SETH: if constexpr (K::order == 2) { if (tgt->size() > 0) tgt->set_h(o.n % tgt->size(), (o.n / 3) % tgt->size(), s); } break;
            case OP_SETHM:
                if constexpr (K::order == 2) { typename T::Matrix h = typename T::Matrix(tgt->size(), tgt->size()); for (hj::index k = 0; k < tgt->size(); k++) for (hj::index l = 0; l < tgt->size(); l++) h(k, l) = s + S(k + l); if (o.n & 1) tgt->set_hm(h); else tgt->set_hm(h.transpose()); }
                break;
            case OP_SETDATA: { typename T::DataVector d(tgt->data_length()); for (hj::index k = 0; k < tgt->data_length(); k++) d(k) = s + S(k); tgt->set_adata(d); break; }
            case OP_RESIZE: if constexpr (K::dyn) tgt->resize(o.n >= 56 ? -1 : o.n >= 48 ? (hj::index)P.n + 1 + (o.n - 48) * 4 : o.n % 7); break;
            case OP_VASSIGN: if (n > 0) *tgt = T::variable(i, s, n); else *tgt = T::constant(s, n); break;
            case OP_EVAL: {
                if constexpr (K::dyn) { std::vector<S> d((size_t)a.size()); for (size_t k = 0; k < d.size(); k++) d[k] = S(0.25) * S(k + 1); out.kind = 2; out.put(a.eval(d)); }
                else { std::array<S, (size_t)(K::size < 0 ? 0 : K::size)> d; for (size_t k = 0; k < d.size(); k++) d[k] = S(0.25) * S(k + 1); out.kind = 2; out.put(a.eval(d)); }
                break;
            }
            case OP_HM:
                if constexpr (K::order == 2) { auto h = a.hm(o.n & 1 ? "zeros" : "full"); out.kind = 2; for (hj::index k = 0; k < a.size(); k++) for (hj::index l = 0; l < a.size(); l++) out.put(h(k, l)); }
                break;
            case OP_GETS:
                out.kind = 2; out.put(a.f());
                for (hj::index k = 0; k < a.size(); k++) out.put(a.g(k));
                if constexpr (K::order == 2) { for (hj::index k = 0; k < a.size(); k++) for (hj::index l = 0; l < a.size(); l++) out.put(a.h(k, l)); for (hj::index k = 0; k < a.size() * (a.size() + 1) / 2; k++) out.put(a.h(k)); }
                break;
            case OP_SIZES: out.kind = 2; out.put((double)a.size()); out.put((double)a.data_length()); out.put((double)T::size_from_data_length((hj::index)a.data().size())); out.put((double)(a.ptr() != nullptr)); break;
            default:
                if constexpr (std::is_same_v<S, double>) {
                    using V3 = Eigen::Matrix<T, 3, 1>;
                    switch (o.code) {
                    case OP_EDOT: { V3 u(a, b, c), v(b, c, a); new (at) T(u.dot(v)); out.jet = at; break; }
                    case OP_ENORM: { V3 u(a, b, c); if (o.n & 1) new (at) T(u.norm()); else new (at) T(u.squaredNorm() + u.sum()); out.jet = at; break; }
                    case OP_ECROSS: { V3 u(a, b, c), v(c, a, b); V3 w = u.cross(v); new (at) T(w(o.n % 3)); out.jet = at; break; }
                    case OP_EMAT: { Eigen::Matrix<T, 3, 3> m; for (int k = 0; k < 9; k++) m(k / 3, k % 3) = (k / 3 + k % 3) % 3 == 0 ? a : (k / 3 + k % 3) % 3 == 1 ? b : c; V3 u(a, b, c); V3 w = m * u; V3 x = m.transpose() * u * 2.0; new (at) T(w(o.n % 3) + x(o.n / 3 % 3)); out.jet = at; break; }
                    case OP_EMORE: {
                        using M2 = Eigen::Matrix<T, 2, 2>;
                        using V2 = Eigen::Matrix<T, 2, 1>;
                        M2 m; m(0, 0) = a; m(0, 1) = b; m(1, 0) = c; m(1, 1) = a;
                        V2 u(b, c);
                        switch (o.n % 8) {
                        case 0: new (at) T(m.determinant()); break;
                        case 1: new (at) T(m.prod() + m.trace()); break;
                        case 2: new (at) T(m.cwiseProduct(m.transpose()).sum()); break;
                        case 3: { M2 w = u * u.transpose(); new (at) T(w(o.n / 8 % 2, 1)); break; }
                        case 4: { M2 w = m.inverse(); new (at) T(w(1, o.n / 8 % 2)); break; }
                        case 5: { V2 w = m.row(o.n / 8 % 2); w -= u; w *= 0.5; m.col(1) = w; m = (m * m).eval(); new (at) T(m(0, 1)); break; }
                        case 6: { V2 w = u.array().sin() * 2.0 + u.array().square(); new (at) T(w(o.n / 8 % 2)); break; }
                        default: { std::vector<V2> q(2, u); q.push_back(u + u); q[0] = q[2]; q[1].swap(q[2]); new (at) T(q[0].dot(q[1]) + q[2].sum()); break; }
                        }
                        out.jet = at; break;
                    }
                    case OP_EDYN: {
                        Eigen::Matrix<T, Eigen::Dynamic, 1> u(2 + o.n % 3), v;
                        for (int k = 0; k < u.size(); k++) u(k) = k & 1 ? a : b;
                        v = u * 2.0 + u;
                        v += u;
                        new (at) T(v.dot(u)); out.jet = at; break;
                    }
                    default: break;
                    }
                }
            }
        }
        (void)tgt; (void)a; (void)b; (void)c; (void)s; (void)at; (void)out; (void)o;
    }
#undef V

    // ---------------------------------------------------------------- execution of one op
    struct Res { OpStatus st = ST_OK; Out out; uint32_t fired = 0, allocs = 0; };

    uint64_t why[rt::MAXT] = {};   // what the last refusal in a task said

    OpStatus attempt(const Op &o, T *tgt, const T &a, const T &b, const T &c, T *at, Out &out, bool fault, uint32_t *fired = nullptr, uint32_t *allocs = nullptr) {
        OpStatus st = ST_OK;
        uint64_t &said = why[rt::self_id()];
        said = 0;
        rt::dirty_stack();
        if (fault && o.fk) rt::arm_fault((rt::FaultKind)o.fk, (uint32_t)o.fa); else rt::disarm_fault();
        rt::yield_point(rt::K_OP);
        try {
            rt::LibScope L;
            lib(o, tgt, a, b, c, at, out);
        } catch (const std::bad_alloc &) {
            st = ST_NOMEM;
        } catch (const std::exception &e) {
            st = ST_REFUSED;
            said = 1;
            for (const char *q = e.what(); q && *q; q++) said = rt::mix(said, (unsigned char)*q);
        } catch (...) {
            st = ST_OTHER;
        }
        if (fired) *fired = rt::fault_fired();
        if (allocs) *allocs = rt::op_allocs();
        rt::disarm_fault();
        if (st != ST_OK) { out.kind = 0; out.jet = nullptr; }
        return st;
    }
    static Bits out_bits(const Out &o) {
        Bits b;
        b.push_back((uint64_t)o.kind);
        if (o.kind == 1) flat(*o.jet, b);
        if (o.kind == 2) for (int i = 0; i < o.nv; i++) b.push_back(bits_of(o.v[i]));
        if (o.kind == 3) for (size_t i = 0; i < o.nt; i++) b.push_back((unsigned char)o.text[i]);
        return b;
    }
    void drop(Out &o) { if (o.jet) { rt::LibScope L; o.jet->~T(); } o.jet = nullptr; o.kind = 0; }

    // values run away or leave the base size: restart the register from a tame value
    void normalise(T *&r, const Op &o, int index) {
        bool ok = true;
        Bits b = snap(*r);
        size_t skip = K::sparse ? 0 : 2;
        for (size_t i = skip; i < b.size(); i++) {
            if (K::sparse && i + 1 == b.size()) break; // size field
            if (K::nested && (i - skip) % (NN + 2) == NN + 1) continue;
            double d; memcpy(&d, &b[i], 8);
            if (!(fabs(d) < (i == skip ? 12.0 : 5e3))) ok = false;
        }
        if constexpr (K::dyn) if (r->size() != base_n() && !(o.n % 3 == 2 && r->size() >= 0 && r->size() <= 7)) ok = false;
        if (!ok) {
            rt::Rng g(rt::mix(P.init, 1000 + index));
            T *q = fresh(g, base_n());
            destroy(r);
            r = q;
        }
    }
    void note(int index, OpStatus st, const Bits &b) {
        uint64_t d = rt::mix(digest_bits(b), (uint64_t)st);
        int t = rt::self_id();
        if (t == 0) t = curtask;
        if (st == ST_REFUSED) d = rt::mix(d, why[rt::self_id()]);
        if (index >= 0 && index < rt::MAXOPS) { rt::res->dig[t][index] = d; rt::res->st[t][index] = (uint8_t)(1 + st); if ((uint32_t)index + 1 > rt::res->ndig[t]) rt::res->ndig[t] = index + 1; }
        if (st == ST_OK) rt::res->okops++;
        if (st == ST_NOMEM) rt::res->reported++;
        if (st == ST_REFUSED) rt::res->refused++;
        if (st == ST_SKIP) rt::res->skipped++;
        rt::hash_event(0x0b, d);
    }
    int curtask = 1;

    void exec(const Op &o0, int index, Mode m) override {
        Op o = o0;
        int t = o.t;
        curtask = t;
        if (!supported(o.code)) { note(index, ST_SKIP, {}); return; }
        char label[160];
        snprintf(label, sizeof label, "%s on %s (#%d)%s%s", op_info[o.code].name, P.type.c_str(), index, o.fk ? " with allocation fault" : "", o.lk == 2 ? " handed over" : o.lk ? " on shared accumulator" : "");
        rt::set_op(label);
        rt::cover_base[rt::self_id()] = rt::mix(type_hash, (uint64_t)o.code);
        const T &a = *reg(t, o.a), &b0 = *reg(t, o.b), &c = *reg(t, o.c);
        if (m == M_STREAM && o.code == OP_STREAM) { exec_stream(o, index, a); return; }
        if (o.code == OP_STREAM) { exec_stream_plain(o, index, a); return; }
        if (o.lk == 2) { exec_hand(o, index); return; }
        if (o.lk) { exec_acc(o, index, b0); return; }
        if (o.code == OP_IDIVF && fabs(fval(*priv[t][o.d % NP])) <= 0.05) o.code = OP_IADDF;
        if (!in_domain(o.code, a, b0, c, o.s)) {
            if (op_info[o.code].kind == 'I') o.code = OP_ISUB; else o.code = K::nested ? OP_ADD : OP_SIN;
        }
        if (m == M_FAULTS && o.fk) { exec_faulted(o, index, a, b0, c); return; }
        // plain
        if (op_info[o.code].kind == 'I') {
            int d = o.d % NP;
            T *tgt = priv[t][d];
            Out out;
            OpStatus st = attempt(o, tgt, a, b0, c, nullptr, out, true);
            if (!wellformed(*tgt)) rt::violation("ill-formed", "the size of a jet and its storage disagree after an update (%s)", st == ST_OK ? "success" : "failure");
            note(index, st, snap(*tgt));
            normalise(priv[t][d], o, index);
        } else {
            T *at = op_info[o.code].kind == 'V' ? mem() : nullptr;
            Out out;
            OpStatus st = attempt(o, nullptr, a, b0, c, at, out, true);
            note(index, st, out_bits(out));
            if (out.kind == 1) {
                if (!wellformed(*out.jet)) rt::violation("ill-formed", "the size of a new jet and its storage disagree");
                int d = o.d % NP;
                destroy(priv[t][d]);
                priv[t][d] = at;
                normalise(priv[t][d], o, index);
            } else if (at) rt::raw_free(at);
        }
    }

    // ---------------------------------------------------------------- C03 / C04
    struct World { // every jet the failed operation must leave alone
        std::vector<std::pair<const T *, Bits>> all;
    };
    World world(int t, const T *except) {
        World w;
        for (auto *p : shared) if (p && p != except) w.all.push_back({p, snap(*p)});
        for (auto *p : priv[t]) if (p && p != except) w.all.push_back({p, snap(*p)});
        return w;
    }
    void check_world(const World &w, const char *what) {
        for (auto &x : w.all) if (snap(*x.first) != x.second) rt::violation("operand-changed", "%s changed another jet", what);
    }
    void exec_faulted(const Op &o_in, int index, const T &a, const T &b, const T &c) {
        Op o = o_in;
        int t = o.t;
        bool inplace = op_info[o_in.code].kind == 'I';
        int d = o_in.d % NP;
        T *tgt = inplace ? priv[t][d] : nullptr;
        auto pick = [&](const T &x, T *copy) -> const T & { return copy && &x == tgt ? *copy : x; };
        phase_of_task = PH_PLAIN;
        // fault-free reference on a copy
        Bits ref; OpStatus rst;
        uint32_t nal = 0;
        {
            T *copy = inplace ? clone(*tgt) : nullptr;
            T *at = inplace || op_info[o.code].kind == 'O' ? nullptr : mem();
            Out out;
            rst = attempt(o, copy, pick(a, copy), pick(b, copy), pick(c, copy), at, out, false, nullptr, &nal);
            // strike at an allocation that really happens
            if (nal && (o.fk == rt::F_ONE || o.fk == rt::F_FROM)) o.fa %= (int)nal;
            if (nal && o.fk == rt::F_EVERY) o.fa %= (int)nal;
            ref = inplace ? snap(*copy) : out_bits(out);
            if (inplace && rst == ST_REFUSED && ref != snap(*tgt)) { phase_of_task = PH_FAULT; rt::violation("not-atomic", "a refused update changed its target"); }
            drop(out);
            if (at) rt::raw_free(at);
            destroy(copy);
        }
        World w = world(t, tgt);
        Bits before = inplace ? snap(*tgt) : Bits();
        // the faulted attempt; repeated so that one-time initialisation is not taken for a leak
        uint64_t grew = 0; int fails = 0;
        OpStatus st = ST_OK;
        for (int rep = 0; rep < 3; rep++) {
            T *at = inplace || op_info[o.code].kind == 'O' ? nullptr : mem();
            Out out;
            uint64_t live0 = rt::live_blocks();
            uint32_t fired = 0;
            phase_of_task = PH_FAULT;
            st = attempt(o, tgt, a, b, c, at, out, true, &fired);
            Bits now = inplace ? snap(*tgt) : out_bits(out);
            if (inplace && !wellformed(*tgt)) rt::violation("ill-formed", "after a failed update the size of the target and its storage disagree");
            if (st == ST_OK || (rst != ST_OK && st == rst)) {
                if (st == ST_OK && now != ref) rt::violation(inplace ? "not-atomic" : "partial-result", "an allocation failed inside the operation, it reported success, but the result differs from the normal one");
                if (st != ST_OK && inplace && now != before) rt::violation("not-atomic", "a refused update changed its target");
                check_world(w, "an operation that met an allocation failure");
                drop(out); if (at) rt::raw_free(at);
                phase_of_task = PH_PLAIN;
                if (fired) rt::res->probes[0]++;
                break;
            }
            if (!fired) rt::violation("partial-result", "an operation failed although no allocation failed and it succeeds normally");
            if (st != ST_NOMEM && st != ST_REFUSED) rt::violation("bad-report", "memory exhaustion was not reported as a standard exception");
            if (st == ST_REFUSED) rt::res->probes[1]++;
            fails++;
            rt::res->probes[2]++;
            if (inplace && now != before) rt::violation("not-atomic", "a failed update changed its target");
            check_world(w, "a failed operation");
            if (at) rt::raw_free(at);
            uint64_t live1 = rt::live_blocks();
            if (live1 > live0 && rep > 0) grew++;
        }
        if (fails >= 3 && grew >= 2) rt::violation("leak", "every failed attempt leaves memory allocated");
        // memory is available again: retry must give the reference
        if (fails) {
            phase_of_task = PH_RETRY;
            T *at = inplace || op_info[o.code].kind == 'O' ? nullptr : mem();
            Out out;
            OpStatus s2 = attempt(o, tgt, a, b, c, at, out, false);
            Bits now = inplace ? snap(*tgt) : out_bits(out);
            if (s2 != rst || (rst == ST_OK && now != ref)) rt::violation("retry-differs", "repeating the operation after a memory failure does not give the normal result");
            rt::res->retried++;
            drop(out); if (at) rt::raw_free(at);
            phase_of_task = PH_PLAIN;
        }
        note(index, fails ? ST_NOMEM : st, ref);
        if (inplace) normalise(priv[t][d], o, index);
    }

    // ---------------------------------------------------------------- C07
    struct Fmt { std::ios_base::fmtflags fl; std::streamsize prec, width; char fill; bool loc = false; };
    static Fmt fmt_of(int n) {
        Fmt f; f.fl = std::ios_base::dec | std::ios_base::skipws; f.prec = 6; f.width = 0; f.fill = ' ';
        if (n & 1) f.fl |= std::ios_base::scientific;
        if (n & 2) f.fl |= std::ios_base::showpos;
        if (n & 4) f.fl |= std::ios_base::fixed;
        if (n & 8) f.prec = 12;
        if (n & 16) f.width = 14;
        if (n & 32) { f.fill = '*'; f.fl |= std::ios_base::left; }
        if (n & 64) f.fl |= std::ios_base::uppercase;
        if (n & 128) f.fl |= std::ios_base::showpoint;
        if ((n & 0x300) == 0x300) f.fl = (f.fl & ~std::ios_base::adjustfield) | std::ios_base::internal;
        if ((n & 0x1c00) == 0x400) f.prec = 0;
        if ((n & 0x1c00) == 0x800) f.prec = n & 8 ? 60 : 25;
        if ((n & 0x1c00) == 0xc00) f.width = 70;
        if ((n & 0x1c00) == 0x1000) f.fl |= std::ios_base::unitbuf | std::ios_base::boolalpha | std::ios_base::showbase;
        f.loc = (n & 0x6000) == 0x6000;
        return f;
    }
    static void set_fmt(std::ostream &os, const Fmt &f, bool width) { if (f.loc) os.imbue(sim_locale()); os.flags(f.fl); os.precision(f.prec); os.fill(f.fill); os.width(width ? f.width : 0); }
    static void lib_print(std::ostream &os, const T &x) { rt::LibScope L; os << x; }

    static std::string healthy(const T &x, const Fmt &f, bool width, Fmt *after = nullptr) {
        if constexpr (K::nested) return "";
        else {
            SimBuf b; std::ostream os(&b); set_fmt(os, f, width);
            lib_print(os, x);
            if (os.getloc() != (f.loc ? sim_locale() : std::locale::classic())) rt::violation("stream-format", "printing changed the locale of the stream");
            if (!os.good()) rt::violation("stream-healthy", "printing to a healthy stream set an error state");
            if (after) { after->fl = os.flags(); after->prec = os.precision(); after->width = os.width(); after->fill = os.fill(); }
            return std::string(b.got, b.len);
        }
    }
    void exec_stream_plain(const Op &o, int index, const T &x) {
        if constexpr (!K::nested) {
            SimBuf b; std::ostream os(&b); set_fmt(os, fmt_of(o.n), true);
            b.kind = o.ik; b.at = (size_t)o.ia;
            OpStatus st = ST_OK;
            rt::dirty_stack();
            if (o.fk) rt::arm_fault((rt::FaultKind)o.fk, (uint32_t)o.fa); else rt::disarm_fault();
            rt::yield_point(rt::K_OP);
            try { lib_print(os, x); } catch (const std::bad_alloc &) { st = ST_NOMEM; } catch (...) { st = ST_OTHER; }
            rt::disarm_fault();
            Bits v; v.push_back((uint64_t)os.rdstate());
            for (size_t i = 0; i < b.len; i++) v.push_back((unsigned char)b.got[i]);
            note(index, st, v);
        } else { note(index, ST_SKIP, {}); (void)o; (void)x; }
    }
    void exec_stream(const Op &o, int index, const T &x) {
        if constexpr (K::nested) { note(index, ST_SKIP, {}); (void)o; (void)x; return; }
        else {
        Fmt f = fmt_of(o.n), after;
        if (o.ik == IO_SYNC) f.fl |= std::ios_base::unitbuf; // flushed after every piece
        Bits before = snap(x);
        // what plain number output does to the same stream
        Fmt num_after; std::string num;
        { SimBuf b; std::ostream os(&b); set_fmt(os, f, true); os << x.f(); num.assign(b.got, b.len); num_after = Fmt{os.flags(), os.precision(), os.width(), os.fill()}; }
        std::string full = healthy(x, f, true, &after);
        if (healthy(x, f, true) != full) rt::violation("stream-repeat", "printing the same jet twice gives different text");
        if (after.fl != num_after.fl || after.prec != num_after.prec || after.fill != num_after.fill || after.width != num_after.width)
            rt::violation("stream-format", "printing a jet changed the formatting settings of the stream");
        check_text(x, f, full, num);
        std::string full0 = healthy(x, f, false);
        if (snap(x) != before) rt::violation("operand-changed", "printing changed the jet");
        // to_string is the text of a default stream
        { Fmt df; df.fl = std::ios_base::dec | std::ios_base::skipws; df.prec = 6; df.width = 0; df.fill = ' ';
          std::string want = healthy(x, df, false), got; { rt::LibScope L; T &m = const_cast<T &>(x); std::string q = m.to_string(); depth_out([&] { got.assign(q.data(), q.size()); }); }
          if (want != got) rt::violation("stream-text", "string conversion and stream output disagree: '%s' vs '%s'", got.c_str(), want.c_str()); }
        // now with the fault
        SimBuf b; std::ostream os(&b); set_fmt(os, f, true);
        b.kind = o.ik; b.at = full.size() ? (size_t)o.ia % (full.size() + 1) : 0;
        std::ios_base::iostate mask = std::ios_base::goodbit;
        // (libstdc++ ends the process when a flush fails in a destructor and badbit asks for an exception)
        if ((o.ia & 64) && o.ik != IO_SYNC) mask |= std::ios_base::badbit;
        if (o.ia & 128) mask |= std::ios_base::failbit;
        os.exceptions(mask);
        bool pre = o.ik == IO_PREFAILED;
        if (pre) { rt::res->io_faults[IO_PREFAILED]++; try { os.setstate(o.ia & 1 ? std::ios_base::badbit : std::ios_base::failbit); } catch (...) {} }
        bool threw = false;
        phase_of_task = PH_FAULT;
        rt::dirty_stack();
        if (o.fk) rt::arm_fault((rt::FaultKind)o.fk, (uint32_t)o.fa);
        rt::yield_point(rt::K_OP);
        try { lib_print(os, x); } catch (const std::ios_base::failure &) { threw = true; } catch (const std::bad_alloc &) { threw = true; } catch (const sink_error &) { threw = true; } catch (...) { rt::violation("stream-exception", "an exception of a foreign kind escaped from stream output"); }
        uint32_t memfired = rt::fault_fired();
        rt::disarm_fault();
        std::string got(b.got, b.len);
        if (got.size() > full.size() || full.compare(0, got.size(), got) != 0) rt::violation("stream-prefix", "after a stream failure the sink holds '%s', not a prefix of '%s'", got.c_str(), full.c_str());
        if (got != full && !threw && os.good()) rt::violation("stream-silent", "the text is incomplete ('%s' of '%s') but neither stream state nor an exception reports it", got.c_str(), full.c_str());
        if (threw && mask == std::ios_base::goodbit && !memfired) rt::violation("stream-exception", "an exception escaped although the stream does not ask for exceptions");
        if (os.exceptions() != mask) rt::violation("stream-format", "the exception mask of the stream was changed");
        if (snap(x) != before) rt::violation("operand-changed", "printing to a failing stream changed the jet");
        if (pre && !got.empty()) rt::violation("stream-prefix", "text was written to a stream that had already failed");
        if (os.flags() != f.fl || os.precision() != f.prec || os.fill() != f.fill) rt::violation("stream-format", "after a failure the formatting settings of the stream differ");
        rt::res->probes[got == full ? 3 : got.empty() ? 4 : 5]++;
        if (threw) rt::res->probes[6]++;
        // recovery
        phase_of_task = PH_RETRY;
        os.exceptions(std::ios_base::goodbit);
        os.clear(); os.width(0);
        b.healed = true; b.kind = IO_NONE; b.len = 0;
        bool threw2 = false;
        try { lib_print(os, x); } catch (...) { threw2 = true; }
        std::string again(b.got, b.len);
        if (threw2 || !os.good() || again != full0) rt::violation("stream-recovery", "after the stream recovered the output is '%s', expected '%s'", again.c_str(), full0.c_str());
        phase_of_task = PH_PLAIN;
        Bits v; for (char ch : got) v.push_back((unsigned char)ch);
        note(index, ST_OK, v);
        }
    }
    template <class F> static void depth_out(F &&f) { rt::lib_leave(); f(); rt::lib_enter(); }
    static void check_text(const T &x, const Fmt &f, const std::string &full, const std::string &num) {
        if (full.compare(0, num.size(), num) != 0) rt::violation("stream-text", "the text '%s' does not start with the value as the stream prints numbers ('%s')", full.c_str(), num.c_str());
        if constexpr (!K::sparse) {
            if (full != num + "hj") rt::violation("stream-text", "the text is '%s', not the value followed by hj", full.c_str());
        } else {
            for (const char *n : NAMES) {
                double v = x.d(n);
                if (v == 0) continue;
                SimBuf b; std::ostream os(&b); set_fmt(os, f, false); os << v;
                std::string term = std::string(b.got, b.len) + "*d" + n;
                if (full.find(term) == std::string::npos) rt::violation("stream-text", "the text '%s' lacks the derivative '%s'", full.c_str(), term.c_str());
            }
        }
    }

    // ---------------------------------------------------------------- C15
    // an exchange between a jet of this thread and a box that all threads reach, under the lock of the box
    void exec_hand(const Op &o, int index) {
        int k = o.d % NA, t = o.t;
        T *&mine = priv[t][o.a % NP];
        rt::lock(lk[k]);
        T *&box = acc[k];
        if (rt::res->nhand < rt::MAXHAND) rt::res->hand[rt::res->nhand++] = (uint16_t)(t << 8 | index);
        if (snap(*box) != acc_last[k]) rt::violation("jet-changed", "a jet waiting to be taken over changed although nobody used it");
        Bits m0 = snap(*mine), b0 = acc_last[k];
        bool swapped = false;
        OpStatus st = ST_OK;
        rt::res->probes[10]++;
        if (rt::concurrent() && box_from[k] && box_from[k] != t) { rt::res->probes[11]++; if (rt::task_ended(box_from[k])) rt::res->probes[12]++; }
        rt::dirty_stack();
        switch (o.ik % 7) {
        case 0: std::swap(mine, box); swapped = true; break;                          // the object itself
        case 1: { rt::LibScope L; std::swap(*mine, *box); swapped = true; break; }    // by moves
        case 2: { rt::LibScope L; *mine = *box; break; }
        case 3: { rt::LibScope L; *box = *mine; break; }
        case 4: destroy(box); box = clone(*mine); break;                               // storage of another thread released here
        case 5: { T *q = mem(); { rt::LibScope L; new (q) T(std::move(*box)); } destroy(box); box = q; break; }
        default: {
            rt::LibScope L;
            try { *box += *mine; } catch (const std::runtime_error &) { st = ST_REFUSED; }
        }
        }
        if (!wellformed(*mine) || !wellformed(*box)) rt::violation("ill-formed", "the size of a jet handed over and its storage disagree");
        Bits m1 = snap(*mine), b1 = snap(*box);
        switch (o.ik % 7) {
        case 0: case 1: if (m1 != b0 || b1 != m0) rt::violation("hand-over", "an exchange of two jets %s changed their contents", swapped && o.ik % 7 ? "by moves" : "by reference"); break;
        case 2: if (m1 != b0 || b1 != b0) rt::violation("hand-over", "a jet copied from another thread differs from it"); break;
        case 3: case 4: if (m1 != m0 || b1 != m0) rt::violation("hand-over", "a jet copied for another thread differs from it"); break;
        case 5: if (m1 != m0 || b1 != b0) rt::violation("hand-over", "a jet moved to another place changed"); break;
        default: if (m1 != m0 || (st != ST_OK && b1 != b0)) rt::violation("hand-over", "a refused update of a jet changed it"); break;
        }
        if (o.ik % 7 != 2) box_from[k] = t;
        normalise(box, o, index);
        acc_last[k] = snap(*box);
        m1.insert(m1.end(), b1.begin(), b1.end());
        note(index, st, m1);
        rt::unlock(lk[k]);
    }
    int box_from[NA] = {};

    // ---------------------------------------------------------------- C08
    static MJet to_model(const T &x) {
        MJet m;
        if constexpr (K::sparse) {
            m.n = NN; m.order = 1; m.f = x.f();
            for (int i = 0; i < NN; i++) m.g[i] = x.d(NAMES[i]);
        } else if constexpr (!K::nested) {
            m.n = x.size() < MJet::N ? (int)x.size() : MJet::N; m.order = K::order; m.f = x.f();
            for (int i = 0; i < m.n && i < MJet::N; i++) m.g[i] = x.g(i);
            if constexpr (K::order == 2) for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) m.h[i][j] = x.h(i, j);
        }
        m.bounds_from_values();
        return m;
    }
    void exec_acc(const Op &o0, int index, const T &b0) {
        if constexpr (K::nested) { note(index, ST_SKIP, {}); (void)o0; (void)b0; return; }
        else {
        Op o = o0;
        int k = o.d % NA;
        rt::lock(lk[k]);
        T *tgt = acc[k];
        bool alias = o.c == 7; // the target is its own operand
        const T &b = alias ? *tgt : b0;
        if (o.code == OP_IDIV && fabs(fval(b)) <= 0.05) o.code = OP_IADD;
        if (o.code == OP_IDIVS && fabs(o.s) <= 0.05) o.s = 2;
        if (o.code == OP_IDIVF && fabs(fval(*tgt)) <= 0.05) o.code = OP_IADDF;
        bool mismatch = false;
        if constexpr (K::dyn) mismatch = tgt->size() != b.size();
        Bits pre = snap(*tgt);
        if (pre != acc_last[k]) rt::violation("acc-changed", "a shared jet changed while no update was in progress");
        MJet ma = to_model(*tgt), mb = to_model(b);
        bool cmp = true;
        MJet exp;
        switch (o.code) {
        case OP_IADD: exp = m_add(ma, mb); break;
        case OP_ISUB: exp = m_sub(ma, mb); break;
        case OP_IMUL: exp = m_mul(ma, mb); break;
        case OP_IDIV: exp = m_div(ma, mb); break;
        case OP_IADDS: exp = m_add(ma, m_const(ma, (S)o.s)); break;
        case OP_ISUBS: exp = m_sub(ma, m_const(ma, (S)o.s)); break;
        case OP_IMULS: exp = m_mul(ma, m_const(ma, (S)o.s)); break;
        case OP_IDIVS: exp = m_div(ma, m_const(ma, (S)o.s)); break;
        case OP_IADDF: exp = m_add(ma, m_const(ma, ma.f)); break;
        case OP_IMULF: exp = m_mul(ma, m_const(ma, ma.f)); break;
        case OP_IDIVF: exp = m_div(ma, m_const(ma, ma.f)); break;
        case OP_IMULG: { long double q = K::sparse ? ma.g[3] : ma.n > 0 ? ma.g[o.n % ma.n] : 1; exp = m_mul(ma, m_const(ma, q)); break; }
        case OP_ASSIGN: exp = mb; mismatch = false; break;
        default: cmp = false;
        }
        if (!moderate(ma) || !moderate(mb)) cmp = false; // overflow and NaN are outside the model
        if (o.code == OP_IADDF || o.code == OP_IMULF || o.code == OP_IDIVF || o.code == OP_IMULG || o.code == OP_IADDS || o.code == OP_ISUBS || o.code == OP_IMULS || o.code == OP_IDIVS) mismatch = false;
        bool done = false;
        for (int tries = 0; tries < 4 && !done; tries++) {
            Out out;
            uint32_t fired = 0;
            bool fault = tries == 0 || (tries == 1 && (o.fa & 1));
            if (fault && o.fk) phase_of_task = PH_FAULT; else phase_of_task = tries ? PH_RETRY : PH_PLAIN;
            OpStatus st = attempt(o, tgt, b, b, b, nullptr, out, fault, &fired);
            Bits now = snap(*tgt);
            if (st == ST_OK) {
                done = true;
                if (mismatch) { cmp = false; rt::res->probes[7]++; }
                if (cmp) {
                    MJet act = to_model(*tgt);
                    int e = act.n != exp.n ? 999 : m_differs(act, exp, std::is_same_v<S, float> ? 1e-3L : 1e-9L);
                    if (e >= 0) rt::violation("model-mismatch", "in-place update of a shared jet%s: %s is %.17g, the serial mathematical history gives %.17g", alias ? " by itself" : "", e == 999 ? "size" : e == 0 ? "value" : e < 100 ? "gradient" : "Hessian", (double)entry(act, e), (double)entry(exp, e));
                }
                acc_n[k]++;
                rt::res->probes[8]++;
                if (alias) rt::res->probes[9]++;
            } else {
                if (now != pre) rt::violation("trace-of-failure", "a failed update of a shared jet left a trace");
                if (st == ST_REFUSED && mismatch) { rt::res->refused++; break; }
                if (!fired) rt::violation("stuck", "an update of a shared jet fails although nothing prevents it");
                rt::res->retried++;
            }
        }
        phase_of_task = PH_PLAIN;
        if (!done && !mismatch) rt::violation("stuck", "an update still fails after memory is available again");
        normalise(acc[k], o, index);
        acc_last[k] = snap(*acc[k]);
        note(index, ST_OK, acc_last[k]);
        rt::unlock(lk[k]);
        }
    }
    static bool moderate(const MJet &m) {
        auto ok = [](long double x) { return fabsl(x) < 1e60L; };
        if (!ok(m.f)) return false;
        for (int i = 0; i < m.n; i++) { if (!ok(m.g[i])) return false; if (m.order == 2) for (int j = 0; j < m.n; j++) if (!ok(m.h[i][j])) return false; }
        return true;
    }
    static long double entry(const MJet &m, int e) {
        if (e == 999) return m.n;
        if (e == 0) return m.f;
        if (e < 100) return m.g[e - 1];
        return m.h[(e - 100) / 100][(e - 100) % 100];
    }
};
