// Small executable reference model of a jet (long double, textbook formulas),
// with a magnitude bound for every entry so comparisons are scaled to the
// rounding the computation can legitimately have.
#pragma once
#include <cmath>
#include <cstring>

struct MJet {
    static constexpr int N = 42;
    int n = 0, order = 2;
    long double f = 0, g[N] = {}, h[N][N] = {};
    long double bf = 0, bg[N] = {}, bh[N][N] = {}; // bounds (sum of magnitudes of terms)
    void bounds_from_values() {
        bf = fabsl(f);
        for (int i = 0; i < n; i++) { bg[i] = fabsl(g[i]); for (int j = 0; j < n; j++) bh[i][j] = fabsl(h[i][j]); }
    }
};
inline MJet m_binary(const MJet &a, const MJet &b, long double f, long double fa, long double fb, long double faa, long double fab, long double fbb) {
    MJet r; r.n = a.n; r.order = a.order; r.f = f; r.bf = fabsl(f) + fabsl(a.f) + fabsl(b.f);
    for (int i = 0; i < r.n; i++) {
        r.g[i] = fa * a.g[i] + fb * b.g[i];
        r.bg[i] = fabsl(fa * a.g[i]) + fabsl(fb * b.g[i]);
        if (r.order == 2) for (int j = 0; j < r.n; j++) {
            long double t[6] = {fa * a.h[i][j], fb * b.h[i][j], faa * a.g[i] * a.g[j], fab * a.g[i] * b.g[j], fab * b.g[i] * a.g[j], fbb * b.g[i] * b.g[j]};
            for (long double x : t) { r.h[i][j] += x; r.bh[i][j] += fabsl(x); }
        }
    }
    return r;
}
inline MJet m_add(const MJet &a, const MJet &b) { return m_binary(a, b, a.f + b.f, 1, 1, 0, 0, 0); }
inline MJet m_sub(const MJet &a, const MJet &b) { return m_binary(a, b, a.f - b.f, 1, -1, 0, 0, 0); }
inline MJet m_mul(const MJet &a, const MJet &b) { return m_binary(a, b, a.f * b.f, b.f, a.f, 0, 1, 0); }
inline MJet m_div(const MJet &a, const MJet &b) {
    long double q = 1 / b.f;
    MJet r = m_binary(a, b, a.f * q, q, -a.f * q * q, 0, -q * q, 2 * a.f * q * q * q);
    r.bf = fabsl(a.f * q);
    return r;
}
inline MJet m_const(const MJet &like, long double s) { MJet r; r.n = like.n; r.order = like.order; r.f = s; return r; }
// first differing entry, or -1: 0 f, 1+i g, 100+100*i+j h
inline int m_differs(const MJet &act, const MJet &exp, long double eps) {
    auto bad = [&](long double x, long double y, long double b) {
        if (!std::isfinite((double)y)) return false; // outside the model
        if (!std::isfinite((double)x)) return true;
        return fabsl(x - y) > eps * (b + fabsl(y)) + 1e-30L;
    };
    if (bad(act.f, exp.f, exp.bf)) return 0;
    for (int i = 0; i < exp.n; i++) if (bad(act.g[i], exp.g[i], exp.bg[i])) return 1 + i;
    if (exp.order == 2) for (int i = 0; i < exp.n; i++) for (int j = 0; j < exp.n; j++) if (bad(act.h[i][j], exp.h[i][j], exp.bh[i][j])) return 100 + 100 * i + j;
    return -1;
}
