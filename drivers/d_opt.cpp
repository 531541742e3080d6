// P23 bounds, move limits and optima; P24 optimality of each subproblem; P26 convergence test
#include <iostream>
#include <cmath>
#include <cassert>
#include <algorithm>
#include <functional>
#include "vh.hpp"
#include "src/Optimize/Solver/MMA.h"
#include "src/Optimize/Solver/CONLIN.h"
#include "src/Optimize/Solver/OC.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::vector<double> V;
typedef std::vector<ld> L;
struct Data { double f; V df; V g; std::vector<V> dg; };
struct Box { V lo, hi; };
static Box box(Case& c, int n, bool positive) {
    Box b; for (int j = 0; j < n; j++) { double lo = positive ? c.rng.logu(0.05, 2) : c.rng.uni(-3, 3), w = c.rng.logu(0.5, 8); b.lo.push_back(lo); b.hi.push_back(lo + w); }
    c.inputs(b.lo); c.inputs(b.hi); return b;
}
static V start(Case& c, const Box& b) { V x; for (size_t j = 0; j < b.lo.size(); j++) { double t = c.rng.chance(0.15) ? 0 : c.rng.chance(0.15) ? 1 : c.rng.u01(); x.push_back(t == 1 ? b.hi[j] : b.lo[j] + t * (b.hi[j] - b.lo[j])); } c.inputs(x); return x; }
struct Setup { int n, m; double a0; V a, cc, d; Box b; };
static Setup setup(Case& c, bool positive, int big) {
    Rng& g = c.rng; Setup s; s.n = g.chance(0.1) ? g.range(10, 30) : g.range(1, 8); s.m = g.chance(0.1) ? 0 : g.chance(0.15) ? s.n + g.range(0, 2) : g.range(1, 3); s.a0 = 1;
    if (big && g.chance(0.015)) { s.n = g.range(61, big); s.m = g.range(1, 4); c.count("many variables"); }
    bool minmax = g.chance(0.25);
    for (int i = 0; i < s.m; i++) { s.a.push_back(minmax ? (g.chance(0.7) ? 1.0 : 0.0) : 0.0); s.cc.push_back(g.chance(0.6) ? 1000.0 : g.logu(10, 1000)); s.d.push_back(g.chance(0.7) ? 1.0 : g.uni(0.2, 3)); }
    s.b = box(c, s.n, positive);
    c.describe("n=", s.n, " m=", s.m, minmax ? " min-max" : ""); c.inputs(s.a); c.inputs(s.cc); c.inputs(s.d);
    return s;
}
static Data values(Case& c, const Setup& s) {
    Rng& g = c.rng; Data r; auto grad = [&] { V d(s.n); double sc = g.logu(0.1, 3); for (auto& v : d) v = g.chance(0.07) ? 0 : g.sgn() * g.logu(0.05, 2) * sc; if (g.chance(0.2)) for (auto& v : d) v = std::fabs(v) * (g.chance(0.9) ? 1 : -1); return d; };
    r.f = g.uni(-10, 10); r.df = grad();
    for (int i = 0; i < s.m; i++) { r.g.push_back(g.chance(0.2) ? g.uni(0, 3) : g.uni(-2, 1)); r.dg.push_back(grad()); }
    c.inputs(r.df); c.inputs(r.g); for (auto& v : r.dg) c.inputs(v);
    return r;
}
// ---- the approximate problem: sum_j P0_j phi+_j + Q0_j phi-_j, the same for the constraints, box [al, be]
struct Sub {
    int n, m; bool conlin; L Lo, Up, al, be, p0, q0, b, a, cc, d; std::vector<L> p, q; ld a0;
    ld fp(int j, ld x) const { return conlin ? x : 1 / (Up[j] - x); }
    ld fq(int j, ld x) const { return conlin ? 1 / x : 1 / (x - Lo[j]); }
    ld dp(int j, ld x) const { return conlin ? 1 : 1 / ((Up[j] - x) * (Up[j] - x)); }
    ld dq(int j, ld x) const { return conlin ? -1 / (x * x) : -1 / ((x - Lo[j]) * (x - Lo[j])); }
    ld ddp(int j, ld x) const { return conlin ? 0 : 2 / powl(Up[j] - x, 3); }
    ld ddq(int j, ld x) const { return conlin ? 2 / powl(x, 3) : 2 / powl(x - Lo[j], 3); }
    ld obj(const L& x) const { ld s = 0; for (int j = 0; j < n; j++) s += p0[j] * fp(j, x[j]) + q0[j] * fq(j, x[j]); return s; }
    ld con(int i, const L& x) const { ld s = -b[i]; for (int j = 0; j < n; j++) s += p[i][j] * fp(j, x[j]) + q[i][j] * fq(j, x[j]); return s; }
    // minimiser over the box of the Lagrangian's j-th term
    ld best(int j, const L& lam) const {
        ld P = p0[j], Q = q0[j]; for (int i = 0; i < m; i++) { P += lam[i] * p[i][j]; Q += lam[i] * q[i][j]; }
        ld x;
        if (conlin) x = P <= 0 ? (Q > 0 ? be[j] : al[j]) : sqrtl(Q / P);
        else { ld r = sqrtl(P), t = sqrtl(Q); x = (r * Lo[j] + t * Up[j]) / (r + t); }
        return std::min(be[j], std::max(al[j], x));
    }
    ld lag(const L& x, const L& lam) const { ld s = obj(x); for (int i = 0; i < m; i++) s += lam[i] * con(i, x); return s; }
};
// multipliers of the subproblem by a primal barrier method on (x, y, z)
static bool solve(const Sub& s, L& x, L& y, ld& z, L& lam) {
    int n = s.n, m = s.m, N = n + m + 1;
    x.resize(n); y.assign(m, 1); z = 1; for (int j = 0; j < n; j++) x[j] = 0.5L * (s.al[j] + s.be[j]);
    for (int i = 0; i < m; i++) y[i] = std::max<ld>(1, s.con(i, x) - s.a[i] * z + 1);
    auto merit = [&](const L& X, const L& Y, ld Z, ld t) -> ld {
        ld v = 0; if (!(Z > 0)) return INFINITY; v += t * s.a0 * Z - logl(Z);
        for (int j = 0; j < n; j++) { if (!(X[j] > s.al[j] && X[j] < s.be[j])) return INFINITY; v += -logl(X[j] - s.al[j]) - logl(s.be[j] - X[j]); }
        v += t * s.obj(X);
        for (int i = 0; i < m; i++) { ld sl = s.a[i] * Z + Y[i] - s.con(i, X); if (!(Y[i] > 0 && sl > 0)) return INFINITY; v += t * (s.cc[i] * Y[i] + 0.5L * s.d[i] * Y[i] * Y[i]) - logl(Y[i]) - logl(sl); }
        return v;
    };
    for (ld t = 1; t < 1e10L; t *= 8) {
        for (int it = 0; it < 60; it++) {
            RM H(N, N); L gr(N, 0); std::vector<L> gi(m, L(N, 0)); L sl(m);
            for (int i = 0; i < m; i++) { sl[i] = s.a[i] * z + y[i] - s.con(i, x); for (int j = 0; j < n; j++) gi[i][j] = s.p[i][j] * s.dp(j, x[j]) + s.q[i][j] * s.dq(j, x[j]); gi[i][n + i] = -1; gi[i][n + m] = -s.a[i]; }
            for (int j = 0; j < n; j++) {
                gr[j] = t * (s.p0[j] * s.dp(j, x[j]) + s.q0[j] * s.dq(j, x[j])) - 1 / (x[j] - s.al[j]) + 1 / (s.be[j] - x[j]);
                H(j, j) = t * (s.p0[j] * s.ddp(j, x[j]) + s.q0[j] * s.ddq(j, x[j])) + 1 / powl(x[j] - s.al[j], 2) + 1 / powl(s.be[j] - x[j], 2);
                for (int i = 0; i < m; i++) H(j, j) += (s.p[i][j] * s.ddp(j, x[j]) + s.q[i][j] * s.ddq(j, x[j])) / sl[i];
            }
            for (int i = 0; i < m; i++) { gr[n + i] = t * (s.cc[i] + s.d[i] * y[i]) - 1 / y[i]; H(n + i, n + i) = t * s.d[i] + 1 / (y[i] * y[i]); }
            gr[n + m] = t * s.a0 - 1 / z; H(n + m, n + m) = 1 / (z * z);
            for (int i = 0; i < m; i++) for (int u = 0; u < N; u++) { if (gi[i][u] == 0) continue; gr[u] += gi[i][u] / sl[i]; for (int v = 0; v < N; v++) H(u, v) += gi[i][u] * gi[i][v] / (sl[i] * sl[i]); }
            // equilibrate before elimination
            L sc(N); for (int u = 0; u < N; u++) sc[u] = 1 / sqrtl(H(u, u)); RM E(N, N); L rhs(N); for (int u = 0; u < N; u++) { rhs[u] = -gr[u] * sc[u]; for (int v = 0; v < N; v++) E(u, v) = H(u, v) * sc[u] * sc[v]; }
            L st = rsolve(E, rhs); ld dec = 0; for (int u = 0; u < N; u++) { st[u] *= sc[u]; dec -= gr[u] * st[u]; }
            if (!(dec > 1e-18L)) break;
            ld f0 = merit(x, y, z, t), step = 1; bool moved = false;
            for (int k = 0; k < 80; k++, step *= 0.5L) { L X = x, Y = y; for (int j = 0; j < n; j++) X[j] += step * st[j]; for (int i = 0; i < m; i++) Y[i] += step * st[n + i]; ld Z = z + step * st[n + m]; ld f1 = merit(X, Y, Z, t); if (f1 <= f0 - 1e-4L * step * dec || (dec < 1e-8L && std::isfinite((double)f1))) { x = X; y = Y; z = Z; moved = true; break; } }
            if (!moved) break;
        }
        lam.assign(m, 0); for (int i = 0; i < m; i++) lam[i] = 1 / (t * (s.a[i] * z + y[i] - s.con(i, x)));
    }
    return true;
}
static void judge(Case& c, const std::string& who, const Sub& s, const V& got) {
    bool fin = (int)got.size() == s.n; ld span = 1; for (double v : got) fin = fin && std::isfinite(v);
    if (!c.expect("finite", fin, who + ": result is not finite")) return;
    bool in = true; for (int j = 0; j < s.n; j++) { ld w = s.be[j] - s.al[j]; span = std::max(span, w); if (!(got[j] >= s.al[j] - 1e-12L * (1 + fabsl(s.al[j])) && got[j] <= s.be[j] + 1e-12L * (1 + fabsl(s.be[j])))) in = false; }
    if (!c.expect("subproblem-box", in, who + ": result leaves the move range of the subproblem")) return;
    L x, y, lam; ld z; solve(s, x, y, z, lam);
    L best(s.n), g(got.begin(), got.end()); for (int j = 0; j < s.n; j++) best[j] = s.best(j, lam);
    // own certificate first: the reference point must itself be optimal, otherwise the case is not judged
    ld sum = 1; for (auto v : lam) sum += v;
    ld own = s.lag(x, lam) - s.lag(best, lam); ld viol = 0, comp = 0; for (int i = 0; i < s.m; i++) { ld h = s.con(i, x) - s.a[i] * z - y[i]; viol = std::max(viol, h); comp = std::max(comp, -lam[i] * h); }
    if (!(own < 1e-6L && viol < 1e-8L && comp < 1e-7L)) { c.count("reference-not-certified"); return; }
    c.count("certified"); int act = 0; for (auto v : lam) if (v > 1e-4L) act++; c.count(cat("active-constraints-", act));
    ld tol = 6e-6L * (2 * s.n + 3 * s.m + 2 + sum) * span;
    c.near("lagrangian-optimality", s.lag(g, lam) - s.lag(best, lam), 0, tol, cat(who, ": distance from the minimum of the Lagrangian, ", act, " active constraints"));
    for (int i = 0; i < s.m; i++) { ld h = s.con(i, g) - s.a[i] * z - y[i]; ld ht = 2e-5L * (1 + s.n);
        // where the reference slack variable is determined only up to the optimality gap, so is the constraint value
        if (!c.expect("constraint", h <= ht + tol / std::max<ld>(0.05L, std::min<ld>(1, s.cc[i])), cat(who, ": approximate constraint ", i, " exceeded by ", (double)h))) return;
        if (lam[i] > 1e-3L) c.near("complementarity", h, 0, 2e-5L * (1 + s.n) + tol / lam[i] * 4, cat(who, ": active constraint ", i, " not met with equality")); }
}
static long far, near;      // asymptotes that met their limits
struct History { int k = 0; L lo, up; V x1, x2; };
static Sub mmaSub(const Setup& s, const V& x, const Data& v, History& h, const double* par) {
    double raa0 = par[0], albefa = par[1], move = par[2], init = par[3], decr = par[4], incr = par[5];
    Sub q; q.n = s.n; q.m = s.m; q.conlin = false; q.a0 = s.a0; q.a = L(s.a.begin(), s.a.end()); q.cc = L(s.cc.begin(), s.cc.end()); q.d = L(s.d.begin(), s.d.end());
    if (h.k == 0) { h.lo.assign(s.n, 0); h.up.assign(s.n, 0); }
    for (int j = 0; j < s.n; j++) {
        ld r = (ld)s.b.hi[j] - s.b.lo[j];
        if (h.k < 2) { h.lo[j] = x[j] - init * r; h.up[j] = x[j] + init * r; }
        else { double t = (x[j] - h.x1[j]) * (h.x1[j] - h.x2[j]); ld ga = t < 0 ? decr : t > 0 ? incr : 1; ld a = x[j] - ga * (h.x1[j] - h.lo[j]), b = x[j] + ga * (h.up[j] - h.x1[j]); h.lo[j] = a; h.up[j] = b; }
        if (h.lo[j] < x[j] - 10 * r || h.up[j] > x[j] + 10 * r) far++;
        if (h.lo[j] > x[j] - 0.01L * r || h.up[j] < x[j] + 0.01L * r) near++;
        h.lo[j] = std::min<ld>(std::max<ld>(x[j] - 10 * r, h.lo[j]), x[j] - 0.01L * r); h.up[j] = std::max<ld>(std::min<ld>(x[j] + 10 * r, h.up[j]), x[j] + 0.01L * r);
        q.al.push_back(std::max({(ld)s.b.lo[j], h.lo[j] + albefa * (x[j] - h.lo[j]), x[j] - move * r})); q.be.push_back(std::min({(ld)s.b.hi[j], h.up[j] - albefa * (h.up[j] - x[j]), x[j] + move * r}));
    }
    q.Lo = h.lo; q.Up = h.up;
    auto pq = [&](const V& g, L& p, L& r) { for (int j = 0; j < s.n; j++) { ld w = raa0 / ((ld)s.b.hi[j] - s.b.lo[j]), gp = std::max(g[j], 0.0), gm = std::max(-g[j], 0.0); p.push_back(powl(q.Up[j] - x[j], 2) * (1.001L * gp + 0.001L * gm + w)); r.push_back(powl(x[j] - q.Lo[j], 2) * (0.001L * gp + 1.001L * gm + w)); } };
    pq(v.df, q.p0, q.q0); q.p.resize(s.m); q.q.resize(s.m);
    for (int i = 0; i < s.m; i++) { pq(v.dg[i], q.p[i], q.q[i]); ld b = -v.g[i]; for (int j = 0; j < s.n; j++) b += q.p[i][j] / (q.Up[j] - x[j]) + q.q[i][j] / (x[j] - q.Lo[j]); q.b.push_back(b); }
    h.k++; h.x2 = h.x1; h.x1 = x; if (h.k == 1) h.x2 = x;
    return q;
}
static Sub conlinSub(const Setup& s, const V& x, const Data& v, double move) {
    Sub q; q.n = s.n; q.m = s.m; q.conlin = true; q.a0 = s.a0; q.a = L(s.a.begin(), s.a.end()); q.cc = L(s.cc.begin(), s.cc.end()); q.d = L(s.d.begin(), s.d.end());
    for (int j = 0; j < s.n; j++) { ld r = (ld)s.b.hi[j] - s.b.lo[j]; q.al.push_back(std::max<ld>(s.b.lo[j], x[j] - move * r)); q.be.push_back(std::min<ld>(s.b.hi[j], x[j] + move * r)); }
    auto pq = [&](const V& g, L& p, L& r) { for (int j = 0; j < s.n; j++) { p.push_back(std::max(g[j], 0.0)); r.push_back(std::max(-g[j], 0.0) * (ld)x[j] * x[j]); } };
    pq(v.df, q.p0, q.q0); q.p.resize(s.m); q.q.resize(s.m);
    for (int i = 0; i < s.m; i++) { pq(v.dg[i], q.p[i], q.q[i]); ld b = -v.g[i]; for (int j = 0; j < s.n; j++) b += q.p[i][j] * x[j] + q.q[i][j] / x[j]; q.b.push_back(b); }
    return q;
}
static void params(Case& c, double* p) {
    Rng& g = c.rng; double d[6] = {1e-5, 0.1, 0.5, 0.5, 0.7, 1.2}; std::copy(d, d + 6, p);
    if (g.chance(0.5)) { p[0] = g.logu(1e-5, 1e-2); p[1] = g.uni(0.05, 0.5); p[2] = g.uni(0.05, 1); p[3] = g.uni(0.05, 0.8); p[4] = g.uni(0.4, 0.95); p[5] = g.uni(1.05, 1.8); }
    for (int i = 0; i < 6; i++) c.input(p[i]);
}
static void p24mma(Case& c) {
    Setup s = setup(c, false, 75); double p[6]; params(c, p); Rng& g = c.rng;
    MMA<double> o(s.n, s.m, s.a0, s.a, s.cc, s.d, s.b.lo, s.b.hi); if (g.chance(0.5) || p[0] != 1e-5) o.SetParameters(p[0], p[1], p[2], p[3], p[4], p[5], 1e-5);
    V x = start(c, s.b); History h; int K = g.chance(0.12) ? g.range(10, 25) : g.range(1, 7); if (K > 7) p[2] = g.uni(0.02, 0.1), p[5] = g.uni(1.3, 1.8), o.SetParameters(p[0], p[1], p[2], p[3], p[4], p[5], 1e-5); bool steady = g.chance(0.4); Data v = values(c, s);
    for (int k = 0; k < K; k++) { if (k && !steady) v = values(c, s); else if (k && g.chance(0.4)) for (auto& t : v.df) t = -t; far = near = 0; Sub q = mmaSub(s, x, v, h, p); if (far) c.count("asymptote at far limit"); if (near) c.count("asymptote at near limit"); o.UpdateVariables(x, v.f, v.df, v.g, v.dg); c.count("updates"); judge(c, cat("MMA update ", k + 1), q, x); }
}
static void p24conlin(Case& c) {
    Setup s = setup(c, true, 75); Rng& g = c.rng; double move = g.chance(0.5) ? 0.5 : g.uni(0.05, 1); c.input(move);
    CONLIN<double> o(s.n, s.m, s.a0, s.a, s.cc, s.d, s.b.lo, s.b.hi); if (move != 0.5 || g.chance(0.3)) o.SetParameters(move, 1e-5);
    V x = start(c, s.b); int K = g.range(1, 4);
    for (int k = 0; k < K; k++) { Data v = values(c, s); Sub q = conlinSub(s, x, v, move); o.UpdateVariables(x, v.f, v.df, v.g, v.dg); c.count("updates"); judge(c, cat("CONLIN update ", k + 1), q, x); }
}
static void p24oc(Case& c) {
    Rng& g = c.rng; int n = g.chance(0.03) ? g.range(61, 400) : g.range(1, 12); double iota = g.chance(0.5) ? 0.5 : g.uni(0.3, 1), move = g.chance(0.5) ? 0.15 : g.uni(0.05, 0.6), eps = g.logu(1e-6, 1e-3);
    double unit = g.chance(0.5) ? 1 : g.logu(1e-8, 1e6);     // of the objective
    V lo(n), hi(n), x(n), df(n), dg(n); for (int j = 0; j < n; j++) { hi[j] = g.chance(0.5) ? 1 : g.logu(0.5, 5); x[j] = hi[j] * (g.chance(0.2) ? 1 : g.uni(0.1, 1)); lo[j] = (1 - move) * x[j] * g.uni(0, 0.9); df[j] = -unit * g.logu(0.1, 10); dg[j] = g.logu(0.3, 3); }
    auto at = [&](ld lam) { L r(n); for (int j = 0; j < n; j++) { ld t = powl(-(ld)df[j] / (dg[j] * lam), iota) * x[j]; r[j] = std::min({std::max(t, (1 - (ld)move) * x[j]), (1 + (ld)move) * x[j], (ld)hi[j]}); } return r; };
    ld s0 = 0, s1 = 0; L a = at(1e-12L * unit), b = at(1e12L * unit); for (int j = 0; j < n; j++) { s1 += dg[j] * a[j]; s0 += dg[j] * b[j]; }
    if (s1 - s0 < 1e-3L * s1) { c.boring(); return; }
    double vol = (double)(s0 + (s1 - s0) * g.uni(0.1, 0.9));
    auto gof = [&](const V& y) { double s = -vol; for (int j = 0; j < n; j++) s += dg[j] * y[j]; return s; };
    auto gl = [&](ld lam) { L r = at(lam); ld s = -vol; for (int j = 0; j < n; j++) s += dg[j] * r[j]; return s; };
    ld l0 = 1e-8L * unit, l1 = 1e8L * unit; for (int k = 0; k < 300; k++) { ld m = sqrtl(l0 * l1); (gl(m) > 0 ? l0 : l1) = m; }
    double lmax = (double)l1 * g.logu(2, 1e3), lmin = g.chance(0.5) ? 0 : (double)l0 * g.logu(1e-3, 0.5);
    c.describe("n=", n, " iota ", iota, " move ", move, " eps ", eps, " bracket ", lmin, " ", lmax); c.inputs(x); c.inputs(df); c.inputs(dg);
    OC<double> o(n, iota, lmin, lmax, eps, move, lo, hi); V y = x; int calls = 0;
    o.UpdateVariables(y, 1.0, df, gof(x), dg, [&](const V& t) { calls++; return gof(t); });
    bool fin = (int)y.size() == n; for (double t : y) fin = fin && std::isfinite(t); if (!c.expect("finite", fin, "OC: result is not finite")) return;
    // the answer must be the update for some multiplier within the bisection accuracy of the exact one
    ld e = 2.2L * eps; L p = at(l0 * (1 - e)), q = at(l1 * (1 + e)); c.count("updates");
    for (int j = 0; j < n; j++) if (!c.expect("multiplier-bracket", y[j] <= p[j] * (1 + 1e-10L) && y[j] >= q[j] * (1 - 1e-10L), cat("OC: variable ", j, " is ", y[j], ", the constraint-satisfying multiplier gives ", (double)at(l0)[j], " (", (double)q[j], " to ", (double)p[j], ")"))) return;
    ld lam = -1; for (int j = 0; j < n; j++) { ld t = y[j], x0 = x[j]; bool free = t > (1 - move) * x0 * (1 + 1e-9L) && t < (1 + move) * x0 * (1 - 1e-9L) && t < hi[j] * (1 - 1e-9L); if (free) { ld m = -(ld)df[j] / dg[j] * powl(x0 / t, 1 / (ld)iota); if (lam < 0) lam = m; else c.near("one-multiplier", m, lam, 1e-9L * lam, "OC: variables were updated with different multipliers"); } }
}
// ---- P23
static void bounds(Case& c, const std::string& who, const V& x0, const V& x, const Box& b, double move, bool relative) {
    for (size_t j = 0; j < x0.size(); j++) {
        if (!c.expect("finite", j < x.size() && std::isfinite(x[j]), who + ": design variable is not finite")) return;
        double r = b.hi[j] - b.lo[j], e = 1e-10 * (std::fabs(b.lo[j]) + std::fabs(b.hi[j]));
        double dn = relative ? (1 - move) * x0[j] : x0[j] - move * r, up = relative ? (1 + move) * x0[j] : x0[j] + move * r;
        bool low = x[j] < b.lo[j] - e; std::string sig;
        if (relative && low && x[j] >= dn - e && x[j] >= -e) sig = "oc-lower-bound-ignored";
        c.expect("bounds", !low && x[j] <= b.hi[j] + e, cat(who, ": variable ", j, " = ", x[j], " outside [", b.lo[j], ", ", b.hi[j], "]"), sig);
        c.expect("move-limit", x[j] >= dn - e && x[j] <= up + e, cat(who, ": variable ", j, " moved from ", x0[j], " to ", x[j], " with move limit ", move));
    }
}
static void p23hist(Case& c) {
    Rng& g = c.rng; int kind = c.idx % 3;
    if (kind == 2) {
        int n = g.chance(0.03) ? g.range(61, 300) : g.range(1, 10); double move = g.uni(0.05, 0.5); V lo(n), hi(n), x(n); for (int j = 0; j < n; j++) { lo[j] = g.chance(0.6) ? 0.01 : g.uni(0, 0.3); hi[j] = g.chance(0.5) ? 1 : g.uni(0.5, 4); x[j] = std::max(lo[j], hi[j] * g.uni(0.1, 1)); }
        OC<double> o(n, g.pick(std::vector<double>{0.5, 0.5, 0.75, 1.0}), 0, 1e4, 1e-3, move, lo, hi); c.describe("OC n=", n, " move ", move); c.inputs(x);
        for (int k = 0; k < 6; k++) { V df(n), dg(n), x0 = x; double V0 = 0; for (int j = 0; j < n; j++) { df[j] = g.chance(0.05) ? 0.0 : g.chance(0.05) ? g.logu(1e-18, 1) : -g.logu(0.01, 100); dg[j] = g.logu(0.3, 3); V0 += dg[j] * hi[j] * g.uni(0.1, 0.9); } auto gg = [&](const V& t) { double s = -V0; for (int j = 0; j < n; j++) s += dg[j] * t[j]; return s; }; o.UpdateVariables(x, g.uni(0.1, 10), df, gg(x), dg, gg); c.count("updates"); bounds(c, "OC", x0, x, {lo, hi}, move, true); }
        return;
    }
    Setup s = setup(c, kind == 1, 300); V x = start(c, s.b), y = x; double p[6]; params(c, p); int K = g.range(2, 8);
    // the same history again with a second optimiser working on another problem in between
    Setup s2 = setup(c, kind == 1, 0); V x2 = start(c, s2.b); std::vector<Data> hist; for (int k = 0; k < K; k++) hist.push_back(values(c, s));
    if (g.chance(0.25)) for (auto& d : hist) { double a = g.logu(1e-4, 1e4); for (auto& v : d.df) v *= a; for (int i = 0; i < s.m; i++) { double b = g.logu(1e-4, 1e4); d.g[i] *= b; for (auto& v : d.dg[i]) v *= b; } }
    std::vector<int> reset(K, 0); if (g.chance(0.3)) for (auto& r : reset) r = g.chance(0.6);   // the caller puts the design back: variables that do not move at all
    auto go = [&](auto& A, auto& B, auto& C) {
        for (int k = 0; k < K; k++) { if (reset[k]) x = y; V x0 = x; A.UpdateVariables(x, hist[k].f, hist[k].df, hist[k].g, hist[k].dg); c.count("updates"); bounds(c, kind ? "CONLIN" : "MMA", x0, x, s.b, p[2], false); }
        V fin = x; x = y;
        for (int k = 0; k < K; k++) { if (reset[k]) x = y; Data d2 = values(c, s2); B.UpdateVariables(x, hist[k].f, hist[k].df, hist[k].g, hist[k].dg); C.UpdateVariables(x2, d2.f, d2.df, d2.g, d2.dg); }
        c.expect("independent", x == fin, "an optimiser's iterates depend on another optimiser object");
    };
    if (kind == 0) { MMA<double> A(s.n, s.m, s.a0, s.a, s.cc, s.d, s.b.lo, s.b.hi), B(A), C(s2.n, s2.m, s2.a0, s2.a, s2.cc, s2.d, s2.b.lo, s2.b.hi); A.SetParameters(p[0], p[1], p[2], p[3], p[4], p[5], 1e-5); B.SetParameters(p[0], p[1], p[2], p[3], p[4], p[5], 1e-5); go(A, B, C); }
    else { CONLIN<double> A(s.n, s.m, s.a0, s.a, s.cc, s.d, s.b.lo, s.b.hi), B(A), C(s2.n, s2.m, s2.a0, s2.a, s2.cc, s2.d, s2.b.lo, s2.b.hi); A.SetParameters(p[2], 1e-5); B.SetParameters(p[2], 1e-5); go(A, B, C); }
}
// separable convex problems with one constraint; the optimum comes from bisection on the multiplier
static void p23opt(Case& c) {
    Rng& g = c.rng; int kind = g.range(0, 1), n = g.chance(0.1) ? g.range(10, 25) : g.chance(0.05) ? g.range(61, 200) : g.range(1, 8), who = g.range(0, kind == 0 ? 2 : 1);
    V a(n), b(n), lo(n), hi(n), x(n); for (int j = 0; j < n; j++) { a[j] = g.logu(0.3, 3); b[j] = g.logu(0.3, 3); lo[j] = 0.2 * g.uni(0.5, 1); hi[j] = lo[j] + g.uni(1.5, 4); x[j] = g.uni(lo[j], hi[j]); }
    if (c.idx == 0) { kind = 0; who = 2; n = 3; for (auto* v : {&a, &b, &lo, &hi, &x}) v->resize(n, 1.0); lo = V(n, 0.2); hi = V(n, 2.0); x = V(n, 1.0); a = b = V(n, 1.0); x[0] = 0.21; b[0] = 1e-3; }   // a variable that belongs at its lower bound
    // 0: min sum b/x  s.t. sum a x <= V;  1: min sum a x  s.t. sum b/x^e <= W;  2: min sum a (x-t)^2  s.t. sum b x <= V
    double e = kind == 1 && who == 0 ? (g.chance(0.5) ? 1 : 3) : 1; V t(n); for (int j = 0; j < n; j++) t[j] = g.uni(lo[j] - 0.5, hi[j] + 0.5);
    auto xof = [&](ld lam) { L r(n); for (int j = 0; j < n; j++) { ld v = kind == 0 ? sqrtl(b[j] / (a[j] * lam)) : kind == 1 ? powl(lam * e * b[j] / a[j], 1 / (e + 1)) : (ld)t[j] - lam * b[j] / (2 * a[j]); r[j] = std::min<ld>(hi[j], std::max<ld>(lo[j], v)); } return r; };
    auto cons = [&](const L& y) { ld s = 0; for (int j = 0; j < n; j++) s += kind == 0 ? a[j] * y[j] : kind == 1 ? b[j] / powl(y[j], e) : b[j] * y[j]; return s; };
    L A(lo.begin(), lo.end()), B(hi.begin(), hi.end()); ld m0 = cons(A), m1 = cons(B), lim = m0 + (m1 - m0) * g.uni(0.2, 0.8);
    ld l0 = 1e-9L, l1 = 1e9L; bool up = kind == 1;                                   // the constraint decreases with the multiplier
    for (int k = 0; k < 300; k++) { ld m = sqrtl(l0 * l1); (cons(xof(m)) > lim ? l0 : l1) = m; }
    (void)up; L best = xof(l1);
    double scale = (double)(1 / lim);
    Data d; auto eval = [&](const V& y) { d.f = 0; d.df.assign(n, 0); d.g.assign(1, -1); d.dg.assign(1, V(n)); for (int j = 0; j < n; j++) {
        if (kind == 0) { d.f += b[j] / y[j]; d.df[j] = -b[j] / (y[j] * y[j]); d.g[0] += scale * a[j] * y[j]; d.dg[0][j] = scale * a[j]; }
        else if (kind == 1) { d.f += a[j] * y[j]; d.df[j] = a[j]; d.g[0] += scale * b[j] / std::pow(y[j], e); d.dg[0][j] = -scale * e * b[j] / std::pow(y[j], e + 1); }
        else { d.f += a[j] * (y[j] - t[j]) * (y[j] - t[j]); d.df[j] = 2 * a[j] * (y[j] - t[j]); d.g[0] += scale * b[j] * y[j]; d.dg[0][j] = scale * b[j]; } } };
    const char* names[] = {"MMA", "CONLIN", "OC"}, *probs[] = {"compliance", "weight", "quadratic"}; c.describe(names[who], " ", probs[kind], " n=", n, " e=", e); c.inputs(a); c.inputs(b); c.inputs(lo); c.inputs(hi); c.inputs(x); c.input((double)lim); c.count(cat(names[who], " ", probs[kind]));
    int K = who == 2 ? 80 : who == 1 ? 40 : 120; Box bx{lo, hi};
    V z1(1, 0.0), c1(1, 1000.0), d1(1, 1.0);
    if (who == 0) { MMA<double> o(n, 1, 1.0, z1, c1, d1, lo, hi); for (int k = 0; k < K; k++) { eval(x); V x0 = x; o.UpdateVariables(x, d.f, d.df, d.g, d.dg); bounds(c, "MMA", x0, x, bx, 0.5, false); } }
    else if (who == 1) { CONLIN<double> o(n, 1, 1.0, z1, c1, d1, lo, hi); for (int k = 0; k < K; k++) { eval(x); V x0 = x; o.UpdateVariables(x, d.f, d.df, d.g, d.dg); bounds(c, "CONLIN", x0, x, bx, 0.5, false); } }
    else { OC<double> o(n, 0.5, 0.0, 1e6, 1e-7, 0.2, lo, hi); for (int k = 0; k < K; k++) { eval(x); V x0 = x; o.UpdateVariables(x, d.f, d.df, d.g[0], d.dg[0], [&](const V& y) { double s = -1; for (int j = 0; j < n; j++) s += scale * a[j] * y[j]; return s; }); bounds(c, "OC", x0, x, bx, 0.2, true); } }
    bool skip = false; if (who == 2) for (int j = 0; j < n; j++) if (best[j] < lo[j] * (1 + 1e-6L)) skip = true;      // recorded finding: lower bounds are not kept
    if (skip) return;
    eval(x); ld dist = 0; for (int j = 0; j < n; j++) dist = std::max(dist, fabsl(x[j] - best[j]));
    c.near("optimum", dist, 0, 2e-3L, cat(names[who], " ", probs[kind], ": distance from the optimum after ", K, " updates"));
    c.expect("feasible-at-end", d.g[0] <= 1e-3, cat(names[who], " ", probs[kind], ": constraint exceeded by ", d.g[0]));
}
// many constraints: the variables fall into groups, each with its own volume, and the first constraint bounds the total (it couples all others); bisection on the multipliers
static void p23groups(Case& c) {
    Rng& g = c.rng; int who = c.idx % 2, k = c.idx < 2 ? g.range(61, 66) : g.range(4, 20), n = k * 2 - g.range(0, k), m = k + 1;
    V b(n), lo(n), hi(n), x(n), vol(m, 0.0); std::vector<int> grp(n); L best(n), crit(k); for (int j = 0; j < n; j++) { grp[j] = 1 + j % k; b[j] = g.logu(0.3, 3); lo[j] = g.uni(0.1, 0.3); hi[j] = lo[j] + g.uni(1, 3); x[j] = g.uni(lo[j], hi[j]); }
    auto xof = [&](int j, ld lam) { return std::min<ld>(hi[j], std::max<ld>(lo[j], sqrtl(b[j] / lam))); };
    auto bisect = [&](auto sum, ld lim) { ld l0 = 1e-6L, l1 = 1e6L; for (int t = 0; t < 200; t++) { ld mid = sqrtl(l0 * l1); (sum(mid) > lim ? l0 : l1) = mid; } return l1; };
    ld low = 0; for (int j = 0; j < n; j++) low += lo[j];
    for (int i = 0; i < k; i++) { ld v0 = 0, v1 = 0; for (int j = i; j < n; j += k) v0 += lo[j], v1 += hi[j]; vol[i + 1] = v0 + (v1 - v0) * g.uni(0.2, 1.2); crit[i] = bisect([&](ld t) { ld s = 0; for (int j = i; j < n; j += k) s += xof(j, t); return s; }, vol[i + 1]); }
    auto all = [&](ld t) { ld s = 0; for (int j = 0; j < n; j++) s += xof(j, std::max(crit[j % k], t)); return s; };
    vol[0] = low + (all(1e-6L) - low) * g.uni(0.5, 1.1); ld total = bisect(all, vol[0]); for (int j = 0; j < n; j++) best[j] = xof(j, std::max(crit[j % k], total));
    V z(m, 0.0), cc(m, 1000.0), d(m, 1.0); c.describe(who ? "CONLIN" : "MMA", " n=", n, " m=", m); c.inputs(b); c.inputs(lo); c.inputs(hi); c.inputs(x); c.inputs(vol); c.count(m > 60 ? "more than 60 constraints" : "few constraints");
    auto go = [&](auto& o, int K) {
        for (int k = 0; k < K; k++) {
            Data v; v.f = 0; v.df.assign(n, 0); v.g.assign(m, -1); v.dg.assign(m, V(n, 0.0)); for (int j = 0; j < n; j++) { v.g[0] += x[j] / vol[0]; v.dg[0][j] = 1 / vol[0]; v.f += b[j] / x[j]; v.df[j] = -b[j] / (x[j] * x[j]); v.g[grp[j]] += x[j] / vol[grp[j]]; v.dg[grp[j]][j] = 1 / vol[grp[j]]; }
            V x0 = x; o.UpdateVariables(x, v.f, v.df, v.g, v.dg); c.count("updates"); bounds(c, who ? "CONLIN" : "MMA", x0, x, {lo, hi}, 0.5, false);
        }
    };
    if (who) { CONLIN<double> o(n, m, 1.0, z, cc, d, lo, hi); go(o, 12); } else { MMA<double> o(n, m, 1.0, z, cc, d, lo, hi); go(o, 25); }
    ld dist = 0; for (int j = 0; j < n; j++) dist = std::max(dist, fabsl(x[j] - best[j]));
    c.near("optimum", dist, 0, 4e-3L, cat("distance from the optimum of ", m, " groups"));
}
// ---- P26
static void p26(Case& c) {
    Rng& g = c.rng; int who = c.idx % 3; double eps = who == 2 || g.chance(0.4) ? 1e-5 : g.logu(1e-8, 1e-1);
    V lo(1, 0.5), hi(1, 2.0), z(1, 0.0), cc(1, 1000.0), d(1, 1.0), x(1, 1.0);
    MMA<double> A(1, 1, 1.0, z, cc, d, lo, hi); CONLIN<double> B(1, 1, 1.0, z, cc, d, lo, hi); OC<double> C(1, 0.5, 1e-3, 1e3, 1e-2, 0.1, lo, hi);
    if (eps != 1e-5) { A.SetParameters(1e-5, 0.1, 0.5, 0.5, 0.7, 1.2, eps); B.SetParameters(0.5, eps); }
    c.describe(who == 0 ? "MMA" : who == 1 ? "CONLIN" : "OC", " eps ", eps);
    double wide = g.chance(0.1) ? 1e14 : 1e6, f = g.sgn() * g.logu(1 / wide, wide), prev = 0; bool first = true; int K = g.range(2, 8);
    for (int k = 0; k < K; k++) {
        c.input(f);
        for (int rep = 0; rep < g.range(1, 2); rep++) {
            bool got = who == 0 ? A.IsConvergence(f) : who == 1 ? B.IsConvergence(f) : C.IsConvergence(f);
            ld q = fabsl((ld)f - prev), s = fabsl((ld)f + prev) * eps;
            if (f == 0 && prev == 0) continue;
            if (fabsl(q - s) <= 1e-6L * s + 1e-15L * (fabsl(f) + fabsl(prev))) continue;
            c.count(q < s ? "settled" : "changing"); if (first) c.count("first-values");
            c.expect(first ? "first-value" : "relative-change", got == (q < s), cat("previous ", prev, ", current ", f, ", tolerance ", eps, ": reported ", got));
        }
        V df(1, -1.0), gg(1, -0.1); std::vector<V> dg(1, V(1, 1.0));
        x[0] = 1;
        if (who == 0) A.UpdateVariables(x, f, df, gg, dg); else if (who == 1) B.UpdateVariables(x, f, df, gg, dg); else C.UpdateVariables(x, f, df, -0.1, V(1, 1.0), [](const V& y) { return y[0] - 1.02; });
        prev = f; first = false;
        switch (g.range(0, 6)) { case 0: break; case 1: f = f * (1 + 2 * eps * g.pick(std::vector<double>{0.1, 0.5, 0.9, 1.1, 2, 5}) * g.sgn()); break; case 2: f = -f; break; case 3: f = g.sgn() * g.logu(1e-6, 1e6); break; case 4: f = f * (1 + eps * g.uni(-3, 3)); break; case 5: f = -f * (1 + eps); break; default: f = g.chance(0.3) ? 0 : f * g.uni(0.5, 1.5); }
    }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_opt");
    component("P23.history", 900, 60000, p23hist);
    component("P23.optimum", 300, 12000, p23opt);
    component("P23.groups", 8, 120, p23groups);
    component("P24.mma", 900, 60000, p24mma);
    component("P24.conlin", 900, 60000, p24conlin);
    component("P24.oc", 3000, 200000, p24oc);
    component("P26.trace", 3000, 200000, p26);
    return finish();
}
