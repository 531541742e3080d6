// P06, P07: iterative linear solvers and preconditioners
#include "vh.hpp"
#include <memory>
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
#include "src/LinearAlgebra/Solvers/CG.h"
using namespace vh;
typedef std::vector<double> V;
struct Sys { int n = 0; std::map<std::pair<int, int>, double> m; double anorm = 0; bool spd = true; std::string kind; };

static ld nrm(const std::vector<ld>& v) { ld s = 0; for (auto x : v) s += x * x; return sqrtl(s); }
static void finishsys(Sys& s) {
    std::vector<double> row(s.n, 0);
    for (auto& p : s.m) row[p.first.first] += fabs(p.second);
    for (double r : row) s.anorm = std::max(s.anorm, r);
}
// symmetric positive definite, condition number bounded by roughly 1e4
static Sys spd(Case& c, int n, bool slow = false) {
    Sys s; s.n = n; Rng& g = c.rng;
    int kind = g.range(0, 7);
    if (n == 1) kind = g.range(0, 1);
    switch (kind) {
    case 0: { s.kind = "diagonal"; double v = g.logu(1e-2, 1e2); bool scalar = g.chance(0.4); for (int i = 0; i < n; i++) s.m[{i, i}] = scalar ? v : g.logu(0.1, 10); break; }
    case 1: s.kind = "identity"; for (int i = 0; i < n; i++) s.m[{i, i}] = 1; break;
    case 2: { s.kind = "1d-laplacian"; double sh = g.logu(1e-2, 1); for (int i = 0; i < n; i++) { s.m[{i, i}] = 2 + sh; if (i) { s.m[{i, i - 1}] = -1; s.m[{i - 1, i}] = -1; } } break; }
    case 3: { s.kind = "2d-laplacian"; int w = std::max(2, (int)std::sqrt((double)n)); double sh = g.logu(1e-2, 1); for (int i = 0; i < n; i++) { s.m[{i, i}] = 4 + sh; for (int d : {1, w}) if (i + d < n && !(d == 1 && i % w == w - 1)) { s.m[{i, i + d}] = -1; s.m[{i + d, i}] = -1; } } break; }
    case 4: { s.kind = "variable-coefficient"; std::vector<double> k(n + 1); for (auto& x : k) x = g.logu(0.2, 5); for (int i = 0; i < n; i++) { s.m[{i, i}] = k[i] + k[i + 1] + 0.05; if (i) { s.m[{i, i - 1}] = -k[i]; s.m[{i - 1, i}] = -k[i]; } } break; }
    default: {        // random sparse, symmetric, strictly diagonally dominant; signs mixed; optionally badly scaled
        s.kind = "random-dominant";
        std::vector<double> off(n, 0);
        long ne = (long)n * g.range(1, 5);
        for (long k = 0; k < ne && n > 1; k++) { int i = g.range(0, n - 1), j = g.range(0, n - 1); if (i == j || s.m.count({i, j})) continue; double v = g.uni(-1, 1); s.m[{i, j}] = v; s.m[{j, i}] = v; off[i] += fabs(v); off[j] += fabs(v); }
        double dom = g.uni(0.05, 1);
        for (int i = 0; i < n; i++) s.m[{i, i}] = off[i] * (1 + dom) + 0.1;
        if (kind == 7) { s.kind = "scaled-dominant"; std::vector<double> d(n); for (auto& x : d) x = g.logu(0.3, 3); for (auto& p : s.m) p.second *= d[p.first.first] * d[p.first.second]; }
    } }
    if (slow) {      // many iterations: narrow shift, so every solver needs dozens to hundreds of steps
        s.m.clear(); double sh = g.logu(1e-4, 3e-3); int w = (int)std::sqrt((double)n);
        if (n < 1000 && g.chance(0.5)) { s.kind = "slow-1d"; for (int i = 0; i < n; i++) { s.m[{i, i}] = 2 + sh; if (i) { s.m[{i, i - 1}] = -1; s.m[{i - 1, i}] = -1; } } }
        else { s.kind = "slow-2d"; for (int i = 0; i < n; i++) { s.m[{i, i}] = 4 + sh; for (int d : {1, w}) if (i + d < n && !(d == 1 && i % w == w - 1)) { s.m[{i, i + d}] = -1; s.m[{i + d, i}] = -1; } } }
    }
    if (g.chance(0.15)) { double f = g.chance(0.5) ? 1e-6 : 1e7; s.kind += "*scale"; for (auto& p : s.m) p.second *= f; }
    finishsys(s);
    return s;
}
static Sys nonsym(Case& c, int n) {
    Sys s; s.n = n; s.spd = false; Rng& g = c.rng;
    int kind = g.range(0, 2);
    if (kind == 0) { s.kind = "convection-diffusion"; double pe = g.uni(-0.9, 0.9); for (int i = 0; i < n; i++) { s.m[{i, i}] = 2.2; if (i) s.m[{i, i - 1}] = -1 - pe; if (i < n - 1) s.m[{i, i + 1}] = -1 + pe; } }
    else {
        s.kind = "nonsymmetric-dominant";
        std::vector<double> off(n, 0);
        long ne = (long)n * g.range(1, 6);
        for (long k = 0; k < ne && n > 1; k++) { int i = g.range(0, n - 1), j = g.range(0, n - 1); if (i == j || s.m.count({i, j})) continue; double v = g.uni(-1, 1); s.m[{i, j}] = v; off[i] += fabs(v); if (kind == 2) { double w = g.uni(-1, 1); if (!s.m.count({j, i})) { s.m[{j, i}] = w; off[j] += fabs(w); } } }
        for (int i = 0; i < n; i++) s.m[{i, i}] = (off[i] * (1 + g.uni(0.2, 1)) + 0.2);
    }
    finishsys(s);
    return s;
}
static CSR<double> build(Case& c, const Sys& s) {   // inserted in random order, as assembly would
    std::vector<std::pair<std::pair<int, int>, double>> e(s.m.begin(), s.m.end());
    c.rng.shuffle(e);
    LILCSR<double> l(s.n, s.n);
    for (auto& p : e) l.set(p.first.first, p.first.second, p.second);
    return CSR<double>(l);
}
static V rhs(Case& c, int n, bool generic = false) {
    // sparse or patterned right-hand sides can make the BiCGSTAB family break down lawfully (rho = 0, reported as failure)
    V b(n); int kind = c.rng.range(generic ? 3 : 0, 5); double sc = c.rng.chance(0.3) ? c.rng.pick(V{1e-9, 1e9, 1e-25, 1e20}) : 1;
    for (int i = 0; i < n; i++) b[i] = sc * (kind == 0 ? (i == n / 2) : kind == 1 ? 1.0 : kind == 2 ? (i % 2 ? -1.0 : 1.0) * (1 + i % 3) : c.rng.uni(-1, 1));
    for (double x : b) c.input(x);
    return b;
}
static ld residual(const Sys& s, const V& x, const V& b) {
    std::vector<ld> r(s.n); for (int i = 0; i < s.n; i++) r[i] = b[i];
    for (auto& p : s.m) r[p.first.first] -= (ld)p.second * x[p.first.second];
    return nrm(r);
}
static ld vnorm(const V& v) { ld s = 0; for (double x : v) s += (ld)x * x; return sqrtl(s); }
enum { kCG, kBI, kBI2, kICG, kIBI, kSCG, kSBI, kSORCG, kSOR, kN };
static const char* NAME[] = {"CG", "BiCGSTAB", "BiCGSTAB2", "ILU0CG", "ILU0BiCGSTAB", "ScalingCG", "ScalingBiCGSTAB", "SORCG", "SOR"};
static V solve(int k, CSR<double>& A, CSR<double>* M, V& b, int itr, double eps, double w, int soritr) {
    switch (k) {
    case kCG: return CG(A, b, itr, eps);
    case kBI: return BiCGSTAB(A, b, itr, eps);
    case kBI2: return BiCGSTAB2(A, b, itr, eps);
    case kICG: return ILU0CG(A, *M, b, itr, eps);
    case kIBI: return ILU0BiCGSTAB(A, *M, b, itr, eps);
    case kSCG: return ScalingCG(A, b, itr, eps);
    case kSBI: return ScalingBiCGSTAB(A, b, itr, eps);
    case kSORCG: return SORCG(A, b, itr, eps, w, soritr, 1e-30);
    default: return SOR(A, b, w, itr, eps);
    }
}
static bool saysfailed(Case& c) { std::string s = c.captured.str(); bool f = s.find("faild") != std::string::npos || s.find("failed") != std::string::npos; c.captured.str(""); return f; }
static void unchanged(Case& c, const Sys& s, CSR<double>& A, const V& b0, const V& b, const char* name) {
    bool ok = true; long k = 0; int prev = 0;
    for (auto& p : s.m) ok = ok && A.get(p.first.first, p.first.second) == p.second;
    c.expect("matrix-unchanged", ok, cat(name, " changed the matrix"), name);
    c.expect("rhs-unchanged", b == b0, cat(name, " changed the right-hand side"), name);
}
// slack between the recurrence residual the solver tests and the true residual
static ld slack(const Sys& s, const V& x, ld bn, int its) { return 3e-13L * (s.anorm * vnorm(x) + bn) * (10 + sqrtl((ld)s.n)); }

static void converge(Case& c, bool sym, int n, bool slow = false) {
    Sys s = sym ? spd(c, n, slow) : nonsym(c, n);
    int k = slow ? (int)(c.idx % kSORCG) : sym ? c.rng.range(0, kSORCG) : c.rng.pick(std::vector<int>{kBI, kBI2, kIBI, kSBI});
    double eps = slow ? c.rng.pick(V{1e-4, 1e-6}) : c.rng.pick(V{1e-4, 1e-6, 1e-8, 1e-10});
    c.describe(NAME[k], " on ", s.kind, " n=", n, " nnz=", s.m.size(), " eps=", eps);
    CSR<double> A = build(c, s);
    for (auto& p : s.m) c.input(p.second);
    std::unique_ptr<CSR<double>> M;
    if (k == kICG || k == kIBI) M.reset(new CSR<double>(ILU0(A)));
    bool bi = k == kBI || k == kBI2 || k == kIBI || k == kSBI;
    V b = rhs(c, n, bi), b0 = b;
    // SOR as a preconditioner is only symmetric enough when it is iterated to (near) convergence
    double w = c.rng.uni(0.9, 1.2); int soritr = 400;
    int itr = 10 * n + 300;
    saysfailed(c);
    V x = solve(k, A, M.get(), b, itr, eps, w, soritr);
    bool failed = saysfailed(c);
    // the BiCGSTAB recurrences can break down for an unlucky right-hand side (and then say so): three unlucky ones in a row is not luck
    for (int t = 0; bi && failed && t < 3; t++) { c.count("reported-breakdown"); b = b0 = rhs(c, n, bi); x = solve(k, A, M.get(), b, itr, eps, w, soritr); failed = saysfailed(c); }
    ld bn = vnorm(b);
    c.expect("size", (int)x.size() == n, NAME[k], NAME[k]);
    if ((int)x.size() != n) return;
    c.expect("converges", !failed, cat(NAME[k], " reports non-convergence on a well-conditioned ", s.kind, " system of ", n, " unknowns after ", itr, " iterations"), NAME[k]);
    ld r = residual(s, x, b);
    c.near("true-residual", r / bn, 0, (eps * (1 + 1e-6L) + slack(s, x, bn, itr) / bn), cat(NAME[k], " relative residual, requested ", eps), NAME[k]);
    unchanged(c, s, A, b0, b, NAME[k]);
    c.count(NAME[k]);
    if (n <= 60) {   // independent of what was solved before; the same object again
        V b2 = rhs(c, n, bi);
        solve(k, A, M.get(), b2, itr, eps, w, soritr);
        saysfailed(c);
        V y = solve(k, A, M.get(), b, itr, eps, w, soritr);
        bool f2 = saysfailed(c);
        ld d = 0; for (int i = 0; i < n; i++) d = std::max(d, fabsl((ld)x[i] - y[i]));
        c.expect("repeatable-report", f2 == failed, NAME[k], NAME[k]);
        c.near("repeatable", d, 0, 1e-9L * vnorm(x) + 1e-300L, cat(NAME[k], " second solve of the same system differs"), NAME[k]);
    }
}
// whatever the iteration limit, silence means the tolerance is met
static void honest(Case& c) {
    int n = c.rng.range(2, 120);
    bool sym = c.rng.chance(0.5);
    Sys s = sym ? spd(c, n) : nonsym(c, n);
    int k = sym ? c.rng.range(0, kSORCG) : c.rng.pick(std::vector<int>{kBI, kBI2, kIBI, kSBI});
    bool bi = k == kBI || k == kBI2 || k == kIBI || k == kSBI;
    if (sym && !bi && c.rng.chance(0.3)) { s.kind += "+near-singular"; for (auto& p : s.m) if (p.first.first == p.first.second) p.second *= 0.9; s.anorm *= 1; }
    double eps = c.rng.pick(V{1e-3, 1e-5, 1e-7, 1e-9});
    int itr = c.rng.range(0, c.rng.chance(0.5) ? 8 : n);
    c.describe(NAME[k], " on ", s.kind, " n=", n, " eps=", eps, " limit=", itr);
    CSR<double> A = build(c, s);
    for (auto& p : s.m) c.input(p.second);
    std::unique_ptr<CSR<double>> M;
    if (k == kICG || k == kIBI) M.reset(new CSR<double>(ILU0(A)));
    V b = rhs(c, n, bi), b0 = b;
    saysfailed(c);
    V x = solve(k, A, M.get(), b, itr, eps, 1.0, 50);
    bool failed = saysfailed(c);
    if (failed) { c.count("reported-failure"); }
    else {
        c.count("claimed-success");
        ld bn = vnorm(b), r = residual(s, x, b);
        // the recurrence residual may drift from the true one where the iterates grow; half the digits are always kept
        c.near("silent-success-is-true", r / bn, 0, eps * 1.01L + (bi ? 1e-6L : 1e-8L) + slack(s, x, bn, itr) / bn, cat(NAME[k], " did not report failure (limit ", itr, ") but the residual ratio exceeds the requested ", eps), NAME[k]);
    }
    unchanged(c, s, A, b0, b, NAME[k]);
}
static void zero(Case& c) {
    int n = c.rng.chance(0.2) ? 1 : c.rng.range(2, 40); int k = (int)(c.idx % kSOR);
    Sys s = spd(c, n);
    c.describe(NAME[k], " with zero right-hand side on ", s.kind, " n=", n);
    CSR<double> A = build(c, s);
    std::unique_ptr<CSR<double>> M; if (k == kICG || k == kIBI) M.reset(new CSR<double>(ILU0(A)));
    V b(n, 0.0);
    V x = solve(k, A, M.get(), b, 100, 1e-8, 1.0, 20);
    bool ok = (int)x.size() == n; for (double v : x) ok = ok && v == 0;
    c.expect("zero-in-zero-out", ok, cat(NAME[k], " returned ", x.empty() ? 0.0 : x[0], " for a zero right-hand side"), NAME[k]);
}
// right-hand sides with an exact solution after few steps: eigenvectors, columns of the matrix
static void exact(Case& c) {
    int n = c.rng.range(1, 30); int k = c.rng.range(0, kSORCG);
    Sys s = spd(c, n);
    V xs(n); int kind = c.rng.range(0, 2); for (int i = 0; i < n; i++) xs[i] = kind == 0 ? 1 : kind == 1 ? (i == 0) : c.rng.range(-3, 3);
    V b(n, 0.0); for (auto& p : s.m) b[p.first.first] += p.second * xs[p.first.second];
    c.describe(NAME[k], " exact solution kind ", kind, " on ", s.kind, " n=", n);
    for (auto& p : s.m) c.input(p.second);
    ld bn = vnorm(b); if (bn == 0) { c.boring(); return; }
    CSR<double> A = build(c, s);
    std::unique_ptr<CSR<double>> M; if (k == kICG || k == kIBI) M.reset(new CSR<double>(ILU0(A)));
    saysfailed(c);
    V x = solve(k, A, M.get(), b, 10 * n + 200, 1e-10, 1.0, 400);
    bool f = saysfailed(c);
    c.expect("converges", !f, cat(NAME[k], " reports failure on ", s.kind, " n=", n), NAME[k]);
    c.near("true-residual", residual(s, x, b) / bn, 0, 1e-10L * 1.000001L + slack(s, x, bn, 0) / bn, cat(NAME[k], " residual"), NAME[k]);
}
static void sor(Case& c) {
    int n = c.rng.range(1, 60);
    Sys s = c.rng.chance(0.6) ? spd(c, n) : nonsym(c, n);
    double w = s.spd ? c.rng.uni(0.5, 1.5) : c.rng.uni(0.6, 1.0);
    if (s.spd && s.kind.find("laplacian") != std::string::npos) w = c.rng.uni(0.8, 1.6);
    c.describe("SOR w=", w, " on ", s.kind, " n=", n);
    CSR<double> A = build(c, s); for (auto& p : s.m) c.input(p.second);
    V b = rhs(c, n), b0 = b;
    V x = SOR(A, b, w, 40000, 1e-11);
    ld bn = vnorm(b);
    c.near("relaxation-solves", residual(s, x, b) / (s.anorm * vnorm(x) + bn), 0, 1e-7L, "SOR residual");
    unchanged(c, s, A, b0, b, "SOR");
    // one sweep with w=1 is Gauss-Seidel: forward substitution
    V y = SOR(A, b, w, 1, 1e-300);
    std::vector<ld> z(n, 0);
    for (int i = 0; i < n; i++) { ld t = b[i], d = 0; for (auto it = s.m.lower_bound({i, 0}); it != s.m.end() && it->first.first == i; ++it) { int j = it->first.second; if (j == i) d = it->second; else t -= (ld)it->second * z[j]; } z[i] = z[i] + w * (t / d - z[i]); }
    ld zm = 0; for (auto v : z) zm = std::max(zm, fabsl(v));
    for (int i = 0; i < n; i++) c.near("relaxation-sweep", y[i], z[i], 1e-11L * zm, cat("unknown ", i, " after one sweep"));
}

// ------------------------------------------------------------------ P07
static void ilu(Case& c, int n) {
    Rng& g = c.rng;
    int kind = g.range(0, 6); bool nofill = kind <= 2;
    Sys s; s.n = n;
    auto put = [&](int i, int j) { if (i != j && i >= 0 && j >= 0 && i < n && j < n) s.m[{i, j}] = g.chance(0.05) ? 0.0 : g.uni(-1, 1); };
    switch (kind) {
    case 0: for (int i = 0; i < n; i++) { put(i, i - 1); put(i, i + 1); } s.kind = "tridiagonal"; break;
    case 1: for (long k = 0; k < 3L * n; k++) { int i = g.range(0, n - 1), j = g.range(0, n - 1); if (j < i) put(i, j); } s.kind = "lower"; break;
    case 2: if (g.chance(0.5)) { for (long k = 0; k < 3L * n; k++) { int i = g.range(0, n - 1), j = g.range(0, n - 1); if (j > i) put(i, j); } s.kind = "upper"; } else { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (n <= 12) put(i, j); s.kind = n <= 12 ? "dense" : "diagonal"; } break;
    case 3: for (long k = 0; k < 4L * n; k++) { int i = g.range(0, n - 1), j = g.range(0, n - 1); put(i, j); put(j, i); } s.kind = "symmetric-pattern"; break;
    case 4: for (long k = 0; k < 4L * n; k++) put(g.range(0, n - 1), g.range(0, n - 1)); s.kind = "unsymmetric-pattern"; break;
    case 5: { int w = std::max(2, (int)std::sqrt((double)n)); for (int i = 0; i < n; i++) { put(i, i - 1); put(i, i + 1); put(i, i - w); put(i, i + w); } s.kind = "grid"; break; }
    case 6: for (int i = 1; i < n; i++) { put(i, 0); put(0, i); if (g.chance(0.3)) put(i, n - 1); } s.kind = "arrow"; break;
    }
    std::vector<double> off(n, 0); for (auto& p : s.m) off[p.first.first] += fabs(p.second);
    for (int i = 0; i < n; i++) s.m[{i, i}] = g.sgn() * (off[i] * g.uni(1.0, 1.6) + 0.3);
    double f = g.chance(0.2) ? g.pick(V{1e-9, 1e-14, 1e8}) : 1; for (auto& p : s.m) p.second *= f;
    finishsys(s);
    c.describe("ILU0 of ", s.kind, " n=", n, " nnz=", s.m.size());
    for (auto& p : s.m) c.input(p.second);
    CSR<double> A = build(c, s);
    CSR<double> M = ILU0(A);
    // model: row-wise elimination restricted to the pattern
    std::vector<std::map<int, ld>> a(n);
    for (auto& p : s.m) a[p.first.first][p.first.second] = p.second;
    for (int i = 0; i < n; i++) for (auto& pk : a[i]) {
        int k = pk.first; if (k >= i) break;
        pk.second /= a[k][k];
        for (auto it = a[k].upper_bound(k); it != a[k].end(); ++it) { auto q = a[i].find(it->first); if (q != a[i].end()) q->second -= pk.second * it->second; }
    }
    c.expect("factor-shape", M.ROWS == n && M.COLS == n);
    ld big = s.anorm;
    for (int i = 0; i < n; i++) for (auto& p : a[i]) c.near("factor", M.get(i, p.first), p.second, 1e-10L * ((p.first < i ? 1 : big) + fabsl(p.second)), cat("factor entry ", i, ",", p.first, " ", s.kind));
    for (int t = 0; t < 50; t++) { int i = g.range(0, n - 1), j = g.range(0, n - 1); if (!a[i].count(j)) c.near("no-fill", M.get(i, j), 0, 0, cat("entry ", i, ",", j, " outside the pattern")); }
    bool same = true; for (auto& p : s.m) same = same && A.get(p.first.first, p.first.second) == p.second;
    c.expect("matrix-unchanged", same, "factorisation changed the matrix");
    for (int t = 0; t < 2; t++) {
        V b = rhs(c, n), b0 = b;
        V y = PreILU0(M, b);
        c.expect("rhs-unchanged", b == b0, "preconditioner changed its argument");
        if (!c.expect("apply-size", (int)y.size() == n)) return;
        std::vector<ld> z(n);
        for (int i = 0; i < n; i++) { z[i] = b[i]; for (auto& p : a[i]) { if (p.first >= i) break; z[i] -= p.second * z[p.first]; } }
        for (int i = n - 1; i >= 0; i--) { for (auto it = a[i].upper_bound(i); it != a[i].end(); ++it) z[i] -= it->second * z[it->first]; z[i] /= a[i][i]; }
        ld zm = 0; for (auto v : z) zm = std::max(zm, fabsl(v));
        for (int i = 0; i < n; i++) c.near("apply", y[i], z[i], 1e-9L * zm, cat("applied preconditioner entry ", i, " ", s.kind));
        if (nofill) c.near("exact-without-fill", residual(s, y, b) / (s.anorm * vnorm(y) + vnorm(b)), 0, 1e-10L, cat("residual of the preconditioner on ", s.kind));
    }
    V d = GetDiagonal(A), b = rhs(c, n), b0 = b;
    bool ok = (int)d.size() == n; for (int i = 0; ok && i < n; i++) ok = d[i] == s.m[{i, i}];
    c.expect("diagonal", ok, "extracted diagonal differs");
    V d0 = d, q = Scaling(d, b);
    ok = (int)q.size() == n && d == d0 && b == b0; for (int i = 0; ok && i < n; i++) ok = fabsl(q[i] - (ld)b[i] / d[i]) <= 1e-14L * fabsl((ld)b[i] / d[i]);
    c.expect("scaling", ok, "diagonal scaling differs from division by the diagonal");
}
static void diag(Case& c) {
    int n = c.rng.range(1, 40);
    c.describe("diagonal of a matrix with missing entries n=", n);
    LILCSR<double> l(n, n); V w(n, 0.0);
    for (int i = 0; i < n; i++) { for (int t = 0; t < 3; t++) l.set(i, c.rng.range(0, n - 1), 7); }
    for (int i = 0; i < n; i++) w[i] = l.get(i, i);
    for (int i = 0; i < n; i++) if (c.rng.chance(0.6)) { w[i] = c.rng.val(); l.set(i, i, w[i]); }
    c.inputs(w);
    CSR<double> A(l);
    c.expect("diagonal", GetDiagonal(A) == w, "extracted diagonal differs where entries are missing");
}
// the exact preconditioner makes the preconditioned solver converge at once, and to the original system's solution
static void exactpre(Case& c) {
    int n = c.rng.range(2, 80); bool bi = c.rng.chance(0.5);
    Sys s; s.n = n; double sh = c.rng.logu(1e-3, 1);
    for (int i = 0; i < n; i++) { double pe = bi ? c.rng.uni(-0.3, 0.3) : 0; s.m[{i, i}] = 2 + sh + fabs(pe); if (i) s.m[{i, i - 1}] = -1 - pe; if (i < n - 1) s.m[{i, i + 1}] = -1 + (bi ? c.rng.uni(0, 0.3) : 0); }
    finishsys(s);
    c.describe(bi ? "ILU0BiCGSTAB" : "ILU0CG", " with exact factors n=", n); for (auto& p : s.m) c.input(p.second);
    CSR<double> A = build(c, s); CSR<double> M = ILU0(A);
    V b = rhs(c, n); saysfailed(c);
    V x = bi ? ILU0BiCGSTAB(A, M, b, 4, 1e-9) : ILU0CG(A, M, b, 4, 1e-9);
    bool f = saysfailed(c); ld bn = vnorm(b);
    c.expect("exact-preconditioner-converges-at-once", !f, cat("not converged after 4 iterations, n=", n), bi ? "ILU0BiCGSTAB" : "ILU0CG");
    c.near("preconditioned-solution", residual(s, x, b) / bn, 0, 1e-9L + slack(s, x, bn, 0) / bn, "residual of the original system");
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_solver");
    component("P06.spd", 5000, 120000, [](Case& c) { converge(c, true, c.rng.chance(0.05) ? c.rng.range(100, 400) : c.rng.chance(0.1) ? 1 : c.rng.range(2, 60)); });
    component("P06.nonsymmetric", 2500, 50000, [](Case& c) { converge(c, false, c.rng.chance(0.05) ? c.rng.range(100, 400) : c.rng.range(2, 60)); });
    component("P06.large", 56, 800, [](Case& c) { converge(c, c.rng.chance(0.7), c.rng.range(800, 2500)); });
    component("P06.slow", 700, 14000, [](Case& c) { converge(c, true, c.rng.range(80, 450), true); });
    component("P06.slow-large", 18, 240, [](Case& c) { converge(c, true, c.rng.range(4000, 7000), true); });
    component("P06.honest", 6000, 160000, [](Case& c) { honest(c); });
    component("P06.zero", 160, 1600, [](Case& c) { zero(c); });
    component("P06.exact", 2500, 50000, [](Case& c) { exact(c); });
    component("P06.relaxation", 500, 9000, [](Case& c) { sor(c); });
    component("P07.ilu", 3500, 80000, [](Case& c) { ilu(c, c.rng.range(1, 40)); });
    component("P07.ilu-large", 40, 800, [](Case& c) { ilu(c, c.rng.range(150, 500)); });
    component("P07.diagonal", 400, 4000, [](Case& c) { diag(c); });
    component("P07.exact", 1000, 20000, [](Case& c) { exactpre(c); });
    return finish();
}
