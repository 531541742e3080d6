// P08: eigenvalue solvers against a dense Jacobi reference
#include "vh.hpp"
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
#include "src/LinearAlgebra/Solvers/CG.h"
#include "src/LinearAlgebra/Solvers/Lanczos.h"
using namespace vh;
typedef std::vector<double> V;
static CSR<double> tocsr(const RM& A) { LILCSR<double> l(A.r, A.c); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) if (A(i, j) != 0 || i == j) l.set(i, j, (double)A(i, j)); return CSR<double>(l); }
// symmetric matrix with the given spectrum: a product of random rotations keeps it exactly symmetric
static RM withspectrum(Case& c, const std::vector<ld>& w) {
    int n = (int)w.size(); RM A(n, n);
    RM Q = RM::id(n);
    for (int t = 0; t < 3 * n; t++) { int p = c.rng.range(0, n - 1), q = c.rng.range(0, n - 1); if (p == q) continue; ld a = c.rng.uni(0, 6.28), co = cosl(a), si = sinl(a); for (int k = 0; k < n; k++) { ld x = Q(k, p), y = Q(k, q); Q(k, p) = co * x - si * y; Q(k, q) = si * x + co * y; } }
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { ld s = 0; for (int k = 0; k < n; k++) s += Q(i, k) * w[k] * Q(j, k); A(i, j) = A(j, i) = (double)s; }
    return A;
}
static std::vector<ld> separated(Case& c, int n, ld lo) {   // distinct, gaps at least ~10 % of the spread per step
    std::vector<ld> w(n); ld x = lo; for (auto& v : w) { v = x; x += c.rng.uni(0.5, 1.5); } return w;
}
static void pairs(Case& c, const char* what, const RM& A, const RM* B, const V& vals, const std::vector<V>& vecs, int k, ld scale, ld tol) {
    int n = A.r; const V& x = vecs[k];
    if (!c.expect("vector-size", (int)x.size() == n, what)) return;
    ld nx = 0; for (double v : x) nx += (ld)v * v; nx = sqrtl(nx);
    if (!c.expect("vector-nonzero", std::isfinite((double)nx) && nx > 1e-8L, cat(what, " vector ", k, " has norm ", (double)nx))) return;
    ld r = 0, bx = 0;
    for (int i = 0; i < n; i++) { ld s = 0, t = 0; for (int j = 0; j < n; j++) { s += A(i, j) * x[j]; t += (B ? (*B)(i, j) : (ld)(i == j)) * x[j]; } r += (s - vals[k] * t) * (s - vals[k] * t); }
    c.near("eigen-equation", sqrtl(r) / nx / scale, 0, tol, cat(what, " residual of pair ", k, " value ", vals[k], " n=", n), what);
}
static void tridiag(Case& c) {
    int m = c.rng.chance(0.12) ? c.rng.range(19, 60) : c.rng.range(1, 18);
    V a(m), b(m);
    int kind = c.rng.range(0, 4); double sc = c.rng.chance(0.4) ? c.rng.pick(V{1e4, 1e-4, 1e11, 1e-11}) : 1;
    for (int i = 0; i < m; i++) { a[i] = sc * (kind == 1 ? 2 : kind == 4 ? c.rng.uni(-5, -1) : c.rng.uni(-2, 2)); b[i] = sc * (kind == 2 ? (c.rng.chance(0.3) ? 0.0 : c.rng.uni(0, 1)) : c.rng.uni(0.05, 1)); }
    if (kind == 0) for (auto& x : b) x *= c.rng.sgn();
    c.describe("tridiagonal m=", m, " kind=", kind, " scale=", sc); c.inputs(a); c.inputs(b);
    RM T(m, m); for (int i = 0; i < m; i++) { T(i, i) = a[i]; if (i + 1 < m) T(i, i + 1) = T(i + 1, i) = b[i]; }
    RM Q; std::vector<ld> w = jacobi(T, &Q);
    V a0 = a, b0 = b; ld spread = T.maxabs() * 3 + fabs(b[m - 1]);
    for (int k = 0; k < m; k++) {
        double l = BisectionMethod(a, b, k);
        c.near("bisection", l, w[k], 1e-11L * spread, cat("eigenvalue ", k, " of ", m), "");
        if (c.rng.chance(m > 18 ? 0.9 : 0.5)) continue;
        ld gap = 1e30L; for (int j = 0; j < m; j++) if (j != k) gap = std::min(gap, fabsl(w[j] - w[k]));
        bool zero = false; for (int j = 0; j + 1 < m; j++) zero = zero || b[j] == 0;
        if (gap < 1e-3L * spread || zero || fabsl(Q(0, k)) < 1e-6L) continue;      // start vector e0 must see the eigenvector
        V y = InversePowerMethod(a, b, l);
        if (!c.expect("inverse-power-size", (int)y.size() == m)) return;
        ld r = 0, ny = 0; for (int i = 0; i < m; i++) { ld s = 0; for (int j = 0; j < m; j++) s += T(i, j) * y[j]; r = std::max(r, fabsl(s - w[k] * y[i])); ny += (ld)y[i] * y[i]; }
        c.near("inverse-power-norm", sqrtl(ny), 1, 1e-10L, "norm of the eigenvector");
        c.near("inverse-power", r, 0, 1e-8L * spread, cat("residual of eigenvector ", k, " of ", m));
    }
    c.expect("operands-unchanged", a == a0 && b == b0, "bisection changed its input");
}
static void reconvert(Case& c) {
    int n = c.rng.range(1, 12), m = c.rng.range(1, n);
    c.describe("basis change n=", n, " m=", m);
    std::vector<V> q(m, V(n)); V y(m); for (auto& v : q) for (auto& x : v) { x = c.rng.uni(-1, 1); c.input(x); } for (auto& x : y) x = c.rng.uni(-1, 1);
    V x = ReconvertVector(y, q);
    for (int i = 0; i < n; i++) { ld s = 0; for (int k = 0; k < m; k++) s += (ld)q[k][i] * y[k]; c.near("basis-change", x[i], s, 1e-13L * m, "combination of basis vectors"); }
}
static bool generic(const RM& A, const std::vector<ld>& w, const RM& Q, ld shift, const RM* B) {   // start vector has a share of every eigenvector
    int n = A.r; std::vector<ld> d(n); ld nd = 0; for (int i = 0; i < n; i++) { d[i] = A(i, i) - shift * (B ? (*B)(i, i) : 1); nd += d[i] * d[i]; }
    nd = sqrtl(nd);
    if (nd == 0) return false;
    std::vector<ld> bd = B ? (*B) * d : d;
    for (int k = 0; k < n; k++) { ld s = 0, nq = 0; for (int i = 0; i < n; i++) { s += Q(i, k) * bd[i]; nq += Q(i, k) * Q(i, k); } if (fabsl(s) < 0.02L * nd * sqrtl(nq)) return false; }
    return true;
}
static void full(Case& c, bool restart) {
    int n = c.rng.range(1, restart ? 15 : 7); RM A; std::vector<ld> w; RM Q;
    for (int t = 0;; t++) { w = separated(c, n, c.rng.uni(-3, 3)); A = withspectrum(c, w); w = jacobi(A, &Q); if (generic(A, w, Q, 0, nullptr)) break; if (t > 60) { c.boring(); return; } }
    c.describe(restart ? "RestartLanczos" : "Lanczos", " full spectrum n=", n); c.inputs(A.a);
    CSR<double> S = tocsr(A); V vals(c.rng.range(0, 3), 9.9); std::vector<V> vecs(c.rng.range(0, 2));
    if (restart) RestartLanczos(S, vals, vecs, n); else Lanczos(S, vals, vecs, n);
    if (!c.expect("count", (int)vals.size() == n && (int)vecs.size() == n, "number of pairs")) return;
    ld sc = A.maxabs() + 1;
    for (int k = 0; k < n; k++) c.near("full-spectrum", vals[k] / sc, w[k] / sc, 1e-6L, cat("eigenvalue ", k, " of ", n), restart ? "RestartLanczos" : "Lanczos");
    for (int k = 0; k < n; k++) pairs(c, restart ? "RestartLanczos" : "Lanczos", A, nullptr, vals, vecs, k, sc, 1e-5L);
    bool same = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same = same && (ld)S.get(i, j) == A(i, j);
    c.expect("matrix-unchanged", same, "eigenvalue solver changed the matrix");
}
// fewer steps than unknowns: Ritz values in range, Rayleigh quotients consistent, separated end converged
static void partial(Case& c, bool restart) {
    int n = c.rng.range(10, 40), m = c.rng.range(7, 10); std::vector<ld> w(n);
    ld base = c.rng.uni(-1, 1); for (auto& x : w) x = base + c.rng.uni(0, 0.3);
    int side = c.rng.range(0, 1); if (side) w[0] = base + c.rng.uni(4, 6); else w[0] = base - c.rng.uni(4, 6);
    RM A, Q; std::vector<ld> e;
    for (int t = 0;; t++) { A = withspectrum(c, w); e = jacobi(A, &Q); ld s = 0, nd = 0; int k = side ? n - 1 : 0; for (int i = 0; i < n; i++) { s += Q(i, k) * A(i, i); nd += A(i, i) * A(i, i); } if (fabsl(s) > 0.05L * sqrtl(nd)) break; if (t > 50) { c.boring(); return; } }
    c.describe(restart ? "RestartLanczos" : "Lanczos", " n=", n, " m=", m, " separated ", side ? "largest" : "smallest"); c.inputs(A.a);
    CSR<double> S = tocsr(A); V vals; std::vector<V> vecs;
    if (restart) RestartLanczos(S, vals, vecs, m); else Lanczos(S, vals, vecs, m);
    if (!c.expect("count", (int)vals.size() == m && (int)vecs.size() == m, "number of pairs")) return;
    ld sc = fabsl(e[0]) + fabsl(e[n - 1]) + 1;
    for (int k = 0; k < m; k++) {
        c.expect("ritz-in-range", vals[k] >= e[0] - 1e-8L * sc && vals[k] <= e[n - 1] + 1e-8L * sc, cat("value ", vals[k], " outside the spectrum [", (double)e[0], ",", (double)e[n - 1], "]"));
        c.expect("ascending", k == 0 || vals[k] >= vals[k - 1] - 1e-10 * sc, "values not ascending");
    }
    int k = side ? m - 1 : 0;
    c.near("end-of-spectrum", vals[k], side ? e[n - 1] : e[0], 1e-6L * sc, cat("separated eigenvalue n=", n, " m=", m), restart ? "RestartLanczos" : "Lanczos");
    pairs(c, restart ? "RestartLanczos" : "Lanczos", A, nullptr, vals, vecs, k, sc, 1e-5L);
}
static void shifted(Case& c) {
    int n = c.rng.chance(0.15) ? c.rng.range(1, 3) : c.rng.range(4, 30); std::vector<ld> w(n);
    ld lo = c.rng.uni(0.5, 2); int near1 = std::min(n, 3); ld x = lo; for (int i = 0; i < n; i++) { w[i] = i < near1 ? x : lo + c.rng.uni(8, 12) ; x += c.rng.uni(0.7, 1.2); }
    RM A, Q; std::vector<ld> e; double sigma;
    for (int t = 0;; t++) { A = withspectrum(c, w); e = jacobi(A, &Q); sigma = (double)(e[0] - c.rng.uni(0.3, 1.5)); if (c.rng.chance(0.3)) sigma = 0; if (generic(A, std::vector<ld>(e.begin(), e.begin() + 1), RM(Q), sigma, nullptr) || t > 300) { ld s = 0, nd = 0; for (int i = 0; i < n; i++) { s += Q(i, 0) * (A(i, i) - sigma); nd += (A(i, i) - sigma) * (A(i, i) - sigma); } if (fabsl(s) > 0.05L * sqrtl(nd)) break; } if (t > 400) { c.boring(); return; } }
    int m = std::min(n, c.rng.range(9, 12));
    c.describe("ShiftedInvertLanczos n=", n, " m=", m, " sigma=", sigma); c.inputs(A.a);
    CSR<double> S = tocsr(A); V vals; std::vector<V> vecs;
    ShiftedInvertLanczos(S, vals, vecs, m, sigma);
    if (!c.expect("count", (int)vals.size() == m && (int)vecs.size() == m, "number of pairs")) return;
    ld sc = A.maxabs() + 1;
    c.near("next-to-shift", vals[0], e[0], 1e-5L * sc, cat("eigenvalue next to the shift ", sigma, " n=", n, " m=", m), "ShiftedInvertLanczos");
    pairs(c, "ShiftedInvertLanczos", A, nullptr, vals, vecs, 0, sc, 1e-3L);
    bool same = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same = same && (ld)S.get(i, j) == A(i, j);
    c.expect("matrix-unchanged", same, "eigenvalue solver changed the matrix");
}
// as many steps as unknowns: the inverted spectrum is complete and every vector belongs to its value
static void fullshift(Case& c, int which) {
    static const char* N[] = {"ShiftedInvertLanczos", "GeneralShiftedInvertLanczos", "GeneralRestartShiftedInvertLanczos"};
    int n = c.rng.range(1, which == 2 ? 9 : 6); RM A, B = RM::id(n), Q; std::vector<ld> e; double sigma = 0; double sc = c.rng.chance(0.3) ? c.rng.pick(V{1e-5, 1e6}) : 1;
    for (int t = 0;; t++) {
        if (t > 300) { c.boring(); return; }
        sigma = c.rng.chance(0.3) ? 0 : sc * c.rng.uni(-3, 3);
        std::vector<ld> w(n); ld g = c.rng.uni(0.5, 1.5); for (auto& x : w) { x = g; g *= c.rng.uni(1.5, 2.2); }
        A = withspectrum(c, w);
        if (which) { std::vector<ld> bw(n); for (auto& x : bw) x = c.rng.uni(0.5, 2); B = withspectrum(c, bw); RM L = chol(B); A = L * A * L.T(); }
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = (double)(sc * A(i, j) + sigma * B(i, j));
        RM L = chol(B), Li = rinv(L), C = Li * A * Li.T(), Y; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) C(i, j) = C(j, i);
        e = jacobi(C, &Y); Q = Li.T() * Y;
        if (generic(A, e, Q, sigma, &B)) break;
    }
    c.describe(N[which], " full spectrum n=", n, " sigma=", sigma, " scale=", sc); c.inputs(A.a);
    CSR<double> SA = tocsr(A), SB = tocsr(B); V vals; std::vector<V> vecs;
    if (which == 0) ShiftedInvertLanczos(SA, vals, vecs, n, sigma); else if (which == 1) GeneralShiftedInvertLanczos(SA, SB, vals, vecs, n, sigma); else GeneralRestartShiftedInvertLanczos(SA, SB, vals, vecs, n, sigma);
    if (!c.expect("count", (int)vals.size() == n && (int)vecs.size() == n, "number of pairs")) return;
    ld top = e[n - 1] - sigma;
    for (int k = 0; k < n; k++) {
        c.near("full-spectrum", (vals[k] - sigma) / top, (e[k] - sigma) / top, 1e-7L, cat("eigenvalue ", k, " of ", n), N[which]);
        pairs(c, N[which], A, which ? &B : nullptr, vals, vecs, k, top, which == 2 ? 1e-5L : 1e-6L);
    }
}
static void general(Case& c, bool restart) {
    const char* nm = restart ? "GeneralRestartShiftedInvertLanczos" : "GeneralShiftedInvertLanczos";
    int n = c.rng.range(2, 24); RM A(n, n), B(n, n), Q; std::vector<ld> e; double sigma = 0; int kind = c.rng.range(0, 2); double bs = c.rng.logu(0.05, 20);
    for (int t = 0;; t++) {
        // a stiffness-like A and a mass-like B
        RM M(n, n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { A(i, j) = 0; B(i, j) = 0; }
        if (kind == 0) { std::vector<ld> d(n); for (int i = 0; i < n; i++) B(i, i) = (double)(bs * c.rng.uni(0.5, 2)); std::vector<ld> w(n); for (int i = 0; i < n; i++) w[i] = i == 0 ? 1 : i == 1 ? 3 : c.rng.uni(8, 15); A = withspectrum(c, w); }
        else { for (int i = 0; i <= n; i++) { ld k = c.rng.uni(0.5, 2), m = bs * c.rng.uni(0.5, 2); auto add = [&](RM& X, int p, int q, ld v) { if (p >= 0 && q >= 0 && p < n && q < n) X(p, q) += v; }; int a = i - 1, b = i; add(A, a, a, k); add(A, b, b, k); add(A, a, b, -k); add(A, b, a, -k); add(B, a, a, m / 3); add(B, b, b, m / 3); add(B, a, b, m / 6); add(B, b, a, m / 6); } for (int i = 0; i < n; i++) A(i, i) += 0.3L * c.rng.uni(0, 1); }
        for (auto& v : A.a) v = (double)v; for (auto& v : B.a) v = (double)v;
        RM L = chol(B), Li = rinv(L), C = Li * A * Li.T(); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) C(i, j) = C(j, i);
        RM Y; e = jacobi(C, &Y); Q = Li.T() * Y;
        sigma = c.rng.chance(0.3) ? 0.0 : (double)(e[0] * c.rng.uni(-0.5, 0.9));
        ld s = 0, dBd = 0; std::vector<ld> d(n); for (int i = 0; i < n; i++) d[i] = A(i, i) - sigma * B(i, i); std::vector<ld> Bd = B * d; for (int i = 0; i < n; i++) { s += Q(i, 0) * Bd[i]; dBd += d[i] * Bd[i]; }
        if (fabsl(s) > 0.1L * sqrtl(dBd) && (e[0] - sigma) > 0 && (n < 2 || (e[1] - sigma) > 1.8L * (e[0] - sigma))) break;
        if (t > 300) { c.boring(); return; }
    }
    int m = std::min(n, c.rng.range(9, 12));
    c.describe(nm, " n=", n, " m=", m, " sigma=", sigma, " kind=", kind, " mass scale=", bs); c.inputs(A.a);
    CSR<double> SA = tocsr(A), SB = tocsr(B); V vals; std::vector<V> vecs;
    if (restart) GeneralRestartShiftedInvertLanczos(SA, SB, vals, vecs, m, sigma); else GeneralShiftedInvertLanczos(SA, SB, vals, vecs, m, sigma);
    if (!c.expect("count", (int)vals.size() == m && (int)vecs.size() == m, "number of pairs")) return;
    ld sc = fabsl(e[0]) + fabsl(e[0] - sigma);
    c.near("next-to-shift", vals[0], e[0], 1e-4L * sc, cat("generalised eigenvalue next to the shift ", sigma, " n=", n, " m=", m), nm);
    pairs(c, nm, A, &B, vals, vecs, 0, A.maxabs() + sc * B.maxabs(), 1e-3L);
    bool same = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same = same && (ld)SA.get(i, j) == A(i, j) && (ld)SB.get(i, j) == B(i, j);
    c.expect("matrix-unchanged", same, "eigenvalue solver changed a matrix");
}
// many steps: with reorthogonalisation the Ritz values interlace with the spectrum (Cauchy), so an eigenvalue that has
// converged is found once and not again as a ghost
static void longrun(Case& c) {
    int n = c.rng.range(40, 70), m = c.rng.range(14, 20), far = c.rng.chance(0.6) ? 1 : c.rng.range(2, 3); RM A, Q; std::vector<ld> e;
    for (int t = 0;; t++) {
        if (t > 40) { c.boring(); return; }
        std::vector<ld> w(n); for (auto& x : w) x = c.rng.uni(0, 1);
        for (int i = 0; i < far; i++) w[i] = c.rng.sgn() * c.rng.uni(4, 8);
        A = withspectrum(c, w); e = jacobi(A, &Q);
        ld nd = 0; for (int i = 0; i < n; i++) nd += A(i, i) * A(i, i);
        bool seen = true; for (int k = 0; k < n; k++) if (e[k] < -1 || e[k] > 2) { ld s = 0; for (int i = 0; i < n; i++) s += Q(i, k) * A(i, i); seen = seen && fabsl(s) > 0.02L * sqrtl(nd); }
        if (seen) break;
    }
    c.describe("RestartLanczos long n=", n, " m=", m, " separated ", far); c.inputs(A.a);
    CSR<double> S = tocsr(A); V vals; std::vector<V> vecs; RestartLanczos(S, vals, vecs, m);
    if (!c.expect("count", (int)vals.size() == m && (int)vecs.size() == m, "number of pairs")) return;
    for (int k = 0; k < m; k++) {
        c.expect("interlacing", vals[k] >= e[k] - 1e-4L && vals[k] <= e[n - m + k] + 1e-4L, cat("value ", k, " of ", m, " is ", vals[k], ", must lie between eigenvalues ", (double)e[k], " and ", (double)e[n - m + k], " (n=", n, ")"), "RestartLanczos");
        c.expect("ascending", k == 0 || vals[k] >= vals[k - 1] - 1e-10, "values not ascending");
    }
    for (int k = 0; k < n; k++) {                       // the separated eigenvalues have converged and are found
        if (e[k] >= -1 && e[k] <= 2) continue;
        int at = e[k] < 0 ? k : m - (n - k);
        c.near("separated", vals[at], e[k], 1e-5L, cat("separated eigenvalue ", k, " n=", n, " m=", m), "RestartLanczos");
        if (far == 1) pairs(c, "RestartLanczos", A, nullptr, vals, vecs, at, 8, 1e-4L);
    }
}
static void longgeneral(Case& c) {
    int n = c.rng.range(30, 50), m = c.rng.range(10, 13), far = c.rng.range(1, 2); RM A, B, Q; std::vector<ld> e; double sigma = 0;
    for (int t = 0;; t++) {
        if (t > 40) { c.boring(); return; }
        std::vector<ld> w(n), bw(n); for (auto& x : w) x = c.rng.uni(20, 60); for (int i = 0; i < far; i++) w[i] = i == 0 ? c.rng.uni(1, 2) : c.rng.uni(3, 5);
        A = withspectrum(c, w); for (auto& x : bw) x = c.rng.uni(0.5, 2); B = withspectrum(c, bw); RM L = chol(B); A = L * A * L.T();
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = (double)A(i, j);
        RM Li = rinv(L), C = Li * A * Li.T(), Y; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) C(i, j) = C(j, i);
        e = jacobi(C, &Y); Q = Li.T() * Y; sigma = c.rng.chance(0.3) ? 0 : c.rng.uni(-1, 0.5);
        std::vector<ld> d(n); for (int i = 0; i < n; i++) d[i] = A(i, i) - sigma * B(i, i); std::vector<ld> bd = B * d; ld nd = 0; for (int i = 0; i < n; i++) nd += d[i] * bd[i];
        bool seen = true; for (int k = 0; k < far; k++) { ld s = 0; for (int i = 0; i < n; i++) s += Q(i, k) * bd[i]; seen = seen && fabsl(s) > 0.05L * sqrtl(nd); }
        if (seen) break;
    }
    c.describe("GeneralRestartShiftedInvertLanczos long n=", n, " m=", m, " sigma=", sigma, " separated ", far); c.inputs(A.a);
    CSR<double> SA = tocsr(A), SB = tocsr(B); V vals; std::vector<V> vecs; GeneralRestartShiftedInvertLanczos(SA, SB, vals, vecs, m, sigma);
    if (!c.expect("count", (int)vals.size() == m && (int)vecs.size() == m, "number of pairs")) return;
    ld top = 1 / (e[0] - sigma);
    for (int k = 0; k < m; k++) {
        ld th = 1 / (vals[k] - sigma);
        c.expect("interlacing", th <= 1 / (e[k] - sigma) + 0.03L * top && th >= 1 / (e[n - m + k] - sigma) - 0.03L * top, cat("value ", k, " of ", m, " is ", vals[k], ", must not lie below eigenvalue ", (double)e[k], " nor above ", (double)e[n - m + k], " (n=", n, ")"), "GeneralRestartShiftedInvertLanczos");
    }
    for (int k = 0; k < far; k++) c.near("separated", vals[k], e[k], 1e-4L * e[k], cat("separated eigenvalue ", k, " n=", n, " m=", m), "GeneralRestartShiftedInvertLanczos");
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_eigen");
    component("P08.tridiagonal", 250, 5000, [](Case& c) { tridiag(c); });
    component("P08.zero", 8, 20, [](Case& c) { int m = c.rng.range(1, 6); c.describe("zero tridiagonal m=", m, " #", c.idx); V a(m, 0.0), b(m, 0.0); for (int k = 0; k < m; k++) c.near("bisection-zero", BisectionMethod(a, b, k), 0, 1e-300L, "eigenvalue of the zero matrix"); });
    component("P08.basis", 100, 1000, [](Case& c) { reconvert(c); });
    component("P08.full", 100, 2000, [](Case& c) { full(c, false); });
    component("P08.full-restart", 100, 2000, [](Case& c) { full(c, true); });
    component("P08.partial", 60, 1200, [](Case& c) { partial(c, false); });
    component("P08.partial-restart", 60, 1200, [](Case& c) { partial(c, true); });
    component("P08.restart-long", 60, 1000, [](Case& c) { longrun(c); });
    component("P08.general-restart-long", 40, 800, [](Case& c) { longgeneral(c); });
    component("P08.shifted", 100, 2000, [](Case& c) { shifted(c); });
    component("P08.full-shifted", 150, 3000, [](Case& c) { fullshift(c, 0); });
    component("P08.full-general", 150, 3000, [](Case& c) { fullshift(c, 1); });
    component("P08.full-general-restart", 150, 3000, [](Case& c) { fullshift(c, 2); });
    component("P08.general", 100, 2000, [](Case& c) { general(c, false); });
    component("P08.general-restart", 100, 2000, [](Case& c) { general(c, true); });
    return finish();
}
