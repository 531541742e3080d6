// P05 parallel parts: products, solvers and whole analyses under many thread counts; independent work in user threads.
// Built twice: with libgomp (address/UB sanitizers, thread-count differential) and with harness/minigomp.cpp under ThreadSanitizer.
#define _USE_MATH_DEFINES
#include <cassert>
#include <cmath>
#include <iostream>
#include <memory>
#include <thread>
#include <omp.h>
#include "vh.hpp"
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
#include "src/LinearAlgebra/Models/Matrix.h"
#include "src/LinearAlgebra/Solvers/CG.h"
#include "src/LinearAlgebra/Solvers/LU.h"
#include "src/LinearAlgebra/Solvers/Lanczos.h"
#include "src/FEM/Controller/ShapeFunction.h"
#include "src/FEM/Controller/GaussIntegration.h"
#include "src/FEM/Controller/BoundaryCondition.h"
#include "src/FEM/Controller/Assembling.h"
#include "src/FEM/Equation/PlaneStrain.h"
#include "src/FEM/Equation/HeatTransfer.h"
#include "src/FEM/Equation/General.h"
#include "src/Optimize/Filter/HeavisideFilter.h"
#include "src/Optimize/Solver/MMA.h"
#include "src/Optimize/Solver/CONLIN.h"
#include "src/PrePost/Mesher/SquareMesh.h"
#include "src/PrePost/Mesher/Delaunay.h"
#include "works.hpp"
using namespace vh;
using namespace PANSFEM2;
typedef std::vector<double> V;
#ifdef VH_TSAN
extern "C" long vh_omp_regions(); extern "C" long vh_omp_maxteam();
#endif
struct Ent { int i, j; double v; };
static std::vector<Ent> entries(Rng& g, int n, int m, int kind) {
    std::vector<Ent> e; std::set<std::pair<int, int>> have;
    auto put = [&](int i, int j, double v) { if (have.insert({i, j}).second) e.push_back({i, j, v}); };
    if (kind == 0) { for (int i = 0; i < n; i++) { int w = g.chance(0.2) ? 0 : g.range(1, 6); for (int k = 0; k < w && m; k++) put(i, g.range(0, m - 1), g.uni(-2, 2)); } }                                 // ragged, with empty rows
    else if (kind == 1) { for (int i = 0; i < n; i++) { put(i, i, 4.5); if (i) put(i, i - 1, -1); if (i + 1 < n) put(i, i + 1, -1); int w = 7; if (i >= w) put(i, i - w, -1); if (i + w < n) put(i, i + w, -1); } }   // s.p.d.
    else { for (int i = 0; i < n; i++) { put(i, i, 5 + g.u01()); for (int k = 0; k < 3 && n > 1; k++) { int j = g.range(0, n - 1); if (j != i) put(i, j, g.uni(-1, 1)); } } }                                 // dominant, unsymmetric
    g.shuffle(e); return e;
}
static LILCSR<double> lil(const std::vector<Ent>& e, int n, int m) { LILCSR<double> l(n, m); for (auto& x : e) l.set(x.i, x.j, x.v); return l; }
static std::vector<int> teams(Case& c) { std::vector<int> t{2, 3, 4, 5, 7, 8, 12, 16}; c.rng.shuffle(t); t.resize(c.rng.range(2, 3)); return t; }
static void product(Case& c) {
    Rng& g = c.rng; int n = g.chance(0.1) ? g.range(0, 3) : g.chance(0.15) ? g.range(500, 3000) : g.range(4, 200), m = g.chance(0.5) ? n : g.range(1, 150); if (!m) m = 1;
    auto e = entries(g, n, m, 0); c.describe("product ", n, "x", m, " nnz=", e.size()); V x(m); for (auto& v : x) { v = g.uni(-1, 1); c.input(v); } for (auto& q : e) c.input(q.v);
    LILCSR<double> L = lil(e, n, m); CSR<double> A(L);
    std::vector<ld> ref(n, 0), mag(n, 0); for (auto& q : e) { ref[q.i] += (ld)q.v * x[q.j]; mag[q.i] += fabsl((ld)q.v * x[q.j]); }
    omp_set_num_threads(1); V one = A * x;
    for (int t : teams(c)) {
        omp_set_num_threads(t); c.count(cat("team-", t));
        for (int rep = 0; rep < 2; rep++) {
            V y = rep ? L * x : A * x; bool ok = (int)y.size() == n; for (int i = 0; ok && i < n; i++) ok = fabsl(y[i] - ref[i]) <= 1e-13L * mag[i] && (rep || fabsl((ld)y[i] - one[i]) <= 1e-13L * mag[i]);
            c.expect(rep ? "list-product" : "product", ok, cat("product with ", t, " threads differs from the serial one"));
        }
    }
    omp_set_num_threads(1);
}
enum { NSOL = 9 };
static const char* SN[NSOL] = {"CG", "ScalingCG", "ILU0CG", "SORCG", "BiCGSTAB", "BiCGSTAB2", "ScalingBiCGSTAB", "ILU0BiCGSTAB", "SOR"};
static V solve(int k, CSR<double>& A, V& b) {
    int it = 4000; double eps = 1e-11;
    switch (k) {
    case 0: return CG(A, b, it, eps);
    case 1: return ScalingCG(A, b, it, eps);
    case 2: { CSR<double> M = ILU0(A); return ILU0CG(A, M, b, it, eps); }
    case 3: return SORCG(A, b, it, eps, 1.0, 200, 1e-30);
    case 4: return BiCGSTAB(A, b, it, eps);
    case 5: return BiCGSTAB2(A, b, it, eps);
    case 6: return ScalingBiCGSTAB(A, b, it, eps);
    case 7: { CSR<double> M = ILU0(A); return ILU0BiCGSTAB(A, M, b, it, eps); }
    default: return SOR(A, b, 1.0, it, 1e-13);
    }
}
static bool reported(Case& c) { bool f = c.captured.str().find("fail") != std::string::npos || c.captured.str().find("faild") != std::string::npos; c.captured.str(""); return f; }
static void solvers(Case& c) {
    Rng& g = c.rng; int k = (int)(c.idx % NSOL), n = g.chance(0.1) ? g.range(300, 800) : g.range(2, 90); auto e = entries(g, n, n, k >= 4 && g.chance(0.5) ? 2 : 1);
    LILCSR<double> L = lil(e, n, n); CSR<double> A(L); V b(n); for (auto& v : b) { v = g.uni(-1, 1); c.input(v); } c.describe(SN[k], " n=", n); V b0 = b;
    omp_set_num_threads(1); reported(c); V one = solve(k, A, b); bool f1 = reported(c); c.count(SN[k]);
    ld bn = 0, xn = 0; for (int i = 0; i < n; i++) { bn += (ld)b[i] * b[i]; xn = std::max(xn, fabsl((ld)one[i])); }
    for (int t : teams(c)) {
        omp_set_num_threads(t); V y = solve(k, A, b); bool ft = reported(c); c.count(cat("team-", t));
        if (f1 || ft) { c.count("breakdown"); continue; }
        ld d = 0; bool ok = y.size() == one.size(); for (int i = 0; ok && i < n; i++) d = std::max(d, fabsl((ld)y[i] - one[i]));
        c.expect("solver-size", ok, SN[k], SN[k]); c.near("solver", d, 0, 1e-8L * xn, cat(SN[k], " with ", t, " threads differs from one thread"), SN[k]);
        std::vector<ld> r(b.begin(), b.end()); for (auto& q : e) r[q.i] -= (ld)q.v * y[q.j]; ld rn = 0; for (ld v : r) rn += v * v; c.near("residual", sqrtl(rn / bn), 0, k == 8 ? 1e-8L : 1.1e-11L + 1e-12L * n, cat(SN[k], " residual with ", t, " threads"), SN[k]);
    }
    c.expect("operands", b == b0, "right-hand side changed"); omp_set_num_threads(1);
}
// ---- pieces of real programs; the digest is everything they compute
template <class F> static void heat(Rng& g, V& out, F) {
    SquareMesh<double> s(g.uni(1, 2), g.uni(1, 2), g.range(2, 6), g.range(2, 6)); auto x = s.GenerateNodes(); auto el = s.GenerateElements(); double L = x.back()(0);
    std::vector<Vector<double>> u(x.size(), Vector<double>(1)); std::vector<std::vector<int>> ntg(x.size(), std::vector<int>(1, 0)); std::vector<std::pair<std::pair<int, int>, double>> fx; for (size_t i = 0; i < x.size(); i++) if (x[i](0) < 1e-9) fx.push_back({{(int)i, 0}, x[i](1)});
    SetDirichlet(u, ntg, fx); int n = Renumbering(ntg); LILCSR<double> K(n, n); V f(n, 0.0);
    for (auto& e : el) { std::vector<std::vector<std::pair<int, int>>> nte; Matrix<double> Ke; HeatTransfer<double, ShapeFunction4Square, Gauss4Square>(Ke, nte, e, {0}, x, 1.0, 1.0); Assembling(K, f, u, Ke, ntg, nte, e); }
    for (auto& v : f) v += 0.01; CSR<double> A(K); V r = ScalingCG(A, f, 5000, 1e-12); Disassembling(u, r, ntg); for (auto& v : u) out.push_back(v(0)); (void)L;
}
static V work(uint64_t seed, int kind) {
    Rng g(seed); V out;
    switch (kind) {
    case 0: heat(g, out, 0); break;
    case 1: {
        SquareMesh<double> s(2, 1, g.range(2, 5), g.range(2, 4)); auto x = s.GenerateNodes2(); auto el = s.GenerateElements2(); std::vector<Vector<double>> u(x.size(), Vector<double>(2)); std::vector<std::vector<int>> ntg(x.size(), std::vector<int>(2, 0)); std::vector<std::pair<std::pair<int, int>, double>> fx, q;
        for (size_t i = 0; i < x.size(); i++) if (x[i](0) < 1e-9) { fx.push_back({{(int)i, 0}, 0.0}); fx.push_back({{(int)i, 1}, 0.0}); } q.push_back({{(int)x.size() - 1, 1}, -1.0});
        SetDirichlet(u, ntg, fx); int n = Renumbering(ntg); LILCSR<double> K(n, n); V f(n, 0.0);
        for (auto& e : el) { std::vector<std::vector<std::pair<int, int>>> nte; Matrix<double> Ke; PlaneStrainStiffness<double, ShapeFunction8Square, Gauss9Square>(Ke, nte, e, {0, 1}, x, 100.0, 0.3, 1.0); Assembling(K, f, u, Ke, ntg, nte, e); }
        Assembling(f, q, ntg); CSR<double> A(K); V r = CG(A, f, 20000, 1e-12); Disassembling(u, r, ntg); for (auto& v : u) { out.push_back(v(0)); out.push_back(v(1)); } break; }
    case 2: { int n = g.range(2, 12); Matrix<double> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = g.uni(-1, 1) + (i == j ? n : 0); Vector<double> b(n); for (int i = 0; i < n; i++) b(i) = g.uni(-1, 1); Matrix<double> M = A * A.Transpose(); if (n < 7) out.push_back(A.Determinant()); std::vector<int> p(n); LU(M, p); SolveLU(M, b, p); for (int i = 0; i < n; i++) out.push_back(b(i)); break; }
    case 3: { int n = g.range(8, 40); auto e = entries(g, n, n, 1); LILCSR<double> L = lil(e, n, n); CSR<double> A(L); V w; std::vector<V> q; ShiftedInvertLanczos(A, w, q, 4, 0.0); for (double v : w) out.push_back(v); break; }
    case 4: { int n = 12; std::vector<std::vector<int>> nb(n); std::vector<V> w(n); for (int i = 0; i < n; i++) for (int j = std::max(0, i - 2); j <= std::min(n - 1, i + 2); j++) { nb[i].push_back(j); w[i].push_back(3 - std::abs(i - j)); } HeavisideFilter<double> f(n, nb, w); V s(n), d(n); for (auto& v : s) v = g.u01(); for (auto& v : d) v = g.uni(-1, 1); V a = f.GetFilteredVariables(s), b = f.GetFilteredSensitivitis(s, d); out = a; out.insert(out.end(), b.begin(), b.end()); break; }
    case 5: case 6: {
        int n = g.range(3, 10); V lo(n, 0.1), hi(n, 1.0), x(n, 0.5), cst(n); for (auto& v : cst) v = g.uni(0.5, 2); auto step = [&](auto& o) { for (int it = 0; it < 4; it++) { double f = 0, gg = -0.5 * n; V df(n); std::vector<V> dg(1, V(n, 1.0)); for (int i = 0; i < n; i++) { f += cst[i] / x[i]; df[i] = -cst[i] / x[i] / x[i]; gg += x[i]; } o.UpdateVariables(x, f, df, {gg}, dg); } };
        if (kind == 5) { MMA<double> o(n, 1, 1.0, {0.0}, {1000.0}, {0.0}, lo, hi); step(o); } else { CONLIN<double> o(n, 1, 1.0, {0.0}, {1000.0}, {0.0}, lo, hi); step(o); } out = x; break; }
    default: { double a = g.uni(1, 2), b = g.uni(1, 2); Delaunay<double> d({{0, 0}, {a, 0}, {a, b}, {0, b}}, {{3, 2, 1, 0}}, {}, 0.45); auto x = d.GenerateNodes(); for (auto& p : x) { out.push_back(p(0)); out.push_back(p(1)); } for (auto& e : d.GenerateElements()) for (int i : e) out.push_back(i); break; }
    }
    return out;
}
static const char* WN[] = {"heat conduction", "plane strain", "dense", "eigenvalues", "filter", "MMA", "CONLIN", "mesher"};
static bool same(const V& a, const V& b, double tol) { if (a.size() != b.size()) return false; double s = 0; for (double v : a) s = std::max(s, std::fabs(v)); for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * s)) return false; return true; }
static void analyses(Case& c) {
    int k = (int)(c.idx % 8); uint64_t sd = c.rng.next(); c.describe(WN[k], " seed ", sd); omp_set_num_threads(1); V one = work(sd, k);
    for (int t : teams(c)) { omp_set_num_threads(t); V y = work(sd, k); c.count(cat("team-", t)); c.expect("analysis", same(one, y, 1e-7), cat(WN[k], " with ", t, " threads differs from one thread"), WN[k]); }
    omp_set_num_threads(1);
}
struct Nowhere : std::streambuf { int overflow(int ch) override { return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
// separate objects in separate user threads
static void independent(Case& c) {
    int T = c.rng.range(2, 6); bool alike = c.rng.chance(0.5); int k0 = (int)(c.idx % 8); c.describe(T, " user threads"); std::vector<uint64_t> sd(T); std::vector<int> kd(T); std::vector<V> ser(T), par(T);
    omp_set_num_threads(c.rng.chance(0.7) ? 1 : 2);
    for (int i = 0; i < T; i++) { sd[i] = c.rng.next(); kd[i] = alike ? k0 : c.rng.range(0, 7); c.describe(WN[kd[i]], " ", sd[i]); ser[i] = work(sd[i], kd[i]); }
    static Nowhere nowhere; std::streambuf* old = std::cout.rdbuf(&nowhere);
    std::vector<std::thread> th; for (int i = 0; i < T; i++) th.emplace_back([&, i] { par[i] = work(sd[i], kd[i]); }); for (auto& t : th) t.join(); std::cout.rdbuf(old);
    for (int i = 0; i < T; i++) c.expect("independent", same(ser[i], par[i], 1e-7), cat(WN[kd[i]], " gives another answer when other threads work on other objects"), WN[kd[i]]);
    omp_set_num_threads(1);
}
// every part of the library at once, each thread on objects of its own; nothing they print is kept
static V piece(uint64_t sd, int k, const std::string& base) {
    if (k < works::N) return works::run(sd, k, base);
    if (k < works::N + 8) return work(sd, k - works::N);
    Rng g(sd); int n = g.range(3, 40); k -= works::N + 8; auto e = entries(g, n, n, k >= 4 && g.chance(0.5) ? 2 : 1); LILCSR<double> L = lil(e, n, n); CSR<double> A(L); V b(n); for (auto& v : b) v = g.uni(-1, 1); return solve(k, A, b);
}
static const char* pieceName(int k) { return k < works::N ? works::name[k] : k < works::N + 8 ? WN[k - works::N] : SN[k - works::N - 8]; }
static void parts(Case& c) {
    const int NP = works::N + 8 + NSOL; Rng& g = c.rng; int T = g.range(3, 6); bool alike = c.idx % 4 != 3; static Nowhere nowhere; std::streambuf* old = std::cout.rdbuf(&nowhere);
    std::vector<uint64_t> sd(T); std::vector<int> kd(T); std::vector<V> ser(T), par(T), again(T); omp_set_num_threads(1); std::string base = run().scratch + "/part-";
    for (int i = 0; i < T; i++) { sd[i] = g.next(); kd[i] = alike ? (int)((c.idx - c.idx / 4) % NP) : g.range(0, NP - 1); c.describe(pieceName(kd[i]), " ", sd[i]); c.input((double)(sd[i] >> 12)); c.count(pieceName(kd[i])); ser[i] = piece(sd[i], kd[i], cat(base, i)); }
    std::vector<std::thread> th; for (int i = 0; i < T; i++) th.emplace_back([&, i] { par[i] = piece(sd[i], kd[i], cat(base, i)); again[i] = piece(sd[i], kd[i], cat(base, i)); }); for (auto& t : th) t.join();
    std::cout.rdbuf(old);
    for (int i = 0; i < T; i++) c.expect("own-answer", same(ser[i], par[i], 1e-7) && same(ser[i], again[i], 1e-7), cat(pieceName(kd[i]), " gives another answer when other threads work on other objects"), pieceName(kd[i]));
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_omp");
#ifdef VH_TSAN
    const double f = 0.25;
#else
    const double f = 1;
#endif
    component("P05.product", long(800 * f), long(16000 * f), product);
    component("P05.solver", long(360 * f), long(5400 * f), solvers);
    component("P05.analysis", long(160 * f), long(2400 * f), analyses);
    component("P05.independent", long(240 * f), long(3200 * f), independent);
    component("P05.parts", long(1200 * f), long(16000 * f), parts);
#ifdef VH_TSAN
    run().counters["parallel regions forked"] += vh_omp_regions(); run().counters[cat("runs with a largest team of ", vh_omp_maxteam())]++;
#endif
    return finish();
}
