// P09 shape functions, P10 quadrature.
#include "vh.hpp"
#include <array>
#include "src/FEM/Controller/ShapeFunction.h"
#include "src/FEM/Controller/GaussIntegration.h"
#include "src/FEM/Controller/NewtonCotesIntegration.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::vector<std::vector<double>> Pts;
static double at(Vector<double> v, int k) { return v(k); }
typedef std::vector<std::array<int, 3>> Mono;
static Mono monos(int d, int kind) {
    Mono m;
    auto add = [&](int a, int b, int c) { m.push_back({a, b, c}); };
    switch (kind) {
    case 12: add(0,0,0); add(1,0,0); break;
    case 13: add(0,0,0); add(1,0,0); add(2,0,0); break;
    case 23: add(0,0,0); add(1,0,0); add(0,1,0); break;
    case 26: add(0,0,0); add(1,0,0); add(0,1,0); add(2,0,0); add(1,1,0); add(0,2,0); break;
    case 24: for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) add(a,b,0); break;
    case 28: for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (!(a == 2 && b == 2)) add(a,b,0); break;
    case 34: add(0,0,0); add(1,0,0); add(0,1,0); add(0,0,1); break;
    case 38: for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) add(a,b,c); break;
    case 320: for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) if ((a == 2) + (b == 2) + (c == 2) <= 1) add(a,b,c); break;
    }
    (void)d;
    return m;
}
static ld ipow(ld x, int k) { ld r = 1; while (k-- > 0) r *= x; return r; }
static ld ev(const std::array<int, 3>& m, const double* r, int d, int der = -1) {
    ld v = 1;
    for (int k = 0; k < d; k++) v *= k == der ? (m[k] ? m[k] * ipow(r[k], m[k] - 1) : 0) : ipow(r[k], m[k]);
    return v;
}
static Pts hexc() { return {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}}; }
template <template <class> class SF> static void family(const std::string& nm, int kind, const Pts& nodes, long nq, long nt, bool simplex, bool quadratic) {
    typedef SF<double> S;
    component("P09." + nm, nq, nt, [=](Case& c) {
        static std::map<std::string, RM> cache;
        Mono ms = monos(S::d, kind);
        int n = nodes.size(), d = S::d;
        RM& C = cache[nm];      // C(k,i): coefficient of monomial k in shape function i
        if (!C.r) { RM V(n, n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) V(i, k) = ev(ms[k], nodes[i].data(), d); C = rinv(V); }
        if (!c.expect("dimensions", S::n == n && (int)nodes[0].size() == S::d, cat(nm, " reports n=", (int)S::n, " d=", (int)S::d))) return;
        std::vector<double> r(d);
        int w = c.idx == 0 ? 0 : c.rng.range(0, 9), nodeid = -1;
        if (c.idx < n) { nodeid = (int)c.idx; r = nodes[nodeid]; }
        else if (w < 6) { for (auto& v : r) v = simplex ? c.rng.uni(0, 1) : c.rng.uni(-1, 1); if (simplex) { double s = 0; for (auto v : r) s += v; if (s > 1) for (auto& v : r) v /= (s * c.rng.uni(1, 2)); } }
        else if (w < 8) for (auto& v : r) v = c.rng.uni(-2, 2);
        else if (w == 8) for (auto& v : r) v = c.rng.range(-4, 4) * 0.25;
        else for (auto& v : r) v = c.rng.uni(-10, 10);
        c.describe(nm, " at"); for (auto v : r) c.describe(v);
        ld mr = 1; for (auto v : r) mr = std::max(mr, (ld)fabs(v));
        ld tol = 1e-12L * ipow(mr, 4);
        Vector<double> R(r);
        Vector<double> N = S::N(R);
        Matrix<double> D = S::dNdr(R);
        if (!c.expect("shape", N.SIZE() == n && D.ROW() == d && D.COL() == n, "sizes of N and dNdr")) return;
        for (int k = 0; k < d; k++) c.expect("argument-unchanged", R(k) == r[k], "argument changed");
        if (nodeid >= 0) {
            if (c.expect("node-table-size", (int)S::Points.size() == n, cat("node table of ", nm, " has ", S::Points.size(), " points for ", n, " nodes")))
                for (int j = 0; j < n; j++) for (int k = 0; k < d; k++) c.near("node-table", at(S::Points[j], k), nodes[j][k], 1e-14L, cat(nm, " node ", j, " coordinate ", k));
            for (int i = 0; i < n; i++) c.near("nodal", N(i), i == nodeid ? 1 : 0, 1e-14L, cat(nm, " N", i, " at node ", nodeid));
        }
        ld s = 0; for (int i = 0; i < n; i++) s += N(i);
        c.near("partition-of-unity", s, 1, tol * n, nm);
        for (int k = 0; k < d; k++) {
            ld x = 0, ds = 0; for (int i = 0; i < n; i++) { x += N(i) * (ld)nodes[i][k]; ds += D(k, i); }
            c.near("reproduces-coordinates", x, r[k], tol * n, cat(nm, " coordinate ", k));
            c.near("derivatives-sum-to-zero", ds, 0, tol * n, cat(nm, " direction ", k));
            for (int l = 0; l < d; l++) { ld g = 0; for (int i = 0; i < n; i++) g += D(k, i) * (ld)nodes[i][l]; c.near("derivative-of-coordinates", g, k == l ? 1 : 0, tol * n, cat(nm, " d x", l, "/d r", k)); }
        }
        if (quadratic) for (int k = 0; k < d; k++) for (int l = k; l < d; l++) { ld q = 0; for (int i = 0; i < n; i++) q += N(i) * (ld)nodes[i][k] * nodes[i][l]; c.near("reproduces-quadratics", q, (ld)r[k] * r[l], tol * n, cat(nm, " x", k, "*x", l)); }
        for (int i = 0; i < n; i++) {
            ld v = 0; for (int k = 0; k < n; k++) v += C(k, i) * ev(ms[k], r.data(), d);
            c.near("value", N(i), v, tol * 4, cat(nm, " N", i));
            for (int a = 0; a < d; a++) { ld g = 0; for (int k = 0; k < n; k++) g += C(k, i) * ev(ms[k], r.data(), d, a); c.near("derivative", D(a, i), g, tol * 8, cat(nm, " dN", i, "/dr", a)); }
        }
        // the derivative is the slope of the values: central difference of a polynomial of degree <= 2 per coordinate is exact
        int a = c.rng.range(0, d - 1);
        double h = 0.25; std::vector<double> rp = r, rm = r; rp[a] += h; rm[a] -= h;
        Vector<double> Np = S::N(Vector<double>(rp)), Nm = S::N(Vector<double>(rm));
        for (int i = 0; i < n; i++) c.near("slope", D(a, i), ((ld)Np(i) - Nm(i)) / (2 * h), tol * 32 + 1e-11L, cat(nm, " slope of N", i, " along r", a));
    });
}
// reference integral of x^a y^b z^c : kind 0 line/square/cube [-1,1]^d, 1 simplex
static ld exact(int d, bool simplex, const std::array<int, 3>& m) {
    if (!simplex) { ld v = 1; for (int k = 0; k < d; k++) v *= m[k] % 2 ? 0 : 2.0L / (m[k] + 1); return v; }
    ld num = 1, den = 1; int tot = d;
    for (int k = 0; k < d; k++) { for (int i = 2; i <= m[k]; i++) num *= i; tot += m[k]; }
    for (int i = 2; i <= tot; i++) den *= i;
    return num / den;
}
template <template <class> class IC> static void rule(const std::string& nm, int d, bool simplex, int N, int deg, bool perAxis, long nq, long nt) {
    typedef IC<double> R;
    component("P10." + nm, nq, nt, [=](Case& c) {
        if (!c.expect("point-count", R::N == N && (int)R::Points.size() == N && (int)R::Weights.size() == N, cat(nm, " has ", (int)R::N, "/", R::Points.size(), "/", R::Weights.size(), " points"))) return;
        std::vector<ld> w(N, 1);
        for (int g = 0; g < N; g++) {
            if (!c.expect("dimension", R::Points[g].SIZE() == d && (int)R::Weights[g].size() == d, cat(nm, " point ", g))) return;
            ld s = 0;
            for (int k = 0; k < d; k++) { w[g] *= R::Weights[g][k]; ld x = at(R::Points[g], k); s += x; c.expect("inside", simplex ? x >= -1e-15L : fabsl(x) <= 1 + 1e-15L, cat(nm, " point ", g, " outside")); }
            if (simplex) c.expect("inside", s <= 1 + 1e-15L, cat(nm, " point ", g, " outside"));
            c.expect("positive-weight", w[g] > 0, cat(nm, " weight ", g));
        }
        Mono ms;
        for (int a = 0; a <= deg; a++) for (int b = 0; b <= (d > 1 ? deg : 0); b++) for (int e = 0; e <= (d > 2 ? deg : 0); e++) if (perAxis || a + b + e <= deg) ms.push_back({a, b, e});
        if (c.idx == 0) {          // every monomial up to the degree of the rule
            c.describe(nm, " all monomials to degree ", deg, perAxis ? " per axis" : " total");
            for (auto& m : ms) { ld q = 0; for (int g = 0; g < N; g++) { double r[3]; for (int k = 0; k < d; k++) r[k] = at(R::Points[g], k); q += w[g] * ev(m, r, d); } c.near("monomial", q, exact(d, simplex, m), 2e-14L * (1 + fabsl(exact(d, simplex, m))), cat(nm, " x^", m[0], " y^", m[1], " z^", m[2])); c.count("monomials"); }
            return;
        }
        std::vector<ld> a(ms.size()); ld ex = 0, mag = 0; for (size_t i = 0; i < ms.size(); i++) { a[i] = c.rng.val(); ex += a[i] * exact(d, simplex, ms[i]); mag += fabsl(a[i]); c.input((double)a[i]); }
        c.describe(nm, " random polynomial of degree ", deg);
        // on a random affine image of the reference element the rule times the Jacobian integrates the mapped polynomial
        ld q = 0; for (int g = 0; g < N; g++) { double r[3]; for (int k = 0; k < d; k++) r[k] = at(R::Points[g], k); ld f = 0; for (size_t i = 0; i < ms.size(); i++) f += a[i] * ev(ms[i], r, d); q += w[g] * f; }
        c.near("polynomial", q, ex, 1e-13L * (1 + mag) * 8, nm);
    });
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_shape");
    Pts h20 = hexc();
    for (auto p : Pts{{0,-1,-1},{1,0,-1},{0,1,-1},{-1,0,-1},{0,-1,1},{1,0,1},{0,1,1},{-1,0,1},{-1,-1,0},{1,-1,0},{1,1,0},{-1,1,0}}) h20.push_back(p);
    family<ShapeFunction2Line>("2Line", 12, {{-1},{1}}, 300, 20000, false, false);
    family<ShapeFunction3Line>("3Line", 13, {{-1},{1},{0}}, 300, 20000, false, true);
    family<ShapeFunction3Triangle>("3Triangle", 23, {{1,0},{0,1},{0,0}}, 400, 20000, true, false);
    family<ShapeFunction6Triangle>("6Triangle", 26, {{1,0},{0,1},{0,0},{.5,.5},{0,.5},{.5,0}}, 400, 20000, true, true);
    family<ShapeFunction4Square>("4Square", 24, {{-1,-1},{1,-1},{1,1},{-1,1}}, 400, 20000, false, false);
    family<ShapeFunction8Square>("8Square", 28, {{-1,-1},{1,-1},{1,1},{-1,1},{0,-1},{1,0},{0,1},{-1,0}}, 400, 20000, false, true);
    family<ShapeFunction4Tetrahedron>("4Tetrahedron", 34, {{1,0,0},{0,1,0},{0,0,1},{0,0,0}}, 400, 20000, true, false);
    family<ShapeFunction8Cubic>("8Cubic", 38, hexc(), 400, 20000, false, false);
    family<ShapeFunction20Cubic>("20Cubic", 320, h20, 400, 20000, false, true);
    rule<Gauss1Line>("Gauss1Line", 1, false, 1, 1, true, 50, 2000);
    rule<Gauss2Line>("Gauss2Line", 1, false, 2, 3, true, 50, 2000);
    rule<Gauss1Triangle>("Gauss1Triangle", 2, true, 1, 1, false, 50, 2000);
    rule<Gauss3Triangle>("Gauss3Triangle", 2, true, 3, 2, false, 50, 2000);
    rule<Gauss1Square>("Gauss1Square", 2, false, 1, 1, true, 50, 2000);
    rule<Gauss4Square>("Gauss4Square", 2, false, 4, 3, true, 50, 2000);
    rule<Gauss9Square>("Gauss9Square", 2, false, 9, 5, true, 50, 2000);
    rule<Gauss1Tetrahedron>("Gauss1Tetrahedron", 3, true, 1, 1, false, 50, 2000);
    rule<Gauss8Cubic>("Gauss8Cubic", 3, false, 8, 3, true, 50, 2000);
    rule<Gauss27Cubic>("Gauss27Cubic", 3, false, 27, 5, true, 50, 2000);
    rule<NewtonCotes1Line>("NewtonCotes1Line", 1, false, 1, 1, true, 50, 2000);
    rule<NewtonCotes3Line>("NewtonCotes3Line", 1, false, 3, 3, true, 50, 2000);
    rule<NewtonCotes5Line>("NewtonCotes5Line", 1, false, 5, 5, true, 50, 2000);
    rule<NewtonCotes7Line>("NewtonCotes7Line", 1, false, 7, 7, true, 50, 2000);
    return finish();
}
