// meshes, constraints, reference discrete problem and solver dispatch shared by the analysis drivers
#pragma once
#include <cassert>
#include <cmath>
#include <iostream>
#include <algorithm>
#include "elas.hpp"
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
#include "src/FEM/Controller/Assembling.h"
#include "src/FEM/Controller/BoundaryCondition.h"
#include "src/FEM/Equation/HeatTransfer.h"
#include "src/FEM/Equation/Advection.h"
#include "src/FEM/Equation/Stokes.h"
#include "src/FEM/Equation/NavierStokes.h"
#include "src/LinearAlgebra/Solvers/CG.h"
#include "src/LinearAlgebra/Solvers/LU.h"
#include "src/LinearAlgebra/Solvers/Lanczos.h"
#include "src/PrePost/Mesher/SquareMesh.h"
#include "src/PrePost/Mesher/AnnulusMesh.h"
#include "src/PrePost/Mesher/SquareAnnulusMesh.h"
#include "src/PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "src/PrePost/Mesher/Delaunay.h"
#include "src/PrePost/Mesher/GrandStructure.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::vector<std::vector<int>> IM;
typedef std::vector<std::pair<std::pair<int, int>, double>> Fix;
struct Msh { int kind; std::vector<DV> x; IM el, bd; std::string name; bool para = false; double size = 1; std::set<int> bn; };
static const int QE[4][3] = {{0, 1, 4}, {1, 2, 5}, {2, 3, 6}, {3, 0, 7}}, TE[3][3] = {{0, 1, 3}, {1, 2, 4}, {2, 0, 5}};
inline void boundary(Msh& m) {
    bool tri = m.kind == 23 || m.kind == 26, quad = m.kind == 26 || m.kind == 28; int ne = tri ? 3 : 4; m.bd.clear(); m.bn.clear();
    std::set<std::pair<int, int>> d; auto each = [&](auto f) { for (auto& e : m.el) for (int k = 0; k < ne; k++) { const int* t = tri ? TE[k] : QE[k]; f(e[t[0]], e[t[1]], quad ? e[t[2]] : -1); } };
    each([&](int a, int b, int) { d.insert({a, b}); });
    each([&](int a, int b, int q) { if (!d.count({b, a})) { m.bn.insert(a); m.bn.insert(b); if (q >= 0) { m.bd.push_back({a, b, q}); m.bn.insert(q); } else m.bd.push_back({a, b}); } });
}
inline Msh mesh2(Case& c, int want = 0) {
    Rng& g = c.rng; Msh m; m.kind = 24; int t = want == 28 ? 1 : g.range(0, 7);
    switch (t) {
    case 0: { SquareMesh<double> s(g.uni(0.5, 3), g.uni(0.5, 3), g.range(1, 4), g.range(1, 4)); m.x = s.GenerateNodes(); m.el = s.GenerateElements(); m.name = "SquareMesh"; m.para = true; break; }
    case 1: { int lo = want == 28 ? 2 : 1; SquareMesh<double> s(g.uni(0.5, 3), g.uni(0.5, 3), g.range(lo, 3), g.range(want == 28 ? 3 : 1, 3)); m.kind = 28; m.x = s.GenerateNodes2(); m.el = s.GenerateElements2(); m.name = "SquareMesh, 8 nodes"; m.para = true; break; }
    case 2: { double r = g.uni(0.3, 2); AnnulusMesh<double> s(r, r + g.uni(0.3, 2), g.range(1, 3), g.range(5, 10)); m.x = s.GenerateNodes(); m.el = s.GenerateElements(); m.name = "AnnulusMesh"; break; }
    case 3: { double a = g.uni(0.3, 1), b = g.uni(0.3, 1); SquareAnnulusMesh<double> s(a + g.uni(0.3, 1), b + g.uni(0.3, 1), a, b, g.range(1, 3), g.range(1, 3), g.range(1, 2)); m.x = s.GenerateNodes(); m.el = s.GenerateElements(); m.name = "SquareAnnulusMesh"; break; }
    case 4: case 5: { double a = g.uni(0.8, 2), b = g.uni(0.8, 2), h = g.uni(0.35, 0.8); std::vector<DV> p = {{0, 0}, {a, 0}, {a, b}, {0, b}}; IM hole; if (g.chance(0.4)) { double w = 0.3 * a, v = 0.3 * b; int k = p.size(); for (auto q : std::vector<DV>{{w, v}, {2 * w, v}, {2 * w, 2 * v}, {w, 2 * v}}) p.push_back(q); hole = {{k, k + 1, k + 2, k + 3}}; }
        Delaunay<double> s(p, {{3, 2, 1, 0}}, hole, h * std::sqrt(a * b)); m.kind = 23; m.x = s.GenerateNodes(); m.el = s.GenerateElements(); m.name = hole.empty() ? "Delaunay" : "Delaunay with a hole"; break; }
    case 6: { SquareMesh<double> s(g.uni(0.5, 3), g.uni(0.5, 3), g.range(1, 3), g.range(1, 3)); m.kind = 23; m.x = s.GenerateNodes(); for (auto& e : s.GenerateElements()) { if (g.chance(0.5)) { m.el.push_back({e[0], e[1], e[2]}); m.el.push_back({e[0], e[2], e[3]}); } else { m.el.push_back({e[0], e[1], e[3]}); m.el.push_back({e[1], e[2], e[3]}); } } m.name = "SquareMesh split into triangles"; break; }
    default: { double a = g.uni(1, 2), b = g.uni(1, 2); SquareCircleAnnulusMesh<double> s(a, b, 0.4 * std::min(a, b) * g.uni(0.5, 1), 1.0, g.range(1, 2), g.range(1, 2), g.range(1, 3)); m.x = s.GenerateNodes(); m.el = s.GenerateElements(); m.name = "SquareCircleAnnulusMesh"; break; }
    }
    if (m.kind == 23 && m.el.size() < 25 && g.chance(0.4)) {           // quadratic triangles: a node in the middle of every side
        std::map<std::pair<int, int>, int> mid; m.kind = 26; for (auto& e : m.el) { auto v = e; for (int k = 0; k < 3; k++) { auto key = std::minmax(v[k], v[(k + 1) % 3]); std::pair<int, int> kk(key.first, key.second); if (!mid.count(kk)) { mid[kk] = m.x.size(); m.x.push_back((m.x[kk.first] + m.x[kk.second]) * 0.5); } e.push_back(mid[kk]); } }
        m.name += ", quadratic";
    }
    boundary(m);
    // a node that no element uses would leave an unconstrained unknown: report it (P27/P29) and stop
    // any affine map of positive determinant keeps the mesh valid
    double A[2][2] = {{1, 0}, {0, 1}}, o[2] = {0, 0};
    if (g.chance(0.6)) { double th = g.uni(0, 2 * M_PI), sx = g.logu(0.5, 2), sy = g.logu(0.5, 2), sh = g.uni(-0.7, 0.7), sc = g.chance(0.3) ? g.logu(1e-3, 1e3) : 1; A[0][0] = sc * (sx * cos(th)); A[0][1] = sc * (sx * sh * cos(th) - sy * sin(th)); A[1][0] = sc * (sx * sin(th)); A[1][1] = sc * (sx * sh * sin(th) + sy * cos(th)); o[0] = sc * g.uni(-2, 2); o[1] = sc * g.uni(-2, 2); }
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; for (auto& p : m.x) { double a = p(0), b = p(1); for (int k = 0; k < 2; k++) { p(k) = A[k][0] * a + A[k][1] * b + o[k]; lo[k] = std::min(lo[k], p(k)); hi[k] = std::max(hi[k], p(k)); } }
    m.size = std::max(hi[0] - lo[0], hi[1] - lo[1]);
    // renumber the nodes: nothing may depend on the numbering of the generator
    if (g.chance(0.4)) { std::vector<int> pm(m.x.size()); for (size_t i = 0; i < pm.size(); i++) pm[i] = i; g.shuffle(pm); auto y = m.x; for (size_t i = 0; i < pm.size(); i++) y[pm[i]] = m.x[i]; m.x = y; for (auto& e : m.el) for (auto& i : e) i = pm[i]; boundary(m); }
    g.shuffle(m.el);
    c.count(m.name); return m;
}
inline Msh mesh3(Case& c) {
    Rng& g = c.rng; Msh m; int t = g.range(0, 2), nx = g.range(1, 2), ny = g.range(1, 2), nz = t == 2 ? 1 : g.range(1, 2); double L[3] = {g.uni(0.5, 2), g.uni(0.5, 2), g.uni(0.5, 2)};
    auto id = [&](int i, int j, int k) { return (i * (ny + 1) + j) * (nz + 1) + k; };
    for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int k = 0; k <= nz; k++) { double p[3] = {L[0] * i / nx, L[1] * j / ny, L[2] * k / nz}; bool in[3] = {i > 0 && i < nx, j > 0 && j < ny, k > 0 && k < nz}; for (int q = 0; q < 3; q++) if (in[q]) p[q] += 0.12 * L[q] * g.uni(-1, 1); m.x.push_back({p[0], p[1], p[2]}); if (!(in[0] && in[1] && in[2])) m.bn.insert(m.x.size() - 1); }
    IM h; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) h.push_back({id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)});
    if (t == 0) { m.kind = 38; m.el = h; m.name = "hexahedra"; }
    else if (t == 1) { m.kind = 34; m.name = "tetrahedra"; static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        for (auto& e : h) { auto at = [&](int b) { static const int map[8] = {0, 1, 3, 2, 4, 5, 7, 6}; return e[map[b]]; }; for (auto& p : P) { int v[4] = {0, 0, 0, 7}; v[1] = 1 << p[0]; v[2] = v[1] | 1 << p[1]; int n[4]; for (int q = 0; q < 4; q++) n[q] = at(v[q]); DV a = m.x[n[0]], b = m.x[n[1]] - a, d = m.x[n[2]] - a, w = m.x[n[3]] - a; double det = b(0) * (d(1) * w(2) - d(2) * w(1)) - b(1) * (d(0) * w(2) - d(2) * w(0)) + b(2) * (d(0) * w(1) - d(1) * w(0)); if (det > 0) std::swap(n[0], n[1]); m.el.push_back({n[0], n[1], n[2], n[3]}); } } }
    else { m.kind = 320; m.name = "quadratic hexahedra"; const Fam& f = fam(320); std::map<std::pair<int, int>, int> mid; for (auto e : h) { for (int q = 8; q < 20; q++) { std::vector<int> ends; for (int a = 0; a < 8; a++) { int diff = 0; for (int k = 0; k < 3; k++) if (f.nodes[q][k] != 0 && f.nodes[q][k] != f.nodes[a][k]) diff++; if (!diff) ends.push_back(e[a]); } std::pair<int, int> kk(std::min(ends[0], ends[1]), std::max(ends[0], ends[1])); if (!mid.count(kk)) { mid[kk] = m.x.size(); m.x.push_back((m.x[kk.first] + m.x[kk.second]) * 0.5); if (m.bn.count(kk.first) && m.bn.count(kk.second)) m.bn.insert(m.x.size() - 1); } e.push_back(mid[kk]); } m.el.push_back(e); } }
    m.size = 2; c.count(m.name); g.shuffle(m.el); return m;
}
inline El elOf(Msh& m, const std::vector<int>& e) { El o; o.f = &fam(m.kind); o.e = e; o.x = m.x; DV p0 = m.x[0]; int d = p0.SIZE(); o.X = RM(e.size(), d); for (size_t i = 0; i < e.size(); i++) { DV p = m.x[e[i]]; for (int k = 0; k < d; k++) o.X(i, k) = p(k); } return o; }
// ---- long-double reference of the discrete problem
struct Sys {
    int nn, nd; RM K; LV F; std::vector<char> fix; LV val;
    Sys(int n, int d) : nn(n), nd(d), K(n * d, n * d), F(n * d, 0), fix(n * d, 0), val(n * d, 0) {}
    void add(const RM& k, const std::vector<int>& e) { int m = e.size(); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) K(e[i] * nd + a, e[j] * nd + b) += k(i * nd + a, j * nd + b); }
    void fixed(const Fix& f) { for (auto& p : f) { fix[p.first.first * nd + p.first.second] = 1; val[p.first.first * nd + p.first.second] = p.second; } }
    LV solve() const { std::vector<int> q; for (int i = 0; i < nn * nd; i++) if (!fix[i]) q.push_back(i); int n = q.size(); LV u = val; if (!n) return u; RM A(n, n); LV b(n); for (int i = 0; i < n; i++) { b[i] = F[q[i]]; for (int j = 0; j < nn * nd; j++) if (fix[j]) b[i] -= K(q[i], j) * val[j]; for (int j = 0; j < n; j++) A(i, j) = K(q[i], q[j]); } LV r = rsolve(A, b); for (int i = 0; i < n; i++) u[q[i]] = r[i]; return u; }
};
inline ld resid(CSR<double>& A, const std::vector<double>& x, const std::vector<double>& b) { std::vector<double> y = A * x; ld s = 0, t = 0; for (size_t i = 0; i < b.size(); i++) { ld v = (ld)y[i] - b[i]; s += v * v; t += (ld)b[i] * b[i]; } return t == 0 ? 0 : sqrtl(s / t); }
inline std::vector<double> dense(CSR<double>& A, const std::vector<double>& b) { int n = b.size(); DM M(n, n); DV v(n); std::vector<int> pv(n); for (int i = 0; i < n; i++) { v(i) = b[i]; for (int j = 0; j < n; j++) M(i, j) = A.get(i, j); } LU(M, pv); SolveLU(M, v, pv); std::vector<double> r(n); for (int i = 0; i < n; i++) r[i] = v(i); return r; }
inline std::vector<double> solve(Case& c, LILCSR<double>& L, std::vector<double>& F, int kind) {   // 0 s.p.d., 1 general, 2 dense only
    CSR<double> A(L); int n = F.size(), s = kind == 0 ? c.rng.range(0, 7) : kind == 1 ? c.rng.range(4, 7) : 7; if (n == 0) return {};
    static const char* nm[] = {"CG", "ScalingCG", "ILU0CG", "SORCG", "BiCGSTAB", "ScalingBiCGSTAB", "ILU0BiCGSTAB", "LU"}; c.count(cat("solver-", nm[s])); c.describe("solver ", nm[s], ", ", n, " equations");
    std::vector<double> r; int it = 40 * n + 200; double eps = 1e-13;
    if (s == 0) r = CG(A, F, it, eps); else if (s == 1) r = ScalingCG(A, F, it, eps); else if (s == 2) { CSR<double> M = ILU0(A); r = ILU0CG(A, M, F, it, eps); } else if (s == 3) r = SORCG(A, F, it, eps, 1.0, 3, 1e-20); else if (s == 4) r = BiCGSTAB(A, F, it, eps); else if (s == 5) r = ScalingBiCGSTAB(A, F, it, eps); else if (s == 6) { CSR<double> M = ILU0(A); r = ILU0BiCGSTAB(A, M, F, it, eps); }
    if (s < 7 && (int)r.size() == n && resid(A, r, F) < 1e-10L) return r;
    if (s < 7) c.count(cat("did-not-converge-", nm[s]));            // P06 decides about the solvers; here the direct one continues
    return dense(A, F);
}
// constraints: whole boundary, or enough to suppress rigid motions plus a few more
inline Fix constrain(Case& c, Msh& m, int nd, bool all, bool rigid, const std::function<double(int, int)>& val) {
    Rng& g = c.rng; Fix f; int nn = m.x.size(); std::set<std::pair<int, int>> s;
    if (all) for (int i : m.bn) for (int a = 0; a < nd; a++) s.insert({i, a});
    else {
        std::vector<int> ids(m.bn.begin(), m.bn.end()); g.shuffle(ids); DV p0 = m.x[0]; int dim = p0.SIZE(), need = rigid ? dim : 1; std::vector<int> ch;
        for (int i : ids) {                                                          // points in general position, far from each other
            bool ok = true; DV p = m.x[i];
            if (ch.size() >= 1) ok = (p - m.x[ch[0]]).Norm() > 0.35 * m.size;
            if (ok && ch.size() == 2) { DV a = m.x[ch[1]] - m.x[ch[0]], b = p - m.x[ch[0]]; double cr = dim == 3 ? std::sqrt(std::pow(a(1) * b(2) - a(2) * b(1), 2) + std::pow(a(2) * b(0) - a(0) * b(2), 2) + std::pow(a(0) * b(1) - a(1) * b(0), 2)) : std::fabs(a(0) * b(1) - a(1) * b(0)); ok = cr > 0.08 * m.size * m.size; }
            if (ok) ch.push_back(i); if ((int)ch.size() == need) break;
        }
        if ((int)ch.size() < need) return constrain(c, m, nd, true, rigid, val);
        for (int i : ch) for (int a = 0; a < nd; a++) s.insert({i, a});
        int ex = g.chance(0.5) ? 0 : g.range(1, 6); for (int k = 0; k < ex; k++) s.insert({g.range(0, nn - 1), g.range(0, nd - 1)});
    }
    for (auto& p : s) f.push_back({p, val(p.first, p.second)});
    g.shuffle(f); c.count(all ? "whole-boundary" : "few-constraints"); return f;
}
inline void compare(Case& c, const char* mon, std::vector<DV>& u, const LV& want, int nd, ld tol, const std::string& what) {
    ld sc = 0, d = 0; for (auto v : want) sc = std::max(sc, fabsl(v)); bool fin = true;
    for (size_t i = 0; i < u.size(); i++) for (int a = 0; a < nd; a++) { if (!std::isfinite(u[i](a))) fin = false; d = std::max(d, fabsl(u[i](a) - want[i * nd + a])); }
    if (!c.expect("finite", fin, what + ": the result is not finite")) return;
    if (sc == 0) sc = 1; c.near(mon, d / sc, 0, tol, what);
}
inline RM gradOf(Rng& g, int d) { RM H(d, d); int k = g.range(0, 3); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) H(i, j) = g.uni(-1, 1); if (k == 0) for (int i = 0; i < d; i++) for (int j = 0; j < i; j++) H(j, i) = H(i, j) ; return H; }
