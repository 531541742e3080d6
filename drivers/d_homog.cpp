// P21 homogenisation: element integrals, and the documented cell pipeline against a dense long-double
// solution of the same cell, closed-form laminates, mixture bounds and periodicity identities
#include <cassert>
#include "elas.hpp"
#include "src/FEM/Equation/Homogenization.h"
#include "src/FEM/Equation/General.h"
#include "src/FEM/Controller/Assembling.h"
#include "src/FEM/Controller/BoundaryCondition.h"
#include "src/LinearAlgebra/Solvers/CG.h"
using namespace vh;
using namespace PANSFEM2;
struct HOp { std::string name; int kind; Rule rule; bool full;
    std::function<void(DM&, NTE&, std::vector<int>&, const std::vector<int>&, std::vector<DV>&, double, double, double)> force, stiff;
    std::function<DM(std::vector<DV>&, std::vector<int>&, std::vector<DV>&, std::vector<DV>&, std::vector<DV>&, double, double, double)> law, check; };
template <template <class> class SF, template <class> class IC> HOp op(const std::string& n, bool full) {
    HOp o; o.name = n; o.kind = KindOf<SF>::k; o.rule = ruleOf<IC>(); o.full = full;
    o.force = [](DM& F, NTE& t, std::vector<int>& e, const std::vector<int>& dl, std::vector<DV>& x, double E, double V, double th) { HomogenizePlaneStrainBodyForce<double, SF, IC>(F, t, e, dl, x, E, V, th); };
    o.stiff = [](DM& K, NTE& t, std::vector<int>& e, const std::vector<int>& dl, std::vector<DV>& x, double E, double V, double th) { PlaneStrainStiffness<double, SF, IC>(K, t, e, dl, x, E, V, th); };
    o.law = [](std::vector<DV>& x, std::vector<int>& e, std::vector<DV>& a, std::vector<DV>& b, std::vector<DV>& c, double E, double V, double th) { return HomogenizePlaneStrainConstitutive<double, SF, IC>(x, e, a, b, c, E, V, th); };
    o.check = [](std::vector<DV>& x, std::vector<int>& e, std::vector<DV>& a, std::vector<DV>& b, std::vector<DV>& c, double, double, double th) { return HomogenizePlaneStrainCheck<double, SF, IC>(x, e, a, b, c, th); };
    return o;
}
static const std::vector<HOp>& ops() {
    static std::vector<HOp> o;
    if (!o.empty()) return o;
    o.push_back(op<ShapeFunction4Square, Gauss4Square>("Q4,4", true));
    o.push_back(op<ShapeFunction3Triangle, Gauss1Triangle>("T3,1", true));
    o.push_back(op<ShapeFunction8Square, Gauss9Square>("Q8,9", true));
    o.push_back(op<ShapeFunction4Square, Gauss9Square>("Q4,9", true));
    o.push_back(op<ShapeFunction6Triangle, Gauss3Triangle>("T6,3", true));
    o.push_back(op<ShapeFunction4Square, Gauss1Square>("Q4,1", false));
    o.push_back(op<ShapeFunction8Square, Gauss4Square>("Q8,4", false));
    return o;
}
static RM Bof(const Pt& p) { int n = p.dN.c; RM B(3, 2 * n); for (int i = 0; i < n; i++) { B(0, 2 * i) = p.dN(0, i); B(1, 2 * i + 1) = p.dN(1, i); B(2, 2 * i) = p.dN(1, i); B(2, 2 * i + 1) = p.dN(0, i); } return B; }
static RM Dof(ld E, ld V) { return planeD(E * V / ((1 + V) * (1 - 2 * V)), E / (2 * (1 + V))); }
static void element(Case& c) {
    const HOp& o = ops()[c.idx % ops().size()];
    El el = makeEl(c, o.kind);
    Mat m = material(c, false);
    int n = el.f->n;
    c.describe(o.name, " E=", m.E, " V=", m.V, " t=", m.t); c.count(o.name);
    std::vector<std::vector<DV>> chi(3, std::vector<DV>(el.x.size(), DV(2)));
    double amp = c.rng.logu(1e-3, 1) * el.h;
    RM CHI(2 * n, 3);
    for (int k = 0; k < 3; k++) for (int i = 0; i < n; i++) for (int a = 0; a < 2; a++) { double v = amp * c.rng.uni(-1, 1); chi[k][el.e[i]](a) = v; CHI(2 * i + a, k) = v; c.input(v); }
    RM D = Dof(m.E, m.V), F(2 * n, 3), C(3, 3), P(3, 3); ld sB = 0, vol = 0;
    for (auto& p : points(*el.f, el.X, o.rule)) { RM B = Bof(p); F = F + (B.T() * D) * (m.t * p.w); C = C + (D * (RM::id(3) - B * CHI)) * (m.t * p.w); P = P - (B * CHI) * (m.t * p.w); sB = std::max(sB, B.maxabs()); vol += p.w; }
    ld rel = 1e-11L * el.slack();
    DM Fe; NTE nte; auto dl = doulist(c, 2);
    if (c.rng.chance(0.5)) Fe = DM(2, 7);
    o.force(Fe, nte, el.e, dl, el.x, m.E, m.V, m.t);
    checkMap(c, "HomogenizePlaneStrainBodyForce", nte, n, dl, [](int i, int k) { return 2 * i + k; });
    cmp(c, "unit-strain-load", rm(Fe), F, rel, o.name, D.maxabs() * sB * vol * m.t);
    cmp(c, "elemental-law", rm(o.law(el.x, el.e, chi[0], chi[1], chi[2], m.E, m.V, m.t)), C, rel, o.name, D.maxabs() * vol * m.t * (1 + sB * amp * n));
    cmp(c, "mean-strain", rm(o.check(el.x, el.e, chi[0], chi[1], chi[2], m.E, m.V, m.t)), P, rel, o.name, vol * m.t * sB * amp * n);
}
struct Cell { std::vector<DV> x; std::vector<std::vector<int>> el; std::vector<std::pair<int, int>> pairs; std::vector<int> master; int nx, ny, corner; double Lx, Ly; std::vector<int> col, row; };
// lam: 0 free perturbation, 1 column lines stay straight, 2 row lines stay straight
static Cell cell(Case& c, int kind, int lam) {
    Cell q; Rng& g = c.rng;
    bool quadr = kind == 28 || kind == 26, tri = kind == 23 || kind == 26;
    int cap = quadr ? 3 : g.chance(0.05) ? 9 : 5;
    q.nx = g.range(1, cap); q.ny = g.range(1, cap);
    // a single element across the cell would make an element's node its own neighbour on both sides; allowed, and covered
    q.Lx = g.logu(0.2, 5); q.Ly = g.logu(0.2, 5);
    int s = quadr ? 2 : 1, mx = q.nx * s, my = q.ny * s;
    std::vector<double> X(mx + 1), Y(my + 1);
    auto lines = [&](std::vector<double>& v, int n, double L) {
        std::vector<double> w(n); double t = 0; bool reg = g.chance(0.4);
        for (auto& a : w) { a = reg ? 1 : g.uni(0.5, 1.5); t += a; }
        double p = 0;
        for (int i = 0; i < n; i++) { v[s * i] = p / t * L; p += w[i]; if (s == 2) v[s * i + 1] = (p - w[i] / 2) / t * L; }
        v[s * n] = L;
    };
    lines(X, q.nx, q.Lx); lines(Y, q.ny, q.Ly);
    double pert = g.chance(0.3) ? 0 : g.uni(0, quadr ? 0.07 : 0.2), dx = q.Lx / q.nx, dy = q.Ly / q.ny;
    std::map<std::pair<int, int>, std::pair<double, double>> disp;
    std::vector<std::vector<int>> id(mx + 1, std::vector<int>(my + 1, -1));
    std::vector<std::pair<int, int>> grid;
    for (int i = 0; i <= mx; i++) for (int j = 0; j <= my; j++) { if (quadr && !tri && i % 2 && j % 2) continue; grid.push_back({i, j}); }
    if (g.chance(0.7)) g.shuffle(grid);
    for (auto& p : grid) {
        int i = p.first, j = p.second;
        auto k = std::make_pair(i % mx, j % my);
        if (!disp.count(k)) {
            bool mid = quadr && (i % 2 || j % 2);
            double a = pert * dx * g.uni(-1, 1), b = pert * dy * g.uni(-1, 1);
            if (lam == 1) a = 0;
            if (lam == 2) b = 0;
            if (mid && g.chance(0.5)) { a *= 0.3; b *= 0.3; }
            disp[k] = {a, b};
        }
        id[i][j] = q.x.size();
        q.x.push_back(DV(std::vector<double>{X[i] + disp[k].first, Y[j] + disp[k].second}));
    }
    for (auto& p : q.x) { c.input(p(0)); c.input(p(1)); }
    q.master.resize(q.x.size());
    for (int i = 0; i <= mx; i++) for (int j = 0; j <= my; j++) if (id[i][j] >= 0) q.master[id[i][j]] = id[i % mx][j % my];
    q.corner = id[0][0];
    bool chain = g.chance(0.5);
    std::vector<std::pair<int, int>> pr;
    for (int i = 0; i <= mx; i++) for (int j = 0; j <= my; j++) if (id[i][j] >= 0 && (i == mx || j == my) && !(i == mx && j == my)) pr.push_back({id[i % mx][j % my], id[i][j]});
    if (g.chance(0.7)) g.shuffle(pr);
    q.pairs = pr;
    if (chain) q.pairs.push_back({g.chance(0.5) ? id[mx][0] : id[0][my], id[mx][my]});   // corner reached through another corner
    else q.pairs.insert(q.pairs.begin() + g.range(0, (int)q.pairs.size()), {id[0][0], id[mx][my]});
    for (int i = 0; i < q.nx; i++) for (int j = 0; j < q.ny; j++) {
        auto N = [&](int a, int b) { return id[s * i + a][s * j + b]; };
        std::vector<std::vector<int>> es;
        if (kind == 24) es = {{N(0,0), N(1,0), N(1,1), N(0,1)}};
        if (kind == 28) es = {{N(0,0), N(2,0), N(2,2), N(0,2), N(1,0), N(2,1), N(1,2), N(0,1)}};
        if (kind == 23) { if (g.chance(0.5)) es = {{N(0,0), N(1,0), N(1,1)}, {N(0,0), N(1,1), N(0,1)}}; else es = {{N(0,0), N(1,0), N(0,1)}, {N(1,0), N(1,1), N(0,1)}}; }
        // 6-node triangle: corners 0,1,2 then middles of 01, 12, 20
        if (kind == 26) es = {{N(0,0), N(2,0), N(2,2), N(1,0), N(2,1), N(1,1)}, {N(0,0), N(2,2), N(0,2), N(1,1), N(1,2), N(0,1)}};
        for (auto& e : es) { q.el.push_back(e); q.col.push_back(i); q.row.push_back(j); }
    }
    // assembly order is free
    std::vector<int> o(q.el.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i;
    g.shuffle(o);
    Cell r = q;
    for (size_t i = 0; i < o.size(); i++) { r.el[i] = q.el[o[i]]; r.col[i] = q.col[o[i]]; r.row[i] = q.row[o[i]]; }
    c.describe(kind, " cell ", q.nx, "x", q.ny, " L=", q.Lx, "x", q.Ly, " perturbation ", pert, chain ? " chained" : "");
    return r;
}
static void pipeline(Case& c, int what) {      // 0 uniform, 1 random phases, 2 layers
    const HOp& o = ops()[c.rng.pick(std::vector<int>{0, 0, 0, 1, 2, 3, 4})];
    int lam = what == 2 ? c.rng.range(1, 2) : 0;
    Cell q = cell(c, o.kind, lam);
    int N = q.x.size(), ne = q.el.size();
    double t = c.rng.chance(0.5) ? 1 : c.rng.logu(0.1, 10), scale = c.rng.logu(1e-3, 1e5), contrast = what ? c.rng.logu(1, 300) : 1;
    std::vector<double> E(ne), V(ne);
    int nph = c.rng.range(2, 3);
    std::vector<double> pe, pv;
    for (int k = 0; k < nph; k++) { pe.push_back(scale * (k == 0 ? 1 : k == 1 ? contrast : c.rng.logu(1, contrast + 1e-9))); pv.push_back(c.rng.uni(-0.2, 0.45)); }
    std::vector<int> band(std::max(q.nx, q.ny)); for (auto& b : band) b = c.rng.range(0, nph - 1);
    for (int e = 0; e < ne; e++) { int k = what == 0 ? 0 : what == 1 ? c.rng.range(0, nph - 1) : band[lam == 1 ? q.col[e] : q.row[e]]; E[e] = pe[k]; V[e] = pv[k]; c.input(E[e]); }
    c.describe(o.name, what == 0 ? " uniform" : what == 1 ? " phases" : " layers", " contrast ", contrast, " t=", t);
    c.count(o.name);
    // ---- the pipeline as documented by the sample
    std::vector<std::vector<DV>> chi(3, std::vector<DV>(N, DV(2)));
    std::vector<std::vector<int>> n2g(N, std::vector<int>(2, 0));
    bool spring = c.rng.chance(0.25);
    if (!spring) { std::vector<std::pair<std::pair<int, int>, double>> fix = {{{q.corner, 0}, 0.0}, {{q.corner, 1}, 0.0}}; if (c.rng.chance(0.5)) SetDirichlet(chi[0], n2g, fix); else SetDirichlet(n2g, fix); }
    int kdeg = SetPeriodic(n2g, q.pairs);
    std::set<int> roots(q.master.begin(), q.master.end());
    c.expect("unknown-count", kdeg == 2 * ((int)roots.size() - (spring ? 0 : 1)), cat("periodic numbering reports ", kdeg, " unknowns, the cell has ", 2 * ((int)roots.size() - (spring ? 0 : 1))));
    LILCSR<double> K(kdeg, kdeg);
    std::vector<std::vector<double>> F(3, std::vector<double>(kdeg, 0.0));
    for (int e = 0; e < ne; e++) {
        DM Ke, Fes; NTE nte;
        o.stiff(Ke, nte, q.el[e], {0, 1}, q.x, E[e], V[e], t);
        Assembling(K, Ke, n2g, nte, q.el[e]);
        if (spring) { WeakSpring(Ke, nte, q.el[e], {0, 1}, q.x, 1e-9 * scale); Assembling(K, Ke, n2g, nte, q.el[e]); }
        o.force(Fes, nte, q.el[e], {0, 1}, q.x, E[e], V[e], t);
        for (int k = 0; k < 3; k++) { Vector<double> Fe = Fes.Block(0, k, Fes.ROW(), 1); Assembling(F[k], Fe, n2g, nte, q.el[e]); }
    }
    CSR<double> A(K);
    if (kdeg) for (int k = 0; k < 3; k++) {
        // a uniform cell has no load at all beyond rounding
        double fm = 0; for (double f : F[k]) fm = std::max(fm, std::fabs(f));
        std::vector<double> r = fm < 1e-13 * scale * contrast * t ? std::vector<double>(kdeg, 0.0) : ScalingCG(A, F[k], 20000, 1e-13);
        Disassembling(chi[k], r, n2g);
    }
    DM C(3, 3), P(3, 3);
    for (int e = 0; e < ne; e++) { C += o.law(q.x, q.el[e], chi[0], chi[1], chi[2], E[e], V[e], t); P += o.check(q.x, q.el[e], chi[0], chi[1], chi[2], E[e], V[e], t); }
    RM H = rm(C);
    // ---- references
    ld vol = 0, dmax = 0;
    RM voigt(3, 3), reuss(3, 3), W(3, 3);
    std::vector<int> rid(N, -1); int nr = 0;
    for (int r : roots) if (r != q.corner) { rid[r] = nr; nr += 2; }
    RM KK(nr, nr), FF(nr, 3);
    for (int e = 0; e < ne; e++) {
        const Fam& f = fam(o.kind);
        RM X(f.n, 2); for (int i = 0; i < f.n; i++) for (int k = 0; k < 2; k++) X(i, k) = q.x[q.el[e][i]](k);
        RM D = Dof(E[e], V[e]); dmax = std::max(dmax, D.maxabs());
        for (auto& p : points(f, X, o.rule)) {
            RM B = Bof(p), DB = D * B, k = B.T() * DB;
            ld w = p.w * t; vol += p.w;
            voigt = voigt + D * w; reuss = reuss + rinv(D) * w;
            for (int i = 0; i < f.n; i++) for (int a = 0; a < 2; a++) { int I = rid[q.master[q.el[e][i]]]; if (I < 0) continue;
                for (int z = 0; z < 3; z++) FF(I + a, z) += w * DB(z, 2 * i + a);
                for (int j = 0; j < f.n; j++) for (int b = 0; b < 2; b++) { int J = rid[q.master[q.el[e][j]]]; if (J >= 0) KK(I + a, J + b) += w * k(2 * i + a, 2 * j + b); } }
        }
    }
    RM chis = FF; if (nr) gauss(KK, chis);
    RM want = voigt - FF.T() * chis;
    ld area = (ld)q.Lx * q.Ly * t, tol = (spring ? 3e-7L : 1e-8L) * (1 + contrast / 30);
    reuss = rinv(reuss * (1 / (area * area)));      // times area
    if (!c.near("cell-measure", vol * t, area, 1e-10L * area, "harness: cell does not tile")) return;
    cmp(c, "cell-law", H, want, tol, o.name, dmax * area);
    c.near("law-symmetry", (H - H.T()).maxabs(), 0, tol * dmax * area, o.name);
    cmp(c, "mean-fluctuation-is-zero", rm(P), RM(3, 3), 1e-9L * (1 + contrast / 30), o.name, area);
    RM Hs = (H + H.T()) * 0.5L;
    c.expect("voigt-bound", jacobi(voigt - Hs)[0] > -tol * dmax * area, cat(o.name, ": stiffer than the arithmetic mean by ", (double)-jacobi(voigt - Hs)[0]));
    c.expect("reuss-bound", jacobi(Hs - reuss)[0] > -tol * dmax * area, cat(o.name, ": softer than the harmonic mean by ", (double)-jacobi(Hs - reuss)[0]));
    if (what == 0) cmp(c, "uniform-cell", H, Dof(E[0], V[0]) * area, tol, o.name);
    if (what == 2) {
        ld ia = 0, la = 0, r = 0, im = 0, tot = 0;
        for (int k = 0; k < (lam == 1 ? q.nx : q.ny); k++) {
            // width of the layer from the element areas
            ld wdt = 0; RM D;
            for (int e = 0; e < ne; e++) if ((lam == 1 ? q.col[e] : q.row[e]) == k) { const Fam& f = fam(o.kind); RM X(f.n, 2); for (int i = 0; i < f.n; i++) for (int z = 0; z < 2; z++) X(i, z) = q.x[q.el[e][i]](z); for (auto& p : points(f, X, o.rule)) wdt += p.w; D = Dof(E[e], V[e]); }
            ld a = D(0, 0), l = D(0, 1), m = D(2, 2); tot += wdt;
            ia += wdt / a; la += wdt * l / a; r += wdt * (a - l * l / a); im += wdt / m;
        }
        ia /= tot; la /= tot; r /= tot; im /= tot;
        RM L(3, 3); int p = lam == 1 ? 0 : 1, s = 1 - p;
        L(p, p) = 1 / ia; L(p, s) = L(s, p) = la / ia; L(s, s) = r + la * la / ia; L(2, 2) = 1 / im;
        cmp(c, "laminate", H, L * area, tol, o.name, dmax * area);
    }
    // characteristic displacements are periodic, and zero where pinned
    for (int k = 0; k < 3; k++) for (int i = 0; i < N; i++) for (int a = 0; a < 2; a++) if (chi[k][i](a) != chi[k][q.master[i]](a)) { c.expect("periodic-displacement", false, "paired nodes have different characteristic displacements"); k = 3; i = N; break; }
    c.expect("periodic-displacement", true);
    if (!spring && nr) for (int k = 0; k < 3; k++) { ld sc = 0; for (int i = 0; i < nr; i++) sc = std::max(sc, fabsl(chis(i, k)));
        for (int i = 0; i < N; i++) { int I = rid[q.master[i]]; for (int a = 0; a < 2; a++) c.near("characteristic-displacement", chi[k][i](a), I < 0 ? 0 : chis(I + a, k), 1e-7L * (1 + contrast) * (sc + 1e-6L * q.Lx), o.name); } }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_homog");
    component("P21.element", 1400, 60000, element);
    component("P21.uniform", 120, 5000, [](Case& c) { pipeline(c, 0); });
    component("P21.phases", 200, 12000, [](Case& c) { pipeline(c, 1); });
    component("P21.layers", 200, 12000, [](Case& c) { pipeline(c, 2); });
    return finish();
}
