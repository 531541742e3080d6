// P31 design analyses: filter -> material interpolation -> assembly -> solve -> reactions -> element sensitivities
// -> filter adjoint -> optimiser, observed against an independent long-double model of the same design problem
#include "bvp.hpp"
#include "src/FEM/Equation/General.h"
#include "src/FEM/Equation/Truss.h"
#include "src/Optimize/Filter/DensityFilter.h"
#include "src/Optimize/Filter/HeavisideFilter.h"
#include "src/Optimize/Solver/MMA.h"
#include "src/Optimize/Solver/CONLIN.h"
#include "src/Optimize/Solver/OC.h"
#include <numeric>
typedef std::vector<double> D1;

// stiffness of element e = k(rho_e) * unit matrix, rho = filtered design
struct Design {
    Msh m;
    int nd = 2, n = 0;
    std::string name;
    Fix fixed, load;
    std::function<void(DM&, NTE&, int, double)> lib;      // element matrix for a factor
    std::vector<RM> unit;                                 // reference, factor one
    D1 vol;
    double p = 1, k0 = 1e-2, k1 = 1, scale = 1, limit = 0.5;
    bool filtered = false;
    double beta = 0;                                      // > 0: projection filter
    std::vector<std::vector<int>> nb;
    std::vector<D1> w;
    double k(double r) const { return k1 * std::pow(r, p) + k0 * (1.0 - std::pow(r, p)); }
    double dk(double r) const { return p * (k1 - k0) * std::pow(r, p - 1.0); }
    double total() const { double t = 0; for (double v : vol) t += v; return t; }
};
struct Value { double f, g; D1 dfds, dgds, rho; std::vector<DV> u, r; };

// ---- the pipeline of the shipped design programs
static Value evaluate(Case& c, Design& d, const D1& s) {
    Value o;
    int nn = d.m.x.size();
    DensityFilter<double> df(d.n, d.nb, d.w);
    HeavisideFilter<double> hf(d.n, d.nb, d.w);
    if (d.beta > 0) hf.UpdateBeta(d.beta);
    o.rho = !d.filtered ? s : d.beta > 0 ? hf.GetFilteredVariables(s) : df.GetFilteredVariables(s);
    D1 dfdrho(d.n), dgdrho(d.n);
    o.g = -1;
    for (int i = 0; i < d.n; i++) { o.g += o.rho[i] * d.vol[i] / (d.limit * d.total()); dgdrho[i] = d.vol[i] / (d.limit * d.total()); }
    o.u.assign(nn, DV(d.nd));
    IM ntg(nn, std::vector<int>(d.nd, 0));
    SetDirichlet(o.u, ntg, d.fixed);
    int N = Renumbering(ntg);
    LILCSR<double> K(N, N);
    D1 F(N, 0.0);
    for (int i = 0; i < d.n; i++) { NTE t; DM Ke; d.lib(Ke, t, i, d.k(o.rho[i])); Assembling(K, F, o.u, Ke, ntg, t, d.m.el[i]); }
    Assembling(F, d.load, ntg);
    D1 x = solve(c, K, F, 0);
    Disassembling(o.u, x, ntg);
    RemoveBoundaryConditions(ntg);
    N = Renumbering(ntg);
    D1 RF(N, 0.0);
    o.r.assign(nn, DV(d.nd));
    for (int i = 0; i < d.n; i++) {
        NTE t; DM Ke; d.lib(Ke, t, i, d.k(o.rho[i]));
        DV q = Ke * ElementVector(o.u, t, d.m.el[i]);
        Assembling(RF, q, ntg, t, d.m.el[i]);
    }
    Disassembling(o.r, RF, ntg);
    o.f = d.scale * std::inner_product(o.u.begin(), o.u.end(), o.r.begin(), 0.0);
    for (int i = 0; i < d.n; i++) {
        NTE t; DM Ke; d.lib(Ke, t, i, 1.0);
        DV ue = ElementVector(o.u, t, d.m.el[i]);
        dfdrho[i] = -d.scale * d.dk(o.rho[i]) * (ue * (Ke * ue));
    }
    o.dfds = !d.filtered ? dfdrho : d.beta > 0 ? hf.GetFilteredSensitivitis(s, dfdrho) : df.GetFilteredSensitivitis(s, dfdrho);
    o.dgds = !d.filtered ? dgdrho : d.beta > 0 ? hf.GetFilteredSensitivitis(s, dgdrho) : df.GetFilteredSensitivitis(s, dgdrho);
    return o;
}
// ---- the model
static LV filterOf(const Design& d, const LV& s) {
    if (!d.filtered) return s;
    LV r(d.n);
    for (int i = 0; i < d.n; i++) {
        ld a = 0, b = 0;
        for (size_t j = 0; j < d.nb[i].size(); j++) { a += (ld)d.w[i][j] * s[d.nb[i][j]]; b += d.w[i][j]; }
        r[i] = a / b;
        if (d.beta > 0) r[i] = 0.5L * (tanhl(d.beta / 2.0L) + tanhl(d.beta * (r[i] - 0.5L))) / tanhl(d.beta / 2.0L);
    }
    return r;
}
static LV displacement(const Design& d, const LV& rho) {
    Sys R(d.m.x.size(), d.nd);
    R.fixed(d.fixed);
    for (int i = 0; i < d.n; i++) { ld rp = powl(rho[i], d.p); R.add(d.unit[i] * (d.k1 * rp + d.k0 * (1 - rp)), d.m.el[i]); }
    for (auto& q : d.load) R.F[q.first.first * d.nd + q.first.second] += q.second;
    return R.solve();
}
static ld compliance(const Design& d, const LV& s, LV* out = nullptr) {
    LV u = displacement(d, filterOf(d, s));
    ld f = 0;
    for (auto& q : d.load) f += q.second * u[q.first.first * d.nd + q.first.second];
    if (out) *out = u;
    return d.scale * f;
}
static ld volume(const Design& d, const LV& s) { LV r = filterOf(d, s); ld g = -1; for (int i = 0; i < d.n; i++) g += r[i] * d.vol[i] / ((ld)d.limit * d.total()); return g; }

static void neighbours(Case& c, Design& d) {
    Rng& g = c.rng;
    d.nb.assign(d.n, {}); d.w.assign(d.n, {});
    double R = g.uni(0.1, 0.7) * d.m.size;
    std::vector<DV> cg(d.n);
    for (int i = 0; i < d.n; i++) cg[i] = CenterOfGravity(d.m.x, d.m.el[i]);
    for (int i = 0; i < d.n; i++) for (int j = 0; j < d.n; j++) { double q = (cg[i] - cg[j]).Norm(); if (i == j || q < R) { d.nb[i].push_back(j); d.w[i].push_back((R - q) / R); } }
    d.filtered = true;
}
static void loads(Case& c, Design& d, double amp) {
    Rng& g = c.rng;
    std::set<std::pair<int, int>> held, used;
    for (auto& q : d.fixed) held.insert(q.first);
    int k = g.range(1, 4);
    for (int t = 0; t < 60 && (int)used.size() < k; t++) { std::pair<int, int> p(g.range(0, (int)d.m.x.size() - 1), g.range(0, d.nd - 1)); if (!held.count(p) && used.insert(p).second) d.load.push_back({p, amp * g.sgn() * g.uni(0.3, 1)}); }
    d.limit = g.uni(0.3, 0.7);
}
// what: 0 elasticity, 1 heat conduction, 2 truss
static bool makeDesign(Case& c, Design& d, int what, int maxel) {
    Rng& g = c.rng;
    for (int t = 0; ; t++) { if (what == 2) break; d.m = mesh2(c); if ((int)d.m.el.size() <= maxel && (int)d.m.x.size() <= 45 && d.m.el.size() >= 2) break; if (t > 30) return false; }
    d.k0 = g.chance(0.5) ? g.logu(1e-3, 1e-1) : 0.0; d.k1 = 1;
    if (what == 0) {
        std::vector<const Op*> ops;
        for (auto& o : continuum()) if (o.kind == d.m.kind && o.full && !o.affineOnly) ops.push_back(&o);
        const Op* op = ops[g.range(0, (int)ops.size() - 1)];
        Mat mt = material(c, false);
        if (mt.V < -0.5) mt.V = -0.5;
        if (mt.V > 0.42) mt.V = 0.42;
        double E = mt.E;
        if (op->law >= 3) userMatrix(c, mt, op->law == 4 || g.chance(0.5));
        d.nd = 2; d.name = d.m.name + ", " + op->name; c.count(op->name);
        for (auto& e : d.m.el) d.unit.push_back(op->ref(elOf(d.m, e), mt));
        Design* q = &d;
        d.lib = [q, op, mt, E](DM& Ke, NTE& t, int i, double f) { Mat m2 = mt; m2.E = E * f; if (op->law >= 3) m2.D = m2.D * f; El el = elOf(q->m, q->m.el[i]); op->call(Ke, t, el, {0, 1}, m2); };
        d.fixed = constrain(c, d.m, 2, false, true, [](int, int) { return 0.0; });
        loads(c, d, E * mt.t * 0.01);
    } else if (what == 1) {
        double al = g.logu(1e-2, 1e3), th = g.logu(0.1, 10);
        d.nd = 1; d.name = d.m.name + ", heat conduction"; c.count("heat");
        Rule rl = d.m.kind == 23 ? ruleOf<Gauss1Triangle>() : d.m.kind == 26 ? ruleOf<Gauss3Triangle>() : d.m.kind == 28 ? ruleOf<Gauss9Square>() : ruleOf<Gauss4Square>();
        for (auto& e : d.m.el) { El el = elOf(d.m, e); int n = e.size(); RM k(n, n); for (auto& p : points(*el.f, el.X, rl)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int a = 0; a < 2; a++) k(i, j) += p.w * al * th * p.dN(a, i) * p.dN(a, j); d.unit.push_back(k); }
        Design* q = &d;
        d.lib = [q, al, th](DM& Ke, NTE& t, int i, double f) {
            auto& e = q->m.el[i]; auto& x = q->m.x;
            if (q->m.kind == 23) HeatTransfer<double, ShapeFunction3Triangle, Gauss1Triangle>(Ke, t, e, {0}, x, al * f, th);
            else if (q->m.kind == 26) HeatTransfer<double, ShapeFunction6Triangle, Gauss3Triangle>(Ke, t, e, {0}, x, al * f, th);
            else if (q->m.kind == 28) HeatTransfer<double, ShapeFunction8Square, Gauss9Square>(Ke, t, e, {0}, x, al * f, th);
            else HeatTransfer<double, ShapeFunction4Square, Gauss4Square>(Ke, t, e, {0}, x, al * f, th);
        };
        d.fixed = constrain(c, d.m, 1, false, false, [](int, int) { return 0.0; });
        loads(c, d, al * th);
    } else {
        int nx = g.range(1, 3), ny = g.range(1, 3);
        double X = g.uni(1, 4), Y = g.uni(1, 4), E = g.logu(1, 1e5), reach = std::sqrt(X * X / nx / nx + Y * Y / ny / ny) * g.uni(1.05, 1.6);
        GrandStructure2D<double> s(X, Y, nx, ny, reach);
        d.m.x = s.GenerateNodes(); d.m.el = s.GenerateElements(); d.m.size = std::max(X, Y); d.m.kind = 12; d.m.name = "GrandStructure2D"; d.nd = 2; d.name = "truss"; c.count("truss");
        if ((int)d.m.el.size() > maxel) return false;
        g.shuffle(d.m.el);
        for (size_t i = 0; i < d.m.x.size(); i++) d.m.bn.insert(i);
        for (auto& e : d.m.el) { DV a = d.m.x[e[0]], b = d.m.x[e[1]]; ld dx = (ld)b(0) - a(0), dy = (ld)b(1) - a(1), l = sqrtl(dx * dx + dy * dy), q[4] = {-dx / l, -dy / l, dx / l, dy / l}; RM k(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) k(i, j) = E / l * q[i] * q[j]; d.unit.push_back(k); }
        Design* q = &d;
        d.lib = [q, E](DM& Ke, NTE& t, int i, double f) { Truss2D<double>(Ke, t, q->m.el[i], {0, 1}, q->m.x, E, f); };
        d.fixed = constrain(c, d.m, 2, false, true, [](int, int) { return 0.0; });
        loads(c, d, E * 0.01);
    }
    d.n = d.m.el.size();
    if (d.load.empty()) return false;
    for (int i = 0; i < d.n; i++) {
        if (what == 2) { DV a = d.m.x[d.m.el[i][1]] - d.m.x[d.m.el[i][0]]; d.vol.push_back(a.Norm()); continue; }
        double v = 0; auto& e = d.m.el[i]; int nc = d.m.kind == 23 || d.m.kind == 26 ? 3 : 4;
        for (int a = 0; a < nc; a++) { DV p = d.m.x[e[a]], r = d.m.x[e[(a + 1) % nc]]; v += 0.5 * (p(0) * r(1) - p(1) * r(0)); }
        d.vol.push_back(v);
    }
    return true;
}
static void observe(Case& c, Design& d, const D1& s) {
    Rng& g = c.rng;
    Value v = evaluate(c, d, s);
    LV sl(s.begin(), s.end()), u;
    ld f = compliance(d, sl, &u), fa = std::max(fabsl(f), 1e-30L);
    if (!c.expect("finite", std::isfinite(v.f), d.name + ": compliance is not finite")) return;
    c.near("compliance", v.f / fa, f / fa, 1e-6L, d.name + ": compliance (relative)");
    compare(c, "displacement", v.u, u, d.nd, 1e-6L, d.name + ": displacements (relative)");
    c.near("weight", v.g, volume(d, sl), 1e-9L * (1 + 1 / d.limit), d.name + ": weight constraint");
    if (d.filtered && d.beta > 0) return;       // sensitivities of the projection filter: P25
    // full gradient from the model: dK/ds by the chain rule
    LV rho = filterOf(d, sl), dr(d.n), gr(d.n, 0);
    for (int i = 0; i < d.n; i++) {
        ld e = 0; auto& el = d.m.el[i]; int m = el.size() * d.nd;
        for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) e += d.unit[i](a, b) * u[el[a / d.nd] * d.nd + a % d.nd] * u[el[b / d.nd] * d.nd + b % d.nd];
        dr[i] = -(ld)d.scale * d.p * (d.k1 - d.k0) * powl(rho[i], d.p - 1) * e;
    }
    if (d.filtered) for (int i = 0; i < d.n; i++) { ld b = 0; for (double q : d.w[i]) b += q; for (size_t j = 0; j < d.nb[i].size(); j++) gr[d.nb[i][j]] += dr[i] * d.w[i][j] / b; }
    else gr = dr;
    ld gm = 1e-30L, worst = 0; for (ld q : gr) gm = std::max(gm, fabsl(q));
    for (int i = 0; i < d.n; i++) { worst = std::max(worst, fabsl(v.dfds[i] - gr[i]) / gm); c.expect("descent", v.dfds[i] <= 1e-9L * gm, cat(d.name, ": more material raises the compliance, sensitivity ", v.dfds[i])); }
    c.near("gradient", worst, 0, 1e-5L, d.name + ": compliance sensitivities differ from the derivative (relative)");
    // and from differences of the compliance itself
    for (int k = 0; k < 2; k++) {
        LV a = sl, b = sl; D1 dir(d.n); ld h = 1e-5L, want, got = 0, wg, gg = 0, sz = 0;
        for (int i = 0; i < d.n; i++) { dir[i] = k == 0 && d.n > 1 ? 0 : g.uni(-1, 1); }
        if (k == 0) dir[g.range(0, d.n - 1)] = 1;
        for (int i = 0; i < d.n; i++) { a[i] += h * dir[i]; b[i] -= h * dir[i]; got += v.dfds[i] * dir[i]; gg += v.dgds[i] * dir[i]; sz += fabsl(gr[i] * dir[i]); }
        want = (compliance(d, a) - compliance(d, b)) / (2 * h); wg = (volume(d, a) - volume(d, b)) / (2 * h);
        c.near("difference-quotient", (got - want) / (sz + 1e-3L * gm), 0, 2e-5L, d.name + ": directional derivative of the compliance (relative)");
        c.near("weight-difference-quotient", gg, wg, 1e-8L * (1 + 1 / d.limit), d.name + ": directional derivative of the weight");
    }
}
static void sensitivity(Case& c, int what) {
    Rng& g = c.rng;
    Design d;
    if (!makeDesign(c, d, what, 20)) { c.boring(); return; }
    d.p = what == 2 && g.chance(0.5) ? 1 : g.chance(0.3) ? 1 : g.uni(1, 4);
    d.scale = g.chance(0.5) ? 1 : g.logu(1e-4, 1e5);
    if (what != 2 && g.chance(0.7)) neighbours(c, d);
    if (what == 2 && g.chance(0.2)) neighbours(c, d);
    if (d.filtered && g.chance(0.2)) d.beta = g.uni(0.5, 8);
    D1 s(d.n);
    int pat = g.range(0, 2);
    for (auto& v : s) v = pat == 0 ? 0.5 : g.uni(0.15, 1);
    c.describe(d.name, ", ", d.n, " elements, penalty ", d.p, d.filtered ? d.beta > 0 ? ", projected" : ", filtered" : "", ", ", d.load.size(), " loads");
    c.inputs(s);
    if (d.filtered) c.count(d.beta > 0 ? "projected" : "filtered");
    observe(c, d, s);
    // the design is data: evaluating another one in between changes nothing
    if (g.chance(0.3)) { D1 t = s; g.shuffle(t); Value a = evaluate(c, d, t); Value b = evaluate(c, d, s); Value e = evaluate(c, d, s); ld fs = std::max(fabsl(b.f), 1e-30L); (void)a; c.near("repeatable", b.f / fs, e.f / fs, 1e-6L, d.name + ": the same design evaluated twice"); }
}
// lower bound of a convex function with gradient gr at s over the feasible box with one linear constraint
static ld bound(const LV& gr, const D1& s, const D1& dg, double g0, double lo, double hi) {
    int n = s.size(); LV y(n); ld room = -g0, val = 0;
    for (int i = 0; i < n; i++) { y[i] = lo; room += dg[i] * (s[i] - lo); }
    std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int a, int b) { return gr[a] / dg[a] < gr[b] / dg[b]; });
    for (int i : o) { if (gr[i] >= 0 || room <= 0) break; ld t = std::min<ld>(hi - lo, room / dg[i]); y[i] += t; room -= t * dg[i]; }
    for (int i = 0; i < n; i++) val += gr[i] * (y[i] - s[i]);
    return val;
}
static void designloop(Case& c) {
    Rng& g = c.rng;
    Design d;
    int what = g.range(0, 2), solver = g.range(0, 2);
    if (!makeDesign(c, d, what, 24)) { c.boring(); return; }
    d.p = 1; d.k0 = g.logu(1e-3, 1e-1);
    if (what != 2 && g.chance(0.4)) neighbours(c, d);
    double lo = solver == 2 ? 0.0 : 0.01, hi = 1.0;
    // a start that meets the constraint: every element at the allowed fraction
    D1 s(d.n, d.limit);
    if (g.chance(0.4)) { for (auto& v : s) v = d.limit * g.uni(0.6, 1); }
    static const char* nm[] = {"MMA", "CONLIN", "OC"};
    c.describe(nm[solver], ", ", d.name, ", ", d.n, " elements", d.filtered ? ", filtered" : "", ", weight limit ", d.limit); c.count(nm[solver]); c.inputs(s);
    LV s0(s.begin(), s.end()); d.scale = 1; ld f0 = compliance(d, s0); if (!(f0 > 0)) { c.boring(); return; } double unit = solver == 2 && g.chance(0.75) ? g.logu(1e-9, 1e4) : 1;    // the units of the compliance are the user's choice
    d.scale = (double)(10 * unit / f0); f0 = 10 * unit;
    MMA<double> mma(d.n, 1, 1.0, {0.0}, {10000.0}, {0.0}, D1(d.n, lo), D1(d.n, hi));
    CONLIN<double> con(d.n, 1, 1.0, {0.0}, {10000.0}, {0.0}, D1(d.n, lo), D1(d.n, hi));
    double eps = g.chance(0.5) ? 1e-7 : g.logu(1e-7, 1e-3);      // tolerance of the multiplier search
    OC<double> oc(d.n, 0.5, 0.0, 1e7, eps, g.uni(0.15, 0.5), D1(d.n, lo), D1(d.n, hi));
    int its = 40; ld best = 1e300L, fbest = 1e300L;
    for (int k = 0; k < its; k++) {
        Value v = evaluate(c, d, s);
        if (!c.expect("loop-finite", std::isfinite(v.f), cat(nm[solver], ", ", d.name, ": objective of update ", k, " is not finite"))) return;
        D1 before = s;
        if (solver == 0) mma.UpdateVariables(s, v.f, v.dfds, {v.g}, {v.dgds});
        else if (solver == 1) con.UpdateVariables(s, v.f, v.dfds, {v.g}, {v.dgds});
        else oc.UpdateVariables(s, v.f, v.dfds, v.g, v.dgds, [&](D1 t) { LV q(t.begin(), t.end()); return (double)volume(d, q); });
        bool in = true; for (double q : s) if (!(q >= lo - 1e-9 && q <= hi + 1e-9)) in = false;
        if (!c.expect("bounds", in, cat(nm[solver], ", ", d.name, ": update ", k, " left the bounds"))) return;
        if (v.g < std::max(1e-3, 4 * eps)) { best = std::min(best, -bound(LV(v.dfds.begin(), v.dfds.end()), before, v.dgds, v.g, lo, hi) / v.f); fbest = std::min<ld>(fbest, v.f); }
    }
    LV sl(s.begin(), s.end());
    c.near("feasible", std::max<ld>(volume(d, sl), 0), 0, 1e-3L + (solver == 2 ? 4 * eps : 0), cat(nm[solver], ", ", d.name, ": final design exceeds the weight limit"));
    c.expect("improves", fbest <= f0 * (1 + 1e-9L), cat(nm[solver], ", ", d.name, ": least compliance reached ", (double)fbest, ", initial ", (double)f0));
    c.near(cat("optimality-gap-", nm[solver]).c_str(), best, 0, 0.05L, cat(nm[solver], ", ", d.name, ": certified distance of the best design from the least compliance (relative)"));
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_loop");
    component("P31.elastic", 400, 12000, [](Case& c) { sensitivity(c, 0); });
    component("P31.heat", 400, 12000, [](Case& c) { sensitivity(c, 1); });
    component("P31.truss", 600, 16000, [](Case& c) { sensitivity(c, 2); });
    component("P31.design", 100, 4000, designloop);
    return finish();
}
