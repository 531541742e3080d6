// P13 geometry, loads and interpolation; P17 mass and capacity matrices (scalar and solid elements)
#include <cassert>
#include "elas.hpp"
#include "src/FEM/Equation/HeatTransfer.h"
#include "src/FEM/Equation/Advection.h"
#include "src/FEM/Equation/ReactionDiffusion.h"
#include "src/FEM/Equation/Numeric.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::function<DV(DV)> VF;
typedef std::function<double(DV)> SFn;
struct Shape { std::string name; int kind; Rule rule;
    std::function<double(El&)> measure;
    // mass-like: name -> (matrix, unknowns per node, factor)
    std::function<void(int, DM&, NTE&, El&, const std::vector<int>&, const Mat&, double, double)> mass;
    std::function<void(int, DV&, NTE&, El&, const std::vector<int>&, VF, double)> body; };
static const char* massName[] = {"PlaneStrainMass", "PlaneStressMass", "HeatCapacity", "ReactionDiffusionConsistentMass", "ReactionDiffusionLumpedMass", "Mass"};
template <template <class> class SF, template <class> class IC> Shape plane(const std::string& n) {
    Shape s;
    s.name = n; s.kind = KindOf<SF>::k; s.rule = ruleOf<IC>();
    s.measure = [](El& e) { return Area<double, SF, IC>(e.x, e.e); };
    s.mass = [](int w, DM& M, NTE& t, El& e, const std::vector<int>& dl, const Mat& m, double rho, double cp) {
        switch (w) {
        case 0: PlaneStrainMass<double, SF, IC>(M, t, e.e, dl, e.x, rho, m.t); break;
        case 1: PlaneStressMass<double, SF, IC>(M, t, e.e, dl, e.x, rho, m.t); break;
        case 2: HeatCapacity<double, SF, IC>(M, t, e.e, dl, e.x, rho, cp, m.t); break;
        case 3: ReactionDiffusionConsistentMass<double, SF, IC>(M, t, e.e, dl, e.x); break;
        case 4: ReactionDiffusionLumpedMass<double, SF, IC>(M, t, e.e, dl, e.x); break;
        case 5: Mass<double, SF, IC>(M, t, e.e, dl, e.x); break;
        }
    };
    s.body = [](int w, DV& F, NTE& t, El& e, const std::vector<int>& dl, VF f, double th) {
        if (w == 0) PlaneStrainBodyForce<double, SF, IC>(F, t, e.e, dl, e.x, f, th);
        else PlaneStressBodyForce<double, SF, IC>(F, t, e.e, dl, e.x, f, th);
    };
    return s;
}
template <template <class> class SF, template <class> class IC> Shape solid(const std::string& n) {
    Shape s;
    s.name = n; s.kind = KindOf<SF>::k; s.rule = ruleOf<IC>();
    s.measure = [](El& e) { return Volume<double, SF, IC>(e.x, e.e); };
    return s;
}
static const std::vector<Shape>& shapes() {
    static std::vector<Shape> o;
    if (!o.empty()) return o;
    o.push_back(plane<ShapeFunction3Triangle, Gauss1Triangle>("T3,1"));
    o.push_back(plane<ShapeFunction3Triangle, Gauss3Triangle>("T3,3"));
    o.push_back(plane<ShapeFunction6Triangle, Gauss3Triangle>("T6,3"));
    o.push_back(plane<ShapeFunction4Square, Gauss1Square>("Q4,1"));
    o.push_back(plane<ShapeFunction4Square, Gauss4Square>("Q4,4"));
    o.push_back(plane<ShapeFunction8Square, Gauss4Square>("Q8,4"));
    o.push_back(plane<ShapeFunction8Square, Gauss9Square>("Q8,9"));
    o.push_back(solid<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>("Tet4,1"));
    o.push_back(solid<ShapeFunction8Cubic, Gauss8Cubic>("H8,8"));
    o.push_back(solid<ShapeFunction20Cubic, Gauss8Cubic>("H20,8"));
    o.push_back(solid<ShapeFunction20Cubic, Gauss27Cubic>("H20,27"));
    return o;
}
static ld exactMeasure(const El& el) { ld s = 0; for (auto& p : points(*el.f, el.X, fullRule(*el.f, 6))) s += p.w; return s; }
static ld ruleMeasure(const El& el, const Rule& r) { ld s = 0; for (auto& p : points(*el.f, el.X, r)) s += p.w; return s; }
static void measure(Case& c) {
    const Shape& s = shapes()[c.idx % shapes().size()];
    El el = makeEl(c, s.kind);
    c.describe(s.name);
    double got = s.measure(el);
    ld want = ruleMeasure(el, s.rule), ex = exactMeasure(el), rel = 1e-12L * el.slack();
    c.near("rule-measure", got, want, rel * want, s.name);
    if (fabsl(want - ex) <= 1e-13L * ex) { c.near("exact-measure", got, ex, rel * ex, s.name); c.count("exact"); }
    if ((s.kind == 23 || s.kind == 24)) {
        ld a = 0; int n = el.f->n;
        for (int i = 0; i < n; i++) { int j = (i + 1) % n; a += (el.X(i, 0) - el.X(0, 0)) * (el.X(j, 1) - el.X(0, 1)) - (el.X(j, 0) - el.X(0, 0)) * (el.X(i, 1) - el.X(0, 1)); }
        c.near("polygon-area", got, a / 2, rel * a, s.name);
    }
    // centre: mean of the element's nodes; needs node 0 of the list to exist with the right dimension only
    DV g = CenterOfGravity<double>(el.x, el.e);
    LV m = centre(el.X);
    ld sc = el.X.maxabs();
    c.expect("centre-size", g.SIZE() == el.X.c, "centre has wrong dimension");
    for (int k = 0; k < el.X.c && k < g.SIZE(); k++) c.near("centre", g(k), m[k], 1e-14L * sc * 4, s.name);
}
static VF field(Case& c, int d, std::vector<DV>* seen) {
    RM A(2, d), Q(2, d);
    LV b(2);
    bool constant = c.rng.chance(0.3), quadr = c.rng.chance(0.4);
    for (auto& v : b) v = c.rng.val();
    for (auto& v : A.a) v = constant ? 0 : c.rng.val();
    for (auto& v : Q.a) v = constant || !quadr ? 0 : c.rng.val();
    c.describe(constant ? "constant load" : quadr ? "quadratic load" : "linear load");
    return [=](DV x) { if (seen) seen->push_back(x); std::vector<double> o; for (int k = 0; k < 2; k++) { ld s = b[k]; for (int j = 0; j < d; j++) s += A(k, j) * x(j) + Q(k, j) * x(j) * x(j); o.push_back((double)s); } return DV(o); };
}
static LV ev(const VF& f, const LV& x) { return lv(f(DV(std::vector<double>(x.begin(), x.end())))); }
static void judgeLoad(Case& c, const std::string& who, const El& el, const Rule& r, DV F, const VF& f, ld t, int nd) {
    int n = el.f->n;
    if (!c.expect("load-size", F.SIZE() == nd * n, who + ": wrong size")) return;
    LV want(nd * n, 0), res(2, 0), rs(2, 0);
    ld mom = 0, moms = 0, mag = 0, momMag = 0, top = 0;
    for (int i = 0; i < n; i++) { LV x(el.X.c); for (int k = 0; k < el.X.c; k++) x[k] = el.X(i, k); for (auto v : ev(f, x)) top = std::max(top, fabsl(v)); }
    for (auto& p : points(*el.f, el.X, r)) {
        LV v = ev(f, p.x);
        for (int i = 0; i < n; i++) for (int k = 0; k < nd; k++) want[nd * i + k] += p.w * p.N[i] * v[k] * t;
        for (int k = 0; k < nd; k++) { res[k] += p.w * t * v[k]; mag += fabsl(p.w * t) * (fabsl(v[k]) + top); }
        if (nd == 2) { mom += p.w * t * (p.x[0] * v[1] - p.x[1] * v[0]); momMag += fabsl(p.w * t) * (fabsl(p.x[0] * v[1]) + fabsl(p.x[1] * v[0])); }
    }
    ld rel = 2e-12L * el.slack() * el.slack();
    for (int i = 0; i < nd * n; i++) c.near("load-distribution", F(i), want[i], rel * mag, cat(who, " component ", i));
    for (int k = 0; k < nd; k++) { ld s = 0; for (int i = 0; i < n; i++) s += F(nd * i + k); c.near("load-resultant", s, res[k], rel * mag, who); }
    if (nd == 2) { ld s = 0; for (int i = 0; i < n; i++) s += el.X(i, 0) * F(2 * i + 1) - el.X(i, 1) * F(2 * i); c.near("load-moment", s, mom, rel * (momMag + el.X.maxabs() * mag), who); }
}
static void bodyLoad(Case& c) {
    const Shape& s = shapes()[c.idx % 7];
    El el = makeEl(c, s.kind);
    int which = c.rng.range(0, 1);
    double t = c.rng.chance(0.3) ? 1 : c.rng.logu(0.01, 100);
    std::vector<DV> seen;
    VF f = field(c, 2, &seen), g = [&](DV x) { return f(x); };
    std::vector<int> dl = doulist(c, 2);
    DV F; NTE nte;
    if (c.rng.chance(0.5)) F = DV(3);
    s.body(which, F, nte, el, dl, g, t);
    std::string who = std::string(which ? "PlaneStressBodyForce/" : "PlaneStrainBodyForce/") + s.name;
    c.describe(who, " t=", t);
    checkMap(c, who, nte, el.f->n, dl, [](int i, int k) { return 2 * i + k; });
    judgeLoad(c, who, el, s.rule, F, f, t, 2);
    // constant load: exact force whenever the rule measures the element exactly
    ld ex = exactMeasure(el);
    if (fabsl(ruleMeasure(el, s.rule) - ex) <= 1e-13L * ex) {
        double bx = c.rng.val(), by = c.rng.val();
        s.body(which, F, nte, el, dl, [&](DV) { return DV({bx, by}); }, t);
        ld sx = 0, sy = 0;
        for (int i = 0; i < el.f->n; i++) { sx += F(2 * i); sy += F(2 * i + 1); }
        c.near("exact-resultant", sx, bx * ex * t, 1e-11L * el.slack() * ex * t * (fabs(bx) + fabs(by)), who);
        c.near("exact-resultant", sy, by * ex * t, 1e-11L * el.slack() * ex * t * (fabs(bx) + fabs(by)), who);
    }
}
struct LineOp { std::string name; int kind; Rule r; std::function<void(int, DV&, NTE&, El&, const std::vector<int>&, VF, double)> call;
    std::function<void(DM&, DV&, NTE&, El&, const std::vector<int>&, std::vector<DV>&, double, double)> press; std::function<double(El&, SFn)> numeric; };
template <template <class> class SF, template <class> class IC> LineOp line(const std::string& n) {
    LineOp o;
    o.name = n; o.kind = KindOf<SF>::k; o.r = ruleOf<IC>();
    o.call = [](int w, DV& F, NTE& t, El& e, const std::vector<int>& dl, VF f, double th) {
        if (w == 0) PlaneStrainSurfaceForce<double, SF, IC>(F, t, e.e, dl, e.x, f, th);
        else if (w == 1) PlaneStressSurfaceForce<double, SF, IC>(F, t, e.e, dl, e.x, f, th);
        else HeatTransferSurfaceFlux<double, SF, IC>(F, t, e.e, dl, e.x, [&](DV x) { return f(x)(0); }, th);
    };
    o.press = [](DM& K, DV& F, NTE& t, El& e, const std::vector<int>& dl, std::vector<DV>& u, double P, double th) { PlaneStrainSurfacePressureUpdatedLagrange<double, SF, IC>(K, F, t, e.e, dl, e.x, u, P, th); };
    o.numeric = [](El& e, SFn f) { return NumericIntegrationOnLine<double, SF, IC>(e.x, e.e, f); };
    return o;
}
static const std::vector<LineOp>& lines() {
    static std::vector<LineOp> o;
    if (!o.empty()) return o;
    o.push_back(line<ShapeFunction2Line, Gauss1Line>("L2,G1"));
    o.push_back(line<ShapeFunction2Line, Gauss2Line>("L2,G2"));
    o.push_back(line<ShapeFunction3Line, Gauss2Line>("L3,G2"));
    o.push_back(line<ShapeFunction2Line, NewtonCotes1Line>("L2,N1"));
    o.push_back(line<ShapeFunction2Line, NewtonCotes3Line>("L2,N3"));
    o.push_back(line<ShapeFunction3Line, NewtonCotes5Line>("L3,N5"));
    o.push_back(line<ShapeFunction3Line, NewtonCotes7Line>("L3,N7"));
    return o;
}
static void surfaceLoad(Case& c) {
    const LineOp& o = lines()[c.idx % lines().size()];
    El el = makeEl(c, o.kind, 2, o.kind == 13 ? -1 : 1);
    int which = c.rng.range(0, 2);
    double t = c.rng.chance(0.3) ? 1 : c.rng.logu(0.01, 100);
    VF f = field(c, 2, nullptr);
    std::vector<int> dl = doulist(c, which == 2 ? 1 : 2);
    DV F; NTE nte;
    if (c.rng.chance(0.5)) F = DV(5);
    o.call(which, F, nte, el, dl, f, t);
    std::string who = std::string(which == 0 ? "PlaneStrainSurfaceForce/" : which == 1 ? "PlaneStressSurfaceForce/" : "HeatTransferSurfaceFlux/") + o.name;
    c.describe(who, " t=", t);
    int nd = which == 2 ? 1 : 2;
    checkMap(c, who, nte, el.f->n, dl, [nd](int i, int k) { return nd * i + k; });
    judgeLoad(c, who, el, o.r, F, f, t, nd);
    // constant load on a straight edge: force = load times length
    if (o.kind == 12) {
        double q = c.rng.uni(0.5, 2);
        o.call(which, F, nte, el, dl, [&](DV) { return DV({q, -q}); }, t);
        ld L = hypotl(el.X(1, 0) - el.X(0, 0), el.X(1, 1) - el.X(0, 1)), s = 0;
        for (int i = 0; i < el.f->n; i++) s += F(nd * i);
        c.near("exact-resultant", s, q * t * L, 1e-11L * el.slack() * q * t * L, who);
    }
}
static void pressure(Case& c) {
    const LineOp& o = lines()[c.idx % lines().size()];
    El el = makeEl(c, o.kind, 2, o.kind == 13 ? -1 : 1);
    double t = c.rng.logu(0.01, 100), P = c.rng.val();
    int n = el.f->n;
    double nan = std::numeric_limits<double>::quiet_NaN();
    std::vector<DV> u(el.x.size(), DV({nan, nan}));
    RM x = el.X;
    for (int i = 0; i < n; i++) { double a = el.h * c.rng.uni(-0.3, 0.3), b = el.h * c.rng.uni(-0.3, 0.3); u[el.e[i]] = DV({a, b}); x(i, 0) += a; x(i, 1) += b; }
    std::vector<int> dl = doulist(c, 2);
    DM K; DV F; NTE nte;
    o.press(K, F, nte, el, dl, u, P, t);
    c.describe("pressure ", o.name, " P=", P);
    checkMap(c, o.name, nte, n, dl, [](int i, int k) { return 2 * i + k; });
    // pressure force: P t times the deformed edge rotated by 90 degrees, distributed by the shape functions
    LV w(2 * n, 0);
    for (size_t g = 0; g < o.r.p.size(); g++) { LV N = el.f->N(o.r.p[g]); RM d = el.f->dN(o.r.p[g]) * x; for (int i = 0; i < n; i++) { w[2 * i] += -P * t * N[i] * d(0, 1) * o.r.w[g]; w[2 * i + 1] += P * t * N[i] * d(0, 0) * o.r.w[g]; } }
    ld sc = fabs(P) * t * el.h * 4;
    for (int i = 0; i < 2 * n; i++) c.near("pressure-load", F(i), w[i], 1e-12L * el.slack() * sc + 1e-300L, o.name);
    ld rx = 0, ry = 0;
    for (int i = 0; i < n; i++) { rx += F(2 * i); ry += F(2 * i + 1); }
    c.near("pressure-resultant", rx, -P * t * (x(1, 1) - x(0, 1)), 1e-11L * el.slack() * sc + 1e-300L, o.name);
    c.near("pressure-resultant", ry, P * t * (x(1, 0) - x(0, 0)), 1e-11L * el.slack() * sc + 1e-300L, o.name);
}
static void numeric(Case& c) {
    const LineOp& o = lines()[c.idx % lines().size()];
    int dim = c.rng.range(1, 3); c.count(cat("line in ", dim, "-d space"));
    El el = makeEl(c, o.kind, dim, o.kind == 12 ? 1 : dim > 1 ? -1 : 3, 5);
    LV a(4);
    for (auto& v : a) v = c.rng.val();
    auto f = [&](DV x) { ld s = x(0), q = 0; for (int k = 0; k < dim; k++) q += x(k) * (k + 1); return (double)(a[0] + a[1] * s + a[2] * q * q + a[3] * std::cos((double)q / (1 + el.h))); };
    c.describe("line integral in ", dim, "-d space ", o.name);
    double got = o.numeric(el, f);
    ld want = 0, mag = 0;
    for (size_t g = 0; g < o.r.p.size(); g++) { LV N = el.f->N(o.r.p[g]); RM d = el.f->dN(o.r.p[g]) * el.X; DV x(dim); ld dl = 0; for (int k = 0; k < dim; k++) { ld s = 0; for (int i = 0; i < el.f->n; i++) s += N[i] * el.X(i, k); x(k) = (double)s; dl += d(0, k) * d(0, k); } ld v = f(x) * sqrtl(dl) * o.r.w[g]; want += v; mag += fabsl(v); }
    ld top = 0; for (int i = 0; i < el.f->n; i++) { DV x(dim); for (int k = 0; k < dim; k++) x(k) = (double)el.X(i, k); ld q = 0; for (int k = 0; k < dim; k++) q += fabsl(el.X(i, k)) * (k + 1); top = std::max(top, fabsl(a[0]) + fabsl(a[1]) * q + fabsl(a[2]) * q * q + fabsl(a[3]) * (1 + q / (1 + el.h))); }
    c.near("line-integral", got, want, 2e-12L * el.slack() * (mag + el.h * (top + 1)), o.name);
    double one = o.numeric(el, [](DV) { return 1.0; });
    ld L = 0; for (int k = 0; k < dim; k++) L += powl(el.X(1, k) - el.X(0, k), 2); L = sqrtl(L);
    if (o.kind == 12) c.near("length", one, L, 1e-12L * el.slack() * L, o.name);
}
static void interp(Case& c) {
    Rng& g = c.rng;
    int nn = g.range(1, 20), ne = g.range(1, 15);
    std::vector<std::vector<int>> els;
    std::vector<int> used(nn, 0);
    for (int e = 0; e < ne; e++) { std::vector<int> p(nn); for (int i = 0; i < nn; i++) p[i] = i; g.shuffle(p); p.resize(g.range(1, std::min(nn, 9))); els.push_back(p); for (int i : p) used[i]++; }
    for (int i = 0; i < nn; i++) if (!used[i]) { els.push_back({i}); used[i]++; }
    ne = els.size();
    std::vector<double> ue(ne), un(nn);
    std::vector<DV> ve, vn;
    int d = g.range(1, 4);
    for (auto& v : ue) { v = g.val(); c.input(v); }
    for (auto& v : un) { v = g.val(); c.input(v); }
    auto rv = [&]() { std::vector<double> p; for (int k = 0; k < d; k++) p.push_back(g.val()); return DV(p); };
    for (int i = 0; i < ne; i++) ve.push_back(rv());
    for (int i = 0; i < nn; i++) vn.push_back(rv());
    c.describe(nn, " nodes ", ne, " elements");
    auto a = InterpolateNodalFromElemental(nn, 0.0, ue, els);
    auto b = InterpolateElementalFromNodal(0.0, un, els);
    auto va = InterpolateNodalFromElemental(nn, DV(d), ve, els);
    auto vb = InterpolateElementalFromNodal(DV(d), vn, els);
    c.expect("interpolation-size", (int)a.size() == nn && (int)b.size() == ne && (int)va.size() == nn && (int)vb.size() == ne, "result sizes");
    for (int i = 0; i < nn; i++) {
        ld s = 0, m = 0; LV vs(d, 0);
        for (int e = 0; e < ne; e++) for (int j : els[e]) if (j == i) { s += ue[e]; m += fabs(ue[e]); for (int k = 0; k < d; k++) vs[k] += ve[e](k); }
        c.near("nodal-average", a[i], s / used[i], 1e-14L * (m + 1), "nodal value");
        for (int k = 0; k < d; k++) c.near("nodal-average", va[i](k), vs[k] / used[i], 1e-11L, "nodal vector");
    }
    for (int e = 0; e < ne; e++) {
        ld s = 0; LV vs(d, 0);
        for (int j : els[e]) { s += un[j]; for (int k = 0; k < d; k++) vs[k] += vn[j](k); }
        c.near("elemental-average", b[e], s / els[e].size(), 1e-11L, "elemental value");
        for (int k = 0; k < d; k++) c.near("elemental-average", vb[e](k), vs[k] / els[e].size(), 1e-11L, "elemental vector");
    }
    // element vectors: gather through arbitrary maps
    int groups = g.range(1, 3), row = 0;
    std::vector<std::vector<int>> ge; std::vector<NTE> gt;
    std::vector<std::tuple<int, int, int>> want;
    for (int q = 0; q < groups; q++) { auto e = g.pick(els); NTE t; for (int i : e) { std::vector<std::pair<int, int>> l; std::vector<int> ks; for (int k = 0; k < d; k++) if (g.chance(0.7)) ks.push_back(k); g.shuffle(ks); for (int k : ks) { l.push_back({k, row}); want.push_back({i, k, row}); row++; } t.push_back(l); } ge.push_back(e); gt.push_back(t); }
    std::vector<int> perm(row); for (int i = 0; i < row; i++) perm[i] = i; g.shuffle(perm);
    for (auto& t : gt) for (auto& l : t) for (auto& p : l) p.second = perm[p.second];
    if (row > 0) {
        DV v = ElementVector(vn, gt, ge);
        c.expect("element-vector-size", v.SIZE() == row, "size of mixed element vector");
        for (auto& w : want) c.expect("element-vector", v(perm[std::get<2>(w)]) == vn[std::get<0>(w)](std::get<1>(w)), "mixed element vector entry");
    }
    // single group
    auto e = g.pick(els); NTE t; int r = 0;
    bool rev = g.chance(0.5);
    for (int i = 0; i < (int)e.size(); i++) { std::vector<std::pair<int, int>> l; for (int k = 0; k < d; k++) l.push_back({k, rev ? (int)e.size() * d - 1 - r : r}), r++; t.push_back(l); }
    DV v1 = ElementVector(vn, t, e);
    c.expect("element-vector-size", v1.SIZE() == r, "size of element vector");
    for (int i = 0; i < (int)e.size(); i++) for (auto& p : t[i]) c.expect("element-vector", v1(p.second) == vn[e[i]](p.first), "element vector entry");
    // Lagrange polynomials on arbitrary distinct abscissae
    int m = g.range(1, 6);
    std::vector<double> xs;
    for (int i = 0; i < m; i++) xs.push_back(i * 0.8 + g.uni(-0.25, 0.25));
    g.shuffle(xs);
    double x = g.chance(0.3) ? xs[g.range(0, m - 1)] : g.uni(-1, 5);
    auto L = LagrangeInterpolation(xs, x), dL = LagrangeInterpolationDerivative(xs, x);
    c.expect("lagrange-size", (int)L.size() == m && (int)dL.size() == m, "size");
    for (int p = 0; p < m; p++) { ld s = 0, ds = 0, mag = 1, dmag = 1; for (int i = 0; i < m; i++) { s += L[i] * powl(xs[i], p); mag += fabsl(L[i] * powl(xs[i], p)); ds += dL[i] * powl(xs[i], p); dmag += fabsl(dL[i] * powl(xs[i], p)); } c.near("lagrange-reproduces", s, powl(x, p), 1e-11L * mag, "value"); c.near("lagrange-derivative", ds, p ? p * powl(x, p - 1) : 0, 1e-11L * dmag, "derivative"); }
}
static void mass(Case& c) {
    int which = c.rng.range(0, 5);
    const Shape& s = shapes()[c.idx % 7];
    El el = makeEl(c, s.kind);
    Mat m = material(c);
    double rho = c.rng.logu(1e-3, 1e4), cp = c.rng.logu(1e-3, 1e4);
    int nd = which < 2 ? 2 : 1, n = el.f->n;
    std::string who = std::string(massName[which]) + "/" + s.name;
    c.describe(who, " rho=", rho, " t=", m.t);
    c.count(who);
    std::vector<int> dl = doulist(c, nd);
    DM M; NTE nte;
    if (c.rng.chance(0.5)) M = DM(4, 2);
    s.mass(which, M, nte, el, dl, m, rho, cp);
    checkMap(c, who, nte, n, dl, [nd](int i, int k) { return nd * i + k; });
    RM G = rm(M);
    ld fac = which < 2 ? (ld)rho * m.t : which == 2 ? (ld)rho * cp * m.t : 1, A = ruleMeasure(el, s.rule), ex = exactMeasure(el), rel = 1e-11L * el.slack();
    bool exact = fabsl(A - ex) <= 1e-13L * ex;
    if (!c.expect("mass-shape", G.r == n * nd && G.c == n * nd, who)) return;
    RM W(n * nd, n * nd);
    if (which == 4) for (int i = 0; i < n; i++) W(i, i) = A / n;
    else for (auto& p : points(*el.f, el.X, s.rule)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < nd; k++) W(nd * i + k, nd * j + k) += fac * p.w * p.N[i] * p.N[j];
    if (which != 4) cmp(c, "mass-integral", G, W, rel, who);
    ld mx = G.maxabs();
    c.near("mass-symmetry", (G - G.T()).maxabs(), 0, 1e-13L * mx, who);
    for (int k = 0; k < nd; k++) {
        ld tot = 0, cross = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += G(nd * i + k, nd * j + k); if (nd == 2) cross += fabsl(G(nd * i + k, nd * j + 1 - k)); }
        c.near("total-mass", tot, fac * (exact ? ex : A), rel * fac * A * n, who);
        if (exact) c.count("exact-total");
        c.near("uncoupled-unknowns", cross, 0, rel * mx, who);
    }
    if (which == 4) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) c.near("lumped-diagonal", G(i, j), 0, 0, who); }
    LV w = jacobi(G);
    c.near("mass-semidefinite", std::min<ld>(w[0], 0), 0, rel * w.back(), who);
    bool full = which == 4 || (s.name == "T3,3" || s.name == "Q4,4" || s.name == "Q8,9");
    if (full) c.expect("mass-definite", w[0] > 1e-8L * w.back(), cat(who, " smallest eigenvalue ratio ", (double)(w[0] / w.back())));
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_geom");
    component("P13.measure", 11 * 60, 11 * 2000, measure);
    component("P13.body", 7 * 60, 7 * 2000, bodyLoad);
    component("P13.surface", 7 * 60, 7 * 2000, surfaceLoad);
    component("P13.pressure", 7 * 30, 7 * 1000, pressure);
    component("P13.numeric", 7 * 60, 7 * 1000, numeric);
    component("P13.interpolation", 300, 10000, interp);
    component("P17.mass", 7 * 100, 7 * 3000, mass);
    return finish();
}
