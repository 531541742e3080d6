// P19 scalar transport elements; P16.thermal frame and numbering independence of scalar elements
#include <cassert>
#include "elas.hpp"
#include "src/FEM/Equation/HeatTransfer.h"
#include "src/FEM/Equation/Advection.h"
#include "src/FEM/Equation/ReactionDiffusion.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::function<double(double, DV)> React;
struct TOp { std::string name; int kind; Rule rule;
    // 0 HeatTransfer 1 Diffusion 2 ReactionDiffusionStiffness 3 Advection 4 AdvectionSUPG 5 ShockCapturing 6 MassSUPG 7 Mass 8 HeatCapacity
    std::function<void(int, DM&, NTE&, El&, const std::vector<int>&, double, double, double, double)> call;
    std::function<void(DV&, NTE&, El&, const std::vector<int>&, std::vector<DV>&, React)> react; };
static const char* nm[] = {"HeatTransfer", "Diffusion", "ReactionDiffusionStiffness", "Advection", "AdvectionSUPG", "AdvectionShockCapturing", "MassSUPG", "Mass", "HeatCapacity"};
template <template <class> class SF, template <class> class IC> TOp op(const std::string& n) {
    TOp o;
    o.name = n; o.kind = KindOf<SF>::k; o.rule = ruleOf<IC>();
    o.call = [](int w, DM& K, NTE& t, El& e, const std::vector<int>& dl, double k, double th, double ax, double ay) {
        switch (w) {
        case 0: HeatTransfer<double, SF, IC>(K, t, e.e, dl, e.x, k, th); break;
        case 1: Diffusion<double, SF, IC>(K, t, e.e, dl, e.x, k); break;
        case 2: ReactionDiffusionStiffness<double, SF, IC>(K, t, e.e, dl, e.x, k); break;
        case 3: Advection<double, SF, IC>(K, t, e.e, dl, e.x, ax, ay); break;
        case 4: AdvectionSUPG<double, SF, IC>(K, t, e.e, dl, e.x, ax, ay, k); break;
        case 5: AdvectionShockCapturing<double, SF, IC>(K, t, e.e, dl, e.x, ax, ay, k); break;
        case 6: MassSUPG<double, SF, IC>(K, t, e.e, dl, e.x, ax, ay, k); break;
        case 7: Mass<double, SF, IC>(K, t, e.e, dl, e.x); break;
        case 8: HeatCapacity<double, SF, IC>(K, t, e.e, dl, e.x, k, 2.0, th); break;
        }
    };
    o.react = [](DV& F, NTE& t, El& e, const std::vector<int>& dl, std::vector<DV>& u, React f) { ReactionDiffusionReaction<double, SF, IC>(F, t, e.e, dl, e.x, u, f); };
    return o;
}
static const std::vector<TOp>& ops() {
    static std::vector<TOp> o;
    if (!o.empty()) return o;
    o.push_back(op<ShapeFunction3Triangle, Gauss1Triangle>("T3,1"));
    o.push_back(op<ShapeFunction3Triangle, Gauss3Triangle>("T3,3"));
    o.push_back(op<ShapeFunction6Triangle, Gauss3Triangle>("T6,3"));
    o.push_back(op<ShapeFunction4Square, Gauss1Square>("Q4,1"));
    o.push_back(op<ShapeFunction4Square, Gauss4Square>("Q4,4"));
    o.push_back(op<ShapeFunction8Square, Gauss4Square>("Q8,4"));
    o.push_back(op<ShapeFunction8Square, Gauss9Square>("Q8,9"));
    return o;
}
static RM get(Case& c, const TOp& o, int w, El& el, double k, double th, double ax, double ay) {
    DM K; NTE nte;
    if (c.rng.chance(0.5)) K = DM(2, 7);
    std::vector<int> dl = doulist(c, 1);
    o.call(w, K, nte, el, dl, k, th, ax, ay);
    checkMap(c, nm[w], nte, el.f->n, dl, [](int i, int) { return i; });
    return rm(K);
}
static LV linear(const El& el, const LV& g, ld b, const LV& x0) { LV u(el.f->n); for (int i = 0; i < el.f->n; i++) u[i] = b + g[0] * (el.X(i, 0) - x0[0]) + g[1] * (el.X(i, 1) - x0[1]); return u; }
static void diffusion(Case& c) {
    const TOp& o = ops()[c.idx % ops().size()];
    int w = c.rng.range(0, 2), n = fam(o.kind).n;
    El el = makeEl(c, o.kind);
    double k = c.rng.chance(0.2) ? 1 : c.rng.chance(0.1) ? c.rng.logu(1e-12, 1e12) : c.rng.logu(1e-4, 1e4), th = c.rng.logu(0.01, 100), f = w == 0 ? k * th : k;
    std::string who = std::string(nm[w]) + "/" + o.name;
    c.describe(who, " k=", k, " t=", th); c.count(who);
    RM K = get(c, o, w, el, k, th, 0, 0);
    if (!c.expect("shape", K.r == n && K.c == n, who)) return;
    auto pts = points(*el.f, el.X, o.rule);
    RM W(n, n);
    LV x0 = centre(el.X), g = {c.rng.uni(-1, 1), c.rng.uni(-1, 1)};
    LV flux(n, 0); ld en = 0;
    for (auto& p : pts) {
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W(i, j) += f * p.w * (p.dN(0, i) * p.dN(0, j) + p.dN(1, i) * p.dN(1, j));
        for (int i = 0; i < n; i++) flux[i] += f * p.w * (p.dN(0, i) * g[0] + p.dN(1, i) * g[1]);
        en += f * p.w * (g[0] * g[0] + g[1] * g[1]);
    }
    ld rel = 1e-11L * el.slack(), s = W.maxabs();
    cmp(c, "diffusion-integral", K, W, rel, who);
    c.near("symmetry", (K - K.T()).maxabs() / s, 0, rel, who);
    LV one(n, 1);
    c.near("constant-no-flux", maxabs(K * one) / s, 0, rel * n, who);
    LV u = linear(el, g, c.rng.uni(-1, 1), x0), q = K * u;
    ld um = maxabs(u) + 1e-30L;
    for (int i = 0; i < n; i++) c.near("linear-flux", q[i], flux[i], rel * s * um * n, who);
    c.near("linear-energy", quad(K, u, u), en, rel * s * um * um * n * n, who);
    RM S = K; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S(i, j) = (K(i, j) + K(j, i)) / 2;
    LV ev = jacobi(S);
    c.near("semidefinite", std::min<ld>(ev[0], 0) / s, 0, rel * n, who);
    if (o.name != "Q4,1" && o.name != "Q8,4") c.expect("kernel-is-constants", ev[1] > 1e-6L / powl(el.asp, 4) * ev.back(), cat(who, ": more than the constants carry no flux, ratio ", (double)(ev[1] / ev.back())));
    // total flux of any field leaves through the boundary: columns sum to zero
    for (int j = 0; j < n; j++) { ld t = 0; for (int i = 0; i < n; i++) t += K(i, j); c.near("conservation", t, 0, rel * s * n, who); }
}
static void velocity(Case& c, El& el, double& k, double& ax, double& ay) {
    double sp = c.rng.chance(0.1) ? c.rng.logu(1e-9, 1e9) : c.rng.logu(1e-3, 1e3), th = c.rng.uni(0, 2 * M_PI);
    if (c.rng.chance(0.25)) th = M_PI / 2 * c.rng.range(0, 3);
    ax = sp * cos(th); ay = sp * sin(th);
    if (c.rng.chance(0.1)) ax = 0;
    if (c.rng.chance(0.1)) ay = 0;
    if (c.rng.chance(0.05)) ax = ay = 0;
    // cell Peclet numbers on both sides of the switch
    k = sp * el.h / (c.rng.chance(0.1) ? c.rng.logu(1e-8, 1e8) : c.rng.logu(1e-2, 1e3));
    if (hypot(ax, ay) > 0 && c.rng.chance(0.05)) k = 0;     // pure advection
}
struct Stab { ld he, tauS, tauC; };
static Stab stab(const Pt& p, ld ax, ld ay, ld k) {
    Stab s{0, 0, 0};
    ld a = hypotl(ax, ay);
    if (a == 0) return s;
    ld sum = 0;
    for (int i = 0; i < p.dN.c; i++) sum += fabsl(ax * p.dN(0, i) + ay * p.dN(1, i)) / a;
    s.he = 2 / sum;
    ld al = a * s.he / (2 * k), f = al <= 3 ? al / 3 : 1;
    s.tauS = s.he / (2 * a) * f; s.tauC = a * s.he / 2 * f;
    return s;
}
static void advection(Case& c) {
    const TOp& o = ops()[c.idx % ops().size()];
    int n = fam(o.kind).n;
    El el = makeEl(c, o.kind);
    double k, ax, ay; velocity(c, el, k, ax, ay);
    c.describe("Advection/", o.name, " a=", ax, ",", ay); c.count(o.name);
    RM K = get(c, o, 3, el, k, 1, ax, ay);
    if (!c.expect("shape", K.r == n && K.c == n, o.name)) return;
    RM W(n, n);
    LV g = {c.rng.uni(-1, 1), c.rng.uni(-1, 1)}, rhs(n, 0), x0 = centre(el.X);
    ld mag = 0, A = 0;
    for (auto& p : points(*el.f, el.X, o.rule)) {
        A += p.w;
        for (int i = 0; i < n; i++) { rhs[i] += p.w * p.N[i] * (ax * g[0] + ay * g[1]); for (int j = 0; j < n; j++) { W(i, j) += p.w * p.N[i] * (ax * p.dN(0, j) + ay * p.dN(1, j)); mag = std::max(mag, fabsl(p.w * p.N[i]) * (fabsl(ax * p.dN(0, j)) + fabsl(ay * p.dN(1, j)))); } }
    }
    ld rel = 1e-11L * el.slack();
    cmp(c, "advection-integral", K, W, rel, "Advection/" + o.name, mag);
    c.near("constant-annihilated", maxabs(K * LV(n, 1)), 0, rel * mag * n + 1e-300L, o.name);
    LV u = linear(el, g, c.rng.uni(-1, 1), x0), q = K * u;
    for (int i = 0; i < n; i++) c.near("linear-derivative", q[i], rhs[i], rel * mag * maxabs(u) * n + 1e-300L, o.name);
    ld tot = 0; for (auto v : q) tot += v;
    c.near("total-derivative", tot, A * (ax * g[0] + ay * g[1]), rel * mag * maxabs(u) * n * n + 1e-300L, o.name);
}
static void supg(Case& c) {
    const TOp& o = ops()[c.idx % ops().size()];
    int n = fam(o.kind).n, w = c.rng.range(4, 6);
    El el = makeEl(c, o.kind);
    double k, ax, ay; velocity(c, el, k, ax, ay);
    std::string who = std::string(nm[w]) + "/" + o.name;
    c.describe(who, " a=", ax, ",", ay, " k=", k); c.count(who);
    RM K = get(c, o, w, el, k, 1, ax, ay);
    if (!c.expect("shape", K.r == n && K.c == n, who)) return;
    RM W(n, n);
    ld mag = 1e-300L;
    bool lo = false, hi = false;
    for (auto& p : points(*el.f, el.X, o.rule)) {
        Stab s = stab(p, ax, ay, k);
        ld al = hypotl(ax, ay) * s.he / (2 * k);
        (al <= 3 ? lo : hi) = true;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            ld ai = ax * p.dN(0, i) + ay * p.dN(1, i), aj = ax * p.dN(0, j) + ay * p.dN(1, j), t;
            if (w == 4) t = s.tauS * ai * aj; else if (w == 5) t = s.tauC * (p.dN(0, i) * p.dN(0, j) + p.dN(1, i) * p.dN(1, j)); else t = s.tauS * ai * p.N[j];
            W(i, j) += p.w * t;
            mag = std::max(mag, fabsl(p.w * t));
        }
    }
    c.count(lo && hi ? "mixed regime" : lo ? "diffusive regime" : "advective regime");
    ld rel = 2e-11L * el.slack();
    cmp(c, "stabilisation-integral", K, W, rel, who, mag);
    // a constant field (steady) gets no stabilisation; weights sum to zero so that nothing is produced
    if (w != 6) { c.near("constant-unstabilised", maxabs(K * LV(n, 1)), 0, rel * mag * n, who); c.near("symmetry", (K - K.T()).maxabs(), 0, rel * mag, who);
        RM S = K; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) S(i, j) = (K(i, j) + K(j, i)) / 2;
        LV ev = jacobi(S); c.near("dissipative", std::min<ld>(ev[0], 0), 0, rel * mag * n, who);
        ld e = maxabs(K.T() * LV(n, 1)); c.near("conservation", e, 0, rel * mag * n, who); }
    else c.near("conservation", maxabs(K.T() * LV(n, 1)), 0, rel * mag * n, who);
    if (w == 4 && hypotl(ax, ay) > 0) {   // crosswind fields feel nothing (streamline upwinding only)
        LV g = {-(ld)ay / hypotl(ax, ay), (ld)ax / hypotl(ax, ay)}, u = linear(el, g, 0, centre(el.X));
        c.near("no-crosswind", maxabs(K * u), 0, rel * mag * maxabs(u) * n * 4, who);
    }
    // reversing the flow changes the sign of the advective stabilisation of the mass and nothing of the others
    RM Kr = get(c, o, w, el, k, 1, -ax, -ay);
    if (w == 6) cmp(c, "flow-reversal", Kr, K * (ld)-1, rel, who, mag); else cmp(c, "flow-reversal", Kr, K, rel, who, mag);
}
static void reaction(Case& c) {
    const TOp& o = ops()[c.idx % ops().size()];
    int n = fam(o.kind).n;
    El el = makeEl(c, o.kind);
    double nan = std::numeric_limits<double>::quiet_NaN();
    std::vector<DV> u(el.x.size(), DV({nan}));
    LV U(n);
    int extra = c.rng.range(0, 1);
    for (int i = 0; i < n; i++) { double v = c.rng.val(); U[i] = v; c.input(v); u[el.e[i]] = extra ? DV({v, nan}) : DV({v}); }
    double a = c.rng.val(), b = c.rng.val(), d = c.rng.val(), e1 = c.rng.val();
    React f = [=](double v, DV g) { return a + b * v + d * v * v + e1 * (g(0) * 2 - g(1)); };
    std::vector<int> dl = doulist(c, 1);
    DV F; NTE nte;
    o.react(F, nte, el, dl, u, f);
    c.describe("reaction ", o.name);
    checkMap(c, o.name, nte, n, dl, [](int i, int) { return i; });
    if (!c.expect("shape", F.SIZE() == n, o.name)) return;
    LV W(n, 0); ld mag = 1e-300L, tot = 0;
    for (auto& p : points(*el.f, el.X, o.rule)) {
        ld v = 0, gx = 0, gy = 0, gm = 0, vm = 0;
        for (int i = 0; i < n; i++) { v += p.N[i] * U[i]; vm += fabsl(p.N[i] * U[i]); gx += p.dN(0, i) * U[i]; gy += p.dN(1, i) * U[i]; gm += (fabsl(p.dN(0, i)) + fabsl(p.dN(1, i))) * fabsl(U[i]); }
        ld r = a + b * v + d * v * v + e1 * (2 * gx - gy);
        for (int i = 0; i < n; i++) W[i] += p.w * p.N[i] * r;
        tot += p.w * r;
        mag += p.w * (fabs(a) + fabs(b) * vm + fabs(d) * vm * vm + fabs(e1) * 2 * gm);
    }
    ld s = 0;
    for (int i = 0; i < n; i++) { c.near("reaction-integral", F(i), W[i], 1e-11L * el.slack() * mag, o.name); s += F(i); }
    c.near("reaction-total", s, tot, 1e-11L * el.slack() * mag * n, o.name);
}
static void frame(Case& c) {
    const TOp& o = ops()[c.idx % ops().size()];
    int n = fam(o.kind).n, w = c.rng.range(0, 8);
    El el = makeEl(c, o.kind, 0, -1, 20);
    double k, ax, ay; velocity(c, el, k, ax, ay);
    double th = c.rng.logu(0.1, 10);
    std::string who = std::string(nm[w]) + "/" + o.name;
    c.describe(who); c.count(who);
    RM K = get(c, o, w, el, k, th, ax, ay);
    ld s = K.maxabs();
    if (w >= 3) s = std::max<ld>(s, 1e-300L);
    if (w == 3) { ld mag = 0; for (auto& p : points(*el.f, el.X, o.rule)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mag = std::max(mag, fabsl(p.w * p.N[i]) * (fabsl(ax * p.dN(0, j)) + fabsl(ay * p.dN(1, j)))); s = std::max(s, mag); }
    std::vector<int> perm = symmetry(c, *el.f);
    El e2 = permuted(c, el, perm);
    RM K2 = get(c, o, w, e2, k, th, ax, ay), P(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P(i, j) = K(perm[i], perm[j]);
    cmp(c, "renumbering", K2, P, 1e-10L * el.slack(), who, s);
    RM R = rotation(c.rng, 2);
    LV tr = {el.h * c.rng.uni(-20, 20), el.h * c.rng.uni(-20, 20)};
    El e3 = moved(c, el, R, tr);
    double bx = (double)(R(0, 0) * ax + R(0, 1) * ay), by = (double)(R(1, 0) * ax + R(1, 1) * ay);
    RM K3 = get(c, o, w, e3, k, th, bx, by);
    cmp(c, "rigid-motion", K3, K, 2e-10L * (el.slack() + 40), who, s);
    // uniform scaling: diffusion is scale free, advection scales with length, capacity with area
    double q = c.rng.logu(0.1, 10);
    El e4 = moved(c, el, RM::id(2) * (ld)q, {0, 0});
    if (w <= 2) cmp(c, "scaling", get(c, o, w, e4, k, th, ax, ay), K, 1e-10L * el.slack(), who, s);
    else if (w == 3) cmp(c, "scaling", get(c, o, w, e4, k, th, ax, ay), K * (ld)q, 1e-10L * el.slack(), who, s * q);
    else if (w >= 7) cmp(c, "scaling", get(c, o, w, e4, k, th, ax, ay), K * (ld)q * (ld)q, 1e-10L * el.slack(), who, s * q * q);
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_trans");
    component("P19.diffusion", 700, 20000, diffusion);
    component("P19.advection", 700, 20000, advection);
    component("P19.supg", 1400, 40000, supg);
    component("P19.reaction", 700, 20000, reaction);
    component("P16.thermal", 1400, 30000, frame);
    return finish();
}
