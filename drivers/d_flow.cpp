// P20 Stokes / Navier-Stokes elements; P13.flow flow loads; P16.flow frame independence; P17.flow flow masses
#include <cassert>
#include "elas.hpp"
#include "src/FEM/Equation/Stokes.h"
#include "src/FEM/Equation/NavierStokes.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::function<DV(DV)> VF;
// mixed element: geometry from the pressure nodes, velocity nodes at the images of their reference nodes
struct Mix {
    const Fam *fu, *fp;
    RM Xp, Xu;
    std::vector<int> eu, ep;
    std::vector<DV> x;
    double h = 1, off = 0, asp = 1;
    ld slack() const { return (1 + off / h) * asp * asp; }
};
enum { STOKES, STOKESMASS, BRINKMAN, NSSTIFF, NSMASS, CONT, SUPGK, SUPGM, SUPGC, ADJ, NSBRINK, TANGENT, NOPS };
static const char* nm[] = {"StokesStiffness", "StokesMass", "BrinkmanBodyForce", "NavierStokesStiffness", "NavierStokesConsistentMass", "ContinuityStiffness", "NavierStokesSUPGPSPGStiffness", "NavierStokesSUPGPSPGConsistentMass", "ContinuitySUPGPSPGStiffness", "NavierStokesAdjoint", "NavierStokesBrinkmanBodyForce", "NavierStokesTangent"};
struct Par { double rho, mu, dt; DM k; };
struct FOp { std::string name; int ku, kp; Rule rule;
    std::function<void(int, DM&, DV&, NTE&, NTE&, Mix&, const std::vector<int>&, std::vector<DV>&, const Par&)> call;
    std::function<void(int, DV&, NTE&, NTE&, Mix&, const std::vector<int>&, VF)> body; };
template <template <class> class SU, template <class> class SP, template <class> class IC> FOp op(const std::string& n) {
    FOp o;
    o.name = n; o.ku = KindOf<SU>::k; o.kp = KindOf<SP>::k; o.rule = ruleOf<IC>();
    o.call = [](int w, DM& K, DV& F, NTE& tu, NTE& tp, Mix& e, const std::vector<int>& dl, std::vector<DV>& up, const Par& p) {
        switch (w) {
        case STOKES: StokesStiffness<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, p.mu); break;
        case STOKESMASS: StokesMass<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, p.rho); break;
        case BRINKMAN: BrinkmanBodyForce<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, p.k); break;
        case NSSTIFF: NavierStokesStiffness<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, up, p.rho, p.mu); break;
        case NSMASS: NavierStokesConsistentMass<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, p.rho); break;
        case CONT: ContinuityStiffness<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x); break;
        case SUPGK: NavierStokesSUPGPSPGStiffness<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, up, p.rho, p.mu, p.dt); break;
        case SUPGM: NavierStokesSUPGPSPGConsistentMass<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, up, p.rho, p.mu, p.dt); break;
        case SUPGC: ContinuitySUPGPSPGStiffness<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, up, p.rho, p.mu, p.dt); break;
        case ADJ: NavierStokesAdjoint<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, up, p.rho, p.mu); break;
        case NSBRINK: NavierStokesBrinkmanBodyForce<double, SU, SP, IC>(K, tu, e.eu, tp, e.ep, dl, e.x, p.k); break;
        case TANGENT: NavierStokesTangent<double, SU, SP, IC>(K, F, tu, e.eu, tp, e.ep, dl, e.x, up, p.rho, p.mu); break;
        }
    };
    o.body = [](int w, DV& F, NTE& tu, NTE& tp, Mix& e, const std::vector<int>& dl, VF f) {
        if (w == 0) StokesBodyForce<double, SU, SP, IC>(F, tu, e.eu, tp, e.ep, dl, e.x, f);
        else NavierStokesBodyForce<double, SU, SP, IC>(F, tu, e.eu, tp, e.ep, dl, e.x, f);
    };
    return o;
}
template <template <class> class SU, template <class> class SP, template <class> class IC> FOp edge(const std::string& n) {
    FOp o;
    o.name = n; o.ku = KindOf<SU>::k; o.kp = KindOf<SP>::k; o.rule = ruleOf<IC>();
    o.body = [](int, DV& F, NTE& tu, NTE& tp, Mix& e, const std::vector<int>& dl, VF f) { StokesSurfaceForce<double, SU, SP, IC>(F, tu, e.eu, tp, e.ep, dl, e.x, f); };
    return o;
}
static const std::vector<FOp>& ops() {
    static std::vector<FOp> o;
    if (!o.empty()) return o;
    o.push_back(op<ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle>("T6/T3,3"));
    o.push_back(op<ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>("Q8/Q4,9"));
    o.push_back(op<ShapeFunction8Square, ShapeFunction4Square, Gauss4Square>("Q8/Q4,4"));
    o.push_back(op<ShapeFunction3Triangle, ShapeFunction3Triangle, Gauss1Triangle>("T3/T3,1"));
    o.push_back(op<ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>("Q4/Q4,4"));
    return o;
}
static const std::vector<FOp>& edges() {
    static std::vector<FOp> o;
    if (!o.empty()) return o;
    o.push_back(edge<ShapeFunction3Line, ShapeFunction2Line, Gauss2Line>("L3/L2,2"));
    o.push_back(edge<ShapeFunction2Line, ShapeFunction2Line, Gauss2Line>("L2/L2,2"));
    o.push_back(edge<ShapeFunction2Line, ShapeFunction2Line, Gauss1Line>("L2/L2,1"));
    return o;
}
static Mix makeMix(Case& c, const FOp& o) {
    El el = makeEl(c, o.kp, 2, fam(o.kp).d == 1 ? 1 : -1, 20);
    Mix m;
    m.fp = &fam(o.kp); m.fu = &fam(o.ku); m.h = el.h; m.off = el.off; m.asp = el.asp; m.Xp = el.X; m.ep = el.e; m.x = el.x;
    int nu = m.fu->n, np = m.fp->n;
    m.Xu = RM(nu, 2);
    for (int i = 0; i < nu; i++) { LV r(m.fu->nodes[i].begin(), m.fu->nodes[i].end()), N = m.fp->N(r); for (int k = 0; k < 2; k++) { ld s = 0; for (int j = 0; j < np; j++) s += N[j] * m.Xp(j, k); m.Xu(i, k) = i < np ? m.Xp(i, k) : (ld)(double)s; } }
    for (int i = 0; i < nu; i++) { if (i < np) m.eu.push_back(m.ep[i]); else { m.eu.push_back(m.x.size()); m.x.push_back(DV({(double)m.Xu(i, 0), (double)m.Xu(i, 1)})); } }
    return m;
}
static Mix movedMix(const Mix& m, const RM& R, const LV& tr) {
    Mix o = m;
    auto mv = [&](RM& X, const std::vector<int>& e) { for (int i = 0; i < X.r; i++) { ld p[2]; for (int k = 0; k < 2; k++) p[k] = tr[k] + R(k, 0) * X(i, 0) + R(k, 1) * X(i, 1); X(i, 0) = (double)p[0]; X(i, 1) = (double)p[1]; o.x[e[i]] = DV({(double)p[0], (double)p[1]}); } };
    mv(o.Xu, o.eu); mv(o.Xp, o.ep);
    return o;
}
struct State { RM u; LV p; std::vector<DV> up; };
static State makeState(Case& c, const Mix& m, double speed, int kind = -1) {
    State s;
    int nu = m.fu->n, np = m.fp->n;
    double nan = std::numeric_limits<double>::quiet_NaN();
    s.u = RM(nu, 2); s.p.assign(np, 0); s.up.assign(m.x.size(), DV({nan, nan, nan}));
    if (kind < 0) kind = c.rng.range(0, 6);
    double ux = speed * c.rng.uni(-1, 1), uy = speed * c.rng.uni(-1, 1);
    if (kind == 1) ux = 0;
    for (int i = 0; i < nu; i++) { s.u(i, 0) = kind == 0 ? 0 : kind == 1 || kind == 2 ? ux : speed * c.rng.uni(-1, 1); s.u(i, 1) = kind == 0 ? 0 : kind == 1 || kind == 2 ? uy : speed * c.rng.uni(-1, 1); }
    if (kind == 6) { int keep = c.rng.range(0, nu - 1); for (int i = 0; i < nu; i++) if (i != keep) s.u(i, 0) = s.u(i, 1) = 0; }    // one moving node
    for (auto& v : s.p) v = c.rng.uni(-1, 1) * 10;
    for (int i = 0; i < nu; i++) { s.u(i, 0) = (double)s.u(i, 0); s.u(i, 1) = (double)s.u(i, 1); s.up[m.eu[i]] = DV({(double)s.u(i, 0), (double)s.u(i, 1), nan}); }
    for (int j = 0; j < np; j++) { s.p[j] = (double)s.p[j]; s.up[m.ep[j]](2) = (double)s.p[j]; }
    c.describe(kind == 0 ? "still fluid" : kind <= 2 ? "uniform flow" : "random flow");
    for (int i = 0; i < nu; i++) { c.input((double)s.u(i, 0)); c.input((double)s.u(i, 1)); }
    return s;
}
static void setState(State& s, const Mix& m) { for (int i = 0; i < m.fu->n; i++) for (int k = 0; k < 2; k++) { s.u(i, k) = (double)s.u(i, k); s.up[m.eu[i]](k) = (double)s.u(i, k); } for (int j = 0; j < m.fp->n; j++) { s.p[j] = (double)s.p[j]; s.up[m.ep[j]](2) = (double)s.p[j]; } }
static Par params(Case& c, const Mix& m, double speed) {
    Par p;
    p.rho = c.rng.chance(0.3) ? 1 : c.rng.logu(1e-2, 1e3);
    p.mu = p.rho * (speed > 0 ? speed : 1) * m.h / (c.rng.chance(0.1) ? c.rng.logu(1e-6, 1e8) : c.rng.logu(1e-2, 1e3));
    if (c.rng.chance(0.03)) p.mu = 0;      // inviscid
    p.dt = c.rng.chance(0.1) ? c.rng.logu(1e-9, 1e9) : c.rng.logu(1e-4, 1e2);
    p.k = DM(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) p.k(i, j) = c.rng.val();
    c.describe("rho=", p.rho, " mu=", p.mu, " dt=", p.dt);
    return p;
}
struct Q { LV N, M, x; RM dN, dM; ld w, det; };
static std::vector<Q> pts(const Mix& m, const Rule& r) {
    std::vector<Q> o;
    for (auto& p : points(*m.fp, m.Xp, r)) { Q q; q.N = p.N; q.dN = p.dN; q.x = p.x; q.w = p.w; q.det = p.det; q.M = m.fu->N(p.r); if (m.fp->d == 2) q.dM = p.inv * m.fu->dN(p.r); o.push_back(q); }
    return o;
}
static const ld eps12 = 1e-11L;
// reference element matrix; mag = largest absolute term
static RM ref(int w, const Mix& m, const std::vector<Q>& P, const State& s, const Par& par, ld& mag, LV* Fe = nullptr) {
    int a = m.fu->n, b = m.fp->n, T = 2 * a + b;
    RM K(T, T);
    ld rho = par.rho, mu = par.mu, area = 0;
    mag = 1e-300L;
    for (auto& q : P) area += q.w;
    if (Fe) Fe->assign(T, 0);
    for (auto& q : P) {
        ld U[2] = {0, 0}, G[2][2] = {{0, 0}, {0, 0}}, um = 0, gm = 0, pr = 0;      // G[k][l] = d u_l / d x_k
        for (int i = 0; i < a; i++) for (int l = 0; l < 2; l++) { U[l] += q.M[i] * s.u(i, l); um += fabsl(q.M[i] * s.u(i, l)); for (int k = 0; k < 2; k++) { G[k][l] += q.dM(k, i) * s.u(i, l); gm += fabsl(q.dM(k, i) * s.u(i, l)); } }
        for (int j = 0; j < b; j++) pr += q.N[j] * s.p[j];
        ld sp = hypotl(U[0], U[1]), he;
        if (sp > 1e-10L) { ld sum = 0; for (int i = 0; i < a; i++) sum += fabsl(U[0] * q.dM(0, i) + U[1] * q.dM(1, i)); he = 2 * sp / sum; } else he = sqrtl(area);
        ld tau = 1 / sqrtl(powl(2 / (ld)par.dt, 2) + powl(2 * sp / he, 2) + powl(4 * mu / (rho * he * he), 2));
        auto add = [&](int r, int cc, ld v, ld mg = 0) { K(r, cc) += q.w * v; mag = std::max(mag, fabsl(q.w) * std::max(fabsl(v), mg)); };
        for (int i = 0; i < a; i++) for (int j = 0; j < a; j++) {
            ld adv = U[0] * q.dM(0, j) + U[1] * q.dM(1, j), advi = U[0] * q.dM(0, i) + U[1] * q.dM(1, i), lap = q.dM(0, i) * q.dM(0, j) + q.dM(1, i) * q.dM(1, j), MM = q.M[i] * q.M[j];
            ld am = um * (fabsl(q.dM(0, j)) + fabsl(q.dM(1, j))), aim = um * (fabsl(q.dM(0, i)) + fabsl(q.dM(1, i)));
            for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) {
                ld visc = mu * ((k == l ? lap : 0) + q.dM(l, i) * q.dM(k, j)), d = k == l, vm = mu * (fabsl(q.dM(0, i)) + fabsl(q.dM(1, i))) * (fabsl(q.dM(0, j)) + fabsl(q.dM(1, j)));
                int r = k * a + i, cc = l * a + j;
                if (w == STOKES) add(r, cc, visc, vm);
                if (w == STOKESMASS || w == NSMASS) add(r, cc, d * rho * MM);
                if (w == BRINKMAN || w == NSBRINK) { DM kk = par.k; add(r, cc, MM * kk(k, l)); }
                if (w == NSSTIFF) add(r, cc, d * rho * q.M[i] * adv + visc, fabsl(rho * q.M[i]) * am + vm);
                if (w == SUPGK) add(r, cc, d * tau * rho * advi * adv, tau * rho * aim * am);
                if (w == SUPGM) add(r, cc, d * tau * rho * advi * q.M[j], tau * rho * aim * fabsl(q.M[j]));
                if (w == TANGENT) add(r, cc, d * rho * q.M[i] * adv + rho * MM * G[l][k] + visc, fabsl(rho * q.M[i]) * am + fabsl(rho * MM) * gm + vm);
                if (w == ADJ) add(r, cc, d * rho * q.M[j] * advi + rho * MM * G[k][l] + visc, fabsl(rho * q.M[j]) * aim + fabsl(rho * MM) * gm + vm);
            }
        }
        for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < 2; k++) {
            ld v = q.N[j] * q.dM(k, i), advi = U[0] * q.dM(0, i) + U[1] * q.dM(1, i), aim = um * (fabsl(q.dM(0, i)) + fabsl(q.dM(1, i)));
            int r = k * a + i, cc = 2 * a + j;
            if (w == STOKES) { add(r, cc, -v); add(cc, r, -v); }
            if (w == TANGENT || w == CONT || w == ADJ) { add(r, cc, -v); add(cc, r, v); }
            if (w == SUPGK) add(cc, r, tau * rho * q.dN(k, j) * advi, tau * rho * fabsl(q.dN(k, j)) * aim);
            if (w == SUPGM) add(cc, r, tau * rho * q.dN(k, j) * q.M[i]);
            if (w == SUPGC) add(r, cc, tau * advi * q.dN(k, j), tau * aim * fabsl(q.dN(k, j)));
        }
        if (w == SUPGC) for (int i = 0; i < b; i++) for (int j = 0; j < b; j++) add(2 * a + i, 2 * a + j, tau * (q.dN(0, i) * q.dN(0, j) + q.dN(1, i) * q.dN(1, j)));
        if (Fe) {
            for (int i = 0; i < a; i++) for (int k = 0; k < 2; k++) {
                ld v = rho * q.M[i] * (U[0] * G[0][k] + U[1] * G[1][k]) - q.dM(k, i) * pr;
                for (int l = 0; l < 2; l++) v += mu * q.dM(l, i) * (G[l][k] + G[k][l]);
                (*Fe)[k * a + i] -= q.w * v;
            }
            for (int j = 0; j < b; j++) (*Fe)[2 * a + j] -= q.w * q.N[j] * (G[0][0] + G[1][1]);
        }
    }
    return K;
}
static void maps(Case& c, const std::string& who, const NTE& tu, const NTE& tp, const Mix& m, const std::vector<int>& dl) {
    int a = m.fu->n, b = m.fp->n;
    checkMap(c, who, tu, a, {dl[0], dl[1]}, [a](int i, int k) { return k * a + i; });
    checkMap(c, who, tp, b, {dl[2]}, [a](int i, int) { return 2 * a + i; });
}
static RM get(Case& c, const FOp& o, int w, Mix& m, State& s, const Par& par, LV* F = nullptr) {
    DM K; DV Fe; NTE tu, tp;
    if (c.rng.chance(0.5)) { K = DM(3, 2); Fe = DV(4); }
    std::vector<int> dl = doulist(c, 3);
    o.call(w, K, Fe, tu, tp, m, dl, s.up, par);
    maps(c, nm[w], tu, tp, m, dl);
    if (F) *F = lv(Fe);
    return rm(K);
}
static LV velocity(const Mix& m, const RM& H, const LV& u0, const LV& x0) {   // element vector with zero pressure
    int a = m.fu->n; LV v(2 * a + m.fp->n, 0);
    for (int i = 0; i < a; i++) for (int k = 0; k < 2; k++) v[k * a + i] = u0[k] + H(k, 0) * (m.Xu(i, 0) - x0[0]) + H(k, 1) * (m.Xu(i, 1) - x0[1]);
    return v;
}
static void matrices(Case& c) {
    const FOp& o = ops()[c.idx % ops().size()];
    int w = (c.idx / ops().size()) % NOPS;
    Mix m = makeMix(c, o);
    double speed = c.rng.chance(0.1) ? c.rng.logu(1e-8, 1e8) : c.rng.logu(1e-3, 1e3);
    State s = makeState(c, m, speed);
    Par par = params(c, m, speed);
    int a = m.fu->n, b = m.fp->n, T = 2 * a + b;
    std::string who = std::string(nm[w]) + "/" + o.name;
    c.describe(who); c.count(who);
    auto P = pts(m, o.rule);
    LV F, Fr;
    RM K = get(c, o, w, m, s, par, w == TANGENT ? &F : nullptr);
    if (!c.expect("shape", K.r == T && K.c == T, who)) return;
    ld mag, sl = m.slack();
    RM W = ref(w, m, P, s, par, mag, w == TANGENT ? &Fr : nullptr);
    cmp(c, "element-integral", K, W, eps12 * sl * 2, who, mag);
    LV x0 = centre(m.Xp);
    ld tol = eps12 * 4 * sl * mag * T;
    if (w == STOKES) {
        ld vm = 1e-300L; for (int i = 0; i < 2 * a; i++) for (int j = 0; j < 2 * a; j++) vm = std::max(vm, fabsl(K(i, j)));
        c.near("symmetry", (K - K.T()).maxabs(), 0, eps12 * sl * mag, who);
        RM Z(2, 2), Wk = skews(2)[0];
        for (int k = 0; k < 2; k++) { LV u0(2, 0); u0[k] = 1; LV f = K * velocity(m, Z, u0, x0); c.near("rigid-translation", maxabs(f), 0, tol, who); }
        LV v = velocity(m, Wk, {0, 0}, x0), f = K * v;
        for (int i = 0; i < 2 * a; i++) c.near("rigid-rotation", f[i] / vm, 0, eps12 * 4 * sl * T * maxabs(v), who);
        RM S(2 * a, 2 * a); for (int i = 0; i < 2 * a; i++) for (int j = 0; j < 2 * a; j++) S(i, j) = (K(i, j) + K(j, i)) / 2;
        LV ev = jacobi(S);
        c.near("dissipative", std::min<ld>(ev[0], 0) / vm, 0, eps12 * sl * T, who);
        for (int i = 0; i < b; i++) for (int j = 0; j < b; j++) c.expect("no-pressure-block", K(2 * a + i, 2 * a + j) == 0, who);
    }
    if (w == STOKES || w == CONT || w == TANGENT || w == ADJ) {
        // divergence of a linear field: the continuity rows measure the trace against the pressure shape functions
        RM H(2, 2); for (auto& v : H.a) v = c.rng.uni(-1, 1);
        bool solenoidal = c.rng.chance(0.4);
        if (solenoidal) H(1, 1) = -H(0, 0);
        LV v = velocity(m, H, {c.rng.uni(-1, 1), c.rng.uni(-1, 1)}, x0);
        ld sg = w == STOKES ? -1 : 1, vm = maxabs(v), cm = 0;
        for (int i = 0; i < 2 * a; i++) for (int j = 0; j < b; j++) cm = std::max(cm, fabsl(K(2 * a + j, i)));
        for (int j = 0; j < b; j++) { ld want = 0, got = 0; for (auto& q : P) want += q.w * q.N[j] * (H(0, 0) + H(1, 1)) * sg; for (int i = 0; i < 2 * a; i++) got += K(2 * a + j, i) * v[i]; c.near("divergence", got, want, eps12 * sl * T * (cm * vm), who); }
        for (int i = 0; i < 2 * a; i++) for (int j = 0; j < b; j++) c.near("coupling-transpose", K(i, 2 * a + j), w == STOKES ? K(2 * a + j, i) : -K(2 * a + j, i), eps12 * cm, who);
        // hydrostatic pressure does no work on solenoidal linear fields
        ld pw = 0; for (int i = 0; i < 2 * a; i++) for (int j = 0; j < b; j++) pw += v[i] * K(i, 2 * a + j);
        ld tr = 0; for (auto& q : P) tr += q.w; c.near("pressure-work", pw, -(H(0, 0) + H(1, 1)) * tr, eps12 * sl * T * cm * vm * b, who);
    }
    if (w == TANGENT) {
        ld fm = mag * (s.u.maxabs() + 1e-300L); { ld pm = 0; for (auto v : s.p) pm = std::max(pm, fabsl(v)); ld cm = 0; for (int i = 0; i < 2 * a; i++) for (int j = 0; j < b; j++) cm = std::max(cm, fabsl(W(i, 2 * a + j))); fm += pm * cm * b; }
        for (int i = 0; i < T && i < (int)F.size(); i++) c.near("residual-integral", F[i], Fr[i], eps12 * sl * T * fm, who);
        // the residual is quadratic, so the central difference is its exact directional derivative
        ld d = std::max<ld>(s.u.maxabs(), speed);
        State dir = s; LV e(T);
        for (int i = 0; i < a; i++) for (int k = 0; k < 2; k++) { double v = (double)(d * c.rng.uni(-1, 1)); dir.u(i, k) = v; e[k * a + i] = v; }
        for (int j = 0; j < b; j++) { double v = c.rng.uni(-1, 1) * 10; dir.p[j] = v; e[2 * a + j] = v; }
        State p1 = s, p2 = s;
        for (int i = 0; i < a; i++) for (int k = 0; k < 2; k++) { p1.u(i, k) += dir.u(i, k); p2.u(i, k) -= dir.u(i, k); }
        for (int j = 0; j < b; j++) { p1.p[j] += dir.p[j]; p2.p[j] -= dir.p[j]; }
        setState(p1, m); setState(p2, m);
        LV F1, F2; get(c, o, w, m, p1, par, &F1); get(c, o, w, m, p2, par, &F2);
        LV Ke = K * e;
        for (int i = 0; i < T; i++) c.near("tangent", Ke[i], (F2[i] - F1[i]) / 2, 1e-9L * sl * (mag * T * (d * 3) + fm * 10), who);
        // adjoint operator: momentum block is the transpose of the tangent's
        RM A = get(c, o, ADJ, m, s, par);
        for (int i = 0; i < 2 * a; i++) for (int j = 0; j < 2 * a; j++) c.near("adjoint-transpose", A(i, j), K(j, i), eps12 * sl * 4 * mag, who);
    }
    if (w == NSSTIFF) {   // Picard operator applied to its own advecting field gives the convective + viscous residual
        LV v(T, 0); for (int i = 0; i < a; i++) for (int k = 0; k < 2; k++) v[k * a + i] = s.u(i, k);
        State z = s; for (auto& q : z.p) q = 0; setState(z, m);
        LV F0; get(c, o, TANGENT, m, z, par, &F0); LV Kv = K * v;
        ld vm = maxabs(v) + 1e-300L;
        for (int i = 0; i < 2 * a; i++) c.near("picard-residual", Kv[i], -F0[i], eps12 * sl * 8 * T * mag * vm, who);
    }
    if (w == SUPGK || w == SUPGM || w == SUPGC) for (int k = 0; k < 2; k++) {   // test functions of the stabilisation sum to zero
        for (int j = 0; j < T; j++) { ld t = 0; for (int i = 0; i < a; i++) t += K(k * a + i, j); c.near("stabilisation-conserves", t, 0, tol, who); t = 0; for (int i = 0; i < b; i++) t += K(2 * a + i, j); c.near("stabilisation-conserves", t, 0, tol, who); }
    }
    c.count(who + " checked");
}
// fractional step operators
template <template <class> class SF, template <class> class IC> void stepT(Case& c, const std::string& name) {
    const int kind = KindOf<SF>::k;
    El el = makeEl(c, kind, 0, -1, 20);
    Rule rule = ruleOf<IC>();
    int n = el.f->n;
    double nan = std::numeric_limits<double>::quiet_NaN(), sp = c.rng.logu(1e-3, 1e3), rho = c.rng.logu(1e-2, 1e3), mu = rho * sp * el.h / c.rng.logu(1e-2, 1e3), dt = c.rng.logu(1e-4, 1e2);
    std::vector<DV> u(el.x.size(), DV({nan, nan})), p(el.x.size(), DV({nan}));
    RM U(n, 2); LV Pn(n);
    for (int i = 0; i < n; i++) { double a = sp * c.rng.uni(-1, 1), b = sp * c.rng.uni(-1, 1), q = c.rng.uni(-5, 5); U(i, 0) = a; U(i, 1) = b; Pn[i] = q; u[el.e[i]] = DV({a, b}); p[el.e[i]] = DV({q}); c.input(a); }
    c.describe("fractional step ", name); c.count(name);
    DV F1, F2, F3; DM K; NTE t1, t2, t3;
    std::vector<int> d2 = doulist(c, 2), d1 = doulist(c, 1);
    NavierStokesAuxiliaryVelocity<double, SF, IC>(F1, t1, el.e, d2, el.x, u, rho, mu);
    NavierStokesPressurePoisson<double, SF, IC>(K, F2, t2, el.e, d1, el.x, u, rho, dt);
    NavierStokesNextstepVelocity<double, SF, IC>(F3, t3, el.e, d2, el.x, u, p, rho);
    checkMap(c, "aux", t1, n, d2, [n](int i, int k) { return k * n + i; });
    checkMap(c, "poisson", t2, n, d1, [](int i, int) { return i; });
    checkMap(c, "next", t3, n, d2, [n](int i, int k) { return k * n + i; });
    if (!c.expect("shape", F1.SIZE() == 2 * n && F2.SIZE() == n && F3.SIZE() == 2 * n && K.ROW() == n && K.COL() == n, name)) return;
    LV w1(2 * n, 0), w2(n, 0), w3(2 * n, 0); RM WK(n, n);
    ld m1 = 1e-300L, m2 = 1e-300L, m3 = 1e-300L;
    for (auto& q : points(*el.f, el.X, rule)) {
        ld V[2] = {0, 0}, G[2][2] = {{0, 0}, {0, 0}}, gp[2] = {0, 0}, gm = 0, pm = 0;
        for (int i = 0; i < n; i++) for (int l = 0; l < 2; l++) { V[l] += q.N[i] * U(i, l); gp[l] += q.dN(l, i) * Pn[i]; pm += fabsl(q.dN(l, i) * Pn[i]); for (int k = 0; k < 2; k++) { G[k][l] += q.dN(k, i) * U(i, l); gm += fabsl(q.dN(k, i) * U(i, l)); } }
        for (int i = 0; i < n; i++) {
            for (int k = 0; k < 2; k++) { w1[k * n + i] -= q.w * (rho * q.N[i] * (V[0] * G[0][k] + V[1] * G[1][k]) + mu * (q.dN(0, i) * G[0][k] + q.dN(1, i) * G[1][k])); w3[k * n + i] -= q.w * q.N[i] * gp[k]; m1 = std::max(m1, q.w * (rho * 2 * sp * gm + mu * (fabsl(q.dN(0, i)) + fabsl(q.dN(1, i))) * gm)); m3 = std::max(m3, q.w * pm); }
            w2[i] -= q.w * rho / dt * q.N[i] * (G[0][0] + G[1][1]); m2 = std::max(m2, q.w * rho / dt * gm);
            for (int j = 0; j < n; j++) WK(i, j) += q.w * (q.dN(0, i) * q.dN(0, j) + q.dN(1, i) * q.dN(1, j));
        }
    }
    ld r = eps12 * el.slack() * n;
    for (int i = 0; i < 2 * n; i++) { c.near("auxiliary-velocity", F1(i), w1[i], r * m1, name); c.near("velocity-correction", F3(i), w3[i], r * m3, name); }
    for (int i = 0; i < n; i++) c.near("poisson-source", F2(i), w2[i], r * m2, name);
    cmp(c, "poisson-matrix", rm(K), WK, r, name);
    c.near("poisson-constant", maxabs(rm(K) * LV(n, 1)), 0, r * WK.maxabs() * 4, name);
    // uniform flow: no convective or viscous force, no source, and constant pressure no correction
    double a = sp * c.rng.uni(-1, 1), b = sp * c.rng.uni(-1, 1), q0 = c.rng.uni(-5, 5);
    for (int i = 0; i < n; i++) { u[el.e[i]] = DV({a, b}); p[el.e[i]] = DV({q0}); }
    NavierStokesAuxiliaryVelocity<double, SF, IC>(F1, t1, el.e, d2, el.x, u, rho, mu);
    NavierStokesPressurePoisson<double, SF, IC>(K, F2, t2, el.e, d1, el.x, u, rho, dt);
    NavierStokesNextstepVelocity<double, SF, IC>(F3, t3, el.e, d2, el.x, u, p, rho);
    for (int i = 0; i < 2 * n; i++) { c.near("uniform-flow", F1(i), 0, r * m1 * 40, name); c.near("uniform-pressure", F3(i), 0, r * m3 * 40, name); }
    for (int i = 0; i < n; i++) c.near("uniform-flow-source", F2(i), 0, r * m2 * 40, name);
}
static void step(Case& c) {
    switch (c.idx % 5) {
    case 0: stepT<ShapeFunction3Triangle, Gauss1Triangle>(c, "T3,1"); break;
    case 1: stepT<ShapeFunction4Square, Gauss4Square>(c, "Q4,4"); break;
    case 2: stepT<ShapeFunction6Triangle, Gauss3Triangle>(c, "T6,3"); break;
    case 3: stepT<ShapeFunction8Square, Gauss9Square>(c, "Q8,9"); break;
    case 4: stepT<ShapeFunction3Triangle, Gauss3Triangle>(c, "T3,3"); break;
    }
}
template <template <class> class SF, template <class> class IC> void massT(Case& c, const std::string& name) {
    El el = makeEl(c, KindOf<SF>::k);
    Rule rule = ruleOf<IC>();
    int n = el.f->n; double rho = c.rng.logu(1e-3, 1e4);
    bool lumped = c.rng.chance(0.5);
    DM M; NTE t; std::vector<int> dl = doulist(c, 2);
    if (lumped) NavierStokesDecoupledLumpedMass<double, SF, IC>(M, t, el.e, dl, el.x, rho); else NavierStokesDecoupledConsistentMass<double, SF, IC>(M, t, el.e, dl, el.x, rho);
    c.describe(lumped ? "lumped " : "consistent ", name, " rho=", rho); c.count(name);
    checkMap(c, name, t, n, dl, [n](int i, int k) { return k * n + i; });
    RM G = rm(M);
    if (!c.expect("shape", G.r == 2 * n && G.c == 2 * n, name)) return;
    ld A = 0; RM W(2 * n, 2 * n);
    for (auto& q : points(*el.f, el.X, rule)) { A += q.w; for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W(k * n + i, k * n + j) += rho * q.w * q.N[i] * q.N[j]; }
    ld rel = eps12 * el.slack();
    if (!lumped) cmp(c, "mass-integral", G, W, rel, name);
    for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) { ld tot = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) tot += G(k * n + i, l * n + j); c.near("total-mass", tot, k == l ? rho * A : 0, rel * rho * A, name); }
    c.near("mass-symmetry", (G - G.T()).maxabs(), 0, rel * G.maxabs(), name);
    if (lumped) for (int i = 0; i < 2 * n; i++) { for (int j = 0; j < 2 * n; j++) if (i != j) c.expect("lumped-diagonal", G(i, j) == 0, name); c.expect("lumped-positive", G(i, i) > 0, name); }
}
static void mass(Case& c) {
    if (c.idx % 7 < 5) {
        switch (c.idx % 7) {
        case 0: massT<ShapeFunction3Triangle, Gauss1Triangle>(c, "T3,1"); break;
        case 1: massT<ShapeFunction4Square, Gauss4Square>(c, "Q4,4"); break;
        case 2: massT<ShapeFunction6Triangle, Gauss3Triangle>(c, "T6,3"); break;
        case 3: massT<ShapeFunction8Square, Gauss9Square>(c, "Q8,9"); break;
        case 4: massT<ShapeFunction3Triangle, Gauss3Triangle>(c, "T3,3"); break;
        }
        return;
    }
    const FOp& o = c.rng.pick(ops());
    int w = c.idx % 7 == 5 ? STOKESMASS : NSMASS;
    Mix m = makeMix(c, o); State s = makeState(c, m, 1); Par par = params(c, m, 1);
    std::string who = std::string(nm[w]) + "/" + o.name;
    c.describe(who); c.count(who);
    RM K = get(c, o, w, m, s, par);
    int a = m.fu->n, b = m.fp->n, T = 2 * a + b;
    if (!c.expect("shape", K.r == T, who)) return;
    ld A = 0; for (auto& q : pts(m, o.rule)) A += q.w;
    ld rel = eps12 * m.slack() * 4;
    for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) { ld tot = 0; for (int i = 0; i < a; i++) for (int j = 0; j < a; j++) tot += K(k * a + i, l * a + j); c.near("total-mass", tot, k == l ? par.rho * A : 0, rel * par.rho * A, who); }
    for (int i = 0; i < T; i++) for (int j = 0; j < b; j++) c.expect("pressure-massless", K(i, 2 * a + j) == 0 && K(2 * a + j, i) == 0, who);
    c.near("mass-symmetry", (K - K.T()).maxabs(), 0, rel * K.maxabs(), who);
    ld mag; RM W = ref(w, m, pts(m, o.rule), s, par, mag); cmp(c, "mass-integral", K, W, rel, who);
}
static void load(Case& c) {
    bool surf = c.idx % 3 == 2;
    const FOp& o = surf ? edges()[(c.idx / 3) % edges().size()] : ops()[(c.idx / 3) % ops().size()];
    Mix m = makeMix(c, o);
    int which = c.rng.range(0, 1), a = m.fu->n, b = m.fp->n, T = 2 * a + b;
    RM A(2, 2); LV f0(2); bool lin = c.rng.chance(0.6);
    for (auto& v : f0) v = c.rng.val();
    if (lin) for (auto& v : A.a) v = c.rng.val();
    VF f = [&](DV x) { return DV({(double)(f0[0] + A(0, 0) * x(0) + A(0, 1) * x(1)), (double)(f0[1] + A(1, 0) * x(0) + A(1, 1) * x(1))}); };
    std::string who = std::string(surf ? "StokesSurfaceForce/" : which ? "NavierStokesBodyForce/" : "StokesBodyForce/") + o.name;
    c.describe(who, lin ? " linear" : " constant"); c.count(who);
    DV F; NTE tu, tp; std::vector<int> dl = doulist(c, 3);
    o.body(which, F, tu, tp, m, dl, f);
    maps(c, who, tu, tp, m, dl);
    if (!c.expect("shape", F.SIZE() == T, who)) return;
    LV W(T, 0), res(2, 0); ld mag = 1e-300L;
    for (auto& q : pts(m, o.rule)) for (int k = 0; k < 2; k++) { ld v = f0[k] + A(k, 0) * q.x[0] + A(k, 1) * q.x[1], vm = fabsl(f0[k]) + fabsl(A(k, 0) * q.x[0]) + fabsl(A(k, 1) * q.x[1]); res[k] += q.w * v; mag += q.w * vm; for (int i = 0; i < a; i++) W[k * a + i] += q.w * q.M[i] * v; }
    ld rel = eps12 * m.slack();
    for (int i = 0; i < 2 * a; i++) c.near("load-distribution", F(i), W[i], rel * mag, who);
    for (int j = 0; j < b; j++) c.expect("no-pressure-load", F(2 * a + j) == 0, who);
    for (int k = 0; k < 2; k++) { ld s = 0; for (int i = 0; i < a; i++) s += F(k * a + i); c.near("load-resultant", s, res[k], rel * mag * 4, who); }
}
static void frame(Case& c) {
    const FOp& o = ops()[c.idx % ops().size()];
    int w = (c.idx / ops().size()) % NOPS;
    Mix m = makeMix(c, o);
    double speed = c.rng.logu(1e-2, 1e2);
    State s = makeState(c, m, speed);
    Par par = params(c, m, speed);
    double kk = c.rng.uni(0.1, 3); par.k = DM(2, 2); par.k(0, 0) = par.k(1, 1) = kk;
    std::string who = std::string(nm[w]) + "/" + o.name;
    c.describe(who); c.count(who);
    int a = m.fu->n, b = m.fp->n, T = 2 * a + b;
    LV F, F2;
    RM K = get(c, o, w, m, s, par, w == TANGENT ? &F : nullptr);
    ld mag; ref(w, m, pts(m, o.rule), s, par, mag);
    // rigid motion
    RM R = rotation(c.rng, 2);
    Mix m2 = movedMix(m, R, {m.h * c.rng.uni(-10, 10), m.h * c.rng.uni(-10, 10)});
    State s2 = s;
    for (int i = 0; i < a; i++) { ld p = R(0, 0) * s.u(i, 0) + R(0, 1) * s.u(i, 1), q = R(1, 0) * s.u(i, 0) + R(1, 1) * s.u(i, 1); s2.u(i, 0) = p; s2.u(i, 1) = q; }
    setState(s2, m2);
    RM K2 = get(c, o, w, m2, s2, par, w == TANGENT ? &F2 : nullptr), B(T, T);
    for (int i = 0; i < a; i++) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) B(k * a + i, l * a + i) = R(k, l);
    for (int j = 0; j < b; j++) B(2 * a + j, 2 * a + j) = 1;
    bool threshold = false;     // the stabilisation length switches at a fixed tiny speed: only still or clearly moving fluid is compared
    for (auto& q : pts(m, o.rule)) { ld U[2] = {0, 0}; for (int i = 0; i < a; i++) for (int l = 0; l < 2; l++) U[l] += q.M[i] * s.u(i, l); ld v = hypotl(U[0], U[1]); if (v > 0 && v < 1e-6L) threshold = true; }
    if (!threshold) cmp(c, "rigid-motion", K2, B * K * B.T(), 2e-10L * (m.slack() + 20), who, mag);
    if (w == TANGENT) { LV BF = B * F; ld fm = maxabs(F) + mag * (s.u.maxabs() + 1e-30L); for (int i = 0; i < T; i++) c.near("rigid-motion-residual", F2[i], BF[i], 2e-9L * (m.slack() + 20) * fm, who); }
    // renumbering by a symmetry of the reference shape
    std::vector<int> pu = symmetry(c, *m.fu), pp(b, -1);
    bool ok = true;
    for (int i = 0; i < b; i++) { if (pu[i] >= b) ok = false; pp[i] = pu[i]; }    // corners map to corners
    if (ok) {
        Mix m3 = m;
        for (int i = 0; i < a; i++) { m3.eu[i] = m.eu[pu[i]]; for (int k = 0; k < 2; k++) m3.Xu(i, k) = m.Xu(pu[i], k); }
        for (int i = 0; i < b; i++) { m3.ep[i] = m.ep[pp[i]]; for (int k = 0; k < 2; k++) m3.Xp(i, k) = m.Xp(pp[i], k); }
        RM K3 = get(c, o, w, m3, s, par, w == TANGENT ? &F2 : nullptr), P(T, T);
        auto at = [&](int r) { return r < a ? pu[r] : r < 2 * a ? a + pu[r - a] : 2 * a + pp[r - 2 * a]; };
        for (int i = 0; i < T; i++) for (int j = 0; j < T; j++) P(i, j) = K(at(i), at(j));
        cmp(c, "renumbering", K3, P, 2e-10L * m.slack(), who, mag);
    }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_flow");
    component("P20.matrices", 1200, 30000, matrices);
    component("P20.step", 400, 10000, step);
    component("P13.flow", 600, 12000, load);
    component("P17.flow", 420, 10000, mass);
    component("P16.flow", 600, 15000, frame);
    return finish();
}
