// P18 finite-deformation elements: internal force, tangent, objectivity, linearisation
#include "elas.hpp"
using namespace vh;
using namespace PANSFEM2;
struct NL { std::string name; int kind, d; bool neo; Rule r;
    std::function<void(DM&, DV&, NTE&, El&, const std::vector<int>&, std::vector<DV>&, const Mat&)> call;
    std::function<void(DM&, NTE&, El&, const std::vector<int>&, const Mat&)> linear; };
template <template <class> class SF, template <class> class IC> void add2(std::vector<NL>& o, const std::string& n) {
    auto lin = [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { PlaneStrainStiffness<double, SF, IC>(K, t, e.e, dl, e.x, m.E, m.V, m.t); };
    o.push_back({"PlaneStrainTotalLagrange/" + n, KindOf<SF>::k, 2, false, ruleOf<IC>(), [](DM& K, DV& F, NTE& t, El& e, const std::vector<int>& dl, std::vector<DV>& u, const Mat& m) { PlaneStrainStiffnessTotalLagrange<double, SF, IC>(K, F, t, e.e, dl, e.x, u, m.E, m.V, m.t); }, lin});
    o.push_back({"PlaneStrainUpdatedLagrange/" + n, KindOf<SF>::k, 2, true, ruleOf<IC>(), [](DM& K, DV& F, NTE& t, El& e, const std::vector<int>& dl, std::vector<DV>& u, const Mat& m) { PlaneStrainStiffnessUpdatedLagrange<double, SF, IC>(K, F, t, e.e, dl, e.x, u, m.E, m.V, m.t); }, lin});
}
template <template <class> class SF, template <class> class IC> void add3(std::vector<NL>& o, const std::string& n) {
    auto lin = [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { SolidLinearIsotropicElastic<double, SF, IC>(K, t, e.e, dl, e.x, m.E, m.V); };
    o.push_back({"SolidTotalLagrange/" + n, KindOf<SF>::k, 3, false, ruleOf<IC>(), [](DM& K, DV& F, NTE& t, El& e, const std::vector<int>& dl, std::vector<DV>& u, const Mat& m) { SolidTotalLagrange<double, SF, IC>(K, F, t, e.e, dl, e.x, u, m.E, m.V); }, lin});
    o.push_back({"SolidUpdatedLagrange/" + n, KindOf<SF>::k, 3, true, ruleOf<IC>(), [](DM& K, DV& F, NTE& t, El& e, const std::vector<int>& dl, std::vector<DV>& u, const Mat& m) { SolidUpdatedLagrange<double, SF, IC>(K, F, t, e.e, dl, e.x, u, m.E, m.V); }, lin});
}
static const std::vector<NL>& all() {
    static std::vector<NL> o;
    if (!o.empty()) return o;
    add2<ShapeFunction3Triangle, Gauss1Triangle>(o, "T3,1");
    add2<ShapeFunction6Triangle, Gauss3Triangle>(o, "T6,3");
    add2<ShapeFunction4Square, Gauss4Square>(o, "Q4,4");
    add2<ShapeFunction8Square, Gauss9Square>(o, "Q8,9");
    add3<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(o, "T4,1");
    add3<ShapeFunction8Cubic, Gauss8Cubic>(o, "H8,8");
    add3<ShapeFunction20Cubic, Gauss27Cubic>(o, "H20,27");
    return o;
}
// gradient of deformation at the integration points
static std::vector<RM> gradients(const std::vector<Pt>& ps, const RM& U) {
    std::vector<RM> o;
    int d = U.c;
    for (auto& p : ps) { RM F = RM::id(d); for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) for (int i = 0; i < U.r; i++) F(a, b) += U(i, a) * p.dN(b, i); o.push_back(F); }
    return o;
}
// nodal forces -dW/du of the strain energy; St. Venant-Kirchhoff or compressible neo-Hookean
static LV force(const NL& q, const std::vector<Pt>& ps, const RM& U, const Mat& m, ld* mag = nullptr) {
    int d = q.d, n = U.r;
    LV f(d * n, 0);
    ld lam = lamOf(m), mu = muOf(m), t = d == 2 ? (ld)m.t : 1;
    auto Fs = gradients(ps, U);
    for (size_t g = 0; g < ps.size(); g++) {
        RM F = Fs[g], P(d, d);      // first Piola-Kirchhoff stress
        if (!q.neo) {
            RM C = F.T() * F, S(d, d);
            ld tr = 0;
            for (int k = 0; k < d; k++) tr += (C(k, k) - 1) / 2;
            for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) S(a, b) = mu * (C(a, b) - (a == b)) + (a == b ? lam * tr : 0);
            P = F * S;
        } else {
            ld J = rdet(F);
            RM I = rinv(F).T();
            P = mu * (F - I) + (lam * logl(J)) * I;
        }
        for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) { ld s = 0; for (int b = 0; b < d; b++) s += P(a, b) * ps[g].dN(b, i); f[d * i + a] -= s * ps[g].w * t; if (mag) *mag = std::max(*mag, fabsl(s * ps[g].w * t)); }
    }
    return f;
}
// exact second derivative of the strain energy
static RM tangent(const NL& q, const std::vector<Pt>& ps, const RM& U, const Mat& m) {
    int d = q.d, n = U.r;
    RM K(d * n, d * n);
    ld lam = lamOf(m), mu = muOf(m), t = d == 2 ? (ld)m.t : 1;
    auto Fs = gradients(ps, U);
    for (size_t g = 0; g < ps.size(); g++) {
        const RM& F = Fs[g];
        RM S(d, d), I = rinv(F), C = F.T() * F;
        ld J = rdet(F), tr = 0;
        for (int k = 0; k < d; k++) tr += (C(k, k) - 1) / 2;
        for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) S(a, b) = mu * (C(a, b) - (a == b)) + (a == b ? lam * tr : 0);
        for (int j = 0; j < n; j++) for (int e = 0; e < d; e++) {
            RM dF(d, d), dP(d, d);
            for (int b = 0; b < d; b++) dF(e, b) = ps[g].dN(b, j);
            if (!q.neo) {
                RM dC = dF.T() * F, dS(d, d);
                dC = dC + dC.T();
                ld dt = 0;
                for (int k = 0; k < d; k++) dt += dC(k, k) / 2;
                for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) dS(a, b) = mu * dC(a, b) + (a == b ? lam * dt : 0);
                dP = dF * S + F * dS;
            } else {
                RM Y = I * dF;
                ld dt = 0;
                for (int k = 0; k < d; k++) dt += Y(k, k);
                dP = mu * dF + (mu - lam * logl(J)) * (Y * I).T() + (lam * dt) * I.T();
            }
            for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) { ld s = 0; for (int b = 0; b < d; b++) s += dP(a, b) * ps[g].dN(b, i); K(d * i + a, d * j + e) += s * ps[g].w * t; }
        }
    }
    return K;
}
struct State { RM U; std::vector<DV> u; };
static State pack(const El& el, const RM& U) {
    State s;
    s.U = U;
    double nan = std::numeric_limits<double>::quiet_NaN();
    s.u.assign(el.x.size(), DV(std::vector<double>(U.c, nan)));
    for (int i = 0; i < U.r; i++) { std::vector<double> p; for (int k = 0; k < U.c; k++) { s.U(i, k) = (double)U(i, k); p.push_back((double)U(i, k)); } s.u[el.e[i]] = DV(p); }
    return s;
}
static State state(Case& c, const NL& q, const El& el, const std::vector<Pt>& ps) {
    int d = q.d, n = el.f->n;
    LV x0 = centre(el.X);
    double amp = c.rng.chance(0.15) ? c.rng.logu(1e-6, 1e-2) : c.rng.uni(0.02, 0.35), str = c.rng.chance(0.3) ? 0 : c.rng.uni(0, 0.5);
    bool rot = c.rng.chance(0.5);
    RM R = rot ? rotation(c.rng, d) : RM::id(d), G = RM::id(d);
    for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) G(a, b) += str * c.rng.uni(-1, 1);
    ld lo = 0.25L, hi = 4;
    switch (c.rng.range(0, 11)) {
    case 0:      // large stretches
        for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) G(a, b) = a == b ? c.rng.logu(0.25, 4) : c.rng.uni(-0.3, 0.3);
        lo = 0.05L; hi = 60; c.describe("large stretch"); break;
    case 1:      // uniform stretch along the axes
        G = RM::id(d); amp = 0;
        for (int a = 0; a < d; a++) if (c.rng.chance(0.6)) G(a, a) = c.rng.logu(0.5, 2);
        c.describe("axial stretch"); break;
    case 2: {    // simple shear
        G = RM::id(d); amp = 0;
        int a = c.rng.range(0, d - 1), b = (a + c.rng.range(1, d - 1)) % d;
        G(a, b) = c.rng.uni(-1, 1);
        c.describe("simple shear"); break; }
    case 3: {    // a single node moves
        RM U(n, d);
        U(c.rng.range(0, n - 1), c.rng.range(0, d - 1)) = 0.05 * el.h / el.asp * c.rng.sgn();
        bool ok = true;
        for (auto& F : gradients(ps, U)) { ld J = rdet(F); if (J < 0.25L || J > 4) ok = false; }
        if (ok) { c.describe("single node"); return pack(el, U); }
        break; }
    }
    for (;;) {
        RM U(n, d);
        for (int i = 0; i < n; i++) {
            LV y(d, 0);
            for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) y[a] += G(a, b) * (el.X(i, b) - x0[b]);
            for (int a = 0; a < d; a++) y[a] += el.h * amp * c.rng.uni(-1, 1);
            y = R * y;
            for (int a = 0; a < d; a++) U(i, a) = x0[a] + y[a] - el.X(i, a);
        }
        bool ok = true;
        for (auto& F : gradients(ps, U)) { ld J = rdet(F); if (J < lo || J > hi) ok = false; }
        if (ok) { c.describe("amplitude ", amp, rot ? " rotated" : ""); return pack(el, U); }
        amp *= 0.7;
        for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) G(a, b) = (a == b) + 0.7L * (G(a, b) - (a == b));
    }
}
static void callNL(Case& c, const NL& q, El& el, State& s, const Mat& m, RM& K, LV& F) {
    DM k; DV f; NTE nte;
    if (c.rng.chance(0.5)) { k = DM(2, 2); f = DV(7); }
    std::vector<int> dl = doulist(c, q.d);
    q.call(k, f, nte, el, dl, s.u, m);
    int d = q.d;
    checkMap(c, q.name, nte, el.f->n, dl, [d](int i, int a) { return d * i + a; });
    K = rm(k); F = lv(f);
}
static void consistent(Case& c) {
    const NL& q = all()[c.idx % all().size()];
    El el = makeEl(c, q.kind, 0, -1, 10);
    Mat m = material(c, false);
    auto ps = points(*el.f, el.X, q.r);
    State s = state(c, q, el, ps);
    c.describe(q.name, " E=", m.E, " V=", m.V, " t=", m.t);
    c.count(q.name);
    RM K; LV F;
    callNL(c, q, el, s, m, K, F);
    ld mag = 0;
    LV f = force(q, ps, s.U, m, &mag);
    RM T = tangent(q, ps, s.U, m);
    ld ks = T.maxabs(), fs = std::max(mag, 1e-4L * ks * el.h), rel = 1e-10L * el.slack();
    if (!c.expect("sizes", F.size() == f.size() && K.r == T.r && K.c == T.c, q.name)) return;
    for (size_t i = 0; i < f.size(); i++) c.near("internal-force", F[i], f[i], rel * fs, cat(q.name, " component ", i));
    cmp(c, "tangent", K, T, 2e-12L * el.slack(), q.name);
    c.near("tangent-symmetry", (K - K.T()).maxabs() / ks, 0, rel, q.name);
    // the library's own force, differenced in a random direction
    RM D(s.U.r, s.U.c);
    for (auto& v : D.a) v = c.rng.uni(-1, 1);
    ld squeeze = 1;
    for (auto& F : gradients(ps, s.U)) squeeze = std::min(squeeze, rdet(F));
    ld e = 1e-5L * el.h * squeeze;
    State sp = pack(el, s.U + e * D), sm = pack(el, s.U - e * D);
    RM K2; LV Fp, Fm, dv = (sp.U - sm.U).a, Kd = K * dv;
    callNL(c, q, el, sp, m, K2, Fp);
    callNL(c, q, el, sm, m, K2, Fm);
    ld sc = ks * maxabs(dv) * K.r;
    for (size_t i = 0; i < f.size(); i++) c.near("tangent-is-derivative", Kd[i], -(Fp[i] - Fm[i]), 2e-7L / squeeze * el.slack() * sc, cat(q.name, " component ", i));
}
static void objective(Case& c) {
    const NL& q = all()[c.idx % all().size()];
    El el = makeEl(c, q.kind, 0, -1, 10);
    Mat m = material(c, false);
    auto ps = points(*el.f, el.X, q.r);
    State s = state(c, q, el, ps);
    int d = q.d, n = el.f->n;
    c.describe(q.name);
    c.count(q.name);
    RM K, K2; LV F, F2;
    callNL(c, q, el, s, m, K, F);
    RM R = rotation(c.rng, d);
    LV tr(d), x0 = centre(el.X);
    for (auto& v : tr) v = el.h * c.rng.uni(-5, 5);
    auto turn = [&](const RM& U) { RM V(n, d); for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) { ld y = tr[a] + x0[a] - el.X(i, a); for (int b = 0; b < d; b++) y += R(a, b) * (el.X(i, b) + U(i, b) - x0[b]); V(i, a) = y; } return V; };
    State r = pack(el, turn(s.U));
    callNL(c, q, el, r, m, K2, F2);
    ld ks = K.maxabs(), rel = 1e-10L * (el.slack() + 10), mag = 0;
    force(q, ps, s.U, m, &mag);
    ld fs = std::max(mag, 0.1L * ks * el.h);
    RM Q = blockRot(R, n);
    LV W = Q * F;
    for (size_t i = 0; i < W.size(); i++) c.near("objective-force", F2[i], W[i], rel * fs, cat(q.name, " component ", i));
    cmp(c, "objective-tangent", K2, Q * (K * Q.T()), rel * 10, q.name);
    // rigid motion of the undeformed element: no force
    State g = pack(el, turn(RM(n, d)));
    callNL(c, q, el, g, m, K2, F2);
    ld kl = K2.maxabs();
    for (size_t i = 0; i < F2.size(); i++) c.near("rigid-force-free", F2[i], 0, rel * kl * el.h, q.name);
    // zero displacement: zero force, small-strain stiffness
    State z = pack(el, RM(n, d));
    callNL(c, q, el, z, m, K2, F2);
    for (size_t i = 0; i < F2.size(); i++) c.near("undeformed-force-free", F2[i], 0, 1e-11L * el.slack() * K2.maxabs() * el.h, q.name);
    DM L; NTE nte;
    std::vector<int> dl;
    for (int k = 0; k < d; k++) dl.push_back(k);
    q.linear(L, nte, el, dl, m);
    cmp(c, "linearises", K2, rm(L), 1e-11L * el.slack(), q.name);
    cmp(c, "linearises-exact", K2, refIso(el, q.r, lamOf(m), muOf(m), d == 2 ? (ld)m.t : 1), 1e-10L * el.slack(), q.name);
    // balance: internal forces have no resultant and no moment about the deformed position
    LV res(d, 0); ld mom[3] = {0, 0, 0};
    for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) { res[a] += F[d * i + a]; for (int b = 0; b < d; b++) if (a != b) { int k = d == 2 ? 0 : 3 - a - b; ld sg = d == 2 ? (a == 1 ? 1 : -1) : ((b + 1) % 3 == a ? 1 : -1); mom[k] += sg * (el.X(i, b) + s.U(i, b) - x0[b]) * F[d * i + a]; } }
    for (auto v : res) c.near("force-balance", v, 0, rel * fs * n, q.name);
    for (auto v : mom) c.near("moment-balance", v, 0, rel * fs * n * el.h * 4, q.name);
}
// follower pressure on a closed curve: the tangent is the exact derivative
template <template <class> class SF, template <class> class IC> void loopOf(Case& c) {
    int k = c.rng.range(3, 8), per = SF<double>::n == 3 ? 2 : 1, n = k * per;
    double P = c.rng.val(), t = c.rng.logu(0.1, 10), h = c.rng.logu(0.1, 10);
    std::vector<DV> x, u, v;
    for (int i = 0; i < n; i++) { double th = 2 * M_PI * i / n, r = h * c.rng.uni(0.7, 1.3); x.push_back(DV({r * cos(th), r * sin(th)})); u.push_back(DV({h * c.rng.uni(-0.3, 0.3), h * c.rng.uni(-0.3, 0.3)})); v.push_back(u[i] + DV({h * c.rng.uni(-0.5, 0.5), h * c.rng.uni(-0.5, 0.5)})); }
    c.describe("closed loop of ", k, " edges with ", per + 1, " nodes, P=", P);
    RM K(2 * n, 2 * n);
    LV F(2 * n, 0), G(2 * n, 0);
    for (int e = 0; e < k; e++) {
        std::vector<int> el = {e * per, (e * per + per) % n};
        if (per == 2) el.push_back(e * per + 1);
        std::vector<int> dl = {0, 1};
        DM Ke; DV Fe; NTE nte;
        PlaneStrainSurfacePressureUpdatedLagrange<double, SF, IC>(Ke, Fe, nte, el, dl, x, u, P, t);
        for (size_t i = 0; i < el.size(); i++) for (auto& p : nte[i]) { F[2 * el[i] + p.first] += Fe(p.second); for (size_t j = 0; j < el.size(); j++) for (auto& q : nte[j]) K(2 * el[i] + p.first, 2 * el[j] + q.first) += Ke(p.second, q.second); }
        PlaneStrainSurfacePressureUpdatedLagrange<double, SF, IC>(Ke, Fe, nte, el, dl, x, v, P, t);
        for (size_t i = 0; i < el.size(); i++) for (auto& p : nte[i]) G[2 * el[i] + p.first] += Fe(p.second);
    }
    LV d(2 * n);
    for (int i = 0; i < n; i++) for (int a = 0; a < 2; a++) d[2 * i + a] = v[i](a) - u[i](a);
    LV Kd = K * d;
    ld sc = fabs(P) * t * h + 1e-300L;
    for (int i = 0; i < 2 * n; i++) c.near("pressure-tangent", Kd[i], -(G[i] - F[i]), 1e-12L * sc, "closed loop");
    c.near("pressure-symmetry", (K - K.T()).maxabs(), 0, 1e-13L * sc / h, "closed loop");
    ld rx = 0, ry = 0;
    for (int i = 0; i < n; i++) { rx += F[2 * i]; ry += F[2 * i + 1]; }
    c.near("pressure-balance", rx, 0, 1e-12L * sc, "closed loop"); c.near("pressure-balance", ry, 0, 1e-12L * sc, "closed loop");
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_nl");
    long N = all().size();
    component("P18.tangent", N * 20, N * 500, consistent);
    component("P18.objectivity", N * 25, N * 600, objective);
    component("P18.pressure", 120, 4000, [](Case& c) { switch (c.idx % 3) { case 0: loopOf<ShapeFunction2Line, Gauss1Line>(c); break; case 1: loopOf<ShapeFunction2Line, Gauss2Line>(c); break; default: loopOf<ShapeFunction3Line, Gauss2Line>(c); } });
    return finish();
}
