// P22 complete analyses: mesh -> element matrices -> constraints -> assembly -> solver -> scatter -> reactions,
// compared with exact fields and with an independent long-double solution of the same discrete problem
#include "bvp.hpp"
#include "src/FEM/Equation/Beam.h"
#include "src/FEM/Equation/Shell.h"
static void elastic(Case& c, bool solid) {
    Rng& g = c.rng; Msh m = solid ? mesh3(c) : mesh2(c); int nd = solid ? 3 : 2, nn = m.x.size();
    std::vector<const Op*> ops; for (auto& o : continuum()) if (o.kind == m.kind && o.full && (!o.affineOnly || m.para)) ops.push_back(&o);
    const Op& op = *ops[g.range(0, (int)ops.size() - 1)]; Mat mt = material(c, false); if (mt.V < -0.6) mt.V = -0.6; if (mt.V > 0.45) mt.V = 0.45; if (op.law >= 3) userMatrix(c, mt, op.law == 4 || g.chance(0.5));
    RM D = lawOf(op, mt); double th = thick(op, mt);
    bool field = g.chance(0.5), all = g.chance(0.5);
    RM H = gradOf(g, nd); LV u0(nd), x0(nd, 0); for (auto& v : u0) v = g.uni(-1, 1) * m.size; RM X(nn, nd); for (int i = 0; i < nn; i++) for (int k = 0; k < nd; k++) X(i, k) = m.x[i](k); x0 = centre(X);
    LV exact = fieldOf(X, H, u0, x0);
    Fix fx = constrain(c, m, nd, all, true, [&](int i, int a) { return field ? (double)exact[i * nd + a] : g.chance(0.6) ? 0.0 : g.uni(-1, 1) * 0.1 * m.size; });
    c.describe(m.name, ", ", op.name, field ? ", linear field" : ", random loads", ", ", nn, " nodes, ", fx.size(), " constraints"); c.count(op.name); for (auto& p : m.x) for (int k = 0; k < nd; k++) c.input(p(k));
    // ---- the pipeline under test
    std::vector<DV> u(nn, DV(nd)); IM ntg(nn, std::vector<int>(nd, 0)); SetDirichlet(u, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; }
    LILCSR<double> K(N, N); std::vector<double> F(N, 0.0); std::vector<int> dl; for (int a = 0; a < nd; a++) dl.push_back(a);
    Sys R(nn, nd); R.fixed(fx); RM sg; { LV s = strainOf(H), t(D.r, 0); for (int i = 0; i < D.r; i++) for (int j = 0; j < D.c; j++) t[i] += D(i, j) * s[j]; sg = tensorOf(t); }
    ld fs = 0; for (int i = 0; i < D.r; i++) fs = std::max(fs, fabsl(D(i, i))); double lscale = (double)(fs * th) * 0.1 * (solid ? m.size : 1);
    bool body = !solid && !field && g.chance(0.5); DV bf = {g.uni(-1, 1) * lscale / m.size, g.uni(-1, 1) * lscale / m.size};
    std::vector<std::pair<NTE, std::pair<DM, std::vector<int>>>> keep; LV applied(nn * nd, 0);
    for (auto& e : m.el) {
        El el = elOf(m, e); DM Ke; NTE t; op.call(Ke, t, el, dl, mt); Assembling(K, F, u, Ke, ntg, t, e); keep.push_back({t, {Ke, e}});
        R.add(op.ref(el, mt), e);
        if (body) {
            DV Fe; NTE tb; auto f = [&](DV) { return bf; }; bool ps = op.law == 1; Rule rl;
            if (m.kind == 23) { if (ps) PlaneStressBodyForce<double, ShapeFunction3Triangle, Gauss3Triangle>(Fe, tb, e, dl, m.x, f, th); else PlaneStrainBodyForce<double, ShapeFunction3Triangle, Gauss3Triangle>(Fe, tb, e, dl, m.x, f, th); rl = ruleOf<Gauss3Triangle>(); }
            else if (m.kind == 26) { if (ps) PlaneStressBodyForce<double, ShapeFunction6Triangle, Gauss3Triangle>(Fe, tb, e, dl, m.x, f, th); else PlaneStrainBodyForce<double, ShapeFunction6Triangle, Gauss3Triangle>(Fe, tb, e, dl, m.x, f, th); rl = ruleOf<Gauss3Triangle>(); }
            else if (m.kind == 24) { if (ps) PlaneStressBodyForce<double, ShapeFunction4Square, Gauss4Square>(Fe, tb, e, dl, m.x, f, th); else PlaneStrainBodyForce<double, ShapeFunction4Square, Gauss4Square>(Fe, tb, e, dl, m.x, f, th); rl = ruleOf<Gauss4Square>(); }
            else { if (ps) PlaneStressBodyForce<double, ShapeFunction8Square, Gauss9Square>(Fe, tb, e, dl, m.x, f, th); else PlaneStrainBodyForce<double, ShapeFunction8Square, Gauss9Square>(Fe, tb, e, dl, m.x, f, th); rl = ruleOf<Gauss9Square>(); }
            Assembling(F, Fe, ntg, tb, e);
            for (auto& p : points(*el.f, el.X, rl)) for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < 2; a++) applied[e[i] * 2 + a] += p.w * th * p.N[i] * bf(a);
        }
    }
    if (!solid && (field || g.chance(0.5))) for (auto& ed : m.bd) {
        if (!field && g.chance(0.5)) continue;
        DV a = m.x[ed[0]], b = m.x[ed[1]]; ld dx = b(0) - a(0), dy = b(1) - a(1), len = sqrtl(dx * dx + dy * dy);
        ld tx = field ? (sg(0, 0) * dy - sg(0, 1) * dx) / len : g.uni(-1, 1) * lscale / (m.size * th), ty = field ? (sg(1, 0) * dy - sg(1, 1) * dx) / len : g.uni(-1, 1) * lscale / (m.size * th);
        DV tr = {(double)tx, (double)ty}; DV Fe; NTE t; auto f = [&](DV) { return tr; };
        if (ed.size() == 2) { if (op.law == 1) PlaneStressSurfaceForce<double, ShapeFunction2Line, Gauss1Line>(Fe, t, ed, dl, m.x, f, th); else PlaneStrainSurfaceForce<double, ShapeFunction2Line, Gauss2Line>(Fe, t, ed, dl, m.x, f, th); }
        else { if (op.law == 1) PlaneStressSurfaceForce<double, ShapeFunction3Line, Gauss2Line>(Fe, t, ed, dl, m.x, f, th); else PlaneStrainSurfaceForce<double, ShapeFunction3Line, Gauss2Line>(Fe, t, ed, dl, m.x, f, th); }
        Assembling(F, Fe, ntg, t, ed);
        ld w[3] = {0.5L, 0.5L, 0}; if (ed.size() == 3) { w[0] = w[1] = 1 / 6.0L; w[2] = 2 / 3.0L; } for (size_t i = 0; i < ed.size(); i++) { applied[ed[i] * 2] += w[i] * len * th * tx; applied[ed[i] * 2 + 1] += w[i] * len * th * ty; }
    }
    Fix q;
    if (solid && field) { for (int i = 0; i < nn; i++) for (int a = 0; a < nd; a++) { ld s = 0; for (int j = 0; j < nn * nd; j++) s += R.K(i * nd + a, j) * exact[j]; if (fabsl(s) > 1e-12L * fs * m.size * m.size) q.push_back({{i, a}, (double)s}); } }
    else if (!field) { int k = g.range(0, 8); std::set<std::pair<int, int>> used; for (int j = 0; j < k; j++) { std::pair<int, int> p(g.range(0, nn - 1), g.range(0, nd - 1)); if (used.insert(p).second) q.push_back({p, g.uni(-1, 1) * lscale}); } }
    g.shuffle(q); Assembling(F, q, ntg); for (auto& p : q) applied[p.first.first * nd + p.first.second] += p.second;
    std::vector<double> r = solve(c, K, F, 0); Disassembling(u, r, ntg);
    // ---- judgement
    ld tol = 3e-7L; std::string who = cat(m.name, ", ", op.name);
    if (field) compare(c, "exact-field", u, exact, nd, tol, cat(who, ": displacements differ from the linear field (relative)"));
    R.F = applied; LV ref = R.solve(); compare(c, "discrete-solution", u, ref, nd, tol, cat(who, ": displacements differ from the independent solution (relative)"));
    // reactions: equal and opposite to the loads, zero where nothing is held
    IM ntg2 = ntg; RemoveBoundaryConditions(ntg2); int N2 = Renumbering(ntg2); std::vector<double> P(N2, 0.0); for (auto& k : keep) { DV w = k.second.first * ElementVector(u, k.first, k.second.second); Assembling(P, w, ntg2, k.first, k.second.second); }
    std::vector<DV> rx(nn, DV(nd)); Disassembling(rx, P, ntg2); ld big = 0, out = 0; for (int i = 0; i < nn; i++) for (int a = 0; a < nd; a++) big = std::max({big, fabsl(rx[i](a)), fabsl(applied[i * nd + a])});
    if (big == 0) return; ld umax = 0; for (auto v : ref) umax = std::max(umax, fabsl(v)); big = std::max<ld>(big, umax * fs * th * (solid ? m.size : 1) * 1e-4L);
    for (int i = 0; i < nn; i++) for (int a = 0; a < nd; a++) if (!R.fix[i * nd + a]) out = std::max(out, fabsl(rx[i](a) - applied[i * nd + a]));
    c.near("equilibrium", out / big, 0, 1e-6L, cat(who, ": internal forces do not balance the loads at free nodes (relative)"));
    LV tot(nd, 0); ld mom = 0; for (int i = 0; i < nn; i++) { for (int a = 0; a < nd; a++) tot[a] += rx[i](a); mom += (X(i, 0) - x0[0]) * rx[i](1) - (X(i, 1) - x0[1]) * rx[i](0); }
    c.near("force-balance", maxabs(tot) / big, 0, 1e-6L, cat(who, ": loads and reactions do not sum to zero (relative)")); c.near("moment-balance", mom / (big * m.size), 0, 1e-6L, cat(who, ": loads and reactions have a resulting moment (relative)"));
}
// ---- heat conduction, steady and transient
template <template <class> class SF, template <class> class IC, template <class> class EF, template <class> class EI> static void heatOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(); double al = g.logu(1e-3, 1e3), th = g.chance(0.4) ? 1 : g.logu(0.01, 100); Rule rl = ruleOf<IC>();
    bool field = g.chance(0.5), all = g.chance(0.5); LV gr = {(ld)g.uni(-1, 1), (ld)g.uni(-1, 1)}, exact(nn); ld T0 = g.uni(-1, 1) * m.size; for (int i = 0; i < nn; i++) exact[i] = T0 + gr[0] * m.x[i](0) + gr[1] * m.x[i](1);
    Fix fx = constrain(c, m, 1, all, false, [&](int i, int) { return field ? (double)exact[i] : g.uni(-1, 1) * m.size; });
    c.describe(m.name, field ? " linear temperature" : " random loads", ", ", nn, " nodes, ", fx.size(), " prescribed, conductivity ", al, " thickness ", th); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    std::vector<DV> T(nn, DV(1)); IM ntg(nn, std::vector<int>(1, 0)); SetDirichlet(T, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; }
    LILCSR<double> K(N, N); std::vector<double> F(N, 0.0); Sys R(nn, 1); R.fixed(fx); R.F.assign(nn, 0);
    for (auto& e : m.el) { DM Ke; NTE t; HeatTransfer<double, SF, IC>(Ke, t, e, {0}, m.x, al, th); Assembling(K, F, T, Ke, ntg, t, e); El el = elOf(m, e); RM k(e.size(), e.size()); for (auto& p : points(*el.f, el.X, rl)) k = k + (p.w * al * th) * (p.dN.T() * p.dN); R.add(k, e); }
    for (auto& ed : m.bd) { if (!field && g.chance(0.5)) continue; DV a = m.x[ed[0]], b = m.x[ed[1]]; ld dx = b(0) - a(0), dy = b(1) - a(1), len = sqrtl(dx * dx + dy * dy); double q = field ? (double)(al * (gr[0] * dy - gr[1] * dx) / len) : al * g.uni(-1, 1); DV Fe; NTE t; HeatTransferSurfaceFlux<double, EF, EI>(Fe, t, ed, {0}, m.x, [&](DV) { return q; }, th); Assembling(F, Fe, ntg, t, ed);
        ld w[3] = {0.5L, 0.5L, 0}; if (ed.size() == 3) { w[0] = w[1] = 1 / 6.0L; w[2] = 2 / 3.0L; } for (size_t i = 0; i < ed.size(); i++) R.F[ed[i]] += w[i] * len * th * q; }
    std::vector<double> r = solve(c, K, F, 0); Disassembling(T, r, ntg);
    if (field) compare(c, "exact-field", T, exact, 1, 3e-8L, m.name + ": temperatures differ from the linear field (relative)");
    compare(c, "discrete-solution", T, R.solve(), 1, 3e-8L, m.name + ": temperatures differ from the independent solution (relative)");
    // maximum principle does not hold for all shapes; the heat balance does
    ld q = 0, in = 0, big = 0; IM full = ntg; RemoveBoundaryConditions(full); int M = Renumbering(full); std::vector<double> P(M, 0.0); for (auto& e : m.el) { DM Ke; NTE t; HeatTransfer<double, SF, IC>(Ke, t, e, {0}, m.x, al, th); DV w = Ke * ElementVector(T, t, e); Assembling(P, w, full, t, e); }
    for (int i = 0; i < nn; i++) { big = std::max({big, fabsl(P[i]), fabsl(R.F[i]), 1e-3L * al * th * fabsl(exact[i])}); q += P[i]; if (!R.fix[i]) in = std::max(in, fabsl(P[i] - R.F[i])); }
    if (big > 0) { c.near("heat-balance", q / big, 0, 1e-8L, m.name + ": nodal heat flows do not sum to zero (relative)"); c.near("equilibrium", in / big, 0, 1e-7L, m.name + ": heat flow at free nodes does not match the given flux (relative)"); }
}
template <template <class> class SF, template <class> class IC> static void transientOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(); double al = g.logu(1e-2, 1e2), th = g.logu(0.1, 10), rho = g.logu(0.1, 10), cp = g.logu(0.1, 10), theta = g.pick(std::vector<double>{0, 0.5, 1, 0.7}), dt = rho * cp * m.size * m.size / al * (theta < 0.5 ? 1e-4 : g.logu(1e-3, 1)); Rule rl = ruleOf<IC>(); int steps = g.range(1, 6);
    bool insulated = g.chance(0.5); Fix fx; if (!insulated) fx = constrain(c, m, 1, g.chance(0.3), false, [&](int, int) { return g.uni(-1, 1); });
    c.describe(m.name, " theta ", theta, " dt ", dt, " steps ", steps, insulated ? " insulated" : ""); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    std::vector<DV> T(nn, DV(1)); for (auto& t : T) t(0) = g.uni(-1, 1); IM ntg(nn, std::vector<int>(1, 0)); SetDirichlet(T, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; }
    Sys A(nn, 1), B(nn, 1), C(nn, 1); A.fixed(fx); LV ref(nn); for (int i = 0; i < nn; i++) ref[i] = T[i](0);
    for (auto& e : m.el) { El el = elOf(m, e); RM k(e.size(), e.size()), h(e.size(), e.size()); for (auto& p : points(*el.f, el.X, rl)) { k = k + (p.w * al * th) * (p.dN.T() * p.dN); for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) h(i, j) += p.w * rho * cp * th * p.N[i] * p.N[j]; } C.add(h, e); A.add((1 / (ld)dt) * h + (ld)theta * k, e); B.add((1 / (ld)dt) * h - (1 - (ld)theta) * k, e); }
    auto heat = [&] { ld s = 0; for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) s += C.K(i, j) * T[j](0); return s; }; ld h0 = heat(), hs = 0; for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) hs += fabsl(C.K(i, j));
    for (int s = 0; s < steps; s++) {
        LILCSR<double> K(N, N); std::vector<double> F(N, 0.0);
        for (auto& e : m.el) { DM Ke, Ce; NTE t; HeatTransfer<double, SF, IC>(Ke, t, e, {0}, m.x, al, th); HeatCapacity<double, SF, IC>(Ce, t, e, {0}, m.x, rho, cp, th); DV Te = ElementVector(T, t, e); DM Ae = Ce / dt + Ke * theta; DV be = (Ce / dt - Ke * (1.0 - theta)) * Te; Assembling(K, F, T, Ae, ntg, t, e); Assembling(F, be, ntg, t, e); }
        std::vector<double> r = solve(c, K, F, 0); Disassembling(T, r, ntg);
        A.F.assign(nn, 0); for (int i = 0; i < nn; i++) for (int j = 0; j < nn; j++) A.F[i] += B.K(i, j) * ref[j]; for (int i = 0; i < nn; i++) if (A.fix[i]) A.val[i] = ref[i]; ref = A.solve(); c.count("steps");
    }
    compare(c, "time-history", T, ref, 1, 1e-6L, m.name + ": temperatures after the time steps differ from the independent solution (relative)");
    if (insulated) c.near("heat-content", (heat() - h0) / hs, 0, 1e-8L, m.name + ": heat content of an insulated body changed (relative)");
}
template <template <class> class SF, template <class> class IC> static void advectOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(), var = g.range(0, 1); double th = g.uni(0, 2 * M_PI), sp = g.chance(0.1) ? 0 : g.logu(0.1, 10), ax = sp * cos(th), ay = sp * sin(th), k = g.logu(0.05, 5) * std::max(sp, 0.1) * m.size; Rule rl = ruleOf<IC>();
    bool field = g.chance(0.6); if (var == 0 && g.chance(0.5)) field = false; else if (var) field = true;
    LV exact(nn); ld T0 = g.uni(-1, 1), s = g.uni(-1, 1) / m.size; for (int i = 0; i < nn; i++) exact[i] = T0 + s * (-ay / (sp ? sp : 1) * m.x[i](0) + ax / (sp ? sp : 1) * m.x[i](1));
    Fix fx = constrain(c, m, 1, true, false, [&](int i, int) { return field ? (double)exact[i] : g.uni(-1, 1); });
    static const char* nm[] = {"Galerkin", "SUPG"}; c.describe(m.name, " ", nm[var], field ? " crosswind-linear field" : " random boundary values", " velocity ", ax, " ", ay, " diffusivity ", k); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    std::vector<DV> T(nn, DV(1)); IM ntg(nn, std::vector<int>(1, 0)); SetDirichlet(T, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; } c.count(nm[var]);
    LILCSR<double> K(N, N); std::vector<double> F(N, 0.0); Sys R(nn, 1); R.fixed(fx);
    for (auto& e : m.el) {
        DM Ka, Kd, Ks; NTE t; Advection<double, SF, IC>(Ka, t, e, {0}, m.x, ax, ay); Diffusion<double, SF, IC>(Kd, t, e, {0}, m.x, k); DM S = Ka + Kd; if (var & 1) { AdvectionSUPG<double, SF, IC>(Ks, t, e, {0}, m.x, ax, ay, k); S = S + Ks; }
        Assembling(K, F, T, S, ntg, t, e); El el = elOf(m, e); RM q(e.size(), e.size()); for (auto& p : points(*el.f, el.X, rl)) { q = q + (p.w * k) * (p.dN.T() * p.dN); for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) q(i, j) += p.w * p.N[i] * (ax * p.dN(0, j) + ay * p.dN(1, j)); } R.add(q, e);
    }
    std::vector<double> r = solve(c, K, F, 1); Disassembling(T, r, ntg);
    if (field) compare(c, "exact-field", T, exact, 1, 1e-7L, cat(m.name, ", ", nm[var], ": values differ from the crosswind-linear field (relative)"));
    if (var == 0) compare(c, "discrete-solution", T, R.solve(), 1, 1e-7L, m.name + ", Galerkin: values differ from the independent solution (relative)");
}
static void heat(Case& c) { Msh m = mesh2(c); switch (m.kind) { case 23: heatOn<ShapeFunction3Triangle, Gauss1Triangle, ShapeFunction2Line, Gauss1Line>(c, m); break; case 26: heatOn<ShapeFunction6Triangle, Gauss3Triangle, ShapeFunction3Line, Gauss2Line>(c, m); break; case 24: heatOn<ShapeFunction4Square, Gauss4Square, ShapeFunction2Line, Gauss2Line>(c, m); break; default: heatOn<ShapeFunction8Square, Gauss9Square, ShapeFunction3Line, Gauss2Line>(c, m); } }
static void transient(Case& c) { Msh m = mesh2(c); switch (m.kind) { case 23: transientOn<ShapeFunction3Triangle, Gauss3Triangle>(c, m); break; case 26: case 24: if (m.kind == 26) { c.boring(); return; } transientOn<ShapeFunction4Square, Gauss4Square>(c, m); break; default: transientOn<ShapeFunction8Square, Gauss9Square>(c, m); } }
static void advect(Case& c) { Msh m = mesh2(c); switch (m.kind) { case 23: advectOn<ShapeFunction3Triangle, Gauss3Triangle>(c, m); break; case 24: advectOn<ShapeFunction4Square, Gauss4Square>(c, m); break; case 28: advectOn<ShapeFunction8Square, Gauss9Square>(c, m); break; default: c.boring(); } }
// ---- flow: biquadratic velocities, bilinear pressure; unknowns u, v at all nodes and p at corners
static void flow(Case& c) {
    Rng& g = c.rng; Msh m = mesh2(c, 28); int nn = m.x.size(); bool ns = g.chance(0.5); double mu = g.logu(0.1, 10), rho = ns ? g.logu(0.1, 3) : 0;
    std::vector<char> corner(nn, 0); for (auto& e : m.el) for (int k = 0; k < 4; k++) corner[e[k]] = 1;
    RM A(2, 2); if (ns) { double t = g.uni(0, 2 * M_PI), s = g.uni(-1, 1); ld n[2] = {cosl(t), sinl(t)}, o[2] = {-sinl(t), cosl(t)}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A(i, j) = s * n[i] * o[j]; } else { A(0, 0) = g.uni(-1, 1); A(1, 1) = -A(0, 0); A(0, 1) = g.uni(-1, 1); A(1, 0) = g.uni(-1, 1); }
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A(i, j) = A(i, j) / (ld)m.size; LV u0 = {(ld)g.uni(-1, 1), (ld)g.uni(-1, 1)}, dp(2, 0); ld p0 = g.uni(-1, 1) * mu / m.size; RM X(nn, 2); for (int i = 0; i < nn; i++) for (int k = 0; k < 2; k++) X(i, k) = m.x[i](k); LV xc = centre(X);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) dp[i] -= rho * A(i, j) * u0[j];           // shear flow: the convective term is constant, balanced by a linear pressure
    auto ex = [&](int i, int a) -> ld { if (a < 2) return u0[a] + A(a, 0) * (X(i, 0) - xc[0]) + A(a, 1) * (X(i, 1) - xc[1]); return p0 + dp[0] * (X(i, 0) - xc[0]) + dp[1] * (X(i, 1) - xc[1]); };
    Fix fx; int pin = -1; for (int i : m.bn) { fx.push_back({{i, 0}, (double)ex(i, 0)}); fx.push_back({{i, 1}, (double)ex(i, 1)}); if (corner[i] && (pin < 0 || g.chance(0.3))) pin = i; } fx.push_back({{pin, 2}, (double)ex(pin, 2)}); g.shuffle(fx);
    c.describe(ns ? "Navier-Stokes" : "Stokes", " viscosity ", mu, " density ", rho, ", ", m.el.size(), " elements"); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); } c.count(ns ? "Navier-Stokes" : "Stokes");
    std::vector<DV> up(nn); IM ntg(nn); for (int i = 0; i < nn; i++) { up[i] = DV(corner[i] ? 3 : 2); ntg[i] = std::vector<int>(corner[i] ? 3 : 2, 0); }
    SetDirichlet(up, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; } int its = ns ? 25 : 1; std::vector<DV> base = up;
    if (m.el.size() == 1) { c.boring(); return; }                      // no interior velocities: the pressure is not determined
    bool single = false; { std::map<int, int> cnt; for (auto& e : m.el) for (int i : e) cnt[i]++; std::set<int> inner; for (int i = 0; i < nn; i++) if (!m.bn.count(i)) inner.insert(i); if (2 * (int)inner.size() < (int)std::count(corner.begin(), corner.end(), 1)) single = true; } if (single) { c.boring(); return; }
    if (ns) { for (int i = 0; i < nn; i++) for (size_t a = 0; a < ntg[i].size(); a++) if (ntg[i][a] >= 0) up[i](a) = (double)(ex(i, a)) + 0.05 * g.uni(-1, 1) * (a < 2 ? 1 : mu / m.size); }
    ld step = 0;
    for (int it = 0; it < its; it++) {
        LILCSR<double> K(N, N); std::vector<double> F(N, 0.0); std::vector<DV> d = base; if (ns) for (auto& v : d) v = DV(v.SIZE());
        for (auto& e : m.el) { std::vector<int> ep(e.begin(), e.begin() + 4); NTE tu, tp; DM Ke; DV Qe;
            if (ns) { NavierStokesTangent<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(Ke, Qe, tu, e, tp, ep, {0, 1, 2}, m.x, up, rho, mu); Assembling(K, F, d, Ke, ntg, {tu, tp}, {e, ep}); Assembling(F, Qe, ntg, tu, e); Assembling(F, Qe, ntg, tp, ep); }
            else { StokesStiffness<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(Ke, tu, e, tp, ep, {0, 1, 2}, m.x, mu); Assembling(K, F, up, Ke, ntg, {tu, tp}, {e, ep}); } }
        std::vector<double> r = solve(c, K, F, 2);
        if (ns) { Disassembling(d, r, ntg); step = 0; for (int i = 0; i < nn; i++) for (int a = 0; a < 2; a++) step = std::max(step, fabsl(d[i](a))); for (int i = 0; i < nn; i++) up[i] += d[i]; if (step < 1e-12L) break; } else Disassembling(up, r, ntg);
    }
    ld dv = 0, dq = 0, ps = mu / (ld)m.size + fabsl(p0) + rho; bool fin = true; for (int i = 0; i < nn; i++) for (size_t a = 0; a < ntg[i].size(); a++) { if (!std::isfinite(up[i](a))) fin = false; (a < 2 ? dv : dq) = std::max(a < 2 ? dv : dq, fabsl(up[i](a) - ex(i, a))); }
    if (!c.expect("finite", fin, "flow: the result is not finite")) return; if (ns) c.near("newton", step, 0, 1e-8L, "Navier-Stokes: Newton iterations do not settle");
    c.near("exact-velocity", dv, 0, 1e-7L, cat(ns ? "Navier-Stokes" : "Stokes", ": velocities differ from the exact flow")); c.near("exact-pressure", dq / ps, 0, 1e-6L, cat(ns ? "Navier-Stokes" : "Stokes", ": pressures differ from the exact flow"));
}
// ---- finite deformation: Newton iterations from a disturbed state reach the homogeneous deformation
template <template <class> class SF, template <class> class IC> static void largeOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(); DV q = m.x[0]; int nd = q.SIZE(); bool ul = g.chance(0.5); double E = g.logu(0.1, 1e3), V = g.uni(0, 0.35), th = g.logu(0.1, 10), a = 0.06; RM H(nd, nd); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) H(i, j) = a * g.uni(-1, 1);
    RM X(nn, nd); for (int i = 0; i < nn; i++) for (int k = 0; k < nd; k++) X(i, k) = m.x[i](k); LV xc = centre(X), u0(nd); for (auto& v : u0) v = 0.1 * m.size * g.uni(-1, 1); LV ex = fieldOf(X, H, u0, xc);
    Fix fx = constrain(c, m, nd, true, true, [&](int i, int k) { return (double)ex[i * nd + k]; }); c.describe(m.name, ul ? " updated" : " total", " Lagrange, E ", E, " nu ", V, ", ", nn, " nodes"); for (auto& p : m.x) for (int k = 0; k < nd; k++) c.input(p(k)); c.count(cat(ul ? "updated " : "total ", nd));
    std::vector<DV> u(nn, DV(nd)); double hmin = 1e300; for (auto& e : m.el) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) hmin = std::min(hmin, (m.x[e[i]] - m.x[e[j]]).Norm());
    for (int i = 0; i < nn; i++) for (int k = 0; k < nd; k++) u[i](k) = (double)ex[i * nd + k] + 0.02 * hmin * g.uni(-1, 1);
    IM ntg(nn, std::vector<int>(nd, 0)); SetDirichlet(u, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; } std::vector<int> dl; for (int k = 0; k < nd; k++) dl.push_back(k);
    ld step = 0; int it = 0; for (; it < 25; it++) {
        LILCSR<double> K(N, N); std::vector<double> F(N, 0.0); std::vector<DV> d(nn, DV(nd));
        for (auto& e : m.el) { DM Ke; DV Qe; NTE t; if constexpr (KindOf<SF>::k < 30) { if (ul) PlaneStrainStiffnessUpdatedLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V, th); else PlaneStrainStiffnessTotalLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V, th); } else { if (ul) SolidUpdatedLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V); else SolidTotalLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V); } Assembling(K, F, d, Ke, Qe, ntg, t, e); }
        std::vector<double> r = solve(c, K, F, 2); Disassembling(d, r, ntg); step = 0; for (int i = 0; i < nn; i++) { for (int k = 0; k < nd; k++) step = std::max(step, fabsl(d[i](k))); u[i] += d[i]; } if (step < 1e-12L * m.size) break;
    }
    c.count("newton-iterations", it + 1); c.near("newton", step / m.size, 0, 1e-9L, m.name + ": Newton iterations do not settle"); compare(c, "homogeneous-deformation", u, ex, nd, 1e-7L, cat(m.name, ul ? ", updated" : ", total", " Lagrange: displacements differ from the homogeneous deformation (relative)"));
}
static void large(Case& c) { Msh m = c.rng.chance(0.35) ? mesh3(c) : mesh2(c); switch (m.kind) { case 23: largeOn<ShapeFunction3Triangle, Gauss1Triangle>(c, m); break; case 24: largeOn<ShapeFunction4Square, Gauss4Square>(c, m); break; case 28: largeOn<ShapeFunction8Square, Gauss9Square>(c, m); break; case 38: largeOn<ShapeFunction8Cubic, Gauss8Cubic>(c, m); break; case 34: largeOn<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(c, m); break; case 320: largeOn<ShapeFunction20Cubic, Gauss27Cubic>(c, m); break; default: c.boring(); } }
// ---- trusses
static void truss(Case& c) {
    Rng& g = c.rng; Msh m = mesh2(c); if (m.kind == 26 || m.kind == 28) { c.boring(); return; } int nn = m.x.size(); std::set<std::pair<int, int>> bars; for (auto& e : m.el) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) bars.insert({std::min(e[i], e[j]), std::max(e[i], e[j])});
    Fix fx = constrain(c, m, 2, g.chance(0.3), true, [&](int, int) { return g.chance(0.5) ? 0.0 : 0.1 * m.size * g.uni(-1, 1); }); std::vector<DV> u(nn, DV(2)); IM ntg(nn, std::vector<int>(2, 0)); SetDirichlet(u, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; }
    c.describe("truss on ", m.name, ", ", bars.size(), " bars"); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); } c.count("bars", bars.size()); double E = g.logu(1e-2, 1e6); LILCSR<double> K(N, N); std::vector<double> F(N, 0.0); Sys R(nn, 2); R.fixed(fx);
    for (auto& b : bars) { std::vector<int> e = {b.first, b.second}; if (g.chance(0.5)) std::swap(e[0], e[1]); double A = g.logu(0.1, 10); DM Ke; NTE t; Truss2D<double>(Ke, t, e, {0, 1}, m.x, E, A); Assembling(K, F, u, Ke, ntg, t, e); ld d[4]; DV p = m.x[e[0]], q = m.x[e[1]]; ld dx = (ld)q(0) - p(0), dy = (ld)q(1) - p(1), l = sqrtl(dx * dx + dy * dy); d[0] = -dx / l; d[1] = -dy / l; d[2] = dx / l; d[3] = dy / l; RM k(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) k(i, j) = E * A / l * d[i] * d[j]; R.add(k, e); }
    Fix q; std::set<std::pair<int, int>> used; for (int j = 0; j < 5; j++) { std::pair<int, int> p(g.range(0, nn - 1), g.range(0, 1)); if (used.insert(p).second) q.push_back({p, 0.1 * E * g.uni(-1, 1)}); } Assembling(F, q, ntg); for (auto& p : q) R.F[p.first.first * 2 + p.first.second] += p.second;
    std::vector<double> r = solve(c, K, F, 0); Disassembling(u, r, ntg); compare(c, "discrete-solution", u, R.solve(), 2, 1e-6L, cat("truss on ", m.name, ": displacements differ from the independent solution (relative)"));
}
// ---- free vibration: the eigenpair next to the shift satisfies the assembled problem
template <template <class> class SF, template <class> class IC> static void vibrateOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(); double E = g.logu(0.1, 1e3), V = g.uni(0, 0.4), rho = g.logu(0.1, 10), th = g.logu(0.1, 10); for (int i = 0; i < nn; i++) if (!m.bn.count(i) || true) for (int k = 0; k < 2; k++) m.x[i](k) += 0;
    Fix fx = constrain(c, m, 2, false, true, [](int, int) { return 0.0; }); IM ntg(nn, std::vector<int>(2, 0)); SetDirichlet(ntg, fx); int N = Renumbering(ntg); if (N < 2) { c.boring(); return; } c.describe("vibration, ", m.name, ", ", N, " equations"); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    LILCSR<double> K(N, N), M(N, N); Rule rl = ruleOf<IC>(); Sys Rk(nn, 2), Rm(nn, 2); Mat mt; mt.E = E; mt.V = V; mt.t = th;
    for (auto& e : m.el) { DM Ke, Me; NTE t; PlaneStrainStiffness<double, SF, IC>(Ke, t, e, {0, 1}, m.x, E, V, th); Assembling(K, Ke, ntg, t, e); PlaneStrainMass<double, SF, IC>(Me, t, e, {0, 1}, m.x, rho, th); Assembling(M, Me, ntg, t, e); El el = elOf(m, e); Rk.add(refIso(el, rl, lamOf(mt), muOf(mt), th), e); RM q(2 * e.size(), 2 * e.size()); for (auto& p : points(*el.f, el.X, rl)) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) for (int a = 0; a < 2; a++) q(2 * i + a, 2 * j + a) += p.w * rho * th * p.N[i] * p.N[j]; Rm.add(q, e); }
    std::vector<int> eq; for (int i = 0; i < nn; i++) for (int a = 0; a < 2; a++) if (ntg[i][a] >= 0) eq.push_back(2 * i + a); RM A(N, N), B(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { A(i, j) = Rk.K(eq[i], eq[j]); B(i, j) = Rm.K(eq[i], eq[j]); }
    ld sc = A(0, 0) / B(0, 0); double sh = -(double)sc * g.logu(1e-4, 1e-2); CSR<double> Kc(K), Mc(M); std::vector<double> ev; std::vector<std::vector<double>> vec; int mm = std::min(N, 12); GeneralShiftedInvertLanczos(Kc, Mc, ev, vec, mm, sh);
    if (!c.expect("count", ev.size() >= 1 && vec.size() == ev.size(), "vibration: no eigenpairs returned")) return; size_t best = 0; for (size_t i = 0; i < ev.size(); i++) if (std::fabs(ev[i] - sh) < std::fabs(ev[best] - sh)) best = i;
    RM Si = rinv([&] { RM S = A; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) S(i, j) -= sh * B(i, j); return S; }());
    RM L = chol(B), Z = A; gauss(L, Z); Z = Z.T(); { RM L2 = chol(B); gauss(L2, Z); } for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) Z(i, j) = Z(j, i) = 0.5L * (Z(i, j) + Z(j, i)); LV all = jacobi(Z); ld lam = *std::min_element(all.begin(), all.end());
    c.expect("spectrum", ev[best] >= lam - 1e-6L * (fabsl(lam) + fabsl((ld)sh)), cat("vibration, ", m.name, ": eigenvalue ", ev[best], " below the lowest one ", (double)lam));
    // the same number of steps with complete re-orthogonalisation: is the lowest pair within reach from the diagonal start vector?
    std::vector<LV> q; LV s(N), al, be; auto dotB = [&](const LV& a, const LV& b) { return quad(B, a, b); }; for (int i = 0; i < N; i++) s[i] = A(i, i) - sh * B(i, i); bool broke = false;
    for (int k = 0; k < mm; k++) { for (int rep = 0; rep < 2; rep++) for (auto& o : q) { ld d = dotB(o, s); for (int i = 0; i < N; i++) s[i] -= d * o[i]; } ld n = sqrtl(dotB(s, s)); if (k) { be.push_back(n); if (n < 1e-4L * fabsl(al[0])) { broke = true; break; } } for (auto& t : s) t /= n; q.push_back(s); LV w(N, 0), z(N, 0); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w[i] += B(i, j) * s[j]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) z[i] += Si(i, j) * w[j]; al.push_back(dotB(z, s)); s = z; }
    if (broke) { c.count("start-vector-degenerate"); return; } RM Tm(mm, mm); for (int i = 0; i < mm; i++) { Tm(i, i) = al[i]; if (i) Tm(i, i - 1) = Tm(i - 1, i) = be[i - 1]; } LV rt = jacobi(Tm); ld ritz = sh + 1 / *std::max_element(rt.begin(), rt.end());
    if (fabsl(ritz - lam) > 1e-11L * (fabsl(lam) + fabsl((ld)sh))) { c.count("not-converged-in-these-steps"); return; } c.count("converged-pairs");
    c.near("lowest-eigenvalue", (ev[best] - lam) / (fabsl(lam) + fabsl((ld)sh)), 0, 1e-5L, cat("vibration, ", m.name, ": eigenvalue next to the shift differs from the independent value (relative)"));
    LV x(vec[best].begin(), vec[best].end()); ld rs = 0, nm = 0; for (int i = 0; i < N; i++) { ld s = 0, t = 0; for (int j = 0; j < N; j++) { s += (A(i, j) - ev[best] * B(i, j)) * x[j]; t += fabsl(A(i, j)) * fabsl(x[j]); } rs = std::max(rs, fabsl(s)); nm = std::max(nm, t); } c.near("mode-shape", nm > 0 ? rs / nm : 1, 0, 1e-4L, cat("vibration, ", m.name, ": mode does not satisfy the eigenvalue problem (relative)"));
}
static void vibrate(Case& c) { Msh m = mesh2(c); switch (m.kind) { case 23: vibrateOn<ShapeFunction3Triangle, Gauss3Triangle>(c, m); break; case 24: vibrateOn<ShapeFunction4Square, Gauss4Square>(c, m); break; case 28: vibrateOn<ShapeFunction8Square, Gauss9Square>(c, m); break; default: c.boring(); } }
// ---- frames and plates: whole analyses with the structural elements
typedef std::array<ld, 3> V3;
static V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator*(ld s, V3 a) { return {s * a[0], s * a[1], s * a[2]}; }
static ld dot3(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross3(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static V3 rnd3(Rng& g, double s) { return {(ld)(s * g.uni(-1, 1)), (ld)(s * g.uni(-1, 1)), (ld)(s * g.uni(-1, 1))}; }
static void triad(Rng& g, V3& t, V3& p, V3& q) {
    ld n; do { t = rnd3(g, 1); n = sqrtl(dot3(t, t)); } while (n < 0.2L); t = (1 / n) * t;
    do { p = rnd3(g, 1); p = p - dot3(p, t) * t; n = sqrtl(dot3(p, p)); } while (n < 0.2L); p = (1 / n) * p; q = cross3(t, p);
    if (g.chance(0.15)) { t = {1, 0, 0}; p = {0, 1, 0}; q = {0, 0, 1}; }
}
// a straight cantilever of two-node beams: the nodal values follow exactly from statics
static void frame(Case& c) {
    Rng& g = c.rng; int n = g.range(1, 10), nn = n + 1; V3 t, p, q; triad(g, t, p, q); double L = g.logu(0.1, 10), a = L * g.uni(0.1, 0.6), b = L * g.uni(0.1, 0.6), E = g.logu(1e-2, 1e5), V = g.uni(-0.2, 0.45); ld G = E / (2 * (1 + (ld)V));
    std::vector<ld> h(n); ld H = 0; for (auto& v : h) { v = g.uni(0.3, 1); H += v; } for (auto& v : h) v *= L / H;
    std::vector<int> id(nn), dl = {0, 1, 2, 3, 4, 5}; for (int i = 0; i < nn; i++) id[i] = i; if (g.chance(0.6)) g.shuffle(id); bool slots = g.chance(0.4); if (slots) g.shuffle(dl);
    std::vector<V3> X(nn), F(nn, V3{0, 0, 0}), M(nn, V3{0, 0, 0}), U(nn), T(nn); X[0] = rnd3(g, L); for (int i = 0; i < n; i++) X[i + 1] = X[i] + h[i] * t;
    std::vector<DV> x(nn, DV(3)), v1(nn, DV(3)), v2(nn, DV(3)), u(nn, DV(6)); std::vector<double> s1(nn, 1), s2(nn, 1);
    for (int i = 0; i < nn; i++) { if (g.chance(0.5)) { s1[i] = g.logu(0.1, 10); s2[i] = g.logu(0.1, 10); } for (int k = 0; k < 3; k++) { x[id[i]](k) = (double)X[i][k]; v1[id[i]](k) = (double)(s1[i] * p[k]); v2[id[i]](k) = (double)(s2[i] * q[k]); c.input(x[id[i]](k)); } }
    double f0 = E * a * b * 1e-3 * std::min(a, b) / L; int many = g.range(0, 2);
    for (int i = 1; i < nn; i++) if (many == 2 || i == n || g.chance(0.3)) { if (many != 1 || g.chance(0.5)) F[i] = rnd3(g, f0); if (g.chance(0.6)) M[i] = rnd3(g, f0 * L); }
    bool moved = g.chance(0.4); U[0] = T[0] = {0, 0, 0}; if (moved) { U[0] = rnd3(g, 1e-3 * L); T[0] = rnd3(g, 1e-3); }
    for (int e = 0; e < n; e++) {
        V3 R = {0, 0, 0}, Mm = {0, 0, 0}, mid = 0.5L * (X[e] + X[e + 1]); for (int k = e + 1; k < nn; k++) { R = R + F[k]; Mm = Mm + M[k] + cross3(X[k] - mid, F[k]); }
        ld A = (ld)a * b, Ip = (ld)a * b * b * b / 12, Iq = (ld)b * a * a * a / 12, Gk = G / 1.2L;
        T[e + 1] = T[e] + h[e] * ((dot3(Mm, t) / (Gk * (Ip + Iq))) * t + (dot3(Mm, p) / (E * Ip)) * p + (dot3(Mm, q) / (E * Iq)) * q);
        U[e + 1] = U[e] + h[e] * ((dot3(R, t) / (E * A)) * t + (dot3(R, p) / (Gk * A)) * p + (dot3(R, q) / (Gk * A)) * q) + h[e] * cross3(0.5L * (T[e] + T[e + 1]), t);
    }
    c.describe("cantilever of ", n, " beams, length ", L, ", section ", a, " x ", b); c.count("beam-elements", n); if (slots) c.count("permuted-unknowns"); if (moved) c.count("moved-support");
    Fix fx; for (int k = 0; k < 3; k++) { fx.push_back({{id[0], dl[k]}, (double)U[0][k]}); fx.push_back({{id[0], dl[k + 3]}, (double)T[0][k]}); } g.shuffle(fx);
    IM ntg(nn, std::vector<int>(6, 0)); SetDirichlet(u, ntg, fx); int N = Renumbering(ntg); LILCSR<double> K(N, N); std::vector<double> B(N, 0.0); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; g.shuffle(ord); std::vector<std::pair<NTE, std::pair<DM, std::vector<int>>>> keep;
    for (int e : ord) { std::vector<int> el = {id[e], id[e + 1]}; DM Ke; NTE nt; BeamLinearIsotropicElastic<double, ShapeFunction2Line, Gauss1Line, Gauss4Square>(Ke, nt, el, dl, x, v1, v2, E, V, a, b); Assembling(K, B, u, Ke, ntg, nt, el); keep.push_back({nt, {Ke, el}}); }
    Fix ld_; for (int i = 1; i < nn; i++) for (int k = 0; k < 3; k++) { if (F[i][k] != 0) ld_.push_back({{id[i], dl[k]}, (double)F[i][k]}); if (M[i][k] != 0) ld_.push_back({{id[i], dl[k + 3]}, (double)M[i][k]}); } g.shuffle(ld_); Assembling(B, ld_, ntg);
    std::vector<double> r = solve(c, K, B, 2); Disassembling(u, r, ntg);
    ld su = 1e-300L, st = 1e-300L, du = 0, dt = 0; for (int i = 0; i < nn; i++) for (int k = 0; k < 3; k++) { su = std::max({su, fabsl(U[i][k]), fabsl(T[i][k]) * L}); st = std::max({st, fabsl(T[i][k]), fabsl(U[i][k]) / L}); }
    bool fin = true; for (int i = 0; i < nn; i++) for (int k = 0; k < 3; k++) { double w = u[id[i]](dl[k]), o = u[id[i]](dl[k + 3]); if (!std::isfinite(w) || !std::isfinite(o)) fin = false; du = std::max(du, fabsl(w - U[i][k])); dt = std::max(dt, fabsl(o - T[i][k])); }
    if (!c.expect("finite", fin, "frame: the result is not finite")) return;
    c.near("beam-displacement", du / su, 0, 1e-6L, "cantilever: displacements differ from the statics of the beam (relative)"); c.near("beam-rotation", dt / st, 0, 1e-6L, "cantilever: rotations differ from the statics of the beam (relative)");
    // support reactions balance the loads in force and moment
    RemoveBoundaryConditions(ntg); int N2 = Renumbering(ntg); std::vector<double> P(N2, 0.0); for (auto& k : keep) { DV w = k.second.first * ElementVector(u, k.first, k.second.second); Assembling(P, w, ntg, k.first, k.second.second); }
    std::vector<DV> rx(nn, DV(6)); Disassembling(rx, P, ntg); V3 rf = {0, 0, 0}, rm = {0, 0, 0}, sf = {0, 0, 0}, sm = {0, 0, 0}; for (int k = 0; k < 3; k++) { rf[k] = rx[id[0]](dl[k]); rm[k] = rx[id[0]](dl[k + 3]); } for (int i = 1; i < nn; i++) { sf = sf + F[i]; sm = sm + M[i] + cross3(X[i] - X[0], F[i]); }
    ld big = std::max<ld>(f0, E * a * b * su / L * 1e-3L); V3 d1 = rf + sf, d2 = rm + sm; c.near("support-force", sqrtl(dot3(d1, d1)) / big, 0, 1e-6L, "cantilever: the support force does not balance the loads (relative)"); c.near("support-moment", sqrtl(dot3(d2, d2)) / (big * L), 0, 1e-6L, "cantilever: the support moment does not balance the loads (relative)");
}
// a flat shell anywhere in space: constant membrane strain, constant curvature and a rigid motion prescribed along the rim
static void plate(Case& c) {
    Rng& g = c.rng; bool quad = g.chance(0.6); int nx = g.range(2, quad ? 3 : 4), ny = g.range(2, quad ? 3 : 4); Msh m; m.kind = quad ? 28 : 24; SquareMesh<double> s(g.uni(0.5, 2), g.uni(0.5, 2), nx, ny); m.x = quad ? s.GenerateNodes2() : s.GenerateNodes(); m.el = quad ? s.GenerateElements2() : s.GenerateElements(); boundary(m); int nn = m.x.size();
    V3 e3, e1, e2; triad(g, e3, e1, e2); ld sh = g.uni(-0.5, 0.5), sc = g.chance(0.3) ? g.logu(1e-2, 1e2) : 1; V3 o = rnd3(g, 2 * sc); std::vector<DV> x(nn, DV(3)); std::vector<std::array<ld, 2>> st(nn);
    std::vector<int> pm(nn); for (int i = 0; i < nn; i++) pm[i] = i; if (g.chance(0.5)) g.shuffle(pm);
    for (int i = 0; i < nn; i++) { ld a = sc * (m.x[i](0) + sh * m.x[i](1)), b = sc * m.x[i](1); st[pm[i]] = {a, b}; V3 X = o + a * e1 + b * e2; for (int k = 0; k < 3; k++) { x[pm[i]](k) = (double)X[k]; c.input(x[pm[i]](k)); } }
    int turn = g.range(0, 3); for (auto& e : m.el) { for (auto& i : e) i = pm[i]; std::rotate(e.begin(), e.begin() + turn, e.begin() + 4); if (quad) std::rotate(e.begin() + 4, e.begin() + 4 + turn, e.end()); } g.shuffle(m.el); std::set<int> bn; for (int i : m.bn) bn.insert(pm[i]);
    double E = g.logu(1e-2, 1e5), V = g.uni(-0.2, 0.45), th = (double)sc * g.uni(0.05, 0.5); ld k11 = quad ? g.uni(-1, 1) / sc : 0, k22 = quad ? g.uni(-1, 1) / sc : 0, k12 = quad ? g.uni(-1, 1) / sc : 0, H[2][2]; for (auto& r : H) for (auto& v : r) v = g.uni(-1, 1); V3 w = rnd3(g, 1), u0 = rnd3(g, (double)sc);
    // the directions the rotations are measured about, from the first edge of the elements
    auto& e0 = m.el[0]; V3 l = {(ld)x[e0[1]](0) - x[e0[0]](0), (ld)x[e0[1]](1) - x[e0[0]](1), (ld)x[e0[1]](2) - x[e0[0]](2)}; V3 d1 = cross3(l, e3); d1 = (1 / sqrtl(dot3(d1, d1))) * d1; V3 d2 = cross3(e3, d1);
    LV want(5 * nn); std::vector<int> dl = {0, 1, 2, 3, 4}; if (g.chance(0.4)) { g.shuffle(dl); c.count("permuted-unknowns"); }
    for (int i = 0; i < nn; i++) { ld a = st[i][0], b = st[i][1]; V3 r = a * e1 + b * e2, U = u0 + cross3(w, r) + (H[0][0] * a + H[0][1] * b) * e1 + (H[1][0] * a + H[1][1] * b) * e2 + (k11 * a * a / 2 + k12 * a * b + k22 * b * b / 2) * e3, D = cross3(w, e3) - (k11 * a + k12 * b) * e1 - (k12 * a + k22 * b) * e2;
        for (int k = 0; k < 3; k++) want[5 * i + dl[k]] = U[k]; want[5 * i + dl[3]] = -dot3(D, d2) * sc; want[5 * i + dl[4]] = dot3(D, d1) * sc; }
    c.describe("plate of ", nx, "x", ny, quad ? " quadratic" : " linear", " shells, thickness ", th); c.count(quad ? "curvature" : "membrane");
    auto rot = [&](int a) { return a == dl[3] || a == dl[4]; }; Fix fx; for (int i : bn) for (int a = 0; a < 5; a++) fx.push_back({{i, a}, (double)(want[5 * i + a] / (rot(a) ? sc : 1))}); g.shuffle(fx);
    std::vector<DV> u(nn, DV(5)); IM ntg(nn, std::vector<int>(5, 0)); SetDirichlet(u, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; } LILCSR<double> K(N, N); std::vector<double> B(N, 0.0);
    for (auto& e : m.el) { DM Ke; NTE nt; if (quad) ShellLinearIsotropicElastic<double, ShapeFunction8Square, Gauss9Square, Gauss2Line>(Ke, nt, e, dl, x, E, V, th); else ShellLinearIsotropicElastic<double, ShapeFunction4Square, Gauss4Square, Gauss2Line>(Ke, nt, e, dl, x, E, V, th); Assembling(K, B, u, Ke, ntg, nt, e); }
    std::vector<double> r = solve(c, K, B, 2); Disassembling(u, r, ntg); for (auto& v : u) for (int a = 0; a < 5; a++) if (rot(a)) v(a) *= (double)sc;
    compare(c, "plate-field", u, want, 5, 1e-7L, cat("plate of ", quad ? "quadratic" : "linear", " shells: the interior does not follow the prescribed rigid motion, membrane strain and curvature (relative)"));
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_bvp");
    component("P22.plane", 2000, 60000, [](Case& c) { elastic(c, false); });
    component("P22.solid", 250, 8000, [](Case& c) { elastic(c, true); });
    component("P22.heat", 2500, 80000, heat);
    component("P22.transient", 1000, 30000, transient);
    component("P22.advection", 2500, 80000, advect);
    component("P22.flow", 200, 6000, flow);
    component("P22.large", 500, 16000, large);
    component("P22.truss", 2500, 80000, truss);
    component("P22.frame", 1500, 50000, frame);
    component("P22.plate", 500, 16000, plate);
    component("P22.vibration", 800, 25000, vibrate);
    return finish();
}
