// P32 time marching and load stepping: what the schemes of the shipped programs conserve, keep steady or return to,
// observed over whole histories
#include "bvp.hpp"
#include "src/FEM/Equation/General.h"
#include "src/FEM/Equation/ReactionDiffusion.h"
typedef std::vector<double> D1;
static LV values(std::vector<DV>& u, int nd) { LV r; for (auto& v : u) for (int a = 0; a < nd; a++) r.push_back(v(a)); return r; }
static ld form(const RM& M, const LV& a, const LV& b) { ld s = 0; for (int i = 0; i < M.r; i++) { ld t = 0; for (int j = 0; j < M.c; j++) t += M(i, j) * b[j]; s += a[i] * t; } return s; }

// ---- periodic transport of a scalar -----------------------------------------------------------------------------
struct Torus { std::vector<DV> x; IM el; std::vector<std::pair<int, int>> pairs; std::vector<int> master; double Lx, Ly; int nx, ny, kind; bool regular; };
static Torus torus(Case& c) {
    Rng& g = c.rng; Torus t;
    t.nx = g.range(2, 7); t.ny = g.range(2, 7); t.Lx = g.logu(0.2, 5); t.Ly = g.logu(0.2, 5); t.kind = g.chance(0.6) ? 24 : 23; t.regular = g.chance(0.5);
    SquareMesh<double> s(t.Lx, t.Ly, t.nx, t.ny);
    t.x = s.GenerateNodes();
    IM q = s.GenerateElements();
    int N = t.x.size(); t.master.resize(N);
    std::map<std::pair<int, int>, int> at;
    auto key = [&](int i) { return std::make_pair((int)std::lround(t.x[i](0) / t.Lx * t.nx), (int)std::lround(t.x[i](1) / t.Ly * t.ny)); };
    for (int i = 0; i < N; i++) at[key(i)] = i;
    for (int i = 0; i < N; i++) { auto k = key(i); t.master[i] = at[{k.first % t.nx, k.second % t.ny}]; }
    if (!t.regular) { std::vector<DV> mv(N, DV(2)); for (auto& v : mv) { v(0) = 0.2 * t.Lx / t.nx * g.uni(-1, 1); v(1) = 0.2 * t.Ly / t.ny * g.uni(-1, 1); } for (int i = 0; i < N; i++) t.x[i] += mv[t.master[i]]; }
    for (int i = 0; i < N; i++) if (t.master[i] != i) t.pairs.push_back({t.master[i], i});
    g.shuffle(t.pairs);
    for (auto& e : q) { if (t.kind == 24) t.el.push_back(e); else if (t.regular || g.chance(0.5)) { t.el.push_back({e[0], e[1], e[2]}); t.el.push_back({e[0], e[2], e[3]}); } else { t.el.push_back({e[0], e[1], e[3]}); t.el.push_back({e[1], e[2], e[3]}); } }
    g.shuffle(t.el);
    return t;
}
template <template <class> class SF, template <class> class IC> static void transportOn(Case& c, Torus& t) {
    Rng& g = c.rng;
    int N = t.x.size(), steps = g.range(2, 12);
    double ax = g.uni(-2, 2), ay = g.uni(-2, 2), k = g.chance(0.5) ? 0 : g.logu(1e-3, 1), theta = g.pick(D1{0.5, 0.5, 1, 0.75});
    if (g.chance(0.1)) ax = 0;
    double h = std::min(t.Lx / t.nx, t.Ly / t.ny), dt = h / (std::fabs(ax) + std::fabs(ay) + k / h + 1e-3) * g.logu(0.05, 5);
    bool supg = g.chance(0.3), wave = t.regular && !supg && t.kind == 24 && g.chance(0.6); int kind = wave ? 1 : g.range(0, 2), wx = g.range(0, t.nx / 2), wy = g.range(0, t.ny / 2);
    double ph = g.uni(0, 2 * M_PI);
    std::vector<DV> T(N, DV(1));
    for (int i = 0; i < N; i++) { DV p = t.x[t.master[i]]; T[i](0) = kind == 0 ? 1.5 : kind == 1 ? std::cos(2 * M_PI * (wx * p(0) / t.Lx + wy * p(1) / t.Ly) + ph) : 0; }
    if (kind == 2) { for (int i = 0; i < N; i++) if (t.master[i] == i) T[i](0) = g.uni(-1, 1); for (int i = 0; i < N; i++) { double v = T[t.master[i]](0); T[i](0) = v; } }
    c.describe("periodic transport, kind ", t.kind, t.regular ? " regular " : " distorted ", t.nx, "x", t.ny, " velocity ", ax, " ", ay, " diffusion ", k, " theta ", theta, " dt ", dt, supg ? " stabilised" : "", wave ? " wave" : "");
    for (auto& p : t.x) { c.input(p(0)); c.input(p(1)); }
    c.count(supg ? "stabilised" : k > 0 ? "diffusive" : "pure-advection");
    IM ntg(N, std::vector<int>(1, 0));
    int M = SetPeriodic(ntg, t.pairs);
    c.expect("unknowns", M == t.nx * t.ny, cat("periodic mesh of ", t.nx, "x", t.ny, " cells has ", M, " unknowns"));
    if (M != t.nx * t.ny) return;
    // own consistent mass, for the observed quantities
    RM W(N, N); Rule rl = t.kind == 23 ? ruleOf<Gauss3Triangle>() : ruleOf<Gauss4Square>();
    for (auto& e : t.el) { El el; el.f = &fam(t.kind); el.X = RM(e.size(), 2); for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < 2; a++) el.X(i, a) = t.x[e[i]](a); for (auto& p : points(*el.f, el.X, rl)) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) W(t.master[e[i]], t.master[e[j]]) += p.w * p.N[i] * p.N[j]; }
    LV one(N, 1); ld area = (ld)t.Lx * t.Ly, tmax = 0; for (auto& v : T) tmax = std::max(tmax, fabsl(v(0)));
    ld tot0 = form(W, one, values(T, 1)), e0 = form(W, values(T, 1), values(T, 1)), eprev = e0;
    std::vector<DV> first = T;
    for (int s = 0; s < steps; s++) {
        LILCSR<double> K(M, M); D1 F(M, 0.0);
        for (auto& e : t.el) {
            NTE n; DM Me, Ae, De;
            Mass<double, SF, IC>(Me, n, e, {0}, t.x); Advection<double, SF, IC>(Ae, n, e, {0}, t.x, ax, ay); Diffusion<double, SF, IC>(De, n, e, {0}, t.x, k);
            DM L = Ae + De;
            if (supg) { DM S; MassSUPG<double, SF, IC>(S, n, e, {0}, t.x, ax, ay, k); Me += S; AdvectionSUPG<double, SF, IC>(S, n, e, {0}, t.x, ax, ay, k); L += S; }
            DV Te = ElementVector(T, n, e); DM Ke = Me / dt + theta * L; DV Fe = (Me / dt - (1.0 - theta) * L) * Te;
            Assembling(K, F, T, Ke, Fe, ntg, n, e);
        }
        D1 r = solve(c, K, F, 1); Disassembling(T, r, ntg);
        bool fin = true, per = true; for (int i = 0; i < N; i++) { if (!std::isfinite(T[i](0))) fin = false; if (T[i](0) != T[t.master[i]](0)) per = false; }
        if (!c.expect("finite", fin, "periodic transport: result is not finite")) return;
        c.expect("periodic", per, "periodic transport: paired nodes differ");
        LV v = values(T, 1); ld tot = form(W, one, v), en = form(W, v, v); c.count("steps");
        c.near("total", (tot - tot0) / (area * tmax), 0, 1e-8L * (s + 1), "periodic transport: the total amount changed (relative)");
        if (!supg) {
            if (k == 0 && theta == 0.5) c.near("energy", (en - e0) / std::max(e0, area * tmax * tmax * 1e-6L), 0, 1e-7L * (s + 1), "pure advection: energy changed (relative)");
            else c.expect("dissipation", en <= eprev + 1e-7L * area * tmax * tmax, cat("diffusive transport: energy grew from ", (double)eprev, " to ", (double)en));
            eprev = en;
        }
    }
    if (kind == 0) { ld d = 0; for (auto& v : T) d = std::max(d, fabsl(v(0) - 1.5L)); c.near("uniform", d, 0, 1e-8L * steps, "periodic transport: a uniform field changed"); }
    if (wave) {          // a plane wave on a regular grid is multiplied by one complex factor per step
        ld hx = (ld)t.Lx / t.nx, hy = (ld)t.Ly / t.ny, xi = 2 * M_PIl * wx / t.nx, et = 2 * M_PIl * wy / t.ny;
        ld mx = (2 + cosl(xi)) / 3 * hx, my = (2 + cosl(et)) / 3 * hy, kx = 2 * (1 - cosl(xi)) / hx, ky = 2 * (1 - cosl(et)) / hy, ix = sinl(xi), iy = sinl(et);
        ld m = mx * my, re = k * (kx * my + mx * ky), im = ax * ix * my + ay * mx * iy;
        // factor (m/dt - (1-theta) z) / (m/dt + theta z), z = re + i im
        ld nr = m / dt - (1 - theta) * re, ni = -(1 - theta) * im, dr = m / dt + theta * re, di = theta * im, q = dr * dr + di * di, fr = (nr * dr + ni * di) / q, fi = (ni * dr - nr * di) / q;
        ld cr = 1, ci = 0; for (int s = 0; s < steps; s++) { ld a = cr * fr - ci * fi; ci = cr * fi + ci * fr; cr = a; }
        ld worst = 0;
        for (int i = 0; i < N; i++) { DV p = t.x[t.master[i]]; ld a = 2 * M_PIl * ((ld)wx * p(0) / t.Lx + (ld)wy * p(1) / t.Ly) + ph; worst = std::max(worst, fabsl(T[i](0) - (cr * cosl(a) - ci * sinl(a)))); }
        c.count("waves"); c.near("wave", worst, 0, 1e-7L * steps, "periodic transport: plane wave is not advanced by its amplification factor");
    }
}
static void transport(Case& c) { Torus t = torus(c); if (t.kind == 24) transportOn<ShapeFunction4Square, Gauss4Square>(c, t); else transportOn<ShapeFunction3Triangle, Gauss3Triangle>(c, t); }

// ---- reaction and diffusion ------------------------------------------------------------------------------------
template <template <class> class SF, template <class> class IC> static void reactOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(), steps = g.range(1, 8); Rule rl = ruleOf<IC>();
    double D = g.logu(1e-3, 10) * m.size * m.size, theta = g.pick(D1{0.5, 1, 0.7}), dt = g.logu(0.01, 0.4), al = g.uni(0.5, 2), be = g.uni(-1, 1); bool uniform = g.chance(0.5), lumped = g.chance(0.4);
    auto f = [&](double u, DV du) { return al * u * (1.0 - u) + be * 0.1 * (uniform ? 0.0 : du(0)); };
    c.describe("reaction-diffusion, ", m.name, uniform ? ", uniform" : "", lumped ? ", lumped" : "", " D ", D, " dt ", dt); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    std::vector<DV> u(nn, DV(1)); double v0 = g.uni(0, 1.2); for (auto& v : u) v(0) = uniform ? v0 : g.uni(0, 1);
    ld w = v0;
    IM ntg(nn, std::vector<int>(1, 0)); int N = Renumbering(ntg);
    for (int s = 0; s < steps; s++) {
        LILCSR<double> K(N, N); D1 F(N, 0.0); std::vector<DV> old = u; ld source = 0, tot = 0, tot2 = 0, sz = 0;
        for (auto& e : m.el) {
            NTE t; DM Me, Ke; DV Fe;
            if (lumped) ReactionDiffusionLumpedMass<double, SF, IC>(Me, t, e, {0}, m.x); else ReactionDiffusionConsistentMass<double, SF, IC>(Me, t, e, {0}, m.x);
            ReactionDiffusionStiffness<double, SF, IC>(Ke, t, e, {0}, m.x, D); ReactionDiffusionReaction<double, SF, IC>(Fe, t, e, {0}, m.x, u, f);
            DV ue = ElementVector(u, t, e); DM Ae = Me / dt + Ke * theta; DV b = (Me / dt - Ke * (1.0 - theta)) * ue + Fe;
            Assembling(K, F, u, Ae, ntg, t, e); Assembling(F, b, ntg, t, e);
        }
        D1 r = solve(c, K, F, lumped ? 1 : 0); Disassembling(u, r, ntg);
        for (auto& e : m.el) { El el = elOf(m, e); for (auto& p : points(*el.f, el.X, rl)) { ld a = 0, b = 0, dx = 0; for (size_t i = 0; i < e.size(); i++) { a += p.N[i] * old[e[i]](0); b += p.N[i] * u[e[i]](0); dx += p.dN(0, i) * old[e[i]](0); } ld q = al * a * (1 - a) + be * 0.1L * (uniform ? 0 : dx); if (lumped) { a = b = 0; for (int i : e) { a += old[i](0) / e.size(); b += u[i](0) / e.size(); } }     // the lumped capacity gives every node of an element an equal share
            source += p.w * q; tot += p.w * a; tot2 += p.w * b; sz += p.w * (fabsl(q) * dt + fabsl(a) + fabsl(b)); } }
        bool fin = true; for (auto& v : u) if (!std::isfinite(v(0))) fin = false; if (!c.expect("finite", fin, "reaction-diffusion: result is not finite")) return;
        c.near("balance", (tot2 - tot - dt * source) / sz, 0, 1e-8L * (1 + 10 * D * dt * nn / (m.size * m.size)), m.name + ": the amount changes by something else than what reacts (relative)"); c.count("steps");
        if (uniform && (!lumped || m.kind == 23)) { w += dt * al * w * (1 - w); ld d = 0; for (auto& v : u) d = std::max(d, fabsl(v(0) - w)); c.near("uniform", d, 0, 1e-8L * (s + 1) * (1 + 10 * D * dt * nn / (m.size * m.size)), m.name + ": a uniform state does not follow the reaction alone"); }
    }
}
static void react(Case& c) { Msh m = mesh2(c); switch (m.kind) { case 23: reactOn<ShapeFunction3Triangle, Gauss3Triangle>(c, m); break; case 24: reactOn<ShapeFunction4Square, Gauss4Square>(c, m); break; case 28: reactOn<ShapeFunction8Square, Gauss9Square>(c, m); break; default: c.boring(); } }

// ---- fractional-step flow ---------------------------------------------------------------------------------------
template <template <class> class SF, template <class> class IC> static void fractionOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(); Rule rl = ruleOf<IC>(); double rho = g.logu(0.1, 10), mu = g.logu(1e-2, 1), hmin = 1e300;
    int mode = g.range(0, 2);           // 0 uniform stream, 1 steady shear, 2 anything, against an independent computation of every step
    for (auto& e : m.el) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) hmin = std::min(hmin, (m.x[e[i]] - m.x[e[j]]).Norm());
    double th = g.uni(0, 2 * M_PI), sp = g.logu(0.1, 3), b = g.uni(-1, 1) * m.size, dt = 0.03 * std::min(hmin * hmin * rho / mu, hmin / (sp * 3)); int steps = mode == 2 ? 3 : g.range(5, 25);
    if (g.chance(0.2)) th = g.range(0, 3) * M_PI / 2;
    double d[2] = {std::cos(th), std::sin(th)}, n[2] = {-d[1], d[0]}; DV xc = m.x[0];
    auto flow = [&](int i, int a) { if (mode == 0) return sp * d[a]; double s = sp * ((m.x[i](0) - xc(0)) * n[0] + (m.x[i](1) - xc(1)) * n[1] + b) / m.size; return s * d[a]; };
    c.describe("fractional step, ", m.name, mode == 0 ? " uniform stream" : mode == 1 ? " shear" : " general", " rho ", rho, " mu ", mu, " dt ", dt, " steps ", steps); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    c.count(mode == 0 ? "uniform" : mode == 1 ? "shear" : "general");
    Fix fv; for (int i : m.bn) for (int a = 0; a < 2; a++) fv.push_back({{i, a}, flow(i, a)}); g.shuffle(fv);
    std::vector<int> bn(m.bn.begin(), m.bn.end()); int pin = g.pick(bn); double p0 = mode == 2 ? 0.0 : g.chance(0.5) ? 0.0 : g.uni(-2, 2);
    std::vector<DV> v(nn, DV(2)), u(nn, DV(2)), p(nn, DV(1)); IM nu(nn, std::vector<int>(2, 0)), np(nn, std::vector<int>(1, 0));
    for (int i = 0; i < nn; i++) for (int a = 0; a < 2; a++) u[i](a) = mode == 2 ? sp * g.uni(-1, 1) : flow(i, a);
    SetDirichlet(v, nu, fv); SetDirichlet(u, nu, fv); int NU = Renumbering(nu); SetDirichlet(p, np, Fix{{{pin, 0}, p0}}); int NP = Renumbering(np);
    if (NU == 0) { c.boring(); return; }
    LV ru = values(u, 2), rv(2 * nn), rp(nn, 0); std::vector<char> held(2 * nn, 0); for (auto& f : fv) held[2 * f.first.first + f.first.second] = 1;
    ld worst = 0, wp = 0, un = 0;
    for (int s = 0; s < steps; s++) {
        LILCSR<double> Kv(NU, NU), Kp(NP, NP), Ku(NU, NU); D1 Fv(NU, 0.0), Fp(NP, 0.0), Fu(NU, 0.0);
        for (auto& e : m.el) { NTE t; DM Me; DV Fe; NavierStokesDecoupledLumpedMass<double, SF, IC>(Me, t, e, {0, 1}, m.x, rho); Assembling(Kv, Fv, v, Me, nu, t, e); NavierStokesAuxiliaryVelocity<double, SF, IC>(Fe, t, e, {0, 1}, m.x, u, rho, mu); Fe = Me * ElementVector(u, t, e) + dt * Fe; Assembling(Fv, Fe, nu, t, e); }
        CSR<double> Av(Kv); D1 dv = GetDiagonal(Av), xv = Scaling(dv, Fv); Disassembling(v, xv, nu);
        for (auto& e : m.el) { NTE t; DM Ke; DV Fe; NavierStokesPressurePoisson<double, SF, IC>(Ke, Fe, t, e, {0}, m.x, v, rho, dt); Assembling(Kp, Fp, p, Ke, np, t, e); Assembling(Fp, Fe, np, t, e); }
        D1 xp = solve(c, Kp, Fp, 0); Disassembling(p, xp, np);
        for (auto& e : m.el) { NTE t; DM Me; DV Fe; NavierStokesDecoupledLumpedMass<double, SF, IC>(Me, t, e, {0, 1}, m.x, rho); Assembling(Ku, Fu, u, Me, nu, t, e); NavierStokesNextstepVelocity<double, SF, IC>(Fe, t, e, {0, 1}, m.x, v, p, rho); Fe = Me * ElementVector(v, t, e) + dt * Fe; Assembling(Fu, Fe, nu, t, e); }
        CSR<double> Au(Ku); D1 du = GetDiagonal(Au), xu = Scaling(du, Fu); Disassembling(u, xu, nu); c.count("steps");
        if (mode == 2) {
            LV ms(nn, 0), q(2 * nn, 0), h(nn, 0); RM L(nn, nn);
            for (auto& e : m.el) { El el = elOf(m, e); for (auto& t : points(*el.f, el.X, rl)) { ld U[2] = {0, 0}, G[2][2] = {{0, 0}, {0, 0}}; for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < 2; a++) { U[a] += t.N[i] * ru[2 * e[i] + a]; for (int k = 0; k < 2; k++) G[a][k] += t.dN(k, i) * ru[2 * e[i] + a]; } for (size_t i = 0; i < e.size(); i++) { ms[e[i]] += t.w * rho / e.size(); for (int a = 0; a < 2; a++) for (int k = 0; k < 2; k++) q[2 * e[i] + a] -= t.w * (rho * t.N[i] * U[k] * G[a][k] + mu * t.dN(k, i) * G[a][k]); for (size_t j = 0; j < e.size(); j++) for (int k = 0; k < 2; k++) L(e[i], e[j]) += t.w * t.dN(k, i) * t.dN(k, j); } } }
            for (int i = 0; i < nn; i++) for (int a = 0; a < 2; a++) rv[2 * i + a] = held[2 * i + a] ? ru[2 * i + a] : ru[2 * i + a] + dt * q[2 * i + a] / ms[i];
            for (auto& e : m.el) { El el = elOf(m, e); for (auto& t : points(*el.f, el.X, rl)) { ld dv2 = 0; for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < 2; a++) dv2 += t.dN(a, i) * rv[2 * e[i] + a]; for (size_t i = 0; i < e.size(); i++) h[e[i]] -= t.w * rho / dt * t.N[i] * dv2; } }
            Sys P(nn, 1); P.K = L; P.F = h; P.fix[pin] = 1; P.val[pin] = p0; rp = P.solve(); LV gq(2 * nn, 0);
            for (auto& e : m.el) { El el = elOf(m, e); for (auto& t : points(*el.f, el.X, rl)) { ld dp[2] = {0, 0}; for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < 2; a++) dp[a] += t.dN(a, i) * rp[e[i]]; for (size_t i = 0; i < e.size(); i++) for (int a = 0; a < 2; a++) gq[2 * e[i] + a] += t.w * t.N[i] * dp[a]; } }
            for (int i = 0; i < nn; i++) for (int a = 0; a < 2; a++) ru[2 * i + a] = held[2 * i + a] ? ru[2 * i + a] : rv[2 * i + a] - dt * gq[2 * i + a] / ms[i];
        }
    }
    LV got = values(u, 2); ld pm = 0; bool fin = true;
    for (size_t i = 0; i < got.size(); i++) { if (!std::isfinite((double)got[i])) fin = false; ld w = mode == 2 ? ru[i] : flow(i / 2, i % 2); worst = std::max(worst, fabsl(got[i] - w)); un = std::max(un, fabsl(w)); }
    if (!c.expect("finite", fin, "fractional step: result is not finite")) return;
    for (int i = 0; i < nn; i++) { ld w = mode == 2 ? rp[i] : p0; wp = std::max(wp, fabsl(p[i](0) - w)); pm = std::max(pm, fabsl(w)); }
    ld ps = std::max(pm, (ld)(rho * hmin * sp / dt));
    c.near(mode == 2 ? "independent-velocity" : "steady-velocity", worst / std::max(un, 1e-30L), 0, 1e-8L * steps, m.name + (mode == 2 ? ": velocities differ from the independent computation (relative)" : ": a steady flow does not stay (relative)"));
    c.near(mode == 2 ? "independent-pressure" : "steady-pressure", wp / ps, 0, 1e-8L * steps, m.name + ": pressure (relative)");
}
static void fraction(Case& c) { Msh m = mesh2(c); switch (m.kind) { case 23: fractionOn<ShapeFunction3Triangle, Gauss3Triangle>(c, m); break; case 24: fractionOn<ShapeFunction4Square, Gauss4Square>(c, m); break; default: c.boring(); } }

// ---- unsteady Stokes flow between walls at rest -----------------------------------------------------------------
static void unsteady(Case& c) {
    Rng& g = c.rng; Msh m = mesh2(c, 28); int nn = m.x.size(), steps = g.range(2, 6); double mu = g.logu(0.01, 10), rho = g.logu(0.1, 10), theta = g.chance(0.5) ? 1.0 : 0.5, dt = rho * m.size * m.size / mu * g.logu(1e-4, 1);
    std::vector<char> corner(nn, 0); for (auto& e : m.el) for (int k = 0; k < 4; k++) corner[e[k]] = 1;
    int inner = nn - (int)m.bn.size(); if (2 * inner < (int)std::count(corner.begin(), corner.end(), 1)) { c.boring(); return; }
    Fix fx; int pin = -1; for (int i : m.bn) { fx.push_back({{i, 0}, 0.0}); fx.push_back({{i, 1}, 0.0}); if (corner[i] && (pin < 0 || g.chance(0.3))) pin = i; } fx.push_back({{pin, 2}, 0.0}); g.shuffle(fx);
    c.describe("unsteady Stokes, ", m.el.size(), " elements, mu ", mu, " rho ", rho, " dt ", dt, " theta ", theta); for (auto& p : m.x) { c.input(p(0)); c.input(p(1)); }
    std::vector<DV> up(nn); IM ntg(nn); for (int i = 0; i < nn; i++) { up[i] = DV(corner[i] ? 3 : 2); ntg[i] = std::vector<int>(corner[i] ? 3 : 2, 0); for (int a = 0; a < 2; a++) up[i](a) = g.uni(-1, 1); }
    SetDirichlet(up, ntg, fx); int N = Renumbering(ntg); Rule rl = ruleOf<Gauss9Square>(); const Fam& P4 = fam(24);
    RM W(nn, nn), G(nn, 2 * nn); for (auto& e : m.el) { El el = elOf(m, e); for (auto& p : points(*el.f, el.X, rl)) { LV np = P4.N(p.r); for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) W(e[i], e[j]) += p.w * rho * p.N[i] * p.N[j]; for (int q = 0; q < 4; q++) for (int j = 0; j < 8; j++) for (int a = 0; a < 2; a++) G(e[q], 2 * e[j] + a) += p.w * np[q] * p.dN(a, j); } }
    auto energy = [&] { ld s = 0; for (int a = 0; a < 2; a++) { LV v(nn); for (int i = 0; i < nn; i++) v[i] = up[i](a); s += form(W, v, v); } return s; }; ld e0 = energy(), prev = e0;
    for (int s = 0; s < steps; s++) {
        double th = s == 0 ? 1.0 : theta;            // the first step makes the start divergence-free
        LILCSR<double> K(N, N); D1 F(N, 0.0);
        for (auto& e : m.el) { std::vector<int> ep(e.begin(), e.begin() + 4); NTE tu, tp; DM Ke, Me; StokesStiffness<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(Ke, tu, e, tp, ep, {0, 1, 2}, m.x, mu); StokesMass<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(Me, tu, e, tp, ep, {0, 1, 2}, m.x, rho);
            DV upe = ElementVector(up, {tu, tp}, {e, ep}); DM Ae = Me / dt + th * Ke; DV be = (Me / dt - (1.0 - th) * Ke) * upe; Assembling(K, F, up, Ae, ntg, {tu, tp}, {e, ep}); Assembling(F, be, ntg, tu, e); Assembling(F, be, ntg, tp, ep); }
        D1 r = solve(c, K, F, 2); Disassembling(up, r, ntg); c.count("steps");
        ld en = energy(), um = 0, dv = 0; bool fin = std::isfinite((double)en); if (!c.expect("finite", fin, "unsteady Stokes: result is not finite")) return;
        LV v(2 * nn); for (int i = 0; i < nn; i++) for (int a = 0; a < 2; a++) { v[2 * i + a] = up[i](a); um = std::max(um, fabsl(up[i](a))); } LV q = G * v; for (int i = 0; i < nn; i++) if (corner[i] && i != pin) dv = std::max(dv, fabsl(q[i]));
        c.near("divergence", dv / m.size, 0, 1e-9L, "unsteady Stokes: the velocity is not divergence-free (relative to the initial velocity)");
        c.expect("decay", en <= prev * (1 + 1e-9L) + 1e-12L * e0, cat("unsteady Stokes between walls at rest: kinetic energy grew from ", (double)prev, " to ", (double)en)); prev = en;
    }
}

// ---- dead loads on finite-deformation elements ------------------------------------------------------------------
template <template <class> class SF, template <class> class IC> static void loadOn(Case& c, Msh& m) {
    Rng& g = c.rng; int nn = m.x.size(); DV q0 = m.x[0]; int nd = q0.SIZE(); bool ul = g.chance(0.5); double E = g.logu(0.1, 1e3), V = g.uni(0, 0.35), th = g.logu(0.1, 10); std::vector<int> dl; for (int k = 0; k < nd; k++) dl.push_back(k);
    Fix fx = constrain(c, m, nd, false, true, [](int, int) { return 0.0; }); std::set<std::pair<int, int>> held; for (auto& f : fx) held.insert(f.first);
    c.describe(m.name, ul ? " updated" : " total", " Lagrange, dead loads, E ", E, " nu ", V, ", ", nn, " nodes"); for (auto& p : m.x) for (int k = 0; k < nd; k++) c.input(p(k)); c.count(cat(ul ? "updated " : "total ", nd));
    IM ntg(nn, std::vector<int>(nd, 0)); std::vector<DV> z(nn, DV(nd)); SetDirichlet(z, ntg, fx); int N = Renumbering(ntg); if (N == 0) { c.boring(); return; }
    auto element = [&](DM& Ke, DV& Qe, NTE& t, const std::vector<int>& e, std::vector<DV>& u) { if constexpr (KindOf<SF>::k < 30) { if (ul) PlaneStrainStiffnessUpdatedLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V, th); else PlaneStrainStiffnessTotalLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V, th); } else { if (ul) SolidUpdatedLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V); else SolidTotalLagrange<double, SF, IC>(Ke, Qe, t, e, dl, m.x, u, E, V); } };
    Fix load; { std::set<std::pair<int, int>> used; int k = g.range(1, 5); for (int t = 0; t < 40 && (int)used.size() < k; t++) { std::pair<int, int> p(g.range(0, nn - 1), g.range(0, nd - 1)); if (!held.count(p) && used.insert(p).second) load.push_back({p, g.uni(-1, 1)}); } } if (load.empty()) { c.boring(); return; }
    ld km = 0, xm = 0; for (auto& p : m.x) for (int k = 0; k < nd; k++) xm = std::max(xm, fabsl(p(k)));
    // amplitude from the small-strain answer: the largest displacement difference inside an element is a few percent of its size
    { LILCSR<double> K(N, N); D1 F(N, 0.0); std::vector<DV> u(nn, DV(nd)), d(nn, DV(nd)); for (auto& e : m.el) { DM Ke; DV Qe; NTE t; element(Ke, Qe, t, e, u); for (size_t i = 0; i < e.size() * nd; i++) km = std::max(km, fabsl(Ke(i, i))); Assembling(K, F, d, Ke, Qe, ntg, t, e); } Assembling(F, load, ntg); D1 r = solve(c, K, F, 2); Disassembling(d, r, ntg); double rel = 0; for (auto& e : m.el) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) rel = std::max(rel, (d[e[i]] - d[e[j]]).Norm() / (m.x[e[i]] - m.x[e[j]]).Norm()); if (!(rel > 0)) { c.boring(); return; } double s = g.uni(0.01, 0.08) / rel; for (auto& p : load) p.second *= s; }
    double lm = 0; for (auto& p : load) lm = std::max(lm, std::fabs(p.second));
    ld fl = 4e-15L * km * xm; if (fl > 1e-7L * lm) { c.boring(); return; }           // what rounding leaves of the internal forces
    auto residual = [&](std::vector<DV>& u, double f, LILCSR<double>& K, D1& F, std::vector<DV>& d) { for (auto& e : m.el) { DM Ke; DV Qe; NTE t; element(Ke, Qe, t, e, u); Assembling(K, F, d, Ke, Qe, ntg, t, e); } Fix q = load; for (auto& p : q) p.second *= f; Assembling(F, q, ntg); ld s = 0; for (double v : F) s = std::max(s, fabsl(v)); return s; };
    auto newton = [&](std::vector<DV>& u, double f) -> int { for (int it = 0; it < 30; it++) { LILCSR<double> K(N, N); D1 F(N, 0.0); std::vector<DV> d(nn, DV(nd)); ld r = residual(u, f, K, F, d); if (!std::isfinite((double)r)) return -1; if (r < 1e-11L * lm + fl) return it; D1 x = solve(c, K, F, 2); Disassembling(d, x, ntg); for (int i = 0; i < nn; i++) u[i] += d[i]; } return -1; };
    std::vector<DV> a(nn, DV(nd)), b(nn, DV(nd)); int na = g.range(1, 2), nb = g.range(3, 4), its = 0; bool ok = true;
    for (int s = 1; s <= na && ok; s++) { int k = newton(a, (double)s / na); its += std::max(k, 0); ok = k >= 0; } for (int s = 1; s <= nb && ok; s++) { int k = newton(b, (double)s / nb); its += std::max(k, 0); ok = k >= 0; }
    c.count("newton-iterations", its);
    if (!c.expect("converges", ok, m.name + ": Newton iterations under a few percent of strain do not converge")) return;
    c.expect("quadratic", its <= 8 * (na + nb), cat(m.name, ": ", its, " iterations in ", na + nb, " load steps"));
    ld big = 0, dif = 0; for (int i = 0; i < nn; i++) for (int k = 0; k < nd; k++) { big = std::max(big, fabsl(a[i](k))); dif = std::max(dif, fabsl(a[i](k) - b[i](k))); }
    c.near("path", dif / big, 0, 1e-6L + 100 * fl / lm, m.name + ": the number of load steps changes the answer (relative)");
    // internal forces balance in the deformed position
    LV Q(nn * nd, 0); for (auto& e : m.el) { DM Ke; DV Qe; NTE t; element(Ke, Qe, t, e, a); for (size_t i = 0; i < e.size(); i++) for (auto& q : t[i]) Q[e[i] * nd + q.first] += Qe(q.second); }
    ld qm = 0, fs = 0, ms = 0; for (auto v : Q) qm = std::max(qm, fabsl(v)); for (int k = 0; k < nd; k++) { ld s = 0; for (int i = 0; i < nn; i++) s += Q[i * nd + k]; fs = std::max(fs, fabsl(s)); } for (int k = 0; k < nd; k++) for (int l = 0; l < k; l++) { ld s = 0; for (int i = 0; i < nn; i++) s += (m.x[i](k) - m.x[0](k) + a[i](k)) * Q[i * nd + l] - (m.x[i](l) - m.x[0](l) + a[i](l)) * Q[i * nd + k]; ms = std::max(ms, fabsl(s)); }
    c.near("force-balance", fs / qm, 0, (1e-9L + 10 * fl / qm) * nn, m.name + ": internal forces do not sum to zero (relative)"); c.near("moment-balance", ms / (qm * m.size), 0, (1e-9L + 10 * fl / qm) * nn, m.name + ": internal forces have a resultant moment about the deformed positions (relative)");
    ld re = 0; { std::vector<LV> none; LV applied(nn * nd, 0); for (auto& p : load) applied[p.first.first * nd + p.first.second] += p.second; for (int i = 0; i < nn; i++) for (int k = 0; k < nd; k++) if (!held.count({i, k})) re = std::max(re, fabsl(fabsl(Q[i * nd + k]) - fabsl(applied[i * nd + k]))); } c.near("equilibrium", re / lm, 0, 1e-8L + 10 * fl / lm, m.name + ": internal force at a free node differs from the load (relative)");
    int k = newton(a, 0.0); if (!c.expect("unloads", k >= 0, m.name + ": unloading does not converge")) return; ld left = 0; for (int i = 0; i < nn; i++) for (int j = 0; j < nd; j++) left = std::max(left, fabsl(a[i](j))); c.near("returns", left / big, 0, 1e-6L + 100 * fl / lm, m.name + ": the unloaded body is still deformed (relative)");
}
static void loads(Case& c) { Msh m = c.rng.chance(0.3) ? mesh3(c) : mesh2(c); if (m.x.size() > 40) { c.boring(); return; } switch (m.kind) { case 23: loadOn<ShapeFunction3Triangle, Gauss1Triangle>(c, m); break; case 24: loadOn<ShapeFunction4Square, Gauss4Square>(c, m); break; case 28: loadOn<ShapeFunction8Square, Gauss9Square>(c, m); break; case 38: loadOn<ShapeFunction8Cubic, Gauss8Cubic>(c, m); break; case 34: loadOn<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(c, m); break; default: c.boring(); } }
int main(int argc, char** argv) {
    parse(argc, argv, "d_march");
    component("P32.transport", 400, 12000, transport);
    component("P32.reaction", 500, 15000, react);
    component("P32.fractional", 500, 15000, fraction);
    component("P32.unsteady", 150, 4000, unsteady);
    component("P32.loading", 150, 5000, loads);
    return finish();
}
