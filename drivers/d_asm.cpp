// P11 assembly, P12 boundary conditions
#include "vh.hpp"
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
#include "src/LinearAlgebra/Models/Matrix.h"
#include "src/LinearAlgebra/Models/Vector.h"
#include "src/FEM/Controller/Assembling.h"
#include "src/FEM/Controller/BoundaryCondition.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::vector<std::vector<int>> NG;
typedef std::vector<std::vector<std::pair<int, int>>> NE;
typedef std::vector<std::pair<std::pair<int, int>, double>> Fix;
static bool integral;
static double mscale = 1;
static double rv(Case& c) { return integral ? (double)c.rng.range(-8, 8) : c.rng.chance(0.1) ? c.rng.sgn() * c.rng.logu(1e-18, 1e-5) : mscale * c.rng.val(); }
struct El { std::vector<std::vector<int>> nodes; std::vector<NE> nte; Matrix<double> Ke; Vector<double> Fe; int m; };
// a random model: numbers of unknowns per node, numbering with constrained and shared entries, prescribed values
struct Model { int nn, neq; NG ntg; std::vector<Vector<double>> u; std::vector<El> els; };
static Model model(Case& c, int groups) {
    Model M; integral = c.rng.chance(0.5); mscale = c.rng.chance(0.2) ? c.rng.pick(std::vector<double>{1e-13, 1e11}) : 1;
    M.nn = c.rng.chance(0.1) ? 1 : c.rng.chance(0.04) ? c.rng.range(30, 70) : c.rng.range(2, 14); int mix = c.rng.range(0, 2), nd = c.rng.range(1, 6), fixed = 0;
    double pf = c.rng.pick(std::vector<double>{0, 0.1, 0.3, 0.6, 0.95});
    std::vector<std::pair<int, int>> freel;
    for (int i = 0; i < M.nn; i++) {
        int k = mix == 0 ? c.rng.range(1, 6) : nd; M.ntg.push_back(std::vector<int>(k, 0)); Vector<double> v(k);
        for (int j = 0; j < k; j++) { v(j) = rv(c); if (c.rng.chance(pf)) { M.ntg[i][j] = -1; fixed++; } else freel.push_back({i, j}); }
        M.u.push_back(v);
    }
    c.rng.shuffle(freel);                     // any numbering, not only the one renumbering produces; sometimes shared equations
    M.neq = 0; int shared = 0;
    for (auto& f : freel) { if (M.neq && c.rng.chance(0.1)) { M.ntg[f.first][f.second] = c.rng.range(0, M.neq - 1); shared++; } else M.ntg[f.first][f.second] = M.neq++; }
    int ne = c.rng.range(1, 12);
    for (int e = 0; e < ne; e++) {
        El E; E.m = 0; std::vector<std::pair<int, int>*> slots; E.nodes.resize(groups); E.nte.resize(groups); bool part = c.rng.chance(0.4);
        for (int g = 0; g < groups; g++) {
            int k = c.rng.range(1, std::min(M.nn, 8)); std::vector<int> all; for (int i = 0; i < M.nn; i++) all.push_back(i); c.rng.shuffle(all); all.resize(k); E.nodes[g] = all;
            for (int i : all) { std::vector<int> d; for (size_t j = 0; j < M.ntg[i].size(); j++) if (!part || c.rng.chance(0.6)) d.push_back(j); c.rng.shuffle(d); std::vector<std::pair<int, int>> l; for (int j : d) l.push_back({j, E.m++}); E.nte[g].push_back(l); }
        }
        std::vector<int> perm(E.m); for (int i = 0; i < E.m; i++) perm[i] = i; if (c.rng.chance(0.7)) c.rng.shuffle(perm);
        for (auto& g : E.nte) for (auto& n : g) for (auto& p : n) p.second = perm[p.second];
        E.Ke = Matrix<double>(E.m, E.m); E.Fe = Vector<double>(E.m);
        for (int i = 0; i < E.m; i++) { E.Fe(i) = rv(c); for (int j = 0; j < E.m; j++) { E.Ke(i, j) = rv(c); c.input(E.Ke(i, j)); } }
        M.els.push_back(E);
    }
    c.describe(M.nn, " nodes, ", M.neq, " equations, ", fixed, " constrained, ", shared, " shared, ", ne, " elements", integral ? ", integer data" : "");
    c.count("constrained", fixed); c.count("shared-equations", shared); c.count("elements", ne);
    return M;
}
struct Ref { std::map<std::pair<int, int>, ld> K; std::map<std::pair<int, int>, ld> Km; std::vector<ld> F, Fm; };
static Ref reference(Model& M, bool dirichlet, bool load) {
    Ref R; R.F.assign(M.neq, 0); R.Fm.assign(M.neq, 0);
    for (auto& E : M.els) {
        struct D { int eq, loc, node, dof; }; std::vector<D> ds;
        for (size_t g = 0; g < E.nodes.size(); g++) for (size_t i = 0; i < E.nodes[g].size(); i++) for (auto& p : E.nte[g][i]) ds.push_back({M.ntg[E.nodes[g][i]][p.first], p.second, E.nodes[g][i], p.first});
        for (auto& a : ds) { if (a.eq < 0) continue;
            for (auto& b : ds) { ld k = E.Ke(a.loc, b.loc); if (b.eq >= 0) { R.K[{a.eq, b.eq}] += k; R.Km[{a.eq, b.eq}] += fabsl(k); } else if (dirichlet) { ld p = k * M.u[b.node](b.dof); R.F[a.eq] -= p; R.Fm[a.eq] += fabsl(p); } }
            if (load) { R.F[a.eq] += E.Fe(a.loc); R.Fm[a.eq] += fabsl((ld)E.Fe(a.loc)); } }
    }
    return R;
}
static ld tolof(ld mag) { return integral ? 0 : 1e-14L * 60 * mag; }
static void checkK(Case& c, LILCSR<double>& K, Model& M, Ref& R, bool base, std::map<std::pair<int, int>, double>& K0) {
    for (int i = 0; i < M.neq; i++) for (int j = 0; j < M.neq; j++) {
        auto it = R.K.find({i, j}); ld w = it == R.K.end() ? 0 : it->second, m = it == R.K.end() ? 0 : R.Km[{i, j}];
        if (base) { auto k = K0.find({i, j}); if (k != K0.end()) { w += k->second; m += fabsl((ld)k->second); } }
        c.near("matrix-entry", K.get(i, j), w, tolof(m), cat("K(", i, ",", j, ")"));
    }
    CSR<double> S(K);
    {   // what the matrix does to a vector: also sees entries that get() cannot reach (columns outside the system)
        std::vector<double> x(M.neq); for (auto& v : x) v = integral ? (double)c.rng.range(-8, 8) : c.rng.val();
        std::vector<double> y = S * x, z = K * x; c.expect("product-size", (int)y.size() == M.neq && (int)z.size() == M.neq, "size of the product");
        for (int i = 0; i < M.neq; i++) { ld w = 0, m = 0; for (int j = 0; j < M.neq; j++) { ld k = K.get(i, j); w += k * x[j]; m += fabsl(k * x[j]); } c.near("product", y[i], w, tolof(m), cat("row ", i, " of the compressed matrix times a vector")); c.near("product", z[i], w, tolof(m), cat("row ", i, " of the matrix times a vector")); }
    }
    for (int t = 0; t < 10 && M.neq; t++) { int i = c.rng.range(0, M.neq - 1), j = c.rng.range(0, M.neq - 1); c.expect("compressed-equal", S.get(i, j) == K.get(i, j), cat("compressed matrix differs at ", i, ",", j)); }
}
static void checkF(Case& c, const std::vector<double>& F, const std::vector<double>& F0, Ref& R) { for (size_t i = 0; i < F.size(); i++) c.near("load-entry", F[i], R.F[i] + F0[i], tolof(R.Fm[i] + fabs(F0[i])), cat("F(", i, ")")); }
struct Frozen { std::vector<double> v; };
static Frozen freeze(Model& M) { Frozen f; for (auto& u : M.u) for (int i = 0; i < u.SIZE(); i++) f.v.push_back(u(i)); for (auto& E : M.els) { for (int i = 0; i < E.m; i++) { f.v.push_back(E.Fe(i)); for (int j = 0; j < E.m; j++) f.v.push_back(E.Ke(i, j)); } } return f; }
static void assembly(Case& c, int kind) {     // 0 K,F,Ke,Fe  1 K,F,Ke  2 multi  3 K  4 F,Fe  5 F,u,Ke
    int groups = kind == 2 ? c.rng.range(1, 3) : 1; Model M = model(c, groups); Frozen fz = freeze(M);
    LILCSR<double> K(M.neq, M.neq), K2(M.neq, M.neq); std::vector<double> F(M.neq), F0(M.neq), F2; std::map<std::pair<int, int>, double> K0;
    bool base = c.rng.chance(0.4);
    if (base) { for (int t = 0; t < 2 * M.neq; t++) { int i = c.rng.range(0, M.neq - 1), j = c.rng.range(0, M.neq - 1); double v = rv(c); K.set(i, j, v); K2.set(i, j, v); K0[{i, j}] = v; } for (auto& v : F0) v = rv(c); }
    F = F0; F2 = F0;
    auto once = [&](LILCSR<double>& k, std::vector<double>& f, El& E) {
        switch (kind) {
        case 0: Assembling(k, f, M.u, E.Ke, E.Fe, M.ntg, E.nte[0], E.nodes[0]); break;
        case 1: Assembling(k, f, M.u, E.Ke, M.ntg, E.nte[0], E.nodes[0]); break;
        case 2: Assembling(k, f, M.u, E.Ke, M.ntg, E.nte, E.nodes); break;
        case 3: Assembling(k, E.Ke, M.ntg, E.nte[0], E.nodes[0]); break;
        case 4: Assembling(f, E.Fe, M.ntg, E.nte[0], E.nodes[0]); break;
        case 5: Assembling(f, M.u, E.Ke, M.ntg, E.nte[0], E.nodes[0]); break;
        }
    };
    for (auto& E : M.els) once(K, F, E);
    Ref R = reference(M, kind != 3 && kind != 4, kind == 0 || kind == 4);
    if (kind == 4 || kind == 5) { R.K.clear(); R.Km.clear(); }
    if (kind == 3) { std::fill(R.F.begin(), R.F.end(), 0); std::fill(R.Fm.begin(), R.Fm.end(), 0); }
    if (kind < 4) checkK(c, K, M, R, base, K0);
    checkF(c, F, F0, R);
    std::vector<El> sh = M.els; c.rng.shuffle(sh);
    for (auto& E : sh) once(K2, F2, E);
    for (int i = 0; i < M.neq; i++) { c.near("order-independent", F2[i], F[i], tolof(R.Fm[i] + fabs(F0[i])) , "load after another element order"); if (kind < 4) for (int j = 0; j < M.neq; j++) { ld m = R.Km.count({i, j}) ? R.Km[{i, j}] : 0; if (K0.count({i, j})) m += fabs(K0[{i, j}]); c.near("order-independent", K2.get(i, j), K.get(i, j), tolof(m), "matrix after another element order"); } }
    c.expect("inputs-unchanged", freeze(M).v == fz.v, "assembly changed its inputs");
}
static void neumann(Case& c) {
    Model M = model(c, 1); std::vector<double> F0(M.neq), F; for (auto& v : F0) v = rv(c); F = F0; Fix f; std::vector<ld> want(F0.begin(), F0.end()), mag(M.neq, 0);
    for (int i = 0; i < M.neq; i++) mag[i] = fabs(F0[i]);
    int n = c.rng.range(0, 30);
    for (int t = 0; t < n; t++) { int i = c.rng.range(0, M.nn - 1), j = c.rng.range(0, (int)M.ntg[i].size() - 1); double v = rv(c); f.push_back({{i, j}, v}); int q = M.ntg[i][j]; if (q >= 0) { want[q] += v; mag[q] += fabs(v); } }
    Fix f0 = f; Assembling(F, f, M.ntg);
    for (int i = 0; i < M.neq; i++) c.near("load-entry", F[i], want[i], tolof(mag[i]), cat("F(", i, ")"));
    c.expect("inputs-unchanged", f == f0, "list of loads changed");
}
// ---------------------------------------------------------------- P12
static void history(Case& c, bool periodic) {
    int nn = c.rng.chance(0.1) ? 1 : c.rng.chance(0.03) ? c.rng.range(100, 400) : c.rng.range(2, 30), nd = c.rng.range(1, 6); bool uneven = c.rng.chance(0.3);
    NG g; std::vector<Vector<double>> u; std::vector<std::vector<int>> fixd; std::vector<std::vector<double>> val;
    for (int i = 0; i < nn; i++) { int k = uneven ? c.rng.range(0, 6) : nd; g.push_back(std::vector<int>(k, 0)); u.push_back(Vector<double>(k)); fixd.push_back(std::vector<int>(k, 0)); val.push_back(std::vector<double>(k, 0)); for (int j = 0; j < k; j++) { val[i][j] = c.rng.val(); u[i](j) = val[i][j]; } }
    c.describe(nn, " nodes, ", uneven ? "uneven" : std::to_string(nd), " unknowns per node", periodic ? ", periodic" : "");
    auto checku = [&](const char* when) { bool ok = true; for (int i = 0; i < nn; i++) for (size_t j = 0; j < g[i].size(); j++) ok = ok && u[i](j) == val[i][j]; c.expect("field", ok, cat("field values after ", when)); };
    int rounds = c.rng.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        int sets = c.rng.range(0, 3);
        for (int s = 0; s < sets; s++) {
            Fix f; int n = c.rng.chance(0.15) ? 0 : c.rng.range(1, nn * 2); bool withu = c.rng.chance(0.7);
            if (c.rng.chance(0.05)) { n = 0; for (int i = 0; i < nn; i++) for (size_t j = 0; j < g[i].size(); j++) f.push_back({{i, (int)j}, c.rng.val()}); }
            for (int t = 0; t < n; t++) { int i = c.rng.range(0, nn - 1); if (g[i].empty()) continue; f.push_back({{i, c.rng.range(0, (int)g[i].size() - 1)}, c.rng.val()}); }
            for (auto& p : f) { fixd[p.first.first][p.first.second] = 1; if (withu) val[p.first.first][p.first.second] = p.second; c.input(p.first.first * 100 + p.first.second); }
            Fix f0 = f;
            if (withu) SetDirichlet(u, g, f); else SetDirichlet(g, f);
            c.expect("inputs-unchanged", f == f0, "list of prescribed values changed");
            bool ok = true; for (int i = 0; i < nn; i++) for (size_t j = 0; j < g[i].size(); j++) ok = ok && ((g[i][j] == -1) == (fixd[i][j] == 1));
            c.expect("constrains-exactly", ok, "constrained set differs from the named one"); checku("SetDirichlet"); c.count("dirichlet", f.size());
        }
        std::vector<int> master(nn); for (int i = 0; i < nn; i++) master[i] = i;
        int neq;
        if (periodic && nn > 1) {
            std::vector<std::pair<int, int>> pr; std::vector<int> order; for (int i = 0; i < nn; i++) order.push_back(i); c.rng.shuffle(order);
            int k = c.rng.range(0, nn - 1), bound = nn - k;      // order[bound..] become slaves, masters come earlier: chains are listed root first
            for (int t = bound; t < nn; t++) { int m = c.rng.chance(0.2) ? order[c.rng.range(0, t - 1)] : order[c.rng.range(0, bound - 1)]; if (g[m].size() != g[order[t]].size()) { c.count("unpaired"); continue; } pr.push_back({m, order[t]}); }
            for (auto& p : pr) { master[p.second] = master[p.first]; if (p.first != master[p.first]) c.count("chained-pairs"); c.input(p.first * 1000 + p.second); }
            auto pr0 = pr; neq = SetPeriodic(g, pr); c.expect("inputs-unchanged", pr == pr0, "pairs changed"); c.count("pairs", pr.size());
        } else neq = Renumbering(g);
        checku("numbering");
        // model: a slave carries its master's constraint state
        std::map<std::pair<int, int>, int> eqof; std::set<int> used; int freeCount = 0; bool ok = true; std::string why;
        for (int i = 0; i < nn; i++) for (size_t j = 0; j < g[i].size(); j++) {
            int m = master[i]; bool fx = fixd[m][j]; int e = g[i][j];
            if (fx) { if (e != -1) { ok = false; why = cat("node ", i, " unknown ", j, " is prescribed but numbered ", e); } continue; }
            if (e < 0 || e >= neq) { ok = false; why = cat("node ", i, " unknown ", j, " has equation ", e, " of ", neq); continue; }
            if (m == i) { freeCount++; if (!used.insert(e).second) { ok = false; why = cat("equation ", e, " used twice"); } eqof[{i, (int)j}] = e; }
        }
        c.expect("numbering", ok, why);
        c.expect("equation-count", neq == freeCount, cat("reported ", neq, " equations for ", freeCount, " free unknowns"));
        if (ok) for (int i = 0; i < nn; i++) for (size_t j = 0; j < g[i].size(); j++) if (master[i] != i && !fixd[master[i]][j]) c.expect("pairs-share", g[i][j] == eqof[{master[i], (int)j}], cat("node ", i, " unknown ", j, " does not share its master's equation"));
        if (!ok) return;
        std::vector<double> sol(neq); for (auto& v : sol) v = c.rng.uni(-5, 5); std::vector<double> sol0 = sol; NG g0 = g;
        for (int i = 0; i < nn; i++) for (size_t j = 0; j < g[i].size(); j++) if (g[i][j] >= 0) val[i][j] = sol[g[i][j]];
        Disassembling(u, sol, g); checku("Disassembling");
        c.expect("inputs-unchanged", sol == sol0 && g == g0, "Disassembling changed its inputs");
        if (r + 1 < rounds || c.rng.chance(0.3)) {
            RemoveBoundaryConditions(g); for (auto& f : fixd) for (auto& v : f) v = 0;
            bool fr = true; for (auto& n : g) for (int v : n) fr = fr && v != -1; c.expect("all-free", fr, "a constraint survives removal"); checku("removal");
        }
    }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_asm");
    const char* nm[] = {"matrix-and-load", "matrix", "mixed-fields", "matrix-only", "load-only", "prescribed-only"};
    for (int k = 0; k < 6; k++) component(cat("P11.", nm[k]), 900, 15000, [=](Case& c) { assembly(c, k); });
    component("P11.point-loads", 1500, 15000, neumann);
    component("P12.prescribed", 4000, 40000, [](Case& c) { history(c, false); });
    component("P12.periodic", 4000, 40000, [](Case& c) { history(c, true); });
    return finish();
}
