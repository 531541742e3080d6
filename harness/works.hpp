// Pieces of library work, one per part of the library, each a function of a seed that returns everything it computes.
// d_omp.cpp runs them in concurrent user threads: no part may share hidden state with another object's use.
#pragma once
#include <fstream>
#include <unistd.h>
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
#include "src/LinearAlgebra/Models/Matrix.h"
#include "src/LinearAlgebra/Solvers/CG.h"
#include "src/LinearAlgebra/Solvers/Lanczos.h"
#include "src/FEM/Controller/NewtonCotesIntegration.h"
#include "src/FEM/Equation/PlaneStress.h"
#include "src/FEM/Equation/Homogenization.h"
#include "src/FEM/Equation/Solid.h"
#include "src/FEM/Equation/Shell.h"
#include "src/FEM/Equation/Beam.h"
#include "src/FEM/Equation/Truss.h"
#include "src/FEM/Equation/Stokes.h"
#include "src/FEM/Equation/NavierStokes.h"
#include "src/FEM/Equation/Advection.h"
#include "src/FEM/Equation/ReactionDiffusion.h"
#include "src/FEM/Equation/Numeric.h"
#include "src/Optimize/Filter/DensityFilter.h"
#include "src/Optimize/Filter/SensitivityFilter.h"
#include "src/Optimize/Solver/OC.h"
#include "src/PrePost/Mesher/AnnulusMesh.h"
#include "src/PrePost/Mesher/SquareAnnulusMesh.h"
#include "src/PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "src/PrePost/Mesher/GrandStructure.h"
#include "src/PrePost/Export/ExportToVTK.h"
#include "src/PrePost/Import/ImportFromVTK.h"
#include "src/PrePost/Import/ImportFromCSV.h"
namespace works {
using namespace PANSFEM2;
using vh::Rng;
typedef std::vector<double> V;
typedef Vector<double> DV;
typedef Matrix<double> DM;
typedef std::vector<std::vector<std::pair<int, int>>> NTE;
typedef std::vector<std::vector<int>> IM;
inline void put(V& o, DM a) { o.push_back(a.ROW()); o.push_back(a.COL()); for (int i = 0; i < a.ROW(); i++) for (int j = 0; j < a.COL(); j++) o.push_back(a(i, j)); }
inline void put(V& o, DV a) { o.push_back(a.SIZE()); for (int i = 0; i < a.SIZE(); i++) o.push_back(a(i)); }
inline void put(V& o, const V& a) { o.push_back(a.size()); o.insert(o.end(), a.begin(), a.end()); }
inline void put(V& o, const std::vector<DV>& a) { o.push_back(a.size()); for (auto& v : a) put(o, v); }
inline void put(V& o, const IM& a) { o.push_back(a.size()); for (auto& e : a) { o.push_back(e.size()); for (int i : e) o.push_back(i); } }
inline void put(V& o, const std::vector<std::pair<std::pair<int, int>, double>>& a) { for (auto& p : a) { o.push_back(p.first.first); o.push_back(p.first.second); o.push_back(p.second); } }
inline void put(V& o, const NTE& t) { for (auto& n : t) for (auto& q : n) { o.push_back(q.first); o.push_back(q.second); } }
struct Cell { std::vector<DV> x; std::vector<int> e; };
inline Cell cell(Rng& g, int kind) {
    static const double Q[8][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {0, -1}, {1, 0}, {0, 1}, {-1, 0}}, T[6][2] = {{0, 0}, {1, 0}, {0, 1}, {0.5, 0}, {0.5, 0.5}, {0, 0.5}};
    static const double H[20][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}, {0, -1, -1}, {1, 0, -1}, {0, 1, -1}, {-1, 0, -1}, {0, -1, 1}, {1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}};
    Cell c; int d = kind / 10 == 3 || kind >= 300 ? 3 : 2, n = kind == 320 ? 20 : kind % 10; double s = g.uni(0.5, 3);
    for (int i = 0; i < n; i++) { DV p(d); for (int k = 0; k < d; k++) p(k) = s * ((d == 3 ? H[i][k] : kind == 24 || kind == 28 ? Q[i][k] : T[i][k]) + 0.08 * g.uni(-1, 1)); c.x.push_back(p); c.e.push_back(i); }
    return c;
}
inline std::vector<DV> field(Rng& g, int n, int d, double a) { std::vector<DV> u(n, DV(d)); for (auto& v : u) for (int k = 0; k < d; k++) v(k) = a * g.uni(-1, 1); return u; }

// ---- elastic elements
template <template <class> class SF, template <class> class IC> void plane(Rng& g, V& o, int kind, bool split) {
    Cell c = cell(g, kind); double E = g.uni(1, 10), nu = g.uni(0, 0.4), t = g.uni(0.1, 2); int n = c.e.size(); NTE m; DM K; DV F; DM D(3, 3); for (int i = 0; i < 3; i++) D(i, i) = g.uni(1, 2);
    std::vector<DV> u = field(g, n, 2, 0.01), z = field(g, n, 2, 0.1);
    PlaneStrainStiffness<double, SF, IC>(K, m, c.e, {0, 1}, c.x, E, nu, t); put(o, K); put(o, m); PlaneStressStiffness<double, SF, IC>(K, m, c.e, {0, 1}, c.x, E, nu, t); put(o, K);
    PlaneStrainMass<double, SF, IC>(K, m, c.e, {0, 1}, c.x, E, t); put(o, K); PlaneStressMass<double, SF, IC>(K, m, c.e, {0, 1}, c.x, E, t); put(o, K);
    auto body = [](DV x) { DV f(2); f(0) = x(0); f(1) = 1; return f; }; PlaneStrainBodyForce<double, SF, IC>(F, m, c.e, {0, 1}, c.x, body, t); put(o, F); PlaneStressBodyForce<double, SF, IC>(F, m, c.e, {0, 1}, c.x, body, t); put(o, F);
    PlaneStrainStiffnessTotalLagrange<double, SF, IC>(K, F, m, c.e, {0, 1}, c.x, u, E, nu, t); put(o, K); put(o, F); PlaneStrainStiffnessUpdatedLagrange<double, SF, IC>(K, F, m, c.e, {0, 1}, c.x, u, E, nu, t); put(o, K); put(o, F);
    PlaneStiffness<double, SF, IC>(K, m, c.e, {0, 1}, c.x, D, t); put(o, K);
    HomogenizePlaneStrainBodyForce<double, SF, IC>(K, m, c.e, {0, 1}, c.x, E, nu, t); put(o, K); std::vector<DV> u2 = u; put(o, HomogenizePlaneStrainConstitutive<double, SF, IC>(c.x, c.e, u, z, u2, E, nu, t)); put(o, HomogenizePlaneStrainCheck<double, SF, IC>(c.x, c.e, u, z, u2, t));
    if constexpr (std::is_same<SF<double>, ShapeFunction4Square<double>>::value) {
        PlaneStrainStiffnessSRI<double, SF, Gauss1Square, IC>(K, m, c.e, {0, 1}, c.x, E, nu, t); put(o, K); PlaneStrainStiffnessBbar<double, SF, Gauss1Square, IC>(K, m, c.e, {0, 1}, c.x, E, nu, t); put(o, K); PlaneStrainStiffnessWilsonTaylor<double, SF, IC>(K, m, c.e, {0, 1}, c.x, E, nu, t); put(o, K);
        PlaneStiffnessBbar<double, SF, Gauss1Square, IC>(K, m, c.e, {0, 1}, c.x, D, t); put(o, K); PlaneStiffnessWilsonTaylor<double, SF, IC>(K, m, c.e, {0, 1}, c.x, D, t); put(o, K);
        std::vector<int> side = {0, 1}; auto tr = [](DV x) { DV f(2); f(0) = 1; f(1) = x(1); return f; }; PlaneStrainSurfaceForce<double, ShapeFunction2Line, Gauss2Line>(F, m, side, {0, 1}, c.x, tr, t); put(o, F); PlaneStressSurfaceForce<double, ShapeFunction2Line, Gauss2Line>(F, m, side, {0, 1}, c.x, tr, t); put(o, F); PlaneStrainSurfacePressureUpdatedLagrange<double, ShapeFunction2Line, Gauss2Line>(K, F, m, side, {0, 1}, c.x, u, E, t); put(o, K); put(o, F);
        o.push_back(NumericIntegrationOnLine<double, ShapeFunction2Line, Gauss2Line>(c.x, side, [](DV x) { return x(0) * x(1) + 1; }));
    }
    o.push_back(Area<double, SF, IC>(c.x, c.e)); put(o, CenterOfGravity(c.x, c.e)); (void)split;
}
template <template <class> class SF, template <class> class IC> void solid(Rng& g, V& o, int kind) {
    Cell c = cell(g, kind); double E = g.uni(1, 10), nu = g.uni(0, 0.4); int n = c.e.size(); NTE m; DM K; DV F; std::vector<DV> u = field(g, n, 3, 0.01);
    SolidLinearIsotropicElastic<double, SF, IC>(K, m, c.e, {0, 1, 2}, c.x, E, nu); put(o, K); put(o, m); SolidTotalLagrange<double, SF, IC>(K, F, m, c.e, {0, 1, 2}, c.x, u, E, nu); put(o, K); put(o, F); SolidUpdatedLagrange<double, SF, IC>(K, F, m, c.e, {0, 1, 2}, c.x, u, E, nu); put(o, K); put(o, F); o.push_back(Volume<double, SF, IC>(c.x, c.e));
}
inline void structural(Rng& g, V& o) {
    double E = g.uni(1, 10), nu = g.uni(0, 0.4), t = g.uni(0.1, 0.5); NTE m; DM K; std::vector<DV> p2 = {{0.0, 0.0}, {g.uni(1, 2), g.uni(-1, 1)}}; Truss2D<double>(K, m, {0, 1}, {0, 1}, p2, E, t); put(o, K); put(o, m);
    std::vector<DV> p3 = {{0.0, 0.0, 0.0}, {g.uni(1, 2), 0.0, 0.0}}, v1(2, DV(std::vector<double>{0, 1, 0})), v2(2, DV(std::vector<double>{0, 0, 1})); BeamLinearIsotropicElastic<double, ShapeFunction2Line, Gauss1Line, Gauss4Square>(K, m, {0, 1}, {0, 1, 2, 3, 4, 5}, p3, v1, v2, E, nu, t, 2 * t); put(o, K);
    std::vector<DV> s = {{0.0, 0.0, 0.0}, {g.uni(1, 2), 0.0, 0.1}, {1.0, g.uni(1, 2), 0.2}, {0.0, 1.0, 0.0}}; ShellLinearIsotropicElastic<double, ShapeFunction4Square, Gauss4Square, Gauss2Line>(K, m, {0, 1, 2, 3}, {0, 1, 2, 3, 4}, s, E, nu, t); put(o, K); ShellLinearIsotropicElastic2<double, ShapeFunction4Square, Gauss4Square, Gauss2Line>(K, m, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5}, s, E, nu, t); put(o, K);
}
// ---- flow and transport elements
inline void flow(Rng& g, V& o) {
    Cell c = cell(g, 28); std::vector<int> ep(c.e.begin(), c.e.begin() + 4), dl = {0, 1, 2}; NTE a, b; DM K; DV F; double rho = g.uni(0.5, 2), mu = g.uni(0.01, 1), dt = g.uni(0.01, 0.1); std::vector<DV> up = field(g, 8, 3, 1); DM k(2, 2); k(0, 0) = 2; k(1, 1) = 3; k(0, 1) = g.uni(-1, 1); auto f = [](DV x) { DV r(2); r(0) = x(1); r(1) = 1; return r; };
    StokesStiffness<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, mu); put(o, K); put(o, a); put(o, b); StokesMass<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, rho); put(o, K);
    StokesBodyForce<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(F, a, c.e, b, ep, dl, c.x, f); put(o, F); BrinkmanBodyForce<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, k); put(o, K);
    NavierStokesTangent<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, F, a, c.e, b, ep, dl, c.x, up, rho, mu); put(o, K); put(o, F); NavierStokesStiffness<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, up, rho, mu); put(o, K);
    NavierStokesConsistentMass<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, rho); put(o, K); ContinuityStiffness<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x); put(o, K);
    NavierStokesBodyForce<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(F, a, c.e, b, ep, dl, c.x, f); put(o, F); NavierStokesAdjoint<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, up, rho, mu); put(o, K); NavierStokesBrinkmanBodyForce<double, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square>(K, a, c.e, b, ep, dl, c.x, k); put(o, K);
    Cell q = cell(g, 24); std::vector<DV> uq = field(g, 4, 2, 1), pq = field(g, 4, 1, 1);
    NavierStokesSUPGPSPGStiffness<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(K, a, q.e, b, q.e, dl, q.x, up, rho, mu, dt); put(o, K); NavierStokesSUPGPSPGConsistentMass<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(K, a, q.e, b, q.e, dl, q.x, up, rho, mu, dt); put(o, K); ContinuitySUPGPSPGStiffness<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(K, a, q.e, b, q.e, dl, q.x, up, rho, mu, dt); put(o, K);
    NavierStokesDecoupledConsistentMass<double, ShapeFunction4Square, Gauss4Square>(K, a, q.e, {0, 1}, q.x, rho); put(o, K); NavierStokesDecoupledLumpedMass<double, ShapeFunction4Square, Gauss4Square>(K, a, q.e, {0, 1}, q.x, rho); put(o, K); NavierStokesAuxiliaryVelocity<double, ShapeFunction4Square, Gauss4Square>(F, a, q.e, {0, 1}, q.x, uq, rho, mu); put(o, F);
    NavierStokesPressurePoisson<double, ShapeFunction4Square, Gauss4Square>(K, F, a, q.e, {0}, q.x, uq, rho, dt); put(o, K); put(o, F); NavierStokesNextstepVelocity<double, ShapeFunction4Square, Gauss4Square>(F, a, q.e, {0, 1}, q.x, uq, pq, rho); put(o, F);
}
template <template <class> class SF, template <class> class IC> void transport(Rng& g, V& o, int kind) {
    Cell c = cell(g, kind); NTE m; DM K; DV F; double ax = g.uni(-1, 1), ay = g.uni(-1, 1), k = g.uni(0.01, 1); std::vector<DV> u = field(g, c.e.size(), 1, 1);
    Advection<double, SF, IC>(K, m, c.e, {0}, c.x, ax, ay); put(o, K); AdvectionSUPG<double, SF, IC>(K, m, c.e, {0}, c.x, ax, ay, k); put(o, K); AdvectionShockCapturing<double, SF, IC>(K, m, c.e, {0}, c.x, ax, ay, k); put(o, K); Diffusion<double, SF, IC>(K, m, c.e, {0}, c.x, k); put(o, K); Mass<double, SF, IC>(K, m, c.e, {0}, c.x); put(o, K); MassSUPG<double, SF, IC>(K, m, c.e, {0}, c.x, ax, ay, k); put(o, K);
    ReactionDiffusionConsistentMass<double, SF, IC>(K, m, c.e, {0}, c.x); put(o, K); ReactionDiffusionLumpedMass<double, SF, IC>(K, m, c.e, {0}, c.x); put(o, K); ReactionDiffusionStiffness<double, SF, IC>(K, m, c.e, {0}, c.x, k); put(o, K); ReactionDiffusionReaction<double, SF, IC>(F, m, c.e, {0}, c.x, u, [](double v, DV d) { return v * (1 - v) + d(0); }); put(o, F);
    HeatTransfer<double, SF, IC>(K, m, c.e, {0}, c.x, k, 0.5); put(o, K); HeatCapacity<double, SF, IC>(K, m, c.e, {0}, c.x, k, 2.0, 0.5); put(o, K); WeakSpring(K, m, c.e, {0}, c.x, k); put(o, K);
}
// ---- shape functions and rules, evaluated directly
template <template <class> class SF, template <class> class IC> void shape(V& o) { for (int g = 0; g < IC<double>::N; g++) { put(o, SF<double>::N(IC<double>::Points[g])); put(o, SF<double>::dNdr(IC<double>::Points[g])); for (double w : IC<double>::Weights[g]) o.push_back(w); } }
inline void shapes(Rng& g, V& o) {
    shape<ShapeFunction2Line, Gauss2Line>(o); shape<ShapeFunction3Line, Gauss2Line>(o); shape<ShapeFunction3Triangle, Gauss3Triangle>(o); shape<ShapeFunction6Triangle, Gauss3Triangle>(o); shape<ShapeFunction4Square, Gauss4Square>(o); shape<ShapeFunction8Square, Gauss9Square>(o); shape<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(o); shape<ShapeFunction8Cubic, Gauss8Cubic>(o); shape<ShapeFunction20Cubic, Gauss27Cubic>(o);
    int n = g.range(2, 6); V xs; for (int i = 0; i < n; i++) xs.push_back(i + 0.3 * g.u01()); double x = g.uni(0, n); put(o, LagrangeInterpolation(xs, x)); put(o, LagrangeInterpolationDerivative(xs, x));
    IM el = {{0, 1, 3, 2}, {2, 3, 5, 4}}; V ue = {g.u01(), g.u01()}, un; for (int i = 0; i < 6; i++) un.push_back(g.u01()); put(o, InterpolateNodalFromElemental(6, 0.0, ue, el)); put(o, InterpolateElementalFromNodal(0.0, un, el));
}
// ---- filters and optimality criteria
inline void filters(Rng& g, V& o) {
    int n = g.range(4, 14); IM nb(n); std::vector<V> w(n); for (int i = 0; i < n; i++) for (int j = std::max(0, i - 2); j <= std::min(n - 1, i + 2); j++) { nb[i].push_back(j); w[i].push_back(3 - std::abs(i - j)); } V s(n), d(n); for (auto& v : s) v = g.uni(0.1, 1); for (auto& v : d) v = g.uni(-1, 1);
    DensityFilter<double> f(n, nb, w); SensitivityFilter<double> a(n, nb, w); SensitivityFilter2<double> b(n, nb, w); for (int k = 0; k < 3; k++) { put(o, f.GetFilteredVariables(s)); put(o, f.GetFilteredSensitivitis(s, d)); put(o, a.GetFilteredSensitivitis(s, d)); put(o, b.GetFilteredSensitivitis(s, d)); for (auto& v : s) v *= 0.97; }
}
inline void criteria(Rng& g, V& o) {
    int n = g.range(3, 12); V lo(n, 0.05), hi(n, 1.0), x(n, 0.5), c(n); for (auto& v : c) v = g.uni(0.5, 2); OC<double> q(n, 0.5, 0.0, 1.0e4, 1.0e-6, 0.15, lo, hi);
    for (int k = 0; k < 5; k++) { double f = 0, h = -0.5 * n; V df(n), dg(n, 1.0); for (int i = 0; i < n; i++) { f += c[i] / x[i]; df[i] = -c[i] / x[i] / x[i]; h += x[i]; } q.UpdateVariables(x, f, df, h, dg, [&](V y) { double s = -0.5 * n; for (double v : y) s += v; return s; }); put(o, x); o.push_back(q.IsConvergence(f)); }
}
// ---- sparse algebra
inline void sparse(Rng& g, V& o) {
    int n = g.range(3, 25); LILCSR<double> L(n, n); for (int k = 0; k < 4 * n; k++) L.set(g.range(0, n - 1), g.range(0, n - 1), g.uni(-1, 1)); for (int i = 0; i < n; i++) L.set(i, i, 6 + g.u01()); LILCSR<double> L2 = 2.0 * L, L3 = L + L2;
    CSR<double> A(L), B0(L3), B(B0 * 0.5); V x(n); for (auto& v : x) v = g.uni(-1, 1); put(o, A * x); put(o, L * x); CSR<double> C = A + B, D = A - B; put(o, C * x); put(o, D * x); V d = GetDiagonal(A); put(o, d); put(o, Scaling(d, x)); CSR<double> I = ILU0(A); put(o, PreILU0(I, x)); for (int i = 0; i < n; i++) o.push_back(C.get(i, (i * 7) % n)); std::stringstream s; s << A << L; o.push_back(s.str().size());
}
inline void eigen(Rng& g, V& o) {
    int n = g.range(8, 30); LILCSR<double> L(n, n), M(n, n); for (int i = 0; i < n; i++) { L.set(i, i, 4 + i % 3 + 0.1 * i); if (i) { L.set(i, i - 1, -1); L.set(i - 1, i, -1); } M.set(i, i, g.uni(1, 2)); } CSR<double> A(L), B(M); V w; std::vector<V> q; GeneralShiftedInvertLanczos(A, B, w, q, 3, 0.0); put(o, w); V w2; std::vector<V> q2; Lanczos(A, w2, q2, 4); put(o, w2);
}
// ---- meshers
template <class M> void mesh(V& o, M m) { put(o, m.GenerateNodes()); put(o, m.GenerateElements()); put(o, m.GenerateEdges()); put(o, m.GenerateFixedlist({0, 1}, [](DV x) { return x(0) > 0.1; })); }
inline void meshes(Rng& g, V& o) {
    double a = g.uni(1, 2), b = g.uni(1, 2); int n = g.range(2, 5), k = g.range(2, 4); mesh(o, SquareMesh<double>(a, b, n, k)); SquareMesh<double> q(a, b, n, k); put(o, q.GenerateNodes2()); put(o, q.GenerateElements2()); put(o, q.GenerateFixedlist2({0, 1}, [](DV x) { return x(1) < 0.1; }));
    mesh(o, SquareMesh2<double>(a, b, n, k, 1.2, 0.8)); mesh(o, AnnulusMesh<double>(a, a + b, n, 4 + k)); mesh(o, SquareAnnulusMesh<double>(a + 1, b + 1, a, b, n, k, 2)); mesh(o, SquareAnnulusMesh2<double>(a, b, 6, 6, 2, 2)); mesh(o, SquareCircleAnnulusMesh<double>(a + 1, b + 1, 0.4, 1.0, n, k, 2)); GrandStructure2D<double> s(a, b, n, k, 1.5 * a / n); put(o, s.GenerateNodes()); put(o, s.GenerateElements());
}
// ---- files
inline void files(Rng& g, V& o, const std::string& base) {
    SquareMesh<double> q(g.uni(1, 2), g.uni(1, 2), g.range(1, 4), g.range(1, 4)); auto x = q.GenerateNodes(); auto el = q.GenerateElements(); std::vector<DV> u = field(g, x.size(), 2, 1); V s(el.size()), t(x.size()); for (auto& v : s) v = g.u01(); for (auto& v : t) v = g.u01(); std::string f = base + ".vtk", h = base + ".csv";
    { std::ofstream r(f); MakeHeadderToVTK(r); AddPointsToVTK(x, r); AddElementToVTK(el, r); AddElementTypes(std::vector<int>(el.size(), 9), r); AddPointVectors(u, "u", r, true); AddPointScalers(t, "T", r, false); AddElementScalers(s, "s", r, true); }
    { std::ifstream r(f); std::string l; double k = 0; while (std::getline(r, l)) for (char z : l) k = std::fmod(k * 31 + z, 1000003); o.push_back(k); }
    { std::ofstream r(h); r << "id,x,y\n"; for (size_t i = 0; i < x.size(); i++) r << i << ',' << x[i](0) << ',' << x[i](1) << '\n'; } std::vector<DV> y; o.push_back(ImportNodesFromCSV(y, h)); put(o, y);
    { std::ofstream r(h); r << "id,a,b,c,d\n"; for (size_t i = 0; i < el.size(); i++) { r << i; for (int v : el[i]) r << ',' << v; r << '\n'; } } IM e2; o.push_back(ImportElementsFromCSV(e2, h)); put(o, e2);
    { std::ofstream r(h); r << "id,u,v\n"; for (size_t i = 0; i < x.size(); i++) r << i << ',' << (i % 2 ? "free" : "0.5") << ',' << 0.25 * i << '\n'; } std::vector<std::pair<std::pair<int, int>, double>> d; o.push_back(ImportDirichletFromCSV(d, h)); put(o, d);
    unlink(f.c_str()); unlink(h.c_str());
}
enum { N = 17 };
static const char* const name[N] = {"plane triangle elements", "plane quadrilateral elements", "plane quadratic elements", "solid elements", "quadratic solid elements", "trusses, beams, shells", "flow elements", "transport on triangles", "transport on quadrilaterals", "shape functions", "density and sensitivity filters", "optimality criteria", "sparse algebra", "Lanczos", "meshers", "files", "quadratic triangles"};
inline V run(uint64_t seed, int k, const std::string& base) {
    Rng g(seed); V o;
    switch (k) {
    case 0: plane<ShapeFunction3Triangle, Gauss3Triangle>(g, o, 23, false); break;
    case 1: plane<ShapeFunction4Square, Gauss4Square>(g, o, 24, true); break;
    case 2: plane<ShapeFunction8Square, Gauss9Square>(g, o, 28, false); break;
    case 3: solid<ShapeFunction8Cubic, Gauss8Cubic>(g, o, 38); break;
    case 4: solid<ShapeFunction20Cubic, Gauss27Cubic>(g, o, 320); break;
    case 5: structural(g, o); break;
    case 6: flow(g, o); break;
    case 7: transport<ShapeFunction3Triangle, Gauss3Triangle>(g, o, 23); break;
    case 8: transport<ShapeFunction4Square, Gauss4Square>(g, o, 24); break;
    case 9: shapes(g, o); break;
    case 10: filters(g, o); break;
    case 11: criteria(g, o); break;
    case 12: sparse(g, o); break;
    case 13: eigen(g, o); break;
    case 14: meshes(g, o); break;
    case 15: files(g, o, base); break;
    default: plane<ShapeFunction6Triangle, Gauss3Triangle>(g, o, 26, false); break;
    }
    return o;
}
}
