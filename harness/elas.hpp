// Catalogue of the linear elastic elements with independent long-double references.
#pragma once
#include "ref.hpp"
#include "src/FEM/Equation/General.h"
#include "src/FEM/Equation/PlaneStrain.h"
#include "src/FEM/Equation/PlaneStress.h"
#include "src/FEM/Equation/Solid.h"
#include "src/FEM/Equation/Truss.h"
#include "src/FEM/Equation/Beam.h"
#include "src/FEM/Equation/Shell.h"
#include "src/FEM/Equation/Homogenization.h"
namespace vh {
namespace P2 = PANSFEM2;
struct Mat { double E, V, t, a, b; DM D; };
inline Mat material(Case& c, bool near = true) {
    Mat m;
    Rng& g = c.rng;
    m.E = g.chance(0.3) ? g.pick(std::vector<double>{1, 2.1e11, 100, 0.5}) : g.logu(1e-4, 1e12);
    m.V = g.chance(0.4) ? g.pick(std::vector<double>{0, 0.3, 0.25, 0.45, -0.5, 0.1, 1.0 / 3}) : g.chance(0.15) && near ? g.pick(std::vector<double>{0.499, 0.49, 0.4999}) : g.uni(-0.9, 0.48);
    m.t = g.chance(0.3) ? 1 : g.logu(1e-3, 1e3);
    m.a = g.logu(0.05, 2); m.b = g.chance(0.3) ? m.a : g.logu(0.05, 2);
    c.input(m.E); c.input(m.V); c.input(m.t);
    return m;
}
// isotropic form  lam div u div v + 2 mu e(u):e(v)  added with weight w for gradients g (d x n)
inline void iso(RM& K, const RM& g, ld w, ld lam, ld mu) {
    int d = g.r, n = g.c;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        ld dot = 0;
        for (int k = 0; k < d; k++) dot += g(k, i) * g(k, j);
        for (int a = 0; a < d; a++) for (int b = 0; b < d; b++)
            K(d * i + a, d * j + b) += w * (lam * g(a, i) * g(b, j) + mu * (g(b, i) * g(a, j) + (a == b ? dot : 0)));
    }
}
inline ld lamOf(const Mat& m) { return (ld)m.E * m.V / ((1 + (ld)m.V) * (1 - 2 * (ld)m.V)); }
inline ld lamStress(const Mat& m) { return (ld)m.E * m.V / (1 - (ld)m.V * m.V); }
inline ld muOf(const Mat& m) { return (ld)m.E / (2 * (1 + (ld)m.V)); }
inline RM refIso(const El& el, const Rule& R, ld lam, ld mu, ld t) {
    int N = el.f->n * el.f->d;
    RM K(N, N);
    for (auto& p : points(*el.f, el.X, R)) iso(K, p.dN, p.w * t, lam, mu);
    return K;
}
// symmetric elasticity matrix in (xx, yy, 2xy) notation
inline RM voigt2(const RM& g) { RM B(3, 2 * g.c); for (int i = 0; i < g.c; i++) { B(0, 2 * i) = g(0, i); B(1, 2 * i + 1) = g(1, i); B(2, 2 * i) = g(1, i); B(2, 2 * i + 1) = g(0, i); } return B; }
inline RM refD(const El& el, const Rule& R, const RM& D, ld t) {
    int N = 2 * el.f->n;
    RM K(N, N);
    for (auto& p : points(*el.f, el.X, R)) { RM B = voigt2(p.dN); K = K + (p.w * t) * (B.T() * (D * B)); }
    return K;
}
// incompatible modes 1-r^2, 1-s^2, condensed; D given as function of gradients
inline RM refWT(const El& el, const Rule& R, const RM& D, ld t) {
    int n = el.f->n;
    RM K(2 * n + 4, 2 * n + 4);
    for (auto& p : points(*el.f, el.X, R)) {
        RM dP(2, 2);
        dP(0, 0) = -2 * p.r[0]; dP(1, 1) = -2 * p.r[1];
        dP = p.inv * dP;
        RM g(2, n + 2);
        for (int k = 0; k < 2; k++) { for (int i = 0; i < n; i++) g(k, i) = p.dN(k, i); for (int i = 0; i < 2; i++) g(k, n + i) = dP(k, i); }
        RM B = voigt2(g);
        K = K + (p.w * t) * (B.T() * (D * B));
    }
    RM aa(4, 4), ad(4, 2 * n), O(2 * n, 2 * n);
    for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) aa(i, j) = K(2 * n + i, 2 * n + j); for (int j = 0; j < 2 * n; j++) ad(i, j) = K(2 * n + i, j); }
    for (int i = 0; i < 2 * n; i++) for (int j = 0; j < 2 * n; j++) O(i, j) = K(i, j);
    RM Y = ad;
    gauss(aa, Y);
    return O - ad.T() * Y;
}
inline RM planeD(ld lam, ld mu) { RM D(3, 3); D(0, 0) = D(1, 1) = lam + 2 * mu; D(0, 1) = D(1, 0) = lam; D(2, 2) = mu; return D; }

struct Op {
    std::string name;
    int kind, nd;
    bool full;                        // integration leaves only rigid motions free
    bool affineOnly;                  // constant strain only on affine geometry
    int law;                          // 0 plane strain, 1 plane stress, 2 solid, 3 user matrix
    std::function<void(DM&, NTE&, El&, const std::vector<int>&, const Mat&)> call;
    std::function<RM(const El&, const Mat&)> ref;
    Rule rule;                        // rule that decides whether constant strain is integrated exactly
};
template <template <class> class SF, template <class> class IC> void addPlane(std::vector<Op>& o, const std::string& n, bool full, bool stress = true, bool user = true) {
    int k = KindOf<SF>::k;
    Rule R = ruleOf<IC>();
    o.push_back({"PlaneStrainStiffness/" + n, k, 2, full, false, 0, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStrainStiffness<double, SF, IC>(K, t, e.e, dl, e.x, m.E, m.V, m.t); },
        [R](const El& e, const Mat& m) { return refIso(e, R, lamOf(m), muOf(m), m.t); }, R});
    if (stress) o.push_back({"PlaneStressStiffness/" + n, k, 2, full, false, 1, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStressStiffness<double, SF, IC>(K, t, e.e, dl, e.x, m.E, m.V, m.t); },
        [R](const El& e, const Mat& m) { return refIso(e, R, lamStress(m), muOf(m), m.t); }, R});
    if (user) o.push_back({"PlaneStiffness/" + n, k, 2, full, false, 3, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStiffness<double, SF, IC>(K, t, e.e, dl, e.x, m.D, m.t); },
        [R](const El& e, const Mat& m) { return refD(e, R, rm(m.D), m.t); }, R});
}
template <template <class> class SF, template <class> class V, template <class> class D> void addSplit(std::vector<Op>& o, const std::string& n, bool full) {
    int k = KindOf<SF>::k;
    Rule RV = ruleOf<V>(), RD = ruleOf<D>();
    Rule weak = RV.p.size() < RD.p.size() ? RV : RD;
    o.push_back({"PlaneStrainStiffnessSRI/" + n, k, 2, full, false, 0, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStrainStiffnessSRI<double, SF, V, D>(K, t, e.e, dl, e.x, m.E, m.V, m.t); },
        [RV, RD](const El& e, const Mat& m) { return refIso(e, RV, (ld)m.E / (3 * (1 - 2 * (ld)m.V)), 0, m.t) + refIso(e, RD, -2 * muOf(m) / 3, muOf(m), m.t); }, weak});
    o.push_back({"PlaneStrainStiffnessBbar/" + n, k, 2, full, false, 0, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStrainStiffnessBbar<double, SF, V, D>(K, t, e.e, dl, e.x, m.E, m.V, m.t); },
        [RV, RD](const El& e, const Mat& m) { return refIso(e, RV, lamOf(m) + muOf(m), 0, m.t) + refIso(e, RD, -muOf(m), muOf(m), m.t); }, weak});
    o.push_back({"PlaneStiffnessBbar/" + n, k, 2, full, false, 4, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStiffnessBbar<double, SF, V, D>(K, t, e.e, dl, e.x, m.D, m.t); },
        [RV, RD](const El& e, const Mat& m) {
            RM D0 = rm(m.D), P(3, 3), Q(3, 3);     // half-trace part and the rest
            P(0,0) = P(0,1) = P(1,0) = P(1,1) = 0.5L; Q(0,0) = Q(1,1) = 0.5L; Q(0,1) = Q(1,0) = -0.5L; Q(2,2) = 1;
            return refD(e, RV, P.T() * (D0 * P), m.t) + refD(e, RD, Q.T() * (D0 * Q), m.t);
        }, weak});
}
template <template <class> class IC> void addWT(std::vector<Op>& o, const std::string& n) {
    Rule R = ruleOf<IC>();
    o.push_back({"PlaneStrainStiffnessWilsonTaylor/" + n, 24, 2, true, true, 0, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStrainStiffnessWilsonTaylor<double, P2::ShapeFunction4Square, IC>(K, t, e.e, dl, e.x, m.E, m.V, m.t); },
        [R](const El& e, const Mat& m) { return refWT(e, R, planeD(lamOf(m), muOf(m)), m.t); }, R});
    o.push_back({"PlaneStiffnessWilsonTaylor/" + n, 24, 2, true, true, 3, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::PlaneStiffnessWilsonTaylor<double, P2::ShapeFunction4Square, IC>(K, t, e.e, dl, e.x, m.D, m.t); },
        [R](const El& e, const Mat& m) { return refWT(e, R, rm(m.D), m.t); }, R});
}
template <template <class> class SF, template <class> class IC> void addSolid(std::vector<Op>& o, const std::string& n, bool full) {
    Rule R = ruleOf<IC>();
    o.push_back({"SolidLinearIsotropicElastic/" + n, KindOf<SF>::k, 3, full, false, 2, [](DM& K, NTE& t, El& e, const std::vector<int>& dl, const Mat& m) { P2::SolidLinearIsotropicElastic<double, SF, IC>(K, t, e.e, dl, e.x, m.E, m.V); },
        [R](const El& e, const Mat& m) { return refIso(e, R, lamOf(m), muOf(m), 1); }, R});
}
inline const std::vector<Op>& continuum() {
    using namespace PANSFEM2;
    static std::vector<Op> o;
    if (!o.empty()) return o;
    addPlane<ShapeFunction3Triangle, Gauss1Triangle>(o, "T3,1", true);
    addPlane<ShapeFunction3Triangle, Gauss3Triangle>(o, "T3,3", true, false, false);
    addPlane<ShapeFunction6Triangle, Gauss3Triangle>(o, "T6,3", true);
    addPlane<ShapeFunction4Square, Gauss4Square>(o, "Q4,4", true);
    addPlane<ShapeFunction4Square, Gauss9Square>(o, "Q4,9", true, false, false);
    addPlane<ShapeFunction4Square, Gauss1Square>(o, "Q4,1", false, false, false);
    addPlane<ShapeFunction8Square, Gauss9Square>(o, "Q8,9", true);
    addPlane<ShapeFunction8Square, Gauss4Square>(o, "Q8,4", false, false, false);
    addSplit<ShapeFunction4Square, Gauss1Square, Gauss4Square>(o, "Q4,1+4", true);
    addSplit<ShapeFunction8Square, Gauss4Square, Gauss9Square>(o, "Q8,4+9", true);
    addSplit<ShapeFunction4Square, Gauss4Square, Gauss4Square>(o, "Q4,4+4", true);
    addWT<Gauss4Square>(o, "Q4,4");
    addWT<Gauss9Square>(o, "Q4,9");
    addSolid<ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(o, "T4,1", true);
    addSolid<ShapeFunction8Cubic, Gauss8Cubic>(o, "H8,8", true);
    addSolid<ShapeFunction8Cubic, Gauss27Cubic>(o, "H8,27", true);
    addSolid<ShapeFunction20Cubic, Gauss27Cubic>(o, "H20,27", true);
    addSolid<ShapeFunction20Cubic, Gauss8Cubic>(o, "H20,8", false);
    return o;
}
inline void userMatrix(Case& c, Mat& m, bool isotropic) {
    if (isotropic) { ld l = lamOf(m), u = muOf(m); m.D = DM(3, 3); m.D(0, 0) = m.D(1, 1) = (double)(l + 2 * u); m.D(0, 1) = m.D(1, 0) = (double)l; m.D(2, 2) = (double)u; return; }
    DM G(3, 3), D(3, 3);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) G(i, j) = c.rng.uni(-1, 1) + (i == j ? 1.5 * c.rng.sgn() : 0);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double s = i == j ? 0.3 : 0; for (int k = 0; k < 3; k++) s += G(i, k) * G(j, k); D(i, j) = m.E * s; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) D(i, j) = D(j, i);
    m.D = D;
}
// the elastic tensor the element is supposed to have, (xx,yy,2xy) or (xx,yy,zz,2xy,2yz,2zx)
inline RM lawOf(const Op& op, const Mat& m) {
    if (op.law == 0) return planeD(lamOf(m), muOf(m));
    if (op.law == 1) return planeD(lamStress(m), muOf(m));
    if (op.law >= 3) return rm(m.D);
    RM D(6, 6);
    for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) D(i, j) = lamOf(m); D(i, i) += 2 * muOf(m); D(3 + i, 3 + i) = muOf(m); }
    return D;
}
inline double thick(const Op& op, const Mat& m) { return op.law == 2 ? 1.0 : m.t; }
inline LV strainOf(const RM& H) {   // displacement gradient H(a,b) = du_a/dx_b
    if (H.r == 2) return {H(0,0), H(1,1), H(0,1) + H(1,0)};
    return {H(0,0), H(1,1), H(2,2), H(0,1) + H(1,0), H(1,2) + H(2,1), H(2,0) + H(0,2)};
}
inline RM tensorOf(const LV& s) {
    if (s.size() == 3) { RM T(2, 2); T(0,0) = s[0]; T(1,1) = s[1]; T(0,1) = T(1,0) = s[2]; return T; }
    RM T(3, 3);
    T(0,0) = s[0]; T(1,1) = s[1]; T(2,2) = s[2]; T(0,1) = T(1,0) = s[3]; T(1,2) = T(2,1) = s[4]; T(2,0) = T(0,2) = s[5];
    return T;
}
// displacement vector of the field u = u0 + H (x - centre)
inline LV fieldOf(const RM& X, const RM& H, const LV& u0, const LV& x0) {
    LV u(X.r * X.c, 0);
    for (int i = 0; i < X.r; i++) for (int a = 0; a < X.c; a++) { u[X.c * i + a] = u0[a]; for (int b = 0; b < X.c; b++) u[X.c * i + a] += H(a, b) * (X(i, b) - x0[b]); }
    return u;
}
inline LV centre(const RM& X) { LV m(X.c, 0); for (int i = 0; i < X.r; i++) for (int k = 0; k < X.c; k++) m[k] += X(i, k) / X.r; return m; }
// infinitesimal rotations (skew matrices)
inline std::vector<RM> skews(int d) {
    std::vector<RM> o;
    if (d == 2) { RM W(2, 2); W(0,1) = -1; W(1,0) = 1; o.push_back(W); }
    else for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; RM W(3, 3); W(a, b) = -1; W(b, a) = 1; o.push_back(W); }
    return o;
}
// permutation of the nodes by an orientation-preserving symmetry of the reference shape
inline std::vector<int> symmetry(Case& c, const Fam& f) {
    int d = f.d;
    for (;;) {
        std::vector<int> ax;
        std::vector<int> perm(f.n, -1);
        std::vector<LV> img;
        if (f.simplex) {
            for (int i = 0; i <= d; i++) ax.push_back(i);
            c.rng.shuffle(ax);
            int inv = 0;
            for (int i = 0; i <= d; i++) for (int j = i + 1; j <= d; j++) if (ax[i] > ax[j]) inv++;
            if (inv % 2) continue;
            for (auto& q : f.nodes) { LV b(q.begin(), q.end()); ld s = 1; for (auto v : b) s -= v; b.push_back(s); LV r(d); for (int k = 0; k < d; k++) r[k] = b[ax[k]]; img.push_back(r); }
        } else {
            for (int i = 0; i < d; i++) ax.push_back(i);
            c.rng.shuffle(ax);
            int inv = 0;
            for (int i = 0; i < d; i++) for (int j = i + 1; j < d; j++) if (ax[i] > ax[j]) inv++;
            std::vector<int> sg(d);
            int neg = 0;
            for (auto& s : sg) { s = c.rng.chance(0.5) ? 1 : -1; if (s < 0) neg++; }
            if ((neg + inv) % 2) continue;
            for (auto& q : f.nodes) { LV r(d); for (int k = 0; k < d; k++) r[k] = sg[k] * q[ax[k]]; img.push_back(r); }
        }
        for (int i = 0; i < f.n; i++) for (int j = 0; j < f.n; j++) { bool eq = true; for (int k = 0; k < d; k++) if (fabsl(img[i][k] - f.nodes[j][k]) > 1e-9L) eq = false; if (eq) perm[i] = j; }
        return perm;
    }
}
// same element, node i at the place where node perm[i] was
inline El permuted(Case& c, const El& el, const std::vector<int>& perm) {
    El o = el;
    for (int i = 0; i < el.f->n; i++) { o.e[i] = el.e[perm[i]]; for (int k = 0; k < el.X.c; k++) o.X(i, k) = el.X(perm[i], k); }
    return o;
}
inline El moved(Case& c, const El& el, const RM& R, const LV& tr) {
    El o = el;
    for (int i = 0; i < el.X.r; i++) { std::vector<double> p; for (int k = 0; k < el.X.c; k++) { ld s = tr[k]; for (int q = 0; q < el.X.c; q++) s += R(k, q) * el.X(i, q); o.X(i, k) = (double)s; p.push_back((double)s); } o.x[el.e[i]] = DV(p); }
    return o;
}
inline RM blockRot(const RM& R, int n) { int d = R.r; RM B(d * n, d * n); for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) B(d * i + a, d * i + b) = R(a, b); return B; }
}  // namespace vh
