// Reference finite elements in long double: own shape functions (from the nodal conditions), own kinematics,
// and the geometry generator shared by the element drivers.  Integration points are those of the rule the
// caller of the library passes in (the rules themselves are judged by P10).
#pragma once
#include "vh.hpp"
#include <array>
#include <limits>
#include "src/LinearAlgebra/Models/Matrix.h"
#include "src/LinearAlgebra/Models/Vector.h"
#include "src/FEM/Controller/ShapeFunction.h"
#include "src/FEM/Controller/GaussIntegration.h"
#include "src/FEM/Controller/NewtonCotesIntegration.h"
namespace vh {
typedef PANSFEM2::Vector<double> DV;
typedef PANSFEM2::Matrix<double> DM;
typedef std::vector<ld> LV;
typedef std::vector<std::vector<std::pair<int, int>>> NTE;

inline RM rm(DM A) { RM M(A.ROW(), A.COL()); for (int i = 0; i < M.r; i++) for (int j = 0; j < M.c; j++) M(i, j) = A(i, j); return M; }
inline RM rm(DV v) { RM M(v.SIZE(), 1); for (int i = 0; i < M.r; i++) M(i, 0) = v(i); return M; }
inline LV lv(DV v) { LV r(v.SIZE()); for (size_t i = 0; i < r.size(); i++) r[i] = v(i); return r; }

struct Fam {
    int kind, d, n;
    bool simplex;
    std::vector<std::vector<double>> nodes;
    std::vector<std::array<int, 3>> ms;
    RM C;
    ld mono(const std::array<int, 3>& m, const LV& r, int der) const {
        ld v = 1;
        for (int k = 0; k < d; k++) {
            int e = m[k];
            if (k == der) { if (!e) return 0; v *= e; e--; }
            while (e-- > 0) v *= r[k];
        }
        return v;
    }
    LV N(const LV& r) const { LV o(n, 0); for (int k = 0; k < n; k++) { ld m = mono(ms[k], r, -1); for (int i = 0; i < n; i++) o[i] += C(k, i) * m; } return o; }
    RM dN(const LV& r) const { RM o(d, n); for (int q = 0; q < d; q++) for (int k = 0; k < n; k++) { ld m = mono(ms[k], r, q); for (int i = 0; i < n; i++) o(q, i) += C(k, i) * m; } return o; }
};
inline const Fam& fam(int kind) {
    static std::map<int, Fam> cache;
    auto it = cache.find(kind);
    if (it != cache.end()) return it->second;
    Fam f;
    f.kind = kind;
    f.simplex = kind == 23 || kind == 26 || kind == 34;
    auto add = [&](int a, int b, int c) { f.ms.push_back({a, b, c}); };
    std::vector<std::vector<double>> hex = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
    switch (kind) {
    case 12: f.d = 1; f.nodes = {{-1},{1}}; add(0,0,0); add(1,0,0); break;
    case 13: f.d = 1; f.nodes = {{-1},{1},{0}}; add(0,0,0); add(1,0,0); add(2,0,0); break;
    case 23: f.d = 2; f.nodes = {{1,0},{0,1},{0,0}}; add(0,0,0); add(1,0,0); add(0,1,0); break;
    case 26: f.d = 2; f.nodes = {{1,0},{0,1},{0,0},{.5,.5},{0,.5},{.5,0}}; add(0,0,0); add(1,0,0); add(0,1,0); add(2,0,0); add(1,1,0); add(0,2,0); break;
    case 24: f.d = 2; f.nodes = {{-1,-1},{1,-1},{1,1},{-1,1}}; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) add(a,b,0); break;
    case 28: f.d = 2; f.nodes = {{-1,-1},{1,-1},{1,1},{-1,1},{0,-1},{1,0},{0,1},{-1,0}}; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (!(a == 2 && b == 2)) add(a,b,0); break;
    case 34: f.d = 3; f.nodes = {{1,0,0},{0,1,0},{0,0,1},{0,0,0}}; add(0,0,0); add(1,0,0); add(0,1,0); add(0,0,1); break;
    case 38: f.d = 3; f.nodes = hex; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) add(a,b,c); break;
    case 320:
        f.d = 3; f.nodes = hex;
        for (auto p : std::vector<std::vector<double>>{{0,-1,-1},{1,0,-1},{0,1,-1},{-1,0,-1},{0,-1,1},{1,0,1},{0,1,1},{-1,0,1},{-1,-1,0},{1,-1,0},{1,1,0},{-1,1,0}}) f.nodes.push_back(p);
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) if ((a == 2) + (b == 2) + (c == 2) <= 1) add(a,b,c);
        break;
    default: abort();
    }
    f.n = f.nodes.size();
    RM V(f.n, f.n);
    for (int i = 0; i < f.n; i++) for (int k = 0; k < f.n; k++) V(i, k) = f.mono(f.ms[k], LV(f.nodes[i].begin(), f.nodes[i].end()), -1);
    f.C = rinv(V);
    return cache[kind] = f;
}

struct Rule { std::vector<LV> p; LV w; };
template <template <class> class IC> Rule ruleOf() {
    Rule r;
    for (int g = 0; g < IC<double>::N; g++) {
        r.p.push_back(lv(IC<double>::Points[g]));
        ld w = 1;
        for (double v : IC<double>::Weights[g]) w *= v;
        r.w.push_back(w);
    }
    return r;
}
inline Rule gaussLine(int n) {
    Rule R;
    for (int i = 0; i < n; i++) {
        ld x = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 1;
        for (int it = 0; it < 60; it++) {
            ld p0 = 1, p1 = x;
            for (int k = 2; k <= n; k++) { ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
            dp = n * (x * p1 - p0) / (x * x - 1);
            ld s = p1 / dp;
            x -= s;
            if (fabsl(s) < 1e-19L) break;
        }
        R.p.push_back({x}); R.w.push_back(2 / ((1 - x * x) * dp * dp));
    }
    return R;
}
// high-order rule on the reference shape of a family (for exact integrals of polynomials)
inline Rule fullRule(const Fam& f, int n = 6) {
    Rule g = gaussLine(n), R;
    if (f.d == 1) return g;
    if (f.d == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        ld a = g.p[i][0], b = g.p[j][0], w = g.w[i] * g.w[j];
        if (f.simplex) { ld u = (1 + a) / 2, v = (1 + b) / 2; R.p.push_back({u, v * (1 - u)}); R.w.push_back(w / 4 * (1 - u)); }
        else { R.p.push_back({a, b}); R.w.push_back(w); }
    }
    if (f.d == 3) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) {
        ld a = g.p[i][0], b = g.p[j][0], c = g.p[k][0], w = g.w[i] * g.w[j] * g.w[k];
        if (f.simplex) { ld u = (1 + a) / 2, v = (1 + b) / 2 * (1 - u), t = (1 + c) / 2 * (1 - u - v); R.p.push_back({u, v, t}); R.w.push_back(w / 8 * (1 - u) * (1 - u - v)); }
        else { R.p.push_back({a, b, c}); R.w.push_back(w); }
    }
    return R;
}
struct Pt { LV r, N, x; RM dN, inv, jac; ld det, w; };   // dN: physical gradients (d x n); w = det * weight
inline std::vector<Pt> points(const Fam& f, const RM& X, const Rule& R) {
    std::vector<Pt> o;
    for (size_t g = 0; g < R.p.size(); g++) {
        Pt p;
        p.r = R.p[g];
        p.N = f.N(p.r);
        RM dr = f.dN(p.r);
        p.x.assign(X.c, 0);
        for (int i = 0; i < f.n; i++) for (int k = 0; k < X.c; k++) p.x[k] += p.N[i] * X(i, k);
        p.jac = dr * X;
        if (f.d == X.c) { p.det = rdet(p.jac); p.inv = rinv(p.jac); p.dN = p.inv * dr; }
        else if (f.d == 1) { ld s = 0; for (int k = 0; k < X.c; k++) s += p.jac(0, k) * p.jac(0, k); p.det = sqrtl(s); }
        p.w = p.det * R.w[g];
        o.push_back(p);
    }
    return o;
}

template <template <class> class SF> struct KindOf;
template <> struct KindOf<PANSFEM2::ShapeFunction2Line> { static const int k = 12; };
template <> struct KindOf<PANSFEM2::ShapeFunction3Line> { static const int k = 13; };
template <> struct KindOf<PANSFEM2::ShapeFunction3Triangle> { static const int k = 23; };
template <> struct KindOf<PANSFEM2::ShapeFunction6Triangle> { static const int k = 26; };
template <> struct KindOf<PANSFEM2::ShapeFunction4Square> { static const int k = 24; };
template <> struct KindOf<PANSFEM2::ShapeFunction8Square> { static const int k = 28; };
template <> struct KindOf<PANSFEM2::ShapeFunction4Tetrahedron> { static const int k = 34; };
template <> struct KindOf<PANSFEM2::ShapeFunction8Cubic> { static const int k = 38; };
template <> struct KindOf<PANSFEM2::ShapeFunction20Cubic> { static const int k = 320; };

inline RM rotation(Rng& g, int d) {
    if (d == 1) return RM::id(1);
    if (g.chance(0.2)) {      // exact quarter turns: axis-aligned geometry keeps its zeros
        RM R(d, d);
        if (d == 2) { int q = g.range(0, 3); R(0,0) = R(1,1) = q == 0 ? 1 : q == 2 ? -1 : 0; R(1,0) = q == 1 ? 1 : q == 3 ? -1 : 0; R(0,1) = -R(1,0); return R; }
        std::vector<int> ax = {0, 1, 2};
        g.shuffle(ax);
        int inv = (ax[0] > ax[1]) + (ax[0] > ax[2]) + (ax[1] > ax[2]), s0 = g.sgn(), s1 = g.sgn();
        R(0, ax[0]) = s0; R(1, ax[1]) = s1; R(2, ax[2]) = s0 * s1 * (inv % 2 ? -1 : 1);
        return R;
    }
    if (d == 2) { ld t = g.uni(0, 2 * M_PI); RM R(2, 2); R(0,0) = cosl(t); R(0,1) = -sinl(t); R(1,0) = sinl(t); R(1,1) = cosl(t); return R; }
    ld q[4], s = 0;
    for (auto& v : q) { v = g.uni(-1, 1); s += v * v; }
    s = sqrtl(s) + 1e-30L;
    for (auto& v : q) v /= s;
    ld a = q[0], b = q[1], c = q[2], e = q[3];
    RM R(3, 3);
    R(0,0) = a*a+b*b-c*c-e*e; R(0,1) = 2*(b*c-a*e); R(0,2) = 2*(b*e+a*c);
    R(1,0) = 2*(b*c+a*e); R(1,1) = a*a-b*b+c*c-e*e; R(1,2) = 2*(c*e-a*b);
    R(2,0) = 2*(b*e-a*c); R(2,1) = 2*(c*e+a*b); R(2,2) = a*a-b*b-c*c+e*e;
    return R;
}
// an element of the given family somewhere in a node list of which it uses a random subset; every other node is NaN,
// so reading a node the element does not have shows in the result
struct El {
    const Fam* f;
    RM X;                       // n x dim, exactly the doubles handed to the library
    std::vector<int> e;
    std::vector<DV> x;
    double h = 1, off = 0, asp = 1;      // size, distance from the origin, elongation
    std::string mode;
    double slack() const { return (1 + off / h) * asp * asp; }
    std::vector<int> elem() const { return e; }
};
inline void place(Case& c, El& el, int extra = 3) {
    int n = el.f->n, dim = el.X.c, total = n + c.rng.range(0, extra);
    std::vector<int> ids(total);
    for (int i = 0; i < total; i++) ids[i] = i;
    c.rng.shuffle(ids);
    double nan = std::numeric_limits<double>::quiet_NaN();
    el.x.assign(total, DV(std::vector<double>(dim, nan)));
    el.e.assign(ids.begin(), ids.begin() + n);
    for (int i = 0; i < n; i++) { std::vector<double> p(dim); for (int k = 0; k < dim; k++) p[k] = (double)el.X(i, k); el.x[el.e[i]] = DV(p); }
    for (int i = 0; i < n; i++) for (int k = 0; k < dim; k++) c.input((double)el.X(i, k));
}
// mode: 0 reference-like box, 1 affine, 2 straight-sided distorted, 3 curved; -1 random
inline El makeEl(Case& c, int kind, int dim = 0, int mode = -1, double maxoff = 100) {
    const Fam& f = fam(kind);
    El el;
    el.f = &f;
    int d = f.d;
    if (!dim) dim = d;
    Rng& g = c.rng;
    bool quadratic = kind == 13 || kind == 26 || kind == 28 || kind == 320;
    if (mode < 0) mode = g.range(0, 9) < 1 ? 0 : g.range(0, 9) < 2 ? 1 : (quadratic && g.chance(0.5)) ? 3 : 2;
    int nc = kind == 13 ? 2 : kind == 26 ? 3 : kind == 28 ? 4 : kind == 320 ? 8 : f.n;
    double h = g.chance(0.15) ? g.logu(1e-7, 1e6) : g.logu(0.02, 50), off = g.chance(0.4) ? 0 : h * g.uni(0, g.chance(0.2) ? maxoff : 3);
    RM A(d, d);
    for (int i = 0; i < d; i++) A(i, i) = g.uni(0.5, 2);
    if (mode > 0) for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) if (i != j) A(i, j) = g.uni(-0.3, 0.3);
    if (mode == 0 && g.chance(0.5)) for (int i = 1; i < d; i++) A(i, i) = A(0, 0);
    double asp = 1;
    if (d > 1 && g.chance(0.15)) { asp = g.logu(2, 30); int k = g.range(0, d - 1); double by = dim > d || g.chance(0.5) ? asp : 1 / asp; for (int j = 0; j < d; j++) A(k, j) *= by; }
    RM Rt = mode == 0 && dim == d ? RM::id(dim) : rotation(g, dim);
    LV tr(dim);
    for (auto& v : tr) v = off * g.uni(-1, 1);
    double pert = mode >= 2 ? g.uni(0.02, f.simplex ? 0.15 : 0.45) : 0, cur = mode == 3 ? g.uni(0.02, f.simplex ? 0.07 : 0.15) : 0, warp = d == 2 && dim == 3 ? g.uni(0, 0.25) : 0;
    for (int attempt = 0;; attempt++) {
        RM P(f.n, d);
        for (int i = 0; i < f.n; i++) for (int k = 0; k < d; k++) P(i, k) = f.nodes[i][k] + (i < nc ? pert * g.uni(-1, 1) : 0);
        if (d == 1) for (int i = 0; i < nc; i++) P(i, 0) = f.nodes[i][0];
        if (quadratic) {     // midside nodes: average of the two corners they lie between
            for (int i = nc; i < f.n; i++) {
                LV m(d, 0); int cnt = 0;
                for (int a = 0; a < nc; a++) for (int b = a + 1; b < nc; b++) {
                    bool mid = true;
                    for (int k = 0; k < d; k++) if (fabs(0.5 * (f.nodes[a][k] + f.nodes[b][k]) - f.nodes[i][k]) > 1e-9) mid = false;
                    if (mid) { for (int k = 0; k < d; k++) m[k] += 0.5L * (P(a, k) + P(b, k)); cnt++; }
                }
                // an edge midpoint is the midpoint of exactly one pair of corners
                for (int k = 0; k < d; k++) P(i, k) = m[k] / cnt + cur * g.uni(-1, 1);
            }
        }
        RM Y = P * A.T(), X(f.n, dim);
        for (int i = 0; i < f.n; i++) {
            LV y(dim, 0);
            for (int k = 0; k < d; k++) y[k] = Y(i, k);
            if (d == 1 && dim > 1 && (mode == 3) && i >= nc) y[1] = A(0, 0) * cur * 2;
            if (warp > 0) y[2] = warp * (P(i, 0) * P(i, 1) * 0.5L + 0.3L * P(i, 0) * P(i, 0));
            for (int k = 0; k < dim; k++) { ld s = tr[k]; for (int q = 0; q < dim; q++) s += h * Rt(k, q) * y[q]; X(i, k) = (double)s; }
        }
        bool ok = true;
        if (d == dim) {
            ld mn = 1e300L, mx = 0;
            std::vector<LV> smp;
            for (auto& q : f.nodes) smp.push_back(LV(q.begin(), q.end()));
            Rule R = fullRule(f, 3);
            for (auto& q : R.p) smp.push_back(q);
            for (auto& q : smp) { ld dt = rdet(f.dN(q) * X); mn = std::min(mn, dt); mx = std::max(mx, dt); }
            ok = mn > 0.12L * mx;
        }
        if (ok) { el.X = X; break; }
        pert *= 0.7; cur *= 0.7;
    }
    el.h = h; el.off = off; el.asp = asp;
    el.mode = mode == 0 ? "box" : mode == 1 ? "affine" : mode == 2 ? "distorted" : "curved";
    place(c, el);
    c.describe("kind ", kind, " ", el.mode, " h=", h, " off=", off);
    return el;
}
inline std::vector<int> doulist(Case& c, int n) {
    std::vector<int> d(n);
    for (int i = 0; i < n; i++) d[i] = i;
    if (c.rng.chance(0.3)) c.rng.shuffle(d);
    if (c.rng.chance(0.2)) for (auto& v : d) v += c.rng.range(1, 1) * 3;
    return d;
}
// equation map of an element: unknown k of local node i at element row  pos(i, k)
template <class P> void checkMap(Case& c, const std::string& who, const NTE& nte, int nodes, const std::vector<int>& dl, P pos) {
    bool ok = (int)nte.size() == nodes;
    for (int i = 0; ok && i < nodes; i++) {
        if (nte[i].size() != dl.size()) { ok = false; break; }
        std::set<std::pair<int, int>> a(nte[i].begin(), nte[i].end()), b;
        for (size_t k = 0; k < dl.size(); k++) b.insert({dl[k], pos(i, (int)k)});
        if (a != b) ok = false;
    }
    c.expect("unknown-map", ok, who + ": unknowns of the element nodes are not mapped to their own element rows");
}
inline bool cmp(Case& c, const std::string& mon, const RM& got, const RM& want, ld rel, const std::string& what, ld scale = -1) {
    if (!c.expect(mon, got.r == want.r && got.c == want.c, what + ": wrong shape")) return false;
    ld s = scale >= 0 ? scale : want.maxabs(), e = 0;
    int bi = 0, bj = 0;
    for (int i = 0; i < got.r; i++) for (int j = 0; j < got.c; j++) {
        ld d = fabsl(got(i, j) - want(i, j));
        if (!std::isfinite((double)got(i, j))) d = std::numeric_limits<double>::infinity();
        if (d > e) { e = d; bi = i; bj = j; }
    }
    if (!(e < std::numeric_limits<double>::infinity())) return c.expect(mon, false, cat(what, ": entry (", bi, ",", bj, ") is ", (double)got(bi, bj)));
    return c.near(mon, got(bi, bj), want(bi, bj), rel * s + 1e-300L, cat(what, " entry (", bi, ",", bj, ") of ", got.r, "x", got.c));
}
inline ld quad(const RM& K, const LV& a, const LV& b) { ld s = 0; for (int i = 0; i < K.r; i++) for (int j = 0; j < K.c; j++) s += a[i] * K(i, j) * b[j]; return s; }
inline ld maxabs(const LV& v) { ld m = 0; for (auto x : v) m = std::max(m, fabsl(x)); return m; }
}  // namespace vh
