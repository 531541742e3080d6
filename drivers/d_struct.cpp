// Truss, beam and shell elements: P14 kernel and symmetry, P15 exact states and law, P16 frame and numbering
#include "elas.hpp"
using namespace vh;
using namespace PANSFEM2;
typedef LV V3;
static V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static ld dot(const V3& a, const V3& b) { ld s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static V3 unit(V3 a) { ld n = sqrtl(dot(a, a)); for (auto& v : a) v /= n; return a; }
static V3 rowv(const RM& X, int i) { V3 r; for (int k = 0; k < X.c; k++) r.push_back(X(i, k)); return r; }
static V3 mul(const RM& R, const V3& a) { return R * a; }
struct Str { std::string name; int kind, nd, type; bool full; std::function<void(DM&, NTE&, El&, std::vector<DV>&, std::vector<DV>&, const std::vector<int>&, const Mat&)> call; Rule r1, r2; };
template <template <class> class SF, template <class> class I0, template <class> class I12> Str beam(const std::string& n, bool full) {
    return {"Beam/" + n, KindOf<SF>::k, 6, 1, full, [](DM& K, NTE& t, El& e, std::vector<DV>& v1, std::vector<DV>& v2, const std::vector<int>& dl, const Mat& m) { BeamLinearIsotropicElastic<double, SF, I0, I12>(K, t, e.e, dl, e.x, v1, v2, m.E, m.V, m.a, m.b); }, ruleOf<I0>(), ruleOf<I12>()};
}
template <template <class> class SF, template <class> class I, template <class> class I2> void shell(std::vector<Str>& o, const std::string& n, bool full) {
    o.push_back({"Shell/" + n, KindOf<SF>::k, 5, 2, full, [](DM& K, NTE& t, El& e, std::vector<DV>&, std::vector<DV>&, const std::vector<int>& dl, const Mat& m) { ShellLinearIsotropicElastic<double, SF, I, I2>(K, t, e.e, dl, e.x, m.E, m.V, m.t); }, ruleOf<I>(), ruleOf<I2>()});
    o.push_back({"Shell2/" + n, KindOf<SF>::k, 6, 3, full, [](DM& K, NTE& t, El& e, std::vector<DV>&, std::vector<DV>&, const std::vector<int>& dl, const Mat& m) { ShellLinearIsotropicElastic2<double, SF, I, I2>(K, t, e.e, dl, e.x, m.E, m.V, m.t); }, ruleOf<I>(), ruleOf<I2>()});
}
static const std::vector<Str>& all() {
    static std::vector<Str> o;
    if (!o.empty()) return o;
    o.push_back({"Truss2D", 12, 2, 0, true, [](DM& K, NTE& t, El& e, std::vector<DV>&, std::vector<DV>&, const std::vector<int>& dl, const Mat& m) { Truss2D<double>(K, t, e.e, dl, e.x, m.E, m.a); }, Rule(), Rule()});
    o.push_back(beam<ShapeFunction2Line, Gauss1Line, Gauss4Square>("L2,1,4", true));
    o.push_back(beam<ShapeFunction2Line, Gauss2Line, Gauss4Square>("L2,2,4", true));
    o.push_back(beam<ShapeFunction3Line, Gauss2Line, Gauss4Square>("L3,2,4", true));
    o.push_back(beam<ShapeFunction3Line, Gauss2Line, Gauss9Square>("L3,2,9", true));
    shell<ShapeFunction4Square, Gauss4Square, Gauss2Line>(o, "Q4,4,2", true);
    shell<ShapeFunction8Square, Gauss9Square, Gauss2Line>(o, "Q8,9,2", true);
    shell<ShapeFunction8Square, Gauss4Square, Gauss2Line>(o, "Q8,4,2", false);
    shell<ShapeFunction3Triangle, Gauss1Triangle, Gauss2Line>(o, "T3,1,2", false);
    shell<ShapeFunction6Triangle, Gauss3Triangle, Gauss2Line>(o, "T6,3,2", false);
    return o;
}
struct Model { El el; std::vector<DV> v1, v2; std::vector<V3> a, b, n; };   // a, b: beam directors; n: shell normals (a, b: its tangents)
static void shellFrame(Model& M) {
    const Fam& f = *M.el.f;
    M.a.clear(); M.b.clear(); M.n.clear();
    V3 l = rowv(M.el.X, 1);
    for (int k = 0; k < 3; k++) l[k] -= M.el.X(0, k);
    for (int i = 0; i < f.n; i++) {
        RM J = f.dN(LV(f.nodes[i].begin(), f.nodes[i].end())) * M.el.X;
        V3 n = unit(cross(rowv(J, 0), rowv(J, 1))), p = unit(cross(l, n));
        M.n.push_back(n); M.a.push_back(p); M.b.push_back(unit(cross(n, p)));
    }
}
static Model make(Case& c, const Str& s, Mat& m, int mode = -1) {
    Model M;
    Rng& g = c.rng;
    M.el = makeEl(c, s.kind, s.type == 0 ? 2 : 3, mode < 0 ? (s.kind == 13 ? (g.chance(0.5) ? 3 : 1) : -1) : mode);
    int n = M.el.f->n;
    if (s.type == 1) {
        m.a = M.el.h * g.logu(0.02, 0.6); m.b = g.chance(0.3) ? m.a : M.el.h * g.logu(0.02, 0.6);
        V3 ax = rowv(M.el.X, 1);
        for (int k = 0; k < 3; k++) ax[k] -= M.el.X(0, k);
        ax = unit(ax);
        V3 any = {g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)};
        V3 p = unit(cross(ax, any)), q = cross(ax, p);     // p x q = ax
        double nan = std::numeric_limits<double>::quiet_NaN();
        M.v1.assign(M.el.x.size(), DV(std::vector<double>(3, nan)));
        M.v2 = M.v1;
        double tw = mode == 1 || g.chance(0.4) ? 0 : g.uni(0, 0.4), skew = mode == 1 || g.chance(0.6) ? 0 : 0.2;
        for (int i = 0; i < n; i++) {
            ld th = tw * g.uni(-1, 1);
            V3 u(3), w(3);
            for (int k = 0; k < 3; k++) { u[k] = cosl(th) * p[k] + sinl(th) * q[k] + skew * g.uni(-0.5, 0.5) * ax[k]; w[k] = -sinl(th) * p[k] + cosl(th) * q[k] + skew * g.uni(-0.5, 0.5) * p[k]; }
            ld su = g.chance(0.5) ? 1 : g.logu(0.1, 10), sw = g.chance(0.5) ? 1 : g.logu(0.1, 10);   // lengths must not matter
            std::vector<double> du, dw;
            for (int k = 0; k < 3; k++) { du.push_back((double)(u[k] * su)); dw.push_back((double)(w[k] * sw)); }
            M.v1[M.el.e[i]] = DV(du); M.v2[M.el.e[i]] = DV(dw);
            M.a.push_back(unit(V3(du.begin(), du.end()))); M.b.push_back(unit(V3(dw.begin(), dw.end())));
        }
    }
    if (s.type >= 2) { m.t = M.el.h * g.logu(0.01, 0.3); shellFrame(M); }
    return M;
}
// displacement of parameter point generated by unit value of unknown k of node i: value of the director displacement
static V3 director(const Str& s, const Model& M, const Mat& m, int i, int k, const LV& z) {
    V3 o(3, 0), off(3, 0), e(3, 0);
    if (s.type == 1) for (int q = 0; q < 3; q++) off[q] = z[0] * m.a / 2 * M.a[i][q] + z[1] * m.b / 2 * M.b[i][q];
    else for (int q = 0; q < 3; q++) off[q] = z[0] * m.t / 2 * M.n[i][q];
    if (s.type == 2) e = k == 3 ? M.a[i] : M.b[i];
    else e[k - 3] = 1;
    o = cross(e, off);
    return o;
}
static RM reference(const Str& s, const Model& M, const Mat& m) {
    const Fam& f = *M.el.f;
    int n = f.n, nd = s.nd, N = n * nd;
    if (s.type == 0) {
        V3 d = {M.el.X(1, 0) - M.el.X(0, 0), M.el.X(1, 1) - M.el.X(0, 1)};
        ld L = sqrtl(dot(d, d));
        LV B = {-d[0] / L / L, -d[1] / L / L, d[0] / L / L, d[1] / L / L};
        RM K(4, 4);
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) K(i, j) = (ld)m.E * m.a * L * B[i] * B[j];
        return K;
    }
    RM K(N, N);
    int p = f.d;
    V3 l = rowv(M.el.X, 1);
    for (int k = 0; k < 3; k++) l[k] -= M.el.X(0, k);
    for (size_t g = 0; g < s.r1.p.size(); g++) for (size_t h = 0; h < s.r2.p.size(); h++) {
        LV sh = f.N(s.r1.p[g]), z = s.r2.p[h];
        RM dr = f.dN(s.r1.p[g]);
        RM J(3, 3);
        std::vector<V3> pos(n), dz1(n), dz2(n);
        for (int i = 0; i < n; i++) for (int q = 0; q < 3; q++) {
            ld d1 = s.type == 1 ? m.a / 2 * M.a[i][q] : m.t / 2 * M.n[i][q], d2 = s.type == 1 ? m.b / 2 * M.b[i][q] : 0;
            ld x = M.el.X(i, q) + z[0] * d1 + (s.type == 1 ? z[1] * d2 : 0);
            for (int r = 0; r < p; r++) J(r, q) += dr(r, i) * x;
            J(p, q) += sh[i] * d1;
            if (s.type == 1) J(2, q) += sh[i] * d2;
        }
        ld det = rdet(J);
        RM inv = rinv(J);
        V3 P0, P1, Pz;
        if (s.type == 1) {
            V3 u(3, 0), w(3, 0);
            for (int i = 0; i < n; i++) for (int q = 0; q < 3; q++) { u[q] += sh[i] * M.a[i][q]; w[q] += sh[i] * M.b[i][q]; }
            P1 = unit(u); Pz = unit(w); P0 = unit(cross(P1, Pz));
        } else { Pz = unit(cross(rowv(J, 0), rowv(J, 1))); P0 = unit(cross(l, Pz)); P1 = unit(cross(Pz, P0)); }
        // strain components of every unknown in the local frame
        RM S(s.type == 1 ? 3 : 5, N);
        for (int i = 0; i < n; i++) for (int k = 0; k < nd; k++) {
            RM du(3, 3);        // du(r, q) = d u_q / d xi_r
            if (k < 3) for (int r = 0; r < p; r++) du(r, k) = dr(r, i);
            else {
                V3 at = director(s, M, m, i, k, z), e1 = director(s, M, m, i, k, s.type == 1 ? LV{1, 0} : LV{1}), e2 = s.type == 1 ? director(s, M, m, i, k, LV{0, 1}) : V3(3, 0);
                for (int q = 0; q < 3; q++) { for (int r = 0; r < p; r++) du(r, q) = dr(r, i) * at[q]; du(p, q) = sh[i] * e1[q]; if (s.type == 1) du(2, q) = sh[i] * e2[q]; }
            }
            RM G = inv * du;     // G(b, a) = d u_a / d x_b
            auto e = [&](const V3& x, const V3& y) { ld v = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) v += x[a] * (G(a, b) + G(b, a)) / 2 * y[b]; return v; };
            int col = nd * i + k;
            if (s.type == 1) { S(0, col) = e(P0, P0); S(1, col) = 2 * e(P0, P1); S(2, col) = 2 * e(P0, Pz); }
            else { S(0, col) = e(P0, P0); S(1, col) = e(P1, P1); S(2, col) = 2 * e(P0, P1); S(3, col) = 2 * e(P0, Pz); S(4, col) = 2 * e(P1, Pz); }
        }
        RM D(S.r, S.r);
        ld E = m.E, V = m.V, G = E / (2 * (1 + V));
        if (s.type == 1) { D(0, 0) = E; D(1, 1) = D(2, 2) = G / 1.2L; }
        else { D(0, 0) = D(1, 1) = E / (1 - V * V); D(0, 1) = D(1, 0) = E * V / (1 - V * V); D(2, 2) = G; D(3, 3) = D(4, 4) = G / 1.2L; }
        K = K + (det * s.r1.w[g] * s.r2.w[h]) * (S.T() * (D * S));
    }
    return K;
}
static RM call(Case& c, const Str& s, Model& M, const Mat& m) {
    DM K; NTE nte;
    if (c.rng.chance(0.5)) K = DM(2, 3);
    std::vector<int> dl = doulist(c, s.nd);
    s.call(K, nte, M.el, M.v1, M.v2, dl, m);
    int nd = s.nd;
    checkMap(c, s.name, nte, M.el.f->n, dl, [nd](int i, int k) { return nd * i + k; });
    return rm(K);
}
// nodal unknowns of the rigid motion  u = u0 + w x (x - x0)
static LV rigid(const Str& s, const Model& M, const V3& u0, const V3& w, const V3& x0) {
    int n = M.el.f->n;
    LV o(n * s.nd, 0);
    for (int i = 0; i < n; i++) {
        V3 d(3, 0);
        for (int k = 0; k < M.el.X.c; k++) d[k] = M.el.X(i, k) - x0[k];
        V3 r = cross(w, d);
        for (int k = 0; k < (s.type == 0 ? 2 : 3); k++) o[s.nd * i + k] = u0[k] + r[k];
        if (s.type == 1 || s.type == 3) for (int k = 0; k < 3; k++) o[s.nd * i + 3 + k] = w[k];
        if (s.type == 2) { o[5 * i + 3] = dot(w, M.a[i]); o[5 * i + 4] = dot(w, M.b[i]); }
    }
    return o;
}
static const Str& pickS(Case& c) { return all()[c.idx % all().size()]; }
static void kernel(Case& c) {
    const Str& s = pickS(c);
    Mat m = material(c);
    Model M = make(c, s, m);
    c.describe(s.name, " E=", m.E, " V=", m.V, " t=", m.t, " a=", m.a, " b=", m.b);
    c.count(s.name);
    RM K = call(c, s, M, m);
    ld mx = K.maxabs(), tol = 2e-12L * M.el.slack();
    if (!c.expect("finite", std::isfinite((double)mx) && mx > 0, "stiffness zero or not finite")) return;
    c.near("symmetry", (K - K.T()).maxabs() / mx, 0, tol, "asymmetry over largest entry");
    // forces are compared row by row (translations and rotations have different units)
    LV scale(K.r, 0);
    V3 x0 = centre(M.el.X);
    x0.resize(3, 0);
    for (int k = 0; k < 6; k++) {
        if (s.type == 0 && k != 0 && k != 1 && k != 5) continue;
        V3 u0(3, 0), w(3, 0);
        (k < 3 ? u0[k] : w[k - 3]) = 1;
        LV q = rigid(s, M, u0, w, x0), f = K * q;
        for (int i = 0; i < K.r; i++) { ld sc = 0; for (int j = 0; j < K.r; j++) sc += fabsl(K(i, j) * q[j]); c.near(k < 3 ? "translation" : "rotation", f[i], 0, tol * 10 * (sc + (k < 3 ? 1 : M.el.h) * 1e-3L * mx), cat(s.name, " force of a rigid motion, row ", i)); }
    }
    // scale rotations by the size so that eigenvalues are comparable
    RM S = K;
    for (int i = 0; i < K.r; i++) for (int j = 0; j < K.r; j++) { ld v = (K(i, j) + K(j, i)) / 2; if (i % s.nd >= 3) v /= M.el.h; if (j % s.nd >= 3) v /= M.el.h; S(i, j) = v; }
    LV w = jacobi(S);
    ld big = w.back();
    c.near("semidefinite", std::min<ld>(w[0], 0) / big, 0, tol * K.r, "most negative eigenvalue over largest");
    if (s.full) {
        LV wr = jacobi([&] { RM R = reference(s, M, m); for (int i = 0; i < R.r; i++) for (int j = 0; j < R.r; j++) { if (i % s.nd >= 3) R(i, j) /= M.el.h; if (j % s.nd >= 3) R(i, j) /= M.el.h; } return R; }());
        int n = M.el.f->n, zero = 0, zr = 0, want = s.type == 0 ? 3 : 6, drill = s.type == 3 ? n : 0;
        for (auto v : w) if (v < 1e-9L / powl(M.el.asp, 3) * big) zero++;
        for (auto v : wr) if (v < 1e-9L / powl(M.el.asp, 3) * wr.back()) zr++;
        if (drill) c.expect("rank", zero == zr && zero >= want, cat(zero, " energy-free modes, exact kinematics has ", zr, " in ", s.name));
        else c.expect("rank", zero == want, cat(zero, " energy-free modes (exact kinematics: ", zr, "), expected ", want, " in ", s.name, "; ratio ", (double)(w[want] / big)));
    }
}
static void law(Case& c) {
    const Str& s = pickS(c);
    Mat m = material(c);
    Model M = make(c, s, m);
    c.describe(s.name, " E=", m.E, " V=", m.V, " t=", m.t, " a=", m.a, " b=", m.b);
    c.count(s.name);
    RM K = call(c, s, M, m), R = reference(s, M, m);
    ld h = M.el.h, rel = 1e-11L * M.el.slack();
    // compare block by block: translations, rotations, coupling
    for (int bi = 0; bi < 2; bi++) for (int bj = 0; bj < 2; bj++) {
        ld sc = 0;
        for (int i = 0; i < R.r; i++) for (int j = 0; j < R.r; j++) if ((i % s.nd >= 3) == bi && (j % s.nd >= 3) == bj) sc = std::max(sc, fabsl(R(i, j)));
        for (int i = 0; i < R.r; i++) for (int j = 0; j < R.r; j++) if ((i % s.nd >= 3) == bi && (j % s.nd >= 3) == bj) c.near("material-law", K(i, j), R(i, j), rel * 10 * sc + rel * 1e-6L * R.maxabs() * (bi ? h : 1) * (bj ? h : 1), cat(s.name, " entry (", i, ",", j, ")"));
    }
    Mat m2 = m;
    double f = c.rng.logu(0.01, 100);
    m2.E *= f;
    RM K2 = call(c, s, M, m2);
    cmp(c, "proportional", K2, (ld)f * K, rel, s.name);
}
// exact states of straight / flat elements
static void states(Case& c) {
    const Str& s = pickS(c);
    Mat m = material(c);
    Model M = make(c, s, m, s.type == 1 ? 1 : 0);
    if (s.type >= 2) {      // flat: rotate a plane element into space
        El p = makeEl(c, s.kind, 2, c.rng.chance(0.5) ? 2 : 1);
        RM R = rotation(c.rng, 3);
        M.el.h = p.h; M.el.off = p.off; m.t = p.h * c.rng.logu(0.01, 0.3);
        M.el.X = RM(p.f->n, 3);
        for (int i = 0; i < p.f->n; i++) for (int k = 0; k < 3; k++) M.el.X(i, k) = (double)(R(k, 0) * p.X(i, 0) + R(k, 1) * p.X(i, 1));
        place(c, M.el);
        shellFrame(M);
    }
    c.describe(s.name, " flat/straight");
    RM K = call(c, s, M, m);
    int n = M.el.f->n;
    ld E = m.E, V = m.V, G = E / 2 / (1 + V);
    ld mx = K.maxabs();
    if (s.type <= 1) {
        V3 d(3, 0);
        for (int k = 0; k < M.el.X.c; k++) d[k] = M.el.X(1, k) - M.el.X(0, k);
        ld L = sqrtl(dot(d, d)), A = s.type == 0 ? (ld)m.a : (ld)m.a * m.b, eps = c.rng.uni(0.1, 1);
        V3 ax = unit(d), x0(3, 0);
        for (int k = 0; k < M.el.X.c; k++) x0[k] = M.el.X(0, k);
        auto energy = [&](const std::string& what, LV q, ld want) { ld e = quad(K, q, q), tol = 0; for (int i = 0; i < K.r; i++) for (int j = 0; j < K.r; j++) tol += fabsl(K(i, j) * q[i] * q[j]); c.near("energy", e, want, 1e-11L * M.el.slack() * (tol + want), s.name + " " + what); };
        LV q(K.r, 0);
        auto along = [&](int i) { ld a = 0; for (int k = 0; k < M.el.X.c; k++) a += (M.el.X(i, k) - x0[k]) * ax[k]; return a; };
        for (int i = 0; i < n; i++) for (int k = 0; k < (s.type == 0 ? 2 : 3); k++) q[s.nd * i + k] = eps * along(i) * ax[k];
        energy("stretch", q, E * A * L * eps * eps);
        if (s.type == 1 && n == 2) {      // directors: exactly orthonormal and constant in this mode
            LV tw(K.r, 0);
            for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) tw[6 * i + 3 + k] = eps * along(i) * ax[k];
            energy("twist", tw, G / 1.2L * A * ((ld)m.a * m.a + (ld)m.b * m.b) / 12 * L * eps * eps);
        }
        if (s.type == 1 && (n == 3 || s.r1.p.size() == 1)) {     // constant curvature about both cross-section axes
            for (int axis = 0; axis < 2; axis++) {
                V3 dir = axis ? M.b[0] : M.a[0], rot = cross(ax, dir);       // deflection along dir, slope rotates about ax x dir
                ld I = axis ? A * m.b * m.b / 12 : A * m.a * m.a / 12;
                LV b(K.r, 0);
                for (int i = 0; i < n; i++) { ld z = along(i); for (int k = 0; k < 3; k++) { b[6 * i + k] = eps * z * z / 2 * dir[k]; b[6 * i + 3 + k] = eps * z * rot[k]; } }
                energy("pure bending", b, E * I * L * eps * eps);
            }
        }
    } else {
        V3 nn = M.n[0], t1 = M.a[0], t2 = M.b[0];
        auto pf = fullRule(*M.el.f, 5);
        ld area = 0, ar = 0;
        auto meas = [&](const Rule& r) { ld s2 = 0; for (size_t g = 0; g < r.p.size(); g++) { RM J = M.el.f->dN(r.p[g]) * M.el.X; V3 q = cross(rowv(J, 0), rowv(J, 1)); s2 += r.w[g] * sqrtl(dot(q, q)); } return s2; };
        area = meas(pf); ar = meas(s.r1);
        if (fabsl(area - ar) > 1e-12L * area) { c.count("rule-too-weak-for-geometry"); return; }
        LV x0 = centre(M.el.X), q(K.r, 0);
        RM H(2, 2);
        for (auto& v : H.a) v = c.rng.uni(-1, 1);
        for (int i = 0; i < n; i++) {
            V3 d(3);
            for (int k = 0; k < 3; k++) d[k] = M.el.X(i, k) - x0[k];
            ld a = dot(d, t1), b = dot(d, t2);
            for (int k = 0; k < 3; k++) q[s.nd * i + k] = (H(0, 0) * a + H(0, 1) * b) * t1[k] + (H(1, 0) * a + H(1, 1) * b) * t2[k];
        }
        ld e11 = H(0, 0), e22 = H(1, 1), g12 = H(0, 1) + H(1, 0);
        auto plane = [&](ld x, ld y, ld g) { return E / (1 - V * V) * (x * x + y * y + 2 * V * x * y) + G * g * g; };
        ld tol = 0;
        for (int i = 0; i < K.r; i++) for (int j = 0; j < K.r; j++) tol += fabsl(K(i, j) * q[i] * q[j]);
        c.near("energy", quad(K, q, q), plane(e11, e22, g12) * area * m.t, 1e-11L * M.el.slack() * tol, s.name + " membrane");
        c.count("membrane");
        if (s.kind == 28 || s.kind == 26) {      // constant curvature: w quadratic, slopes exact at the nodes
            bool straight = true;
            for (int i = 0; i < n; i++) straight = straight && true;
            LV b(K.r, 0);
            ld k11 = c.rng.uni(-1, 1), k22 = c.rng.uni(-1, 1), k12 = c.rng.uni(-1, 1);
            for (int i = 0; i < n; i++) {
                V3 d(3);
                for (int k = 0; k < 3; k++) d[k] = M.el.X(i, k) - x0[k];
                ld a = dot(d, t1), y = dot(d, t2), w = (k11 * a * a + k22 * y * y + 2 * k12 * a * y) / 2, w1 = k11 * a + k12 * y, w2 = k22 * y + k12 * a;
                for (int k = 0; k < 3; k++) b[s.nd * i + k] = w * nn[k];
                // rotation vector of the normal: theta x n = -w1 t1 - w2 t2
                V3 th(3);
                for (int k = 0; k < 3; k++) th[k] = w2 * t1[k] - w1 * t2[k];
                if (s.type == 2) { b[5 * i + 3] = dot(th, M.a[i]); b[5 * i + 4] = dot(th, M.b[i]); }
                else for (int k = 0; k < 3; k++) b[6 * i + 3 + k] = th[k];
            }
            if (M.el.f->n && (s.kind == 26 || c.rng.chance(2))) {
                // w is in the element space only on affine geometry
                bool affine = true;
                LV dets;
                for (auto& p : pf.p) { RM J = M.el.f->dN(p) * M.el.X; V3 z = cross(rowv(J, 0), rowv(J, 1)); dets.push_back(sqrtl(dot(z, z))); }
                for (auto v : dets) if (fabsl(v - dets[0]) > 1e-9L * dets[0]) affine = false;
                if (affine) {
                    tol = 0;
                    for (int i = 0; i < K.r; i++) for (int j = 0; j < K.r; j++) tol += fabsl(K(i, j) * b[i] * b[j]);
                    c.near("energy", quad(K, b, b), plane(k11, k22, 2 * k12) * area * m.t * m.t * m.t / 12, 1e-11L * M.el.slack() * tol, s.name + " bending");
                    c.count("bending");
                }
            }
        }
    }
    (void)mx;
}
static void frame(Case& c) {
    const Str& s = pickS(c);
    Mat m = material(c);
    Model M = make(c, s, m);
    c.describe(s.name, " E=", m.E, " V=", m.V);
    c.count(s.name);
    RM K = call(c, s, M, m);
    int n = M.el.f->n, dim = M.el.X.c;
    RM R = rotation(c.rng, dim);
    LV tr(dim);
    for (auto& v : tr) v = c.rng.chance(0.3) ? 0 : M.el.h * c.rng.uni(-20, 20);
    Model Q = M;
    Q.el = moved(c, M.el, R, tr);
    Q.el.off = std::max<double>(M.el.off, 40 * M.el.h);
    if (s.type == 1) for (int i = 0; i < n; i++) { std::vector<double> p, q; V3 u = mul(R, lv(M.v1[M.el.e[i]])), w = mul(R, lv(M.v2[M.el.e[i]])); for (int k = 0; k < 3; k++) { p.push_back((double)u[k]); q.push_back((double)w[k]); } Q.v1[M.el.e[i]] = DV(p); Q.v2[M.el.e[i]] = DV(q); }
    RM B(K.r, K.r);
    for (int i = 0; i < n; i++) for (int b = 0; b < (s.nd + dim - 1) / dim; b++) for (int x = 0; x < dim; x++) for (int y = 0; y < dim; y++) {
        int r = s.nd * i + dim * b + x, q = s.nd * i + dim * b + y;
        if (s.nd == 5 && b == 1) { if (x < 2) B(r, r) = 1; } else B(r, q) = R(x, y);
    }
    RM KM = call(c, s, Q, m), W = B * (K * B.T());
    ld h = M.el.h, mx = 0;
    auto u = [&](int i) { return i % s.nd >= 3 ? h : 1.0L; };
    for (int i = 0; i < K.r; i++) for (int j = 0; j < K.r; j++) mx = std::max(mx, fabsl(K(i, j)) / u(i) / u(j));
    auto cmpu = [&](const std::string& mon, const RM& A, const RM& C, ld slack) { for (int i = 0; i < A.r; i++) for (int j = 0; j < A.r; j++) c.near(mon, A(i, j), C(i, j), 1e-10L * slack * mx * u(i) * u(j), cat(s.name, " entry (", i, ",", j, ")")); };
    cmpu("rigid-motion-of-frame", KM, W, Q.el.slack());
    // renumbering
    if (s.type == 3 || s.type == 0 || s.type == 1) {
        std::vector<int> perm = s.type == 3 ? symmetry(c, *M.el.f) : n == 2 ? std::vector<int>{1, 0} : std::vector<int>{1, 0, 2};
        Model P = M;
        P.el = permuted(c, M.el, perm);
        Mat mp = m;
        if (s.type == 1) { std::swap(P.v1, P.v2); std::swap(mp.a, mp.b); }
        RM KP = call(c, s, P, mp), X(K.r, K.r);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int a = 0; a < s.nd; a++) for (int b = 0; b < s.nd; b++) X(s.nd * i + a, s.nd * j + b) = K(s.nd * perm[i] + a, s.nd * perm[j] + b);
        cmpu("renumbering", KP, X, M.el.slack());
    }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_struct");
    long N = all().size();
    component("P14.structural", N * 30, N * 600, kernel);
    component("P15.structural", N * 30, N * 600, law);
    component("P15.states", N * 20, N * 400, states);
    component("P16.structural", N * 25, N * 500, frame);
    return finish();
}
