// Linear elastic continuum elements: P14 kernel and symmetry, P15 patch test and constitutive law, P16 frame and numbering
#include "elas.hpp"
using namespace vh;
static const Op& pickOp(Case& c) { auto& o = continuum(); return o[c.idx % o.size()]; }
static DM call(Case& c, const Op& op, El& el, const Mat& m, bool map = true) {
    DM K;
    NTE nte;
    if (c.rng.chance(0.5)) { K = DM(3, 5); nte.resize(2); }      // whatever the outputs held before
    std::vector<int> dl = doulist(c, op.nd);
    int nd = op.nd;
    auto e0 = el.e;
    op.call(K, nte, el, dl, m);
    if (map) checkMap(c, op.name, nte, el.f->n, dl, [nd](int i, int k) { return nd * i + k; });
    c.expect("shape", K.ROW() == nd * el.f->n && K.COL() == nd * el.f->n, op.name + ": wrong size");
    return K;
}
static void kernel(Case& c) {
    const Op& op = pickOp(c);
    El el = makeEl(c, op.kind);
    Mat m = material(c);
    userMatrix(c, m, c.rng.chance(0.3) || op.law == 4);
    c.describe(op.name, " E=", m.E, " V=", m.V, " t=", m.t);
    c.count(op.name);
    RM K = rm(call(c, op, el, m));
    ld s = K.maxabs(), tol = 2e-12L * el.slack() * (m.V > 0.4 ? 0.2L / (1 - 2 * (ld)m.V) + 1 : 1);
    if (!c.expect("finite", std::isfinite((double)s) && s > 0, "stiffness zero or not finite")) return;
    c.near("symmetry", (K - K.T()).maxabs() / s, 0, tol, "asymmetry over largest entry");
    int d = op.nd, n = el.f->n;
    LV x0 = centre(el.X);
    for (int a = 0; a < d; a++) { LV u0(d, 0); u0[a] = 1; LV f = K * fieldOf(el.X, RM(d, d), u0, x0); c.near("translation", maxabs(f) / s, 0, tol * n, "force of a rigid translation"); }
    for (auto& W : skews(d)) { LV u = fieldOf(el.X, W, LV(d, 0), x0); c.near("rotation", maxabs(K * u) / s / maxabs(u), 0, tol * n, "force of a rigid rotation"); }
    RM S = K;
    for (int i = 0; i < K.r; i++) for (int j = 0; j < K.r; j++) S(i, j) = (K(i, j) + K(j, i)) / 2;
    LV w = jacobi(S);
    ld big = w.back();
    c.near("semidefinite", std::min<ld>(w[0], 0) / big, 0, tol * n, "most negative eigenvalue over largest");
    if (op.full) {
        int rig = d == 2 ? 3 : 6, zero = 0;
        for (auto v : w) if (v < 1e-7L / powl(el.asp, 4) * big) zero++;
        c.expect("rank", zero == rig, cat(zero, " energy-free modes, expected ", rig, "; eigenvalue ratio ", (double)(w[rig] / big), " of ", op.name));
    }
}
static void patchElement(Case& c) {
    const Op& op = pickOp(c);
    El el = makeEl(c, op.kind, 0, op.affineOnly ? c.rng.range(0, 1) : -1);
    Mat m = material(c);
    userMatrix(c, m, c.rng.chance(0.3) || op.law == 4);
    c.describe(op.name, " E=", m.E, " V=", m.V, " t=", m.t);
    c.count(op.name);
    RM K = rm(call(c, op, el, m));
    ld rel = 1e-11L * el.slack() * (m.V > 0.4 ? 0.2L / (1 - 2 * (ld)m.V) + 1 : 1);     // condensation cancels towards incompressibility
    cmp(c, "material-law", K, op.ref(el, m), rel, op.name);
    // proportional to modulus and thickness
    Mat m2 = m;
    double f = c.rng.logu(0.01, 100), q = c.rng.logu(0.01, 100);
    m2.E *= f; m2.t *= q; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m2.D(i, j) *= f;
    RM K2 = rm(call(c, op, el, m2));
    cmp(c, "proportional", K2, (f * (op.law == 2 ? 1.0L : (ld)q)) * K, rel, op.name + " scaled");
    // constant strain: nodal forces and energy of the exact stress, wherever the rule chosen integrates them exactly
    int d = op.nd, n = el.f->n;
    auto pr = points(*el.f, el.X, op.rule), pf = points(*el.f, el.X, fullRule(*el.f, 5));
    RM Gr(d, n), Gf(d, n);
    ld vr = 0, vf = 0;
    for (auto& p : pr) { Gr = Gr + p.w * p.dN; vr += p.w; }
    for (auto& p : pf) { Gf = Gf + p.w * p.dN; vf += p.w; }
    if ((Gr - Gf).maxabs() > 1e-12L * Gf.maxabs() || fabsl(vr - vf) > 1e-12L * vf) { c.count("rule-too-weak-for-geometry"); return; }
    c.count("constant-strain-judged");
    RM H(d, d);
    for (auto& v : H.a) v = c.rng.val();
    LV e = strainOf(H), sg = lawOf(op, m) * e;
    RM T = tensorOf(sg);
    LV x0 = centre(el.X), u0(d);
    for (auto& v : u0) v = c.rng.val();
    LV u = fieldOf(el.X, H, u0, x0), F = K * u;
    ld t = thick(op, m), scale = K.maxabs() * std::max<ld>(maxabs(u), 1e-300L) * n;
    for (int i = 0; i < n; i++) for (int a = 0; a < d; a++) {
        ld w = 0;
        for (int b = 0; b < d; b++) w += t * T(a, b) * Gf(b, i);
        c.near("constant-stress-force", F[d * i + a], w, rel * scale, cat(op.name, " force at node ", i));
    }
    ld en = 0;
    for (size_t k = 0; k < e.size(); k++) en += e[k] * sg[k];
    c.near("energy", quad(K, u, u), en * t * vf, rel * scale * maxabs(u), op.name + " energy of a linear field");
}
// grids of distorted elements, assembled by summation: interior nodes are force free under a linear field
static void patchMesh(Case& c) {
    const Op& op = pickOp(c);
    const Fam& f = fam(op.kind);
    int d = f.d, nx = c.rng.range(1, 3), ny = c.rng.range(2, 3), nz = d == 3 ? (op.kind == 320 ? 1 : 2) : 1;
    if (op.kind == 320) nx = 2, ny = 1;
    bool quadr = op.kind == 26 || op.kind == 28 || op.kind == 320;
    Mat m = material(c);
    userMatrix(c, m, c.rng.chance(0.3) || op.law == 4);
    c.describe(op.name, " grid ", nx, "x", ny, "x", nz, " E=", m.E, " V=", m.V);
    c.count(op.name);
    double h = c.rng.logu(0.01, 100), pert = op.affineOnly ? 0 : c.rng.uni(0.05, d == 3 ? 0.12 : f.simplex ? 0.15 : 0.22);
    // corner lattice with perturbed interior (and boundary) nodes, affinely mapped
    RM A = RM::id(d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) A(i, j) = (i == j ? c.rng.uni(0.6, 1.6) : c.rng.uni(-0.3, 0.3)) * h;
    std::map<std::vector<int>, int> id;              // doubled lattice coordinates -> node
    std::vector<LV> X;
    auto corner = [&](std::vector<int> k) {
        auto it = id.find(k);
        if (it != id.end()) return it->second;
        LV p(d);
        for (int a = 0; a < d; a++) p[a] = k[a] / 2.0 + pert * c.rng.uni(-1, 1);
        LV y = A * p;
        for (auto& v : y) v = (double)v;
        X.push_back(y);
        return id[k] = (int)X.size() - 1;
    };
    auto mid = [&](std::vector<int> a, std::vector<int> b) {
        std::vector<int> k(d);
        for (int q = 0; q < d; q++) k[q] = (a[q] + b[q]) / 2;
        auto it = id.find(k);
        if (it != id.end()) return it->second;
        int i = corner(a), j = corner(b);
        LV y(d);
        for (int q = 0; q < d; q++) y[q] = (double)((X[i][q] + X[j][q]) / 2);
        X.push_back(y);
        return id[k] = (int)X.size() - 1;
    };
    std::vector<std::vector<int>> els;
    std::vector<std::vector<std::vector<int>>> cells;
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) {
        std::vector<std::vector<int>> v;
        for (int z = 0; z < (d == 3 ? 2 : 1); z++) for (auto q : std::vector<std::pair<int, int>>{{0,0},{1,0},{1,1},{0,1}}) { std::vector<int> w{2 * (i + q.first), 2 * (j + q.second)}; if (d == 3) w.push_back(2 * (k + z)); v.push_back(w); }
        if (op.kind == 24 || op.kind == 28 || op.kind == 38 || op.kind == 320) cells.push_back(v);
        else if (d == 2) { bool alt = (i + j) % 2; auto t = [&](int a, int b, int e) { cells.push_back({v[a], v[b], v[e]}); }; if (alt) { t(0, 1, 2); t(0, 2, 3); } else { t(0, 1, 3); t(1, 2, 3); } }
        else for (auto q : std::vector<std::array<int, 4>>{{0,1,2,6},{0,2,3,6},{0,3,7,6},{0,7,4,6},{0,4,5,6},{0,5,1,6}}) cells.push_back({v[q[0]], v[q[1]], v[q[2]], v[q[3]]});
    }
    for (auto& v : cells) {
        std::vector<int> e;
        for (auto& k : v) e.push_back(corner(k));
        if (quadr) for (size_t i = v.size(); i < (size_t)f.n; i++) for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) {
            bool ok = true;
            for (int q = 0; q < d; q++) if (fabs(0.5 * (f.nodes[a][q] + f.nodes[b][q]) - f.nodes[i][q]) > 1e-9) ok = false;
            if (ok) { e.push_back(mid(v[a], v[b])); a = b = 99; }
        }
        els.push_back(e);
    }
    std::vector<DV> x;
    for (auto& p : X) x.push_back(DV(std::vector<double>(p.begin(), p.end())));
    RM H(d, d);
    for (auto& v : H.a) v = c.rng.uni(-1, 1);
    LV sg = lawOf(op, m) * strainOf(H), F(d * X.size(), 0), B(d * X.size(), 0);
    RM T = tensorOf(sg);
    ld scale = 0, en = 0, vol = 0;
    for (auto& e : els) {
        El el;
        el.f = &f; el.e = e; el.x = x; el.X = RM(f.n, d);
        if (f.simplex && d == 3) {}     // orientation fixed below
        for (int i = 0; i < f.n; i++) for (int a = 0; a < d; a++) el.X(i, a) = X[e[i]][a];
        auto pf = points(f, el.X, fullRule(f, 4));
        if (pf[0].det < 0) { std::swap(el.e[0], el.e[1]); for (int a = 0; a < d; a++) std::swap(el.X(0, a), el.X(1, a)); if (op.kind == 26) { std::swap(el.e[4], el.e[5]); for (int a = 0; a < d; a++) std::swap(el.X(4, a), el.X(5, a)); } pf = points(f, el.X, fullRule(f, 4)); }
        bool bad = false; for (auto& p : pf) if (p.det <= 0) bad = true;
        if (bad) { c.boring(); return; }
        auto pr = points(f, el.X, op.rule);
        RM Gr(d, f.n), Gf(d, f.n);
        for (auto& p : pr) Gr = Gr + p.w * p.dN;
        for (auto& p : pf) { Gf = Gf + p.w * p.dN; vol += p.w; }
        if ((Gr - Gf).maxabs() > 1e-12L * Gf.maxabs()) { c.count("rule-too-weak-for-geometry"); c.boring(); return; }
        DM K;
        NTE nte;
        std::vector<int> dl;
        for (int k = 0; k < d; k++) dl.push_back(k);
        op.call(K, nte, el, dl, m);
        std::vector<DV> u;
        for (auto& p : X) { LV q = H * p; u.push_back(DV(std::vector<double>(q.begin(), q.end()))); }
        DV ue = P2::ElementVector(u, nte, el.e), fe = K * ue;
        en += (ue * fe);
        ld km = rm(K).maxabs() * maxabs(lv(ue)) * K.ROW();
        scale = std::max(scale, km);
        for (int i = 0; i < f.n; i++) for (auto& p : nte[i]) F[d * el.e[i] + p.first] += fe(p.second);
        for (int i = 0; i < f.n; i++) for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) B[d * el.e[i] + a] += thick(op, m) * T(a, b) * Gf(b, i);
    }
    std::set<int> interior;
    int hi[3] = {2 * nx, 2 * ny, 2 * nz};
    for (auto& kv : id) { bool in = true; for (int a = 0; a < d; a++) if (kv.first[a] == 0 || kv.first[a] == hi[a]) in = false; if (in) interior.insert(kv.second); }
    c.count("interior-nodes", interior.size());
    for (size_t i = 0; i < X.size(); i++) for (int a = 0; a < d; a++)
        c.near(interior.count(i) ? "interior-equilibrium" : "boundary-traction", F[d * i + a], interior.count(i) ? 0 : B[d * i + a], 1e-11L * scale, cat(op.name, " node ", i));
    LV e = strainOf(H);
    ld w = 0;
    for (size_t k = 0; k < e.size(); k++) w += e[k] * sg[k];
    c.near("mesh-energy", en, w * thick(op, m) * vol, 1e-11L * scale * h * 4 * els.size(), op.name);
}
static void frame(Case& c) {
    const Op& op = pickOp(c);
    El el = makeEl(c, op.kind);
    Mat m = material(c);
    userMatrix(c, m, true);
    c.describe(op.name, " E=", m.E, " V=", m.V, " t=", m.t);
    c.count(op.name);
    int d = op.nd, n = el.f->n;
    RM K = rm(call(c, op, el, m));
    ld rel = 1e-11L * el.slack() * (m.V > 0.4 ? 0.2L / (1 - 2 * (ld)m.V) + 1 : 1);     // condensation cancels towards incompressibility
    std::vector<int> perm = symmetry(c, *el.f);
    El pe = permuted(c, el, perm);
    RM KP = rm(call(c, op, pe, m)), W(d * n, d * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) W(d * i + a, d * j + b) = K(d * perm[i] + a, d * perm[j] + b);
    cmp(c, "renumbering", KP, W, rel, op.name);
    RM R = rotation(c.rng, d);
    LV tr(d);
    for (auto& v : tr) v = c.rng.chance(0.3) ? 0 : el.h * c.rng.uni(-20, 20);
    El me = moved(c, el, R, tr);
    me.off = std::max<double>(el.off, 40 * el.h);
    RM KM = rm(call(c, op, me, m)), Q = blockRot(R, n);
    cmp(c, "rigid-motion-of-frame", KM, Q * (K * Q.T()), 2e-11L * me.slack() * (rel / (1e-11L * el.slack())), op.name);
    // relabelling of the global nodes changes nothing
    El re = el;
    place(c, re, 6);
    cmp(c, "node-labels", rm(call(c, op, re, m)), K, 1e-15L, op.name);
}
static void spring(Case& c) {
    int n = c.rng.range(1, 20), nd = c.rng.range(1, 6);
    std::vector<DV> x;
    for (int i = 0; i < n + 3; i++) x.push_back(DV(std::vector<double>(c.rng.range(1, 3), c.rng.val())));
    std::vector<int> e;
    for (int i = 0; i < n + 3; i++) e.push_back(i);
    c.rng.shuffle(e); e.resize(n);
    double al = c.rng.logu(1e-9, 1e6);
    std::vector<int> dl = doulist(c, nd);
    DM K; NTE nte;
    P2::WeakSpring<double>(K, nte, e, dl, x, al);
    c.describe(n, " nodes, ", nd, " unknowns, alpha ", al);
    c.expect("map-size", (int)nte.size() == n, "one map per node");
    std::set<int> rows;
    for (auto& v : nte) { std::set<int> ds; for (auto& p : v) { rows.insert(p.second); ds.insert(p.first); } c.expect("map", ds == std::set<int>(dl.begin(), dl.end()) && (int)v.size() == nd, "every unknown of the node once"); }
    c.expect("map", (int)rows.size() == n * nd && *rows.rbegin() == n * nd - 1 && *rows.begin() == 0, "rows of different unknowns coincide");
    cmp(c, "spring", rm(K), (ld)al * RM::id(n * nd), 1e-15L, "weak spring");
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_elas");
    long N = continuum().size();
    component("P14.continuum", N * 30, N * 800, kernel);
    component("P14.weakspring", 200, 4000, spring);
    component("P15.element", N * 30, N * 800, patchElement);
    component("P15.patch", N * 8, N * 200, patchMesh);
    component("P16.elastic", N * 25, N * 600, frame);
    return finish();
}
