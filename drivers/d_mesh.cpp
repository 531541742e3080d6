// P27 structured meshes and ground structures, P28 selection of boundary entities
#define _USE_MATH_DEFINES
#include <cassert>
#include <cmath>
#include <array>
#include "vh.hpp"
#include "src/LinearAlgebra/Models/Vector.h"
#include "src/PrePost/Mesher/SquareMesh.h"
#include "src/PrePost/Mesher/AnnulusMesh.h"
#include "src/PrePost/Mesher/SquareAnnulusMesh.h"
#include "src/PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "src/PrePost/Mesher/GrandStructure.h"
using namespace vh;
using namespace PANSFEM2;
typedef Vector<double> DV;
typedef std::vector<std::vector<int>> IM;
typedef std::vector<std::pair<std::pair<int, int>, double>> Fix;
typedef std::function<bool(DV)> Pred;
struct XY { double x, y; };
struct Mesh {
    std::string name; std::vector<DV> x; IM el, ed; ld area; int euler; bool inner, curved = false;
    std::vector<XY> want;                       // expected node positions as a set
    std::vector<XY> outer;                      // extreme box
    std::function<Fix(std::vector<int>, Pred)> fixed;
    std::function<std::vector<int>(Pred)> elsel, edsel;
    double size; bool valid = true;             // reference geometry has positive cells
};
template <class M> Fix fixlist(M m, std::vector<int> u, Pred p) { return m.GenerateFixedlist(u, p); }
static std::vector<double> graded(double L, int n, double r) {
    std::vector<double> v(n + 1);
    double c = 0.5 * L / (std::pow(r, n / 2.0) - 1);
    for (int i = 0; i <= n; i++) v[i] = 2 * i < n ? c * (std::pow(r, i) - 1) : 2 * i > n ? L - c * (std::pow(r, n - i) - 1) : 0.5 * L;
    return v;
}
static void tensor(std::vector<XY>& o, const std::vector<double>& a, const std::vector<double>& b) { for (double p : a) for (double q : b) o.push_back({p, q}); }
static std::vector<double> even(double L, int n) { std::vector<double> v(n + 1); for (int i = 0; i <= n; i++) v[i] = L * i / n; return v; }
// points going round the rectangle a x b centred at the origin, starting at the lower right corner, counterclockwise
static std::vector<XY> ring(double a, double b, int nx, int ny) {
    std::vector<XY> o;
    for (int j = 0; j < ny; j++) o.push_back({a / 2, -b / 2 + b * j / ny});
    for (int j = 0; j < nx; j++) o.push_back({a / 2 - a * j / nx, b / 2});
    for (int j = 0; j < ny; j++) o.push_back({-a / 2, b / 2 - b * j / ny});
    for (int j = 0; j < nx; j++) o.push_back({-a / 2 + a * j / nx, -b / 2});
    return o;
}
static Mesh make(Case& c, int kind) {
    Rng& g = c.rng; Mesh m; bool big = g.chance(0.05); int lng = g.chance(0.03) ? g.range(0, kind == 4 ? 3 : 2) : -1, call = 0;     // now and then one direction is divided very finely
    auto n = [&](int lo) { if (lng >= 0) return call++ == lng ? g.range(61, 230) : std::max(lo, g.range(1, 3)); return big ? g.range(lo, 30) : g.chance(0.25) ? lo : g.range(lo, 8); };
    double a = g.chance(0.3) ? g.range(1, 5) : g.logu(1e-2, 1e3), b = g.chance(0.3) ? a : a * g.logu(0.1, 10);
    m.inner = false; m.euler = 1;
    switch (kind) {
    case 0: { int nx = n(1), ny = n(1); SquareMesh<double> q(a, b, nx, ny); m.name = "SquareMesh"; m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.ed = q.GenerateEdges(); m.area = (ld)a * b; tensor(m.want, even(a, nx), even(b, ny));
        m.fixed = [q](std::vector<int> u, Pred p) { return fixlist(q, u, p); };
        m.elsel = [q](Pred p) mutable { return q.GenerateElementIdsSelected(p); }; m.edsel = [q](Pred p) mutable { return q.GenerateEdgeIdsSelected(p); };
        c.describe("SquareMesh ", a, " ", b, " ", nx, " ", ny); break; }
    case 1: { int nx = n(1), ny = n(1); double rx = g.chance(0.5) ? g.uni(1.05, 2) : g.uni(0.5, 0.95), ry = g.chance(0.5) ? g.uni(1.05, 2) : g.uni(0.5, 0.95);
        if (nx > 30) rx = 1 + g.sgn() * g.uni(0.3, 3) / nx; if (ny > 30) ry = 1 + g.sgn() * g.uni(0.3, 3) / ny;
        SquareMesh2<double> q(a, b, nx, ny, rx, ry); m.name = "SquareMesh2"; m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.ed = q.GenerateEdges(); m.area = (ld)a * b; tensor(m.want, graded(a, nx, rx), graded(b, ny, ry));
        m.fixed = [q](std::vector<int> u, Pred p) { return fixlist(q, u, p); };
        c.describe("SquareMesh2 ", a, " ", b, " ", nx, " ", ny, " ", rx, " ", ry); break; }
    case 2: { int nr = n(1), nt = n(3); double r0 = a * g.uni(0.05, 0.9); AnnulusMesh<double> q(r0, a, nr, nt); m.name = "AnnulusMesh"; m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.ed = q.GenerateEdges();
        m.area = 0.5L * nt * sinl(2 * M_PIl / nt) * ((ld)a * a - (ld)r0 * r0); m.euler = 0; m.inner = true;
        for (int i = 0; i <= nr; i++) for (int j = 0; j < nt; j++) { double r = r0 + (a - r0) * i / nr, t = 2 * M_PI * j / nt; m.want.push_back({r * cos(t), r * sin(t)}); }
        m.fixed = [q](std::vector<int> u, Pred p) { return fixlist(q, u, p); }; b = a; a *= 2; b *= 2;
        c.describe("AnnulusMesh ", r0, " ", a / 2, " ", nr, " ", nt); break; }
    case 3: { int nx = n(1), ny = n(1), nt = n(1); double cc = a * g.uni(0.1, 0.9), dd = b * g.uni(0.1, 0.9); SquareAnnulusMesh<double> q(a, b, cc, dd, nx, ny, nt); m.name = "SquareAnnulusMesh"; m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.ed = q.GenerateEdges();
        m.area = (ld)a * b - (ld)cc * dd; m.euler = 0; m.inner = true;
        auto o = ring(a, b, nx, ny), in = ring(cc, dd, nx, ny);
        for (int i = 0; i <= nt; i++) for (size_t j = 0; j < o.size(); j++) { double t = double(i) / nt; m.want.push_back({t * o[j].x + (1 - t) * in[j].x, t * o[j].y + (1 - t) * in[j].y}); }
        m.fixed = [q](std::vector<int> u, Pred p) { return fixlist(q, u, p); };
        c.describe("SquareAnnulusMesh ", a, " ", b, " ", cc, " ", dd, " ", nx, " ", ny, " ", nt); break; }
    case 4: { int nv = n(1), nw = n(1), nx = nv + 2 * (lng >= 0 ? n(1) : std::min(n(1), 4)), ny = nw + 2 * (lng >= 0 ? n(1) : std::min(n(1), 4)); SquareAnnulusMesh2<double> q(a, b, nx, ny, nv, nw); m.name = "SquareAnnulusMesh2"; m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.ed = q.GenerateEdges();
        m.area = (ld)a * b - (ld)a * nv / nx * ((ld)b * nw / ny); m.euler = 0;
        int px = (nx - nv) / 2, py = (ny - nw) / 2;
        for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) if (!(i > px && i < px + nv && j > py && j < py + nw)) m.want.push_back({a * i / nx, b * j / ny});
        m.fixed = [q](std::vector<int> u, Pred p) { return fixlist(q, u, p); };
        c.describe("SquareAnnulusMesh2 ", a, " ", b, " ", nx, " ", ny, " ", nv, " ", nw); break; }
    case 5: { int nx = n(1), ny = g.chance(0.6) ? nx : n(1), nr = n(1); if (g.chance(0.6)) b = a * g.uni(0.8, 1.25); double r = 0.5 * std::min(a, b) * g.uni(0.1, 0.9), p = g.chance(0.5) ? 1 : g.uni(0.5, 3);
        SquareCircleAnnulusMesh<double> q(a, b, r, p, nx, ny, nr); m.name = "SquareCircleAnnulusMesh"; m.x = q.GenerateNodes(); m.el = q.GenerateElements(); m.ed = q.GenerateEdges();
        auto o = ring(a, b, nx, ny); int k = o.size();
        m.area = (ld)a * b - 0.5L * k * (ld)r * r * sinl(2 * M_PIl / k); m.euler = 0; m.inner = true;
        // equal angles on the circle; the first point belongs to the lower right corner
        for (int i = 0; i <= nr; i++) for (int j = 0; j < k; j++) { double t = std::pow(double(i) / nr, p), th = 2 * M_PI * (j - 0.5 * ny) / k; m.want.push_back({(1 - t) * r * cos(th) + t * o[j].x, (1 - t) * r * sin(th) + t * o[j].y}); }
        for (int i = 0; i < nr && m.valid; i++) for (int j = 0; j < k; j++) { XY P[4] = {m.want[k * i + j], m.want[k * (i + 1) + j], m.want[k * (i + 1) + (j + 1) % k], m.want[k * i + (j + 1) % k]};
            for (int z = 0; z < 4; z++) { XY A = P[z], B = P[(z + 1) % 4], C = P[(z + 3) % 4]; if ((B.x - A.x) * (C.y - A.y) - (B.y - A.y) * (C.x - A.x) < 1e-9 * a * b) m.valid = false; } }
        m.fixed = [q](std::vector<int> u, Pred pr) { return fixlist(q, u, pr); };
        c.describe("SquareCircleAnnulusMesh ", a, " ", b, " ", r, " ", p, " ", nx, " ", ny, " ", nr); break; }
    }
    m.size = std::max(a, b);
    c.count(m.name);
    return m;
}
static bool sameset(Case& c, const std::string& mon, const std::vector<DV>& x, std::vector<XY> want, double size, const std::string& who) {
    if (!c.expect(mon, x.size() == want.size(), cat(who, ": ", x.size(), " nodes, expected ", want.size()))) return false;
    double q = 1e-9 * size;
    std::vector<XY> got;
    for (auto p : x) { if (!c.expect(mon, p.SIZE() == 2 && std::isfinite(p(0)) && std::isfinite(p(1)), who + ": node without two finite coordinates")) return false; got.push_back({p(0), p(1)}); }
    // match by nearest on a grid hash
    std::map<std::pair<long, long>, std::vector<int>> h; double w = 1e-6 * size;
    for (size_t i = 0; i < got.size(); i++) h[{(long)std::floor(got[i].x / w), (long)std::floor(got[i].y / w)}].push_back(i);
    std::vector<char> used(got.size(), 0); int miss = 0; XY first{0, 0};
    for (auto& p : want) {
        long a = (long)std::floor(p.x / w), b = (long)std::floor(p.y / w); bool f = false;
        for (long i = a - 1; i <= a + 1 && !f; i++) for (long j = b - 1; j <= b + 1 && !f; j++) { auto it = h.find({i, j}); if (it != h.end()) for (int k : it->second) if (!used[k] && std::fabs(got[k].x - p.x) < q && std::fabs(got[k].y - p.y) < q) { used[k] = 1; f = true; break; } }
        if (!f && !miss++) first = p;
    }
    return c.expect(mon, miss == 0, cat(who, ": no node at (", first.x, ", ", first.y, ") and ", miss - 1, " other places where the grid has one"));
}
static void tiling(Case& c, const Mesh& m, int corners) {
    int N = m.x.size();
    std::vector<DV> x = m.x;
    double diam = m.size;
    bool ok = true;
    for (auto& e : m.el) { std::set<int> s(e.begin(), e.end()); if ((int)e.size() < corners || s.size() != e.size() || *s.begin() < 0 || *s.rbegin() >= N) ok = false; }
    if (!c.expect("element-nodes", ok, m.name + ": an element lists a missing, repeated or non-existent node")) return;
    ld area = 0; int bad = 0; std::vector<char> used(N, 0);
    std::map<std::pair<int, int>, int> dir;
    std::vector<int> comp(N); for (int i = 0; i < N; i++) comp[i] = i;
    std::function<int(int)> find = [&](int i) { while (comp[i] != i) i = comp[i] = comp[comp[i]]; return i; };
    std::map<int, std::map<int, int>> adj;
    for (auto& e : m.el) {
        for (int k = 0; k < corners; k++) {
            int p = e[k], q = e[(k + 1) % corners], r = e[(k + corners - 1) % corners];
            ld cr = ((ld)x[q](0) - x[p](0)) * ((ld)x[r](1) - x[p](1)) - ((ld)x[q](1) - x[p](1)) * ((ld)x[r](0) - x[p](0));
            if (!(cr > 0)) bad++;
            area += 0.5L * ((ld)x[p](0) * x[q](1) - (ld)x[q](0) * x[p](1));
            dir[{p, q}]++; comp[find(p)] = find(q);
        }
        for (int v : e) used[v] = 1;
    }
    if (m.valid) c.expect("positive-orientation", bad == 0, cat(m.name, ": ", bad, " corners turn the wrong way"));
    c.near("area", area, m.area, 1e-10L * diam * diam, m.name);
    int unused = 0; for (int i = 0; i < N; i++) if (!used[i]) unused++;
    c.expect("every-node-used", unused == 0, cat(m.name, ": ", unused, " nodes belong to no element"));
    int dup = 0; std::set<std::pair<int, int>> bnd, und; 
    for (auto& d : dir) { if (d.second > 1) dup++; if (!dir.count({d.first.second, d.first.first})) bnd.insert(d.first); und.insert({std::min(d.first.first, d.first.second), std::max(d.first.first, d.first.second)}); }
    c.expect("conforming", dup == 0, cat(m.name, ": ", dup, " edges have two elements on the same side"));
    int nc = 0; std::set<int> verts; for (auto& d : dir) verts.insert(d.first.first);
    for (int v : verts) if (find(v) == v) nc++;
    c.expect("connected", nc == 1, cat(m.name, ": ", nc, " separate pieces"));
    int eu = (int)verts.size() - (int)und.size() + (int)m.el.size();
    c.expect("euler", eu == m.euler, cat(m.name, ": Euler characteristic ", eu, ", expected ", m.euler));
    // boundary list
    std::map<std::pair<int, int>, int> lst; bool eok = true;
    for (auto& e : m.ed) { if (e.size() < 2 || e[0] < 0 || e[0] >= N || e[1] < 0 || e[1] >= N) { eok = false; break; } lst[{e[0], e[1]}]++; }
    if (!c.expect("boundary-nodes", eok, m.name + ": a boundary edge lists a non-existent node")) return;
    std::set<std::pair<int, int>> need = bnd;
    if (m.name == "SquareAnnulusMesh2") {      // this generator lists the outer boundary only
        need.clear();
        double a = 0, b = 0; for (auto p : x) { a = std::max(a, p(0)); b = std::max(b, p(1)); }
        for (auto& d : bnd) { DV p = x[d.first], q = x[d.second]; double e = 1e-9 * diam; if ((p(0) < e && q(0) < e) || (p(1) < e && q(1) < e) || (p(0) > a - e && q(0) > a - e) || (p(1) > b - e && q(1) > b - e)) need.insert(d); }
    }
    int missing = 0, extra = 0, twice = 0;
    for (auto& d : need) if (!lst.count(d)) missing++;
    for (auto& d : lst) { if (!bnd.count(d.first)) extra++; if (d.second > 1) twice++; }
    c.expect("boundary-cover", missing == 0 && extra == 0 && twice == 0, cat(m.name, ": boundary list misses ", missing, " edges, has ", extra, " that are not (correctly directed) boundary edges and ", twice, " repeated"));
}
static void p27(Case& c) {
    Mesh m = make(c, c.idx % 6);
    if (!sameset(c, "nodes", m.x, m.want, m.size, m.name)) return;
    tiling(c, m, 4);
}
static void quadratic(Case& c) {
    Rng& g = c.rng;
    int nx = g.chance(0.3) ? 1 : g.range(1, g.chance(0.1) ? 25 : 7), ny = g.chance(0.3) ? 1 : g.range(1, g.chance(0.1) ? 25 : 7);
    if (g.chance(0.03)) { (g.chance(0.5) ? nx : ny) = g.range(61, 200); if (nx > 60) ny = g.range(1, 3); else nx = g.range(1, 3); }
    double a = g.logu(1e-2, 1e3), b = a * g.logu(0.1, 10);
    c.describe("SquareMesh quadratic ", a, " ", b, " ", nx, " ", ny);
    SquareMesh<double> q(a, b, nx, ny);
    Mesh m; m.name = "SquareMesh quadratic"; m.x = q.GenerateNodes2(); m.el = q.GenerateElements2(); m.ed = q.GenerateEdges2(); m.area = (ld)a * b; m.euler = 1; m.size = std::max(a, b); m.inner = false;
    for (int i = 0; i <= 2 * nx; i++) for (int j = 0; j <= 2 * ny; j++) if (!(i % 2 && j % 2)) m.want.push_back({a * i / (2 * nx), b * j / (2 * ny)});
    if (!sameset(c, "nodes", m.x, m.want, m.size, m.name)) return;
    tiling(c, m, 4);
    auto mid = [&](int p, int q2, int r) { return std::fabs(0.5 * (m.x[p](0) + m.x[q2](0)) - m.x[r](0)) < 1e-9 * m.size && std::fabs(0.5 * (m.x[p](1) + m.x[q2](1)) - m.x[r](1)) < 1e-9 * m.size; };
    bool e8 = true, mm = true, l3 = true, lm = true, shared = true;
    int N = m.x.size();
    std::map<std::pair<int, int>, int> byedge;
    for (auto& e : m.el) { if (e.size() != 8) { e8 = false; break; } for (int k = 0; k < 4; k++) { if (!mid(e[k], e[(k + 1) % 4], e[4 + k])) mm = false; auto key = std::minmax(e[k], e[(k + 1) % 4]); auto it = byedge.insert({key, e[4 + k]}); if (it.first->second != e[4 + k]) shared = false; } }
    c.expect("eight-nodes", e8, m.name + ": an element does not have eight nodes");
    c.expect("midside", mm, m.name + ": a midside node is not on the middle of its edge");
    c.expect("midside-shared", shared, m.name + ": two elements give one edge different midside nodes");
    for (auto& e : m.ed) { if (e.size() != 3 || e[2] < 0 || e[2] >= N) { l3 = false; break; } auto it = byedge.find(std::minmax(e[0], e[1])); if (it == byedge.end() || it->second != e[2]) lm = false; }
    c.expect("boundary-midside", l3 && lm, m.name + ": a boundary edge does not carry the midside node of its element");
    // linear and quadratic views of one mesh fit together
    auto x1 = q.GenerateNodes(); auto e1 = q.GenerateElements(), d1 = q.GenerateEdges();
    bool fit = x1.size() <= m.x.size() && e1.size() == m.el.size() && d1.size() == m.ed.size();
    for (size_t i = 0; fit && i < x1.size(); i++) if (std::fabs(x1[i](0) - m.x[i](0)) > 1e-12 * m.size || std::fabs(x1[i](1) - m.x[i](1)) > 1e-12 * m.size) fit = false;
    for (size_t i = 0; fit && i < e1.size(); i++) for (int k = 0; k < 4; k++) if (e1[i][k] != m.el[i][k]) fit = false;
    for (size_t i = 0; fit && i < d1.size(); i++) for (int k = 0; k < 2; k++) if (d1[i][k] != m.ed[i][k]) fit = false;
    c.expect("linear-quadratic-fit", fit, m.name + ": corner part of the quadratic mesh differs from the linear mesh");
}
static void ground(Case& c) {
    Rng& g = c.rng; int nx = g.range(1, 6), ny = g.range(1, 6);
    if (g.chance(0.01)) { (g.chance(0.5) ? nx : ny) = g.range(61, 80); if (nx > 60) ny = 1; else nx = 1; }
    double a = g.logu(1e-2, 1e3), b = a * g.logu(0.2, 5), l, diag = std::hypot(a, b);
    // a length limit that no pair of grid points meets within rounding
    for (;;) { l = g.chance(0.15) ? diag * 2 : g.chance(0.1) ? 1e-3 * std::min(a / nx, b / ny) : g.uni(0, 1.1) * diag; bool ok = true; for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) if (std::fabs(std::hypot(a * i / nx, b * j / ny) - l) < 1e-8 * diag) ok = false; if (ok) break; }
    c.describe("GrandStructure2D ", a, " ", b, " ", nx, " ", ny, " lmax ", l);
    GrandStructure2D<double> q(a, b, nx, ny, l);
    auto x = q.GenerateNodes(); auto e = q.GenerateElements();
    std::vector<XY> want; tensor(want, even(a, nx), even(b, ny));
    if (!sameset(c, "nodes", x, want, std::max(a, b), "GrandStructure2D")) return;
    std::map<std::pair<int, int>, int> got; bool valid = true;
    for (auto& p : e) { if (p.size() != 2 || p[0] == p[1] || std::min(p[0], p[1]) < 0 || std::max(p[0], p[1]) >= (int)x.size()) { valid = false; break; } got[std::minmax(p[0], p[1])]++; }
    if (!c.expect("bar-nodes", valid, "a bar does not join two different existing nodes")) return;
    int miss = 0, extra = 0, twice = 0;
    for (int i = 0; i < (int)x.size(); i++) for (int j = i + 1; j < (int)x.size(); j++) { bool need = std::hypot(x[i](0) - x[j](0), x[i](1) - x[j](1)) < l; auto it = got.find({i, j}); if (need && it == got.end()) miss++; if (!need && it != got.end()) extra++; if (it != got.end() && it->second > 1) twice++; }
    c.expect("bar-set", !miss && !extra && !twice, cat("ground structure misses ", miss, " bars, has ", extra, " too long and ", twice, " repeated, of ", e.size()));
    c.count("bars", e.size());
}
// signed function, positive where selected
static std::function<double(double, double)> field(Case& c, const std::vector<DV>& x0, double size) {
    Rng& g = c.rng; std::vector<DV> x = x0;
    for (int attempt = 0; attempt < 200; attempt++) {
        std::function<double(double, double)> f; std::string what;
        DV p = x[g.range(0, (int)x.size() - 1)]; double px = p(0), py = p(1);
        switch (g.range(0, 8)) {
        case 0: f = [](double, double) { return 1.0; }; what = "all"; break;
        case 1: f = [](double, double) { return -1.0; }; what = "none"; break;
        case 2: { double t = g.uni(0, 2 * M_PI), o = g.uni(-1, 1) * 0.5; f = [=](double u, double v) { return (u - px) / size * cos(t) + (v - py) / size * sin(t) - o * 0.2; }; what = "half-plane"; break; }
        case 3: { double r = g.uni(0, 0.6); f = [=](double u, double v) { return r - std::hypot(u - px, v - py) / size; }; what = "disc"; break; }
        case 4: f = [=](double u, double v) { return 1e-5 - std::fabs(u - px) / size; }; what = cat("x=", px); break;
        case 5: f = [=](double u, double v) { return 1e-5 - std::fabs(v - py) / size; }; what = cat("y=", py); break;
        case 6: f = [=](double u, double v) { return 1e-5 - std::max(std::fabs(u - px), std::fabs(v - py)) / size; }; what = "point"; break;
        case 7: { double w = g.uni(0.05, 0.4); f = [=](double u, double v) { return w - std::max(std::fabs(u - px), std::fabs(v - py)) / size; }; what = "box"; break; }
        default: { double r = std::hypot(px, py); f = [=](double u, double v) { return 1e-5 - std::fabs(std::hypot(u, v) - r) / size; }; what = "radius"; break; }
        }
        bool ok = true;
        for (auto& q : x) if (std::fabs(f(q(0), q(1))) < 1e-9) { ok = false; break; }
        if (ok) { c.describe(what); return f; }
    }
    return [](double, double) { return 1.0; };
}
static std::vector<int> dofs(Case& c) {
    std::vector<int> u, all = {0, 1, 2, 3, 5}; c.rng.shuffle(all);
    int k = c.rng.range(1, 3); u.assign(all.begin(), all.begin() + k);
    return u;
}
static void checkFix(Case& c, const std::string& who, const Fix& got, std::vector<DV> x, const std::vector<int>& u, std::function<double(double, double)> f) {
    std::map<std::pair<int, int>, int> a; int sel = 0, miss = 0, extra = 0, twice = 0, val = 0;
    for (auto& p : got) { a[p.first]++; if (p.second != 0) val++; }
    for (size_t i = 0; i < x.size(); i++) if (f(x[i](0), x[i](1)) > 0) { sel++; for (int k : u) { auto it = a.find({(int)i, k}); if (it == a.end()) miss++; else { if (it->second > 1) twice++; a.erase(it); } } }
    extra = a.size();
    c.count("selected", sel);
    c.expect("fixed-list", !miss && !extra && !twice && !val, cat(who, ": constraint list misses ", miss, " entries, has ", extra, " that were not asked for, ", twice, " repeated, ", val, " with a value other than zero; ", sel, " nodes satisfy the criterion"));
}
static void p28(Case& c) {
    Mesh m = make(c, c.idx % 6);
    auto f = field(c, m.x, m.size); auto u = dofs(c);
    Pred p = [f](DV v) { return f(v(0), v(1)) > 0; };
    checkFix(c, m.name, m.fixed(u, p), m.x, u, f);
    if (m.elsel) {
        auto pick = [&](const IM& e, const std::vector<int>& got, const char* mon) {
            std::multiset<int> a(got.begin(), got.end()), b;
            for (size_t i = 0; i < e.size(); i++) { bool all = true; for (int v : e[i]) if (!p(m.x[v])) all = false; if (all) b.insert(i); }
            c.expect(mon, a == b, cat(m.name, ": ", a.size(), " selected, ", b.size(), " have all their nodes inside"));
        };
        pick(m.el, m.elsel(p), "elements-selected"); pick(m.ed, m.edsel(p), "edges-selected");
    }
}
static void p28more(Case& c) {
    Rng& g = c.rng; int nx = g.range(1, 7), ny = g.range(1, 7); if (g.chance(0.03)) { (g.chance(0.5) ? nx : ny) = g.range(61, 120); if (nx > 60) ny = g.range(1, 2); else nx = g.range(1, 2); } double a = g.logu(1e-2, 1e3), b = a * g.logu(0.2, 5), size = std::max(a, b);
    c.describe(a, " ", b, " ", nx, " ", ny);
    if (c.idx % 2) { SquareMesh<double> q(a, b, nx, ny); auto x = q.GenerateNodes2(); auto f = field(c, x, size); auto u = dofs(c); checkFix(c, "SquareMesh quadratic", q.GenerateFixedlist2(u, [f](DV v) { return f(v(0), v(1)) > 0; }), x, u, f); }
    else { GrandStructure2D<double> q(a, b, nx, ny, a); auto x = q.GenerateNodes(); auto f = field(c, x, size); auto u = dofs(c); checkFix(c, "GrandStructure2D", q.GenerateFixedlist(u, [f](DV v) { return f(v(0), v(1)) > 0; }), x, u, f); }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_mesh");
    component("P27.structured", 6000, 300000, p27);
    component("P27.quadratic", 1500, 60000, quadratic);
    component("P27.ground", 1000, 50000, ground);
    component("P28.selection", 6000, 300000, p28);
    component("P28.more", 2000, 100000, p28more);
    return finish();
}
