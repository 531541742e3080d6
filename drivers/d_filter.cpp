// P25 filters of topology optimisation
#include <cmath>
#include <cassert>
#include "vh.hpp"
#include "src/Optimize/Filter/DensityFilter.h"
#include "src/Optimize/Filter/HeavisideFilter.h"
#include "src/Optimize/Filter/SensitivityFilter.h"
using namespace vh;
using namespace PANSFEM2;
typedef std::vector<double> V;
struct Graph { int n; std::vector<std::vector<int>> nb; std::vector<V> w; bool uniform; std::string name; };
static Graph graph(Case& c) {
    Rng& g = c.rng; Graph q; q.uniform = false; int kind = c.idx % 5; bool wide = g.chance(0.01);      // more than sixty neighbours
    if (wide) c.count("wide");
    switch (kind) {
    case 0: { q.name = "grid, linear weights"; int nx = g.range(1, 8), ny = g.range(1, 8); double R = g.uni(0.5, 3.2); if (wide) nx = g.range(10, 14), ny = g.range(8, 12), R = g.uni(5, 9); q.n = nx * ny; q.nb.resize(q.n); q.w.resize(q.n);
        for (int i = 0; i < q.n; i++) for (int j = 0; j < q.n; j++) { double d = std::hypot(i % nx - j % nx, i / nx - j / nx); if (d < R) { q.nb[i].push_back(j); q.w[i].push_back((R - d) / R); } } break; }
    case 1: { q.name = "periodic ring"; q.n = wide ? g.range(70, 160) : g.range(1, 12); q.nb.resize(q.n); q.w.resize(q.n); q.uniform = true; int k = std::min(wide ? g.range(31, 40) : g.range(0, 3), (q.n - 1) / 2); V ww; for (int d = 0; d <= k; d++) ww.push_back(g.uni(0.1, 2));
        for (int i = 0; i < q.n; i++) for (int d = -k; d <= k; d++) { q.nb[i].push_back((i + d + q.n) % q.n); q.w[i].push_back(ww[std::abs(d)]); } break; }
    case 2: { q.name = "no neighbours but itself"; q.n = g.range(1, 8); q.uniform = true; double w = g.logu(1e-3, 1e3); for (int i = 0; i < q.n; i++) { q.nb.push_back({i}); q.w.push_back({w}); } break; }
    case 3: { q.name = "random directed graph, unsymmetric weights"; q.n = wide ? g.range(140, 200) : g.range(1, 15); q.nb.resize(q.n); q.w.resize(q.n); for (int i = 0; i < q.n; i++) { std::vector<int> a; for (int j = 0; j < q.n; j++) if (j == i ? g.chance(0.8) : g.chance(0.4)) a.push_back(j); if (a.empty()) a.push_back(g.range(0, q.n - 1)); g.shuffle(a); for (int j : a) { q.nb[i].push_back(j); q.w[i].push_back(g.logu(1e-2, 10)); } } break; }
    default: { q.name = "random graph, symmetric weights"; q.n = wide ? g.range(140, 200) : g.range(2, 15); q.nb.resize(q.n); q.w.resize(q.n); for (int i = 0; i < q.n; i++) for (int j = i; j < q.n; j++) if (i == j || g.chance(0.4)) { double w = g.uni(0.05, 2); q.nb[i].push_back(j); q.w[i].push_back(w); if (i != j) { q.nb[j].push_back(i); q.w[j].push_back(w); } } break; }
    }
    c.describe(q.name, " n=", q.n); c.count(q.name);
    for (auto& w : q.w) c.inputs(w); for (auto& l : q.nb) c.inputs(l);
    return q;
}
static V design(Case& c, int n) {
    Rng& g = c.rng; V s(n); int k = g.range(0, 4); double v = g.u01();
    for (auto& x : s) x = k == 0 ? v : k == 1 ? (g.chance(0.5) ? 0.0 : 1.0) : k == 2 ? g.logu(1e-3, 1) : g.u01();
    if (g.chance(0.05)) s.assign(n, 0.0); else if (g.chance(0.05)) s.assign(n, 1.0);
    c.inputs(s); return s;
}
static V sens(Case& c, int n) { V d(n); for (auto& x : d) x = c.rng.chance(0.1) ? 0 : c.rng.sgn() * c.rng.logu(1e-3, 1e3); c.inputs(d); return d; }
static std::vector<ld> avg(const Graph& q, const V& s, std::vector<ld>* sum = nullptr) {
    std::vector<ld> r(q.n); if (sum) sum->resize(q.n);
    for (int i = 0; i < q.n; i++) { ld a = 0, b = 0; for (size_t j = 0; j < q.nb[i].size(); j++) { a += (ld)q.w[i][j] * s[q.nb[i][j]]; b += q.w[i][j]; } r[i] = a / b; if (sum) (*sum)[i] = b; }
    return r;
}
static std::vector<ld> pull(const Graph& q, const std::vector<ld>& h, bool rownorm, std::vector<ld>* mag = nullptr) {   // transpose of the averaging
    std::vector<ld> sum; avg(q, V(q.n, 0), &sum); std::vector<ld> r(q.n, 0), m(q.n, 0);
    if (!rownorm) for (int i = 0; i < q.n; i++) for (size_t j = 0; j < q.nb[i].size(); j++) { r[q.nb[i][j]] += h[i] * q.w[i][j] / sum[i]; m[q.nb[i][j]] += fabsl(h[i] * q.w[i][j] / sum[i]); }
    else for (int i = 0; i < q.n; i++) for (size_t j = 0; j < q.nb[i].size(); j++) { r[i] += h[q.nb[i][j]] * q.w[i][j] / sum[i]; m[i] += fabsl(h[q.nb[i][j]] * q.w[i][j] / sum[i]); }
    if (mag) *mag = m; return r;
}
static bool same(const V& a, const std::vector<ld>& b, const std::vector<ld>& mag) { if (a.size() != b.size()) return false; for (size_t i = 0; i < b.size(); i++) if (!(fabsl(a[i] - b[i]) <= 1e-11L * (mag[i] + fabsl(b[i])) + 1e-250L)) return false; return true; }
static void cmp(Case& c, const char* mon, const V& got, const std::vector<ld>& want, const std::vector<ld>& mag, const std::string& what, const std::string& sig = "") {
    if (!c.expect(mon, got.size() == want.size(), what + ": wrong length")) return;
    for (size_t i = 0; i < want.size(); i++) if (!c.near(mon, got[i], want[i], 1e-11L * (mag[i] + fabsl(want[i])) + 1e-250L, cat(what, " component ", i), sig)) return;
}
static void density(Case& c) {
    Graph q = graph(c); DensityFilter<double> f(q.n, q.nb, q.w);
    for (int rep = 0; rep < 3; rep++) {
        V s = design(c, q.n), s0 = s, d = sens(c, q.n), d0 = d;
        auto r = avg(q, s); std::vector<ld> one(q.n, 1), mag;
        cmp(c, "average", f.GetFilteredVariables(s), r, one, "filtered variable");
        std::vector<ld> h(d.begin(), d.end()); auto want = pull(q, h, false, &mag);
        cmp(c, "gradient", f.GetFilteredSensitivitis(s, d), want, mag, "filtered sensitivity");
        c.expect("operands", s == s0 && d == d0, "the filter changed its arguments");
    }
}
static void heaviside(Case& c) {
    Graph q = graph(c); HeavisideFilter<double> f(q.n, q.nb, q.w); double beta = 1; Rng& g = c.rng;
    for (int rep = 0; rep < 4; rep++) {
        if (rep) { if (g.chance(0.8)) { beta = g.chance(0.3) ? beta * 2 : g.logu(0.1, 60); f.UpdateBeta(beta); } }
        c.input(beta);
        V s = design(c, q.n), s0 = s, d = sens(c, q.n), d0 = d;
        auto r = avg(q, s); std::vector<ld> one(q.n, 1), rho(q.n), dr(q.n), mag;
        for (int i = 0; i < q.n; i++) { ld b = beta, t = tanhl(b * (r[i] - 0.5L)), ch = coshl(b * (r[i] - 0.5L)); rho[i] = 0.5L * (tanhl(0.5L * b) + t) / tanhl(0.5L * b); dr[i] = 0.5L * b / (ch * ch) / tanhl(0.5L * b); }
        V got = f.GetFilteredVariables(s);
        cmp(c, "projection", got, rho, one, cat("projected variable, beta ", beta));
        for (size_t i = 0; i < got.size(); i++) c.expect("range", got[i] >= -1e-12 && got[i] <= 1 + 1e-12, cat("projected variable ", got[i], " outside [0,1]"));
        // monotone: raising one design variable lowers no filtered variable
        if (q.n) { V t = s; int k = g.range(0, q.n - 1); t[k] = std::min(1.0, t[k] + g.uni(0.01, 0.5)); V up = f.GetFilteredVariables(t); for (int i = 0; i < q.n; i++) if (!c.expect("monotone", up[i] >= got[i] - 1e-13, "raising a design variable lowered a projected one")) break; }
        // derivative; 1 - tanh^2 is computed with cancellation, hence the absolute part
        std::vector<ld> h(q.n), hm(q.n); for (int i = 0; i < q.n; i++) { h[i] = d[i] * dr[i]; hm[i] = fabsl(d[i]) * (dr[i] + 1e-3L * beta); }
        auto want = pull(q, h, false), row = pull(q, h, true); std::vector<ld> m2; pull(q, hm, false, &mag); pull(q, hm, true, &m2);
        V sg = f.GetFilteredSensitivitis(s, d);
        bool isrow = !same(sg, want, mag) && same(sg, row, m2);
        cmp(c, "gradient", sg, want, mag, cat("projected sensitivity, beta ", beta), isrow ? "row-normalised" : "");
        c.expect("operands", s == s0 && d == d0, "the filter changed its arguments");
    }
}
static void sensitivity(Case& c) {
    Graph q = graph(c); SensitivityFilter<double> f(q.n, q.nb, q.w); SensitivityFilter2<double> f2(q.n, q.nb, q.w);
    V s(q.n); for (auto& x : s) x = c.rng.chance(0.2) ? 1e-3 : c.rng.uni(1e-3, 1); c.inputs(s); V d = sens(c, q.n), s0 = s, d0 = d;
    std::vector<ld> a(q.n), b(q.n), ma(q.n), mb(q.n);
    for (int i = 0; i < q.n; i++) { ld num = 0, w = 0, ws = 0, mg = 0; for (size_t j = 0; j < q.nb[i].size(); j++) { int k = q.nb[i][j]; ld t = (ld)q.w[i][j] * s[k]; num += t * d[k]; mg += fabsl(t * d[k]); w += q.w[i][j]; ws += t; } a[i] = num / (w * s[i]); b[i] = num / ws; ma[i] = mg / (w * s[i]); mb[i] = mg / ws; }
    V g1 = f.GetFilteredSensitivitis(s, d), g2 = f2.GetFilteredSensitivitis(s, d);
    cmp(c, "sigmund", g1, a, ma, "sensitivity filter"); cmp(c, "borrvall", g2, b, mb, "density-weighted sensitivity filter");
    c.expect("operands", s == s0 && d == d0, "the filter changed its arguments");
    // both filters leave constant sensitivities of constant designs alone
    V cs(q.n, c.rng.uni(0.1, 1)), cd(q.n, c.rng.uni(-3, 3)); V h1 = f.GetFilteredSensitivitis(cs, cd), h2 = f2.GetFilteredSensitivitis(cs, cd);
    for (int i = 0; i < q.n; i++) { c.near("constant", h1[i], cd[i], 1e-12L * 3, "sensitivity filter"); c.near("constant", h2[i], cd[i], 1e-12L * 3, "density-weighted sensitivity filter"); }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_filter");
    component("P25.density", 8000, 800000, density);
    component("P25.heaviside", 8000, 800000, heaviside);
    component("P25.sensitivity", 8000, 800000, sensitivity);
    return finish();
}
