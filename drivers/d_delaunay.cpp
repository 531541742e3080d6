// P29 unstructured triangulation, P28 (constraint lists on it)
#include <cassert>
#include <cmath>
#include "vh.hpp"
#include "src/PrePost/Mesher/Delaunay.h"
using namespace vh;
using namespace PANSFEM2;
typedef Vector<double> DV;
typedef std::vector<std::vector<int>> IM;
struct Region { std::vector<DV> P; IM out, in; double h = 1, size = 1; std::string name; };
static double cross(DV a, DV b, DV c) { return (b(0) - a(0)) * (c(1) - a(1)) - (b(1) - a(1)) * (c(0) - a(0)); }
// closed polyline through the points, given counterclockwise for an outline; the mesher takes outlines clockwise and holes counterclockwise
static void outline(Region& r, const std::vector<DV>& p) { std::vector<int> l; for (size_t i = 0; i < p.size(); i++) { l.insert(l.begin(), r.P.size()); r.P.push_back(p[i]); } r.out.push_back(l); }
static void hole(Region& r, const std::vector<DV>& p) { std::vector<int> l; for (size_t i = 0; i < p.size(); i++) { l.push_back(r.P.size()); r.P.push_back(p[i]); } r.in.push_back(l); }
static std::vector<DV> poly(Rng& g, int n, double cx, double cy, double r0, double r1, double jit) {
    std::vector<DV> p; double ph = g.uni(0, 2 * M_PI);
    for (int i = 0; i < n; i++) { double t = ph + 2 * M_PI * (i + g.uni(-jit, jit)) / n, r = r0 == r1 ? r0 : g.uni(r0, r1); p.push_back({cx + r * cos(t), cy + r * sin(t)}); }
    return p;
}
static std::vector<DV> star(Rng& g, int n, double cx, double cy, double s) {
    std::vector<DV> p; double ph = g.uni(0, 2 * M_PI);
    for (int i = 0; i < n; i++) { double t = ph + 2 * M_PI * (i + g.uni(-0.2, 0.2)) / n, r = s * (i % 2 ? g.uni(0.25, 0.6) : g.uni(0.8, 1)); p.push_back({cx + r * cos(t), cy + r * sin(t)}); }
    return p;
}
static double segdist(DV a, DV b, DV p) { double dx = b(0) - a(0), dy = b(1) - a(1), t = ((p(0) - a(0)) * dx + (p(1) - a(1)) * dy) / (dx * dx + dy * dy); t = std::min(1.0, std::max(0.0, t)); return std::hypot(a(0) + t * dx - p(0), a(1) + t * dy - p(1)); }
// counterclockwise simple polygon through random points: crossing sides are untangled, corners keep a distance from the other sides
static std::vector<DV> simple(Rng& g, int n) {
    for (;;) {
        std::vector<DV> p; for (int i = 0; i < n; i++) p.push_back({g.uni(-1, 1), g.uni(-1, 1)});
        auto X = [&](int i, int j) { DV &a = p[i], &b = p[(i + 1) % n], &u = p[j], &v = p[(j + 1) % n]; return cross(a, b, u) * cross(a, b, v) < 0 && cross(u, v, a) * cross(u, v, b) < 0; };
        bool again = true; for (int it = 0; again && it < 500; it++) { again = false; for (int i = 0; i < n; i++) for (int j = i + 2; j < n; j++) if (!(i == 0 && j == n - 1) && X(i, j)) { std::reverse(p.begin() + i + 1, p.begin() + j + 1); again = true; } }
        if (again) continue;
        double d = 1e300, ar = 0; for (int i = 0; i < n; i++) { ar += 0.5 * (p[i](0) * p[(i + 1) % n](1) - p[i](1) * p[(i + 1) % n](0)); for (int j = 0; j < n; j++) if (j != i && (j + 1) % n != i) d = std::min(d, segdist(p[j], p[(j + 1) % n], p[i])); }
        if (d < 0.02 || std::fabs(ar) < 0.3) continue;
        if (ar < 0) std::reverse(p.begin(), p.end());
        return p;
    }
}
static std::vector<DV> rect(double x, double y, double w, double h) { return {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}}; }
static Region make(Case& c, int kind) {
    Rng& g = c.rng; Region r;
    double ox = g.chance(0.4) ? 0 : g.uni(-2, 2), oy = g.chance(0.4) ? 0 : g.uni(-2, 2);
    r.h = g.chance(0.15) ? 50 : g.chance(0.15) ? g.uni(0.08, 0.2) : g.uni(0.2, 1.2);
    switch (kind) {
    case 0: r.name = "rectangle"; outline(r, rect(ox, oy, g.uni(0.3, 3), g.uni(0.3, 3))); break;
    case 1: r.name = "regular polygon"; outline(r, poly(g, g.range(4, 12), ox, oy, 1, 1, 0)); break;
    case 2: r.name = "convex polygon"; outline(r, poly(g, g.range(4, 12), ox, oy, 1, 1, 0.3)); break;
    case 3: r.name = "star-shaped polygon"; outline(r, poly(g, g.range(4, 24), ox, oy, 0.4, 1, 0.3)); break;
    case 4: { r.name = "L shape"; double a = g.uni(0.5, 3), b = g.uni(0.5, 3), e = g.uni(0.5, 3), d = g.uni(0.5, 3); outline(r, {{0, b}, {a, b}, {a, 0}, {a + e, 0}, {a + e, b + d}, {0, b + d}}); break; }
    case 5: { r.name = "rectangle with points on its sides"; double w = g.uni(0.5, 2), h = g.uni(0.5, 2); int n = g.range(1, 4); auto q = rect(0, 0, w, h); std::vector<DV> p; for (int s = 0; s < 4; s++) for (int i = 0; i < n; i++) p.push_back(q[s] + (q[(s + 1) % 4] - q[s]) * (double(i) / n)); outline(r, p); break; }
    case 6: { r.name = "polygon with a hole"; outline(r, poly(g, g.range(7, 12), ox, oy, 1, 1, 0.2)); hole(r, poly(g, g.range(4, 8), ox + g.uni(-0.1, 0.1), oy + g.uni(-0.1, 0.1), 0.25, 0.4, 0.2)); break; }
    case 7: { r.name = "square with two holes"; outline(r, rect(-1, -1, 2, 2)); hole(r, poly(g, g.range(4, 7), -0.5, g.uni(-0.3, 0.3), 0.15, 0.3, 0.2)); hole(r, poly(g, g.range(4, 7), 0.5, g.uni(-0.3, 0.3), 0.15, 0.3, 0.2)); break; }
    case 8: { r.name = "comb"; int n = g.range(2, 3); std::vector<DV> p = {{0, 0}}; for (int i = 0; i < n; i++) { double y = 1 + g.uni(0, 0.5); p.push_back({i + 0., y}); p.push_back({i + .4, y}); p.push_back({i + .4, .3}); p.push_back({i + 1., .3}); } p.push_back({n + 0., 0}); std::vector<DV> q(p.rbegin(), p.rend()); outline(r, q); break; }
    case 9: { r.name = "triangle"; outline(r, poly(g, 3, ox, oy, g.chance(0.5) ? 1 : 0.3, 1, 0.3)); break; }
    case 10: { r.name = "star"; outline(r, star(g, 2 * g.range(3, 6), ox, oy, 1)); break; }
    case 11: { r.name = "square with three or four holes"; outline(r, rect(0, 0, 3, 3)); int skip = g.range(0, 4); for (int k = 0; k < 4; k++) if (k != skip) hole(r, rect(k & 1 ? 1.7 : 0.5, k & 2 ? 1.7 : 0.5, g.uni(0.2, 0.8), g.uni(0.2, 0.8))); break; }
    case 12: { r.name = "square with star holes"; outline(r, rect(-1, -1, 3, 3)); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (g.chance(0.7)) hole(r, star(g, 2 * g.range(2, 5), -0.3 + 1.5 * i, -0.3 + 1.5 * j, 0.6)); break; }
    case 13: { r.name = "separate outlines"; int n = g.range(2, 3); for (int i = 0; i < n; i++) { outline(r, g.chance(0.5) ? rect(1.5 * i, g.uni(-0.5, 0.5), 1, g.uni(0.5, 1.5)) : poly(g, g.range(3, 9), 1.5 * i + 0.5, 0.5, 0.3, 0.5, 0.2)); } r.h = std::max(r.h, 0.3); break; }
    case 14: { r.name = "rectilinear polygon on a lattice"; int n = g.range(2, 6); std::vector<DV> p = {{0, 0}, {n + 0., 0}}, q; for (int i = n - 1; i >= 0; i--) { double y = g.range(1, 4); p.push_back({i + 1., y}); p.push_back({i + 0., y}); } for (auto& v : p) { DV w = q.empty() ? DV({1e9, 1e9}) : q.back(), u = v; if (std::hypot(w(0) - u(0), w(1) - u(1)) > 0) q.push_back(v); } outline(r, q); r.h = std::max(r.h, 0.6); break; }
    case 15: { r.name = "ring with many boundary points"; outline(r, poly(g, g.range(20, 50), ox, oy, 1, 1, 0)); hole(r, poly(g, g.range(10, 24), ox, oy, 0.4, 0.4, 0)); break; }
    case 16: { r.name = "lattice of square holes"; int n = g.range(2, 3); outline(r, rect(0, 0, n, n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (g.chance(0.5)) hole(r, rect(i + 0.25, j + 0.25, 0.5, 0.5)); r.h = std::max(r.h, 0.4); break; }
    case 17: { r.name = "symmetric star"; int k = g.range(3, 7); std::vector<DV> p; int s = g.range(0, 2 * k - 1); double rr = g.pick(std::vector<double>{0.3, 0.5, 0.55, 0.7}); for (int i = 0; i < 2 * k; i++) { double t = M_PI * (i + s) / k; double rad = (i + s) % 2 ? rr : 1; p.push_back({rad * cos(t), rad * sin(t)}); } outline(r, p); break; }
    case 18: { r.name = "simple polygon"; outline(r, simple(g, g.range(4, 16))); break; }
    case 19: { r.name = "spiral band"; int n = g.range(6, 20); double tw = g.uni(1, 9), w = g.uni(0.08, 0.2); std::vector<DV> p; for (int s = 0; s < 2; s++) for (int k = 0; k <= n; k++) { int i = s ? n - k : k; double t = tw * i / n, rad = 0.4 + 0.08 * t + (s ? -w / 2 : w / 2); p.push_back({rad * cos(t), rad * sin(t)}); } outline(r, p); break; }
    case 21: { r.name = "long wall between small holes"; double L2 = g.uni(2, 4), w = g.logu(0.005, 0.1); int n = g.range(3, 6), first = g.range(0, 2); outline(r, rect(-0.5, -1, L2 + 1, 2)); if (first == 0) hole(r, rect(0, -w, L2, 2 * w));
        for (int s = -1; s <= 1; s += 2) for (int i = 0; i < n; i++) { double x = L2 * (i + g.uni(0.2, 0.8)) / n, y = s * (w + g.logu(0.02, 0.4)), e = 0.25 * L2 / n * 0.6; std::vector<DV> t = {{x, y}, {x + e, y + s * g.uni(0.1, 0.3)}, {x - e, y + s * g.uni(0.1, 0.3)}}; if (s < 0) std::reverse(t.begin(), t.end()); hole(r, t); }
        if (first) hole(r, rect(0, -w, L2, 2 * w)); r.h = std::max(r.h, 0.6); break; }
    default: r.name = "thin rectangle"; r.h = g.uni(0.1, 0.6); outline(r, rect(ox, oy, 1, g.uni(0.02, 0.1))); break;
    }
    double ar = 0; for (auto& l : r.out) for (size_t i = 0; i < l.size(); i++) { DV p = r.P[l[i]], q = r.P[l[(i + 1) % l.size()]]; ar += 0.5 * (p(0) * q(1) - p(1) * q(0)); }
    r.h = std::max(r.h, std::sqrt(std::fabs(ar) / 350));                         // refinement costs the cube of the number of triangles
    r.size = 4;
    if (g.chance(0.15)) {                                                        // a limit that one of the sides, halved some times, misses or meets by a hair
        auto& l = r.out[g.range(0, (int)r.out.size() - 1)]; int i = g.range(0, (int)l.size() - 1); DV e = r.P[l[(i + 1) % l.size()]] - r.P[l[i]]; double t = e.Norm();
        while (t > 2 * r.h) t *= 0.5;
        if (t >= r.h) { r.h = t * (1 + g.sgn() * g.logu(1e-9, 1e-2)); c.count("limit close to a side"); }
    }
    if (g.chance(0.4)) { double s = g.chance(0.3) ? g.logu(1e-5, 1e5) : g.logu(1e-2, 1e2); for (auto& p : r.P) p = p * s; r.h *= s; r.size *= s; }
    for (int k = g.chance(0.15) ? g.range(1, 3) : 0; k > 0; k--) {               // a point that belongs to no boundary is not meshed, wherever it stands in the list
        int at = g.chance(0.3) ? (int)r.P.size() : g.range(0, (int)r.P.size()); r.P.insert(r.P.begin() + at, DV({(0.1 + 0.01 * k) * r.size, 0.05 * r.size})); c.count("unused point");
        for (auto* b : {&r.out, &r.in}) for (auto& l : *b) for (int& i : l) if (i >= at) i++;
    }
    if (g.chance(0.3)) for (auto* b : {&r.out, &r.in}) for (auto& l : *b) std::rotate(l.begin(), l.begin() + g.range(0, (int)l.size() - 1), l.end());
    c.describe(r.name, " h=", r.h, " points"); for (auto& p : r.P) c.describe(p(0), " ", p(1));
    c.count(r.name);
    return r;
}
struct Out { std::vector<DV> x; IM el, ed; };
static bool inside(const Region& r, double px, double py) {
    bool in = false;
    for (auto* b : {&r.out, &r.in}) for (auto& l : *b) for (size_t i = 0; i < l.size(); i++) { DV p = r.P[l[i]], q = r.P[l[(i + 1) % l.size()]]; if ((p(1) > py) != (q(1) > py) && px < p(0) + (py - p(1)) / (q(1) - p(1)) * (q(0) - p(0))) in = !in; }
    return in;
}
static double bdist(const Region& r, double px, double py) {
    double d = 1e300;
    for (auto* b : {&r.out, &r.in}) for (auto& l : *b) for (size_t i = 0; i < l.size(); i++) { DV p = r.P[l[i]], q = r.P[l[(i + 1) % l.size()]]; double dx = q(0) - p(0), dy = q(1) - p(1), t = ((px - p(0)) * dx + (py - p(1)) * dy) / (dx * dx + dy * dy); t = std::min(1.0, std::max(0.0, t)); d = std::min(d, std::hypot(p(0) + t * dx - px, p(1) + t * dy - py)); }
    return d;
}
// empty string when the triangulation is a valid mesh of the region; calls report(monitor, ok, detail) for each aspect
template <class R> static void judge(const Region& r, Out o, Rng& g, R report) {
    auto& x = o.x; int N = x.size();
    bool ok = true;
    for (auto& p : x) if (p.SIZE() != 2 || !std::isfinite(p(0)) || !std::isfinite(p(1))) ok = false;
    for (auto& e : o.el) { if (e.size() != 3) { ok = false; break; } for (int i : e) if (i < 0 || i >= N) ok = false; }
    report("element-nodes", ok && !o.el.empty(), "elements are missing or list non-existent nodes"); if (!ok || o.el.empty()) return;
    std::vector<int> used(r.P.size(), 0); for (auto* b : {&r.out, &r.in}) for (auto& l : *b) for (int i : l) used[i] = 1;
    int k = 0; double off = 0; for (size_t i = 0; i < r.P.size(); i++) if (used[i]) { if (k < N) { DV p = r.P[i]; off = std::max(off, std::hypot(p(0) - x[k](0), p(1) - x[k](1))); } else off = 1e300; k++; }
    report("given-points", off <= 1e-12 * r.size, cat("the given points are not the first nodes of the mesh (moved by ", off, ")"));
    ld area = 0, want = 0; int neg = 0;
    for (auto* b : {&r.out, &r.in}) for (auto& l : *b) { ld a = 0; for (size_t i = 0; i < l.size(); i++) { DV p = r.P[l[i]], q = r.P[l[(i + 1) % l.size()]]; a += 0.5L * ((ld)p(0) * q(1) - (ld)p(1) * q(0)); } want += b == &r.out ? fabsl(a) : -fabsl(a); }
    std::map<std::pair<int, int>, int> dir; std::set<std::pair<int, int>> und; std::set<int> verts; double mx = 0;
    for (auto& t : o.el) { ld s = 0.5L * cross(x[t[0]], x[t[1]], x[t[2]]); if (!(s > 0)) neg++; area += s; for (int k = 0; k < 3; k++) { int p = t[k], q = t[(k + 1) % 3]; dir[{p, q}]++; und.insert(std::minmax(p, q)); verts.insert(p); mx = std::max(mx, std::hypot(x[p](0) - x[q](0), x[p](1) - x[q](1))); } }
    report("positive-orientation", neg == 0, cat(neg, " of ", o.el.size(), " triangles are turned over or degenerate"));
    report("area", fabsl(area - want) <= 1e-9L * r.size * r.size, cat("triangles cover ", (double)area, ", the region has ", (double)want));
    int dup = 0; std::set<std::pair<int, int>> bnd; for (auto& d : dir) { if (d.second > 1) dup++; if (!dir.count({d.first.second, d.first.first})) bnd.insert(d.first); }
    report("conforming", dup == 0, cat(dup, " edges have two triangles on the same side"));
    report("every-node-used", (int)verts.size() == N, cat(N - (int)verts.size(), " nodes belong to no triangle"));
    int eu = (int)verts.size() - (int)und.size() + (int)o.el.size(), we = (int)r.out.size() - (int)r.in.size();
    report("euler", eu == we, cat("Euler characteristic ", eu, ", expected ", we));
    // boundary
    std::map<std::pair<int, int>, int> lst; bool eok = true;
    for (auto& e : o.ed) { if (e.size() != 2 || e[0] < 0 || e[0] >= N || e[1] < 0 || e[1] >= N) { eok = false; break; } lst[{e[0], e[1]}]++; }
    report("boundary-nodes", eok, "a boundary edge lists a non-existent node"); if (!eok) return;
    int miss = 0, extra = 0, twice = 0; for (auto& d : bnd) if (!lst.count(d)) miss++; for (auto& d : lst) { if (!bnd.count(d.first)) extra++; if (d.second > 1) twice++; }
    report("boundary-cover", !miss && !extra && !twice, cat("boundary list misses ", miss, " edges, has ", extra, " that are not (correctly directed) boundary edges, ", twice, " repeated"));
    ld per = 0, wper = 0; double dev = 0, bmx = 0; for (auto& d : bnd) { DV p = x[d.first], q = x[d.second]; double l = std::hypot(p(0) - q(0), p(1) - q(1)); per += l; bmx = std::max(bmx, l); dev = std::max({dev, bdist(r, p(0), p(1)), bdist(r, 0.5 * (p(0) + q(0)), 0.5 * (p(1) + q(1)))}); }
    for (auto* b : {&r.out, &r.in}) for (auto& l : *b) for (size_t i = 0; i < l.size(); i++) { DV p = r.P[l[i]], q = r.P[l[(i + 1) % l.size()]]; wper += std::hypot(p(0) - q(0), p(1) - q(1)); }
    report("boundary-on-outline", dev <= 1e-9 * r.size && fabsl(per - wper) <= 1e-8L * wper, cat("mesh boundary leaves the given outline by ", dev, "; length ", (double)per, " for ", (double)wper));
    // size limit: boundary edges keep it exactly, interior edges up to the smoothing
    report("size-limit-boundary", bmx <= r.h * (1 + 1e-12), cat("boundary edge of length ", bmx, " with size limit ", r.h));
    report("size-limit-interior", mx <= 1.5 * r.h, cat("edge of length ", mx, " with size limit ", r.h));
    double bound = 30.0 * (double)(want / ((ld)r.h * r.h)) + 6.0 * (double)(wper / r.h) + 4.0 * k + 10;
    report("no-excess", (double)o.el.size() <= bound, cat(o.el.size(), " triangles for a size limit that needs at most ", bound));
    // sampled points: covered once inside, not at all outside
    int badin = 0, badout = 0, seen = 0; double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : r.P) { DV q = p; x0 = std::min(x0, q(0)); x1 = std::max(x1, q(0)); y0 = std::min(y0, q(1)); y1 = std::max(y1, q(1)); }
    for (int s = 0; s < 25; s++) { double px = g.uni(x0, x1), py = g.uni(y0, y1); if (bdist(r, px, py) < 1e-6 * r.size) continue; DV p = {px, py}; int cov = 0; bool edge = false; for (auto& t : o.el) { int in = 0; for (int k = 0; k < 3; k++) { double s2 = cross(x[t[k]], x[t[(k + 1) % 3]], p); if (std::fabs(s2) < 1e-12 * r.size * r.size) { edge = true; } if (s2 > 0) in++; } if (in == 3) cov++; } if (edge) continue; seen++; if (inside(r, px, py)) badin += cov != 1; else badout += cov != 0; }
    report("point-coverage", !badin && !badout, cat(badin, " inner sample points not covered exactly once, ", badout, " outer points covered"));
}
static Out mesh(const Region& r) { Delaunay<double> d(r.P, r.out, r.in, r.h); return {d.GenerateNodes(), d.GenerateElements(), d.GenerateEdges()}; }
static void p29(Case& c) {
    Region r = make(c, c.idx % 22);
    Out o = mesh(r);
    c.count("triangles", o.el.size()); c.count("nodes", o.x.size());
    judge(r, o, c.rng, [&](const char* mon, bool ok, std::string d) { c.expect(mon, ok, r.name + ": " + d); });
    if (c.rng.chance(0.1)) {
        Out q = mesh(r); bool same = q.el == o.el && q.ed == o.ed && q.x.size() == o.x.size(); for (size_t i = 0; same && i < q.x.size(); i++) { DV a = q.x[i], b = o.x[i]; same = a(0) == b(0) && a(1) == b(1); }
        c.expect("repeatable", same, r.name + ": the same input gives another mesh");
    }
}
static void p28(Case& c) {
    Region r = make(c, c.idx % 22); r.h = std::max(r.h, 0.1 * r.size);
    Delaunay<double> d(r.P, r.out, r.in, r.h); auto x = d.GenerateNodes();
    Rng& g = c.rng; DV p = x[g.range(0, (int)x.size() - 1)]; double px = p(0), py = p(1), w = g.uni(0.01, 0.4) * r.size; int kind = g.range(0, 4);
    std::function<double(double, double)> f;
    switch (kind) { case 0: f = [](double, double) { return 1.; }; break; case 1: f = [](double, double) { return -1.; }; break; case 2: f = [=](double a, double) { return 1e-5 * r.size - std::fabs(a - px); }; break; case 3: f = [=](double, double b) { return 1e-5 * r.size - std::fabs(b - py); }; break; default: f = [=](double a, double b) { return w - std::hypot(a - px, b - py); }; }
    for (auto& q : x) if (std::fabs(f(q(0), q(1))) < 1e-10 * r.size) return;
    std::vector<int> u, all = {0, 1, 2, 3, 5}; g.shuffle(all); u.assign(all.begin(), all.begin() + g.range(1, 3));
    auto got = d.GenerateFixedlist(u, [f](DV v) { return f(v(0), v(1)) > 0; });
    std::map<std::pair<int, int>, int> a; int val = 0, miss = 0, twice = 0, sel = 0; for (auto& q : got) { a[q.first]++; if (q.second != 0) val++; }
    for (size_t i = 0; i < x.size(); i++) if (f(x[i](0), x[i](1)) > 0) { sel++; for (int k : u) { auto it = a.find({(int)i, k}); if (it == a.end()) miss++; else { if (it->second > 1) twice++; a.erase(it); } } }
    c.count("selected", sel);
    c.expect("fixed-list", !miss && a.empty() && !twice && !val, cat("Delaunay: constraint list misses ", miss, " entries, has ", a.size(), " that were not asked for, ", twice, " repeated, ", val, " with a value other than zero; ", sel, " nodes satisfy the criterion"));
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_delaunay");
    component("P29.mesh", 1600, 40000, p29);
    component("P28.delaunay", 300, 8000, p28);
    return finish();
}
