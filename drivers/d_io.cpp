// P30 result files, model import (line based importer) and condition tables
#define _USE_MATH_DEFINES
#include <cassert>
#include <cmath>
#include <iomanip>
#include "io.hpp"
#include "src/LinearAlgebra/Models/Vector.h"
#include "src/PrePost/Export/ExportToVTK.h"
#include "src/PrePost/Import/ImportFromVTK.h"
#include "src/PrePost/Import/ImportFromCSV.h"
#include "src/PrePost/Mesher/SquareMesh.h"
using namespace vh;
using namespace PANSFEM2;
typedef Vector<double> DV;
typedef std::vector<std::vector<int>> IM;
static std::string file(const char* n) { return run().scratch + "/" + n; }
static std::vector<DV> vecs(const std::vector<double>& v, int dim) { std::vector<DV> o; for (size_t i = 0; i + 2 < v.size(); i += 3) { DV x(dim); for (int k = 0; k < dim; k++) x(k) = v[i + k]; o.push_back(x); } return o; }
static std::string cmpf(const std::vector<double>& got, const std::vector<double>& want, double rel) {
    if (got.size() != want.size()) return cat(got.size(), " values instead of ", want.size());
    for (size_t i = 0; i < got.size(); i++) if (!sameval(got[i], want[i], rel)) return cat("entry ", i, " is ", got[i], " instead of ", want[i]);
    return "";
}
static std::string cmpv(const std::vector<DV>& got, const std::vector<double>& want, int dim, double rel) {
    if (got.size() * 3 != want.size()) return cat(got.size(), " rows instead of ", want.size() / 3);
    for (size_t i = 0; i < got.size(); i++) {
        if (got[i].SIZE() != dim) return cat("row ", i, " has ", got[i].SIZE(), " components instead of ", dim);
        DV r = got[i]; for (int k = 0; k < dim; k++) if (!sameval(r(k), want[3 * i + k], rel)) return cat("row ", i, " component ", k, " is ", r(k), " instead of ", want[3 * i + k]);
    }
    return "";
}
static std::string cmpc(const IM& got, const IM& want) {
    if (got.size() != want.size()) return cat(got.size(), " elements instead of ", want.size());
    for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) return cat("element ", i, " differs");
    return "";
}
// write the model with the library's exporter; returns the relative precision of the text
static double exportmodel(Case& c, const Vtk& m, int dim, const std::string& fn) {
    Rng& g = c.rng; double rel = 6e-6; bool cellfirst = g.chance(0.3), close = g.chance(0.7);
    std::ofstream o(fn);
    if (g.chance(0.3)) { o << std::setprecision(17); rel = 0; c.describe("full precision"); }
    MakeHeadderToVTK(o); AddPointsToVTK(vecs(m.pts, dim), o); AddElementToVTK(m.cells, o); AddElementTypes(m.types, o);
    for (int k = 0; k < 2; k++) {
        bool cell = cellfirst ? k == 0 : k == 1, first = true;
        for (auto& f : m.f) if (f.cell == cell) {
            if (cell) { if (f.vec) continue; AddElementScalers(f.v, f.name, o, first); }
            else if (f.vec) AddPointVectors(vecs(f.v, dim), f.name, o, first);
            else if (g.chance(0.5)) AddPointScalers(f.v, f.name, o, first);
            else { std::vector<DV> s; for (double x : f.v) { DV t(1); t(0) = x; s.push_back(t); } AddPointScalers(s, f.name, o, first); }
            first = false;
        }
    }
    if (close) o.close();
    return rel;
}
static void checkparsed(Case& c, const Vtk& m, const Vtk& r, double rel) {
    std::string e = cmpf(r.pts, m.pts, rel); c.expect("written-points", e.empty(), e, "points");
    e = cmpc(r.cells, m.cells); c.expect("written-elements", e.empty(), e, "cells");
    c.expect("written-types", r.types == m.types, "element types differ", "types");
    c.expect("written-fields", r.f.size() == m.f.size(), cat(r.f.size(), " fields in the file, ", m.f.size(), " written"), "count");
    for (auto& f : m.f) { const Field* q = r.find(f.name, f.vec, f.cell); e = q ? cmpf(q->v, f.v, rel) : "missing"; c.expect("written-fields", e.empty(), f.name + ": " + e, f.cell ? "cell" : f.vec ? "vectors" : "scalars"); }
}
// read everything back, in file order, in a random order or repeatedly
static void readback(Case& c, const Vtk& m, int dim, const std::string& fn, double rel, const char* mon) {
    Rng& g = c.rng; ImportModelFromVTK<double> im(fn, dim);
    std::vector<int> jobs; for (int i = 0; i < 3 + (int)m.f.size(); i++) jobs.push_back(i);
    if (g.chance(0.7)) g.shuffle(jobs); else c.count("in file order");
    if (g.chance(0.5)) jobs.push_back(g.pick(jobs));
    for (int j : jobs) {
        std::string e, what;
        if (j == 0) { e = cmpv(im.ImportPOINTS(), m.pts, dim, rel); what = "POINTS"; }
        else if (j == 1) { e = cmpc(im.ImportCELLS(), m.cells); what = "CELLS"; }
        else if (j == 2) { int k = g.range(0, 3); size_t n = k == 0 ? im.ImportPOINTSCALARS("nosuch").size() : k == 1 ? im.ImportPOINTVECTORS("nosuch").size() : k == 2 ? im.ImportCELLSCALARS("nosuch").size() : im.ImportCELLVECTORS("nosuch").size(); e = n ? cat(n, " rows of a field that is not there") : ""; what = "absent"; }
        else {
            const Field& f = m.f[j - 3]; what = cat(f.cell ? "CELL" : "POINT", f.vec ? "VECTORS" : "SCALARS");
            if (f.vec) e = cmpv(f.cell ? im.ImportCELLVECTORS(f.name) : im.ImportPOINTVECTORS(f.name), f.v, dim, rel);
            else e = cmpf(f.cell ? im.ImportCELLSCALARS(f.name) : im.ImportPOINTSCALARS(f.name), f.v, rel);
        }
        c.expect(mon, e.empty(), what + ": " + e, what); c.count(what);
    }
}
static void roundtrip(Case& c) {
    int dim = c.rng.range(1, 3); Vtk m = randommodel(c, dim, false); std::string fn = file("r.vtk");
    double rel = exportmodel(c, m, dim, fn);
    Vtk r; std::string e = readvtk(fn, r);
    if (c.expect("valid-file", e.empty(), e, "syntax")) checkparsed(c, m, r, rel);
    readback(c, m, dim, fn, rel, "read-back");
    if (dim < 3 && c.rng.chance(0.3)) readback(c, m, 3, fn, rel, "read-back");
    remove(fn.c_str());
}
static void foreign(Case& c) {
    int dim = c.rng.range(1, 3); Vtk m = randommodel(c, dim, true); std::string fn = file("f.vtk"); writevtk(c, fn, m, c.rng.chance(0.4));
    readback(c, m, dim, fn, 0, "import"); remove(fn.c_str());
    if (c.rng.chance(0.2)) { ImportModelFromVTK<double> im(file("none.vtk"), dim); c.expect("absent-file", im.ImportPOINTS().empty() && im.ImportCELLS().empty() && im.ImportPOINTSCALARS("u").empty(), "rows from a file that does not exist"); }
}
static void mesh(Case& c) {
    Rng& g = c.rng; int nx = g.range(1, 12), ny = g.range(1, 12); double a = g.logu(1e-3, 1e3), b = g.logu(1e-3, 1e3); c.describe("square ", a, " ", b, " ", nx, "x", ny);
    SquareMesh<double> q(a, b, nx, ny); auto x = q.GenerateNodes(); auto el = q.GenerateElements(); std::string fn = file("m.vtk");
    std::vector<double> ex, sc; for (auto& p : x) { ex.push_back(p(0)); ex.push_back(p(1)); ex.push_back(0); sc.push_back(p(0) * p(1)); }
    { std::ofstream o(fn); MakeHeadderToVTK(o); AddPointsToVTK(x, o); AddElementToVTK(el, o); AddElementTypes(std::vector<int>(el.size(), 9), o); AddPointVectors(x, "u", o, true); AddPointScalers(sc, "T", o, false); }
    ImportModelFromVTK<double> im(fn, 2);
    std::string e = cmpv(im.ImportPOINTS(), ex, 2, 6e-6); c.expect("mesh-nodes", e.empty(), e); e = cmpc(im.ImportCELLS(), el); c.expect("mesh-elements", e.empty(), e);
    e = cmpv(im.ImportPOINTVECTORS("u"), ex, 2, 6e-6); c.expect("mesh-fields", e.empty(), e, "u"); e = cmpf(im.ImportPOINTSCALARS("T"), sc, 6e-6); c.expect("mesh-fields", e.empty(), e, "T");
    remove(fn.c_str());
}
// ---- tables
static std::string numtext(Rng& g, double& v) {
    char b[64];
    switch (g.range(0, 5)) { case 0: { int k = g.range(-50, 50); snprintf(b, 64, "%d", k); break; } case 1: snprintf(b, 64, "%.3f", g.uni(-100, 100)); break; case 2: snprintf(b, 64, "%.6e", g.sgn() * g.logu(1e-20, 1e20)); break; case 3: snprintf(b, 64, "%.17g", g.uni(-1, 1)); break; case 4: snprintf(b, 64, "0"); break; default: snprintf(b, 64, "%.5g", g.uni(-10, 10)); }
    v = std::strtod(b, nullptr); return b;
}
struct Table { std::string text; int rows = 0; };
static void finishfile(Rng& g, std::string& s, const std::string& fn) { if (!s.empty() && s.back() == '\n' && g.chance(0.3)) s.pop_back(); else if (g.chance(0.2)) s += "\n"; std::ofstream o(fn); o << s; }
typedef std::vector<std::pair<std::pair<int, int>, double>> Fix;
static void csv(Case& c) {
    Rng& g = c.rng; int kind = (int)(c.idx % 6); std::string fn = file("t.csv"), s; int rows = g.chance(0.1) ? 0 : g.chance(0.05) ? g.range(200, 800) : g.range(1, 25);
    static const char* NM[] = {"nodes", "elements", "dirichlet", "neumann", "initial", "periodic"};
    s = g.chance(0.5) ? "ID,a,b,c\n" : "id x y z\n"; c.describe(NM[kind], " table of ", rows, " rows");
    if (kind == 0) {
        int dim = g.range(1, 3); std::vector<std::vector<double>> want; std::vector<DV> got; int pre = g.chance(0.3) ? g.range(1, 3) : 0; for (int i = 0; i < pre; i++) got.push_back(DV({(double)i}));
        for (int i = 0; i < rows; i++) { std::vector<double> w; s += cat(i); for (int k = 0; k < dim; k++) { double v; s += "," + numtext(g, v); w.push_back(v); } s += "\n"; want.push_back(w); c.inputs(w); }
        finishfile(g, s, fn); bool ok = ImportNodesFromCSV(got, fn); std::string e;
        if (!ok) e = "reported an open error"; else if ((int)got.size() != pre + rows) e = cat(got.size() - pre, " nodes instead of ", rows);
        else for (int i = 0; i < rows && e.empty(); i++) { if (got[pre + i].SIZE() != dim) e = cat("node ", i, " has ", got[pre + i].SIZE(), " coordinates"); else for (int k = 0; k < dim; k++) if (got[pre + i](k) != want[i][k]) e = cat("node ", i, " coordinate ", k, " is ", got[pre + i](k), " instead of ", want[i][k]); }
        c.expect("nodes", e.empty(), e);
    } else if (kind == 1) {
        IM want, got; bool mixed = g.chance(0.4); int n0 = g.pick(std::vector<int>{2, 3, 4, 6, 8, 20});
        for (int i = 0; i < rows; i++) { std::vector<int> w; s += cat(i); int n = mixed ? g.pick(std::vector<int>{2, 3, 4, 6, 8, 20}) : n0; for (int k = 0; k < n; k++) { w.push_back(g.chance(0.1) ? g.range(0, 2000000000) : g.range(0, 300)); s += cat(",", w.back()); } s += "\n"; want.push_back(w); c.inputs(w); }
        finishfile(g, s, fn); bool ok = ImportElementsFromCSV(got, fn); std::string e = ok ? cmpc(got, want) : "reported an open error"; c.expect("elements", e.empty(), e);
    } else if (kind == 2 || kind == 3) {
        Fix want, got; int n0 = g.range(1, 6), pre = g.chance(0.3) ? 2 : 0; for (int i = 0; i < pre; i++) want.push_back({{7, i}, 0.5}); got = want;
        for (int i = 0; i < rows; i++) {
            int id = g.range(0, 500), n = g.chance(0.8) ? n0 : g.range(1, n0); s += cat(id);
            for (int k = 0; k < n; k++) { if (g.chance(0.4)) s += ",free"; else { double v; s += "," + numtext(g, v); want.push_back({{id, k}, v}); c.input(v); } } s += "\n"; c.input(id);
        }
        finishfile(g, s, fn); bool ok = kind == 2 ? ImportDirichletFromCSV(got, fn) : ImportNeumannFromCSV(got, fn); std::string e = ok ? "" : "reported an open error";
        if (ok) { if (got.size() != want.size()) e = cat(got.size(), " entries instead of ", want.size()); else for (size_t i = 0; i < got.size() && e.empty(); i++) if (got[i] != want[i]) e = cat("entry ", i, ": node ", got[i].first.first, " component ", got[i].first.second, " value ", got[i].second, ", expected ", want[i].first.first, " ", want[i].first.second, " ", want[i].second); }
        c.expect(NM[kind], e.empty(), e);
    } else if (kind == 4) {
        int n = g.range(1, 20), dim = g.range(1, 6); std::vector<DV> u(n, DV(dim)); std::vector<std::vector<double>> want(n, std::vector<double>(dim));
        for (int i = 0; i < n; i++) for (int k = 0; k < dim; k++) u[i](k) = want[i][k] = g.uni(-1, 1);
        bool shortrow = false;
        for (int i = 0; i < rows; i++) { int id = g.range(0, n - 1), m = g.chance(0.75) ? dim : g.range(1, dim); if (m < dim) shortrow = true; s += cat(id); for (int k = 0; k < m; k++) { if (g.chance(0.3)) s += ",free"; else { double v; s += "," + numtext(g, v); want[id][k] = v; c.input(v); } } if (m == dim && g.chance(0.1)) { for (int k = g.range(1, 3); k; k--) { double v; s += g.chance(0.3) ? std::string(",free") : "," + numtext(g, v); } c.count("more columns than unknowns"); } s += "\n"; c.input(id); }
        finishfile(g, s, fn); bool ok = ImportInitialFromCSV(u, fn); std::string e = ok ? "" : "reported an open error";
        for (int i = 0; i < n && e.empty(); i++) for (int k = 0; k < dim; k++) if (u[i](k) != want[i][k]) e = cat("node ", i, " component ", k, " is ", u[i](k), " instead of ", want[i][k]);
        c.expect("initial", e.empty(), e, shortrow ? "short-rows" : "");
    } else {
        std::vector<std::pair<int, int>> want, got; for (int i = 0; i < rows; i++) { want.push_back({g.range(0, 1000), g.range(0, 1000)}); s += cat(want.back().first, ",", want.back().second, "\n"); c.input(want.back().first); c.input(want.back().second); }
        finishfile(g, s, fn); bool ok = ImportPeriodicFromCSV(got, fn); c.expect("periodic", ok && got == want, "pairs differ");
    }
    remove(fn.c_str());
    if (g.chance(0.1)) { std::vector<DV> a; IM b; Fix d, n; std::vector<std::pair<int, int>> p; std::string q = file("none.csv"); bool r = ImportNodesFromCSV(a, q) || ImportElementsFromCSV(b, q) || ImportDirichletFromCSV(d, q) || ImportNeumannFromCSV(n, q) || ImportInitialFromCSV(a, q) || ImportPeriodicFromCSV(p, q);
        c.expect("absent-file", !r && a.empty() && b.empty() && d.empty() && n.empty() && p.empty(), "a table that does not exist was accepted"); }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_io");
    component("P30.roundtrip", 1500, 40000, roundtrip);
    component("P30.foreign", 1500, 40000, foreign);
    component("P30.mesh", 200, 4000, mesh);
    component("P30.csv", 4800, 120000, csv);
    return finish();
}
