// Independent reading and writing of the file formats, used as the oracle of P30
#pragma once
#include <fstream>
#include <cstdlib>
#include "vh.hpp"
namespace vh {
struct Field { std::string name; bool vec, cell; std::vector<double> v; };     // vectors: 3 components per entity
struct Vtk {
    std::vector<double> pts; std::vector<std::vector<int>> cells; std::vector<int> types; std::vector<Field> f; int npts = 0;
    const Field* find(const std::string& n, bool vec, bool cell) const { for (auto& x : f) if (x.name == n && x.vec == vec && x.cell == cell) return &x; return nullptr; }
};
// strict reader of the ASCII legacy format; returns an error text or ""
inline std::string readvtk(const std::string& fn, Vtk& o) {
    std::ifstream in(fn); if (!in) return "file missing";
    std::string l;
    std::getline(in, l); if (l.compare(0, 22, "# vtk DataFile Version")) return "bad signature '" + l + "'";
    std::getline(in, l); if (l.size() > 255) return "title too long";
    std::getline(in, l); if (l.compare(0, 5, "ASCII")) return "not ASCII: '" + l + "'";
    std::vector<std::string> t; while (in >> l) t.push_back(l);
    size_t p = 0; std::string err;
    auto tok = [&]() -> std::string { if (p < t.size()) return t[p++]; if (err.empty()) err = "file ends early"; return ""; };
    auto num = [&]() -> double { std::string s = tok(); char* e = nullptr; double v = std::strtod(s.c_str(), &e); if ((s.empty() || *e) && err.empty()) err = "'" + s + "' is not a number"; return v; };
    auto cnt = [&]() -> long { double v = num(); if ((v < 0 || v != std::floor(v) || v > 1e8) && err.empty()) err = "bad count"; return err.empty() ? (long)v : 0; };
    auto typ = [&]() { std::string s = tok(); if (s != "float" && s != "double" && s != "int" && err.empty()) err = "bad data type '" + s + "'"; };
    if (tok() != "DATASET" || tok() != "UNSTRUCTURED_GRID") return "not an unstructured grid";
    int mode = 0; long n = 0; bool pd = false, cd = false;
    while (p < t.size() && err.empty()) {
        std::string k = tok();
        if (k == "POINTS") { if (o.npts) return "two POINTS sections"; o.npts = cnt(); typ(); for (long i = 0; i < 3L * o.npts && err.empty(); i++) o.pts.push_back(num()); }
        else if (k == "CELLS") {
            long m = cnt(), tot = cnt(), used = 0;
            for (long i = 0; i < m && err.empty(); i++) { long s = cnt(); std::vector<int> e; for (long j = 0; j < s && err.empty(); j++) e.push_back((int)cnt()); used += s + 1; o.cells.push_back(e); }
            if (used != tot && err.empty()) err = cat("CELLS announces ", tot, " integers but has ", used);
        }
        else if (k == "CELL_TYPES") { long m = cnt(); for (long i = 0; i < m && err.empty(); i++) o.types.push_back((int)cnt()); if (m != (long)o.cells.size() && err.empty()) err = "CELL_TYPES count differs from CELLS"; }
        else if (k == "POINT_DATA") { if (pd) return "two POINT_DATA sections"; pd = true; mode = 1; n = cnt(); if (n != o.npts && err.empty()) err = "POINT_DATA count differs from POINTS"; }
        else if (k == "CELL_DATA") { if (cd) return "two CELL_DATA sections"; cd = true; mode = 2; n = cnt(); if (n != (long)o.cells.size() && err.empty()) err = "CELL_DATA count differs from CELLS"; }
        else if (k == "SCALARS" || k == "VECTORS") {
            if (!mode) return k + " outside POINT_DATA/CELL_DATA";
            Field f; f.name = tok(); f.vec = k == "VECTORS"; f.cell = mode == 2; typ();
            if (!f.vec) { if (tok() != "LOOKUP_TABLE") return "SCALARS without LOOKUP_TABLE"; tok(); }
            for (long i = 0; i < (f.vec ? 3 : 1) * n && err.empty(); i++) f.v.push_back(num());
            o.f.push_back(f);
        }
        else return "unexpected '" + k + "'";
    }
    return err;
}
inline std::string num17(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
// a model as another program would write it: one entity per line, full precision
inline void writevtk(Case& c, const std::string& fn, const Vtk& m, bool cellfirst) {
    Rng& g = c.rng; std::ofstream o(fn);
    auto sep = [&]() -> const char* { int k = g.range(0, 5); return k == 0 ? "\t" : k == 1 ? "  " : " "; };
    auto end = [&]() -> const char* { return g.chance(0.2) ? " \n" : "\n"; };
    o << "# vtk DataFile Version " << (g.chance(0.5) ? "2.0" : "3.0") << "\nmodel\nASCII\nDATASET UNSTRUCTURED_GRID\n";
    if (g.chance(0.4)) o << "\n";
    o << "POINTS" << sep() << m.npts << sep() << "float\n";
    for (int i = 0; i < m.npts; i++) o << num17(m.pts[3 * i]) << sep() << num17(m.pts[3 * i + 1]) << sep() << num17(m.pts[3 * i + 2]) << end();
    if (g.chance(0.4)) o << "\n";
    size_t tot = 0; for (auto& e : m.cells) tot += e.size() + 1;
    o << "CELLS " << m.cells.size() << sep() << tot << "\n";
    for (auto& e : m.cells) { o << e.size(); for (int v : e) o << sep() << v; o << end(); }
    if (g.chance(0.4)) o << "\n";
    o << "CELL_TYPES " << m.types.size() << "\n"; for (int v : m.types) o << v << end();
    for (int k = 0; k < 2; k++) {
        bool cell = cellfirst ? k == 0 : k == 1, first = true;
        for (auto& f : m.f) if (f.cell == cell) {
            if (first) { o << (g.chance(0.5) ? "\n" : "") << (cell ? "CELL_DATA " : "POINT_DATA ") << (cell ? m.cells.size() : (size_t)m.npts) << "\n"; first = false; }
            o << (f.vec ? "VECTORS " : "SCALARS ") << f.name << sep() << "float\n"; if (!f.vec) o << "LOOKUP_TABLE default\n";
            for (size_t i = 0; i < f.v.size(); i++) { o << num17(f.v[i]); if (!f.vec || i % 3 == 2) o << end(); else o << sep(); }
        }
    }
}
inline double ioval(Rng& g) { switch (g.range(0, 7)) { case 0: return 0; case 1: return g.range(-5, 5); case 2: return g.sgn() * g.logu(1e-30, 1e30); case 3: return g.sgn() * g.logu(1e5, 1e8); case 4: return g.range(-400, 400) * 0.125; default: return g.uni(-10, 10); } }
// a random model; dimension dim leaves the remaining coordinates zero
inline Vtk randommodel(Case& c, int dim, bool cellvec) {
    Rng& g = c.rng; Vtk m; bool big = g.chance(0.03);
    m.npts = g.chance(0.1) ? 1 : big ? g.range(200, 1500) : g.range(2, 30); int ne = g.chance(0.1) ? 0 : big ? g.range(100, 1500) : g.range(1, 20);
    for (int i = 0; i < m.npts; i++) for (int k = 0; k < 3; k++) m.pts.push_back(k < dim ? ioval(g) : 0);
    bool mixed = g.chance(0.5); static const std::vector<int> SZ{1, 2, 3, 4, 6, 8, 10, 20}; int s0 = g.pick(SZ);
    for (int i = 0; i < ne; i++) { int s = mixed ? g.pick(SZ) : s0; std::vector<int> e; for (int k = 0; k < s; k++) e.push_back(g.range(0, m.npts - 1)); m.cells.push_back(e); m.types.push_back(g.range(1, 30)); }
    static const std::vector<std::string> NM{"u", "u2", "ux", "T", "s", "sigma_x", "rho", "temperature", "p", "P", "U", "density(filtered)"};
    int nf = g.range(0, 6);
    for (int i = 0; i < nf; i++) {
        Field f; f.name = g.pick(NM); f.cell = g.chance(0.4); f.vec = f.cell ? cellvec && g.chance(0.4) : g.chance(0.5);
        bool dup = false; for (auto& x : m.f) if (x.name == f.name && x.cell == f.cell && x.vec == f.vec) dup = true; if (dup) continue;
        size_t n = f.cell ? ne : m.npts; for (size_t k = 0; k < n; k++) for (int d = 0; d < (f.vec ? 3 : 1); d++) f.v.push_back(f.vec && d >= dim ? 0 : ioval(g));
        m.f.push_back(f);
    }
    c.describe(m.npts, " points dim ", dim, ", ", ne, " cells", mixed ? " mixed" : "", ", ", m.f.size(), " fields"); c.inputs(m.pts); for (auto& f : m.f) { c.describe(f.cell ? "cell " : "point ", f.vec ? "vector " : "scalar ", f.name); c.inputs(f.v); } for (auto& e : m.cells) c.inputs(e);
    return m;
}
inline bool sameval(double a, double b, double rel) { return std::fabs(a - b) <= rel * std::fabs(b) + (rel > 0 ? 1e-300 : 0); }
}
