// P30 model import, token based importer (the two importers share a class name, hence two programs)
#include <cassert>
#include <cmath>
#include <vector>
#include "io.hpp"
#include "src/LinearAlgebra/Models/Vector.h"
#include "src/PrePost/Import/ImportFromVTK2.h"
#include "src/PrePost/Export/ExportToVTK.h"
using namespace vh;
using namespace PANSFEM2;
typedef Vector<double> DV;
static void tokens(Case& c) {
    Rng& g = c.rng; int dim = g.range(1, 3); Vtk m = randommodel(c, dim, true); std::string fn = run().scratch + "/g.vtk"; double rel = 0;
    if (g.chance(0.5)) writevtk(c, fn, m, g.chance(0.4));
    else {
        std::ofstream o(fn); MakeHeadderToVTK(o); std::vector<DV> x; for (int i = 0; i < m.npts; i++) { DV p(dim); for (int k = 0; k < dim; k++) p(k) = m.pts[3 * i + k]; x.push_back(p); }
        AddPointsToVTK(x, o); AddElementToVTK(m.cells, o); AddElementTypes(m.types, o); rel = 6e-6; c.describe("written by the library");
        bool first = true; for (auto& f : m.f) if (!f.cell && !f.vec) { AddPointScalers(f.v, f.name, o, first); first = false; }
    }
    {
        ImportModelFromVTK<double> im(fn);
        for (int k = 0, n = g.range(2, 4), a = g.range(0, 1); k < n; k++) {
            std::string e;
            if ((k + a) % 2) {
                auto x = im.GenerateNodes(); if ((int)x.size() != m.npts) e = cat(x.size(), " nodes instead of ", m.npts);
                for (int i = 0; i < m.npts && e.empty(); i++) { if (x[i].SIZE() != 3) e = cat("node ", i, " has ", x[i].SIZE(), " coordinates"); else for (int d = 0; d < 3; d++) if (!sameval(x[i](d), m.pts[3 * i + d], rel)) e = cat("node ", i, " coordinate ", d, " is ", x[i](d), " instead of ", m.pts[3 * i + d]); }
                c.expect("nodes", e.empty(), e);
            } else {
                auto el = im.GenerateElements(); if (el.size() != m.cells.size()) e = cat(el.size(), " elements instead of ", m.cells.size()); for (size_t i = 0; i < el.size() && e.empty(); i++) if (el[i] != m.cells[i]) e = cat("element ", i, " differs");
                c.expect("elements", e.empty(), e);
            }
        }
    }
    remove(fn.c_str());
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_io2");
    component("P30.tokens", 1500, 40000, tokens);
    return finish();
}
