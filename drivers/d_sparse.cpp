// P04: sparse matrices against a map model over random histories
#include "vh.hpp"
#include <memory>
#include "src/LinearAlgebra/Models/CSR.h"
#include "src/LinearAlgebra/Models/LILCSR.h"
using namespace vh;
typedef std::map<std::pair<int, int>, double> Map;
struct Obj { std::unique_ptr<CSR<double>> c; std::unique_ptr<LILCSR<double>> l; Map m; };

struct World {
    Case& c; int R, C; std::vector<Obj> o;
    World(Case& c_, int r, int k) : c(c_), R(r), C(k) {}
    double mget(const Map& m, int i, int j) { auto it = m.find({i, j}); return it == m.end() ? 0.0 : it->second; }
    double rget(Obj& x, int i, int j) { return x.c ? x.c->get(i, j) : x.l->get(i, j); }
    void see(Obj& x, const char* op, const Map* mag = nullptr) {
        bool shape = x.c ? x.c->ROWS == R && x.c->COLS == C : x.l->ROWS == R && x.l->COLS == C;
        if (!c.expect("shape", shape, op)) return;
        if ((long)R * C <= 900) {
            for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { double g = rget(x, i, j), w = mget(x.m, i, j); double t = mag ? 1e-14 * mget(*mag, i, j) : 0; c.near("value", g, w, t, cat(op, (x.c ? " csr" : " lil"), " entry ", i, ",", j, " of ", R, "x", C), op); }
        } else {
            for (auto& p : x.m) { double t = mag ? 1e-14 * mget(*mag, p.first.first, p.first.second) : 0; c.near("value", rget(x, p.first.first, p.first.second), p.second, t, cat(op, " entry ", p.first.first, ",", p.first.second), op); }
            for (int k = 0; k < 200; k++) { int i = c.rng.range(0, R - 1), j = c.rng.range(0, C - 1); double t = mag ? 1e-14 * mget(*mag, i, j) : 0; c.near("value", rget(x, i, j), mget(x.m, i, j), t, cat(op, " entry ", i, ",", j), op); }
        }
    }
    void resync(Obj& x) { for (auto& p : x.m) p.second = rget(x, p.first.first, p.first.second); }
    void seeall(const char* op) { for (auto& x : o) see(x, cat("after-", op).c_str()); }
    void product(Obj& x, const char* op) {
        std::vector<double> v(C);
        int kind = c.rng.range(0, 3);
        for (int j = 0; j < C; j++) v[j] = kind == 0 ? 1.0 : kind == 1 ? (double)(j == (int)(c.h % C)) : c.rng.uni(-2, 2);
        std::vector<double> v0 = v;
        std::vector<double> y = x.c ? (*x.c) * v : (*x.l) * v;
        c.expect("product-size", (int)y.size() == R, cat("product has ", y.size(), " entries, expected ", R));
        if ((int)y.size() != R) return;
        std::vector<ld> w(R, 0), g(R, 0);
        for (auto& p : x.m) { w[p.first.first] += (ld)p.second * v[p.first.second]; g[p.first.first] += fabsl((ld)p.second * v[p.first.second]); }
        for (int i = 0; i < R; i++) c.near("product", y[i], w[i], 1e-13L * g[i], cat(op, (x.c ? " csr" : " lil"), " product row ", i, " of ", R, "x", C));
        c.expect("product-operand", v == v0, "product changed its vector");
    }
    double val() { double x = c.rng.chance(0.12) ? c.rng.sgn() * c.rng.logu(1e-20, 1e-5) : c.rng.val(); c.input(x); return x; }
    void step() {
        if (o.size() > 6) o.erase(o.begin() + c.rng.range(0, 5));
        int a = c.rng.range(0, (int)o.size() - 1), b = c.rng.range(0, (int)o.size() - 1);
        Obj& x = o[a];
        c.count("operations");
        switch (c.rng.range(0, 15)) {
        case 0: case 1: case 2: case 3: {      // a burst of sets: ascending, descending, random, repeated column, zeros
            int n = c.rng.range(1, 12), mode = c.rng.range(0, 4), i = c.rng.range(0, R - 1), j0 = c.rng.range(0, C - 1);
            for (int k = 0; k < n; k++) {
                int r = mode == 2 ? c.rng.range(0, R - 1) : i, j = mode == 0 ? std::min(C - 1, j0 + k) : mode == 1 ? std::max(0, j0 - k) : mode == 4 ? j0 : c.rng.range(0, C - 1);
                double v = c.rng.chance(0.1) ? 0.0 : val();
                c.input(r); c.input(j);
                bool had = x.m.count({r, j}) > 0;
                bool ret = x.c ? x.c->set(r, j, v) : x.l->set(r, j, v);
                c.expect("set-reports-existing", ret == had, cat("set(", r, ",", j, ") returned ", ret, " but the entry ", had ? "existed" : "was absent"));
                x.m[{r, j}] = v;
                c.near("read-own-write", rget(x, r, j), v, 0, cat("value at ", r, ",", j, " after set"));
                c.count("sets");
            }
            see(x, "set"); break; }
        case 4: { Obj n; n.m = x.m; if (x.c) n.l.reset(new LILCSR<double>(*x.c)); else n.c.reset(new CSR<double>(*x.l)); see(n, "convert"); product(n, "convert"); see(x, "convert-source"); o.push_back(std::move(n)); break; }
        case 5: { Obj n; n.m = x.m; if (x.c) n.c.reset(new CSR<double>(*x.c)); else n.l.reset(new LILCSR<double>(*x.l)); int r = c.rng.range(0, R - 1), j = c.rng.range(0, C - 1); if (n.c) n.c->set(r, j, 5.5); else n.l->set(r, j, 5.5); n.m[{r, j}] = 5.5; see(n, "copy"); see(x, "copy-source"); o.push_back(std::move(n)); break; }
        case 6: case 7: case 8: case 9: {      // sum and difference of two of the same format (possibly the same object)
            Obj& y = o[b]; bool minus = c.rng.chance(0.5);
            if ((bool)x.c != (bool)y.c) break;
            Obj n; n.m = x.m; Map mag;
            for (auto& p : x.m) mag[p.first] = fabs(p.second);
            for (auto& p : y.m) { n.m[p.first] += minus ? -p.second : p.second; mag[p.first] += fabs(p.second); }
            if (x.c) n.c.reset(new CSR<double>(minus ? *x.c - *y.c : *x.c + *y.c)); else n.l.reset(new LILCSR<double>(minus ? *x.l - *y.l : *x.l + *y.l));
            see(n, minus ? "subtract" : "add", &mag); resync(n); product(n, minus ? "subtract" : "add"); see(x, "left-operand"); see(y, "right-operand");
            double big = 0; for (auto& p : n.m) big = std::max(big, fabs(p.second));
            if (big < 1e8) o.push_back(std::move(n)); break; }
        case 10: case 11: {
            double s = val(); int how = c.rng.range(0, 2); if (how == 2 && fabs(s) < 1e-10) s = 2;
            Obj n; n.m = x.m; Map mag;
            for (auto& p : n.m) { p.second = how == 2 ? p.second / s : p.second * s; mag[p.first] = fabs(p.second); }
            if (x.c) n.c.reset(new CSR<double>(how == 0 ? s * *x.c : how == 1 ? *x.c * s : *x.c / s)); else n.l.reset(new LILCSR<double>(how == 0 ? s * *x.l : how == 1 ? *x.l * s : *x.l / s));
            see(n, "scale", &mag); resync(n); see(x, "scale-source");
            double big = 0; for (auto& p : n.m) big = std::max(big, fabs(p.second));
            if (big < 1e8) o.push_back(std::move(n)); break; }
        case 12: case 13: product(x, "direct"); see(x, "product-source"); break;
        case 14: { if ((long)R * C > 400) break; std::ostringstream s; if (x.c) s << *x.c; else s << *x.l; std::istringstream in(s.str()); std::string line; int r = 0; bool ok = true;
            while (std::getline(in, line)) { std::istringstream l(line); double v; int k = 0; while (l >> v) { if (r < R && k < C) { double w = mget(x.m, r, k); ok = ok && fabs(v - w) <= 1e-5 * fabs(w); } k++; } ok = ok && k == C; r++; }
            c.expect("print", ok && r == R, "printed matrix differs"); break; }
        case 15: { Obj n; if (c.rng.chance(0.5)) n.c.reset(new CSR<double>(R, C)); else n.l.reset(new LILCSR<double>(R, C)); see(n, "new"); product(n, "new"); o.push_back(std::move(n)); break; }
        }
    }
};
void history(Case& c, int R, int C, int steps, long bulk) {
    World w(c, R, C);
    c.describe(R, "x", C, " history of ", steps, " operations, ", bulk, " initial sets");
    Obj a, b; a.c.reset(new CSR<double>(R, C)); b.l.reset(new LILCSR<double>(R, C));
    for (long k = 0; k < bulk; k++) { int i = c.rng.range(0, R - 1), j = c.rng.chance(0.7) ? std::min(C - 1, std::max(0, i + c.rng.range(-8, 8))) : c.rng.range(0, C - 1); double v = c.rng.chance(0.05) ? 0.0 : c.rng.chance(0.05) ? c.rng.logu(1e-20, 1e-6) : c.rng.uni(-1, 1); b.l->set(i, j, v); b.m[{i, j}] = v; c.input(v); }
    w.o.push_back(std::move(a)); w.o.push_back(std::move(b));
    if (bulk) { Obj d; d.m = w.o[1].m; d.c.reset(new CSR<double>(*w.o[1].l)); w.see(d, "bulk-convert"); w.product(d, "bulk"); w.product(w.o[1], "bulk"); w.o.push_back(std::move(d)); }
    for (int s = 0; s < steps; s++) w.step();
    w.seeall("history");
    for (auto& x : w.o) w.product(x, "final");
}
void mixed(Case& c) {     // operands of different element types
    int R = c.rng.range(1, 6), C = c.rng.range(1, 6);
    c.describe("double and float operands ", R, "x", C);
    CSR<double> A(R, C); CSR<float> B(R, C); LILCSR<double> a(R, C); LILCSR<float> b(R, C);
    RM x(R, C), y(R, C);
    for (int k = 0; k < 12; k++) { int i = c.rng.range(0, R - 1), j = c.rng.range(0, C - 1); double v = c.rng.range(-8, 8) * 0.25; c.input(v); if (c.rng.chance(0.5)) { A.set(i, j, v); a.set(i, j, v); x(i, j) = v; } else { B.set(i, j, (float)v); b.set(i, j, (float)v); y(i, j) = v; } }
    CSR<double> S = A + B, D = A - B; LILCSR<double> s = a + b, d = a - b;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
        c.near("mixed", S.get(i, j), x(i, j) + y(i, j), 1e-12, "csr sum"); c.near("mixed", D.get(i, j), x(i, j) - y(i, j), 1e-12, "csr difference");
        c.near("mixed", s.get(i, j), x(i, j) + y(i, j), 1e-12, "lil sum"); c.near("mixed", d.get(i, j), x(i, j) - y(i, j), 1e-12, "lil difference");
    }
}
int main(int argc, char** argv) {
    parse(argc, argv, "d_sparse");
    component("P04.history", 1500, 40000, [](Case& c) { history(c, c.rng.range(1, 9), c.rng.range(1, 9), c.rng.range(15, 50), 0); });
    component("P04.mixed", 100, 1000, [](Case& c) { mixed(c); });
    component("P04.medium", 150, 4000, [](Case& c) { history(c, c.rng.range(10, 60), c.rng.range(10, 60), 20, c.rng.range(0, 400)); });
    component("P04.wide", 120, 3000, [](Case& c) { bool t = c.rng.chance(0.5); int a = c.rng.range(1, 5), b = c.rng.range(20, 300); history(c, t ? b : a, t ? a : b, 12, c.rng.range(20, 700)); });
    component("P04.large", 16, 400, [](Case& c) { history(c, c.rng.range(300, 3000), c.rng.range(300, 3000), 4, c.rng.range(3000, 12000)); });
    return finish();
}
