// P02, P03: dense vectors and matrices, determinant / inverse / LU
#include "vh.hpp"
#include "src/LinearAlgebra/Models/Vector.h"
#include "src/LinearAlgebra/Models/Matrix.h"
#include "src/LinearAlgebra/Solvers/LU.h"
using namespace vh;
using namespace PANSFEM2;

typedef std::vector<ld> RV;

template <class T> struct Eps { static ld e() { return sizeof(T) == 4 ? 2e-6L : 1e-13L; } };

template <class T> struct World {
    Case& c;
    std::vector<Matrix<T>> A;   // real objects
    std::vector<Vector<T>> v;
    std::vector<RM> rA;         // their models
    std::vector<RV> rv;
    ld eps = Eps<T>::e(), tiny = sizeof(T) == 4 ? 1e-35L : 1e-290L;   // below: gradual underflow
    explicit World(Case& c_) : c(c_) {}

    // observation of an object against a model with an absolute tolerance per entry
    void seeM(const char* op, Matrix<T>& m, const RM& want, const RM& mag) {
        if (!c.expect(cat(op, "-shape"), m.ROW() == want.r && m.COL() == want.c, cat("shape ", m.ROW(), "x", m.COL(), " expected ", want.r, "x", want.c))) return;
        for (int i = 0; i < want.r; i++) for (int j = 0; j < want.c; j++)
            c.near(op, m(i, j), want(i, j), eps * mag(i, j) + tiny, cat("entry ", i, ",", j, " of ", want.r, "x", want.c));
    }
    void seeV(const char* op, Vector<T>& m, const RV& want, const RV& mag) {
        if (!c.expect(cat(op, "-shape"), m.SIZE() == (int)want.size(), cat("size ", m.SIZE(), " expected ", want.size()))) return;
        for (size_t i = 0; i < want.size(); i++) c.near(op, m((int)i), want[i], eps * mag[i] + tiny, cat("entry ", i, " of ", want.size()));
    }
    static RM ab(RM m) { for (auto& x : m.a) x = fabsl(x); return m; }
    static RV ab(RV m) { for (auto& x : m) x = fabsl(x); return m; }
    // exact comparison of the whole pool with the model: nobody may have changed behind our back
    void seeall(const char* op) {
        for (size_t k = 0; k < A.size(); k++) {
            bool ok = A[k].ROW() == rA[k].r && A[k].COL() == rA[k].c;
            for (int i = 0; ok && i < rA[k].r; i++) for (int j = 0; ok && j < rA[k].c; j++) ok = (ld)A[k](i, j) == rA[k](i, j);
            c.expect("operands-unchanged", ok, cat("matrix operand changed by ", op), op);
        }
        for (size_t k = 0; k < v.size(); k++) {
            bool ok = v[k].SIZE() == (int)rv[k].size();
            for (size_t i = 0; ok && i < rv[k].size(); i++) ok = (ld)v[k]((int)i) == rv[k][i];
            c.expect("operands-unchanged", ok, cat("vector operand changed by ", op), op);
        }
    }
    RM modelM(Matrix<T>& m) { RM r(m.ROW(), m.COL()); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r(i, j) = m(i, j); return r; }
    RV modelV(Vector<T>& m) { RV r(m.SIZE()); for (size_t i = 0; i < r.size(); i++) r[i] = m((int)i); return r; }
    T val() { return c.rng.chance(0.08) ? (T)(c.rng.sgn() * c.rng.logu(1e-18, 1e-5)) : (T)c.rng.val(); }
    Matrix<T> newM(int r, int k) {
        Matrix<T> m(r, k);
        bool z = true;
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) z = z && m(i, j) == T();
        c.expect("zero-initialised", z, cat("new ", r, "x", k, " matrix is not zero"));
        bool sparse = c.rng.chance(0.2);
        for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { m(i, j) = sparse && c.rng.chance(0.6) ? T() : val(); c.input((double)m(i, j)); }
        return m;
    }
    Vector<T> newV(int n) {
        std::vector<T> s(n);
        for (auto& x : s) { x = val(); c.input((double)x); }
        int how = c.rng.range(0, 3);
        if (how == 0) { Vector<T> w(s); bool ok = w.SIZE() == n; for (int i = 0; ok && i < n; i++) ok = w(i) == s[i]; c.expect("from-std-vector", ok, cat("size ", n)); return w; }
        if (how == 1 && n == 3) { Vector<T> w = {s[0], s[1], s[2]}; c.expect("from-list", w.SIZE() == 3 && w(0) == s[0] && w(1) == s[1] && w(2) == s[2]); return w; }
        if (how == 1 && n == 2) { Vector<T> w = {s[0], s[1]}; c.expect("from-list", w.SIZE() == 2 && w(0) == s[0] && w(1) == s[1]); return w; }
        if (how == 1 && n == 1) { Vector<T> w = {s[0]}; c.expect("from-list", w.SIZE() == 1 && w(0) == s[0]); return w; }
        if (how == 1 && n == 6) { Vector<T> w = {s[0], s[1], s[2], s[3], s[4], s[5]}; bool ok = w.SIZE() == 6; for (int i = 0; ok && i < 6; i++) ok = w(i) == s[i]; c.expect("from-list", ok); return w; }
        if (how == 1 && n == 4) { Vector<T> w({s[0], s[1], s[2], s[3]}); bool ok = w.SIZE() == 4; for (int i = 0; ok && i < 4; i++) ok = w(i) == s[i]; c.expect("from-list", ok); return w; }
        Vector<T> w(n);
        bool z = true;
        for (int i = 0; i < n; i++) z = z && w(i) == T();
        c.expect("zero-initialised", z, cat("new vector of ", n, " is not zero"));
        for (int i = 0; i < n; i++) w(i) = s[i];
        return w;
    }
    ld nz() { ld x; do x = (T)c.rng.val(); while (x == 0); return x; }
    // exact matrix product with the magnitude of its terms
    static RM mul(const RM& a, const RM& b) { return a * b; }
    void keepM(Matrix<T>& m) {   // the result becomes a live object: replaces a random pool member through operator=
        if (m.ROW() * m.COL() == 0) return;
        ld big = 0; for (int i = 0; i < m.ROW(); i++) for (int j = 0; j < m.COL(); j++) big = std::max(big, fabsl((ld)m(i, j)));
        if (!(big < 1e6) || m.ROW() > 160 || m.COL() > 160) return;
        int k = c.rng.range(0, (int)A.size() - 1);
        A[k] = m;
        rA[k] = modelM(m);
    }
    void keepV(Vector<T>& m) {
        if (m.SIZE() == 0) return;
        ld big = 0; for (int i = 0; i < m.SIZE(); i++) big = std::max(big, fabsl((ld)m(i)));
        if (!(big < 1e6) || m.SIZE() > 1300) return;
        int k = c.rng.range(0, (int)v.size() - 1);
        v[k] = m;
        rv[k] = modelV(m);
    }
    int dim(bool big) { return big ? c.rng.range(1, 140) : c.rng.chance(0.1) ? c.rng.range(8, 20) : c.rng.range(1, 7); }
    void init(int nm, int nv, bool big) {
        for (int i = 0; i < nm; i++) { Matrix<T> m = newM(dim(big), dim(big)); A.push_back(m); rA.push_back(modelM(m)); }
        for (int i = 0; i < nv; i++) { Vector<T> m = newV(big && c.rng.chance(0.3) ? c.rng.range(140, 1300) : dim(big)); v.push_back(m); rv.push_back(modelV(m)); }
    }
    int conformM(int r, int k) {  // a pool index whose shape is r x k (made if there is none); -1: any
        std::vector<int> o;
        for (size_t i = 0; i < A.size(); i++) if ((r < 0 || rA[i].r == r) && (k < 0 || rA[i].c == k)) o.push_back((int)i);
        if (!o.empty() && c.rng.chance(0.8)) return c.rng.pick(o);
        Matrix<T> m = newM(r < 0 ? c.rng.range(1, 7) : r, k < 0 ? c.rng.range(1, 7) : k);
        A.push_back(m); rA.push_back(modelM(m));
        return (int)A.size() - 1;
    }
    int conformV(int n) {
        std::vector<int> o;
        for (size_t i = 0; i < v.size(); i++) if (n < 0 || (int)rv[i].size() == n) o.push_back((int)i);
        if (!o.empty() && c.rng.chance(0.8)) return c.rng.pick(o);
        Vector<T> m = newV(n < 0 ? c.rng.range(1, 7) : n);
        v.push_back(m); rv.push_back(modelV(m));
        return (int)v.size() - 1;
    }
    void trim() { while (A.size() > 8) { A.erase(A.begin()); rA.erase(rA.begin()); } while (v.size() > 8) { v.erase(v.begin()); rv.erase(rv.begin()); } }

    void step() {
        trim();
        int op = c.rng.range(0, 47);
        int i = c.rng.range(0, (int)A.size() - 1), p = c.rng.range(0, (int)v.size() - 1);
        T s = val();
        c.count("operations");
        switch (op) {
        case 0: { int j = conformM(rA[i].r, rA[i].c); Matrix<T> r = A[i] + A[j]; seeM("add", r, rA[i] + rA[j], ab(rA[i]) + ab(rA[j])); keepM(r); seeall("add"); break; }
        case 1: { int j = conformM(rA[i].r, rA[i].c); Matrix<T> r = A[i] - A[j]; seeM("subtract", r, rA[i] - rA[j], ab(rA[i]) + ab(rA[j])); seeall("subtract"); keepM(r); break; }
        case 2: { Matrix<T> r = -A[i]; seeM("negate", r, (-1.0L) * rA[i], ab(rA[i])); seeall("negate"); keepM(r); break; }
        case 3: case 4: { int j = conformM(rA[i].c, -1); Matrix<T> r = A[i] * A[j]; seeM("matmul", r, rA[i] * rA[j], ab(rA[i]) * ab(rA[j])); seeall("matmul"); keepM(r); break; }
        case 5: case 6: { int q = conformV(rA[i].c); Vector<T> r = A[i] * v[q]; seeV("matvec", r, rA[i] * rv[q], ab(rA[i]) * ab(rv[q])); seeall("matvec"); keepV(r); break; }
        case 7: { Matrix<T> r = A[i] * s; seeM("scale-right", r, (ld)s * rA[i], ab((ld)s * rA[i])); seeall("scale-right"); keepM(r); break; }
        case 8: { Matrix<T> r = s * A[i]; seeM("scale-left", r, (ld)s * rA[i], ab((ld)s * rA[i])); seeall("scale-left"); keepM(r); break; }
        case 9: { T d = (T)nz(); Matrix<T> r = A[i] / d; seeM("divide", r, (1 / (ld)d) * rA[i], ab((1 / (ld)d) * rA[i])); seeall("divide"); keepM(r); break; }
        case 10: { int j = conformM(rA[i].r, rA[i].c); if (c.rng.chance(0.2)) j = i; RM w = rA[i] + rA[j], g = ab(rA[i]) + ab(rA[j]); Matrix<T>& ret = (A[i] += A[j]); c.expect("returns-self", &ret == &A[i]); seeM("add-assign", A[i], w, g); rA[i] = modelM(A[i]); seeall("add-assign"); break; }
        case 11: { int j = conformM(rA[i].r, rA[i].c); if (c.rng.chance(0.2)) j = i; RM w = rA[i] - rA[j], g = ab(rA[i]) + ab(rA[j]); Matrix<T>& ret = (A[i] -= A[j]); c.expect("returns-self", &ret == &A[i]); seeM("subtract-assign", A[i], w, g); rA[i] = modelM(A[i]); seeall("subtract-assign"); break; }
        case 12: { RM w = (ld)s * rA[i]; Matrix<T>& ret = (A[i] *= s); c.expect("returns-self", &ret == &A[i]); seeM("scale-assign", A[i], w, ab(w)); rA[i] = modelM(A[i]); seeall("scale-assign"); break; }
        case 13: { T d = (T)nz(); RM w = (1 / (ld)d) * rA[i]; Matrix<T>& ret = (A[i] /= d); c.expect("returns-self", &ret == &A[i]); seeM("divide-assign", A[i], w, ab(w)); rA[i] = modelM(A[i]); seeall("divide-assign"); break; }
        case 14: { Matrix<T> r = A[i].Transpose(); seeM("transpose", r, rA[i].T(), RM(rA[i].c, rA[i].r)); seeall("transpose"); keepM(r); break; }
        case 15: case 16: {
            if (rA[i].r < 2 || rA[i].c < 2) break;
            int a = c.rng.range(0, rA[i].r - 1), b = c.rng.range(0, rA[i].c - 1);
            RM w(rA[i].r - 1, rA[i].c - 1);
            for (int x = 0; x < w.r; x++) for (int y = 0; y < w.c; y++) w(x, y) = rA[i](x + (x >= a), y + (y >= b));
            Matrix<T> r = A[i].Cofactor(a, b); seeM("minor", r, w, RM(w.r, w.c)); seeall("minor"); keepM(r); break; }
        case 17: { int j = c.rng.chance(0.2) ? i : conformM(-1, rA[i].c); RM w(rA[i].r + rA[j].r, rA[i].c);
            for (int x = 0; x < w.r; x++) for (int y = 0; y < w.c; y++) w(x, y) = x < rA[i].r ? rA[i](x, y) : rA[j](x - rA[i].r, y);
            Matrix<T> r = A[i].Vstack(A[j]); seeM("matrix-vstack", r, w, RM(w.r, w.c)); seeall("matrix-vstack"); keepM(r); break; }
        case 18: { int j = c.rng.chance(0.2) ? i : conformM(rA[i].r, -1); RM w(rA[i].r, rA[i].c + rA[j].c);
            for (int x = 0; x < w.r; x++) for (int y = 0; y < w.c; y++) w(x, y) = y < rA[i].c ? rA[i](x, y) : rA[j](x, y - rA[i].c);
            Matrix<T> r = A[i].Hstack(A[j]); seeM("matrix-hstack", r, w, RM(w.r, w.c)); seeall("matrix-hstack"); keepM(r); break; }
        case 19: case 20: { int a = c.rng.range(0, rA[i].r - 1), b = c.rng.range(0, rA[i].c - 1), h = c.rng.range(1, rA[i].r - a), k = c.rng.range(1, rA[i].c - b);
            if (c.rng.chance(0.3)) { a = b = 0; h = rA[i].r; k = rA[i].c; }
            RM w(h, k); for (int x = 0; x < h; x++) for (int y = 0; y < k; y++) w(x, y) = rA[i](a + x, b + y);
            Matrix<T> r = A[i].Block(a, b, h, k); seeM("block", r, w, RM(h, k)); seeall("block"); keepM(r); break; }
        case 21: { int n = c.rng.range(1, 9); Matrix<T> r = Identity<T>(n); seeM("identity", r, RM::id(n), RM(n, n)); keepM(r); break; }
        case 22: { if (rv[p].size() > 300) break; RM w((int)rv[p].size(), (int)rv[p].size()); for (int x = 0; x < w.r; x++) w(x, x) = rv[p][x]; Matrix<T> r = Diagonal(v[p]); seeM("diagonal", r, w, RM(w.r, w.c)); seeall("diagonal"); keepM(r); break; }
        case 23: { RM w((int)rv[p].size(), 1); for (int x = 0; x < w.r; x++) w(x, 0) = rv[p][x]; Matrix<T> r(v[p]); seeM("column-from-vector", r, w, RM(w.r, 1)); seeall("column-from-vector"); keepM(r); break; }
        case 24: { int j = conformM(-1, 1); RV w(rA[j].r); for (int x = 0; x < rA[j].r; x++) w[x] = rA[j](x, 0); Vector<T> r(A[j]); seeV("vector-from-column", r, w, RV(w.size())); seeall("vector-from-column"); keepV(r); break; }
        case 25: { Matrix<T> m(A[i]); seeM("copy", m, rA[i], RM(rA[i].r, rA[i].c)); m(0, 0) += 1; if (m.ROW() * m.COL() > 1) m(m.ROW() - 1, m.COL() - 1) -= 3; seeall("copy-then-write"); break; }
        case 26: { int j = c.rng.chance(0.3) ? i : c.rng.range(0, (int)A.size() - 1); Matrix<T>& ret = (A[i] = A[j]); c.expect("returns-self", &ret == &A[i]); rA[i] = rA[j]; seeall("assign");
            T old = A[i](0, 0); A[i](0, 0) = old + 1; rA[i](0, 0) = (T)(old + 1); if (i == j) rA[j] = rA[i]; seeall("assign-then-write"); break; }
        case 27: { Matrix<T> m = A[i]; m = m.Transpose(); m = m * 2; Matrix<T> r = m; r = r; seeM("chain", r, 2 * rA[i].T(), ab(2 * rA[i].T())); seeall("chain"); break; }
        case 28: { int q = conformV((int)rv[p].size()); if (c.rng.chance(0.2)) q = p; RV w = rv[p], g = ab(rv[p]); for (size_t x = 0; x < w.size(); x++) { w[x] += rv[q][x]; g[x] += fabsl(rv[q][x]); } Vector<T> r = v[p] + v[q]; seeV("vector-add", r, w, g); seeall("vector-add"); keepV(r); break; }
        case 29: { int q = conformV((int)rv[p].size()); if (c.rng.chance(0.2)) q = p; RV w = rv[p], g = ab(rv[p]); for (size_t x = 0; x < w.size(); x++) { w[x] -= rv[q][x]; g[x] += fabsl(rv[q][x]); } Vector<T> r = v[p] - v[q]; seeV("vector-subtract", r, w, g); seeall("vector-subtract"); keepV(r); break; }
        case 30: { int q = conformV((int)rv[p].size()); if (c.rng.chance(0.3)) q = p; RV w = rv[p], g = ab(rv[p]); for (size_t x = 0; x < w.size(); x++) { w[x] += rv[q][x]; g[x] += fabsl(rv[q][x]); } Vector<T>& ret = (v[p] += v[q]); c.expect("returns-self", &ret == &v[p]); seeV("vector-add-assign", v[p], w, g); rv[p] = modelV(v[p]); seeall("vector-add-assign"); break; }
        case 31: { int q = conformV((int)rv[p].size()); if (c.rng.chance(0.3)) q = p; RV w = rv[p], g = ab(rv[p]); for (size_t x = 0; x < w.size(); x++) { w[x] -= rv[q][x]; g[x] += fabsl(rv[q][x]); } Vector<T>& ret = (v[p] -= v[q]); c.expect("returns-self", &ret == &v[p]); seeV("vector-subtract-assign", v[p], w, g); rv[p] = modelV(v[p]); seeall("vector-subtract-assign"); break; }
        case 32: { RV w = rv[p]; for (auto& x : w) x *= s; Vector<T>& ret = (v[p] *= s); c.expect("returns-self", &ret == &v[p]); seeV("vector-scale-assign", v[p], w, ab(w)); rv[p] = modelV(v[p]); seeall("vector-scale-assign"); break; }
        case 33: { T d = (T)nz(); RV w = rv[p]; for (auto& x : w) x /= d; Vector<T>& ret = (v[p] /= d); c.expect("returns-self", &ret == &v[p]); seeV("vector-divide-assign", v[p], w, ab(w)); rv[p] = modelV(v[p]); seeall("vector-divide-assign"); break; }
        case 34: { RV w = rv[p]; for (auto& x : w) x = -x; Vector<T> r = -v[p]; seeV("vector-negate", r, w, ab(w)); seeall("vector-negate"); keepV(r); break; }
        case 35: { int q = conformV((int)rv[p].size()); if (c.rng.chance(0.2)) q = p; ld w = 0, g = 0; for (size_t x = 0; x < rv[p].size(); x++) { w += rv[p][x] * rv[q][x]; g += fabsl(rv[p][x] * rv[q][x]); } T r = v[p] * v[q]; c.near("dot", r, w, eps * g + tiny, cat("dot of ", rv[p].size())); seeall("dot"); break; }
        case 36: { int q = c.rng.range(0, (int)v.size() - 1); if (rv[p].size() * rv[q].size() > 100000) break; RM w((int)rv[p].size(), (int)rv[q].size()); for (int x = 0; x < w.r; x++) for (int y = 0; y < w.c; y++) w(x, y) = rv[p][x] * rv[q][y]; Matrix<T> t = v[q].Transpose(); Matrix<T> r = v[p] * t; seeM("outer", r, w, ab(w)); seeall("outer"); keepM(r); break; }
        case 37: { RV w = rv[p]; for (auto& x : w) x *= s; Vector<T> r = v[p] * s; seeV("vector-scale", r, w, ab(w)); seeall("vector-scale"); keepV(r); break; }
        case 38: { RV w = rv[p]; for (auto& x : w) x *= s; Vector<T> r = s * v[p]; seeV("vector-scale-left", r, w, ab(w)); seeall("vector-scale-left"); keepV(r); break; }
        case 39: { T d = (T)nz(); RV w = rv[p]; for (auto& x : w) x /= d; Vector<T> r = v[p] / d; seeV("vector-divide", r, w, ab(w)); seeall("vector-divide"); keepV(r); break; }
        case 40: { ld w = 0; for (auto x : rv[p]) w += x * x; w = sqrtl(w); T r = v[p].Norm(); c.near("norm", r, w, eps * w + (sizeof(T) == 4 ? 1e-17L : 1e-140L), "norm"); seeall("norm");
            if (w > 1e-3) { RV u = rv[p]; for (auto& x : u) x /= w; Vector<T> n = v[p].Normal(); seeV("normalise", n, u, RV(u.size(), 1)); seeall("normalise"); 
                // length and direction do not depend on the scale of the vector
                ld f = powl(10.0L, c.rng.range(sizeof(T) == 4 ? -8 : -70, sizeof(T) == 4 ? 8 : 70)); Vector<T> q(v[p]); ld e = 0; for (int x = 0; x < q.SIZE(); x++) { q(x) = (T)(f * rv[p][x]); e += (ld)q(x) * q(x); } e = sqrtl(e);
                T qn = q.Norm(); c.near("norm-scaled", qn, e, eps * e, "norm of a scaled vector"); for (int x = 0; x < q.SIZE(); x++) u[x] = (ld)q(x) / e; n = q.Normal(); seeV("normalise-scaled", n, u, RV(u.size(), 1)); } break; }
        case 41: { RM w(1, (int)rv[p].size()); for (int y = 0; y < w.c; y++) w(0, y) = rv[p][y]; Matrix<T> r = v[p].Transpose(); seeM("vector-transpose", r, w, RM(1, w.c)); seeall("vector-transpose"); keepM(r); break; }
        case 42: { int q = c.rng.range(0, (int)v.size() - 1); RV w = rv[p]; w.insert(w.end(), rv[q].begin(), rv[q].end()); Vector<T> r = v[p].Vstack(v[q]); seeV("vector-vstack", r, w, RV(w.size())); seeall("vector-vstack"); if (r.SIZE() < 200) keepV(r); break; }
        case 43: { int n = (int)rv[p].size(), a = c.rng.range(0, n - 1), b = c.rng.range(a + 1, n); RV w(rv[p].begin() + a, rv[p].begin() + b); Vector<T> r = v[p].Segment(a, b); seeV("segment", r, w, RV(w.size())); seeall("segment"); keepV(r); break; }
        case 44: { int a = conformV(3), b = conformV(3); if (c.rng.chance(0.1)) b = a; RV x = rv[a], y = rv[b]; RV w = {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]}; RV g = {fabsl(x[1] * y[2]) + fabsl(x[2] * y[1]), fabsl(x[2] * y[0]) + fabsl(x[0] * y[2]), fabsl(x[0] * y[1]) + fabsl(x[1] * y[0])};
            Vector<T> r = VectorProduct(v[a], v[b]); seeV("cross", r, w, g); seeall("cross"); keepV(r); break; }
        case 45: { Vector<T> m(v[p]); seeV("vector-copy", m, rv[p], RV(rv[p].size())); m(m.SIZE() - 1) += 2; seeall("vector-copy-then-write"); int q = c.rng.chance(0.3) ? p : c.rng.range(0, (int)v.size() - 1); Vector<T>& ret = (v[p] = v[q]); c.expect("returns-self", &ret == &v[p]); rv[p] = rv[q]; seeall("vector-assign"); T o = v[p](0); v[p](0) = o + 1; rv[p][0] = (T)(o + 1); if (p == q) rv[q] = rv[p]; seeall("vector-assign-then-write"); break; }
        case 46: { std::ostringstream o; o << A[i]; std::istringstream in(o.str()); bool ok = true; std::string line; int rows = 0; while (std::getline(in, line)) { std::istringstream l(line); double x; int k = 0; while (l >> x) { if (rows < rA[i].r && k < rA[i].c) ok = ok && fabsl(x - rA[i](rows, k)) <= 1e-5L * fabsl(rA[i](rows, k)); k++; } ok = ok && k == rA[i].c; rows++; } c.expect("print", ok && rows == rA[i].r, "printed matrix differs: " + o.str()); seeall("print"); break; }
        case 47: { std::ostringstream o; o << v[p]; std::istringstream in(o.str()); bool ok = true; double x; size_t k = 0; while (in >> x) { if (k < rv[p].size()) ok = ok && fabsl(x - rv[p][k]) <= 1e-5L * fabsl(rv[p][k]); k++; } c.expect("vector-print", ok && k == rv[p].size(), "printed vector differs: " + o.str()); seeall("vector-print"); break; }
        }
    }
};

template <class T> void history(Case& c, bool big) {
    World<T> w(c);
    w.init(big ? 3 : 5, big ? 3 : 5, big);
    int n = big ? 25 : c.rng.range(20, 60);
    c.describe(sizeof(T) == 4 ? "float" : "double", " history of ", n, " operations over matrices up to ", big ? 140 : 20);
    for (int i = 0; i < n; i++) w.step();
}

// empty objects are values too: default construction, assignment from and to them, stacking onto them
void empties(Case& c) {
    c.describe("default-constructed and zero-size objects, growth by assignment");
    int n = c.rng.range(1, 6), k = c.rng.range(1, 6);
    c.input(n); c.input(k);
    std::vector<double> s(n); for (auto& x : s) x = c.rng.val();
    Vector<double> a, b, e;
    c.expect("empty-size", a.SIZE() == 0, "default vector is not empty");
    Vector<double> w(s);
    a = w; b = a; a = e;
    c.expect("empty-size", a.SIZE() == 0, "vector assigned from an empty one is not empty");
    bool ok = b.SIZE() == n; for (int i = 0; ok && i < n; i++) ok = b(i) == s[i];
    c.expect("assign-into-empty", ok, "vector assigned into an empty one lost values");
    Vector<double> g = e.Vstack(w), g2 = w.Vstack(e);
    ok = g.SIZE() == n && g2.SIZE() == n; for (int i = 0; ok && i < n; i++) ok = g(i) == s[i] && g2(i) == s[i];
    c.expect("stack-empty", ok, "stacking with an empty vector lost values");
    a = b; a = a;
    ok = a.SIZE() == n; for (int i = 0; ok && i < n; i++) ok = a(i) == s[i];
    c.expect("assign-into-empty", ok, "reassigning an emptied vector lost values");
    Matrix<double> M, Z(0, k), Q;
    c.expect("empty-size", M.ROW() == 0 && M.COL() == 0 && Z.ROW() == 0 && Z.COL() == k, "empty matrix shape");
    Matrix<double> R(1, k); for (int j = 0; j < k; j++) R(0, j) = c.rng.val();
    int rows = c.rng.range(1, 5);
    for (int i = 0; i < rows; i++) Z = Z.Vstack(R);
    ok = Z.ROW() == rows && Z.COL() == k; for (int i = 0; ok && i < rows; i++) for (int j = 0; j < k; j++) ok = ok && Z(i, j) == R(0, j);
    c.expect("stack-empty", ok, "rows stacked onto an empty matrix are wrong");
    M = Z; Q = M; M = Matrix<double>(); M = Q;
    ok = M.ROW() == rows && M.COL() == k; for (int i = 0; ok && i < rows; i++) for (int j = 0; j < k; j++) ok = ok && M(i, j) == R(0, j);
    c.expect("assign-into-empty", ok, "matrix assigned into an empty one is wrong");
    std::vector<Vector<double>> pool(3);
    for (auto& x : pool) x = w;
    pool.resize(7); pool[5] = w; pool.erase(pool.begin());
    c.expect("container-of-vectors", pool[0].SIZE() == n && pool[4].SIZE() == n && pool[5].SIZE() == 0, "vectors held in a container");
}

// ------------------------------------------------------------------ P03
ld perm(const RM& A) {   // permanent of |A|
    if (A.r == 0) return 1;
    ld s = 0;
    std::vector<int> cols(A.r);
    for (int i = 0; i < A.r; i++) cols[i] = i;
    std::function<ld(int, unsigned)> rec = [&](int r, unsigned used) -> ld {
        if (r == A.r) return 1;
        ld t = 0;
        for (int j = 0; j < A.r; j++) if (!(used >> j & 1) && A(r, j) != 0) t += fabsl(A(r, j)) * rec(r + 1, used | 1u << j);
        return t;
    };
    return rec(0, 0);
}
RM gen(Case& c, int n) {
    Rng& g = c.rng;
    int kind = g.range(0, 13);
    c.describe("n=", n, " kind=", kind);
    RM A(n, n);
    auto fill = [&]() { for (auto& x : A.a) x = (double)g.uni(-2, 2); };
    std::vector<int> pr(n); for (int i = 0; i < n; i++) pr[i] = i;
    switch (kind) {
    case 0: case 1: fill(); break;
    case 2: fill(); for (int i = 0; i < n; i++) A(i, i) = 0; if (n == 1) A(0, 0) = -0.7; break;                              // zero diagonal
    case 3: g.shuffle(pr); for (int i = 0; i < n; i++) A(i, pr[i]) = g.chance(0.5) ? g.sgn() : (double)(g.sgn() * g.uni(0.5, 2)); break;                     // (signed, scaled) permutation
    case 4: fill(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j > i) A(i, j) = 0; for (int i = 0; i < n; i++) A(i, i) = g.sgn() * g.uni(0.5, 2); g.shuffle(pr); { RM B = A; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = B(pr[i], j); } break;   // row-permuted triangular
    case 5: fill(); A(0, 0) = (double)1e-15; if (n == 1) A(0, 0) = 3; break;                                                     // tiny leading pivot
    case 6: { fill(); double s = g.chance(0.3) ? 1e-7 : g.chance(0.4) ? 1e6 : g.chance(0.5) ? 1e-28 : 1e24; for (auto& x : A.a) x = (double)(x * s); break; }                // uniform scale
    case 7: fill(); for (int i = 0; i < n; i++) { double s = g.logu(1e-3, 1e3); for (int j = 0; j < n; j++) A(i, j) = (double)(A(i, j) * s); } break; // row scales
    case 8: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = g.range(-3, 3); break;                            // small integers
    case 9: fill(); { RM B = A; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { ld t = 0; for (int k = 0; k < n; k++) t += B(i, k) * B(j, k); A(i, j) = (double)t; } for (int i = 0; i < n; i++) A(i, i) += 0.5; } break; // SPD
    case 10: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = (abs(i - j) <= 1) ? g.uni(-2, 2) : 0.0; break; // tridiagonal
    case 12: fill(); A(0, 0) = n == 1 ? 3.0 : (double)(g.sgn() * g.logu(1e-16, 1e-2)); break;                                    // small leading pivot
    case 13: { fill(); if (n < 3) break; int k = g.range(1, n - 2); RM B(k, k); std::vector<ld> r(k); for (int i = 0; i < k; i++) { r[i] = A(i, k); for (int j = 0; j < k; j++) B(i, j) = A(i, j); } if (fabsl(rdet(B)) < 1e-6L) break; auto w = rsolve(B, r); ld t = 0; for (int j = 0; j < k; j++) t += A(k, j) * w[j]; A(k, k) = (double)(t + g.sgn() * g.logu(1e-15, 1e-2)); break; }   // small pivot after some steps without exchange
    case 11: fill(); if (n >= 2) { int r = g.range(0, n - 2); for (int i = r; i < n - 1; i++) A(i, r) = 0; A(n - 1, r) = 1.5; } break; // pivot only in the last row
    }
    for (auto& x : A.a) x = (double)x;
    c.inputs(A.a);
    return A;
}
ld norm1(const RM& A) { ld m = 0; for (int j = 0; j < A.c; j++) { ld s = 0; for (int i = 0; i < A.r; i++) s += fabsl(A(i, j)); m = std::max(m, s); } return m; }
Matrix<double> toM(const RM& A) { Matrix<double> m(A.r, A.c); for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) m(i, j) = (double)A(i, j); return m; }

// well enough conditioned?  row scaling does not count against a matrix
bool good(const RM& A, RM& inv, ld& cond) {
    ld d = rdet(A);
    if (d == 0) return false;
    inv = rinv(A);
    cond = norm1(A) * norm1(inv);
    return cond < 1e9;
}

void detinv(Case& c) {
    int n = c.rng.chance(0.06) ? 8 : c.rng.chance(0.15) ? 7 : c.rng.range(1, 6);
    RM A, inv; ld cond = 0;
    for (int t = 0; t < 20; t++) { A = gen(c, n); if (good(A, inv, cond)) break; cond = 0; }
    if (cond == 0) { c.boring(); return; }
    Matrix<double> M = toM(A), M0 = M;
    ld det = rdet(A), pm = perm(A);
    // scale of the determinant for backward-stable algorithms: |det| * sum|a_ij inv_ji|
    ld sens = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sens += norm1(A) * fabsl(inv(j, i));
    ld dt = 1e-12L * (pm + fabsl(det) * sens);
    c.near("determinant", M.Determinant(), det, dt, cat("determinant n=", n));
    if (n <= 7) {
        Matrix<double> I = M.Inverse();
        if (c.expect("inverse-shape", I.ROW() == n && I.COL() == n)) {
            ld wi = inv.maxabs();
            ld rel = 1e-12L * (cond + 10 + pm / fabsl(det));
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
                RM C(n - 1, n - 1);
                for (int x = 0; x < n - 1; x++) for (int y = 0; y < n - 1; y++) C(x, y) = A(x + (x >= j), y + (y >= i));
                ld tol = 1e-12L * perm(C) / fabsl(det) + rel * fabsl(inv(i, j)) + 1e-12L * cond * wi;
                c.near("inverse", I(i, j), inv(i, j), tol, cat("inverse entry ", i, ",", j, " n=", n));
            }
            if (cond < 1e5 && n <= 5) {   // the law itself
                Matrix<double> E = M * I, E2 = I * M;
                ld scale = 1e-9L * (1 + cond) * (1 + pm / fabsl(det));
                for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { c.near("inverse-law", E(i, j), i == j, scale, "A*inverse(A)"); c.near("inverse-law", E2(i, j), i == j, scale, "inverse(A)*A"); }
            }
        }
    }
    bool same = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same = same && M(i, j) == M0(i, j);
    c.expect("operand-unchanged", same, "determinant/inverse changed the matrix");
    if (n >= 2 && n <= 6) {  // exchange of two rows flips the sign; scaling one row scales
        int a = c.rng.range(0, n - 1), b = (a + c.rng.range(1, n - 1)) % n;
        Matrix<double> S = M; for (int j = 0; j < n; j++) std::swap(S(a, j), S(b, j));
        c.near("determinant-antisymmetry", S.Determinant(), -det, dt, "determinant after a row exchange");
        Matrix<double> Tt = M.Transpose();
        c.near("determinant-transpose", Tt.Determinant(), det, dt, "determinant of the transpose");
        Matrix<double> D0 = M; for (int j = 0; j < n; j++) D0(a, j) = D0(b, j);
        c.near("determinant-singular", D0.Determinant(), 0, 1e-12L * perm([&] { RM r(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = D0(i, j); return r; }()), "determinant with two equal rows");
    }
}

void lu(Case& c) {
    int n = c.rng.chance(0.12) ? c.rng.range(20, 70) : c.rng.range(1, 14);
    RM A, inv; ld cond = 0;
    for (int t = 0; t < 20; t++) { A = gen(c, n); if (good(A, inv, cond)) break; cond = 0; }
    if (cond == 0) { c.boring(); return; }
    ld grow = 1; { RM U = A; ld m0 = U.maxabs(); for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(U(i, k)) > fabsl(U(p, k))) p = i; for (int j = 0; j < n; j++) std::swap(U(k, j), U(p, j)); for (int i = k + 1; i < n; i++) { ld f = U(i, k) / U(k, k); for (int j = k; j < n; j++) { U(i, j) -= f * U(k, j); grow = std::max(grow, fabsl(U(i, j)) / m0); } } } }   // growth with row exchanges
    Matrix<double> F = toM(A);
    std::vector<int> piv(n);
    if (c.rng.chance(0.3)) for (auto& x : piv) x = c.rng.range(-5, 5);     // contents on entry do not matter
    LU(F, piv);
    std::vector<int> sp = piv; std::sort(sp.begin(), sp.end());
    bool isperm = true; for (int i = 0; i < n; i++) isperm = isperm && sp[i] == i;
    c.expect("pivot-is-permutation", isperm, "pivot vector is not a permutation");
    // factors: P A = L U
    if (isperm) {
        ld worst = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            ld s = 0; for (int k = 0; k <= std::min(i, j); k++) s += (k == i ? 1.0L : (ld)F(i, k)) * F(k, j);
            worst = std::max(worst, fabsl(s - A(piv[i], j)));
        }
        c.near("factors-multiply-back", worst, 0, 1e-15L * grow * (n + 3) * norm1(A), "P*A - L*U");
    }
    Matrix<double> F0 = F;
    int nb = c.rng.range(1, 4);
    for (int b = 0; b < nb; b++) {
        std::vector<ld> rhs(n);
        int kind = c.rng.range(0, 3);
        for (int i = 0; i < n; i++) rhs[i] = kind == 0 ? (i == b % n) : kind == 1 ? (double)(c.rng.val() * 1e-5) : (double)c.rng.uni(-3, 3);
        std::vector<ld> x = rsolve(A, rhs);
        Vector<double> B(n); for (int i = 0; i < n; i++) B(i) = (double)rhs[i];
        SolveLU(F, B, piv);
        ld xm = 0, bm = 0; for (int i = 0; i < n; i++) { xm = std::max(xm, fabsl(x[i])); bm = std::max(bm, fabsl(rhs[i])); }
        for (int i = 0; i < n; i++) {
            ld r = -rhs[i], mag = fabsl(rhs[i]); for (int j = 0; j < n; j++) { r += A(i, j) * B(j); mag += fabsl(A(i, j) * B(j)); }
            c.near("lu-residual", r, 0, 1e-15L * grow * (n + 3) * (norm1(A) * xm + bm), cat("residual row ", i, " n=", n));
            c.near("lu-solution", B(i), x[i], 2e-15L * grow * (n + 3) * (cond + 10) * (xm + 1e-30L), cat("solution entry ", i, " n=", n));
        }
    }
    bool same = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same = same && F(i, j) == F0(i, j);
    c.expect("factors-reusable", same, "solving changed the factors");
}

int main(int argc, char** argv) {
    parse(argc, argv, "d_dense");
    component("P02.history", 2400, 60000, [](Case& c) { history<double>(c, false); });
    component("P02.history-float", 300, 6000, [](Case& c) { history<float>(c, false); });
    component("P02.history-big", 48, 1500, [](Case& c) { history<double>(c, true); });
    component("P02.empties", 60, 600, [](Case& c) { empties(c); });
    component("P03.detinv", 2500, 60000, [](Case& c) { detinv(c); });
    component("P03.lu", 3000, 60000, [](Case& c) { lu(c); });
    return finish();
}
