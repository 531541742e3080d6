// Workload / monitor framework shared by every driver.
//
// A driver registers components.  A component is a generator of cases: case k of component c is fully
// determined by (VERIF_SEED, c, k), so every violation can be replayed with --only c --case k.
// While a case runs the real library code, monitors (Case::expect / Case::near) observe its results.
#pragma once
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t hashs(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) {
        uint64_t z = seed;
        for (auto& v : s) {
            z += 0x9e3779b97f4a7c15ULL;
            uint64_t x = z;
            x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
            x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
            v = x ^ (x >> 31);
        }
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }  // inclusive
    bool chance(double p) { return u01() < p; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double sgn() { return chance(0.5) ? 1.0 : -1.0; }
    // a value of varied kind: small integers, zeros, ordinary reals, large and small magnitudes
    double val() {
        switch (range(0, 9)) {
        case 0: return 0.0;
        case 1: return range(-3, 3);
        case 2: return sgn() * logu(1e-3, 1e3);
        case 3: return range(-9, 9) * 0.5;
        default: return uni(-2, 2);
        }
    }
    template <class V> void shuffle(V& v) {
        for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[range(0, i)]);
    }
    template <class V> typename V::value_type pick(const V& v) { return v[range(0, (int)v.size() - 1)]; }
};

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
template <class... A> std::string cat(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{(o << a, 0)...};
    return o.str();
}

struct Stat { long n = 0, bad = 0; double worst = 0; };   // worst = largest err/tol seen
struct Violation { std::string component, monitor, sig, detail; long kase; };

struct Run {
    std::string driver, out, tier = "quick", only, statusfile;
    uint64_t seed = 1;
    long kase = -1;
    double scale = 1.0;
    long maxviol = 40;
    long evaluations = 0, nontrivial = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, Stat> monitors;
    std::map<std::string, long> counters;
    std::map<std::string, long> percomp;
    std::vector<std::string> samples;
    std::map<std::string, int> samplesper;
    std::vector<Violation> violations;
    std::map<std::string, long> violkeys;
    char* status = nullptr;     // shared with the runner: what is being executed right now
    long shard = 0, shards = 1;
    std::string scratch = "/tmp";
    int casecpu = 40;           // CPU seconds one case may take before it counts as non-terminating
    bool thorough() const { return tier == "thorough"; }
};
inline Run& run() { static Run r; return r; }

inline void setstatus(const std::string& s) {
    Run& r = run();
    if (!r.status) return;
    size_t n = std::min<size_t>(s.size(), 4000);
    memcpy(r.status, s.data(), n);
    r.status[n] = 0;
}

struct Case {
    Rng rng;
    std::string component, desc;
    long idx;
    uint64_t h;
    bool trivial = false;
    std::ostringstream captured;      // everything the library printed to std::cout
    Case(uint64_t seed, const std::string& c, long i) : rng(mix(mix(seed, hashs(c)), (uint64_t)i + 77)), component(c), idx(i), h(hashs(c)) {}
    template <class... A> void describe(const A&... a) {
        std::string s = cat(a...);
        desc += (desc.empty() ? "" : "; ") + s;
        h = mix(h, hashs(s));
    }
    void input(double v) { uint64_t b; memcpy(&b, &v, 8); h = mix(h, b); }
    template <class V> void inputs(const V& v) { for (auto x : v) input((double)x); }
    void boring() { trivial = true; }
    std::string key(const std::string& monitor) const { return component + "/" + monitor; }
    void violate(const std::string& monitor, const std::string& detail, const std::string& sig = "") {
        Run& r = run();
        std::string k = component + "/" + monitor + "/" + sig;
        if (++r.violkeys[k] <= 3 && (long)r.violations.size() < r.maxviol)
            r.violations.push_back({component, monitor, sig, detail + "  [case: " + desc + "]", idx});
    }
    bool expect(const std::string& monitor, bool ok, const std::string& detail = "", const std::string& sig = "") {
        Stat& s = run().monitors[component + "/" + monitor];
        s.n++;
        if (!ok) { s.bad++; violate(monitor, detail, sig); }
        return ok;
    }
    // |got - want| <= tol (absolute); non-finite results always fail
    bool near(const std::string& monitor, long double got, long double want, long double tol, const std::string& what = "", const std::string& sig = "") {
        Stat& s = run().monitors[component + "/" + monitor];
        s.n++;
        long double e = fabsl(got - want);
        bool ok = std::isfinite((double)got) && e <= tol;
        double q = tol > 0 ? (double)(e / tol) : (e == 0 ? 0 : 1e300);
        if (ok && q > s.worst) s.worst = q;
        if (!ok) { s.bad++; violate(monitor, cat(what, ": got ", (double)got, ", expected ", (double)want, ", |difference| ", (double)e, ", tolerance ", (double)tol), sig); }
        return ok;
    }
    void count(const std::string& c, long n = 1) { run().counters[component + "/" + c] += n; }
};

struct CoutCapture {
    std::streambuf* old;
    explicit CoutCapture(std::ostream& o) { old = std::cout.rdbuf(o.rdbuf()); }
    ~CoutCapture() { std::cout.rdbuf(old); }
};

inline void dump() {
    Run& r = run();
    if (r.out.empty()) return;
    std::ostringstream o;
    o.precision(6);
    o << "{\"driver\":" << jstr(r.driver) << ",\"seed\":" << r.seed << ",\"tier\":" << jstr(r.tier) << ",\"evaluations\":" << r.evaluations
      << ",\"distinct_nontrivial\":" << r.distinct.size() << ",\"components\":{";
    bool f = true;
    for (auto& p : r.percomp) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
    o << "},\"counters\":{";
    f = true;
    for (auto& p : r.counters) { o << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
    o << "},\"monitors\":{";
    f = true;
    for (auto& p : r.monitors) {
        o << (f ? "" : ",") << jstr(p.first) << ":{\"observations\":" << p.second.n << ",\"violations\":" << p.second.bad << ",\"worst_error_over_tolerance\":" << p.second.worst << "}";
        f = false;
    }
    o << "},\"samples\":[";
    f = true;
    for (auto& s : r.samples) { o << (f ? "" : ",") << jstr(s); f = false; }
    o << "],\"violations\":[";
    f = true;
    for (auto& v : r.violations) {
        o << (f ? "" : ",") << "{\"component\":" << jstr(v.component) << ",\"monitor\":" << jstr(v.monitor) << ",\"sig\":" << jstr(v.sig) << ",\"case\":" << v.kase << ",\"detail\":" << jstr(v.detail) << "}";
        f = false;
    }
    o << "]}\n";
    if (r.out == "/dev/stdout") { fwrite(o.str().data(), 1, o.str().size(), stdout); return; }
    std::ofstream fo(r.out + ".tmp");
    fo << o.str();
    fo.close();
    {
        std::ofstream fh(r.out + ".hash", std::ios::binary);
        for (uint64_t h : r.distinct) fh.write((const char*)&h, 8);
    }
    rename((r.out + ".tmp").c_str(), r.out.c_str());
}

inline void ontimer(int) {
    static const char m[] = "VH-NONTERMINATION\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
}

inline void parse(int argc, char** argv, const char* driver) {
    Run& r = run();
    r.driver = driver;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") r.seed = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--tier") r.tier = nxt();
        else if (a == "--out") r.out = nxt();
        else if (a == "--only") r.only = nxt();
        else if (a == "--case") r.kase = atol(nxt().c_str());
        else if (a == "--scale") r.scale = atof(nxt().c_str());
        else if (a == "--status") r.statusfile = nxt();
        else if (a == "--shard") r.shard = atol(nxt().c_str());
        else if (a == "--shards") r.shards = atol(nxt().c_str());
        else if (a == "--scratch") r.scratch = nxt();
        else if (a == "--casecpu") r.casecpu = atoi(nxt().c_str());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); exit(3); }
    }
    if (!r.statusfile.empty()) {
        int fd = open(r.statusfile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) r.status = (char*)p;
        }
        if (fd >= 0) close(fd);
    }
    signal(SIGPROF, ontimer);
}

// nq cases in the quick tier, nt in the thorough one
inline void component(const std::string& name, long nq, long nt, const std::function<void(Case&)>& f) {
    Run& r = run();
    if (!r.only.empty() && name != r.only && !(r.only.back() == '*' && name.compare(0, r.only.size() - 1, r.only, 0, r.only.size() - 1) == 0)) return;
    long n = r.thorough() ? nt : nq;
    n = std::max<long>(1, (long)(n * r.scale));
    for (long i = 0; i < n; i++) {
        if (r.kase >= 0 ? i != r.kase : i % r.shards != r.shard) continue;
        setstatus(cat("component=", name, " case=", i));
        struct itimerval tv = {{0, 0}, {r.casecpu, 0}};
        setitimer(ITIMER_PROF, &tv, 0);
        Case c(r.seed, name, i);
        {
            CoutCapture cc(c.captured);
            f(c);
        }
        r.evaluations++;
        r.percomp[name]++;
        if (!c.trivial) r.distinct.insert(c.h);
        if (r.samplesper[name] < 1 && !c.desc.empty() && r.samples.size() < 60) { r.samplesper[name]++; r.samples.push_back(name + "#" + std::to_string(i) + ": " + c.desc.substr(0, 300)); }
    }
    if (r.kase >= 0 && r.kase >= n) fprintf(stderr, "note: case %ld is beyond this tier's count %ld of %s\n", r.kase, n, name.c_str());
    struct itimerval z = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &z, 0);
}

inline int finish() {
    setstatus("finished");
    dump();
    return 0;
}

// ------------------------------------------------------------------ reference arithmetic (long double)
typedef long double ld;
struct RM {
    int r = 0, c = 0;
    std::vector<ld> a;
    RM() {}
    RM(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, 0) {}
    ld& operator()(int i, int j) { return a[(size_t)i * c + j]; }
    ld operator()(int i, int j) const { return a[(size_t)i * c + j]; }
    static RM id(int n) { RM m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
    RM T() const { RM m(c, r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(j, i) = (*this)(i, j); return m; }
    ld maxabs() const { ld m = 0; for (auto v : a) m = std::max(m, fabsl(v)); return m; }
};
inline RM operator*(const RM& A, const RM& B) {
    RM m(A.r, B.c);
    for (int i = 0; i < A.r; i++) for (int k = 0; k < A.c; k++) { ld v = A(i, k); if (v != 0) for (int j = 0; j < B.c; j++) m(i, j) += v * B(k, j); }
    return m;
}
inline RM operator+(const RM& A, const RM& B) { RM m = A; for (size_t i = 0; i < m.a.size(); i++) m.a[i] += B.a[i]; return m; }
inline RM operator-(const RM& A, const RM& B) { RM m = A; for (size_t i = 0; i < m.a.size(); i++) m.a[i] -= B.a[i]; return m; }
inline RM operator*(ld s, const RM& A) { RM m = A; for (auto& v : m.a) v *= s; return m; }
inline RM operator*(const RM& A, ld s) { return s * A; }
inline std::vector<ld> operator*(const RM& A, const std::vector<ld>& x) {
    std::vector<ld> y(A.r, 0);
    for (int i = 0; i < A.r; i++) for (int j = 0; j < A.c; j++) y[i] += A(i, j) * x[j];
    return y;
}
// Gaussian elimination with full row pivoting; returns det, solves in place for the columns of B
inline ld gauss(RM A, RM& B) {
    int n = A.r;
    ld det = 1;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (fabsl(A(i, k)) > fabsl(A(p, k))) p = i;
        if (A(p, k) == 0) return 0;
        if (p != k) { det = -det; for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j)); for (int j = 0; j < B.c; j++) std::swap(B(k, j), B(p, j)); }
        det *= A(k, k);
        for (int i = k + 1; i < n; i++) {
            ld f = A(i, k) / A(k, k);
            if (f == 0) continue;
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.c; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int k = n - 1; k >= 0; k--)
        for (int j = 0; j < B.c; j++) {
            for (int i = k + 1; i < n; i++) B(k, j) -= A(k, i) * B(i, j);
            B(k, j) /= A(k, k);
        }
    return det;
}
inline ld rdet(const RM& A) { RM B(A.r, 0); return gauss(A, B); }
inline RM rinv(const RM& A) { RM B = RM::id(A.r); gauss(A, B); return B; }
inline std::vector<ld> rsolve(const RM& A, const std::vector<ld>& b) {
    RM B(A.r, 1);
    for (int i = 0; i < A.r; i++) B(i, 0) = b[i];
    gauss(A, B);
    return B.a;
}
// eigenvalues (ascending) and orthonormal eigenvectors (columns) of a symmetric matrix, cyclic Jacobi
inline std::vector<ld> jacobi(RM A, RM* V = nullptr) {
    int n = A.r;
    RM Q = RM::id(n);
    for (int sweep = 0; sweep < 60; sweep++) {
        ld off = 0, dia = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (i == j ? dia : off) += A(i, j) * A(i, j);
        if (off <= 1e-36L * (dia + off)) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            if (A(p, q) == 0) continue;
            ld th = (A(q, q) - A(p, p)) / (2 * A(p, q));
            ld t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1));
            ld c = 1 / sqrtl(t * t + 1), s = t * c;
            for (int k = 0; k < n; k++) { ld x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; }
            for (int k = 0; k < n; k++) { ld x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
            for (int k = 0; k < n; k++) { ld x = Q(k, p), y = Q(k, q); Q(k, p) = c * x - s * y; Q(k, q) = s * x + c * y; }
        }
    }
    std::vector<int> o(n);
    for (int i = 0; i < n; i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int a, int b) { return A(a, a) < A(b, b); });
    std::vector<ld> w(n);
    if (V) *V = RM(n, n);
    for (int i = 0; i < n; i++) { w[i] = A(o[i], o[i]); if (V) for (int k = 0; k < n; k++) (*V)(k, i) = Q(k, o[i]); }
    return w;
}
inline RM chol(const RM& A) {     // lower triangular factor of an SPD matrix
    int n = A.r;
    RM L(n, n);
    for (int j = 0; j < n; j++) {
        ld s = A(j, j);
        for (int k = 0; k < j; k++) s -= L(j, k) * L(j, k);
        L(j, j) = sqrtl(s);
        for (int i = j + 1; i < n; i++) { ld t = A(i, j); for (int k = 0; k < j; k++) t -= L(i, k) * L(j, k); L(i, j) = t / L(j, j); }
    }
    return L;
}
}  // namespace vh
