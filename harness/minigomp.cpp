// A small OpenMP runtime for GCC-compiled code, built on pthreads so that ThreadSanitizer sees exactly the
// synchronisation the OpenMP model promises (fork, join, barrier, critical, atomic, locks) and nothing more.
// libgomp itself synchronises with futexes TSan cannot see. Every region starts fresh threads; VH_DELAY
// injects seeded delays at fork, at chunk hand-out and around critical sections to vary the interleaving.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace {
struct Ws { std::atomic<long> next{0}; long end = 0, incr = 1, chunk = 1; bool guided = false; };
struct Team {
    int n = 1; std::mutex m; std::condition_variable cv; int waiting = 0; unsigned long gen = 0;
    Ws* first = nullptr; std::map<long, Ws*> ws; std::map<long, bool> single;
    ~Team() { for (auto& p : ws) delete p.second; }
};
struct Self { Team* team = nullptr; int id = 0; long wsno = 0, sgno = 0; Ws* ws = nullptr; unsigned long rng = 1; };
thread_local Self self;
std::atomic<int> nthreads{0};
std::mutex crit, atom, names; std::map<void**, std::mutex*> named; std::vector<std::mutex*> locks;
std::atomic<long> regions{0}, maxteam{0};
int dflt() { int n = nthreads.load(std::memory_order_relaxed); if (n > 0) return n; const char* e = getenv("OMP_NUM_THREADS"); n = e ? atoi(e) : 0; return n > 0 ? n : 4; }
unsigned long seed() { static unsigned long s = [] { const char* e = getenv("VH_DELAY"); return e ? strtoul(e, 0, 10) : 0ul; }(); return s; }
void jitter() {
    if (!seed()) return;
    self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
    switch (self.rng % 6) { case 0: std::this_thread::yield(); break; case 1: usleep(self.rng / 7 % 120); break; case 2: for (volatile int i = 0; i < (int)(self.rng / 11 % 3000); i++); break; default: break; }
}
void barrier(Team* t) {
    if (!t || t->n == 1) return;
    std::unique_lock<std::mutex> l(t->m); unsigned long g = t->gen;
    if (++t->waiting == t->n) { t->waiting = 0; t->gen++; t->cv.notify_all(); } else t->cv.wait(l, [&] { return t->gen != g; });
}
void body(Team* t, int id, void (*fn)(void*), void* data, long reg) {
    Self old = self; self = Self(); self.team = t; self.id = id; self.rng = 0x9e3779b97f4a7c15ul * (seed() + 1) + 77ul * (id + 1) + 131ul * reg; if (t->first) { self.wsno = 1; self.ws = t->first; }
    jitter(); fn(data); self = old;
}
struct Arg { Team* t; int id; void (*fn)(void*); void* data; long reg; };
void* entry(void* p) { Arg* a = (Arg*)p; body(a->t, a->id, a->fn, a->data, a->reg); return nullptr; }
void fork(Team& t, void (*fn)(void*), void* data, unsigned want) {
    t.n = self.team ? 1 : want ? (int)want : dflt(); if (t.n > 64) t.n = 64;
    long reg = ++regions; if (t.n > maxteam) maxteam = t.n;
    std::vector<pthread_t> th(t.n); std::vector<Arg> a(t.n);
    for (int i = 1; i < t.n; i++) { a[i] = {&t, i, fn, data, reg}; if (pthread_create(&th[i], nullptr, entry, &a[i])) abort(); }
    body(&t, 0, fn, data, reg);
    for (int i = 1; i < t.n; i++) pthread_join(th[i], nullptr);
}
Ws* mk(long s, long e, long inc, long chunk, bool guided) { Ws* w = new Ws; w->next.store(s, std::memory_order_relaxed); w->end = e; w->incr = inc; w->chunk = chunk > 0 ? chunk : 1; w->guided = guided; return w; }
bool take(Ws* w, long* is, long* ie) {
    jitter(); long step = w->incr * w->chunk, s = w->next.fetch_add(step, std::memory_order_relaxed);
    if (w->incr > 0 ? s >= w->end : s <= w->end) return false;
    long e = s + step; if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *is = s; *ie = e; return true;
}
bool start(long s, long e, long inc, long chunk, bool guided, long* is, long* ie) {
    Team* t = self.team; static thread_local Ws* lone;
    if (!t) { delete lone; lone = mk(s, e, inc, chunk, guided); self.ws = lone; return take(lone, is, ie); }
    long k = ++self.wsno;
    { std::lock_guard<std::mutex> l(t->m); Ws*& w = t->ws[k]; if (!w) w = mk(s, e, inc, chunk, guided); self.ws = w; }
    return take(self.ws, is, ie);
}
void ploop(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long chunk, bool guided) { Team t; t.first = t.ws[1] = mk(s, e, inc, chunk, guided); fork(t, fn, d, n); }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { Team t; fork(t, fn, d, n); }
void GOMP_barrier() { barrier(self.team); }
void GOMP_critical_start() { jitter(); crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void** p) { std::mutex* m; { std::lock_guard<std::mutex> l(names); std::mutex*& q = named[p]; if (!q) q = new std::mutex; m = q; } m->lock(); }
void GOMP_critical_name_end(void** p) { std::mutex* m; { std::lock_guard<std::mutex> l(names); m = named[p]; } m->unlock(); }
void GOMP_atomic_start() { jitter(); atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }
bool GOMP_single_start() { Team* t = self.team; if (!t) return true; long k = ++self.sgno; std::lock_guard<std::mutex> l(t->m); bool& b = t->single[k]; bool r = !b; b = true; return r; }
#define LOOP(N, G) bool GOMP_loop_##N##_start(long s, long e, long i, long c, long* a, long* b) { return start(s, e, i, c, G, a, b); } bool GOMP_loop_##N##_next(long* a, long* b) { return take(self.ws, a, b); } \
    void GOMP_parallel_loop_##N(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(f, d, n, s, e, i, c, G); }
LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true) LOOP(static, false)
#define RLOOP(N) bool GOMP_loop_##N##_start(long s, long e, long i, long* a, long* b) { return start(s, e, i, 1, false, a, b); } bool GOMP_loop_##N##_next(long* a, long* b) { return take(self.ws, a, b); } \
    void GOMP_parallel_loop_##N(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(f, d, n, s, e, i, 1, false); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
typedef unsigned long long U;
#define ULOOP(N) bool GOMP_loop_ull_##N##_start(bool up, U s, U e, U i, U c, U* a, U* b) { return start((long)s, (long)e, (long)i, (long)c, false, (long*)a, (long*)b); } bool GOMP_loop_ull_##N##_next(U* a, U* b) { return take(self.ws, (long*)a, (long*)b); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided) ULOOP(static)
void GOMP_loop_end() { barrier(self.team); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_next() { long a, b; return take(self.ws, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return start(1, (long)n + 1, 1, 1, false, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(self.team); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*f)(void*), void* d, unsigned n, unsigned c, unsigned) { ploop(f, d, n, 1, (long)c + 1, 1, 1, false); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
    if (!cpy) { fn(data); return; }
    char* raw = (char*)malloc(size + align); char* p = raw + ((align - ((unsigned long)raw & (align - 1))) & (align - 1)); cpy(p, data); fn(p); free(raw);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() {}
int omp_get_thread_num() { return self.id; }
int omp_get_num_threads() { return self.team ? self.team->n : 1; }
int omp_get_max_threads() { return dflt(); }
int omp_get_num_procs() { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
void omp_set_num_threads(int n) { nthreads = n; }
int omp_in_parallel() { return self.team && self.team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return self.team ? 1 : 0; }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
typedef struct { unsigned x; } Lk;
static std::mutex* lk(Lk* l) { std::lock_guard<std::mutex> g(names); return locks[l->x]; }
void omp_init_lock(Lk* l) { std::lock_guard<std::mutex> g(names); l->x = (unsigned)locks.size(); locks.push_back(new std::mutex); }
void omp_destroy_lock(Lk*) {}
void omp_set_lock(Lk* l) { lk(l)->lock(); }
void omp_unset_lock(Lk* l) { lk(l)->unlock(); }
int omp_test_lock(Lk* l) { return lk(l)->try_lock(); }
long vh_omp_regions() { return regions; }
long vh_omp_maxteam() { return maxteam; }
}
