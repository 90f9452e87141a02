// A small OpenMP runtime on plain pthreads, for the race detector: GCC's own runtime
// synchronises in ways ThreadSanitizer cannot see.  It implements the part of the GCC
// runtime interface that worksharing code can call; every team is made of fresh threads
// (so the only orderings are fork, join, barriers, locks), chunks are handed out without
// ordering the threads that take them, and threads are delayed at random.
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <string>
#include <vector>

namespace {
struct Work { std::atomic<int64_t> next{0}; int64_t end = 0, incr = 1, chunk = 1, total = 0, start = 0; bool guided = false; std::atomic<int> taken{0}; void* copy = nullptr; };
struct Team {
  int n = 1; pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int waiting = 0; unsigned gen = 0; std::map<size_t, Work*> works; Team* up = nullptr;
  int64_t ordered = 0;
  ~Team() { for(auto& w : works) delete w.second; }
};
thread_local Team* team = nullptr;
thread_local int tid = 0;
thread_local size_t wsi = 0;
thread_local Work* cur = nullptr;
thread_local uint64_t rs = 0;
int max_threads = 0;
std::atomic<uint64_t> seed{12345};
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
pthread_once_t once = PTHREAD_ONCE_INIT;
void init() { const char* e = getenv("OMP_NUM_THREADS"); max_threads = e ? atoi(e) : 4; if(max_threads < 1) max_threads = 1; }
int maxt() { pthread_once(&once, init); return max_threads; }
void jitter() {
  if(!rs) rs = seed.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed) | 1;
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  switch(rs >> 20 & 7) { case 0: usleep((rs >> 32) % 200); break; case 1: usleep((rs >> 32) % 30); break; case 2: case 3: sched_yield(); break; default: break; }
}
struct Arg { Team* t; int id; void (*fn)(void*); void* data; };
void* body(void* p) {
  Arg a = *(Arg*)p; team = a.t; tid = a.id; wsi = 0; cur = nullptr; jitter(); a.fn(a.data); jitter(); return nullptr;
}
Work* work(bool& first, int64_t start = 0, int64_t end = 0, int64_t incr = 1, int64_t chunk = 1, bool guided = false) {
  static thread_local Work lone; // outside any team
  Team* t = team; first = false;
  if(!t) { lone.next = 0; lone.taken = 0; lone.start = start; lone.end = end; lone.incr = incr; lone.chunk = chunk < 1 ? 1 : chunk; lone.total = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end - incr - 1) / -incr : 0); first = true; return cur = &lone; }
  pthread_mutex_lock(&t->m);
  Work*& w = t->works[wsi++];
  if(!w) {
    first = true; w = new Work; w->start = start; w->end = end; w->incr = incr; w->chunk = chunk < 1 ? 1 : chunk; w->guided = guided;
    w->total = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end - incr - 1) / -incr : 0);
  }
  pthread_mutex_unlock(&t->m);
  return cur = w;
}
bool take(Work* w, long* a, long* b) {
  jitter();
  int64_t k = w->next.fetch_add(w->chunk, std::memory_order_relaxed);
  if(k >= w->total) return false;
  int64_t e = k + w->chunk; if(e > w->total) e = w->total;
  *a = w->start + k * w->incr; *b = w->start + e * w->incr; return true;
}
void run(void (*fn)(void*), void* data, unsigned nt) {
  int n = nt ? (int)nt : maxt(); if(team) n = 1;
  Team t; t.n = n; t.up = team; Team* st = team; int si = tid; size_t sw = wsi; Work* sc = cur;
  std::vector<pthread_t> th(n); std::vector<Arg> ar(n);
  for(int i = 1; i < n; ++i) { ar[i] = {&t, i, fn, data}; pthread_create(&th[i], nullptr, body, &ar[i]); }
  team = &t; tid = 0; wsi = 0; cur = nullptr; jitter(); fn(data);
  for(int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
  team = st; tid = si; wsi = sw; cur = sc;
}
void barrier() {
  Team* t = team; if(!t || t->n == 1) return;
  jitter(); pthread_mutex_lock(&t->m); unsigned g = t->gen;
  if(++t->waiting == t->n) { t->waiting = 0; ++t->gen; pthread_cond_broadcast(&t->c); }
  else while(g == t->gen) pthread_cond_wait(&t->c, &t->m);
  pthread_mutex_unlock(&t->m); jitter();
}
struct Pre { void (*fn)(void*); void* data; long s, e, i, c; bool guided; };
}  // namespace

extern "C" {
typedef unsigned long long ull;
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run(fn, data, nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { run(fn, data, nt); return nt ? nt : maxt(); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_loop_end() { barrier(); }
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_loop_end_nowait() {}
#define LOOP(NAME, G)                                                                                        \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { bool f; return take(work(f, s, e, i, c, G), a, b); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return take(cur, a, b); }                                 \
  bool GOMP_loop_ull_##NAME##_start(bool, ull s, ull e, ull i, ull c, ull* a, ull* b) { bool f; return take(work(f, (long)s, (long)e, (long)i, (long)c, G), (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return take(cur, (long*)a, (long*)b); }                 \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { \
    Pre p{fn, d, s, e, i, c, G}; run([](void* q) { Pre* x = (Pre*)q; bool f; work(f, x->s, x->e, x->i, x->c, x->guided); x->fn(x->data); }, &p, nt); }
LOOP(static, false) LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true)
#define LOOPR(NAME)                                                                                          \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { bool f; return take(work(f, s, e, i, 1, false), a, b); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return take(cur, a, b); }                                 \
  bool GOMP_loop_ull_##NAME##_start(bool, ull s, ull e, ull i, ull* a, ull* b) { bool f; return take(work(f, (long)s, (long)e, (long)i, 1, false), (long*)a, (long*)b); } \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return take(cur, (long*)a, (long*)b); }                 \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { \
    Pre p{fn, d, s, e, i, 1, false}; run([](void* q) { Pre* x = (Pre*)q; bool f; work(f, x->s, x->e, x->i, x->c, false); x->fn(x->data); }, &p, nt); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
bool GOMP_single_start() { bool f; Work* w = work(f); return w->taken.fetch_add(1, std::memory_order_relaxed) == 0; }
void* GOMP_single_copy_start() { bool f; Work* w = work(f); if(w->taken.fetch_add(1, std::memory_order_relaxed) == 0) return nullptr; barrier(); return w->copy; }
void GOMP_single_copy_end(void* p) { cur->copy = p; barrier(); }
unsigned GOMP_sections_start(unsigned n) { bool f; Work* w = work(f, 1, (long)n + 1, 1, 1); long a, b; return take(w, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return take(cur, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) {
  Pre p{fn, d, 1, (long)n + 1, 1, 1, false}; run([](void* q) { Pre* x = (Pre*)q; bool f; work(f, x->s, x->e, x->i, x->c, false); x->fn(x->data); }, &p, nt); }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
static pthread_mutex_t* named_lock(void** p) { pthread_mutex_lock(&named); if(!*p) { auto* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; } auto* m = (pthread_mutex_t*)*p; pthread_mutex_unlock(&named); return m; }
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(named_lock(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named_lock(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if(cpy) { std::vector<char> b(size + align); char* p = (char*)(((uintptr_t)b.data() + align - 1) / align * align); cpy(p, data); fn(p); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { jitter(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return tid; }
int omp_get_max_threads() { return maxt(); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int n) { maxt(); max_threads = n < 1 ? 1 : n; }
int omp_get_level() { return team ? 1 : 0; }
int omp_get_thread_limit() { return 1024; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { auto* m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *l = m; }
void omp_destroy_lock(void** l) { delete(pthread_mutex_t*)*l; }
void omp_set_lock(void** l) { pthread_mutex_lock((pthread_mutex_t*)*l); }
void omp_unset_lock(void** l) { pthread_mutex_unlock((pthread_mutex_t*)*l); }
int omp_test_lock(void** l) { return pthread_mutex_trylock((pthread_mutex_t*)*l) == 0; }
void vh_gomp_seed(uint64_t s) { seed = s; rs = 0; }
}
