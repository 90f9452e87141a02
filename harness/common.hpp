// Shared runtime for every harness: deterministic case generation, monitors'
// verdict recording, coverage accounting and crash/hang attribution.
#pragma once
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#ifdef VH_MPI
#include <mpi.h>
#endif
#if __has_include(<valgrind/valgrind.h>)
#include <valgrind/valgrind.h>
#endif

namespace vh {

// ---------------------------------------------------------------- RNG
inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = (const unsigned char*)p;
  for(size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnvs(const std::string& s) { return fnv(s.data(), s.size()); }

struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
  uint64_t u64() {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return u64(); }
  // inclusive range
  int64_t in(int64_t lo, int64_t hi) {
    if(hi <= lo) return lo;
    return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1));
  }
  // mostly in [lo, hi]; rarely beyond it, up to big (sizes where blocked or threshold-guarded code paths start)
  int64_t size(int64_t lo, int64_t hi, int64_t big, double p) {
    bool b = chance(p);
#ifdef RUNNING_ON_VALGRIND
    if(RUNNING_ON_VALGRIND) b = false;
#endif
    return b && big > hi ? in(hi + 1, big) : in(lo, hi);
  }
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  double gauss() {
    double u = uni(), v = uni();
    if(u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[in(0, (int64_t)v.size() - 1)]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + in(0, (int64_t)v.size() - 1)); }
  template <class V> void shuffle(V& v) {
    for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[in(0, (int64_t)i - 1)]);
  }
};

// ---------------------------------------------------------------- state
struct Violation { std::string test, key, msg; int64_t cs; };

struct State {
  uint64_t seed = 1;
  bool thorough = false;
  int rank = 0, size = 1;
  std::string prop, test, out, marker, tmpdir = "/tmp";
  int64_t cs = 0;
  uint64_t evals = 0, checks = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> cov;
  std::vector<Violation> viol;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> ncases;
  unsigned timeout = 120;
  char* mk = nullptr;
  bool only = false;
  // what counts: 0 every oracle, 1 memory monitors only (M01), 2 differences between thread counts and races (M02)
  int mode = 0, nth = 1;
  std::atomic<int> races{0};
};
inline State& st() { static State s; return s; }

inline std::string fmtv(const char* f, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
inline std::string strf(const char* f, ...) {
  va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap); return s;
}
inline void cov(const std::string& k, uint64_t n = 1) { st().cov[k] += n; }
inline void covmax(const std::string& k, uint64_t n) { auto& c = st().cov["max:" + k]; if(n > c) c = n; }
inline void nontrivial(uint64_t h) { st().distinct.insert(h ^ fnvs(st().test)); }
inline void sample(const std::string& s) {
  int c = 0;
  for(auto& x : st().samples) if(x.compare(0, st().test.size(), st().test) == 0) ++c;
  if(c < 2 && st().samples.size() < 24) st().samples.push_back(st().test + "#" + std::to_string(st().cs) + ": " + s);
}
inline bool want_sample() { return st().cs < 2; }
inline void setmark(const char* status) {
  if(!st().mk) return;
  char b[256] = {};  // formatted aside: the process may be ended from outside while it writes
  int n = snprintf(b, sizeof b, "%-7s\n%s\n%" PRId64 "\n", status, st().test.c_str(), st().cs);
  memcpy(st().mk, b, std::min<size_t>(n + 1, sizeof b));
}
inline void note(const std::string& s) { // free-form context for crash reports
  if(st().mk) { strncpy(st().mk + 2048, s.c_str(), 2000); }
}
// Records a violation. `key` names the failing aspect, stable across inputs.
inline void fail(const std::string& key, const char* f, ...) {
  if(st().mode == 1 && key != "leak" && key != "memcheck") return;
  va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap);
  size_t same = 0;
  for(auto& v : st().viol) if(v.key == key && v.test == st().test) ++same;
  if(same < 3) {
    st().viol.push_back({st().test, key, s, st().cs});
    fprintf(stderr, "FAIL [%d] %s#%" PRId64 " key=%s: %s\n", st().rank, st().test.c_str(), st().cs, key.c_str(), s.c_str());
  }
}
inline bool ok(bool c, const char* key, const char* f, ...) {
  ++st().checks;
  if(c) return true;
  va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap);
  fail(key, "%s", s.c_str());
  return false;
}
// |a-b| <= tol*(1+scale)
inline bool close(double a, double b, double tol, const char* key, const char* f, ...) {
  ++st().checks;
  if(std::abs(a - b) <= tol) return true;  // false on NaN
  va_list ap; va_start(ap, f); auto s = fmtv(f, ap); va_end(ap);
  fail(key, "%s: got %.17g want %.17g (tol %.3g)", s.c_str(), a, b, tol);
  return false;
}

struct Test { std::string prop, name; std::function<void(Rng&)> fn; int64_t nq, nt; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* p, const char* n, int64_t nq, int64_t nt, std::function<void(Rng&)> f) { tests().push_back({p, n, f, nq, nt}); } };
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
// TEST(prop, name, quick cases, thorough cases) { ... uses vh::Rng& r ... }
#define TEST(P, NAME, NQ, NT)                                              \
  static void VH_CAT(vh_t_, __LINE__)(vh::Rng & r);                        \
  static vh::Reg VH_CAT(vh_r_, __LINE__)(P, NAME, NQ, NT, VH_CAT(vh_t_, __LINE__)); \
  static void VH_CAT(vh_t_, __LINE__)(vh::Rng & r)

extern "C" void omp_set_num_threads(int);
// Threads for the kernels under test; M01 uses one, M02 chooses for itself.
inline void threads(int n) { omp_set_num_threads(st().mode == 0 ? n : st().nth); }

// expects that f throws (a loud failure)
template <class F> bool throws(F&& f) {
  try { f(); } catch(...) { return true; }
  return false;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline void dump(const char* status) {
  auto& S = st();
  if(S.out.empty()) return;
  std::ofstream f(S.out + (S.size > 1 ? "." + std::to_string(S.rank) : ""));
  f << "{\"status\":\"" << status << "\",\"evals\":" << S.evals << ",\"checks\":" << S.checks;
  f << ",\"cov\":{"; bool first = true;
  for(auto& [k, v] : S.cov) { f << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
  f << "},\"ncases\":{"; first = true;
  for(auto& [k, v] : S.ncases) { f << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
  f << "},\"distinct\":["; first = true;
  for(auto v : S.distinct) { f << (first ? "" : ",") << "\"" << std::hex << v << std::dec << "\""; first = false; }
  f << "],\"samples\":["; first = true;
  for(auto& v : S.samples) { f << (first ? "" : ",") << "\"" << jesc(v) << "\""; first = false; }
  f << "],\"violations\":["; first = true;
  for(auto& v : S.viol) {
    f << (first ? "" : ",") << "{\"test\":\"" << jesc(v.test) << "\",\"key\":\"" << jesc(v.key) << "\",\"case\":" << v.cs << ",\"msg\":\"" << jesc(v.msg) << "\"}";
    first = false;
  }
  f << "]}\n";
}

inline void on_alarm(int) {
  if(st().mk) memcpy(st().mk, "TIMEOUT", 7);
  _exit(97);
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
inline size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
inline size_t live_bytes() { return 0; }
#endif

#if __has_include(<valgrind/valgrind.h>) && !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
inline size_t memcheck_errors() { return VALGRIND_COUNT_ERRORS; }
#else
inline size_t memcheck_errors() { return 0; }
#endif

inline int vh_main(int argc, char** argv) {
  auto& S = st();
  std::string only_test; int64_t only_case = -1, from_case = -1; std::string filter; double scale = 1; int64_t shard = 0, nshard = 1; int repeat = 1;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--prop") S.prop = nx();
    else if(a == "--seed") S.seed = strtoull(nx().c_str(), 0, 10);
    else if(a == "--tier") S.thorough = nx() == "thorough";
    else if(a == "--out") S.out = nx();
    else if(a == "--marker") S.marker = nx();
    else if(a == "--tmp") S.tmpdir = nx();
    else if(a == "--timeout") S.timeout = atoi(nx().c_str());
    else if(a == "--filter") filter = nx();
    else if(a == "--shard") { auto v = nx(); sscanf(v.c_str(), "%" SCNd64 "/%" SCNd64, &shard, &nshard); }
    else if(a == "--repeat") repeat = atoi(nx().c_str());
    else if(a == "--scale") scale = atof(nx().c_str());
    else if(a == "--only") { only_test = nx(); only_case = atoll(nx().c_str()); S.only = true; }
    else if(a == "--from") { only_test = nx(); from_case = atoll(nx().c_str()); }
    else if(a == "--memory") S.mode = 1;
    else if(a == "--threads") S.mode = 2;
    else if(a == "--list") { for(auto& t : tests()) printf("%s %s %ld %ld\n", t.prop.c_str(), t.name.c_str(), (long)t.nq, (long)t.nt); return 0; }
  }
#ifdef VH_MPI
  int flag = 0; MPI_Initialized(&flag);
  if(!flag) { int prov; MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &prov); }
  MPI_Comm_rank(MPI_COMM_WORLD, &S.rank); MPI_Comm_size(MPI_COMM_WORLD, &S.size);
#endif
  if(!S.marker.empty()) {
    std::string m = S.marker + (S.size > 1 ? "." + std::to_string(S.rank) : "");
    int fd = open(m.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if(fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if(p != MAP_FAILED) S.mk = (char*)p;
    }
  }
  signal(SIGALRM, on_alarm);
  bool skipping = from_case >= 0;
  for(auto& t : tests()) {
    if(!S.prop.empty() && t.prop != S.prop && S.prop != "ALL") continue;
    if(!filter.empty() && t.name.find(filter) == std::string::npos) continue;
    if(S.only && t.name != only_test) continue;
    int64_t n = S.thorough ? t.nt : t.nq, b = 0;
    if(scale != 1) n = std::max<int64_t>(1, (int64_t)std::ceil(n * scale));
    if(S.only) { b = only_case; n = b + 1; }
    if(skipping) { if(t.name != only_test) continue; skipping = false; b = from_case; }
    S.test = t.name;
    for(S.cs = b; S.cs < n; ++S.cs) {
      if(!S.only && nshard > 1 && (int64_t)((S.cs + fnvs(t.name)) % nshard) != shard) continue;
      uint64_t sd = S.seed * 0x9E3779B97F4A7C15ull + fnvs(t.name) + (uint64_t)S.cs * 0xD1B54A32D192ED03ull;
      if(S.mk) memset(S.mk + 2048, 0, 2048);
      setmark("RUN");
      alarm(S.timeout); auto c0 = std::chrono::steady_clock::now();
      size_t heap[4] = {0, 0, 0, 0}, mc = memcheck_errors(), nv = S.viol.size(); int races = S.races;
      if(S.mode == 2) { Rng q(sd ^ 0x7472); S.nth = q.chance(.1) ? 1 : q.in(2, 8); threads(0); cov(strf("%d threads", S.nth)); }
      for(int rep = 0; rep < repeat; ++rep) try {
        { Rng r(sd); t.fn(r); }
        // leak monitor: the same case repeated must not keep growing the heap
        if(repeat >= 4) {
          heap[rep & 3] = live_bytes();
          size_t g = heap[3] - heap[2];
          if(rep == 3 && heap[3] > heap[2] && g == heap[2] - heap[1]) {
            bool every = true;  // and keeps growing
            for(int k = 0; k < 4 && every; ++k) { size_t h0 = live_bytes(); { Rng r(sd); t.fn(r); } every = live_bytes() - h0 == g; }
            if(every) fail("leak", "heap grows by %zu bytes every time this case runs", g);
          }
        }
      }
      catch(const std::exception& e) {
        fail("exception", "unexpected exception: %s", e.what());
        if(S.size > 1) { dump("exception"); setmark("EXC");
#ifdef VH_MPI
          MPI_Abort(MPI_COMM_WORLD, 96);
#endif
        }
      }
      if(memcheck_errors() != mc) fail("memcheck", "%zu memory errors reported while this case ran", memcheck_errors() - mc);
      if(S.mode == 2) {
        if(S.viol.size() > nv) {  // a failure counts here only if one thread does not show it
          auto found = S.viol[nv]; S.viol.resize(nv); int nth = S.nth; S.nth = 1; threads(0);
          try { Rng r(sd); t.fn(r); } catch(const std::exception& e) { fail("exception", "%s", e.what()); }
          bool same = S.viol.size() > nv; S.viol.resize(nv); S.nth = nth;
          if(!same) fail("thread_dependent", "with %d threads, not with one: %s: %s", S.nth, found.key.c_str(), found.msg.c_str());
        }
        if(S.races != races) fail("race", "%d data races reported while this case ran with %d threads", (int)S.races - races, S.nth);
      }
      alarm(0); covmax("case ms", std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - c0).count());
      ++S.evals; ++S.ncases[t.name];
    }
  }
  S.test = "exit"; setmark("DONE");
  dump("done");
#ifdef VH_MPI
  MPI_Finalized(&flag);
  if(!flag) MPI_Finalize();
#endif
  return S.viol.empty() ? 0 : 1;
}
}  // namespace vh

#ifdef VH_MAIN
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_on_report(void*) { ++vh::st().races; }
#endif
int main(int argc, char** argv) { return vh::vh_main(argc, argv); }
#endif
