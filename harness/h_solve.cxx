// E01 Davidson and the selected-CI driver, E02 LOBPCG, E03 CASCI.
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "oracle.hpp"
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include <lobpcgxx/lobpcg.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/util/cas.hpp>
#undef I
using namespace vh;
using namespace macis;
using orc::u128; using orc::Ints;
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
struct Quiet { Quiet() { for(auto n : {"davidson", "ci_solver"}) if(!spdlog::get(n)) spdlog::null_logger_mt(n); } };
#define QUIET static Quiet quiet_
typedef std::vector<double> V;

// ------------------------------------------------------------------ problems
struct Prob { size_t n; V A, W; std::string name; bool good; };
// good: dense coupling, gap between the lowest and the next level
static Prob problem(Rng& r, size_t nmax) {
  Prob p; p.n = r.chance(.15) ? r.in(1, 3) : r.size(1, nmax, 4 * nmax, .006); size_t n = p.n; p.A.assign(n * n, 0.); p.good = true;
  int k = r.in(0, 7);
  auto sym = [&](size_t i, size_t j, double x) { p.A[i + n * j] = p.A[j + n * i] = x; };
  if(k == 0) { p.name = "gaussian"; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) sym(i, j, r.gauss()); }
  else if(k == 1) { p.name = "diagonally dominant"; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) sym(i, j, i == j ? r.gauss() * 10 : .1 * r.gauss()); }
  else if(k == 2 || k == 3) {
    p.name = k == 2 ? "degenerate levels" : "wide spectrum";
    V B(n * n), U; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) B[i + n * j] = B[j + n * i] = r.gauss();
    orc::jacobi(n, B, &U); V w(n); for(auto& x : w) x = k == 2 ? (double)r.in(-2, 2) : r.gauss() * std::pow(10., r.in(-2, 3));
    for(size_t q = 0; q < n; ++q) for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) { p.A[i + n * j] += w[q] * U[i + n * q] * U[j + n * q]; p.A[j + n * i] = p.A[i + n * j]; }
    p.good = k == 2 ? false : false;
  }
  else if(k == 4) { p.name = "positive definite"; V B(n * n); for(auto& x : B) x = r.gauss(); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) { double s = i == j ? 1 : 0; for(size_t q = 0; q < n; ++q) s += B[i + n * q] * B[j + n * q]; sym(i, j, s); } }
  else if(k == 5) { p.name = "sparse"; p.good = false; for(size_t i = 0; i < n; ++i) { sym(i, i, r.gauss() * 3); for(size_t j = 0; j < i; ++j) if(r.chance(.25)) sym(i, j, r.gauss()); } }
  else if(k == 7) { p.name = "tied diagonal"; p.good = true; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) sym(i, j, i == j ? r.uni(0, 5) : .3 * r.gauss()); int t = r.in(2, 4); for(int q = 0; q < t; ++q) { size_t i = r.in(0, n - 1); sym(i, i, -1); } p.good = false; }
  else { p.name = "integer"; p.good = false; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) sym(i, j, r.in(-3, 3)); }
  p.W = orc::jacobi(n, p.A);
  // where the lowest level lies must not matter: move it next to zero in some problems
  if(k != 6 && r.chance(.35)) { double c = r.pick({0., 1e-3, -1e-3, .05, -.2}) - p.W[0]; for(size_t i = 0; i < n; ++i) p.A[i + n * i] += c; p.W = orc::jacobi(n, p.A); p.name += ", lowest level near zero"; }
  return p;
}
static double amax(const V& A) { double m = 0; for(auto x : A) m = std::max(m, std::abs(x)); return m; }
static V matvec(const Prob& p, const V& x) { V y(p.n, 0.); for(size_t j = 0; j < p.n; ++j) for(size_t i = 0; i < p.n; ++i) y[i] += p.A[i + p.n * j] * x[j]; return y; }
static double dot(const V& a, const V& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
// indices reachable from i0 through nonzero couplings
static std::vector<size_t> component(size_t n, const V& A, size_t i0) {
  std::vector<char> in(n, 0); std::vector<size_t> q{i0}; in[i0] = 1;
  for(size_t h = 0; h < q.size(); ++h) for(size_t j = 0; j < n; ++j) if(!in[j] && A[q[h] + n * j] != 0) { in[j] = 1; q.push_back(j); }
  std::sort(q.begin(), q.end()); return q;
}
static double lowest_in(size_t n, const V& A, const std::vector<size_t>& c) {
  V B(c.size() * c.size()); for(size_t i = 0; i < c.size(); ++i) for(size_t j = 0; j < c.size(); ++j) B[i + c.size() * j] = A[c[i] + n * c[j]];
  return orc::jacobi(c.size(), B)[0];
}
static V guess(Rng& r, const Prob& p, int kind, std::vector<size_t>* comp) {
  size_t n = p.n; V x(n, 0.);
  if(kind == 0) { size_t b = 0; for(size_t i = 1; i < n; ++i) if(p.A[i + n * i] < p.A[b + n * b]) b = i; x[b] = 1; *comp = component(n, p.A, b); return x; }
  if(kind == 1) for(auto& y : x) y = r.gauss();
  if(kind == 2) { V Z; orc::jacobi(n, p.A, &Z); for(size_t i = 0; i < n; ++i) x[i] = Z[i] + 1e-3 * r.gauss(); }
  if(kind == 3) { V Z; orc::jacobi(n, p.A, &Z); for(size_t i = 0; i < n; ++i) x[i] = Z[i]; }
  double s = std::sqrt(dot(x, x)); for(auto& y : x) y /= s;
  comp->resize(n); for(size_t i = 0; i < n; ++i) (*comp)[i] = i;
  return x;
}
static const char* GN[] = {"diagonal guess", "random guess", "near-exact guess", "exact guess"};
// what must hold for anything the solver reports as converged
static void check_pair(const Prob& p, double lam, const V& x, double tol, bool lowest, double want, const std::string& ctx) {
  double sc = 1 + amax(p.A) * p.n;
  close(dot(x, x), 1, 1e-8, "normalised", "%s", ctx.c_str());
  V y = matvec(p, x); close(dot(x, y), lam, 1e-9 * sc + tol * tol, "rayleigh", "%s", ctx.c_str());
  double res = 0; for(size_t i = 0; i < p.n; ++i) res += std::pow(y[i] - lam * x[i], 2);
  ok(std::sqrt(res) <= tol * 1.0001 + 1e-12 * sc, "residual", "%s: |r|=%g", ctx.c_str(), std::sqrt(res));
  double best = 1e300; for(auto w : p.W) if(std::abs(w - lam) < std::abs(best - lam)) best = w;
  close(lam, best, 1.1 * tol + 1e-10 * sc, "is_eigenvalue", "%s", ctx.c_str());
  if(lowest) close(lam, want, 1.1 * tol + 1e-10 * sc, "lowest", "%s", ctx.c_str());
}
struct DenseOp {
  const Prob& p; mutable long calls = 0;
  void operator_action(size_t m, double a, const double* X, size_t LDX, double b, double* Y, size_t LDY) const {
    ++calls;
    for(size_t k = 0; k < m; ++k) for(size_t i = 0; i < p.n; ++i) { double s = 0; for(size_t j = 0; j < p.n; ++j) s += p.A[i + p.n * j] * X[j + LDX * k]; Y[i + LDY * k] = a * s + (b == 0 ? 0 : b * Y[i + LDY * k]); }
  }
};
static sparsexx::csr_matrix<double, int32_t> to_csr(const Prob& p, Rng& r) {
  size_t n = p.n; size_t nz = 0; for(auto x : p.A) nz += x != 0; int ix = r.in(0, 1);
  // the diagonal is always stored
  for(size_t i = 0; i < n; ++i) nz += p.A[i + n * i] == 0;
  sparsexx::csr_matrix<double, int32_t> M(n, n, nz, ix);
  size_t k = 0; for(size_t i = 0; i < n; ++i) { M.rowptr()[i] = k + ix; for(size_t j = 0; j < n; ++j) if(i == j || p.A[i + n * j] != 0) { M.colind()[k] = j + ix; M.nzval()[k++] = p.A[i + n * j]; } }
  M.rowptr()[n] = k + ix; return M;
}
TEST("E01", "davidson_serial", 700, 20000) {
  QUIET; auto p = problem(r, 40); int gk = r.in(0, 3); std::vector<size_t> comp; auto x = guess(r, p, gk, &comp); auto x0 = x;
  double tol = r.pick({1e-4, 1e-6, 1e-8, 1e-9}) * (1 + amax(p.A)); int64_t mm = r.chance(.7) ? r.in(p.n, 2 * p.n + 5) : r.in(1, p.n + 1);
  V D(p.n); for(size_t i = 0; i < p.n; ++i) D[i] = p.A[i + p.n * i];
  auto ctx = strf("%s n=%zu %s tol=%g max_m=%ld", p.name.c_str(), p.n, GN[gk], tol, (long)mm); note(ctx); if(want_sample()) sample(ctx);
  nontrivial(fnv(p.A.data(), 8 * p.A.size())); cov(p.name); cov(GN[gk]);
  try {
    double lam; size_t it;
    if(r.chance(.5)) { DenseOp op{p}; auto [i, l] = davidson((int64_t)p.n, mm, op, D.data(), tol, x.data()); it = i; lam = l; ok(op.calls <= (long)std::min<int64_t>(mm, p.n) + 1, "operator_calls", "%s: %ld", ctx.c_str(), op.calls); }
    else { auto M = to_csr(p, r); SparseMatrixOperator op(M); auto [i, l] = davidson((int64_t)p.n, mm, op, D.data(), tol, x.data()); it = i; lam = l; }
    cov("davidson converged"); covmax("davidson iterations", it);
    // a random start may legitimately lock onto a higher eigenpair
    bool lowest = tol < 1e-5 * (1 + amax(p.A)) && gk != 1 && p.name != "integer";
    check_pair(p, lam, x, tol, lowest, lowest_in(p.n, p.A, comp), ctx);
  } catch(const std::exception& e) {
    cov("davidson reported failure");
    // a clean, well separated problem with an unrestricted subspace has to succeed
    if(mm >= (int64_t)p.n && p.good && tol >= 1e-8) fail("no_convergence", "%s: %s", ctx.c_str(), e.what());
  }
}
TEST("E01", "davidson_diagonal", 300, 10000) {
  // few distinct diagonal elements and no coupling: the Ritz value meets the diagonal exactly long before the vector is there
  QUIET; Prob p; p.name = "diagonal"; size_t n = p.n = r.size(1, 60, 200, .01); double base = r.pick({1.5, -1., 0., .25}); size_t lv = r.in(1, 4); p.A.assign(n * n, 0.); p.good = true; for(size_t i = 0; i < n; ++i) p.A[i + n * i] = base + (r.chance(.5) ? 0 : i % lv); p.W = orc::jacobi(n, p.A);
  V D(n), x(n); double nn = 0; for(size_t i = 0; i < n; ++i) { D[i] = p.A[i + n * i]; x[i] = r.gauss(); nn += x[i] * x[i]; } for(auto& y : x) y /= std::sqrt(nn); auto ctx = strf("diagonal matrix n=%zu, %zu levels from %g", n, lv, base); note(ctx); if(want_sample()) sample(ctx); nontrivial(fnv(p.A.data(), 8 * n * n));
  try { DenseOp op{p}; auto [i, l] = davidson((int64_t)n, r.in(n + 1, 2 * n + 5), op, D.data(), 1e-8, x.data()); check_pair(p, l, x, 1e-8, true, p.W[0], ctx); cov("diagonal matrices"); }
  catch(const std::exception& e) { fail("no_convergence", "%s: %s", ctx.c_str(), e.what()); }
}
TEST("E01", "selected_ci_serial_driver", 250, 6000) {
  QUIET; auto p = problem(r, 40); auto M = to_csr(p, r); int gk = r.in(0, 2); std::vector<size_t> comp; V C; if(gk) C = guess(r, p, gk, &comp); else guess(r, p, 0, &comp);
  if(p.n == 1) C.clear();
  double tol = 1e-8 * (1 + amax(p.A)); auto ctx = strf("%s n=%zu %s", p.name.c_str(), p.n, GN[gk]); note(ctx); nontrivial(fnv(p.A.data(), 8 * p.A.size()));
  try { double E = serial_selected_ci_diag(M, p.n + 5, tol, C); ok(C.size() == p.n, "size", "%s", ctx.c_str()); check_pair(p, E, C, tol, gk != 1 && p.name != "integer", lowest_in(p.n, p.A, comp), ctx); cov("selected CI converged"); }
  catch(const std::exception& e) { cov("davidson reported failure"); if(p.good) fail("no_convergence", "%s: %s", ctx.c_str(), e.what()); }
}
TEST("E01", "gram_schmidt", 500, 10000) {
  size_t n = r.size(2, 30, 120, .01), k = r.in(1, n - 1), ld = n + r.in(0, 3); V B(n * n), U;
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) B[i + n * j] = B[j + n * i] = r.gauss();
  orc::jacobi(n, B, &U); V Vo(ld * k, 7.), v(n), v0;
  for(size_t j = 0; j < k; ++j) for(size_t i = 0; i < n; ++i) Vo[i + ld * j] = U[i + n * j];
  // nearly dependent input makes a single projection insufficient
  double eps = r.pick({1., 1e-3, 1e-7}); for(size_t i = 0; i < n; ++i) { v[i] = eps * r.gauss(); for(size_t j = 0; j < k; ++j) v[i] += (j + 1.) * U[i + n * j]; }
  v0 = v; auto V0 = Vo; gram_schmidt(n, k, Vo.data(), ld, v.data());
  nontrivial(fnv(v.data(), 8 * n)); auto ctx = strf("n=%zu k=%zu ld=%zu eps=%g", n, k, ld, eps);
  ok(V0 == Vo, "basis_modified", "%s", ctx.c_str()); close(dot(v, v), 1, 1e-12, "unit", "%s", ctx.c_str());
  for(size_t j = 0; j < k; ++j) { double s = 0; for(size_t i = 0; i < n; ++i) s += Vo[i + ld * j] * v[i]; close(s, 0, 1e-12, "orthogonal", "%s", ctx.c_str()); }
  // v stays in span(basis, v0), on the side of v0
  V w = v0; for(int rep = 0; rep < 2; ++rep) for(size_t j = 0; j < k; ++j) { double s = 0; for(size_t i = 0; i < n; ++i) s += U[i + n * j] * w[i]; for(size_t i = 0; i < n; ++i) w[i] -= s * U[i + n * j]; }
  double nw = std::sqrt(dot(w, w)); if(nw > 1e-6 * eps) close(dot(w, v) / nw, 1, 1e-5 * (1 + 1e-8 / (eps * eps)) + 1e-4 * (eps < 1e-5), "direction", "%s", ctx.c_str());
}
TEST("E01", "diagonal_guess", 150, 2000) {
  auto p = problem(r, 30); auto M = to_csr(p, r); V x(p.n, 0.); diagonal_guess(p.n, M, x.data());
  double mn = 1e300; for(size_t i = 0; i < p.n; ++i) mn = std::min(mn, p.A[i + p.n * i]);
  double s = 0, d = 0; for(size_t i = 0; i < p.n; ++i) { s += std::abs(x[i]); if(x[i]) d = p.A[i + p.n * i]; }
  nontrivial(fnv(p.A.data(), 8 * p.A.size())); ok(s == 1 && d == mn, "diagonal_guess", "n=%zu sum=%g diag=%g min=%g", p.n, s, d, mn);
}

// ------------------------------------------------------------------ distributed
static V gather(const V& loc) {
  int n = loc.size(); std::vector<int> c(st().size), d(st().size + 1, 0); MPI_Allgather(&n, 1, MPI_INT, c.data(), 1, MPI_INT, MPI_COMM_WORLD);
  for(int i = 0; i < st().size; ++i) d[i + 1] = d[i] + c[i];
  V g(d.back()); MPI_Allgatherv(loc.data(), n, MPI_DOUBLE, g.data(), c.data(), d.data(), MPI_DOUBLE, MPI_COMM_WORLD); return g;
}
static bool same_everywhere(double x) { double a, b; MPI_Allreduce(&x, &a, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(&x, &b, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD); return a == b; }
typedef sparsexx::csr_matrix<double, int32_t> CSR;
TEST("E01", "dist_davidson", 60, 800) {
  QUIET; auto p = problem(r, 40); int gk = r.in(0, 3);
  if((int)p.n < st().size) { while((int)p.n < st().size) p = problem(r, 40); }
  std::vector<size_t> comp; auto x = guess(r, p, gk, &comp);
  double tol = r.pick({1e-6, 1e-8, 1e-9, 1e-15}) * (1 + amax(p.A)); int64_t mm = r.in(p.n, 3 * p.n + 10);
  auto ctx = strf("%s n=%zu %s tol=%g max_m=%ld ranks=%d", p.name.c_str(), p.n, GN[gk], tol, (long)mm, st().size); note(ctx); if(want_sample()) sample(ctx);
  nontrivial(fnv(p.A.data(), 8 * p.A.size()) + st().size); cov(p.name); cov(GN[gk]);
  auto M = to_csr(p, r); sparsexx::dist_sparse_matrix<CSR> A(MPI_COMM_WORLD, M); auto [b, e] = A.row_bounds(st().rank);
  SparseMatrixOperator op(A); V D(p.n), xl(x.begin() + b, x.begin() + e); for(size_t i = 0; i < p.n; ++i) D[i] = p.A[i + p.n * i];
  double lam = 0; bool conv = true; std::string why;
  try { auto [it, l] = p_davidson((int64_t)(e - b), mm, op, D.data() + b, tol, xl.data(), MPI_COMM_WORLD); lam = l; covmax("distributed iterations", it); }
  catch(const std::exception& ex) { conv = false; why = ex.what(); }
  ok(same_everywhere(conv), "ranks_disagree", "%s", ctx.c_str());
  if(!conv) { cov("davidson reported failure"); if(p.good && tol >= 1e-8) fail("no_convergence", "%s: %s", ctx.c_str(), why.c_str()); return; }
  ok(same_everywhere(lam), "eigenvalue_differs_between_ranks", "%s", ctx.c_str());
  check_pair(p, lam, gather(xl), tol, gk != 1 && p.name != "integer", lowest_in(p.n, p.A, comp), ctx); cov("distributed converged");
}
TEST("E01", "dist_davidson_diagonal", 60, 1500) {
  QUIET; Prob p; p.name = "diagonal"; size_t n = p.n = r.size(st().size, 60, 200, .02); double base = r.pick({1.5, -1., 0., .25}); size_t lv = r.in(1, 4); p.A.assign(n * n, 0.); p.good = true; for(size_t i = 0; i < n; ++i) p.A[i + n * i] = base + (r.chance(.5) ? 0 : i % lv); p.W = orc::jacobi(n, p.A);
  V D(n), x(n); double nn = 0; for(size_t i = 0; i < n; ++i) { D[i] = p.A[i + n * i]; x[i] = r.gauss(); nn += x[i] * x[i]; } for(auto& y : x) y /= std::sqrt(nn); int mm = r.in(n + 1, 2 * n + 5); auto ctx = strf("diagonal matrix n=%zu, %zu levels from %g, ranks=%d", n, lv, base, st().size); note(ctx); if(want_sample()) sample(ctx); nontrivial(fnv(p.A.data(), 8 * n * n) + st().size);
  auto M = to_csr(p, r); sparsexx::dist_sparse_matrix<CSR> A(MPI_COMM_WORLD, M); auto [b, e] = A.row_bounds(st().rank); SparseMatrixOperator op(A); V xl(x.begin() + b, x.begin() + e); double l = 0; std::string why;
  try { l = p_davidson((int64_t)(e - b), mm, op, D.data() + b, 1e-8, xl.data(), MPI_COMM_WORLD).second; } catch(const std::exception& ex) { why = ex.what(); }
  if(!ok(why.empty(), "no_convergence", "%s: %s", ctx.c_str(), why.c_str())) return; ok(same_everywhere(l), "eigenvalue_differs_between_ranks", "%s", ctx.c_str()); check_pair(p, l, gather(xl), 1e-8, true, p.W[0], ctx); cov("diagonal matrices");
}
TEST("E01", "dist_helpers", 80, 1000) {
  // orthogonalisation, Rayleigh-Ritz and guess agree with their serial meaning
  size_t n = r.size(st().size, 30, 100, .02), k = r.in(1, std::max<size_t>(1, n - 1)); auto ctx = strf("n=%zu k=%zu ranks=%d", n, k, st().size); note(ctx);
  V B(n * n), U; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) B[i + n * j] = B[j + n * i] = r.gauss();
  orc::jacobi(n, B, &U); nontrivial(fnv(B.data(), 8 * n) + st().size);
  std::vector<size_t> cut(st().size + 1, 0); for(int i = 1; i < st().size; ++i) cut[i] = cut[i - 1] + 1 + r.in(0, (n - cut[i - 1] - (st().size - i)) - 1 > 0 ? (n - cut[i - 1] - (st().size - i)) - 1 : 0); cut[st().size] = n;
  size_t b = cut[st().rank], e = cut[st().rank + 1], nl = e - b;
  if(k < n) {
    V v(n), vl(nl), Vl(nl * k); for(size_t i = 0; i < n; ++i) { v[i] = 1e-4 * r.gauss(); for(size_t j = 0; j < k; ++j) v[i] += U[i + n * j]; }
    for(size_t i = 0; i < nl; ++i) { vl[i] = v[b + i]; for(size_t j = 0; j < k; ++j) Vl[i + nl * j] = U[b + i + n * j]; }
    p_gram_schmidt(nl, k, Vl.data(), nl, vl.data(), MPI_COMM_WORLD); auto g = gather(vl);
    close(dot(g, g), 1, 1e-12, "p_unit", "%s", ctx.c_str());
    for(size_t j = 0; j < k; ++j) { double s = 0; for(size_t i = 0; i < n; ++i) s += U[i + n * j] * g[i]; close(s, 0, 1e-12, "p_orthogonal", "%s", ctx.c_str()); }
    auto s = v; gram_schmidt(n, k, U.data(), n, s.data()); for(size_t i = 0; i < n; ++i) if(!close(g[i], s[i], 1e-8, "p_vs_serial", "%s", ctx.c_str())) break;
  }
  V A(n * n), AU(n * k, 0.); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) A[i + n * j] = A[j + n * i] = r.gauss();
  for(size_t c = 0; c < k; ++c) for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) AU[i + n * c] += A[i + n * j] * U[j + n * c];
  V S(k * k, 0.); for(size_t c = 0; c < k; ++c) for(size_t d = 0; d < k; ++d) for(size_t i = 0; i < n; ++i) S[c + k * d] += U[i + n * c] * AU[i + n * d];
  V W0 = orc::jacobi(k, S), W(k), C(k * k);
  p_rayleigh_ritz(nl, k, U.data() + b, n, AU.data() + b, n, W.data(), C.data(), k, MPI_COMM_WORLD);
  for(size_t i = 0; i < k; ++i) { close(W[i], W0[i], 1e-10 * (1 + n), "ritz_values", "%s %zu", ctx.c_str(), i); double rs = 0; for(size_t a = 0; a < k; ++a) { double s = -W[i] * C[a + k * i]; for(size_t d = 0; d < k; ++d) s += S[a + k * d] * C[d + k * i]; rs = std::max(rs, std::abs(s)); } close(rs, 0, 1e-10 * (1 + n), "ritz_vectors", "%s", ctx.c_str()); }
  if(n > 2 && r.chance(.4)) { double m0 = 1e300; for(size_t i = 0; i < n; ++i) m0 = std::min(m0, A[i + n * i]); for(int q = 0; q < 2; ++q) { size_t i = r.in(0, n - 1); A[i + n * i] = m0; } cov("tied lowest diagonal elements"); }
  Prob p; p.n = n; p.A = A; auto M = to_csr(p, r); sparsexx::dist_sparse_matrix<CSR> DM(MPI_COMM_WORLD, M); auto [db, de] = DM.row_bounds(st().rank);
  V xl(de - db, 3.); p_diagonal_guess(de - db, DM, xl.data()); auto x = gather(xl);
  double mn = 1e300, sm = 0, dv = 0; for(size_t i = 0; i < n; ++i) { mn = std::min(mn, A[i + n * i]); sm += std::abs(x[i]); if(x[i]) dv = A[i + n * i]; }
  ok(sm == 1 && dv == mn, "p_diagonal_guess", "%s: sum %g diag %g min %g", ctx.c_str(), sm, dv, mn);
}
template <size_t N, class IT> void sci(Rng& r) {
  QUIET; size_t n = r.in(1, 6); int kind = r.pick({0, 0, 3, 3, 1}); Ints I = orc::random_ints(r, n, kind);
  size_t na, nb; do { na = r.in(0, n); nb = r.in(0, n); } while(na + nb == 0);
  auto full = orc::full_space(n, na, nb); r.shuffle(full);
  size_t lo = std::min<size_t>(full.size(), 1), m = r.size(lo, std::min<size_t>(full.size(), 70), std::min<size_t>(full.size(), 200), .04); full.resize(m);
  double thr = r.pick({0., 1e-14}); Prob p; p.n = m; p.A = orc::dense_h(I, full); for(auto& x : p.A) if(std::abs(x) <= 1e-12 * (1 + orc::scale(I))) x = 0;
  p.W = orc::jacobi(m, p.A);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu ndet=%zu kind=%d ranks=%d", N, n, na, nb, m, kind, st().size); note(ctx); if(want_sample()) sample(ctx);
  uint64_t h = orc::hashi(I); for(auto x : full) h = h * 31 + orc::hashd(x); nontrivial(h + st().size);
  size_t b0 = 0; for(size_t i = 1; i < m; ++i) if(p.A[i + m * i] < p.A[b0 + m * b0]) b0 = i;
  bool tie = false; for(size_t i = 0; i < m; ++i) if(i != b0 && std::abs(p.A[i + m * i] - p.A[b0 + m * b0]) < 1e-9 * (1 + orc::scale(I))) tie = true;
  auto comp = component(m, p.A, b0); double want = lowest_in(m, p.A, comp), tol = 1e-8 * (1 + orc::scale(I));
  std::vector<std::bitset<N>> D; for(auto x : full) D.push_back(orc::to_bitset<N>(x));
  Gen<N> g(matrix_span<double>(I.T.data(), n, n), rank4_span<double>(I.V.data(), n, n, n, n));
  V C; double E = 0; bool conv = true; std::string why;
  // a second solve starts from the first one's answer
  for(int pass = 0; pass < 2 && conv; ++pass) {
    try { E = selected_ci_diag<N, IT>(D.begin(), D.end(), g, thr, m + 10, tol, C, MPI_COMM_WORLD, true); } catch(const std::exception& e) { conv = false; why = e.what(); }
    ok(same_everywhere(conv), "ranks_disagree", "%s", ctx.c_str());
    if(!conv) { cov("selected CI reported failure"); if(!tie && kind != 1) fail("no_convergence", "%s pass %d: %s", ctx.c_str(), pass, why.c_str()); return; }
    ok(same_everywhere(E), "energy_differs_between_ranks", "%s", ctx.c_str());
    sparsexx::dist_sparse_matrix<CSR> T(MPI_COMM_WORLD, m, m); auto [rb, re] = T.row_bounds(st().rank);
    ok((long)C.size() == (long)(re - rb), "piece_size", "%s: %zu rows %ld..%ld", ctx.c_str(), C.size(), (long)rb, (long)re);
    if(re == rb) cov("ranks without rows");
    auto x = gather(C); if(!ok(x.size() == m, "vector_size", "%s: %zu", ctx.c_str(), x.size())) return;
    check_pair(p, E, x, tol, !tie && kind != 1, want, ctx + (pass ? " restarted" : "")); cov("selected CI converged");
  }
}
TEST("E01", "dist_selected_ci64", 60, 700) { sci<64, int32_t>(r); }
TEST("E01", "dist_selected_ci128", 30, 400) { sci<128, int64_t>(r); }

// ------------------------------------------------------------------ E03
template <size_t N> void casci(Rng& r) {
  QUIET; size_t n = r.in(1, 5), n2 = n * n, n4 = n2 * n2; int kind = r.pick({0, 3, 3}); Ints I = orc::random_ints(r, n, kind), I0 = I;
  size_t na, nb; bool big = r.size(0, 0, 1, .05); do { na = r.in(0, n); nb = r.in(0, n); } while(na + nb == 0 || (n == 5 && na > 1 && na < 4 && nb > 1 && nb < 4 && !big && !st().thorough));
  auto full = orc::full_space(n, na, nb); size_t m = full.size(); auto H = orc::dense_h(I0, full); V Z; auto W = orc::jacobi(m, H, &Z);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu dim=%zu kind=%d ranks=%d", N, n, na, nb, m, kind, st().size); note(ctx); if(want_sample()) sample(ctx);
  nontrivial(orc::hashi(I) + na * 16 + nb + 1000 * st().size); covmax("CI dimension", m); double sc = 1 + orc::scale(I);
  MCSCFSettings s; s.ci_max_subspace = 300; s.ci_res_tol = 1e-9 * sc; s.ci_matel_tol = 0;
  V O(n2, 0.), T(n4, 0.), C; double E = 0; bool conv = true; std::string why;
  try { E = compute_casci_rdms<Gen<N>>(s, NumOrbital(n), na, nb, I.T.data(), I.V.data(), O.data(), T.data(), C, MPI_COMM_WORLD); } catch(const std::exception& e) { conv = false; why = e.what(); }
  ok(same_everywhere(conv), "ranks_disagree", "%s", ctx.c_str());
  if(!conv) { fail("no_convergence", "%s: %s", ctx.c_str(), why.c_str()); return; }
  // The solver starts from the lowest determinant: levels of another symmetry (spin), exactly orthogonal to it, are out of reach.
  double want = W[0]; { size_t b = 0; for(size_t i = 1; i < m; ++i) if(H[i + m * i] < H[b + m * b]) b = i;
    for(size_t k = 0; k < m;) { size_t e = k; double o = 0; for(; e < m && W[e] - W[k] < 1e-9 * sc; ++e) o += Z[b + m * e] * Z[b + m * e]; if(std::abs(E - W[k]) <= 1e-8 * sc || o > 1e-12) { want = W[k]; break; } k = e; }
    if(want != W[0]) cov("ground state orthogonal to the starting determinant"); }
  close(E, want, 1e-8 * sc, "energy", "%s", ctx.c_str()); ok(same_everywhere(E), "energy_differs_between_ranks", "%s", ctx.c_str());
  ok(I.T == I0.T && I.V == I0.V, "integrals_modified", "%s", ctx.c_str());
  double tr = 0, Er = 0, tr2 = 0; for(size_t p = 0; p < n; ++p) { tr += O[p + n * p]; for(size_t q = 0; q < n; ++q) tr2 += T[p + n * (p + n * (q + n * q))]; }
  for(size_t i = 0; i < n2; ++i) Er += O[i] * I0.T[i]; for(size_t i = 0; i < n4; ++i) Er += T[i] * I0.V[i];
  double ne = na + nb; close(tr, ne, 1e-8, "electron_count", "%s", ctx.c_str()); close(tr2, .5 * ne * (ne - 1), 1e-7, "pair_count", "%s", ctx.c_str()); close(Er, E, 1e-8 * sc * n4, "density_energy", "%s", ctx.c_str());
  for(auto x : {O[n2 / 2], O[0], T[n4 / 3], T[n4 - 1]}) ok(same_everywhere(x), "density_differs_between_ranks", "%s", ctx.c_str());
  // element by element against the returned CI vector
  auto x = gather(C); if(!ok(x.size() == m, "vector_size", "%s: %zu", ctx.c_str(), x.size())) return;
  auto dets = generate_hilbert_space<N>(n, na, nb); V R1(n2, 0.), R2(n4, 0.); std::vector<u128> d; for(auto& b : dets) d.push_back(orc::from_bitset<N>(b));
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(n, d[i], d[j], x[i] * x[j], R1, &R2);
  for(size_t i = 0; i < n2; ++i) if(!close(O[i], R1[i], 1e-9, "ordm", "%s flat %zu", ctx.c_str(), i)) break;
  auto a = orc::sym8(n, T.data()), b = orc::sym8(n, R2.data()); for(size_t i = 0; i < n4; ++i) if(!close(a[i], b[i], 1e-9, "trdm", "%s flat %zu", ctx.c_str(), i)) break;
  // solving again from the returned vector gives the same answer
  V O2(n2, 0.), T2(n4, 0.); double E2 = compute_casci_rdms<Gen<N>>(s, NumOrbital(n), na, nb, I.T.data(), I.V.data(), O2.data(), T2.data(), C, MPI_COMM_WORLD);
  close(E2, E, 1e-8 * sc, "restart_energy", "%s", ctx.c_str());
}
TEST("E03", "casci64", 60, 500) { casci<64>(r); }
TEST("E03", "casci128", 30, 250) { casci<128>(r); }

// ------------------------------------------------------------------ E02
typedef std::complex<double> Z;
static double cj(double x) { return x; } static Z cj(Z x) { return std::conj(x); }
static double re(double x) { return x; } static double re(Z x) { return x.real(); }
template <class T> T rg(Rng& r); template <> double rg<double>(Rng& r) { return r.gauss(); } template <> Z rg<Z>(Rng& r) { double a = r.gauss(); return Z(a, r.gauss()); }
template <class T> struct HP { size_t n; std::vector<T> A; V W; double nrm; };
template <class T> std::vector<T> unitary(Rng& r, size_t n) {
  std::vector<T> U(n * n); for(auto& x : U) x = rg<T>(r);
  for(size_t j = 0; j < n; ++j) for(int rep = 0; rep < 2; ++rep) { for(size_t k = 0; k < j; ++k) { T s = 0; for(size_t i = 0; i < n; ++i) s += cj(U[i + n * k]) * U[i + n * j]; for(size_t i = 0; i < n; ++i) U[i + n * j] -= s * U[i + n * k]; } double q = 0; for(size_t i = 0; i < n; ++i) q += std::norm(U[i + n * j]); for(size_t i = 0; i < n; ++i) U[i + n * j] /= std::sqrt(q); }
  return U;
}
template <class T> HP<T> herm(Rng& r, size_t n) {
  HP<T> p; p.n = n; p.W.resize(n); p.A.assign(n * n, T(0)); int k = r.in(0, 3);
  for(auto& x : p.W) x = k == 0 ? r.gauss() : k == 1 ? r.uni(1, 10) : k == 2 ? (double)r.in(-3, 3) : -r.uni(0, 5);
  std::sort(p.W.begin(), p.W.end()); auto U = unitary<T>(r, n);
  for(size_t q = 0; q < n; ++q) for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) p.A[i + n * j] += p.W[q] * U[i + n * q] * cj(U[j + n * q]);
  p.nrm = std::max(std::abs(p.W[0]), std::abs(p.W[n - 1])); return p;
}
template <class T> void lob(Rng& r) {
  using namespace lobpcgxx;
  int64_t K = r.in(1, 4), NR = r.in(1, K), n = 5 * K + r.size(2, 40, 150, .01), ld = n + r.in(0, 3); auto p = herm<T>(r, n);
  auto ctx = strf("n=%ld K=%ld NR=%ld ld=%ld lo=%g hi=%g", (long)n, (long)K, (long)NR, (long)ld, p.W[0], p.W[n - 1]); note(ctx); if(want_sample()) sample(ctx); nontrivial(fnv(p.W.data(), 8 * n));
  lobpcg_settings s; s.conv_tol = r.pick({1e-3, 1e-5, 1e-6, 1e-7}); s.maxiter = r.chance(.85) ? 2000 : r.in(0, 4); s.track_convergence = r.chance(.5); s.print_iter = false;
  auto X = unitary<T>(r, n); std::vector<T> Vv(ld * K, T(-77)); for(int64_t j = 0; j < K; ++j) for(int64_t i = 0; i < n; ++i) Vv[i + ld * j] = X[i + n * j];
  long applied = 0, precond = 0; bool shape = true;
  operator_action_type<T> A = [&](int64_t N, int64_t k, const T* x, int64_t lx, T* y, int64_t ly) { applied += k; shape &= N == n && k <= 3 * K && lx >= n && ly >= n; for(int64_t c = 0; c < k; ++c) for(int64_t i = 0; i < n; ++i) { T t = 0; for(int64_t j = 0; j < n; ++j) t += p.A[i + n * j] * x[j + lx * c]; y[i + ly * c] = t; } };
  operator_action_type<T> Pc = [&](int64_t N, int64_t k, const T* x, int64_t lx, T* y, int64_t ly) { precond += k; shape &= N == n && k == K; for(int64_t c = 0; c < k; ++c) for(int64_t i = 0; i < n; ++i) y[i + ly * c] = x[i + lx * c] / (1. + std::abs(re(p.A[i + n * i]))); };
  bool usep = r.chance(.4); lobpcg_operator<T> op = usep ? lobpcg_operator<T>(A, Pc) : lobpcg_operator<T>(A);
  int form = r.in(0, 3), crit = 0; V lam(NR + 1, 99.), res(NR + 1, 99.); lobpcg_convergence<T> conv; int64_t lw = -1; bool done = true; std::string why;
  try {
    if(form == 0) lobpcg(s, n, K, NR, op, lam.data(), Vv.data(), ld, res.data());
    else if(form == 1) lobpcg(s, n, K, NR, op, lam.data(), Vv.data(), ld, res.data(), conv);
    else {
      lobpcg<T>(s, n, K, NR, op, nullptr, nullptr, ld, nullptr, nullptr, lw, conv); ok(lw == lobpcg_lwork(n, K), "workspace_query", "%s: %ld", ctx.c_str(), (long)lw);
      std::vector<T> w(lw);
      if(r.chance(.1)) { int64_t bad = lw - 1; bool th = throws([&] { lobpcg(s, n, K, NR, op, lam.data(), Vv.data(), ld, res.data(), w.data(), bad, conv); }); ok(th, "short_workspace_accepted", "%s", ctx.c_str()); }
      if(form == 2) lobpcg(s, n, K, NR, op, lam.data(), Vv.data(), ld, res.data(), w.data(), lw, conv);
      else { crit = 1; lobpcg_convergence_check<T> ck = [](int64_t nr, const T* a, const T* b, T tol) { for(int64_t i = 0; i < nr; ++i) if(!(re(a[i]) < re(tol))) return false; return true; }; lobpcg(s, n, K, NR, op, lam.data(), Vv.data(), ld, res.data(), w.data(), lw, ck, conv); }
    }
  } catch(const std::exception& e) { done = false; why = e.what(); }
  ok(shape, "operator_shapes", "%s", ctx.c_str());
  for(int64_t j = 0; j < K; ++j) for(int64_t i = n; i < ld; ++i) if(!ok(Vv[i + ld * j] == T(-77), "padding_written", "%s", ctx.c_str())) break;
  ok(lam[NR] == 99. && res[NR] == 99., "beyond_NR_written", "%s", ctx.c_str());
  if(usep && done && s.maxiter > 0 && applied > K) ok(precond > 0, "preconditioner_unused", "%s", ctx.c_str());
  if(form && s.track_convergence && !conv.conv_data.empty()) { auto& l = conv.conv_data.back(); if(done) { ok((int64_t)l.W.size() == K && (int64_t)l.res.size() == K && (int64_t)l.rel_res.size() == K, "history_shape", "%s", ctx.c_str()); for(int64_t i = 0; i < NR; ++i) ok(l.W[i] == lam[i] && l.rel_res[i] == res[i], "history_last", "%s", ctx.c_str()); } ok((int64_t)conv.conv_data.size() <= s.maxiter, "history_len", "%s", ctx.c_str()); }
  if(!done) { cov("lobpcg reported failure"); if(s.maxiter >= 2000 && s.conv_tol >= 1e-5 && why.find("Cholesky") == std::string::npos) fail("no_convergence", "%s tol=%g: %s", ctx.c_str(), s.conv_tol, why.c_str()); return; }
  cov("lobpcg converged"); cov(usep ? "preconditioned" : "unpreconditioned");
  for(int64_t i = 0; i < NR; ++i) {
    std::vector<T> y(n, T(0)); for(int64_t j = 0; j < n; ++j) for(int64_t q = 0; q < n; ++q) y[q] += p.A[q + n * j] * Vv[j + ld * i];
    double a = 0, ay = 0; for(int64_t q = 0; q < n; ++q) { a += std::norm(y[q] - lam[i] * Vv[q + ld * i]); ay += std::norm(y[q]); } a = std::sqrt(a); ay = std::sqrt(ay);
    double rel = a / (ay + std::abs(lam[i])), bound = crit ? s.conv_tol : s.conv_tol * (ay + std::abs(lam[i]));
    ok(a <= bound * 1.001 + 1e-12 * p.nrm, "residual", "%s pair %ld: %g > %g", ctx.c_str(), (long)i, a, bound);
    close(res[i], rel, 1e-9 + 1e-4 * rel + 1e-12 * p.nrm / (ay + std::abs(lam[i]) + 1e-300), "reported_residual", "%s pair %ld", ctx.c_str(), (long)i);
    if(form && s.track_convergence && !conv.conv_data.empty() && (int64_t)conv.conv_data.back().res.size() == K) close(conv.conv_data.back().res[i], a, 1e-9 * ay + 1e-4 * a + 1e-12 * p.nrm, "history_residual", "%s pair %ld", ctx.c_str(), (long)i);
    if(i) ok(lam[i] >= lam[i - 1] - 1e-12 * p.nrm, "ascending", "%s", ctx.c_str());
    if(s.conv_tol < 1e-4) close(lam[i], p.W[i], 2 * bound + 1e-10 * p.nrm, "lowest", "%s pair %ld", ctx.c_str(), (long)i);
    for(int64_t j = 0; j <= i; ++j) { T d = 0; for(int64_t q = 0; q < n; ++q) d += cj(Vv[q + ld * j]) * Vv[q + ld * i]; close(std::abs(d - T(i == j ? 1. : 0.)), 0, 1e-7, "orthonormal", "%s (%ld,%ld)", ctx.c_str(), (long)i, (long)j); }
  }
}
TEST("E02", "lobpcg_real", 200, 6000) { lob<double>(r); }
template <class T> void blk(Rng& r) {
  using namespace lobpcgxx; int64_t n = r.size(1, 25, 80, .01), K = r.in(1, n), ld = n + r.in(0, 4), lda = n + r.in(0, 4); auto ctx = strf("n=%ld K=%ld ld=%ld", (long)n, (long)K, (long)ld); note(ctx);
  std::vector<T> X(ld * K, T(-5)); for(int64_t j = 0; j < K; ++j) for(int64_t i = 0; i < n; ++i) X[i + ld * j] = rg<T>(r) + (i == j ? 3. : 0.);
  nontrivial(fnv(X.data(), sizeof(T) * X.size())); auto X0 = X;
  { auto Q = X; bool fine = true; try { cholqr(n, K, Q.data(), ld); } catch(const std::runtime_error&) { fine = false; cov("cholqr rejected"); }
    if(fine) { cov("cholqr done"); for(int64_t a = 0; a < K; ++a) for(int64_t b = 0; b < K; ++b) { T d = 0; for(int64_t i = 0; i < n; ++i) d += cj(Q[i + ld * a]) * Q[i + ld * b]; close(std::abs(d - T(a == b ? 1. : 0.)), 0, 1e-9, "cholqr_orthonormal", "%s", ctx.c_str()); }
      // the span and its nesting are kept: column j depends on the first j inputs only, with positive weight
      for(int64_t a = 0; a < K; ++a) for(int64_t b = 0; b < a; ++b) { T d = 0; for(int64_t i = 0; i < n; ++i) d += cj(Q[i + ld * a]) * X0[i + ld * b]; close(std::abs(d), 0, 1e-7, "cholqr_span", "%s (%ld,%ld)", ctx.c_str(), (long)a, (long)b); }
      for(int64_t a = 0; a < K; ++a) for(int64_t i = n; i < ld; ++i) ok(Q[i + ld * a] == T(-5), "cholqr_padding", "%s", ctx.c_str()); } }
  auto U = unitary<T>(r, n); auto p = herm<T>(r, n); std::vector<T> B(ld * K, T(-5)), AB(lda * K, T(-6));
  for(int64_t j = 0; j < K; ++j) for(int64_t i = 0; i < n; ++i) { B[i + ld * j] = U[i + n * j]; T t = 0; for(int64_t q = 0; q < n; ++q) t += p.A[i + n * q] * U[q + n * j]; AB[i + lda * j] = t; }
  int64_t ldc = K + r.in(0, 2); std::vector<T> C(ldc * K, T(-7)); V W(K);
  // (the complex specialisation does not compile against this LAPACK++)
  if constexpr(std::is_same_v<T, double>) { rayleigh_ritz(n, K, B.data(), ld, AB.data(), lda, W.data(), C.data(), ldc);
  for(int64_t a = 0; a < K; ++a) {
    if(a) ok(W[a] >= W[a - 1], "ritz_order", "%s", ctx.c_str());
    for(int64_t b = 0; b < K; ++b) { T s = 0, o = 0; for(int64_t c = 0; c < K; ++c) { T m = 0; for(int64_t i = 0; i < n; ++i) m += cj(B[i + ld * b]) * AB[i + lda * c]; s += m * C[c + ldc * a]; o += cj(C[c + ldc * b]) * C[c + ldc * a]; } close(std::abs(s - W[a] * C[b + ldc * a]), 0, 1e-10 * (1 + p.nrm) * K, "ritz_pairs", "%s", ctx.c_str()); close(std::abs(o - T(a == b ? 1. : 0.)), 0, 1e-10, "ritz_orthonormal", "%s", ctx.c_str()); }
    for(int64_t i = K; i < ldc; ++i) ok(C[i + ldc * a] == T(-7), "ritz_padding", "%s", ctx.c_str());
  }
  if(K == n) for(int64_t a = 0; a < K; ++a) close(W[a], p.W[a], 1e-9 * (1 + p.nrm), "ritz_complete", "%s", ctx.c_str());
  }
  int64_t ldr = n + r.in(0, 2); std::vector<T> R(ldr * K, T(-8)); V w(K), ar(K), rr(K); for(auto& x : w) x = r.gauss();
  std::vector<T> wt(K); residuals(n, K, B.data(), ld, AB.data(), lda, w.data(), R.data(), ldr, ar.data(), rr.data());
  for(int64_t k = 0; k < K; ++k) { double s = 0, sa = 0; for(int64_t i = 0; i < n; ++i) { T d = AB[i + lda * k] - w[k] * B[i + ld * k]; s += std::norm(d); sa += std::norm(AB[i + lda * k]); close(std::abs(R[i + ldr * k] - d), 0, 1e-12 * (1 + p.nrm), "residual_vector", "%s", ctx.c_str()); } close(ar[k], std::sqrt(s), 1e-11 * (1 + p.nrm), "residual_norm", "%s", ctx.c_str()); close(rr[k], std::sqrt(s) / (std::sqrt(sa) + std::abs(w[k])), 1e-10, "residual_relative", "%s", ctx.c_str()); for(int64_t i = n; i < ldr; ++i) ok(R[i + ldr * k] == T(-8), "residual_padding", "%s", ctx.c_str()); }
  int64_t M = r.in(1, K), O = r.in(1, M); std::vector<T> G(M * O), wk(n * O), Y = B; for(auto& x : G) x = rg<T>(r);
  rotate_basis(n, O, M, Y.data(), ld, G.data(), M, wk.data());
  for(int64_t o = 0; o < K; ++o) for(int64_t i = 0; i < ld; ++i) { T want = B[i + ld * o]; if(o < O && i < n) { want = 0; for(int64_t m = 0; m < M; ++m) want += B[i + ld * m] * G[m + M * o]; } close(std::abs(Y[i + ld * o] - want), 0, 1e-11 * (1 + M), "rotate", "%s M=%ld O=%ld (%ld,%ld)", ctx.c_str(), (long)M, (long)O, (long)i, (long)o); }
}
TEST("E02", "block_helpers_real", 300, 8000) { blk<double>(r); }
TEST("E02", "block_helpers_complex", 150, 4000) { blk<Z>(r); }
TEST("E02", "convergence_checks", 500, 5000) {
  using namespace lobpcgxx; int64_t n = r.in(1, 6); V a(n), b(n); double tol = r.pick({1e-3, 1e-6, 1.}); for(auto& x : a) x = tol * r.pick({.1, .999, 1., 1.001, 10.}); for(auto& x : b) x = tol * r.pick({.1, .5, .999, 1., 2.});
  if(r.chance(.4)) for(auto& x : a) x = .5 * tol; if(r.chance(.4)) for(auto& x : b) x = .5 * tol; if(r.chance(.1)) a[r.in(0, n - 1)] = NAN;
  int64_t m = r.in(1, n); bool wa = true, wb = true; for(int64_t i = 0; i < m; ++i) { wa &= a[i] < tol; wb &= b[i] < tol; } nontrivial(fnv(a.data(), 8 * n, fnv(b.data(), 8 * n)));
  ok(lobpcg_absres_convergence_check(m, a.data(), b.data(), tol) == wa, "abs_check", "n=%ld m=%ld", (long)n, (long)m); ok(lobpcg_relres_convergence_check(m, a.data(), b.data(), tol) == wb, "rel_check", "n=%ld m=%ld", (long)n, (long)m);
}
