// Reference model of a sparse matrix: an ordered map of entries.
#pragma once
#include <complex>
#include <sparsexx/sparsexx_config.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/graph.hpp>
namespace sp {
using vh::Rng; using vh::strf; using vh::ok;
typedef std::complex<double> Z;
template <class T> T rv(Rng& r) { return (T)(r.chance(.3) ? (r.in(0, 1) ? r.in(1, 9) : -r.in(1, 9)) : r.gauss() * std::pow(10., r.in(-3, 3)) + 1e-9); }
template <> inline int64_t rv<int64_t>(Rng& r) { auto v = r.in(1, 1000); return r.in(0, 1) ? v : -v; }
template <> inline Z rv<Z>(Rng& r) { double a = r.gauss(); return Z(a, r.gauss()); }

template <class T> struct Mat {
  size_t m = 0, n = 0; std::map<std::pair<size_t, size_t>, T> e; std::string name;
  std::vector<T> dense(size_t ld = 0) const { if(!ld) ld = m; std::vector<T> d(ld * n, T(0)); for(auto& [k, v] : e) d[k.first + ld * k.second] = v; return d; }
  Mat transpose() const { Mat t; t.m = n; t.n = m; for(auto& [k, v] : e) t.e[{k.second, k.first}] = v; return t; }
  uint64_t hash() const { uint64_t h = m * 1000003 + n; for(auto& [k, v] : e) { h = vh::fnv(&k.first, 8, h); h = vh::fnv(&k.second, 8, h); h = vh::fnv(&v, sizeof(T), h); } return h; }
  size_t empty_rows() const { std::set<size_t> s; for(auto& [k, v] : e) s.insert(k.first); return m - s.size(); }
  size_t empty_cols() const { std::set<size_t> s; for(auto& [k, v] : e) s.insert(k.second); return n - s.size(); }
  bool operator==(const Mat& o) const { return m == o.m && n == o.n && e == o.e; }
};
// patterns chosen so that every edge of the formats occurs: empty leading, trailing and
// interior rows/columns, no entries at all, full, diagonal, triangular, one row/column
template <class T> Mat<T> random_mat(Rng& r, size_t mx = 14, int square = -1) {
  bool huge = mx >= 10 && r.chance(.004); if(huge) mx = r.pick({200, 400, 1000}); else if(r.chance(.03)) mx *= 6;
  Mat<T> A; A.m = r.chance(.1) ? 1 : r.in(1, mx); A.n = r.chance(.1) ? 1 : r.in(1, mx);
  if(square == 1 || (square < 0 && r.chance(.4))) A.n = A.m;
  int k = r.in(0, 10); double p = k == 0 ? 1 : k == 1 ? 0 : r.pick({.05, .15, .3, .5, .8});
  static const char* names[] = {"full", "empty", "random", "random", "empty rows", "empty columns", "diagonal", "lower triangle", "upper triangle", "banded", "corners"};
  if(huge) { if(k == 0) k = 2; A.m = std::max<size_t>(A.m, 1 + r.in(0, mx)); p = std::min(p, 6. / std::sqrt((double)A.m * A.n)); if(A.n == 1 && r.chance(.5)) p = .5; if(square == 1) A.n = A.m; vh::cov("large matrices"); }
  A.name = names[k]; vh::covmax("rows", A.m);
  std::vector<char> er(A.m, 0), ec(A.n, 0);
  if(k == 4 || k == 5) { for(auto& x : er) x = k == 4 && r.chance(.5); for(auto& x : ec) x = k == 5 && r.chance(.5); if(r.chance(.5)) { if(k == 4) er[0] = 1; else ec[0] = 1; } if(r.chance(.5)) { if(k == 4) er.back() = 1; else ec.back() = 1; } if(!huge) p = .7; }
  for(size_t i = 0; i < A.m; ++i) for(size_t j = 0; j < A.n; ++j) {
    bool in = r.chance(p) && !er[i] && !ec[j];
    if(k == 6) in = i == j && r.chance(.8);
    if(k == 7) in = i >= j && r.chance(huge ? p : .6);
    if(k == 8) in = i <= j && r.chance(huge ? p : .6);
    if(k == 9) in = (i > j ? i - j : j - i) <= 2;
    if(k == 10) in = (i == 0 || i + 1 == A.m) && (j == 0 || j + 1 == A.n);
    if(in) A.e[{i, j}] = rv<T>(r);
  }
  vh::cov("pattern " + A.name); if(A.empty_rows()) vh::cov("matrices with empty rows"); if(A.empty_cols()) vh::cov("matrices with empty columns"); if(A.m != A.n) vh::cov("rectangular matrices");
  vh::covmax("nonzeros", A.e.size());
  return A;
}
enum Order { BYROW, BYCOL, SHUFFLED };
template <class T, class I> sparsexx::coo_matrix<T, I> make_coo(Rng& r, const Mat<T>& A, int idx, Order o) {
  std::vector<std::pair<std::pair<size_t, size_t>, T>> v(A.e.begin(), A.e.end());
  if(o == BYCOL) std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::make_pair(a.first.second, a.first.first) < std::make_pair(b.first.second, b.first.first); });
  if(o == SHUFFLED) r.shuffle(v);
  std::vector<I> ri, ci; std::vector<T> nz;
  for(auto& x : v) { ri.push_back(x.first.first + idx); ci.push_back(x.first.second + idx); nz.push_back(x.second); }
  return sparsexx::coo_matrix<T, I>(A.m, A.n, std::move(ci), std::move(ri), std::move(nz), idx);
}
template <class T, class I> sparsexx::csr_matrix<T, I> make_csr(Rng& r, const Mat<T>& A, int idx, bool sorted = true) {
  sparsexx::csr_matrix<T, I> C(A.m, A.n, A.e.size(), idx);
  std::vector<std::vector<std::pair<size_t, T>>> rows(A.m);
  for(auto& [k, v] : A.e) rows[k.first].push_back({k.second, v});
  size_t p = 0; C.rowptr()[0] = idx;
  for(size_t i = 0; i < A.m; ++i) { if(!sorted) r.shuffle(rows[i]); for(auto& [j, v] : rows[i]) { C.colind()[p] = j + idx; C.nzval()[p] = v; ++p; } C.rowptr()[i + 1] = p + idx; }
  return C;
}
template <class T, class I> sparsexx::csc_matrix<T, I> make_csc(const Mat<T>& A, int idx) {
  sparsexx::csc_matrix<T, I> C(A.m, A.n, A.e.size(), idx); auto t = A.transpose(); size_t p = 0, j = 0; C.colptr()[0] = idx;
  for(auto& [k, v] : t.e) { while(j < k.first) C.colptr()[++j] = p + idx; C.rowind()[p] = k.second + idx; C.nzval()[p] = v; ++p; }
  while(j < A.n) C.colptr()[++j] = p + idx;
  return C;
}
// structural validity + exact content; false (and a recorded violation) otherwise
template <class S, class T> bool check_ptr(const char* key, const std::string& ctx, size_t outer, size_t inner, size_t nnz, int idx, const S& ptr, const S& ind, const std::vector<T>& nz, std::vector<std::tuple<size_t, size_t, T>>& out, int sorted) {
  if(!ok(ptr.size() == outer + 1 && ind.size() == nnz && nz.size() == nnz, key, "%s: array sizes %zu %zu %zu, want %zu %zu", ctx.c_str(), ptr.size(), ind.size(), nz.size(), outer + 1, nnz)) return false;
  if(!ok(ptr[0] == idx && (size_t)ptr[outer] == nnz + idx, key, "%s: pointer array runs from %ld to %ld, want %d to %zu", ctx.c_str(), (long)ptr[0], (long)ptr[outer], idx, nnz + idx)) return false;
  for(size_t i = 0; i < outer; ++i) if(!ok(ptr[i] <= ptr[i + 1] && ptr[i] >= idx, key, "%s: pointer array decreases at %zu", ctx.c_str(), i)) return false;
  for(size_t i = 0; i < outer; ++i) for(size_t p = ptr[i] - idx; p < (size_t)(ptr[i + 1] - idx); ++p) {
    if(!ok(ind[p] >= idx && ind[p] < (long)inner + idx, key, "%s: index %ld out of range [%d,%zu)", ctx.c_str(), (long)ind[p], idx, inner + idx)) return false;
    if(sorted && p > (size_t)(ptr[i] - idx)) if(!ok(ind[p - 1] < ind[p], key, "%s: indices of row/column %zu are not strictly increasing", ctx.c_str(), i)) return false;
    out.push_back({i, (size_t)(ind[p] - idx), nz[p]});
  }
  return true;
}
template <class T> bool compare(const char* key, const std::string& ctx, const Mat<T>& A, const std::vector<std::tuple<size_t, size_t, T>>& got, bool transposed) {
  Mat<T> B; B.m = A.m; B.n = A.n;
  for(auto& [i, j, v] : got) { auto k = transposed ? std::make_pair(j, i) : std::make_pair(i, j); if(!ok(!B.e.count(k), key, "%s: entry (%zu,%zu) stored twice", ctx.c_str(), k.first, k.second)) return false; B.e[k] = v; }
  for(auto& [k, v] : A.e) { auto it = B.e.find(k); if(!ok(it != B.e.end(), key, "%s: entry (%zu,%zu) lost", ctx.c_str(), k.first, k.second)) return false; if(!ok(it->second == v, key, "%s: entry (%zu,%zu) changed value", ctx.c_str(), k.first, k.second)) return false; }
  return ok(B.e.size() == A.e.size(), key, "%s: %zu entries, want %zu", ctx.c_str(), B.e.size(), A.e.size());
}
// sorted: -1 don't care, 1 required
template <class T, class I> bool check(const char* key, const std::string& ctx, const sparsexx::csr_matrix<T, I>& C, const Mat<T>& A, int idx, int sorted = 1) {
  if(!ok((size_t)C.m() == A.m && (size_t)C.n() == A.n && (size_t)C.nnz() == A.e.size() && C.indexing() == idx, key, "%s: csr %ldx%ld nnz %ld base %ld, want %zux%zu %zu %d", ctx.c_str(), (long)C.m(), (long)C.n(), (long)C.nnz(), (long)C.indexing(), A.m, A.n, A.e.size(), idx)) return false;
  std::vector<std::tuple<size_t, size_t, T>> g; if(!check_ptr(key, ctx, A.m, A.n, A.e.size(), idx, C.rowptr(), C.colind(), C.nzval(), g, sorted == 1)) return false;
  return compare(key, ctx, A, g, false);
}
template <class T, class I> bool check(const char* key, const std::string& ctx, const sparsexx::csc_matrix<T, I>& C, const Mat<T>& A, int idx, int sorted = 1) {
  if(!ok((size_t)C.m() == A.m && (size_t)C.n() == A.n && (size_t)C.nnz() == A.e.size() && C.indexing() == idx, key, "%s: csc %ldx%ld nnz %ld base %ld, want %zux%zu %zu %d", ctx.c_str(), (long)C.m(), (long)C.n(), (long)C.nnz(), (long)C.indexing(), A.m, A.n, A.e.size(), idx)) return false;
  std::vector<std::tuple<size_t, size_t, T>> g; if(!check_ptr(key, ctx, A.n, A.m, A.e.size(), idx, C.colptr(), C.rowind(), C.nzval(), g, sorted == 1)) return false;
  return compare(key, ctx, A, g, true);
}
// order: -1 any, BYROW, BYCOL (lexicographic)
template <class T, class I> bool check(const char* key, const std::string& ctx, const sparsexx::coo_matrix<T, I>& C, const Mat<T>& A, int idx, int order = -1) {
  if(!ok((size_t)C.m() == A.m && (size_t)C.n() == A.n && (size_t)C.nnz() == A.e.size() && C.indexing() == idx, key, "%s: coo %ldx%ld nnz %ld base %ld, want %zux%zu %zu %d", ctx.c_str(), (long)C.m(), (long)C.n(), (long)C.nnz(), (long)C.indexing(), A.m, A.n, A.e.size(), idx)) return false;
  size_t z = A.e.size(); if(!ok(C.rowind().size() == z && C.colind().size() == z && C.nzval().size() == z, key, "%s: coo array sizes %zu %zu %zu, want %zu", ctx.c_str(), C.rowind().size(), C.colind().size(), C.nzval().size(), z)) return false;
  std::vector<std::tuple<size_t, size_t, T>> g;
  for(size_t p = 0; p < z; ++p) {
    long i = C.rowind()[p], j = C.colind()[p];
    if(!ok(i >= idx && i < (long)A.m + idx && j >= idx && j < (long)A.n + idx, key, "%s: coo index (%ld,%ld) out of range", ctx.c_str(), i, j)) return false;
    if(p && order >= 0) { auto f = [&](size_t q) { return order == BYROW ? std::make_pair((long)C.rowind()[q], (long)C.colind()[q]) : std::make_pair((long)C.colind()[q], (long)C.rowind()[q]); }; if(!ok(f(p - 1) < f(p), key, "%s: entries out of order at %zu", ctx.c_str(), p)) return false; }
    g.push_back({(size_t)(i - idx), (size_t)(j - idx), C.nzval()[p]});
  }
  return compare(key, ctx, A, g, false);
}
// swallows the library's progress printing
struct Mute { std::streambuf* b; std::ostringstream o; Mute() { b = std::cout.rdbuf(o.rdbuf()); } ~Mute() { std::cout.rdbuf(b); } };
}  // namespace sp
