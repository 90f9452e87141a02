// S01 formats and conversions, S02 products, S03 extraction, S04 permutations, F02 (serial) files.
#define VH_MAIN
#include "common.hpp"
#include "sp_common.hpp"
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <omp.h>
using namespace vh; using namespace sp; using namespace sparsexx;

#define CTX(A, extra) strf("%zux%zu %s nnz=%zu %s", A.m, A.n, A.name.c_str(), A.e.size(), extra)
template <class T> static void begin(const Mat<T>& A, const std::string& ctx) { note(ctx); nontrivial(A.hash()); if(want_sample()) sample(ctx); vh::threads(1 + (A.hash() >> 7) % 4); }

// ------------------------------------------------------------------ S01
template <class T, class I> void conversions(Rng& r) {
  auto A = random_mat<T>(r); int idx = r.in(0, 1); auto ctx = CTX(A, strf("base=%d I=%zu T=%zu", idx, sizeof(I), sizeof(T)).c_str()); begin(A, ctx);
  auto ord = (Order)r.in(0, 2); auto C = make_coo<T, I>(r, A, idx, ord), C0 = C; check("coo_ctor", ctx, C, A, idx);
  // sortedness predicates agree with the data
  bool sr = true, sc = true; for(size_t p = 1; p < A.e.size(); ++p) { sr &= C.rowind()[p - 1] <= C.rowind()[p]; sc &= C.colind()[p - 1] <= C.colind()[p]; }
  ok(C.is_sorted_by_row_index() == sr, "is_sorted", "%s row", ctx.c_str()); ok(C.is_sorted_by_col_index() == sc, "is_sorted", "%s col", ctx.c_str());
  if(!sr) ok(throws([&] { csr_matrix<T, I> x(C); }), "unsorted_accepted", "%s: CSR from unsorted COO", ctx.c_str());
  if(!sc) ok(throws([&] { csc_matrix<T, I> x(C); }), "unsorted_accepted", "%s: CSC from unsorted COO", ctx.c_str());
  auto R = C; R.sort_by_row_index(); check("sort_by_row", ctx, R, A, idx, BYROW);
  auto K = C; K.sort_by_col_index(); check("sort_by_col", ctx, K, A, idx, BYCOL);
  csr_matrix<T, I> csr(R); check("coo_to_csr", ctx, csr, A, idx); check("coo_modified", ctx, R, A, idx, BYROW);
  csc_matrix<T, I> csc(K); check("coo_to_csc", ctx, csc, A, idx); check("coo_modified", ctx, K, A, idx, BYCOL);
  auto c2 = make_csc<T, I>(A, idx); csr_matrix<T, I> csr2(c2); check("csc_to_csr", ctx, csr2, A, idx); check("csc_modified", ctx, c2, A, idx);
  coo_matrix<T, I> coo2(csr); check("csr_to_coo", ctx, coo2, A, idx, BYROW);
  { auto q = make_csr<T, I>(r, A, idx); csc_matrix<T, I> b(A.m, A.n, A.e.size(), idx); detail::csr_to_csc(A.m, A.n, q.rowptr().data(), q.colind().data(), q.nzval().data(), b.colptr().data(), b.rowind().data(), b.nzval().data(), idx); check("csr_to_csc", ctx, b, A, idx); check("csr_modified", ctx, q, A, idx); }
  // rows sorted but columns unsorted inside rows is still a valid row-sorted COO
  { auto q = make_csr<T, I>(r, A, idx, false); coo_matrix<T, I> u(q); check("csr_to_coo", ctx, u, A, idx); csr_matrix<T, I> v(u); check("coo_to_csr", ctx + " (columns unsorted)", v, A, idx, -1); ok(v == q, "order_kept", "%s", ctx.c_str()); }
  // index base
  { auto a = csr; a.set_indexing(1 - idx); check("set_indexing", ctx, a, A, 1 - idx); a.set_indexing(1 - idx); check("set_indexing", ctx, a, A, 1 - idx); ok(a != csr, "equality", "%s: differing index bases compare equal", ctx.c_str()); a.set_indexing(idx); ok(a == csr, "equality", "%s", ctx.c_str()); }
  { auto d = C; bool z = false; for(auto& [k, v] : A.e) z |= (k.first == 0 || k.second == 0); d.determine_indexing_from_adj(); int want = idx == 0 && z ? 0 : 1; ok(d.indexing() == want, "determine_indexing", "%s: got %ld want %d", ctx.c_str(), (long)d.indexing(), want); }
  if(A.e.size()) {
    auto b = csr; size_t p = r.in(0, A.e.size() - 1); b.nzval()[p] = b.nzval()[p] + T(1); ok(b != csr && !(b == csr), "equality", "%s: differing values compare equal", ctx.c_str());
    auto ci = std::vector<I>(C.colind().begin(), C.colind().end() - 1), ri = std::vector<I>(C.rowind().begin(), C.rowind().end()); auto nz = std::vector<T>(C.nzval().begin(), C.nzval().end());
    ok(throws([&] { coo_matrix<T, I> x(A.m, A.n, std::move(ci), std::move(ri), std::move(nz), idx); }), "size_mismatch_accepted", "%s", ctx.c_str());
    auto ci2 = std::vector<I>(C.colind().begin(), C.colind().end()), ri2 = std::vector<I>(C.rowind().begin(), C.rowind().end()); auto nz2 = std::vector<T>(C.nzval().begin(), C.nzval().end() - 1);
    ok(throws([&] { coo_matrix<T, I> x(A.m, A.n, std::move(ci2), std::move(ri2), std::move(nz2), idx); }), "size_mismatch_accepted", "%s", ctx.c_str());
  }
  // copies and moves
  { auto c = csr; auto d = std::move(c); check("move", ctx, d, A, idx); csr_matrix<T, I> e(1, 1, 0); e = d; check("copy", ctx, e, A, idx); e.shrink_storage_to_fit(); check("shrink", ctx, e, A, idx);
    ok((size_t)e.mem_footprint() >= A.e.size() * (sizeof(T) + sizeof(I)) + (A.m + 1) * sizeof(I), "mem_footprint", "%s: %ld", ctx.c_str(), (long)e.mem_footprint()); }
  // dense
  size_t ld = A.m + r.in(0, 3); const T G = T(77); std::vector<T> D(ld * A.n, G); for(size_t j = 0; j < A.n; ++j) for(size_t i = 0; i < A.m; ++i) D[i + j * ld] = T(0);
  auto W = A.dense(ld); for(size_t j = 0; j < A.n; ++j) for(size_t i = A.m; i < ld; ++i) W[i + j * ld] = G;
  auto D2 = D, D3 = D; convert_to_dense(csr, D.data(), ld); ok(D == W, "csr_to_dense", "%s ld=%zu", ctx.c_str(), ld);
  convert_to_dense(C, D2.data(), ld); ok(D2 == W, "coo_to_dense", "%s ld=%zu", ctx.c_str(), ld);
  { auto q = make_csr<T, I>(r, A, idx, false); convert_to_dense(q, D3.data(), ld); ok(D3 == W, "csr_to_dense", "%s unsorted", ctx.c_str()); }
  if(A.m > 1) { ok(throws([&] { convert_to_dense(csr, D.data(), A.m - 1); }), "bad_ld_accepted", "%s", ctx.c_str()); ok(throws([&] { convert_to_dense(C, D.data(), A.m - 1); }), "bad_ld_accepted", "%s", ctx.c_str()); }
}
TEST("S01", "conv_double_32", 500, 8000) { conversions<double, int32_t>(r); }
TEST("S01", "conv_double_64", 500, 8000) { conversions<double, int64_t>(r); }
TEST("S01", "conv_complex", 250, 4000) { conversions<Z, int64_t>(r); }
TEST("S01", "conv_int", 250, 4000) { conversions<int64_t, int32_t>(r); }
TEST("S01", "conv_float", 250, 4000) { conversions<float, int32_t>(r); }
TEST("S01", "csr_from_arrays", 200, 2000) {
  auto A = random_mat<double>(r); int idx = r.in(0, 1); auto ctx = CTX(A, strf("base=%d", idx).c_str()); begin(A, ctx);
  auto q = make_csr<double, int32_t>(r, A, idx); std::vector<int32_t> rp(q.rowptr().begin(), q.rowptr().end()), ci(q.colind().begin(), q.colind().end()); std::vector<double> nz(q.nzval().begin(), q.nzval().end());
  csr_matrix<double, int32_t> c(A.m, A.n, std::move(rp), std::move(ci), std::move(nz)); check("csr_ctor", ctx, c, A, idx); ok(c == q, "equality", "%s", ctx.c_str());
}
TEST("S01", "equality", 400, 5000) { // two matrices compare equal exactly when shape, base, structure and values all agree
  typedef double T; typedef int32_t I; auto A = random_mat<T>(r); int idx = r.in(0, 1); auto ctx = CTX(A, strf("base=%d", idx).c_str()); begin(A, ctx); auto q = make_csr<T, I>(r, A, idx);
  auto same = [&](int64_t m, int64_t n) { csr_matrix<T, I> c(m, n, q.nnz(), idx); std::copy(q.colind().begin(), q.colind().end(), c.colind().begin()); std::copy(q.nzval().begin(), q.nzval().end(), c.nzval().begin()); std::fill(c.rowptr().begin(), c.rowptr().end(), I(q.nnz() + idx)); std::copy(q.rowptr().begin(), q.rowptr().end(), c.rowptr().begin()); return c; };
  auto eq = [&](const csr_matrix<T, I>& x, bool want, const char* what) { ok((x == q) == want && (q == x) == want && (x != q) == !want && (q != x) == !want, "equality", "%s: %s", ctx.c_str(), what); };
  eq(q, true, "itself"); eq(same(A.m, A.n), true, "rebuilt"); eq(same(A.m, A.n + 1), false, "an extra empty column"); eq(same(A.m + 1, A.n), false, "an extra empty row");
  if(!A.e.size()) return;
  size_t p = r.in(0, A.e.size() - 1); auto x = same(A.m, A.n); x.nzval()[p] = std::nextafter(x.nzval()[p], 1e9); eq(x, false, "one value");
  x = same(A.m, A.n); x.colind()[p] = (x.colind()[p] - idx + 1) % I(A.n) + idx; if(A.n > 1) eq(x, false, "one column index");
  for(size_t i = 1; i < A.m; ++i) { x = same(A.m, A.n); if(x.rowptr()[i] < x.rowptr()[i + 1]) { x.rowptr()[i]++; eq(x, false, "one row boundary"); break; } }
}
TEST("S01", "expand_triangle", 800, 10000) {
  typedef double T; auto A = random_mat<T>(r, 12, 1); int kind = r.in(0, 3), idx = r.in(0, 1); // 0 lower, 1 upper, 2 as is, 3 strict lower/upper
  Mat<T> B = A; B.e.clear(); bool lo = r.chance(.5);
  for(auto& [k, v] : A.e) { bool in = kind == 2 || (kind == 0 && k.first >= k.second) || (kind == 1 && k.first <= k.second) || (kind == 3 && (lo ? k.first > k.second : k.first < k.second)); if(in) B.e[k] = v; }
  bool lt = true, ut = true; for(auto& [k, v] : B.e) { lt &= k.first <= k.second; ut &= k.first >= k.second; }
  Mat<T> W = B; if(lt != ut) for(auto& [k, v] : B.e) W.e[{k.second, k.first}] = v;
  auto ctx = CTX(B, strf("kind=%d base=%d", kind, idx).c_str()); begin(B, ctx); auto C = make_coo<T, int64_t>(r, B, idx, (Order)r.in(0, 2));
  { Mute mute; C.expand_from_triangle(); } check("expand_triangle", ctx, C, W, idx); cov(lt == ut ? "left alone" : "expanded");
  C.sort_by_row_index(); csr_matrix<T, int64_t> q(C); check("expand_triangle_csr", ctx, q, W, idx);
}
TEST("S01", "chains", 300, 5000) { // random walks through the formats never change the matrix
  typedef double T; typedef int32_t I; auto A = random_mat<T>(r, 30); int idx = r.in(0, 1); auto ctx = CTX(A, "chain"); begin(A, ctx); auto csr = make_csr<T, I>(r, A, idx); std::string path;
  int len = r.in(2, 12);
  for(int s = 0; s < len; ++s) {
    int op = r.in(0, 4); path += char('a' + op);
    if(op == 0) { coo_matrix<T, I> c(csr); csr = csr_matrix<T, I>(c); }
    if(op == 1) { coo_matrix<T, I> c(csr); c.sort_by_col_index(); csc_matrix<T, I> k(c); csr = csr_matrix<T, I>(k); }
    if(op == 2) { idx = 1 - idx; csr.set_indexing(idx); }
    if(op == 3) { csc_matrix<T, I> b(A.m, A.n, A.e.size(), idx); detail::csr_to_csc(A.m, A.n, csr.rowptr().data(), csr.colind().data(), csr.nzval().data(), b.colptr().data(), b.rowind().data(), b.nzval().data(), idx); csr = csr_matrix<T, I>(b); }
    if(op == 4) { coo_matrix<T, I> c(csr); c.sort_by_col_index(); c.sort_by_row_index(); csr = csr_matrix<T, I>(c); }
    if(!check("chain", ctx + " " + path, csr, A, idx)) return;
  }
  cov("conversion steps", len);
}

// ------------------------------------------------------------------ S02
template <class T> double mag(T x) { return std::abs(x); }
template <class T, class I, class S> void product(Rng& r, const Mat<T>& A, const S& M, const std::string& ctx0, const char* key) {
  int64_t K = r.pick({0, 1, 1, 2, 3, 7}), ldv = A.n + r.in(0, 4), ldav = A.m + r.in(0, 4); int nt = r.pick({1, 2, 3, 8}); vh::threads(nt);
  double al = r.pick({1., 0., -1., 2.5, .1}), be = r.pick({0., 1., -1., .5, 3.}); if(std::is_same<T, int64_t>::value) { al = std::round(al); be = std::round(be * 2); }
  std::vector<T> V(ldv * K + 3), Y(ldav * K + 5); for(auto& x : V) x = rv<T>(r); for(auto& x : Y) x = rv<T>(r);
  // exact-size buffers: nothing may be touched past the last addressed element
  if(K && r.chance(.5)) { V.resize(ldv * (K - 1) + A.n); Y.resize(ldav * (K - 1) + A.m); V.shrink_to_fit(); Y.shrink_to_fit(); }
  auto V0 = V, Y0 = Y; auto ctx = ctx0 + strf(" K=%ld ldv=%ld ldav=%ld alpha=%g beta=%g threads=%d", (long)K, (long)ldv, (long)ldav, al, be, nt); note(ctx);
  spblas::gespmbv(K, (T)al, M, V.data(), ldv, (T)be, Y.data(), ldav);
  ok(V == V0, "input_modified", "%s", ctx.c_str()); double eps = std::is_same<T, float>::value ? 1e-5 : 1e-13; cov(strf("threads %d", nt));
  std::vector<char> in(Y.size(), 0);
  for(int64_t k = 0; k < K; ++k) { std::vector<T> av(A.m, T(0)); std::vector<double> sc(A.m, 0); for(auto& [q, v] : A.e) { av[q.first] += v * V0[q.second + k * ldv]; sc[q.first] += mag(v * V0[q.second + k * ldv]); }
    for(size_t i = 0; i < A.m; ++i) { size_t p = i + k * ldav; in[p] = 1; T w = (T)al * av[i] + (T)be * Y0[p]; double tol = eps * (1e-300 + mag((T)al) * sc[i] * (2 + A.n) + mag((T)be * Y0[p])); if(std::is_same<T, int64_t>::value) tol = 0;
      if(!ok(mag(T(Y[p] - w)) <= tol, key, "%s: element (%zu,%ld) off by %g", ctx.c_str(), i, (long)k, mag(T(Y[p] - w)))) return; } }
  for(size_t p = 0; p < Y.size(); ++p) if(!in[p] && !ok(Y[p] == Y0[p], "padding_touched", "%s: offset %zu", ctx.c_str(), p)) return;
}
template <class T, class I> void products(Rng& r) {
  auto A = random_mat<T>(r, 24); int idx = r.in(0, 1); auto ctx = CTX(A, strf("base=%d", idx).c_str()); begin(A, ctx);
  auto q = make_csr<T, I>(r, A, idx, r.chance(.5)), q0 = q; product<T, I>(r, A, q, ctx + " csr", "csr_product"); ok(q == q0, "matrix_modified", "%s", ctx.c_str());
  auto c = make_coo<T, I>(r, A, idx, (Order)r.in(0, 2)); product<T, I>(r, A, c, ctx + " coo", "coo_product"); check("matrix_modified", ctx, c, A, idx);
}
TEST("S02", "prod_double_32", 600, 10000) { products<double, int32_t>(r); }
TEST("S02", "prod_double_64", 600, 10000) { products<double, int64_t>(r); }
TEST("S02", "prod_complex", 300, 5000) { products<Z, int64_t>(r); }
TEST("S02", "prod_int", 300, 5000) { products<int64_t, int32_t>(r); }
TEST("S02", "prod_float", 300, 5000) { products<float, int32_t>(r); }
TEST("S02", "mixed_scalars", 200, 2000) { // scalars of another type, as in gespmbv(1, 1, A, ..., 0., ...)
  auto A = random_mat<double>(r, 12); auto ctx = CTX(A, "int scalars"); begin(A, ctx); auto q = make_csr<double, int32_t>(r, A, 1); std::vector<double> v(A.n), y(A.m); for(auto& x : v) x = r.gauss(); for(auto& x : y) x = r.gauss(); auto y0 = y;
  int al = r.in(-2, 2); float be = r.in(-1, 2); spblas::gespmbv(1, al, q, v.data(), A.n, be, y.data(), A.m);
  for(size_t i = 0; i < A.m; ++i) { double s = 0; for(size_t j = 0; j < A.n; ++j) { auto it = A.e.find({i, j}); if(it != A.e.end()) s += it->second * v[j]; } double sc = 1; for(auto& [k, w] : A.e) sc = std::max(sc, mag(w)); close(y[i], al * s + be * y0[i], 1e-12 * sc * A.n * 10, "mixed_scalars", "%s row %zu", ctx.c_str(), i); }
}
TEST("S02", "large", 6, 120) { // big enough for every thread to own several chunks
  typedef double T; Mat<T> A; A.m = r.in(500, 3000); A.n = r.in(500, 3000); A.name = "large"; size_t z = r.in(1000, 20000); for(size_t p = 0; p < z; ++p) A.e[{(size_t)r.in(0, A.m - 1), (size_t)r.in(0, A.n - 1)}] = rv<T>(r);
  auto ctx = CTX(A, ""); begin(A, ctx); int idx = r.in(0, 1); auto q = make_csr<T, int32_t>(r, A, idx); product<T, int32_t>(r, A, q, ctx + " csr", "csr_product"); auto c = make_coo<T, int64_t>(r, A, idx, SHUFFLED); product<T, int64_t>(r, A, c, ctx + " coo", "coo_product");
}

// ------------------------------------------------------------------ S03
template <class T, class I> void extraction(Rng& r) {
  auto A = random_mat<T>(r, 16); int idx = r.in(0, 1); auto ctx = CTX(A, strf("base=%d", idx).c_str()); begin(A, ctx); auto q = make_csr<T, I>(r, A, idx), q0 = q;
  for(int t = 0; t < 4; ++t) {
    int64_t r0 = r.in(0, A.m), r1 = r.in(r0, A.m), c0 = r.in(0, A.n), c1 = r.in(c0, A.n); if(r.chance(.1)) { r0 = 0; r1 = A.m; } if(r.chance(.1)) { c0 = 0; c1 = A.n; } if(r0 == r1) cov("empty row range"); if(c0 == c1) cov("empty column range");
    auto cx = ctx + strf(" rows [%ld,%ld) columns [%ld,%ld)", (long)r0, (long)r1, (long)c0, (long)c1); note(cx);
    Mat<T> S, X; S.m = r1 - r0; S.n = c1 - c0; X.m = r1 - r0; X.n = A.n;
    for(auto& [k, v] : A.e) { int64_t i = k.first, j = k.second; if(i < r0 || i >= r1) continue; if(j >= c0 && j < c1) S.e[{(size_t)(i - r0), (size_t)(j - c0)}] = v; else X.e[{(size_t)(i - r0), (size_t)j}] = v; }
    auto s = extract_submatrix(q, {r0, c0}, {r1, c1}); check("submatrix", cx, s, S, idx); auto x = extract_submatrix_inclrow_exclcol(q, {r0, c0}, {r1, c1}); check("inclrow_exclcol", cx, x, X, idx);
    ok(S.e.size() + X.e.size() == (size_t)(s.nnz() + x.nnz()), "split_conserves", "%s", cx.c_str());
  }
  Mat<T> U = A; U.e.clear(); for(auto& [k, v] : A.e) if(k.second >= k.first) U.e[k] = v; auto u = extract_upper_triangle(q); check("upper_triangle", ctx, u, U, idx);
  auto qu = make_csr<T, I>(r, A, idx, false); // these two accept unsorted rows
  size_t nd = std::min(A.m, A.n); (void)nd; std::vector<T> d(A.m, T(0)); T tr(0); for(size_t i = 0; i < A.m; ++i) { auto it = A.e.find({i, i}); if(it != A.e.end()) { d[i] = it->second; tr += it->second; } }
  ok(extract_diagonal_elements(q) == d, "diagonal", "%s", ctx.c_str()); ok(extract_diagonal_elements(qu) == d, "diagonal", "%s unsorted", ctx.c_str());
  ok(sparsexx::trace(q) == tr, "trace", "%s", ctx.c_str()); ok(sparsexx::trace(qu) == tr, "trace", "%s unsorted", ctx.c_str());
  int ri = r.in(0, 1); auto [rp, ci] = extract_adjacency(q, ri); std::vector<I> wrp(1, ri), wci; for(size_t i = 0; i < A.m; ++i) { for(size_t j = 0; j < A.n; ++j) if(i != j && A.e.count({i, j})) wci.push_back(j + ri); wrp.push_back(ri + wci.size()); }
  ok(rp == wrp, "adjacency_rowptr", "%s ret base %d", ctx.c_str(), ri); ok(ci == wci, "adjacency_colind", "%s ret base %d", ctx.c_str(), ri);
  { auto [rp2, ci2] = extract_adjacency(q); ok((rp2.size() == A.m + 1 && rp2[0] == 0), "adjacency_default", "%s", ctx.c_str()); }
  ok(q == q0, "matrix_modified", "%s", ctx.c_str());
}
TEST("S03", "extract_double_32", 800, 12000) { extraction<double, int32_t>(r); }
TEST("S03", "extract_double_64", 800, 12000) { extraction<double, int64_t>(r); }
TEST("S03", "extract_complex", 400, 6000) { extraction<Z, int32_t>(r); }
TEST("S03", "tiling", 300, 5000) { // any tiling into blocks reassembles the matrix
  typedef double T; auto A = random_mat<T>(r, 30); int idx = r.in(0, 1); auto ctx = CTX(A, "tiling"); begin(A, ctx); auto q = make_csr<T, int64_t>(r, A, idx); std::set<int64_t> rs{0, (int64_t)A.m}, cs{0, (int64_t)A.n}; for(int i = r.in(0, 5); i > 0; --i) { rs.insert(r.in(0, A.m)); cs.insert(r.in(0, A.n)); }
  Mat<T> B; B.m = A.m; B.n = A.n; std::vector<int64_t> R(rs.begin(), rs.end()), C(cs.begin(), cs.end());
  for(size_t a = 0; a + 1 < R.size(); ++a) for(size_t b = 0; b + 1 < C.size(); ++b) { auto s = extract_submatrix(q, {R[a], C[b]}, {R[a + 1], C[b + 1]}); for(int64_t i = 0; i < s.m(); ++i) for(auto p = s.rowptr()[i] - idx; p < s.rowptr()[i + 1] - idx; ++p) B.e[{(size_t)(i + R[a]), (size_t)(s.colind()[p] - idx + C[b])}] = s.nzval()[p]; }
  ok(B == A, "tiling", "%s", ctx.c_str());
}
TEST("S03", "kway_partition_rejects", 40, 400) { auto A = random_mat<double>(r, 8, 1); auto q = make_csr<double, int32_t>(r, A, 0); begin(A, CTX(A, "")); for(int k : {-1, 0, 1}) ok(throws([&] { kway_partition(k, q); }), "bad_part_count_accepted", "%d", k); }

// ------------------------------------------------------------------ S04
template <class I> std::vector<I> rperm(Rng& r, size_t n) { std::vector<I> p(n); for(size_t i = 0; i < n; ++i) p[i] = i; int k = r.in(0, 4); if(k == 0) std::reverse(p.begin(), p.end()); else if(k == 1 && n) std::rotate(p.begin(), p.begin() + r.in(0, n - 1), p.end()); else if(k == 2) {} else r.shuffle(p); return p; }
template <class T, class I> void permutations(Rng& r) {
  auto A = random_mat<T>(r, 20); int idx = r.in(0, 1), nt = r.pick({1, 2, 4, 8}); auto ctx = CTX(A, strf("base=%d threads=%d", idx, nt).c_str()); begin(A, ctx); vh::threads(nt);
  bool sorted = r.chance(.7); auto q = make_csr<T, I>(r, A, idx, sorted), q0 = q; auto rp = rperm<I>(r, A.m), cp = rperm<I>(r, A.n);
  std::vector<size_t> irp(A.m), icp(A.n); for(size_t i = 0; i < A.m; ++i) irp[rp[i]] = i; for(size_t i = 0; i < A.n; ++i) icp[cp[i]] = i;
  auto iv = invert_perm(rp); ok(std::vector<size_t>(iv.begin(), iv.end()) == irp, "invert_perm", "%s", ctx.c_str());
  Mat<T> R = A, C = A, B = A; R.e.clear(); C.e.clear(); B.e.clear(); for(auto& [k, v] : A.e) { R.e[{irp[k.first], k.second}] = v; C.e[{k.first, icp[k.second]}] = v; B.e[{irp[k.first], icp[k.second]}] = v; }
  auto pr = permute_rows(q, rp); check("permute_rows", ctx, pr, R, idx, sorted ? 1 : -1); auto pc = permute_cols(q, cp); check("permute_cols", ctx, pc, C, idx); auto pb = permute_rows_cols(q, rp, cp); check("permute_rows_cols", ctx, pb, B, idx);
  auto back = permute_rows_cols(pb, invert_perm(rp), invert_perm(cp)); check("permute_back", ctx, back, A, idx); auto b2 = permute_cols(permute_rows(q, rp), cp); ok(b2 == pb, "permute_composition", "%s", ctx.c_str()); ok(q == q0, "matrix_modified", "%s", ctx.c_str());
  // vectors: the permuted system is the same system
  std::vector<T> x(A.m), y(A.m), z(A.m); for(auto& v : x) v = rv<T>(r); auto x0 = x;
  permute_vector((int64_t)A.m, x.data(), rp.data(), y.data(), PermuteDirection::Forward); permute_vector((int64_t)A.m, x.data(), rp.data(), z.data(), PermuteDirection::Backward);
  for(size_t i = 0; i < A.m; ++i) { ok(y[rp[i]] == x0[i], "permute_forward", "%s %zu", ctx.c_str(), i); ok(z[i] == x0[rp[i]], "permute_backward", "%s %zu", ctx.c_str(), i); }
  auto w = x; permute_vector((int64_t)A.m, w.data(), rp.data(), PermuteDirection::Forward); ok(w == y, "permute_inplace", "%s", ctx.c_str()); permute_vector((int64_t)A.m, w.data(), rp.data(), PermuteDirection::Backward); ok(w == x0, "permute_inplace_back", "%s", ctx.c_str()); ok(x == x0, "vector_modified", "%s", ctx.c_str());
}
TEST("S04", "permute_double_32", 800, 12000) { permutations<double, int32_t>(r); }
TEST("S04", "permute_double_64", 800, 12000) { permutations<double, int64_t>(r); }
TEST("S04", "permute_complex", 400, 6000) { permutations<Z, int64_t>(r); }
TEST("S04", "perm_from_part", 1000, 20000) {
  int64_t np = r.in(1, 7); size_t n = r.in(0, 40); std::vector<int32_t> part(n); for(auto& p : part) p = r.chance(.5) ? r.in(0, np - 1) : r.in(0, (np - 1) / 2); bool bad = n && r.chance(.15); if(bad) part[r.in(0, n - 1)] = r.pick({(int)np, -1, 1000});
  auto ctx = strf("n=%zu parts=%ld bad=%d", n, (long)np, bad); note(ctx); nontrivial(fnv(part.data(), 4 * n) + np); if(want_sample()) sample(ctx);
  if(bad) { ok(throws([&] { perm_from_part(np, part); }), "bad_part_accepted", "%s", ctx.c_str()); return; }
  auto [perm, ptr] = perm_from_part(np, part); if(!ok(perm.size() == n && ptr.size() == (size_t)np + 1 && ptr[0] == 0 && (size_t)ptr[np] == n, "part_shape", "%s", ctx.c_str())) return;
  std::vector<int> seen(n, 0); for(int64_t p = 0; p < np; ++p) { if(!ok(ptr[p] <= ptr[p + 1], "part_ptr", "%s", ctx.c_str())) return; for(auto i = ptr[p]; i < ptr[p + 1]; ++i) { if(!ok(perm[i] >= 0 && (size_t)perm[i] < n && !seen[perm[i]]++, "part_bijection", "%s", ctx.c_str())) return; ok(part[perm[i]] == p, "part_grouping", "%s", ctx.c_str()); if(i > ptr[p]) ok(perm[i - 1] < perm[i], "part_order", "%s: order within part %ld not kept", ctx.c_str(), (long)p); } }
}

// ------------------------------------------------------------------ F02
static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string P(const char* n) { return st().tmpdir + "/" + n; }
template <class T, class I> void mm(Rng& r) {
  auto A = random_mat<T>(r, 14); bool sym = r.chance(.35); if(sym) { A = random_mat<T>(r, 14, 1); Mat<T> B = A; B.e.clear(); for(auto& [k, v] : A.e) if(k.first >= k.second) B.e[k] = v; A = B; }
  bool pattern = r.chance(.15); if(pattern) for(auto& [k, v] : A.e) v = T(1);
  bool has0 = false; for(auto& [k, v] : A.e) has0 |= k.first == 0 || k.second == 0; int idx = has0 && r.chance(.3) ? 0 : 1; // the reader recognises base 0 by a zero index
  std::vector<std::pair<std::pair<size_t, size_t>, T>> es(A.e.begin(), A.e.end()); if(r.chance(.7)) r.shuffle(es); bool crlf = r.chance(.15); std::string nl = crlf ? "\r\n" : "\n"; bool wide = r.chance(.3);
  std::string s = strf("%%%%MatrixMarket matrix coordinate %s %s", pattern ? "pattern" : "real", sym ? "symmetric" : "general") + nl; for(int c = r.in(0, 3); c > 0; --c) s += "% comment 1 2 3" + nl; s += strf("%s%zu %zu %zu", wide ? "  " : "", A.m, A.n, es.size()) + nl;
  for(auto& [k, v] : es) { std::ostringstream o; o.precision(17); o << (wide ? " " : "") << k.first + idx << (wide ? "   " : " ") << k.second + idx; if(!pattern) { if(r.chance(.2)) o << std::scientific; o << " " << v; } s += o.str() + nl; }
  if(r.chance(.2) && !crlf) s += nl; if(r.chance(.2) && s.size() > 2 && !crlf && s.back() == '\n' && !es.empty()) s.pop_back();
  Mat<T> W = A; if(sym) for(auto& [k, v] : A.e) W.e[{k.second, k.first}] = v;
  auto ctx = CTX(A, strf("mm sym=%d pattern=%d base=%d crlf=%d", sym, pattern, idx, crlf).c_str()); begin(A, ctx); cov(sym ? "symmetric files" : "general files"); if(idx == 0) cov("0-based files"); auto f = P("a.mtx"); put(f, s);
  auto coo = read_mm<coo_matrix<T, I>>(f); check("read_mm_coo", ctx, coo, W, idx); auto csr = read_mm<csr_matrix<T, I>>(f); check("read_mm_csr", ctx, csr, W, idx); auto csc = read_mm<csc_matrix<T, I>>(f); check("read_mm_csc", ctx, csc, W, idx);
  // write and read back
  for(int fo : {-1, 0, 1}) { int b = r.in(0, 1), eb = fo < 0 ? b : fo; auto q = make_csr<T, I>(r, W, b); auto g = P("b.mtx"); if(fo < 0) write_mm(g, q, false); else write_mm(g, q, false, fo);
    // what the file says, read independently
    std::ifstream in(g); std::string line; std::getline(in, line); ok(line == "%%MatrixMarket matrix coordinate real general", "mm_header", "%s: %s", ctx.c_str(), line.c_str()); size_t mm, nn, zz; in >> mm >> nn >> zz; ok(mm == W.m && nn == W.n && zz == W.e.size(), "mm_sizes", "%s", ctx.c_str());
    Mat<T> G; G.m = W.m; G.n = W.n; long i, j; double v; size_t cnt = 0; while(in >> i >> j >> v) { ++cnt; G.e[{(size_t)(i - eb), (size_t)(j - eb)}] = (T)v; } ok(cnt == zz && G == W, "mm_content", "%s: written base %d from base %d", ctx.c_str(), eb, b);
    bool z0 = false; for(auto& [k, x] : W.e) z0 |= k.first == 0 || k.second == 0;
    if(eb == 1 || z0) { auto back = read_mm<csr_matrix<T, I>>(g); check("mm_roundtrip", ctx + strf(" base %d", eb), back, W, eb); } }
  auto q = make_csr<T, I>(r, W, 1); ok(throws([&] { write_mm(P("c.mtx"), q, true); }), "symmetric_write_accepted", "%s", ctx.c_str());
}
TEST("F02", "matrix_market", 400, 6000) { mm<double, int32_t>(r); }
TEST("F02", "matrix_market_64", 200, 3000) { mm<double, int64_t>(r); }
TEST("F02", "matrix_market_float", 100, 1500) { mm<float, int64_t>(r); }
TEST("F02", "malformed", 200, 2000) {
  typedef csr_matrix<double, int32_t> M; int k = r.in(0, 9); std::string hd = "%%MatrixMarket matrix coordinate real general\n", s; auto f = P("bad.mtx"); bool file = true;
  if(k == 0) file = false; if(k == 1) s = ""; if(k == 2) s = "2 2 1\n1 1 3\n"; if(k == 3) s = "%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 3\n"; if(k == 4) s = "%%MatrixMarket matrix coordinate real\n2 2 1\n1 1 3\n";
  if(k == 5) s = hd + "2 2\n1 1 3\n"; if(k == 6) s = hd + "2 2 1 7\n1 1 3\n"; if(k == 7) s = "%%MatrixMarket matrix coordinate real symmetric\n2 3 1\n1 1 3\n"; if(k == 8) s = hd + "2 2 1\n1\n"; if(k == 9) s = hd + "2 2 1\nx y z\n";
  if(file) put(f, s); else f = P("does/not/exist.mtx"); auto ctx = strf("malformed kind %d", k); note(ctx); nontrivial(k); if(want_sample()) sample(ctx); cov(ctx);
  ok(throws([&] { read_mm<M>(f); }), "malformed_accepted", "%s", ctx.c_str()); ok(throws([&] { read_mm<coo_matrix<double, int64_t>>(f); }), "malformed_accepted", "%s", ctx.c_str());
  if(k == 0) { Mute mute; ok(throws([&] { read_binary_triplet<M>(f); }), "missing_accepted", "binary"); ok(throws([&] { read_rb<M>(f); }), "missing_accepted", "rb"); }
}
template <class T, class I> void binary(Rng& r) {
  auto A = random_mat<T>(r, 14); int idx = r.in(0, 1); bool z0 = false, lt = true, ut = true; for(auto& [k, v] : A.e) { z0 |= k.first == 0 || k.second == 0; lt &= k.first <= k.second; ut &= k.first >= k.second; }
  if(!z0) idx = 1; Mat<T> W = A; if(lt != ut) { if(A.m != A.n) { cov("skipped rectangular triangle"); return; } for(auto& [k, v] : A.e) W.e[{k.second, k.first}] = v; cov("triangle files expanded"); }
  auto ctx = CTX(A, strf("binary base=%d", idx).c_str()); begin(A, ctx); auto f = P("a.bin"); auto coo = make_coo<T, I>(r, A, idx, (Order)r.in(0, 2)); auto csr = make_csr<T, I>(r, A, idx, r.chance(.5));
  for(int k : {0, 1}) { if(k) write_binary_triplet(csr, f); else write_binary_triplet(coo, f); Mute mute; auto a = read_binary_triplet<coo_matrix<T, I>>(f); check("binary_coo", ctx, a, W, idx, BYROW); auto b = read_binary_triplet<csr_matrix<T, I>>(f); check("binary_csr", ctx, b, W, idx);
    std::ifstream in(f, std::ios::binary | std::ios::ate); ok((size_t)in.tellg() == 2 * sizeof(I) + 8 + A.e.size() * (2 * sizeof(I) + sizeof(T)), "binary_size", "%s", ctx.c_str()); }
}
TEST("F02", "binary_double_32", 300, 5000) { binary<double, int32_t>(r); }
TEST("F02", "binary_double_64", 300, 5000) { binary<double, int64_t>(r); }
TEST("F02", "binary_complex", 150, 2000) { binary<Z, int32_t>(r); }
TEST("F02", "rutherford_boeing", 300, 5000) {
  typedef double T; auto A = random_mat<T>(r, 14); if(A.e.empty()) A.e[{0, 0}] = 2; auto t = A.transpose(); std::string s = "title line\n     9     1     1     1\n" + strf("rua %zu %zu %zu 0\n", A.m, A.n, A.e.size()) + "(26I3)  (26I3)  (3E20.12)\n"; // 1-based column-compressed
  std::vector<size_t> ptr{1}, ind; std::vector<double> val; size_t j = 0; for(auto& [k, v] : t.e) { while(j < k.first) { ptr.push_back(ind.size() + 1); ++j; } ind.push_back(k.second + 1); val.push_back(v); } while(j < A.n) { ptr.push_back(ind.size() + 1); ++j; }
  auto out = [&](auto& v, int per) { std::ostringstream o; o.precision(17); for(size_t i = 0; i < v.size(); ++i) { o << " " << v[i]; if((i + 1) % per == 0 || i + 1 == v.size()) o << "\n"; } s += o.str(); };
  out(ptr, r.in(1, 9)); out(ind, r.in(1, 9)); out(val, r.in(1, 4)); auto ctx = CTX(A, "rb"); begin(A, ctx); auto f = P("a.rb"); put(f, s);
  auto c = read_rb<csc_matrix<T, int32_t>>(f); check("read_rb_csc", ctx, c, A, 1); auto q = read_rb<csr_matrix<T, int64_t>>(f); check("read_rb_csr", ctx, q, A, 1);
}
TEST("F02", "tokenize", 500, 8000) {
  std::vector<std::string> w; std::string s; int n = r.in(0, 6); s += std::string(r.in(0, 3), ' '); for(int i = 0; i < n; ++i) { std::string t; int l = r.in(1, 6); for(int q = 0; q < l; ++q) t += (char)r.pick({'a', '1', '.', '-', 'E', '%', '\xe9'}); w.push_back(t); s += t + std::string(i + 1 < n ? r.in(1, 4) : r.in(0, 3), ' '); } if(n && r.chance(.3)) s += r.chance(.5) && s.back() != ' ' ? "\r" : "";
  note(s); nontrivial(fnvs(s)); if(want_sample()) sample(s); auto t = tokenize(s); ok(t == w, "tokenize", "'%s' gave %zu tokens, want %zu", s.c_str(), t.size(), w.size());
  std::string p = s, core; { size_t a = s.find_first_not_of(" \r\t\n"), b = s.find_last_not_of(" \r\t\n"); core = a == std::string::npos ? "" : s.substr(a, b - a + 1); } ok(sparsexx::trim(p) == core, "trim", "'%s'", s.c_str());
}
