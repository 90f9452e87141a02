// S05 distributed matrices and products, F02 distributed files, M03 message wrappers, A04 selection.
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "sp_common.hpp"
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <macis/util/dist_quickselect.hpp>
#include <macis/util/mpi.hpp>
#include <omp.h>
using namespace vh; using namespace sp; using namespace sparsexx;
static MPI_Comm W() { return MPI_COMM_WORLD; }
#define CTX(A, extra) strf("%zux%zu %s nnz=%zu ranks=%d %s", A.m, A.n, A.name.c_str(), A.e.size(), st().size, extra)
// A communicator whose ranks are permuted relative to the world (or the world itself)
struct Comm { MPI_Comm c; bool own = false; int rank, size; Comm(Rng& r) { c = MPI_COMM_WORLD; if(r.chance(.3)) { std::vector<int> key(st().size); for(int i = 0; i < st().size; ++i) key[i] = i; r.shuffle(key); MPI_Comm_split(MPI_COMM_WORLD, 0, key[st().rank], &c); own = true; } MPI_Comm_rank(c, &rank); MPI_Comm_size(c, &size); } ~Comm() { if(own) MPI_Comm_free(&c); } };
// every rank must reach the same verdict before going on (otherwise collectives mismatch)
static bool all_ok(bool b) { int x = b, y; MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MIN, W()); return y; }
template <class T> struct MT; template <> struct MT<double> { static MPI_Datatype t() { return MPI_DOUBLE; } }; template <> struct MT<int> { static MPI_Datatype t() { return MPI_INT; } }; template <> struct MT<int64_t> { static MPI_Datatype t() { return MPI_INT64_T; } };

// ------------------------------------------------------------------ S05
template <class I> std::vector<std::pair<I, I>> tiling(Rng& r, size_t m, int p) { std::vector<I> b(p + 1, 0); b[p] = m; for(int i = 1; i < p; ++i) b[i] = r.in(0, m); std::sort(b.begin(), b.end()); std::vector<std::pair<I, I>> t; for(int i = 0; i < p; ++i) t.push_back({b[i], b[i + 1]}); return t; }
template <class T, class I> void check_dist(const std::string& ctx, const dist_sparse_matrix<csr_matrix<T, I>>& D, const Mat<T>& A, const std::vector<std::pair<I, I>>& t, int rank, const char* key) {
  ok((size_t)D.m() == A.m && (size_t)D.n() == A.n, key, "%s: dims", ctx.c_str()); for(size_t i = 0; i < t.size(); ++i) { ok(D.row_bounds(i) == t[i], key, "%s: bounds of rank %zu", ctx.c_str(), i); ok((long)D.row_extent(i) == (long)(t[i].second - t[i].first), key, "%s: extent of rank %zu", ctx.c_str(), i); }
  ok((long)D.local_row_start() == (long)t[rank].first && (long)D.local_row_extent() == (long)(t[rank].second - t[rank].first), key, "%s: local rows", ctx.c_str());
  Mat<T> d, o; size_t lo = t[rank].first, up = t[rank].second; d.m = d.n = o.m = up - lo; o.n = A.n; for(auto& [k, v] : A.e) if(k.first >= lo && k.first < up) { if(k.second >= lo && k.second < up) d.e[{k.first - lo, k.second - lo}] = v; else o.e[{k.first - lo, k.second}] = v; }
  check(key, ctx + " diagonal tile", D.diagonal_tile(), d, 0); check(key, ctx + " off-diagonal tile", D.off_diagonal_tile(), o, 0);
  ok((size_t)D.nnz() == d.e.size() + o.e.size(), key, "%s: local nnz", ctx.c_str()); int64_t nl = D.nnz(), ng; MPI_Allreduce(&nl, &ng, 1, MPI_INT64_T, MPI_SUM, D.comm()); ok((size_t)ng == A.e.size(), key, "%s: %ld entries kept over all ranks, want %zu", ctx.c_str(), (long)ng, A.e.size());
  ok((size_t)D.mem_footprint() >= (d.e.size() + o.e.size()) * (sizeof(T) + sizeof(I)), key, "%s: footprint", ctx.c_str());
}
template <class T, class I> void dist(Rng& r) {
  Comm C(r); auto A = random_mat<T>(r, 20, 1); int idx = r.in(0, 1); bool custom = r.chance(.6); typedef csr_matrix<T, I> M; int nt = r.in(1, 3); vh::threads(nt);
  auto t = tiling<I>(r, A.m, C.size); if(!custom) { I q = A.m / C.size; for(int i = 0; i < C.size; ++i) t[i] = {I(i * q), I((i + 1) * q)}; t.back().second = A.m; } bool empty = false; for(auto& x : t) empty |= x.first == x.second; if(empty) cov("tilings with empty tiles");
  auto ctx = CTX(A, strf("base=%d custom=%d permuted=%d", idx, custom, C.own).c_str()); note(ctx); nontrivial(A.hash() * 31 + st().size); if(want_sample()) sample(ctx); auto q = make_csr<T, I>(r, A, idx), q0 = q; typedef dist_sparse_matrix<M> D;
  D d = custom ? D(C.c, q, t) : D(C.c, q); ok(q == q0, "matrix_modified", "%s", ctx.c_str()); check_dist(ctx, d, A, t, C.rank, "distribute"); D cp(d); check_dist(ctx, cp, A, t, C.rank, "copy"); D src(d); D mv(std::move(src)); check_dist(ctx, mv, A, t, C.rank, "move");
  auto chk_copy = cp.diagonal_tile_ptr() != d.diagonal_tile_ptr(); ok(chk_copy, "copy_is_deep", "%s", ctx.c_str());
  auto info = spblas::generate_spmv_comm_info(d), info2 = spblas::generate_spmv_comm_info(cp); ok(info.send_indices == info2.send_indices && info.recv_indices == info2.recv_indices, "plan_of_copy", "%s", ctx.c_str());
  // the plan requests exactly the remote columns that occur
  size_t lo = t[C.rank].first, up = t[C.rank].second, n = up - lo; std::set<size_t> need; for(auto& [k, v] : A.e) if(k.first >= lo && k.first < up && (k.second < lo || k.second >= up)) need.insert(k.second); std::set<size_t> got(info.recv_indices.begin(), info.recv_indices.end()); ok(got == need && info.recv_indices.size() == need.size(), "plan_columns", "%s", ctx.c_str());
  int64_t nn = need.size(), tot; MPI_Allreduce(&nn, &tot, 1, MPI_INT64_T, MPI_SUM, W()); auto vol = info.communication_volume(); ok(vol <= (size_t)tot && vol + C.size >= (size_t)tot, "communication_volume", "%s: %zu for %ld exchanged elements", ctx.c_str(), vol, (long)tot);
  int reps = r.in(1, 4); for(int rep = 0; rep < reps; ++rep) {
    std::vector<T> x(A.n), y(A.m); for(auto& v : x) v = rv<T>(r); for(auto& v : y) v = rv<T>(r); T al = (T)r.pick({1., 0., -2., .5}), be = (T)r.pick({0., 1., -1., .5}); std::vector<T> xl(x.begin() + lo, x.begin() + up), yl(y.begin() + lo, y.begin() + up), x0 = xl; xl.reserve(n + !n); yl.reserve(n + !n);
    if(r.chance(.3)) usleep(((C.rank * 2654435761u) >> (rep + 3)) % 300);  // skew the ranks
    spblas::pgespmv(al, rep % 2 ? cp : d, xl.data(), be, yl.data(), info); ok(xl == x0, "input_modified", "%s", ctx.c_str()); cov("distributed products");
    for(size_t i = 0; i < n; ++i) { T s(0); double sc = 0; for(auto it = A.e.lower_bound({lo + i, 0}); it != A.e.end() && it->first.first == lo + i; ++it) { s += it->second * x[it->first.second]; sc += std::abs(it->second * x[it->first.second]); } T w = al * s + be * y[lo + i]; double tol = std::is_same<T, int64_t>::value ? 0 : 1e-13 * (std::abs(al) * sc * (2 + A.n) + std::abs(be * y[lo + i])); if(!ok(std::abs(T(yl[i] - w)) <= tol, "pgespmv", "%s rep %d row %zu: off by %g", ctx.c_str(), rep, lo + i, (double)std::abs(T(yl[i] - w)))) break; }
  }
}
TEST("S05", "dist_double_32", 160, 3000) { dist<double, int32_t>(r); }
TEST("S05", "dist_double_64", 120, 2500) { dist<double, int64_t>(r); }
TEST("S05", "dist_int64", 60, 1200) { dist<int64_t, int64_t>(r); }
TEST("S05", "bad_tilings", 60, 800) {
  Comm C(r); typedef csr_matrix<double, int32_t> M; typedef dist_sparse_matrix<M> D; size_t m = r.in(4, 20); auto t = tiling<int32_t>(r, m, C.size); int k = r.in(0, 4); auto ctx = strf("m=%zu ranks=%d kind=%d", m, C.size, k); note(ctx); nontrivial(fnvs(ctx)); if(want_sample()) sample(ctx);
  if(k == 0) t.push_back({(int)m, (int)m}); if(k == 1) t[0].first = 1; if(k == 2) t.back().second = m + 1; if(k == 3) { if(C.size < 2) return; t[0].second += 1; if(t[0].second == t[1].first) return; } if(k == 4) { if(C.size < 3) return; t[1] = {(int)m, 0}; t[0] = {0, (int)m}; t[2].first = 0; t.back().second = m; }
  cov(strf("bad tiling kind %d", k)); ok(throws([&] { D d(C.c, m, m, t); }), "bad_tiling_accepted", "%s", ctx.c_str());
}
TEST("S05", "set_tiles", 60, 800) {
  Comm C(r); typedef csr_matrix<double, int32_t> M; typedef dist_sparse_matrix<M> D; auto A = random_mat<double>(r, 16, 1); auto t = tiling<int32_t>(r, A.m, C.size); auto ctx = CTX(A, "set tiles"); note(ctx); nontrivial(A.hash() + st().size); if(want_sample()) sample(ctx); auto q = make_csr<double, int32_t>(r, A, 0);
  D d(C.c, A.m, A.n, t); ok(!d.diagonal_tile_ptr() && !d.off_diagonal_tile_ptr() && d.nnz() == 0, "fresh_matrix_empty", "%s", ctx.c_str()); int64_t lo = t[C.rank].first, up = t[C.rank].second; auto a = extract_submatrix(q, {lo, lo}, {up, up}), b = extract_submatrix_inclrow_exclcol(q, {lo, lo}, {up, up}); if(r.chance(.5)) { d.set_diagonal_tile(a); d.set_off_diagonal_tile(b); } else { d.set_diagonal_tile(std::move(a)); d.set_off_diagonal_tile(std::move(b)); } check_dist(ctx, d, A, t, C.rank, "set_tiles");
}
TEST("S05", "block_diagonal", 40, 500) { // without an off-diagonal tile the product is the local one
  Comm C(r); typedef csr_matrix<double, int32_t> M; typedef dist_sparse_matrix<M> D; size_t m = r.in(1, 20); auto t = tiling<int32_t>(r, m, C.size); size_t lo = t[C.rank].first, n = t[C.rank].second - lo; Rng loc(r.u64() + C.rank); Mat<double> A; A.m = A.n = n; A.name = "block"; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(loc.chance(.4)) A.e[{i, j}] = rv<double>(loc);
  auto ctx = CTX(A, "block diagonal"); note(ctx); nontrivial(A.hash() + m * 7 + C.rank); D d(C.c, m, m, t); d.set_diagonal_tile(make_csr<double, int32_t>(loc, A, 0)); auto info = spblas::generate_spmv_comm_info(d); std::vector<double> x(n), y(n, 0.); for(auto& v : x) v = loc.gauss(); x.reserve(1); y.reserve(1); spblas::pgespmv(1., d, x.data(), 0., y.data(), info);
  for(size_t i = 0; i < n; ++i) { double s = 0, sc = 1; for(auto& [k, v] : A.e) if(k.first == i) { s += v * x[k.second]; sc += std::abs(v * x[k.second]); } close(y[i], s, 1e-12 * sc, "block_diagonal", "%s", ctx.c_str()); }
}
TEST("S05", "distributed_trace", 40, 500) { // sums over tiles agree with the serial quantity
  Comm C(r); auto A = random_mat<double>(r, 20, 1); for(auto& [k, v] : A.e) v = std::round(v * 8); typedef csr_matrix<double, int64_t> M; auto q = make_csr<double, int64_t>(r, A, 1); dist_sparse_matrix<M> d(C.c, q); double l = sparsexx::trace(d.diagonal_tile()), g; MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, C.c); auto ctx = CTX(A, "trace"); nontrivial(A.hash() + st().size); ok(g == sparsexx::trace(q), "trace", "%s", ctx.c_str()); ok(sparsexx::detail::mpi_allreduce(l, MPI_SUM, C.c) == g, "trace", "%s", ctx.c_str());
}

// ------------------------------------------------------------------ F02 (distributed)
TEST("F02", "write_dist_mm", 60, 800) {
  Comm C(r); typedef csr_matrix<double, int32_t> M; typedef dist_sparse_matrix<M> D; auto A = random_mat<double>(r, 16, 1); int idx = r.in(0, 1), fo = r.pick({-1, 0, 1}), eb = fo < 0 ? 0 : fo; auto t = tiling<int32_t>(r, A.m, C.size); auto ctx = CTX(A, strf("dist mm base %d forced %d", idx, fo).c_str()); note(ctx); nontrivial(A.hash() + st().size); if(want_sample()) sample(ctx);
  auto q = make_csr<double, int32_t>(r, A, idx); D d(C.c, q, t); std::string f = st().tmpdir + "/d.mtx"; { Mute m; write_dist_mm(f, d, fo); } MPI_Barrier(C.c);
  std::ifstream in(f); std::string line; std::getline(in, line); ok(line == "%%MatrixMarket matrix coordinate real general", "dist_mm_header", "%s: %s", ctx.c_str(), line.c_str()); size_t mm = 0, nn = 0, zz = 0, cnt = 0; in >> mm >> nn >> zz; ok(mm == A.m && nn == A.n && zz == A.e.size(), "dist_mm_sizes", "%s: %zu %zu %zu", ctx.c_str(), mm, nn, zz); Mat<double> G; G.m = A.m; G.n = A.n; long i, j; double v; while(in >> i >> j >> v) { ++cnt; G.e[{(size_t)(i - eb), (size_t)(j - eb)}] = v; } ok(cnt == zz && G == A, "dist_mm_content", "%s: %zu lines", ctx.c_str(), cnt);
  if(eb == 1) { auto back = read_mm<M>(f); check("dist_mm_roundtrip", ctx, back, A, 1); } MPI_Barrier(C.c);
}

// ------------------------------------------------------------------ M03
template <class T> T val(Rng& r); template <> char val<char>(Rng& r) { return r.in(0, 20); } template <> int val<int>(Rng& r) { return r.in(-1000000, 1000000); } template <> double val<double>(Rng& r) { return std::round(r.gauss() * 1e6) / 64; } template <> float val<float>(Rng& r) { return r.in(-1000, 1000) / 8.f; } template <> size_t val<size_t>(Rng& r) { return r.u64() >> 12; } template <> int64_t val<int64_t>(Rng& r) { return (int64_t)(r.u64() >> 12) - (1ll << 51); } template <> unsigned val<unsigned>(Rng& r) { return r.in(0, 1 << 28); }
template <class T> T red(T a, T b, int op) { return op == 0 ? T(a + b) : op == 1 ? std::min(a, b) : std::max(a, b); }
template <class T> void macis_reduce(Rng& r) {
  Comm C(r); int n = r.pick({0, 1, 1, 2, 7, 64, 1000}), op = r.in(0, 2); MPI_Op ops[] = {MPI_SUM, MPI_MIN, MPI_MAX}; uint64_t seed = r.u64(); auto data = [&](int k) { Rng q(seed + k); std::vector<T> v(n); for(auto& x : v) x = val<T>(q); return v; };
  auto ctx = strf("T=%zu n=%d op=%d ranks=%d", sizeof(T), n, op, C.size); note(ctx); nontrivial(seed + st().size); if(want_sample()) sample(ctx); auto mine = data(C.rank), m0 = mine; std::vector<T> want = data(0); for(int k = 1; k < C.size; ++k) { auto o = data(k); for(int i = 0; i < n; ++i) want[i] = red(want[i], o[i], op); }
  std::vector<T> out(n + 1, T(5)); macis::allreduce(mine.data(), out.data(), n, ops[op], C.c); ok(std::equal(want.begin(), want.end(), out.begin()) && out[n] == T(5) && mine == m0, "allreduce", "%s", ctx.c_str());
  auto ip = mine; macis::allreduce(ip.data(), n, ops[op], C.c); ok(ip == want, "allreduce_inplace", "%s", ctx.c_str()); if(n) { T s = macis::allreduce(mine[0], ops[op], C.c); ok(s == want[0], "allreduce_scalar", "%s", ctx.c_str()); }
  int root = r.in(0, C.size - 1); auto b = C.rank == root ? mine : std::vector<T>(n, T(3)); macis::bcast(b.data(), n, root, C.c); ok(b == data(root), "bcast", "%s root %d", ctx.c_str(), root);
  auto dt = macis::mpi_traits<T>::datatype(); int sz; MPI_Type_size(dt, &sz); ok(sz == (int)sizeof(T), "datatype_size", "%s: %d", ctx.c_str(), sz); int k = r.in(1, 40); auto ct = macis::make_contiguous_mpi_datatype<T>(k); MPI_Type_size(ct, &sz); ok(sz == (int)(k * sizeof(T)), "contiguous_size", "%s x%d: %d", ctx.c_str(), k, sz);
  { auto mv = std::move(ct); std::vector<T> g(k), w(k); Rng q(seed ^ 77); for(auto& x : w) x = val<T>(q); if(C.rank == root) g = w; MPI_Bcast(g.data(), 1, mv, root, C.c); ok(g == w, "contiguous_transfer", "%s", ctx.c_str()); }
}
TEST("M03", "reduce_double", 80, 1500) { macis_reduce<double>(r); }
TEST("M03", "reduce_int", 60, 1200) { macis_reduce<int>(r); }
TEST("M03", "reduce_size", 60, 1200) { macis_reduce<size_t>(r); }
TEST("M03", "reduce_float", 40, 800) { macis_reduce<float>(r); }
TEST("M03", "bcast_char", 30, 600) { Comm C(r); int n = r.in(0, 300), root = r.in(0, C.size - 1); uint64_t seed = r.u64(); Rng q(seed); std::string s(n, ' '); for(auto& c : s) c = q.in(-128, 127); auto b = C.rank == root ? s : std::string(n, '?'); nontrivial(seed + st().size); macis::bcast(b.data(), n, root, C.c); ok(b == s, "bcast", "char n=%d", n); }
template <size_t N> void bits(Rng& r) {
  Comm C(r); int n = r.pick({0, 1, 3, 17, 200}), root = r.in(0, C.size - 1); uint64_t seed = r.u64(); auto data = [&](int k) { Rng q(seed + k); std::vector<std::bitset<N>> v(n); for(auto& b : v) for(size_t i = 0; i < N; ++i) b[i] = q.chance(.5); return v; };
  auto ctx = strf("bitset<%zu> n=%d ranks=%d", N, n, C.size); note(ctx); nontrivial(seed + st().size + N); if(want_sample()) sample(ctx); auto b = C.rank == root ? data(root) : std::vector<std::bitset<N>>(n); macis::bcast(b.data(), n, root, C.c); ok(b == data(root), "bcast_bitset", "%s", ctx.c_str());
  auto dt = macis::mpi_traits<std::bitset<N>>::datatype(); int sz; MPI_Type_size(dt, &sz); ok(sz == (int)sizeof(std::bitset<N>), "bitset_datatype", "%s: %d bytes", ctx.c_str(), sz); auto mine = data(C.rank); std::vector<std::bitset<N>> g(n * C.size); MPI_Allgather(mine.data(), n, dt, g.data(), n, dt, C.c); for(int k = 0; k < C.size; ++k) ok(std::equal(g.begin() + k * n, g.begin() + (k + 1) * n, data(k).begin()), "gather_bitset", "%s from %d", ctx.c_str(), k);
}
TEST("M03", "bitset32", 20, 400) { bits<32>(r); }
TEST("M03", "bitset64", 30, 600) { bits<64>(r); }
TEST("M03", "bitset128", 30, 600) { bits<128>(r); }
TEST("M03", "bitset256", 20, 400) { bits<256>(r); }
template <class T> void sparsexx_mpi(Rng& r) {
  namespace d = sparsexx::detail; Comm C(r); int n = r.pick({0, 1, 2, 9, 500}), root = r.in(0, C.size - 1); uint64_t seed = r.u64(); auto data = [&](int k) { Rng q(seed + k); std::vector<T> v(n); for(auto& x : v) x = val<T>(q); return v; };
  auto ctx = strf("sparsexx T=%zu n=%d ranks=%d", sizeof(T), n, C.size); note(ctx); nontrivial(seed + st().size); if(want_sample()) sample(ctx); ok(d::get_mpi_rank(C.c) == C.rank && d::get_mpi_size(C.c) == C.size && macis::comm_rank(C.c) == C.rank && macis::comm_size(C.c) == C.size, "rank_size", "%s", ctx.c_str()); auto mine = data(C.rank);
  if(n) { T w = data(0)[0]; for(int k = 1; k < C.size; ++k) w = red(w, data(k)[0], 0); ok(d::mpi_allreduce(mine[0], MPI_SUM, C.c) == w, "sp_allreduce", "%s", ctx.c_str()); T mx = data(0)[0]; for(int k = 1; k < C.size; ++k) mx = std::max(mx, data(k)[0]); ok(d::mpi_allreduce(mine[0], MPI_MAX, C.c) == mx, "sp_allreduce", "%s max", ctx.c_str()); }
  std::vector<T> all; for(int k = 0; k < C.size; ++k) { auto o = data(k); all.insert(all.end(), o.begin(), o.end()); } ok(d::mpi_allgather(mine, C.c) == all, "sp_allgather", "%s", ctx.c_str()); std::vector<T> g(n * C.size); d::mpi_allgather(mine.data(), n, g.data(), C.c); ok(g == all, "sp_allgather_ptr", "%s", ctx.c_str());
  auto b = C.rank == root ? mine : std::vector<T>(n, T(1)); d::mpi_bcast(b, root, C.c); ok(b == data(root), "sp_bcast", "%s", ctx.c_str());
  // ring exchange with several messages in flight
  std::vector<MPI_Request> rq; int nx = (C.rank + 1) % C.size, pv = (C.rank + C.size - 1) % C.size; std::vector<T> in1(n), in2(n); auto two = data(C.rank + 100); rq.push_back(d::mpi_irecv(in2, pv, 8, C.c)); rq.push_back(d::mpi_irecv(in1.data(), n, pv, 7, C.c)); if(r.chance(.3)) usleep(C.rank * 97 % 200); rq.push_back(d::mpi_isend(mine, nx, 7, C.c)); rq.push_back(d::mpi_isend(two.data(), n, nx, 8, C.c)); d::mpi_waitall_ignore_status(rq); ok(in1 == data(pv) && in2 == data(pv + 100), "sp_exchange", "%s", ctx.c_str());
}
TEST("M03", "sp_double", 40, 800) { sparsexx_mpi<double>(r); }
TEST("M03", "sp_int64", 40, 800) { sparsexx_mpi<int64_t>(r); }
TEST("M03", "sp_uint64", 40, 800) { sparsexx_mpi<uint64_t>(r); }
TEST("M03", "sp_int", 40, 800) { sparsexx_mpi<int>(r); }
TEST("M03", "sp_unsigned", 20, 400) { sparsexx_mpi<unsigned>(r); }
TEST("M03", "gather_scan", 100, 2000) {
  Comm C(r); uint64_t seed = r.u64(); auto v = [&](int k) { Rng q(seed + k); return q.chance(.3) ? 0 : (int)q.in(0, 100000); }; std::vector<size_t> g, s; size_t tot = macis::total_gather_and_exclusive_scan((size_t)v(C.rank), g, s, C.c), t = 0; std::vector<int> gi, si; int ti = macis::total_gather_and_exclusive_scan(v(C.rank), gi, si, C.c); nontrivial(seed + st().size);
  for(int k = 0; k < C.size; ++k) { ok(g[k] == (size_t)v(k) && s[k] == t && gi[k] == v(k) && si[k] == (int)t, "gather_scan", "rank %d of %d", k, C.size); t += v(k); } ok(tot == t && ti == (int)t && g.size() == (size_t)C.size && s.size() == (size_t)C.size, "gather_scan_total", "%zu want %zu", tot, t);
}
TEST("M03", "oversized_rejected", 5, 5) { Comm C(r); std::vector<double> v(1); nontrivial(st().cs); size_t big = (size_t)std::numeric_limits<int>::max() + st().cs; ok(throws([&] { macis::allreduce(v.data(), v.data(), big, MPI_SUM, C.c); }), "oversized", "allreduce"); ok(throws([&] { macis::allreduce(v.data(), big, MPI_SUM, C.c); }), "oversized", "in place"); ok(throws([&] { macis::bcast(v.data(), big, 0, C.c); }), "oversized", "bcast"); }

// ------------------------------------------------------------------ A04
template <class T, class Cmp> void select_k(Rng& r, Cmp cmp, const char* nm) {
  Comm C(r); int kind = r.in(0, 4); uint64_t seed = r.u64(); int mx = r.pick({1, 3, 10, 60});
  auto data = [&](int k) { Rng q(seed + k * 7919); int n = kind == 3 && q.chance(.6) ? 0 : q.in(0, mx); std::vector<T> v(n); for(auto& x : v) x = kind == 0 ? (T)q.in(0, 3) : kind == 1 ? (T)7 : kind == 2 ? (T)q.in(-1000000, 1000000) : (T)q.in(-20, 20); if(kind == 4) std::sort(v.begin(), v.end()); return v; };
  std::vector<T> all; for(int k = 0; k < C.size; ++k) { auto o = data(k); all.insert(all.end(), o.begin(), o.end()); } if(all.empty()) return; auto mine = data(C.rank); auto sorted = all; std::sort(sorted.begin(), sorted.end(), cmp); std::vector<int> ks{1, (int)all.size(), (int)r.in(1, all.size()), (int)r.in(1, all.size())}; if(all.size() < 12) { ks.clear(); for(size_t k = 1; k <= all.size(); ++k) ks.push_back(k); }
  auto ctx = strf("%s n=%zu kind=%d ranks=%d local=%zu", nm, all.size(), kind, C.size, mine.size()); nontrivial(seed + st().size); if(want_sample()) sample(ctx); if(kind == 3) cov("unbalanced inputs");
  for(int k : ks) { auto d = mine; d.shrink_to_fit(); note(ctx + strf(" k=%d", k)); T x = macis::dist_quickselect(d.begin(), d.end(), k, C.c, cmp, [&](const T& a, const T& b) { return !cmp(a, b) && !cmp(b, a); }); ok(!cmp(x, sorted[k - 1]) && !cmp(sorted[k - 1], x), "kth_element", "%s k=%d", ctx.c_str(), k); auto a = d, b = mine; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ok(a == b, "data_lost", "%s k=%d", ctx.c_str(), k); cov("selections"); }
}
TEST("A04", "less_int", 80, 2000) { select_k<int>(r, std::less<int>{}, "less<int>"); }
TEST("A04", "greater_int", 80, 2000) { select_k<int>(r, std::greater<int>{}, "greater<int>"); }
TEST("A04", "greater_double", 80, 2000) { select_k<double>(r, std::greater<double>{}, "greater<double>"); }
TEST("A04", "by_magnitude", 80, 2000) { select_k<double>(r, [](double a, double b) { return std::abs(a) > std::abs(b); }, "by magnitude"); }
TEST("A04", "leg_partition", 150, 4000) {
  int n = r.in(0, 60); std::vector<int> v(n); for(auto& x : v) x = r.in(-5, 5); int p = r.in(-6, 6); auto d = v; auto [b, e, g, en] = macis::leg_partition(d.begin(), d.end(), p, std::less<int>{}, std::equal_to<int>{}); nontrivial(fnv(v.data(), 4 * n) + p); ok(b == d.begin() && en == d.end() && b <= e && e <= g && g <= en, "leg_ranges", "n=%d", n); for(auto it = b; it != e; ++it) ok(*it < p, "leg_less", "%d", *it); for(auto it = e; it != g; ++it) ok(*it == p, "leg_equal", "%d", *it); for(auto it = g; it != en; ++it) ok(*it > p, "leg_greater", "%d", *it); std::sort(d.begin(), d.end()); std::sort(v.begin(), v.end()); ok(d == v, "leg_data_lost", "n=%d", n);
}
