// H01 matrix elements, H02 CSR blocks (serial + distributed), H03 RDMs, H04 natural-orbital rotation.
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "oracle.hpp"
#include <macis/csr_hamiltonian.hpp>
#include <macis/hamiltonian_generator.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#undef I
using namespace vh;
using namespace macis;
using orc::u128; using orc::Ints;

template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
template <size_t N> Gen<N> make_gen(Ints& I) {
  size_t n = I.n;
  return Gen<N>(matrix_span<double>(I.T.data(), n, n), rank4_span<double>(I.V.data(), n, n, n, n));
}
template <size_t N> std::vector<std::bitset<N>> tb(const std::vector<u128>& v) { std::vector<std::bitset<N>> r; for(auto x : v) r.push_back(orc::to_bitset<N>(x)); return r; }
static size_t ne(Rng& r, size_t n, size_t cap) {
  size_t e; switch(r.in(0, 5)) { case 0: e = 0; break; case 1: e = n; break; case 2: e = n - 1; break; default: e = r.in(0, n); }
  return std::min(e, cap);
}

// ------------------------------------------------------------------ H01
template <size_t N> void h01(Rng& r, size_t n, int npair, size_t cap) {
  int kind = r.pick({0, 0, 1, 2, 3, 4});
  Ints I = orc::random_ints(r, n, kind); Ints I0 = I;
  auto g = make_gen<N>(I);
  double sc = 1e-12 * (1 + orc::scale(I)) * 40;
  nontrivial(orc::hashi(I));
  cov(strf("integral kind %d", kind)); covmax("orbitals", n);
  for(int k = 0; k < npair; ++k) {
    size_t na = ne(r, n, cap), nb = ne(r, n, cap);
    u128 ket = orc::rand_det(r, n, na, nb), bra = r.chance(.1) ? orc::rand_det(r, n, na, nb) : orc::excite(r, n, ket, r.in(0, 3));
    int d = orc::pop(bra ^ ket) / 2;
    auto ctx = strf("N=%zu norb=%zu kind=%d bra=%s ket=%s", N, n, kind, orc::dstr(bra, n).c_str(), orc::dstr(ket, n).c_str());
    note(ctx); if(want_sample()) sample(ctx);
    nontrivial(orc::hashd(bra) * 3 + orc::hashd(ket));
    cov(strf("excitation rank %d", d));
    auto B = orc::to_bitset<N>(bra), K = orc::to_bitset<N>(ket);
    double want = orc::melem(I0, bra, ket), tol = sc * (1 + na + nb) * (1 + na + nb);
    double e1 = g.matrix_element(B, K), e2 = g.matrix_element(K, B);
    close(e1, want, tol, strf("element_rank%d", d).c_str(), "%s", ctx.c_str());
    close(e2, want, tol, strf("hermitian_rank%d", d).c_str(), "%s", ctx.c_str());
    // the overload with pre-extracted strings
    auto ba = bitset_lo_word(B), bb = bitset_hi_word(B), ka = bitset_lo_word(K), kb = bitset_hi_word(K);
    close(g.matrix_element(ba, ka, ba ^ ka, bb, kb, bb ^ kb, bits_to_indices(ba), bits_to_indices(bb)), want, tol, "element_strings", "%s", ctx.c_str());
    if(d > 2) ok(e1 == 0 && e2 == 0, "beyond_double", "%s: %g", ctx.c_str(), e1);
    // fast diagonals for the excited determinant bra <- ket
    auto oa = bits_to_indices(ka), ob = bits_to_indices(kb);
    double H0 = orc::melem(I0, ket, ket), H1 = orc::melem(I0, bra, bra);
    auto ea = g.single_orbital_ens(n, oa, ob), eb = g.single_orbital_ens(n, ob, oa);
    ok(ea.size() == n && eb.size() == n, "orbital_ens_size", "%s", ctx.c_str());
    for(size_t p = 0; p < n; ++p) {
      // orbital energy: T_pp + sum_same [(pp|qq)-(pq|qp)] + sum_opp (pp|qq)
      double ra = I0.t(p, p), rb = ra;
      for(auto q : oa) { ra += I0.v(p, p, q, q) - I0.v(p, q, q, p); rb += I0.v(p, p, q, q); }
      for(auto q : ob) { rb += I0.v(p, p, q, q) - I0.v(p, q, q, p); ra += I0.v(p, p, q, q); }
      close(ea[p], ra, tol, "orbital_en", "%s p=%zu", ctx.c_str(), p);
      close(eb[p], rb, tol, "orbital_en", "%s p=%zu", ctx.c_str(), p);
      close(g.single_orbital_en(p, oa, ob), ra, tol, "orbital_en_single", "%s p=%zu", ctx.c_str(), p);
      if(n > 16 && p > 4) break;
    }
    auto xa = ba ^ ka, xb = bb ^ kb;
    auto hol_a = bits_to_indices(ka & xa), par_a = bits_to_indices(ba & xa), hol_b = bits_to_indices(kb & xb), par_b = bits_to_indices(bb & xb);
    if(hol_a.size() == 1 && hol_b.empty()) {
      uint32_t h = hol_a[0], p = par_a[0];
      close(g.fast_diag_single(oa, ob, h, p, H0), H1, tol, "fast_diag_single", "%s", ctx.c_str());
      close(g.fast_diag_single(ea[h], ea[p], h, p, H0), H1, tol, "fast_diag_single_en", "%s", ctx.c_str());
      cov("fast single diagonals");
    }
    if(hol_b.size() == 1 && hol_a.empty()) {
      uint32_t h = hol_b[0], p = par_b[0];
      close(g.fast_diag_single(ob, oa, h, p, H0), H1, tol, "fast_diag_single", "%s", ctx.c_str());
      close(g.fast_diag_single(eb[h], eb[p], h, p, H0), H1, tol, "fast_diag_single_en", "%s", ctx.c_str());
      cov("fast single diagonals");
    }
    auto ss = [&](auto& hol, auto& par, auto& o, auto& oo, auto& e) {
      uint32_t h1 = hol[0], h2 = hol[1], p1 = par[0], p2 = par[1];
      if(r.chance(.5)) std::swap(h1, h2);
      if(r.chance(.5)) std::swap(p1, p2);
      close(g.fast_diag_ss_double(o, oo, h1, h2, p1, p2, H0), H1, tol, "fast_diag_ss_double", "%s", ctx.c_str());
      close(g.fast_diag_ss_double(e[h1], e[h2], e[p1], e[p2], h1, h2, p1, p2, H0), H1, tol, "fast_diag_ss_double_en", "%s", ctx.c_str());
      cov("fast same-spin double diagonals");
    };
    if(hol_a.size() == 2 && hol_b.empty()) ss(hol_a, par_a, oa, ob, ea);
    if(hol_b.size() == 2 && hol_a.empty()) ss(hol_b, par_b, ob, oa, eb);
    if(hol_a.size() == 1 && hol_b.size() == 1) {
      uint32_t hu = hol_a[0], hd = hol_b[0], pu = par_a[0], pd = par_b[0];
      close(g.fast_diag_os_double(oa, ob, hu, hd, pu, pd, H0), H1, tol, "fast_diag_os_double", "%s", ctx.c_str());
      close(g.fast_diag_os_double(ea[hu], eb[hd], ea[pu], eb[pd], hu, hd, pu, pd, H0), H1, tol, "fast_diag_os_double_en", "%s", ctx.c_str());
      cov("fast opposite-spin double diagonals");
    }
  }
  ok(I.T == I0.T && I.V == I0.V, "integrals_modified", "N=%zu norb=%zu", N, n);
}
TEST("H01", "elements64", 160, 4000) { h01<64>(r, r.in(1, 7), 60, 7); }
TEST("H01", "elements128", 160, 4000) { h01<128>(r, r.in(1, 7), 60, 7); }
TEST("H01", "elements64_wide", 6, 60) { h01<64>(r, r.pick({16, 17, 31, 32, 32}), 80, 6); }
TEST("H01", "elements128_wide", 4, 24) { h01<128>(r, r.pick({31, 32, 33, 34, 40}), 80, 6); }
TEST("H01", "elements128_half", 1, 3) { h01<128>(r, 64, 120, 6); }

// excitation signs against Jordan-Wigner counting, at every width
template <size_t N> void signs(Rng& r) {
  std::bitset<N> s;
  double p = r.pick({.1, .5, .9}); for(size_t i = 0; i < N; ++i) s[i] = r.chance(p);
  std::vector<int> o, v; for(size_t i = 0; i < N; ++i) (s[i] ? o : v).push_back(i);
  if(o.size() < 2 || v.size() < 2) return;
  nontrivial(std::hash<std::bitset<N>>()(s));
  auto between = [&](const std::bitset<N>& t, int a, int b) { int c = 0; for(int i = std::min(a, b) + 1; i < std::max(a, b); ++i) c += t[i]; return c % 2 ? -1. : 1.; };
  int i = r.pick(o), a = r.pick(v);
  if(r.chance(.3)) { o.back() > 0 ? i = o.back() : 0; a = v[0]; }
  ok(single_excitation_sign(s, a, i) == between(s, a, i), "single_sign", "N=%zu %d->%d", N, i, a);
  auto k1 = s; k1.flip(i).flip(a);
  auto [o1, v1, sg] = single_excitation_sign_indices(k1, s, k1 ^ s);
  ok(o1 == (unsigned)i && v1 == (unsigned)a && sg == between(s, a, i), "single_sign_indices", "N=%zu %d->%d: %u %u %g", N, i, a, o1, v1, sg);
  int j, b; do j = r.pick(o); while(j == i); do b = r.pick(v); while(b == a);
  auto k2 = k1; k2.flip(j).flip(b);
  int i1 = std::min(i, j), i2 = std::max(i, j), a1 = std::min(a, b), a2 = std::max(a, b);
  auto t = s; double want = between(t, a1, i1); t.flip(a1).flip(i1); want *= between(t, a2, i2);
  auto [O1, V1, O2, V2, S2] = doubles_sign_indices(k2, s, k2 ^ s);
  // any consistent labelling is fine: the phase must be that of the labelling returned
  bool same = std::set<unsigned>{O1, O2} == std::set<unsigned>{(unsigned)i, (unsigned)j} && std::set<unsigned>{V1, V2} == std::set<unsigned>{(unsigned)a, (unsigned)b};
  ok(same, "double_indices", "N=%zu", N);
  double flip = ((O1 == (unsigned)i1) == (V1 == (unsigned)a1)) ? 1. : -1.;
  if(same) ok(S2 == want * flip, "double_sign", "N=%zu %d,%d->%d,%d", N, i, j, a, b);
  ok(doubles_sign(k2, s, k2 ^ s) == S2, "double_sign_only", "N=%zu", N);
}
TEST("H01", "signs", 1500, 40000) { signs<32>(r); signs<64>(r); signs<128>(r); signs<256>(r); }

// ------------------------------------------------------------------ H02
struct DetSet { size_t n, na, nb; std::vector<u128> d; };
static DetSet det_list(Rng& r, size_t n, size_t maxd) {
  DetSet S; S.n = n;
  do { S.na = ne(r, n, n); S.nb = ne(r, n, n); } while(S.na + S.nb == 0);
  auto full = orc::full_space(n, S.na, S.nb);
  r.shuffle(full);
  size_t m = std::min<size_t>(full.size(), r.chance(.2) ? 1 : r.size(1, maxd, 5 * maxd, .01));
  S.d.assign(full.begin(), full.begin() + m);
  if(r.chance(.4)) std::sort(S.d.begin(), S.d.end());
  return S;
}
template <class M> void check_csr(const M& A, const std::vector<u128>& bra, const std::vector<u128>& ket, const Ints& I, double thr, double tol, const std::string& ctx, const std::vector<char>* skipcol = nullptr) {
  if(!ok((size_t)A.m() == bra.size() && (size_t)A.n() == ket.size(), "csr_shape", "%s: %ldx%ld", ctx.c_str(), (long)A.m(), (long)A.n())) return;
  auto& rp = A.rowptr(); auto& ci = A.colind(); auto& nz = A.nzval(); long ix = A.indexing();
  if(!ok(rp.size() == bra.size() + 1, "csr_rowptr_size", "%s", ctx.c_str())) return;
  ok(rp[0] == ix, "csr_rowptr0", "%s", ctx.c_str());
  ok((size_t)(rp[bra.size()] - ix) == (size_t)A.nnz() && ci.size() == (size_t)A.nnz() && nz.size() == (size_t)A.nnz(), "csr_nnz", "%s: %ld %ld %zu", ctx.c_str(), (long)rp[bra.size()], (long)A.nnz(), ci.size());
  for(size_t i = 0; i < bra.size(); ++i) {
    if(!ok(rp[i] <= rp[i + 1] && (size_t)(rp[i + 1] - ix) <= nz.size(), "csr_monotone", "%s row %zu", ctx.c_str(), i)) return;
    std::vector<char> present(ket.size(), 0); long last = -1;
    for(long k = rp[i] - ix; k < (long)rp[i + 1] - ix; ++k) {
      long c = ci[k] - ix;
      if(!ok(c >= 0 && c < (long)ket.size() && c > last, "csr_columns", "%s row %zu col %ld after %ld", ctx.c_str(), i, c, last)) return;
      last = c; present[c] = 1;
      if(skipcol && (*skipcol)[c]) { fail("csr_local_column_in_offdiag", "%s row %zu col %ld", ctx.c_str(), i, c); continue; }
      double want = orc::melem(I, bra[i], ket[c]);
      close(nz[k], want, tol, "csr_value", "%s (%zu,%ld)", ctx.c_str(), i, c);
      ok(std::abs(nz[k]) > thr, "csr_below_threshold", "%s (%zu,%ld) = %g thr %g", ctx.c_str(), i, c, nz[k], thr);
    }
    for(size_t c = 0; c < ket.size(); ++c) if(!present[c] && !(skipcol && (*skipcol)[c])) {
      double want = orc::melem(I, bra[i], ket[c]);
      ok(std::abs(want) <= thr + tol, "csr_missing", "%s (%zu,%zu) = %g thr %g", ctx.c_str(), i, c, want, thr);
    }
  }
  cov("sparse entries compared", nz.size());
}
template <size_t N, class IT> void h02(Rng& r) {
  size_t n = r.in(1, 6); int kind = r.pick({0, 1, 2, 3});
  Ints I = orc::random_ints(r, n, kind); auto g = make_gen<N>(I);
  auto S = det_list(r, n, 60);
  // bra and ket lists: any two slices (or shuffles) of the set
  std::vector<u128> bra = S.d, ket = S.d;
  int mode = r.in(0, 3);
  if(mode == 1) { r.shuffle(ket); ket.resize(r.in(0, ket.size())); }
  if(mode == 2) { size_t a = r.in(0, bra.size()), b = r.in(a, bra.size()); bra = std::vector<u128>(bra.begin() + a, bra.begin() + b); }
  if(mode == 3) { r.shuffle(bra); bra.resize(r.in(0, bra.size())); r.shuffle(ket); ket.resize(r.in(0, ket.size())); }
  double thr = r.pick({0., 1e-12, 1e-3, .5, 1., 1.5, 1e6}), tol = 1e-11 * (1 + orc::scale(I)) * (2 * n + 1) * (2 * n + 1);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu bra=%zu ket=%zu thr=%g kind=%d mode=%d", N, n, S.na, S.nb, bra.size(), ket.size(), thr, kind, mode);
  note(ctx); if(want_sample()) sample(ctx);
  uint64_t h = orc::hashi(I); for(auto x : bra) h = h * 31 + orc::hashd(x); for(auto x : ket) h = h * 37 + orc::hashd(x); nontrivial(h);
  auto B = tb<N>(bra), K = tb<N>(ket);
  auto A = make_csr_hamiltonian_block<IT, N>(B.begin(), B.end(), K.begin(), K.end(), g, thr);
  check_csr(A, bra, ket, I, thr, tol, ctx);
  auto D = tb<N>(S.d);
  auto F = make_csr_hamiltonian<IT, N>(D.begin(), D.end(), g, thr);
  check_csr(F, S.d, S.d, I, thr, tol, ctx + " square");
  // a block with some determinants blanked out is the block without those columns
  if(!K.empty()) {
    auto K2 = K; std::vector<char> skip(K.size(), 0);
    for(size_t i = 0; i < K2.size(); ++i) if(r.chance(.3)) { K2[i] = 0; skip[i] = 1; }
    if(!B.empty()) { auto A2 = make_csr_hamiltonian_block<IT, N>(B.begin(), B.end(), K2.begin(), K2.end(), g, thr); check_csr(A2, bra, ket, I, thr, tol, ctx + " blanked", &skip); }
  }
}
TEST("H02", "block64_i32", 220, 5000) { h02<64, int32_t>(r); }
TEST("H02", "block64_i64", 220, 5000) { h02<64, int64_t>(r); }
TEST("H02", "block128_i32", 120, 3000) { h02<128, int32_t>(r); }
TEST("H02", "block128_i64", 120, 3000) { h02<128, int64_t>(r); }

template <size_t N, class IT> void h02d(Rng& r) {
  size_t n = r.in(1, 6); int kind = r.pick({0, 1, 3});
  Ints I = orc::random_ints(r, n, kind); auto g = make_gen<N>(I);
  auto S = det_list(r, n, r.chance(.25) ? 5 : 50);
  double thr = r.pick({0., 1e-12, 1e-3, 1.}), tol = 1e-11 * (1 + orc::scale(I)) * (2 * n + 1) * (2 * n + 1);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu ndet=%zu thr=%g ranks=%d", N, n, S.na, S.nb, S.d.size(), thr, st().size);
  note(ctx); if(want_sample()) sample(ctx);
  uint64_t h = orc::hashi(I) + st().size; for(auto x : S.d) h = h * 31 + orc::hashd(x); nontrivial(h);
  auto D = tb<N>(S.d); auto D0 = D;
  auto H = make_dist_csr_hamiltonian<IT, N>(MPI_COMM_WORLD, D.begin(), D.end(), g, thr);
  ok(D == D0, "dets_modified", "%s", ctx.c_str());
  size_t nd = S.d.size();
  ok((size_t)H.m() == nd && (size_t)H.n() == nd, "dist_shape", "%s", ctx.c_str());
  // the row bounds of all ranks tile the rows
  size_t at = 0;
  for(int k = 0; k < st().size; ++k) { auto [b, e] = H.row_bounds(k); ok((size_t)b == at && e >= b, "dist_tiling", "%s rank %d: %ld..%ld", ctx.c_str(), k, (long)b, (long)e); at = e; }
  ok(at == nd, "dist_tiling_end", "%s: %zu", ctx.c_str(), at);
  auto [b, e] = H.row_bounds(st().rank);
  if((size_t)e < nd / st().size + b) {}
  std::vector<u128> loc(S.d.begin() + b, S.d.begin() + e);
  if(loc.empty()) cov("ranks without rows");
  check_csr(H.diagonal_tile(), loc, loc, I, thr, tol, ctx + " diag");
  if(st().size > 1) {
    std::vector<char> skip(nd, 0); for(long i = b; i < (long)e; ++i) skip[i] = 1;
    ok(H.off_diagonal_tile_ptr() != nullptr, "dist_no_offdiag", "%s", ctx.c_str());
    if(H.off_diagonal_tile_ptr()) check_csr(H.off_diagonal_tile(), loc, S.d, I, thr, tol, ctx + " offdiag", &skip);
  }
  // entry conservation: the ranks together hold what one process would hold
  auto F = make_csr_hamiltonian<IT, N>(D.begin(), D.end(), g, thr);
  long mine = H.nnz(), tot = 0; MPI_Allreduce(&mine, &tot, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  ok(tot == (long)F.nnz(), "dist_nnz_total", "%s: %ld vs serial %ld", ctx.c_str(), tot, (long)F.nnz());
}
// rows with hundreds of entries: a determinant against everything it couples to
template <size_t N> void long_rows(Rng& r) {
  size_t n = r.in(7, 9), na = r.in(2, n - 2), nb = r.in(2, n - 2); Ints I = orc::random_ints(r, n, r.pick({0, 3})); auto g = make_gen<N>(I); std::vector<u128> bra; for(int i = r.in(1, 3); i--;) { auto d = orc::rand_det(r, n, na, nb); if(std::find(bra.begin(), bra.end(), d) == bra.end()) bra.push_back(d); }
  std::vector<u128> ket; for(auto d : orc::full_space(n, na, nb)) if(orc::pop(d ^ bra[0]) <= 4 || r.chance(.02)) ket.push_back(d); r.shuffle(ket); double thr = r.pick({0., 1e-6}), tol = 1e-11 * (1 + orc::scale(I)) * (2 * n + 1) * (2 * n + 1);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu bra=%zu ket=%zu thr=%g", N, n, na, nb, bra.size(), ket.size(), thr); note(ctx); if(want_sample()) sample(ctx); nontrivial(orc::hashi(I) ^ orc::hashd(bra[0]));
  auto B = tb<N>(bra), K = tb<N>(ket); if(r.chance(.5)) { auto A = make_csr_hamiltonian_block<int32_t, N>(B.begin(), B.end(), K.begin(), K.end(), g, thr); check_csr(A, bra, ket, I, thr, tol, ctx); covmax("entries in a row", A.rowptr()[1] - A.rowptr()[0]); }
  else { auto A = make_csr_hamiltonian_block<int64_t, N>(K.begin(), K.end(), B.begin(), B.end(), g, thr); check_csr(A, ket, bra, I, thr, tol, ctx); covmax("rows", ket.size()); }
}
TEST("H02", "block64_long_rows", 4, 60) { long_rows<64>(r); }
TEST("H02", "block128_long_rows", 2, 40) { long_rows<128>(r); }
TEST("H02", "dist64", 40, 1500) { h02d<64, int32_t>(r); }
TEST("H02", "dist128", 25, 800) { h02d<128, int64_t>(r); }

// ------------------------------------------------------------------ H03
static std::vector<double> coefs(Rng& r, size_t m) {
  std::vector<double> c(m); int k = r.in(0, 6);
  for(auto& x : c) x = k == 0 ? (r.chance(.4) ? 0. : r.gauss()) : k == 1 ? (double)r.in(-1, 1) : k >= 5 ? r.gauss() * std::pow(10., -r.uni(0, 9)) : r.gauss(); // 5, 6: amplitudes over many decades, as in a real wavefunction
  if(k == 4) { for(auto& x : c) x = 0; c[r.in(0, m - 1)] = 1; }
  double s = 0; for(auto x : c) s += x * x;
  if(s == 0) { c[0] = 1; s = 1; }
  if(k != 1) for(auto& x : c) x /= std::sqrt(s);
  return c;
}
template <size_t N> void h03(Rng& r) {
  size_t n = r.in(1, 5); int kind = r.pick({0, 1, 3});
  Ints I = orc::random_ints(r, n, kind); auto g = make_gen<N>(I);
  auto S = det_list(r, n, 40); size_t m = S.d.size(), n2 = n * n, n4 = n2 * n2;
  auto C = coefs(r, m); double nrm = 0; for(auto x : C) nrm += x * x;
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu ndet=%zu kind=%d", N, n, S.na, S.nb, m, kind);
  note(ctx); if(want_sample()) sample(ctx);
  uint64_t h = orc::hashi(I) + fnv(C.data(), 8 * m); for(auto x : S.d) h = h * 31 + orc::hashd(x); nontrivial(h);
  std::vector<double> R1(n2, 0.), R2(n4, 0.);
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(n, S.d[i], S.d[j], C[i] * C[j], R1, &R2);
  auto D = tb<N>(S.d); auto C0 = C;
  std::vector<double> O(n2, 0.), W(n4, 0.);
  g.form_rdms(D.begin(), D.end(), D.begin(), D.end(), C.data(), matrix_span<double>(O.data(), n, n), rank4_span<double>(W.data(), n, n, n, n));
  double tol = 1e-11 * (1 + nrm) * (2 * n + 1);
  for(size_t i = 0; i < n2; ++i) if(!close(O[i], R1[i], tol, "ordm", "%s [%zu,%zu]", ctx.c_str(), i % n, i / n)) break;
  auto a = orc::sym8(n, W.data()), b = orc::sym8(n, R2.data());
  for(size_t i = 0; i < n4; ++i) if(!close(a[i], b[i], tol, "trdm", "%s flat %zu", ctx.c_str(), i)) break;
  // contracting with (pq|rs) = (pq|sr) over the last pair, as the Fock matrices do, may not mix the first one
  for(size_t p = 0; p < n2; ++p) { bool good = true; for(size_t x = 0; x < n && good; ++x) for(size_t y = 0; y <= x; ++y) if(!(good = close(W[p + n2 * (x + n * y)] + W[p + n2 * (y + n * x)], R2[p + n2 * (x + n * y)] + R2[p + n2 * (y + n * x)], tol, "trdm_last_pair", "%s [%zu,%zu,%zu,%zu]", ctx.c_str(), p % n, p / n, x, y))) break; if(!good) break; }
  double tr = 0; for(size_t p = 0; p < n; ++p) tr += O[p + n * p];
  close(tr, nrm * (S.na + S.nb), tol * n, "trace", "%s", ctx.c_str());
  double E = 0, Er = 0;
  for(size_t i = 0; i < n2; ++i) E += O[i] * I.T[i];
  for(size_t i = 0; i < n4; ++i) E += W[i] * I.V[i];
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) Er += C[i] * C[j] * orc::melem(I, S.d[i], S.d[j]);
  close(E, Er, 1e-10 * (1 + orc::scale(I)) * (1 + nrm) * n4, "energy", "%s", ctx.c_str());
  ok(C == C0, "coef_modified", "%s", ctx.c_str());
  // accumulation: a second pass adds onto what is there
  g.form_rdms(D.begin(), D.end(), D.begin(), D.end(), C.data(), matrix_span<double>(O.data(), n, n), rank4_span<double>(W.data(), n, n, n, n));
  for(size_t i = 0; i < n2; ++i) if(!close(O[i], 2 * R1[i], 2 * tol, "accumulate", "%s", ctx.c_str())) break;
  // rows only: bra = a prefix of the list
  size_t k = r.in(0, m); std::vector<double> P1(n2, 0.), P2(n4, 0.), Q1(n2, 0.), Q2(n4, 0.);
  for(size_t i = 0; i < k; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(n, S.d[i], S.d[j], C[i] * C[j], P1, &P2);
  g.form_rdms(D.begin(), D.begin() + k, D.begin(), D.end(), C.data(), matrix_span<double>(Q1.data(), n, n), rank4_span<double>(Q2.data(), n, n, n, n));
  for(size_t i = 0; i < n2; ++i) if(!close(Q1[i], P1[i], tol, "ordm_rows", "%s rows %zu", ctx.c_str(), k)) break;
  a = orc::sym8(n, Q2.data()); b = orc::sym8(n, P2.data());
  for(size_t i = 0; i < n4; ++i) if(!close(a[i], b[i], tol, "trdm_rows", "%s rows %zu", ctx.c_str(), k)) break;
  // one-body only
  std::vector<double> O1(n2, 0.);
  g.form_rdms(D.begin(), D.end(), D.begin(), D.end(), C.data(), matrix_span<double>(O1.data(), n, n), rank4_span<double>(nullptr, n, n, n, n));
  for(size_t i = 0; i < n2; ++i) if(!close(O1[i], R1[i], tol, "ordm_only", "%s [%zu,%zu]", ctx.c_str(), i % n, i / n)) break;
}
TEST("H03", "rdm64", 220, 5000) { h03<64>(r); }
TEST("H03", "rdm128", 160, 4000) { h03<128>(r); }
// pairs with orbitals up to the half width, contribution by contribution
template <size_t N> void h03_wide(Rng& r, size_t n) {
  Ints I; I.n = n; I.T.assign(n * n, 0); I.V.assign(n * n * n * n, 0); auto g = make_gen<N>(I);
  std::vector<double> O(n * n, 0.), W(n * n * n * n, 0.), R1(n * n, 0.), R2(n * n * n * n, 0.);
  for(int k = 0; k < 12; ++k) {
    u128 ket = orc::rand_det(r, n, r.in(0, 4), r.in(1, 4)), bra = orc::excite(r, n, ket, r.in(0, 2));
    std::vector<u128> d{bra, ket}; auto D = tb<N>(d); double c[2] = {r.gauss(), r.gauss()};
    if(bra == ket) { d.pop_back(); D.pop_back(); }
    nontrivial(orc::hashd(bra) * 3 + orc::hashd(ket) + n); note(orc::dstr(bra, n) + " " + orc::dstr(ket, n));
    g.form_rdms(D.begin(), D.end(), D.begin(), D.end(), c, matrix_span<double>(O.data(), n, n), rank4_span<double>(W.data(), n, n, n, n));
    for(size_t i = 0; i < d.size(); ++i) for(size_t j = 0; j < d.size(); ++j) orc::rdms(n, d[i], d[j], c[i] * c[j], R1, &R2);
  }
  for(size_t i = 0; i < n * n; ++i) if(!close(O[i], R1[i], 1e-10, "ordm_wide", "N=%zu n=%zu [%zu,%zu]", N, n, i % n, i / n)) break;
  auto a = orc::sym8(n, W.data()), b = orc::sym8(n, R2.data());
  for(size_t i = 0; i < a.size(); ++i) if(!close(a[i], b[i], 1e-10, "trdm_wide", "N=%zu n=%zu flat %zu", N, n, i)) break;
}
TEST("H03", "rdm64_wide", 4, 40) { h03_wide<64>(r, r.pick({16, 31, 32})); }
TEST("H03", "rdm128_wide", 2, 20) { h03_wide<128>(r, r.pick({33, 36})); }

// ------------------------------------------------------------------ H04
template <size_t N> void h04(Rng& r) {
  size_t n = r.in(1, 5), n2 = n * n, n4 = n2 * n2; int kind = r.pick({0, 1, 3});
  Ints I = orc::random_ints(r, n, kind), I0 = I; auto g = make_gen<N>(I);
  // several rotations in a row: history matters
  int nrot = r.in(1, 3);
  double sc = 1 + orc::scale(I0);
  auto ctx = strf("N=%zu norb=%zu kind=%d rotations=%d", N, n, kind, nrot);
  note(ctx); if(want_sample()) sample(ctx); nontrivial(orc::hashi(I));
  for(int k = 0; k < nrot; ++k) {
    Ints Ib = I;
    // a density matrix: symmetric positive semidefinite, occupations in [0,2]
    bool deg = r.chance(.3);
    std::vector<double> occn(n), A(n2), U, P(n2, 0.);
    for(auto& x : occn) x = deg ? (double)r.in(0, 2) : r.uni(0, 2);
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) A[i + n * j] = A[j + n * i] = r.gauss();
    if(r.chance(.2)) { std::fill(A.begin(), A.end(), 0.); for(size_t i = 0; i < n; ++i) A[i + n * i] = i; }  // already diagonal
    orc::jacobi(n, A, &U);
    // natural orbitals close to the current ones: occupations in order, mixing by a small angle
    if(r.chance(.3)) { std::sort(occn.begin(), occn.end(), std::greater<double>()); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) U[i + n * j] = i == j; double th0 = std::pow(10., -r.uni(1, 7)); for(size_t i = 0; i + 1 < n; ++i) { double th = th0 * r.gauss(), c = std::cos(th), s_ = std::sin(th); for(size_t k2 = 0; k2 < n; ++k2) { double a = U[k2 + n * i], b = U[k2 + n * (i + 1)]; U[k2 + n * i] = c * a + s_ * b; U[k2 + n * (i + 1)] = c * b - s_ * a; } } cov("rotations by a small angle"); }
    for(size_t k2 = 0; k2 < n; ++k2) for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) P[i + n * j] += U[i + n * k2] * U[j + n * k2] * occn[k2];
    auto P0 = P;
    g.rotate_hamiltonian_ordm(P.data());
    ok(P == P0, "ordm_modified", "%s", ctx.c_str());
    double tol = 1e-9 * sc;
    // permutational symmetry survives
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) {
      close(I.t(p, q), I.t(q, p), tol, "T_symmetry", "%s", ctx.c_str());
      for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) {
        close(I.v(p, q, x, y), I.v(q, p, x, y), tol, "V_symmetry", "%s", ctx.c_str());
        close(I.v(p, q, x, y), I.v(x, y, p, q), tol, "V_symmetry", "%s", ctx.c_str());
      }
    }
    // orthogonality: invariants of the transform
    auto tr = [&](const Ints& J) {
      std::vector<double> f; double t1 = 0, t2 = 0, v1 = 0, v2 = 0, v3 = 0, m = 0;
      for(size_t p = 0; p < n; ++p) { t1 += J.t(p, p); for(size_t q = 0; q < n; ++q) { t2 += J.t(p, q) * J.t(p, q); v1 += J.v(p, p, q, q); v2 += J.v(p, q, q, p); for(size_t x = 0; x < n; ++x) m += J.t(p, q) * J.v(p, q, x, x); } }
      for(auto x : J.V) v3 += x * x;
      return std::vector<double>{t1, t2, v1, v2, v3, m};
    };
    auto ia = tr(Ib), ib = tr(I);
    for(size_t i = 0; i < ia.size(); ++i) close(ib[i], ia[i], 1e-9 * sc * sc * n4, "invariant", "%s #%zu", ctx.c_str(), i);
    // with distinct occupations the rotation is fixed up to signs: descending natural orbitals
    bool distinct_occ = true; { auto s = occn; std::sort(s.begin(), s.end()); for(size_t i = 1; i < n; ++i) if(s[i] - s[i - 1] < 1e-3) distinct_occ = false; }
    if(distinct_occ) {
      cov("rotations with distinct occupations");
      std::vector<double> Z; orc::jacobi(n, P0, &Z);  // ascending
      auto z = [&](size_t i, size_t k2) { return Z[i + n * (n - 1 - k2)]; };
      for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) {
        double t = 0; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) t += z(i, p) * z(j, q) * Ib.t(i, j);
        close(std::abs(I.t(p, q)), std::abs(t), 1e-8 * sc, "T_rotated", "%s (%zu,%zu)", ctx.c_str(), p, q);
      }
      for(int s = 0; s < 12; ++s) {
        size_t p = r.in(0, n - 1), q = r.in(0, n - 1), x = r.in(0, n - 1), y = r.in(0, n - 1); double t = 0;
        for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) for(size_t k2 = 0; k2 < n; ++k2) for(size_t l = 0; l < n; ++l) t += z(i, p) * z(j, q) * z(k2, x) * z(l, y) * Ib.v(i, j, k2, l);
        close(std::abs(I.v(p, q, x, y)), std::abs(t), 1e-8 * sc, "V_rotated", "%s (%zu,%zu,%zu,%zu)", ctx.c_str(), p, q, x, y);
      }
    } else cov("rotations with degenerate occupations");
    // everything computed later is consistent with the rotated integrals
    for(int t = 0; t < 30; ++t) {
      size_t na = r.in(0, n), nb = r.in(0, n);
      u128 ket = orc::rand_det(r, n, na, nb), bra = orc::excite(r, n, ket, r.in(0, 2));
      auto B = orc::to_bitset<N>(bra), K = orc::to_bitset<N>(ket);
      close(g.matrix_element(B, K), orc::melem(I, bra, ket), 1e-9 * sc * (1 + na + nb) * (1 + na + nb), "element_after", "%s %s %s", ctx.c_str(), orc::dstr(bra, n).c_str(), orc::dstr(ket, n).c_str());
      auto oa = bits_to_indices(bitset_lo_word(K)), ob = bits_to_indices(bitset_hi_word(K));
      auto xa = bits_to_indices(bitset_lo_word(B ^ K)), xb = bits_to_indices(bitset_hi_word(B ^ K));
      if(xa.size() == 2 && xb.empty()) {
        uint32_t hh = bitset_lo_word(K)[xa[0]] ? xa[0] : xa[1], pp = hh == xa[0] ? xa[1] : xa[0];
        close(g.fast_diag_single(oa, ob, hh, pp, orc::melem(I, ket, ket)), orc::melem(I, bra, bra), 1e-9 * sc * 40, "fast_diag_after", "%s", ctx.c_str());
      }
    }
  }
  // spectrum in a whole sector against the original integrals
  size_t na = r.in(0, n), nb = r.in(0, n);
  auto full = orc::full_space(n, na, nb);
  if(full.size() <= 60 && na + nb) {
    auto W0 = orc::jacobi(full.size(), orc::dense_h(I0, full));
    auto D = tb<N>(full); auto F = make_csr_hamiltonian<int32_t, N>(D.begin(), D.end(), g, 0.);
    std::vector<double> M(full.size() * full.size(), 0.);
    for(size_t i = 0; i < full.size(); ++i) for(long k = F.rowptr()[i] - F.indexing(); k < F.rowptr()[i + 1] - F.indexing(); ++k) M[i + full.size() * (F.colind()[k] - F.indexing())] = F.nzval()[k];
    auto W1 = orc::jacobi(full.size(), M);
    for(size_t i = 0; i < W0.size(); ++i) if(!close(W1[i], W0[i], 1e-8 * sc * n4, "spectrum", "%s eigenvalue %zu of %zu", ctx.c_str(), i, W0.size())) break;
    cov("sector spectra compared"); covmax("sector size", full.size());
  }
}
TEST("H04", "rotate64", 200, 5000) { h04<64>(r); }
TEST("H04", "rotate128", 120, 3000) { h04<128>(r); }
