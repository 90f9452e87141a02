// The legacy exact-diagonalisation code in attic/ (cmz::ed):
//   X01 determinants, excitations, Hamiltonian matrices
//   X02 integral tables, FCIDUMP files, density matrices
//   X03 Lanczos, band Lanczos, dense eigensolvers, full calculations, utilities
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "oracle.hpp"
#include "cmz_ed/slaterdet.h++"
#include "cmz_ed/integrals.h++"
#include "cmz_ed/hamil.h++"
#include "cmz_ed/lanczos.h++"
#include "cmz_ed/rdms.h++"
#include "cmz_ed/ed.h++"
#include "cmz_ed/bandlan.h++"
#undef I
namespace ce = cmz::ed;
using vh::Rng; using vh::ok; using vh::strf; using vh::cov; using vh::covmax; using vh::nontrivial; using vh::want_sample; using vh::sample; using vh::note;
using orc::u128; using orc::Ints;
static bool near(double a, double b, double tol, const char* key, const std::string& c) { return vh::close(a, b, tol, key, "%s", c.c_str()); }
struct Quiet { std::streambuf* o; Quiet() : o(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cout.clear(); } };

static uint64_t bits(u128 d, size_t n) { return (uint64_t)d | (uint64_t)(d >> 64) << n; }
static u128 unbits(uint64_t s, size_t n) { uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1; return (u128)(s & m) | (u128)((s >> n) & m) << 64; }
static ce::slater_det sd(u128 d, size_t n) { return ce::slater_det(bits(d, n), n, orc::pop((uint64_t)d), orc::pop(d >> 64)); }
static ce::SetSlaterDets mkset(const std::vector<u128>& v, size_t n) { ce::SetSlaterDets s; for(auto d : v) s.insert(sd(d, n)); return s; }
// determinants in the set's own order
static std::vector<u128> order(const ce::SetSlaterDets& s, size_t n) { std::vector<u128> v; for(auto& d : s) v.push_back(unbits(d.GetState(), n)); return v; }
static ce::intgrls::integrals mkints(const Ints& I) { return ce::intgrls::integrals((int64_t)I.n, I.T, I.V); }
static size_t rne(Rng& r, size_t n, size_t cap) { size_t e = r.chance(.2) ? (r.chance(.5) ? 0 : n) : r.in(0, n); return std::min(e, cap); }
static std::vector<u128> subset(Rng& r, const std::vector<u128>& all, size_t mx) {
  std::vector<u128> v = all; r.shuffle(v);
  size_t k = r.chance(.3) ? std::min(mx, v.size()) : r.in(1, std::min(mx, v.size()));
  v.resize(k); return v;
}
static bool trymake(const char* what, const std::function<void()>& f) {
  try { f(); return true; } catch(const std::string& s) { vh::fail(strf("%s_threw", what), "%s", s.c_str()); }
  catch(const char* s) { vh::fail(strf("%s_threw", what), "%s", s); }
  return false;
}

// =========================================================== X01
TEST("X01", "determinants", 400, 20000) {
  size_t n = r.pick({1, 2, 3, 5, 8, 12, 15, 16, 17, 20, 24, 31, 32});
  size_t na = rne(r, n, 8), nb = rne(r, n, 8);
  u128 d = orc::rand_det(r, n, na, nb);
  auto c = strf("norb=%zu |%s>", n, orc::dstr(d, n).c_str()); note(c); if(want_sample()) sample(c);
  nontrivial(orc::hashd(d) + n); covmax("orbitals", n);
  auto s = sd(d, n);
  std::vector<uint64_t> ou, od, vu, vd, gu, gd, hu, hd;
  for(size_t i = 0; i < n; ++i) { (d >> i & 1 ? ou : vu).push_back(i); (d >> (64 + i) & 1 ? od : vd).push_back(i); }
  ok(s.GetOccOrbsUp() == ou && s.GetOccOrbsDo() == od, "occupied", "%s", c.c_str());
  s.GetOccsAndVirtsUp(gu, gd); s.GetOccsAndVirtsDo(hu, hd);
  ok(gu == ou && gd == vu && hu == od && hd == vd, "occs_virts", "%s", c.c_str());
  ok(s.GetState() == bits(d, n) && s.GetNorbs() == n && s.GetNup() == na && s.GetNdo() == nb, "state", "%s", c.c_str());
  for(size_t i = 0; i < n; ++i) ok(s.IsOccUp(i) == (bool)(d >> i & 1) && s.IsOccDo(i) == (bool)(d >> (64 + i) & 1), "is_occupied", "%s i=%zu", c.c_str(), i);
  std::string str = "|", brs = "<"; str += orc::dstr(d, n) + ">"; brs += orc::dstr(d, n) + "|";
  ok(s.ToStr() == str && s.ToStrBra() == brs, "string", "%s: %s", c.c_str(), s.ToStr().c_str());
  for(int spin = 0; spin < 2; ++spin) for(auto o : spin ? od : ou) for(auto v : spin ? vd : vu) {
    int bo = o + 64 * spin, bv = v + 64 * spin;
    u128 e = d ^ orc::bit(bo) ^ orc::bit(bv);
    double sg = orc::par(d, bo) * orc::par(d ^ orc::bit(bo), bv), got = 0;
    auto x = spin ? s.GetSingExDoSt(v, o, got) : s.GetSingExUpSt(v, o, got);
    ok(x.GetState() == bits(e, n) && got == sg, "single", "%s spin %d %d->%d: sign %g want %g", c.c_str(), spin, (int)o, (int)v, got, sg);
    auto y = s; double g2 = spin ? y.SingleExcDo(v, o) : y.SingleExcUp(v, o);
    ok(y.GetState() == bits(e, n) && g2 == sg, "single_in_place", "%s spin %d %d->%d", c.c_str(), spin, (int)o, (int)v);
    ok(x.CountExc(s) == 2 && x.CountExcUp(s) == (spin ? 0u : 2u) && x.CountExcDo(s) == (spin ? 2u : 0u), "count_single", "%s", c.c_str());
    ok(s.GetFlippedOccIndx(x) == o && x.GetFlippedOccIndx(s) == v, "flipped", "%s spin %d %d->%d", c.c_str(), spin, (int)o, (int)v);
    if(spin) ok(s.GetFlippedOccIndxDo(x) == o && x.GetFlippedOccIndxDo(s) == v, "flipped_do", "%s", c.c_str());
    else ok(s.GetFlippedOccIndxUp(x) == o && x.GetFlippedOccIndxUp(s) == v, "flipped_up", "%s", c.c_str());
  }
  for(int k = 0; k < 10; ++k) {
    u128 e = r.chance(.5) ? orc::excite(r, n, d, r.in(0, 3)) : orc::rand_det(r, n, na, nb);
    auto x = sd(e, n);
    ok((int)x.CountExc(s) == orc::pop(d ^ e) && (int)x.CountExcUp(s) == orc::pop((uint64_t)(d ^ e)) && (int)x.CountExcDo(s) == orc::pop((d ^ e) >> 64), "count", "%s vs |%s>", c.c_str(), orc::dstr(e, n).c_str());
    ok((x < s) == (bits(e, n) < bits(d, n)) && (x == s) == (d == e), "order", "%s", c.c_str());
    uint64_t up = (uint64_t)(d & ~e), dn = (uint64_t)((d & ~e) >> 64);
    if(up) ok((int)s.GetFlippedOccIndxUp(x) == __builtin_ctzll(up) && (int)s.GetFlippedOccIndx(x) == __builtin_ctzll(up), "flipped_first", "%s vs |%s>", c.c_str(), orc::dstr(e, n).c_str());
    if(dn) ok((int)s.GetFlippedOccIndxDo(x) == __builtin_ctzll(dn), "flipped_first_do", "%s vs |%s>", c.c_str(), orc::dstr(e, n).c_str());
  }
}
TEST("X01", "singles_doubles", 120, 4000) {
  size_t n = r.in(1, r.chance(.2) ? 20 : 6), na = rne(r, n, n > 8 ? 3 : n), nb = rne(r, n, n > 8 ? 3 : n);
  u128 d = orc::rand_det(r, n, na, nb);
  auto c = strf("norb=%zu |%s>", n, orc::dstr(d, n).c_str()); note(c); if(want_sample()) sample(c);
  nontrivial(orc::hashd(d) + n);
  auto L = sd(d, n).GetSinglesAndDoubles();
  size_t nva = n - na, nvb = n - nb;
  auto c2 = [](size_t k) { return k * (k - (k > 0)) / 2; };
  size_t want = na * nva + nb * nvb + c2(na) * c2(nva) + c2(nb) * c2(nvb) + na * nva * nb * nvb;
  ok(L.size() == want, "how_many", "%s: %zu want %zu", c.c_str(), L.size(), want);
  covmax("excitations", want);
  for(size_t i = 0; i < L.size(); ++i) {
    u128 e = unbits(L[i].GetState(), n);
    int du = orc::pop((uint64_t)(d ^ e)), dd = orc::pop((d ^ e) >> 64);
    ok(du + dd > 0 && du + dd <= 4 && orc::pop((uint64_t)e) == (int)na && orc::pop(e >> 64) == (int)nb && (n >= 32 || L[i].GetState() < 1ull << (2 * n)), "not_an_excitation", "%s -> |%s>", c.c_str(), orc::dstr(e, n).c_str());
    ok(L[i].GetNorbs() == n && L[i].GetNup() == na && L[i].GetNdo() == nb, "metadata", "%s", c.c_str());
    if(i) ok(L[i - 1] < L[i], "sorted_unique", "%s", c.c_str());
  }
}
TEST("X01", "strings_and_spaces", 120, 3000) {
  size_t n, k;
  switch(r.in(0, 3)) { case 0: n = r.in(0, 10); k = r.in(0, n); break; case 1: n = r.in(11, 64); k = r.in(0, 2); break; case 2: n = r.in(11, 40); k = n - r.in(0, 1); break; default: n = r.in(11, 14); k = r.in(0, n); }
  note(strf("combs %zu %zu", n, k)); nontrivial(n * 100 + k); covmax("string length", n);
  auto L = ce::BuildCombs(n, k);
  double want = 1; for(size_t i = 0; i < k; ++i) want = want * (n - i) / (i + 1);
  std::set<uint64_t> S(L.begin(), L.end());
  ok(S.size() == L.size() && std::llround(want) == (long long)L.size(), "combinations_count", "%zu choose %zu: %zu distinct %zu", n, k, L.size(), S.size());
  for(auto x : L) ok((size_t)__builtin_popcountll(x) == k && (n >= 64 || x >> n == 0), "combination", "%zu choose %zu: %llx", n, k, (unsigned long long)x);
  size_t m = r.in(1, 6), na = r.in(0, m), nb = r.in(0, m), N = r.chance(.5) ? m : r.in(m, 32);
  auto full = orc::full_space(m, na, nb);
  auto F = ce::BuildFullHilbertSpace(m, na, nb); auto G = ce::BuildShiftHilbertSpace(N, m, na, nb);
  std::set<uint64_t> wf, wg, gf, gg;
  for(auto d : full) { wf.insert(bits(d, m)); wg.insert(bits(d, N)); }
  for(auto& d : F) { gf.insert(d.GetState()); ok(d.GetNorbs() == m && d.GetNup() == na && d.GetNdo() == nb, "space_metadata", "m=%zu", m); }
  for(auto& d : G) { gg.insert(d.GetState()); ok(d.GetNorbs() == N && d.GetNup() == na && d.GetNdo() == nb, "space_metadata", "m=%zu N=%zu", m, N); }
  ok(wf == gf, "full_space", "norb=%zu %zu+%zu: %zu want %zu", m, na, nb, gf.size(), wf.size());
  ok(wg == gg, "shifted_space", "norb=%zu eff=%zu %zu+%zu: %zu want %zu", N, m, na, nb, gg.size(), wg.size());
  if(m <= 5) {
    auto v = subset(r, full, 40); auto s = mkset(v, m); auto o = order(s, m);
    std::set<std::pair<size_t, size_t>> w, g;
    for(size_t i = 0; i < o.size(); ++i) for(size_t j = 0; j < o.size(); ++j) if(i != j && orc::pop(o[i] ^ o[j]) <= 4) w.insert({i, j});
    auto P = ce::GetSingDoublPairs(s); for(auto& p : P) g.insert(p);
    ok(w == g && g.size() == P.size(), "pairs", "norb=%zu %zu+%zu, %zu determinants: %zu pairs, %zu distinct, want %zu", m, na, nb, o.size(), P.size(), g.size(), w.size());
  }
}
TEST("X01", "matrix_elements", 200, 8000) {
  size_t n = r.pick({1, 2, 3, 4, 5, 6, 8, 12, 16, 17, 20}); int kind = r.pick({0, 0, 1, 2, 3, 4});
  Ints I = orc::random_ints(r, n, kind); auto ci = mkints(I); ce::FermionHamil H(ci);
  nontrivial(orc::hashi(I)); covmax("orbitals", n); cov(strf("integral kind %d", kind));
  double sc = 1e-12 * (1 + orc::scale(I));
  for(int k = 0; k < 30; ++k) {
    size_t na = rne(r, n, 6), nb = rne(r, n, 6);
    u128 ket = orc::rand_det(r, n, na, nb), bra = r.chance(.1) ? orc::rand_det(r, n, na, nb) : orc::excite(r, n, ket, r.in(0, 3));
    auto c = strf("norb=%zu kind=%d <%s|H|%s>", n, kind, orc::dstr(bra, n).c_str(), orc::dstr(ket, n).c_str()); note(c); if(want_sample()) sample(c);
    nontrivial(orc::hashd(bra) * 5 + orc::hashd(ket)); int d = orc::pop(bra ^ ket) / 2; cov(strf("excitation rank %d", std::min(d, 3)));
    near(H.GetHmatel(sd(bra, n), sd(ket, n)), orc::melem(I, bra, ket), sc * 40 * (1 + na + nb) * (1 + na + nb), strf("element_rank%d", std::min(d, 3)).c_str(), c);
  }
}
TEST("X01", "hamiltonian_matrix", 60, 2500) {
  size_t n = r.in(1, 5), na = r.in(0, n), nb = r.in(0, n); int kind = r.pick({0, 1, 2, 2, 3, 4});
  Ints I = orc::random_ints(r, n, kind);
  if(r.chance(.3)) for(auto& x : I.T) if(r.chance(.7)) x = 0;  // singles that only the two-body part couples
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < p; ++q) I.t(p, q) = I.t(q, p);
  auto ci = mkints(I); ce::FermionHamil H(ci);
  auto s = mkset(subset(r, orc::full_space(n, na, nb), 45), n); auto o = order(s, n); size_t m = o.size();
  auto c = strf("norb=%zu %zu+%zu kind=%d, %zu determinants", n, na, nb, kind, m); note(c); if(want_sample()) sample(c);
  nontrivial(orc::hashi(I) + m); covmax("determinants", m);
  auto D = orc::dense_h(I, o); double tol = 1e-9 + 1e-11 * (1 + orc::scale(I));
  Quiet q;
  auto check = [&](const ce::SpMatD& A, const char* key) {
    if(!ok((size_t)A.rows() == m && (size_t)A.cols() == m, key, "%s: shape", c.c_str())) return;
    Eigen::MatrixXd X(A);
    for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) near(X(i, j), D[i + m * j], tol, key, strf("%s (%zu,%zu) <%s|H|%s>", c.c_str(), i, j, orc::dstr(o[i], n).c_str(), orc::dstr(o[j], n).c_str()));
  };
  check(ce::GetHmat(&H, s, r.chance(.2)), "matrix");
  auto P = H.GetHpairs_dloop(s), Q = H.GetHpairs(s);
  std::set<std::pair<size_t, size_t>> sp(P.begin(), P.end()), sq(Q.begin(), Q.end()), w;
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) if(i != j && orc::pop(o[i] ^ o[j]) <= 4) w.insert({i, j});
  ok(sp.size() == P.size() && sp == w, "double_loop_pairs", "%s: %zu pairs, %zu distinct, %zu within two excitations", c.c_str(), P.size(), sp.size(), w.size());
  ok(sq.size() == Q.size(), "pairs_distinct", "%s", c.c_str());
  for(auto& p : sq) ok(w.count(p), "pair_connected", "%s (%zu,%zu)", c.c_str(), p.first, p.second);
  for(auto& p : w) if(std::abs(D[p.first + m * p.second]) > 1e-6) ok(sq.count(p), "pair_missing", "%s: <%s|H|%s>=%g is not listed", c.c_str(), orc::dstr(o[p.first], n).c_str(), orc::dstr(o[p.second], n).c_str(), D[p.first + m * p.second]);
  check(ce::GetHmat_FromPairs(&H, s, Q), "matrix_from_pairs");
  std::vector<std::pair<size_t, size_t>> half; for(auto& p : P) if(r.chance(.5)) half.push_back(p);
  Eigen::MatrixXd X(ce::GetHmat_FromPairs(&H, s, half)); std::set<std::pair<size_t, size_t>> hs(half.begin(), half.end());
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) near(X(i, j), i == j || hs.count({i, j}) ? D[i + m * j] : 0., tol, "matrix_from_given_pairs", c);
}

// =========================================================== X02
TEST("X02", "integral_table", 60, 2000) {
  size_t n = r.in(1, 6); Ints I = orc::random_ints(r, n, r.pick({0, 1, 4}));
  auto c = strf("norb=%zu", n); note(c); nontrivial(orc::hashi(I)); if(want_sample()) sample(c);
  auto ci = mkints(I);
  auto so = [&](size_t p, int s) { return (int64_t)(p + (s ? n : 0)); };
  for(int k = 0; k < 200; ++k) {
    size_t p = r.in(0, n - 1), q = r.in(0, n - 1), x = r.in(0, n - 1), y = r.in(0, n - 1); int s1 = r.in(0, 1), s2 = r.in(0, 1), s3 = r.chance(.7) ? s1 : r.in(0, 1), s4 = r.chance(.7) ? s2 : r.in(0, 1);
    auto cc = strf("norb=%zu %zu%zu%zu%zu spins %d%d%d%d", n, p, q, x, y, s1, s2, s3, s4);
    near(ci.get(so(p, s1), so(q, s3)), s1 == s3 ? I.t(p, q) : 0., 0, "one_body", cc);
    double w = s1 == s3 && s2 == s4 ? I.v(p, q, x, y) : 0.;
    near(ci.getChem(so(p, s1), so(q, s3), so(x, s2), so(y, s4)), w, 0, "chemist", cc);
    near(ci.getPhys(so(p, s1), so(x, s2), so(q, s3), so(y, s4)), w, 0, "physicist", cc);
    near(ci.map_get(so(p, s1), so(q, s1)), I.t(p, q), 0, "stored_one_body", cc);
    near(ci.map_get(so(p, s1), so(x, s2), so(q, s1), so(y, s2)), I.v(p, q, x, y), 0, "stored_two_body", cc);
    ok(ci.isup(so(p, s1)) == !s1 && ci.isdo(so(p, s1)) == (bool)s1 && ci.same_spin(so(p, s1), so(q, s2)) == (s1 == s2), "spin", "%s", cc.c_str());
  }
  {
    auto d = ci; size_t p = r.in(0, n - 1), q = r.in(0, n - 1), x = r.in(0, n - 1), y = r.in(0, n - 1);
    d.update(p, q, 7.); d.update(p, x, q, y, 9.); d.update(p, (int64_t)(q + n), -1.); d.update(p, x, (int64_t)(q + n), y, -1.);
    auto T = I.T, V = I.V; T[p + n * q] = 7.; V[p + n * (q + n * (x + n * y))] = 9.;
    ok(d.t == T && d.u == V, "update", "%s", c.c_str());
    d.updateInts(I.T, I.V); ok(d.t == I.T && d.u == I.V, "replace", "%s", c.c_str());
    std::vector<double> bad(n * n + 1); ok(vh::throws([&] { d.updateInts(bad, I.V); }) && vh::throws([&] { ce::intgrls::integrals e((int64_t)n, bad, I.V); }), "bad_size_accepted", "%s", c.c_str());
  }
  int64_t a = r.in(0, n), b = r.in(0, n - a);
  auto d = ci; d.UpdateActiveSpace(a, b, n - a - b);
  std::vector<int> L; for(auto v : {d.iorbs, d.aorbs, d.sorbs}) L.insert(L.end(), v.begin(), v.end());
  bool good = (int64_t)d.iorbs.size() == a && (int64_t)d.aorbs.size() == b && L.size() == n; for(size_t i = 0; i < L.size(); ++i) good = good && L[i] == (int)i;
  ok(good, "orbital_lists", "%s %ld %ld", c.c_str(), (long)a, (long)b);
  ok(vh::throws([&] { auto e = ci; e.UpdateActiveSpace(a, b, n - a - b + 1); }), "bad_partition_accepted", "%s", c.c_str());
  // rotations by any matrix
  Eigen::MatrixXd V(n, n); std::vector<double> Vv(n * n); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) Vv[i + n * j] = V(i, j) = r.chance(.2) ? 0. : r.gauss();
  double tol = 1e-11 * (1 + orc::scale(I)) * std::pow(n, 4) * std::pow(3., 4);
  auto rot1 = [&](const std::vector<double>& A) { std::vector<double> R(n * n, 0.); for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) R[p + n * q] += Vv[i + n * p] * A[i + n * j] * Vv[j + n * q]; return R; };
  auto rot2 = [&](std::vector<double> A) {
    for(int ax = 0; ax < 4; ++ax) {
      size_t st = 1; for(int k = 0; k < ax; ++k) st *= n;
      std::vector<double> R(A.size(), 0.);
      for(size_t x = 0; x < A.size(); ++x) { size_t j = x / st % n, base = x - j * st; for(size_t i = 0; i < n; ++i) R[x] += Vv[i + n * j] * A[base + i * st]; }
      A = R;
    }
    return A;
  };
  auto R1 = rot1(I.T), R2 = rot2(I.V);
  auto e = ci; e.rotate_orbitals(V);
  for(size_t i = 0; i < R1.size(); ++i) near(e.t[i], R1[i], tol, "rotated_one_body", c);
  for(size_t i = 0; i < R2.size(); ++i) near(e.u[i], R2[i], tol, "rotated_two_body", c);
  e.updateStoredInts(); for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) near(e.map_get(p, q), R1[p + n * q], tol, "restored", c);
  auto f1 = d.rotate1AS(V, I.T); auto f2 = d.rotate2AS(V, I.V);
  for(size_t i = 0; i < R1.size(); ++i) near(f1[i], R1[i], tol, "rotate1AS", c);
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < (size_t)(a + b); ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < (size_t)(a + b); ++y)
    near(f2[p + n * (q + n * (x + n * y))], R2[p + n * (q + n * (x + n * y))], tol, "rotate2AS", c);
}
static void writef(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
TEST("X02", "fcidump", 60, 2500) {
  size_t n = r.in(1, 6); Ints I = orc::random_ints(r, n, r.pick({0, 1, 2, 3, 4})); double core = r.chance(.2) ? 0. : r.gauss() * 10;
  bool diag = r.chance(.3);
  if(diag) for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) if(p != q && x != y) I.v(p, q, x, y) = 0;
  bool js = true; for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) if(p != q && x != y && std::abs(I.v(p, q, x, y)) > 1e-16) js = false;
  int style = r.in(0, 2);  // 0: unique eight-fold entries in any orientation, 1: every index combination, 2: unique, canonical
  auto c = strf("norb=%zu style %d core %g just_singles %d", n, style, core, js); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I)); cov(strf("file style %d", style));
  std::string f = vh::st().tmpdir + strf("/x02.%d.%d.dump", (int)getpid(), vh::st().rank);
  std::vector<std::string> L;
  auto num = [&](double x) { return strf(r.chance(.5) ? "%24.17e" : "%.17g", x); };
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) {
    if(style == 1 || q <= p) {
      size_t a = p, b = q; if(style == 0 && r.chance(.5)) std::swap(a, b);
      if(I.t(p, q) != 0 || r.chance(.3)) L.push_back(strf("%zu %zu 0 0 ", a + 1, b + 1) + num(I.t(p, q)));
    }
    for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) {
      if(style != 1 && !(q <= p && y <= x && (x < p || (x == p && y <= q)))) continue;
      size_t a = p, b = q, d = x, e = y;
      if(style == 0) { if(r.chance(.5)) std::swap(a, b); if(r.chance(.5)) std::swap(d, e); if(r.chance(.5)) { std::swap(a, d); std::swap(b, e); } }
      if(I.v(p, q, x, y) != 0 || r.chance(.3)) L.push_back(strf("  %zu   %zu %zu\t%zu ", a + 1, b + 1, d + 1, e + 1) + num(I.v(p, q, x, y)));
    }
  }
  if(core != 0 || r.chance(.5)) L.push_back("0 0 0 0 " + num(core));
  if(r.chance(.3)) for(size_t p = 0; p < n; ++p) L.push_back(strf("%zu 0 0 0 ", p + 1) + num(r.gauss()));
  if(r.chance(.7)) r.shuffle(L);
  std::string txt; for(auto& l : L) txt += l + "\n";
  writef(f, txt);
  Quiet qt; bool gjs = false;
  auto compare = [&](const ce::intgrls::integrals& g, const char* w, double rel) {
    near(g.get_core_energy(), core, rel * std::abs(core), strf("%s_core", w).c_str(), c);
    for(size_t i = 0; i < I.T.size(); ++i) near(g.t[i], I.T[i], rel * std::abs(I.T[i]) + (rel > 0 ? 1e-10 : 1e-16), strf("%s_one_body", w).c_str(), c);
    for(size_t i = 0; i < I.V.size(); ++i) near(g.u[i], I.V[i], rel * std::abs(I.V[i]) + (rel > 0 ? 1e-10 : 1e-16), strf("%s_two_body", w).c_str(), strf("%s element %zu", c.c_str(), i));
  };
  if(trymake("read", [&] { ce::intgrls::integrals g((int64_t)n, f, gjs, true); compare(g, "read", 0); ok(gjs == js, "just_singles", "%s", c.c_str()); })) {
    // written by the library, then read back; also after building from arrays and rotating nothing
    ce::intgrls::integrals g = mkints(I); g.core_energy = core;
    std::string f2 = f + "w"; g.write_FCIdump(f2);
    trymake("reread", [&] { ce::intgrls::integrals h((int64_t)n, f2); compare(h, "reread", 1e-11); });
    ::unlink(f2.c_str());
  }
  // reports, never guesses
  ok(vh::throws([&] { ce::intgrls::integrals g((int64_t)n, f + ".absent"); }), "missing_file_accepted", "%s", c.c_str());
  std::string bad; switch(r.in(0, 4)) { case 0: bad = "0 1 1 1 0.5"; break; case 1: bad = "1 1 0 1 0.5"; break; case 2: bad = "1 1 1 0 0.5"; break; case 3: bad = "1 0 1 1 0.5"; break; default: bad = "1 1 x 1 0.5"; }
  writef(f, txt + bad + "\n");
  ok(vh::throws([&] { ce::intgrls::integrals g((int64_t)n, f); }), "bad_entry_accepted", "%s: %s", c.c_str(), bad.c_str());
  ::unlink(f.c_str());
}
TEST("X02", "density_matrices", 80, 3000) {
  size_t n = r.in(1, 5), na = r.in(0, n), nb = r.in(0, n); Ints I = orc::random_ints(r, n, r.pick({0, 1, 3}));
  auto s = mkset(subset(r, orc::full_space(n, na, nb), 60), n); auto o = order(s, n); size_t m = o.size();
  Eigen::VectorXd v(m); bool wide = r.chance(.4); if(wide) cov("amplitudes over many decades");
  for(size_t i = 0; i < m; ++i) v(i) = r.chance(.2) ? 0. : r.gauss() * (wide ? std::pow(10., -r.in(0, 10)) : 1.); if(v.norm() == 0) v(0) = 1; v /= v.norm();
  auto c = strf("norb=%zu %zu+%zu, %zu determinants", n, na, nb, m); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I) + m); covmax("determinants", m);
  std::vector<double> D1(n * n, 0.), D2(n * n * n * n, 0.);
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(n, o[i], o[j], v(i) * v(j), D1, &D2);
  ce::rdm::rdms g(n, v, s);
  for(size_t i = 0; i < D1.size(); ++i) near(g.rdm1[i], D1[i], wide ? 5e-14 : 1e-13, "one_body", c);
  for(size_t i = 0; i < D2.size(); ++i) near(g.rdm2[i], D2[i], wide ? 5e-14 : 1e-13, "two_body", strf("%s element %zu", c.c_str(), i));
  double E = 0; for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) E += v(i) * v(j) * orc::melem(I, o[i], o[j]);
  auto ci = mkints(I);
  near(ce::MyInnProd(ci.t, g.rdm1) + ce::MyInnProd(ci.u, g.rdm2), E, 1e-10 * (1 + orc::scale(I)) * 30, "energy", c);
  auto so = [&](size_t p, int sp) { return (int64_t)(p + (sp ? n : 0)); };
  for(int k = 0; k < 30; ++k) {
    size_t p = r.in(0, n - 1), q = r.in(0, n - 1), x = r.in(0, n - 1), y = r.in(0, n - 1); int s1 = r.in(0, 1), s2 = r.in(0, 1), s3 = r.in(0, 1), s4 = r.in(0, 1);
    near(g.get(so(p, s1), so(q, s2)), s1 == s2 ? g.rdm1[p + n * q] : 0., 0, "get", c);
    double w = s1 == s2 && s3 == s4 ? g.rdm2[p + n * (q + n * (x + n * y))] : 0.;
    near(g.getChem(so(p, s1), so(q, s2), so(x, s3), so(y, s4)), w, 0, "get_chem", c); near(g.getPhys(so(p, s1), so(x, s3), so(q, s2), so(y, s4)), w, 0, "get_phys", c);
  }
  { // setting single elements, in spin-orbital indices
    auto u = g; auto w1 = g.rdm1; auto w2 = g.rdm2;
    for(int k = 0; k < 12; ++k) {
      size_t p = r.in(0, n - 1), q = r.in(0, n - 1), x = r.in(0, n - 1), y = r.in(0, n - 1); int s1 = r.in(0, 1), s2 = r.in(0, 1), s3 = r.in(0, 1), s4 = r.in(0, 1); double z = r.gauss();
      u.update(so(p, s1), so(q, s2), z); if(s1 == s2) w1[p + n * q] = z;
      u.update(so(p, s1), so(x, s3), so(q, s2), so(y, s4), z); if(s1 == s2 && s3 == s4) w2[g.indexer(p, x, q, y)] = z;
    }
    ok(u.rdm1 == w1 && u.rdm2 == w2, "update", "%s", c.c_str());
  }
  // rotating integrals and densities by the same orthogonal matrix leaves the energy alone
  Eigen::MatrixXd K(n, n); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) K(i, j) = r.gauss();
  Eigen::MatrixXd U = Eigen::HouseholderQR<Eigen::MatrixXd>(K).householderQ();
  auto cr = ci; auto gr = g; cr.rotate_orbitals(U); gr.rotate_orbitals(U);
  near(ce::MyInnProd(cr.t, gr.rdm1) + ce::MyInnProd(cr.u, gr.rdm2), E, 1e-10 * (1 + orc::scale(I)) * 100, "energy_rotated", c);
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) { double w = 0; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) w += U(i, p) * D1[i + n * j] * U(j, q); near(gr.rdm1[p + n * q], w, 1e-11, "rotated_one_body", c); }
  // active-space extraction and embedding (densities without the factor 1/2)
  size_t ni = r.in(0, 3), nv = r.in(0, 2), N = ni + n + nv; if(N <= 6) {
    Ints J = orc::random_ints(r, N, 0); auto cj = mkints(J); cj.UpdateActiveSpace(ni, n, nv);
    std::vector<double> a1 = D1, a2 = D2; for(auto& x : a2) x *= 2;
    std::vector<double> w1(N * N, 0.), w2(N * N * N * N, 0.); u128 core = 0; for(size_t i = 0; i < ni; ++i) core |= orc::bit(i) | orc::bit(64 + i);
    auto sh = [&](u128 d) { return core | (u128)((uint64_t)d << ni) | (u128)((uint64_t)(d >> 64) << ni) << 64; };
    for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(N, sh(o[i]), sh(o[j]), v(i) * v(j), w1, &w2);
    ce::rdm::rdms big(N); for(auto& x : big.rdm1) x = r.gauss(); for(auto& x : big.rdm2) x = r.gauss();
    big.UpdateFromAS(cj, a1, a2);
    for(size_t i = 0; i < w1.size(); ++i) near(big.rdm1[i], w1[i], 1e-11, "embedded_one_body", c);
    for(size_t i = 0; i < w2.size(); ++i) near(big.rdm2[i], 2 * w2[i], 1e-11, "embedded_two_body", strf("%s inactive %zu virtual %zu element %zu", c.c_str(), ni, nv, i));
    auto as = big.GetASrdms(cj); ok(as.rdm1 == a1 && as.rdm2 == a2 && as.norbitals == (int64_t)n, "active_block", "%s", c.c_str());
    cov("embedded densities"); if(ni) cov("embedded densities with inactive orbitals");
  }
  // binary file: 32-bit orbital count, one-body, two-body
  std::string f = vh::st().tmpdir + strf("/x02.%d.%d.rdm", (int)getpid(), vh::st().rank);
  { std::ofstream b(f, std::ios::binary); int k = n; b.write((char*)&k, 4); b.write((char*)D1.data(), 8 * D1.size()); b.write((char*)D2.data(), 8 * D2.size()); }
  Quiet qt;
  { char junk[4096]; memset(junk, r.in(1, 255), sizeof junk); asm volatile("" : : "r"(junk) : "memory"); }
  trymake("read", [&] { ce::rdm::rdms h(n, f); ok(h.rdm1 == D1 && h.rdm2 == D2, "file", "%s", c.c_str()); });
  ok(vh::throws([&] { ce::rdm::rdms h(n + 1, f); }) && vh::throws([&] { ce::rdm::rdms h(n, f + ".absent"); }), "wrong_file_accepted", "%s", c.c_str());
  ::unlink(f.c_str());
}

// =========================================================== X03
static Eigen::MatrixXd rsym(Rng& r, size_t n, int kind) {
  Eigen::MatrixXd A(n, n);
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) {
    double x = kind == 1 ? r.in(-2, 2) : kind == 2 ? (r.chance(.7) ? 0. : r.gauss()) : kind == 3 ? (i == j ? 3. * i + r.gauss() : .3 * r.gauss()) : r.gauss();
    A(i, j) = A(j, i) = x;
  }
  return A;
}
static std::vector<double> raw(const Eigen::MatrixXd& A) { return std::vector<double>(A.data(), A.data() + A.size()); }
static ce::SpMatD sparse(const Eigen::MatrixXd& A) { return A.sparseView(); }
typedef sparsexx::csr_matrix<double, int32_t> csr;
static csr tocsr(const Eigen::MatrixXd& A) {
  int n = A.rows(); std::vector<int32_t> rp{0}, ci; std::vector<double> v;
  for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(A(i, j) != 0) { ci.push_back(j); v.push_back(A(i, j)); } rp.push_back(ci.size()); }
  return csr(n, n, std::move(rp), std::move(ci), std::move(v));
}
TEST("X03", "dense_eigensolvers", 150, 6000) {
  size_t n = r.chance(.15) ? 1 : r.in(1, 20); int kind = r.in(0, 3); auto A = rsym(r, n, kind);
  auto c = strf("n=%zu kind=%d", n, kind); note(c); if(want_sample()) sample(c); nontrivial(vh::fnv(A.data(), 8 * A.size())); covmax("dimension", n);
  double sc = 1e-11 * (1 + A.norm()) * n;
  auto W = orc::jacobi(n, raw(A));
  Eigen::VectorXd w; Eigen::MatrixXd Z;
  ce::Hsyev(A, w, Z);
  for(size_t i = 0; i < n; ++i) { near(w(i), W[n - 1 - i], sc, "hsyev_value", c); ok((A * Z.col(i) - w(i) * Z.col(i)).norm() < sc, "hsyev_vector", "%s pair %zu", c.c_str(), i); }
  ok((Z.transpose() * Z - Eigen::MatrixXd::Identity(n, n)).norm() < 1e-10 * n, "hsyev_orthonormal", "%s", c.c_str());
  // tridiagonal
  std::vector<double> al(n), be(n + 1); for(auto& x : al) x = r.gauss(); for(auto& x : be) x = r.chance(.1) ? 0. : r.gauss();
  Eigen::MatrixXd T = Eigen::MatrixXd::Zero(n, n); for(size_t i = 0; i < n; ++i) { T(i, i) = al[i]; if(i) T(i, i - 1) = T(i - 1, i) = be[i]; }
  ce::Hste_v(al, be, w, Z); auto WT = orc::jacobi(n, raw(T));
  for(size_t i = 0; i < n; ++i) { near(w(i), WT[i], 1e-11 * n * (1 + T.norm()), "tridiagonal_value", c); ok((T * Z.col(i) - w(i) * Z.col(i)).norm() < 1e-11 * n * (1 + T.norm()), "tridiagonal_vector", "%s pair %zu", c.c_str(), i); }
  ok((Z.transpose() * Z - Eigen::MatrixXd::Identity(n, n)).norm() < 1e-10 * n, "tridiagonal_orthonormal", "%s", c.c_str());
  // full and band matrices from nested vectors; eigenvectors come back as rows
  Quiet q;
  for(int band = 0; band < 2; ++band) {
    size_t kd = band ? r.in(0, n - 1) : n; Eigen::MatrixXd B = A; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if((i > j ? i - j : j - i) > kd) B(i, j) = 0;
    std::vector<std::vector<double>> M(n, std::vector<double>(n)), X; std::vector<double> e; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) M[i][j] = B(i, j);
    auto WB = orc::jacobi(n, raw(B));
    bool good = band ? ce::GetEigsysBand(M, kd, e, X) : ce::GetEigsys(M, e, X);
    if(!ok(good && e.size() == n && X.size() == n, "eigsys_failed", "%s band %zu", c.c_str(), kd)) continue;
    for(size_t i = 0; i < n; ++i) {
      near(e[i], WB[i], sc, band ? "band_value" : "full_value", c);
      Eigen::VectorXd x = Eigen::Map<Eigen::VectorXd>(X[i].data(), n); near(x.norm(), 1, 1e-10, "eigsys_normalised", c);
      ok((B * x - e[i] * x).norm() < sc, band ? "band_vector" : "full_vector", "%s band %zu pair %zu", c.c_str(), kd, i);
    }
  }
  // QR, both layouts
  size_t k = r.in(1, n); Eigen::MatrixXd C(n, k); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < k; ++j) C(i, j) = r.gauss();
  for(int tr = 0; tr < 2; ++tr) {
    std::vector<std::vector<double>> Q(tr ? k : n, std::vector<double>(tr ? n : k)), R; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < k; ++j) (tr ? Q[j][i] : Q[i][j]) = C(i, j);
    bool good = tr ? ce::QRdecomp_tr(Q, R) : ce::QRdecomp(Q, R);
    if(!ok(good && R.size() == k, "qr_failed", "%s", c.c_str())) continue;
    Eigen::MatrixXd q2(n, k), r2(k, k); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < k; ++j) q2(i, j) = tr ? Q[j][i] : Q[i][j]; for(size_t i = 0; i < k; ++i) for(size_t j = 0; j < k; ++j) { r2(i, j) = R[i][j]; if(j < i) ok(R[i][j] == 0, "qr_not_triangular", "%s", c.c_str()); }
    ok((q2 * r2 - C).norm() < 1e-12 * n * (1 + C.norm()), tr ? "qr_tr" : "qr", "%s k=%zu", c.c_str(), k);
    ok((q2.transpose() * q2 - Eigen::MatrixXd::Identity(k, k)).norm() < 1e-12 * n, "qr_orthonormal", "%s k=%zu", c.c_str(), k);
  }
  auto X = ce::GetMatExp(A * .3); Eigen::MatrixXd S = Eigen::MatrixXd::Identity(n, n), Y = A * .3 / 1024., P = S; for(int i = 1; i < 14; ++i) { P = P * Y / i; S += P; } for(int i = 0; i < 10; ++i) S = (S * S).eval();
  ok((X - S).norm() <= 1e-9 * (1 + S.norm()), "exponential", "%s: %g", c.c_str(), (X - S).norm());
}
struct RawOp { const Eigen::MatrixXd* A; Eigen::VectorXd dot(const Eigen::VectorXd& v) const { return (*A) * v; } int64_t rows() const { return A->rows(); } };
TEST("X03", "lanczos", 80, 4000) {
  size_t n = r.chance(.15) ? r.in(1, 2) : r.in(3, 60); int kind = r.in(0, 3); auto A = rsym(r, n, kind);
  auto c = strf("n=%zu kind=%d", n, kind); note(c); if(want_sample()) sample(c); nontrivial(vh::fnv(A.data(), 8 * A.size())); covmax("dimension", n);
  Quiet q;
  Eigen::VectorXd v(n); for(size_t i = 0; i < n; ++i) v(i) = r.gauss(); v *= r.uni(.1, 5.);
  // three-term recurrence against Gram-Schmidt of the Krylov sequence
  size_t k = r.in(1, std::min<size_t>(n, 8));
  {
    std::vector<double> al, be; ce::MyLanczos(v, ce::eigMatDOp(A), k, al, be, 1e-10);
    ok(al.size() == k && be.size() == k + 1, "lanczos_size", "%s", c.c_str());
    near(be[0], v.norm(), 1e-12 * v.norm(), "lanczos_norm", c);
    std::vector<Eigen::VectorXd> Q{v / v.norm()}; double gr = 1;
    for(size_t i = 0; i < k; ++i) {
      Eigen::VectorXd x = A * Q[i]; double a = Q[i].dot(x); double t = 1e-11 * (1 + A.norm()) * n * gr;
      near(al[i], a, t, "lanczos_alpha", strf("%s step %zu", c.c_str(), i));
      for(int rep = 0; rep < 2; ++rep) for(auto& y : Q) x -= y.dot(x) * y;
      near(be[i + 1], x.norm(), t, "lanczos_beta", strf("%s step %zu", c.c_str(), i));
      if(x.norm() <= 1e-3 * A.norm()) break;
      gr *= 3; Q.push_back(x / x.norm());
    }
  }
  // lowest state; the ones vector starts the search, so it must overlap the answer
  std::vector<double> Z; auto W = orc::jacobi(n, raw(A), &Z);
  Eigen::VectorXd start = r.chance(.5) ? Eigen::VectorXd(Eigen::VectorXd::Ones(n)) : v; int mode = r.in(0, 3); if(mode == 3) start = Eigen::VectorXd::Ones(n);
  auto ovl = [&](size_t i) { double s = 0; for(size_t j = 0; j < n; ++j) s += Z[j + n * i] * start(j); return std::abs(s) / start.norm(); };
  double spread = 1 + W[n - 1] - W[0]; size_t lo = 0; while(lo < n && ovl(lo) < 1e-7) ++lo;
  bool clear = lo < n; if(clear) { double o = 0; size_t nx = lo; for(; nx < n && W[nx] - W[lo] < 1e-8 * spread; ++nx) o += ovl(nx) * ovl(nx); if(std::sqrt(o) < .02) clear = false; while(nx < n && ovl(nx) < 1e-7) ++nx; if(nx < n && W[nx] - W[lo] < 2e-3 * spread) clear = false; }
  ce::Input_t in; bool tight = r.chance(.5); if(tight) { in["E0tol"] = "1e-11"; in["Lantol"] = "1E-10"; } if(r.chance(.2)) in["print"] = "T";
  double E = 0; Eigen::VectorXd psi;
  bool done = trymake("lanczos", [&] {
    auto sp = sparse(A); sparsexx::dist_sparse_matrix<csr> dm(MPI_COMM_SELF, tocsr(A));
    auto run = [&](const auto& op) {
      if(mode == 3) { bool hf = false; ce::GetGS(op, E, psi, in, hf); }
      else if(mode == 2) ce::GetGSEnVec_Lanczos(start, op, E, psi, in);
      else { Eigen::VectorXd y; int64_t its = ce::GetGSEn_Lanczos(start, op, E, y, in); ok(its == (int64_t)y.size() && its >= 1, "iterations", "%s: %ld vs %ld", c.c_str(), (long)its, (long)y.size()); ce::MyLanczos_BackProj(start, op, its, y, psi); }
    };
    switch(r.in(0, 3)) { case 0: run(ce::eigMatDOp(A)); break; case 1: run(ce::SpMatDOp(sp)); break; case 2: run(ce::SparsexDistSpMatOp(dm)); break; default: run(RawOp{&A}); }
  });
  if(!done) return;
  ok((size_t)psi.size() == n, "vector_size", "%s mode %d", c.c_str(), mode);
  near(psi.norm(), 1, 1e-5, "vector_norm", strf("%s mode %d", c.c_str(), mode));
  double rq = psi.dot(A * psi) / psi.squaredNorm();
  ok(E >= W[0] - 1e-9 * spread, "below_spectrum", "%s mode %d: %.12g lowest %.12g", c.c_str(), mode, E, W[0]);
  near(rq, E, 1e-6 * spread, "vector_energy", strf("%s mode %d", c.c_str(), mode));
  if(clear) {
    cov("lowest state decided");
    near(E, W[lo], (tight ? 1e-7 : 1e-5) * spread, "lowest_energy", strf("%s mode %d", c.c_str(), mode));
    ok((A * psi - E * psi).norm() < (tight ? 3e-3 : 3e-2) * spread, "residual", "%s mode %d: %g", c.c_str(), mode, (A * psi - E * psi).norm());
  }
}
TEST("X03", "resolvent", 60, 2500) {
  size_t n = r.in(1, 24), p = r.in(1, std::min<size_t>(n, 4)); int kind = r.in(0, 3); auto A = rsym(r, n, kind);
  size_t k = r.chance(.3) ? n : r.in(p, n); bool part = r.chance(.5); double E0 = r.gauss();
  std::vector<std::vector<double>> V(p, std::vector<double>(n)); Eigen::MatrixXd C(n, p); for(size_t j = 0; j < p; ++j) for(size_t i = 0; i < n; ++i) C(i, j) = V[j][i] = r.gauss();
  if(r.chance(.3)) { std::vector<int> ix(n); for(size_t i = 0; i < n; ++i) ix[i] = i; r.shuffle(ix); C.setZero(); for(size_t j = 0; j < p; ++j) { std::fill(V[j].begin(), V[j].end(), 0.); C(ix[j], j) = V[j][ix[j]] = 1; } }
  auto c = strf("n=%zu kind=%d vectors=%zu steps=%zu part=%d", n, kind, p, k, part); note(c); if(want_sample()) sample(c); nontrivial(vh::fnv(A.data(), 8 * A.size()) + p * 100 + k); covmax("dimension", n); cov(strf("%zu vectors", p));
  // independent block Krylov projection
  Eigen::MatrixXd Q(n, 0), Y = C; size_t next = 0; double weakest = 1e300;
  auto add = [&](Eigen::VectorXd x) { double s = x.norm(); for(int rep = 0; rep < 3; ++rep) for(int j = 0; j < Q.cols(); ++j) x -= Q.col(j).dot(x) * Q.col(j); weakest = std::min(weakest, x.norm() / (s + 1e-300)); Q.conservativeResize(n, Q.cols() + 1); Q.col(Q.cols() - 1) = x / x.norm(); };
  for(size_t j = 0; j < p; ++j) add(C.col(j));
  while((size_t)Q.cols() < k && weakest > 3e-3) add(A * Q.col(next++));
  if(weakest <= 3e-3) { cov("near-deflated Krylov space skipped"); return; }
  Eigen::MatrixXd T = Q.transpose() * A * Q, R = Q.transpose() * C;
  std::vector<std::complex<double>> ws; for(int i = 0; i < 6; ++i) ws.push_back({r.gauss() * 3, r.uni(.2, 2.) * (r.chance(.3) ? -1 : 1)});
  std::vector<std::vector<std::vector<std::complex<double>>>> res;
  Quiet q; sparsexx::dist_sparse_matrix<csr> dm(MPI_COMM_SELF, tocsr(A));
  ce::BandResolvent(dm, V, ws, res, k, E0, part);
  if(!ok(res.size() == ws.size(), "resolvent_size", "%s", c.c_str())) return;
  for(size_t w = 0; w < ws.size(); ++w) {
    Eigen::MatrixXcd M = (part ? -1. : 1.) * T.cast<std::complex<double>>(); for(size_t i = 0; i < k; ++i) M(i, i) += ws[w] + (part ? E0 : -E0);
    Eigen::MatrixXcd G = R.transpose().cast<std::complex<double>>() * M.partialPivLu().solve(R.cast<std::complex<double>>().eval());
    for(size_t i = 0; i < p; ++i) for(size_t j = 0; j < p; ++j) {
      ok(std::abs(res[w][i][j] - G(i, j)) < 1e-6 * (1 + C.squaredNorm()) / std::abs(ws[w].imag()), "resolvent", "%s w=(%g,%g) (%zu,%zu): (%g,%g) want (%g,%g)", c.c_str(), ws[w].real(), ws[w].imag(), i, j, res[w][i][j].real(), res[w][i][j].imag(), G(i, j).real(), G(i, j).imag());
    }
  }
  if(k == n) cov("complete Krylov space");
}
TEST("X03", "full_calculation", 40, 1500) {
  size_t n = r.in(1, 4), na = r.in(0, n), nb = r.in(0, n); int kind = r.pick({0, 3, 3, 2}); Ints I = orc::random_ints(r, n, kind); double core = r.gauss();
  auto c = strf("norb=%zu %zu+%zu kind=%d", n, na, nb, kind); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I) + na * 7 + nb);
  auto ci = mkints(I); ci.core_energy = core;
  auto o = order(mkset(orc::full_space(n, na, nb), n), n); size_t m = o.size(); covmax("determinants", m);
  auto D = orc::dense_h(I, o); std::vector<double> Z; auto W = orc::jacobi(m, D, &Z);
  ce::Input_t in{{"norbs", strf("%zu", n)}, {"nups", strf("%zu", na)}, {"ndos", strf("%zu", nb)}}; if(r.chance(.3)) in["print"] = r.chance(.5) ? "T" : "F"; if(r.chance(.4)) in["E0tol"] = "1E-11";
  double E = 0, spread = 1 + W[m - 1] - W[0]; std::vector<double> d1, d2; Quiet q;
  if(!trymake("run", [&] { ce::RunED(in, ci, E, d1, d2); })) return;
  double best = 1e300; bool clear = true; double prev = -1e300;
  auto ovl = [&](size_t i) { double s = 0; for(size_t j = 0; j < m; ++j) s += Z[j + m * i]; return std::abs(s) / std::sqrt((double)m); };
  size_t lo = 0; while(lo < m && ovl(lo) < 1e-7) ++lo;
  { double s = 0; size_t nx = lo; for(; nx < m && W[nx] - W[lo] < 1e-8 * spread; ++nx) s += ovl(nx) * ovl(nx); if(std::sqrt(s) < .02) clear = false; while(nx < m && ovl(nx) < 1e-7) ++nx; if(nx < m && W[nx] - W[lo] < 2e-3 * spread) clear = false; }
  (void)best; (void)prev;
  ok(E >= W[0] + core - 1e-8 * spread, "below_full_ci", "%s: %.12g lowest %.12g", c.c_str(), E, W[0] + core);
  if(clear) { cov("lowest state decided"); near(E, W[lo] + core, 1e-5 * spread, "energy", c); }
  if(!ok(d1.size() == n * n && d2.size() == n * n * n * n, "density_size", "%s", c.c_str())) return;
  double Ed = core; for(size_t i = 0; i < d1.size(); ++i) Ed += d1[i] * I.T[i]; for(size_t i = 0; i < d2.size(); ++i) Ed += d2[i] * I.V[i];
  near(Ed, E, 1e-5 * spread, "density_energy", c);
  double tr = 0, t2 = 0; for(size_t p = 0; p < n; ++p) { tr += d1[p + n * p]; for(size_t x = 0; x < n; ++x) t2 += d2[p + n * (p + n * (x + n * x))]; }
  double ne = na + nb; near(tr, ne, 1e-5 * (1 + ne), "trace", c); near(t2, .5 * ne * (ne - 1), 1e-5 * (1 + ne * ne), "trace2", c);
}
TEST("X03", "utilities", 60, 2500) {
  size_t n = r.in(0, 40); auto c = strf("n=%zu", n); note(c); Quiet q;
  std::vector<double> a(n), b(n), o(n); std::vector<std::complex<double>> x(n), y(n), z(n); for(size_t i = 0; i < n; ++i) { a[i] = r.gauss(); b[i] = r.gauss(); x[i] = {r.gauss(), r.gauss()}; y[i] = {r.gauss(), r.gauss()}; }
  nontrivial(vh::fnv(a.data(), 8 * n)); covmax("length", n);
  double s = 0; std::complex<double> sc = 0, sm = 0; for(size_t i = 0; i < n; ++i) { s += a[i] * b[i]; sc += std::conj(x[i]) * y[i]; sm += std::conj(x[i]) * b[i]; }
  near(ce::MyInnProd(a, b), s, 1e-12 * (1 + n), "inner_real", c);
  ok(std::abs(ce::MyInnProd(x, y) - sc) < 1e-12 * (1 + n), "inner_complex", "%s", c.c_str()); ok(std::abs(ce::MyInnProd(x, b) - sm) < 1e-12 * (1 + n), "inner_mixed", "%s", c.c_str());
  Eigen::VectorXd ea = Eigen::Map<Eigen::VectorXd>(a.data(), n), eb = Eigen::Map<Eigen::VectorXd>(b.data(), n), eo(n); Eigen::VectorXcd ex = Eigen::Map<Eigen::VectorXcd>(x.data(), n), ey = Eigen::Map<Eigen::VectorXcd>(y.data(), n), ez(n);
  near(ce::MyInnProd(ea, eb), s, 1e-12 * (1 + n), "inner_eigen", c); ok(std::abs(ce::MyInnProd(ex, ey) - sc) < 1e-12 * (1 + n), "inner_eigen_complex", "%s", c.c_str());
  double f = r.gauss(), g = r.gauss(); std::complex<double> fc{r.gauss(), r.gauss()}, gc{r.gauss(), r.gauss()};
  ce::MyAdd(f, a, g, b, o); ce::MyAdd(f, ea, g, eb, eo); ce::MyAdd(fc, x, gc, y, z); ce::MyAdd(fc, ex, gc, ey, ez);
  for(size_t i = 0; i < n; ++i) { near(o[i], f * a[i] + g * b[i], 1e-13 * 20, "add", c); near(eo(i), f * a[i] + g * b[i], 1e-13 * 20, "add_eigen", c); ok(std::abs(z[i] - (fc * x[i] + gc * y[i])) < 1e-12 && std::abs(ez(i) - z[i]) < 1e-12, "add_complex", "%s", c.c_str()); }
  std::vector<double> lng(n + 1); ok(vh::throws([&] { ce::MyAdd(f, a, g, lng, o); }), "add_size_accepted", "%s", c.c_str());
  if(n) {
    auto A = rsym(r, n, 2); for(size_t i = 0; i < n; ++i) A(i, (i * 7 + 3) % n) += .5; double w = ea.dot(A * eb); double t = 1e-11 * (1 + A.norm()) * n;
    near(ce::GetMatrixEl(ea, A, eb), w, t, "matrix_element", c); near(ce::GetMatrixEl(a, A, b), w, t, "matrix_element_std", c);
    std::complex<double> wc = ex.dot(A.cast<std::complex<double>>() * ey); ok(std::abs(ce::GetMatrixEl(ex, sparse(A), ey) - wc) < t, "matrix_element_complex", "%s", c.c_str());
  }
  // files
  std::string fn = vh::st().tmpdir + strf("/x03.%d.%d.txt", (int)getpid(), vh::st().rank);
  if(n) {
    Eigen::MatrixXd A = rsym(r, n, 2); std::string t; size_t nz = 0; for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) if(A(i, j) != 0) { bool sw = r.chance(.5); t += strf("%zu %zu %.17g\n", sw ? j : i, sw ? i : j, A(i, j)); ++nz; }
    writef(fn, strf("%zu %zu %zu\n", n, n, nz) + t);
    ce::SpMatD B(n, n); ok(ce::ReadMatSize(fn) == n, "matrix_size", "%s", c.c_str());
    ok(ce::ReadMat(fn, B) && (Eigen::MatrixXd(B) - A).norm() == 0, "matrix_file", "%s", c.c_str());
    ce::SpMatD W(n + 1, n + 1); std::cerr.setstate(std::ios::failbit); ok(!ce::ReadMat(fn, W), "matrix_shape_accepted", "%s", c.c_str()); std::cerr.clear();
    ok(!ce::ReadMat(fn + ".absent", B) && ce::ReadMatSize(fn + ".absent") == 0, "matrix_missing_accepted", "%s", c.c_str());
  }
  { std::string t = strf("%zu\n", n); for(auto v : a) t += strf("%.17g\n", v); writef(fn, t); }
  std::vector<double> rd; Eigen::VectorXcd rc; ok(ce::ReadVec(fn, rd) && rd == a, "vector_file", "%s", c.c_str());
  ok(ce::ReadVec(fn, rc) && (size_t)rc.size() == n, "vector_file_complex", "%s", c.c_str()); for(size_t i = 0; i < n && i < (size_t)rc.size(); ++i) ok(rc(i) == std::complex<double>(a[i], 0), "vector_file_complex", "%s", c.c_str());
  ok(!ce::ReadVec(fn + ".absent", rd) && !ce::ReadVec(fn + ".absent", rc), "vector_missing_accepted", "%s", c.c_str());
  // input dictionaries
  int iv = r.in(-100, 100); double dv = r.gauss(); bool bv = r.chance(.5); std::string tx;
  std::vector<std::string> L{strf("number %d", iv), strf("real\t  %.17g", dv), strf("flag %s", bv ? "T" : "F"), "# comment 1", "! comment 2", "% comment 3", "ilist 3 -4 5", "words alpha beta gamma", "flags T F T", "dlist 1.5 -2.5e3"};
  r.shuffle(L); for(auto& l : L) tx += l + "\n"; writef(fn, tx); ce::Input_t in;
  trymake("input", [&] {
    ce::ReadInput(fn, in);
    ok(in.size() == 7 && ce::getParam<int>(in, "number") == iv && ce::getParam<double>(in, "real") == dv && ce::getParam<bool>(in, "flag") == bv, "input_scalar", "%s", c.c_str());
    ok(ce::getParam<std::vector<int>>(in, "ilist") == std::vector<int>{3, -4, 5} && ce::getParam<std::string>(in, "words") == "alpha beta gamma" && ce::getParam<std::vector<std::string>>(in, "words") == std::vector<std::string>{"alpha", "beta", "gamma"}, "input_list", "%s", c.c_str());
    ok(ce::getParam<std::vector<bool>>(in, "flags") == std::vector<bool>{true, false, true} && ce::getParam<std::vector<double>>(in, "dlist") == std::vector<double>{1.5, -2500.}, "input_vectors", "%s", c.c_str());
  });
  auto thr = [&](const char* w, auto f) { bool t = false; try { f(); } catch(...) { t = true; } ok(t, "input_error_accepted", "%s: %s", c.c_str(), w); };
  thr("absent key", [&] { ce::getParam<int>(in, "nothing"); }); thr("absent flag", [&] { ce::getParam<bool>(in, "nothing"); }); thr("bad flag", [&] { ce::getParam<bool>(in, "words"); });
  thr("add existing", [&] { ce::addParam(in, "flag", "F"); }); thr("set absent", [&] { ce::setParam(in, "nothing", "F"); });
  ce::setParam(in, "flag", bv ? "F" : "T"); ce::addParam(in, "extra", "12"); ok(ce::getParam<bool>(in, "flag") == !bv && ce::getParam<int>(in, "extra") == 12, "input_set", "%s", c.c_str());
  writef(fn, tx + "flag T\n"); thr("duplicate key", [&] { ce::Input_t i2; ce::ReadInput(fn, i2); }); thr("absent file", [&] { ce::Input_t i2; ce::ReadInput(fn + ".absent", i2); });
  ::unlink(fn.c_str());
}
