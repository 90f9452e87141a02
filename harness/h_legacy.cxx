// The legacy selected-CI and Green's-function code in attic/ (dbwy, cmz::ed::RunGFCalc):
//   X04 determinants, Hamiltonian builders, densities, Davidson, ASCI search and runs
//   X05 Green's functions
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "oracle.hpp"
#include "dbwy/cmz_compat_csr_matrix.hpp"
#include "dbwy/asci_body.hpp"
#undef I
namespace ce = cmz::ed;
using vh::Rng; using vh::ok; using vh::strf; using vh::cov; using vh::covmax; using vh::nontrivial; using vh::want_sample; using vh::sample; using vh::note;
using orc::u128; using orc::Ints; using orc::to_bitset; using orc::from_bitset;
typedef std::complex<double> cd;
static bool near(double a, double b, double tol, const char* key, const std::string& c) { return vh::close(a, b, tol, key, "%s", c.c_str()); }
struct Quiet { std::streambuf* o; Quiet() : o(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cout.clear(); std::cout << std::defaultfloat << std::setprecision(6); } };
struct Cwd { std::string d; char old[4096]; Cwd() { d = vh::st().tmpdir + strf("/lg.%d.%d", (int)getpid(), vh::st().rank); if(!getcwd(old, sizeof old)) old[0] = 0; ::mkdir(d.c_str(), 0700); if(::chdir(d.c_str())) d.clear(); }
  ~Cwd() { for(auto f : {"alphas.dat", "betas.dat", "dump", "final_asci_wf.dat", "final_ed_wf.dat", "BLH_UT.dat", "LanGFMatrix_ADD.dat", "LanGFMatrix_SUB.dat", "GFMatrix_OrbitalIndices_ADD.dat", "GFMatrix_OrbitalIndices_SUB.dat"}) ::unlink(f); for(int i = 1; i < 12; ++i) for(auto p : {"ADD", "SUB"}) ::unlink(strf("LanGF_%s_%d_%d.dat", p, i, i).c_str()); if(old[0] && ::chdir(old)) {} ::rmdir(d.c_str()); } };
static bool trymake(const char* what, const std::function<void()>& f) {
  try { f(); return true; } catch(const std::string& s) { vh::fail(strf("%s_threw", what), "%s", s.c_str()); }
  catch(const char* s) { vh::fail(strf("%s_threw", what), "%s", s); }
  return false;
}
static size_t rne(Rng& r, size_t n, size_t cap) { size_t e = r.chance(.2) ? (r.chance(.5) ? 0 : n) : r.in(0, n); return std::min(e, cap); }
static std::vector<u128> subset(Rng& r, std::vector<u128> v, size_t mx) { r.shuffle(v); v.resize(r.chance(.3) ? std::min(mx, v.size()) : r.in(1, std::min(mx, v.size()))); return v; }
template <size_t N> std::vector<std::bitset<N>> tob(const std::vector<u128>& v) { std::vector<std::bitset<N>> o; for(auto d : v) o.push_back(to_bitset<N>(d)); return o; }
template <size_t N> std::vector<u128> fromb(const std::vector<std::bitset<N>>& v) { std::vector<u128> o; for(auto& d : v) o.push_back(from_bitset<N>(d)); return o; }
static void srt(std::vector<u128>& v) { std::sort(v.begin(), v.end()); }
static Eigen::MatrixXd rsym(Rng& r, size_t n, int kind) {
  Eigen::MatrixXd A(n, n);
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j <= i; ++j) {
    double x = kind == 1 ? r.in(-2, 2) : kind == 2 ? (r.chance(.7) ? 0. : r.gauss()) : kind == 3 ? (i == j ? 3. * i + r.gauss() : .3 * r.gauss()) : r.gauss();
    A(i, j) = A(j, i) = x;
  }
  return A;
}
static std::vector<double> raw(const Eigen::MatrixXd& A) { return std::vector<double>(A.data(), A.data() + A.size()); }
typedef sparsexx::csr_matrix<double, int32_t> csr;
static csr tocsr(const Eigen::MatrixXd& A) {
  int n = A.rows(); std::vector<int32_t> rp{0}, ci; std::vector<double> v;
  for(int i = 0; i < n; ++i) { for(int j = 0; j < n; ++j) if(A(i, j) != 0) { ci.push_back(j); v.push_back(A(i, j)); } rp.push_back(ci.size()); }
  return csr(n, n, std::move(rp), std::move(ci), std::move(v));
}
template <class M> Eigen::MatrixXd dense(const M& A, bool* dup = nullptr) {
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(A.m(), A.n()); std::set<std::pair<long, long>> s;
  for(long i = 0; i < (long)A.m(); ++i) for(auto k = A.rowptr()[i] - A.indexing(); k < A.rowptr()[i + 1] - A.indexing(); ++k) { long j = A.colind()[k] - A.indexing(); if(j < 0 || j >= (long)A.n() || !s.insert({i, j}).second) { if(dup) *dup = true; continue; } D(i, j) += A.nzval()[k]; }
  return D;
}
// every determinant one (or two) same-class excitations away, spin preserved; orbitals restricted to a list
static std::vector<u128> exc(u128 d, const std::vector<int>& orbs, int rank) {
  std::vector<u128> o; std::vector<int> oc, vi; for(int sp = 0; sp < 2; ++sp) for(int i : orbs) (d >> (64 * sp + i) & 1 ? oc : vi).push_back(64 * sp + i);
  std::set<u128> s;
  for(size_t i = 0; i < oc.size(); ++i) for(size_t a = 0; a < vi.size(); ++a) {
    bool same = orc::beta(oc[i]) == orc::beta(vi[a]);
    if(rank == 1) { if(same) s.insert(d ^ orc::bit(oc[i]) ^ orc::bit(vi[a])); continue; }
    for(size_t j = 0; j < i; ++j) for(size_t b = 0; b < a; ++b) if(orc::beta(oc[i]) + orc::beta(oc[j]) == orc::beta(vi[a]) + orc::beta(vi[b])) s.insert(d ^ orc::bit(oc[i]) ^ orc::bit(vi[a]) ^ orc::bit(oc[j]) ^ orc::bit(vi[b]));
  }
  return std::vector<u128>(s.begin(), s.end());
}
static std::vector<int> iota(size_t n) { std::vector<int> v(n); for(size_t i = 0; i < n; ++i) v[i] = i; return v; }

// =========================================================== X04
template <size_t M> void bitops(Rng& r) {
  std::bitset<M> b, y; double p = r.uni(); for(size_t i = 0; i < M; ++i) { if(r.chance(p)) b[i] = 1; if(r.chance(p)) y[i] = 1; }
  if(r.chance(.3)) { b.reset(); for(int k = r.in(0, 2); k > 0; --k) b[r.in(0, (int)M - 1)] = 1; } if(r.chance(.3)) { y = b; y.flip(r.in(0, (int)M - 1)); }
  auto c = strf("%zu bits %s", M, b.to_string().c_str());
  size_t f = 0; while(f < M && !b[f]) ++f; if(f < M) ok(dbwy::ffs(b) == f + 1, "ffs", "%s: %u want %zu", c.c_str(), dbwy::ffs(b), f + 1);
  std::vector<uint32_t> w; for(size_t i = 0; i < M; ++i) if(b[i]) w.push_back(i); ok(dbwy::bits_to_indices(b) == w, "indices", "%s", c.c_str());
  int k = r.in(0, (int)M); auto m = dbwy::full_mask<M>(k); bool g = true; for(int i = 0; i < (int)M; ++i) g &= m[i] == (i < k); ok(g, "full_mask", "%s %d", c.c_str(), k);
  int d = (int)M - 1; while(d >= 0 && b[d] == y[d]) --d; bool less = d >= 0 && y[d];
  ok(dbwy::bitset_less(b, y) == less && dbwy::bitset_less_comparator<M>()(b, y) == less && !dbwy::bitset_less(b, b), "less", "%s %s", c.c_str(), y.to_string().c_str());
  auto t = dbwy::truncate_bitset<M / 2>(b); auto e = dbwy::expand_bitset<M>(t); for(size_t i = 0; i < M; ++i) g &= e[i] == (i < M / 2 && b[i]); for(size_t i = 0; i < M / 2; ++i) g &= t[i] == b[i]; ok(g, "truncate_expand", "%s", c.c_str());
  // signs at any position of the string
  std::vector<unsigned> oc, vi; for(size_t i = 0; i < M; ++i) (b[i] ? oc : vi).push_back(i);
  auto between = [](const std::bitset<M>& x, unsigned p, unsigned q) { int k = 0; for(unsigned i = std::min(p, q) + 1; i < std::max(p, q); ++i) k += x[i]; return k % 2 ? -1. : 1.; };
  if(!oc.empty() && !vi.empty()) {
    unsigned q1 = r.pick(oc), p1 = r.pick(vi); auto x = b; x.flip(q1).flip(p1); ok(dbwy::single_excitation_sign<M>(b, p1, q1) == between(b, p1, q1), "sign_wide", "%s %u <- %u", c.c_str(), p1, q1);
    auto [o1, v1, s1] = dbwy::single_excitation_sign_indices<M>(x, b, x ^ b); ok(o1 == q1 && v1 == p1 && s1 == between(b, p1, q1), "indices_wide", "%s %u <- %u", c.c_str(), p1, q1);
    unsigned q2 = r.pick(oc), p2 = r.pick(vi); if(q2 != q1 && p2 != p1) { auto z = x; z.flip(q2).flip(p2); auto [i, A, j, B, s] = dbwy::doubles_sign_indices<M>(z, b, z ^ b); auto k = b; k.flip(i).flip(A);
      ok(std::set<unsigned>{i, j} == (std::set<unsigned>{q1, q2}) && std::set<unsigned>{A, B} == (std::set<unsigned>{p1, p2}) && s == between(b, i, A) * between(k, j, B) && dbwy::doubles_sign<M>(z, b, z ^ b) == s, "double_sign_wide", "%s %u %u <- %u %u", c.c_str(), p1, p2, q1, q2); } }
  auto h = dbwy::full_mask<M / 2, M>(); for(size_t i = 0; i < M; ++i) g &= h[i] == (i < M / 2); ok(g, "half_mask", "%s", c.c_str());
}
template <size_t N> void strings(Rng& r) {
  size_t n = r.chance(.2) ? std::min<size_t>(N / 2, 64) : r.in(1, std::min<size_t>(N / 2, 9)), cap = n > 9 ? 2 : n; size_t na = rne(r, n, cap), nb = rne(r, n, cap); if(n > 9 && r.chance(.3)) na = n - 1, nb = n;
  u128 d = orc::rand_det(r, n, na, nb); auto c = strf("width %zu norb=%zu %s", N, n, orc::dstr(d, n).c_str()); note(c); if(want_sample()) sample(c); nontrivial(orc::hashd(d) + n * 7 + N);
  auto b = to_bitset<N>(d); typedef std::vector<std::bitset<N>> VB;
  if(n <= 9 || na + nb <= 4) {
    auto chk = [&](const VB& g, std::vector<u128> want, const char* key) { auto v = fromb<N>(g); srt(v); srt(want); ok(v == want, key, "%s: %zu generated, %zu expected", c.c_str(), v.size(), want.size()); };
    auto S = exc(d, iota(n), 1), D = exc(d, iota(n), 2); VB s{b}, t{b};
    dbwy::generate_singles_spin<N>(n, b, s); chk(s, S, "singles");
    dbwy::generate_singles_doubles_spin<N>(n, b, s, t); chk(s, S, "singles"); chk(t, D, "doubles");
    auto all = S; all.push_back(d); chk(dbwy::generate_cis_hilbert_space<N>(n, b), all, "cis_space"); all.insert(all.end(), D.begin(), D.end()); chk(dbwy::generate_cisd_hilbert_space<N>(n, b), all, "cisd_space");
    auto as = iota(n); r.shuffle(as); as.resize(r.in(0, n)); std::vector<uint32_t> au(as.begin(), as.end());
    dbwy::generate_singles_spin_as<N>(n, b, s, au); chk(s, exc(d, as, 1), "active_singles");
    s.clear(); t.clear(); dbwy::generate_singles_doubles_spin_as<N>(n, b, s, t, au); chk(s, exc(d, as, 1), "active_singles"); chk(t, exc(d, as, 2), "active_doubles");
    std::vector<u128> R; auto oc = orc::occ(d); for(size_t i = 0; i < oc.size(); ++i) for(size_t j = 0; j < i; ++j) R.push_back(d ^ orc::bit(oc[i]) ^ orc::bit(oc[j])); s.clear(); dbwy::generate_residues<N>(b, s); chk(s, R, "residues");
    cov("excitations listed", S.size() + D.size());
  }
  // one spin string
  std::bitset<N / 2> a = dbwy::truncate_bitset<N / 2>(b); std::vector<uint32_t> o, v, wo, wv; dbwy::bitset_to_occ_vir<N / 2>(n, a, o, v); for(size_t i = 0; i < n; ++i) (a[i] ? wo : wv).push_back(i); ok(o == wo && v == wv, "occ_vir", "%s", c.c_str());
  if(!wo.empty() && !wv.empty()) {
    unsigned p = r.pick(wv), q = r.pick(wo); u128 ad = (uint64_t)d; double sg = orc::par(ad, q) * orc::par(ad ^ orc::bit(q), p);
    ok(dbwy::single_excitation_sign<N / 2>(a, p, q) == sg, "single_sign", "%s %u<-%u", c.c_str(), p, q);
    auto br = a; br.flip(p).flip(q); auto [o1, v1, s1] = dbwy::single_excitation_sign_indices<N / 2>(br, a, br ^ a); ok(o1 == q && v1 == p && s1 == sg, "single_indices", "%s %u<-%u: %u<-%u", c.c_str(), p, q, v1, o1);
    if(wo.size() > 1 && wv.size() > 1) {
      unsigned x = r.pick(wo), y = r.pick(wv); if(x != q && y != p) { auto b2 = br; b2.flip(x).flip(y); double G = 0;  // sign of <bra| a+_v1 a_o1 a+_v2 a_o2 |ket> for the returned pairing
        auto [i, A, j, B, s] = dbwy::doubles_sign_indices<N / 2>(b2, a, b2 ^ a); u128 k = ad; G = orc::par(k, j); k ^= orc::bit(j); G *= orc::par(k, B); k ^= orc::bit(B); G *= orc::par(k, i); k ^= orc::bit(i); G *= orc::par(k, A); k ^= orc::bit(A);
        ok(std::set<unsigned>{i, j} == (std::set<unsigned>{q, x}) && std::set<unsigned>{A, B} == (std::set<unsigned>{p, y}) && k == (ad ^ orc::bit(p) ^ orc::bit(q) ^ orc::bit(x) ^ orc::bit(y)) && s == G && dbwy::doubles_sign<N / 2>(b2, a, b2 ^ a) == G, "double_sign", "%s %u %u <- %u %u", c.c_str(), p, y, q, x); } }
  }
  auto str = dbwy::to_canonical_string<N>(b); ok(str.size() == N / 2 && str.substr(0, n) == orc::dstr(d, n) && str.find_first_not_of('0', n) == std::string::npos && dbwy::from_canonical_string<N>(str) == b && dbwy::from_canonical_string<N>(str.substr(0, n)) == b, "canonical_string", "%s: %s", c.c_str(), str.c_str());
  u128 hf = (u128)(na ? ~0ull >> (64 - na) : 0) | (u128)(nb ? ~0ull >> (64 - nb) : 0) << 64; ok(dbwy::canonical_hf_determinant<N>(na, nb) == to_bitset<N>(hf), "aufbau", "%s", c.c_str());
  std::vector<double> e(n); for(auto& x : e) x = r.chance(.5) ? r.in(-2, 2) : r.gauss(); std::vector<int> ix = iota(n); std::stable_sort(ix.begin(), ix.end(), [&](int i, int j) { return e[i] < e[j]; }); u128 he = 0; for(size_t i = 0; i < na; ++i) he |= orc::bit(ix[i]); for(size_t i = 0; i < nb; ++i) he |= orc::bit(64 + ix[i]);
  ok(dbwy::canonical_hf_determinant<N>(na, nb, e) == to_bitset<N>(he), "aufbau_energies", "%s", c.c_str());
  size_t m = r.in(1, 5), ma = r.in(0, m), mb = r.in(0, m); auto F = orc::full_space(m, ma, mb), G = fromb<N>(dbwy::generate_full_hilbert_space<N>(m, ma, mb)), H = fromb<N>(dbwy::build_hilbert_space<N>(m, ma, mb)); srt(F); srt(G); srt(H); ok(F == G && F == H, "full_space", "norb=%zu %zu+%zu", m, ma, mb);
}
TEST("X04", "determinants64", 120, 4000) { for(int i = 0; i < 4; ++i) { strings<64>(r); bitops<64>(r); bitops<32>(r); } }
TEST("X04", "determinants128", 120, 4000) { for(int i = 0; i < 4; ++i) { strings<128>(r); bitops<128>(r); } }
TEST("X04", "determinants256", 60, 2000) { for(int i = 0; i < 4; ++i) { strings<256>(r); bitops<256>(r); bitops<96>(r); } }

template <size_t N> void elements(Rng& r) {
  size_t n = r.pick({1, 2, 3, 4, 5, 6, 8, 12, 16}); int kind = r.pick({0, 0, 1, 2, 3, 4}); Ints I = orc::random_ints(r, n, kind); dbwy::DoubleLoopHamiltonianGenerator<N> g(n, I.V.data(), I.T.data());
  nontrivial(orc::hashi(I) + N); covmax("orbitals", n); double sc = 1e-12 * (1 + orc::scale(I));
  for(int k = 0; k < 25; ++k) {
    size_t na = rne(r, n, 6), nb = rne(r, n, 6); u128 ket = orc::rand_det(r, n, na, nb), bra = r.chance(.1) ? orc::rand_det(r, n, na, nb) : orc::excite(r, n, ket, r.in(0, 3));
    auto c = strf("width %zu norb=%zu kind=%d <%s|H|%s>", N, n, kind, orc::dstr(bra, n).c_str(), orc::dstr(ket, n).c_str()); note(c); if(want_sample()) sample(c); int d = orc::pop(bra ^ ket) / 2; cov(strf("excitation rank %d", std::min(d, 3)));
    double t = sc * 40 * (1 + na + nb) * (1 + na + nb); near(g.matrix_element(to_bitset<N>(bra), to_bitset<N>(ket)), orc::melem(I, bra, ket), t, strf("element_rank%d", std::min(d, 3)).c_str(), c);
    // diagonal elements of excited determinants from the original one
    auto ao = dbwy::bits_to_indices(dbwy::truncate_bitset<N / 2>(to_bitset<N>(ket))), bo = dbwy::bits_to_indices(dbwy::truncate_bitset<N / 2>(to_bitset<N>(ket) >> (N / 2))); double h0 = orc::melem(I, ket, ket);
    std::vector<uint32_t> oc[2] = {ao, bo}, vi[2]; for(int s = 0; s < 2; ++s) for(size_t i = 0; i < n; ++i) if(!(ket >> (64 * s + i) & 1)) vi[s].push_back(i);
    int s = r.in(0, 1); auto fl = [&](u128 x, int sp, int i, int a) { return x ^ orc::bit(64 * sp + i) ^ orc::bit(64 * sp + a); }; auto dg = [&](u128 x) { return orc::melem(I, x, x); };
    if(oc[s].size() && vi[s].size()) {
      int i = r.pick(oc[s]), a = r.pick(vi[s]); near(g.fast_diag_single(oc[s], oc[1 - s], i, a, h0), dg(fl(ket, s, i, a)), t, "fast_single", c);
      int j = r.pick(oc[s]), b = r.pick(vi[s]); if(j != i && b != a) near(g.fast_diag_ss_double(oc[s], oc[1 - s], i, j, a, b, h0), dg(fl(fl(ket, s, i, a), s, j, b)), t, "fast_same_spin", c);
      if(oc[1 - s].size() && vi[1 - s].size()) { int x = r.pick(oc[1 - s]), y = r.pick(vi[1 - s]); near(g.fast_diag_os_double(oc[s], oc[1 - s], i, x, a, y, h0), dg(fl(fl(ket, s, i, a), 1 - s, x, y)), t, "fast_opposite_spin", c); }
    }
    if(!ao.empty()) near(g.single_orbital_en(ao[0], ao, bo), dg(ket) - dg(ket ^ orc::bit(ao[0])), t, "orbital_energy", c);
  }
}
TEST("X04", "matrix_elements64", 80, 3000) { elements<64>(r); }
TEST("X04", "matrix_elements128", 80, 3000) { elements<128>(r); }
TEST("X04", "matrix_elements256", 40, 1000) { elements<256>(r); }

template <size_t N> void blocks(Rng& r) {
  size_t n = r.in(1, 5), na = r.in(0, n), nb = r.in(0, n); if(na + nb == 0) na = 1; int kind = r.pick({0, 1, 2, 2, 3, 4}); Ints I = orc::random_ints(r, n, kind); bool js = r.chance(.2);
  if(js) for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) if(p != q && x != y) I.v(p, q, x, y) = 0;
  auto v = subset(r, orc::full_space(n, na, nb), 40); size_t m = v.size(); auto D = orc::dense_h(I, v); double thr = r.pick({0., 1e-14, 1e-9, 1e-3, .3});
  bool sdb = r.chance(.5); dbwy::DoubleLoopHamiltonianGenerator<N> gd(n, I.V.data(), I.T.data()); dbwy::SDBuildHamiltonianGenerator<N> gs(n, I.V.data(), I.T.data()); gs.SetJustSingles(js); ok(gs.GetJustSingles() == js, "just_singles", "-");
  dbwy::HamiltonianGenerator<N>& g = sdb ? (dbwy::HamiltonianGenerator<N>&)gs : gd;
  auto c = strf("width %zu norb=%zu %zu+%zu kind=%d, %zu determinants, %s%s threshold %g", N, n, na, nb, kind, m, sdb ? "search" : "double loop", js ? " singles only" : "", thr); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I) + m * 3 + sdb); covmax("determinants", m); cov(sdb ? "excitation-driven builder" : "double-loop builder");
  auto b = tob<N>(v); size_t r0 = 0, r1 = m, c0 = 0, c1 = m; if(r.chance(.6)) { r0 = r.in(0, m); r1 = r.in(r0, m); c0 = r.in(0, m); c1 = r.in(c0, m); }
  double sl = 1e-10 * (1 + orc::scale(I));
  auto cmp = [&](const auto& A, size_t r0, size_t r1, size_t c0, size_t c1, const char* key) {
    if(!ok((size_t)A.m() == r1 - r0 && (size_t)A.n() == c1 - c0, key, "%s: shape %ldx%ld", c.c_str(), (long)A.m(), (long)A.n())) return; bool dup = false; auto X = dense(A, &dup); ok(!dup, "block_duplicates", "%s rows %zu-%zu columns %zu-%zu", c.c_str(), r0, r1, c0, c1);
    for(size_t i = r0; i < r1; ++i) for(size_t j = c0; j < c1; ++j) { double h = D[i + m * j]; if(std::abs(std::abs(h) - thr) <= sl) continue; near(X(i - r0, j - c0), std::abs(h) > thr ? h : 0., sl, key, strf("%s (%zu,%zu)", c.c_str(), i, j)); }
  };
  auto it = b.begin();
  if(r.chance(.5)) cmp(dbwy::make_csr_hamiltonian_block<int32_t, N>(it + r0, it + r1, it + c0, it + c1, g, thr), r0, r1, c0, c1, "block32"); else cmp(dbwy::make_csr_hamiltonian_block<int64_t, N>(it + r0, it + r1, it + c0, it + c1, g, thr), r0, r1, c0, c1, "block64");
  auto dm = dbwy::make_dist_csr_hamiltonian<int32_t, N>(r.chance(.5) ? MPI_COMM_SELF : MPI_COMM_WORLD, b.begin(), b.end(), g, thr); cmp(dm.diagonal_tile(), 0, m, 0, m, "distributed");
  // densities of any wavefunction over the list
  std::vector<double> C(m), w1(n * n, 0.), w2(n * n * n * n, 0.), d1(n * n, 0.), d2(n * n * n * n, 0.), e1(n * n, 0.); for(auto& x : C) x = r.chance(.1) ? 0. : r.gauss();
  for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(n, v[i], v[j], C[i] * C[j], w1, &w2);
  g.form_rdms(b.begin(), b.end(), b.begin(), b.end(), C.data(), d1.data(), d2.data()); g.form_rdms(b.begin(), b.end(), b.begin(), b.end(), C.data(), e1.data()); double t = 1e-11 * (1 + m);
  for(size_t i = 0; i < w1.size(); ++i) { near(d1[i], w1[i], t, "one_body_density", c); near(e1[i], w1[i], t, "one_body_density_only", c); }
  // the exchange part of the diagonal is stored with its indices in another order: what every use of it sees is the symmetric part
  auto s1 = orc::sym8(n, d2.data()), s2 = orc::sym8(n, w2.data()); for(size_t i = 0; i < s2.size(); ++i) near(s1[i], s2[i], t, "two_body_density", strf("%s element %zu", c.c_str(), i));
}
TEST("X04", "matrices_and_densities64", 60, 3000) { blocks<64>(r); }
TEST("X04", "matrices_and_densities128", 60, 3000) { blocks<128>(r); }
TEST("X04", "conversion_from_sets", 30, 800) {
  size_t n = r.in(1, 5), na = r.in(0, n), nb = r.in(0, n); if(na + nb == 0) nb = 1; Ints I = orc::random_ints(r, n, r.pick({0, 2, 3})); ce::intgrls::integrals ci((int64_t)n, I.T, I.V); auto full = subset(r, orc::full_space(n, na, nb), 30);
  ce::SetSlaterDets s; for(auto d : full) s.insert(ce::slater_det((uint64_t)d | (uint64_t)(d >> 64) << n, n, na, nb)); std::vector<u128> o; for(auto& d : s) o.push_back((u128)(d.GetState() & ((1ull << n) - 1)) | (u128)(d.GetState() >> n) << 64);
  auto c = strf("norb=%zu %zu+%zu, %zu determinants", n, na, nb, o.size()); note(c); nontrivial(orc::hashi(I) + o.size());
  auto b = dbwy::detail::to_bitset<64>(s.begin(), s.end()); ok(fromb<64>(b) == o, "to_bitset", "%s", c.c_str());
  auto D = orc::dense_h(I, o); dbwy::DoubleLoopHamiltonianGenerator<64> g(n, ci.u.data(), ci.t.data()); auto X = dense(dbwy::make_csr_hamiltonian_block<int32_t>(s.begin(), s.end(), s.begin(), s.end(), g, 1e-12));
  for(size_t i = 0; i < o.size(); ++i) for(size_t j = 0; j < o.size(); ++j) near(X(i, j), D[i + o.size() * j], 1e-9 * (1 + orc::scale(I)), "matrix_from_set", c);
}
TEST("X04", "natural_orbitals", 40, 1500) {
  size_t n = r.in(1, 4), na = r.in(0, n), nb = r.in(0, n); if(na + nb == 0) na = 1; int kind = r.pick({0, 3, 3, 2}); Ints I = orc::random_ints(r, n, kind), J = I; auto v = orc::full_space(n, na, nb); size_t m = v.size();
  auto c = strf("norb=%zu %zu+%zu kind=%d", n, na, nb, kind); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I)); double sc = 1e-10 * (1 + orc::scale(I)) * m;
  std::vector<double> C(m), d(n * n, 0.); for(auto& x : C) x = r.gauss(); double nn = 0; for(auto x : C) nn += x * x; for(auto& x : C) x /= std::sqrt(nn);
  auto b = tob<64>(v); dbwy::SDBuildHamiltonianGenerator<64> g(n, J.V.data(), J.T.data()); g.form_rdms(b.begin(), b.end(), b.begin(), b.end(), C.data(), d.data()); auto dc = d; g.rotate_hamiltonian_ordm(d.data()); ok(d == dc, "density_modified", "%s", c.c_str());
  // spectra of the one-body operator and of the whole Hamiltonian survive; the rotation diagonalises the density, largest occupation first
  auto W = orc::jacobi(m, orc::dense_h(I, v)), X = orc::jacobi(m, orc::dense_h(J, v)), w = orc::jacobi(n, I.T), x = orc::jacobi(n, J.T);
  for(size_t i = 0; i < m; ++i) near(X[i], W[i], sc, "spectrum", c); for(size_t i = 0; i < n; ++i) near(x[i], w[i], sc, "one_body_spectrum", c);
  std::vector<double> Z; auto occ = orc::jacobi(n, d, &Z); bool sep = true; for(size_t i = 1; i < n; ++i) if(occ[i] - occ[i - 1] < 1e-4) sep = false;
  if(sep) { cov("natural orbitals unique"); Eigen::MatrixXd U(n, n); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) U(i, j) = Z[i + n * (n - 1 - j)]; Eigen::MatrixXd T = U.transpose() * Eigen::Map<Eigen::MatrixXd>(I.T.data(), n, n) * U;
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) near(std::abs(J.t(i, j)), std::abs(T(i, j)), 1e-7 * (1 + orc::scale(I)), "rotated_one_body", c);
    // (ii|jj) and (ij|ij) do not depend on the orbitals' signs
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) for(int ex = 0; ex < 2; ++ex) { double s = 0; for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t k = 0; k < n; ++k) for(size_t l = 0; l < n; ++l) s += U(p, i) * U(q, ex ? j : i) * U(k, ex ? i : j) * U(l, j) * I.v(p, q, k, l); near(ex ? J.v(i, j, i, j) : J.v(i, i, j, j), s, 1e-7 * (1 + orc::scale(I)), "rotated_two_body", c); } }
  for(int k = 0; k < 20; ++k) { size_t i = r.in(0, m - 1), j = r.in(0, m - 1); near(g.matrix_element(b[i], b[j]), orc::melem(J, v[i], v[j]), sc, "rotated_generator", c); }
}
TEST("X04", "davidson", 80, 4000) {
  size_t n = r.chance(.15) ? r.in(1, 2) : r.in(3, 60); int kind = r.pick({0, 1, 2, 3, 3}); auto A = rsym(r, n, kind); if(r.chance(.15)) { double b = r.pick({1.5, .25, 0., -1.}); int lv = r.in(1, 5); A.setZero(); for(size_t i = 0; i < n; ++i) A(i, i) = r.chance(.5) ? b : b + (i % lv); kind = 9; }
  auto c = strf("n=%zu kind=%d", n, kind); note(c); if(want_sample()) sample(c); nontrivial(vh::fnv(A.data(), 8 * A.size())); covmax("dimension", n); if(n == 1) cov("one-dimensional"); Quiet q;
  auto W = orc::jacobi(n, raw(A)); sparsexx::dist_sparse_matrix<csr> dm(MPI_COMM_SELF, tocsr(A)); std::vector<double> x(n, 7.); double E = p_davidson(r.pick({100, 100, 200}), dm, 1e-8, x.data(), r.chance(.2)), sc = 1e-6 * (1 + A.norm()), F = p_davidson(100, dm, 1e-8);
  near(E, W[0], sc, "lowest", c); near(F, W[0], sc, "lowest_without_vector", c);
  { double S = davidson(r.pick({100, 100, 150}), tocsr(A), 1e-8); 
    // it starts from the lowest diagonal element: the lowest eigenvalue of the block connected to it
    Eigen::Index mi; A.diagonal().minCoeff(&mi); std::vector<Eigen::Index> blk{mi}; for(size_t q = 0; q < blk.size(); ++q) for(Eigen::Index j = 0; j < A.rows(); ++j) if(A(blk[q], j) != 0 && std::find(blk.begin(), blk.end(), j) == blk.end()) blk.push_back(j);
    size_t bn = blk.size(); Eigen::MatrixXd Bk(bn, bn); for(size_t i = 0; i < bn; ++i) for(size_t j = 0; j < bn; ++j) Bk(i, j) = A(blk[i], blk[j]); if(bn < n) cov("disconnected matrices"); near(S, orc::jacobi(bn, raw(Bk))[0], sc, "serial_lowest", c); size_t few = r.in(1, std::min<size_t>(n, 8)); double P = davidson(few, tocsr(A), 1e-8); ok(P > W[0] - sc && P < A.diagonal().minCoeff() + sc, "serial_variational", "%s subspace %zu: %.12g", c.c_str(), few, P); double P2 = p_davidson(few, dm, 1e-8); ok(P2 > W[0] - sc && P2 < W[n - 1] + sc, "variational", "%s subspace %zu: %.12g", c.c_str(), few, P2); if(few == 1) cov("no expansion"); }
  Eigen::VectorXd v = Eigen::Map<Eigen::VectorXd>(x.data(), n); near(v.norm(), 1, 1e-6, "vector_norm", c); ok((A * v - E * v).norm() < sc, "vector_residual", "%s: %g", c.c_str(), (A * v - E * v).norm());
  // building blocks
  size_t k = r.in(1, std::min<size_t>(n, 6)); Eigen::MatrixXd V(n, k); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < k; ++j) V(i, j) = r.gauss(); V = Eigen::HouseholderQR<Eigen::MatrixXd>(V).householderQ() * Eigen::MatrixXd::Identity(n, k);
  Eigen::MatrixXd AV = A * V; std::vector<double> w(k), Cm(k * k), Z; p_rayleigh_ritz(n, k, V.data(), n, AV.data(), n, w.data(), Cm.data(), k, MPI_COMM_SELF); Eigen::MatrixXd T = V.transpose() * AV; auto wt = orc::jacobi(k, raw(T)); Eigen::MatrixXd CC = Eigen::Map<Eigen::MatrixXd>(Cm.data(), k, k); for(size_t i = 0; i < k; ++i) { near(w[i], wt[i], 1e-10 * (1 + A.norm()), "ritz_value", c); ok((T * CC.col(i) - w[i] * CC.col(i)).norm() < 1e-10 * (1 + A.norm()), "ritz_vector", "%s", c.c_str()); }
  if(k < n) for(int par = 0; par < 2; ++par) { Eigen::VectorXd y(n); for(size_t i = 0; i < n; ++i) y(i) = r.gauss(); y += 50 * V.col(0); Eigen::VectorXd z = y; for(int rep = 0; rep < 3; ++rep) z -= (V * (V.transpose() * z)).eval(); if(z.norm() < .05) continue; z /= z.norm(); if(par) p_gram_schmidt(n, k, V.data(), n, y.data(), MPI_COMM_SELF); else gram_schmidt(n, k, V.data(), n, y.data()); ok((y - z).norm() < 1e-9, "gram_schmidt", "%s: %g", c.c_str(), (y - z).norm()); }
}
// the determinants kept are the best-scoring ones
template <size_t N> struct ImpGen : dbwy::SDBuildHamiltonianGenerator<N> { size_t nimp; ImpGen(size_t n, double* V, double* T, size_t k) : dbwy::SDBuildHamiltonianGenerator<N>(n, V, T), nimp(k) {} size_t GetNimp() const override { return nimp; } };
static std::map<u128, double> scores(const Ints& I, const std::vector<u128>& v, const std::vector<double>& C, double E, bool js, bool* safe) {
  std::map<u128, double> s;
  for(size_t k = 0; k < v.size(); ++k) for(int rank = 1; rank <= (js ? 1 : 2); ++rank) for(auto e : exc(v[k], iota(I.n), rank)) {
    double h = orc::melem(I, e, v[k]); if(std::abs(h) < 1e-10) continue; if(std::abs(h) < 1e-7) *safe = false; double den = E - orc::melem(I, e, e); if(std::abs(den) < 1e-3) *safe = false; s[e] += C[k] * h / den; }
  for(auto& x : s) x.second = std::abs(x.second);
  for(size_t k = 0; k < v.size(); ++k) s[v[k]] = std::abs(C[k]);
  return s;
}
template <size_t N> void search(Rng& r) {
  size_t n = r.in(1, 6), na = r.in(0, n), nb = r.in(0, n); if(na + nb == 0) na = 1; int kind = r.pick({0, 0, 2, 3}); Ints I = orc::random_ints(r, n, kind); int imp = r.chance(.2) ? (int)r.in(0, n) : -1; bool js = false;
  if(imp >= 0) { for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) if((int)std::max(std::max(p, q), std::max(x, y)) >= imp) I.v(p, q, x, y) = 0; cov("impurity model"); }
  auto v = subset(r, orc::full_space(n, na, nb), 25); std::vector<double> C(v.size()); for(auto& x : C) x = r.gauss(); double E = -30 * (1 + orc::scale(I)) + r.gauss(); bool safe = true; auto S = scores(I, v, C, E, js, &safe);
  size_t keep = r.chance(.3) ? S.size() + r.in(0, 3) : r.in(1, S.size()); auto c = strf("width %zu norb=%zu %zu+%zu kind=%d impurity %d, %zu seeds, keep %zu of %zu", N, n, na, nb, kind, imp, v.size(), keep, S.size()); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I) + v.size() * 100 + keep); covmax("determinants searched", S.size());
  if(!safe) { cov("skipped: score near a screening threshold"); return; }
  dbwy::SDBuildHamiltonianGenerator<N> g0(n, I.V.data(), I.T.data()); ImpGen<N> g1(n, I.V.data(), I.T.data(), imp < 0 ? N / 2 : imp); dbwy::HamiltonianGenerator<N>& g = imp < 0 ? (dbwy::HamiltonianGenerator<N>&)g0 : g1;
  auto b = tob<N>(v); Quiet q; auto out = fromb<N>(dbwy::asci_search<N>(keep, b.begin(), b.end(), E, C, n, I.T.data(), g.G_red_.data(), g.V_red_.data(), g.G_pqrs_.data(), I.V.data(), g, r.chance(.8)));
  std::set<u128> u(out.begin(), out.end()); ok(u.size() == out.size(), "selected_twice", "%s: %zu of %zu distinct", c.c_str(), u.size(), out.size()); ok(out.size() == std::min(keep, S.size()), "selected_count", "%s: %zu", c.c_str(), out.size());
  double lo = 1e300, hi = 0; for(auto& x : S) if(u.count(x.first)) lo = std::min(lo, x.second); else hi = std::max(hi, x.second); for(auto d : out) ok(S.count(d), "selected_unconnected", "%s: %s", c.c_str(), orc::dstr(d, n).c_str());
  ok(lo >= hi * (1 - 1e-9) - 1e-13, "not_the_best", "%s: kept %g, dropped %g", c.c_str(), lo, hi); cov("determinants selected", out.size());
}
TEST("X04", "search64", 80, 3000) { search<64>(r); }
TEST("X04", "search128", 60, 2000) { search<128>(r); }
TEST("X04", "pairs", 60, 2000) {
  typedef dbwy::asci_contrib<128> P; std::vector<P> v; std::map<u128, double> sum, mx; int k = r.pick({0, 1, 2, 20, 200, 3000}), d = r.pick({1, 3, 50, 1000}); std::vector<u128> pool; for(int i = 0; i < d; ++i) pool.push_back(orc::rand_det(r, 40, r.in(0, 8), r.in(0, 8)));
  for(int i = 0; i < k; ++i) { auto x = r.pick(pool); double w = r.gauss(); v.push_back({to_bitset<128>(x), w}); sum[x] += w; if(!mx.count(x) || mx[x] < w) mx[x] = w; }
  auto c = strf("%d pairs of %d determinants", k, d); note(c); nontrivial(k * 7919 + d + (v.size() ? std::hash<double>()(v[0].rv) : 0)); auto w = v; dbwy::sort_and_accumulate_asci_pairs(v); dbwy::keep_only_largest_copy_asci_pairs(w);
  auto chk = [&](std::vector<P>& g, std::map<u128, double>& want, const char* key) { std::set<u128> s; for(auto& p : g) { auto x = from_bitset<128>(p.state); s.insert(x); if(ok(want.count(x), key, "%s", c.c_str())) near(p.rv, want[x], 1e-11 * k, key, c); } ok(s.size() == g.size() && s.size() == want.size(), key, "%s: %zu, %zu distinct, want %zu", c.c_str(), g.size(), s.size(), want.size()); };
  chk(v, sum, "accumulated"); chk(w, mx, "largest_copy");
  if(k) { std::vector<double> C; std::vector<std::bitset<128>> D; std::multimap<double, u128> m; for(int i = 0; i < k; ++i) { u128 x = r.pick(pool); double y = r.chance(.2) ? r.in(-1, 1) : r.gauss(); C.push_back(y); D.push_back(to_bitset<128>(x)); m.insert({y, x}); } dbwy::reorder_ci_on_coeff<128>(D, C, MPI_COMM_SELF); bool g = (int)C.size() == k && (int)D.size() == k; for(int i = 0; g && i < k; ++i) { if(i) g &= std::abs(C[i]) <= std::abs(C[i - 1]); auto e = m.equal_range(C[i]); bool f = false; for(auto it = e.first; it != e.second; ++it) if(it->second == from_bitset<128>(D[i])) { m.erase(it); f = true; break; } g &= f; } ok(g, "reordered", "%s", c.c_str()); }
}
template <size_t N> void state(const Ints& I, double E, const std::vector<std::bitset<N>>& w, const std::vector<double>& X, const std::string& c) {
  auto v = fromb<N>(w); size_t m = v.size(); std::set<u128> u(v.begin(), v.end()); ok(u.size() == m && X.size() == m, "state_shape", "%s: %zu determinants, %zu distinct, %zu coefficients", c.c_str(), m, u.size(), X.size()); if(X.size() != m || !m) return; double sc = 1 + orc::scale(I), nn = 0, e = 0;
  for(auto x : X) nn += x * x; near(nn, 1, 1e-6, "state_norm", c); if(m > 400) return; auto D = orc::dense_h(I, v); Eigen::Map<Eigen::MatrixXd> A(D.data(), m, m); Eigen::VectorXd x = Eigen::Map<const Eigen::VectorXd>(X.data(), m); e = x.dot(A * x); near(e, E, 1e-7 * sc * m, "state_energy", c); ok((A * x - E * x).norm() < 1e-6 * sc * m, "state_residual", "%s: %g", c.c_str(), (A * x - E * x).norm());
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(A, Eigen::EigenvaluesOnly); near(E, es.eigenvalues()(0), 1e-6 * sc, "state_not_lowest", c);
}
TEST("X04", "grow_and_refine", 30, 1200) {
  size_t n = r.in(2, 5), na = r.in(0, n), nb = r.in(0, n); if(na + nb == 0) na = 1; int kind = r.pick({3, 3, 3, 0}); Ints I = orc::random_ints(r, n, kind), J = I; std::vector<double> e(n); for(size_t i = 0; i < n; ++i) e[i] = I.t(i, i); auto hf = dbwy::canonical_hf_determinant<64>(na, nb, e); dbwy::SDBuildHamiltonianGenerator<64> g(n, J.V.data(), J.T.data());
  size_t full = orc::full_space(n, na, nb).size(), mx = r.chance(.4) ? full + r.in(0, 5) : r.in(1, full), nc = r.chance(.5) ? 1000 : r.in(1, 20); double E = g.matrix_element(hf, hf); auto c = strf("norb=%zu %zu+%zu kind=%d, at most %zu of %zu determinants, %zu search", n, na, nb, kind, mx, full, nc); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I) + mx * 3 + nc); covmax("full space", full); Quiet q;
  std::vector<std::bitset<64>> w{hf}; std::vector<double> X{1.}; bool rot = r.chance(.3); int prints = 0; double last = 0; auto pr = [&](double x) { ++prints; last = x; };
  if(rot) std::tie(E, w, X) = dbwy::asci_grow_with_rot<64>(mx, nc, r.in(2, 8), E, w, X, g, n, 1e-12, 100, 1e-9, pr, r.pick({1, 3, 6, 7}), r.chance(.5)); else std::tie(E, w, X) = dbwy::asci_grow<64>(mx, nc, r.in(2, 8), E, w, X, g, n, 1e-12, 100, 1e-9, pr, r.chance(.5));
  ok(w.size() <= std::max<size_t>(mx, 1), "too_many", "%s: %zu", c.c_str(), w.size()); if(mx > 1 || rot) state<64>(J, E, w, X, c + " grown");
  double G = E; std::tie(E, w, X) = dbwy::asci_refine<64>(nc, r.pick({1e-6, 1e-9}), r.in(1, 5), E, w, X, g, n, 1e-12, 100, 1e-9, pr, r.chance(.5)); state<64>(J, E, w, X, c + " refined"); ok(prints > 0 && last == E, "print", "%s", c.c_str());
  if(mx >= full) { near(E, G, 1e-6 * (1 + orc::scale(I)), "refined_complete_space", c); if(w.size() == full) { cov("complete space reached"); auto W = orc::jacobi(full, orc::dense_h(I, orc::full_space(n, na, nb))); near(E, W[0], 1e-6 * (1 + orc::scale(I)), "full_ci_energy", c); } }
}
static std::string dump(const Ints& I, double core) { std::string t; size_t n = I.n; for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) { if(I.t(p, q) != 0) t += strf("%zu %zu 0 0 %.17g\n", p + 1, q + 1, I.t(p, q)); for(size_t x = 0; x <= p; ++x) for(size_t y = 0; y <= x; ++y) if(x < p || y <= q) if(I.v(p, q, x, y) != 0) t += strf("%zu %zu %zu %zu %.17g\n", p + 1, q + 1, x + 1, y + 1, I.v(p, q, x, y)); } return t + strf("0 0 0 0 %.17g\n", core); }
static void put(const char* f, const std::string& t) { std::ofstream o(f); o << t; }
TEST("X04", "complete_run", 20, 800) {
  size_t n = r.in(2, 4), na = r.in(0, n), nb = r.in(0, n); if(na + nb == 0) na = 1; int kind = r.pick({3, 3, 0, 2}); Ints I = orc::random_ints(r, n, kind); double core = r.gauss() * 5; bool js = r.chance(.2); if(js) for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) if(p != q && x != y) I.v(p, q, x, y) = 0;
  auto v = orc::full_space(n, na, nb); size_t m = v.size(); bool ed = r.chance(.5); int rots = r.pick({0, 0, 6}); size_t mx = r.chance(.6) ? m + 10 : r.in(2, m + 1); auto c = strf("norb=%zu %zu+%zu kind=%d %s, at most %zu of %zu, rotations %d", n, na, nb, kind, ed ? "exact" : "selected", mx, m, rots); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(I) + mx); covmax("determinants", m);
  Cwd cw; put("dump", dump(I, core)); ce::Input_t in{{"norbs", strf("%zu", n)}, {"nups", strf("%zu", na)}, {"ndos", strf("%zu", nb)}, {"quiet", r.chance(.7) ? "T" : "F"}, {"real_ints", "T"}, {"fcidump_file", "dump"}, {"read_wfn", "F"}, {"ntdets_max", strf("%zu", mx)}, {"ncdets_max", "1000"}, {"niter_max", "5"}, {"coeff_thresh", "1"}};
  if(rots) in["n_orb_rots"] = strf("%d", rots); bool wf = r.chance(.3); if(wf) in["print_wf"] = "T";
  double E = 0; std::vector<double> d; Quiet q; bool wide = r.chance(.3);
  if(!trymake("run", [&] { if(ed) std::tie(E, d) = dbwy::run_ed_w_1rdm<64>(in); else if(wide) std::tie(E, d) = dbwy::run_asci_w_1rdm<128>(in); else std::tie(E, d) = dbwy::run_asci_w_1rdm<64>(in); })) return;
  std::vector<double> Z; auto W = orc::jacobi(m, orc::dense_h(I, v), &Z); double sc = 1 + orc::scale(I); ok(E - core >= W[0] - 1e-7 * sc, "below_full_ci", "%s: %.12g, lowest %.12g", c.c_str(), E - core, W[0]);
  if(ed) near(E - core, W[0], 1e-6 * sc, "exact_energy", c); if(!ok(d.size() == n * n, "density_size", "%s", c.c_str())) return;
  double tr = 0; for(size_t i = 0; i < n; ++i) tr += d[i + n * i]; near(tr, na + nb, 1e-6, "density_trace", c); auto oc = orc::jacobi(n, d); ok(oc[0] > -1e-6 && oc[n - 1] < 2 + 1e-6, "occupations", "%s: %g..%g", c.c_str(), oc[0], oc[n - 1]);
  if(ed && (m == 1 || W[1] - W[0] > 1e-2)) { cov("unique ground state"); std::vector<double> w(n * n, 0.); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) orc::rdms(n, v[i], v[j], Z[i] * Z[j], w, nullptr); for(size_t i = 0; i < n * n; ++i) near(d[i], w[i], 1e-5, "density", c); }
  if(wf) { std::ifstream f(ed ? "final_ed_wf.dat" : "final_asci_wf.dat"); size_t k = 0; f >> k; double x; std::string s; size_t cnt = 0; double nn = 0; std::set<std::string> u; while(f >> x >> s) { ++cnt; nn += x * x; u.insert(s); size_t a = 0, b = 0; for(char ch : s) { a += ch == '2' || ch == 'u'; b += ch == '2' || ch == 'd'; } ok(a == na && b == nb, "written_determinant", "%s: %s", c.c_str(), s.c_str()); } ok(k == cnt && u.size() == cnt, "written_wavefunction", "%s: header %zu, %zu lines, %zu distinct", c.c_str(), k, cnt, u.size()); near(nn, 1, 1e-3, "written_norm", c); }
  // a wavefunction read back: the lowest state over its determinants, whatever their order
  if(wf && r.chance(.7)) cov("own wavefunction read back"); else { wf = false; std::string t; auto sub = subset(r, v, r.in(1, m)); t = strf("%zu\n", sub.size()); for(auto x : sub) t += strf("%.6g %s\n", r.gauss(), dbwy::to_canonical_string(tob<64>({x})[0]).c_str()); put("mine", t); }
  std::vector<u128> L; { std::ifstream f(wf ? ed ? "final_ed_wf.dat" : "final_asci_wf.dat" : "mine"); size_t k; f >> k; double x; std::string s; while(f >> x >> s) { u128 b = 0; for(size_t i = 0; i < s.size(); ++i) { if(s[i] == '2' || s[i] == 'u') b |= orc::bit(i); if(s[i] == '2' || s[i] == 'd') b |= orc::bit(i + 64); } L.push_back(b); } }
  in["read_wfn"] = "T"; in["wfn_file"] = wf ? ed ? "final_ed_wf.dat" : "final_asci_wf.dat" : "mine"; std::vector<double> D; double F = 0; if(!trymake("run_read", [&] { if(ed) std::tie(F, D) = dbwy::run_ed_w_1rdm<64>(in); else if(wide) std::tie(F, D) = dbwy::run_asci_w_1rdm<128>(in); else std::tie(F, D) = dbwy::run_asci_w_1rdm<64>(in); })) return;
  auto c2 = c + strf(", %zu determinants read back", L.size()); covmax("determinants read back", L.size()); if(L.size() == 1) cov("one determinant read back"); std::vector<double> Y; auto V = orc::jacobi(L.size(), orc::dense_h(I, L), &Y); near(F - core, V[0], 1e-6 * sc, "read_energy", c2); if(!ok(D.size() == n * n, "read_density_size", "%s: %zu", c2.c_str(), D.size())) return;
  double t2 = 0; for(size_t i = 0; i < n; ++i) t2 += D[i + n * i]; near(t2, na + nb, 1e-6, "read_density_trace", c2);
  if(L.size() == 1 || V[1] - V[0] > 1e-2) { std::vector<double> w(n * n, 0.); for(size_t i = 0; i < L.size(); ++i) for(size_t j = 0; j < L.size(); ++j) orc::rdms(n, L[i], L[j], Y[i] * Y[j], w, nullptr); for(size_t i = 0; i < n * n; ++i) near(D[i], w[i], 1e-5, "read_density", c2); }
}

// =========================================================== X05
// a_o (or its adjoint) on a determinant: sign, 0 if it vanishes
static double ladder(u128 d, int so, bool create) { bool has = d >> so & 1; return has == create ? 0. : orc::par(d, so); }
static Eigen::MatrixXcd resolv(const Eigen::MatrixXd& A, const Eigen::MatrixXd& C, cd w, double E0, bool part) {
  size_t n = A.rows(); Eigen::MatrixXcd M = (part ? -1. : 1.) * A.cast<cd>(); for(size_t i = 0; i < n; ++i) M(i, i) += w + (part ? E0 : -E0); return C.transpose().cast<cd>() * M.partialPivLu().solve(C.cast<cd>().eval());
}
static std::vector<cd> freqs(Rng& r, int k) { std::vector<cd> w; for(int i = 0; i < k; ++i) w.push_back({r.gauss() * 3, r.uni(.2, 2.) * (r.chance(.3) ? -1 : 1)}); return w; }
TEST("X05", "continued_fraction", 80, 4000) {
  size_t n = r.chance(.15) ? 1 : r.in(2, 30); int kind = r.in(0, 3); auto A = rsym(r, n, kind); bool part = r.chance(.5), save = r.chance(.1); double E0 = r.gauss(); int its = r.chance(.7) ? (int)n : 1000; Eigen::VectorXd v(n); for(size_t i = 0; i < n; ++i) v(i) = r.chance(.3) ? 0. : r.gauss(); if(r.chance(.03)) v.setZero();
  auto c = strf("n=%zu kind=%d part=%d steps=%d norm %g", n, kind, part, its, v.norm()); note(c); if(want_sample()) sample(c); nontrivial(vh::fnv(A.data(), 8 * A.size())); covmax("dimension", n); Quiet q; Cwd cw;
  auto ws = freqs(r, 6); ce::VecCompD g(r.in(0, 9), cd(3, 3)); sparsexx::dist_sparse_matrix<csr> dm(MPI_COMM_SELF, tocsr(A)); if(r.chance(.5)) ce::GF_Diag(v, ce::eigMatDOp(A), ws, g, E0, part, its, save); else { ce::SparsexDistSpMatOp op(dm); ce::GF_Diag(v, op, ws, g, E0, part, its, save); }
  if(!ok(g.size() == ws.size(), "size", "%s", c.c_str())) return; for(size_t i = 0; i < ws.size(); ++i) { cd w = resolv(A, v, ws[i], E0, part)(0, 0); ok(std::abs(g[i] - w) <= 1e-5 * (1e-3 + v.squaredNorm()) / std::abs(ws[i].imag()), "resolvent", "%s w=(%g,%g): (%g,%g) want (%g,%g)", c.c_str(), ws[i].real(), ws[i].imag(), g[i].real(), g[i].imag(), w.real(), w.imag()); }
  if(save && v.norm() > 0) { std::ifstream a("alphas.dat"), b("betas.dat"); double x; size_t na = 0, nb = 0; while(a >> x) { if(!na && v.norm() > 0) near(x, v.dot(A * v) / v.squaredNorm(), 1e-4 * (1 + A.norm()), "alpha_file", c); ++na; } while(b >> x) { if(!nb) near(x, v.norm(), 1e-4 * (1 + v.norm()), "beta_file", c); ++nb; } ok(na == nb && na >= 1 && na <= (size_t)its, "coefficient_files", "%s: %zu %zu", c.c_str(), na, nb); }
}
struct Sys { size_t n, na, nb; Ints I; std::vector<u128> v; std::vector<double> C; double E; std::vector<double> occ; };
static Sys mksys(Rng& r, size_t nmax, bool exact) {
  Sys s; s.n = r.in(1, nmax); do { s.na = r.in(0, s.n); s.nb = r.in(0, s.n); } while(s.na + s.nb == 0); s.I = orc::random_ints(r, s.n, r.pick({3, 3, 0, 2})); auto full = orc::full_space(s.n, s.na, s.nb); s.v = exact ? full : subset(r, full, 60); size_t m = s.v.size();
  if(exact) { std::vector<double> Z; auto W = orc::jacobi(m, orc::dense_h(s.I, s.v), &Z); s.C.assign(Z.begin(), Z.begin() + m); s.E = W[0]; } else { double nn = 0; s.C.resize(m); for(auto& x : s.C) { x = r.chance(.15) ? 0. : r.gauss(); nn += x * x; } if(nn > 0) for(auto& x : s.C) x /= std::sqrt(nn); s.E = r.gauss(); }
  std::vector<double> d(s.n * s.n, 0.); for(size_t i = 0; i < m; ++i) orc::rdms(s.n, s.v[i], s.v[i], s.C[i] * s.C[i], d, nullptr); for(size_t i = 0; i < s.n; ++i) s.occ.push_back(d[i + s.n * i] / 2); return s;
}
static std::string ints(const std::vector<int>& v) { std::string s; for(int x : v) s += strf("%d ", x); return s; }
static std::string bools(const std::vector<bool>& v) { std::string s; for(bool x : v) s += x ? "T " : "F "; return s; }
template <size_t N> void basis(Rng& r) {
  auto s = mksys(r, 5, false); bool part = r.chance(.5), up = r.chance(.5); int orb = r.in(0, s.n - 1), sd = r.in(0, 3), so = orb + (up ? 0 : 64); double thr = r.pick({0., 1e-3, .1, 10.}), as = r.pick({-1., 0., .05, .2, .6}); size_t trunc = r.chance(.3) ? r.in(1, 30) : 100000;
  auto c = strf("width %zu norb=%zu %zu+%zu, %zu determinants, %s orbital %d %s layers %d threshold %g active %g limit %zu", N, s.n, s.na, s.nb, s.v.size(), part ? "add" : "remove", orb, up ? "up" : "down", sd, thr, as, trunc); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(s.I) + s.v.size() * 9 + sd);
  ce::Input_t in{{"norbs", strf("%zu", s.n)}, {"trunc_size", strf("%zu", trunc)}, {"tot_SD", strf("%d", sd)}, {"GFseedThresh", strf("%.17g", thr)}, {"asThresh", strf("%.17g", as)}}; auto b = tob<N>(s.v); Eigen::VectorXd psi = Eigen::Map<Eigen::VectorXd>(s.C.data(), s.C.size()); std::vector<std::bitset<N>> out(r.in(0, 2)); Quiet q; ce::get_GF_basis_AS_1El<N>(orb, up, part, psi, b, out, s.occ, in);
  std::vector<int> act; bool edge = false; for(size_t i = 0; i < s.n; ++i) { if(s.occ[i] >= as && s.occ[i] <= 1 - as) act.push_back(i); if(std::abs(s.occ[i] - as) < 1e-9 || std::abs(s.occ[i] - 1 + as) < 1e-9) edge = true; }
  auto g = fromb<N>(out); std::set<u128> G(g.begin(), g.end()), base, layer, all; ok(G.size() == g.size(), "basis_duplicates", "%s", c.c_str()); for(size_t i = 0; i < s.v.size(); ++i) if(ladder(s.v[i], so, part) != 0) { u128 d = s.v[i] ^ orc::bit(so); base.insert(d); if(std::abs(std::abs(s.C[i]) - thr) < 1e-12 && thr > 0) edge = true; if(std::abs(s.C[i]) >= thr) layer.insert(d); }
  all = base; for(int k = 0; k < sd && !base.empty(); ++k) { std::set<u128> nx; for(auto d : layer) for(auto e : exc(d, act, 1)) if(all.insert(e).second) nx.insert(e); layer = nx; }
  for(auto d : base) ok(G.count(d), "basis_misses_source", "%s", c.c_str()); if(edge) return; for(auto d : g) ok(all.count(d), "basis_foreign", "%s: %s", c.c_str(), orc::dstr(d, s.n).c_str());
  if(all.size() <= trunc) { ok(G == all, "basis", "%s: %zu determinants, want %zu", c.c_str(), G.size(), all.size()); cov("complete bases"); } else { ok(G.size() > trunc || G.size() == all.size(), "basis_short", "%s: %zu", c.c_str(), G.size()); cov("truncated bases"); } covmax("basis", g.size());
}
TEST("X05", "basis64", 60, 3000) { basis<64>(r); }
TEST("X05", "basis128", 60, 3000) { basis<128>(r); }
template <size_t N> void vectors(Rng& r) {
  auto s = mksys(r, 5, false); bool part = r.chance(.5); std::set<u128> S; for(auto d : s.v) for(size_t o = 0; o < s.n; ++o) for(int sp = 0; sp < 2; ++sp) if(r.chance(.8) && ladder(d, o + 64 * sp, part) != 0) S.insert(d ^ orc::bit(o + 64 * sp)); std::vector<u128> B(S.begin(), S.end()); r.shuffle(B); if(B.empty()) return;
  std::vector<int> orbs; std::vector<bool> up; for(int k = r.in(1, 4); k > 0; --k) { orbs.push_back(r.in(0, s.n - 1)); up.push_back(r.chance(.5)); } auto c = strf("width %zu norb=%zu %zu+%zu, %zu determinants into %zu, %s %s", N, s.n, s.na, s.nb, s.v.size(), B.size(), part ? "add" : "remove", ints(orbs).c_str()); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(s.I) + B.size());
  Eigen::VectorXd psi = Eigen::Map<Eigen::VectorXd>(s.C.data(), s.C.size()); std::vector<int> del{5}; Quiet q; auto W = ce::BuildWfn4Lanczos<N>(psi, orbs, up, tob<N>(s.v), tob<N>(B), part, del); std::map<u128, size_t> pos; for(size_t i = 0; i < B.size(); ++i) pos[B[i]] = i;
  std::vector<int> wd; std::vector<std::vector<double>> ww; bool edge = false; for(size_t k = 0; k < orbs.size(); ++k) { int so = orbs[k] + (up[k] ? 0 : 64); std::vector<double> x(B.size(), 0.); double nn = 0; for(size_t i = 0; i < s.v.size(); ++i) { double sg = ladder(s.v[i], so, part); auto it = pos.find(s.v[i] ^ orc::bit(so)); if(sg != 0 && it != pos.end()) x[it->second] += sg * s.C[i]; } for(double y : x) nn += y * y; if(nn > 1e-8 && nn < 1e-6) edge = true; if(nn <= 1e-7) wd.push_back(k); else ww.push_back(x); }
  if(edge) return; ok(del == wd, "vanishing_orbitals", "%s: %s want %s", c.c_str(), ints(del).c_str(), ints(wd).c_str()); if(!ok(W.size() == ww.size(), "vector_count", "%s", c.c_str())) return; for(size_t k = 0; k < W.size(); ++k) for(size_t i = 0; i < B.size(); ++i) near(W[k][i], ww[k][i], 1e-13, "vector", strf("%s vector %zu", c.c_str(), k)); cov("vectors", W.size()); cov("vanishing vectors", wd.size());
}
TEST("X05", "vectors64", 60, 3000) { vectors<64>(r); }
TEST("X05", "vectors128", 60, 3000) { vectors<128>(r); }
static void setgf(ce::Input_t& in, size_t n, const std::vector<int>& bo, const std::vector<bool>& bu, const std::vector<int>& co, const std::vector<bool>& cu, bool band, int sd) {
  in["norbs"] = strf("%zu", n); in["trunc_size"] = "100000"; in["tot_SD"] = strf("%d", sd); in["GFseedThresh"] = "0"; in["asThresh"] = "-1"; in["use_bandLan"] = band ? "T" : "F"; in["GF_orbs_basis"] = ints(bo); in["GF_orbs_comp"] = ints(co); in["is_up_basis"] = bools(bu); in["is_up_comp"] = bools(cu);
}
template <size_t N> void gf(Rng& r) {
  auto s = mksys(r, 4, r.chance(.5)); bool part = r.chance(.5), band = r.chance(.5), file = r.chance(.25); std::vector<int> bo, co; std::vector<bool> bu, cu; std::set<int> used;
  for(int k = r.in(1, 3); k > 0; --k) { int o = r.in(0, s.n - 1); bool u = r.chance(.6); if(!used.insert(2 * o + u).second) continue; co.push_back(o); cu.push_back(u); } for(size_t k = 0; k < co.size(); ++k) if(k == 0 || r.chance(.8)) { bo.push_back(co[k]); bu.push_back(cu[k]); } int sd = r.in(0, 4);
  ce::Input_t in; setgf(in, s.n, bo, bu, co, cu, band, sd); if(file) in["writeGF"] = "T"; if(r.chance(.3)) in["nLanIts"] = "500"; auto c = strf("width %zu norb=%zu %zu+%zu, %zu determinants, %s %s layers %d %s", N, s.n, s.na, s.nb, s.v.size(), part ? "add" : "remove", ints(co).c_str(), sd, band ? "band" : "one vector at a time"); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(s.I) + sd + 10 * part);
  // the basis the routine has to arrive at
  std::vector<int> act; for(size_t i = 0; i < s.n; ++i) if(s.occ[i] >= -1 && s.occ[i] <= 2) act.push_back(i); std::set<u128> all;
  for(size_t k = 0; k < bo.size(); ++k) { int so = bo[k] + (bu[k] ? 0 : 64); std::set<u128> one, layer; for(auto d : s.v) if(ladder(d, so, part) != 0) one.insert(d ^ orc::bit(so)); layer = one; for(int l = 0; l < sd; ++l) { std::set<u128> nx; for(auto d : layer) for(auto e : exc(d, act, 1)) if(one.insert(e).second) nx.insert(e); layer = nx; } all.insert(one.begin(), one.end()); }
  std::vector<u128> B(all.begin(), all.end()); size_t m = B.size(); covmax("basis", m); if(!m) { cov("no state to reach"); return; }
  auto D = orc::dense_h(s.I, B); Eigen::MatrixXd A = Eigen::Map<Eigen::MatrixXd>(D.data(), m, m); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < m; ++j) { if(std::abs(A(i, j)) <= 1e-6) { if(std::abs(A(i, j)) > .9e-6) return; A(i, j) = 0; } }
  std::vector<Eigen::VectorXd> X; std::vector<int> kept; for(size_t k = 0; k < co.size(); ++k) { int so = co[k] + (cu[k] ? 0 : 64); Eigen::VectorXd x = Eigen::VectorXd::Zero(m); for(size_t i = 0; i < s.v.size(); ++i) { double sg = ladder(s.v[i], so, part); if(sg == 0) continue; auto it = std::lower_bound(B.begin(), B.end(), s.v[i] ^ orc::bit(so)); if(it != B.end() && *it == (s.v[i] ^ orc::bit(so))) x(it - B.begin()) += sg * s.C[i]; } double nn = x.squaredNorm(); if(nn > 1e-8 && nn < 1e-6) return; if(nn > 1e-7) { X.push_back(x); kept.push_back(co[k]); } }
  size_t p = X.size(); Eigen::MatrixXd C(m, p); for(size_t k = 0; k < p; ++k) C.col(k) = X[k]; if(!p) { cov("no state to reach"); return; }
  if(band) { Eigen::MatrixXd Q(m, 0); double weak = 1; auto add = [&](Eigen::VectorXd x) { double nn = x.norm(); for(int rep = 0; rep < 3; ++rep) for(int j = 0; j < Q.cols(); ++j) x -= Q.col(j).dot(x) * Q.col(j); weak = std::min(weak, x.norm() / (nn + 1e-300)); Q.conservativeResize(m, Q.cols() + 1); Q.col(Q.cols() - 1) = x / x.norm(); }; for(size_t j = 0; j < p; ++j) add(C.col(j)); size_t nx = 0; while((size_t)Q.cols() < m && weak > 3e-3) add(A * Q.col(nx++)); if(weak <= 3e-3) { cov("near-deflated Krylov space skipped"); return; } }
  auto ws = freqs(r, 4); std::vector<std::vector<std::vector<cd>>> G; Eigen::VectorXd psi = Eigen::Map<Eigen::VectorXd>(s.C.data(), s.C.size()); Quiet q; Cwd cw; Ints J = s.I; dbwy::SDBuildHamiltonianGenerator<N> g1(s.n, J.V.data(), J.T.data()); dbwy::DoubleLoopHamiltonianGenerator<N> g2(s.n, J.V.data(), J.T.data()); bool sdb = r.chance(.5);
  if(!trymake("run", [&] { ce::RunGFCalc<N>(G, psi, sdb ? (dbwy::HamiltonianGenerator<N>&)g1 : g2, tob<N>(s.v), s.E, part, ws, s.occ, in); })) return;
  if(!ok(G.size() == ws.size(), "size", "%s", c.c_str())) return; cov(strf("%zu orbitals %s", p, band ? "band" : "single")); double sc = 2e-5 * (1 + orc::scale(s.I));
  for(size_t w = 0; w < ws.size(); ++w) { auto R = resolv(A, C, ws[w], s.E, part); if(!ok(G[w].size() == p, "orbitals", "%s: %zu want %zu", c.c_str(), G[w].size(), p)) return; for(size_t i = 0; i < p; ++i) for(size_t j = 0; j < p; ++j) ok(std::abs(G[w][i][j] - R(i, j)) <= sc / std::pow(std::abs(ws[w].imag()), 2), i == j ? "diagonal" : "off_diagonal", "%s w=(%g,%g) (%zu,%zu): (%g,%g) want (%g,%g)", c.c_str(), ws[w].real(), ws[w].imag(), i, j, G[w][i][j].real(), G[w][i][j].imag(), R(i, j).real(), R(i, j).imag()); }
  if(file) {
    const char* t = part ? "ADD" : "SUB"; bool mat = co.size() > 1; std::ifstream f(mat ? strf("LanGFMatrix_%s.dat", t) : strf("LanGF_%s_%d_%d.dat", t, co[0] + 1, co[0] + 1)); std::vector<double> want, got; double x; for(size_t w = 0; w < ws.size(); ++w) { want.push_back(ws[w].real()); want.push_back(ws[w].imag()); for(auto& a : G[w]) for(auto& b : a) { want.push_back(b.real()); want.push_back(b.imag()); } } while(f >> x) got.push_back(x); ok(got == want, "written_function", "%s: %zu numbers, want %zu", c.c_str(), got.size(), want.size());
    if(mat) { std::ifstream o(strf("GFMatrix_OrbitalIndices_%s.dat", t)); std::vector<int> g; int y; while(o >> y) g.push_back(y); ok(g == kept, "written_orbitals", "%s: %s want %s", c.c_str(), ints(g).c_str(), ints(kept).c_str()); } cov("files written");
  }
}
TEST("X05", "green_function64", 50, 2500) { gf<64>(r); }
TEST("X05", "green_function128", 30, 1500) { gf<128>(r); }
TEST("X05", "complete_run", 15, 600) {
  auto s = mksys(r, 3, true); double core = r.gauss(); size_t m = s.v.size(); if(s.n < 2) return; auto W = orc::jacobi(m, orc::dense_h(s.I, s.v)); if(m > 1 && W[1] - W[0] < .05) { cov("degenerate ground state skipped"); return; }
  // one orbital present in both sectors
  std::vector<int> co; std::vector<bool> cu; for(size_t o = 0; o < s.n && co.empty(); ++o) for(int sp = 0; sp < 2 && co.empty(); ++sp) { double oc = 0; for(size_t i = 0; i < m; ++i) if(s.v[i] >> (o + 64 * sp) & 1) oc += s.C[i] * s.C[i]; if(oc > 1e-3 && oc < 1 - 1e-3) { co.push_back(o); cu.push_back(sp == 0); } } if(co.empty()) { cov("no partly filled orbital"); return; }
  bool band = r.chance(.5); size_t nw = r.in(2, 5); double lo = -3, hi = 2.5, eta = r.uni(.3, 1.); ce::Input_t in; setgf(in, s.n, co, cu, co, cu, band, 8); for(auto& x : ce::Input_t{{"nups", strf("%zu", s.na)}, {"ndos", strf("%zu", s.nb)}, {"quiet", "T"}, {"real_ints", "T"}, {"fcidump_file", "dump"}, {"ntdets_max", strf("%zu", m + 10)}, {"ncdets_max", "1000"}, {"niter_max", "5"}, {"coeff_thresh", "1"}, {"nws", strf("%zu", nw)}, {"wmin", strf("%.17g", lo)}, {"wmax", strf("%.17g", hi)}, {"broad", strf("%.17g", eta)}}) in[x.first] = x.second;
  auto c = strf("norb=%zu %zu+%zu orbital %d %s", s.n, s.na, s.nb, co[0], band ? "band" : "single"); note(c); if(want_sample()) sample(c); nontrivial(orc::hashi(s.I)); Cwd cw; put("dump", dump(s.I, core)); Quiet q; double E = 0; std::vector<std::vector<std::vector<cd>>> G;
  if(!trymake("run", [&] { std::tie(E, G) = dbwy::run_asci_w_GF<64>(in); })) return; double sc = 1 + orc::scale(s.I); ok(E - core > W[0] - 1e-6 * sc, "below_full_ci", "%s", c.c_str()); if(E - core > W[0] + 1e-7 * sc) { cov("search stopped above the ground state"); return; }
  if(!ok(G.size() == nw, "size", "%s", c.c_str())) return; cov("ground states reached");
  for(size_t w = 0; w < nw; ++w) { cd z(lo + w * (hi - lo) / (nw - 1), eta), want = 0; int so = co[0] + (cu[0] ? 0 : 64); for(int part = 0; part < 2; ++part) { std::set<u128> all; for(auto d : s.v) if(ladder(d, so, part) != 0) all.insert(d ^ orc::bit(so)); std::set<u128> layer = all; while(!layer.empty()) { std::set<u128> nx; for(auto d : layer) for(auto e : exc(d, iota(s.n), 1)) if(all.insert(e).second) nx.insert(e); layer = nx; } std::vector<u128> B(all.begin(), all.end()); auto D = orc::dense_h(s.I, B); Eigen::VectorXd x = Eigen::VectorXd::Zero(B.size()); for(size_t i = 0; i < m; ++i) { double sg = ladder(s.v[i], so, part); if(sg != 0) x(std::lower_bound(B.begin(), B.end(), s.v[i] ^ orc::bit(so)) - B.begin()) += sg * s.C[i]; } want += resolv(Eigen::Map<Eigen::MatrixXd>(D.data(), B.size(), B.size()), x, z, s.E, part)(0, 0); }
    ok(std::abs(G[w][0][0] - want) < 3e-4 * sc / (eta * eta), "total_function", "%s w=(%g,%g): (%g,%g) want (%g,%g)", c.c_str(), z.real(), z.imag(), G[w][0][0].real(), G[w][0][0].imag(), want.real(), want.imag()); }
}
