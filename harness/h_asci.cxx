// A01 determinant constraints, A02 determinant search, A03 growth and refinement.
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "oracle.hpp"
#include <boost/sort/pdqsort/pdqsort.hpp>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include <macis/asci/determinant_search.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#undef I
using namespace vh;
using namespace macis;
using orc::u128; using orc::Ints;
typedef std::vector<double> V;
struct Quiet { Quiet() { for(auto n : {"davidson", "ci_solver", "asci_search", "asci_grow", "asci_refine"}) if(!spdlog::get(n)) spdlog::null_logger_mt(n); } };
#define QUIET static Quiet quiet_
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
template <size_t N> Gen<N> make_gen(Ints& I) { size_t n = I.n; return Gen<N>(matrix_span<double>(I.T.data(), n, n), rank4_span<double>(I.V.data(), n, n, n, n)); }

// ------------------------------------------------------------------ A01
// Strings are plain integers here (at most 64 orbitals); a constraint is the set of its occupied top orbitals.
typedef uint64_t u64;
static int pc(u64 x) { return __builtin_popcountll(x); }
static u64 low(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
struct Con { u64 C; };
static bool has(u64 s, u64 C) { if(!C) return true; int m = __builtin_ctzll(C); return (s >> m) == (C >> m); }
static std::vector<u64> singles(u64 s, int n) { std::vector<u64> o; for(int i = 0; i < n; ++i) if(s >> i & 1) for(int a = 0; a < n; ++a) if(!(s >> a & 1)) o.push_back(s ^ (1ull << i) ^ (1ull << a)); return o; }
static std::vector<u64> doubles(u64 s, int n) {
  std::vector<u64> o;
  for(int i = 0; i < n; ++i) if(s >> i & 1) for(int j = 0; j < i; ++j) if(s >> j & 1) for(int a = 0; a < n; ++a) if(!(s >> a & 1)) for(int b = 0; b < a; ++b) if(!(s >> b & 1)) o.push_back(s ^ (1ull << i) ^ (1ull << j) ^ (1ull << a) ^ (1ull << b));
  return o;
}
template <size_t N> std::bitset<N> bs(u64 x) { std::bitset<N> b; for(int i = 0; i < 64 && (size_t)i < N; ++i) if(x >> i & 1) b[i] = 1; return b; }
template <size_t N> u64 ui(const std::bitset<N>& b) { u64 x = 0; for(size_t i = 0; i < N && i < 64; ++i) if(b[i]) x |= 1ull << i; return x; }
static u64 rstring(Rng& r, int n, int k) { std::vector<int> p(n); for(int i = 0; i < n; ++i) p[i] = i; if(r.chance(.3)) { int w = std::min(n, k + 3); std::vector<int> q(p.begin(), p.begin() + w); r.shuffle(q); u64 s = 0; for(int i = 0; i < k; ++i) s |= 1ull << q[i]; return s; } r.shuffle(p); u64 s = 0; for(int i = 0; i < k; ++i) s |= 1ull << p[i]; return s; }
static std::string bstr(u64 s, int n) { std::string o; for(int i = 0; i < n; ++i) o += (s >> i & 1) ? '1' : '0'; return o; }
// everything the constraint machinery says about one string and one constraint
template <size_t N> void one_constraint(u64 s, u64 C, int n, const std::bitset<N>& B, unsigned Cmin, size_t nos, size_t nod, const std::string& ctx) {
  auto D = bs<N>(s), T = bs<N>(C), O = full_mask<N>(n);
  ok(satisfies_constraint(D, T, Cmin) == has(s, C), "satisfies", "%s string %s constraint %s", ctx.c_str(), bstr(s, n).c_str(), bstr(C, n).c_str());
  auto check = [&](std::vector<u64> all, std::vector<std::bitset<N>>& got, size_t cnt, const char* what) {
    std::vector<u64> want; for(auto x : all) if(has(x, C)) want.push_back(x);
    std::vector<u64> g; bool in = true; for(auto& x : got) { g.push_back(ui(x)); in &= bs<N>(ui(x)) == x; }
    std::sort(want.begin(), want.end()); std::sort(g.begin(), g.end());
    ok(in && want == g, what, "%s string %s constraint %s: %zu generated, %zu expected", ctx.c_str(), bstr(s, n).c_str(), bstr(C, n).c_str(), g.size(), want.size());
    ok(cnt == want.size(), strf("%s_count", what).c_str(), "%s string %s constraint %s: %zu, %zu expected", ctx.c_str(), bstr(s, n).c_str(), bstr(C, n).c_str(), cnt, want.size());
    cov(strf("%s generated", what), g.size()); return want.size();
  };
  std::vector<std::bitset<N>> S{bs<N>(1), bs<N>(2)}, DD{bs<N>(1)};  // stale contents must not survive
  generate_constraint_singles(D, T, O, B, S); generate_constraint_doubles(D, T, O, B, DD);
  size_t ns = check(singles(s, n), S, count_constraint_singles(D, T, O, B), "singles"), nd = check(doubles(s, n), DD, count_constraint_doubles(D, T, O, B), "doubles");
  size_t h = ns + nd + ns * nos + (has(s, C) ? nos + nod + 1 : 0), g = constraint_histogram(D, nos, nod, T, O, B);
  ok(h == g, "histogram", "%s string %s constraint %s: %zu, %zu expected", ctx.c_str(), bstr(s, n).c_str(), bstr(C, n).c_str(), g, h);
}
template <size_t N> void excitations(Rng& r, int nmax) {
  int n = r.in(1, nmax), k = r.in(0, n); u64 s = rstring(r, n, k), C = 0; if(n > 20) k = std::min(k, 6), s = rstring(r, n, k);
  int m = r.in(0, std::min(n, 6)); 
  if(r.chance(.7)) { u64 t = s; auto alt = r.chance(.5) ? singles(s, n) : doubles(s, n); if(!alt.empty()) t = r.pick(alt); int c = 0; for(int i = n - 1; i >= 0 && c < m; --i) if(t >> i & 1) { C |= 1ull << i; ++c; } }  // reachable or nearly so
  else C = rstring(r, n, m);
  auto ctx = strf("N=%zu norb=%d", N, n); note(ctx + " " + bstr(s, n) + " " + bstr(C, n)); if(want_sample()) sample(ctx + " string " + bstr(s, n) + " constraint " + bstr(C, n)); nontrivial(s * 0x9E3779B97F4A7C15ull ^ (C << 3) ^ n ^ N << 50);
  cov(strf("constraint size %d", pc(C))); int Cm = C ? __builtin_ctzll(C) : n;
  one_constraint<N>(s, C, n, bs<N>(low(Cm)), Cm, r.in(0, 9), r.in(0, 30), ctx);
  if(n >= 4) { int q[4]; u64 x = rstring(r, n, 4); int c = 0; for(int i = n - 1; i >= 0; --i) if(x >> i & 1) q[c++] = i;
    auto t = make_triplet<N>(q[0], q[1], q[2]); ok(ui(t.C) == (1ull << q[0] | 1ull << q[1] | 1ull << q[2]) && t.B == bs<N>(low(q[2])) && (int)t.C_min == q[2], "make_triplet", "%s %d %d %d", ctx.c_str(), q[0], q[1], q[2]);
    auto u = make_quad<N>(q[0], q[1], q[2], q[3]); ok(ui(u.C) == x && u.B == bs<N>(low(q[3])) && (int)u.C_min == q[3], "make_quad", "%s", ctx.c_str()); }
}
TEST("A01", "excitations64", 300, 8000) { for(int i = 0; i < 20; ++i) excitations<64>(r, 10); }
TEST("A01", "excitations128", 300, 8000) { for(int i = 0; i < 20; ++i) excitations<128>(r, 10); }
TEST("A01", "excitations128_wide", 10, 200) { excitations<128>(r, 63); }
TEST("A01", "excitations256", 20, 400) { for(int i = 0; i < 5; ++i) excitations<256>(r, 20); }
template <size_t N> void far() {  // orbitals in the upper words
  for(unsigned k : {3u, 31u, 63u, 64u, 65u, 100u, 120u}) {
    auto chk = [&](auto c, std::vector<unsigned> v, const char* what) { std::bitset<N> w, b; for(auto x : v) w[x] = 1; for(unsigned i = 0; i < v.back(); ++i) b[i] = 1; ok(c.C == w && c.B == b && c.C_min == v.back(), what, "lowest orbital %u", v.back()); };
    if(throws([&] { chk(make_triplet<N>(k + 5, k + 2, k), {k + 5, k + 2, k}, "make_triplet_far"); chk(make_quad<N>(k + 7, k + 5, k + 2, k), {k + 7, k + 5, k + 2, k}, "make_quad_far"); })) fail("make_triplet_far", "throws for orbital %u", k);
  }
  nontrivial(N);
}
TEST("A01", "wide_masks", 1, 1) { far<256>(); }

template <class T> static std::vector<T> gatherv(const std::vector<T>& x, MPI_Comm c) {
  int n = x.size() * sizeof(T), sz; MPI_Comm_size(c, &sz); std::vector<int> cn(sz), di(sz); MPI_Allgather(&n, 1, MPI_INT, cn.data(), 1, MPI_INT, c); int t = 0; for(int i = 0; i < sz; ++i) { di[i] = t; t += cn[i]; }
  std::vector<T> o(t / sizeof(T)); MPI_Allgatherv(x.data(), n, MPI_BYTE, o.data(), cn.data(), di.data(), MPI_BYTE, c); return o;
}
template <size_t N> void distribution(Rng& r, int nmax) {
  int n = r.in(1, nmax), k = r.in(0, n), nu = r.in(1, 6), lev = r.in(0, 4); if(n > 12) k = std::min(k, 5), lev = std::min(lev, 2);
  std::set<u64> us; for(int i = 0; i < nu; ++i) us.insert(rstring(r, n, k)); if(r.chance(.4)) { u64 s = *us.begin(); us.clear(); us.insert(s); auto d = singles(s, n); for(int i = 0; i < nu && !d.empty(); ++i) us.insert(r.pick(d)); }
  std::vector<std::bitset<N>> ua; for(auto s : us) ua.push_back(bs<N>(s)); size_t ns = r.in(0, 20), nd = r.in(0, 60);
  MPI_Comm comm = r.chance(.3) ? MPI_COMM_SELF : MPI_COMM_WORLD; int sz; MPI_Comm_size(comm, &sz);
  auto ctx = strf("N=%zu norb=%d nalpha=%d strings=%zu levels=%d ranks=%d", N, n, k, us.size(), lev, sz); note(ctx); if(want_sample()) sample(ctx);
  u64 h = n * 1000 + lev * 100 + sz; for(auto s : us) h = h * 0x100000001b3ull ^ s; nontrivial(h); cov(strf("levels %d", lev)); cov(strf("%d alpha electrons", std::min(k, 6)));
  auto loc = dist_constraint_general<N>(lev, n, ns, nd, ua, comm);
  for(auto& c : loc) { u64 C = ui(c.C); int m = C ? __builtin_ctzll(C) : n; ok(bs<N>(C) == c.C && (int)c.C_min == m && c.B == bs<N>(low(m)), "constraint_fields", "%s: C=%s C_min=%u", ctx.c_str(), bstr(C, n).c_str(), c.C_min); cov(strf("constraints of size %d", pc(C))); }
  std::vector<u64> mine; for(auto& c : loc) mine.push_back(ui(c.C));
  auto all = gatherv(mine, comm); std::set<u64> uniq(all.begin(), all.end()); ok(uniq.size() == all.size(), "constraint_duplicated", "%s: %zu of %zu distinct", ctx.c_str(), uniq.size(), all.size());
  covmax("constraints", all.size()); if(sz > 1 && loc.empty()) cov("ranks without constraints");
  std::set<u64> reach; for(auto s : us) { reach.insert(s); for(auto x : singles(s, n)) reach.insert(x); for(auto x : doubles(s, n)) reach.insert(x); }
  cov("strings assigned", reach.size());
  for(auto x : reach) { int c = 0; for(auto C : all) c += has(x, C); if(!ok(c == 1, c ? "assigned_twice" : "lost", "%s: string %s satisfies %d of %zu constraints", ctx.c_str(), bstr(x, n).c_str(), c, all.size())) break; }
  if(n <= 10) for(u64 x = 0; x <= low(n); ++x) if(pc(x) == k) { int c = 0; for(auto C : all) c += has(x, C); if(!ok(c <= 1, "ambiguous", "%s: string %s", ctx.c_str(), bstr(x, n).c_str())) break; }
  // over all constraints the generated excitations are each string's singles and doubles, once
  if(r.chance(.3)) for(auto s : us) {
    std::vector<u64> S, D; std::vector<std::bitset<N>> t; auto O = full_mask<N>(n);
    for(auto C : all) { int m = C ? __builtin_ctzll(C) : n; t.clear(); generate_constraint_singles(bs<N>(s), bs<N>(C), O, bs<N>(low(m)), t); for(auto& x : t) S.push_back(ui(x)); t.clear(); generate_constraint_doubles(bs<N>(s), bs<N>(C), O, bs<N>(low(m)), t); for(auto& x : t) D.push_back(ui(x)); }
    auto ws = singles(s, n), wd = doubles(s, n); for(auto v : {&S, &D, &ws, &wd}) std::sort(v->begin(), v->end());
    ok(S == ws, "union_singles", "%s string %s: %zu of %zu", ctx.c_str(), bstr(s, n).c_str(), S.size(), ws.size()); ok(D == wd, "union_doubles", "%s string %s: %zu of %zu", ctx.c_str(), bstr(s, n).c_str(), D.size(), wd.size());
  }
}
TEST("A01", "distribution64", 150, 3000) { for(int i = 0; i < 4; ++i) distribution<64>(r, 10); }
TEST("A01", "distribution128", 150, 3000) { for(int i = 0; i < 4; ++i) distribution<128>(r, 10); }
TEST("A01", "distribution_wide", 6, 60) { distribution<128>(r, r.pick({16, 24, 33, 40})); }

// ------------------------------------------------------------------ A02
struct Less { bool operator()(u128 a, u128 b) const { return a < b; } };
struct Score { double v = 0, slack = 0, mag = 0; int n = 0; };
typedef std::map<u128, Score, Less> Scores;
// alpha and beta single and double excitations of d
static std::vector<std::pair<u128, int>> connected(u128 d, int n) {
  std::vector<std::pair<u128, int>> o; u64 a = (u64)d, b = (u64)(d >> 64); auto sa = singles(a, n), sb = singles(b, n);
  auto jn = [](u64 x, u64 y) { return (u128)x | (u128)y << 64; };
  for(auto x : sa) o.push_back({jn(x, b), 1}); for(auto y : sb) o.push_back({jn(a, y), 1});
  for(auto x : doubles(a, n)) o.push_back({jn(x, b), 2}); for(auto y : doubles(b, n)) o.push_back({jn(a, y), 2});
  for(auto x : sa) for(auto y : sb) o.push_back({jn(x, y), 2});
  return o;
}
struct Search { Ints I; size_t n, na, nb; std::vector<u128> core; V C; double E0; ASCISettings s; bool ties; };
static std::string desc(const Search& q) { return strf("norb=%zu electrons %zu+%zu core=%zu E0=%g h_el_tol=%g prune %g at %zu just_singles=%d level=%d ranks=%d", q.n, q.na, q.nb, q.core.size(), q.E0, q.s.h_el_tol, q.s.rv_prune_tol, q.s.pair_size_max, q.s.just_singles, q.s.constraint_level, st().size); }
// scores by their definition; slack: what screening and pruning may legitimately leave out
static Scores oracle(const Search& q, bool& singular) {
  Scores S; singular = false; double sc = 1 + orc::scale(q.I); std::map<u128, double, Less> diag;
  for(size_t i = 0; i < q.core.size(); ++i) for(auto [d, rank] : connected(q.core[i], q.n)) {
    if(rank == 2 && q.s.just_singles) continue;
    double h = orc::melem(q.I, d, q.core[i]); auto it = diag.find(d); if(it == diag.end()) it = diag.emplace(d, orc::melem(q.I, d, d)).first;
    double den = q.E0 - it->second; if(std::abs(den) < 1e-3 * sc) singular = true;
    double v = q.C[i] * h / den; auto& s = S[d]; s.v += v; s.mag += std::abs(v); ++s.n;
    if(std::abs(h) < q.s.h_el_tol * (1 + 1e-6) || std::abs(h * q.C[i]) < q.s.h_el_tol * (1 + 1e-6)) s.slack += std::abs(v);
  }
  for(auto& [d, s] : S) s.slack += 1e-11 * sc * s.mag + 1e-13 * sc + s.n * q.s.rv_prune_tol;
  return S;
}
static Search mk(Rng& r, size_t nmax, bool wide = false) {
  Search q; bool sing; int t = 0;
  do {
    q = Search(); q.n = wide ? nmax : r.size(1, nmax, 8, .015); int kind = r.pick({0, 0, 0, 1, 2, 3, 3, 4}); q.ties = kind == 1 || kind == 2; q.I = orc::random_ints(r, q.n, kind);
    size_t cap = wide ? 3 : q.n; q.na = r.in(0, cap); q.nb = r.in(0, cap); 
    u128 d = orc::rand_det(r, q.n, q.na, q.nb); std::set<u128, Less> cs{d}; size_t nc = wide ? r.in(1, 3) : r.size(1, 12, 120, .015); for(size_t k = 0; k < 4 * nc && cs.size() < nc; ++k) cs.insert(r.chance(.7) ? orc::excite(r, q.n, d, r.in(1, 3)) : orc::rand_det(r, q.n, q.na, q.nb));
    q.core.assign(cs.begin(), cs.end()); r.shuffle(q.core); double nr = 0; for(size_t i = 0; i < q.core.size(); ++i) { q.C.push_back(r.chance(.1) ? 1e-6 * r.gauss() : r.gauss()); nr += q.C[i] * q.C[i]; } nr = std::sqrt(nr); for(auto& c : q.C) c /= nr;
    if(kind == 1 && r.chance(.5)) for(auto& c : q.C) c = c > 0 ? .5 : -.5;
    double lo = 1e300; for(auto x : q.core) lo = std::min(lo, orc::melem(q.I, x, x)); q.E0 = lo - r.pick({0., .1, 1., 10.}) * (1 + r.uni());
    q.s.h_el_tol = r.pick({0., 0., 1e-8, 1e-3, .1}); q.s.just_singles = r.chance(.15); q.s.constraint_level = r.in(0, 4); q.s.rv_prune_tol = r.pick({0., 0., 1e-12, 1e-8}); q.s.pair_size_max = r.chance(.4) ? r.in(1, 60) : 20000;
    oracle(q, sing);
  } while(sing && ++t < 50);
  return q;
}
static void cover(const Search& q, const Scores& S) {
  cov(strf("constraint level %d", q.s.constraint_level)); if(q.s.just_singles) cov("singles only"); if(q.s.h_el_tol > 0) cov("screened"); if(q.s.pair_size_max < 100) cov("small buffer"); if(q.ties) cov("integrals with exact ties"); covmax("core determinants", q.core.size()); covmax("connected determinants", S.size()); cov("scores", S.size());
  nontrivial(orc::hashi(q.I) ^ orc::hashd(q.core[0]) ^ q.core.size() * 77 ^ st().size);
}
template <size_t N> std::vector<std::bitset<N>> tb(const std::vector<u128>& v) { std::vector<std::bitset<N>> r; for(auto x : v) r.push_back(orc::to_bitset<N>(x)); return r; }
#define ARGS q.E0, q.C, q.n, g.T(), g.G_red(), g.V_red(), g.G(), g.V(), g
template <size_t N> void contributions(Rng& r, size_t nmax, bool wide) {
  QUIET; auto q = mk(r, nmax, wide); bool sing; auto S = oracle(q, sing); if(sing) return; cover(q, S); auto ctx = desc(q); note(ctx); if(want_sample()) sample(ctx);
  auto I = q.I; auto g = make_gen<N>(I); auto core = tb<N>(q.core);
  auto judge = [&](const std::vector<std::pair<u128, double>>& p, const char* who, bool unique) {
    Scores R; for(auto& [d, v] : p) { auto& s = R[d]; s.v += v; ++s.n; }
    for(auto& [d, s] : R) { auto it = S.find(d); if(!ok(it != S.end(), strf("%s_foreign", who).c_str(), "%s: %s is not connected", ctx.c_str(), orc::dstr(d, q.n).c_str())) return; if(unique && !ok(s.n == 1, strf("%s_duplicate", who).c_str(), "%s: %s", ctx.c_str(), orc::dstr(d, q.n).c_str())) return; }
    for(auto& [d, s] : S) { auto it = R.find(d); double v = it == R.end() ? 0 : it->second.v; if(!close(v, s.v, s.slack, strf("%s_score", who).c_str(), "%s: %s (%d contributions)", ctx.c_str(), orc::dstr(d, q.n).c_str(), s.n)) return; }
  };
  auto flat = [&](auto& c) { std::vector<std::pair<u128, double>> p; for(auto& x : c) p.push_back({orc::from_bitset(x.state), x.rv}); return p; };
  { auto c = asci_contributions_standard<N>(q.s, core.begin(), core.end(), ARGS); judge(flat(c), "standard", false); }
  MPI_Comm comm = r.chance(.4) ? MPI_COMM_SELF : MPI_COMM_WORLD;
  { auto c = asci_contributions_constraint<N>(q.s, core.begin(), core.end(), ARGS, comm); auto f = flat(c); struct P { u64 a, b; double v; }; std::vector<P> x; for(auto& [d, v] : f) x.push_back({(u64)d, (u64)(d >> 64), v}); auto y = gatherv(x, comm); f.clear(); for(auto& p : y) f.push_back({(u128)p.a | (u128)p.b << 64, p.v}); judge(f, "constraint", true); }
  ok(I.T == q.I.T && I.V == q.I.V, "integrals_modified", "%s", ctx.c_str());
}
TEST("A01", "contributions64", 100, 2500) { contributions<64>(r, 5, false); }
TEST("A01", "contributions128", 100, 2500) { contributions<128>(r, 5, false); }
TEST("A02", "contributions64", 120, 2500) { contributions<64>(r, 5, false); }
TEST("A02", "contributions128", 120, 2500) { contributions<128>(r, 5, false); }
TEST("A02", "contributions_wide", 4, 40) { contributions<64>(r, r.pick({16, 31, 32}), true); contributions<128>(r, r.pick({17, 33}), true); }

// the verdict on one search result; returns the score gap at the cut (negative when it is within rounding)
static double judge_search(const Search& q, const Scores& S, const std::vector<u128>& got, size_t nmax, const std::string& ctx) {
  std::set<u128, Less> in(got.begin(), got.end()), core(q.core.begin(), q.core.end()); ok(in.size() == got.size(), "duplicate_determinant", "%s: %zu of %zu distinct", ctx.c_str(), in.size(), got.size());
  for(auto c : q.core) if(!ok(in.count(c), "core_lost", "%s: %s", ctx.c_str(), orc::dstr(c, q.n).c_str())) return -1;
  size_t sure = 0, maybe = 0; for(auto& [d, s] : S) if(!core.count(d)) { ++maybe; sure += std::abs(s.v) > s.slack; }
  size_t nc = q.core.size(), want = nmax > nc ? nmax - nc : 0, lo = std::min(want, sure), hi = std::min(want, maybe), sel = got.size() - nc;
  ok(sel >= lo && sel <= hi, "count", "%s: asked for %zu, got %zu, available %zu..%zu", ctx.c_str(), nmax, got.size(), nc + sure, nc + maybe); covmax("determinants selected", got.size()); if(sel == want) cov("limit reached"); else cov("everything taken");
  double worst = 1e300, best = -1; u128 wd = 0, bd = 0; double ws = 0, bsl = 0;
  for(auto d : got) if(!core.count(d)) { auto it = S.find(d); if(!ok(it != S.end(), "not_connected", "%s: %s", ctx.c_str(), orc::dstr(d, q.n).c_str())) return -1; double v = std::abs(it->second.v) + it->second.slack; if(v < worst) { worst = v; wd = d; ws = it->second.slack; } }
  for(auto& [d, s] : S) if(!core.count(d) && !in.count(d)) { double v = std::abs(s.v) - s.slack; if(v > best) { best = v; bd = d; bsl = s.slack; } }
  if(sel && best >= 0) ok(worst >= best, "better_left_out", "%s: limit %zu: %s (score %g) selected, %s (score %g) left out", ctx.c_str(), nmax, orc::dstr(wd, q.n).c_str(), worst - ws, orc::dstr(bd, q.n).c_str(), best + bsl);
  // how clear the cut is: least certain score selected less largest possible score left out
  double in_lo = 1e300, out_hi = 0; for(auto& [d, s] : S) if(!core.count(d)) { if(in.count(d)) in_lo = std::min(in_lo, std::abs(s.v) - s.slack); else out_hi = std::max(out_hi, std::abs(s.v) + s.slack); }
  if(sel < want && out_hi > 0) return -1;
  return in_lo - out_hi;
}
template <size_t N> void search(Rng& r, size_t nmax, bool wide) {
  QUIET; auto q = mk(r, nmax, wide); bool sing; auto S = oracle(q, sing); if(sing) return; cover(q, S); size_t nc = q.core.size();
  size_t lim = r.pick({(size_t)r.in(nc, nc + S.size() + 3), (size_t)r.in(nc, nc + S.size() / 2 + 1), nc + 1, nc, nc + S.size() + 50}); if(r.chance(.05)) lim = r.in(0, nc);
  auto ctx = desc(q) + strf(" limit=%zu", lim); note(ctx); if(want_sample()) sample(ctx); auto I = q.I; auto g = make_gen<N>(I); auto core = tb<N>(q.core);
  MPI_Comm comm = r.chance(.3) ? MPI_COMM_SELF : MPI_COMM_WORLD; int sz; MPI_Comm_size(comm, &sz);
  std::vector<std::bitset<N>> out; try { out = asci_search<N>(q.s, lim, core.begin(), core.end(), ARGS, comm); } catch(const std::exception& e) { fail("search_throws", "%s: %s", ctx.c_str(), e.what()); return; }
  std::vector<u128> got; for(auto& x : out) got.push_back(orc::from_bitset(x));
  double gap = judge_search(q, S, got, lim, ctx); if(gap < 0) cov("tied at the cut"); if(sz > 1) cov("distributed searches");
  std::vector<u64> h{0}; for(auto d : got) h[0] = h[0] * 0x100000001b3ull ^ orc::hashd(d); auto hs = gatherv(h, comm); for(auto x : hs) if(!ok(x == h[0], "ranks_disagree", "%s", ctx.c_str())) break;
  if(gap > 0 && r.chance(.5)) {  // no ties: neither the number of processes nor the division of work may matter
    auto s2 = q.s; s2.constraint_level = r.in(0, 4); auto o2 = asci_search<N>(s2, lim, core.begin(), core.end(), ARGS, sz > 1 ? MPI_COMM_SELF : MPI_COMM_WORLD); std::set<u128, Less> a(got.begin(), got.end()), b; for(auto& x : o2) b.insert(orc::from_bitset(x)); ok(a == b, "depends_on_ranks", "%s", ctx.c_str()); cov("compared over communicators");
  }
}
TEST("A02", "search64", 200, 4000) { search<64>(r, 5, false); }
TEST("A02", "search128", 120, 2500) { search<128>(r, 5, false); }
TEST("A02", "search_wide", 4, 40) { search<64>(r, r.pick({16, 31, 32}), true); search<128>(r, r.pick({17, 33}), true); }

template <size_t N> void sorting(Rng& r) {
  typedef std::bitset<N> W; asci_contrib_container<W> a; size_t m = r.in(0, 60), nd = r.in(1, 12); std::vector<W> pool(nd); for(auto& w : pool) for(size_t i = 0; i < N; ++i) w[i] = r.chance(.5); for(size_t i = 0; i < m; ++i) a.push_back({r.pick(pool), r.chance(.1) ? 0. : r.gauss()});
  std::map<std::string, std::pair<double, double>> R; for(auto& x : a) { auto k = x.state.to_string(); auto it = R.find(k); if(it == R.end()) R[k] = {x.rv, x.rv}; else { it->second.first += x.rv; it->second.second = std::max(it->second.second, x.rv); } } nontrivial(m * 1000 + nd + r.u64() % 1000);
  auto b = a, c = a; sort_and_accumulate_asci_pairs(b); keep_only_largest_copy_asci_pairs(c);
  auto chk = [&](auto& v, bool sum, const char* what) { bool good = v.size() == R.size(); for(size_t i = 0; i < v.size() && good; ++i) { auto it = R.find(v[i].state.to_string()); good = it != R.end() && std::abs(v[i].rv - (sum ? it->second.first : it->second.second)) <= (sum ? 1e-12 : 0) && (!i || bitset_less(v[i - 1].state, v[i].state)); } ok(good, what, "N=%zu m=%zu distinct=%zu", N, m, R.size()); };
  chk(b, true, "sort_and_accumulate"); chk(c, false, "keep_only_largest"); cov("pairs sorted", m);
  // part of a container
  if(m > 4) { auto d = a; size_t f = r.in(0, m); auto e = sort_and_accumulate_asci_pairs(d.begin() + f, d.end()); bool same = true; for(size_t i = 0; i < f; ++i) same &= d[i].state == a[i].state && d[i].rv == a[i].rv; double s1 = 0, s2 = 0; for(size_t i = f; i < m; ++i) s1 += a[i].rv; for(auto it = d.begin() + f; it != e; ++it) s2 += it->rv; ok(same, "partial_prefix", "m=%zu from %zu", m, f); close(s2, s1, 1e-11, "partial_sum", "m=%zu from %zu", m, f); }
  V C(m); std::vector<W> dets(m); for(size_t i = 0; i < m; ++i) { C[i] = r.chance(.2) ? .25 * r.in(-2, 2) : r.gauss(); dets[i] = a[i].state; } auto C0 = C; auto d0 = dets; reorder_ci_on_coeff(dets, C);
  bool good = C.size() == m && dets.size() == m; std::multiset<std::pair<double, std::string>> x, y; for(size_t i = 0; i < m && good; ++i) { good = !i || std::abs(C[i]) <= std::abs(C[i - 1]); x.insert({C[i], dets[i].to_string()}); y.insert({C0[i], d0[i].to_string()}); } ok(good && x == y, "reorder", "m=%zu", m);
}
TEST("A02", "sorting", 300, 6000) { sorting<32>(r); sorting<64>(r); sorting<128>(r); sorting<256>(r); }

// ------------------------------------------------------------------ A03
struct Run { double E = 0; std::vector<u128> d; V X; bool threw = false; std::string why; };
template <size_t N, class T> Run pack(const T& t) { Run o; o.E = std::get<0>(t); for(auto& x : std::get<1>(t)) o.d.push_back(orc::from_bitset(x)); o.X = std::get<2>(t); return o; }
template <size_t N> struct Sys { Ints I; Gen<N> g; explicit Sys(const Ints& i) : I(i), g(make_gen<N>(I)) {} };
// energy, coefficients and determinants describe one eigenpair, in the integrals the generator now holds
static void judge_state(const Ints& I, const Run& o, size_t na, size_t nb, double restol, MPI_Comm comm, const std::string& ctx) {
  size_t m = o.d.size(), n = I.n; double sc = 1 + orc::scale(I) * n; std::set<u128, Less> u(o.d.begin(), o.d.end()); if(!ok(u.size() == m, "duplicate_determinant", "%s: %zu of %zu", ctx.c_str(), u.size(), m)) return;
  for(auto d : o.d) if(!ok(orc::pop((u64)d) == (int)na && orc::pop(d >> 64) == (int)nb && ((u64)d & ~low(n)) == 0 && ((u64)(d >> 64) & ~low(n)) == 0, "outside_sector", "%s: %s", ctx.c_str(), orc::dstr(d, n).c_str())) return;
  if(!ok(o.X.size() == m, "coefficient_count", "%s: %zu for %zu", ctx.c_str(), o.X.size(), m)) return;
  struct H { double e; u64 x, d; } h{o.E, vh::fnv(o.X.data(), 8 * m), 0}; for(auto d : o.d) h.d = h.d * 0x100000001b3ull ^ orc::hashd(d); auto hs = gatherv(std::vector<H>{h}, comm); for(auto& x : hs) if(!ok(x.d == h.d && x.x == h.x && std::abs(x.e - h.e) <= 1e-12 * sc, "ranks_disagree", "%s", ctx.c_str())) break;
  if(st().rank) return;
  auto A = orc::dense_h(I, o.d); double nr = 0; for(auto x : o.X) nr += x * x; close(nr, 1, 1e-8, "not_normalised", "%s", ctx.c_str());
  double res = 0; for(size_t i = 0; i < m; ++i) { double y = -o.E * o.X[i]; for(size_t j = 0; j < m; ++j) y += A[i + m * j] * o.X[j]; res += y * y; } close(std::sqrt(res), 0, 2 * restol + 1e-10 * sc, "residual", "%s: %zu determinants E=%.12g", ctx.c_str(), m, o.E);
  if(m > 220) { cov("states without a dense reference"); return; }
  V Z; auto W = orc::jacobi(m, A, &Z); double lowd = 1e300; for(size_t i = 0; i < m; ++i) lowd = std::min(lowd, A[i + m * i]);
  double want = -1e300; for(size_t i = 0; i < m; ++i) if(A[i + m * i] <= lowd + 1e-9 * sc) { for(size_t k = 0; k < m; ++k) { double w = 0; for(size_t l = 0; l < m; ++l) if(std::abs(W[l] - W[k]) < 1e-9 * sc) w += Z[i + m * l] * Z[i + m * l]; if(w > 1e-10) { want = std::max(want, W[k]); break; } } }
  ok(o.E <= want + 2 * restol + 1e-9 * sc && o.E >= W[0] - 1e-9 * sc, "not_the_lowest", "%s: E=%.12g, lowest %.12g, lowest reached from the lowest determinant %.12g", ctx.c_str(), o.E, W[0], want); cov(std::abs(o.E - W[0]) < 1e-8 * sc ? "lowest states" : "lowest states of their symmetry"); covmax("determinants in a state", m);
}
struct Case { Ints I; size_t n, na, nb, S1; ASCISettings a; MCSCFSettings m; u128 hf; std::string ctx; };
static Case mkcase(Rng& r) {
  Case c; size_t lim = r.size(0, 0, 1, .04) ? 400 : st().thorough ? 225 : 100; do { c.n = r.in(2, 6); c.na = r.in(0, c.n); c.nb = r.in(0, c.n); c.S1 = 1; for(size_t k = 0; k < c.na; ++k) c.S1 = c.S1 * (c.n - k) / (k + 1); size_t q = 1; for(size_t k = 0; k < c.nb; ++k) q = q * (c.n - k) / (k + 1); c.S1 *= q; } while(c.S1 < 2 || c.S1 > lim);
  c.I = orc::random_ints(r, c.n, r.chance(.8) ? 3 : 0); c.hf = 0; for(size_t i = 0; i < c.na; ++i) c.hf |= orc::bit(i); for(size_t i = 0; i < c.nb; ++i) c.hf |= orc::bit(64 + i);
  c.a.ntdets_min = r.in(2, 20); c.a.ncdets_max = r.chance(.4) ? 1000 : r.in(1, 20); c.a.h_el_tol = 0; c.a.rv_prune_tol = 0; c.a.pair_size_max = r.chance(.2) ? r.in(10, 200) : 20000; c.a.grow_factor = r.in(2, 8); c.a.constraint_level = r.in(0, 3);
  c.m.ci_max_subspace = 300; c.m.ci_res_tol = 1e-9; c.m.ci_matel_tol = 0; c.ctx = strf("norb=%zu electrons %zu+%zu sector=%zu", c.n, c.na, c.nb, c.S1); return c;
}
template <size_t N> Run start(const Case& c) { Run o; o.d = {c.hf}; o.X = {1.}; o.E = orc::melem(c.I, c.hf, c.hf); return o; }
template <size_t N> Run iterate(Sys<N>& s, const Case& c, size_t lim, const Run& in, MPI_Comm comm) { QUIET; try { return pack<N>(asci_iter<N>(c.a, c.m, lim, in.E, tb<N>(in.d), in.X, s.g, c.n, comm)); } catch(const std::exception& e) { Run o; o.threw = true; o.why = e.what(); return o; } }
template <size_t N> Run grow(Sys<N>& s, const Case& c, const Run& in, MPI_Comm comm) { QUIET; try { return pack<N>(asci_grow<N>(c.a, c.m, in.E, tb<N>(in.d), in.X, s.g, c.n, comm)); } catch(const std::exception& e) { Run o; o.threw = true; o.why = e.what(); return o; } }
template <size_t N> Run refine(Sys<N>& s, const Case& c, const Run& in, MPI_Comm comm) { QUIET; try { return pack<N>(asci_refine<N>(c.a, c.m, in.E, tb<N>(in.d), in.X, s.g, c.n, comm)); } catch(const std::exception& e) { Run o; o.threw = true; o.why = e.what(); return o; } }
static size_t reach(const Case& c) { return 1 + connected(c.hf, c.n).size(); }  // every determinant has as many neighbours
static u64 hcase(const Case& c) { return orc::hashi(c.I) ^ c.na * 31 ^ c.nb * 1001 ^ (u64)st().size << 40; }
template <size_t N> void iterations(Rng& r) {
  auto c = mkcase(r); nontrivial(hcase(c)); MPI_Comm comm = r.chance(.2) ? MPI_COMM_SELF : MPI_COMM_WORLD; Sys<N> s(c.I), s1(c.I); Run o = start<N>(c); c.ctx += strf(" core<=%zu ranks=%d", c.a.ncdets_max, st().size); note(c.ctx); if(want_sample()) sample(c.ctx);
  for(int k = 0; k < 4; ++k) {
    size_t lim = std::min<size_t>(c.S1, o.d.size() * r.in(1, 5) + r.in(0, 10)); auto p = iterate<N>(s, c, lim, o, comm); auto ctx = c.ctx + strf(" iteration %d limit %zu", k, lim);
    if(p.threw) { fail("iteration_throws", "%s: %s", ctx.c_str(), p.why.c_str()); return; }
    // the search of this iteration, with the largest coefficients as core
    Search q; q.I = c.I; q.n = c.n; q.na = c.na; q.nb = c.nb; q.E0 = o.E; q.s = c.a; std::vector<size_t> ix(o.d.size()); for(size_t i = 0; i < ix.size(); ++i) ix[i] = i; std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return std::abs(o.X[a]) > std::abs(o.X[b]); });
    size_t nc = std::min(c.a.ncdets_max, ix.size()); bool clear = nc == ix.size() || std::abs(o.X[ix[nc - 1]]) > std::abs(o.X[ix[nc]]) + 1e-7; for(size_t i = 0; i < nc; ++i) { q.core.push_back(o.d[ix[i]]); q.C.push_back(o.X[ix[i]]); }
    bool sing; auto S = oracle(q, sing); double gap = -1; if(clear && !sing) { gap = judge_search(q, S, p.d, lim, ctx); cov("searches judged"); } else cov("core or denominators ambiguous");
    judge_state(c.I, p, c.na, c.nb, c.m.ci_res_tol, comm, ctx);
    if(gap > 1e-6) { auto z = iterate<N>(s1, c, lim, o, comm == MPI_COMM_SELF ? MPI_COMM_WORLD : MPI_COMM_SELF); if(z.threw) { fail("iteration_throws", "%s: %s", ctx.c_str(), z.why.c_str()); return; } std::set<u128, Less> a(p.d.begin(), p.d.end()), b(z.d.begin(), z.d.end()); ok(a == b, "selection_depends_on_ranks", "%s", ctx.c_str()); if(a == b && c.na != c.nb) close(z.E, p.E, 1e-7, "energy_depends_on_ranks", "%s", ctx.c_str()); cov("compared over communicators"); }
    if(p.d.size() == c.S1) cov("whole sector reached"); if(p.d.size() < o.d.size()) cov("wavefunction shrank"); o = p; ok(s.I.T == c.I.T && s.I.V == c.I.V, "integrals_modified", "%s", ctx.c_str());
  }
}
TEST("A03", "iterations64", 60, 1200) { iterations<64>(r); }
TEST("A03", "iterations128", 40, 800) { iterations<128>(r); }
static bool nonzero(const Ints& I) { for(auto x : I.T) if(x == 0) return false; for(auto x : I.V) if(x == 0) return false; return true; }
template <size_t N> void growth(Rng& r) {
  auto c = mkcase(r); nontrivial(hcase(c)); MPI_Comm comm = r.chance(.2) ? MPI_COMM_SELF : MPI_COMM_WORLD; Sys<N> s(c.I); auto o = start<N>(c);
  size_t rc = reach(c); c.a.ntdets_max = r.chance(.2) ? c.S1 : r.chance(.6) ? r.in(1, rc) : r.in(1, c.S1); c.a.grow_with_rot = r.chance(.5); c.a.rot_size_start = r.in(1, 30); c.ctx += strf(" target=%zu core<=%zu min=%zu factor=%zu rot=%d from %zu ranks=%d", c.a.ntdets_max, c.a.ncdets_max, c.a.ntdets_min, c.a.grow_factor, c.a.grow_with_rot, c.a.rot_size_start, st().size); note(c.ctx); if(want_sample()) sample(c.ctx);
  auto p = grow<N>(s, c, o, comm); double sc = 1 + orc::scale(c.I) * c.n;
  if(p.threw) { cov("reported: " + p.why); ok(p.why.find("grow enough") != std::string::npos, "growth_throws", "%s: %s", c.ctx.c_str(), p.why.c_str()); ok(c.a.ntdets_max > rc || !nonzero(c.I) || c.a.grow_with_rot, "gave_up", "%s: %zu determinants are within reach", c.ctx.c_str(), rc); return; }
  ok(p.d.size() == std::max<size_t>(c.a.ntdets_max, 1), "target_size", "%s: %zu", c.ctx.c_str(), p.d.size());
  auto Ir = s.I; judge_state(Ir, p, c.na, c.nb, c.m.ci_res_tol, comm, c.ctx);
  bool rot = Ir.T != c.I.T; if(rot) {
    cov("rotated growths"); ok(c.a.grow_with_rot, "unexpected_rotation", "%s", c.ctx.c_str());
    auto w0 = orc::jacobi(c.n, c.I.T), w1 = orc::jacobi(c.n, Ir.T); for(size_t i = 0; i < c.n; ++i) close(w1[i], w0[i], 1e-9 * sc, "rotation_not_orthogonal", "%s", c.ctx.c_str()); double f0 = 0, f1 = 0; for(auto x : c.I.V) f0 += x * x; for(auto x : Ir.V) f1 += x * x; close(f1, f0, 1e-9 * sc * sc, "rotation_not_orthogonal_V", "%s", c.ctx.c_str());
    // the generator's derived tensors are those of its integrals
    Sys<N> f(Ir); size_t n = c.n; double e = 0; for(size_t i = 0; i < n * n * n; ++i) e = std::max({e, std::abs(f.g.G_red()[i] - s.g.G_red()[i]), std::abs(f.g.V_red()[i] - s.g.V_red()[i])}); for(size_t i = 0; i < n * n * n * n; ++i) e = std::max(e, std::abs(f.g.G()[i] - s.g.G()[i])); close(e, 0, 1e-10 * sc, "stale_intermediates", "%s", c.ctx.c_str());
    std::vector<u64> h{vh::fnv(Ir.V.data(), 8 * Ir.V.size(), vh::fnv(Ir.T.data(), 8 * Ir.T.size()))}; auto hs = gatherv(h, comm); for(auto x : hs) ok(x == h[0], "ranks_disagree_on_integrals", "%s", c.ctx.c_str());
  } else ok(Ir.V == c.I.V, "integrals_modified", "%s", c.ctx.c_str());
  if(p.d.size() == c.S1 && c.S1 > 1) { auto full = orc::full_space(c.n, c.na, c.nb); auto W = orc::jacobi(full.size(), orc::dense_h(c.I, full)); double best = 1e300; for(auto w : W) best = std::min(best, std::abs(w - p.E)); close(best, 0, 1e-8 * sc, "full_sector", "%s: E=%.12g", c.ctx.c_str(), p.E); cov("grown to full CI"); }
  // refinement from there
  c.a.max_refine_iter = r.in(1, 12); c.a.refine_energy_tol = r.pick({1e-2, 1e-4, 1e-6}); auto ctx = c.ctx + strf(" refine<=%zu to %g", c.a.max_refine_iter, c.a.refine_energy_tol); note(ctx); if(r.chance(.3)) c.a.ncdets_max = r.in(1, p.d.size() + 2);
  auto f = refine<N>(s, c, p, comm);
  if(f.threw) { cov("reported: " + f.why); ok(f.why.find("not converge") != std::string::npos || f.why.find("size can't change") != std::string::npos, "refine_throws", "%s: %s", ctx.c_str(), f.why.c_str()); return; }
  ok(f.d.size() == p.d.size(), "refine_size", "%s: %zu", ctx.c_str(), f.d.size()); auto If = s.I; ok(If.T == Ir.T && If.V == Ir.V, "integrals_modified", "%s", ctx.c_str()); judge_state(If, f, c.na, c.nb, c.m.ci_res_tol, comm, ctx); cov("refined");
  // converged: one more step from the result stays within the tolerance of a step, most of the time; the size is kept in any case
}
TEST("A03", "growth64", 120, 2500) { growth<64>(r); }
TEST("A03", "growth128", 60, 1200) { growth<128>(r); }
// a wavefunction which already is the best of its size does not move
TEST("A03", "fixed_point", 20, 300) {
  auto c = mkcase(r); nontrivial(hcase(c)); Sys<64> s(c.I); c.a.ntdets_max = c.S1; c.a.ncdets_max = 1000; c.ctx += strf(" ranks=%d", st().size); note(c.ctx); auto p = iterate<64>(s, c, c.S1, start<64>(c), MPI_COMM_WORLD); for(int k = 0; k < 8 && !p.threw && p.d.size() < c.S1; ++k) p = iterate<64>(s, c, c.S1, p, MPI_COMM_WORLD); if(p.threw) { fail("iteration_throws", "%s: %s", c.ctx.c_str(), p.why.c_str()); return; } if(p.d.size() < c.S1) { cov("sector not spanned"); return; }
  c.a.max_refine_iter = 2; c.a.refine_energy_tol = 1e-7; auto f = refine<64>(s, c, p, MPI_COMM_WORLD); if(f.threw) { fail("refine_of_full_ci", "%s: %s", c.ctx.c_str(), f.why.c_str()); return; } close(f.E, p.E, 1e-7, "refine_moves_full_ci", "%s", c.ctx.c_str()); cov("full CI refined");
}
