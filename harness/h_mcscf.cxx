// O04: CASSCF end to end.  The orbital basis of the result is not returned, so the calls which transform the
// integrals are observed at link time (-Wl,--wrap); everything else is judged from those records and the results.
#define VH_MAIN
#define VH_MPI
#include "common.hpp"
#include "oracle.hpp"
#include "orb_common.hpp"
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/stdout_color_sinks.h>
#include <macis/types.hpp>
#include <macis/util/mcscf.hpp>
#undef I
using namespace vh;
using namespace macis;
using orc::u128; using orc::Ints;
using namespace orb;
struct Quiet { Quiet() { for(auto n : {"davidson", "ci_solver", "diis", "mcscf"}) if(!spdlog::get(n)) { if(getenv("VH_LOG")) spdlog::stdout_color_mt(n); else spdlog::null_logger_mt(n); } } };
#define QUIET static Quiet quiet_

// ------------------------------------------------------------------ observation
// What a transform of all orbitals did: of the caller's integrals, or further transforming an earlier result.  Any
// order of the two kinds is accepted; transforms which cannot be attributed leave the basis unknown.
struct Rec { size_t n2 = 0, n4 = 0; V U2, U4, T, W, T0, W0; double ort = 0; bool known = true; };
static Rec* rec = nullptr;
static size_t seen = 0;  // transforms observed by this process: none at all means that they are out of sight
static void track(size_t n, const V& X, const V& C, V& U, const V& orig, const V& last) {
  if(X == orig) U = C; else if(!last.empty() && X == last) U = matmul(U, C, n, n, n); else rec->known = false;
  if(U.size() != n * n) { rec->known = false; return; }
  auto S = matmul(transp(U, n, n), U, n, n, n); for(size_t i = 0; i < n; ++i) S[i + n * i] -= 1; double e = amax(S); if(!(e <= rec->ort)) rec->ort = e;
}
#define TWO _ZN5macis19two_index_transformEmmPKdmS1_mPdm
#define FOUR _ZN5macis20four_index_transformEmmPKdmS1_mPdm
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" {
void CAT(__real_, TWO)(size_t, size_t, const double*, size_t, const double*, size_t, double*, size_t) __attribute__((weak));
void CAT(__real_, FOUR)(size_t, size_t, const double*, size_t, const double*, size_t, double*, size_t) __attribute__((weak));
void CAT(__wrap_, TWO)(size_t n, size_t m, const double* X, size_t lx, const double* C, size_t lc, double* Y, size_t ly) {
  bool on = rec && n == m && rec->T0.size() == n * n; V x, c; auto get = [&](const double* p, size_t l) { V v(n * n); for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) v[i + n * j] = p[i + l * j]; return v; };
  if(on) x = get(X, lx), c = get(C, lc);
  CAT(__real_, TWO)(n, m, X, lx, C, lc, Y, ly);
  if(on) { ++rec->n2; ++seen; track(n, x, c, rec->U2, rec->T0, rec->T); rec->T = get(Y, ly); }
}
void CAT(__wrap_, FOUR)(size_t n, size_t m, const double* X, size_t lx, const double* C, size_t lc, double* Y, size_t ly) {
  bool on = rec && n == m && rec->T0.size() == n * n; V x, c(n * n); auto get = [&](const double* p, size_t ld) { V v(n * n * n * n); for(size_t l = 0; l < n; ++l) for(size_t k = 0; k < n; ++k) for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) v[i + n * (j + n * (k + n * l))] = p[i + ld * (j + ld * (k + ld * l))]; return v; };
  if(on) { x = get(X, lx); for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) c[i + n * j] = C[i + lc * j]; }
  CAT(__real_, FOUR)(n, m, X, lx, C, lc, Y, ly);
  if(on) { ++rec->n4; ++seen; track(n, x, c, rec->U4, rec->W0, rec->W); rec->W = get(Y, ly); }
}
}
template <class T> static bool same_everywhere(T x) { T y = x; MPI_Bcast(&y, sizeof(T), MPI_BYTE, 0, MPI_COMM_WORLD); return !memcmp(&x, &y, sizeof(T)); }

struct Prob { Split s; Ints I; size_t na, nb; double Ec; MCSCFSettings m; bool easy; size_t lt, lv, ld, lg; /* leading dimensions */ };
struct Res { double E = 0; V D, G; Rec r; bool threw = false; std::string why; };
static std::string desc(const Prob& p) { return strf("no=%zu ni=%zu na=%zu nv=%zu electrons %zu+%zu tol=%g step=%g iter=%zu diis=%d start %zu keep %zu ld %zu,%zu,%zu,%zu ranks=%d", p.s.no, p.s.ni, p.s.na, p.s.nv, p.na, p.nb, p.m.orb_grad_tol_mcscf, p.m.max_orbital_step, p.m.max_macro_iter, p.m.enable_diis, p.m.diis_start_iter, p.m.diis_nkeep, p.lt, p.lv, p.ld, p.lg, st().size); }
static Prob mk(Rng& r, size_t nmax) {
  Prob p; auto& s = p.s; s.no = r.in(2, nmax); s.na = r.in(1, std::min<size_t>(s.no, 4)); s.ni = r.in(0, s.no - s.na); s.nv = s.no - s.na - s.ni; p.I = orc::random_ints(r, s.no, 3);
  // a fully occupied or empty active space has nothing to correlate and no defined rotation against its neighbours
  if(s.na == 1) { bool b = r.chance(.5); p.na = b; p.nb = !b; } else do { p.na = r.in(0, s.na); p.nb = r.in(0, s.na); } while(p.na + p.nb == 0 || p.na + p.nb == 2 * s.na);
  p.Ec = r.chance(.3) ? 0 : 20 * r.gauss(); p.easy = r.chance(.7);
  p.lt = s.no; p.lv = s.no; p.ld = s.na; p.lg = s.na; if(r.chance(.3)) { p.lt += r.in(0, 2); p.lv += r.in(0, 1); p.ld += r.in(0, 2); p.lg += r.in(0, 1); }
  p.m.ci_max_subspace = 200; p.m.ci_res_tol = 1e-10; p.m.ci_matel_tol = 0;
  if(!p.easy) { p.m.max_orbital_step = r.pick({.5, .1, .02}); p.m.enable_diis = r.chance(.6); p.m.diis_start_iter = r.in(0, 6); p.m.diis_nkeep = r.in(1, 12); p.m.orb_grad_tol_mcscf = r.pick({1e-2, 1e-4, 5e-6, 1e-6}); if(r.chance(.3)) p.m.max_macro_iter = r.in(0, 4); }
  return p;
}
static Res run(const Prob& p, MPI_Comm c, const V* D = nullptr, const V* G = nullptr) {
  QUIET; Res q; size_t n = p.s.no, na = p.s.na; V T = pad2(p.I.T, n, n, p.lt), W = pad4(p.I.V, n, p.lv), T0 = T, W0 = W; q.D.assign(na * na, 0.); q.G.assign(na * na * na * na, 0.); if(D) q.D = *D; if(G) q.G = *G; V Dp = pad2(q.D, na, na, p.ld), Gp = pad4(q.G, na, p.lg); q.r.T0 = p.I.T; q.r.W0 = p.I.V; rec = &q.r;
  try { q.E = casscf_diis(p.m, NumElectron(p.na), NumElectron(p.nb), NumOrbital(n), NumInactive(p.s.ni), NumActive(na), NumVirtual(p.s.nv), p.Ec, T.data(), p.lt, W.data(), p.lv, Dp.data(), p.ld, Gp.data(), p.lg, c); }
  catch(const std::exception& e) { q.threw = true; q.why = e.what(); }
  rec = nullptr; ok(T == T0 && W == W0, "integrals_modified", "%s", desc(p).c_str()); ok(padding_kept(Dp, na, na, p.ld) && padding_kept4(Gp, na, p.lg), "padding_written", "%s", desc(p).c_str());
  q.D = unpad2(Dp, na, na, p.ld); q.G = unpad4(Gp, na, p.lg); if(p.lt > n || p.lv > n) cov("padded integrals"); if(p.ld > na || p.lg > na) cov("padded density matrices"); return q;
}
// the active Hamiltonian of integrals (T,W): inactive orbitals doubly occupied, everything from the second-quantised oracle
struct Act { V H; std::vector<u128> d; V W, Z; size_t low; };
static Act active(const Prob& p, const V& T, const V& W) {
  Act a; Ints J; J.n = p.s.no; J.T = T; J.V = W; a.d = orc::full_space(p.s.na, p.na, p.nb); u128 core = 0; for(size_t i = 0; i < p.s.ni; ++i) core |= orc::bit(i) | orc::bit(64 + i);
  auto D = a.d; for(auto& x : D) x = core | (x << p.s.ni); a.H = orc::dense_h(J, D); size_t m = D.size(); a.W = orc::jacobi(m, a.H, &a.Z); a.low = 0; for(size_t i = 1; i < m; ++i) if(a.H[i + m * i] < a.H[a.low + m * a.low]) a.low = i; return a;
}
static double spin2(const Act& a, size_t k, size_t na) { // <S^2> of level k
  std::map<u128, double> y; size_t m = a.d.size(); double sz = .5 * (orc::pop(a.d[0] & ~(u128)0 >> 64) - orc::pop(a.d[0] >> 64)), q = 0;
  for(size_t i = 0; i < m; ++i) for(size_t p = 0; p < na; ++p) { u128 d = a.d[i]; if(!(d >> (64 + p) & 1) || (d >> p & 1)) continue; int sg = orc::par(d, 64 + p); d ^= orc::bit(64 + p); sg *= orc::par(d, p); y[d ^ orc::bit(p)] += sg * a.Z[i + m * k]; }
  for(auto& [d, c] : y) q += c * c; return sz * (sz + 1) + q;
}

TEST("O04", "casscf", 200, 1500) {
  auto p = mk(r, st().thorough ? 7 : 6); auto ctx = desc(p); note(ctx); if(want_sample()) sample(ctx); auto& s = p.s; size_t n = s.no, na = s.na; nontrivial(orc::hashi(p.I) + 7 * s.ni + 31 * na + st().size);
  auto q = run(p, MPI_COMM_WORLD); ok(same_everywhere(q.threw), "ranks_disagree", "%s", ctx.c_str());
  if(q.threw) { cov("reported failure: " + q.why); ok(q.r.n4 >= 20 || !seen, "reported_failure", "%s: %s after %zu iterations", ctx.c_str(), q.why.c_str(), q.r.n4); return; }  // a diverged optimisation may be reported
  if(!ok(std::isfinite(q.E), "not_finite", "%s: %g", ctx.c_str(), q.E)) return;
  ok(same_everywhere(q.E) && same_everywhere(q.D[0]) && same_everywhere(q.G[q.G.size() - 1]), "differs_between_ranks", "%s", ctx.c_str());
  size_t it = q.r.n4; covmax("macro iterations", it); cov("transforms observed", it); ok(it <= p.m.max_macro_iter, "iteration_limit", "%s: %zu", ctx.c_str(), it);
  double sc = 1 + orc::scale(p.I) * n;
  // the densities belong to a state with the right number of electrons
  double tr = 0, trp = 0; for(size_t x = 0; x < na; ++x) { tr += q.D[x + na * x]; for(size_t y = 0; y < na; ++y) trp += q.G[x + na * (x + na * (y + na * y))]; } double ne = p.na + p.nb; close(tr, ne, 1e-8, "electron_count", "%s", ctx.c_str()); close(trp, .5 * ne * (ne - 1), 1e-7, "pair_count", "%s", ctx.c_str());
  // the basis of the result
  if(!q.r.known || !q.r.n2 != !it || (!seen && p.m.max_macro_iter)) { cov("orbitals of the result not observed"); return; }
  V T = p.I.T, W = p.I.V; if(it) { if(it < p.m.max_macro_iter || it < 5) close(q.r.ort, 0, 1e-10 * (1 + it), "rotation_not_orthogonal", "%s after %zu iterations", ctx.c_str(), it); close(cmp(q.r.U2, q.r.U4), 0, 1e-11 * (1 + it), "different_rotations", "%s: the two kinds of integrals", ctx.c_str()); T = tr2(p.I.T, n, q.r.U2, n); W = tr4(p.I.V, n, q.r.U2, n); close(cmp(T, q.r.T), 0, 1e-9 * sc, "transformed_T", "%s", ctx.c_str()); close(cmp(W, q.r.W), 0, 1e-9 * sc, "transformed_V", "%s", ctx.c_str()); }
  V D1, D2; full_rdms(s, q.D, q.G, D1, D2); close(p.Ec + energy(T, W, D1, D2), q.E, 1e-8 * sc, "energy_of_densities", "%s after %zu iterations", ctx.c_str(), it);
  // a CI state of the active space in that basis
  auto a = active(p, T, W); size_t m = a.d.size(); double e = q.E - p.Ec, best = 1e300; for(auto w : a.W) best = std::min(best, std::abs(w - e)); close(best, 0, 1e-8 * sc, "not_a_ci_level", "%s: off by %g", ctx.c_str(), best);
  // the lowest level of its spin: the iterations follow the state they start from, other spins are out of its reach
  size_t at = 0; for(size_t k = 1; k < m; ++k) if(std::abs(a.W[k] - e) < std::abs(a.W[at] - e)) at = k; double s2 = spin2(a, at, na); for(size_t k = 0; k < at; ++k) if(a.W[k] < a.W[at] - 1e-7 * sc) { if(!ok(std::abs(spin2(a, k, na) - s2) > 1e-3, "not_the_lowest_level", "%s: %.12g instead of %.12g, S2=%g", ctx.c_str(), a.W[at], a.W[k], s2)) break; }
  cov(a.W[at] > a.W[0] + 1e-7 * sc ? "another spin has a lower level" : "lowest CI level");
  auto FG = full_gradient(s, T, W, D1, D2); double g = 0; auto P = pairs(s); for(auto& [x, y] : P) g += FG[x + n * y] * FG[x + n * y]; g = std::sqrt(g); double rms = P.empty() ? 0 : g / std::sqrt((double)P.size());
  auto a0 = active(p, p.I.T, p.I.V); 
  if(it < p.m.max_macro_iter) { cov("converged"); ok(rms <= p.m.orb_grad_tol_mcscf * (1 + 1e-6) + 1e-9 * sc, "not_stationary", "%s: rms gradient %g after %zu iterations", ctx.c_str(), rms, it); }
  else if(p.m.max_macro_iter >= 100) cov("not converged in 100 iterations"); else cov("stopped early");
  if(p.m.max_macro_iter >= 100) { cov(e <= a0.W[0] + 1e-8 * sc ? "energy lowered" : "energy raised"); }
  if(P.empty()) cov("no rotations"); if(!s.ni) cov("no inactive"); if(!s.nv) cov("no virtual"); if(p.na != p.nb) cov("open shell");
  // variational: below no full-space level
  if(n <= 4 && q.r.ort < 1e-9) { auto full = orc::full_space(n, p.na + s.ni, p.nb + s.ni); auto F = orc::jacobi(full.size(), orc::dense_h(p.I, full)); ok(e >= F[0] - 1e-8 * sc, "below_full_ci", "%s: %g", ctx.c_str(), e - F[0]); }
}
TEST("O04", "constant_restart_and_ranks", 60, 500) {
  auto p = mk(r, 5); p.m.orb_grad_tol_mcscf = 1e-6; p.m.max_macro_iter = 100; auto ctx = desc(p); note(ctx); auto& s = p.s; size_t na = s.na; double sc = 1 + orc::scale(p.I) * s.no; nontrivial(orc::hashi(p.I) + 7 * s.ni + 31 * na + st().size); auto q = run(p, MPI_COMM_WORLD); if(q.threw) { ok(q.r.n4 >= 20 || !seen, "reported_failure", "%s: %s", ctx.c_str(), q.why.c_str()); return; }
  // the same calculation in one process and with another constant
  auto o = run(p, MPI_COMM_SELF); if(o.threw) { ok(o.r.n4 >= 20 || !seen, "reported_failure", "alone: %s", o.why.c_str()); return; } if(st().size == 1) close(q.E, o.E, 1e-11 * sc, "not_repeatable", "%s", ctx.c_str());
  // (over a few iterations: long paths may amplify rounding)
  { auto ps = p; ps.m.max_macro_iter = r.in(0, 3); auto a = run(ps, MPI_COMM_WORLD), b = run(ps, MPI_COMM_SELF); close(a.E, b.E, 1e-7 * sc, "depends_on_ranks", "%s", ctx.c_str()); ok(a.r.n4 == b.r.n4, "iterations_depend_on_ranks", "%s: %zu %zu", ctx.c_str(), a.r.n4, b.r.n4); }
  auto p2 = p; p2.Ec += 3.5; auto o2 = run(p2, MPI_COMM_SELF); if(!o2.threw) { ok(o2.r.n4 == o.r.n4, "constant_changes_path", "%s: %zu %zu", ctx.c_str(), o2.r.n4, o.r.n4); close(o2.E - 3.5, o.E, 1e-10 * sc, "constant", "%s", ctx.c_str()); } 
  if(o.r.n4 >= 100 || !o.r.n4) return;
  // continue from the converged orbitals and densities: nothing left to do
  auto p3 = p; p3.I.T = o.r.T; p3.I.V = o.r.W; p3.m.orb_grad_tol_mcscf *= 2 * std::sqrt(1. + nrot(s)); auto w = run(p3, MPI_COMM_SELF, &o.D, &o.G); ok(!w.threw && w.r.n4 == 0, "restart_iterates", "%s: %zu", ctx.c_str(), w.r.n4); close(w.E, o.E, 1e-8 * sc, "restart_energy", "%s", ctx.c_str()); ok(w.D == o.D && w.G == o.G, "passed_densities_modified", "%s", ctx.c_str());
  auto w2 = run(p3, MPI_COMM_SELF); ok(w2.E <= o.E + 1e-7 * sc, "restart_energy_raised", "%s: %g", ctx.c_str(), w2.E - o.E); { auto a = active(p3, o.r.T, o.r.W); if(std::abs(a.W[0] - (o.E - p.Ec)) < 1e-7 * sc) close(w2.E, o.E, 1e-7 * sc, "restart_energy_without_densities", "%s", ctx.c_str()); } cov("restarted");
  // densities of another number of electrons are not taken for a guess
  V D = o.D; for(auto& x : D) x *= .5; V G = o.G; for(auto& x : G) x += 1; auto w3 = run(p3, MPI_COMM_SELF, &D, &G); close(w3.E, w2.E, 1e-9 * sc, "foreign_densities_used", "%s", ctx.c_str());
}
// the stock settings find the minimum of ordinary problems
TEST("O04", "mostly_converges", 4, 20) {
  int bad = 0, up = 0, tot = 0; for(int k = 0; k < 16; ++k) { auto p = mk(r, 5); p.m = MCSCFSettings(); p.m.ci_max_subspace = 200; auto q = run(p, MPI_COMM_WORLD); ++tot; nontrivial(orc::hashi(p.I)); if(q.threw || q.r.n4 >= p.m.max_macro_iter) ++bad; else { auto a0 = active(p, p.I.T, p.I.V); if(q.E - p.Ec > a0.W[0] + 1e-8) ++up; covmax("iterations to converge", q.r.n4); } }
  covmax("of 16 not converged", bad); covmax("of 16 above the starting energy", up); ok(bad * 4 <= tot, "does_not_converge", "%d of %d", bad, tot);
}
