// O01 transforms, O02 active-space folding, O03 orbital rotations, O05 MP2, O06 optimisers, F01 FCIDUMP and density files.
#define VH_MAIN
#include "common.hpp"
#include "oracle.hpp"
#include "orb_common.hpp"
#include <spdlog/spdlog.h>
#include <spdlog/sinks/null_sink.h>
#include <macis/util/transform.hpp>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_energies.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_steps.hpp>
#include <macis/util/moller_plesset.hpp>
#include <macis/util/diis.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/util/binary_rdms.hpp>
#include <macis/bfgs/bfgs.hpp>
#undef I
using namespace vh;
using namespace macis;
using orc::u128; using orc::Ints;
using namespace orb;
struct Quiet { Quiet() { for(auto n : {"diis", "bfgs", "line_search", "fcidump_quiet"}) if(!spdlog::get(n)) spdlog::null_logger_mt(n); } };
#define QUIET static Quiet quiet_
// ------------------------------------------------------------------ O01
static V coeffs(Rng& r, size_t n, size_t m, std::string& name) {
  V C(n * m, 0.); int k = r.in(0, 4);
  if(k == 0) { name = "dense"; C = rnd(r, n * m); }
  else if(k == 1) { name = "sub-permutation"; std::vector<size_t> p(n); for(size_t i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for(size_t j = 0; j < m; ++j) C[p[j % n] + n * j] = 1; }
  else if(k == 2) { name = "sparse"; for(auto& x : C) if(r.chance(.3)) x = r.gauss(); }
  else if(k == 3) { name = "wide range"; for(auto& x : C) x = r.gauss() * std::pow(10., r.in(-5, 2)); }
  else { name = "rank one"; V a = rnd(r, n), b = rnd(r, m); for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < n; ++i) C[i + n * j] = a[i] * b[j]; }
  return C;
}
TEST("O01", "two_index", 36000, 720000) {
  size_t n = r.size(1, 12, 90, .004), m = r.size(1, 12, 90, .004), lx = n + r.in(0, 3), lc = n + r.in(0, 3), ly = m + r.in(0, 3); std::string nm; V X = rnd(r, n * n), C = coeffs(r, n, m, nm); // X is not symmetric
  auto Xp = pad2(X, n, n, lx), Cp = pad2(C, n, m, lc), Xc = Xp, Cc = Cp; V Y(ly * (m - 1) + m, PAD);
  auto ctx = strf("n=%zu m=%zu ldx=%zu ldc=%zu ldy=%zu C %s", n, m, lx, lc, ly, nm.c_str()); note(ctx); nontrivial(fnv(X.data(), 8 * n * n, fnv(C.data(), 8 * n * m))); cov(nm); if(want_sample()) sample(ctx);
  two_index_transform(n, m, Xp.data(), lx, Cp.data(), lc, Y.data(), ly);
  double sc = 1 + amax(X) * amax(C) * amax(C) * n * n; ok(cmp(unpad2(Y, m, m, ly), tr2(X, n, C, m)) <= 1e-13 * sc, "value", "%s: off by %g", ctx.c_str(), cmp(unpad2(Y, m, m, ly), tr2(X, n, C, m)));
  ok(padding_kept(Y, m, m, ly), "padding_written", "%s", ctx.c_str()); ok(Xp == Xc && Cp == Cc, "input_modified", "%s", ctx.c_str());
  if(n == m) { cov("in place"); two_index_transform(n, n, Xp.data(), lx, Cp.data(), lc, Xp.data(), lx); ok(cmp(unpad2(Xp, n, n, lx), tr2(X, n, C, n)) <= 1e-13 * sc, "in_place", "%s", ctx.c_str()); }
}
TEST("O01", "four_index", 14400, 300000) {
  size_t n = r.size(1, 6, 15, .005), m = r.size(1, 6, 15, .005), lx = n + (r.chance(.5) ? 0 : r.in(1, 2)), lc = n + r.in(0, 3), ly = m + (r.chance(.5) ? 0 : r.in(1, 2)); std::string nm; V X = rnd(r, n * n * n * n), C = coeffs(r, n, m, nm);
  auto Xp = pad4(X, n, lx), Cp = pad2(C, n, m, lc), Xc = Xp, Cc = Cp; V Y(pad4(V(m * m * m * m, 0.), m, ly).size(), PAD);
  auto ctx = strf("n=%zu m=%zu ldx=%zu ldc=%zu ldy=%zu C %s", n, m, lx, lc, ly, nm.c_str()); note(ctx); nontrivial(fnv(X.data(), 8 * X.size(), fnv(C.data(), 8 * n * m))); cov(nm); if(m != n) cov("rectangular"); if(lx > n || ly > m) cov("padded");
  four_index_transform(n, m, Xp.data(), lx, Cp.data(), lc, Y.data(), ly);
  double sc = 1 + amax(X) * std::pow(amax(C), 4) * n * n; auto W = tr4(X, n, C, m); double e = cmp(unpad4(Y, m, ly), W); ok(e <= 1e-12 * sc, "value", "%s: off by %g", ctx.c_str(), e);
  ok(padding_kept4(Y, m, ly), "padding_written", "%s", ctx.c_str()); ok(Xp == Xc && Cp == Cc, "input_modified", "%s", ctx.c_str());
  if(n == m) { cov("in place"); four_index_transform(n, n, Xp.data(), lx, Cp.data(), lc, Xp.data(), lx); e = cmp(unpad4(Xp, n, lx), W); ok(e <= 1e-12 * sc, "in_place", "%s: off by %g", ctx.c_str(), e); }
}
TEST("O01", "there_and_back", 3600, 60000) {
  size_t n = r.size(1, 7, 14, .005); auto I = orc::random_ints(r, n, r.in(0, 4)); V U = ortho(r, n), Ut = transp(U, n, n), T(n * n), T2(n * n), W(n * n * n * n), W2 = W; nontrivial(orc::hashi(I)); auto ctx = strf("n=%zu", n); note(ctx);
  two_index_transform(n, n, I.T.data(), n, U.data(), n, T.data(), n); two_index_transform(n, n, T.data(), n, Ut.data(), n, T2.data(), n);
  four_index_transform(n, n, I.V.data(), n, U.data(), n, W.data(), n); four_index_transform(n, n, W.data(), n, Ut.data(), n, W2.data(), n);
  double sc = 1 + orc::scale(I); close(cmp(T2, I.T), 0, 1e-12 * sc * n, "one_body_identity", "%s", ctx.c_str()); close(cmp(W2, I.V), 0, 1e-12 * sc * n * n, "two_body_identity", "%s", ctx.c_str());
  close(cmp(orc::sym8(n, W.data()), W), 0, 1e-12 * sc * n * n, "symmetry_lost", "%s", ctx.c_str());
}

// ------------------------------------------------------------------ O02 / O03
struct Lds { size_t t, v, d, d2, f, fa, q; };
TEST("O02", "folding_conserves_energy", 4200, 96000) {
  auto k = mkcase(r, 6); auto& s = k.s; size_t n = s.no, na = s.na; size_t lt = n + r.in(0, 2), lv = n + r.in(0, 1), lf = n + r.in(0, 2), lta = na + r.in(0, 2), lva = na + r.in(0, 1); auto ctx = desc(k); note(ctx); if(want_sample()) sample(ctx); nontrivial(orc::hashi(k.I) + s.ni * 7 + na);
  auto T = pad2(k.I.T, n, n, lt), W = pad4(k.I.V, n, lv), T0 = T, W0 = W; V Fi(lf * (n - 1) + n, PAD), Ta(lta * (na - 1) + na, PAD), Va(pad4(V(na * na * na * na, 0.), na, lva).size(), PAD);
  active_hamiltonian(NumOrbital(n), NumActive(na), NumInactive(s.ni), T.data(), lt, W.data(), lv, Fi.data(), lf, Ta.data(), lta, Va.data(), lva);
  double Ei = inactive_energy(NumInactive(s.ni), T.data(), lt, Fi.data(), lf);
  ok(T == T0 && W == W0, "input_modified", "%s", ctx.c_str()); ok(padding_kept(Fi, n, n, lf) && padding_kept(Ta, na, na, lta) && padding_kept4(Va, na, lva), "padding_written", "%s", ctx.c_str());
  if(!s.ni) cov("no inactive"); if(!s.nv) cov("no virtual"); if(na == n) cov("all active");
  Ints A; A.n = na; A.T = unpad2(Ta, na, na, lta); A.V = unpad4(Va, na, lva); u128 core = 0; for(size_t i = 0; i < s.ni; ++i) core |= orc::bit(i) | orc::bit(64 + i);
  auto lift = [&](u128 d) { return core | (d << s.ni); }; // both spin halves shift within their own 64 bits
  for(size_t i = 0; i < k.act.size(); ++i) for(size_t j = 0; j <= i; ++j) {
    double want = orc::melem(k.I, lift(k.act[i]), lift(k.act[j])), got = orc::melem(A, k.act[i], k.act[j]) + (i == j ? Ei : 0);
    if(!close(got, want, 1e-12 * scl(k), i == j ? "folded_diagonal" : "folded_offdiagonal", "%s (%s|%s)", ctx.c_str(), orc::dstr(k.act[i], na).c_str(), orc::dstr(k.act[j], na).c_str())) return;
  }
  // direct extraction helpers
  size_t lm = n + r.in(0, 2), ls = na + r.in(0, 2); V M = rnd(r, lm * n), S2(ls * na, PAD); active_submatrix_1body(NumActive(na), NumInactive(s.ni), M.data(), lm, S2.data(), ls);
  for(size_t y = 0; y < na; ++y) for(size_t x = 0; x < na; ++x) if(!ok(S2[x + ls * y] == M[s.ni + x + lm * (s.ni + y)], "active_submatrix", "%s", ctx.c_str())) return;
  ok(padding_kept(S2, na, na, ls), "padding_written", "%s", ctx.c_str());
  V E(n); canonical_orbital_energies(NumOrbital(n), NumInactive(s.ni), T.data(), lt, W.data(), lv, E.data()); for(size_t p = 0; p < n; ++p) close(E[p], Fi[p + lf * p], 1e-12 * scl(k), "orbital_energies", "%s p=%zu", ctx.c_str(), p);
}
TEST("O02", "fock_matrices", 4800, 108000) {
  auto k = mkcase(r, 6); auto& s = k.s; size_t n = s.no, na = s.na, ni = s.ni; auto ctx = desc(k); note(ctx); nontrivial(orc::hashi(k.I) + ni * 7 + na); double tol = 1e-12 * scl(k);
  size_t lt = n + r.in(0, 2), lv = n + r.in(0, 1), ld = na + r.in(0, 2), ld2 = na + r.in(0, 1), lf = n + r.in(0, 2), lfa = n + r.in(0, 2), lfi = n + r.in(0, 2), lq = na + r.in(0, 2);
  auto T = pad2(k.I.T, n, n, lt), W = pad4(k.I.V, n, lv), D = pad2(k.d1, na, na, ld), G = pad4(k.d2, na, ld2);
  V Fi(lfi * (n - 1) + n, PAD), Fa(lfa * (n - 1) + n, PAD), Q(lq * (n - 1) + na, PAD), F(lf * (n - 1) + n, 0.);
  inactive_fock_matrix(NumOrbital(n), NumInactive(ni), T.data(), lt, W.data(), lv, Fi.data(), lfi);
  active_fock_matrix(NumOrbital(n), NumInactive(ni), NumActive(na), W.data(), lv, D.data(), ld, Fa.data(), lfa);
  aux_q_matrix(NumActive(na), NumOrbital(n), NumInactive(ni), W.data(), lv, G.data(), ld2, Q.data(), lq);
  ok(padding_kept(Fi, n, n, lfi) && padding_kept(Fa, n, n, lfa) && padding_kept(Q, na, n, lq), "padding_written", "%s", ctx.c_str());
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) {
    double wi = k.I.t(p, q), wa = 0; for(size_t i = 0; i < ni; ++i) wi += 2 * k.I.v(p, q, i, i) - k.I.v(p, i, i, q);
    for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) wa += k.d1[x + na * y] * (k.I.v(p, q, ni + x, ni + y) - .5 * k.I.v(p, ni + x, ni + y, q));
    if(!close(Fi[p + lfi * q], wi, tol, "inactive_fock", "%s (%zu,%zu)", ctx.c_str(), p, q) || !close(Fa[p + lfa * q], wa, tol, "active_fock", "%s (%zu,%zu)", ctx.c_str(), p, q)) return;
  }
  for(size_t v = 0; v < na; ++v) for(size_t p = 0; p < n; ++p) { double w = 0; for(size_t a = 0; a < na; ++a) for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) w += 2 * k.d2[v + na * (a + na * (x + na * y))] * k.I.v(p, ni + a, ni + x, ni + y); if(!close(Q[v + lq * p], w, tol, "aux_q", "%s (%zu,%zu)", ctx.c_str(), v, p)) return; }
  // generalised Fock: F_mn = sum_q D_mq T_nq + 2 sum_qrs Gamma_mqrs (nq|rs) over the whole orbital space
  V D1, D2; full_rdms(s, k.d1, k.d2, D1, D2); auto S8 = orc::sym8(n, D2.data());
  auto want = [&](size_t m, size_t p) { double w = 0; for(size_t q = 0; q < n; ++q) w += D1[m + n * q] * k.I.t(p, q); for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) w += 2 * S8[m + n * (q + n * (x + n * y))] * k.I.v(p, q, x, y); return w; };
  int how = r.in(0, 2);
  if(how == 0) generalized_fock_matrix(NumOrbital(n), NumInactive(ni), NumActive(na), Fi.data(), lfi, Fa.data(), lfa, D.data(), ld, Q.data(), lq, F.data(), lf);
  else if(how == 1) generalized_fock_matrix_comp_mat1(NumOrbital(n), NumInactive(ni), NumActive(na), Fi.data(), lfi, W.data(), lv, D.data(), ld, G.data(), ld2, F.data(), lf);
  else generalized_fock_matrix_comp_mat2(NumOrbital(n), NumInactive(ni), NumActive(na), T.data(), lt, W.data(), lv, D.data(), ld, G.data(), ld2, F.data(), lf);
  cov(how == 0 ? "generalised Fock from parts" : how == 1 ? "from inactive Fock" : "from integrals");
  for(size_t m = 0; m < n; ++m) for(size_t p = 0; p < n; ++p) if(!close(F[m + lf * p], want(m, p), tol, "generalised_fock", "%s how=%d (%zu,%zu)", ctx.c_str(), how, m, p)) return;
  double E = energy_from_generalized_fock(NumInactive(ni), NumActive(na), T.data(), lt, D.data(), ld, F.data(), lf), Ew = energy(k.I.T, k.I.V, D1, D2);
  close(E, Ew, tol * 10, "energy_from_fock", "%s", ctx.c_str());
}

TEST("O03", "rotation_is_exponential", 7200, 144000) {
  size_t n = r.size(1, 8, 40, .005), lk = n + r.in(0, 2), lu = n + r.in(0, 2); double m = r.pick({1e-8, 1e-3, .3, 1., 5., 20.}), al = r.pick({1., -1., 2., .1}); V K = antisym(r, n, m); auto Kp = pad2(K, n, n, lk), K0 = Kp; Kp.resize(lk * n, PAD); K0 = Kp; V U(lu * n, PAD);
  auto ctx = strf("n=%zu |K|~%g alpha=%g", n, m, al); note(ctx); nontrivial(fnv(K.data(), 8 * n * n)); cov(m >= 5 ? "large rotation" : "small rotation");
  compute_orbital_rotation(NumOrbital(n), al, Kp.data(), lk, U.data(), lu); auto Uu = unpad2(U, n, n, lu); V A = K; for(auto& x : A) x *= -al; auto W = expm(A, n);
  double tol = 1e-12 * (1 + std::abs(al) * amax(K) * n); close(cmp(Uu, W), 0, tol * 10, "exponential", "%s", ctx.c_str()); auto P = matmul(transp(Uu, n, n), Uu, n, n, n); for(size_t i = 0; i < n; ++i) P[i + n * i] -= 1; close(amax(P), 0, tol, "orthogonal", "%s", ctx.c_str());
  ok(Kp == K0, "input_modified", "%s", ctx.c_str()); ok(padding_kept(U, n, n, lu), "padding_written", "%s", ctx.c_str());
}
TEST("O03", "packing", 9600, 144000) {
  Split s; s.ni = r.size(0, 4, 30, .01); s.na = r.size(0, 4, 30, .01); s.nv = r.size(0, 4, 60, .01); s.no = s.ni + s.na + s.nv; if(!s.no) return; size_t n = s.no, l = n + r.in(0, 2); auto P = pairs(s); V K = rnd(r, nrot(s)), M(l * n, 0.); auto ctx = strf("ni=%zu na=%zu nv=%zu ld=%zu", s.ni, s.na, s.nv, l); note(ctx); nontrivial(fnv(K.data(), 8 * K.size(), n));
  NumInactive ni(s.ni); NumActive na(s.na); NumVirtual nv(s.nv);
  linear_orb_rot_to_matrix(ni, na, nv, K.data(), M.data(), l); V W(l * n, 0.); for(size_t x = 0; x < P.size(); ++x) { W[P[x].first + l * P[x].second] = K[x]; W[P[x].second + l * P[x].first] = -K[x]; }
  ok(M == W, "unpack", "%s", ctx.c_str()); V B(K.size(), 0.); matrix_to_linear_orb_rot(ni, na, nv, M.data(), l, B.data()); ok(B == K, "pack", "%s", ctx.c_str());
  V F = rnd(r, l * n), G(K.size(), 0.), OG(l * n, 0.); fock_to_linear_orb_grad(ni, na, nv, F.data(), l, G.data()); fock_to_gradient(NumOrbital(n), ni, na, nv, F.data(), l, OG.data(), l);
  for(size_t x = 0; x < P.size(); ++x) { auto [p, q] = P[x]; double w = 2 * (F[p + l * q] - F[q + l * p]); if(!close(G[x], w, 1e-14 * (1 + std::abs(w)), "packed_gradient", "%s (%zu,%zu)", ctx.c_str(), p, q)) break; if(!close(OG[p + l * q], w, 1e-14 * (1 + std::abs(w)), "gradient", "%s", ctx.c_str()) || !close(OG[q + l * p], -w, 1e-14 * (1 + std::abs(w)), "gradient_antisymmetry", "%s", ctx.c_str())) break; }
  size_t nz = 0; for(auto x : OG) nz += x != 0; ok(nz <= 2 * P.size(), "redundant_gradient", "%s", ctx.c_str());
}
TEST("O03", "gradient_is_derivative", 1440, 30000) {
  auto k = mkcase(r, 5); auto& s = k.s; size_t n = s.no, na = s.na; auto ctx = desc(k); note(ctx); if(want_sample()) sample(ctx); nontrivial(orc::hashi(k.I) + s.ni * 7 + na); V D1, D2; full_rdms(s, k.d1, k.d2, D1, D2);
  V F(n * n, 0.), G(nrot(s), 0.); generalized_fock_matrix_comp_mat2(NumOrbital(n), NumInactive(s.ni), NumActive(na), k.I.T.data(), n, k.I.V.data(), n, k.d1.data(), na, k.d2.data(), na, F.data(), n);
  fock_to_linear_orb_grad(NumInactive(s.ni), NumActive(na), NumVirtual(s.nv), F.data(), n, G.data()); auto P = pairs(s); double h = 1e-3, tol = 1e-8 * scl(k);
  size_t lt = n + r.in(0, 2), lv = n + r.in(0, 1), ld = na + r.in(0, 2), ld2 = na + r.in(0, 1), lg = n + r.in(0, 2); auto Tp = pad2(k.I.T, n, n, lt), Wp = pad4(k.I.V, n, lv), Dp = pad2(k.d1, na, na, ld), Gp = pad4(k.d2, na, ld2);
  V NGp(lg * n, PAD); numerical_orbital_gradient(NumOrbital(n), NumInactive(s.ni), NumActive(na), Tp.data(), lt, Wp.data(), lv, Dp.data(), ld, Gp.data(), ld2, NGp.data(), lg);
  ok(padding_kept(NGp, n, n, lg), "padding_written", "%s", ctx.c_str()); auto NG = unpad2(NGp, n, n, lg); if(lg > n) cov("padded gradient");
  for(size_t x = 0; x < P.size(); ++x) { auto [p, q] = P[x]; auto E = [&](double m) { return rot_energy(k, D1, D2, unit_rot(n, p, q, m * h)); }; double w = (E(-2) - E(2) + 8 * (E(1) - E(-1))) / (12 * h);
    if(!close(G[x], w, tol, "analytic_gradient", "%s (%zu,%zu)", ctx.c_str(), p, q) || !close(NG[p + n * q], w, tol, "numerical_gradient", "%s (%zu,%zu)", ctx.c_str(), p, q)) return; }
  // redundant rotations as well: the numerical gradient covers every pair
  auto FG = full_gradient(s, k.I.T, k.I.V, D1, D2); for(size_t q = 0; q < n; ++q) for(size_t p = q + 1; p < n; ++p) if(!close(NG[p + n * q], FG[p + n * q], tol, "numerical_gradient_all", "%s (%zu,%zu)", ctx.c_str(), p, q)) return;
}
TEST("O03", "rotated_energy_and_fock", 3000, 60000) {
  auto k = mkcase(r, 5); auto& s = k.s; size_t n = s.no, na = s.na; auto ctx = desc(k); note(ctx); nontrivial(orc::hashi(k.I) + s.ni * 7 + na); V D1, D2; full_rdms(s, k.d1, k.d2, D1, D2); auto U = ortho(r, n);
  size_t lt = n + r.in(0, 2), lv = n + r.in(0, 1), ld = na + r.in(0, 2), ld2 = na + r.in(0, 1), lu = n + r.in(0, 2), ltt = n + r.in(0, 2), lvt = n + r.in(0, 1), lf = n + r.in(0, 2);
  auto T = pad2(k.I.T, n, n, lt), W = pad4(k.I.V, n, lv), D = pad2(k.d1, na, na, ld), G = pad4(k.d2, na, ld2), Up = pad2(U, n, n, lu); V Tt(ltt * (n - 1) + n, PAD), Vt(pad4(V(n * n * n * n, 0.), n, lvt).size(), PAD), F(lf * (n - 1) + n, 0.);
  double E = orbital_rotated_energy(NumOrbital(n), NumInactive(s.ni), NumActive(na), T.data(), lt, W.data(), lv, D.data(), ld, G.data(), ld2, Up.data(), lu, Tt.data(), ltt, Vt.data(), lvt, F.data(), lf);
  auto wT = tr2(k.I.T, n, U, n), wV = tr4(k.I.V, n, U, n); double tol = 1e-11 * scl(k); close(E, energy(wT, wV, D1, D2), tol, "rotated_energy", "%s", ctx.c_str());
  close(cmp(unpad2(Tt, n, n, ltt), wT), 0, tol, "rotated_T", "%s", ctx.c_str()); close(cmp(unpad4(Vt, n, lvt), wV), 0, tol, "rotated_V", "%s", ctx.c_str());
  double E2 = orbital_rotated_energy(NumOrbital(n), NumInactive(s.ni), NumActive(na), T.data(), lt, W.data(), lv, D.data(), ld, G.data(), ld2, Up.data(), lu); close(E2, E, tol, "rotated_energy_overload", "%s", ctx.c_str());
}
TEST("O03", "hessian_contraction", 1200, 30000) {
  // H*K against second differences of the energy in the packed rotation parameters
  auto k = mkcase(r, 5); auto& s = k.s; size_t n = s.no, na = s.na, m = nrot(s); if(!m) return; auto ctx = desc(k); note(ctx); nontrivial(orc::hashi(k.I) + s.ni * 7 + na); V D1, D2; full_rdms(s, k.d1, k.d2, D1, D2); auto P = pairs(s);
  size_t lt = n + r.in(0, 2), lv = n + r.in(0, 1), ld = na + r.in(0, 1), ld2 = na + r.in(0, 1); auto T = pad2(k.I.T, n, n, lt), W = pad4(k.I.V, n, lv), D = pad2(k.d1, na, na, ld), Gm = pad4(k.d2, na, ld2);
  auto FG = full_gradient(s, k.I.T, k.I.V, D1, D2); V G(m), K = rnd(r, m), HK(m, 0.); for(size_t x = 0; x < m; ++x) G[x] = FG[P[x].first + n * P[x].second];
  orb_orb_hessian_contract(NumOrbital(n), NumInactive(s.ni), NumActive(na), NumVirtual(s.nv), T.data(), lt, W.data(), lv, D.data(), ld, Gm.data(), ld2, G.data(), K.data(), HK.data());
  V Km(n * n, 0.), L(n * n, 0.); V l = rnd(r, m); for(size_t x = 0; x < m; ++x) { auto [p, q] = P[x]; Km[p + n * q] = K[x]; Km[q + n * p] = -K[x]; L[p + n * q] = l[x]; L[q + n * p] = -l[x]; }
  double h = 2e-3; auto E = [&](double x, double y) { V A(n * n); for(size_t i = 0; i < n * n; ++i) A[i] = h * (x * Km[i] + y * L[i]); return rot_energy(k, D1, D2, A); };
  auto mixed = [&](double a) { return (E(a, a) + E(-a, -a) - E(a, -a) - E(-a, a)) / (4 * a * a * h * h); }; double want = (4 * mixed(1) - mixed(2)) / 3, got = 0; for(size_t x = 0; x < m; ++x) got += HK[x] * l[x];
  // the routine is told the packed gradient only: rotations among active orbitals, which the packed form leaves out, are accounted for here (they vanish for na = 1 and for a CI state which is optimal in its active space)
  V Gr(n * n, 0.); for(size_t p = s.ni; p < s.ni + na; ++p) for(size_t q = s.ni; q < s.ni + na; ++q) Gr[p + n * q] = FG[p + n * q]; auto GK = matmul(Gr, Km, n, n, n), KG = matmul(Km, Gr, n, n, n); for(size_t x = 0; x < m; ++x) { auto [p, q] = P[x]; got += .5 * (GK[p + n * q] - KG[p + n * q]) * l[x]; }
  if(amax(Gr) < 1e-10) cov("no gradient among active orbitals");
  close(got, want, 1e-6 * scl(k) * m * (1 + amax(K)) * (1 + amax(l)), "hessian_contraction", "%s", ctx.c_str());
}
TEST("O03", "numerical_hessian", 144, 2400) {
  auto k = mkcase(r, 3); auto& s = k.s; size_t n = s.no, na = s.na; auto ctx = desc(k); note(ctx); nontrivial(orc::hashi(k.I) + s.ni * 7 + na); V D1, D2; full_rdms(s, k.d1, k.d2, D1, D2); 
  size_t lt = n + r.in(0, 2), lv = n + r.in(0, 1), ld = na + r.in(0, 2), ld2 = na + r.in(0, 1), lh = n + r.in(0, 1); auto Tp = pad2(k.I.T, n, n, lt), Wp = pad4(k.I.V, n, lv), Dp = pad2(k.d1, na, na, ld), Gp = pad4(k.d2, na, ld2); V Hp(lh * lh * lh * lh, PAD);
  numerical_orbital_hessian(NumOrbital(n), NumInactive(s.ni), NumActive(na), Tp.data(), lt, Wp.data(), lv, Dp.data(), ld, Gp.data(), ld2, Hp.data(), lh); double h = 2e-3;
  auto H = unpad4(Hp, n, lh); ok(size_t(std::count(Hp.begin(), Hp.end(), PAD) - std::count(H.begin(), H.end(), PAD)) == Hp.size() - H.size(), "padding_written", "%s", ctx.c_str()); if(lh > n) cov("padded Hessian");
  for(size_t i = 0; i < n; ++i) for(size_t a = i + 1; a < n; ++a) for(size_t j = 0; j < n; ++j) for(size_t b = j + 1; b < n; ++b) {
    auto E = [&](double x, double y) { V K = unit_rot(n, a, i, x * h); auto K2 = unit_rot(n, b, j, y * h); for(size_t q = 0; q < n * n; ++q) K[q] += K2[q]; return rot_energy(k, D1, D2, K); };
    double w = (E(1, 1) + E(-1, -1) - E(1, -1) - E(-1, 1)) / (4 * h * h); if(!close(H[a + n * (i + n * (b + n * j))], w, 3e-4 * scl(k), "numerical_hessian", "%s (%zu,%zu|%zu,%zu)", ctx.c_str(), a, i, b, j)) return; }
}
TEST("O03", "diagonal_hessian_and_step", 6000, 120000) {
  auto k = mkcase(r, 6, r.chance(.5)); auto& s = k.s; size_t n = s.no, na = s.na, ni = s.ni, nv = s.nv, m = nrot(s); auto ctx = desc(k); note(ctx); nontrivial(orc::hashi(k.I) + ni * 7 + na); auto P = pairs(s); V D1, D2; full_rdms(s, k.d1, k.d2, D1, D2); double tol = 1e-11 * scl(k);
  size_t lfi = n + r.in(0, 2), lfa = n + r.in(0, 2), lf = n + r.in(0, 2), ld = na + r.in(0, 2); V Fi(lfi * n, 0.), Fa(lfa * n, 0.), F(lf * n, 0.), Q(na * n); auto D = pad2(k.d1, na, na, ld);
  inactive_fock_matrix(NumOrbital(n), NumInactive(ni), k.I.T.data(), n, k.I.V.data(), n, Fi.data(), lfi); active_fock_matrix(NumOrbital(n), NumInactive(ni), NumActive(na), k.I.V.data(), n, D.data(), ld, Fa.data(), lfa); aux_q_matrix(NumActive(na), NumOrbital(n), NumInactive(ni), k.I.V.data(), n, k.d2.data(), na, Q.data(), na);
  generalized_fock_matrix(NumOrbital(n), NumInactive(ni), NumActive(na), Fi.data(), lfi, Fa.data(), lfa, D.data(), ld, Q.data(), na, F.data(), lf);
  V H(m + 1, PAD); approx_diag_hessian(NumInactive(ni), NumActive(na), NumVirtual(nv), Fi.data(), lfi, Fa.data(), lfa, D.data(), ld, F.data(), lf, H.data()); ok(H[m] == PAD, "overrun", "%s", ctx.c_str());
  auto f = [&](size_t p) { return Fi[p + lfi * p] + Fa[p + lfa * p]; };
  for(size_t x = 0; x < m; ++x) { auto [p, q] = P[x]; double w; if(x < nv * ni) w = 4 * (f(p) - f(q)); else if(x < nv * (ni + na)) w = 2 * k.d1[(q - ni) * (na + 1)] * f(p) - 2 * F[q + lf * q]; else w = 2 * k.d1[(p - ni) * (na + 1)] * f(q) + 4 * (f(p) - f(q)) - 2 * F[p + lf * p];
    if(!close(H[x], w, tol, "diagonal_hessian", "%s (%zu,%zu)", ctx.c_str(), p, q)) return; }
  V H2(m + 1, PAD); approx_diag_hessian(NumOrbital(n), NumInactive(ni), NumActive(na), NumVirtual(nv), k.I.T.data(), n, k.I.V.data(), n, k.d1.data(), na, k.d2.data(), na, H2.data()); for(size_t x = 0; x < m; ++x) if(!close(H2[x], H[x], tol, "diagonal_hessian_from_integrals", "%s", ctx.c_str())) return;
  V G(m + 1, PAD), K(m + 1, PAD); fock_to_linear_orb_grad(NumInactive(ni), NumActive(na), NumVirtual(nv), F.data(), lf, G.data());
  bool pos = true; for(size_t x = 0; x < m; ++x) { pos &= H[x] > 0; if(std::abs(H[x]) < 1e-8) return; }
  precond_cg_orbital_step(NumOrbital(n), NumInactive(ni), NumActive(na), NumVirtual(nv), Fi.data(), lfi, Fa.data(), lfa, F.data(), lf, D.data(), ld, G.data(), K.data());
  double gk = 0; for(size_t x = 0; x < m; ++x) { gk += G[x] * K[x]; if(!close(K[x], -G[x] / H[x], 1e-10 * (1 + std::abs(G[x] / H[x])), "step", "%s #%zu", ctx.c_str(), x)) return; } ok(K[m] == PAD, "step_overrun", "%s", ctx.c_str());
  if(pos && m) { cov("positive diagonal Hessian"); ok(gk <= 0, "not_descent", "%s: %g", ctx.c_str(), gk); }
}

// ------------------------------------------------------------------ O05
struct CoutCap { std::ostringstream o; std::streambuf* b; CoutCap() { b = std::cout.rdbuf(o.rdbuf()); } ~CoutCap() { std::cout.rdbuf(b); } };
TEST("O05", "mp2", 6000, 120000) {
  size_t n = r.size(1, 6, 14, .006), no = r.in(0, n), nv = n - no, lt = n + r.in(0, 2), lv = n + r.in(0, 1), ld = n + r.in(0, 2); auto I = orc::random_ints(r, n, r.pick({0, 3, 3, 3, 2}));
  V eps(n); for(size_t p = 0; p < n; ++p) { eps[p] = I.t(p, p); for(size_t i = 0; i < no; ++i) eps[p] += 2 * I.v(p, p, i, i) - I.v(p, i, i, p); }
  double gap = 1e300; for(size_t i = 0; i < no; ++i) for(size_t a = no; a < n; ++a) for(size_t j = 0; j < no; ++j) for(size_t b = no; b < n; ++b) gap = std::min(gap, std::abs(eps[i] + eps[j] - eps[a] - eps[b])); if(gap < 1e-2) { cov("near-zero denominator skipped"); return; }
  auto ctx = strf("n=%zu nocc=%zu ldt=%zu ldv=%zu ldd=%zu gap=%g", n, no, lt, lv, ld, gap); note(ctx); if(want_sample()) sample(ctx); nontrivial(orc::hashi(I) + no); if(!no) cov("no occupied"); if(!nv) cov("no virtual");
  auto T = pad2(I.T, n, n, lt), W = pad4(I.V, n, lv); V e(n, 0.); canonical_orbital_energies(NumOrbital(n), NumInactive(no), T.data(), lt, W.data(), lv, e.data()); double sc = (1 + orc::scale(I) * n); for(size_t p = 0; p < n; ++p) close(e[p], eps[p], 1e-12 * sc, "orbital_energy", "%s p=%zu", ctx.c_str(), p);
  V t2(no * no * nv * nv + 1, PAD); mp2_t2(NumCanonicalOccupied(no), NumCanonicalVirtual(nv), W.data(), lv, eps.data(), t2.data()); ok(t2.back() == PAD, "t2_overrun", "%s", ctx.c_str());
  auto t = [&](size_t i, size_t j, size_t a, size_t b) { return I.v(i, no + a, j, no + b) / (eps[i] + eps[j] - eps[no + a] - eps[no + b]); }; double tm = 0, E = 0;
  for(size_t i = 0; i < no; ++i) for(size_t j = 0; j < no; ++j) for(size_t a = 0; a < nv; ++a) for(size_t b = 0; b < nv; ++b) { double w = t(i, j, a, b); tm = std::max(tm, std::abs(w)); E += w * (2 * I.v(i, no + a, j, no + b) - I.v(i, no + b, j, no + a)); if(!close(t2[i + no * (j + no * (a + nv * b))], w, 1e-12 * (1 + std::abs(w)), "amplitude", "%s (%zu%zu|%zu%zu)", ctx.c_str(), i, j, a, b)) return; }
  V D(ld * n, PAD); std::string out; { CoutCap c; mp2_1rdm(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.data(), lt, W.data(), lv, D.data(), ld); out = c.o.str(); }
  auto at = out.find("EMP2 = "); if(at != std::string::npos) close(std::stod(out.substr(at + 7)), E, 1e-5 * (1 + std::abs(E)), "printed_energy", "%s", ctx.c_str());
  V w(n * n, 0.);
  for(size_t i = 0; i < no; ++i) for(size_t j = 0; j < no; ++j) { double x = 0; for(size_t k = 0; k < no; ++k) for(size_t a = 0; a < nv; ++a) for(size_t b = 0; b < nv; ++b) x += t(i, k, a, b) * (2 * t(j, k, a, b) - t(j, k, b, a)); w[i + n * j] = (i == j ? 2. : 0.) - 2 * x; }
  for(size_t a = 0; a < nv; ++a) for(size_t b = 0; b < nv; ++b) { double x = 0; for(size_t i = 0; i < no; ++i) for(size_t j = 0; j < no; ++j) for(size_t c = 0; c < nv; ++c) x += t(i, j, c, a) * (2 * t(i, j, c, b) - t(i, j, b, c)); w[no + a + n * (no + b)] = 2 * x; }
  double tol = 1e-11 * (1 + tm * tm * n * n * n), tr = 0; for(size_t p = 0; p < n; ++p) { tr += D[p + ld * p]; for(size_t q = 0; q < n; ++q) if(!close(D[p + ld * q], w[p + n * q], tol, "density", "%s (%zu,%zu)", ctx.c_str(), p, q)) return; }
  close(tr, 2. * no, tol * n, "trace", "%s", ctx.c_str()); ok(padding_kept(D, n, n, ld), "padding_written", "%s", ctx.c_str());
  V ON(n + 1, PAD), C(ld * n, PAD); { CoutCap c; mp2_natural_orbitals(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.data(), lt, W.data(), lv, ON.data(), C.data(), ld); }
  auto Cu = unpad2(C, n, n, ld); auto S = matmul(transp(Cu, n, n), Cu, n, n, n); for(size_t i = 0; i < n; ++i) S[i + n * i] -= 1; close(amax(S), 0, 1e-11 * n, "natural_orbitals_orthonormal", "%s", ctx.c_str()); ok(ON[n] == PAD, "occupation_overrun", "%s", ctx.c_str());
  auto X = tr2(w, n, Cu, n); for(size_t i = 0; i < n; ++i) X[i + n * i] -= ON[i]; close(amax(X), 0, tol * 10 * n, "natural_orbitals_diagonalise", "%s", ctx.c_str()); for(size_t i = 1; i < n; ++i) ok(ON[i] <= ON[i - 1], "occupations_descending", "%s", ctx.c_str());
  double so = 0; for(size_t i = 0; i < n; ++i) so += ON[i]; close(so, 2. * no, tol * n, "occupation_sum", "%s", ctx.c_str());
}

// ------------------------------------------------------------------ O06
TEST("O06", "diis", 7200, 144000) {
  QUIET; size_t nmax = r.size(1, 8, 20, .01), ne = r.size(1, 12, 400, .01), nadd = r.size(1, 14, 40, .01); double s = r.pick({1., 1., 1e-2, 30.}); int kind = r.in(0, 2); DIIS<V> d(nmax); std::vector<V> es; auto ctx = strf("keep=%zu errors of size %zu, %zu added, scale %g kind %d", nmax, ne, nadd, s, kind); note(ctx); if(want_sample()) sample(ctx);
  size_t keep = 0;
  for(size_t a = 0; a < nadd; ++a) {
    V e = rnd(r, ne, s); if(kind == 1 && a && r.chance(.5)) { e = es[r.in(0, a - 1)]; } if(kind == 2) for(auto& x : e) x *= std::pow(.3, a);
    V v(nadd + 2, 0.); v[a] = 1; v[nadd] = r.gauss(); v[nadd + 1] = 1; es.push_back(e); d.add_vector(v, e); keep = std::min(nmax, a + 1);
    if(a + 1 < nadd && r.chance(.6)) continue;
    auto x = d.extrapolate(); if(!ok(x.size() == nadd + 2, "size", "%s", ctx.c_str())) return; double sum = 0, cm = 0; for(size_t i = 0; i <= a; ++i) { sum += x[i]; cm = std::max(cm, std::abs(x[i])); } nontrivial(fnv(es[a].data(), 8 * ne));
    for(size_t i = 0; i < nadd; ++i) if(i > a || i + keep <= a) ok(x[i] == 0, "evicted_vector_used", "%s: entry %zu of %zu", ctx.c_str(), i, a + 1);
    close(sum, 1, 1e-8 * (1 + cm), "coefficients_sum", "%s", ctx.c_str()); close(x[nadd + 1], sum, 1e-10 * (1 + cm), "linear_combination", "%s", ctx.c_str());
    // optimal: the combined error has the same overlap with every retained error
    V e2(ne, 0.); double bm = 0; for(size_t i = a + 1 - keep; i <= a; ++i) for(size_t q = 0; q < ne; ++q) { e2[q] += x[i] * es[i][q]; } for(size_t i = a + 1 - keep; i <= a; ++i) { double b = 0; for(auto y : es[i]) b += y * y; bm = std::max(bm, b); }
    double l0 = 0; for(size_t i = a + 1 - keep; i <= a; ++i) { double l = 0; for(size_t q = 0; q < ne; ++q) l += es[i][q] * e2[q]; if(i == a + 1 - keep) l0 = l; else close(l, l0, 1e-11 * (1 + bm) * (1 + cm) * keep, "not_least_squares", "%s", ctx.c_str()); }
    covmax("history", keep); if(a + 1 > nmax) cov("history wrapped");
  }
}
struct Fun { // objectives with known gradients; counts evaluations
  typedef V argument_type; typedef double return_type;
  int kind; size_t n; V A, b; double tol; mutable long ev = 0; mutable V seen;
  double f(const V& x, V* g) const {
    double v = 0; if(g) g->assign(n, 0.);
    if(kind == 0) { for(size_t i = 0; i < n; ++i) { double t = 0; for(size_t j = 0; j < n; ++j) t += A[i + n * j] * x[j]; v += .5 * x[i] * t - b[i] * x[i]; if(g) (*g)[i] = t - b[i]; } }
    else if(kind == 1) { for(size_t i = 0; i + 1 < n; ++i) { double u = x[i + 1] - x[i] * x[i], w = 1 - x[i]; v += 10 * u * u + w * w; if(g) { (*g)[i] += -40 * x[i] * u - 2 * w; (*g)[i + 1] += 20 * u; } } if(n == 1) { v = (x[0] - 1) * (x[0] - 1); if(g) (*g)[0] = 2 * (x[0] - 1); } }
    else if(kind == 2) { for(size_t i = 0; i < n; ++i) { double u = x[i] - b[i]; v += std::log(std::cosh(u)) + .1 * u * u; if(g) (*g)[i] = std::tanh(u) + .2 * u; } }
    else { for(size_t i = 0; i < n; ++i) { double u = x[i] - b[i]; v += u * u * u * u / 4 + u * u / 2 + .3 * std::sin(3 * u); if(g) (*g)[i] = u * u * u + u + .9 * std::cos(3 * u); } }
    return v;
  }
  double eval(const V& x) const { ++ev; return f(x, nullptr); }
  V grad(const V& x) const { V g; f(x, &g); return g; }
  bool converged(const V&, const V& g) const { return norm(g) < tol; }
  static double dot(const V& a, const V& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
  static void axpy(double a, const V& x, V& y) { for(size_t i = 0; i < x.size(); ++i) y[i] += a * x[i]; }
  static void scal(double a, V& x) { for(auto& y : x) y *= a; }
  static double norm(const V& x) { return std::sqrt(dot(x, x)); }
  static V subtract(const V& a, const V& b) { V c = a; for(size_t i = 0; i < c.size(); ++i) c[i] -= b[i]; return c; }
};
static const char* FN[] = {"convex quadratic", "Rosenbrock-like", "log-cosh", "multi-well"};
static Fun mkfun(Rng& r) {
  Fun f; f.kind = r.in(0, 3); f.n = r.size(1, 6, 40, .01); size_t n = f.n; f.b = rnd(r, n); f.tol = r.pick({1e-2, 1e-4, 1e-6});
  if(f.kind == 0) { auto U = ortho(r, n); f.A.assign(n * n, 0.); double hi = r.pick({1.5, 10., 100.}); for(size_t q = 0; q < n; ++q) { double w = r.uni(.5, hi); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) f.A[i + n * j] += w * U[i + n * q] * U[j + n * q]; } }
  return f;
}
TEST("O06", "bfgs", 9600, 240000) {
  QUIET; auto f = mkfun(r); V x0 = rnd(r, f.n, 1.5); int h = r.in(0, 4); auto ctx = strf("%s n=%zu tol=%g hessian %d", FN[f.kind], f.n, f.tol, h); note(ctx); if(want_sample()) sample(ctx); nontrivial(fnv(x0.data(), 8 * f.n, f.kind)); bfgs::BFGSSettings s; s.max_iter = r.chance(.9) ? 300 : r.in(1, 3);
  try {
    V x; V dg(f.n); for(auto& y : dg) y = r.uni(.5, 4);
    if(h == 0) x = bfgs::bfgs(f, x0, s);
    else { std::unique_ptr<bfgs::BFGSHessian<Fun>> B; if(h == 1) B = bfgs::make_identity_hessian<Fun>(); else if(h == 2) B = bfgs::make_updated_scaled_hessian<Fun>(); else if(h == 3) B = bfgs::make_static_scaled_hessian<Fun>(); else B = std::make_unique<bfgs::DiagInitializedBFGSHessian<Fun>>(f.n, dg.data()); x = bfgs::bfgs(f, x0, *B, s); }
    cov("bfgs converged"); cov(FN[f.kind]); ok(Fun::norm(f.grad(x)) < f.tol, "gradient_above_tolerance", "%s: %g", ctx.c_str(), Fun::norm(f.grad(x))); ok(f.f(x, nullptr) <= f.f(x0, nullptr), "energy_raised", "%s", ctx.c_str());
  } catch(const std::runtime_error& e) { cov(std::string("bfgs reported failure: ") + e.what()); if(s.max_iter < 300) ok(f.ev > 0, "nothing_done", "%s", ctx.c_str()); }
}
TEST("O06", "bfgs_mostly_converges", 16, 200) {
  // giving up is allowed (the backtracking step may bounce between its two factors), but not as a rule on well-conditioned convex quadratics
  QUIET; int bad = 0, tot = 0; std::string why; for(int t = 0; t < 200; ++t) { auto f = mkfun(r); if(f.kind != 0) continue; V x0 = rnd(r, f.n, 1.5); ++tot; nontrivial(fnv(x0.data(), 8 * f.n)); bfgs::BFGSSettings s; s.max_iter = 300; f.tol = 1e-2; try { bfgs::bfgs(f, x0, s); } catch(const std::exception& e) { ++bad; why = e.what(); } }
  ok(bad * 20 <= tot, "gives_up", "%d of %d convex quadratics not minimised (%s)", bad, tot, why.c_str()); covmax("quadratics given up on, of 50", bad);
}
TEST("O06", "inverse_hessian", 7200, 144000) {
  size_t n = r.size(1, 6, 40, .01), m = r.size(0, 8, 30, .01); int h = r.in(0, 4); V dg(n), H(n * n, 0.); for(auto& y : dg) y = r.uni(.5, 4); std::unique_ptr<bfgs::BFGSHessian<Fun>> B; double ms = r.pick({.25, 2.});
  if(h == 0) B = bfgs::make_identity_hessian<Fun>(); else if(h == 1) B = bfgs::make_updated_scaled_hessian<Fun>(); else if(h == 2) B = bfgs::make_static_scaled_hessian<Fun>(); else if(h == 3) B = std::make_unique<bfgs::DiagInitializedBFGSHessian<Fun>>(n, dg.data()); else B = std::make_unique<bfgs::RuntimeInitializedBFGSHessian<Fun>>([ms](V& x) { for(auto& y : x) y *= ms; });
  auto ctx = strf("n=%zu updates=%zu kind=%d", n, m, h); note(ctx); auto U = ortho(r, n); std::vector<V> S, Y; double g0 = 1, gl = 1;
  for(size_t k = 0; k < m; ++k) { V s = rnd(r, n), y(n, 0.); for(size_t q = 0; q < n; ++q) { double c = 0, w = r.uni(.5, 5); for(size_t i = 0; i < n; ++i) c += U[i + n * q] * s[i]; for(size_t i = 0; i < n; ++i) y[i] += w * c * U[i + n * q]; } B->update(s, y); S.push_back(s); Y.push_back(y); double g = Fun::dot(y, y) / Fun::dot(y, s); if(!k) g0 = g; gl = g; }
  for(size_t i = 0; i < n; ++i) H[i + n * i] = h == 0 || (m == 0 && h < 3) ? 1 : h == 1 ? 1 / gl : h == 2 ? 1 / g0 : h == 3 ? 1 / dg[i] : ms;
  for(size_t k = 0; k < m; ++k) { double rho = 1 / Fun::dot(Y[k], S[k]); V L(n * n, 0.); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) L[i + n * j] = (i == j) - rho * S[k][i] * Y[k][j]; H = matmul(matmul(L, H, n, n, n), transp(L, n, n), n, n, n); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) H[i + n * j] += rho * S[k][i] * S[k][j]; }
  V x = rnd(r, n), x0 = x; nontrivial(fnv(x.data(), 8 * n)); auto p = B->apply(x); auto w = matmul(H, x, n, n, 1); ok(x == x0, "input_modified", "%s", ctx.c_str()); close(cmp(p, w), 0, 1e-9 * (1 + amax(H)), "two_loop", "%s", ctx.c_str());
  if(m) { auto z = B->apply(Y.back()); close(cmp(z, S.back()), 0, 1e-9 * (1 + amax(H) * amax(Y.back())), "secant", "%s", ctx.c_str()); ok(Fun::dot(x, p) > 0, "not_positive", "%s", ctx.c_str()); }
}
TEST("O06", "line_searches", 18000, 360000) {
  QUIET; auto f = mkfun(r); V x0 = rnd(r, f.n, 1.5), g0 = f.grad(x0), p = g0; for(auto& y : p) y = -y * r.uni(.2, 3); if(r.chance(.5)) Fun::scal(r.pick({1e-3, .1, 20.}), p); double dg = Fun::dot(p, g0), f0 = f.f(x0, nullptr); int k = r.in(0, 2); auto ctx = strf("%s n=%zu search %d", FN[f.kind], f.n, k); note(ctx); nontrivial(fnv(x0.data(), 8 * f.n, k)); if(std::abs(dg) < 1e-10) return;
  double st = r.pick({1., .1, 3.}), fx = f0; V x, gx = g0; auto same = [&] { V q = x0; Fun::axpy(st, p, q); ok(cmp(q, x) <= 1e-12 * (1 + amax(x)) && std::abs(f.f(x, nullptr) - fx) <= 1e-12 * (1 + std::abs(fx)) && cmp(f.grad(x), gx) <= 1e-12 * (1 + amax(gx)), "inconsistent_result", "%s", ctx.c_str()); };
  V up = p; Fun::scal(-1, up);
  try {
    if(k == 0) { bfgs::backtracking_line_search(f, x0, p, st, x, fx, gx); same(); ok(fx <= f0 && st > 0, "no_decrease", "%s", ctx.c_str()); ok((f0 - fx) - st * .5 * -dg > -1.0001e-6, "sufficient_decrease", "%s: decrease %g for step %g slope %g", ctx.c_str(), f0 - fx, st, dg); cov("backtracking"); }
    else if(k == 1) { bfgs::nocedal_wright_line_search(f, x0, p, st, x, fx, gx); same(); ok(fx <= f0 + 1e-4 * st * dg + 1e-13 * (1 + std::abs(f0)), "armijo", "%s: %g", ctx.c_str(), fx - f0); ok(std::abs(Fun::dot(gx, p)) <= .9 * -dg * (1 + 1e-12), "strong_wolfe", "%s: %g vs %g", ctx.c_str(), Fun::dot(gx, p), dg); cov("nocedal-wright"); }
    else { bfgs::discrete_line_search(f, x0, p, st, x, fx, gx); same(); double best = 1e300; for(int i = 0; i < 100; ++i) { V q = x0; Fun::axpy(1. - i * .01, p, q); best = std::min(best, f.f(q, nullptr)); } close(fx, best, 1e-12 * (1 + std::abs(best)), "grid_minimum", "%s", ctx.c_str()); ok(st > 0 && st <= 1, "grid_step", "%s", ctx.c_str()); cov("discrete"); }
  } catch(const std::runtime_error& e) { cov(strf("search %d reported failure", k)); if(k == 1 && f.kind != 3 && f.kind != 1) fail("line_search_failed", "%s: %s", ctx.c_str(), e.what()); }
  if(k < 2) { double s2 = 1, f2 = f0; V g2 = g0, x2; ok(throws([&] { if(k == 0) bfgs::backtracking_line_search(f, x0, up, s2, x2, f2, g2); else bfgs::nocedal_wright_line_search(f, x0, up, s2, x2, f2, g2); }), "ascent_accepted", "%s", ctx.c_str()); }
}

// ------------------------------------------------------------------ F01
static std::string fname(const char* x) { return st().tmpdir + "/" + x + std::to_string(st().cs); }
static Ints wide_ints(Rng& r, size_t n) { auto I = orc::random_ints(r, n, r.in(0, 4)); if(r.chance(.5)) { double s = std::pow(10., r.in(-12, 8)); for(auto& x : I.T) x *= s; for(auto& x : I.V) x *= s; } return I; }
static void read_all(const std::string& fn, size_t n, V& T, V& W, double& E, size_t& nr) { nr = read_fcidump_norb(fn); E = read_fcidump_core(fn); T.assign(n * n, 0.); W.assign(n * n * n * n, 0.); if(nr != n) return; read_fcidump_1body(fn, T.data(), n); read_fcidump_2body(fn, W.data(), n); }
TEST("F01", "fcidump_roundtrip", 100, 1500) {
  size_t n = r.size(1, 6, 8, .03), lt = n + r.in(0, 2), lv = n + r.in(0, 1); auto fn = fname("d"); auto ctx = strf("n=%zu", n); note(ctx); if(want_sample()) sample(ctx);
  int reps = n > 6 ? 1 : r.in(1, 3); // several writes in one process, also over an existing file
  for(int k = 0; k < reps; ++k) {
    auto I = wide_ints(r, n); double Ec = r.gauss() * 50; nontrivial(orc::hashi(I)); auto Tp = pad2(I.T, n, n, lt), Vp = pad4(I.V, n, lv);
    write_fcidump(fn, n, Tp.data(), lt, Vp.data(), lv, Ec);
    V T, W; double E; size_t nr; read_all(fn, n, T, W, E, nr);
    ok(nr == n, "norb", "%s: %zu", ctx.c_str(), nr); ok(E == Ec, "core", "%s: %.17g %.17g write %d", ctx.c_str(), E, Ec, k); ok(T == I.T, "one_body", "%s write %d off by %g", ctx.c_str(), k, cmp(T, I.T)); ok(W == I.V, "two_body", "%s write %d off by %g", ctx.c_str(), k, cmp(W, I.V));
    if(k) cov("overwritten file");
  }
  unlink(fn.c_str());
}
TEST("F01", "fcidump_large_file", 4, 60) { // orbital numbers of several digits; read by an independent parser, since the library takes a while
  size_t n = r.in(9, 14), lt = n + r.in(0, 2), lv = n + r.in(0, 1); auto fn = fname("l"); auto ctx = strf("n=%zu", n); note(ctx); if(want_sample()) sample(ctx); auto I = wide_ints(r, n); double Ec = r.gauss() * 50, E = 0; nontrivial(orc::hashi(I)); auto Tp = pad2(I.T, n, n, lt), Vp = pad4(I.V, n, lv);
  write_fcidump(fn, n, Tp.data(), lt, Vp.data(), lv, Ec); V T(n * n, 0.), W(n * n * n * n, 0.); bool good = true; std::ifstream f(fn); std::string line;
  while(std::getline(f, line)) {
    std::istringstream q(line); std::vector<std::string> t; for(std::string x; q >> x;) t.push_back(x); if(t.size() != 5 || t[0].find_first_not_of("+-.eE0123456789") != std::string::npos) continue;
    bool last = t[4].find_first_of(".eE") != std::string::npos; double v = std::stod(t[last ? 4 : 0]); size_t i[4]; for(int k = 0; k < 4; ++k) { i[k] = std::stoul(t[k + !last]); good &= i[k] <= n; } if(!good) break;
    if(!i[0]) E = v; else if(!i[2]) { if(i[1]) T[i[0] - 1 + n * (i[1] - 1)] = T[i[1] - 1 + n * (i[0] - 1)] = v; }
    else for(int k = 0; k < 8; ++k) { size_t a = i[0] - 1, b = i[1] - 1, c = i[2] - 1, d = i[3] - 1; if(k & 1) std::swap(a, b); if(k & 2) std::swap(c, d); if(k & 4) { std::swap(a, c); std::swap(b, d); } W[a + n * (b + n * (c + n * d))] = v; }
  }
  ok(good, "index_out_of_range", "%s: %s", ctx.c_str(), line.c_str()); ok(E == Ec, "core", "%s: %.17g", ctx.c_str(), E); ok(T == I.T, "one_body", "%s off by %g", ctx.c_str(), cmp(T, I.T)); ok(W == I.V, "two_body", "%s off by %g", ctx.c_str(), cmp(W, I.V)); unlink(fn.c_str());
}
TEST("F01", "fcidump_foreign_files", 260, 4000) {
  // files written the way other programs write them: headers, any symmetry representative, any order, either column layout
  size_t n = r.size(1, 6, 11, .02); auto I = wide_ints(r, n); double Ec = r.gauss() * 50; if(n == 6 && r.chance(.7)) { n = 3; I = wide_ints(r, n); } auto fn = fname("f"); bool first = r.chance(.5), core = r.chance(.8); int hd = r.in(0, 5); std::vector<std::string> L; nontrivial(orc::hashi(I));
  int nf = r.in(0, 3); const char* eol = r.chance(.3) ? "\r\n" : "\n"; bool tabs = r.chance(.3);
  auto num = [&](double x) { auto t = strf(nf % 2 ? "%.16E" : "%25.16e", x); if(nf >= 2) for(auto& c : t) if(c == 'E' || c == 'e') c = nf == 2 ? 'd' : 'D'; return t; };
  auto push = [&](std::string t) { if(tabs) for(auto& c : t) if(c == ' ') c = '\t'; if(r.chance(.2)) t += tabs ? "\t" : "  "; L.push_back(t); };
  auto line = [&](size_t p, size_t q, size_t x, size_t y, double v) { push(first ? strf(" %s %4zu %4zu %4zu %4zu", num(v).c_str(), p, q, x, y) : strf("%4zu %4zu %4zu %4zu %s", p, q, x, y, num(v).c_str())); };
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) { if(I.t(p, q) != 0 || p == n - 1) { bool f = r.chance(.5); line((f ? p : q) + 1, (f ? q : p) + 1, 0, 0, I.t(p, q)); }
    for(size_t x = 0; x <= p; ++x) for(size_t y = 0; y <= x; ++y) if(p * n + q >= x * n + y && I.v(p, q, x, y) != 0) { size_t a = p, b = q, c = x, d = y; if(r.chance(.5)) std::swap(a, b); if(r.chance(.5)) std::swap(c, d); if(r.chance(.5)) { std::swap(a, c); std::swap(b, d); } line(a + 1, b + 1, c + 1, d + 1, I.v(p, q, x, y)); } }
  bool energies = r.chance(.3); if(energies) { for(size_t p = 0; p < n; ++p) line(p + 1, 0, 0, 0, r.gauss()); cov("orbital energies listed"); }
  if(core) line(0, 0, 0, 0, Ec); if(r.chance(.8)) r.shuffle(L);
  std::ofstream o(fn); 
  if(hd == 1) o << " &FCI NORB=" << n << ",NELEC=2,MS2=0,\n  ORBSYM=1,1,1,\n  ISYM=1,\n &END\n"; if(hd == 2) o << "&FCI NORB= " << n << ",NELEC= 2,MS2= 0,\n ORBSYM=1,1,\n&END\n"; if(hd == 3) o << " &FCI NORB = " << n << " ,\n NELEC = 2 ,\n ORBSYM=1,1,1,1,\n /\n"; if(hd == 4) o << "&FCI NORB=   " << n << ",NELEC= 4,MS2=0,\n  ORBSYM=1,1,1,1,1,\n  ISYM=1,\n &END\n";
  for(auto& l : L) o << l << eol; if(r.chance(.3)) o << eol; o.close();
  cov(strf("%s, %s, %s exponents", tabs ? "tabs" : "spaces", eol[1] ? "CRLF" : "LF", nf >= 2 ? "Fortran" : "C"));
  auto ctx = strf("n=%zu header %d %s%s%s%s %s", n, hd, tabs ? "tabs " : "", eol[1] ? "crlf " : "", nf >= 2 ? "D exponents " : "", first ? "value first" : "indices first", energies ? " with orbital energies" : ""); note(ctx); cov(strf("header style %d", hd)); cov(first ? "value first" : "indices first");
  V T, W; double E; size_t nr; read_all(fn, n, T, W, E, nr); ok(nr == n, "norb", "%s: %zu", ctx.c_str(), nr); ok(E == (core ? Ec : 0), "core", "%s: %.17g", ctx.c_str(), E); ok(T == I.T, "one_body", "%s off by %g", ctx.c_str(), cmp(T, I.T)); ok(W == I.V, "two_body", "%s off by %g", ctx.c_str(), cmp(W, I.V));
  unlink(fn.c_str());
}
TEST("F01", "fcidump_rejects", 60, 600) {
  auto fn = fname("r"); nontrivial(st().cs); V T(64), W(4096); ok(throws([&] { read_fcidump_norb(fn); }) && throws([&] { read_fcidump_core(fn); }) && throws([&] { read_fcidump_1body(fn, T.data(), 3); }) && throws([&] { read_fcidump_2body(fn, W.data(), 3); }), "missing_file", "not reported");
  { std::ofstream o(fn); o << "1 1 0 0 1.5\n2 -1 0 0 0.5\n"; } ok(throws([&] { read_fcidump_norb(fn); }), "negative_index", "accepted");
  { std::ofstream o(fn); o << "3 3 0 0 1.5\n"; } ok(read_fcidump_norb(fn) == 3, "norb", "");
  ok(throws([&] { macis::col_major_span<double, 2> s(T.data(), 2, 2); read_fcidump_1body(fn, s); }) && throws([&] { macis::col_major_span<double, 2> s(T.data(), 3, 2); read_fcidump_1body(fn, s); }) && throws([&] { macis::col_major_span<double, 4> s(W.data(), 4, 4, 4, 4); read_fcidump_2body(fn, s); }) && throws([&] { macis::col_major_span<double, 4> s(W.data(), 3, 3, 3, 4); read_fcidump_2body(fn, s); }), "wrong_extent", "accepted");
  ok(throws([&] { write_fcidump(st().tmpdir + "/no/such/dir/x", 1, T.data(), 1, W.data(), 1, 0.); }), "unwritable", "not reported"); unlink(fn.c_str());
}
TEST("F01", "binary_densities", 300, 4000) {
  size_t n = r.size(1, 6, 14, .03), l1 = n + r.in(0, 2), l2 = n + r.in(0, 1), m1 = n + r.in(0, 2), m2 = n + r.in(0, 1); V A = rnd(r, n * n), B = rnd(r, n * n * n * n, 1e-3); for(auto& x : A) if(r.chance(.1)) x = r.pick({0., -0., 1e-300, 1e300, 5e-324}); auto fn = fname("b"), ctx = strf("n=%zu ld %zu %zu -> %zu %zu", n, l1, l2, m1, m2); note(ctx); nontrivial(fnv(A.data(), 8 * A.size()));
  auto Ap = pad2(A, n, n, l1), Bp = pad4(B, n, l2); write_rdms_binary(fn, n, Ap.data(), l1, Bp.data(), l2); V C(m1 * (n - 1) + n, PAD), D(pad4(B, n, m2).size(), PAD); read_rdms_binary(fn, n, C.data(), m1, D.data(), m2);
  auto c = unpad2(C, n, n, m1), d = unpad4(D, n, m2); ok(!memcmp(c.data(), A.data(), 8 * A.size()), "one_body_bits", "%s", ctx.c_str()); ok(!memcmp(d.data(), B.data(), 8 * B.size()), "two_body_bits", "%s", ctx.c_str()); ok(padding_kept(C, n, n, m1) && padding_kept4(D, n, m2), "padding_written", "%s", ctx.c_str());
  struct { std::string s; } file; { std::ifstream f(fn, std::ios::binary); std::stringstream q; q << f.rdbuf(); file.s = q.str(); } ok(file.s.size() == 4 + 8 * (n * n + n * n * n * n), "file_size", "%s: %zu", ctx.c_str(), file.s.size());
  V x(C.size() * 9 + 64), y(pad4(V(std::pow(n + 1, 4)), n + 1, n + 1).size()); ok(throws([&] { read_rdms_binary(fn, n + 1, x.data(), n + 1, y.data(), n + 1); }), "wrong_norb", "%s", ctx.c_str()); ok(throws([&] { read_rdms_binary(fn + "x", n, x.data(), n, y.data(), n); }), "missing", "%s", ctx.c_str());
  size_t cut = r.in(0, file.s.size() - 1); { std::ofstream f(fn, std::ios::binary | std::ios::trunc); f.write(file.s.data(), cut); } ok(throws([&] { read_rdms_binary(fn, n, x.data(), n, y.data(), n); }), "truncated_file", "%s: %zu of %zu bytes accepted", ctx.c_str(), cut, file.s.size()); unlink(fn.c_str());
  ok(throws([&] { write_rdms_binary(st().tmpdir + "/no/such/dir/x", n, A.data(), n, B.data(), n); }), "unwritable", "%s", ctx.c_str());
}
