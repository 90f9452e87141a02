// Orbital-space helpers shared by the orbital and self-consistent-field harnesses.
#pragma once
#include "common.hpp"
#include "oracle.hpp"
namespace orb {
using namespace vh; using orc::u128; using orc::Ints;
typedef std::vector<double> V;
static const double PAD = -7.25e77;
// matrices and tensors with padded leading dimensions, in allocations of the exact size
static V pad2(const V& A, size_t m, size_t n, size_t ld) { V R(n ? ld * (n - 1) + m : 0, PAD); for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < m; ++i) R[i + ld * j] = A[i + m * j]; return R; }
static V pad4(const V& A, size_t n, size_t ld) {
  if(!n) return V(); V R((n - 1) * (ld * ld * ld + ld * ld + ld + 1) + 1, PAD);
  for(size_t l = 0; l < n; ++l) for(size_t k = 0; k < n; ++k) for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) R[i + ld * (j + ld * (k + ld * l))] = A[i + n * (j + n * (k + n * l))]; return R;
}
static V unpad2(const V& R, size_t m, size_t n, size_t ld) { V A(m * n); for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < m; ++i) A[i + m * j] = R[i + ld * j]; return A; }
static V unpad4(const V& R, size_t n, size_t ld) { V A(n * n * n * n); for(size_t l = 0; l < n; ++l) for(size_t k = 0; k < n; ++k) for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) A[i + n * (j + n * (k + n * l))] = R[i + ld * (j + ld * (k + ld * l))]; return A; }
static bool padding_kept(const V& R, size_t m, size_t n, size_t ld) { for(size_t j = 0; j + 1 < n; ++j) for(size_t i = m; i < ld; ++i) if(R[i + ld * j] != PAD) return false; return true; }
static bool padding_kept4(const V& R, size_t n, size_t ld) { size_t c = 0, in = 0; for(auto x : R) c += x == PAD; for(auto x : unpad4(R, n, ld)) in += x == PAD; return R.size() - n * n * n * n == c - in && in == 0; }
static double amax(const V& A) { double m = 0; for(auto x : A) m = std::max(m, std::abs(x)); return m; }
static double cmp(const V& A, const V& B) { if(A.size() != B.size()) return 1e300; double m = 0; for(size_t i = 0; i < A.size(); ++i) { double d = std::abs(A[i] - B[i]); if(!(d <= m)) m = d; } return m; }
static V rnd(Rng& r, size_t n, double s = 1) { V A(n); for(auto& x : A) x = s * r.gauss(); return A; }
static V tr2(const V& X, size_t n, const V& C, size_t m) { // C^T X C
  V T(n * m, 0.), Y(m * m, 0.); for(size_t j = 0; j < n; ++j) for(size_t q = 0; q < m; ++q) for(size_t i = 0; i < n; ++i) T[i + n * q] += X[i + n * j] * C[j + n * q];
  for(size_t q = 0; q < m; ++q) for(size_t p = 0; p < m; ++p) for(size_t i = 0; i < n; ++i) Y[p + m * q] += C[i + n * p] * T[i + n * q]; return Y;
}
static V tr4(const V& X, size_t n, const V& C, size_t m) { // one index at a time, cycling the first index to the end
  V A = X; size_t d[4] = {n, n, n, n};
  for(int s = 0; s < 4; ++s) { size_t rest = d[1] * d[2] * d[3]; V B(rest * m, 0.); for(size_t p = 0; p < m; ++p) for(size_t x = 0; x < rest; ++x) { double t = 0; for(size_t i = 0; i < d[0]; ++i) t += C[i + n * p] * A[i + d[0] * x]; B[x + rest * p] = t; } A = B; d[0] = d[1]; d[1] = d[2]; d[2] = d[3]; d[3] = m; }
  return A;
}
static V ortho(Rng& r, size_t n) { V U(n * n); for(auto& x : U) x = r.gauss(); for(size_t j = 0; j < n; ++j) for(int rep = 0; rep < 2; ++rep) { for(size_t k = 0; k < j; ++k) { double s = 0; for(size_t i = 0; i < n; ++i) s += U[i + n * k] * U[i + n * j]; for(size_t i = 0; i < n; ++i) U[i + n * j] -= s * U[i + n * k]; } double q = 0; for(size_t i = 0; i < n; ++i) q += U[i + n * j] * U[i + n * j]; for(size_t i = 0; i < n; ++i) U[i + n * j] /= std::sqrt(q); } return U; }
static V matmul(const V& A, const V& B, size_t m, size_t k, size_t n) { V C(m * n, 0.); for(size_t j = 0; j < n; ++j) for(size_t q = 0; q < k; ++q) for(size_t i = 0; i < m; ++i) C[i + m * j] += A[i + m * q] * B[q + k * j]; return C; }
static V transp(const V& A, size_t m, size_t n) { V B(m * n); for(size_t i = 0; i < m; ++i) for(size_t j = 0; j < n; ++j) B[j + n * i] = A[i + m * j]; return B; }

struct Split { size_t no, ni, na, nv; };
struct Case {
  Split s; Ints I; V d1, d2;          // active densities (library layout, from a real wavefunction)
  std::vector<u128> act; V c;          // the wavefunction
  size_t nae, nbe;
};
static Case mkcase(Rng& r, size_t nmax, bool molecule = false) {
  Case k; auto& s = k.s; s.no = r.size(1, nmax, 2 * nmax, .004); s.na = r.size(1, std::min<size_t>(s.no, 4), std::min<size_t>(s.no, 7), .01); s.na = std::min(s.na, s.no); s.ni = r.in(0, s.no - s.na); s.nv = s.no - s.na - s.ni;
  k.I = orc::random_ints(r, s.no, molecule ? 3 : r.pick({0, 0, 2, 3, 3}));
  k.nae = r.in(0, s.na); k.nbe = r.in(0, s.na); k.act = orc::full_space(s.na, k.nae, k.nbe); if(k.act.size() > 20) { r.shuffle(k.act); k.act.resize(20); }
  k.c.resize(k.act.size()); double q = 0; for(auto& x : k.c) { x = r.gauss(); q += x * x; } for(auto& x : k.c) x /= std::sqrt(q);
  k.d1.assign(s.na * s.na, 0.); k.d2.assign(s.na * s.na * s.na * s.na, 0.);
  for(size_t i = 0; i < k.act.size(); ++i) for(size_t j = 0; j < k.act.size(); ++j) orc::rdms(s.na, k.act[i], k.act[j], k.c[i] * k.c[j], k.d1, &k.d2);
  return k;
}
static std::string desc(const Case& k) { return strf("no=%zu ni=%zu na=%zu nv=%zu electrons %zu+%zu dets=%zu", k.s.no, k.s.ni, k.s.na, k.s.nv, k.nae, k.nbe, k.act.size()); }
// densities of the whole orbital space: inactive doubly occupied, active as given (library layout)
static void full_rdms(const Split& s, const V& d1, const V& d2, V& D1, V& D2) {
  size_t n = s.no; D1.assign(n * n, 0.); D2.assign(n * n * n * n, 0.); size_t a = s.na, o = s.ni;
  for(size_t i = 0; i < s.ni; ++i) D1[i + n * i] = 2; for(size_t x = 0; x < a; ++x) for(size_t y = 0; y < a; ++y) D1[o + x + n * (o + y)] = d1[x + a * y];
  auto at = [&](size_t p, size_t q, size_t t, size_t u) -> double& { return D2[p + n * (q + n * (t + n * u))]; };
  // Gamma_pqrs = <p+ r+ s q> / 2 ; for a product with a closed shell: D_pq D_rs - D_ps D_rq / 2 whenever an index is inactive
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t t = 0; t < n; ++t) for(size_t u = 0; u < n; ++u) at(p, q, t, u) = .5 * (D1[p + n * q] * D1[t + n * u] - .5 * D1[p + n * u] * D1[t + n * q]);
  for(size_t x = 0; x < a; ++x) for(size_t y = 0; y < a; ++y) for(size_t z = 0; z < a; ++z) for(size_t w = 0; w < a; ++w) at(o + x, o + y, o + z, o + w) = d2[x + a * (y + a * (z + a * w))];
}
static double energy(const V& T, const V& W, const V& D1, const V& D2) { double e = 0; for(size_t i = 0; i < T.size(); ++i) e += T[i] * D1[i]; for(size_t i = 0; i < W.size(); ++i) e += W[i] * D2[i]; return e; }
static double scl(const Case& k) { size_t n = k.s.no; return 1 + orc::scale(k.I) * n * n * n * n; }
static V expm(const V& K, size_t n) { // scaling and squaring with a long Taylor series
  double nr = 0; for(auto x : K) nr += x * x; nr = std::sqrt(nr); int s = 0; while(nr > .25) { nr /= 2; ++s; }
  V A = K; for(auto& x : A) x *= std::pow(.5, s); V R(n * n, 0.), P(n * n, 0.); for(size_t i = 0; i < n; ++i) R[i + n * i] = P[i + n * i] = 1;
  for(int k = 1; k < 25; ++k) { P = matmul(P, A, n, n, n); for(auto& x : P) x /= k; for(size_t i = 0; i < n * n; ++i) R[i] += P[i]; }
  while(s--) R = matmul(R, R, n, n, n); return R;
}
static V antisym(Rng& r, size_t n, double m) { V K(n * n, 0.); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < i; ++j) { K[i + n * j] = m * r.gauss(); K[j + n * i] = -K[i + n * j]; } return K; }
static size_t nrot(const Split& s) { return s.nv * (s.ni + s.na) + s.na * s.ni; }
// the pairs (row > column) in packed order: virtual-inactive, virtual-active, active-inactive
static std::vector<std::pair<size_t, size_t>> pairs(const Split& s) {
  std::vector<std::pair<size_t, size_t>> P; size_t o = s.ni + s.na;
  for(size_t i = 0; i < s.ni; ++i) for(size_t a = 0; a < s.nv; ++a) P.push_back({o + a, i}); for(size_t x = 0; x < s.na; ++x) for(size_t a = 0; a < s.nv; ++a) P.push_back({o + a, s.ni + x}); for(size_t i = 0; i < s.ni; ++i) for(size_t x = 0; x < s.na; ++x) P.push_back({s.ni + x, i});
  return P;
}
static double rot_energy(const Case& k, const V& D1, const V& D2, const V& K) { V A = K; for(auto& x : A) x = -x; auto U = expm(A, k.s.no); return energy(tr2(k.I.T, k.s.no, U, k.s.no), tr4(k.I.V, k.s.no, U, k.s.no), D1, D2); }
static V unit_rot(size_t n, size_t p, size_t q, double h) { V K(n * n, 0.); K[p + n * q] = h; K[q + n * p] = -h; return K; }
// analytic gradient of the energy functional from its own definition: G_pq = 2 (F_pq - F_qp)
static V full_gradient(const Split& s, const V& T, const V& W, const V& D1, const V& D2) {
  size_t n = s.no; auto S8 = orc::sym8(n, D2.data()); V F(n * n, 0.), G(n * n); auto v = [&](size_t p, size_t q, size_t x, size_t y) { return W[p + n * (q + n * (x + n * y))]; };
  for(size_t m = 0; m < n; ++m) for(size_t p = 0; p < n; ++p) { double w = 0; for(size_t q = 0; q < n; ++q) w += .5 * (D1[m + n * q] + D1[q + n * m]) * T[p + n * q]; for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y) w += 2 * S8[m + n * (q + n * (x + n * y))] * v(p, q, x, y); F[m + n * p] = w; }
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) G[p + n * q] = 2 * (F[p + n * q] - F[q + n * p]); return G;
}
}  // namespace orb
