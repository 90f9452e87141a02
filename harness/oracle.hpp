// Brute-force second quantisation, independent of the code under test.
//   H = sum_{pq,s} T_pq a+_{ps} a_{qs} + 1/2 sum_{pqrs,st} (pq|rs) a+_{ps} a+_{rt} a_{st} a_{qs}
// Spin orbitals: alpha p at bit p, beta p at bit 64+p, Jordan-Wigner order.
#pragma once
#include <bitset>
#include "common.hpp"

namespace orc {
typedef unsigned __int128 u128;
inline int pop(u128 x) { return __builtin_popcountll((uint64_t)x) + __builtin_popcountll((uint64_t)(x >> 64)); }
inline u128 bit(int i) { return ((u128)1) << i; }
inline int par(u128 d, int x) { return pop(d & (bit(x) - 1)) & 1 ? -1 : 1; }

template <size_t N> u128 from_bitset(const std::bitset<N>& b) {
  u128 d = 0;
  for(size_t i = 0; i < std::min<size_t>(N / 2, 64); ++i) { if(b[i]) d |= bit(i); if(b[i + N / 2]) d |= bit(64 + i); }
  return d;
}
template <size_t N> std::bitset<N> to_bitset(u128 d) {
  std::bitset<N> b;
  for(size_t i = 0; i < std::min<size_t>(N / 2, 64); ++i) { if(d >> i & 1) b[i] = 1; if(d >> (64 + i) & 1) b[i + N / 2] = 1; }
  return b;
}
inline std::vector<int> occ(u128 d) { std::vector<int> o; for(int i = 0; i < 128; ++i) if(d >> i & 1) o.push_back(i); return o; }

struct Ints {
  size_t n = 0;
  std::vector<double> T, V;  // column major, exact size
  double& t(size_t p, size_t q) { return T[p + q * n]; }
  double t(size_t p, size_t q) const { return T[p + q * n]; }
  double& v(size_t p, size_t q, size_t r, size_t s) { return V[p + n * (q + n * (r + n * s))]; }
  double v(size_t p, size_t q, size_t r, size_t s) const { return V[p + n * (q + n * (r + n * s))]; }
};
inline void set8(Ints& I, size_t p, size_t q, size_t r, size_t s, double x) {
  I.v(p, q, r, s) = I.v(q, p, r, s) = I.v(p, q, s, r) = I.v(q, p, s, r) = I.v(r, s, p, q) = I.v(s, r, p, q) = I.v(r, s, q, p) = I.v(s, r, q, p) = x;
}
// kind: 0 gaussian, 1 small integers (exact ties), 2 sparse, 3 molecule-like (gapped), 4 large dynamic range
inline Ints random_ints(vh::Rng& r, size_t n, int kind) {
  Ints I; I.n = n; I.T.assign(n * n, 0.); I.V.assign(n * n * n * n, 0.);
  auto val = [&]() -> double {
    switch(kind) {
      case 1: return (double)r.in(-2, 2);
      case 2: return r.chance(.6) ? 0. : r.gauss();
      case 4: return r.gauss() * std::pow(10., r.in(-6, 2));
      default: return r.gauss();
    }
  };
  if(kind == 3) {
    double gap = r.uni(0.3, 1.5);
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) I.t(p, q) = I.t(q, p) = p == q ? -3. + gap * p : 0.15 * r.gauss();
    size_t K = 2 * n + 1;
    std::vector<double> L(K * n * n);
    for(size_t k = 0; k < K; ++k) for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q)
      L[k + K * (p + n * q)] = L[k + K * (q + n * p)] = (p == q ? (k == 0 ? .6 : .1 * r.gauss()) : .12 * r.gauss());
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) for(size_t x = 0; x <= p; ++x) for(size_t y = 0; y <= x; ++y) {
      double s = 0; for(size_t k = 0; k < K; ++k) s += L[k + K * (p + n * q)] * L[k + K * (x + n * y)];
      set8(I, p, q, x, y, s);
    }
    return I;
  }
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) I.t(p, q) = I.t(q, p) = val();
  if(n <= 12)
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) for(size_t x = 0; x <= p; ++x) for(size_t y = 0; y <= x; ++y) set8(I, p, q, x, y, val());
  else {  // big: symmetric product form, so that filling stays cheap
    std::vector<double> a(n), b(n), M(n * n);
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) M[p + n * q] = M[q + n * p] = val();
    for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t x = 0; x < n; ++x) for(size_t y = 0; y < n; ++y)
      I.v(p, q, x, y) = M[p + n * q] * M[x + n * y] + 0.1 * (M[p + n * x] * M[q + n * y] + M[p + n * y] * M[q + n * x]);
  }
  return I;
}
inline double scale(const Ints& I) {
  double m = 0; for(auto x : I.T) m = std::max(m, std::abs(x)); double w = 0; for(auto x : I.V) w = std::max(w, std::abs(x));
  return m + w;
}
inline int orb(int so) { return so & 63; }
inline bool beta(int so) { return so >= 64; }

// <bra|H|ket>
inline double melem(const Ints& I, u128 bra, u128 ket) {
  if(pop(bra ^ ket) > 4) return 0;  // annihilating two of each side cannot match
  double h = 0;
  auto ob = occ(bra), ok = occ(ket);
  for(int q : ok) {
    u128 t = ket ^ bit(q); int sg = par(ket, q);
    for(int p : ob) if(beta(p) == beta(q) && (bra ^ bit(p)) == t) h += sg * par(bra, p) * I.t(orb(p), orb(q));
  }
  for(int q : ok) {
    u128 k1 = ket ^ bit(q); int s1 = par(ket, q);
    for(int s : ok) if(s != q) {
      u128 k2 = k1 ^ bit(s); int s2 = s1 * par(k1, s);
      if(pop(bra & k2) != pop(k2)) continue;
      for(int p : ob) if(beta(p) == beta(q) && !(k2 >> p & 1)) {
        u128 b1 = bra ^ bit(p); int t1 = par(bra, p);
        for(int r : ob) if(r != p && beta(r) == beta(s)) {
          u128 b2 = b1 ^ bit(r);
          if(b2 == k2) h += 0.5 * s2 * t1 * par(b1, r) * I.v(orb(p), orb(q), orb(r), orb(s));
        }
      }
    }
  }
  return h;
}
// D1(p,q) += c <bra|a+p aq|ket> ; D2(p,q,r,s) += c/2 <bra|a+p a+r as aq|ket>  (spin summed)
inline void rdms(size_t n, u128 bra, u128 ket, double c, std::vector<double>& D1, std::vector<double>* D2) {
  if(pop(bra ^ ket) > 4) return;
  auto ob = occ(bra), ok = occ(ket);
  for(int q : ok) {
    u128 t = ket ^ bit(q);
    for(int p : ob) if(beta(p) == beta(q) && (bra ^ bit(p)) == t) D1[orb(p) + n * orb(q)] += c * par(ket, q) * par(bra, p);
  }
  if(!D2) return;
  for(int q : ok) {
    u128 k1 = ket ^ bit(q); int s1 = par(ket, q);
    for(int s : ok) if(s != q) {
      u128 k2 = k1 ^ bit(s); int s2 = s1 * par(k1, s);
      if(pop(bra & k2) != pop(k2)) continue;
      for(int p : ob) if(beta(p) == beta(q) && !(k2 >> p & 1)) {
        u128 b1 = bra ^ bit(p); int t1 = par(bra, p);
        for(int r : ob) if(r != p && beta(r) == beta(s) && (b1 ^ bit(r)) == k2)
          (*D2)[orb(p) + n * (orb(q) + n * (orb(r) + n * orb(s)))] += 0.5 * c * s2 * t1 * par(b1, r);
      }
    }
  }
}
// average over the eight index permutations under which real integrals are symmetric
inline std::vector<double> sym8(size_t n, const double* D) {
  std::vector<double> R(n * n * n * n);
  auto at = [&](size_t p, size_t q, size_t r, size_t s) { return D[p + n * (q + n * (r + n * s))]; };
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t r = 0; r < n; ++r) for(size_t s = 0; s < n; ++s)
    R[p + n * (q + n * (r + n * s))] = .125 * (at(p, q, r, s) + at(q, p, r, s) + at(p, q, s, r) + at(q, p, s, r) + at(r, s, p, q) + at(s, r, p, q) + at(r, s, q, p) + at(s, r, q, p));
  return R;
}
inline std::vector<u128> full_space(size_t n, size_t na, size_t nb) {
  std::vector<u128> A, B, R;
  for(uint64_t x = 0; x < (1ull << n); ++x) { if((size_t)__builtin_popcountll(x) == na) A.push_back(x); if((size_t)__builtin_popcountll(x) == nb) B.push_back(((u128)x) << 64); }
  for(auto a : A) for(auto b : B) R.push_back(a | b);
  return R;
}
inline std::vector<double> dense_h(const Ints& I, const std::vector<u128>& d) {
  size_t m = d.size(); std::vector<double> H(m * m);
  for(size_t i = 0; i < m; ++i) for(size_t j = i; j < m; ++j) H[i + m * j] = H[j + m * i] = melem(I, d[i], d[j]);
  return H;
}
// Cyclic Jacobi: eigenvalues ascending, eigenvectors in columns of Z
inline std::vector<double> jacobi(size_t n, std::vector<double> A, std::vector<double>* Z = nullptr) {
  std::vector<double> V(n * n, 0.); for(size_t i = 0; i < n; ++i) V[i + n * i] = 1;
  double nrm = 0; for(auto x : A) nrm += x * x;
  for(int sweep = 0; sweep < 60; ++sweep) {
    double off = 0; for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < j; ++i) off += A[i + n * j] * A[i + n * j];
    if(off <= 1e-32 * nrm) break;
    for(size_t p = 0; p < n; ++p) for(size_t q = p + 1; q < n; ++q) {
      double apq = A[p + n * q]; if(apq == 0) continue;
      double th = (A[q + n * q] - A[p + n * p]) / (2 * apq), t = (th >= 0 ? 1. : -1.) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for(size_t k = 0; k < n; ++k) { double a = A[k + n * p], b = A[k + n * q]; A[k + n * p] = c * a - s * b; A[k + n * q] = s * a + c * b; }
      for(size_t k = 0; k < n; ++k) { double a = A[p + n * k], b = A[q + n * k]; A[p + n * k] = c * a - s * b; A[q + n * k] = s * a + c * b; }
      for(size_t k = 0; k < n; ++k) { double a = V[k + n * p], b = V[k + n * q]; V[k + n * p] = c * a - s * b; V[k + n * q] = s * a + c * b; }
    }
  }
  std::vector<size_t> ix(n); for(size_t i = 0; i < n; ++i) ix[i] = i;
  std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return A[a + n * a] < A[b + n * b]; });
  std::vector<double> W(n);
  for(size_t i = 0; i < n; ++i) W[i] = A[ix[i] + n * ix[i]];
  if(Z) { Z->resize(n * n); for(size_t i = 0; i < n; ++i) for(size_t k = 0; k < n; ++k) (*Z)[k + n * i] = V[k + n * ix[i]]; }
  return W;
}
inline u128 rand_det(vh::Rng& r, size_t n, size_t na, size_t nb) {
  std::vector<int> p(n); for(size_t i = 0; i < n; ++i) p[i] = i;
  u128 d = 0;
  r.shuffle(p); for(size_t i = 0; i < na; ++i) d |= bit(p[i]);
  r.shuffle(p); for(size_t i = 0; i < nb; ++i) d |= bit(64 + p[i]);
  return d;
}
// a determinant k electrons away (same spin numbers), best effort
inline u128 excite(vh::Rng& r, size_t n, u128 d, int k) {
  for(int x = 0; x < k; ++x) {
    bool b = r.chance(.5); std::vector<int> o, v;
    for(int tries = 0; tries < 2; ++tries, b = !b) {
      o.clear(); v.clear();
      for(size_t i = 0; i < n; ++i) ((d >> (i + (b ? 64 : 0)) & 1) ? o : v).push_back(i + (b ? 64 : 0));
      if(!o.empty() && !v.empty()) break;
    }
    if(o.empty() || v.empty()) return d;
    d ^= bit(r.pick(o)); d ^= bit(r.pick(v));
  }
  return d;
}
inline std::string dstr(u128 d, size_t n) { std::string s; for(size_t i = 0; i < n; ++i) { bool a = d >> i & 1, b = d >> (64 + i) & 1; s += a ? (b ? '2' : 'u') : (b ? 'd' : '0'); } return s; }
inline uint64_t hashd(u128 d) { uint64_t a = (uint64_t)d, b = (uint64_t)(d >> 64); return (a * 0x9E3779B97F4A7C15ull) ^ (b * 0xC2B2AE3D27D4EB4Full + (a >> 7)); }
inline uint64_t hashi(const Ints& I) { return vh::fnv(I.T.data(), 8 * I.T.size(), vh::fnv(I.V.data(), 8 * std::min<size_t>(I.V.size(), 64))); }
}  // namespace orc
