// D01 bit-string primitives, D02 excitation enumeration, D03 canonical strings.
#define VH_MAIN
#include "common.hpp"
#include <bitset>
#include <macis/bitset_operations.hpp>
#include <macis/sd_operations.hpp>
#include <macis/wavefunction_io.hpp>

using namespace vh;
using namespace macis;

template <size_t N> std::string bstr(const std::bitset<N>& b) { return b.to_string(); }
template <size_t N> uint64_t bhash(const std::bitset<N>& b) {
  uint64_t h = N;
  for(size_t i = 0; i < N; ++i) h = h * 1099511628211ull + (b[i] ? 3 : 1);
  return h;
}
// patterns biased to word boundaries, within [0,W)
template <size_t N> std::bitset<N> pattern(Rng& r, size_t W = N) {
  std::bitset<N> b;
  switch(r.in(0, 9)) {
    case 0: break;
    case 1: for(size_t i = 0; i < W; ++i) b[i] = 1; break;
    case 2: b[r.in(0, W - 1)] = 1; break;
    case 3: { for(size_t w : {31ul, 32ul, 63ul, 64ul, 127ul, 128ul, 0ul, N - 1, N / 2, N / 2 - 1}) if(w < W && r.chance(.5)) b[w] = 1; break; }
    case 4: { size_t lo = r.in(0, W - 1), hi = r.in(lo, W - 1); for(size_t i = lo; i <= hi; ++i) b[i] = 1; break; }
    case 5: { size_t lo = r.in(0, W - 1); for(size_t i = lo; i < W; ++i) b[i] = 1; break; }
    case 6: { for(size_t i = 0; i < W; ++i) b[i] = 1; b[r.in(0, W - 1)] = 0; break; }
    default: { double p = r.pick({.05, .2, .5, .8}); for(size_t i = 0; i < W; ++i) b[i] = r.chance(p); }
  }
  return b;
}
template <size_t N> int ref_cmp(const std::bitset<N>& x, const std::bitset<N>& y) {
  for(size_t i = N; i-- > 0;) if(x[i] != y[i]) return x[i] ? 1 : -1;
  return 0;
}

template <size_t N> void d01_width(Rng& r) {
  auto b = pattern<N>(r);
  note(bstr(b));
  std::vector<uint32_t> idx;
  for(size_t i = 0; i < N; ++i) if(b[i]) idx.push_back(i);
  nontrivial(bhash(b));
  if(want_sample()) sample(strf("N=%zu bits=%s", N, bstr(b).c_str()));
  cov(strf("width %zu", N));
  if(!idx.empty()) {
    ok(macis::ffs(b) == idx.front() + 1, "ffs", "N=%zu %s: ffs=%u want %u", N, bstr(b).c_str(), (unsigned)macis::ffs(b), idx.front() + 1);
    ok(macis::fls(b) == idx.back(), "fls", "N=%zu %s: fls=%u want %u", N, bstr(b).c_str(), (unsigned)macis::fls(b), idx.back());
  }
  ok(bits_to_indices(b) == idx, "bits_to_indices", "N=%zu %s", N, bstr(b).c_str());
  std::vector<uint32_t> pre(r.in(0, 5), 77u);
  bits_to_indices(b, pre);
  ok(pre == idx, "bits_to_indices_inplace", "N=%zu %s", N, bstr(b).c_str());
  // machine-word conversions (low word)
  uint64_t w0 = 0;
  for(size_t i = 0; i < std::min<size_t>(N, 64); ++i) if(b[i]) w0 |= 1ull << i;
  if constexpr(N <= 128) {
    ok(fast_to_ullong(b) == w0, "to_ullong", "N=%zu %s -> %llx", N, bstr(b).c_str(), (unsigned long long)fast_to_ullong(b));
    ok(fast_to_ulong(b) == w0, "to_ulong", "N=%zu %s -> %lx", N, bstr(b).c_str(), fast_to_ulong(b));
    uint128_t q = 0;
    for(size_t i = 0; i < N; ++i) if(b[i]) q |= ((uint128_t)1) << i;
    ok(to_uint128(b) == q, "to_uint128", "N=%zu %s", N, bstr(b).c_str());
  }
  // ordering
  auto c = r.chance(.3) ? b : pattern<N>(r);
  if(r.chance(.5)) { c = b; c.flip(r.in(0, N - 1)); if(r.chance(.5)) c.flip(r.in(0, N - 1)); }
  int rc = ref_cmp(b, c);
  ok(bitset_less(b, c) == (rc < 0), "less", "N=%zu %s < %s", N, bstr(b).c_str(), bstr(c).c_str());
  ok(bitset_less(c, b) == (rc > 0), "less", "N=%zu %s < %s", N, bstr(c).c_str(), bstr(b).c_str());
  ok(!bitset_less(b, b), "less_irreflexive", "N=%zu %s", N, bstr(b).c_str());
  ok(bitset_less_comparator<N>()(b, c) == (rc < 0), "less_comparator", "N=%zu", N);
  // masks
  for(int k = 0; k < 4; ++k) {
    size_t i = r.chance(.3) ? r.pick({(size_t)0, N, N / 2, N / 2 - 1, N / 2 + 1, (size_t)1, N - 1}) : r.in(0, N);
    auto m = full_mask<N>(i);
    bool good = true;
    for(size_t j = 0; j < N; ++j) good = good && (m[j] == (j < i));
    ok(good, "full_mask_dynamic", "N=%zu i=%zu %s", N, i, bstr(m).c_str());
  }
  // sort consistency
  if(r.chance(.2)) {
    std::vector<std::bitset<N>> v;
    for(int i = 0, n = r.in(2, 40); i < n; ++i) v.push_back(i && r.chance(.3) ? v[r.in(0, i - 1)] : pattern<N>(r));
    std::sort(v.begin(), v.end(), bitset_less_comparator<N>());
    for(size_t i = 1; i < v.size(); ++i)
      if(!ok(ref_cmp(v[i - 1], v[i]) <= 0, "sort", "N=%zu not sorted", N)) break;
    auto probe = v[r.in(0, v.size() - 1)];
    auto it = std::lower_bound(v.begin(), v.end(), probe, bitset_less_comparator<N>());
    ok(it != v.end() && *it == probe, "search", "N=%zu lower_bound misses an element", N);
  }
}
TEST("D01", "width32", 3000, 60000) { d01_width<32>(r); }
TEST("D01", "width64", 3000, 60000) { d01_width<64>(r); }
TEST("D01", "width128", 3000, 60000) { d01_width<128>(r); }
TEST("D01", "width256", 2000, 40000) { d01_width<256>(r); }
TEST("D01", "width_odd", 600, 20000) {  // widths that are not the specialised ones
  // (40 and 48 share a word with 64-bit conversions; 192 uses the generic path)
  auto chk = [&](auto tag) {
    constexpr size_t N = decltype(tag)::value;
    auto b = pattern<N>(r), c = pattern<N>(r);
    std::vector<uint32_t> idx;
    for(size_t i = 0; i < N; ++i) if(b[i]) idx.push_back(i);
    nontrivial(bhash(b));
    if(!idx.empty()) {
      ok(macis::ffs(b) == idx.front() + 1, "ffs", "N=%zu", N);
      ok(macis::fls(b) == idx.back(), "fls", "N=%zu", N);
    }
    ok(bits_to_indices(b) == idx, "bits_to_indices", "N=%zu", N);
    ok(bitset_less(b, c) == (ref_cmp(b, c) < 0), "less", "N=%zu", N);
  };
  chk(std::integral_constant<size_t, 16>());
  chk(std::integral_constant<size_t, 48>());
  chk(std::integral_constant<size_t, 96>());
  chk(std::integral_constant<size_t, 192>());
}
// exhaustive: every single-bit and every two-bit pattern
template <size_t N> void d01_exh() {
  uint64_t n = 0;
  for(size_t i = 0; i < N; ++i)
    for(size_t j = i; j < N; ++j) {
      std::bitset<N> b; b[i] = 1; b[j] = 1;
      ok(macis::ffs(b) == i + 1, "ffs", "N=%zu bits %zu,%zu", N, i, j);
      ok(macis::fls(b) == j, "fls", "N=%zu bits %zu,%zu", N, i, j);
      std::vector<uint32_t> idx{(uint32_t)i};
      if(j != i) idx.push_back(j);
      ok(bits_to_indices(b) == idx, "bits_to_indices", "N=%zu bits %zu,%zu", N, i, j);
      std::bitset<N> c; c[j] = 1;
      ok(bitset_less(c, b) == (i != j), "less", "N=%zu bits %zu,%zu", N, i, j);
      nontrivial(N * 1000003 + i * 1009 + j);
      ++n;
    }
  for(size_t i = 0; i <= N; ++i) {
    auto m = full_mask<N>(i);
    bool good = true;
    for(size_t j = 0; j < N; ++j) good = good && (m[j] == (j < i));
    ok(good, "full_mask_dynamic", "N=%zu i=%zu", N, i);
  }
  cov(strf("one/two-bit patterns enumerated, width %zu", N), n);
}
TEST("D01", "exhaustive_two_bits", 1, 1) { d01_exh<32>(); d01_exh<64>(); d01_exh<128>(); d01_exh<256>(); }
TEST("D01", "integer_fls", 200, 5000) {
  uint64_t x = r.u64() >> r.in(0, 63);
  if(!x) x = 1;
  unsigned ref = 0;
  for(unsigned i = 0; i < 64; ++i) if(x >> i & 1) ref = i;
  nontrivial(x);
  ok(macis::fls((unsigned long)x) == ref, "int_fls", "%lx", x);
  ok(macis::fls((unsigned long long)x) == ref, "int_fls", "%lx", x);
  uint32_t y = x & 0xffffffffu; if(!y) y = 1; ref = 0;
  for(unsigned i = 0; i < 32; ++i) if(y >> i & 1) ref = i;
  ok(macis::fls((unsigned)y) == ref, "int_fls", "%x", y);
}
template <size_t A, size_t B> void mask_static() {
  auto m = full_mask<A, B>();
  bool good = true;
  for(size_t j = 0; j < B; ++j) good = good && (m[j] == (j < A));
  ok(good, "full_mask_static", "<%zu,%zu> %s", A, B, bstr(m).c_str());
  nontrivial(A * 1000 + B);
}
template <size_t S, size_t L> void trunc_expand(Rng& r) {
  auto b = pattern<L>(r);
  auto t = truncate_bitset<S>(b);
  bool good = true;
  for(size_t i = 0; i < S; ++i) good = good && t[i] == b[i];
  ok(good, "truncate", "<%zu,%zu> %s", S, L, bstr(b).c_str());
  auto s = pattern<S>(r);
  auto e = expand_bitset<L>(s);
  good = true;
  for(size_t i = 0; i < L; ++i) good = good && e[i] == (i < S ? s[i] : false);
  ok(good, "expand", "<%zu,%zu> %s", S, L, bstr(s).c_str());
  nontrivial(bhash(b) ^ bhash(s));
}
template <size_t N> void words(Rng& r) {
  auto b = pattern<N>(r);
  auto lo = bitset_lo_word(b); auto hi = bitset_hi_word(b);
  bool g1 = true, g2 = true;
  for(size_t i = 0; i < N / 2; ++i) { g1 = g1 && lo[i] == b[i]; g2 = g2 && hi[i] == b[i + N / 2]; }
  ok(g1, "lo_word", "N=%zu %s", N, bstr(b).c_str());
  ok(g2, "hi_word", "N=%zu %s", N, bstr(b).c_str());
  nontrivial(bhash(b));
}
TEST("D01", "masks_static", 1, 1) {
  mask_static<32, 32>(); mask_static<32, 64>(); mask_static<64, 64>(); mask_static<64, 128>(); mask_static<128, 128>();
  mask_static<128, 256>(); mask_static<1, 32>(); mask_static<5, 64>(); mask_static<32, 128>(); mask_static<100, 128>();
  mask_static<64, 256>(); mask_static<16, 32>(); mask_static<24, 48>(); mask_static<63, 64>(); mask_static<65, 128>(); mask_static<200, 256>(); mask_static<31, 32>(); mask_static<33, 64>();
}
TEST("D01", "truncate_expand_words", 1500, 30000) {
  trunc_expand<32, 64>(r); trunc_expand<64, 128>(r); trunc_expand<128, 256>(r); trunc_expand<32, 32>(r);
  trunc_expand<64, 64>(r); trunc_expand<32, 128>(r); trunc_expand<64, 256>(r); trunc_expand<16, 64>(r);
  trunc_expand<48, 96>(r); trunc_expand<128, 128>(r); trunc_expand<100, 128>(r); words<64>(r); words<128>(r);
}

// ------------------------------------------------------------------ D02
// occupation sets as sorted vectors; the references are subset enumerations
template <size_t N> std::set<std::string> sset(const std::vector<std::bitset<N>>& v) {
  std::set<std::string> s;
  for(auto& x : v) s.insert(bstr(x));
  return s;
}
template <size_t N> void same_set(const std::vector<std::bitset<N>>& got, const std::set<std::string>& ref, const char* key, const std::string& ctx) {
  auto s = sset(got);
  ok(s.size() == got.size(), (std::string(key) + ":duplicates").c_str(), "%s: %zu generated, %zu distinct", ctx.c_str(), got.size(), s.size());
  if(s != ref) {
    size_t miss = 0, extra = 0;
    for(auto& x : ref) if(!s.count(x)) ++miss;
    for(auto& x : s) if(!ref.count(x)) ++extra;
    fail(key, "%s: %zu generated, %zu expected, %zu missing, %zu extra", ctx.c_str(), got.size(), ref.size(), miss, extra);
  } else ++st().checks;
  cov("excited determinants compared", got.size());
}
// exact excitation of rank (ka,kb) restricted to orbitals in `orbs` per spin, by flipping occupied->virtual pairs
template <size_t N> void ref_excite(std::bitset<N> s, size_t off, const std::vector<uint32_t>& orbs, int k, std::vector<std::bitset<N>>& out) {
  // choose k occupied and k virtual
  std::vector<uint32_t> o, v;
  for(auto p : orbs) (s[off + p] ? o : v).push_back(p);
  if(k == 0) { out.push_back(s); return; }
  if(k == 1) { for(auto i : o) for(auto a : v) { auto t = s; t[off + i] = 0; t[off + a] = 1; out.push_back(t); } return; }
  for(size_t i = 0; i < o.size(); ++i) for(size_t j = 0; j < i; ++j)
    for(size_t a = 0; a < v.size(); ++a) for(size_t b = 0; b < a; ++b) {
      auto t = s; t[off + o[i]] = 0; t[off + o[j]] = 0; t[off + v[a]] = 1; t[off + v[b]] = 1; out.push_back(t);
    }
}
template <size_t N> std::bitset<N> det(Rng& r, size_t norb, size_t na, size_t nb) {
  std::vector<uint32_t> p(norb);
  for(size_t i = 0; i < norb; ++i) p[i] = i;
  std::bitset<N> s;
  r.shuffle(p); for(size_t i = 0; i < na; ++i) s[p[i]] = 1;
  r.shuffle(p); for(size_t i = 0; i < nb; ++i) s[p[i] + N / 2] = 1;
  return s;
}
size_t pick_norb(Rng& r, size_t half, size_t lim) {
  switch(r.in(0, 5)) {
    case 0: return std::min(half, lim);
    case 1: return std::min<size_t>(half, std::max<size_t>(1, lim - 1));
    case 2: return r.in(1, 4);
    default: return r.in(1, std::min(half, lim));
  }
}
size_t pick_ne(Rng& r, size_t norb) {
  switch(r.in(0, 6)) {
    case 0: return 0;
    case 1: return norb;
    case 2: return norb - 1;
    case 3: return std::min<size_t>(1, norb);
    default: return r.in(0, norb);
  }
}
template <size_t N> void d02_spin(Rng& r, size_t lim) {
  size_t norb = pick_norb(r, N / 2, lim), na = pick_ne(r, norb), nb = pick_ne(r, norb);
  if(norb > 12) { na = r.chance(.5) ? std::min<size_t>(na, 3) : (na > norb - 3 ? na : norb - 2); nb = std::min<size_t>(nb, 3); }
  auto s = det<N>(r, norb, na, nb);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu %s", N, norb, na, nb, bstr(s).c_str());
  note(ctx); nontrivial(bhash(s) * 131 + norb);
  if(want_sample()) sample(ctx);
  cov(strf("width %zu", N));
  if(na == norb || nb == norb) cov("fully occupied spin channel");
  if(na == 0 || nb == 0) cov("empty spin channel");
  if(norb == N / 2) cov("norb at half width");
  std::vector<uint32_t> all(norb);
  for(size_t i = 0; i < norb; ++i) all[i] = i;
  std::vector<std::bitset<N>> S, D, t, u;
  ref_excite<N>(s, 0, all, 1, t); ref_excite<N>(s, N / 2, all, 1, t);
  auto rs = sset(t);
  ref_excite<N>(s, 0, all, 2, u); ref_excite<N>(s, N / 2, all, 2, u);
  { std::vector<std::bitset<N>> a; ref_excite<N>(s, 0, all, 1, a); for(auto x : a) ref_excite<N>(x, N / 2, all, 1, u); }
  auto rd = sset(u);
  if(r.chance(.5)) { S.resize(3); D.resize(2); }  // stale contents must not survive
  generate_singles_spin(norb, s, S);
  same_set(S, rs, "singles_spin", ctx);
  if(r.chance(.5)) S.resize(3);
  generate_singles_doubles_spin(norb, s, S, D);
  same_set(S, rs, "singles_of_sd_spin", ctx);
  same_set(D, rd, "doubles_of_sd_spin", ctx);
  auto cis = rs; cis.insert(bstr(s));
  same_set(generate_cis_hilbert_space(norb, s), cis, "cis", ctx);
  auto cisd = cis; cisd.insert(rd.begin(), rd.end());
  same_set(generate_cisd_hilbert_space(norb, s), cisd, "cisd", ctx);
  D.resize(1); generate_cisd_hilbert_space(norb, s, D); same_set(D, cisd, "cisd", ctx);
  // active windows
  std::vector<uint32_t> as;
  size_t off = r.in(0, norb - 1), len = r.in(0, norb - off);
  bool contiguous = r.chance(.5);
  for(size_t i = 0; i < norb; ++i) if(contiguous ? (i >= off && i < off + len) : r.chance(.6)) as.push_back(i);
  cov("active windows", 1);
  t.clear(); u.clear();
  ref_excite<N>(s, 0, as, 1, t); ref_excite<N>(s, N / 2, as, 1, t);
  ref_excite<N>(s, 0, as, 2, u); ref_excite<N>(s, N / 2, as, 2, u);
  { std::vector<std::bitset<N>> a; ref_excite<N>(s, 0, as, 1, a); for(auto x : a) ref_excite<N>(x, N / 2, as, 1, u); }
  generate_singles_spin_as(norb, s, S, as);
  same_set(S, sset(t), "singles_spin_as", ctx);
  generate_singles_doubles_spin_as(norb, s, S, D, as);
  same_set(S, sset(t), "singles_of_sd_spin_as", ctx);
  same_set(D, sset(u), "doubles_of_sd_spin_as", ctx);
  // residues: all two-electron removals
  std::vector<std::bitset<N>> R; std::set<std::string> rr;
  std::vector<size_t> occ;
  for(size_t i = 0; i < N; ++i) if(s[i]) occ.push_back(i);
  for(size_t i = 0; i < occ.size(); ++i) for(size_t j = 0; j < i; ++j) { auto x = s; x[occ[i]] = 0; x[occ[j]] = 0; rr.insert(bstr(x)); }
  generate_residues(s, R);
  same_set(R, rr, "residues", ctx);
}
TEST("D02", "spin64", 260, 6000) { d02_spin<64>(r, r.chance(.15) ? 32 : 9); }
TEST("D02", "spin128", 260, 6000) { d02_spin<128>(r, r.chance(.05) ? 64 : 9); }

template <size_t N> void d02_plain(Rng& r, size_t lim) {  // spinless strings
  size_t norb = pick_norb(r, N, lim), ne = pick_ne(r, norb);
  if(norb > 14) ne = r.chance(.5) ? std::min<size_t>(ne, 2) : norb - std::min<size_t>(2, r.in(0, 2));
  std::bitset<N> s;
  std::vector<uint32_t> p(norb), all(norb);
  for(size_t i = 0; i < norb; ++i) p[i] = all[i] = i;
  r.shuffle(p);
  for(size_t i = 0; i < ne; ++i) s[p[i]] = 1;
  auto ctx = strf("N=%zu norb=%zu ne=%zu %s", N, norb, ne, bstr(s).c_str());
  note(ctx); nontrivial(bhash(s) * 137 + norb); if(want_sample()) sample(ctx);
  if(ne == norb) cov("fully occupied string");
  std::vector<uint32_t> occ(2, 9u), vir(7, 9u), ro, rv;
  for(auto i : all) (s[i] ? ro : rv).push_back(i);
  bitset_to_occ_vir(norb, s, occ, vir);
  auto so = occ, sv = vir; std::sort(so.begin(), so.end()); std::sort(sv.begin(), sv.end());
  ok(so == ro, "occ_list", "%s", ctx.c_str());
  ok(sv == rv, "vir_list", "%s", ctx.c_str());
  std::vector<std::bitset<N>> S(2), D(3), t, u;
  ref_excite<N>(s, 0, all, 1, t); ref_excite<N>(s, 0, all, 2, u);
  generate_singles(norb, s, S); same_set(S, sset(t), "singles", ctx);
  generate_doubles(norb, s, D); same_set(D, sset(u), "doubles", ctx);
  generate_singles_doubles(norb, s, S, D);
  same_set(S, sset(t), "singles_of_sd", ctx); same_set(D, sset(u), "doubles_of_sd", ctx);
  std::vector<uint32_t> as;
  for(auto i : all) if(r.chance(.6)) as.push_back(i);
  ro.clear(); rv.clear();
  for(auto i : as) (s[i] ? ro : rv).push_back(i);
  bitset_to_occ_vir_as(norb, s, occ, vir, as);
  ok(occ == ro && vir == rv, "occ_vir_as", "%s", ctx.c_str());
  t.clear(); u.clear();
  ref_excite<N>(s, 0, as, 1, t); ref_excite<N>(s, 0, as, 2, u);
  generate_singles_as(norb, s, S, as); same_set(S, sset(t), "singles_as", ctx);
  generate_singles_doubles_as(norb, s, S, D, as);
  same_set(S, sset(t), "singles_of_sd_as", ctx); same_set(D, sset(u), "doubles_of_sd_as", ctx);
}
TEST("D02", "plain32", 250, 6000) { d02_plain<32>(r, r.chance(.1) ? 32 : 10); }
TEST("D02", "plain64", 250, 6000) { d02_plain<64>(r, r.chance(.08) ? 64 : 10); }
TEST("D02", "plain128", 120, 3000) { d02_plain<128>(r, r.chance(.05) ? 128 : 10); }
TEST("D02", "plain256", 60, 1500) { d02_plain<256>(r, r.chance(.03) ? 200 : 10); }

template <size_t N> void d02_full(Rng& r) {
  size_t norb = r.in(1, 7), na = pick_ne(r, norb), nb = pick_ne(r, norb);
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu", N, norb, na, nb);
  note(ctx); nontrivial(N * 100000 + norb * 1000 + na * 30 + nb); if(want_sample()) sample(ctx);
  std::set<std::string> ref;
  for(uint64_t a = 0; a < (1ull << norb); ++a) if((size_t)__builtin_popcountll(a) == na)
    for(uint64_t b = 0; b < (1ull << norb); ++b) if((size_t)__builtin_popcountll(b) == nb) {
      std::bitset<N> s;
      for(size_t i = 0; i < norb; ++i) { s[i] = a >> i & 1; s[i + N / 2] = b >> i & 1; }
      ref.insert(bstr(s));
    }
  same_set(generate_hilbert_space<N>(norb, na, nb), ref, "hilbert_space", ctx);
}
TEST("D02", "hilbert64", 60, 400) { d02_full<64>(r); }
TEST("D02", "hilbert128", 60, 400) { d02_full<128>(r); }
TEST("D02", "hilbert256", 30, 200) { d02_full<256>(r); }
TEST("D02", "combs", 80, 600) {
  size_t n = r.in(1, 11), k = pick_ne(r, n);
  std::set<std::string> ref;
  for(uint64_t a = 0; a < (1ull << n); ++a) if((size_t)__builtin_popcountll(a) == k) ref.insert(bstr(std::bitset<64>(a)));
  nontrivial(n * 100 + k);
  same_set(generate_combs<64>(n, k), ref, "combs", strf("n=%zu k=%zu", n, k));
  std::set<std::string> ref2;
  for(auto& s : ref) ref2.insert(std::string(64, '0') + s);
  same_set(generate_combs<128>(n, k), ref2, "combs", strf("n=%zu k=%zu", n, k));
  // wide, few
  size_t W = r.pick({63, 64, 65, 100, 127, 128}); size_t kk = r.pick({0, 1, (int)W});
  std::set<std::string> ref3;
  if(kk == 1) for(size_t i = 0; i < W; ++i) { std::bitset<128> b; b[i] = 1; ref3.insert(bstr(b)); }
  else { std::bitset<128> b; for(size_t i = 0; i < kk; ++i) b[i] = 1; ref3.insert(bstr(b)); }
  same_set(generate_combs<128>(W, kk), ref3, "combs", strf("n=%zu k=%zu", W, kk));
}
template <size_t N> void d02_hf(Rng& r) {
  size_t norb = pick_norb(r, N / 2, N / 2), na = pick_ne(r, norb), nb = pick_ne(r, norb);
  auto h = canonical_hf_determinant<N>(na, nb);
  bool g = true;
  for(size_t i = 0; i < N / 2; ++i) g = g && h[i] == (i < na) && h[i + N / 2] == (i < nb);
  ok(g, "hf", "N=%zu na=%zu nb=%zu %s", N, na, nb, bstr(h).c_str());
  std::vector<double> e(norb);
  for(auto& x : e) x = r.chance(.3) ? (double)r.in(-2, 2) : r.gauss();
  auto h2 = canonical_hf_determinant<N>(na, nb, e);
  size_t ca = 0, cb = 0; double maxo = -1e300, minv = 1e300, maxob = -1e300, minvb = 1e300; bool inwin = true;
  for(size_t i = 0; i < N / 2; ++i) {
    if(i >= norb) { inwin = inwin && !h2[i] && !h2[i + N / 2]; continue; }
    if(h2[i]) { ++ca; maxo = std::max(maxo, e[i]); } else minv = std::min(minv, e[i]);
    if(h2[i + N / 2]) { ++cb; maxob = std::max(maxob, e[i]); } else minvb = std::min(minvb, e[i]);
  }
  nontrivial(bhash(h2) + norb);
  ok(ca == na && cb == nb && inwin, "hf_ordered_count", "N=%zu norb=%zu na=%zu nb=%zu %s", N, norb, na, nb, bstr(h2).c_str());
  ok(maxo <= minv && maxob <= minvb, "hf_ordered_energy", "N=%zu norb=%zu na=%zu nb=%zu %s", N, norb, na, nb, bstr(h2).c_str());
}
TEST("D02", "hf", 300, 6000) { d02_hf<64>(r); d02_hf<128>(r); d02_hf<256>(r); }

// ------------------------------------------------------------------ D03
template <size_t N> std::bitset<N> anydet(Rng& r, size_t norb) {
  std::bitset<N> s; auto a = pattern<N / 2>(r, norb), b = pattern<N / 2>(r, norb);
  if(r.chance(.1)) b = a;
  for(size_t i = 0; i < norb; ++i) { s[i] = a[i]; s[i + N / 2] = b[i]; }
  return s;
}
template <size_t N> void d03_string(Rng& r) {
  auto s = anydet<N>(r, r.chance(.5) ? N / 2 : r.in(1, N / 2));
  note(bstr(s)); nontrivial(bhash(s)); if(want_sample()) sample(bstr(s));
  auto str = to_canonical_string(s);
  ok(str.size() == N / 2, "string_length", "N=%zu len=%zu", N, str.size());
  for(size_t i = 0; i < N / 2 && i < str.size(); ++i) {
    char want = s[i] ? (s[i + N / 2] ? '2' : 'u') : (s[i + N / 2] ? 'd' : '0');
    if(!ok(str[i] == want, "string_char", "N=%zu orbital %zu: %c want %c (%s)", N, i, str[i], want, bstr(s).c_str())) break;
  }
  ok(from_canonical_string<N>(str) == s, "string_roundtrip", "N=%zu %s", N, bstr(s).c_str());
  // short strings: orbitals not mentioned are empty
  size_t L = r.in(0, N / 2); std::string sh; std::bitset<N> want;
  for(size_t i = 0; i < L; ++i) {
    char c = "02ud"[r.in(0, 3)]; sh += c;
    if(c == '2' || c == 'u') want[i] = 1;
    if(c == '2' || c == 'd') want[i + N / 2] = 1;
  }
  ok(from_canonical_string<N>(sh) == want, "string_parse", "N=%zu '%s'", N, sh.c_str());
}
TEST("D03", "string64", 1500, 30000) { d03_string<64>(r); }
TEST("D03", "string128", 1500, 30000) { d03_string<128>(r); }

template <size_t N> void d03_file(Rng& r) {
  size_t norb = r.chance(.3) ? N / 2 : r.in(1, N / 2), n = r.pick({1, 2, 3, 7, 20, 60});
  size_t na = r.in(0, norb), nb = r.in(0, norb);
  std::vector<std::bitset<N>> d(n); std::vector<double> c(n);
  for(size_t i = 0; i < n; ++i) {
    d[i] = det<N>(r, norb, na, nb);
    c[i] = r.pick({0., 1., -1., r.gauss(), r.gauss() * 1e-300, r.gauss() * 1e-12, -r.uni(), r.gauss() * 1e20, 5e-324, -0.1});
  }
  auto fn = st().tmpdir + "/wfn_" + std::to_string(getpid());
  auto ctx = strf("N=%zu norb=%zu na=%zu nb=%zu n=%zu", N, norb, na, nb, n);
  note(ctx); uint64_t h = n; for(auto& x : d) h = h * 31 + bhash(x); nontrivial(h); if(want_sample()) sample(ctx);
  if(r.chance(.3)) { std::ofstream f(fn); for(int i = 0; i < 200; ++i) f << "stale line that must not survive\n"; }
  write_wavefunction(fn, norb, d, c);
  {  // header
    std::ifstream f(fn); std::string l; std::getline(f, l); std::stringstream ss(l);
    long a = -1, b = -1, e = -1, g = -1; ss >> a >> b >> e >> g;
    ok(a == (long)n && b == (long)norb && e == (long)na && g == (long)nb, "header", "%s: '%s'", ctx.c_str(), l.c_str());
    size_t lines = 0; while(std::getline(f, l)) if(!l.empty()) ++lines;
    ok(lines == n, "line_count", "%s: %zu lines", ctx.c_str(), lines);
  }
  std::vector<std::bitset<N>> d2(r.in(0, 4)); std::vector<double> c2(r.in(0, 3));
  bool thrown = false;
  for(auto x : c) if(x != 0 && std::abs(x) < 2.3e-308) thrown = true;  // subnormals: stod may reject
  if(thrown) { bool t = vh::throws([&] { read_wavefunction(fn, d2, c2); }); cov(t ? "subnormal rejected" : "subnormal accepted"); ::unlink(fn.c_str()); return; }
  read_wavefunction(fn, d2, c2);
  ok(d2 == d, "file_dets", "%s: %zu read", ctx.c_str(), d2.size());
  ok(c2.size() == n, "file_ncoef", "%s: %zu read", ctx.c_str(), c2.size());
  for(size_t i = 0; i < std::min(n, c2.size()); ++i)
    if(!ok(c2[i] == c[i], "file_coef", "%s: %zu: %.17g -> %.17g", ctx.c_str(), i, c[i], c2[i])) break;
  cov("determinants round-tripped", n);
  ok(vh::throws([&] { c.push_back(1.); write_wavefunction(fn + "x", norb, d, c); }), "mismatch_accepted", "size mismatch accepted: %s", ctx.c_str());
  ::unlink((fn + "x").c_str()); ::unlink(fn.c_str());
}
TEST("D03", "file64", 120, 3000) { d03_file<64>(r); }
TEST("D03", "file128", 120, 3000) { d03_file<128>(r); }
TEST("D03", "missing_file", 3, 10) {
  std::vector<std::bitset<64>> d; std::vector<double> c;
  nontrivial(r.u64());
  ok(vh::throws([&] { read_wavefunction(st().tmpdir + "/no_such_wavefunction", d, c); }), "missing_file", "missing file silently accepted");
}
