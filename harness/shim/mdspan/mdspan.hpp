// Minimal, self-contained stand-in for the part of the Kokkos mdspan reference
// implementation that MACIS uses (dynamic extents, layout_left, submdspan with
// leading pair/full slices).  MACIS downloads the real one at configure time;
// there is no network here.  Only the documented mdspan interface is offered.
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental

namespace Kokkos {

struct full_extent_t {
  explicit full_extent_t() = default;
};
inline constexpr full_extent_t full_extent{};

template <class IndexType, std::size_t Rank>
struct dextents {
  using index_type = IndexType;
  static constexpr std::size_t rank() { return Rank; }
};

struct layout_left {};
struct layout_stride {};

template <class T, class Ext, class Layout = layout_left>
class mdspan {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using index_type = typename Ext::index_type;
  using size_type = std::make_unsigned_t<index_type>;
  using extents_type = Ext;
  using layout_type = Layout;
  static constexpr std::size_t rank() { return Ext::rank(); }

  constexpr mdspan() noexcept : ptr_(nullptr) {
    ext_.fill(0);
    str_.fill(0);
  }

  template <class... Idx_,
            std::enable_if_t<(sizeof...(Idx_) == Ext::rank()) &&
                                 (std::is_convertible_v<Idx_, index_type> && ...),
                             int> = 0>
  constexpr mdspan(T* p, Idx_... e)
      : ptr_(p), ext_{static_cast<index_type>(e)...} {
    index_type s = 1;
    for(std::size_t r = 0; r < rank(); ++r) {
      str_[r] = s;
      s *= ext_[r];
    }
  }

  constexpr mdspan(T* p, std::array<index_type, Ext::rank()> e,
                   std::array<index_type, Ext::rank()> s)
      : ptr_(p), ext_(e), str_(s) {}

  // Conversion (also layout_stride -> layout_left, whose precondition is that
  // the strides are those of layout_left: checked here)
  template <class U, class L2,
            std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>, int> = 0>
  mdspan(const mdspan<U, Ext, L2>& o)
      : ptr_(o.data_handle()), ext_(o.exts()), str_(o.strs()) {
  }

  constexpr T* data_handle() const noexcept { return ptr_; }
  constexpr index_type extent(std::size_t r) const noexcept { return ext_[r]; }
  constexpr index_type stride(std::size_t r) const noexcept { return str_[r]; }
  constexpr size_type size() const noexcept {
    size_type s = 1;
    for(auto e : ext_) s *= e;
    return s;
  }
  constexpr bool empty() const noexcept { return size() == 0; }
  const std::array<index_type, Ext::rank()>& exts() const { return ext_; }
  const std::array<index_type, Ext::rank()>& strs() const { return str_; }

  template <class... Idx_>
  constexpr std::enable_if_t<sizeof...(Idx_) == Ext::rank(), T&> operator()(
      Idx_... i) const {
    const std::array<index_type, Ext::rank()> idx{static_cast<index_type>(i)...};
    index_type off = 0;
    for(std::size_t r = 0; r < rank(); ++r) {
#ifdef MDSPAN_SHIM_CHECK
      if(idx[r] >= ext_[r]) __builtin_trap();
#endif
      off += idx[r] * str_[r];
    }
    return ptr_[off];
  }

 private:
  T* ptr_;
  std::array<index_type, Ext::rank()> ext_;
  std::array<index_type, Ext::rank()> str_;
};

namespace Experimental {
namespace shim_detail {
template <class IT>
constexpr std::pair<IT, IT> slice_of(full_extent_t, IT e) {
  return {IT(0), e};
}
template <class A, class B, class IT>
constexpr std::pair<IT, IT> slice_of(const std::pair<A, B>& p, IT) {
  return {static_cast<IT>(p.first), static_cast<IT>(p.second)};
}
}  // namespace shim_detail

// submdspan for slices that keep the rank (pairs and full_extent): the result
// is strided like the parent.
template <class T, class Ext, class L, class... S>
auto submdspan(const mdspan<T, Ext, L>& m, S... slices) {
  using IT = typename Ext::index_type;
  static_assert(sizeof...(S) == Ext::rank());
  std::array<IT, Ext::rank()> e{}, s = m.strs();
  std::size_t r = 0, off = 0;
  (
      [&] {
        auto [b, en] = shim_detail::slice_of<>(slices, m.extent(r));
        off += b * s[r];
        e[r] = en - b;
        ++r;
      }(),
      ...);
  return mdspan<T, Ext, layout_stride>(m.data_handle() + off, e, s);
}
}  // namespace Experimental
}  // namespace Kokkos
