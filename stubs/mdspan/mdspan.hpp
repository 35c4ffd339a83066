#pragma once
// Minimal stand-in for the reference mdspan library (not installed in the sandbox): dynamic extents, layout_left and layout_stride results of submdspan.
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
#include <tuple>
#include <type_traits>
#include <utility>
#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental
namespace Kokkos {
template <class I, size_t R> struct dextents { static constexpr size_t rank_ = R; };
struct layout_left {};
struct layout_stride {};
struct full_extent_t {};
inline constexpr full_extent_t full_extent{};
template <class T, class E, class L = layout_left> class mdspan;
// dimensions beyond the rank have extent 1
template <class T, class I, size_t R>
class mdspan<T, dextents<I, R>, layout_left> {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using index_type = I; using size_type = I;
  T* p_ = nullptr; size_t e0_ = 0, e1_ = 1, e2_ = 1, e3_ = 1;
  mdspan() = default;
  mdspan(T* p, size_t a) : p_(p), e0_(a) {}
  mdspan(T* p, size_t a, size_t b) : p_(p), e0_(a), e1_(b) {}
  mdspan(T* p, size_t a, size_t b, size_t c) : p_(p), e0_(a), e1_(b), e2_(c) {}
  mdspan(T* p, size_t a, size_t b, size_t c, size_t d) : p_(p), e0_(a), e1_(b), e2_(c), e3_(d) {}
  template <class U, class = std::enable_if_t<std::is_same_v<const U, T>>>
  mdspan(const mdspan<U, dextents<I, R>, layout_left>& o) : p_(o.p_), e0_(o.e0_), e1_(o.e1_), e2_(o.e2_), e3_(o.e3_) {}
  mdspan(const mdspan<T, dextents<I, R>, layout_stride>& o) : p_(o.data_handle()), e0_(o.extent(0)), e1_(R > 1 ? o.extent(R > 1 ? 1 : 0) : 1), e2_(R > 2 ? o.extent(R > 2 ? 2 : 0) : 1), e3_(R > 3 ? o.extent(R > 3 ? 3 : 0) : 1) {}   // as in the library: the strides are the caller's promise
  T* data_handle() const { return p_; }
  size_t extent(size_t r) const { return r == 0 ? e0_ : r == 1 ? e1_ : r == 2 ? e2_ : e3_; }
  size_t size() const { return e0_ * e1_ * e2_ * e3_; }
  size_t stride(size_t r) const { return r == 0 ? 1 : r == 1 ? e0_ : r == 2 ? e0_ * e1_ : e0_ * e1_ * e2_; }
  static constexpr size_t rank() { return R; }
  T& operator()(size_t i) const { return p_[i]; }
  T& operator()(size_t i, size_t j) const { return p_[i + j * e0_]; }
  T& operator()(size_t i, size_t j, size_t k) const { return p_[i + j * e0_ + k * (e0_ * e1_)]; }
  T& operator()(size_t i, size_t j, size_t k, size_t l) const { return p_[i + j * e0_ + k * (e0_ * e1_) + l * (e0_ * e1_ * e2_)]; }
};
template <class T, class I, size_t R>
class mdspan<T, dextents<I, R>, layout_stride> {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using index_type = I; using size_type = I;
  T* p_ = nullptr; std::array<size_t, R> e_{}, s_{};
  T* data_handle() const { return p_; }
  size_t extent(size_t r) const { return e_[r]; }
  size_t size() const { size_t r = 1; for(auto e : e_) r *= e; return r; }
  size_t stride(size_t r) const { return s_[r]; }
  template <class... J> T& operator()(J... j) const { size_t o = 0, d = 0; ((o += s_[d++] * size_t(j)), ...); return p_[o]; }
};
namespace Experimental {
namespace detail {
template <class S> struct keeps : std::true_type {};
template <class S> constexpr bool is_index = std::is_integral_v<std::decay_t<S>>;
}
template <class T, class I, size_t R, class L, class... S>
auto submdspan(const mdspan<T, dextents<I, R>, L>& m, S... s) {
  constexpr size_t K = (size_t(0) + ... + (detail::is_index<S> ? 0 : 1));
  mdspan<T, dextents<I, K>, layout_stride> r;
  size_t off = 0, d = 0, k = 0;
  auto one = [&](auto x) {
    using X = std::decay_t<decltype(x)>;
    if constexpr(detail::is_index<X>) off += size_t(x) * m.stride(d);
    else if constexpr(std::is_same_v<X, full_extent_t>) { r.e_[k] = m.extent(d); r.s_[k] = m.stride(d); ++k; }
    else { off += size_t(std::get<0>(x)) * m.stride(d); r.e_[k] = size_t(std::get<1>(x)) - size_t(std::get<0>(x)); r.s_[k] = m.stride(d); ++k; }
    ++d;
  };
  (one(s), ...);
  r.p_ = m.data_handle() + off;
  return r;
}
}
}
