#include "bits.hpp"
using namespace hv; using namespace macis;
template <size_t N> void unary(std::bitset<N> b) {
  auto p = positions(b);
  begin_case("N=" + std::to_string(N) + " bits=" + bs(b), p.size() > 1);
  if(!p.empty()) {
    check(macis::ffs(b) == p.front() + 1, "ffs = " + std::to_string(macis::ffs(b)));
    check(macis::fls(b) == p.back(), "fls = " + std::to_string(macis::fls(b)));
  }
  check(bits_to_indices(b) == p, "bits_to_indices " + show(bits_to_indices(b)));
  std::vector<uint32_t> v(5, 77); bits_to_indices(b, v); check(v == p, "bits_to_indices into a used vector " + show(v));
  uint64_t lo = 0; for(auto i : p) if(i < 64) lo |= 1ull << i;
  bool wide = !p.empty() && p.back() >= 64;
  if constexpr(N == 32 || N == 64 || N == 128) {
    check(fast_to_ullong(b) == lo, "fast_to_ullong");
    check(fast_to_ulong(b) == lo, "fast_to_ulong");
  } else {
    if(wide) { check(throws([&] { (void)fast_to_ullong(b); }), "fast_to_ullong of a value beyond 64 bits"); check(throws([&] { (void)fast_to_ulong(b); }), "fast_to_ulong of a value beyond 64 bits"); }
    else { check(fast_to_ullong(b) == lo, "fast_to_ullong"); check(fast_to_ulong(b) == lo, "fast_to_ulong"); }
  }
  if constexpr(N <= 128) { auto u = to_uint128(b); for(size_t i = 0; i < 128; ++i) check(bool((u >> i) & 1) == (i < N && b.test(i)), "to_uint128 bit " + std::to_string(i)); }
  if constexpr(N == 64 || N == 128) {
    auto l = bitset_lo_word(b), h = bitset_hi_word(b);
    for(size_t i = 0; i < N / 2; ++i) { check(l.test(i) == b.test(i), "low half"); check(h.test(i) == b.test(i + N / 2), "high half"); }
  }
}
template <size_t N, size_t M> void narrow(std::bitset<M> b) {
  begin_case("truncate " + std::to_string(M) + "->" + std::to_string(N) + " bits=" + bs(b));
  auto t = truncate_bitset<N>(b); for(size_t i = 0; i < N; ++i) check(t.test(i) == b.test(i), "truncated bit " + std::to_string(i));
}
template <size_t N, size_t M> void widen(std::bitset<M> b) {
  begin_case("expand " + std::to_string(M) + "->" + std::to_string(N) + " bits=" + bs(b));
  auto t = expand_bitset<N>(b); for(size_t i = 0; i < N; ++i) check(t.test(i) == (i < M && b.test(i)), "expanded bit " + std::to_string(i));
}
template <size_t N, size_t M> void smask() {
  begin_case("full_mask<" + std::to_string(N) + "," + std::to_string(M) + ">");
  auto m = full_mask<N, M>(); for(size_t i = 0; i < M; ++i) check(m.test(i) == (i < N), "bit " + std::to_string(i));
}
template <size_t N> void binary(std::bitset<N> a, std::bitset<N> b) {
  begin_case("bitset_less N=" + std::to_string(N) + " x=" + bs(a) + " y=" + bs(b), a != b);
  check(bitset_less(a, b) == ref_less(a, b), "x<y"); check(bitset_less(b, a) == ref_less(b, a), "y<x"); check(!bitset_less(a, a), "x<x");
  check(bitset_less_comparator<N>{}(a, b) == ref_less(a, b), "comparator");
}
template <size_t N> void width() {
  std::vector<std::bitset<N>> xs; xs.push_back({}); xs.push_back(~std::bitset<N>());
  for(size_t i = 0; i < N; ++i) { xs.push_back(std::bitset<N>().set(i)); xs.push_back(~std::bitset<N>().set(i)); }
  for(int r = 0; r < (g_thorough ? 4000 : 500); ++r) xs.push_back(rbits<N>());
  for(auto& b : xs) unary(b);
  for(size_t r = 0; r < xs.size(); ++r) {
    auto a = xs[r]; binary(a, xs[ri(0, xs.size() - 1)]);
    auto c = a; c.flip(ri(0, N - 1)); binary(a, c); c.flip(ri(0, N - 1)); binary(a, c);
  }
  for(size_t i = 0; i <= N; ++i) {
    begin_case("full_mask<" + std::to_string(N) + ">(" + std::to_string(i) + ")");
    auto m = full_mask<N>(i); for(size_t k = 0; k < N; ++k) check(m.test(k) == (k < i), "bit " + std::to_string(k));
  }
  for(auto& b : xs) {
    narrow<N>(b);
    if constexpr(N >= 32) narrow<32>(b);
    if constexpr(N >= 64) narrow<64>(b);
    if constexpr(N >= 96) narrow<96>(b);
    if constexpr(N >= 128) narrow<128>(b);
    narrow<N / 2>(b); narrow<N / 4>(b); narrow<7>(b);
    widen<N>(b); widen<256>(b); widen<N + 1>(b); widen<2 * N>(b);
    if constexpr(N <= 64) widen<64>(b);
    if constexpr(N <= 96) widen<96>(b);
    if constexpr(N <= 128) widen<128>(b);
  }
  smask<N, N>(); smask<N / 2, N>(); smask<N / 4, N>(); smask<1, N>(); smask<N, 2 * N>(); smask<N - 1, N>(); smask<N, 256>(); smask<N / 2 + 1, N>(); smask<N / 2 - 1, N>();
}
template <class I> void ints() {
  for(unsigned k = 0; k < sizeof(I) * 8; ++k) for(int r = 0; r < 4; ++r) {
    I x = (I(1) << k) | (r ? (I)(rng()() & ((I(1) << k) - 1)) : I(0));
    begin_case("fls(" + std::to_string(x) + ") on " + std::to_string(sizeof(I) * 8) + " bits"); check(macis::fls(x) == k, "fls = " + std::to_string(macis::fls(x)));
    check((unsigned)macis::clz(x) == sizeof(I) * 8 - 1 - k, "clz");
  }
}
void hv::run_all() { width<32>(); width<64>(); width<96>(); width<128>(); width<256>(); ints<unsigned>(); ints<unsigned long>(); ints<unsigned long long>(); }
