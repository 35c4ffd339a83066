// Instantiations whose clang AST is the verified text.
#include <macis/bitset_operations.hpp>
#include <macis/sd_operations.hpp>
namespace macis {
template <size_t N> void vc_bits(std::bitset<N> a, std::bitset<N> b, size_t i, std::vector<uint32_t>& v) {
  ffs(a); fls(a); fast_to_ullong(a); fast_to_ulong(a); bits_to_indices(a, v); bits_to_indices(a);
  full_mask<N>(i); full_mask<N, N>(); full_mask<N / 2, N>(); full_mask<N / 4, N>(); bitset_less(a, b); bitset_less_comparator<N>{}(a, b);
  truncate_bitset<N / 2>(a); truncate_bitset<N>(a); truncate_bitset<N / 4>(a); expand_bitset<N>(a); expand_bitset<2 * N>(a); expand_bitset<256>(a);
}
template <size_t N> void vc_phase(std::bitset<N> a, std::bitset<N> b, unsigned i) {
  first_occupied_flipped(a, b); single_excitation_sign(a, i, i); single_excitation_sign_indices(a, b, a); doubles_sign_indices(a, b, a); doubles_sign(a, b, a); if constexpr(N > 32) to_canonical_string(a);
  from_canonical_string<N>("");
}
template <size_t N> void vc_gen(std::bitset<N> a, size_t n, std::vector<uint32_t>& v, std::vector<std::bitset<N>>& s) {
  bitset_to_occ_vir(n, a, v, v); append_singles(a, v, v, s); append_doubles(a, v, v, s); generate_singles(n, a, s); generate_doubles(n, a, s); generate_singles_doubles(n, a, s, s);
  bitset_to_occ_vir_as(n, a, v, v, v); generate_singles_as(n, a, s, v); generate_singles_doubles_as(n, a, s, s, v);
  if constexpr(N == 64 || N == 128) { generate_singles_spin(n, a, s); generate_singles_doubles_spin(n, a, s, s); generate_cis_hilbert_space(n, a, s); generate_cisd_hilbert_space(n, a, s); generate_cis_hilbert_space(n, a); generate_cisd_hilbert_space(n, a);
    generate_singles_spin_as(n, a, s, v); generate_singles_doubles_spin_as(n, a, s, s, v); canonical_hf_determinant<N>(1, 1); generate_hilbert_space<N>(n, n, n); generate_residues(a, s); }
}
inline void vc_use(size_t i, std::vector<uint32_t>& v) {
  vc_bits<32>(0, 0, i, v); vc_bits<64>(0, 0, i, v); vc_bits<128>(0, 0, i, v); vc_bits<256>(0, 0, i, v);
  vc_phase<32>(0, 0, 1); vc_phase<64>(0, 0, 1); vc_phase<128>(0, 0, 1);
  to_uint128(std::bitset<32>()); to_uint128(std::bitset<64>()); to_uint128(std::bitset<96>()); to_uint128(std::bitset<128>());
  bitset_lo_word(std::bitset<64>()); bitset_lo_word(std::bitset<128>()); bitset_hi_word(std::bitset<64>()); bitset_hi_word(std::bitset<128>());
  std::vector<std::bitset<32>> s32; std::vector<std::bitset<64>> s64; std::vector<std::bitset<128>> s128; vc_gen<32>(0, i, v, s32); vc_gen<64>(0, i, v, s64); vc_gen<128>(0, i, v, s128);
  fls(0u); fls(0ul); fls(0ull);
}
}
