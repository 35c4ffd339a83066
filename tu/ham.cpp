// Slater-Condon rules, diagonal updates, integral intermediates and density-matrix contributions.
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/csr_hamiltonian.hpp>
namespace macis {
template <size_t N> void vc_ham(matrix_span<double> T, rank4_span<double> V, std::bitset<N> a, std::bitset<N / 2> s, const std::vector<uint32_t>& o, std::vector<std::bitset<N>>& d) {
  DoubleLoopHamiltonianGenerator<N> h(T, V);
  h.matrix_element(a, a); h.matrix_element(s, s, s, s, s, s, o, o); h.matrix_element_4(s, s, s); h.matrix_element_22(s, s, s, s, s, s); h.matrix_element_2(s, s, s, o, o); h.matrix_element_diag(o, o);
  h.single_orbital_en(0, o, o); h.single_orbital_ens(1, o, o); h.fast_diag_single(o, o, 0, 1, 0.); h.fast_diag_single(0., 0., 0, 1, 0.);
  h.fast_diag_ss_double(0., 0., 0., 0., 0, 1, 2, 3, 0.); h.fast_diag_ss_double(o, o, 0, 1, 2, 3, 0.); h.fast_diag_os_double(0., 0., 0., 0., 0, 1, 2, 3, 0.); h.fast_diag_os_double(o, o, 0, 1, 2, 3, 0.);
  make_csr_hamiltonian<int32_t>(d.begin(), d.end(), h, 0.); make_csr_hamiltonian<int64_t>(d.begin(), d.end(), h, 0.);
  h.form_rdms(d.begin(), d.end(), d.begin(), d.end(), nullptr, T, V);
  rdm_contributions(s, s, s, s, s, s, o, o, 1., T, V);
  rdm_contributions_4(s, s, s, 1., V); rdm_contributions_22(s, s, s, s, s, s, 1., V); rdm_contributions_2(s, s, s, o, o, 1., T, V); rdm_contributions_diag(o, o, 1., T, V);
}
inline void vc_use(matrix_span<double> T, rank4_span<double> V, const std::vector<uint32_t>& o) {
  std::vector<std::bitset<64>> d; std::vector<std::bitset<128>> e;
  vc_ham<64>(T, V, {}, {}, o, d); vc_ham<128>(T, V, {}, {}, o, e);
}
}
