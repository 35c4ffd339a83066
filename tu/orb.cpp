// The orbital-space algebra: the library's own source files are the verified text.
#include <fock_matrices.cxx>
#include <orbital_energies.cxx>
#include <orbital_rotation_utilities.cxx>
#undef TWO_IDX
#include <transform.cxx>
#undef TWO_IDX
#include <moller_plesset.cxx>
#include <orbital_hessian.cxx>
#include <orbital_steps.cxx>
namespace macis {
inline void vc_orb(NumInactive ni, NumActive na, NumVirtual nv, double* p, const double* q) {
  linear_orb_rot_to_matrix(ni, na, nv, q, p, 1); matrix_to_linear_orb_rot(ni, na, nv, q, 1, p); fock_to_linear_orb_grad(ni, na, nv, q, 1, p);
  approx_diag_hessian(NumOrbital(1), ni, na, nv, q, 1, q, 1, q, 1, q, 1, p); approx_diag_hessian(ni, na, nv, q, 1, q, 1, q, 1, q, 1, p);
  split_linear_orb_rot(ni, na, nv, p); split_linear_orb_rot(ni, na, nv, q);
}
}
