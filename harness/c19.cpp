#include "orb.hpp"
#include <macis/util/orbital_rotation_utilities.hpp>
using namespace hv; using namespace macis;
void hv::run_all() {
  int N = g_thorough ? 2000 : 300;
  for(int k = 0; k < N; ++k) {
    Part p = rpart(k); auto [ni, na, nv, no] = p; NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
    size_t n1 = nv * ni, n2 = nv * na, n3 = na * ni, sz = n1 + n2 + n3;
    std::vector<double> x(sz); for(auto& v : x) v = rv();
    Mat2 K({no, no}, sl(), true), F({no, no}, sl(), false);
    begin_case(pstr(p) + " ldK=" + std::to_string(K.ld) + " vector=" + show(x), sz > 0);
    auto vi = [&](size_t a, size_t i) { return x[a + i * nv]; }; auto va = [&](size_t a, size_t i) { return x[n1 + a + i * nv]; }; auto ai = [&](size_t a, size_t i) { return x[n1 + n2 + a + i * na]; };
    auto cls = [&](size_t r) { return r < ni ? 0 : r < ni + na ? 1 : 2; };
    std::function<double(size_t, size_t)> want = [&](size_t r, size_t c) -> double {
      if(cls(r) == cls(c)) return 77.25;
      if(cls(r) < cls(c)) return -want(c, r);
      if(cls(r) == 2) return cls(c) == 0 ? vi(r - ni - na, c) : va(r - ni - na, c - ni);
      return ai(r - ni, c);
    };
    linear_orb_rot_to_matrix(NI, NA, NV, x.data(), K.data(), K.ld);
    K.expect("unpacked matrix", [&](auto& ix) { return want(ix[0], ix[1]); });
    Mat2 K3({no, no}, sl(), true);
    linear_orb_rot_to_matrix(NI, NA, NV, x.data(), x.data() + n1, x.data() + n1 + n2, K3.data(), K3.ld);
    K3.expect("unpacked matrix (blocks)", [&](auto& ix) { return want(ix[0], ix[1]); });
    std::vector<double> y(sz + 2, 77.25);
    matrix_to_linear_orb_rot(NI, NA, NV, K.data(), K.ld, y.data() + 1);
    for(size_t i = 0; i < sz; ++i) check(y[i + 1] == x[i], "packing the unpacked matrix returned " + show(y));
    check(y[0] == 77.25 && y[sz + 1] == 77.25, "packing wrote outside the vector");
    std::fill(y.begin(), y.end(), 77.25);
    fock_to_linear_orb_grad(NI, NA, NV, F.data(), F.ld, y.data() + 1);
    size_t t = 1; auto g = [&](size_t r, size_t c) { return 2 * (F(r, c) - F(c, r)); };
    for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < nv; ++a) check(y[t++] == g(a + ni + na, i), "gradient, virtual-inactive");
    for(size_t i = 0; i < na; ++i) for(size_t a = 0; a < nv; ++a) check(y[t++] == g(a + ni + na, i + ni), "gradient, virtual-active");
    for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < na; ++a) check(y[t++] == g(a + ni, i), "gradient, active-inactive");
    check(y[0] == 77.25 && y[sz + 1] == 77.25, "gradient wrote outside the vector");
    std::vector<double> b1(n1 + 1, 77.25), b2(n2 + 1, 77.25), b3(n3 + 1, 77.25);
    matrix_to_linear_orb_rot(NI, NA, NV, F.data(), F.ld, b1.data(), b2.data(), b3.data());
    for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < nv; ++a) check(b1[a + i * nv] == F(a + ni + na, i), "pack, virtual-inactive");
    for(size_t i = 0; i < na; ++i) for(size_t a = 0; a < nv; ++a) check(b2[a + i * nv] == F(a + ni + na, i + ni), "pack, virtual-active");
    for(size_t i = 0; i < ni; ++i) for(size_t a = 0; a < na; ++a) check(b3[a + i * na] == F(a + ni, i), "pack, active-inactive");
    check(b1[n1] == 77.25 && b2[n2] == 77.25 && b3[n3] == 77.25, "pack wrote outside a block");
  }
}
