#include "lin.hpp"
void fill_p(Table& f)
{
   f["fssvdc r 2 2"] = fssvdc<C, 2, 2>; f["fssvdc r 3 3"] = fssvdc<C, 3, 3>; f["fssvdc r 2 3"] = fssvdc<C, 2, 3>;
   f["pert r 4"] = [](const V& v) {
      RM22 m[4];
      for (int k = 0; k < 4; k++) m[k] << v.at(4*k), v.at(4*k + 1), v.at(4*k + 2), v.at(4*k + 3);
      const auto t = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2], m[3]);
      put("p0", std::get<0>(t)); put("p1", std::get<1>(t)); put("p2", std::get<2>(t)); put("p3", std::get<3>(t));
      const auto a = fs_diagonalize_hermitian_perturbatively(m[0]);
      const auto b = fs_diagonalize_hermitian_perturbatively(m[0], m[1]);
      const auto c = fs_diagonalize_hermitian_perturbatively(m[0], m[1], m[2]);
      put("a0", std::get<0>(a)); put("b1", std::get<1>(b)); put("c2", std::get<2>(c));
   };
}
