// World "reg": matrices (reading and arithmetic).
#pragma once
#include "reg_pool.h"
#include <cml/util.h>
#include <cml/matrix/lu.h>
#include <cml/matrix/hadamard_product.h>
#include <sstream>

namespace reg {
template<class U> void reg_mat(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using DM = typename U::DM;
  using M33 = typename U::template M<3, 3>; using M22 = typename U::template M<2, 2>; using M44 = typename U::template M<4, 4>;
  m1<3, 3, 0, 1, 3, 4>(r, "matrix copy", 0, [](C&, auto& a) { cml::temporary_of_t<std::decay_t<decltype(a)>> x(a); o(x); });
  m1<2, 3, 0, 3>(r, "matrix copy", 0, [](C&, auto& a) { cml::temporary_of_t<std::decay_t<decltype(a)>> x(+a); o(x); });
  m1<3, 3, 0, 1, 3, 4>(r, "transpose", 0, [](C&, auto& a) { o(cml::transpose(a)); });
  m1<3, 4, 0, 3>(r, "transpose", 0, [](C&, auto& a) { o(cml::transpose(a)); });
  m1<3, 3, 0, 1, 3, 4>(r, "trace", 0, [](C&, auto& a) { o(cml::trace(a), a.trace()); });
  m1<4, 4, 0, 3>(r, "trace", 0, [](C&, auto& a) { o(cml::trace(a)); });
  m1<2, 2, 0, 1, 3, 4>(r, "determinant", 0, [](C&, auto& a) { o(cml::determinant(a)); });
  m1<3, 3, 0, 1, 3, 4>(r, "determinant", 0, [](C&, auto& a) { o(cml::determinant(a)); });
  m1<4, 4, 0, 1, 3>(r, "determinant", 0, [](C&, auto& a) { o(a.determinant()); });
  m1<5, 5, 0, 3>(r, "determinant", F_HEAVY, [](C&, auto& a) { o(a.determinant()); });
  m1<2, 2, 0, 1, 3, 4>(r, "inverse(M)", 0, [](C&, auto& a) { o(cml::inverse(a)); });
  m1<3, 3, 0, 1, 3, 4>(r, "inverse(M)", 0, [](C&, auto& a) { o(cml::inverse(a)); });
  m1<4, 4, 0, 1, 3>(r, "inverse(M)", 0, [](C&, auto& a) { o(cml::inverse(a)); });
  m1<5, 5, 0, 3>(r, "inverse(M)", F_HEAVY, [](C&, auto& a) { o(cml::inverse(a)); });
  m1<3, 3, 0, 1, 3, 4>(r, "negate", 0, [](C&, auto& a) { o(-a); });
  m1<3, 3, 0, 1, 3, 4>(r, "M*s", 0, [](C& c, auto& a) { o(a * c.sc(0)); o(c.sc(1) * a); });
  m1<4, 4, 0>(r, "M*s", 0, [](C& c, auto& a) { o(a * c.sc(0)); o(a / c.sc(1)); });
  m1<3, 3, 0, 3>(r, "M/s", 0, [](C& c, auto& a) { o(a / c.sc(0)); });
  m1<3, 3, 0, 1, 3>(r, "row col basis", 0, [](C& c, auto& a) { o(cml::row(a, c.n(3))); o(cml::col(a, c.m(3))); o(cml::basis(a, c.n(3))); });
  m1<3, 4, 0, 3>(r, "row col", 0, [](C& c, auto& a) { o(cml::row(a, c.n(3))); o(cml::col(a, c.m(4))); });
  m1<3, 3, 0, 1, 3>(r, "basis_element", 0, [](C& c, auto& a) { o(a.basis_element(c.n(3), c.m(3))); o(a.basis_count(), a.basis_size()); o(a.get(c.n(3), c.m(3))); });
  m1<3, 3, 0, 1, 3>(r, "iterate", 0, [](C&, auto& a) { T s = 0; for(auto p = a.begin(); p != a.end(); ++p) s = s * T(0.5) + *p; o(s); o(a.data()[1]); });
  m1<3, 3, 0, 3>(r, "lu", F_HEAVY, [](C&, auto& a) { o(cml::lu(a)); });
  m1<4, 4, 0, 3>(r, "lu", F_HEAVY, [](C&, auto& a) { o(cml::lu(a)); });
  m1<3, 3, 0, 1, 3>(r, "lu_pivot", F_HEAVY, [](C&, auto& a) { auto p = cml::lu_pivot(a); o(p.lu); for(int i = 0; i < 3; ++i) o(p.order[size_t(i)]); o(p.sign); });
  m1<4, 4, 0, 3>(r, "lu_pivot", F_HEAVY, [](C&, auto& a) { auto p = cml::lu_pivot(a); o(p.lu); o(p.sign); });
  r.add("lu_solve.fixed", F_HEAVY, [](C& c) { auto lu = cml::lu(c.template mat<0, 3, 3>(0)); o(cml::lu_solve(lu, c.template vec<0, 3>(1))); auto p = cml::lu_pivot(c.template mat<0, 3, 3>(0)); o(cml::lu_solve(p, c.template vec<0, 3>(1))); });
  r.add("lu_solve.dyn", F_HEAVY | F_DYN, [](C& c) { auto lu = cml::lu(c.template mat<3, 4, 4>(0)); o(cml::lu_solve(lu, c.template vec<3, 4>(1))); auto p = cml::lu_pivot(c.template mat<3, 4, 4>(0)); typename U::DV x(4); cml::lu_solve(p, x, c.template vec<3, 4>(1)); o(x); });
  r.add("print matrix", F_DYN, [](C& c) { std::ostringstream s; s << c.template mat<0, 3, 3>(0); s << c.template mat<1, 2, 3>(1); auto t = s.str(); sim::out_str(t.data(), t.size()); });
  r.add("print matrix.dyn", F_DYN, [](C& c) { std::ostringstream s; s << c.template mat<3, 3, 3>(0); s << cml::transpose(c.template mat<3, 2, 3>(1)); auto t = s.str(); sim::out_str(t.data(), t.size()); });
  r.add("matrix generators", 0, [](C&) { o(cml::zero<2, 3>()); o(cml::identity<3, 3>()); o(cml::identity_4x4(), cml::zero_2x2(), cml::identity_2x2()); });
  // ---- binary
  m2<3, 3, 3, 3, 0, 0>(r, "M+M", 0, [](C&, auto& a, auto& b) { o(a + b); });
  m2<3, 3, 3, 3, 1, 0>(r, "M+M", 0, [](C&, auto& a, auto& b) { o(a + b); });
  m2<3, 3, 3, 3, 3, 3>(r, "M+M", 0, [](C&, auto& a, auto& b) { o(a + b); });
  m2<2, 3, 2, 3, 4, 0>(r, "M+M", 0, [](C&, auto& a, auto& b) { o(a + b); });
  m2<3, 3, 3, 3, 0, 1>(r, "M-M", 0, [](C&, auto& a, auto& b) { o(a - b); });
  m2<4, 4, 4, 4, 0, 0>(r, "M-M", 0, [](C&, auto& a, auto& b) { o(a - b); });
  m2<3, 3, 3, 3, 3, 4>(r, "M-M", 0, [](C&, auto& a, auto& b) { o(a - b); });
  m2<3, 3, 3, 3, 0, 0>(r, "hadamard", 0, [](C&, auto& a, auto& b) { o(cml::hadamard(a, b)); });
  m2<3, 3, 3, 3, 3, 1>(r, "hadamard", 0, [](C&, auto& a, auto& b) { o(cml::hadamard(a, b)); });
  m2<3, 3, 3, 3, 0, 0>(r, "M expression", 0, [](C& c, auto& a, auto& b) { o((a + b) * c.sc(0) - cml::transpose(a)); });
  m2<3, 3, 3, 3, 3, 3>(r, "M expression", 0, [](C& c, auto& a, auto& b) { o((a + b) * c.sc(0) - cml::transpose(a)); });
  m2<2, 2, 2, 2, 0, 0>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<3, 3, 3, 3, 0, 0>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<3, 3, 3, 3, 1, 1>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<4, 4, 4, 4, 0, 0>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<2, 3, 3, 2, 0, 0>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<3, 4, 4, 3, 1, 0>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<3, 3, 3, 3, 3, 3>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<2, 3, 3, 2, 3, 4>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<3, 3, 3, 3, 0, 3>(r, "M*M", 0, [](C&, auto& a, auto& b) { o(a * b); });
  m2<3, 3, 3, 3, 0, 0>(r, "M*M*M", 0, [](C& c, auto& a, auto& b) { o(a * b * c.template mat<0, 3, 3>(2)); });
  m2<3, 3, 3, 3, 0, 0>(r, "M*(M+M)", 0, [](C& c, auto& a, auto& b) { o(a * (b + c.template mat<1, 3, 3>(2))); });
  m2<3, 3, 3, 3, 0, 0>(r, "M==M", 0, [](C&, auto& a, auto& b) { o(a == b, a != b); });
  m2<3, 3, 3, 3, 1, 3>(r, "M==M", 0, [](C&, auto& a, auto& b) { o(a == b, a != b); });
  m2<3, 3, 3, 3, 0, 1>(r, "matrix_concat", 0, [](C&, auto& a, auto& b) { o(cml::matrix_concat(a, b)); });
  m2<4, 4, 4, 4, 0, 0>(r, "matrix_concat", 0, [](C&, auto& a, auto& b) { o(cml::matrix_concat(a, b)); });
  m2<3, 3, 3, 3, 3, 3>(r, "matrix_concat", 0, [](C&, auto& a, auto& b) { o(cml::matrix_concat(a, b)); });
#define MV(R_, C_, KM, KV) r.add(knm("M*v", KM, R_, C_) + "/" + kind_names[KV], kflag(KM) | kflag(KV), [](C& c) { o(c.template mat<KM, R_, C_>(0) * c.template vec<KV, C_>(1)); }); \
  r.add(knm("v*M", KM, R_, C_) + "/" + kind_names[KV], kflag(KM) | kflag(KV), [](C& c) { o(c.template vec<KV, R_>(1) * c.template mat<KM, R_, C_>(0)); });
  MV(3, 3, 0, 0) MV(3, 3, 1, 1) MV(4, 4, 0, 0) MV(2, 2, 0, 0) MV(3, 4, 0, 0) MV(3, 3, 3, 3) MV(2, 3, 3, 5) MV(3, 3, 4, 0)
#undef MV
  // ---- documented exceptions
  r.add("mismatch M+M", F_DYN | F_THROWS, [](C& c) { o(c.template mat<3, 3, 3>(0) + c.template mat<3, 2, 3>(1)); });
  r.add("mismatch M*M", F_DYN | F_THROWS, [](C& c) { o(c.template mat<3, 3, 3>(0) * c.template mat<3, 2, 3>(1)); });
  r.add("mismatch M*v", F_DYN | F_THROWS, [](C& c) { o(c.template mat<3, 3, 3>(0) * c.template vec<3, 4>(1)); });
  r.add("mismatch M==M", F_DYN | F_THROWS, [](C& c) { o(c.template mat<4, 3, 3>(0) == c.template mat<3, 2, 3>(1)); });
  r.add("non-square det", F_DYN | F_THROWS, [](C& c) { o(cml::determinant(c.template mat<3, 2, 3>(0))); });
  r.add("non-square inverse", F_DYN | F_THROWS, [](C& c) { o(cml::inverse(c.template mat<3, 2, 3>(0))); });
}
}  // namespace reg
