// World "reg": matrices (writing, construction).
#pragma once
#include "reg_pool.h"

namespace reg {
template<class U> void reg_mat2(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using DM = typename U::DM;
  using M33 = typename U::template M<3, 3>; using M22 = typename U::template M<2, 2>; using M44 = typename U::template M<4, 4>; using M23 = typename U::template M<2, 3>;
  m1m<3, 3, 0, 1, 3, 4>(r, "M.zero", 0, [](C&, auto& d) { d.zero(); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M.identity", 0, [](C&, auto& d) { d.identity(); o(d); });
  m1m<3, 4, 0, 3>(r, "M.identity", 0, [](C&, auto& d) { d.identity(); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M.fill", 0, [](C& c, auto& d) { d.fill(c.sc(0)); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M.transpose()", 0, [](C&, auto& d) { d.transpose(); o(d); });
  m1m<2, 2, 0, 3>(r, "M.transpose()", 0, [](C&, auto& d) { d.transpose(); o(d); });
  m1m<4, 4, 0, 1>(r, "M.transpose()", 0, [](C&, auto& d) { d.transpose(); o(d); });
  m1m<2, 2, 0, 1, 3>(r, "M.inverse()", 0, [](C&, auto& d) { d.inverse(); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M.inverse()", 0, [](C&, auto& d) { d.inverse(); o(d); });
  m1m<4, 4, 0, 1, 3>(r, "M.inverse()", 0, [](C&, auto& d) { d.inverse(); o(d); });
  m1m<5, 5, 0, 3>(r, "M.inverse()", F_HEAVY, [](C&, auto& d) { d.inverse(); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M.set_row/col", 0, [](C& c, auto& d) { d.set_row(c.n(3), c.template vec<0, 3>(1)); d.set_col(c.m(3), c.template vec<2, 3>(2)); o(d); });
  m1m<3, 4, 0, 3>(r, "M.set_row/col", 0, [](C& c, auto& d) { d.set_row(c.n(3), c.template vec<0, 4>(1)); d.set_col(c.m(4), c.template vec<0, 3>(2)); o(d); });
  m1m<3, 3, 0, 1, 3>(r, "M.set_basis_element", 0, [](C& c, auto& d) { d.set_basis_element(c.n(3), c.m(3), c.sc(0)); d.put(c.m(3), c.n(3), c.sc(1)); d(0, 2) = c.sc(2); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M*=s", 0, [](C& c, auto& d) { d *= c.sc(0); o(d); });
  m1m<3, 3, 0, 1, 3, 4>(r, "M/=s", 0, [](C& c, auto& d) { d /= c.sc(0); o(d); });
  m1m<3, 3, 0, 1>(r, "M*=own element", 0, [](C&, auto& d) { d *= d(1, 1); o(d); });
  m1m<2, 2, 0, 1, 3>(r, "M={..}", 0, [](C& c, auto& d) { d = {c.sc(0), c.sc(1), c.sc(2), c.sc(3)}; o(d); });
  m1m<2, 2, 0, 1, 3>(r, "M=array", 0, [](C& c, auto& d) { T a[4] = {c.sc(0), c.sc(1), c.sc(2), c.sc(3)}; d = a; o(d); });
  m1m<2, 3, 0, 1, 3>(r, "M=array2", 0, [](C& c, auto& d) { T a[2][3] = {{c.sc(0), c.sc(1), c.sc(2)}, {c.sc(3), c.sc(0), c.sc(1)}}; d = a; o(d); });
#define MM(NAME, R_, C_, EXPR) \
  m2m<R_, C_, R_, C_, 0, 0>(r, NAME, 0, [](C& c, auto& d, auto& b) { EXPR; o(d); }); \
  m2m<R_, C_, R_, C_, 1, 0>(r, NAME, 0, [](C& c, auto& d, auto& b) { EXPR; o(d); }); \
  m2m<R_, C_, R_, C_, 3, 3>(r, NAME, 0, [](C& c, auto& d, auto& b) { EXPR; o(d); }); \
  m2m<R_, C_, R_, C_, 4, 1>(r, NAME, 0, [](C& c, auto& d, auto& b) { EXPR; o(d); });
  MM("M+=M", 3, 3, d += b) MM("M-=M", 3, 3, d -= b) MM("M=M", 3, 3, d = b) MM("M=expression", 3, 3, d = b * c.sc(0) + b) MM("M=M*M", 3, 3, d = b * b)
  MM("M=M", 3, 4, d = b) MM("M+=M", 2, 3, d += b)
#undef MM
#define MK(R_, C_, A_, B_) m2m<R_, C_, R_, C_, A_, B_>(r, "M=M", 0, [](C&, auto& d, auto& b) { d = b; o(d); }); m2m<R_, C_, R_, C_, A_, B_>(r, "M-=M", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  MK(3, 3, 1, 1) MK(3, 3, 4, 4) MK(3, 3, 1, 4) MK(3, 3, 0, 1) MK(3, 3, 0, 4) MK(3, 3, 3, 1) MK(3, 3, 3, 4) MK(3, 3, 1, 3) MK(3, 3, 4, 3) MK(2, 3, 1, 1) MK(2, 3, 4, 4)
#undef MK
  r.add("mismatch M+=", F_DYN | F_THROWS | F_MUT, [](C& c) { auto& d = c.template matm<3, 3, 3>(0); d += c.template mat<3, 2, 3>(1); o(d); });
  r.add("mismatch view=", F_DYN | F_THROWS | F_MUT, [](C& c) { auto& d = c.template matm<1, 3, 3>(0); d = c.template mat<3, 2, 3>(1); o(d); });
  r.add("resize matrix", F_DYN | F_MUT, [](C& c) { auto& d = c.template matm<3, 3, 3>(0); d.resize(4, 2); d.fill(T(1)); d.resize(1, 5); d.fill(T(2)); d.resize(3, 3); d.identity(); d(0, 1) = c.sc(0); o(d); });
  r.add("negative resize", F_DYN | F_MUT | F_THROWS, [](C& c) { auto& d = c.template matm<3, 3, 3>(0); d.resize(3, -1); });
  r.add("matrix ctors", 0, [](C& c) {
    M22 a(c.sc(0), c.sc(1), c.sc(2), c.sc(3)), b{c.sc(2), c.sc(1), c.sc(0), c.sc(3)}; M33 d(c.template mat<1, 3, 3>(0)); T arr[4] = {c.sc(0), c.sc(0), c.sc(1), c.sc(2)};
    M22 e(arr); T a2[2][3] = {{c.sc(0), c.sc(1), c.sc(2)}, {c.sc(3), c.sc(0), c.sc(1)}}; M23 f(a2); M33 g(c.template mat<0, 3, 3>(1) * c.sc(0)); M33 h(g); M33 i(std::move(h));
    o(a, b, d, e, f, g, i); });
  r.add("matrix<other> conversion", 0, [](C& c) {
    cml::matrix<double, cml::fixed<3, 3>, typename U::B, typename U::L> a(c.template mat<0, 3, 3>(0)); cml::matrix<float, cml::fixed<3, 3>, typename U::B, typename U::L> b(c.template mat<1, 3, 3>(1));
    o(a); o(b); o(a + b); o(a * b); o(a * c.template vec<0, 3>(2)); });
  r.add("other layout", 0, [](C& c) {
    using OM = cml::matrix<T, cml::fixed<3, 3>, typename U::B, std::conditional_t<std::is_same<typename U::L, cml::col_major>::value, cml::row_major, cml::col_major>>;
    OM a(c.template mat<0, 3, 3>(0)); o(a); M33 b(a); o(b == c.template mat<0, 3, 3>(0)); for(auto p = a.begin(); p != a.end(); ++p) o(*p); });
  r.add("dynamic matrix ctors", F_DYN, [](C& c) {
    DM a(2, 3); a.zero(); DM b(2, 2, c.sc(0), c.sc(1), c.sc(2), c.sc(3)), d(c.template mat<0, 4, 4>(0)); DM e(c.template mat<3, 3, 4>(1)); DM f(std::move(e)); T arr[6] = {c.sc(0), c.sc(1), c.sc(2), c.sc(3), c.sc(4), c.sc(5)};
    DM g(3, 2, arr); T a2[2][3] = {{c.sc(0), c.sc(1), c.sc(2)}, {c.sc(3), c.sc(0), c.sc(1)}}; DM h(a2); DM i(b * c.sc(0));
    o(a, b, d, f, g, h, i); });
  m1m<3, 3, 0, 1, 3>(r, "M.random()", F_RANDOM, [](C&, auto& d) { d.random(T(-1), T(1)); o(d); });
  // ---- element setting helpers of mathlib
#define MB(R_, NAME, EXPR) m1m<R_, R_, 0>(r, NAME, 0, [](C& c, auto& d) { EXPR; o(d); });
  MB(2, "matrix_set_basis_vector_2D", cml::matrix_set_basis_vector_2D(d, c.n(2), c.template vec<0, 2>(1)); cml::matrix_set_x_basis_vector_2D(d, c.template vec<2, 2>(2)); cml::matrix_set_y_basis_vector_2D(d, c.template vec<0, 2>(1)))
  MB(3, "matrix_set_basis_vectors_2D", cml::matrix_set_basis_vectors_2D(d, c.template vec<0, 2>(1), c.template vec<0, 2>(2)))
  MB(3, "matrix_set_transposed_basis_vectors_2D", cml::matrix_set_transposed_basis_vectors_2D(d, c.template vec<0, 2>(1), c.template vec<0, 2>(2)); cml::matrix_set_transposed_basis_vector_2D(d, c.n(2), c.template vec<0, 2>(1)))
  MB(3, "matrix_set_transposed_xy_basis_vector_2D", cml::matrix_set_transposed_x_basis_vector_2D(d, c.template vec<0, 2>(1)); cml::matrix_set_transposed_y_basis_vector_2D(d, c.template vec<0, 2>(2)))
  MB(3, "matrix_set_basis_vector", cml::matrix_set_basis_vector(d, c.n(3), c.template vec<0, 3>(1)))
  MB(4, "matrix_set_xyz_basis_vector", cml::matrix_set_x_basis_vector(d, c.template vec<0, 3>(1)); cml::matrix_set_y_basis_vector(d, c.template vec<0, 3>(2)); cml::matrix_set_z_basis_vector(d, c.template vec<2, 3>(1)))
  MB(4, "matrix_set_basis_vectors", cml::matrix_set_basis_vectors(d, c.template vec<0, 3>(1), c.template vec<0, 3>(2), c.template vec<2, 3>(1)))
  MB(3, "matrix_set_transposed_basis_vector", cml::matrix_set_transposed_basis_vector(d, c.n(3), c.template vec<0, 3>(1)); cml::matrix_set_transposed_x_basis_vector(d, c.template vec<0, 3>(2)); cml::matrix_set_transposed_y_basis_vector(d, c.template vec<0, 3>(1)); cml::matrix_set_transposed_z_basis_vector(d, c.template vec<0, 3>(2)))
  MB(4, "matrix_set_transposed_basis_vectors", cml::matrix_set_transposed_basis_vectors(d, c.template vec<0, 3>(1), c.template vec<0, 3>(2), c.template vec<2, 3>(1)))
  MB(3, "matrix_set_translation_2D", cml::matrix_set_translation_2D(d, c.sc(0), c.sc(1)); o(d); cml::matrix_set_translation_2D(d, c.template vec<0, 2>(1)))
  MB(3, "matrix_translation_2D", cml::matrix_translation_2D(d, c.sc(0), c.sc(1)); o(d); cml::matrix_translation_2D(d, c.template vec<0, 2>(1)))
  MB(4, "matrix_set_translation", cml::matrix_set_translation(d, c.sc(0), c.sc(1), c.sc(2)); o(d); cml::matrix_set_translation(d, c.sc(2), c.sc(1)); o(d); cml::matrix_set_translation(d, c.template vec<0, 3>(1)))
  MB(4, "matrix_translation", cml::matrix_translation(d, c.sc(0), c.sc(1), c.sc(2)); o(d); cml::matrix_translation(d, c.sc(2), c.sc(1)); o(d); cml::matrix_translation(d, c.template vec<0, 3>(1)))
  MB(3, "matrix_scale_2D", cml::matrix_scale_2D(d, c.sc(0), c.sc(1)); o(d); cml::matrix_scale_2D(d, c.template vec<0, 2>(1)); o(d); cml::matrix_uniform_scale_2D(d, c.sc(1)))
  MB(3, "matrix_inverse_scale_2D", cml::matrix_inverse_scale_2D(d, c.sc(0), c.sc(1)); o(d); cml::matrix_inverse_scale_2D(d, c.template vec<0, 2>(1)))
  MB(4, "matrix_scale", cml::matrix_scale(d, c.sc(0), c.sc(1), c.sc(2)); o(d); cml::matrix_scale(d, c.template vec<0, 3>(1)); o(d); cml::matrix_uniform_scale(d, c.sc(1)))
  MB(4, "matrix_inverse_scale", cml::matrix_inverse_scale(d, c.sc(0), c.sc(1), c.sc(2)); o(d); cml::matrix_inverse_scale(d, c.template vec<0, 3>(1)))
  MB(2, "matrix_skew_symmetric_2D", cml::matrix_skew_symmetric_2D(d, c.sc(0)))
  MB(3, "matrix_invert_RT_only_2D", cml::matrix_invert_RT_only_2D(d))
  MB(4, "matrix_invert_RT_only", cml::matrix_invert_RT_only(d))
  MB(4, "matrix_invert_RT", cml::matrix_invert_RT(d))
  MB(4, "matrix_linear_transform", cml::matrix_linear_transform(d, c.template mat<0, 3, 3>(1)))
  MB(4, "matrix_affine_transform", cml::matrix_affine_transform(d, c.template mat<0, 3, 3>(1), c.template vec<0, 3>(2)))
  MB(4, "matrix_affine_transform axis", cml::matrix_affine_transform(d, c.template vec<0, 3>(1), c.angle(0), c.template vec<0, 3>(2), c.flag(0)))
#undef MB
  // views as destinations
  m1m<4, 4, 1>(r, "matrix_translation view", 0, [](C& c, auto& d) { cml::matrix_translation(d, c.template vec<1, 3>(1)); cml::matrix_set_basis_vectors(d, c.template vec<1, 3>(1), c.template vec<0, 3>(2), c.template vec<2, 3>(1)); o(d); });
  m1m<4, 4, 3>(r, "matrix_translation dyn", 0, [](C& c, auto& d) { cml::matrix_translation(d, c.template vec<1, 3>(1)); cml::matrix_scale(d, c.template vec<0, 3>(2)); o(d); });
  // ---- reading helpers
  m1<3, 3, 0, 1>(r, "matrix_get_basis 2D", 0, [](C& c, auto& a) {
    o(cml::matrix_get_basis_vector_2D(a, c.n(2))); o(cml::matrix_get_x_basis_vector_2D(a)); o(cml::matrix_get_y_basis_vector_2D(a));
    o(cml::matrix_get_transposed_basis_vector_2D(a, c.n(2))); o(cml::matrix_get_transposed_x_basis_vector_2D(a)); o(cml::matrix_get_transposed_y_basis_vector_2D(a));
    typename U::template V<2> x, y; cml::matrix_get_basis_vectors_2D(a, x, y); o(x, y); cml::matrix_get_transposed_basis_vectors_2D(a, x, y); o(x, y); });
  m1<4, 4, 0, 1>(r, "matrix_get_basis", 0, [](C& c, auto& a) {
    o(cml::matrix_get_basis_vector(a, c.n(3))); o(cml::matrix_get_x_basis_vector(a)); o(cml::matrix_get_y_basis_vector(a)); o(cml::matrix_get_z_basis_vector(a));
    typename U::template V<3> x, y, z; cml::matrix_get_basis_vectors(a, x, y, z); o(x, y, z); });
  m1<3, 3, 0>(r, "matrix_get_transposed_basis", 0, [](C& c, auto& a) {
    o(cml::matrix_get_transposed_basis_vector(a, c.n(3))); o(cml::matrix_get_transposed_x_basis_vector(a)); o(cml::matrix_get_transposed_y_basis_vector(a)); o(cml::matrix_get_transposed_z_basis_vector(a));
    typename U::template V<3> x, y, z; cml::matrix_get_transposed_basis_vectors(a, x, y, z); o(x, y, z); });
  m1<3, 3, 0, 3>(r, "matrix_get_basis_vector_nD", 0, [](C& c, auto& a) { o(cml::matrix_get_basis_vector_nD(a, c.n(3))); });
  m1<3, 3, 0>(r, "matrix_get_translation_2D", 0, [](C&, auto& a) { T x, y; cml::matrix_get_translation_2D(a, x, y); o(x, y); o(cml::matrix_get_translation_2D(a)); });
  m1<4, 4, 0, 1>(r, "matrix_get_translation", 0, [](C&, auto& a) { T x, y, z; cml::matrix_get_translation(a, x, y, z); o(x, y, z); o(cml::matrix_get_translation(a)); });
  m1<4, 4, 0>(r, "trace_NxN", 0, [](C&, auto& a) { o(cml::trace_2x2(a), cml::trace_3x3(a)); });
  m1<4, 4, 0, 3>(r, "check_affine", 0, [](C&, auto& a) { cml::check_affine_3D(a); cml::check_affine(a); cml::check_linear_3D(a); cml::check_linear_2D(a); o(true); });
}
}  // namespace reg
