// World "reg": integral elements, mixed element types, further operand kinds, field-of-view helpers.
#pragma once
#include "reg_pool.h"
#include <cml/util.h>
#include <cml/vector/hadamard_product.h>

namespace reg {
template<class E> void oi(const E& e) { if constexpr(std::is_arithmetic<E>::value) sim::out(double(e)); else o(e); }
template<class U> void reg_more(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using V2 = typename U::template V<2>; using V3 = typename U::template V<3>; using V4 = typename U::template V<4>;
  using M33 = typename U::template M<3, 3>; using M44 = typename U::template M<4, 4>;
  // ---- fields of view, zoom
  r.add("fov", 0, [](C& c) { T f = c.sc(0), a = c.sc(1); o(cml::xfov_to_yfov(f, a), cml::yfov_to_xfov(f, a)); o(cml::zoom_to_fov(f), cml::fov_to_zoom(f)); });
  r.add("zoom", 0, [](C& c) { T z = c.sc(0), a = c.sc(1); o(cml::xzoom_to_yzoom(z, a), cml::yzoom_to_xzoom(z, a)); });
  // ---- integral elements
#define IV int w[8]; for(int q = 0; q < 8; ++q) w[q] = int((c.st.v >> (5 * q)) & 15) - 7; (void) w; int nz = w[7] ? w[7] : 3; (void) nz;
  using I3 = cml::vector<int, cml::fixed<3>>; using ID = cml::vector<int, cml::dynamic<>>; using IX = cml::vector<int, cml::external<3>>; using IE = cml::vector<int, cml::external<>>;
  using IM = cml::matrix<int, cml::fixed<2, 2>, typename U::B, typename U::L>; using IM3 = cml::matrix<int, cml::fixed<3, 3>, typename U::B, typename U::L>; using IDM = cml::matrix<int, cml::dynamic<>, typename U::B, typename U::L>;
  r.add("int vectors", 0, [](C& c) { IV I3 a(w[0], w[1], w[2]), b{w[3], w[4], w[5]}; o(a + b); o(a - b); o(a * w[6]); o(w[6] * b); o(a / nz); o(-a); o(cml::dot(a, b), a.length_squared()); o(cml::cross(a, b)); o(a == b, a < b, a >= b); });
  r.add("int vectors write", 0, [](C& c) { IV I3 a(w[0], w[1], w[2]), b(w[3], w[4], w[5]); a += b; o(a); a -= b * w[6]; o(a); a *= w[6]; o(a); a /= nz; o(a); a.minimize(b); o(a); a.maximize(I3(w[6], w[7], w[0])); o(a); a *= a[1]; o(a); a.fill(w[2]); a.put(c.n(3), w[4]); o(a); a.zero(); a.cardinal(c.n(3)); o(a); });
  r.add("int vectors views", 0, [](C& c) { IV int s[3] = {w[0], w[1], w[2]}, t[3] = {w[3], w[4], w[5]}; IX a(s), b(t); IE d(t, 3); o(a + b); a = b + I3(a); o(a); d += a; o(b); cml::vector<const int, cml::external<3>> k(s); o(k + d); o(cml::hadamard(k, b)); o(cml::subvector(a, c.n(3))); });
  r.add("int vectors dyn", F_DYN, [](C& c) { IV ID a(w[0], w[1], w[2]), b(3); b.fill(w[3]); o(a + b); ID d(a * w[4] - b); o(d); d.resize(5); d.fill(w[5]); o(d); a = d; o(a); o(cml::outer(b, b)); });
  r.add("int matrix", 0, [](C& c) { IV IM a(w[0], w[1], w[2], w[3]), b(w[4], w[5], w[6], w[7]); o(a + b); o(a - b); o(a * b); o(a * w[0]); o(a / nz); o(cml::transpose(a)); o(cml::trace(a), cml::determinant(a)); o(a == b); cml::vector<int, cml::fixed<2>> v(w[1], w[2]); o(a * v); o(v * b); a += b; o(a); a *= a(1, 1); o(a); a.transpose(); o(a); a.identity(); o(a); });
  r.add("int matrix 3", 0, [](C& c) { IV IM3 a, b; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { a(i, j) = w[(i + j) % 8]; b(i, j) = w[(3 * i + j) % 8]; } o(a * b); o(a * b - b * a); o(cml::determinant(a)); o(cml::row(a, c.n(3))); o(cml::col(a * b, c.m(3))); a.set_row(c.n(3), I3(w[0], w[1], w[2])); o(a); });
  r.add("int matrix dyn", F_DYN, [](C& c) { IV IDM a(2, 3), b(3, 2); for(int i = 0; i < 2; ++i) for(int j = 0; j < 3; ++j) { a(i, j) = w[i + j]; b(j, i) = w[2 * j + i]; } o(a * b); o(b * a); o(cml::transpose(a) + b); a.resize(3, 3); a.identity(); o(a); });
  // ---- mixed element types
  r.add("mixed vectors", 0, [](C& c) { IV I3 a(w[0], w[1], w[2]); auto& b = c.template vec<0, 3>(0); o(a + b); o(b - a); oi(cml::dot(a, b)); o(cml::cross(b, a)); o(a * c.sc(0)); o(b * w[3]); V3 d(a); o(d); d = b; d += a; o(d); d *= w[4]; o(d); cml::vector<long double, cml::fixed<3>> l(b); o(V3(l + a)); oi(l.length_squared()); });
  r.add("mixed matrices", 0, [](C& c) { IV IM3 a; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) a(i, j) = w[(i + 2 * j) % 8]; auto& b = c.template mat<0, 3, 3>(0); o(a + b); o(a * b); o(b * a); o(a * c.template vec<0, 3>(1)); M33 d(a); d -= b; o(d); d = a * c.sc(0); o(d); });
  r.add("int scalars", 0, [](C& c) { IV o(cml::sign(w[0]), cml::clamp(w[0], -3, 3), cml::in_range(w[0], w[1], w[2]), cml::sqr(w[3]), cml::cub(w[4])); o(cml::length_squared(w[0], w[1]), cml::length_squared(w[0], w[1], w[2])); using S = cml::scalar_traits<int>; oi(S::fabs(w[0])); oi(S::sqrt(w[1] * w[1])); });
  // ---- further operand kinds of the geometry functions
  v2<3, 3, 3>(r, "project_to_vector", 0, [](C&, auto& a, auto& b) { o(cml::project_to_vector(a, b)); o(cml::project_to_hplane(b, a)); });
  v2<3, 1, 2>(r, "project_to_vector", 0, [](C&, auto& a, auto& b) { o(cml::project_to_vector(a, b)); o(cml::project_to_hplane(b, a)); });
  v2<5, 0, 3>(r, "project_to_vector", 0, [](C&, auto& a, auto& b) { o(cml::project_to_vector(a, b)); o(cml::project_to_hplane(b, a)); });
  v2<2, 0, 0>(r, "project 2D", 0, [](C&, auto& a, auto& b) { o(cml::project_to_vector(a, b)); o(cml::project_to_hplane(a, b)); o(cml::manhattan_distance(a, b)); });
  v1<2, 2, 3, 4>(r, "perp", 0, [](C&, auto& a) { o(cml::perp(a)); });
  v2<2, 3, 4>(r, "angle 2D", 0, [](C&, auto& a, auto& b) { o(cml::unsigned_angle_2D(a, b)); });
  v2<2, 3, 4>(r, "perp_dot", 0, [](C&, auto& a, auto& b) { o(cml::perp_dot(a, b)); });
  v2<4, 1, 3>(r, "manhattan_distance", 0, [](C&, auto& a, auto& b) { o(cml::manhattan_distance(a, b)); });
  v2<3, 3, 4>(r, "orthonormal_basis", F_DYN, [](C& c, auto& a, auto& b) { V3 x, y, z; cml::orthonormal_basis(a, b, x, y, z, c.flag(0), cml::axis_order(2 * c.n(6))); o(x, y, z); });
  v1<3, 0, 1, 3>(r, "angles with temporaries", 0, [](C& c, auto& a) { o(cml::unsigned_angle(a * c.sc(0), a + c.template vec<0, 3>(1))); o(cml::rotate_vector(a - c.template vec<1, 3>(1), V3(a), c.angle(0))); });
  v1<2, 1, 3, 4>(r, "cartesian_to_polar", 0, [](C&, auto& a) { T x, y; cml::cartesian_to_polar(a, x, y); o(x, y); });
  v1<3, 1, 3, 4>(r, "cartesian_to_cylindrical", 0, [](C& c, auto& a) { T x, y, z; cml::cartesian_to_cylindrical(a, c.n(3), x, y, z); o(x, y, z); });
  v1<3, 1, 3, 4>(r, "cartesian_to_spherical", 0, [](C& c, auto& a) { T x, y, z; auto l = c.flag(0) ? cml::latitude : cml::colatitude; cml::cartesian_to_spherical(a, c.n(3), l, x, y, z); o(x, y, z); });
  v1m<2, 1, 3>(r, "polar_to_cartesian", 0, [](C& c, auto& d) { cml::polar_to_cartesian(d, c.sc(0), c.angle(1)); o(d); });
  v1m<3, 1, 3>(r, "cylindrical_to_cartesian", 0, [](C& c, auto& d) { cml::cylindrical_to_cartesian(d, c.n(3), c.sc(0), c.angle(1), c.sc(2)); o(d); });
  v1m<3, 1, 3>(r, "spherical_to_cartesian", 0, [](C& c, auto& d) { cml::spherical_to_cartesian(d, c.n(3), c.flag(0) ? cml::latitude : cml::colatitude, c.sc(0), c.angle(1), c.angle(2)); o(d); });
  // ---- projections and frusta on views and dynamic matrices
#define PK(NAME, ...) m1m<4, 4, 1, 3>(r, NAME, 0, [](C& c, auto& d) { auto z = c.flag(0) ? cml::z_clip_zero : cml::z_clip_neg_one; auto h = c.flag(1) ? cml::left_handed : cml::right_handed; (void) h; \
    T l = c.sc(0), rr = c.sc(1), b = c.sc(2), t = c.sc(3), n = c.sc(4), f = c.sc(5); (void) l; (void) rr; (void) b; (void) t; __VA_ARGS__; o(d); });
  PK("matrix_orthographic", cml::matrix_orthographic(d, l, rr, b, t, n, f, h, z); o(d); cml::matrix_orthographic(d, l, rr, n, f, h, z))
  PK("matrix_perspective", cml::matrix_perspective(d, l, rr, b, t, n, f, h, z); o(d); cml::matrix_perspective(d, l, rr, n, f, h, z))
  PK("matrix_perspective_fov", cml::matrix_perspective_xfov(d, l, rr, n, f, h, z); o(d); cml::matrix_perspective_yfov(d, l, rr, n, f, h, z))
  PK("matrix_look_at", cml::matrix_look_at(d, c.template vec<0, 3>(0), c.template vec<1, 3>(1), c.template vec<3, 3>(2), h); o(d); cml::matrix_look_at_LH(d, c.template vec<1, 3>(0), c.template vec<0, 3>(2), c.template vec<3, 3>(1)))
#undef PK
  m1<4, 4, 1, 3>(r, "extract_frustum_planes", 0, [](C& c, auto& m) { T pl[6][4]; cml::extract_frustum_planes(m, pl, c.flag(0) ? cml::z_clip_zero : cml::z_clip_neg_one, c.flag(1)); for(auto& p : pl) for(T x : p) o(x); });
  r.add("more generators", 0, [](C&) { o(cml::axis_2D(0)); o(cml::x_axis_2D(), cml::y_axis_3D(), cml::zero_2D(), cml::zero_3D()); o(cml::zero_3x3()); o(cml::zero_4x4(), cml::identity_3x3()); });
  r.add("axis order packing", 0, [](C& c) { int i, j, k; bool odd; cml::unpack_axis_order(cml::axis_order(2 * c.n(6)), i, j, k, odd); o(i, j, k, odd); o(int(cml::pack_axis_order(c.m(3), c.flag(0)))); cml::unpack_axis_order2D(c.flag(0) ? cml::axis_order_xy : cml::axis_order_yx, i, j, odd); o(i, j, odd); });
  // ---- rotations: remaining kinds
#define RX(N_, NAME, ...) m1m<N_, N_, 0, 1, 3>(r, NAME, 0, [](C& c, auto& d) { __VA_ARGS__; o(d); });
  RX(4, "matrix_rotation_world k", cml::matrix_rotation_world_x(d, c.angle(0)); o(d); cml::matrix_rotation_world_y(d, c.angle(1)); o(d); cml::matrix_rotation_world_z(d, c.angle(2)))
  RX(4, "matrix_rotation_axis_angle k", cml::matrix_rotation_axis_angle(d, c.template vec<3, 3>(1), c.angle(0)))
  RX(3, "matrix_rotation_euler k", cml::matrix_rotation_euler(d, c.template vec<3, 3>(1), cml::euler_order(c.n(12))); o(d); cml::matrix_rotation_euler_derivatives(d, c.m(3), c.angle(0), c.angle(1), c.angle(2), cml::euler_order(c.n(12))))
  RX(4, "matrix_rotation_euler_derivatives k", cml::matrix_rotation_euler_derivatives(d, c.m(3), c.template vec<1, 3>(1), cml::euler_order(c.n(12))))
  RX(4, "matrix_rotation_quaternion k", cml::matrix_rotation_quaternion(d, c.quat(1)))
  RX(4, "matrix_rotation_align k", cml::matrix_rotation_align(d, c.template vec<1, 3>(1), c.template vec<3, 3>(2), c.flag(0), cml::axis_order(2 * c.n(6))))
  RX(3, "matrix_rotation_aim_at k", cml::matrix_rotation_aim_at(d, c.template vec<1, 3>(0), c.template vec<3, 3>(1), c.template vec<0, 3>(2), cml::axis_order(2 * c.n(6))))
  RX(2, "matrix_rotation_align_2D k", cml::matrix_rotation_align_2D(d, c.template vec<3, 2>(1), c.flag(0), c.flag(1) ? cml::axis_order_xy : cml::axis_order_yx); o(d); cml::matrix_rotation_2D(d, c.angle(0)))
  // ---- basis, translation, scale: remaining kinds
  RX(4, "matrix_set_basis k", cml::matrix_set_basis_vector(d, c.n(3), c.template vec<3, 3>(1)); cml::matrix_set_transposed_basis_vector(d, c.m(3), c.template vec<1, 3>(2)))
  RX(4, "matrix_set_transposed_basis k", cml::matrix_set_transposed_basis_vectors(d, c.template vec<3, 3>(1), c.template vec<0, 3>(2), c.template vec<2, 3>(1)); o(d); cml::matrix_set_x_basis_vector(d, c.template vec<3, 3>(2)))
  RX(3, "matrix_set_basis_2D k", cml::matrix_set_basis_vectors_2D(d, c.template vec<3, 2>(1), c.template vec<1, 2>(2)); o(d); cml::matrix_set_transposed_basis_vectors_2D(d, c.template vec<0, 2>(1), c.template vec<3, 2>(2)))
  RX(4, "matrix_translation k", cml::matrix_translation(d, c.template vec<3, 3>(1)); o(d); cml::matrix_set_translation(d, c.template vec<1, 3>(2)); o(d); cml::matrix_translation(d, c.sc(0), c.sc(1)))
  RX(3, "matrix_translation_2D k", cml::matrix_translation_2D(d, c.template vec<3, 2>(1)); o(d); cml::matrix_set_translation_2D(d, c.template vec<1, 2>(2)))
  RX(4, "matrix_scale k", cml::matrix_scale(d, c.template vec<3, 3>(1)); o(d); cml::matrix_inverse_scale(d, c.template vec<1, 3>(2)); o(d); cml::matrix_uniform_scale(d, c.sc(0)))
  RX(3, "matrix_scale_2D k", cml::matrix_scale_2D(d, c.template vec<3, 2>(1)); o(d); cml::matrix_inverse_scale_2D(d, c.template vec<1, 2>(2)); o(d); cml::matrix_uniform_scale_2D(d, c.sc(0)))
  RX(4, "matrix_linear_transform k", cml::matrix_linear_transform(d, c.template mat<3, 3, 3>(1)))
  RX(4, "matrix_affine_transform k", cml::matrix_affine_transform(d, c.template mat<3, 3, 3>(1), c.template vec<3, 3>(2)); o(d); cml::matrix_affine_transform(d, c.template vec<1, 3>(1), c.angle(0), c.template vec<3, 3>(2), c.flag(0)))
  RX(4, "matrix_invert k", cml::matrix_invert_RT_only(d); o(d); cml::matrix_invert_RT(d))
  RX(3, "matrix_invert_2D k", cml::matrix_invert_RT_only_2D(d))
#undef RX
  m1<4, 4, 0, 1, 3>(r, "matrix_get_basis k", 0, [](C& c, auto& a) { o(cml::matrix_get_basis_vector(a, c.n(3))); o(cml::matrix_get_transposed_basis_vector(a, c.m(3))); V3 x, y, z; cml::matrix_get_basis_vectors(a, x, y, z); o(x, y, z); cml::matrix_get_transposed_basis_vectors(a, x, y, z); o(x, y, z); o(cml::matrix_get_translation(a)); });
  m1<4, 4, 0, 1, 3>(r, "matrix_to_* k", 0, [](C& c, auto& a) { T x, y, z; cml::matrix_to_euler(a, x, y, z, cml::euler_order(c.n(12))); o(x, y, z); V3 v; T an; cml::matrix_to_axis_angle(a, v, an); o(v, an); });
  m1<3, 3, 1, 3>(r, "quaternion_rotation_matrix k", 0, [](C&, auto& a) { typename U::Q q; cml::quaternion_rotation_matrix(q, a); o(q); });
  m1<4, 4, 0, 1, 3>(r, "trace_NxN k", 0, [](C&, auto& a) { o(cml::trace_2x2(a), cml::trace_3x3(a)); });
}
#undef IV
}  // namespace reg
