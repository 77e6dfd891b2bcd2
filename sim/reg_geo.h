// World "reg": mathlib vectors, coordinates, projections, frusta.
#pragma once
#include "reg_pool.h"

namespace reg {
template<class U> void reg_geo(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using V2 = typename U::template V<2>; using V3 = typename U::template V<3>; using V4 = typename U::template V<4>; using M44 = typename U::template M<4, 4>;
  v2<2, 0, 0>(r, "angle 2D", 0, [](C&, auto& a, auto& b) { o(cml::unsigned_angle_2D(a, b)); });
  v2<2, 1, 2>(r, "angle 2D", 0, [](C&, auto& a, auto& b) { o(cml::unsigned_angle_2D(a, b)); });
  v2<3, 0, 0>(r, "angle", 0, [](C& c, auto& a, auto& b) { o(cml::unsigned_angle(a, b)); o(cml::signed_angle(a, b, c.template vec<0, 3>(2))); });
  v2<3, 1, 2>(r, "angle", 0, [](C& c, auto& a, auto& b) { o(cml::unsigned_angle(a, b)); o(cml::signed_angle(a, b, c.template vec<0, 3>(2))); });
  v2<3, 3, 4>(r, "angle", 0, [](C& c, auto& a, auto& b) { o(cml::unsigned_angle(a, b)); o(cml::signed_angle(a, b, c.template vec<0, 3>(2))); });
  v2s<3>(r, "project_to_vector", 0, [](C&, auto& a, auto& b) { o(cml::project_to_vector(a, b)); });
  v2s<3>(r, "project_to_hplane", 0, [](C&, auto& a, auto& b) { o(cml::project_to_hplane(a, b)); });
  v2<4, 0, 0>(r, "project", 0, [](C&, auto& a, auto& b) { o(cml::project_to_hplane(a, b)); o(cml::project_to_vector(a, b)); });
  v1<2, 0, 1>(r, "perp", 0, [](C&, auto& a) { o(cml::perp(a)); });
  v2s<3>(r, "manhattan_distance", 0, [](C&, auto& a, auto& b) { o(cml::manhattan_distance(a, b)); });
  v2<3, 0, 0>(r, "rotate_vector", 0, [](C& c, auto& a, auto& b) { o(cml::rotate_vector(a, b, c.angle(0))); });
  v2<3, 1, 2>(r, "rotate_vector", 0, [](C& c, auto& a, auto& b) { o(cml::rotate_vector(a, b, c.angle(0))); });
  v2<3, 3, 3>(r, "rotate_vector", 0, [](C& c, auto& a, auto& b) { o(cml::rotate_vector(a, b, c.angle(0))); });
  r.add("orthonormal_basis_2D", 0, [](C& c) { V2 x, y; cml::orthonormal_basis_2D(c.template vec<0, 2>(0), x, y, c.flag(0), c.flag(1) ? cml::axis_order_xy : cml::axis_order_yx); o(x, y); });
  v2<3, 0, 0>(r, "orthonormal_basis", 0, [](C& c, auto& a, auto& b) { V3 x, y, z; cml::orthonormal_basis(a, b, x, y, z, c.flag(0), cml::axis_order(2 * c.n(6))); o(x, y, z); });
  v2<3, 1, 2>(r, "orthonormal_basis", 0, [](C& c, auto& a, auto& b) { V3 x, y, z; cml::orthonormal_basis(a, b, x, y, z, c.flag(0), cml::axis_order(2 * c.n(6))); o(x, y, z); });
  m1<3, 3, 0, 1>(r, "transform 2D", 0, [](C& c, auto& m) { o(cml::transform_vector_2D(m, c.template vec<0, 2>(1))); o(cml::transform_point_2D(m, c.template vec<1, 2>(2))); });
  m1<4, 4, 0, 1>(r, "transform 3D", 0, [](C& c, auto& m) { o(cml::transform_vector(m, c.template vec<0, 3>(1))); o(cml::transform_point(m, c.template vec<1, 3>(2))); });
  m1<4, 4, 0, 1>(r, "transform 4D", 0, [](C& c, auto& m) { o(cml::transform_vector_4D(m, c.template vec<0, 4>(1))); o(cml::transform_point_4D(m, c.template vec<0, 3>(2))); });
  m1<4, 4, 3>(r, "transform dyn", 0, [](C& c, auto& m) { o(cml::transform_vector(m, c.template vec<0, 3>(1))); o(cml::transform_point(m, c.template vec<3, 3>(2))); });
  // coordinates
  r.add("polar_to_cartesian", 0, [](C& c) { V2 v; cml::polar_to_cartesian(v, c.sc(0), c.angle(1)); o(v); cml::polar_to_cartesian(c.sc(2), c.angle(0), v); o(v); });
  r.add("cylindrical_to_cartesian", 0, [](C& c) { V3 v; cml::cylindrical_to_cartesian(v, c.n(3), c.sc(0), c.angle(1), c.sc(2)); o(v); cml::cylindrical_to_cartesian(c.sc(1), c.angle(0), c.sc(0), c.n(3), v); o(v); });
  r.add("spherical_to_cartesian", 0, [](C& c) { V3 v; auto l = c.flag(0) ? cml::latitude : cml::colatitude; cml::spherical_to_cartesian(v, c.n(3), l, c.sc(0), c.angle(1), c.angle(2)); o(v); cml::spherical_to_cartesian(c.sc(1), c.angle(0), c.angle(2), c.n(3), l, v); o(v); });
  v1<2, 0, 2>(r, "cartesian_to_polar", 0, [](C&, auto& a) { T x, y; cml::cartesian_to_polar(a, x, y); o(x, y); cml::cartesian_to_polar(a, x, y, T(0.01)); o(x, y); });
  v1<3, 0, 2>(r, "cartesian_to_cylindrical", 0, [](C& c, auto& a) { T x, y, z; cml::cartesian_to_cylindrical(a, c.n(3), x, y, z); o(x, y, z); cml::cartesian_to_cylindrical(a, x, y, z, c.n(3)); o(x, y, z); cml::cartesian_to_cylindrical(a, c.m(3), x, y, z, T(0.01)); o(x, y, z); });
  v1<3, 0, 2>(r, "cartesian_to_spherical", 0, [](C& c, auto& a) { T x, y, z; auto l = c.flag(0) ? cml::latitude : cml::colatitude; cml::cartesian_to_spherical(a, c.n(3), l, x, y, z); o(x, y, z); cml::cartesian_to_spherical(a, x, y, z, c.n(3), l); o(x, y, z); cml::cartesian_to_spherical(a, c.m(3), l, x, y, z, T(0.01)); o(x, y, z); });
  // projections
#define PR(NAME, ...) m1m<4, 4, 0>(r, NAME, 0, [](C& c, auto& d) { auto z = c.flag(0) ? cml::z_clip_zero : cml::z_clip_neg_one; auto h = c.flag(1) ? cml::left_handed : cml::right_handed; (void) h; \
    T l = c.sc(0), rr = c.sc(1), b = c.sc(2), t = c.sc(3), n = c.sc(4), f = c.sc(5); (void) l; (void) rr; (void) b; (void) t; __VA_ARGS__; o(d); });
  PR("matrix_orthographic", cml::matrix_orthographic(d, l, rr, b, t, n, f, h, z))
  PR("matrix_orthographic_LH", cml::matrix_orthographic_LH(d, l, rr, b, t, n, f, z))
  PR("matrix_orthographic_RH", cml::matrix_orthographic_RH(d, l, rr, b, t, n, f, z))
  PR("matrix_orthographic wh", cml::matrix_orthographic(d, l, rr, n, f, h, z); o(d); cml::matrix_orthographic_LH(d, l, rr, n, f, z); o(d); cml::matrix_orthographic_RH(d, l, rr, n, f, z))
  PR("matrix_perspective", cml::matrix_perspective(d, l, rr, b, t, n, f, h, z))
  PR("matrix_perspective_LH", cml::matrix_perspective_LH(d, l, rr, b, t, n, f, z))
  PR("matrix_perspective_RH", cml::matrix_perspective_RH(d, l, rr, b, t, n, f, z))
  PR("matrix_perspective wh", cml::matrix_perspective(d, l, rr, n, f, h, z); o(d); cml::matrix_perspective_LH(d, l, rr, n, f, z); o(d); cml::matrix_perspective_RH(d, l, rr, n, f, z))
  PR("matrix_perspective_xfov", cml::matrix_perspective_xfov(d, l, rr, n, f, h, z); o(d); cml::matrix_perspective_xfov_LH(d, l, rr, n, f, z); o(d); cml::matrix_perspective_xfov_RH(d, l, rr, n, f, z))
  PR("matrix_perspective_yfov", cml::matrix_perspective_yfov(d, l, rr, n, f, h, z); o(d); cml::matrix_perspective_yfov_LH(d, l, rr, n, f, z); o(d); cml::matrix_perspective_yfov_RH(d, l, rr, n, f, z))
  PR("matrix_look_at", cml::matrix_look_at(d, c.template vec<0, 3>(0), c.template vec<0, 3>(1), c.template vec<0, 3>(2), h); o(d); cml::matrix_look_at_LH(d, c.template vec<0, 3>(0), c.template vec<1, 3>(1), c.template vec<0, 3>(2)); o(d); cml::matrix_look_at_RH(d, c.template vec<0, 3>(0), c.template vec<0, 3>(1), c.template vec<0, 3>(2)))
#undef PR
  m1m<4, 4, 1>(r, "projection view", 0, [](C& c, auto& d) { cml::matrix_perspective_RH(d, c.sc(0), c.sc(1), c.sc(2), c.sc(3), c.sc(4), c.sc(5), cml::z_clip_zero); o(d); cml::matrix_look_at_RH(d, c.template vec<0, 3>(0), c.template vec<0, 3>(1), c.template vec<0, 3>(2)); o(d); });
  m1<4, 4, 0>(r, "extract_frustum_planes", 0, [](C& c, auto& m) { T pl[6][4]; cml::extract_frustum_planes(m, pl, c.flag(0) ? cml::z_clip_zero : cml::z_clip_neg_one, c.flag(1)); for(auto& p : pl) for(T x : p) o(x); });
  m2<4, 4, 4, 4, 0, 1>(r, "extract_frustum_planes mv", 0, [](C& c, auto& m, auto& b) { T pl[6][4]; cml::extract_frustum_planes(m, b, pl, c.flag(0) ? cml::z_clip_zero : cml::z_clip_neg_one, c.flag(1)); for(auto& p : pl) for(T x : p) o(x); });
  // random unit vectors
  r.add("random_unit(v)", F_RANDOM, [](C&) { V3 v; cml::random_unit(v); o(v); });
  r.add("random_unit(v, engine)", 0, [](C& c) { V3 v; std::minstd_rand g(unsigned(c.st.n) + 1); cml::random_unit(v, g); o(v); std::mt19937 h(c.st.m); V4 w; cml::random_unit(w, h); o(w); });
  r.add("random_unit(v, axis, angle)", F_RANDOM, [](C& c) { V3 v; cml::random_unit(v, c.template vec<0, 3>(0), T(0.5)); o(v); });
}
}  // namespace reg
