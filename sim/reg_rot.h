// World "reg": mathlib rotations.
#pragma once
#include "reg_pool.h"

namespace reg {
template<class U> void reg_rot(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using V3 = typename U::template V<3>;
#define RM(N_, NAME, ...) m1m<N_, N_, 0>(r, NAME, 0, [](C& c, auto& d) { __VA_ARGS__; o(d); });
#define RV(N_, NAME, ...) m1m<N_, N_, 1>(r, NAME, 0, [](C& c, auto& d) { __VA_ARGS__; o(d); });
#define RD(N_, NAME, ...) m1m<N_, N_, 3>(r, NAME, 0, [](C& c, auto& d) { __VA_ARGS__; o(d); });
  RM(2, "matrix_rotation_2D", cml::matrix_rotation_2D(d, c.angle(0)))
  RM(3, "matrix_rotation_2D", cml::matrix_rotation_2D(d, c.angle(0)))
  RM(2, "matrix_rotation_align_2D", cml::matrix_rotation_align_2D(d, c.template vec<0, 2>(1), c.flag(0), c.flag(1) ? cml::axis_order_xy : cml::axis_order_yx))
  RM(3, "matrix_rotation_world_axis", cml::matrix_rotation_world_axis(d, c.n(3), c.angle(0)))
  RM(4, "matrix_rotation_world_axis", cml::matrix_rotation_world_axis(d, c.n(3), c.angle(0)))
  RM(3, "matrix_rotation_world_x", cml::matrix_rotation_world_x(d, c.angle(0)))
  RM(3, "matrix_rotation_world_y", cml::matrix_rotation_world_y(d, c.angle(0)))
  RM(3, "matrix_rotation_world_z", cml::matrix_rotation_world_z(d, c.angle(0)))
  RV(3, "matrix_rotation_world_xyz", cml::matrix_rotation_world_x(d, c.angle(0)); o(d); cml::matrix_rotation_world_y(d, c.angle(1)); o(d); cml::matrix_rotation_world_z(d, c.angle(2)))
  RD(3, "matrix_rotation_world_xyz", cml::matrix_rotation_world_x(d, c.angle(0)); o(d); cml::matrix_rotation_world_axis(d, c.n(3), c.angle(1)))
  RM(3, "matrix_rotation_axis_angle", cml::matrix_rotation_axis_angle(d, c.template vec<0, 3>(1), c.angle(0)))
  RM(4, "matrix_rotation_axis_angle", cml::matrix_rotation_axis_angle(d, c.template vec<2, 3>(1), c.angle(0)))
  RV(3, "matrix_rotation_axis_angle", cml::matrix_rotation_axis_angle(d, c.template vec<1, 3>(1), c.angle(0)))
  RM(3, "matrix_rotation_euler", cml::matrix_rotation_euler(d, c.angle(0), c.angle(1), c.angle(2), cml::euler_order(c.n(12))))
  RM(4, "matrix_rotation_euler v", cml::matrix_rotation_euler(d, c.template vec<0, 3>(1), cml::euler_order(c.n(12))))
  RV(4, "matrix_rotation_euler", cml::matrix_rotation_euler(d, c.angle(0), c.angle(1), c.angle(2), cml::euler_order(c.n(12))))
  RM(3, "matrix_rotation_euler_derivatives", cml::matrix_rotation_euler_derivatives(d, c.m(3), c.angle(0), c.angle(1), c.angle(2), cml::euler_order(c.n(12))))
  RM(3, "matrix_rotation_euler_derivatives v", cml::matrix_rotation_euler_derivatives(d, c.m(3), c.template vec<0, 3>(1), cml::euler_order(c.n(12))))
  RM(3, "matrix_rotation_quaternion", cml::matrix_rotation_quaternion(d, c.quat(1)))
  RM(4, "matrix_rotation_quaternion", cml::matrix_rotation_quaternion(d, c.quat(1)))
  RV(3, "matrix_rotation_quaternion", cml::matrix_rotation_quaternion(d, c.quat(1)))
  RM(3, "matrix_rotation_align", cml::matrix_rotation_align(d, c.template vec<0, 3>(1), c.template vec<0, 3>(2), c.flag(0), cml::axis_order(2 * c.n(6))))
  RM(4, "matrix_rotation_aim_at", cml::matrix_rotation_aim_at(d, c.template vec<0, 3>(0), c.template vec<0, 3>(1), c.template vec<0, 3>(2), cml::axis_order(2 * c.n(6))))
  m1<3, 3, 0, 1, 3>(r, "matrix_to_axis_angle", 0, [](C&, auto& a) { V3 v; T an; cml::matrix_to_axis_angle(a, v, an); o(v, an); auto p = cml::matrix_to_axis_angle(a); o(std::get<0>(p), std::get<1>(p)); });
  m1<4, 4, 0>(r, "matrix_to_axis_angle", 0, [](C&, auto& a) { V3 v; T an; cml::matrix_to_axis_angle(a, v, an, T(0.1)); o(v, an); });
  m1<3, 3, 0, 1, 3>(r, "matrix_to_euler", 0, [](C& c, auto& a) { T x, y, z; cml::matrix_to_euler(a, x, y, z, cml::euler_order(c.n(12))); o(x, y, z); o(cml::matrix_to_euler<V3>(a, cml::euler_order(c.m(12)))); });
  m1<4, 4, 0>(r, "matrix_to_euler", 0, [](C& c, auto& a) { o(cml::matrix_to_euler(a, cml::euler_order(c.n(12)))); });
  r.add("unpack orders", 0, [](C& c) { int i, j, k; bool a, b; cml::unpack_euler_order(cml::euler_order(c.n(12)), i, j, k, a, b); o(i, j, k, a, b); cml::unpack_axis_order(cml::axis_order(2 * c.n(6)), i, j, k, a); o(i, j, k, a); o(int(cml::swap_axis_order(cml::axis_order(2 * c.m(6))))); });
#undef RM
#undef RV
#undef RD
}
}  // namespace reg
