// World "reg": quaternions.
#pragma once
#include "reg_pool.h"
#include <cml/util.h>
#include <sstream>

namespace reg {
template<class U> void reg_quat(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using Q = typename U::Q; using V3 = typename U::template V<3>; using M33 = typename U::template M<3, 3>;
#define Q1(NAME, ...) r.add(NAME, 0, [](C& c) { auto& a = c.quat(0); (void) a; __VA_ARGS__; });
#define Q2(NAME, ...) r.add(NAME, 0, [](C& c) { auto& a = c.quat(0); auto& b = c.quat(1); __VA_ARGS__; });
#define QM(NAME, ...) r.add(NAME, F_MUT, [](C& c) { auto& d = c.quatm(0); __VA_ARGS__; o(d); });
  Q1("quat copy", Q t(a); Q u(std::move(t)); o(u))
  Q1("quat access", o(a.w(), a.x(), a.y(), a.z(), a.real(), a[c.n(4)], a.get(c.m(4))); o(a.imaginary()))
  Q1("quat length", o(a.length(), a.length_squared(), a.norm()))
  Q1("imaginary", o(cml::imaginary(a)); o(cml::real(a)))
  Q1("quat normalize", o(a.normalize()); o(cml::normalize(a)))
  Q1("conjugate", o(cml::conjugate(a)); o(a.conjugate()))
  Q1("quat inverse", o(cml::inverse(a)); o(a.inverse()))
  Q1("quat negate", o(-a); o(+a))
  Q1("q*s", o(a * c.sc(0)); o(c.sc(1) * a); o(a / c.sc(2)))
  Q1("quat log exp", o(cml::log(a)); o(cml::exp(a)))
  Q1("quat iterate", T s = 0; for(auto p = a.begin(); p != a.end(); ++p) s = s * T(0.5) + *p; o(s))
  r.add("print quaternion", F_DYN, [](C& c) { std::ostringstream s; s << c.quat(0); s << c.quat(1) * T(2); auto t = s.str(); sim::out_str(t.data(), t.size()); });
  Q2("q+q", o(a + b); o(a - b))
  Q2("q*q", o(a * b))
  Q2("q*q*q", o(a * b * c.quat(2)))
  Q2("q*(q+q)", Q t = b + c.quat(2); o(a * t))
  Q2("q expression", o((a + b) * c.sc(0) - cml::conjugate(a)))
  Q2("q dot", o(cml::dot(a, b)))
  Q2("q==q", o(a == b, a != b, a < b, a <= b, a > b, a >= b))
  QM("q.normalize()", d.normalize())
  QM("q.zero()", d.zero())
  QM("q.identity()", d.identity())
  QM("q.conjugate()", d.conjugate())
  QM("q.inverse()", d.inverse())
  QM("q.log()", d.log())
  QM("q.exp()", d.exp())
  QM("q.set", d.set(c.template vec<0, 3>(1), c.sc(0)); o(d); d.set(c.sc(1), c.template vec<2, 3>(1)))
  QM("q.put", d.put(c.n(4), c.sc(0)); d[c.m(4)] = c.sc(1); d.w() = c.sc(2); d.z() = c.sc(3))
  QM("q=q", d = c.quat(1))
  QM("q=expression", d = c.quat(1) * c.sc(0) + c.quat(2))
  QM("q=array", T a[4] = {c.sc(0), c.sc(1), c.sc(2), c.sc(3)}; d = a; o(d); d = {c.sc(1), c.sc(2), c.sc(3), c.sc(0)})
  QM("q+=q", d += c.quat(1))
  QM("q-=q", d -= c.quat(1))
  QM("q*=q", d *= c.quat(1))
  QM("q*=s", d *= c.sc(0))
  QM("q/=s", d /= c.sc(0))
  QM("q*=own", d *= d[1])
  r.add("quat ctors", 0, [](C& c) {
    Q a(c.sc(0), c.sc(1), c.sc(2), c.sc(3)), b(c.template vec<0, 3>(0), c.sc(0)), d(c.sc(1), c.template vec<1, 3>(1)), e{c.sc(0), c.sc(1), c.sc(2), c.sc(3)};
    T arr[4] = {c.sc(0), c.sc(1), c.sc(2), c.sc(3)}; Q f(arr); T a3[3] = {c.sc(0), c.sc(1), c.sc(2)}; Q g(a3, c.sc(3)), h(c.sc(3), a3);
    o(a, b, d, e, f, g, h); });
  r.add("quat<other> conversion", 0, [](C& c) {
    cml::quaternion<double, cml::fixed<>, typename U::O, typename U::X> a(c.quat(0)); cml::quaternion<float, cml::fixed<>, typename U::O, typename U::X> b(c.quat(1));
    o(a); o(b); o(a + b); });
  // mathlib: bases and rotations
  Q1("quat basis vectors", o(cml::quaternion_get_basis_vector(a, c.n(3))); o(cml::quaternion_get_x_basis_vector(a)); o(cml::quaternion_get_y_basis_vector(a)); o(cml::quaternion_get_z_basis_vector(a));
    V3 x; V3 y; V3 z; cml::quaternion_get_basis_vectors(a, x, y, z); o(x, y, z))
  QM("quaternion_rotation_world_axis", cml::quaternion_rotation_world_axis(d, c.n(3), c.angle(0)))
  QM("quaternion_rotation_world_x", cml::quaternion_rotation_world_x(d, c.angle(0)))
  QM("quaternion_rotation_world_y", cml::quaternion_rotation_world_y(d, c.angle(0)))
  QM("quaternion_rotation_world_z", cml::quaternion_rotation_world_z(d, c.angle(0)))
  QM("quaternion_rotation_axis_angle", cml::quaternion_rotation_axis_angle(d, c.template vec<0, 3>(1), c.angle(0)))
  QM("quaternion_rotation_matrix", cml::quaternion_rotation_matrix(d, c.template mat<0, 3, 3>(1)))
  QM("quaternion_rotation_matrix4", cml::quaternion_rotation_matrix(d, c.template mat<1, 4, 4>(1)))
  QM("quaternion_rotation_euler", cml::quaternion_rotation_euler(d, c.angle(0), c.angle(1), c.angle(2), cml::euler_order(c.n(12))))
  QM("quaternion_rotation_euler v", cml::quaternion_rotation_euler(d, c.template vec<0, 3>(1), cml::euler_order(c.n(12))))
  QM("quaternion_rotation_align", cml::quaternion_rotation_align(d, c.template vec<0, 3>(1), c.template vec<0, 3>(2), c.flag(0), cml::axis_order(2 * c.n(6))))
  QM("quaternion_rotation_aim_at", cml::quaternion_rotation_aim_at(d, c.template vec<0, 3>(0), c.template vec<1, 3>(1), c.template vec<0, 3>(2), cml::axis_order(2 * c.n(6))))
  Q1("quaternion_to_axis_angle", V3 v; T an; cml::quaternion_to_axis_angle(a, v, an); o(v, an); auto p = cml::quaternion_to_axis_angle(a); o(std::get<0>(p), std::get<1>(p)))
  Q1("quaternion_to_euler", T x; T y; T z; cml::quaternion_to_euler(a, x, y, z, cml::euler_order(c.n(12))); o(x, y, z); o(cml::quaternion_to_euler<V3>(a, cml::euler_order(c.m(12)))))
  Q1("quaternion_to_euler tuple", auto t = cml::quaternion_to_euler(a, cml::euler_order(c.n(12))); o(t))
#undef Q1
#undef Q2
#undef QM
}
}  // namespace reg
