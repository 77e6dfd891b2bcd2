// More mathlib operations of world "dyn": whole bases, rotations in every order and their inverses, alignment,
// projections, frustum planes, coordinates, angles and quaternions built from dynamic operands.
#pragma once
#include <cml/quaternion.h>
#include <cml/mathlib/mathlib.h>
#include <cml/mathlib/coordinate_conversion.h>
#include <cml/mathlib/frustum.h>
#include <cml/mathlib/matrix/basis.h>
#include <cml/mathlib/matrix/misc.h>
#include <cml/mathlib/matrix/projection.h>
#include <cml/mathlib/matrix/rotation.h>
#include <cml/mathlib/matrix/scale.h>
#include <cml/mathlib/matrix/transform.h>
#include <cml/mathlib/matrix/translation.h>
#include <cml/mathlib/quaternion/basis.h>
#include <cml/mathlib/quaternion/rotation.h>
#include <cml/mathlib/vector/angle.h>
#include <cml/mathlib/vector/orthonormal.h>
namespace dyn {

namespace ml {
using A3 = std::array<double, 3>;
using R9 = std::array<A3, 3>;            // row i: image of basis vector i
inline double dot(const A3& p, const A3& q) { return p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; }
inline double len(const A3& p) { return std::sqrt(dot(p, p)); }
inline A3 mul(const A3& p, double k) { return A3{{p[0] * k, p[1] * k, p[2] * k}}; }
inline A3 sub(const A3& p, const A3& q) { return A3{{p[0] - q[0], p[1] - q[1], p[2] - q[2]}}; }
inline A3 crs(const A3& p, const A3& q) { return A3{{p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]}}; }
inline R9 mul(const R9& p, const R9& q)
{
  R9 r{};
  for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) for(size_t k = 0; k < 3; ++k) r[i][j] += p[i][k] * q[k][j];
  return r;
}
// rotation about one axis, or its derivative
inline R9 about(int axis, double t, bool diff = false)
{
  R9 r{};
  size_t i = size_t(axis), j = (i + 1) % 3, k = (i + 2) % 3;
  double c = diff ? -std::sin(t) : std::cos(t), s = diff ? std::cos(t) : std::sin(t);
  r[i][i] = diff ? 0 : 1; r[j][j] = c; r[k][k] = c; r[j][k] = s; r[k][j] = -s;
  return r;
}
struct Euler { cml::euler_order o; int a[3]; };
inline const Euler& euler(uint64_t v)
{
  static const Euler e[] = {
    {cml::euler_order_xyz, {0, 1, 2}}, {cml::euler_order_xzy, {0, 2, 1}}, {cml::euler_order_yzx, {1, 2, 0}}, {cml::euler_order_yxz, {1, 0, 2}},
    {cml::euler_order_zxy, {2, 0, 1}}, {cml::euler_order_zyx, {2, 1, 0}}, {cml::euler_order_xyx, {0, 1, 0}}, {cml::euler_order_xzx, {0, 2, 0}},
    {cml::euler_order_yzy, {1, 2, 1}}, {cml::euler_order_yxy, {1, 0, 1}}, {cml::euler_order_zxz, {2, 0, 2}}, {cml::euler_order_zyz, {2, 1, 2}}};
  return e[v % 12];
}
inline R9 rotation(const Euler& e, const A3& t, int diff = -1)
{
  return mul(mul(about(e.a[0], t[0], diff == 0), about(e.a[1], t[1], diff == 1)), about(e.a[2], t[2], diff == 2));
}
inline R9 rotation(const A3& n, double t)
{
  R9 r;
  double s = std::sin(t), c = std::cos(t);
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
    int k = 3 - i - j;
    r[size_t(i)][size_t(j)] = n[size_t(i)] * n[size_t(j)] * (1 - c) + (i == j ? c : ((i + 1) % 3 == j ? 1 : -1) * s * n[size_t(k)]);
  }
  return r;
}
struct Axes { cml::axis_order o; int i, j, k; double sign; };
inline const Axes& axes(uint64_t v)
{
  static const Axes a[] = {{cml::axis_order_xyz, 0, 1, 2, 1}, {cml::axis_order_xzy, 0, 2, 1, -1}, {cml::axis_order_yzx, 1, 2, 0, 1},
    {cml::axis_order_yxz, 1, 0, 2, -1}, {cml::axis_order_zxy, 2, 0, 1, 1}, {cml::axis_order_zyx, 2, 1, 0, -1}};
  return a[v % 6];
}
// the basis with axis o.i along "align" and axis o.k normal to "align" and "ref"; false where that is ill-conditioned
inline bool basis(const A3& align, const A3& ref, bool norm, const Axes& o, R9& r)
{
  double la = len(align), lr = len(ref);
  if(la < 0.05 || lr < 0.05) return false;
  A3 a = norm ? mul(align, 1 / la) : align, side = crs(a, ref);
  double ls = len(side);
  if(ls < 0.1 * (norm ? 1 : la) * lr) return false;
  side = mul(side, 1 / ls);
  r[size_t(o.i)] = a;
  r[size_t(o.j)] = crs(side, a);
  r[size_t(o.k)] = mul(side, o.sign);
  return true;
}
// the rotation of a unit quaternion
inline R9 rotation(double w, double x, double y, double z)
{
  return R9{{{{1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w)}}, {{2 * (x * y - z * w), 1 - 2 * (x * x + z * z), 2 * (y * z + x * w)}},
    {{2 * (x * z + y * w), 2 * (y * z - x * w), 1 - 2 * (x * x + y * y)}}}};
}
struct Err
{
  double e = 0;
  void operator()(double got, double want, double mag = 0)
  {
    double d = got == want ? 0 : std::fabs(got - want) / (1 + std::fabs(want) + mag);
    if(!(d <= e)) e = d == d ? d : 1e30;
  }
};
}  // namespace ml

UT void UU::define_ml()
{
  if constexpr(FP) {
  using U = UU;
  using ml::A3; using ml::R9; using ml::Err;
  static const bool CB = std::is_same<BO, cml::col_basis>::value;
  static const double RT = std::is_same<E, float>::value ? 1e-4 : 1e-11;
  static auto setb = [](Val& m, int i, int j, double x) { if(CB) m.set(j, i, cast(x)); else m.set(i, j, cast(x)); };
  static auto getb = [](const Val& m, int i, int j) { return CB ? m.get(j, i) : m.get(i, j); };
  static auto affine = [](const Val& m, int n) { return CB ? m.r >= n && m.c >= n + 1 : m.r >= n + 1 && m.c >= n; };
  static auto linear = [](const Val& m, int n) { return m.r >= n && m.c >= n; };
  static auto v3 = [](const Val& v) { return A3{{v.get(0), v.get(1), v.get(2)}}; };
  static auto big = [](const Val& v) { double m = 0; for(double x : v.e) m = std::max(m, std::fabs(x)); return m; };
  using C2 = cml::vector<E, cml::compiled<2>>;
  using C3 = cml::vector<E, cml::compiled<3>>;
  static double got;

  // ---------------------------------------------------------------- numbers out of a matrix
  def("trace_2x2/trace_3x3", 3, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int b = ms(s.b); const Val B = u.mod[b]; int n = s.m & 1 ? 3 : 2; got = 0;
    Act a; a.owners = own(b); a.scalar = true; a.got_s = &got;
    if(!linear(B, n)) a.ex = SIZE_ERR;
    else { double g = 0; for(int i = 0; i < n; ++i) { a.want_s += B.get(i, i); g += std::fabs(B.get(i, i)); } a.tol_s = RT * (1 + g); }
    a.f = [&u, b, n] { u.with_mat(b, [&](auto& y) { got = to_d(n == 2 ? cml::trace_2x2(y) : cml::trace_3x3(y)); }); };
    u.act(std::move(a));
  });
  def("get_translation(M, e0, e1, e2)", 2, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int b = ms(s.b); const Val B = u.mod[b]; int n = s.m & 1 ? 3 : 2; got = 0;
    Act a; a.owners = own(b); a.scalar = true; a.got_s = &got;
    if(!affine(B, n)) a.ex = SIZE_ERR;
    else for(int i = 0; i < n; ++i) a.want_s += (i + 1) * getb(B, n, i);
    a.tol_s = RT * (1 + 6 * big(B));
    a.f = [&u, b, n] {
      u.with_mat(b, [&](auto& y) {
        E e0 = 0, e1 = 0, e2 = 0;
        if(n == 2) cml::matrix_get_translation_2D(y, e0, e1); else cml::matrix_get_translation(y, e0, e1, e2);
        got = to_d(e0) + 2 * to_d(e1) + 3 * to_d(e2);
      });
    };
    u.act(std::move(a));
  });
  def("angle between vectors", 3, OF_GEO | OF_SIZE | OF_CROSS | OF_ALLOC, [](U& u, const Step& s) {
    int b = vs(s.b), c = vs(s.c), e = vs(s.a); int form = int(s.m % 4); const Val B = u.mod[b], C = u.mod[c], G = u.mod[e]; got = 0;
    Act a; a.owners = mix2(b, c) | own(b) | own(c) | own(e) | 1u << A_GLOBAL; a.scalar = true; a.got_s = &got;
    int n = form < 2 ? 2 : 3;
    if(B.r != n || C.r != n || (form == 2 && G.r != n)) a.ex = SIZE_ERR;
    else {
      double d = 0; for(int i = 0; i < n; ++i) d += B.get(i) * C.get(i);
      double lb = 0, lc = 0; for(int i = 0; i < n; ++i) { lb += B.get(i) * B.get(i); lc += C.get(i) * C.get(i); }
      if(lb * lc < 1e-2) return;
      if(n == 2) {
        double p = B.get(0) * C.get(1) - B.get(1) * C.get(0);
        if(std::fabs(p) < 1e-2 * std::sqrt(lb * lc)) return;        // the sign of +-pi is not determined
        a.want_s = std::atan2(p, d); if(form == 1) a.want_s = std::fabs(a.want_s);
      }
      else {
        A3 x = ml::crs(v3(B), v3(C)); double l = ml::len(x);
        if(l < 1e-2 * std::sqrt(lb * lc)) return;
        a.want_s = std::atan2(l, d);
        if(form == 2) { double t = ml::dot(x, v3(G)); if(std::fabs(t) < 1e-3 * l * (1 + big(G))) return; if(t < 0) a.want_s = -a.want_s; }
      }
      a.tol_s = RT * 100;
    }
    a.f = [&u, b, c, e, form] {
      u.with_vec(b, [&](auto& x) { u.with_vec(c, [&](auto& y) {
        switch(form) {
          case 0: got = to_d(cml::signed_angle_2D(x, y)); break;
          case 1: got = to_d(cml::unsigned_angle_2D(x, y)); break;
          case 2: if(e < 3) got = to_d(cml::signed_angle(x, y, *u.v[e])); else got = to_d(cml::signed_angle(x, y, *u.w[e - 3])); break;
          default: got = to_d(cml::unsigned_angle(x, y)); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("frustum planes of M", 4, OF_GEO | OF_SIZE | OF_CROSS | OF_ALLOC, [](U& u, const Step& s) {
    int b = ms(s.b), c = ms(s.c); int form = int(s.m % 3); bool zero = s.v & 1, dflt = (s.v >> 2) % 4 == 0, nrm = s.v & 2 || dflt; const Val B = u.mod[b], C = u.mod[c]; got = 0;
    if(form == 1 && colmajor(b) != colmajor(c)) return;
    Act a; a.owners = form == 1 ? mix2(b, c) : own(b); a.scalar = true; a.got_s = &got; a.tol_s = RT * 10;
    static std::array<double, 24> want; static double mag; want.fill(0); mag = 0;
    bool ok = form == 1 ? B.r == B.c && C.r == C.c && B.r == C.r && B.r >= 4 : B.r >= 4 && B.c >= 4;
    if(!ok) a.ex = SIZE_ERR;
    else {
      std::array<std::array<double, 4>, 4> m{};
      for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) {
        double t = 0, g = 0;
        if(form == 1) for(int k = 0; k < B.r; ++k) { double q = getb(B, i, k) * getb(C, k, j); t += q; g += std::fabs(q); }
        else g = std::fabs(t = getb(B, i, j));
        m[size_t(i)][size_t(j)] = t; mag = std::max(mag, g);
      }
      for(int p = 0; p < 6; ++p) {
        double l = 0;
        for(int i = 0; i < 4; ++i) {
          auto& r = m[size_t(i)]; double x = r[size_t(p / 2)];
          double e = p == 4 && zero ? x : r[3] + (p & 1 ? -x : x);
          want[size_t(p * 4 + i)] = e; if(i < 3) l += e * e;
        }
        l = std::sqrt(l);
        if(nrm && form != 2) { if(l < 0.05 || l < 1e-3 * mag) return; for(int i = 0; i < 4; ++i) want[size_t(p * 4 + i)] /= l; }
      }
      if(nrm && form != 2) mag = mag / 0.05;
    }
    a.tol_s = RT * 10;
    a.f = [&u, b, c, form, zero, nrm, dflt] {
      auto z = zero ? cml::z_clip_zero : cml::z_clip_neg_one; E planes[6][4] = {};
      u.with_mat(b, [&](auto& x) {
        if(form == 0) { if(dflt) cml::extract_frustum_planes(x, planes, z); else cml::extract_frustum_planes(x, planes, z, nrm); }
        else if(form == 2) cml::extract_near_frustum_plane(x, planes[4], z);
        else u.with_mat(c, [&](auto& y) {
          using X = typename std::decay_t<decltype(x)>::layout_tag; using Y = typename std::decay_t<decltype(y)>::layout_tag;
          if constexpr(std::is_same<X, Y>::value) { if(dflt) cml::extract_frustum_planes(x, y, planes, z); else cml::extract_frustum_planes(x, y, planes, z, nrm); }
        });
      });
      Err err;
      for(int p = form == 2 ? 4 : 0; p < (form == 2 ? 5 : 6); ++p) for(int i = 0; i < 4; ++i) err(to_d(planes[p][i]), want[size_t(p * 4 + i)], mag);
      got = err.e;
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- bases
  def("all basis vectors of M", 4, OF_GEO | OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); bool three = s.n & 1, tr = s.n & 2, all = s.n & 4; const Val B = u.mod[b]; int n = three ? 3 : 2; int i = int(s.v & 0xffff) % n;
    Act a; a.dst = d; a.owners = own(d) | own(b);
    if(!linear(B, n)) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mkv(d, n, [&](int j) { return tr ? getb(B, j, i) : getb(B, i, j); }); }
    a.f = [&u, d, b, three, tr, all, i] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        if(all && three) {
          C3 p, q;
          if(tr) { if(i == 0) cml::matrix_get_transposed_basis_vectors(y, x, p, q); else if(i == 1) cml::matrix_get_transposed_basis_vectors(y, p, x, q); else cml::matrix_get_transposed_basis_vectors(y, p, q, x); }
          else { if(i == 0) cml::matrix_get_basis_vectors(y, x, p, q); else if(i == 1) cml::matrix_get_basis_vectors(y, p, x, q); else cml::matrix_get_basis_vectors(y, p, q, x); }
        }
        else if(all) {
          C2 p;
          if(tr) { if(i == 0) cml::matrix_get_transposed_basis_vectors_2D(y, x, p); else cml::matrix_get_transposed_basis_vectors_2D(y, p, x); }
          else { if(i == 0) cml::matrix_get_basis_vectors_2D(y, x, p); else cml::matrix_get_basis_vectors_2D(y, p, x); }
        }
        else if(three) {
          if(tr) { if(i == 0) x = cml::matrix_get_transposed_x_basis_vector(y); else if(i == 1) x = cml::matrix_get_transposed_y_basis_vector(y); else x = cml::matrix_get_transposed_z_basis_vector(y); }
          else { if(i == 0) x = cml::matrix_get_x_basis_vector(y); else if(i == 1) x = cml::matrix_get_y_basis_vector(y); else x = cml::matrix_get_z_basis_vector(y); }
        }
        else {
          if(tr) { if(i == 0) x = cml::matrix_get_transposed_x_basis_vector_2D(y); else x = cml::matrix_get_transposed_y_basis_vector_2D(y); }
          else { if(i == 0) x = cml::matrix_get_x_basis_vector_2D(y); else x = cml::matrix_get_y_basis_vector_2D(y); }
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("set x/y/z basis vector of M", 3, OF_GEO | OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = vs(s.b); bool three = s.n & 1, tr = s.n & 2; const Val D = u.mod[d], B = u.mod[b]; int n = three ? 3 : 2; int i = int(s.v & 0xffff) % n;
    Act a; a.dst = d; a.owners = own(d);
    if(!linear(D, n) || B.r != n) a.ex = SIZE_ERR;
    else { a.have_want = true; Val w = D; for(int j = 0; j < n; ++j) if(tr) setb(w, j, i, B.get(j)); else setb(w, i, j, B.get(j)); a.want = w; }
    a.f = [&u, d, b, three, tr, i] {
      u.with_mat(d, [&](auto& x) { u.with_vec(b, [&](auto& y) {
        if(three) {
          if(tr) { if(i == 0) cml::matrix_set_transposed_x_basis_vector(x, y); else if(i == 1) cml::matrix_set_transposed_y_basis_vector(x, y); else cml::matrix_set_transposed_z_basis_vector(x, y); }
          else { if(i == 0) cml::matrix_set_x_basis_vector(x, y); else if(i == 1) cml::matrix_set_y_basis_vector(x, y); else cml::matrix_set_z_basis_vector(x, y); }
        }
        else {
          if(tr) { if(i == 0) cml::matrix_set_transposed_x_basis_vector_2D(x, y); else cml::matrix_set_transposed_y_basis_vector_2D(x, y); }
          else { if(i == 0) cml::matrix_set_x_basis_vector_2D(x, y); else cml::matrix_set_y_basis_vector_2D(x, y); }
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("v=axis of an orthonormal basis", 4, OF_GEO | OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); int dflt = int((s.n >> 2) % 4); bool three = s.n & 1, nrm = s.n & 2 || dflt == 1; const Val B = u.mod[b], C = u.mod[c]; int n = three ? 3 : 2; int i = int(s.v & 0xffff) % n;
    const auto& o = ml::axes(dflt == 1 || dflt == 2 ? 5 : s.v >> 16); bool yx = (s.v >> 16) & 1 && dflt != 1 && dflt != 2;
    Act a; a.dst = d; a.owners = own(d) | mix2(b, c) | own(b) | own(c); a.tol = RT;
    if(B.r != n || (three && C.r != 3)) a.ex = SIZE_ERR;
    else if(three) {
      R9 r; if(!ml::basis(v3(B), v3(C), nrm, o, r)) return;
      a.have_want = true; a.want = u.mkv(d, 3, [&](int j) { return r[size_t(i)][size_t(j)]; }); a.tol = RT * 10 * (1 + big(B));
    }
    else {
      double l = std::hypot(B.get(0), B.get(1)); if(l < 0.05) return;
      double x = B.get(0), y = B.get(1); if(nrm) x /= l, y /= l;
      // xy: x along the vector, y a quarter turn on; yx: y along the vector, x a quarter turn back
      A3 p = yx ? A3{{y, -x, 0}} : A3{{x, y, 0}}, q = yx ? A3{{x, y, 0}} : A3{{-y, x, 0}};
      a.have_want = true; a.want = u.mkv(d, 2, [&](int j) { return (i ? q : p)[size_t(j)]; });
    }
    a.f = [&u, d, b, c, three, nrm, i, &o, yx, dflt] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) {
        if(three) u.with_vec(c, [&](auto& z) {
          C3 p, q;
          if(dflt == 1) { if(i == 0) cml::orthonormal_basis(y, z, x, p, q); else if(i == 1) cml::orthonormal_basis(y, z, p, x, q); else cml::orthonormal_basis(y, z, p, q, x); }
          else if(dflt == 2) { if(i == 0) cml::orthonormal_basis(y, z, x, p, q, nrm); else if(i == 1) cml::orthonormal_basis(y, z, p, x, q, nrm); else cml::orthonormal_basis(y, z, p, q, x, nrm); }
          else if(i == 0) cml::orthonormal_basis(y, z, x, p, q, nrm, o.o); else if(i == 1) cml::orthonormal_basis(y, z, p, x, q, nrm, o.o); else cml::orthonormal_basis(y, z, p, q, x, nrm, o.o);
        });
        else {
          C2 p; auto o2 = yx ? cml::axis_order_yx : cml::axis_order_xy;
          if(dflt == 1) { if(i == 0) cml::orthonormal_basis_2D(y, x, p); else cml::orthonormal_basis_2D(y, p, x); }
          else if(dflt == 2) { if(i == 0) cml::orthonormal_basis_2D(y, x, p, nrm); else cml::orthonormal_basis_2D(y, p, x, nrm); }
          else if(i == 0) cml::orthonormal_basis_2D(y, x, p, nrm, o2); else cml::orthonormal_basis_2D(y, p, x, nrm, o2);
        }
      }); });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- rotations
  def("build M: euler rotation in any order", 6, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), c = vs(s.c); int form = int(s.n % 4); const Val D = u.mod[d], C = u.mod[c];
    const auto& o = ml::euler(s.v >> 20); int ax = int((s.v >> 10) % 3); bool rep = o.a[0] == o.a[2]; bool vec = form & 1, diff = form & 2;
    A3 t{{num(s.v, 0) * 0.35, num(s.v, 1) * 0.35, num(s.v, 2) * 0.35}};
    Act a; a.dst = d; a.owners = own(d);
    bool badv = vec && C.r != 3, badm = !linear(D, 3), bada = diff && rep;
    if(bada && (badv || badm)) return;          // which of the two errors comes first is not documented
    if(badv || badm) a.ex = SIZE_ERR; else if(bada) a.ex = ARG_ERR;
    else {
      if(vec) { t = v3(C); if(big(C) > 100) return; }
      R9 r = ml::rotation(o, t, diff ? ax : -1);
      a.have_want = true; a.tol = RT * (1 + (vec ? big(C) : 0));
      Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
      if(diff) for(auto& k : w.known) k = 0;
      for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) setb(w, i, j, r[size_t(i)][size_t(j)]);
      a.want = w;
    }
    a.f = [&u, d, c, vec, diff, ax, &o, t] {
      u.with_mat(d, [&](auto& x) {
        E e0 = E(t[0]), e1 = E(t[1]), e2 = E(t[2]);
        if(vec) u.with_vec(c, [&](auto& z) { if(diff) cml::matrix_rotation_euler_derivatives(x, ax, z, o.o); else cml::matrix_rotation_euler(x, z, o.o); });
        else if(diff) cml::matrix_rotation_euler_derivatives(x, ax, e0, e1, e2, o.o);
        else cml::matrix_rotation_euler(x, e0, e1, e2, o.o);
      });
    };
    u.act(std::move(a));
  });
  def("build M: world x/y/z, quaternion, linear", 4, OF_GEO | OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b); int form = int(s.n % 6); const Val D = u.mod[d], B = u.mod[b];
    double t = num(s.v, 0) * 0.35; double q[4] = {num(s.v, 1) * 0.2, num(s.v, 2) * 0.2, num(s.v, 3) * 0.2, num(s.v, 4) * 0.2};
    if(form == 5 && b == d) return;             // builds the matrix it reads
    Act a; a.dst = d; a.owners = own(d); a.tol = RT;
    if(!linear(D, 3) || (form == 5 && !linear(B, 3))) a.ex = SIZE_ERR;
    else {
      R9 r{};
      if(form < 3) r = ml::about(form, t);
      else if(form == 5) for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r[size_t(i)][size_t(j)] = getb(B, i, j);
      else r = ml::rotation(q[0], q[1], q[2], q[3]);
      Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
      for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) setb(w, i, j, r[size_t(i)][size_t(j)]);
      a.have_want = true; a.want = w;
    }
    std::array<E, 4> e{{E(q[0]), E(q[1]), E(q[2]), E(q[3])}};
    a.f = [&u, d, b, form, t, e] {
      u.with_mat(d, [&](auto& x) {
        switch(form) {
          case 0: cml::matrix_rotation_world_x(x, E(t)); break;
          case 1: cml::matrix_rotation_world_y(x, E(t)); break;
          case 2: cml::matrix_rotation_world_z(x, E(t)); break;
          case 3: { cml::quaternion<E, cml::fixed<>, cml::imaginary_first> k(e[1], e[2], e[3], e[0]); cml::matrix_rotation_quaternion(x, k); break; }
          case 4: { cml::quaternion<E, cml::fixed<>, cml::real_first, cml::negative_cross> k(e[0], e[1], e[2], e[3]); cml::matrix_rotation_quaternion(x, k); break; }
          default: u.with_mat(b, [&](auto& y) { cml::matrix_linear_transform(x, y); }); break;
        }
      });
    };
    u.act(std::move(a));
  });
  def("build M: align/aim at/look at in any order", 5, OF_GEO | OF_SIZE | OF_CROSS | OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a), b = vs(s.b), c = vs(s.c), e = vs(s.m); int form = int(s.n % 4); const Val D = u.mod[d], B = u.mod[b], C = u.mod[c], G = u.mod[e];
    // the last arguments are left to their defaults sometimes
    int dflt = int((s.v >> 2) % 4); bool nrm = s.v & 1 || dflt == 1, left = s.v & 2; const auto& o = ml::axes(dflt == 1 || dflt == 2 ? 5 : s.v >> 16);
    if(form == 3 && dflt) left = false;
    Act a; a.dst = d; a.owners = own(d) | own(b) | own(c) | own(e) | mix2(b, c) | 1u << A_GLOBAL;
    Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
    double mb = 1 + big(B), mc = 1 + big(C);
    if(form == 3) {
      if(!linear(D, 2) || B.r != 2) a.ex = SIZE_ERR;
      else {
        double l = std::hypot(B.get(0), B.get(1)); if(l < 0.05) return;
        if(!nrm) l = 1;
        double x = B.get(0) / l, y = B.get(1) / l;
        // yx: the y axis lies along the vector
        if(left) { setb(w, 1, 0, x); setb(w, 1, 1, y); setb(w, 0, 0, y); setb(w, 0, 1, -x); }
        else { setb(w, 0, 0, x); setb(w, 0, 1, y); setb(w, 1, 0, -y); setb(w, 1, 1, x); }
        a.tol = RT;
      }
    }
    else if(form < 2) {
      bool ok = linear(D, 3) && B.r == 3 && C.r == 3 && (form == 0 || G.r == 3);
      if(!ok) a.ex = SIZE_ERR;
      else {
        R9 r; A3 al = form ? ml::sub(v3(C), v3(B)) : v3(B);
        if(!ml::basis(al, form ? v3(G) : v3(C), form || nrm, o, r)) return;
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) setb(w, i, j, r[size_t(i)][size_t(j)]);
        a.tol = RT * 10 * (1 + (form ? (mb + mc) / ml::len(al) : mb));
      }
    }
    else {
      if(!affine(D, 3) || B.r != 3 || C.r != 3 || G.r != 3) a.ex = SIZE_ERR;
      else {
        A3 p = v3(B), z = ml::sub(v3(C), p), up = v3(G);
        double l = ml::len(z); if(l < 0.05) return;
        z = ml::mul(z, (left ? 1 : -1) / l);
        A3 x = ml::crs(up, z); double lx = ml::len(x), lu = ml::len(up); if(lu < 0.05 || lx < 0.1 * lu) return;
        x = ml::mul(x, 1 / lx); A3 y = ml::crs(z, x);
        for(int j = 0; j < 3; ++j) { setb(w, j, 0, x[size_t(j)]); setb(w, j, 1, y[size_t(j)]); setb(w, j, 2, z[size_t(j)]); }
        setb(w, 3, 0, -ml::dot(p, x)); setb(w, 3, 1, -ml::dot(p, y)); setb(w, 3, 2, -ml::dot(p, z));
        a.tol = RT * 10 * (mb + mc) * (1 + (mb + mc) / l);
      }
    }
    if(a.ex == OK) { a.have_want = true; a.want = w; }
    a.f = [&u, d, b, c, e, form, nrm, left, &o, dflt] {
      u.with_mat(d, [&](auto& x) { u.with_vec(b, [&](auto& p) { u.with_vec(c, [&](auto& q) {
        auto h = left ? cml::left_handed : cml::right_handed;
        switch(form) {
          case 0: if(dflt == 1) cml::matrix_rotation_align(x, p, q); else if(dflt == 2) cml::matrix_rotation_align(x, p, q, nrm); else cml::matrix_rotation_align(x, p, q, nrm, o.o); break;
          case 1:
            if(dflt == 1 || dflt == 2) { if(e < 3) cml::matrix_rotation_aim_at(x, p, q, *u.v[e]); else cml::matrix_rotation_aim_at(x, p, q, *u.w[e - 3]); }
            else { if(e < 3) cml::matrix_rotation_aim_at(x, p, q, *u.v[e], o.o); else cml::matrix_rotation_aim_at(x, p, q, *u.w[e - 3], o.o); }
            break;
          case 2: if(e < 3) cml::matrix_look_at(x, p, q, *u.v[e], h); else cml::matrix_look_at(x, p, q, *u.w[e - 3], h); break;
          default:
            if(dflt == 1) cml::matrix_rotation_align_2D(x, p); else if(dflt) cml::matrix_rotation_align_2D(x, p, nrm);
            else cml::matrix_rotation_align_2D(x, p, nrm, left ? cml::axis_order_yx : cml::axis_order_xy);
            break;
        }
      }); }); });
    };
    u.act(std::move(a));
  });
  def("v=angles of a rotation matrix", 5, OF_GEO | OF_SIZE | OF_ALLOC | OF_RESIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); int form = int(s.n % 6), pose = int((s.v >> 4) % 4); bool ax = form >= 3; const auto& o = ml::euler(s.v >> 20); got = 0;
    const double pi = 3.14159265358979323846;
    A3 t{{num(s.v, 0) * 0.3, num(s.v, 1) * 0.3, num(s.v, 2) * 0.3}};
    static R9 R; static int size; size = 3 + int((s.v >> 8) % 2);
    double tol = RT * 10;
    if(ax) {
      double l = ml::len(t); if(l < 0.3) return;
      // about a general axis by a general angle, by half a turn, by nothing; about a coordinate axis
      A3 n = ml::mul(t, 1 / l);
      if(pose == 3) n = A3{{double((s.v >> 6) % 3 == 0), double((s.v >> 6) % 3 == 1), double((s.v >> 6) % 3 == 2)}};
      R = ml::rotation(n, pose == 1 ? pi : pose == 2 ? 0 : 0.2 + (s.v >> 12) % 28 * 0.1);
      if(pose == 1) tol = std::is_same<E, float>::value ? 5e-3 : 1e-6;
    }
    else {
      bool rep = o.a[0] == o.a[2];
      if(pose == 1) t[1] = rep ? 0 : pi / 2; else if(pose == 2) t[1] = rep ? pi : -pi / 2;
      R = ml::rotation(o, t);
      // near the degenerate positions the angles lose half of the digits
      if(pose == 1 || pose == 2) { for(auto& r : R) for(double& x : r) if(std::fabs(x) < 1e-12) x = 0; tol = std::is_same<E, float>::value ? 5e-3 : 1e-6; }
    }
    bool exact = s.v & 1;           // every second time with a tolerance of the caller's
    Act a; a.dst = d; a.owners = own(d) | own(b); a.scalar = true; a.got_s = &got; a.tol_s = tol;
    a.f = [&u, d, b, form, ax, &o, exact] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        using X = std::decay_t<decltype(x)>; using Y = std::decay_t<decltype(y)>;
        Y m(size, size); m.identity();
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m.set_basis_element(i, j, E(R[size_t(i)][size_t(j)]));
        E e0 = 0, e1 = 0, e2 = 0, tol = std::is_same<E, float>::value ? E(1e-4) : E(1e-9);
        double ang = 0; A3 g;
        auto take = [&](const auto& z) { return A3{{to_d(z[0]), to_d(z[1]), to_d(z[2])}}; };
        if(!ax) {
          switch(form) {
            case 0: if(exact) x = cml::matrix_to_euler<X>(m, o.o, tol); else x = cml::matrix_to_euler<X>(m, o.o); break;
            case 1: if(exact) x = cml::matrix_to_euler(m, o.o, tol); else x = cml::matrix_to_euler(m, o.o); break;
            default: if(exact) cml::matrix_to_euler(m, e0, e1, e2, o.o, tol); else cml::matrix_to_euler(m, e0, e1, e2, o.o); x = C3(e0, e1, e2); break;
          }
          g = take(x);
        }
        else {
          E t = 0;
          switch(form) {
            case 3: if(exact) cml::matrix_to_axis_angle(m, x, t, tol); else cml::matrix_to_axis_angle(m, x, t, tol); break;
            case 4: { auto r = cml::matrix_to_axis_angle(m, tol); x = std::get<0>(r); t = std::get<1>(r); break; }
            default: { C3 n; cml::matrix_to_axis_angle(m, n, t, tol); x = n; }
          }
          g = take(x); ang = to_d(t);
        }
        if(x.size() != 3) { got = 77; return; }
        R9 r = ax ? ml::rotation(g, ang) : ml::rotation(o, g);
        Err err; for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) err(r[i][j], R[i][j]);
        // angles are given in their principal range, axes as unit vectors (or zero, for no rotation)
        if(ax) { double l = ml::len(g); if(ang < 0 || ang > 3.1416) err(9, 0); if(ang > 1e-3 ? std::fabs(l - 1) > 1e-3 : l > 1.001) err(8, 0); }
        else for(double q : g) if(std::fabs(q) > 3.1416) err(7, 0);
        got = err.e;
      }); });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- quaternions from dynamic operands, and back
  def("quaternion from vectors/M", 4, OF_GEO | OF_SIZE | OF_CROSS | OF_ALLOC, [](U& u, const Step& s) {
    int b = vs(s.b), c = vs(s.c), e = vs(s.a), m = ms(s.m); int form = int(s.n % 5); const Val B = u.mod[b], C = u.mod[c], G = u.mod[e], M_ = u.mod[m]; got = 0;
    const auto& o = ml::euler(s.v >> 20); bool dflt = (s.v >> 1) % 3 == 0; const auto& x = ml::axes(dflt ? 5 : s.v >> 16); bool nrm = s.v & 1; double ang = num(s.v, 3) * 0.3;
    static R9 R; static double Q[4];
    Act a; a.owners = own(b) | own(c) | own(e) | own(m) | mix2(b, c) | 1u << A_GLOBAL; a.scalar = true; a.got_s = &got; a.tol_s = RT * 10;
    switch(form) {
      case 0:
        if(B.r != 3) a.ex = SIZE_ERR;
        else { Q[0] = std::cos(ang / 2); for(int i = 0; i < 3; ++i) Q[i + 1] = std::sin(ang / 2) * B.get(i); }
        break;
      case 1:
        if(B.r != 3) a.ex = SIZE_ERR; else { if(big(B) > 100) return; R = ml::rotation(o, v3(B)); a.tol_s *= 1 + big(B); }
        break;
      case 2:
        if(B.r != 3 || C.r != 3) a.ex = SIZE_ERR; else { if(!nrm) nrm = true; if(!ml::basis(v3(B), v3(C), nrm, x, R)) return; }
        break;
      case 3:
        if(B.r != 3 || C.r != 3 || G.r != 3) a.ex = SIZE_ERR;
        else { A3 t = ml::sub(v3(C), v3(B)); if(!ml::basis(t, v3(G), true, x, R)) return; a.tol_s *= 1 + (big(B) + big(C)) / ml::len(t); }
        break;
      default:
        if(!linear(M_, 3)) a.ex = SIZE_ERR;
        else {
          // the matrix must be a rotation: only the ones the history has left as such
          for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) R[size_t(i)][size_t(j)] = getb(M_, i, j);
          for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) if(std::fabs(ml::dot(R[i], R[j]) - (i == j)) > RT) return;
          if(ml::dot(ml::crs(R[0], R[1]), R[2]) < 0) return;
        }
    }
    a.f = [&u, b, c, e, m, form, &o, &x, nrm, ang, dflt] {
      cml::quaternion<E, cml::fixed<>, cml::imaginary_first> p; cml::quaternion<E, cml::fixed<>, cml::real_first, cml::negative_cross> q;
      p.identity(); q.identity();
      u.with_vec(b, [&](auto& y) {
        switch(form) {
          case 0: cml::quaternion_rotation_axis_angle(p, y, E(ang)); cml::quaternion_rotation_axis_angle(q, y, E(ang)); break;
          case 1: cml::quaternion_rotation_euler(p, y, o.o); cml::quaternion_rotation_euler(q, y, o.o); break;
          case 2: u.with_vec(c, [&](auto& z) { if(dflt) cml::quaternion_rotation_align(p, y, z); else cml::quaternion_rotation_align(p, y, z, nrm, x.o); if(dflt) cml::quaternion_rotation_align(q, y, z, nrm); else cml::quaternion_rotation_align(q, y, z, nrm, x.o); }); break;
          case 3:
            u.with_vec(c, [&](auto& z) {
              if(dflt) { if(e < 3) cml::quaternion_rotation_aim_at(p, y, z, *u.v[e]); else cml::quaternion_rotation_aim_at(p, y, z, *u.w[e - 3]); return; }
              if(e < 3) cml::quaternion_rotation_aim_at(p, y, z, *u.v[e], x.o); else cml::quaternion_rotation_aim_at(p, y, z, *u.w[e - 3], x.o); });
            q.set(p.real(), p.imaginary());
            break;
          default: u.with_mat(m, [&](auto& z) { cml::quaternion_rotation_matrix(p, z); cml::quaternion_rotation_matrix(q, z); }); break;
        }
      });
      Err err;
      for(int k = 0; k < 2; ++k) {
        double w = k ? to_d(q.real()) : to_d(p.real()); A3 v;
        for(int i = 0; i < 3; ++i) v[size_t(i)] = k ? to_d(q.imaginary()[i]) : to_d(p.imaginary()[i]);
        if(form == 0) { err(w, Q[0]); for(int i = 0; i < 3; ++i) err(v[size_t(i)], Q[i + 1]); }
        else { R9 r = ml::rotation(w, v[0], v[1], v[2]); for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) err(r[i][j], R[i][j]); }
      }
      got = err.e;
    };
    u.act(std::move(a));
  });
  def("v=angles/axis of a quaternion", 4, OF_GEO | OF_SIZE | OF_ALLOC | OF_RESIZE, [](U& u, const Step& s) {
    int d = vs(s.a); int form = int(s.n % 4), k = int((s.v >> 6) % 3); const auto& o = ml::euler(s.v >> 20); got = 0;
    double q[4]; double l = 0; for(int i = 0; i < 4; ++i) { q[i] = num(s.v, i); l += q[i] * q[i]; }
    if(l < 1) return;
    l = std::sqrt(l); for(double& x : q) x /= l;
    static R9 R; R = ml::rotation(q[0], q[1], q[2], q[3]);
    Act a; a.dst = d; a.owners = own(d); a.scalar = true; a.got_s = &got;
    // the angles lose half of the digits near their degenerate positions
    a.tol_s = form < 2 ? (std::is_same<E, float>::value ? 5e-3 : 1e-6) : RT * 10;
    std::array<E, 4> e{{E(q[0]), E(q[1]), E(q[2]), E(q[3])}};
    // at the degenerate positions the default tolerance (epsilon) does not tell rounding errors from angles
    bool rep = o.a[0] == o.a[2]; A3 p1 = R[size_t(o.a[0])];
    double c1 = rep ? std::hypot(p1[size_t((o.a[0] + 1) % 3)], p1[size_t((o.a[0] + 2) % 3)]) : std::hypot(p1[size_t(o.a[0])], p1[size_t(o.a[1])]);
    bool near_ = c1 < 0.01;
    if(near_ && c1 > 1e-6) return;
    a.f = [&u, d, form, k, &o, e, near_] {
      u.with_vec(d, [&](auto& x) {
        using X = std::decay_t<decltype(x)>;
        cml::quaternion<E, cml::fixed<>, cml::real_first> p(e[0], e[1], e[2], e[3]);
        Err err; E t = 0, tol = std::is_same<E, float>::value ? E(1e-3) : E(1e-7); A3 g;
        auto take = [&] { g = A3{{to_d(x[0]), to_d(x[1]), to_d(x[2])}}; };
        auto cmp = [&](const R9& r) { for(size_t i = 0; i < 3; ++i) for(size_t j = 0; j < 3; ++j) err(r[i][j], R[i][j]); };
        switch(form) {
          case 0: if(near_) x = cml::quaternion_to_euler<X>(p, o.o, tol); else x = cml::quaternion_to_euler<X>(p, o.o); take(); cmp(ml::rotation(o, g)); break;
          case 1: if(near_) x = cml::quaternion_to_euler(p, o.o, tol); else x = cml::quaternion_to_euler(p, o.o); take(); cmp(ml::rotation(o, g)); break;
          case 2: { cml::quaternion_to_axis_angle(p, x, t); take(); cmp(ml::rotation(g, to_d(t))); break; }
          default: {
            C3 y, z;
            if(k == 0) cml::quaternion_get_basis_vectors(p, x, y, z); else if(k == 1) cml::quaternion_get_basis_vectors(p, y, x, z); else cml::quaternion_get_basis_vectors(p, y, z, x);
            take(); for(size_t i = 0; i < 3; ++i) err(g[i], R[size_t(k)][i]);
          }
        }
        got = x.size() == 3 ? err.e : 77;
      });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- projections
  def("build M: projection", 5, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a); int form = int(s.n % 6); const Val D = u.mod[d]; bool left = s.v & 1, zero = s.v & 2, dir = s.v & 4;
    double n = 0.5 + std::fabs(num(s.v, 0)) * 0.25, f = n + 1 + std::fabs(num(s.v, 1)), l = num(s.v, 2), r = l + 1 + std::fabs(num(s.v, 3)), bo = num(s.v, 4), t = bo + 1 + std::fabs(num(s.v, 5));
    double fov = 0.3 + std::fabs(num(s.v, 6)) * 0.4, asp = 0.5 + std::fabs(num(s.v, 7)) * 0.25;
    Act a; a.dst = d; a.owners = own(d); a.tol = RT * 10;
    if(!(D.r >= 4 && D.c >= 4)) a.ex = SIZE_ERR;
    else {
      double L = l, R = r, B = bo, T = t, sg = left ? 1 : -1;
      double wd = r - l, ht = t - bo;
      if(form == 4) { wd = 2 * n * std::tan(fov / 2); ht = wd / asp; }
      if(form == 5) { ht = 2 * n * std::tan(fov / 2); wd = ht * asp; }
      if(form == 1 || form >= 3) { R = wd / 2; L = -R; T = ht / 2; B = -T; }
      Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
      // x and y of the box (for perspective: at the near plane) map to [-1,1], depth to [-1,1] or [0,1]
      double near_z = zero ? 0 : -1;
      if(form < 2) {
        setb(w, 0, 0, 2 / (R - L)); setb(w, 3, 0, -(R + L) / (R - L));
        setb(w, 1, 1, 2 / (T - B)); setb(w, 3, 1, -(T + B) / (T - B));
        double k = (1 - near_z) / (f - n);
        setb(w, 2, 2, sg * k); setb(w, 3, 2, near_z - k * n);
      }
      else {
        setb(w, 0, 0, 2 * n / (R - L)); setb(w, 2, 0, -sg * (R + L) / (R - L));
        setb(w, 1, 1, 2 * n / (T - B)); setb(w, 2, 1, -sg * (T + B) / (T - B));
        setb(w, 2, 3, sg); setb(w, 3, 3, 0);
        // k*n + c = near_z*n, k*f + c = f
        double k = (f - near_z * n) / (f - n);
        setb(w, 2, 2, sg * k); setb(w, 3, 2, near_z * n - k * n);
      }
      a.have_want = true; a.want = w;
    }
    auto c = [](double x) { return E(x); };
    std::array<E, 8> p{{c(l), c(r), c(bo), c(t), c(n), c(f), c(fov), c(asp)}};
    a.f = [&u, d, form, p, left, zero, dir] {
      u.with_mat(d, [&](auto& x) {
        auto h = left ? cml::left_handed : cml::right_handed; auto z = zero ? cml::z_clip_zero : cml::z_clip_neg_one;
        E w = p[1] - p[0], t = p[3] - p[2];
        switch(form) {
          case 0:
            if(dir) cml::matrix_orthographic(x, p[0], p[1], p[2], p[3], p[4], p[5], h, z);
            else if(left) cml::matrix_orthographic_LH(x, p[0], p[1], p[2], p[3], p[4], p[5], z); else cml::matrix_orthographic_RH(x, p[0], p[1], p[2], p[3], p[4], p[5], z);
            break;
          case 1:
            if(dir) cml::matrix_orthographic(x, w, t, p[4], p[5], h, z);
            else if(left) cml::matrix_orthographic_LH(x, w, t, p[4], p[5], z); else cml::matrix_orthographic_RH(x, w, t, p[4], p[5], z);
            break;
          case 2:
            if(dir) cml::matrix_perspective(x, p[0], p[1], p[2], p[3], p[4], p[5], h, z);
            else if(left) cml::matrix_perspective_LH(x, p[0], p[1], p[2], p[3], p[4], p[5], z); else cml::matrix_perspective_RH(x, p[0], p[1], p[2], p[3], p[4], p[5], z);
            break;
          case 3:
            if(dir) cml::matrix_perspective(x, w, t, p[4], p[5], h, z);
            else if(left) cml::matrix_perspective_LH(x, w, t, p[4], p[5], z); else cml::matrix_perspective_RH(x, w, t, p[4], p[5], z);
            break;
          case 4:
            if(dir) cml::matrix_perspective_xfov(x, p[6], p[7], p[4], p[5], h, z);
            else if(left) cml::matrix_perspective_xfov_LH(x, p[6], p[7], p[4], p[5], z); else cml::matrix_perspective_xfov_RH(x, p[6], p[7], p[4], p[5], z);
            break;
          default:
            if(dir) cml::matrix_perspective_yfov(x, p[6], p[7], p[4], p[5], h, z);
            else if(left) cml::matrix_perspective_yfov_LH(x, p[6], p[7], p[4], p[5], z); else cml::matrix_perspective_yfov_RH(x, p[6], p[7], p[4], p[5], z);
            break;
        }
      });
    };
    u.act(std::move(a));
  });
  def("build M: scale by numbers", 3, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a); int form = int(s.n % 6); const Val D = u.mod[d]; double y[3] = {nz(s.v, 0), nz(s.v, 1), nz(s.v, 2)};
    bool two = form < 3, inv = form % 3 == 2, uni = form % 3 == 1; int n = two ? 2 : 3;
    Act a; a.dst = d; a.owners = own(d); a.tol = RT;
    if(!affine(D, n)) a.ex = SIZE_ERR;
    else {
      a.have_want = true; Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
      for(int i = 0; i < n; ++i) setb(w, i, i, inv ? 1 / y[i] : uni ? y[0] : y[i]);
      a.want = w;
    }
    std::array<E, 3> e{{E(y[0]), E(y[1]), E(y[2])}};
    a.f = [&u, d, form, e] {
      u.with_mat(d, [&](auto& x) {
        switch(form) {
          case 0: cml::matrix_scale_2D(x, e[0], e[1]); break;
          case 1: cml::matrix_uniform_scale_2D(x, e[0]); break;
          case 2: cml::matrix_inverse_scale_2D(x, e[0], e[1]); break;
          case 3: cml::matrix_scale(x, e[0], e[1], e[2]); break;
          case 4: cml::matrix_uniform_scale(x, e[0]); break;
          default: cml::matrix_inverse_scale(x, e[0], e[1], e[2]); break;
        }
      });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- coordinates
  def("v=cartesian coordinates", 4, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a); int form = int(s.n % 6), ax = int((s.v >> 8) % 4); bool bad = ax == 3 && form > 1; const Val D = u.mod[d];
    double r = 0.5 + std::fabs(num(s.v, 0)), t = num(s.v, 1) * 0.6, h = num(s.v, 2); bool lat = s.v & 1;
    if(ax == 3) { if(form < 2) ax = 0; else if(s.v & 2) ax = -1; }
    Act a; a.dst = d; a.owners = own(d); a.tol = RT * 10;
    int n = form < 2 ? 2 : 3;
    if(bad && D.r != n) return;
    if(bad) a.ex = ARG_ERR; else if(D.r != n) a.ex = SIZE_ERR;
    else {
      A3 w;
      if(form < 2) w = A3{{r * std::cos(t), r * std::sin(t), 0}};
      else {
        size_t i = size_t(ax), j = (i + 1) % 3, k = (i + 2) % 3;
        if(form < 4) { w[i] = h; w[j] = r * std::cos(t); w[k] = r * std::sin(t); }
        else {
          // latitude: the angle from the plane; colatitude: the angle from the axis
          double up = lat ? std::sin(h) : std::cos(h), out = lat ? std::cos(h) : std::sin(h);
          w[i] = r * up; w[j] = r * out * std::cos(t); w[k] = r * out * std::sin(t);
        }
      }
      a.have_want = true; a.want = u.mkv(d, n, [&](int q) { return w[size_t(q)]; });
      a.tol = RT * 10 * (1 + r);
    }
    a.f = [&u, d, form, ax, r, t, h, lat] {
      u.with_vec(d, [&](auto& x) {
        auto ty = lat ? cml::latitude : cml::colatitude;
        switch(form) {
          case 0: cml::polar_to_cartesian(x, E(r), E(t)); break;
          case 1: cml::polar_to_cartesian(E(r), E(t), x); break;
          case 2: cml::cylindrical_to_cartesian(x, ax, E(r), E(t), E(h)); break;
          case 3: cml::cylindrical_to_cartesian(E(r), E(t), E(h), ax, x); break;
          case 4: cml::spherical_to_cartesian(x, ax, ty, E(r), E(t), E(h)); break;
          default: cml::spherical_to_cartesian(E(r), E(t), E(h), ax, ty, x); break;
        }
      });
    };
    u.act(std::move(a));
  });
  def("coordinates of v", 4, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int b = vs(s.b); int form = int(s.n % 8), ax = int((s.v >> 8) % 4); const Val B = u.mod[b]; bool lat = s.v & 1; bool polar = form < 2, cyl = form >= 2 && form < 5; got = 0;
    bool bad = ax == 3 && !polar; if(bad && (s.v & 2)) ax = -1;
    int n = polar ? 2 : 3;
    Act a; a.owners = own(b); a.scalar = true; a.got_s = &got; a.tol_s = RT * 100;
    static A3 W; W = A3{};
    if(bad && B.r != n) return;
    if(bad) a.ex = ARG_ERR; else if(B.r != n) a.ex = SIZE_ERR;
    else {
      double x, y, z;
      if(polar) { x = B.get(0); y = B.get(1); z = 0; } else { z = B.get(ax); x = B.get((ax + 1) % 3); y = B.get((ax + 2) % 3); }
      double r = std::hypot(x, y);
      if(r != 0 && r < 0.01 * (1 + std::fabs(z))) return;
      if(r == 0 && !polar && !cyl && z != 0 && std::fabs(z) < 0.01) return;
      if(x < 0 && std::fabs(y) < 1e-3 * r) return;              // +pi or -pi
      double t = r == 0 ? 0 : std::atan2(y, x);
      if(polar) W = A3{{r, t, 0}}; else if(cyl) W = A3{{r, t, z}};
      else {
        double len = std::sqrt(r * r + z * z), phi = std::atan2(r, z);
        W = A3{{len, t, len == 0 ? 0 : lat ? 1.57079632679489661923 - phi : phi}};
      }
    }
    a.f = [&u, b, form, ax, lat, cyl] {
      u.with_vec(b, [&](auto& x) {
        auto ty = lat ? cml::latitude : cml::colatitude; E r = 9, t = 9, h = 9, tol = std::is_same<E, float>::value ? E(1e-4) : E(1e-9);
        switch(form) {
          case 0: cml::cartesian_to_polar(x, r, t); h = 0; break;
          case 1: cml::cartesian_to_polar(x, r, t, tol); h = 0; break;
          case 2: cml::cartesian_to_cylindrical(x, ax, r, t, h); break;
          case 3: cml::cartesian_to_cylindrical(x, ax, r, t, h, tol); break;
          case 4: cml::cartesian_to_cylindrical(x, r, t, h, ax, tol); break;
          case 5: cml::cartesian_to_spherical(x, ax, ty, r, t, h); break;
          case 6: cml::cartesian_to_spherical(x, ax, ty, r, t, h, tol); break;
          default: cml::cartesian_to_spherical(x, r, t, h, ax, ty, tol); break;
        }
        Err err; err(to_d(r), W[0]); err(to_d(t), W[1]); err(to_d(h), W[2]);
        got = err.e;
      });
    };
    u.act(std::move(a));
  });
  }
}

template void Univ<UNIV>::define_ml();
}  // namespace dyn
