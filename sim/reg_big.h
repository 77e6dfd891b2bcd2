// World "reg": operands larger than any the usual calls have, fixed and dynamic.
#pragma once
#include "reg_pool.h"
#include <cml/util.h>
#include <cml/mathlib/matrix/concat.h>
#include <cml/matrix/lu.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>

namespace reg {
template<class U> void reg_big(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using DV = typename U::DV; using DM = typename U::DM; using EV = typename U::EV; using EM = typename U::EM;
  struct S { C& c; int k; T operator()(int i, int j = 0) const { return c.p.s[(i * 7 + j * 3 + k + (i * j) / 3) & 15] + T((i + 2 * j + k) % 5) * T(0.25); } };
  static auto vf = [](auto& v, const S& s) { for(int i = 0; i < v.size(); ++i) v[i] = s(i); };
  static auto mf = [](auto& m, const S& s) { for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) m(i, j) = s(i, j) + (i == j ? T(4) : T(0)); };
#define SEEDS S s0{c, c.n(16)}, s1{c, c.m(16)}; (void) s0; (void) s1;
  // ---- fixed
#define FV(N_, NAME, ...) r.add("big " NAME ".fixed" #N_, 0, [](C& c) { SEEDS constexpr int N = N_; using V = typename U::template V<N>; V a, b; vf(a, s0); vf(b, s1); __VA_ARGS__; });
#define FVS(NAME, ...) FV(6, NAME, __VA_ARGS__) FV(8, NAME, __VA_ARGS__) FV(16, NAME, __VA_ARGS__) FV(33, NAME, __VA_ARGS__)
  FVS("v+w", o(a + b); o(a - b); o((a + b) * c.sc(0) - b); o(-a, a / c.sc(1)))
  FVS("dot", o(cml::dot(a, b), a.length_squared(), a.length()); V d(a); d.normalize(); o(d); o(cml::manhattan_distance(a, b)))
  FVS("v op= w", V d(a); d += b; d -= a * c.sc(0); d *= d[1]; d.minimize(b); o(d); d.maximize(a); o(d); d /= c.sc(2); d = b; d = d + a; o(d); V e(std::move(d)); d = std::move(e); o(d))
  FVS("compare", o(a == b, a != b, a < b, a >= b); V d(a); o(d == a))
  FVS("project", o(cml::project_to_vector(a, b)); o(cml::project_to_hplane(a, b)); o(cml::hadamard(a, b)); o(cml::subvector(a, c.n(N))))
  FVS("views", T x[N], y[N]; typename U::template XV<N> p(x), q(y); EV e(x, N); p = a; q = b; o(p + q); p += q * c.sc(0); o(e); e -= b; o(p); typename U::template CV<N> k(y); o(k - e))
  FV(6, "outer", o(cml::outer(a, b)))
  FV(16, "set", a.zero(); o(a); a.fill(c.sc(0)); a.cardinal(c.n(16)); o(a); a.put(c.n(16), c.sc(1)); o(a))
#undef FVS
#undef FV
#define FM(R_, C_, NAME, FLAGS, ...) r.add("big " NAME ".fixed" #R_ "x" #C_, FLAGS, [](C& c) { SEEDS constexpr int R = R_, K_ = C_; using M = typename U::template M<R, K_>; M a, b; mf(a, s0); mf(b, s1); typename U::template V<K_> v; vf(v, s0); typename U::template V<R> u; vf(u, s1); (void) b; __VA_ARGS__; });
#define FMS(NAME, ...) FM(6, 6, NAME, 0, __VA_ARGS__) FM(8, 8, NAME, 0, __VA_ARGS__) FM(4, 9, NAME, 0, __VA_ARGS__) FM(9, 2, NAME, 0, __VA_ARGS__)
  FMS("M+N", o(a + b); o((a - b) * c.sc(0)); o(-a); M d(a); d += b; d *= c.sc(1); d -= a; o(d); d = b; o(d); M e(std::move(d)); o(e); o(a == b))
  FMS("M*v", o(a * v); o(u * a); o((a + b) * v); o(u * (a - b)))
  FMS("M*N^T", o(a * cml::transpose(b)); o(cml::transpose(a) * b); o(cml::transpose(a)))
  FMS("M^T v", o(cml::transpose(a) * u); o(v * cml::transpose(a)); o(cml::row(cml::transpose(a), c.n(K_))); o(cml::col(cml::transpose(a), c.m(R))); o(cml::transpose(a) + cml::transpose(b)); o(cml::transpose(a - b) * c.sc(0)))
  FMS("XM^T", T x[R * K_]; typename U::template XM<R, K_> p(x); p = a; o(p * cml::transpose(b)); o(cml::transpose(p) * b); o(a * cml::transpose(p)); o(cml::transpose(p) * u))
  FMS("rows", o(cml::row(a, c.n(R))); o(cml::col(a, c.m(K_))); o(cml::basis(a, c.n(2))); M d(a); d.set_row(c.n(R), v); d.set_col(c.m(K_), u); o(d); d.identity(); o(d); d.zero(); o(d))
  FMS("views", T x[R * K_]; typename U::template XM<R, K_> p(x); EM e(x, R, K_); p = a; e += b; o(p); o(p * v); o(u * p))
  FM(6, 6, "in place", 0, a.transpose(); o(a); o(cml::trace(a)); o(a * b - b * a); o(cml::outer(v, u)))
  FM(8, 8, "in place", 0, a.transpose(); o(a); o(cml::trace(a)); o(a * b))
  FM(6, 6, "affine", 0, cml::matrix_invert_RT(a); o(a); o(cml::matrix_get_basis_vector_nD(b, c.n(6))); o(cml::matrix_concat(a, b)); T x[36]; typename U::template XM<6, 6> p(x); p = b; cml::matrix_invert_RT(p); o(p))
  FM(8, 8, "affine", 0, cml::matrix_invert_RT(a); o(a); o(cml::matrix_get_basis_vector_nD(b, c.n(8))); o(cml::hadamard(a, b)); T x[64]; EM e(x, 8, 8); e = b; cml::matrix_invert_RT(a); o(a))
  FM(6, 6, "general", F_HEAVY, o(cml::determinant(a)); o(cml::inverse(a)); a.inverse(); o(a))
  FM(8, 8, "lu", F_HEAVY, o(cml::lu(a)); auto p = cml::lu_pivot(a); o(p.lu, p.sign); o(cml::lu_solve(p, v)))
#undef FMS
#undef FM
  // ---- dynamic
  static auto nv = [](C& c) { static const int z[] = {6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 129}; return z[(c.st.v >> 44) & 15]; };
  static auto nm = [](C& c) { static const int z[] = {6, 7, 8, 9, 6, 7, 10, 12, 6, 8, 9, 11, 16, 13, 17, 5}; return z[(c.st.v >> 44) & 15]; };
#define DV_(NAME, ...) r.add("big " NAME ".dyn", F_DYN, [](C& c) { SEEDS int n = nv(c); DV a(n), b(n); vf(a, s0); vf(b, s1); __VA_ARGS__; });
  DV_("v+w", o(a + b); o((a + b) * c.sc(0) - b); DV d(a - b); o(d); o(-a))
  DV_("dot", o(cml::dot(a, b), a.length_squared(), a.length()); DV d(a); d.normalize(); o(d); o(cml::manhattan_distance(a, b)))
  DV_("v op= w", DV d(a); d += b; d -= a * c.sc(0); d *= d[1]; d.minimize(b); o(d); d = b + d; o(d); DV e(std::move(d)); d = std::move(e); d /= c.sc(1); o(d))
  DV_("resize", a.resize(n + 3); a[n] = a[n + 1] = a[n + 2] = c.sc(0); o(a); a.resize(n - 2); o(a); a = b; o(a); DV e; e = a + b; o(e); o(e == a, a == b))
  DV_("views", EV e(a.data(), n); e += b; o(a); o(cml::subvector(e, c.n(n))); o(cml::project_to_vector(a, b)); o(cml::hadamard(a, b)))
#undef DV_
#define DM_(NAME, FLAGS, ...) r.add("big " NAME ".dyn", F_DYN | (FLAGS), [](C& c) { SEEDS int n = nm(c); DM a(n, n), b(n, n); mf(a, s0); mf(b, s1); DV v(n); vf(v, s1); __VA_ARGS__; });
  DM_("M+N", 0, o(a + b); DM d(a - b * c.sc(0)); d += a; d *= c.sc(1); o(d); o(-a))
  DM_("M*N", 0, o(a * b); DM d(3, n); mf(d, s1); o(d * a); DM e(d * b); o(e); d = d * a; o(d))
  DM_("M*v", 0, o(a * v); o(v * a); DV w(a * v); w = b * w; o(w))
  DM_("transpose", 0, DM d(n - 2, n + 1); mf(d, s0); o(cml::transpose(d)); d.transpose(); o(d); a.transpose(); o(a); o(cml::trace(a)))
  DM_("rows", 0, o(cml::row(a, c.n(n))); DV w(cml::col(b, c.m(n))); o(w); a.set_row(c.n(n), v); a.set_col(c.m(n), w); o(a);)
  DM_("resize", 0, a.resize(n + 1, n - 1); mf(a, s1); o(a); a = b; o(a); DM e; e = a + b; o(e); o(e == a); e.resize(2, n); e.zero(); o(e))
  DM_("determinant", F_HEAVY, o(cml::determinant(a)))
  DM_("inverse", F_HEAVY, o(cml::inverse(a)); DM d(b); d.inverse(); o(d))
  DM_("lu", F_HEAVY, o(cml::lu(a)); auto p = cml::lu_pivot(a); o(p.lu, p.sign); o(cml::lu_solve(p, v)); DV x(n); cml::lu_solve(cml::lu(b), x, v); o(x))
  DM_("affine", 0, DM d(a); cml::matrix_invert_RT(d); o(d); o(cml::matrix_get_basis_vector_nD(b, c.n(n))); o(cml::hadamard(a, b)); EM e(b.data(), n, n); cml::matrix_invert_RT(e); o(b))
  DM_("outer concat", 0, DV w(7); vf(w, s0); o(cml::outer(w, v)); o(cml::matrix_concat(a, b)))
#undef DM_
#undef SEEDS
}
}  // namespace reg
