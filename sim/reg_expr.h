// World "reg": expressions stored once in the pool (shared between the threads) and evaluated by the calls.
#pragma once
#include "reg_pool.h"
#include <cml/vector/hadamard_product.h>

namespace reg {
template<class U> void reg_expr(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>; using P = Pool<U>;
  using V3 = typename U::template V<3>; using M33 = typename U::template M<3, 3>; using Q = typename U::Q; using DV = typename U::DV; using DM = typename U::DM;
  auto ex = [&r](const char* name, int fl, auto build) {
    int i = int(r.exprs.size());
    r.exprs.push_back([build](P& p) { return std::function<void(C&)>(build(p)); });
    r.add(std::string("stored ") + name, fl, [i](C& c) { c.p.exprs[size_t(i)](c); });
  };
#define VEX(NAME, FL, ...) ex(NAME, FL, [](P& p) { auto& a = p.template vs<3>().v[0]; auto& b = p.template vs<3>().v[5]; auto& x = p.template vs<3>().x[1]; auto& k = p.template vs<3>().k[2]; \
    auto& d = p.template vs<5>().d[0]; auto& e5 = p.template vs<5>().d[5]; T s = p.s[4]; (void) a; (void) b; (void) x; (void) k; (void) d; (void) e5; (void) s; \
    auto e = __VA_ARGS__; return [e](C& c) { o(e); cml::temporary_of_t<decltype(e)> t(e); o(t); o(e.length_squared()); o(e[c.n(3)]); }; });
  VEX("v+v", 0, a + b) VEX("v-view", 0, a - x) VEX("v*s", 0, a * s) VEX("s*constview", 0, s * k) VEX("v/s", 0, b / s) VEX("(v+v)*s-view", 0, (a + b) * s - x)
  VEX("cross", 0, cml::cross(a, b)) VEX("temp+v", 0, V3(a) + b) VEX("v+temp", 0, a + V3(b * s)) VEX("cross(temp,temp)", 0, cml::cross(V3(a + b), V3(x)))
  VEX("hadamard", 0, cml::hadamard(a, k)) VEX("negate", 0, -(a + b)) VEX("normalized temp*s", 0, cml::normalize(a) * s)
  VEX("dyn+dyn", F_DYN, d + e5) VEX("dyntemp+dyn", F_DYN, DV(d) + e5) VEX("dyntemp*s-dyntemp", F_DYN, DV(d) * s - DV(e5 * s)) VEX("subvector(temp)", 0, cml::subvector(typename U::template V<4>(a, s), 1))
  VEX("M*v", 0, p.template ms<3, 3>().m[2] * a) VEX("v*Mtemp", 0, a * M33(p.template ms<3, 3>().m[0] + p.template ms<3, 3>().m[5])) VEX("row", 0, cml::row(p.template ms<3, 3>().m[0], 1))
  VEX("row(temp)", 0, cml::row(M33(p.template ms<3, 3>().m[0] + p.template ms<3, 3>().x(5)), 2)) VEX("col", 0, cml::col(p.template ms<3, 3>().m[5], 0))
#undef VEX
#define MEX(NAME, FL, ...) ex(NAME, FL, [](P& p) { auto& a = p.template ms<3, 3>().m[0]; auto& b = p.template ms<3, 3>().m[5]; auto& x = p.template ms<3, 3>().x(1); auto& d = p.template ms<5, 5>().d[0]; auto& e5 = p.template ms<5, 5>().d[5]; \
    auto& v = p.template vs<3>().v[0]; auto& w = p.template vs<3>().x[5]; T s = p.s[4]; (void) a; (void) b; (void) x; (void) d; (void) e5; (void) v; (void) w; (void) s; \
    auto e = __VA_ARGS__; return [e](C& c) { o(e); std::conditional_t<(FL & F_DYN) != 0, DM, M33> t(e); o(t); o(e(c.n(3), c.m(3))); o(cml::trace(t)); }; });
  MEX("M+M", 0, a + b) MEX("M-view", 0, a - x) MEX("M*s", 0, a * s) MEX("(M+view)*s-M", 0, (a + x) * s - b) MEX("transpose", 0, cml::transpose(a)) MEX("transpose(temp)", 0, cml::transpose(M33(a + b)))
  MEX("temp+M", 0, M33(a) + b) MEX("M*M", 0, a * b) MEX("Mtemp*s+M*M", 0, M33(x) * s + a * b) MEX("outer", 0, cml::outer(v, w)) MEX("outer(temp,temp)", 0, cml::outer(V3(v + w), V3(v - w)))
  MEX("dynM+dynM", F_DYN, d + e5) MEX("dyntemp M+M", F_DYN, DM(d) + e5) MEX("transpose(dyntemp)", F_DYN, cml::transpose(DM(d * s))) MEX("M/s", 0, a / s) MEX("-M", 0, -(a + b))
#undef MEX
#define QEX(NAME, FL, ...) ex(NAME, FL, [](P& p) { auto& a = p.q[0]; auto& b = p.q[5]; auto& u = p.q[2]; T s = p.s[4]; (void) a; (void) b; (void) u; (void) s; \
    auto e = __VA_ARGS__; return [e](C& c) { o(e); Q t(e); o(t); o(e.length_squared()); o(e[c.n(4)]); }; });
  QEX("q+q", 0, a + b) QEX("q-q", 0, a - u) QEX("q*s", 0, a * s) QEX("conjugate", 0, cml::conjugate(a)) QEX("conjugate(temp)", 0, cml::conjugate(Q(a + b))) QEX("inverse", 0, cml::inverse(a)) QEX("temp+q", 0, Q(a) + b)
  QEX("(q+temp)*s-q", 0, (a + Q(b)) * s - u) QEX("-q", 0, -a) QEX("q*q", 0, a * b)
#undef QEX
}
}  // namespace reg
