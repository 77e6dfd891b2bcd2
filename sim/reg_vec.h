// World "reg": vectors and scalars.
#pragma once
#include "reg_pool.h"
#include <cml/util.h>
#include <cml/util/vector_hash.h>
#include <cml/vector/hadamard_product.h>
#include <sstream>

namespace reg {
template<class U> void reg_vec(Registry<U>& r)
{
  using T = typename U::T; using C = Ctx<U>;
  using V2 = typename U::template V<2>; using V3 = typename U::template V<3>; using V4 = typename U::template V<4>;
  using DV = typename U::DV;
  // ---- reading
  v1<3, 0, 1, 2, 3, 4, 5>(r, "vector copy", 0, [](C&, auto& a) { auto t = +a; cml::temporary_of_t<std::decay_t<decltype(a)>> x(t); o(x); });
  v1<2, 0, 3>(r, "vector copy", 0, [](C&, auto& a) { cml::temporary_of_t<std::decay_t<decltype(a)>> x(a); o(x); });
  v1<5, 0, 3>(r, "vector copy", 0, [](C&, auto& a) { cml::temporary_of_t<std::decay_t<decltype(a)>> x(a); o(x); });
  v1<3, 0, 1, 2, 3, 5>(r, "length", 0, [](C&, auto& a) { o(a.length(), a.length_squared(), cml::length(a), cml::length_squared(a)); });
  v1<2, 0>(r, "length", 0, [](C&, auto& a) { o(a.length(), cml::length_squared(a)); });
  v1<4, 0>(r, "length", 0, [](C&, auto& a) { o(a.length(), cml::length_squared(a)); });
  v1<3, 0, 1, 3, 5>(r, "normalize(v)", 0, [](C&, auto& a) { o(cml::normalize(a)); });
  v1<4, 0, 2>(r, "normalize(v)", 0, [](C&, auto& a) { o(a.normalize()); });
  v1<3, 0, 2, 3>(r, "subvector", 0, [](C& c, auto& a) { o(cml::subvector(a, c.n(3))); o(a.subvector(c.m(3))); });
  v1<4, 0, 4>(r, "subvector", 0, [](C& c, auto& a) { o(cml::subvector(a, c.n(4))); });
  v1<3, 0, 1, 3>(r, "negate", 0, [](C&, auto& a) { o(-a); });
  v1<3, 0, 2, 3, 4>(r, "v*s", 0, [](C& c, auto& a) { o(a * c.sc(0)); o(c.sc(1) * a); });
  v1<4, 0, 3>(r, "v*s", 0, [](C& c, auto& a) { o(a * c.sc(0)); o(c.sc(1) * a); });
  v1<3, 0, 1, 3>(r, "v/s", 0, [](C& c, auto& a) { o(a / c.sc(0)); });
  v1<3, 0, 1, 3, 5>(r, "iterate", 0, [](C&, auto& a) { T s = 0; for(auto& e : a) s = s * T(0.5) + e; o(s); o(a.data()[0]); o(a.get(1)); });
  r.add("get<I>", 0, [](C& c) { auto& a = c.template vec<0, 3>(0); auto [x, y, z] = a; o(x, y, z); o(a.template get<1>()); });
  r.add("hash", 0, [](C& c) { o(size_t(std::hash<V3>()(c.template vec<0, 3>(0)))); o(size_t(std::hash<V4>()(c.template vec<0, 4>(1)))); });
  r.add("hash.dyn", F_DYN, [](C& c) { o(size_t(std::hash<DV>()(c.template vec<3, 3>(0)))); });
  r.add("print vector", F_DYN, [](C& c) { std::ostringstream s; s << c.template vec<0, 3>(0); s << c.template vec<1, 4>(1); auto t = s.str(); sim::out_str(t.data(), t.size()); });
  r.add("print vector.dyn", F_DYN, [](C& c) { std::ostringstream s; s << c.template vec<3, 5>(0); s << (c.template vec<3, 3>(1) * T(2)); auto t = s.str(); sim::out_str(t.data(), t.size()); });
  // ---- binary
  v2s<3>(r, "v+v", 0, [](C&, auto& a, auto& b) { o(a + b); });
  v2<2, 0, 0>(r, "v+v", 0, [](C&, auto& a, auto& b) { o(a + b); });
  v2<4, 0, 1>(r, "v+v", 0, [](C&, auto& a, auto& b) { o(a + b); });
  v2<5, 0, 3>(r, "v+v", 0, [](C&, auto& a, auto& b) { o(a + b); });
  v2s<3>(r, "v-v", 0, [](C&, auto& a, auto& b) { o(a - b); });
  v2<4, 0, 0>(r, "v-v", 0, [](C&, auto& a, auto& b) { o(a - b); });
  v2s<3>(r, "compound expression", 0, [](C& c, auto& a, auto& b) { o((a + b) * c.sc(0) - a / c.sc(1)); });
  v2<4, 2, 0>(r, "compound expression", 0, [](C& c, auto& a, auto& b) { o((a - b) * c.sc(0) + b); });
  v2s<3>(r, "dot", 0, [](C&, auto& a, auto& b) { o(cml::dot(a, b)); });
  v2<2, 0, 0>(r, "dot", 0, [](C&, auto& a, auto& b) { o(cml::dot(a, b)); });
  v2<4, 0, 0>(r, "dot", 0, [](C&, auto& a, auto& b) { o(cml::dot(a, b)); });
  v2<5, 3, 5>(r, "dot", 0, [](C&, auto& a, auto& b) { o(cml::dot(a, b)); });
  v2s<3>(r, "cross", 0, [](C&, auto& a, auto& b) { o(cml::cross(a, b)); });
  v2s<3>(r, "hadamard", 0, [](C&, auto& a, auto& b) { o(cml::hadamard(a, b)); });
  v2s<3>(r, "outer", 0, [](C&, auto& a, auto& b) { o(cml::outer(a, b)); });
  v2<4, 0, 0>(r, "outer", 0, [](C&, auto& a, auto& b) { o(cml::outer(a, b)); });
  v2<2, 0, 0>(r, "perp_dot", 0, [](C&, auto& a, auto& b) { o(cml::perp_dot(a, b)); });
  v2<2, 1, 3>(r, "perp_dot", 0, [](C&, auto& a, auto& b) { o(cml::perp_dot(a, b)); });
  v2s<3>(r, "triple_product", 0, [](C& c, auto& a, auto& b) { o(cml::triple_product(a, b, c.template vec<0, 3>(2))); });
  v2<3, 3, 3>(r, "triple_product all", 0, [](C& c, auto& a, auto& b) { o(cml::triple_product(a, b, c.template vec<3, 3>(2))); });
  v2s<3>(r, "v==v", 0, [](C&, auto& a, auto& b) { o(a == b, a != b); });
  v2s<3>(r, "v<v", 0, [](C&, auto& a, auto& b) { o(a < b, a <= b, a > b, a >= b); });
  v2<2, 0, 0>(r, "v<v", 0, [](C&, auto& a, auto& b) { o(a < b, a <= b, a == b); });
  v2<4, 0, 0>(r, "v<v", 0, [](C&, auto& a, auto& b) { o(a < b, a >= b, a != b); });
  v2<5, 3, 3>(r, "v<v", 0, [](C&, auto& a, auto& b) { o(a < b, a >= b, a != b); });
  // size mismatches: documented exception
  r.add("mismatch +", F_DYN | F_THROWS, [](C& c) { o(c.template vec<3, 3>(0) + c.template vec<3, 4>(1)); });
  r.add("mismatch dot", F_DYN | F_THROWS, [](C& c) { o(cml::dot(c.template vec<3, 3>(0), c.template vec<4, 2>(1))); });
  r.add("mismatch cross", F_DYN | F_THROWS, [](C& c) { o(cml::cross(c.template vec<3, 4>(0), c.template vec<3, 4>(1))); });
  r.add("mismatch ==", F_DYN | F_THROWS, [](C& c) { o(c.template vec<3, 3>(0) == c.template vec<5, 4>(1)); });
  // ---- writing
  v1m<3, 0, 1, 3, 4>(r, "normalize()", 0, [](C&, auto& d) { d.normalize(); o(d); });
  v1m<3, 0, 1, 3, 4>(r, "zero()", 0, [](C&, auto& d) { d.zero(); o(d); });
  v1m<3, 0, 1, 3, 4>(r, "cardinal()", 0, [](C& c, auto& d) { d.cardinal(c.n(3)); o(d); });
  v1m<3, 0, 1, 3, 4>(r, "fill()", 0, [](C& c, auto& d) { d.fill(c.sc(0)); o(d); });
  v1m<3, 0, 1, 3>(r, "set()", 0, [](C& c, auto& d) { d.set(c.sc(0), c.sc(1), c.sc(2)); o(d); });
  v1m<3, 0, 1, 3, 4>(r, "v*=s", 0, [](C& c, auto& d) { d *= c.sc(0); o(d); });
  v1m<3, 0, 1, 3, 4>(r, "v/=s", 0, [](C& c, auto& d) { d /= c.sc(0); o(d); });
  v1m<4, 0, 1>(r, "v*=own element", 0, [](C&, auto& d) { d *= d[1]; o(d); });
  v1m<3, 0, 1, 3>(r, "put", 0, [](C& c, auto& d) { d.put(c.n(3), c.sc(0)); d[c.m(3)] = c.sc(1); o(d); });
  v1m<3, 0, 1, 3>(r, "v={..}", 0, [](C& c, auto& d) { d = {c.sc(0), c.sc(1), c.sc(2)}; o(d); });
  v1m<3, 0, 1, 3>(r, "v=array", 0, [](C& c, auto& d) { T a[3] = {c.sc(2), c.sc(1), c.sc(0)}; d = a; o(d); });
  v2m<3, 0, 0>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 1, 2>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 3, 3>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<4, 4, 0>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 0, 0>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 1, 0>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 3, 4>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 1, 1>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 4, 4>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 1, 2>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 4, 5>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 1, 3>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 3, 1>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 3, 4>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 4, 3>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 0, 1>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 0, 4>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 1, 4>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 1, 1>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 1, 1>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 4, 4>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 4, 4>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 0, 3>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 0, 3>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 3, 0>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 3, 0>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 4, 1>(r, "v+=v", 0, [](C&, auto& d, auto& b) { d += b; o(d); });
  v2m<3, 4, 1>(r, "v-=v", 0, [](C&, auto& d, auto& b) { d -= b; o(d); });
  v2m<3, 0, 0>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 1, 0>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 3, 3>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 4, 0>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 0, 3>(r, "v=v", 0, [](C&, auto& d, auto& b) { d = b; o(d); });
  v2m<3, 0, 0>(r, "v=expression", 0, [](C& c, auto& d, auto& b) { d = b * c.sc(0) + b; o(d); });
  v2m<3, 1, 1>(r, "v=expression", 0, [](C& c, auto& d, auto& b) { d = b * c.sc(0) + b; o(d); });
  v2m<3, 3, 3>(r, "v=expression", 0, [](C& c, auto& d, auto& b) { d = b * c.sc(0) + b; o(d); });
  v2m<3, 0, 0>(r, "minimize", 0, [](C&, auto& d, auto& b) { d.minimize(b); o(d); d.maximize(b); o(d); });
  v2m<3, 1, 3>(r, "minimize", 0, [](C&, auto& d, auto& b) { d.minimize(b); o(d); });
  v2m<3, 3, 3>(r, "maximize", 0, [](C&, auto& d, auto& b) { d.maximize(b); o(d); });
  r.add("mismatch +=", F_DYN | F_THROWS | F_MUT, [](C& c) { auto& d = c.template vecm<3, 3>(0); d += c.template vec<3, 4>(1); o(d); });
  r.add("mismatch view=", F_DYN | F_THROWS | F_MUT, [](C& c) { auto& d = c.template vecm<1, 3>(0); d = c.template vec<3, 4>(1); o(d); });
  r.add("resize vector", F_DYN | F_MUT, [](C& c) { auto& d = c.template vecm<3, 3>(0); d.resize(7); d.fill(T(1)); d.resize(3); d[2] = T(1); o(d); });
  r.add("negative resize", F_DYN | F_MUT | F_THROWS, [](C& c) { auto& d = c.template vecm<3, 3>(0); d.resize(-1); });
  // ---- constructors and conversions
  r.add("vector ctors", 0, [](C& c) {
    V3 a(c.sc(0), c.sc(1), c.sc(2)), b{c.sc(2), c.sc(1), c.sc(0)}, d(c.template vec<1, 3>(0)); T arr[3] = {c.sc(0), c.sc(0), c.sc(1)}; V3 e(arr);
    V3 f(c.template vec<0, 2>(1), c.sc(3)); V4 g(a, c.sc(1)); V2 h(c.sc(0), c.sc(1));
    o(a, b, d, e, f, g, h); });
  r.add("vector<other> conversion", 0, [](C& c) {
    cml::vector<double, cml::fixed<3>> a(c.template vec<0, 3>(0)); cml::vector<float, cml::fixed<3>> b(c.template vec<1, 3>(1));
    o(a, b); o(a + b); o(cml::dot(a, b)); o(cml::cross(b, a)); });
  r.add("dynamic ctors", F_DYN, [](C& c) {
    DV a(3); a.zero(); DV b(c.sc(0), c.sc(1)), d(c.template vec<0, 4>(0)), e{c.sc(0), c.sc(1), c.sc(2)}; DV f(c.template vec<3, 5>(1)); DV g(std::move(f));
    T arr[4] = {c.sc(0), c.sc(1), c.sc(2), c.sc(3)}; DV h(arr); T* ap = arr; DV i(ap, 3);
    o(a, b, d, e, g, h, i); });
  // ---- generators
  r.add("generators", 0, [](C& c) { o(cml::zero<3>()); o(cml::axis<3>(c.n(3))); o(cml::axis_3D(c.n(3))); o(cml::zero_4D()); o(cml::x_axis_3D(), cml::y_axis_2D(), cml::z_axis_3D()); });
  // ---- scalars
  r.add("sign clamp wrap", 0, [](C& c) { T a = c.sc(0), b = c.sc(1), d = c.sc(2); o(cml::sign(a), cml::clamp(a, b, d), cml::in_range(a, b, d), cml::map_range(a, b, d, T(0), T(1))); o(cml::wrap(a, b, d)); });
  r.add("safe functions", 0, [](C& c) { T a = c.sc(0); o(cml::acos_safe(a), cml::asin_safe(a), cml::sqrt_safe(a), cml::sqr(a), cml::cub(a), cml::inv_sqrt(a), cml::deg(a), cml::rad(a)); });
  r.add("scalar length", 0, [](C& c) { T a = c.sc(0), b = c.sc(1), d = c.sc(2); o(cml::length(a, b), cml::length(a, b, d), cml::length_squared(a, b), cml::length_squared(a, b, d)); });
  r.add("index_of", 0, [](C& c) {
    T a = c.sc(0), b = c.sc(1), d = c.sc(2), e = c.sc(3);
    o(cml::index_of_max(a, b), cml::index_of_max(a, b, d), cml::index_of_max(a, b, d, e), cml::index_of_min(a, b), cml::index_of_min(a, b, d), cml::index_of_min(a, b, d, e));
    o(cml::index_of_max_abs(a, b), cml::index_of_max_abs(a, b, d), cml::index_of_max_abs(a, b, d, e), cml::index_of_min_abs(a, b), cml::index_of_min_abs(a, b, d), cml::index_of_min_abs(a, b, d, e)); });
  r.add("cyclic_permutation", 0, [](C& c) {
    int i = 0, j = 0, k = 0, l = 0; cml::cyclic_permutation(c.n(3), i, j, k); o(i, j, k); cml::cyclic_permutation(c.n(4), i, j, k, l); o(i, j, k, l);
    cml::cyclic_permutation(c.n(2), i, j); o(i, j); o(cml::next(c.n(5), 5), cml::prev(c.n(5), 5)); });
  r.add("scalar_traits", 0, [](C& c) {
    using S = cml::scalar_traits<T>; T a = c.sc(0), b = c.sc(1);
    o(S::fabs(a), S::fmod(a, b), S::sqrt(S::fabs(a)), S::acos(a), S::sin(a), S::cos(a), S::atan2(a, b), S::epsilon());
    o(S::sqrt_epsilon(), cml::constants<T>::pi(), cml::constants<T>::two_pi(), cml::constants<T>::pi_over_2()); });
  // ---- random (draw from the random source)
  v1m<3, 0, 1, 3>(r, "random()", F_RANDOM, [](C& c, auto& d) { d.random(T(-1), T(1)); o(d); });
  r.add("random scalars", F_RANDOM, [](C&) { o(cml::random_integer(0, 9), cml::random_binary(), cml::random_polar(), cml::random_real(T(0), T(1)), cml::random_unit()); });
}
}  // namespace reg
