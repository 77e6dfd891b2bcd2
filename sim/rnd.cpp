// World "rnd": everything that draws random numbers, under scripted random sources.
#include "sim.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <random>
#include <typeinfo>
#include <cxxabi.h>
#include <cml/cml.h>
#include <cml/vector.h>
#include <cml/matrix.h>
#include <cml/mathlib/mathlib.h>

using namespace sim;
namespace rnd {

struct GenError {};
// a user generator: a scripted mixture over a true pseudo-random stream, of several widths and offsets
template<class R, R LO, R HI> struct Gen
{
  using result_type = R;
  Rng r; int kind; R held; uint32_t k = 0; uint64_t drawn = 0; bool faults = true;
  Gen(uint64_t seed, int kd) : r(seed), kind(kd), held(LO) { held = R(LO + R(r.next() % (uint64_t(HI - LO) + 1 ? uint64_t(HI - LO) + 1 : ~0ull))); }
  static constexpr R min() { return LO; }
  static constexpr R max() { return HI; }
  R operator()()
  {
    NoLib n;
    drawn++;
    if(faults && rand_fault_point()) throw GenError();
    uint64_t span = uint64_t(HI - LO);
    auto any = [&] { uint64_t x = r.next(); return R(LO + R(span == ~0ull ? x : x % (span + 1))); };
    switch(kind) {
      case 1: { uint32_t q = r.below(4); return q == 0 ? LO : q == 1 ? HI : any(); }
      case 2: { if(k++ % 5 == 0) held = any(); return r.below(3) ? any() : held; }
      case 3: return r.below(2) ? any() : R(LO + R(span / 2));     // many exact zeros of the normal distribution
      default: return any();
    }
  }
  bool same(const Gen& o) const { return r.s == o.r.s && held == o.held && k == o.k && drawn == o.drawn; }
};
using Gen32 = Gen<uint32_t, 0u, 0xffffffffu>;
using Gen64 = Gen<uint64_t, 0ull, ~0ull>;
using Gen16 = Gen<uint32_t, 1u, 65536u>;

static std::string demangle(const char* t)
{
  int st = 0;
  char* d = abi::__cxa_demangle(t, nullptr, nullptr, &st);
  std::string s = d ? d : t;
  free(d);
  return s;
}
struct Ctx
{
  const Step& s; Rng r; bool p10; const char* name;
  std::string exc;       // "" or the type of the exception of the last call
  Ctx(const Step& st, const char* n, bool p) : s(st), r(st.v * 2 + 1), p10(p), name(n) {}
  template<class F> bool call(F f)
  {
    exc.clear();
    try { Lib l; f(); return true; }
    catch(const GenError&) { exc = "GenError"; }
    catch(const std::exception& e) { exc = demangle(typeid(e).name()); }
    catch(...) { exc = "unknown"; }
    return false;
  }
  // the call did not return: was it allowed to?
  void failed(const char* expect = nullptr)
  {
    NoLib n;
    step_result(current_step()).executed = 2;
    snprintf(step_result(current_step()).exc, 60, "%s", exc.c_str());
    out_str(exc.c_str(), exc.size());
    if(expect) { if(exc != expect && !(exc == "std::bad_alloc" && fault_fired())) report("rejected:type", "%s was rejected with %s; documented: %s", name, exc.c_str(), expect); return; }
    if(!fault_fired()) { report("rejected:spurious", "%s failed with %s although nothing was wrong", name, exc.c_str()); return; }
    if(s.fault == F_RAND_THROW && exc != "GenError" && exc.find("runtime_error") == std::string::npos)
      report("rejected:other", "%s turned the exception of the random source into %s", name, exc.c_str());
    if((s.fault == F_ALLOC_ONE || s.fault == F_ALLOC_ALL) && exc != "std::bad_alloc")
      report("rejected:other", "%s failed with %s when memory ran out", name, exc.c_str());
  }
  void swallowed()
  {
    if(s.fault == F_RAND_THROW && fault_fired()) report("rejected:swallowed", "%s returned although the random source threw", name);
  }
};
template<class T> static void in_range(Ctx& c, T x, T lo, T hi, const char* what)
{
  out(double(x));
  if(!(x >= lo && x <= hi)) report("range:interval", "%s: %s %.17g is outside [%.17g, %.17g]", c.name, what, double(x), double(lo), double(hi));
}
template<class V> static long double len2(const V& v, int n) { long double s = 0; for(int i = 0; i < n; ++i) s += (long double) v[i] * v[i]; return s; }
template<class T, class V> static void unit_length(Ctx& c, const V& v, int n)
{
  for(int i = 0; i < n; ++i) out(T(v[i]));
  long double l = sqrtl(len2(v, n)), tol = 64 * (long double) std::numeric_limits<T>::epsilon();
  if(!(fabsl(l - 1) <= tol)) {
    char b[200] = ""; size_t k = 0;
    for(int i = 0; i < n && k < 150; ++i) k += snprintf(b + k, sizeof b - k, " %.9g", double(v[i]));
    report("range:length", "%s: length %.17Lg, not 1: [%s ]", c.name, l, b);
  }
}
template<class T, class V, class D> static void in_cone(Ctx& c, const V& v, const D& d, int n, T a)
{
  unit_length<T>(c, v, n);
  long double s = 0;
  for(int i = 0; i < n; ++i) { long double x = (long double) v[i] - (long double) d[i]; s += x * x; }
  long double ang = 2 * asinl(std::min(1.0L, sqrtl(s) / 2)), eps = std::numeric_limits<T>::epsilon();
  if(!(ang <= a * (1 + 256 * eps) + 64 * eps))
    report("range:cone", "%s: the vector makes an angle of %.9Lg with the axis; requested at most %.9g", c.name, ang, double(a));
}
// a vector of size n of each kind of storage; f(v)
template<class T, int N> struct Caller
{
  T* p;
  Caller() { p = (T*) caller_alloc(sizeof(T) * N, alignof(T)); for(int i = 0; i < N; ++i) p[i] = T(7); }
  ~Caller() { caller_free(p); }
};
template<class V> static bool valid(Ctx& c, V& v, int size)
{
  if(v.size() != size) { report("object:size", "%s failed and left a vector of size %d instead of %d", c.name, v.size(), size); return false; }
  c.call([&] { for(int i = 0; i < size; ++i) v[i] = typename V::value_type(i + 1); });
  bool ok = c.exc.empty();
  c.call([&] { for(int i = 0; i < size; ++i) if(v[i] != typename V::value_type(i + 1)) ok = false; });
  if(!ok) report("object:unusable", "%s failed and left a vector whose elements cannot be set", c.name);
  return ok;
}

struct Op { const char* name; std::function<void(Ctx&)> f; int flags; };
enum { O_RDEV = 1, O_GEN = 2 };
static std::vector<Op> ops;
static void add(const char* n, std::function<void(Ctx&)> f, int flags = 0) { ops.push_back({n, f, flags}); }

template<class T> static T some_int(Ctx& c)
{
  switch(c.r.below(6)) {
    case 0: return std::numeric_limits<T>::min();
    case 1: return std::numeric_limits<T>::max();
    case 2: return 0;
    case 3: return T(c.r.next());
    default: return T(int(c.r.below(21)) - 10);
  }
}
template<class T> static T some_real(Ctx& c)
{
  static const double sp[] = {0., 1., -1., 1e-30, -1e-30, 1e30, -1e30, 1e-300, 3., 0.1, 1e-7, 16777216., -16777217.};
  return c.r.below(2) ? T(sp[c.r.below(13)]) : T(c.r.unit() * 200 - 100);
}
template<class T> static void interval(Ctx& c, T& lo, T& hi)
{
  for(;;) {
    if constexpr(std::is_integral<T>::value) { lo = some_int<T>(c); hi = c.r.below(6) ? some_int<T>(c) : lo; }
    else { lo = some_real<T>(c); hi = c.r.below(6) ? some_real<T>(c) : c.r.below(2) ? lo : std::nextafter(lo, T(1e30)); }
    if(lo > hi) std::swap(lo, hi);
    return;
  }
}
template<class V, class T> static void fill_check(Ctx& c, V& v, int n)
{
  T lo, hi; interval<T>(c, lo, hi);
  bool ok = c.call([&] { v.random(lo, hi); });
  if(!ok) { c.failed(); valid(c, v, n); return; }
  c.swallowed();
  if(v.size() != n) report("object:size", "%s changed the vector's size", c.name);
  for(int i = 0; i < n; ++i) in_range<T>(c, v[i], lo, hi, "element");
}
template<class M, class T> static void fill_check_m(Ctx& c, M& m, int rows, int cols)
{
  T lo, hi; interval<T>(c, lo, hi);
  bool ok = c.call([&] { m.random(lo, hi); });
  if(!ok) {
    c.failed();
    if(m.rows() != rows || m.cols() != cols) report("object:size", "%s failed and left another matrix size", c.name);
    c.call([&] { m.fill(T(1)); });
    for(int i = 0; i < rows; ++i) for(int j = 0; j < cols; ++j) if(m(i, j) != T(1)) report("object:unusable", "%s failed and left an unusable matrix", c.name);
    return;
  }
  c.swallowed();
  if(m.rows() != rows || m.cols() != cols) report("object:size", "%s changed the matrix size", c.name);
  for(int i = 0; i < rows; ++i) for(int j = 0; j < cols; ++j) in_range<T>(c, m(i, j), lo, hi, "element");
}
template<class V> static void unit_check(Ctx& c, V& v, int n, int gk)
{
  using T = typename V::value_type;
  bool ok = false;
  auto with = [&](auto g) {
    auto g0 = g; g0.faults = false;
    uint64_t d0 = rand_draws() + rdev_draws() + srand_calls();
    ok = c.call([&] { cml::random_unit(v, g); });
    if(rand_draws() + rdev_draws() + srand_calls() != d0) report("source:other", "%s was given a generator and drew from another source", c.name);
    if(ok) {   // equal generator states give equal vectors and equal generator states
      cml::vector<T, cml::dynamic<>>* w = nullptr;
      c.call([&] { NoLib nl; w = new cml::vector<T, cml::dynamic<>>(n); Lib l; cml::random_unit(*w, g0); });
      if(!c.exc.empty()) { if(!fault_fired()) report("repro:generator", "%s fails (%s) for an equal generator", c.name, c.exc.c_str()); }
      else {
        for(int i = 0; i < n; ++i) { T x = v[i], y = (*w)[i]; if(memcmp(&x, &y, sizeof x)) { report("repro:generator", "%s: equal generator states give element %d = %.17g and %.17g", c.name, i, double(x), double(y)); break; } }
        g0.faults = true;
        if(!g.same(g0)) report("repro:state", "%s leaves equal generators in different states (%llu and %llu draws)", c.name, (unsigned long long) g.drawn, (unsigned long long) g0.drawn);
        if(g.drawn == 0) report("source:none", "%s did not draw from the generator it was given", c.name);
      }
      { NoLib nl; delete w; }
      c.exc.clear();
    }
  };
  uint64_t seed = c.r.next(); int kind = int(c.r.below(4));
  switch(gk) {
    case 0: ok = c.call([&] { cml::random_unit(v); }); break;
    case 1: with(Gen32(seed, kind)); break;
    case 2: with(Gen64(seed, kind)); break;
    case 3: with(Gen16(seed, kind)); break;
    case 4: {
      std::mt19937 g(static_cast<unsigned>(seed)), h = g;
      uint64_t d0 = rand_draws() + rdev_draws() + srand_calls();
      ok = c.call([&] { cml::random_unit(v, g); });
      if(ok && rand_draws() + rdev_draws() + srand_calls() != d0) report("source:other", "%s was given a generator and drew from another source", c.name);
      (void) h;
      break;
    }
  }
  if(n == 0) {
    if(ok) report("rejected:missing", "%s accepts an empty vector", c.name);
    else c.failed("cml::minimum_vector_size_error");
    return;
  }
  if(!ok) { c.failed(); valid(c, v, n); return; }
  c.swallowed();
  if(v.size() != n) report("object:size", "%s changed the vector's size", c.name);
  unit_length<T>(c, v, n);
}
template<class D> static void some_axis(Ctx& c, D& d, int n)
{
  using T = typename D::value_type;
  int k = int(c.r.below(4));
  long double x[16], s = 0;
  for(int i = 0; i < n; ++i) {
    x[i] = k == 0 ? 0 : k == 1 ? (c.r.below(2) ? 1 : -1) : c.r.unit() * 2 - 1;
    s += x[i] * x[i];
  }
  if(s < 0.01L) { int q = int(c.r.below(uint32_t(n))); for(int i = 0; i < n; ++i) x[i] = 0; x[q] = c.r.below(2) ? 1 : -1; s = 1; }
  s = sqrtl(s);
  for(int i = 0; i < n; ++i) d[i] = T(x[i] / s);
}
template<class T> static T some_cone(Ctx& c, bool& bad)
{
  bad = c.r.below(8) == 0;
  const T h = T(cml::constants<T>::pi_over_2());
  if(bad) {
    static const double sp[] = {0., -0., -0.5, -1e-30, 1.6, 10., INFINITY, -INFINITY, NAN};
    return T(sp[c.r.below(9)]);
  }
  switch(c.r.below(6)) {
    case 0: return h;
    case 1: return std::nextafter(h, T(0));
    case 2: return T(1e-3);
    case 3: return T(std::numeric_limits<T>::epsilon() * 8);
    default: return T(std::max(1e-6, c.r.unit() * double(h) * 0.999999));
  }
}
// n and d of equal size; dynamic n starts with size n0
template<class V, class D> static void cone_check(Ctx& c, V& v, D& d, int nd, bool resizable)
{
  using T = typename V::value_type;
  bool bad; T a = some_cone<T>(c, bad);
  int n0 = v.size();
  std::vector<T> before; for(int i = 0; i < n0; ++i) before.push_back(v[i]);
  std::vector<T> ax; for(int i = 0; i < nd; ++i) ax.push_back(d[i]);
  bool ok = c.call([&] { cml::random_unit(v, d, a); });
  for(int i = 0; i < nd; ++i) { T x = d[i]; if(memcmp(&x, &ax[size_t(i)], sizeof x)) report("object:operand", "%s changed the axis", c.name); }
  auto untouched = [&] {
    if(v.size() != n0) { report("rejected:touched", "%s was rejected and changed the size from %d to %d", c.name, n0, v.size()); return; }
    for(int i = 0; i < n0; ++i) { T x = v[i]; if(memcmp(&x, &before[size_t(i)], sizeof x)) { report("rejected:touched", "%s was rejected and changed the vector", c.name); return; } }
  };
  if(bad) {
    if(ok) report("rejected:missing", "%s accepts the cone angle %.9g", c.name, double(a));
    else { c.failed("std::invalid_argument"); untouched(); }
    return;
  }
  if(!resizable && nd != n0) {
    if(ok) report("rejected:missing", "%s accepts an axis of size %d for a vector of size %d", c.name, nd, n0);
    else { c.failed("cml::incompatible_vector_size_error"); untouched(); }
    return;
  }
  if(!ok) { c.failed(); valid(c, v, v.size()); return; }
  c.swallowed();
  if(v.size() != nd) { report("object:size", "%s gives a vector of size %d for an axis of size %d", c.name, v.size(), nd); return; }
  in_cone<T>(c, v, ax, nd, a);
}

template<class T> static void add_fills(const char* n_fixed, const char* n_ext, const char* n_dyn, const char* n_dext, const char* n_rv, const char* m_rc, const char* m_cm, const char* m_ext, const char* m_dyn, const char* m_dyncm, const char* m_rv)
{
  add(n_fixed, [](Ctx& c) {
    switch(c.r.below(3)) {
      case 0: { Boxed<cml::vector<T, cml::fixed<2>>> v(T(1), T(2)); fill_check<cml::vector<T, cml::fixed<2>>, T>(c, *v, 2); break; }
      case 1: { Boxed<cml::vector<T, cml::fixed<3>>> v(T(1), T(2), T(3)); fill_check<cml::vector<T, cml::fixed<3>>, T>(c, *v, 3); break; }
      default: { Boxed<cml::vector<T, cml::fixed<7>>> v(T(1), T(2), T(3), T(4), T(5), T(6), T(7)); fill_check<cml::vector<T, cml::fixed<7>>, T>(c, *v, 7); }
    }
  });
  add(n_ext, [](Ctx& c) { Caller<T, 5> b; cml::vector<T, cml::external<5>> v(*(T(*)[5]) b.p); fill_check<decltype(v), T>(c, v, 5); });
  add(n_dyn, [](Ctx& c) {
    int n = int(c.s.n % 9);
    cml::vector<T, cml::dynamic<>> v;
    { disarm(); Lib l; v.resize(n); } arm(c.s.fault, c.s.at);
    fill_check<decltype(v), T>(c, v, n);
  });
  add(n_dext, [](Ctx& c) { Caller<T, 6> b; int n = 1 + int(c.s.n % 6); fence(b.p, sizeof(T) * 6, false); fence(b.p, sizeof(T) * size_t(n), true); cml::vector<T, cml::external<>> v(b.p, n); fill_check<decltype(v), T>(c, v, n); fence(b.p, sizeof(T) * 6, true); });
  add(n_rv, [](Ctx& c) {
    T lo, hi; interval<T>(c, lo, hi);
    cml::vector<T, cml::dynamic<>> w;
    bool ok = c.call([&] { w = cml::vector<T, cml::dynamic<>>(4).random(lo, hi); });
    if(!ok) { c.failed(); return; }
    c.swallowed();
    for(int i = 0; i < 4; ++i) in_range<T>(c, w[i], lo, hi, "element");
  });
  add(m_rc, [](Ctx& c) { using M = cml::matrix<T, cml::fixed<3, 2>, cml::row_basis, cml::row_major>; Boxed<M> m; m->fill(T(1)); fill_check_m<M, T>(c, *m, 3, 2); }, O_RDEV);
  add(m_cm, [](Ctx& c) { using M = cml::matrix<T, cml::fixed<4, 4>, cml::col_basis, cml::col_major>; Boxed<M> m; m->fill(T(1)); fill_check_m<M, T>(c, *m, 4, 4); }, O_RDEV);
  add(m_ext, [](Ctx& c) { Caller<T, 6> b; cml::matrix<T, cml::external<2, 3>> m(b.p); fill_check_m<decltype(m), T>(c, m, 2, 3); }, O_RDEV);
  add(m_dyn, [](Ctx& c) {
    int r = int(c.s.n % 5), k = int(c.s.m % 5);
    cml::matrix<T, cml::dynamic<>, cml::col_basis, cml::row_major> m;
    { disarm(); Lib l; m.resize(r, k); } arm(c.s.fault, c.s.at);
    fill_check_m<decltype(m), T>(c, m, r, k);
  }, O_RDEV);
  add(m_dyncm, [](Ctx& c) {
    int r = int(c.s.n % 5), k = int(c.s.m % 5);
    cml::matrix<T, cml::dynamic<>, cml::row_basis, cml::col_major> m;
    { disarm(); Lib l; m.resize(r, k); } arm(c.s.fault, c.s.at);
    fill_check_m<decltype(m), T>(c, m, r, k);
  }, O_RDEV);
  add(m_rv, [](Ctx& c) {
    T lo, hi; interval<T>(c, lo, hi);
    cml::matrix<T, cml::fixed<2, 2>> w;
    bool ok = c.call([&] { w = cml::matrix<T, cml::fixed<2, 2>>().random(lo, hi); });
    if(!ok) { c.failed(); return; }
    c.swallowed();
    for(int i = 0; i < 4; ++i) in_range<T>(c, w(i / 2, i % 2), lo, hi, "element");
  }, O_RDEV);
}
template<class T, int N> static void fixed_unit(Ctx& c, int gk)
{
  using V = cml::vector<T, cml::fixed<N>>;
  Boxed<V> v; for(int i = 0; i < N; ++i) (*v)[i] = T(i);
  unit_check(c, *v, N, gk);
}
template<class T> static void add_units(const char* a, const char* b, const char* d, const char* e, const char* f, const char* g, const char* h, const char* k, const char* l, const char* m)
{
  add(a, [](Ctx& c) { switch(c.r.below(5)) { case 0: fixed_unit<T, 1>(c, 0); break; case 1: fixed_unit<T, 2>(c, 0); break; case 2: fixed_unit<T, 3>(c, 0); break; case 3: fixed_unit<T, 4>(c, 0); break; default: fixed_unit<T, 7>(c, 0); } });
  add(b, [](Ctx& c) { int gk = 1 + int(c.r.below(4)); switch(c.r.below(5)) { case 0: fixed_unit<T, 1>(c, gk); break; case 1: fixed_unit<T, 2>(c, gk); break; case 2: fixed_unit<T, 3>(c, gk); break; case 3: fixed_unit<T, 4>(c, gk); break; default: fixed_unit<T, 7>(c, gk); } }, O_GEN);
  add(d, [](Ctx& c) { Caller<T, 3> q; cml::vector<T, cml::external<3>> v(*(T(*)[3]) q.p); unit_check(c, v, 3, int(c.r.below(5))); }, O_GEN);
  add(e, [](Ctx& c) {
    int n = int(c.s.n % 8);
    cml::vector<T, cml::dynamic<>> v;
    { disarm(); Lib l; v.resize(n); v.fill(T(3)); } arm(c.s.fault, c.s.at);
    unit_check(c, v, n, int(c.r.below(5)));
    if(n == 0 && v.size() != 0) report("rejected:touched", "an empty vector was changed");
  }, O_GEN);
  add(f, [](Ctx& c) { Caller<T, 6> q; int n = 1 + int(c.s.n % 6); fence(q.p, sizeof(T) * 6, false); fence(q.p, sizeof(T) * size_t(n), true); cml::vector<T, cml::external<>> v(q.p, n); unit_check(c, v, n, int(c.r.below(5))); fence(q.p, sizeof(T) * 6, true); }, O_GEN);
  // cones
  add(g, [](Ctx& c) { using V = cml::vector<T, cml::fixed<2>>; Boxed<V> v(T(1), T(2)); V d; some_axis(c, d, 2); cone_check(c, *v, d, 2, false); });
  add(h, [](Ctx& c) {
    switch(c.r.below(4)) {
      case 0: { using V = cml::vector<T, cml::fixed<1>>; Boxed<V> v; (*v)[0] = T(1); V d; some_axis(c, d, 1); cone_check(c, *v, d, 1, false); break; }
      case 1: { using V = cml::vector<T, cml::fixed<4>>; Boxed<V> v(T(1), T(2), T(3), T(4)); V d; some_axis(c, d, 4); cone_check(c, *v, d, 4, false); break; }
      default: { using V = cml::vector<T, cml::fixed<3>>; Boxed<V> v(T(1), T(2), T(3)); V d; some_axis(c, d, 3); cone_check(c, *v, d, 3, false); }
    }
  });
  add(k, [](Ctx& c) {   // dynamic n of any earlier size, dynamic axis
    int n0 = int(c.s.n % 6), n = 1 + int(c.s.m % 6);
    cml::vector<T, cml::dynamic<>> v, d;
    { disarm(); Lib l; v.resize(n0); v.fill(T(3)); d.resize(n); } 
    some_axis(c, d, n);
    arm(c.s.fault, c.s.at);
    cone_check(c, v, d, n, true);
  });
  add(l, [](Ctx& c) {   // fixed n, dynamic axis (sizes may differ); dynamic n, fixed axis
    if(c.r.below(2)) {
      using V = cml::vector<T, cml::fixed<3>>; Boxed<V> v(T(1), T(2), T(3));
      int n = c.r.below(3) ? 3 : 1 + int(c.s.m % 6);
      cml::vector<T, cml::dynamic<>> d;
      { disarm(); Lib l; d.resize(n); }
      some_axis(c, d, n);
      arm(c.s.fault, c.s.at);
      cone_check(c, *v, d, n, false);
    } else {
      int n0 = int(c.s.n % 6);
      cml::vector<T, cml::dynamic<>> v;
      { disarm(); Lib l; v.resize(n0); v.fill(T(3)); } arm(c.s.fault, c.s.at);
      cml::vector<T, cml::fixed<3>> d; some_axis(c, d, 3);
      cone_check(c, v, d, 3, true);
    }
  });
  add(m, [](Ctx& c) { Caller<T, 2> q; cml::vector<T, cml::external<>> v(q.p, 2); cml::vector<T, cml::dynamic<>> d; { disarm(); Lib l; d.resize(2); } some_axis(c, d, 2); arm(c.s.fault, c.s.at); cone_check(c, v, d, 2, false); });
}
template<class T> static void add_int(const char* n)
{
  add(n, [](Ctx& c) {
    T lo, hi; interval<T>(c, lo, hi);
    T x = 0;
    if(!c.call([&] { x = cml::random_integer<T>(lo, hi); })) { c.failed(); return; }
    in_range<T>(c, x, lo, hi, "integer");
  });
}
template<class T> static void add_real(const char* n)
{
  add(n, [](Ctx& c) {
    T lo, hi; interval<T>(c, lo, hi);
    T x = 0;
    if(!c.call([&] { x = cml::random_real<T>(lo, hi); })) { c.failed(); return; }
    in_range<T>(c, x, lo, hi, "real");
  });
}
static void init()
{
  add_int<int>("random_integer<int>"); add_int<long>("random_integer<long>"); add_int<short>("random_integer<short>"); add_int<unsigned>("random_integer<unsigned>");
  add_real<double>("random_real<double>"); add_real<float>("random_real<float>");
  add("random_binary", [](Ctx& c) { int x = 9; if(!c.call([&] { x = cml::random_binary(); })) { c.failed(); return; } out(x); if(x != 0 && x != 1) report("range:binary", "random_binary() is %d", x); });
  add("random_polar", [](Ctx& c) { int x = 9; if(!c.call([&] { x = cml::random_polar(); })) { c.failed(); return; } out(x); if(x != -1 && x != 1) report("range:polar", "random_polar() is %d", x); });
  add("random_unit()", [](Ctx& c) { double x = 9; if(!c.call([&] { x = cml::random_unit(); })) { c.failed(); return; } in_range<double>(c, x, 0, 1, "value"); });
  add_fills<double>("vector<fixed>.random", "vector<external<N>>.random", "vector<dynamic>.random", "vector<external>.random", "vector&&.random", "matrix<fixed,row>.random", "matrix<fixed,col>.random", "matrix<external>.random", "matrix<dynamic,row>.random", "matrix<dynamic,col>.random", "matrix&&.random");
  add_fills<float>("vectorf<fixed>.random", "vectorf<external<N>>.random", "vectorf<dynamic>.random", "vectorf<external>.random", "vectorf&&.random", "matrixf<fixed,row>.random", "matrixf<fixed,col>.random", "matrixf<external>.random", "matrixf<dynamic,row>.random", "matrixf<dynamic,col>.random", "matrixf&&.random");
  add_fills<int>("vectori<fixed>.random", "vectori<external<N>>.random", "vectori<dynamic>.random", "vectori<external>.random", "vectori&&.random", "matrixi<fixed,row>.random", "matrixi<fixed,col>.random", "matrixi<external>.random", "matrixi<dynamic,row>.random", "matrixi<dynamic,col>.random", "matrixi&&.random");
  add_units<double>("random_unit(fixed)", "random_unit(fixed, generator)", "random_unit(external<N>)", "random_unit(dynamic)", "random_unit(external)", "random_unit(fixed2, cone)", "random_unit(fixedN, cone)", "random_unit(dynamic, cone)", "random_unit(mixed sizes, cone)", "random_unit(external2, cone)");
  add_units<float>("random_unit(fixedf)", "random_unit(fixedf, generator)", "random_unit(externalf<N>)", "random_unit(dynamicf)", "random_unit(externalf)", "random_unit(fixed2f, cone)", "random_unit(fixedNf, cone)", "random_unit(dynamicf, cone)", "random_unit(mixed sizesf, cone)", "random_unit(external2f, cone)");
}

struct RndWorld : World
{
  RndWorld() { if(ops.empty()) init(); }
  const char* name() const override { return "rnd"; }
  std::vector<std::string> properties() const override { return {"P10", "P11"}; }
  const char* opname(const Plan&, int op) override { return op >= 0 && op < int(ops.size()) ? ops[size_t(op)].name : "?"; }
  uint64_t catalogue() override { return ops.size(); }
  void generate(Plan& p, Rng& r) override
  {
    bool p10 = p.property == "P10";
    if(p10) { p.cfg["script"] = long(r.below(8)); p.cfg["value"] = long(r.below(3) == 0 ? engine_seed(r) : r.below(2) ? r.below(4) : uint32_t(r.next() & 0x7fffffff)); }
    p.cfg["seed"] = long(r.next() & 0xffffffff);
    int n = p10 ? 8 + int(r.below(60)) : 3 + int(r.below(20));
    if(r.chance(0.01)) n = 150 + int(r.below(300));
    std::vector<int> menu;
    for(int i = 0, k = 2 + int(r.below(12)); i < k; ++i) menu.push_back(int(r.below(uint32_t(ops.size()))));
    for(int i = 0; i < n; ++i) {
      Step s;
      s.op = menu[r.below(uint32_t(menu.size()))];
      s.n = r.below(64); s.m = r.below(64);
      s.v = r.next() >> 8;
      s.c = p10 ? 0 : r.below(3) == 0;         // P11: a step of the disturbance between the two sequences
      bool fl = p10 ? r.chance(0.3) : (s.c && r.chance(0.3));
      if(fl) {
        int f = ops[size_t(s.op)].flags;
        s.fault = (f & (O_RDEV | O_GEN)) && r.chance(0.7) ? F_RAND_THROW : r.chance(0.7) ? F_ALLOC_ONE : F_ALLOC_ALL;
        s.at = s.fault == F_RAND_THROW ? ((f & O_RDEV) ? 0 : r.below(12)) : r.below(2);
      }
      p.steps.push_back(s);
    }
  }
  void child(const Plan& p, int, const std::vector<int>* only) override
  {
    bool p10 = p.property == "P10";
    scribble_stack();
    RandScript rs;
    if(p10) { rs.kind = int(p.get("script")); rs.value = uint64_t(p.get("value")); }
    rand_script(rs, mix(p.seed, 3));
    if(!p10) rand_real(true);
    auto run = [&](size_t i) {
      const Step& s = p.steps[i];
      const Op& o = ops[size_t(s.op) % ops.size()];
      step_begin(int(i), s);
      Ctx c(s, o.name, p10);
      o.f(c);
      if(!step_result(int(i)).executed) step_result(int(i)).executed = 1;
      step_end();
    };
    if(p10) { for(size_t i = 0; i < p.steps.size(); ++i) run(i); mark_nontrivial(); }
    else {
      std::vector<uint64_t> h(p.steps.size());
      std::vector<size_t> seq, noise;
      for(size_t i = 0; i < p.steps.size(); ++i) {
        if(p.steps[i].c) { noise.push_back(i); continue; }
        if(ops[size_t(p.steps[i].op) % ops.size()].flags & O_RDEV) continue;   // draws from random_device
        seq.push_back(i);
      }
      uint64_t d[2], last[2];
      for(int pass = 0; pass < 2; ++pass) {
        std::srand(unsigned(p.get("seed")));
        uint64_t d0 = rand_draws(), s0 = srand_calls();
        for(size_t i : seq) {
          StepResult& r = step_result(int(i));
          r.hash = 0; r.nvals = 0;
          double v0[MAX_VALS];
          run(i);
          if(pass == 0) { h[i] = r.hash; (void) v0; }
          else if(r.hash != h[i])
            report("repro:differs", "%s gives other values after std::srand with the same seed (step %zu, e.g. %.17g)", opname(p, p.steps[i].op), i, r.nvals ? r.vals[0] : 0.);
        }
        d[pass] = rand_draws() - d0;
        last[pass] = uint64_t(std::rand());
        if(srand_calls() != s0) report("source:srand", "a library call called std::srand");
        if(pass == 0) for(size_t i : noise) run(i);
      }
      if(d[0] != d[1] || last[0] != last[1]) report("repro:draws", "the same calls drew %llu and %llu values after std::srand with the same seed", (unsigned long long) d[0], (unsigned long long) d[1]);
      if(!seq.empty()) mark_nontrivial();
    }
    if(live_blocks(-1)) {
      char b[600]; describe_live(b, sizeof b);
      report("leak:blocks", "%zu blocks are still allocated at the end:%s", live_blocks(-1), b);
    }
  }
};
}  // namespace rnd

namespace sim { World* make_world() { return new rnd::RndWorld; } }
