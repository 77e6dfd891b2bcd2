// World "expr": stored expressions over temporaries (P13).
#pragma once
#include "sim.h"
#include <functional>
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
#include <typeinfo>
#include <cxxabi.h>
#include "alloc.h"
#include <cml/cml.h>
#include <cml/vector.h>
#include <cml/matrix.h>
#include <cml/quaternion.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>

namespace expr {
using namespace sim;

struct Val { int r = 0, c = 0; std::vector<double> x; bool operator==(const Val& o) const { return r == o.r && c == o.c && x.size() == o.x.size() && (x.empty() || !memcmp(x.data(), o.x.data(), x.size() * sizeof(double))); } };

struct Slot
{
  virtual ~Slot() {}
  virtual Val eval(int form, uint64_t v) = 0;      // may throw
  virtual Slot* copy() = 0;
  virtual Slot* move() = 0;
  Val want, want2;
  std::string name;
};
struct Kind { std::string name; std::function<Slot*(uint64_t pool, uint64_t seed)> build; };
extern std::vector<Kind> kinds;
void init_d(); void init_f(); void init_t(); void init_u();

inline double val_of(double x) { return x; }
inline double val_of(float x) { return x; }
inline double val_of(const Tracked& x) { x.check("read"); return x.v; }

template<class T> auto value(const T& t, int) -> decltype(t.rows(), Val())
{
  Val v; v.r = t.rows(); v.c = t.cols();
  for(int i = 0; i < v.r; ++i) for(int j = 0; j < v.c; ++j) { auto&& e = t(i, j); double d = val_of(e); NoLib n; v.x.push_back(d); }
  return v;
}
template<class T> auto value(const T& t, long) -> decltype(t.size(), Val())
{
  Val v; v.r = t.size(); v.c = 1;
  for(int i = 0; i < v.r; ++i) { auto&& e = t[i]; double d = val_of(e); NoLib n; v.x.push_back(d); }
  return v;
}
template<class T, class = void> struct is_vec : std::false_type {};
template<class T> struct is_vec<T, std::void_t<decltype(std::declval<const T&>().size()), decltype(cml::dot(std::declval<const T&>(), std::declval<const T&>()))>> : std::true_type {};

// the type an expression is evaluated into (operands of two layouts have no default one)
template<class T> struct storable { using type = T; };
template<class E, class S, class BO> struct storable<cml::matrix<E, S, BO, cml::any_major>> { using type = cml::matrix<E, S, BO, cml::row_major>; };
template<class X> using tmp_t = typename storable<cml::temporary_of_t<X>>::type;

template<class X, class T_> struct SlotT : Slot
{
  X* x = nullptr;
  using T = T_;
  ~SlotT() override { if(x) { { Lib l; x->~X(); } caller_free(x); } }
  static void* room() { NoLib n; return caller_alloc(sizeof(X), alignof(X)); }
  Val eval(int form, uint64_t v) override
  {
    Lib l;
    const X& e = *x;
    switch(form) {
      case 0: { T t(e); return value(t, 0); }
      case 1: return value(e, 0);
      case 2: { T t(e + e); return value(t, 0); }                       // a part of a larger expression, by reference
      case 3: { X y(e); return value(y, 0); }                           // a copy on the stack
      case 4: { auto z = X(e) + X(e); scribble(); T t(z); return value(t, 0); }  // copies moved into a larger stored expression
      case 5: { T t; { NoLib n; v = v; } t = e; return value(t, 0); }
      case 6: { X y(e); X z(std::move(y)); return value(z, 0); }
      default: { T t(e); t = t + e; return value(t, 0); }
    }
  }
  static bool doubled(int form) { return form == 2 || form == 4 || form == 7; }
  static void scribble() { NoLib n; scribble_stack(); }
  Slot* dup(bool mv)
  {
    SlotT* s; { NoLib n; s = new SlotT; s->want = want; s->want2 = want2; s->name = name; }
    void* p = room();
    try { Lib l; s->x = mv ? new(p) X(std::move(*x)) : new(p) X(*x); }
    catch(...) { NoLib n; caller_free(p); delete s; throw; }
    return s;
  }
  Slot* copy() override { return dup(false); }
  Slot* move() override { return dup(true); }
};

// temporaries (prvalues) and long-lived operands (references) of one expression
template<class E, class A> struct Src
{
  static const bool TR = std::is_same<E, Tracked>::value;
  template<int N> using VF = cml::vector<E, cml::fixed<N>>;
  using VD = cml::vector<E, cml::dynamic<A>>;
  using RM = cml::row_major; using CM = cml::col_major;
  template<int R, int C, class L> using MF = cml::matrix<E, cml::fixed<R, C>, cml::col_basis, L>;
  template<class L> using MD = cml::matrix<E, cml::dynamic<A>, cml::col_basis, L>;
  using QI = cml::quaternion<E, cml::fixed<>, cml::imaginary_first, cml::positive_cross>;
  using QR = cml::quaternion<E, cml::fixed<>, cml::real_first, cml::negative_cross>;
  uint64_t base;
  int n, a, b;
  struct Live
  {
    VF<3> v3; VD d; MF<3, 3, RM> m33; MD<RM> dm; VD d3;
    std::conditional_t<TR, char, QI> qi[2]; std::conditional_t<TR, char, QR> qr[2];
  };
  Live* live;
  Src(Live* l, uint64_t seed) : base(mix(seed, 91)), live(l) { Rng r(base); n = 1 + int(r.below(6)); a = 1 + int(r.below(4)); b = 1 + int(r.below(4)); }
  // an operand depends on its number in the expression, not on the order of evaluation
  struct Draw { Rng r; E operator()() { return E(TR ? int(r.below(64)) / 4. - 8 : r.unit() * 4 - 2); } };
  Draw draw(int id) { return Draw{Rng(mix(base, uint64_t(id)))}; }
  template<int N> VF<N> v(int id) { auto g = draw(id); VF<N> x; for(int i = 0; i < N; ++i) x[i] = g(); return x; }
  VD dk(int k, int id) { auto g = draw(id); VD x(k); for(int i = 0; i < k; ++i) x[i] = g(); return x; }
  VD d(int id) { return dk(n, id); }
  template<int R, int C, class L = RM> MF<R, C, L> m(int id) { auto g = draw(id); MF<R, C, L> x; for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) x(i, j) = g(); return x; }
  template<class L = RM> MD<L> dmk(int p, int q, int id) { auto g = draw(id); MD<L> x(p, q); for(int i = 0; i < p; ++i) for(int j = 0; j < q; ++j) x(i, j) = g(); return x; }
  template<class L = RM> MD<L> dm(int id) { return dmk<L>(a, b, id); }
  const VF<3>& lv() { return live->v3; }
  const VD& ld(int) { return live->d; }
  const MF<3, 3, RM>& lm() { return live->m33; }
  const MD<RM>& ldm() { return live->dm; }      // 3 x 2
  const VD& ld3() { return live->d3; }          // 3 elements
  int index(int k, int id) { return int(Rng(mix(base, uint64_t(100 + id))).below(uint32_t(k))); }
  template<class Q> Q q(int id) { auto g = draw(id); Q x; for(int i = 0; i < 4; ++i) x[i] = g(); x[0] = x[0] + E(4); return x; }
  template<class Q> const Q& lq(int k) { if constexpr(std::is_same<Q, QI>::value) return live->qi[k]; else return live->qr[k]; }
  static Live* make(uint64_t seed)
  {
    Live* l = (Live*) caller_alloc(sizeof(Live), alignof(Live));
    { Lib g; new(l) Live(); }
    Src s(l, seed);
    Lib g;
    l->v3 = s.template v<3>(1); l->d = s.dk(4, 2); l->m33 = s.template m<3, 3>(3); l->dm = s.dmk(3, 2, 4); l->d3 = s.dk(3, 5);
    if constexpr(!TR) for(int i = 0; i < 2; ++i) { l->qi[i] = s.template q<QI>(6 + i); l->qr[i] = s.template q<QR>(8 + i); }
    return l;
  }
};

void arm_now();
// Builds the node in arena memory by elision: the temporaries die when build() returns.
template<class S, class R, class B, class V> void add(const char* name, B build, V eager)
{
  kinds.push_back({name, [name, build, eager](uint64_t pool, uint64_t seed) -> Slot* {
    auto* live = reinterpret_cast<typename S::Live*>(pool);
    using X = decltype(build(std::declval<S&>()));
    using ST = SlotT<X, R>;
    ST* s; { NoLib n; s = new ST; s->name = name; }
    {   // evaluated at once, without faults
      NoLib n;
      S src(live, seed), src2(live, seed);
      Lib l;
      s->want = value(eager(src), 0);
      R t = eager(src2); R t2(t + t); s->want2 = value(t2, 0);
    }
    void* p = ST::room();
    S src(live, seed);
    arm_now();
    try { Lib l; s->x = new(p) X(build(src)); }
    catch(...) { NoLib n; caller_free(p); delete s; throw; }
    return s;
  }});
}
struct Universe { std::function<void*(uint64_t)> make; std::function<void(void*)> drop; int first, last; };
extern std::vector<Universe> universes;

template<class E, class A> void init_univ(const char* pre)
{
  using S = Src<E, A>;
  static std::vector<std::string>* keep = new std::vector<std::string>;
  keep->reserve(400);
  auto nm = [&](const char* s) { keep->push_back(std::string(pre) + " " + s); return keep->back().c_str(); };
  Universe u; u.first = int(kinds.size());
  u.make = [](uint64_t s) -> void* { return S::make(s); };
  u.drop = [](void* p) { auto* l = (typename S::Live*) p; using L = typename S::Live; { Lib g; l->~L(); } caller_free(l); };
#define EX(NAME, ...) { auto build = [](S& s) { return __VA_ARGS__; }; using R = tmp_t<decltype(build(std::declval<S&>()))>; add<S, R>(nm(NAME), build, [](S& s) { return R(__VA_ARGS__); }); }
#define EXT(TYPE, NAME, ...) add<S, TYPE>(nm(NAME), [](S& s) { return __VA_ARGS__; }, [](S& s) { return TYPE(__VA_ARGS__); });   // evaluated into TYPE
  EX("v3()+v3()", s.template v<3>(1) + s.template v<3>(2))
  EX("v3()-lv", s.template v<3>(1) - s.lv())
  EX("lv+v3()", s.lv() + s.template v<3>(1))
  EX("v4()*s", s.template v<4>(1) * 2)
  EX("s*v4()", 3 * s.template v<4>(1))
  EX("v4()/s", s.template v<4>(1) / 4)
  EX("-v3()", -s.template v<3>(1))
  EX("-(v3()+v3())", -(s.template v<3>(1) + s.template v<3>(2)))
  EX("(v3()+lv)*s-v3()", (s.template v<3>(1) + s.lv()) * 2 - s.template v<3>(2))
  EX("d()+d()", s.d(1) + s.d(2))
  EX("d()-ld", s.dk(4, 1) - s.ld(0))
  EX("ld+d()", s.ld(0) + s.dk(4, 1))
  EX("d()*s", s.d(1) * 2)
  EX("s*d()", 3 * s.d(1))
  EX("d()/s", s.d(1) / 4)
  EX("-d()", -s.d(1))
  EX("(d()+d())*s-d()", (s.d(1) + s.d(2)) * 2 - s.d(3))
  EX("((d()*s-d())+(d()+d()))/s", ((s.d(1) * 2 - s.d(2)) + (s.d(3) + s.d(4))) / 2)
  EX("hadamard(d(),d())", cml::hadamard(s.d(1), s.d(2)))
  EX("hadamard(v3(),lv)", cml::hadamard(s.template v<3>(1), s.lv()))
  EX("cross(v3(),v3())", cml::cross(s.template v<3>(1), s.template v<3>(2)))
  EX("cross(lv,v3()+v3())", cml::cross(s.lv(), s.template v<3>(1) + s.template v<3>(2)))
  EX("cross(d(),d())", cml::cross(s.dk(3, 1), s.dk(3, 2)))
  EX("cross(d()+d(),-d())", cml::cross(s.dk(3, 1) + s.dk(3, 2), -s.dk(3, 3)))
  EX("cross(v3(),d())", cml::cross(s.template v<3>(1), s.dk(3, 2)))
  EX("subvector(d(),i)", cml::subvector(s.dk(5, 1), s.index(5, 2)))
  EX("d().subvector(i)", s.dk(5, 1).subvector(s.index(5, 2)))
  EX("v4().subvector(i)", s.template v<4>(1).subvector(s.index(4, 2)))
  EX("subvector(v4()+v4(),i)", cml::subvector(s.template v<4>(1) + s.template v<4>(2), s.index(4, 3)))
  EX("(d()+d()).subvector(i)", (s.dk(4, 1) + s.dk(4, 2)).subvector(s.index(4, 3)))
  EX("subvector(d()*s,i)+d()", cml::subvector(s.dk(4, 1) * 2, s.index(4, 2)) + s.dk(3, 3))
  EX("row(m33(),i)", cml::row(s.template m<3, 3>(1), s.index(3, 2)))
  EX("col(m23(),j)", cml::col(s.template m<2, 3>(1), s.index(3, 2)))
  EX("row(dm(),i)", cml::row(s.dmk(3, 2, 1), s.index(3, 2)))
  EX("col(dm(),j)", cml::col(s.template dmk<typename S::CM>(3, 2, 1), s.index(2, 2)))
  EX("row(dm()+dm(),i)*s", cml::row(s.dmk(3, 2, 1) + s.dmk(3, 2, 2), s.index(3, 3)) * 2)
  EX("row(transpose(dm()),i)", cml::row(cml::transpose(s.dmk(3, 2, 1)), s.index(2, 2)))
  EX("col(dm()*s,j)-d()", cml::col(s.dmk(3, 2, 1) * 2, s.index(2, 2)) - s.dk(3, 3))
  EX("basis(m33(),i)", cml::basis(s.template m<3, 3>(1), s.index(3, 2)))
  EX("basis(dm(),i)", cml::basis(s.dmk(4, 4, 1), s.index(4, 2)))
  EX("m33()+m33()", s.template m<3, 3>(1) + s.template m<3, 3>(2))
  EX("m33()-lm", s.template m<3, 3>(1) - s.lm())
  EX("lm+m33()", s.lm() + s.template m<3, 3>(1))
  EX("m23()*s", s.template m<2, 3>(1) * 2)
  EX("s*m23()", 3 * s.template m<2, 3>(1))
  EX("-m22()", -s.template m<2, 2>(1))
  EX("dm()+dm()", s.dm(1) + s.dm(2))
  EX("dm<col>()-dm<col>()", s.template dm<typename S::CM>(1) - s.template dm<typename S::CM>(2))
  EX("dm<row>()+dm<col>()", s.template dm<typename S::RM>(1) + s.template dm<typename S::CM>(2))
  EX("dm()*s", s.dm(1) * 2)
  EX("s*dm()", 3 * s.dm(1))
  EX("dm()/s", s.dm(1) / 4)
  EX("-dm()", -s.dm(1))
  EX("(dm()+dm())*s-dm()", (s.dm(1) + s.dm(2)) * 2 - s.dm(3))
  EX("transpose(m33())", cml::transpose(s.template m<3, 3>(1)))
  EX("transpose(dm())", cml::transpose(s.dm(1)))
  EX("transpose(dm()+dm())", cml::transpose(s.dm(1) + s.dm(2)))
  EX("transpose(transpose(dm())*s)", cml::transpose(cml::transpose(s.dm(1)) * 2))
  using DMR = typename S::template MD<typename S::RM>;
  EXT(DMR, "outer(d(),d())", cml::outer(s.dk(3, 1), s.dk(4, 2)))
  EXT(DMR, "outer(v3(),v3())", cml::outer(s.template v<3>(1), s.template v<3>(2)))
  EXT(DMR, "outer(d(),ld)", cml::outer(s.dk(3, 1), s.ld(0)))
  EXT(DMR, "outer(ld,d())", cml::outer(s.ld(0), s.dk(3, 1)))
  EXT(DMR, "outer(v3(),lv)", cml::outer(s.template v<3>(1), s.lv()))
  EXT(DMR, "outer(lv,v3())", cml::outer(s.lv(), s.template v<3>(1)))
  EXT(DMR, "outer(d()+d(),ld)", cml::outer(s.d(1) + s.d(2), s.ld(0)))
  EXT(DMR, "outer(ld,d()*s)", cml::outer(s.ld(0), s.d(1) * 2))
  EXT(DMR, "transpose(outer(d(),ld))", cml::transpose(cml::outer(s.dk(3, 1), s.ld(0))))
  EX("row(outer(d(),ld),i)", cml::row(cml::outer(s.dk(3, 1), s.ld(0)), s.index(3, 2)))
  EX("col(outer(ld,d()),j)", cml::col(cml::outer(s.ld(0), s.dk(3, 1)), s.index(3, 2)))
  EX("hadamard(lv,v3())", cml::hadamard(s.lv(), s.template v<3>(1)))
  EX("hadamard(ld,d())", cml::hadamard(s.ld(0), s.dk(4, 1)))
  EX("cross(v3(),lv)", cml::cross(s.template v<3>(1), s.lv()))
  EX("cross(lv,d())", cml::cross(s.lv(), s.dk(3, 1)))
  EX("cross(ld3,d())", cml::cross(s.ld3(), s.dk(3, 1)))
  EX("cross(d(),ld3)", cml::cross(s.dk(3, 1), s.ld3()))
  EX("dm()-ldm", s.dmk(3, 2, 1) - s.ldm())
  EX("ldm+dm()", s.ldm() + s.dmk(3, 2, 1))
  EX("ldm-dm<col>()", s.ldm() - s.template dmk<typename S::CM>(3, 2, 1))
  EX("hadamard(dm(),ldm)", cml::hadamard(s.dmk(3, 2, 1), s.ldm()))
  EX("hadamard(ldm,dm())", cml::hadamard(s.ldm(), s.dmk(3, 2, 1)))
  EX("hadamard(m33(),lm)", cml::hadamard(s.template m<3, 3>(1), s.lm()))
  EX("transpose(ldm+dm())", cml::transpose(s.ldm() + s.dmk(3, 2, 1)))
  EX("row(ldm-dm(),i)", cml::row(s.ldm() - s.dmk(3, 2, 1), s.index(3, 2)))
  EX("v3()+d()", s.template v<3>(1) + s.dk(3, 2))
  EX("d()-v3()", s.dk(3, 1) - s.template v<3>(2))
  EX("m33()+dm()", s.template m<3, 3>(1) + s.dmk(3, 3, 2))
  EX("dm()-lm", s.dmk(3, 3, 1) - s.lm())
  EX("transpose(dm())+dm()", cml::transpose(s.dmk(2, 3, 1)) + s.dmk(3, 2, 2))
  if constexpr(!S::TR) {
    EX("dm*d()+d()", s.dmk(3, 2, 1) * s.dk(2, 2) + s.dk(3, 3))
    EX("d()-v*dm()", s.dk(2, 1) - s.dk(3, 2) * s.dmk(3, 2, 3))
    EX("dm()*dm()+dm()", s.dmk(3, 2, 1) * s.dmk(2, 3, 2) + s.dmk(3, 3, 3))
    EX("transpose(dm()*dm())", cml::transpose(s.dmk(3, 2, 1) * s.dmk(2, 4, 2)))
    EX("normalize(d())*s", cml::normalize(s.d(1)) * 2)
    EX("row(dm()*dm(),i)", cml::row(s.dmk(3, 2, 1) * s.dmk(2, 4, 2), s.index(3, 3)))
    EX("cross(m33()*v3(),v3())", cml::cross(s.template m<3, 3>(1) * s.template v<3>(2), s.template v<3>(3)))
    using QI = cml::quaternion<E, cml::fixed<>, cml::imaginary_first, cml::positive_cross>;
    using QR = cml::quaternion<E, cml::fixed<>, cml::real_first, cml::negative_cross>;
    EX("q()+q()", s.template q<QI>(1) + s.template q<QI>(2))
    EX("q()-q()", s.template q<QR>(1) - s.template q<QR>(2))
    EX("q()*s", s.template q<QI>(1) * 2)
    EX("q()/s", s.template q<QI>(1) / 4)
    EX("-q()", -s.template q<QR>(1))
    EX("q()+lq", s.template q<QI>(1) + s.template lq<QI>(0))
    EX("lq-q()", s.template lq<QI>(0) - s.template q<QI>(1))
    EX("(lq+q())*s-lq", (s.template lq<QR>(0) + s.template q<QR>(1)) * 2 - s.template lq<QR>(1))
    EX("q()*lq-lq", s.template q<QI>(1) * s.template lq<QI>(0) - s.template lq<QI>(1))
    EX("conjugate(lq+q())", cml::conjugate(s.template lq<QI>(0) + s.template q<QI>(1)))
    EX("inverse(q()-lq)", cml::inverse(s.template q<QI>(1) - s.template lq<QI>(0)))
    EX("conjugate(q())", cml::conjugate(s.template q<QI>(1)))
    EX("q().conjugate()", s.template q<QR>(1).conjugate())
    EX("inverse(q())", cml::inverse(s.template q<QI>(1)))
    EX("q().inverse()", s.template q<QR>(1).inverse())
    EX("conjugate(q()+q())", cml::conjugate(s.template q<QI>(1) + s.template q<QI>(2)))
    EX("inverse(q()*s)-q()", cml::inverse(s.template q<QI>(1) * 2) - s.template q<QI>(2))
    EX("q()*q()+q()", s.template q<QI>(1) * s.template q<QI>(2) + s.template q<QI>(3))
    EX("imaginary(q())", cml::imaginary(s.template q<QI>(1)))
    EX("q().imaginary()", s.template q<QR>(1).imaginary())
    EX("imaginary(conjugate(q()))", cml::imaginary(cml::conjugate(s.template q<QI>(1))))
    EX("cross(imaginary(q()),v3())", cml::cross(cml::imaginary(s.template q<QR>(1)), s.template v<3>(2)))
  }
#undef EX
#undef EXT
  u.last = int(kinds.size());
  universes.push_back(u);
}
}  // namespace expr
