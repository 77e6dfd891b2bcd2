// World "reg": operand pools.
#pragma once
#include "reg.h"
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <new>
#include <cml/cml.h>

namespace reg {

static const int K = 6;     // operands of each kind
// index 0: values; 1: as 0 with one element changed; 2: structured (unit vector, rotation);
// 3: equal to 0; 4: parallel to 0 / identity-like; 5: other values

template<class T_, class B_, class L_, class O_, class X_> struct Univ
{
  using T = T_; using B = B_; using L = L_; using O = O_; using X = X_;
  template<int N> using V = cml::vector<T, cml::fixed<N>>;
  template<int N> using XV = cml::vector<T, cml::external<N>>;
  template<int N> using CV = cml::vector<const T, cml::external<N>>;
  using DV = cml::vector<T, cml::dynamic<>>;
  using EV = cml::vector<T, cml::external<>>;
  using KV = cml::vector<const T, cml::external<>>;
  template<int R, int C> using M = cml::matrix<T, cml::fixed<R, C>, B, L>;
  template<int R, int C> using XM = cml::matrix<T, cml::external<R, C>, B, L>;
  using DM = cml::matrix<T, cml::dynamic<>, B, L>;
  using EM = cml::matrix<T, cml::external<>, B, L>;
  using Q = cml::quaternion<T, cml::fixed<>, O, X>;
};

// hands out arrays of one caller buffer, interleaved between the threads; behind some of them lies memory no call may touch
template<class T> struct Bump
{
  T* base; int nth, t; size_t pos = 0;
  T* take(size_t n, size_t red = 0)
  {
    T* p = base + pos * size_t(nth) + (n + red) * size_t(t);
    pos += n + red;
    if(red) sim::fence(p + n, red * sizeof(T), false);
    return p;
  }
};
// objects with memory between them that no call may touch
template<class A> struct Cells
{
  struct Cell { A a; char red[16]; } c[K];
  A& operator[](size_t i) { return c[i].a; }
  const A& operator[](size_t i) const { return c[i].a; }
  void close() { for(auto& x : c) sim::fence(x.red, sizeof x.red, false); }
};

template<class U, int N> struct VecSet
{
  using T = typename U::T;
  Cells<typename U::template V<N>> v;
  T* raw[K];
  typename U::template XV<N> x[K];
  typename U::template CV<N> k[K];
  typename U::DV d[K];
  typename U::EV e[K];
  typename U::KV f[K];
  void init(Vals& g, Bump<T>& b)
  {
    using XV = typename U::template XV<N>; using CV = typename U::template CV<N>;
    v.close();
    T w[K][N];
    for(int i = 0; i < N; ++i) { w[0][i] = T(g()); w[1][i] = w[0][i]; w[3][i] = w[0][i]; w[4][i] = w[0][i] * T(2); w[5][i] = T(g()); w[2][i] = T(g()); }
    w[1][g.r.below(N)] = T(g());
    double l = 0;
    for(int i = 0; i < N; ++i) l += double(w[2][i]) * double(w[2][i]);
    if(l > 1e-12 && l < 1e12) for(int i = 0; i < N; ++i) w[2][i] = T(double(w[2][i]) / std::sqrt(l));
    for(int i = 0; i < N; ++i) if(w[1][i] == T(0) && g.r.chance(0.5)) w[1][i] = std::signbit(w[1][i]) ? T(0) : -T(0);    // equal, but not the same bits
    int ax = int(g.r.below(N)), base = g.r.chance(0.5) ? 2 : 0, what = int(g.r.below(8));
    for(int i = 0; i < N; ++i) {
      T& y = w[5][i]; T x = w[base][i];
      switch(what) {       // degenerate relatives of another operand
        case 0: y = -x; break;
        case 1: y = T(double(x) * (1 + (sizeof(T) == 4 ? 1e-5 : 1e-9))); break;
        case 2: y = T(i == ax); break;
        case 3: y = T(i == ax ? -1 : 0); break;
        case 4: y = i == ax ? x : -x; break;
        default: break;
      }
    }
    if(g.r.chance(0.3)) for(int i = 0; i < N; ++i) w[4][i] = -w[0][i];
    if(g.r.chance(0.15)) { int k = int(g.r.below(N)); for(int i = 0; i < N; ++i) w[2][i] = T(i == k); }
    for(int i = 0; i < K; ++i) {
      raw[i] = b.take(N, i & 1 ? 2 : 0);
      std::memcpy(raw[i], w[i], sizeof w[i]);
      for(int j = 0; j < N; ++j) v[i][j] = w[i][j];
      new(&x[i]) XV(raw[i]); new(&k[i]) CV(raw[i]);
      d[i].resize(N);
      for(int j = 0; j < N; ++j) d[i][j] = w[i][j];
      new(&e[i]) typename U::EV(raw[i], N); new(&f[i]) typename U::KV(raw[i], N);
    }
  }
  template<class F> void each(F f) const
  {
    for(int i = 0; i < K; ++i) {
      for(int j = 0; j < N; ++j) { f(v[i].data()[j]); f(raw[i][j]); }
      f(T(d[i].size()));
      for(int j = 0; j < d[i].size(); ++j) f(d[i].data()[j]);
    }
  }
};
template<class U, int R, int C> struct MatSet
{
  using T = typename U::T;
  Cells<typename U::template M<R, C>> m;
  T* raw[K];
  char xs[K][sizeof(typename U::template XM<R, C>)] __attribute__((aligned(16)));
  typename U::DM d[K];
  char es[K][sizeof(typename U::EM)] __attribute__((aligned(16)));
  using XM = typename U::template XM<R, C>;
  using EM = typename U::EM;
  XM& x(int i) { return *(XM*) xs[i]; }
  EM& e(int i) { return *(EM*) es[i]; }
  void init(Vals& g, Bump<T>& b)
  {
    m.close();
    T w[K][R][C];
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) {
      w[0][i][j] = T(g()); w[1][i][j] = w[3][i][j] = w[0][i][j]; w[4][i][j] = T(i == j); w[5][i][j] = T(g()); w[2][i][j] = T(i == j);
    }
    w[1][g.r.below(R)][g.r.below(C)] = T(g());
    if(R == C && R >= 2) {     // a rotation (with a translation-free border)
      static const double quarter[] = {0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966};
      double a = g.r.unit() * 6, b2 = g.r.unit() * 6;
      if(g.r.chance(0.4)) a = quarter[g.r.below(4)];
      if(g.r.chance(0.4)) b2 = quarter[g.r.below(4)];
      double c = std::cos(a), s = std::sin(a), c2 = std::cos(b2), s2 = std::sin(b2);
      if(R == 2) { w[2][0][0] = T(c); w[2][0][1] = T(-s); w[2][1][0] = T(s); w[2][1][1] = T(c); }
      else {
        double A[3][3] = {{c, -s, 0}, {s, c, 0}, {0, 0, 1}}, Bm[3][3] = {{1, 0, 0}, {0, c2, -s2}, {0, s2, c2}};
        int tw = int(g.r.below(3));        // about any pair of axes
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
          double z = 0; for(int q = 0; q < 3; ++q) z += A[i][q] * Bm[q][j];
          w[2][(i + tw) % 3][(j + tw) % 3] = T(z);
        }
      }
      int k = int(g.r.below(R)), l = int(g.r.below(R));
      switch(g.r.below(9)) {       // structured relatives
        case 0: for(int j = 0; j < C; ++j) w[5][k][j] = w[5][l][j]; break;             // singular
        case 1: for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) w[5][i][j] = T((i + 1 + k) % R == j % R ? (i == l ? -2 : 1) : 0); break;   // a permutation
        case 2: for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) w[5][i][j] = w[0][j % R][i % C]; break;      // the transpose
        case 3: for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) w[5][i][j] = -w[2][i][j]; break;
        case 4: for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) w[5][i][j] = T(0); break;
        case 5: for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) w[4][i][j] = T(i == j ? (i == k ? -1 : 1) : 0); break;
        default: break;
      }
    }
    for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) if(w[1][i][j] == T(0) && g.r.chance(0.3)) w[1][i][j] = std::signbit(w[1][i][j]) ? T(0) : -T(0);
    for(int q = 0; q < K; ++q) {
      raw[q] = b.take(R * C, q & 1 ? 2 : 0);
      new(xs[q]) XM(raw[q]); new(es[q]) EM(raw[q], R, C);
      d[q].resize(R, C);
      for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { m[q](i, j) = w[q][i][j]; x(q)(i, j) = w[q][i][j]; d[q](i, j) = w[q][i][j]; }
    }
  }
  template<class F> void each(F f) const
  {
    for(int i = 0; i < K; ++i) {
      for(int j = 0; j < R * C; ++j) { f(m[i].data()[j]); f(raw[i][j]); }
      f(T(d[i].rows())); f(T(d[i].cols()));
      for(int j = 0; j < d[i].rows() * d[i].cols(); ++j) f(d[i].data()[j]);
    }
  }
};

template<class U> struct Ctx;
template<class U> struct Pool : VecSet<U, 2>, VecSet<U, 3>, VecSet<U, 4>, VecSet<U, 5>, MatSet<U, 2, 2>, MatSet<U, 3, 3>, MatSet<U, 4, 4>,
  MatSet<U, 2, 3>, MatSet<U, 3, 2>, MatSet<U, 3, 4>, MatSet<U, 4, 3>, MatSet<U, 5, 5>
{
  using T = typename U::T;
  Cells<typename U::Q> q;
  T s[16], ang[8];
  std::vector<std::function<void(Ctx<U>&)>> exprs;   // stored expressions over these operands
  static constexpr size_t elements() { return K * (2 + 3 + 4 + 5 + 4 + 9 + 16 + 6 + 6 + 12 + 12 + 25) + 12 * K; }
  template<int N> VecSet<U, N>& vs() { return *this; }
  template<int R, int C> MatSet<U, R, C>& ms() { return *this; }
  Pool(uint64_t seed, int flavour, T* base, int nth, int t)
  {
    Vals g(seed, flavour);
    Bump<T> b{base, nth, t};
    vs<2>().init(g, b); vs<3>().init(g, b); vs<4>().init(g, b); vs<5>().init(g, b);
    ms<2, 2>().init(g, b); ms<3, 3>().init(g, b); ms<4, 4>().init(g, b); ms<2, 3>().init(g, b); ms<3, 2>().init(g, b); ms<3, 4>().init(g, b);
    ms<4, 3>().init(g, b); ms<5, 5>().init(g, b);
    q.close();
    T w[K][4];
    for(int i = 0; i < 4; ++i) { w[0][i] = T(g()); w[1][i] = w[3][i] = w[0][i]; w[4][i] = T(0); w[5][i] = T(g()); w[2][i] = T(g()); }
    w[1][g.r.below(4)] = T(g());
    double l = 0;
    for(int i = 0; i < 4; ++i) l += double(w[2][i]) * double(w[2][i]);
    if(l > 1e-12 && l < 1e12) for(int i = 0; i < 4; ++i) w[2][i] = T(double(w[2][i]) / std::sqrt(l));
    for(int i = 0; i < K; ++i) for(int j = 0; j < 4; ++j) q[i][j] = w[i][j];
    q[4].w() = T(1);
    switch(g.r.below(7)) {       // relatives of the unit quaternion
      case 0: for(int j = 0; j < 4; ++j) q[5][j] = -w[2][j]; break;
      case 1: for(int j = 0; j < 4; ++j) q[5][j] = T(double(w[2][j]) + (sizeof(T) == 4 ? 1e-5 : 1e-9) * (j - 1)); break;
      case 2: for(int j = 0; j < 4; ++j) q[5][j] = T(-double(w[2][j]) + (sizeof(T) == 4 ? 1e-5 : 1e-9) * (j - 1)); break;
      case 3: for(int j = 0; j < 4; ++j) q[5][j] = T(0); q[5].w() = T(-1); break;
      default: break;
    }
    if(g.r.chance(0.3)) q[4].w() = T(-1);
    if(g.r.chance(0.1)) q[4].w() = T(0);
    for(int j = 0; j < 4; ++j) if(q[1][j] == T(0) && g.r.chance(0.4)) q[1][j] = std::signbit(q[1][j]) ? T(0) : -T(0);
    for(int i = 0; i < 16; ++i) s[i] = T(g());
    static const double fixed_angles[] = {0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966, 1e-9};
    for(int i = 0; i < 8; ++i) ang[i] = i < 5 ? T(fixed_angles[i]) : T(g());
    ang[7] = T(double(ang[5]) + (sizeof(T) == 4 ? 1e-6 : 1e-9)); ang[6] = T(double(ang[5]) * (1 + (sizeof(T) == 4 ? 1e-4 : 1e-6)));     // almost the same angle
    s[9] = T(double(s[8]) + (sizeof(T) == 4 ? 1e-6 : 1e-9)); s[11] = -s[10];
    s[0] = T(0); s[1] = T(1); s[2] = T(-1); s[3] = s[4]; s[5] = T(0.5); s[6] = T(1e-9); s[7] = T(g.r.unit());
  }
  template<class F> void each(F f)
  {
    vs<2>().each(f); vs<3>().each(f); vs<4>().each(f); vs<5>().each(f);
    ms<2, 2>().each(f); ms<3, 3>().each(f); ms<4, 4>().each(f); ms<2, 3>().each(f); ms<3, 2>().each(f); ms<3, 4>().each(f);
    ms<4, 3>().each(f); ms<5, 5>().each(f);
    for(int i = 0; i < K; ++i) for(int j = 0; j < 4; ++j) f(q[i].data()[j]);
    for(int i = 0; i < 16; ++i) f(s[i]);
    for(int i = 0; i < 8; ++i) f(ang[i]);
  }
};

// call context: gives the operands of one call
template<class U> struct Ctx
{
  using T = typename U::T;
  Pool<U>& p;        // the operands (shared and constant, or the caller's own)
  Pool<U>& w;        // this caller's working objects
  const sim::Step& st;
  bool priv;         // mutators work on p itself
  bool copy;         // operands are copied into the working objects first (same address, new contents)
  uint32_t ix(int pos) const { return (pos == 0 ? st.a : pos == 1 ? st.b : st.c) % K; }
  int n(int mod) const { return int(st.n % uint32_t(mod)); }
  int m(int mod) const { return int(st.m % uint32_t(mod)); }
  bool flag(int k) const { return (st.v >> (40 + k)) & 1; }
  T sc(int k) const { return p.s[(st.v >> (4 * k)) & 15]; }
  T angle(int k) const { return p.ang[(st.v >> (3 * k)) & 7]; }

  template<class A> const A& pick(A& a, A& b) { if(copy) { b = a; return b; } return a; }
  template<class A> A& own(A& a, A& b) { if(priv) return a; b = a; return b; }
  static void raw_copy(T* d, const T* s, int n) { for(int i = 0; i < n; ++i) d[i] = s[i]; }
  // vector operand of kind KIND (0 fixed, 1 view, 2 const view, 3 dynamic, 4 dynamic view, 5 dynamic const view)
  template<int KIND, int N> const auto& vec(int pos)
  {
    auto& a = p.template vs<N>(); auto& b = w.template vs<N>(); uint32_t i = ix(pos);
    if constexpr(KIND == 0) return pick(a.v[i], b.v[pos]);
    else if constexpr(KIND == 3) return pick(a.d[i], b.d[pos]);
    else {
      auto& src = copy ? b : a;
      if(copy) { raw_copy(b.raw[pos], a.raw[i], N); i = uint32_t(pos); }
      if constexpr(KIND == 1) return src.x[i];
      else if constexpr(KIND == 2) return src.k[i];
      else if constexpr(KIND == 4) return src.e[i];
      else return src.f[i];
    }
  }
  template<int KIND, int N> auto& vecm(int pos)
  {
    auto& a = p.template vs<N>(); auto& b = w.template vs<N>(); uint32_t i = ix(pos);
    if constexpr(KIND == 0) return own(a.v[i], b.v[pos]);
    else if constexpr(KIND == 3) return own(a.d[i], b.d[pos]);
    else {
      auto& src = priv ? a : b;
      if(!priv) { raw_copy(b.raw[pos], a.raw[i], N); i = uint32_t(pos); }
      if constexpr(KIND == 1) return src.x[i]; else return src.e[i];
    }
  }
  template<int KIND, int R, int C> const auto& mat(int pos)
  {
    auto& a = p.template ms<R, C>(); auto& b = w.template ms<R, C>(); uint32_t i = ix(pos);
    if constexpr(KIND == 0) return pick(a.m[i], b.m[pos]);
    else if constexpr(KIND == 3) return pick(a.d[i], b.d[pos]);
    else {
      auto& src = copy ? b : a;
      if(copy) { raw_copy(b.raw[pos], a.raw[i], R * C); i = uint32_t(pos); }
      if constexpr(KIND == 1) return (const typename U::template XM<R, C>&) src.x(int(i)); else return (const typename U::EM&) src.e(int(i));
    }
  }
  template<int KIND, int R, int C> auto& matm(int pos)
  {
    auto& a = p.template ms<R, C>(); auto& b = w.template ms<R, C>(); uint32_t i = ix(pos);
    if constexpr(KIND == 0) return own(a.m[i], b.m[pos]);
    else if constexpr(KIND == 3) return own(a.d[i], b.d[pos]);
    else {
      auto& src = priv ? a : b;
      if(!priv) { raw_copy(b.raw[pos], a.raw[i], R * C); i = uint32_t(pos); }
      if constexpr(KIND == 1) return src.x(int(i)); else return src.e(int(i));
    }
  }
  const typename U::Q& quat(int pos) { return pick(p.q[ix(pos)], w.q[pos]); }
  typename U::Q& quatm(int pos) { return own(p.q[ix(pos)], w.q[pos]); }
};

// results of a call
inline void o(double x) { sim::out(x); }
inline void o(float x) { sim::out(x); }
inline void o(int x) { sim::out(x); }
inline void o(bool x) { sim::out(x); }
inline void o(size_t x) { sim::out(uint64_t(x)); }
template<class S> void o(const cml::readable_vector<S>& v) { int n = v.size(); sim::out(n); for(int i = 0; i < n; ++i) sim::out(v[i]); }
template<class S> void o(const cml::readable_matrix<S>& m)
{
  int r = m.rows(), c = m.cols(); sim::out(r); sim::out(c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) sim::out(m(i, j));
}
template<class S> void o(const cml::readable_quaternion<S>& q) { for(int i = 0; i < 4; ++i) sim::out(q[i]); }
template<class A, class B> void o(const A& a, const B& b) { o(a); o(b); }
template<class A, class B, class... C> void o(const A& a, const B& b, const C&... c) { o(a); o(b, c...); }

template<class U> struct Registry
{
  using C = Ctx<U>;
  struct Op { std::string name; int flags; std::function<void(C&)> f; };
  std::vector<Op> ops;
  std::vector<std::function<std::function<void(C&)>(Pool<U>&)>> exprs;   // builders
  void add(const std::string& n, int flags, std::function<void(C&)> f) { ops.push_back(Op{n, flags, std::move(f)}); }
};
static const char* const kind_names[] = {"fixed", "view", "constview", "dyn", "dynview", "dynconstview"};
inline constexpr int kflag(int k) { return k >= 3 ? F_DYN : 0; }
inline std::string knm(const char* n, int k, int r, int c = 0)
{
  return std::string(n) + "." + kind_names[k] + std::to_string(r) + (c ? "x" + std::to_string(c) : "");
}

// helpers: register one generic call for several operand kinds
template<int N, int... KS, class U, class F> void v1(Registry<U>& r, const char* n, int fl, F f)
{
  (r.add(knm(n, KS, N), fl | kflag(KS), [f](Ctx<U>& c) { f(c, c.template vec<KS, N>(0)); }), ...);
}
template<int N, int K1, int K2, class U, class F> void v2(Registry<U>& r, const char* n, int fl, F f)
{
  r.add(knm(n, K1, N) + "/" + kind_names[K2], fl | kflag(K1) | kflag(K2), [f](Ctx<U>& c) { f(c, c.template vec<K1, N>(0), c.template vec<K2, N>(1)); });
}
template<int N, class U, class F> void v2s(Registry<U>& r, const char* n, int fl, F f)   // usual kind pairs
{
  v2<N, 0, 0>(r, n, fl, f); v2<N, 1, 0>(r, n, fl, f); v2<N, 0, 2>(r, n, fl, f); v2<N, 3, 3>(r, n, fl, f); v2<N, 4, 3>(r, n, fl, f);
}
template<int N, int... KS, class U, class F> void v1m(Registry<U>& r, const char* n, int fl, F f)
{
  (r.add(knm(n, KS, N), fl | kflag(KS) | F_MUT, [f](Ctx<U>& c) { f(c, c.template vecm<KS, N>(0)); }), ...);
}
template<int N, int K1, int K2, class U, class F> void v2m(Registry<U>& r, const char* n, int fl, F f)
{
  r.add(knm(n, K1, N) + "/" + kind_names[K2], fl | kflag(K1) | kflag(K2) | F_MUT,
    [f](Ctx<U>& c) { f(c, c.template vecm<K1, N>(0), c.template vec<K2, N>(1)); });
}
template<int R, int C_, int... KS, class U, class F> void m1(Registry<U>& r, const char* n, int fl, F f)
{
  (r.add(knm(n, KS, R, C_), fl | kflag(KS), [f](Ctx<U>& c) { f(c, c.template mat<KS, R, C_>(0)); }), ...);
}
template<int R1, int C1, int R2, int C2, int K1, int K2, class U, class F> void m2(Registry<U>& r, const char* n, int fl, F f)
{
  r.add(knm(n, K1, R1, C1) + "/" + kind_names[K2], fl | kflag(K1) | kflag(K2),
    [f](Ctx<U>& c) { f(c, c.template mat<K1, R1, C1>(0), c.template mat<K2, R2, C2>(1)); });
}
template<int R, int C_, int... KS, class U, class F> void m1m(Registry<U>& r, const char* n, int fl, F f)
{
  (r.add(knm(n, KS, R, C_), fl | kflag(KS) | F_MUT, [f](Ctx<U>& c) { f(c, c.template matm<KS, R, C_>(0)); }), ...);
}
template<int R1, int C1, int R2, int C2, int K1, int K2, class U, class F> void m2m(Registry<U>& r, const char* n, int fl, F f)
{
  r.add(knm(n, K1, R1, C1) + "/" + kind_names[K2], fl | kflag(K1) | kflag(K2) | F_MUT,
    [f](Ctx<U>& c) { f(c, c.template matm<K1, R1, C1>(0), c.template mat<K2, R2, C2>(1)); });
}

using UA = Univ<double, cml::col_basis, cml::col_major, cml::imaginary_first, cml::positive_cross>;
using UB = Univ<float, cml::row_basis, cml::row_major, cml::real_first, cml::negative_cross>;

template<class U> void reg_vec(Registry<U>&);
template<class U> void reg_mat(Registry<U>&);
template<class U> void reg_mat2(Registry<U>&);
template<class U> void reg_quat(Registry<U>&);
template<class U> void reg_geo(Registry<U>&);
template<class U> void reg_more(Registry<U>&);
template<class U> void reg_big(Registry<U>&);
template<class U> void reg_rot(Registry<U>&);
template<class U> void reg_expr(Registry<U>&);

}  // namespace reg
