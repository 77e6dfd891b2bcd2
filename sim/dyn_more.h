// More operations of world "dyn": updates of temporaries, compound updates with expressions, comparisons, basis
// views, factorisations, and the mathlib builders and transformations on dynamically sized operands.
#pragma once
#include <cml/quaternion.h>
#include <cml/mathlib/mathlib.h>
#include <cml/mathlib/quaternion/rotation.h>
#include <cml/mathlib/matrix/basis.h>
#include <cml/mathlib/matrix/concat.h>
#include <cml/mathlib/matrix/invert.h>
#include <cml/mathlib/matrix/misc.h>
#include <cml/mathlib/matrix/rotation.h>
#include <cml/mathlib/matrix/scale.h>
#include <cml/mathlib/matrix/transform.h>
#include <cml/mathlib/matrix/translation.h>
#include <cml/mathlib/vector/misc.h>
#include <cml/mathlib/vector/rotation.h>
#include <cml/mathlib/vector/transform.h>
#include <cml/util/vector_hash.h>
namespace dyn {

UT void UU::define_more()
{
  using U = UU;
  // ---------------------------------------------------------------- updates of temporaries
  def("v=V(w)&& update", 5, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); int form = int(s.n % 9); double y = num(s.v, 0); int k = 1 + int(s.v % 3);
    const Val B = u.mod[b], C = u.mod[c];
    int i = B.r ? int(s.m) % B.r : 0;
    if((form == 0 || form == 4) && !B.r) form = 2;
    if(form == 8 && INT) form = 7;
    Act a; a.dst = d; a.owners = own(d) | own(b); a.tol = 1e-12;
    bool two = form == 5 || form == 6 || form == 7;
    if(two && B.r != C.r) a.ex = SIZE_ERR;
    else {
      a.have_want = true;
      if(form == 1) a.want = u.mkv(d, 3, [&](int q) { return num(s.v, q); });
      else a.want = u.mkv(d, B.r, [&](int q) {
        switch(form) {
          case 0: return q == i ? cast(y) : B.get(q);
          case 2: return 0.0;
          case 3: return y;
          case 4: return q == i ? 1.0 : 0.0;
          case 5: return std::min(B.get(q), C.get(q));
          case 6: return std::max(B.get(q), C.get(q));
          case 7: return B.get(q) - C.get(q) * k;
          default: return B.get(q) / k;
        }
      });
      if(form == 7) { double g = 0; for(int q = 0; q < B.r; ++q) g = std::max(g, std::fabs(B.get(q)) + k * std::fabs(C.get(q))); a.tol = (std::is_same<E, float>::value ? 1e-6 : 1e-14) * (1 + g); }
    }
    uint64_t v = s.v;
    a.f = [&u, d, b, c, form, i, y, k, v] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& z) { u.with_vec(c, [&](auto& w) {
        using Y = std::decay_t<decltype(z)>;
        switch(form) {
          case 0: x = Y(z).put(i, el(y)); break;
          case 1: x = Y(z).set(el(num(v, 0)), el(num(v, 1)), el(num(v, 2))); break;
          case 2: x = Y(z).zero(); break;
          case 3: x = Y(z).fill(el(y)); break;
          case 4: x = Y(z).cardinal(i); break;
          case 5: x = Y(z).minimize(w); break;
          case 6: x = Y(z).maximize(w); break;
          case 7: x = Y(z) -= w * k; break;
          default: if constexpr(!INT) x = Y(z) /= double(k); break;
        }
      }); }); });
    };
    u.act(std::move(a));
  });
  def("M=M(N)&& update", 5, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c), w = vs(s.c); int form = int(s.n % 10); double y = num(s.v, 0); int k = 1 + int(s.v % 3);
    const Val B = u.mod[b], C = u.mod[c], W = u.mod[w];
    if((form == 0 || form == 1 || form == 5 || form == 6) && !B.size()) form = 2;
    if(form == 8 && INT) form = 7;
    int i = B.r ? int(s.m) % B.r : 0, j = B.c ? int((s.v >> 8) & 0xffff) % B.c : 0;
    int bi = i, bj = j; if(std::is_same<BO, cml::col_basis>::value) std::swap(bi, bj);
    Act a; a.dst = d; a.owners = own(d) | own(b); a.tol = 1e-12;
    if(form == 7 && (B.r != C.r || B.c != C.c)) a.ex = SIZE_ERR;
    else if(form == 5 && B.c != W.r) a.ex = SIZE_ERR;
    else if(form == 6 && B.r != W.r) a.ex = SIZE_ERR;
    else {
      a.have_want = true;
      if(form == 9) a.want = u.mk(d, B.c, B.r, [&](int p, int q) { return B.get(q, p); });
      else a.want = u.mk(d, B.r, B.c, [&](int p, int q) {
        switch(form) {
          case 0: case 1: return p == i && q == j ? cast(y) : B.get(p, q);
          case 2: return 0.0;
          case 3: return y;
          case 4: return p == q ? 1.0 : 0.0;
          case 5: return p == i ? W.get(q) : B.get(p, q);
          case 6: return q == j ? W.get(p) : B.get(p, q);
          case 7: return B.get(p, q) + C.get(p, q) * k;
          default: return B.get(p, q) / k;
        }
      });
      if(form == 7) { double g = 0; for(double q : B.e) g = std::max(g, std::fabs(q)); for(double q : C.e) g = std::max(g, k * std::fabs(q)); a.tol = (std::is_same<E, float>::value ? 1e-6 : 1e-14) * (1 + g); }
    }
    a.f = [&u, d, b, c, w, form, i, j, bi, bj, y, k] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& z) {
        using Y = std::decay_t<decltype(z)>;
        switch(form) {
          case 0: x = Y(z).put(i, j, el(y)); break;
          case 1: x = Y(z).set_basis_element(bi, bj, el(y)); break;
          case 2: x = Y(z).zero(); break;
          case 3: x = Y(z).fill(el(y)); break;
          case 4: x = Y(z).identity(); break;
          case 5: u.with_vec(w, [&](auto& q) { x = Y(z).set_row(i, q); }); break;
          case 6: u.with_vec(w, [&](auto& q) { x = Y(z).set_col(j, q); }); break;
          case 7: u.with_mat(c, [&](auto& q) { x = Y(z) += q * k; }); break;
          case 8: if constexpr(!INT) x = Y(z) /= double(k); break;
          default: x = Y(z).transpose(); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- compound updates with expressions
  def("v+=a*k-b", 5, OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); bool minus = s.m & 1; int k = 1 + int(s.v % 3);
    const Val D = u.mod[d], B = u.mod[b], C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d);
    if(B.r != C.r || D.r != B.r) a.ex = SIZE_ERR;
    else {
      double g = 0; a.have_want = true;
      a.want = u.mkv(d, D.r, [&](int i) { double e = B.get(i) * k - C.get(i); g = std::max(g, std::fabs(D.get(i)) + k * std::fabs(B.get(i)) + std::fabs(C.get(i))); return minus ? D.get(i) - e : D.get(i) + e; });
      a.tol = (std::is_same<E, float>::value ? 1e-6 : 1e-14) * (1 + g);
    }
    a.f = [&u, d, b, c, k, minus] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) { if(minus) x -= y * k - z; else x += y * k - z; }); }); });
    };
    u.act(std::move(a));
  });
  def("M+=A*k+B^T", 5, OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); bool tr = s.m & 1; int k = 1 + int(s.v % 3);
    if(d == c && tr) return;        // reads elements it has already written
    const Val D = u.mod[d], B = u.mod[b], C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d);
    int cr = tr ? C.c : C.r, cc = tr ? C.r : C.c;
    if(B.r != cr || B.c != cc || D.r != B.r || D.c != B.c) a.ex = SIZE_ERR;
    else {
      double g = 0; for(double q : B.e) g = std::max(g, k * std::fabs(q)); for(double q : C.e) g = std::max(g, std::fabs(q)); for(double q : D.e) g = std::max(g, std::fabs(q));
      a.have_want = true;
      a.want = u.mk(d, D.r, D.c, [&](int i, int j) { return D.get(i, j) - (B.get(i, j) * k + (tr ? C.get(j, i) : C.get(i, j))); });
      a.tol = (std::is_same<E, float>::value ? 3e-6 : 3e-14) * (1 + g);
    }
    a.f = [&u, d, b, c, k, tr] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) { if(tr) x -= y * k + transpose(z); else x -= y * k + z; }); }); });
    };
    u.act(std::move(a));
  });
  def("M-=A*B", 4, OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); const Val D = u.mod[d], B = u.mod[b], C = u.mod[c];
    if(colmajor(b) != colmajor(c) || long(B.r) * B.c * C.c > 15000) return;
    Act a; a.dst = d; a.owners = own(d) | mix2(b, c);
    if(B.c != C.r || B.r != D.r || C.c != D.c) a.ex = SIZE_ERR;
    else {
      double mag = 0; a.have_want = true;
      a.want = u.mk(d, D.r, D.c, [&](int i, int j) {
        double t = 0, g = std::fabs(D.get(i, j));
        for(int k = 0; k < B.c; ++k) { double q = B.get(i, k) * C.get(k, j); t += q; g += std::fabs(q); }
        mag = std::max(mag, g);
        return D.get(i, j) - t;
      });
      a.tol = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * (1 + mag);
    }
    a.f = [&u, d, b, c] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) {
        using Y = typename std::decay_t<decltype(y)>::layout_tag; using Z = typename std::decay_t<decltype(z)>::layout_tag;
        if constexpr(std::is_same<Y, Z>::value) x -= y * z;
      }); }); });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- comparisons and sizes
  def("compare v,w", 3, OF_CROSS, [](U& u, const Step& s) {
    int b = vs(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c];
    static double got; got = 0;
    Act a; a.scalar = true; a.got_s = &got; a.owners = own(b) | own(c);
    bool lt = std::lexicographical_compare(B.e.begin(), B.e.end(), C.e.begin(), C.e.end());
    bool gt = std::lexicographical_compare(C.e.begin(), C.e.end(), B.e.begin(), B.e.end());
    bool eq = B.e == C.e;
    a.want_s = eq + 2 * !eq + 4 * lt + 8 * !gt + 16 * gt + 32 * !lt;
    a.f = [&u, b, c] {
      u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        got = (y == z) + 2 * (y != z) + 4 * (y < z) + 8 * (y <= z) + 16 * (y > z) + 32 * (y >= z);
      }); });
    };
    u.act(std::move(a));
  });
  def("compare M,N; sizes", 3, OF_CROSS, [](U& u, const Step& s) {
    int b = ms(s.b), c = ms(s.c); const Val B = u.mod[b], C = u.mod[c]; bool cb = std::is_same<BO, cml::col_basis>::value;
    static double got; got = 0;
    Act a; a.scalar = true; a.got_s = &got; a.owners = own(b) | own(c);
    bool eq = B.r == C.r && B.c == C.c;
    for(int i = 0; eq && i < B.r; ++i) for(int j = 0; j < B.c; ++j) if(B.get(i, j) != C.get(i, j)) eq = false;
    int i = B.r ? int(s.n) % B.r : -1, j = B.c ? int(s.m) % B.c : -1;
    a.want_s = eq + 2 * !eq + 16 * (B.r + 16 * (B.c + 16 * ((cb ? B.c : B.r) + 16 * (cb ? B.r : B.c))));
    double el = B.size() ? B.get(i, j) : 0;
    a.want_s += el;
    a.f = [&u, b, c, i, j, cb] {
      u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) {
        const auto& cy = y;
        got = (cy == z) + 2 * (cy != z) + 16 * (cy.size().first + 16 * (cy.size().second + 16 * (cy.basis_count() + 16 * cy.basis_size())));
        if(cy.rows() && cy.cols()) got += to_d(cb ? cy.basis_element(j, i) : cy.basis_element(i, j));
      }); });
    };
    u.act(std::move(a));
  });
  if constexpr(!TR) {
    def("scalars of vectors", 4, OF_GEO | OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
      int b = vs(s.b), c = vs(s.c), e = vs(s.a); int form = int(s.m % 5); const Val B = u.mod[b], C = u.mod[c], G = u.mod[e];
      if(form == 0 && !FP) form = 1;
      static double got; got = 0;
      Act a; a.scalar = true; a.got_s = &got; a.owners = own(b) | own(c) | own(e);
      double t = 0, g = 1;
      auto up = [&](double x) { g += std::fabs(x); return x; };
      switch(form) {
        case 0: if(!B.r) a.ex = SIZE_ERR; else { for(double q : B.e) t += q * q; t = std::sqrt(t); } break;
        case 1:
          if(B.r != 3 || C.r != 3 || G.r != 3) a.ex = SIZE_ERR;
          else for(int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; t += up(B.get(i) * C.get(j) * G.get(k)) - up(B.get(i) * C.get(k) * G.get(j)); }
          break;
        case 2: if(B.r != 2 || C.r != 2) a.ex = SIZE_ERR; else t = up(B.get(0) * C.get(1)) - up(B.get(1) * C.get(0)); break;
        case 3:
          if(!B.r || B.r != C.r) a.ex = SIZE_ERR; else for(int i = 0; i < B.r; ++i) t += up(std::fabs(B.get(i) - C.get(i)));
          break;
        default: t = 1; break;
      }
      a.want_s = t; a.tol_s = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * g;
      a.f = [&u, b, c, e, form] {
        u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
          switch(form) {
            case 0: if constexpr(FP) got = to_d(E(y.length())); break;
            case 1: u.with_vec(e, [&](auto& x) { got = to_d(E(cml::triple_product(y, z, x))); }); break;
            case 2: got = to_d(E(cml::perp_dot(y, z))); break;
            case 3: if constexpr(FP) got = to_d(E(cml::manhattan_distance(y, z))); break;
            default: {
              using Y = std::decay_t<decltype(y)>; using Z = std::decay_t<decltype(z)>;
              bool eq = y == z;
              size_t hy = std::hash<Y>()(y), hz = std::hash<Z>()(z), hc = std::hash<Y>()(Y(y));
              got = hy == hc && (!eq || hy == hz);
              break;
            }
          }
        }); });
      };
      if(form == 3 && !FP) return;
      u.act(std::move(a));
    });
  }
  // ---------------------------------------------------------------- views of basis vectors, concatenation
  def("v=basis(M,i)", 4, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); const Val B = u.mod[b]; bool cb = std::is_same<BO, cml::col_basis>::value; int form = int(s.m % 3);
    int k = cb ? B.c : B.r; if(!k || !B.size()) return;
    k = int(s.n) % k; int e = vs(s.c); const Val G = u.mod[e]; int n = cb ? B.r : B.c;
    Act a; a.dst = d; a.owners = own(d) | own(b); a.have_want = true; a.tol = 1e-12;
    if(form == 1 && G.r != n) { a.have_want = false; a.ex = SIZE_ERR; }
    else a.want = u.mkv(d, n, [&](int i) { double x = cb ? B.get(i, k) : B.get(k, i); return form == 1 ? x * 2 + G.get(i) : x; });
    a.f = [&u, d, b, k, e, form] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if(form == 0) x = cml::basis(y, k); else if(form == 2) x = cml::basis(Y(y), k);
        else u.with_vec(e, [&](auto& z) { x = cml::basis(y, k) * 2 + z; });
      }); });
    };
    u.act(std::move(a));
  });
  def("v=row/col(temporary)", 3, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); const Val B = u.mod[b]; bool col = s.m & 1; if(!B.size()) return;
    int k = int(s.n) % (col ? B.c : B.r);
    Act a; a.dst = d; a.owners = own(d) | own(b); a.have_want = true;
    a.want = u.mkv(d, col ? B.r : B.c, [&](int i) { return -(col ? B.get(i, k) : B.get(k, i)); });
    a.f = [&u, d, b, k, col] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if(col) x = -cml::col(Y(y), k); else x = -cml::row(Y(y), k);
      }); });
    };
    u.act(std::move(a));
  });
  def("M.set_row(row of N)", 3, OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b); const Val D = u.mod[d], B = u.mod[b]; bool col = s.m & 1; if(!B.size() || !D.size()) return;
    int k = int(s.n) % (col ? D.c : D.r), l = int(s.c) % (col ? B.c : B.r);
    Act a; a.dst = d; a.owners = own(d);
    if((col ? D.r : D.c) != (col ? B.r : B.c)) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mk(d, D.r, D.c, [&](int i, int j) { return col ? (j == k ? B.get(i, l) : D.get(i, j)) : i == k ? B.get(l, j) : D.get(i, j); }); }
    a.f = [&u, d, b, k, l, col] { u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { if(col) x.set_col(k, cml::col(y, l)); else x.set_row(k, cml::row(y, l)); }); }); };
    u.act(std::move(a));
  });
  def("M=concat(A,B)", 3, OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); const Val B = u.mod[b], C = u.mod[c];
    if(colmajor(b) != colmajor(c) || (B.r == B.c && B.r > 32)) return;
    bool cb = std::is_same<BO, cml::col_basis>::value; const Val &L = cb ? C : B, &R = cb ? B : C;
    Act a; a.dst = d; a.owners = own(d) | mix2(b, c);
    if(B.r != B.c || C.r != C.c || B.r != C.r) a.ex = SIZE_ERR;
    else {
      double mag = 0; a.have_want = true;
      a.want = u.mk(d, B.r, B.r, [&](int i, int j) {
        double t = 0, g = 0;
        for(int k = 0; k < L.c; ++k) { double q = L.get(i, k) * R.get(k, j); t += q; g += std::fabs(q); }
        mag = std::max(mag, g);
        return t;
      });
      a.tol = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * (1 + mag);
    }
    a.f = [&u, d, b, c] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) {
        using Y = typename std::decay_t<decltype(y)>::layout_tag; using Z = typename std::decay_t<decltype(z)>::layout_tag;
        if constexpr(std::is_same<Y, Z>::value) x = cml::matrix_concat(y, z);
      }); }); });
    };
    u.act(std::move(a));
  });
  if constexpr(FP) define_geo();
}

UT void UU::define_geo()
{
  if constexpr(FP) {
  using U = UU;
  static const bool CB = std::is_same<BO, cml::col_basis>::value;
  static const double RT = std::is_same<E, float>::value ? 1e-4 : 1e-11;
  // element (i, j) of basis vector i
  static auto setb = [](Val& m, int i, int j, double x) { if(CB) m.set(j, i, cast(x)); else m.set(i, j, cast(x)); };
  static auto getb = [](const Val& m, int i, int j) { return CB ? m.get(j, i) : m.get(i, j); };
  // affine N-dimensional: N+1 basis vectors of N elements
  static auto affine = [](const Val& m, int n) { return CB ? m.r >= n && m.c >= n + 1 : m.r >= n + 1 && m.c >= n; };
  static auto linear = [](const Val& m, int n) { return m.r >= n && m.c >= n; };
  static auto norm = [](const Val& v) { double t = 0; for(double x : v.e) t += x * x; return std::sqrt(t); };

  def("v=normalize/perp/project", 4, OF_GEO | OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); int form = int(s.m % 5); const Val B = u.mod[b], C = u.mod[c];
    double ang = num(s.v, 3) * 0.3;
    Act a; a.dst = d; a.owners = own(d) | (form < 2 ? own(b) : mix2(b, c)); a.tol = RT;
    double mb = 0, mc = 0; for(double q : B.e) mb = std::max(mb, std::fabs(q)); for(double q : C.e) mc = std::max(mc, std::fabs(q));
    double lc = norm(C), lb = norm(B), dt = 0;
    switch(form) {
      case 0: if(!B.r) a.ex = SIZE_ERR; else { if(lb < 1e-3) return; a.have_want = true; a.want = u.mkv(d, B.r, [&](int i) { return B.get(i) / lb; }); } break;
      case 1: if(B.r != 2) a.ex = SIZE_ERR; else { a.have_want = true; a.want = u.mkv(d, 2, [&](int i) { return i ? B.get(0) : -B.get(1); }); } break;
      case 2: case 3:
        if(!B.r || !C.r || B.r != C.r) a.ex = SIZE_ERR;
        else {
          if(form == 2 && lc < 1e-3) return;
          for(int i = 0; i < B.r; ++i) dt += B.get(i) * C.get(i);
          a.have_want = true;
          a.want = u.mkv(d, B.r, [&](int i) { return form == 2 ? dt / (lc * lc) * C.get(i) : B.get(i) - dt * C.get(i); });
          a.tol = RT * (1 + B.r * mb * mc * mc + mb);
        }
        break;
      default:
        if(B.r != 3 || C.r != 3) a.ex = SIZE_ERR;
        else {
          for(int i = 0; i < 3; ++i) dt += B.get(i) * C.get(i);
          double sn = std::sin(ang), cs = std::cos(ang);
          a.have_want = true;
          a.want = u.mkv(d, 3, [&](int i) {
            int j = (i + 1) % 3, k = (i + 2) % 3; double par = dt * C.get(i), cr = C.get(j) * B.get(k) - C.get(k) * B.get(j);
            return cs * (B.get(i) - par) + sn * cr + par;
          });
          a.tol = RT * (1 + 3 * mb * mc * mc + mb);
        }
    }
    a.f = [&u, d, b, c, form, ang] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        switch(form) {
          case 0: x = cml::normalize(y); break;
          case 1: x = cml::perp(y); break;
          case 2: x = cml::project_to_vector(y, z); break;
          case 3: x = cml::project_to_hplane(y, z); break;
          default: x = cml::rotate_vector(y, z, E(ang)); break;
        }
      }); }); });
    };
    u.act(std::move(a));
  });
  def("v=transform(M,w)", 5, OF_GEO | OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b), c = vs(s.c); int form = int(s.n % 6); const Val B = u.mod[b], C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d) | own(c);
    bool ok = form == 0 ? linear(B, 2) && C.r == 2 : form == 1 ? affine(B, 2) && C.r == 2 : form == 2 ? linear(B, 3) && C.r == 3
      : form == 3 ? affine(B, 3) && C.r == 3 : form == 4 ? B.r == 4 && B.c == 4 && C.r == 4 : B.r == 4 && B.c == 4 && C.r == 3;
    if(!ok) a.ex = SIZE_ERR;
    else {
      double mag = 0;
      auto row = [&](int j, int n, bool tr) { double t = 0, g = 0; for(int i = 0; i < n; ++i) { double q = getb(B, i, j) * C.get(i); t += q; g += std::fabs(q); } if(tr) { t += getb(B, n, j); g += std::fabs(getb(B, n, j)); } mag = std::max(mag, g); return t; };
      a.have_want = true;
      if(form < 2) a.want = u.mkv(d, 2, [&](int j) { return row(j, 2, form == 1); });
      else if(form < 4) a.want = u.mkv(d, 3, [&](int j) { return row(j, 3, form == 3); });
      else if(form == 4) a.want = u.mkv(d, 4, [&](int j) { return row(j, 4, false); });
      else {
        double w = row(3, 3, true); if(std::fabs(w) < 0.05) return;
        a.want = u.mkv(d, 3, [&](int j) { return row(j, 3, true) / w; });
        mag *= (1 + mag / std::fabs(w)) / std::min(1.0, std::fabs(w));
      }
      a.tol = RT * (1 + mag);
    }
    a.f = [&u, d, b, c, form] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        switch(form) {
          case 0: x = cml::transform_vector_2D(y, z); break;
          case 1: x = cml::transform_point_2D(y, z); break;
          case 2: x = cml::transform_vector(y, z); break;
          case 3: x = cml::transform_point(y, z); break;
          case 4: x = cml::transform_vector_4D(y, z); break;
          default: x = cml::transform_point_4D(y, z); break;
        }
      }); }); });
    };
    u.act(std::move(a));
  });
  def("build M: scale/translate/skew", 6, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), c = vs(s.c); int form = int(s.n % 11); const Val D = u.mod[d], C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d); a.tol = RT;
    bool two = form < 4;
    int n = two ? 2 : 3;
    bool ok = C.r == n && affine(D, n);
    if(form == 6 || form == 7) ok = (C.r == 2 || C.r == 3) && affine(D, 3);
    if(form == 8) ok = C.r == 3 && linear(D, 3);
    if(form == 9) ok = linear(D, 2);
    if(form == 10) ok = affine(D, 3);
    double y = num(s.v, 2);
    if(form == 1 || form == 5) for(double q : C.e) if(std::fabs(q) < 1e-2) return;
    if(!ok) a.ex = SIZE_ERR;
    else {
      a.have_want = true;
      Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return form == 3 || form == 7 ? D.get(i, j) : form == 8 || form == 9 ? 0 : i == j ? 1 : 0; });
      switch(form) {
        case 0: case 4: for(int i = 0; i < n; ++i) setb(w, i, i, C.get(i)); break;
        case 1: case 5: for(int i = 0; i < n; ++i) setb(w, i, i, 1 / C.get(i)); break;
        case 2: case 3: for(int i = 0; i < 2; ++i) setb(w, 2, i, C.get(i)); break;
        case 6: case 7: for(int i = 0; i < C.r; ++i) setb(w, 3, i, C.get(i)); break;
        case 8:
          setb(w, 1, 2, C.get(0)); setb(w, 2, 1, -C.get(0)); setb(w, 2, 0, C.get(1)); setb(w, 0, 2, -C.get(1)); setb(w, 0, 1, C.get(2)); setb(w, 1, 0, -C.get(2));
          break;
        case 9: setb(w, 0, 1, y); setb(w, 1, 0, -y); break;
        default: setb(w, 3, 0, y); setb(w, 3, 1, y + 1); break;
      }
      if((form == 6 || form == 7) && C.r == 2) w.known[size_t(w.at(CB ? 2 : 3, CB ? 3 : 2))] = 0;    // a 2D translation of a 3D transform: only x and y are documented
      a.want = w;
    }
    a.f = [&u, d, c, form, y] {
      u.with_mat(d, [&](auto& x) { u.with_vec(c, [&](auto& z) {
        switch(form) {
          case 0: cml::matrix_scale_2D(x, z); break;
          case 1: cml::matrix_inverse_scale_2D(x, z); break;
          case 2: cml::matrix_translation_2D(x, z); break;
          case 3: cml::matrix_set_translation_2D(x, z); break;
          case 4: cml::matrix_scale(x, z); break;
          case 5: cml::matrix_inverse_scale(x, z); break;
          case 6: cml::matrix_translation(x, z); break;
          case 7: cml::matrix_set_translation(x, z); break;
          case 8: cml::matrix_skew_symmetric(x, static_cast<const cml::readable_vector<std::decay_t<decltype(z)>>&>(z)); break;
          case 9: cml::matrix_skew_symmetric_2D(x, E(y)); break;
          default: cml::matrix_translation(x, E(y), E(y + 1)); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("build M from its own elements", 2, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    // the scalar arguments are references to elements of the matrix being built
    int d = ms(s.a); int form = int(s.n % 11); const Val D = u.mod[d];
    Act a; a.dst = d; a.owners = own(d); a.tol = RT;
    bool two = form == 0 || form == 3 || form == 4 || form == 9 || form == 10;
    if(form == 9 ? !linear(D, 2) : !affine(D, two ? 2 : 3)) { a.ex = SIZE_ERR; if(!D.size()) return; }
    else {
      int k = two ? 2 : 3; double g[3] = {getb(D, k, 0), getb(D, k, 1), two || form == 9 ? 0 : getb(D, k, 2)};
      bool keep = form == 4 || form == 6 || form == 8;
      a.have_want = true;
      Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return keep ? D.get(i, j) : form == 9 ? 0 : i == j ? 1 : 0; });
      switch(form) {
        case 0: setb(w, 0, 0, getb(D, 1, 1)); setb(w, 1, 1, getb(D, 0, 0)); break;
        case 1: for(int i = 0; i < 3; ++i) setb(w, i, i, getb(D, 2 - i, 2 - i)); break;
        case 2: for(int i = 0; i < 3; ++i) setb(w, i, i, getb(D, 0, 0)); break;
        case 3: setb(w, 2, 0, g[0]); setb(w, 2, 1, g[1]); break;
        case 4: setb(w, 2, 0, g[1]); setb(w, 2, 1, g[0]); break;
        case 5: for(int i = 0; i < 3; ++i) setb(w, 3, i, g[i]); break;
        case 6: setb(w, 3, 0, g[1]); setb(w, 3, 1, g[2]); setb(w, 3, 2, g[0]); break;
        case 7: setb(w, 3, 0, g[0]); setb(w, 3, 1, g[1]); break;
        case 8: setb(w, 3, 0, g[1]); setb(w, 3, 1, g[0]); setb(w, 3, 2, 0); break;
        case 9: setb(w, 0, 1, getb(D, 0, 1)); setb(w, 1, 0, -getb(D, 0, 1)); break;
        default: setb(w, 0, 0, getb(D, 1, 1)); setb(w, 1, 1, getb(D, 1, 1)); break;
      }
      a.want = w;
    }
    bool bad = a.ex == SIZE_ERR;
    a.f = [&u, d, form, bad] {
      u.with_mat(d, [&](auto& x) {
        auto e = [&](int i, int j) -> decltype(x(0, 0)) { return bad ? x(0, 0) : CB ? x(j, i) : x(i, j); };
        switch(form) {
          case 0: cml::matrix_scale_2D(x, e(1, 1), e(0, 0)); break;
          case 1: cml::matrix_scale(x, e(2, 2), e(1, 1), e(0, 0)); break;
          case 2: cml::matrix_uniform_scale(x, e(0, 0)); break;
          case 3: cml::matrix_translation_2D(x, e(2, 0), e(2, 1)); break;
          case 4: cml::matrix_set_translation_2D(x, e(2, 1), e(2, 0)); break;
          case 5: cml::matrix_translation(x, e(3, 0), e(3, 1), e(3, 2)); break;
          case 6: cml::matrix_set_translation(x, e(3, 1), e(3, 2), e(3, 0)); break;
          case 7: cml::matrix_translation(x, e(3, 0), e(3, 1)); break;
          case 8: cml::matrix_set_translation(x, e(3, 1), e(3, 0)); break;
          case 9: cml::matrix_skew_symmetric_2D(x, e(0, 1)); break;
          default: cml::matrix_uniform_scale_2D(x, e(1, 1)); break;
        }
      });
    };
    u.act(std::move(a));
  });
  def("build M: basis vectors", 5, OF_GEO | OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = vs(s.b), c = vs(s.c), e = vs(s.m); int form = int(s.n % 8); const Val D = u.mod[d], B = u.mod[b], C = u.mod[c], G = u.mod[e];
    bool three = form >= 4; bool tr = form & 1; bool all = form & 2; int n = three ? 3 : 2; int i = int(s.v & 0xffff) % n;
    Act a; a.dst = d; a.owners = own(d);
    bool ok = linear(D, n) && B.r == n && (!all || (C.r == n && (!three || G.r == n)));
    if(!ok) a.ex = SIZE_ERR;
    else {
      a.have_want = true; Val w = D;
      auto put = [&](int k, const Val& v) { for(int j = 0; j < n; ++j) if(tr) setb(w, j, k, v.get(j)); else setb(w, k, j, v.get(j)); };
      if(!all) put(i, B); else { put(0, B); put(1, C); if(three) put(2, G); }
      a.want = w;
    }
    a.f = [&u, d, b, c, e, form, i] {
      u.with_mat(d, [&](auto& x) { u.with_vec(b, [&](auto& p) { u.with_vec(c, [&](auto& q) {
        switch(form) {
          case 0: cml::matrix_set_basis_vector_2D(x, i, p); break;
          case 1: cml::matrix_set_transposed_basis_vector_2D(x, i, p); break;
          case 2: cml::matrix_set_basis_vectors_2D(x, p, q); break;
          case 3: cml::matrix_set_transposed_basis_vectors_2D(x, p, q); break;
          case 4: cml::matrix_set_basis_vector(x, i, p); break;
          case 5: cml::matrix_set_transposed_basis_vector(x, i, p); break;
          case 6: if(e < 3) cml::matrix_set_basis_vectors(x, p, q, *u.v[e]); else cml::matrix_set_basis_vectors(x, p, q, *u.w[e - 3]); break;
          default: if(e < 3) cml::matrix_set_transposed_basis_vectors(x, p, q, *u.v[e]); else cml::matrix_set_transposed_basis_vectors(x, p, q, *u.w[e - 3]); break;
        }
      }); }); });
    };
    u.act(std::move(a));
  });
  def("v=basis vector/translation of M", 4, OF_GEO | OF_SIZE | OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); int form = int(s.n % 7); const Val B = u.mod[b];
    int n = form < 3 ? 2 : 3; bool tr = form == 1 || form == 4; int i = int(s.v & 0xffff) % n;
    if(form == 6) { n = CB ? B.r : B.c; i = CB ? B.c : B.r; if(!n || !i) return; i = int(s.m) % i; }
    bool get_t = form == 2 || form == 5;
    Act a; a.dst = d; a.owners = own(d) | own(b);
    if(form != 6 && !(get_t ? affine(B, n) : linear(B, n))) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mkv(d, n, [&](int j) { return get_t ? getb(B, n, j) : tr ? getb(B, j, i) : getb(B, i, j); }); }
    a.f = [&u, d, b, form, i] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        switch(form) {
          case 0: x = cml::matrix_get_basis_vector_2D(y, i); break;
          case 1: x = cml::matrix_get_transposed_basis_vector_2D(y, i); break;
          case 2: x = cml::matrix_get_translation_2D(y); break;
          case 3: x = cml::matrix_get_basis_vector(y, i); break;
          case 4: x = cml::matrix_get_transposed_basis_vector(y, i); break;
          case 5: x = cml::matrix_get_translation(y); break;
          default: x = cml::matrix_get_basis_vector_nD(y, i); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("build M: rotation", 5, OF_GEO | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), c = vs(s.c); int form = int(s.n % 5); const Val D = u.mod[d], C = u.mod[c];
    double ang = num(s.v, 1) * 0.35, sn = std::sin(ang), cs = std::cos(ang);
    int ax = int((s.v >> 10) % 4); if(form == 1 && ax == 3 && s.v & 1) ax = -1;
    Act a; a.dst = d; a.owners = own(d); a.tol = RT;
    double mc = 0; for(double q : C.e) mc = std::max(mc, std::fabs(q));
    Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
    auto euler = [&](int n, int axis, double t) {
      // 3x3 rotation about one axis, row vectors
      std::array<double, 9> r{}; int j = (axis + 1) % 3, k = (axis + 2) % 3;
      r[size_t(axis * 4)] = 1; r[size_t(j * 4)] = std::cos(t); r[size_t(k * 4)] = std::cos(t); r[size_t(j * 3 + k)] = std::sin(t); r[size_t(k * 3 + j)] = -std::sin(t);
      (void) n; return r;
    };
    switch(form) {
      case 0:
        if(!linear(D, 2)) a.ex = SIZE_ERR; else { setb(w, 0, 0, cs); setb(w, 0, 1, sn); setb(w, 1, 0, -sn); setb(w, 1, 1, cs); }
        break;
      case 1: {
        if(!linear(D, 3)) a.ex = SIZE_ERR; else if(ax < 0 || ax > 2) a.ex = ARG_ERR;
        else { int j = (ax + 1) % 3, k = (ax + 2) % 3; setb(w, j, j, cs); setb(w, j, k, sn); setb(w, k, j, -sn); setb(w, k, k, cs); }
        break;
      }
      case 2:
        if(!linear(D, 3) || C.r != 3) a.ex = SIZE_ERR;
        else {
          for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
            int k = 3 - i - j;
            setb(w, i, j, C.get(i) * C.get(j) * (1 - cs) + (i == j ? cs : ((i + 1) % 3 == j ? 1 : -1) * sn * C.get(k)));
          }
          a.tol = RT * (1 + mc * mc);
        }
        break;
      case 3:
        if(!linear(D, 3) || C.r != 3) a.ex = SIZE_ERR;
        else {
          // xyz order: the product of the three rotations applied to row vectors
          auto X = euler(0, 0, C.get(0)), Y = euler(0, 1, C.get(1)), Z = euler(0, 2, C.get(2));
          auto mul = [](const std::array<double, 9>& p, const std::array<double, 9>& q) { std::array<double, 9> r{}; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) for(int k = 0; k < 3; ++k) r[size_t(i * 3 + j)] += p[size_t(i * 3 + k)] * q[size_t(k * 3 + j)]; return r; };
          auto R = mul(mul(X, Y), Z);
          for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) setb(w, i, j, R[size_t(i * 3 + j)]);
          a.tol = RT * (1 + mc);
        }
        break;
      default: {
        bool rep = (s.v >> 12) & 1;
        if(!linear(D, 3) || C.r != 3) a.ex = SIZE_ERR;
        else if(rep) a.ex = ARG_ERR;
        if(rep && a.ex == SIZE_ERR && linear(D, 3) != (C.r == 3)) a.ex = SIZE_ERR;
        ax = (s.v >> 12) & 1 ? 1 : 0;
      }
    }
    if(a.ex == OK && form != 4) { a.have_want = true; a.want = w; }
    a.f = [&u, d, c, form, ax, ang] {
      u.with_mat(d, [&](auto& x) { u.with_vec(c, [&](auto& z) {
        switch(form) {
          case 0: cml::matrix_rotation_2D(x, E(ang)); break;
          case 1: cml::matrix_rotation_world_axis(x, ax, E(ang)); break;
          case 2: cml::matrix_rotation_axis_angle(x, z, E(ang)); break;
          case 3: cml::matrix_rotation_euler(x, z, cml::euler_order_xyz); break;
          default: cml::matrix_rotation_euler_derivatives(x, 0, z, ax ? cml::euler_order_xyx : cml::euler_order_xyz); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("build M: align/look-at/affine", 6, OF_GEO | OF_SIZE | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = vs(s.b), c = vs(s.c), e = vs(s.m); int form = int(s.n % 5); const Val D = u.mod[d], B = u.mod[b], C = u.mod[c], G = u.mod[e];
    double ang = num(s.v, 1) * 0.35, sn = std::sin(ang), cs = std::cos(ang); bool nrm = s.v & 1, left = s.v & 2;
    Act a; a.dst = d; a.owners = own(d) | own(b) | own(c) | own(e) | mix2(b, c); a.tol = RT;
    using A3 = std::array<double, 3>;
    auto v3 = [](const Val& v) { return A3{{v.get(0), v.get(1), v.get(2)}}; };
    auto crs = [](const A3& p, const A3& q) { return A3{{p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]}}; };
    auto len = [](const A3& p) { return std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); };
    auto scl = [](const A3& p, double k) { return A3{{p[0] * k, p[1] * k, p[2] * k}}; };
    auto dt = [](const A3& p, const A3& q) { return p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; };
    double mb = 1, mc = 1; for(double q : B.e) mb = std::max(mb, std::fabs(q)); for(double q : C.e) mc = std::max(mc, std::fabs(q));
    Val w = u.mk(d, D.r, D.c, [&](int i, int j) { return i == j ? 1 : 0; });
    switch(form) {
      case 0:
        if(!linear(D, 2) || B.r != 2) a.ex = SIZE_ERR;
        else {
          double l = nrm ? norm(B) : 1; if(l < 0.05) return;
          double x = B.get(0) / l, y = B.get(1) / l;
          setb(w, 0, 0, x); setb(w, 0, 1, y); setb(w, 1, 0, -y); setb(w, 1, 1, x);
        }
        break;
      case 1:
        if(!linear(D, 3) || B.r != 3 || C.r != 3) a.ex = SIZE_ERR;
        else {
          // zyx: z is the aligned axis, x = cross(z, reference), y = cross(x, z); CML flips x for odd orders
          return;
        }
        break;
      case 2:
        if(!affine(D, 3) || B.r != 3 || C.r != 3 || G.r != 3) a.ex = SIZE_ERR;
        else {
          A3 p = v3(B), t = v3(C), up = v3(G), z = A3{{t[0] - p[0], t[1] - p[1], t[2] - p[2]}};
          double l = len(z); if(l < 0.05) return;
          z = scl(z, (left ? 1 : -1) / l);
          A3 x = crs(up, z); double lx = len(x), lu = len(up); if(lu < 0.05 || lx < 0.1 * lu) return;
          x = scl(x, 1 / lx); A3 y = crs(z, x);
          for(int j = 0; j < 3; ++j) { setb(w, j, 0, x[size_t(j)]); setb(w, j, 1, y[size_t(j)]); setb(w, j, 2, z[size_t(j)]); }
          setb(w, 3, 0, -dt(p, x)); setb(w, 3, 1, -dt(p, y)); setb(w, 3, 2, -dt(p, z));
          a.tol = RT * 10 * (1 + mb + mc) * (1 + (mb + mc) / l);
        }
        break;
      case 3:
        if(!affine(D, 3) || B.r != 3 || (C.r != 3 && C.r != 2)) { a.ex = SIZE_ERR; if(nrm && B.r && norm(B) < 1e-3) return; if(nrm && !B.r) a.ex = SIZE_ERR; }
        else {
          if(C.r == 2) return;
          double l = nrm ? norm(B) : 1; if(l < 0.05) return;
          A3 n = scl(v3(B), 1 / l);
          for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) {
            int k = 3 - i - j;
            setb(w, i, j, n[size_t(i)] * n[size_t(j)] * (1 - cs) + (i == j ? cs : ((i + 1) % 3 == j ? 1 : -1) * sn * n[size_t(k)]));
          }
          for(int j = 0; j < 3; ++j) setb(w, 3, j, C.get(j));
          a.tol = RT * (1 + (nrm ? 1 : mb * mb));
        }
        break;
      default: {
        // linear part taken from another matrix
        int q = ms(s.b); const Val L = u.mod[q];
        if(q == d) return;
        if(!affine(D, 3) || !linear(L, 3) || (C.r != 3 && C.r != 2)) a.ex = SIZE_ERR;
        else {
          if(C.r == 2) return;
          for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) setb(w, i, j, getb(L, i, j));
          for(int j = 0; j < 3; ++j) setb(w, 3, j, C.get(j));
        }
        b = q;
      }
    }
    if(a.ex == OK) { a.have_want = true; a.want = w; }
    a.f = [&u, d, b, c, e, form, ang, nrm, left] {
      u.with_mat(d, [&](auto& x) { u.with_vec(c, [&](auto& q) {
        if(form == 4) u.with_mat(b, [&](auto& l) { cml::matrix_affine_transform(x, l, q); });
        else u.with_vec(b, [&](auto& p) {
          switch(form) {
            case 0: cml::matrix_rotation_align_2D(x, p, nrm); break;
            case 1: cml::matrix_rotation_align(x, p, q, nrm); break;
            case 2:
              if(e < 3) { if(left) cml::matrix_look_at_LH(x, p, q, *u.v[e]); else cml::matrix_look_at_RH(x, p, q, *u.v[e]); }
              else { if(left) cml::matrix_look_at_LH(x, p, q, *u.w[e - 3]); else cml::matrix_look_at_RH(x, p, q, *u.w[e - 3]); }
              break;
            default: if(!nrm && left) cml::matrix_affine_transform(x, p, E(ang), q); else cml::matrix_affine_transform(x, p, E(ang), q, nrm); break;
          }
        });
      }); });
    };
    u.act(std::move(a));
  });
  def("M.invert_RT", 3, OF_GEO | OF_SIZE | OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a); int form = int(s.n % 3); const Val D = u.mod[d];
    Act a; a.dst = d; a.owners = own(d); a.tol = RT;
    int bc = CB ? D.c : D.r, bs = CB ? D.r : D.c;       // basis vectors, their size
    int n = form == 0 ? 2 : form == 1 ? 3 : bc == bs ? bc - 1 : bs;
    if(form < 2 ? !affine(D, n) : !(bc == bs || bc == bs + 1)) a.ex = SIZE_ERR;
    else if(n < 0) a.ex = ARG_ERR;      // the square affine form of a 0x0 matrix has no basis vector to invert
    else {
      double mag = 0;
      Val w = D;
      if(n >= 1) {
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) setb(w, i, j, getb(D, j, i));
        for(int i = 0; i < n; ++i) { double t = 0, g = 0; for(int j = 0; j < n; ++j) { double q = getb(D, i, j) * getb(D, n, j); t += q; g += std::fabs(q); } mag = std::max(mag, g); setb(w, n, i, -t); }
      }
      a.have_want = true; a.want = w; a.tol = RT * (1 + mag);
    }
    a.f = [&u, d, form] { u.with_mat(d, [&](auto& x) { if(form == 0) cml::matrix_invert_RT_only_2D(x); else if(form == 1) cml::matrix_invert_RT_only(x); else cml::matrix_invert_RT(x); }); };
    u.act(std::move(a));
  });
  def("lu_pivot", 4, OF_SIZE | OF_ALLOC | OF_HEAVY, [](U& u, const Step& s) {
    int b = ms(s.b); const Val B = u.mod[b]; bool again = s.m & 1;
    static double got; got = 0;
    Act a; a.scalar = true; a.got_s = &got; a.owners = own(b) | 1u << A_GLOBAL;
    double mx = 1;
    if(B.r != B.c) a.ex = SIZE_ERR;
    else {
      std::vector<double> inv; double cond;
      if(!B.r || B.r > 8 || !inverse(u.rowmajor(B), B.r, inv, cond) || cond > 1e3) return;
      for(double q : B.e) mx = std::max(mx, std::fabs(q));
    }
    a.want_s = 0; a.tol_s = 0.01;
    static double A0[64]; static int N; N = B.r == B.c ? B.r : 0;
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) A0[i * N + j] = B.get(i, j);
    double scale = mx * (std::is_same<E, float>::value ? 3e-3 : 1e-9);
    a.f = [&u, b, again, scale] {
      u.with_mat(b, [&](auto& y) {
        auto p = cml::lu_pivot(y);
        if(again) { decltype(p) q(y); cml::lu_pivot(q); if(q.lu != p.lu || q.order != p.order || q.sign != p.sign) { got = 9; return; } }
        // P A = L U, |L| <= 1, and the sign is that of the permutation
        NoLib nl;
        bool seen[8] = {}; int perm[8], sgn = 1;
        for(int i = 0; i < N; ++i) { int o = p.order[size_t(i)]; if(o < 0 || o >= N || seen[o]) { got = 5; return; } seen[o] = true; perm[i] = o; }
        for(int i = 0; i < N; ++i) while(perm[i] != i) { std::swap(perm[i], perm[perm[i]]); sgn = -sgn; }
        if(p.sign != sgn) { got = 6; return; }
        double err = 0;
        for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) {
          double t = 0;
          for(int k = 0; k <= std::min(i, j); ++k) t += (k == i ? 1 : to_d(p.lu(i, k))) * to_d(p.lu(k, j));
          err = std::max(err, std::fabs(t - A0[p.order[size_t(i)] * N + j]));
          if(j < i && std::fabs(to_d(p.lu(i, j))) > 1.0001) { got = 7; return; }
        }
        got = err > scale ? err / scale : 0;
      });
    };
    u.act(std::move(a));
  });
  def("v=to axis", 2, OF_SIZE | OF_ALLOC | OF_RESIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); const Val B = u.mod[b]; bool quat = s.m & 1; double ang = 0.4 + (s.v % 20) * 0.1; int ax = int((s.v >> 8) & 0xffff) % 3;
    Act a; a.dst = d; a.owners = own(d); a.tol = RT * 10;
    if(!quat && !linear(B, 3)) a.ex = SIZE_ERR;
    else if(!quat) return;
    else { a.have_want = true; a.want = u.mkv(d, 3, [&](int i) { return i == ax ? 1 : 0; }); }
    a.f = [&u, d, b, quat, ang, ax] {
      u.with_vec(d, [&](auto& x) {
        E t = 0;
        if(quat) {
          cml::quaternion<E, cml::fixed<>, cml::imaginary_first> q; cml::quaternion_rotation_world_axis(q, ax, E(ang));
          cml::quaternion_to_axis_angle(q, x, t, E(1e-6));
        }
        else u.with_mat(b, [&](auto& y) { cml::matrix_to_axis_angle(y, x, t, E(1e-6)); });
      });
    };
    u.act(std::move(a));
  });
  }
}

template void Univ<UNIV>::define_more();
}  // namespace dyn
