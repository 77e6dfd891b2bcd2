// Matrix operations of world "dyn".
#pragma once
namespace dyn {

UT void UU::define_mat()
{
  using U = UU;
  // ---------------------------------------------------------------- construction
  def("M=M(r,c)", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a), r = dimm(s.n), c = dimm(s.m);
    Act a; a.dst = d; a.have_want = true; a.want = u.empty_like(d); a.want.clear(r, c); a.owners = own(d);
    if(s.fault == F_BADSIZE) bad_shape(s.v, r, c, a.ex);
    a.f = [&u, d, r, c] { u.with_mat(d, [&](auto& x) { make_move(x, r, c); }); };
    u.act(std::move(a));
  });
  def("M=M(copy)", 5, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b);
    const Val B = u.mod[b];
    Act a; a.dst = d; a.have_want = true; a.want = u.mk(d, B.r, B.c, [&](int i, int j) { return B.get(i, j); }); a.owners = own(d);
    a.f = [&u, d, b] { u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { const auto& cy = y; make_move(x, cy); }); }); };
    u.act(std::move(a));
  });
  def("M=M(r,c,e...)", 4, OF_ALLOC | OF_SIZE, [](U& u, const Step& s) {
    // row-major elements; a wrong number of elements is a size error
    int d = ms(s.a); uint64_t v = s.v; int form = int(s.n % 4);
    static const int R[] = {1, 2, 1, 2}, C[] = {1, 2, 3, 3};
    int r = R[form], c = C[form]; bool wrong = s.m % 4 == 0;
    Act a; a.dst = d; a.owners = own(d);
    if(wrong) { if(s.m & 4) c++; else r++; a.ex = SIZE_ERR; }
    else { a.have_want = true; a.want = u.mk(d, r, c, [&](int i, int j) { return num(v, i * c + j); }); }
    a.f = [&u, d, r, c, v, form] {
      u.with_mat(d, [&](auto& x) {
        auto e = [&](int i) { return el(num(v, i)); };
        switch(form) {
          case 0: make_move(x, r, c, e(0)); break;
          case 1: make_move(x, r, c, e(0), e(1), e(2), e(3)); break;
          case 2: make_move(x, r, c, e(0), e(1), e(2)); break;
          default: make_move(x, r, c, e(0), e(1), e(2), e(3), e(4), e(5)); break;
        }
      });
    };
    u.act(std::move(a));
  });
  def("M=M(r,c,array)", 3, OF_ALLOC | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a); uint64_t v = s.v; bool wrong = s.m % 5 == 0; bool tall = s.n & 2;
    int r = tall ? 3 : 2, c = tall ? 2 : 3;
    Act a; a.dst = d; a.owners = own(d);
    if(wrong) { r++; a.ex = SIZE_ERR; }
    else { a.have_want = true; a.want = u.mk(d, r, c, [&](int i, int j) { return num(v, i * c + j); }); }
    a.f = [&u, d, r, c, v] {
      u.with_mat(d, [&](auto& x) {
        auto e = [&](int i) { return el(num(v, i)); };
        E q[6] = {e(0), e(1), e(2), e(3), e(4), e(5)};
        make_move(x, r, c, q);
      });
    };
    u.act(std::move(a));
  });
  def("M=M(array[R][C])", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a); uint64_t v = s.v; bool asg = s.n & 1, tall = s.n & 2;
    int r = tall ? 3 : 2, c = tall ? 2 : 3;
    Act a; a.dst = d; a.owners = own(d); a.have_want = true; a.want = u.mk(d, r, c, [&](int i, int j) { return num(v, i * c + j); });
    a.f = [&u, d, v, asg, tall] {
      u.with_mat(d, [&](auto& x) {
        auto e = [&](int i) { return el(num(v, i)); };
        if(tall) { E q[3][2] = {{e(0), e(1)}, {e(2), e(3)}, {e(4), e(5)}}; if(asg) x = q; else make_move(x, q); }
        else { E q[2][3] = {{e(0), e(1), e(2)}, {e(3), e(4), e(5)}}; if(asg) x = q; else make_move(x, q); }
      });
    };
    u.act(std::move(a));
  });
  def("M=M(ptr,r,c)", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a), r = dimm(s.n), c = dimm(s.m); uint64_t v = s.v; bool first = s.b & 1;
    Act a; a.dst = d; a.have_want = true; a.want = u.mk(d, r, c, [&](int i, int j) { return num(v, i * c + j); }); a.owners = own(d);
    std::vector<E>* e = new std::vector<E>(); for(int i = 0; i < r * c; ++i) e->push_back(el(num(v, i)));
    a.f = [&u, d, r, c, e, first] {
      u.with_mat(d, [&](auto& x) { const E* p = e->data(); if(first) make_move(x, p, r, c); else make_move(x, r, c, p); });
    };
    u.act(std::move(a));
    delete e;
  });
  def("M=M(expr)", 5, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); const Val B = u.mod[b], C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d);
    if(B.r != C.r || B.c != C.c) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mk(d, B.r, B.c, [&](int i, int j) { return B.get(i, j) + C.get(i, j); }); }
    a.f = [&u, d, b, c] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) { make_move(x, y + z); }); }); });
    };
    u.act(std::move(a));
  });
  def("M=fixed/view", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a), r = dimm(s.n), c = dimm(s.m); uint64_t v = s.v; int form = int(s.b % 4);
    if(form < 2) { r = 2; c = 3; }
    Act a; a.dst = d; a.have_want = true; a.owners = own(d);
    // a view reads its memory in its own layout
    bool vcm = form == 3;
    a.want = u.mk(d, r, c, [&](int i, int j) { return num(v, vcm ? j * r + i : i * c + j); });
    std::vector<E>* e = new std::vector<E>(); for(int i = 0; i < std::max(r * c, 6); ++i) e->push_back(el(num(v, i)));
    a.f = [&u, d, r, c, e, form] {
      u.with_mat(d, [&](auto& x) {
        if(form == 0 || form == 1) {
          auto& q = *e;
          cml::matrix<E, cml::fixed<2, 3>, BO, L2> f(q[0], q[1], q[2], q[3], q[4], q[5]);
          if(form == 0) x = f; else make_move(x, f);
        }
        else if(form == 2) { cml::matrix<E, cml::external<>, BO, cml::row_major> y(e->data(), r, c); x = y; }
        else { cml::matrix<CE, cml::external<>, BO, cml::col_major> y(e->data(), r, c); make_move(x, y); }
      });
    };
    u.act(std::move(a));
    delete e;
  });
  // ---------------------------------------------------------------- assignment
  def("M=N", 8, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b); const Val B = u.mod[b];
    Act a; a.dst = d; a.have_want = true; a.want = u.mk(d, B.r, B.c, [&](int i, int j) { return B.get(i, j); }); a.owners = own(d);
    a.f = [&u, d, b] { u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { const auto& cy = y; x = cy; }); }); };
    u.act(std::move(a));
  });
  def("M={list}", 4, OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a); uint64_t v = s.v; const Val D = u.mod[d]; int k = s.n & 1 ? 4 : 6; bool arr = s.m & 1;
    if(u.mod[d].size() == 2) k = 2;
    Act a; a.dst = d; a.owners = own(d);
    if(D.size() != k) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mk(d, D.r, D.c, [&](int i, int j) { return num(v, i * D.c + j); }); }
    a.f = [&u, d, k, v, arr] {
      u.with_mat(d, [&](auto& x) {
        auto e = [&](int i) { return el(num(v, i)); };
        if(k == 2) { if(arr) { E q[2] = {e(0), e(1)}; x = q; } else { std::initializer_list<E> l = {e(0), e(1)}; x = l; } }
        else if(k == 4) { if(arr) { E q[4] = {e(0), e(1), e(2), e(3)}; x = q; } else { std::initializer_list<E> l = {e(0), e(1), e(2), e(3)}; x = l; } }
        else { if(arr) { E q[6] = {e(0), e(1), e(2), e(3), e(4), e(5)}; x = q; } else { std::initializer_list<E> l = {e(0), e(1), e(2), e(3), e(4), e(5)}; x = l; } }
      });
    };
    u.act(std::move(a));
  });
  def("M=expr", 10, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); int form = int(s.n % 7); double k = nz(s.v, 3);
    if(TR && form == 6) form = 5;
    if(form == 4 && INT) form = 3;
    const Val B = u.mod[b], C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12;
    bool two = form == 0 || form == 1 || form == 6;
    if(two && (B.r != C.r || B.c != C.c)) a.ex = SIZE_ERR;
    else {
      a.have_want = true;
      a.want = u.mk(d, B.r, B.c, [&](int i, int j) {
        switch(form) {
          case 0: return B.get(i, j) + C.get(i, j);
          case 1: return B.get(i, j) - C.get(i, j);
          case 2: return B.get(i, j) * k;
          case 3: return k * B.get(i, j);
          case 4: return B.get(i, j) / k;
          case 5: return -B.get(i, j);
          default: return B.get(i, j) * C.get(i, j);
        }
      });
    }
    a.f = [&u, d, b, c, form, k] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        switch(form) {
          case 0: u.with_mat(c, [&](auto& z) { x = y + z; }); break;
          case 1: u.with_mat(c, [&](auto& z) { x = y - z; }); break;
          case 2: if constexpr(INT) x = y * int(k); else x = y * k; break;
          case 3: if constexpr(INT) x = int(k) * y; else x = k * y; break;
          case 4: x = y / k; break;
          case 5: x = -y; break;
          default: if constexpr(!TR) u.with_mat(c, [&](auto& z) { x = hadamard(y, z); }); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("M=(A+B)*k-C", 4, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c), e = ms(s.n); int k = 1 + int(s.v % 3);
    const Val B = u.mod[b], C = u.mod[c], G = u.mod[e];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12;
    if(B.r != C.r || B.r != G.r || B.c != C.c || B.c != G.c) a.ex = SIZE_ERR;
    else {
      double mag = 0; a.have_want = true;
      a.want = u.mk(d, B.r, B.c, [&](int i, int j) {
        mag = std::max(mag, (std::fabs(B.get(i, j)) + std::fabs(C.get(i, j))) * k + std::fabs(G.get(i, j)));
        return (B.get(i, j) + C.get(i, j)) * k - G.get(i, j);
      });
      a.tol = (std::is_same<E, float>::value ? 1e-6 : 1e-14) * (1 + mag);
    }
    a.f = [&u, d, b, c, e, k] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) {
        if(e < 8) x = (y + z) * k - *u.m[e - 5]; else x = (y + z) * k - *u.n[e - 8];
      }); }); });
    };
    u.act(std::move(a));
  });
  def("M=temporary expr", 4, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); int k = 1 + int(s.v % 3); bool tr = s.m & 1;
    const Val B = u.mod[b], C = u.mod[c];
    Act a; a.dst = d; a.tol = 1e-12; a.owners = own(d) | own(b);
    if(B.r != C.r || B.c != C.c) a.ex = SIZE_ERR;
    else if(tr) { a.have_want = true; a.want = u.mk(d, B.c, B.r, [&](int i, int j) { return (B.get(j, i) - C.get(j, i)) * k; }); }
    else { a.have_want = true; a.want = u.mk(d, B.r, B.c, [&](int i, int j) { return (B.get(i, j) - C.get(i, j)) * k; }); }
    a.f = [&u, d, b, c, k, tr] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) {
        using Y = std::decay_t<decltype(y)>;
        if(tr) x = ((Y(y) -= z) *= k).transpose(); else x = (Y(y) -= z) *= k;
      }); }); });
    };
    u.act(std::move(a));
  });
  def("M=transpose(A)", 5, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b); const Val B = u.mod[b]; bool temp = s.m & 1;
    if(d == b && !temp && B.r == B.c) return;     // reading and writing the same elements through a view is not a sequence operation
    Act a; a.dst = d; a.owners = own(d) | own(b); a.have_want = true;
    a.want = u.mk(d, B.c, B.r, [&](int i, int j) { return B.get(j, i); });
    a.f = [&u, d, b, temp] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
        using Y = std::decay_t<decltype(y)>;
        if(temp) x = transpose(Y(y)); else x = transpose(y);
      }); });
    };
    u.act(std::move(a));
  });
  def("M=outer(v,w)", 5, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = ms(s.a), b = vs(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c]; bool temp = s.m & 1;
    if(long(B.r) * long(C.r) > 1200) return;
    Act a; a.dst = d; a.owners = own(d) | own(b) | own(c); a.have_want = true; a.tol = 1e-12;
    a.want = u.mk(d, B.r, C.r, [&](int i, int j) { return B.get(i) * C.get(j); });
    a.f = [&u, d, b, c, temp] {
      u.with_mat(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        using Y = std::decay_t<decltype(y)>; using Z = std::decay_t<decltype(z)>;
        if(temp) x = outer(Y(y), Z(z)); else x = outer(y, z);
      }); }); });
    };
    u.act(std::move(a));
  });
  def("M=A*B", 8, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b), c = ms(s.c); const Val B = u.mod[b], C = u.mod[c]; bool chain = s.m % 3 == 0;
    if(colmajor(b) != colmajor(c)) return;      // the product of matrices of different layouts does not compile
    if(long(B.r) * C.c > 2400 || long(B.r) * C.c * B.c > 15000) return;
    Act a; a.dst = d; a.owners = own(d) | mix2(b, c);
    if(B.c != C.r) a.ex = SIZE_ERR;
    else {
      double mag = 0; a.have_want = true;
      a.want = u.mk(d, B.r, C.c, [&](int i, int j) {
        double t = 0, g = 0;
        for(int k = 0; k < B.c; ++k) { double q = B.get(i, k) * C.get(k, j); t += q; g += std::fabs(q); }
        mag = std::max(mag, g);
        return chain ? t * 2 : t;
      });
      a.tol = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * (1 + mag);
    }
    a.f = [&u, d, b, c, chain] {
      u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_mat(c, [&](auto& z) {
        using Y = typename std::decay_t<decltype(y)>::layout_tag; using Z = typename std::decay_t<decltype(z)>::layout_tag;
        if constexpr(std::is_same<Y, Z>::value) { if(chain) x = (y * z) * 2; else x = y * z; }
      }); }); });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- moves
  def("M=move(N)", 5, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = ms(s.a), b = second ? 8 + int(s.b % 2) : 5 + int(s.b % 3);
    Act a; a.dst = d; a.have_want = d != b; a.want = u.mod[b]; a.move = true; a.move_src = d != b ? b : -1; a.loose = {b};
    a.f = [&u, d, b, second] { if(second) *u.n[d - 8] = std::move(*u.n[b - 8]); else *u.m[d - 5] = std::move(*u.m[b - 5]); };
    bool deny = s.v & 1; if(deny) arm(F_ALLOC_ALL, 0);
    u.act(std::move(a));
  });
  def("M(move(N))", 5, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = ms(s.a), b = second ? 8 + int(s.b % 2) : 5 + int(s.b % 3);
    if(d == b) return;
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[b]; a.move = true; a.move_src = b; a.loose = {b};
    void* mem = caller_alloc(second ? sizeof(N) : sizeof(M), 16);
    M* oldm = second ? nullptr : u.m[d - 5]; N* oldn = second ? u.n[d - 8] : nullptr;
    a.f = [&u, d, b, second, mem] {
      if(second) { N* q = new(mem) N(std::move(*u.n[b - 8])); u.n[d - 8] = q; }
      else { M* q = new(mem) M(std::move(*u.m[b - 5])); u.m[d - 5] = q; }
    };
    bool deny = s.v & 1; if(deny) arm(F_ALLOC_ALL, 0);
    u.act(std::move(a));
    if(oldm && oldm != u.m[d - 5]) unbox(oldm);
    if(oldn && oldn != u.n[d - 8]) unbox(oldn);
  });
  def("swap(M,N)", 4, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = ms(s.a), b = second ? 8 + int(s.b % 2) : 5 + int(s.b % 3);
    if(d == b) return;
    Val other = u.mod[d];
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[b]; a.move = true; a.move_src = b; a.loose = {b};
    a.f = [&u, d, b, second] { using std::swap; if(second) swap(*u.n[d - 8], *u.n[b - 8]); else swap(*u.m[d - 5], *u.m[b - 5]); };
    bool deny = s.v & 1; if(deny) arm(F_ALLOC_ALL, 0);
    u.act(std::move(a));
    bool eq = u.mod[b].r == other.r && u.mod[b].c == other.c && u.mod[b].e == other.e;
    if(!eq) report("move:value", "swap did not put the other matrix's elements into %s", sname(b));
  });
  def("M=return by value", 4, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = ms(s.a), b = second ? 8 + int(s.b % 2) : 5 + int(s.b % 3), c = second ? 8 + int(s.c % 2) : 5 + int(s.c % 3);
    if(b == c || d == c) return;
    bool first = s.v & 2;
    if(d == b && !first) return;
    int src = first ? b : c;
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[src]; a.loose = {b, c};
    a.f = [&u, d, b, c, first, second] {
      if(second) *u.n[d - 8] = hand_over(*u.n[b - 8], *u.n[c - 8], first); else *u.m[d - 5] = hand_over(*u.m[b - 5], *u.m[c - 5], first);
    };
    arm(F_ALLOC_ALL, 0);
    const void* p = u.data(src);
    u.act(std::move(a));
    if(step_allocs()) report("move:allocated", "returning a matrix by value asked for memory %u times", step_allocs());
    if(p != u.data(d)) report("move:storage", "a matrix returned by value does not hold the original storage");
    mark_nontrivial();
  });
  // ---------------------------------------------------------------- resizing
  def("M.resize(r,c)", 12, OF_RESIZE | OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a), r = dimm(s.n), c = dimm(s.m);
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[d]; a.want.shape(r, c); a.resize = true; a.owners = own(d);
    if(s.fault == F_BADSIZE) bad_shape(s.v, r, c, a.ex);
    a.f = [&u, d, r, c] { u.with_mat(d, [&](auto& x) { x.resize(r, c); }); };
    u.act(std::move(a));
  });
  def("M.resize_fast(r,c)", 5, OF_RESIZE | OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a), r = dimm(s.n), c = dimm(s.m);
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[d];
    if(r * c == a.want.size()) a.want.shape(r, c); else a.want.clear(r, c);
    for(auto& k : a.want.known) k = 0;
    a.resize = true; a.owners = own(d);
    if(s.fault == F_BADSIZE) bad_shape(s.v, r, c, a.ex);
    a.f = [&u, d, r, c] { u.with_mat(d, [&](auto& x) { x.resize_fast(r, c); }); };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- elements
  def("M(i,j)=x", 4, 0, [](U& u, const Step& s) {
    int d = ms(s.a); const Val D = u.mod[d]; if(!D.size()) return;
    int i = int(s.n) % D.r, j = int(s.m) % D.c; double y = num(s.v, 0); int form = int(s.b % 4);
    int bi = i, bj = j; if(std::is_same<BO, cml::col_basis>::value) std::swap(bi, bj);
    Act a; a.dst = d; a.have_want = true; a.want = D; a.want.set(i, j, cast(y)); a.owners = own(d);
    a.f = [&u, d, i, j, bi, bj, y, form] {
      u.with_mat(d, [&](auto& x) {
        if(form == 0) x(i, j) = el(y); else if(form == 1) x.put(i, j, el(y)); else if(form == 2) x.get(i, j) = el(y); else x.set_basis_element(bi, bj, el(y));
      });
    };
    u.act(std::move(a));
  });
  def("M.set_row/col(v)", 4, OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = vs(s.b); const Val D = u.mod[d], B = u.mod[b]; bool col = s.c & 1;
    int lim = col ? D.c : D.r; if(!lim) return;
    int k = int(s.n) % lim;
    Act a; a.dst = d; a.owners = own(d);
    if((col ? D.r : D.c) != B.r) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = D; for(int i = 0; i < B.r; ++i) { if(col) a.want.set(i, k, cast(B.get(i))); else a.want.set(k, i, cast(B.get(i))); } }
    a.f = [&u, d, b, k, col] { u.with_mat(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { if(col) x.set_col(k, y); else x.set_row(k, y); }); }); };
    u.act(std::move(a));
  });
  def("M.fill/zero/identity", 4, 0, [](U& u, const Step& s) {
    int d = ms(s.a); const Val D = u.mod[d]; int form = int(s.b % 3); double y = num(s.v, 0);
    Act a; a.dst = d; a.have_want = true; a.owners = own(d);
    a.want = u.mk(d, D.r, D.c, [&](int i, int j) { return form == 0 ? y : form == 1 ? 0 : i == j ? 1 : 0; });
    a.f = [&u, d, y, form] { u.with_mat(d, [&](auto& x) { if(form == 0) x.fill(el(y)); else if(form == 1) x.zero(); else x.identity(); }); };
    u.act(std::move(a));
  });
  def("M+=N", 6, OF_SIZE, [](U& u, const Step& s) {
    int d = ms(s.a), b = ms(s.b); bool minus = s.m & 1; const Val D = u.mod[d], B = u.mod[b];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12;
    if(D.r != B.r || D.c != B.c) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mk(d, D.r, D.c, [&](int i, int j) { return minus ? D.get(i, j) - B.get(i, j) : D.get(i, j) + B.get(i, j); }); }
    a.f = [&u, d, b, minus] { u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { if(minus) x -= y; else x += y; }); }); };
    u.act(std::move(a));
  });
  def("M*=k", 4, 0, [](U& u, const Step& s) {
    int d = ms(s.a); bool div = (s.m & 1) && !INT; int k = 1 + int(s.v % 3); const Val D = u.mod[d];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12; a.have_want = true;
    a.want = u.mk(d, D.r, D.c, [&](int i, int j) { return div ? D.get(i, j) / k : D.get(i, j) * k; });
    a.f = [&u, d, div, k] { u.with_mat(d, [&](auto& x) { if(div) { if constexpr(!INT) x /= double(k); } else x *= k; }); };
    u.act(std::move(a));
  });
  if constexpr(!TR) def("M*=M(i,j)", 3, 0, [](U& u, const Step& s) {
    int d = ms(s.a); const Val D = u.mod[d]; if(!D.size()) return;
    int i = int(s.n) % D.r, j = int(s.m) % D.c; double k = D.get(i, j); bool div = (s.b & 1) && !INT && std::fabs(k) >= 1e-3;
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12; a.have_want = true;
    a.want = u.mk(d, D.r, D.c, [&](int p, int q) { return div ? D.get(p, q) / k : D.get(p, q) * k; });
    a.f = [&u, d, div, i, j] { u.with_mat(d, [&](auto& x) { if(div) { if constexpr(!INT) x /= x(i, j); } else x *= x(i, j); }); };
    u.act(std::move(a));
  });
  def("M.transpose()", 5, OF_ALLOC, [](U& u, const Step& s) {
    int d = ms(s.a); const Val D = u.mod[d];
    Act a; a.dst = d; a.owners = own(d); a.have_want = true; a.want = u.mk(d, D.c, D.r, [&](int i, int j) { return D.get(j, i); });
    a.f = [&u, d] { u.with_mat(d, [&](auto& x) { x.transpose(); }); };
    u.act(std::move(a));
  });
  def("trace", 2, OF_SIZE, [](U& u, const Step& s) {
    int b = ms(s.b); const Val B = u.mod[b];
    static double got; got = 0;
    Act a; a.scalar = true; a.got_s = &got; a.owners = own(b);
    double t = 0, g = 0;
    if(B.r != B.c) a.ex = SIZE_ERR;
    else for(int i = 0; i < B.r; ++i) { t += B.get(i, i); g += std::fabs(B.get(i, i)); }
    a.want_s = t; a.tol_s = 1e-5 * (1 + g);
    a.f = [&u, b] { u.with_mat(b, [&](auto& y) { got = to_d(E(cml::trace(y))); }); };
    u.act(std::move(a));
  });
  def("determinant", 3, OF_SIZE | OF_ALLOC, [](U& u, const Step& s) {
    int b = ms(s.b); const Val B = u.mod[b]; bool big = B.r > 4 || B.r == 1;
    if(big && !FP) { if(B.r == B.c) return; }
    if(B.r > 32 && B.r == B.c) return;
    static double got; got = 0;
    Act a; a.scalar = true; a.got_s = &got; a.owners = own(b) | (big ? 1u << A_GLOBAL : 0u);
    double g = 1;
    if(B.r != B.c) a.ex = SIZE_ERR;
    else {
      a.want_s = B.r ? det(u.rowmajor(B), B.r) : 1;
      for(int i = 0; i < B.r; ++i) { double h = 0; for(int j = 0; j < B.c; ++j) h += std::fabs(B.get(i, j)); g *= h; }
      // elimination loses accuracy on badly conditioned matrices; those are outside this check
      if(big && B.r > 1) {
        std::vector<double> inv; double cond;
        if(!inverse(u.rowmajor(B), B.r, inv, cond) || cond > 1e3) return;
      }
    }
    if(INT && a.ex == OK && g > 1e9) return;      // may overflow
    a.tol_s = (std::is_same<E, float>::value ? 1e-5 : 1e-11) * (1 + g);
    a.f = [&u, b] {
      u.with_mat(b, [&](auto& y) {
        if constexpr(FP) got = to_d(E(cml::determinant(y)));
        else if(y.rows() != y.cols() || y.rows() <= 4) got = small_det(y);
      });
    };
    u.act(std::move(a));
  });
  if constexpr(FP) {
    def("M.inverse", 5, OF_SIZE | OF_ALLOC | OF_HEAVY, [](U& u, const Step& s) {
      int d = ms(s.a), b = ms(s.b); int form = int(s.c % 3); if(form == 0) b = d;
      const Val B = u.mod[b];
      Act a; a.dst = d; a.owners = own(d) | own(b) | (B.r > 4 || B.r <= 1 ? 1u << A_GLOBAL : 0u);
      if(B.r != B.c) a.ex = SIZE_ERR;
      else {
        std::vector<double> inv; double cond;
        if(!B.r || B.r > 32) return;
        if(!inverse(u.rowmajor(B), B.r, inv, cond) || cond > 1e3) return;
        a.tol = cond * (std::is_same<E, float>::value ? 1e-5 : 1e-12);
        a.have_want = true; a.want = u.mk(d, B.r, B.c, [&](int i, int j) { return inv[size_t(i * B.c + j)]; });
      }
      a.f = [&u, d, b, form] {
        u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) {
          using Y = std::decay_t<decltype(y)>;
          if(form == 0) x.inverse(); else if(form == 1) x = cml::inverse(y); else x = Y(y).inverse();
        }); });
      };
      u.act(std::move(a));
    });
    def("M=good matrix", 8, OF_ALLOC, [](U& u, const Step& s) {
      // a well conditioned square matrix: rows of a diagonally dominant one in a random order, random signs
      int d = ms(s.a), n = s.n >= 60 ? 7 + int(s.n % 5) : 1 + int(s.n % 6); uint64_t v = s.v;
      std::vector<int> p; for(int i = 0; i < n; ++i) p.push_back(i);
      for(int i = n - 1; i > 0; --i) std::swap(p[size_t(i)], p[size_t(mix(v, uint64_t(100 + i)) % uint64_t(i + 1))]);
      std::vector<E>* e = new std::vector<E>();
      for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) {
        double x = num(v, i * n + j) * 0.25;
        if(p[size_t(i)] == j) x = (mix(v, uint64_t(200 + i)) & 1 ? -1 : 1) * (4 + std::fabs(x) + n);
        e->push_back(el(x));
      }
      Act a; a.dst = d; a.owners = own(d); a.have_want = true;
      a.want = u.mk(d, n, n, [&](int i, int j) { return to_d((*e)[size_t(i * n + j)]); });
      a.f = [&u, d, n, e] { u.with_mat(d, [&](auto& x) { const E* q = e->data(); make_move(x, n, n, q); }); };
      u.act(std::move(a));
      delete e;
    });
    def("M=lu(A)", 3, OF_SIZE | OF_ALLOC | OF_HEAVY, [](U& u, const Step& s) {
      int d = ms(s.a), b = ms(s.b); const Val B = u.mod[b];
      Act a; a.dst = d; a.owners = own(d) | own(b); a.tol = std::is_same<E, float>::value ? 3e-3 : 1e-9;
      std::vector<double> lu;
      if(B.r != B.c) a.ex = SIZE_ERR;
      else {
        if(B.r > 32 || !lu_np(u.rowmajor(B), B.r, lu)) return;
        a.have_want = true; a.want = u.mk(d, B.r, B.c, [&](int i, int j) { return lu[size_t(i * B.c + j)]; });
      }
      a.f = [&u, d, b] { u.with_mat(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { x = cml::lu(y); }); }); };
      u.act(std::move(a));
    });
    def("v=lu_solve(A,b)", 5, OF_SIZE | OF_ALLOC | OF_HEAVY, [](U& u, const Step& s) {
      int d = vs(s.a), b = ms(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c]; bool piv = s.m & 1, inplace = s.n & 1;
      if(inplace) d = c;
      if(B.r > 32 && B.r == B.c) return;
      Act a; a.dst = d; a.owners = own(d) | own(b) | own(c) | (piv ? 1u << A_GLOBAL : 0u);
      std::vector<double> inv, lu; double cond = 1;
      if(B.r != B.c || B.r != C.r) { a.ex = SIZE_ERR; if(B.r == B.c && B.r && !inverse(u.rowmajor(B), B.r, inv, cond)) return; if(!B.r) return; }
      else {
        if(!B.r || !inverse(u.rowmajor(B), B.r, inv, cond) || cond > 1e3) return;
        if(!piv && !lu_np(u.rowmajor(B), B.r, lu)) return;
        double g = 0; for(double q : C.e) g = std::max(g, std::fabs(q));
        a.tol = (std::is_same<E, float>::value ? 1e-3 : 1e-9) * cond * (1 + g);
        a.have_want = true;
        a.want = u.mkv(d, B.r, [&](int i) { double t = 0; for(int k = 0; k < B.r; ++k) t += inv[size_t(i * B.r + k)] * C.get(k); return t; });
      }
      a.f = [&u, d, b, c, piv, inplace] {
        u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
          if(piv) { auto p = cml::lu_pivot(y); if(inplace) cml::lu_solve(p, z, z); else x = cml::lu_solve(p, z); }
          else { auto p = cml::lu(y); if(inplace) cml::lu_solve(p, z, z); else x = cml::lu_solve(p, z); }
        }); }); });
      };
      u.act(std::move(a));
    });
    // the decomposition of a singular matrix is rejected, and the destination is as it was
    def("lu_solve(singular)", 2, OF_SIZE | OF_ALLOC | OF_HEAVY, [](U& u, const Step& s) {
      int d = vs(s.a), b = ms(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c], D = u.mod[d]; int form = int(s.n % 3);
      if(form == 1) d = c;
      if(B.r != B.c || B.r < 2 || B.r > 32 || C.r != B.r || (form == 0 && D.r != B.r)) return;
      Act a; a.dst = d; a.owners = own(d) | own(b) | own(c) | 1u << A_GLOBAL; a.ex = ARG_ERR;
      int col = int(s.v % uint64_t(B.r - 1));
      a.f = [&u, d, b, c, form, col] {
        u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
          std::decay_t<decltype(y)> t(y);
          for(int i = 0; i < t.rows(); ++i) for(int j = 0; j < t.cols(); ++j) t(i, j) = E(j == col ? 0 : i == j ? 2 : 0);
          auto p = cml::lu_pivot(t);
          if(form == 0) cml::lu_solve(p, x, z); else if(form == 1) cml::lu_solve(p, z, z); else x = cml::lu_solve(p, z);
        }); }); });
      };
      u.act(std::move(a));
    });
  }
}

}  // namespace dyn
