// Vector operations of world "dyn".
#pragma once
namespace dyn {

UT void UU::define_vec()
{
  using U = UU;
  // ---------------------------------------------------------------- construction (temporary, then moved into the slot)
  def("v=V(n)", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), n = dimv(s.n);
    Act a; a.dst = d; a.have_want = true; a.want = u.empty_like(d); a.want.clear(n, 1); a.owners = own(d);
    if(s.fault == F_BADSIZE) { n = (s.v & 1) ? -1 - int(s.v % 1000) : 2147483647 - int(s.v % 7); a.ex = n < 0 ? ARG_ERR : BAD_SIZE; }
    a.f = [&u, d, n] { u.with_vec(d, [&](auto& x) { using D = std::decay_t<decltype(x)>; make_move(x, n); }); };
    u.act(std::move(a));
  });
  def("v=V(copy)", 5, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b);
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, u.mod[b].r, [&](int i) { return u.mod[b].get(i); });
    a.owners = own(d);
    a.f = [&u, d, b] { u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { const auto& cy = y; make_move(x, cy); }); }); };
    u.act(std::move(a));
  });
  def("v=V(e...)", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), k = 2 + int(s.n % 4);
    if(d >= 0 && k == 2 && INT) k = 3;   // two integers could be read as (size, pointer)-like forms; keep to element lists
    uint64_t v = s.v;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, k, [&](int i) { return num(v, i); }); a.owners = own(d);
    a.f = [&u, d, k, v] {
      u.with_vec(d, [&](auto& x) {
        switch(k) {
          case 2: make_move(x, el(num(v, 0)), el(num(v, 1))); break;
          case 3: make_move(x, el(num(v, 0)), el(num(v, 1)), el(num(v, 2))); break;
          case 4: make_move(x, el(num(v, 0)), el(num(v, 1)), el(num(v, 2)), el(num(v, 3))); break;
          default: make_move(x, el(num(v, 0)), el(num(v, 1)), el(num(v, 2)), el(num(v, 3)), el(num(v, 4))); break;
        }
      });
    };
    u.act(std::move(a));
  });
  def("v=V({list})", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), k = int(s.n % 4);
    uint64_t v = s.v;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, k, [&](int i) { return num(v, i); }); a.owners = own(d);
    a.f = [&u, d, k, v] {
      u.with_vec(d, [&](auto& x) {
        using D = std::decay_t<decltype(x)>;
        if(k == 0) { std::initializer_list<E> l; D t(l); x = std::move(t); }
        else if(k == 1) { std::initializer_list<E> l = {el(num(v, 0))}; D t(l); x = std::move(t); }
        else if(k == 2) { std::initializer_list<E> l = {el(num(v, 0)), el(num(v, 1))}; D t(l); x = std::move(t); }
        else { std::initializer_list<E> l = {el(num(v, 0)), el(num(v, 1)), el(num(v, 2))}; D t(l); x = std::move(t); }
      });
    };
    u.act(std::move(a));
  });
  def("v=V(array)", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), k = int(s.n % 3);
    uint64_t v = s.v;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, k == 0 ? 3 : 4, [&](int i) { return num(v, i); }); a.owners = own(d);
    a.f = [&u, d, k, v] {
      u.with_vec(d, [&](auto& x) {
        if(k == 0) { E e[3] = {el(num(v, 0)), el(num(v, 1)), el(num(v, 2))}; make_move(x, e); }
        else { E e[4] = {el(num(v, 0)), el(num(v, 1)), el(num(v, 2)), el(num(v, 3))}; if(k == 1) make_move(x, e); else x = e; }
      });
    };
    u.act(std::move(a));
  });
  def("v=V(ptr,n)", 4, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), n = dimv(s.n);
    uint64_t v = s.v;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, n, [&](int i) { return num(v, i); }); a.owners = own(d);
    std::vector<E>* e = new std::vector<E>(); for(int i = 0; i < n; ++i) e->push_back(el(num(v, i)));
    bool first = s.m & 1;
    a.f = [&u, d, n, e, first] {
      u.with_vec(d, [&](auto& x) { const E* p = e->data(); if(first) make_move(x, p, n); else make_move(x, n, p); });
    };
    u.act(std::move(a));
    delete e;
  });
  def("v=V(w,e...)", 3, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), k = 1 + int(s.n % 2);
    uint64_t v = s.v; int nb = u.mod[b].r;
    Act a; a.dst = d; a.have_want = true; a.owners = own(d);
    a.want = u.mkv(d, nb + k, [&](int i) { return i < nb ? u.mod[b].get(i) : num(v, i - nb); });
    a.f = [&u, d, b, k, v] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) {
        if(k == 1) make_move(x, y, el(num(v, 0))); else make_move(x, y, el(num(v, 0)), el(num(v, 1)));
      }); });
    };
    u.act(std::move(a));
  });
  def("v=V(a+b)", 4, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c);
    Act a; a.dst = d; a.owners = own(d);
    if(u.mod[b].r != u.mod[c].r) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mkv(d, u.mod[b].r, [&](int i) { return u.mod[b].get(i) + u.mod[c].get(i); }); }
    a.f = [&u, d, b, c] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) { make_move(x, y + z); }); }); });
    };
    u.act(std::move(a));
  });
  def("v=V(fixed)", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a); uint64_t v = s.v; bool asg = s.n & 1;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, 3, [&](int i) { return num(v, i); }); a.owners = own(d);
    a.f = [&u, d, v, asg] {
      u.with_vec(d, [&](auto& x) {
        cml::vector<E, cml::fixed<3>> f(el(num(v, 0)), el(num(v, 1)), el(num(v, 2)));
        if(asg) x = f; else make_move(x, f);
      });
    };
    u.act(std::move(a));
  });
  def("v=view", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), n = dimv(s.n); uint64_t v = s.v; int form = int(s.m % 3);
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, form == 2 ? 4 : n, [&](int i) { return num(v, i); }); a.owners = own(d);
    std::vector<E>* e = new std::vector<E>(); for(int i = 0; i < std::max(n, 4); ++i) e->push_back(el(num(v, i)));
    a.f = [&u, d, n, e, form] {
      u.with_vec(d, [&](auto& x) {
        if(form == 0) { cml::vector<E, cml::external<>> y(e->data(), n); x = y; }
        else if(form == 1) { cml::vector<CE, cml::external<>> y(e->data(), n); make_move(x, y); }
        else { cml::vector<E, cml::external<4>> y(e->data()); x = y; }
      });
    };
    u.act(std::move(a));
    delete e;
  });
  // ---------------------------------------------------------------- assignment
  def("v=w", 8, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b);
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, u.mod[b].r, [&](int i) { return u.mod[b].get(i); }); a.owners = own(d);
    a.f = [&u, d, b] { u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { const auto& cy = y; x = cy; }); }); };
    u.act(std::move(a));
  });
  def("v={list}", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), k = 1 + int(s.n % 3); uint64_t v = s.v;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, k, [&](int i) { return num(v, i); }); a.owners = own(d);
    a.f = [&u, d, k, v] {
      u.with_vec(d, [&](auto& x) {
        if(k == 1) x = {el(num(v, 0))};
        else if(k == 2) x = {el(num(v, 0)), el(num(v, 1))};
        else x = {el(num(v, 0)), el(num(v, 1)), el(num(v, 2))};
      });
    };
    u.act(std::move(a));
  });
  def("v.set(...)", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), k = 1 + int(s.n % 4); uint64_t v = s.v;
    Act a; a.dst = d; a.have_want = true; a.want = u.mkv(d, k, [&](int i) { return num(v, i); }); a.owners = own(d);
    a.f = [&u, d, k, v] {
      u.with_vec(d, [&](auto& x) {
        if(k == 1) x.set(el(num(v, 0)));
        else if(k == 2) x.set(el(num(v, 0)), el(num(v, 1)));
        else if(k == 3) x.set(el(num(v, 0)), el(num(v, 1)), el(num(v, 2)));
        else x.set(el(num(v, 0)), el(num(v, 1)), el(num(v, 2)), el(num(v, 3)));
      });
    };
    u.act(std::move(a));
  });
  def("v=expr", 10, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); int form = int(s.n % 7); double k = nz(s.v, 3);
    if(TR && form == 6) form = 5;
    const Val &B = u.mod[b], &C = u.mod[c];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12;
    bool two = form == 0 || form == 1 || form == 6;
    if(form == 4 && INT) form = 3;
    if(two && B.r != C.r) a.ex = SIZE_ERR;
    else {
      a.have_want = true;
      a.want = u.mkv(d, B.r, [&](int i) {
        switch(form) {
          case 0: return B.get(i) + C.get(i);
          case 1: return B.get(i) - C.get(i);
          case 2: return B.get(i) * k;
          case 3: return k * B.get(i);
          case 4: return B.get(i) / k;
          case 5: return -B.get(i);
          default: return B.get(i) * C.get(i);
        }
      });
    }
    a.f = [&u, d, b, c, form, k] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) {
        switch(form) {
          case 0: u.with_vec(c, [&](auto& z) { x = y + z; }); break;
          case 1: u.with_vec(c, [&](auto& z) { x = y - z; }); break;
          case 2: if constexpr(INT) x = y * int(k); else x = y * k; break;
          case 3: if constexpr(INT) x = int(k) * y; else x = k * y; break;
          case 4: x = y / k; break;
          case 5: x = -y; break;
          default: if constexpr(!TR) u.with_vec(c, [&](auto& z) { x = hadamard(y, z); }); break;
        }
      }); });
    };
    u.act(std::move(a));
  });
  def("v=(a+b)*k-c", 4, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c), e = vs(s.n); int k = 1 + int(s.v % 3);
    const Val &B = u.mod[b], &C = u.mod[c], &G = u.mod[e];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12;
    if(B.r != C.r || B.r != G.r) a.ex = SIZE_ERR;
    else {
      double mag = 0; a.have_want = true;
      a.want = u.mkv(d, B.r, [&](int i) { mag = std::max(mag, (std::fabs(B.get(i)) + std::fabs(C.get(i))) * k + std::fabs(G.get(i))); return (B.get(i) + C.get(i)) * k - G.get(i); });
      a.tol = (std::is_same<E, float>::value ? 1e-6 : 1e-14) * (1 + mag);
    }
    a.f = [&u, d, b, c, e, k] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        if(e < 3) x = (y + z) * k - *u.v[e]; else x = (y + z) * k - *u.w[e - 3];
      }); }); });
    };
    u.act(std::move(a));
  });
  def("v=temporary expr", 4, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    // chained operations on rvalues
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); int k = 1 + int(s.v % 3);
    const Val &B = u.mod[b], &C = u.mod[c];
    Act a; a.dst = d; a.tol = 1e-12; a.owners = own(d) | own(b);
    if(B.r != C.r) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mkv(d, B.r, [&](int i) { return (B.get(i) + C.get(i)) * k; }); }
    a.f = [&u, d, b, c, k] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        using Y = std::decay_t<decltype(y)>;
        x = (Y(y) += z) *= k;
      }); }); });
    };
    u.act(std::move(a));
  });
  def("v=subvector", 3, OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b); int nb = u.mod[b].r;
    if(nb < 2) return;
    int k = int(s.n) % nb; const Val B = u.mod[b];
    Act a; a.dst = d; a.owners = own(d); a.have_want = true;
    a.want = u.mkv(d, nb - 1, [&](int i) { return B.get(i < k ? i : i + 1); });
    a.f = [&u, d, b, k] { u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { x = y.subvector(k); }); }); };
    u.act(std::move(a));
  });
  def("v=row/col(M)", 4, OF_ALLOC | OF_CROSS, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b); const Val B = u.mod[b]; bool col = s.m & 1;
    int k = col ? B.c : B.r; if(k == 0) return;
    k = int(s.n) % k;
    Act a; a.dst = d; a.owners = own(d); a.have_want = true;
    a.want = u.mkv(d, col ? B.r : B.c, [&](int i) { return col ? B.get(i, k) : B.get(k, i); });
    a.f = [&u, d, b, k, col] { u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { if(col) x = cml::col(y, k); else x = cml::row(y, k); }); }); };
    u.act(std::move(a));
  });
  def("v=cross", 3, OF_GEO | OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c];
    if(d == b || d == c) return;        // in-place cross product of an object with itself is not a sequence operation
    Act a; a.dst = d; a.owners = own(d) | own(b) | own(c); a.tol = 1e-9;
    bool temps = s.m % 3 == 0;          // operands are temporaries
    if(B.r != 3 || C.r != 3) a.ex = SIZE_ERR;
    else {
      a.have_want = true;
      a.want = u.mkv(d, 3, [&](int i) { int j = (i + 1) % 3, k = (i + 2) % 3; return B.get(j) * C.get(k) - B.get(k) * C.get(j); });
      double mx = 0; for(double q : B.e) mx = std::max(mx, std::fabs(q)); double my = 0; for(double q : C.e) my = std::max(my, std::fabs(q));
      a.tol = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * (1 + mx * my);
    }
    a.f = [&u, d, b, c, temps] {
      u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) {
        using Y = std::decay_t<decltype(y)>; using Z = std::decay_t<decltype(z)>;
        if(temps) x = cross(Y(y), Z(z)); else x = cross(y, z);
      }); }); });
    };
    u.act(std::move(a));
  });
  def("v=M*v", 4, OF_ALLOC | OF_CROSS | OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = ms(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c]; bool left = s.m & 1;
    Act a; a.dst = d; a.owners = own(d) | own(c);      // the product of a matrix and a vector uses the vector's allocator
    int inner = left ? B.r : B.c;
    if(inner != C.r) a.ex = SIZE_ERR;
    else {
      double mag = 0;
      a.have_want = true;
      a.want = u.mkv(d, left ? B.c : B.r, [&](int i) {
        double t = 0, g = 0;
        for(int k = 0; k < inner; ++k) { double q = left ? C.get(k) * B.get(k, i) : B.get(i, k) * C.get(k); t += q; g += std::fabs(q); }
        mag = std::max(mag, g);
        return t;
      });
      a.tol = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * (1 + mag);
    }
    a.f = [&u, d, b, c, left] {
      u.with_vec(d, [&](auto& x) { u.with_mat(b, [&](auto& y) { u.with_vec(c, [&](auto& z) { if(left) x = z * y; else x = y * z; }); }); });
    };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- moves
  def("v=move(w)", 5, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = vs(s.a), b = second ? 3 + int(s.b % 2) : int(s.b % 3);
    Act a; a.dst = d; a.have_want = d != b; a.want = u.mod[b]; a.move = true; a.move_src = d != b ? b : -1; a.loose = {b};
    a.f = [&u, d, b, second] { if(second) *u.w[d - 3] = std::move(*u.w[b - 3]); else *u.v[d] = std::move(*u.v[b]); };
    bool deny = s.v & 1; if(deny) arm(F_ALLOC_ALL, 0);
    u.act(std::move(a));
  });
  def("V(move(w))", 5, OF_MOVE, [](U& u, const Step& s) {
    // the slot d is replaced by a new object constructed from the moved slot b
    bool second = s.a % 5 >= 3;
    int d = vs(s.a), b = second ? 3 + int(s.b % 2) : int(s.b % 3);
    if(d == b) return;
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[b]; a.move = true; a.move_src = b; a.loose = {b};
    void* mem = caller_alloc(second ? sizeof(W) : sizeof(V), 16);
    V* oldv = second ? nullptr : u.v[d]; W* oldw = second ? u.w[d - 3] : nullptr;
    a.f = [&u, d, b, second, mem] {
      if(second) { W* q = new(mem) W(std::move(*u.w[b - 3])); u.w[d - 3] = q; }
      else { V* q = new(mem) V(std::move(*u.v[b])); u.v[d] = q; }
    };
    bool deny = s.v & 1; if(deny) arm(F_ALLOC_ALL, 0);
    u.act(std::move(a));
    if(oldv && oldv != u.v[d]) unbox(oldv);
    if(oldw && oldw != u.w[d - 3]) unbox(oldw);
  });
  def("swap(v,w)", 4, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = vs(s.a), b = second ? 3 + int(s.b % 2) : int(s.b % 3);
    if(d == b) return;
    Val other = u.mod[d];
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[b]; a.move = true; a.move_src = b; a.loose = {b};
    a.f = [&u, d, b, second] { using std::swap; if(second) swap(*u.w[d - 3], *u.w[b - 3]); else swap(*u.v[d], *u.v[b]); };
    bool deny = s.v & 1; if(deny) arm(F_ALLOC_ALL, 0);
    u.act(std::move(a));
    bool eq = u.mod[b].r == other.r && u.mod[b].e == other.e;
    if(!eq) report("move:value", "swap did not put the other vector's elements into %s", sname(b));
  });
  def("v=return by value", 4, OF_MOVE, [](U& u, const Step& s) {
    bool second = s.a % 5 >= 3;
    int d = vs(s.a), b = second ? 3 + int(s.b % 2) : int(s.b % 3), c = second ? 3 + int(s.c % 2) : int(s.c % 3);
    if(b == c || d == c) return;
    bool first = s.v & 2;
    if(d == b && !first) return;
    int src = first ? b : c;
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[src]; a.loose = {b, c};
    // the unused argument is destroyed with its elements, so only memory and failure are checked here
    a.f = [&u, d, b, c, first, second] {
      if(second) *u.w[d - 3] = hand_over(*u.w[b - 3], *u.w[c - 3], first); else *u.v[d] = hand_over(*u.v[b], *u.v[c], first);
    };
    arm(F_ALLOC_ALL, 0);
    const void* p = u.data(src);
    u.act(std::move(a));
    if(step_allocs()) report("move:allocated", "returning a vector by value asked for memory %u times", step_allocs());
    if(p != u.data(d)) report("move:storage", "a vector returned by value does not hold the original storage");
    mark_nontrivial();
  });
  // ---------------------------------------------------------------- resizing
  def("v.resize(n)", 12, OF_RESIZE | OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), n = dimv(s.n);
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[d]; a.want.shape(n, 1); a.resize = true; a.owners = own(d);
    if(s.fault == F_BADSIZE) { n = (s.v & 1) ? -1 - int(s.v % 1000) : 2147483647 - int(s.v % 7); a.ex = n < 0 ? ARG_ERR : BAD_SIZE; }
    a.f = [&u, d, n] { u.with_vec(d, [&](auto& x) { x.resize(n); }); };
    u.act(std::move(a));
  });
  def("v.resize_fast(n)", 5, OF_RESIZE | OF_ALLOC, [](U& u, const Step& s) {
    int d = vs(s.a), n = dimv(s.n);
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[d];
    if(n != a.want.r) a.want.clear(n, 1);
    a.resize = true; a.owners = own(d);
    if(s.fault == F_BADSIZE) { n = (s.v & 1) ? -1 - int(s.v % 1000) : 2147483647 - int(s.v % 7); a.ex = n < 0 ? ARG_ERR : BAD_SIZE; }
    a.f = [&u, d, n] { u.with_vec(d, [&](auto& x) { x.resize_fast(n); }); };
    u.act(std::move(a));
  });
  // ---------------------------------------------------------------- elements
  def("v[i]=x", 3, 0, [](U& u, const Step& s) {
    int d = vs(s.a); int nd = u.mod[d].r; if(!nd) return;
    int i = int(s.n) % nd; double y = num(s.v, 0); int form = int(s.m % 3);
    Act a; a.dst = d; a.have_want = true; a.want = u.mod[d]; a.want.set(i, 0, cast(y)); a.owners = own(d);
    a.f = [&u, d, i, y, form] { u.with_vec(d, [&](auto& x) { if(form == 0) x[i] = el(y); else if(form == 1) x.put(i, el(y)); else x.get(i) = el(y); }); };
    u.act(std::move(a));
  });
  def("v.fill/zero/cardinal", 3, 0, [](U& u, const Step& s) {
    int d = vs(s.a); int nd = u.mod[d].r; int form = int(s.m % 3); if(form == 2 && !nd) return;
    int i = nd ? int(s.n) % nd : 0; double y = num(s.v, 0);
    Act a; a.dst = d; a.have_want = true; a.owners = own(d);
    a.want = u.mkv(d, nd, [&](int k) { return form == 0 ? y : form == 1 ? 0 : k == i ? 1 : 0; });
    a.f = [&u, d, i, y, form] { u.with_vec(d, [&](auto& x) { if(form == 0) x.fill(el(y)); else if(form == 1) x.zero(); else x.cardinal(i); }); };
    u.act(std::move(a));
  });
  def("v.min/maximize(w)", 3, OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b); bool mx = s.m & 1; const Val D = u.mod[d], B = u.mod[b];
    Act a; a.dst = d; a.owners = own(d);
    if(D.r != B.r) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mkv(d, D.r, [&](int i) { return mx ? std::max(D.get(i), B.get(i)) : std::min(D.get(i), B.get(i)); }); }
    a.f = [&u, d, b, mx] { u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { if(mx) x.maximize(y); else x.minimize(y); }); }); };
    u.act(std::move(a));
  });
  def("v+=w", 6, OF_SIZE, [](U& u, const Step& s) {
    int d = vs(s.a), b = vs(s.b); bool minus = s.m & 1; const Val D = u.mod[d], B = u.mod[b];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12;
    if(D.r != B.r) a.ex = SIZE_ERR;
    else { a.have_want = true; a.want = u.mkv(d, D.r, [&](int i) { return minus ? D.get(i) - B.get(i) : D.get(i) + B.get(i); }); }
    a.f = [&u, d, b, minus] { u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { if(minus) x -= y; else x += y; }); }); };
    u.act(std::move(a));
  });
  def("v*=k", 3, 0, [](U& u, const Step& s) {
    int d = vs(s.a); bool div = (s.m & 1) && !INT; int k = 1 + int(s.v % 3); const Val D = u.mod[d];
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12; a.have_want = true;
    a.want = u.mkv(d, D.r, [&](int i) { return div ? D.get(i) / k : D.get(i) * k; });
    a.f = [&u, d, div, k] { u.with_vec(d, [&](auto& x) { if(div) { if constexpr(!INT) x /= double(k); } else x *= k; }); };
    u.act(std::move(a));
  });
  def("v*=v[i]", 4, 0, [](U& u, const Step& s) {
    int d = vs(s.a); const Val D = u.mod[d]; if(!D.r) return;
    int i = int(s.n) % D.r; double k = D.get(i); int form = int(s.m % 3);
    if(INT && form == 1) form = 0;
    if(form == 1 && std::fabs(k) < 1e-3) return;
    if(TR) form = 2;
    Act a; a.dst = d; a.owners = own(d); a.tol = 1e-12; a.have_want = true;
    int j = int(s.b) % D.r, l = int(s.c) % D.r;
    if(form == 2) a.want = u.mkv(d, 3, [&](int q) { return D.get(q == 0 ? i : q == 1 ? j : l); });
    else a.want = u.mkv(d, D.r, [&](int q) { return form ? D.get(q) / k : D.get(q) * k; });
    a.f = [&u, d, i, j, l, form] {
      u.with_vec(d, [&](auto& x) {
        if(form == 2) { const auto& cx = x; x.set(cx[i], cx[j], cx[l]); }
        else if constexpr(!TR) { if(form == 0) x *= x[i]; else if constexpr(!INT) x /= x[i]; }
      });
    };
    u.act(std::move(a));
  });
  if constexpr(FP) {
    def("v.normalize", 2, 0, [](U& u, const Step& s) {
      int d = vs(s.a); const Val D = u.mod[d]; double l = 0; for(double q : D.e) l += q * q;
      if(!D.r || l < 1e-3) return;
      l = std::sqrt(l);
      bool node = s.m & 1; int b = vs(s.b);
      Act a; a.dst = d; a.owners = own(d); a.tol = 1e-5; a.have_want = true;
      if(!node) {
        a.want = u.mkv(d, D.r, [&](int i) { return D.get(i) / l; });
        a.f = [&u, d] { u.with_vec(d, [&](auto& x) { x.normalize(); }); };
      }
      else {
        const Val B = u.mod[b]; double lb = 0; for(double q : B.e) lb += q * q; if(!B.r || lb < 1e-3) return; lb = std::sqrt(lb);
        a.want = u.mkv(d, B.r, [&](int i) { return B.get(i) / lb; });
        a.f = [&u, d, b] { u.with_vec(d, [&](auto& x) { u.with_vec(b, [&](auto& y) { const auto& cy = y; x = cy.normalize(); }); }); };
      }
      u.act(std::move(a));
    });
  }
  // ---------------------------------------------------------------- scalars
  def("dot/length_squared", 3, OF_SIZE, [](U& u, const Step& s) {
    int b = vs(s.b), c = vs(s.c); const Val B = u.mod[b], C = u.mod[c]; bool sq = s.m & 1;
    static double got; got = 0;
    Act a; a.scalar = true; a.got_s = &got; a.owners = own(b);
    double t = 0, g = 0;
    if(sq ? !B.r : !B.r || !C.r || B.r != C.r) a.ex = SIZE_ERR;
    else if(sq) { for(double q : B.e) { t += q * q; g += q * q; } }
    else for(int i = 0; i < B.r; ++i) { t += B.get(i) * C.get(i); g += std::fabs(B.get(i) * C.get(i)); }
    a.want_s = t; a.tol_s = (std::is_same<E, float>::value ? 1e-5 : 1e-12) * (1 + g);
    a.f = [&u, b, c, sq] {
      u.with_vec(b, [&](auto& y) { u.with_vec(c, [&](auto& z) { got = to_d(sq ? E(y.length_squared()) : E(cml::dot(y, z))); }); });
    };
    u.act(std::move(a));
  });
}

}  // namespace dyn
