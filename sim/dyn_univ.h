// World "dyn", one universe of types.
#pragma once
#include "dyn.h"
#include "alloc.h"
#include <cml/vector.h>
#include <cml/matrix.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <typeinfo>

namespace dyn {
using namespace sim;

enum Expect { OK = 0, SIZE_ERR, ARG_ERR, BAD_SIZE };

struct Act
{
  int dst = -1;
  std::function<void()> f;
  Val want; bool have_want = false;
  Expect ex = OK;
  bool resize = false;          // element errors must leave the object unchanged
  bool partial = false;         // the step may legitimately have changed dst before an element error
  double tol = 0;               // extra relative tolerance
  bool scalar = false; double want_s = 0; double* got_s = nullptr; double tol_s = 0;
  std::vector<int> loose;       // slots left valid but unspecified (moved from)
  unsigned owners = 0;          // allocators this step may use (0: do not check)
  bool move = false;            // must not allocate, fail or touch elements
  int move_src = -1;            // slot whose storage must end up in dst
};

template<class E, class A1, class A2, class BO, class L1, class L2> struct Univ : UnivBase
{
  using V = cml::vector<E, cml::dynamic<A1>>;
  using W = cml::vector<E, cml::dynamic<A2>>;
  using M = cml::matrix<E, cml::dynamic<A1>, BO, L1>;
  using N = cml::matrix<E, cml::dynamic<A2>, BO, L2>;
  static const bool TR = std::is_same<E, Tracked>::value;
  using CE = std::conditional_t<TR, E, const E>;
  static const bool FP = std::is_floating_point<E>::value;
  static const bool INT = std::is_integral<E>::value;
  static const int O1 = owner_of<A1>::value, O2 = owner_of<A2>::value;
  static const unsigned M1 = 1u << O1, M2 = 1u << O2;
  // allocator of a temporary that combines both (see storage_disambiguate)
  static const unsigned MX = O1 == O2 ? M1 : O1 == A_GLOBAL ? M2 : O2 == A_GLOBAL ? M1 : 1u << A_GLOBAL;
  // slots: 0-2 V, 3-4 W, 5-7 M, 8-9 N
  static const int NS = 10;
  V* v[3]; W* w[2]; M* m[3]; N* n[2];
  Val mod[NS];

  using Fn = std::function<void(Univ&, const Step&)>;
  struct Def { OpInfo info; Fn fn; };
  std::vector<Def> ops;
  int step = 0;
  const Step* cur = nullptr;

  int nops() override { return int(ops.size()); }
  OpInfo info(int op) override { return ops[size_t(op)].info; }
  bool tracked() override { return TR; }

  // ------------------------------------------------------------------ slots
  template<class F> auto with_vec(int slot, F f) { return slot < 3 ? f(*v[slot]) : f(*w[slot - 3]); }
  template<class F> auto with_mat(int slot, F f) { return slot < 8 ? f(*m[slot - 5]) : f(*n[slot - 8]); }
  template<class F> auto with(int slot, F f) { return slot < 5 ? with_vec(slot, f) : with_mat(slot, f); }
  static int vs(uint32_t x) { return int(x % 5); }
  static int ms(uint32_t x) { return 5 + int(x % 5); }
  static unsigned own(int slot) { return slot < 3 || (slot >= 5 && slot < 8) ? M1 : M2; }
  static unsigned mix2(int a, int b) { return own(a) == own(b) ? own(a) : MX; }
  static bool colmajor(int slot)
  {
    return slot >= 8 ? std::is_same<L2, cml::col_major>::value : slot >= 5 ? std::is_same<L1, cml::col_major>::value : false;
  }
  struct Raw { int r, c; const void* data; std::vector<uint64_t> bits; uint64_t blk; };
  void shape(int slot, int& r, int& c)
  {
    if(slot < 5) { r = with_vec(slot, [](auto& x) { return x.size(); }); c = 1; }
    else { r = with_mat(slot, [](auto& x) { return x.rows(); }); c = with_mat(slot, [](auto& x) { return x.cols(); }); }
  }
  const E* data(int slot) { return with(slot, [](auto& x) -> const E* { return x.data(); }); }
  static uint64_t bits_of(const E& e)
  {
    uint64_t b = 0;
    double d = to_d(e);
    memcpy(&b, &d, 8);
    return d != d ? 0x7ff8000000000000ull : b;
  }
  // is the object in a state in which it can be used?
  bool valid(int slot, const char* when)
  {
    int r, c; shape(slot, r, c);
    if(r < 0 || c < 0 || long(r) * c > 100000) { both("memory:state", "model:state", "after %s the size of %s is %d x %d", when, sname(slot), r, c); return false; }
    int k = r * c;
    const E* d = data(slot);
    if(k > 0 && !d) { both("memory:state", "model:state", "after %s %s has %d elements but no storage", when, sname(slot), k); return false; }
    if(k > 0 && !in_live_block(d, size_t(k) * sizeof(E))) {
      both("memory:state", "model:state", "after %s the storage of %s (%d elements) is not live memory", when, sname(slot), k);
      report("allocator:storage", "after %s the storage of %s (%d elements) is not a live block of its allocator", when, sname(slot), k);
      return false;
    }
    if(d) {
      int o = block_owner(d);
      int wanted = own(slot) == M1 ? O1 : O2;
      if(o >= 0 && o != wanted) report("allocator:storage", "after %s the storage of %s comes from another allocator", when, sname(slot));
      if(k > 0 && block_id_of(d) == 0) report("allocator:storage", "after %s the storage of %s does not start at a block", when, sname(slot));
    }
    if constexpr(TR) {
      for(int i = 0; i < k; ++i)
        if(!d[i].alive()) { report("element:raw", "after %s element %d of %s is not a constructed object", when, i, sname(slot)); return false; }
    }
    bool span = with(slot, [&](auto& x) { const auto& cx = x; return cx.end() - cx.begin() == k && cx.begin() == d && x.data() == d; });
    if(!span) report("model:range", "after %s begin()/end()/data() of %s do not span its %d elements", when, sname(slot), k);
    return true;
  }
  void both(const char* c1, const char* c2, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
  {
    char b[600];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    report(c1, "%s", b);
    report(c2, "%s", b);
  }
  static const char* sname(int slot)
  {
    static const char* n[] = {"V0", "V1", "V2", "W0", "W1", "M0", "M1", "M2", "N0", "N1"};
    return slot >= 0 && slot < NS ? n[slot] : "?";
  }
  double elem(int slot, int i, int j)
  {
    if(slot < 5) return with_vec(slot, [&](auto& x) { const auto& cx = x; return to_d(cx.get(i)); });
    return with_mat(slot, [&](auto& x) { const auto& cx = x; return to_d(cx.get(i, j)); });
  }
  Raw raw(int slot)
  {
    Raw r;
    shape(slot, r.r, r.c);
    r.data = data(slot);
    r.blk = r.data ? block_id_of(r.data) : 0;
    int k = r.r * r.c;
    if(k > 0 && r.data && in_live_block(r.data, size_t(k) * sizeof(E)))
      for(int i = 0; i < k; ++i) r.bits.push_back(bits_of(((const E*) r.data)[i]));
    return r;
  }
  // take over the actual contents
  void sync(int slot)
  {
    Val& x = mod[slot];
    int r, c; shape(slot, r, c);
    x.clear(r, c);
    const E* d = data(slot);
    for(int i = 0; i < x.size(); ++i) { x.e[size_t(i)] = to_d(d[i]); x.known[size_t(i)] = 1; }
  }
  // give unknown, huge or non-finite elements small known values, through the public data pointer
  void settle(int slot)
  {
    Val& x = mod[slot];
    E* d = with(slot, [](auto& y) -> E* { return y.data(); });
    for(int i = 0; i < x.size(); ++i) {
      double y = x.e[size_t(i)];
      if(!x.known[size_t(i)] || !(std::fabs(y) < (INT ? 3000 : 1e4)) || (y != 0 && std::fabs(y) < 1e-6)) {
        y = double((i * 7 + slot * 3 + step * 5) % 9) - 4;
        if(y == 0) y = 5;
        put_elem(d + i, y);
        x.e[size_t(i)] = y; x.known[size_t(i)] = 1;
      }
    }
  }
  static void put_elem(E* p, double y)
  {
    if constexpr(TR) p->v = y;
    else *p = E(y);
  }
  bool same(double got, double want, double tol) const
  {
    if(got == want) return true;
    if(want != want) return got != got;
    double t = (std::is_same<E, float>::value ? 3e-5 : 1e-11) + tol;
    return std::fabs(got - want) <= t * (1 + std::fabs(want));
  }

  // ------------------------------------------------------------------ one act
  void act(Act a)
  {
    const Step& s = *cur;
    const char* opn = ops[size_t(s.op)].info.name;
    Raw before[NS];
    for(int i = 0; i < NS; ++i) before[i] = raw(i);
    Ledger l0 = ledger();
    uint64_t al0[A_NUM];
    for(int k = 0; k < A_NUM; ++k) al0[k] = alloc_calls(k);
    int exc = 0;
    char ename[64] = "";
    auto attempt = [&]() {
      exc = 0; ename[0] = 0;
      try { Lib lib; a.f(); }
      catch(const ElemError&) { exc = 4; snprintf(ename, sizeof ename, "element error"); }
      catch(const std::bad_alloc& e) { exc = 1; snprintf(ename, sizeof ename, "%s", typeid(e).name()); }
      catch(const std::exception& e) {
        const char* t = typeid(e).name();
        snprintf(ename, sizeof ename, "%s", t);
        exc = strstr(t, "cml") && strstr(t, "size_error") ? 2 : strstr(t, "non_square") ? 2 : strstr(t, "invalid_argument") ? 3 : strstr(t, "size_range_error") ? 2 : 5;
      }
      catch(...) { exc = 6; snprintf(ename, sizeof ename, "unknown"); }
    };
    uint64_t draws = rand_draws() + rdev_draws() + srand_calls();
    attempt();
    if(rand_draws() + rdev_draws() + srand_calls() != draws) report("source:draw", "%s drew from a random source", opn);
    bool fired = fault_fired();
    StepResult& sr = step_result(step);
    sr.executed = exc ? 2 : 1;
    snprintf(sr.exc, sizeof sr.exc, "%s", ename);
    if(fired || exc) mark_nontrivial();
    if(s.fault == F_BADSIZE && (a.ex == ARG_ERR || a.ex == BAD_SIZE)) result().faults[F_BADSIZE]++;
    if(a.move) {
      if(exc) report("move:threw", "%s threw %s", opn, ename);
      if(step_allocs()) report("move:allocated", "%s asked for memory %u times", opn, step_allocs());
      if(TR && (ledger().made != l0.made || ledger().destroyed != l0.destroyed || ledger().assigned != l0.assigned))
        report("move:elements", "%s constructed %llu, assigned %llu and destroyed %llu elements", opn, (unsigned long long) (ledger().made - l0.made),
          (unsigned long long) (ledger().assigned - l0.assigned), (unsigned long long) (ledger().destroyed - l0.destroyed));
      mark_nontrivial();
    }
    if(exc) {
      bool okexc = (exc == 1 && (step_denied() > 0 || a.ex == BAD_SIZE)) || (exc == 4 && s.fault == F_ELEM_THROW && fired)
        || (exc == 2 && a.ex == SIZE_ERR) || (exc == 3 && (a.ex == ARG_ERR || a.ex == BAD_SIZE)) || (exc == 5 && a.ex == BAD_SIZE && strstr(ename, "length_error"));
      if(!okexc)
        report("exception:kind", "%s threw %s; expected %s", opn, ename, a.ex == OK ? "no exception" : a.ex == SIZE_ERR ? "a size error" : "std::invalid_argument");
      if(!okexc && exc != 6) report("model:exception", "%s failed with %s although the model allows it", opn, ename);
      // every object still valid; nothing but (possibly, after an element error) the destination changed
      for(int i = 0; i < NS; ++i) {
        if(!valid(i, opn)) {
          report("atomicity:invalid", "%s is not usable after %s failed with %s", sname(i), opn, ename);
          violate("memory:invalid", "%s is not usable after %s failed with %s", sname(i), opn, ename);
        }
        bool may = i == a.dst && exc == 4 && !a.resize;
        bool loose = std::find(a.loose.begin(), a.loose.end(), i) != a.loose.end() && exc == 4;
        if(may || loose) { sync(i); continue; }
        Raw now = raw(i);
        if(now.r != before[i].r || now.c != before[i].c || now.bits != before[i].bits)
          both("atomicity:changed", "model:failed-op", "%s failed with %s (fault %s) and left %s changed (%d x %d -> %d x %d)", opn, ename, fault_names[s.fault],
            sname(i), before[i].r, before[i].c, now.r, now.c);
      }
      if(a.ex == OK && okexc) {
        // the fault is gone: the same call must now succeed
        disarm();
        for(int i = 0; i < NS; ++i) settle(i);
        if(!(exc == 4 && a.dst >= 0 && !a.resize)) {
          attempt();
          if(exc) report("retry:threw", "%s failed with %s again after the fault was gone", opn, ename);
          if(exc) report("model:retry", "%s failed with %s again after the fault was gone", opn, ename);
          tag("retried");
        }
        else { finish(a, before, false); return; }
      }
      else { finish(a, before, false); return; }
      if(exc) { finish(a, before, false); return; }
      verify(a, before, true);
      finish(a, before, true);
      return;
    }
    if(a.ex == SIZE_ERR || a.ex == ARG_ERR || a.ex == BAD_SIZE) {
      report("exception:missing", "%s returned; expected %s", opn, a.ex == SIZE_ERR ? "a size error" : "std::invalid_argument or std::bad_alloc");
      report("model:exception", "%s returned although its arguments do not allow it", opn);
      for(int i = 0; i < NS; ++i) if(!valid(i, opn)) violate("memory:invalid", "%s is not usable after %s", sname(i), opn);
      for(int i = 0; i < NS; ++i) sync(i);
      finish(a, before, false);
      return;
    }
    if(a.owners && !fired)
      for(int k : {int(A_GLOBAL), int(A_USER1), int(A_USER2)})
        if(!(a.owners & (1u << k)) && alloc_calls(k) != al0[k])
          report("allocator:other", "%s obtained %llu block(s) from %s", opn, (unsigned long long) (alloc_calls(k) - al0[k]),
            k == A_GLOBAL ? "the global heap" : k == A_USER1 ? "allocator-1" : "allocator-2");
    verify(a, before, false);
    finish(a, before, true);
  }
  void verify(Act& a, Raw* before, bool retried)
  {
    const Step& s = *cur;
    const char* opn = ops[size_t(s.op)].info.name;
    const char* c1 = retried ? "retry:result" : "model:value";
    for(int i = 0; i < NS; ++i) {
      if(!valid(i, opn)) {
        report("model:invalid", "%s is not usable after %s", sname(i), opn);
        if(a.move) report("move:invalid", "%s is not usable after %s", sname(i), opn);
        violate("memory:invalid", "%s is not usable after %s", sname(i), opn);
      }
      if(std::find(a.loose.begin(), a.loose.end(), i) != a.loose.end() && i != a.dst) { sync(i); continue; }
      if(i != a.dst) {
        Raw now = raw(i);
        if(now.r != before[i].r || now.c != before[i].c || now.bits != before[i].bits)
          if(!retried) report("model:other", "%s changed %s, which is not its destination", opn, sname(i));
        continue;
      }
      if(!a.have_want) { sync(i); continue; }
      int r, c; shape(i, r, c);
      Val& w = a.want;
      if(r != w.r || c != w.c) {
        both(c1, "model:size", "after %s %s has size %d x %d; expected %d x %d", opn, sname(i), r, c, w.r, w.c);
        if(a.move) report("move:value", "after %s %s has size %d x %d; expected %d x %d", opn, sname(i), r, c, w.r, w.c);
        sync(i); continue;
      }
      for(int p = 0; p < r; ++p)
        for(int q = 0; q < c; ++q) {
          if(!w.known[size_t(w.at(p, q))]) continue;
          double got = elem(i, p, q), want = w.get(p, q);
          if(!same(got, want, a.tol)) {
            both(c1, "model:value", "after %s element (%d,%d) of %s is %.17g; expected %.17g", opn, p, q, sname(i), got, want);
            if(a.move) report("move:value", "after %s element (%d,%d) of %s is %.17g; expected %.17g", opn, p, q, sname(i), got, want);
          }
          // the raw storage must agree with the accessors (layout)
          double rd = to_d(data(i)[w.at(p, q)]);
          if(!same(got, rd, 0)) report("model:layout", "after %s element (%d,%d) of %s is not at its place in storage", opn, p, q, sname(i));
        }
      sync(i);
      for(int k = 0; k < mod[i].size(); ++k) if(!w.known[size_t(k)]) mod[i].known[size_t(k)] = 0;
    }
    if(a.scalar && !same(*a.got_s, a.want_s, a.tol_s))
      both(c1, "model:value", "%s returned %.17g; expected %.17g", opn, *a.got_s, a.want_s);
    if(a.scalar) out(*a.got_s);
    if(a.move && a.move_src >= 0 && a.dst >= 0 && before[a.move_src].data != data(a.dst))
      report("move:storage", "after %s the destination does not hold the source's storage", opn);
  }
  void finish(Act&, Raw*, bool)
  {
    for(int i = 0; i < NS; ++i) settle(i);
    for(int i = 0; i < NS; ++i) {
      log_u64(uint64_t(mod[i].r) * 100 + uint64_t(mod[i].c));
      for(double x : mod[i].e) { uint64_t b; memcpy(&b, &x, 8); log_u64(b); }
    }
    if(hashing) {
      uint64_t h = 1;
      for(int i = 0; i < NS; ++i) {
        h = mix(h, uint64_t(mod[i].r) * 1000 + uint64_t(mod[i].c));
        for(double x : mod[i].e) { uint64_t b; memcpy(&b, &x, 8); h = mix(h, x == x ? b : 7); }
      }
      StepResult& sr = step_result(step);
      sr.hash = mix(sr.hash, h);
    }
  }
  bool hashing = false;

  // ------------------------------------------------------------------ model helpers
  Val empty_like(int slot) { Val x; x.kind = slot < 5 ? 0 : 1; x.cm = colmajor(slot); return x; }
  Val mk(int slot, int r, int c, std::function<double(int, int)> f)
  {
    Val x = empty_like(slot);
    x.clear(r, c);
    for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) x.set(i, j, cast(f(i, j)));
    return x;
  }
  Val mkv(int slot, int n, std::function<double(int)> f) { return mk(slot, n, 1, [f](int i, int) { return f(i); }); }
  static double cast(double d) { return INT ? std::trunc(d) : std::is_same<E, float>::value ? double(float(d)) : d; }
  static double num(uint64_t v, int k)
  {
    int x = int(mix(v, uint64_t(k) + 1) % 19) - 9;
    return INT ? x : x * 0.5;
  }
  static double nz(uint64_t v, int k) { double x = num(v, k); return x == 0 ? 2 : x; }
  static E el(double d) { NoLib nl; return E(cast(d)); }

  template<class D, class... X> static void make_move(D& d, X&&... x)
  {
    D t(std::forward<X>(x)...);
    d = std::move(t);
  }
  // replace the object in a slot by another object (both boxed)
  template<class X> static X* box() { return new(caller_alloc(sizeof(X), 16)) X; }
  template<class X> static void unbox(X* p) { { Lib l; p->~X(); } caller_free(p); }

  template<class D> static D hand_over(D& a, D& b, bool first)
  {
    D x(std::move(a));
    D y(std::move(b));
    if(first) return x;
    return y;
  }
  template<class D> static D pass(D x) { return x; }

  void def(const char* name, int weight, int flags, Fn f) { ops.push_back(Def{{name, weight, flags}, f}); }

  std::vector<double> rowmajor(const Val& a) const
  {
    std::vector<double> x;
    for(int i = 0; i < a.r; ++i) for(int j = 0; j < a.c; ++j) x.push_back(a.get(i, j));
    return x;
  }
  // rows/cols that must be refused: negative, or more elements than can exist
  static void bad_shape(uint64_t v, int& r, int& c, Expect& ex)
  {
    switch(v % 6) {
      case 0: r = -1 - int((v >> 8) % 5); ex = ARG_ERR; break;
      case 1: c = -1 - int((v >> 8) % 5); ex = ARG_ERR; break;
      case 2: r = -2; c = -3; ex = ARG_ERR; break;
      case 3: r = 65536; c = 65536; ex = BAD_SIZE; break;           // the product is 0 modulo 2^32
      case 4: r = 65536 + int((v >> 8) % 3); c = 65537; ex = BAD_SIZE; break;
      default: r = 40000; c = 50000; ex = BAD_SIZE; break;          // fits an int, but not the heap
    }
  }
  template<class Y> static double small_det(const Y& y)
  {
    if constexpr(INT || FP) return to_d(E(cml::determinant(y)));
    else return to_d(E(cml::determinant(y)));
  }
  static int dimv(uint32_t x)       // 60 and up: unusually large; 200 and up: around powers of two
  {
    static const int big[] = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 48, 40};
    return x >= 200 ? big[(x - 200) % 16] : x >= 60 ? 10 + int(x - 60) % 16 : int(x % 10);
  }
  static int dimm(uint32_t x)
  {
    static const int big[] = {14, 15, 16, 17, 18, 24, 31, 32, 33, 20};
    return x >= 200 ? big[(x - 200) % 10] : x >= 60 ? 7 + int(x - 60) % 7 : int(x % 7);
  }

  void define();
  void define_vec();
  void define_mat();
  void define_more();
  void define_geo();
  void define_ml();

  Univ() { define_vec(); define_mat(); define_more(); define_ml(); }

  void run(const Plan& p) override
  {
    hashing = p.property == "P09";
    for(auto& x : v) x = box<V>();
    for(auto& x : w) x = box<W>();
    for(auto& x : m) x = box<M>();
    for(auto& x : n) x = box<N>();
    for(int i = 0; i < NS; ++i) { mod[i] = empty_like(i); mod[i].shape(0, i < 5 ? 1 : 0); }
    for(int i = 0; i < NS; ++i) sync(i);
    size_t k = std::min<size_t>(p.steps.size(), MAX_STEPS);
    for(size_t i = 0; i < k; ++i) {
      const Step& s = p.steps[i];
      if(s.op < 0 || s.op >= nops()) continue;
      step = int(i); cur = &s;
      step_begin(int(i), s);
      ops[size_t(s.op)].fn(*this, s);
      step_end();
    }
    step = int(k);
    Step none; none.fault = F_NONE;
    step_begin(int(std::min<size_t>(k, MAX_STEPS - 1)), none);
    for(auto& x : v) unbox(x);
    for(auto& x : w) unbox(x);
    for(auto& x : m) unbox(x);
    for(auto& x : n) unbox(x);
    if(live_blocks(-1)) {
      char b[400]; describe_live(b, sizeof b);
      report("leak:blocks", "%zu block(s) are still allocated after the last object is gone:%s", live_blocks(-1), b);
      if(live_blocks(A_USER1) + live_blocks(A_USER2))
        report("allocator:leak", "%zu block(s) were never returned to their allocator:%s", live_blocks(A_USER1) + live_blocks(A_USER2), b);
    }
    if(TR && ledger().live) report("element:leak", "%ld element object(s) are still alive after the last container is gone", ledger().live);
  }
};

}  // namespace dyn
#define UT template<class E, class A1, class A2, class BO, class L1, class L2>
#define UU Univ<E, A1, A2, BO, L1, L2>
