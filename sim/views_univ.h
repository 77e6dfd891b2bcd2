#pragma once
#include "views.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <typeinfo>
#include <cxxabi.h>
#include <cml/cml.h>
#include <cml/vector.h>
#include <cml/matrix.h>

namespace views {
using namespace sim;

template<class E, class BO> struct Univ : UnivBase
{
  static const bool FP = std::is_floating_point<E>::value;
  static const int K = 44;
  template<int N> using VF = cml::vector<E, cml::external<N>>;
  using VD = cml::vector<E, cml::external<>>;
  template<int N> using CF = cml::vector<const E, cml::external<N>>;
  using CD = cml::vector<const E, cml::external<>>;
  template<int R, int C, class L> using MF = cml::matrix<E, cml::external<R, C>, BO, L>;
  template<class L> using MD = cml::matrix<E, cml::external<>, BO, L>;
  using RM = cml::row_major; using CM = cml::col_major;
  using OV = cml::vector<E, cml::dynamic<>>;
  template<class L> using OM = cml::matrix<E, cml::dynamic<>, BO, L>;

  struct Info { bool vec; int off, rows, cols; bool cm, dyn; int size() const { return rows * cols; } };
  static const int NV = 8, NM = 9;
  E* buf = nullptr;
  std::vector<E> mod;
  Info info[NV + NM];
  VF<3>* f3[2]; VF<2>* f2; VF<4>* f4; VF<6>* f6; VD* d[3];
  MF<2, 2, RM>* m22; MF<3, 3, RM>* m33r; MF<3, 3, CM>* m33c; MF<2, 3, RM>* m23; MF<3, 2, CM>* m32; MF<4, 4, CM>* m44; MD<RM>* mr[2]; MD<CM>* mc;

  template<class F> void vec(int s, F f)
  {
    switch(s) {
      case 0: f(*f3[0]); break; case 1: f(*f3[1]); break; case 2: f(*f2); break; case 3: f(*f4); break; case 4: f(*f6); break;
      case 5: f(*d[0]); break; case 6: f(*d[1]); break; case 7: f(*d[2]); break;
    }
  }
  template<class F> void mat(int s, F f)
  {
    switch(s - NV) {
      case 0: f(*m22); break; case 1: f(*m33r); break; case 2: f(*m33c); break; case 3: f(*m23); break; case 4: f(*m32); break; case 5: f(*m44); break;
      case 6: f(*mr[0]); break; case 7: f(*mr[1]); break; case 8: f(*mc); break;
    }
  }
  int at(const Info& i, int r, int c = 0) const { return i.off + (i.vec ? r : i.cm ? c * i.rows + r : r * i.cols + c); }
  void create(Rng& r)
  {
    static const int n[5] = {3, 3, 2, 4, 6};
    for(int s = 0; s < 5; ++s) info[s] = {true, int(r.below(uint32_t(K - n[s] + 1))), n[s], 1, false, false};
    for(int s = 5; s < 8; ++s) { int k = int(r.below(8)); info[s] = {true, int(r.below(uint32_t(K - k + 1))), k, 1, false, true}; }
    static const int mn[9][3] = {{2, 2, 0}, {3, 3, 0}, {3, 3, 1}, {2, 3, 0}, {3, 2, 1}, {4, 4, 1}, {0, 0, 0}, {0, 0, 0}, {0, 0, 1}};
    for(int s = 0; s < 9; ++s) {
      int a = mn[s][0], b = mn[s][1];
      if(!a) { a = 1 + int(r.below(5)); b = r.below(2) ? a : 1 + int(r.below(5)); }
      info[NV + s] = {false, int(r.below(uint32_t(K - a * b + 1))), a, b, mn[s][2] != 0, s >= 6};
    }
    auto q = [&](int s) { return buf + info[s].off; };
    Lib l;
    f3[0] = mk<VF<3>>(q(0)); f3[1] = mk<VF<3>>(q(1)); f2 = mk<VF<2>>(q(2)); f4 = mk<VF<4>>(q(3)); f6 = mk<VF<6>>(q(4));
    for(int i = 0; i < 3; ++i) d[i] = i & 1 ? mk<VD>(q(5 + i), info[5 + i].rows) : mk<VD>(info[5 + i].rows, q(5 + i));
    m22 = mk<MF<2, 2, RM>>(q(8)); m33r = mk<MF<3, 3, RM>>(q(9)); m33c = mk<MF<3, 3, CM>>(q(10)); m23 = mk<MF<2, 3, RM>>(q(11)); m32 = mk<MF<3, 2, CM>>(q(12)); m44 = mk<MF<4, 4, CM>>(q(13));
    mr[0] = mk<MD<RM>>(q(14), info[14].rows, info[14].cols); mr[1] = mk<MD<RM>>(info[15].rows, info[15].cols, q(15)); mc = mk<MD<CM>>(q(16), info[16].rows, info[16].cols);
  }
  template<class T, class... A> T* mk(A... a)
  {
    T* p;
    { NoLib n; p = (T*) caller_alloc(sizeof(T), alignof(T)); }
    return new(p) T(a...);
  }
  template<class T> void rm(T* p) { { Lib l; p->~T(); } caller_free(p); }
  void destroy()
  {
    for(int s = 0; s < NV; ++s) vec(s, [&](auto& v) { rm(&v); });
    for(int s = NV; s < NV + NM; ++s) mat(s, [&](auto& v) { rm(&v); });
  }

  // ------------------------------------------------------------ one step
  const Step* st = nullptr; const char* name = ""; Rng rg{1};
  std::string exc;
  std::vector<E> want;         // expected buffer
  std::vector<char> touched;   // elements the call may change
  bool may_alloc = false, ran = false, no_elems = false;
  E val() { return FP ? E(float(rg.unit() * 4 - 2)) : E(int(rg.below(9)) - 4); }
  E nz() { E x = val(); return FP ? (x > 0 ? x + E(0.5) : x - E(0.5)) : (x == 0 ? E(3) : x); }

  // runs f with only the given ranges of the buffer in bounds
  template<class F> void call(std::vector<const Info*> open, F f)
  {
    ran = true;
    fence(buf, sizeof(E) * K, false);
    for(auto* i : open) if(i->size()) fence(buf + i->off, sizeof(E) * size_t(i->size()), true);
    exc.clear();
    uint32_t a0 = step_allocs();
    bool deny = !may_alloc && st->m % 2;
    if(deny) { deny_allocs(true); result().faults[F_ALLOC_ALL]++; }
    try { Lib l; f(); }
    catch(const std::exception& e) { int s = 0; char* q = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &s); exc = q ? q : "?"; free(q); }
    catch(...) { exc = "unknown"; }
    if(deny) deny_allocs(false);
    fence(buf, sizeof(E) * K, true);
    if(exc.empty() && !may_alloc && step_allocs() != a0) report("view:alloc", "%s on views obtained dynamic memory", name);
  }
  void expect_ok()
  {
    if(!exc.empty()) report("view:rejected", "%s was rejected with %s although the sizes match", name, exc.c_str());
  }
  bool expect(bool ok, const char* e1, const char* e2 = "")   // false: the call was (rightly) rejected
  {
    if(ok) { expect_ok(); return true; }
    result().faults[F_BADSIZE]++;
    if(exc.empty()) report("view:accepted", "%s accepts operands whose sizes do not match", name);
    else if(exc != e1 && exc != e2 && !(exc == "std::bad_alloc" && st->m % 2)) report("view:exception", "%s was rejected with %s; documented: %s", name, exc.c_str(), e1);
    want = mod;
    std::fill(touched.begin(), touched.end(), 0);
    return false;
  }
  void set(int i, E x) { want[size_t(i)] = x; touched[size_t(i)] = 1; }
  static bool disjoint(const Info& a, const Info& b) { return !a.size() || !b.size() || a.off + a.size() <= b.off || b.off + b.size() <= a.off; }
  static bool same_map(const Info& a, const Info& b) { return a.off == b.off && a.rows == b.rows && a.cols == b.cols && a.cm == b.cm; }
  void check_all(const char* when)
  {
    for(int i = 0; i < K; ++i) {
      E got = buf[i], w = want[size_t(i)];
      bool bit = memcmp(&got, &w, sizeof(E)) == 0;
      if(bit) continue;
      if(!touched[size_t(i)]) { report("view:spill", "%s changed array element %d, which is not the destination's (%.9g -> %.9g)", when, i, double(mod[size_t(i)]), double(got)); break; }
      double tol = FP ? (sizeof(E) == 4 ? 2e-4 : 1e-9) : 0, a = double(got), b = double(w);
      if(!(a == b || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))))) { report("view:value", "after %s array element %d is %.17g; expected %.17g", when, i, a, b); break; }
    }
    for(int i = 0; i < K; ++i) mod[size_t(i)] = buf[i];
    // every view shows the array
    for(int s = 0; s < NV; ++s) vec(s, [&](auto& v) {
      const auto& cv = v;
      int n = cv.size();
      if(n != info[s].rows) { report("view:shape", "after %s a vector view has size %d instead of %d", when, n, info[s].rows); return; }
      if(n && (const void*) cv.data() != (const void*) (buf + info[s].off)) { report("view:rebound", "after %s a vector view is bound to other memory", when); return; }
      for(int i = 0; i < n; ++i) { E x = cv[i]; if(memcmp(&x, &mod[size_t(at(info[s], i))], sizeof x)) { report("view:stale", "after %s view element %d is %.17g; the array holds %.17g", when, i, double(x), double(mod[size_t(at(info[s], i))])); return; } }
    });
    for(int s = NV; s < NV + NM; ++s) mat(s, [&](auto& v) {
      const auto& cv = v;
      if(cv.rows() != info[s].rows || cv.cols() != info[s].cols) { report("view:shape", "after %s a matrix view is %d x %d instead of %d x %d", when, cv.rows(), cv.cols(), info[s].rows, info[s].cols); return; }
      if((const void*) cv.data() != (const void*) (buf + info[s].off)) { report("view:rebound", "after %s a matrix view is bound to other memory", when); return; }
      for(int i = 0; i < info[s].rows; ++i) for(int j = 0; j < info[s].cols; ++j) {
        E x = cv(i, j), y = mod[size_t(at(info[s], i, j))];
        if(memcmp(&x, &y, sizeof x)) { report("view:stale", "after %s matrix view element (%d,%d) is %.17g; the array holds %.17g", when, i, j, double(x), double(y)); return; }
      }
    });
  }
  // ------------------------------------------------------------ operand sources
  template<class V> struct fixed_of { static const int value = cml::array_size_of_c<V>::value; };
  template<class A, class B> static constexpr bool fits() { return cml::array_size_of_c<A>::value < 0 || cml::array_size_of_c<B>::value < 0 || cml::array_size_of_c<A>::value == cml::array_size_of_c<B>::value; }

  // f(src, values, infos): a vector source for destination D with information di; sizes may differ when the types allow it
  template<class D, class F> void vsrc(const Info& di, F f)
  {
    int n = di.rows;
    auto other = [&]() { return rg.below(5) == 0 ? int(rg.below(8)) : n; };
    switch(st->b % 9) {
      case 7: {             // a view over part of the same array that overlaps the destination: same elements, or another size
        int k = rg.below(3) ? int(rg.below(8)) : n;
        Info wi{true, k == n || rg.below(2) ? di.off : int(rg.below(K)), k, 1, false, true};
        if(wi.off + k > K) return;
        std::vector<E> x; for(int i = 0; i < k; ++i) x.push_back(mod[size_t(at(wi, i))]);
        { VD w(buf + wi.off, k); f(std::as_const(w), x, std::vector<const Info*>{&di, &wi}); }
        return;
      }
      case 0: case 1: {     // another view of the same array: disjoint, or exactly the same elements
        for(int k = 0; k < NV; ++k) {
          int s = int((st->c + uint32_t(k)) % NV);
          if(!(disjoint(info[s], di) || same_map(info[s], di))) continue;
          if(info[s].rows != n && rg.below(6)) continue;
          bool did = false;
          vec(s, [&](auto& w) {
            if constexpr(fits<D, std::decay_t<decltype(w)>>()) {
              std::vector<E> x; for(int i = 0; i < info[s].rows; ++i) x.push_back(mod[size_t(at(info[s], i))]);
              f(std::as_const(w), x, std::vector<const Info*>{&di, &info[s]}); did = true;
            }
          });
          if(did) return;
        }
        return;
      }
      case 2: {             // owning fixed-size vector
        auto go = [&](auto w) { if constexpr(fits<D, decltype(w)>()) { std::vector<E> x; for(int i = 0; i < w.size(); ++i) { w[i] = val(); x.push_back(w[i]); } f(std::as_const(w), x, std::vector<const Info*>{&di}); } };
        switch(n) { case 2: go(cml::vector<E, cml::fixed<2>>()); break; case 4: go(cml::vector<E, cml::fixed<4>>()); break; case 6: go(cml::vector<E, cml::fixed<6>>()); break; default: go(cml::vector<E, cml::fixed<3>>()); }
        return;
      }
      case 3: {             // owning dynamic vector
        int k = other();
        OV w; { Lib l; w.resize(k); }
        std::vector<E> x; for(int i = 0; i < k; ++i) { w[i] = val(); x.push_back(w[i]); }
        f(std::as_const(w), x, std::vector<const Info*>{&di});
        return;
      }
      case 4: {             // expression over the caller's other array
        int k = other();
        E* p = (E*) caller_alloc(sizeof(E) * size_t(k ? k : 1), alignof(E));
        std::vector<E> x; for(int i = 0; i < k; ++i) { p[i] = val(); x.push_back(E(p[i] * E(2) + p[i])); }
        { VD w(p, k); f(w * E(2) + w, x, std::vector<const Info*>{&di}); }
        caller_free(p);
        return;
      }
      case 5: {             // read-only view
        int k = other();
        E* p = (E*) caller_alloc(sizeof(E) * size_t(k ? k : 1), alignof(E));
        std::vector<E> x; for(int i = 0; i < k; ++i) { p[i] = val(); x.push_back(p[i]); }
        { CD w(p, k); f(w, x, std::vector<const Info*>{&di}); }
        caller_free(p);
        return;
      }
      case 6: {             // expression that reads the destination itself, element by element
        vself<D>(di, f);
        return;
      }
      default: {            // row or column of a disjoint matrix view
        for(int k = 0; k < NM; ++k) {
          int s = NV + int((st->c + uint32_t(k)) % NM);
          const Info& mi = info[s];
          if(!disjoint(mi, di)) continue;
          bool row = rg.below(2), did = false;
          if((row ? mi.cols : mi.rows) != n && rg.below(8)) continue;
          mat(s, [&](auto& m) {
            int i = int(rg.below(uint32_t(row ? mi.rows : mi.cols)));
            std::vector<E> x;
            if(row) { for(int j = 0; j < mi.cols; ++j) x.push_back(mod[size_t(at(mi, i, j))]); if constexpr(fits<D, decltype(cml::row(m, 0))>()) { f(cml::row(m, i), x, std::vector<const Info*>{&di, &mi}); did = true; } }
            else { for(int j = 0; j < mi.rows; ++j) x.push_back(mod[size_t(at(mi, j, i))]); if constexpr(fits<D, decltype(cml::col(m, 0))>()) { f(cml::col(m, i), x, std::vector<const Info*>{&di, &mi}); did = true; } }
          });
          if(did) return;
        }
      }
    }
  }
  template<class D, class F> void vself(const Info& di, F f)
  {
    for(int s = 0; s < NV; ++s) if(&info[s] == &di) vec(s, [&](auto& w) {
      if constexpr(std::is_same<std::decay_t<decltype(w)>, D>::value) {
        E k = val();
        std::vector<E> x; for(int i = 0; i < di.rows; ++i) x.push_back(E(mod[size_t(at(di, i))] * k - mod[size_t(at(di, i))]));
        f(w * k - w, x, std::vector<const Info*>{&di});
      }
    });
  }
  template<class A, class B> static constexpr bool mfits()
  {
    return cml::array_rows_of_c<A>::value < 0 || cml::array_rows_of_c<B>::value < 0 || (cml::array_rows_of_c<A>::value == cml::array_rows_of_c<B>::value && cml::array_cols_of_c<A>::value == cml::array_cols_of_c<B>::value);
  }
  struct MV { int r, c; std::vector<E> x; E operator()(int i, int j) const { return x[size_t(i * c + j)]; } };
  MV values(const Info& i) { MV v{i.rows, i.cols, {}}; for(int a = 0; a < i.rows; ++a) for(int b = 0; b < i.cols; ++b) v.x.push_back(mod[size_t(at(i, a, b))]); return v; }
  template<class D, class F> void msrc(const Info& di, F f)
  {
    int r = di.rows, c = di.cols;
    auto shape = [&](int& a, int& b) { a = r; b = c; switch(rg.below(7)) { case 0: a = 1 + int(rg.below(4)); b = 1 + int(rg.below(4)); break; case 1: std::swap(a, b); } };
    switch(st->b % 7) {
      case 6: {             // a view over part of the same array that overlaps the destination: same elements, or another number of them
        int a, b; shape(a, b);
        if(rg.below(4) == 0) { a = 1 + int(rg.below(4)); b = 1 + int(rg.below(4)); }
        bool same = a * b == r * c;
        Info wi{false, same || rg.below(2) ? di.off : int(rg.below(K)), a, b, same ? di.cm : rg.below(2) != 0, true};
        if(wi.off + a * b > K) return;
        MV x = values(wi);
        if(wi.cm) { MD<CM> w(buf + wi.off, a, b); f(std::as_const(w), x, std::vector<const Info*>{&di, &wi}); }
        else { MD<RM> w(buf + wi.off, a, b); f(std::as_const(w), x, std::vector<const Info*>{&di, &wi}); }
        return;
      }
      case 0: case 1: {
        for(int k = 0; k < NM; ++k) {
          int s = NV + int((st->c + uint32_t(k)) % NM);
          if(!(disjoint(info[s], di) || same_map(info[s], di))) continue;
          if((info[s].rows != r || info[s].cols != c) && rg.below(6)) continue;
          bool did = false;
          mat(s, [&](auto& w) { if constexpr(mfits<D, std::decay_t<decltype(w)>>()) { f(std::as_const(w), values(info[s]), std::vector<const Info*>{&di, &info[s]}); did = true; } });
          if(did) return;
        }
        return;
      }
      case 2: case 3: {      // owning dynamic, either layout
        int a, b; shape(a, b);
        auto go = [&](auto w) { { Lib l; w.resize(a, b); } MV x{a, b, {}}; for(int i = 0; i < a; ++i) for(int j = 0; j < b; ++j) { w(i, j) = val(); x.x.push_back(w(i, j)); } f(std::as_const(w), x, std::vector<const Info*>{&di}); };
        if(st->b % 7 == 2) go(OM<RM>()); else go(OM<CM>());
        return;
      }
      case 4: {              // transposed owning matrix (expression)
        int a, b; shape(a, b);
        OM<RM> w; { Lib l; w.resize(b, a); }
        MV x{a, b, {}}; for(int i = 0; i < b; ++i) for(int j = 0; j < a; ++j) w(i, j) = val();
        for(int i = 0; i < a; ++i) for(int j = 0; j < b; ++j) x.x.push_back(w(j, i));
        f(cml::transpose(w), x, std::vector<const Info*>{&di});
        return;
      }
      default: {             // expression that reads the destination itself
        for(int s = NV; s < NV + NM; ++s) if(&info[s] == &di) mat(s, [&](auto& w) {
          if constexpr(std::is_same<std::decay_t<decltype(w)>, D>::value) {
            E k = val(); MV x = values(di); for(auto& e : x.x) e = E(e * k - e);
            f(w * k - w, x, std::vector<const Info*>{&di});
          }
        });
      }
    }
  }
  void step(const Step& s, int index);
  void vstep(int op, int slot);
  void mstep(int op, int slot);
  void run(const Plan& p) override
  {
    Rng r(mix(p.seed, 11));
    buf = (E*) caller_alloc(sizeof(E) * K, alignof(E));
    rg = Rng(mix(p.seed, 12));
    for(int i = 0; i < K; ++i) buf[i] = val();
    mod.assign(buf, buf + K);
    create(r);
    want = mod; touched.assign(K, 0);
    check_all("construction");
    for(size_t i = 0; i < p.steps.size(); ++i) {
      step_begin(int(i), p.steps[i]);
      step(p.steps[i], int(i));
      step_end();
    }
    destroy();
    want = mod; std::fill(touched.begin(), touched.end(), 0);
    for(int i = 0; i < K; ++i) if(memcmp(&buf[i], &mod[size_t(i)], sizeof(E))) { report("view:spill", "destroying the views changed array element %d", i); break; }
    if(!block_id_of(buf)) report("view:freed", "the caller's array was released");
    caller_free(buf);
    mark_nontrivial();
  }
};

#define U_ template<class E, class BO> void Univ<E, BO>
U_::step(const Step& s, int)
{
  st = &s;
  rg = Rng(s.v * 2 + 1);
  int op = s.op % M_NUM;
  name = op_names[op];
  double big = 0; for(E x : mod) { double y = double(x); if(!(y == y)) y = 1e9; big = std::max(big, std::fabs(y)); }
  if(big > (FP ? 1e4 : 200)) { for(int i = 0; i < K; ++i) buf[i] = val(); mod.assign(buf, buf + K); }   // the caller writes to its array
  want = mod; std::fill(touched.begin(), touched.end(), 0);
  may_alloc = false; ran = false;
  step_result(current_step()).executed = 1;
  if(op < V_NUM) vstep(op, int(s.a % NV)); else mstep(op, NV + int(s.a % NM));
  NoLib n;
  if(!exc.empty()) step_result(current_step()).executed = 2;
  check_all(name);
  out(exc.empty()); for(int i = 0; i < K; ++i) out(mod[size_t(i)]);
  exc.clear();
}

U_::vstep(int op, int slot)
{
  Info& di = info[slot];
  const int n = di.rows;
  using std::min; using std::max;
  const char* VE = "cml::incompatible_vector_size_error";
  auto all = [&](auto f) { for(int i = 0; i < n; ++i) set(at(di, i), f(i, mod[size_t(at(di, i))])); };
  vec(slot, [&](auto& v) {
    using D = std::decay_t<decltype(v)>;
    static constexpr int N = cml::array_size_of_c<D>::value;
    int i = n ? int(st->n) % n : 0, j = n ? int(st->c) % n : 0;
    E x = val();
    auto two = [&](auto apply, auto model) {
      vsrc<D>(di, [&](const auto& w, const std::vector<E>& y, std::vector<const Info*> open) {
        call(open, [&] { apply(v, w); });
        if(expect(int(y.size()) == n, VE)) all([&](int k, E o) { return E(model(o, y[size_t(k)])); });
      });
    };
    switch(op) {
      case V_PUT: if(!n) return; call({&di}, [&] { v.put(i, x); }); expect_ok(); set(at(di, i), x); break;
      case V_IDX: if(!n) return;
        if(st->b % 2) { call({&di}, [&] { v[i] = x; v[j] += E(1); }); } else call({&di}, [&] { v.get(i) = x; auto& q = v.get(j); q = q + E(1); });
        expect_ok(); set(at(di, i), x); set(at(di, j), E(want[size_t(at(di, j))] + E(1))); break;
      case V_ZERO: call({&di}, [&] { v.zero(); }); expect_ok(); all([](int, E) { return E(0); }); break;
      case V_CARD: if(!n) return; call({&di}, [&] { v.cardinal(i); }); expect_ok(); all([&](int k, E) { return E(k == i); }); break;
      case V_FILL: call({&di}, [&] { v.fill(x); }); expect_ok(); all([&](int, E) { return x; }); break;
      case V_FILLALIAS: if(!n) return; { E y = mod[size_t(at(di, i))]; call({&di}, [&] { v.fill(v[i]); }); expect_ok(); all([&](int, E) { return y; }); } break;
      case V_SET: {
        E y = val(), z = val();
        if constexpr(N == 3) { call({&di}, [&] { v.set(x, y, z); }); expect_ok(); all([&](int k, E) { return k == 0 ? x : k == 1 ? y : z; }); }
        else if constexpr(N == 2) { call({&di}, [&] { v.set(x, y); }); expect_ok(); all([&](int k, E) { return k == 0 ? x : y; }); }
        else if constexpr(N == 4) { call({&di}, [&] { v.set(x, y, z, x); }); expect_ok(); all([&](int k, E) { return k == 1 ? y : k == 2 ? z : x; }); }
        else if constexpr(N < 0) { call({&di}, [&] { v.set(x, y, z); }); if(expect(n == 3, VE, "cml::vector_size_error")) all([&](int k, E) { return k == 0 ? x : k == 1 ? y : z; }); }
        break;
      }
      case V_NORM: if constexpr(FP) {
        double l = 0; for(int k = 0; k < n; ++k) l += double(mod[size_t(at(di, k))]) * double(mod[size_t(at(di, k))]);
        if(l < 1e-4 || l > 1e12) return;
        l = std::sqrt(l);
        call({&di}, [&] { v.normalize(); }); expect_ok(); all([&](int, E o) { return E(double(o) / l); });
      } break;
      case V_MUL: call({&di}, [&] { v *= x; }); expect_ok(); all([&](int, E o) { return E(o * x); }); break;
      case V_DIV: x = nz(); call({&di}, [&] { v /= x; }); expect_ok(); all([&](int, E o) { return E(o / x); }); break;
      case V_MULALIAS: if(!n) return; { E y = mod[size_t(at(di, i))]; call({&di}, [&] { v *= v[i]; }); expect_ok(); all([&](int, E o) { return E(o * y); }); } break;
      case V_ASSIGN: two([](auto& a, const auto& b) { a = b; }, [](E, E b) { return b; }); break;
      case V_ADD: two([](auto& a, const auto& b) { a += b; }, [](E a, E b) { return E(a + b); }); break;
      case V_SUB: two([](auto& a, const auto& b) { a -= b; }, [](E a, E b) { return E(a - b); }); break;
      case V_MIN: two([](auto& a, const auto& b) { a.minimize(b); }, [](E a, E b) { return min(a, b); }); break;
      case V_MAX: two([](auto& a, const auto& b) { a.maximize(b); }, [](E a, E b) { return max(a, b); }); break;
      case V_LIST: {
        E y = val(), z = val();
        if(st->b % 2) { call({&di}, [&] { v = {x, y, z}; }); if(expect(n == 3, VE)) all([&](int k, E) { return k == 0 ? x : k == 1 ? y : z; }); }
        else { call({&di}, [&] { v = {x, y}; }); if(expect(n == 2, VE)) all([&](int k, E) { return k == 0 ? x : y; }); }
        break;
      }
      case V_ARR: {
        E a[3] = {x, val(), val()}; E b[4] = {x, val(), val(), val()};
        if constexpr(N == 3) { call({&di}, [&] { v = a; }); expect_ok(); all([&](int k, E) { return a[k]; }); }
        else if constexpr(N == 4) { call({&di}, [&] { v = b; }); expect_ok(); all([&](int k, E) { return b[size_t(k)]; }); }
        else if constexpr(N < 0) {
          if(st->b % 2) { call({&di}, [&] { v = a; }); if(expect(n == 3, VE, "cml::vector_size_error")) all([&](int k, E) { return a[k]; }); }
          else { call({&di}, [&] { v = b; }); if(expect(n == 4, VE, "cml::vector_size_error")) all([&](int k, E) { return b[size_t(k)]; }); }
        }
        break;
      }
      case V_BASE: case V_COPY: {   // same static type: through the base class, or directly
        for(int k = 0; k < NV; ++k) {
          int s = int((st->c + uint32_t(k)) % NV);
          if(!(disjoint(info[s], di) || same_map(info[s], di))) continue;
          bool did = false;
          vec(s, [&](auto& w) {
            if constexpr(std::is_same<std::decay_t<decltype(w)>, D>::value) {
              if(op == V_BASE) call({&di, &info[s]}, [&] { cml::writable_vector<D>& a = v; const cml::writable_vector<D>& b = w; a = b; });
              else call({&di, &info[s]}, [&] { v = std::as_const(w); });
              if(expect(info[s].rows == n, VE)) all([&](int q, E) { return mod[size_t(at(info[s], q))]; });
              did = true;
            }
          });
          if(did) break;
        }
        break;
      }
      case V_MOVE: {        // moving a view away and back: the array and the other views do not notice
        call({&di}, [&] { D t(std::move(v)); if(t.size()) t[i] = x; v = std::move(t); });
        expect_ok(); if(n) set(at(di, i), x);
        break;
      }
      case V_TEMP: {        // a temporary view of the same elements
        auto view = [&] { if constexpr(N > 0) return D(buf + di.off); else return D(buf + di.off, n); };
        switch(st->b % 4) {
          case 0: call({&di}, [&] { view().fill(x); }); expect_ok(); all([&](int, E) { return x; }); break;
          case 1: call({&di}, [&] { view() *= x; }); expect_ok(); all([&](int, E o) { return E(o * x); }); break;
          case 2: if(!n) return; call({&di}, [&] { view().put(i, x); view().get(j) += E(1); }); expect_ok(); set(at(di, i), x); set(at(di, j), E(want[size_t(at(di, j))] + E(1))); break;
          default: call({&di}, [&] { view() += v; }); expect_ok(); all([&](int, E o) { return E(o + o); });
        }
        break;
      }
      case V_LIFE: {        // copies share the array; their end does not touch it
        call({&di}, [&] { D a(v); { D b(a); if(b.size()) b[i] = x; } { auto c = a; c *= E(2); } a += a; });
        expect_ok(); if(n) set(at(di, i), x);
        all([&](int k, E) { E y = want[size_t(at(di, k))]; return E(y * E(2) + y * E(2)); });
        break;
      }
      case V_READ: {
        if(!n) return;
        double q = 0, sum = 0;
        const D& c = v;
        for(int k = 0; k < n; ++k) { double y = double(mod[size_t(at(di, k))]); q += y * y; sum += y; }
        E a = 0, b = 0;
        call({&di}, [&] { a = E(cml::dot(c, c)); const E* p = c.begin(); for(; p != c.end(); ++p) b += *p; });
        expect_ok();
        double tol = FP ? (sizeof(E) == 4 ? 1e-4 : 1e-10) * std::max(1.0, q) : 0;
        if(std::fabs(double(a) - q) > tol || std::fabs(double(b) - sum) > tol * 10) report("view:read", "reading a view gives %.17g and %.17g; expected %.17g and %.17g", double(a), double(b), q, sum);
        break;
      }
      case V_CROSS: if constexpr(N == 3 || N < 0) {
        if(n != 3) return;
        E a[3] = {val(), val(), val()}, b[3] = {val(), val(), val()};
        E* p = (E*) caller_alloc(sizeof(E) * 6, alignof(E));
        for(int k = 0; k < 3; ++k) { p[k] = a[k]; p[3 + k] = b[k]; }
        if(st->b % 2) { VF<3> u(p), w(p + 3); call({&di}, [&] { v = cml::cross(u, w); }); }
        else { VD u(p, 3), w(p + 3, 3); call({&di}, [&] { v = cml::cross(u, w); }); }
        expect_ok();
        all([&](int k, E) { return E(a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3]); });
        caller_free(p);
      } break;
      case V_MV: {          // product of a disjoint matrix view and an owning vector
        for(int k = 0; k < NM; ++k) {
          int s = NV + int((st->c + uint32_t(k)) % NM);
          const Info& mi = info[s];
          if(!disjoint(mi, di) || mi.rows != n) continue;
          bool did = false;
          mat(s, [&](auto& m) {
            using M = std::decay_t<decltype(m)>;
            if constexpr(cml::array_rows_of_c<M>::value == N || N < 0 || cml::array_rows_of_c<M>::value < 0) {
              OV w; { Lib l; w.resize(mi.cols); }
              for(int q = 0; q < mi.cols; ++q) w[q] = val();
              MV a = values(mi);
              may_alloc = true;
              call({&di, &mi}, [&] { v = m * w; });
              expect_ok();
              all([&](int r, E) { E y = 0; for(int q = 0; q < mi.cols; ++q) y = E(y + a(r, q) * w[q]); return y; });
              did = true;
            }
          });
          if(did) break;
        }
        break;
      }
      case V_RESET: if constexpr(N < 0) {
        bool null = false;
        // a view without an array accepts nothing and stays without one
        OV w; { Lib l; w.resize(n + int(rg.below(2))); }
        for(int k = 0; k < w.size(); ++k) w[k] = val();
        bool dflt = rg.below(2), same = w.size() == 0;
        const char* got = "";
        may_alloc = true;         // the exceptions carry text
        call({&di}, [&] {
          D t(v), e(v);
          if(dflt) e = D(); else e.reset();
          null = e.size() == 0 && e.data() == nullptr;
          try {
            switch(st->b % 8) {
              case 0: e = std::as_const(t); same = n == 0; break; case 1: e = w; break; case 2: e += t; same = n == 0; break; case 3: e -= w; break;
              case 4: e = t * x; same = n == 0; break; case 5: e.minimize(w); break; case 6: e.zero(); e.fill(x); e *= x; same = true; break; default: same = false; e = {x, x};
            }
          }
          catch(const cml::incompatible_vector_size_error&) { got = "s"; }
          null = null && e.size() == 0 && e.data() == nullptr;
          v.reset(); null = null && v.size() == 0 && v.data() == nullptr; v = D(buf + di.off, n);
        });
        expect_ok();
        if(!null) report("view:reset", "a view that was reset or default-constructed is not, or does not stay, without an array");
        if(!*got && !same && st->b % 8 < 6) report("view:accepted", "a view without an array accepts elements (form %d)", int(st->b % 8));
        if(*got && same) report("view:rejected", "a view without an array rejects a vector without elements (form %d)", int(st->b % 8));
      } break;
      case V_RANDOM: {
        E lo = FP ? E(-1) : E(-3), hi = FP ? E(1) : E(3);
        call({&di}, [&] { v.random(lo, hi); });
        expect_ok();
        for(int k = 0; k < n; ++k) { E y = buf[at(di, k)]; if(!(y >= lo && y <= hi)) report("view:value", "random() sets an element to %.9g", double(y)); set(at(di, k), y); }
        break;
      }
      case V_CHAIN: {       // updates chained through the returned references
        if(!n) return;
        call({&di}, [&] { (v.fill(x) *= E(2)).put(i, E(1)) += v; });
        expect_ok(); all([&](int k, E) { E y = k == i ? E(1) : E(x * E(2)); return E(y + y); });
        break;
      }
      case V_CONST: {       // read-only views of the same elements: creation, moves, end of life
        using KV = std::conditional_t<(N > 0), CF<(N > 0 ? N : 1)>, CD>;
        bool good = true, null = true;
        auto view = [&] { const E* p = buf + di.off; if constexpr(N > 0) return KV(p); else return st->b % 2 ? KV(p, n) : KV(n, p); };
        auto same = [&](const auto& w) { if(w.size() != n || w.data() != buf + di.off || w.end() - w.begin() != n) return false; for(int q = 0; q < n; ++q) if(memcmp(w.data() + q, &mod[size_t(at(di, q))], sizeof(E))) return false; for(int q = 0; q < n; ++q) { E y = w[q]; if(memcmp(&y, &mod[size_t(at(di, q))], sizeof(E))) return false; } return true; };
        call({&di}, [&] {
          KV a(view());
          good = good && same(a);
          KV b(std::move(a));
          good = good && same(b);
          null = null && a.data() == nullptr;
          if constexpr(N < 0) null = null && a.size() == 0;
          { KV c(std::move(b)); good = good && same(c); if constexpr(N < 0) { c.reset(); null = null && c.data() == nullptr && c.size() == 0; } }
          KV d; null = null && d.data() == nullptr;
          if constexpr(N < 0) null = null && d.size() == 0 && d.begin() == d.end();
          v += view();
        });
        expect_ok(); all([](int, E o) { return E(o + o); });
        if(!good) report("view:read", "a read-only view does not show the elements of the array");
        if(!null) report("view:reset", "a read-only view that was moved from, reset or default-constructed still refers to an array");
        break;
      }
      case V_SUBV: {        // views of parts of the same elements
        if(n < 2) return;
        int p = int(rg.below(uint32_t(n - 1))), q = 1 + int(rg.below(uint32_t(n - p)));
        Info part = di; part.off += p; part.rows = q;
        E y = val();
        call({&part}, [&] { VD a(buf + part.off, q); a *= y; a[0] = y; a += VD(q, buf + part.off); a.minimize(a); });
        expect_ok();
        for(int k = 0; k < q; ++k) { E o = k == 0 ? y : E(mod[size_t(part.off + k)] * y); set(part.off + k, E(o + o)); }
        break;
      }
    }
  });
}

U_::mstep(int op, int slot)
{
  Info& di = info[slot];
  const int R = di.rows, C = di.cols;
  const char* ME = "cml::incompatible_matrix_size_error"; const char* MS = "cml::matrix_size_error";
  auto all = [&](auto f) { for(int i = 0; i < info[slot].rows; ++i) for(int j = 0; j < info[slot].cols; ++j) { int k = at(info[slot], i, j); set(k, f(i, j, want[size_t(k)])); } };
  mat(slot, [&](auto& m) {
    using D = std::decay_t<decltype(m)>;
    static constexpr int FR = cml::array_rows_of_c<D>::value, FC = cml::array_cols_of_c<D>::value;
    int i = int(st->n) % R, j = int(st->c) % C;
    E x = val();
    auto two = [&](auto apply, auto model, bool reshape) {
      msrc<D>(di, [&](const auto& w, const MV& y, std::vector<const Info*> open) {
        call(open, [&] { apply(m, w); });
        bool same = y.r == R && y.c == C;
        // assignment gives a run-time sized view the shape of the source when the number of elements is the same
        bool ok = same || (reshape && di.dyn && y.r * y.c == R * C);
        if(!expect(ok, ME, MS)) return;
        info[slot].rows = y.r; info[slot].cols = y.c;
        all([&](int a, int b, E o) { return E(model(o, y(a, b))); });
      });
    };
    switch(op) {
      case M_PUT: call({&di}, [&] { m.put(i, j, x); }); expect_ok(); set(at(di, i, j), x); break;
      case M_IDX: call({&di}, [&] { m(i, j) = x; m.get(i, j) += E(1); }); expect_ok(); set(at(di, i, j), E(x + E(1))); break;
      case M_BASIS: {
        bool rb = std::is_same<BO, cml::row_basis>::value;
        call({&di}, [&] { if(rb) m.set_basis_element(i, j, x); else m.set_basis_element(j, i, x); }); expect_ok(); set(at(di, i, j), x);
        E y = 0; call({&di}, [&] { y = rb ? m.basis_element(i, j) : m.basis_element(j, i); }); if(y != x) report("view:read", "basis_element() does not show what set_basis_element() wrote");
        break;
      }
      case M_SETROW: case M_SETCOL: {
        bool row = op == M_SETROW;
        int n = row ? C : R;
        const char* W1 = row ? "cml::incompatible_matrix_col_size_error" : "cml::incompatible_matrix_row_size_error";
        int k = rg.below(4) ? n : int(rg.below(6));
        OV w; { Lib l; w.resize(k); }
        for(int q = 0; q < k; ++q) w[q] = val();
        if(st->b % 2) call({&di}, [&] { if(row) m.set_row(i, w); else m.set_col(j, w); });
        else call({&di}, [&] { if(row) std::move(m).set_row(i, w); else std::move(m).set_col(j, w); });
        if(expect(k == n, W1)) for(int q = 0; q < n; ++q) set(row ? at(di, i, q) : at(di, q, j), w[q]);
        break;
      }
      case M_ZERO: call({&di}, [&] { m.zero(); }); expect_ok(); all([](int, int, E) { return E(0); }); break;
      case M_IDENT: call({&di}, [&] { m.identity(); }); expect_ok(); all([](int a, int b, E) { return E(a == b); }); break;
      case M_FILL: call({&di}, [&] { m.fill(x); }); expect_ok(); all([&](int, int, E) { return x; }); break;
      case M_TRANS: if constexpr(FR == FC) {
        MV o = values(di);
        may_alloc = di.dyn;
        call({&di}, [&] { m.transpose(); }); expect_ok();
        info[slot].rows = C; info[slot].cols = R;
        all([&](int a, int b, E) { return o(b, a); });
      } break;
      case M_INV: if constexpr(FP && FR == FC) {
        if(R != C) {
          call({&di}, [&] { m.inverse(); });
          expect(false, "cml::non_square_matrix_error");
          break;
        }
        // the caller prepares a well conditioned matrix in its array
        std::vector<double> a(size_t(R * R)), v;
        for(int p = 0; p < R; ++p) for(int q = 0; q < R; ++q) { E y = E(p == q ? 4 + double(val()) : double(val()) * 0.5); buf[at(di, p, q)] = y; a[size_t(p * R + q)] = double(y); }
        mod.assign(buf, buf + K); want = mod;
        v.assign(size_t(R * R), 0);
        for(int p = 0; p < R; ++p) v[size_t(p * R + p)] = 1;
        for(int p = 0; p < R; ++p) {
          double s = 1 / a[size_t(p * R + p)];
          for(int q = 0; q < R; ++q) { a[size_t(p * R + q)] *= s; v[size_t(p * R + q)] *= s; }
          for(int u = 0; u < R; ++u) if(u != p) { double f = a[size_t(u * R + p)]; for(int q = 0; q < R; ++q) { a[size_t(u * R + q)] -= f * a[size_t(p * R + q)]; v[size_t(u * R + q)] -= f * v[size_t(p * R + q)]; } }
        }
        may_alloc = di.dyn;
        call({&di}, [&] { m.inverse(); }); expect_ok();
        all([&](int p, int q, E) { return E(v[size_t(p * R + q)]); });
      } break;
      case M_ASSIGN: two([](auto& a, const auto& b) { a = b; }, [](E, E b) { return b; }, true); break;
      case M_ADD: two([](auto& a, const auto& b) { a += b; }, [](E a, E b) { return E(a + b); }, false); break;
      case M_SUB: two([](auto& a, const auto& b) { a -= b; }, [](E a, E b) { return E(a - b); }, false); break;
      case M_MUL: call({&di}, [&] { m *= x; }); expect_ok(); all([&](int, int, E o) { return E(o * x); }); break;
      case M_DIV: x = nz(); call({&di}, [&] { m /= x; }); expect_ok(); all([&](int, int, E o) { return E(o / x); }); break;
      case M_MULALIAS: { E y = mod[size_t(at(di, i, j))]; call({&di}, [&] { m *= m(i, j); }); expect_ok(); all([&](int, int, E o) { return E(o * y); }); } break;
      case M_LIST: {        // row-major list
        E a[6]; for(auto& e : a) e = val();
        if(st->b % 2) { call({&di}, [&] { m = {a[0], a[1], a[2], a[3], a[4], a[5]}; }); if(expect(R * C == 6, ME, MS)) all([&](int p, int q, E) { return a[p * C + q]; }); }
        else { call({&di}, [&] { m = {a[0], a[1], a[2], a[3]}; }); if(expect(R * C == 4, ME, MS)) all([&](int p, int q, E) { return a[p * C + q]; }); }
        break;
      }
      case M_ARR: {
        E a[4] = {x, val(), val(), val()};
        if constexpr(FR == 2 && FC == 2) { call({&di}, [&] { m = a; }); expect_ok(); all([&](int p, int q, E) { return a[size_t(p * C + q)]; }); }
        else if constexpr(FR < 0) { call({&di}, [&] { m = a; }); if(expect(R * C == 4, ME, MS)) all([&](int p, int q, E) { return a[size_t(p * C + q)]; }); }
        break;
      }
      case M_ARR2: {
        E a[2][3] = {{x, val(), val()}, {val(), val(), val()}};
        if constexpr(FR == 2 && FC == 3) { call({&di}, [&] { m = a; }); expect_ok(); all([&](int p, int q, E) { return a[p][q]; }); }
        else if constexpr(FR < 0) {
          call({&di}, [&] { m = a; });
          if(expect(R * C == 6, ME, MS)) { info[slot].rows = 2; info[slot].cols = 3; all([&](int p, int q, E) { return a[p][q]; }); }
        }
        break;
      }
      case M_PROD: {        // product of owning matrices, or of views of other elements
        int k = 1 + int(rg.below(4));
        using L = typename D::layout_tag;
        OM<L> a, b; { Lib l; a.resize(R, k); b.resize(k, C); }
        for(int p = 0; p < R; ++p) for(int q = 0; q < k; ++q) a(p, q) = val();
        for(int p = 0; p < k; ++p) for(int q = 0; q < C; ++q) b(p, q) = val();
        may_alloc = true;
        call({&di}, [&] { m = a * b; }); expect_ok();
        all([&](int p, int q, E) { E y = 0; for(int u = 0; u < k; ++u) y = E(y + a(p, u) * b(u, q)); return y; });
        break;
      }
      case M_RESIZE: if constexpr(FR < 0) {
        int r, c; bool ok;
        const char* W = MS; const char* W2 = "";
        switch(rg.below(6)) {
          case 0: r = C; c = R; break;
          case 1: r = 1; c = R * C; break;
          case 2: r = R + 1; c = C; break;
          case 3: r = -1; c = -R * C; W = "std::invalid_argument"; break;
          case 4: r = int(rg.below(5)); c = int(rg.below(5)); break;
          default: {        // a product that does not fit an int
            long t = (1l << 32) * long(1 + rg.below(3)) + R * C;
            r = 5; while(r < 2000 && t % r) ++r;
            if(t % r || t / r > 2147483647l) { r = 65536; c = 65537; } else c = int(t / r);
          }
        }
        ok = r >= 0 && c >= 0 && long(r) * c == long(R) * C;
        call({&di}, [&] { m.resize(r, c); });
        if(expect(ok, W, W2)) { info[slot].rows = r; info[slot].cols = c; }
        if(!exc.empty() || !ok) { if(m.rows() != R || m.cols() != C) { report("view:shape", "resize(%d,%d) of a view of %d elements gives a %d x %d view", r, c, R * C, m.rows(), m.cols()); call({&di}, [&] { m = D(buf + di.off, R, C); }); } }
        if(r == 0 || c == 0) { info[slot].rows = R; info[slot].cols = C; }
      } break;
      case M_COPY: {
        for(int k = 0; k < NM; ++k) {
          int s = NV + int((st->c + uint32_t(k)) % NM);
          if(!(disjoint(info[s], di) || same_map(info[s], di))) continue;
          bool did = false;
          mat(s, [&](auto& w) {
            if constexpr(std::is_same<std::decay_t<decltype(w)>, D>::value) {
              MV y = values(info[s]);
              call({&di, &info[s]}, [&] { m = std::as_const(w); });
              bool ok = (y.r == R && y.c == C) || (FR < 0 && y.r * y.c == R * C);
              if(expect(ok, ME, MS)) { info[slot].rows = y.r; info[slot].cols = y.c; all([&](int a, int b, E) { return y(a, b); }); }
              did = true;
            }
          });
          if(did) break;
        }
        break;
      }
      case M_MOVE: call({&di}, [&] { D t(std::move(m)); t(i, j) = x; m = std::move(t); }); expect_ok(); set(at(di, i, j), x); break;
      case M_TEMP: {
        auto view = [&] { if constexpr(FR > 0) return D(buf + di.off); else return D(buf + di.off, R, C); };
        switch(st->b % 4) {
          case 0: call({&di}, [&] { view().fill(x); }); expect_ok(); all([&](int, int, E) { return x; }); break;
          case 1: call({&di}, [&] { view() *= x; }); expect_ok(); all([&](int, int, E o) { return E(o * x); }); break;
          case 2: call({&di}, [&] { view() = m * x; }); expect_ok(); all([&](int, int, E o) { return E(o * x); }); break;
          default: call({&di}, [&] { view().identity() += m; }); expect_ok(); all([&](int a, int b, E) { return E(a == b ? 2 : 0); });
        }
        break;
      }
      case M_LIFE: {
        if constexpr(FR > 0) { call({&di}, [&] { D a(m.data()); a(i, j) = x; { D b(a.data()); b *= E(2); } }); }
        else { call({&di}, [&] { D a(m.data(), R, C); a(i, j) = x; { D b(R, C, a.data()); b *= E(2); } }); }
        expect_ok(); set(at(di, i, j), x);
        all([&](int, int, E o) { return E(o * E(2)); });
        break;
      }
      case M_READ: {
        const D& c = m;
        double sum = 0, s2 = 0, tr = 0, tr2 = 0;
        MV y = values(di);
        for(int a = 0; a < R; ++a) for(int b = 0; b < C; ++b) { sum += double(y(a, b)); if(a == b) tr += double(y(a, b)); }
        call({&di}, [&] { for(const E* p = c.begin(); p != c.end(); ++p) s2 += double(*p); if constexpr(FR < 0 || FR == FC) { if(R == C) tr2 = double(cml::trace(c)); else tr2 = tr; } else tr2 = tr; });
        expect_ok();
        if(std::fabs(sum - s2) > 1e-3 || std::fabs(tr - tr2) > 1e-3) report("view:read", "reading a matrix view gives sum %.9g and trace %.9g; expected %.9g and %.9g", s2, tr2, sum, tr);
        break;
      }
      case M_RESET: if constexpr(FR < 0) {
        bool null = false;
        OM<typename D::layout_tag> w; { Lib l; w.resize(R, C); }
        for(int a = 0; a < R; ++a) for(int b = 0; b < C; ++b) w(a, b) = val();
        bool same = false; const char* got = "";
        may_alloc = true;
        call({&di}, [&] {
          D t(m.data(), R, C), e;
          if(rg.below(2)) { e = D(m.data(), R, C); e.reset(); }
          null = e.rows() == 0 && e.cols() == 0 && e.data() == nullptr;
          try {
            switch(st->b % 7) {
              case 0: e = std::as_const(t); break; case 1: e = w; break; case 2: e += t; break; case 3: e -= w; break; case 4: e = t * x; break;
              case 5: e.zero(); e.fill(x); e *= x; same = true; break; default: e.resize(R, C);
            }
          }
          catch(const cml::incompatible_matrix_size_error&) { got = "s"; }
          catch(const cml::matrix_size_error&) { got = "s"; }
          null = null && e.rows() == 0 && e.cols() == 0 && e.data() == nullptr;
          m.reset(); null = null && m.rows() == 0 && m.cols() == 0 && m.data() == nullptr; m = D(buf + di.off, R, C);
        });
        expect_ok();
        if(!null) report("view:reset", "a matrix view that was reset or default-constructed is not, or does not stay, without an array");
        if(!*got && !same) report("view:accepted", "a matrix view without an array accepts elements (form %d)", int(st->b % 7));
        if(*got && same) report("view:rejected", "an update of a matrix view without an array is rejected (form %d)", int(st->b % 7));
      } break;
      case M_RANDOM: {
        E lo = FP ? E(-1) : E(-3), hi = FP ? E(1) : E(3);
        call({&di}, [&] { m.random(lo, hi); });
        expect_ok();
        for(int k = 0; k < R * C; ++k) { E y = buf[di.off + k]; if(!(y >= lo && y <= hi)) report("view:value", "random() sets an element to %.9g", double(y)); set(di.off + k, y); }
        break;
      }
      case M_OUTER: {
        OV a, b; { Lib l; a.resize(R); b.resize(C); }
        for(int p = 0; p < R; ++p) a[p] = val();
        for(int q = 0; q < C; ++q) b[q] = val();
        call({&di}, [&] { m = cml::outer(a, b); }); expect_ok();
        all([&](int p, int q, E) { return E(a[p] * b[q]); });
        break;
      }
      case M_ARRCTOR: if constexpr(FR > 0) {      // bound to a 2-D array of the caller
        using L = typename D::layout_tag;
        constexpr bool cm = std::is_same<L, CM>::value;
        constexpr int A0 = cm ? FC : FR, A1 = cm ? FR : FC;
        using A2 = E[A0][A1];
        A2* arr = (A2*) caller_alloc(sizeof(A2), alignof(E));
        MV y{FR, FC, {}}; y.x.resize(size_t(FR * FC));
        for(int p = 0; p < FR; ++p) for(int q = 0; q < FC; ++q) { E z = val(); (*arr)[cm ? q : p][cm ? p : q] = z; y.x[size_t(p * FC + q)] = z; }
        bool good = true;
        call({&di}, [&] {
          D a(*arr);
          good = good && (void*) a.data() == (void*) arr && a.rows() == FR && a.cols() == FC && a.end() - a.begin() == FR * FC;
          for(int p = 0; p < FR; ++p) for(int q = 0; q < FC; ++q) good = good && a(p, q) == y(p, q);
          m += a;
          a = m; a(i, j) = x;
        });
        expect_ok(); all([&](int p, int q, E o) { return E(o + y(p, q)); });
        for(int p = 0; p < FR; ++p) for(int q = 0; q < FC; ++q) { E w = p == i && q == j ? x : buf[at(di, p, q)], z = (*arr)[cm ? q : p][cm ? p : q]; if(memcmp(&w, &z, sizeof z)) good = false; }
        if(!good) report("view:value", "a view of a two-dimensional array does not address its elements by row and column");
        caller_free(arr);
      } break;
      case M_WRITERS: if constexpr(FP && FR == FC) {          // library functions that set a whole matrix write these elements only, and as they do to an owning matrix
        OM<typename D::layout_tag> w; { Lib l; w.resize(R, C); }
        for(int p = 0; p < R; ++p) for(int q = 0; q < C; ++q) w(p, q) = mod[size_t(at(di, p, q))];
        E a = val(), b = val(), c = val();
        cml::vector<E, cml::fixed<3>> u(a, b, c), u2(b, c, a); cml::vector<E, cml::fixed<2>> u2d(a, c);
        int k3 = int(rg.below(3)), k2 = int(rg.below(2)), k12 = int(rg.below(12)), k6 = 2 * int(rg.below(6)), f = int(rg.below(20));
        cml::quaternion<E> qq(a, b, c, nz());
        auto go = [&](auto& t) {
          constexpr int r = cml::array_rows_of_c<std::decay_t<decltype(t)>>::value;
          if constexpr(r < 0 || r >= 4) { if(f == 0) { cml::matrix_translation(t, u); return; } }
          if constexpr(r < 0 || r >= 4) { if(f == 1) { cml::matrix_set_translation(t, u); return; } }
          if constexpr(r < 0 || r >= 4) { if(f == 2) { cml::matrix_scale(t, u); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 3) { cml::matrix_set_basis_vector(t, k3, u); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 4) { cml::matrix_set_transposed_basis_vectors(t, u, u2, u); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 5) { cml::matrix_rotation_world_axis(t, k3, a); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 6) { cml::matrix_rotation_axis_angle(t, u, a); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 7) { cml::matrix_rotation_euler(t, a, b, c, cml::euler_order(k12)); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 8) { cml::matrix_rotation_quaternion(t, qq.normalize()); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 9) { cml::matrix_rotation_align(t, u, u2, true, cml::axis_order(k6)); return; } }
          if constexpr(r < 0 || r >= 4) { if(f == 10) { cml::matrix_perspective_RH(t, a, a + E(1), b, b + E(2), E(1), E(9), cml::z_clip_zero); return; } }
          if constexpr(r < 0 || r >= 4) { if(f == 11) { cml::matrix_orthographic_LH(t, a, a + E(1), b, b + E(2), E(1), E(9), cml::z_clip_neg_one); return; } }
          if constexpr(r < 0 || r >= 4) { if(f == 12) { cml::matrix_look_at_RH(t, u, u2 + u * E(3), cml::vector<E, cml::fixed<3>>(b, b, c)); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 13) { cml::matrix_translation_2D(t, u2d); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 14) { cml::matrix_set_translation_2D(t, u2d); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 15) { cml::matrix_scale_2D(t, a, b); return; } }
          if constexpr(r < 0 || r >= 2) { if(f == 16) { cml::matrix_set_basis_vector_2D(t, k2, u2d); return; } }
          if constexpr(r < 0 || r >= 2) { if(f == 17) { cml::matrix_rotation_2D(t, a); return; } }
          if constexpr(r < 0 || r >= 4) { if(f == 18) { cml::matrix_invert_RT_only(t); return; } }
          if constexpr(r < 0 || r >= 3) { if(f == 19) { cml::matrix_rotation_euler_derivatives(t, k3, a, b, c, cml::euler_order(k12)); return; } }
        };
        static const int need[] = {4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 3, 3, 3, 2, 2, 4, 3};
        if(R != C || R < need[f] || R > 4 || (need[f] == 4 && R != 4) || ((f == 13 || f == 14) && R != 3)) return;
        std::string e1;
        may_alloc = true;
        try { Lib l; go(w); } catch(const std::exception&) { e1 = "x"; }
        call({&di}, [&] { go(m); });
        if(exc.empty() != e1.empty()) report("view:rejected", "function %d %s on a view and %s on an owning matrix", f, exc.empty() ? "succeeds" : "fails", e1.empty() ? "succeeds" : "fails");
        if(!exc.empty()) { for(int q = 0; q < R * C; ++q) { touched[size_t(di.off + q)] = 1; want[size_t(di.off + q)] = buf[di.off + q]; } break; }
        all([&](int p, int q, E) { return w(p, q); });
      } break;
      case M_GETROW: {
        MV y = values(di);
        bool good = true;
        call({&di}, [&] { auto r = cml::row(m, i); auto c = cml::col(m, j); for(int q = 0; q < C; ++q) if(!(r[q] == y(i, q))) good = false; for(int q = 0; q < R; ++q) if(!(c[q] == y(q, j))) good = false; });
        expect_ok();
        if(!good) report("view:read", "a row or column of a matrix view shows other elements than the array holds");
        break;
      }
    }
  });
}
#undef U_
}  // namespace views
