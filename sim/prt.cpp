// World "prt": printing to output sinks that write short, fail or throw.
#include "sim.h"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <sstream>
#include <streambuf>
#include <typeinfo>
#include <cxxabi.h>
#include "alloc.h"
#include <cml/cml.h>
#include <cml/vector.h>
#include <cml/matrix.h>
#include <cml/quaternion.h>
#include <cml/mathlib/mathlib.h>
#include <cml/util.h>

namespace sim {
// an element whose insertion writes several pieces and may throw between them
inline std::ostream& operator<<(std::ostream& os, const Tracked& t)
{
  t.check("print"); os << "<"; Tracked::point(); os << t.v; Tracked::point(); return os << ">";
}
}
using namespace sim;
namespace prt {

struct SinkError {};
struct Sink : std::streambuf
{
  std::string data;
  int fault = F_NONE; uint32_t at = 0, events = 0; bool dead = false, fired = false;
  int syncs = 0;
  char buffer[8]; int width = 0;
  uint64_t* count = nullptr;
  void repair() { dead = false; fault = F_NONE; fired = false; events = 0; data.clear(); syncs = 0; if(width) setp(buffer, buffer + width); }
  void buffered(int n) { width = n; if(n) setp(buffer, buffer + n); else setp(nullptr, nullptr); }
  // one event (a byte accepted or a flush): false when it fails
  bool event()
  {
    if(dead) return false;
    if(fault != F_NONE && events++ == at) {
      fired = true; result().faults[fault]++;
      int f = fault; fault = F_NONE;
      if(f == F_SINK_THROW) throw SinkError();
      if(f == F_SINK_FAIL) dead = true;
      return false;
    }
    return true;
  }
  // the pieces that were accepted are the front of s
  size_t write(const char* s, size_t n) { for(size_t i = 0; i < n; ++i) { if(!event()) return i; data.push_back(s[i]); } return n; }
  bool drain()
  {
    if(!width) return true;
    size_t n = size_t(pptr() - pbase()), i = 0;
    char tmp[8]; memcpy(tmp, pbase(), n);
    try { for(; i < n; ++i) { if(!event()) break; data.push_back(tmp[i]); } }
    catch(...) { setp(buffer, buffer + width); memmove(buffer, tmp + i, n - i); pbump(int(n - i)); throw; }
    setp(buffer, buffer + width); memmove(buffer, tmp + i, n - i); pbump(int(n - i));
    return i == n;
  }
  int_type overflow(int_type c) override
  {
    NoLib l;
    if(!drain()) return traits_type::eof();
    if(traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = char(c);
    if(width) { *pptr() = ch; pbump(1); return c; }
    return write(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    NoLib l;
    if(!width) return std::streamsize(write(s, size_t(n)));
    if(n <= epptr() - pptr()) { memcpy(pptr(), s, size_t(n)); pbump(int(n)); return n; }
    if(!drain()) return 0;
    return std::streamsize(write(s, size_t(n)));
  }
  int sync() override { NoLib l; if(!drain()) return -1; syncs++; return event() ? 0 : -1; }
};

struct Format { std::ios::fmtflags fl; int prec, width; char fill; };
// (a sink that fails while unitbuf is set terminates inside libstdc++: unitbuf only without a fault)
static Format format_of(const Step& st)
{
  uint64_t v = st.v;
  Rng r(mix(v, 51));
  Format f;
  f.fl = std::ios::skipws | std::ios::dec;
  f.prec = 6; f.width = 0; f.fill = ' ';
  if(r.below(3) == 0) return f;
  if(r.below(3) == 0) f.fl = (f.fl & ~std::ios::basefield) | (r.below(2) ? std::ios::hex : std::ios::oct);
  switch(r.below(4)) { case 0: f.fl |= std::ios::scientific; break; case 1: f.fl |= std::ios::fixed; break; case 2: f.fl |= std::ios::fixed | std::ios::scientific; }
  if(r.below(2)) f.fl |= std::ios::showpos;
  if(r.below(3) == 0) f.fl |= std::ios::showpoint;
  if(r.below(3) == 0) f.fl |= std::ios::uppercase;
  if(r.below(3) == 0) f.fl |= std::ios::showbase;
  if(r.below(4) == 0 && st.fault == F_NONE && st.c < 8) f.fl |= std::ios::unitbuf;
  switch(r.below(4)) { case 0: f.fl |= std::ios::left; break; case 1: f.fl |= std::ios::right; break; case 2: f.fl |= std::ios::internal; }
  f.prec = int(r.below(20));
  if(r.below(3) == 0) f.width = int(r.below(14));
  f.fill = " *_"[r.below(3)];
  return f;
}
static void set_format(std::ostream& os, const Format& f) { os.flags(f.fl); os.precision(f.prec); os.fill(f.fill); os.width(f.width); }

// ------------------------------------------------------------ operands
struct Item
{
  std::function<void(std::ostream&)> print;
  std::vector<std::function<void(std::ostream&)>> elems;     // insert one element
  std::vector<std::pair<const void*, size_t>> memory;
  std::vector<uint64_t> hashes;
  std::vector<std::function<void()>> release;
  void hash() { hashes.clear(); for(auto& m : memory) hashes.push_back(region_hash(m.first, m.second)); }
  bool intact() { for(size_t i = 0; i < memory.size(); ++i) if(region_hash(memory[i].first, memory[i].second) != hashes[i]) return false; return true; }
};
struct Kind { const char* name; std::function<void(Item&, Rng&)> make; };
static std::vector<Kind> kinds;

template<class E> struct Make
{
  static const bool TR = std::is_same<E, Tracked>::value, FP = std::is_floating_point<E>::value;
  static double num(Rng& r)
  {
    if(FP) switch(r.below(14)) {
      case 0: return 0; case 1: return -0.0; case 2: return NAN; case 3: return INFINITY; case 4: return -INFINITY;
      case 5: return sizeof(E) == 4 ? FLT_MAX : DBL_MAX; case 6: return sizeof(E) == 4 ? -FLT_MIN / 8 : -DBL_MIN / 8; case 7: return r.unit() * 1e-20; case 8: return -r.unit() * 1e20;
      case 9: return int(r.below(2000)) - 1000;
      default: return r.unit() * 20 - 10;
    }
    if(TR) return int(r.below(2000)) / 8. - 100;
    switch(r.below(6)) { case 0: return 0; case 1: return INT_MAX / 4; case 2: return -(INT_MAX / 4); default: return int(r.below(2000)) - 1000; }
  }
  static E val(Rng& r) { return E(num(r)); }
  template<class T, class... A> static T* box(Item& it, A&&... a)
  {
    void* p; { NoLib n; p = caller_alloc(sizeof(T), alignof(T)); }
    T* t = new(p) T(std::forward<A>(a)...);
    it.memory.push_back({t, sizeof(T)});
    it.release.push_back([t] { { Lib l; t->~T(); } caller_free(t); });
    return t;
  }
  template<class V> static void vfill(V& v, Rng& r) { for(int i = 0; i < int(v.size()); ++i) v[i] = val(r); }
  template<class M> static void mfill(M& m, Rng& r) { for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) m(i, j) = val(r); }
  static void add_elem(Item& it, const E& e) { E* p = new E(e); it.elems.push_back([p](std::ostream& os) { os << *p; }); it.release.push_back([p] { delete p; }); }
  template<class F> static void vitem(Item& it, F expr)   // expr(): a vector expression
  {
    { auto&& x = expr(); for(int i = 0; i < int(x.size()); ++i) add_elem(it, E(x[i])); }
    it.print = [expr](std::ostream& os) { os << expr(); };
  }
  template<class F> static void mitem(Item& it, F expr)
  {
    { auto&& x = expr(); for(int i = 0; i < x.rows(); ++i) for(int j = 0; j < x.cols(); ++j) add_elem(it, E(x(i, j))); }
    it.print = [expr](std::ostream& os) { os << expr(); };
  }
  template<int N> using VF = cml::vector<E, cml::fixed<N>>;
  using VD = cml::vector<E, cml::dynamic<>>;
  using VX = cml::vector<E, cml::external<>>;
  template<int R, int C, class L> using MF = cml::matrix<E, cml::fixed<R, C>, cml::col_basis, L>;
  template<class L> using MD = cml::matrix<E, cml::dynamic<>, cml::col_basis, L>;
  using RM = cml::row_major; using CM = cml::col_major;
  template<int N> static VF<N>& fv(Item& it, Rng& r) { auto* v = box<VF<N>>(it); vfill(*v, r); return *v; }
  static VD& dv(Item& it, Rng& r, int n)
  {
    auto* v = box<VD>(it); { Lib l; v->resize(n); } vfill(*v, r); if(n) it.memory.push_back({v->data(), sizeof(E) * size_t(n)}); return *v;
  }
  template<int R, int C, class L> static MF<R, C, L>& fm(Item& it, Rng& r) { auto* m = box<MF<R, C, L>>(it); mfill(*m, r); return *m; }
  template<class L> static MD<L>& dm(Item& it, Rng& r, int a, int b)
  {
    auto* m = box<MD<L>>(it); { Lib l; m->resize(a, b); } mfill(*m, r); if(a * b) it.memory.push_back({m->data(), sizeof(E) * size_t(a * b)}); return *m;
  }
  static E* array(Item& it, Rng& r, int n)
  {
    E* p = (E*) caller_alloc(sizeof(E) * size_t(n ? n : 1), alignof(E));
    for(int i = 0; i < n; ++i) new(p + i) E(val(r));
    it.memory.push_back({p, sizeof(E) * size_t(n)});
    it.release.push_back([p, n] { for(int i = 0; i < n; ++i) p[i].~E(); caller_free(p); });
    return p;
  }
  static void add(const char* const* nm)
  {
    int k = 0;
    auto def = [&](std::function<void(Item&, Rng&)> f) { kinds.push_back({nm[k++], f}); };
    def([](Item& it, Rng& r) { auto& v = fv<1>(it, r); vitem(it, [&v]() -> const auto& { return v; }); });
    def([](Item& it, Rng& r) { auto& v = fv<3>(it, r); vitem(it, [&v]() -> const auto& { return v; }); });
    def([](Item& it, Rng& r) { auto& v = fv<7>(it, r); vitem(it, [&v]() -> const auto& { return v; }); });
    def([](Item& it, Rng& r) { auto& v = dv(it, r, int(r.below(9))); vitem(it, [&v]() -> const auto& { return v; }); });
    def([](Item& it, Rng& r) { int n = int(r.below(7)); E* p = array(it, r, n); auto* v = box<VX>(it, p, n); vitem(it, [v]() -> const auto& { return *v; }); });
    def([](Item& it, Rng& r) { E* p = array(it, r, 4); auto* v = box<cml::vector<E, cml::external<4>>>(it, p); vitem(it, [v]() -> const auto& { return *v; }); });
    def([](Item& it, Rng& r) { auto &v = fv<3>(it, r), &w = fv<3>(it, r); vitem(it, [&v, &w] { return v + w; }); });
    def([](Item& it, Rng& r) { int n = int(r.below(5)); auto &v = dv(it, r, n), &w = dv(it, r, n); vitem(it, [&v, &w] { return v - w; }); });
    def([](Item& it, Rng& r) { auto& v = dv(it, r, 4); vitem(it, [&v] { return -(v * 2); }); });
    def([](Item& it, Rng& r) { auto& v = fv<4>(it, r); int i = int(r.below(4)); vitem(it, [&v, i] { return v.subvector(i); }); });
    def([](Item& it, Rng& r) { auto& m = fm<3, 4, RM>(it, r); int i = int(r.below(3)); vitem(it, [&m, i] { return cml::row(m, i); }); });
    def([](Item& it, Rng& r) { auto& m = dm<CM>(it, r, 1 + int(r.below(4)), 3); vitem(it, [&m] { return cml::col(m, 1); }); });
    def([](Item& it, Rng& r) { auto& m = fm<2, 2, RM>(it, r); mitem(it, [&m]() -> const auto& { return m; }); });
    def([](Item& it, Rng& r) { auto& m = fm<3, 3, CM>(it, r); mitem(it, [&m]() -> const auto& { return m; }); });
    def([](Item& it, Rng& r) { auto& m = fm<2, 3, CM>(it, r); mitem(it, [&m]() -> const auto& { return m; }); });
    def([](Item& it, Rng& r) { auto& m = fm<4, 4, RM>(it, r); mitem(it, [&m]() -> const auto& { return m; }); });
    def([](Item& it, Rng& r) { int a = int(r.below(5)), b = a ? 1 + int(r.below(4)) : 0; auto& m = dm<RM>(it, r, a, b); mitem(it, [&m]() -> const auto& { return m; }); });
    def([](Item& it, Rng& r) { int a = int(r.below(5)), b = a ? 1 + int(r.below(4)) : 0; auto& m = dm<CM>(it, r, a, b); mitem(it, [&m]() -> const auto& { return m; }); });
    def([](Item& it, Rng& r) { E* p = array(it, r, 6); auto* m = box<cml::matrix<E, cml::external<2, 3>, cml::row_basis, CM>>(it, p); mitem(it, [m]() -> const auto& { return *m; }); });
    def([](Item& it, Rng& r) { E* p = array(it, r, 6); auto* m = box<cml::matrix<E, cml::external<>, cml::row_basis, RM>>(it, p, 3, 2); mitem(it, [m]() -> const auto& { return *m; }); });
    def([](Item& it, Rng& r) { auto& m = fm<2, 3, RM>(it, r); mitem(it, [&m] { return cml::transpose(m); }); });
    def([](Item& it, Rng& r) { int a = 1 + int(r.below(3)), b = 1 + int(r.below(3)); auto &m = dm<RM>(it, r, a, b), &n = dm<CM>(it, r, a, b); mitem(it, [&m, &n] { return m + n; }); });
    def([](Item& it, Rng& r) { auto& m = dm<CM>(it, r, 2, 3); mitem(it, [&m] { return m * 3; }); });
    def([](Item& it, Rng& r) { auto &v = fv<2>(it, r), &w = fv<3>(it, r); mitem(it, [&v, &w] { return cml::outer(v, w); }); });
    if constexpr(!TR) {
      def([](Item& it, Rng& r) { auto &v = fv<3>(it, r), &w = fv<3>(it, r); vitem(it, [&v, &w] { return cml::cross(v, w); }); });
      def([](Item& it, Rng& r) { auto& m = dm<RM>(it, r, 2, 3); auto& v = dv(it, r, 3); vitem(it, [&m, &v] { return m * v; }); });
      def([](Item& it, Rng& r) { auto &m = dm<RM>(it, r, 2, 3), &n = dm<RM>(it, r, 3, 2); mitem(it, [&m, &n] { return m * n; }); });
      def([](Item& it, Rng& r) { auto& m = fm<3, 3, CM>(it, r); auto& v = fv<3>(it, r); vitem(it, [&m, &v] { return m * v; }); });
    }
    if constexpr(FP) {
      using QI = cml::quaternion<E, cml::fixed<>, cml::imaginary_first, cml::positive_cross>;
      using QR = cml::quaternion<E, cml::fixed<>, cml::real_first, cml::negative_cross>;
      auto q = [](Item& it, Rng& r, auto* tag) -> auto& { using Q = std::remove_pointer_t<decltype(tag)>; auto* x = box<Q>(it); for(int i = 0; i < 4; ++i) (*x)[i] = val(r); return *x; };
      auto qitem = [](Item& it, auto expr) {
        { auto&& x = expr(); add_elem(it, E(x.w())); add_elem(it, E(x.x())); add_elem(it, E(x.y())); add_elem(it, E(x.z())); }
        it.print = [expr](std::ostream& os) { os << expr(); };
      };
      def([q, qitem](Item& it, Rng& r) { auto& x = q(it, r, (QI*) 0); qitem(it, [&x]() -> const auto& { return x; }); });
      def([q, qitem](Item& it, Rng& r) { auto& x = q(it, r, (QR*) 0); qitem(it, [&x]() -> const auto& { return x; }); });
      def([q, qitem](Item& it, Rng& r) { auto &x = q(it, r, (QI*) 0), &y = q(it, r, (QI*) 0); qitem(it, [&x, &y] { return x + y; }); });
      def([q, qitem](Item& it, Rng& r) { auto& x = q(it, r, (QR*) 0); qitem(it, [&x] { return cml::conjugate(x); }); });
      def([q, qitem](Item& it, Rng& r) { auto &x = q(it, r, (QR*) 0), &y = q(it, r, (QR*) 0); qitem(it, [&x, &y] { return x * y; }); });
      def([q](Item& it, Rng& r) { auto& x = q(it, r, (QI*) 0); vitem(it, [&x] { return cml::imaginary(x); }); });
    }
  }
};

#define NAMES(E) "vector<" E ",1>", "vector<" E ",3>", "vector<" E ",7>", "vector<" E ",dynamic>", "vector<" E ",external>", "vector<" E ",external<4>>", E ": v + w", E ": dynamic v - w", E ": -(v * s)", E ": v.subvector(i)", \
  E ": row(M, i)", E ": col(M, j)", "matrix<" E ",2,2,row>", "matrix<" E ",3,3,col>", "matrix<" E ",2,3,col>", "matrix<" E ",4,4,row>", "matrix<" E ",dynamic,row>", "matrix<" E ",dynamic,col>", "matrix<" E ",external<2,3>,col>", \
  "matrix<" E ",external,row>", E ": transpose(M)", E ": M + N", E ": M * s", E ": outer(v, w)"
#define NAMES2(E) E ": cross(v, w)", E ": dynamic M * v", E ": dynamic M * N", E ": M * v"
#define NAMES3(E) "quaternion<" E ",imaginary_first>", "quaternion<" E ",real_first>", E ": p + q", E ": conjugate(q)", E ": p * q", E ": imaginary(q)"
static const char* const names_d[] = {NAMES("double"), NAMES2("double"), NAMES3("double")};
static const char* const names_f[] = {NAMES("float"), NAMES2("float"), NAMES3("float")};
static const char* const names_i[] = {NAMES("int"), NAMES2("int")};
static const char* const names_t[] = {NAMES("user type")};

// what an insertion of the step writes to a healthy stream
static std::string healthy(Item& it, const Format& f)
{
  Sink s;
  std::ostream os(&s);
  set_format(os, f);
  { Lib l; it.print(os); }
  if(!os.good()) report("stream:state", "inserting into a healthy stream leaves its state %d", int(os.rdstate()));
  Format g{os.flags(), int(os.precision()), 0, os.fill()};
  if(g.fl != f.fl || g.prec != f.prec || g.fill != f.fill) report("stream:format", "inserting changes the stream's format: flags %x -> %x, precision %d -> %d, fill '%c' -> '%c'", unsigned(f.fl), unsigned(g.fl), f.prec, g.prec, f.fill, g.fill);
  return s.data;
}
static std::vector<std::string> tokens(const std::string& s, bool user)
{
  std::vector<std::string> t; std::string cur;
  for(char c : s) {
    if(strchr("[]() ,;\t\n*_", c)) { if(!cur.empty()) t.push_back(cur); cur.clear(); }
    else cur.push_back(c);
  }
  if(!cur.empty()) t.push_back(cur);
  return t;
}

struct PrtWorld : World
{
  int plain = 1;
  PrtWorld()
  {
    if(!kinds.empty()) return;
    Make<double>::add(names_d); Make<float>::add(names_f); Make<int>::add(names_i); plain = int(kinds.size()); Make<Tracked>::add(names_t);
  }
  const char* name() const override { return "prt"; }
  std::vector<std::string> properties() const override { return {"P12"}; }
  const char* opname(const Plan&, int op) override { return op >= 0 && op < int(kinds.size()) ? kinds[size_t(op)].name : "?"; }
  uint64_t catalogue() override { return kinds.size(); }
  void generate(Plan& p, Rng& r) override
  {
    int nt = r.below(4) == 0 ? 2 + int(r.below(2)) : 1;
    p.cfg["threads"] = nt;
    p.cfg["sw"] = r.below(4);
    int n = 3 + int(r.below(20));
    if(r.chance(0.01)) n = 100 + int(r.below(300));
    std::vector<int> menu;
    for(int i = 0, k = 1 + int(r.below(6)); i < k; ++i) menu.push_back(int(r.below(uint32_t(nt > 1 ? plain : int(kinds.size())))));   // the ledger of user elements is not shared between threads
    for(int i = 0; i < n; ++i) {
      Step s;
      s.thread = nt > 1 ? int(r.below(uint32_t(nt))) : 0;
      s.op = menu[r.below(uint32_t(menu.size()))];
      s.a = r.below(2);              // which of the operands of this kind
      s.b = r.below(2);              // which stream of the thread
      s.c = r.below(16);             // exception mask and prior state
      s.n = r.below(16);             // buffering
      s.m = r.below(4) == 0;         // two insertions in one expression
      s.v = r.next() >> 8;           // format
      if(r.chance(0.6)) {
        static const int f[] = {F_SINK_SHORT, F_SINK_FAIL, F_SINK_THROW, F_SINK_SHORT, F_SINK_FAIL, F_SINK_THROW, F_ALLOC_ONE, F_ALLOC_ALL, F_ELEM_THROW, F_ELEM_THROW};
        s.fault = f[r.below(10)];
        s.at = s.fault == F_ALLOC_ONE ? r.below(3) : s.fault == F_ALLOC_ALL ? 0 : r.below(2) ? r.below(12) : r.below(70);
      }
      p.steps.push_back(s);
    }
  }
  void simplify(Plan& p) override { (void) p; }
  void child(const Plan& p, int, const std::vector<int>*) override
  {
    scribble_stack();
    Sink guard;
    std::cout.rdbuf(&guard); std::cerr.rdbuf(&guard); std::clog.rdbuf(&guard);
    const int nt = int(std::max(1l, std::min(4l, p.get("threads", 1))));
    std::map<std::pair<int, int>, Item> items;
    std::vector<std::string> text(p.steps.size());
    for(auto& s : p.steps) {
      auto key = std::make_pair(s.op % int(kinds.size()), int(s.a % 2));
      if(items.count(key)) continue;
      Item& it = items[key];
      Rng r(mix(p.seed, uint64_t(key.first * 2 + key.second)));
      kinds[size_t(key.first)].make(it, r);
    }
    for(auto& i : items) i.second.hash();
    auto item = [&](const Step& s) -> Item& { return items.find(std::make_pair(s.op % int(kinds.size()), int(s.a % 2)))->second; };
    auto all_healthy = [&](bool first) {
      for(size_t i = 0; i < p.steps.size(); ++i) {
        Format f = format_of(p.steps[i]);
        Item& it = item(p.steps[i]);
        std::string t = healthy(it, f);
        if(!first) { if(t != text[i]) report("stream:text", "inserting %s into a healthy stream gives other text at the end of the run: '%.200s', before '%.200s'", opname(p, p.steps[i].op), t.c_str(), text[i].c_str()); continue; }
        text[i] = t;
        // the elements appear in order
        bool user = opname(p, p.steps[i].op)[0] == 'u' || strstr(opname(p, p.steps[i].op), "user");
        std::vector<std::string> want;
        for(auto& e : it.elems) { Sink s; std::ostream os(&s); Format g = f; g.width = 0; set_format(os, g); { Lib l; e(os); } for(auto& x : tokens(s.data, user)) want.push_back(x); }
        std::vector<std::string> got = tokens(t, user);
        if(f.width) {                     // the padding may be inside the first element
          auto join = [](std::vector<std::string>& x) { std::string y; for(auto& e : x) y += e; x = {y}; };
          join(got); join(want);
        }
        if(got != want) {
          std::string w; for(auto& x : want) w += x + " ";
          report("stream:text", "inserting %s writes '%.300s'; its elements are %.300s", opname(p, p.steps[i].op), t.c_str(), w.c_str());
        }
      }
    };
    all_healthy(true);

    struct Stream { Sink sink; std::ostream os; Stream() : os(&sink) {} };
    std::vector<Stream*> streams;
    for(int i = 0; i < nt * 2; ++i) streams.push_back(new Stream);

    auto run = [&](size_t i, int th) {
      const Step& s = p.steps[i];
      Stream& S = *streams[size_t(th * 2 + int(s.b % 2))];
      std::ostream& os = S.os; Sink& k = S.sink;
      Item& it = item(s);
      const char* nm = opname(p, s.op);
      step_begin(int(i), s);
      Format f = format_of(s);
      {
        NoLib l;
        os.exceptions(std::ios::goodbit); os.clear();
        k.repair(); k.buffered(s.n % 2 ? 1 + int(s.n % 8) : 0);
        set_format(os, f);
        int prior = s.c % 8 == 1 ? int(std::ios::failbit) : s.c % 8 == 2 ? int(std::ios::badbit) : s.c % 8 == 3 ? int(std::ios::eofbit) : 0;
        os.setstate(std::ios::iostate(prior));
        if(!prior && s.c >= 8) os.exceptions(s.c % 3 == 0 ? std::ios::badbit : s.c % 3 == 1 ? (std::ios::badbit | std::ios::failbit) : std::ios::failbit);
        k.fault = s.fault == F_SINK_SHORT || s.fault == F_SINK_FAIL || s.fault == F_SINK_THROW ? s.fault : F_NONE; k.at = s.at;
      }
      int before = int(os.rdstate());
      auto mask = os.exceptions();
      bool two = s.m & 1;
      std::string exc;
      bool same = true;
      try {
        Lib l;
        it.print(os);
        if(two) { it.print(os); }
      }
      catch(const std::ios_base::failure&) { NoLib l; exc = "ios_base::failure"; }
      catch(const std::exception& e) { NoLib l; int st = 0; char* q = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); exc = q ? q : "?"; free(q); }
      catch(const ElemError&) { NoLib l; exc = "ElemError"; }
      catch(const SinkError&) { NoLib l; exc = "SinkError"; }
      catch(...) { NoLib l; exc = "other"; }
      NoLib l;
      bool armed = s.fault == F_ALLOC_ONE || s.fault == F_ALLOC_ALL || s.fault == F_ELEM_THROW;
      bool ff = armed && fault_fired();
      disarm();
      StepResult& r = step_result(int(i));
      r.executed = exc.empty() ? 1 : 2;
      snprintf(r.exc, sizeof r.exc, "%s", exc.c_str());
      if(k.fired) r.fault_fired = 1;
      int state = int(os.rdstate());
      std::string want = text[i];
      Format f0 = f; f0.width = 0;
      if(two) { Sink ks; std::ostream o2(&ks); set_format(o2, f0); Lib l2; want += f.width ? healthy(it, f0) : text[i]; if(it.elems.empty() && f.width) want = ""; }
      bool fmt_ok = os.flags() == f.fl && os.precision() == f.prec && os.fill() == f.fill && os.exceptions() == mask;
      if(!fmt_ok) report("stream:format", "inserting %s changes the stream's format: flags %x -> %x, precision %d -> %d, fill '%c' -> '%c', exceptions %d -> %d", nm, unsigned(f.fl), unsigned(os.flags()), f.prec, int(os.precision()), f.fill, os.fill(), int(mask), int(os.exceptions()));
      if(before) {
        if(!k.data.empty()) report("stream:wrote", "inserting %s into a stream in state %d writes '%.100s'", nm, before, k.data.c_str());
        if((state & before) != before) report("stream:state", "inserting %s into a stream in state %d clears it to %d", nm, before, state);
        if(!exc.empty() && !ff) report("stream:exception", "inserting %s into a failed stream throws %s", nm, exc.c_str());
      }
      else {
        bool failed = k.fired || ff;
        bool flushed = true;
        if(!failed && exc.empty() && k.width) { k.fault = F_NONE; os.exceptions(std::ios::goodbit); os.flush(); flushed = os.good(); state = int(os.rdstate()); }
        if(!failed) {
          if(!exc.empty()) report("stream:exception", "inserting %s into a healthy stream throws %s", nm, exc.c_str());
          else if(state) report("stream:state", "inserting %s into a healthy stream leaves its state %d", nm, state);
          else if(k.data != want && !(two && f.width && it.elems.empty())) report("stream:text", "inserting %s writes '%.200s'; a fresh stream gets '%.200s'", nm, k.data.c_str(), want.c_str());
        }
        else {
          if(!(two && f.width && it.elems.empty()) && want.compare(0, k.data.size(), k.data) != 0) report("stream:prefix", "inserting %s into a stream that fails after %u bytes writes '%.200s', which is not a prefix of '%.200s'", nm, s.at, k.data.c_str(), want.c_str());
          if(k.fired) {
            if(!(state & std::ios::badbit)) report("stream:silent", "the sink failed while %s was inserted and the stream's state is %d", nm, state);
            bool thrown = s.fault == F_SINK_THROW ? (mask & std::ios::badbit) : (mask & (std::ios::badbit)) || ((mask & std::ios::failbit) && (state & std::ios::failbit));
            if(thrown && exc.empty()) report("stream:silent", "the sink failed while %s was inserted, and the stream's exception mask %d is ignored", nm, int(mask));
            if(!exc.empty() && exc != "SinkError" && exc.find("ios_base::failure") == std::string::npos) report("stream:exception", "a failing sink makes inserting %s throw %s", nm, exc.c_str());
            if(!exc.empty() && !mask) report("stream:exception", "a failing sink makes inserting %s throw %s although the stream's exceptions are off", nm, exc.c_str());
          }
          else if(exc.empty() && !(state & std::ios::badbit) && s.fault == F_ELEM_THROW) report("stream:silent", "an element's exception did not reach the caller of an insertion of %s", nm);
          else if(!exc.empty() && exc != (s.fault == F_ELEM_THROW ? "ElemError" : "std::bad_alloc") && exc.find("ios_base::failure") == std::string::npos) report("stream:exception", "an injected failure makes inserting %s throw %s", nm, exc.c_str());
          else if(exc.empty() && s.fault != F_ELEM_THROW && !(state & std::ios::badbit)) {
            // an allocation failed and nobody was told: then everything must have been written
            os.exceptions(std::ios::goodbit); os.flush();
            if(k.data != want) report("stream:silent", "an allocation failed while %s was inserted; the text is '%.200s', the state %d", nm, k.data.c_str(), state);
          }
        }
        (void) flushed; (void) same;
      }
      out_str(k.data.c_str(), k.data.size()); out(state); out_str(exc.c_str(), exc.size());
      if(!it.intact()) report("stream:operand", "inserting %s changes its operand", nm);
      step_end();
    };
    if(nt == 1) for(size_t i = 0; i < p.steps.size(); ++i) run(i, 0);
    else {
      std::vector<std::function<void()>> bodies;
      for(int t = 0; t < nt; ++t) bodies.push_back([&, t] { NoLib n; for(size_t i = 0; i < p.steps.size(); ++i) if(p.steps[i].thread % nt == t) { run(i, t); } });
      run_threads(bodies);
    }
    all_healthy(false);
    if(!guard.data.empty()) report("stream:other", "an insertion wrote '%.100s' to another stream", guard.data.c_str());
    for(auto& i : items) if(!i.second.intact()) report("stream:operand", "an operand changed");
    for(auto* s : streams) delete s;
    for(auto& i : items) for(auto r = i.second.release.rbegin(); r != i.second.release.rend(); ++r) (*r)();
    if(live_blocks(-1)) { char b[600]; describe_live(b, sizeof b); report("leak:blocks", "%zu blocks are still allocated at the end:%s", live_blocks(-1), b); }
    mark_nontrivial();
  }
};
}  // namespace prt

namespace sim { World* make_world() { return new prt::PrtWorld; } }
