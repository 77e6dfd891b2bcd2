// Stateless allocators over the simulated heap, and a tracked element type.
#pragma once
#include "sim.h"
#include <cml/scalar/traits.h>
#include <cml/common/traits.h>
#include <cml/common/temporary.h>
#include <limits>
#include <memory>
#include <new>
#include <type_traits>

namespace sim {

// K = A_USER1 or A_USER2.  Two different types, so blocks of one must never reach the other.
template<class T, int K> struct UserAlloc
{
  using value_type = T;
  template<class U> struct rebind { using other = UserAlloc<U, K>; };
  UserAlloc() noexcept {}
  template<class U> UserAlloc(const UserAlloc<U, K>&) noexcept {}
  T* allocate(std::size_t n)
  {
    if(n > (std::size_t(1) << 40)) throw std::bad_array_new_length();
    return static_cast<T*>(heap_alloc(n * sizeof(T), K, n, sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept { heap_free(p, K, n, sizeof(T), true); }
};
template<class T, class U, int K> bool operator==(const UserAlloc<T, K>&, const UserAlloc<U, K>&) { return true; }
template<class T, class U, int K> bool operator!=(const UserAlloc<T, K>&, const UserAlloc<U, K>&) { return false; }

template<class A> struct owner_of { static const int value = A_GLOBAL; };
template<class T, int K> struct owner_of<UserAlloc<T, K>> { static const int value = K; };

// ---------------------------------------------------------------- tracked element
struct ElemError {};

struct Ledger { long live = 0; uint64_t made = 0, copied = 0, assigned = 0, destroyed = 0; };
inline Ledger& ledger() { static Ledger l; return l; }

struct Tracked
{
  static const uint64_t ALIVE = 0x7e57ed00a11fe000ull;
  double v;
  uint64_t magic;
  const Tracked* self;

  bool alive() const { return magic == ALIVE && self == this; }
  static void point() { if(!lib_active()) return; NoLib nl; if(elem_fault_point()) throw ElemError(); }
  void check(const char* what) const
  {
    if(alive()) return;
    NoLib nl;
    report("element:dead", "%s an element object that was never constructed, was already destroyed, or was moved as raw bytes", what);
  }
  void born(double x) { v = x; magic = ALIVE; self = this; ledger().live++; ledger().made++; }

  Tracked() { point(); born(0); }
  Tracked(double x) { point(); born(x); }
  Tracked(float x) { point(); born(x); }
  Tracked(int x) { point(); born(x); }
  Tracked(const Tracked& o) { o.check("copy from"); point(); ledger().copied++; born(o.v); }
  Tracked& operator=(const Tracked& o)
  {
    o.check("assign from"); check("assign to"); point();
    ledger().assigned++;
    v = o.v;
    return *this;
  }
  ~Tracked()
  {
    check("destroy");
    magic = 0xdeadull; self = nullptr;
    ledger().live--; ledger().destroyed++;
  }
  explicit operator double() const { check("read"); return v; }
  Tracked& operator+=(const Tracked& o) { check("add to"); o.check("read"); point(); v += o.v; return *this; }
  Tracked& operator-=(const Tracked& o) { check("subtract from"); o.check("read"); point(); v -= o.v; return *this; }
  Tracked& operator*=(const Tracked& o) { check("scale"); o.check("read"); point(); v *= o.v; return *this; }
  Tracked& operator/=(const Tracked& o) { check("scale"); o.check("read"); point(); v /= o.v; return *this; }
};
inline double tv(const Tracked& a) { a.check("read"); return a.v; }
inline Tracked operator+(const Tracked& a, const Tracked& b) { return Tracked(tv(a) + tv(b)); }
inline Tracked operator-(const Tracked& a, const Tracked& b) { return Tracked(tv(a) - tv(b)); }
inline Tracked operator*(const Tracked& a, const Tracked& b) { return Tracked(tv(a) * tv(b)); }
inline Tracked operator/(const Tracked& a, const Tracked& b) { return Tracked(tv(a) / tv(b)); }
inline Tracked operator-(const Tracked& a) { return Tracked(-tv(a)); }
inline Tracked operator+(const Tracked& a) { return Tracked(tv(a)); }
inline bool operator<(const Tracked& a, const Tracked& b) { return tv(a) < tv(b); }
inline bool operator>(const Tracked& a, const Tracked& b) { return tv(a) > tv(b); }
inline bool operator==(const Tracked& a, const Tracked& b) { return tv(a) == tv(b); }
inline bool operator!=(const Tracked& a, const Tracked& b) { return tv(a) != tv(b); }

inline double to_d(double x) { return x; }
inline double to_d(float x) { return x; }
inline double to_d(int x) { return x; }
inline double to_d(const Tracked& x) { return x.v; }

}  // namespace sim

namespace cml {
template<> struct scalar_traits<sim::Tracked> : std::numeric_limits<double>
{
  using value_type = sim::Tracked;
  using pointer = value_type*;
  using reference = value_type&;
  using const_pointer = value_type const*;
  using const_reference = value_type const&;
  using mutable_value = reference;
  using immutable_value = const_reference;
  static value_type fabs(const value_type& v) { return value_type(std::fabs(sim::tv(v))); }
  static value_type sqrt(const value_type& v) { return value_type(std::sqrt(sim::tv(v))); }
  static value_type epsilon() { return value_type(1e-16); }
  static value_type sqrt_epsilon() { return value_type(1e-8); }
};
template<> struct traits_of<sim::Tracked> { using type = scalar_traits<sim::Tracked>; };
template<> struct temporary_of<sim::Tracked> { using type = sim::Tracked; };
}  // namespace cml
