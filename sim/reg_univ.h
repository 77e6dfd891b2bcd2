// World "reg": one universe of types behind the non-template interface.
#pragma once
#include "reg_pool.h"
#include <new>

namespace reg {
template<class U> struct UnivImpl : UnivBase
{
  using T = typename U::T;
  Registry<U> r;
  UnivImpl() { reg_vec(r); reg_mat(r); reg_mat2(r); reg_quat(r); reg_geo(r); reg_rot(r); reg_expr(r); reg_more(r); reg_big(r); }
  int nops() override { return int(r.ops.size()); }
  OpInfo info(int op) override { auto& o = r.ops[size_t(op)]; return OpInfo{o.name.c_str(), o.flags}; }
  size_t pool_bytes() override { return sizeof(Pool<U>); }
  size_t buffer_bytes() override { return Pool<U>::elements() * sizeof(T); }
  void make_pool(void* mem, uint64_t seed, int flavour, char* buf, int nth, int t) override {
    auto* p = new(mem) Pool<U>(seed, flavour, (T*) buf, nth, t);
    for(auto& b : r.exprs) p->exprs.push_back(b(*p));
  }
  void free_pool(void* p) override { ((Pool<U>*) p)->~Pool<U>(); }
  uint64_t pool_hash(void* p) override
  {
    uint64_t h = 1;
    ((Pool<U>*) p)->each([&](T x) { double d = double(x); uint64_t b; if(d != d) b = 7; else std::memcpy(&b, &d, 8); h = sim::mix(h, b); });
    return h;
  }
  void call(const sim::Step& s, void* pool, void* scratch, bool priv) override
  {
    auto& op = r.ops[size_t(s.op) % r.ops.size()];
    Ctx<U> c{*(Pool<U>*) pool, *(Pool<U>*) scratch, s, priv, !priv && ((s.v >> 52) & 1)};
    op.f(c);
  }
};
}  // namespace reg
