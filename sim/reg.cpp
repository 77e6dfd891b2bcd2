// World "reg": generator, execution and comparison.
#include "reg.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <typeinfo>
#include <cxxabi.h>

using namespace sim;
namespace reg {

double Vals::operator()()
{
  static const double sp[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 1e30, -1e30, 1e-30, 1e-38, 3.4e38, 1.5707963267948966, 6.283185307179586, 1e300, -1e-310};
  if(flavour == 1 && r.chance(0.3)) return sp[r.below(16)];
  if(flavour == 2) return double(int(r.below(7)) - 3);
  if(flavour == 3) return r.chance(0.5) ? 0.0 : sp[r.below(16)];
  double x = r.unit() * 4 - 2;
  return double(float(x));
}

static void record_throw(const char* type, const char* what)
{
  StepResult& s = step_result(current_step());
  s.executed = 2;
  int st = 0;
  char* d = abi::__cxa_demangle(type, nullptr, nullptr, &st);
  snprintf(s.exc, sizeof s.exc, "%s", d ? d : type);
  free(d);
  out_str(s.exc, strlen(s.exc));
  if(what) out_str(what, strlen(what));
}
// calls f inside the library scope; true when it returned
template<class F> static bool guarded(F f)
{
  try { Lib l; f(); return true; }
  catch(const std::exception& e) { record_throw(typeid(e).name(), e.what()); }
  catch(...) { record_throw("unknown", nullptr); }
  return false;
}

struct Arena   // a pool and the caller's array behind its views
{
  UnivBase* u; void* mem = nullptr; char* buf; bool own;
  Arena(UnivBase* u_, uint64_t seed, int flavour, char* shared = nullptr, int nth = 1, int t = 0) : u(u_), buf(shared), own(!shared)
  {
    if(own) buf = (char*) caller_alloc(u->buffer_bytes());
    mem = caller_alloc(u->pool_bytes(), 64);
    Lib l;
    u->make_pool(mem, seed, flavour, buf, nth, t);
  }
  ~Arena()
  {
    { Lib l; u->free_pool(mem); }
    caller_free(mem);
    if(own) caller_free(buf);
  }
  uint64_t hash() { return u->pool_hash(mem); }
};

struct RegWorld : World
{
  std::vector<UnivBase*> u;
  RegWorld() { u = {make_univ_a(), make_univ_b()}; }
  const char* name() const override { return "reg"; }
  std::vector<std::string> properties() const override { return {"P01", "P02", "P05", "P07", "P08", "P09", "P11", "P15"}; }
  UnivBase* univ(const Plan& p) { return u[size_t(p.get("univ", 0)) % u.size()]; }
  const char* opname(const Plan& p, int op) override
  {
    UnivBase* x = univ(p);
    return op >= 0 && op < x->nops() ? x->info(op).name : "?";
  }
  uint64_t catalogue() override { uint64_t n = 0; for(auto* x : u) n += uint64_t(x->nops()); return n; }
  void generate(Plan& p, Rng& r) override
  {
    const std::string& P = p.property;
    p.cfg["univ"] = long(r.below(uint32_t(u.size())));
    UnivBase* x = univ(p);
    bool par = P == "P07" || P == "P08" || P == "P15";
    int nth = par ? 2 + int(r.below(3)) : 1;
    p.cfg["threads"] = nth;
    static const int fl[] = {0, 0, 0, 1, 1, 2, 3};
    p.cfg["flavour"] = P == "P15" ? (r.chance(0.8) ? (r.chance(0.5) ? 1 : 3) : fl[r.below(7)]) : fl[r.below(7)];
    if(par) {
      p.cfg["sched"] = r.chance(0.75) ? 2 : 1;
      p.cfg["gap"] = long(r.below(6));
    }
    if(P == "P15" && r.chance(0.9)) { p.cfg["stall_thread"] = long(r.below(uint32_t(nth))); p.cfg["stall_at"] = long(r.below(r.chance(0.5) ? 400 : 6000)); }
    // the operations of this run
    auto allowed = [&](int op) {
      int f = x->info(op).flags;
      if(f & F_RANDOM) return P == "P11" || P == "P09" || P == "P15";
      if(P == "P02") return (f & F_DYN) != 0;
      if(P == "P05") return !(f & (F_DYN | F_HEAVY | F_THROWS));
      return true;
    };
    int nd = P == "P09" ? 3 + int(r.below(10)) : 1 + int(r.below(6));
    std::vector<int> menu;
    while(int(menu.size()) < nd) {
      int op = int(r.below(uint32_t(x->nops())));
      if(!allowed(op)) continue;
      if(P == "P01" && !(x->info(op).flags & F_DYN) && r.chance(0.8)) continue;
      menu.push_back(op);
    }
    int steps = par ? nth * (1 + int(r.below(6))) : 6 + int(r.below(26));
    if(r.chance(0.015)) steps *= 2 + int(r.below(par ? 8 : 5));       // a long history
    bool faults = (P == "P08" && r.chance(0.6)) || P == "P09" || P == "P01" || P == "P02";
    uint32_t na = r.chance(0.5) ? 2 : 6;      // small range: the same operands again and again
    for(int i = 0; i < steps; ++i) {
      Step s;
      s.thread = par ? i % nth : 0;
      s.op = menu[r.below(uint32_t(menu.size()))];
      if(par && i % nth != 0 && r.chance(0.5)) s.op = p.steps[size_t(i) - 1].op;
      s.a = r.below(na); s.b = r.below(6); s.c = r.below(6);
      s.n = r.below(60); s.m = r.below(60);
      s.v = r.next() >> 8;
      if(faults && (x->info(s.op).flags & (F_DYN | F_THROWS | F_HEAVY)) && r.chance(P == "P02" ? 0.9 : P == "P09" ? 0.25 : 0.4)) {
        s.fault = r.chance(0.75) ? F_ALLOC_ONE : F_ALLOC_ALL;
        s.at = r.below(r.chance(0.7) ? 2 : 6);
      }
      p.steps.push_back(s);
    }
  }

  void step(const Plan& p, UnivBase* x, int i, Arena& a, Arena& scratch, bool priv, int mode)
  {
    const Step& s = p.steps[size_t(i)];
    const std::string& P = p.property;
    OpInfo f = x->info(s.op);
    Step q = s;
    if(P == "P02") q.fault = F_NONE;
    step_begin(i, q);
    uint64_t d0 = rand_draws() + rdev_draws() + srand_calls();
    if(P == "P02" && mode == 0 && s.fault) {      // first attempt meets the fault
      uint64_t h0 = a.hash();
      arm(s.fault, s.at);
      bool ok = guarded([&] { x->call(s, a.mem, scratch.mem, false); });
      bool fired = fault_fired();
      disarm();
      NoLib n;
      StepResult& r = step_result(i);
      if(fired && !(f.flags & F_THROWS)) {
        if(!ok && strcmp(r.exc, "std::bad_alloc")) report("exception:type", "%s failed with %s when memory ran out", f.name, r.exc);
        mark_nontrivial();
      }
      if(a.hash() != h0) report("atomicity:operand", "%s changed an operand when memory ran out", f.name);
      r.executed = 0; r.hash = 0; r.nvals = 0; r.exc[0] = 0;
    }
    uint64_t h0 = P == "P07" ? a.hash() : 0;
    bool ok = guarded([&] { x->call(s, a.mem, scratch.mem, priv); });
    if(P == "P05" && ok && !(f.flags & (F_DYN | F_HEAVY | F_THROWS))) {
      if(step_allocs() > 0) report("heap:alloc", "%s obtained dynamic memory", f.name);
      StepResult& r = step_result(i);
      uint64_t h = r.hash;
      r.hash = 0; r.nvals = 0;
      deny_allocs(true); result().faults[F_ALLOC_ALL]++;
      ok = guarded([&] { x->call(s, a.mem, scratch.mem, priv); });
      deny_allocs(false);
      if(!ok || step_allocs() > 0) report("heap:alloc", "%s failed or obtained memory when none is available", f.name);
      if(r.hash != h) report("heap:differs", "%s gives another result when no memory is available", f.name);
      mark_nontrivial();
    }
    if(P == "P07" && !(f.flags & F_RANDOM) && a.hash() != h0) report("operand:modified", "%s changed a shared operand", f.name);
    if(!(f.flags & F_RANDOM) && rand_draws() + rdev_draws() + srand_calls() != d0 && p.get("threads", 1) == 1)
      report("source:draw", "%s drew from a random source", f.name);
    step_end();
  }

  void child(const Plan& p, int mode, const std::vector<int>* only) override
  {
    const std::string& P = p.property;
    UnivBase* x = univ(p);
    int nth = int(p.get("threads", 1)), n = int(p.steps.size());
    bool priv = P == "P08";
    int flavour = int(p.get("flavour", 0));
    if(P == "P15" && mode == 2) flavour = 0;
    scribble_stack();
    rand_script(RandScript{0, 0}, mix(p.seed, 5));
    {
      Boxed<int> pad(1);
      char* shared = (char*) caller_alloc(x->buffer_bytes() * size_t(nth));
      std::vector<Arena*> pools, scratch;
      int np = priv ? nth : 1;
      for(int t = 0; t < np; ++t) pools.push_back(new Arena(x, mix(p.seed, priv ? 100 + t : 100), flavour, priv ? shared : nullptr, priv ? nth : 1, priv ? t : 0));
      for(int t = 0; t < nth; ++t) scratch.push_back(new Arena(x, mix(p.seed, 200), flavour, priv ? nullptr : shared, priv ? 1 : nth, priv ? 0 : t));
      auto run_thread = [&](int t, bool rev) {
        for(int k = 0; k < n; ++k) {
          int i = rev ? n - 1 - k : k;
          const Step& s = p.steps[size_t(i)];
          if(s.thread % nth != t) continue;
          if(only && std::find(only->begin(), only->end(), i) == only->end()) continue;
          step(p, x, i, *pools[size_t(priv ? t : 0)], *scratch[size_t(t)], priv, mode);
        }
      };
      if(nth == 1) {
        run_thread(0, mode == 1 && P == "P09");
        if(mode == 0 && P != "P05" && P != "P02") mark_nontrivial();
      }
      else if(mode == 0 || P == "P15") {
        std::vector<std::function<void()>> b;
        for(int t = 0; t < nth; ++t) b.push_back([&, t] { run_thread(t, false); });
        run_threads(b);
        if(result().switches > uint64_t(nth)) mark_nontrivial();
      }
      else   // reference: the threads one after another, last first (constant operands: steps in reverse order too)
        for(int t = nth - 1; t >= 0; --t) run_thread(t, P == "P07");
      uint64_t ph = 0;
      if(priv) for(auto* a : pools) { uint64_t h = a->hash(); ph = mix(ph, h); }
      result().state_hash = ph;
      for(auto* a : scratch) delete a;
      for(auto* a : pools) delete a;
      caller_free(shared);
    }
    if(live_blocks(-1)) {
      char b[600]; describe_live(b, sizeof b);
      report("leak:blocks", "%zu blocks are still allocated at the end:%s", live_blocks(-1), b);
    }
  }

  static void fail(RunResult& r, const char* cls, int step, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
  {
    r.violated = 1;
    snprintf(r.cls, sizeof r.cls, "%s", cls);
    r.step = step;
    va_list ap; va_start(ap, fmt); vsnprintf(r.msg, sizeof r.msg, fmt, ap); va_end(ap);
  }
  static std::string vals(const StepResult& s)
  {
    std::string o; char b[40];
    if(s.executed == 2) o = std::string("threw ") + s.exc;
    for(int i = 0; i < s.nvals && i < 12; ++i) { snprintf(b, sizeof b, " %.17g", s.vals[i]); o += b; }
    return o;
  }
  bool compare(const Plan& p, RunResult& r, RunResult& q, const char* cls, const char* how, int one = -1)
  {
    for(int i = 0; i < int(p.steps.size()); ++i) {
      if(one >= 0 && i != one) continue;
      StepResult& a = r.steps[i]; StepResult& b = q.steps[i];
      if(a.hash == b.hash && a.executed == b.executed) continue;
      if((a.fault_fired || b.fault_fired) && p.property != "P08") continue;
      if(univ(p)->info(p.steps[size_t(i)].op).flags & F_RANDOM) continue;
      fail(r, cls, i, "%s gives another result %s: [%s ] instead of [%s ]", opname(p, p.steps[size_t(i)].op), how, vals(a).c_str(), vals(b).c_str());
      return false;
    }
    return true;
  }
  RunResult& drive(const Plan& p, Runner& run) override
  {
    const std::string& P = p.property;
    RunResult& r = run.exec(p, 0, 0);
    if(r.violated || P == "P05" || P == "P01" || P == "P11") return r;
    RunResult& q = run.exec(p, 1, 1);
    if(q.violated) return q;
    if(P == "P07") { compare(p, r, q, "differs:serial", "than when it runs alone"); return r; }
    if(P == "P02") { compare(p, r, q, "retry:differs", "after a failed attempt"); return r; }
    if(P == "P15") {
      if(!compare(p, r, q, "stall:result", "after a suspension")) return r;
      RunResult& z = run.exec(p, 2, 2);
      if(z.violated) return z;
      for(int i = 0; i < int(p.steps.size()); ++i) {
        StepResult& a = r.steps[i]; StepResult& b = z.steps[i];
        if(univ(p)->info(p.steps[size_t(i)].op).flags & F_RANDOM) continue;
        if(a.executed == 1 && b.executed == 1 && a.accesses > b.accesses * 20 + 5000) {
          fail(r, "stall:steps", i, "%s takes %u memory accesses on these values and %u on ordinary ones", opname(p, p.steps[size_t(i)].op), a.accesses, b.accesses);
          return r;
        }
      }
      return r;
    }
    if(P == "P08") {
      if(!compare(p, r, q, "differs:alone", "than when its thread runs alone")) return r;
      if(r.state_hash != q.state_hash) fail(r, "spill:state", -1, "the final objects differ from those the threads compute alone");
      return r;
    }
    // P09
    if(!compare(p, r, q, "differs:order", "after the other calls in reverse order")) return r;
    if(p.steps.empty()) return r;
    Rng g(mix(p.seed, 77));
    for(int k = 0; k < 2; ++k) {
      std::vector<int> one{int(g.below(uint32_t(p.steps.size())))};
      RunResult& z = run.exec(p, 2, 2, &one);
      if(z.violated) return z;
      if(!compare(p, r, z, "differs:fresh", "than in a fresh process", one[0])) return r;
    }
    return r;
  }
};
}  // namespace reg

namespace sim { World* make_world() { return new reg::RegWorld; } }
