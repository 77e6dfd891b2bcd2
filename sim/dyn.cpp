// World "dyn": driver, generator and the plain model's linear algebra.
#include "dyn.h"
#include <algorithm>
#include <cmath>
#include <cstring>

using namespace sim;
namespace dyn {

bool lu_np(const std::vector<double>& a, int n, std::vector<double>& lu)
{
  std::vector<long double> m(a.begin(), a.end());
  auto M = [&](int i, int j) -> long double& { return m[size_t(i * n + j)]; };
  long double growth = 0;
  for(int k = 0; k < n; ++k) {
    if(fabsl(M(k, k)) < 0.2L) return false;
    for(int i = k + 1; i < n; ++i) {
      M(i, k) /= M(k, k);
      for(int j = k + 1; j < n; ++j) M(i, j) -= M(i, k) * M(k, j);
    }
  }
  for(auto x : m) growth = std::max(growth, fabsl(x));
  if(growth > 1e3L) return false;
  lu.assign(m.begin(), m.end());
  return true;
}
double det(const std::vector<double>& a, int n)
{
  std::vector<long double> m(a.begin(), a.end());
  auto M = [&](int i, int j) -> long double& { return m[size_t(i * n + j)]; };
  long double d = 1;
  for(int k = 0; k < n; ++k) {
    int p = k;
    for(int i = k + 1; i < n; ++i) if(fabsl(M(i, k)) > fabsl(M(p, k))) p = i;
    if(M(p, k) == 0) return 0;
    if(p != k) { d = -d; for(int j = 0; j < n; ++j) std::swap(M(p, j), M(k, j)); }
    d *= M(k, k);
    for(int i = k + 1; i < n; ++i) {
      long double f = M(i, k) / M(k, k);
      for(int j = k; j < n; ++j) M(i, j) -= f * M(k, j);
    }
  }
  return double(d);
}
bool inverse(const std::vector<double>& a, int n, std::vector<double>& inv, double& cond)
{
  std::vector<long double> m(a.begin(), a.end()), v(size_t(n * n), 0.0L);
  auto M = [&](int i, int j) -> long double& { return m[size_t(i * n + j)]; };
  auto V = [&](int i, int j) -> long double& { return v[size_t(i * n + j)]; };
  long double na = 0, nv = 0;
  for(auto x : m) na = std::max(na, fabsl(x));
  for(int i = 0; i < n; ++i) V(i, i) = 1;
  for(int k = 0; k < n; ++k) {
    int p = k;
    for(int i = k + 1; i < n; ++i) if(fabsl(M(i, k)) > fabsl(M(p, k))) p = i;
    if(fabsl(M(p, k)) < 1e-6L) return false;
    for(int j = 0; j < n; ++j) { std::swap(M(p, j), M(k, j)); std::swap(V(p, j), V(k, j)); }
    long double s = 1 / M(k, k);
    for(int j = 0; j < n; ++j) { M(k, j) *= s; V(k, j) *= s; }
    for(int i = 0; i < n; ++i) if(i != k) {
      long double f = M(i, k);
      for(int j = 0; j < n; ++j) { M(i, j) -= f * M(k, j); V(i, j) -= f * V(k, j); }
    }
  }
  for(auto x : v) nv = std::max(nv, fabsl(x));
  cond = double(na * nv) * n;
  inv.assign(v.begin(), v.end());
  return true;
}

struct DynWorld : World
{
  std::vector<UnivBase*> u;
  DynWorld() { u = {make_univ_0(), make_univ_1(), make_univ_2(), make_univ_3(), make_univ_4()}; }
  const char* name() const override { return "dyn"; }
  std::vector<std::string> properties() const override { return {"P01", "P02", "P03", "P04", "P09", "P11", "P14"}; }
  UnivBase* univ(const Plan& p) { return u[size_t(p.get("univ", 0)) % u.size()]; }
  const char* opname(const Plan& p, int op) override
  {
    UnivBase* x = univ(p);
    return op >= 0 && op < x->nops() ? x->info(op).name : "?";
  }
  uint64_t catalogue() override { uint64_t n = 0; for(auto* x : u) n += uint64_t(x->nops()); return n; }
  void generate(Plan& p, Rng& r) override
  {
    const std::string& P = p.property;
    int un;
    if(P == "P14") { static const int c[] = {0, 1, 1, 2, 4, 4}; un = c[r.below(6)]; }
    else if(P == "P04") { static const int c[] = {0, 1, 1, 2, 3, 4}; un = c[r.below(6)]; }
    else { static const int c[] = {0, 1, 1, 1, 2, 3, 4}; un = c[r.below(7)]; }
    p.cfg["univ"] = un;
    UnivBase* x = u[size_t(un)];
    int n = x->nops();
    std::vector<int> w(static_cast<size_t>(n));
    // swarm: each run switches a random part of the operations off
    double keep = 0.15 + 0.85 * r.unit();
    // some runs are about geometry: they start from vectors and matrices of 2, 3 and 4 dimensions and mostly keep them
    bool geo = r.chance(P == "P03" ? 0.45 : P == "P04" ? 0.1 : 0.3);
    long total = 0;
    for(int i = 0; i < n; ++i) {
      OpInfo f = x->info(i);
      int k = f.weight;
      if(geo) k = (f.flags & OF_GEO) ? k * 8 : k;
      if(P == "P04") k = (f.flags & OF_MOVE) ? k * 8 : k;
      if(P == "P14") k = (f.flags & (OF_ALLOC | OF_CROSS | OF_RESIZE)) ? k * 3 : k;
      if(P == "P02") k = (f.flags & (OF_ALLOC | OF_RESIZE | OF_SIZE)) ? k * 2 : k;
      if(!(f.flags & (OF_ALLOC | OF_RESIZE | OF_MOVE)) && !r.chance(keep)) k = 0;
      w[size_t(i)] = k; total += k;
    }
    int steps = 6 + int(r.below(40));
    double pf = r.below(5) == 0 ? 0 : P == "P03" ? 0.2 : P == "P02" ? 0.55 : 0.35;
    int base = 1 + int(r.below(7));     // typical size of this run
    bool big = r.chance(0.12);          // some unusually large objects
    bool huge = r.chance(0.05);
    if(r.chance(0.01)) steps = 100 + int(r.below(300));     // a long history
    if(geo) {
      int mkv = -1, mkm = -1;
      for(int i = 0; i < n; ++i) { if(!strcmp(x->info(i).name, "v=V(ptr,n)")) mkv = i; if(!strcmp(x->info(i).name, "M=M(ptr,r,c)")) mkm = i; }
      int dv = r.chance(0.75) ? 3 : 2, dr = 3 + int(r.below(2)), dc = dv == 2 && r.chance(0.5) ? dr : 3 + int(r.below(2));
      base = r.chance(0.5) ? dv : dr;
      for(uint32_t i = 0; i < 10; ++i) {
        Step s; s.op = i < 5 ? mkv : mkm; s.a = i % 5;
        s.n = uint32_t(i < 5 ? r.chance(0.8) ? dv : 2 + int(r.below(3)) : r.chance(0.7) ? dr : 2 + int(r.below(3)));
        s.m = uint32_t(r.chance(0.7) ? dc : 2 + int(r.below(3)));
        s.v = r.next() >> 20;
        p.steps.push_back(s);
      }
    }
    for(int i = 0; i < steps; ++i) {
      Step s;
      long t = long(r.below(uint32_t(total)));
      for(int k = 0; k < n; ++k) { t -= w[size_t(k)]; if(t < 0) { s.op = k; break; } }
      s.a = r.below(12); s.b = r.below(12); s.c = r.below(12);
      s.n = r.chance(0.6) ? uint32_t(base) : r.below(10);
      s.m = r.chance(0.6) ? uint32_t(base) : r.below(10);
      bool small = geo && x->info(s.op).flags & OF_GEO;
      if(small) { s.n = r.below(60); s.m = r.below(60); }      // these choose the form of the call
      else if(big && r.chance(0.2)) { s.n = 60 + r.below(60); if(r.chance(0.5)) s.m = 60 + r.below(60); }
      if(!small && huge && r.chance(0.15)) { s.n = 200 + r.below(160); if(r.chance(0.3)) s.m = 200 + r.below(160); }
      s.v = r.next() >> 20;
      if(r.chance(pf)) {
        double q = r.unit();
        if(x->tracked() && q < 0.45) { s.fault = F_ELEM_THROW; s.at = r.below(r.chance(0.5) ? 12 : 60); }
        else if(q < 0.8) { s.fault = F_ALLOC_ONE; s.at = r.chance(0.7) ? 0 : r.below(5); }
        else if(q < 0.93) { s.fault = F_ALLOC_ALL; s.at = r.below(3); }
        else s.fault = F_BADSIZE;
      }
      p.steps.push_back(s);
    }
  }
  void child(const Plan& p, int mode, const std::vector<int>*) override
  {
    if(mode == 1) {       // other calls on other objects come first
      Plan q = p;
      std::reverse(q.steps.begin(), q.steps.end());
      for(auto& s : q.steps) { s.v = mix(s.v, 3) >> 20; s.a = (s.a + 1) % 12; s.c = (s.c + 5) % 12; }
      q.property = "P03";
      univ(q)->run(q);
      for(auto& s : result().steps) { s.executed = 0; s.hash = 0; s.nvals = 0; s.exc[0] = 0; s.fault_fired = 0; }
    }
    univ(p)->run(p);
  }
  RunResult& drive(const Plan& p, Runner& run) override
  {
    RunResult& r = run.exec(p, 0, 0);
    if(r.violated || p.property != "P09") return r;
    RunResult& q = run.exec(p, 1, 1);
    if(q.violated) return q;
    for(size_t i = 0; i < std::min<size_t>(p.steps.size(), MAX_STEPS); ++i) {
      StepResult& a = r.steps[i]; StepResult& b = q.steps[i];
      if(a.hash == b.hash && a.executed == b.executed && !strcmp(a.exc, b.exc)) continue;
      r.violated = 1; r.step = int(i);
      snprintf(r.cls, sizeof r.cls, "differs:history");
      snprintf(r.msg, sizeof r.msg, "%s leaves other values after a history of other calls on other objects (%s / %s)", opname(p, p.steps[i].op),
        a.executed == 2 ? a.exc : "returned", b.executed == 2 ? b.exc : "returned");
      break;
    }
    return r;
  }
};
}  // namespace dyn

namespace sim { World* make_world() { return new dyn::DynWorld; } }
