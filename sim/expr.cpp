// World "expr": stored expressions own the temporaries they were built from (P13).
#include "expr.h"
namespace expr {
std::vector<Kind> kinds;
std::vector<Universe> universes;
static const Step* cur = nullptr;
void arm_now() { if(cur && cur->fault != F_NONE) arm(cur->fault, cur->at); }

enum { BUILD, EVAL, COPY, MOVE, DROP, CHURN, ACTIONS };
static const char* const action_names[] = {"build", "evaluate", "copy", "move", "drop", "churn"};
static const int NS = 8;

struct ExprWorld : World
{
  ExprWorld() { if(kinds.empty()) { kinds.reserve(600); init_d(); init_f(); init_t(); init_u(); } }
  const char* name() const override { return "expr"; }
  std::vector<std::string> properties() const override { return {"P13"}; }
  const char* opname(const Plan&, int op) override { return op >= 0 && op < int(kinds.size()) ? kinds[size_t(op)].name.c_str() : "?"; }
  uint64_t catalogue() override { return kinds.size(); }
  void generate(Plan& p, Rng& r) override
  {
    p.cfg["live"] = long(r.next() & 0xffffff);
    int n = 4 + int(r.below(40));
    if(r.chance(0.01)) n = 100 + int(r.below(300));
    std::vector<int> menu;
    for(int i = 0, k = 1 + int(r.below(8)); i < k; ++i) menu.push_back(int(r.below(uint32_t(kinds.size()))));
    for(int i = 0; i < n; ++i) {
      Step s;
      s.op = menu[r.below(uint32_t(menu.size()))];
      s.a = r.below(NS); s.c = r.below(NS);
      static const int w[] = {BUILD, BUILD, BUILD, EVAL, EVAL, EVAL, EVAL, EVAL, COPY, COPY, MOVE, MOVE, DROP, CHURN};
      s.b = i < 2 ? uint32_t(BUILD) : uint32_t(w[r.below(14)]);
      s.n = r.below(8);
      s.v = r.next() >> 8;
      if(r.chance(0.3)) {
        static const int f[] = {F_ALLOC_ONE, F_ALLOC_ONE, F_ALLOC_ALL, F_ELEM_THROW};
        bool tracked = kinds[size_t(s.op)].name.find("user") == 0;
        s.fault = f[r.below(tracked ? 4 : 3)];
        s.at = s.fault == F_ELEM_THROW ? r.below(40) : r.below(6);
      }
      p.steps.push_back(s);
    }
  }
  __attribute__((noinline)) static Slot* build(const Kind& k, void* pool, uint64_t seed) { return k.build(uint64_t(pool), seed); }
  void child(const Plan& p, int, const std::vector<int>*) override
  {
    scribble_stack();
    long elems0 = ledger().live;
    std::vector<void*> pools;
    for(auto& u : universes) pools.push_back(nullptr), (void) u;
    auto pool = [&](int kind) { for(size_t u = 0; u < universes.size(); ++u) if(kind >= universes[u].first && kind < universes[u].last) { if(!pools[u]) pools[u] = universes[u].make(uint64_t(p.get("live"))); return pools[u]; } return (void*) nullptr; };
    for(auto& s : p.steps) pool(s.op % int(kinds.size()));     // before any fault
    size_t blocks0 = live_blocks(-1);
    long elems1 = ledger().live;
    Slot* slot[NS] = {};
    std::vector<char*> churn;
    for(size_t i = 0; i < p.steps.size(); ++i) {
      const Step& s = p.steps[i];
      cur = &s;
      step_begin(int(i), s);
      disarm();
      int a = int(s.a % NS), c = int(s.c % NS), act = int(s.b % ACTIONS);
      const char* what = action_names[act];
      std::string exc;
      bool ran = true;
      Slot* made = nullptr;
      size_t b0 = live_blocks(-1); long e0 = ledger().live;
      std::string nm = act == BUILD ? kinds[size_t(s.op) % kinds.size()].name : slot[a] ? slot[a]->name : "";
      try {
        switch(act) {
          case BUILD: {
            delete slot[a]; slot[a] = nullptr;
            b0 = live_blocks(-1); e0 = ledger().live;
            int k = s.op % int(kinds.size());
            made = build(kinds[size_t(k)], pool(k), s.v);
            slot[a] = made;
            break;
          }
          case EVAL: {
            if(!slot[a]) { ran = false; break; }
            int form = int(s.n % 8);
            arm_now();
            Val v = slot[a]->eval(form, s.v);
            disarm();
            NoLib l;
            const Val& w = form == 2 || form == 4 || form == 7 ? slot[a]->want2 : slot[a]->want;
            out(v.r); out(v.c); for(double x : v.x) out(x);
            if(!(v == w)) {
              size_t k = 0; while(k < v.x.size() && k < w.x.size() && memcmp(&v.x[k], &w.x[k], 8) == 0) ++k;
              report("expression:value", "the stored expression %s evaluates (form %d) to %d x %d with element %zu = %.17g; evaluated at once it gave %d x %d with %.17g", nm.c_str(), form, v.r, v.c, k, k < v.x.size() ? v.x[k] : 0., w.r, w.c, k < w.x.size() ? w.x[k] : 0.);
            }
            break;
          }
          case COPY: {
            if(!slot[a] || a == c) { ran = false; break; }
            delete slot[c]; slot[c] = nullptr;
            b0 = live_blocks(-1); e0 = ledger().live;
            arm_now();
            slot[c] = slot[a]->copy();
            break;
          }
          case MOVE: {
            if(!slot[a] || a == c) { ran = false; break; }
            delete slot[c]; slot[c] = nullptr;
            b0 = live_blocks(-1); e0 = ledger().live;
            arm_now();
            slot[c] = slot[a]->move();
            disarm();
            delete slot[a]; slot[a] = nullptr;      // a moved-from expression may only be destroyed
            break;
          }
          case DROP: if(!slot[a]) { ran = false; break; } delete slot[a]; slot[a] = nullptr; break;
          default: {
            NoLib l;
            scribble_stack();
            Rng r(s.v);
            for(int k = 0; k < 6; ++k) { Lib g; char* q = new char[8 + r.below(200)]; memset(q, int(r.below(256)), 8); NoLib n; churn.push_back(q); }
            while(churn.size() > 4) { size_t k = r.below(uint32_t(churn.size())); { Lib g; delete[] churn[k]; } churn.erase(churn.begin() + long(k)); }
            b0 = live_blocks(-1);
          }
        }
      }
      catch(const std::exception& e) { NoLib l; int st = 0; char* q = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); exc = q ? q : "?"; free(q); }
      catch(const ElemError&) { NoLib l; exc = "ElemError"; }
      bool ff = fault_fired();
      disarm();
      NoLib l;
      StepResult& r = step_result(int(i));
      r.executed = !ran ? 0 : exc.empty() ? 1 : 2;
      snprintf(r.exc, sizeof r.exc, "%s", exc.c_str());
      out_str(exc.c_str(), exc.size());
      if(!exc.empty()) {
        if(!ff) report("expression:rejected", "%s %s throws %s without any fault", what, nm.c_str(), exc.c_str());
        else if(exc != "std::bad_alloc" && exc != "ElemError") report("expression:exception", "%s %s under a failing allocation throws %s", what, nm.c_str(), exc.c_str());
        if(act == MOVE) {
          // part of the source may have moved and gone with the node that failed: what is left may only be destroyed
          if(live_blocks(-1) > b0) report("leak:blocks", "after %s %s failed, %zu blocks are live instead of %zu", what, nm.c_str(), live_blocks(-1), b0);
          if(ledger().live > e0) report("leak:elements", "after %s %s failed, %ld elements are alive instead of %ld", what, nm.c_str(), ledger().live, e0);
          delete slot[a]; slot[a] = nullptr;
        }
        if(act == EVAL || act == COPY || act == BUILD) {
          if(live_blocks(-1) != b0) { char b[400]; describe_live(b, sizeof b); report("leak:blocks", "after %s %s failed, %zu blocks are live instead of %zu:%s", what, nm.c_str(), live_blocks(-1), b0, b); }
          if(ledger().live != e0) report("leak:elements", "after %s %s failed, %ld elements are alive instead of %ld", what, nm.c_str(), ledger().live, e0);
        }
      }
      else if(act == EVAL && ran) {
        if(live_blocks(-1) != b0) report("leak:blocks", "evaluating %s leaves %zu blocks instead of %zu", nm.c_str(), live_blocks(-1), b0);
        if(ledger().live != e0) report("leak:elements", "evaluating %s leaves %ld elements instead of %ld", nm.c_str(), ledger().live, e0);
      }
      scribble_stack();
      step_end();
    }
    cur = nullptr;
    for(auto*& s : slot) { delete s; s = nullptr; }
    for(char* q : churn) { Lib g; delete[] q; }
    if(live_blocks(-1) != blocks0) { char b[600]; describe_live(b, sizeof b); report("leak:blocks", "%zu blocks instead of %zu are allocated after the last expression is gone:%s", live_blocks(-1), blocks0, b); }
    if(ledger().live != elems1) report("leak:elements", "%ld elements instead of %ld are alive after the last expression is gone", ledger().live, elems1);
    for(size_t u = 0; u < universes.size(); ++u) if(pools[u]) universes[u].drop(pools[u]);
    if(ledger().live != elems0) report("leak:elements", "%ld elements are alive at the end", ledger().live - elems0);
    mark_nontrivial();
  }
};
}  // namespace expr
namespace sim { World* make_world() { return new expr::ExprWorld; } }
