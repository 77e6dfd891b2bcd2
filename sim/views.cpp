// World "views": generator and driver.
#include "views.h"
#include <cstring>

using namespace sim;
namespace views {
struct ViewsWorld : World
{
  UnivBase* u[3];
  ViewsWorld() { u[0] = make_d(); u[1] = make_f(); u[2] = make_i(); }
  const char* name() const override { return "views"; }
  std::vector<std::string> properties() const override { return {"P06"}; }
  const char* opname(const Plan&, int op) override { return op_names[op % M_NUM]; }
  uint64_t catalogue() override { return 3 * M_NUM; }
  void generate(Plan& p, Rng& r) override
  {
    p.cfg["univ"] = long(r.below(3));
    int n = 5 + int(r.below(40));
    if(r.chance(0.01)) n = 100 + int(r.below(300));
    uint32_t slots = 1 + r.below(20);      // few slots: the same views again and again
    for(int i = 0; i < n; ++i) {
      Step s;
      s.op = int(r.below(M_NUM));
      s.a = r.below(slots * 4); s.b = r.below(64); s.c = r.below(64); s.n = r.below(64); s.m = r.below(64);
      s.v = r.next() >> 8;
      p.steps.push_back(s);
    }
  }
  void child(const Plan& p, int, const std::vector<int>*) override
  {
    scribble_stack();
    rand_script(RandScript{0, 0}, mix(p.seed, 5));
    u[size_t(p.get("univ", 0)) % 3]->run(p);
    if(live_blocks(-1)) {
      char b[600]; describe_live(b, sizeof b);
      report("view:leak", "%zu blocks are still allocated at the end:%s", live_blocks(-1), b);
    }
  }
};
}  // namespace views
namespace sim { World* make_world() { return new views::ViewsWorld; } }
