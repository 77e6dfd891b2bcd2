// Deterministic simulator for CML: interface used by the worlds.
// Everything declared here is implemented in sim.cpp, which is compiled WITHOUT
// instrumentation; the worlds are compiled with -fsanitize=thread code generation and
// linked against the __tsan_* functions of sim.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------- randomness of the simulator
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next();
  uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
  bool chance(double p) { return unit() < p; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plan = one simulated run
enum Fault { F_NONE = 0, F_ALLOC_ONE, F_ALLOC_ALL, F_ELEM_THROW, F_RAND_THROW, F_SINK_SHORT, F_SINK_FAIL,
  F_SINK_THROW, F_STALL, F_BADSIZE, F_NUM };
extern const char* const fault_names[F_NUM];

struct Step
{
  int thread = 0;
  int op = 0;
  uint32_t a = 0, b = 0, c = 0, n = 0, m = 0;
  uint64_t v = 0;
  int fault = F_NONE;
  uint32_t at = 0;  // which occurrence within the step the fault hits
};
struct Switch { int thread; uint64_t at; int to; };
struct Plan
{
  std::string property, world;
  uint64_t seed = 0;
  std::map<std::string, long> cfg;
  std::vector<Step> steps;
  bool has_sched = false;  // schedule recorded: follow it; otherwise draw it from the seed
  std::vector<Switch> sched;
  long get(const char* k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};

// ---------------------------------------------------------------- results of one child
static const int MAX_STEPS = 512, MAX_VALS = 40, MAX_SCHED = 4096, N_PROBES = 256;
struct StepResult
{
  int executed;      // 0 no, 1 returned, 2 threw
  char exc[64];      // exception type name
  uint64_t hash;     // hash over all result bits
  int nvals;
  double vals[MAX_VALS];
  uint32_t allocs;   // allocations attempted inside the library
  uint32_t accesses; // instrumented accesses inside the library
  int fault_fired;
  char tag[40];
};
struct RunResult
{
  int done;
  int violated;
  char cls[64];
  char sig[160];     // signature for known findings
  char msg[2000];
  int step;
  uint64_t hash;
  uint64_t accesses, switches, allocs, allocs_denied, forced, races_checked;
  uint64_t faults[F_NUM];
  uint64_t probes[N_PROBES];
  uint64_t inter_hash;   // hash of the interleaving (switches with position)
  uint64_t state_hash;
  uint32_t ops, ops_threw, nontrivial;
  uint32_t nsched;
  Switch sched[MAX_SCHED];
  StepResult steps[MAX_STEPS];
};

// ---------------------------------------------------------------- inside a run
bool in_run();
void report(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // returns if the class is not of the property
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void set_signature(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log_u64(uint64_t x);               // fold into the run's event hash
void log_str(const char* s);
int probe_id(const char* name);         // register (before forking)
void probe(int id);
RunResult& result();
void mark_nontrivial();

// Library scope: heap, fault points, scheduling and checks are active only inside.
struct Lib { Lib(); ~Lib(); Lib(const Lib&) = delete; };
struct NoLib { int saved; NoLib(); ~NoLib(); NoLib(const NoLib&) = delete; };
bool lib_active();

// step bookkeeping on the current simulated thread
void step_begin(int index, const Step& s);
void step_end();                        // records counters; clears faults
int current_step();
StepResult& step_result(int index);
bool fault_fired();                     // during the current step
uint32_t step_allocs();
uint32_t step_denied();
void deny_allocs(bool on);              // deny everything on this thread
void arm(int fault, uint32_t at);
void disarm();
bool elem_fault_point();                // true: the element operation must throw now
bool rand_fault_point();

// output values of a step (hash + first values)
void out(double v);
void out(float v);
void out(int v);
void out(long v);
void out(uint64_t v);
void out(bool v);
void out_str(const char* s, size_t n);
void tag(const char* s);

// ---------------------------------------------------------------- simulated heap
enum { A_GLOBAL = 0, A_USER1 = 1, A_USER2 = 2, A_MALLOC = 3, A_CALLER = 4, A_NUM };
void* heap_alloc(size_t bytes, int who, size_t count, size_t esize);   // throws bad_alloc
void heap_free(void* p, int who, size_t count, size_t esize, bool have_count);
void* caller_alloc(size_t bytes, size_t align = 16);   // memory of the harness (live, red zones around)
void caller_free(void* p);
size_t live_blocks(int who);            // who<0: all except A_CALLER
size_t live_bytes(int who);
uint64_t block_id_of(const void* p);    // 0 if not a live block start
size_t block_bytes(const void* p);
int block_owner(const void* p);         // -1 if not a live block
bool in_live_block(const void* p, size_t n);
void describe_live(char* buf, size_t n);
void fence(const void* p, size_t n, bool open);  // mark part of a caller block as out of bounds / in bounds
uint64_t alloc_calls(int who);
uint64_t free_calls(int who);

template<class T> struct Boxed  // object placed in the arena, with red zones
{
  T* p;
  template<class... A> explicit Boxed(A&&... a) : p(new(caller_alloc(sizeof(T), alignof(T))) T(std::forward<A>(a)...)) {}
  ~Boxed() { p->~T(); caller_free(p); }
  T& operator*() { return *p; }
  T* operator->() { return p; }
  Boxed(const Boxed&) = delete;
};

// ---------------------------------------------------------------- threads
// Runs the bodies under the seeded scheduler; returns when all have finished.
void run_threads(const std::vector<std::function<void()>>& bodies);
int current_thread();
uint64_t region_hash(const void* p, size_t n);

// scribbles over the unused stack below the caller
void scribble_stack();

// ---------------------------------------------------------------- random sources
struct RandScript
{
  int kind = 0;      // 0 uniform, 1 constant, 2 alternate extremes, 3 counter, 4 sticky, 5 extremes mix, 6 value or uniform, 7 engine extremes
  uint64_t value = 0;
};
uint64_t engine_seed(Rng& r);
void rand_script(const RandScript& s, uint64_t seed);
void rand_real(bool on);                 // behave as a seedable LCG (srand resets it)
uint64_t rand_draws();                   // draws from rand()
uint64_t rdev_draws();                   // draws from random_device
uint64_t srand_calls();

// ---------------------------------------------------------------- worlds
struct Runner
{
  // Forks a child from the pristine worker and runs World::child there.
  // Returns the result in shared memory slot `slot`.
  virtual RunResult& exec(const Plan& p, int mode, int slot, const std::vector<int>* only = nullptr) = 0;
  virtual ~Runner() {}
};
struct World
{
  virtual ~World() {}
  virtual const char* name() const = 0;
  virtual std::vector<std::string> properties() const = 0;
  virtual void generate(Plan& p, Rng& r) = 0;
  virtual void child(const Plan& p, int mode, const std::vector<int>* only) = 0;  // in the forked child
  // in the worker: returns the final result of the run (default: one child)
  virtual RunResult& drive(const Plan& p, Runner& r) { return r.exec(p, 0, 0); }
  virtual const char* opname(const Plan& p, int op) = 0;
  virtual void simplify(Plan&) {}
  virtual uint64_t catalogue() { return 0; }   // number of distinct operations (all universes)
};
World* make_world();   // defined by each world executable

}  // namespace sim
