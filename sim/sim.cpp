// Deterministic simulator: runtime (uninstrumented).
#include "sim.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <random>
#include <set>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sched.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
extern char __data_start, _end;
}

namespace sim {

// ------------------------------------------------------------------------------ constants
static char* const ARENA = (char*) 0x200000000000ull;
static const size_t ARENA_SIZE = 64u << 20;
static char* const STACKS = (char*) 0x210000000000ull;
static const size_t STACK_SIZE = 1u << 20;
static const int MAX_THREADS = 6;
static const size_t RED = 64;
static const uint64_t OP_LIMIT = 3000000;      // own accesses one library step may take
static const uint64_t FAIR = 20000;            // accesses without a switch before a forced one
static const int MAX_BLOCKS = 40000;

enum : uint8_t { S_NONE = 0, S_LIVE = 1, S_RED = 2, S_FREED = 3, S_FENCED = 4 };

const char* const fault_names[F_NUM] = {"none", "alloc-fail-once", "alloc-fail-from", "element-throw", "rand-throw",
  "sink-short", "sink-fail", "sink-throw", "stall-thread", "bad-size"};

uint64_t Rng::next()
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  z = (z ^ (z >> 32)) * 0xd6e8feb86659fd93ull;
  z = (z ^ (z >> 29)) * 0x94d049bb133111ebull;
  return z ^ (z >> 32);
}

// ------------------------------------------------------------------------------ per-thread state
struct Thr
{
  int id;
  pthread_t pt;
  int sem;                 // futex word: 1 = may run
  bool finished, started, stalled;
  const void* waiting;     // blocked on a lock or guard
  uint64_t steps;          // library accesses of this thread
  uint64_t op_steps;       // accesses in the current step
  uint64_t since_switch;
  uint64_t next_at;        // next scheduled switch (thread-local access count)
  size_t sched_pos;
  std::vector<Switch>* list;
  uint32_t vc[MAX_THREADS + 1];
  // step state
  int step;
  int fault; uint32_t fault_at; uint32_t alloc_no, elem_no, rand_no;
  bool fired, deny;
  uint32_t allocs, denied;
  uint64_t acc0;
  // call stack (function entry addresses)
  void* cs[64]; int ncs;
  char* stack_lo; char* stack_hi;
};
static Thr g_thr[MAX_THREADS + 1];   // last one: main thread of the child
static Thr* const g_main = &g_thr[MAX_THREADS];
static thread_local Thr* t_cur = nullptr;
static thread_local int t_lib = 0;
static bool g_active = false;        // inside a run (child)
static int g_nthreads = 0;           // threads in the current parallel phase
static RunResult* g_res = nullptr;
static const Plan* g_plan = nullptr;
static World* g_world = nullptr;
static int g_mode = 0;
static uint64_t g_fill = 0;
static uint64_t g_clock = 0;


struct Off { int s; Off() : s(t_lib) { t_lib = 0; } ~Off() { t_lib = s; } };
static Thr* cur() { return t_cur ? t_cur : g_main; }

bool in_run() { return g_active; }
bool lib_active() { return t_lib > 0; }
Lib::Lib() { t_lib++; }
Lib::~Lib() { t_lib--; }
NoLib::NoLib() : saved(t_lib) { t_lib = 0; }
NoLib::~NoLib() { t_lib = saved; }
RunResult& result() { return *g_res; }
void mark_nontrivial() { g_res->nontrivial = 1; }

// ------------------------------------------------------------------------------ violations
struct Owner { const char* prop; const char* classes; };
static const Owner owners[] = {
  {"P01", " memory leak element "},
  {"P02", " atomicity retry exception "},
  {"P03", " model "},
  {"P04", " move "},
  {"P05", " heap "},
  {"P06", " view memory "},
  {"P07", " race differs operand deadlock "},
  {"P08", " race differs spill deadlock "},
  {"P09", " differs "},
  {"P10", " range rejected object "},
  {"P11", " repro source "},
  {"P12", " stream "},
  {"P13", " expression memory leak "},
  {"P14", " allocator "},
  {"P15", " stall deadlock "},
};
static bool owned(const char* cls)
{
  static const bool all = getenv("SIM_OWN_ALL") != nullptr;   // debugging aid: report every class
  if(all) return true;
  char base[64]; size_t i = 0;
  for(; cls[i] && cls[i] != ':' && i < 60; ++i) base[i] = cls[i];
  base[i] = 0;
  if(!strcmp(base, "crash") || !strcmp(base, "terminate") || !strcmp(base, "noprogress") || !strcmp(base, "harness"))
    return true;
  std::string key = std::string(" ") + base + " ";
  for(auto& o : owners)
    if(g_plan->property == o.prop) return strstr(o.classes, key.c_str()) != nullptr;
  return true;
}

static char g_sig[160];
void set_signature(const char* fmt, ...)
{
  va_list ap; va_start(ap, fmt); vsnprintf(g_sig, sizeof g_sig, fmt, ap); va_end(ap);
}
static void do_violate(const char* cls, const char* msg)
{
  t_lib = 0;
  RunResult& r = *g_res;
  if(!r.violated) {
    r.violated = 1;
    snprintf(r.cls, sizeof r.cls, "%s", cls);
    snprintf(r.sig, sizeof r.sig, "%s", g_sig);
    Thr* t = cur();
    r.step = t->step;
    size_t n = snprintf(r.msg, sizeof r.msg, "%s", msg);
    if(t->ncs > 0 && n < sizeof r.msg - 200) {
      n += snprintf(r.msg + n, sizeof r.msg - n, " @pc");
      for(int i = t->ncs - 1, k = 0; i >= 0 && k < 4; --i, ++k)
        n += snprintf(r.msg + n, sizeof r.msg - n, " %p", i < 64 ? t->cs[i] : nullptr);
    }
  }
  r.done = 1;
  _exit(0);
}
// returns only if the class does not belong to the property under check
void report(const char* cls, const char* fmt, ...)
{
  Off off;
  if(!owned(cls)) { g_res->probes[N_PROBES - 1]++; return; }
  char buf[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  do_violate(cls, buf);
}
void violate(const char* cls, const char* fmt, ...)
{
  Off off;
  char buf[1500];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if(!owned(cls)) { g_res->probes[N_PROBES - 1]++; g_res->done = 1; _exit(0); }
  do_violate(cls, buf);
  __builtin_unreachable();
}
void log_u64(uint64_t x) { if(g_res) g_res->hash = mix(g_res->hash, x); }
void log_str(const char* s) { for(; *s; ++s) log_u64((unsigned char) *s); }

static std::vector<std::string>& probe_names() { static std::vector<std::string> v; return v; }
int probe_id(const char* name)
{
  auto& v = probe_names();
  for(size_t i = 0; i < v.size(); ++i) if(v[i] == name) return int(i);
  v.push_back(name);
  if(v.size() >= N_PROBES - 1) { fprintf(stderr, "too many probes\n"); abort(); }
  return int(v.size()) - 1;
}
void probe(int id) { if(g_res) g_res->probes[id]++; }

// ------------------------------------------------------------------------------ heap
struct Block { char* p; size_t bytes; int who; size_t count, esize; bool live; int step; };
static Block g_blocks[MAX_BLOCKS];
static int g_nblocks = 0;
static char* g_top = ARENA;
static uint8_t* g_shadow = nullptr;     // one byte per arena byte
static uint32_t* g_index = nullptr;     // per 16 arena bytes: block index + 1
static uint64_t g_allocs[A_NUM], g_frees[A_NUM];
static size_t g_live[A_NUM], g_lbytes[A_NUM];
static const char* const who_names[A_NUM] = {"global heap", "allocator-1", "allocator-2", "malloc", "caller"};

static inline bool in_arena(const void* p) { return (size_t) ((const char*) p - ARENA) < ARENA_SIZE; }
static void race_clear(const char* p, size_t n);
static void sched_point(Thr* t, bool hot);

static void* raw_alloc(size_t bytes, int who, size_t count, size_t esize, size_t align)
{
  if(align < 16) align = 16;
  char* p = g_top + RED;
  p = (char*) (((uintptr_t) p + align - 1) & ~(uintptr_t) (align - 1));
  size_t span = (bytes + 15) & ~size_t(15);
  if(span == 0) span = 16;
  if(p + span + RED > ARENA + ARENA_SIZE || g_nblocks >= MAX_BLOCKS) return nullptr;
  __real_memset(g_shadow + (g_top - ARENA), S_RED, p + span + RED - g_top);
  __real_memset(g_shadow + (p - ARENA), S_LIVE, bytes);
  uint64_t pat = mix(g_fill, g_nblocks + 1);
  for(size_t i = 0; i < span; i += 8) *(uint64_t*) (p + i) = pat * (i + 0x9e3779b1u) ^ (pat >> 7);
  int b = g_nblocks++;
  g_blocks[b] = Block{p, bytes, who, count, esize, true, cur()->step};
  g_index[(p - ARENA) >> 4] = uint32_t(b + 1);
  g_top = p + span + RED;
  g_allocs[who]++; g_live[who]++; g_lbytes[who] += bytes;
  race_clear(p, span);
  return p;
}
static Block* find_block(const void* p)
{
  if(!in_arena(p) || ((uintptr_t) p & 15)) return nullptr;
  uint32_t b = g_index[((const char*) p - ARENA) >> 4];
  return b ? &g_blocks[b - 1] : nullptr;
}
static void release(Block* b)
{
  b->live = false;
  __real_memset(g_shadow + (b->p - ARENA), S_FREED, b->bytes ? b->bytes : 1);
  uint64_t pat = 0xdeadfa11deadfa11ull;
  for(size_t i = 0; i + 8 <= b->bytes; i += 8) *(uint64_t*) (b->p + i) = pat;
  for(size_t i = b->bytes & ~size_t(7); i < b->bytes; ++i) b->p[i] = char(0xfd);
  g_frees[b->who]++; g_live[b->who]--; g_lbytes[b->who] -= b->bytes;
}

void* heap_alloc(size_t bytes, int who, size_t count, size_t esize)
{
  Thr* t = cur();
  if(t_lib && g_nthreads > 1) sched_point(t, true);
  bool fail = false;
  {
    Off off;
    t->allocs++; g_res->allocs++;
    if(t->deny) fail = true;
    else if(t->fault == F_ALLOC_ONE && t->alloc_no == t->fault_at) { fail = t->fired = true; g_res->faults[F_ALLOC_ONE]++; }
    else if(t->fault == F_ALLOC_ALL && t->alloc_no >= t->fault_at) { fail = t->fired = true; g_res->faults[F_ALLOC_ALL]++; }
    t->alloc_no++;
    if(!fail && bytes > (4u << 20)) fail = true;
    void* p = nullptr;
    if(!fail) p = raw_alloc(bytes, who, count, esize, 16);
    if(p) return p;
    t->denied++; g_res->allocs_denied++;
  }
  throw std::bad_alloc();
}
void heap_free(void* p, int who, size_t count, size_t esize, bool have_count)
{
  Thr* t = cur();
  if(t_lib && g_nthreads > 1) sched_point(t, true);
  Off off;
  if(!p) {
    if(who == A_USER1 || who == A_USER2)
      report("allocator:null", "deallocate called with a null pointer, count %zu (%s)", count, who_names[who]);
    return;
  }
  Block* b = find_block(p);
  if(!b || b->who == A_CALLER) {
    report("allocator:foreign", "a block that was never allocated is returned to %s", who_names[who]);
    report("memory:bad-free", "a pointer that is not an allocated block is freed (%s)", who_names[who]);
    return;
  }
  if(!b->live) {
    report("memory:double-free", "block #%d (%zu bytes from %s) is freed twice", int(b - g_blocks), b->bytes, who_names[b->who]);
    report("allocator:double-free", "block #%d (%zu bytes from %s) is freed twice", int(b - g_blocks), b->bytes, who_names[b->who]);
    return;
  }
  if(b->who != who)
    report("allocator:mismatch", "block #%d of %s is returned to %s", int(b - g_blocks), who_names[b->who], who_names[who]);
  if(have_count && b->who == who && (b->count != count || b->esize != esize)) {
    report("allocator:count", "block #%d of %s was obtained with %zu elements of %zu bytes and returned with %zu of %zu",
      int(b - g_blocks), who_names[who], b->count, b->esize, count, esize);
  }
  release(b);
}
void* caller_alloc(size_t bytes, size_t align)
{
  Off off;
  void* p = raw_alloc(bytes, A_CALLER, bytes, 1, align);
  if(!p) violate("harness:arena", "arena exhausted");
  return p;
}
void caller_free(void* p)
{
  Off off;
  Block* b = find_block(p);
  if(!b || !b->live || b->who != A_CALLER) violate("harness:caller_free", "bad caller_free");
  release(b);
}
size_t live_blocks(int who)
{
  if(who >= 0) return g_live[who];
  return g_live[A_GLOBAL] + g_live[A_USER1] + g_live[A_USER2] + g_live[A_MALLOC];
}
size_t live_bytes(int who)
{
  if(who >= 0) return g_lbytes[who];
  return g_lbytes[A_GLOBAL] + g_lbytes[A_USER1] + g_lbytes[A_USER2] + g_lbytes[A_MALLOC];
}
uint64_t block_id_of(const void* p) { Block* b = find_block(p); return b && b->live ? uint64_t(b - g_blocks) + 1 : 0; }
size_t block_bytes(const void* p) { Block* b = find_block(p); return b && b->live ? b->bytes : 0; }
int block_owner(const void* p) { Block* b = find_block(p); return b && b->live ? b->who : -1; }
bool in_live_block(const void* p, size_t n)
{
  if(!in_arena(p)) return false;
  for(size_t i = 0; i < n; ++i) if(g_shadow[(const char*) p - ARENA + i] != S_LIVE) return false;
  return true;
}
void describe_live(char* buf, size_t n)
{
  Off off;
  size_t k = 0; int shown = 0; buf[0] = 0;
  for(int i = 0; i < g_nblocks && shown < 4; ++i)
    if(g_blocks[i].live && g_blocks[i].who != A_CALLER) {
      k += snprintf(buf + k, n > k ? n - k : 0, " [block #%d: %zu bytes from %s, obtained in step %d]", i, g_blocks[i].bytes,
        who_names[g_blocks[i].who], g_blocks[i].step);
      shown++;
    }
}
void fence(const void* p, size_t n, bool open)
{
  if(!in_arena(p)) return;
  __real_memset(g_shadow + ((const char*) p - ARENA), open ? S_LIVE : S_FENCED, n);
}
uint64_t alloc_calls(int who) { return g_allocs[who]; }
uint64_t free_calls(int who) { return g_frees[who]; }

// ------------------------------------------------------------------------------ race detection
struct Cell { uint64_t key; uint32_t wclk[MAX_THREADS], rclk[MAX_THREADS]; uint8_t wmask[MAX_THREADS], rmask[MAX_THREADS]; int8_t last; };
static const uint32_t NCELL = 1u << 17;
static Cell g_cells[NCELL];
static uint32_t g_ncell = 0;

static Cell* cell(uint64_t key, bool create)
{
  uint32_t h = ((uint32_t(mix(key >> 6, 17)) << 6) | uint32_t(key & 63)) & (NCELL - 1);   // neighbours stay together
  for(uint32_t i = 0; i < NCELL; ++i, h = (h + 1) & (NCELL - 1)) {
    Cell& c = g_cells[h];
    if(c.key == key) return &c;
    if(c.key == 0) {
      if(!create || g_ncell > NCELL / 2) return nullptr;
      g_ncell++;
      c.key = key; c.last = -1;
      return &c;
    }
  }
  return nullptr;
}
static void race_clear(const char* p, size_t n)
{
  if(!g_nthreads) return;
  for(uint64_t k = (uint64_t) p >> 3; k <= ((uint64_t) p + n - 1) >> 3; ++k) {
    Cell* c = cell(k, false);
    if(c) { c->last = -1; for(int i = 0; i < MAX_THREADS; ++i) c->rmask[i] = c->wmask[i] = 0; }
  }
}
static const char* where(const void* p, char* buf, size_t n)
{
  Block* b = nullptr;
  if(in_arena(p))
    for(int i = g_nblocks - 1; i >= 0; --i)
      if((const char*) p >= g_blocks[i].p && (const char*) p < g_blocks[i].p + std::max<size_t>(g_blocks[i].bytes, 1)) { b = &g_blocks[i]; break; }
  if(b) snprintf(buf, n, "byte %zu of block #%d (%zu bytes, %s)", size_t((const char*) p - b->p), int(b - g_blocks), b->bytes, who_names[b->who]);
  else if((const char*) p >= &__data_start && (const char*) p < &_end) snprintf(buf, n, "static storage at %p", p);
  else if((size_t) ((const char*) p - STACKS) < STACK_SIZE * MAX_THREADS)
    snprintf(buf, n, "stack of thread %d", int(((const char*) p - STACKS) / STACK_SIZE));
  else if(in_arena(p)) snprintf(buf, n, "arena outside every block");
  else snprintf(buf, n, "other memory");
  return buf;
}
static bool race_access(Thr* t, const char* p, size_t n, bool w)
{
  bool hot = false;
  uint64_t a = (uint64_t) p, e = a + n;
  while(a < e) {
    uint64_t key = a >> 3;
    uint64_t ce = std::min(e, (key + 1) << 3);
    uint8_t mask = 0;
    for(uint64_t x = a; x < ce; ++x) mask |= uint8_t(1u << (x & 7));
    Cell* c = cell(key, true);
    if(c) {
      if(c->last >= 0 && c->last != t->id) hot = true;
      c->last = int8_t(t->id);
      g_res->races_checked++;
      for(int u = 0; u < MAX_THREADS; ++u)
        if(u != t->id && (c->wmask[u] & mask) && t->vc[u] < c->wclk[u]) {
          char b[120];
          report("race:conflict", "%s by thread %d conflicts with an earlier unsynchronised write by thread %d: %s", w ? "write" : "read",
            t->id, u, where((void*) a, b, sizeof b));
        }
      if(w)
        for(int u = 0; u < MAX_THREADS; ++u)
          if(u != t->id && (c->rmask[u] & mask) && t->vc[u] < c->rclk[u]) {
            char b[120];
            report("race:conflict", "write by thread %d conflicts with an earlier unsynchronised read by thread %d: %s", t->id, u,
              where((void*) a, b, sizeof b));
          }
      if(w) { if(c->wclk[t->id] != t->vc[t->id]) c->wmask[t->id] = 0; c->wclk[t->id] = t->vc[t->id]; c->wmask[t->id] |= mask; }
      else { if(c->rclk[t->id] != t->vc[t->id]) c->rmask[t->id] = 0; c->rclk[t->id] = t->vc[t->id]; c->rmask[t->id] |= mask; }
    }
    a = ce;
  }
  return hot;
}
// synchronisation objects
struct SyncVar { const void* key; uint32_t vc[MAX_THREADS + 1]; int owner; int readers; };
static const int NSYNC = 4096;
static SyncVar g_sync[NSYNC];
static SyncVar* syncvar(const void* k)
{
  uint32_t h = uint32_t(mix((uint64_t) k, 5)) % NSYNC;
  for(int i = 0; i < NSYNC; ++i, h = (h + 1) % NSYNC) {
    if(g_sync[h].key == k) return &g_sync[h];
    if(!g_sync[h].key) { g_sync[h].key = k; g_sync[h].owner = -1; return &g_sync[h]; }
  }
  violate("harness:sync", "too many synchronisation objects");
}
static void acquire(Thr* t, const void* k)
{
  SyncVar* s = syncvar(k);
  for(int i = 0; i <= MAX_THREADS; ++i) t->vc[i] = std::max(t->vc[i], s->vc[i]);
}
static void release_sync(Thr* t, const void* k)
{
  SyncVar* s = syncvar(k);
  for(int i = 0; i <= MAX_THREADS; ++i) s->vc[i] = std::max(t->vc[i], s->vc[i]);
  t->vc[t->id]++;
}

// ------------------------------------------------------------------------------ scheduler
static int g_sched_kind = 0;
static double g_p = 0, g_p_hot = 0;
static Rng g_srng(1);
static bool g_replay = false;
static std::vector<Switch> g_lists[MAX_THREADS];
static int g_stall_thread = -1;
static uint64_t g_stall_at = 0;
static uint32_t g_max_switches = 300;

static void fwait(int* w)
{
  while(__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fpost(int* w)
{
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static bool runnable(int i) { Thr& t = g_thr[i]; return t.started && !t.finished && !t.stalled && !t.waiting; }
static int next_runnable(int from)
{
  for(int k = 1; k <= g_nthreads; ++k) { int j = (from + k) % g_nthreads; if(runnable(j)) return j; }
  return -1;
}
static void go(Thr* from, int to)
{
  g_res->switches++;
  g_res->inter_hash = mix(g_res->inter_hash, mix(from->id * 16 + to, from->steps));
  from->since_switch = 0;
  fpost(&g_thr[to].sem);
  fwait(&from->sem);
}
static void record(Thr* t, int to)
{
  if(g_res->nsched < MAX_SCHED) g_res->sched[g_res->nsched++] = Switch{t->id, t->steps, to};
}
static void block(Thr* t, const void* on)
{
  Off off;
  t->waiting = on;
  int j = next_runnable(t->id);
  if(j < 0 || j == t->id) {
    bool st = false;
    for(int i = 0; i < g_nthreads; ++i) st |= g_thr[i].stalled;
    violate(st ? "stall:blocked" : "deadlock:all", st ? "thread %d waits for a lock held by the suspended thread" : "all threads are blocked (thread %d)", t->id);
  }
  go(t, j);
}
static void wake(const void* on)
{
  for(int i = 0; i < g_nthreads; ++i) if(g_thr[i].waiting == on) g_thr[i].waiting = nullptr;
}
static void sched_point(Thr* t, bool hot)
{
  Off off;
  t->since_switch++;
  if(t->id == g_stall_thread && t->steps >= g_stall_at && !t->stalled && g_stall_at != ~0ull) {
    g_stall_at = ~0ull;
    int j = next_runnable(t->id);
    if(j >= 0 && j != t->id) {
      t->stalled = true;
      g_res->faults[F_STALL]++;
      cur()->fired = true;
      go(t, j);
      return;
    }
  }
  int to = -1;
  if(g_replay) {
    auto& l = *t->list;
    while(t->sched_pos < l.size() && l[t->sched_pos].at < t->steps) t->sched_pos++;
    if(t->sched_pos < l.size() && l[t->sched_pos].at == t->steps) { to = l[t->sched_pos].to; t->sched_pos++; }
    if(to >= 0 && (to >= g_nthreads || !runnable(to))) to = next_runnable(t->id);
  }
  else if(g_sched_kind != 0 && g_res->nsched < g_max_switches) {
    double p = hot ? g_p_hot : g_p;
    if(g_srng.unit() < p) {
      int k = int(g_srng.below(uint32_t(g_nthreads)));
      for(int x = 0; x < g_nthreads; ++x, k = (k + 1) % g_nthreads) if(k != t->id && runnable(k)) { to = k; break; }
      if(to >= 0) record(t, to);
    }
  }
  if(to >= 0 && to != t->id) { go(t, to); return; }
  if(t->since_switch > FAIR) {
    int j = next_runnable(t->id);
    t->since_switch = 0;
    if(j >= 0 && j != t->id) { g_res->forced++; go(t, j); }
  }
}
int current_thread() { return cur()->id; }

static inline void access(const void* addr, size_t n, bool w)
{
  if(t_lib <= 0) return;
  Thr* t = t_cur ? t_cur : g_main;
  t->steps++; t->op_steps++;
  g_res->accesses++;
  if(__builtin_expect(t->op_steps > OP_LIMIT, 0))
    violate("noprogress:steps", "a library step took more than %llu memory accesses", (unsigned long long) OP_LIMIT);
  const char* p = (const char*) addr;
  bool hot = false;
  if(in_arena(p)) {
    const uint8_t* s = g_shadow + (p - ARENA);
    for(size_t i = 0; i < n; ++i)
      if(__builtin_expect(s[i] != S_LIVE, 0)) {
        char b[160]; Off off; where(p + i, b, sizeof b);
        if(s[i] == S_FENCED) {
          report("view:outside", "%s outside the viewed elements: %s", w ? "write" : "read", b);
          if(g_plan->property != "P06")      // the memory between the operands of one call
            for(const char* k : {"operand:outside", "spill:outside", "differs:outside"}) report(k, "%s of %zu bytes next to an operand: %s", w ? "write" : "read", n, b);
        }
        else {
          const char* k = s[i] == S_FREED ? "memory:use-after-free" : "memory:out-of-bounds";
          if(g_plan->property == "P06") report("view:outside", "%s of memory outside the caller's array: %s", w ? "write" : "read", b);
          report(k, "%s of %zu bytes: %s", w ? "write" : "read", n, b);
        }
        if(w) { g_res->probes[N_PROBES - 1]++; }   // foreign class: let the access happen inside the arena
        break;
      }
  }
  if(g_nthreads > 1) {
    if(!((size_t) (p - t->stack_lo) < STACK_SIZE)) {
      Off off;
      hot = race_access(t, p, n, w);
    }
    sched_point(t, hot);
  }
}

// thread bodies
struct Body { const std::function<void()>* f; Thr* t; };
static Body g_bodies[MAX_THREADS];
__attribute__((noinline)) static void scribble(size_t n, uint64_t pat)
{
  volatile uint64_t* a = (volatile uint64_t*) __builtin_alloca(n);
  for(size_t i = 0; i < n / 8; ++i) a[i] = pat + i * 0x0101010101ull;
}
void scribble_stack() { scribble(16384, g_fill * 0x9e3779b97f4a7c15ull | 1); }

static void* thread_main(void* arg)
{
  Body* b = (Body*) arg;
  t_cur = b->t;
  fwait(&b->t->sem);
  scribble(32768, mix(g_fill, 99));
  (*b->f)();
  Off off;
  Thr* t = b->t;
  t->finished = true;
  t->ncs = 0;
  int j = next_runnable(t->id);
  if(j < 0) {
    bool blocked = false;
    for(int i = 0; i < g_nthreads; ++i) if(!g_thr[i].finished && g_thr[i].waiting) blocked = true;
    if(blocked) {
      bool st = false;
      for(int i = 0; i < g_nthreads; ++i) st |= g_thr[i].stalled;
      violate(st ? "stall:blocked" : "deadlock:all", "threads wait for a lock that is never released");
    }
    for(int i = 0; i < g_nthreads; ++i)
      if(!g_thr[i].finished && g_thr[i].stalled) { g_thr[i].stalled = false; j = i; break; }
  }
  if(j >= 0) { g_res->switches++; fpost(&g_thr[j].sem); }
  else fpost(&g_main->sem);
  return nullptr;
}

void run_threads(const std::vector<std::function<void()>>& bodies)
{
  Off off;
  int n = int(bodies.size());
  if(n > MAX_THREADS) violate("harness:threads", "too many threads");
  // schedule parameters
  g_replay = g_plan->has_sched && g_mode == 0;
  g_sched_kind = n > 1 && g_mode == 0 ? int(g_plan->get("sched", 1)) : 0;
  static const double gaps[] = {2, 6, 20, 80, 400, 3000};
  g_p = g_sched_kind ? 1.0 / gaps[g_plan->get("gap", 2) % 6] : 0;
  g_p_hot = g_sched_kind == 2 ? 0.5 : g_p;
  g_srng = Rng(mix(g_plan->seed, 0x5c4ed));
  g_stall_thread = g_mode == 0 ? int(g_plan->get("stall_thread", -1)) : -1;
  g_stall_at = uint64_t(g_plan->get("stall_at", 0));
  for(int i = 0; i < MAX_THREADS; ++i) g_lists[i].clear();
  if(g_replay)
    for(auto& s : g_plan->sched) if(s.thread >= 0 && s.thread < MAX_THREADS) g_lists[s.thread].push_back(s);
  g_nthreads = n;
  g_main->sem = 0;
  for(int i = 0; i < n; ++i) {
    Thr& t = g_thr[i];
    int step = t.step;
    t = Thr();
    t.step = step;
    t.id = i; t.started = true; t.list = &g_lists[i];
    t.vc[i] = 1;
    t.stack_lo = STACKS + size_t(i) * STACK_SIZE;
    t.stack_hi = t.stack_lo + STACK_SIZE;
    g_bodies[i] = Body{&bodies[size_t(i)], &t};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t.stack_lo, STACK_SIZE);
    if(pthread_create(&t.pt, &at, thread_main, &g_bodies[i])) violate("harness:pthread", "pthread_create failed");
    pthread_attr_destroy(&at);
  }
  fpost(&g_thr[0].sem);
  fwait(&g_main->sem);
  for(int i = 0; i < n; ++i) pthread_join(g_thr[i].pt, nullptr);
  for(int i = 0; i < n; ++i) g_res->inter_hash = mix(g_res->inter_hash, g_thr[i].steps);
  g_nthreads = 0;
}
uint64_t region_hash(const void* p, size_t n)
{
  uint64_t h = n;
  const unsigned char* c = (const unsigned char*) p;
  for(size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull + (h >> 29);
  return h;
}

// ------------------------------------------------------------------------------ steps
void step_begin(int index, const Step& s)
{
  Off off;
  Thr* t = cur();
  t->step = index;
  t->op_steps = 0;
  t->fault = s.fault; t->fault_at = s.at;
  t->alloc_no = t->elem_no = t->rand_no = 0;
  t->fired = false;
  t->deny = false;
  t->allocs = t->denied = 0;
  t->acc0 = t->steps;
  t->ncs = 0;
  if(index < MAX_STEPS) { StepResult& r = g_res->steps[index]; memset(&r, 0, sizeof r); }
}
void step_end()
{
  Off off;
  Thr* t = cur();
  if(t->step < MAX_STEPS) {
    StepResult& r = g_res->steps[t->step];
    r.allocs = t->allocs; r.accesses = uint32_t(t->steps - t->acc0); r.fault_fired = t->fired;
    if(!r.executed) r.executed = 1;
    g_res->ops++;
    if(r.executed == 2) g_res->ops_threw++;
    g_res->hash = mix(g_res->hash, mix(r.hash, r.executed * 1000 + r.fault_fired));
  }
  t->fault = F_NONE;
  t->deny = false;
}
int current_step() { return cur()->step; }
StepResult& step_result(int i) { return g_res->steps[i < 0 ? 0 : i < MAX_STEPS ? i : MAX_STEPS - 1]; }
bool fault_fired() { return cur()->fired; }
uint32_t step_allocs() { return cur()->allocs; }
uint32_t step_denied() { return cur()->denied; }
void deny_allocs(bool on) { cur()->deny = on; }
void arm(int f, uint32_t at) { Thr* t = cur(); t->fault = f; t->fault_at = at; t->alloc_no = t->elem_no = t->rand_no = 0; }
void disarm() { cur()->fault = F_NONE; }
bool elem_fault_point()
{
  Thr* t = cur();
  if(t->fault != F_ELEM_THROW) return false;
  if(t->elem_no++ == t->fault_at) { t->fired = true; g_res->faults[F_ELEM_THROW]++; return true; }
  return false;
}
bool rand_fault_point()
{
  Thr* t = cur();
  if(t->fault != F_RAND_THROW) return false;
  if(t->rand_no++ == t->fault_at) { t->fired = true; g_res->faults[F_RAND_THROW]++; return true; }
  return false;
}
static void put(uint64_t bits, double v)
{
  Off off;
  Thr* t = cur();
  if(t->step >= MAX_STEPS || t->step < 0) return;
  StepResult& r = g_res->steps[t->step];
  r.hash = mix(r.hash + 1, bits);
  if(r.nvals < MAX_VALS) r.vals[r.nvals] = v;
  r.nvals++;
}
void out(double v) { uint64_t b; if(v != v) b = 0x7ff8000000000000ull; else __builtin_memcpy(&b, &v, 8); put(b, v); }
void out(float v) { out(double(v)); }
void out(int v) { put(uint64_t(int64_t(v)), v); }
void out(long v) { put(uint64_t(v), double(v)); }
void out(uint64_t v) { put(v, double(v)); }
void out(bool v) { put(v, v); }
void out_str(const char* s, size_t n) { put(region_hash(s, n), double(n)); }
void tag(const char* s) { Off off; Thr* t = cur(); if(t->step < MAX_STEPS && t->step >= 0) snprintf(g_res->steps[t->step].tag, 40, "%s", s); }

// ------------------------------------------------------------------------------ random sources
static RandScript g_rs;
static Rng g_rr(1);
static bool g_rand_real = true;
static uint32_t g_lcg = 1;
static uint64_t g_draws = 0, g_rdev = 0, g_srands = 0, g_ctr = 0;
static uint64_t g_clock_reads = 0;
void rand_script(const RandScript& s, uint64_t seed) { g_rs = s; g_rr = Rng(seed); g_ctr = 0; g_rand_real = false; }
void rand_real(bool on) { g_rand_real = on; }
uint64_t rand_draws() { return g_draws; }
uint64_t rdev_draws() { return g_rdev; }
uint64_t srand_calls() { return g_srands; }
// A seed for which one of the first outputs of std::default_random_engine (x -> 16807 x mod 2^31-1) is at or next to
// an end or the middle of its range.
uint64_t engine_seed(Rng& r)
{
  const uint64_t m = 2147483647ull, inv = 1407677000ull;
  uint32_t q = r.below(5), d = r.below(3);
  uint64_t x = q < 2 ? m - 1 - d : q < 4 ? 1 + d : m / 2 - 1 + d;
  for(uint32_t k = 1 + (r.below(2) ? 0 : r.below(6)); k; --k) x = x * inv % m;
  return x;
}
static uint64_t script_next()
{
  uint64_t k = g_ctr++;
  switch(g_rs.kind) {
    case 1: return g_rs.value;
    case 2: return (k & 1) ? ~0ull : 0;
    case 3: return g_rs.value + k;
    case 4: { static uint64_t last = 0; if(k % 7 == 0) last = g_rr.next(); return last; }
    case 5: { uint32_t r = g_rr.below(4); return r == 0 ? 0 : r == 1 ? ~0ull : g_rr.next(); }
    case 6: return g_rr.next() & 1 ? g_rs.value : g_rr.next();
    case 7: return g_rr.next() % 4 ? engine_seed(g_rr) : g_rr.next();
    default: return g_rr.next();
  }
}
struct RandError {};
}  // namespace sim

extern "C" int rand() noexcept
{
  using namespace sim;
  if(!g_active) return 0;
  g_draws++;
  if(g_rand_real) {
    g_lcg = g_lcg * 1103515245u + 12345u;
    uint32_t hi = g_lcg >> 16;
    g_lcg = g_lcg * 1103515245u + 12345u;
    return int(((hi << 15) ^ (g_lcg >> 16)) & 0x7fffffff);
  }
  return int(script_next() & 0x7fffffff);
}
extern "C" void srand(unsigned s) noexcept { if(sim::g_active) sim::g_srands++; sim::g_lcg = s * 2654435761u + 1; }
extern "C" long random() noexcept { return rand(); }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_init_pretr1(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval()
{
  using namespace sim;
  g_rdev++;
  if(rand_fault_point()) throw std::runtime_error("random_device: simulated failure");
  if(g_rand_real) return std::random_device::result_type(g_rr.next());
  return std::random_device::result_type(script_next());
}
std::random_device::result_type std::random_device::_M_getval_pretr1() { return _M_getval(); }

// simulated clocks: every read advances; the origin depends on the run and mode
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
  if(!sim::g_active) return int(syscall(SYS_clock_gettime, c, ts));
  sim::g_clock += 1000003 + (sim::g_clock % 7919) * 1000;
  sim::g_clock_reads++;
  ts->tv_sec = time_t(sim::g_clock / 1000000000ull); ts->tv_nsec = long(sim::g_clock % 1000000000ull);
  return 0;
}
extern "C" time_t time(time_t* p) noexcept
{
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if(p) *p = ts.tv_sec;
  return ts.tv_sec;
}
extern "C" clock_t clock() noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_nsec; }

// ------------------------------------------------------------------------------ global heap
namespace sim {
static inline bool sim_heap() { return g_active && t_lib > 0; }
static void* new_impl(size_t n, size_t align, bool nothrow)
{
  if(!sim_heap()) {
    void* p = nullptr;
    if(align > 16) { if(posix_memalign(&p, align, n ? n : 1)) p = nullptr; }
    else p = __real_malloc(n ? n : 1);
    if(!p && !nothrow) throw std::bad_alloc();
    return p;
  }
  if(nothrow) { try { return heap_alloc(n, A_GLOBAL, n, 1); } catch(...) { return nullptr; } }
  return heap_alloc(n, A_GLOBAL, n, 1);
}
static void delete_impl(void* p, bool have, size_t n)
{
  if(!p) return;
  if(in_arena(p)) { heap_free(p, A_GLOBAL, n, 1, have); return; }
  __real_free(p);
}
}  // namespace sim
void* operator new(size_t n) { return sim::new_impl(n, 16, false); }
void* operator new[](size_t n) { return sim::new_impl(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::new_impl(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::new_impl(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::new_impl(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::new_impl(n, size_t(a), false); }
void operator delete(void* p) noexcept { sim::delete_impl(p, false, 0); }
void operator delete[](void* p) noexcept { sim::delete_impl(p, false, 0); }
void operator delete(void* p, size_t n) noexcept { sim::delete_impl(p, true, n); }
void operator delete[](void* p, size_t n) noexcept { sim::delete_impl(p, true, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::delete_impl(p, false, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::delete_impl(p, false, 0); }
void operator delete(void* p, std::align_val_t) noexcept { sim::delete_impl(p, false, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::delete_impl(p, false, 0); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { sim::delete_impl(p, true, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { sim::delete_impl(p, true, n); }

extern "C" {
void* __real___cxa_allocate_exception(size_t n);
// exception objects come from the C++ runtime's own heap: fresh memory for the race detector
void* __wrap___cxa_allocate_exception(size_t n)
{
  void* p = __real___cxa_allocate_exception(n);
  sim::Off off;
  if(p) sim::race_clear((const char*) p, n);
  return p;
}
void* __wrap_malloc(size_t n)
{
  if(!sim::sim_heap()) return __real_malloc(n);
  try { return sim::heap_alloc(n, sim::A_MALLOC, n, 1); } catch(...) { errno = ENOMEM; return nullptr; }
}
void __wrap_free(void* p)
{
  if(!p) return;
  if(sim::in_arena(p)) { sim::heap_free(p, sim::A_MALLOC, 0, 1, false); return; }
  __real_free(p);
}
void* __wrap_calloc(size_t a, size_t b)
{
  if(!sim::sim_heap()) return __real_calloc(a, b);
  void* p = __wrap_malloc(a * b);
  if(p) __real_memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* q, size_t n)
{
  if(!sim::in_arena(q) && !sim::sim_heap()) return __real_realloc(q, n);
  void* p = __wrap_malloc(n);
  if(p && q) { size_t o = sim::block_bytes(q); __real_memcpy(p, q, o < n ? o : n); __wrap_free(q); }
  return p;
}
void* __wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }
int __wrap_posix_memalign(void** p, size_t, size_t n) { *p = __wrap_malloc(n); return *p ? 0 : ENOMEM; }

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  if(n) { sim::access(s, n, false); sim::access(d, n, true); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
  if(n) { sim::access(s, n, false); sim::access(d, n, true); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
  if(n) sim::access(d, n, true);
  return __real_memset(d, c, n);
}

// ------------------------------------------------------------------------------ locks
// Only one simulated thread runs at a time, so ownership tables are enough.
static bool simthr() { return sim::g_active && sim::t_cur; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
  using namespace sim;
  if(!simthr()) return 0;
  Off off; Thr* t = t_cur;
  sched_point(t, true);
  SyncVar* s = syncvar(m);
  while(s->owner >= 0) { if(s->owner == t->id) return EDEADLK; block(t, m); }
  s->owner = t->id;
  acquire(t, m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  using namespace sim;
  if(!simthr()) return 0;
  Off off; Thr* t = t_cur;
  SyncVar* s = syncvar(m);
  if(s->owner >= 0) return EBUSY;
  s->owner = t->id;
  acquire(t, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  using namespace sim;
  if(!simthr()) return 0;
  Off off; Thr* t = t_cur;
  syncvar(m)->owner = -1;
  release_sync(t, m);
  wake(m);
  sched_point(t, true);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  using namespace sim;
  if(!simthr()) return 0;
  Off off; Thr* t = t_cur;
  sched_point(t, true);
  SyncVar* s = syncvar(m);
  while(s->owner >= 0 || s->readers > 0) block(t, m);
  s->owner = t->id;
  acquire(t, m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  using namespace sim;
  if(!simthr()) return 0;
  Off off; Thr* t = t_cur;
  sched_point(t, true);
  SyncVar* s = syncvar(m);
  while(s->owner >= 0) block(t, m);
  s->readers++;
  acquire(t, m);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  using namespace sim;
  if(!simthr()) return 0;
  Off off; Thr* t = t_cur;
  SyncVar* s = syncvar(m);
  if(s->owner == t->id) s->owner = -1; else if(s->readers > 0) s->readers--;
  release_sync(t, m);
  wake(m);
  sched_point(t, true);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
  using namespace sim;
  if(*(volatile int*) o == 2) { if(simthr()) { Off off; acquire(t_cur, o); } return 0; }
  if(!simthr()) { *(volatile int*) o = 2; f(); return 0; }
  {
    Off off;
    while(*(volatile int*) o == 1) block(t_cur, o);
    if(*(volatile int*) o == 2) { acquire(t_cur, o); return 0; }
    *(volatile int*) o = 1;
  }
  try { f(); } catch(...) { *(volatile int*) o = 0; wake(o); throw; }
  Off off;
  *(volatile int*) o = 2;
  release_sync(t_cur, o);
  wake(o);
  return 0;
}
int __cxa_guard_acquire(long long int* g)
{
  using namespace sim;
  volatile uint8_t* b = (volatile uint8_t*) g;
  if(!simthr()) { if(b[0]) return 0; b[1] = 1; return 1; }
  Off off; Thr* t = t_cur;
  sched_point(t, true);
  while(b[1]) block(t, g);
  if(b[0]) { acquire(t, g); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long int* g)
{
  using namespace sim;
  volatile uint8_t* b = (volatile uint8_t*) g;
  b[0] = 1; b[1] = 0;
  if(!simthr()) return;
  Off off;
  release_sync(t_cur, g);
  wake(g);
  sched_point(t_cur, true);
}
void __cxa_guard_abort(long long int* g)
{
  using namespace sim;
  ((volatile uint8_t*) g)[1] = 0;
  if(!simthr()) return;
  Off off;
  wake(g);
}

// ------------------------------------------------------------------------------ instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
  if(sim::t_lib <= 0) return;
  sim::Thr* t = sim::t_cur ? sim::t_cur : sim::g_main;
  if(t->ncs >= 0 && t->ncs < 64) t->cs[t->ncs] = pc;
  t->ncs++;
}
void __tsan_func_exit()
{
  if(sim::t_lib <= 0) return;
  sim::Thr* t = sim::t_cur ? sim::t_cur : sim::g_main;
  if(t->ncs > 0) t->ncs--;
}
#define ACC(N) \
  void __tsan_read##N(void* p) { sim::access(p, N, false); } \
  void __tsan_write##N(void* p) { sim::access(p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { sim::access(p, N, false); } \
  void __tsan_unaligned_write##N(void* p) { sim::access(p, N, true); } \
  void __tsan_volatile_read##N(void* p) { sim::access(p, N, false); } \
  void __tsan_volatile_write##N(void* p) { sim::access(p, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* p) { sim::access(p, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { sim::access(p, N, true); } \
  void __tsan_read##N##_pc(void* p, void*) { sim::access(p, N, false); } \
  void __tsan_write##N##_pc(void* p, void*) { sim::access(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if(n) sim::access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if(n) sim::access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { sim::access(p, 8, true); }
void __tsan_vptr_read(void** p) { sim::access(p, 8, false); }
}  // extern C

namespace sim {
// atomics: every one is an acquire and a release on its address (conservative: never a false race)
static void atomic_point(const volatile void* p, size_t n, bool w)
{
  if(t_lib <= 0) return;
  Thr* t = t_cur ? t_cur : g_main;
  t->steps++; t->op_steps++; g_res->accesses++;
  if(t->op_steps > OP_LIMIT) violate("noprogress:steps", "a library step took more than %llu memory accesses", (unsigned long long) OP_LIMIT);
  if(in_arena((const void*) p))
    for(size_t i = 0; i < n; ++i)
      if(g_shadow[(const char*) p - ARENA + i] != S_LIVE) { report("memory:atomic", "atomic access outside live storage"); break; }
  if(g_nthreads > 1) {
    Off off;
    sched_point(t, true);
    acquire(t, (const void*) p);
    if(w) release_sync(t, (const void*) p);
  }
}
}  // namespace sim
extern "C" {
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { sim::atomic_point(a, sizeof(T), false); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = T(o + v); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = T(o - v); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = T(o & v); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = T(o | v); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = T(o ^ v); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { sim::atomic_point(a, sizeof(T), true); T o = *a; *a = T(~(o & v)); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) \
  { sim::atomic_point(a, sizeof(T), true); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) \
  { sim::atomic_point(a, sizeof(T), true); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) \
  { sim::atomic_point(a, sizeof(T), true); T o = *a; if(o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------ running children
namespace sim {
static double now_s()
{
  struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}
static char g_altstack[1 << 16];
static void on_signal(int sig)
{
  // runs on the alternate stack (main) or the thread's own stack
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS"
    : sig == SIGALRM || sig == SIGPROF ? "timeout" : "signal";
  RunResult& r = *g_res;
  t_lib = 0;
  if(!r.violated) {
    r.violated = 1;
    snprintf(r.cls, sizeof r.cls, sig == SIGALRM || sig == SIGPROF ? "noprogress:time" : "crash:%s", n);
    r.step = cur()->step;
    int k = snprintf(r.msg, sizeof r.msg, "the process died with %s in step %d", n, r.step);
    Thr* t = cur();
    for(int i = t->ncs - 1, c = 0; i >= 0 && c < 4; --i, ++c)
      k += snprintf(r.msg + k, sizeof r.msg - k, "%s %p", c ? "" : " @pc", i < 64 ? t->cs[i] : nullptr);
  }
  r.done = 1;
  _exit(0);
}
static void on_terminate()
{
  RunResult& r = *g_res;
  t_lib = 0;
  if(!r.violated) {
    r.violated = 1;
    snprintf(r.cls, sizeof r.cls, "terminate:exception");
    r.step = cur()->step;
    snprintf(r.msg, sizeof r.msg, "std::terminate was called in step %d", r.step);
  }
  r.done = 1;
  _exit(0);
}

static const int NSLOTS = 3;
struct ExecRunner : Runner
{
  RunResult* slots;
  ExecRunner()
  {
    slots = (RunResult*) mmap(nullptr, sizeof(RunResult) * NSLOTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  RunResult& exec(const Plan& p, int mode, int slot, const std::vector<int>* only) override
  {
    RunResult& r = slots[slot];
    __real_memset(&r, 0, offsetof(RunResult, sched));
    for(size_t i = 0; i < MAX_STEPS && i < p.steps.size() + 2; ++i) { r.steps[i].executed = 0; r.steps[i].nvals = 0; r.steps[i].hash = 0; r.steps[i].tag[0] = 0; r.steps[i].exc[0] = 0; }
    pid_t pid = fork();
    if(pid < 0) { perror("fork"); _exit(3); }
    if(pid == 0) {
      g_res = &r; g_plan = &p; g_mode = mode;
      g_fill = mix(p.seed, 0xf111 + uint64_t(mode));
      g_clock = mix(p.seed, 0xc10c + uint64_t(mode)) >> 2;
      stack_t ss{}; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack;
      sigaltstack(&ss, nullptr);
      struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
      for(int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
      std::set_terminate(on_terminate);
      *g_main = Thr(); g_main->id = MAX_THREADS; g_main->step = -1;
      g_main->stack_lo = g_main->stack_hi = nullptr;
      g_active = true;
      alarm(90);                       // wall clock, in case the child hangs without using the processor
      struct itimerval it{}; it.it_value.tv_sec = 4; setitimer(ITIMER_PROF, &it, nullptr);   // processor time: a run takes milliseconds
      g_world->child(p, mode, only);
      r.done = 1;
      _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(!r.done) {
      g_plan = &p;
      r.violated = 1;
      snprintf(r.cls, sizeof r.cls, "crash:exit");
      snprintf(r.msg, sizeof r.msg, "the run died (wait status 0x%x)", st);
      r.step = -1;
    }
    return r;
  }
};

// ------------------------------------------------------------------------------ plan files
static std::string plan_text(const Plan& p)
{
  std::string s;
  char b[400];
  s += "property " + p.property + "\nworld " + p.world + "\n";
  snprintf(b, sizeof b, "seed %llu\n", (unsigned long long) p.seed); s += b;
  for(auto& c : p.cfg) { snprintf(b, sizeof b, "cfg %s %ld\n", c.first.c_str(), c.second); s += b; }
  for(auto& x : p.steps) {
    snprintf(b, sizeof b, "step thread=%d op=%d a=%u b=%u c=%u n=%u m=%u v=%llu fault=%s at=%u  # %s\n", x.thread, x.op, x.a, x.b, x.c, x.n, x.m,
      (unsigned long long) x.v, fault_names[x.fault], x.at, g_world->opname(p, x.op));
    s += b;
  }
  snprintf(b, sizeof b, "schedule %d\n", p.has_sched ? 1 : 0); s += b;
  for(auto& w : p.sched) { snprintf(b, sizeof b, "switch thread=%d at=%llu to=%d\n", w.thread, (unsigned long long) w.at, w.to); s += b; }
  return s;
}
static bool plan_load(const char* path, Plan& p)
{
  FILE* f = fopen(path, "r");
  if(!f) return false;
  char l[600];
  while(fgets(l, sizeof l, f)) {
    char k[300]; long v; unsigned long long u;
    Step s; Switch w; char fn[64];
    if(sscanf(l, "property %299s", k) == 1) p.property = k;
    else if(sscanf(l, "world %299s", k) == 1) p.world = k;
    else if(sscanf(l, "seed %llu", &u) == 1) p.seed = u;
    else if(sscanf(l, "cfg %299s %ld", k, &v) == 2) p.cfg[k] = v;
    else if(sscanf(l, "step thread=%d op=%d a=%u b=%u c=%u n=%u m=%u v=%llu fault=%63s at=%u", &s.thread, &s.op, &s.a, &s.b, &s.c, &s.n, &s.m, &u, fn, &s.at) == 10) {
      s.v = u;
      for(int i = 0; i < F_NUM; ++i) if(!strcmp(fn, fault_names[i])) s.fault = i;
      p.steps.push_back(s);
    }
    else if(sscanf(l, "schedule %ld", &v) == 1) p.has_sched = v != 0;
    else if(sscanf(l, "switch thread=%d at=%llu to=%d", &w.thread, &u, &w.to) == 3) { w.at = u; p.sched.push_back(w); }
  }
  fclose(f);
  return true;
}

// ------------------------------------------------------------------------------ search, minimisation, replay
struct WorkerStats
{
  uint64_t runs, nontrivial, threads_runs, accesses, switches, forced, allocs, denied, ops, ops_threw, races_checked, foreign, execs;
  uint64_t faults[F_NUM], probes[N_PROBES];
  uint8_t cover[2048];
  uint64_t run_hash;
  uint64_t ndist; 
  uint64_t known;
};
struct Shared
{
  volatile uint64_t min_index;
  volatile int stop;
  struct { uint64_t index; char cls[64], sig[160], msg[2000]; int set; } viol[64];
  struct { char sig[160]; char msg[400]; uint64_t n; } known[64];
  WorkerStats st[64];
};
static const uint32_t DSET = 1u << 18;

static void pin_to_cpu(int w)
{
  cpu_set_t all, one;
  if(sched_getaffinity(0, sizeof all, &all)) return;
  int n = CPU_COUNT(&all);
  if(n < 2) return;
  w %= n;
  for(int i = 0; i < CPU_SETSIZE; ++i)
    if(CPU_ISSET(i, &all) && w-- == 0) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); return; }
}
static Plan make_plan(const std::string& prop, uint64_t seed, uint64_t index)
{
  Plan p;
  p.property = prop; p.world = g_world->name();
  p.seed = mix(mix(seed, 0xabcdef), mix(index, region_hash(prop.data(), prop.size())));
  Rng r(p.seed);
  g_plan = &p;
  g_world->generate(p, r);
  return p;
}
static std::vector<std::string> g_known_sigs;
static bool is_known(const RunResult& r)
{
  if(!r.sig[0]) return false;
  for(auto& k : g_known_sigs) if(k == r.sig) return true;
  return false;
}
static std::string json_str(const std::string& s)
{
  std::string o = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

struct Minimiser
{
  ExecRunner& run; std::string cls; int budget; int used = 0;
  double deadline;
  bool same(const RunResult& r) const
  {
    return r.violated && cls == r.cls && !is_known(r);
  }
  bool test(Plan& p)
  {
    if(used >= budget || now_s() > deadline) return false;
    used++;
    return same(g_world->drive(p, run));
  }
  template<class V, class F> void ddmin(Plan& p, V get, F)
  {
    size_t n = 2;
    while(get(p).size() >= 1 && used < budget) {
      size_t len = get(p).size();
      if(n > len) n = len;
      size_t chunk = (len + n - 1) / n;
      bool reduced = false;
      for(size_t i = 0; i < len; i += chunk) {
        Plan q = p;
        auto& v = get(q);
        v.erase(v.begin() + long(i), v.begin() + long(std::min(len, i + chunk)));
        if(test(q)) { p = q; reduced = true; n = std::max<size_t>(n - 1, 2); break; }
      }
      if(!reduced) {
        if(chunk <= 1) break;
        n = std::min(len, n * 2);
      }
    }
  }
  void minimise(Plan& p)
  {
    for(int round = 0; round < 3; ++round) {
      std::string before = plan_text(p);
      if(p.has_sched) {
        Plan q = p; q.sched.clear();
        if(test(q)) p = q;
        else ddmin(p, [](Plan& x) -> std::vector<Switch>& { return x.sched; }, 0);
      }
      ddmin(p, [](Plan& x) -> std::vector<Step>& { return x.steps; }, 0);
      for(size_t i = 0; i < p.steps.size(); ++i) {
        Step& s = p.steps[i];
        if(s.fault) { Plan q = p; q.steps[i].fault = 0; q.steps[i].at = 0; if(test(q)) p = q; }
        uint32_t Step::*f[] = {&Step::at, &Step::a, &Step::b, &Step::c, &Step::n, &Step::m};
        for(auto m : f) {
          if(p.steps[i].*m) { Plan q = p; q.steps[i].*m = 0; if(test(q)) p = q; else { q = p; q.steps[i].*m /= 2; if(test(q)) p = q; } }
        }
        if(p.steps[i].v > 3) { Plan q = p; q.steps[i].v &= 3; if(test(q)) p = q; }
        if(p.steps[i].thread) { Plan q = p; q.steps[i].thread = 0; if(test(q)) p = q; }
      }
      for(auto c : std::map<std::string, long>(p.cfg)) {
        if(c.first == "stall_thread" && c.second >= 0) { Plan q = p; q.cfg["stall_thread"] = -1; if(test(q)) p = q; }
      }
      if(plan_text(p) == before) break;
    }
  }
};

static int replay_main(const char* path, bool quiet, const char* self)
{
  (void) self;
  Plan p;
  if(!plan_load(path, p)) { fprintf(stderr, "cannot read %s\n", path); return 3; }
  ExecRunner run;
  RunResult& r = g_world->drive(p, run);
  if(!quiet) {
    printf("%s", plan_text(p).c_str());
    for(size_t i = 0; i < p.steps.size() && i < MAX_STEPS; ++i) {
      StepResult& s = r.steps[i];
      printf("  step %zu t%d %s: %s%s%s fault=%s%s allocs=%u acc=%u tag=%s hash=%016llx", i, p.steps[i].thread, g_world->opname(p, p.steps[i].op),
        s.executed == 0 ? "not run" : s.executed == 1 ? "returned" : "threw", s.executed == 2 ? " " : "", s.exc, fault_names[p.steps[i].fault],
        s.fault_fired ? "(fired)" : "", s.allocs, s.accesses, s.tag, (unsigned long long) s.hash);
      for(int k = 0; k < s.nvals && k < 12; ++k) printf(" %.9g", s.vals[k]);
      printf("\n");
    }
  }
  printf("{\"violated\": %d, \"cls\": %s, \"sig\": %s, \"step\": %d, \"hash\": \"%016llx\", \"msg\": %s}\n", r.violated, json_str(r.cls).c_str(),
    json_str(r.sig).c_str(), r.step, (unsigned long long) r.hash, json_str(r.msg).c_str());
  return r.violated ? 1 : 0;
}

static int search_main(const std::string& prop, uint64_t seed, uint64_t runs, double max_s, int jobs, const std::string& replay_dir, const std::string& hashlog,
  const char* self)
{
  double t0 = now_s();
  Shared* sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t* dist = (uint64_t*) mmap(nullptr, size_t(jobs) * DSET * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint64_t* hl = nullptr;
  if(!hashlog.empty()) hl = (uint64_t*) mmap(nullptr, runs * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->min_index = ~0ull;
  std::vector<pid_t> pids;
  fflush(stdout);
  for(int w = 0; w < jobs; ++w) {
    pid_t pid = fork();
    if(pid == 0) {
      pin_to_cpu(w);       // only one simulated thread runs at a time: keep them on one processor
      ExecRunner run;
      WorkerStats& st = sh->st[w];
      uint64_t* ds = dist + size_t(w) * DSET;
      for(uint64_t i = uint64_t(w); i < runs; i += uint64_t(jobs)) {
        if(i > sh->min_index) break;
        if(now_s() - t0 > max_s) break;
        Plan p = make_plan(prop, seed, i);
        RunResult& r = g_world->drive(p, run);
        st.runs++;
        st.accesses += r.accesses; st.switches += r.switches; st.forced += r.forced; st.allocs += r.allocs; st.denied += r.allocs_denied;
        st.ops += r.ops; st.ops_threw += r.ops_threw; st.races_checked += r.races_checked;
        for(int k = 0; k < F_NUM; ++k) st.faults[k] += r.faults[k];
        for(int k = 0; k < N_PROBES; ++k) st.probes[k] += r.probes[k];
        for(size_t k = 0; k < p.steps.size() && k < size_t(MAX_STEPS); ++k)
          if(r.steps[k].executed) { uint32_t c = uint32_t(p.get("univ", 0) * 2048 + p.steps[k].op) & 16383; st.cover[c >> 3] |= uint8_t(1u << (c & 7)); }
        if(hl) hl[i] = mix(mix(r.hash, r.inter_hash), r.violated);
        uint64_t h = mix(mix(r.hash, r.inter_hash), r.nontrivial);
        bool nt = r.nontrivial || r.switches > 1;
        for(int k = 1; k < F_NUM; ++k) nt = nt || r.faults[k];
        if(nt) {
          st.nontrivial++;
          if(h == 0) h = 1;
          if(st.ndist < DSET / 2) {
            uint32_t q = uint32_t(h) & (DSET - 1);
            while(ds[q] && ds[q] != h) q = (q + 1) & (DSET - 1);
            if(!ds[q]) { ds[q] = h; st.ndist++; }
          }
        }
        if(r.violated) {
          if(is_known(r)) {
            st.known++;
            for(int k = 0; k < 64; ++k) {
              if(!sh->known[k].sig[0]) { snprintf(sh->known[k].sig, 160, "%s", r.sig); snprintf(sh->known[k].msg, 400, "%s", r.msg); }
              if(!strcmp(sh->known[k].sig, r.sig)) { sh->known[k].n++; break; }
            }
            continue;
          }
          sh->viol[w].set = 1; sh->viol[w].index = i;
          snprintf(sh->viol[w].cls, 64, "%s", r.cls);
          snprintf(sh->viol[w].sig, 160, "%s", r.sig);
          snprintf(sh->viol[w].msg, 2000, "%s", r.msg);
          uint64_t o = sh->min_index;
          while(i < o && !__atomic_compare_exchange_n(&sh->min_index, &o, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
          break;
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  bool worker_died = false;
  for(pid_t p : pids) { int st; waitpid(p, &st, 0); if(st != 0) worker_died = true; }
  double t1 = now_s();
  WorkerStats tot{};
  std::set<uint64_t> all;
  for(int w = 0; w < jobs; ++w) {
    WorkerStats& s = sh->st[w];
    uint64_t* a = (uint64_t*) &s; uint64_t* b = (uint64_t*) &tot;
    for(size_t k = 0; k < sizeof(WorkerStats) / 8; ++k) b[k] += a[k];
    uint64_t* ds = dist + size_t(w) * DSET;
    for(uint32_t k = 0; k < DSET; ++k) if(ds[k]) all.insert(ds[k]);
  }
  memset(tot.cover, 0, sizeof tot.cover);
  for(int w = 0; w < jobs; ++w) for(size_t k = 0; k < sizeof tot.cover; ++k) tot.cover[k] |= sh->st[w].cover[k];
  if(hl) { FILE* f = fopen(hashlog.c_str(), "w"); for(uint64_t i = 0; i < runs; ++i) fprintf(f, "%016llx\n", (unsigned long long) hl[i]); fclose(f); }

  // violation handling
  std::string vjson = "null";
  std::vector<int> order;
  for(int w = 0; w < jobs; ++w) if(sh->viol[w].set) order.push_back(w);
  std::sort(order.begin(), order.end(), [&](int a, int b) { return sh->viol[a].index < sh->viol[b].index; });
  for(int w : order) {
    auto& v = sh->viol[w];
    ExecRunner run;
    Plan p = make_plan(prop, seed, v.index);
    RunResult r1 = g_world->drive(p, run);
    RunResult r2 = g_world->drive(p, run);
    bool same = r1.violated && r2.violated && r1.hash == r2.hash && r1.inter_hash == r2.inter_hash && !strcmp(r1.cls, r2.cls);
    bool twice = r1.violated && r2.violated && !strcmp(r1.cls, r2.cls);
    if(!twice) { fprintf(stderr, "violation of run %llu (%s) did not repeat: %s / %s\n", (unsigned long long) v.index, v.cls, r1.cls, r2.cls); vjson = "{\"unreproducible\": " + json_str(v.cls) + "}"; continue; }
    // freeze the schedule
    Plan f = p;
    size_t steps0 = p.steps.size();
    if(r1.nsched) {
      f.has_sched = true;
      f.sched.assign(r1.sched, r1.sched + r1.nsched);
      RunResult& r3 = g_world->drive(f, run);
      if(!(r3.violated && !strcmp(r3.cls, r1.cls))) f = p;
    }
    size_t sched0 = f.sched.size();
    Minimiser m{run, r1.cls, 600, 0, now_s() + 25};
    m.minimise(f);
    RunResult rf = g_world->drive(f, run);
    if(!rf.violated) { f = p; rf = r1; }
    char name[200];
    snprintf(name, sizeof name, "%s/%s-%s-%016llx.plan", replay_dir.c_str(), prop.c_str(), g_world->name(), (unsigned long long) f.seed);
    auto write = [&](const Plan& q) {
      FILE* o = fopen(name, "w");
      if(o) { fprintf(o, "# violation %s\n# %s\n%s", rf.cls, rf.msg, plan_text(q).c_str()); fclose(o); }
    };
    auto fresh = [&]() {
      fflush(stdout);
      pid_t pid = fork();
      if(pid == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        execl("/proc/self/exe", self, "--replay", name, "--quiet", (char*) nullptr);
        _exit(9);
      }
      int st = 0; waitpid(pid, &st, 0);
      return WIFEXITED(st) && WEXITSTATUS(st) == 1;
    };
    write(f);
    bool ok = fresh();
    if(!ok) { f = p; rf = r1; write(f); ok = fresh(); }   // fall back to the plan that was not minimised
    if(!ok) { fprintf(stderr, "violation of run %llu (%s) does not replay in a fresh process\n", (unsigned long long) v.index, v.cls); vjson = "{\"unreproducible\": " + json_str(v.cls) + "}"; continue; }
    char b[600];
    snprintf(b, sizeof b, "{\"index\": %llu, \"steps\": %zu, \"steps_before\": %zu, \"switches\": %zu, \"switches_before\": %zu, \"hash_equal\": %s, \"minimiser_runs\": %d, ",
      (unsigned long long) v.index, f.steps.size(), steps0, f.sched.size(), sched0, same ? "true" : "false", m.used);
    vjson = std::string(b) + "\"cls\": " + json_str(rf.cls) + ", \"sig\": " + json_str(rf.sig) + ", \"msg\": " + json_str(rf.msg) + ", \"replay\": " + json_str(name) + "}";
    break;
  }
  // report
  std::string s = "{";
  char b[400];
  auto num = [&](const char* k, uint64_t v) { snprintf(b, sizeof b, "\"%s\": %llu, ", k, (unsigned long long) v); s += b; };
  s += "\"world\": " + json_str(g_world->name()) + ", \"property\": " + json_str(prop) + ", ";
  num("runs", tot.runs); num("nontrivial", tot.nontrivial); num("distinct", all.size()); num("accesses", tot.accesses); num("switches", tot.switches);
  num("forced_switches", tot.forced); num("allocs", tot.allocs); num("allocs_denied", tot.denied); num("ops", tot.ops); num("ops_threw", tot.ops_threw);
  num("race_checks", tot.races_checked); num("known_hits", tot.known);
  { uint64_t n = 0; for(uint8_t c : tot.cover) n += uint64_t(__builtin_popcount(c)); num("ops_reached", n); num("ops_catalogue", g_world->catalogue()); }
  num("foreign", tot.probes[N_PROBES - 1]);
  snprintf(b, sizeof b, "\"search_s\": %.3f, \"total_s\": %.3f, \"worker_died\": %s, ", t1 - t0, now_s() - t0, worker_died ? "true" : "false"); s += b;
  s += "\"faults\": {";
  bool first = true;
  for(int k = 1; k < F_NUM; ++k) { snprintf(b, sizeof b, "%s\"%s\": %llu", first ? "" : ", ", fault_names[k], (unsigned long long) tot.faults[k]); s += b; first = false; }
  s += "}, \"probes\": {";
  first = true;
  auto& pn = probe_names();
  for(size_t k = 0; k < pn.size(); ++k) { s += (first ? "" : ", ") + json_str(pn[k]); snprintf(b, sizeof b, ": %llu", (unsigned long long) tot.probes[k]); s += b; first = false; }
  s += "}, \"known\": [";
  first = true;
  for(int k = 0; k < 64; ++k) if(sh->known[k].sig[0]) { s += first ? "" : ", "; s += "{\"sig\": " + json_str(sh->known[k].sig) + ", \"msg\": " + json_str(sh->known[k].msg) + "}"; first = false; }
  s += "], \"samples\": [";
  first = true;
  for(uint64_t i = 0; i < 2 && i < runs; ++i) {
    Plan p = make_plan(prop, seed, i * 7);
    if(p.steps.size() > 10) p.steps.resize(10);
    s += first ? "" : ", "; s += json_str(plan_text(p)); first = false;
  }
  s += "], \"violation\": " + vjson + "}";
  printf("%s\n", s.c_str());
  return vjson == "null" ? 0 : 1;
}
}  // namespace sim

int main(int argc, char** argv)
{
  using namespace sim;
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  void* a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap(STACKS, STACK_SIZE * MAX_THREADS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if(a != ARENA || b != STACKS) { perror("mmap"); return 3; }
  g_shadow = (uint8_t*) mmap(nullptr, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_index = (uint32_t*) mmap(nullptr, ARENA_SIZE / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_world = make_world();
  std::string prop = "P01", dir = "/tmp", hashlog;
  uint64_t seed = 1, runs = 1000; double max_s = 1e9; int jobs = 8; bool quiet = false;
  const char* rp = nullptr;
  for(int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    auto val = [&]() { return i + 1 < argc ? argv[++i] : (char*) ""; };
    if(k == "--property") prop = val();
    else if(k == "--seed") seed = strtoull(val(), nullptr, 10);
    else if(k == "--runs") runs = strtoull(val(), nullptr, 10);
    else if(k == "--max-seconds") max_s = atof(val());
    else if(k == "--jobs") jobs = std::min(64, atoi(val()));
    else if(k == "--dir") dir = val();
    else if(k == "--hash-log") hashlog = val();
    else if(k == "--known") g_known_sigs.push_back(val());
    else if(k == "--replay") rp = val();
    else if(k == "--quiet") quiet = true;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
  }
  if(rp) return replay_main(rp, quiet, argv[0]);
  mkdir(dir.c_str(), 0777);
  return search_main(prop, seed, runs, max_s, jobs, dir, hashlog, argv[0]);
}
