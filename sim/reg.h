// World "reg": a registry of calls of every function and operator of the library, run
// under histories, thread schedules and faults.  Non-template part.
#pragma once
#include "sim.h"
#include <string>
#include <vector>

namespace reg {

enum { F_DYN = 1,      // may obtain dynamic memory (has a dynamically sized operand or result)
       F_HEAVY = 2,    // general inverse/determinant/LU: exempt from the no-heap rule
       F_RANDOM = 4,   // draws random numbers: not a pure function of its operands
       F_MUT = 8,      // modifies its (own) operand
       F_THROWS = 16 };// throws by design (wrong size, invalid argument)

struct OpInfo { const char* name; int flags; };

// one universe: element type, basis, layout, quaternion order and cross type
struct UnivBase
{
  virtual ~UnivBase() {}
  virtual int nops() = 0;
  virtual OpInfo info(int op) = 0;
  virtual size_t pool_bytes() = 0;
  virtual void make_pool(void* mem, uint64_t seed, int flavour, char* buf, int nth, int t) = 0;   // inside Lib
  virtual void free_pool(void*) = 0;                                                       // inside Lib
  virtual size_t buffer_bytes() = 0;                       // caller array one pool needs
  virtual uint64_t pool_hash(void*) = 0;                   // values of all operands, outside Lib
  virtual void call(const sim::Step& s, void* pool, void* scratch, bool priv) = 0;  // inside Lib
};
UnivBase* make_univ_a();
UnivBase* make_univ_b();

// splitmix stream for operand values
struct Vals
{
  sim::Rng r; int flavour;
  Vals(uint64_t s, int f) : r(s), flavour(f) {}
  double operator()();
};

}  // namespace reg
