// World "views": views of a caller-owned array against a plain array.
#pragma once
#include "sim.h"

namespace views {
struct UnivBase
{
  virtual ~UnivBase() {}
  virtual void run(const sim::Plan& p) = 0;      // in the child
};
UnivBase* make_d();
UnivBase* make_f();
UnivBase* make_i();

enum VOp { V_PUT, V_IDX, V_ZERO, V_CARD, V_FILL, V_FILLALIAS, V_SET, V_NORM, V_MUL, V_DIV, V_MULALIAS, V_ASSIGN, V_ADD, V_SUB, V_MIN, V_MAX,
  V_LIST, V_ARR, V_BASE, V_COPY, V_MOVE, V_TEMP, V_LIFE, V_READ, V_CROSS, V_MV, V_RESET, V_RANDOM, V_CHAIN, V_CONST, V_SUBV, V_NUM };
enum MOp { M_PUT = V_NUM, M_IDX, M_BASIS, M_SETROW, M_SETCOL, M_ZERO, M_IDENT, M_FILL, M_TRANS, M_INV, M_ASSIGN, M_ADD, M_SUB, M_MUL, M_DIV,
  M_MULALIAS, M_LIST, M_ARR, M_ARR2, M_PROD, M_RESIZE, M_COPY, M_MOVE, M_TEMP, M_LIFE, M_READ, M_RESET, M_RANDOM, M_OUTER, M_GETROW, M_ARRCTOR, M_WRITERS, M_NUM };
static const char* const op_names[] = {"v.put", "v[i]=", "v.zero", "v.cardinal", "v.fill", "v.fill(v[i])", "v.set", "v.normalize", "v*=s", "v/=s", "v*=v[i]", "v=src", "v+=src",
  "v-=src", "v.minimize", "v.maximize", "v={list}", "v=array", "base(v)=w", "v=w (same type)", "v=move(w)", "view(ptr)=src", "copies of a view", "reading", "v=cross(a,b)", "v=m*w",
  "reset and recreate", "v.random", "v chained updates", "read-only views", "views of parts",
  "m.put", "m(i,j)=", "m.set_basis_element", "m.set_row", "m.set_col", "m.zero", "m.identity", "m.fill", "m.transpose", "m.inverse", "m=src", "m+=src", "m-=src", "m*=s",
  "m/=s", "m*=m(i,j)", "m={list}", "m=array", "m=array2d", "m=a*b", "m.resize", "m=n (same type)", "m=move(n)", "mview(ptr)=src", "copies of a matrix view", "reading a matrix",
  "matrix reset and recreate", "m.random", "m=outer(v,w)", "row/col/basis of a view", "view of a 2-D array", "mathlib writes to a view"};
}  // namespace views
