// World "dyn": histories of operations on dynamically sized vectors and matrices, with faults.
#pragma once
#include "sim.h"
#include <string>
#include <vector>

namespace dyn {

struct OpInfo { const char* name; int weight; int flags; };
enum { OF_MOVE = 1, OF_RESIZE = 2, OF_CROSS = 4, OF_SIZE = 8, OF_HEAVY = 16, OF_ALLOC = 32, OF_GEO = 64 };   // OF_GEO: needs operands of 2, 3 or 4 dimensions

struct UnivBase
{
  virtual ~UnivBase() {}
  virtual int nops() = 0;
  virtual OpInfo info(int op) = 0;
  virtual bool tracked() = 0;
  virtual void run(const sim::Plan& p) = 0;   // in the child
};
UnivBase* make_univ_0();
UnivBase* make_univ_1();
UnivBase* make_univ_2();
UnivBase* make_univ_3();
UnivBase* make_univ_4();

// model value: one dynamic vector (kind 0, r = size, c = 1) or matrix (kind 1); elements in storage order
struct Val
{
  int kind = 0, r = 0, c = 0;
  bool cm = false;
  std::vector<double> e;
  std::vector<char> known;
  int size() const { return int(e.size()); }
  int at(int i, int j) const { return kind == 0 ? i : cm ? j * r + i : i * c + j; }
  double get(int i, int j = 0) const { return e[size_t(at(i, j))]; }
  void set(int i, int j, double x) { e[size_t(at(i, j))] = x; known[size_t(at(i, j))] = 1; }
  void shape(int rr, int cc) { r = rr; c = cc; e.resize(size_t(rr) * size_t(cc), 0.0); known.resize(e.size(), 0); }
  void clear(int rr, int cc) { e.clear(); known.clear(); shape(rr, cc); }
};

bool lu_np(const std::vector<double>& a, int n, std::vector<double>& lu);      // no pivoting; false if unsafe
double det(const std::vector<double>& a, int n);
bool inverse(const std::vector<double>& a, int n, std::vector<double>& inv, double& cond);

}  // namespace dyn
