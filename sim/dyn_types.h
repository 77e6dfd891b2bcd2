// The five universes of types of world "dyn".
#pragma once
#include "dyn_univ.h"
#define UNIV_0 double, UserAlloc<double, A_USER1>, std::allocator<double>, cml::col_basis, cml::col_major, cml::row_major
#define UNIV_1 Tracked, UserAlloc<Tracked, A_USER1>, UserAlloc<Tracked, A_USER2>, cml::row_basis, cml::row_major, cml::col_major
#define UNIV_2 float, std::allocator<float>, UserAlloc<float, A_USER2>, cml::col_basis, cml::row_major, cml::col_major
#define UNIV_3 int, std::allocator<int>, UserAlloc<int, A_USER1>, cml::row_basis, cml::row_major, cml::row_major
#define UNIV_4 double, UserAlloc<char, A_USER1>, UserAlloc<long, A_USER2>, cml::row_basis, cml::col_major, cml::col_major
