#include "views_univ.h"
views::UnivBase* views::make_i() { return new views::Univ<int, cml::col_basis>; }
