#include "views_univ.h"
views::UnivBase* views::make_d() { return new views::Univ<double, cml::row_basis>; }
