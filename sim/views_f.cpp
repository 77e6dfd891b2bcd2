#include "views_univ.h"
views::UnivBase* views::make_f() { return new views::Univ<float, cml::col_basis>; }
