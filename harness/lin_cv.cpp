#include "lin.hpp"
void fill_cv(Table& f)
{
   RE(C, "c", 2, 2) RE(C, "c", 3, 3) RE(C, "c", 2, 3)
}
