#include "lin.hpp"
void fill_cw(Table& f)
{
   RE(C, "c", 3, 2) RE(C, "c", 4, 4) RE(C, "c", 2, 4)
}
