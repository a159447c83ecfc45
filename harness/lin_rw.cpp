#include "lin.hpp"
void fill_rw(Table& f)
{
   RE(double, "r", 3, 2) RE(double, "r", 4, 4) RE(double, "r", 4, 2)
}
