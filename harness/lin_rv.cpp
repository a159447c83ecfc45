#include "lin.hpp"
void fill_rv(Table& f)
{
   RE(double, "r", 2, 2) RE(double, "r", 3, 3) RE(double, "r", 2, 3)
}
