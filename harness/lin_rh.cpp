#include "lin.hpp"
void fill_rh(Table& f)
{
   SH(double, "r", 2) SH(double, "r", 3) SH(double, "r", 4) SH(double, "r", 6)
}
