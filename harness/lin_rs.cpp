#include "lin.hpp"
void fill_rs(Table& f)
{
   SS(double, "r", 2) SS(double, "r", 3) SS(double, "r", 4)
}
