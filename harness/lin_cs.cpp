#include "lin.hpp"
void fill_cs(Table& f)
{
   SS(C, "c", 2) SS(C, "c", 3) SS(C, "c", 4)
}
