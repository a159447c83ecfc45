#include "lin.hpp"
void fill_ch(Table& f)
{
   SH(C, "c", 2) SH(C, "c", 3) SH(C, "c", 4) SH(C, "c", 6)
}
