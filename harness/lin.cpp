#include "lin.hpp"
std::string out;
int main()
{
   Table f;
   fill_rh(f); fill_rs(f); fill_ch(f); fill_cs(f); fill_rv(f); fill_rw(f); fill_cv(f); fill_cw(f); fill_p(f);
   std::string line;
   while (std::getline(std::cin, line)) {
      const auto bar = line.find('|');
      const auto it = f.find(line.substr(0, bar));
      if (bar == std::string::npos || it == f.end()) { std::cerr << "bad request " << line << "\n"; return 97; }
      V v;
      const char* p = line.c_str() + bar + 1;
      char* q;
      for (;;) { const double x = std::strtod(p, &q); if (q == p) break; v.push_back(x); p = q; }
      out = "{";
      it->second(v);
      out += "}";
      std::puts(out.c_str());
      std::fflush(stdout);
   }
}
