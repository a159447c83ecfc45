// Evaluates the library's loop functions on requested arguments and records
// one event per call.  stdin: "<name> <arg>..." (hex floats), stdout: hex floats.
#include "himalaya/misc/Li2.hpp"
#include "himalaya/mh2l/Li2f.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace tl = himalaya::mh2_eft::threshold_loop_functions;
namespace fo = himalaya::mh2_fo;
using C = std::complex<double>;
using V = std::vector<double>;

int main()
{
   std::map<std::string, std::function<C(const V&)>> f;
#define N1(n, e) f[n] = [](const V& a) { return C(e(a.at(0))); }
#define N2(n, e) f[n] = [](const V& a) { return C(e(a.at(0), a.at(1))); }
#define N3(n, e) f[n] = [](const V& a) { return C(e(a.at(0), a.at(1), a.at(2))); }
#define N4(n, e) f[n] = [](const V& a) { return C(e(a.at(0), a.at(1), a.at(2), a.at(3))); }
   f["dilog"]  = [](const V& a) { return C(himalaya::dilog(a.at(0))); };
   f["cdilog"] = [](const V& a) { return himalaya::dilog(C(a.at(0), a.at(1))); };
   f["li2f"]   = [](const V& a) { return C(himalaya::li2(a.at(0))); };
   f["cli2f"]  = [](const V& a) { return himalaya::li2(C(a.at(0), a.at(1))); };
   N1("cl2", himalaya::clausen_2);
   N2("a0", fo::a0); N3("b0xx", fo::b0xx); N4("b0", fo::b0); N2("d1_b0", fo::d1_b0);
   N1("F1", tl::F1); N1("F2", tl::F2); N1("F3", tl::F3); N1("F4", tl::F4);
   N1("F5", tl::F5); N1("F6", tl::F6); N1("F7", tl::F7);
   N2("F8", tl::F8); N2("F9", tl::F9);
   N1("f", tl::f); N1("g", tl::g);
   N1("f1", tl::f1); N1("f2", tl::f2); N1("f3", tl::f3); N1("f4", tl::f4);
   N2("f5", tl::f5); N2("f6", tl::f6); N2("f7", tl::f7); N2("f8", tl::f8);
   N3("delta", tl::delta_xyz); N3("phi", tl::phi_xyz);

   char line[512];
   while (std::fgets(line, sizeof line, stdin)) {
      char* tok = std::strtok(line, " \n");
      if (!tok) continue;
      const auto it = f.find(tok);
      if (it == f.end()) { std::fprintf(stderr, "unknown function %s\n", tok); return 3; }
      V a;
      while ((tok = std::strtok(nullptr, " \n"))) a.push_back(std::strtod(tok, nullptr));
      const C r = it->second(a);
      std::printf("%a %a\n", r.real(), r.imag());
   }
   return 0;
}
