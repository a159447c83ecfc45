// "val verbose params": validation events (once, twice), "msq params"
#include "rec.hpp"
using namespace himalaya;
int main()
{
   rec::Handlers h;
   h["val"] = [](rec::In& in, rec::Out& o) {
      const bool verbose = in.integer() != 0;
      auto p = rec::read_parameters(in);
      p.validate(verbose);
      rec::put_parameters(o, p);
      o.put("msq2", p.calculateMsq2());
      auto q = p;
      q.validate(verbose);
      std::vector<double> a = rec::flat(p), b = rec::flat(q);
      double worst = 0;
      for (std::size_t i = 0; i < a.size(); i++) {
         if (std::isnan(a[i]) && std::isnan(b[i])) { continue; }
         const double d = std::abs(a[i] - b[i]) / std::max({std::abs(a[i]), std::abs(b[i]), 1e-300});
         if (!(d <= worst)) { worst = std::isnan(d) ? (a[i] == b[i] ? worst : INFINITY) : d; }
      }
      o.put("second", worst);
      std::ostringstream s;
      s << p;
      o.put("text", s.str());
   };
   return rec::serve(h);
}
