// P18: what the library writes, where, per call; state of the standard streams
#include "calc.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"

#include <atomic>
#include <cfenv>
#include <cstdint>
#include <fcntl.h>
#include <iomanip>
#include <thread>
#include <unistd.h>

extern "C" void _gfortran_flush_i4(int32_t*);

using namespace himalaya;
using rec::In;
using rec::Out;

namespace {

int fd_out = -1, fd_err = -1;
off_t pos_out = 0, pos_err = 0;

std::string take(int fd, off_t& pos)
{
   std::string s;
   char b[4096];
   ssize_t n = 0;
   while ((n = pread(fd, b, sizeof b, pos)) > 0) {
      s.append(b, n);
      pos += n;
   }
   return s;
}

std::string state(const std::ostream& s)
{
   std::ostringstream o;
   o << s.flags() << ' ' << s.precision() << ' ' << s.width() << ' ' << static_cast<int>(s.fill()) << ' '
     << s.rdstate() << ' ' << s.exceptions() << ' ' << static_cast<const void*>(s.rdbuf()) << ' ' << s.getloc().name() << ' '
     << static_cast<const void*>(s.tie());
   return o.str();
}

std::string all_state()
{
   return state(std::cout) + "|" + state(std::cerr) + "|" + state(std::clog) + "|" + std::to_string(std::fegetround());
}

/// the stages of a request and what each wrote
struct Rec {
   std::string text;
   std::vector<double> v;
   std::string thrown;
   template <class F>
   void stage(Out& o, const char* name, F f)
   {
      const auto before = all_state();
      thrown.clear();
      try {
         f();
      } catch (const std::exception& e) {
         thrown = e.what();
         if (thrown.empty()) { thrown = "(empty)"; }
      } catch (...) {
         thrown = "(unknown)";
      }
      const bool same = before == all_state();
      std::cout.flush();
      std::cerr.flush();
      std::clog.flush();
      std::fflush(stdout);
      std::fflush(stderr);
      _gfortran_flush_i4(nullptr);
      const std::string n(name);
      o.put((n + ".out").c_str(), take(fd_out, pos_out));
      o.put((n + ".err").c_str(), take(fd_err, pos_err));
      o.put((n + ".thrown").c_str(), thrown);
      o.put((n + ".state").c_str(), static_cast<int>(same));
   }
};

void put_ho(std::vector<double>& v, const HierarchyObject& ho)
{
   const auto m = [&v](const Eigen::Matrix2d& a) { v.insert(v.end(), {a(0, 0), a(0, 1), a(1, 0), a(1, 1)}); };
   v.push_back(ho.getSuitableHierarchy());
   v.push_back(ho.getAbsDiff2L());
   v.push_back(ho.getRelDiff2L());
   for (int i = 0; i <= 3; i++) {
      m(ho.getDMh(i));
      if (i) { v.push_back(ho.getDMhExpUncertainty(i)); }
      v.insert(v.end(), {ho.getDMh2(i), ho.getDLambda(i), ho.getDLambdaUncertainty(i), ho.getDLambdaDRbarPrimeToMSbarShift(i),
                         ho.getDMh2EFTAt(i), ho.getDMh2FO(i), ho.getDMh2FOAt(i)});
   }
   m(ho.getDMhDRbarPrimeToMDRbarPrimeShift());
   m(ho.getDMhDRbarPrimeToH3mShift());
   v.push_back(ho.getMDRMasses()(0));
   v.push_back(ho.getMDRMasses()(1));
}

} // namespace

int main()
{
   std::ios::sync_with_stdio(true);
   std::FILE* ev = fdopen(dup(1), "w");
   char n1[] = "/tmp/himalaya-streams-XXXXXX", n2[] = "/tmp/himalaya-streams-XXXXXX";
   fd_out = mkstemp(n1);
   fd_err = mkstemp(n2);
   if (!ev || fd_out < 0 || fd_err < 0) { return 97; }
   unlink(n1);
   unlink(n2);
   dup2(fd_out, 1);
   dup2(fd_err, 2);

   rec::Handlers h;

   h["validate"] = [](In& in, Out& o) {
      const bool verbose = in.integer() != 0;
      in.integer();
      auto p = rec::read_parameters(in);
      Rec r;
      r.stage(o, "validate", [&] { p.validate(verbose); });
      rec::put_parameters(o, p);
   };

   h["hc"] = [](In& in, Out& o) {
      const bool verbose = in.integer() != 0, ab = in.integer() != 0;
      const auto p = rec::read_parameters(in);
      Rec r;
      std::unique_ptr<HierarchyCalculator> hc;
      r.stage(o, "construct", [&] { hc.reset(new HierarchyCalculator(p, verbose)); });
      if (hc) {
         HierarchyObject ho(ab);
         bool ok = false;
         r.stage(o, "calculate", [&] { ho = hc->calculateDMh3L(ab); ok = true; });
         if (ok) {
            r.stage(o, "get", [&] { put_ho(r.v, ho); });
            std::ostringstream s;
            r.stage(o, "print", [&] { s << ho; });
            o.put("text", s.str());
            std::ostringstream t;
            t << std::scientific << std::setprecision(3) << std::setfill('x');
            const auto before = state(t);
            r.stage(o, "print2", [&] { t << ho << p; });
            o.put("kept", static_cast<int>(before == state(t)));
            rec::put_result(o, ho);
         }
         r.stage(o, "copy", [&] { HierarchyCalculator c(*hc); (void)c; });
         for (int l : {-1, 4}) {
            r.stage(o, l < 0 ? "bad1" : "bad2", [&] { ho.getDMh(l); });
         }
      }
      o.put("v", r.v);
   };

   h["eft"] = [](In& in, Out& o) {
      const bool verbose = in.integer() != 0;
      in.integer();
      const auto p = rec::read_parameters(in);
      Rec r;
      std::unique_ptr<mh2_eft::Mh2EFTCalculator> c;
      r.stage(o, "construct", [&] { c.reset(new mh2_eft::Mh2EFTCalculator(p, verbose)); });
      if (c) {
         r.stage(o, "calculate", [&] {
            for (int i = 0; i < 23; i++) { c->setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(i), 1); }
            r.v = {c->getDeltaMh2EFT0Loop(), c->getDeltaMh2EFT1Loop(1, 1), c->getDeltaMh2EFT2Loop(1, 1), c->getDeltaMh2EFT3Loop(1, 1, 1)};
         });
         std::ostringstream s;
         r.stage(o, "print", [&] { s << *c; });
      }
      o.put("v", r.v);
   };

   h["tc"] = [](In& in, Out& o) {
      const bool verbose = in.integer() != 0;
      in.integer();
      const auto p = rec::read_parameters(in);
      Rec r;
      std::unique_ptr<mh2_eft::ThresholdCalculator> c;
      r.stage(o, "construct", [&] { c.reset(new mh2_eft::ThresholdCalculator(p, verbose)); });
      if (c) {
         r.stage(o, "calculate", [&] {
            for (int k = 0; k < static_cast<int>(mh2_eft::ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES); k++) {
               r.v.push_back(c->getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(k), mh2_eft::RenSchemes::DRBARPRIME, k % 2));
            }
            for (int l = 3; l <= 4; l++) { r.v.push_back(c->getDRbarPrimeToMSbarShift(l, 1, 0)); }
         });
      }
      o.put("v", r.v);
   };

   h["fo"] = [](In& in, Out& o) {
      const bool verbose = in.integer() != 0, at = in.integer() != 0;
      auto p = rec::read_parameters(in);
      Rec r;
      r.stage(o, "validate", [&] { p.validate(verbose); });
      if (r.thrown.empty()) {
         std::unique_ptr<mh2_fo::MSSM_mass_eigenstates> c;
         r.stage(o, "construct", [&] { c.reset(new mh2_fo::MSSM_mass_eigenstates(p, at)); });
         if (c) {
            r.stage(o, "calculate", [&] {
               const auto t = c->calculate_Mh2();
               r.v = {std::get<0>(t), std::get<1>(t), std::get<2>(t)};
            });
            std::ostringstream s;
            r.stage(o, "print", [&] { s << *c; });
         }
      }
      o.put("v", r.v);
   };

   // threads that construct verbose calculators at the same time
   h["threads"] = [](In& in, Out& o) {
      const int n = in.integer();
      in.integer();
      const auto p = rec::read_parameters(in);
      Rec r;
      r.stage(o, "construct", [&] {
         std::atomic<int> go{0};
         std::vector<std::thread> t;
         for (int i = 0; i < n; i++) {
            t.emplace_back([&] {
               go++;
               while (go < n) {}
               try { HierarchyCalculator hc(p, true); } catch (const std::exception&) {}
            });
         }
         for (auto& x : t) { x.join(); }
      });
   };

   std::string line;
   while (std::getline(std::cin, line)) {
      if (line.empty()) { continue; }
      In in(line);
      const auto it = h.find(in.word());
      if (it == h.end()) { return 97; }
      Out o;
      it->second(in, o);
      std::fputs(o.str().c_str(), ev);
      std::fputc('\n', ev);
      std::fflush(ev);
   }
   return 0;
}
