// "all seed params": every public entry point on one (possibly hostile) parameter set.
// Only returning or throwing a std::exception is acceptable; sanitizers watch the rest.
#include "calc.hpp"
#include "surface.hpp"

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <random>
#include <type_traits>

using namespace himalaya;

namespace {

unsigned char pattern;       // contents of fresh heap and stack memory

__attribute__((noinline)) void dirty_stack()
{
   volatile unsigned char b[1 << 17];
   for (std::size_t i = 0; i < sizeof b; i++) { b[i] = pattern; }
}

std::string text_of(const Eigen::MatrixXd& m)
{
   std::ostringstream o;
   o.precision(17);
   for (int i = 0; i < m.size(); i++) { o << m.data()[i] << ' '; }
   return o.str() + "\n";
}

/// result of one call, or its exception
template <class F>
void note(std::ostream& o, const char* name, F&& f)
{
   dirty_stack();
   o << name << ' ';
   try {
      f();
   } catch (const std::exception& e) {
      o << e.what();
   }
   o << '\n';
}

} // namespace

int main()
{
   rec::Handlers h;
   h["all"] = [](rec::In& in, rec::Out& o) {
      const unsigned seed = static_cast<unsigned>(in.num());
      const auto p = rec::read_parameters(in);
      const Surface f(p, seed);
      int positive = 0;                    // (the branch makes an uninitialised value visible to memcheck)
      for (const double x : f.values) { positive += x > 0; }
      o.put("returned", f.returned);
      o.put("threw", f.threw);
      o.put("positive", positive);
      std::uint64_t hash = 1469598103934665603u;
      const auto add = [&](const void* d, std::size_t n) {
         for (std::size_t i = 0; i < n; i++) { hash = (hash ^ static_cast<const unsigned char*>(d)[i])*1099511628211u; }
      };
      const auto text = f.text.str();
      add(f.values.data(), f.values.size()*sizeof(double));
      add(text.data(), text.size());
      char b[32];
      std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(hash));
      o.put("hash", std::string(b));
      o.put("values", static_cast<int>(f.values.size()));
   };
   // "poison pattern mask params": a default-constructed parameter set, in memory with the given contents, on which the
   // fields of the mask are set; everything that is calculated from it
   h["poison"] = [](rec::In& in, rec::Out& o) {
      pattern = static_cast<unsigned char>(in.num());
      const std::string mask = in.word();
      const auto p = rec::read_parameters(in);
      using M = std::aligned_storage<sizeof(Parameters), 64>::type;
      static_assert(alignof(Parameters) <= 64, "");
      auto mem = std::make_unique<M[]>(1);
      std::memset(static_cast<void*>(mem.get()), pattern, sizeof(M));
      dirty_stack();
      asm volatile("" : : "r"(mem.get()) : "memory");
      auto& q = *new (static_cast<void*>(mem.get())) Parameters;
      std::size_t k = 0;
#define SET(f) if (mask.at(k++) == '1') { q.f = p.f; }
      SET(scale) SET(mu) SET(g1) SET(g2) SET(g3) SET(vd) SET(vu) SET(mq2) SET(md2) SET(mu2) SET(ml2) SET(me2)
      SET(Au) SET(Ad) SET(Ae) SET(Yu) SET(Yd) SET(Ye) SET(M1) SET(M2) SET(MG) SET(MW) SET(MZ) SET(Mt) SET(Mb) SET(Mtau)
      SET(MA) SET(MSt) SET(MSb) SET(MStau) SET(s2t) SET(s2b) SET(s2tau) SET(theta_t) SET(theta_b) SET(theta_tau)
      SET(massLimit3LThreshold)
#undef SET
      std::ostringstream t;
      t.precision(17);
      note(t, "fields", [&] { for (const double x : rec::flat(q)) { t << x << ' '; } });
      note(t, "validate", [&] { auto v = q; v.validate(false); for (const double x : rec::flat(v)) { t << x << ' '; } t << v; });
      for (int ab = 0; ab < 2; ab++) {
         note(t, "empty result", [&] { dirty_stack(); const HierarchyObject ho(ab); t << ho; });
         note(t, "3 loop", [&] {
            dirty_stack();
            HierarchyCalculator hc(q, false);
            dirty_stack();
            const auto ho = hc.calculateDMh3L(ab);
            t << ho << text_of(ho.getDMh(0)) << text_of(ho.getDMh(1)) << text_of(ho.getDMh(2)) << text_of(ho.getDMh(3))
              << text_of(ho.getDMhDRbarPrimeToMDRbarPrimeShift()) << text_of(ho.getDMhDRbarPrimeToH3mShift()) << text_of(ho.getMDRMasses());
         });
         for (int i = 0; i < 14; i++) {
            note(t, "hierarchy", [&] {
               HierarchyCalculator hc(q, false);
               HierarchyObject ho(ab);
               ho.setSuitableHierarchy(i);
               dirty_stack();
               t << text_of(hc.calculateHierarchy(ho, 1, 1, 0));
               dirty_stack();
               t << text_of(hc.calculateHierarchy(ho, 0, 0, 1)) << ho;
            });
         }
         note(t, "fixed order", [&] {
            dirty_stack();
            mh2_fo::MSSM_mass_eigenstates fo(q, ab);
            dirty_stack();
            const auto m = fo.calculate_Mh2();
            t << fo << std::get<0>(m) << ' ' << std::get<1>(m) << ' ' << std::get<2>(m) << ' ' << text_of(fo.delta_mh2_2loop());
         });
         note(t, "thresholds", [&] {
            dirty_stack();
            mh2_eft::ThresholdCalculator c(q, false, ab);
            for (int i = 0; i < 45; i++) {
               for (int s = 0; s < 4; s++) {
                  note(t, "c", [&] { t << c.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(i), static_cast<mh2_eft::RenSchemes>(s), 1); });
               }
            }
         });
      }
      note(t, "effective theory", [&] {
         dirty_stack();
         mh2_eft::Mh2EFTCalculator e(q, false);
         dirty_stack();
         t << e.getDeltaMh2EFT0Loop() << ' ' << e.getDeltaMh2EFT1Loop(1, 1) << ' ' << e.getDeltaMh2EFT2Loop(1, 1) << ' ' << e.getDeltaMh2EFT3Loop(1, 1, 0) << ' ' << e;
      });
      q.~Parameters();
      const auto s = t.str();
      std::uint64_t hash = 1469598103934665603u;
      int lines = 0;
      std::string first;
      for (const char c : s) { hash = (hash ^ static_cast<unsigned char>(c))*1099511628211u; lines += c == '\n'; }
      char b[32];
      std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(hash));
      o.put("hash", std::string(b));
      o.put("lines", lines);
      // hash of each part, to name the difference
      std::istringstream l(s);
      std::vector<double> v;
      for (std::string x; std::getline(l, x);) {
         std::uint32_t c = 2166136261u;
         for (const char y : x) { c = (c ^ static_cast<unsigned char>(y))*16777619u; }
         v.push_back(c);
      }
      o.put("parts", v);
   };
   return rec::serve(h);
}
