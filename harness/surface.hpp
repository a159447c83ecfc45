// every public entry point on one (arbitrary) parameter set; used by P03 (memory errors) and P01 (threads)
#pragma once
#include "rec.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/Li2.hpp"

#include <random>
#include <sstream>
#include <vector>

struct Surface {
   int returned = 0, threw = 0;
   std::ostringstream text;
   std::vector<double> values;

   Surface(const himalaya::Parameters& p, unsigned seed);

private:
   template <class F>
   void attempt(F&& f)
   {
      try {
         f();
         returned++;
      } catch (const std::exception&) {
         threw++;
      }
   }
   template <class D>
   void use(const Eigen::DenseBase<D>& m) { values.push_back(m.derived().sum()); }
   void use(double d) { values.push_back(d); }
};

inline Surface::Surface(const himalaya::Parameters& p, unsigned seed)
{
      using namespace himalaya;
      std::mt19937 g(seed);
      const bool verbose = g() % 8 == 0;

      attempt([&] { auto q = p; q.validate(verbose); text << q; });
      attempt([&] { text << p; use(p.calculateMsq2()); });
      attempt([&] {
         HierarchyCalculator hc(p, verbose);
         for (int ab = 0; ab < 2; ab++) {
            attempt([&] { const auto ho = hc.calculateDMh3L(ab); text << ho; use(ho.getDMh(3)); });
            attempt([&] {
               HierarchyObject ho(ab);
               for (int i = 0; i < 4; i++) {
                  const int bad[] = {-1, 14, 1000000, -2147483647};
                  ho.setSuitableHierarchy(g() % 16 == 0 ? bad[g() % 4] : static_cast<int>(g() % 14));
                  const int f1 = g() % 2, f2 = g() % 2, f3 = g() % 2;
                  ho.setMDRFlag(g() % 2);
                  attempt([&] { text << ho.getH3mHierarchyNotation(ho.getSuitableHierarchy()); });
                  attempt([&] { use(hc.calculateHierarchy(ho, f1, f2, f3)); });
                  attempt([&] { use(hc.getMt41L(ho, f1, f2)); });
                  attempt([&] { use(hc.getMt42L(ho, f1, f2)); });
                  attempt([&] { use(hc.calcDRbarToMDRbarShift(ho, f1, f2)); });
                  attempt([&] { use(hc.shiftMst1ToMDR(ho, f1, f2)); use(hc.shiftMst2ToMDR(ho, f1, f2)); });
                  attempt([&] { Eigen::Matrix2d m; m << 8000, -10, -10, 1e6; use(hc.getExpansionUncertainty(ho, m, f1, f2, f3)); });
               }
            });
         }
      });
      for (int only_at = 0; only_at < 2; only_at++) {
         attempt([&] {
            mh2_fo::MSSM_mass_eigenstates fo(p, only_at);
            if (g() % 2) {
               fo.set_mom_it(static_cast<mh2_fo::Momentum_iteration>(g() % 3), g() % 4 ? 1e-5 : 0., static_cast<int>(g() % 8 ? 1 + g() % 60 : g() % 2 ? 0u : 0u - g() % 1000u));
               fo.set_diagonalization(static_cast<mh2_fo::Diagonalization>(g() % 2));
               for (int k = 0; k < 3; k++) { fo.set_correction(static_cast<CouplingOrders::CouplingOrders>(g() % CouplingOrders::NUMBER_OF_COUPLING_ORDERS), g() % 2); }
               attempt([&] { fo.set_correction(static_cast<CouplingOrders::CouplingOrders>(g() % 40), g() % 3); });
            }
            attempt([&] { use(std::get<2>(fo.calculate_Mh2())); });
            attempt([&] { use(fo.delta_mh2_1loop(g() % 2 ? p.MA * p.MA : 0.)); });
            attempt([&] { use(fo.delta_mh2_1loop_gaugeless()); use(fo.delta_mh2_1loop_gaugeless_deriv()); });
            attempt([&] { use(fo.delta_mh2_2loop()); });
            attempt([&] { use(fo.delta_mh2_2loop_mom_it_pert()); use(fo.delta_mh2_2loop_mom_it_num(1e-5, 1 + g() % 50)); });
            attempt([&] { text << fo; });
         });
      }
      attempt([&] {
         mh2_eft::Mh2EFTCalculator e(p, verbose);
         for (int k = 0; k < 3; k++) {
            attempt([&] { e.setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(g() % (CouplingOrders::NUMBER_OF_COUPLING_ORDERS + 2)), g() % 3); });
         }
         const int a = g() % 2, b = g() % 2, c = g() % 2;
         attempt([&] { use(e.getDeltaMh2EFT0Loop()); });
         attempt([&] { use(e.getDeltaMh2EFT1Loop(a, b)); });
         attempt([&] { use(e.getDeltaMh2EFT2Loop(a, b)); });
         attempt([&] { use(e.getDeltaMh2EFT3Loop(a, b, c)); });
         attempt([&] { use(e.getDeltaLambdaDegenerate(p.scale, p.MG, p.mu, c)); });
         attempt([&] { text << e; });
      });
      for (int check = 0; check < 2; check++) {
         attempt([&] {
            mh2_eft::ThresholdCalculator t(p, verbose, check);
            for (int k = 0; k < 60; k++) {
               attempt([&] { t.setLimit(static_cast<mh2_eft::Limits>(g() % 6)); });
               attempt([&] { t.setXtOrderOfDeltaLambdaAtAs2(static_cast<int>(g() % 8) - 1); });
               attempt([&] { use(t.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(
                                    k < 45 ? k : static_cast<int>(g() % 60)), static_cast<mh2_eft::RenSchemes>(g() % 6), g() % 2)); });
               attempt([&] { use(t.getDRbarPrimeToMSbarShift(g() % 8, g() % 2, g() % 2)); });
               attempt([&] { use(t.getDRbarPrimeToMSbarXtTerms(static_cast<mh2_eft::Limits>(g() % 7), g() % 8, g() % 2)); });
            }
         });
      }
      // two-loop routines and loop functions on the raw numbers
      const auto f = rec::flat(p);
      const auto any = [&] { return f[g() % f.size()]; };
      for (int k = 0; k < 6; k++) {
         const double a = any(), b = any(), c = any(), d = any(), e = any(), q = any(), s = any();
         const double mix = g() % 3 ? 0.3 : s;
         attempt([&] { use(mh2l::delta_mh2_2loop_at_as(a, b, c, g() % 4 ? d : c, mix, std::sqrt(1 - mix*mix), e, q, 10., 6e4, 1., g() % 2)); });
         attempt([&] { use(mh2l::delta_mh2_2loop_at_at(a, b, c, d, e, g() % 2 ? a : q, s, mix, .9, 0.2, .8, e, q, 10., 6e4, g() % 2, g() % 2)); });
         attempt([&] { use(mh2l::delta_mh2_2loop_atau_atau(a, b, c, d, e, mix, .9, q, s, 10., 6e4, g() % 2)); });
         attempt([&] { use(mh2l::delta_mh2_2loop_ab_atau(a, b, c, d, e, q, mix, .9, .3, .8, s, a, 10., 6e4, g() % 2)); });
         attempt([&] { use(mh2_fo::a0(a, b)); use(mh2_fo::b0(a, b, c, d)); use(mh2_fo::d1_b0(a, b)); });
         attempt([&] { use(himalaya::dilog(a)); use(std::abs(himalaya::dilog(std::complex<double>(a, b)))); use(himalaya::clausen_2(a)); });
         attempt([&] {
            using namespace mh2_eft::threshold_loop_functions;
            use(F1(a)); use(F2(a)); use(F3(a)); use(F4(a)); use(F5(a)); use(F6(a)); use(F7(a)); use(F8(a, b)); use(F9(a, b));
            use(mh2_eft::threshold_loop_functions::f(a)); use(mh2_eft::threshold_loop_functions::g(a)); use(f1(a)); use(f2(a)); use(f3(a)); use(f4(a));
            use(f5(a, b)); use(f6(a, b)); use(f7(a, b)); use(f8(a, b)); use(phi_xyz(a, b, c)); use(delta_xyz(a, b, c));
         });
      }
}
