// Request/response recorder over the library: reads requests from stdin,
// executes the real code and records one JSON event per request.
#include "calc.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/CouplingOrders.hpp"

#ifdef HAVE_DEPTH
// read/write access to the private truncation flags of the calculator
template <class Tag, typename Tag::type M>
struct Rob {
   friend typename Tag::type get(Tag) { return M; }
};
struct DepthTag {
   using type = std::array<int, himalaya::hierarchies::ExpansionDepth::NUMBER_OF_EXPANSIONS> himalaya::HierarchyCalculator::*;
   friend type get(DepthTag);
};
template struct Rob<DepthTag, &himalaya::HierarchyCalculator::expansionDepth>;
#endif

using namespace himalaya;
using rec::In;
using rec::Out;

namespace {

Parameters mass_es(const Parameters& p)
{
   auto q = p;
   q.mu2(2, 2) = p.MSt(0) * p.MSt(0);
   q.mq2(2, 2) = p.MSt(1) * p.MSt(1);
   return q;
}

void only_as(mh2_eft::Mh2EFTCalculator& c)
{
   for (int i = 0; i < CouplingOrders::NUMBER_OF_COUPLING_ORDERS; i++) {
      c.setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(i), i == CouplingOrders::G32YT4);
   }
}

/// value of f, NaN plus a note if it throws
template <class F>
double guarded(F f, int& thrown)
{
   try {
      return f();
   } catch (const std::exception&) {
      thrown++;
      return std::numeric_limits<double>::quiet_NaN();
   }
}

void put_tc(Out& o, const char* pre, mh2_eft::ThresholdCalculator& tc)
{
   using namespace mh2_eft;
   const auto key = [pre](const char* k) { return std::string(pre) + k; };
   std::vector<double> v, thr;
   for (int ol = 0; ol <= 1; ol++) {
      for (int c = 0; c < static_cast<int>(ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES); c++) {
         for (int s = 0; s < static_cast<int>(RenSchemes::NUMBER_OF_ALL_REN_SCHEMES); s++) {
            int t = 0;
            v.push_back(guarded([&] {
               return tc.getThresholdCorrection(static_cast<ThresholdCouplingOrders>(c), static_cast<RenSchemes>(s), ol);
            }, t));
            thr.push_back(t);
         }
      }
   }
   o.put(key("tc").c_str(), v);
   o.put(key("tc_thrown").c_str(), thr);
   o.put(key("limit").c_str(), static_cast<int>(tc.getLimit()));
   std::vector<double> ms, xt;
   for (int x = 3; x <= 4; x++) {
      for (int ol = 0; ol <= 1; ol++) {
         for (int oxl = 0; oxl <= 1; oxl++) { ms.push_back(tc.getDRbarPrimeToMSbarShift(x, ol, oxl)); }
         for (int l = 0; l < static_cast<int>(Limits::NUMBER_OF_LIMITS); l++) {
            int t = 0;
            xt.push_back(guarded([&] { return tc.getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(l), x, ol); }, t));
         }
      }
   }
   o.put(key("ms").c_str(), ms);
   o.put(key("xt").c_str(), xt);
}

void put_eft(Out& o, const char* pre, const mh2_eft::Mh2EFTCalculator& c)
{
   const auto key = [pre](const char* k) { return std::string(pre) + k; };
   o.put(key("eft0").c_str(), c.getDeltaMh2EFT0Loop());
   std::vector<double> e1, e2, e3;
   for (int a = 0; a <= 1; a++) {
      for (int b = 0; b <= 1; b++) {
         e1.push_back(c.getDeltaMh2EFT1Loop(a, b));
         e2.push_back(c.getDeltaMh2EFT2Loop(a, b));
         for (int d = 0; d <= 1; d++) { e3.push_back(c.getDeltaMh2EFT3Loop(a, b, d)); }
      }
   }
   o.put(key("eft1").c_str(), e1);
   o.put(key("eft2").c_str(), e2);
   o.put(key("eft3").c_str(), e3);
}

void put_tuple(Out& o, const std::string& k, const std::tuple<double, double, double>& t)
{
   o.put(k.c_str(), std::vector<double>{std::get<0>(t), std::get<1>(t), std::get<2>(t)});
}

/// everything the fixed-order class offers for one set of switches
void put_fo(Out& o, const std::string& pre, const mh2_fo::MSSM_mass_eigenstates& m, double p2)
{
   const auto key = [&pre](const char* k) { return pre + k; };
   put_tuple(o, pre + "mh2", m.calculate_Mh2());
   o.put(key("m0").c_str(), m.get_mass_matrix_hh());
   o.put(key("m0gl").c_str(), m.get_mass_matrix_hh_gaugeless());
   o.put(key("m1").c_str(), m.delta_mh2_1loop(p2));
   o.put(key("m1z").c_str(), m.delta_mh2_1loop(0));
   o.put(key("m1gl").c_str(), m.delta_mh2_1loop_gaugeless());
   o.put(key("m1d").c_str(), m.delta_mh2_1loop_gaugeless_deriv());
   o.put(key("m2").c_str(), m.delta_mh2_2loop());
   o.put(key("mit").c_str(), m.delta_mh2_2loop_mom_it_pert());
   o.put(key("mitn").c_str(), m.delta_mh2_2loop_mom_it_num(1e-9, 500));
}

void put_spectrum(Out& o, const char* pre, const mh2_fo::MSSM_spectrum& s)
{
   const auto key = [pre](const char* k) { return std::string(pre) + k; };
   o.put(key("VWm").c_str(), s.M2VWm); o.put(key("VZ").c_str(), s.M2VZ);
   o.put(key("Ft").c_str(), s.MFt); o.put(key("Fb").c_str(), s.MFb); o.put(key("Ftau").c_str(), s.MFtau);
   o.put(key("SveL").c_str(), s.M2SveL); o.put(key("SvmL").c_str(), s.M2SvmL); o.put(key("SvtL").c_str(), s.M2SvtL);
#define S2(n, z) \
   o.put(key("M_" #n).c_str(), s.M2##n); \
   o.put(key("Z_" #n).c_str(), s.z); \
   o.put(key("mm_" #n).c_str(), s.get_mass_matrix_##n())
   S2(Su, ZU); S2(Sd, ZD); S2(Sc, ZC); S2(Ss, ZS); S2(St, ZT); S2(Sb, ZB);
   S2(Se, ZE); S2(Sm, ZM); S2(Stau, ZTau); S2(hh, ZH); S2(Ah, ZA); S2(Hpm, ZP);
#undef S2
   o.put(key("M_Chi").c_str(), s.MChi); o.put(key("Z_Chi").c_str(), s.ZN); o.put(key("mm_Chi").c_str(), s.get_mass_matrix_Chi());
   o.put(key("M_Cha").c_str(), s.MCha); o.put(key("UM").c_str(), s.UM); o.put(key("UP").c_str(), s.UP);
   o.put(key("mm_Cha").c_str(), s.get_mass_matrix_Cha());
}

} // namespace

int main()
{
   rec::Handlers h;

   // calc <ab> params
   h["calc"] = [](In& in, Out& o) {
      const bool ab = in.integer() != 0;
      const auto p = rec::read_parameters(in);
      HierarchyCalculator hc(p, false);
      const auto ho = hc.calculateDMh3L(ab);
      rec::put_result(o, ho);
   };

   // hier <ab> <mdr> params: everything about all hierarchies through the public interface
   h["hier"] = [](In& in, Out& o) {
      const bool ab = in.integer() != 0;
      const int mdr = in.integer();
      const auto p = rec::read_parameters(in);
      HierarchyCalculator hc(p, false);
      HierarchyObject sel(ab);
      sel.setMDRFlag(mdr);
      int chosen = -2;
      try {
         chosen = hc.compareHierarchies(sel);
      } catch (const std::exception& e) {
         o.put("selection_exception", std::string(e.what()));
      }
      o.put("chosen", chosen);
      o.put("AbsDiff2L", sel.getAbsDiff2L());
      o.put("RelDiff2L", sel.getRelDiff2L());
      o.put("expUnc2", sel.getDMhExpUncertainty(2));
      o.put("expUnc3", sel.getDMhExpUncertainty(3));
      o.put("tree", sel.getDMh(0));
      for (int i = 0; i < hierarchies::Hierarchies::NUMBER_OF_HIERARCHIES; i++) {
         const auto key = [i](const char* k) { return std::string(k) + "_" + std::to_string(i); };
         HierarchyObject ho(ab);
         ho.setMDRFlag(mdr);
         ho.setSuitableHierarchy(i);
         o.put(key("L1").c_str(), hc.calculateHierarchy(ho, 1, 0, 0));
         o.put(key("L2").c_str(), hc.calculateHierarchy(ho, 0, 1, 0));
#ifdef HAVE_DEPTH
         {
            auto& d = hc.*get(DepthTag{});
            const auto save = d;
            d.at(hierarchies::ExpansionDepth::threeLoop) = 0;
            d.at(hierarchies::ExpansionDepth::Mst) = 0;
            o.put(key("L2t").c_str(), hc.calculateHierarchy(ho, 0, 1, 0));
            d = save;
            std::vector<double> l2, l3;
            for (int f = 0; f < hierarchies::ExpansionDepth::NUMBER_OF_EXPANSIONS; f++) {
               d.at(f) = 0;
               HierarchyObject hf = ho;
               const Eigen::Matrix2d a = hc.calculateHierarchy(hf, 0, 1, 0);
               const Eigen::Matrix2d b = hc.calculateHierarchy(hf, 0, 0, 1);
               d = save;
               for (int k = 0; k < 4; k++) {
                  l2.push_back(a(k / 2, k % 2));
                  l3.push_back(b(k / 2, k % 2));
               }
            }
            o.put(key("L2f").c_str(), l2);
            o.put(key("L3f").c_str(), l3);
         }
#endif
         o.put(key("L3").c_str(), hc.calculateHierarchy(ho, 0, 0, 1));
         o.put(key("lamH3m").c_str(), ho.getDLambdaH3m());
         o.put(key("lamNonLog").c_str(), ho.getDLambdaNonLog());
         const Eigen::Matrix2d t0 = hc.getMt41L(ho, mdr, 0);
         const Eigen::Matrix2d t1 = hc.getMt42L(ho, mdr, 0);
         o.put(key("Mt41L").c_str(), t0);
         o.put(key("Mt42L").c_str(), t1);
         o.put(key("unc2").c_str(), hc.getExpansionUncertainty(ho, sel.getDMh(0) + t0, 0, 1, 0));
         o.put(key("unc3").c_str(), hc.getExpansionUncertainty(ho, sel.getDMh(0) + t0 + t1, 0, 0, 1));
         o.put(key("mst").c_str(), std::vector<double>{
            hc.shiftMst1ToMDR(ho, 1, 0), hc.shiftMst2ToMDR(ho, 1, 0),
            hc.shiftMst1ToMDR(ho, 1, 1), hc.shiftMst2ToMDR(ho, 1, 1)});
      }
   };

   // exact at / at*as contributions
   h["mt4"] = [](In& in, Out& o) {
      const bool ab = in.integer() != 0;
      const int hier = in.integer();
      const auto p = rec::read_parameters(in);
      HierarchyCalculator hc(p, false);
      HierarchyObject ho(ab);
      ho.setSuitableHierarchy(hier);
      o.put("Mt41L", hc.getMt41L(ho, 0, 0));
      o.put("Mt42L", hc.getMt42L(ho, 0, 0));
      o.put("L1", hc.calculateHierarchy(ho, 1, 0, 0));
      o.put("L2", hc.calculateHierarchy(ho, 0, 1, 0));
      o.put("L3", hc.calculateHierarchy(ho, 0, 0, 1));
      o.put("L123", hc.calculateHierarchy(ho, 1, 1, 1));
   };

   // full <ab> params: the result together with everything it should have been assembled from
   h["full"] = [](In& in, Out& o) {
      const bool ab = in.integer() != 0;
      auto p = rec::read_parameters(in);
      HierarchyCalculator hc(p, false);
      const auto ho = hc.calculateDMh3L(ab);
      rec::put_result(o, ho);
      const int hier = ho.getSuitableHierarchy();
      p.validate(false);
      rec::put_parameters(o, p);
      for (int mdr = 0; mdr <= 1; mdr++) {
         const auto key = [mdr](const char* k) { return std::string(k) + std::to_string(mdr); };
         HierarchyObject x(ab);
         x.setMDRFlag(mdr);
         x.setSuitableHierarchy(hier);
         o.put(key("L3_").c_str(), hc.calculateHierarchy(x, 0, 0, 1));
         o.put(key("rawH3m_").c_str(), x.getDLambdaH3m());
         o.put(key("rawNonLog_").c_str(), x.getDLambdaNonLog());
         o.put(key("t1_").c_str(), hc.getMt41L(x, mdr, mdr));
         o.put(key("t2_").c_str(), hc.getMt42L(x, mdr, mdr));
         o.put(key("mst_").c_str(), std::vector<double>{hc.shiftMst1ToMDR(x, mdr, mdr), hc.shiftMst2ToMDR(x, mdr, mdr)});
         if (mdr) { o.put("toMDR", hc.calcDRbarToMDRbarShift(x, true, true)); }
      }
      HierarchyObject x(ab);
      x.setSuitableHierarchy(hier);
      o.put("unc3", hc.getExpansionUncertainty(x, ho.getDMh(0) + ho.getDMh(1) + ho.getDMh(2), 0, 0, 1));
      HierarchyObject y(ab);
      y.setMDRFlag(0);
      o.put("again", hc.compareHierarchies(y));
      o.put("againAbs", y.getAbsDiff2L());
      o.put("againRel", y.getRelDiff2L());
      o.put("againUnc", std::vector<double>{y.getDMhExpUncertainty(2), y.getDMhExpUncertainty(3)});
      o.put("tree", y.getDMh(0));
      put_tuple(o, "fo", mh2_fo::MSSM_mass_eigenstates(p).calculate_Mh2());
      put_tuple(o, "foat", mh2_fo::MSSM_mass_eigenstates(p, true).calculate_Mh2());
      mh2_eft::Mh2EFTCalculator e(p, false);
      put_eft(o, "all_", e);
      mh2_eft::Mh2EFTCalculator a(mass_es(p), false);
      only_as(a);
      put_eft(o, "as_", a);
      mh2_eft::ThresholdCalculator tc(mass_es(p), false);
      put_tc(o, "es_", tc);
   };

   // fo <only_at> <diag 0|1> <momit 0|1|2> <n> (order flag)*n params
   h["fo"] = [](In& in, Out& o) {
      const bool at = in.integer() != 0;
      const int diag = in.integer(), it = in.integer(), n = in.integer();
      std::vector<std::pair<int, int>> fl;
      for (int i = 0; i < n; i++) {
         const int a = in.integer();
         const int b = in.integer();
         fl.emplace_back(a, b);
      }
      const double p2 = in.num();
      auto p = rec::read_parameters(in);
      p.validate(false);
      mh2_fo::MSSM_mass_eigenstates m(p, at);
      m.set_diagonalization(diag ? mh2_fo::Diagonalization::num : mh2_fo::Diagonalization::pert);
      m.set_mom_it(it == 0 ? mh2_fo::Momentum_iteration::off : it == 1 ? mh2_fo::Momentum_iteration::pert : mh2_fo::Momentum_iteration::num, 1e-9, 500);
      for (const auto& f : fl) { m.set_correction(static_cast<CouplingOrders::CouplingOrders>(f.first), f.second); }
      put_fo(o, "", m, p2);
      rec::put_parameters(o, p);
   };

   // p2 <only_at> <n> p2*n params: one-loop matrix at several momenta
   h["p2"] = [](In& in, Out& o) {
      const bool at = in.integer() != 0;
      const int n = in.integer();
      std::vector<double> p2(n);
      for (auto& x : p2) { x = in.num(); }
      auto p = rec::read_parameters(in);
      p.validate(false);
      mh2_fo::MSSM_mass_eigenstates m(p, at);
      std::vector<double> v;
      for (const double x : p2) {
         const auto a = m.delta_mh2_1loop(x);
         v.insert(v.end(), {a(0, 0), a(0, 1), a(1, 0), a(1, 1)});
      }
      o.put("m1", v);
      o.put("m1gl", m.delta_mh2_1loop_gaugeless());
      o.put("m1d", m.delta_mh2_1loop_gaugeless_deriv());
      rec::put_parameters(o, p);
   };

   // eft <n> (order flag)*n params
   h["eft"] = [](In& in, Out& o) {
      const int n = in.integer();
      std::vector<std::pair<int, int>> fl;
      for (int i = 0; i < n; i++) {
         const int a = in.integer();
         const int b = in.integer();
         fl.emplace_back(a, b);
      }
      auto p = rec::read_parameters(in);
      p.validate(false);
      mh2_eft::Mh2EFTCalculator c(p, false);
      for (const auto& f : fl) { c.setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(f.first), f.second); }
      put_eft(o, "", c);
      rec::put_parameters(o, p);
   };

   // tc <limit or -1> <xt order or -1> params
   h["tc"] = [](In& in, Out& o) {
      const int limit = in.integer(), xt = in.integer();
      auto p = rec::read_parameters(in);
      mh2_eft::ThresholdCalculator tc(p, false);
      if (limit >= 0) { tc.setLimit(static_cast<mh2_eft::Limits>(limit)); }
      if (xt >= 0) { tc.setXtOrderOfDeltaLambdaAtAs2(xt); }
      put_tc(o, "", tc);
      p.validate(false);
      rec::put_parameters(o, p);
   };

   // deg <scale> <mst1> <Xt> <omitlogs> params
   h["deg"] = [](In& in, Out& o) {
      const double s = in.num(), m = in.num(), x = in.num();
      const int ol = in.integer();
      auto p = rec::read_parameters(in);
      mh2_eft::Mh2EFTCalculator c(p, false);
      o.put("dl", c.getDeltaLambdaDegenerate(s, m, x, ol));
   };

   // spec <0: as given, 1: validated> params
   h["spec"] = [](In& in, Out& o) {
      const bool val = in.integer() != 0;
      auto p = rec::read_parameters(in);
      if (val) { p.validate(false); }
      rec::put_parameters(o, p);
      put_spectrum(o, "", mh2_fo::MSSM_spectrum(p));
   };

   // raw two-loop routines: dsz <which> args
   h["dsz"] = [](In& in, Out& o) {
      const auto w = in.word();
      std::vector<double> a;
      while (in.more()) { a.push_back(in.num()); }
      using namespace mh2l;
      if (w == "atas") {
         o.put("m", delta_mh2_2loop_at_as(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5), a.at(6), a.at(7), a.at(8), a.at(9), a.at(10), a.at(11)));
      } else if (w == "abas") {
         o.put("m", delta_mh2_2loop_ab_as(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5), a.at(6), a.at(7), a.at(8), a.at(9), a.at(10), a.at(11)));
      } else if (w == "atat") {
         o.put("m", delta_mh2_2loop_at_at(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5), a.at(6), a.at(7), a.at(8), a.at(9), a.at(10), a.at(11), a.at(12), a.at(13), a.at(14), a.at(15), a.at(16)));
      } else if (w == "tautau") {
         o.put("m", delta_mh2_2loop_atau_atau(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5), a.at(6), a.at(7), a.at(8), a.at(9), a.at(10), a.at(11)));
      } else {
         o.put("m", delta_mh2_2loop_ab_atau(a.at(0), a.at(1), a.at(2), a.at(3), a.at(4), a.at(5), a.at(6), a.at(7), a.at(8), a.at(9), a.at(10), a.at(11), a.at(12), a.at(13), a.at(14)));
      }
   };

   return rec::serve(h);
}
