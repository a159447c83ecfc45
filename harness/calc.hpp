// recording of HierarchyCalculator / HierarchyObject results
#pragma once
#include "rec.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"

namespace rec {

inline void put_result(Out& o, const himalaya::HierarchyObject& ho)
{
   o.put("hierarchy", ho.getSuitableHierarchy());
   o.put("ab", static_cast<int>(ho.getIsAlphab()));
   o.put("AbsDiff2L", ho.getAbsDiff2L());
   o.put("RelDiff2L", ho.getRelDiff2L());
   o.put("mdrFlag", ho.getMDRFlag());
   o.put("renScheme", ho.getRenormalizationScheme());
   std::vector<double> unc, dmh2, dl, dlu, dlms, eft, fo, foat;
   for (int i = 0; i <= 3; i++) {
      if (i) { unc.push_back(ho.getDMhExpUncertainty(i)); }
      dmh2.push_back(ho.getDMh2(i));
      dl.push_back(ho.getDLambda(i));
      dlu.push_back(ho.getDLambdaUncertainty(i));
      dlms.push_back(ho.getDLambdaDRbarPrimeToMSbarShift(i));
      eft.push_back(ho.getDMh2EFTAt(i));
      fo.push_back(ho.getDMh2FO(i));
      foat.push_back(ho.getDMh2FOAt(i));
   }
   o.put("DMh0", ho.getDMh(0));
   o.put("DMh1", ho.getDMh(1));
   o.put("DMh2L", ho.getDMh(2));
   o.put("DMh3", ho.getDMh(3));
   o.put("expUnc", unc);
   o.put("DMh2", dmh2);
   o.put("DLambda", dl);
   o.put("DLambdaUnc", dlu);
   o.put("DLambdaMSbarShift", dlms);
   o.put("DLambdaH3m", ho.getDLambdaH3m());
   o.put("DLambdaEFT", ho.getDLambdaEFT());
   o.put("DLambdaNonLog", ho.getDLambdaNonLog());
   o.put("DMh2EFT", eft);
   o.put("DMh2FO", fo);
   o.put("DMh2FOAt", foat);
   o.put("mdrShift", ho.getDMhDRbarPrimeToMDRbarPrimeShift());
   o.put("mdrMasses", ho.getMDRMasses());
   o.put("h3mShift", ho.getDMhDRbarPrimeToH3mShift());
}

} // namespace rec
