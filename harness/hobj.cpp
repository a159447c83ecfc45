// Online monitor of HierarchyObject: random operations on a pool of objects, every
// observable quantity of every object is compared with a shadow model after every step.
#include "himalaya/HierarchyObject.hpp"

#include <array>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

using himalaya::HierarchyObject;

namespace {

std::map<std::string, long> counts;
std::string history;
long steps = 0;

[[noreturn]] void fail(const std::string& what)
{
   std::printf("{\"violation\":\"%s\",\"history\":\"%s\"}\n", what.c_str(), history.c_str());
   std::fflush(stdout);
   std::_Exit(5);
}

struct Model {
   bool ab{};
   int hier{}, mdrFlag{}, ren{1};
   double absd{}, reld{}, h3m{}, eft{}, nonlog{}, xt{};
   std::array<double, 4> unc{}, dmh2{}, dl{}, ms{}, e{}, fo{}, foat{};
   std::array<std::array<double, 4>, 4> dmh{};
   std::array<double, 4> mdrShift{}, h3mShift{};
   std::array<double, 2> mdrMasses{};
};

bool same(double a, double b)
{
   return (std::isnan(a) && std::isnan(b)) || std::memcmp(&a, &b, sizeof a) == 0;
}

std::array<double, 4> arr(const Eigen::Matrix2d& m) { return {{m(0, 0), m(0, 1), m(1, 0), m(1, 1)}}; }

Eigen::Matrix2d mat(const std::array<double, 4>& a)
{
   Eigen::Matrix2d m;
   m << a[0], a[1], a[2], a[3];
   return m;
}

void cmp(const char* what, double got, double want)
{
   counts["comparisons"]++;
   if (!same(got, want)) {
      std::ostringstream s;
      s << what << ": read " << std::setprecision(17) << got << ", expected " << want;
      fail(s.str());
   }
}

void cmp(const char* what, const std::array<double, 4>& g, const std::array<double, 4>& w)
{
   for (int i = 0; i < 4; i++) { cmp(what, g[i], w[i]); }
}

template <class F>
bool throws(F f)
{
   try {
      f();
   } catch (const std::exception&) {
      return true;
   }
   return false;
}

const int BAD[] = {-1, 4, 5, -2, 7, 8, 255, 256, 1 << 16, -(1 << 16), INT_MAX, INT_MIN, INT_MIN + 1, 1 << 30, -4, -3};

void read_all(const HierarchyObject& o, const Model& m)
{
   if (o.getIsAlphab() != m.ab) { fail("getIsAlphab changed"); }
   if (o.getSuitableHierarchy() != m.hier) { fail("getSuitableHierarchy"); }
   if (o.getMDRFlag() != m.mdrFlag) { fail("getMDRFlag"); }
   if (o.getRenormalizationScheme() != m.ren) { fail("getRenormalizationScheme"); }
   cmp("getAbsDiff2L", o.getAbsDiff2L(), m.absd);
   cmp("getRelDiff2L", o.getRelDiff2L(), m.reld);
   cmp("getDLambdaH3m", o.getDLambdaH3m(), m.h3m);
   cmp("getDLambdaEFT", o.getDLambdaEFT(), m.eft);
   cmp("getDLambdaNonLog", o.getDLambdaNonLog(), m.nonlog);
   for (int i = 0; i <= 3; i++) {
      if (i > 0) { cmp("getDMhExpUncertainty", o.getDMhExpUncertainty(i), m.unc[i]); }
      cmp("getDMh", arr(o.getDMh(i)), m.dmh[i]);
      cmp("getDMh2", o.getDMh2(i), m.dmh2[i]);
      cmp("getDLambda", o.getDLambda(i), m.dl[i]);
      cmp("getDLambdaDRbarPrimeToMSbarShift", o.getDLambdaDRbarPrimeToMSbarShift(i), m.ms[i]);
      cmp("getDMh2EFTAt", o.getDMh2EFTAt(i), m.e[i]);
      cmp("getDMh2FO", o.getDMh2FO(i), m.fo[i]);
      cmp("getDMh2FOAt", o.getDMh2FOAt(i), m.foat[i]);
      const double u = i < 3 ? 0. : std::abs(m.xt) + std::abs(m.eft - m.h3m);
      cmp("getDLambdaUncertainty", o.getDLambdaUncertainty(i), u);
   }
   cmp("getDMhDRbarPrimeToMDRbarPrimeShift", arr(o.getDMhDRbarPrimeToMDRbarPrimeShift()), m.mdrShift);
   cmp("getDMhDRbarPrimeToH3mShift", arr(o.getDMhDRbarPrimeToH3mShift()), m.h3mShift);
   cmp("getMDRMasses(0)", o.getMDRMasses()(0), m.mdrMasses[0]);
   cmp("getMDRMasses(1)", o.getMDRMasses()(1), m.mdrMasses[1]);
}

void bad_reads(const HierarchyObject& o, int i)
{
   counts["reads with bad index"]++;
   if (!throws([&] { o.getDMhExpUncertainty(i); })) { fail("getDMhExpUncertainty accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDMhExpUncertainty(0); })) { fail("getDMhExpUncertainty accepts 0"); }
   if (!throws([&] { o.getDMh(i); })) { fail("getDMh accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDMh2(i); })) { fail("getDMh2 accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDLambda(i); })) { fail("getDLambda accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDLambdaUncertainty(i); })) { fail("getDLambdaUncertainty accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDLambdaDRbarPrimeToMSbarShift(i); })) { fail("getDLambdaDRbarPrimeToMSbarShift accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDMh2EFTAt(i); })) { fail("getDMh2EFTAt accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDMh2FO(i); })) { fail("getDMh2FO accepts bad index " + std::to_string(i)); }
   if (!throws([&] { o.getDMh2FOAt(i); })) { fail("getDMh2FOAt accepts bad index " + std::to_string(i)); }
}

std::string strip(const std::string& s)
{
   std::string r;
   for (const char c : s) {
      if (c != ' ') { r += c; }
   }
   return r;
}

void print_check(const HierarchyObject& o, const Model& m, int precision, bool fixed)
{
   counts["printed"]++;
   std::ostringstream s, ref;
   for (auto* x : {&s, &ref}) {
      if (fixed) { *x << std::fixed; }
      *x << std::setprecision(precision);
   }
   const auto flags = s.flags();
   s << o;
   if (s.flags() != flags || s.precision() != precision) { fail("printing changes the stream state"); }
   const auto v = [&ref](double x) {
      ref.str("");
      ref << x;
      return ref.str();
   };
   const auto m4 = [&v](const std::array<double, 4>& a) {
      return "{{" + v(a[0]) + "," + v(a[1]) + "},{" + v(a[2]) + "," + v(a[3]) + "}}GeV^2";
   };
   const char* names[] = {"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"};
   const std::string hn = m.hier >= 0 && m.hier < 14 ? std::string(names[m.hier]) : "Hierarchy" + std::to_string(m.hier) + "notincluded";
   const std::string ms = m.ab ? "Msbottom" : "Mstop";
   std::vector<std::string> want{
      std::string("Ren.scheme=") + (m.ren == 0 || m.ren == 2 ? "H3mscheme" : "DR'"),
      "Hierarchy=" + std::to_string(m.hier) + "(" + hn + ")",
      ms + "_1=" + v(m.mdrMasses[0]) + "GeV(MDR')", ms + "_2=" + v(m.mdrMasses[1]) + "GeV(MDR')",
      "Abs.diff2L=" + v(m.absd) + "GeV", "Rel.diff2L=" + v(m.reld * 100) + "%",
      "Mh^2_0L=" + m4(m.dmh[0]), "ΔMh^2_1L=" + m4(m.dmh[1]), "ΔMh^2_2L=" + m4(m.dmh[2]), "ΔMh^2_3L=" + m4(m.dmh[3]),
      "Exp.uncert.1L=" + v(m.unc[1]) + "GeV", "Exp.uncert.2L=" + v(m.unc[2]) + "GeV", "Exp.uncert.3L=" + v(m.unc[3]) + "GeV",
      "DR'->MDR'shift=" + m4(m.mdrShift), "DR'->H3mshift=" + m4(m.h3mShift)};
   for (int i = 0; i < 3; i++) { want.push_back("Δλ_" + std::to_string(i) + "L=" + v(m.dl[i])); }
   want.push_back("Δλ_3L=" + v(m.dl[3]) + "+/-" + v(std::abs(m.xt) + std::abs(m.eft - m.h3m)));
   for (int i = 0; i < 4; i++) { want.push_back("Δλ_" + std::to_string(i) + "LDR'->MSshift=" + v(m.ms[i])); }
   for (int i = 0; i < 4; i++) { want.push_back((i ? "ΔMh^2_EFT_" : "Mh^2_EFT_") + std::to_string(i) + "L=" + v(m.e[i]) + "GeV^2"); }
   want.push_back("Mh^2_FO_0L=" + v(m.fo[0]) + "GeV^2");
   for (int i = 1; i < 4; i++) { want.push_back("ΔMh^2_FO_" + std::to_string(i) + "L=" + v(m.foat[i]) + "GeV^2"); }
   for (int i = 1; i < 4; i++) { want.push_back("ΔMh^2_FO_" + std::to_string(i) + "L=" + v(m.fo[i]) + "GeV^2"); }
   const std::string text = "\n" + strip(s.str());
   // every stored value appears in a line of its own, in any order
   for (std::size_t i = 0; i < want.size(); i++) {
      if (text.find("\n" + want[i]) == std::string::npos) { fail("printed form lacks '" + want[i] + "'"); }
   }
}

} // anonymous namespace

int main(int argc, char** argv)
{
   const long n = std::atol(argv[1]);
   std::mt19937_64 rng(std::strtoull(argv[2], nullptr, 10));
   (void)argc;
   const auto pick = [&rng](int k) { return static_cast<int>(rng() % static_cast<unsigned>(k)); };
   const auto val = [&]() -> double {
      switch (pick(12)) {
      case 0: return 0.;
      case 1: return -0.;
      case 2: return std::numeric_limits<double>::infinity();
      case 3: return -std::numeric_limits<double>::infinity();
      case 4: return std::numeric_limits<double>::quiet_NaN();
      case 5: return std::numeric_limits<double>::denorm_min();
      case 6: return std::numeric_limits<double>::max();
      default: return std::ldexp(static_cast<double>(static_cast<std::int64_t>(rng())), -pick(90));
      }
   };
   const auto mval = [&] { return std::array<double, 4>{{val(), val(), val(), val()}}; };

   std::vector<std::unique_ptr<HierarchyObject>> o;
   std::vector<Model> m;
   const auto create = [&] {
      const bool ab = pick(2) != 0;
      o.emplace_back(new HierarchyObject(ab));
      m.emplace_back();
      m.back().ab = ab;
   };
   create();
   create();
   create();
   for (; steps < n; steps++) {
      const int k = pick(static_cast<int>(o.size()));
      auto& x = *o[k];
      auto& y = m[k];
      int i = pick(4);
      const bool bad = pick(4) == 0;
      if (bad) { i = BAD[pick(sizeof(BAD) / sizeof(*BAD))]; }
      const double v = val();
      const auto a = mval();
      const int op = pick(26);
      history += " " + std::to_string(op) + ":" + std::to_string(k) + ":" + std::to_string(i);
      if (history.size() > 400) { history = history.substr(history.size() - 300); }
      counts["op " + std::to_string(op) + (bad ? " bad index" : "")]++;
      const auto indexed = [&](const char* what, std::array<double, 4>& t, bool zero_ok, void (HierarchyObject::*set)(int, double)) {
         const bool ok = !bad && (zero_ok || i > 0);
         const bool th = throws([&] { (x.*set)(i, v); });
         if (th == ok) { fail(std::string(what) + (th ? " rejects" : " accepts") + " index " + std::to_string(i)); }
         if (ok) { t.at(i) = v; }
      };
      switch (op) {
      case 0: indexed("setDMhExpUncertainty", y.unc, false, &HierarchyObject::setDMhExpUncertainty); break;
      case 1: indexed("setDMh2", y.dmh2, true, &HierarchyObject::setDMh2); break;
      case 2: indexed("setDLambda", y.dl, true, &HierarchyObject::setDLambda); break;
      case 3: indexed("setDLambdaDRbarPrimeToMSbarShift", y.ms, true, &HierarchyObject::setDLambdaDRbarPrimeToMSbarShift); break;
      case 4: indexed("setDMh2EFT", y.e, true, &HierarchyObject::setDMh2EFT); break;
      case 5: indexed("setDMh2FO", y.fo, true, &HierarchyObject::setDMh2FO); break;
      case 6: indexed("setDMh2FOAt", y.foat, true, &HierarchyObject::setDMh2FOAt); break;
      case 7: {
         const bool th = throws([&] { x.setDMh(i, mat(a)); });
         if (th != bad) { fail("setDMh " + std::string(th ? "rejects " : "accepts ") + std::to_string(i)); }
         if (!bad) { y.dmh.at(i) = a; }
         break;
      }
      case 8: {
         const int f = bad ? i : pick(3);
         const bool ok = f == 0 || f == 1;
         if (throws([&] { x.setMDRFlag(f); }) == ok) { fail("setMDRFlag " + std::to_string(f)); }
         if (ok) { y.mdrFlag = f; }
         break;
      }
      case 9: {
         const bool ok = i >= 0 && i <= 3;
         if (throws([&] { x.setRenormalizationScheme(i); }) == ok) { fail("setRenormalizationScheme " + std::to_string(i)); }
         if (ok) { y.ren = i; }
         break;
      }
      case 10: {
         const int h = pick(3) ? pick(14) : BAD[pick(sizeof(BAD) / sizeof(*BAD))];
         x.setSuitableHierarchy(h);
         y.hier = h;
         break;
      }
      case 11: x.setAbsDiff2L(v); y.absd = v; break;
      case 12: x.setRelDiff2L(v); y.reld = v; break;
      case 13: x.setDMhDRbarPrimeToMDRbarPrimeShift(mat(a)); y.mdrShift = a; break;
      case 14: x.setDMhDRbarPrimeToH3mShift(mat(a)); y.h3mShift = a; break;
      case 15: x.setDLambdaH3m(v); y.h3m = v; break;
      case 16: x.setDLambdaEFT(v); y.eft = v; break;
      case 17: x.setDLambdaNonLog(v); y.nonlog = v; break;
      case 18: x.setDLambdaXtUncertainty(v); y.xt = v; break;
      case 19: {
         // ascending order is defined for numbers only
         double p = a[0], q = pick(4) ? a[1] : a[0];
         if (std::isnan(p)) { p = 1; }
         if (std::isnan(q)) { q = -1; }
         x.setMDRMasses(Eigen::Vector2d(p, q));
         y.mdrMasses = p > q ? std::array<double, 2>{{q, p}} : std::array<double, 2>{{p, q}};
         break;
      }
      case 20: {   // copy construction
         const int j = pick(static_cast<int>(o.size()));
         const Model c = m[j];
         o.emplace_back(new HierarchyObject(*o[j]));
         m.push_back(c);
         break;
      }
      case 21: {   // assignment, possibly to itself
         const int j = pick(static_cast<int>(o.size()));
         *o[k] = *o[j];
         const Model c = m[j];
         m[k] = c;
         break;
      }
      case 22: {   // move
         o.emplace_back(new HierarchyObject(std::move(*o[k])));
         const Model c = m[k];
         m.push_back(c);
         o.erase(o.begin() + k);
         m.erase(m.begin() + k);
         break;
      }
      case 23: bad_reads(x, BAD[pick(sizeof(BAD) / sizeof(*BAD))]); break;
      case 24: print_check(x, y, 6 + pick(12), pick(4) == 0); break;
      default: {
         const int h = pick(2) ? pick(14) : BAD[pick(sizeof(BAD) / sizeof(*BAD))];
         const auto s = x.getH3mHierarchyNotation(h);
         const char* names[] = {"h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2"};
         if (h >= 0 && h < 14 ? s != names[h] : s.find("not included") == std::string::npos) { fail("getH3mHierarchyNotation(" + std::to_string(h) + ") = " + s); }
      }
      }
      // a change of one object must show in that object only, and only in that quantity
      for (std::size_t j = 0; j < o.size(); j++) { read_all(*o[j], m[j]); }
      while (o.size() > 6) {
         const int j = pick(static_cast<int>(o.size()));
         o.erase(o.begin() + j);
         m.erase(m.begin() + j);
      }
      if (pick(40) == 0) { create(); }
      if (o.size() < 2) { create(); }
   }
   std::printf("{\"steps\":%ld", steps);
   for (const auto& c : counts) { std::printf(",\"%s\":%ld", c.first.c_str(), c.second); }
   std::printf("}\n");
   return 0;
}
