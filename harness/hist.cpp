// hist: P lines (points), then one line per history: "H seed length".
// Executes random call histories on shared, long-lived objects and records for every
// step the result bits; every distinct call is also executed as the first call of a
// freshly forked process on fresh objects.  Prints one line per history step that differs.
#include "calc.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"

#include <memory>
#include <random>
#include <set>
#include <sys/wait.h>
#include <unistd.h>

using namespace himalaya;
using namespace himalaya::mh2_eft;
using namespace himalaya::mh2_fo;

namespace {

using Rng = std::mt19937;
using Res = std::vector<double>;

int ri(Rng& g, int n) { return static_cast<int>(g() % static_cast<unsigned>(n)); }

template <class D>
void push(Res& r, const Eigen::DenseBase<D>& m)
{
   for (int i = 0; i < m.rows(); i++) { for (int j = 0; j < m.cols(); j++) { r.push_back(m.derived().coeff(i, j)); } }
}

struct Hash { unsigned long h = 1469598103934665603ul;
   void add(const char* p, std::size_t n) { while (n--) { h = (h ^ static_cast<unsigned char>(*p++)) * 1099511628211ul; } } };

void push_text(Res& r, const std::string& s)
{
   Hash h;
   h.add(s.data(), s.size());
   r.push_back(static_cast<double>(h.h % 1000000007ul));
}

/// a call: object kind, point, configuration, what, arguments
struct Call {
   int kind = 0, pt = 0, what = 0;
   std::vector<int> config;    // complete configuration of the object
   std::vector<int> a;         // arguments
   bool operator<(const Call& o) const
   {
      return std::tie(kind, pt, what, config, a) < std::tie(o.kind, o.pt, o.what, o.config, o.a);
   }
   std::string str() const
   {
      std::ostringstream s;
      s << "kind " << kind << " what " << what << " point " << pt << " config";
      for (int c : config) { s << ' ' << c; }
      s << " args";
      for (int c : a) { s << ' ' << c; }
      return s.str();
   }
};

constexpr int NO = CouplingOrders::NUMBER_OF_COUPLING_ORDERS;

/// the objects of one point
struct Objects {
   std::unique_ptr<HierarchyCalculator> hc;
   std::unique_ptr<MSSM_mass_eigenstates> fo[2];
   std::vector<int> fo_conf[2];
   std::unique_ptr<Mh2EFTCalculator> eft;
   std::vector<int> eft_conf;
   std::unique_ptr<ThresholdCalculator> thr;
   std::vector<int> thr_conf;
   std::unique_ptr<HierarchyObject> ho[2];
};

std::vector<int> default_config(int kind)
{
   switch (kind) {
   case 1: case 2: return std::vector<int>(NO + 2, -1); // flags (-1: untouched), diag, mom it
   case 3: return std::vector<int>(NO, -1);
   case 4: return {-1, -1};
   default: return {};
   }
}

void apply_fo(MSSM_mass_eigenstates& o, int i, int v)
{
   if (i < NO) { o.set_correction(static_cast<CouplingOrders::CouplingOrders>(i), v); }
   else if (i == NO) { o.set_diagonalization(v ? Diagonalization::num : Diagonalization::pert); }
   else { o.set_mom_it(v == 0 ? Momentum_iteration::off : v == 1 ? Momentum_iteration::pert : Momentum_iteration::num); }
}

/// brings an object from configuration `from` to `to`
void configure(Objects& ob, const Call& c)
{
   std::vector<int>* have = c.kind <= 2 ? &ob.fo_conf[c.kind == 2] : c.kind == 3 ? &ob.eft_conf : &ob.thr_conf;
   for (std::size_t i = 0; i < c.config.size(); i++) {
      if ((*have)[i] == c.config[i]) { continue; }
      const int v = c.config[i];
      if (c.kind <= 2) { apply_fo(*ob.fo[c.kind == 2], i, v); }
      else if (c.kind == 3) { ob.eft->setCorrectionFlag(static_cast<CouplingOrders::CouplingOrders>(i), v); }
      else if (i == 0) { ob.thr->setLimit(static_cast<Limits>(v)); }
      else { ob.thr->setXtOrderOfDeltaLambdaAtAs2(v); }
      (*have)[i] = v;
   }
}

Res execute(Objects& ob, const Parameters& p, const Call& c)
{
   Res r;
   try {
      switch (c.kind) {
      case 0: {
         if (!ob.hc) { ob.hc = std::make_unique<HierarchyCalculator>(p, false); }
         auto& hc = *ob.hc;
         if (c.what == 0) {
            const auto ho = hc.calculateDMh3L(c.a[0] != 0);
            for (int i = 0; i <= 3; i++) {
               push(r, ho.getDMh(i));
               for (const double d : {ho.getDMh2(i), ho.getDLambda(i), ho.getDLambdaUncertainty(i),
                     ho.getDLambdaDRbarPrimeToMSbarShift(i), ho.getDMh2EFTAt(i), ho.getDMh2FO(i), ho.getDMh2FOAt(i)}) { r.push_back(d); }
               if (i) { r.push_back(ho.getDMhExpUncertainty(i)); }
            }
            push(r, ho.getDMhDRbarPrimeToMDRbarPrimeShift());
            push(r, ho.getDMhDRbarPrimeToH3mShift());
            push(r, ho.getMDRMasses());
            for (const double d : {ho.getAbsDiff2L(), ho.getRelDiff2L(), ho.getDLambdaH3m(), ho.getDLambdaEFT(), ho.getDLambdaNonLog()}) { r.push_back(d); }
            r.push_back(ho.getSuitableHierarchy());
            std::ostringstream s; s << ho; push_text(r, s.str());
            break;
         }
         // calls on a result object that lives as long as the calculator
         const int ab = c.a[0];
         if (!ob.ho[ab]) { ob.ho[ab] = std::make_unique<HierarchyObject>(ab != 0); }
         auto& ho = *ob.ho[ab];
         ho.setMDRFlag(c.a[1]);
         if (c.what == 1) {
            r.push_back(hc.compareHierarchies(ho));
            r.push_back(ho.getAbsDiff2L()); r.push_back(ho.getRelDiff2L()); r.push_back(ho.getDMhExpUncertainty(2));
            break;
         }
         ho.setSuitableHierarchy(c.a[2]);
         const int f1 = c.a[3], f2 = c.a[4], f3 = c.a[5];
         if (c.what == 2) {
            push(r, hc.calculateHierarchy(ho, f1, f2, f3));
            if (f3 && !f1 && !f2) { r.push_back(ho.getDLambdaH3m()); r.push_back(ho.getDLambdaNonLog()); }
         } else if (c.what == 3) {
            push(r, hc.getMt41L(ho, f1, f2)); push(r, hc.getMt42L(ho, f1, f2));
            r.push_back(hc.shiftMst1ToMDR(ho, f1, f2)); r.push_back(hc.shiftMst2ToMDR(ho, f1, f2));
            push(r, hc.calcDRbarToMDRbarShift(ho, f1, f2));
         } else {
            Eigen::Matrix2d m;
            m << 8000. + 37*f1, -100., -100., 900000.;
            r.push_back(hc.getExpansionUncertainty(ho, m, f1, f2, f3));
         }
         break;
      }
      case 1: case 2: {
         auto& o = ob.fo[c.kind == 2];
         if (!o) { o = std::make_unique<MSSM_mass_eigenstates>(p, c.kind == 2); ob.fo_conf[c.kind == 2] = default_config(1); }
         configure(ob, c);
         if (c.what == 0) { const auto m = o->calculate_Mh2(); r = {std::get<0>(m), std::get<1>(m), std::get<2>(m)}; }
         else if (c.what == 1) { push(r, o->delta_mh2_1loop(c.a[0] * 1000.)); push(r, o->get_mass_matrix_hh()); }
         else if (c.what == 2) { push(r, o->delta_mh2_2loop()); push(r, o->delta_mh2_2loop_mom_it_pert()); }
         else if (c.what == 3) { push(r, o->delta_mh2_2loop_mom_it_num(1e-6, 1 + c.a[0])); push(r, o->delta_mh2_1loop_gaugeless()); push(r, o->delta_mh2_1loop_gaugeless_deriv()); }
         else { std::ostringstream s; s << *o; push_text(r, s.str()); }
         break;
      }
      case 3: {
         if (!ob.eft) { ob.eft = std::make_unique<Mh2EFTCalculator>(p, false); ob.eft_conf = default_config(3); }
         configure(ob, c);
         const auto& o = *ob.eft;
         if (c.what == 0) { r = {o.getDeltaMh2EFT0Loop(), o.getDeltaMh2EFT1Loop(c.a[0], c.a[1])}; }
         else if (c.what == 1) { r = {o.getDeltaMh2EFT2Loop(c.a[0], c.a[1])}; }
         else if (c.what == 2) { r = {o.getDeltaMh2EFT3Loop(c.a[0], c.a[1], c.a[2])}; }
         else if (c.what == 3) { r = {o.getDeltaLambdaDegenerate(p.scale, 1.1 * p.scale, c.a[0] * 100., c.a[1])}; }
         else { std::ostringstream s; s << o; push_text(r, s.str()); }
         break;
      }
      default: {
         if (!ob.thr) { ob.thr = std::make_unique<ThresholdCalculator>(p, false); ob.thr_conf = default_config(4); }
         configure(ob, c);
         const auto& o = *ob.thr;
         if (c.what == 0) {
            r = {o.getThresholdCorrection(static_cast<ThresholdCouplingOrders>(c.a[0]), static_cast<RenSchemes>(c.a[1]), c.a[2])};
         } else if (c.what == 1) {
            r = {o.getDRbarPrimeToMSbarShift(c.a[0], c.a[1], c.a[2])};
         } else {
            r = {o.getDRbarPrimeToMSbarXtTerms(static_cast<Limits>(c.a[3]), c.a[0], c.a[1])};
         }
         r.push_back(static_cast<int>(o.getLimit()));
      }
      }
   } catch (const std::exception& e) {
      r.assign(1, -12345.);
      push_text(r, e.what());
   }
   return r;
}

Call random_call(Rng& g, int npts, const std::map<std::pair<int, int>, std::vector<int>>& current, int hot)
{
   Call c;
   const int w = ri(g, 20);
   c.kind = w < 9 ? 0 : w < 12 ? 1 : w < 13 ? 2 : w < 16 ? 3 : 4;
   c.pt = ri(g, 3) ? hot : ri(g, npts);
   const auto it = current.find({c.kind, c.pt});
   c.config = it == current.end() ? default_config(c.kind) : it->second;
   if (!c.config.empty() && ri(g, 3) == 0) {
      const int n = 1 + ri(g, 3);
      for (int k = 0; k < n; k++) {
         const int i = ri(g, c.config.size());
         if (c.kind <= 2) { c.config[i] = i == NO + 1 ? ri(g, 3) : ri(g, 2); }
         else if (c.kind == 3) { c.config[i] = ri(g, 2); }
         else { c.config[i] = i == 0 ? ri(g, 6) : 2 + ri(g, 4); }
      }
   }
   switch (c.kind) {
   case 0: {
      const int k = ri(g, 10);
      c.what = k < 3 ? 0 : k < 5 ? 1 : k < 7 ? 2 : k < 8 ? 3 : 4;
      c.a = {ri(g, 3) == 0};
      if (c.what) {
         c.a.push_back(ri(g, 2));
         // also invalid hierarchies: the call fails and must leave no trace
         const int bad[] = {-1, 14, 77, -5};
         c.a.push_back(ri(g, 12) == 0 ? bad[ri(g, 4)] : ri(g, 14));
         c.a.push_back(ri(g, 2)); c.a.push_back(ri(g, 2)); c.a.push_back(ri(g, 2));
         if (c.what == 1) { c.a[2] = c.a[3] = c.a[4] = c.a[5] = 0; }
      }
      break;
   }
   case 1: case 2: c.what = ri(g, 5); c.a = {ri(g, 6)}; break;
   case 3: c.what = ri(g, 5); c.a = {ri(g, 2), ri(g, 2), ri(g, 2)}; break;
   default:
      c.what = ri(g, 4) ? 0 : 1 + ri(g, 2);
      if (c.what == 0) { c.a = {ri(g, static_cast<int>(ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES) + 1), ri(g, 5), ri(g, 2)}; }
      else { c.a = {ri(g, 6), ri(g, 2), ri(g, 2), ri(g, 6)}; }
   }
   return c;
}

/// the same call, alone in a new process
Res fresh(const Parameters& p, const Call& c)
{
   int fd[2];
   if (pipe(fd)) { std::exit(97); }
   const pid_t pid = fork();
   if (pid == 0) {
      close(fd[0]);
      Objects ob;
      const Res r = execute(ob, p, c);
      const std::size_t n = r.size() * sizeof(double);
      _exit(write(fd[1], r.data(), n) == static_cast<ssize_t>(n) ? 0 : 1);
   }
   close(fd[1]);
   Res r;
   double d;
   while (read(fd[0], &d, sizeof d) == sizeof d) { r.push_back(d); }
   close(fd[0]);
   int st = 0;
   waitpid(pid, &st, 0);
   if (st) { r.assign(1, -99999. - st); }
   return r;
}

bool same(const Res& a, const Res& b)
{
   if (a.size() != b.size()) { return false; }
   for (std::size_t i = 0; i < a.size(); i++) {
      // bit for bit; the payload of a NaN carries no information
      if (std::memcmp(&a[i], &b[i], sizeof(double)) && !(std::isnan(a[i]) && std::isnan(b[i]))) { return false; }
   }
   return true;
}

} // namespace

int main()
{
   std::vector<Parameters> pts;
   std::string line;
   const pid_t self = getpid();
   (void)self;
   while (std::getline(std::cin, line)) {
      rec::In in(line);
      const auto w = in.word();
      if (w == "P") { pts.push_back(rec::read_parameters(in)); continue; }
      if (w != "H") { return 97; }
      const unsigned seed = static_cast<unsigned>(in.num());
      const int len = in.integer();
      // pass 1: generate the history (independent of any result)
      Rng g(seed);
      std::map<std::pair<int, int>, std::vector<int>> current;
      std::vector<Call> calls;
      int hot = ri(g, pts.size());
      for (int i = 0; i < len; i++) {
         if (ri(g, 12) == 0) { hot = ri(g, pts.size()); }
         Call c = random_call(g, pts.size(), current, hot);
         current[{c.kind, c.pt}] = c.config;
         calls.push_back(c);
      }
      // pass 2: references from fresh processes, forked before this process calculates for this history
      std::map<Call, Res> ref;
      for (const auto& c : calls) {
         if (!ref.count(c)) { ref[c] = fresh(pts[c.pt], c); }
      }
      // pass 3: the history itself, in a child so that later histories start fresh as well
      std::fflush(stdout);
      const pid_t pid = fork();
      if (pid == 0) {
         std::vector<Objects> ob(pts.size());
         const std::vector<Parameters> keep = pts;
         int bad = 0, threw = 0;
         Hash sig;
         for (int i = 0; i < len; i++) {
            const auto& c = calls[i];
            if (c.kind == 0 && ob[c.pt].hc && g() % 16 == 0) {
               ob[c.pt].hc = std::make_unique<HierarchyCalculator>(*ob[c.pt].hc);   // copies behave the same
            }
            if (c.kind == 0 && g() % 16 == 0) { ob[c.pt].ho[0].reset(); ob[c.pt].ho[1].reset(); }
            if (g() % 40 == 0) { ob[c.pt] = Objects(); }
            // an object whose configuration cannot be reached by switching (a flag was never set) starts anew
            const auto r = execute(ob[c.pt], pts[c.pt], c);
            threw += !r.empty() && r[0] == -12345.;
            sig.add(reinterpret_cast<const char*>(&c.kind), 4); sig.add(reinterpret_cast<const char*>(&c.what), 4);
            const auto& want = ref[c];
            if (!same(r, want) && bad++ < 3) {
               std::size_t k = 0;
               while (k < r.size() && k < want.size() && r[k] == want[k]) { k++; }
               std::printf("D %d %s :: entry %zu history %a fresh %a (sizes %zu %zu)\n", i, c.str().c_str(), k,
                           k < r.size() ? r[k] : 0., k < want.size() ? want[k] : 0., r.size(), want.size());
            }
         }
         for (std::size_t i = 0; i < pts.size(); i++) {
            const auto a = rec::flat(pts[i]), b = rec::flat(keep[i]);
            if (std::memcmp(a.data(), b.data(), a.size() * sizeof(double))) { std::printf("D -1 input %zu modified\n", i); }
         }
         std::printf("E %u %d %d %d %zu %lx\n", seed, len, threw, bad, ref.size(), sig.h);
         std::fflush(stdout);
         _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (st) { std::printf("X %u %d\n", seed, st); }
      std::fflush(stdout);
   }
   return 0;
}
