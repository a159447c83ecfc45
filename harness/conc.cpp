// conc <threads> <seed> <rounds>: points on stdin ("<kind> params" lines).
// Every thread executes every point in its own random order; all start together on a
// process that has not calculated before.  Prints per point the result bits (hex) and
// whether all threads agree, plus a summary of the observed interleaving.
#include "calc.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "surface.hpp"

#include <algorithm>
#include <atomic>
#include <random>
#include <thread>

using namespace himalaya;

namespace {

struct Task { int kind; Parameters p; };

struct Null_buf : std::streambuf {
   int overflow(int c) override { return c == EOF ? 0 : c; }
   std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

using Res = std::vector<double>;

void push(Res& r, const Eigen::Matrix2d& m)
{
   for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { r.push_back(m(i, j)); } }
}

Res execute(const Task& t)
{
   Res r;
   try {
      switch (t.kind) {
      case 0: case 1: case 2: case 3: {
         HierarchyCalculator hc(t.p, t.kind == 2);
         const auto ho = hc.calculateDMh3L(t.kind == 1);
         for (int i = 0; i <= 3; i++) {
            push(r, ho.getDMh(i));
            for (const double d : {ho.getDMh2(i), ho.getDLambda(i), ho.getDLambdaUncertainty(i),
                                   ho.getDLambdaDRbarPrimeToMSbarShift(i), ho.getDMh2EFTAt(i),
                                   ho.getDMh2FO(i), ho.getDMh2FOAt(i)}) { r.push_back(d); }
            if (i) { r.push_back(ho.getDMhExpUncertainty(i)); }
         }
         push(r, ho.getDMhDRbarPrimeToMDRbarPrimeShift());
         push(r, ho.getDMhDRbarPrimeToH3mShift());
         r.push_back(ho.getSuitableHierarchy());
         r.push_back(ho.getAbsDiff2L());
         r.push_back(ho.getDLambdaH3m());
         r.push_back(ho.getDLambdaEFT());
         break;
      }
      case 4: {
         mh2_fo::MSSM_mass_eigenstates fo(t.p);
         const auto mh = fo.calculate_Mh2();
         r.push_back(std::get<0>(mh)); r.push_back(std::get<1>(mh)); r.push_back(std::get<2>(mh));
         push(r, fo.delta_mh2_2loop());
         push(r, fo.delta_mh2_2loop_mom_it_num());
         {
            auto q = t.p;
            q.validate(false);
            const double v2 = q.vu*q.vu + q.vd*q.vd, tb = q.vu/q.vd, Q2 = q.scale*q.scale;
            const double st = std::sin(q.theta_t), ct = std::cos(q.theta_t);
            const double sb = std::sin(q.theta_b), cb = std::cos(q.theta_b);
            const double sl = std::sin(q.theta_tau), cl = std::cos(q.theta_tau);
            const double t2 = q.Mt*q.Mt, b2 = q.Mb*q.Mb, l2 = q.Mtau*q.Mtau, A2 = q.MA*q.MA;
            const double T1 = q.MSt(0)*q.MSt(0), T2 = q.MSt(1)*q.MSt(1);
            const double B1 = q.MSb(0)*q.MSb(0), B2 = q.MSb(1)*q.MSb(1);
            const double L1 = q.MStau(0)*q.MStau(0), L2 = q.MStau(1)*q.MStau(1);
            for (int heavy = 0; heavy < 2; heavy++) {
               push(r, mh2l::delta_mh2_2loop_at_as(t2, q.MG, T1, T2, st, ct, Q2, -q.mu, tb, v2, q.g3, heavy));
               push(r, mh2l::delta_mh2_2loop_ab_as(b2, q.MG, B1, B2, sb, cb, Q2, -q.mu, 1/tb, v2, q.g3, heavy));
               push(r, mh2l::delta_mh2_2loop_at_at(t2, b2, A2, T1, T2, B1, B2, st, ct, sb, cb, Q2, -q.mu, tb, v2, heavy, 0));
               push(r, mh2l::delta_mh2_2loop_atau_atau(l2, A2, q.ml2(2,2), L1, L2, sl, cl, Q2, -q.mu, tb, v2, heavy));
               push(r, mh2l::delta_mh2_2loop_ab_atau(l2, b2, L1, L2, B1, B2, sl, cl, sb, cb, Q2, -q.mu, tb, v2, heavy));
            }
         }
         break;
      }
      case 5: {
         mh2_eft::Mh2EFTCalculator e(t.p);
         for (int om = 0; om < 2; om++) {
            r.push_back(e.getDeltaMh2EFT0Loop());
            r.push_back(e.getDeltaMh2EFT1Loop(om, 1));
            r.push_back(e.getDeltaMh2EFT2Loop(om, 1));
            r.push_back(e.getDeltaMh2EFT3Loop(om, 1, 1));
         }
         break;
      }
      case 7: {       // every public entry point, text output and failing calls included
         for (unsigned seed = 0; seed < 2; seed++) {
            const Surface f(t.p, seed + static_cast<unsigned>(std::isfinite(t.p.scale) ? std::fmod(std::abs(t.p.scale), 1000.) : 0));
            r.insert(r.end(), f.values.begin(), f.values.end());
            r.push_back(f.returned);
            r.push_back(f.threw);
            r.push_back(std::hash<std::string>{}(f.text.str()) % 1000003);
         }
         break;
      }
      default: {
         mh2_eft::ThresholdCalculator c(t.p);
         for (int s = 0; s < 4; s++) {
            for (int l = 0; l < static_cast<int>(mh2_eft::ThresholdCouplingOrders::NUMBER_OF_THRESHOLD_VARIALES); l++) {
               try {
                  r.push_back(c.getThresholdCorrection(static_cast<mh2_eft::ThresholdCouplingOrders>(l),
                                                       static_cast<mh2_eft::RenSchemes>(s), 1));
               } catch (const std::exception&) { r.push_back(-1); }
            }
         }
      }
      }
   } catch (const std::exception& e) {
      r.push_back(std::hash<std::string>{}(e.what()) % 1000003);
   }
   return r;
}

bool same(const Res& a, const Res& b)
{
   return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

} // namespace

int main(int argc, char** argv)
{
   const int threads = std::atoi(argv[1]);
   const unsigned seed = std::atoi(argv[2]);
   const int rounds = std::atoi(argv[3]);
   std::vector<Task> tasks;
   std::string line;
   while (std::getline(std::cin, line)) {
      rec::In in(line);
      Task t;
      t.kind = in.integer();
      t.p = rec::read_parameters(in);
      tasks.push_back(t);
   }
   const int n = tasks.size();
   Null_buf null;                       // verbose output of the library
   auto* old = std::cout.rdbuf(&null);
   auto* olde = std::cerr.rdbuf(&null);
   std::vector<std::vector<Res>> res(threads, std::vector<Res>(n * rounds));
   std::vector<std::vector<long>> stamp(threads, std::vector<long>(n * rounds));
   std::atomic<int> ready{0};
   std::atomic<long> clock{0};
   std::atomic<bool> go{false};
   const auto body = [&](int th) {
      std::mt19937 g(seed * 1000u + th);
      std::vector<int> order(n * rounds);
      for (int i = 0; i < n * rounds; i++) { order[i] = i; }
      if (threads > 1) {
         // alternate: lock step on the same point / independent order
         if (th % 3) { std::shuffle(order.begin(), order.end(), g); }
      }
      ready++;
      while (!go) { std::this_thread::yield(); }
      for (const int i : order) {
         if (g() % 4 == 0) { std::this_thread::yield(); }
         stamp[th][i] = clock++;
         res[th][i] = execute(tasks[i % n]);
      }
   };
   if (threads == 1) {
      go = true;
      body(0);
   } else {
      std::vector<std::thread> ts;
      for (int i = 0; i < threads; i++) { ts.emplace_back(body, i); }
      while (ready != threads) { std::this_thread::yield(); }
      go = true;
      for (auto& t : ts) { t.join(); }
   }
   std::cout.rdbuf(old);
   std::cerr.rdbuf(olde);
   // interleaving signature: thread ids in global start order
   std::vector<int> who(clock.load());
   for (int th = 0; th < threads; th++) { for (long s : stamp[th]) { who[s] = th; } }
   std::size_t sig = 1469598103934665603ull;
   long switches = 0;
   for (std::size_t i = 0; i < who.size(); i++) {
      sig = (sig ^ who[i]) * 1099511628211ull;
      switches += i && who[i] != who[i - 1];
   }
   for (int i = 0; i < n; i++) {
      bool ok = true;
      int bad = -1;
      for (int th = 0; th < threads; th++) {
         for (int k = 0; k < rounds; k++) {
            if (!same(res[th][i + k * n], res[0][i])) { ok = false; bad = th; }
         }
      }
      std::printf("P %d %d %d", i, ok ? 1 : 0, bad);
      for (const double d : res[0][i]) { std::printf(" %a", d); }
      std::printf("\n");
   }
   std::printf("S %zx %ld %zu\n", sig, switches, who.size());
   return 0;
}
