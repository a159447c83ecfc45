// Recording helpers shared by the harnesses: parameter input, JSON event output.
#pragma once

#include "himalaya/Himalaya_interface.hpp"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <Eigen/Core>

namespace rec {

/// reads whitespace separated tokens; doubles may be hex floats, nan, inf
class In {
public:
   explicit In(const std::string& line) : s(line.c_str()) {}
   std::string word()
   {
      while (*s == ' ') s++;
      const char* b = s;
      while (*s && *s != ' ') s++;
      return std::string(b, s);
   }
   double num()
   {
      char* e = nullptr;
      const double v = std::strtod(s, &e);
      if (e == s) { bad(); }
      s = e;
      return v;
   }
   int integer() { return static_cast<int>(num()); }
   bool more()
   {
      while (*s == ' ') s++;
      return *s != 0;
   }

private:
   [[noreturn]] static void bad()
   {
      std::fprintf(stderr, "harness: bad request\n");
      std::exit(97);
   }
   const char* s;
};

/// one JSON object
class Out {
public:
   void put(const char* k, double v)
   {
      key(k);
      num(v);
   }
   void put(const char* k, int v) { put(k, static_cast<double>(v)); }
   void put(const char* k, const std::string& v)
   {
      key(k);
      o += '"';
      for (const char c : v) {
         if (c == '"' || c == '\\') { o += '\\'; o += c; }
         else if (c == '\n') { o += "\\n"; }
         else if (static_cast<unsigned char>(c) < 0x20) { o += '?'; }
         else { o += c; }
      }
      o += '"';
   }
   template <class D>
   void put(const char* k, const Eigen::DenseBase<D>& m)
   {
      key(k);
      o += '[';
      bool first = true;
      for (int i = 0; i < m.rows(); i++) {
         for (int j = 0; j < m.cols(); j++) {
            if (!first) { o += ','; }
            first = false;
            num(m.derived().coeff(i, j));
         }
      }
      o += ']';
   }
   void put(const char* k, const std::vector<double>& m)
   {
      key(k);
      o += '[';
      for (std::size_t i = 0; i < m.size(); i++) {
         if (i) { o += ','; }
         num(m[i]);
      }
      o += ']';
   }
   std::string str() const { return "{" + o + "}"; }

private:
   void key(const char* k)
   {
      if (!o.empty()) { o += ','; }
      o += '"';
      o += k;
      o += "\":";
   }
   void num(double v)
   {
      char b[40];
      if (std::isnan(v)) { o += "NaN"; return; }
      if (std::isinf(v)) { o += v > 0 ? "Infinity" : "-Infinity"; return; }
      std::snprintf(b, sizeof b, "%.17g", v);
      o += b;
   }
   std::string o;
};

inline himalaya::Parameters read_parameters(In& in)
{
   himalaya::Parameters p;
   const auto m33 = [&in](himalaya::RM33& m) {
      for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) { m(i, j) = in.num(); }
      }
   };
   const auto v2 = [&in](himalaya::V2& v) { v(0) = in.num(); v(1) = in.num(); };
   p.scale = in.num(); p.mu = in.num();
   p.g1 = in.num(); p.g2 = in.num(); p.g3 = in.num();
   p.vd = in.num(); p.vu = in.num();
   m33(p.mq2); m33(p.md2); m33(p.mu2); m33(p.ml2); m33(p.me2);
   m33(p.Au); m33(p.Ad); m33(p.Ae); m33(p.Yu); m33(p.Yd); m33(p.Ye);
   p.M1 = in.num(); p.M2 = in.num(); p.MG = in.num();
   p.MW = in.num(); p.MZ = in.num(); p.Mt = in.num(); p.Mb = in.num(); p.Mtau = in.num();
   p.MA = in.num();
   v2(p.MSt); v2(p.MSb); v2(p.MStau);
   p.s2t = in.num(); p.s2b = in.num(); p.s2tau = in.num();
   p.theta_t = in.num(); p.theta_b = in.num(); p.theta_tau = in.num();
   p.massLimit3LThreshold = in.integer();
   return p;
}

inline void put_parameters(Out& o, const himalaya::Parameters& p)
{
   o.put("scale", p.scale); o.put("mu", p.mu);
   o.put("g1", p.g1); o.put("g2", p.g2); o.put("g3", p.g3);
   o.put("vd", p.vd); o.put("vu", p.vu);
   o.put("mq2", p.mq2); o.put("md2", p.md2); o.put("mu2", p.mu2);
   o.put("ml2", p.ml2); o.put("me2", p.me2);
   o.put("Au", p.Au); o.put("Ad", p.Ad); o.put("Ae", p.Ae);
   o.put("Yu", p.Yu); o.put("Yd", p.Yd); o.put("Ye", p.Ye);
   o.put("M1", p.M1); o.put("M2", p.M2); o.put("MG", p.MG);
   o.put("MW", p.MW); o.put("MZ", p.MZ); o.put("Mt", p.Mt); o.put("Mb", p.Mb);
   o.put("Mtau", p.Mtau); o.put("MA", p.MA);
   o.put("MSt", p.MSt); o.put("MSb", p.MSb); o.put("MStau", p.MStau);
   o.put("s2t", p.s2t); o.put("s2b", p.s2b); o.put("s2tau", p.s2tau);
   o.put("theta_t", p.theta_t); o.put("theta_b", p.theta_b); o.put("theta_tau", p.theta_tau);
   o.put("massLimit3LThreshold", p.massLimit3LThreshold);
}

/// all bytes of the parameter set as doubles (bitwise comparisons)
inline std::vector<double> flat(const himalaya::Parameters& p)
{
   std::vector<double> r{p.scale, p.mu, p.g1, p.g2, p.g3, p.vd, p.vu};
   for (const auto* m : {&p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2, &p.Au, &p.Ad, &p.Ae,
                         &p.Yu, &p.Yd, &p.Ye}) {
      for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) { r.push_back((*m)(i, j)); }
      }
   }
   for (const double d : {p.M1, p.M2, p.MG, p.MW, p.MZ, p.Mt, p.Mb, p.Mtau, p.MA,
                          p.MSt(0), p.MSt(1), p.MSb(0), p.MSb(1), p.MStau(0), p.MStau(1),
                          p.s2t, p.s2b, p.s2tau, p.theta_t, p.theta_b, p.theta_tau,
                          static_cast<double>(p.massLimit3LThreshold)}) {
      r.push_back(d);
   }
   return r;
}

using Handler = std::function<void(In&, Out&)>;
using Handlers = std::map<std::string, Handler>;

/// serves requests until stdin is closed; every std::exception becomes an event
inline int serve(const Handlers& handlers)
{
   std::ios::sync_with_stdio(false);
   std::string line;
   // the library prints to cout/cerr; events go to a private descriptor
   std::FILE* out = stdout;
   while (std::getline(std::cin, line)) {
      if (line.empty()) { continue; }
      In in(line);
      const auto cmd = in.word();
      const auto it = handlers.find(cmd);
      if (it == handlers.end()) {
         std::fprintf(stderr, "harness: unknown command %s\n", cmd.c_str());
         return 97;
      }
      Out o;
      try {
         it->second(in, o);
      } catch (const std::exception& e) {
         o.put("exception", std::string(e.what()));
      }
      std::fputs(o.str().c_str(), out);
      std::fputc('\n', out);
      std::fflush(out);
   }
   return 0;
}

} // namespace rec
