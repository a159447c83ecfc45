// a physical parameter point for the demonstrations
#pragma once
#include "himalaya/Himalaya_interface.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include <cmath>
#include <cstdio>
#include <iostream>

inline himalaya::Parameters make_point(double MS = 2000., double tb = 10., double xt = -1.5,
                                       double rq = 1.0, double ru = 1.1, double rg = 0.9, double rsq = 1.5)
{
   himalaya::Parameters p;
   const double v = 245., cb = 1/std::sqrt(1 + tb*tb), sb = tb*cb;
   p.scale = MS; p.mu = 0.4*MS; p.g1 = 0.46; p.g2 = 0.64; p.g3 = 1.05;
   p.vd = v*cb; p.vu = v*sb;
   p.mq2 = p.md2 = p.mu2 = p.ml2 = p.me2 = himalaya::RM33::Identity()*(rsq*MS*rsq*MS);
   p.mq2(2,2) = rq*rq*MS*MS; p.mu2(2,2) = ru*ru*MS*MS; p.md2(2,2) = 1.2*MS*MS;
   p.ml2(2,2) = 0.8*MS*MS; p.me2(2,2) = 0.9*MS*MS;
   p.Au.setZero(); p.Ad.setZero(); p.Ae.setZero(); p.Yu.setZero(); p.Yd.setZero(); p.Ye.setZero();
   p.Au(2,2) = xt*MS + p.mu/tb; p.Ad(2,2) = 0.5*MS; p.Ae(2,2) = 0.3*MS;
   p.Yu(2,2) = 0.85/sb; p.Yd(2,2) = std::sqrt(2.)*2.4/p.vd; p.Ye(2,2) = std::sqrt(2.)*1.75/p.vd;
   p.MA = 1.3*MS; p.M1 = 0.3*MS; p.M2 = 0.5*MS; p.MG = rg*MS;
   return p;
}
