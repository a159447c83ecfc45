#pragma once
// Records what the library's decomposition routines return for requested matrices.
// stdin: "<routine> <r|c> M N entries (row-major, hex floats; complex: re im)", stdout: one JSON event per request.
#include "himalaya/mh2_fo/Linalg.hpp"
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

using namespace himalaya;
using C = std::complex<double>;
using V = std::vector<double>;
template <class S, int M, int N> using Mat = Eigen::Matrix<S, M, N>;
template <int N> using Arr = Eigen::Array<double, N, 1>;

extern std::string out;
inline void num(double x)
{
   char b[40];
   if (x != x) std::snprintf(b, sizeof b, "NaN");
   else if (x - x != 0) std::snprintf(b, sizeof b, x > 0 ? "Infinity" : "-Infinity");
   else std::snprintf(b, sizeof b, "%.17g", x);
   out += b;
}
inline void el(double x) { num(x); }
inline void el(C x) { num(x.real()); out += ","; num(x.imag()); }
inline void key(const std::string& k) { if (out.size() > 1) out += ","; out += "\"" + k + "\":"; }
template <class D> void put(const std::string& k, const Eigen::DenseBase<D>& d)
{
   key(k);
   out += "[";
   for (int i = 0; i < d.rows(); i++)
      for (int j = 0; j < d.cols(); j++) { if (i || j) out += ","; el(d.derived().coeff(i, j)); }
   out += "]";
}
inline void put(const std::string& k, double x) { key(k); num(x); }

template <class S> struct Read;
template <> struct Read<double> { static double at(const V& v, int i) { return v.at(i); } };
template <> struct Read<C> { static C at(const V& v, int i) { return C(v.at(2*i), v.at(2*i + 1)); } };
template <class S, int M, int N> Mat<S, M, N> get(const V& v)
{
   Mat<S, M, N> m;
   for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) m(i, j) = Read<S>::at(v, i*N + j);
   return m;
}

#define HERMITIAN(NAME, FN) template <class S, int N> void NAME(const V& v)                              \
{                                                                                                       \
   const auto m = get<S, N, N>(v);                                                                      \
   const auto m_before = m;                                                                             \
   Arr<N> s; Mat<S, N, N> z; double e; Arr<N> ze;                                                       \
   FN(m, s, z); put("s0", s); put("u0", z);                                                             \
   FN(m, s, z, e); put("s1", s); put("u1", z); put("e1", e);                                            \
   FN(m, s, z, e, ze); put("s2", s); put("u2", z); put("e2", e); put("ue", ze);                         \
   FN(m, s); put("s3", s);                                                                              \
   (void)m_before;                                                                                      \
}
#define SYMMETRIC(NAME, FN) template <class S, int N> void NAME(const V& v)                              \
{                                                                                                       \
   const auto m = get<S, N, N>(v);                                                                      \
   Arr<N> s; Mat<C, N, N> z; double e; Arr<N> ze;                                                       \
   FN(m, s, z); put("s0", s); put("u0", z);                                                             \
   FN(m, s, z, e); put("s1", s); put("u1", z); put("e1", e);                                            \
   FN(m, s, z, e, ze); put("s2", s); put("u2", z); put("e2", e); put("ue", ze);                         \
   FN(m, s); put("s3", s);                                                                              \
}
#define SVD(NAME, FN) template <class S, int M, int N> void NAME(const V& v)                             \
{                                                                                                       \
   const auto m = get<S, M, N>(v);                                                                      \
   Arr<MIN_(M, N)> s, ue, ve; Mat<S, M, M> u; Mat<S, N, N> w; double e;                                  \
   FN(m, s, u, w); put("s0", s); put("u0", u); put("v0", w);                                            \
   FN(m, s, u, w, e); put("s1", s); put("u1", u); put("v1", w); put("e1", e);                           \
   FN(m, s, u, w, e, ue, ve); put("s2", s); put("u2", u); put("v2", w); put("e2", e); put("ue", ue); put("ve", ve); \
   FN(m, s); put("s3", s);                                                                              \
}
HERMITIAN(herm, diagonalize_hermitian)
HERMITIAN(fsherm, fs_diagonalize_hermitian)
SYMMETRIC(sym, diagonalize_symmetric)
SYMMETRIC(rsym, reorder_diagonalize_symmetric)
SYMMETRIC(fssym, fs_diagonalize_symmetric)
SVD(svd_, svd)
SVD(rsvd, reorder_svd)
SVD(fssvd, fs_svd)

// real matrix, complex rotations
template <class S, int M, int N> void fssvdc(const V& v)
{
   const auto m = get<double, M, N>(v);
   Arr<MIN_(M, N)> s, ue, ve; Mat<C, M, M> u; Mat<C, N, N> w; double e;
   fs_svd(m, s, u, w); put("s0", s); put("u0", u); put("v0", w);
   fs_svd(m, s, u, w, e); put("s1", s); put("u1", u); put("v1", w); put("e1", e);
   fs_svd(m, s, u, w, e, ue, ve); put("s2", s); put("u2", u); put("v2", w); put("e2", e); put("ue", ue); put("ve", ve);
}

using Table = std::map<std::string, std::function<void(const V&)>>;
void fill_rh(Table&);
void fill_rs(Table&);
void fill_ch(Table&);
void fill_cs(Table&);
void fill_rv(Table&);
void fill_rw(Table&);
void fill_cv(Table&);
void fill_cw(Table&);
void fill_p(Table&);
#define SH(S, c, N) f["herm " c " " #N] = herm<S, N>; f["fsherm " c " " #N] = fsherm<S, N>;
#define SS(S, c, N) f["sym " c " " #N] = sym<S, N>; f["rsym " c " " #N] = rsym<S, N>; f["fssym " c " " #N] = fssym<S, N>;
#define RE(S, c, M, N) f["svd " c " " #M " " #N] = svd_<S, M, N>; f["rsvd " c " " #M " " #N] = rsvd<S, M, N>; f["fssvd " c " " #M " " #N] = fssvd<S, M, N>;
