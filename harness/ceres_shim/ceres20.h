// What the library's kinematic calibration expects of the Ceres it was written for (2.0): a Jet is NaN if any part is.
#pragma once
#include <ceres/jet.h>
#include <cmath>
namespace ceres
{
inline bool IsNaN20(double x) { return std::isnan(x); }
template <typename T, int N> inline bool IsNaN20(const Jet<T, N>& x)
{
  if (std::isnan(x.a)) return true;
  for (int i = 0; i < N; ++i) if (std::isnan(x.v[i])) return true;
  return false;
}
}
#define IsNaN IsNaN20
