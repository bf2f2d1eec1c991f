// The installed Ceres renamed local parameterizations to manifolds; the library still uses the old names.
#pragma once
#include <ceres/manifold.h>
#include <ceres/autodiff_manifold.h>
namespace ceres
{
using LocalParameterization = Manifold;
using SubsetParameterization = SubsetManifold;
}
#ifndef SetParameterization
#define SetParameterization SetManifold
#endif
