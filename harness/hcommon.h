// Shared by all harness operations: numbers, poses and JSON in and out.
#pragma once
#include <Eigen/Dense>
#include <nlohmann/json.hpp>
#include <functional>
#include <memory>
#include <typeinfo>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <rct_optimizations/types.h>
#include <rct_optimizations/covariance_types.h>

using json = nlohmann::json;
using Iso = Eigen::Isometry3d;

double num(const std::string& s);   // decimal, C hex float or "n/d"
double num(const json& j);
int integer(const json& j);
std::string out(double v);          // C hex float; "nan", "inf", "-inf" otherwise
json out(const Eigen::MatrixXd& m); // rows of numbers
json outv(const Eigen::VectorXd& v);
json out(const Iso& p);             // 12 numbers, row by row
Iso pose(const json& j);            // {"q":[w,x,y,z],"t":[x,y,z]} (q need not be normalised)
Eigen::VectorXd vec(const json& j);
Eigen::Vector2d vec2(const json& j);
Eigen::Vector3d vec3(const json& j);
rct_optimizations::CameraIntrinsics intr(const json& j);
rct_optimizations::Correspondence2D3D::Set corr2(const json& feats);
rct_optimizations::Correspondence3D3D::Set corr3(const json& feats);
json out(const rct_optimizations::CovarianceResult& c);

// what ceres::Solve saw since the start of the case (solve_hook.cpp)
struct SolveRecord { int termination; int num_residuals; double initial, final; int iterations; };
std::vector<SolveRecord>& solveRecords();
extern thread_local int g_force_iterations;      // >= 0: cut every solve off after this many iterations
extern thread_local int g_force_from_blocks;     // ... that has at least this many parameter blocks
extern thread_local std::set<int> g_cut_sizes;    // solves with that many residuals are cut off at once

using Op = std::function<json(const json&)>;
struct Reg { Reg(const char* name, Op op); };
std::map<std::string, Op>& ops();
json perform(const json& c);        // one call: its outcome, whatever it throws

// In a history, calls that are made on the same object share it (hist.cpp); otherwise every call makes its own.
std::shared_ptr<void> sharedObject(const std::string& key, const std::function<std::shared_ptr<void>()>& make);
template <class T, class F> std::shared_ptr<T> shared(const std::string& key, F make)
{
  return std::static_pointer_cast<T>(sharedObject(std::string(typeid(T).name()) + key, [&]() -> std::shared_ptr<void> { return std::shared_ptr<T>(make()); }));
}
extern bool g_share;
extern thread_local int t_lane;
