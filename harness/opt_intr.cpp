// intrinsic calibration and its validation
#include "values.h"
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
using namespace rct_optimizations;
json turns(const json& poses);
static Reg r1("intrinsic", [](const json& c) {
  g_force_iterations = c.contains("iters") ? integer(c["iters"]) : -1;
  g_force_from_blocks = 3;   // not the poses of the single images
  IntrinsicEstimationProblem p;
  for (const auto& i : c["imgs"]) p.image_observations.push_back(corr2(i));
  p.intrinsics_guess = intr(c["k"]);
  p.use_extrinsic_guesses = c["use"];
  for (const auto& g : c["guesses"]) p.extrinsic_guesses.push_back(pose(g));
  p.label_extr = c["label"];
  const auto r = optimize(p);
  json o{ { "converged", r.converged }, { "init", out(r.initial_cost_per_obs) }, { "final", out(r.final_cost_per_obs) },
          { "k", { out(r.intrinsics.fx()), out(r.intrinsics.fy()), out(r.intrinsics.cx()), out(r.intrinsics.cy()) } },
          { "poses", json::array() }, { "cov", out(r.covariance) } };
  for (double d : r.distortions) o["k"].push_back(out(d));
  for (const auto& q : r.target_transforms) o["poses"].push_back(out(q));
  o["turns"] = turns(o["poses"]);
  return o;
});
static Reg r2("splitdiff", [](const json& c) {
  g_force_iterations = integer(c["iters"]);
  const json& o = c["obs"][0];
  const auto r = measureVirtualTargetDiff(corr2(o["feats"]), intr(c["k"]), pose(o["guess"]), num(c["thr"]));
  return json{ { "x", out(r.t1_to_t2) }, { "pos", out(r.positional_error) }, { "ang", out(r.angular_error) } };
});
static Reg r3("splitacc", [](const json& c) {
  g_force_iterations = integer(c["iters"]);
  Observation2D3D::Set obs;
  for (const auto& o : c["obs"]) obs.push_back(observation<2>(o));
  const auto r = measureIntrinsicCalibrationAccuracy(obs, intr(c["k"]), pose(c["cam"]), pose(c["tgt"]), pose(c["base"]), num(c["thr"]));
  return json{ { "stat", { out(r.pos_error.first), out(r.pos_error.second), out(r.ang_error.first), out(r.ang_error.second) } } };
});
