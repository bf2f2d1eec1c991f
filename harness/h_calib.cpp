// op "solve": one calibration problem of any kind, built from views
//   {"kind","dim","intr":[..per camera..],"cam":[guess poses],"tgt":[guess poses],"fix":bool,
//    "views":[{"c","i","cm","tm","feats":[{"o","p"}]}], "iters": forced iteration limit or -1}
// "ni": number of images (rectangular kinds); c and i are 1-based.
#include "hcommon.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/circle_fit.h>

using namespace rct_optimizations;

template <class R> static json head(const R& r)
{
  return { { "converged", r.converged }, { "init", out(r.initial_cost_per_obs) }, { "final", out(r.final_cost_per_obs) } };
}
static json noCov() { return { { "sd", json::array() }, { "cov", json::array() }, { "corr", json::array() }, { "covm", json::array() }, { "corrm", json::array() } }; }

static void label(const json& c, const char* which, std::string& l) { if (c.contains("lab")) l = c["lab"][which]; }
// angle-axis vectors of poses given as 12 numbers
json turns(const json& poses)
{
  json r = json::array();
  for (const auto& p : poses)
  {
    Eigen::Matrix3d m;
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m(i, k) = num(p[4 * i + k]);
    const Eigen::Quaterniond q(m);
    const double n = q.vec().norm();
    r.push_back(outv(n < 1e-150 ? Eigen::Vector3d(2 * q.vec()) : Eigen::Vector3d(q.vec() / n * 2 * std::atan2(q.w() < 0 ? -n : n, std::abs(q.w())))));
  }
  return r;
}
json solveCalib(const json& c)
{
  const std::string kind = c["kind"];
  const int dim = integer(c["dim"]);
  g_force_iterations = c.contains("iters") ? integer(c["iters"]) : -1;
  std::vector<Iso> cam, tgt;
  for (const auto& p : c["cam"]) cam.push_back(pose(p));
  for (const auto& p : c["tgt"]) tgt.push_back(pose(p));
  std::vector<CameraIntrinsics> K;
  for (const auto& k : c["intr"]) K.push_back(intr(k));
  const json& V = c["views"];
  json o;
  if (kind == "hand_eye" && dim == 2)
  {
    ExtrinsicHandEyeProblem2D3D p;
    p.intr = K[0];
    p.camera_mount_to_camera_guess = cam[0];
    p.target_mount_to_target_guess = tgt[0];
    label(c, "cam", p.label_camera_mount_to_camera);
    label(c, "tgt", p.label_target_mount_to_target);
    for (const auto& v : V)
    {
      Observation2D3D ob(pose(v["cm"]), pose(v["tm"]));
      ob.correspondence_set = corr2(v["feats"]);
      p.observations.push_back(ob);
    }
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = { out(r.camera_mount_to_camera) };
    o["tgt"] = { out(r.target_mount_to_target) };
    o["cov"] = out(r.covariance);
  }
  else if (kind == "hand_eye")
  {
    ExtrinsicHandEyeProblem3D3D p;
    p.camera_mount_to_camera_guess = cam[0];
    p.target_mount_to_target_guess = tgt[0];
    label(c, "cam", p.label_camera_mount_to_camera);
    label(c, "tgt", p.label_target_mount_to_target);
    for (const auto& v : V)
    {
      Observation3D3D ob(pose(v["cm"]), pose(v["tm"]));
      ob.correspondence_set = corr3(v["feats"]);
      p.observations.push_back(ob);
    }
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = { out(r.camera_mount_to_camera) };
    o["tgt"] = { out(r.target_mount_to_target) };
    o["cov"] = out(r.covariance);
  }
  else if (kind == "ms_wrist")
  {
    ExtrinsicMultiStaticCameraMovingTargetProblem p;
    p.intr = K;
    p.base_to_camera_guess = cam;
    p.wrist_to_target_guess = tgt[0];
    label(c, "cam", p.label_base_to_camera);
    label(c, "tgt", p.label_wrist_to_target);
    p.wrist_poses.resize(cam.size());
    p.image_observations.resize(cam.size());
    for (const auto& v : V)
    {
      const int k = integer(v["c"]) - 1;
      p.wrist_poses[k].push_back(pose(v["tm"]));
      p.image_observations[k].push_back(corr2(v["feats"]));
    }
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = json::array();
    for (const auto& q : r.base_to_camera) o["cam"].push_back(out(q));
    o["tgt"] = { out(r.wrist_to_target) };
    o["cov"] = out(r.covariance);
  }
  else if (kind == "ms_only")
  {
    ExtrinsicMultiStaticCameraOnlyProblem p;
    p.fix_first_camera = c["fix"];
    p.intr = K;
    p.base_to_camera_guess = cam;
    p.base_to_target_guess = tgt;
    p.image_observations.assign(cam.size(), std::vector<Correspondence2D3D::Set>(tgt.size()));
    for (const auto& v : V) p.image_observations[integer(v["c"]) - 1][integer(v["i"]) - 1] = corr2(v["feats"]);
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = json::array();
    o["tgt"] = json::array();
    for (const auto& q : r.base_to_camera) o["cam"].push_back(out(q));
    for (const auto& q : r.base_to_target) o["tgt"].push_back(out(q));
    o["cov"] = noCov();
  }
  else if (kind == "ms_rig")
  {
    ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p;
    p.intr = K;
    p.base_to_camera_guess = cam;
    p.wrist_to_target_guess = tgt[0];
    const std::size_t ni = integer(c["ni"]);
    p.wrist_poses.resize(ni, Iso::Identity());
    p.image_observations.assign(cam.size(), std::vector<Correspondence2D3D::Set>(ni));
    for (const auto& v : V)
    {
      p.wrist_poses[integer(v["i"]) - 1] = pose(v["tm"]);
      p.image_observations[integer(v["c"]) - 1][integer(v["i"]) - 1] = corr2(v["feats"]);
    }
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = json::array();
    for (const auto& q : r.base_to_camera) o["cam"].push_back(out(q));
    o["tgt"] = { out(r.wrist_to_target) };
    o["cov"] = noCov();
  }
  else if (kind == "mc_pnp")
  {
    MultiCameraPnPProblem p;
    p.intr = K;
    p.base_to_camera = cam;
    p.base_to_target_guess = tgt[0];
    p.image_observations.resize(cam.size());
    for (const auto& v : V) p.image_observations[integer(v["c"]) - 1] = corr2(v["feats"]);
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = json::array();
    for (const auto& q : p.base_to_camera) o["cam"].push_back(out(q));
    o["tgt"] = { out(r.base_to_target) };
    o["cov"] = noCov();
  }
  else if (kind == "pnp" && dim == 2)
  {
    PnPProblem p;
    p.intr = K[0];
    p.correspondences = corr2(V[0]["feats"]);
    p.camera_to_target_guess = tgt[0];
    label(c, "tgt", p.label_camera_to_target_guess);
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = json::array();
    o["tgt"] = { out(r.camera_to_target) };
    o["cov"] = out(r.covariance);
  }
  else if (kind == "pnp")
  {
    PnPProblem3D p;
    p.correspondences = corr3(V[0]["feats"]);
    p.camera_to_target_guess = tgt[0];
    label(c, "tgt", p.label_camera_to_target_guess);
    const auto r = optimize(p);
    o = head(r);
    o["cam"] = json::array();
    o["tgt"] = { out(r.camera_to_target) };
    o["cov"] = out(r.covariance);
  }
  else throw std::logic_error("unknown kind " + kind);
  o["camr"] = turns(o["cam"]);
  o["tgtr"] = turns(o["tgt"]);
  return o;
}
static Reg r1("solve", solveCalib);

// op "circle": {"pts":[[x,y]..],"x","y","r","iters"}
json solveCircle(const json& c)
{
  g_force_iterations = c.contains("iters") ? integer(c["iters"]) : -1;
  CircleFitProblem p;
  for (const auto& q : c["pts"]) p.observations.push_back(vec2(q));
  p.x_center_initial = num(c["x"]);
  p.y_center_initial = num(c["y"]);
  p.radius_initial = num(c["r"]);
  const auto r = optimize(p);
  json o = head(r);
  o["x"] = out(r.x_center);
  o["y"] = out(r.y_center);
  o["r"] = out(r.radius);
  o["cov"] = out(r.covariance);
  return o;
}
static Reg r2("circle", solveCircle);
