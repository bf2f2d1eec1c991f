// Building the library's values from JSON.
#pragma once
#include "hcommon.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
namespace ro = rct_optimizations;
template <int D> typename ro::Correspondence<D, 3>::Set corrs(const json& j)
{
  if constexpr (D == 2) return corr2(j); else return corr3(j);
}
template <int D> ro::Observation<D, 3> observation(const json& j)
{
  ro::Observation<D, 3> o(pose(j["cm"]), pose(j["tm"]));
  o.correspondence_set = corrs<D>(j["feats"]);
  return o;
}
template <int D> ro::KinematicObservation<D, 3> kinObservation(const json& j)
{
  ro::KinematicObservation<D, 3> o;
  o.correspondence_set = corrs<D>(j["feats"]);
  o.camera_chain_joints = vec(j["cj"]);
  o.target_chain_joints = vec(j["tj"]);
  return o;
}
inline ro::KinematicMeasurement measurement(const json& j)
{
  ro::KinematicMeasurement m;
  m.camera_to_target = pose(j["x"]);
  m.camera_chain_joints = vec(j["cj"]);
  m.target_chain_joints = vec(j["tj"]);
  return m;
}
inline ro::ExtrinsicHandEyeProblem2D3D problem2(const json& j)
{
  ro::ExtrinsicHandEyeProblem2D3D p;
  p.intr = intr(j["intr"]);
  p.camera_mount_to_camera_guess = pose(j["cam"]);
  p.target_mount_to_target_guess = pose(j["tgt"]);
  for (const auto& v : j["obs"]) p.observations.push_back(observation<2>(v));
  return p;
}
inline ro::ExtrinsicHandEyeProblem3D3D problem3(const json& j)
{
  ro::ExtrinsicHandEyeProblem3D3D p;
  p.camera_mount_to_camera_guess = pose(j["cam"]);
  p.target_mount_to_target_guess = pose(j["tgt"]);
  for (const auto& v : j["obs"]) p.observations.push_back(observation<3>(v));
  return p;
}
