// image tool values from JSON
#pragma once
#include "hcommon.h"
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/aruco_grid_target.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/charuco_grid_target.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_image_tools/modified_circle_grid_target.h>
template <class T> T target(const json& j);
template <> inline rct_image_tools::ArucoGridTarget target(const json& j)
{
  const int first = integer(j["first"]);
  const float a = num(j["a"]), b = num(j["b"]);
  if (first == 0) return rct_image_tools::ArucoGridTarget(integer(j["rows"]), integer(j["cols"]), a, b, integer(j["dict"]));
  return rct_image_tools::ArucoGridTarget(cv::aruco::GridBoard::create(integer(j["cols"]), integer(j["rows"]), a, b, cv::aruco::getPredefinedDictionary(integer(j["dict"])), first));
}
template <> inline rct_image_tools::CharucoGridTarget target(const json& j)
{
  return rct_image_tools::CharucoGridTarget(integer(j["rows"]), integer(j["cols"]), float(num(j["a"])), float(num(j["b"])), integer(j["dict"]));
}
template <> inline rct_image_tools::ModifiedCircleGridTarget target(const json& j)
{
  return rct_image_tools::ModifiedCircleGridTarget(integer(j["rows"]), integer(j["cols"]), num(j["a"]));
}
