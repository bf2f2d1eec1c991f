// projection: forwards and backwards
#include "hcommon.h"
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/validation/projection.h>
#include <rct_image_tools/image_utils.h>
#include <ceres/jet.h>
using namespace rct_optimizations;
using Jet = ceres::Jet<double, 3>;

static Reg r1("project", [](const json& c) {
  const CameraIntrinsics k = intr(c["intr"]);
  json o{ { "a", json::array() }, { "b", json::array() }, { "c", json::array() }, { "d", json::array() } };
  for (const auto& q : c["pts"])
  {
    const Eigen::Vector3d p = vec3(q);
    double uv[2];
    projectPoint(k, p.data(), uv);
    o["a"].push_back({ out(uv[0]), out(uv[1]) });
    const Eigen::Vector2d w = projectPoint<double>(k, p);
    o["b"].push_back(outv(w));
    Eigen::Matrix<Jet, 3, 1> pj;
    for (int i = 0; i < 3; ++i) pj(i) = Jet(p(i), i);
    Jet uj[2];
    projectPoint(k, pj.data(), uj);
    o["c"].push_back({ out(uj[0].a), out(uj[1].a) });
    const Eigen::Matrix<Jet, 2, 1> wj = projectPoint<Jet>(k, pj);
    o["d"].push_back({ out(wj(0).a), out(wj(1).a) });
  }
  return o;
});
static Reg r2("reproj", [](const json& c) {
  std::vector<Eigen::Vector3d> pts;
  for (const auto& q : c["pts"]) pts.push_back(vec3(q));
  json o{ { "pix", json::array() } };
  for (const auto& p : rct_image_tools::getReprojections(pose(c["x"]), intr(c["intr"]), pts)) o["pix"].push_back({ out(p.x), out(p.y) });
  return o;
});
static Reg r3("plane", [](const json& c) {
  return json{ { "x", outv(computeLinePlaneIntersection(vec3(c["n"]), vec3(c["p"]), vec3(c["l"]), vec3(c["a"]))) } };
});
static Eigen::Matrix3d kmat(const CameraIntrinsics& i)
{
  Eigen::Matrix3d k;
  k << i.fx(), 0, i.cx(), 0, i.fy(), i.cy(), 0, 0, 1;
  return k;
}
static Reg r4("back", [](const json& c) {
  Eigen::MatrixX2d u(c["pix"].size(), 2);
  for (std::size_t i = 0; i < c["pix"].size(); ++i) u.row(i) = vec2(c["pix"][i]).transpose();
  const Eigen::MatrixX3d p = project3D(u, pose(c["x"]), kmat(intr(c["intr"])));
  return json{ { "pts", out(Eigen::MatrixXd(p)) } };
});
static Reg r5("err3d", [](const json& c) {
  Observation2D3D::Set s;
  for (const auto& v : c["obs"])
  {
    Observation2D3D o(pose(v["cm"]), pose(v["tm"]));
    o.correspondence_set = corr2(v["feats"]);
    s.push_back(o);
  }
  const auto k = intr(c["intr"]);
  const Iso cam = pose(c["cam"]), tgt = pose(c["tgt"]);
  json o{ { "all", outv(compute3DProjectionError(s, k, cam, tgt)) }, { "each", json::array() } };
  for (const auto& ob : s) o["each"].push_back(outv(compute3DProjectionError(ob, k, cam, tgt)));
  return o;
});
