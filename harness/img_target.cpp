// calibration targets
#include "hcommon.h"
#include "img_values.h"
using namespace rct_image_tools;
static json pts(const std::vector<Eigen::Vector3d>& v)
{
  json o = json::array();
  for (const auto& p : v) o.push_back(outv(p));
  return o;
}
static json points(const ArucoGridTarget& t)
{
  json o = json::array();
  for (const auto& p : t.points) o.push_back({ { "id", p.first }, { "at", pts(p.second) } });
  return o;
}
static json points(const CharucoGridTarget& t)
{
  json o = json::array();
  for (const auto& p : t.points) o.push_back({ { "id", p.first }, { "at", pts({ p.second }) } });
  return o;
}
static json points(const ModifiedCircleGridTarget& t)
{
  json o = json::array();
  const auto v = t.createPoints();
  for (std::size_t i = 0; i < v.size(); ++i) o.push_back({ { "id", i }, { "at", pts({ v[i] }) } });
  return o;
}
template <class T> static json say(const json& c)
{
  const T t = target<T>(c["t"]), other = target<T>(c["other"]), copy = target<T>(c["t"]);
  json o;
  o["points"] = points(t);
  TargetFeatures f;
  for (const auto& x : c["found"])
  {
    VectorEigenVector<2> v;
    for (const auto& p : x["at"]) v.push_back(vec2(p));
    f.emplace(x["id"].get<unsigned>(), v);
  }
  try
  {
    const Target& base = t;
    json x = json::array();
    for (const auto& p : base.createCorrespondences(f)) x.push_back({ outv(p.in_image), outv(p.in_target) });
    o["pairs"] = { { "ok", true }, { "x", x } };
  }
  catch (const std::exception& e) { o["pairs"] = { { "ok", false }, { "what", e.what() } }; }
  const T moved = t;
  o["self"] = t == t && moved == t;
  o["copy"] = t == copy && copy == t;
  o["eq"] = t == other;
  o["eqr"] = other == t;
  return o;
}
static Reg r1("target", [](const json& c) {
  if (c["t"]["kind"] == "aruco") return say<ArucoGridTarget>(c);
  if (c["t"]["kind"] == "charuco") return say<CharucoGridTarget>(c);
  return say<ModifiedCircleGridTarget>(c);
});
