// documents: reading, and cycling values through nodes, text and files
#include "hcommon.h"
#include <rct_optimizations/serialization/problems.h>
#include <fstream>
#include <unistd.h>
using namespace rct_optimizations;
// ---- documents as the cases give them ----
static std::string yamlText(const json& n)
{
  const std::string t = n["t"];
  if (t == "null") return "~";
  if (t == "str") return "\"" + n["s"].get<std::string>() + "\"";
  if (t == "num")
  {
    const std::string s = n["s"];
    return s == "inf" ? ".inf" : s == "-inf" ? "-.inf" : s;
  }
  if (t == "bool") return n["s"];
  std::string r = t == "map" ? "{" : "[";
  for (std::size_t i = 0; i < n["v"].size(); ++i)
    r += (i ? ", " : "") + (t == "map" ? n["k"][i].get<std::string>() + ": " : std::string()) + yamlText(n["v"][i]);
  return r + (t == "map" ? "}" : "]");
}
static json tree(const YAML::Node& n)
{
  json r;
  if (n.IsNull() || !n.IsDefined()) return { { "t", "null" } };
  if (n.IsScalar())
  {
    const std::string s = n.Scalar();
    char* e = nullptr;
    std::strtod(s.c_str(), &e);
    if (s == ".inf" || s == "-.inf" || s == ".nan") return { { "t", "num" }, { "s", s == ".nan" ? "nan" : s[0] == '-' ? "-inf" : "inf" } };
    return { { "t", !s.empty() && !*e ? "num" : s == "true" || s == "false" ? "bool" : "str" }, { "s", s } };
  }
  r["v"] = json::array();
  if (n.IsSequence())
  {
    r["t"] = "seq";
    for (const auto& x : n) r["v"].push_back(tree(x));
    return r;
  }
  r["t"] = "map"; r["k"] = json::array();
  for (const auto& x : n) { r["k"].push_back(x.first.Scalar()); r["v"].push_back(tree(x.second)); }
  return r;
}
// ---- values from documents, without the code under test ----
static const json& get(const json& n, const char* k)
{
  for (std::size_t i = 0; i < n["k"].size(); ++i) if (n["k"][i] == k) return n["v"][i];
  throw std::logic_error(std::string("case has no ") + k);
}
static double dnum(const json& n, const char* k) { return num(get(n, k)["s"]); }
static void from(const json& n, Eigen::Vector2d& v) { v << dnum(n, "x"), dnum(n, "y"); }
static void from(const json& n, Eigen::Vector3d& v) { v << dnum(n, "x"), dnum(n, "y"), dnum(n, "z"); }
static void from(const json& n, Iso& p)
{
  Eigen::Quaterniond q(dnum(n, "qw"), dnum(n, "qx"), dnum(n, "qy"), dnum(n, "qz"));
  p = Iso::Identity();
  p.linear() = q.normalized().toRotationMatrix();
  p.translation() << dnum(n, "x"), dnum(n, "y"), dnum(n, "z");
}
static void from(const json& n, CameraIntrinsics& k) { k.fx() = dnum(n, "fx"); k.fy() = dnum(n, "fy"); k.cx() = dnum(n, "cx"); k.cy() = dnum(n, "cy"); }
template <Eigen::Index A, Eigen::Index B> static void from(const json& n, Correspondence<A, B>& c) { from(get(n, "in_image"), c.in_image); from(get(n, "in_target"), c.in_target); }
template <Eigen::Index A, Eigen::Index B> static void from(const json& n, Observation<A, B>& o);
template <class T, class A> static void from(const json& n, std::vector<T, A>& v) { for (const auto& x : n["v"]) { v.emplace_back(); from(x, v.back()); } }
template <Eigen::Index A, Eigen::Index B> static void from(const json& n, Observation<A, B>& o)
{
  from(get(n, "correspondences"), o.correspondence_set); from(get(n, "to_target_mount"), o.to_target_mount); from(get(n, "to_camera_mount"), o.to_camera_mount);
}
template <class P> static void problem(const json& n, P& p)
{
  from(get(n, "camera_mount_to_camera_guess"), p.camera_mount_to_camera_guess); from(get(n, "target_mount_to_target_guess"), p.target_mount_to_target_guess);
  from(get(n, "observations"), p.observations);
}
static void from(const json& n, ExtrinsicHandEyeProblem2D3D& p) { from(get(n, "intr"), p.intr); problem(n, p); }
static void from(const json& n, ExtrinsicHandEyeProblem3D3D& p) { problem(n, p); }
static Iso posRpy(const json& pos, const json& rpy)
{
  Eigen::Vector3d t, r;
  from(pos, t); from(rpy, r);
  Iso p = Iso::Identity();
  p.linear() = (Eigen::AngleAxisd(r.z(), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(r.y(), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(r.x(), Eigen::Vector3d::UnitX())).toRotationMatrix();
  p.translation() = t;
  return p;
}
static void from(const json& n, ExtrinsicHandEyeResult& r)
{
  r.converged = get(n, "converged")["s"] == "true";
  r.initial_cost_per_obs = dnum(n, "initial_cost_per_obs"); r.final_cost_per_obs = dnum(n, "final_cost_per_obs");
  r.target_mount_to_target = posRpy(get(n, "target_mount_to_target_pos"), get(n, "target_mount_to_target_rpy"));
  r.camera_mount_to_camera = posRpy(get(n, "camera_mount_to_camera_pos"), get(n, "camera_mount_to_camera_rpy"));
}
// ---- printing values ----
static json show(const Eigen::Vector2d& v) { return outv(v); }
static json show(const Eigen::Vector3d& v) { return outv(v); }
static json show(const Iso& p) { return out(p); }
static json show(const CameraIntrinsics& k) { return { out(k.fx()), out(k.fy()), out(k.cx()), out(k.cy()) }; }
template <Eigen::Index A, Eigen::Index B> static json show(const Correspondence<A, B>& c) { return { { "o", outv(c.in_image) }, { "p", outv(c.in_target) } }; }
template <Eigen::Index A, Eigen::Index B> static json show(const Observation<A, B>& o);
static json show(const DHTransform& t);
template <class T, class A> static json show(const std::vector<T, A>& v) { json r = json::array(); for (const auto& x : v) r.push_back(show(x)); return r; }
template <Eigen::Index A, Eigen::Index B> static json show(const Observation<A, B>& o) { return { { "feats", show(o.correspondence_set) }, { "tm", show(o.to_target_mount) }, { "cm", show(o.to_camera_mount) } }; }
static json show(const ExtrinsicHandEyeProblem2D3D& p) { return { { "intr", show(p.intr) }, { "cam", show(p.camera_mount_to_camera_guess) }, { "tgt", show(p.target_mount_to_target_guess) }, { "obs", show(p.observations) } }; }
static json show(const ExtrinsicHandEyeProblem3D3D& p) { return { { "cam", show(p.camera_mount_to_camera_guess) }, { "tgt", show(p.target_mount_to_target_guess) }, { "obs", show(p.observations) } }; }
static json show(const ExtrinsicHandEyeResult& r)
{
  return { { "converged", r.converged }, { "init", out(r.initial_cost_per_obs) }, { "final", out(r.final_cost_per_obs) }, { "cam", show(r.camera_mount_to_camera) }, { "tgt", show(r.target_mount_to_target) } };
}
static json joint(const Eigen::Vector4d& p, DHJointType t, const std::string& label)
{
  return { { "params", outv(p) }, { "type", t == DHJointType::LINEAR ? "0" : t == DHJointType::REVOLUTE ? "1" : "?" }, { "name", label.substr(0, label.size() - 2) } };
}
static json show(const DHTransform& t) { return joint(t.params, t.type, t.getParamLabels()[0]); }
static json show(const DHChain& c)
{
  json j = json::array();
  const auto table = c.getDHTable();
  const auto types = c.getJointTypes();
  const auto labels = c.getParamLabels();
  for (std::size_t i = 0; i < c.dof(); ++i) j.push_back(joint(table.row(i).transpose(), types.at(i), labels.at(i)[0]));
  return { { "base", show(c.getBaseOffset()) }, { "joints", j } };
}
// ---- equality as the library defines it ----
template <class T> static auto equal(const T& a, const T& b, int) -> decltype(a == b, bool()) { return a == b; }
static bool equal(const Iso& a, const Iso& b, int) { return a.isApprox(b, 1e-9) || !a.matrix().allFinite(); }
static bool equal(const ExtrinsicHandEyeResult&, const ExtrinsicHandEyeResult&, int) { return true; }
static bool equal(const std::vector<Iso>&, const std::vector<Iso>&, int) { return true; }
template <class T> static bool equal(const T&, const T&, long) { return true; }

template <class T> static json readAs(const json& c)
{
  const YAML::Node n = YAML::Load(yamlText(c["doc"]));
  return { { "val", show(n.as<T>()) } };
}
template <class T> static json cycle(const json& c)
{
  T v0;
  from(c["doc"], v0);
  json o{ { "val0", show(v0) }, { "vals", json::array() }, { "equal", json::array() } };
  T v = v0;
  for (int i = 0; i < integer(c["cycles"]); ++i)
  {
    YAML::Node n(v);
    if (i == 0) o["doc"] = tree(n);
    if (c["via"] == "text") { std::stringstream s; s << n; n = YAML::Load(s.str()); }
    if (c["via"] == "file")
    {
      const std::string f = "doc." + std::to_string(getpid()) + "." + std::to_string(t_lane) + ".yaml";
      { std::ofstream s(f); s << n; }
      n = YAML::LoadFile(f);
      std::remove(f.c_str());
    }
    v = n.as<T>();
    o["vals"].push_back(show(v));
    o["equal"].push_back(equal(v0, v, 0));
  }
  return o;
}
using Poses = std::vector<Iso>;
static Reg r1("cycle", [](const json& c) -> json {
  const std::string t = c["type"];
  if (t == "vec2") return cycle<Eigen::Vector2d>(c);
  if (t == "vec3") return cycle<Eigen::Vector3d>(c);
  if (t == "pose") return cycle<Iso>(c);
  if (t == "list pose") return cycle<Poses>(c);
  if (t == "intr") return cycle<CameraIntrinsics>(c);
  if (t == "corr2") return cycle<Correspondence2D3D>(c);
  if (t == "corr3") return cycle<Correspondence3D3D>(c);
  if (t == "obs2") return cycle<Observation2D3D>(c);
  if (t == "obs3") return cycle<Observation3D3D>(c);
  if (t == "prob2") return cycle<ExtrinsicHandEyeProblem2D3D>(c);
  if (t == "prob3") return cycle<ExtrinsicHandEyeProblem3D3D>(c);
  return cycle<ExtrinsicHandEyeResult>(c);
});
static Reg r2("read", [](const json& c) -> json {
  const std::string t = c["type"];
  if (t == "vec2") return readAs<Eigen::Vector2d>(c);
  if (t == "vec3") return readAs<Eigen::Vector3d>(c);
  if (t == "pose") return readAs<Iso>(c);
  if (t == "list pose") return readAs<Poses>(c);
  if (t == "intr") return readAs<CameraIntrinsics>(c);
  if (t == "corr2") return readAs<Correspondence2D3D>(c);
  if (t == "corr3") return readAs<Correspondence3D3D>(c);
  if (t == "obs2") return readAs<Observation2D3D>(c);
  if (t == "obs3") return readAs<Observation3D3D>(c);
  if (t == "prob2") return readAs<ExtrinsicHandEyeProblem2D3D>(c);
  if (t == "prob3") return readAs<ExtrinsicHandEyeProblem3D3D>(c);
  if (t == "dh") return readAs<DHTransform>(c);
  if (t == "chain") return readAs<DHChain>(c);
  return readAs<ExtrinsicHandEyeResult>(c);
});
