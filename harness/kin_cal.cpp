// kinematic calibration, its masks and its prior
#include "hcommon.h"
#include "values.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <rct_optimizations/maximum_likelihood.h>
// the library defines this function in a header: a name of its own for this copy
#define addSubsetParameterization addSubsetParameterizationOfTheHarness
#include <rct_optimizations/local_parameterization.h>
#undef addSubsetParameterization
using namespace rct_optimizations;

// a pose by angle-axis vector and translation
static Iso sixPose(const json& j)
{
  const Eigen::Vector3d r = vec3(j["r"]);
  const double n = r.norm();
  Eigen::Quaterniond q(std::cos(n / 2), 0, 0, 0);
  q.vec() = n > 0 ? Eigen::Vector3d(r / n * std::sin(n / 2)) : Eigen::Vector3d(r / 2);
  q.normalize();
  Iso p = Iso::Identity();
  if (n > 0) p.linear() = q.toRotationMatrix();
  p.translation() = vec3(j["t"]);
  return p;
}
static DHChain chain(const json& j)
{
  std::vector<DHTransform> ts;
  for (const auto& l : j["links"])
    ts.emplace_back(Eigen::Vector4d(vec(l["p"])), l["type"] == "0" ? DHJointType::LINEAR : DHJointType::REVOLUTE, l["name"].get<std::string>(), 7);
  return DHChain(ts, pose(j["base"]));
}
static std::vector<int> ints(const json& j) { std::vector<int> v; for (const auto& x : j) v.push_back(integer(x)); return v; }
static std::vector<int> dhMask(const json& j)
{
  Eigen::Array<bool, Eigen::Dynamic, 4> m(j.size(), 4);
  for (Eigen::Index r = 0; r < m.rows(); ++r) for (int k = 0; k < 4; ++k) m(r, k) = integer(j[r][k]) != 0;
  return createDHMask(m);
}
template <class P> static void common(P& p, const json& c, json& masks)
{
  p.camera_mount_to_camera_guess = sixPose(c["cam"]);
  p.target_mount_to_target_guess = sixPose(c["tgt"]);
  p.camera_base_to_target_base_guess = sixPose(c["base"]);
  p.camera_chain_offset_stdev = num(c["csd"]);
  p.target_chain_offset_stdev = num(c["tsd"]);
  p.label_camera_mount_to_camera = c["lab"]["cam"].get<std::string>();
  p.label_target_mount_to_target = c["lab"]["tgt"].get<std::string>();
  p.label_camera_base_to_target = c["lab"]["base"].get<std::string>();
  masks = json::array();
  for (int i = 0; i < 2; ++i)
  {
    p.mask[i] = dhMask(c["dhmask"][i]);
    masks.push_back(p.mask[i]);
    for (int x : ints(c["extra"][i])) p.mask[i].push_back(x);
  }
  for (int i = 2; i < 8; ++i) p.mask[i] = ints(c["mask"][i - 2]);
}
static json turn(const Iso& p)
{
  const Eigen::Quaterniond q(p.linear());
  const double n = q.vec().norm();
  return outv(n < 1e-150 ? Eigen::Vector3d(2 * q.vec()) : Eigen::Vector3d(q.vec() / n * 2 * std::atan2(q.w() < 0 ? -n : n, std::abs(q.w()))));
}
static json report(const KinematicCalibrationResult& r)
{
  return { { "converged", r.converged }, { "init", out(r.initial_cost_per_obs) }, { "final", out(r.final_cost_per_obs) },
           { "cam", out(r.camera_mount_to_camera) }, { "tgt", out(r.target_mount_to_target) }, { "base", out(r.camera_base_to_target_base) },
           { "coff", out(Eigen::MatrixXd(r.camera_chain_dh_offsets)) }, { "toff", out(Eigen::MatrixXd(r.target_chain_dh_offsets)) },
           { "camr", turn(r.camera_mount_to_camera) }, { "tgtr", turn(r.target_mount_to_target) }, { "baser", turn(r.camera_base_to_target_base) },
           { "cov", out(r.covariance) } };
}
// what is printed as a list ("- item"), by each thread
static thread_local std::string* g_told = nullptr;
struct Router : std::streambuf
{
  std::streambuf* was = nullptr;
  int overflow(int ch) override
  {
    if (ch == EOF) return 0;
    if (g_told) { g_told->push_back(static_cast<char>(ch)); return ch; }
    return was->sputc(static_cast<char>(ch));
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    if (g_told) { g_told->append(s, n); return n; }
    return was->sputn(s, n);
  }
  int sync() override { return g_told ? 0 : was->pubsync(); }
};
struct Told
{
  std::string text;
  template <class F> auto run(F f) -> decltype(f())
  {
    static Router* const router = [] { auto* r = new Router; r->was = std::cout.rdbuf(r); return r; }();
    (void)router;
    struct Back { Back(std::string* t) { g_told = t; } ~Back() { g_told = nullptr; } } back(&text);
    return f();
  }
  json items()
  {
    json r = json::array();
    std::stringstream lines(text);
    for (std::string l; std::getline(lines, l);)
    {
      const auto a = l.find_first_not_of(" \t");
      if (a != std::string::npos && l.compare(a, 2, "- ") == 0) r.push_back(l.substr(a + 2));
    }
    std::sort(r.begin(), r.end());  // (the order is that of the addresses)
    return r;
  }
};
static Reg r1("kincal", [](const json& c) {
  g_force_iterations = c.contains("iters") ? integer(c["iters"]) : -1;
  json masks, o;
  Told told;
  if (integer(c["dim"]) == 2)
  {
    KinematicCalibrationProblem2D3D p(chain(c["cchain"]), chain(c["tchain"]));
    common(p, c, masks);
    p.intr = intr(c["intr"]);
    for (const auto& v : c["views"])
    {
      KinObservation2D3D ob;
      ob.camera_chain_joints = vec(v["cj"]);
      ob.target_chain_joints = vec(v["tj"]);
      ob.correspondence_set = corr2(v["feats"]);
      p.observations.push_back(ob);
    }
    o = report(told.run([&] { return optimize(p); }));
  }
  else
  {
    KinematicCalibrationProblemPose6D p(chain(c["cchain"]), chain(c["tchain"]));
    common(p, c, masks);
    for (const auto& v : c["views"])
    {
      KinematicMeasurement m;
      m.camera_to_target = Iso::Identity();
      for (int i = 0; i < 3; ++i) for (int k = 0; k < 4; ++k) m.camera_to_target.matrix()(i, k) = num(v["x"][4 * i + k]);
      m.camera_chain_joints = vec(v["cj"]);
      m.target_chain_joints = vec(v["tj"]);
      p.observations.push_back(m);
    }
    ceres::Solver::Options opt;
    opt.max_num_iterations = integer(c["limit"]);
    opt.num_threads = integer(c["threads"]);
    o = report(told.run([&] { return optimize(p, num(c["weight"]), opt); }));
  }
  o["masks"] = masks;
  o["told"] = told.items();
  return o;
});
