#include <map>
#include <sstream>
#include <ceres/ceres.h>
// conversions and comparisons
#include "values.h"
#include <rct_optimizations/eigen_conversions.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/local_parameterization.h>
using namespace rct_optimizations;
using Jet = ceres::Jet<double, 3>;
static json six(const Pose6d& p)
{
  json r = json::array();
  for (double v : { p.rx(), p.ry(), p.rz(), p.x(), p.y(), p.z() }) r.push_back(out(v));
  return r;
}
static json v3(const double* p) { return { out(p[0]), out(p[1]), out(p[2]) }; }
static Reg r1("convert", [](const json& c) {
  json o{ { "steps", json::array() } };
  const Eigen::Vector3d v = vec3(c["v"]);
  Iso total = Iso::Identity();
  for (const auto& q : c["chain"])
  {
    const Iso p = pose(q);
    json s;
    const Pose6d a = poseEigenToCal(p);
    const Iso b = poseCalToEigen(a);
    s["six"] = six(a);
    s["back"] = out(b);
    s["six2"] = six(poseEigenToCal(b));
    total = poseCalToEigen(poseEigenToCal(total)) * b;
    s["total"] = out(total);
    s["totalsix"] = six(poseEigenToCal(total));
    s["pm"] = outv(b * v);
    double t[3];
    poseTransformPoint(a, v.data(), t);
    s["p6"] = v3(t);
    transformPoint(a.values.data(), a.values.data() + 3, v.data(), t);
    s["p6b"] = v3(t);
    Jet vj[3], tj[3];
    for (int i = 0; i < 3; ++i) vj[i] = Jet(v(i), i);
    poseTransformPoint(a, vj, tj);
    s["p6j"] = { out(tj[0].a), out(tj[1].a), out(tj[2].a) };
    inverseTransformPoint(a.values.data(), a.values.data() + 3, v.data(), t);
    s["inv"] = v3(t);
    o["steps"].push_back(s);
  }
  return o;
});
static Reg r2("sixvec", [](const json& c) {
  const Eigen::Vector3d r = vec3(c["r"]), t = vec3(c["t"]), v = vec3(c["v"]);
  const Pose6d p(std::array<double, 6>{ r(0), r(1), r(2), t(0), t(1), t(2) });
  const Iso e = poseCalToEigen(p);
  double w[3], u[3];
  poseTransformPoint(p, v.data(), w);
  inverseTransformPoint(p.values.data(), p.values.data() + 3, v.data(), u);
  return json{ { "pose", out(e) }, { "six", six(poseEigenToCal(e)) }, { "back", out(poseCalToEigen(poseEigenToCal(e))) },
               { "p6", v3(w) }, { "pm", outv(e * v) }, { "inv", v3(u) } };
});
static Reg r3("quat", [](const json& c) {
  Eigen::Vector4d n = vec(c["q"]);
  n.normalize();
  const double x[4] = { n(1), n(2), n(3), n(0) };
  const Eigen::Vector3d d = vec3(c["d"]);
  double y[4];
  EigenQuaternionPlus()(x, d.data(), y);
  return json{ { "q", { out(y[3]), out(y[0]), out(y[1]), out(y[2]) } } };
});
template <class V> static json cmp(const V& a, const V& b)
{
  return { { "aa", a == a }, { "bb", b == b }, { "ab", a == b }, { "ba", b == a } };
}
static Reg r4("eq", [](const json& c) -> json {
  const std::string t = c["type"];
  const json &a = c["a"], &b = c["b"];
  if (t == "intr") return cmp(intr(a["intr"]), intr(b["intr"]));
  if (t == "corr2") return cmp(corr2(json::array({ a["feat"] }))[0], corr2(json::array({ b["feat"] }))[0]);
  if (t == "corr3") return cmp(corr3(json::array({ a["feat"] }))[0], corr3(json::array({ b["feat"] }))[0]);
  if (t == "obs2") return cmp(observation<2>(a), observation<2>(b));
  if (t == "obs3") return cmp(observation<3>(a), observation<3>(b));
  if (t == "kin2") return cmp(kinObservation<2>(a), kinObservation<2>(b));
  if (t == "kin3") return cmp(kinObservation<3>(a), kinObservation<3>(b));
  if (t == "meas") return cmp(measurement(a), measurement(b));
  if (t == "hep2") return cmp(problem2(a), problem2(b));
  if (t == "hep3") return cmp(problem3(a), problem3(b));
  throw std::logic_error("type");
});
