// noise qualification
#include "hcommon.h"
#include <rct_optimizations/validation/noise_qualification.h>
using namespace rct_optimizations;
static json quat(const Eigen::Quaterniond& q) { return { out(q.w()), out(q.x()), out(q.y()), out(q.z()) }; }
template <class P> static json stats(const std::vector<P>& p)
{
  PnPNoiseStat r;
  if constexpr (std::is_same_v<P, PnPProblem>) r = qualifyNoise2D(p); else r = qualifyNoise3D(p);
  return { { "m", outv(r.p_stat.mean) }, { "d", outv(r.p_stat.stdev) }, { "q", quat(r.q_stat.mean) }, { "s", out(r.q_stat.stdev) } };
}
template <class P> static json noise(const json& c)
{
  std::vector<P> p, p2;
  for (const auto& i : c["items"])
  {
    P x;
    x.camera_to_target_guess = pose(i["guess"]);
    constexpr int rows = std::is_same_v<P, PnPProblem> ? 2 : 3;
    if constexpr (rows == 2) { x.intr = intr(c["k"]); x.correspondences = corr2(i["feats"]); }
    else x.correspondences = corr3(i["feats"]);
    if (i["cut"]) g_cut_sizes.insert(rows * static_cast<int>(i["feats"].size()));
    p.push_back(x);
  }
  for (const auto& k : c["order"]) p2.push_back(p.at(integer(k) - 1));
  json each = json::array();
  for (const auto& x : p)
  {
    const PnPResult r = optimize(x);
    each.push_back({ { "converged", r.converged }, { "x", out(r.camera_to_target) }, { "q", quat(Eigen::Quaterniond(r.camera_to_target.rotation())) } });
  }
  json o{ { "each", each }, { "a", stats(p) }, { "b", stats(p2) } };
  g_cut_sizes.clear();
  return o;
}
static Reg r1("noise2", noise<PnPProblem>);
static Reg r2("noise3", noise<PnPProblem3D>);
static Reg r3("quats", [](const json& c) {
  std::vector<Eigen::Quaterniond> q, q2;
  for (const auto& i : c["items"])
  {
    const Eigen::VectorXd v = vec(i["q"]);
    q.push_back(Eigen::Quaterniond(v(0), v(1), v(2), v(3)).normalized());
  }
  for (const auto& k : c["order"]) q2.push_back(q.at(integer(k) - 1));
  const auto a = computeQuaternionStats(q), b = computeQuaternionStats(q2);
  return json{ { "a", { { "q", quat(a.mean) }, { "s", out(a.stdev) } } }, { "b", { { "q", quat(b.mean) }, { "s", out(b.stdev) } } }, { "mean", quat(computeQuaternionMean(q)) } };
});
