// covariance reports of linear problems
#include "hcommon.h"
#include <rct_optimizations/covariance_analysis.h>
#include <sstream>
using namespace rct_optimizations;
namespace
{
struct Row : ceres::CostFunction
{
  std::vector<std::vector<double>> a;
  Row(const std::vector<std::vector<double>>& a_) : a(a_)
  {
    set_num_residuals(1);
    for (const auto& b : a) mutable_parameter_block_sizes()->push_back(b.size());
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override
  {
    r[0] = -1;
    for (std::size_t b = 0; b < a.size(); ++b)
      for (std::size_t k = 0; k < a[b].size(); ++k)
      {
        r[0] += a[b][k] * p[b][k];
        if (J && J[b]) J[b][k] = a[b][k];
      }
    return true;
  }
};
}
static Reg r1("cov", [](const json& c) {
  const auto sizes = c["sizes"].get<std::vector<int>>();
  std::vector<std::vector<double>> x{ { 0.5, 0.25 } };  // block 0: not in the problem
  for (int s : sizes) x.push_back(std::vector<double>(s, 0.125));
  ceres::Problem p;
  for (std::size_t b = 1; b < x.size(); ++b) p.AddParameterBlock(x[b].data(), x[b].size());
  const double unit = std::ldexp(1.0, c["unit"].get<int>());
  for (const auto& row : c["rows"])
  {
    auto v = row.get<std::vector<double>>();
    for (double& e : v) e *= unit;
    std::vector<std::vector<double>> a;
    std::vector<double*> ptr;
    std::size_t k = 0;
    for (std::size_t b = 1; b < x.size(); ++b)
    {
      std::vector<double> part(v.begin() + k, v.begin() + k + x[b].size());
      k += x[b].size();
      bool any = false;
      for (double q : part) any |= q != 0;
      if (!any) continue;
      a.push_back(part);
      ptr.push_back(x[b].data());
    }
    if (!ptr.empty()) p.AddResidualBlock(new Row(a), nullptr, ptr);
  }
  int off = 0;
  for (std::size_t b = 1; b < x.size(); ++b)
  {
    std::vector<int> held;
    for (int k : c["const"])
      if (k > off && k <= off + static_cast<int>(x[b].size())) held.push_back(k - off - 1);
    off += x[b].size();
    if (held.size() == x[b].size()) p.SetParameterBlockConstant(x[b].data());
    else if (!held.empty()) p.SetManifold(x[b].data(), new ceres::SubsetManifold(x[b].size(), held));
  }
  const json& q = c["req"];
  std::vector<const double*> blocks;
  for (int b : q["blocks"]) blocks.push_back(x[b].data());
  std::map<const double*, std::vector<std::string>> names;
  for (const auto& n : q["names"]) names[x[n["b"].get<int>()].data()] = n["n"].get<std::vector<std::string>>();
  std::map<const double*, std::vector<int>> masks;
  for (const auto& m : q["masks"])
  {
    auto& v = masks[x[m["b"].get<int>()].data()];
    for (int e : m["m"]) v.push_back(e - 1);
  }
  CovarianceResult r;
  if (q["all"] && q["named"]) r = computeCovariance(p, names, masks);
  else if (q["all"]) r = computeCovariance(p, masks);
  else if (q["named"]) r = computeCovariance(p, blocks, names, masks);
  else r = computeCovariance(p, blocks, masks);
  json order = json::array();
  std::vector<double*> all;
  p.GetParameterBlocks(&all);
  for (double* a : all)
    for (std::size_t b = 1; b < x.size(); ++b)
      if (x[b].data() == a) order.push_back(b);
  return json{ { "cov", out(r) }, { "order", order } };
});
static Reg r2("covmat", [](const json& c) {
  const std::size_t n = c["m"].size();
  Eigen::MatrixXd m(n, n);
  for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < n; ++k) m(i, k) = c["m"][i][k].get<double>() / std::ldexp(1.0, 2 * c["unit"].get<int>());
  if (c["rect"]) m.conservativeResize(n, n + 1);
  return json{ { "cov", out(computeCovarianceResults(m, c["names"].get<std::vector<std::string>>())) } };
});
static Reg r3("thresh", [](const json& c) {
  CovarianceResult r;
  for (const auto& p : c["corr"]) r.correlation_coeffs.push_back({ { p["a"].get<std::string>(), p["b"].get<std::string>() }, num(p["v"]) });
  json o{ { "got", json::array() }, { "printed", json::array() } };
  for (const auto& p : r.getCorrelationCoeffOutsideThreshold(num(c["t"])))
    o["got"].push_back({ { "a", p.names.first }, { "b", p.names.second }, { "v", out(p.value) } });
  std::istringstream is(r.printCorrelationCoeffAboveThreshold(num(c["t"])));
  std::string line;
  while (std::getline(is, line))
    if (!line.empty() && line[0] == 'p') o["printed"].push_back(line.substr(0, line.find(' ')));
  return o;
});
