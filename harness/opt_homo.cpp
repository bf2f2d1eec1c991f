// homography check and its samplers
#include "hcommon.h"
#include <rct_optimizations/validation/homography_validation.h>
using namespace rct_optimizations;
static std::shared_ptr<CorrespondenceSampler> make(const json& s, int shift)
{
  if (s["kind"] == "grid")
    return std::make_shared<GridCorrespondenceSampler>(integer(s["rows"]), integer(s["cols"]), integer(s["stride"]));
  return std::make_shared<RandomCorrespondenceSampler>(integer(s["n"]), integer(s["samples"]), integer(s["seed"]) + shift);
}
static std::shared_ptr<CorrespondenceSampler> sampler(const json& s, int shift)
{
  return shared<CorrespondenceSampler>(s.dump() + std::to_string(shift), [&] { return make(s, shift); });
}
static json picks(const json& c)
{
  json o = json::array();
  for (int i = 0; i < integer(c["many"]); ++i)
  {
    json row = json::array();
    for (auto k : sampler(c["sampler"], i)->getSampleCorrespondenceIndices()) row.push_back(static_cast<long>(k));
    o.push_back(row);
  }
  return o;
}
static json again(const json& c)
{
  json o = json::array();
  for (int i = 0; i < integer(c["many"]); ++i)
  {
    const auto s = sampler(c["sampler"], i);
    s->getSampleCorrespondenceIndices();
    json row = json::array();
    for (auto k : s->getSampleCorrespondenceIndices()) row.push_back(static_cast<long>(k));
    o.push_back(row);
  }
  return o;
}
static Reg r1("homosample", [](const json& c) { return json{ { "picks", picks(c) }, { "again", again(c) } }; });
static Reg r2("homoerr", [](const json& c) {
  const auto s = sampler(c["sampler"], 0);
  const Eigen::VectorXd e = integer(c["dim"]) == 3 ? calculateHomographyError(corr3(c["feats"]), *s) : calculateHomographyError(corr2(c["feats"]), *s);
  return json{ { "err", outv(e) }, { "picks", picks(c) }, { "again", again(c) } };
});
