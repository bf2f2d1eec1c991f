// kinematic chains
#include "hcommon.h"
#include <rct_optimizations/dh_chain.h>
#include <ceres/jet.h>
using namespace rct_optimizations;
using J = ceres::Jet<double, 1>;
template <class F> static json ask(F f)
{
  try { return { { "ok", true }, { "x", out(f()) } }; }
  catch (const std::exception& e) { return { { "ok", false }, { "what", e.what() } }; }
}
static json describe(const DHChain& c, int draws)
{
  json o{ { "dof", c.dof() }, { "table", out(Eigen::MatrixXd(c.getDHTable())) }, { "types", json::array() }, { "labels", json::array() }, { "base", out(c.getBaseOffset()) }, { "random", json::array() } };
  for (auto t : c.getJointTypes()) o["types"].push_back(t == DHJointType::LINEAR ? "0" : t == DHJointType::REVOLUTE ? "1" : "?");
  for (const auto& l : c.getParamLabels()) o["labels"].push_back({ l[0], l[1], l[2], l[3] });
  for (int i = 0; i < draws; ++i) o["random"].push_back(outv(c.createUniformlyRandomPose()));
  return o;
}
static Reg r1("fk", [](const json& c) {
  std::vector<DHTransform> ts;
  for (const auto& l : c["links"])
  {
    DHTransform t(Eigen::Vector4d(vec(l["p"])), l["type"] == "0" ? DHJointType::LINEAR : DHJointType::REVOLUTE, l["name"].get<std::string>(), 7);
    t.min = num(l["lim"][0]);
    t.max = num(l["lim"][1]);
    ts.push_back(t);
  }
  // (a chain that is asked for random poses goes on with its sequence)
  const auto made = integer(c["draws"]) ? std::make_shared<DHChain>(ts, pose(c["base"])) : shared<DHChain>(c["links"].dump() + c["base"].dump(), [&] { return std::make_shared<DHChain>(ts, pose(c["base"])); });
  const DHChain& chain = *made;
  const Eigen::VectorXd js = vec(c["js"]);
  Eigen::MatrixX4d offs(c["offs"].size(), 4);
  for (Eigen::Index i = 0; i < offs.rows(); ++i) offs.row(i) = vec(c["offs"][i]).transpose();
  json o;
  o["fk"] = ask([&] { return Iso(chain.getFK<double>(js)); });
  o["fko"] = ask([&] { return Iso(chain.getFK<double>(js, offs)); });
  o["jet"] = ask([&] {
    const Eigen::Matrix<J, Eigen::Dynamic, 1> jj = js.cast<J>();
    const auto x = chain.getFK<J>(jj);
    Iso p = Iso::Identity();
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 4; ++k) p.matrix()(i, k) = x.matrix()(i, k).a;
    return p;
  });
  o["chain"] = ask([&] { return Iso(DHChain(chain, offs).getFK<double>(js)); });
  o["rel"] = json::array();
  for (std::size_t i = 0; i < ts.size(); ++i) o["rel"].push_back(ask([&] { return Iso(ts[i].createRelativeTransform<double>(0.6)); }));
  o["asked"] = ask([&] { return chain.getRelativeTransform(integer(c["ask"]), 0.6); });
  o["desc"] = describe(chain, integer(c["draws"]));
  if (offs.rows() >= static_cast<Eigen::Index>(ts.size())) o["odesc"] = describe(DHChain(chain, offs), integer(c["draws"]));
  return o;
});
