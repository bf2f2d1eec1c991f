// Parameters of a (stand-in) parameter server and YAML files, read by the loaders of rct_ros_tools.
#include "hcommon.h"
#include "img_values.h"
#include <rct_ros_tools/exceptions.h>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <pluginlib/class_loader.h>
#include <ros/ros.h>
#include <boost/filesystem.hpp>
#include <cxxabi.h>
#include <fstream>
#include <unistd.h>

using XmlRpc::XmlRpcValue;
using namespace rct_image_tools;
namespace fs = boost::filesystem;

XmlRpcValue xmlrpc(const json& n)
{
  const std::string t = n["t"];
  if (t == "d") return XmlRpcValue(num(n["v"]));
  if (t == "i") return XmlRpcValue(integer(n["v"]));
  if (t == "b") return XmlRpcValue(n["v"] == "true");
  if (t == "s") return XmlRpcValue(n["v"].get<std::string>());
  XmlRpcValue v;
  if (t == "a")
  {
    v.setSize(0);
    for (std::size_t k = 0; k < n["v"].size(); ++k) v[(int)k] = xmlrpc(n["v"][k]);
    return v;
  }
  v.begin();  // makes it a struct
  for (const auto& m : n["v"]) v[m[0].get<std::string>()] = xmlrpc(m[1]);
  return v;
}

namespace
{
json tree(const YAML::Node& n)
{
  if (!n.IsDefined() || n.IsNull()) return { { "t", "n" } };
  if (n.IsScalar())
  {
    json o{ { "t", "v" }, { "s", n.Scalar() } };
    double d;
    o["d"] = YAML::convert<double>::decode(n, d) ? json(out(d)) : json("no");
    return o;
  }
  json v = json::array();
  if (n.IsSequence()) for (const auto& e : n) v.push_back(tree(e));
  else for (const auto& e : n) v.push_back({ e.first.Scalar(), tree(e.second) });
  return { { "t", n.IsSequence() ? "a" : "m" }, { "v", v } };
}
json intrJson(const rct_optimizations::CameraIntrinsics& k) { return { out(k.fx()), out(k.fy()), out(k.cx()), out(k.cy()) }; }
json params(const CircleDetectorParams& p)
{
  json o = json::object();
#define F(X) o[#X] = out((double)p.X)
  F(minThreshold); F(maxThreshold); F(nThresholds); F(minRepeatability); F(circleInclusionRadius); F(maxRadiusDiff); F(maxAverageEllipseError);
  F(filterByColor); F(circleColor); F(filterByArea); F(minArea); F(maxArea); F(filterByCircularity); F(minCircularity); F(maxCircularity);
  F(filterByInertia); F(minInertiaRatio); F(maxInertiaRatio); F(filterByConvexity); F(minConvexity); F(maxConvexity);
#undef F
  return o;
}
// what the finder of a plugin was made of
template <class B> struct Open : B { static const std::shared_ptr<const TargetFinder>& finder(const B& b) { return b.*(&Open::finder_); } };
json targetJson(const rct_ros_tools::TargetFinderPlugin& p)
{
  json o;
  const TargetFinder* f = Open<rct_ros_tools::TargetFinderPlugin>::finder(p).get();
  const Target* t = &p.target();
  if (auto c = dynamic_cast<const ModifiedCircleGridTarget*>(t))
  {
    o = { { "kind", "circle" }, { "rows", std::to_string(c->rows) }, { "cols", std::to_string(c->cols) }, { "a", out(c->spacing) } };
    o["params"] = params(dynamic_cast<const ModifiedCircleGridTargetFinder&>(*f).getCircleDetectorParams());
  }
  else if (auto c = dynamic_cast<const CharucoGridTarget*>(t))
  {
    const auto s = c->board->getChessboardSize();
    o = { { "kind", "charuco" }, { "rows", std::to_string(s.height) }, { "cols", std::to_string(s.width) }, { "a", out((double)c->board->getSquareLength()) }, { "b", out((double)c->board->getMarkerLength()) } };
    o["dict"] = -1;
    for (int d = 0; d <= 16; ++d)
    {
      const auto dic = cv::aruco::getPredefinedDictionary(d);
      if (dic->markerSize == c->board->dictionary->markerSize && dic->bytesList.rows == c->board->dictionary->bytesList.rows) { o["dict"] = d; break; }
    }
  }
  else o = { { "kind", "?" } };
  return o;
}
}  // namespace

static Reg r_config("config", [](const json& c) {
  ros_stub::params() = xmlrpc(c["params"]);
  const ros::NodeHandle nh("~");
  char dir[] = "/tmp/rct-config-XXXXXX";
  if (!mkdtemp(dir)) throw std::runtime_error("no scratch directory");
  const std::string file = std::string(dir) + "/file.yaml";
  json results = json::array();
  for (const auto& k : c["calls"])
  {
    const std::string what = k["call"];
    const std::string key = k.value("key", std::string());
    if (k.contains("text")) { if (k["missing"].get<bool>()) fs::remove(file); else std::ofstream(file) << k["text"].get<std::string>(); }
    ros_stub::log().clear();
    auto attempt = [](std::function<json()> f) {
      json o;
      try { o = f(); o["ok"] = true; }
      catch (const std::exception& e)
      {
        int st;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        o = json{ { "ok", false }, { "type", n ? n : "?" }, { "what", e.what() } };
        std::free(n);
      }
      catch (const XmlRpc::XmlRpcException& e) { o = json{ { "ok", false }, { "type", "XmlRpc::XmlRpcException" }, { "what", e.getMessage() } }; }
      return o;
    };
    auto flag = [](bool b) { if (!b) throw std::runtime_error("returned false"); };
    json o;
    if (what == "intr")
    {
      o["a"] = attempt([&] { return json{ { "x", intrJson(rct_ros_tools::loadIntrinsics(nh, key)) } }; });
      o["b"] = attempt([&] { rct_optimizations::CameraIntrinsics i; flag(rct_ros_tools::loadIntrinsics(nh, key, i)); return json{ { "x", intrJson(i) } }; });
    }
    else if (what == "fintr")
    {
      o["a"] = attempt([&] { return json{ { "x", intrJson(rct_ros_tools::loadIntrinsics(file)) } }; });
      o["b"] = attempt([&] { rct_optimizations::CameraIntrinsics i; flag(rct_ros_tools::loadIntrinsics(file, i)); return json{ { "x", intrJson(i) } }; });
    }
    else if (what == "pose")
    {
      o["a"] = attempt([&] { return json{ { "x", out(rct_ros_tools::loadPose(nh, key)) } }; });
      o["b"] = attempt([&] { Iso i; flag(rct_ros_tools::loadPose(nh, key, i)); return json{ { "x", out(i) } }; });
    }
    else if (what == "fpose")
    {
      o["a"] = attempt([&] { return json{ { "x", out(rct_ros_tools::loadPose(file)) } }; });
      o["b"] = attempt([&] { Iso i; flag(rct_ros_tools::loadPose(file, i)); return json{ { "x", out(i) } }; });
    }
    else if (what == "yaml")
    {
      XmlRpcValue v;
      nh.getParam(key, v);
      o["a"] = attempt([&] { return json{ { "x", tree(rct_ros_tools::toYAML(v)) } }; });
    }
    else if (what == "target")
    {
      // as the applications do it
      o["a"] = attempt([&] {
        XmlRpcValue config;
        if (!nh.getParam(key, config)) throw std::runtime_error("no parameter");
        const std::string type = static_cast<std::string>(config["type"]);
        pluginlib::ClassLoader<rct_ros_tools::TargetFinderPlugin> loader("rct_ros_tools", "rct_ros_tools::TargetFinderPlugin");
        boost::shared_ptr<rct_ros_tools::TargetFinderPlugin> f = loader.createInstance(type);
        f->init(rct_ros_tools::toYAML(config));
        return json{ { "x", targetJson(*f) } };
      });
    }
    int warned = 0;
    for (const auto& m : ros_stub::log()) warned += m.level == 'W' || m.level == 'E' || m.level == 'F';
    o["warned"] = warned;
    results.push_back(o);
  }
  fs::remove_all(dir);
  return json{ { "calls", results }, { "defaults", params(CircleDetectorParams()) } };
});
