// The data collector, driven by a script of images, transforms and requests; its files stay in a scratch directory.
#include "hcommon.h"
#include "ros_scratch.h"
#include <pluginlib/class_list_macros.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <ros/ros.h>
#include <sensor_msgs/image_encodings.h>
#include <tf2_ros/transform_listener.h>
#include <fstream>
#include <yaml-cpp/yaml.h>

int collector_main(int argc, char** argv);
XmlRpc::XmlRpcValue xmlrpc(const json& n);

namespace
{
// the script at work
const json* script = nullptr;
json said;

json known(int code)
{
  for (const auto& p : (*script)["pictures"]) if (integer(p["code"]) == code) return p;
  return json();
}
cv::Mat drawn(const cv::Mat& m, int code)
{
  cv::Mat r = m.clone();
  r.at<cv::Vec3b>(0, 0) = cv::Vec3b(uchar(255 - r.at<cv::Vec3b>(0, 0)[0]), uchar(code), uchar(code / 256));
  return r;
}
// what is to be found in a picture is known from the script
class ScriptedFinder : public rct_ros_tools::TargetFinderPlugin
{
public:
  void init(const YAML::Node& config) override { if (config["size"].as<int>() < 1) throw std::runtime_error("no such target"); }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& image) const override
  {
    const int code = whichPicture(image, (*script)["pictures"]);
    const json p = known(code);
    if (p.is_null()) throw std::runtime_error("harness: unknown picture");
    const std::string how = p["detect"];
    if (how == "none") throw std::runtime_error("no target");
    if (how == "cv") CV_Error(cv::Error::StsAssert, "no target");
    if (how == "logic") throw std::out_of_range("no target");
    rct_image_tools::TargetFeatures f;
    f[7].push_back(Eigen::Vector2d(code, 0));
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& image, const rct_image_tools::TargetFeatures& f) const override
  {
    return drawn(image, static_cast<int>(f.at(7).at(0).x()));
  }
  const rct_image_tools::Target& target() const override { throw std::logic_error("not needed"); }
};
const bool added = pluginlib::add<ScriptedFinder, rct_ros_tools::TargetFinderPlugin>("harness::ScriptedFinder");

sensor_msgs::ImagePtr message(const json& e, int seq)
{
  const cv::Mat m = picture(e["pic"]);
  auto s = boost::make_shared<sensor_msgs::Image>();
  s->header.seq = seq;
  s->header.stamp = ros::Time(1000 + seq, seq);
  s->header.frame_id = "camera_optical_frame";
  const std::string enc = e["enc"];
  s->encoding = enc;
  s->height = m.rows;
  s->width = m.cols;
  const int depth = enc == "mono16" ? 2 : enc == "mono8" ? 1 : 3;
  const int pad = integer(e["pad"]);
  s->step = m.cols * depth + pad;
  for (int y = 0; y < m.rows; ++y)
  {
    for (int x = 0; x < m.cols; ++x)
      if (m.channels() == 1)
        for (int k = 0; k < depth; ++k) s->data.push_back(depth == 2 && k == 1 ? 0 : m.at<uchar>(y, x));
      else
        for (int k = 0; k < 3; ++k) s->data.push_back(m.at<cv::Vec3b>(y, x)[enc == "rgb8" ? 2 - k : k]);
    for (int k = 0; k < pad; ++k) s->data.push_back(99);
  }
  const std::string bad = e["bad"];
  if (bad == "encoding") s->encoding = "nonsense";
  if (bad == "depth") { s->encoding = "32FC1"; s->step = 4 * m.cols; s->data.assign(s->step * m.rows, 1); }
  if (bad == "short") s->data.pop_back();
  if (bad == "step") { s->step = m.cols * depth - 1; s->data.resize(s->step * m.rows); }
  return s;
}
// a published message as the script knows it
json republished(const std::pair<std::string, sensor_msgs::ImageConstPtr>& p, const sensor_msgs::Image& in)
{
  const sensor_msgs::Image& m = *p.second;
  json o{ { "topic", p.first }, { "encoding", m.encoding }, { "code", -1 }, { "drawn", false } };
  o["header"] = m.header.seq == in.header.seq && m.header.stamp.sec == in.header.stamp.sec && m.header.stamp.nsec == in.header.stamp.nsec && m.header.frame_id == in.header.frame_id;
  if (m.encoding != "bgr8" || m.data.size() != m.step * m.height || m.step != 3 * m.width) return o;
  const cv::Mat x(m.height, m.width, CV_8UC3, const_cast<unsigned char*>(m.data.data()), m.step);
  const int code = whichPicture(x, (*script)["pictures"]);
  if (code >= 0) { o["code"] = code; return o; }
  for (const auto& q : (*script)["pictures"])
  {
    if (integer(q["w"]) != x.cols || integer(q["h"]) != x.rows) continue;
    cv::Mat plain = picture(q), col;
    if (plain.channels() == 1) { cv::Mat c[] = { plain, plain, plain }; cv::merge(c, 3, col); } else col = plain;
    const cv::Mat d = drawn(col, integer(q["code"]));
    bool same = true;
    for (int y = 0; y < x.rows && same; ++y) for (int k = 0; k < x.cols && same; ++k) same = x.at<cv::Vec3b>(y, k) == d.at<cv::Vec3b>(y, k);
    if (same) { o["code"] = q["code"]; o["drawn"] = true; return o; }
  }
  return o;
}
struct Sensor { bool there = false; double after = -1; Iso pose = Iso::Identity(); std::string why; } tf;
geometry_msgs::TransformStamped answer(const std::string& target, const std::string& source, ros::Time when, ros::Duration wait)
{
  const std::string b = (*script)["base"], t = (*script)["tool"];
  const bool inverse = target == ros_stub::plain(t) && source == ros_stub::plain(b) && b != t;
  if (!inverse && !(target == ros_stub::plain(b) && source == ros_stub::plain(t))) throw tf2::LookupException("frame does not exist");
  if (!when.isZero()) throw tf2::ExtrapolationException("lookup would require extrapolation into the future");
  if (!tf.there && !(tf.after >= 0 && wait.toSec() >= tf.after))
  {
    if (tf.why == "lookup") throw tf2::LookupException("frame does not exist");
    if (tf.why == "connect") throw tf2::ConnectivityException("two or more unconnected trees");
    if (tf.why == "time") throw tf2::TimeoutException("timeout");
    throw tf2::ExtrapolationException("lookup would require extrapolation");
  }
  const Iso p = inverse ? tf.pose.inverse() : tf.pose;
  const Eigen::Quaterniond q(p.linear());
  geometry_msgs::TransformStamped r;
  r.header.frame_id = target;
  r.child_frame_id = source;
  r.transform.translation.x = p.translation().x(); r.transform.translation.y = p.translation().y(); r.transform.translation.z = p.translation().z();
  r.transform.rotation.w = q.w(); r.transform.rotation.x = q.x(); r.transform.rotation.y = q.y(); r.transform.rotation.z = q.z();
  return r;
}
void setSensor(const json& j)
{
  tf.there = j["there"];
  tf.after = num(j["after"]);
  tf.pose = pose(j["pose"]);
  tf.why = j["why"];
}
json request(const std::string& name)
{
  auto f = ros_stub::bus().services.find(name);
  if (f == ros_stub::bus().services.end()) return "none";
  return f->second();
}
}  // namespace

static Reg r_collect("collect", [](const json& c) {
  Scratch s;
  script = &c;
  said = json::array();
  ros_stub::bus() = ros_stub::Bus();
  ros_stub::params() = XmlRpc::XmlRpcValue();
  ros_stub::params().begin();
  for (const auto& p : c["params"]) ros_stub::params()[p[0].get<std::string>()] = xmlrpc(p[1]);
  ros_stub::lookup() = answer;
  setSensor(c["start"]);
  const fs::path dir = s.root / c["dir"].get<std::string>();
  bool spun = false;
  ros_stub::bus().spin = [&] {
    spun = true;
    int seq = 0;
    for (const auto& e : c["events"])
    {
      const std::string what = e["do"];
      said.push_back(json{ { "died", true } });  // unless it gets further
      json o = json::object();
      if (what == "image")
      {
        const auto m = message(e, ++seq);
        const sensor_msgs::Image copy = *m;
        ros_stub::bus().published.clear();
        for (const auto& f : ros_stub::bus().subscribers[e["topic"].get<std::string>()]) f(m);
        o["pubs"] = json::array();
        for (const auto& p : ros_stub::bus().published) o["pubs"].push_back(republished(p, copy));
        o["kept"] = m->data == copy.data && m->encoding == copy.encoding;
      }
      else if (what == "tf") setSensor(e["tf"]);
      else if (what == "collect") o["ok"] = request("collect");
      else if (what == "save")
      {
        o["ok"] = request("save");
        boost::optional<rct_ros_tools::ExtrinsicDataSet> d;
        if (fs::is_regular_file(dir / "data.yaml")) d = rct_ros_tools::parseFromFile((dir / "data.yaml").string());
        o["loaded"] = static_cast<bool>(d);
        o["images"] = json::array();
        o["poses"] = json::array();
        if (d)
        {
          for (const auto& m : d->images) o["images"].push_back(whichPicture(m, c["pictures"]));
          for (const auto& p : d->tool_poses) o["poses"].push_back(out(p));
        }
      }
      else
      {
        // the directory is blocked, or free again
        boost::system::error_code x;
        const fs::path f = e["where"] == "images" ? dir / "images" : e["where"] == "index" ? dir / "data.yaml" : dir;
        fs::remove_all(f, x);
        if (what == "block")
        {
          fs::create_directories(f.parent_path(), x);
          if (e["where"] == "index") fs::create_directories(f / "keep", x);
          else std::ofstream(f.string()) << "in the way";
        }
      }
      o["died"] = false;
      said.back() = o;
    }
  };
  char name[] = "collector";
  char* argv[] = { name, nullptr };
  const int rc = collector_main(1, argv);
  return json{ { "rc", rc }, { "spun", spun }, { "events", said } };
});
