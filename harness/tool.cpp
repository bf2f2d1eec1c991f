// One of the calibration tools of rct_examples: its main function, driven by a parameter server, data sets in a scratch
// directory and a scripted target finder. The solvers it calls answer as the script says and write down what they were asked.
#include "hcommon.h"
#include "ros_scratch.h"
#include <pluginlib/class_list_macros.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <ros/ros.h>
#include <opencv2/calib3d.hpp>
#include <opencv2/highgui.hpp>
#include <opencv2/imgcodecs.hpp>
#include <fstream>
#include <iostream>
#include <regex>
#include <yaml-cpp/yaml.h>

int tool_main(int argc, char** argv);
using namespace rct_optimizations;
using XmlRpc::XmlRpcValue;

namespace
{
const json* script = nullptr;
json events = json::array(), homog = json::array();
int solves = 0, pnps = 0;

json feats(const Correspondence2D3D::Set& s)
{
  json r = json::array();
  for (const auto& k : s) r.push_back({ { "u", outv(k.in_image) }, { "x", outv(k.in_target) } });
  return r;
}
json intrOut(const CameraIntrinsics& k) { return { out(k.fx()), out(k.fy()), out(k.cx()), out(k.cy()) }; }
json view(std::size_t c, std::size_t i, const json& cm, const json& tm, const Correspondence2D3D::Set& s)
{
  return { { "c", c }, { "i", i }, { "cm", cm }, { "tm", tm }, { "feats", feats(s) } };
}
const json none = json::array();
json asked(const char* kind) { return { { "e", "solve" }, { "kind", kind }, { "intr", none }, { "cam", none }, { "tgt", none }, { "base", none }, { "thr", "0" }, { "fix", false }, { "obs", none } }; }
void answer(const json& e)
{
  events.push_back(e);
  if (solves++ == integer((*script)["fail"])) throw OptimizationException("scripted failure");
}
Iso said(const char* where) { return pose((*script)["ans"][where]); }
Iso nextPnp() { const json& p = (*script)["ans"]["pnps"]; return pose(p[pnps++ % p.size()]); }
double val(int k) { return num((*script)["ans"]["nums"][k]); }
template <class R> void head(R& r, int k)
{
  const json& h = (*script)["ans"]["heads"];
  const json& x = h[k % h.size()];
  r.converged = x["conv"].get<bool>();
  r.initial_cost_per_obs = num(x["init"]);
  r.final_cost_per_obs = num(x["final"]);
}
void cams(std::vector<Iso>& to, const char* where, std::size_t n)
{
  for (std::size_t c = 0; c < n; ++c) to.push_back(pose((*script)["ans"][where][c]));
}

// a target of listed points
struct Points : rct_image_tools::Target
{
  Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override
  {
    Correspondence2D3D::Set s;
    for (const auto& x : f) s.emplace_back(x.second.at(0), vec3((*script)["points"].at(x.first)));
    return s;
  }
};
class ScriptedFinder : public rct_ros_tools::TargetFinderPlugin
{
public:
  void init(const YAML::Node& config) override { if (config["size"].as<int>() < 1) throw std::runtime_error("no such target"); }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& image) const override
  {
    const int code = whichPicture(image, (*script)["pictures"]);
    for (const auto& p : (*script)["pictures"])
    {
      if (integer(p["code"]) != code) continue;
      const std::string how = p["how"];
      if (how == "throw") throw std::runtime_error("no target");
      if (how == "cv") CV_Error(cv::Error::StsAssert, "no target");
      if (how == "logic") throw std::out_of_range("no target");
      rct_image_tools::TargetFeatures f;
      for (const auto& x : p["found"]) f[x["id"].get<unsigned>()].push_back(vec2(x["u"]));
      if (how == "bad") f[9999].push_back(Eigen::Vector2d(1, 2));
      return f;
    }
    throw std::runtime_error("no picture");
  }
  cv::Mat drawTargetFeatures(const cv::Mat& image, const rct_image_tools::TargetFeatures&) const override { return image.clone(); }
  const rct_image_tools::Target& target() const override { return target_; }
  Points target_;
};
const bool added = pluginlib::add<ScriptedFinder, rct_ros_tools::TargetFinderPlugin>("harness::ScriptedFinder");

int mostLike(const cv::Mat& m)
{
  int best = -1, most = m.rows * m.cols / 10;
  if (m.type() != CV_8UC3) return -1;
  for (const auto& p : (*script)["pictures"])
  {
    if (integer(p["w"]) != m.cols || integer(p["h"]) != m.rows) continue;
    int same = 0;
    for (int y = 0; y < m.rows; ++y)
      for (int x = 0; x < m.cols; ++x)
      {
        bool eq = true;
        for (int c = 0; c < 3; ++c) eq = eq && m.at<cv::Vec3b>(y, x)[c] == shade(integer(p["code"]), x, y, c);
        same += eq;
      }
    if (same > most) { most = same; best = integer(p["code"]); }
  }
  return best;
}

// the pixels of a picture that were drawn over
json marks(const cv::Mat& m, int code)
{
  json r = json::array();
  if (code < 0) return r;
  for (int y = 0; y < m.rows; ++y)
    for (int x = 0; x < m.cols; ++x)
      for (int c = 0; c < 3; ++c)
        if (m.at<cv::Vec3b>(y, x)[c] != shade(code, x, y, c)) { r.push_back({ x, y }); break; }
  return r;
}

void poseYaml(const fs::path& f, const json& j)
{
  const Iso p = pose(j);
  const Eigen::Quaterniond q(p.linear());
  std::ofstream o(f.string());
  o.precision(17);
  o << "x: " << p.translation().x() << "\ny: " << p.translation().y() << "\nz: " << p.translation().z() << "\nqx: " << q.x() << "\nqy: " << q.y() << "\nqz: " << q.z()
    << "\nqw: " << q.w() << "\n";
}
XmlRpcValue poseParam(const json& j)
{
  const Iso p = pose(j);
  const Eigen::Quaterniond q(p.linear());
  XmlRpcValue v;
  v["x"] = XmlRpcValue(p.translation().x()); v["y"] = XmlRpcValue(p.translation().y()); v["z"] = XmlRpcValue(p.translation().z());
  v["qx"] = XmlRpcValue(q.x()); v["qy"] = XmlRpcValue(q.y()); v["qz"] = XmlRpcValue(q.z()); v["qw"] = XmlRpcValue(q.w());
  return v;
}
XmlRpcValue intrParam(const json& j)
{
  XmlRpcValue v;
  const char* n[] = { "fx", "fy", "cx", "cy" };
  for (int k = 0; k < 4; ++k) v[n[k]] = XmlRpcValue(num(j[k]));
  return v;
}
// the pictures and poses of a camera, and the file that lists them
std::string store(const json& c, const json& cam, const fs::path& dir, bool flat)
{
  fs::create_directories(dir / "images");
  fs::create_directories(dir / "poses");
  std::string index;
  int k = 0;
  for (const auto& e : cam["entries"])
  {
    const std::string n = std::to_string(k++);
    for (const auto& p : c["pictures"])
      if (p["code"] == e["code"] && !e["gone"].get<bool>()) cv::imwrite((dir / "images" / (n + ".png")).string(), picture(p));
    poseYaml(dir / "poses" / (n + ".yaml"), e["pose"]);
    index += "- image: images/" + n + ".png\n" + (flat ? "" : "  pose: poses/" + n + ".yaml\n");
  }
  const std::string state = cam["state"], file = (dir / "data.yaml").string();
  if (state == "broken") index += "- [unclosed: {\n";
  if (state == "scalar") index = "nothing\n";
  if (state == "keyless") index += "- picture: none\n";
  if (state != "missing") std::ofstream(file) << index;
  return file;
}
XmlRpcValue parameters(const json& c, const fs::path& root)
{
  const std::string tool = c["tool"];
  const json& cams = c["cams"];
  XmlRpcValue p;
  p.begin();
  if (tool == "moving" || tool == "steps" || tool == "mpnp")
  {
    p["num_of_cameras"] = XmlRpcValue((int)cams.size());
    for (std::size_t k = 0; k < cams.size(); ++k)
    {
      XmlRpcValue v;
      v["data_path"] = XmlRpcValue(store(c, cams[k], root / ("set" + std::to_string(k)), false));
      v["intrinsics"] = intrParam(cams[k]["intr"]);
      v[tool == "mpnp" ? "base_to_camera" : "base_to_camera_guess"] = poseParam(cams[k]["guess"]);
      p["camera_" + std::to_string(k)] = v;
    }
    if (tool != "mpnp") p["wrist_to_target_guess"] = poseParam(c["tguess"]);
    if (tool == "steps") p["fix_first_camera"] = XmlRpcValue(c["fix"].get<bool>());
  }
  else
  {
    const json& cam = cams[0];
    p["intrinsics"] = intrParam(cam["intr"]);
    if (tool == "pnp")
    {
      store(c, cam, root / "set", false);
      p["image_path"] = XmlRpcValue((root / "set" / "images" / "0.png").string());
    }
    else if (tool == "noise")
    {
      p["data_file"] = XmlRpcValue(store(c, cam, root / "set", true));
      p["data_path"] = XmlRpcValue((root / "set").string());
    }
    else p["data_path"] = XmlRpcValue(store(c, cam, root / "set", false));
    if (tool == "wrist" || tool == "static") p["homography_threshold"] = XmlRpcValue(num(c["thr"]));
    if (tool == "wrist" || tool == "valid")
    {
      p["base_to_target_guess"] = poseParam(c["tguess"]);
      p["wrist_to_camera_guess"] = poseParam(cam["guess"]);
    }
    if (tool == "static")
    {
      p["wrist_to_target_guess"] = poseParam(c["tguess"]);
      p["base_to_camera_guess"] = poseParam(cam["guess"]);
    }
    if (tool == "noise") p["camera_to_target_guess"] = poseParam(c["tguess"]);
  }
  XmlRpcValue f;
  f["type"] = XmlRpcValue(std::string("harness::ScriptedFinder"));
  f["size"] = XmlRpcValue(1);
  p["target_finder"] = f;
  return p;
}
// the tree without / with another value at a path
XmlRpcValue damaged(XmlRpcValue v, const json& path, std::size_t at, const std::string& how)
{
  XmlRpcValue r;
  r.begin();
  for (auto& m : v)
  {
    if (m.first != path[at].get<std::string>()) r[m.first] = m.second;
    else if (at + 1 < path.size()) r[m.first] = damaged(m.second, path, at + 1, how);
    else if (how == "text") r[m.first] = XmlRpcValue(std::string("nothing"));
    else if (how == "zero") r[m.first] = XmlRpcValue(0);
  }
  return r;
}
json lines(const std::string& text)
{
  static const std::regex number("[-+]?(nan|inf|[0-9]+(\\.[0-9]*)?(e[-+]?[0-9]+)?)", std::regex::icase);
  json r = json::array();
  std::stringstream s(text);
  for (std::string l; std::getline(s, l);)
  {
    json n = json::array();
    std::string w, was;
    auto b = std::sregex_iterator(l.begin(), l.end(), number);
    std::size_t at = 0;
    for (auto i = b; i != std::sregex_iterator(); ++i)
    {
      const bool word = std::isalpha((unsigned char)(*i)[1].str()[0]);
      // ("nan" and "inf" within a word are not numbers)
      if (word && ((i->position() > 0 && std::isalpha((unsigned char)l[i->position() - 1])) || (i->position() + i->length() < (long)l.size() && std::isalpha((unsigned char)l[i->position() + i->length()])))) continue;
      was += l.substr(at, i->position() - at) + "#";
      at = i->position() + i->length();
      n.push_back(word ? json("nan") : json(out(std::stod(i->str()))));
    }
    was += l.substr(at);
    bool gap = false;
    for (char ch : was)
    {
      if (std::isspace((unsigned char)ch) || ch == '_') { gap = true; continue; }
      if (gap && !w.empty()) w += ' ';
      gap = false;
      w += (char)std::toupper((unsigned char)ch);
    }
    if (!w.empty()) r.push_back({ { "w", w }, { "n", n } });
  }
  return r;
}
}  // namespace

namespace rct_optimizations
{
// the library's function (compiled under another name), and what it says of which picture
Eigen::VectorXd calculateHomographyErrorReal(const Correspondence2D3D::Set& s, const CorrespondenceSampler& sampler);
Eigen::VectorXd calculateHomographyError(const Correspondence2D3D::Set& s, const CorrespondenceSampler& sampler)
{
  const Eigen::VectorXd r = calculateHomographyErrorReal(s, sampler);
  for (const auto& p : (*script)["pictures"])
  {
    bool same = p["found"].size() == s.size();
    // (in whatever order the correspondences are)
    for (std::size_t i = 0; same && i < s.size(); ++i)
    {
      const auto& f = p["found"][i];
      same = std::any_of(s.begin(), s.end(), [&](const Correspondence2D3D& k) {
        return k.in_image == vec2(f["u"]) && k.in_target == vec3((*script)["points"].at(f["id"].get<unsigned>()));
      });
    }
    if (same) homog.push_back({ { "code", p["code"] }, { "errs", outv(r) } });
  }
  return r;
}
ExtrinsicHandEyeResult optimize(const ExtrinsicHandEyeProblem2D3D& p)
{
  json e = asked("hand_eye");
  e["intr"].push_back(intrOut(p.intr));
  e["cam"].push_back(out(p.camera_mount_to_camera_guess));
  e["tgt"].push_back(out(p.target_mount_to_target_guess));
  for (std::size_t i = 0; i < p.observations.size(); ++i)
  {
    const auto& o = p.observations[i];
    e["obs"].push_back(view(1, i + 1, out(o.to_camera_mount), out(o.to_target_mount), o.correspondence_set));
  }
  answer(e);
  if (p.observations.empty()) throw OptimizationException("nothing observed");
  ExtrinsicHandEyeResult r;
  head(r, 0);
  r.camera_mount_to_camera = said("ca");
  r.target_mount_to_target = said("ta");
  return r;
}
ExtrinsicMultiStaticCameraMovingTargetResult optimize(const ExtrinsicMultiStaticCameraMovingTargetProblem& p)
{
  json e = asked("moving");
  bool any = false;
  for (const auto& k : p.intr) e["intr"].push_back(intrOut(k));
  for (const auto& g : p.base_to_camera_guess) e["cam"].push_back(out(g));
  e["tgt"].push_back(out(p.wrist_to_target_guess));
  for (std::size_t c = 0; c < p.image_observations.size(); ++c)
    for (std::size_t i = 0; i < p.image_observations[c].size(); ++i)
    {
      any = true;
      e["obs"].push_back(view(c + 1, i + 1, none, out(p.wrist_poses.at(c).at(i)), p.image_observations[c][i]));
    }
  answer(e);
  if (!any) throw OptimizationException("nothing observed");
  ExtrinsicMultiStaticCameraMovingTargetResult r;
  head(r, 0);
  cams(r.base_to_camera, "a", p.intr.size());
  r.wrist_to_target = said("ta");
  return r;
}
ExtrinsicMultiStaticCameraOnlyResult optimize(const ExtrinsicMultiStaticCameraOnlyProblem& p)
{
  json e = asked("only");
  bool any = false;
  for (const auto& k : p.intr) e["intr"].push_back(intrOut(k));
  for (const auto& g : p.base_to_camera_guess) e["cam"].push_back(out(g));
  for (const auto& g : p.base_to_target_guess) e["tgt"].push_back(out(g));
  e["fix"] = p.fix_first_camera;
  for (std::size_t c = 0; c < p.image_observations.size(); ++c)
    for (std::size_t i = 0; i < p.image_observations[c].size(); ++i)
    {
      any = true;
      e["obs"].push_back(view(c + 1, i + 1, none, none, p.image_observations[c][i]));
    }
  answer(e);
  if (!any) throw OptimizationException("nothing observed");
  ExtrinsicMultiStaticCameraOnlyResult r;
  head(r, 0);
  cams(r.base_to_camera, "a", p.intr.size());
  r.base_to_target = p.base_to_target_guess;
  return r;
}
ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult optimize(const ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem& p)
{
  json e = asked("wrist_only");
  for (const auto& k : p.intr) e["intr"].push_back(intrOut(k));
  for (const auto& g : p.base_to_camera_guess) e["cam"].push_back(out(g));
  e["tgt"].push_back(out(p.wrist_to_target_guess));
  for (std::size_t c = 0; c < p.image_observations.size(); ++c)
    for (std::size_t i = 0; i < p.image_observations[c].size(); ++i)
      e["obs"].push_back(view(c + 1, i + 1, none, out(p.wrist_poses.at(i)), p.image_observations[c][i]));
  answer(e);
  ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult r;
  head(r, 1);
  cams(r.base_to_camera, "b", p.intr.size());
  r.wrist_to_target = said("tb");
  return r;
}
PnPResult optimize(const PnPProblem& p)
{
  json e = asked("pnp");
  e["intr"].push_back(intrOut(p.intr));
  e["tgt"].push_back(out(p.camera_to_target_guess));
  e["obs"].push_back(view(1, 1, none, none, p.correspondences));
  answer(e);
  PnPResult r;
  head(r, 2 + pnps);
  r.camera_to_target = nextPnp();
  return r;
}
MultiCameraPnPResult optimize(const MultiCameraPnPProblem& p)
{
  json e = asked("mpnp");
  for (const auto& k : p.intr) e["intr"].push_back(intrOut(k));
  for (const auto& g : p.base_to_camera) e["cam"].push_back(out(g));
  e["tgt"].push_back(out(p.base_to_target_guess));
  for (std::size_t c = 0; c < p.image_observations.size(); ++c) e["obs"].push_back(view(c + 1, 1, none, none, p.image_observations[c]));
  answer(e);
  MultiCameraPnPResult r;
  head(r, 2 + pnps);
  r.base_to_target = nextPnp();
  return r;
}
IntrinsicEstimationResult optimize(const IntrinsicEstimationProblem& p)
{
  json e = asked("intr");
  e["intr"].push_back(intrOut(p.intrinsics_guess));
  e["fix"] = p.use_extrinsic_guesses;
  for (std::size_t i = 0; i < p.image_observations.size(); ++i) e["obs"].push_back(view(1, i + 1, none, none, p.image_observations[i]));
  answer(e);
  IntrinsicEstimationResult r;
  head(r, 0);
  for (int k = 0; k < 4; ++k) r.intrinsics.values[k] = val(k);
  for (int k = 0; k < 5; ++k) r.distortions[k] = val(4 + k);
  return r;
}
IntrinsicCalibrationAccuracyResult measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& obs, const CameraIntrinsics& intr, const Iso& cam, const Iso& tgt, const Iso& base, const double thr)
{
  json e = asked("valid");
  e["intr"].push_back(intrOut(intr));
  e["cam"].push_back(out(cam));
  e["tgt"].push_back(out(tgt));
  e["base"] = out(base);
  e["thr"] = out(thr);
  for (std::size_t i = 0; i < obs.size(); ++i) e["obs"].push_back(view(1, i + 1, out(obs[i].to_camera_mount), out(obs[i].to_target_mount), obs[i].correspondence_set));
  answer(e);
  if (obs.empty()) throw OptimizationException("nothing observed");
  IntrinsicCalibrationAccuracyResult r;
  r.pos_error = { val(9), val(10) };
  r.ang_error = { val(11), val(12) };
  return r;
}
PnPNoiseStat qualifyNoise2D(const std::vector<PnPProblem>& ps)
{
  json e = asked("noise");
  for (std::size_t i = 0; i < ps.size(); ++i)
  {
    e["intr"].push_back(intrOut(ps[i].intr));
    e["tgt"].push_back(out(ps[i].camera_to_target_guess));
    e["obs"].push_back(view(1, i + 1, none, none, ps[i].correspondences));
  }
  answer(e);
  if (ps.empty()) throw OptimizationException("nothing observed");
  PnPNoiseStat r;
  for (int k = 0; k < 3; ++k) { r.p_stat.mean(k) = val(k); r.p_stat.stdev(k) = val(3 + k); }
  r.q_stat.mean = Eigen::Quaterniond(val(6), val(7), val(8), val(9));
  r.q_stat.stdev = val(10);
  return r;
}
}  // namespace rct_optimizations

namespace cv
{
void namedWindow(const String&, int) {}
void destroyWindow(const String&) {}
void destroyAllWindows() {}
int waitKey(int) { return 0; }
void imshow(const String& w, InputArray m) { events.push_back({ { "e", "show" }, { "win", w }, { "code", mostLike(m.getMat()) }, { "marks", marks(m.getMat(), mostLike(m.getMat())) } }); }
double calibrateCamera(InputArrayOfArrays object, InputArrayOfArrays image, Size size, InputOutputArray k, InputOutputArray dist, OutputArrayOfArrays, OutputArrayOfArrays, int, TermCriteria)
{
  json e = asked("cvintr");
  const Mat m = k.getMat();
  e["intr"].push_back({ out(m.at<double>(0, 0)), out(m.at<double>(1, 1)), out(m.at<double>(0, 2)), out(m.at<double>(1, 2)) });
  e["base"] = { size.width, size.height };
  for (int i = 0; i < (int)object.total(); ++i)
  {
    Correspondence2D3D::Set s;
    const Mat x = object.getMat(i), u = image.getMat(i);
    for (int j = 0; j < (int)x.total(); ++j)
    {
      const auto a = x.at<Vec3f>(j);
      const auto b = u.at<Vec2f>(j);
      s.emplace_back(Eigen::Vector2d(b[0], b[1]), Eigen::Vector3d(a[0], a[1], a[2]));
    }
    e["obs"].push_back(view(1, i + 1, none, none, s));
  }
  answer(e);
  Mat r = (Mat_<double>(3, 3) << val(13), 0, val(15), 0, val(14), val(16), 0, 0, 1), d = (Mat_<double>(1, 5) << val(17), val(18), val(19), val(20), val(21));
  r.copyTo(k);
  d.copyTo(dist);
  return 0;
}
bool solvePnP(InputArray object, InputArray image, InputArray k, InputArray, OutputArray rvec, OutputArray tvec, bool, int)
{
  json e = asked("cvpnp");
  const Mat m = k.getMat(), x = object.getMat(), u = image.getMat();
  e["intr"].push_back({ out(m.at<double>(0, 0)), out(m.at<double>(1, 1)), out(m.at<double>(0, 2)), out(m.at<double>(1, 2)) });
  Correspondence2D3D::Set s;
  for (int j = 0; j < (int)x.total(); ++j)
  {
    const auto a = x.at<Vec3d>(j);
    const auto b = u.at<Vec2d>(j);
    s.emplace_back(Eigen::Vector2d(b[0], b[1]), Eigen::Vector3d(a[0], a[1], a[2]));
  }
  e["obs"].push_back(view(1, 1, none, none, s));
  answer(e);
  const Iso p = said("ta");
  const Eigen::AngleAxisd aa(p.linear());
  const Eigen::Vector3d v = aa.angle() * aa.axis();
  const Mat r = (Mat_<double>(3, 1) << v.x(), v.y(), v.z()), t = (Mat_<double>(3, 1) << p.translation().x(), p.translation().y(), p.translation().z());
  r.copyTo(rvec);
  t.copyTo(tvec);
  return true;
}
}  // namespace cv

static Reg r_tool("tool", [](const json& c) {
  Scratch scratch;
  script = &c;
  events = json::array();
  homog = json::array();
  XmlRpcValue p = parameters(c, scratch.root);
  if (!c["damage"]["path"].empty()) p = damaged(p, c["damage"]["path"], 0, c["damage"]["how"]);
  ros_stub::params() = p;
  ros_stub::log().clear();
  std::stringstream said;
  std::streambuf* was = std::cout.rdbuf(said.rdbuf());
  char name[] = "tool";
  char* argv[] = { name, nullptr };
  json o;
  try
  {
    o["rc"] = tool_main(1, argv);
    std::cout.rdbuf(was);
  }
  catch (...)
  {
    std::cout.rdbuf(was);
    // (a tool that lets an exception out of its main function is terminated)
    o["rc"] = "terminated";
  }
  o["rc"] = o["rc"] == 0 ? "good" : "bad";
  o["events"] = events;
  o["homog"] = homog;
  o["lines"] = lines(said.str());
  std::string log;
  for (const auto& m : ros_stub::log()) log += m.text + "\n";
  o["log"] = lines(log);
  return o;
});
