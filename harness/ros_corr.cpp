// Correspondence sets of several cameras; the finder is scripted: an image's first pixel says what is found in it.
#include "hcommon.h"
#include "img_values.h"
#include <rct_ros_tools/data_set.h>
using namespace rct_image_tools;
namespace
{
struct Scripted : TargetFinder
{
  Scripted(const Target& t, const json& s) : t_(t), script_(s) {}
  TargetFeatures findTargetFeatures(const cv::Mat& image) const override
  {
    const json& s = script_.at(image.at<unsigned short>(0, 0));
    if (s["how"] == "throw") throw std::runtime_error("nothing here");
    TargetFeatures f;
    for (const auto& x : s["found"])
    {
      VectorEigenVector<2> v;
      for (const auto& p : x["at"]) v.push_back(vec2(p));
      f.emplace(x["id"].get<unsigned>(), v);
    }
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& image, const TargetFeatures&) const override { return image; }
  const Target& target() const override { return t_; }
  const Target& t_;
  const json& script_;
};
template <class T> json say(const json& c)
{
  const T t = target<T>(c["t"]);
  const Scripted finder(t, c["script"]);
  std::vector<rct_ros_tools::ExtrinsicDataSet> sets;
  for (const auto& cam : c["cams"])
  {
    rct_ros_tools::ExtrinsicDataSet d;
    for (const auto& i : cam)
    {
      cv::Mat m(1, 1, CV_16UC1);
      m.at<unsigned short>(0, 0) = i.get<int>();
      d.images.push_back(m);
      d.tool_poses.push_back(Iso::Identity());
    }
    sets.push_back(d);
  }
  // leave something behind in the memory that is going to be used
  for (int k = 1; k < 4000; k += 8) { std::vector<unsigned> junk(k, 0xababababu); volatile unsigned x = junk[k / 2]; (void)x; }
  const rct_ros_tools::ExtrinsicCorrespondenceDataSet s(sets, finder, false);
  json o;
  o["cams"] = s.getCameraCount();
  o["images"] = s.getImageCount();
  o["percam"] = json::array();
  o["perimage"] = json::array();
  for (std::size_t k = 0; k < s.getCameraCount(); ++k) o["percam"].push_back(s.getCameraImageCount(k));
  for (std::size_t i = 0; i < s.getImageCount(); ++i) o["perimage"].push_back(s.getImageCameraCount(i));
  o["cell"] = json::array();
  for (std::size_t k = 0; k < s.getCameraCount(); ++k)
  {
    json row = json::array();
    for (std::size_t i = 0; i < s.getImageCount(); ++i)
    {
      json x = json::array();
      for (const auto& p : s.getCorrespondenceSet(k, i)) x.push_back({ outv(p.in_image), outv(p.in_target) });
      row.push_back({ { "found", s.foundCorrespondence(k, i) }, { "x", x } });
    }
    o["cell"].push_back(row);
  }
  return o;
}
}  // namespace
static Reg r_corr("corrset", [](const json& c) {
  if (c["t"]["kind"] == "aruco") return say<ArucoGridTarget>(c);
  if (c["t"]["kind"] == "charuco") return say<CharucoGridTarget>(c);
  return say<ModifiedCircleGridTarget>(c);
});
