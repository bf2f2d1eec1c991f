// marker finders
#include "img_render.h"
#include "img_values.h"
using namespace rct_image_tools;
static json features(const TargetFeatures& f)
{
  json o = json::array();
  for (const auto& x : f)
  {
    json at = json::array();
    for (const auto& p : x.second) at.push_back(outv(p));
    o.push_back({ { "id", x.first }, { "at", at } });
  }
  return o;
}
struct Sheet
{
  double x, y, s;
  cv::Mat bits;
};
static cv::Mat picture(const json& c)
{
  const auto dict = cv::aruco::getPredefinedDictionary(integer(c["t"]["dict"]));
  const double black = integer(c["black"]), white = integer(c["white"]);
  std::vector<Sheet> sheets;
  for (const char* key : { "shown", "foreign" })
    for (const auto& m : c[key])
    {
      Sheet s{ num(m["x"]), num(m["y"]), num(m["s"]), cv::Mat() };
      const int n = dict->markerSize + 2;
      cv::aruco::drawMarker(dict, m["id"], n * 4, s.bits);
      cv::Mat small(n, n, CV_8UC1);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) small.at<uchar>(i, j) = s.bits.at<uchar>(4 * i + 2, 4 * j + 2);
      s.bits = small;
      sheets.push_back(s);
    }
  const bool chess = c["t"]["kind"] == "charuco";
  const int rows = integer(c["t"]["rows"]), cols = integer(c["t"]["cols"]);
  const double a = num(c["t"]["a"]);
  cv::Mat img = render(integer(c["w"]), integer(c["h"]), intr(c["intr"]), pose(c["pose"]), [&](double x, double y) {
    for (const auto& s : sheets)
      if (x >= s.x && y >= s.y && x < s.x + s.s && y < s.y + s.s)
      {
        const int n = s.bits.rows, i = std::min(n - 1, int((y - s.y) / s.s * n)), j = std::min(n - 1, int((x - s.x) / s.s * n));
        return s.bits.at<uchar>(i, j) ? white : black;
      }
    if (chess && x >= 0 && y >= 0 && x < cols * a && y < rows * a) return (int(x / a) + int(y / a)) % 2 ? white : black;
    return white;
  });
  disturb(img, integer(c["noise"]));
  const int tint = integer(c["tint"]);
  return tint > 0 ? tinted(img, tint) : channels(img, integer(c["channels"]));
}
static Reg r1("markers", [](const json& c) {
  cv::Mat image = picture(c);
  const cv::Mat kept = image.clone();
  savePicture(c, image);
  const auto finder = shared<TargetFinder>(c["t"].dump(), [&]() -> std::shared_ptr<TargetFinder> {
    if (c["t"]["kind"] == "aruco") return std::make_shared<ArucoGridBoardTargetFinder>(target<ArucoGridTarget>(c["t"]));
    return std::make_shared<CharucoGridBoardTargetFinder>(target<CharucoGridTarget>(c["t"]));
  });
  json o;
  TargetFeatures f;
  try { f = finder->findTargetFeatures(image); o["find"] = { { "ok", true }, { "x", features(f) } }; }
  catch (const std::exception& e) { o["find"] = { { "ok", false }, { "what", e.what() } }; }
  o["find_kept"] = sameImage(image, kept);
  // what the marker detector reads in this picture (the reader may miss markers: that limit is not the finder's)
  {
    std::vector<std::vector<cv::Point2f>> corners;
    std::vector<int> ids;
    cv::aruco::detectMarkers(kept, cv::aruco::getPredefinedDictionary(integer(c["t"]["dict"])), corners, ids);
    o["read"] = ids;
  }
  bool again = true;
  try { again = features(finder->findTargetFeatures(kept.clone())) == (o["find"]["ok"].get<bool>() ? o["find"]["x"] : json()); }
  catch (const std::exception&) { again = !o["find"]["ok"].get<bool>(); }
  o["again"] = again;
  image = kept.clone();
  const cv::Mat input = image;
  o["draw_ok"] = true;
  o["marked"] = true;
  try
  {
    const cv::Mat drawn = finder->drawTargetFeatures(input, f);
    if (drawn.size() != kept.size()) o["marked"] = false;
    else if (kept.channels() == 3)
      for (const auto& x : f)
        for (const auto& p : x.second)
        {
          const cv::Rect box = cv::Rect(cvRound(p.x()) - 5, cvRound(p.y()) - 5, 11, 11) & cv::Rect(0, 0, kept.cols, kept.rows);
          if (box.area() && sameImage(drawn(box).clone(), kept(box).clone())) o["marked"] = false;
        }
  }
  catch (const std::exception& e) { o["draw_ok"] = f.empty(); }
  o["draw_kept"] = sameImage(image, kept);
  return o;
});
