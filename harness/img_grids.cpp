// modified circle grid finder
#include "img_render.h"
#include "img_values.h"
using namespace rct_image_tools;
static json features(const TargetFeatures& f)
{
  json o = json::array();
  for (const auto& x : f)
  {
    json at = json::array();
    for (const auto& p : x.second) at.push_back(outv(p));
    o.push_back({ { "id", x.first }, { "at", at } });
  }
  return o;
}
static Reg r1("circlegrid", [](const json& c) {
  struct Dot { double x, y, r2; };
  std::vector<Dot> dots;
  for (const auto& d : c["dots"]) dots.push_back({ num(d["x"]), num(d["y"]), num(d["r"]) * num(d["r"]) });
  const bool negative = c["negative"];
  const double black = integer(c[negative ? "white" : "black"]), white = integer(c[negative ? "black" : "white"]);
  cv::Mat image = render(integer(c["w"]), integer(c["h"]), intr(c["intr"]), pose(c["pose"]), [&](double x, double y) {
    for (const auto& d : dots)
      if ((x - d.x) * (x - d.x) + (y - d.y) * (y - d.y) < d.r2) return black;
    return white;
  });
  disturb(image, integer(c["noise"]));
  const int tint = integer(c["tint"]);
  image = tint > 0 ? tinted(image, tint) : channels(image, integer(c["channels"]));
  savePicture(c, image);
  const cv::Mat kept = image.clone();
  // bright circles on dark ground are a matter of the detector's parameters
  CircleDetectorParams params;
  params.circleColor = 255;
  const auto made = shared<ModifiedCircleGridTargetFinder>(c["t"].dump() + (negative ? "-" : "+"), [&] {
    return negative ? std::make_shared<ModifiedCircleGridTargetFinder>(target<ModifiedCircleGridTarget>(c["t"]), params) : std::make_shared<ModifiedCircleGridTargetFinder>(target<ModifiedCircleGridTarget>(c["t"]));
  });
  const TargetFinder& finder = *made;
  json o;
  TargetFeatures f;
  try { f = finder.findTargetFeatures(image); o["find"] = { { "ok", true }, { "x", features(f) } }; }
  catch (const std::exception& e) { o["find"] = { { "ok", false }, { "what", e.what() } }; }
  o["find_kept"] = sameImage(image, kept);
  bool again = true;
  try { again = features(finder.findTargetFeatures(kept.clone())) == (o["find"]["ok"].get<bool>() ? o["find"]["x"] : json()); }
  catch (const std::exception&) { again = !o["find"]["ok"].get<bool>(); }
  o["again"] = again;
  o["draw_ok"] = true;
  try { o["draw_ok"] = finder.drawTargetFeatures(image, f).size() == kept.size(); }
  catch (const std::exception& e) { o["draw_ok"] = f.empty(); }
  o["draw_kept"] = sameImage(image, kept);
  return o;
});
