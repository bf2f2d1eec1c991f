// circle detector
#include "img_render.h"
#include <rct_image_tools/circle_detector.h>
using namespace rct_image_tools;
struct Blot
{
  std::string kind;
  double x, y, a, b, u, v, g, w, cr, cg;
  Blot(const json& j) : kind(j["kind"]), x(num(j["x"])), y(num(j["y"])), a(num(j["a"])), b(num(j["b"])), u(num(j["u"])), v(num(j["v"])), g(integer(j["g"])), w(num(j["w"])), cr(num(j["cr"])), cg(integer(j["cg"])) {}
  // share of the shape's colour at (px, py), and whether the point is in its core
  double share(double px, double py, bool& core) const
  {
    const double dx = px - x, dy = py - y, p = std::abs(dx * u + dy * v), q = std::abs(dy * u - dx * v), r = std::hypot(dx, dy);
    core = r < cr;
    if (kind == "disc") return r < a ? 1 : (w > 0 && r < a + w) ? (a + w - r) / w : 0;
    if (kind == "ring") return r < a && r > a - b;
    if (kind == "ellipse") return (p * p) / (a * a) + (q * q) / (b * b) < 1;
    if (kind == "rect") return p < a && q < b;
    return (p < a && q < b) || (q < a && p < b);
  }
};
static cv::Mat paint(const json& c)
{
  std::vector<Blot> blots;
  for (const char* k : { "shapes", "cut" })
    for (const auto& j : c[k]) blots.emplace_back(j);
  const double bg = integer(c["bg"]);
  cv::Mat img(integer(c["h"]), integer(c["w"]), CV_8UC1);
  const int n = 4;
  for (int v = 0; v < img.rows; ++v)
    for (int u = 0; u < img.cols; ++u)
    {
      double s = 0;
      const Blot* near = nullptr;
      for (const auto& b : blots)
        if (std::abs(u - b.x) < 3.3 * b.a + 8 && std::abs(v - b.y) < 3.3 * b.a + 8 && std::hypot(u - b.x, v - b.y) < 1.5 * b.a + b.b + b.w + 3)
        {
          double t = 0;
          for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
              bool core;
              const double m = b.share(u + (2 * i + 1 - n) / (2.0 * n), v + (2 * j + 1 - n) / (2.0 * n), core);
              t += core ? b.cg - bg : m * (b.g - bg);
            }
          s += t / (n * n);
        }
      img.at<uchar>(v, u) = cv::saturate_cast<uchar>(bg + s);
    }
  const int tint = integer(c["tint"]);
  return tint > 0 ? tinted(img, tint) : channels(img, integer(c["channels"]));
}
static json keys(std::vector<cv::KeyPoint> k)
{
  json o = json::array();
  for (const auto& p : k) o.push_back({ out(p.pt.x), out(p.pt.y), out(p.size) });
  return o;
}
static Reg r1("circles", [](const json& c) {
  const json& j = c["p"];
  CircleDetectorParams p;
  p.nThresholds = integer(j["n"]);
  p.minThreshold = num(j["lo"]);
  p.maxThreshold = num(j["hi"]);
  p.minRepeatability = integer(j["rep"]);
  p.circleInclusionRadius = num(j["incl"]);
  p.maxRadiusDiff = num(j["rad"]);
  p.maxAverageEllipseError = num(j["err"]);
  p.filterByColor = j["color"];
  p.circleColor = integer(j["want"]);
  auto lim = [&](const char* k, bool& on, float& lo, float& hi) { on = j[k]["on"]; lo = num(j[k]["min"]); hi = num(j[k]["max"]); };
  lim("area", p.filterByArea, p.minArea, p.maxArea);
  lim("circ", p.filterByCircularity, p.minCircularity, p.maxCircularity);
  lim("inert", p.filterByInertia, p.minInertiaRatio, p.maxInertiaRatio);
  lim("conv", p.filterByConvexity, p.minConvexity, p.maxConvexity);
  const cv::Mat image = paint(c), kept = image.clone();
  savePicture(c, image);
  // (a detector belongs to one thread)
  const auto made = shared<cv::Ptr<CircleDetector>>(j.dump() + std::to_string(t_lane), [&] { return std::make_shared<cv::Ptr<CircleDetector>>(CircleDetector::create(p)); });
  auto& d = *made;
  json o;
  std::vector<cv::KeyPoint> k;
  try { d->detect(image, k); o["ok"] = true; }
  catch (const cv::Exception& e) { fprintf(stderr, "%s\n", e.what()); abort(); }
  catch (const std::exception& e) { o["ok"] = false; }
  o["x"] = keys(k);
  o["kept"] = sameImage(image, kept);
  std::vector<cv::KeyPoint> k2(3);
  try { d->detect(kept.clone(), k2); o["again"] = o["ok"].get<bool>() && keys(k2) == o["x"]; }
  catch (const std::exception& e) { o["again"] = !o["ok"].get<bool>(); }
  o["drawn"] = true;
  try
  {
    const cv::Mat out = d->drawDetectedCircles(image);
    if (out.size() != image.size()) o["drawn"] = false;
    for (const auto& q : k)
    {
      const int r = q.size / 2 + 6;
      const cv::Rect box = cv::Rect(cvRound(q.pt.x) - r, cvRound(q.pt.y) - r, 2 * r, 2 * r) & cv::Rect(0, 0, image.cols, image.rows);
      if (box.area() && out.channels() == image.channels() && sameImage(out(box).clone(), image(box).clone())) o["drawn"] = false;
    }
  }
  catch (const std::exception& e) { o["drawn"] = !o["ok"].get<bool>(); }
  o["draw_kept"] = sameImage(image, kept);
  return o;
});
