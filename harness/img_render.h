// Pictures of plane scenes: every pixel is the mean of samples of the scene at the plane points the camera sees there.
#pragma once
#include "hcommon.h"
#include <opencv2/core.hpp>
// colour of the plane at (x, y)
template <class F> cv::Mat render(int w, int h, const rct_optimizations::CameraIntrinsics& k, const Iso& camera_to_target, F colour, int n = 3)
{
  const Eigen::Matrix3d r = camera_to_target.linear();
  Eigen::Matrix3d hom;
  hom << r.col(0), r.col(1), camera_to_target.translation();
  const Eigen::Matrix3d inv = hom.inverse();
  cv::Mat img(h, w, CV_8UC1);
  for (int v = 0; v < h; ++v)
    for (int u = 0; u < w; ++u)
    {
      double s = 0;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
        {
          const double du = u + (2 * i + 1 - n) / (2.0 * n), dv = v + (2 * j + 1 - n) / (2.0 * n);
          const Eigen::Vector3d p = inv * Eigen::Vector3d((du - k.cx()) / k.fx(), (dv - k.cy()) / k.fy(), 1);
          s += colour(p.x() / p.z(), p.y() / p.z());
        }
      img.at<uchar>(v, u) = cv::saturate_cast<uchar>(s / (n * n));
    }
  return img;
}
// small repeatable disturbance
inline void disturb(cv::Mat& img, int amplitude)
{
  if (amplitude <= 0) return;
  unsigned s = 12345;
  for (int v = 0; v < img.rows; ++v)
    for (int u = 0; u < img.cols; ++u)
    {
      s = s * 1664525u + 1013904223u;
      img.at<uchar>(v, u) = cv::saturate_cast<uchar>(img.at<uchar>(v, u) + int((s >> 16) % (2 * amplitude + 1)) - amplitude);
    }
}
// The same picture in colours: every level is painted in a colour of that luminance (0.299 R + 0.587 G + 0.114 B)
inline cv::Mat tinted(const cv::Mat& gray, unsigned tint)
{
  cv::Mat3b table(1, 256);
  unsigned x = tint * 2654435761u + 1;
  auto next = [&] { x = x * 1664525u + 1013904223u; return (x >> 16) % 256; };
  for (int level = 0; level < 256; ++level)
  {
    cv::Vec3b best(level, level, level);
    for (int i = 0; i < 200; ++i)
    {
      const int b = next(), r = next();
      const int g = std::lround((level - 0.299 * r - 0.114 * b) / 0.587);
      if (g < 0 || g > 255 || std::abs(0.299 * r + 0.587 * g + 0.114 * b - level) > 0.25) continue;
      best = cv::Vec3b(b, g, r);
      break;
    }
    table(0, level) = best;
  }
  cv::Mat bgr, out;
  cv::merge(std::vector<cv::Mat>{ gray, gray, gray }, bgr);
  cv::LUT(bgr, table, out);
  return out;
}
inline cv::Mat channels(const cv::Mat& gray, int n)
{
  if (n == 1) return gray;
  cv::Mat out;
  cv::merge(std::vector<cv::Mat>{ gray, gray, gray }, out);
  return out;
}
inline bool sameImage(const cv::Mat& a, const cv::Mat& b)
{
  if (a.size() != b.size() || a.type() != b.type()) return false;
  for (int r = 0; r < a.rows; ++r)
    if (memcmp(a.ptr(r), b.ptr(r), a.cols * a.elemSize())) return false;
  return true;
}
// VF_SAVE=dir: look at the pictures
inline void savePicture(const json& c, const cv::Mat& image)
{
  if (!getenv("VF_SAVE")) return;
  FILE* f = fopen((std::string(getenv("VF_SAVE")) + "/" + c["id"].get<std::string>() + ".pgm").c_str(), "wb");
  fprintf(f, "P5 %d %d 255\n", image.cols, image.rows);
  for (int r = 0; r < image.rows; ++r) for (int x = 0; x < image.cols; ++x) fputc(image.ptr(r)[x * image.channels()], f);
  fclose(f);
}
