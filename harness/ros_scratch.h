#pragma once
// a scratch directory of this case, and pictures that can be told apart
#include "hcommon.h"
#include <boost/filesystem.hpp>
#include <opencv2/core.hpp>
#include <unistd.h>
namespace fs = boost::filesystem;
struct Scratch
{
  Scratch()
  {
    char t[] = "/tmp/rct-store-XXXXXX";
    if (!mkdtemp(t)) throw std::runtime_error("no scratch directory");
    root = t;
    was = fs::current_path();
    fs::current_path(root);
  }
  ~Scratch()
  {
    boost::system::error_code e;
    fs::current_path(was, e);
    fs::remove_all(root, e);
  }
  fs::path root, was;
};

// what picture `code` looks like
inline unsigned char shade(int code, int x, int y, int c)
{
  unsigned h = 2166136261u;
  for (int v : { code, x, y, c }) h = (h ^ (unsigned)(v + 77)) * 16777619u;
  return (unsigned char)(h >> 13);
}
inline cv::Mat picture(const json& j)
{
  const int w = integer(j["w"]), h = integer(j["h"]), code = integer(j["code"]);
  const bool gray = j["gray"].get<bool>();
  if (w == 0) return cv::Mat();
  cv::Mat m(h, w, gray ? CV_8UC1 : CV_8UC3);
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x)
      if (gray) m.at<uchar>(y, x) = shade(code, x, y, 0);
      else for (int c = 0; c < 3; ++c) m.at<cv::Vec3b>(y, x)[c] = shade(code, x, y, c);
  return m;
}
inline int whichPicture(const cv::Mat& m, const json& all)
{
  if (m.type() != CV_8UC3) return -1;
  for (const auto& p : all)
  {
    if (integer(p["w"]) != m.cols || integer(p["h"]) != m.rows) continue;
    const bool gray = p["gray"].get<bool>();
    bool same = true;
    for (int y = 0; y < m.rows && same; ++y)
      for (int x = 0; x < m.cols && same; ++x)
        for (int c = 0; c < 3; ++c) same = same && m.at<cv::Vec3b>(y, x)[c] == shade(integer(p["code"]), x, y, gray ? 0 : c);
    if (same) return integer(p["code"]);
  }
  return -1;
}
