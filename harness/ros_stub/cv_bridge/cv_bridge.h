#pragma once
// Stand-in for cv_bridge: the encodings the harness sends, the errors of the original for all others.
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <stdexcept>
namespace cv_bridge
{
class Exception : public std::runtime_error { public: Exception(const std::string& d) : std::runtime_error(d) {} };
class CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<const CvImage> CvImageConstPtr;
namespace stub
{
inline int type(const std::string& e)
{
  if (e == "bgr8" || e == "rgb8") return CV_8UC3;
  if (e == "bgra8" || e == "rgba8") return CV_8UC4;
  if (e == "mono8") return CV_8UC1;
  if (e == "mono16") return CV_16UC1;
  if (e == "32FC1") return CV_32FC1;
  throw Exception("Unrecognized image encoding [" + e + "]");
}
}
class CvImage
{
public:
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
  sensor_msgs::ImagePtr toImageMsg() const { auto p = boost::make_shared<sensor_msgs::Image>(); toImageMsg(*p); return p; }
  void toImageMsg(sensor_msgs::Image& m) const
  {
    m.header = header;
    m.height = image.rows;
    m.width = image.cols;
    m.encoding = encoding;
    m.step = image.cols * image.elemSize();
    m.data.clear();
    for (int y = 0; y < image.rows; ++y) m.data.insert(m.data.end(), image.ptr(y), image.ptr(y) + m.step);
  }
};
inline CvImagePtr toCvCopy(const sensor_msgs::Image& s, const std::string& want = std::string())
{
  const int type = stub::type(s.encoding);
  if (s.step < s.width * CV_ELEM_SIZE(type)) throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");
  if (s.data.size() != std::size_t(s.height) * s.step) throw Exception("Image is wrongly formed: height * step != size");
  cv::Mat m = cv::Mat(s.height, s.width, type, const_cast<unsigned char*>(s.data.data()), s.step).clone();
  const std::string to = want.empty() ? s.encoding : want;
  if (to != s.encoding)
  {
    if (s.encoding == "32FC1" || to == "32FC1") throw Exception("[" + s.encoding + "] is not a color format");
    cv::Mat eight = m, r;
    if (m.depth() == CV_16U) m.convertTo(eight, CV_8U, 1.0 / 256);
    if (to == "bgr8") cv::cvtColor(eight, r, s.encoding == "rgb8" ? cv::COLOR_RGB2BGR : s.encoding == "bgra8" ? cv::COLOR_BGRA2BGR : s.encoding == "rgba8" ? cv::COLOR_RGBA2BGR : cv::COLOR_GRAY2BGR);
    else if (to == "rgb8") cv::cvtColor(eight, r, s.encoding == "bgr8" ? cv::COLOR_BGR2RGB : s.encoding == "bgra8" ? cv::COLOR_BGRA2RGB : s.encoding == "rgba8" ? cv::COLOR_RGBA2RGB : cv::COLOR_GRAY2RGB);
    else if (to == "mono8" || to == "mono16")
    {
      if (eight.channels() == 1) r = eight;
      else cv::cvtColor(eight, r, s.encoding == "rgb8" ? cv::COLOR_RGB2GRAY : s.encoding == "bgra8" ? cv::COLOR_BGRA2GRAY : s.encoding == "rgba8" ? cv::COLOR_RGBA2GRAY : cv::COLOR_BGR2GRAY);
      if (to == "mono16") r.convertTo(r, CV_16U, 256);
    }
    else throw Exception("Unsupported conversion to [" + to + "]");
    m = r;
  }
  return CvImagePtr(new CvImage(s.header, to, m));
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& s, const std::string& want = std::string()) { return toCvCopy(*s, want); }
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& s, const std::string& want = std::string()) { return toCvCopy(*s, want); }
inline CvImagePtr cvtColor(const CvImageConstPtr& s, const std::string& want) { return toCvCopy(*s->toImageMsg(), want); }
}
