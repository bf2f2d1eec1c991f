#pragma once
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <std_msgs/Header.h>
#include <vector>
namespace sensor_msgs
{
struct Image
{
  std_msgs::Header header;
  std::uint32_t height = 0, width = 0;
  std::string encoding;
  std::uint8_t is_bigendian = 0;
  std::uint32_t step = 0;
  std::vector<std::uint8_t> data;
};
typedef boost::shared_ptr<Image> ImagePtr;
typedef boost::shared_ptr<const Image> ImageConstPtr;
}
