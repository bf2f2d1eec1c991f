#pragma once
#include <ros/time.h>
#include <string>
namespace std_msgs
{
struct Header { std::uint32_t seq = 0; ros::Time stamp; std::string frame_id; };
}
