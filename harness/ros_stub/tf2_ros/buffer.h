#pragma once
// Stand-in for the transform buffer: the harness answers every question.
#include <functional>
#include <geometry_msgs/TransformStamped.h>
#include <ros/time.h>
#include <tf2/exceptions.h>
namespace ros_stub
{
using Lookup = std::function<geometry_msgs::TransformStamped(const std::string& target, const std::string& source, ros::Time, ros::Duration)>;
inline Lookup& lookup() { static Lookup l; return l; }
}
namespace tf2_ros
{
class Buffer
{
public:
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration wait = ros::Duration(0.0)) const
  {
    return ros_stub::lookup()(target, source, t, wait);
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration wait = ros::Duration(0.0), std::string* why = nullptr) const
  {
    try { ros_stub::lookup()(target, source, t, wait); return true; }
    catch (const tf2::TransformException& e) { if (why) *why = e.what(); return false; }
  }
};
}
