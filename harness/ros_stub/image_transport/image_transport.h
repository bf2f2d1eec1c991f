#pragma once
#include <ros/bus.h>
#include <ros/node_handle.h>
namespace image_transport
{
class Subscriber {};
class Publisher
{
public:
  Publisher(const std::string& t = "") : t_(t) {}
  void publish(const sensor_msgs::Image& m) const { ros_stub::bus().published.emplace_back(t_, boost::make_shared<sensor_msgs::Image>(m)); }
  // (as it is now: a message is serialised when it is published)
  void publish(const sensor_msgs::ImageConstPtr& m) const { publish(*m); }
  std::string getTopic() const { return t_; }
  std::uint32_t getNumSubscribers() const { return 1; }
private:
  std::string t_;
};
class ImageTransport
{
public:
  explicit ImageTransport(const ros::NodeHandle&) {}
  Subscriber subscribe(const std::string& topic, std::uint32_t, const std::function<void(const sensor_msgs::ImageConstPtr&)>& f)
  {
    ros_stub::bus().subscribers[ros_stub::plain(topic)].push_back(f);
    return Subscriber();
  }
  template <class T>
  Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*f)(const sensor_msgs::ImageConstPtr&), T* o)
  {
    return subscribe(topic, q, std::function<void(const sensor_msgs::ImageConstPtr&)>([o, f](const sensor_msgs::ImageConstPtr& m) { (o->*f)(m); }));
  }
  Publisher advertise(const std::string& topic, std::uint32_t, bool = false) { return Publisher(ros_stub::plain(topic)); }
};
}
