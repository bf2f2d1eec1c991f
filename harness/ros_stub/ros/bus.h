#pragma once
// Who offers what: services, topics, and what the node does while it spins.
#include <functional>
#include <map>
#include <sensor_msgs/Image.h>
#include <string>
#include <vector>
namespace ros_stub
{
struct Bus
{
  std::map<std::string, std::function<bool()>> services;
  std::map<std::string, std::vector<std::function<void(const sensor_msgs::ImageConstPtr&)>>> subscribers;
  std::vector<std::pair<std::string, sensor_msgs::ImageConstPtr>> published;
  std::function<void()> spin;
};
inline Bus& bus() { static Bus b; return b; }
inline std::string plain(const std::string& n) { return !n.empty() && n[0] == '/' ? n.substr(1) : n; }
}
namespace ros
{
class ServiceServer
{
public:
  ServiceServer(const std::string& n = "") : n_(n) {}
  std::string getService() const { return "/" + n_; }
  void shutdown() { ros_stub::bus().services.erase(n_); }
private:
  std::string n_;
};
}
