#pragma once
#include <ros/bus.h>
#include <ros/console.h>
#include <ros/node_handle.h>
#include <ros/time.h>
namespace ros
{
namespace init_options { enum { AnonymousName = 2 }; }
inline void init(int&, char**, const std::string&, std::uint32_t = 0) {}
inline bool ok() { return true; }
inline void spin() { if (ros_stub::bus().spin) ros_stub::bus().spin(); }
}
