#pragma once
// Stand-in for the console of ROS: messages go to a log which the harness can read back.
#include <cstdarg>
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
namespace ros_stub
{
struct Message { char level; std::string text; };
inline std::vector<Message>& log() { static std::vector<Message> l; return l; }
inline void say(char level, const std::string& s) { log().push_back({ level, s }); }
inline void sayf(char level, const char* f, ...)
{
  char b[2000];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  say(level, b);
}
}
#define ROS_STUB_STREAM(L, X) do { std::stringstream ros_stub_ss; ros_stub_ss << X; ros_stub::say(L, ros_stub_ss.str()); } while (0)
#define ROS_DEBUG_STREAM(X) ROS_STUB_STREAM('D', X)
#define ROS_INFO_STREAM(X) ROS_STUB_STREAM('I', X)
#define ROS_WARN_STREAM(X) ROS_STUB_STREAM('W', X)
#define ROS_ERROR_STREAM(X) ROS_STUB_STREAM('E', X)
#define ROS_FATAL_STREAM(X) ROS_STUB_STREAM('F', X)
#define ROS_DEBUG(...) ros_stub::sayf('D', __VA_ARGS__)
#define ROS_INFO(...) ros_stub::sayf('I', __VA_ARGS__)
#define ROS_WARN(...) ros_stub::sayf('W', __VA_ARGS__)
#define ROS_ERROR(...) ros_stub::sayf('E', __VA_ARGS__)
#define ROS_FATAL(...) ros_stub::sayf('F', __VA_ARGS__)
