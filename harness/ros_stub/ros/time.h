#pragma once
#include <cstdint>
namespace ros
{
struct Duration
{
  double s = 0;
  Duration() {}
  explicit Duration(double v) : s(v) {}
  Duration(std::int32_t sec, std::int32_t nsec) : s(sec + 1e-9 * nsec) {}
  double toSec() const { return s; }
};
struct Time
{
  std::uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(std::uint32_t s, std::uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) : sec(static_cast<std::uint32_t>(t)), nsec(static_cast<std::uint32_t>((t - sec) * 1e9)) {}
  bool isZero() const { return sec == 0 && nsec == 0; }
  double toSec() const { return sec + 1e-9 * nsec; }
  static Time now() { return Time(1000000, 0); }
};
}
