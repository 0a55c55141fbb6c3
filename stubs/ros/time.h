// Minimal stand-in for roscpp's ros::Time (no ROS in this sandbox).
#pragma once
#include <cstdint>
#include <cmath>
#include <ros/duration.h>
namespace ros {
class Time {
public:
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0) {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { sec = (uint32_t)std::floor(t); nsec = (uint32_t)((t - sec) * 1e9); }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  Duration operator-(const Time& o) const { return Duration(toSec() - o.toSec()); }
  Time operator+(const Duration& d) const { return Time(toSec() + d.toSec()); }
  bool operator<(const Time& o) const { return toSec() < o.toSec(); }
  bool operator>(const Time& o) const { return toSec() > o.toSec(); }
  bool operator<=(const Time& o) const { return toSec() <= o.toSec(); }
  bool operator>=(const Time& o) const { return toSec() >= o.toSec(); }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  bool operator!=(const Time& o) const { return !(*this == o); }
  static Time now();
};
const Time TIME_MAX(4294967295u, 999999999u);
const Time TIME_MIN(0, 1);
inline double& stub_now() { static double t = 0; return t; }
inline Time Time::now() { return Time(stub_now()); }
}
