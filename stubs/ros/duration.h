#pragma once
#include <cstdint>
#include <cmath>
namespace ros {
class Duration {
public:
  int32_t sec, nsec;
  Duration() : sec(0), nsec(0) {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) {}
  explicit Duration(double t) { sec = (int32_t)std::floor(t); nsec = (int32_t)((t - sec) * 1e9 + 0.5); }
  double toSec() const { return double(sec) + 1e-9 * double(nsec); }
  bool isZero() const { return sec == 0 && nsec == 0; }
  bool sleep() const;
  bool operator<(const Duration& o) const { return toSec() < o.toSec(); }
  bool operator>(const Duration& o) const { return toSec() > o.toSec(); }
  bool operator<=(const Duration& o) const { return toSec() <= o.toSec(); }
  bool operator>=(const Duration& o) const { return toSec() >= o.toSec(); }
};
inline bool Duration::sleep() const { return true; }
}
