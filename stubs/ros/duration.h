#pragma once
#include <cstdint>
namespace ros {
// Analysis stand-in: whole seconds and nanoseconds are kept as two independent unknowns.
struct Duration {
  Duration() : sec(0.0), nsec(0.0) {}
  explicit Duration(double t) : sec(t), nsec(0.0) {}
  Duration(double s, double n) : sec(s), nsec(n) {}
  double toSec() const { return sec + 1e-9 * nsec; }
  double toNSec() const { return 1e9 * sec + nsec; }
  double sec, nsec;
};
}  // namespace ros
