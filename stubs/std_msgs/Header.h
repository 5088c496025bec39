#pragma once
#include <string>
#include <ros/duration.h>
namespace ros {
struct Time {
  Time() : sec(0.0), nsec(0.0) {}
  double toSec() const { return sec + 1e-9 * nsec; }
  double sec, nsec;
};
}  // namespace ros
namespace std_msgs {
struct Header {
  Header() : seq(0) {}
  unsigned seq;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs
