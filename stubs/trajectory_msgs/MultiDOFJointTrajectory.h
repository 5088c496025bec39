#pragma once
#include <string>
#include <vector>
#include <ros/duration.h>
#include <std_msgs/Header.h>
namespace geometry_msgs {
struct Vector3 { double x, y, z; };
struct Quaternion { double x, y, z, w; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct Twist { Vector3 linear, angular; };
}  // namespace geometry_msgs
namespace trajectory_msgs {
struct MultiDOFJointTrajectoryPoint {
  std::vector<geometry_msgs::Transform> transforms;
  std::vector<geometry_msgs::Twist> velocities, accelerations;
  ros::Duration time_from_start;
};
struct MultiDOFJointTrajectory {
  std_msgs::Header header;
  std::vector<std::string> joint_names;
  std::vector<MultiDOFJointTrajectoryPoint> points;
};
}  // namespace trajectory_msgs
