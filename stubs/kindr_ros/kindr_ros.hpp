#pragma once
#include <kindr/Core>
#include <trajectory_msgs/MultiDOFJointTrajectory.h>
namespace kindr_ros {
inline void convertFromRosGeometryMsg(const geometry_msgs::Transform& m, kindr::HomTransformQuatD& pose) {
  pose = kindr::HomTransformQuatD(kindr::Position3D(m.translation.x, m.translation.y, m.translation.z),
                                  kindr::RotationQuaternionD(m.rotation.w, m.rotation.x, m.rotation.y, m.rotation.z));
}
}  // namespace kindr_ros
