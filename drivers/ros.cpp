// Importers of trajectory messages: C28.
#include <cassert>
#include <limits>
#include "vp.hpp"
#include "curves_ros/src/RosJointTrajectoryInterface.cpp"
#include "curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp"
#include "curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp"
#include "curves/src/CubicHermiteSE3Curve.cpp"
#include "curves/src/KeyGenerator.cpp"
using namespace curves;

namespace {
const char* kNames[] = {"arm", "arm2", "", "leg", "ar"};

template <class M> void names(M& m, int joints, int shift) {
  for (int i = 0; i < joints; ++i) m.joint_names.push_back(kNames[(i + shift) % 5]);
}

double at_(int i) { return vp_real("t", i) + 1e-9 * vp_real("n", i); }

void axis(int points) {
  for (int i = 1; i < points; ++i) vp_assume(at_(i - 1) < at_(i));
}

trajectory_msgs::JointTrajectory joint(int joints, int shift, int points) {
  trajectory_msgs::JointTrajectory m;
  names(m, joints, shift);
  for (int i = 0; i < points; ++i) {
    trajectory_msgs::JointTrajectoryPoint p;
    p.time_from_start = ros::Duration(vp_real("t", i), vp_real("n", i));
    for (int j = 0; j < joints; ++j) p.positions.push_back(vp_real("y", i, j));
    m.points.push_back(p);
  }
  return m;
}

trajectory_msgs::MultiDOFJointTrajectory multi(int joints, int shift, int points) {
  trajectory_msgs::MultiDOFJointTrajectory m;
  names(m, joints, shift);
  for (int i = 0; i < points; ++i) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    p.time_from_start = ros::Duration(vp_real("t", i), vp_real("n", i));
    for (int j = 0; j < joints; ++j) {
      geometry_msgs::Transform x;
      x.translation.x = vp_real("x", i, j);
      x.translation.y = vp_real("y", i, j);
      x.translation.z = vp_real("z", i, j);
      x.rotation.w = vp_real("qw", i, j);
      x.rotation.x = vp_real("qx", i, j);
      x.rotation.y = vp_real("qy", i, j);
      x.rotation.z = vp_real("qz", i, j);
      p.transforms.push_back(x);
    }
    m.points.push_back(p);
  }
  return m;
}

const int kPoints = 3;
}  // namespace

// the requested joint is the one at index "at"; the curve held something else before
void vp_entry_C28_joint(int a) {
  const int joints = 1 + a % 3, at = a / 3 % 3, shift = a / 9;
  if (at >= joints) return;
  const trajectory_msgs::JointTrajectory m = joint(joints, shift, kPoints);
  axis(kPoints);
  RosJointTrajectoryInterface c;
  c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<double>{3.0, 4.0});
  vp_check(c.fromMessage(m, m.joint_names[at]), "a listed joint is imported");
  vp_eq(c.getMinTime(), at_(0), "range starts at the first point's time");
  vp_eq(c.getMaxTime(), at_(kPoints - 1), "range ends at the last point's time");
  for (int i = 0; i < kPoints; ++i) {
    double v = 0.0;
    vp_check(c.evaluate(v, at_(i)), "evaluation succeeds");
    vp_eq(v, vp_real("y", i, at), "the curve passes through the joint's values");
  }
  RosJointTrajectoryInterface d;
  std::vector<double> t, y;
  for (int i = 0; i < kPoints; ++i) { t.push_back(at_(i)); y.push_back(vp_real("y", i, at)); }
  d.fitCurve(t, y);
  double p = 0.0, q = 0.0;
  vp_check(c.evaluateDerivative(p, vp_real("u"), 1) && d.evaluateDerivative(q, vp_real("u"), 1), "velocity can be queried");
  vp_eq(p, q, "the curve is the one fitted to the joint's values");
}
VP_RUN(vp_entry_C28_joint, 0..44)

void vp_entry_C28_translation(int a) {
  const int joints = 1 + a % 3, at = a / 3 % 3, shift = a / 9;
  if (at >= joints) return;
  const trajectory_msgs::MultiDOFJointTrajectory m = multi(joints, shift, kPoints);
  axis(kPoints);
  RosMultiDOFJointTrajectoryTranslationInterface c;
  using V = RosMultiDOFJointTrajectoryTranslationInterface::ValueType;
  c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<V>(2, V(1, 2, 3)));
  vp_check(c.fromMessage(m, m.joint_names[at]), "a listed joint is imported");
  vp_eq(c.getMinTime(), at_(0), "range starts at the first point's time");
  vp_eq(c.getMaxTime(), at_(kPoints - 1), "range ends at the last point's time");
  for (int i = 0; i < kPoints; ++i) {
    V v;
    vp_check(c.evaluate(v, at_(i)), "evaluation succeeds");
    vp_eq(v(0), vp_real("x", i, at), "the curve passes through the joint's translations");
    vp_eq(v(1), vp_real("y", i, at), "the curve passes through the joint's translations");
    vp_eq(v(2), vp_real("z", i, at), "the curve passes through the joint's translations");
  }
}
VP_RUN(vp_entry_C28_translation, 0..17)

void vp_entry_C28_pose(int a) {
  const int joints = 1 + a % 3, at = a / 3 % 3, shift = a / 9;
  if (at >= joints) return;
  const trajectory_msgs::MultiDOFJointTrajectory m = multi(joints, shift, kPoints);
  axis(kPoints);
  RosMultiDOFJointTrajectoryInterface c;
  using V = CubicHermiteSE3Curve::ValueType;
  c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<V>(2, V()));
  vp_check(c.fromMessage(m, m.joint_names[at]), "a listed joint is imported");
  vp_check(c.size() == kPoints, "one knot per point");
  vp_eq(c.getMinTime(), at_(0), "range starts at the first point's time");
  vp_eq(c.getMaxTime(), at_(kPoints - 1), "range ends at the last point's time");
  for (int i = 0; i < kPoints; ++i) {
    V v;
    vp_check(c.evaluate(v, at_(i)), "evaluation succeeds");
    vp_eq(v.getPosition().x(), vp_real("x", i, at), "the curve passes through the joint's poses");
    vp_eq(v.getPosition().y(), vp_real("y", i, at), "the curve passes through the joint's poses");
    vp_eq(v.getPosition().z(), vp_real("z", i, at), "the curve passes through the joint's poses");
    if (i == 0) {
      vp_eq(v.getRotation().w(), vp_real("qw", i, at), "the curve starts with the joint's orientation");
      vp_eq(v.getRotation().x(), vp_real("qx", i, at), "the curve starts with the joint's orientation");
      vp_eq(v.getRotation().y(), vp_real("qy", i, at), "the curve starts with the joint's orientation");
      vp_eq(v.getRotation().z(), vp_real("qz", i, at), "the curve starts with the joint's orientation");
    }
  }
  CubicHermiteSE3Curve d;
  std::vector<double> t;
  std::vector<V> y;
  for (int i = 0; i < kPoints; ++i) {
    V v;
    kindr_ros::convertFromRosGeometryMsg(m.points[i].transforms[at], v);
    t.push_back(at_(i));
    y.push_back(v);
  }
  d.fitCurve(t, y);
  V v, w;
  const bool ok = c.evaluate(v, vp_real("u")), ok2 = d.evaluate(w, vp_real("u"));
  vp_check(ok == ok2, "the curve is the one fitted to the joint's poses");
  if (ok) {
    vp_eq(v.getPosition().y(), w.getPosition().y(), "the curve is the one fitted to the joint's poses");
    vp_eq(v.getRotation().w(), w.getRotation().w(), "the curve is the one fitted to the joint's poses");
    vp_eq(v.getRotation().z(), w.getRotation().z(), "the curve is the one fitted to the joint's poses");
  }
}
VP_RUN(vp_entry_C28_pose, 0..17)

// messages with few points, imported over an earlier message
void vp_entry_C28_few(int a) {
  const int points = a % 3, kind = a / 3;
  axis(3);
  if (kind == 0) {
    RosJointTrajectoryInterface c, d;
    c.fromMessage(joint(2, 2, 3), "");
    const trajectory_msgs::JointTrajectory m = joint(2, 0, points);
    vp_check(c.fromMessage(m, "arm2"), "a listed joint is imported");
    std::vector<double> t, y;
    for (int i = 0; i < points; ++i) { t.push_back(at_(i)); y.push_back(vp_real("y", i, 1)); }
    d.fitCurve(t, y);
    vp_eq(c.getMinTime(), d.getMinTime(), "the curve is the one fitted to the joint's values");
    vp_eq(c.getMaxTime(), d.getMaxTime(), "the curve is the one fitted to the joint's values");
    double p = 0.0, q = 0.0;
    const bool cp = c.evaluate(p, vp_real("u")), dp = d.evaluate(q, vp_real("u"));
    vp_check(cp == dp, "the curve is the one fitted to the joint's values");
    vp_eq(p, q, "the curve is the one fitted to the joint's values");
  } else if (kind == 1) {
    RosMultiDOFJointTrajectoryTranslationInterface c, d;
    using V = RosMultiDOFJointTrajectoryTranslationInterface::ValueType;
    c.fromMessage(multi(2, 2, 3), "");
    const trajectory_msgs::MultiDOFJointTrajectory m = multi(2, 0, points);
    vp_check(c.fromMessage(m, "arm2"), "a listed joint is imported");
    std::vector<double> t;
    std::vector<V> y;
    for (int i = 0; i < points; ++i) { t.push_back(at_(i)); y.push_back(V(vp_real("x", i, 1), vp_real("y", i, 1), vp_real("z", i, 1))); }
    d.fitCurve(t, y);
    vp_eq(c.getMinTime(), d.getMinTime(), "the curve is the one fitted to the joint's values");
    vp_eq(c.getMaxTime(), d.getMaxTime(), "the curve is the one fitted to the joint's values");
    V p(0, 0, 0), q(0, 0, 0);
    const bool cp = c.evaluate(p, vp_real("u")), dp = d.evaluate(q, vp_real("u"));
    vp_check(cp == dp, "the curve is the one fitted to the joint's values");
    for (int i = 0; i < 3; ++i) vp_eq(p(i), q(i), "the curve is the one fitted to the joint's values");
  } else {
    RosMultiDOFJointTrajectoryInterface c;
    c.fromMessage(multi(2, 2, 3), "");
    const trajectory_msgs::MultiDOFJointTrajectory m = multi(2, 0, points);
    vp_check(c.fromMessage(m, "arm2"), "a listed joint is imported");
    vp_check(c.size() == points, "one knot per point");
    for (int i = 0; i < points; ++i) {
      CubicHermiteSE3Curve::ValueType v;
      vp_check(c.evaluate(v, at_(i)), "evaluation succeeds");
      vp_eq(v.getPosition().x(), vp_real("x", i, 1), "the curve passes through the joint's poses");
    }
  }
}
VP_RUN(vp_entry_C28_few, 0..8)

// absent joints: names that are prefixes or extensions of listed ones, and messages that list none
void vp_entry_C28_absent(int a) {
  const int joints = a % 4, which = a / 4;
  const char* asked[] = {"le", "legs", "arm3", "a", "LEG"};
  const double u = vp_real("u");
  {
    const trajectory_msgs::JointTrajectory m = joint(joints, 0, kPoints);
    RosJointTrajectoryInterface c, d;
    c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<double>{vp_real("a"), vp_real("b")});
    d.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<double>{vp_real("a"), vp_real("b")});
    vp_check(!c.fromMessage(m, asked[which]), "an absent joint is refused");
    double p = 0.0, q = 0.0;
    vp_check(c.evaluate(p, u) && d.evaluate(q, u), "the curve can still be evaluated");
    vp_eq(p, q, "a refused message leaves the curve unchanged");
    vp_eq(c.getMinTime(), 10.0, "a refused message leaves the curve unchanged");
    vp_eq(c.getMaxTime(), 20.0, "a refused message leaves the curve unchanged");
  }
  const trajectory_msgs::MultiDOFJointTrajectory m = multi(joints, 0, kPoints);
  {
    RosMultiDOFJointTrajectoryTranslationInterface c;
    using V = RosMultiDOFJointTrajectoryTranslationInterface::ValueType;
    c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<V>{V(vp_real("a"), 2, 3), V(4, 5, 6)});
    vp_check(!c.fromMessage(m, asked[which]), "an absent joint is refused");
    V v;
    vp_check(c.evaluate(v, 10.0), "the curve can still be evaluated");
    vp_eq(v(0), vp_real("a"), "a refused message leaves the curve unchanged");
    vp_eq(c.getMaxTime(), 20.0, "a refused message leaves the curve unchanged");
  }
  {
    RosMultiDOFJointTrajectoryInterface c;
    using V = CubicHermiteSE3Curve::ValueType;
    c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<V>(2, V(V::Position(vp_real("a"), 2, 3), V::Rotation())));
    vp_check(!c.fromMessage(m, asked[which]), "an absent joint is refused");
    V v;
    vp_check(c.size() == 2 && c.evaluate(v, 10.0), "the curve can still be evaluated");
    vp_eq(v.getPosition().x(), vp_real("a"), "a refused message leaves the curve unchanged");
  }
}
VP_RUN(vp_entry_C28_absent, 0..19)

// messages in which one point has no value for the requested joint (the last one), or more values than there are joints
void vp_entry_C28_lacking(int a) {
  const int joints = 1 + a % 3, bad = a / 3 % 3, surplus = a / 9;
  const char* why = "a point without a value for the joint is refused";
  {
    trajectory_msgs::JointTrajectory m = joint(joints, 0, kPoints);
    axis(kPoints);
    if (surplus) m.points[bad].positions.push_back(vp_real("s")); else m.points[bad].positions.pop_back();
    RosJointTrajectoryInterface c;
    c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<double>{vp_real("a"), vp_real("b")});
    vp_check(c.fromMessage(m, m.joint_names[joints - 1]) == (surplus == 1), why);
    double p = 0.0;
    if (!surplus) {
      vp_eq(c.getMaxTime(), 20.0, "a refused message leaves the curve unchanged");
      vp_check(c.evaluate(p, 10.0), "the curve can still be evaluated");
      vp_eq(p, vp_real("a"), "a refused message leaves the curve unchanged");
    }
  }
  trajectory_msgs::MultiDOFJointTrajectory m = multi(joints, 0, kPoints);
  if (surplus) m.points[bad].transforms.push_back(geometry_msgs::Transform()); else m.points[bad].transforms.pop_back();
  {
    RosMultiDOFJointTrajectoryTranslationInterface c;
    using V = RosMultiDOFJointTrajectoryTranslationInterface::ValueType;
    c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<V>{V(vp_real("a"), 2, 3), V(4, 5, 6)});
    vp_check(c.fromMessage(m, m.joint_names[joints - 1]) == (surplus == 1), why);
    V v;
    if (!surplus) {
      vp_check(c.evaluate(v, 10.0), "the curve can still be evaluated");
      vp_eq(v(0), vp_real("a"), "a refused message leaves the curve unchanged");
      vp_eq(c.getMaxTime(), 20.0, "a refused message leaves the curve unchanged");
    }
  }
  {
    RosMultiDOFJointTrajectoryInterface c;
    using V = CubicHermiteSE3Curve::ValueType;
    c.fitCurve(std::vector<double>{10.0, 20.0}, std::vector<V>(2, V(V::Position(vp_real("a"), 2, 3), V::Rotation())));
    vp_check(c.fromMessage(m, m.joint_names[joints - 1]) == (surplus == 1), why);
    V v;
    if (!surplus) {
      vp_check(c.size() == 2 && c.evaluate(v, 10.0), "the curve can still be evaluated");
      vp_eq(v.getPosition().x(), vp_real("a"), "a refused message leaves the curve unchanged");
    }
  }
}
VP_RUN(vp_entry_C28_lacking, 0..17)

// many joints, many points
void vp_entry_C28_many(int n) {
  trajectory_msgs::JointTrajectory m;
  trajectory_msgs::MultiDOFJointTrajectory w;
  for (int j = 0; j < n; ++j) {
    const std::string name(j + 1, 'j');
    m.joint_names.push_back(name);
    w.joint_names.push_back(name);
  }
  for (int i = 0; i < n; ++i) {
    trajectory_msgs::JointTrajectoryPoint p;
    trajectory_msgs::MultiDOFJointTrajectoryPoint q;
    p.time_from_start = ros::Duration(i, 500000000);
    q.time_from_start = ros::Duration(i, 500000000);
    for (int j = 0; j < n; ++j) {
      p.positions.push_back(vp_real("y", i, j));
      geometry_msgs::Transform x;
      x.translation.x = vp_real("y", i, j);
      x.translation.y = vp_real("z", i, j);
      x.rotation.w = 1;
      q.transforms.push_back(x);
    }
    m.points.push_back(p);
    w.points.push_back(q);
  }
  RosMultiDOFJointTrajectoryInterface c;
  vp_check(c.fromMessage(w, w.joint_names[n - 1]), "a listed joint is imported");
  vp_check(c.size() == n, "one knot per point");
  for (int i = 0; i < n; ++i) {
    CubicHermiteSE3Curve::ValueType v;
    vp_check(c.evaluate(v, i + 0.5), "evaluation succeeds");
    vp_eq(v.getPosition().x(), vp_real("y", i, n - 1), "the curve passes through the joint's poses");
    vp_eq(v.getPosition().y(), vp_real("z", i, n - 1), "the curve passes through the joint's poses");
  }
  if (n > 12) return;
  RosJointTrajectoryInterface d;
  vp_check(d.fromMessage(m, m.joint_names[n - 1]), "a listed joint is imported");
  vp_eq(d.getMaxTime(), n - 0.5, "range ends at the last point's time");
  for (int i = 0; i < n; ++i) {
    double v = 0.0;
    vp_check(d.evaluate(v, i + 0.5), "evaluation succeeds");
    vp_eq(v, vp_real("y", i, n - 1), "the curve passes through the joint's values");
  }
}
VP_RUN(vp_entry_C28_many, @)

// far more joints, and far more points, than any small threshold or narrow counter allows
void vp_entry_C28_huge(int a) {
  const int points = a % 2 ? 260 : 3, joints = a % 2 ? 2 : 260, wanted = joints - 1;
  trajectory_msgs::JointTrajectory m;
  trajectory_msgs::MultiDOFJointTrajectory w;
  for (int j = 0; j < joints; ++j) {
    const std::string name(j + 1, 'j');
    m.joint_names.push_back(name);
    w.joint_names.push_back(name);
  }
  for (int i = 0; i < points; ++i) {
    trajectory_msgs::JointTrajectoryPoint p;
    trajectory_msgs::MultiDOFJointTrajectoryPoint q;
    p.time_from_start = ros::Duration(i, 500000000);
    q.time_from_start = ros::Duration(i, 500000000);
    for (int j = 0; j < joints; ++j) {
      p.positions.push_back(vp_real("y", i, j));
      geometry_msgs::Transform x;
      x.translation.x = vp_real("y", i, j);
      x.translation.y = vp_real("z", i, j);
      x.rotation.w = 1;
      q.transforms.push_back(x);
    }
    m.points.push_back(p);
    w.points.push_back(q);
  }
  if (a < 2) {
    RosMultiDOFJointTrajectoryInterface c;
    vp_check(c.fromMessage(w, w.joint_names[wanted]), "a listed joint is imported");
    vp_check(c.size() == points, "one knot per point");
    for (int i = 0; i < points; ++i) {
      if (points > 3 && i % 50 > 1 && i % 64 > 1 && i + 3 < points) continue;
      CubicHermiteSE3Curve::ValueType v;
      vp_check(c.evaluate(v, i + 0.5), "evaluation succeeds");
      vp_eq(v.getPosition().x(), vp_real("y", i, wanted), "the curve passes through the joint's positions");
    }
  } else {
    RosJointTrajectoryInterface d;
    vp_check(d.fromMessage(m, m.joint_names[wanted]), "a listed joint is imported");
    for (int i = 0; i < points; ++i) {
      double v = 0.0;
      vp_check(d.evaluate(v, i + 0.5), "evaluation succeeds");
      vp_eq(v, vp_real("y", i, wanted), "the curve passes through the joint's values");
    }
  }
}
VP_RUN(vp_entry_C28_huge, 0..2)
