// Pose curves under a sampling policy (C32), their export to files (C33, C35), the knots they report (C36), and the slerp curve's share of C18 and C26.
#include <cassert>
#include <limits>
#include <fstream>
#include "vp.hpp"
#include "evalfile.hpp"
#include "curves/SlerpSE3Curve.hpp"
#include "curves/src/SlerpSE3Curve.cpp"
#include "curves/src/CubicHermiteSE3Curve.cpp"
#include "curves/src/helpers.cpp"
#include "curves/src/KeyGenerator.cpp"
using namespace curves;
using H = CubicHermiteSE3Curve;
using Pose = H::ValueType;
using Q = kindr::RotationQuaternionD;
using V3 = Eigen::Vector3d;

namespace {

// The slerp curve leaves the two evaluation queries of the interface to its users.
struct Slerp : public SlerpSE3Curve {
  using SlerpSE3Curve::evaluate;
  using SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType& value, Time time) const { value = SlerpSE3Curve::evaluate(time); return true; }
  virtual bool evaluateDerivative(DerivativeType& d, Time time, unsigned o) const { d = SlerpSE3Curve::evaluateDerivative(time, o); return true; }
};

V3 vec(const char* name, int i) { return V3(vp_real(name, i, 0), vp_real(name, i, 1), vp_real(name, i, 2)); }
Pose pose(const char* p, const char* r, int i) { return Pose(Pose::Position(vec(p, i)), Q().exponentialMap(vec(r, i))); }

void increasing(int n) {
  for (int i = 1; i < n; ++i) vp_assume(vp_real("t", i - 1) < vp_real("t", i));
}

void eq(const Pose& a, const Pose& b, const char* label) {
  const V3 p = a.getPosition().vector(), q = b.getPosition().vector();
  for (int j = 0; j < 3; ++j) vp_eq(p[j], q[j], label);
  vp_eq(a.getRotation().w(), b.getRotation().w(), label);
  vp_eq(a.getRotation().x(), b.getRotation().x(), label);
  vp_eq(a.getRotation().y(), b.getRotation().y(), label);
  vp_eq(a.getRotation().z(), b.getRotation().z(), label);
}

// the times a curve has its knots at are those of the listed measurements
template <class C>
void knots(const C& c, const std::vector<int>& kept) {
  std::vector<Time> ts;
  c.getCurveTimes(&ts);
  vp_check(ts.size() == kept.size() && c.size() == static_cast<int>(kept.size()), "as many knots as the policy keeps");
  for (size_t j = 0; j < kept.size(); ++j) vp_eq(ts[j], vp_real("t", kept[j]), "knots lie at the kept measurements");
  vp_eq(c.getMaxTime(), vp_real("t", kept.back()), "the curve ends at the newest measurement");
  vp_eq(c.getMinTime(), vp_real("t", kept.front()), "the curve starts at the first measurement");
}

}  // namespace

// ---------------------------------------------------------------- C32
// Slerp: measurements 0 and 1 are kept; of every following group of k the newest one.
void slerp(Slerp& c, int first, int n, int k, bool reported) {
  std::vector<int> kept;
  std::vector<Key> keys, seen;
  int group = 0;
  for (int i = first; i < first + n; ++i) {
    c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)), reported ? &keys : nullptr);
    const bool fresh = kept.size() < 2 || group == 0;
    if (kept.size() < 2) kept.push_back(i);
    else {
      if (group == 0) kept.push_back(i); else kept.back() = i;
      group = (group + 1) % k;
    }
    knots(c, kept);
    if (reported) {
      vp_check(keys.size() == seen.size() + (fresh ? 1 : 0), "one key is reported for every new knot and none for a moved one");
      for (size_t j = 0; j < seen.size(); ++j) vp_check(keys[j] == seen[j], "keys reported before stay in the list");
      seen = keys;
    }
  }
}

void vp_entry_C32_slerp(int a) {
  const int k = 1 + a % 4, n = a / 4;
  increasing(n);
  Slerp c;
  c.setSamplingRatio(k);
  slerp(c, 0, n, k, n % 2);
}
VP_RUN(vp_entry_C32_slerp, 4..35)
VP_MORE(vp_entry_C32_slerp, 36..51)

// a cleared or refitted curve goes on like a new one
void vp_entry_C32_slerpAgain(int a) {
  const int k = 2 + a % 3, m = 1 + a / 3 % 5, n = 5;
  increasing(m + n);
  Slerp c;
  c.setSamplingRatio(k);
  for (int i = 0; i < m; ++i) c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
  c.clear();
  vp_check(c.isEmpty() && c.size() == 0, "clearing leaves no knots");
  slerp(c, m, n, k, true);
}
VP_RUN(vp_entry_C32_slerpAgain, 0..14)

void vp_entry_C32_slerpRefit(int a) {
  const int k = 2 + a % 3, m = 1 + a / 3 % 5;
  increasing(m + 5);
  Slerp c;
  c.setSamplingRatio(k);
  for (int i = 0; i < m; ++i) c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
  std::vector<Time> ts;
  std::vector<Pose> ys;
  std::vector<Key> keys;
  std::vector<int> kept;
  for (int i = m; i < m + 3; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
    kept.push_back(i);
  }
  c.fitCurve(ts, ys, &keys);
  vp_check(keys.size() == 3, "fitting reports one key per knot");
  knots(c, kept);
  for (int i = m + 3; i < m + 5; ++i) {
    c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
    if (i == m + 3) kept.push_back(i); else kept.back() = i;
    knots(c, kept);
  }
}
VP_RUN(vp_entry_C32_slerpRefit, 0..14)

// a new ratio takes effect: the curve goes on growing by one knot per group
void vp_entry_C32_slerpRatio(int a) {
  const int k = 3 + a % 3, l = 1 + a / 3 % 2, m = 3 + a / 6 % 4, n = 6;
  increasing(m + n);
  Slerp c;
  c.setSamplingRatio(k);
  for (int i = 0; i < m; ++i) c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
  c.setSamplingRatio(l);
  int last = c.size(), run = 0;
  for (int i = m; i < m + n; ++i) {
    c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
    vp_eq(c.getMaxTime(), vp_real("t", i), "the curve ends at the newest measurement");
    run = c.size() == last ? run + 1 : 0;
    vp_check(c.size() == last || c.size() == last + 1, "a measurement adds at most one knot");
    vp_check(run <= l, "a group of measurements gets a knot of its own");
    last = c.size();
  }
}
VP_RUN(vp_entry_C32_slerpRatio, 0..23)

// several measurements at once are all kept
void vp_entry_C32_slerpMany(int a) {
  const int k = 1 + a % 3, n = 2 + a / 3 % 3, m = a / 9;
  increasing(n + m);
  Slerp c;
  c.setSamplingRatio(k);
  std::vector<Time> ts;
  std::vector<Pose> ys;
  std::vector<int> kept;
  std::vector<Key> keys;
  for (int i = 0; i < m; ++i) {
    c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
    kept.push_back(i);
  }
  for (int i = m; i < m + n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
    kept.push_back(i);
  }
  c.extend(ts, ys, &keys);
  vp_check(keys.size() == static_cast<size_t>(n), "one key is reported for every new knot");
  knots(c, kept);
  ys.pop_back();
  vp_check(vp_aborts([&] { c.extend(ts, ys); }), "lists of different length are refused");
}
VP_RUN(vp_entry_C32_slerpMany, 0..26)

// Hermite: a measurement is kept when at least k came since the last kept one and the sampling period has passed;
// any other one becomes the provisional last knot.
void hermite(H& c, SamplingPolicy& s, int first, int n, int k, bool bulk) {
  std::vector<int> kept;
  int since = 0, last = 0;
  const double period = vp_real("period");
  std::vector<Time> ts;
  std::vector<Pose> ys;
  for (int i = first; i < first + n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
    if (!bulk) {
      s.extend<H, Pose>(ts, ys, &c);
      ts.clear();
      ys.clear();
    }
    if (kept.empty()) {
      kept.push_back(i);
      since = 0;
      last = i;
    } else if (since >= k) {
      vp_assume(vp_real("t", last) + period < vp_real("t", i));
      kept.back() = i;
      since = 0;
      last = i;
    } else {
      if (since == 0) kept.push_back(i); else kept.back() = i;
      ++since;
    }
    if (bulk && i + 1 < first + n) continue;
    if (bulk) s.extend<H, Pose>(ts, ys, &c);
    knots(c, kept);
    for (size_t j = 0; j < kept.size(); ++j) {
      Pose p;
      vp_check(c.evaluate(p, vp_real("t", kept[j])), "the curve covers its knots");
      eq(p, pose("y", "r", kept[j]), "the curve passes through the kept measurements");
    }
  }
}

void vp_entry_C32_hermite(int a) {
  const int k = 1 + a % 3, n = 1 + a / 3 % 5;
  increasing(n);
  H c;
  SamplingPolicy s(k, vp_real("period"));
  hermite(c, s, 0, n, k, a / 15);
}
VP_RUN(vp_entry_C32_hermite, 0..29)

// the sampling period holds back a knot, however many measurements came
void vp_entry_C32_period(int a) {
  const int k = 1 + a % 2, n = k + 2 + a / 2;
  increasing(n);
  H c;
  SamplingPolicy s;
  s.setMinimumMeasurements(k);
  s.setMinSamplingPeriod(vp_real("period"));
  vp_assume(vp_real("t", n - 1) <= vp_real("t", 0) + vp_real("period"));
  for (int i = 0; i < n; ++i) {
    s.extend<H, Pose>(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)), &c);
    std::vector<int> kept(1, 0);
    if (i > 0) kept.push_back(i);
    knots(c, kept);
  }
}
VP_RUN(vp_entry_C32_period, 0..5)

void vp_entry_C32_past(int a) {
  const int n = 1 + a;
  increasing(n);
  H c;
  SamplingPolicy s;
  for (int i = 0; i < n; ++i) s.extend<H, Pose>(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)), &c);
  const double x = vp_real("x");
  vp_assume(x <= vp_real("t", n - 1));
  vp_check(vp_aborts([&] { s.extend<H, Pose>(std::vector<Time>(1, x), std::vector<Pose>(1, pose("y", "r", n)), &c); }),
           "a curve is only extended into the future");
}
VP_RUN(vp_entry_C32_past, 0..2)

// the same for a list that does not increase
void vp_entry_C32_pastList(int a) {
  const int n = 2 + a / 2, at = 1 + a % 2;
  increasing(n);
  std::vector<Time> ts;
  std::vector<Pose> ys;
  for (int i = 0; i < n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  if (at < n) {
    ts[at] = vp_real("x");
    vp_assume(vp_real("x") <= vp_real("t", at - 1));
  } else {
    ts.insert(ts.begin(), vp_real("x"));
    ys.insert(ys.begin(), pose("y", "r", n));
    vp_assume(vp_real("x") >= vp_real("t", 0));
  }
  H c;
  SamplingPolicy s(1, 0.0);
  vp_check(vp_aborts([&] { s.extend<H, Pose>(ts, ys, &c); }), "a curve is only extended into the future");
}
VP_RUN(vp_entry_C32_pastList, 0..5)

// long histories at given times: every k+1-th measurement becomes a permanent knot
void vp_entry_C32_hermiteMany(int n) {
  for (int k = 1; k < 4; ++k) {
    H c;
    SamplingPolicy s(k, 0.5);
    std::vector<double> kept;
    int since = 0;
    for (int i = 0; i < n; ++i) {
      s.extend<H, Pose>(std::vector<Time>(1, i * 1.0), std::vector<Pose>(1, Pose(Pose::Position(V3(vp_real("y", i), i, 0.0)), Pose::Rotation())), &c);
      if (kept.empty()) kept.push_back(i);
      else if (since >= k) {
        kept.back() = i;
        since = 0;
      } else if (since++ == 0) kept.push_back(i);
      else kept.back() = i;
    }
    std::vector<Time> ts;
    c.getCurveTimes(&ts);
    vp_check(ts.size() == kept.size() && c.size() == static_cast<int>(kept.size()), "as many knots as the policy keeps");
    for (size_t j = 0; j < kept.size(); ++j) {
      vp_eq(ts[j], kept[j], "knots lie at the kept measurements");
      Pose p;
      vp_check(c.evaluate(p, kept[j]), "the curve covers its knots");
      vp_eq(p.getPosition().x(), vp_real("y", static_cast<int>(kept[j])), "the curve passes through the kept measurements");
    }
  }
}
VP_RUN(vp_entry_C32_hermiteMany, 9, 13, @)
VP_MORE(vp_entry_C32_hermiteMany, 260)

void vp_entry_C32_slerpLong(int n) {
  for (int k = 1; k < 5; ++k) {
    Slerp c;
    c.setSamplingRatio(k);
    std::vector<double> kept;
    std::vector<Key> keys;
    int group = 0;
    size_t fresh = 0;
    for (int i = 0; i < n; ++i) {
      c.extend(std::vector<Time>(1, i * 1.0), std::vector<Pose>(1, Pose(Pose::Position(V3(vp_real("y", i), i, 0.0)), Pose::Rotation())), &keys);
      if (kept.size() < 2 || group == 0) ++fresh;
      if (kept.size() < 2) kept.push_back(i);
      else {
        if (group == 0) kept.push_back(i); else kept.back() = i;
        group = (group + 1) % k;
      }
    }
    std::vector<Time> ts;
    c.getCurveTimes(&ts);
    vp_check(ts.size() == kept.size() && c.size() == static_cast<int>(kept.size()), "as many knots as the policy keeps");
    for (size_t j = 0; j < kept.size(); ++j) vp_eq(ts[j], kept[j], "knots lie at the kept measurements");
    vp_check(keys.size() == fresh, "one key is reported for every new knot and none for a moved one");
  }
}
VP_RUN(vp_entry_C32_slerpLong, 13, @, 260)

// ---------------------------------------------------------------- C33
void saved(const char* file, const std::vector<Time>& xs, const std::vector<Pose>& ps) {
  std::vector<Time> rt;
  std::vector<Eigen::VectorXd> rv;
  loadTimeVectorCSV(file, &rt, &rv);
  vp_check(rt.size() == xs.size() && rv.size() == xs.size(), "one row per time");
  for (size_t j = 0; j < xs.size(); ++j) {
    vp_eq(rt[j], xs[j], "rows carry their times");
    vp_check(rv[j].size() == 7, "a row is a position and a quaternion");
    const V3 p = ps[j].getPosition().vector();
    for (int i = 0; i < 3; ++i) vp_eq(rv[j][i], p[i], "rows carry the position");
    vp_eq(rv[j][3], ps[j].getRotation().w(), "rows carry the orientation");
    vp_eq(rv[j][4], ps[j].getRotation().x(), "rows carry the orientation");
    vp_eq(rv[j][5], ps[j].getRotation().y(), "rows carry the orientation");
    vp_eq(rv[j][6], ps[j].getRotation().z(), "rows carry the orientation");
  }
}

void vp_entry_C33_times(int a) {
  const int n = 1 + a % 3, m = 1 + a / 3 % 3;
  increasing(n);
  H c;
  std::vector<Time> ts, xs;
  std::vector<Pose> ys;
  for (int i = 0; i < n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  c.fitCurve(ts, ys);
  std::vector<Pose> ps;
  for (int j = 0; j < m; ++j) {
    const double x = n == 1 ? vp_real("t", 0) : vp_real("x", j);
    vp_assume(vp_real("t", 0) <= x && x <= vp_real("t", n - 1));
    xs.push_back(x);
    Pose p;
    vp_check(c.evaluate(p, x), "the time is covered");
    ps.push_back(p);
  }
  if (a / 9) c.saveCurveTimesAndValues("curve.csv"); else c.saveCurveAtTimes("curve.csv", xs);
  if (a / 9) { xs = ts; ps = ys; }
  saved("curve.csv", xs, ps);
}
VP_RUN(vp_entry_C33_times, 0..8, 9..11)

void vp_entry_C33_outside(int a) {
  const int n = a % 3, where = a / 3;
  increasing(n);
  H c;
  std::vector<Time> ts, xs;
  std::vector<Pose> ys;
  for (int i = 0; i < n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  c.fitCurve(ts, ys);
  const double x = vp_real("x");
  if (n > 0) vp_assume(where % 2 ? x < ts.front() : x > ts.back());
  if (n > 0 && where > 1) xs.push_back(ts[0]);
  xs.push_back(x);
  vp_check(vp_aborts([&] { c.saveCurveAtTimes("curve.csv", xs); }), "a time outside the curve is not written as if it had a pose");
}
VP_RUN(vp_entry_C33_outside, 0..11)

// ---------------------------------------------------------------- C18
void vp_entry_C18_slerp(int n) {
  increasing(n);
  Slerp c;
  for (int i = 0; i < n; ++i) c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
  vp_aborts([&] { c.print("curve"); });
  c.getMinTime();
  c.getMaxTime();
  vp_check(c.isEmpty() == (n == 0) && c.size() == n, "empty exactly without knots");
  H h;
  std::vector<Time> ts;
  std::vector<Pose> ys;
  for (int i = 0; i < n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  h.fitCurve(ts, ys);
  vp_aborts([&] { h.print("curve"); });
}
VP_RUN(vp_entry_C18_slerp, 0..3)

// ---------------------------------------------------------------- C26
void vp_entry_C26_slerp(int n) {
  increasing(n);
  Slerp c;
  for (int i = 0; i < n; ++i) c.extend(std::vector<Time>(1, vp_real("t", i)), std::vector<Pose>(1, pose("y", "r", i)));
  const SlerpSE3Curve& k = c;
  const double x = vp_real("x");
  const unsigned o = n;
  vp_check(vp_aborts([&] { k.evaluate(x); }), "evaluation is refused");
  vp_check(vp_aborts([&] { k.evaluateDerivative(x, o); }), "evaluation is refused");
  vp_check(vp_aborts([&] { c.setTimeRange(x, x); }), "setting the time range is refused");
  vp_check(vp_aborts([&] { c.evaluateAngularVelocityA(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateAngularVelocityB(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearVelocityA(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearVelocityB(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateTwistA(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateTwistB(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateAngularDerivativeA(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateAngularDerivativeB(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearDerivativeA(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearDerivativeB(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateDerivativeA(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateDerivativeB(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { transformationPower(Pose(), x); }), "pose powers are refused");
  vp_check(vp_aborts([&] { inverseTransformation(Pose()); }), "pose inversion is refused");
}
VP_RUN(vp_entry_C26_slerp, 0..2)

// ---------------------------------------------------------------- C35
void evalPose(int n, int samples, const double* times) {
  if (!times) increasing(n);
  H c;
  std::vector<Time> ts;
  std::vector<Pose> ys;
  for (int i = 0; i < n; ++i) {
    ts.push_back(times ? times[i] : vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  if (n) c.fitCurve(ts, ys);
  std::vector<std::vector<double>> rows;
  if (n > 1) {
    for (int k = 0; k + 1 < samples; ++k) {
      const double x = ts[0] + k * ((ts[n - 1] - ts[0]) / (samples - 1));
      Pose p;
      H::DerivativeType d;
      vp_check(c.evaluate(p, x) && c.evaluateDerivative(d, x, 1), "the curve covers its samples");
      const V3 q = p.getPosition().vector(), v = d.getTranslationalVelocity().vector(), w = d.getRotationalVelocity().vector();
      rows.push_back({x, q[0], q[1], q[2], p.getRotation().w(), p.getRotation().x(), p.getRotation().y(), p.getRotation().z(),
                      v[0], v[1], v[2], w[0], w[1], w[2]});
    }
  }
  vp_check(c.writeEvalToFile("eval.txt", samples), "writing succeeds");
  if (samples % 2) vp_check(c.writeEvalToFile("eval.txt", samples), "writing over an older file succeeds");
  evalFile("eval.txt", {"t", "px", "py", "pz", "rw", "rx", "ry", "rz", "vx", "vy", "vz", "wx", "wy", "wz"}, rows);
}
void vp_entry_C35_pose(int a) { evalPose(a % 3, 2 + a / 3, 0); }
VP_RUN(vp_entry_C35_pose, 0..8)
VP_MORE(vp_entry_C35_pose, 9..14)

void vp_entry_C35_poseTimes(int a) {
  const double times[][2] = {{0.0, 1.0}, {-7.0, -6.9990234375}, {2.5, 4098.5}};
  evalPose(2, 4 + a, times[a]);
}
VP_RUN(vp_entry_C35_poseTimes, 0..2)

void vp_entry_C35_poseFaults(int a) {
  const int n = 1 + a % 2;
  increasing(n);
  H c;
  std::vector<Time> ts;
  std::vector<Pose> ys;
  for (int i = 0; i < n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  c.fitCurve(ts, ys);
  vp_fault(a / 2 ? "write" : "open_write", true);
  vp_check(!c.writeEvalToFile("eval.txt", 2), "a file that cannot be written is reported");
}
VP_RUN(vp_entry_C35_poseFaults, 0..3)

// ---------------------------------------------------------------- C36
// a slerp curve whose user supplies the evaluation (any function of time)
struct Moving : public Slerp {
  using Slerp::evaluate;
  using Slerp::evaluateDerivative;
  virtual ValueType evaluate(Time time) const {
    return Pose(Pose::Position(V3(vp_real("m", 0) + time * vp_real("n", 0), vp_real("m", 1) + time * vp_real("n", 1), vp_real("m", 2) - time)),
                Q().exponentialMap(V3(vp_real("w", 0), vp_real("w", 1), time)));
  }
};

// ascending without repetitions
void merge(std::vector<double>& have, double t) {
  size_t i = 0;
  while (i < have.size() && have[i] < t) ++i;
  if (i < have.size() && have[i] == t) return;
  have.insert(have.begin() + i, t);
}

template <class C>
void reports(const C& c, const std::vector<double>& have) {
  vp_check(c.size() == static_cast<int>(have.size()), "size counts the knots");
  vp_check(c.isEmpty() == have.empty(), "empty means no knots");
  std::vector<Time> ts;
  c.getCurveTimes(&ts);
  vp_check(ts.size() == have.size(), "one time per knot");
  for (size_t i = 0; i < have.size(); ++i) vp_eq(ts[i], have[i], "the times of the knots in ascending order");
  if (have.empty()) return;
  vp_eq(c.getMinTime(), have.front(), "the first time is that of the first knot");
  vp_eq(c.getMaxTime(), have.back(), "the last time is that of the last knot");
}

template <class C>
void give(C& c, const char* name, int n, std::vector<double>& have, bool fit) {
  std::vector<Time> ts;
  std::vector<Pose> ys;
  if (fit) have.clear();
  for (int i = 0; i < n; ++i) {
    if (i > 0) vp_assume(vp_real(name, i - 1) < vp_real(name, i));
    ts.push_back(vp_real(name, i));
    ys.push_back(pose(name, "r", i));
    merge(have, vp_real(name, i));
  }
  c.fitCurve(ts, ys);
}

void vp_entry_C36_slerp(int a) {
  const int n = 1 + a % 3, m = a / 3 % 3, op = a / 9;
  Moving c;
  std::vector<double> have;
  reports(c, have);
  give(c, "t", n, have, true);
  reports(c, have);
  if (op == 0) {
    // further knots anywhere, in any order, also on occupied times
    std::vector<Time> ts;
    std::vector<Pose> ys;
    for (int i = 0; i < m; ++i) {
      ts.push_back(vp_real("s", i));
      ys.push_back(pose("s", "r", i));
      merge(have, vp_real("s", i));
    }
    c.setCurve(ts, ys);
  }
  if (op == 1) c.transformCurve(pose("q", "q", 0));
  if (op == 2) { c.clear(); have.clear(); }
  if (op == 3) give(c, "s", 1 + m, have, true);
  if (op == 4) { c.clear(); have.clear(); give(c, "s", 1 + m, have, true); }
  reports(c, have);
}
VP_RUN(vp_entry_C36_slerp, 0..44)

void vp_entry_C36_hermite(int a) {
  const int n = 1 + a % 3, m = 1 + a / 3 % 3, op = a / 9;
  H c;
  std::vector<double> have;
  reports(c, have);
  give(c, "t", n, have, true);
  reports(c, have);
  if (op == 0) give(c, "s", m, have, true);
  if (op == 1) { c.clear(); have.clear(); }
  if (op == 2) { c.clear(); have.clear(); reports(c, have); give(c, "s", m, have, true); }
  if (op == 4) { c.fitCurve({}, {}); have.clear(); }
  if (op == 3) {
    std::vector<Time> ts;
    std::vector<Pose> ys;
    have.clear();
    for (int i = 0; i <= m; ++i) {
      if (i > 0) vp_assume(vp_real("s", i - 1) < vp_real("s", i));
      ts.push_back(vp_real("s", i));
      ys.push_back(pose("s", "r", i));
      have.push_back(vp_real("s", i));
    }
    ys.back() = ys.front();
    c.fitPeriodicCurve(ts, ys);
  }
  reports(c, have);
}
VP_RUN(vp_entry_C36_hermite, 0..44)

// saving a slerp curve
void vp_entry_C33_slerp(int a) {
  const int n = 1 + a % 3, m = 1 + a / 3;
  increasing(n);
  Moving c;
  std::vector<Time> ts, xs;
  std::vector<Pose> ys, ps;
  for (int i = 0; i < n; ++i) {
    ts.push_back(vp_real("t", i));
    ys.push_back(pose("y", "r", i));
  }
  c.fitCurve(ts, ys);
  for (int j = 0; j < m; ++j) xs.push_back(vp_real("x", j));
  if (m == 3) { c.saveCurveTimesAndValues("curve.csv"); xs = ts; } else c.saveCurveAtTimes("curve.csv", xs);
  for (size_t j = 0; j < xs.size(); ++j) ps.push_back(c.evaluate(xs[j]));
  saved("curve.csv", xs, ps);
}
VP_RUN(vp_entry_C33_slerp, 0..8)
