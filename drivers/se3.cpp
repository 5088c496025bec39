// Hermite pose curves: C25 (translation), C31 (orientation), and their share of C13, C18, C26, C29.
#include <cassert>
#include <limits>
#include "vp.hpp"
#include "curves/CubicHermiteSE3Curve.hpp"
#include "curves/src/CubicHermiteSE3Curve.cpp"
#include "curves/src/KeyGenerator.cpp"
using namespace curves;
using C = CubicHermiteSE3Curve;
using Pose = C::ValueType;
using Tw = C::DerivativeType;
using Q = kindr::RotationQuaternionD;
using V3 = Eigen::Vector3d;

namespace {

V3 vec(const char* name) { return V3(vp_real(name, 0), vp_real(name, 1), vp_real(name, 2)); }
V3 vec(const char* name, int i) { return V3(vp_real(name, i, 0), vp_real(name, i, 1), vp_real(name, i, 2)); }
Q unit(const char* name, int i) { return Q().exponentialMap(vec(name, i)); }      // every orientation but half turns

void knots(int n, std::vector<double>& t, std::vector<Pose>& y) {
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("t", i));
    y.push_back(Pose(Pose::Position(vec("y", i)), unit("r", i)));
    if (i > 0) vp_assume(vp_real("t", i - 1) < vp_real("t", i));
  }
}

struct Knot { V3 p, v, w; Q q; };

Knot knot(int i, int n, int how, const std::vector<double>& t, const std::vector<Pose>& y) {
  Knot k;
  k.p = y[i].getPosition().vector();
  k.q = y[i].getRotation();
  int a = i - 1, b = i + 1;
  double ta = 0.0, tb = 1.0;
  if (i == 0 || i == n - 1) {
    if (how < 2) {
      k.v = how == 0 ? V3(V3::Zero()) : vec(i == 0 ? "va" : "vb");
      k.w = how == 0 ? V3(V3::Zero()) : vec(i == 0 ? "wa" : "wb");
      return k;
    }
    a = n - 2;
    b = 1;
    ta = t[0] - (t[n - 1] - t[n - 2]);
    tb = t[1];
  } else {
    ta = t[a];
    tb = t[b];
  }
  k.v = (y[b].getPosition().vector() - y[a].getPosition().vector()) / (tb - ta);
  k.w = y[b].getRotation().boxMinus(y[a].getRotation()) / (tb - ta);
  return k;
}

void fit(C& c, int how, const std::vector<double>& t, const std::vector<Pose>& y, std::vector<Key>* keys = nullptr) {
  if (how == 0) c.fitCurve(t, y, keys);
  if (how == 1) c.fitCurveWithDerivatives(t, y, Tw(vec("va"), vec("wa")), Tw(vec("vb"), vec("wb")), keys);
  if (how == 2) c.fitPeriodicCurve(t, y, keys);
}

double cubic(double p0, double p1, double v0, double v1, double T, double s) {
  const double a = (2.0 * (p0 - p1) + (v0 + v1) * T) / (T * T * T);
  const double b = (3.0 * (p1 - p0) - (2.0 * v0 + v1) * T) / (T * T);
  return p0 + s * (v0 + s * (b + s * a));
}

void eq(const V3& a, const V3& b, const char* label) {
  for (int j = 0; j < 3; ++j) vp_eq(a[j], b[j], label);
}
void eq(const Q& a, const Q& b, const char* label) {
  vp_eq(a.w(), b.w(), label);
  vp_eq(a.x(), b.x(), label);
  vp_eq(a.y(), b.y(), label);
  vp_eq(a.z(), b.z(), label);
}

}  // namespace

// ---------------------------------------------------------------- C25
void vp_entry_C25_segment(int a) {
  const int n = 2 + a / 9 % 3, how = a % 3, k = a / 3 % 3;
  if (k >= n - 1) return;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  C c;
  fit(c, how, t, y);
  const Knot A = knot(k, n, how, t, y), B = knot(k + 1, n, how, t, y);
  const double x = vp_real("x");
  vp_assume(t[k] < x && x < t[k + 1]);
  Pose p;
  Tw v;
  kindr::Acceleration3D acc;
  vp_check(c.evaluate(p, x), "evaluation inside the range succeeds");
  vp_check(c.evaluateDerivative(v, x, 1), "first derivative inside the range succeeds");
  vp_check(c.evaluateLinearAcceleration(acc, x), "acceleration inside the range succeeds");
  const V3 pp = p.getPosition().vector(), vv = v.getTranslationalVelocity().vector(), aa = acc.vector();
  for (int j = 0; j < 3; ++j) {
    const double e = cubic(A.p[j], B.p[j], A.v[j], B.v[j], t[k + 1] - t[k], x - t[k]);
    vp_eq(pp[j], e, "translation is the Hermite cubic of the segment");
    vp_eq(vv[j], vp_diff(e, x), "linear velocity is the derivative of the translation");
    vp_eq(aa[j], vp_diff(vp_diff(e, x), x), "linear acceleration is the second derivative of the translation");
  }
}
VP_RUN(vp_entry_C25_segment, 0..2, 9..14, 18..26)

void vp_entry_C25_knot(int a) {
  const int n = 1 + a / 12, how = a % 3, k = a / 3 % 4;
  if (k >= n || (n == 1 && how == 2)) return;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  C c;
  if (a % 2) { std::vector<double> t2(1, 0.5); c.fitCurve(t2, std::vector<Pose>(1, Pose())); }
  std::vector<Key> keys;
  fit(c, how, t, y, &keys);
  const Knot K = knot(k, n, how, t, y);
  Pose p;
  Tw v;
  vp_check(c.size() == n && keys.size() == static_cast<size_t>(n) && !c.isEmpty(), "one knot and one key per input time");
  vp_eq(c.getMinTime(), t[0], "range starts at the first time");
  vp_eq(c.getMaxTime(), t[n - 1], "range ends at the last time");
  vp_check(c.evaluate(p, t[k]), "evaluation at a knot succeeds");
  vp_check(c.evaluateDerivative(v, t[k], 1), "first derivative at a knot succeeds");
  eq(p.getPosition().vector(), K.p, "a knot evaluates to its position");
  eq(v.getTranslationalVelocity().vector(), K.v, "a knot carries the linear velocity asked for");
}
VP_RUN(vp_entry_C25_knot, 0, 1, 12..17, 24..32, 36..47)

// many knots; the orientation is unknown at the knots near "around" only
void manyKnots(int n, int around, std::vector<double>& t, std::vector<Pose>& y) {
  for (int i = 0; i < n; ++i) {
    t.push_back(i + 1.0 / (i + 2.0));
    y.push_back(Pose(Pose::Position(vec("y", i)), i >= around - 1 && i <= around + 1 ? unit("r", i) : Q()));
  }
}

void vp_entry_C25_large(int n) {
  for (int how = 0; how < 3; ++how) {
    std::vector<double> t;
    std::vector<Pose> y;
    manyKnots(n, -5, t, y);
    C c;
    fit(c, how, t, y);
    vp_check(c.size() == n, "one knot per input time");
    for (int k = 0; k < n; ++k) {
      const Knot K = knot(k, n, how, t, y);
      Pose p;
      Tw v;
      vp_check(c.evaluate(p, t[k]) && c.evaluateDerivative(v, t[k], 1), "every input time can be evaluated");
      eq(p.getPosition().vector(), K.p, "a knot evaluates to its position");
      if (how == 0 || k == 0 || k > n - 3) eq(v.getTranslationalVelocity().vector(), K.v, "a knot carries the linear velocity asked for");
    }
  }
}
VP_RUN(vp_entry_C25_large, 6, @)

void vp_entry_C25_outside(int n) {
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  C c;
  c.fitCurve(t, y);
  const double x = vp_real("x");
  const bool in = n >= 1 && t[0] <= x && x <= t[n - 1];
  Pose p(Pose::Position(vec("p")), Q());
  Tw v(vec("v"), vec("w"));
  kindr::Acceleration3D b(vec("b"));
  vp_check(c.evaluate(p, x) == in, "a pose is delivered exactly inside the range");
  vp_check(c.evaluateDerivative(v, x, 1) == in, "a velocity is delivered exactly inside the range");
  vp_check(c.evaluateLinearAcceleration(b, x) == (in && n >= 2), "an acceleration is delivered exactly inside the range");
  if (!in) {
    eq(p.getPosition().vector(), vec("p"), "refusal leaves the output untouched");
    eq(v.getTranslationalVelocity().vector(), vec("v"), "refusal leaves the output untouched");
    eq(b.vector(), vec("b"), "refusal leaves the output untouched");
  }
}
VP_RUN(vp_entry_C25_outside, 0..3)

// ---------------------------------------------------------------- C31
void vp_entry_C31_segment(int a) {
  const int n = 2 + a / 9 % 3, how = a % 3, k = a / 3 % 3;
  if (k >= n - 1) return;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  C c;
  fit(c, how, t, y);
  const Knot A = knot(k, n, how, t, y), B = knot(k + 1, n, how, t, y);
  const double x = vp_real("x");
  vp_assume(t[k] < x && x < t[k + 1]);
  Pose p;
  Tw v;
  vp_check(c.evaluate(p, x), "evaluation inside the range succeeds");
  vp_check(c.evaluateDerivative(v, x, 1), "first derivative inside the range succeeds");
  // the spline equation of the header
  const double T = t[k + 1] - t[k], s = (x - t[k]) / T;
  const V3 w1 = A.q.inverseRotate(A.w * (T / 3.0)), w3 = B.q.inverseRotate(B.w * (T / 3.0));
  const V3 w2 = (Q().exponentialMap(w1).inverted() * A.q.inverted() * B.q * Q().exponentialMap(w3).inverted()).logarithmicMap();
  const double b1 = s * (3.0 - s * (3.0 - s)), b2 = s * s * (3.0 - 2.0 * s), b3 = s * s * s;
  const Q e1 = A.q * Q().exponentialMap(w1 * b1), e2 = e1 * Q().exponentialMap(w2 * b2), e3 = e2 * Q().exponentialMap(w3 * b3);
  eq(p.getRotation(), e3, "orientation follows the spline equation");
  const Q q = p.getRotation();
  vp_eq(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z(), 1.0, "orientation is a unit quaternion");
  const double d1 = 3.0 * (1.0 - s) * (1.0 - s), d2 = 6.0 * s * (1.0 - s), d3 = 3.0 * s * s;
  const V3 w = (A.q.rotate(w1 * d1) + e1.rotate(w2 * d2) + e2.rotate(w3 * d3)) / T;
  eq(v.getRotationalVelocity().vector(), w, "angular velocity is that of the spline equation");
}
VP_RUN(vp_entry_C31_segment, 0..2, 9..14)
VP_MORE(vp_entry_C31_segment, 18..26)

void vp_entry_C31_knot(int a) {
  const int n = 1 + a / 12, how = a % 3, k = a / 3 % 4;
  if (k >= n || (n == 1 && how == 2)) return;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  C c;
  fit(c, how, t, y);
  const Knot K = knot(k, n, how, t, y);
  Pose p;
  Tw v;
  vp_check(c.evaluate(p, t[k]), "evaluation at a knot succeeds");
  vp_check(c.evaluateDerivative(v, t[k], 1), "first derivative at a knot succeeds");
  eq(p.getRotation(), K.q, "a knot evaluates to its orientation");
  eq(v.getRotationalVelocity().vector(), K.w, "a knot carries the angular velocity asked for");
}
VP_RUN(vp_entry_C31_knot, 0, 1, 12..17, 24..32)
VP_MORE(vp_entry_C31_knot, 36..47)

void vp_entry_C31_large(int n) {
  for (int m = 0; m < 3; ++m) {
    const int k = m == 0 ? 0 : m == 1 ? n / 2 : n - 1;
    std::vector<double> t;
    std::vector<Pose> y;
    manyKnots(n, k == 0 ? 1 : k == n - 1 ? n - 2 : k, t, y);
    C c;
    fit(c, k % (n - 1) == 0 ? 2 : 1, t, y);
    const Knot K = knot(k, n, k % (n - 1) == 0 ? 2 : 1, t, y);
    Pose p;
    Tw v;
    vp_check(c.evaluate(p, t[k]) && c.evaluateDerivative(v, t[k], 1), "evaluation at a knot succeeds");
    eq(p.getRotation(), K.q, "a knot evaluates to its orientation");
    eq(v.getRotationalVelocity().vector(), K.w, "a knot carries the angular velocity asked for");
  }
}
VP_RUN(vp_entry_C31_large, 4, 5, @)

// ---------------------------------------------------------------- C13
void vp_entry_C13_pose(int a) {
  const int n = 1 + a % 2;
  const unsigned order = a / 2 == 0 ? 0u : a / 2 == 1 ? 3u : 4000000000u;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  C c;
  c.fitCurve(t, y);
  Tw v(vec("v"), vec("w"));
  vp_check(!c.evaluateDerivative(v, vp_real("x"), order), "orders other than one and two are refused");
  eq(v.getTranslationalVelocity().vector(), vec("v"), "refusal leaves the output untouched");
  eq(v.getRotationalVelocity().vector(), vec("w"), "refusal leaves the output untouched");
}
VP_RUN(vp_entry_C13_pose, 0..5)

// ---------------------------------------------------------------- C18
void vp_entry_C18_pose(int a) {
  const int n = a % 3;
  C c;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  if (a / 3 == 0) c.fitCurve(t, y);
  if (a / 3 == 1) vp_aborts([&] { c.fitPeriodicCurve(t, y); });
  if (a / 3 == 2) { c.fitCurve(t, y); c.clear(); }
  Pose p;
  Tw v;
  kindr::Acceleration3D b;
  const double x = vp_real("x");
  const bool none = n == 0 || a / 3 == 2;
  const bool r0 = c.evaluate(p, x), r1 = c.evaluateDerivative(v, x, 1), r2 = c.evaluateLinearAcceleration(b, x);
  if (none) vp_check(!r0 && !r1 && !r2, "an empty curve reports failure");
  c.getMinTime();
  c.getMaxTime();
  vp_check(c.isEmpty() == (c.size() == 0), "empty exactly without knots");
}
VP_RUN(vp_entry_C18_pose, 0..8)

// ---------------------------------------------------------------- C26
void vp_entry_C26_pose(int n) {
  C c;
  std::vector<double> t;
  std::vector<Pose> y;
  knots(n, t, y);
  c.fitCurve(t, y);
  std::vector<Key> k;
  const double x = vp_real("x");
  const unsigned o = n;
  vp_check(vp_aborts([&] { c.extend(t, y); }), "extending is refused");
  vp_check(vp_aborts([&] { c.extend(t, y, &k); }), "extending is refused");
  vp_check(vp_aborts([&] { c.setTimeRange(x, x); }), "setting the time range is refused");
  vp_check(vp_aborts([&] { c.transformCurve(Pose()); }), "transforming is refused");
  vp_check(vp_aborts([&] { c.evaluateAngularVelocityA(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateAngularVelocityB(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearVelocityA(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearVelocityB(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateTwistA(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateTwistB(x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateAngularDerivativeA(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateAngularDerivativeB(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearDerivativeA(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateLinearDerivativeB(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateDerivativeA(o, x); }), "frame-wise queries are refused");
  vp_check(vp_aborts([&] { c.evaluateDerivativeB(o, x); }), "frame-wise queries are refused");
}
VP_RUN(vp_entry_C26_pose, 0..2)

namespace { struct AnyCurve {}; }
void vp_entry_C26_policy(int n) {
  SamplingPolicy s;
  AnyCurve c;
  std::vector<double> t(n, 1.0), v(n, 2.0);
  std::vector<Key> k;
  vp_check(vp_aborts([&] { s.extend<AnyCurve, double>(t, v, &c, &k); }), "a curve without extension policy is not extended");
  vp_check(vp_aborts([&] { s.extend<AnyCurve, double>(t, v, &c); }), "a curve without extension policy is not extended");
  vp_check(vp_aborts([&] { s.defaultExtend<AnyCurve, double>(1.0, 2.0, &c); }), "a curve without extension policy is not extended");
  vp_check(vp_aborts([&] { s.interpolationExtend<AnyCurve, double>(1.0, 2.0, &c); }), "a curve without extension policy is not extended");
}
VP_RUN(vp_entry_C26_policy, 0..2)

// ---------------------------------------------------------------- C29
void vp_entry_C29_pose(int a) {
  std::vector<double> t;
  std::vector<Pose> y;
  knots(3, t, y);
  C c;
  fit(c, 1, t, y);
  C d(c), e;
  std::vector<double> t2(1, 1.0);
  t2.push_back(2.0);
  e.fitCurve(t2, std::vector<Pose>(2, Pose()));
  e = c;
  if (a == 0) c.clear();
  if (a == 1) c.fitCurve(t2, std::vector<Pose>(2, Pose()));
  if (a == 2) { d.clear(); d = c; e = d; }
  const double x = vp_real("x");
  vp_assume(t[0] < x && x < t[1]);
  const Knot A = knot(0, 3, 1, t, y), B = knot(1, 3, 1, t, y);
  Pose p, q;
  vp_check(d.evaluate(p, x) && e.evaluate(q, x), "copies can be evaluated");
  for (int j = 0; j < 3; ++j) {
    const double r = cubic(A.p[j], B.p[j], A.v[j], B.v[j], t[1] - t[0], x - t[0]);
    vp_eq(p.getPosition().vector()[j], r, "a copy has the original's value");
    vp_eq(q.getPosition().vector()[j], r, "an assigned copy has the original's value");
  }
}
VP_RUN(vp_entry_C29_pose, 0..2)
