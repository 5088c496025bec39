// Hermite curves over positions: C13 (derivative orders), C23 (evaluation), C24 (fitting), C18, C26, C29, C35, C36.
#include <cassert>
#include <limits>
#include "vp.hpp"
#include "evalfile.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
#include "curves/src/CubicHermiteE3Curve.cpp"
#include "curves/src/KeyGenerator.cpp"
using namespace curves;
using Curve3 = CubicHermiteE3Curve;
using V3 = Eigen::Vector3d;

namespace {

V3 vec(const char* name) { return V3(vp_real(name, 0), vp_real(name, 1), vp_real(name, 2)); }
V3 vec(const char* name, int i) { return V3(vp_real(name, i, 0), vp_real(name, i, 1), vp_real(name, i, 2)); }

void knots(int n, std::vector<double>& t, std::vector<V3>& y) {
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("t", i));
    y.push_back(vec("y", i));
    if (i > 0) vp_assume(vp_real("t", i - 1) < vp_real("t", i));
  }
}

void eq(const V3& a, const V3& b, const char* label) {
  for (int j = 0; j < 3; ++j) vp_eq(a[j], b[j], label);
}

// the velocity a fit should give knot i
V3 tangent(int i, int n, const std::vector<double>& t, const std::vector<V3>& y, const V3& first, const V3& last) {
  if (i == 0) return first;
  if (i == n - 1) return last;
  return (y[i + 1] - y[i - 1]) / (t[i + 1] - t[i - 1]);
}

// Hermite cubic of segment [i, i+1] at x, written in the monomial basis of the time since the segment's start
double cubic(double p0, double p1, double v0, double v1, double T, double s) {
  const double a = (2.0 * (p0 - p1) + (v0 + v1) * T) / (T * T * T);
  const double b = (3.0 * (p1 - p0) - (2.0 * v0 + v1) * T) / (T * T);
  return p0 + s * (v0 + s * (b + s * a));
}

// how: 0 default boundary velocities, 1 given ones, 2 periodic
void fit(Curve3& c, int how, const std::vector<double>& t, const std::vector<V3>& y, V3& first, V3& last, std::vector<Key>* keys = nullptr) {
  const int n = static_cast<int>(t.size());
  first = V3::Zero();
  last = V3::Zero();
  if (how == 0) {
    c.fitCurve(t, y, keys);
  } else if (how == 1) {
    first = vec("va");
    last = vec("vb");
    c.fitCurveWithDerivatives(t, y, first, last, keys);
  } else {
    c.fitPeriodicCurve(t, y, keys);
    first = (y[1] - y[n - 2]) / (t[1] - (t[0] - (t[n - 1] - t[n - 2])));
    last = first;
  }
}

void segment(int n, int how, int k) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  V3 first, last;
  fit(c, how, t, y, first, last);
  const double x = vp_real("x");
  vp_assume(t[k] < x && x < t[k + 1]);
  const double T = t[k + 1] - t[k];
  const V3 v0 = tangent(k, n, t, y, first, last), v1 = tangent(k + 1, n, t, y, first, last);
  V3 p, v, a, b;
  vp_check(c.evaluate(p, x), "evaluation inside the range succeeds");
  vp_check(c.evaluateDerivative(v, x, 1), "first derivative inside the range succeeds");
  vp_check(c.evaluateDerivative(a, x, 2), "second derivative inside the range succeeds");
  vp_check(c.evaluateLinearAcceleration(b, x), "acceleration inside the range succeeds");
  for (int j = 0; j < 3; ++j) {
    const double e = cubic(y[k][j], y[k + 1][j], v0[j], v1[j], T, x - t[k]);
    vp_eq(p[j], e, "value is the Hermite cubic of the segment");
    vp_eq(v[j], vp_diff(e, x), "first derivative is that of the value");
    vp_eq(a[j], vp_diff(vp_diff(e, x), x), "second derivative is that of the value");
    vp_eq(b[j], a[j], "acceleration is the second derivative");
  }
}

void atKnot(int n, int how, int k) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  V3 first, last;
  fit(c, how, t, y, first, last);
  V3 p, v, a, b;
  vp_check(c.evaluate(p, t[k]), "evaluation at a knot succeeds");
  vp_check(c.evaluateDerivative(v, t[k], 1), "first derivative at a knot succeeds");
  eq(p, y[k], "a knot evaluates to its position");
  eq(v, tangent(k, n, t, y, first, last), "a knot carries the velocity asked for");
  if (n >= 2) {
    vp_check(c.evaluateLinearAcceleration(b, t[k]), "acceleration at a knot succeeds");
    vp_check(c.evaluateDerivative(a, t[k], 2), "second derivative at a knot succeeds");
    eq(a, b, "acceleration is the second derivative");
    const int s = k < n - 1 ? k : n - 2;
    const double x = vp_real("x"), T = t[s + 1] - t[s];
    const V3 v0 = tangent(s, n, t, y, first, last), v1 = tangent(s + 1, n, t, y, first, last);
    const double h = t[k] - t[s];
    for (int j = 0; j < 3; ++j) {
      const double A = (2.0 * (y[s][j] - y[s + 1][j]) + (v0[j] + v1[j]) * T) / (T * T * T);
      const double B = (3.0 * (y[s + 1][j] - y[s][j]) - (2.0 * v0[j] + v1[j]) * T) / (T * T);
      vp_eq(a[j], 2.0 * B + 6.0 * A * h, "acceleration at a knot is that of the adjoining segment");
    }
  }
}

}  // namespace

// ---------------------------------------------------------------- C23
void vp_entry_C23_segment(int a) {
  const int n = 2 + a / 12 % 3, how = a % 3, k = a / 3 % 4;
  if (k >= n - 1) return;
  segment(n, how, k);
}
VP_RUN(vp_entry_C23_segment, 0..2, 12..17, 24..32)
void vp_entry_C23_large(int n) { segment(n, 1, n / 2); }
VP_RUN(vp_entry_C23_large, 6, @)
void vp_entry_C23_knot(int a) {
  const int n = 1 + a / 12, how = a % 3, k = a / 3 % 4;
  if (k >= n || (n == 1 && how == 2)) return;
  atKnot(n, how, k);
}
VP_RUN(vp_entry_C23_knot, 0, 1, 12..17, 24..32, 36..47)

void vp_entry_C23_outside(int a) {
  const int n = a % 5, before = a / 5;
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  if (before) {
    std::vector<double> t2(1, vp_real("s", 0));
    std::vector<V3> y2(2, V3(1, 2, 3));
    t2.push_back(vp_real("s", 1));
    vp_assume(vp_real("s", 0) < vp_real("s", 1));
    c.fitCurve(t2, y2);
  }
  if (n > 0) c.fitCurve(t, y); else c.clear();
  const double x = vp_real("x");
  const bool in = n >= 1 && t[0] <= x && x <= t[n - 1];
  V3 p = vec("p"), v = vec("v"), b = vec("b");
  vp_check(c.evaluate(p, x) == in, "a value is delivered exactly inside the range");
  vp_check(c.evaluateDerivative(v, x, 1) == in, "a first derivative is delivered exactly inside the range");
  vp_check(c.evaluateLinearAcceleration(b, x) == (in && n >= 2), "an acceleration is delivered exactly inside the range");
  if (!in) {
    eq(p, vec("p"), "refusal leaves the output untouched");
    eq(v, vec("v"), "refusal leaves the output untouched");
    eq(b, vec("b"), "refusal leaves the output untouched");
  }
  vp_eq(c.getMinTime(), n > 0 ? t[0] : 0.0, "range starts at the first knot");
  vp_eq(c.getMaxTime(), n > 0 ? t[n - 1] : 0.0, "range ends at the last knot");
  vp_check(c.size() == n && c.isEmpty() == (n == 0), "as many knots as were fitted");
}
VP_RUN(vp_entry_C23_outside, 0..9)

// ---------------------------------------------------------------- C13
void vp_entry_C13_hermite(int a) {
  const int n = 2 + a % 2;
  const unsigned order = a / 2 == 0 ? 0u : a / 2 == 1 ? 3u : a / 2 == 2 ? 7u : 4000000000u;
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  c.fitCurve(t, y);
  V3 v = vec("v");
  vp_check(!c.evaluateDerivative(v, vp_real("x"), order), "orders other than one and two are refused");
  eq(v, vec("v"), "refusal leaves the output untouched");
}
VP_RUN(vp_entry_C13_hermite, 0..7)
void vp_entry_C13_hermiteOrders(int k) { segment(3, 1, k); }
VP_RUN(vp_entry_C13_hermiteOrders, 0..1)

// ---------------------------------------------------------------- C24
void vp_entry_C24_fit(int a) {
  const int n = 1 + a / 6 % 5, how = a % 3, again = a / 3 % 2;
  if (n == 1 && how == 2) return;
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  V3 first, last;
  if (again) {
    std::vector<double> t2;
    std::vector<V3> y2;
    for (int i = 0; i < 3; ++i) {
      t2.push_back(vp_real("s", i));
      y2.push_back(vec("z", i));
      if (i > 0) vp_assume(vp_real("s", i - 1) < vp_real("s", i));
    }
    c.fitCurveWithDerivatives(t2, y2, vec("wa"), vec("wb"));
  }
  std::vector<Key> keys;
  fit(c, how, t, y, first, last, &keys);
  vp_check(c.size() == n, "one knot per input time");
  vp_check(keys.size() == static_cast<size_t>(n), "one key per knot");
  vp_eq(c.getMinTime(), t[0], "range starts at the first time");
  vp_eq(c.getMaxTime(), t[n - 1], "range ends at the last time");
  for (int k = 0; k < n; ++k) {
    V3 p, v;
    vp_check(c.evaluate(p, t[k]), "every input time can be evaluated");
    vp_check(c.evaluateDerivative(v, t[k], 1), "every input time has a velocity");
    eq(p, y[k], "a knot has the given position");
    eq(v, tangent(k, n, t, y, first, last), "a knot has the velocity asked for");
  }
}
VP_RUN(vp_entry_C24_fit, 0, 1, 3, 4, 6..29)
void vp_entry_C24_large(int n) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  V3 first, last;
  fit(c, 1, t, y, first, last);
  vp_check(c.size() == n, "one knot per input time");
  for (int k = 0; k < n; ++k) {
    V3 p, v;
    vp_check(c.evaluate(p, t[k]) && c.evaluateDerivative(v, t[k], 1), "every input time can be evaluated");
    eq(p, y[k], "a knot has the given position");
    eq(v, tangent(k, n, t, y, first, last), "a knot has the velocity asked for");
  }
}
VP_RUN(vp_entry_C24_large, 6, @)
void vp_entry_C24_largeOther(int a) {
  const int n = a;
  for (int h = 0; h < 3; h += 2) {
    std::vector<double> t;
    std::vector<V3> y;
    knots(n, t, y);
    Curve3 c;
    V3 first, last;
    fit(c, h, t, y, first, last);
    vp_check(c.size() == n, "one knot per input time");
    for (int k = 0; k < n; k += k == 1 && n > 4 ? n - 3 : 1) {
      V3 p, v;
      vp_check(c.evaluate(p, t[k]) && c.evaluateDerivative(v, t[k], 1), "every input time can be evaluated");
      eq(p, y[k], "a knot has the given position");
      eq(v, tangent(k, n, t, y, first, last), "a knot has the velocity asked for");
    }
  }
}
VP_RUN(vp_entry_C24_largeOther, 7, @)
// a fit to no points replaces the previous curve, too
void vp_entry_C24_none(int a) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(a % 3, t, y);
  Curve3 c;
  c.fitCurve(t, y);
  if (a / 3) c.fitCurveWithDerivatives({}, {}, vec("va"), vec("vb")); else c.fitCurve({}, {});
  V3 p;
  vp_check(c.size() == 0 && c.isEmpty() && !c.evaluate(p, vp_real("x")), "fitting replaces the previous curve");
}
VP_RUN(vp_entry_C24_none, 0..5)
void vp_entry_C24_slope(int) {
  Curve3 c;
  const double t0 = vp_real("t", 0), t1 = vp_real("t", 1);
  vp_assume(t0 < t1);
  const V3 s = c.calculateSlope(t0, t1, vec("y", 0), vec("y", 1));
  for (int j = 0; j < 3; ++j) vp_eq(s[j] * (t1 - t0), vp_real("y", 1, j) - vp_real("y", 0, j), "slope is the difference quotient");
}
VP_RUN(vp_entry_C24_slope, 0)

// ---------------------------------------------------------------- C18
void vp_entry_C18_hermite(int a) {
  const int n = a % 3;
  Curve3 c;
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  if (a / 3 == 0) c.fitCurve(t, y);
  if (a / 3 == 1) vp_aborts([&] { c.fitPeriodicCurve(t, y); });
  if (a / 3 == 2) { c.fitCurve(t, y); c.clear(); }
  V3 p, v;
  const double x = vp_real("x");
  const bool none = n == 0 || a / 3 == 2;
  const bool r0 = c.evaluate(p, x), r1 = c.evaluateDerivative(v, x, 1), r2 = c.evaluateDerivative(v, x, 2), r3 = c.evaluateLinearAcceleration(v, x);
  if (none) vp_check(!r0 && !r1 && !r2 && !r3, "an empty curve reports failure");
  c.getMinTime();
  c.getMaxTime();
  vp_check(c.isEmpty() == (c.size() == 0), "empty exactly without knots");
}
VP_RUN(vp_entry_C18_hermite, 0..8)

// ---------------------------------------------------------------- C26
void vp_entry_C26_hermite(int n) {
  Curve3 c;
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  std::vector<Key> k;
  vp_check(vp_aborts([&] { c.extend(t, y); }), "extending is refused");
  vp_check(vp_aborts([&] { c.extend(t, y, &k); }), "extending is refused");
}
VP_RUN(vp_entry_C26_hermite, 0..2)

// ---------------------------------------------------------------- C29
void vp_entry_C29_hermite(int a) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(3, t, y);
  Curve3 c;
  V3 first, last;
  fit(c, 1, t, y, first, last);
  Curve3 d(c), e;
  std::vector<double> t2(1, 1.0);
  t2.push_back(2.0);
  e.fitCurve(t2, std::vector<V3>(2, V3(1, 1, 1)));
  e = c;
  if (a == 0) c.clear();
  if (a == 1) c.fitCurve(t2, std::vector<V3>(2, V3(4, 5, 6)));
  if (a == 2) { d.clear(); d = c; e = d; }
  const double x = vp_real("x");
  vp_assume(t[0] < x && x < t[1]);
  V3 p, q;
  vp_check(d.evaluate(p, x) && e.evaluate(q, x), "copies can be evaluated");
  for (int j = 0; j < 3; ++j) {
    const double r = cubic(y[0][j], y[1][j], first[j], tangent(1, 3, t, y, first, last)[j], t[1] - t[0], x - t[0]);
    vp_eq(p[j], r, "a copy has the original's value");
    vp_eq(q[j], r, "an assigned copy has the original's value");
  }
}
VP_RUN(vp_entry_C29_hermite, 0..2)

// ---------------------------------------------------------------- C27
void vp_entry_C27_hermite(int a) {
  std::vector<double> t, t2(1, 1.0);
  std::vector<V3> y;
  knots(2 + a, t, y);
  Curve3 c, d;
  c.fitCurve(t, y);
  t2.push_back(2.0);
  d.fitCurve(t2, std::vector<V3>(2, V3(4, 5, 6)));
  const double x = vp_real("x"), u = vp_real("u");
  V3 p(0, 0, 0), v(0, 0, 0), b(0, 0, 0), p2(0, 0, 0), v2(0, 0, 0), b2(0, 0, 0), o;
  const bool ok = c.evaluate(p, x);
  c.evaluateDerivative(v, x, 1);
  c.evaluateDerivative(b, x, 2);
  d.evaluate(o, u);
  d.evaluateDerivative(o, u, 1);
  d.evaluateDerivative(o, u, 2);
  c.evaluate(o, u);
  c.evaluateDerivative(o, u, 1);
  c.evaluateDerivative(o, u, 2);
  vp_check(c.evaluate(p2, x) == ok, "the same query gives the same answer");
  c.evaluateDerivative(v2, x, 1);
  c.evaluateDerivative(b2, x, 2);
  for (int j = 0; j < 3; ++j) {
    vp_eq(p2[j], p[j], "the same query gives the same answer");
    vp_eq(v2[j], v[j], "the same query gives the same answer");
    vp_eq(b2[j], b[j], "the same query gives the same answer");
  }
  vp_eq(c.getMinTime(), t[0], "queries leave the range alone");
  vp_eq(c.getMaxTime(), t[1 + a], "queries leave the range alone");
}
VP_RUN(vp_entry_C27_hermite, 0, 1)

// ---------------------------------------------------------------- C35
void vp_entry_C35_position(int a) {
  const int n = a % 4, samples = 2 + a / 4;
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  if (n) c.fitCurve(t, y);
  std::vector<std::vector<double>> rows;
  if (n > 1) {
    for (int k = 0; k + 1 < samples; ++k) {
      const double x = t[0] + k * ((t[n - 1] - t[0]) / (samples - 1));
      V3 p, v;
      vp_check(c.evaluate(p, x) && c.evaluateDerivative(v, x, 1), "the curve covers its samples");
      rows.push_back({x, p[0], p[1], p[2], v[0], v[1], v[2]});
    }
  }
  vp_check(c.writeEvalToFile("eval.txt", samples), "writing succeeds");
  if (samples % 2) vp_check(c.writeEvalToFile("eval.txt", samples), "writing over an older file succeeds");
  evalFile("eval.txt", {"t", "px", "py", "pz", "vx", "vy", "vz"}, rows);
}
VP_RUN(vp_entry_C35_position, 0..15)
VP_MORE(vp_entry_C35_position, 16..31)

void vp_entry_C35_positionFaults(int a) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(1 + a % 3, t, y);
  Curve3 c;
  c.fitCurve(t, y);
  if (a / 6) vp_check(c.writeEvalToFile("eval.txt", 3), "writing succeeds");
  vp_fault(a / 3 % 2 ? "write" : "open_write", true);
  vp_check(!c.writeEvalToFile("eval.txt", 3), "a file that cannot be written is reported");
}
VP_RUN(vp_entry_C35_positionFaults, 0..11)

// given times (thirds of an odd range, a short and a long range, negative times), unknown positions
void vp_entry_C35_positionTimes(int a) {
  const double first[] = {0.0, -7.0, 2.5, 0.0}, step[] = {1.0, 0.0009765625, 4096.0, 0.375};
  const int samples[] = {4, 3, 6, 9};
  std::vector<double> t;
  std::vector<V3> y;
  for (int i = 0; i < 3; ++i) {
    t.push_back(first[a] + i * step[a]);
    y.push_back(vec("y", i));
  }
  Curve3 c;
  c.fitCurve(t, y);
  std::vector<std::vector<double>> rows;
  for (int k = 0; k + 1 < samples[a]; ++k) {
    const double x = t[0] + k * ((t[2] - t[0]) / (samples[a] - 1));
    V3 p, v;
    vp_check(c.evaluate(p, x) && c.evaluateDerivative(v, x, 1), "the curve covers its samples");
    rows.push_back({x, p[0], p[1], p[2], v[0], v[1], v[2]});
  }
  vp_check(c.writeEvalToFile("eval.txt", samples[a]), "writing succeeds");
  evalFile("eval.txt", {"t", "px", "py", "pz", "vx", "vy", "vz"}, rows);
}
VP_RUN(vp_entry_C35_positionTimes, 0..3)

void vp_entry_C35_positionMany(int samples) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(2, t, y);
  Curve3 c;
  c.fitCurve(t, y);
  std::vector<std::vector<double>> rows;
  for (int k = 0; k + 1 < samples; ++k) {
    const double x = t[0] + k * ((t[1] - t[0]) / (samples - 1));
    V3 p, v;
    vp_check(c.evaluate(p, x) && c.evaluateDerivative(v, x, 1), "the curve covers its samples");
    rows.push_back({x, p[0], p[1], p[2], v[0], v[1], v[2]});
  }
  vp_check(c.writeEvalToFile("eval.txt", samples), "writing succeeds");
  evalFile("eval.txt", {"t", "px", "py", "pz", "vx", "vy", "vz"}, rows);
}
VP_RUN(vp_entry_C35_positionMany, @)

// ---------------------------------------------------------------- C36
void reports(const Curve3& c, const std::vector<double>& have) {
  vp_check(c.size() == static_cast<int>(have.size()), "size counts the knots");
  vp_check(c.isEmpty() == have.empty(), "empty means no knots");
  if (have.empty()) return;
  vp_eq(c.getMinTime(), have.front(), "the first time is that of the first knot");
  vp_eq(c.getMaxTime(), have.back(), "the last time is that of the last knot");
}

void vp_entry_C36_position(int a) {
  const int n = a % 4, m = a >= 48 ? 0 : 1 + a / 4 % 3, op = a >= 48 ? (a - 48) / 4 * 3 : a / 12;
  std::vector<double> t, s;
  std::vector<V3> y, z;
  knots(n, t, y);
  Curve3 c;
  reports(c, s);
  c.fitCurve(t, y);
  reports(c, t);
  for (int i = 0; i < m + (op == 2); ++i) {
    s.push_back(vp_real("s", i));
    z.push_back(vec("z", i));
    if (i > 0) vp_assume(s[i - 1] < s[i]);
  }
  if (op == 0) c.fitCurve(s, z);
  if (op == 1) { c.clear(); s.clear(); }
  if (op == 2) { z.back() = z.front(); c.fitPeriodicCurve(s, z); }
  if (op == 3) { c.clear(); reports(c, {}); c.fitCurveWithDerivatives(s, z, vec("a"), vec("b")); }
  reports(c, s);
}
VP_RUN(vp_entry_C36_position, 0..55)

void vp_entry_C18_print(int n) {
  std::vector<double> t;
  std::vector<V3> y;
  knots(n, t, y);
  Curve3 c;
  if (n) c.fitCurve(t, y);
  c.print("curve");
  vp_check(c.size() == n, "printing changes nothing");
  c.clear();
  c.print();
  vp_check(c.isEmpty(), "printing changes nothing");
}
VP_RUN(vp_entry_C18_print, 0..3)

// far more knots than any small threshold or narrow counter allows, at given times
namespace {
void given(int n, std::vector<double>& t, std::vector<V3>& y) {
  for (int i = 0; i < n; ++i) {
    t.push_back(i * 3 / 2 + 1);
    y.push_back(vec("y", i));
  }
}
bool picked(int i, int n) { return i < 3 || i % 64 < 2 || i % 64 == 63 || i % 50 < 2 || i + 3 > n; }
}  // namespace
void vp_entry_C24_huge(int n) {
  {
    const int how = n % 3;
    std::vector<double> t;
    std::vector<V3> y;
    given(n, t, y);
    Curve3 c;
    V3 first, last;
    std::vector<Key> keys;
    fit(c, how, t, y, first, last, &keys);
    vp_check(c.size() == n, "one knot per input time");
    vp_check(keys.size() == static_cast<size_t>(n), "one key per knot");
    for (int k = 0; k < n; ++k) {
      if (!picked(k, n)) continue;
      V3 p, v;
      vp_check(c.evaluate(p, t[k]) && c.evaluateDerivative(v, t[k], 1), "every input time can be evaluated");
      eq(p, y[k], "a knot has the given position");
      eq(v, tangent(k, n, t, y, first, last), "a knot has the velocity asked for");
    }
  }
}
VP_RUN(vp_entry_C24_huge, 258..260)
void vp_entry_C23_huge(int n) {
  std::vector<double> t;
  std::vector<V3> y;
  given(n, t, y);
  Curve3 c;
  V3 first, last;
  fit(c, 0, t, y, first, last);
  for (int k = 0; k + 1 < n; ++k) {
    if (!picked(k, n)) continue;
    V3 p, v, a;
    const double T = t[k + 1] - t[k], x = t[k] + 0.25 * T;
    vp_check(c.evaluate(p, x) && c.evaluateDerivative(v, x, 1) && c.evaluateLinearAcceleration(a, x), "covered times are evaluated");
    const V3 v0 = tangent(k, n, t, y, first, last), v1 = tangent(k + 1, n, t, y, first, last);
    for (int j = 0; j < 3; ++j) vp_eq(p[j], cubic(y[k][j], y[k + 1][j], v0[j], v1[j], T, 0.25 * T), "value is the Hermite cubic of the segment");
  }
}
VP_RUN(vp_entry_C23_huge, 260)
void vp_entry_C36_huge(int n) {
  std::vector<double> t;
  std::vector<V3> y;
  given(n, t, y);
  Curve3 c;
  c.fitCurve(t, y);
  vp_check(c.size() == n && !c.isEmpty(), "size is the number of knots");
  vp_eq(c.getMinTime(), t[0], "the first time is that of the first knot");
  vp_eq(c.getMaxTime(), t[n - 1], "the last time is that of the last knot");
  c.clear();
  vp_check(c.size() == 0 && c.isEmpty(), "clearing leaves no knot");
}
VP_RUN(vp_entry_C36_huge, 260)
