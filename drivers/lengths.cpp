// C38: lists that belong together. Every operation that takes parallel lists is given lists of all small lengths, in a build
// without assertions: nothing is read past the end of a list, and lists with too few values are refused.
#define NDEBUG
#include <cassert>
#include <fstream>
#include <limits>
#include "vp.hpp"
#include "container.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
#include "curves/CubicHermiteE3Curve.hpp"
#include "curves/src/CubicHermiteE3Curve.cpp"
#include "curves/SlerpSE3Curve.hpp"
#include "curves/src/SlerpSE3Curve.cpp"
#include "curves/src/CubicHermiteSE3Curve.cpp"
#include "curves/src/helpers.cpp"
#include "curves/src/KeyGenerator.cpp"
using namespace curves;
using E3 = CubicHermiteE3Curve;
using S3 = CubicHermiteSE3Curve;
using Pose = S3::ValueType;
using Q = kindr::RotationQuaternionD;
using V3 = Eigen::Vector3d;

namespace {

struct Slerp : public SlerpSE3Curve {
  using SlerpSE3Curve::evaluate;
  using SlerpSE3Curve::evaluateDerivative;
  virtual bool evaluate(ValueType& value, Time time) const { value = SlerpSE3Curve::evaluate(time); return true; }
  virtual bool evaluateDerivative(DerivativeType& d, Time time, unsigned o) const { d = SlerpSE3Curve::evaluateDerivative(time, o); return true; }
};

V3 vec(const char* name, int i) { return V3(vp_real(name, i, 0), vp_real(name, i, 1), vp_real(name, i, 2)); }
Pose pose(const char* name, int i) { return Pose(Pose::Position(vec(name, i)), Q()); }

std::vector<double> times(const char* name, int n) {
  std::vector<double> t;
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real(name, i));
    if (i > 0) vp_assume(vp_real(name, i - 1) < vp_real(name, i));
  }
  return t;
}
std::vector<V3> points(const char* name, int n) {
  std::vector<V3> y;
  for (int i = 0; i < n; ++i) y.push_back(vec(name, i));
  return y;
}
std::vector<Pose> poses(const char* name, int n) {
  std::vector<Pose> y;
  for (int i = 0; i < n; ++i) y.push_back(pose(name, i));
  return y;
}
std::vector<double> numbers(const char* name, int n) {
  std::vector<double> y;
  for (int i = 0; i < n; ++i) y.push_back(vp_real(name, i));
  return y;
}

const char* SHORT = "lists with too few values are refused";
const char* SAME = "lists of equal length are accepted";
const char* KEPT = "a fit refused by an exception leaves the curve as it was";

// Runs f; true if it ended fatally or by an exception. After an exception, unchanged() has to hold.
template <class F, class G>
bool refuses(F f, G unchanged) {
  return vp_aborts([&] {
    bool thrown = false;
    try {
      f();
    } catch (...) {
      thrown = true;
    }
    if (thrown) {
      unchanged();
      throw 1;
    }
  });
}

}  // namespace

// nt times, nv values, nt != nv or equal; how: the operation
void vp_entry_C38_position(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 % 3;
  if (how == 2 && nt < 2) return;
  const std::vector<double> t = times("t", nt), t0 = times("s", 2);
  const std::vector<V3> y = points("y", nv), y0 = points("z", 2);
  E3 c;
  c.fitCurve(t0, y0);
  const bool r = refuses([&] {
    if (how == 0) c.fitCurve(t, y);
    if (how == 1) c.fitCurveWithDerivatives(t, y, vec("v", 0), vec("w", 0));
    if (how == 2) c.fitPeriodicCurve(t, y);
  }, [&] {
    vp_eq(c.getMinTime(), t0[0], KEPT);
    vp_eq(c.getMaxTime(), t0[1], KEPT);
  });
  if (nv < nt) vp_check(r || c.isEmpty(), SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_position, 0..47)

void vp_entry_C38_pose(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 % 3;
  if (how == 2 && nt < 2) return;
  const std::vector<double> t = times("t", nt), t0 = times("s", 2);
  const std::vector<Pose> y = poses("y", nv), y0 = poses("z", 2);
  S3 c;
  c.fitCurve(t0, y0);
  const bool r = refuses([&] {
    if (how == 0) c.fitCurve(t, y);
    if (how == 1) c.fitCurveWithDerivatives(t, y, S3::DerivativeType(vec("v", 0), vec("w", 0)), S3::DerivativeType());
    if (how == 2) c.fitPeriodicCurve(t, y);
  }, [&] {
    vp_eq(c.getMinTime(), t0[0], KEPT);
    vp_eq(c.getMaxTime(), t0[1], KEPT);
  });
  if (nv < nt) vp_check(r || c.isEmpty(), SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_pose, 0..47)

void vp_entry_C38_slerp(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 > 2 ? 2 : a / 16;
  const std::vector<double> t = times("t", nt);
  const std::vector<Pose> y = poses("y", nv);
  Slerp c;
  if (a >= 48) {
    c.setSamplingRatio(a / 64 + 1);
    c.extend(times("s", 2), poses("z", 2));
    if (nt > 0) vp_assume(vp_real("s", 1) < vp_real("t", 0));
  }
  const size_t before = c.size();
  const bool r = refuses([&] {
    if (how == 0) c.fitCurve(t, y);
    if (how == 1) c.setCurve(t, y);
    if (how == 2) c.extend(t, y);
  }, [&] { vp_check(static_cast<size_t>(c.size()) == before, KEPT); });
  if (nv < nt) vp_check(r || c.isEmpty(), SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_slerp, 0..79)

void vp_entry_C38_policy(int a) {
  const int nt = a % 4, nv = a / 4 % 4, n0 = a / 16 % 3;
  const std::vector<double> t = times("t", nt);
  const std::vector<Pose> y = poses("y", nv);
  SamplingPolicy s(1, 0.0);
  S3 c;
  s.extend<S3, Pose>(times("s", n0), poses("z", n0), &c);
  if (n0 > 0 && nt > 0) vp_assume(vp_real("s", n0 - 1) < vp_real("t", 0));
  const bool r = refuses([&] { s.extend<S3, Pose>(t, y, &c); }, [&] { vp_check(c.size() <= n0 && c.isEmpty() == (n0 == 0), KEPT); });
  if (nv < nt) vp_check(r, SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_policy, 0..47)

void vp_entry_C38_manager(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 % 2;
  const std::vector<double> all = times("t", 3), t(all.begin(), all.begin() + nt), y = numbers("y", nv);
  LocalSupport2CoefficientManager<double> m;
  if (how == 1)
    for (int i = 0; i < 3; ++i) m.insertCoefficient(all[i], 0.0);
  std::vector<Key> k;
  const size_t before = m.size();
  const bool r = refuses([&] {
    if (how == 0) m.insertCoefficients(t, y, &k);
    if (how == 1) m.modifyCoefficientsValuesInBatch(t, y);
  }, [&] { vp_check(m.size() == before, KEPT); });
  if (nv < nt) vp_check(r, SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_manager, 0..31)

// how: fit with default, given, or per-knot boundary derivatives (their lists being of yet another length)
void vp_entry_C38_vector(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 % 4;
  const std::vector<double> t = times("t", nt), t0 = times("s", 2);
  const std::vector<V3> y = points("y", nv), y0 = points("z", 2);
  const std::vector<V3> d1 = points("d", how == 2 ? nv : nt), d2 = points("e", how == 3 ? nv : nt), all = points("y", nt);
  PolynomialSplineQuinticVector3Curve c;
  c.fitCurve(t0, y0);
  V3 before = V3::Zero(), after = V3::Zero();
  const double x = vp_real("x");
  c.evaluate(before, x);
  const bool r = refuses([&] {
    if (how == 0) c.fitCurve(t, y);
    if (how == 1) c.fitCurve(t, y, vec("v", 0), vec("w", 0), vec("v", 1), vec("w", 1));
    if (how >= 2) c.fitCurve(t, all, d1, d2);
  }, [&] {
    vp_eq(c.getMinTime(), t0[0], KEPT);
    vp_eq(c.getMaxTime(), t0[1], KEPT);
    c.evaluate(after, x);
    for (int i = 0; i < 3; ++i) vp_eq(after(i), before(i), KEPT);
  });
  if (nv < nt) vp_check(r || c.getMaxTime() == c.getMinTime(), SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_vector, 0..63)

void vp_entry_C38_scalar(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 % 2;
  const std::vector<double> t = times("t", nt), y = numbers("y", nv);
  PolynomialSplineQuinticScalarCurve c;
  c.fitCurve(times("s", 2), numbers("z", 2));
  const bool r = vp_aborts([&] {
    if (how == 0) c.fitCurve(t, y);
    if (how == 1) c.fitCurve(t, y, vp_real("v"), vp_real("b"), vp_real("w"), vp_real("d"));
  });
  if (nv < nt) vp_check(r || c.getMaxTime() == c.getMinTime(), SHORT);
  if (nv == nt) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_scalar, 0..31)

void vp_entry_C38_container(int a) {
  const int nt = a % 4, nv = a / 4 % 4, how = a / 16 % 3;
  const std::vector<double> t = times("t", nt), y = numbers("y", nv);
  BY_ORDER(a % 5 + 1, {
    PolynomialSplineContainer<K> c;
    bool ok = true;
    if (how == 0) ok = c.setData(t, y);
    if (how == 1) ok = c.setData(t, y, vp_real("v"), vp_real("w"));
    if (how == 2) ok = c.setData(t, y, vp_real("v"), vp_real("b"), vp_real("w"), vp_real("d"));
    if (nv < nt) vp_check(!ok && c.isEmpty(), SHORT);
    if (nv == nt && nt >= 2) vp_check(ok, SAME);
  })
}
VP_RUN(vp_entry_C38_container, 0..47)

void vp_entry_C38_csv(int a) {
  const int nt = a % 4, nv = a / 4 % 4;
  const std::vector<double> t = times("t", nt);
  std::vector<Eigen::VectorXd> y;
  for (int i = 0; i < nv; ++i) {
    Eigen::VectorXd v(2);
    v << vp_real("y", i, 0), vp_real("y", i, 1);
    y.push_back(v);
  }
  const bool r = vp_aborts([&] { writeTimeVectorCSV("file", t, y); });
  if (nv < nt) vp_check(r, SHORT);
  if (nv == nt && nt > 0) vp_check(!r, SAME);
}
VP_RUN(vp_entry_C38_csv, 0..15)
