// Scalar and vector-space polynomial curves: C11, C12, C13 (and C26 for their unimplemented operations).
#include "container.hpp"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
using namespace curves;

namespace {

void knots(int n, const char* kn, const char* yn, std::vector<double>& t, std::vector<double>& y) {
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real(kn, i));
    y.push_back(vp_real(yn, i));
    if (i > 0) vp_assume(vp_real(kn, i - 1) < vp_real(kn, i));
  }
}

template <class Curve, class Container>
void same(const Curve& c, const Container& f, double start, double t) {
  double v = 0, d = 0, a = 0;
  vp_check(c.evaluate(v, t), "evaluation succeeds");
  vp_check(c.evaluateDerivative(d, t, 1), "first derivative succeeds");
  vp_check(c.evaluateDerivative(a, t, 2), "second derivative succeeds");
  vp_eq(v, f.getPositionAtTime(t - start), "value is the trajectory at the time since the start");
  vp_eq(d, f.getVelocityAtTime(t - start), "first derivative is the trajectory's at the time since the start");
  vp_eq(a, f.getAccelerationAtTime(t - start), "second derivative is the trajectory's at the time since the start");
}

// ---------------------------------------------------------------- C11
template <int N>
void scalar(int n, int how, int before) {
  using Container = PolynomialSplineContainer<N>;
  std::vector<double> t, y, t2, y2;
  knots(n, "k", "y", t, y);
  knots(2, "l", "z", t2, y2);
  const double v0 = vp_real("v0"), a0 = vp_real("a0"), v1 = vp_real("v1"), a1 = vp_real("a1"), x = vp_real("x");
  PolynomialSplineScalarCurve<Container> c;
  vp_eq(c.getMinTime(), 0.0, "fresh curve starts at zero");
  vp_eq(c.getMaxTime(), 0.0, "fresh curve has no extent");
  if (before >= 1) c.fitCurve(t2, y2, vp_real("w0"), vp_real("b0"), vp_real("w1"), vp_real("b1"));
  if (before == 2) c.clear();
  Container f;
  if (how == 0) {
    c.fitCurve(t, y);
    f.setData(t, y, 0.0, 0.0, 0.0, 0.0);
  } else {
    c.fitCurve(t, y, v0, a0, v1, a1);
    f.setData(t, y, v0, a0, v1, a1);
  }
  vp_eq(c.getMinTime(), t[0], "range starts at the first knot time");
  vp_eq(c.getMaxTime(), t[n - 1], "range ends at the last knot time");
  same(c, f, t[0], x);
  double v = 0;
  c.evaluate(v, t[0]);
  vp_eq(v, y[0], "start of the range evaluates to the first knot");
  c.evaluate(v, t[n - 1]);
  vp_eq(v, y[n - 1], "end of the range evaluates to the last knot");
}

template <int N>
void scalarOptions(int n, int before) {
  using Container = PolynomialSplineContainer<N>;
  std::vector<double> t2, y2;
  knots(3, "l", "z", t2, y2);
  for (int i = 0; i < n; ++i) vp_assume(vp_real("D", i) > 0);
  std::vector<SplineOptions> o;
  Container f;
  double total = 0;
  for (int i = 0; i < n; ++i) {
    o.push_back(SplineOptions(vp_real("D", i), vp_real("p", i), vp_real("q", i), vp_real("v", i), vp_real("w", i), vp_real("a", i), vp_real("b", i)));
    f.addSpline(PolynomialSpline<N>(o.back()));
    total += vp_real("D", i);
  }
  PolynomialSplineScalarCurve<Container> c;
  if (before >= 1) c.fitCurve(t2, y2);
  if (before == 2) c.clear();
  c.fitCurve(o);
  vp_eq(c.getMinTime(), 0.0, "a fit from options starts at zero");
  vp_eq(c.getMaxTime(), total, "a fit from options spans the options' durations");
  same(c, f, 0.0, vp_real("x"));
  double v = 0;
  if (n > 0) {
    c.evaluate(v, 0.0);
    vp_eq(v, vp_real("p", 0), "start of a fit from options");
    c.evaluate(v, total);
    vp_eq(v, vp_real("q", n - 1), "end of a fit from options");
  }
}

template <int N>
void scalarClear(int before) {
  using Container = PolynomialSplineContainer<N>;
  std::vector<double> t, y;
  knots(3, "k", "y", t, y);
  PolynomialSplineScalarCurve<Container> c;
  if (before == 0) c.fitCurve(t, y);
  if (before == 1) c.fitCurve(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
  if (before == 2) {
    c.fitCurve(t, y);
    std::vector<double> none;
    c.fitCurve(none, none);      // fitting nothing clears
  } else if (before == 3) {
    c.fitCurve(t, y);
    std::vector<double> none;
    c.fitCurve(none, none, 1.0, 1.0, 1.0, 1.0);
  } else {
    c.clear();
  }
  vp_eq(c.getMinTime(), 0.0, "cleared curve starts at zero");
  vp_eq(c.getMaxTime(), 0.0, "cleared curve has no extent");
  double v = 1, d = 1, a = 1;
  const double x = vp_real("x");
  vp_check(c.evaluate(v, x), "evaluation of a cleared curve");
  vp_check(c.evaluateDerivative(d, x, 1), "evaluation of a cleared curve");
  vp_check(c.evaluateDerivative(a, x, 2), "evaluation of a cleared curve");
  vp_eq(v, 0.0, "cleared curve evaluates to zero");
  vp_eq(d, 0.0, "cleared curve evaluates to zero");
  vp_eq(a, 0.0, "cleared curve evaluates to zero");
}

// Fitting data that the fit refuses (one knot, or times that do not increase) also depends only on that data.
template <int N>
void scalarRefused(int n, int how) {
  using Container = PolynomialSplineContainer<N>;
  std::vector<double> t, y, t2, y2;
  knots(3, "l", "z", t2, y2);
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("k", i));
    y.push_back(vp_real("y", i));
  }
  if (n > 1) vp_assume(t[n - 1] <= t[n - 2]);
  PolynomialSplineScalarCurve<Container> c, f;
  c.fitCurve(t2, y2);
  if (how == 0) {
    c.fitCurve(t, y);
    f.fitCurve(t, y);
  } else {
    c.fitCurve(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
    f.fitCurve(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
  }
  vp_eq(c.getMinTime(), f.getMinTime(), "refitting depends only on the new data");
  vp_eq(c.getMaxTime(), f.getMaxTime(), "refitting depends only on the new data");
  const double x = vp_real("x");
  for (unsigned k = 0; k < 3; ++k) {
    double v = 1, w = 2;
    vp_check((k ? c.evaluateDerivative(v, x, k) : c.evaluate(v, x)) == (k ? f.evaluateDerivative(w, x, k) : f.evaluate(w, x)),
             "refitting depends only on the new data");
    vp_eq(v, w, "refitting depends only on the new data");
  }
}

// ---------------------------------------------------------------- C12
template <int D>
Eigen::Matrix<double, D, 1> vec(const char* name, int k) {
  Eigen::Matrix<double, D, 1> v;
  for (int i = 0; i < D; ++i) v(i) = vp_real(name, k, i);
  return v;
}

template <int D>
void vectorCurve(int n, int how, int before) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> t, dummy, t2, dummy2;
  knots(n, "k", "u", t, dummy);
  knots(2, "l", "z", t2, dummy2);
  std::vector<V> y, y2, d1, d2;
  for (int k = 0; k < n; ++k) {
    y.push_back(vec<D>("y", k));
    d1.push_back(vec<D>("d", k));
    d2.push_back(vec<D>("e", k));
  }
  for (int k = 0; k < 2; ++k) y2.push_back(vec<D>("s", k));
  Curve c;
  vp_eq(c.getMinTime(), 0.0, "fresh curve starts at zero");
  vp_eq(c.getMaxTime(), 0.0, "fresh curve has no extent");
  if (before >= 1) c.fitCurve(t2, y2);
  if (before == 2) c.clear();
  if (how == 0) c.fitCurve(t, y);
  if (how == 1) c.fitCurve(t, y, vec<D>("d", 0), vec<D>("e", 0), vec<D>("d", n - 1), vec<D>("e", n - 1));
  if (how == 2) c.fitCurve(t, y, d1, d2);
  vp_eq(c.getMinTime(), t[0], "range starts at the first knot time");
  vp_eq(c.getMaxTime(), t[n - 1], "range spans the knots");
  const double x = vp_real("x");
  V v, dv, av;
  vp_check(c.evaluate(v, x), "evaluation succeeds");
  vp_check(c.evaluateDerivative(dv, x, 1), "first derivative succeeds");
  vp_check(c.evaluateDerivative(av, x, 2), "second derivative succeeds");
  for (int i = 0; i < D; ++i) {
    std::vector<double> yi;
    for (int k = 0; k < n; ++k) yi.push_back(vp_real("y", k, i));
    PolynomialSplineQuinticScalarCurve s;
    if (how == 0) s.fitCurve(t, yi);
    else s.fitCurve(t, yi, vp_real("d", 0, i), vp_real("e", 0, i), vp_real("d", n - 1, i), vp_real("e", n - 1, i));
    double sv = 0, sd = 0, sa = 0;
    s.evaluate(sv, x);
    s.evaluateDerivative(sd, x, 1);
    s.evaluateDerivative(sa, x, 2);
    vp_eq(v(i), sv, "component equals the scalar curve");
    vp_eq(dv(i), sd, "first derivative of a component equals the scalar curve's");
    vp_eq(av(i), sa, "second derivative of a component equals the scalar curve's");
  }
  c.evaluate(v, t[0]);
  for (int i = 0; i < D; ++i) vp_eq(v(i), vp_real("y", 0, i), "start of the range evaluates to the first knot");
  c.evaluate(v, t[n - 1]);
  for (int i = 0; i < D; ++i) vp_eq(v(i), vp_real("y", n - 1, i), "end of the range evaluates to the last knot");
}

template <int D>
void vectorRefused(int n, int how) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> t, t2, dummy2;
  knots(2, "l", "z", t2, dummy2);
  std::vector<V> y, y2, d1, d2;
  for (int k = 0; k < n; ++k) {
    t.push_back(vp_real("k", k));
    y.push_back(vec<D>("y", k));
    d1.push_back(vec<D>("d", k));
    d2.push_back(vec<D>("e", k));
  }
  if (n > 1) vp_assume(t[n - 1] <= t[n - 2]);
  for (int k = 0; k < 2; ++k) y2.push_back(vec<D>("s", k));
  Curve c, f;
  c.fitCurve(t2, y2);
  for (Curve* p : {&c, &f}) {
    if (how == 0) p->fitCurve(t, y);
    if (how == 1) p->fitCurve(t, y, vec<D>("d", 0), vec<D>("e", 0), vec<D>("d", n - 1), vec<D>("e", n - 1));
    if (how == 2) p->fitCurve(t, y, d1, d2);
  }
  vp_eq(c.getMinTime(), f.getMinTime(), "refitting depends only on the new data");
  vp_eq(c.getMaxTime(), f.getMaxTime(), "refitting depends only on the new data");
  const double x = vp_real("x");
  for (unsigned k = 0; k < 3; ++k) {
    V v = y[0], w = y[0];
    vp_check((k ? c.evaluateDerivative(v, x, k) : c.evaluate(v, x)) == (k ? f.evaluateDerivative(w, x, k) : f.evaluate(w, x)),
             "refitting depends only on the new data");
    for (int i = 0; i < D; ++i) vp_eq(v(i), w(i), "refitting depends only on the new data");
  }
}

template <int D>
void vectorClear(int before) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> t, dummy;
  knots(2, "k", "u", t, dummy);
  std::vector<V> y, none, d1, d2;
  std::vector<double> nt;
  for (int k = 0; k < 2; ++k) {
    y.push_back(vec<D>("y", k));
    d1.push_back(vec<D>("d", k));
    d2.push_back(vec<D>("e", k));
  }
  Curve c;
  if (before == 1) c.fitCurve(t, y, d1, d2);
  else c.fitCurve(t, y);
  if (before <= 1) c.clear();
  if (before == 2) c.fitCurve(nt, none);
  if (before == 3) c.fitCurve(nt, none, none, none);
  if (before == 4) c.fitCurve(nt, none, d1[0], d1[0], d1[0], d1[0]);
  vp_eq(c.getMinTime(), 0.0, "cleared curve starts at zero");
  vp_eq(c.getMaxTime(), 0.0, "cleared curve has no extent");
  const double x = vp_real("x");
  V v = y[0], dv = y[0], av = y[0];
  c.evaluate(v, x);
  c.evaluateDerivative(dv, x, 1);
  c.evaluateDerivative(av, x, 2);
  for (int i = 0; i < D; ++i) {
    vp_eq(v(i), 0.0, "cleared curve evaluates to zero");
    vp_eq(dv(i), 0.0, "cleared curve evaluates to zero");
    vp_eq(av(i), 0.0, "cleared curve evaluates to zero");
  }
  vp_check(c.dim() == D, "dimension");
}

// ---------------------------------------------------------------- C13
template <int N>
void scalarOrders(int n, int j) {
  using Container = PolynomialSplineContainer<N>;
  std::vector<double> t, y;
  knots(n, "k", "y", t, y);
  const double x = vp_real("x");
  vp_assume(t[j] < x);
  vp_assume(x < t[j + 1]);
  PolynomialSplineScalarCurve<Container> c;
  c.fitCurve(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
  double v = 0, d = 0, a = 0;
  vp_check(c.evaluate(v, x), "evaluation succeeds");
  vp_check(c.evaluateDerivative(d, x, 1), "order 1 succeeds");
  vp_check(c.evaluateDerivative(a, x, 2), "order 2 succeeds");
  vp_eq(d, vp_diff(v, x), "order 1 is the first derivative");
  vp_eq(a, vp_diff(d, x), "order 2 is the second derivative");
  const int order = vp_int("order", 0, 2147483647);
  const double before = vp_real("before");
  double o = before;
  const bool got = c.evaluateDerivative(o, vp_real("any"), order);
  if (order != 1 && order != 2) {
    vp_check(!got, "every other order is refused");
    vp_eq(o, before, "a refused order leaves the output untouched");
  }
}

template <int D>
void vectorOrders(int n, int j) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> t, dummy;
  knots(n, "k", "u", t, dummy);
  std::vector<V> y;
  for (int k = 0; k < n; ++k) y.push_back(vec<D>("y", k));
  const double x = vp_real("x");
  vp_assume(t[j] < x);
  vp_assume(x < t[j + 1]);
  Curve c;
  c.fitCurve(t, y, vec<D>("d", 0), vec<D>("e", 0), vec<D>("d", n - 1), vec<D>("e", n - 1));
  V v, d, a;
  vp_check(c.evaluate(v, x), "evaluation succeeds");
  vp_check(c.evaluateDerivative(d, x, 1), "order 1 succeeds");
  vp_check(c.evaluateDerivative(a, x, 2), "order 2 succeeds");
  for (int i = 0; i < D; ++i) {
    vp_eq(d(i), vp_diff(v(i), x), "order 1 is the first derivative");
    vp_eq(a(i), vp_diff(d(i), x), "order 2 is the second derivative");
  }
  const int order = vp_int("order", 0, 2147483647);
  V o = vec<D>("before", 0);
  const bool got = c.evaluateDerivative(o, vp_real("any"), order);
  if (order != 1 && order != 2) {
    vp_check(!got, "every other order is refused");
    for (int i = 0; i < D; ++i) vp_eq(o(i), vp_real("before", 0, i), "a refused order leaves the output untouched");
  }
}

// ---------------------------------------------------------------- C26
template <int N>
void loudScalar(int n) {
  using Container = PolynomialSplineContainer<N>;
  PolynomialSplineScalarCurve<Container> c;
  std::vector<double> t, y;
  knots(n, "k", "y", t, y);
  if (n > 0) c.fitCurve(t, y);
  std::vector<Key> keys;
  vp_check(vp_aborts([&] { c.extend(t, y, nullptr); }), "scalar curve: extend fails loudly");
  vp_check(vp_aborts([&] { c.extend(t, y, &keys); }), "scalar curve: extend fails loudly");
  vp_check(vp_aborts([&] { c.transformCurve(vp_real("T")); }), "scalar curve: transformCurve fails loudly");
}

template <int D>
void loudVector(int n) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> t, dummy;
  knots(n, "k", "u", t, dummy);
  std::vector<V> y;
  for (int k = 0; k < n; ++k) y.push_back(vec<D>("y", k));
  Curve c;
  if (n > 0) c.fitCurve(t, y);
  std::vector<Key> keys;
  std::vector<SplineOptions> o;
  for (int k = 0; k < n; ++k) o.push_back(SplineOptions(1.0, vp_real("p", k), vp_real("q", k), 0.0, 0.0, 0.0, 0.0));
  vp_check(vp_aborts([&] { c.extend(t, y, nullptr); }), "vector curve: extend fails loudly");
  vp_check(vp_aborts([&] { c.extend(t, y, &keys); }), "vector curve: extend fails loudly");
  vp_check(vp_aborts([&] { c.fitCurve(o, nullptr); }), "vector curve: fitting from options fails loudly");
  vp_check(vp_aborts([&] { c.transformCurve(vec<D>("T", 0)); }), "vector curve: transformCurve fails loudly");
}

// ---------------------------------------------------------------- C29, C27
struct ScalarSeen {
  double lo, hi, v, d, a;
  template <class Curve>
  ScalarSeen(const Curve& c, const char* at) : v(0), d(0), a(0) {
    const double x = vp_real(at);
    lo = c.getMinTime();
    hi = c.getMaxTime();
    c.evaluate(v, x);
    c.evaluateDerivative(d, x, 1);
    c.evaluateDerivative(a, x, 2);
  }
};
void alike(const ScalarSeen& s, const ScalarSeen& r, const char* label) {
  vp_eq(s.lo, r.lo, label);
  vp_eq(s.hi, r.hi, label);
  vp_eq(s.v, r.v, label);
  vp_eq(s.d, r.d, label);
  vp_eq(s.a, r.a, label);
}
template <int N>
using Scalar = PolynomialSplineScalarCurve<PolynomialSplineContainer<N>>;
template <int N>
Scalar<N> scalarCopy(const std::vector<double>& t, const std::vector<double>& y) {
  Scalar<N> c;
  c.fitCurve(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
  return Scalar<N>(static_cast<const Scalar<N>&>(c));
}
template <int N>
void scalarCopies(int op) {
  std::vector<double> t, y, t2, y2;
  knots(3, "k", "y", t, y);
  knots(2, "l", "z", t2, y2);
  Scalar<N> c, e;
  c.fitCurve(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
  const ScalarSeen s(c, "x");
  Scalar<N> d(c);
  e.fitCurve(t2, y2);
  e = c;
  alike(ScalarSeen(d, "x"), s, "a copy answers like the original");
  alike(ScalarSeen(e, "x"), s, "an assigned copy answers like the original");
  if (op == 0) c.clear();
  if (op == 1) c.fitCurve(t2, y2);
  if (op == 2) { std::vector<SplineOptions> o; o.push_back(SplineOptions(1.0, 2.0, 3.0, 0.0, 0.0, 0.0, 0.0)); c.fitCurve(o); }
  if (op == 3) { c = scalarCopy<N>(t, y); alike(ScalarSeen(c, "x"), s, "a copy outlives the original"); }
  alike(ScalarSeen(d, "x"), s, "changing the original leaves a copy alone");
  d.clear();
  alike(ScalarSeen(e, "x"), s, "copies are independent of each other");
  e = e;
  alike(ScalarSeen(e, "x"), s, "assigning an object to itself changes nothing");
}
template <int N>
void scalarRepeated() {
  std::vector<double> t, y, t2, y2;
  knots(3, "k", "y", t, y);
  knots(2, "l", "z", t2, y2);
  Scalar<N> c, e, f;
  c.fitCurve(t, y);
  e.fitCurve(t2, y2);
  const ScalarSeen s(c, "x");
  const ScalarSeen r(e, "u");
  const ScalarSeen q(c, "u");
  alike(ScalarSeen(c, "x"), s, "the same query gives the same answer");
  alike(ScalarSeen(e, "u"), r, "the same query gives the same answer");
  alike(ScalarSeen(c, "u"), q, "the same query gives the same answer");
  f.fitCurve(t, y);
  alike(ScalarSeen(f, "x"), s, "equal objects give equal answers");
}

template <int D>
struct VectorSeen {
  double lo, hi;
  Eigen::Matrix<double, D, 1> v, d, a;
  template <class Curve>
  VectorSeen(const Curve& c, const char* at) {
    const double x = vp_real(at);
    lo = c.getMinTime();
    hi = c.getMaxTime();
    c.evaluate(v, x);
    c.evaluateDerivative(d, x, 1);
    c.evaluateDerivative(a, x, 2);
  }
};
template <int D>
void alike(const VectorSeen<D>& s, const VectorSeen<D>& r, const char* label) {
  vp_eq(s.lo, r.lo, label);
  vp_eq(s.hi, r.hi, label);
  for (int i = 0; i < D; ++i) {
    vp_eq(s.v(i), r.v(i), label);
    vp_eq(s.d(i), r.d(i), label);
    vp_eq(s.a(i), r.a(i), label);
  }
}
template <int D>
void vectorCopies(int op) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> t, dummy, t2;
  knots(2, "k", "u", t, dummy);
  knots(2, "l", "w", t2, dummy);
  std::vector<V> y, y2;
  for (int k = 0; k < 2; ++k) {
    y.push_back(vec<D>("y", k));
    y2.push_back(vec<D>("z", k));
  }
  Curve c, e;
  c.fitCurve(t, y, vec<D>("d", 0), vec<D>("e", 0), vec<D>("d", 1), vec<D>("e", 1));
  const VectorSeen<D> s(c, "x");
  Curve d(c);
  e.fitCurve(t2, y2);
  const VectorSeen<D> before(e, "x2");
  alike<D>(VectorSeen<D>(c, "x"), s, "the same query gives the same answer");
  alike<D>(VectorSeen<D>(e, "x2"), before, "the same query gives the same answer");
  e = c;
  alike<D>(VectorSeen<D>(d, "x"), s, "a copy answers like the original");
  alike<D>(VectorSeen<D>(e, "x"), s, "an assigned copy answers like the original");
  if (op == 0) c.clear();
  if (op == 1) c.fitCurve(t2, y2);
  if (op == 2) {
    Curve* h = new Curve(c);
    c = *h;
    delete h;
    alike<D>(VectorSeen<D>(c, "x"), s, "a copy outlives the original");
  }
  alike<D>(VectorSeen<D>(d, "x"), s, "changing the original leaves a copy alone");
  d.clear();
  alike<D>(VectorSeen<D>(e, "x"), s, "copies are independent of each other");
}

// ---------------------------------------------------------------- C18
template <int N>
void scalarEmpty(int how) {
  std::vector<double> none, one(1, vp_real("k")), y1(1, vp_real("y")), two, y2;
  knots(2, "l", "z", two, y2);
  Scalar<N> c;
  if (how == 1) { c.fitCurve(two, y2); c.clear(); }
  if (how == 2) c.fitCurve(none, none);
  if (how == 3) c.fitCurve(one, y1);
  if (how == 4) c.fitCurve(two, y1);
  if (how == 5) { std::vector<SplineOptions> o; c.fitCurve(o); }
  if (how == 6) c.fitCurve(one, y1, vp_real("a"), vp_real("b"), vp_real("c"), vp_real("d"));
  if (how == 7) c.fitCurve(two, none, vp_real("a"), vp_real("b"), vp_real("c"), vp_real("d"));
  double v = 1, d = 1, a = 1;
  const double x = vp_real("x");
  c.evaluate(v, x);
  c.evaluateDerivative(d, x, 1);
  c.evaluateDerivative(a, x, 2);
  vp_eq(v, 0.0, "a curve without pieces evaluates to zero");
  vp_eq(d, 0.0, "a curve without pieces evaluates to zero");
  vp_eq(a, 0.0, "a curve without pieces evaluates to zero");
  vp_eq(c.getMaxTime(), c.getMinTime(), "a curve without pieces has no extent");
  c.print("");
}
template <int D>
void vectorEmpty(int how) {
  using Curve = PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D>;
  using V = typename Curve::ValueType;
  std::vector<double> none, one(1, vp_real("k")), two, dummy;
  knots(2, "l", "z", two, dummy);
  std::vector<V> vnone, v1(1, vec<D>("y", 0)), v2;
  for (int k = 0; k < 2; ++k) v2.push_back(vec<D>("z", k));
  Curve c;
  if (how == 1) { c.fitCurve(two, v2); c.clear(); }
  if (how == 2) c.fitCurve(none, vnone);
  if (how == 3) c.fitCurve(one, v1);
  if (how == 4) vp_aborts([&] { c.fitCurve(two, v1); });
  if (how == 5) vp_aborts([&] { c.fitCurve(two, v2, v1, v1); });
  if (how == 6) c.fitCurve(one, v1, v1[0], v1[0], v1[0], v1[0]);
  if (how == 7) vp_aborts([&] { c.fitCurve(two, vnone, v1[0], v1[0], v1[0], v1[0]); });
  V v, d, a;
  const double x = vp_real("x");
  vp_check(c.evaluate(v, x) && c.evaluateDerivative(d, x, 1) && c.evaluateDerivative(a, x, 2), "queries of a curve without pieces");
  if (how < 4) {
    for (int i = 0; i < D; ++i) {
      vp_eq(v(i), 0.0, "a curve without pieces evaluates to zero");
      vp_eq(d(i), 0.0, "a curve without pieces evaluates to zero");
      vp_eq(a(i), 0.0, "a curve without pieces evaluates to zero");
    }
    vp_eq(c.getMaxTime(), c.getMinTime(), "a curve without pieces has no extent");
  }
  c.print("");
}

}  // namespace

VP_RUN(vp_entry_C18_scalar, 0..39)
void vp_entry_C18_scalar(int a) { BY_ORDER(a % 5 + 1, scalarEmpty<K>(a / 5)) }
VP_RUN(vp_entry_C18_vector, 0..7)
void vp_entry_C18_vector(int a) { vectorEmpty<3>(a); }
VP_RUN(vp_entry_C29_scalar, 0..19)
void vp_entry_C29_scalar(int a) { BY_ORDER(a % 5 + 1, scalarCopies<K>(a / 5)) }
VP_RUN(vp_entry_C29_vector, 0..5)
void vp_entry_C29_vector(int a) {
  if (a < 3) vectorCopies<3>(a);
  else vectorCopies<2>(a - 3);
}
VP_RUN(vp_entry_C27_scalar, 0..4)
void vp_entry_C27_scalar(int a) { BY_ORDER(a % 5 + 1, scalarRepeated<K>()) }
VP_RUN(vp_entry_C27_vector, 0..2)
void vp_entry_C27_vector(int a) { vectorCopies<2>(a); }
VP_RUN(vp_entry_C11_fit, 0..59)
VP_MORE(vp_entry_C11_fit, 60..89)
void vp_entry_C11_fit(int a) { BY_ORDER(a % 5 + 1, scalar<K>(2 + a / 30, (a / 5) % 2, (a / 10) % 3)) }
VP_RUN(vp_entry_C11_many, @)
void vp_entry_C11_many(int n) { BY_ORDER(n % 5 + 1, scalar<K>(n, 1, n % 3)) }
VP_RUN(vp_entry_C11_manyOptions, @)
void vp_entry_C11_manyOptions(int n) { BY_ORDER(n % 5 + 1, scalarOptions<K>(n, n % 3)) }
VP_RUN(vp_entry_C12_many, @)
void vp_entry_C12_many(int n) { vectorCurve<2>(n, n % 3, n % 3); }
VP_RUN(vp_entry_C11_options, 0..44)
VP_MORE(vp_entry_C11_options, 45..74)
void vp_entry_C11_options(int a) { BY_ORDER(a % 5 + 1, scalarOptions<K>(a / 15, (a / 5) % 3)) }
VP_RUN(vp_entry_C11_clear, 0..19)
void vp_entry_C11_clear(int a) { BY_ORDER(a % 5 + 1, scalarClear<K>(a / 5)) }

VP_RUN(vp_entry_C12_fit, 0..17)
VP_MORE(vp_entry_C12_fit, 18..26)
void vp_entry_C12_fit(int a) { vectorCurve<3>(2 + a / 9, a % 3, (a / 3) % 3); }
VP_RUN(vp_entry_C12_dim, 0..5)
void vp_entry_C12_dim(int a) {
  if (a < 3) vectorCurve<1>(2, a, 1);
  else vectorCurve<4>(2, a - 3, 1);
}
VP_RUN(vp_entry_C11_refused, 0..29)
void vp_entry_C11_refused(int a) { BY_ORDER(a % 5 + 1, scalarRefused<K>(1 + a / 10, (a / 5) % 2)) }
VP_RUN(vp_entry_C12_refused, 0..8)
void vp_entry_C12_refused(int a) { vectorRefused<2>(1 + a / 3, a % 3); }
VP_RUN(vp_entry_C12_clear, 0..4)
void vp_entry_C12_clear(int a) { vectorClear<3>(a); }

VP_RUN(vp_entry_C13_scalar, 10..14, 15..19, 40..44)
VP_MORE(vp_entry_C13_scalar, 20..24, 45..49, 70..74)
void vp_entry_C13_scalar(int a) { BY_ORDER(a % 5 + 1, scalarOrders<K>((a % 25) / 5, a / 25)) }
VP_RUN(vp_entry_C13_vector, 2, 3, 13)
VP_MORE(vp_entry_C13_vector, 4, 14, 24)
void vp_entry_C13_vector(int a) { vectorOrders<3>(a % 10, a / 10); }

VP_RUN(vp_entry_C26_scalar, 0, 1, 2, 3)
void vp_entry_C26_scalar(int n) { loudScalar<5>(n); }
VP_RUN(vp_entry_C26_vector, 0, 1, 2, 3)
void vp_entry_C26_vector(int n) { loudVector<3>(n); }

// far more knots or options than any small threshold or narrow counter allows, at given times
VP_RUN(vp_entry_C11_huge, 260)
void vp_entry_C11_huge(int n) {
  std::vector<double> t, y;
  std::vector<SplineOptions> o;
  for (int i = 0; i < n; ++i) {
    t.push_back(2 * i + 5);
    y.push_back(vp_real("y", i));
    if (i > 0) o.push_back(SplineOptions(2.0, y[i - 1], y[i], 0.0, 0.0, 0.0, 0.0));
  }
  PolynomialSplineScalarCurve<PolynomialSplineContainer<1> > c, d;
  c.fitCurve(t, y, 1.0, 2.0, 3.0, 4.0);
  d.fitCurve(o);
  vp_eq(c.getMinTime(), t[0], "range starts at the first knot time");
  vp_eq(c.getMaxTime(), t[n - 1], "range ends at the last knot time");
  vp_eq(d.getMinTime(), 0.0, "a fit from options starts at zero");
  vp_eq(d.getMaxTime(), 2.0 * (n - 1), "and spans the pieces");
  for (int i = 0; i + 1 < n; ++i) {
    if (i % 50 > 1 && i % 64 > 1 && i + 3 < n) continue;
    double v = 0;
    vp_check(c.evaluate(v, t[i] + 0.5), "evaluation succeeds");
    vp_eq(v, 0.75 * y[i] + 0.25 * y[i + 1], "value is the trajectory at the time since the start");
    vp_check(d.evaluate(v, 2.0 * i + 0.5), "evaluation succeeds");
    vp_eq(v, 0.75 * y[i] + 0.25 * y[i + 1], "value is the trajectory at the time since the start");
  }
}
