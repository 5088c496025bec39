// Fitting knots: C08 (smooth fits and fallbacks), C09 (linear fit), C10 (invalid data refused).
#include "container.hpp"

namespace {

void knots(int n, std::vector<double>& t, std::vector<double>& y) {
  for (int i = 0; i < n; ++i) {
    t.push_back(vp_real("k", i));
    y.push_back(vp_real("y", i));
    if (i > 0) vp_assume(vp_real("k", i - 1) < vp_real("k", i));
  }
}

template <int N>
void pieces(const PolynomialSplineContainer<N>& c, const std::vector<double>& t, const std::vector<double>& y) {
  const int m = (int)t.size() - 1;
  vp_check((int)c.getSplines().size() == m, "one piece per knot interval");
  for (int i = 0; i < m; ++i) {
    const PolynomialSpline<N>& p = c.getSplines()[i];
    vp_eq(p.getSplineDuration(), t[i + 1] - t[i], "duration of the interval");
    vp_eq(p.getPositionAtTime(0.0), y[i], "position at the interval's first knot");
    vp_eq(p.getPositionAtTime(p.getSplineDuration()), y[i + 1], "position at the interval's second knot");
  }
}

template <int N>
void smooth(const PolynomialSplineContainer<N>& c, const std::vector<double>& t, double v0, double v1) {
  const int m = (int)t.size() - 1;
  for (int i = 0; i + 1 < m; ++i) {
    const PolynomialSpline<N>& p = c.getSplines()[i];
    const PolynomialSpline<N>& q = c.getSplines()[i + 1];
    const double T = t[i + 1] - t[i];
    vp_eq(p.getVelocityAtTime(T), q.getVelocityAtTime(0.0), "velocity continuous at an inner knot");
    vp_eq(p.getAccelerationAtTime(T), q.getAccelerationAtTime(0.0), "acceleration continuous at an inner knot");
  }
  vp_eq(c.getSplines()[0].getVelocityAtTime(0.0), v0, "requested initial velocity");
  vp_eq(c.getSplines()[m - 1].getVelocityAtTime(t[m] - t[m - 1]), v1, "requested final velocity");
}

template <int N>
void linear(const PolynomialSplineContainer<N>& c, const std::vector<double>& t, const std::vector<double>& y) {
  const int m = (int)t.size() - 1;
  for (int i = 0; i < m; ++i) {
    const PolynomialSpline<N>& p = c.getSplines()[i];
    const double T = t[i + 1] - t[i], s = vp_real("s");
    vp_assume(s > 0);
    if (s < T) {
      vp_eq(p.getPositionAtTime(s) * T, y[i] * T + (y[i + 1] - y[i]) * s, "position between the knots");
      vp_eq(p.getVelocityAtTime(s) * T, y[i + 1] - y[i], "constant velocity");
      vp_eq(p.getAccelerationAtTime(s), 0.0, "zero acceleration");
    }
  }
}

template <int N>
void velocityFit(int n) {
  std::vector<double> t, y;
  knots(n, t, y);
  const double v0 = vp_real("v0"), v1 = vp_real("v1");
  PolynomialSplineContainer<N> c;
  vp_check(c.setData(t, y, v0, v1), "valid knots are accepted");
  pieces<N>(c, t, y);
  if (4 * (n - 1) <= (N + 1) * (n - 1)) smooth<N>(c, t, v0, v1);
  else linear<N>(c, t, y);
}

template <int N>
void fullFit(int n) {
  std::vector<double> t, y;
  knots(n, t, y);
  const double v0 = vp_real("v0"), v1 = vp_real("v1"), a0 = vp_real("a0"), a1 = vp_real("a1");
  PolynomialSplineContainer<N> c;
  vp_check(c.setData(t, y, v0, a0, v1, a1), "valid knots are accepted");
  pieces<N>(c, t, y);
  const int m = n - 1;
  if (4 * m + 2 <= (N + 1) * m) {
    smooth<N>(c, t, v0, v1);
    vp_eq(c.getSplines()[0].getAccelerationAtTime(0.0), a0, "requested initial acceleration");
    vp_eq(c.getSplines()[m - 1].getAccelerationAtTime(t[m] - t[m - 1]), a1, "requested final acceleration");
  } else if (4 * m <= (N + 1) * m) {
    smooth<N>(c, t, v0, v1);
  } else {
    linear<N>(c, t, y);
  }
}

// fitting over an earlier fit of another size depends only on the new knots
template <int N>
void again(int n) {
  std::vector<double> t, y, t2, y2;
  knots(n, t, y);
  for (int i = 0; i < 3; ++i) {
    t2.push_back(vp_real("k2", i));
    y2.push_back(vp_real("z", i));
    if (i > 0) vp_assume(vp_real("k2", i - 1) < vp_real("k2", i));
  }
  const double v0 = vp_real("v0"), v1 = vp_real("v1"), a0 = vp_real("a0"), a1 = vp_real("a1");
  PolynomialSplineContainer<N> c;
  c.setData(t2, y2, vp_real("w0"), vp_real("b0"), vp_real("w1"), vp_real("b1"));
  c.setContainerTime(vp_real("x"));
  vp_check(c.setData(t, y, v0, a0, v1, a1), "valid knots are accepted");
  pieces<N>(c, t, y);
  if (N >= 3) smooth<N>(c, t, v0, v1);
  vp_check(c.setData(t2, y2, v0, v1), "valid knots are accepted");
  pieces<N>(c, t2, y2);
  if (N >= 3) smooth<N>(c, t2, v0, v1);
}

template <int N>
void linearFit(int n) {
  std::vector<double> t, y;
  knots(n, t, y);
  PolynomialSplineContainer<N> c;
  if (n % 2) fill<N>(c, 2);
  vp_check(c.setData(t, y), "valid knots are accepted");
  pieces<N>(c, t, y);
  linear<N>(c, t, y);
}

template <int N>
void refusal(int nt, int ny, int kind, int before) {
  std::vector<double> t, y;
  for (int i = 0; i < nt; ++i) t.push_back(vp_real("k", i));
  for (int i = 0; i < ny; ++i) y.push_back(vp_real("y", i));
  positive(2);
  PolynomialSplineContainer<N> c;
  if (before) {
    fill<N>(c, 2);
    c.setContainerTime(vp_real("x"));
    if (before == 2) c.advance(1.0);
  }
  bool valid = nt >= 2 && nt == ny;
  for (int i = 0; i + 1 < nt; ++i) {
    if (!(t[i] < t[i + 1])) valid = false;
  }
  bool got = false;
  if (kind == 0) got = c.setData(t, y);
  if (kind == 1) got = c.setData(t, y, vp_real("v0"), vp_real("v1"));
  if (kind == 2) got = c.setData(t, y, vp_real("v0"), vp_real("a0"), vp_real("v1"), vp_real("a1"));
  vp_check(got == valid, "exactly the valid knot data is accepted");
  if (!got) {
    vp_check(c.isEmpty(), "empty after a refusal");
    vp_check(c.getSplines().size() == 0, "no pieces after a refusal");
    vp_eq(c.getContainerDuration(), 0.0, "zero duration after a refusal");
    vp_eq(c.getContainerTime(), 0.0, "clock rewound after a refusal");
    vp_eq(c.getPositionAtTime(vp_real("u")), 0.0, "evaluates to zero after a refusal");
  }
}

}  // namespace

VP_RUN(vp_entry_C08_velocity, 10..24)
VP_MORE(vp_entry_C08_velocity, 25..34)
void vp_entry_C08_velocity(int a) { BY_ORDER(a % 5 + 1, velocityFit<K>(a / 5)) }
VP_RUN(vp_entry_C08_full, 10..24)
VP_MORE(vp_entry_C08_full, 25..34)
void vp_entry_C08_full(int a) { BY_ORDER(a % 5 + 1, fullFit<K>(a / 5)) }
VP_RUN(vp_entry_C08_again, 10..19)
VP_MORE(vp_entry_C08_again, 20..24)
void vp_entry_C08_again(int a) { BY_ORDER(a % 5 + 1, again<K>(a / 5)) }

VP_RUN(vp_entry_C08_many, @)
void vp_entry_C08_many(int n) {
  if (n < 2) return;
  BY_ORDER(n % 2 + 4, fullFit<K>(n))
  BY_ORDER(n % 3 + 3, velocityFit<K>(n))
}
VP_RUN(vp_entry_C09_linear, 10..29)
VP_MORE(vp_entry_C09_linear, 30..60)
void vp_entry_C09_linear(int a) { BY_ORDER(a % 5 + 1, linearFit<K>(a / 5)) }
VP_RUN(vp_entry_C09_many, @)
void vp_entry_C09_many(int n) { if (n >= 2) { BY_ORDER(n % 5 + 1, linearFit<K>(n)) } }

VP_RUN(vp_entry_C10_refusal, 0..224)
VP_MORE(vp_entry_C10_refusal, 225..374)
void vp_entry_C10_refusal(int a) {
  const int order = a % 5 + 1, kind = (a / 5) % 3, size = (a / 15) % 25;
  BY_ORDER(order, refusal<K>(size / 5, size % 5, kind, 1 + a % 2))
}
VP_RUN(vp_entry_C10_times, 30..89)
VP_MORE(vp_entry_C10_times, 90..104)
void vp_entry_C10_times(int a) { BY_ORDER(a % 5 + 1, refusal<K>(a / 15, a / 15, (a / 5) % 3, 2)) }
VP_RUN(vp_entry_C10_many, 5, 8, @)
void vp_entry_C10_many(int n) {
  if (n < 2) return;
  for (int kind = 0; kind < 3; ++kind) BY_ORDER((n + kind) % 5 + 1, refusal<K>(n, n, kind, 1))
}
VP_RUN(vp_entry_C10_fresh, 0..14)
void vp_entry_C10_fresh(int a) { BY_ORDER(a % 5 + 1, refusal<K>(3, 3, a / 5, 0)) }

// far more knots than any small threshold or narrow counter allows, at given times
VP_RUN(vp_entry_C09_huge, 260)
void vp_entry_C09_huge(int n) {
  std::vector<double> t, y;
  for (int i = 0; i < n; ++i) {
    t.push_back(i * 3 / 2 + 1);
    y.push_back(vp_real("y", i));
  }
  PolynomialSplineContainer<3> c;
  vp_check(c.setData(t, y), "accepted knots are fitted");
  pieces<3>(c, t, y);
  vp_eq(c.getContainerDuration(), t[n - 1] - t[0], "the fit covers the knots");
}
VP_RUN(vp_entry_C10_huge, 260)
void vp_entry_C10_huge(int n) {
  for (int kind = 0; kind < 4; ++kind) {
    std::vector<double> t, y;
    for (int i = 0; i < n; ++i) {
      t.push_back(i);
      y.push_back(vp_real("y", i));
    }
    if (kind == 1) t[n - 1] = t[n - 2];
    if (kind == 2) t[n - 2] = n + 1;
    if (kind == 3) y.pop_back();
    PolynomialSplineContainer<2> c;
    PolynomialSplineContainer<1> d;
    vp_check(c.setData(t, y) == (kind == 0), "exactly valid knot data is accepted");
    vp_check(d.setData(t, y, 1.0, 2.0, 3.0, 4.0) == (kind == 0), "exactly valid knot data is accepted");
    if (kind == 0) continue;
    vp_check(c.isEmpty() && d.isEmpty(), "a refusal leaves no pieces");
    vp_eq(c.getContainerDuration(), 0, "a refusal leaves no duration");
  }
}
