// Spline containers: C04 (duration and contents), C05 (lookup), C06 (evaluation), C07 (clock).
#include "container.hpp"

namespace {

// ---------------------------------------------------------------- C04
template <int N>
struct Shadow {
  int n = 0;
  PolynomialSpline<N> s[80];
  void clear() { n = 0; }
  void add(const PolynomialSpline<N>& p) { s[n++] = p; }
};

template <int N>
void fitted(PolynomialSplineContainer<N>& c, Shadow<N>& h, int knots) {
  // the fit replaces everything: one piece per interval with the interval's duration
  vp_check((int)c.getSplines().size() == knots - 1, "a fit leaves one piece per knot interval");
  h.clear();
  for (int i = 0; i + 1 < knots; ++i) {
    PolynomialSpline<N> p = c.getSplines()[i];
    vp_eq(p.getSplineDuration(), vp_real("k", i + 1) - vp_real("k", i), "duration of a fitted piece");
    h.add(p);
  }
}

template <int N>
void history(int n, int seq, int len) {
  for (int i = 0; i < 3; ++i) vp_assume(vp_real("k", i) < vp_real("k", i + 1));
  nonNegative(n + len + 2);
  PolynomialSplineContainer<N> c;
  Shadow<N> h;
  int next = 0;
  for (int i = 0; i < n; ++i) {
    PolynomialSpline<N> p = piece<N>(next++);
    c.addSpline(p);
    h.add(p);
  }
  std::vector<double> kt, kp;
  for (int i = 0; i < 3; ++i) {
    kt.push_back(vp_real("k", i));
    kp.push_back(vp_real("y", i));
  }
  for (int step = 0; step < len; ++step) {
    const int op = seq % 8;
    seq /= 8;
    if (op == 0) {
      PolynomialSpline<N> p = piece<N>(next++);
      vp_check(c.addSpline(p), "adding succeeds");
      h.add(p);
    } else if (op == 1) {
      PolynomialSpline<N> p = piece<N>(next++);
      h.add(p);
      vp_check(c.addSpline(std::move(p)), "adding succeeds");
    } else if (op == 2) {
      c.reset();
      h.clear();
    } else if (op == 3) {
      c.resetTime();
      c.reserveSplines(7);
    } else if (op == 4) {
      c.setContainerTime(vp_real("t", step));
    } else if (op == 5) {
      c.advance(vp_real("t", step));
    } else if (op == 6) {
      vp_check(c.setData(kt, kp), "fit succeeds");
      fitted<N>(c, h, 3);
    } else if (op == 7) {
      std::vector<double> one(1, vp_real("k", 0)), y(1, vp_real("y", 0));
      vp_check(!c.setData(one, y), "fit of one knot is refused");
      h.clear();
    }
  }
  double total = 0;
  vp_check((int)c.getSplines().size() == h.n, "number of pieces");
  vp_check(c.isEmpty() == (h.n == 0), "isEmpty");
  for (int i = 0; i < h.n; ++i) {
    const PolynomialSpline<N>& p = c.getSplines()[i];
    vp_eq(p.getSplineDuration(), h.s[i].getSplineDuration(), "duration of each piece");
    for (int k = 0; k <= N; ++k) vp_eq(p.getCoefficients()[k], h.s[i].getCoefficients()[k], "coefficients of each piece");
    vp_check(c.getSpline(i) == &p, "getSpline");
    total += p.getSplineDuration();
  }
  vp_eq(c.getContainerDuration(), total, "container duration is the sum of the pieces' durations");
}

template <int N>
void refitted(int kind) {
  for (int i = 0; i < 3; ++i) vp_assume(vp_real("k", i) < vp_real("k", i + 1));
  nonNegative(2);
  std::vector<double> kt, kp;
  for (int i = 0; i < 3; ++i) {
    kt.push_back(vp_real("k", i));
    kp.push_back(vp_real("y", i));
  }
  PolynomialSplineContainer<N> c;
  fill<N>(c, 2);
  c.setContainerTime(vp_real("t"));
  if (kind == 0) vp_check(c.setData(kt, kp), "fit succeeds");
  if (kind == 1) vp_check(c.setData(kt, kp, vp_real("v"), vp_real("w")), "fit succeeds");
  if (kind == 2) vp_check(c.setData(kt, kp, vp_real("v"), vp_real("a"), vp_real("w"), vp_real("b")), "fit succeeds");
  vp_check(c.getSplines().size() == 2, "a fit replaces the earlier pieces");
  vp_eq(c.getContainerDuration(), kt[2] - kt[0], "duration after fitting");
  vp_eq(c.getSplines()[0].getSplineDuration(), kt[1] - kt[0], "duration of a fitted piece");
  vp_eq(c.getSplines()[1].getSplineDuration(), kt[2] - kt[1], "duration of a fitted piece");
  c.addSpline(piece<N>(0));
  vp_eq(c.getContainerDuration(), kt[2] - kt[0] + vp_real("T", 0), "duration after adding to a fit");
  c.reset();
  vp_eq(c.getContainerDuration(), 0.0, "duration after reset");
  vp_eq(c.getContainerTime(), 0.0, "time after reset");
  vp_check(c.isEmpty(), "empty after reset");
}

// the same n pieces, after one of several histories (the clock moved, other contents before, a copy, replaced pieces)
const int HISTORIES = 7;
template <int N>
void filled(PolynomialSplineContainer<N>& c, int n, int how) {
  if (how == 3 || how == 4) {
    c.addSpline(piece<N>(40));
    c.addSpline(piece<N>(41));
    if (how == 4) c.advance(vp_real("u"));
    c.reset();
  }
  if (how == 5) {
    PolynomialSplineContainer<N> d;
    fill<N>(d, n);
    d.setContainerTime(vp_real("u"));
    c.addSpline(piece<N>(40));
    c = d;
    return;
  }
  if (how == 6) {
    // pieces replaced in place (by ones of the same duration)
    for (int i = 0; i < n; ++i) c.addSpline(PolynomialSpline<N>(coeffs<N>(50), vp_real("T", i)));
    c.setContainerTime(vp_real("u"));
    c.getPositionAtTime(vp_real("w"));
    for (int i = 0; i < n; ++i) c.getSpline(i)->setCoefficientsAndDuration(coeffs<N>(i), vp_real("T", i));
    return;
  }
  fill<N>(c, n);
  if (how == 1) c.setContainerTime(vp_real("u"));
  if (how == 2) {
    vp_assume(vp_real("u") >= 0);
    c.advance(vp_real("u"));
    c.advance(vp_real("u"));
  }
}

// ---------------------------------------------------------------- C05
template <int N>
void lookup(int n, int how = 0) {
  nonNegative(n);
  double t = vp_real("t");
  PolynomialSplineContainer<N> c;
  filled<N>(c, n, how);
  double off = vp_real("junk");
  const int idx = c.getActiveSplineIndexAtTime(t, off);
  if (n == 0) {
    vp_check(idx < 0, "empty container reported by a negative index");
    return;
  }
  int want = -1;
  double start = 0, wantStart = 0;
  for (int i = 0; i < n; ++i) {
    const double T = vp_real("T", i);
    if (want < 0 && (t < start + T || i == n - 1)) {
      want = i;
      wantStart = start;
    }
    start += T;
  }
  vp_check(idx == want, "index of the active piece");
  vp_eq(off, wantStart, "start time of the active piece");
}

// ---------------------------------------------------------------- C06
template <int N>
void evaluation(int n, int how = 0) {
  nonNegative(n);
  double t = vp_real("t");
  PolynomialSplineContainer<N> c;
  filled<N>(c, n, how);
  const double p = c.getPositionAtTime(t), v = c.getVelocityAtTime(t), a = c.getAccelerationAtTime(t);
  if (n == 0) {
    vp_eq(p, 0.0, "empty container: position");
    vp_eq(v, 0.0, "empty container: velocity");
    vp_eq(a, 0.0, "empty container: acceleration");
    vp_eq(c.getEndPosition(), 0.0, "empty container: end position");
    vp_eq(c.getEndVelocity(), 0.0, "empty container: end velocity");
    vp_eq(c.getEndAcceleration(), 0.0, "empty container: end acceleration");
    vp_eq(c.getPosition(), 0.0, "empty container: current position");
    vp_eq(c.getVelocity(), 0.0, "empty container: current velocity");
    vp_eq(c.getAcceleration(), 0.0, "empty container: current acceleration");
    return;
  }
  double start = 0, wp = 0, wv = 0, wa = 0;
  bool done = false;
  for (int i = 0; i < n; ++i) {
    const PolynomialSpline<N> s = piece<N>(i);
    const double T = vp_real("T", i);
    if (!done && (t < start + T || i == n - 1)) {
      done = true;
      double u = t - start;
      if (u < 0) u = 0;
      if (u > T) u = T;
      wp = s.getPositionAtTime(u);
      wv = s.getVelocityAtTime(u);
      wa = s.getAccelerationAtTime(u);
    }
    start += T;
  }
  vp_eq(p, wp, "position is that of the active piece at its local time");
  vp_eq(v, wv, "velocity is that of the active piece at its local time");
  vp_eq(a, wa, "acceleration is that of the active piece at its local time");
}

template <int N>
void ends(int n, int how = 0) {
  nonNegative(n);
  PolynomialSplineContainer<N> c;
  filled<N>(c, n, how);
  const double D = c.getContainerDuration();
  const PolynomialSpline<N> s = piece<N>(n - 1);
  const double T = vp_real("T", n - 1);
  vp_eq(c.getEndPosition(), c.getPositionAtTime(D), "end position");
  vp_eq(c.getEndVelocity(), c.getVelocityAtTime(D), "end velocity");
  vp_eq(c.getEndAcceleration(), c.getAccelerationAtTime(D), "end acceleration");
  vp_eq(c.getEndPosition(), s.getPositionAtTime(T), "end position is that of the last piece");
  vp_eq(c.getEndVelocity(), s.getVelocityAtTime(T), "end velocity is that of the last piece");
  vp_eq(c.getEndAcceleration(), s.getAccelerationAtTime(T), "end acceleration is that of the last piece");
}

// ---------------------------------------------------------------- C07
template <int N>
void clock(int n, int seq, int len) {
  positive(n + len);
  PolynomialSplineContainer<N> c;
  fill<N>(c, n);
  double now = 0, duration = 0;
  int next = n;
  bool empty = n == 0;
  for (int i = 0; i < n; ++i) duration += vp_real("T", i);
  for (int step = 0; step < len; ++step) {
    const int op = seq % 6;
    seq /= 6;
    const double x = vp_real("x", step);
    if (op == 0) {
      c.setContainerTime(x);
      now = x;
    } else if (op == 1) {
      vp_assume(x >= 0);
      const bool want = !empty && now < duration;
      const bool got = c.advance(x);
      vp_check(got == want, "advancing succeeds exactly before the end of a non-empty container");
      if (want) now += x;
    } else if (op == 2) {
      c.resetTime();
      now = 0;
    } else if (op == 3) {
      c.addSpline(piece<N>(next));
      duration += vp_real("T", next);
      ++next;
      empty = false;
    } else if (op == 5) {
      std::vector<double> kt, kp;
      for (int i = 0; i < 3; ++i) {
        kt.push_back(vp_real("k", i));
        kp.push_back(vp_real("y", i));
        if (i > 0) vp_assume(vp_real("k", i - 1) < vp_real("k", i));
      }
      c.setData(kt, kp);
      duration = vp_real("k", 2) - vp_real("k", 0);
      empty = false;
      now = c.getContainerTime();
    } else {
      c.reset();
      now = 0;
      duration = 0;
      empty = true;
    }
    vp_eq(c.getContainerTime(), now, "reported time");
    vp_eq(c.getPosition(), c.getPositionAtTime(now), "current position is the one at the reported time");
    vp_eq(c.getVelocity(), c.getVelocityAtTime(now), "current velocity is the one at the reported time");
    vp_eq(c.getAcceleration(), c.getAccelerationAtTime(now), "current acceleration is the one at the reported time");
  }
}

// ---------------------------------------------------------------- C18
template <int N>
void noInvalidAccess(int n, int how) {
  PolynomialSplineContainer<N> c;
  for (int i = 0; i < n; ++i) c.addSpline(piece<N>(i));
  const double x = vp_real("x"), y = vp_real("y");
  if (how == 1) c.reset();
  if (how == 2) c.setContainerTime(x);
  if (how == 3) c.advance(x);
  if (how == 4) {
    c.setContainerTime(x);
    c.reset();
    c.advance(y);
  }
  if (how == 5) {
    std::vector<double> one(1, x), none, two(2, y);
    vp_check(!c.setData(none, none) && !c.setData(none, none, x, y) && !c.setData(none, none, x, y, x, y), "no knots are refused");
    vp_check(!c.setData(one, one) && !c.setData(one, one, x, y) && !c.setData(one, one, x, y, x, y), "one knot is refused");
    vp_check(!c.setData(two, one) && !c.setData(one, two), "different lengths are refused");
    vp_check(!c.setData(two, none, x, y) && !c.setData(none, two, x, y), "different lengths are refused");
    vp_check(!c.setData(two, none, x, y, x, y) && !c.setData(none, two, x, y, x, y), "different lengths are refused");
  }
  const bool none = n == 0 || how == 1 || how == 4 || how == 5;
  const double p = c.getPosition(), v = c.getVelocity(), a = c.getAcceleration();
  const double pt = c.getPositionAtTime(y), vt = c.getVelocityAtTime(y), at = c.getAccelerationAtTime(y);
  const double pe = c.getEndPosition(), ve = c.getEndVelocity(), ae = c.getEndAcceleration();
  c.checkContainer();
  c.getActiveSplineIndex();
  double off = 0.0;
  const int i = c.getActiveSplineIndexAtTime(y, off);
  vp_check(none ? i < 0 : (i >= 0 && i < n), "the index is that of a piece, or negative without pieces");
  if (none) {
    vp_check(!c.advance(x), "an empty container does not advance");
    vp_eq(p, 0.0, "queries of an empty container");
    vp_eq(v, 0.0, "queries of an empty container");
    vp_eq(a, 0.0, "queries of an empty container");
    vp_eq(pt, 0.0, "queries of an empty container");
    vp_eq(vt, 0.0, "queries of an empty container");
    vp_eq(at, 0.0, "queries of an empty container");
    vp_eq(pe, 0.0, "queries of an empty container");
    vp_eq(ve, 0.0, "queries of an empty container");
    vp_eq(ae, 0.0, "queries of an empty container");
  }
  if (how == 0) {
    vp_check(vp_aborts([&] { c.getSpline(n); }), "the piece past the last is refused");
    vp_check(vp_aborts([&] { c.getSpline(-1); }), "a negative index is refused");
    for (int k = 0; k < n; ++k) vp_check(c.getSpline(k) == &c.getSplines()[k], "getSpline");
  }
}

// ---------------------------------------------------------------- C29
template <int N>
struct Seen {
  int n;
  double duration, time, p, v, a, pt, vt, at, ct[80], cc[80][N + 1];
  explicit Seen(const PolynomialSplineContainer<N>& c) {
    const double t = vp_real("t");
    n = (int)c.getSplines().size();
    duration = c.getContainerDuration();
    time = c.getContainerTime();
    p = c.getPosition();
    v = c.getVelocity();
    a = c.getAcceleration();
    pt = c.getPositionAtTime(t);
    vt = c.getVelocityAtTime(t);
    at = c.getAccelerationAtTime(t);
    for (int i = 0; i < n; ++i) {
      ct[i] = c.getSplines()[i].getSplineDuration();
      for (int k = 0; k <= N; ++k) cc[i][k] = c.getSplines()[i].getCoefficients()[k];
    }
  }
};
template <int N>
void same(const PolynomialSplineContainer<N>& c, const Seen<N>& s, const char* label) {
  const Seen<N> o(c);
  vp_check(o.n == s.n, label);
  vp_eq(o.duration, s.duration, label);
  vp_eq(o.time, s.time, label);
  vp_eq(o.p, s.p, label);
  vp_eq(o.v, s.v, label);
  vp_eq(o.a, s.a, label);
  vp_eq(o.pt, s.pt, label);
  vp_eq(o.vt, s.vt, label);
  vp_eq(o.at, s.at, label);
  for (int i = 0; i < s.n; ++i) {
    vp_eq(o.ct[i], s.ct[i], label);
    for (int k = 0; k <= N; ++k) vp_eq(o.cc[i][k], s.cc[i][k], label);
  }
}

template <int N>
void change(PolynomialSplineContainer<N>& c, int op) {
  const double x = vp_real("x");
  if (op == 0) c.addSpline(piece<N>(7));
  if (op == 1) c.reset();
  if (op == 2) c.setContainerTime(x);
  if (op == 3) c.advance(x);
  if (op == 4) c.resetTime();
  if (op == 5 && !c.isEmpty()) c.getSpline(0)->setCoefficientsAndDuration(coeffs<N>(8), vp_real("T", 8));
  if (op == 6 && !c.isEmpty()) (*c.getSpline(0)->getCoefficientsPtr())[0] = x;
  if (op == 7) {
    std::vector<double> kt(1, 0.0), kp(1, 1.0);
    kt.push_back(2.0);
    kp.push_back(x);
    c.setData(kt, kp);
  }
}
const int CHANGES = 8;

template <int N>
PolynomialSplineContainer<N> original(int n) {
  PolynomialSplineContainer<N> c;
  fill<N>(c, n);
  c.setContainerTime(vp_real("u"));
  return c;
}
template <int N>
PolynomialSplineContainer<N> copyOfTemporary(int n) {
  PolynomialSplineContainer<N> c;
  fill<N>(c, n);
  c.setContainerTime(vp_real("u"));
  return PolynomialSplineContainer<N>(static_cast<const PolynomialSplineContainer<N>&>(c));
}

template <int N>
void copies(int n, int op, int how) {
  positive(9);
  PolynomialSplineContainer<N> c = original<N>(n);
  const Seen<N> s(c);
  if (how == 0) {
    PolynomialSplineContainer<N> d(c);
    same<N>(d, s, "a copy answers like the original");
    change<N>(c, op);
    same<N>(d, s, "changing the original leaves the copy alone");
    const Seen<N> now(c);
    change<N>(d, 7 - op);
    same<N>(c, now, "changing the copy leaves the original alone");
  } else if (how == 1) {
    PolynomialSplineContainer<N> d;
    fill<N>(d, 1);
    d.setContainerTime(vp_real("w"));
    d = c;
    same<N>(d, s, "an assigned copy answers like the original");
    change<N>(d, op);
    same<N>(c, s, "changing the copy leaves the original alone");
    c = c;
    same<N>(c, s, "assigning an object to itself changes nothing");
  } else {
    PolynomialSplineContainer<N> d = copyOfTemporary<N>(n);
    same<N>(d, s, "a copy outlives the original");
    change<N>(d, op);
    change<N>(c, op);
    same<N>(d, Seen<N>(c), "a copy behaves like the original under the same change");
  }
}

// many pieces: contents only
template <int N>
void samePieces(const PolynomialSplineContainer<N>& c, int n, const char* label) {
  double total = 0;
  vp_check((int)c.getSplines().size() == n, label);
  for (int i = 0; i < n; ++i) {
    const PolynomialSpline<N>& s = c.getSplines()[i];
    vp_eq(s.getSplineDuration(), vp_real("T", i), label);
    for (int k = 0; k <= N; ++k) vp_eq(s.getCoefficients()[k], coeffs<N>(i)[k], label);
    total += vp_real("T", i);
  }
  vp_eq(c.getContainerDuration(), total, label);
  vp_eq(c.getPositionAtTime(-1.0), piece<N>(0).getPositionAtTime(0.0), label);
}
template <int N>
void copiesMany(int n, int how) {
  positive(n);
  PolynomialSplineContainer<N> c, d;
  fill<N>(c, n);
  if (how == 1) {
    d = c;
  } else {
    PolynomialSplineContainer<N> e(c);
    samePieces<N>(e, n, "a copy answers like the original");
    e.reset();
    samePieces<N>(c, n, "changing the copy leaves the original alone");
    d = PolynomialSplineContainer<N>(c);
  }
  samePieces<N>(d, n, "an assigned copy answers like the original");
  c.getSpline(n - 1)->setCoefficientsAndDuration(coeffs<N>(90), 1.0);
  c.reset();
  samePieces<N>(d, n, "changing the original leaves the copy alone");
}

template <int N>
void pieceCopies(int op) {
  PolynomialSpline<N> p = piece<N>(0);
  if (op >= 4) p = PolynomialSpline<N>(SplineOptions(vp_real("T", 0), vp_real("p"), vp_real("q"), vp_real("v"), vp_real("w"), vp_real("a"), vp_real("b")));
  if (op >= 4) vp_assume(vp_real("T", 0) > 0);
  const double t = vp_real("t"), x = vp_real("x");
  double cc[N + 1];
  for (int k = 0; k <= N; ++k) cc[k] = p.getCoefficients()[k];
  const double T = p.getSplineDuration(), pt = p.getPositionAtTime(t), vt = p.getVelocityAtTime(t), at = p.getAccelerationAtTime(t);
  PolynomialSpline<N> c(p), d = piece<N>(1);
  d = p;
  if (op % 4 == 0) p.setCoefficientsAndDuration(coeffs<N>(3), x);
  if (op % 4 == 1) (*p.getCoefficientsPtr())[0] = x;
  if (op % 4 == 2) p.computeCoefficients(SplineOptions(1.0, x, x, x, x, x, x));
  if (op % 4 == 3) {
    PolynomialSpline<N>* h = new PolynomialSpline<N>(p);
    c = *h;
    d = PolynomialSpline<N>(*h);
    delete h;
  }
  for (int k = 0; k <= N; ++k) {
    vp_eq(c.getCoefficients()[k], cc[k], "a copy keeps the coefficients");
    vp_eq(d.getCoefficients()[k], cc[k], "an assigned copy keeps the coefficients");
  }
  vp_eq(c.getSplineDuration(), T, "a copy keeps the duration");
  vp_eq(d.getSplineDuration(), T, "an assigned copy keeps the duration");
  vp_eq(c.getPositionAtTime(t), pt, "a copy answers like the original");
  vp_eq(d.getPositionAtTime(t), pt, "a copy answers like the original");
  vp_eq(c.getVelocityAtTime(t), vt, "a copy answers like the original");
  vp_eq(d.getVelocityAtTime(t), vt, "a copy answers like the original");
  vp_eq(c.getAccelerationAtTime(t), at, "a copy answers like the original");
  vp_eq(d.getAccelerationAtTime(t), at, "a copy answers like the original");
  c.setCoefficientsAndDuration(coeffs<N>(4), x);
  for (int k = 0; k <= N; ++k) vp_eq(d.getCoefficients()[k], cc[k], "copies are independent of each other");
}

// ---------------------------------------------------------------- C27
// Queries of two objects in turn, and of one object again: nothing asked before shows in an answer.
template <int N>
void repeated(int n) {
  positive(6);
  PolynomialSplineContainer<N> c, d;
  fill<N>(c, n);
  d.addSpline(piece<N>(4));
  d.addSpline(piece<N>(5));
  const double t = vp_real("t"), u = vp_real("u");
  const double p = c.getPositionAtTime(t), v = c.getVelocityAtTime(t), a = c.getAccelerationAtTime(t);
  d.getPositionAtTime(u);
  d.getVelocityAtTime(u);
  d.getAccelerationAtTime(u);
  c.getPositionAtTime(u);
  c.getVelocityAtTime(u);
  c.getAccelerationAtTime(u);
  d.getEndPosition();
  d.getEndVelocity();
  d.getEndAcceleration();
  double o1 = 0, o2 = 0;
  d.getActiveSplineIndexAtTime(u, o1);
  const int i = c.getActiveSplineIndexAtTime(t, o1);
  d.getActiveSplineIndexAtTime(t, o2);
  vp_check(c.getActiveSplineIndexAtTime(t, o2) == i, "the same query gives the same answer");
  if (n > 0) vp_eq(o1, o2, "the same query gives the same answer");
  vp_eq(c.getPositionAtTime(t), p, "the same query gives the same answer");
  vp_eq(c.getVelocityAtTime(t), v, "the same query gives the same answer");
  vp_eq(c.getAccelerationAtTime(t), a, "the same query gives the same answer");
  // and answers depend on the object asked: a container built alike answers alike, first or last
  PolynomialSplineContainer<N> e;
  fill<N>(e, n);
  vp_eq(e.getPositionAtTime(t), p, "equal objects give equal answers");
  vp_eq(e.getVelocityAtTime(t), v, "equal objects give equal answers");
  vp_eq(e.getAccelerationAtTime(t), a, "equal objects give equal answers");
}

template <int N>
void repeatedPiece() {
  PolynomialSpline<N> s = piece<N>(0), r = piece<N>(1);
  const double t = vp_real("t"), u = vp_real("u");
  const double p = s.getPositionAtTime(t), v = s.getVelocityAtTime(t), a = s.getAccelerationAtTime(t);
  typename PolynomialSpline<N>::EigenTimeVectorType x, y, z;
  PolynomialSpline<N>::getTimeVector(x, t);
  r.getPositionAtTime(u);
  r.getVelocityAtTime(u);
  r.getAccelerationAtTime(u);
  s.getPositionAtTime(u);
  s.getVelocityAtTime(u);
  s.getAccelerationAtTime(u);
  PolynomialSpline<N>::getTimeVector(y, u);
  PolynomialSpline<N>::getDTimeVector(y, u);
  PolynomialSpline<N>::getDDTimeVector(y, u);
  vp_eq(s.getPositionAtTime(t), p, "the same query gives the same answer");
  vp_eq(s.getVelocityAtTime(t), v, "the same query gives the same answer");
  vp_eq(s.getAccelerationAtTime(t), a, "the same query gives the same answer");
  PolynomialSpline<N>::getTimeVector(z, t);
  for (int k = 0; k <= N; ++k) vp_eq(z(k), x(k), "the same query gives the same answer");
}

// ---------------------------------------------------------------- C34
// The self-check accepts exactly the containers whose clock lies in [0, duration], whose pieces have durations >= 0 and
// whose coefficients are all numbers. Pieces of any sign of duration, any clock, at most one coefficient replaced by NaN.
template <int N>
void selfCheck(int n, int how, int bad) {
  PolynomialSplineContainer<N> c;
  fill<N>(c, n);
  if (how == 1) c.setContainerTime(vp_real("t"));
  if (how == 2) c.advance(vp_real("t"));
  if (how == 3) {
    // durations and coefficients replaced in place, after the clock was set
    c.setContainerTime(vp_real("t"));
    for (int i = 0; i < n; ++i) c.getSpline(i)->setCoefficientsAndDuration(coeffs<N>(i + 10), vp_real("S", i));
  }
  if (how == 4) {
    c.setContainerTime(vp_real("t"));
    PolynomialSplineContainer<N> d(c);
    c.reset();
    fill<N>(c, 1);
    c = d;
  }
  if (bad >= 0) (*c.getSpline(bad / (N + 1))->getCoefficientsPtr())[bad % (N + 1)] = std::numeric_limits<double>::quiet_NaN();
  bool ok = bad < 0 && c.getContainerTime() >= 0 && c.getContainerTime() <= c.getContainerDuration();
  for (int i = 0; i < n; ++i) ok = ok && vp_real(how == 3 ? "S" : "T", i) >= 0;
  const double before = c.getContainerTime(), dur = c.getContainerDuration();
  const bool got = c.checkContainer();
  vp_check(ok || !got, "a broken container is not accepted");
  vp_check(!ok || got, "a sound container is accepted");
  vp_eq(c.getContainerTime(), before, "checking leaves the clock");
  vp_eq(c.getContainerDuration(), dur, "checking leaves the duration");
}

template <int N>
void selfCheckFitted(int kind, int knots) {
  std::vector<double> kt, kp;
  for (int i = 0; i < knots; ++i) {
    if (i) vp_assume(vp_real("k", i - 1) < vp_real("k", i));
    kt.push_back(vp_real("k", i));
    kp.push_back(vp_real("y", i));
  }
  PolynomialSplineContainer<N> c;
  if (kind == 0) vp_check(c.setData(kt, kp), "fit succeeds");
  if (kind == 1) vp_check(c.setData(kt, kp, vp_real("v"), vp_real("w")), "fit succeeds");
  if (kind == 2) vp_check(c.setData(kt, kp, vp_real("v"), vp_real("a"), vp_real("w"), vp_real("b")), "fit succeeds");
  vp_check(c.checkContainer(), "a fitted container is accepted");
  vp_assume(vp_real("t") >= 0 && vp_real("t") <= kt[knots - 1] - kt[0]);
  c.setContainerTime(vp_real("t"));
  vp_check(c.checkContainer(), "a fitted container is accepted at every time it covers");
  c.setContainerTime(kt[knots - 1] - kt[0] + 1);
  vp_check(!c.checkContainer(), "a clock past the end is not accepted");
  c.reset();
  vp_check(c.checkContainer(), "an emptied container is accepted");
}

// Far more pieces than any small threshold or narrow counter allows, of given durations and unknown values.
template <int N>
double hugeContainer(PolynomialSplineContainer<N>& c, int n, std::vector<double>& starts) {
  double end = 0;
  for (int i = 0; i < n; ++i) {
    typename PolynomialSpline<N>::SplineCoefficients k = {};
    k[N] = vp_real("a", i);
    k[N - 1] = vp_real("b", i);
    c.addSpline(PolynomialSpline<N>(k, i % 3 + 1));
    starts.push_back(end);
    end += i % 3 + 1;
  }
  return end;
}
inline bool picked(int i, int n) { return i < 2 || i % 64 < 2 || i % 64 == 63 || i % 50 < 2 || i + 3 > n; }

template <int N>
void huge(int n, int what) {
  PolynomialSplineContainer<N> c;
  std::vector<double> starts;
  const double end = hugeContainer<N>(c, n, starts);
  if (what == 4) {
    vp_eq(c.getContainerDuration(), end, "the duration is the sum of the pieces' durations");
    vp_check(c.getSplines().size() == static_cast<size_t>(n), "every piece is held");
    for (int i = 0; i < n; ++i) {
      vp_eq(c.getSplines()[i].getPositionAtTime(0), vp_real("a", i), "pieces are held in the order of adding");
      vp_eq(c.getSpline(i)->getSplineDuration(), i % 3 + 1, "pieces keep their duration");
    }
    c.reset();
    vp_check(c.isEmpty() && c.getSplines().empty(), "nothing is left after a reset");
    vp_eq(c.getContainerDuration(), 0, "the duration is zero after a reset");
  }
  if (what == 7) {
    double now = 0;
    for (int i = 0; i < n; ++i) {
      if (picked(i, n)) {
        vp_eq(c.getContainerTime(), now, "the clock moves by exactly the step");
        vp_eq(c.getPosition(), vp_real("a", i) + (now - starts[i]) * vp_real("b", i), "the current position is that of the current time");
        vp_eq(c.getVelocity(), vp_real("b", i), "the current velocity is that of the current time");
      }
      const double next = i + 1 < n ? starts[i + 1] + 0.25 : end - 0.125;
      vp_check(c.advance(next - now), "advancing succeeds before the end");
      now = next;
    }
    vp_check(c.advance(1), "advancing succeeds before the end");
    vp_check(!c.advance(1), "advancing fails at the end");
    vp_eq(c.getContainerTime(), end + 0.875, "and changes nothing");
    vp_eq(c.getPosition(), vp_real("a", n - 1) + ((n - 1) % 3 + 1) * vp_real("b", n - 1), "the end is held");
    c.resetTime();
    vp_eq(c.getPosition(), vp_real("a", 0), "rewinding returns to the start");
    for (int i = n - 3; i > 0; i -= 61) {
      c.resetTime();
      vp_check(c.advance(starts[i] + 0.25), "advancing succeeds before the end");
      vp_eq(c.getPosition(), vp_real("a", i) + 0.25 * vp_real("b", i), "the current position is that of the current time");
      vp_eq(c.getVelocity(), vp_real("b", i), "the current velocity is that of the current time");
    }
  }
  for (int i = 0; i < n; ++i) {
    if (!picked(i, n) || what == 4) continue;
    const double t = starts[i] + 0.5;
    if (what == 5) {
      double offset = -1;
      vp_check(c.getActiveSplineIndexAtTime(t, offset) == i, "the piece containing the time is found");
      vp_eq(offset, starts[i], "with its start");
      vp_check(c.getActiveSplineIndexAtTime(starts[i], offset) == i, "the piece starting at the time is found");
      vp_eq(offset, starts[i], "with its start");
    }
    if (what == 6) {
      vp_eq(c.getPositionAtTime(t), vp_real("a", i) + 0.5 * vp_real("b", i), "the active piece is evaluated at its local time");
      vp_eq(c.getVelocityAtTime(t), vp_real("b", i), "the active piece is evaluated at its local time");
      vp_eq(c.getAccelerationAtTime(t), 0, "the active piece is evaluated at its local time");
    }
    if (what == 7) {
      c.setContainerTime(t);
      vp_eq(c.getPosition(), vp_real("a", i) + 0.5 * vp_real("b", i), "the current position is that of the current time");
      vp_eq(c.getContainerTime(), t, "the clock shows the time jumped to");
    }
  }
  if (what == 5) {
    double offset = -1;
    vp_check(c.getActiveSplineIndexAtTime(end + 1, offset) == n - 1, "past the end the last piece is found");
    vp_eq(offset, starts[n - 1], "with its start");
  }
  if (what == 6) vp_eq(c.getEndPosition(), vp_real("a", n - 1) + ((n - 1) % 3 + 1) * vp_real("b", n - 1), "the end position");
}

}  // namespace

// histories: n initial pieces and a sequence of operations, both part of the argument
VP_RUN(vp_entry_C04_histories, 0..191)
VP_MORE(vp_entry_C04_histories, 192..255)
void vp_entry_C04_histories(int a) {
  const int n = a / 64, seq = a % 64;
  BY_ORDER(a % 5 + 1, history<K>(n, seq, 2))
}
VP_MORE(vp_entry_C04_long, 0..1023)
void vp_entry_C04_long(int a) { BY_ORDER((a / 3) % 5 + 1, history<K>(a / 512 + 1, a % 512, 3)) }
VP_RUN(vp_entry_C04_many, 0, 5, 9, @)
void vp_entry_C04_many(int n) { BY_ORDER(3, history<K>(n, 0, 0)) }
// many pieces, then two operations: add, reset, rewind, jump, fit, refused fit
VP_RUN(vp_entry_C04_many_then, 5, @)
void vp_entry_C04_many_then(int n) {
  const int ops[] = {0, 8 * 2 + 1, 2, 3, 4, 6, 7};
  for (int i = 0; i < 7; ++i) BY_ORDER(i % 3 + 2, history<K>(n, ops[i], 2))
}
VP_RUN(vp_entry_C04_refit, 0..14)
void vp_entry_C04_refit(int a) { BY_ORDER(a % 5 + 1, refitted<K>(a / 5)) }

VP_RUN(vp_entry_C04_huge, 260)
void vp_entry_C04_huge(int n) { huge<2>(n, 4); }
VP_RUN(vp_entry_C05_huge, 260)
void vp_entry_C05_huge(int n) { huge<1>(n, 5); }
VP_RUN(vp_entry_C06_huge, 260)
void vp_entry_C06_huge(int n) { huge<2>(n, 6); }
VP_RUN(vp_entry_C07_huge, 260)
void vp_entry_C07_huge(int n) { huge<2>(n, 7); }

VP_RUN(vp_entry_C05_lookup, 0..5, 8, @)
VP_MORE(vp_entry_C05_lookup, 6..20)
void vp_entry_C05_lookup(int n) { BY_ORDER(n % 5 + 1, lookup<K>(n)) }
VP_RUN(vp_entry_C05_orders, 1..5)
void vp_entry_C05_orders(int n) { BY_ORDER(n, lookup<K>(3)) }

VP_RUN(vp_entry_C06_evaluation, 0..24)
VP_MORE(vp_entry_C06_evaluation, 25..39)
void vp_entry_C06_evaluation(int a) { BY_ORDER(a % 5 + 1, evaluation<K>(a / 5)) }
VP_RUN(vp_entry_C06_ends, 5..19)
VP_MORE(vp_entry_C06_ends, 20..34)
void vp_entry_C06_ends(int a) { BY_ORDER(a % 5 + 1, ends<K>(a / 5)) }
VP_RUN(vp_entry_C05_after, 7..27)
VP_MORE(vp_entry_C05_after, 0..6, 28..34)
void vp_entry_C05_after(int a) { BY_ORDER(a % 5 + 1, lookup<K>(a / 7, a % 7)) }
VP_RUN(vp_entry_C06_after, 0..20)
VP_MORE(vp_entry_C06_after, 21..34)
void vp_entry_C06_after(int a) { BY_ORDER((a + a / 5) % 5 + 1, evaluation<K>(a / 7, a % 7)) }
VP_RUN(vp_entry_C06_endsAfter, 7..20)
VP_MORE(vp_entry_C06_endsAfter, 21..34)
void vp_entry_C06_endsAfter(int a) { BY_ORDER((a + a / 5) % 5 + 1, ends<K>(a / 7, a % 7)) }
VP_RUN(vp_entry_C06_many, @)
void vp_entry_C06_many(int n) { BY_ORDER(2, evaluation<K>(n)) }
VP_RUN(vp_entry_C06_endsMany, 5, 8, @)
void vp_entry_C06_endsMany(int n) { BY_ORDER(n % 5 + 1, { ends<K>(n); ends<K>(n, 1); }) }

VP_RUN(vp_entry_C07_histories, 0..143)
void vp_entry_C07_histories(int a) { BY_ORDER(a % 5 + 1, clock<K>(a / 36, a % 36, 2)) }
VP_RUN(vp_entry_C07_long, 0..215)
VP_MORE(vp_entry_C07_long, 216..647)
void vp_entry_C07_long(int a) { BY_ORDER(a % 5 + 1, clock<K>(a / 216 == 0 ? 2 : a / 216 == 1 ? 0 : 1, a % 216, 3)) }

// many pieces: one advance (from the start, from anywhere, and twice) may cross any number of them
VP_RUN(vp_entry_C07_many, 4, 6, 9, @)
void vp_entry_C07_many(int n) { BY_ORDER(n % 5 + 1, clock<K>(n, 1, 1)) }
VP_RUN(vp_entry_C07_many_twice, 4, 6)
VP_MORE(vp_entry_C07_many_twice, 5, 7..10)
void vp_entry_C07_many_twice(int n) { BY_ORDER(n % 5 + 1, clock<K>(n, 7, 2)) }
VP_RUN(vp_entry_C07_many_jump, 4, 6)
VP_MORE(vp_entry_C07_many_jump, 5, 7..10)
void vp_entry_C07_many_jump(int n) { BY_ORDER(n % 5 + 1, clock<K>(n, 6, 2)) }

VP_RUN(vp_entry_C18_container, 0..89)
void vp_entry_C18_container(int a) { BY_ORDER(a % 5 + 1, noInvalidAccess<K>(a / 5 % 3, a / 15)) }

VP_RUN(vp_entry_C29_container, 0..47)
VP_MORE(vp_entry_C29_container, 48..119)
void vp_entry_C29_container(int a) { BY_ORDER((a + a / 5) % 5 + 1, copies<K>(1 + a / 24 % 3, a % 8, a / 8 % 3)) }
VP_RUN(vp_entry_C29_containerMany, 5, @)
void vp_entry_C29_containerMany(int n) { BY_ORDER(n % 5 + 1, { copiesMany<K>(n, 0); copiesMany<K>(n, 1); }) }
VP_RUN(vp_entry_C29_piece, 0..39)
void vp_entry_C29_piece(int a) { BY_ORDER(a % 5 + 1, pieceCopies<K>(a / 5)) }

VP_RUN(vp_entry_C27_container, 0..14)
void vp_entry_C27_container(int a) { BY_ORDER(a % 5 + 1, repeated<K>(a / 5)) }
VP_RUN(vp_entry_C27_piece, 0..4)
void vp_entry_C27_piece(int a) { BY_ORDER(a % 5 + 1, repeatedPiece<K>()) }

// how * 3 + pieces - 1; then one NaN in every coefficient of 1..3 pieces
VP_RUN(vp_entry_C34_clock, 0..14)
void vp_entry_C34_clock(int a) { BY_ORDER(a % 5 + 1, selfCheck<K>(a % 3 + 1, a / 3, -1)) }
VP_RUN(vp_entry_C34_nan1, 2..6)
void vp_entry_C34_nan1(int a) { BY_ORDER(a - 1, { for (int i = 0; i <= K; ++i) selfCheck<K>(1, 1, i); }) }
VP_RUN(vp_entry_C34_nan3, 0..17)
void vp_entry_C34_nan3(int a) { BY_ORDER(5, selfCheck<K>(3, 0, a)) }
VP_RUN(vp_entry_C34_nan2, 0..11)
VP_MORE(vp_entry_C34_nan2, 12..47)
void vp_entry_C34_nan2(int a) { BY_ORDER(a / 12 == 3 ? 5 : 5 - a / 12, selfCheck<K>(2, a / 12 + 1, a % 12 % (2 * K + 2))) }
VP_RUN(vp_entry_C34_many, 4, 6, @)
void vp_entry_C34_many(int n) {
  for (int i = 0; i + 2 < n; ++i) vp_assume(vp_real("T", i) > 0);
  BY_ORDER(n % 5 + 1, selfCheck<K>(n, 1, -1))
}
VP_RUN(vp_entry_C34_empty, 1..5)
void vp_entry_C34_empty(int n) {
  BY_ORDER(n, {
    PolynomialSplineContainer<K> c;
    vp_check(c.checkContainer(), "a new container is accepted");
    c.resetTime();
    vp_check(c.checkContainer(), "a new container is accepted");
  })
}
VP_RUN(vp_entry_C34_fitted, 0..2, 4, 5)
VP_MORE(vp_entry_C34_fitted, 3)
void vp_entry_C34_fitted(int a) { BY_ORDER(a % 3 == 0 ? 3 : 5, selfCheckFitted<K>(a % 3, a / 3 + 2)) }
