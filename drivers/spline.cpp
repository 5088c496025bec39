// Polynomial pieces: C01, C02, C03.
#include "vp.hpp"
#include "curves/PolynomialSpline.hpp"
#include "curves/src/polynomial_splines_traits.cpp"
using curves::PolynomialSpline;
using curves::SplineOptions;

namespace {

template <int N>
typename PolynomialSpline<N>::SplineCoefficients coeffs(const char* name) {
  typename PolynomialSpline<N>::SplineCoefficients c;
  for (int i = 0; i <= N; ++i) c[i] = vp_real(name, i);
  return c;
}

// value of the polynomial with coefficients [a_n ... a_0] and of its derivatives
template <class C>
double poly(const C& c, int n, double t, int d) {
  double s = 0;
  for (int i = 0; i <= n; ++i) {
    int e = n - i;
    double f = 1;
    for (int k = 0; k < d; ++k) { f *= e; --e; }
    if (e < 0) continue;
    for (int k = 0; k < e; ++k) f *= t;
    s += c[i] * f;
  }
  return s;
}

template <int N>
void derivatives() {
  auto c = coeffs<N>("a");
  double T = vp_real("T"), t = vp_real("t");
  vp_assume(T > 0 && t > 0 && t < T);
  PolynomialSpline<N> s(c, T);
  double p = s.getPositionAtTime(t), v = s.getVelocityAtTime(t), a = s.getAccelerationAtTime(t);
  vp_eq(v, vp_diff(p, t), "velocity is the first derivative of the position");
  vp_eq(a, vp_diff(v, t), "acceleration is the second derivative of the position");
  vp_eq(p, poly(c, N, t, 0), "position is the polynomial with the piece's coefficients");
}

template <int N>
void closed() {
  auto c = coeffs<N>("a");
  double T = vp_real("T"), t = vp_real("t");
  vp_assume(T >= 0 && t >= 0 && t <= T);
  PolynomialSpline<N> s(c, T);
  vp_eq(s.getPositionAtTime(t), poly(c, N, t, 0), "position on the closed range");
  vp_eq(s.getVelocityAtTime(t), poly(c, N, t, 1), "velocity on the closed range");
  vp_eq(s.getAccelerationAtTime(t), poly(c, N, t, 2), "acceleration on the closed range");
}

template <int N>
double unit(int i, double t, int d) {
  double e[N + 1];
  for (int k = 0; k <= N; ++k) e[k] = k == i ? 1.0 : 0.0;
  return poly(e, N, t, d);
}

template <int N, class V>
void row(const V& v, double t, int d, const char* label) {
  for (int i = 0; i <= N; ++i) vp_eq(v(0, i), unit<N>(i, t, d), label);
}

template <int N, class V>
void rowAdded(const V& v, double t, int d, const char* label) {
  for (int i = 0; i <= N; ++i) vp_eq(v(0, i), vp_real("o", i) + unit<N>(i, t, d), label);
}

template <int N, class V>
void junk(V& v) {
  for (int i = 0; i <= N; ++i) v(0, i) = vp_real("o", i);
}

template <int N>
void timevectors() {
  using S = PolynomialSpline<N>;
  using V = typename S::EigenTimeVectorType;
  using RefV = Eigen::Ref<V>;
  double t = vp_real("t");
  V v;
  Eigen::Matrix<double, 3, N + 1> m;
  { junk<N>(v); S::getTimeVector(v, t); row<N>(v, t, 0, "getTimeVector"); }
  { junk<N>(v); S::getTimeVector(RefV(v), t); row<N>(v, t, 0, "getTimeVector(Ref)"); }
  { junk<N>(v); S::addTimeVector(v, t); rowAdded<N>(v, t, 0, "addTimeVector"); }
  { junk<N>(v); S::getDTimeVector(v, t); row<N>(v, t, 1, "getDTimeVector"); }
  { junk<N>(v); S::getDiffTimeVector(v, t); row<N>(v, t, 1, "getDiffTimeVector"); }
  { junk<N>(v); S::addDiffTimeVector(v, t); rowAdded<N>(v, t, 1, "addDiffTimeVector"); }
  { junk<N>(v); S::getDDTimeVector(v, t); row<N>(v, t, 2, "getDDTimeVector"); }
  { junk<N>(v); S::getDDiffTimeVector(v, t); row<N>(v, t, 2, "getDDiffTimeVector"); }
  { junk<N>(v); S::addDDiffTimeVector(v, t); rowAdded<N>(v, t, 2, "addDDiffTimeVector"); }
  { junk<N>(v); S::getTimeVectorAtZero(v); row<N>(v, 0.0, 0, "getTimeVectorAtZero"); }
  { junk<N>(v); S::getTimeVectorAtZero(RefV(v)); row<N>(v, 0.0, 0, "getTimeVectorAtZero(Ref)"); }
  { junk<N>(v); S::addTimeVectorAtZero(v); rowAdded<N>(v, 0.0, 0, "addTimeVectorAtZero"); }
  { junk<N>(v); S::getDTimeVectorAtZero(v); row<N>(v, 0.0, 1, "getDTimeVectorAtZero"); }
  { junk<N>(v); S::getDiffTimeVectorAtZero(v); row<N>(v, 0.0, 1, "getDiffTimeVectorAtZero"); }
  { junk<N>(v); S::addDiffTimeVectorAtZero(v); rowAdded<N>(v, 0.0, 1, "addDiffTimeVectorAtZero"); }
  { junk<N>(v); S::getDDTimeVectorAtZero(v); row<N>(v, 0.0, 2, "getDDTimeVectorAtZero"); }
  { junk<N>(v); S::getDDiffTimeVectorAtZero(v); row<N>(v, 0.0, 2, "getDDiffTimeVectorAtZero"); }
  { junk<N>(v); S::addDDiffTimeVectorAtZero(v); rowAdded<N>(v, 0.0, 2, "addDDiffTimeVectorAtZero"); }
  // into a row of a larger matrix
  m.setZero();
  S::getTimeVector(m.row(0), t);
  S::addDiffTimeVector(m.row(1), t);
  S::getDDiffTimeVector(m.row(2), t);
  for (int i = 0; i <= N; ++i) {
    vp_eq(m(0, i), unit<N>(i, t, 0), "getTimeVector into a matrix row");
    vp_eq(m(1, i), unit<N>(i, t, 1), "addDiffTimeVector into a matrix row");
    vp_eq(m(2, i), unit<N>(i, t, 2), "getDDiffTimeVector into a matrix row");
  }
}

template <int N>
void boundary(int how) {
  double T = vp_real("T"), p0 = vp_real("p0"), p1 = vp_real("p1"), v0 = vp_real("v0"), v1 = vp_real("v1"),
         a0 = vp_real("a0"), a1 = vp_real("a1");
  vp_assume(T > 0);
  PolynomialSpline<N> s;
  if (how == 0) {                       // constructed from an lvalue
    const SplineOptions o(T, p0, p1, v0, v1, a0, a1);
    PolynomialSpline<N> x(o);
    s = x;
  } else if (how == 1) {                // constructed from an rvalue
    PolynomialSpline<N> x(SplineOptions(T, p0, p1, v0, v1, a0, a1));
    s = x;
  } else {                              // recomputed
    double T2 = vp_real("T2");
    vp_assume(T2 > 0);
    PolynomialSpline<N> x(SplineOptions(T2, vp_real("q0"), vp_real("q1"), vp_real("w0"), vp_real("w1"), vp_real("b0"), vp_real("b1")));
    const SplineOptions o(T, p0, p1, v0, v1, a0, a1);
    if (how == 2) vp_check(x.computeCoefficients(o), "computing coefficients succeeds");
    else vp_check(x.computeCoefficients(SplineOptions(T, p0, p1, v0, v1, a0, a1)), "computing coefficients succeeds");
    s = x;
  }
  vp_eq(s.getSplineDuration(), T, "duration");
  vp_eq(s.getPositionAtTime(0.0), p0, "start position");
  vp_eq(s.getPositionAtTime(T), p1, "end position");
  if (N >= 2) vp_eq(s.getVelocityAtTime(0.0), v0, "start velocity");
  if (N >= 3) vp_eq(s.getVelocityAtTime(T), v1, "end velocity");
  if (N >= 4) vp_eq(s.getAccelerationAtTime(0.0), a0, "start acceleration");
  if (N >= 5) vp_eq(s.getAccelerationAtTime(T), a1, "end acceleration");
}

template <int N>
void clamping(int how) {
  auto c = coeffs<N>("a");
  double T = vp_real("T"), t = vp_real("t");
  PolynomialSpline<N> s;
  if (how % 2 == 0) {
    PolynomialSpline<N> x(c, T);
    s = x;
  } else {
    PolynomialSpline<N> x(coeffs<N>("b"), vp_real("T2"));
    x.setCoefficientsAndDuration(c, T);
    s = x;
  }
  for (int i = 0; i <= N; ++i) {
    vp_eq(s.getCoefficients()[i], c[i], "coefficients reported");
    vp_eq((*s.getCoefficientsPtr())[i], c[i], "coefficients reported through the pointer");
  }
  vp_eq(s.getSplineDuration(), T, "duration reported");
  if (how >= 2) return;
  vp_assume(T >= 0);
  const double u = t < 0 ? 0.0 : t > T ? T : t;
  vp_eq(s.getPositionAtTime(t), poly(c, N, u, 0), "position held outside the range");
  vp_eq(s.getVelocityAtTime(t), poly(c, N, u, 1), "velocity held outside the range");
  vp_eq(s.getAccelerationAtTime(t), poly(c, N, u, 2), "acceleration held outside the range");
}

// coefficients changed through the pointer are the ones evaluated
template <int N>
void through() {
  auto c = coeffs<N>("a");
  double T = vp_real("T"), t = vp_real("t");
  vp_assume(T >= 0 && t >= 0 && t <= T);
  PolynomialSpline<N> s(coeffs<N>("b"), T);
  *s.getCoefficientsPtr() = c;
  vp_eq(s.getPositionAtTime(t), poly(c, N, t, 0), "position after writing coefficients through the pointer");
  vp_eq(s.getVelocityAtTime(t), poly(c, N, t, 1), "velocity after writing coefficients through the pointer");
  vp_eq(s.getAccelerationAtTime(t), poly(c, N, t, 2), "acceleration after writing coefficients through the pointer");
}

}  // namespace

#define BY_ORDER(N, CALL)                                                                                     \
  switch (N) {                                                                                                \
    case 1: { constexpr int K = 1; CALL; break; }                                                             \
    case 2: { constexpr int K = 2; CALL; break; }                                                             \
    case 3: { constexpr int K = 3; CALL; break; }                                                             \
    case 4: { constexpr int K = 4; CALL; break; }                                                             \
    case 5: { constexpr int K = 5; CALL; break; }                                                             \
  }

VP_RUN(vp_entry_C01_derivatives, 1, 2, 3, 4, 5)
void vp_entry_C01_derivatives(int n) { BY_ORDER(n, derivatives<K>()) }

VP_RUN(vp_entry_C01_closed, 1, 2, 3, 4, 5)
void vp_entry_C01_closed(int n) { BY_ORDER(n, closed<K>()) }

VP_RUN(vp_entry_C01_timevectors, 1, 2, 3, 4, 5)
void vp_entry_C01_timevectors(int n) { BY_ORDER(n, timevectors<K>()) }

VP_RUN(vp_entry_C02_lvalue, 1, 2, 3, 4, 5)
void vp_entry_C02_lvalue(int n) { BY_ORDER(n, boundary<K>(0)) }
VP_RUN(vp_entry_C02_rvalue, 1, 2, 3, 4, 5)
void vp_entry_C02_rvalue(int n) { BY_ORDER(n, boundary<K>(1)) }
VP_RUN(vp_entry_C02_again, 1, 2, 3, 4, 5)
void vp_entry_C02_again(int n) { BY_ORDER(n, boundary<K>(2)) }
VP_RUN(vp_entry_C02_againRvalue, 1, 2, 3, 4, 5)
void vp_entry_C02_againRvalue(int n) { BY_ORDER(n, boundary<K>(3)) }

VP_RUN(vp_entry_C03_clamping, 1, 2, 3, 4, 5)
void vp_entry_C03_clamping(int n) { BY_ORDER(n, clamping<K>(0)) }
VP_RUN(vp_entry_C03_set, 1, 2, 3, 4, 5)
void vp_entry_C03_set(int n) { BY_ORDER(n, clamping<K>(1)) }
// whatever is set is reported, also a duration below zero
VP_RUN(vp_entry_C03_reported, 2..11)
void vp_entry_C03_reported(int a) { BY_ORDER(a / 2, clamping<K>(2 + a % 2)) }
VP_RUN(vp_entry_C03_through, 1, 2, 3, 4, 5)
void vp_entry_C03_through(int n) { BY_ORDER(n, through<K>()) }
