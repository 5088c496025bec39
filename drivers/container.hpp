// Shared vocabulary of the container contexts.
#pragma once
#include <limits>
#include "vp.hpp"
#include <cmath>
#include <iostream>
#include "curves/PolynomialSplineContainer.hpp"
#include "curves/src/polynomial_splines_traits.cpp"
using curves::PolynomialSpline;
using curves::PolynomialSplineContainer;
using curves::SplineOptions;

template <int N>
typename PolynomialSpline<N>::SplineCoefficients coeffs(int piece) {
  typename PolynomialSpline<N>::SplineCoefficients c;
  for (int i = 0; i <= N; ++i) c[i] = vp_real("c", piece, i);
  return c;
}

template <int N>
PolynomialSpline<N> piece(int i) {
  return PolynomialSpline<N>(coeffs<N>(i), vp_real("T", i));
}

template <int N>
void fill(PolynomialSplineContainer<N>& c, int n) {
  for (int i = 0; i < n; ++i) c.addSpline(piece<N>(i));
}

inline void positive(int n) {
  for (int i = 0; i < n; ++i) vp_assume(vp_real("T", i) > 0);
}
inline void nonNegative(int n) {
  for (int i = 0; i < n; ++i) vp_assume(vp_real("T", i) >= 0);
}

#define BY_ORDER(N, CALL)                                                                                     \
  switch (N) {                                                                                                \
    case 1: { constexpr int K = 1; CALL; break; }                                                             \
    case 2: { constexpr int K = 2; CALL; break; }                                                             \
    case 3: { constexpr int K = 3; CALL; break; }                                                             \
    case 4: { constexpr int K = 4; CALL; break; }                                                             \
    case 5: { constexpr int K = 5; CALL; break; }                                                             \
  }
