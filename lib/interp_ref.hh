// Double-precision reference of the tensor-product kernel interpolation, written from the kernels' defining properties.
#pragma once
#include <cmath>
#include "Interpolation.hh"

namespace iref {
  // Keys (1981) cubic convolution kernel with a = -1/2 and the triangular kernel, as functions of the distance
  inline double keys(double s) { s = std::fabs(s); if(s < 1) { return 1.5 * s * s * s - 2.5 * s * s + 1; } if(s < 2) { return -0.5 * s * s * s + 2.5 * s * s - 4 * s + 2; } return 0; }
  inline double tri(double s) { s = std::fabs(s); return s < 1 ? 1 - s : 0; }
  template <class K> double kern(double s) { if constexpr(K::support == 1) { return tri(s); } else { return keys(s); } }

  // sum of samples times kernel; samples whose weight is exactly zero are not touched. `scale` receives the largest participating sample.
  template <class K, class F> double value(const double* p, F&& sample, double* scale) {
    long base[3]; for(int i = 0; i < 3; i++) { base[i] = (long)std::floor(p[i]) - (long)K::support + 1; }
    double sum = 0; *scale = 0;
    for(long a = 0; a < 2 * (long)K::support; a++) { double wa = kern<K>(p[0] - (double)(base[0] + a)); if(wa == 0) { continue; }
      for(long b = 0; b < 2 * (long)K::support; b++) { double wb = kern<K>(p[1] - (double)(base[1] + b)); if(wb == 0) { continue; }
        for(long d = 0; d < 2 * (long)K::support; d++) { double wd = kern<K>(p[2] - (double)(base[2] + d)); if(wd == 0) { continue; }
          long ind[3] = {base[0] + a, base[1] + b, base[2] + d}; double s = sample(ind); sum += wa * wb * wd * s; *scale = std::max(*scale, std::fabs(s)); } } }
    return sum;
  }
}
