// P01: kernel interpolation against a double-precision tensor-product reference.
#include "arr.hh"
#include "Interpolation.hh"
#include "interp_ref.hh"

namespace {
  enum Kind { grid_point, dyadic, arbitrary };

  // a position with `lo` <= position < `hi` (integers); dyadic positions are exact in single precision
  float draw_pos(pbt::Case& c, int lo, int hi) {
    int cell = (int)c.integer(lo, hi - 1);
    switch(c.weighted({2, 3, 3})) {
      case 0: return (float)cell;
      case 1: return (float)cell + (float)c.integer(0, 31) / 32.0f;
      default: { float f = (float)c.real(0.0, 1.0); float p = (float)cell + f; return p >= (float)(cell + 1) - 1e-4f ? (float)cell + 0.9990234375f : p; }
    }
  }

  template <std::size_t V> struct Setup {
    pbt::Case& c; SInd<3> shape; Model<3, V> m; NDVecArray<float, 3, V> arr; double maxabs = 0;
    Setup(pbt::Case& c, std::size_t sup) : c(c), shape(draw_shape(c, sup)), m(shape), arr(vec<3>(shape), 0.0f) { }
    static SInd<3> draw_shape(pbt::Case& c, std::size_t sup) { SInd<3> s; for(int i = 0; i < 3; i++) { s[i] = 2 * sup + (std::size_t)c.integer(0, i == 2 ? 30 : 4); } if(c.chance(1, 300)) { s[2] = 2 * sup + c.integer<std::size_t>(100, 2000); } return s; }
    void load() { arr = to_array<3, V>(m); for(float x : m.data) { maxabs = std::max(maxabs, (double)std::fabs(x)); } }
    void rough() {
      std::uint64_t salt = c.draw(1 << 20); float scale = c.pick<float>({1.0f, 1.0f, 1e-6f, 1e6f}); int kind = (int)c.weighted({4, 2, 1});
      for(std::size_t i = 0; i < m.data.size(); i++) { double u = (double)(pbt::mix(salt, i) % 200001) / 100000.0 - 1.0; m.data[i] = scale * (float)u; }
      if(kind == 1) { std::size_t n = c.integer<std::size_t>(0, m.data.size() - 1); float keep = scale; std::fill(m.data.begin(), m.data.end(), 0.0f); m.data[n] = keep; NOTE(c, "single non-zero sample at flat position " << n); }
      if(kind == 2) { std::fill(m.data.begin(), m.data.end(), scale); NOTE(c, "constant field " << scale); }
      load();
    }
  };
}

// direct comparison with the kernel sum
template <class K, std::size_t V> void compare(pbt::Case& c) {
  constexpr int sup = (int)K::support; Setup<V> s(c, sup); s.rough();
  NOTE(c, (sup == 1 ? "linear" : "cubic") << " kernel, array " << str<3>(s.shape) << " with " << V << " components");
  int calls = (int)c.integer(1, 3); bool batch = false, offgrid = false, lastcell = false;
  NDVecArray<float, 1, V> out(Vector<std::size_t, 1>(c.integer<std::size_t>(0, 8)));
  for(int k = 0; k < calls; k++) {
    int lo = sup - 1; Vector<float, 2> outer; float o[2];
    for(int i = 0; i < 2; i++) { o[i] = draw_pos(c, lo, (int)s.shape[i] - sup); outer[i] = o[i]; if(o[i] >= (float)((int)s.shape[i] - sup - 1)) { lastcell = true; } }
    int ihi = (int)s.shape[2] - sup; float start = draw_pos(c, lo, ihi); float delta = 0.0f; std::size_t n = 1;
    switch(c.weighted({2, 3, 3, 2})) {
      case 0: delta = 1.0f; break;
      case 1: delta = (float)c.integer(1, 64) / 32.0f; break;
      case 2: delta = (float)c.real(0.01, 3.0); break;
      default: delta = c.pick<float>({0.0078125f, 0.5f, 0.25f, 2.0f, 0.015625f}); break;
    }
    // stay below the last valid position, with a margin for the rounding of inexact positions
    std::size_t nmax = 1; std::size_t cap = s.shape[2] > 100 ? 4000 : 200; while(nmax < cap && (double)start + (double)nmax * delta < ihi - 1e-3) { nmax++; }
    n = c.integer<std::size_t>(1, nmax); if(c.chance(1, 3)) { n = nmax; }
    if(c.chance(1, 20)) { n = 0; }
    std::vector<float> before(n * V, 0.0f); bool accumulate = c.boolean();
    out.resize(Vector<std::size_t, 1>(n)); out.clear();
    double extra = 0.0;
    if(accumulate) { std::uint64_t salt = c.draw(1 << 16); for(std::size_t i = 0; i < n; i++) { for(std::size_t v = 0; v < V; v++) { float x = (float)s.maxabs * ((float)(pbt::mix(salt, i * 7 + v) % 2001) / 1000.0f - 1.0f); before[i * V + v] = x; out[i][v] = x; } } extra = s.maxabs; }
    NOTE(c, "positions (" << o[0] << ", " << o[1] << "), " << start << " + k * " << delta << ", k < " << n << (accumulate ? ", added to existing values" : ""));
    Interpolation::interpolate<K>(s.arr, out, outer, start, delta, n);
    CHECK(c, out.GetNumberElements() == n, "number of results " << out.GetNumberElements() << " expected " << n);
    for(std::size_t i = 0; i < n; i++) {
      double p[3] = {o[0], o[1], (double)start + (double)i * (double)delta}; double scale, err = 1.2e-7 * (p[2] * 4 + 1);
      for(std::size_t v = 0; v < V; v++) {
        double want = iref::value<K>(p, [&](const long* ind) { return (double)s.m.at({(std::size_t)ind[0], (std::size_t)ind[1], (std::size_t)ind[2]}, v); }, &scale) + before[i * V + v];
        double tol = 2e-6 * (s.maxabs * 4 + extra) + err * 16 * s.maxabs;
        double got = out[i][v];
        if(!(is_finite_bits((float)got) && std::fabs(got - want) <= tol)) { FAILS(c, "sample " << i << "." << v << " at (" << p[0] << ", " << p[1] << ", " << p[2] << ") is " << got << " expected " << want); }
      }
      offgrid = offgrid || p[2] != std::floor(p[2]);
    }
    batch = batch || n > 1; offgrid = offgrid || o[0] != std::floor(o[0]) || o[1] != std::floor(o[1]);
    check_array<3, V>(c, s.arr, s.m, "input array after interpolation");
  }
  c.nontrivial(offgrid && batch); c.label_if(offgrid, "between grid points"); c.label_if(lastcell, "last valid cell"); c.label_if(batch, "several positions"); c.label_if(s.shape[2] > 100, "long lines");
}
PROPERTY(linear_v1, 1) { compare<Interpolation::Kernel::Linear, 1>(c); }
PROPERTY(linear_v2, 3) { compare<Interpolation::Kernel::Linear, 2>(c); }
PROPERTY(linear_v3, 1) { compare<Interpolation::Kernel::Linear, 3>(c); }
PROPERTY(cubic_v1, 1) { compare<Interpolation::Kernel::Keys, 1>(c); }
PROPERTY(cubic_v2, 3) { compare<Interpolation::Kernel::Keys, 2>(c); }
PROPERTY(cubic_v3, 1) { compare<Interpolation::Kernel::Keys, 3>(c); }

// reproduction of polynomials (independent of the kernel reference): degree 1 (2) per coordinate for the linear (cubic) kernel
template <class K> void polynomials(pbt::Case& c) {
  constexpr int sup = (int)K::support; constexpr int deg = sup; Setup<2> s(c, sup);
  double co[2][3][3]; for(auto& a : co) { for(auto& b : a) { for(double& x : b) { x = (double)c.integer(-8, 8) / 8.0; } } }
  double cen[3]; for(int i = 0; i < 3; i++) { cen[i] = (double)(s.shape[i] / 2); }
  auto poly = [&](int v, const double* p) { double r = 1; for(int i = 0; i < 3; i++) { double f = 0, x = (p[i] - cen[i]) / (double)s.shape[i], q = 1; for(int d = 0; d <= deg; d++) { f += co[v][i][d] * q; q *= x; } r *= f; } return r; };
  for_box<3>(zero_ind<3>(), s.shape, [&](const SInd<3>& i) { double p[3] = {(double)i[0], (double)i[1], (double)i[2]}; for(int v = 0; v < 2; v++) { s.m.at(i, v) = (float)poly(v, p); } });
  s.load();
  Vector<float, 2> outer; for(int i = 0; i < 2; i++) { outer[i] = draw_pos(c, sup - 1, (int)s.shape[i] - sup); }
  int ihi = (int)s.shape[2] - sup; float start = draw_pos(c, sup - 1, ihi), delta = (float)c.real(0.02, 2.0); std::size_t n = 1; while(n < 100 && start + (double)n * delta < ihi - 1e-3) { n++; }
  NOTE(c, "polynomial field on " << str<3>(s.shape) << ", positions (" << outer[0] << ", " << outer[1] << "), " << start << " + k * " << delta << ", k < " << n);
  NDVecArray<float, 1, 2> out(Vector<std::size_t, 1>(n), 0.0f); Interpolation::interpolate<K>(s.arr, out, outer, start, delta, n);
  for(std::size_t i = 0; i < n; i++) { double p[3] = {outer[0], outer[1], (double)start + (double)i * delta}; for(int v = 0; v < 2; v++) { double want = poly(v, p), got = out[i][v]; if(!(std::fabs(got - want) <= 4e-6 * (s.maxabs + 1e-3) * (p[2] + 2))) { FAILS(c, "sample " << i << "." << v << " is " << got << " but the polynomial is " << want); } } }
  c.nontrivial(n > 1 && s.maxabs > 0.01);
}
PROPERTY(linear_polynomial, 2) { polynomials<Interpolation::Kernel::Linear>(c); }
PROPERTY(cubic_polynomial, 2) { polynomials<Interpolation::Kernel::Keys>(c); }

// the value at a position does not depend on the batch it is evaluated in
template <class K> void batches(pbt::Case& c) {
  constexpr int sup = (int)K::support; Setup<2> s(c, sup); s.rough();
  Vector<float, 2> outer; for(int i = 0; i < 2; i++) { outer[i] = draw_pos(c, sup - 1, (int)s.shape[i] - sup); }
  int ihi = (int)s.shape[2] - sup; float start = (float)(sup - 1) + (float)c.integer(0, 31) / 32.0f, delta = (float)c.integer(1, 48) / 32.0f; std::size_t n = 1; while(n < 200 && start + (float)n * delta < (float)ihi) { n++; }
  NDVecArray<float, 1, 2> all(Vector<std::size_t, 1>(n), 0.0f); Interpolation::interpolate<K>(s.arr, all, outer, start, delta, n);
  std::size_t a = c.integer<std::size_t>(0, n - 1), b = c.integer<std::size_t>(a + 1, n), step = c.integer<std::size_t>(1, 4); std::size_t cnt = (b - a + step - 1) / step;
  NOTE(c, "array " << str<3>(s.shape) << " outer (" << outer[0] << ", " << outer[1] << ") " << start << " + k * " << delta << ", k < " << n << "; again from " << a << " to " << b << " in steps of " << step);
  NDVecArray<float, 1, 2> part(Vector<std::size_t, 1>(cnt), 0.0f); Interpolation::interpolate<K>(s.arr, part, outer, start + (float)a * delta, delta * (float)step, cnt);
  for(std::size_t i = 0; i < cnt; i++) { for(int v = 0; v < 2; v++) { float x = all[a + i * step][v], y = part[i][v]; if(!(std::fabs(x - y) <= 4e-6 * s.maxabs)) { FAILS(c, "position " << start + (float)(a + i * step) * delta << " gives " << x << " in the batch of " << n << " and " << y << " in the batch of " << cnt); } } }
  c.nontrivial(n > 2 && cnt < n);
}
PROPERTY(linear_batches, 1) { batches<Interpolation::Kernel::Linear>(c); }
PROPERTY(cubic_batches, 1) { batches<Interpolation::Kernel::Keys>(c); }
