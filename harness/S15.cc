// S15: fixed-size vectors and views of vectors behave component by component.
#include "arr.hh"

template <class T> T draw_num(pbt::Case& c, bool nonzero = false) {
  T v;
  if constexpr(std::is_floating_point_v<T>) { v = (T)c.integer<int>(-4000, 4000) / (T)c.pick({1, 2, 8, 3}); }
  else if constexpr(std::is_signed_v<T>) { v = (T)c.integer<int>(-1000, 1000); }
  else { v = (T)c.integer<int>(0, 1000); }
  if(nonzero && v == (T)0) { v = (T)3; }
  return v;
}
template <class T> bool eq(T a, T b) {
  if constexpr(std::is_floating_point_v<T>) { return std::abs(a - b) <= (T)4e-7 * std::max(std::abs(a), std::abs(b)); } else { return a == b; }
}
template <class T, std::size_t D, class F> void all(pbt::Case& c, const Vector<T, D>& got, const char* op, F&& want) {
  for(std::size_t i = 0; i < D; i++) { T w = (T)want(i); CHECK(c, eq<T>(got[i], w), op << " component " << i << " is " << got[i] << " expected " << w); }
}

template <class T, std::size_t D> void arithmetic_ops(pbt::Case& c) {
  std::array<T, D> xa, ya, za; T s = draw_num<T>(c), q = draw_num<T>(c, true);
  for(std::size_t i = 0; i < D; i++) { xa[i] = draw_num<T>(c); ya[i] = draw_num<T>(c); za[i] = draw_num<T>(c, true); }
  std::array<T, D> xt = xa, yt = ya, zt = za;
  Vector<T, D> x(std::move(xt)), y(std::move(yt)), z(std::move(zt));
  NOTE(c, "x " << x << " y " << y << " z " << z << " s " << s << " q " << q);
  all<T, D>(c, x + y, "+", [&](auto i) { return xa[i] + ya[i]; });
  all<T, D>(c, x - y, "-", [&](auto i) { return xa[i] - ya[i]; });
  all<T, D>(c, x * y, "*", [&](auto i) { return xa[i] * ya[i]; });
  all<T, D>(c, x / z, "/", [&](auto i) { return xa[i] / za[i]; });
  all<T, D>(c, x + s, "+s", [&](auto i) { return xa[i] + s; });
  all<T, D>(c, x - s, "-s", [&](auto i) { return xa[i] - s; });
  all<T, D>(c, x * s, "*s", [&](auto i) { return xa[i] * s; });
  all<T, D>(c, x / q, "/s", [&](auto i) { return xa[i] / q; });
  { Vector<T, D> w(x); w += y; all<T, D>(c, w, "+=", [&](auto i) { return xa[i] + ya[i]; }); w -= y; all<T, D>(c, w, "-=", [&](auto i) { return (xa[i] + ya[i]) - ya[i]; }); }
  { Vector<T, D> w(x); w *= y; all<T, D>(c, w, "*=", [&](auto i) { return xa[i] * ya[i]; }); w = x; w /= z; all<T, D>(c, w, "/=", [&](auto i) { return xa[i] / za[i]; }); }
  { Vector<T, D> w(x); w += s; all<T, D>(c, w, "+=s", [&](auto i) { return xa[i] + s; }); w = x; w -= s; all<T, D>(c, w, "-=s", [&](auto i) { return xa[i] - s; }); }
  { Vector<T, D> w(x); w *= s; all<T, D>(c, w, "*=s", [&](auto i) { return xa[i] * s; }); w = x; w /= q; all<T, D>(c, w, "/=s", [&](auto i) { return xa[i] / q; }); }
  all<T, D>(c, x, "operand x", [&](auto i) { return xa[i]; }); all<T, D>(c, y, "operand y", [&](auto i) { return ya[i]; });
  { Vector<T, D> w(s); all<T, D>(c, w, "constant", [&](auto) { return s; }); w = q; all<T, D>(c, w, "assigned constant", [&](auto) { return q; }); w = x; CHECK(c, w == x, "copy equal"); }
  // comparison: change one component at a time
  bool same = xa == ya, ge = true; for(std::size_t i = 0; i < D; i++) { ge = ge && xa[i] >= ya[i]; }
  CHECK(c, (x == y) == same && (x != y) == !same, "equality should be " << same);
  CHECK(c, (x >= y) == ge, ">= should be " << ge);
  for(std::size_t k = 0; k < D; k++) {
    Vector<T, D> w(x); w[k] = xa[k] + (T)1;
    CHECK(c, !(w == x) && (w != x), "vectors differing in component " << k << " compare equal");
    CHECK(c, w >= x && !(x >= w), ">= with component " << k << " larger");
    CHECK(c, eq<T>(w.at(k), xa[k] + (T)1), "at()");
  }
  { bool threw = false; Vector<T, D> w(x); try { w.at(D); } catch(const std::out_of_range&) { threw = true; } CHECK(c, threw, "at() out of range accepted"); }
  double in = 0, mag = 0; for(std::size_t i = 0; i < D; i++) { in += (double)xa[i] * (double)ya[i]; mag += std::abs((double)xa[i] * (double)ya[i]); }
  CHECK(c, std::abs((double)VectorUtils::inner(x, y) - in) <= 1e-5 * mag + 1e-9, "inner product " << VectorUtils::inner(x, y) << " expected " << in);
  // iteration order
  std::size_t k = 0; for(const T& v : x) { CHECK(c, v == xa[k], "iteration"); k++; } CHECK(c, k == D, "iteration length");
  // stream round trip of the conversion
  auto d = x.template as_type<double>(); for(std::size_t i = 0; i < D; i++) { CHECK(c, d[i] == (double)xa[i], "as_type"); }
  auto ii = x.template as_type<int>(); for(std::size_t i = 0; i < D; i++) { CHECK(c, ii[i] == (int)xa[i], "as_type<int>"); }
  c.nontrivial(D > 1 && !same);
}

template <class T1, class T2, std::size_t D> void int_minmax(pbt::Case& c) {
  Vector<T1, D> x; Vector<T2, D> y;
  // results are of the first type; keep them representable
  for(std::size_t i = 0; i < D; i++) { x[i] = draw_num<T1>(c); y[i] = draw_num<T2>(c); if(c.chance(1, 4)) { y[i] = (T2)std::abs((long)x[i]); } }
  NOTE(c, "x " << x << " y " << y);
  auto mx = VectorUtils::max(x, y);
  for(std::size_t i = 0; i < D; i++) { long long a = x[i], b = y[i], w = std::max(a, b); CHECK(c, (long long)mx[i] == w, "max " << mx[i] << " expected " << w); }
  if constexpr(std::is_signed_v<T1> || !std::is_signed_v<T2>) {
    auto mn = VectorUtils::min(x, y);
    for(std::size_t i = 0; i < D; i++) { long long a = x[i], b = y[i], w = std::min(a, b); CHECK(c, (long long)mn[i] == w, "min " << mn[i] << " expected " << w); }
    T2 s = draw_num<T2>(c); auto ms = VectorUtils::min(x, s);
    for(std::size_t i = 0; i < D; i++) { long long a = x[i], b = s, w = std::min(a, b); CHECK(c, (long long)ms[i] == w, "min with scalar " << ms[i] << " expected " << w); }
  }
  c.nontrivial();
}

template <class T, std::size_t D> void float_minmax(pbt::Case& c) {
  Vector<T, D> x, y, nn; T s = draw_num<T>(c);
  for(std::size_t i = 0; i < D; i++) { x[i] = draw_num<T>(c); y[i] = draw_num<T>(c); nn[i] = std::abs(draw_num<T>(c)); }
  NOTE(c, "x " << x << " y " << y << " nn " << nn << " s " << s);
  all<T, D>(c, VectorUtils::min(x, y), "min", [&](auto i) { return x[i] < y[i] ? x[i] : y[i]; });
  all<T, D>(c, VectorUtils::max(x, y), "max", [&](auto i) { return x[i] < y[i] ? y[i] : x[i]; });
  all<T, D>(c, VectorUtils::min(x, s), "min scalar", [&](auto i) { return x[i] < s ? x[i] : s; });
  all<T, D>(c, VectorUtils::max(x, s), "max scalar", [&](auto i) { return x[i] < s ? s : x[i]; });
  auto up = VectorUtils::ceil_nonneg(nn), dn = VectorUtils::floor_nonneg(nn);
  for(std::size_t i = 0; i < D; i++) {
    CHECK(c, (T)up[i] >= nn[i] && (T)up[i] - (T)1 < nn[i], "ceil of " << nn[i] << " is " << up[i]);
    CHECK(c, (T)dn[i] <= nn[i] && (T)dn[i] + (T)1 > nn[i], "floor of " << nn[i] << " is " << dn[i]);
  }
  c.nontrivial();
}

template <std::size_t D> void views(pbt::Case& c) {
  std::size_t n = D + c.integer<std::size_t>(0, 9), at = c.integer<std::size_t>(0, n - D), from = c.integer<std::size_t>(0, n - D);
  std::vector<float> buf(n), ref(n), src(n);
  for(std::size_t i = 0; i < n; i++) { ref[i] = buf[i] = draw_value(c, 1000 + i); src[i] = c.chance(1, 2) ? 0.0f : draw_value(c, 5000 + i); }
  NOTE(c, "buffer of " << n << ", view at " << at << ", source view at " << from);
  VectorView<float, D> v(buf.begin() + at), w(src.begin() + from);
  for(std::size_t i = 0; i < D; i++) { CHECK(c, same_value(v[i], ref[at + i]), "view component " << i); }
  Vector<float, D> cp; if constexpr(D > 1) { cp = Vector<float, D>(v); } else { cp[0] = v[0]; }
  bool nul = true; for(std::size_t i = 0; i < D; i++) { nul = nul && src[from + i] == 0.0f; CHECK(c, same_value(cp[i], ref[at + i]), "vector from view"); }
  CHECK(c, IsNullVector(w) == nul, "null test should be " << nul);
  switch(c.integer(0, 2)) {
    case 0: v = w; for(std::size_t i = 0; i < D; i++) { ref[at + i] = src[from + i]; } break;
    case 1: { Vector<float, D> x; for(std::size_t i = 0; i < D; i++) { x[i] = w[i]; } v = x; for(std::size_t i = 0; i < D; i++) { ref[at + i] = src[from + i]; } break; }
    default: { std::size_t k = c.integer<std::size_t>(0, D - 1); v[k] = 42.5f; ref[at + k] = 42.5f; break; }
  }
  for(std::size_t i = 0; i < n; i++) { CHECK(c, same_value(buf[i], ref[i]), "buffer element " << i << " after writing through the view is " << buf[i] << " expected " << ref[i]); }
  c.nontrivial(n > D);
}

// named accessors of the coordinate vectors
PROPERTY(named, 2) {
  float a = draw_num<float>(c), b = draw_num<float>(c), d = draw_num<float>(c), e = draw_num<float>(c);
  NOTE(c, a << " " << b << " " << d << " " << e);
  RZCoordVector rz(a, b); CHECK(c, rz.r() == a && rz.z() == b && RZCoordVector::r(rz) == a && RZCoordVector::z(rz) == b, "RZ");
  ZRCoordVector zr(a, b); CHECK(c, zr.z() == a && zr.r() == b && ZRCoordVector::z(zr) == a && ZRCoordVector::r(zr) == b, "ZR");
  RZTCoordVector rzt(a, b, d); CHECK(c, rzt.r() == a && rzt.z() == b && rzt.t() == d, "RZT");
  RZTCoordVector rzt2(rz, d); CHECK(c, rzt2.r() == a && rzt2.z() == b && rzt2.t() == d, "RZT from RZ and t");
  auto view = rzt.rz_view(); CHECK(c, view[0] == a && view[1] == b, "rz view");
  RZCoordVectorView rv(view); CHECK(c, RZCoordVectorView::r(rv) == a && RZCoordVectorView::z(rv) == b, "view accessors");
  RZCoordVectorView::r(rv) = e; CHECK(c, rzt.r() == e && rzt.z() == b && rzt.t() == d, "write through view");
  TZRCoordVector tzr(d, zr); CHECK(c, tzr.t() == d && tzr.z() == a && tzr.r() == b, "TZR");
  auto z2 = tzr.zr(); CHECK(c, z2.z() == a && z2.r() == b, "zr of TZR");
  XYZCoordVector xyz(a, b, d); CHECK(c, xyz.x() == a && xyz.y() == b && xyz.z() == d, "XYZ");
  XYZTCoordVector xyzt(a, b, d, e); CHECK(c, xyzt.x() == a && xyzt.y() == b && xyzt.z() == d && xyzt.t() == e, "XYZT");
  xyz.x() = e; xyz.y() = a; xyz.z() = b; CHECK(c, xyz[0] == e && xyz[1] == a && xyz[2] == b, "XYZ write");
  c.nontrivial(a != b && b != d && a != d);
}

PROPERTY(arith_f1, 1) { arithmetic_ops<float, 1>(c); }
PROPERTY(arith_f2, 2) { arithmetic_ops<float, 2>(c); }
PROPERTY(arith_f3, 2) { arithmetic_ops<float, 3>(c); }
PROPERTY(arith_d3, 1) { arithmetic_ops<double, 3>(c); }
PROPERTY(arith_i2, 1) { arithmetic_ops<int, 2>(c); }
PROPERTY(arith_i3, 1) { arithmetic_ops<int, 3>(c); }
PROPERTY(arith_u3, 1) { arithmetic_ops<std::size_t, 3>(c); }
PROPERTY(arith_i4, 1) { arithmetic_ops<int, 4>(c); }
PROPERTY(mm_uu, 1) { int_minmax<std::size_t, std::size_t, 3>(c); }
PROPERTY(mm_ii, 1) { int_minmax<int, int, 2>(c); }
PROPERTY(mm_iu, 2) { int_minmax<int, std::size_t, 3>(c); }
PROPERTY(mm_ui, 2) { int_minmax<std::size_t, int, 3>(c); }
PROPERTY(mm_f2, 1) { float_minmax<float, 2>(c); }
PROPERTY(mm_f3, 1) { float_minmax<float, 3>(c); }
PROPERTY(mm_d3, 1) { float_minmax<double, 3>(c); }
PROPERTY(view_1, 1) { views<1>(c); }
PROPERTY(view_2, 2) { views<2>(c); }
PROPERTY(view_3, 2) { views<3>(c); }
