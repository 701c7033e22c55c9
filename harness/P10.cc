// P10: incomplete gamma function, trapezoidal weights, integer helpers.
#include "arr.hh"
#include "MathUtils.hh"
#include "Quadrature.hh"

// closed form for integer order; all terms positive
static double gamma_ref(int a, double z) {
  double term = 1, sum = 1; for(int k = 1; k < a; k++) { term *= z / k; sum += term; }
  double f = 1; for(int k = 2; k < a; k++) { f *= k; }
  return std::exp(-z + std::log(sum) + std::log(f));
}

PROPERTY(incomplete_gamma, 4) {
  int n = (int)c.integer(1, 24);
  for(int k = 0; k < n; k++) {
    int a = (int)c.integer(1, 34); float z;
    switch(c.weighted({3, 3, 2, 2, 2, 1})) {
      case 0: z = (float)c.real(0.0, 2.0); break;
      case 1: z = (float)c.real(0.0, 60.0); break;
      case 2: z = (float)(a + c.real(-1.0, 1.0)); break;                       // where the two expansions meet
      case 3: z = (float)std::exp(c.real(-12.0, 14.0)); break;
      case 4: z = (float)c.integer(0, 120); break;
      default: z = std::nextafterf((float)c.pick<int>({a, 1, 2, a + 1}), c.boolean() ? 0.0f : 1000.0f); break;
    }
    if(z < 0) { z = 0; }
    bool preset = c.boolean(); float tol = preset ? 1e-6f : (float)std::pow(10.0, -c.real(2.0, 6.0));
    NOTE(c, "Gamma(" << a << ", " << z << ") to " << tol);
    double want = gamma_ref(a, z), got = preset ? MathUtils::incomplete_gamma((float)a, z) : MathUtils::incomplete_gamma((float)a, z, tol);
    // rounding of the single-precision exponents and gamma factors
    double lim = want * (4.0 * tol + 2.4e-7 * (2 + a * std::fabs(std::log(std::max((double)z, 1e-30))) * (z > 0) + z + 2 * std::lgamma(a + 1.0))) + 1e-37;
    CHECK(c, is_finite_bits((float)got) && std::fabs(got - want) <= lim, "incomplete_gamma(" << a << ", " << z << ", " << tol << ") = " << got << " but the value is " << want << " (allowed error " << lim << ")");
    if(z > 0 && want > 1e-30) { c.nontrivial(true); }
    c.label_if(z < a, "argument below order"); c.label_if(z > a, "argument above order"); c.label_if(z == 0, "zero argument"); c.label_if(want < 1e-30, "vanishing value");
  }
}

PROPERTY(incomplete_gamma_domain, 1) {
  float a = (float)c.integer(1, 30), z = (float)c.real(0.0, 50.0); int which = (int)c.integer(0, 2);
  if(which != 1) { a = -(float)c.real(1e-3, 20.0); } if(which != 0) { z = -(float)c.real(1e-3, 20.0); }
  NOTE(c, "Gamma(" << a << ", " << z << ")");
  CHECK(c, pbt::throws([&] { volatile float r = MathUtils::incomplete_gamma(a, z); (void)r; }), "incomplete_gamma(" << a << ", " << z << ") outside its domain was not refused");
  c.nontrivial(true);
}

template <class W> void trapezoid(pbt::Case& c) {
  std::size_t num = c.integer<std::size_t>(1, 60), pad = 3;
  std::vector<std::size_t> cut{0}; while(cut.back() < num) { std::size_t left = num - cut.back(); cut.push_back(cut.back() + (c.chance(1, 4) ? left : c.integer<std::size_t>(1, std::min<std::size_t>(left, 9)))); }
  std::string s; for(auto x : cut) { s += " " + std::to_string(x); } NOTE(c, num << " nodes, blocks at" << s);
  std::vector<W> all, whole(num, (W)7);
  Quadrature::TrapezoidalRule::fill_weights(0, num, num, whole.begin(), whole.end());
  for(std::size_t b = 0; b + 1 < cut.size(); b++) {
    std::size_t len = cut[b + 1] - cut[b]; std::vector<W> buf(len + 2 * pad, (W)-99);
    Quadrature::TrapezoidalRule::fill_weights(cut[b], cut[b + 1], num, buf.begin() + pad, buf.begin() + pad + len);
    for(std::size_t i = 0; i < pad; i++) { CHECK(c, buf[i] == (W)-99 && buf[pad + len + i] == (W)-99, "weights of block " << b << " written outside the passed range"); }
    all.insert(all.end(), buf.begin() + pad, buf.begin() + pad + len);
  }
  for(std::size_t i = 0; i < num; i++) { CHECK(c, all[i] > 0, "weight " << i << " is " << all[i]); CHECK(c, all[i] == whole[i], "weight " << i << " is " << all[i] << " when generated in blocks and " << whole[i] << " at once"); }
  if(num >= 2) {
    // integral of p + q x over [0, num - 1] with unit spacing; exact in double precision
    double p = (double)c.integer(-20, 20), q = (double)c.integer(-20, 20), sum = 0; for(std::size_t i = 0; i < num; i++) { sum += (double)all[i] * (p + q * (double)i); }
    double L = (double)(num - 1), want = p * L + q * L * L / 2;
    CHECK(c, sum == want, "trapezoidal sum of " << p << " + " << q << " x over " << num << " nodes is " << sum << ", the integral is " << want);
  }
  c.nontrivial(num >= 2); c.label_if(cut.size() > 2, "several blocks");
}
PROPERTY(trapezoid_float, 1) { trapezoid<float>(c); }
PROPERTY(trapezoid_double, 1) { trapezoid<double>(c); }

PROPERTY(integers, 1) {
  std::size_t y = 1 + (c.boolean() ? c.integer<std::size_t>(0, 40) : c.draw((std::uint64_t)1 << 40)), x;
  switch(c.weighted({2, 2, 1})) { case 0: x = c.integer<std::size_t>(0, 200); break; case 1: x = c.integer<std::size_t>(0, 2000) * y + c.pick<std::size_t>({0, 1, y - 1}); break; default: x = c.draw((std::uint64_t)1 << 62); break; }
  NOTE(c, "IntDivCeil(" << x << ", " << y << ")"); std::size_t q = MathUtils::IntDivCeil(x, y);
  unsigned __int128 Q = q, Y = y; CHECK(c, Q * Y >= x && (q == 0 || (Q - 1) * Y < x), "IntDivCeil(" << x << ", " << y << ") = " << q);
  // single-precision numbers in units of 1/8
  long m = c.integer<long>(-4000, 4000); int sh = c.boolean() ? 0 : (int)c.integer(0, 12); float v = (float)m / 8.0f * (float)(1 << sh); bool want = ((m << sh) % 8) == 0;
  CHECK(c, MathUtils::is_integer(v) == want, "is_integer(" << v << ") = " << !want);
  c.nontrivial(x > 0);
}
