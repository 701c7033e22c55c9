// P09: analytic dipole Green's functions against the closed form.
#include "green.hh"
#include "AnalyticGreensFunctionCalculator.hh"

struct Dipole {
  double n, tp; int N; double rmin;
  double theta(double t) const { if(t <= 0) { return 0; } double x = N * t / tp; if(x < 1e-3) { double term = 1; for(int k = 1; k <= N + 1; k++) { term *= x / k; } double s = 0, q = 1; for(int k = 0; k < 6; k++) { s += q; q *= x / (N + 2 + k); } return std::exp(-x) * term * s; } double term = 1, sum = 1; for(int k = 1; k <= N; k++) { term *= x / k; sum += term; } return 1 - std::exp(-x) * sum; }
  double delta(double t) const { if(t <= 0) { return 0; } double x = N * t / tp, f = 1; for(int k = 2; k < N; k++) { f *= k; } return std::pow(x, N) * std::exp(-x) / (tp * f); }
  double dprime(double t) const { if(t <= 0) { return 0; } return delta(t) * N * (1 / t - 1 / tp); }
  // (E_r, E_z) in cylindrical components
  void field(double t, double r, double z, double dt, double* out) const {
    double R = std::sqrt(r * r + z * z), pr = R * n, td = t - pr + dt, ct = z / R, st = r / R, pre = 1 / (4 * M_PI * n * n * R * R * R);
    double Er = -2 * pre * ct * (theta(td) + pr * delta(td)), Et = -pre * st * (theta(td) + pr * delta(td) + pr * pr * dprime(td));
    out[0] = Er * st + Et * ct; out[1] = Er * ct - Et * st;
  }
  // size of the single terms, for rounding
  double size(double t, double R) const {
    double pr = R * n, td = t - pr, pre = 1 / (4 * M_PI * n * n * R * R * R); double w = 4e-7 * (std::fabs(t) + pr) + 1e-30;
    double d = std::max({delta(td), delta(td + w), delta(td - w)}), p = std::max({std::fabs(dprime(td)), std::fabs(dprime(td + w)), std::fabs(dprime(td - w))});
    return pre * (1 + pr * d + pr * pr * p);
  }
};

PROPERTY(dipole, 1) {
  Dipole m; float ior = c.chance(1, 4) ? 1.0f : (float)c.real(1.0, 2.5), tp = c.pick<float>({1.0f, 2.0f, 5.0f, 0.25f, 20.0f}); if(c.chance(1, 3)) { tp = (float)c.real(0.2, 30.0); }
  int N = (int)c.integer(1, 10); float os = c.chance(1, 2) ? 10.0f : (float)c.real(1.0, 20.0);
  m.n = ior; m.tp = tp; m.N = N;
  double fmax = N / (2 * M_PI * (double)tp) * std::sqrt(std::pow(2.0, 1.0 / (N + 1)) - 1), dt = 1 / (2 * fmax * (double)os), dx = dt / (double)ior;
  std::size_t cnt[3]; double len[3]; bool degenerate = false;
  const std::size_t top[3] = {14, 14, 40};
  for(int i = 0; i < 3; i++) { cnt[i] = c.chance(1, 15) ? 0 : c.integer<std::size_t>(1, top[i]); double f = c.real(0.05, 0.95); len[i] = ((double)cnt[i] + f) * (i == 2 ? dt : dx); degenerate = degenerate || cnt[i] == 0; }
  float r0 = c.chance(3, 4) ? 0.0f : (float)(c.real(0.0, 8.0) * dx), z0; switch(c.weighted({2, 1, 1})) { case 0: z0 = (float)(-c.real(0.0, 1.0) * len[1]); break; case 1: z0 = (float)(c.real(-20.0, 20.0) * dx); break; default: z0 = 0; break; }
  float r1 = r0 + (float)len[0], z1 = z0 + (float)len[1], t1 = (float)len[2];
  // late enough that the field has arrived somewhere
  if(c.chance(1, 2)) { double far = std::hypot(r0, std::min(std::fabs(z0), std::fabs(z1))); if(z0 <= 0 && z1 >= 0) { far = r0; } double need = far * ior + tp * c.real(0.1, 2.0); std::size_t k = (std::size_t)(need / dt) + 1; if(k > cnt[2] && k < 120) { cnt[2] = k; t1 = (float)((k + 0.5) * dt); } }
  float rmin = (float)(c.weighted({1, 3}) ? c.real(0.05, 4.0) * dx : 1e-3 * dx); m.rmin = rmin;
  std::size_t mp = c.chance(1, 4) ? c.integer<std::size_t>(2, 4) : c.integer<std::size_t>(3, 40);
  auto root = c.dir(); auto path = root / "gf", scratch = root / "scratch"; if(c.chance(1, 4)) { std::filesystem::create_directories(scratch); }
  bool existing = c.chance(1, 5);
  NOTE(c, "region r " << r0 << " .. " << r1 << ", z " << z0 << " .. " << z1 << ", t 0 .. " << t1 << " (" << cnt[0] << ", " << cnt[1] << ", " << cnt[2] << " whole intervals), refractive index " << ior << ", filter (" << tp << ", " << N << "), r_min " << rmin << ", oversampling " << os << ", chunks of " << mp << (existing ? ", replacing another one" : ""));
  RZCoordVector a{r0, z0}, b{r1, z1};
  bool defaults = os == 10.0f && false; (void)defaults;
  { NoFill nf; if(existing) { RZCoordVector a2{0.0f, 0.0f}, b2{(float)(3.5 * dx), (float)(2.5 * dx)}; GreensFunctionCalculator::Analytic::ElectricDipole(path, scratch, a2, b2, (float)(4.5 * dt), ior, tp, N, rmin, os, 3); }
    GreensFunctionCalculator::Analytic::ElectricDipole(path, scratch, a, b, t1, ior, tp, N, rmin, os, mp); }

  auto gp = open_big<GF>(path, c.integer<std::size_t>(0, 3)); GF& gf = *gp; RZTCoordVector s = gf.start_coords(), e = gf.end_coords();
  const float S[3] = {r0, z0, 0.0f}, E[3] = {r1, z1, t1};
  for(int i = 0; i < 3; i++) { CHECK(c, same_value(s[i], S[i]) && same_value(e[i], E[i]), "the Green's function covers " << s[i] << " .. " << e[i] << " along axis " << i << " instead of " << S[i] << " .. " << E[i]); }
  using DArr = SpatialSymmetry::Cylindrical<float>::darr_t; DArr d(path, 2, Ind<3>(2), Ind<3>(stor::INFTY));
  SInd<3> shape = arr<3>(d.GetShape()); double step[3];
  for(int i = 0; i < 3; i++) {
    std::size_t want = std::max<std::size_t>(cnt[i], 1);   // rounding to whole intervals in either direction is fine
    CHECK(c, shape[i] == want + 1 || shape[i] == cnt[i] + 2, "grid has " << shape[i] << " points along axis " << i << " for " << cnt[i] << " whole requested intervals");
    step[i] = ((double)E[i] - (double)S[i]) / (double)(shape[i] - 1);
  }
  std::size_t nz = 0, inner = 0;
  auto usable = [&](const SInd<3>& i, int pad) { for(int x = -pad; x <= pad; x++) { for(int y = -pad; y <= pad; y++) { double R = std::hypot(S[0] + step[0] * std::fabs((double)i[0] + x), S[1] + step[1] * ((double)i[1] + y)); double u = 4e-7 * (std::fabs(S[0]) + std::fabs(S[1]) + step[0] * shape[0] + step[1] * shape[1]); if(R < m.rmin * (1 + 1e-5) + u) { return false; } } } return true; };
  auto limits = [&](const SInd<3>& i, double* lo, double* hi, double& base) {
    double p[3]; for(int x = 0; x < 3; x++) { p[x] = (double)S[x] + step[x] * (double)i[x]; }
    double R = std::hypot(p[0], p[1]), u = 2.4e-7 * (std::fabs(p[0]) + std::fabs((double)S[0]) + std::fabs(p[1]) + std::fabs((double)S[1])), w = 4.8e-7 * (std::fabs(p[2]) + R * m.n) + m.n * u;
    for(int v = 0; v < 2; v++) { lo[v] = 1e300; hi[v] = -1e300; }
    for(int k = -4; k <= 4; k++) { double f[2]; m.field(p[2], p[0], p[1], w * k / 4.0, f); for(int v = 0; v < 2; v++) { lo[v] = std::min(lo[v], f[v]); hi[v] = std::max(hi[v], f[v]); } }
    base = (1e-4 + 8 * u / R) * m.size(p[2], R);
  };
  std::size_t probe = c.draw(vol<3>(shape)), count = 0;
  for_box<3>(zero_ind<3>(), shape, [&](const SInd<3>& i) {
    std::size_t here = count++;
    if(!usable(i, 0)) { inner++; return; }
    double lo[2], hi[2], base; limits(i, lo, hi, base); auto v = d[vec<3>(i)];
    for(int q = 0; q < 2; q++) {
      double x = v[q]; if(!(is_finite_bits((float)x) && x >= lo[q] - base && x <= hi[q] + base)) { FAILS(c, "component " << q << " at grid point " << str<3>(i) << " (r " << S[0] + step[0] * i[0] << ", z " << S[1] + step[1] * i[1] << ", t " << step[2] * i[2] << ") is " << x << " expected " << lo[q] << " .. " << hi[q] << " (tolerance " << base << ")"); }
      if(std::fabs(lo[q] + hi[q]) > 1e-3 * base && lo[q] + hi[q] != 0) { nz++; }
    }
    // evaluation as a Green's function at the position of this grid point
    if(here == probe && usable(i, 2) && i[0] + 1 < shape[0] && i[1] + 1 < shape[1] && i[2] + 1 < shape[2] && r0 == 0.0f) {
      RZCoordVector pos{(float)(S[0] + step[0] * i[0]), (float)(S[1] + step[1] * i[1])}; float t = (float)(step[2] * i[2]);
      if(pos[1] < S[1]) { pos[1] = S[1]; }
      double around = 0; SInd<3> n0, n1; for(int x = 0; x < 3; x++) { n0[x] = i[x] ? i[x] - 1 : 0; n1[x] = std::min(i[x] + 2, shape[x]); } for_box<3>(n0, n1, [&](const SInd<3>& k) { auto y = d[vec<3>(k)]; around = std::max({around, (double)std::fabs(y[0]), (double)std::fabs(y[1])}); });
      for(int q = 0; q < 2; q++) {
        std::vector<float> r(1, 0.0f); RZFieldVector src{q == 0 ? 1.0f : 0.0f, q == 1 ? 1.0f : 0.0f}; gf.accumulate_inner_product<Lin, float>(pos, t, 1.0f, 1, src, r.begin(), 1.0f, Green::OutOfBoundsBehavior::RaiseError);
        double tol = around * 4e-6 * (4 + shape[0] + shape[1] + shape[2] + std::fabs(S[1]) / step[1]); if(!(is_finite_bits(r[0]) && (double)r[0] >= lo[q] - base - tol && (double)r[0] <= hi[q] + base + tol)) { FAILS(c, "evaluating component " << q << " at grid point " << str<3>(i) << " gives " << r[0] << " expected " << lo[q] << " .. " << hi[q] << " (tolerance " << base + tol << ")"); }
      }
      c.label("evaluated as a Green's function");
    }
  });
  c.nontrivial(nz >= 4); c.label_if(degenerate, "less than one interval along an axis"); c.label_if(inner > 0, "excluded inner points"); c.label_if(vol<3>(shape) > mp * mp * mp, "several chunks"); c.label_if(existing, "replaced an existing one");
}
