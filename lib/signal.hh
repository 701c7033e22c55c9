// Signals of line current segments: generator and double-precision reference with error bounds.
#pragma once
#include "green.hh"
#include "SignalCalculator.hh"

struct Seg {
  float a[3], b[3], t0, t1, q;
  LineCurrentSegment make() const { XYZCoordVector s{a[0], a[1], a[2]}, e{b[0], b[1], b[2]}; return LineCurrentSegment(std::move(s), std::move(e), t0, t1, q); }
  friend std::ostream& operator<<(std::ostream& o, const Seg& s) { return o << "segment (" << s.a[0] << ", " << s.a[1] << ", " << s.a[2] << ") at " << s.t0 << " -> (" << s.b[0] << ", " << s.b[1] << ", " << s.b[2] << ") at " << s.t1 << " charge " << s.q; }
};
struct Win { float t0, dt; std::size_t n; friend std::ostream& operator<<(std::ostream& o, const Win& w) { return o << "window " << w.t0 << " + k * " << w.dt << ", k < " << w.n; } };

// differences that must not be folded away by the compiler
inline float fdiff(float a, float b) { volatile float x = a, y = b; return x - y; }
inline bool pow2(double x) { int e; return std::frexp(x, &e) == 0.5; }

// Reference signal. tol[i] bounds the rounding error of any reasonable single-precision evaluation of sample i; terms whose presence depends on
// rounding (emission time equal to the sample time, points on the edge of the domain or on the axis) are counted in full.
struct Ref { std::vector<double> val, tol, mag; bool outside = false, maybe_outside = false; std::size_t terms = 0, steps = 0; };

template <class K> Ref reference(const GreenWorld& w, const Seg& s, const Win& win, double weight, bool exact, double coord_scale = 1.0) {
  Ref r; r.val.assign(win.n, 0.0); r.tol.assign(win.n, 0.0); r.mag.assign(win.n, 0.0);
  float dur = fdiff(s.t1, s.t0); std::size_t nint = (std::size_t)std::ceil(dur); double step = (double)dur / (double)nint; r.steps = nint + 1;
  bool exact_times = exact && pow2(win.dt) && pow2((double)nint);   // then every time is computed without rounding
  double vel[3], vabs = 0; for(int i = 0; i < 3; i++) { vel[i] = ((double)s.b[i] - (double)s.a[i]) / (double)dur; vabs += std::fabs(vel[i]); }
  const long sup = (long)K::support; const double u = 1.2e-7 * coord_scale;
  std::vector<double> line[2]; for(auto& l : line) { l.resize(w.N[2] + 8); }
  double tmaxabs = std::max({std::fabs((double)s.t0), std::fabs((double)s.t1), std::fabs((double)win.t0), std::fabs((double)win.t0 + (double)win.n * win.dt)});
  double terr = 8 * u * tmaxabs / w.step[2];   // error of a retarded time, in units of the time step
  for(std::size_t k = 0; k <= nint; k++) {
    double tp = (double)s.t0 + (double)k * step, pos[3]; for(int i = 0; i < 3; i++) { pos[i] = (double)s.a[i] + vel[i] * ((double)k * step); }
    double rr = std::sqrt(pos[0] * pos[0] + pos[1] * pos[1]); double plen = std::max({std::fabs((double)s.a[0]), std::fabs((double)s.a[1]), std::fabs((double)s.b[0]), std::fabs((double)s.b[1])}), perr = 4 * u * plen;
    double zerr = 6 * u * std::max(std::fabs((double)s.a[2]), std::fabs((double)s.b[2]));
    double ir = w.index(0, rr), iz = w.index(1, pos[2]); double er = perr / w.step[0] + w.index_err(0, rr), ez = zerr / w.step[1] + w.index_err(1, pos[2]);
    double cr = rr > 0 ? pos[0] / rr : 0, sr = rr > 0 ? pos[1] / rr : 0; double J[2] = {(vel[0] * cr + vel[1] * sr) * s.q, vel[2] * s.q};
    double dirwob = rr > 0 ? std::min(2.0, 4 * perr / rr) : (plen == 0 ? 0.0 : 2.0); double vrho = std::hypot(vel[0], vel[1]) * std::fabs((double)s.q);
    double qw = (k == 0 || k == nint) ? 0.5 : 1.0; double f = -qw * step * weight;
    bool rz_in = ir < (double)w.N[0] && iz >= 0 && iz < (double)w.N[1], rz_far_out = ir > (double)w.N[0] + er || iz < -ez || iz > (double)w.N[1] + ez, rz_far_in = ir < (double)w.N[0] - er && iz >= ez && iz < (double)w.N[1] - ez;
    double cc = std::max(ir, 0.0), kr[4], kz[4]; long br = (long)std::floor(cc) - sup + 1, bz = (long)std::floor(std::max(iz, 0.0)) - sup + 1;
    bool collapse = !rz_far_out; double lmax = 0;
    if(collapse) {
      for(long j = 0; j < 2 * sup; j++) { kr[j] = iref::kern<K>(cc - (double)(br + j)); kz[j] = iref::kern<K>(std::max(iz, 0.0) - (double)(bz + j)); }
      for(int v = 0; v < 2; v++) { for(long t = -3; t < (long)w.N[2] + 4; t++) { double x = 0; if(t >= 0 && t < (long)w.N[2]) { for(long p = 0; p < 2 * sup; p++) { for(long q = 0; q < 2 * sup; q++) { long ind[3] = {br + p, bz + q, t}; double wgt = kr[p] * kz[q]; if(wgt != 0) { x += wgt * w.sample(ind, v); } } } } line[v][(std::size_t)(t + 3)] = x; lmax = std::max(lmax, std::fabs(x)); } }
    }
    for(std::size_t i = 0; i < win.n; i++) {
      double ts = (double)win.t0 + (double)i * (double)win.dt, lag = ts - tp; double margin = exact_times ? 0.0 : 4 * u * tmaxabs;
      if(lag < -margin) { continue; }
      bool sure = lag >= margin; double lagc = std::max(lag, 0.0);
      double it = w.index(2, lagc), et = w.index_err(2, lagc) + (exact_times ? 2 * u * std::fabs(it) : terr + margin / w.step[2]);
      bool t_in = it >= 0 && it < (double)w.N[2], t_far_out = it < -et || it > (double)w.N[2] + et, t_far_in = (it >= et || (it == 0 && w.start[2] == 0 && lagc == 0)) && it < (double)w.N[2] - et;
      if(w.start[2] == 0 && it >= 0 && it < et) { t_far_in = true; }     // lags are never negative, the stored range begins at zero
      if(sure && (rz_far_out || t_far_out)) { r.outside = true; }
      if(!(rz_far_in && t_far_in)) { r.maybe_outside = true; }
      if(rz_far_out || t_far_out) { continue; }
      double g[2] = {0, 0}; double itc = std::min(std::max(it, 0.0), (double)w.N[2]); long bt = (long)std::floor(itc) - sup + 1;
      for(long j = 0; j < 2 * sup; j++) { long t = bt + j; double kt = iref::kern<K>(itc - (double)t); if(t < -3 || t >= (long)w.N[2] + 4) { continue; } for(int v = 0; v < 2; v++) { g[v] += kt * line[v][(std::size_t)(t + 3)]; } }
      bool in = rz_in && t_in, edge = !(rz_far_in && t_far_in) || !sure;
      double term = f * (g[0] * J[0] + g[1] * J[1]), slope = 6 * w.maxabs * (vrho + std::fabs(J[1])) * std::fabs(f);
      double mag = std::fabs(f) * (std::fabs(g[0] * J[0]) + std::fabs(g[1] * J[1]));
      if(in && lag >= 0) { r.val[i] += term; r.terms++; }
      r.mag[i] += mag + 0.02 * slope;
      r.tol[i] += slope * (er + ez + et + 2e-6) + std::fabs(f) * dirwob * vrho * std::fabs(g[0]) + (edge ? mag + std::fabs(f) * w.maxabs * (vrho + std::fabs(J[1])) * (er + ez + et) * 6 : 0.0);
    }
  }
  for(std::size_t i = 0; i < win.n; i++) { r.tol[i] += 2e-7 * (double)(nint + 8) * r.mag[i] + 1e-30; }
  return r;
}

struct SignalWorld : GreenWorld {
  using GreenWorld::GreenWorld;
  bool exact_times = true; bool pow2dt = true;
  double rmax() const { return ((double)N[0] - 0.05) * step[0]; }
  // point at radius index `fr` (< N0) and height index `fz`
  void point(double fr, double fz, double phi, float* out) const { double r = fr * step[0]; out[0] = (float)(r * std::cos(phi)); out[1] = (float)(r * std::sin(phi)); out[2] = coord(1, fz); }
  double draw_angle() { static const double pi = std::acos(-1.0); return c.chance(1, 2) ? c.pick<double>({0.0, 0.5 * pi, pi, -0.5 * pi, 0.25 * pi}) : c.real(-3.1, 3.1); }
  double draw_fr() { switch(c.weighted({1, 2, 2})) { case 0: return 0.0; case 1: return (double)c.integer<std::size_t>(0, N[0] * 8 - 1) / 8.0 * 0.99; default: return c.real(0.0, 1.0) * ((double)N[0] - 0.05); } }
  double draw_fz() { double f; switch(c.weighted({1, 2, 2})) { case 0: f = (double)c.integer<std::size_t>(0, N[1] - 1); break; case 1: f = (double)c.integer<std::size_t>(0, N[1] * 8 - 1) / 8.0; break; default: f = c.real(0.0, 1.0) * (double)N[1]; } return std::min(std::max(f, 0.02), (double)N[1] - 0.05); }
  // straight segment inside the stored domain
  Seg draw_seg() {
    Seg s; draw_ends(s); draw_times(s); draw_charge(s); return s;
  }
  void draw_ends(Seg& s) {
    int kind = (int)c.weighted({4, 2, 2, 2, 1}); double phi = draw_angle(), r0 = draw_fr(), z0 = draw_fz();
    point(r0, z0, phi, s.a);
    switch(kind) {
      case 0: point(draw_fr(), draw_fz(), draw_angle(), s.b); break;                                                   // anything
      case 1: point(draw_fr(), draw_fz(), phi + std::acos(-1.0), s.b); break;                                          // through the axis
      case 2: point(r0, draw_fz(), phi, s.b); break;                                                                   // parallel to the axis
      case 3: point(draw_fr(), z0, draw_angle(), s.b); s.b[2] = s.a[2]; break;                                         // perpendicular to the axis
      default: for(int i = 0; i < 3; i++) { s.b[i] = s.a[i]; } break;                                                  // charge at rest
    }
  }
  double max_span = 60;
  void draw_times(Seg& s) {
    exact_times = c.boolean();
    double dur; switch(c.weighted({2, 3, 3, 1})) { case 0: dur = exact_times ? c.pick<double>({0.25, 0.5, 0.125, 1.0 / 64}) : c.real(0.01, 0.98); break; case 1: dur = exact_times ? c.pick<double>({1, 2, 4, 8, 16, 32, 64, 128}) : (double)c.integer(1, 12); break; case 2: dur = exact_times ? (double)c.integer(1, 24) : (double)c.integer(0, 20) + c.real(0.02, 0.97); break; default: dur = (double)c.integer(90, 240); break; }
    dur = std::min(dur, max_span); if(dur > 1 && exact_times) { dur = std::floor(dur); }
    double t0 = exact_times ? (double)c.integer(-64, 64) / 4.0 : c.real(-40.0, 40.0); if(c.chance(1, 8)) { t0 += exact_times ? 1024.0 : 3000.3; }
    s.t0 = (float)t0; s.t1 = (float)(t0 + dur); 
    // keep the number of integration steps independent of rounding
    if(!exact_times) { float d = fdiff(s.t1, s.t0); if(std::fabs(d - std::round(d)) < 1e-2f) { s.t1 = s.t0 + std::round(d) + 0.25f; } }
  }
  void draw_charge(Seg& s) { s.q = c.pick<float>({1.0f, -1.0f, 2.0f, -0.5f, 3.0f, 1e4f, -0.001f, 1e-8f, -2e9f, 1e-13f}); }
  // observation window; the retarded times stay below `max_lag` unless it is negative
  Win draw_win(const Seg& s, double max_lag, std::size_t max_n = 260) {
    Win w; double span = (double)s.t1 - s.t0;
    if(exact_times) { w.dt = c.pick<float>({1.0f, 0.5f, 0.25f, 2.0f, 0.125f}); w.t0 = s.t0 + (float)c.integer(-24, 48) / 8.0f * (c.chance(1, 3) ? 4.0f : 1.0f); }
    else { w.dt = c.chance(1, 2) ? (float)c.real(0.05, 2.0) : c.pick<float>({1.0f, 0.1f, 0.5f}); w.t0 = s.t0 + (float)c.real(-10.0, 12.0); if(c.chance(1, 4)) { w.t0 = s.t0; } }
    (void)span; std::size_t n = c.chance(1, 3) ? max_n : c.integer<std::size_t>(1, c.chance(1, 4) ? max_n : 40); if(c.chance(1, 8)) { n = 1; }
    if(max_lag >= 0) { if((double)w.t0 - s.t0 >= max_lag) { w.t0 = s.t0; } while(n > 1 && (double)w.t0 + (double)(n - 1) * w.dt - s.t0 > max_lag) { double over = ((double)w.t0 + (double)(n - 1) * w.dt - s.t0 - max_lag) / w.dt; n -= std::min<std::size_t>(n - 1, (std::size_t)std::max(1.0, std::floor(over))); } }
    w.n = n; return w;
  }
  double max_lag() const { return ((double)N[2] - 0.1) * step[2]; }
  float draw_weight() { return c.chance(1, 2) ? 1.0f : c.pick<float>({-1.0f, 0.5f, 2.0f, 0.0f, 10.0f, 0.3f, 1e-9f, 3e6f}); }
  void plan_signal(std::size_t tmax = 200) { max_t = tmax; min_t = 8; zero_start_t = true; min_rz = 1; plan(); max_span = std::max(1.0, 0.9 * max_lag()); }
};

template <typename R> struct Buffer {
  std::vector<R> v; std::vector<double> before; std::size_t n;
  Buffer(pbt::Case& c, std::size_t n, double scale) : n(n) { std::size_t extra = c.chance(1, 3) ? c.integer<std::size_t>(1, 5) : 0; std::uint64_t salt = c.boolean() ? c.draw(1 << 12) : 0; v.resize(n + extra); before.resize(n + extra); for(std::size_t i = 0; i < v.size(); i++) { v[i] = salt ? (R)(scale * ((double)(pbt::mix(salt, i) % 33) - 16) / 16) : (R)0; before[i] = v[i]; } }
  void check(pbt::Case& c, const Ref& r, const char* what) const {
    CHECK(c, v.size() == before.size(), what << ": buffer changed its size");
    for(std::size_t i = 0; i < v.size(); i++) {
      double want = before[i] + (i < n ? r.val[i] : 0.0), got = v[i];
      if(i >= n || (r.val[i] == 0.0 && r.tol[i] <= 1e-30)) { if(!(got == before[i])) { FAILS(c, what << ": entry " << i << (i >= n ? " after the window" : " before the first emission") << " changed from " << before[i] << " to " << got); } continue; }
      double tol = r.tol[i] + (sizeof(R) == 4 ? 1.2e-7 : 2.3e-16) * (double)(r.steps + 4) * (std::fabs(before[i]));
      if(!(is_finite_bits(got) && std::fabs(got - want) <= tol)) { FAILS(c, what << ": sample " << i << " is " << got << " expected " << want << " (tolerance " << tol << ")"); }
    }
  }
};
