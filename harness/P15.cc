// P15: the CORSIKA 8 interface against the double-precision line integral and the core library.
#include "signal.hh"
#include "C8.cxx"

namespace {
  struct C8World : SignalWorld {
    using SignalWorld::SignalWorld;
    void any_point(float* out) { double fr = c.chance(2, 3) ? draw_fr() : c.real(0.0, 2.0) * (double)N[0], fz = c.chance(2, 3) ? draw_fz() : c.real(-1.0, 2.0) * (double)N[1]; point(fr, fz, draw_angle(), out); }
    Seg draw_step() { if(c.boolean()) { return draw_seg(); } Seg s; any_point(s.a); any_point(s.b); draw_times(s); draw_charge(s); return s; }
  };
}
PROPERTY(steps, 4) {
  C8World w(c); w.plan_signal(120); w.zero_start_t = true; w.store(1); std::size_t cache = w.draw_cache(); auto calc = c.boolean() ? open_big<C8SignalCalculator>(w.path, cache) : open_big<C8SignalCalculator>(w.path);
  auto core = open_big<GF>(w.path, 1); int n = (int)c.integer(1, 5); std::size_t terms = 0; bool out = false;
  std::vector<double> shared; Win swin{0, 1, 0}; std::vector<double> sval, stol;
  for(int k = 0; k < n; k++) {
    Seg s = w.draw_step(); Win win = w.draw_win(s, c.chance(1, 3) ? -1 : w.max_lag(), 150); float weight = w.draw_weight(); NOTE(c, "step " << s << ", " << win << ", weight " << weight);
    Ref r = reference<Lin>(w, s, win, weight, w.exact_times); Buffer<double> buf(c, win.n, w.maxabs * std::fabs((double)s.q)); std::array<float, 4> a{s.a[0], s.a[1], s.a[2], s.t0}, b{s.b[0], s.b[1], s.b[2], s.t1}, a0 = a, b0 = b;
    bool def = weight == 1.0f && c.boolean(); if(def) { calc -> calculate(a, b, s.q, win.t0, win.dt, win.n, buf.v); } else { calc -> calculate(a, b, s.q, win.t0, win.dt, win.n, buf.v, weight); }
    buf.check(c, r, "interface"); CHECK(c, a == a0 && b == b0, "track step was modified"); terms += r.terms; out = out || r.outside;
    std::vector<double> direct(buf.before); core -> apply_accumulate<Lin, double>(s.make(), win.t0, win.dt, win.n, direct, Green::OutOfBoundsBehavior::Ignore, weight);
    for(std::size_t i = 0; i < win.n; i++) { double tol = 4e-7 * (double)(r.steps + 8) * r.mag[i] + r.tol[i] * 1e-3 + 1e-30; if(!(std::fabs(direct[i] - buf.v[i]) <= tol)) { FAILS(c, "sample " << i << " is " << buf.v[i] << " through the interface and " << direct[i] << " from the core library"); } }
  }
  std::array<float, 3> ant; ant.fill(7.0f); calc -> get_antenna_location(ant); CHECK(c, ant[0] == 0 && ant[1] == 0 && ant[2] == 0, "antenna location is not the origin of the coordinate system");
  c.nontrivial(terms > 3 && w.maxabs > 0); c.label_if(out, "partly outside"); c.label_if(n > 1, "several steps");
}
// weak currents on top of a large buffer: the sum is carried in double precision
PROPERTY(precision, 1) {
  C8World w(c); w.plan_signal(60); w.store(1); auto calc = open_big<C8SignalCalculator>(w.path, w.draw_cache()); Seg s = w.draw_seg(); s.q = 1.0f; Win win = w.draw_win(s, w.max_lag(), 60);
  Ref r = reference<Lin>(w, s, win, 1.0, w.exact_times); double big = w.maxabs * c.pick<double>({1e3, 1e5, 1e6}); std::vector<double> v(win.n, big); NOTE(c, s << ", " << win << " added to " << big);
  std::array<float, 4> a{s.a[0], s.a[1], s.a[2], s.t0}, b{s.b[0], s.b[1], s.b[2], s.t1}; calc -> calculate(a, b, s.q, win.t0, win.dt, win.n, v);
  for(std::size_t i = 0; i < win.n; i++) { double got = v[i] - big, tol = r.tol[i] + 1e-12 * big; if(!(std::fabs(got - r.val[i]) <= tol)) { FAILS(c, "sample " << i << ": " << got << " was added instead of " << r.val[i]); } }
  c.nontrivial(r.terms > 3 && w.maxabs > 0);
}
// steps of zero or negative duration are refused and leave the buffer alone
PROPERTY(rejected, 1) {
  C8World w(c); w.plan_signal(20); w.store(1); auto calc = open_big<C8SignalCalculator>(w.path, 1); Seg s = w.draw_seg(); float bad = c.boolean() ? s.t0 : s.t0 - (float)c.real(0.001, 50.0); if(bad > s.t0) { bad = s.t0; }
  NOTE(c, s << " with end time " << bad); std::array<float, 4> a{s.a[0], s.a[1], s.a[2], s.t0}, b{s.b[0], s.b[1], s.b[2], bad}; std::vector<double> v(10, 3.5);
  CHECK(c, pbt::throws([&] { calc -> calculate(a, b, s.q, s.t0, 0.5f, 10, v); }), "a step that does not advance in time was accepted"); CHECK(c, v == std::vector<double>(10, 3.5), "the buffer was changed by a refused step");
  Win win{s.t0, 0.5f, 8}; while(win.n > 1 && 0.5 * (double)win.n > w.max_lag()) { win.n--; } Ref r = reference<Lin>(w, s, win, 1.0, w.exact_times); Buffer<double> buf(c, win.n, w.maxabs); b[3] = s.t1; calc -> calculate(a, b, s.q, win.t0, win.dt, win.n, buf.v); buf.check(c, r, "after a refused step");
  c.nontrivial(true);
}
