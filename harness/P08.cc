// P08: positions and times outside the stored domain.
#include "signal.hh"

namespace {
  struct OutWorld : SignalWorld {
    using SignalWorld::SignalWorld;
    // index-space number around an axis range: inside, just outside, far outside
    double draw_any(int axis) {
      double n = (double)N[axis];
      switch(c.weighted({4, 2, 2, 2, 1})) {
        case 0: return c.real(0.02, 0.98) * n;
        case 1: return c.pick<double>({-0.5, -0.02, -1.0, -2.0, -3.5, -0.9});
        case 2: return n + c.pick<double>({0.02, 0.5, 1.0, 2.0, 3.5});
        case 3: return c.real(-2.0, 3.0) * n;
        default: return (c.boolean() ? 1.0 : -1.0) * c.pick<double>({50.0, 1000.0, 1e5}) * n;
      }
    }
    void any_point(float* out) { double fr = std::fabs(draw_any(0)), fz = draw_any(1), phi = draw_angle(); point(fr, fz, phi, out); }
    Seg draw_any_seg() { Seg s; int kind = (int)c.weighted({4, 2, 1}); any_point(s.a); if(kind == 2) { for(int i = 0; i < 3; i++) { s.b[i] = s.a[i]; } } else { any_point(s.b); if(kind == 1) { s.b[0] = s.a[0]; s.b[1] = s.a[1]; } } max_span = 120; draw_times(s); draw_charge(s); return s; }
  };
  // a segment whose ends are outside on opposite sides also needs a speed at which some integration points fall inside: the times are drawn freely
}

template <class K, typename R> void tracks(pbt::Case& c) {
  OutWorld w(c); w.max_t = 60; w.min_t = 4; w.zero_start_t = c.chance(2, 3); w.plan(); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp;
  int n = (int)c.integer(1, 4); bool some_out = false, some_in = false, raised = false;
  for(int k = 0; k < n; k++) {
    Seg s = c.chance(1, 4) ? w.draw_seg() : w.draw_any_seg(); Win win = w.draw_win(s, -1, 150); float weight = w.draw_weight(); bool raise = c.chance(1, 3);
    NOTE(c, (K::support == 1 ? "linear" : "cubic") << (raise ? " raise: " : " ignore: ") << s << ", " << win << ", weight " << weight);
    Ref r = reference<K>(w, s, win, weight, w.exact_times); Buffer<R> buf(c, win.n, w.maxabs * std::fabs((double)s.q));
    some_out = some_out || r.outside; some_in = some_in || r.terms > 2;
    if(!raise) { gf.apply_accumulate<K, R>(s.make(), win.t0, win.dt, win.n, buf.v, Green::OutOfBoundsBehavior::Ignore, weight); buf.check(c, r, "partly outside"); continue; }
    bool threw = pbt::throws([&] { gf.apply_accumulate<K, R>(s.make(), win.t0, win.dt, win.n, buf.v, Green::OutOfBoundsBehavior::RaiseError, weight); });
    CHECK(c, threw || !r.outside, "evaluation outside the domain did not raise an error"); CHECK(c, !threw || r.maybe_outside, "evaluation inside the domain raised an error");
    if(!threw) { buf.check(c, r, "inside"); } else { raised = true; }
  }
  c.nontrivial(some_out && (some_in || raised)); c.label_if(some_out && some_in, "partly outside"); c.label_if(raised, "error raised"); c.label_if(w.start[2] != 0, "stored range does not begin at zero");
}
PROPERTY(tracks_linear, 2) { tracks<Lin, double>(c); }
PROPERTY(tracks_cubic, 2) { tracks<Cub, float>(c); }

// single evaluations along the time axis, also at times before the stored range
template <class K, typename R> void lines(pbt::Case& c) {
  OutWorld w(c); w.max_t = 30; w.plan(); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp;
  int n = (int)c.integer(1, 5); bool some_out = false, some_in = false, raised = false;
  for(int k = 0; k < n; k++) {
    double pr = c.chance(1, 2) ? w.draw_index(0) : std::fabs(w.draw_any(0)), pz = c.chance(1, 2) ? w.draw_index(1) : w.draw_any(1), pt = c.chance(1, 3) ? w.draw_index(2) : w.draw_any(2);
    RZCoordVector pos{w.coord(0, pr), w.coord(1, pz)}; float t0 = w.coord(2, pt), dt = w.step[2] * (c.boolean() ? (float)c.integer(1, 40) / 16.0f : (float)c.real(0.05, 3.0)); std::size_t m = c.integer<std::size_t>(1, 60); bool raise = c.boolean();
    NOTE(c, (K::support == 1 ? "linear" : "cubic") << (raise ? " raise" : " ignore") << " at r " << pos.r() << " (index " << pr << "), z " << pos.z() << " (index " << pz << "), t " << t0 << " (index " << pt << ") + k * " << dt << ", k < " << m);
    double p[3] = {w.index(0, pos.r()), w.index(1, pos.z()), 0}; std::vector<double> want(m, 0.0), tol(m, 0.0); bool out = false, maybe = false;
    for(std::size_t i = 0; i < m; i++) {
      double t = (double)t0 + (double)i * (double)dt; p[2] = w.index(2, t); double e[3] = {w.index_err(0, pos.r()), w.index_err(1, pos.z()), w.index_err(2, t) + w.index_err(2, t0)};
      bool far_out = false, near_edge = false; for(int a = 0; a < 3; a++) { bool exact0 = p[a] == 0 && (a < 2 || i == 0); far_out = far_out || p[a] < -e[a] || p[a] > (double)w.N[a] + e[a]; near_edge = near_edge || (std::fabs(p[a]) <= e[a] && !exact0) || std::fabs(p[a] - (double)w.N[a]) <= e[a]; }
      if(far_out) { out = true; maybe = true; continue; } if(near_edge) { maybe = true; }
      double q[3]; for(int a = 0; a < 3; a++) { q[a] = std::max(p[a], 0.0); } double v = w.value<K>(q, 0) - 0.5 * w.value<K>(q, 1);
      want[i] = w.inside(p) ? v : 0.0; tol[i] = 8e-6 * w.maxabs + 6 * w.maxabs * (e[0] + e[1] + e[2]) + (near_edge ? std::fabs(v) + w.maxabs * 1e-3 : 0.0) + 1e-30; some_in = true;
    }
    some_out = some_out || out; std::vector<R> buf(m + 2, (R)0); RZFieldVector src{1.0f, -0.5f};
    bool threw = pbt::throws([&] { gf.accumulate_inner_product<K, R>(pos, t0, dt, m, src, buf.begin() + 1, 1.0f, raise ? Green::OutOfBoundsBehavior::RaiseError : Green::OutOfBoundsBehavior::Ignore); });
    if(raise) { CHECK(c, threw || !out, "evaluation outside the domain did not raise an error"); CHECK(c, !threw || maybe, "evaluation inside the domain raised an error"); raised = raised || threw; if(threw) { continue; } }
    else { CHECK(c, !threw, "an error was raised although out-of-domain parts are to be ignored"); }
    CHECK(c, buf[0] == 0 && buf[m + 1] == 0, "entry outside the requested range changed");
    for(std::size_t i = 0; i < m; i++) { double got = buf[i + 1]; if(tol[i] == 0 ? got != 0 : !(is_finite_bits(got) && std::fabs(got - want[i]) <= tol[i])) { FAILS(c, "sample " << i << " (t index " << w.index(2, (double)t0 + (double)i * dt) << ") is " << got << " expected " << want[i] << " (tolerance " << tol[i] << ")"); } }
  }
  c.nontrivial(some_out && (some_in || raised)); c.label_if(some_out && some_in, "partly outside"); c.label_if(raised, "error raised");
}
PROPERTY(lines_linear, 1) { lines<Lin, float>(c); }
PROPERTY(lines_cubic, 1) { lines<Cub, double>(c); }

// the public signal calculator reports tracks that leave the domain and keeps working afterwards
PROPERTY(calculator, 1) {
  OutWorld w(c); w.max_t = 60; w.min_t = 8; w.zero_start_t = true; w.allow_overlap1 = false; w.plan(); w.store(2); auto calc = open_big<SignalCalculator>(w.path, w.draw_cache()); int n = (int)c.integer(1, 5); bool out = false, in = false;
  for(int k = 0; k < n; k++) {
    bool any = c.boolean(); Seg s = any ? w.draw_any_seg() : w.draw_seg(); Win win = w.draw_win(s, any ? -1 : w.max_lag(), 80); NOTE(c, "calculator: " << s << ", " << win); Ref r = reference<Cub>(w, s, win, 1.0, w.exact_times);
    Buffer<float> buf(c, win.n, w.maxabs * std::fabs((double)s.q)); bool threw = pbt::throws([&] { calc -> AccumulateSignal(s.make(), win.t0, win.dt, win.n, buf.v); });
    CHECK(c, threw || !r.outside, "track outside the domain did not raise an error"); CHECK(c, !threw || r.maybe_outside, "track inside the domain raised an error"); out = out || threw; if(!threw) { buf.check(c, r, "track"); in = in || r.terms > 2; }
  }
  c.nontrivial(out || in); c.label_if(out && in, "works after an error");
}
