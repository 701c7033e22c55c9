// P07: time translation, rotation about and reflection at planes through the symmetry axis.
#include "signal.hh"

template <class K, typename R> void symmetry(pbt::Case& c) {
  static const double pi = std::acos(-1.0);
  SignalWorld w(c); w.plan_signal(140); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp;
  Seg s = w.draw_seg(); Win win = w.draw_win(s, w.max_lag(), 150); bool calc_mode = sizeof(R) == 4 && K::support == 2 && c.boolean(); auto calc = calc_mode ? open_big<SignalCalculator>(w.path, c.integer<std::size_t>(0, 2)) : nullptr;
  NOTE(c, (K::support == 1 ? "linear" : "cubic") << (calc_mode ? " calculator: " : ": ") << s << ", " << win);
  double len = 0; for(int i = 0; i < 2; i++) { len = std::max({len, std::fabs((double)s.a[i]), std::fabs((double)s.b[i])}); }
  Ref r = reference<K>(w, s, win, 1.0, w.exact_times, 1.0); if(calc_mode && r.maybe_outside) { calc_mode = false; }
  auto run = [&](const Seg& x, const Win& y) { std::vector<R> b(y.n, (R)0); if constexpr(sizeof(R) == 4) { if(calc_mode) { calc -> AccumulateSignal(x.make(), y.t0, y.dt, y.n, b); return b; } } gf.apply_accumulate<K, R>(x.make(), y.t0, y.dt, y.n, b, Green::OutOfBoundsBehavior::Ignore, 1.0f); return b; };
  auto base = run(s, win); int n = (int)c.integer(1, 4); bool compared = false;
  for(int k = 0; k < n; k++) {
    Seg x = s; Win y = win; const char* what; double fuzz = 1.0;
    switch(c.integer(0, 3)) {
      case 0: { what = "shifted in time"; float d = w.exact_times ? (float)c.integer(-400, 400) / 4.0f : (float)c.real(-300.0, 300.0); x.t0 += d; x.t1 += d; y.t0 += d; NOTE(c, "shifted by " << d << " in time");
        float d0 = fdiff(s.t1, s.t0), d1 = fdiff(x.t1, x.t0); if(std::ceil(d0) != std::ceil(d1)) { continue; } break; }   // rounding changed the number of quadrature steps
      case 1: { what = "rotated"; double a = c.chance(1, 2) ? c.pick<double>({0.5, 1.0, -0.5, 0.25}) * pi : c.real(-3.1, 3.1); double ca = std::cos(a), sa = std::sin(a); for(float* p : {x.a, x.b}) { double px = p[0], py = p[1]; p[0] = (float)(ca * px - sa * py); p[1] = (float)(sa * px + ca * py); } NOTE(c, "rotated by " << a); fuzz = 2; break; }
      case 2: what = "mirrored"; x.a[1] = -x.a[1]; x.b[1] = -x.b[1]; NOTE(c, "mirrored at the plane y = 0"); break;
      default: what = "x and y exchanged"; std::swap(x.a[0], x.a[1]); std::swap(x.b[0], x.b[1]); NOTE(c, "x and y exchanged"); break;
    }
    Ref rx = reference<K>(w, x, y, 1.0, w.exact_times, fuzz); if(calc_mode && rx.maybe_outside) { continue; }
    auto b = run(x, y); compared = true; Ref rs = fuzz > 1 ? reference<K>(w, s, win, 1.0, w.exact_times, fuzz) : r;
    // the transformed input is itself rounded: its exact signal may differ from the original one by up to the tolerance of both
    for(std::size_t i = 0; i < win.n; i++) { double tol = rs.tol[i] + rx.tol[i], got = b[i], want = base[i]; if(!(is_finite_bits(got) && std::fabs(got - want) <= tol)) { FAILS(c, what << ": sample " << i << " is " << got << " but " << want << " for the original segment (tolerance " << tol << ")"); } }
  }
  c.nontrivial(compared && r.terms > 3 && w.maxabs > 0);
}
PROPERTY(linear, 1) { symmetry<Lin, double>(c); }
PROPERTY(cubic, 1) { symmetry<Cub, float>(c); }
