// P06: signal samples depend on their time only, not on the window they are requested in.
#include "signal.hh"

template <class K, typename R> void windows(pbt::Case& c) {
  SignalWorld w(c); w.plan_signal(); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp;
  Seg s = w.draw_seg(); Win win = w.draw_win(s, w.max_lag()); if(c.chance(1, 3)) { win.n = std::max<std::size_t>(win.n, std::min<std::size_t>(210, (std::size_t)(w.max_lag() / win.dt))); }
  bool calc_mode = sizeof(R) == 4 && K::support == 2 && c.boolean(); auto calc = calc_mode ? open_big<SignalCalculator>(w.path, c.integer<std::size_t>(0, 2)) : nullptr;
  NOTE(c, (K::support == 1 ? "linear" : "cubic") << (calc_mode ? " calculator: " : ": ") << s << ", " << win);
  Ref r = reference<K>(w, s, win, 1.0, w.exact_times); if(calc_mode && r.maybe_outside) { calc_mode = false; }
  auto run = [&](const Win& x) { std::vector<R> b(x.n, (R)0); if constexpr(sizeof(R) == 4) { if(calc_mode) { calc -> AccumulateSignal(s.make(), x.t0, x.dt, x.n, b); return b; } } gf.apply_accumulate<K, R>(s.make(), x.t0, x.dt, x.n, b, Green::OutOfBoundsBehavior::Ignore, 1.0f); return b; };
  auto all = run(win);
  int kinds = (int)c.integer(1, 4); std::size_t compared = 0; bool crossed = false;
  for(int k = 0; k < kinds; k++) {
    // the times of a sub-window, computed as a caller would
    auto compare = [&](const Win& x, std::size_t first, std::size_t stride, const char* what) {
      Ref rx = reference<K>(w, s, x, 1.0, w.exact_times); auto b = run(x);
      for(std::size_t i = 0; i < x.n; i++) { std::size_t j = first + i * stride; double tol = r.tol[j] + rx.tol[i] + std::fabs(rx.val[i] - r.val[j]); double got = b[i], want = all[j]; if(!(is_finite_bits(got) && std::fabs(got - want) <= tol)) { FAILS(c, what << ": sample at time " << x.t0 + (float)i * x.dt << " is " << got << " but " << want << " in the full window (tolerance " << tol << ")"); } if(r.val[j] != 0) { compared++; } }
    };
    switch(c.integer(0, 4)) {
      case 0: { std::size_t a = c.integer<std::size_t>(0, win.n - 1), n = c.integer<std::size_t>(1, win.n - a); NOTE(c, "sub-window of " << n << " from " << a); compare(Win{win.t0 + (float)a * win.dt, win.dt, n}, a, 1, "sub-window"); break; }
      case 1: { std::size_t st = c.integer<std::size_t>(1, std::max<std::size_t>(1, std::min<std::size_t>(7, win.n / 2))); std::size_t a = c.integer<std::size_t>(0, std::min<std::size_t>(st - 1, win.n - 1)); std::size_t n = (win.n - a + st - 1) / st; NOTE(c, "every " << st << "th sample from " << a); compare(Win{win.t0 + (float)a * win.dt, win.dt * (float)st, n}, a, st, "coarser grid"); break; }
      case 2: { std::size_t a = c.integer<std::size_t>(0, win.n - 1); NOTE(c, "single sample " << a); compare(Win{win.t0 + (float)a * win.dt, win.dt, 1}, a, 1, "single sample"); break; }
      case 3: { std::size_t cut = c.integer<std::size_t>(0, win.n); NOTE(c, "split after " << cut); if(cut > 0) { compare(Win{win.t0, win.dt, cut}, 0, 1, "first part"); } if(cut < win.n) { compare(Win{win.t0 + (float)cut * win.dt, win.dt, win.n - cut}, cut, 1, "second part"); } break; }
      default: { // a longer window that begins earlier: the common samples keep their values, the earlier ones follow the reference
        std::size_t pre = c.integer<std::size_t>(1, 120); Win x{win.t0 - (float)pre * win.dt, win.dt, win.n + pre}; NOTE(c, "window begun " << pre << " samples earlier"); Ref rx = reference<K>(w, s, x, 1.0, w.exact_times); if(calc_mode && rx.maybe_outside) { break; } auto b = run(x); crossed = true;
        for(std::size_t i = 0; i < x.n; i++) { double want = i < pre ? rx.val[i] : (double)all[i - pre]; double tol = rx.tol[i] + (i < pre ? 0.0 : r.tol[i - pre] + std::fabs(rx.val[i] - r.val[i - pre])); double got = b[i]; if(!(is_finite_bits(got) && std::fabs(got - want) <= tol)) { FAILS(c, "earlier window: sample at time " << x.t0 + (float)i * x.dt << " is " << got << " expected " << want << " (tolerance " << tol << ")"); } }
        break; }
    }
  }
  c.nontrivial(compared > 2); c.label_if(win.n > 100, "more than one sample block"); c.label_if(r.steps > 100, "more than one quadrature block"); c.label_if(crossed, "window begun earlier");
}
PROPERTY(linear, 1) { windows<Lin, double>(c); }
PROPERTY(cubic, 1) { windows<Cub, float>(c); }
