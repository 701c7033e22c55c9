// P05: linearity in charge and weight, additivity over segments in any order, accumulation into the buffer.
#include "signal.hh"

namespace {
  // rounding of two evaluations of the same terms that differ by a factor only
  double tight(const Ref& r, std::size_t i, double f) { return std::fabs(f) * r.mag[i] * 4e-7 * (double)(r.steps + 16) + 1e-30; }

  template <class K, typename R> struct Runner {
    pbt::Case& c; SignalWorld& w; GF& gf; std::unique_ptr<SignalCalculator> calc; Green::OutOfBoundsBehavior mode = Green::OutOfBoundsBehavior::Ignore;
    std::vector<R> into(std::vector<R> buf, const Seg& s, const Win& win, float weight) { gf.apply_accumulate<K, R>(s.make(), win.t0, win.dt, win.n, buf, mode, weight); return buf; }
    std::vector<R> fresh(const Seg& s, const Win& win, float weight) { return into(std::vector<R>(win.n, (R)0), s, win, weight); }
    void calc_into(std::vector<R>& buf, const Seg& s, const Win& win) { if constexpr(sizeof(R) == 4 && K::support == 2) { if(calc) { calc -> AccumulateSignal(s.make(), win.t0, win.dt, win.n, buf); return; } } gf.apply_accumulate<K, R>(s.make(), win.t0, win.dt, win.n, buf, mode, 1.0f); }
  };
}
template <class K, typename R> void scaling(pbt::Case& c) {
  SignalWorld w(c); w.plan_signal(120); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); Runner<K, R> run{c, w, *gp, nullptr};
  Seg s = w.draw_seg(); Win win = w.draw_win(s, w.max_lag(), 140); Ref r = reference<K>(w, s, win, 1.0, w.exact_times);
  auto base = run.fresh(s, win, 1.0f); double largest = 0;
  // scaled charge, scaled weight, and both
  float f = c.pick<float>({-1.0f, 2.0f, -0.5f, 3.0f, 0.1f, -7.3f, 1e3f, 0.0f, 1e-8f, -1e-13f, 1e9f, 3e-18f}); float g = c.pick<float>({-1.0f, 2.0f, -0.5f, 3.0f, 0.1f, 1.0f, 0.0f, 1e-9f, -1e6f});
  Seg sq = s; sq.q = s.q * f; NOTE(c, (K::support == 1 ? "linear" : "cubic") << " kernel: " << s << ", " << win << "; charge times " << f << ", weight times " << g);
  auto a = run.fresh(sq, win, 1.0f), b = run.fresh(s, win, f), d = run.fresh(sq, win, g);
  for(std::size_t i = 0; i < win.n; i++) {
    auto cmp = [&](const char* what, double got, double fac) { double want = fac * (double)base[i], tol = tight(r, i, fac); if(!(is_finite_bits(got) && std::fabs(got - want) <= tol)) { FAILS(c, what << ": sample " << i << " is " << got << ", " << fac << " times the original " << (double)base[i] << " (tolerance " << tol << ")"); } };
    cmp("scaled charge", a[i], f); cmp("scaled weight", b[i], f); cmp("scaled charge and weight", d[i], (double)f * g); largest = std::max(largest, std::fabs((double)base[i]));
  }
  c.nontrivial(largest > 0 && r.terms > 3);
}
PROPERTY(scaling_linear, 1) { scaling<Lin, double>(c); }
PROPERTY(scaling_cubic, 1) { scaling<Cub, float>(c); }

template <class K, typename R> void sums(pbt::Case& c) {
  SignalWorld w(c); w.plan_signal(120); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); Runner<K, R> run{c, w, *gp, nullptr};
  bool use_calc = sizeof(R) == 4 && K::support == 2 && c.boolean(); if(use_calc) { run.calc = open_big<SignalCalculator>(w.path, c.integer<std::size_t>(0, 2)); NOTE(c, "through the signal calculator"); }
  std::vector<Seg> segs; std::size_t n = c.integer<std::size_t>(1, 5); w.max_span = std::min(w.max_span, 30.0); Win win{0, 1, 1};
  for(std::size_t k = 0; k < n; k++) { Seg s = w.draw_seg(); if(k > 0) { float shift = segs[0].t0 - s.t0 + (float)c.integer(0, 8) / 4.0f; s.t1 += shift; s.t0 += shift; if(!(s.t1 > s.t0)) { s.t1 = s.t0 + 0.5f; } } segs.push_back(s); NOTE(c, s); }
  win = w.draw_win(segs[0], w.max_lag() * 0.8 - 0.1, 140); NOTE(c, win);
  std::vector<double> sum(win.n, 0.0), tol(win.n, 0.0); std::size_t terms = 0;
  for(auto& s : segs) {
    Ref r = reference<K>(w, s, win, 1.0, false); if(use_calc && r.maybe_outside) { c.discard(); } std::vector<R> one(win.n, (R)0); run.calc_into(one, s, win); terms += r.terms;
    for(std::size_t i = 0; i < win.n; i++) { sum[i] += one[i]; tol[i] += tight(r, i, 1.0); }
  }
  std::uint64_t order = c.draw(1 << 12); std::vector<Seg> perm = segs; if(order) { for(std::size_t i = n; i > 1; i--) { std::swap(perm[i - 1], perm[pbt::mix(order, i) % i]); } NOTE(c, "accumulated in shuffled order " << order); }
  double scale = w.maxabs * (c.boolean() ? 100.0 : 1.0); std::uint64_t salt = c.boolean() ? c.draw(1 << 12) : 0; std::vector<R> buf(win.n); std::vector<double> before(win.n);
  for(std::size_t i = 0; i < win.n; i++) { buf[i] = salt ? (R)(scale * ((double)(pbt::mix(salt, i) % 41) - 20) / 20) : (R)0; before[i] = buf[i]; }
  for(auto& s : perm) { run.calc_into(buf, s, win); }
  for(std::size_t i = 0; i < win.n; i++) {
    double want = before[i] + sum[i], t = tol[i] * 2 + 2.4e-7 * (double)(n * 40 + 16) * (sizeof(R) == 4 ? std::fabs(before[i]) : 1e-9 * std::fabs(before[i])) + (sizeof(R) == 4 ? 1.2e-7 * (double)n * std::fabs(sum[i]) : 0.0), got = buf[i];
    if(!(is_finite_bits(got) && std::fabs(got - want) <= t)) { FAILS(c, "sample " << i << " of the accumulated signal is " << got << ", the buffer held " << before[i] << " and the segments sum to " << sum[i] << " (tolerance " << t << ")"); }
  }
  c.nontrivial(terms > 6 && w.maxabs > 0 && n > 1); c.label_if(salt != 0, "prior contents"); c.label_if(order != 0, "shuffled");
}
PROPERTY(sum_linear, 1) { sums<Lin, double>(c); }
PROPERTY(sum_cubic, 1) { sums<Cub, float>(c); }

// a segment cut at integration points contributes the sum of its pieces
template <class K> void pieces(pbt::Case& c) {
  SignalWorld w(c); w.plan_signal(120); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); Runner<K, double> run{c, w, *gp, nullptr};
  Seg s = w.draw_seg(); std::size_t len = (std::size_t)c.integer(2, std::max(2, std::min(24, (int)w.max_span))); s.t1 = s.t0 + (float)len; w.exact_times = w.exact_times && (float)len == fdiff(s.t1, s.t0); if(fdiff(s.t1, s.t0) != (float)len) { c.discard(); }
  Win win = w.draw_win(s, std::max(1.0, w.max_lag()), 100); std::size_t cut = c.integer<std::size_t>(1, len - 1); NOTE(c, (K::support == 1 ? "linear" : "cubic") << " kernel: " << s << ", " << win << ", cut after " << cut << " of " << len << " steps");
  Seg p = s, q = s; p.t1 = q.t0 = s.t0 + (float)cut; if(fdiff(p.t1, p.t0) != (float)cut || fdiff(q.t1, q.t0) != (float)(len - cut)) { c.discard(); }
  for(int i = 0; i < 3; i++) { p.b[i] = q.a[i] = (float)((double)s.a[i] + ((double)s.b[i] - s.a[i]) * (double)cut / (double)len); }
  Ref r = reference<K>(w, s, win, 1.0, w.exact_times), rp = reference<K>(w, p, win, 1.0, w.exact_times), rq = reference<K>(w, q, win, 1.0, w.exact_times);
  auto whole = run.fresh(s, win, 1.0f), both = run.into(run.fresh(p, win, 1.0f), q, win, 1.0f);
  for(std::size_t i = 0; i < win.n; i++) { double tol = r.tol[i] + rp.tol[i] + rq.tol[i]; if(!(std::fabs(whole[i] - both[i]) <= tol)) { FAILS(c, "sample " << i << " is " << whole[i] << " for the whole segment and " << both[i] << " for the two pieces (tolerance " << tol << ")"); } }
  c.nontrivial(r.terms > 3 && w.maxabs > 0);
}
PROPERTY(pieces_linear, 1) { pieces<Lin>(c); }
PROPERTY(pieces_cubic, 1) { pieces<Cub>(c); }
