// P04: signals of line current segments against the retarded line integral, evaluated in double precision.
#include "signal.hh"

namespace {
  template <class K, typename R> void one(pbt::Case& c, SignalWorld& w, GF& gf, bool& longseg, bool& longwin, std::size_t& terms) {
    Seg s = w.draw_seg(); Win win = w.draw_win(s, w.max_lag()); float weight = w.draw_weight();
    NOTE(c, (K::support == 1 ? "linear" : "cubic") << (sizeof(R) == 8 ? " double: " : " float: ") << s << ", " << win << ", weight " << weight);
    Ref r = reference<K>(w, s, win, weight, w.exact_times); if(r.maybe_outside && c.chance(0, 1)) { c.discard(); }
    Buffer<R> buf(c, win.n, w.maxabs * std::fabs((double)s.q));
    auto mode = r.maybe_outside || c.boolean() ? Green::OutOfBoundsBehavior::Ignore : Green::OutOfBoundsBehavior::RaiseError;
    gf.apply_accumulate<K, R>(s.make(), win.t0, win.dt, win.n, buf.v, mode, weight);
    buf.check(c, r, "signal");
    longseg = longseg || r.steps > 100; longwin = longwin || win.n > 100; terms += r.terms;
  }
}
template <class K> void run(pbt::Case& c) {
  SignalWorld w(c); w.plan_signal(); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp;
  int k = (int)c.integer(1, 4); bool longseg = false, longwin = false; std::size_t terms = 0;
  for(int i = 0; i < k; i++) { if(c.boolean()) { one<K, double>(c, w, gf, longseg, longwin, terms); } else { one<K, float>(c, w, gf, longseg, longwin, terms); } }
  c.nontrivial(terms > 3 && w.maxabs > 0); c.label_if(longseg, "more than one quadrature block"); c.label_if(longwin, "more than one sample block");
}
PROPERTY(linear, 3) { run<Lin>(c); }
PROPERTY(cubic, 3) { run<Cub>(c); }

// the public signal calculator uses the cubic kernel
PROPERTY(calculator, 2) {
  SignalWorld w(c); w.plan_signal(); w.allow_overlap1 = false; w.store(2); auto calc = open_big<SignalCalculator>(w.path, w.draw_cache());
  int k = (int)c.integer(1, 4); std::size_t terms = 0;
  for(int i = 0; i < k; i++) {
    Seg s = w.draw_seg(); Win win = w.draw_win(s, w.max_lag()); Ref r = reference<Cub>(w, s, win, 1.0, w.exact_times); NOTE(c, "calculator: " << s << ", " << win);
    if(r.maybe_outside) { c.label("close to the edge"); continue; }
    Buffer<float> buf(c, win.n, w.maxabs * std::fabs((double)s.q)); calc -> AccumulateSignal(s.make(), win.t0, win.dt, win.n, buf.v); buf.check(c, r, "signal"); terms += r.terms;
  }
  c.nontrivial(terms > 3 && w.maxabs > 0);
}
