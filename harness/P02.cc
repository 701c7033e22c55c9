// P02: stored Green's functions evaluated along time lines, against direct interpolation of the regular grid.
#include "green.hh"

namespace {
  template <class K, typename R> void eval_line(pbt::Case& c, GreenWorld& w, GF& gf, std::size_t& samples, bool& many) {
    double pr = w.draw_index(0), pz = w.draw_index(1); RZCoordVector pos{w.coord(0, pr), w.coord(1, pz)};
    double pt = w.draw_index(2); float t0 = w.coord(2, pt); float dt;
    switch(c.weighted({3, 3, 2})) { case 0: dt = w.step[2]; break; case 1: dt = w.step[2] * (float)c.integer(1, 40) / 16.0f; break; default: dt = w.step[2] * (float)c.real(0.02, 3.0); break; }
    double top = (double)w.N[2] - (w.dyadic ? 0.0 : 1e-2); std::size_t nmax = 1; while(nmax < 400 && w.index(2, (double)t0 + (double)nmax * (double)dt) < top - 1e-4) { nmax++; }
    std::size_t n = c.chance(1, 2) ? nmax : c.integer<std::size_t>(1, nmax);
    float src[2] = {c.pick<float>({1.0f, 0.0f, -2.0f, 0.5f}), c.pick<float>({0.0f, 1.0f, 3.0f, -0.25f})}; float weight = c.pick<float>({1.0f, -1.0f, 0.5f, 3.0f}); auto mode = c.boolean() ? Green::OutOfBoundsBehavior::Ignore : Green::OutOfBoundsBehavior::RaiseError;
    RZFieldVector source{src[0], src[1]};
    // one call, or consecutive pieces
    std::vector<std::size_t> cuts = {0}; if(c.chance(1, 3)) { std::size_t k = c.integer<std::size_t>(1, 3); for(std::size_t i = 0; i < k; i++) { cuts.push_back(c.integer<std::size_t>(0, n)); } std::sort(cuts.begin(), cuts.end()); } cuts.push_back(n);
    std::size_t guard = 3; std::vector<R> out(n + 2 * guard); std::vector<double> before(out.size()); std::uint64_t salt = c.boolean() ? c.draw(1 << 12) : 0;
    for(std::size_t i = 0; i < out.size(); i++) { before[i] = salt ? w.maxabs * ((double)(pbt::mix(salt, i) % 17) - 8) / 8 : 0.0; out[i] = (R)before[i]; before[i] = out[i]; }
    NOTE(c, (K::support == 1 ? "linear" : "cubic") << (sizeof(R) == 8 ? " double" : " float") << " at r " << pos.r() << " (index " << pr << "), z " << pos.z() << " (index " << pz << "), t " << t0 << " (index " << pt << ") + k * " << dt << ", k < " << n << ", source (" << src[0] << ", " << src[1] << ") weight " << weight << ", " << cuts.size() - 1 << " calls");
    for(std::size_t k = 0; k + 1 < cuts.size(); k++) {
      float ts = t0 + (float)cuts[k] * dt;
      gf.accumulate_inner_product<K, R>(pos, ts, dt, cuts[k + 1] - cuts[k], source, out.begin() + (std::ptrdiff_t)(guard + cuts[k]), weight, mode);
    }
    double p[3] = {w.index(0, pos.r()), w.index(1, pos.z()), 0}; double amp = (std::fabs(src[0]) + std::fabs(src[1])) * std::fabs(weight) * w.maxabs;
    for(std::size_t i = 0; i < out.size(); i++) {
      if(i < guard || i >= guard + n) { CHECK(c, (double)out[i] == before[i], "entry " << (long)i - (long)guard << " outside the requested range changed from " << before[i] << " to " << out[i]); continue; }
      double t = (double)t0 + (double)(i - guard) * (double)dt; p[2] = w.index(2, t);
      double want = before[i] + weight * (src[0] * w.value<K>(p, 0) + src[1] * w.value<K>(p, 1));
      double tol = 4e-6 * (amp * 4 + std::fabs(before[i])) + 4 * amp * (w.index_err(0, pos.r()) + w.index_err(1, pos.z()) + w.index_err(2, t) + 2.4e-7 * std::fabs((double)(i - guard) * (double)dt) / w.step[2]);
      double got = out[i]; if(!(is_finite_bits(got) && std::fabs(got - want) <= tol)) { FAILS(c, "sample " << i - guard << " at index (" << p[0] << ", " << p[1] << ", " << p[2] << ") is " << got << " expected " << want << " (tolerance " << tol << ")"); }
    }
    samples += n; if(p[2] > (double)w.chunk[2]) { many = true; }
  }
}
template <class K> void run(pbt::Case& c) {
  GreenWorld w(c); w.plan(); w.store(K::support);
  std::size_t opened = 0, samples = 0; bool many = false;
  do {
    w.maybe_move(); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp; opened++;
    RZTCoordVector s = gf.start_coords(), e = gf.end_coords(); for(int i = 0; i < 3; i++) { CHECK(c, s[i] == w.start[i] && e[i] == w.end(i), "start and end coordinates along axis " << i << " are " << s[i] << ", " << e[i]); }
    int lines = (int)c.integer(1, 5); for(int k = 0; k < lines; k++) { if(c.chance(1, 3)) { eval_line<K, double>(c, w, gf, samples, many); } else { eval_line<K, float>(c, w, gf, samples, many); } }
  } while(c.chance(1, 3) && opened < 3);
  c.nontrivial(samples > 4 && w.maxabs > 0); c.label_if(many, "several chunks in time"); c.label_if(w.n_null > 0 && w.n_null < w.n_chunks, "some chunks dropped"); c.label_if(opened > 1, "reopened"); c.label_if(w.dyadic, "exact coordinates");
}
PROPERTY(linear, 1) { run<Lin>(c); }
PROPERTY(cubic, 1) { run<Cub>(c); }
