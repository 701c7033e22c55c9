// P03: filling a block equals pointwise evaluation.
#include "green.hh"

template <class K> void blocks(pbt::Case& c) {
  GreenWorld w(c); w.max_r = 9; w.max_z = 9; w.max_t = 24; w.plan(); w.store(K::support); auto gp = open_big<GF>(w.path, w.draw_cache()); GF& gf = *gp;
  int n = (int)c.integer(1, 4); bool several = false, single = false, multi = false;
  NDVecArray<float, 3, 2> out(Ind<3>(c.integer<std::size_t>(1, 4)), 17.0f);
  for(int k = 0; k < n; k++) {
    SInd<3> m; double a[3], b[3]; float ca[3], cb[3];
    for(int i = 0; i < 3; i++) {
      double top = (double)(w.N[i] - 1); auto draw = [&]() -> double { double f; switch(c.weighted({2, 2, 2, 1})) { case 0: f = (double)c.integer<std::size_t>(0, w.N[i] - 1); break; case 1: f = std::min(top, (double)c.integer<std::size_t>(0, w.N[i] * 8) / 8.0); break; case 2: f = c.real(0.0, 1.0) * top; break; default: { std::size_t s = w.chunk[i]; f = std::min(top, (double)(s * c.integer<std::size_t>(0, (w.N[i] - 1) / s))); break; } } return f; };
      switch(c.weighted({3, 2, 1})) { case 0: a[i] = draw(); b[i] = draw(); if(b[i] < a[i]) { std::swap(a[i], b[i]); } break; case 1: a[i] = 0; b[i] = top; break; default: a[i] = b[i] = draw(); break; }
      ca[i] = std::clamp(w.coord(i, a[i]), w.start[i], std::max(w.start[i], w.end(i))); cb[i] = std::clamp(w.coord(i, b[i]), ca[i], std::max(ca[i], w.end(i)));
      a[i] = w.index(i, ca[i]); b[i] = w.index(i, cb[i]);
      switch(c.weighted({2, 1, 1})) { case 0: m[i] = c.integer<std::size_t>(2, i == 2 ? 30 : 7); break; case 1: m[i] = 1; break; default: m[i] = std::max<std::size_t>(1, (std::size_t)std::lround((b[i] - a[i]) * (c.boolean() ? 1.0 : 2.0)) + 1); break; }
      single = single || m[i] == 1; several = several || m[i] > 1;
      multi = multi || (std::size_t)(a[i] / (double)w.chunk[i]) != (std::size_t)(b[i] / (double)w.chunk[i]);
    }
    NOTE(c, (K::support == 1 ? "linear" : "cubic") << " block from (" << ca[0] << ", " << ca[1] << ", " << ca[2] << ") to (" << cb[0] << ", " << cb[1] << ", " << cb[2] << ") i.e. indices (" << a[0] << ", " << a[1] << ", " << a[2] << ") to (" << b[0] << ", " << b[1] << ", " << b[2] << ") with " << str<3>(m) << " samples");
    RZTCoordVector s{ca[0], ca[1], ca[2]}, e{cb[0], cb[1], cb[2]}; RZTVector<std::size_t> cnt{m[0], m[1], m[2]}; gf.fill_array<K>(s, e, cnt, out);
    CHECK(c, arr<3>(out.GetShape()) == m, "shape of the filled array is " << str<3>(arr<3>(out.GetShape())));
    double err = 0; for(int i = 0; i < 3; i++) { err += w.index_err(i, ca[i]) + w.index_err(i, cb[i]) + 2.4e-7 * (b[i] - a[i]); }
    std::size_t probe = c.integer<std::size_t>(0, vol<3>(m) - 1), count = 0;
    for_box<3>(zero_ind<3>(), m, [&](const SInd<3>& i) {
      double p[3]; for(int x = 0; x < 3; x++) { p[x] = m[x] > 1 ? a[x] + (b[x] - a[x]) * (double)i[x] / (double)(m[x] - 1) : a[x]; }
      auto v = out[vec<3>(i)]; for(int q = 0; q < 2; q++) { double want = w.value<K>(p, q), got = v[q], tol = w.maxabs * (1e-5 + 6 * err); if(!(is_finite_bits((float)got) && std::fabs(got - want) <= tol)) { FAILS(c, "component " << q << " of sample " << str<3>(i) << " at index (" << p[0] << ", " << p[1] << ", " << p[2] << ") is " << got << " expected " << want << " (tolerance " << tol << ")"); } }
      if(count++ == probe) {   // against pointwise evaluation by the same library
        RZCoordVector pos{w.coord(0, p[0]), w.coord(1, p[1])}; std::vector<float> r(2, 0.0f); RZFieldVector er{1.0f, 0.0f}, ez{0.0f, 1.0f}; float t = w.coord(2, p[2]);
        gf.accumulate_inner_product<K, float>(pos, t, w.step[2], 1, er, r.begin(), 1.0f, Green::OutOfBoundsBehavior::RaiseError); gf.accumulate_inner_product<K, float>(pos, t, w.step[2], 1, ez, r.begin() + 1, 1.0f, Green::OutOfBoundsBehavior::RaiseError);
        for(int q = 0; q < 2; q++) { CHECK(c, std::fabs((double)r[q] - (double)v[q]) <= w.maxabs * (2e-5 + 12 * err), "component " << q << " of sample " << str<3>(i) << " is " << v[q] << " in the block and " << r[q] << " when evaluated on its own"); }
      }
    });
  }
  c.nontrivial(several && w.maxabs > 0); c.label_if(single, "single sample along an axis"); c.label_if(multi, "several chunks"); c.label_if(w.n_null > 0, "dropped chunks");
}
PROPERTY(linear, 1) { blocks<Lin>(c); }
PROPERTY(cubic, 1) { blocks<Cub>(c); }
