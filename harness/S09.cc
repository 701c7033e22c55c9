// S09: in-memory array operations have exactly their element-wise effect (model-based histories over a few arrays).
#include "arr.hh"

template <std::size_t D> SInd<D> draw_shape(pbt::Case& c, std::size_t max_extent, std::size_t max_vol = 400) {
  SInd<D> s; std::size_t v = 1;
  for(std::size_t i = 0; i < D; i++) { s[i] = c.small<std::size_t>(1, std::max<std::size_t>(1, std::min(max_extent, max_vol / v))); v *= s[i]; }
  return s;
}
// non-empty block inside a box
template <std::size_t D> void draw_block(pbt::Case& c, const SInd<D>& shape, SInd<D>& lo, SInd<D>& hi) {
  for(std::size_t i = 0; i < D; i++) {
    if(c.chance(1, 3)) { lo[i] = 0; hi[i] = shape[i]; continue; }
    lo[i] = c.integer<std::size_t>(0, shape[i] - 1);
    hi[i] = c.integer<std::size_t>(lo[i] + 1, shape[i]);
  }
}

template <std::size_t D, std::size_t V> using A = NDVecArray<float, D, V>;
template <std::size_t D, std::size_t V> using M = Model<D, V>;

template <std::size_t D, std::size_t V> M<D, V> sub_model(const M<D, V>& m, const SInd<D>& lo, const SInd<D>& hi) {
  M<D, V> r(sub<D>(hi, lo));
  for_box<D>(lo, hi, [&](const SInd<D>& i) { for(std::size_t v = 0; v < V; v++) { r.at(sub<D>(i, lo), v) = m.at(i, v); } });
  return r;
}
template <std::size_t D, std::size_t V> void put_model(M<D, V>& m, const SInd<D>& at, const M<D, V>& src) {
  for_box<D>(zero_ind<D>(), src.shape, [&](const SInd<D>& i) { for(std::size_t v = 0; v < V; v++) { m.at(add<D>(i, at), v) = src.at(i, v); } });
}

// every read path of an array (or view) against the model
template <std::size_t D, std::size_t V> void check_reads(pbt::Case& c, const A<D, V>& a, const M<D, V>& m, const char* what) {
  check_array<D, V>(c, a, m, what);
  std::size_t n = 0;
  a.loop_over_elements([&](const VectorView<float, V>& e) {
    CHECK(c, n < vol<D>(m.shape), what << ": loop visits too many elements");
    for(std::size_t v = 0; v < V; v++) { CHECK(c, same_value(e[v], m.data[n * V + v]), what << ": loop element " << n << "." << v << " is " << e[v] << " expected " << m.data[n * V + v]); }
    n++;
  });
  CHECK(c, n == vol<D>(m.shape), what << ": loop visits " << n << " elements of " << vol<D>(m.shape));
  bool any = false;
  for_box<D>(zero_ind<D>(), m.shape, [&](const SInd<D>& i) {
    bool nul = true; for(std::size_t v = 0; v < V; v++) { nul = nul && same_value(m.at(i, v), 0.0f); }
    any = any || !nul;
    CHECK(c, a.IsNull(vec<D>(i)) == nul, what << ": IsNull" << str<D>(i) << " should be " << nul);
  });
  CHECK(c, a.IsAllNull() == !any, what << ": IsAllNull should be " << !any);
  SInd<D> lo, hi; draw_block<D>(c, m.shape, lo, hi);
  std::vector<SInd<D>> want; for_box<D>(lo, hi, [&](const SInd<D>& i) { want.push_back(i); });
  std::size_t k = 0;
  a.index_loop_over_elements(vec<D>(lo), vec<D>(hi), [&](const Ind<D>& i, const VectorView<float, V>& e) {
    CHECK(c, k < want.size() && arr<D>(i) == want[k], what << ": index loop over " << str<D>(lo) << ".." << str<D>(hi) << " step " << k << " is at " << str<D>(arr<D>(i)));
    for(std::size_t v = 0; v < V; v++) { CHECK(c, same_value(e[v], m.at(want[k], v)), what << ": index loop element " << str<D>(want[k])); }
    k++;
  });
  CHECK(c, k == want.size(), what << ": index loop visits " << k << " of " << want.size());
  for(int t = 0; t < 2; t++) {
    SInd<D> p; bool in = true;
    for(std::size_t i = 0; i < D; i++) { p[i] = c.integer<std::size_t>(0, m.shape[i] + 1); in = in && p[i] < m.shape[i]; }
    CHECK(c, a.has_index(vec<D>(p)) == in, what << ": has_index" << str<D>(p));
  }
}

template <std::size_t D, std::size_t V, std::size_t A1, std::size_t A2> void swap_axes(pbt::Case& c, const A<D, V>& src, const M<D, V>& ms, A<D, V>& dst, M<D, V>& md) {
  (void)c;
  SInd<D> sh = ms.shape; std::swap(sh[A1], sh[A2]);
  M<D, V> r(sh);
  for_box<D>(zero_ind<D>(), ms.shape, [&](const SInd<D>& i) { SInd<D> j = i; std::swap(j[A1], j[A2]); for(std::size_t v = 0; v < V; v++) { r.at(j, v) = ms.at(i, v); } });
  src.template SwapAxes<A1, A2>(dst);
  md = r;
}

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  constexpr std::size_t NS = 3;
  std::vector<A<D, V>> a; std::vector<M<D, V>> m; a.reserve(NS);
  for(std::size_t s = 0; s < NS; s++) {
    SInd<D> sh = draw_shape<D>(c, 9);
    Pattern p = Pattern::draw(c);
    m.push_back(make_block<D, V>(c, sh, p)); a.push_back(to_array<D, V>(m.back()));
    NOTE(c, "array " << s << " shape " << str<D>(sh) << " " << p.name());
  }
  std::size_t n = 0, views = 0, moves = 0;
  while(c.more(n, 25, 8)) {
    n++;
    pbt::Case::Span span(c);
    std::size_t s = c.integer<std::size_t>(0, NS - 1), o = (s + c.integer<std::size_t>(1, NS - 1)) % NS;
    switch(c.weighted({3, 1, 4, 2, 2, 3, 2, 3, 2, 5, 4})) {
      case 0: {
        SInd<D> lo, hi; draw_block<D>(c, m[s].shape, lo, hi); float v = draw_value(c, c.draw(1000)); if(c.chance(1, 4)) { v = 0; }
        NOTE(c, "fill " << s << " " << str<D>(lo) << ".." << str<D>(hi) << " = " << v);
        a[s].fill(vec<D>(lo), vec<D>(hi), v);
        for_box<D>(lo, hi, [&](const SInd<D>& i) { for(std::size_t k = 0; k < V; k++) { m[s].at(i, k) = v; } });
        break;
      }
      case 1: { float v = (float)c.integer(0, 3); NOTE(c, "assign " << s << " = " << v); if(v == 0 && c.boolean()) { a[s].clear(); } else { a[s] = v; } for(float& x : m[s].data) { x = v; } break; }
      case 2: {   // block copy between arrays
        SInd<D> lo, hi, at; draw_block<D>(c, m[o].shape, lo, hi);
        bool fits = true;
        for(std::size_t i = 0; i < D; i++) { if(hi[i] - lo[i] > m[s].shape[i]) { hi[i] = lo[i] + m[s].shape[i]; } at[i] = c.integer<std::size_t>(0, m[s].shape[i] - (hi[i] - lo[i])); }
        (void)fits;
        NOTE(c, "fill_from " << s << " <- " << o << " " << str<D>(lo) << ".." << str<D>(hi) << " at " << str<D>(at));
        a[s].fill_from(a[o], vec<D>(lo), vec<D>(hi), vec<D>(at));
        put_model<D, V>(m[s], at, sub_model<D, V>(m[o], lo, hi)); moves++;
        break;
      }
      case 3: {   // column along the last axis
        SInd<D> at; for(std::size_t i = 0; i < D; i++) { at[i] = c.integer<std::size_t>(0, m[s].shape[i] - 1); }
        std::size_t len = c.integer<std::size_t>(1, m[s].shape[D - 1] - at[D - 1]);
        Pattern p = Pattern::draw(c); M<1, V> col = make_block<1, V>(c, SInd<1>{len}, p); A<1, V> ca = to_array<1, V>(col);
        NOTE(c, "fill column of " << s << " at " << str<D>(at) << " length " << len);
        a[s].template fill_from<D - 1>(ca, vec<D>(at));
        for(std::size_t k = 0; k < len; k++) { SInd<D> i = at; i[D - 1] += k; for(std::size_t v = 0; v < V; v++) { m[s].at(i, v) = col.at(SInd<1>{k}, v); } }
        break;
      }
      case 4: {
        SInd<D> sh = draw_shape<D>(c, 9); float v = (float)c.integer(0, 2);
        NOTE(c, "resize " << s << " " << str<D>(sh) << " value " << v);
        if(c.boolean()) { a[s].resize(vec<D>(sh), v); } else { a[s].resize(vec<D>(sh)); a[s] = v; }
        m[s] = M<D, V>(sh, v);
        break;
      }
      case 5: {
        if(c.boolean()) { NOTE(c, "assign " << s << " <- " << o); a[s] = a[o]; m[s] = m[o]; }
        else { NOTE(c, "copy-construct from " << o << " and check"); A<D, V> cp(a[o]); check_reads<D, V>(c, cp, m[o], "copy"); cp = 7.0f; CHECK(c, cp.owns_data(), "copy owns its data"); }
        moves++;
        break;
      }
      case 6: {
        if(vol<D>(m[s].shape) > 2000) { break; }
        SInd<D> sh = m[s].shape; sh[0] = c.small<std::size_t>(1, 5);
        Pattern p = Pattern::draw(c); M<D, V> b = make_block<D, V>(c, sh, p); A<D, V> ba = to_array<D, V>(b);
        NOTE(c, "append " << str<D>(sh) << " to " << s);
        CHECK(c, (A<D, V>::template ShapeAllowsConcatenation<0>(a[s].GetShape(), ba.GetShape())), "shapes allow concatenation");
        if(c.boolean()) { a[s].template Append<0>(ba); } else { a[s].Append(ba, 0); }
        SInd<D> ns = m[s].shape; ns[0] += sh[0]; M<D, V> r(ns); put_model<D, V>(r, zero_ind<D>(), m[s]); SInd<D> at = zero_ind<D>(); at[0] = m[s].shape[0]; put_model<D, V>(r, at, b); m[s] = r;
        moves++;
        break;
      }
      case 7: {
        if constexpr(D >= 2) {
          NOTE(c, "swap axes " << o << " -> " << s);
          if constexpr(D == 2) { swap_axes<D, V, 0, 1>(c, a[o], m[o], a[s], m[s]); }
          else { switch(c.integer(0, 3)) { case 0: swap_axes<D, V, 0, 1>(c, a[o], m[o], a[s], m[s]); break; case 1: swap_axes<D, V, 0, 2>(c, a[o], m[o], a[s], m[s]); break; case 2: swap_axes<D, V, 1, 2>(c, a[o], m[o], a[s], m[s]); break; default: swap_axes<D, V, 2, 0>(c, a[o], m[o], a[s], m[s]); } }
          moves++;
        }
        break;
      }
      case 8: {
        SInd<D> at; Vector<float, V> x; for(std::size_t i = 0; i < D; i++) { at[i] = c.integer<std::size_t>(0, m[s].shape[i] - 1); }
        std::uint64_t salt = c.draw(5000); for(std::size_t v = 0; v < V; v++) { x[v] = c.chance(1, 4) ? 0.0f : draw_value(c, pbt::mix(salt, v)); m[s].at(at, v) = x[v]; }
        NOTE(c, "set " << s << str<D>(at));
        a[s][vec<D>(at)] = x;
        break;
      }
      case 9: {   // views: read, write through, use as source
        SInd<D> lo, hi; draw_block<D>(c, m[s].shape, lo, hi);
        NOTE(c, "view of " << s << " " << str<D>(lo) << ".." << str<D>(hi)); views++;
        A<D, V> v1 = a[s].View(vec<D>(lo), vec<D>(hi));
        M<D, V> mv = sub_model<D, V>(m[s], lo, hi);
        check_reads<D, V>(c, v1, mv, "view");
        CHECK(c, !v1.owns_data(), "view does not own data");
        switch(c.integer(0, 6)) {
          case 0: { float v = (float)c.integer(0, 9); NOTE(c, "  view = " << v); v1 = v; for(float& x : mv.data) { x = v; } put_model<D, V>(m[s], lo, mv); break; }
          case 1: { SInd<D> l2, h2; draw_block<D>(c, mv.shape, l2, h2); NOTE(c, "  fill in view " << str<D>(l2) << ".." << str<D>(h2)); v1.fill(vec<D>(l2), vec<D>(h2), 5.5f); for_box<D>(l2, h2, [&](const SInd<D>& i) { for(std::size_t k = 0; k < V; k++) { mv.at(i, k) = 5.5f; } }); put_model<D, V>(m[s], lo, mv); break; }
          case 2: { SInd<D> l2, h2; draw_block<D>(c, mv.shape, l2, h2); NOTE(c, "  view of view " << str<D>(l2) << ".." << str<D>(h2)); A<D, V> v2 = v1.View(vec<D>(l2), vec<D>(h2)); M<D, V> m2 = sub_model<D, V>(mv, l2, h2); check_reads<D, V>(c, v2, m2, "view of view"); v2 = -2.0f; for(float& x : m2.data) { x = -2.0f; } put_model<D, V>(mv, l2, m2); put_model<D, V>(m[s], lo, mv); break; }
          case 3: { NOTE(c, "  block copy from view into " << o); SInd<D> sh = m[o].shape, l2, h2, at; for(std::size_t i = 0; i < D; i++) { std::size_t e = std::min(mv.shape[i], sh[i]); std::size_t k = c.integer<std::size_t>(1, e); l2[i] = c.integer<std::size_t>(0, mv.shape[i] - k); h2[i] = l2[i] + k; at[i] = c.integer<std::size_t>(0, sh[i] - k); } a[o].fill_from(v1, vec<D>(l2), vec<D>(h2), vec<D>(at)); put_model<D, V>(m[o], at, sub_model<D, V>(mv, l2, h2)); break; }
          case 4: { NOTE(c, "  block copy into view from " << o); SInd<D> sh = m[o].shape, l2, h2, at; for(std::size_t i = 0; i < D; i++) { std::size_t e = std::min(mv.shape[i], sh[i]); std::size_t k = c.integer<std::size_t>(1, e); l2[i] = c.integer<std::size_t>(0, sh[i] - k); h2[i] = l2[i] + k; at[i] = c.integer<std::size_t>(0, mv.shape[i] - k); } v1.fill_from(a[o], vec<D>(l2), vec<D>(h2), vec<D>(at)); put_model<D, V>(mv, at, sub_model<D, V>(m[o], l2, h2)); put_model<D, V>(m[s], lo, mv); break; }
          case 5: { NOTE(c, "  copy view into " << o); if(c.boolean()) { a[o] = v1; m[o] = mv; } else { A<D, V> cp(v1); check_reads<D, V>(c, cp, mv, "copy of view"); } break; }
          case 6: {
            SInd<D> sh = mv.shape; sh[0] = c.small<std::size_t>(1, 3); Pattern p = Pattern::draw(c); M<D, V> b = make_block<D, V>(c, sh, p); A<D, V> ba = to_array<D, V>(b);
            NOTE(c, "  append view to array of shape " << str<D>(sh));
            ba.template Append<0>(v1);
            SInd<D> ns = sh; ns[0] += mv.shape[0]; M<D, V> r(ns); put_model<D, V>(r, zero_ind<D>(), b); SInd<D> at = zero_ind<D>(); at[0] = sh[0]; put_model<D, V>(r, at, mv);
            check_reads<D, V>(c, ba, r, "array with view appended");
            break;
          }
        }
        break;
      }
      case 10: {  // element written through an index loop / view element
        SInd<D> lo, hi; draw_block<D>(c, m[s].shape, lo, hi);
        NOTE(c, "negate " << s << " in " << str<D>(lo) << ".." << str<D>(hi));
        a[s].index_loop_over_elements(vec<D>(lo), vec<D>(hi), [&](const Ind<D>&, VectorView<float, V> e) { for(std::size_t v = 0; v < V; v++) { e[v] = -e[v]; } });
        for_box<D>(lo, hi, [&](const SInd<D>& i) { for(std::size_t v = 0; v < V; v++) { m[s].at(i, v) = -m[s].at(i, v); } });
        break;
      }
    }
    for(std::size_t k = 0; k < NS; k++) { check_array<D, V>(c, a[k], m[k], ("array " + std::to_string(k)).c_str()); }
    check_reads<D, V>(c, a[s], m[s], "array");
    if constexpr(D == 1) {
      for(std::size_t i = 0; i < m[s].shape[0]; i++) { auto e = a[s][i]; for(std::size_t v = 0; v < V; v++) { CHECK(c, same_value(e[v], m[s].at(SInd<1>{i}, v)), "1-d element access"); } }
    }
  }
  c.label_if(views > 0, "with views");
  c.label_if(moves > 0, "with copies / appends / transposition");
  c.nontrivial(views + moves > 0 && n >= 3);
}

PROPERTY(arr_1d1, 1) { history<1, 1>(c); }
PROPERTY(arr_1d2, 1) { history<1, 2>(c); }
PROPERTY(arr_2d1, 2) { history<2, 1>(c); }
PROPERTY(arr_2d3, 2) { history<2, 3>(c); }
PROPERTY(arr_3d2, 4) { history<3, 2>(c); }
PROPERTY(arr_3d1, 2) { history<3, 1>(c); }
PROPERTY(arr_4d2, 1) { history<4, 2>(c); }

// 1-d views: access by plain position
PROPERTY(view_1d_position, 1) {
  std::size_t n = c.integer<std::size_t>(1, 12); Pattern p = Pattern::draw(c);
  Model<1, 2> m = make_block<1, 2>(c, SInd<1>{n}, p); auto a = to_array<1, 2>(m);
  std::size_t lo = c.integer<std::size_t>(0, n - 1), hi = c.integer<std::size_t>(lo + 1, n);
  auto v = a.View(Vector<std::size_t, 1>(lo), Vector<std::size_t, 1>(hi));
  NOTE(c, "view " << lo << ".." << hi << " of " << n);
  for(std::size_t i = 0; i < hi - lo; i++) { auto e = v[i]; CHECK(c, same_value(e[0], m.at(SInd<1>{lo + i}, 0)) && same_value(e[1], m.at(SInd<1>{lo + i}, 1)), "view element " << i << " is " << e[0] << "," << e[1]); }
  c.nontrivial(lo > 0);
}
