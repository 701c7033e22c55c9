// S04: overlap samples of rebuilt chunks agree with their neighbours and with the boundary rule.
#include "darr.hh"
#include "Symmetry.hh"

template <std::size_t D, std::size_t V> void rims(pbt::Case& c) {
  World<D, V> w(c); using I = typename World<D, V>::I; using SI = typename World<D, V>::SI; using Val = typename World<D, V>::Val;
  w.max_overlap = c.chance(1, 4) ? 2 : 0; w.zero_heavy = c.chance(1, 3);
  w.plan(3, D == 1 ? 12 : D == 2 ? 6 : 4); w.open(); w.complete(); if(c.chance(1, 4)) { w.reopen(); }
  if(!w.tiled()) { c.discard(); }
  I lo, hi; w.bbox(lo, hi);
  bool part = c.boolean(); I a = lo, b = hi, at; if(part) { for(std::size_t i = 0; i < D; i++) { a[i] = c.integer<std::size_t>(lo[i], hi[i] - 1); b[i] = c.integer<std::size_t>(a[i] + 1, hi[i]); } } at = a; if(part && c.boolean()) { for(auto& x : at) { x = c.pick<std::size_t>({0, 2, 100}); } }
  I s = w.draw_chunk_shape(sub<D>(b, a)); std::size_t ov = c.integer<std::size_t>(0, 4); int kind = (int)c.integer(0, 2); std::uint64_t salt = c.draw(1 << 16); ChunkHints hints = c.chance(1, 3) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
  std::array<long, D> shift; for(std::size_t i = 0; i < D; i++) { shift[i] = (long)at[i] - (long)a[i]; }
  auto out = w.fresh_dir("out"); NOTE(c, (part ? "rebuild region " : "rebuild ") << str<D>(a) << ".." << str<D>(b) << " at " << str<D>(at) << " with chunks " << str<D>(s) << " overlap " << ov << " boundary rule " << kind << (hints ? " optimised" : ""));
  auto outside = [&](const SI& i) -> Val { return w.boundary_value(kind, salt, i, lo, hi); };
  w.with_evaluator(kind, salt, lo, hi, [&](auto& ev) { if(part) { w.d -> RebuildChunksPartial(vec<D>(a), vec<D>(b), vec<D>(at), vec<D>(s), out, ov, ev, hints); } else { w.d -> RebuildChunks(vec<D>(s), out, ov, ev, hints); } });
  w.d -> Flush(); w.check_rims(part ? out : w.dir, ov, lo, hi, outside, shift, part ? "partially rebuilt chunk" : "rebuilt chunk");
  // rebuild once more, now from chunks with overlap
  if(c.chance(1, 2)) {
    std::unique_ptr<typename World<D, V>::DArr> again; auto src = w.d.get(); I glo = lo, ghi = hi; std::array<long, D> sh{};
    if(part) { again = w.make(out); src = again.get(); glo = at; ghi = add<D>(at, sub<D>(b, a)); }
    I s2 = w.draw_chunk_shape(sub<D>(ghi, glo)); std::size_t ov2 = c.integer<std::size_t>(0, 3); NOTE(c, "rebuild again with chunks " << str<D>(s2) << " overlap " << ov2);
    std::map<I, Val> keep = w.cells; if(part) { std::map<I, Val> nc; for_box<D>(zero_ind<D>(), sub<D>(b, a), [&](const I& k) { nc[add<D>(k, at)] = keep.at(add<D>(k, a)); }); w.cells = nc; }
    auto out2 = w.fresh_dir("out"); auto outside2 = [&](const SI& i) -> Val { return w.boundary_value(2, 0, i, glo, ghi); };
    w.with_evaluator(2, 0, glo, ghi, [&](auto& ev) { src -> RebuildChunks(vec<D>(s2), out2, ov2, ev, hints); }); src -> Flush();
    w.check_rims(part ? out : w.dir, ov2, glo, ghi, outside2, sh, "chunk rebuilt again"); w.cells = keep;
  }
  c.nontrivial(ov > 0 && vol<D>(sub<D>(b, a)) > 2); c.label_if(part, "region"); c.label_if(ov > 1, "overlap larger than one");
  bool thin = false; for(std::size_t i = 0; i < D; i++) { thin = thin || s[i] < ov; } c.label_if(thin, "chunks thinner than the overlap");
}
PROPERTY(d1v1, 1) { rims<1, 1>(c); }
PROPERTY(d2v2, 3) { rims<2, 2>(c); }
PROPERTY(d3v2, 3) { rims<3, 2>(c); }

// cylindrical rule: mirror at negative radius, zero elsewhere outside
PROPERTY(cylindrical, 4) {
  using W = World<3, 2>; using I = W::I; using SI = W::SI; using Val = W::Val;
  W w(c); w.zero_heavy = c.chance(1, 4); w.plan(3, 4);
  // the cylindrical grid begins at radius zero
  for(auto& t : w.todo) { t.first[0] -= w.origin[0]; t.second[0] -= w.origin[0]; } w.origin[0] = 0; NOTE(c, "(first axis shifted to zero)");
  w.open(); w.complete(); if(!w.tiled()) { c.discard(); }
  I lo, hi; w.bbox(lo, hi); I s = w.draw_chunk_shape(sub<3>(hi, lo)); std::size_t ov = c.integer<std::size_t>(0, 3);
  bool enough = true; for(auto& g : W::grid(lo, hi, s)) { if(g.first[0] == 0 && g.second[0] + ov <= ov) { enough = false; } } if(!enough) { c.discard(); }
  ChunkHints hints = c.chance(1, 3) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE; auto tmp = w.fresh_dir("tmp");
  NOTE(c, "rebuild with chunks " << str<3>(s) << " overlap " << ov << " cylindrical" << (hints ? " optimised" : ""));
  auto eval = [](W::Arr& chunk, const RZTSignedIndexVector& a, const RZTSignedIndexVector& b, const RZTSignedIndexVector& i, W::DArr::view_t e) { SpatialSymmetry::Cylindrical<float>::boundary_evaluator(chunk, a, b, i, e); };
  bool direct = c.boolean();
  if(direct) { w.d -> RebuildChunks(vec<3>(s), tmp, ov, SpatialSymmetry::Cylindrical<float>::boundary_evaluator, hints); } else { w.d -> RebuildChunks(vec<3>(s), tmp, ov, eval, hints); }
  auto outside = [&](const SI& i) -> Val {
    Val z; z.fill(0.0f); SI m = i; if(m[0] < 0) { m[0] = -m[0]; }
    I u; for(std::size_t k = 0; k < 3; k++) { if(m[k] < (int)lo[k] || m[k] >= (int)hi[k]) { return z; } u[k] = (std::size_t)m[k]; } return w.cells.at(u);
  };
  w.d -> Flush(); w.check_rims(w.dir, ov, lo, hi, outside, {0, 0, 0}, "chunk rebuilt with the cylindrical rule");
  c.nontrivial(ov > 0); c.label_if(ov > 1, "overlap larger than one");
}
