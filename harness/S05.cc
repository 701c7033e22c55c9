// S05: dropping all-zero chunks from storage is invisible (same history with and without the optimisation, against the model).
#include "darr.hh"

template <std::size_t D, std::size_t V> struct Twin : World<D, V> {
  using W = World<D, V>; using I = typename W::I; using W::d; using W::dir;
  std::size_t dropped = 0, total = 0, rebuilds = 0;
  pbt::Case& c;
  Twin(pbt::Case& c) : W(c), c(c) { }
  void rebuild() {
    if(!this -> tiled()) { return; }
    I lo, hi; this -> bbox(lo, hi); I s = this -> draw_chunk_shape(sub<D>(hi, lo)); std::size_t ov = c.integer<std::size_t>(0, 2); int kind = (int)c.integer(0, 2); std::uint64_t salt = c.draw(1 << 16); auto tmp = this -> fresh_dir("tmp");
    ChunkHints hints = c.chance(3, 4) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
    NOTE(c, "rebuild with chunks " << str<D>(s) << " overlap " << ov << " boundary rule " << kind << (hints ? " optimised" : ""));
    this -> with_evaluator(kind, salt, lo, hi, [&](auto& ev) { d -> RebuildChunks(vec<D>(s), tmp, ov, ev, hints); });
    this -> blks.clear(); for(auto& g : W::grid(lo, hi, s)) { this -> blks.push_back({g.first, g.second, g.second, ov, hints != ChunkHints::NONE}); }
    rebuilds++; d -> Flush();
    auto outside = [&](const typename W::SI& i) { return this -> boundary_value(kind, salt, i, lo, hi); };
    this -> check_rims(dir, ov, lo, hi, outside, {}, "rebuilt chunk"); count();
  }
  void partial_import() {
    if(!this -> tiled()) { return; }
    I lo, hi; this -> bbox(lo, hi); I s = this -> draw_chunk_shape(sub<D>(hi, lo)); std::size_t ov = c.integer<std::size_t>(0, 2); auto out = this -> fresh_dir("part"), to = this -> fresh_dir("joined"); bool mv = c.boolean();
    NOTE(c, "rebuild optimised into another array with chunks " << str<D>(s) << " overlap " << ov << " and import it by " << (mv ? "move" : "copy"));
    this -> with_evaluator(2, 0, lo, hi, [&](auto& ev) { d -> RebuildChunksPartial(vec<D>(lo), vec<D>(hi), vec<D>(s), out, ov, ev, ChunkHints::ENABLE_OPT); });
    auto j = this -> make(to); j -> Import(out, mv); d = std::move(j); dir = to;
    this -> blks.clear(); for(auto& g : W::grid(lo, hi, s)) { this -> blks.push_back({g.first, g.second, g.second, ov, true}); }
  }
  // an optimised array never drops a chunk with a non-zero element
  void count() {
    for(auto& m : W::read_index(dir)) { total++; if(m.chunk_type == ChunkType::all_null) { dropped++; for_box<D>(arr<D>(m.start_ind), arr<D>(m.end_ind), [&](const I& i) { for(float x : this -> cells.at(i)) { CHECK(c, same_value(x, 0.0f), "chunk " << str<D>(arr<D>(m.start_ind)) << " with the non-zero element " << str<D>(i) << " was dropped"); } }); } }
  }
};

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  Twin<D, V> w(c); w.zero_heavy = true; w.reg_hints = c.chance(4, 5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE; w.max_overlap = c.chance(1, 2) ? 2 : 0;
  w.plan(3, D == 1 ? 10 : D == 2 ? 5 : 3); w.open(); std::size_t n = 0;
  // optimised chunks that are all zero cannot be extended: cells are registered as a whole
  std::size_t first = c.integer<std::size_t>(0, w.todo.size());
  for(std::size_t k = 0; k < first; k++) { w.reg(*w.d, false); }
  bool filled = false;
  while(c.more(n, 14, 6)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({3, 3, 3, 2, 2, 2, 1, 1, 2, 1, 1, 1})) {
      case 0: w.reg(*w.d, false); break;
      case 1: w.read_points(); break;
      case 2: w.read_region(); break;
      case 3: if(!filled) { while(!w.todo.empty()) { if(!w.reg(*w.d, false)) { break; } } filled = true; } w.rebuild(); break;
      case 4: w.reopen(); break;
      case 5: w.swap_axes(); break;
      case 6: w.import(); break;
      case 7: w.move(); break;
      case 8: if(w.tiled()) { NOTE(c, "iterate"); w.check_loop(*w.d, "iteration"); } break;
      case 9: w.partial_import(); break;
      case 10: w.append(); break;
      default: w.dubious_append(); break;
    }
    if(c.chance(1, 3)) { NOTE(c, "query the shape"); w.check_shape(*w.d, "between operations"); }
  }
  NOTE(c, "final check"); w.full(*w.d, "final check"); w.reopen(); w.full(*w.d, "final check after reopening"); w.d -> Flush(); w.check_files(w.dir, "at the end"); w.count();
  c.nontrivial(w.dropped > 0 && w.dropped < w.total);
  c.label_if(w.dropped > 0, "chunks dropped"); c.label_if(w.rebuilds > 0, "rebuilt"); c.label_if(w.max_overlap > 0, "registered with overlap");
}
PROPERTY(d1v1, 1) { history<1, 1>(c); }
PROPERTY(d2v2, 3) { history<2, 2>(c); }
PROPERTY(d3v2, 3) { history<3, 2>(c); }
