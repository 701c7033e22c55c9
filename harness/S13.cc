// S13: swapping two axes of a stored array transposes it, whatever is pending, and the result behaves like any other array.
#include "darr.hh"

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  World<D, V> w(c); using I = typename World<D, V>::I; w.max_overlap = c.chance(1, 3) ? 2 : 0; w.zero_heavy = c.chance(1, 3);
  bool opt = c.chance(1, 5); if(opt) { w.reg_hints = ChunkHints::ENABLE_OPT; }
  w.plan(3, D == 2 ? 6 : 4); w.open(); std::size_t n = 0, swaps = 0, rebuilds = 0;
  while(c.more(n, 30, 10)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({6, 5, 6, 2, 2, 1, 2, 1, 1, 2, 1})) {
      case 0: w.reg(*w.d); break;
      case 1: w.append(); break;
      case 2: w.swap_axes(); swaps++; if(c.chance(1, 3)) { w.full(*w.d, "after swapping"); } break;
      case 3: w.read_points(); break;
      case 4: w.read_region(); break;
      case 5: w.flush(); break;
      case 6: w.reopen(); break;
      case 7: w.move(); break;
      case 8: w.import(); break;
      case 9: {
        if(!w.tiled()) { break; }
        I lo, hi; w.bbox(lo, hi); I s = w.draw_chunk_shape(sub<D>(hi, lo)); std::size_t ov = c.chance(1, 2) ? 0 : c.integer<std::size_t>(1, 2); auto tmp = w.fresh_dir("tmp"); NOTE(c, "rebuild with chunks " << str<D>(s) << " overlap " << ov);
        w.with_evaluator(0, 5, lo, hi, [&](auto& ev) { w.d -> RebuildChunks(vec<D>(s), tmp, ov, ev, w.reg_hints); });
        w.blks.clear(); for(auto& g : World<D, V>::grid(lo, hi, s)) { w.blks.push_back({g.first, g.second, g.second, ov, opt}); } rebuilds++; break;
      }
      default: w.complete(); break;
    }
  }
  if(c.boolean()) { w.complete(); }
  NOTE(c, "final check"); w.full(*w.d, "final check");
  // twice the same swap restores the array (also on disk)
  if(swaps) { w.reopen(); w.full(*w.d, "after reopening"); w.d -> Flush(); w.check_files(w.dir, "at the end"); }
  c.nontrivial(swaps > 0 && w.blks.size() > 1);
  c.label_if(swaps > 1, "several swaps"); c.label_if(swaps && w.n_append > 0, "appends and swaps"); c.label_if(rebuilds && swaps, "rebuilt and swapped"); c.label_if(w.blks.size() > w.cache_size, "more chunks than cache entries");
}
PROPERTY(d2v1, 1) { history<2, 1>(c); }
PROPERTY(d2v2, 2) { history<2, 2>(c); }
PROPERTY(d3v2, 4) { history<3, 2>(c); }
