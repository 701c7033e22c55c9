// S01: a distributed array returns exactly what was written into it (histories of registering, appending, flushing and reading).
#include "darr.hh"

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  World<D, V> w(c); w.huge = true; w.max_overlap = c.chance(1, 3) ? 2 : 0;
  w.plan(); w.open(); w.check_shape(*w.d, "empty array");
  std::size_t n = 0, reads = 0, refused = 0;
  while(c.more(n, 50, 14)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({6, 8, 4, 3, 2, 1, 1, 1, 1})) {
      case 0: w.reg(*w.d); break;
      case 1: w.append(); break;
      case 2: w.read_points(); reads++; break;
      case 3: w.read_region(); reads++; break;
      case 4: NOTE(c, "shape"); w.check_shape(*w.d, "shape"); break;
      case 5: w.flush(); break;
      case 6: if(w.tiled()) { NOTE(c, "iterate"); w.check_loop(*w.d, "iteration"); reads++; } break;
      case 7: w.complete(); break;
      default: refused += w.dubious_append(); break;
    }
  }
  if(c.chance(3, 4)) { w.complete(); }
  NOTE(c, "final check"); w.full(*w.d, "final check");
  c.nontrivial(w.blks.size() > 1 && w.n_append > 0);
  c.label_if(w.blks.size() > w.cache_size, "more chunks than cache entries"); c.label_if(w.n_append > 2, "several appends"); c.label_if(w.cache_size == 0, "no cache"); c.label_if(w.tiled(), "tiled"); c.label_if(refused > 0, "dubious append"); c.label_if(reads > 0 && w.n_append > 0, "reads between writes");
}
PROPERTY(d1v1, 2) { history<1, 1>(c); }
PROPERTY(d2v2, 3) { history<2, 2>(c); }
PROPERTY(d3v1, 2) { history<3, 1>(c); }
PROPERTY(d3v2, 3) { history<3, 2>(c); }
