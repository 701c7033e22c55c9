// S02: stored arrays survive closing, reopening and moving, and can be extended afterwards.
#include "darr.hh"

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  World<D, V> w(c); w.huge = true; w.max_overlap = c.chance(1, 4) ? 2 : 0; w.other_fs = true;
  w.plan(); w.open();
  std::size_t n = 0, moves = 0, imports = 0, after = 0;
  while(c.more(n, 40, 14)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({6, 5, 2, 2, 4, 2, 1, 2, 1, 1})) {
      case 0: if(w.reg(*w.d) && w.n_reopen) { after++; } break;
      case 1: if(w.append() && w.n_reopen) { after++; } break;
      case 2: w.read_points(); break;
      case 3: w.read_region(); break;
      case 4: w.reopen(); if(c.chance(1, 3)) { w.full(*w.d, "after reopening"); } break;
      case 5: w.flush(); break;
      case 6: w.move(); moves++; if(c.boolean()) { w.full(*w.d, "after moving"); } break;
      case 7: w.import(); imports++; if(w.n_reopen) { after++; } break;
      case 8: w.reader(); break;
      default: w.complete(); break;
    }
    if(c.chance(1, 3)) { NOTE(c, "query the shape"); w.check_shape(*w.d, "between operations"); if(c.chance(1, 3)) { w.check_loop(*w.d, "iteration between operations"); } }
  }
  NOTE(c, "check before closing"); w.full(*w.d, "before closing");
  std::size_t k = c.integer<std::size_t>(1, 2); for(std::size_t i = 0; i < k; i++) { w.reopen(); w.full(*w.d, "after closing and reopening"); }
  w.d -> Flush(); w.check_files(w.dir, "at the end");
  c.nontrivial(w.blks.size() > 1 && w.n_reopen > 1);
  c.label_if(after > 0, "extended after reopening"); c.label_if(moves > 0, "moved"); c.label_if(imports > 0, "imported"); c.label_if(w.tiled(), "tiled"); c.label_if(w.n_other > 0, "two file systems");
}
PROPERTY(d1v1, 2) { history<1, 1>(c); }
PROPERTY(d2v2, 3) { history<2, 2>(c); }
PROPERTY(d3v2, 3) { history<3, 2>(c); }

// arrays of many small chunks: the index spans several tree levels, its order on disk is not the order of registration
template <std::size_t D> void many(pbt::Case& c) {
  World<D, 1> w(c); w.plan(D == 1 ? 60 : 8, 2); w.open(); std::size_t n = 0, after = 0;
  while(c.more(n, 14, 7)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({6, 3, 4, 1, 2, 1, 1})) {
      case 0: { std::size_t k = c.small<std::size_t>(1, 30); for(std::size_t i = 0; i < k && !w.todo.empty(); i++) { w.reg(*w.d, false); after += w.n_reopen > 0; } break; }
      case 1: w.reopen(); break;
      case 2: w.read_points(); break;
      case 3: w.append(); break;
      case 4: w.full(*w.d, "all chunks"); break;
      case 5: w.import(); break;
      default: w.check_shape(*w.d, "shape"); break;
    }
  }
  w.full(*w.d, "before closing"); w.reopen(); w.full(*w.d, "after closing and reopening"); w.d -> Flush(); w.check_files(w.dir, "at the end");
  c.nontrivial(w.blks.size() > 12 && w.n_reopen > 1); c.label_if(after > 0, "extended after reopening"); c.label_if(w.blks.size() > 12, "more than one tree node");
}
PROPERTY(many_1, 1) { many<1>(c); }
PROPERTY(many_2, 1) { many<2>(c); }

// opening with the default granularity for reading only
PROPERTY(default_reader, 1) {
  World<3, 2> w(c); w.plan(); w.open(); w.complete(); w.d.reset();
  NOTE(c, "open with default parameters"); w.d = std::make_unique<World<3, 2>::DArr>(w.dir, c.integer<std::size_t>(0, 3), c.integer<std::size_t>(1, 20)); w.full(*w.d, "default reader");
  w.d.reset(); w.open(); w.full(*w.d, "after the default reader"); c.nontrivial(w.blks.size() > 1);
}
