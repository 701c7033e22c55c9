// Stored arrays with a random history, and what can be done to their directories.
#pragma once
#include "darr.hh"

namespace fs = std::filesystem;

// takes the permission to write away for the lifetime of the object
struct ReadOnly {
  fs::path dir; bool on;
  ReadOnly(const fs::path& p, bool on) : dir(p), on(on) { if(on) { for(auto& e : fs::directory_iterator(p)) { fs::permissions(e.path(), fs::perms(0444)); } fs::permissions(p, fs::perms(0555)); } }
  ~ReadOnly() { if(on) { std::error_code ec; fs::permissions(dir, fs::perms(0755), ec); for(auto& e : fs::directory_iterator(dir)) { fs::permissions(e.path(), fs::perms(0644), ec); } } }
};

// builds a stored array with a random history
template <std::size_t D, std::size_t V> void build(pbt::Case& c, World<D, V>& w) {
  w.max_overlap = c.chance(1, 3) ? 2 : 0; w.zero_heavy = c.chance(1, 3); w.reg_hints = c.chance(1, 4) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
  w.plan(3); w.open(); std::size_t n = 0;
  while(c.more(n, 12, 5)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({5, 3, 1, 1, 1, 1})) { case 0: w.reg(*w.d); break; case 1: w.append(); break; case 2: w.reopen(); break; case 3: w.swap_axes(); break; case 4: w.import(); break; default: w.complete(); break; }
  }
  if(c.chance(1, 4) && w.tiled()) {
    SInd<D> lo, hi; w.bbox(lo, hi); auto s = w.draw_chunk_shape(sub<D>(hi, lo)); std::size_t ov = c.integer<std::size_t>(0, 2); auto tmp = w.fresh_dir("tmp"); NOTE(c, "rebuild with chunks " << str<D>(s) << " overlap " << ov);
    w.with_evaluator(2, 0, lo, hi, [&](auto& ev) { w.d -> RebuildChunks(vec<D>(s), tmp, ov, ev, ChunkHints::ENABLE_OPT); });
    w.blks.clear(); for(auto& g : World<D, V>::grid(lo, hi, s)) { w.blks.push_back({g.first, g.second, g.second, ov, true}); }
  }
}
