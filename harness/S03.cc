// S03: rechunking, partial rechunking and importing never change array contents.
#include "darr.hh"

template <std::size_t D, std::size_t V> struct Hist : World<D, V> {
  using W = World<D, V>; using I = typename W::I; using Blk = typename W::Blk; using W::d; using W::dir;
  std::size_t rebuilds = 0, partials = 0;
  pbt::Case& c;
  Hist(pbt::Case& c) : W(c), c(c) { }

  void rebuild() {
    if(!this -> tiled()) { return; }
    I lo, hi; this -> bbox(lo, hi); I s = this -> draw_chunk_shape(sub<D>(hi, lo)); std::size_t ov = c.chance(1, 2) ? 0 : c.integer<std::size_t>(1, 3); int kind = (int)c.integer(0, 2); std::uint64_t salt = c.draw(1 << 16);
    auto tmp = this -> fresh_dir("tmp"); ChunkHints hints = c.chance(1, 3) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
    NOTE(c, "rebuild with chunks " << str<D>(s) << " overlap " << ov << (hints ? " optimised" : ""));
    if(ov == 0 && c.boolean()) { d -> RebuildChunks(vec<D>(s), tmp, hints); }
    else { this -> with_evaluator(kind, salt, lo, hi, [&](auto& ev) { d -> RebuildChunks(vec<D>(s), tmp, ov, ev, hints); }); }
    CHECK(c, !std::filesystem::exists(tmp), "temporary directory left behind");
    this -> blks.clear(); for(auto& g : W::grid(lo, hi, s)) { this -> blks.push_back({g.first, g.second, g.second, ov, hints != ChunkHints::NONE}); }
    rebuilds++;
    if(c.boolean()) { this -> full(*d, "after rebuilding"); }
    if(c.chance(1, 4)) { NOTE(c, "read the rebuilt array through a second instance"); auto r = this -> make(dir); this -> full(*r, "second instance after rebuilding"); }
    d -> Flush(); this -> check_files(dir, "after rebuilding");
    auto idx = W::read_index(dir); CHECK(c, idx.size() == this -> blks.size(), "rebuilt array has " << idx.size() << " chunks, expected " << this -> blks.size());
  }
  void check_partial(const std::filesystem::path& out, const I& a, const I& b, const I& at) {
    auto r = this -> make(out, false); I ext = sub<D>(b, a);
    CHECK(c, arr<D>(r -> GetShape()) == ext, "partially rebuilt array has shape " << str<D>(arr<D>(r -> GetShape())) << " expected " << str<D>(ext));
    for_box<D>(zero_ind<D>(), ext, [&](const I& k) { this -> check_point(*r, add<D>(k, at), this -> cells.at(add<D>(k, a)), "partially rebuilt array"); });
    std::size_t n = 0; auto w = [&](const Vector<std::size_t, D>& ind, const typename W::DArr::view_t& e) { I i = sub<D>(arr<D>(ind), at); this -> same_elem(e, i, this -> cells.at(add<D>(i, a)), "iterating over the partially rebuilt array"); n++; };
    r -> index_loop_over_elements(w); CHECK(c, n == vol<D>(ext), "iteration over the partially rebuilt array visits " << n << " elements");
    r -> Flush(); this -> check_files(out, "partially rebuilt array");
  }
  void partial() {
    if(!this -> tiled()) { return; }
    I lo, hi, a, b, at; this -> bbox(lo, hi);
    for(std::size_t i = 0; i < D; i++) { a[i] = c.integer<std::size_t>(lo[i], hi[i] - 1); b[i] = c.integer<std::size_t>(a[i] + 1, hi[i]); }
    I s = this -> draw_chunk_shape(sub<D>(b, a)); std::size_t ov = c.chance(1, 2) ? 0 : c.integer<std::size_t>(1, 3); int kind = (int)c.integer(0, 2); std::uint64_t salt = c.draw(1 << 16);
    ChunkHints hints = c.chance(1, 3) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE; bool shifted = c.boolean(); at = a; if(shifted) { for(auto& x : at) { x = c.pick<std::size_t>({0, 1, 5, 200}); } }
    auto out = this -> fresh_dir("part");
    NOTE(c, "rebuild region " << str<D>(a) << ".." << str<D>(b) << " at " << str<D>(at) << " with chunks " << str<D>(s) << " overlap " << ov << (hints ? " optimised" : ""));
    if(ov == 0 && !shifted && c.boolean()) { d -> RebuildChunksPartial(vec<D>(a), vec<D>(b), vec<D>(s), out, hints); }
    else { this -> with_evaluator(kind, salt, lo, hi, [&](auto& ev) { if(shifted) { d -> RebuildChunksPartial(vec<D>(a), vec<D>(b), vec<D>(at), vec<D>(s), out, ov, ev, hints); } else { d -> RebuildChunksPartial(vec<D>(a), vec<D>(b), vec<D>(s), out, ov, ev, hints); } }); }
    check_partial(out, a, b, at); partials++;
    if(c.chance(1, 3)) { this -> full(*d, "source of the partial rebuild"); }
  }
  // rebuild the pieces of a random partition separately, import all of them into a new array
  void pieces() {
    if(!this -> tiled()) { return; }
    I lo, hi; this -> bbox(lo, hi); std::vector<std::pair<I, I>> parts{{lo, hi}};
    std::size_t cuts = c.integer<std::size_t>(1, 4);
    for(std::size_t k = 0; k < cuts; k++) { std::size_t p = c.integer<std::size_t>(0, parts.size() - 1), ax = c.integer<std::size_t>(0, D - 1); auto q = parts[p]; if(q.second[ax] - q.first[ax] < 2) { continue; } std::size_t at = c.integer<std::size_t>(q.first[ax] + 1, q.second[ax] - 1); auto l = q, r = q; l.second[ax] = at; r.first[ax] = at; parts[p] = l; parts.push_back(r); }
    std::size_t ov = c.chance(1, 2) ? 0 : c.integer<std::size_t>(1, 2); bool mv = c.boolean(); std::uint64_t salt = c.draw(1 << 16); int kind = (int)c.integer(0, 2); ChunkHints hints = c.chance(1, 3) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
    NOTE(c, "rebuild in " << parts.size() << " pieces (overlap " << ov << (hints ? ", optimised" : "") << ") and import by " << (mv ? "move" : "copy"));
    auto joined = this -> fresh_dir("joined"); auto j = this -> make(joined); std::vector<std::filesystem::path> outs; std::vector<Blk> nb; std::vector<Blk> old = this -> blks;
    for(auto& p : parts) {
      I s = this -> draw_chunk_shape(sub<D>(p.second, p.first)); auto out = this -> fresh_dir("piece"); NOTE(c, "  piece " << str<D>(p.first) << ".." << str<D>(p.second) << " chunks " << str<D>(s));
      this -> with_evaluator(kind, salt, lo, hi, [&](auto& ev) { d -> RebuildChunksPartial(vec<D>(p.first), vec<D>(p.second), vec<D>(s), out, ov, ev, hints); }); outs.push_back(out);
      for(auto& g : W::grid(p.first, p.second, s)) { nb.push_back({g.first, g.second, g.second, ov, true}); }
    }
    for(auto& o : outs) { j -> Import(o, mv); if(!mv && c.boolean()) { auto r = this -> make(o, false); I e = arr<D>(r -> GetShape()); CHECK(c, vol<D>(e) > 0, "imported piece has no shape any more"); } }
    this -> blks = nb; this -> full(*j, "joined pieces"); j -> Flush(); this -> check_files(joined, "joined pieces");
    // carry on with the joined array
    if(c.boolean()) { NOTE(c, "continue with the joined array"); d = std::move(j); dir = joined; } else { this -> blks = old; }
    partials++;
  }
};

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  Hist<D, V> w(c); w.other_fs = true; w.max_overlap = c.chance(1, 4) ? 2 : 0; w.zero_heavy = c.chance(1, 3);
  w.plan(3, D == 1 ? 12 : D == 2 ? 5 : 3); w.open(); w.complete();
  std::size_t n = 0;
  while(c.more(n, 8, 3)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({5, 4, 3, 2, 1, 2, 1, 1})) {
      case 0: w.rebuild(); break;
      case 1: w.partial(); break;
      case 2: w.pieces(); break;
      case 3: w.reopen(); break;
      case 4: w.swap_axes(); break;
      case 5: w.read_points(); w.read_region(); break;
      case 6: w.append(); break;
      default: w.move(); break;
    }
  }
  NOTE(c, "final check"); w.full(*w.d, "final check"); w.reopen(); w.full(*w.d, "final check after reopening");
  c.nontrivial(w.cells.size() > 3 && w.rebuilds + w.partials > 0);
  c.label_if(w.rebuilds > 0, "rebuilt"); c.label_if(w.partials > 0, "partially rebuilt"); c.label_if(w.rebuilds > 1, "rebuilt repeatedly");
  { bool z = true; for(auto x : w.origin) { z = z && x == 0; } c.label_if(!z, "array not starting at zero"); }
}
PROPERTY(d1v1, 1) { history<1, 1>(c); }
PROPERTY(d2v2, 3) { history<2, 2>(c); }
PROPERTY(d3v2, 3) { history<3, 2>(c); }

// an array with gaps is refused and keeps what it holds
PROPERTY(gaps, 1) {
  Hist<2, 1> w(c); w.plan(); w.open(); std::size_t k = c.integer<std::size_t>(1, 6); for(std::size_t i = 0; i < k; i++) { w.reg(*w.d); }
  if(w.tiled() || w.blks.empty()) { c.discard(); }
  bool thrown = false; NOTE(c, "rebuild array with gaps"); auto tmp = w.fresh_dir("tmp"); try { w.d -> RebuildChunks(Vector<std::size_t, 2>(2), tmp); } catch(const std::exception&) { thrown = true; }
  CHECK(c, thrown, "array with gaps was rebuilt"); w.full(*w.d, "after refused rebuild"); c.nontrivial(w.blks.size() > 1);
}
