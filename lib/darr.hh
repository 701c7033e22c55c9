// Model-based histories on DistributedNDVecArray: the model is a map from index to value plus the list of chunks.
#pragma once
#include "arr.hh"
#include <map>
#include <optional>
#include <set>
#include "DistributedNDVecArray.hh"

template <std::size_t D> std::string gran(const SInd<D>& g) { std::string s = "["; for(std::size_t i = 0; i < D; i++) { s += (i ? "," : "") + (g[i] == stor::INFTY ? std::string("auto") : std::to_string(g[i])); } return s + "]"; }

// calls f.template operator()<axis>() for a run-time axis
template <std::size_t D, class F> void with_axis(std::size_t axis, F&& f) {
  if(axis == 0) { f.template operator()<0>(); }
  if constexpr(D > 1) { if(axis == 1) { f.template operator()<1>(); } }
  if constexpr(D > 2) { if(axis == 2) { f.template operator()<2>(); } }
}

template <std::size_t D, std::size_t V> struct World {
  using I = SInd<D>;
  using Val = std::array<float, V>;
  using DArr = DistributedNDVecArray<NDVecArray, float, D, V>;
  using Arr = NDVecArray<float, D, V>;
  struct Blk { I lo, hi, lim; std::size_t ov; bool maybe_null; };   // `lim`: the chunk may grow up to here without meeting another chunk

  pbt::Case& c;
  std::filesystem::path root, dir;
  std::unique_ptr<DArr> d;
  std::map<I, Val> cells;
  std::vector<Blk> blks;
  std::vector<std::pair<I, I>> todo;     // reserved regions without a chunk so far
  I origin{};
  std::size_t n_dirs = 0, n_append = 0, n_reopen = 0, n_evict_risk = 0, cache_size = 0;
  ChunkHints reg_hints = ChunkHints::NONE;
  bool zero_heavy = false;
  std::size_t max_gran = 6;
  bool careful = false;                  // flush explicitly before an array is closed
  bool huge = false;                     // the array may begin far beyond 2^31 (rebuilding uses 32-bit signed indices)
  std::size_t max_overlap = 0;           // overlap of registered chunks
  bool reg_null = false;                 // chunks registered with storage optimisation (they cannot be appended to when empty)

  World(pbt::Case& c) : c(c), root(c.dir()) { dir = fresh_dir("arr"); }
  bool other_fs = false;                 // new directories may also be on another file system
  std::size_t n_other = 0;
  std::filesystem::path fresh_dir(const std::string& name) { bool o = other_fs && c.chance(1, 8); if(o) { n_other++; } return (o ? c.dir2() : root) / (name + std::to_string(n_dirs++)); }

  // ---- configuration ----
  I draw_gran() {
    I g; bool some = false;
    if(c.chance(1, 3)) { g.fill(stor::INFTY); g[0] = 1; return g; }
    for(auto& x : g) { switch(c.weighted({3, 3, 3})) { case 0: x = stor::INFTY; break; case 1: x = 1; break; default: x = c.integer<std::size_t>(1, max_gran); } some = some || x != stor::INFTY; }
    if(!some) { g[c.integer<std::size_t>(0, D - 1)] = c.integer<std::size_t>(1, 4); }
    return g;
  }
  std::unique_ptr<DArr> make(const std::filesystem::path& p, bool note = true) {
    std::size_t cs = c.weighted({2, 3, 2, 2, 1, 1, 1, 1}); I el; for(auto& x : el) { x = c.small<std::size_t>(1, 7); } I g = draw_gran();
    if(note) { NOTE(c, "open " << p.filename().string() << " cache " << cs << " entries " << str<D>(el) << " granularity " << gran<D>(g)); cache_size = cs; }
    return std::make_unique<DArr>(p, cs, vec<D>(el), vec<D>(g));
  }
  void open() { d = make(dir); }

  // reserves a grid of cells around `origin`
  void plan(std::size_t max_cells_per_axis = 4, std::size_t max_extent = 0) {
    if(!max_extent) { max_extent = D == 1 ? 20 : D == 2 ? 6 : 4; if(c.chance(1, 120)) { max_extent = D == 1 ? 300 : D == 2 ? 24 : 9; max_cells_per_axis = std::min<std::size_t>(max_cells_per_axis, 2); max_gran = 400; } }
    bool zero_origin = c.chance(2, 3); for(auto& x : origin) { x = zero_origin ? 0 : huge && c.chance(1, 4) ? c.pick<std::size_t>({(1ull << 32) - 6, (1ull << 33) + 5, (1ull << 40) + 1}) : c.pick<std::size_t>({1, 3, 10, 1000, (1ull << 20) + 3}); }
    std::array<std::vector<std::size_t>, D> edges;
    bool regular = c.boolean();
    for(std::size_t i = 0; i < D; i++) {
      std::size_t n = c.small<std::size_t>(1, max_cells_per_axis), w = c.integer<std::size_t>(1, max_extent), e = origin[i];
      edges[i].push_back(e); for(std::size_t k = 0; k < n; k++) { e += regular ? w : c.integer<std::size_t>(1, max_extent); edges[i].push_back(e); }
    }
    I hi; for(std::size_t i = 0; i < D; i++) { hi[i] = edges[i].size() - 1; }
    for_box<D>(zero_ind<D>(), hi, [&](const I& k) { I lo, up; for(std::size_t i = 0; i < D; i++) { lo[i] = edges[i][k[i]]; up[i] = edges[i][k[i] + 1]; } todo.push_back({lo, up}); });
    // order of registration: as generated, reversed, or scattered
    switch(c.weighted({2, 1, 3})) { case 1: std::reverse(todo.begin(), todo.end()); break; case 2: { std::uint64_t s = c.draw(1 << 16); for(std::size_t i = todo.size(); i > 1; i--) { std::swap(todo[i - 1], todo[pbt::mix(s, i) % i]); } break; } default: break; }
    NOTE(c, "cells " << str<D>(hi) << " from " << str<D>(origin) << " to " << [&]{ I e; for(std::size_t i = 0; i < D; i++) { e[i] = edges[i].back(); } return str<D>(e); }());
  }
  Pattern draw_pattern() { Pattern p = Pattern::draw(c); if(zero_heavy && c.chance(1, 2)) { p.kind = c.boolean() ? 1 : 2; p.period = 2; } return p; }
  void store(const I& lo, const Model<D, V>& m) { for_box<D>(zero_ind<D>(), m.shape, [&](const I& i) { Val x; for(std::size_t v = 0; v < V; v++) { x[v] = m.at(i, v); } cells[add<D>(i, lo)] = x; }); }

  // ---- queries on the model ----
  bool bbox(I& lo, I& hi) const { if(blks.empty()) { lo = zero_ind<D>(); hi = lo; return false; } lo = blks[0].lo; hi = blks[0].hi; for(auto& b : blks) { for(std::size_t i = 0; i < D; i++) { lo[i] = std::min(lo[i], b.lo[i]); hi[i] = std::max(hi[i], b.hi[i]); } } return true; }
  bool tiled() const { I lo, hi; if(!bbox(lo, hi)) { return false; } return vol<D>(sub<D>(hi, lo)) == cells.size(); }
  static bool meet(const I& alo, const I& ahi, const I& blo, const I& bhi) { for(std::size_t i = 0; i < D; i++) { if(!(alo[i] < bhi[i] && blo[i] < ahi[i])) { return false; } } return true; }
  bool is_free(const I& lo, const I& hi, std::size_t except = ~0ull) const { for(std::size_t k = 0; k < blks.size(); k++) { if(k != except && meet(lo, hi, blks[k].lo, blks[k].lim)) { return false; } } for(auto& t : todo) { if(meet(lo, hi, t.first, t.second)) { return false; } } return true; }

  // ---- writing ----
  // registers a chunk in the next reserved cell (or a new one next to the array); `a` is the array it goes to
  bool next_cell(I& lo, I& lim) {
    if(!todo.empty()) { lo = todo.front().first; lim = todo.front().second; todo.erase(todo.begin()); return true; }
    I blo, bhi; if(!bbox(blo, bhi)) { return false; }
    std::size_t ax = c.integer<std::size_t>(0, D - 1); lo = blo; lim = bhi; lo[ax] = bhi[ax]; for(auto& b : blks) { lo[ax] = std::max(lo[ax], b.lim[ax]); } lim[ax] = lo[ax] + c.small<std::size_t>(1, 5);
    if(c.chance(1, 6)) { for(auto& x : lo) { x += 40; } for(std::size_t i = 0; i < D; i++) { lim[i] = lo[i] + 1 + i; } }   // far away: leaves a gap
    return vol<D>(sub<D>(lim, lo)) < 500 && is_free(lo, lim);
  }
  bool reg(DArr& a, bool partly = true) {
    I lo, lim; if(!next_cell(lo, lim)) { return false; }
    I hi = lim; std::size_t ov = 0;
    if(max_overlap > 0 && c.chance(1, 3)) { ov = c.integer<std::size_t>(1, max_overlap); }
    else if(partly && c.chance(1, 2)) { for(std::size_t i = 0; i < D; i++) { if(c.chance(1, 2)) { hi[i] = lo[i] + c.integer<std::size_t>(1, lim[i] - lo[i]); } } }
    Pattern p = draw_pattern(); auto m = make_block<D, V>(c, sub<D>(hi, lo), p);
    NOTE(c, "register " << str<D>(lo) << ".." << str<D>(hi) << " " << p.name() << (ov ? " overlap " + std::to_string(ov) : ""));
    if(ov == 0) { auto x = to_array<D, V>(m); if(c.boolean()) { a.RegisterChunk(x, vec<D>(lo), reg_hints); } else { a.RegisterChunk(x, vec<D>(lo), vec<D>(hi), 0, reg_hints); } }
    else {
      I big = m.shape, off; for(auto& x : big) { x += 2 * ov; } off.fill(ov);
      bool zero_rim = m.all_null() && c.boolean();
      Arr x(vec<D>(big), zero_rim ? 0.0f : 123.5f); for_box<D>(zero_ind<D>(), m.shape, [&](const I& i) { Vector<float, V> e; for(std::size_t v = 0; v < V; v++) { e[v] = m.at(i, v); } x[vec<D>(add<D>(i, off))] = e; });
      a.RegisterChunk(x, vec<D>(lo), vec<D>(hi), ov, reg_hints);
    }
    store(lo, m); blks.push_back({lo, hi, ov ? hi : lim, ov, reg_hints != ChunkHints::NONE && m.all_null()});
    return true;
  }
  bool append() {
    if(blks.empty()) { return false; }
    // prefer the most recent or an unfinished chunk
    std::size_t k = c.chance(1, 2) ? blks.size() - 1 : c.integer<std::size_t>(0, blks.size() - 1);
    std::size_t axis = c.chance(1, 2) ? 0 : c.integer<std::size_t>(0, D - 1);
    return append_to(k, axis, c.small<std::size_t>(1, 4));
  }
  bool append_to(std::size_t k, std::size_t axis, std::size_t t) {
    Blk& b = blks[k]; if(b.ov || b.maybe_null) { return false; }
    I lo = b.lo, hi = b.hi; lo[axis] = b.hi[axis];
    if(b.hi[axis] < b.lim[axis]) { t = std::min(t, b.lim[axis] - b.hi[axis]); hi[axis] += t; }
    else {
      hi[axis] += t; I l = b.lim; l[axis] = hi[axis];
      if(!is_free(b.lo, l, k) || vol<D>(sub<D>(hi, b.lo)) > 600) { return false; }
      b.lim = l;
    }
    Pattern p = draw_pattern(); auto m = make_block<D, V>(c, sub<D>(hi, lo), p); auto x = to_array<D, V>(m);
    NOTE(c, "append " << str<D>(lo) << ".." << str<D>(hi) << " along " << axis << " " << p.name());
    with_axis<D>(axis, [&]<std::size_t ax>() { d -> template AppendSlice<ax>(vec<D>(lo), x); });
    store(lo, m); b.hi = hi; n_append++;
    return true;
  }
  // an append that may be refused (chunk with overlap, dropped chunk) or has to be (slice of another shape); if it is, nothing changes
  bool dubious_append() {
    if(blks.empty()) { return false; }
    std::size_t k = c.integer<std::size_t>(0, blks.size() - 1), axis = c.integer<std::size_t>(0, D - 1); Blk& b = blks[k];
    I lo = b.lo, hi = b.hi; lo[axis] = b.hi[axis]; hi[axis] += c.integer<std::size_t>(1, 3);
    I l = b.lim; l[axis] = std::max(l[axis], hi[axis]); if(!is_free(b.lo, l, k)) { return false; }
    bool wrong = D > 1 && c.boolean(); if(!wrong && !b.ov && !b.maybe_null) { return false; }
    I sh = sub<D>(hi, lo); if(wrong) { std::size_t o = (axis + c.integer<std::size_t>(1, D - 1)) % D; if(sh[o] > 1 && c.boolean()) { sh[o] -= 1; } else { sh[o] += 1; } }
    Pattern p = draw_pattern(); auto m = make_block<D, V>(c, sh, p); auto x = to_array<D, V>(m);
    NOTE(c, "append slice of shape " << str<D>(sh) << " along " << axis << " to chunk " << str<D>(b.lo) << ".." << str<D>(b.hi) << " with overlap " << b.ov << (wrong ? " (does not fit)" : ""));
    bool refused = pbt::throws([&] { with_axis<D>(axis, [&]<std::size_t ax>() { d -> template AppendSlice<ax>(vec<D>(lo), x); }); });
    if(wrong) { CHECK(c, refused, "a slice that does not fit was appended"); }
    if(!refused) { store(lo, m); b.lim = l; b.hi = hi; n_append++; }
    return true;
  }
  // registers everything that is reserved and lets every unfinished chunk grow to its limit
  void complete() {
    NOTE(c, "complete");
    while(!todo.empty()) { if(!reg(*d, c.chance(1, 4))) { break; } }
    for(std::size_t k = 0; k < blks.size(); k++) { for(std::size_t ax = 0; ax < D; ax++) { while(blks[k].hi[ax] < blks[k].lim[ax]) { if(!append_to(k, ax, c.chance(1, 2) ? 100 : c.integer<std::size_t>(1, 3))) { blks[k].lim[ax] = blks[k].hi[ax]; } } } }
  }

  // ---- reading ----
  void same_elem(const VectorView<float, V>& got, const I& ind, const Val& want, const char* what) { for(std::size_t v = 0; v < V; v++) { float x = got[v]; if(!same_value(x, want[v])) { FAILS(c, what << ": element " << str<D>(ind) << "." << v << " is " << x << " expected " << want[v]); } } }
  void check_point(DArr& a, const I& ind, const Val& want, const char* what) { auto v = a[vec<D>(ind)]; same_elem(v, ind, want, what); }
  void check_shape(DArr& a, const char* what) {
    I lo, hi; bbox(lo, hi); I want = tiled() ? sub<D>(hi, lo) : zero_ind<D>(); I got = arr<D>(a.GetShape());
    CHECK(c, got == want, what << ": reported shape " << str<D>(got) << " expected " << str<D>(want));
  }
  I random_inside(const Blk& b) { I p; for(std::size_t i = 0; i < D; i++) { p[i] = c.integer<std::size_t>(b.lo[i], b.hi[i] - 1); } return p; }
  void read_points() {
    if(blks.empty()) { return; }
    std::size_t n = c.small<std::size_t>(1, 12); NOTE(c, "read " << n << " single elements");
    for(std::size_t k = 0; k < n; k++) { I p = random_inside(blks[c.integer<std::size_t>(0, blks.size() - 1)]); NOTE(c, "  element " << str<D>(p)); check_point(*d, p, cells.at(p), "single element"); }
  }
  // reads the region [lo, hi) into a larger array; elements that are not stored are left alone
  void check_region(DArr& a, const I& lo, const I& hi, const char* what) {
    I off, shp = sub<D>(hi, lo); for(std::size_t i = 0; i < D; i++) { off[i] = c.chance(1, 3) ? c.integer<std::size_t>(0, 2) : 0; shp[i] += off[i] + (c.chance(1, 3) ? 1 : 0); }
    Arr out(vec<D>(shp), 77.25f); a.FillArray(out, vec<D>(lo), vec<D>(hi), vec<D>(off));
    for_box<D>(zero_ind<D>(), shp, [&](const I& i) {
      bool in = true; for(std::size_t k = 0; k < D; k++) { in = in && i[k] >= off[k] && i[k] - off[k] < hi[k] - lo[k]; }
      auto v = out[vec<D>(i)]; Val untouched; untouched.fill(77.25f);
      if(!in) { same_elem(v, i, untouched, "rim of the output block"); return; }
      I g = add<D>(sub<D>(i, off), lo); auto it = cells.find(g);
      if(it != cells.end()) { same_elem(v, g, it -> second, what); }
    });
  }
  void read_region() {
    I lo, hi; if(!bbox(lo, hi)) { return; }
    I a, b; for(std::size_t i = 0; i < D; i++) { a[i] = c.integer<std::size_t>(lo[i], hi[i] - 1); b[i] = c.integer<std::size_t>(a[i] + 1, hi[i]); if(b[i] - a[i] > 30) { b[i] = a[i] + 30; } }
    NOTE(c, "read region " << str<D>(a) << ".." << str<D>(b)); check_region(*d, a, b, "region");
  }
  void check_loop(DArr& a, const char* what) {
    std::size_t n = 0; std::set<I> seen;
    auto w = [&](const Vector<std::size_t, D>& ind, const typename DArr::view_t& e) { I i = arr<D>(ind); auto it = cells.find(i); CHECK(c, it != cells.end(), what << ": iteration visits " << str<D>(i) << " which is not stored"); CHECK(c, seen.insert(i).second, what << ": iteration visits " << str<D>(i) << " twice"); same_elem(e, i, it -> second, what); n++; };
    a.index_loop_over_elements(w);
    if(tiled()) { CHECK(c, n == cells.size(), what << ": iteration visits " << n << " elements, expected " << cells.size()); }
  }
  void full(DArr& a, const char* what) {
    check_shape(a, what);
    bool reverse = c.boolean(); 
    if(reverse) { for(auto it = cells.rbegin(); it != cells.rend(); ++it) { check_point(a, it -> first, it -> second, what); } } else { for(auto& [i, v] : cells) { check_point(a, i, v, what); } }
    for(auto& b : blks) { check_region(a, b.lo, b.hi, what); }
    if(tiled()) { I lo, hi; bbox(lo, hi); check_region(a, lo, hi, what); check_loop(a, what); }
  }

  // ---- housekeeping ----
  void flush() { NOTE(c, "flush"); d -> Flush(); }
  void reopen() { if(careful) { flush(); } NOTE(c, "close"); d.reset(); open(); n_reopen++; }
  // a second reader on the flushed array
  void reader() { NOTE(c, "flush and read through a second instance"); d -> Flush(); auto r = make(dir); full(*r, "second instance"); }
  void move() {
    auto to = fresh_dir("moved"); if(c.boolean()) { std::filesystem::create_directory(to); } NOTE(c, "move to " << to.filename().string() << (to.parent_path() == dir.parent_path() ? "" : " on the other file system")); auto old = dir;
    d -> Move(to); dir = to; CHECK(c, !std::filesystem::exists(old), "the old directory still exists after moving"); CHECK(c, d -> GetWorkdir() == to, "reported directory after moving");
    if(c.chance(1, 3)) { NOTE(c, "read the moved array through a second instance"); auto r = make(to); full(*r, "second instance after moving"); }
  }
  void import() {
    auto from = fresh_dir("imp"); bool mv = c.boolean();
    World<D, V> w(c); w.root = root; w.dir = from; w.n_dirs = 1000 + n_dirs * 10; w.todo = todo; w.reg_hints = reg_hints; w.max_overlap = max_overlap; w.zero_heavy = zero_heavy; w.blks = blks;
    NOTE(c, "build array to import" << (mv ? " by moving" : " by copying") << (from.parent_path() == dir.parent_path() ? "" : " from the other file system"));
    w.d = w.make(from, false);
    std::size_t before = w.blks.size(), n = c.integer<std::size_t>(1, 3); for(std::size_t k = 0; k < n; k++) { w.reg(*w.d); }
    todo = w.todo; w.todo.clear();
    std::vector<Blk> mine(w.blks.begin() + (long)before, w.blks.end()); w.blks = mine;
    if(c.chance(1, 3) && w.tiled() && *std::max_element(origin.begin(), origin.end()) < (1ull << 31)) {   // afterwards its chunks are not numbered from zero any more
      I lo, hi; w.bbox(lo, hi); I s = w.draw_chunk_shape(sub<D>(hi, lo)); NOTE(c, "rebuild the array to import with chunks " << str<D>(s)); w.d -> RebuildChunks(vec<D>(s), w.fresh_dir("tmp"), reg_hints);
      w.blks.clear(); for(auto& g : grid(lo, hi, s)) { w.blks.push_back({g.first, g.second, g.second, 0, reg_hints != ChunkHints::NONE}); } mine = w.blks;
    }
    if(careful) { w.d -> Flush(); }
    w.d.reset();
    NOTE(c, "import " << mine.size() << " chunks"); d -> Import(from, mv);
    for(auto& b : mine) { blks.push_back(b); } for(auto& [i, v] : w.cells) { cells[i] = v; }
    if(mv) { for(auto& e : std::filesystem::directory_iterator(from)) { CHECK(c, false, "file " << e.path().filename().string() << " left behind by import with move"); } }
    else { auto r = w.make(from, false); w.full(*r, "imported array (source)"); }
    if(c.boolean()) { check_shape(*d, "just imported"); check_loop(*d, "just imported"); }
    if(c.boolean()) for(auto& [i, v] : w.cells) { check_point(*d, i, v, "just imported"); }
  }
  static std::vector<ChunkMetadata<D>> read_index(const std::filesystem::path& p) { std::fstream f(p / "index.bin", std::ios::in | std::ios::binary); return stor::Traits<std::vector<ChunkMetadata<D>>>::deserialize(f); }
  // after a flush: the files in the directory are exactly those of the chunks in the index
  void check_files(const std::filesystem::path& p, const char* what) {
    std::set<std::string> want{"index.bin"}; for(auto& m : read_index(p)) { if(m.chunk_type == ChunkType::specified) { CHECK(c, want.insert(m.filepath.string() + ".chunk").second, what << ": two chunks share a file"); } }
    std::set<std::string> got; for(auto& e : std::filesystem::directory_iterator(p)) { got.insert(e.path().filename().string()); }
    for(auto& g : got) { CHECK(c, want.count(g), what << ": file " << g << " does not belong to the array"); } for(auto& w : want) { CHECK(c, got.count(w), what << ": file " << w << " is missing"); }
  }

  void swap_axes() {
    if constexpr(D > 1) {
      std::size_t a = 0, b = 1; if(D == 3) { switch(c.integer(0, 2)) { case 0: break; case 1: b = 2; break; default: a = 1; b = 2; } }
      NOTE(c, "swap axes " << a << " and " << b);
      if(a == 0 && b == 1) { d -> template SwapAxes<0, 1>(); }
      if constexpr(D == 3) { if(a == 0 && b == 2) { d -> template SwapAxes<0, 2>(); } if(a == 1) { d -> template SwapAxes<1, 2>(); } }
      auto sw = [&](I& i) { std::swap(i[a], i[b]); };
      std::map<I, Val> nc; for(auto& [i, v] : cells) { I j = i; sw(j); nc[j] = v; } cells.swap(nc);
      for(auto& x : blks) { sw(x.lo); sw(x.hi); sw(x.lim); } for(auto& t : todo) { sw(t.first); sw(t.second); } sw(origin);
    }
  }

  // ---- rebuilding ----
  I draw_chunk_shape(const I& ext) { I s; for(std::size_t i = 0; i < D; i++) { switch(c.weighted({4, 2, 2})) { case 0: s[i] = c.integer<std::size_t>(1, ext[i]); break; case 1: s[i] = ext[i] + c.integer<std::size_t>(0, 3); break; default: s[i] = c.integer<std::size_t>(1, std::min<std::size_t>(ext[i], 3)); break; } }
    // bounded number of chunks
    auto count = [&]{ std::size_t n = 1; for(std::size_t i = 0; i < D; i++) { n *= (ext[i] + s[i] - 1) / s[i]; } return n; };
    while(count() > 60) { for(auto& x : s) { x = x * 2; } } return s; }
  static std::vector<std::pair<I, I>> grid(const I& lo, const I& hi, const I& s) { std::vector<std::pair<I, I>> r; I n; for(std::size_t i = 0; i < D; i++) { n[i] = (hi[i] - lo[i] + s[i] - 1) / s[i]; } for_box<D>(zero_ind<D>(), n, [&](const I& k) { I a, b; for(std::size_t i = 0; i < D; i++) { a[i] = lo[i] + k[i] * s[i]; b[i] = std::min(a[i] + s[i], hi[i]); } r.push_back({a, b}); }); return r; }

  // boundary rule: a fixed function of the index (and, for the other kind, of a neighbouring element of the array)
  using SI = std::array<int, D>;
  static Val rule(std::uint64_t salt, const SI& i) { Val r; std::uint64_t h = salt + 17; for(auto x : i) { h = pbt::mix(h, (std::uint64_t)(std::int64_t)x); } for(std::size_t v = 0; v < V; v++) { r[v] = (h >> 60) == 0 ? 0.0f : (float)((h >> (8 * v)) % 5000) + 0.25f; } return r; }
  I clamp_in(const SI& i, const I& lo, const I& hi) { I r; for(std::size_t k = 0; k < D; k++) { r[k] = (std::size_t)std::clamp<long>(i[k], (long)lo[k], (long)hi[k] - 1); } return r; }
  // what a rim sample outside of [lo, hi) has to be; `kind` 0: rule(index), 1: element at the nearest index inside + rule, 2: zero
  Val boundary_value(int kind, std::uint64_t salt, const SI& i, const I& lo, const I& hi) { if(kind == 2) { Val z; z.fill(0.0f); return z; } Val r = rule(salt, i); if(kind == 1) { return cells.at(clamp_in(i, lo, hi)); } return r; }

  // calls f(evaluator) with a boundary evaluator of the requested kind
  template <class F> void with_evaluator(int kind, std::uint64_t salt, const I& lo, const I& hi, F&& f) {
    using SV = Vector<int, D>;
    if(kind == 0) { auto ev = [salt](Arr&, const SV&, const SV&, const SV& ind, typename DArr::view_t out) { SI i; for(std::size_t k = 0; k < D; k++) { i[k] = ind[k]; } Val r = rule(salt, i); Vector<float, V> x; for(std::size_t v = 0; v < V; v++) { x[v] = r[v]; } out = x; }; f(ev); }
    else if(kind == 1) { auto ev = [this, lo, hi](DArr& a, const SV& ind, typename DArr::view_t out) { SI i; for(std::size_t k = 0; k < D; k++) { i[k] = ind[k]; } auto src = a[vec<D>(clamp_in(i, lo, hi))]; Vector<float, V> x; for(std::size_t v = 0; v < V; v++) { x[v] = src[v]; } out = x; }; f(ev); }
    else { auto ev = [](DArr&, const SV&, typename DArr::view_t out) { Vector<float, V> x(0.0f); out = x; }; f(ev); }
  }

  // every stored chunk of the array in `p` (flushed): its core and rim agree with the elements (shifted) and the boundary rule
  void check_rims(const std::filesystem::path& p, std::size_t ov, const I& glo, const I& ghi, const std::function<Val(const SI&)>& outside, const std::array<long, D>& shift, const char* what) {
    stor::NDVecArrayStreamer<NDVecArray, float, D, V> st(10);
    for(auto& m : read_index(p)) {
      CHECK(c, m.overlap == ov, what << ": chunk overlap " << m.overlap << " expected " << ov);
      I lo = arr<D>(m.start_ind), hi = arr<D>(m.end_ind); I shp = sub<D>(hi, lo); for(auto& x : shp) { x += 2 * ov; }
      CHECK(c, arr<D>(m.shape) == sub<D>(hi, lo), what << ": shape in the index");
      Arr a(vec<D>(shp), 0.0f);
      if(m.chunk_type == ChunkType::specified) { std::fstream f(p / (m.filepath.string() + ".chunk"), std::ios::in | std::ios::binary); CHECK(c, f.good(), what << ": chunk file missing"); f.seekg(m.start_pos); st.deserialize(f, a); }
      CHECK(c, arr<D>(a.GetShape()) == shp, what << ": stored chunk has shape " << str<D>(arr<D>(a.GetShape())) << " expected " << str<D>(shp));
      for_box<D>(zero_ind<D>(), shp, [&](const I& k) {
        SI i; bool in = true; for(std::size_t q = 0; q < D; q++) { i[q] = (int)((long)k[q] + (long)lo[q] - (long)ov - shift[q]); in = in && i[q] >= (int)glo[q] && i[q] < (int)ghi[q]; }
        Val want; if(in) { I u; for(std::size_t q = 0; q < D; q++) { u[q] = (std::size_t)i[q]; } want = cells.at(u); } else { want = outside(i); }
        auto got = a[vec<D>(k)];
        for(std::size_t v = 0; v < V; v++) { float x = got[v]; if(!same_value(x, want[v])) { std::string is; for(auto q : i) { is += std::to_string(q) + " "; } FAILS(c, what << ": chunk " << str<D>(lo) << ".." << str<D>(hi) << ": sample at " << is << "(" << (in ? "inside" : "outside") << ") component " << v << " is " << x << " expected " << want[v]); } }
      });
    }
  }
};
