// S06: arrays written to a stream are read back unchanged, and appended slices read back as the concatenation (or are refused).
#include "arr.hh"
#include "NDVecArrayStreamer.hh"

static std::size_t INF() { return stor::INFTY; }
template <std::size_t D> std::string gstr(const SInd<D>& g) { std::string s = "["; for(std::size_t i = 0; i < D; i++) { s += (i ? "," : "") + (g[i] == INF() ? std::string("auto") : std::to_string(g[i])); } return s + "]"; }
static stor::StreamerMode draw_mode(pbt::Case& c) { return c.boolean() ? stor::StreamerMode::null_suppressed : stor::StreamerMode::dense; }
static const char* mstr(stor::StreamerMode m) { return m == stor::StreamerMode::dense ? "dense" : "null-suppressed"; }

template <std::size_t D> SInd<D> draw_shape(pbt::Case& c) { SInd<D> s; for(auto& x : s) { x = c.small<std::size_t>(1, D == 1 ? 60 : D == 2 ? 14 : 8); } return s; }
template <std::size_t D> SInd<D> draw_granularity(pbt::Case& c, const SInd<D>& s) {
  SInd<D> g; bool some = false;
  for(std::size_t i = 0; i < D; i++) {
    switch(c.weighted({3, 2, 3, 1, 2})) {
      case 0: g[i] = INF(); break;
      case 1: g[i] = 1; break;
      case 2: { std::vector<std::size_t> divs; for(std::size_t k = 1; k <= s[i]; k++) { if(s[i] % k == 0) { divs.push_back(k); } } g[i] = divs[c.integer<std::size_t>(0, divs.size() - 1)]; break; }
      case 3: g[i] = s[i] + c.integer<std::size_t>(1, 3); break;
      default: g[i] = c.integer<std::size_t>(1, s[i]); break;
    }
    some = some || g[i] != INF();
  }
  if(!some) { g[c.integer<std::size_t>(0, D - 1)] = 1 + c.integer<std::size_t>(0, 4); }
  return g;
}

// an array with the given contents that is either free-standing or a window into a larger one
template <std::size_t D, std::size_t V, class F> void with_array(pbt::Case& c, const Model<D, V>& m, F&& f) {
  if(c.chance(1, 4)) {
    SInd<D> big = m.shape, off; for(std::size_t i = 0; i < D; i++) { off[i] = c.integer<std::size_t>(0, 2); big[i] += off[i] + c.integer<std::size_t>(0, 2); }
    NDVecArray<float, D, V> parent(vec<D>(big), -7.5f);
    for_box<D>(zero_ind<D>(), m.shape, [&](const SInd<D>& i) { Vector<float, V> x; for(std::size_t v = 0; v < V; v++) { x[v] = m.at(i, v); } parent[vec<D>(add<D>(i, off))] = x; });
    auto view = parent.View(vec<D>(off), vec<D>(add<D>(off, m.shape)));
    NOTE(c, "  (from a window at " << str<D>(off) << " of " << str<D>(big) << ")");
    f(view);
  } else { auto a = to_array<D, V>(m); f(a); }
}

template <std::size_t D, std::size_t V> Model<D, V> concat(const Model<D, V>& a, const Model<D, V>& b, std::size_t axis) {
  SInd<D> s = a.shape; s[axis] += b.shape[axis]; Model<D, V> r(s);
  for_box<D>(zero_ind<D>(), s, [&](const SInd<D>& i) { for(std::size_t v = 0; v < V; v++) { SInd<D> j = i; if(i[axis] < a.shape[axis]) { r.at(i, v) = a.at(j, v); } else { j[axis] -= a.shape[axis]; r.at(i, v) = b.at(j, v); } } });
  return r;
}

template <std::size_t D, std::size_t V> void history(pbt::Case& c) {
  using Streamer = stor::NDVecArrayStreamer<NDVecArray, float, D, V>;
  std::filesystem::path path = c.dir() / "arr.bin";
  Streamer streamer(c.small<std::size_t>(1, 5000));
  std::size_t ntargets = 0;

  // the target keeps whatever the previous read left in it
  NDVecArray<float, D, V> target(vec<D>(draw_shape<D>(c)), 3.25f);
  auto read_one = [&](std::fstream& f, const Model<D, V>& m, const char* what) {
    ntargets++;
    if(c.chance(1, 3)) { NDVecArray<float, D, V> fresh(vec<D>(draw_shape<D>(c)), 9.0f); streamer.deserialize(f, fresh); check_array<D, V>(c, fresh, m, what); }
    else { streamer.deserialize(f, target); check_array<D, V>(c, target, m, what); }
    CHECK(c, f.good(), what << ": stream in error state after reading");
  };

  // some arrays one after the other; the last one may later be extended
  std::size_t before = c.chance(1, 3) ? c.integer<std::size_t>(1, 2) : 0;
  std::vector<Model<D, V>> arrays; std::vector<std::streamoff> pos; SInd<D> g{}; bool partial = false;
  {
    std::fstream f(path, std::ios::out | std::ios::binary);
    if(c.chance(1, 3)) { std::string pad(c.integer<std::size_t>(1, 40), '#'); f.write(pad.data(), (std::streamsize)pad.size()); NOTE(c, "file starts with " << pad.size() << " other bytes"); }
    for(std::size_t k = 0; k <= before; k++) {
      SInd<D> s = draw_shape<D>(c); Pattern p = Pattern::draw(c); auto m = make_block<D, V>(c, s, p); g = draw_granularity<D>(c, s); auto mode = draw_mode(c);
      NOTE(c, "write " << str<D>(s) << " (" << p.name() << ") granularity " << gstr<D>(g) << " " << mstr(mode));
      pos.push_back(f.tellp());
      with_array<D, V>(c, m, [&](auto& a) { streamer.serialize(f, a, vec<D>(g), mode); });
      arrays.push_back(m);
      partial = false; for(std::size_t i = 0; i < D; i++) { partial = partial || (g[i] < s[i] && s[i] % g[i]); }
    }
    f.close(); CHECK(c, !f.fail(), "writing failed");
  }
  auto read_all = [&](const char* what) { std::fstream f(path, std::ios::in | std::ios::binary); f.seekg(pos[0]); for(std::size_t k = 0; k < arrays.size(); k++) { CHECK(c, f.tellg() == pos[k], what << ": array " << k << " begins at " << pos[k] << " but the reader is at " << f.tellg()); read_one(f, arrays[k], what); } };
  read_all("after writing");

  // append history on the last array
  bool finalised = false, whole = !partial && g[0] <= arrays.back().shape[0] && arrays.back().shape[0] % g[0] == 0;
  std::size_t n = 0, accepted = 0, refused = 0;
  while(c.more(n, 8, 3)) {
    pbt::Case::Span span(c); n++;
    auto& cur = arrays.back();
    if(c.chance(1, 12)) { NOTE(c, "mark as final"); std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary); f.seekg(pos.back()); streamer.mark_as_final(f); f.close(); finalised = true; read_all("after mark_as_final"); continue; }
    std::size_t axis = c.chance(1, 2) ? 0 : c.integer<std::size_t>(0, D - 1);
    SInd<D> s = cur.shape;
    s[axis] = (c.boolean() && g[axis] != INF()) ? g[axis] * c.integer<std::size_t>(1, 2) : c.small<std::size_t>(1, 6);
    bool compatible = true;
    if(D > 1 && c.chance(1, 12)) { std::size_t other = (axis + c.integer<std::size_t>(1, D - 1)) % D; s[other] = c.boolean() || s[other] == 1 ? s[other] + 1 : s[other] - 1; compatible = false; }
    if(vol<D>(s) > 4000) { continue; }
    Pattern p = Pattern::draw(c); auto m = make_block<D, V>(c, s, p); auto mode = draw_mode(c);
    NOTE(c, "append " << str<D>(s) << " (" << p.name() << ") along axis " << axis << " " << mstr(mode));
    bool ok = true;
    {
      std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary); f.seekg(pos.back());
      try { with_array<D, V>(c, m, [&](auto& a) { streamer.append_slice(f, a, axis, mode); }); } catch(const std::exception& e) { ok = false; NOTE(c, "  refused: " << e.what()); }
      f.close();
    }
    if(ok) {
      CHECK(c, compatible, "slice of incompatible shape was accepted"); CHECK(c, !finalised, "array marked as final was extended");
      arrays.back() = concat<D, V>(cur, m, axis); accepted++;
      if(axis != 0 || s[0] % g[0] != 0) { whole = false; }
    } else {
      refused++;
      CHECK(c, !(whole && compatible && !finalised && axis == 0 && s[0] % g[0] == 0), "whole granules along the leading axis were refused");
    }
    read_all(ok ? "after append" : "after refused append");
  }
  c.nontrivial(vol<D>(arrays.back().shape) > 3);
  c.label_if(accepted > 0, "appended"); c.label_if(accepted > 1, "appended repeatedly"); c.label_if(refused > 0, "refusals"); c.label_if(partial, "partial chunks"); c.label_if(before > 0, "several arrays in the file");
  // granularity that is automatic along every axis is refused
  if(c.chance(1, 30)) { std::fstream f(path, std::ios::out | std::ios::binary); SInd<D> all; all.fill(INF()); auto a = to_array<D, V>(arrays[0]); bool thrown = false; try { streamer.serialize(f, a, vec<D>(all), draw_mode(c)); } catch(const std::runtime_error&) { thrown = true; } CHECK(c, thrown, "granularity automatic along all axes accepted"); }
}
PROPERTY(d1v1, 2) { history<1, 1>(c); }
PROPERTY(d1v3, 1) { history<1, 3>(c); }
PROPERTY(d2v1, 2) { history<2, 1>(c); }
PROPERTY(d2v2, 2) { history<2, 2>(c); }
PROPERTY(d3v1, 2) { history<3, 1>(c); }
PROPERTY(d3v2, 3) { history<3, 2>(c); }
PROPERTY(d3v3, 1) { history<3, 3>(c); }

// runs of zeros longer than 2^16 elements, and large arrays
PROPERTY(long_runs, 1) {
  if(!c.chance(1, 40)) { c.discard(); }
  SInd<2> s{c.integer<std::size_t>(1, 300), c.integer<std::size_t>(200, 700)};
  Model<2, 2> m(s); std::size_t k = c.integer<std::size_t>(0, 4); for(std::size_t i = 0; i < k; i++) { m.data[c.integer<std::size_t>(0, m.data.size() - 1)] = (float)(i + 1); }
  SInd<2> g{c.pick<std::size_t>({1, 7, 300, INF()}), c.pick<std::size_t>({64, 701, 13})};
  NOTE(c, "array " << str<2>(s) << " with " << k << " non-zero components, granularity " << gstr<2>(g));
  stor::NDVecArrayStreamer<NDVecArray, float, 2, 2> st(1); std::filesystem::path path = c.dir() / "a.bin"; auto a = to_array<2, 2>(m);
  { std::fstream f(path, std::ios::out | std::ios::binary); st.serialize(f, a, vec<2>(g), stor::StreamerMode::null_suppressed); }
  NDVecArray<float, 2, 2> b(Vector<std::size_t, 2>(1)); { std::fstream f(path, std::ios::in | std::ios::binary); st.deserialize(f, b); }
  check_array<2, 2>(c, b, m, "read back"); c.nontrivial(true);
}
