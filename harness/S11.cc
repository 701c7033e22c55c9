// S11: downsampling in pieces equals downsampling the whole.
#include "arr.hh"
#include "NDVecArrayOperations.hh"

template <std::size_t D, std::size_t V> void pieces(pbt::Case& c) {
  SInd<D> sh, start, f; std::size_t v = 1;
  bool far = c.chance(1, 10);
  for(std::size_t i = 0; i < D; i++) {
    sh[i] = c.small<std::size_t>(1, std::min<std::size_t>(D == 1 ? 60 : 14, 500 / v)); v *= sh[i];
    start[i] = c.integer<std::size_t>(0, 25) + (far ? c.pick<std::size_t>({0, 1000003, (1ull << 32) - 7, (1ull << 33) + 3, (1ull << 53) + 1}) : 0);
    f[i] = c.weighted({5, 1}) == 0 ? c.integer<std::size_t>(1, D == 1 ? 6 : 4) : c.integer<std::size_t>(1, 30);
  }
  Pattern p = Pattern::draw(c);
  Model<D, V> m = make_block<D, V>(c, sh, p); auto a = to_array<D, V>(m);
  NOTE(c, "array " << str<D>(sh) << " starting at " << str<D>(start) << " factor " << str<D>(f) << " content " << p.name());

  // reference: scan all indices and keep those that are multiples
  auto kept = [&](const SInd<D>& lo, const SInd<D>& ext) {
    std::map<SInd<D>, std::array<float, V>> r;
    for_box<D>(zero_ind<D>(), ext, [&](const SInd<D>& i) {
      SInd<D> g = add<D>(add<D>(i, lo), start), d; bool ok = true;
      for(std::size_t k = 0; k < D; k++) { ok = ok && g[k] % f[k] == 0; d[k] = g[k] / f[k]; }
      if(ok) { std::array<float, V> x; for(std::size_t q = 0; q < V; q++) { x[q] = m.at(add<D>(i, lo), q); } r[d] = x; }
    });
    return r;
  };
  auto run = [&](const SInd<D>& lo, const SInd<D>& ext, const NDVecArray<float, D, V>& src, std::map<SInd<D>, std::array<float, V>>& out) {
    NDVecArray<float, D, V> res(Ind<D>(c.integer<std::size_t>(1, 3)), 7.0f); Ind<D> rs;
    Downsampling::downsample(src, vec<D>(add<D>(lo, start)), vec<D>(f), res, rs);
    SInd<D> shp = arr<D>(res.GetShape()), st = arr<D>(rs);
    SInd<D> rep = arr<D>(Downsampling::get_downsampled_shape(vec<D>(add<D>(lo, start)), vec<D>(ext), vec<D>(f)));
    CHECK(c, rep == shp, "reported shape " << str<D>(rep) << " but result has shape " << str<D>(shp));
    auto want = kept(lo, ext);
    CHECK(c, vol<D>(shp) == want.size(), "piece at " << str<D>(lo) << " extent " << str<D>(ext) << " keeps " << vol<D>(shp) << " elements, expected " << want.size());
    if(!want.empty()) { CHECK(c, st == want.begin() -> first, "piece at " << str<D>(lo) << ": start reported as " << str<D>(st) << " expected " << str<D>(want.begin() -> first)); }
    for_box<D>(zero_ind<D>(), shp, [&](const SInd<D>& i) {
      SInd<D> d = add<D>(i, st);
      CHECK(c, want.count(d), "element " << str<D>(d) << " should not be kept");
      CHECK(c, !out.count(d), "element " << str<D>(d) << " delivered twice");
      std::array<float, V> x; for(std::size_t q = 0; q < V; q++) { x[q] = res[vec<D>(i)][q]; CHECK(c, same_value(x[q], want[d][q]), "element " << str<D>(d) << " is " << x[q] << " expected " << want[d][q]); }
      out[d] = x;
    });
  };
  std::map<SInd<D>, std::array<float, V>> whole, parts;
  run(zero_ind<D>(), sh, a, whole);
  // random rectangular partition by recursive bisection
  std::vector<std::pair<SInd<D>, SInd<D>>> todo = {{zero_ind<D>(), sh}}; std::size_t cuts = 0, np = 0;
  while(!todo.empty()) {
    auto [lo, ext] = todo.back(); todo.pop_back();
    bool can = false; for(auto e : ext) { can = can || e > 1; }
    if(can && cuts < 12 && c.chance(3, 4)) {
      std::size_t ax = c.integer<std::size_t>(0, D - 1); while(ext[ax] <= 1) { ax = (ax + 1) % D; }
      std::size_t at = c.integer<std::size_t>(1, ext[ax] - 1); cuts++;
      SInd<D> l2 = lo, e1 = ext, e2 = ext; l2[ax] += at; e1[ax] = at; e2[ax] -= at;
      todo.push_back({l2, e2}); todo.push_back({lo, e1}); continue;
    }
    np++;
    NDVecArray<float, D, V> piece(vec<D>(ext), 0.0f); piece.fill_from(a, vec<D>(lo), vec<D>(add<D>(lo, ext)), Ind<D>((std::size_t)0));
    run(lo, ext, piece, parts);
  }
  CHECK(c, parts.size() == whole.size(), "pieces together keep " << parts.size() << " elements, the whole " << whole.size());
  for(auto& [k, x] : whole) { CHECK(c, parts.count(k), "element " << str<D>(k) << " missing from the pieces"); for(std::size_t q = 0; q < V; q++) { CHECK(c, same_value(x[q], parts[k][q]), "element " << str<D>(k)); } }
  c.nontrivial(np > 1 && whole.size() > 1);
  c.label_if(whole.empty(), "nothing kept"); c.label_if(np > 1, "several pieces");
}
PROPERTY(d1, 1) { pieces<1, 1>(c); }
PROPERTY(d2, 2) { pieces<2, 2>(c); }
PROPERTY(d3, 3) { pieces<3, 2>(c); }
PROPERTY(d3v1, 1) { pieces<3, 1>(c); }
