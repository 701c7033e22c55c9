// S12: index iteration covers each region exactly once; region containment / overlap agree with index sets.
#include "arr.hh"
#include "IteratorUtils.hh"
#include "ChunkUtils.hh"

template <class N, std::size_t D> using Arr = std::array<N, D>;
template <class N, std::size_t D> Vector<N, D> tov(const Arr<N, D>& a) { Vector<N, D> r; for(std::size_t i = 0; i < D; i++) { r[i] = a[i]; } return r; }
template <class N, std::size_t D> Arr<N, D> toa(const Vector<N, D>& a) { Arr<N, D> r; for(std::size_t i = 0; i < D; i++) { r[i] = a[i]; } return r; }
template <class N, std::size_t D> std::string show(const Arr<N, D>& a) { std::string s = "["; for(std::size_t i = 0; i < D; i++) { s += (i ? "," : "") + std::to_string(a[i]); } return s + "]"; }

// independent enumeration: position number -> index by division (no nested loops)
template <class N, std::size_t D> std::vector<Arr<N, D>> enumerate(const Arr<N, D>& lo, const Arr<N, D>& hi) {
  std::size_t n = 1; for(std::size_t i = 0; i < D; i++) { if(!(lo[i] < hi[i])) { return {}; } n *= (std::size_t)(hi[i] - lo[i]); }
  std::vector<Arr<N, D>> r(n);
  for(std::size_t k = 0; k < n; k++) { std::size_t rest = k; for(std::size_t d = D; d-- > 0; ) { std::size_t e = (std::size_t)(hi[d] - lo[d]); r[k][d] = (N)(lo[d] + (N)(rest % e)); rest /= e; } }
  return r;
}

template <class N, std::size_t D> void draw_region(pbt::Case& c, Arr<N, D>& lo, Arr<N, D>& hi, bool allow_empty) {
  N maxe = D == 1 ? 40 : D == 2 ? 12 : D == 3 ? 7 : 5;
  bool far = c.chance(1, 8);
  for(std::size_t i = 0; i < D; i++) {
    lo[i] = c.integer<N>(std::is_signed_v<N> ? (N)-9 : (N)0, (N)9);
    if(far) { if constexpr(std::is_signed_v<N>) { lo[i] += (N)c.pick({0, 1000, 1000000, -1000000, 2000000000, -2000000000}); } else { lo[i] += (N)c.pick<std::uint64_t>({0, 1000, 1000000, (1ull << 32) - 5, (1ull << 33) + 7, (1ull << 53) + 1}); } }
    N e = c.small<N>(1, maxe);
    hi[i] = lo[i] + e;
    if(allow_empty && c.chance(1, 12)) { hi[i] = lo[i] > (N)2 ? (N)(lo[i] - c.integer<N>(0, 2)) : lo[i]; }
  }
}

template <class N, std::size_t D> void elements(pbt::Case& c) {
  Arr<N, D> lo, hi; draw_region<N, D>(c, lo, hi, true);
  NOTE(c, "elements " << (show<N, D>(lo)) << " .. " << (show<N, D>(hi)));
  auto want = enumerate<N, D>(lo, hi);
  std::size_t k = 0;
  auto visit = [&](const Vector<N, D>& ind) {
    CHECK(c, k < want.size(), "more than " << want.size() << " indices visited; extra " << (show<N, D>(toa<N, D>(ind))));
    CHECK(c, (toa<N, D>(ind)) == want[k], "visit " << k << " is " << (show<N, D>(toa<N, D>(ind))) << " expected " << (show<N, D>(want[k])));
    k++;
  };
  IteratorUtils::index_loop_over_elements(tov<N, D>(lo), tov<N, D>(hi), visit);
  CHECK(c, k == want.size(), "visited " << k << " of " << want.size());
  c.nontrivial(want.size() > 3);
  c.label_if(want.empty(), "empty region");
}

template <class N, std::size_t D> void chunks(pbt::Case& c) {
  Arr<N, D> lo, hi, sz; draw_region<N, D>(c, lo, hi, true);
  bool zero_based = c.chance(1, 4);
  for(std::size_t i = 0; i < D; i++) {
    if(zero_based) { hi[i] = hi[i] > lo[i] ? hi[i] - lo[i] : 0; lo[i] = 0; }
    switch(c.weighted({6, 1, 1})) {
      case 0: sz[i] = c.small<N>(1, 12); break;
      case 1: sz[i] = hi[i] > lo[i] ? (N)(hi[i] - lo[i]) : (N)3; break;
      default: sz[i] = zero_based ? std::numeric_limits<N>::max() : (N)5000; break;
    }
  }
  NOTE(c, "chunks of " << (show<N, D>(sz)) << " over " << (show<N, D>(lo)) << " .. " << (show<N, D>(hi)));
  auto want = enumerate<N, D>(lo, hi);
  std::map<Arr<N, D>, int> seen; std::size_t nch = 0; std::vector<Arr<N, D>> starts;
  auto visit = [&](const Vector<N, D>& b, const Vector<N, D>& e) {
    Arr<N, D> cb = toa<N, D>(b), ce = toa<N, D>(e);
    nch++;
    CHECK(c, nch <= want.size(), "too many chunks");
    for(std::size_t i = 0; i < D; i++) {
      CHECK(c, cb[i] < ce[i] && ce[i] - cb[i] <= sz[i], "chunk " << (show<N, D>(cb)) << ".." << (show<N, D>(ce)) << " empty or larger than requested");
      CHECK(c, cb[i] >= lo[i] && ce[i] <= hi[i], "chunk " << (show<N, D>(cb)) << ".." << (show<N, D>(ce)) << " leaves the region");
    }
    starts.push_back(cb);
    for(auto& i : enumerate<N, D>(cb, ce)) { seen[i]++; }
  };
  IteratorUtils::index_loop_over_chunks(tov<N, D>(lo), tov<N, D>(hi), tov<N, D>(sz), visit);
  CHECK(c, seen.size() == want.size(), "chunks cover " << seen.size() << " of " << want.size());
  for(auto& [i, n] : seen) { CHECK(c, n == 1, "index " << (show<N, D>(i)) << " covered " << n << " times"); }
  CHECK(c, std::is_sorted(starts.begin(), starts.end()), "chunks not handed out in row-major order");
  // no more chunks than needed
  std::size_t need = want.empty() ? 0 : 1; for(std::size_t i = 0; need && i < D; i++) { std::size_t e = (std::size_t)(hi[i] - lo[i]), s = (std::size_t)sz[i]; need *= e / s + (e % s != 0); }
  CHECK(c, nch == need, "handed out " << nch << " chunks, " << need << " suffice");
  c.nontrivial(nch > 1);
  c.label_if(nch > 1, "several chunks");
}

template <std::size_t D> void arrays(pbt::Case& c) {
  SInd<D> sh, sz; for(std::size_t i = 0; i < D; i++) { sh[i] = c.small<std::size_t>(1, D < 3 ? 12 : 6); sz[i] = c.small<std::size_t>(1, 8); }
  NOTE(c, "array of shape " << str<D>(sh) << " in chunks of " << str<D>(sz));
  NDVecArray<float, D, 2> a(vec<D>(sh), 0.0f);
  auto want = enumerate<std::size_t, D>(zero_ind<D>(), sh);
  std::size_t k = 0;
  auto ve = [&](const Ind<D>& i) { CHECK(c, k < want.size() && arr<D>(i) == want[k], "visit " << k); k++; };
  IteratorUtils::index_loop_over_array_elements(a, ve);
  CHECK(c, k == want.size(), "visited " << k << " of " << want.size());
  std::map<SInd<D>, int> seen; std::size_t n = 0;
  auto vc = [&](const Ind<D>& b, const Ind<D>& e) { n++; for(auto& i : enumerate<std::size_t, D>(arr<D>(b), arr<D>(e))) { seen[i]++; } };
  IteratorUtils::index_loop_over_array_chunks(a, vec<D>(sz), vc);
  CHECK(c, seen.size() == want.size(), "chunks cover " << seen.size() << " of " << want.size());
  for(auto& [i, m] : seen) { CHECK(c, m == 1 && a.has_index(vec<D>(i)), "index " << str<D>(i) << " covered " << m << " times"); }
  c.nontrivial(n > 1);
}

template <std::size_t D> void regions(pbt::Case& c) {
  using N = std::size_t; Arr<N, D> al, ah, bl, bh; N maxc = 12;
  for(std::size_t i = 0; i < D; i++) {
    al[i] = c.integer<N>(0, maxc); ah[i] = al[i] + c.integer<N>(1, 7);
    switch(c.weighted({4, 1, 1, 1, 1})) {
      case 0: bl[i] = c.integer<N>(0, maxc); bh[i] = bl[i] + c.integer<N>(1, 7); break;
      case 1: bl[i] = ah[i]; bh[i] = bl[i] + c.integer<N>(1, 3); break;     // touching above
      case 2: bl[i] = al[i]; bh[i] = ah[i]; break;
      case 3: bl[i] = al[i] + (ah[i] - al[i]) / 2; bh[i] = bl[i] + 1; break;  // nested
      default: bh[i] = std::max<N>(al[i], 1); bl[i] = bh[i] - 1; break;       // touching below
    }
  }
  Arr<N, D> base; base.fill(0);
  if(c.chance(1, 6)) { for(std::size_t i = 0; i < D; i++) { base[i] = (N)c.pick<std::uint64_t>({0, 1000000, (1ull << 32) - 5, (1ull << 33) + 7, (1ull << 53) + 1}); al[i] += base[i]; ah[i] += base[i]; bl[i] += base[i]; bh[i] += base[i]; } }
  NOTE(c, "a " << (show<N, D>(al)) << ".." << (show<N, D>(ah)) << " b " << (show<N, D>(bl)) << ".." << (show<N, D>(bh)));
  Arr<N, D> as = sub<D>(ah, al), bs = sub<D>(bh, bl);
  auto ia = enumerate<N, D>(al, ah); std::set<Arr<N, D>> sa(ia.begin(), ia.end()), both;
  for(auto& i : enumerate<N, D>(bl, bh)) { if(sa.count(i)) { both.insert(i); } }
  bool ov = !both.empty();
  CHECK(c, ChunkUtils::overlaps(tov<N, D>(al), tov<N, D>(as), tov<N, D>(bl), tov<N, D>(bs)) == ov, "overlaps should be " << ov);
  CHECK(c, ChunkUtils::overlaps(tov<N, D>(bl), tov<N, D>(bs), tov<N, D>(al), tov<N, D>(as)) == ov, "overlaps (exchanged) should be " << ov);
  if(ov) {
    Vector<N, D> os, oe;
    ChunkUtils::get_chunk_overlap(tov<N, D>(al), tov<N, D>(as), tov<N, D>(bl), tov<N, D>(bs), os, oe);
    Arr<N, D> ol = toa<N, D>(os), oh = add<D>(ol, toa<N, D>(oe));
    auto got = enumerate<N, D>(ol, oh);
    CHECK(c, (std::set<Arr<N, D>>(got.begin(), got.end())) == both, "overlap region " << (show<N, D>(ol)) << ".." << (show<N, D>(oh)));
  }
  for(int t = 0; t < 4; t++) {
    Arr<N, D> p; for(std::size_t i = 0; i < D; i++) { p[i] = c.boolean() ? base[i] + c.integer<N>(0, maxc + 8) : c.pick({al[i], ah[i] - 1, ah[i], al[i] > 0 ? al[i] - 1 : 0}); }
    bool in = sa.count(p);
    CHECK(c, ChunkUtils::contains(tov<N, D>(al), tov<N, D>(as), tov<N, D>(p)) == in, "contains " << (show<N, D>(p)) << " should be " << in);
  }
  c.nontrivial(); c.label(ov ? "overlapping" : "disjoint");
}

PROPERTY(elem_u1, 1) { elements<std::size_t, 1>(c); }
PROPERTY(elem_u2, 2) { elements<std::size_t, 2>(c); }
PROPERTY(elem_u3, 2) { elements<std::size_t, 3>(c); }
PROPERTY(elem_u4, 1) { elements<std::size_t, 4>(c); }
PROPERTY(elem_i1, 1) { elements<int, 1>(c); }
PROPERTY(elem_i2, 2) { elements<int, 2>(c); }
PROPERTY(elem_i3, 2) { elements<int, 3>(c); }
PROPERTY(chunk_u1, 1) { chunks<std::size_t, 1>(c); }
PROPERTY(chunk_u2, 2) { chunks<std::size_t, 2>(c); }
PROPERTY(chunk_u3, 3) { chunks<std::size_t, 3>(c); }
PROPERTY(chunk_u4, 1) { chunks<std::size_t, 4>(c); }
PROPERTY(chunk_i2, 1) { chunks<int, 2>(c); }
PROPERTY(chunk_i3, 1) { chunks<int, 3>(c); }
PROPERTY(array_1, 1) { arrays<1>(c); }
PROPERTY(array_2, 1) { arrays<2>(c); }
PROPERTY(array_3, 2) { arrays<3>(c); }
PROPERTY(region_1, 2) { regions<1>(c); }
PROPERTY(region_2, 3) { regions<2>(c); }
PROPERTY(region_3, 3) { regions<3>(c); }
