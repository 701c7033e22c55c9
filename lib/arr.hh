// Helpers around Vector / NDVecArray and a trivial reference model of an n-dimensional array.
#pragma once
#include "eisv.hh"
#include "Common.hh"
#include "Vector.hh"
#include "NDVecArray.hh"

template <std::size_t D> using Ind = Vector<std::size_t, D>;
template <std::size_t D> using SInd = std::array<std::size_t, D>;

template <std::size_t D> SInd<D> arr(const Ind<D>& v) { SInd<D> r; for(std::size_t i = 0; i < D; i++) { r[i] = v[i]; } return r; }
template <std::size_t D> Ind<D> vec(const SInd<D>& v) { Ind<D> r; for(std::size_t i = 0; i < D; i++) { r[i] = v[i]; } return r; }
template <std::size_t D> std::string str(const SInd<D>& v) { std::string s = "["; for(std::size_t i = 0; i < D; i++) { s += (i ? "," : "") + std::to_string(v[i]); } return s + "]"; }
template <std::size_t D> std::size_t vol(const SInd<D>& v) { std::size_t r = 1; for(auto x : v) { r *= x; } return r; }

// calls f(index) for every index in [lo, hi), last index fastest
template <std::size_t D, class F> void for_box(const SInd<D>& lo, const SInd<D>& hi, F&& f) {
  for(std::size_t i = 0; i < D; i++) { if(lo[i] >= hi[i]) { return; } }
  SInd<D> ind = lo;
  for(;;) {
    f(ind);
    std::size_t d = D;
    while(d > 0) { d--; if(++ind[d] < hi[d]) { break; } if(d == 0) { return; } ind[d] = lo[d]; }
  }
}

template <std::size_t D> SInd<D> zero_ind() { SInd<D> r; r.fill(0); return r; }
template <std::size_t D> SInd<D> add(SInd<D> a, const SInd<D>& b) { for(std::size_t i = 0; i < D; i++) { a[i] += b[i]; } return a; }
template <std::size_t D> SInd<D> sub(SInd<D> a, const SInd<D>& b) { for(std::size_t i = 0; i < D; i++) { a[i] -= b[i]; } return a; }

// reference model: dense box with an origin
template <std::size_t D, std::size_t V> struct Model {
  SInd<D> shape; std::vector<float> data;
  Model() { shape.fill(0); }
  explicit Model(const SInd<D>& s, float v = 0.0f) : shape(s), data(vol<D>(s) * V, v) { }
  std::size_t flat(const SInd<D>& ind) const { std::size_t f = 0; for(std::size_t i = 0; i < D; i++) { f = f * shape[i] + ind[i]; } return f * V; }
  float& at(const SInd<D>& ind, std::size_t v) { return data[flat(ind) + v]; }
  float at(const SInd<D>& ind, std::size_t v) const { return data[flat(ind) + v]; }
  bool all_null() const { for(float x : data) { if(!same_value(x, 0.0f)) { return false; } } return true; }
};

// a finite, normal float: mostly small integers (easy to read), sometimes an arbitrary bit pattern
inline float draw_value(pbt::Case& c, std::uint64_t salt) {
  (void)c;
  std::uint64_t s = salt; std::uint64_t r = pbt::splitmix(s);
  switch(r & 7) {
    case 0: { std::uint32_t u = (std::uint32_t)(r >> 16); u = (u & 0x807fffffu) | ((1 + ((u >> 23) & 0xff) % 253) << 23); float f; std::memcpy(&f, &u, 4); return f; }
    case 1: return -(float)((r >> 8) % 1000 + 1);
    default: return (float)((r >> 8) % 100000 + 1);
  }
}

// fill pattern of a block: the decisions drawn are few, the content is a fixed function of them and the index
struct Pattern {
  int kind; std::uint64_t salt; unsigned period; unsigned phase;
  static Pattern draw(pbt::Case& c) {
    Pattern p;
    p.kind = (int)c.weighted({4, 2, 2, 3, 2, 2, 1, 1});   // 0 dense, 1 all zero, 2 one non-zero element, 3 random zeros, 4 runs of zeros, 5 one component zero, 6 components that cancel, 7 tiny values
    p.salt = c.draw(1u << 20);
    p.period = p.kind >= 2 ? (unsigned)c.integer(1, 9) : 1;
    p.phase = p.kind >= 2 ? (unsigned)c.integer(0, 8) : 0;
    return p;
  }
  float value(pbt::Case& c, std::size_t flat_elem, std::size_t nelem, std::size_t comp) const {
    std::uint64_t h = pbt::mix(pbt::mix(salt + 77, flat_elem), comp);
    float v = draw_value(c, h);
    switch(kind) {
      case 0: return v;
      case 1: return 0.0f;
      case 2: { std::size_t where = (phase <= 2) ? 0 : (phase <= 5) ? nelem - 1 : (std::size_t)(pbt::mix(salt, 5) % nelem); return (flat_elem == where && (comp == phase % 2 || period % 2)) ? v : 0.0f; }
      case 3: return (pbt::mix(h, 99) % (period + 1)) ? 0.0f : v;
      case 4: return (((flat_elem + phase) / period) % 2) ? 0.0f : v;
      case 5: return (comp == phase % 2) ? 0.0f : v;
      case 6: { float w = draw_value(c, pbt::mix(salt + 77, flat_elem)); return (pbt::mix(salt, flat_elem) % (period + 1)) ? 0.0f : comp % 2 ? -w : w; }
      default: return ((flat_elem + phase) % period) ? 0.0f : (comp % 2 ? -1.0f : 1.0f) * 1e-30f * (1.0f + (float)(h % 7));
    }
  }
  const char* name() const { static const char* n[] = {"dense", "zero", "single", "sparse", "runs", "component", "cancelling", "tiny"}; return n[kind]; }
};

template <std::size_t D, std::size_t V> Model<D, V> make_block(pbt::Case& c, const SInd<D>& shape, const Pattern& p) {
  Model<D, V> m(shape); std::size_t n = vol<D>(shape);
  for(std::size_t e = 0; e < n; e++) { for(std::size_t v = 0; v < V; v++) { m.data[e * V + v] = p.value(c, e, n, v); } }
  return m;
}

template <std::size_t D, std::size_t V> NDVecArray<float, D, V> to_array(const Model<D, V>& m) {
  NDVecArray<float, D, V> a(vec<D>(m.shape), 0.0f);
  for_box<D>(zero_ind<D>(), m.shape, [&](const SInd<D>& i) { Vector<float, V> x; for(std::size_t v = 0; v < V; v++) { x[v] = m.at(i, v); } a[vec<D>(i)] = x; });
  return a;
}

template <std::size_t D, std::size_t V> void check_array(pbt::Case& c, const NDVecArray<float, D, V>& a, const Model<D, V>& m, const char* what) {
  CHECK(c, arr<D>(a.GetShape()) == m.shape, what << ": shape " << str<D>(arr<D>(a.GetShape())) << " expected " << str<D>(m.shape));
  CHECK(c, a.GetNumberElements() == vol<D>(m.shape), what << ": number of elements");
  CHECK(c, a.GetVolume() == vol<D>(m.shape) * V, what << ": volume");
  for_box<D>(zero_ind<D>(), m.shape, [&](const SInd<D>& i) {
    auto view = a[vec<D>(i)];
    for(std::size_t v = 0; v < V; v++) {
      float x = view[v];
      if(!same_value(x, m.at(i, v))) { FAILS(c, what << ": element " << str<D>(i) << "." << v << " is " << x << " expected " << m.at(i, v)); }
    }
  });
}
