// S14: NumPy export describes the array faithfully (parsed by an independent reader of the .npy format).
#include "arr.hh"
#include <sstream>

template <std::size_t D, std::size_t V> void exported(pbt::Case& c) {
  bool big = c.chance(1, 20);
  SInd<D> sh; std::size_t v = 1; std::size_t lim = big ? 15000 : 300;
  for(std::size_t i = 0; i < D; i++) { sh[i] = c.chance(1, 10) ? std::min<std::size_t>(lim / v, 20) : c.small<std::size_t>(1, std::max<std::size_t>(1, std::min<std::size_t>(lim / v, big ? 15000 : 40))); v *= sh[i]; }
  Pattern p = Pattern::draw(c); Model<D, V> m = make_block<D, V>(c, sh, p);
  NOTE(c, "array " << str<D>(sh) << " components " << V << " content " << p.name());
  NDVecArray<float, D, V> a(Ind<D>((std::size_t)1), 0.0f);
  switch(c.integer(0, 3)) {   // arrays with different pasts
    case 0: a = to_array<D, V>(m); break;
    case 1: { a.resize(vec<D>(add<D>(sh, sh)), 3.0f); a.resize(vec<D>(sh)); auto b = to_array<D, V>(m); a.fill_from(b, Ind<D>((std::size_t)0), vec<D>(sh), Ind<D>((std::size_t)0)); NOTE(c, "after shrinking"); break; }
    case 2: { SInd<D> s2 = sh; s2[0] += 2; NDVecArray<float, D, V> b(vec<D>(s2), 5.0f); auto x = to_array<D, V>(m); b.fill_from(x, Ind<D>((std::size_t)0), vec<D>(sh), Ind<D>((std::size_t)0)); NDVecArray<float, D, V> w = b.View(Ind<D>((std::size_t)0), vec<D>(sh)); a = w; NOTE(c, "copied from a view"); break; }
    default: { SInd<D> s1 = sh; if(sh[0] > 1) { s1[0] = sh[0] / 2; SInd<D> s2 = sh; s2[0] -= s1[0]; auto x = to_array<D, V>(m); a.resize(vec<D>(s1)); a.fill_from(x, Ind<D>((std::size_t)0), vec<D>(s1), Ind<D>((std::size_t)0)); NDVecArray<float, D, V> b(vec<D>(s2), 0.0f); SInd<D> at = zero_ind<D>(); at[0] = s1[0]; b.fill_from(x, vec<D>(at), vec<D>(sh), Ind<D>((std::size_t)0)); a.template Append<0>(b); NOTE(c, "after append"); } else { a = to_array<D, V>(m); } break; }
  }
  auto path = c.dir() / "a.npy";
  { std::fstream s(path, std::ios::out | std::ios::binary | std::ios::trunc); stor::Traits<NDVecArray<float, D, V>>::serialize_to_numpy(s, a); CHECK(c, s.good(), "stream bad"); }
  std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string d = ss.str();
  // independent reader
  CHECK(c, d.size() >= 10 && d.substr(0, 6) == "\x93NUMPY", "magic");
  CHECK(c, d[6] == 1 && d[7] == 0, "version");
  std::size_t hl = (unsigned char)d[8] + 256u * (unsigned char)d[9];
  CHECK(c, d.size() >= 10 + hl, "header length " << hl << " exceeds file");
  CHECK(c, (10 + hl) % 16 == 0, "data not aligned: header ends at " << 10 + hl);
  std::string h = d.substr(10, hl);
  CHECK(c, !h.empty() && h.back() == '\n', "header does not end with a newline");
  std::size_t n = 10 + hl;
  auto strip = [](std::string s) { std::string r; for(char x : s) { if(x != ' ' && x != '\n') { r += x; } } return r; };
  std::string want = "("; for(auto e : sh) { want += std::to_string(e) + ","; } want += std::to_string(V) + ")";
  std::string hs = strip(h);
  CHECK(c, hs.front() == '{' && hs.back() == '}', "header is not a dictionary: " << hs);
  bool be = hs.find("'descr':'>f4'") != std::string::npos, le = hs.find("'descr':'<f4'") != std::string::npos;
  CHECK(c, be != le, "element type in header " << hs);
  bool ford = hs.find("'fortran_order':True") != std::string::npos;
  CHECK(c, ford || hs.find("'fortran_order':False") != std::string::npos, "ordering in header " << hs);
  CHECK(c, !ford, "declared column-major");
  CHECK(c, hs.find("'shape':" + want) != std::string::npos || hs.find("'shape':" + want.substr(0, want.size() - 1) + ",)") != std::string::npos, "shape in header " << hs << " expected " << want);
  CHECK(c, d.size() - n == vol<D>(sh) * V * 4, "payload of " << d.size() - n << " bytes, expected " << vol<D>(sh) * V * 4);
  for(std::size_t k = 0; k < vol<D>(sh) * V; k++) {
    const unsigned char* b = (const unsigned char*)d.data() + n + 4 * k; std::uint32_t u = be ? (b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]) : (b[3] << 24 | b[2] << 16 | b[1] << 8 | b[0]);
    float x; std::memcpy(&x, &u, 4);
    CHECK(c, same_value(x, m.data[k]), "value " << k << " is " << x << " expected " << m.data[k]);
  }
  c.nontrivial(vol<D>(sh) > 2); c.label_if(vol<D>(sh) * V > 10000, "more than one block");
}
PROPERTY(d1, 1) { exported<1, 1>(c); }
PROPERTY(d2, 1) { exported<2, 2>(c); }
PROPERTY(d3, 2) { exported<3, 2>(c); }
PROPERTY(d3v3, 1) { exported<3, 3>(c); }
PROPERTY(d4, 1) { exported<4, 2>(c); }
