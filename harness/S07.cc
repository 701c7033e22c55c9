// S07: binary serialization of values and containers round-trips, byte-exactly consumed, in any sequence.
#include "arr.hh"
#include <map>
#include "Serialization.hh"

static float bits_float(std::uint64_t r) { std::uint32_t u = (std::uint32_t)r; if(((u >> 23) & 0xff) == 0xff) { u ^= 0x10000000u; } float f; std::memcpy(&f, &u, 4); return f; }
static double bits_double(std::uint64_t u) { if(((u >> 52) & 0x7ff) == 0x7ff) { u ^= 0x1000000000000000ull; } double f; std::memcpy(&f, &u, 8); return f; }

// content generators: `salt` carries the content so that long values cost few decisions
template <class T> struct Gen;
// lengths of long values: around powers of two and block sizes
static std::size_t long_length(pbt::Case& c) { return c.pick<std::size_t>({127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 70001}); }
template <> struct Gen<std::uint32_t> { static std::uint32_t make(pbt::Case& c) { return (std::uint32_t)(c.chance(1, 3) ? c.pick<std::uint64_t>({0, 1, 255, 256, 0x7fffffff, 0x80000000ull, 0xffffffffull}) : c.draw(0xffffffffull)); } };
template <> struct Gen<std::uint64_t> { static std::uint64_t make(pbt::Case& c) { return c.chance(1, 3) ? c.pick<std::uint64_t>({0, 1, 255, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull}) : c.chance(1, 2) ? c.draw(1000) : c.draw(~0ull); } };
template <> struct Gen<float> { static float make(pbt::Case& c) { return c.chance(1, 3) ? c.pick({0.0f, -0.0f, 1.0f, -1.5f, 1e-38f, 3.4e38f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()}) : bits_float(c.draw(0xffffffffull)); } };
template <> struct Gen<double> { static double make(pbt::Case& c) { return c.chance(1, 3) ? c.pick({0.0, -0.0, 1.0, -1.5, 1e-300, 1e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}) : bits_double(c.draw(~0ull)); } };
template <> struct Gen<std::string> {
  static std::string make(pbt::Case& c) {
    std::size_t n = c.chance(1, 60) ? long_length(c) : c.chance(1, 12) ? c.integer<std::size_t>(0, 5000) : c.small<std::size_t>(0, 20); std::uint64_t s = c.draw(1 << 20); int k = (int)c.integer(0, 2);
    std::string r; for(std::size_t i = 0; i < n; i++) { std::uint64_t x = pbt::mix(s, i); r += (char)(k == 0 ? 'a' + x % 26 : k == 1 ? x & 0xff : (x % 3 ? 'x' : 0)); } return r;
  }
};
template <class T> struct Gen<std::vector<T>> {
  static std::vector<T> make(pbt::Case& c) {
    std::vector<T> r; std::size_t n = c.small<std::size_t>(0, 6);
    for(std::size_t i = 0; i < n; i++) { r.push_back(Gen<T>::make(c)); } return r;
  }
};
// long lists of numbers carry their content in `salt`
template <class T> std::vector<T> long_list(pbt::Case& c) { std::size_t n = long_length(c); std::uint64_t s = c.draw(1 << 20); std::vector<T> r(n); for(std::size_t i = 0; i < n; i++) { std::uint64_t x = pbt::mix(s, i); if constexpr(std::is_same_v<T, double>) { r[i] = bits_double(x); } else { r[i] = (T)x; } } return r; }
template <> struct Gen<std::vector<std::uint64_t>> { static std::vector<std::uint64_t> make(pbt::Case& c) { if(c.chance(1, 25)) { return long_list<std::uint64_t>(c); } std::vector<std::uint64_t> r; std::size_t n = c.small<std::size_t>(0, 6); for(std::size_t i = 0; i < n; i++) { r.push_back(Gen<std::uint64_t>::make(c)); } return r; } };
template <> struct Gen<std::vector<double>> { static std::vector<double> make(pbt::Case& c) { if(c.chance(1, 25)) { return long_list<double>(c); } std::vector<double> r; std::size_t n = c.small<std::size_t>(0, 6); for(std::size_t i = 0; i < n; i++) { r.push_back(Gen<double>::make(c)); } return r; } };
template <> struct Gen<std::map<std::uint64_t, std::uint64_t>> { static std::map<std::uint64_t, std::uint64_t> make(pbt::Case& c) { std::map<std::uint64_t, std::uint64_t> r; std::size_t n = c.chance(1, 10) ? c.pick<std::size_t>({63, 64, 255, 256, 257, 1000, 5000}) : c.small<std::size_t>(0, 40); std::uint64_t s = c.draw(1 << 20); for(std::size_t i = 0; i < n; i++) { r[pbt::mix(s, 2 * i)] = pbt::mix(s, 2 * i + 1); } return r; } };
template <> struct Gen<std::vector<float>> {
  static std::vector<float> make(pbt::Case& c) {
    std::size_t n = c.chance(1, 10) ? (c.boolean() ? c.pick<std::size_t>({9999, 10000, 10001, 19999, 20000, 20001, 30000}) : c.integer<std::size_t>(0, 25000)) : c.small<std::size_t>(0, 40);
    std::uint64_t s = c.draw(1 << 20); std::vector<float> r(n); for(std::size_t i = 0; i < n; i++) { r[i] = bits_float(pbt::mix(s, i)); } return r;
  }
};
template <class T, std::size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make(pbt::Case& c) { std::array<T, N> r; for(auto& x : r) { x = Gen<T>::make(c); } return r; } };
template <class A, class B> struct Gen<std::map<A, B>> { static std::map<A, B> make(pbt::Case& c) { std::map<A, B> r; std::size_t n = c.small<std::size_t>(0, 8); for(std::size_t i = 0; i < n; i++) { A k = Gen<A>::make(c); r[k] = Gen<B>::make(c); } return r; } };
template <class T, std::size_t N> struct Gen<Vector<T, N>> { static Vector<T, N> make(pbt::Case& c) { Vector<T, N> r; for(std::size_t i = 0; i < N; i++) { r[i] = Gen<T>::make(c); } return r; } };
template <> struct Gen<RZTCoordVector> { static RZTCoordVector make(pbt::Case& c) { float a = Gen<float>::make(c), b = Gen<float>::make(c), d = Gen<float>::make(c); return RZTCoordVector(a, b, d); } };
template <> struct Gen<RZTVector<std::size_t>> { static RZTVector<std::size_t> make(pbt::Case& c) { std::size_t a = Gen<std::uint64_t>::make(c), b = Gen<std::uint64_t>::make(c), d = Gen<std::uint64_t>::make(c); return RZTVector<std::size_t>(a, b, d); } };

// equality by bits
inline bool same(std::uint32_t a, std::uint32_t b) { return a == b; }
inline bool same(std::uint64_t a, std::uint64_t b) { return a == b; }
inline bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }
inline bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
inline bool same(const std::string& a, const std::string& b) { return a == b; }
template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b);
template <class A, class B> bool same(const std::map<A, B>& a, const std::map<A, B>& b);
template <class T, std::size_t N> bool same(const std::array<T, N>& a, const std::array<T, N>& b) { for(std::size_t i = 0; i < N; i++) { if(!same(a[i], b[i])) { return false; } } return true; }
template <class T, std::size_t N> bool same(const Vector<T, N>& a, const Vector<T, N>& b) { for(std::size_t i = 0; i < N; i++) { if(!same(a[i], b[i])) { return false; } } return true; }
template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b) { if(a.size() != b.size()) { return false; } for(std::size_t i = 0; i < a.size(); i++) { if(!same(a[i], b[i])) { return false; } } return true; }
template <class A, class B> bool same(const std::map<A, B>& a, const std::map<A, B>& b) { if(a.size() != b.size()) { return false; } auto i = a.begin(); auto j = b.begin(); for(; i != a.end(); ++i, ++j) { if(!same(i -> first, j -> first) || !same(i -> second, j -> second)) { return false; } } return true; }

template <class T> std::string brief(const T&) { return ""; }
template <class T> std::string brief(const std::vector<T>& v) { return " length " + std::to_string(v.size()); }
inline std::string brief(const std::string& v) { return " length " + std::to_string(v.size()); }
inline std::string brief(const float& v) { return " " + std::to_string(v); }
inline std::string brief(const std::uint64_t& v) { return " " + std::to_string(v); }
inline std::string brief(const std::uint32_t& v) { return " " + std::to_string(v); }

struct Item { std::function<void(std::fstream&)> write; std::function<bool(std::fstream&)> read; std::string what; };
template <class T> Item item(pbt::Case& c, const char* name) {
  auto v = std::make_shared<T>(Gen<T>::make(c));
  return {[v](std::fstream& s) { stor::DefaultSerializer ser; ser.serialize<T>(s, *v); },
          [v](std::fstream& s) { stor::DefaultSerializer ser; T r = ser.deserialize<T>(s); return same(r, *v); }, std::string(name) + brief(*v)};
}

PROPERTY(sequence, 1) {
  std::vector<Item> items; std::size_t n = 0;
  while(c.more(n, 12, 5)) {
    pbt::Case::Span span(c); n++;
    switch(c.integer(0, 20)) {
      case 0: items.push_back(item<std::uint32_t>(c, "u32")); break;
      case 1: items.push_back(item<std::uint64_t>(c, "u64")); break;
      case 2: items.push_back(item<float>(c, "float")); break;
      case 3: items.push_back(item<double>(c, "double")); break;
      case 4: items.push_back(item<std::string>(c, "string")); break;
      case 5: items.push_back(item<std::vector<float>>(c, "vector<float>")); break;
      case 6: items.push_back(item<std::vector<std::uint64_t>>(c, "vector<u64>")); break;
      case 7: items.push_back(item<std::vector<std::string>>(c, "vector<string>")); break;
      case 8: items.push_back(item<std::vector<std::vector<float>>>(c, "vector<vector<float>>")); break;
      case 9: items.push_back(item<std::array<double, 3>>(c, "array<double,3>")); break;
      case 10: items.push_back(item<std::array<std::string, 2>>(c, "array<string,2>")); break;
      case 11: items.push_back(item<std::map<std::string, std::uint64_t>>(c, "map<string,u64>")); break;
      case 12: items.push_back(item<std::map<std::uint64_t, std::vector<float>>>(c, "map<u64,vector<float>>")); break;
      case 13: items.push_back(item<Vector<float, 3>>(c, "Vector<float,3>")); break;
      case 14: items.push_back(item<Vector<std::size_t, 4>>(c, "Vector<u64,4>")); break;
      case 15: items.push_back(item<RZTCoordVector>(c, "RZTCoordVector")); break;
      case 16: items.push_back(item<std::vector<double>>(c, "vector<double>")); break;
      case 17: items.push_back(item<std::map<std::uint32_t, std::map<std::string, double>>>(c, "map<u32,map<string,double>>")); break;
      case 18: items.push_back(item<std::vector<Vector<std::size_t, 2>>>(c, "vector<Vector<u64,2>>")); break;
      case 19: items.push_back(item<std::map<std::uint64_t, std::uint64_t>>(c, "map<u64,u64>")); break;
      default: items.push_back(item<RZTVector<std::size_t>>(c, "RZTVector<u64>")); break;
    }
    NOTE(c, items.back().what);
  }
  auto path = c.dir() / "f.bin";
  std::fstream s(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
  std::vector<std::streamoff> ends;
  for(auto& i : items) { i.write(s); CHECK(c, s.good(), "stream bad after writing " << i.what); ends.push_back(s.tellp()); }
  s.flush();
  bool reopen = c.boolean(); if(reopen) { s.close(); s.open(path, std::ios::in | std::ios::binary); }
  s.seekg(0);
  for(std::size_t k = 0; k < items.size(); k++) {
    CHECK(c, items[k].read(s), "item " << k << " (" << items[k].what << ") read back differently");
    CHECK(c, s.good(), "stream bad after reading item " << k);
    CHECK(c, (std::streamoff)s.tellg() == ends[k], "item " << k << " (" << items[k].what << ") consumed up to " << s.tellg() << " but was written up to " << ends[k]);
  }
  // random access: any item can be read at its own position
  for(int t = 0; t < 2 && !items.empty(); t++) {
    std::size_t k = c.integer<std::size_t>(0, items.size() - 1);
    s.seekg(k ? ends[k - 1] : 0); CHECK(c, items[k].read(s), "item " << k << " read at its position");
  }
  CHECK(c, (std::streamoff)std::filesystem::file_size(path) == (ends.empty() ? 0 : ends.back()), "file size");
  c.nontrivial(items.size() > 1);
}
