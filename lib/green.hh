// Stored cylindrical Green's functions with a double-precision reference.
#pragma once
#include <malloc.h>
#include "arr.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
#include "GreensFunction.hh"
#include "interp_ref.hh"

using GF = CylindricalGreensFunction;
using Lin = Interpolation::Kernel::Linear;
using Cub = Interpolation::Kernel::Keys;

// floating-point number from index space, exact for the drawn dyadic case
// opening a Green's function reserves a large buffer per cache entry, which must not be filled with the malloc pattern
struct NoFill {
#if defined(__SANITIZE_ADDRESS__)
#else
  NoFill() { mallopt(M_PERTURB, 0); }
  ~NoFill() { mallopt(M_PERTURB, 0xA5); }
#endif
};
template <class T, class... A> std::unique_ptr<T> open_big(A&&... a) { NoFill f; return std::make_unique<T>(std::forward<A>(a)...); }

struct GreenWorld {
  using I = SInd<3>;
  pbt::Case& c;
  std::filesystem::path root, path; int n_dirs = 0;
  I N{}; float start[3] = {0, 0, 0}, step[3] = {1, 1, 1}; bool dyadic = true;
  Model<3, 2> field; double maxabs = 0; std::size_t overlap = 2; I chunk{}; bool null_opt = false; std::size_t n_null = 0, n_chunks = 0;
  std::size_t max_r = 7, max_z = 7, max_t = 40; bool allow_overlap1 = true; bool zero_start_t = false; std::size_t min_t = 1;
  std::size_t min_rz = 1;

  explicit GreenWorld(pbt::Case& c) : c(c), root(c.dir()) { path = fresh("gf"); }
  std::filesystem::path fresh(const std::string& n) { return root / (n + std::to_string(n_dirs++)); }

  void plan() {
    N[0] = c.integer<std::size_t>(min_rz, max_r); N[1] = c.integer<std::size_t>(min_rz, max_z); N[2] = c.integer<std::size_t>(min_t, max_t);
    dyadic = c.chance(1, 2);
    for(int i = 0; i < 3; i++) {
      if(dyadic) { step[i] = c.pick<float>({1.0f, 0.5f, 2.0f, 0.25f, 1.5f, 4.0f}); } else { step[i] = (float)c.real(0.1, 3.0); }
      if(i > 0) { if(dyadic) { start[i] = c.pick<float>({0.0f, 0.0f, -4.0f, 16.0f, -100.5f}); } else { start[i] = c.chance(1, 2) ? 0.0f : (float)c.real(-30.0, 30.0); } }
    }
    if(zero_start_t) { start[2] = 0.0f; }
    field = Model<3, 2>(N); std::uint64_t salt = c.draw(1 << 20); float scale = c.pick<float>({1.0f, 1.0f, 1e-4f, 1e4f}); int kind = (int)c.weighted({5, 2, 2, 1});
    double cen[3], wid[3]; for(int i = 0; i < 3; i++) { cen[i] = (double)(pbt::mix(salt, 100 + i) % (N[i] + 1)); wid[i] = 0.5 + (double)(pbt::mix(salt, 200 + i) % 8); }
    for_box<3>(zero_ind<3>(), N, [&](const I& i) { for(std::size_t v = 0; v < 2; v++) {
      std::uint64_t h = pbt::mix(pbt::mix(pbt::mix(salt, i[0]), i[1] * 1000 + i[2]), v); float u = (float)((double)(h % 200001) / 100000.0 - 1.0), x = 0;
      bool front = (double)i[2] >= (double)(i[0] + i[1]) * 0.8;   // nothing before the wavefront
      switch(kind) { case 0: x = u; break; case 1: x = front ? u : 0.0f; break; case 2: x = (pbt::mix(salt, i[2] / 3 + 100 * (i[0] / 2) + 1000 * (i[1] / 2)) & 1) ? u : 0.0f; break;
        default: { double q = 0; for(int k = 0; k < 3; k++) { double d = ((double)i[k] - cen[k]) / wid[k]; q += d * d; } x = (float)(std::exp(-q) * (v ? 1 : -0.5)); break; } }
      field.at(i, v) = scale * x; } });
    for(float x : field.data) { maxabs = std::max(maxabs, (double)std::fabs(x)); }
    static const char* kn[] = {"rough", "behind a front", "blocks of zeros", "smooth"};
    NOTE(c, "grid " << str<3>(N) << " start (" << start[0] << ", " << start[1] << ", " << start[2] << ") interval (" << step[0] << ", " << step[1] << ", " << step[2] << ") field " << kn[kind] << " scale " << scale);
  }

  I draw_shape(const I& ext) { I s; for(std::size_t i = 0; i < 3; i++) { switch(c.weighted({4, 3, 2})) { case 0: s[i] = c.integer<std::size_t>(1, ext[i]); break; case 1: s[i] = ext[i] + c.integer<std::size_t>(0, 3); break; default: s[i] = c.integer<std::size_t>(1, std::min<std::size_t>(ext[i], 3)); break; } } return s; }

  // writes the field as a Green's function to `p`, with a drawn history of chunkings
  void store_at(const std::filesystem::path& p, std::size_t min_overlap) {
    using DArr = SpatialSymmetry::Cylindrical<float>::darr_t;
    I s1 = draw_shape(N), s2 = draw_shape(N); overlap = allow_overlap1 ? c.integer<std::size_t>(min_overlap, 3) : 2; null_opt = c.chance(1, 2); bool swapped = c.chance(1, 3); int twice = c.chance(1, 4);
    chunk = s2;
    std::size_t cs = c.integer<std::size_t>(0, 4); Ind<3> el(c.integer<std::size_t>(1, 6)); Ind<3> gran(stor::INFTY); gran[0] = 1; if(c.chance(1, 3)) { for(int i = 0; i < 3; i++) { gran[i] = c.integer<std::size_t>(1, 5); } }
    DArr d(p, cs, el, gran);
    std::vector<I> cells; I n; for(int i = 0; i < 3; i++) { n[i] = (N[i] + s1[i] - 1) / s1[i]; } for_box<3>(zero_ind<3>(), n, [&](const I& k) { cells.push_back(k); });
    std::uint64_t order = c.draw(1 << 16); if(order) { for(std::size_t i = cells.size(); i > 1; i--) { std::swap(cells[i - 1], cells[pbt::mix(order, i) % i]); } }
    NOTE(c, "stored in chunks " << str<3>(s1) << (order ? " shuffled" : "") << (swapped ? " as (t, z, r)" : "") << (twice ? ", rebuilt twice" : "") << ", rebuilt to chunks " << str<3>(s2) << " overlap " << overlap << (null_opt ? " with null optimisation" : ""));
    for(auto& k : cells) {
      I a, b; for(int i = 0; i < 3; i++) { a[i] = k[i] * s1[i]; b[i] = std::min(a[i] + s1[i], N[i]); }
      Model<3, 2> m(swapped ? I{b[2] - a[2], b[1] - a[1], b[0] - a[0]} : sub<3>(b, a));
      for_box<3>(a, b, [&](const I& i) { I l = sub<3>(i, a); if(swapped) { std::swap(l[0], l[2]); } for(std::size_t v = 0; v < 2; v++) { m.at(l, v) = field.at(i, v); } });
      I at = a; if(swapped) { std::swap(at[0], at[2]); }
      auto arr = to_array<3, 2>(m); d.RegisterChunk(arr, vec<3>(at));
    }
    if(swapped) { d.SwapAxes<0, 2>(); }
    auto tmp = fresh("tmp");
    if(twice) { I s3 = draw_shape(N); d.RebuildChunks(vec<3>(s3), tmp, c.integer<std::size_t>(0, 2), SpatialSymmetry::Cylindrical<float>::boundary_evaluator); }
    d.RebuildChunks(vec<3>(s2), tmp, overlap, SpatialSymmetry::Cylindrical<float>::boundary_evaluator, null_opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
    if(null_opt) { I g; for(int i = 0; i < 3; i++) { g[i] = (N[i] + s2[i] - 1) / s2[i]; } for_box<3>(zero_ind<3>(), g, [&](const I& k) { n_chunks++; bool z = true; I a, b; for(int i = 0; i < 3; i++) { a[i] = k[i] * s2[i]; b[i] = std::min(a[i] + s2[i], N[i]); } for_box<3>(a, b, [&](const I& i) { z = z && field.at(i, 0) == 0 && field.at(i, 1) == 0; }); n_null += z; }); }
    RZTCoordVector st{start[0], start[1], start[2]}, en{end(0), end(1), end(2)}, iv{step[0], step[1], step[2]};
    NoFill f; GF gf(st, en, iv, std::move(d));
  }
  float end(int i) const { return start[i] + (float)(N[i] - 1) * step[i]; }
  void store(std::size_t min_overlap = 2) { store_at(path, min_overlap); }
  void maybe_move() { if(c.chance(1, 4)) { auto to = fresh("moved"); std::filesystem::rename(path, to); path = to; NOTE(c, "directory moved"); } }
  std::size_t draw_cache() { std::size_t k = c.weighted({1, 3, 2, 2, 2, 1}); NOTE(c, "opened with cache size " << k); return k; }

  // coordinate of a (real-valued) index along an axis, as single-precision number, and the index it stands for
  float coord(int axis, double f) const { return f == 0 ? start[axis] : (float)((double)start[axis] + f * (double)step[axis]); }
  double index(int axis, double x) const { return (x - (double)start[axis]) / (double)step[axis]; }
  // bound on the error of an index computed in single precision from single-precision coordinates of this size
  double index_err(int axis, double x) const { double u = 1.2e-7; return u * (4 * (std::fabs(x) + std::fabs((double)start[axis])) / step[axis] + 4 * std::fabs(index(axis, x)) + 1); }

  // samples of the underlying grid: mirrored at negative radius, zero beyond the other edges
  double sample(const long* i, int v) const { long r = i[0] < 0 ? -i[0] : i[0]; if(r >= (long)N[0] || i[1] < 0 || i[1] >= (long)N[1] || i[2] < 0 || i[2] >= (long)N[2]) { return 0.0; } return field.at({(std::size_t)r, (std::size_t)i[1], (std::size_t)i[2]}, v); }
  // reference value at a position in index space
  template <class K> double value(const double* p, int v) const { double scale; return iref::value<K>(p, [&](const long* i) { return sample(i, v); }, &scale); }
  bool inside(const double* p) const { for(int i = 0; i < 3; i++) { if(!(p[i] >= 0 && p[i] < (double)N[i])) { return false; } } return true; }

  // index-space position along an axis, inside the stored domain; exact grid points and fractions with a power-of-two denominator are frequent
  double draw_index(int axis, double hi_excl = -1) {
    double top = hi_excl < 0 ? (double)N[axis] : hi_excl; std::size_t cells = (std::size_t)std::ceil(top);
    double f;
    switch(c.weighted({2, 2, 2, 1})) {
      case 0: f = (double)c.integer<std::size_t>(0, cells - 1); break;
      case 1: f = (double)c.integer<std::size_t>(0, cells * 16 - 1) / 16.0; break;
      case 2: f = c.real(0.0, 1.0) * top; break;
      default: { std::size_t s = std::max<std::size_t>(chunk[axis], 1), k = c.integer<std::size_t>(0, (cells - 1) / s); f = (double)(k * s) + c.pick<double>({0.0, 0.0625, -0.0625, -1.0}); if(f == (double)(k * s) - 1.0) { f = (double)std::nextafterf((float)(k * s), 0.0f); } break; }   // around a chunk border
    }
    if(f < 0) { f = 0; } if(f >= top) { f = top - 0.25; }
    if(!dyadic && f != 0) { f = std::min(std::max(f, 1e-3), top - 1e-2); }   // stay clear of the edge when coordinates are rounded
    return std::max(f, 0.0);
  }
};
