// P14: Green's functions stored from (prescribed) simulated fields. P16: the antenna that drives the simulation.
#include <barrier>
#include <thread>
#include "darr.hh"
#include "green.hh"
#include <meep.hpp>
#define WITHMEEP 1
#include "C8.cxx"

namespace fs = std::filesystem;
using MeepCalc = GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator;
using I3 = SInd<3>;

struct Sim {
  pbt::Case& c; fs::path root; int n_dirs = 0;
  int nr = 1, nz = 1; double res = 1; float r_max = 1, z_min = 0, z_max = 1; bool dyadic = true;
  double courant = 0.5, timestep = 1; float t_end = 1; int steps = 1;
  // request in (fractional) grid points
  bool whole = true; double q[4] = {0, 1, 0, 1}; float R0 = 0, R1 = 1, Z0 = 0, Z1 = 1;
  std::size_t ds = 1, overlap = 2, chunk = 5, cache = 1, cct = 800, ccl = 800; float dyn = 100, amin = 1e-20f;
  float ant_z = 0; int kind = 0; std::uint64_t salt = 0; std::size_t min_keep = 2;

  explicit Sim(pbt::Case& c) : c(c), root(c.dir()) { }
  fs::path fresh(const std::string& n) { return root / (n + std::to_string(n_dirs++)); }
  double dt() const { return courant / res; }

  void plan() {
    dyadic = c.chance(2, 3); res = dyadic ? c.pick<double>({1.0, 2.0, 4.0, 8.0, 0.5}) : c.pick<double>({10.0, 3.0, 5.0, 12.0, 28.0});
    ds = c.weighted({5, 4, 2}) + 1; nr = (int)c.integer<std::size_t>(ds + 2, 12); nz = (int)c.integer<std::size_t>(ds + 2, 14);
    r_max = (float)(nr / res); int zoff = (int)c.integer(-20, 5); z_min = (float)(zoff / res); z_max = (float)((zoff + nz) / res);
    courant = c.pick<double>({0.5, 0.25, 0.375}); timestep = dyadic ? dt() * c.pick<double>({1.0, 2.0, 0.5, 3.0, 1.25, 0.75}) : c.pick<double>({0.1, 0.3, 0.05, 1.0}); if(c.chance(1, 4)) { timestep = dt() * c.real(0.4, 3.0); }
    steps = (int)c.integer(2, 12); t_end = (float)((steps + (c.boolean() ? c.real(0.05, 0.9) : 0.0)) * timestep);
    whole = c.chance(1, 3); q[0] = 0; q[1] = nr; q[2] = 0; q[3] = nz;
    if(!whole) { for(int a = 0; a < 4; a += 2) { int n = a ? nz : nr, need = std::min(n, (int)ds + (dyadic ? 1 : 2)); int lo = (int)c.integer(0, n - need), hi = (int)c.integer(lo + need, n); q[a] = lo; q[a + 1] = hi; if(c.boolean()) { if(hi < n) { q[a + 1] += c.real(0.05, 0.95); } if(lo > 0) { q[a] -= c.real(0.05, 0.95); } } if(a == 0 && c.chance(1, 3)) { q[a] = 0; } } }
    R0 = (float)(q[0] / res); R1 = q[1] == nr ? r_max : (float)(q[1] / res); Z0 = q[2] == 0 ? z_min : (float)((double)z_min + q[2] / res); Z1 = q[3] == nz ? z_max : (float)((double)z_min + q[3] / res);
    overlap = c.integer<std::size_t>(0, 3); chunk = c.integer<std::size_t>(1, 12); cache = c.integer<std::size_t>(0, 5); cct = c.chance(1, 3) ? 800 : c.integer<std::size_t>(1, 6); ccl = c.chance(1, 3) ? 800 : c.integer<std::size_t>(1, 8);
    dyn = c.pick<float>({100.0f, 2.0f, 10.0f, 1e4f, 1e20f}); amin = c.pick<float>({1e-20f, 1e-20f, 0.0f, 1e-3f, 0.1f}); kind = (int)c.weighted({3, 3, 2, 1}); salt = c.draw(1 << 20);
    ant_z = z_min + (float)c.real(0.1, 0.9) * (z_max - z_min);
    static const char* kn[] = {"rough", "wide range of sizes", "behind a front", "mostly zero"};
    NOTE(c, nr << " x " << nz << " voxels (r, z) at resolution " << res << " (r_max " << r_max << ", z " << z_min << " .. " << z_max << "), solver step " << dt() << ", stored every " << timestep << " until " << t_end << ", sub-sampling " << ds << ", dynamic range " << dyn << ", smallest field " << amin << ", " << kn[kind] << " field");
    if(!whole) { NOTE(c, "store only r " << R0 << " .. " << R1 << ", z " << Z0 << " .. " << Z1 << " (grid points " << q[0] << " .. " << q[1] << ", " << q[2] << " .. " << q[3] << ")"); }
    NOTE(c, "storage chunks of " << chunk << " with overlap " << overlap << ", collected in chunks of " << cct << " x " << ccl << ", cache " << cache);
  }
  double value(meep::component comp, int z, int r, long step) const {
    int v = comp == meep::Ez ? 1 : 0; std::uint64_t h = pbt::mix(pbt::mix(pbt::mix(salt, (std::uint64_t)z), (std::uint64_t)r * 1000 + (std::uint64_t)step), v); double u = (double)(h % 2000001) / 1e6 - 1.0;
    switch(kind) {
      case 0: return u;
      case 1: return u * std::pow(10.0, -(double)(pbt::mix(salt, 7000 + (z / 3) * 50 + r / 3) % 4)) * std::pow(10.0, -(double)(pbt::mix(salt, 9000 + step) % 5));
      case 2: return (double)step * courant >= 0.5 * (z + r) ? u : 0.0;
      default: return h % 11 == 0 ? u : 0.0;
    }
  }
  // a division of the volume into rectangles, each owned by one process
  void divide(stubmeep::World& w) {
    w.ranks = (int)c.weighted({4, 3, 2, 2}) + 1; std::vector<stubmeep::Rect> todo{{0, nz, 0, nr, 0}}; std::size_t want = c.integer<std::size_t>(1, 6);
    while(todo.size() < want) { std::size_t k = c.draw(todo.size() - 1); auto& t = todo[k]; bool along_z = c.boolean(); int lo = along_z ? t.z0 : t.r0, hi = along_z ? t.z1 : t.r1; if(hi - lo < 2) { want--; continue; } int at = (int)c.integer(lo + 1, hi - 1); auto u = t; if(along_z) { t.z1 = at; u.z0 = at; } else { t.r1 = at; u.r0 = at; } todo.push_back(u); }
    std::string s; for(auto& t : todo) { t.owner = w.ranks == 1 ? 0 : (int)c.draw(w.ranks - 1); s += std::format(" [z {}..{} r {}..{} by {}]", t.z0, t.z1, t.r0, t.r1, t.owner); } w.chunks = todo;
    NOTE(c, w.ranks << " processes, volume divided as" << s);
  }
  static float response(float t) { return std::sin(3.0f * t) + 0.5f * t; }

  // runs the calculation in one thread per process; any exception is rethrown here
  template <class F> void run(stubmeep::World& w, F&& f) {
    w.field = [this](meep::component k, int z, int r, long s) { return value(k, z, r, s); };
    stubmeep::world() = &w; std::vector<std::exception_ptr> err((std::size_t)w.ranks);
    { NoFill nf; std::vector<std::thread> ts; for(int i = 0; i < w.ranks; i++) { ts.emplace_back([&, i] { stubmeep::rank() = i; try { f(i); } catch(...) { err[(std::size_t)i] = std::current_exception(); w.abort_all(); } }); } for(auto& t : ts) { t.join(); } }
    for(auto& e : err) { if(e) { std::rethrow_exception(e); } }
  }
  void calculate(stubmeep::World& w, const fs::path& out, const fs::path& scratch, bool corsika) {
    run(w, [&](int) {
      auto eps = [](scalar_t r, scalar_t z) -> scalar_t { return 1.5f + 0.25f * r - 0.125f * z; };
      if(corsika) { C8CylindricalGreensFunctionCalculator calc(0, nullptr); calc.calculate(r_max, z_min, z_max, ant_z, t_end, eps, response, out, scratch, scratch, courant, res, timestep, 1.0, ds, dyn, amin, overlap, chunk, cache); return; }
      CylinderGeometry geom(r_max, z_min, z_max, eps); InfEDipoleAntenna ant(0.0f, t_end, ant_z, response); std::unique_ptr<MeepCalc> calc;
      if(whole) { calc = std::make_unique<MeepCalc>(geom, ant, t_end); } else { CylinderRegion reg(R0, R1, Z0, Z1); calc = std::make_unique<MeepCalc>(geom, reg, ant, t_end); }
      calc -> Calculate(out, scratch, scratch, courant, res, timestep, 1.0, ds, dyn, amin, overlap, chunk, cache, cct, ccl);
    });
  }

  std::size_t kept = 0, zeroed = 0;
  void check(const fs::path& out) {
    using DArr = SpatialSymmetry::Cylindrical<float>::darr_t; I3 shape; { DArr d(out, 2, Ind<3>(2), Ind<3>(stor::INFTY)); shape = arr<3>(d.GetShape()); }
    // number of stored times and grid points
    double ratio = (double)t_end / timestep; std::size_t n_lo = (std::size_t)std::floor(ratio * (1 - 1e-6)) + 1, n_hi = (std::size_t)std::floor(ratio * (1 + 1e-6)) + 1; if(dyadic && std::floor(timestep * 1024) == timestep * 1024 && std::fmod((double)t_end, timestep) == 0.0) { n_lo = n_hi; }
    CHECK(c, shape[2] >= n_lo && shape[2] <= n_hi, shape[2] << " times stored, expected " << n_lo << " (every " << timestep << " until " << t_end << ")");
    for(int a = 0; a < 2; a++) { double len = q[2 * a + 1] - q[2 * a]; std::size_t lo = (std::size_t)std::ceil((len - 1 - 1e-3) / (double)ds), hi = (std::size_t)std::ceil((len + 1e-3) / (double)ds) + 1; CHECK(c, shape[a] >= lo && shape[a] <= hi, shape[a] << " grid points stored along axis " << a << " for " << len << " voxels and sub-sampling " << ds); if(len == std::floor(len) && dyadic) { std::size_t want = ((std::size_t)len + ds - 1) / ds; CHECK(c, shape[a] == want, shape[a] << " grid points stored along axis " << a << ", expected " << want); } }
    // all samples, including those in the overlap of the chunks
    std::map<std::array<long, 3>, std::array<float, 2>> got; std::size_t n_in = 0;
    stor::NDVecArrayStreamer<NDVecArray, float, 3, 2> st(10);
    for(auto& m : World<3, 2>::read_index(out)) {
      CHECK(c, m.overlap == overlap, "stored chunk has overlap " << m.overlap << " instead of " << overlap); I3 lo = arr<3>(m.start_ind), hi = arr<3>(m.end_ind), shp = sub<3>(hi, lo); for(std::size_t x = 0; x < 3; x++) { CHECK(c, shp[x] <= chunk && lo[x] % chunk == 0, "stored chunk " << str<3>(lo) << ".." << str<3>(hi) << " does not fit the requested chunk size"); shp[x] += 2 * overlap; }
      NDVecArray<float, 3, 2> a(vec<3>(shp), 0.0f);
      if(m.chunk_type == ChunkType::specified) { std::fstream f(out / (m.filepath.string() + ".chunk"), std::ios::in | std::ios::binary); CHECK(c, f.good(), "chunk file missing"); f.seekg(m.start_pos); st.deserialize(f, a); }
      CHECK(c, arr<3>(a.GetShape()) == shp, "stored chunk has the wrong shape");
      for_box<3>(zero_ind<3>(), shp, [&](const I3& k) {
        std::array<long, 3> i; bool core = true; for(int x = 0; x < 3; x++) { i[x] = (long)k[x] + (long)lo[x] - (long)overlap; core = core && i[x] >= (long)lo[x] && i[x] < (long)hi[x]; } n_in += core;
        auto v = a[vec<3>(k)]; std::array<float, 2> val{v[0], v[1]}; auto it = got.find(i); if(it == got.end()) { got[i] = val; } else if(!same_value(it -> second[0], val[0]) || !same_value(it -> second[1], val[1])) { FAILS(c, "two chunks disagree about the sample at (" << i[0] << ", " << i[1] << ", " << i[2] << ")"); }
      });
    }
    CHECK(c, n_in == vol<3>(shape), n_in << " samples in the chunks of an array of shape " << str<3>(shape));
    // first stored grid point: the one given by the request, one off when it is not a whole number of voxels or rounded
    std::string why; std::vector<std::array<long, 2>> fits; std::size_t best = 0, bestz = 0;
    auto cand = [&](int a) { std::vector<long> r; double x = q[2 * a]; for(double y : {x, x - 1e-3, x + 1e-3}) { long f = (long)std::floor(y); if(f >= 0 && std::find(r.begin(), r.end(), f) == r.end()) { r.push_back(f); } } return r; };
    for(long r0 : cand(0)) { for(long z0 : cand(1)) { std::string w = match(got, shape, r0, z0); if(w.empty()) { fits.push_back({r0, z0}); best = kept; bestz = zeroed; } else if(why.empty()) { why = w; } } }
    if(fits.empty()) { FAILS(c, why); } kept = best; zeroed = bestz;
    // labels
    auto gp = open_big<GF>(out, 1); RZTCoordVector s = gp -> start_coords(), e = gp -> end_coords(); const double zero[3] = {0, (double)z_min, 0}; bool stored_interval = overlap >= 1;
    for(int a = 0; a < 3; a++) {
      double sp = a == 2 ? timestep : (double)ds / res, spacing = ((double)e[a] - (double)s[a]) / (double)(shape[a] - 1), tol = sp * (1 + 1e-3) + (a == 2 ? dt() : 0) + 1e-5 * (std::fabs((double)s[a]) + std::fabs((double)e[a]));
      for(std::size_t i : {(std::size_t)0, shape[a] - 1}) { double want = 0, have = (double)s[a] + spacing * (double)i; bool good = false; for(auto& o : fits) { want = a == 2 ? timestep * (double)i : zero[a] + ((double)o[a] + (double)(i * ds) + 0.5) / res; good = good || std::fabs(have - want) <= tol; } CHECK(c, good, "grid point " << i << " along axis " << a << " of the stored function is labelled " << have << " but holds the field at " << want); }
      if(a < 2) { double lo = a ? Z0 : R0, hi = a ? Z1 : R1; CHECK(c, s[a] >= lo - 1.001 / res && s[a] <= lo + 1.001 / res && e[a] <= hi + 1.001 / res && e[a] >= hi - 2.001 / res, "stored region " << s[a] << " .. " << e[a] << " along axis " << a << " for the requested " << lo << " .. " << hi); }
    }
    if(stored_interval && overlap >= 2) {   // evaluated on its own grid, the function gives the stored samples
      GF::chunk_t block(vec<3>(shape), 0.0f); RZTVector<std::size_t> n{shape[0], shape[1], shape[2]}; double mx = 0; for(auto& g : got) { mx = std::max({mx, (double)std::fabs(g.second[0]), (double)std::fabs(g.second[1])}); }
      RZTCoordVector s2 = s, e2 = e; gp -> fill_array<Lin>(s2, e2, n, block); if(getenv("DBG14")) { std::cerr << s << " " << e << " n " << n << "\n"; for_box<3>(zero_ind<3>(), shape, [&](const I3& i) { auto v = block[vec<3>(i)]; auto& g = got.at({(long)i[0], (long)i[1], (long)i[2]}); std::cerr << str<3>(i) << " " << v[0] << " " << g[0] << "\n"; }); }
      for_box<3>(zero_ind<3>(), shape, [&](const I3& i) { auto v = block[vec<3>(i)]; auto& g = got.at({(long)i[0], (long)i[1], (long)i[2]}); double tol = 0; for(int a = 0; a < 3; a++) { tol += 3e-6 * ((double)shape[a] + (std::fabs((double)s[a]) + std::fabs((double)e[a])) / (((double)e[a] - (double)s[a]) / (double)(shape[a] - 1))); } for(int k = 0; k < 2; k++) { CHECK(c, std::fabs((double)v[k] - (double)g[k]) <= tol * mx + 1e-30, "evaluated at its own grid point " << str<3>(i) << " the stored function gives " << v[k] << " instead of " << g[k]); } });
      c.label("evaluated");
    }
    bool clean = true; for(auto& x : fs::directory_iterator(out)) { auto n = x.path().filename().string(); clean = clean && !x.is_directory() && (x.path().extension() == ".chunk" || n == "index.bin" || n == "green.meta"); } CHECK(c, clean, "the output directory contains other files");
  }
  double near_max(const std::vector<double>& M, long z, long r) const { double m = 0; for(long a = std::max(0L, z - 1); a <= std::min((long)nz - 1, z + 1); a++) { for(long b = std::max(0L, r - 1); b <= std::min((long)nr - 1, r + 1); b++) { m = std::max(m, M[(std::size_t)(a * nr + b)]); } } return m; }
  template <class F> bool kept_here(const std::vector<double>& M, F& mag, long z, long r, long s) const { return mag(z, r, s) >= near_max(M, z, r) / (double)dyn * (1 + 1e-5) && M[(std::size_t)(z * nr + r)] > (double)amin * (1 + 1e-5); }
  // empty if all samples agree with the fields when the first stored grid point is (r0, z0)
  std::string match(const std::map<std::array<long, 3>, std::array<float, 2>>& got, const I3& shape, long r0, long z0) {
    kept = zeroed = 0;
    auto mag = [&](long z, long r, long s) { double a = value(meep::Ez, (int)z, (int)r, s), b = value(meep::Er, (int)z, (int)r, s); return std::sqrt(a * a + b * b); };
    std::vector<long> sel; std::vector<double> M((std::size_t)(nr * nz), 0.0);
    for(std::size_t k = 0; k < shape[2]; k++) {
      double x = (double)k * timestep / dt(); long lo = std::max(0L, (long)std::ceil(x - 1e-6 * (1 + x))), hi = std::max(0L, (long)std::ceil(x + 1e-6 * (1 + x))); std::string why; bool ok = false; std::vector<double> keepM = M; std::size_t ka = kept, za = zeroed;
      for(long s = lo; s <= hi && !ok; s++) {
        M = keepM; kept = ka; zeroed = za; for(long z = 0; z < nz; z++) { for(long r = 0; r < nr; r++) { double& m = M[(std::size_t)(z * nr + r)]; m = std::max(m, mag(z, r, s)); } }
        std::string w;
        for(long i = -(long)overlap; i < (long)(shape[0] + overlap) && w.empty(); i++) { for(long j = -(long)overlap; j < (long)(shape[1] + overlap) && w.empty(); j++) {
          auto it = got.find({i, j, (long)k}); bool in = i >= 0 && j >= 0 && i < (long)shape[0] && j < (long)shape[1]; if(it == got.end()) { if(in) { w = std::format("no sample stored at ({}, {}, {})", i, j, k); } continue; }
          long r = r0 + i * (long)ds, z = z0 + j * (long)ds; const auto& v = it -> second;
          if(!in) {
            // the overlap at the edge of the stored region holds the field there if it was simulated (or the mirrored sample at negative radius), zero otherwise
            bool edge = false; long pad[4] = {std::min(r0 / (long)ds, (long)overlap), ((long)nr - (long)std::ceil(q[1] + 1e-3)) / (long)ds, std::min(z0 / (long)ds, (long)overlap), ((long)nz - (long)std::ceil(q[3] + 1e-3)) / (long)ds};
            if(i < -pad[0]) { if(r0 != 0) { continue; } auto mi = got.find({-i, j, (long)k}); if(mi != got.end() && (!same_value(mi -> second[0], v[0]) || !same_value(mi -> second[1], v[1]))) { w = std::format("sample at negative radius ({}, {}, {}) is not the mirrored one", i, j, k); } continue; }
            if(j < -pad[2]) { edge = true; } if(r >= nr || z >= nz || r < 0 || z < 0) { edge = true; }
            if(edge) { continue; }
            bool padded = i >= -pad[0] && i < (long)shape[0] + pad[1] && j >= -pad[2] && j < (long)shape[1] + pad[3];   // kept for interpolation near the edge
            if(v[0] == 0 && v[1] == 0 && !(padded && kept_here(M, mag, z, r, s))) { continue; }
            float er = (float)value(meep::Er, (int)z, (int)r, s), ez = (float)value(meep::Ez, (int)z, (int)r, s); if(!same_value(v[0], er) || !same_value(v[1], ez)) { w = std::format("overlap sample ({}, {}, {}) is ({}, {}), the field there is ({}, {})", i, j, k, v[0], v[1], er, ez); }
            continue;
          }
          if(r < 0 || z < 0 || r >= nr || z >= nz) { w = std::format("sample ({}, {}) lies outside the simulation volume", i, j); continue; }
          double own = M[(std::size_t)(z * nr + r)], near = near_max(M, z, r), here = mag(z, r, s);
          float er = (float)value(meep::Er, (int)z, (int)r, s), ez = (float)value(meep::Ez, (int)z, (int)r, s);
          bool exact = same_value(v[0], er) && same_value(v[1], ez), null = v[0] == 0 && v[1] == 0;
          bool must_keep = here >= near / (double)dyn * (1 + 1e-5) && own > (double)amin * (1 + 1e-5), must_null = near <= (double)amin * (1 - 1e-5) || here < own / (double)dyn * (1 - 1e-5);
          if(must_keep ? !exact : must_null ? !null : !(exact || null)) { w = std::format("sample ({}, {}, {}) is ({}, {}), the field at voxel (r {}, z {}) and solver step {} is ({}, {}) with largest size so far {} there and {} next to it", i, j, k, v[0], v[1], r, z, s, er, ez, own, near); }
          if(!null) { kept++; } else if(here > 0) { zeroed++; }
        } }
        if(w.empty()) { ok = true; } else { why = w; }
      }
      if(!ok) { return why; }
    }
    return "";
  }
  void check_world(const stubmeep::World& w) {
    CHECK(c, w.setups.size() == (std::size_t)w.ranks, w.setups.size() << " simulations set up by " << w.ranks << " processes");
    for(auto& s : w.setups) { CHECK(c, s.nr == nr && s.nz == nz && s.a == res && s.courant == courant && s.pml == 1.0, "simulation set up with " << s.nr << " x " << s.nz << " voxels at resolution " << s.a << ", Courant factor " << s.courant << ", absorbing layer " << s.pml); }
    for(auto& e : w.eps) { double r = e.first.r(), z = e.first.z() + (double)z_min, want = 1.5 + 0.25 * r - 0.125 * z; CHECK(c, std::fabs(e.second - want) <= 1e-5 * (1 + std::fabs(r) + std::fabs(z)), "permittivity at r " << r << ", z " << z << " is " << e.second << " expected " << want); }
    CHECK(c, w.sources.size() == (std::size_t)w.ranks, w.sources.size() << " sources placed by " << w.ranks << " processes");
    for(auto& s : w.sources) {
      CHECK(c, s.c == meep::Ez, "the source does not drive E_z"); CHECK(c, std::fabs(s.at.r() - 1.5 / res) <= 1e-5 / res && std::fabs(s.at.z() - ((double)ant_z - (double)z_min)) <= 1e-5 * (1 + std::fabs((double)ant_z) + std::fabs((double)z_min)), "the source sits at r " << s.at.r() << ", z " << s.at.z() << " of the simulation for an antenna at z = " << ant_z);
      for(int k = 1; k < 8; k++) { double t = (double)t_end * k / 8.0, want = -0.11 * res * (double)response((float)t), got = s.src -> current(t, dt()).real(); CHECK(c, std::fabs(got - want) <= 1e-4 * res * (1 + std::fabs(t)), "the source feeds " << got << " at time " << t << " instead of " << want); }
    }
  }
};

PROPERTY(stored, 6) {
  Sim s(c); s.plan(); stubmeep::World w; for(int k = 0; k < 4; k++) { w.probe.push_back(meep::veccyl(s.r_max * (k + 0.5) / 4, (double)(s.z_max - s.z_min) * (k * 7 % 4 + 0.5) / 4)); } s.divide(w);
  bool corsika = s.whole && c.chance(1, 4); if(corsika) { NOTE(c, "through the CORSIKA 8 interface"); }
  fs::path out = s.fresh("gf"), scratch = s.fresh("scratch"); fs::create_directories(scratch); if(c.chance(1, 4)) { fs::create_directories(out); } if(c.chance(1, 4)) { fs::create_directories(scratch / "eisvogel.global" / "old"); NOTE(c, "leftovers of an earlier run"); }
  // sizes that single-precision rounding makes non-integral may be refused
  auto whole_voxels = [&](float size) { float n = (float)((double)size * s.res); return std::floor(n) == n; };
  if(!whole_voxels(s.r_max) || !whole_voxels(s.z_max - s.z_min)) { bool refused = false; try { s.calculate(w, out, scratch, corsika); } catch(const std::runtime_error& e) { refused = std::string(e.what()).find("rounding") != std::string::npos; if(!refused) { throw; } } if(refused) { c.label("refused: not a whole number of voxels"); return; } } else { s.calculate(w, out, scratch, corsika); }
  s.check(out); s.check_world(w);
  CHECK(c, !fs::exists(scratch / "eisvogel.global"), "temporary files remain");
  c.nontrivial(s.kept > 3); c.label_if(s.zeroed > 0, "fields suppressed"); c.label_if(w.ranks > 1, "several processes"); c.label_if(w.chunks.size() > 1, "several simulation chunks"); c.label_if(s.ds > 1, "sub-sampled"); c.label_if(!s.whole, "part of the volume"); c.label_if(corsika, "corsika interface");
  bool idle = false; for(int r = 0; r < w.ranks; r++) { bool any = false; for(auto& k : w.chunks) { any = any || (k.owner == r && k.r1 > s.q[0] && k.r0 < s.q[1] && k.z1 > s.q[2] && k.z0 < s.q[3]); } idle = idle || !any; } c.label_if(idle, "a process with nothing to store");
}
// an existing Green's function is never overwritten; unusable geometries and regions are refused
PROPERTY(refused, 1) {
  Sim s(c); s.plan(); stubmeep::World w; s.divide(w); w.ranks = 1; for(auto& k : w.chunks) { k.owner = 0; }
  fs::path out = s.fresh("gf"), scratch = s.fresh("scratch"); fs::create_directories(scratch); int kind = (int)c.integer(0, 3);
  auto eps = [](scalar_t, scalar_t) -> scalar_t { return 1.0f; };
  auto attempt = [&](auto&& f) { bool t = false; try { s.run(w, [&](int) { f(); }); } catch(const std::exception&) { t = true; } return t; };
  if(kind == 0) {
    fs::create_directories(out); std::string name = c.pick<std::string>({"index.bin", "green.meta", "notes.txt", ".hidden", "x.chunk"}); bool dir = c.chance(1, 4); if(dir) { fs::create_directories(out / name); } else { std::ofstream(out / name) << "precious"; } NOTE(c, "output directory contains " << name);
    CHECK(c, attempt([&] { CylinderGeometry geom(s.r_max, s.z_min, s.z_max, eps); InfEDipoleAntenna ant(0.0f, s.t_end, s.ant_z, Sim::response); MeepCalc calc(geom, ant, s.t_end); calc.Calculate(out, scratch, scratch, s.courant, s.res, s.timestep, 1.0, s.ds, s.dyn, s.amin, s.overlap, s.chunk, s.cache, s.cct, s.ccl); }), "a non-empty output directory was accepted");
    std::size_t n = 0; for(auto& e : fs::directory_iterator(out)) { (void)e; n++; } CHECK(c, n == 1 && fs::exists(out / name), "the output directory was changed"); if(!dir) { std::ifstream f(out / name); std::string t; f >> t; CHECK(c, t == "precious", "an existing file was overwritten"); }
  } else if(kind == 1) {
    // the size of the geometry is not a whole number of voxels
    bool r = c.boolean(); float off = (float)(c.real(0.1, 0.9) / s.res); float rm = r ? s.r_max + off : s.r_max, zm = r ? s.z_max : s.z_max + off; NOTE(c, "geometry enlarged to r_max " << rm << ", z_max " << zm); s.r_max = rm; s.z_max = zm; 
    CHECK(c, attempt([&] { CylinderGeometry geom(rm, s.z_min, zm, eps); InfEDipoleAntenna ant(0.0f, s.t_end, s.ant_z, Sim::response); MeepCalc calc(geom, ant, s.t_end); calc.Calculate(out, scratch, scratch, s.courant, s.res, s.timestep, 1.0, s.ds, s.dyn, s.amin, s.overlap, s.chunk, s.cache, s.cct, s.ccl); }), "a geometry that is not a whole number of voxels was accepted");
  } else if(kind == 2) {
    float b[4] = {0, s.r_max, s.z_min, s.z_max}; int side = (int)c.integer(1, 3); float off = (float)c.real(0.01, 2.0); b[side] += side == 2 ? -off : off; NOTE(c, "region " << b[0] << " .. " << b[1] << ", " << b[2] << " .. " << b[3]);
    CHECK(c, attempt([&] { CylinderGeometry geom(s.r_max, s.z_min, s.z_max, eps); InfEDipoleAntenna ant(0.0f, s.t_end, s.ant_z, Sim::response); CylinderRegion reg(b[0], b[1], b[2], b[3]); MeepCalc calc(geom, reg, ant, s.t_end); }), "a storage region outside the geometry was accepted");
  } else {
    float b[4] = {s.R0, s.R1, s.Z0, s.Z1}; if(c.boolean()) { b[1] = b[0]; } else { b[3] = b[2]; } NOTE(c, "region " << b[0] << " .. " << b[1] << ", " << b[2] << " .. " << b[3]);
    CHECK(c, attempt([&] { CylinderGeometry geom(s.r_max, s.z_min, s.z_max, eps); InfEDipoleAntenna ant(0.0f, s.t_end, s.ant_z, Sim::response); CylinderRegion reg(b[0], b[1], b[2], b[3]); MeepCalc calc(geom, reg, ant, s.t_end); }), "an empty storage region was accepted");
  }
  c.nontrivial(true); static const char* kn[] = {"non-empty output", "fractional voxels", "outside", "empty region"}; c.label(kn[kind]);
}
