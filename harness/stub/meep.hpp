// Stand-in for the parts of MEEP that eisvogel uses. The solver is replaced by fields prescribed by the harness
// (stubmeep::world); everything else follows the conventions of MEEP: a grid point i along an axis has the integer
// coordinate 2i+1 (in half voxels) and sits at (i + 1/2) / a, the volume is divided into rectangular chunks, each of
// which belongs to one process, and a process only ever sees its own chunks. Processes are threads here.
#pragma once
#include <algorithm>
#include <complex>
#include <condition_variable>
#include <cstddef>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace meep {
  enum field_type { E_stuff, H_stuff, D_stuff, B_stuff, PE_stuff, PH_stuff, WE_stuff, WH_stuff };
  enum component { Ex = 0, Ey, Er, Ep, Ez, Hx, Hy, Hr, Hp, Hz, Dx, Dy, Dr, Dp, Dz, Bx, By, Br, Bp, Bz, Dielectric, Permeability, NO_COMPONENT };
  constexpr component Centered = Dielectric;
  enum ndim { D1, D2, D3, Dcyl };
  enum direction { X = 0, Y, Z, R, P, NO_DIRECTION };
  inline int number_of_directions(ndim d) { return d == Dcyl ? 2 : (int)d + 1; }

  class ivec {
  public:
    ivec(ndim = Dcyl) { }
    int in_direction(direction d) const { return d == R ? m_r : d == Z ? m_z : 0; }
    void set_direction(direction d, int v) { (d == R ? m_r : m_z) = v; }
    int r() const { return m_r; }
    int z() const { return m_z; }
    ivec operator+(const ivec& o) const { ivec s; s.m_r = m_r + o.m_r; s.m_z = m_z + o.m_z; return s; }
    ivec operator-(const ivec& o) const { ivec s; s.m_r = m_r - o.m_r; s.m_z = m_z - o.m_z; return s; }
    bool operator==(const ivec& o) const { return m_r == o.m_r && m_z == o.m_z; }
  private:
    int m_r = 0, m_z = 0;
  };
  inline ivec iveccyl(int r, int z) { ivec v; v.set_direction(R, r); v.set_direction(Z, z); return v; }

  class vec {
  public:
    vec(ndim = Dcyl) { }
    double in_direction(direction d) const { return d == R ? m_r : d == Z ? m_z : 0.0; }
    void set_direction(direction d, double v) { (d == R ? m_r : m_z) = v; }
    double r() const { return m_r; }
    double z() const { return m_z; }
    vec operator+(const vec& o) const { vec s; s.m_r = m_r + o.m_r; s.m_z = m_z + o.m_z; return s; }
  private:
    double m_r = 0, m_z = 0;
  };
  inline vec veccyl(double r, double z) { vec v; v.set_direction(R, r); v.set_direction(Z, z); return v; }
  inline vec operator*(const ivec& i, double f) { return veccyl(i.r() * f, i.z() * f); }
  inline vec operator*(double f, const ivec& i) { return i * f; }

  class material_function {
  public:
    virtual ~material_function() { }
    virtual double chi1p1(field_type, const vec&) { return 1.0; }
    virtual double eps(const vec&) { return 1.0; }
    virtual double mu(const vec&) { return 1.0; }
  };

  class src_time {
  public:
    bool is_integrated = true;
    virtual ~src_time() { }
    virtual std::complex<double> dipole(double) const { return 0.0; }
    virtual std::complex<double> current(double, double) const { return 0.0; }
    virtual double last_time() const { return 0.0; }
    virtual src_time* clone() const { return new src_time(*this); }
  };

  class symmetry {
  public:
    ivec transform(const ivec& i, int) const { return i; }
    vec transform(const vec& v, int) const { return v; }
  };
  inline symmetry identity() { return { }; }
  class boundary_region { public: double width = 0; };
  inline boundary_region pml(double w) { boundary_region b; b.width = w; return b; }
  class volume { };
  class structure; class fields; class fields_chunk;
}

namespace stubmeep {
  struct Rect { int z0, z1, r0, r1, owner; };   // half-open, in grid points
  struct World {
    int ranks = 1;
    std::vector<Rect> chunks;                                            // division of the volume
    std::function<double(meep::component, int z, int r, long step)> field;
    // what the code under test asked for
    std::mutex mutex; std::condition_variable cond; int waiting = 0; unsigned long generation = 0; bool aborted = false;
    struct Source { int rank; meep::component c; std::shared_ptr<meep::src_time> src; meep::vec at; };
    std::vector<Source> sources;
    struct Setup { int rank; int nz, nr; double a, courant, pml; };
    std::vector<Setup> setups;
    std::vector<std::pair<meep::vec, double>> eps;                       // permittivities looked up
    std::vector<meep::vec> probe;                                        // where to look them up
    void barrier() {
      std::unique_lock<std::mutex> l(mutex); if(aborted) { throw std::runtime_error("another process has failed"); }
      unsigned long g = generation; if(++waiting == ranks) { waiting = 0; generation++; cond.notify_all(); return; }
      cond.wait(l, [&] { return generation != g || aborted; }); if(generation == g) { throw std::runtime_error("another process has failed"); }
    }
    void abort_all() { std::lock_guard<std::mutex> l(mutex); aborted = true; cond.notify_all(); }
  };
  inline World*& world() { static World* w = nullptr; return w; }
  inline int& rank() { static thread_local int r = 0; return r; }
}

namespace meep {
  inline int my_rank() { return stubmeep::rank(); }
  inline int count_processors() { return stubmeep::world() -> ranks; }
  inline bool am_master() { return my_rank() == 0; }
  inline bool am_really_master() { return my_rank() == 0; }
  inline void all_wait() { stubmeep::world() -> barrier(); }

  class initialize { public: initialize(int, char**) { } };

  class grid_volume {
  public:
    ndim dim = Dcyl; double a = 1, inva = 1;
    grid_volume() { }
    grid_volume(double a, int nr, int nz, int r0 = 0, int z0 = 0) : a(a), inva(1.0 / a), m_nr(nr), m_nz(nz), m_r0(r0), m_z0(z0) { }
    int nz() const { return m_nz; }
    int nr() const { return m_nr; }
    std::ptrdiff_t index(int ir, int iz) const { return (std::ptrdiff_t)((iz - 1) / 2 - m_z0) * m_nr + ((ir - 1) / 2 - m_r0); }
    void of_index(std::ptrdiff_t idx, int& r, int& z) const { r = (int)(idx % m_nr) + m_r0; z = (int)(idx / m_nr) + m_z0; }
  private:
    int m_nr = 0, m_nz = 0, m_r0 = 0, m_z0 = 0;
  };
  inline grid_volume volcyl(double rsize, double zsize, double a) { return grid_volume(a, (int)(rsize * a + 0.5), zsize == 0.0 ? 1 : (int)(zsize * a + 0.5)); }

  class structure {
  public:
    structure(const grid_volume& gv, material_function& mat, const boundary_region& br = pml(0), const symmetry& = identity(), int = 0, double courant = 0.5) : gv(gv), courant(courant) {
      auto* w = stubmeep::world(); std::lock_guard<std::mutex> l(w -> mutex); w -> setups.push_back({my_rank(), gv.nz(), gv.nr(), gv.a, courant, br.width});
      for(auto& p : w -> probe) { w -> eps.push_back({p, mat.chi1p1(E_stuff, p)}); }
    }
    grid_volume gv; double courant;
  };

  class fields_chunk {
  public:
    grid_volume gv; fields* parent = nullptr; int z0 = 0, z1 = 0, r0 = 0, r1 = 0;
  };

  typedef void (*field_chunkloop)(fields_chunk* fc, int ichunk, component cgrid, ivec is, ivec ie, vec s0, vec s1, vec e0, vec e1, double dV0, double dV1, ivec shift, std::complex<double> shift_phase, const symmetry& S, int sn, void* chunkloop_data);

  class fields {
  public:
    double a, dt; int t = 0;
    fields(structure* s, double = 0, double = 0, bool = true, int = 0) : a(s -> gv.a), dt(s -> courant / s -> gv.a) {
      int i = 0; for(auto& r : stubmeep::world() -> chunks) { fields_chunk fc; fc.gv = grid_volume(a, r.r1 - r.r0, r.z1 - r.z0, r.r0, r.z0); fc.parent = this; fc.z0 = r.z0; fc.z1 = r.z1; fc.r0 = r.r0; fc.r1 = r.r1; m_chunks.push_back(fc); m_mine.push_back(r.owner == my_rank()); i++; }
    }
    double time() const { return t * dt; }
    void step() { t++; }
    volume total_volume() const { return { }; }
    void add_point_source(component c, const src_time& src, const vec& p, std::complex<double> = 1.0) { auto* w = stubmeep::world(); std::lock_guard<std::mutex> l(w -> mutex); w -> sources.push_back({my_rank(), c, std::shared_ptr<src_time>(src.clone()), p}); }
    void loop_in_chunks(field_chunkloop f, void* data, const volume&, component cgrid = Centered, bool = true, bool = false) {
      symmetry S; for(std::size_t i = 0; i < m_chunks.size(); i++) { if(!m_mine[i]) { continue; } fields_chunk& k = m_chunks[i];
        f(&k, (int)i, cgrid, iveccyl(2 * k.r0 + 1, 2 * k.z0 + 1), iveccyl(2 * k.r1 - 1, 2 * k.z1 - 1), vec(), vec(), vec(), vec(), 1.0, 0.0, ivec(), 1.0, S, 0, data); }
    }
  private:
    std::vector<fields_chunk> m_chunks; std::vector<bool> m_mine;
  };

  class chunkloop_field_components {
  public:
    chunkloop_field_components(fields_chunk* fc, component, std::complex<double>, const symmetry&, int, int n, const component* c) : values(n), m_fc(fc), m_c(c, c + n) { }
    void update_values(std::ptrdiff_t idx) { int r, z; m_fc -> gv.of_index(idx, r, z); for(std::size_t i = 0; i < values.size(); i++) { values[i] = stubmeep::world() -> field(m_c[i], z, r, m_fc -> parent -> t); } }
    std::vector<std::complex<double>> values;
  private:
    fields_chunk* m_fc; std::vector<component> m_c;
  };
}

#define LOOP_OVER_DIRECTIONS(dim, d) for(meep::direction d = meep::Z; d <= meep::R; d = (meep::direction)(d + 1))
#define LOOP_OVER_IVECS(gv, is, ie, idx) \
  for(int stub_z = (is).z(); stub_z <= (ie).z(); stub_z += 2) \
    for(int stub_r = (is).r(); stub_r <= (ie).r(); stub_r += 2) \
      for(std::ptrdiff_t idx = (gv).index(stub_r, stub_z), stub_once = 1; stub_once; stub_once = 0)
#define IVEC_LOOP_ILOC(gv, iloc) meep::ivec iloc((gv).dim); iloc.set_direction(meep::Z, stub_z); iloc.set_direction(meep::R, stub_r);
#define IVEC_LOOP_LOC(gv, loc) meep::vec loc((gv).dim); loc.set_direction(meep::Z, stub_z * 0.5 * (gv).inva); loc.set_direction(meep::R, stub_r * 0.5 * (gv).inva);
