// P16: the antenna drives the simulation with the negative of its impulse response.
#include "arr.hh"
#include <meep.hpp>
#include "Geometry.hh"
#include "Antenna.hh"

PROPERTY(feed, 1) {
  stubmeep::World w; stubmeep::world() = &w;
  float t0 = c.weighted({2, 1, 1}) ? (float)c.real(-50.0, 100.0) : 0.0f, t1 = c.chance(1, 6) ? t0 : t0 + (float)c.real(0.0, 200.0), z = (float)c.real(-300.0, 100.0); if(t1 < t0) { t1 = t0; }
  double A = c.real(-3.0, 3.0), B = (double)c.integer(-2, 2), C = c.pick<double>({0.0, 1.0, 0.1, 3.0}); float scale = 1.0f; float asked = 0; int calls = 0;
  auto f = [&](scalar_t t) -> scalar_t { asked = t; calls++; return (float)(A + B * t + std::sin(C * t)); };
  NOTE(c, "active from " << t0 << " to " << t1 << " at z " << z << ", response " << A << " + " << B << " t + sin(" << C << " t)");
  InfEDipoleAntenna ant(t0, t1, z, f); CHECK(c, !ant.is_integrated, "the source is declared as a dipole moment instead of a current"); CHECK(c, ant.last_time() == (double)t1, "the source ends at " << ant.last_time() << " instead of " << t1);
  // an operation history: change the scale, look at the current (directly, through a clone, through the source in a simulation)
  float res = 0; std::unique_ptr<meep::src_time> clone; float clone_scale = 1; int n = (int)c.integer(1, 8); bool inside = false, outside = false, edge = false; std::size_t placed = 0; std::vector<float> placed_scale;
  auto look = [&](const meep::src_time& s, float k, const char* what) {
    double t; switch(c.weighted({3, 2, 1, 1, 1})) { case 0: t = t0 + c.real(0.0, 1.0) * ((double)t1 - t0); break; case 1: t = t0 + c.real(-2.0, 3.0) * (1.0 + t1 - t0); break; case 2: t = t0; break; case 3: t = t1; break; default: t = c.boolean() ? std::nextafterf(t1, 1e30f) : std::nextafterf(t0, -1e30f); break; }
    if((t != t0 && t != t1 && (float)t == t0 && t != (double)(float)t) || (t != t1 && (float)t == t1 && t != (double)(float)t)) { t = (double)(float)t; }
    bool in = t >= t0 && t <= t1; calls = 0; std::complex<double> got = s.current(t, c.pick<double>({0.1, 0.0, 1.0, 1e-3})); double want = in ? -(double)k * (A + B * (double)(float)t + std::sin(C * (double)(float)t)) : 0.0, tol = in ? 3e-6 * std::fabs(k) * (std::fabs(A) + std::fabs(B * t) + 1 + std::fabs(C * t)) : 0.0;
    NOTE(c, what << ": current at " << t << " with scale " << k); CHECK(c, std::fabs(got.real() - want) <= tol && got.imag() == 0.0, what << ": current at time " << t << " is " << got.real() << " + " << got.imag() << "i expected " << want << " (active from " << t0 << " to " << t1 << ")");
    if(in) { CHECK(c, calls >= 1 && std::fabs((double)asked - t) <= 1e-6 * std::fabs(t) + 1e-30, what << ": the impulse response was looked up at " << asked << " instead of " << t); } inside = inside || in; outside = outside || !in; edge = edge || t == t0 || t == t1;
  };
  for(int k = 0; k < n; k++) {
    pbt::Case::Span sp(c);
    switch(c.weighted({4, 3, 1, 2, 1})) {
      case 0: look(ant, scale, "antenna"); break;
      case 1: scale = c.pick<float>({1.0f, 3.08f, 0.0f, -2.0f, 110.0f}); if(c.boolean()) { scale = (float)c.real(-20.0, 20.0); } NOTE(c, "scale " << scale); ant.SetScaleFactor(scale); break;
      case 2: clone.reset(ant.clone()); clone_scale = scale; break;
      case 3: {
        int nr = (int)c.integer(2, 40), nz = (int)c.integer(2, 40); res = c.pick<float>({1.0f, 2.0f, 10.0f, 28.0f, 0.5f}); float zmin = z - (float)c.real(0.0, 50.0); CylinderGeometry geo(nr / res, zmin, zmin + nz / res, [](scalar_t, scalar_t) -> scalar_t { return 1.0f; });
        meep::structure st(meep::volcyl(nr / res, nz / res, res), geo); meep::fields fl(&st); ant.AddToGeometry(fl, geo); placed++; placed_scale.push_back(scale); CHECK(c, w.sources.size() == placed, w.sources.size() << " sources after placing " << placed << " antennas"); auto& s = w.sources.back();
        NOTE(c, "placed in a simulation at resolution " << res << " that begins at z " << zmin); CHECK(c, s.c == meep::Ez, "the source drives another component than E_z"); CHECK(c, std::fabs(s.at.r() - 1.5 / res) <= 1e-6 / res, "the source sits at r = " << s.at.r() << " instead of 1.5 voxels of size " << 1 / res); CHECK(c, std::fabs(s.at.z() - ((double)z - zmin)) <= 5e-7 * (std::fabs((double)z) + std::fabs((double)zmin)), "the source sits at z = " << s.at.z() << " of the simulation, expected " << (double)z - zmin); break; }
      default: if(clone) { look(*clone, clone_scale, "copy of the antenna"); } else if(!w.sources.empty()) { std::size_t i = c.draw(w.sources.size() - 1); look(*w.sources[i].src, placed_scale[i], "source in the simulation"); } break;
    }
  }
  c.nontrivial(inside || outside || placed > 0); c.label_if(inside, "active"); c.label_if(outside, "outside of the active time"); c.label_if(edge, "exactly at the beginning or end"); c.label_if(placed > 0, "placed in a simulation");
}
