// P12: current segments, cylindrical regions and geometries.
#include "arr.hh"
#include "Current.hh"
#include <meep.hpp>
#include "Geometry.hh"

// coordinates: small whole numbers, repeated values, neighbours of other values, the whole range of single precision
struct Pool {
  pbt::Case& c; std::vector<float> seen;
  float value() {
    float x; switch(seen.empty() ? c.weighted({3, 2, 1}) : c.weighted({3, 2, 1, 3, 2})) {
      case 0: x = (float)c.integer(-4, 4); break;
      case 1: x = (float)c.real(-1000.0, 1000.0); break;
      case 2: x = c.pick<float>({0.0f, -0.0f, 1e-38f, -1e-38f, 1e30f, -1e30f, 3e38f, -3e38f, 16777216.0f}); break;
      case 3: x = seen[c.draw(seen.size() - 1)]; break;
      default: { x = seen[c.draw(seen.size() - 1)]; x = std::nextafterf(x, c.boolean() ? 1e38f : -1e38f); if(std::fabs(x) < 1e-37f) { x = 0; } break; }
    }
    seen.push_back(x); return x;
  }
};
static bool same_pos(const XYZCoordVector& v, const float* p) { return same_value(v[0], p[0]) && same_value(v[1], p[1]) && same_value(v[2], p[2]); }

PROPERTY(segment, 2) {
  Pool p{c}; float a[3], b[3]; for(auto& x : a) { x = p.value(); } for(auto& x : b) { x = p.value(); } p.seen.clear(); float t0 = p.value(), t1 = p.value(), q = p.value();
  NOTE(c, std::format("from ({}, {}, {}) at {} to ({}, {}, {}) at {} charge {}", a[0], a[1], a[2], t0, b[0], b[1], b[2], t1, q));
  bool valid = t0 < t1, thrown = false;
  auto look = [&](const LineCurrentSegment& s, const char* what) {
    CHECK(c, same_pos(s.start_pos, a) && same_pos(s.end_pos, b), what << ": positions are (" << s.start_pos[0] << ", " << s.start_pos[1] << ", " << s.start_pos[2] << ") and (" << s.end_pos[0] << ", " << s.end_pos[1] << ", " << s.end_pos[2] << ")");
    CHECK(c, same_value(s.start_time, t0) && same_value(s.end_time, t1) && same_value(s.charge, q), what << ": times " << s.start_time << " .. " << s.end_time << " charge " << s.charge);
  };
  try { LineCurrentSegment s(XYZCoordVector{a[0], a[1], a[2]}, XYZCoordVector{b[0], b[1], b[2]}, t0, t1, q); if(valid) { look(s, "segment"); LineCurrentSegment copy(s); std::vector<LineCurrentSegment> list; list.push_back(s); list.emplace_back(XYZCoordVector{a[0], a[1], a[2]}, XYZCoordVector{b[0], b[1], b[2]}, t0, t1, q); look(copy, "copy"); look(list[0], "first in a list"); look(list[1], "second in a list"); } } catch(const std::exception&) { thrown = true; }
  CHECK(c, thrown != valid, (valid ? "a valid segment was refused" : "a segment that does not advance in time was accepted"));
  c.nontrivial(true); c.label(valid ? "valid" : t0 == t1 ? "zero duration" : "negative duration"); c.label_if(valid && std::nextafterf(t0, 3e38f) == t1, "shortest duration");
}

static bool valid_region(const float* b) { return b[0] >= 0 && b[1] >= 0 && b[0] <= b[1] && b[2] <= b[3]; }
static std::string show(const float* b) { return std::format("r {} .. {}, z {} .. {}", b[0], b[1], b[2], b[3]); }
static void look_region(pbt::Case& c, CylinderRegion& r, const float* b, const char* what) {
  CHECK(c, same_value(r.GetRMin(), b[0]) && same_value(r.GetRMax(), b[1]) && same_value(r.GetZMin(), b[2]) && same_value(r.GetZMax(), b[3]), what << ": reports r " << r.GetRMin() << " .. " << r.GetRMax() << ", z " << r.GetZMin() << " .. " << r.GetZMax() << " instead of " << show(b));
  bool empty = b[0] == b[1] || b[2] == b[3]; CHECK(c, r.IsEmpty() == empty, what << ": " << show(b) << (empty ? " is not empty" : " is empty"));
  double rs = (double)b[1] - b[0], zs = (double)b[3] - b[2]; if(std::fabs(rs) < 1e38 && std::fabs(zs) < 1e38) { CHECK(c, std::fabs((double)r.GetRSize() - rs) <= 1e-6 * std::fabs(rs) + 1e-37 && std::fabs((double)r.GetZSize() - zs) <= 1e-6 * std::fabs(zs) + 1e-37, what << ": sizes " << r.GetRSize() << ", " << r.GetZSize() << " of " << show(b)); }
}
PROPERTY(region, 3) {
  Pool p{c}; float b[4]; auto draw = [&](float* o) { bool tidy = c.chance(2, 3); for(int i = 0; i < 4; i++) { if(i == 2) { p.seen.clear(); } o[i] = p.value(); } if(tidy) { o[0] = std::fabs(o[0]); o[1] = std::fabs(o[1]); if(o[0] > o[1]) { std::swap(o[0], o[1]); } if(o[2] > o[3]) { std::swap(o[2], o[3]); } if(c.chance(1, 4)) { o[c.draw(3)] *= -1; } } };
  draw(b); NOTE(c, "region " << show(b)); std::unique_ptr<CylinderRegion> r; bool thrown = pbt::throws([&] { r = std::make_unique<CylinderRegion>(b[0], b[1], b[2], b[3]); }); bool any_bad = false, any_good = false;
  CHECK(c, thrown != valid_region(b), (thrown ? "a valid region was refused: " : "an unphysical region was accepted: ") << show(b)); any_bad = thrown; any_good = !thrown;
  float zero[4] = {0, 0, 0, 0}; float* now = b; if(!r) { r = std::make_unique<CylinderRegion>(); now = zero; } look_region(c, *r, now, "region"); float cur[4]; std::copy(now, now + 4, cur);
  int n = (int)c.integer(0, 3); for(int k = 0; k < n; k++) { float s[4]; draw(s); NOTE(c, "set to " << show(s)); bool refused = pbt::throws([&] { r -> SetRegion(s[0], s[1], s[2], s[3]); }); CHECK(c, refused != valid_region(s), (refused ? "a valid region was refused: " : "an unphysical region was accepted: ") << show(s)); any_bad = any_bad || refused; any_good = any_good || !refused; if(!refused) { std::copy(s, s + 4, cur); } look_region(c, *r, cur, refused ? "after a refused change" : "after a change"); }
  c.nontrivial(any_good || any_bad); c.label_if(any_bad, "refused"); c.label_if(any_good, "accepted"); c.label_if(cur[0] == cur[1] || cur[2] == cur[3], "empty");
}

PROPERTY(geometry, 3) {
  Pool p{c}; p.seen.push_back(0); float g[3]; for(auto& x : g) { x = p.value(); } bool big = std::fabs(g[0]) > 1e20f || std::fabs(g[1]) > 1e20f || std::fabs(g[2]) > 1e20f; if(c.chance(3, 4)) { g[0] = std::fabs(g[0]); if(g[1] > g[2]) { std::swap(g[1], g[2]); } }
  double A = (double)c.integer(-3, 3), B = (double)c.integer(-3, 3); float last[2] = {0, 0}; int calls = 0; auto eps = [&](scalar_t r, scalar_t z) -> scalar_t { last[0] = r; last[1] = z; calls++; return (float)(A * std::tanh(r / 1000.0) + B * std::tanh(z / 1000.0) + 2.0); };
  NOTE(c, "geometry with radius " << g[0] << ", z " << g[1] << " .. " << g[2]); std::unique_ptr<CylinderGeometry> geo; bool bad = g[0] < 0 || g[1] > g[2]; bool thrown = pbt::throws([&] { geo = std::make_unique<CylinderGeometry>(g[0], g[1], g[2], eps); });
  CHECK(c, thrown == bad, (thrown ? "a valid geometry was refused" : "an unphysical geometry was accepted")); c.label(bad ? "refused" : "accepted"); c.nontrivial(true); if(bad) { return; }
  CHECK(c, geo -> GetRMin() == 0 && same_value(geo -> GetRMax(), g[0]) && same_value(geo -> GetZMin(), g[1]) && same_value(geo -> GetZMax(), g[2]), "the geometry reports other bounds than it was given");
  if(!big) { CHECK(c, same_value(geo -> GetRSize(), g[0]) && std::fabs((double)geo -> GetZSize() - ((double)g[2] - g[1])) <= 1e-6 * ((double)g[2] - g[1]) + 1e-37, "the geometry reports the sizes " << geo -> GetRSize() << ", " << geo -> GetZSize()); }
  int n = (int)c.integer(1, 4); bool in_any = false, out_any = false;
  for(int k = 0; k < n; k++) {
    // regions that share or nearly share bounds with the geometry
    float b[4]; const float ref[4] = {0, g[0], g[1], g[2]}; for(int i = 0; i < 4; i++) { switch(c.weighted({4, 1, 1, 2})) { case 0: b[i] = ref[i]; break; case 1: b[i] = std::nextafterf(ref[i], 3e38f); break; case 2: b[i] = std::nextafterf(ref[i], -3e38f); break; default: b[i] = i < 2 ? (float)(c.real(0.0, 1.2) * g[0]) : (float)(g[1] + c.real(-0.2, 1.2) * ((double)g[2] - g[1])); } if(std::fabs(b[i]) < 1e-37f) { b[i] = 0; } }
    if(!valid_region(b)) { continue; } CylinderRegion r(b[0], b[1], b[2], b[3]); bool want = b[0] >= 0 && b[1] <= g[0] && b[2] >= g[1] && b[3] <= g[2]; NOTE(c, "region " << show(b)); CHECK(c, geo -> contains(r) == want, "region " << show(b) << " is " << (want ? "inside" : "not inside") << " the geometry, which says otherwise"); (want ? in_any : out_any) = true;
  }
  c.label_if(in_any, "region inside"); c.label_if(out_any, "region outside");
  if(!big) {
    for(int k = 0; k < 3; k++) {
      float r = (float)(c.real(0.0, 1.0) * g[0]), z = (float)(g[1] + c.real(0.0, 1.0) * ((double)g[2] - g[1])); if(c.chance(1, 4)) { r = (float)c.integer(-3, 3); z = (float)c.integer(-100, 100); } if(std::fabs(r) < 1e-37f) { r = 0; } double scale = std::fabs((double)z) + std::fabs((double)g[1]) + 1e-37; NOTE(c, "point r " << r << " z " << z);
      RZCoordVector user{r, z}; meep::vec m = geo -> toMeepCoords(user); CHECK(c, same_value((float)m.r(), r) && std::fabs(m.z() - ((double)z - g[1])) <= 2.4e-7 * scale, "r " << r << ", z " << z << " becomes r " << m.r() << ", z " << m.z() << " in the simulation");
      RZCoordVector back = geo -> toEisvogelCoords(m); CHECK(c, same_value(back.r(), r) && std::fabs((double)back.z() - z) <= 4.8e-7 * scale, "r " << r << ", z " << z << " comes back as r " << back.r() << ", z " << back.z());
      meep::vec s = meep::veccyl(r, (double)z - (double)g[1]); RZCoordVector u = geo -> toEisvogelCoords(s); CHECK(c, std::fabs((double)u.z() - z) <= 4.8e-7 * scale && std::fabs((double)u.r() - r) <= 2.4e-7 * std::fabs(r), "simulation point r " << s.r() << ", z " << s.z() << " is r " << u.r() << ", z " << u.z()); meep::vec again = geo -> toMeepCoords(u); CHECK(c, std::fabs(again.z() - s.z()) <= 9.6e-7 * scale && same_value((float)again.r(), (float)s.r()), "simulation point r " << s.r() << ", z " << s.z() << " comes back as r " << again.r() << ", z " << again.z());
      calls = 0; double e = c.boolean() ? geo -> eps(s) : geo -> chi1p1(meep::E_stuff, s); CHECK(c, calls >= 1 && std::fabs((double)last[1] - z) <= 4.8e-7 * scale && std::fabs((double)last[0] - r) <= 2.4e-7 * std::fabs(r), "the permittivity was looked up at r " << last[0] << ", z " << last[1] << " instead of r " << r << ", z " << z);
      double want = A * std::tanh(r / 1000.0) + B * std::tanh(z / 1000.0) + 2.0; CHECK(c, std::fabs(e - want) <= 1e-5 * (1 + scale / 1000.0), "permittivity " << e << " expected " << want);
    }
    c.label("points converted");
  }
}
