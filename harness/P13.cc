// P13: particle showers from stored profiles.
#include "arr.hh"
#include "Current.hh"
#include <random>
#include "shower_1D.cpp"
#include "shower_creator.cpp"
#include "ice_profile.cpp"

namespace {
  constexpr double C0 = 0.299792458, RHO = 917.0;   // m / ns, kg / m^3
  struct Rec { int had; double en; std::vector<double> g, q; };
  struct Lib {
    pbt::Case& c; std::vector<Rec> recs; std::filesystem::path root, file;
    explicit Lib(pbt::Case& c) : c(c), root(c.dir()), file(root / "profiles") { }
    Rec draw_rec() {
      Rec r; r.had = (int)c.integer(0, 1); r.en = c.pick<double>({1e15, 1e16, 3e16, 1e17, 1e18, 1e12}); std::size_t n = c.integer<std::size_t>(1, 8); double g = c.boolean() ? 0.0 : c.real(1.0, 600.0); double top = c.pick<double>({1.0, 1e6, 1e9}); bool down = c.boolean();
      for(std::size_t i = 0; i < n; i++) { if(i) { g += c.chance(1, 4) ? c.real(0.5, 5.0) : c.real(20.0, 3000.0); } r.g.push_back(g); r.q.push_back(c.chance(1, 5) ? 0.0 : c.real(-1.0, 1.0) * top); if(down && !r.q.back()) { r.q.back() = top; } }
      if(r.g.back() <= 0) { r.g.back() = 300.0; } return r;
    }
    void plan(int most) { int n = (int)c.integer(1, most); for(int i = 0; i < n; i++) { pbt::Case::Span sp(c); recs.push_back(draw_rec()); auto& r = recs.back(); NOTE(c, "profile " << i << (r.had ? " hadronic " : " electromagnetic ") << r.en << " eV, " << r.g.size() << " samples up to " << r.g.back() << " kg/m^2"); } }
    std::string bytes() const { std::string b; auto put = [&](const void* p, std::size_t n) { b.append((const char*)p, n); }; for(auto& r : recs) { std::int32_t n = (std::int32_t)r.g.size(), h = r.had; put(&n, 4); put(&h, 4); put(&r.en, 8); put(r.g.data(), 8 * r.g.size()); put(r.q.data(), 8 * r.q.size()); } return b; }
    void write(std::size_t cut = 0) { std::string b = bytes(); std::ofstream(file, std::ios::binary).write(b.data(), (std::streamsize)(b.size() - cut)); }
    // stored profiles of this type at the energy closest to the requested one (all candidates if it is a tie)
    std::vector<std::vector<std::size_t>> groups(int had, double en) const {
      double best = -1; for(auto& r : recs) { if(r.had == had) { double d = std::fabs(r.en - en); if(best < 0 || d < best) { best = d; } } }
      std::vector<std::vector<std::size_t>> res; std::vector<double> ens; for(std::size_t i = 0; i < recs.size(); i++) { auto& r = recs[i]; if(r.had == had && std::fabs(r.en - en) <= best * (1 + 1e-12)) { auto it = std::find(ens.begin(), ens.end(), r.en); if(it == ens.end()) { ens.push_back(r.en); res.push_back({i}); } else { res[(std::size_t)(it - ens.begin())].push_back(i); } } } return res;
    }
  };
  struct Ask { float pos[3]; double en, zen, az; int had; int index; double dt; };
  double interp(const Rec& r, double g) { if(g <= r.g[0]) { return r.q[0]; } for(std::size_t i = 1; i < r.g.size(); i++) { if(g <= r.g[i]) { return r.q[i - 1] + (r.q[i] - r.q[i - 1]) * (g - r.g[i - 1]) / (r.g[i] - r.g[i - 1]); } } return r.q.back(); }
  // smallest and largest value around a grammage
  void range(const Rec& r, double g, double w, double& lo, double& hi) { lo = 1e300; hi = -1e300; auto see = [&](double x) { double v = interp(r, x); lo = std::min(lo, v); hi = std::max(hi, v); }; see(g - w); see(g); see(g + w); for(double k : r.g) { if(k > g - w && k < g + w) { see(k); } } }

  Ask draw_ask(Lib& l) {
    pbt::Case& c = l.c; Ask a; std::vector<int> types; for(auto& r : l.recs) { types.push_back(r.had); } a.had = types[c.draw(types.size() - 1)];
    switch(c.weighted({2, 2, 1})) { case 0: a.en = l.recs[c.draw(l.recs.size() - 1)].en; break; case 1: a.en = l.recs[c.draw(l.recs.size() - 1)].en * c.real(0.3, 3.0); break; default: a.en = std::pow(10.0, c.real(11.0, 19.0)); break; }
    for(auto& x : a.pos) { x = c.chance(1, 4) ? 0.0f : (float)c.real(-500.0, 500.0); } if(c.chance(1, 3)) { a.pos[2] = (float)(c.real(-2000.0, 0.0)); }
    a.zen = c.chance(1, 4) ? c.pick<double>({0.0, M_PI, M_PI / 2}) : c.real(0.0, M_PI); a.az = c.chance(1, 4) ? c.pick<double>({0.0, M_PI / 2, -M_PI / 2, M_PI}) : c.real(-M_PI, 2 * M_PI);
    auto gs = l.groups(a.had, a.en); a.index = c.chance(1, 4) ? -1 : (int)c.draw(gs[0].size() - 1);
    double gmax = 0; for(auto& g : gs) { for(auto i : g) { gmax = std::max(gmax, l.recs[i].g.back()); } }
    double steps = c.chance(1, 6) ? c.real(0.3, 3.0) : c.real(2.0, 200.0); a.dt = gmax / (RHO * C0 * steps);
    NOTE(c, "shower at (" << a.pos[0] << ", " << a.pos[1] << ", " << a.pos[2] << ") zenith " << a.zen << " azimuth " << a.az << (a.had ? " hadronic " : " electromagnetic ") << a.en << " eV, profile " << a.index << ", step " << a.dt);
    return a;
  }
  // empty if the segments are those of this profile
  std::string compare(const Rec& r, const Ask& a, const std::vector<LineCurrentSegment>& s, std::size_t from) {
    double ds = a.dt * C0, per = RHO * ds, ratio = r.g.back() / per, scale = a.en / r.en; double dir[3] = {std::sin(a.zen) * std::cos(a.az), std::sin(a.zen) * std::sin(a.az), std::cos(a.zen)};
    std::size_t n = s.size() - from, lo = (std::size_t)std::max(1.0, std::ceil(ratio * (1 - 1e-9))) - 1, hi = (std::size_t)std::max(1.0, std::ceil(ratio * (1 + 1e-9))) - 1; if(n < lo || n > hi) { return std::format("{} segments instead of {}", n, lo); }
    double big = 0; for(double q : r.q) { big = std::max(big, std::fabs(q)); } double slack = 0; for(float p : a.pos) { slack = std::max(slack, std::fabs((double)p)); }
    for(std::size_t i = 0; i < n; i++) {
      auto& k = s[from + i]; double ts = a.dt * (double)i, te = a.dt * (double)(i + 1);
      if(!(std::fabs(k.start_time - ts) <= 3e-7 * te && std::fabs(k.end_time - te) <= 3e-7 * te)) { return std::format("segment {} lasts from {} to {} instead of {} to {}", i, k.start_time, k.end_time, ts, te); }
      for(int x = 0; x < 3; x++) { double ps = ((double)a.pos[x] + dir[x] * ds * (double)i) / C0, pe = ((double)a.pos[x] + dir[x] * ds * (double)(i + 1)) / C0, tol = 4e-7 * (slack + ds * (double)(i + 1)) / C0; if(!(std::fabs(k.start_pos[x] - ps) <= tol && std::fabs(k.end_pos[x] - pe) <= tol)) { return std::format("segment {} goes from {} to {} along axis {} instead of {} to {}", i, k.start_pos[x], k.end_pos[x], x, ps, pe); } }
      if(i > 0) { auto& p = s[from + i - 1]; bool same = same_value(p.end_time, k.start_time); for(int x = 0; x < 3; x++) { same = same && same_value(p.end_pos[x], k.start_pos[x]); } if(!same) { return std::format("segment {} does not begin where the previous one ends", i); } }
      double qlo, qhi; range(r, per * (double)i, 1e-9 * per * (double)(i + 1), qlo, qhi); qlo *= scale; qhi *= scale; double tol = 1e-6 * std::max(std::fabs(qlo), std::fabs(qhi)) + 1e-7 * big * scale;
      if(!(k.charge >= qlo - tol && k.charge <= qhi + tol)) { return std::format("segment {} has charge {} instead of {} (grammage {}, scale {})", i, k.charge, qlo, per * (double)i, scale); }
    }
    return "";
  }
}

PROPERTY(tracks, 5) {
  Lib l(c); l.plan(6); l.write(); showers::ShowerCreator creator(l.file.string()); int n = (int)c.integer(1, 3); bool some = false, scaled = false, single = false;
  for(int k = 0; k < n; k++) {
    pbt::Case::Span sp(c); Ask a = draw_ask(l); auto shower = creator.create_shower({a.pos[0], a.pos[1], a.pos[2]}, a.en, a.zen, a.az, a.had, a.index);
    std::vector<LineCurrentSegment> out; std::size_t before = c.chance(1, 3) ? 2 : 0; for(std::size_t i = 0; i < before; i++) { out.emplace_back(XYZCoordVector{1.0f, 2.0f, 3.0f}, XYZCoordVector{4.0f, 5.0f, 6.0f}, 7.0f, 8.0f, 9.0f); }
    shower.fill_tracks(a.dt, out); CHECK(c, out.size() >= before, "segments that were already in the list disappeared"); for(std::size_t i = 0; i < before; i++) { CHECK(c, out[i].charge == 9.0f && out[i].start_time == 7.0f, "segments that were already in the list were changed"); }
    std::string why; bool ok = false; for(auto& g : l.groups(a.had, a.en)) { for(std::size_t j = 0; j < g.size(); j++) { if(a.index >= 0 && (int)j != a.index) { continue; } std::string w = compare(l.recs[g[j]], a, out, before); if(w.empty()) { ok = true; scaled = scaled || l.recs[g[j]].en != a.en; } else if(why.empty()) { why = w; } } }
    bool tie_out_of_range = false; if(!ok && a.index >= 0) { for(auto& g : l.groups(a.had, a.en)) { tie_out_of_range = tie_out_of_range || (std::size_t)a.index >= g.size(); } }
    if(!ok && !tie_out_of_range) { FAILS(c, "the shower is not the stored profile: " << why); } some = some || out.size() > before + 1; single = single || a.index < 0;
    // the same shower once more, as samples: same path, and the charge at every point
    std::vector<double> t, x, y, z, q; if(c.boolean()) { t.resize(3, 1.0); q.resize(1000, 5.0); } shower.get_shower(a.dt, &t, &x, &y, &z, &q); std::size_t m = out.size() - before; CHECK(c, t.size() == m + 1 && x.size() == m + 1 && y.size() == m + 1 && z.size() == m + 1 && q.size() == m + 1, t.size() << " shower samples for " << m << " segments");
    for(std::size_t i = 0; i < m; i++) { auto& s = out[before + i]; CHECK(c, std::fabs(t[i] - s.start_time) <= 1e-6 * (t[i] + a.dt) && std::fabs(x[i] / C0 - s.start_pos[0]) <= 1e-6 * (std::fabs(x[i]) / C0 + 1e-3) && std::fabs(y[i] / C0 - s.start_pos[1]) <= 1e-6 * (std::fabs(y[i]) / C0 + 1e-3) && std::fabs(z[i] / C0 - s.start_pos[2]) <= 1e-6 * (std::fabs(z[i]) / C0 + 1e-3) && std::fabs(q[i] - s.charge) <= 1e-6 * std::fabs(q[i]) + 1e-30, "shower sample " << i << " and segment " << i << " differ"); }
    // reported dimensions
    if(c.chance(1, 3)) {
      std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); shower.print_dimensions(); std::cout.rdbuf(old); shower.get_shower(1.0, &t, &x, &y, &z, &q); if(t.size() > 100000) { continue; }
      double rl = 1e300, rh = 0, zl = 1e300, zh = -1e300; for(std::size_t i = 0; i < t.size(); i++) { double r = std::hypot(x[i], y[i]) / C0; rl = std::min(rl, r); rh = std::max(rh, r); zl = std::min(zl, z[i] / C0); zh = std::max(zh, z[i] / C0); }
      std::string s = o.str(); std::vector<double> num; for(std::size_t i = 0; i < s.size();) { char* e; double v = std::strtod(s.c_str() + i, &e); if(e != s.c_str() + i && (std::isdigit((unsigned char)s[i]) || s[i] == '-' || s[i] == '.' || s[i] == ' ')) { num.push_back(v); i = (std::size_t)(e - s.c_str()); } else { i++; } }
      CHECK(c, num.size() == 4, "the dimensions are reported as: " << s); const double want[4] = {rl, rh, zl, zh}; for(int i = 0; i < 4; i++) { CHECK(c, std::fabs(num[(std::size_t)i] - want[i]) <= 1e-4 * (std::fabs(want[i]) + 1e-3), "reported dimensions " << num[0] << " .. " << num[1] << ", " << num[2] << " .. " << num[3] << " instead of " << rl << " .. " << rh << ", " << zl << " .. " << zh); }
      c.label("dimensions");
    }
  }
  c.nontrivial(some); c.label_if(scaled, "scaled to another energy"); c.label_if(single, "random profile"); c.label_if(l.recs.size() > 1, "several profiles");
}
// without a requested number, every stored profile of the closest energy is used at some time, and no other
PROPERTY(selection, 1) {
  Lib l(c); int had = (int)c.integer(0, 1), n = (int)c.integer(1, 3); for(int i = 0; i < n; i++) { Rec r{had, 1e16, {0.0, 500.0}, {(double)(i + 1), (double)(i + 1)}}; l.recs.push_back(r); } int other = (int)c.integer(0, 2); for(int i = 0; i < other; i++) { l.recs.insert(l.recs.begin() + (long)c.draw(l.recs.size()), Rec{c.boolean() ? had : 1 - had, c.pick<double>({1e14, 1e18}), {0.0, 500.0}, {99.0, 99.0}}); }
  NOTE(c, n << " profiles of the same energy among " << l.recs.size()); l.write(); showers::ShowerCreator creator(l.file.string()); std::set<int> used;
  for(int k = 0; k < 150; k++) { std::vector<LineCurrentSegment> out; auto s = creator.create_shower({0.0f, 0.0f, 0.0f}, 1e16, 0.0, 0.0, had); s.fill_tracks(500.0 / (RHO * C0 * 3.5), out); CHECK(c, out.size() == 3, out.size() << " segments"); int q = (int)std::lround(out[1].charge); CHECK(c, q >= 1 && q <= n, "a profile that does not belong to this energy and type was used (charge " << out[1].charge << ")"); used.insert(q); }
  CHECK(c, (int)used.size() == n, "only " << used.size() << " of " << n << " profiles were used in 150 showers"); c.nontrivial(true);
}
// requests that no stored profile can serve, and unreadable files
PROPERTY(refused, 1) {
  Lib l(c); l.plan(4); int kind = (int)c.integer(0, 3); c.nontrivial(true);
  if(kind == 0) { NOTE(c, "missing file"); CHECK(c, pbt::throws([&] { showers::ShowerCreator creator((l.root / "none").string()); }), "a missing profile file was accepted"); return; }
  if(kind == 1) { std::size_t last = 16 + 16 * l.recs.back().g.size(), cut = c.integer<std::size_t>(1, last - 1); l.write(cut); NOTE(c, "last " << cut << " bytes missing"); CHECK(c, pbt::throws([&] { showers::ShowerCreator creator(l.file.string()); }), "a truncated profile file was accepted"); return; }
  l.write(); showers::ShowerCreator creator(l.file.string()); Ask a = draw_ask(l);
  if(kind == 2) { std::size_t most = 0; for(auto& g : l.groups(a.had, a.en)) { most = std::max(most, g.size()); } int i = (int)(most + c.integer<std::size_t>(0, 3)); NOTE(c, "profile " << i); CHECK(c, pbt::throws([&] { auto s = creator.create_shower({0.0f, 0.0f, 0.0f}, a.en, a.zen, a.az, a.had, i); }), "profile number " << i << " was accepted although there are only " << most); }
  else { int had = 1 - a.had; for(auto& r : l.recs) { if(r.had == had) { c.discard(); } } NOTE(c, "type " << had); CHECK(c, pbt::throws([&] { auto s = creator.create_shower({0.0f, 0.0f, 0.0f}, a.en, a.zen, a.az, had, -1); }), "a shower of a type without stored profiles was created"); }
  auto s = creator.create_shower({a.pos[0], a.pos[1], a.pos[2]}, a.en, a.zen, a.az, a.had, 0); std::vector<LineCurrentSegment> out; s.fill_tracks(a.dt, out); bool ok = false; for(auto& g : l.groups(a.had, a.en)) { ok = ok || compare(l.recs[g[0]], a, out, 0).empty(); } CHECK(c, ok, "after a refused request the showers are different");
}
