// S17: storage failures are reported: nothing that could not be written passes as written, nothing damaged passes as data.
#include "stored.hh"
#include "green.hh"
#include "Vector.hh"
#include "SignalExport.hh"
#include <sys/resource.h>
#include <csignal>

// what makes writing fail while this object lives: no file may grow beyond a number of bytes, or a directory that cannot be written
struct Fault {
  int kind; std::size_t limit; fs::path dir; rlimit old{}; bool on = false;
  Fault(int kind, std::size_t limit, const fs::path& d) : kind(kind), limit(limit), dir(d) {
    std::signal(SIGXFSZ, SIG_IGN); std::cout.flush();
    if(kind == 0) { getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = limit; on = setrlimit(RLIMIT_FSIZE, &n) == 0; }
    else { perms(kind == 1 ? 0555 : 0555, kind == 1 ? 0644 : 0444); on = true; }
  }
  Fault(const Fault&) = delete; Fault& operator=(const Fault&) = delete;
  void perms(unsigned d, unsigned f) { std::error_code ec; if(!fs::exists(dir, ec)) { return; } if(d & 0200) { fs::permissions(dir, fs::perms(d), ec); } for(auto& e : fs::directory_iterator(dir, ec)) { fs::permissions(e.path(), fs::perms(f), ec); } if(!(d & 0200)) { fs::permissions(dir, fs::perms(d), ec); } }
  void lift() { if(!on) { return; } on = false; if(kind == 0) { setrlimit(RLIMIT_FSIZE, &old); std::cout.clear(); std::cerr.clear(); } else { perms(0755, 0644); } }
  ~Fault() { lift(); }
  static int draw(pbt::Case& c, std::size_t& limit) { int kind = (int)c.weighted({4, 1, 1}); limit = kind == 0 ? c.weighted({3, 1}) == 0 ? c.small<std::size_t>(0, 1500) : c.integer<std::size_t>(0, 20000) : 0; return kind; }
  static const char* name(int k) { static const char* n[] = {"no file can grow beyond ", "no file can be created, ", "nothing can be written, "}; return n[k]; }
};

// a history during which writing starts to fail
template <std::size_t D, std::size_t V> void writing(pbt::Case& c) {
  World<D, V> w(c); w.careful = true; w.max_overlap = c.chance(1, 4) ? 2 : 0; w.zero_heavy = c.chance(1, 4); w.reg_hints = c.chance(1, 5) ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
  bool large = c.chance(1, 4); if(large) { w.max_gran = 400; } w.plan(3, large ? (D == 1 ? 500 : D == 2 ? 24 : 9) : 0); w.open(); std::size_t n = 0, after = 0, start = c.small<std::size_t>(0, 8); std::unique_ptr<Fault> f; bool reported = false; const char* where = "";
  auto attempt = [&](const char* what, auto&& fn) { try { fn(); } catch(const pbt::Failure&) { throw; } catch(const pbt::Discard&) { throw; } catch(const std::exception& e) { if(!f) { FAILS(c, what << " failed although nothing prevents it: " << e.what()); } NOTE(c, what << " reports: " << e.what()); reported = true; where = what; } };
  while(!reported && c.more(n, 24, 10)) {
    pbt::Case::Span span(c);
    if(n == start) { std::size_t limit; int k = Fault::draw(c, limit); NOTE(c, "from now on " << Fault::name(k) << (k == 0 ? std::to_string(limit) + " bytes" : "")); f = std::make_unique<Fault>(k, limit, w.dir); }
    n++; after += f != nullptr;
    switch(c.weighted({6, 6, 2, 2, 1, 1, 1, 1})) {
      case 0: attempt("registering", [&] { w.reg(*w.d); }); break;
      case 1: attempt("appending", [&] { w.append(); }); break;
      case 2: attempt("flushing", [&] { w.flush(); }); break;
      case 3: attempt("reading", [&] { w.read_points(); }); break;
      case 4: attempt("importing", [&] { w.import(); }); break;
      case 5: attempt("swapping axes", [&] { w.swap_axes(); }); break;
      case 6: attempt("closing and reopening", [&] { w.reopen(); }); break;
      default:
        if(w.tiled() && *std::max_element(w.origin.begin(), w.origin.end()) < (1ull << 30)) {
          SInd<D> lo, hi; w.bbox(lo, hi); auto s = w.draw_chunk_shape(sub<D>(hi, lo)); std::size_t ov = c.integer<std::size_t>(0, 2); auto tmp = w.fresh_dir("tmp"); NOTE(c, "rebuild with chunks " << str<D>(s) << " overlap " << ov);
          attempt("rebuilding", [&] { w.with_evaluator(2, 0, lo, hi, [&](auto& ev) { w.d -> RebuildChunks(vec<D>(s), tmp, ov, ev, w.reg_hints); }); w.blks.clear(); for(auto& g : World<D, V>::grid(lo, hi, s)) { w.blks.push_back({g.first, g.second, g.second, ov, true}); } });
        }
        break;
    }
  }
  if(!reported) { attempt("the final flush", [&] { w.flush(); }); }
  NOTE(c, "close"); w.d.reset(); if(f) { f -> lift(); }
  if(!reported) { NOTE(c, "open without restrictions"); w.d = w.make(w.dir); w.full(*w.d, "nothing was reported"); }
  c.nontrivial(f && (reported || w.blks.size() > 1)); c.label(!f ? "no failure injected" : reported ? std::string("reported by ") + where : "nothing to report"); if(f) { c.label(f -> kind == 0 ? "limited space" : "no permission"); }
}
PROPERTY(writing_1, 2) { writing<1, 1>(c); }
PROPERTY(writing_2, 3) { writing<2, 2>(c); }
PROPERTY(writing_3, 2) { writing<3, 2>(c); }

static std::string damage(pbt::Case& c, const fs::path& p, bool may_remove) {
  if(may_remove && c.chance(1, 3)) { fs::remove(p); return "removed"; }
  std::size_t size = fs::file_size(p), to; switch(c.weighted({1, 2, 2, 1})) { case 0: to = 0; break; case 1: to = c.integer<std::size_t>(0, size - 1); break; case 2: to = size - c.small<std::size_t>(1, std::min<std::size_t>(size, 16)); break; default: to = size / 2; break; }
  fs::resize_file(p, to); return "truncated from " + std::to_string(size) + " to " + std::to_string(to) + " bytes";
}

// a stored array of which files are missing or incomplete
template <std::size_t D, std::size_t V> void reading(pbt::Case& c) {
  World<D, V> w(c); w.careful = true; build(c, w); w.flush(); w.d.reset(); if(w.blks.empty()) { c.discard(); }
  auto index = World<D, V>::read_index(w.dir); std::vector<std::size_t> stored; for(std::size_t k = 0; k < index.size(); k++) { if(index[k].chunk_type == ChunkType::specified) { stored.push_back(k); } }
  if(stored.empty() || c.chance(1, 6)) {
    std::string what = damage(c, w.dir / "index.bin", false); NOTE(c, "index " << what); fs::path copy = w.root / "copy"; fs::copy(w.dir, copy);
    CHECK(c, pbt::throws([&] { auto a = w.make(w.dir); }), "an array with a truncated index was opened");
    for(auto& e : fs::directory_iterator(copy)) { fs::path q = w.dir / e.path().filename(); CHECK(c, fs::exists(q) && fs::file_size(q) == fs::file_size(e.path()), "the refused array was modified: " << q.filename().string()); }
    c.nontrivial(true); c.label("index truncated"); return;
  }
  std::set<std::size_t> hurt; std::map<std::size_t, std::string> intact; auto file = [&](std::size_t k) { return w.dir / (index[k].filepath.string() + ".chunk"); }; std::size_t n = c.small<std::size_t>(1, std::min<std::size_t>(stored.size(), 3));
  for(std::size_t i = 0; i < n; i++) { std::size_t k = stored[c.integer<std::size_t>(0, stored.size() - 1)]; if(!hurt.insert(k).second) { continue; } { std::ifstream in(file(k), std::ios::binary); std::stringstream b; b << in.rdbuf(); intact[k] = b.str(); } std::string what = damage(c, file(k), true); c.label(what.substr(0, what.find(' '))); NOTE(c, "chunk " << str<D>(arr<D>(index[k].start_ind)) << ".." << str<D>(arr<D>(index[k].end_ind)) << " " << what); }
  auto in_hurt = [&](const SInd<D>& lo, const SInd<D>& hi) { for(std::size_t k : hurt) { if(World<D, V>::meet(lo, hi, arr<D>(index[k].start_ind), arr<D>(index[k].end_ind))) { return true; } } return false; };
  NOTE(c, "open"); w.d = w.make(w.dir); std::size_t reads = 0, refused = 0, served = 0, repaired = 0;
  auto attempt = [&](bool bad, const char* what, auto&& fn) { bool thrown = pbt::throws(fn); CHECK(c, thrown || !bad, what << ": data that are not there were returned"); CHECK(c, !thrown || bad, what << ": data that are complete were refused"); (thrown ? refused : served)++; };
  while(c.more(reads, 20, 8)) {
    pbt::Case::Span span(c); reads++; std::size_t b = c.integer<std::size_t>(0, w.blks.size() - 1);
    switch(c.weighted({5, 3, 1, 1, 1})) {
      case 0: { SInd<D> p = w.random_inside(w.blks[b]), q = p; for(auto& x : q) { x++; } NOTE(c, "read element " << str<D>(p)); attempt(in_hurt(p, q), "element", [&] { w.check_point(*w.d, p, w.cells.at(p), "element"); }); break; }
      case 1: { SInd<D> lo = w.blks[b].lo, hi = w.blks[b].hi; for(std::size_t i = 0; i < D; i++) { std::size_t x = c.integer<std::size_t>(lo[i], hi[i] - 1); hi[i] = c.integer<std::size_t>(x + 1, hi[i]); lo[i] = x; } NOTE(c, "read region " << str<D>(lo) << ".." << str<D>(hi)); attempt(in_hurt(lo, hi), "region", [&] { w.check_region(*w.d, lo, hi, "region"); }); break; }
      case 2: if(w.tiled()) { NOTE(c, "iterate"); attempt(!hurt.empty(), "iteration", [&] { w.check_loop(*w.d, "iteration"); }); } break;
      case 3: NOTE(c, "reopen"); w.d.reset(); w.d = w.make(w.dir); break;
      default: if(!hurt.empty()) { std::size_t k = *hurt.begin(); NOTE(c, "put the chunk file of " << str<D>(arr<D>(index[k].start_ind)) << " back"); { std::ofstream o(file(k), std::ios::binary); o << intact[k]; } hurt.erase(k); repaired++; } break;
    }
  }
  w.d.reset(); c.nontrivial(refused > 0 && served > 0); c.label_if(refused > 0, "refused"); c.label_if(refused > 0 && repaired > 0, "file put back"); c.label_if(refused > 0 && served > 0, "refused and served");
}
PROPERTY(reading_1, 1) { reading<1, 1>(c); }
PROPERTY(reading_2, 2) { reading<2, 2>(c); }
PROPERTY(reading_3, 1) { reading<3, 2>(c); }

static std::vector<float> evaluate(GF& g, GreenWorld& w, const double* q, int kernel) {
  std::vector<float> v(4, 0.0f); RZCoordVector rz{w.coord(0, q[0]), w.coord(1, q[1])}; RZFieldVector src{1.0f, 0.5f}; auto it = v.begin();
  if(kernel) { g.accumulate_inner_product<Cub, float>(rz, w.coord(2, q[2]), w.step[2] * 0.5f, v.size(), src, it, 1.0f, Green::OutOfBoundsBehavior::Ignore); } else { g.accumulate_inner_product<Lin, float>(rz, w.coord(2, q[2]), w.step[2] * 0.5f, v.size(), src, it, 1.0f, Green::OutOfBoundsBehavior::Ignore); }
  return v;
}
// a stored Green's function of which files are missing or incomplete
PROPERTY(greens_function, 2) {
  GreenWorld w(c); w.max_r = w.max_z = 4; w.max_t = 12; w.plan(); w.store(2);
  std::size_t n = c.small<std::size_t>(1, 6); struct Q { double q[3]; int kernel; std::vector<float> v; }; std::vector<Q> qs;
  { auto g = open_big<GF>(w.path, (std::size_t)2); for(std::size_t i = 0; i < n; i++) { Q x; for(int ax = 0; ax < 3; ax++) { x.q[ax] = w.draw_index(ax, std::max(0.5, (double)w.N[ax] - 1)); } x.kernel = (int)c.integer(0, 1); x.v = evaluate(*g, w, x.q, x.kernel); qs.push_back(x); } }
  std::vector<fs::path> chunks; for(auto& e : fs::directory_iterator(w.path)) { if(e.path().extension() == ".chunk") { chunks.push_back(e.path()); } } std::sort(chunks.begin(), chunks.end());
  switch(chunks.empty() ? c.weighted({2, 1, 1}) : c.weighted({2, 1, 1, 6})) {
    case 0: { std::string what = damage(c, w.path / "green.meta", true); NOTE(c, "metadata " << what); } CHECK(c, pbt::throws([&] { open_big<GF>(w.path, (std::size_t)1); }), "a Green's function without complete metadata was opened"); c.label("metadata damaged"); c.nontrivial(true); return;
    case 1: { std::string what = damage(c, w.path / "index.bin", false); NOTE(c, "index " << what); } CHECK(c, pbt::throws([&] { open_big<GF>(w.path, (std::size_t)1); }), "a Green's function with a truncated index was opened"); c.label("index damaged"); c.nontrivial(true); return;
    case 2: NOTE(c, "open a Green's function that does not exist"); CHECK(c, pbt::throws([&] { open_big<GF>(w.fresh("none"), (std::size_t)1); }), "a Green's function that does not exist was opened"); c.label("does not exist"); c.nontrivial(true); return;
    default: break;
  }
  // names of chunk files are random: their order is not reproducible, so damage them by rank of their contents
  std::vector<std::pair<std::string, fs::path>> ranked; for(auto& p : chunks) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); ranked.push_back({s.str(), p}); } std::sort(ranked.begin(), ranked.end());
  bool all = c.chance(1, 4); std::size_t one = c.integer<std::size_t>(0, ranked.size() - 1), hurt = 0; for(std::size_t k = 0; k < ranked.size(); k++) { if(all || k == one) { std::string what = damage(c, ranked[k].second, true); NOTE(c, "chunk file " << what); hurt++; } }
  std::size_t cs = c.integer<std::size_t>(0, 2), refused = 0, served = 0; NOTE(c, "open with cache " << cs); auto g = open_big<GF>(w.path, cs);
  for(int round = 0; round < 2; round++) { for(auto& x : qs) {
    NOTE(c, (x.kernel ? "cubic" : "linear") << " at index " << x.q[0] << ", " << x.q[1] << ", " << x.q[2]); std::vector<float> v; bool thrown = pbt::throws([&] { v = evaluate(*g, w, x.q, x.kernel); }); (thrown ? refused : served)++;
    if(!thrown) { for(std::size_t i = 0; i < v.size(); i++) { CHECK(c, std::fabs((double)v[i] - x.v[i]) <= 1e-5 * (w.maxabs + std::fabs(x.v[i])), "sample " << i << " is " << v[i] << " instead of " << x.v[i] << " before chunks were damaged"); } }
    if(hurt == ranked.size() && w.n_null == 0) { CHECK(c, thrown, "no chunk is left, but values were returned"); }
  } }
  c.nontrivial(true); c.label("chunk damaged"); c.label_if(refused > 0, "evaluation refused"); c.label_if(served > 0, "evaluation served");
}

// a Green's function that cannot be stored completely
PROPERTY(store_greens_function, 2) {
  GreenWorld w(c); w.max_r = w.max_z = 4; w.max_t = 16; w.plan(); std::size_t limit = c.chance(1, 2) ? c.small<std::size_t>(0, 2500) : c.integer<std::size_t>(0, 12000); NOTE(c, "no file can grow beyond " << limit << " bytes");
  bool reported; { Fault f(0, limit, w.path); reported = pbt::throws([&] { w.store(2); }); }
  if(!reported) {
    auto g = open_big<GF>(w.path, (std::size_t)1); for(int i = 0; i < 3; i++) { CHECK(c, same_value(g -> start_coords()[i], w.start[i]), "start coordinate " << i << " is " << g -> start_coords()[i]); } g.reset();
    SpatialSymmetry::Cylindrical<float>::darr_t d(w.path); CHECK(c, arr<3>(d.GetShape()) == w.N, "stored shape " << str<3>(arr<3>(d.GetShape())));
    for_box<3>(zero_ind<3>(), w.N, [&](const SInd<3>& i) { auto e = d[vec<3>(i)]; for(std::size_t v = 0; v < 2; v++) { float x = e[v]; CHECK(c, same_value(x, w.field.at(i, v)), "nothing was reported, but element " << str<3>(i) << "." << v << " is " << x << " expected " << w.field.at(i, v)); } });
  }
  c.nontrivial(reported || limit < 5000); c.label(reported ? "creation reported the failure" : "creation succeeded");
}

// exporting a signal
PROPERTY(export_signal, 1) {
  std::size_t n = c.small<std::size_t>(0, 40); std::vector<float> t, v; for(std::size_t i = 0; i < n; i++) { t.push_back((float)c.integer(-1000, 1000) * 0.25f); v.push_back((float)c.real(-5.0, 5.0)); }
  fs::path dir = c.dir() / "out", file = dir / "signal.csv", ref = c.dir() / "ref.csv"; int kind = (int)c.weighted({4, 1, 1, 1, 1}); int tp = (int)c.integer(0, 6), vp = (int)c.integer(0, 9);
  if(kind != 3) { fs::create_directory(dir); } ExportSignal(t, v, ref.string(), tp, vp); std::size_t full = fs::file_size(ref);
  std::size_t limit = kind == 0 ? c.chance(1, 2) ? c.integer<std::size_t>(0, full + 10) : (std::size_t)std::max<long>(0, (long)full + c.integer<long>(-2, 2)) : 0; if(kind == 4) { fs::create_directory(file); }
  static const char* kinds[] = {"limited to ", "directory cannot be written ", "existing file cannot be written ", "directory does not exist ", "path is a directory "}; NOTE(c, n << " samples, " << full << " bytes, " << kinds[kind] << limit);
  if(kind == 2) { std::ofstream(file) << "old"; }
  bool thrown; { std::unique_ptr<Fault> f; if(kind <= 2) { f = std::make_unique<Fault>(kind, limit, dir); } thrown = pbt::throws([&] { ExportSignal(t, v, file.string(), tp, vp); }); }
  if(!thrown) { auto slurp = [](const fs::path& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }; CHECK(c, fs::is_regular_file(file) && slurp(file) == slurp(ref), "nothing was reported, but the file " << (fs::exists(file) ? "is incomplete" : "does not exist")); }
  else { CHECK(c, kind != 0 || limit < full, "there is enough space, but the export failed"); }
  c.nontrivial(n > 0 && (thrown || kind == 0)); c.label(thrown ? "export failed" : "exported"); c.label_if(kind == 0 && !thrown && limit < full + 5, "just enough space");
}
