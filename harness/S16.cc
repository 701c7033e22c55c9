// S16: reading leaves a stored array untouched, so any number of readers can use it at the same time.
#include "stored.hh"
#include "green.hh"
#include <sys/inotify.h>
#include <sys/wait.h>

// observes everything that changes in a directory, by notification and by comparing the contents
struct Watch {
  fs::path dir; int fd = -1; std::map<std::string, std::string> before;
  static std::map<std::string, std::string> contents(const fs::path& p) { std::map<std::string, std::string> r; for(auto& e : fs::directory_iterator(p)) { std::ifstream f(e.path(), std::ios::binary); std::stringstream s; s << f.rdbuf(); r[e.path().filename().string()] = s.str(); } return r; }
  explicit Watch(const fs::path& p) : dir(p), before(contents(p)) {
    fd = inotify_init1(IN_NONBLOCK | IN_CLOEXEC);
    if(fd >= 0 && inotify_add_watch(fd, p.c_str(), IN_MODIFY | IN_CREATE | IN_DELETE | IN_MOVED_FROM | IN_MOVED_TO | IN_CLOSE_WRITE | IN_DELETE_SELF | IN_MOVE_SELF) < 0) { close(fd); fd = -1; }
  }
  Watch(const Watch&) = delete; Watch& operator=(const Watch&) = delete;
  ~Watch() { if(fd >= 0) { close(fd); } }
  bool notified() const { return fd >= 0; }
  void check(pbt::Case& c, const char* what) {
    if(fd >= 0) {
      alignas(struct inotify_event) char buf[4096]; ssize_t n = read(fd, buf, sizeof buf);
      if(n > 0) { auto* e = (struct inotify_event*)buf; FAILS(c, what << ": the stored array was written to: event " << std::hex << e -> mask << std::dec << " on file " << (e -> len ? e -> name : "")); }
    }
    auto now = contents(dir);
    for(auto& [k, v] : before) { auto it = now.find(k); CHECK(c, it != now.end(), what << ": file " << k << " disappeared"); CHECK(c, it -> second == v, what << ": file " << k << " changed from " << v.size() << " to " << it -> second.size() << " bytes or in its contents"); }
    for(auto& [k, v] : now) { CHECK(c, before.count(k), what << ": file " << k << " appeared"); }
  }
};
template <std::size_t D, std::size_t V> struct Readers {
  using W = World<D, V>; using DArr = typename W::DArr; using I = typename W::I;
  pbt::Case& c; W& w; std::vector<std::unique_ptr<DArr>> open; std::size_t opened = 0, most = 0, reads = 0;
  Readers(pbt::Case& c, W& w) : c(c), w(w) { }
  void add() { if(c.chance(1, 4)) { std::size_t cs = c.integer<std::size_t>(0, 3); NOTE(c, "open reader with default parameters and cache " << cs); open.push_back(std::make_unique<DArr>(w.dir, cs, c.integer<std::size_t>(1, 8))); } else { open.push_back(w.make(w.dir)); } opened++; most = std::max(most, open.size()); }
  std::size_t pick() { return c.integer<std::size_t>(0, open.size() - 1); }
  void drop() { std::size_t k = pick(); NOTE(c, "close reader " << k); open.erase(open.begin() + (long)k); }
  void read() {
    if(w.blks.empty()) { return; }
    std::size_t k = pick(); DArr& a = *open[k]; reads++;
    switch(c.weighted({4, 3, 1, 2, 1})) {
      case 0: { std::size_t n = c.small<std::size_t>(1, 8); NOTE(c, "reader " << k << " reads " << n << " elements"); for(std::size_t i = 0; i < n; i++) { I p = w.random_inside(w.blks[c.integer<std::size_t>(0, w.blks.size() - 1)]); w.check_point(a, p, w.cells.at(p), "element"); } break; }
      case 1: { auto& b = w.blks[c.integer<std::size_t>(0, w.blks.size() - 1)]; NOTE(c, "reader " << k << " reads the region of a chunk"); w.check_region(a, b.lo, b.hi, "region"); break; }
      case 2: NOTE(c, "reader " << k << " reads everything"); w.full(a, "everything"); break;
      case 3: NOTE(c, "reader " << k << " asks for the shape"); w.check_shape(a, "shape"); break;
      default: NOTE(c, "reader " << k << " flushes"); a.Flush(); break;
    }
  }
};

// nobody writes: several readers, opened, used and closed in any order
template <std::size_t D, std::size_t V> void sessions(pbt::Case& c) {
  World<D, V> w(c); build(c, w); NOTE(c, "close the writer"); w.d.reset();
  bool ro = c.chance(1, 3); if(ro) { NOTE(c, "the directory is read-only"); }
  ReadOnly perm(w.dir, ro); Watch watch(w.dir); std::size_t n = 0;
  {
    Readers<D, V> r(c, w); r.add();
    while(c.more(n, 16, 7)) {
      pbt::Case::Span span(c); n++;
      switch(c.weighted({2, 6, 2, 1})) { case 0: if(r.open.size() < 4) { r.add(); } break; case 1: if(!r.open.empty()) { r.read(); } break; case 2: if(!r.open.empty()) { r.drop(); } break; default: watch.check(c, "while reading"); break; }
    }
    c.nontrivial(w.blks.size() > 1 && r.reads > 0); c.label_if(r.most > 1, "several readers at once");
  }
  watch.check(c, "after all readers closed"); c.label(watch.notified() ? "watched" : "contents compared"); c.label_if(ro, "read-only directory");
  NOTE(c, "final reader"); auto a = w.make(w.dir); w.full(*a, "final reader"); a.reset(); watch.check(c, "after the final reader");
}
PROPERTY(sessions_1, 1) { sessions<1, 1>(c); }
PROPERTY(sessions_2, 3) { sessions<2, 2>(c); }
PROPERTY(sessions_3, 2) { sessions<3, 2>(c); }

// readers come and go while one writer extends the array: what the writer flushed is never undone, and readers see what was stored when they opened it
template <std::size_t D, std::size_t V> void beside_writer(pbt::Case& c) {
  World<D, V> w(c); w.plan(4); w.open(); std::size_t n = 0, stale = 0;
  for(std::size_t k = c.integer<std::size_t>(0, 3); k-- > 0;) { w.reg(*w.d, false); }
  w.flush();
  using Blk = typename World<D, V>::Blk; struct Reader { std::unique_ptr<typename World<D, V>::DArr> a; std::vector<Blk> blks; };
  std::vector<Reader> rs; std::vector<Blk> flushed = w.blks; std::size_t appended = 0;
  auto verify = [&](Reader& r, const char* what) { for(auto& b : r.blks) { w.check_region(*r.a, b.lo, b.hi, what); auto p = w.random_inside(b); w.check_point(*r.a, p, w.cells.at(p), what); } };
  while(c.more(n, 24, 9)) {
    pbt::Case::Span span(c); n++;
    switch(c.weighted({4, 3, 3, 3, 3, 1, 3, 1})) {
      case 0: w.reg(*w.d); break;
      case 1: w.flush(); flushed = w.blks; break;
      case 2: if(rs.size() < 4) { NOTE(c, "reader:"); rs.push_back({w.make(w.dir), flushed}); } break;
      case 3: if(!rs.empty()) { std::size_t k = c.integer<std::size_t>(0, rs.size() - 1); NOTE(c, "read through reader " << k); verify(rs[k], "reader beside a writer"); } break;
      case 4: if(!rs.empty()) { std::size_t k = c.integer<std::size_t>(0, rs.size() - 1); NOTE(c, "close reader " << k); stale += rs[k].blks.size() < w.blks.size(); rs.erase(rs.begin() + (long)k); } break;
      case 5: w.read_points(); break;
      case 6: appended += w.append() && !rs.empty(); break;
      default: w.import(); break;
    }
  }
  bool writer_first = c.boolean(); NOTE(c, "close all, writer " << (writer_first ? "first" : "last"));
  if(writer_first) { w.d.reset(); rs.clear(); } else { rs.clear(); w.d.reset(); }
  NOTE(c, "reopen"); w.d = w.make(w.dir); w.full(*w.d, "after all were closed");
  c.nontrivial(w.blks.size() > 1 && stale > 0); c.label_if(stale > 0, "reader closed after the writer went on"); c.label_if(appended > 0, "appended beside a reader");
}
PROPERTY(beside_1, 1) { beside_writer<1, 1>(c); }
PROPERTY(beside_2, 2) { beside_writer<2, 2>(c); }

// several processes read at the same time
PROPERTY(processes, 1) {
  using W = World<2, 2>; W w(c); build(c, w); w.d.reset(); if(w.blks.empty()) { c.discard(); }
  std::size_t np = c.integer<std::size_t>(2, 3), rounds = c.integer<std::size_t>(1, 6); NOTE(c, np << " processes read everything " << rounds << " times");
  int p[2]; if(pipe(p)) { c.discard(); }
  std::vector<pid_t> kids;
  for(std::size_t k = 0; k < np; k++) {
    pid_t pid = fork(); if(pid < 0) { break; }
    if(pid == 0) {
      std::string msg;
      try {
        for(std::size_t i = 0; i < rounds; i++) {
          W::DArr a(w.dir, k + i % 2, Ind<2>(3), Ind<2>(4));
          W::I lo, hi; w.bbox(lo, hi); W::I want = w.tiled() ? sub<2>(hi, lo) : zero_ind<2>();
          if(arr<2>(a.GetShape()) != want) { throw std::runtime_error("shape " + str<2>(arr<2>(a.GetShape())) + " expected " + str<2>(want)); }
          for(auto& [ind, v] : w.cells) { auto e = a[vec<2>(ind)]; for(std::size_t q = 0; q < 2; q++) { float x = e[q]; if(!same_value(x, v[q])) { throw std::runtime_error("wrong element " + str<2>(ind)); } } }
        }
      } catch(const std::exception& e) { msg = e.what(); } catch(...) { msg = "unknown error"; }
      if(!msg.empty()) { msg += "; "; (void)!write(p[1], msg.data(), msg.size()); _exit(1); }
      _exit(0);
    }
    kids.push_back(pid);
  }
  close(p[1]); std::string all; char buf[512]; ssize_t n; while((n = read(p[0], buf, sizeof buf)) > 0) { all.append(buf, (std::size_t)n); } close(p[0]);
  bool ok = true; for(pid_t k : kids) { int st = 0; waitpid(k, &st, 0); if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { ok = false; all += "status " + std::to_string(st) + "; "; } }
  CHECK(c, ok, "concurrent reader: " << all);
  auto a = w.make(w.dir); w.full(*a, "after concurrent readers"); c.nontrivial(w.blks.size() > 1 && kids.size() > 1); c.label("processes");
}

// the same for stored Green's functions
PROPERTY(greens_function, 1) {
  GreenWorld w(c); w.max_r = w.max_z = 4; w.max_t = 12; w.plan(); w.store(2);
  bool ro = c.boolean(); ReadOnly perm(w.path, ro); Watch watch(w.path); std::size_t k = c.integer<std::size_t>(1, 2), reads = 0;   // every cache entry reserves half a gigabyte of address space
  {
    std::vector<std::unique_ptr<GF>> gs; for(std::size_t i = 0; i < k; i++) { std::size_t cs = c.integer<std::size_t>(0, 2); NOTE(c, "open with cache " << cs); gs.push_back(open_big<GF>(w.path, cs)); }
    std::size_t n = c.small<std::size_t>(1, 6);
    for(std::size_t i = 0; i < n; i++) {
      double q[3]; for(int ax = 0; ax < 3; ax++) { q[ax] = w.draw_index(ax, std::max(0.5, (double)w.N[ax] - 1)); }
      std::vector<std::vector<float>> res;
      for(auto& g : gs) { std::vector<float> v(5, 0.0f); RZCoordVector rz{w.coord(0, q[0]), w.coord(1, q[1])}; RZFieldVector src{1.0f, 0.5f}; auto it = v.begin(); g -> accumulate_inner_product<Cub, float>(rz, w.coord(2, q[2]), w.step[2] * 0.5f, v.size(), src, it, 1.0f, Green::OutOfBoundsBehavior::Ignore); res.push_back(v); reads++; }
      for(auto& v : res) { CHECK(c, v == res[0], "two readers of the same Green's function disagree"); }
    }
    watch.check(c, "while the Green's function is in use");
  }
  watch.check(c, "after the Green's function was closed"); c.nontrivial(reads > 1 && k > 1); c.label("Green's function");
}
