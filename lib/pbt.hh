// A small property-based testing engine (choice-sequence based, in the style of Hypothesis).
//
//  * Every random decision of a case is a bounded integer drawn through Case::draw(); the list of the
//    decisions *is* the test case: it is recorded (in shared memory, so that it survives a crash of the
//    code under test), shrunk (deleting / zeroing / lowering decisions) and stored as the replay file.
//  * Cases run in forked workers, so that asserts, signals, sanitizer reports and runaway loops in the
//    code under test are observed as failures of the case that caused them.
//  * A run is a pure function of (code, seed, number of cases): case i of property p uses the generator
//    seeded with hash(seed, p, i).
#pragma once

#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <grp.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

using u64 = std::uint64_t;

struct Failure { std::string msg; };
struct Discard { };

inline u64 splitmix(u64& s) {
  u64 z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

inline u64 mix(u64 h, u64 v) { u64 s = h ^ (v * 0xff51afd7ed558ccdull + 0x2545F4914F6CDD1Dull); return splitmix(s); }
inline u64 hash_str(const std::string& s) { u64 h = 1469598103934665603ull; for(char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }

constexpr std::size_t max_choices = 1u << 16;
constexpr std::size_t max_spans = 1u << 14;
constexpr std::size_t max_msg = 1u << 13;
constexpr std::size_t max_notes = 1u << 16;
constexpr std::size_t max_labels = 192;
constexpr std::size_t label_len = 64;
constexpr std::size_t max_hashes = 1u << 20;
constexpr std::size_t max_samples = 4;
constexpr std::size_t sample_len = 1800;

enum Status : int { ST_IDLE = 0, ST_RUNNING = 1, ST_PASS = 2, ST_DISCARD = 3, ST_FAIL = 4 };

// lives in shared memory, one per worker
struct Shared {
  volatile int status;
  volatile int prop;
  volatile u64 case_index;
  volatile u64 n_choices;
  u64 choices[max_choices];
  u64 n_spans;
  struct { std::uint32_t b, e; } spans[max_spans];
  char msg[max_msg];
  char notes[max_notes];
  u64 notes_len;
  // statistics
  u64 evaluated, discarded, nontrivial;
  u64 n_hashes;
  u64 hashes[max_hashes];
  u64 n_labels;
  struct { char name[label_len]; u64 count; } labels[max_labels];
  u64 n_samples;
  char samples[max_samples][sample_len];
};

inline Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(p == MAP_FAILED) { std::perror("mmap"); std::_Exit(2); }
  return (Shared*)p;
}

struct GlobalConfig {
  bool thorough = false;
  std::string scratch = "/tmp";
  std::string scratch2;           // a second scratch directory, on another file system where there is one
};
inline GlobalConfig& cfg() { static GlobalConfig c; return c; }

// removes what the worker `pid` left in the scratch directories
inline void purge(long pid) { for(auto& s : {cfg().scratch, cfg().scratch2}) { std::error_code ec; if(!s.empty()) { std::filesystem::remove_all(std::filesystem::path(s) / std::format("p{}", pid), ec); } } }

class Case {
public:
  Case(Shared* sh, u64 seed) : m_sh(sh), m_rng(seed), m_replay(nullptr) { }
  Case(Shared* sh, const std::vector<u64>* replay) : m_sh(sh), m_rng(0), m_replay(replay) { m_noting = true; }

  // ---- decisions -------------------------------------------------------------------------------
  // one decision in [0, bound]; `sampler` (used only when generating) proposes a value
  template <class SamplerT>
  u64 draw_with(u64 bound, SamplerT&& sampler) {
    u64 v;
    if(m_replay) { v = m_pos < m_replay -> size() ? std::min((*m_replay)[m_pos], bound) : 0; }
    else { v = std::min<u64>(sampler(), bound); }
    if(m_pos >= max_choices) { throw Discard{}; }
    m_sh -> choices[m_pos] = v;
    m_pos++;
    m_sh -> n_choices = m_pos;
    m_hash = mix(m_hash, v + 1);
    return v;
  }
  u64 rnd() { return splitmix(m_rng); }
  u64 rnd(u64 bound) { return bound == ~0ull ? rnd() : rnd() % (bound + 1); }
  double rnd01() { return (double)(rnd() >> 11) * 0x1.0p-53; }

  u64 draw(u64 bound) { return draw_with(bound, [&]{ return rnd(bound); }); }

  // integer in [lo, hi], mild bias towards the ends; shrinks towards lo
  template <class I> I integer(I lo, I hi) {
    assert(lo <= hi);
    u64 bound = (u64)((std::int64_t)hi - (std::int64_t)lo);
    u64 v = draw_with(bound, [&]() -> u64 { u64 r = rnd(15); if(r == 0) { return 0; } if(r == 1) { return bound; } return rnd(bound); });
    return (I)((std::int64_t)lo + (std::int64_t)v);
  }
  // integer in [lo, hi] biased to small values
  template <class I> I small(I lo, I hi) {
    u64 bound = (u64)((std::int64_t)hi - (std::int64_t)lo);
    u64 v = draw_with(bound, [&]() -> u64 { u64 r = rnd(15); if(r == 0) { return bound; } return (u64)((double)(bound + 1) * rnd01() * rnd01()); });
    return (I)((std::int64_t)lo + (std::int64_t)v);
  }
  bool boolean() { return draw(1) != 0; }
  // true with probability num/den; shrinks towards false
  bool chance(u64 num, u64 den) { return draw_with(1, [&]{ return rnd(den - 1) < num ? 1 : 0; }) != 0; }
  // picks an element of a list; shrinks towards the first
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
  // weighted choice of an alternative; shrinks towards alternative 0
  std::size_t weighted(std::initializer_list<int> w) {
    int total = 0; for(int x : w) { total += x; }
    return draw_with(w.size() - 1, [&]() -> u64 {
      int r = (int)rnd(total - 1); std::size_t i = 0;
      for(int x : w) { if(r < x) { return i; } r -= x; i++; }
      return w.size() - 1; });
  }
  // real number in [lo, hi] on a grid of 2^24 steps, with a share of "round" positions; shrinks towards lo
  double real(double lo, double hi) {
    constexpr u64 N = 1u << 24;
    u64 k = draw_with(N, [&]() -> u64 {
      u64 r = rnd(19); if(r == 0) { return 0; } if(r == 1) { return N; } if(r <= 4) { return rnd(16) * (N / 16); } return rnd(N); });
    return lo + (hi - lo) * ((double)k / (double)N);
  }
  // "is there another item": at most `max`, on average about `avg`; each item should sit in a Span
  bool more(std::size_t done, std::size_t max, double avg) {
    if(done >= max) { return false; }
    return draw_with(1, [&]() -> u64 { return rnd01() < avg / (avg + 1.0) ? 1 : 0; }) != 0;
  }
  struct Span {
    Case& c; std::size_t id;
    Span(Case& c) : c(c), id(c.m_sh -> n_spans) {
      if(id < max_spans) { c.m_sh -> n_spans++; c.m_sh -> spans[id].b = c.m_pos; c.m_sh -> spans[id].e = c.m_pos; }
    }
    ~Span() { if(id < max_spans) { c.m_sh -> spans[id].e = c.m_pos; } }
  };

  // ---- verdicts and bookkeeping ----------------------------------------------------------------
  [[noreturn]] void fail(const std::string& msg) { throw Failure{msg}; }
  void check(bool ok, const std::string& msg) { if(!ok) { throw Failure{msg}; } }
  template <class F> void check_f(bool ok, F&& msg) { if(!ok) { std::ostringstream s; msg(s); throw Failure{s.str()}; } }
  [[noreturn]] void discard() { throw Discard{}; }
  void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
  bool is_nontrivial() const { return m_nontrivial; }
  void label(const std::string& l) { m_labels.insert(l); }
  void label_if(bool b, const char* l) { if(b) { m_labels.insert(l); } }

  bool noting() const { return m_noting; }
  void set_noting(bool b) { m_noting = b; }
  void note_str(const std::string& s) {
    u64 room = max_notes - 1 - m_sh -> notes_len;
    u64 n = std::min<u64>(room, s.size());
    std::memcpy(m_sh -> notes + m_sh -> notes_len, s.data(), n);
    m_sh -> notes_len += n;
    if(n < room) { m_sh -> notes[m_sh -> notes_len++] = '\n'; }
    m_sh -> notes[m_sh -> notes_len] = 0;
  }

  // a fresh, empty directory private to this case, removed afterwards
  std::filesystem::path dir() {
    if(m_dir.empty()) {
      m_dir = std::filesystem::path(cfg().scratch) / std::format("p{}", (long)getpid());
      std::filesystem::remove_all(m_dir);
      std::filesystem::create_directories(m_dir);
    }
    return m_dir;
  }
  // another one, on a different file system where the machine has one (renaming between the two fails)
  std::filesystem::path dir2() {
    if(cfg().scratch2.empty()) { return dir(); }
    if(m_dir2.empty()) {
      m_dir2 = std::filesystem::path(cfg().scratch2) / std::format("p{}", (long)getpid());
      std::filesystem::remove_all(m_dir2);
      std::filesystem::create_directories(m_dir2);
    }
    return m_dir2;
  }
  void cleanup() {
    if(!m_dir.empty()) { std::error_code ec; std::filesystem::remove_all(m_dir, ec); m_dir.clear(); }
    if(!m_dir2.empty()) { std::error_code ec; std::filesystem::remove_all(m_dir2, ec); m_dir2.clear(); }
  }

  u64 hash() const { return m_hash; }
  const std::set<std::string>& labels() const { return m_labels; }

private:
  Shared* m_sh;
  u64 m_rng;
  const std::vector<u64>* m_replay;
  std::size_t m_pos = 0;
  u64 m_hash = 0x1234567;
  bool m_nontrivial = false;
  bool m_noting = false;
  std::set<std::string> m_labels;
  std::filesystem::path m_dir, m_dir2;
};

#define NOTE(c, expr) do { if((c).noting()) { std::ostringstream note_os_; note_os_ << expr; (c).note_str(note_os_.str()); } } while(0)
#define FAILS(c, expr) do { std::ostringstream fail_os_; fail_os_ << expr; (c).fail(fail_os_.str()); } while(0)
#define CHECK(c, cond, expr) do { if(!(cond)) { std::ostringstream fail_os_; fail_os_ << "CHECK(" #cond ") line " << __LINE__ << ": " << expr; (c).fail(fail_os_.str()); } } while(0)

struct Prop { std::string name; int weight; std::function<void(Case&)> fn; };
struct Pinned { std::string slug; std::function<void(Case&)> fn; };
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
inline std::vector<Pinned>& pinned() { static std::vector<Pinned> p; return p; }
struct Reg { Reg(const char* n, int w, std::function<void(Case&)> f) { props().push_back({n, w, f}); } };
struct RegPinned { RegPinned(const char* n, std::function<void(Case&)> f) { pinned().push_back({n, f}); } };

// PROPERTY(name, weight) { ... uses `c` ... }
#define PROPERTY(name, weight) static void prop_##name(pbt::Case& c); static pbt::Reg reg_##name(#name, weight, prop_##name); static void prop_##name(pbt::Case& c)
#define PINNED(name, slug) static void pinned_##name(pbt::Case& c); static pbt::RegPinned regp_##name(slug, pinned_##name); static void pinned_##name(pbt::Case& c)

// runs `fn` and reports whether it threw an exception derived from std::exception
template <class F> bool throws(F&& fn) {
  try { fn(); } catch(const Failure&) { throw; } catch(const Discard&) { throw; } catch(const std::exception&) { return true; }
  return false;
}

// ------------------------------------------------------------------------------------------------

inline int run_one(Shared* sh, Case& c, const std::function<void(Case&)>& fn) {
  sh -> n_choices = 0; sh -> n_spans = 0; sh -> notes_len = 0; sh -> notes[0] = 0; sh -> msg[0] = 0;
  sh -> status = ST_RUNNING;
  int st = ST_PASS;
  auto setmsg = [&](const std::string& m) { std::snprintf(sh -> msg, max_msg, "%s", m.c_str()); };
  try { fn(c); }
  catch(const Failure& f) { setmsg(f.msg); st = ST_FAIL; }
  catch(const Discard&) { st = ST_DISCARD; }
  catch(const std::exception& e) { setmsg(std::string("unexpected exception: ") + e.what()); st = ST_FAIL; }
  catch(...) { setmsg("unexpected exception of unknown type"); st = ST_FAIL; }
  c.cleanup();
  sh -> status = st;
  return st;
}

struct Options {
  u64 seed = 1;
  u64 cases = 1000;
  double time_limit = 600;
  int jobs = 8;
  int cpu_limit = 60;           // CPU seconds a single case may use
  double shrink_time = 60;
  std::string only, replay, out, scratch, pinned, property = "?";
  bool mem_limit = true;
};

inline void child_setup(const Options& opt) {
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = (rlim_t)1 << 30; setrlimit(RLIMIT_FSIZE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
  if(opt.mem_limit) { rl.rlim_cur = rl.rlim_max = (rlim_t)5 << 30; setrlimit(RLIMIT_AS, &rl); }
  mallopt(M_PERTURB, 0xA5);
#endif
  if(!std::getenv("PBT_SHOW")) {
    int fd = open("/dev/null", O_RDWR);
    if(fd >= 0) { dup2(fd, 0); dup2(fd, 1); if(!std::getenv("PBT_STDERR")) { dup2(fd, 2); } if(fd > 2) { close(fd); } }
  }
  // the code under test moves and deletes files: let it run as a user that owns nothing but the scratch directory
  if(geteuid() == 0) {
    umask(022);
    if(setgroups(0, nullptr) == 0 && setresgid(65534, 65534, 65534) == 0) { if(setresuid(65534, 65534, 65534) != 0) { } }
  }
  if(chdir(cfg().scratch.c_str()) != 0) { }
}

inline void arm_cpu_timer(int secs) {
  struct itimerval it; std::memset(&it, 0, sizeof(it)); it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
  // a case that waits for something that never happens uses no CPU time
  alarm(secs * 5 / 2);
}

inline std::string describe_death(int wstatus, const Options& opt) {
  if(WIFSIGNALED(wstatus)) {
    int s = WTERMSIG(wstatus);
    if(s == SIGPROF) { return std::format("did not finish within {} CPU seconds", opt.cpu_limit); }
    if(s == SIGALRM) { return std::format("did not finish within {} seconds", opt.cpu_limit * 5 / 2); }
    return std::format("crashed with signal {} ({})", s, strsignal(s));
  }
  if(WIFEXITED(wstatus)) { return std::format("process exited with code {} during the case", WEXITSTATUS(wstatus)); }
  return "died";
}

struct Outcome { int status = ST_IDLE; std::string msg; std::string notes; std::vector<u64> choices; std::vector<std::pair<u64, u64>> spans; };

inline bool never_finished(const Outcome& o) { return o.msg.starts_with("did not finish within"); }

// executes one choice sequence in an isolated child
inline Outcome run_isolated(Shared* sh, const std::function<void(Case&)>& fn, const std::vector<u64>& choices, const Options& opt, int cpu_limit = 0) {
  std::fflush(nullptr);
  sh -> status = ST_RUNNING; sh -> n_choices = 0; sh -> n_spans = 0; sh -> notes_len = 0; sh -> notes[0] = 0; sh -> msg[0] = 0;
  pid_t pid = fork();
  if(pid == 0) {
    child_setup(opt);
    arm_cpu_timer(cpu_limit ? cpu_limit : opt.cpu_limit);
    Case c(sh, &choices);
    run_one(sh, c, fn);
    _exit(0);
  }
  int ws = 0; waitpid(pid, &ws, 0);
  purge(pid);
  Outcome o;
  o.status = sh -> status;
  o.msg = sh -> msg;
  if(o.status == ST_RUNNING || WIFSIGNALED(ws)) { o.status = ST_FAIL; o.msg = describe_death(ws, opt); }
  o.notes = std::string(sh -> notes, sh -> notes_len);
  o.choices.assign(sh -> choices, sh -> choices + sh -> n_choices);
  for(u64 i = 0; i < sh -> n_spans; i++) { o.spans.push_back({sh -> spans[i].b, std::max(sh -> spans[i].b, sh -> spans[i].e)}); }
  return o;
}

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// shortlex order on choice sequences
inline bool simpler(const std::vector<u64>& a, const std::vector<u64>& b) {
  if(a.size() != b.size()) { return a.size() < b.size(); }
  return a < b;
}

inline Outcome shrink(Shared* sh, const std::function<void(Case&)>& fn, Outcome best, const Options& opt, u64& tried) {
  double t_end = now() + opt.shrink_time;
  if(never_finished(best)) { return best; }
  auto attempt = [&](const std::vector<u64>& cand) -> bool {
    if(now() > t_end || !simpler(cand, best.choices)) { return false; }
    tried++;
    Outcome o = run_isolated(sh, fn, cand, opt, 10);
    if(o.status == ST_FAIL && !never_finished(o) && simpler(o.choices, best.choices)) { best = o; return true; }
    return false;
  };
  bool progress = true;
  while(progress && now() < t_end) {
    progress = false;
    // whole spans, longest first
    for(bool again = true; again && now() < t_end; ) {
      again = false;
      auto spans = best.spans;
      std::sort(spans.begin(), spans.end(), [](auto& a, auto& b){ return a.second - a.first > b.second - b.first; });
      for(auto [b, e] : spans) {
        if(e <= b || e > best.choices.size()) { continue; }
        std::vector<u64> cand = best.choices;
        cand.erase(cand.begin() + b, cand.begin() + e);
        // the decision in front of the span usually is its `more` flag
        if(attempt(cand)) { again = progress = true; break; }
        if(b > 0) {
          cand = best.choices;
          cand.erase(cand.begin() + (b - 1), cand.begin() + e);
          if(attempt(cand)) { again = progress = true; break; }
        }
      }
    }
    for(std::size_t len : {64, 16, 8, 4, 2, 1}) {
      for(std::size_t i = best.choices.size(); i >= len && now() < t_end; ) {
        i = std::min(i, best.choices.size());
        if(i < len) { break; }
        std::vector<u64> cand = best.choices;
        cand.erase(cand.begin() + (i - len), cand.begin() + i);
        if(attempt(cand)) { progress = true; i = std::min(i, best.choices.size()); } else { i--; }
        if(len > 2 && i % len) { i = i / len * len; }
      }
    }
    for(std::size_t len : {32, 8, 2, 1}) {
      for(std::size_t i = 0; i + len <= best.choices.size() && now() < t_end; i += len) {
        bool all0 = true; for(std::size_t k = 0; k < len; k++) { all0 = all0 && best.choices[i + k] == 0; }
        if(all0) { continue; }
        std::vector<u64> cand = best.choices;
        for(std::size_t k = 0; k < len; k++) { cand[i + k] = 0; }
        if(attempt(cand)) { progress = true; }
      }
    }
    for(std::size_t i = 0; i < best.choices.size() && now() < t_end; i++) {
      // binary search for the smallest value that still fails
      u64 lo = 0, hi = best.choices[i];
      while(lo < hi && now() < t_end && i < best.choices.size()) {
        u64 mid = lo + (hi - lo) / 2;
        std::vector<u64> cand = best.choices; cand[i] = mid;
        if(attempt(cand)) { progress = true; if(i >= best.choices.size()) { break; } hi = std::min(mid, best.choices[i]); } else { lo = mid + 1; }
      }
    }
  }
  return best;
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for(unsigned char ch : s) {
    if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if(ch == '\n') { o += "\\n"; }
    else if(ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, 8, "\\u%04x", ch); o += b; }
    else { o += ch; }
  }
  return o + "\"";
}

struct Replay { std::string prop; std::vector<u64> choices; };

inline Replay read_replay(const std::string& path) {
  // line format:  "prop <name>" / "choices <n> <c0> <c1> ..." ; everything else is commentary
  Replay r; std::ifstream f(path); std::string line;
  while(std::getline(f, line)) {
    std::istringstream s(line); std::string k; s >> k;
    if(k == "prop") { s >> r.prop; }
    else if(k == "choices") { u64 n; s >> n; for(u64 i = 0; i < n; i++) { u64 v; s >> v; r.choices.push_back(v); } }
  }
  return r;
}

inline void write_replay(const std::string& path, const std::string& prop, const Outcome& o) {
  std::ofstream f(path);
  f << "prop " << prop << "\nchoices " << o.choices.size();
  for(u64 v : o.choices) { f << ' ' << v; }
  f << "\n\n# failure: " << o.msg << "\n# case:\n";
  std::istringstream s(o.notes); std::string line;
  while(std::getline(s, line)) { f << "#   " << line << "\n"; }
}

inline int main_impl(int argc, char** argv) {
  Options opt;
  for(int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if(i + 1 >= argc) { std::fprintf(stderr, "missing value for %s\n", a.c_str()); std::exit(2); } return argv[++i]; };
    if(a == "--seed") { opt.seed = std::stoull(val()); }
    else if(a == "--cases") { opt.cases = std::stoull(val()); }
    else if(a == "--time") { opt.time_limit = std::stod(val()); }
    else if(a == "--jobs") { opt.jobs = std::stoi(val()); }
    else if(a == "--cpu") { opt.cpu_limit = std::stoi(val()); }
    else if(a == "--shrink-time") { opt.shrink_time = std::stod(val()); }
    else if(a == "--only") { opt.only = val(); }
    else if(a == "--replay") { opt.replay = val(); }
    else if(a == "--pinned") { opt.pinned = val(); }
    else if(a == "--out") { opt.out = val(); }
    else if(a == "--scratch") { opt.scratch = val(); }
    else if(a == "--scratch2") { cfg().scratch2 = std::filesystem::absolute(val()).string(); }
    else if(a == "--property") { opt.property = val(); }
    else if(a == "--thorough") { cfg().thorough = true; }
    else if(a == "--list") { for(auto& p : props()) { std::printf("%s %d\n", p.name.c_str(), p.weight); } for(auto& p : pinned()) { std::printf("pinned %s\n", p.slug.c_str()); } return 0; }
    else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  bool own_scratch = opt.scratch.empty();
  if(own_scratch) {
    char tmpl[] = "/tmp/pbtXXXXXX"; if(!mkdtemp(tmpl)) { return 2; }
    opt.scratch = tmpl;
  }
  cfg().scratch = std::filesystem::absolute(opt.scratch).string();
  chmod(cfg().scratch.c_str(), 0777);
  auto finish = [&](int rc) { if(own_scratch) { std::error_code ec; std::filesystem::remove_all(cfg().scratch, ec); } return rc; };

  Shared* sh0 = new_shared();

  if(!opt.pinned.empty()) {
    for(auto& p : pinned()) {
      if(p.slug != opt.pinned) { continue; }
      Outcome o = run_isolated(sh0, p.fn, {}, opt);
      std::printf("%s %s: %s\n", p.slug.c_str(), o.status == ST_FAIL ? "FAILS" : "passes", o.msg.c_str());
      return finish(o.status == ST_FAIL ? 1 : 0);
    }
    std::printf("no pinned case %s\n", opt.pinned.c_str());
    return finish(2);
  }

  if(!opt.replay.empty()) {
    Replay r = read_replay(opt.replay);
    for(auto& p : props()) {
      if(p.name != r.prop) { continue; }
      Outcome o = run_isolated(sh0, p.fn, r.choices, opt);
      std::printf("%s\nresult: %s %s\n", o.notes.c_str(), o.status == ST_FAIL ? "FAIL" : o.status == ST_PASS ? "pass" : "discarded", o.msg.c_str());
      return finish(o.status == ST_FAIL ? 1 : 0);
    }
    std::printf("no property %s\n", r.prop.c_str());
    return finish(2);
  }

  // ---- exploration -----------------------------------------------------------------------------
  std::vector<int> sel; int total_w = 0;
  for(std::size_t i = 0; i < props().size(); i++) { if(opt.only.empty() || props()[i].name == opt.only) { sel.push_back((int)i); total_w += props()[i].weight; } }
  if(sel.empty()) { return finish(2); }

  // schedule: list of (property, first case, count), interleaved by blocks so that every property gets its share early
  std::vector<u64> want(props().size(), 0);
  for(int i : sel) { want[i] = std::max<u64>(1, opt.cases * props()[i].weight / total_w); }
  u64 total = 0; for(int i : sel) { total += want[i]; }

  struct Control { std::atomic<u64> next; std::atomic<int> stop; };
  Control* ctl = (Control*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ctl -> next = 0; ctl -> stop = 0;

  // ticket t -> (property, case): proportional interleaving, computed up front
  std::vector<std::pair<int, u64>> tickets; tickets.reserve(total);
  {
    std::vector<u64> done(props().size(), 0);
    while(tickets.size() < total) {
      for(int i : sel) {
        u64 target = (u64)((double)want[i] * (double)(tickets.size() + 1) / (double)total) + 1;
        while(done[i] < std::min(target, want[i]) && tickets.size() < total) { tickets.push_back({i, done[i]++}); }
      }
    }
  }

  double t0 = now(), t_end = t0 + opt.time_limit;
  std::vector<Shared*> shs; std::vector<pid_t> pids;
  std::fflush(nullptr);
  for(int w = 0; w < opt.jobs; w++) {
    Shared* sh = new_shared(); shs.push_back(sh);
    pid_t pid = fork();
    if(pid == 0) {
      child_setup(opt);
      std::unordered_set<u64> seen;
      std::map<std::string, int> label_ind;
      while(!ctl -> stop && now() < t_end) {
        u64 t = ctl -> next.fetch_add(1);
        if(t >= tickets.size()) { break; }
        auto [pi, ci] = tickets[t];
        const Prop& p = props()[pi];
        u64 s = mix(mix(mix(opt.seed, hash_str(opt.property)), hash_str(p.name)), ci);
        sh -> prop = pi; sh -> case_index = t;
        Case c(sh, s);
        c.set_noting(w == 0 && sh -> n_samples < max_samples && ci > 20);
        arm_cpu_timer(opt.cpu_limit);
        int st = run_one(sh, c, p.fn);
        if(st == ST_FAIL) { ctl -> stop = 1; _exit(3); }
        if(st == ST_DISCARD) { sh -> discarded++; continue; }
        sh -> evaluated++;
        if(c.is_nontrivial()) {
          sh -> nontrivial++;
          if(sh -> n_hashes < max_hashes && seen.insert(mix(c.hash(), pi)).second) { sh -> hashes[sh -> n_hashes++] = mix(c.hash(), pi); }
          if(c.noting() && sh -> notes_len > 0) { std::snprintf(sh -> samples[sh -> n_samples++], sample_len, "[%s] %s", p.name.c_str(), sh -> notes); }
        }
        for(const std::string& l0 : c.labels()) {
          std::string l = p.name + ": " + l0;
          auto it = label_ind.find(l);
          if(it == label_ind.end()) {
            if(sh -> n_labels >= max_labels) { continue; }
            it = label_ind.emplace(l, (int)sh -> n_labels).first;
            std::snprintf(sh -> labels[sh -> n_labels].name, label_len, "%s", l.c_str());
            sh -> labels[sh -> n_labels].count = 0; sh -> n_labels++;
          }
          sh -> labels[it -> second].count++;
        }
      }
      sh -> status = ST_IDLE;
      _exit(0);
    }
    pids.push_back(pid);
  }

  struct Found { u64 ticket; int prop; Outcome o; };
  std::vector<Found> found;
  for(int left = opt.jobs; left > 0; left--) {
    int ws = 0; pid_t ended = waitpid(-1, &ws, 0);
    int w = std::find(pids.begin(), pids.end(), ended) - pids.begin();
    if(w >= opt.jobs) { if(ended < 0) { break; } left++; continue; }
    purge(pids[w]);
    Shared* sh = shs[w];
    if(WIFEXITED(ws) && WEXITSTATUS(ws) == 0) { continue; }
    ctl -> stop = 1;
    Outcome o; o.status = ST_FAIL;
    if(sh -> status == ST_FAIL) { o.msg = sh -> msg; }
    else if(sh -> status == ST_RUNNING) { o.msg = describe_death(ws, opt); }
    else { std::fprintf(stderr, "worker %d ended unexpectedly outside of a case (%s)\n", w, describe_death(ws, opt).c_str()); continue; }
    o.choices.assign(sh -> choices, sh -> choices + sh -> n_choices);
    found.push_back({sh -> case_index, sh -> prop, o});
  }
  double t_explore = now() - t0;
  // failures that can be shrunk first: cases that do not finish take their time
  std::sort(found.begin(), found.end(), [](auto& a, auto& b){ return std::pair(never_finished(a.o), a.ticket) < std::pair(never_finished(b.o), b.ticket); });

  // ---- statistics ------------------------------------------------------------------------------
  u64 evaluated = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<u64> distinct; std::map<std::string, u64> labels; std::vector<std::string> samples;
  for(Shared* sh : shs) {
    evaluated += sh -> evaluated; discarded += sh -> discarded; nontrivial += sh -> nontrivial;
    distinct.insert(sh -> hashes, sh -> hashes + sh -> n_hashes);
    for(u64 i = 0; i < sh -> n_labels; i++) { labels[sh -> labels[i].name] += sh -> labels[i].count; }
    for(u64 i = 0; i < sh -> n_samples; i++) { samples.push_back(sh -> samples[i]); }
  }

  // ---- failures: confirm, shrink, confirm ------------------------------------------------------
  bool violation = false; std::string vprop, vmsg; Outcome shrunk; u64 shrink_tried = 0; int flaky = 0;
  for(Found& f : found) {
    const Prop& p = props()[f.prop];
    auto confirm = [&](const std::vector<u64>& ch, Outcome& o) { for(int k = 0; k < (k > 0 && never_finished(o) ? 1 : 3); k++) { o = run_isolated(sh0, p.fn, ch, opt); if(o.status != ST_FAIL) { return false; } } return true; };
    Outcome o;
    std::fprintf(stderr, "candidate failure in %s (case %lu): %s\n", p.name.c_str(), (unsigned long)f.ticket, f.o.msg.c_str());
    if(!confirm(f.o.choices, o)) { flaky++; std::fprintf(stderr, "  does not reproduce in isolation: ignored\n"); continue; }
    Outcome s = shrink(sh0, p.fn, o, opt, shrink_tried);
    Outcome s2;
    if(never_finished(o)) { shrunk = o; }
    else if(confirm(s.choices, s2)) { shrunk = s2; } else { shrunk = o; }
    violation = true; vprop = p.name; vmsg = shrunk.msg;
    break;
  }

  if(!opt.out.empty()) {
    std::ofstream f(opt.out);
    f << "{\"evaluations\": " << evaluated << ", \"discarded\": " << discarded << ", \"nontrivial\": " << nontrivial
      << ", \"distinct_nontrivial\": " << distinct.size() << ", \"requested\": " << total << ", \"explore_s\": " << t_explore
      << ", \"flaky\": " << flaky << ", \"labels\": {";
    bool first = true; for(auto& [k, v] : labels) { f << (first ? "" : ", ") << jstr(k) << ": " << v; first = false; }
    f << "}, \"samples\": ["; first = true;
    for(auto& s : samples) { f << (first ? "" : ", ") << jstr(s); first = false; }
    f << "], \"violation\": " << (violation ? "true" : "false") << ", \"message\": " << jstr(vmsg) << ", \"prop\": " << jstr(vprop)
      << ", \"notes\": " << jstr(shrunk.notes) << ", \"shrink_tried\": " << shrink_tried << "}\n";
  }
  if(violation) {
    std::string rp = opt.out.empty() ? std::string("replay.txt") : opt.out + ".replay";
    write_replay(rp, vprop, shrunk);
    std::printf("VIOLATED %s: %s\n%s", vprop.c_str(), vmsg.c_str(), shrunk.notes.c_str());
    return finish(1);
  }
  std::printf("ok: %lu cases (%lu discarded), %lu distinct non-trivial, %.1f s\n", (unsigned long)evaluated, (unsigned long)discarded, (unsigned long)distinct.size(), t_explore);
  if(std::getenv("PBT_LABELS")) { for(auto& [k, v] : labels) { std::printf("  %-60s %lu\n", k.c_str(), (unsigned long)v); } }
  return finish(0);
}

} // namespace pbt

#if defined(PBT_LIBFUZZER)
// coverage-guided front end: the fuzzer's bytes are the decisions
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
  static pbt::Shared* sh = nullptr;
  static std::size_t which = 0;
  if(!sh) {
    sh = pbt::new_shared();
    if(const char* s = std::getenv("PBT_SCRATCH")) { pbt::cfg().scratch = s; }
    if(const char* s = std::getenv("PBT_ONLY")) { for(std::size_t i = 0; i < pbt::props().size(); i++) { if(pbt::props()[i].name == s) { which = i; } } }
  }
  std::vector<pbt::u64> choices;
  for(std::size_t i = 0; i + 1 < size; ) {
    // one tag byte selects the width of the decision
    std::uint8_t tag = data[i++]; std::size_t w = (tag & 3) == 3 ? 3 : (tag & 3) == 2 ? 2 : 1;
    pbt::u64 v = (tag & 3) == 0 ? (tag >> 2) : 0;
    if((tag & 3) != 0) { for(std::size_t k = 0; k < w && i < size; k++) { v = (v << 8) | data[i++]; } }
    choices.push_back(v);
  }
  pbt::Case c(sh, &choices);
  c.set_noting(false);
  if(pbt::run_one(sh, c, pbt::props()[which].fn) == pbt::ST_FAIL) {
    std::string out = std::getenv("PBT_OUT") ? std::getenv("PBT_OUT") : "fuzz.replay";
    pbt::Outcome o; o.msg = sh -> msg; o.choices.assign(sh -> choices, sh -> choices + sh -> n_choices);
    pbt::write_replay(out, pbt::props()[which].name, o);
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
