// Common harness support: exhaustive choice exploration, counters, violation reporting, crash/hang context.
#ifndef VP_H
#define VP_H
#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vp {

struct State {
  std::string out_path = "";
  std::string tier = "quick";
  int shard = 0, nshards = 1;
  std::set<std::string> known;
  uint64_t states = 0, transitions = 0, evaluations = 0, traces = 0;
  std::unordered_set<uint64_t> outcomes;   // hashes of distinct non-trivial observed outcomes
  std::unordered_set<uint64_t> state_set;  // hashes of distinct (reference) states
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  std::vector<std::string> notes;
  std::map<std::string, std::string> found; // key -> message
  bool exhaustive = true;
  char cur[1024] = {0};
  unsigned hang_s = 60;
  bool done = false;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
};
inline State &S() { static State s; return s; }

inline bool thorough() { return S().tier == "thorough"; }
inline int pick(int quick, int deep) { return thorough() ? deep : quick; }
inline double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count();
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

inline void write_result() {
  auto &s = S();
  if (s.out_path.empty()) return;
  std::ofstream f(s.out_path);
  f << "{\"states\":" << (s.state_set.empty() ? s.states : s.state_set.size()) << ",\"transitions\":" << s.transitions
    << ",\"evaluations\":" << s.evaluations << ",\"traces\":" << s.traces
    << ",\"distinct\":" << s.outcomes.size()
    << ",\"exhaustive\":" << (s.exhaustive ? "true" : "false") << ",\"wall_s\":" << elapsed();
  f << ",\"extra\":{";
  bool first = true;
  for (auto &kv : s.extra) { f << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  f << "},\"samples\":[";
  first = true;
  for (auto &x : s.samples) { f << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  f << "],\"notes\":[";
  first = true;
  for (auto &x : s.notes) { f << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  f << "],\"found\":[";
  first = true;
  for (auto &kv : s.found) {
    f << (first ? "" : ",") << "{\"key\":\"" << jesc(kv.first) << "\",\"msg\":\"" << jesc(kv.second) << "\"}";
    first = false;
  }
  f << "],\"done\":" << (s.done ? "true" : "false") << "}\n";
}

// Current case, for crash and hang reports.
inline void set_case(const std::string &c) {
  auto &s = S();
  size_t n = std::min(c.size(), sizeof(s.cur) - 1);
  memcpy(s.cur, c.data(), n);
  s.cur[n] = 0;
}
inline void set_case(const char *c) { set_case(std::string(c)); }
// set_case + re-arm the watchdog (use for cases that could hang)
inline void begin_case(const std::string &c) { set_case(c); alarm(S().hang_s); }

inline void raw_report(const char *what) {
  auto &s = S();
  (void)!write(2, "\nVP-CRASH: ", 11);
  (void)!write(2, what, strlen(what));
  (void)!write(2, "\nVP-CASE: ", 10);
  (void)!write(2, s.cur, strlen(s.cur));
  (void)!write(2, "\n", 1);
}
inline void on_signal(int sig) {
  raw_report(sig == SIGALRM ? "hang (case exceeded its time limit)" :
             sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segmentation fault" : "fatal signal");
  _exit(sig == SIGALRM ? 98 : 97);
}
inline void on_death() { raw_report("sanitizer report (see above)"); }
inline void on_exit_hook() {
  if (!S().done) { raw_report("process exited from inside the code under test"); _exit(97); }
}

// Record a violation. `key` identifies it (stable, for the known-findings file). Unknown violations end the run.
inline void violation(const std::string &key, const std::string &msg) {
  auto &s = S();
  std::string full = msg;
  if (s.cur[0]) full += " | case: " + std::string(s.cur);
  if (!s.found.count(key)) s.found[key] = full;
  if (s.known.count(key)) return;
  { std::string o = "\nVP-VIOLATION key=" + key + " " + full + "\n"; (void)!write(2, o.data(), o.size()); }
  s.done = true;
  write_result();
  _exit(1);
}
template <typename... A>
inline std::string cat(const A &...a) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}
#define VP_CHECK(cond, key, ...) do { if (!(cond)) ::vp::violation(key, ::vp::cat(__VA_ARGS__)); } while (0)

inline uint64_t fnv(const void *d, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *p = (const unsigned char *)d;
  for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }
inline void outcome(const std::string &s) { S().outcomes.insert(fnv(s)); }
inline bool state(const std::string &s) { return S().state_set.insert(fnv(s)).second; }
inline void sample(const std::string &s, size_t cap = 6) { if (S().samples.size() < cap) S().samples.push_back(s); }
inline void note(const std::string &s) { S().notes.push_back(s); }

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-12) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}
inline bool close(std::complex<double> a, std::complex<double> b, double rtol = 1e-9, double atol = 1e-12) {
  return std::abs(a - b) <= atol + rtol * std::max(std::abs(a), std::abs(b));
}

// ---- exhaustive choice exploration (stateless DFS over choice sequences) ------------------------------------------
// run(body): executes body once per complete choice sequence; inside, choose(n) returns 0..n-1.
class Explorer {
 public:
  int choose(int n) {
    if (n <= 0) { std::cerr << "VP: choose(0)\n"; _exit(96); }
    if (pos_ < seq_.size()) {
      if (lim_[pos_] != n) { violation("nondeterminism", cat("replay divergence at choice ", pos_, ": ", lim_[pos_], " vs ", n)); lim_[pos_] = n; }
      return seq_[pos_++];
    }
    seq_.push_back(0); lim_.push_back(n); pos_++;
    return 0;
  }
  bool flag() { return choose(2) == 1; }
  const std::vector<int> &seq() const { return seq_; }
  std::string str() const { std::string o; for (size_t i = 0; i < pos_; i++) o += (i ? "," : "") + std::to_string(seq_[i]); return o; }
  // returns number of executions
  template <class F> uint64_t run(F &&body, uint64_t cap = UINT64_MAX) {
    seq_.clear(); lim_.clear();
    uint64_t n = 0;
    for (;;) {
      pos_ = 0;
      body(*this);
      n++;
      if (pos_ < seq_.size()) violation("nondeterminism", "execution consumed fewer choices than its prefix");
      while (!seq_.empty() && seq_.back() + 1 >= lim_.back()) { seq_.pop_back(); lim_.pop_back(); }
      if (seq_.empty()) break;
      seq_.back()++;
      if (n >= cap) { S().exhaustive = false; note(cat("exploration capped at ", cap, " executions")); break; }
    }
    return n;
  }
 private:
  std::vector<int> seq_, lim_;
  size_t pos_ = 0;
};

// Scratch directory, removed at the end of the process.
inline std::string scratch() {
  static std::string d;
  if (d.empty()) {
    const char *base = getenv("VP_SCRATCH"); // run.py removes this directory afterwards
    std::string tmpl = std::string(base && *base ? base : "/tmp") + "/vp_scratch_XXXXXX";
    char *r = mkdtemp(&tmpl[0]);
    if (!r) { std::cerr << "mkdtemp failed\n"; _exit(96); }
    d = r;
  }
  return d;
}
inline void rm_scratch_tree(const std::string &p) {
  if (p.rfind("/tmp/", 0) != 0 || p.find("/vp_scratch_") == std::string::npos || p.find("..") != std::string::npos) return;
  std::string cmd = "/bin/rm -rf -- '" + p + "'";
  (void)!system(cmd.c_str());
}

// Silence std::cout / std::cerr of the code under test.
struct Mute {
  std::ostringstream o, e;
  std::streambuf *so, *se;
  Mute() { so = std::cout.rdbuf(o.rdbuf()); se = std::cerr.rdbuf(e.rdbuf()); }
  ~Mute() { std::cout.rdbuf(so); std::cerr.rdbuf(se); }
};

inline int main_wrap(int argc, char **argv, const std::function<void()> &body) {
  auto &s = S();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out") s.out_path = val();
    else if (a == "--tier") s.tier = val();
    else if (a == "--shard") s.shard = atoi(val().c_str());
    else if (a == "--nshards") s.nshards = atoi(val().c_str());
    else if (a == "--known") s.known.insert(val());
    else if (a == "--hang") s.hang_s = atoi(val().c_str());
  }
  for (int sig : {SIGALRM, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(sig, on_signal);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(on_death);
#else
  signal(SIGSEGV, on_signal);
#endif
  atexit(on_exit_hook);
  try {
    body();
  } catch (const std::exception &e) {
    violation("uncaught-exception", cat("uncaught exception: ", e.what()));
  } catch (...) {
    violation("uncaught-exception", "uncaught non-std exception");
  }
  alarm(0);
  s.done = true;
  write_result();
  std::cerr << "VP-OK states=" << (s.state_set.empty() ? s.states : s.state_set.size()) << " transitions=" << s.transitions
            << " evaluations=" << s.evaluations << " traces=" << s.traces << " distinct=" << s.outcomes.size()
            << " wall=" << elapsed() << std::endl;
  return 0;
}
} // namespace vp
#define VP_MAIN(...) int main(int argc, char **argv) { return ::vp::main_wrap(argc, argv, __VA_ARGS__); }
#endif
