// C10: exact transition probabilities of the real kernel by enumerating every random draw on a grid finer than the kernel's
// decision thresholds (integer weights => thresholds are multiples of 1/w_i, draws are cell midpoints of a 1/lcm grid).
#include "vp.h"
#include "qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"
using vp::cat;
static vp::Explorer *EX = nullptr;
static int K = 60;
static uint64_t DRAWS = 0;
template <class W, W MAX> struct Engine {
  typedef W result_type;
  static constexpr W min() { return 0; }
  static constexpr W max() { return MAX; }
  W operator()() {
    DRAWS++;
    if (DRAWS > 8) { std::cerr << "VP: kernel draws too often\n"; _exit(96); }
    int m = EX->choose(K);
    return (W)(((unsigned __int128)(2 * m + 1) * ((unsigned __int128)MAX + 1)) / (2 * (unsigned)K));
  }
};
typedef Engine<uint64_t, UINT64_MAX> E64;
typedef Engine<uint32_t, UINT32_MAX> E32;
struct FixedEngine { // scripted values, for extreme draws
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return UINT64_MAX; }
  uint64_t v;
  uint64_t operator()() { return v; }
};
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
static std::string wstr(const std::vector<double> &w) { std::string s; for (double x : w) s += cat(x, " "); return s; }

template <class Eng> static void kernel(const std::vector<int> &iw, double scale, bool wrapper, bool legacy_same) {
  size_t n = iw.size();
  std::vector<double> w(n);
  long S = 0; int mx = 0;
  for (size_t i = 0; i < n; i++) { w[i] = iw[i] * scale; S += iw[i]; mx = std::max(mx, iw[i]); }
  if (S == 0) return;
  std::vector<double> w0 = w;
  std::vector<std::vector<double>> P(n, std::vector<double>(n, 0));
  auto &G = vp::S();
  for (size_t i = 0; i < n; i++) {
    if (iw[i] == 0) continue;
    std::vector<double> cnt(n, 0); double tot = 0;
    vp::Explorer ex; EX = &ex;
    ex.run([&](vp::Explorer &e) {
      Eng g; DRAWS = 0;
      vp::set_case(cat("weights ", wstr(w), "start ", i, " wrapper=", wrapper));
      size_t j = wrapper ? qlpeps::NonDBMCMCStateUpdate(i, w, g) : qlpeps::SuwaTodoStateUpdate(i, w, g);
      VP_CHECK(j < n, "range", "returned state ", j, " of ", n);
      VP_CHECK(iw[j] > 0, "zero-weight", "selected zero-weight state ", j);
      VP_CHECK(w == w0, "inputs", "weights were modified");
      // each draw sequence has probability K^-draws
      double p = 1; for (uint64_t d = 0; d < DRAWS; d++) p /= K;
      cnt[j] += p; tot += p;
      G.evaluations++; G.traces++; G.transitions += DRAWS;
    });
    VP_CHECK(std::fabs(tot - 1) < 1e-9, "total", "probabilities sum to ", tot);
    P[i] = cnt;
    std::string o; for (double c : cnt) o += cat(c, " ");
    vp::outcome(o);
  }
  vp::state(cat(wstr(w), typeid(Eng).name()));
  vp::set_case(cat("weights ", wstr(w)));
  double stay = 0;
  for (size_t j = 0; j < n; j++) {
    double in = 0;
    for (size_t i = 0; i < n; i++) in += iw[i] * P[i][j];
    VP_CHECK(std::fabs(in - iw[j]) < 1e-9 * S, "stationarity", "inflow to state ", j, " is ", in, " want ", iw[j]);
    stay += iw[j] * P[j][j];
  }
  // rejection-free whenever no state outweighs all others together (Suwa-Todo optimality)
  double unavoidable = std::max(0, 2 * mx - (int)S);
  VP_CHECK(std::fabs(stay - unavoidable) < 1e-9 * S, "rejection", "rejection weight ", stay, " but ", unavoidable, " is unavoidable");
  if (G.state_set.size() % 701 == 0) vp::sample(cat("weights ", wstr(w), ": inflow exact, rejection weight ", stay));
}
template <class F> static void vectors(size_t n, int M, F f) {
  std::vector<int> v(n, 0);
  uint64_t id = 0;
  for (;;) {
    if ((int)(id++ % vp::S().nshards) == vp::S().shard) f(v);
    size_t k = 0;
    while (k < n && v[k] == M) v[k++] = 0;
    if (k == n) break;
    v[k]++;
  }
}
static void extremes(const std::vector<double> &w) {
  // boundary draws and badly scaled weights: index valid and of positive weight, inputs untouched
  std::vector<uint64_t> vs = {0, 1, 2, UINT64_MAX, UINT64_MAX - 1, 1ull << 63, (1ull << 63) - 1, UINT64_MAX - 2047, UINT64_MAX - 1023, UINT64_MAX / 3, UINT64_MAX / 3 * 2 + 1, UINT64_MAX / 5, UINT64_MAX / 7, UINT64_MAX / 10};
  for (size_t i = 0; i < w.size(); i++) if (w[i] > 0) for (uint64_t v : vs) {
    vp::set_case(cat("weights ", wstr(w), "start ", i, " raw draw ", v));
    FixedEngine g{v};
    std::vector<double> c = w;
    size_t j = qlpeps::SuwaTodoStateUpdate(i, c, g);
    VP_CHECK(j < w.size(), "range", "returned ", j);
    VP_CHECK(w[j] > 0, "zero-weight", "selected zero-weight state ", j);
    VP_CHECK(c == w, "inputs", "weights modified");
    vp::S().evaluations++; vp::S().traces++;
  }
}
static void body() {
  bool T = vp::thorough();
  K = 60; // lcm(1..6)
  for (size_t n = 1; n <= 3; n++) vectors(n, 6, [&](const std::vector<int> &v) { for (double s : {1.0, 0.1, 1.0 / 3, std::ldexp(1.0, -900), std::ldexp(1.0, 600)}) kernel<E64>(v, s, false, false); kernel<E64>(v, 1.0, true, false); });
  K = 60;
  vectors(4, T ? 6 : 5, [&](const std::vector<int> &v) { kernel<E64>(v, 1.0, false, false); kernel<E64>(v, 0.1, false, false); });
  K = T ? 60 : 12;
  vectors(5, T ? 5 : 3, [&](const std::vector<int> &v) { kernel<E64>(v, 1.0, false, false); });
  K = 12;
  vectors(6, T ? 4 : 2, [&](const std::vector<int> &v) { kernel<E64>(v, 1.0, false, false); });
  K = 2;
  vectors(T ? 9 : 8, T ? 2 : 1, [&](const std::vector<int> &v) { kernel<E64>(v, 1.0, false, false); });
  if (T) { K = 420; vectors(3, 7, [&](const std::vector<int> &v) { kernel<E64>(v, 1.0, false, false); }); }
  // the 32-bit generator of the library (two words per draw): full product space
  K = 12;
  for (size_t n = 1; n <= 3; n++) vectors(n, 4, [&](const std::vector<int> &v) { kernel<E32>(v, 1.0, false, false); });
  // extreme draws and scales
  vectors(3, 4, [&](const std::vector<int> &v) {
    static const double pal[] = {0.0, 1.0, 1e-20, 4.9e-324, 1e300};
    std::vector<double> w; for (int x : v) w.push_back(pal[x]);
    extremes(w);
  });
  vectors(4, 4, [&](const std::vector<int> &v) {
    static const double pal[] = {0.0, 1.0, 0.1, 1.0 / 3, 1e-17};
    std::vector<double> w; for (int x : v) w.push_back(pal[x]);
    extremes(w);
  });
}
VP_MAIN(body)
