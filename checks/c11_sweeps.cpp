// C11: Monte Carlo sweep updaters. The random engine is replaced by one whose answers the explorer chooses; every
// outcome class of every draw of a whole sweep is followed, which yields the exact transition kernel of the sweep.
#include <random>
#include <functional>
#include <cstdint>
namespace vp_rng {
inline std::function<double()> draw; // one answer in [0,1) per random number the code asks for
struct Engine { using result_type = uint64_t; Engine() {} template <class S> explicit Engine(S) {} template <class S> void seed(S) {} void seed() {} void discard(unsigned long long) {} static constexpr uint64_t min() { return 0; } static constexpr uint64_t max() { return ~0ull; } uint64_t operator()() { double u = draw(); return (uint64_t)((unsigned __int128)(u * 9007199254740992.0) << 11); } };
}
namespace std { using vp_engine = vp_rng::Engine; }
#include "simmpi.h"
#include "tn_exact.h"
#include <array>
#define mt19937 vp_engine
#define mt19937_64 vp_engine
#include "qlpeps/vmc_basic/wave_function_component.h"
#include "qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor.h"
#include "qlpeps/vmc_basic/configuration_update_strategies/monte_carlo_sweep_updater_all.h"
#undef mt19937
#undef mt19937_64
using namespace qlpeps; using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT; using TenT = Ten<T>; using Cf = std::string;
static long counter = 0; static bool mine() { return (int)(counter++ % vp::S().nshards) == vp::S().shard; }
static std::string cstr(const Cf &c) { std::string o; for (char x : c) o += char('0' + x); return o; }
static Lat lat(size_t R, size_t C, size_t d, int kind, bool pbc) { return Lat{R, C, d, pbc, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (2 * r + c + kind) % 3); }, [=](size_t r, size_t c) { return size_t(kind == 0 ? 2 : 1 + (r + 2 * c + kind) % 3); }}; }
struct Sys {
  Lat L; State<T> s; std::string name; std::unordered_map<Cf, T> vals; double typ = 0;
  Sys(const Lat &l, int salt, const std::string &nm, int kill = -1) : L(l), s(build(tnx::generic<T>(l, salt))), name(nm) { if (kill >= 0) { auto &t = s(at(kill))[1]; for (size_t k = 0; k < t.size(); k++) const_cast<T *>(t.GetRawDataPtr())[k] = T(0); } for (size_t k = 0; k < 16; k++) { Cf c(L.sites(), 0); for (size_t i = 0; i < c.size(); i++) c[i] = (k * 7 + i * i * 3 + i * k) % 5 % L.d; typ += std::abs(value(c)) / 16; } }
  SiteIdx at(size_t i) const { return SiteIdx{i / L.C, i % L.C}; }
  T value(const Cf &c) { auto it = vals.find(c); if (it != vals.end()) return it->second; tnx::Net<T> n{L.R, L.C, L.pbc, {}}; for (size_t i = 0; i < L.sites(); i++) n.t.push_back(s(at(i))[c[i]]); return vals[c] = n.value(); }
  Configuration conf(const Cf &c) const { Configuration f(L.R, L.C); for (size_t i = 0; i < c.size(); i++) f(at(i)) = c[i]; return f; }
  std::vector<Cf> all() const { std::vector<Cf> o; size_t n = 1; for (size_t i = 0; i < L.sites(); i++) n *= L.d; for (size_t k = 0; k < n; k++) { Cf c; for (size_t i = 0, q = k; i < L.sites(); i++, q /= L.d) c += char(q % L.d); o.push_back(c); } return o; }
};
template <class W> Cf read(Sys &y, const W &w) { Cf c; for (size_t i = 0; i < y.L.sites(); i++) c += char(w.config(y.at(i))); return c; }
template <class W> void consistent(Sys &y, const W &w, const char *when) {
  Cf c = read(y, w); for (size_t i = 0; i < c.size(); i++) { VP_CHECK((size_t)c[i] < y.L.d, "config-value", when, ": site ", i, " holds ", int(c[i])); VP_CHECK(w.tn(y.at(i)) == y.s(y.at(i))[c[i]], "tensor-stale", when, ": site ", i, " of ", cstr(c), " holds the tensor of another value"); }
  T e = y.value(c); VP_CHECK(std::abs(w.amplitude - e) <= 1e-7 * std::max(std::abs(e), 1e-2 * y.typ), "amplitude-stale", when, ": amplitude of ", cstr(c), " is ", w.amplitude, ", exact ", e); vp::S().evaluations++;
}
using WO = TPSWaveFunctionComponent<T, QN>; using WP = TPSWaveFunctionComponent<T, QN, NoDress, TRGContractor>;
template <class W> auto params() { if constexpr (std::is_same_v<W, WP>) return TRGTruncateParams<double>::SVD(1, 1 << 20, 0.0); else return BMPSTruncateParams<double>::SVD(1, 81, 0.0); }
struct Stop {};
struct Sig { Cf c; unsigned long ops; bool done; bool operator==(const Sig &o) const { return c == o.c && ops == o.ops && done == o.done; } };
// runs act(component) answering the first draws with u; stops at the first unanswered draw
template <class W, class A> Sig play(Sys &y, const W &start, const std::vector<double> &u, A act, W *end = nullptr) {
  W w(start); size_t t = 0; unsigned long o0 = qlten::vp_ops; Sig s{{}, 0, false};
  vp_rng::draw = [&]() -> double { consistent(y, w, "when a random number is drawn"); if (t < u.size()) return u[t++]; throw Stop(); };
  try { act(w); s.done = true; consistent(y, w, "after the sweep"); } catch (const Stop &) {}
  s.c = read(y, w); s.ops = qlten::vp_ops - o0; vp::S().transitions++; if (s.done && end) *end = w; return s;
}
struct Leaf { double p; std::vector<double> u; Cf c; };
// all outcome classes of every draw: the intervals of [0,1) on which the continuation is the same, located by bisection
template <class W, class A> void tree(Sys &y, const W &start, A act, std::vector<Leaf> &out, std::vector<double> u = {}, double p = 1) {
  Sig here = play(y, start, u, act); if (here.done) { out.push_back({p, u, here.c}); vp::S().states++; return; }
  auto at = [&](double x) { u.push_back(x); Sig s = play(y, start, u, act); u.pop_back(); return s; };
  const int K = 8; const double top = 1 - 1.0 / (1ull << 40); std::vector<std::pair<double, Sig>> g; for (int k = 0; k <= K; k++) { double x = k == K ? top : double(k) / K; g.push_back({x, at(x)}); }
  double lo = 0; Sig cur = g[0].second; auto flush = [&](double a, double b) { auto v = u; v.push_back(a + (b - a) / 2); tree(y, start, act, out, v, p * (b - a)); };
  for (int k = 0; k < K; k++) { double left = g[k].first; while (!(cur == g[k + 1].second)) { double a = left, b = g[k + 1].first; Sig sb = g[k + 1].second; while (b - a > 1e-9) { double m = (a + b) / 2; Sig s = at(m); if (s == cur) a = m; else { b = m; sb = s; } } flush(lo, b); lo = b; cur = sb; left = b; } }
  flush(lo, 1.0);
}
using Key = std::function<std::vector<int>(const Cf &)>;
template <class W> W fresh(Sys &y, const Cf &c) { return W(y.s, y.conf(c), params<W>()); }
// the kernel of the sweep over one closed set of configurations keeps |psi|^2 stationary
template <class W, class A> void sector(Sys &y, const std::string &what, const std::vector<Cf> &cs, const Key &key, A act, bool second) {
  if (!mine()) return; std::map<Cf, double> in; double Z = 0; std::map<Cf, std::map<Cf, double>> rows; std::vector<std::pair<Cf, W>> later; size_t best = 0;
  for (auto &c : cs) { double pi = std::norm(y.value(c)); if (pi < 1e-8 * y.typ * y.typ) continue; vp::begin_case(vp::cat(what, " ", y.name, " from ", cstr(c))); Z += pi; W w0 = fresh<W>(y, c); std::vector<Leaf> lv; tree(y, w0, act, lv); double tot = 0;
    for (auto &l : lv) { tot += l.p; VP_CHECK(key(l.c) == key(c), "not-conserved", "the sweep leads from ", cstr(c), " to ", cstr(l.c)); VP_CHECK(std::norm(y.value(l.c)) > 0, "zero-weight", "the sweep leads from ", cstr(c), " to ", cstr(l.c), " of zero weight"); in[l.c] += pi * l.p; rows[c][l.c] += l.p; }
    VP_CHECK(std::abs(tot - 1) < 1e-6, "kernel", "probabilities add up to ", tot); best = std::max(best, lv.size()); vp::outcome(what + y.name + c);
    if (second) { std::set<Cf> seen; for (auto &l : lv) if (seen.insert(l.c).second) { W e = w0; play(y, w0, l.u, act, &e); later.push_back({l.c, e}); } } }
  for (auto &kv : in) { double pi = std::norm(y.value(kv.first)); VP_CHECK(std::abs(kv.second - pi) <= 1e-6 * Z, "not-stationary", "after one sweep configuration ", cstr(kv.first), " has weight ", kv.second, " instead of ", pi, " (of ", Z, ")"); vp::S().evaluations++; }
  for (auto &c : cs) { double pi = std::norm(y.value(c)); if (pi > 1e-4 * Z) VP_CHECK(in.count(c), "not-stationary", "configuration ", cstr(c), " is never reached although its weight is ", pi, " of ", Z); }
  std::set<std::pair<Cf, size_t>> done; size_t k = 0; for (auto &l : later) { if (!done.insert({l.first, k++ % 2}).second) continue; vp::begin_case(vp::cat(what, " ", y.name, " second sweep from ", cstr(l.first))); std::vector<Leaf> lv; tree(y, l.second, act, lv); std::map<Cf, double> row; for (auto &x : lv) row[x.c] += x.p; auto &ref = rows[l.first]; for (auto &x : ref) VP_CHECK(std::abs(row[x.first] - x.second) < 1e-6, "history", "a second sweep goes from ", cstr(l.first), " to ", cstr(x.first), " with probability ", row[x.first], ", a first one with ", x.second); for (auto &x : row) VP_CHECK(x.second < 1e-6 || ref.count(x.first), "history", "a second sweep goes from ", cstr(l.first), " to ", cstr(x.first), ", a first one never"); }
}
template <class W, class F> void sectors(Sys &y, const std::string &what, const Key &key, F act, bool second, size_t maxsize = 1000) {
  std::map<std::vector<int>, std::vector<Cf>> g; for (auto &c : y.all()) g[key(c)].push_back(c); for (auto &kv : g) if (kv.second.size() <= maxsize) sector<W>(y, what, kv.second, key, act, second);
}
static Key counts(size_t d) { return [d](const Cf &c) { std::vector<int> n(d, 0); for (char x : c) n[x]++; return n; }; }
static std::vector<int> nokey(const Cf &) { return {}; }
static std::vector<int> updown(const Cf &c) { int u = 0, d = 0; for (char x : c) { u += x == 0 || x == 1; d += x == 0 || x == 2; } return {u, d}; }
// --- the sweeps themselves: a move that picks, at every visited bond, every possible new pair (or triple) in turn
struct Log { Sys *y; vp::Explorer *ex; std::vector<std::vector<size_t>> visits; size_t accepted = 0; int branch; size_t free = ~0ul; }; // choices are free for the first `free` visits, then follow a fixed pattern
static Log *LG;
static void visit(std::initializer_list<SiteIdx> s) { std::vector<size_t> v; for (auto &x : s) v.push_back(x.row() * LG->y->L.C + x.col()); LG->visits.push_back(v); }
template <class W> size_t choose_state(W &, size_t n, size_t cur) { size_t k = LG->visits.size() <= LG->free ? LG->ex->choose(LG->branch) : LG->visits.size() % LG->branch; return k == 0 ? cur : (cur + (k == 1 ? 1 : k == 2 ? n / 2 + 1 : k)) % n; }
static void amp(T got, const Cf &c, const char *what) { T e = LG->y->value(c); VP_CHECK(std::abs(got - e) <= 1e-7 * std::max(std::abs(e), 1e-2 * LG->y->typ), "trial-amplitude", what, " of ", cstr(c), " is ", got, ", exact ", e); vp::S().evaluations++; }
struct SpyOBC : MCUpdateSquareNNUpdateBaseOBC<SpyOBC> {
  template <class E, class Q> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation o, const SplitIndexTPS<E, Q> &s, TPSWaveFunctionComponent<E, Q> &w) {
    Sys &y = *LG->y; visit({a, b}); VP_CHECK(o == (a.row() == b.row() ? HORIZONTAL : VERTICAL), "orientation", "a bond is announced with the wrong orientation"); size_t d = y.L.d, ia = a.row() * y.L.C + a.col(), ib = b.row() * y.L.C + b.col(), cur = w.config(a) * d + w.config(b), n = choose_state(w, d * d, cur); Cf c = read(y, w); consistent(y, w, "at a visited bond"); T next{};
    for (size_t k = 0; k < d * d; k++) { c[ia] = k / d; c[ib] = k % d; T v = w.contractor.ReplaceNNSiteTrace(w.tn, a, b, o, s(a)[k / d], s(b)[k % d]); amp(v, c, "trial amplitude"); if (k == n) next = v; }
    if (n == cur) return false; w.UpdateLocal(s, next, std::make_pair(a, n / d), std::make_pair(b, n % d)); LG->accepted++; return true; } };
struct SpyPBC : MCUpdateSquareNNUpdateBasePBC<SpyPBC> {
  template <class E, class Q, class D, template <class, class> class CT> bool TwoSiteNNUpdateLocalImpl(const SiteIdx &a, const SiteIdx &b, BondOrientation o, const SplitIndexTPS<E, Q> &s, TPSWaveFunctionComponent<E, Q, D, CT> &w) {
    Sys &y = *LG->y; visit({a, b}); bool h = o == HORIZONTAL; VP_CHECK(h ? (a.row() == b.row() && b.col() == (a.col() + 1) % y.L.C) : (a.col() == b.col() && b.row() == (a.row() + 1) % y.L.R), "orientation", "the announced pair is not a bond of that orientation"); size_t d = y.L.d, cur = w.config(a) * d + w.config(b), n = choose_state(w, d * d, cur); consistent(y, w, "at a visited bond");
    if (n == cur) return false; auto t = w.BeginTrial({{a, s(a)[n / d]}, {b, s(b)[n % d]}}, {{a, n / d}, {b, n % d}}); w.AcceptTrial(std::move(t), s); LG->accepted++; return true; } };
struct Spy3 : MCUpdateSquareTNN3SiteUpdateBase<Spy3> {
  template <class E, class Q> bool TNN3SiteUpdateImpl(const SiteIdx &a, const SiteIdx &b, const SiteIdx &c3, BondOrientation o, const SplitIndexTPS<E, Q> &s, TPSWaveFunctionComponent<E, Q, NoDress> &w) {
    Sys &y = *LG->y; visit({a, b, c3}); VP_CHECK(o == (a.row() == b.row() ? HORIZONTAL : VERTICAL), "orientation", "a triple is announced with the wrong orientation"); size_t d = y.L.d; std::array<SiteIdx, 3> st{a, b, c3}; std::array<size_t, 3> ix; for (int i = 0; i < 3; i++) ix[i] = st[i].row() * y.L.C + st[i].col(); size_t cur = (w.config(a) * d + w.config(b)) * d + w.config(c3), n = choose_state(w, d * d * d, cur); Cf c = read(y, w); consistent(y, w, "at a visited triple"); T next{};
    for (size_t k = 0; k < d * d * d; k++) { size_t v[3] = {k / d / d, k / d % d, k % d}; for (int i = 0; i < 3; i++) c[ix[i]] = v[i]; T x = w.contractor.ReplaceTNNSiteTrace(w.tn, a, o, s(a)[v[0]], s(b)[v[1]], s(c3)[v[2]]); amp(x, c, "trial amplitude"); if (k == n) next = x; }
    if (n == cur) return false; w.UpdateLocal(s, next, std::make_pair(a, n / d / d), std::make_pair(b, n / d % d), std::make_pair(c3, n % d)); LG->accepted++; return true; } };
template <class Spy> void spy(Sys &y, int branch, int width, const Cf &c0) { // every history of accepted / refused moves in a sweep
  size_t R = y.L.R, C = y.L.C; std::vector<std::vector<size_t>> want; for (size_t r = 0; r < R; r++) for (size_t c = 0; c + width <= C; c++) { std::vector<size_t> v; for (int k = 0; k < width; k++) v.push_back(r * C + c + k); want.push_back(v); } for (size_t c = 0; c < C; c++) for (size_t r = 0; r + width <= R; r++) { std::vector<size_t> v; for (int k = 0; k < width; k++) v.push_back((r + k) * C + c); want.push_back(v); }
  if (!mine()) return; WO w0 = fresh<WO>(y, c0); vp::Explorer ex; Log lg{&y, &ex, {}, 0, branch}; LG = &lg;
  ex.run([&](vp::Explorer &) { lg.visits.clear(); lg.accepted = 0; vp::begin_case(vp::cat("sweep over ", width, "-site windows of ", y.name, " from ", cstr(c0))); WO w(w0); Spy s; std::vector<double> rate{9, 9}; vp_rng::draw = []() -> double { return 0.5; }; s(y.s, w, rate); consistent(y, w, "after the sweep");
    VP_CHECK(lg.visits.size() == want.size(), "visits", "the sweep makes ", lg.visits.size(), " visits, the lattice has ", want.size(), " windows"); auto a = lg.visits; std::sort(a.begin(), a.end()); auto b = want; std::sort(b.begin(), b.end()); VP_CHECK(a == b, "visits", "the sweep does not visit every window once");
    VP_CHECK(rate.size() == 1 && std::abs(rate[0] - double(lg.accepted) / want.size()) < 1e-12, "accept-rate", "reported acceptance ", rate.empty() ? -1 : rate[0], ", ", lg.accepted, " of ", want.size(), " moves were made"); vp::S().states++; vp::S().transitions += want.size(); });
  vp::outcome(vp::cat("spy", width, y.name, c0));
}
static void spy_pbc(Sys &y, const Cf &c0, size_t free) { // the bonds drawn: the first `free` selections take every value, the rest a fixed walk
  if (!mine()) return; size_t R = y.L.R, C = y.L.C, nb = 2 * R * C; WP w0 = fresh<WP>(y, c0); std::map<std::vector<size_t>, double> seen; std::vector<double> p;
  std::function<void(std::vector<double>)> go = [&](std::vector<double> u) { // classes of the three selections of one move, uniform over all bonds
    vp::Explorer ex; Log lg{&y, &ex, {}, 0, 1}; LG = &lg; ex.run([&](vp::Explorer &) { lg.visits.clear(); vp::begin_case(vp::cat("periodic sweep ", y.name)); WP w(w0); SpyPBC s; std::vector<double> rate; size_t t = 0; vp_rng::draw = [&]() -> double { double x = t < u.size() ? u[t] : std::fmod(0.37 + 0.618034 * t, 1.0); t++; return x; }; s(y.s, w, rate); VP_CHECK(lg.visits.size() == nb, "visits", "a periodic sweep makes ", lg.visits.size(), " moves instead of ", nb); VP_CHECK(rate.size() == 1 && rate[0] == 0, "accept-rate", "acceptance reported without a move"); if (u.size() >= 3) { bool h = lg.visits[0][1] / C == lg.visits[0][0] / C && lg.visits[0][1] % C == (lg.visits[0][0] % C + 1) % C; (void)h; auto k = lg.visits[0]; seen[k] += 1; } vp::S().states++; }); };
  const int K = 12; for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) for (int d = 0; d < K; d++) go({(a + 0.5) / K, (b + 0.5) / K, (d + 0.5) / K});
  double each = double(K) * K * K / (R * C * 2); std::map<std::vector<size_t>, double> want; for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) { want[{r * C + c, r * C + (c + 1) % C}] += each; want[{r * C + c, (r + 1) % R * C + c}] += each; }
  VP_CHECK(seen == want, "bond-choice", "the bonds of ", y.name, " are not drawn with equal probability");
  for (int branch : {2, 3}) { vp::Explorer ex; Log lg{&y, &ex, {}, 0, branch, branch == 2 ? free : free * 2 / 3}; LG = &lg; ex.run([&](vp::Explorer &) { lg.visits.clear(); lg.accepted = 0; vp::begin_case(vp::cat("periodic sweep with moves ", y.name)); WP w(w0); SpyPBC s; std::vector<double> rate; size_t t = 0; vp_rng::draw = [&]() -> double { double x = std::fmod(0.11 * branch + 0.618034 * t, 1.0); t++; return x; }; s(y.s, w, rate); consistent(y, w, "after the sweep"); VP_CHECK(rate.size() == 1 && std::abs(rate[0] - double(lg.accepted) / nb) < 1e-12, "accept-rate", "reported acceptance ", rate[0], ", ", lg.accepted, " of ", nb, " moves were made"); vp::S().states++; vp::S().transitions += nb; }); }
  vp::outcome("spy pbc" + y.name);
}
template <class U, class W> auto sweep(Sys &y) { return [&y](W &w) { U u; std::vector<double> r; u(y.s, w, r); VP_CHECK(r.size() == 1 && r[0] >= 0 && r[0] <= 1, "accept-rate", "acceptance rate out of range"); }; }
template <class U> void pbc_local(Sys &y, const std::string &what, const Key &key) { // every bond's own kernel, fresh and after another bond's move
  size_t R = y.L.R, C = y.L.C; for (size_t i = 0; i < R * C; i++) for (int v = 0; v < 2; v++) { SiteIdx a = y.at(i), b = v ? SiteIdx{(a.row() + 1) % R, a.col()} : SiteIdx{a.row(), (a.col() + 1) % C}; auto act = [&y, a, b, v](WP &w) { U u; u.TwoSiteNNUpdateLocalImpl(a, b, v ? VERTICAL : HORIZONTAL, y.s, w); }; sectors<WP>(y, vp::cat(what, " bond ", i, v ? " down" : " right"), key, act, true); }
}
VP_MAIN([] {
  bool th = vp::thorough(); vp::S().hang_s = 600;
#ifdef SMALL
  const bool small = !th;
#else
  const bool small = false;
#endif
  { std::vector<std::array<size_t, 2>> ls = {{2, 2}, {2, 3}, {3, 2}}; if (th) ls.push_back({3, 3}); for (auto l : ls) for (int kind = 0; kind < 2; kind++) { if (small && kind) continue; Sys y(lat(l[0], l[1], 2, kind, false), 3 + l[0], vp::cat(l[0], "x", l[1], " bonds", kind)); for (size_t q = 0; q < 4; q++) { Cf c0(y.L.sites(), 0); for (size_t i = 0; i < c0.size(); i++) c0[i] = q == 0 ? (i + i / l[1]) % 2 : q == 1 ? 0 : q == 2 ? i % 2 : i < 2; spy<SpyOBC>(y, l[0] * l[1] == 4 ? 4 : l[0] * l[1] == 6 ? (th ? 3 : 2) : 2, 2, c0); } } }
  { Sys y(lat(3, 3, 2, 1, false), 9, "3x3"); for (size_t q = 0; q < 4; q++) { Cf c0(9, 0); for (size_t i = 0; i < 9; i++) c0[i] = (i + q) * (q + 1) % 3 % 2; spy<Spy3>(y, q == 0 || th ? 3 : 2, 3, c0); } if (!small) { Sys z(lat(3, 4, 2, 1, false), 9, "3x4"); spy<Spy3>(z, 2, 3, Cf("\0\1\0\1\1\0\1\0\0\1\1\0", 12)); Sys t(lat(4, 3, 2, 1, false), 9, "4x3"); spy<Spy3>(t, 2, 3, Cf("\0\1\0\1\1\0\1\0\0\1\1\0", 12)); } }
  for (size_t n : {2, 3}) { if (small && n > 2) continue; Sys y(lat(n, n, 2, 0, true), 5, vp::cat(n, "x", n, " torus")); Cf c0(n * n, 0); for (size_t i = 0; i < c0.size(); i++) c0[i] = i % 2; spy_pbc(y, c0, th ? 12 : 9); }
  std::vector<std::array<size_t, 3>> ks = {{2, 2, 0}, {2, 2, 1}, {2, 3, 1}, {3, 2, 1}}; if (small) ks = {{2, 2, 1}};
  for (auto l : ks) for (int kill : {-1, 1}) { if (kill >= 0 && l[0] * l[1] != 4) continue; auto nm = [&](size_t d) { return vp::cat(l[0], "x", l[1], " dim", d, " bonds", l[2], kill >= 0 ? " with zeros" : ""); }; bool four = l[0] * l[1] == 4;
    { Sys y(lat(l[0], l[1], 2, l[2], false), 21, nm(2), kill); sectors<WO>(y, "exchange", counts(2), sweep<MCUpdateSquareNNExchangeOBC, WO>(y), true); if (four) sectors<WO>(y, "full-space", nokey, sweep<MCUpdateSquareNNFullSpaceUpdateOBC, WO>(y), th); }
    if (four) { Sys y(lat(l[0], l[1], 3, l[2], false), 22, nm(3), kill); sectors<WO>(y, "exchange", counts(3), sweep<MCUpdateSquareNNExchangeOBC, WO>(y), true); }
    if (four) { Sys y(lat(l[0], l[1], 4, l[2], false), 23, nm(4), kill); sectors<WO>(y, "exchange", counts(4), sweep<MCUpdateSquareNNExchangeOBC, WO>(y), false); sectors<WO>(y, "Hubbard", updown, sweep<MCUpdateSquareNNHubbardU1U1OBC, WO>(y), th, th ? 100 : 40); } }
  { Sys y(lat(3, 3, 2, 0, false), 24, "3x3"); sectors<WO>(y, "3-site", counts(2), sweep<MCUpdateSquareTNN3SiteExchange, WO>(y), false, th ? 84 : 36); Sys z(lat(3, 3, 2, 1, false), 25, "3x3 mixed"); sectors<WO>(z, "3-site", counts(2), sweep<MCUpdateSquareTNN3SiteExchange, WO>(z), true, 9); if (th) { Sys q(lat(2, 4, 2, 1, false), 26, "2x4"); sectors<WO>(q, "exchange", counts(2), sweep<MCUpdateSquareNNExchangeOBC, WO>(q), false, 28); Sys p(lat(3, 3, 2, 1, false), 27, "3x3"); sectors<WO>(p, "exchange", counts(2), sweep<MCUpdateSquareNNExchangeOBC, WO>(p), false, 9); } }
  for (size_t n : {2, 3}) { if (n == 3 && (small || !th)) continue; for (int kill : {-1, 1}) { Sys y(lat(n, n, 2, 0, true), 31, vp::cat(n, "x", n, " torus", kill >= 0 ? " with zeros" : ""), kill); pbc_local<MCUpdateSquareNNExchangePBC>(y, "periodic exchange", counts(2)); pbc_local<MCUpdateSquareNNFullSpaceUpdatePBC>(y, "periodic full-space", nokey); } }
  vp::sample("every outcome class of every random draw of a sweep; every start configuration of a sector");
})
