// A sweep updater that follows a script instead of drawing random numbers: the sample stream of every rank is chosen by the check.
#pragma once
#include "models_exact.h"
#include "qlpeps/algorithm/vmc_update/monte_carlo_engine.h"
struct Script { std::vector<std::string> stream; std::vector<std::vector<double>> rates; size_t calls = 0; size_t C = 0; };
struct Scripted { // moves to the next configuration of the script; past its end it stays where it is
  Script *s = nullptr;
  template <class E, class Q, template <class, class> class CT> void operator()(const SplitIndexTPS<E, Q> &st, TPSWaveFunctionComponent<E, Q, qlpeps::NoDress, CT> &w, std::vector<double> &acc) {
    for (size_t r = 0; r < w.config.rows(); r++) for (size_t q = 0; q < w.config.cols(); q++) { const auto &a = w.tn({r, q}); const auto &b = st({r, q})[w.config({r, q})]; bool eq = a.size() == b.size(); for (size_t i = 0; eq && i < a.size(); i++) eq = a.GetRawDataPtr()[i] == b.GetRawDataPtr()[i]; VP_CHECK(eq, "stale-component", "a sweep starts from a component whose network is not the current state at its configuration (sweep ", s->calls, " site ", r, ",", q, ")"); }
    { E amp = TPSWaveFunctionComponent<E, Q, qlpeps::NoDress, CT>(st, w.config, w.trun_para).amplitude; VP_CHECK(std::abs(w.amplitude - amp) <= 1e-8 * std::abs(amp), "stale-component", "a sweep starts with amplitude ", w.amplitude, " stored, the state has ", amp); }
    size_t k = s->calls++; if (k < s->stream.size()) { auto &c = s->stream[k]; Configuration f(c.size() / s->C, s->C); for (size_t i = 0; i < c.size(); i++) f({i / s->C, i % s->C}) = c[i]; w = TPSWaveFunctionComponent<E, Q, qlpeps::NoDress, CT>(st, f, w.trun_para); }
    acc = k < s->rates.size() ? s->rates[k] : std::vector<double>{1.0}; }
};
template <template <class, class> class CT> auto exact_params() { if constexpr (std::is_same_v<typename CT<T, QN>::TruncateParams, TRGTruncateParams<double>>) return TRGTruncateParams<double>::SVD(1, 1 << 20, 0.0); else return BMPSTruncateParams<double>::SVD(1, 81, 0.0); }
template <class F> auto run_ranks(int n, F body) { sim::Options o; o.ranks = n; auto r = sim::run(o, nullptr, body); vp::S().traces++; vp::S().transitions += r.calls; return r; }
static std::string conf_str(const Configuration &c) { std::string s; for (size_t r = 0; r < c.rows(); r++) for (size_t q = 0; q < c.cols(); q++) s += char(c({r, q})); return s; }
