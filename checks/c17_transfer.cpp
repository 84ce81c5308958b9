// C17: wave functions and configurations over the simulated MPI; all matchings, buffered and unbuffered sends.
#include "sitps_util.h"
#include "simmpi.h"
using namespace su;
#ifndef ELT
#define ELT double
#endif
using T = ELT;
using S_ = State<T>;
using R_ = Ref<T>;
using qlpeps::Configuration;
static uint64_t cnt = 0;
static bool mine() { return (int)(cnt++ % vp::S().nshards) == vp::S().shard; }
static S_ pre(int kind, const R_ &same_shape) { // what the receiver held before
  switch (kind) {
    case 0: return S_();
    case 1: return build<T>(same_shape);
    case 2: return build<T>(make_ref<T>(uniform(2, 1, 3, true, 2), ~0ull, 9));
    case 3: return S_(1, 1);
    default: { R_ m = same_shape; for (size_t i = 0; i < m.n(); i++) { m.has[i] = true; m.sh[i] = {1, 1, 1, 1}; m.e[i] = {T(77)}; } m.pbc = !m.pbc; return build<T>(m); }
  }
}
static void expect(const S_ &s, const R_ &m, const char *what) { R_ g = read<T>(s); if (!(g == m)) VP_CHECK(false, what, what, ": received ", show(g), " sent ", show(m)); vp::S().transitions++; }
static void ok(const sim::Result &r) { VP_CHECK(r.ok(), "run", "transfer did not complete: ", r.why()); vp::S().evaluations++; }

static void state_cases() {
  std::vector<std::pair<Lat, uint64_t>> cases;
  for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}}) for (size_t d = 1; d <= 2; d++) for (int p = 0; p < 2; p++) {
    Lat L{R, C, d, (bool)p, [](size_t r, size_t c) { return 1 + (r + c) % 2; }, [](size_t r, size_t c) { return 1 + (r * 2 + c + 1) % 2; }};
    size_t n = R * C * d;
    for (uint64_t m = 0; m < (1ull << n); m++) if (n <= 4 || m == 255 || m == 0 || __builtin_popcountll(m) == 1 || __builtin_popcountll(m) == 7 || vp::thorough()) cases.push_back({L, m});
  }
  for (auto &[L, mask] : cases) for (int k = 0; k < 5; k++) {
    if (!mine()) continue;
    R_ m = make_ref<T>(L, mask, 1), m2 = make_ref<T>(L, ~0ull, 6);
    vp::state(show(m)); vp::outcome(vp::cat(show(m), k));
    // point to point, both directions, several tags, named and wildcard source
    for (int dir = 0; dir < 2; dir++) for (int any = 0; any < 2; any++) {
      vp::begin_case(vp::cat("send ", L.str(), " mask ", mask, " receiver had ", k, " dir ", dir, " any ", any));
      sim::explore(2, [&](int r) {
        int tag = 5 * dir;
        if (r == dir) { const S_ s = build<T>(m); qlpeps::MPI_Send(s, 1 - dir, MPI_COMM_WORLD, tag); expect(s, m, "sender after sending"); }
        else { S_ s = pre(k, m2); MPI_Status st = qlpeps::MPI_Recv(s, any ? MPI_ANY_SOURCE : dir, MPI_COMM_WORLD, tag); expect(s, m, "receive"); if (m.n()) VP_CHECK(st.MPI_SOURCE == dir, "status", "status names rank ", st.MPI_SOURCE); }
      }, [&](const sim::Result &r, bool) { ok(r); });
    }
    // broadcast from every root, 2 and 3 ranks, receivers differ
    for (int ranks = 1; ranks <= 3; ranks++) for (int root = 0; root < ranks; root++) {
      vp::begin_case(vp::cat("bcast ", L.str(), " mask ", mask, " receiver had ", k, " ranks ", ranks, " root ", root));
      sim::explore(ranks, [&](int r) {
        S_ s = r == root ? build<T>(m) : pre((k + r) % 5, m2);
        if (root == 0 && k == 0) qlpeps::MPI_Bcast(s, MPI_COMM_WORLD); else qlpeps::MPI_Bcast(s, MPI_COMM_WORLD, root);
        expect(s, m, "broadcast");
        // and straight away another one from another root into the same object
        int root2 = (root + 1) % ranks;
        if (r == root2) s = build<T>(m2);
        qlpeps::MPI_Bcast(s, MPI_COMM_WORLD, root2);
        expect(s, m2, "second broadcast");
      }, [&](const sim::Result &r, bool) { ok(r); });
    }
  }
  // two and three senders, one receiver with wildcard: each state arrives whole, exactly once
  for (int snd = 2; snd <= vp::pick(2, 3); snd++) for (int fam = 0; fam < 4; fam++) for (int k = 0; k < 3; k++) {
    if (!mine()) continue;
    std::vector<R_> ms;
    for (int i = 0; i <= snd; i++) ms.push_back(make_ref<T>(uniform(1, 1 + (fam + i) % 2, 1 + (fam / 2 + i) % 2, i % 2, 1 + i % 2), fam == 3 ? (i % 2 ? ~0ull : 1ull) : ~0ull, i));
    std::set<std::string> orders;
    vp::begin_case(vp::cat("wildcard gather senders ", snd, " family ", fam, " receiver had ", k));
    sim::explore(snd + 1, [&](int r) {
      if (r) { S_ s = build<T>(ms[r]); qlpeps::MPI_Send(s, 0, MPI_COMM_WORLD, 3); return; }
      std::string ord; std::set<int> seen;
      S_ s = pre(k, ms[1]);
      for (int i = 0; i < snd; i++) {
        MPI_Status st = qlpeps::MPI_Recv(s, MPI_ANY_SOURCE, MPI_COMM_WORLD, 3);
        VP_CHECK(st.MPI_SOURCE >= 1 && st.MPI_SOURCE <= snd && seen.insert(st.MPI_SOURCE).second, "gather-src", "state from rank ", st.MPI_SOURCE, " received twice or from nobody");
        expect(s, ms[st.MPI_SOURCE], "wildcard receive");
        ord += std::to_string(st.MPI_SOURCE);
      }
      orders.insert(ord);
    }, [&](const sim::Result &r, bool) { ok(r); });
    VP_CHECK(orders.size() == (snd == 2 ? 2u : 6u), "orders", "harness explored only ", orders.size(), " orders");
  }
}
static void config_cases() {
  for (auto [R, C] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}}) {
    size_t n = R * C;
    uint64_t tot = 1; for (size_t i = 0; i < n; i++) tot *= 3;
    auto mk = [&, R = R, C = C](uint64_t code) { Configuration c(R, C); for (size_t i = 0; i < n; i++) { c({i / C, i % C}) = code % 3 == 2 ? 4294967299ull : code % 3; code /= 3; } return c; };
    for (uint64_t code = 0; code < tot; code++) {
      if (!mine()) continue;
      if (n > 4 && code % 7 && !vp::thorough()) continue;
      Configuration orig = mk(code);
      vp::begin_case(vp::cat("configuration ", R, "x", C, " code ", code));
      vp::S().states++;
      for (int dir = 0; dir < 2; dir++) {
        sim::explore(2, [&](int r) {
          if (r == dir) { Configuration c(orig); qlpeps::MPI_Send(c, 1 - dir, 4, MPI_COMM_WORLD); VP_CHECK(c == orig, "cfg-sender", "sending changed the configuration"); }
          else { Configuration c = mk(tot - 1 - code); MPI_Status st; qlpeps::MPI_Recv(c, dir, 4, MPI_COMM_WORLD, &st); VP_CHECK(c == orig && c.rows() == R && c.cols() == C, "cfg-recv", "received configuration differs"); vp::S().transitions++; }
        }, [&](const sim::Result &r, bool) { ok(r); });
      }
      // ring exchange and pairwise swap
      for (int ranks = 2; ranks <= 3; ranks++) {
        sim::explore(ranks, [&](int r) {
          Configuration mine_ = mk((code + r) % tot), got = mk(0);
          int to = (r + 1) % ranks, from = (r + ranks - 1) % ranks;
          MPI_Status st;
          qlpeps::MPI_Sendrecv(mine_, to, r, got, from, from, MPI_COMM_WORLD, &st);
          VP_CHECK(got == mk((code + from) % tot), "cfg-ring", "rank ", r, " received the wrong configuration");
          VP_CHECK(mine_ == mk((code + r) % tot), "cfg-ring-send", "sendrecv changed the sent configuration");
          vp::S().transitions++;
        }, [&](const sim::Result &r, bool) { ok(r); });
        for (int root = 0; root < ranks; root++) sim::explore(ranks, [&](int r) {
          Configuration c = mk((code + r) % tot);
          qlpeps::MPI_BCast(c, root, MPI_COMM_WORLD);
          VP_CHECK(c == mk((code + root) % tot), "cfg-bcast", "rank ", r, " holds the wrong configuration after a broadcast from ", root);
          vp::S().transitions++;
        }, [&](const sim::Result &r, bool) { ok(r); });
      }
    }
  }
}
VP_MAIN([] { state_cases(); config_cases(); vp::sample("3 ranks: ranks 1 and 2 send different wave functions to a wildcard receiver, all match orders, unbuffered and buffered"); })
