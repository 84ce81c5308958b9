// Exhaustive exploration of operation histories, each history re-executed on fresh real objects.
#ifndef VP_HISTORIES_H
#define VP_HISTORIES_H
#include "vp.h"
#include <deque>
namespace vp {
// run(history) executes the whole history (ops are ints in [0,nops)) on the real objects and the reference model,
// checking agreement after every step; returns the canonical model state reached, or "" when the LAST op is not enabled.
struct HistoryStats { uint64_t full = 0, dedup_states = 0, dedup_transitions = 0; int dedup_depth = 0; };
template <class Run>
HistoryStats explore_histories(int nops, int full_depth, int dedup_depth, uint64_t max_states, Run &&run) {
  HistoryStats st;
  auto &G = S();
  // 1. every sequence up to full_depth, no merging. Sharded over the first op.
  std::vector<int> h;
  std::function<void()> rec = [&]() {
    if ((int)h.size() == full_depth) return;
    for (int op = 0; op < nops; op++) {
      if (h.empty() && (op % G.nshards) != G.shard) continue;
      h.push_back(op);
      std::string c = run(h);
      if (!c.empty()) {
        st.full++; G.evaluations++; G.transitions++; G.traces++;
        if ((st.full == 500 || st.full == 5000 || st.full == 30000)) sample(std::string("history: ") + G.cur + " -> " + c);
        outcome(c);
        state(c);
        rec();
      }
      h.pop_back();
    }
  };
  rec();
  G.extra["full_depth"] = full_depth;
  G.extra["sequences_full"] += st.full;
  // 2. breadth-first with merging on the model state, deeper (shard 0 only when sharded by one; else split frontier)
  if (dedup_depth > 0) {
    std::unordered_set<uint64_t> seen;
    std::deque<std::vector<int>> q;
    q.push_back({});
    int last = 0;
    while (!q.empty()) {
      auto cur = q.front(); q.pop_front();
      if ((int)cur.size() >= dedup_depth) continue;
      for (int op = 0; op < nops; op++) {
        auto nx = cur; nx.push_back(op);
        if (nx.size() == 1 && (op % G.nshards) != G.shard) continue;
        std::string c = run(nx);
        if (c.empty()) continue;
        st.dedup_transitions++; G.transitions++; G.evaluations++; G.traces++;
        if (seen.insert(fnv(c)).second) {
          st.dedup_states++;
          state(c);
          last = (int)nx.size();
          if (seen.size() < max_states) q.push_back(nx);
          else if (G.notes.empty() || G.notes.back().find("state cap") == std::string::npos) { note(cat("merged search hit its state cap ", max_states, " at depth ", nx.size())); G.exhaustive = false; }
        }
      }
    }
    st.dedup_depth = last;
    G.extra["merged_depth"] = dedup_depth;
    G.extra["merged_states"] += st.dedup_states;
  }
  return st;
}
} // namespace vp
#endif
