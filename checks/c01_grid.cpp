// C01: DuoMatrix / TenMatrix value semantics under every operation history.
#include <cassert>
#include <iterator>
#include <optional>
#include <memory>
#include <list>
#include "vp.h"
#include "histories.h"
#ifdef GRID_TEN
#include <fstream>
#include <string>
#include "qlpeps/two_dim_tn/framework/ten_matrix.h"
#else
#include "qlpeps/two_dim_tn/framework/duomatrix.h"
#endif
#include "qlpeps/two_dim_tn/framework/site_idx.h"
using namespace qlpeps;

struct Elem {
  static long live; static std::set<const Elem *> all;
  int v; int *own; // owns heap storage so that double destruction / leaks are caught by ASan too
  static void in(const Elem *e) { live++; all.insert(e); }
  Elem() : v(0), own(new int(0)) { in(this); }
  explicit Elem(int x) : v(x), own(new int(x)) { in(this); }
  Elem(const Elem &o) : v(o.v), own(new int(*o.own)) { in(this); }
  Elem(Elem &&o) noexcept : v(o.v), own(new int(*o.own)) { o.v = -7; *o.own = -7; in(this); }
  Elem &operator=(const Elem &o) { v = o.v; *own = *o.own; return *this; }
  Elem &operator=(Elem &&o) noexcept { if (this != &o) { v = o.v; *own = *o.own; o.v = -7; *o.own = -7; } return *this; }
  ~Elem() { live--; if (!all.erase(this)) vp::violation("double-destroy", "element destroyed twice"); delete own; }
  bool operator==(const Elem &o) const { return *own == *o.own; }
  bool operator!=(const Elem &o) const { return *own != *o.own; }
  void set(int x) { v = x; *own = x; }
  int get() const { if (v != *own) vp::violation("torn", "element inconsistent"); return *own; }
};
long Elem::live = 0; std::set<const Elem *> Elem::all;
inline std::ostream &operator<<(std::ostream &o, const Elem &e) { return o << e.get() << " "; }
inline std::istream &operator>>(std::istream &i, Elem &e) { int x; if (i >> x) e.set(x); return i; }

#ifdef GRID_TEN
struct TM : TenMatrix<Elem> { using TenMatrix<Elem>::TenMatrix; };
using Grid = TenMatrix<Elem>;
#else
using Grid = DuoMatrix<Elem>;
#endif

struct Model {
  size_t r = 0, c = 0;
  std::vector<std::optional<int>> d;
  Model() = default;
  Model(size_t r, size_t c) : r(r), c(c), d(r * c) {}
  std::optional<int> &at(size_t i, size_t j) { return d[i * c + j]; }
  const std::optional<int> &at(size_t i, size_t j) const { return d[i * c + j]; }
  bool all() const { for (auto &x : d) if (!x) return false; return true; }
  bool none() const { for (auto &x : d) if (x) return false; return true; }
  std::string str() const {
    std::string s = vp::cat(r, "x", c, "[");
    for (auto &x : d) s += x ? std::to_string(*x) + " " : std::string("- ");
    return s + "]";
  }
};

static void compare(const Grid &g, const Model &m, const char *who) {
  VP_CHECK(g.rows() == m.r, "shape", who, ": rows ", g.rows(), " expected ", m.r);
  VP_CHECK(g.cols() == (m.r ? m.c : 0), "shape", who, ": cols ", g.cols(), " expected ", m.c);
  VP_CHECK(g.size() == g.rows() * g.cols(), "shape", who, ": size");
  VP_CHECK(g.length(HORIZONTAL) == g.cols() && g.length(VERTICAL) == g.rows(), "shape", who, ": length(orientation)");
  VP_CHECK(g.empty() == m.none(), "empty", who, ": empty() is ", g.empty(), " expected ", m.none());
  auto cd = g.cdata();
  VP_CHECK(cd.size() == m.r, "cdata", who, ": cdata rows");
  std::set<const Elem *> seen;
  for (size_t i = 0; i < m.r; i++) {
    VP_CHECK(cd[i].size() == m.c, "cdata", who, ": cdata cols");
    const auto &row = g.get_row(i);
    VP_CHECK(row.size() == m.c, "slices", who, ": get_row size");
    auto sl = g.get_slice(i, HORIZONTAL);
    VP_CHECK(sl.size() == m.c, "slices", who, ": get_slice row size");
    for (size_t j = 0; j < m.c; j++) {
      const Elem *p = g(i, j);
      VP_CHECK((p != nullptr) == m.at(i, j).has_value(), "cells", who, ": cell (", i, ",", j, ") allocation differs, model ", m.str());
      VP_CHECK(g.has_alloc(i, j) == (p != nullptr), "cells", who, ": has_alloc at (", i, ",", j, ")");
      VP_CHECK(row[j] == p && sl[j] == p && cd[i][j] == p, "slices", who, ": row extraction at (", i, ",", j, ")");
      if (p) {
        VP_CHECK(p->get() == *m.at(i, j), "cells", who, ": cell (", i, ",", j, ") = ", p->get(), " model ", m.str());
        VP_CHECK(&g({i, j}) == p, "cells", who, ": reference and pointer access differ");
        VP_CHECK(seen.insert(p).second, "alias", who, ": two cells share an element");
      }
    }
  }
  for (size_t j = 0; j < (m.r ? m.c : 0); j++) {
    auto col = g.get_col(j); auto sl = g.get_slice(j, VERTICAL);
    VP_CHECK(col.size() == m.r && sl.size() == m.r, "slices", who, ": get_col size");
    for (size_t i = 0; i < m.r; i++) VP_CHECK(col[i] == g(i, j) && sl[i] == g(i, j), "slices", who, ": column extraction at (", i, ",", j, ")");
  }
  if (m.all() && m.r * m.c > 0) { // read-only iteration: row-major, each once
    size_t k = 0;
    for (auto it = g.cbegin(); it != g.cend(); ++it, ++k) {
      VP_CHECK(k < m.d.size(), "iterate", who, ": iteration too long");
      VP_CHECK(&*it == g(k / m.c, k % m.c), "iterate", who, ": const iteration position ", k);
    }
    VP_CHECK(k == m.d.size(), "iterate", who, ": const iteration visited ", k);
    k = 0;
    for (const Elem &e : g) { VP_CHECK(&e == g(k / m.c, k % m.c), "iterate", who, ": range-for position ", k); k++; }
    VP_CHECK(k == m.d.size(), "iterate", who, ": range-for visited ", k);
    auto it = g.begin(); auto old = it++;
    VP_CHECK(&*old == g(0, 0), "iterate", who, ": post-increment result");
    VP_CHECK(old == g.begin() && old != it, "iterate", who, ": iterator comparison");
  }
  if (m.r * m.c == 0) { size_t k = 0; for (const Elem &e : g) { (void)e; k++; if (k > 3) break; } for (Elem &e : const_cast<Grid &>(g)) { (void)e; k++; if (k > 3) break; } VP_CHECK(k == 0, "iterate", who, ": empty grid iterates"); }
}

static bool model_eq(const Model &a, const Model &b) {
  if (a.r != b.r || a.c != b.c) return false;
  for (size_t i = 0; i < a.d.size(); i++) if (!a.d[i] || !b.d[i] || *a.d[i] != *b.d[i]) return false;
  return true;
}
static const std::vector<std::pair<size_t, size_t>> kShapes = {{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}};

struct Op { const char *name; int slot, a, b, v; };
static std::vector<Op> ops;
static void build_ops() {
  for (int s = 0; s < 2; s++) {
    for (size_t k = 0; k < kShapes.size(); k++) ops.push_back({"ctor", s, (int)k, 0, 0});
    for (int cell = 0; cell < 3; cell++) {
      ops.push_back({"set", s, cell, 0, 1});
      ops.push_back({"set", s, cell, 0, 2});
    }
    ops.push_back({"touch", s, 1, 0, 0});
    ops.push_back({"ptrset", s, 0, 0, 2});
    ops.push_back({"ptrset", s, 1, 0, 2});
    ops.push_back({"alloc", s, 0, 0, 0});
    ops.push_back({"alloc", s, 2, 0, 0});
    ops.push_back({"dealloc", s, 0, 0, 0});
    ops.push_back({"dealloc", s, 1, 0, 0});
    ops.push_back({"clear", s, 0, 0, 0});
    ops.push_back({"fill", s, 0, 0, 1});
    ops.push_back({"iterset", s, 0, 0, 1});
    ops.push_back({"copyassign", s, 0, 0, 0});
    ops.push_back({"copyassign_self", s, 0, 0, 0});
    ops.push_back({"moveassign", s, 0, 0, 0});
    ops.push_back({"copyctor", s, 0, 0, 0});
    ops.push_back({"movector", s, 0, 0, 0});
    ops.push_back({"valreturn", s, 0, 0, 0});
  }
  ops.push_back({"swap", 0, 0, 0, 0});
  ops.push_back({"vecgrow", 0, 0, 0, 0});
}
static Grid by_value(Grid g) { return g; }

static std::string run(const std::vector<int> &h) {
  std::string desc;
  std::string canon;
  long live0 = Elem::live;
  {
    std::unique_ptr<Grid> g[2] = {std::make_unique<Grid>(), std::make_unique<Grid>()};
    Model m[2];
    // a moved-from grid may keep its shape or become 0x0; it must be element-free
    auto adopt_moved = [&](int s, const Model &old) {
      size_t r = g[s]->rows(), c = g[s]->cols();
      bool ok = (r == 0) || (r == old.r && c == old.c);
      VP_CHECK(ok, "moved-from", "moved-from grid reports shape ", r, "x", c);
      m[s] = Model(r, r ? c : 0);
    };
    for (size_t k = 0; k < h.size(); k++) {
      const Op &o = ops[h[k]];
      desc += vp::cat(k ? "; " : "", o.name, "(g", o.slot, ",", o.a, ",", o.v, ")");
      vp::set_case(desc);
      int s = o.slot, t = 1 - s;
      Grid &G = *g[s]; Model &M = m[s];
      bool last = (k + 1 == h.size());
      std::string n = o.name;
      size_t i = 0, j = 0;
      if (n == "set" || n == "touch" || n == "ptrset" || n == "alloc" || n == "dealloc") {
        // cell 0: first cell, 1: last cell, 2: (0,last col)
        if (M.r == 0 || M.c == 0) { if (last) return ""; continue; }
        if (o.a == 1) { i = M.r - 1; j = M.c - 1; if (i == 0 && j == 0) { if (last) return ""; continue; } }
        if (o.a == 2) { i = 0; j = M.c - 1; if (M.r == 1 || j == 0) { if (last) return ""; continue; } }
      }
      if (n == "ctor") { auto sh = kShapes[o.a]; g[s] = sh.first == 0 ? std::make_unique<Grid>() : std::make_unique<Grid>(sh.first, sh.second); m[s] = Model(sh.first, sh.second); }
      else if (n == "set") { G({i, j}) = Elem(o.v); M.at(i, j) = o.v; }
      else if (n == "touch") { int x = G({i, j}).get(); if (!M.at(i, j)) M.at(i, j) = 0; VP_CHECK(x == *M.at(i, j), "cells", "read through setter ", x); }
      else if (n == "ptrset") { if (M.at(i, j)) { if (last) return ""; continue; } G(i, j) = new Elem(o.v); M.at(i, j) = o.v; }
      else if (n == "alloc") { G.alloc(i, j); M.at(i, j) = 0; }
      else if (n == "dealloc") { G.dealloc(i, j); M.at(i, j).reset(); }
      else if (n == "clear") { G.clear(); for (auto &x : M.d) x.reset(); }
      else if (n == "fill") { int x = 1; for (size_t a = 0; a < M.r; a++) for (size_t b = 0; b < M.c; b++) { G({a, b}).set(x); M.at(a, b) = x; x++; } }
      else if (n == "iterset") {
        if (M.r == 0) { if (last) return ""; continue; }
        size_t q = 0;
        for (auto it = G.begin(); it != G.end(); ++it, ++q) {
          VP_CHECK(q < M.d.size(), "iterate", "iteration too long");
          Elem &e = *it;
          VP_CHECK(&e == G(q / M.c, q % M.c), "iterate", "iteration position ", q);
          if (!M.d[q]) M.d[q] = 0;
          VP_CHECK(e.get() == *M.d[q], "iterate", "value at ", q);
          e.set(int(q % 2) + 1); M.d[q] = int(q % 2) + 1;
        }
        VP_CHECK(q == M.d.size(), "iterate", "iteration visited ", q, " of ", M.d.size());
      }
      else if (n == "copyassign") { Grid &r = (G = *g[t]); VP_CHECK(&r == &G, "retval", "copy assignment result"); m[s] = m[t]; }
      else if (n == "copyassign_self") { Grid &al = G; G = al; }
      else if (n == "moveassign") { Model old = m[t]; Grid &r = (G = std::move(*g[t])); VP_CHECK(&r == &G, "retval", "move assignment result"); m[s] = old; adopt_moved(t, old); }
      else if (n == "copyctor") { g[t] = std::make_unique<Grid>(G); m[t] = m[s]; }
      else if (n == "movector") { Model old = m[s]; auto ng = std::make_unique<Grid>(std::move(G)); g[t] = std::move(ng); m[t] = old; adopt_moved(s, old); }
      else if (n == "valreturn") { Grid tmp = by_value(G); compare(tmp, M, "returned copy"); G = by_value(tmp); }
      else if (n == "swap") { std::swap(*g[0], *g[1]); std::swap(m[0], m[1]); }
      else if (n == "vecgrow") { std::vector<Grid> v; v.push_back(*g[0]); v.push_back(*g[1]); v.push_back(*g[0]); compare(v[0], m[0], "vector[0]"); compare(v[1], m[1], "vector[1]"); compare(v[2], m[0], "vector[2]"); }
      compare(*g[0], m[0], "g0"); compare(*g[1], m[1], "g1");
      const Grid &a = *g[0], &b = *g[1];
      VP_CHECK((a == b) == model_eq(m[0], m[1]), "equality", "a==b is ", (a == b), " a=", m[0].str(), " b=", m[1].str());
      VP_CHECK((b == a) == model_eq(m[0], m[1]), "equality", "b==a");
      VP_CHECK((a == a) == (m[0].all()), "equality", "a==a");
      // no sharing, nothing leaked: number of live elements equals number of allocated cells
      long expect = 0; for (int q = 0; q < 2; q++) for (auto &x : m[q].d) expect += x.has_value();
      VP_CHECK(Elem::live - live0 == expect, "leak", "live elements ", Elem::live - live0, " expected ", expect);
    }
    canon = m[0].str() + "|" + m[1].str();
  }
  VP_CHECK(Elem::live == live0, "leak", "elements leaked after destruction: ", Elem::live - live0);
  return canon;
}

static void body() {
  build_ops();
  vp::sample(vp::cat("alphabet of ", ops.size(), " operations on 2 grids, shapes 0x0,1x1,1x2,2x1,2x2,1x3"));
  auto st = vp::explore_histories((int)ops.size(), vp::pick(4, 5), vp::pick(5, 7), vp::pick(1500, 20000), run);
  // larger shapes: extraction, iteration, copy for every shape up to 5x5 and every allocation pattern of a row/column
  for (size_t r = 1; r <= 5; r++) for (size_t c = 1; c <= 5; c++) {
    vp::set_case(vp::cat("shape ", r, "x", c));
    for (int pat = 0; pat < 5; pat++) {
      Grid g(r, c); Model m(r, c);
      int x = 1;
      for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) {
        bool on = pat == 0 || (pat == 1 && i == j) || (pat == 2 && i == r - 1) || (pat == 3 && j == 0) || (pat == 4 && (i + j) % 2);
        if (on) { g({i, j}).set(x); m.at(i, j) = x; } x++;
      }
      compare(g, m, "g");
      Grid h(g); compare(h, m, "copy"); compare(g, m, "orig");
      Grid k; k = g; compare(k, m, "assigned");
      if (m.all()) { VP_CHECK(h == g, "equality", "copy equal"); h({r - 1, c - 1}).set(77); VP_CHECK(!(h == g), "equality", "copy independent"); compare(g, m, "orig2");
        Grid sw(c, r); VP_CHECK(!(r != c && sw == g), "equality", "shape compare"); }
      Grid mv(std::move(g)); compare(mv, m, "moved");
      vp::S().evaluations++; vp::S().transitions += 4; vp::state(m.str());
    }
  }
  for (size_t r = 0; r <= 4; r++) for (size_t c = 0; c <= 4; c++) if (r * c == 0) { // shapes without cells: iteration visits nothing, copies and moves keep the rows
    vp::set_case(vp::cat("shape ", r, "x", c));
    auto none = [&](Grid &g, const char *w) { size_t k = 0; for (auto it = g.begin(); it != g.end() && k < 4; ++it) k++; const Grid &q = g; for (auto it = q.cbegin(); it != q.cend() && k < 4; ++it) k++; for (const Elem &e : q) { (void)e; if (++k > 3) break; } VP_CHECK(k == 0, "iterate", w, " ", r, "x", c, ": a grid without cells iterates"); VP_CHECK(g.rows() == r, "shape", w, ": rows ", g.rows()); };
    Grid g(r, c); none(g, "built"); Grid h(g); none(h, "copy"); Grid k(2, 2); k = g; none(k, "assigned"); Grid mv(std::move(h)); none(mv, "moved"); vp::S().evaluations++; vp::S().transitions += 4; vp::state(vp::cat("empty", r, "x", c));
  }
  // SiteIdx agrees with array coordinates
  for (size_t r = 0; r < 4; r++) for (size_t c = 0; c < 4; c++) {
    SiteIdx s{r, c}; VP_CHECK(s.row() == r && s.col() == c, "siteidx", "SiteIdx ", r, ",", c);
    Grid g(4, 4); g(s).set(5); VP_CHECK(g(r, c) && g(r, c)->get() == 5, "siteidx", "SiteIdx addressing");
    vp::S().evaluations++;
  }
  vp::sample("history e.g.: ctor(g0,2x2); set(g0,last,1); moveassign(g1<-g0); set(g1,..)");
}
VP_MAIN(body)
