// C24: directory helpers; every path over a component alphabet x every initial tree, in a scratch directory.
#include "vp.h"
#include "qlpeps/utility/filesystem_utils.h"
#include <dirent.h>
#include <fcntl.h>
using vp::cat;
static bool st_exists(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static bool st_dir(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
static void put(const std::string &p, const std::string &c) { std::ofstream f(p); f << c; }
static std::string ROOT, BASE;
// listing of a tree: path -> type + content
static void walk(const std::string &p, const std::string &rel, std::map<std::string, std::string> &out) {
  DIR *d = opendir(p.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); }
  closedir(d);
  for (auto &n : names) {
    std::string q = p + "/" + n, r = rel + "/" + n;
    struct stat s;
    if (lstat(q.c_str(), &s) != 0) continue;
    if (S_ISDIR(s.st_mode)) { out[r] = "d"; walk(q, r, out); }
    else if (S_ISLNK(s.st_mode)) { char b[512] = {0}; (void)!readlink(q.c_str(), b, 511); out[r] = std::string("l") + b; }
    else { std::ifstream f(q); std::stringstream ss; ss << f.rdbuf(); out[r] = "f" + ss.str(); }
  }
}
// initial trees: bit 0 dir a, bit 1 dir a/b, bit 2 file f, bit 3 file a/f, bit 4 link l->a, bit 5 dangling link k
static bool make_tree(int m) {
  if ((m & 2) && !(m & 1)) return false;
  if ((m & 8) && !(m & 1)) return false;
  if (m & 1) mkdir("a", 0755);
  if (m & 2) { mkdir("a/b", 0755); put("a/b/data", "B"); }
  if (m & 4) put("f", "precious");
  if (m & 8) put("a/f", "inner");
  if (m & 16) (void)!symlink("a", "l");
  if (m & 32) (void)!symlink("nowhere", "k");
  return true;
}
static void fresh() {
  static int n = 0;
  if (!ROOT.empty()) { (void)!chdir(vp::scratch().c_str()); vp::rm_scratch_tree(ROOT); }
  ROOT = cat(vp::scratch(), "/t", n++);
  // nested, so that ".." components stay inside the scratch directory
  BASE = ROOT + "/w/x/y/z";
  std::string p; for (auto *s : {"", "/w", "/w/x", "/w/x/y", "/w/x/y/z"}) { p = ROOT + s; mkdir(p.c_str(), 0755); }
  if (chdir(BASE.c_str()) != 0) _exit(96);
}
static void one(int tree, const std::string &path, int fn, bool absolute) {
  fresh();
  if (!make_tree(tree)) return;
  std::string arg = absolute && !path.empty() ? BASE + "/" + path : path;
  const char *names[] = {"IsPathExist", "CreatePath", "EnsureDirectoryExists"};
  vp::set_case(cat(names[fn], "(\"", (absolute ? "<abs>/" : ""), path, "\") on tree ", tree));
  std::map<std::string, std::string> before, after;
  walk(ROOT, "", before);
  bool ex0 = !arg.empty() && st_exists(arg), dir0 = !arg.empty() && st_dir(arg);
  bool r;
  { vp::Mute mute;
    r = fn == 0 ? qlpeps::IsPathExist(arg) : fn == 1 ? qlpeps::CreatePath(arg) : qlpeps::EnsureDirectoryExists(arg); }
  walk(ROOT, "", after);
  for (auto &kv : before) { auto it = after.find(kv.first); VP_CHECK(it != after.end() && it->second == kv.second, "destroyed", "existing entry ", kv.first, " was removed or changed"); }
  if (fn == 0) {
    VP_CHECK(r == ex0, "exists", "returned ", r, " but the path ", ex0 ? "exists" : "does not exist");
    VP_CHECK(after == before, "side-effect", "existence query changed the file system");
  } else {
    bool dir1 = !arg.empty() && st_dir(arg);
    VP_CHECK(!r || dir1, "false-success", "reported success but no directory is there");
    VP_CHECK(r || !dir1, "false-failure", "reported failure although the directory exists afterwards");
    // a directory that can be made is made: every missing parent as well (independent oracle: mkdir -p step by step)
    bool can = false;
    if (!arg.empty()) {
      fresh(); make_tree(tree);
      std::string arg2 = absolute ? BASE + "/" + path : path;
      std::string cur = absolute ? "/" : ""; bool ok = true;
      std::string comp; std::stringstream ss(arg2);
      while (std::getline(ss, comp, '/')) {
        if (comp.empty()) continue;
        cur += (cur.empty() || cur == "/" ? "" : "/") + comp;
        if (comp == "." || comp == "..") { if (!st_dir(cur)) { ok = false; break; } continue; }
        if (st_exists(cur)) { if (!st_dir(cur)) { ok = false; break; } }
        else if (mkdir(cur.c_str(), 0755) != 0) { ok = false; break; }
      }
      can = ok && st_dir(arg2);
      VP_CHECK(dir1 == can, "not-created", "directory ", can ? "could be created but was not" : "appeared unexpectedly");
      VP_CHECK(!dir0 || r, "false-failure", "existing directory reported as failure");
      // nothing but the requested directories was created
      std::map<std::string, std::string> expect; walk(ROOT, "", expect);
      if (can) VP_CHECK(expect == after, "side-effect", "other entries than the requested directories changed");
    } else { VP_CHECK(!r, "empty", "empty path reported as success"); VP_CHECK(after == before, "side-effect", "empty path changed the file system"); }
  }
  auto &G = vp::S();
  G.evaluations++; G.transitions++; G.traces++;
  vp::state(cat(tree, "|", path, "|", absolute));
  vp::outcome(cat(fn, r, ex0, dir0, after.size()));
  if (G.evaluations % 4001 == 0) vp::sample(cat(names[fn], " '", path, "' tree ", tree, " -> ", r));
}
static void body() {
  std::vector<std::string> comps = {"a", "b", "f", "l", "k", "n", ".."};
  std::vector<std::string> paths = {""};
  size_t maxc = vp::pick(3, 4);
  std::function<void(std::string, size_t)> rec = [&](std::string p, size_t n) {
    for (auto &c : comps) {
      std::string q = p.empty() ? c : p + "/" + c;
      paths.push_back(q); paths.push_back(q + "/");
      if (n < 2) paths.push_back(q + "//" + "a"), paths.push_back("./" + q);
      if (n + 1 < maxc) rec(q, n + 1);
    }
  };
  rec("", 0);
  std::vector<int> trees;
  for (int m = 0; m < 64; m++) if (!((m & 2) && !(m & 1)) && !((m & 8) && !(m & 1)) && (vp::thorough() || m == 0 || m == 63 || m == 5 || m == 15 || m == 47)) trees.push_back(m);
  uint64_t id = 0;
  for (int t : trees) for (auto &p : paths) for (int fn = 0; fn < 3; fn++) for (int ab = 0; ab < 2; ab++)
    if ((int)(id++ % vp::S().nshards) == vp::S().shard) { alarm(60); one(t, p, fn, ab); }
  // histories: sequences of CreatePath/Ensure on related paths are idempotent
  (void)!chdir("/tmp");
  vp::rm_scratch_tree(vp::scratch());
}
VP_MAIN(body)
