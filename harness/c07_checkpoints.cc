// C07: checkpoint score files.
// Oracle: directory listing and parsed numbers against partial sums of the documented tree meaning.
#include "ref.h"

#include <dirent.h>
#include <list>

#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/utils.h"

using namespace vh;

static void Clear(const std::string& dir) {
  if (DIR* dp = opendir(dir.c_str())) {
    while (dirent* e = readdir(dp)) if (e->d_name[0] != '.') unlink((dir + "/" + e->d_name).c_str());
    closedir(dp);
  }
}

static void Case(long id, Rng& r) {
  // Checkpoints derived from a configuration.
  Config config;
  int size = r.chance(0.1) ? 1 : r.range(1, r.chance(0.05) ? 5000 : 60);
  int interval = r.chance(0.2) ? 0 : r.chance(0.1) ? -r.range(1, 5) : r.chance(0.1) ? r.range(1, 1 << 30) : r.range(1, size + 3);
  if (r.chance(0.05)) interval = std::numeric_limits<int>::max();
  config.set_eval_interval(interval);
  auto points = gbdt::GetTestPoints(config, size);
  std::vector<int> want;
  if (interval > 0) for (long p = size; p > 0; p -= interval) want.insert(want.begin(), (int)p);
  else want.push_back(size);
  expect(std::vector<int>(points.begin(), points.end()) == want, "points", "size=", size, " interval=", interval, ": ", points.size(), " points, expected ", want.size());
  count("derived_points");

  GenOpts o;
  o.min_rows = r.chance(0.05) ? 0 : 1;
  o.max_rows = 40;
  if (id % 150 == 11) { o.min_rows = 2000; o.max_rows = 20000; count("long_tables"); }
  if (id % 300 == 61) o.max_rows = 5;
  Table t = GenTable(r, o);
  if (id % 40 == 9 && !t.cols.empty()) { t.cols[0].name += std::string(r.range(250, 2000), 'n'); count("long_names"); }
  DataStore store;
  Fill(t, &store);
  Forest f;
  bool many = id % 150 == 61;
  int trees = many ? r.range(257, 1500) : r.range(1, 14);
  bool dense = id % 300 == 61;
  if (dense) trees = r.range(257, 600);
  if (many) count("many_trees");
  for (int i = 0; i < trees; ++i) {
    GenTree(r, t, r.range(0, 3), f.add_tree());
    if (i == 0 && id % 150 == 111) { f.mutable_tree(0)->Clear(); GenDeepTree(r, t, r.range(70, 400), f.mutable_tree(0)); if (f.tree(0).has_left_child()) count("deep_trees"); }
    if (r.chance(0.1)) f.mutable_tree(i)->set_score(std::ldexp(1.0f, r.range(-60, 60)));
  }
  std::list<int> test;
  bool derived = r.chance(0.5);
  if (derived) {
    config.set_eval_interval(dense ? r.range(1, 2) : many ? r.range(trees / 5, trees + 1) : r.range(0, trees + 1));
    test = gbdt::GetTestPoints(config, trees);
  } else {
    std::vector<int> v;
    int k = dense ? r.range(100, 300) : r.range(0, 6);
    for (int i = 0; i < k; ++i) v.push_back(!dense && many && r.chance(0.6) ? trees - r.range(0, 9) : r.range(-2, trees + 3));
    if (r.chance(0.5)) std::sort(v.begin(), v.end());
    test.assign(v.begin(), v.end());
  }
  std::string dir = st().scratch + (r.chance(0.2) ? cat("/fresh", id) : "/out");
  Clear(dir);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 8});
  std::string what = cat("rows=", t.n, " trees=", trees, " points=", [&] { std::string s; for (int p : test) s += cat(p, " "); return s; }());
  auto s = gbdt::EvaluateForest(&store, f, test, dir);
  expect(s.ok(), "status", what, ": ", s.ToString());
  std::set<std::string> expected, got;
  for (int p : test) if (p >= 1 && p <= trees) expected.insert(cat("forest.", p, ".score"));
  if (DIR* dp = opendir(dir.c_str())) {
    while (dirent* e = readdir(dp)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") got.insert(e->d_name);
    closedir(dp);
  }
  auto names = [](const std::set<std::string>& x) { std::string s; for (auto& y : x) s += y + " "; return s; };
  expect(got == expected, "files", what, ": files ", names(got), "; expected ", names(expected));
  for (int p : std::set<int>(test.begin(), test.end())) {
    if (p < 1 || p > trees) continue;
    std::string path = cat(dir, "/forest.", p, ".score");
    std::string text = read_file(path);
    std::vector<std::string> lines;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) lines.push_back(line);
    expect(lines.size() == t.n, "lines", what, ": ", path, " has ", lines.size(), " lines");
    for (size_t i = 0; i < t.n; ++i) {
      char* end;
      double v = strtod(lines[i].c_str(), &end), w = PredictForest(t, f, i, p), mag = 0;
      for (int k = 0; k < p; ++k) mag += std::fabs(PredictTree(t, f.tree(k), i));
      expect(*end == 0 && end != lines[i].c_str(), "number", what, ": ", path, " line ", i, " '", lines[i], "'");
      // Six significant digits are printed.
      expect(Near(v, w, 6e-6, 1e-12 * mag + 1e-300), "value", what, ": ", path, " row ", i, " has ", lines[i], ", the first ", p, " trees give ", w);
    }
    count("score_files");
    count("lines", t.n);
  }
  if (expected.size() > 100) count("many_points");
  if (derived) count("derived_runs");
  Clear(dir);
  if (dir.find("fresh") != std::string::npos) rmdir(dir.c_str());
  seen("checkpoints", mix(trees, hash_str(names(expected))));
  if (!expected.empty() && t.n > 1) { nontrivial(mix(Shape(f), hash_str(what))); sample(what); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
