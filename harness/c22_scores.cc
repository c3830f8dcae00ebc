// C22: score files under a limit on file sizes, every byte position of small files.
#include <csignal>
#include <list>
#include <sys/resource.h>
#include <sys/stat.h>

#include "ref.h"

#include "src/gbdt_algo/evaluation.h"

using namespace vh;

static std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static void Limit(rlim_t n) {
  rlimit l;
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = n;
  setrlimit(RLIMIT_FSIZE, &l);
}

static void Case(long id, Rng& r) {
  signal(SIGXFSZ, SIG_IGN);
  bool big = r.chance(0.15);
  GenOpts o;
  o.min_rows = big ? 1500 : 1;
  o.max_rows = big ? 4000 : 40;
  Table t = GenTable(r, o);
  Forest f;
  for (int k = r.range(1, 4); k > 0; --k) GenTree(r, t, r.range(0, 3), f.add_tree());
  DataStore store;
  Fill(t, &store);
  FLAGS_num_threads = 1;
  std::string dir = st().scratch + "/scores";
  mkdir(dir.c_str(), 0755);
  std::list<int> points;
  for (int i = 1; i <= f.tree_size(); ++i) if (i == f.tree_size() || r.chance(0.5)) points.push_back(i);
  auto clear = [&] { for (int p : points) unlink(cat(dir, "/forest.", p, ".score").c_str()); };
  clear();
  Status s = gbdt::EvaluateForest(&store, f, points, dir);
  expect(s.ok(), "clean-run", s.ToString());
  std::vector<std::string> want;
  size_t longest = 0;
  for (int p : points) { want.push_back(Slurp(cat(dir, "/forest.", p, ".score"))); longest = std::max(longest, want.back().size()); }
  std::vector<size_t> at;
  if (longest <= 200) for (size_t k = 0; k <= longest + 1; ++k) at.push_back(k);
  else {
    for (size_t k : {(size_t)0, (size_t)1, (size_t)4095, (size_t)4096, (size_t)8190, (size_t)8191, (size_t)8192, (size_t)8193, longest - 1, longest, longest / 8191 * 8191, longest / 8192 * 8192, longest / 8191 * 8191 + 1}) at.push_back(k);
    for (int k = 0; k < 25; ++k) at.push_back(r.range(0, longest));
  }
  for (size_t k : at) {
    clear();
    Limit(k);
    s = gbdt::EvaluateForest(&store, f, points, dir);
    Limit(RLIM_INFINITY);
    bool whole = true;
    size_t q = 0;
    for (int p : points) whole = Slurp(cat(dir, "/forest.", p, ".score")) == want[q++] && whole;
    expect(whole || !s.ok(), "silent-loss", "score files of up to ", longest, " bytes with a limit of ", k, " bytes: success is reported, the files are cut");
    expect(!whole || s.ok() || k <= longest, "false-failure", "score files of ", longest, " bytes fit a limit of ", k, " bytes, but ", s.ToString());
    count(whole ? "whole" : "cut");
  }
  count("positions", at.size());
  clear();
  if (t.n > 1) { nontrivial(mix(Shape(f), longest)); sample(cat(t.n, " rows, ", points.size(), " score files of up to ", longest, " bytes, ", at.size(), " limits")); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
