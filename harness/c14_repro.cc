// C14: reproducibility for a seed under perturbed schedules and history; independence of the thread count.
// Linked with --wrap=pthread_mutex_lock, so that delays can be put before every lock.
#include <climits>
#include "pipeline.h"

using namespace vh;

static std::atomic<int> lock_jitter{0};
static std::atomic<long> locks{0};
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t* m);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  int k = lock_jitter.load(std::memory_order_relaxed);
  if (k) { locks.fetch_add(1, std::memory_order_relaxed); Jitter(k * 4); }
  return __real_pthread_mutex_lock(m);
}

// Which threads evaluated which rows: the interleaving actually seen.
static std::mutex log_mu;
static uint64_t log_hash;
static void Note(int row) {
  std::lock_guard<std::mutex> l(log_mu);
  log_hash = mix(log_hash, (uint64_t)row * 1315423911u + std::hash<std::thread::id>()(std::this_thread::get_id()));
}

static bool SameSplit(const Split& a, const Split& b) {
  if (a.feature() != b.feature() || a.has_float_split() != b.has_float_split()) return false;
  if (a.has_float_split()) return a.float_split().threshold() == b.float_split().threshold() && a.float_split().missing_to_right_child() == b.float_split().missing_to_right_child();
  std::set<std::string> x(a.cat_split().category().begin(), a.cat_split().category().end()), y(b.cat_split().category().begin(), b.cat_split().category().end());
  return x == y;
}
static void Gains(const TreeNode& n, std::vector<double>* out) {
  if (!n.has_left_child()) return;
  out->push_back(n.split().gain());
  Gains(n.left_child(), out);
  Gains(n.right_child(), out);
}
static double MaxScore(const TreeNode& n) {
  double m = std::fabs(n.score());
  if (n.has_left_child()) m = std::max(m, std::max(MaxScore(n.left_child()), MaxScore(n.right_child())));
  return m;
}

struct Compare {
  double gain_tol, score_tol, scale;
  std::vector<double> ga, gb;
  std::string why;
  bool structure = true;   // no difference in structure
  bool close(double x, double y) const { return std::fabs(x - y) <= gain_tol * (std::fabs(x) + std::fabs(y)) + gain_tol * 1e-2; }
  // Whether a node of both trees is split in two ways of the same gain: their children then compete differently for the leaves left.
  bool tied(const TreeNode& a, const TreeNode& b) const {
    if (!a.has_left_child() || !b.has_left_child()) return false;
    if (!SameSplit(a.split(), b.split())) return close(a.split().gain(), b.split().gain());
    return tied(a.left_child(), b.left_child()) || tied(a.right_child(), b.right_child());
  }
  bool any_tie = false;
  bool compare(const TreeNode& a, const TreeNode& b) { any_tie = tied(a, b); return run(a, b); }
  // False: a difference rounding cannot explain.
  bool run(const TreeNode& a, const TreeNode& b) {
    if (std::fabs(a.score() - b.score()) > score_tol * (1 + scale)) { why = cat("a node scores ", a.score(), " and ", b.score()); return false; }
    if (!a.has_left_child() && !b.has_left_child()) return true;
    if (a.has_left_child() != b.has_left_child()) {
      structure = false;
      if (any_tie) return true;
      double g = a.has_left_child() ? a.split().gain() : b.split().gain();
      for (double x : a.has_left_child() ? gb : ga) if (close(g, x)) return true;
      if (close(g, 1e-6)) return true;
      why = cat("only one tree splits a node with gain ", g);
      return false;
    }
    if (!SameSplit(a.split(), b.split())) {
      structure = false;
      why = cat("gains ", a.split().gain(), " and ", b.split().gain(), " at different splits");
      return close(a.split().gain(), b.split().gain());
    }
    return run(a.left_child(), b.left_child()) && run(a.right_child(), b.right_child());
  }
};

static void Case(long id, Rng& r) {
  JobOpts o;
  o.table.min_rows = 2;
  o.table.max_rows = r.chance(0.1) ? 800 : 70;
  o.max_groups = r.chance(0.3) ? 60 : 12;
  Job j = GenJob(r, o);
  // No limit that rounding could decide: categories of equal score may come in any order, and then meet the limit or not.
  if (j.cfg.min_hessian() > 0) j.cfg.set_min_hessian(j.cfg.categorical_feature_size() ? 0 : 0.9137);
  int seed = r.chance(0.1) ? r.pick(std::vector<int>{0, 1, -1, INT_MAX, INT_MIN, 1234567}) : r.range(0, 1 << 30), threads = r.range(1, 6);
  FLAGS_num_threads = threads;
  lock_jitter = 0;
  Forest base;
  bool has_base = r.chance(0.3);
  if (has_base) { Table ft = j.t; ft.cols.resize(j.features); base = GenForest(r, ft, 3, 3); }
  auto store = Load(j, kMemory);
  Forest first;
  Status s = TrainJob(j, store.get(), seed, &first, has_base ? &base : nullptr);
  std::string bits = Bits(first), what = cat(j.what, has_base ? " base" : "", " threads=", threads, " seed=", seed);
  std::vector<double> scores;
  if (s.ok()) { Status e = gbdt::EvaluateForest(store.get(), first, &scores); expect(e.ok(), "evaluate", what, ": ", e.ToString()); }
  int repeats = r.range(1, 3);
  std::unique_ptr<gbdt::LossFunc> used;
  for (int k = 0; k < repeats; ++k) {
    // Other work first: another job on another store, draws from the generator, used memory.
    std::string history;
    if (r.chance(0.4)) {
      JobOpts o2;
      o2.table.max_rows = 40;
      Job other = GenJob(r, o2);
      FLAGS_num_threads = r.range(1, 4);
      auto s2 = Load(other, kMemory);
      Forest f2;
      TrainJob(other, s2.get(), r.range(0, 1000), &f2);
      history += " after another job";
    }
    if (r.chance(0.4)) { gbdt::Subsampling::UniformSubsample(r.range(1, 300), 0.5); history += " after sampling"; }
    { std::vector<std::unique_ptr<std::vector<char>>> junk; for (int q = 0; q < 20; ++q) junk.emplace_back(new std::vector<char>(r.range(1, 4000), (char)r.range(1, 255))); }
    FLAGS_num_threads = threads;
    StoreKind kind = (StoreKind)r.range(0, 2);
    int parts = r.range(1, 4);
    bool fresh = r.chance(0.7);
    int jitter = r.chance(0.8) ? r.range(1, 6) : 0;
    lock_jitter = jitter;
    std::unique_ptr<DataStore> again;
    if (fresh) again = Load(j, kind, parts);
    DataStore* use = fresh ? again.get() : store.get();
    Forest f;
    gbdt::Subsampling::Reseed(seed);
    auto loss = used && r.chance(0.5) ? std::move(used) : nullptr;
    if (loss) { history += " with a loss function used before"; count("loss_reused"); }
    else loss = gbdt::LossFuncFactory::CreateLossFunc(j.cfg);
    FloatVector w = gbdt::GetSampleWeightsOrDie(j.cfg, use), y = gbdt::GetTargetsOrDie(j.cfg, use);
    log_hash = 0;
    bool log = r.chance(0.3);
    FloatVector jw = [w, jitter, log](int i) { Jitter(jitter); if (log) Note(i); return w(i); }, jy = [y, jitter](int i) { Jitter(jitter); return y(i); };
    Status s2 = gbdt::TrainGBDT(use, gbdt::GetFeaturesSetFromConfig(j.cfg), jw, jy, loss.get(), j.cfg, has_base ? &base : nullptr, &f);
    lock_jitter = 0;
    static const char* kKind[] = {"memory", "tsv", "flat files"};
    std::string how = cat(fresh ? kKind[kind] : "same store", fresh && kind == kTsv ? cat(" in ", parts, " blocks") : "", history, " jitter=", jitter);
    expect(s2.error_code() == s.error_code(), "status", what, ": first ", s.ToString(), ", again from ", how, " ", s2.ToString());
    if (s.ok()) expect(Bits(f) == bits, "not-identical", what, ": again from ", how, " gives another model.\nfirst ", Show(first), "\nagain ", Show(f));
    count("repeats");
    if (fresh && kind != kMemory) count("repeats_from_files");
    if (jitter) count("perturbed");
    used = std::move(loss);
    if (log) seen("interleaving", log_hash);
    if (s.ok()) {
      FLAGS_num_threads = r.range(1, 9);
      std::vector<double> sc;
      Status e = gbdt::EvaluateForest(use, first, &sc);
      expect(e.ok() && sc == scores, "evaluate-threads", what, ": scores with ", FLAGS_num_threads, " threads differ from those with ", threads);
    }
    FLAGS_num_threads = threads;
  }
  // Another number of threads.  Losses with jumps in their derivatives (or in the ranking) are compared for one iteration,
  // which starts from identical scores; rounding may legitimately decide the jump afterwards.
  if (s.ok() && j.cfg.loss_func() != "huberized_hinge") {
    Job k = j;
    if (j.cfg.loss_func() == "gbrank" || j.cfg.loss_func() == "lambdamart") k.cfg.set_num_trees(1);
    FLAGS_num_threads = threads % 6 + r.range(1, 3);
    Forest f;
    auto again = Load(k, (StoreKind)r.range(0, 2), 2);
    Status s2 = TrainJob(k, again.get(), seed, &f, has_base ? &base : nullptr);
    expect(s2.ok(), "threads-status", what, ": with ", FLAGS_num_threads, " threads ", s2.ToString());
    int fixed = first.tree_size() - j.cfg.num_trees();
    expect(f.tree_size() == fixed + k.cfg.num_trees(), "threads-size", what);
    bool same = true;
    for (int i = fixed; i < f.tree_size() && same; ++i) {
      Compare c;
      bool later = i > fixed;
      c.gain_tol = 1e-9;
      c.score_tol = later ? 1e-3 : 1e-6;
      c.scale = std::max(MaxScore(first.tree(i)), MaxScore(f.tree(i)));
      Gains(first.tree(i), &c.ga);
      Gains(f.tree(i), &c.gb);
      bool ok = c.compare(first.tree(i), f.tree(i));
      // Later trees start from scores that differ by rounding, which near-ties can amplify: there only the rate is judged.
      expect(ok || (later && !c.structure), "thread-count", what, ": tree ", i, " with ", FLAGS_num_threads, " threads: ", c.why, "\nfirst ", first.tree(i).ShortDebugString().substr(0, 1200), "\nother ", f.tree(i).ShortDebugString().substr(0, 1200));
      same = c.structure;
      count(same ? "trees_same_across_threads" : "trees_tied_across_threads");
      static long compared, differ;
      ++compared;
      differ += !same;
      expect(compared < 150 || differ * 10 < compared, "thread-count-rate", what, ": ", differ, " of ", compared, " trees differ across thread counts");
    }
  }
  seen("loss", hash_str(j.cfg.loss_func()));
  seen("threads", threads);
  if (j.cfg.example_sampling_rate() < 1) count("row_sampled");
  if (j.cfg.feature_sampling_rate() < 1) count("feature_sampled");
  if (!s.ok()) count("not_trained");
  bool split = false;
  for (auto& t : first.tree()) split = split || t.has_left_child();
  if (split) { nontrivial(mix(Shape(first), hash_str(what))); sample(what); }
  count("locks_delayed", locks.exchange(0));
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
