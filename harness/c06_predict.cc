// C06: evaluating a model.
// Oracle: the documented meaning of a tree, applied row by row to the raw values.
#include "ref.h"

#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/gbdt_algo/compute_tree_scores.h"
#include "src/gbdt_algo/evaluation.h"

using namespace vh;

static std::unique_ptr<DataStore> Store(const Table& t) {
  std::unique_ptr<DataStore> s(new DataStore);
  Fill(t, s.get());
  return s;
}

static Table Rows(const Table& t, const std::vector<uint>& rows) {
  Table o;
  o.n = rows.size();
  for (auto& c : t.cols) {
    RefCol k;
    k.kind = c.kind;
    k.name = c.name;
    for (uint i : rows) {
      if (c.kind == RefCol::kCat) k.s.push_back(c.s[i]);
      else k.f.push_back(c.f[i]);
    }
    o.cols.push_back(k);
  }
  return o;
}

// More rows in one slice of the work than 16 bits count.
static void HugeCase(Rng& r) {
  size_t n = r.range(400000, 600000);
  std::vector<std::string> cats(n);
  std::vector<float> nums(n);
  double p = r.uni(0.5, 0.95);
  for (size_t i = 0; i < n; ++i) { cats[i] = r.chance(p) ? "a" : r.chance(0.5) ? "b" : kMissing; nums[i] = r.chance(p) ? 1 : r.chance(0.5) ? 2 : NAN; }
  DataStore store;
  store.Add(Column::CreateStringColumn("cat", cats));
  store.Add(Column::CreateBucketizedFloatColumn("num", nums));
  Forest f;
  auto* t = f.add_tree();
  bool right = r.chance(0.5);
  t->mutable_split()->set_feature("cat");
  t->mutable_split()->mutable_cat_split()->add_category("a");
  auto* l = t->mutable_left_child();
  l->mutable_split()->set_feature("num");
  l->mutable_split()->mutable_float_split()->set_threshold(1.5);
  l->mutable_split()->mutable_float_split()->set_missing_to_right_child(right);
  l->mutable_left_child()->set_score(1);
  l->mutable_right_child()->set_score(2);
  t->mutable_right_child()->set_score(4);
  FLAGS_num_threads = r.range(1, 2);
  std::vector<double> scores;
  auto s = gbdt::EvaluateForest(&store, f, &scores);
  expect(s.ok() && scores.size() == n, "status", n, " rows: ", s.ToString());
  for (size_t i = 0; i < n; ++i) {
    double want = cats[i] != "a" ? 4 : std::isnan(nums[i]) ? (right ? 2 : 1) : nums[i] < 1.5 ? 1 : 2;
    expect(scores[i] == want, "score", n, " rows on ", FLAGS_num_threads, " threads: row ", i, " has ", scores[i], ", not ", want);
  }
  count("huge_tables");
}

static void Case(long id, Rng& r) {
  if (id % 1000 == 234) return HugeCase(r);
  GenOpts o;
  o.extremes = true;
  o.min_rows = r.chance(0.05) ? 0 : 1;
  o.max_rows = r.chance(0.05) ? 2500 : 60;
  if (id % 250 == 11) { o.min_rows = 3000; o.max_rows = 16000; count("long_tables"); }
  if (id % 40 == 17) { o.min_feat = 10; o.max_feat = 40; }
  Table t = GenTable(r, o);
  if (id % 40 == 9 && !t.cols.empty()) { t.cols[0].name += std::string(r.range(250, 2000), 'n'); count("long_names"); }
  Forest f = GenForest(r, t, 8, r.chance(0.1) ? 9 : 4);
  if (f.tree_size() && id % 250 == 61) { for (int i = r.range(257, 900); i > 0; --i) *f.add_tree() = f.tree(i % 7 % f.tree_size()); count("many_trees"); }
  if (id % 250 == 111 && t.n) { if (!f.tree_size()) f.add_tree(); f.mutable_tree(0)->Clear(); GenDeepTree(r, t, r.range(70, 400), f.mutable_tree(0)); if (f.tree(0).has_left_child()) count("deep_trees"); }
  // One tree used many times, or scores that nearly cancel.
  if (f.tree_size() && r.chance(0.1)) for (int i = 0; i < 5; ++i) *f.add_tree() = f.tree(0);
  if (f.tree_size() && r.chance(0.1)) f.mutable_tree(0)->set_score(1e8f);
  if (r.chance(0.5)) {  // columns the model does not use
    RefCol raw;
    raw.kind = RefCol::kRaw;
    raw.name = "target";
    raw.f.assign(t.n, NAN);
    t.cols.push_back(raw);
  }
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 3, 7, 16});
  std::string what = cat("rows=", t.n, " cols=", t.cols.size(), " trees=", f.tree_size(), " threads=", FLAGS_num_threads);
  auto store = Store(t);
  std::vector<double> scores(r.range(0, 3), 5.0);
  auto s = gbdt::EvaluateForest(store.get(), f, &scores);
  expect(s.ok(), "status", what, ": ", s.ToString());
  expect(scores.size() == t.n, "row-count", what, ": ", scores.size());
  std::vector<double> want(t.n), tol(t.n);
  std::set<uint64_t> paths;
  for (size_t i = 0; i < t.n; ++i) {
    double sum = 0, mag = 0;
    uint64_t path = 0;
    for (auto& tree : f.tree()) {
      const TreeNode& leaf = Leaf(t, tree, i);
      sum += leaf.score();
      mag += std::fabs(leaf.score());
      path = mix(path, (uint64_t)&leaf);
    }
    paths.insert(path);
    want[i] = sum;
    tol[i] = 1e-12 * mag;
    expect(Near(scores[i], sum, 0, tol[i]), "score", what, ": row ", i, " has ", scores[i], ", not ", sum, " model ", f.ShortDebugString().substr(0, 1500));
  }
  count("rows", t.n);
  // Other threads, other rows, other order.
  if (t.n) {
    FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 5, 16});
    std::vector<uint> rows;
    bool subset = r.chance(0.5);
    for (uint i = 0; i < t.n; ++i) if (!subset || r.chance(0.4)) rows.push_back(i);
    if (r.chance(0.7)) r.shuffle(&rows);
    if (r.chance(0.3) && !rows.empty()) rows.push_back(rows[0]);
    auto other = Store(Rows(t, rows));
    std::vector<double> sc;
    s = gbdt::EvaluateForest(other.get(), f, &sc);
    expect(s.ok() && sc.size() == rows.size(), "status", what, ": on ", rows.size(), " of the rows: ", s.ToString());
    for (size_t k = 0; k < rows.size(); ++k)
      expect(Near(sc[k], scores[rows[k]], 0, tol[rows[k]]), "row-independence", what, ": row ", rows[k], " scores ", scores[rows[k]], " and ", sc[k], " among ", rows.size(), " rows");
    count("regrouped");
  }
  // Tree by tree, added to scores that are there, with a constant.
  if (t.n && f.tree_size()) {
    gbdt::ComputeTreeScores cts(store.get());
    std::vector<double> acc(t.n);
    for (auto& a : acc) a = r.normal();
    auto acc0 = acc;
    double k = r.normal();
    const TreeNode& tree = f.tree(r.range(0, f.tree_size() - 1));
    cts.AddTreeScores(tree, k, &acc);
    for (size_t i = 0; i < t.n; ++i) {
      double w = acc0[i] + (PredictTree(t, tree, i) + k);
      expect(Near(acc[i], w, 1e-12, 1e-12 * (std::fabs(acc0[i]) + std::fabs(k))), "add-tree", what, ": row ", i, " has ", acc[i], " not ", w);
    }
  }
  // A model as training returns it, on other tables, where the same categories have other codes.
  if (t.n >= 4 && r.chance(0.2)) {
    std::unordered_set<std::string> features;
    for (auto& c : t.cols) if (c.kind != RefCol::kRaw) features.insert(c.name);
    Config cfg;
    cfg.set_num_trees(r.range(1, 3));
    cfg.set_num_leaves(r.range(2, 7));
    cfg.set_shrinkage(0.5);
    cfg.set_example_sampling_rate(1);
    cfg.set_feature_sampling_rate(1);
    cfg.set_loss_func("mse");
    auto loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
    std::vector<float> y(t.n);
    for (size_t i = 0; i < t.n; ++i) {
      y[i] = r.normal();
      for (auto& c : t.cols)
        if (c.kind == RefCol::kCat) y[i] += hash_str(c.s[i]) % 7;
        else if (c.kind == RefCol::kFloat) y[i] += 2 * (c.f[i] > 0) + 3 * std::isnan(c.f[i]);
    }
    Forest trained;
    s = gbdt::TrainGBDT(store.get(), features, [](int) { return 1.0f; }, [&](int i) { return y[i]; }, loss.get(), cfg, nullptr, &trained);
    expect(s.ok(), "train", what, ": ", s.ToString());
    std::vector<uint> rows;
    for (uint i = 0; i < t.n; ++i) if (r.chance(0.6)) rows.push_back(i);
    r.shuffle(&rows);
    Table u = Rows(t, rows);
    for (auto& c : u.cols) if (c.kind == RefCol::kCat) for (auto& v : c.s) if (r.chance(0.15)) v = "unseen" + std::to_string(r.range(0, 3));
    auto other = Store(u);
    std::vector<double> sc;
    s = gbdt::EvaluateForest(other.get(), trained, &sc);
    expect(s.ok() && sc.size() == u.n, "status", what, ": a trained model on another table: ", s.ToString());
    for (size_t k = 0; k < u.n; ++k) {
      double sum = 0, mag = 0;
      for (auto& tree : trained.tree()) { double v = PredictTree(u, tree, k); sum += v; mag += std::fabs(v); }
      expect(Near(sc[k], sum, 0, 1e-12 * mag), "trained-model", what, ": row ", k, " of another table scores ", sc[k], ", not ", sum, " model ", trained.ShortDebugString().substr(0, 1500));
    }
    count("trained");
  }
  // Unseen and missing columns.
  std::vector<std::string> used;
  std::function<void(const TreeNode&)> walk = [&](const TreeNode& n) {
    if (!n.has_left_child()) return;
    used.push_back(n.split().feature());
    walk(n.left_child());
    walk(n.right_child());
  };
  for (auto& tree : f.tree()) walk(tree);
  if (!used.empty() && t.cols.size() > 1) {
    std::string drop = r.pick(used);
    store->RemoveColumnIfExists(drop);
    std::vector<double> sc;
    s = gbdt::EvaluateForest(store.get(), f, &sc);
    expect(!s.ok() && s.error_code() == err::NOT_FOUND, "missing-feature", what, ": without ", drop, ": ", s.ToString());
    expect(sc.empty(), "missing-feature", what, ": without ", drop, " gave ", sc.size(), " scores");
    count("missing_feature");
  }
  seen("paths", paths.size());
  if (t.n > 1 && !used.empty()) { nontrivial(mix(Shape(f), mix(t.n, hash_str(cat(scores[0]))))); sample(cat(what, " distinct paths=", paths.size())); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
