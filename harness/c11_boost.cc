// C11: the boosting loop.
// A recording loss function sees every call; the ensemble is recomputed from the returned model and raw rows.
#include "splitref.h"

#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

using namespace vh;


struct Call {
  std::vector<double> f;
  double c;
  std::vector<GradientData> g;
};

// Delegates to a real loss, or plays a script; records every call.
class Recorder : public gbdt::LossFunc {
 public:
  std::unique_ptr<gbdt::LossFunc> real;
  Rng r{1};
  int diverge_at = -1;
  double diverge_to = NAN;
  int burst_at = -1;               // derivatives that give the burst rows scores beyond the floats
  std::vector<char> burst;
  int num_rows = -1;
  int inits = 0;
  FloatVector w, y;
  const gbdt::StringColumn* group = nullptr;
  std::vector<Call> calls;
  Status Init(int n, FloatVector w_in, FloatVector y_in, const gbdt::StringColumn* g) override {
    ++inits;
    num_rows = n; w = w_in; y = y_in; group = g;
    return real ? real->Init(n, w, y, g) : Status::OK;
  }
  void ComputeFunctionalGradientsAndHessians(const std::vector<double>& f, double* c, std::vector<GradientData>* g, std::string* progress) override {
    Call k;
    k.f = f;
    if (real) real->ComputeFunctionalGradientsAndHessians(f, c, g, progress);
    else {
      *c = r.normal();
      g->resize(f.size());
      for (auto& d : *g) d = GradientData(r.normal(), r.chance(0.1) ? 0 : r.uni());
      if ((int)calls.size() == burst_at) for (size_t i = 0; i < f.size(); ++i) (*g)[i] = burst[i] ? GradientData(1e30, 1e-12) : GradientData(0, 1);
    }
    if ((int)calls.size() == diverge_at) *c = diverge_to;
    k.c = *c;
    k.g = *g;
    calls.push_back(k);
  }
};

static bool Finite(const TreeNode& n) {
  return std::isfinite(n.score()) && (!n.has_left_child() || (Finite(n.left_child()) && Finite(n.right_child())));
}
static bool Internal(const TreeNode& n) {
  if (!n.has_left_child()) return n.has_split() || n.has_right_child();
  return n.split().cat_split().internal_categorical_index_size() || Internal(n.left_child()) || Internal(n.right_child());
}

static void Case(long id, Rng& r) {
  GenOpts o;
  o.min_rows = 2;
  o.max_rows = id % 125 == 23 ? 16 : 50;
  if (id % 100 == 11) { o.min_rows = 1000; o.max_rows = 6000; count("long_tables"); }
  if (id % 50 == 17) { o.min_feat = 10; o.max_feat = 40; count("wide_tables"); }
  Table t = GenTable(r, o);
  if (id % 40 == 9 && !t.cols.empty()) { t.cols[0].name += std::string(r.range(250, 2000), 'n'); count("long_names"); }
  static const char* kLoss[] = {"mse", "mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart", "script", "script"};
  std::string loss = kLoss[r.range(0, 9)];
  bool binary = loss == "logloss" || loss == "huberized_hinge";
  RefCol target, weight;
  target.kind = weight.kind = RefCol::kRaw;
  target.name = "target";
  weight.name = "weight";
  bool const_target = r.chance(0.05);
  for (size_t i = 0; i < t.n; ++i) {
    double sig = 0;
    for (auto& c : t.cols) sig += c.kind == RefCol::kFloat ? (std::fabs(c.f[i]) < 1e3 && c.f[i] > 0.3f) : c.s[i] == "c1";
    double v = const_target ? 1 : binary ? (r.chance(sig > 0.5 ? 0.8 : 0.3) ? 1 : -1) : loss == "lambdamart" ? r.range(0, 3) : sig + r.normal();
    target.f.push_back((float)v);
    weight.f.push_back(r.chance(0.6) ? 1 : r.chance(0.1) ? 0 : (float)r.uni(0.1, 3));
  }
  bool all_zero = true;
  for (float v : weight.f) all_zero = all_zero && v == 0;
  if (all_zero) weight.f[0] = 1;
  t.cols.push_back(target);
  t.cols.push_back(weight);
  bool grouped = r.chance(0.4);
  if (grouped) {
    RefCol g;
    g.kind = RefCol::kCat;
    g.name = "group";
    for (size_t i = 0; i < t.n; ++i) g.s.push_back("q" + std::to_string(r.range(0, 3)));
    t.cols.push_back(g);
  }
  DataStore store;
  Fill(t, &store);
  std::unordered_set<std::string> features;
  std::vector<const RefCol*> given;
  for (size_t i = 0; i + (grouped ? 3 : 2) < t.cols.size(); ++i) { features.insert(t.cols[i].name); given.push_back(&t.cols[i]); }
  gbdt::Config cfg;
  cfg.set_num_trees(r.range(1, 6));
  bool many = id % 125 == 23;
  if (many) { cfg.set_num_trees(r.range(257, 400)); count("many_trees"); }
  cfg.set_num_leaves(r.range(1, 6));
  cfg.set_shrinkage(r.pick(std::vector<float>{1, 0.5, 0.1, 0.3}));
  cfg.set_l2_lambda(r.chance(0.5) ? 0 : r.uni(0, 3));
  cfg.set_min_hessian(r.chance(0.7) ? 0 : 1);
  bool sampled = r.chance(0.3);
  cfg.set_example_sampling_rate(sampled ? (float)r.uni(0.3, 1) : 1);
  cfg.set_feature_sampling_rate(sampled && r.chance(0.5) ? 0.5f : 1);
  cfg.set_pair_sampling_rate(5);
  cfg.set_loss_func(loss);
  if (grouped) cfg.set_group_column("group");
  cfg.set_target_column("target");
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 3});
  gbdt::Subsampling::Reseed(r.range(0, 1 << 30));
  Recorder rec;
  rec.r = Rng(r.next());
  if (loss != "script") { rec.real = gbdt::LossFuncFactory::CreateLossFunc(cfg); expect(rec.real != nullptr, "factory", loss); }
  if (r.chance(0.08)) { rec.diverge_at = r.range(0, cfg.num_trees()); rec.diverge_to = r.pick(std::vector<double>{NAN, INFINITY, -INFINITY}); }
  Forest base;
  bool has_base = r.chance(0.4);
  if (has_base) {
    Table ft = t;
    ft.cols.resize(given.size());
    base = GenForest(r, ft, 5, 3);
    if (id % 125 == 73) { Forest more = GenForest(r, ft, 5, 3); for (int k = r.range(257, 600); k > 0; --k) *base.add_tree() = more.tree_size() ? more.tree(k % more.tree_size()) : TreeNode(); count("long_bases"); }
    for (int k = r.range(0, 2); k > 0; --k) base.add_tree()->set_score((float)r.normal());
  }
  if (id % 25 == 13) {
    rec.real = nullptr;
    loss = "script";
    rec.diverge_at = -1;
    rec.burst_at = r.range(0, cfg.num_trees() - 1);
    auto& col = t.cols[r.range(0, t.cols.size() - 1)];
    size_t k = r.range(0, t.n - 1);
    for (size_t i = 0; i < t.n; ++i) rec.burst.push_back(col.kind == RefCol::kCat ? col.s[i] == col.s[k] : col.f[i] > col.f[k]);
    if (r.chance(0.5)) for (auto& b : rec.burst) b = !b;
    count("bursts");
  }
  auto w = [&](int i) { return weight.f[i]; };
  auto y = [&](int i) { return target.f[i]; };
  Forest forest;
  Status s = gbdt::TrainGBDT(&store, features, w, y, &rec, cfg, has_base ? &base : nullptr, &forest);
  std::string what = cat(loss, " rows=", t.n, " trees=", cfg.num_trees(), " leaves=", cfg.num_leaves(), " shrinkage=", cfg.shrinkage(), " lambda=", cfg.l2_lambda(), " sampling=", cfg.example_sampling_rate(), '/', cfg.feature_sampling_rate(), " base=", base.tree_size(), " threads=", FLAGS_num_threads);
  expect(rec.inits == 1 && rec.num_rows == (int)t.n && (rec.group != nullptr) == grouped && (!grouped || rec.group->name() == "group"), "init", what, ": Init called ", rec.inits, " times with ", rec.num_rows, " rows");
  for (size_t i = 0; i < t.n; ++i) expect(rec.w(i) == weight.f[i] && rec.y(i) == target.f[i], "init", what, ": row ", i, " has other weight or target");
  size_t done = 0;
  while (done < rec.calls.size() && std::isfinite(rec.calls[done].c)) ++done;
  bool diverged = done < rec.calls.size();
  if (diverged) {
    expect(!s.ok() && s.error_code() == err::INTERNAL, "divergence", what, ": constant ", rec.calls[done].c, " ended with ", s.ToString());
    expect(rec.calls.size() == done + 1, "divergence", what, ": went on after a constant of ", rec.calls[done].c);
    count("diverged");
  } else if (!s.ok() && s.error_code() == err::INTERNAL) {
    // Only right when the float scores of the model can have overflowed: by the constants, or by gradients over tiny hessians.
    expect(!rec.calls.empty() && (int)rec.calls.size() <= cfg.num_trees(), "divergence", what, ": ", s.ToString(), " after ", rec.calls.size(), " calls");
    double c = 0, reach = 0;
    for (auto& b : base.tree()) if (!b.has_left_child()) c += b.score();
    bool overflow = false;
    for (auto& k : rec.calls) { c += k.c; overflow = overflow || !(std::fabs(c) < 1e37); }
    double gsum = 0, hmin = INFINITY;
    auto& last = rec.calls.back();
    for (size_t i = 0; i < t.n; ++i) { gsum += weight.f[i] * std::fabs(last.g[i].g); hmin = std::min<double>(hmin, weight.f[i] * last.g[i].h); }
    reach = gsum / (std::max(hmin, 0.0) + cfg.l2_lambda());
    overflow = overflow || !(reach < 1e37);
    expect(overflow, "divergence", what, ": ", s.ToString(), " though constants add up to ", c, " and no leaf can score more than ", reach);
    count("overflowed");
    return;
  } else {
    expect(s.ok(), "status", what, ": ", s.ToString());
    expect((int)rec.calls.size() == cfg.num_trees(), "calls", what, ": the loss was asked ", rec.calls.size(), " times");
  }
  if (rec.burst_at >= 0) {
    for (auto& tr : forest.tree()) expect(Finite(tr), "finite", what, ": a model with infinite scores: ", tr.ShortDebugString().substr(0, 600));
    return;
  }
  // The model: constant, inner trees of the base, one tree per completed iteration.
  std::vector<const TreeNode*> inner;
  double base_const = 0, mag = 0;
  for (auto& b : base.tree()) { if (b.has_left_child()) inner.push_back(&b); else { base_const += b.score(); mag += std::fabs(b.score()); } }
  if (!diverged) {
    expect(forest.tree_size() == 1 + (int)inner.size() + cfg.num_trees(), "model-size", what, ": ", forest.tree_size(), " trees from ", inner.size(), " inner base trees");
    expect(!forest.tree(0).has_left_child(), "constant-tree", what);
    for (size_t k = 0; k < inner.size(); ++k) {
      TreeNode want = *inner[k];
      std::function<void(TreeNode*)> clean = [&](TreeNode* n) { if (!n->has_left_child()) { n->clear_split(); return; } clean(n->mutable_left_child()); clean(n->mutable_right_child()); };
      clean(&want);
      expect(forest.tree(1 + k).SerializeAsString() == want.SerializeAsString(), "base-tree", what, ": base tree ", k, " changed");
    }
    for (auto& tr : forest.tree()) expect(!Internal(tr), "internal-fields", what, ": ", tr.ShortDebugString().substr(0, 600));
    double c = base_const;
    for (auto& k : rec.calls) { c += k.c; mag += std::fabs(k.c); }
    // Scores are floats, so every constant added rounds once.
    double rounding = 1e-6 + 6e-8 * (base.tree_size() - (int)inner.size() + rec.calls.size());
    expect(Near(forest.tree(0).score(), c, 1e-6, rounding * mag + 1e-30), "constant-tree", what, ": constant tree scores ", forest.tree(0).score(), ", constants add up to ", c);
  } else if (done > 0 || !forest.tree_size()) {
    // What is left of the model after a divergence is unspecified.
    return;
  }
  if (forest.tree_size() < 1 + (int)inner.size() + (int)done) return;
  // Scores at every call.
  std::vector<double> f(t.n, 0.0), fmag(t.n, 0.0);
  auto add = [&](const TreeNode& tr, double c) {
    for (size_t i = 0; i < t.n; ++i) { double sc = PredictTree(t, tr, i); f[i] += sc + c; fmag[i] += std::fabs(sc) + std::fabs(c); }
  };
  for (auto& b : base.tree()) add(b, 0);
  double last_loss = -1;
  long splits = 0;
  bool finite = true;
  for (auto& tr : forest.tree()) finite = finite && Finite(tr);
  expect(finite, "finite", what, ": a tree has a non-finite score");
  for (size_t k = 0; k <= done; ++k) {
    if (!finite) break;
    if (k < rec.calls.size()) {
      auto& call = rec.calls[k];
      expect(call.f.size() == t.n, "scores", what);
      for (size_t i = 0; i < t.n; ++i)
        expect(Near(call.f[i], f[i], 0, 1e-11 * fmag[i] + 1e-300), "current-scores", what, ": call ", k, " was given ", call.f[i], " for row ", i, "; the ensemble scores ", f[i]);
      count("calls");
    }
    if (loss == "mse" && cfg.shrinkage() <= 1 && !sampled) {
      double l = 0, ws = 0;
      for (size_t i = 0; i < t.n; ++i) { double d = target.f[i] - f[i]; l += weight.f[i] * d * d; ws += weight.f[i]; }
      l /= ws;
      if (last_loss >= 0) expect(l <= last_loss * (1 + 1e-6) + 1e-9, "loss-rises", what, ": the training loss rose from ", last_loss, " to ", l, " at iteration ", k);
      last_loss = l;
      count("mse_steps");
    }
    if (k == done || diverged) break;
    // The tree is the shrunken fit to these gradients.
    const TreeNode& tree = forest.tree(1 + inner.size() + k);
    SplitSpec p;
    p.gd = rec.calls[k].g;
    p.w = weight.f;
    p.lambda = cfg.l2_lambda();
    p.min_hessian = cfg.min_hessian();
    std::function<void(const TreeNode&, const std::vector<uint>&)> walk = [&](const TreeNode& n, const std::vector<uint>& rows) {
      if (!sampled) {
        Sums sm = p.sum(rows);
        long double d = sm.h + p.lambda, score = Score(sm, p.lambda) * cfg.shrinkage();
        long double tol = 4e-7L * std::fabs((double)score) + 1e-30L;
        if (d > 0) tol += 1e-12L * (sm.abs_g / d + std::fabs((double)score) * sm.abs_h / d);
        expect(std::fabs((double)(n.score() - score)) <= tol, "shrunken-fit", what, ": in tree ", k, " a node of ", rows.size(), " rows scores ", n.score(), ", not ", (double)score);
      }
      if (!n.has_left_child()) return;
      ++splits;
      std::vector<uint> left, right;
      for (uint i : rows) (GoesLeft(t, n.split(), i) ? left : right).push_back(i);
      if (!sampled) CheckReported(p, left, right, n.split().gain(), cat(what, " tree ", k));
      walk(n.left_child(), left);
      walk(n.right_child(), right);
    };
    std::vector<uint> all;
    for (uint i = 0; i < t.n; ++i) all.push_back(i);
    walk(tree, all);
    expect(Leaves(tree) <= cfg.num_leaves(), "leaf-limit", what);
    add(tree, rec.calls[k].c);
    count("trees");
  }
  if (!diverged && finite) {
    std::vector<double> scores;
    Status es = gbdt::EvaluateForest(&store, forest, &scores);
    expect(es.ok() && scores.size() == t.n, "evaluate", what, ": ", es.ToString());
    for (size_t i = 0; i < t.n; ++i)
      expect(Near(scores[i], f[i], 0, (1e-6 + 6e-8 * (base.tree_size() - (int)inner.size() + rec.calls.size())) * (fmag[i] + mag) + 1e-30), "evaluate", what, ": row ", i, " scores ", scores[i], " by the model, the final ensemble ", f[i]);
    count("models");
  }
  if (has_base) count("with_base");
  if (sampled) count("sampled");
  seen("loss", hash_str(loss));
  if (splits && done > 1) { nontrivial(mix(Shape(forest), hash_str(cat(f[0])))); sample(what); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
