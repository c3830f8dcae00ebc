// C23: which training requests are refused, and that all others train.
#include "pipeline.h"

using namespace vh;

static float Rate(Rng& r, bool* bad) {
  static const float kBad[] = {0, -0.0f, -1, -0.5f, 1.0000001f, 1.5f, 2, NAN, -NAN, INFINITY, -INFINITY, 1e30f, -1e-30f};
  static const float kGood[] = {1, 0.5f, 0.99999994f, 1e-30f, 1e-6f, 0.01f, 1.4e-45f};
  *bad = r.chance(0.08);
  return *bad ? kBad[r.range(0, 12)] : r.chance(0.4) ? 1 : kGood[r.range(0, 6)];
}

static void Case(long id, Rng& r) {
  JobOpts o;
  bool zero = false;
  o.table.min_rows = 1;
  if (r.chance(0.04)) o.table.min_rows = 0, zero = true;
  o.table.max_rows = zero ? 0 : 25;
  o.max_trees = 3;
  Job j = GenJob(r, o);
  auto& c = j.cfg;
  std::string loss = c.loss_func();
  std::vector<std::string> invalid, absent;
  auto count_of = [&](const char* name, std::function<void(int)> set) {
    if (!r.chance(0.08)) return;
    int v = r.pick(std::vector<int>{0, 0, -1, -5, INT32_MIN, INT32_MIN + 1});
    set(v);
    invalid.push_back(cat(name, '=', v));
  };
  count_of("num_trees", [&](int v) { c.set_num_trees(v); });
  count_of("num_leaves", [&](int v) { c.set_num_leaves(v); });
  if (c.num_leaves() > 0 && r.chance(0.1)) c.set_num_leaves(r.chance(0.5) ? INT32_MAX : 1000);
  bool bad;
  c.set_example_sampling_rate(Rate(r, &bad));
  if (bad) invalid.push_back(cat("example_sampling_rate=", c.example_sampling_rate()));
  c.set_feature_sampling_rate(Rate(r, &bad));
  if (bad) invalid.push_back(cat("feature_sampling_rate=", c.feature_sampling_rate()));
  bool bad_config = !invalid.empty();
  // Everything finite that is not named is allowed.
  c.set_shrinkage(r.pick(std::vector<float>{0.1f, 1, 0, 1e-30f, 0.5f, 2, -0.5f}));
  c.set_l2_lambda(r.pick(std::vector<double>{0, 0, 1e-12, 0.5, 100, 1e12}));
  c.set_min_hessian(r.pick(std::vector<double>{0, 0, 1e-9, 1, 1e9, -1}));
  c.set_min_gain(r.pick(std::vector<double>{0, 0, -1, 1, 1e9}));
  c.set_eval_interval(r.range(-3, 3));
  c.set_lambdamart_dcg_base(r.pick(std::vector<float>{0, 2, 1.5, 10}));
  c.set_pair_sampling_rate(r.pick(std::vector<float>{0.1f, 1, 5, 1e-20f}));
  if (r.chance(0.1)) {
    c.set_pair_sampling_rate(r.pick(std::vector<float>{0, -1, -0.0f, NAN, -INFINITY, -1e-30f}));
    if (Pairwise(loss)) invalid.push_back(cat("pair_sampling_rate=", c.pair_sampling_rate()));
  }
  // Targets.
  RefCol* y = nullptr;
  for (auto& col : j.t.cols) if (col.name == "target") y = &col;
  if (j.t.n && r.chance(0.12)) {
    float v = Binary(loss) ? r.pick(std::vector<float>{0, NAN, 1.0000001f, -0.99999994f, 2, INFINITY, -INFINITY, 1e-30f, -3}) : NAN;
    if (Binary(loss) || Pairwise(loss)) {
      y->f[r.range(0, j.t.n - 1)] = v;
      if (r.chance(0.3)) y->f[j.t.n - 1] = v;
      if (r.chance(0.3)) y->f[0] = v;
      invalid.push_back(cat("target ", v));
    }
  }
  // Features the data lacks.
  if (r.chance(0.12)) {
    std::string name = r.pick(std::vector<std::string>{"nosuch", "", "num", "NUM0", "target "});
    if (r.chance(0.5)) c.add_float_feature(name); else c.add_categorical_feature(name);
    absent.push_back(name);
  }
  FLAGS_num_threads = r.range(1, 3);
  std::string why;
  for (auto& x : invalid) why += " " + x;
  for (auto& x : absent) why += " absent '" + x + "'";
  std::string what = cat(j.what, " rates=", c.example_sampling_rate(), '/', c.feature_sampling_rate(), " shrinkage=", c.shrinkage(), " lambda=", c.l2_lambda(), " min_hessian=", c.min_hessian(), " min_gain=", c.min_gain(), " pairs=", c.pair_sampling_rate(), why.empty() ? "" : ", wrong:", why);

  Status check = gbdt::CheckConfig(c);
  if (bad_config) expect(check.error_code() == err::INVALID_ARGUMENT, "check-config", what, ": CheckConfig says ", check.ToString());
  else expect(check.ok(), "check-config", what, ": CheckConfig says ", check.ToString());

  auto store = Load(j, kMemory);
  Forest f;
  Status s = TrainJob(j, store.get(), r.range(0, 1000), &f);
  if (invalid.empty() && absent.empty()) {
    if (s.error_code() == err::INTERNAL) {
      // Divergence: leaves without regularization, steps beyond the fit, or undamped Newton steps for the constant.
      expect(c.shrinkage() < 0 || c.shrinkage() > 1 || c.l2_lambda() == 0 || Binary(loss), "divergence", what, ": ", s.ToString());
      count("diverged");
    } else {
      expect(s.ok(), "refused", what, ": ", s.ToString());
      expect(f.tree_size() == c.num_trees() + 1, "tree-count", what, ": ", f.tree_size(), " trees");
      for (auto& t : f.tree()) expect(Leaves(t) <= c.num_leaves(), "leaves", what);
      count("trained");
      if (j.t.n == 0) count("trained_without_rows");
    }
  } else {
    bool ok = (!invalid.empty() && s.error_code() == err::INVALID_ARGUMENT) || (!absent.empty() && s.error_code() == err::NOT_FOUND);
    // Without rows no target can be wrong.
    expect(ok, "not-refused", what, ": ", s.ToString());
    expect(!s.ToString().empty() && f.tree_size() == 0, "model-produced", what, ": refused, but returned ", f.tree_size(), " trees");
    if (invalid.size() + absent.size() == 1) seen("lone_reason", hash_str(why.substr(0, why.find('=')) + loss));
    count(absent.empty() ? "refused_invalid" : "refused_absent");
  }
  // Loss names.
  gbdt::Config lc = c;
  std::string name = r.pick(Losses());
  switch (r.range(0, 6)) {
    case 0: name += " "; break;
    case 1: name = ""; break;
    case 2: name[0] = toupper(name[0]); break;
    case 3: name = name.substr(1); break;
    case 4: name = "lambdarank"; break;
    default: break;
  }
  bool known = std::find(Losses().begin(), Losses().end(), name) != Losses().end();
  lc.set_loss_func(name);
  expect((gbdt::LossFuncFactory::CreateLossFunc(lc) != nullptr) == known, "loss-name", "loss '", name, "' is ", known ? "refused" : "accepted");
  count(known ? "loss_known" : "loss_unknown");
  seen("loss", hash_str(loss));
  nontrivial(hash_str(what));
  sample(cat(what, ": ", s.ToString()));
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
