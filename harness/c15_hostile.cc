// C15: hostile data, configurations, models and call sequences through the whole library.
// The sanitizers (or valgrind) are the oracle; the harness adds that what is accepted is finite and readable, and
// that refused loads give their memory back.
#include <malloc.h>

#include "pipeline.h"

#include "src/data_store/tsv_block.h"

using namespace vh;


extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static long Allocated() {
  if (__sanitizer_get_current_allocated_bytes) return (long)__sanitizer_get_current_allocated_bytes();
  return -1;
}

static const float kInf = std::numeric_limits<float>::infinity();
static float Odd(Rng& r) {
  static const float v[] = {0.0f, -0.0f, 1, -1, kInf, -kInf, NAN, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(),
                            std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min(), 1e30f, -1e30f, 1e-30f, 16777216.0f, 2147483648.0f, -2147483648.0f};
  return v[r.range(0, 16)];
}
static double OddD(Rng& r) {
  static const double v[] = {0, -1, 1e300, -1e300, 1e-300, INFINITY, -INFINITY, NAN, 1e18, 0.5};
  return v[r.range(0, 9)];
}

static bool Finite(const TreeNode& n) {
  return std::isfinite(n.score()) && (!n.has_left_child() || (Finite(n.left_child()) && Finite(n.right_child())));
}

// Valgrind runs this some thirty times slower.
static bool Slow() {
  static const bool slow = getenv("VERIF_FLAVOUR") && std::string(getenv("VERIF_FLAVOUR")) == "plain";
  return slow;
}

// A job whose data and settings are mostly at their extremes.
static Job Hostile(Rng& r) {
  JobOpts o;
  o.table.extremes = true;
  o.table.min_rows = 0;
  o.table.max_rows = Slow() ? 20 : r.chance(0.2) ? 400 : 30;
  o.max_trees = 4;
  o.max_leaves = !Slow() && r.chance(0.2) ? 60 : 6;
  o.loss = Losses()[r.range(0, 6)];
  Job j = GenJob(r, o);
  if (r.chance(0.15)) {
    // Many categories and infinite targets.
    o.table.min_rows = 60; o.table.max_rows = Slow() ? 70 : 300; o.table.max_feat = 3;
    j = GenJob(r, o);
    int card = r.range(17, 60);
    for (size_t k = 0; k < j.features; ++k) if (j.t.cols[k].kind == RefCol::kCat) for (auto& v : j.t.cols[k].s) v = "c" + std::to_string(r.range(0, card));
    for (auto& v : j.t.cols[j.features].f) if (r.chance(0.1)) v = r.chance(0.7) ? kInf : Odd(r);
    j.cfg.set_num_leaves(r.range(2, 9));
    return j;
  }
  double odd = r.pick(std::vector<double>{0, 0.05, 0.5, 1});
  if (r.chance(0.6)) for (size_t k = j.features; k < j.t.cols.size(); ++k) {
    auto& c = j.t.cols[k];
    if (c.kind == RefCol::kRaw && r.chance(0.6)) for (auto& v : c.f) if (r.chance(odd)) v = Odd(r);
    if (c.kind == RefCol::kRaw && r.chance(0.3)) { float x = Odd(r); for (auto& v : c.f) if (r.chance(0.9)) v = x; }
    if (c.kind == RefCol::kRaw && r.chance(0.3)) for (auto& v : c.f) v *= r.pick(std::vector<float>{-1, 1e20f, 1e38f, 1e-38f, 0});
    if (c.kind == RefCol::kCat && r.chance(0.2)) for (auto& v : c.s) v = r.chance(0.5) ? kMissing : "";
  }
  auto& c = j.cfg;
  int changes = r.range(0, 3);
  for (int i = 0; i < changes; ++i) switch (r.range(0, 13)) {
    case 0: c.set_shrinkage(Odd(r)); break;
    case 1: c.set_min_gain(OddD(r)); break;
    case 2: c.set_l2_lambda(OddD(r)); break;
    case 3: c.set_min_hessian(OddD(r)); break;
    case 4: c.set_example_sampling_rate(r.chance(0.5) ? Odd(r) : (float)r.uni() * 0.1f); break;
    case 5: c.set_feature_sampling_rate(r.chance(0.5) ? Odd(r) : (float)r.uni() * 0.1f); break;
    case 6: c.set_eval_interval((int)r.range(-3, 3)); break;
    case 7: c.set_num_leaves(r.pick(std::vector<int>{0, 1, 2, -1, 1000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()})); break;
    case 8: c.set_num_trees(r.pick(std::vector<int>{0, 1, -1, -1000, std::numeric_limits<int>::min()})); break;
    case 9: c.set_lambdamart_dcg_base(r.pick(std::vector<float>{1, 0, -1, 0.5f, kInf, NAN, 1.0000001f, 1e38f})); break;
    case 10: c.set_pair_sampling_rate(r.pick(std::vector<float>{0, -1, NAN, kInf, -kInf, 1e-30f, 50, 0.01f})); break;
    case 11: c.set_binarize_target(true); break;
    case 12: c.set_loss_func(r.pick(Losses())); break;
    case 13: c.set_equal_group_weight(true); c.set_pair_weight_by_delta_target(true); break;
  }
  // A sampling rate is a cost, too: keep what it asks for finite.
  return j;
}

static void Use(const Job& j, DataStore* store, const Forest& f, Rng& r, bool ours) {
  std::vector<double> scores;
  Status s = gbdt::EvaluateForest(store, f, &scores);
  if (ours) expect(s.ok() && scores.size() == j.t.n, "evaluate-own", j.what, ": ", s.ToString(), " ", scores.size());
  if (s.ok()) count("evaluated"); else count("evaluate_refused");
  std::list<int> points;
  for (int i = 0; i < 3; ++i) points.push_back(r.range(-2, f.tree_size() + 2));
  std::string out = st().scratch + "/out";
  s = gbdt::EvaluateForest(store, f, points, out);
  points = gbdt::GetTestPoints(j.cfg, f.tree_size());
  for (int p : points) expect(p >= 0 && p <= std::max(1, f.tree_size()), "test-points", j.what, ": ", p, " of ", f.tree_size());
  auto imp = gbdt::ComputeFeatureImportance(f);
  for (auto& p : imp) (void)p;
  gbdt::CollectAllFeatures(f);
  std::string text;
  s = JsonUtils::ToJson(f, &text);
  if (s.ok()) {
    Forest back;
    s = JsonUtils::FromJson(text, &back);
    if (ours) expect(s.ok(), "unreadable-own", j.what, ": ", s.ToString());
  }
}

static void Train(long id, Rng& r) {
  Job j = Hostile(r);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 7});
  StoreKind kind = (StoreKind)r.range(0, 2);
  if (j.t.n == 0) kind = kMemory;
  std::unique_ptr<DataStore> store;
  Job clean = j;
  store = Load(clean, kind);
  int rounds = r.range(1, 2);
  Forest forest;
  bool last_finite = false;
  for (int k = 0; k < rounds; ++k) {
    Forest base, out;
    bool with_base = r.chance(0.35), odd_base = false;
    if (with_base) {
      Table ft = j.t;
      ft.cols.resize(j.features);
      base = k && r.chance(0.5) && last_finite ? forest : GenForest(r, ft, 3, 3);
      if (r.chance(0.3) && base.tree_size()) { base.mutable_tree(0)->set_score(Odd(r)); odd_base = true; }
    }
    Status s = TrainJob(j, store.get(), (int)r.range(0, 1 << 30), &out, with_base ? &base : nullptr);
    count(s.ok() ? "trained" : "train_refused");
    seen("train_status", hash_str(s.ok() ? "" : std::string(s.ToString()).substr(0, 40)));
    if (!s.ok()) continue;
    if (!odd_base) for (auto& t : out.tree()) expect(Finite(t), "not-finite", j.what, ": ", Show(out, 600));
    Use(j, store.get(), out, r, true);
    forest = out;
    last_finite = !odd_base;
    if (r.chance(0.5)) j.cfg.set_loss_func(r.pick(Losses()));
    nontrivial(mix(hash_str(j.cfg.SerializeAsString()), Shape(out)));
    sample(cat("train ", j.what, ": ", Show(out, 300)));
  }
}

// ------------------------------------------------------------------------------------------- tables
static std::string Mutate(Rng& r, std::string s, int edits) {
  static const std::string tokens[] = {"\t", "\n", "\r\n", "nan", "-", "1e999", "0x1p3", "", "#", "\"", "{", "}", "[", "]", ":", ",", "1e-999", "-0", "99999999999999999999", "null", "true", "\xff", "\\u0000", "NaN", "Infinity", "# dtype=strings\n"};
  for (int i = 0; i < edits; ++i) {
    size_t p = s.empty() ? 0 : r.range(0, s.size());
    switch (r.range(0, 4)) {
      case 0: s.insert(p, tokens[r.range(0, 25)]); break;
      case 1: s.erase(p, r.range(1, 6)); break;
      case 2: if (p < s.size()) s[p] = (char)r.range(0, 255); break;
      case 3: s.resize(p); break;
      case 4: { size_t q = s.empty() ? 0 : r.range(0, s.size()); s.insert(p, s.substr(q, r.range(1, 40))); break; }
    }
    if (s.size() > 20000) s.resize(20000);
  }
  return s;
}

// Other values in whatever places, mostly of the right kind.
static std::string EditValues(Rng& r, std::string text) {
  static const std::vector<std::string> numbers{"0", "-1", "1", "2", "0.5", "1e308", "-1e308", "1e-46", "1e38", "2147483647", "2147483648", "-2147483648", "\"NaN\"", "\"Infinity\"", "\"-Infinity\"", "\"7\"", "1e1", "-0"},
      strings{"\"\"", "\"num0\"", "\"cat1\"", "\"cat0\"", "\"target\"", "\"mse\"", "\"auc\"", "\"weight\"", "\"group\"", "\"__missing__\"", "\"\\u0000\"", "\"no such\""},
      lists{"[]", "[\"num0\",\"num0\"]", "[\"cat0\"]", "[\"\"]", "null"}, odd{"null", "true", "false", "{}", "[[]]", "1e999", "nan", "\"x\"", "3"};
  int edits = r.range(1, 3);
  for (int i = 0; i < edits; ++i) {
    std::vector<size_t> colons;
    for (size_t p = 0; p + 1 < text.size(); ++p) if (text[p] == ':' && text[p + 1] != '{') colons.push_back(p);
    if (colons.empty()) break;
    size_t p = r.pick(colons) + 1, depth = 0, q = p;
    bool list_of_objects = text.compare(p, 2, "[{") == 0;
    for (; q < text.size(); ++q) {
      if (text[q] == '[') ++depth;
      if (text[q] == ']') --depth;
      if (!depth && (text[q] == ',' || text[q] == '}')) break;
    }
    if (list_of_objects && r.chance(0.9)) continue;
    char k = text[p];
    const auto& pool = r.chance(0.05) ? odd : k == '"' && text.compare(p, 4, "\"NaN") && text.compare(p, 3, "\"In") && text.compare(p, 4, "\"-In") ? strings : k == '[' ? lists : k == 't' || k == 'f' ? odd : numbers;
    std::string v = r.pick(pool);
    if (&pool == &odd && (k == 't' || k == 'f')) v = k == 't' ? "false" : "true";
    text.replace(p, q - p, v);
  }
  return text;
}

static void Tables(long id, Rng& r) {
  JobOpts o;
  o.table.extremes = r.chance(0.3);
  o.table.min_rows = 0;
  o.table.max_rows = Slow() ? 20 : 60;
  o.max_trees = 2;
  Job j = GenJob(r, o);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 3, 8});
  bool flat = r.chance(0.4);
  std::vector<std::string> files;
  std::string dir;
  gbdt::Config cfg = j.cfg;
  if (flat) {
    dir = WriteFlat(j.t);
    for (auto& c : j.t.cols) files.push_back(dir + "/" + c.name);
  } else {
    files = WriteTsv(j.t, r.range(1, 5));
  }
  int broken = r.range(1, 2);
  for (int i = 0; i < broken; ++i) {
    std::string f = r.pick(files), text = read_file(f);
    text = Mutate(r, text, r.chance(0.2) ? 40 : r.range(1, 3));
    std::ofstream(f, std::ios::binary) << text;
  }
  if (!flat && r.chance(0.15)) files.insert(files.begin() + r.range(0, files.size()), st().scratch + "/no-such-file");
  if (!flat && r.chance(0.2)) cfg.add_additional_float_column(j.t.cols[r.range(0, j.t.cols.size() - 1)].name);
  if (!flat && r.chance(0.2)) cfg.add_additional_string_column(j.t.cols[r.range(0, j.t.cols.size() - 1)].name);
  auto once = [&](bool use) {
    std::unique_ptr<DataStore> s;
    if (flat) s.reset(new gbdt::FlatfilesDataStore(dir));
    else s.reset(new gbdt::TSVDataStore(files, cfg));
    bool all = s->status().ok();
    for (auto& c : j.t.cols) {
      const Column* k = s->GetColumn(c.name);
      if (!k || !all) { all = false; continue; }
      for (size_t i = 0; i < s->num_rows() && k->status().ok(); ++i) {
        if (auto* q = s->GetStringColumn(c.name)) q->get_row_string(i);
        if (auto* q = s->GetBucketizedFloatColumn(c.name)) { q->get_row_min(i); q->get_row_max(i); }
        if (auto* q = s->GetRawFloatColumn(c.name)) (*q)[i];
      }
    }
    for (size_t k = 0; k < j.features && all; ++k) all = s->GetColumn(j.t.cols[k].name)->type() != Column::kRawFloatColumn;
    all = all && s->GetRawFloatColumn("target") && (!j.weighted || s->GetRawFloatColumn("weight")) && (!j.grouped || s->GetStringColumn("group"));
    if (all && use) {
      Forest f;
      Status t = TrainJob(j, s.get(), 1, &f);
      count(t.ok() ? "odd_trained" : "odd_refused");
      if (t.ok()) { for (auto& tree : f.tree()) expect(Finite(tree), "not-finite", j.what); Job k = j; k.t.n = s->num_rows(); Use(k, s.get(), f, r, true); }
    }
    return all;
  };
  bool all = once(true);
  count(all ? "tables_loaded" : "tables_refused");
  if (!all && Allocated() >= 0) {
    // Memory of refused loads comes back: it does not grow with every try.
    once(false); once(false);
    long last = Allocated(), grew = 0, total = 0;
    for (int i = 0; i < 5; ++i) { once(false); long now = Allocated(); grew += now > last; total += now - last; last = now; }
    expect(grew < 5, "leak", j.what, flat ? " flat files" : " TSVs", ": every refused load keeps memory, ", total, " bytes in five");
    count("leak_checked");
  }
  nontrivial(mix(id, hash_str(j.what)));
}

// ------------------------------------------------------------------------------------------- models
static void BreakNode(Rng& r, const Table& t, TreeNode* n) {
  switch (r.range(0, 9)) {
    case 0: n->clear_left_child(); break;
    case 1: n->clear_right_child(); break;
    case 2: n->clear_split(); break;
    case 3: n->mutable_split()->clear_float_split(); n->mutable_split()->clear_cat_split(); break;
    case 4: n->mutable_split()->set_feature(r.chance(0.5) ? "no such" : t.cols[r.range(0, t.cols.size() - 1)].name); break;
    case 5: n->mutable_split()->mutable_float_split()->set_threshold(Odd(r)); break;
    case 6: n->mutable_split()->mutable_cat_split()->add_category(r.chance(0.5) ? kMissing : ""); break;
    case 7: n->set_score(Odd(r)); break;
    case 8: n->mutable_split()->mutable_cat_split()->add_internal_categorical_index((uint32_t)r.next()); break;
    case 9: n->mutable_split()->set_gain(r.chance(0.5) ? NAN : -INFINITY); break;
  }
}
static TreeNode* AnyNode(Rng& r, Forest* f) {
  TreeNode* n = f->mutable_tree(r.range(0, f->tree_size() - 1));
  while (n->has_left_child() && n->has_right_child() && r.chance(0.7)) n = r.chance(0.5) ? n->mutable_left_child() : n->mutable_right_child();
  return n;
}

static void Models(long id, Rng& r) {
  JobOpts o;
  o.table.min_rows = r.chance(0.1) ? 0 : 1;
  o.table.extremes = true;
  Job j = GenJob(r, o);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 3, 8});
  auto store = Load(j, j.t.n ? (StoreKind)r.range(0, 2) : kMemory);
  Table ft = j.t;
  ft.cols.resize(j.features);
  Forest f = GenForest(r, ft, 4, 4);
  if (!f.tree_size()) f.add_tree();
  std::string how;
  if (r.chance(0.5)) {
    int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) BreakNode(r, j.t, AnyNode(r, &f));
    how = "broken nodes";
  } else {
    std::string text;
    Status s = JsonUtils::ToJson(f, &text);
    if (s.ok()) text = r.chance(0.3) ? Mutate(r, text, r.chance(0.2) ? 20 : r.range(1, 3)) : EditValues(r, text);
    if (r.chance(0.05)) { text = "{\"tree\":["; int depth = r.pick(std::vector<int>{20, 200, 20000}); for (int i = 0; i < depth; ++i) text += "{\"leftChild\":"; }
    Forest g;
    s = JsonUtils::FromJson(text, &g);
    count(s.ok() ? "model_read" : "model_refused");
    if (!s.ok()) { nontrivial(mix(id, hash_str(text))); return; }
    f = g;
    how = "edited text";
  }
  Job k = j;
  k.what = cat(j.what, " ", how);
  Use(k, store.get(), f, r, false);
  Forest out;
  k.cfg.set_num_trees(1);
  Status s = TrainJob(k, store.get(), 1, &out, &f);
  count(s.ok() ? "based_trained" : "based_refused");
  if (s.ok()) Use(k, store.get(), out, r, false);
  nontrivial(mix(id, Shape(f)));
}

// ------------------------------------------------------------------------------------ configurations
static void Configs(long id, Rng& r) {
  JobOpts o;
  o.max_trees = 2;
  Job j = GenJob(r, o);
  std::string text;
  Status s = JsonUtils::ToJson(j.cfg, &text);
  expect(s.ok(), "config-text", s.ToString());
  text = r.chance(0.25) ? Mutate(r, text, r.range(1, 2)) : EditValues(r, text);
  gbdt::Config c;
  s = JsonUtils::FromJson(text, &c);
  count(s.ok() ? "config_read" : "config_refused");
  nontrivial(hash_str(text));
  if (!s.ok()) return;
  // Costs are bounded, the rest is taken as it is.
  if (c.num_trees() > 4) c.set_num_trees(4);
  if (c.pair_sampling_rate() > 100) c.set_pair_sampling_rate(100);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 4});
  auto files = WriteTsv(j.t, 2);
  gbdt::TSVDataStore store(files, c);
  if (!store.status().ok()) { count("config_not_loaded"); return; }
  for (auto& name : {c.target_column(), c.weight_column()}) if (!name.empty()) expect(store.GetRawFloatColumn(name), "role", name);
  if (c.target_column().empty()) return;
  j.cfg = c;
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(c);
  if (!loss) { count("config_no_loss"); return; }
  Forest f;
  s = TrainJob(j, &store, 3, &f);
  count(s.ok() ? "config_trained" : "config_not_trained");
  if (s.ok()) Use(j, &store, f, r, true);
}

static void Case(long id, Rng& r) {

  switch (id % 5) {
    case 0: case 1: Train(id, r); break;
    case 2: Tables(id, r); break;
    case 3: Models(id, r); break;
    default: Configs(id, r);
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
