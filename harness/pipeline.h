// A complete training job (table, roles, configuration) and the ways to load, train and evaluate it.
#ifndef VERIF_PIPELINE_H_
#define VERIF_PIPELINE_H_

#include <dirent.h>

#include <cstring>
#include <thread>

#include "ref.h"

#include "src/data_store/flatfiles_data_store.h"
#include "src/data_store/tsv_data_store.h"
#include "src/gbdt_algo/evaluation.h"
#include "src/gbdt_algo/gbdt_algo.h"
#include "src/gbdt_algo/utils.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/json_utils.h"
#include "src/utils/subsampling.h"

namespace vh {

inline bool Binary(const std::string& loss) { return loss == "logloss" || loss == "huberized_hinge"; }
inline bool Pairwise(const std::string& loss) { return loss == "auc" || loss == "pairwise_logloss" || loss == "gbrank" || loss == "lambdamart"; }
inline const std::vector<std::string>& Losses() {
  static const std::vector<std::string> l{"mse", "logloss", "huberized_hinge", "auc", "pairwise_logloss", "gbrank", "lambdamart"};
  return l;
}

struct Job {
  Table t;                // features, then target [, weight] [, group]
  size_t features = 0;    // the leading columns
  gbdt::Config cfg;
  bool weighted = false, grouped = false;
  std::string what;
};

struct JobOpts {
  GenOpts table;
  std::string loss;       // empty: any
  double weighted = 0.5, grouped = 0.5, sampled = 0.4;
  int max_trees = 5, max_leaves = 8;
  int max_groups = 12;
};

inline Job GenJob(Rng& r, const JobOpts& o) {
  Job j;
  j.t = GenTable(r, o.table);
  j.features = j.t.cols.size();
  std::string loss = o.loss.empty() ? r.pick(Losses()) : o.loss;
  RefCol y, w, g;
  y.kind = w.kind = RefCol::kRaw;
  g.kind = RefCol::kCat;
  y.name = "target"; w.name = "weight"; g.name = "group";
  int groups = r.range(1, o.max_groups);
  for (size_t i = 0; i < j.t.n; ++i) {
    double sig = 0;
    for (size_t k = 0; k < j.features; ++k) { auto& c = j.t.cols[k]; sig += c.kind == RefCol::kFloat ? (std::fabs(c.f[i]) < 1e3 && c.f[i] > 0.3f) : c.s[i] == "c1"; }
    y.f.push_back((float)(Binary(loss) ? (r.chance(sig > 0.5 ? 0.8 : 0.3) ? 1 : -1) : loss == "lambdamart" || (Pairwise(loss) && r.chance(0.3)) ? r.range(0, 3) : sig + r.normal()));
    w.f.push_back(r.chance(0.5) ? 1 : (float)r.uni(0.1, 3));
    g.s.push_back(r.chance(0.05) ? kMissing : "q" + std::to_string(r.range(0, groups - 1)));
  }
  j.weighted = r.chance(o.weighted);
  j.grouped = r.chance(o.grouped);
  j.t.cols.push_back(y);
  if (j.weighted) j.t.cols.push_back(w);
  if (j.grouped) j.t.cols.push_back(g);
  auto& c = j.cfg;
  for (size_t k = 0; k < j.features; ++k) (j.t.cols[k].kind == RefCol::kCat ? c.add_categorical_feature(j.t.cols[k].name) : c.add_float_feature(j.t.cols[k].name));
  c.set_target_column("target");
  if (j.weighted) c.set_weight_column("weight");
  if (j.grouped) c.set_group_column("group");
  c.set_loss_func(loss);
  c.set_num_trees(r.range(1, o.max_trees));
  c.set_num_leaves(r.range(1, o.max_leaves));
  c.set_shrinkage(r.pick(std::vector<float>{1, 0.5, 0.1}));
  c.set_l2_lambda(r.chance(0.5) ? 0 : r.uni(0, 3));
  c.set_min_hessian(r.chance(0.7) ? 0 : 1);
  bool sampled = r.chance(o.sampled);
  c.set_example_sampling_rate(sampled ? (float)r.uni(0.3, 1) : 1);
  c.set_feature_sampling_rate(sampled && r.chance(0.6) ? 0.6f : 1);
  c.set_pair_sampling_rate(r.pick(std::vector<float>{0.5, 2, 10}));
  c.set_pair_weight_by_delta_target(r.chance(0.4));
  c.set_equal_group_weight(r.chance(0.4));
  if (r.chance(0.4)) c.set_lambdamart_dcg_base(r.pick(std::vector<float>{2, 1.5, 10}));
  j.what = cat(loss, " rows=", j.t.n, " features=", j.features, j.weighted ? " weighted" : "", j.grouped ? " grouped" : "", " trees=", c.num_trees(), " leaves=", c.num_leaves(), " sampling=", c.example_sampling_rate(), '/', c.feature_sampling_rate());
  return j;
}

enum StoreKind { kMemory, kTsv, kFlat };

inline std::string Cell(const RefCol& c, size_t i) {
  if (c.kind == RefCol::kCat) return c.s[i];
  if (std::isnan(c.f[i])) return "nan";
  std::ostringstream o;
  o.precision(9);
  o << c.f[i];
  return o.str();
}
inline std::vector<std::string> WriteTsv(const Table& t, int parts, const std::string& prefix = "t") {
  std::vector<std::string> names;
  size_t row = 0;
  for (int p = 0; p < parts; ++p) {
    std::ostringstream o;
    if (p == 0) { for (size_t k = 0; k < t.cols.size(); ++k) o << (k ? "\t" : "") << t.cols[k].name; o << '\n'; }
    size_t end = p + 1 == parts ? t.n : t.n * (p + 1) / parts;
    for (; row < end; ++row) { for (size_t k = 0; k < t.cols.size(); ++k) o << (k ? "\t" : "") << Cell(t.cols[k], row); o << '\n'; }
    names.push_back(write_file(prefix + std::to_string(p) + ".tsv", o.str()));
  }
  return names;
}
inline std::string WriteFlat(const Table& t, const std::string& dir = "flat") {
  std::string d = st().scratch + "/" + dir;
  mkdir(d.c_str(), 0755);
  if (DIR* dp = opendir(d.c_str())) {
    // Nothing of earlier cases.
    while (dirent* e = readdir(dp)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) unlink((d + "/" + e->d_name).c_str());
    closedir(dp);
  }
  for (auto& c : t.cols) {
    std::ostringstream o;
    o << (c.kind == RefCol::kCat ? "# dtype=strings\n" : c.kind == RefCol::kRaw ? "# dtype=raw_floats\n" : "# dtype=bucketized_floats\n");
    for (size_t i = 0; i < t.n; ++i) o << Cell(c, i) << '\n';
    write_file(dir + "/" + c.name, o.str());
  }
  return d;
}
inline void CleanFiles(const std::vector<std::string>& files) { for (auto& f : files) unlink(f.c_str()); }

inline std::unique_ptr<DataStore> Load(const Job& j, StoreKind kind, int parts = 2) {
  std::unique_ptr<DataStore> s;
  if (kind == kMemory) {
    s.reset(new DataStore);
    Fill(j.t, s.get());
  } else if (kind == kTsv) {
    s.reset(new gbdt::TSVDataStore(WriteTsv(j.t, parts), j.cfg));
    expect(s->status().ok(), "load", j.what, ": ", s->status().ToString());
  } else {
    s.reset(new gbdt::FlatfilesDataStore(WriteFlat(j.t)));
  }
  return s;
}

// Delays injected into the callbacks training makes from its worker threads.
inline void Jitter(int level) {
  if (!level) return;
  thread_local Rng r(std::hash<std::thread::id>()(std::this_thread::get_id()) ^ time(nullptr));
  int k = r.range(0, 400);
  if (k < 2 * level) usleep(r.range(0, 60));
  else if (k < 20 * level) std::this_thread::yield();
}

inline Status TrainJob(const Job& j, DataStore* store, int seed, Forest* out, const Forest* base = nullptr, int jitter = 0) {
  gbdt::Subsampling::Reseed(seed);
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(j.cfg);
  expect(loss != nullptr, "factory", j.cfg.loss_func());
  FloatVector w = gbdt::GetSampleWeightsOrDie(j.cfg, store), y = gbdt::GetTargetsOrDie(j.cfg, store);
  FloatVector jw = w, jy = y;
  if (jitter) {
    jw = [w, jitter](int i) { Jitter(jitter); return w(i); };
    jy = [y, jitter](int i) { Jitter(jitter); return y(i); };
  }
  return gbdt::TrainGBDT(store, gbdt::GetFeaturesSetFromConfig(j.cfg), jw, jy, loss.get(), j.cfg, base, out);
}

inline std::string Bits(Forest f) {
  f.clear_meta_info();
  std::string s;
  f.SerializeToString(&s);
  return s;
}
inline std::string Show(Forest f, size_t n = 1500) {
  f.clear_meta_info();
  return f.ShortDebugString().substr(0, n);
}

}  // namespace vh

#endif  // VERIF_PIPELINE_H_
