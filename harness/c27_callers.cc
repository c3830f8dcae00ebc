// C27: several callers at once.  Each caller's results are compared with what the same call gives alone.
#include "pipeline.h"

#include <dirent.h>

using namespace vh;

static std::string DirText(const std::string& d) {
  std::string all;
  std::set<std::string> names;
  if (DIR* dp = opendir(d.c_str())) {
    while (dirent* e = readdir(dp)) if (e->d_name[0] != '.') names.insert(e->d_name);
    closedir(dp);
  }
  for (auto& n : names) { all += n + "\n" + read_file(d + "/" + n) + "\n\n"; unlink((d + "/" + n).c_str()); }
  return all;
}

static std::string ColumnText(DataStore* s, const Table& t) {
  std::ostringstream o;
  o.precision(9);
  for (auto& c : t.cols) {
    const Column* col = s->GetColumn(c.name);
    if (!col) { o << "no " << c.name; continue; }
    o << c.name << ' ' << col->size();
    for (uint i = 0; i < col->size(); ++i) {
      if (c.kind == RefCol::kCat) o << ' ' << static_cast<const gbdt::StringColumn*>(col)->get_row_string(i);
      else if (c.kind == RefCol::kRaw) o << ' ' << (*static_cast<const gbdt::RawFloatColumn*>(col))[i];
      else o << ' ' << static_cast<const gbdt::BucketizedFloatColumn*>(col)->get_row_max(i);
    }
    o << '\n';
  }
  return o.str();
}

static void Case(long id, Rng& r) {
  JobOpts o;
  o.table.min_rows = 1;
  o.table.max_rows = r.chance(0.3) ? 1200 : 120;
  o.max_trees = 4;
  Job j = GenJob(r, o);
  StoreKind kind = (StoreKind)(id % 3);
  FLAGS_num_threads = r.range(1, 5);
  int jitter = r.range(0, 4), seed = r.range(0, 1 << 30);
  auto store = Load(j, kind, 3);
  if (kind == kFlat) for (auto& c : j.t.cols) expect(store->GetColumn(c.name), "load", j.what);
  Table ft = j.t;
  ft.cols.resize(j.features);
  std::vector<Forest> forests;
  for (int k = 0; k < 3; ++k) { forests.push_back(GenForest(r, ft, 6, 4)); if (!forests.back().tree_size()) forests.back().add_tree()->set_score(1); }
  std::vector<std::string> tsvs = WriteTsv(j.t, 2, "own");
  std::string json0;
  expect(JsonUtils::ToJson(forests[0], &json0).ok(), "json", j.what);
  bool trains = r.chance(0.6);

  // What a call does, as text.  k selects the model; dir is the caller's own.
  auto score = [&](int k, const std::string&) {
    std::vector<double> s;
    Status e = gbdt::EvaluateForest(store.get(), forests[k], &s);
    std::string t = e.ok() ? "" : e.ToString();
    t.append((const char*)s.data(), s.size() * sizeof(double));
    return t;
  };
  auto points = [&](int k, const std::string& dir) {
    std::list<int> p;
    for (int i = 1; i <= forests[k].tree_size(); i += 2) p.push_back(i);
    Status e = gbdt::EvaluateForest(store.get(), forests[k], p, dir);
    return (e.ok() ? "" : e.ToString()) + DirText(dir);
  };
  auto read = [&](int, const std::string&) { return ColumnText(store.get(), j.t) + store->Description(); };
  auto load = [&](int, const std::string&) {
    gbdt::TSVDataStore s(tsvs, j.cfg);
    return s.status().ToString() + ColumnText(&s, j.t);
  };
  auto json = [&](int k, const std::string&) {
    std::string t;
    Forest back;
    Status s = JsonUtils::ToJson(forests[k], &t);
    if (s.ok()) s = JsonUtils::FromJson(t, &back);
    return s.ToString() + t + Bits(back);
  };
  auto importance = [&](int k, const std::string&) {
    std::string t;
    for (auto& p : gbdt::ComputeFeatureImportance(forests[k])) t += cat(p.first, ' ', p.second, '\n');
    return t;
  };
  std::vector<std::function<std::string(int, const std::string&)>> ops{score, points, read, load, json, importance};
  static const char* kOps[] = {"score", "checkpoints", "read", "load", "json", "importance"};
  auto train = [&]() {
    Forest f;
    Status s = TrainJob(j, store.get(), seed, &f, nullptr, jitter);
    return s.ToString() + Bits(f);
  };

  // Alone.
  std::string own = st().scratch + "/alone";
  std::map<std::pair<int, int>, std::string> want;
  for (size_t op = 0; op < ops.size(); ++op) for (int k = 0; k < 3; ++k) want[{(int)op, k}] = ops[op](k, own);
  std::string want_train = trains ? train() : "";

  // Together.
  int callers = r.range(2, 5);
  std::vector<std::thread> threads;
  std::atomic<int> ready{0};
  std::vector<std::string> wrong(callers + 1);
  std::vector<int> done(callers + 1);
  std::vector<std::vector<int>> plan(callers);
  for (auto& p : plan) { int m = r.range(2, 6); for (int q = 0; q < m; ++q) p.push_back(r.range(0, ops.size() * 3 - 1)); }
  for (int c = 0; c < callers; ++c) threads.emplace_back([&, c] {
    std::string dir = cat(st().scratch, "/caller", c);
    ++ready;
    while (ready < callers + trains) std::this_thread::yield();
    for (int p : plan[c]) {
      int op = p / 3, k = p % 3;
      std::string got = ops[op](k, dir);
      if (got != want[{op, k}] && wrong[c].empty()) wrong[c] = cat(kOps[op], " with model ", k, " gives ", got.substr(0, 300), " and alone ", want[{op, k}].substr(0, 300));
      ++done[c];
    }
  });
  if (trains) threads.emplace_back([&] {
    ++ready;
    while (ready < callers + 1) std::this_thread::yield();
    std::string got = train();
    if (got != want_train) wrong[callers] = "training gives another model";
    ++done[callers];
  });
  for (auto& t : threads) t.join();
  std::string what = cat(j.what, " store ", (int)kind, " threads=", FLAGS_num_threads, " callers=", callers, trains ? " and training" : "");
  for (auto& w : wrong) expect(w.empty(), "differs", what, ": ", w);
  for (int d : done) count("calls", d);
  count("trained", trains);
  count("cases_together");
  for (auto& p : plan) for (size_t q = 1; q < p.size(); ++q) seen("op_pair", p[q - 1] / 3 * 10 + p[q] / 3);
  seen("callers", callers * 10 + FLAGS_num_threads);
  seen("store", kind);
  nontrivial(mix(hash_str(what), id));
  sample(what);
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
