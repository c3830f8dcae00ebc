// C16: loading, training and evaluating under ThreadSanitizer, with delays that spread the work over the threads.
// The sanitizer is the oracle; the harness counts what ran in parallel.
#include "pipeline.h"

using namespace vh;

static std::atomic<int> lock_jitter{0};
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t* m);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  Jitter(lock_jitter.load(std::memory_order_relaxed));
  return __real_pthread_mutex_lock(m);
}

// Threads seen in callbacks.  A relaxed per-thread slot, so that the monitor itself orders nothing.
static std::atomic<long> slots[64];
static std::atomic<int> next_slot{0};
static void Mark() {
  thread_local int slot = next_slot.fetch_add(1, std::memory_order_relaxed) % 64;
  slots[slot].store(slots[slot].load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
}
static int Workers() {
  int n = 0;
  for (auto& s : slots) n += s.exchange(0, std::memory_order_relaxed) > 0;
  return n;
}

static void Case(long id, Rng& r) {
  JobOpts o;
  o.loss = Losses()[id / 8 % Losses().size()];
  o.table.min_rows = 10;
  o.table.max_rows = r.chance(0.3) ? 1500 : 150;
  o.table.max_feat = 9;
  o.max_trees = 3;
  o.max_groups = r.chance(0.5) ? 80 : 6;
  o.grouped = Pairwise(o.loss) ? 0.8 : 0.1;
  Job j = GenJob(r, o);
  StoreKind kind = (StoreKind)(id % 3);
  int parts = r.range(1, 7);
  FLAGS_num_threads = r.range(2, 8);
  lock_jitter = r.range(0, 10);
  std::string what = cat(j.what, " threads=", FLAGS_num_threads, " store=", (int)kind);
  auto store = Load(j, kind, parts);
  if (kind == kFlat && r.chance(0.5)) {
    // Columns first asked for by several threads at once.
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    int n = r.range(2, 6);
    std::vector<std::vector<const Column*>> got(n);
    for (int k = 0; k < n; ++k) ts.emplace_back([&, k] {
      ++ready;
      while (ready < n) {}
      for (auto& c : j.t.cols) { got[k].push_back(store->GetColumn(c.name)); if (got[k].back()) got[k].back()->size(); }
    });
    for (auto& t : ts) t.join();
    for (int k = 1; k < n; ++k) expect(got[k] == got[0], "columns", what, ": threads got different columns");
    count("lazy_parallel");
  }
  // The flat store loads features in workers here, otherwise.
  gbdt::Subsampling::Reseed(r.range(0, 1 << 30));
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(j.cfg);
  FloatVector w = gbdt::GetSampleWeightsOrDie(j.cfg, store.get()), y = gbdt::GetTargetsOrDie(j.cfg, store.get());
  int jitter = r.range(0, 4);
  FloatVector jw = [w, jitter](int i) { Mark(); Jitter(jitter); return w(i); }, jy = [y, jitter](int i) { Mark(); Jitter(jitter); return y(i); };
  Forest base, forest;
  bool has_base = r.chance(0.3);
  if (has_base) { Table ft = j.t; ft.cols.resize(j.features); base = GenForest(r, ft, 3, 3); }
  Workers();
  Status s = gbdt::TrainGBDT(store.get(), gbdt::GetFeaturesSetFromConfig(j.cfg), jw, jy, loss.get(), j.cfg, has_base ? &base : nullptr, &forest);
  int workers = Workers();
  if (s.ok()) {
    std::vector<double> scores;
    Status e = gbdt::EvaluateForest(store.get(), forest, &scores);
    expect(e.ok() && scores.size() == j.t.n, "evaluate", what, ": ", e.ToString());
    auto other = Load(j, kFlat);
    e = gbdt::EvaluateForest(other.get(), forest, {1, forest.tree_size()}, st().scratch + "/out");
    expect(e.ok(), "evaluate", what, ": ", e.ToString());
    count("trained");
    nontrivial(mix(Shape(forest), mix(hash_str(what), workers)));
    sample(cat(what, ", ", workers, " threads seen in callbacks"));
  }
  lock_jitter = 0;
  count(cat("trained_", o.loss), s.ok());
  if (workers > 2) count("spread");
  seen("workers", workers);
  seen("store", kind);
  if (j.grouped) count("grouped");
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
