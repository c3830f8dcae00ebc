// C26: memory stays compact and comes back.  Every allocation goes through the counters below.
#include <malloc.h>

#include <new>

#include "pipeline.h"

static std::atomic<long> g_live{0}, g_peak{0}, g_calls{0};
static inline void* Take(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  long now = g_live.fetch_add(malloc_usable_size(p), std::memory_order_relaxed) + malloc_usable_size(p);
  g_calls.fetch_add(1, std::memory_order_relaxed);
  long peak = g_peak.load(std::memory_order_relaxed);
  while (now > peak && !g_peak.compare_exchange_weak(peak, now)) {}
  return p;
}
static inline void Give(void* p) {
  if (!p) return;
  g_live.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed);
  free(p);
}
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return Take(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return Take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Give(p); }

using namespace vh;

static long Live() { return g_live.load(); }
static void StartPeak() { g_peak = g_live.load(); }
static long Peak() { return g_peak.load(); }
// Allocators round up; names, status objects and vtables come on top.
static const long kSlack = 8192;

// What a column of these values may keep: the narrowest codes for its distinct values, and each distinct value once.
static long Text(const std::string& s) { return s.size() > 15 ? (long)s.size() + 40 : 0; }
static long Keeps(const RefCol& c, long* distinct = nullptr) {
  long n = c.kind == RefCol::kCat ? c.s.size() : c.f.size(), dict = 0, codes = 0;
  if (c.kind == RefCol::kRaw) return 4 * n + kSlack;
  if (c.kind == RefCol::kCat) {
    std::unordered_set<std::string> u(c.s.begin(), c.s.end());
    u.insert(kMissing);
    codes = u.size();
    for (auto& s : u) dict += 2 * 32 + 96 + 2 * Text(s);
  } else {
    std::unordered_set<float> u;
    for (float v : c.f) if (!std::isnan(v)) u.insert(v);
    // Missing, a bucket per value up to roughly twice the bucket count, and the one above all.
    codes = std::min<long>(u.size(), 60000) + 2;
    dict = codes * 24;
  }
  if (distinct) *distinct = codes;
  // A value more or less at the limit of a width is not worth a bound.
  int width = codes <= 250 ? 1 : codes <= 256 ? 2 : codes <= 65500 ? 2 : 4;
  return width * n + dict + kSlack;
}

static RefCol GenCol(Rng& r, long n, RefCol::Kind kind, const std::string& name) {
  RefCol c;
  c.kind = kind;
  c.name = name;
  long d = r.pick(std::vector<long>{1, 3, 40, 200, 300, 1000, 5000, n});
  bool wide = r.chance(0.3);
  for (long i = 0; i < n; ++i) {
    if (kind == RefCol::kCat) {
      c.s.push_back(r.chance(0.02) ? kMissing : cat(wide ? "a rather long category name " : "c", r.range(0, d - 1)));
    } else {
      c.f.push_back(r.chance(0.03) ? NAN : (float)(r.range(0, d - 1) * 0.37));
    }
  }
  return c;
}

struct Watch : gbdt::LossFunc {
  std::unique_ptr<gbdt::LossFunc> inner;
  const Forest* forest;
  std::vector<long> live, model;
  Status Init(int n, FloatVector w, FloatVector y, const gbdt::StringColumn* g) override { return inner->Init(n, w, y, g); }
  void ComputeFunctionalGradientsAndHessians(const std::vector<double>& f, double* c, std::vector<gbdt::GradientData>* g, std::string* p) override {
    live.push_back(Live());
    model.push_back(forest->SpaceUsedLong());
    inner->ComputeFunctionalGradientsAndHessians(f, c, g, p);
  }
};

static std::unique_ptr<gbdt::Column> Make(const RefCol& c) {
  if (c.kind == RefCol::kCat) return gbdt::Column::CreateStringColumn(c.name, c.s);
  if (c.kind == RefCol::kFloat) return gbdt::Column::CreateBucketizedFloatColumn(c.name, c.f);
  auto copy = c.f;
  return gbdt::Column::CreateRawFloatColumn(c.name, std::move(copy));
}

static void Columns(long id, Rng& r) {
  long n = r.chance(0.2) ? r.range(100000, 250000) : r.range(2000, 40000);
  RefCol::Kind kind = (RefCol::Kind)(id / 4 % 3 == 0 ? RefCol::kFloat : id / 4 % 3 == 1 ? RefCol::kCat : RefCol::kRaw);
  RefCol c = GenCol(r, n, kind, "column");
  long distinct = 0, may = Keeps(c, &distinct);
  std::string what = cat("column of kind ", (int)kind, " rows=", n, " values=", distinct);
  long before = Live();
  auto col = Make(c);
  long keeps = Live() - before;
  expect(keeps <= may, "column-size", what, " keeps ", keeps, " bytes where ", may, " would do");
  col.reset();
  expect(Live() - before <= 256, "column-freed", what, " leaves ", Live() - before, " bytes behind");
  // In batches, as blocks of a file arrive.
  if (kind == RefCol::kFloat || kind == RefCol::kCat) {
    before = Live();
    long parts = r.range(2, 6);
    std::unique_ptr<gbdt::Column> held;
    auto* f = kind == RefCol::kFloat ? new gbdt::BucketizedFloatColumn("column", r.pick(std::vector<int>{30000, 300, 10})) : nullptr;
    auto* s = kind == RefCol::kCat ? new gbdt::StringColumn("column") : nullptr;
    if (f) held.reset(f); else held.reset(s);
    for (long p = 0; p < parts; ++p) {
      long a = n * p / parts, b = n * (p + 1) / parts;
      if (f) { std::vector<float> v(c.f.begin() + a, c.f.begin() + b); f->Add(&v); }
      else { std::vector<std::string> v(c.s.begin() + a, c.s.begin() + b); s->Add(&v); }
    }
    if (f) f->Finalize(); else s->Finalize();
    expect(held->status().ok() && held->size() == n, "column", what, ": ", held->status().ToString());
    keeps = Live() - before;
    expect(keeps <= may, "column-size", what, " in ", parts, " batches keeps ", keeps, " bytes where ", may, " would do");
    held.reset();
    expect(Live() - before <= 256, "column-freed", what, " leaves ", Live() - before, " bytes behind");
    count("batched");
  }
  count("columns");
  seen("column", mix(kind, distinct <= 250 ? 1 : distinct <= 65500 ? 2 : 4));
  nontrivial(mix(hash_str(what), id));
}

static void Stores(long id, Rng& r) {
  Job j;
  j.t.n = r.range(2000, 12000);
  long may = 65536, text = 0;
  int k = 0;
  for (; k < r.range(2, 6); ++k) {
    auto c = GenCol(r, j.t.n, r.chance(0.5) ? RefCol::kFloat : RefCol::kCat, cat("f", k));
    (c.kind == RefCol::kCat ? j.cfg.add_categorical_feature(c.name) : j.cfg.add_float_feature(c.name));
    may += Keeps(c);
    j.t.cols.push_back(c);
  }
  j.features = k;
  auto y = GenCol(r, j.t.n, RefCol::kRaw, "target");
  may += Keeps(y);
  j.t.cols.push_back(y);
  j.cfg.set_target_column("target");
  for (auto& c : j.t.cols) for (auto& s : c.s) text += s.size() > 15 ? 2 * s.size() : 0;
  StoreKind kind = id / 4 % 2 ? kFlat : kTsv;
  int parts = r.range(1, 7);
  FLAGS_num_threads = r.range(1, 8);
  j.what = cat("store ", (int)kind, " rows=", j.t.n, " cols=", j.t.cols.size(), " blocks=", parts);
  std::vector<std::string> tsvs;
  std::string dir;
  if (kind == kTsv) tsvs = WriteTsv(j.t, parts); else dir = WriteFlat(j.t);
  long before = Live(), first = 0;
  for (int round = 0; round < 3; ++round) {
    StartPeak();
    {
      std::unique_ptr<DataStore> s;
      if (kind == kTsv) s.reset(new gbdt::TSVDataStore(tsvs, j.cfg));
      else s.reset(new gbdt::FlatfilesDataStore(dir));
      for (auto& c : j.t.cols) expect(s->GetColumn(c.name) && s->GetColumn(c.name)->size() == j.t.n, "load", j.what, ": ", s->status().ToString());
      long keeps = Live() - before, peak = Peak() - before;
      expect(keeps <= may, "store-size", j.what, " keeps ", keeps, " bytes where ", may, " would do");
      // All cells as read, twice over for growing vectors, codes before they are narrowed, and maps of distinct values.
      long cells = (long)j.t.n * j.t.cols.size();
      expect(peak <= 2 * may + 2 * text + cells * 260 + (1 << 20), "store-peak", j.what, " needs ", peak, " bytes to load ", cells, " cells");
      // Only what is asked for comes into memory.
      if (kind == kFlat && round == 0) {
        long live = Live();
        gbdt::FlatfilesDataStore lazy(dir);
        lazy.GetColumn("target");
        expect(Live() - live <= Keeps(j.t.cols.back()) + 16384, "store-lazy", j.what, ": one column keeps ", Live() - live, " bytes");
        count("lazy");
      }
      long gone = Live();
      s->RemoveColumnIfExists(j.t.cols[0].name);
      expect(gone - Live() >= (long)j.t.n, "store-erased", j.what, ": erasing a column frees ", gone - Live(), " bytes");
    }
    long left = Live() - before;
    if (round == 0) first = left;
    expect(left - first <= 512 && left <= 65536, "store-freed", j.what, ": ", left, " bytes are left after round ", round, ", ", first, " after the first");
  }
  count("stores");
  seen("store", mix(kind, parts));
  nontrivial(mix(hash_str(j.what), id));
}

static void Training(long id, Rng& r) {
  JobOpts o;
  o.loss = Losses()[id / 4 % Losses().size()];
  o.table.min_rows = 200;
  o.table.max_rows = 4000;
  o.max_trees = 40;
  o.max_leaves = 8;
  o.max_groups = 40;
  Job j = GenJob(r, o);
  j.cfg.set_num_trees(r.range(10, 40));
  FLAGS_num_threads = r.range(1, 4);
  auto store = Load(j, kMemory);
  long codes = 0;
  for (size_t k = 0; k < j.features; ++k) { long d = 0; Keeps(j.t.cols[k], &d); codes += d; }
  long n = j.t.n, first = 0;
  std::string dir = st().scratch + "/out";
  for (int round = 0; round < 3; ++round) {
    long before = Live();
    {
      Watch w;
      Forest forest;
      w.live.reserve(100);
      w.model.reserve(100);
      w.inner = gbdt::LossFuncFactory::CreateLossFunc(j.cfg);
      w.forest = &forest;
      gbdt::Subsampling::Reseed(id);
      FloatVector weight = gbdt::GetSampleWeightsOrDie(j.cfg, store.get()), y = gbdt::GetTargetsOrDie(j.cfg, store.get());
      StartPeak();
      long start = Live();
      Status s = gbdt::TrainGBDT(store.get(), gbdt::GetFeaturesSetFromConfig(j.cfg), weight, y, &w, j.cfg, nullptr, &forest);
      if (!s.ok()) { count("refused"); return; }
      long model = forest.SpaceUsedLong();
      // Scores, derivatives, samples, groups and ranks per row; histograms, hessians and order per code.
      long may = 400 * n + 200 * codes + 6 * model + (1 << 18);
      expect(Peak() - start <= may, "train-peak", j.what, " needs ", Peak() - start, " bytes for ", n, " rows and ", codes, " codes");
      for (size_t i = 2; i < w.live.size(); ++i)
        expect(w.live[i] - w.live[1] <= 3 * (w.model[i] - w.model[1]) + 4096, "train-grows", j.what, ": from tree 2 to ", i + 1, " memory grows by ", w.live[i] - w.live[1], " bytes, the model by ", w.model[i] - w.model[1]);
      count("trees_watched", w.live.size());
      w.inner.reset();
      // The model is what is left.
      expect(Live() - start <= 3 * model + 16384, "train-keeps", j.what, " keeps ", Live() - start, " bytes with a model of ", model);
      long live = Live();
      StartPeak();
      {
        std::vector<double> scores;
        Status e = gbdt::EvaluateForest(store.get(), forest, &scores);
        expect(e.ok(), "evaluate", j.what, ": ", e.ToString());
      }
      std::list<int> points;
      for (int p = 1; p <= forest.tree_size(); ++p) points.push_back(p);
      Status e = gbdt::EvaluateForest(store.get(), forest, points, dir);
      expect(e.ok(), "evaluate", j.what, ": ", e.ToString());
      expect(Peak() - live <= 120 * n + (1 << 18), "evaluate-peak", j.what, ": scoring ", points.size(), " checkpoints needs ", Peak() - live, " bytes");
      points.clear();
      expect(Live() - live <= 4096, "evaluate-keeps", j.what, ": scoring keeps ", Live() - live, " bytes");
      std::string json;
      live = Live();
      for (int k = 0; k < 2; ++k) { Forest back; JsonUtils::ToJson(forest, &json).ok() && JsonUtils::FromJson(json, &back).ok(); }
      std::string().swap(json);
      if (round > 0) expect(Live() - live <= 4096, "json-keeps", j.what, ": writing and reading the model keeps ", Live() - live, " bytes");
    }
    long left = Live() - before;
    if (round == 0) first = left;
    else expect(left <= 1024, "round-keeps", j.what, ": round ", round, " leaves ", left, " bytes, the first ", first);
  }
  count("trainings");
  seen("loss", hash_str(o.loss));
  nontrivial(mix(hash_str(j.what), id));
  sample(j.what);
}

static void Case(long id, Rng& r) {
  switch (id % 4) {
    case 0: Columns(id, r); break;
    case 1: Stores(id, r); break;
    default: Training(id, r);
  }
}

int main(int argc, char** argv) {
  long_categories = false;
  return harness_main(argc, argv, Case);
}
