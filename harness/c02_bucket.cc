// C02: bucketized float columns describe their rows soundly.
// Oracle: the raw values themselves, compared row by row with the codes and bucket bounds.
#include "ref.h"

using namespace vh;
using gbdt::BucketizedFloatColumn;

static float Val(Rng& r, int style) {
  const float inf = std::numeric_limits<float>::infinity();
  switch (style) {
    case 0: return (float)r.range(-5, 5);
    case 1: return (float)r.uni();
    case 2: return (float)(r.normal() * 1e4);
    case 3: {
      float b = 1.0f;
      for (int k = r.range(0, 40); k > 0; --k) b = std::nextafterf(b, inf);
      return b;
    }
    case 4: {
      float c[] = {inf, -inf, 0.0f, -0.0f, 1.0f, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(),
                   std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min()};
      return r.chance(0.5) ? c[r.range(0, 8)] : (float)r.normal();
    }
    case 5: return (float)std::floor(std::exp(r.uni(0, 9)));  // skewed counts
    default: return (float)r.range(0, 400);
  }
}

static void Case(long id, Rng& r) {
  int budget;
  std::vector<float> values;
  std::vector<size_t> cuts;  // sizes of the pieces added
  int mode = id % 16;
  bool big = id % 211 == 3;
  if (big) {  // index width around 65536, or distinct count around the default budget
    if (r.chance(0.5)) {
      budget = 70000;
      int d = r.range(65530, 65540);
      for (int i = 0; i < d; ++i) values.push_back((float)i * 0.5f);
    } else {
      budget = 30000;
      int d = budget + r.range(-3, 2), rep = r.chance(0.3) ? 2 : 1;
      for (int i = 0; i < d * rep; ++i) values.push_back((float)(i % d) - 7.f);
    }
    r.shuffle(&values);
  } else if (mode < 4) {  // number of distinct or frequent values around the budget
    budget = r.range(1, 300);
    int d = std::max<long>(0, budget + r.range(-3, 3)), rep = r.range(1, 4);
    for (int i = 0; i < d; ++i)
      for (int k = 0; k < rep; ++k) values.push_back((float)i * 1.5f - 20);
    int extra = r.chance(0.5) ? 0 : r.range(1, 5);
    for (int i = 0; i < extra; ++i) values.push_back((float)(r.normal() * 50));
    if (r.chance(0.3)) values.push_back(NAN);
    r.shuffle(&values);
  } else {
    budget = mode < 8 ? 30000 : (int)std::max(1.0, std::floor(std::exp(r.uni(0, 6.5))));
    int n = r.chance(0.05) ? r.range(0, 2) : r.range(1, mode >= 12 ? 6000 : 900);
    if (id % 160 == 142) { n = r.range(65600, 200000); count("long_columns"); }
    int style = r.range(0, 6);
    double miss = r.chance(0.4) ? r.pick(std::vector<double>{0.02, 0.4, 1.0}) : 0;
    for (int i = 0; i < n; ++i) values.push_back(r.chance(miss) ? NAN : Val(r, r.chance(0.05) ? 4 : style));
    if (mode == 15) std::sort(values.begin(), values.end());
  }
  // Cut into pieces; small budgets make later pieces arrive after the buckets are fixed.
  size_t left = values.size();
  int pieces = big ? 1 : r.range(1, 6);
  if (mode >= 12 && r.chance(0.5)) budget = std::min(budget, (int)r.range(1, 12));
  for (int i = 0; i + 1 < pieces; ++i) {
    size_t c = r.chance(0.1) ? 0 : r.range(0, left);
    cuts.push_back(c);
    left -= c;
  }
  cuts.push_back(left);

  std::unique_ptr<Column> holder;
  const BucketizedFloatColumn* col;
  size_t sample_size = values.size();
  bool late = false;
  bool direct = pieces > 1 || r.chance(0.5);
  if (direct) {
    auto* c = new BucketizedFloatColumn("x", budget);
    holder.reset(c);
    size_t pos = 0;
    bool built = false;
    for (size_t k = 0; k < cuts.size(); ++k) {
      std::vector<float> piece(values.begin() + pos, values.begin() + pos + cuts[k]);
      pos += cuts[k];
      if (built && cuts[k]) late = true;
      c->Add(&piece);
      if (!built && pos > 100.0 * budget) { built = true; sample_size = pos; }
    }
    c->Finalize();
    col = c;
  } else {
    holder = Column::CreateBucketizedFloatColumn("x", values, budget);
    col = static_cast<const BucketizedFloatColumn*>(holder.get());
  }
  std::string what = cat("budget=", budget, " n=", values.size(), " pieces=", cuts.size(), " sampled=", sample_size);
  expect(col->status().ok(), "finalize-failed", what, ": ", col->status().ToString());
  expect(col->type() == Column::kBucketizedFloatColumn && col->name() == "x", "identity", what);
  expect(col->size() == values.size(), "row-count", what, ": column has ", col->size());
  uint nb = col->max_int();
  expect(nb >= 1, "no-buckets", what);

  // Per row.
  std::vector<uint> code(values.size());
  for (size_t i = 0; i < values.size(); ++i) {
    code[i] = col->col()[i];
    float v = values[i];
    expect(code[i] < nb, "code-range", what, " row ", i, " value ", v, " code ", code[i], " of ", nb);
    expect(col->col().missing(i) == std::isnan(v), "missing", what, " row ", i, " value ", v, " code ", code[i]);
    if (std::isnan(v)) {
      expect(std::isnan(col->get_row_max(i)) && std::isnan(col->get_row_min(i)), "missing-bounds", what, " row ", i);
      continue;
    }
    float mn = col->get_row_min(i), mx = col->get_row_max(i);
    expect(mn <= v && v <= mx, "enclosure", what, " row ", i, " value ", v, " in [", mn, ",", mx, "]");
    expect(mn == col->get_bucket_min(code[i]) && mx == col->get_bucket_max(code[i]), "bounds-agree", what, " row ", i);
    if (values.size() <= (size_t)budget) {
      expect(mn == v && mx == v, "lossless", what, " row ", i, " value ", v, " in [", mn, ",", mx, "]");
    }
  }
  // Order: sort rows by value, codes must not decrease, equal values must agree; buckets disjoint.
  std::vector<uint> idx;
  for (size_t i = 0; i < values.size(); ++i) if (!std::isnan(values[i])) idx.push_back(i);
  std::sort(idx.begin(), idx.end(), [&](uint a, uint b) { return values[a] < values[b]; });
  std::map<uint, std::pair<float, float>> used;  // code -> actual min, max
  for (size_t k = 0; k < idx.size(); ++k) {
    uint i = idx[k];
    if (k) {
      uint j = idx[k - 1];
      expect(code[j] <= code[i], "order", what, ": value ", values[j], " has code ", code[j], " and larger value ",
             values[i], " code ", code[i]);
      if (values[j] == values[i])
        expect(code[j] == code[i], "equal-values", what, ": value ", values[i], " has codes ", code[j], " and ", code[i]);
    }
    auto it = used.find(code[i]);
    if (it == used.end()) used[code[i]] = {values[i], values[i]};
    else it->second.second = values[i];
  }
  float prev_max = 0;
  bool first = true;
  for (auto& u : used) {
    if (!first)
      expect(prev_max < col->get_bucket_min(u.first), "disjoint", what, " bucket ", u.first, " min ",
             col->get_bucket_min(u.first), " not above previous max ", prev_max);
    prev_max = col->get_bucket_max(u.first);
    first = false;
  }
  // Budget and balance over the values the buckets were made from.
  expect(nb <= 4ull * budget + 8, "bucket-count", what, ": ", nb, " buckets");
  {
    std::map<float, uint> hist;
    for (size_t i = 0; i < sample_size; ++i) if (!std::isnan(values[i])) ++hist[values[i]];
    double share = (double)sample_size / budget;
    int heavy = 0;
    for (auto& p : hist) heavy += p.second >= std::max(1.0, std::floor(share));
    if (heavy <= budget / 2 - 1 && !hist.empty()) {
      std::map<uint, double> merged;
      for (size_t i = 0; i < sample_size; ++i)
        if (!std::isnan(values[i]) && values[i] != col->get_row_max(i)) merged[code[i]] += 1;
      for (auto& m : merged)
        expect(m.second <= 4 * share + 4, "balance", what, ": bucket ", m.first, " merges ", m.second,
               " rows with other values, even share ", share);
      count("balance_checked");
    }
  }
  // The finalized column refuses further values and stays as it was.
  count("rows", values.size());
  count("buckets_used", used.size());
  if (late) count("late_pieces");
  if (values.size() > (size_t)budget && used.size() < idx.size()) count("merged_columns");
  seen("width", nb <= 256 ? 8 : nb <= 65536 ? 16 : 32);
  seen("budget_by_n", mix(budget, values.size()));
  if (idx.size() > 1) {
    uint64_t h = mix(budget, values.size());
    for (size_t i = 0; i < std::min<size_t>(values.size(), 50); ++i) h = mix(h, code[i]);
    nontrivial(h);
    sample(cat(what, " buckets=", nb, " used=", used.size(), late ? " late" : ""));
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
