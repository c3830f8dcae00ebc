// C09: the split found for one column.
// Oracle: all divisions enumerated from the raw values, sums in long double.
#include "splitref.h"

#include "src/gbdt_algo/split_algo.h"

using namespace vh;

static void Gradients(Rng& r, size_t n, SplitSpec* p) {
  p->exact = r.chance(0.5);
  int gs = r.range(0, 4), hs = r.range(0, 5), ws = r.range(0, 3);
  for (size_t i = 0; i < n; ++i) {
    double g, h;
    float w;
    if (p->exact) {
      g = gs == 0 ? r.range(-1, 1) : gs == 1 ? r.range(-8, 8) * 0.25 : gs == 2 ? (r.chance(0.7) ? 0 : r.range(-3, 3)) : r.range(-20, 20);
      h = hs <= 1 ? 1 : hs == 2 ? r.range(0, 1) : hs == 3 ? r.range(0, 8) * 0.125 : hs == 4 ? (r.chance(0.8) ? 0 : 1) : r.range(1, 4);
      w = ws <= 1 ? 1 : ws == 2 ? r.range(0, 2) : r.range(0, 8) * 0.25;
    } else {
      g = gs == 0 ? r.normal() : gs == 1 ? r.normal() * 1e3 : gs == 2 ? r.uni(-1, 1) : gs == 3 ? (r.chance(0.5) ? 0 : r.normal()) : 5 + r.normal();
      h = hs <= 1 ? 1 : hs == 2 ? r.uni() : hs == 3 ? (r.chance(0.5) ? 0 : r.uni()) : hs == 4 ? std::exp(r.normal() * 3) : 0.25 * r.uni() + 1e-3;
      w = ws <= 1 ? 1 : ws == 2 ? (float)r.uni() : (r.chance(0.3) ? 0 : (float)std::exp(r.normal()));
    }
    p->gd.push_back(GradientData(g, h));
    p->w.push_back(w);
  }
}

static void Case(long id, Rng& r) {
  size_t n = r.chance(0.1) ? r.range(1, 4) : r.chance(0.05) ? r.range(200, 900) : r.range(3, 50);
  if (id % 400 == 11) { n = r.chance(0.15) ? r.range(66000, 160000) : r.range(900, 20000); count("long_columns"); }
  GenOpts o;
  o.extremes = true;
  bool is_cat = r.chance(0.4);
  SplitSpec p;
  Gradients(r, n, &p);
  RefCol c;
  if (is_cat) c = GenCatCol(r, "col", n);
  else c = GenFloatCol(r, "col", n, o);
  if (r.chance(0.15)) {  // a column that says something about the gradient
    for (size_t i = 0; i < n; ++i) {
      int k = std::max(-5.0, std::min(5.0, p.gd[i].g)) + 5;
      if (is_cat) c.s[i] = "g" + std::to_string(k / (int)2);
      else if (!std::isnan(c.f[i])) c.f[i] = k * 0.5f - 1;
    }
  }
  uint budget = !is_cat && r.chance(0.2) ? r.range(1, 12) : 30000;
  auto col = is_cat ? Column::CreateStringColumn("col", c.s) : Column::CreateBucketizedFloatColumn("col", c.f, budget);
  expect(col->status().ok(), "column", "column refused: ", col->status().ToString());
  const auto* ic = static_cast<const gbdt::IntegerizedColumn*>(col.get());
  std::vector<uint> codes(n);
  for (size_t i = 0; i < n; ++i) codes[i] = ic->col()[i];
  p.lambda = r.chance(0.5) ? 0 : r.pick(std::vector<double>{0.5, 1, 10, 0.0078125});
  double sum_h = 0;
  for (size_t i = 0; i < n; ++i) sum_h += (double)p.w[i] * p.gd[i].h;
  p.min_hessian = r.chance(0.5) ? 0 : r.pick(std::vector<double>{0.5, 1, 2, 3, 1e-6, sum_h / 4});
  p.min_gain = r.chance(0.7) ? 0 : r.pick(std::vector<double>{0.25, 1, 4, 100});
  std::vector<uint> rows;
  double keep = r.chance(0.5) ? 1 : r.uni();
  for (uint i = 0; i < n; ++i) if (keep == 1 || r.chance(keep)) rows.push_back(i);
  if (r.chance(0.3)) r.shuffle(&rows);
  gbdt::Config cfg;
  cfg.set_l2_lambda(p.lambda);
  cfg.set_min_hessian(p.min_hessian);
  cfg.set_min_gain(p.min_gain);
  auto w = [&p](int i) { return p.w[i]; };
  GradientData total;
  for (uint i : rows) total += p.w[i] * p.gd[i];
  Split split;
  std::vector<uint> samples = rows;
  VectorSlice<uint> slice(samples);
  bool found = gbdt::FindBestSplit(col.get(), w, &p.gd, slice, cfg, total, &split);
  std::ostringstream vals;
  for (size_t k = 0; k < rows.size() && k < 60; ++k) {
    uint i = rows[k];
    if (is_cat) vals << " '" << c.s[i] << "'"; else vals << ' ' << cat(c.f[i]);
    vals << ":" << p.w[i] << "*(" << p.gd[i].g << ',' << p.gd[i].h << ')';
  }
  std::string what = cat(is_cat ? "categories" : "floats", " n=", rows.size(), " lambda=", p.lambda, " min_hessian=", p.min_hessian, " min_gain=", p.min_gain, " budget=", budget, p.exact ? " exact" : "", " rows", vals.str().substr(0, 1800), " => ", found ? split.ShortDebugString() : "none");
  expect(samples == rows, "samples-changed", what);
  bool all_subsets = false;
  Best best = is_cat ? BestCat(p, codes, rows, &all_subsets) : BestFloat(p, codes, rows);
  long double got = -1;
  if (found) {
    // What the split does, by the documented rule on raw values.
    expect(is_cat ? split.has_cat_split() && !split.has_float_split() : split.has_float_split() && !split.has_cat_split(), "kind", what);
    Split named = split;
    named.set_feature("col");
    if (is_cat) {
      const auto* sc = static_cast<const gbdt::StringColumn*>(col.get());
      std::set<int> once;
      for (int k : split.cat_split().internal_categorical_index()) {
        expect(k >= 0 && k < (int)sc->max_int() && once.insert(k).second, "category", what);
        named.mutable_cat_split()->add_category(sc->get_cat_string(k));
      }
    } else {
      expect(!std::isnan(split.float_split().threshold()), "threshold", what);
    }
    Table t;
    t.n = n;
    t.cols.push_back(c);
    // Rows of merged buckets are divided by bucket (a threshold may fall within a bucket that no row here uses).
    if (budget < 30000) for (size_t i = 0; i < n; ++i) t.cols[0].f[i] = static_cast<const gbdt::BucketizedFloatColumn*>(col.get())->get_row_max(i);
    std::vector<uint> left, right;
    for (uint i : rows) (GoesLeft(t, named, i) ? left : right).push_back(i);
    got = CheckReported(p, left, right, split.gain(), what);
    // What Partition does, with codes and with names.
    for (int form = 0; form < 2; ++form) {
      std::vector<uint> s2 = rows;
      VectorSlice<uint> sl(s2);
      if (form) named.mutable_cat_split()->clear_internal_categorical_index();
      if (form && !is_cat) break;
      auto parts = gbdt::Partition(col.get(), form ? named : split, sl);
      std::vector<uint> a(parts.first.begin(), parts.first.end()), b(parts.second.begin(), parts.second.end());
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
      auto l2 = left, r2 = right;
      std::sort(l2.begin(), l2.end());
      std::sort(r2.begin(), r2.end());
      expect(a == l2 && b == r2, "partition", what, ": partition puts ", a.size(), " rows left, the rule ", l2.size());
    }
    count("found");
  } else {
    expect(split.gain() == 0 && !split.has_float_split() && !split.has_cat_split(), "none-but-split", what);
    count("none");
  }
  expect(best.gain < 0 || found, "missed-split", what, ": ", best.what, " is admissible with gain ", (double)best.gain);
  if (best.gain >= 0) {
    Sums l;
    long double tol = best.tol + 1e-12L * best.gain;
    if (!p.exact) tol += 1e-9L * best.gain;
    expect(got >= best.gain - tol || split.gain() >= best.gain - tol, "better-split", what, ": ", best.what, " gains ", (double)best.gain);
    count("beaten_candidates", best.candidates);
  }
  if (all_subsets) count("all_subsets");
  if (is_cat) count("cat"); else count(budget < 30000 ? "lossy" : "float");
  if (p.exact) count("exact");
  for (uint i : rows) if (codes[i] == 0) { count("with_missing"); break; }
  if (best.candidates > 1) { nontrivial(mix(hash_str(cat(split.gain(), best.candidates)), rows.size())); sample(what); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
