// C24: symmetries of training.  Two runs, of a job and of its transform, are compared over the rows they share.
#include "pipeline.h"

using namespace vh;

// The transformed job, with for every row of the original its row there (-1: left out) and the score map.
struct Image {
  Job j;
  std::vector<int> row;
  Forest base;
  double scale = 1, shift = 0;
};

struct Walk {
  const Job& a;
  const Image& b;
  double tol, mag, stol, smag;
  std::vector<double> ga, gb;
  std::string why;
  bool same = true, tied = false;
  std::string one_sided;
  // One of the runs having split more elsewhere follows from a tie, whose sides have different successors.
  bool all(const TreeNode& x, const TreeNode& y, const std::vector<int>& rows, double min_gain) {
    if (!run(x, y, rows, min_gain)) return false;
    if (one_sided.empty() || tied) return true;
    why = one_sided;
    return false;
  }
  bool close(double x, double y) const { return std::fabs(x - y) <= tol * (std::fabs(x) + std::fabs(y)) + 1e-12 * mag; }
  bool run(const TreeNode& x, const TreeNode& y, const std::vector<int>& rows, double min_gain) {
    if (rows.empty()) return true;
    if (std::fabs(x.score() * b.scale - y.score()) > stol * smag) { why = cat("a node of ", rows.size(), " rows scores ", x.score(), " and ", y.score()); return false; }
    double s2 = b.scale * b.scale;
    if (!x.has_left_child() && !y.has_left_child()) return true;
    if (x.has_left_child() != y.has_left_child()) {
      same = false;
      double g = x.has_left_child() ? x.split().gain() * s2 : y.split().gain();
      for (double o : x.has_left_child() ? gb : ga) if (close(g, x.has_left_child() ? o : o * s2)) return true;
      if (close(g, min_gain * s2) || close(g, 1e-6)) return true;
      one_sided = cat("only one of the runs splits a node of ", rows.size(), " rows with gain ", g);
      return true;
    }
    std::vector<int> xl, xr, yl, yr;
    bool equal = true, mirror = true;
    for (int i : rows) {
      bool l = GoesLeft(a.t, x.split(), i), m = GoesLeft(b.j.t, y.split(), b.row[i]);
      equal = equal && l == m;
      mirror = mirror && l != m;
      (l ? xl : xr).push_back(i);
    }
    if (!equal && !mirror) {
      same = false;
      why = cat("a node of ", rows.size(), " rows is divided differently, with gains ", x.split().gain(), " and ", y.split().gain());
      tied = true;
      return close(x.split().gain() * s2, y.split().gain());
    }
    if (!close(x.split().gain() * s2, y.split().gain())) { why = cat("the same division gains ", x.split().gain(), " and ", y.split().gain()); return false; }
    return run(x.left_child(), equal ? y.left_child() : y.right_child(), xl, min_gain) &&
           run(x.right_child(), equal ? y.right_child() : y.left_child(), xr, min_gain);
  }
};
static void Gains(const TreeNode& n, std::vector<double>* out) {
  if (!n.has_left_child()) return;
  out->push_back(n.split().gain());
  Gains(n.left_child(), out);
  Gains(n.right_child(), out);
}
static double MaxScore(const TreeNode& n) {
  double m = std::fabs(n.score());
  if (n.has_left_child()) m = std::max(m, std::max(MaxScore(n.left_child()), MaxScore(n.right_child())));
  return m;
}

static void PermuteRows(Image* im, Rng& r) {
  Table& t = im->j.t;
  std::vector<int> order(t.n), back(t.n);
  for (size_t i = 0; i < t.n; ++i) order[i] = i;
  r.shuffle(&order);
  Table old = t;
  for (size_t k = 0; k < t.cols.size(); ++k)
    for (size_t i = 0; i < t.n; ++i) { if (t.cols[k].kind == RefCol::kCat) t.cols[k].s[i] = old.cols[k].s[order[i]]; else t.cols[k].f[i] = old.cols[k].f[order[i]]; }
  for (size_t i = 0; i < t.n; ++i) back[order[i]] = i;
  for (auto& x : im->row) if (x >= 0) x = back[x];
}
// A row of weight k becomes k rows of weight 1 (of weight 0: none).
static void RepeatRows(Image* im, bool drop_only) {
  Job& j = im->j;
  Table old = j.t;
  RefCol w = *old.find("weight");
  for (auto& c : j.t.cols) { c.f.clear(); c.s.clear(); }
  for (size_t i = 0; i < old.n; ++i) {
    int k = drop_only ? w.f[i] != 0 : (int)w.f[i];
    im->row[i] = k ? (int)j.t.cols[0].size() : -1;
    for (; k > 0; --k)
      for (size_t q = 0; q < old.cols.size(); ++q) {
        RefCol& c = j.t.cols[q];
        if (c.kind == RefCol::kCat) c.s.push_back(old.cols[q].s[i]);
        else c.f.push_back(c.name == "weight" && !drop_only ? 1 : old.cols[q].f[i]);
      }
  }
  j.t.n = j.t.cols[0].size();
}
static void Rename(TreeNode* n, const std::map<std::string, std::string>& m) {
  if (n->has_split()) n->mutable_split()->set_feature(m.at(n->split().feature()));
  if (n->has_left_child()) { Rename(n->mutable_left_child(), m); Rename(n->mutable_right_child(), m); }
}
static void RenameFeatures(Image* im, Rng& r) {
  Job& j = im->j;
  std::map<std::string, std::string> m;
  std::set<std::string> used;
  for (size_t k = 0; k < j.features; ++k) {
    std::string n;
    do n = r.pick(std::vector<std::string>{"x", "F", "zz", "a b", "0", "long_name_of_a_feature", "."}) + std::to_string(r.range(0, 999)); while (!used.insert(n).second);
    m[j.t.cols[k].name] = n;
    j.t.cols[k].name = n;
  }
  for (auto& t : *im->base.mutable_tree()) Rename(&t, m);
  std::vector<RefCol> f(j.t.cols.begin(), j.t.cols.begin() + j.features);
  r.shuffle(&f);
  std::copy(f.begin(), f.end(), j.t.cols.begin());
  j.cfg.clear_float_feature();
  j.cfg.clear_categorical_feature();
  for (auto& c : f) (c.kind == RefCol::kCat ? j.cfg.add_categorical_feature(c.name) : j.cfg.add_float_feature(c.name));
}
static void Relabel(TreeNode* n, const std::map<std::string, std::map<std::string, std::string>>& m) {
  auto it = n->has_split() ? m.find(n->split().feature()) : m.end();
  if (it != m.end()) {
    for (auto& c : *n->mutable_split()->mutable_cat_split()->mutable_category()) { auto k = it->second.find(c); if (k != it->second.end()) c = k->second; else c = "gone_" + c; }
  }
  if (n->has_left_child()) { Relabel(n->mutable_left_child(), m); Relabel(n->mutable_right_child(), m); }
}
static void RelabelCategories(Image* im, Rng& r) {
  Job& j = im->j;
  std::map<std::string, std::map<std::string, std::string>> all;
  for (size_t k = 0; k < j.features; ++k) {
    RefCol& c = j.t.cols[k];
    if (c.kind != RefCol::kCat) continue;
    auto& m = all[c.name];
    m[kMissing] = kMissing;
    std::set<std::string> used;
    for (auto& s : c.s) {
      if (m.count(s)) continue;
      std::string n;
      do n = r.pick(std::vector<std::string>{"", "v", "\xe2\x82\xac", "nan", "Z", "c"}) + (r.chance(0.9) ? std::to_string(r.range(0, 9999)) : ""); while (!used.insert(n).second);
      m[s] = n;
    }
    for (auto& s : c.s) s = m[s];
  }
  for (auto& t : *im->base.mutable_tree()) Relabel(&t, all);
}
static void Rethreshold(TreeNode* n, const std::map<std::string, std::pair<std::vector<float>, std::vector<float>>>& m) {
  auto it = n->has_split() && n->split().has_float_split() ? m.find(n->split().feature()) : m.end();
  if (it != m.end()) {
    float t = n->split().float_split().threshold();
    size_t k = 0;
    while (k < it->second.first.size() && it->second.first[k] < t) ++k;
    n->mutable_split()->mutable_float_split()->set_threshold(k < it->second.second.size() ? it->second.second[k] : INFINITY);
  }
  if (n->has_left_child()) { Rethreshold(n->mutable_left_child(), m); Rethreshold(n->mutable_right_child(), m); }
}
// Any strictly increasing map is an increasing sequence for the sorted distinct values.
static void RescaleFeatures(Image* im, Rng& r) {
  Job& j = im->j;
  std::map<std::string, std::pair<std::vector<float>, std::vector<float>>> all;
  for (size_t k = 0; k < j.features; ++k) {
    RefCol& c = j.t.cols[k];
    if (c.kind != RefCol::kFloat) continue;
    std::set<float> vals;
    for (float v : c.f) if (!std::isnan(v)) vals.insert(v);
    std::set<float> to;
    int style = r.range(0, 4);
    float next = style == 0 ? 1 : style == 1 ? -1e30f : 0;
    while (to.size() < vals.size()) {
      float v;
      if (style == 0) v = next = std::nextafterf(next, INFINITY);                       // neighbouring numbers
      else if (style == 1) v = (float)(r.normal() * 1e36);
      else if (style == 2) v = std::ldexp((float)r.uni(1, 2), (int)r.range(-140, 120)) * (r.chance(0.5) ? -1 : 1);
      else if (style == 3) v = (float)r.normal();
      else v = next += r.range(1, 3);
      if (!std::isinf(v)) to.insert(v);
    }
    auto& p = all[c.name];
    p.first.assign(vals.begin(), vals.end());
    p.second.assign(to.begin(), to.end());
    for (float& v : c.f) if (!std::isnan(v)) v = p.second[std::lower_bound(p.first.begin(), p.first.end(), v) - p.first.begin()];
  }
  for (auto& t : *im->base.mutable_tree()) Rethreshold(&t, all);
}

static void Case(long id, Rng& r) {
  static const char* kName[] = {"row order", "weights as repetition", "weight zero left out", "feature names and order", "category labels", "numeric rescaling", "target shift and scale", "several at once"};
  int kind = id % 8;
  JobOpts o;
  o.sampled = 0;
  o.table.min_rows = 2;
  o.table.max_rows = r.chance(0.1) ? 300 : 50;
  o.loss = kind == 6 ? "mse" : kind >= 3 && kind <= 5 ? r.pick(Losses()) : r.chance(0.6) ? "mse" : "logloss";
  o.weighted = kind == 1 || kind == 2 ? 1 : 0.5;
  Job j = GenJob(r, o);
  auto& c = j.cfg;
  bool smooth = o.loss == "mse" || o.loss == "logloss";
  // Steps that avoid exact ties between unlike divisions of later residuals, and limits that rounding could decide.
  c.set_shrinkage(r.pick(std::vector<float>{0.3f, 0.7f, 0.13f}));
  if (o.loss != "mse") c.set_l2_lambda(0);
  if (c.min_hessian() > 0) c.set_min_hessian(c.categorical_feature_size() ? 0 : 0.9137);
  RefCol *y = nullptr, *w = nullptr;
  for (auto& col : j.t.cols) { if (col.name == "target") y = &col; if (col.name == "weight") w = &col; }
  if (kind == 1 || kind == 2) {
    for (float& v : w->f) v = kind == 1 ? r.range(0, 3) : r.chance(0.3) ? 0 : (float)r.uni(0.1, 3);
    w->f[0] = 1;
    w->f[1] = 2;
  }
  if (kind == 6) for (float& v : y->f) v = std::ldexp((float)std::floor(std::max(-3.9, std::min(3.9, (double)v)) * (1 << 20)), -20);
  Forest base;
  if (kind != 6 && r.chance(0.6)) { Table ft = j.t; ft.cols.resize(j.features); base = GenForest(r, ft, 4, 3); }
  FLAGS_num_threads = r.range(1, 3);

  Image b;
  b.j = j;
  b.base = base;
  for (size_t i = 0; i < j.t.n; ++i) b.row.push_back(i);
  switch (kind) {
    case 0: PermuteRows(&b, r); break;
    case 1: RepeatRows(&b, false); break;
    case 2: RepeatRows(&b, true); break;
    case 3: RenameFeatures(&b, r); break;
    case 4: RelabelCategories(&b, r); break;
    case 5: RescaleFeatures(&b, r); break;
    case 6: {
      b.scale = r.pick(std::vector<double>{1, 2, -1, 0.5, 4, -8});
      b.shift = r.range(-8, 8) * 0.25;
      c.set_min_gain(0.01);
      b.j.cfg.set_min_gain(0.01 * b.scale * b.scale);
      for (auto& col : b.j.t.cols) if (col.name == "target") for (float& v : col.f) v = (float)(v * b.scale + b.shift);
      break;
    }
    default: {
      if (r.chance(0.7)) PermuteRows(&b, r);
      if (r.chance(0.7)) RelabelCategories(&b, r);
      if (r.chance(0.7)) RescaleFeatures(&b, r);
      if (r.chance(0.7)) RenameFeatures(&b, r);
    }
  }
  int seed = r.range(0, 1 << 30);
  Forest fa, fb;
  auto sa = Load(j, kMemory), sb = Load(b.j, kMemory);
  Status ra = TrainJob(j, sa.get(), seed, &fa, &base), rb = TrainJob(b.j, sb.get(), seed, &fb, &b.base);
  std::string what = cat(kName[kind], ": ", j.what, " lambda=", c.l2_lambda(), " min_hessian=", c.min_hessian(), " shrinkage=", c.shrinkage(), " base=", base.tree_size(), b.scale != 1 || b.shift ? cat(" y*", b.scale, "+", b.shift) : "");
  expect(ra.error_code() == rb.error_code(), "status", what, ": ", ra.ToString(), " and ", rb.ToString());
  if (!ra.ok()) { count("not_trained"); return; }
  expect(fa.tree_size() == fb.tree_size(), "tree-count", what);
  std::vector<int> rows;
  for (size_t i = 0; i < j.t.n; ++i) if (b.row[i] >= 0) rows.push_back(i);
  int first = fa.tree_size() - c.num_trees();
  bool same = true;
  static long compared[8], differ[8];
  for (int k = first; k < fa.tree_size() && same; ++k) {
    double mag = 0;
    for (float v : y->f) mag = std::max(mag, std::fabs(v * b.scale) + std::fabs(b.shift));
    mag = std::max(mag, MaxScore(fb.tree(k)));
    for (auto& t : base.tree()) mag += MaxScore(t);
    Walk walk{j, b, k == first ? 1e-9 : 1e-3, mag, k == first ? 1e-6 : 1e-3, mag};
    // The energies whose difference a gain is can be far larger than the gain.
    walk.mag = mag * mag * j.t.n + mag;
    if (w) walk.mag *= 3;
    // The constant is only searched for to within 1e-4, whatever the scale of the targets.
    if (kind == 6 && k > first) walk.mag += 4e-4 * mag * j.t.n * 3 / 1e-12;
    Gains(fa.tree(k), &walk.ga);
    Gains(fb.tree(k), &walk.gb);
    bool ok = walk.all(fa.tree(k), fb.tree(k), rows, c.min_gain());
    expect(ok || (k > first && (!walk.same || !smooth)), "symmetry", what, ": tree ", k - first, ": ", walk.why, "\nfirst ", fa.tree(k).ShortDebugString().substr(0, 1200), "\nother ", fb.tree(k).ShortDebugString().substr(0, 1200));
    same = ok && walk.same;
    if (smooth) {
      ++compared[kind];
      differ[kind] += !same;
      expect(compared[kind] < 100 || differ[kind] * 8 < compared[kind], "symmetry-rate", what, ": ", differ[kind], " of ", compared[kind], " trees differ");
    }
    count(same ? "same_trees" : "tied_trees");
    if (k == first && fa.tree(k).has_left_child()) count(cat("split_", kind));
  }
  if (same) {
    std::vector<double> pa, pb;
    Status ea = gbdt::EvaluateForest(sa.get(), fa, &pa), eb = gbdt::EvaluateForest(sb.get(), fb, &pb);
    expect(ea.ok() && eb.ok(), "evaluate", what);
    double mag = 1;
    for (auto& t : fb.tree()) mag += MaxScore(t);
    for (int i : rows) expect(Near(pa[i] * b.scale + b.shift, pb[b.row[i]], 0, 1e-4 * mag), "predictions", what, ": row ", i, " is predicted ", pa[i], " and ", pb[b.row[i]]);
    count("predictions", rows.size());
  }
  if (kind == 6 && j.cfg.loss_func() == "mse") {
    // Other units of the targets.  The least gain of a split is absolute, so there are none here.
    Job u = j, v = j;
    u.cfg.set_num_leaves(1);
    v.cfg.set_num_leaves(1);
    double unit = std::ldexp(1.0, r.range(-50, 20)), top = 0;
    for (auto& col : v.t.cols) if (col.name == "target") for (float& x : col.f) { top = std::max(top, (double)std::fabs(x)); x = (float)(x * unit); }
    auto su = Load(u, kMemory), sv = Load(v, kMemory);
    Forest fu, fv;
    std::vector<double> pu, pv;
    expect(TrainJob(u, su.get(), seed, &fu).ok() && TrainJob(v, sv.get(), seed, &fv).ok(), "status", what, ": targets times ", unit);
    expect(gbdt::EvaluateForest(su.get(), fu, &pu).ok() && gbdt::EvaluateForest(sv.get(), fv, &pv).ok(), "evaluate", what);
    for (size_t i = 0; i < pu.size(); ++i) expect(Near(pu[i] * unit, pv[i], 0, 1e-5 * top * unit), "units", what, ": row ", i, " is predicted ", pu[i], " and, with targets times ", unit, ", ", pv[i]);
    count("units");
  }
  bool split = false;
  for (auto& t : fa.tree()) split = split || t.has_left_child();
  if (split) { nontrivial(mix(Shape(fa), hash_str(what))); sample(what); }
  seen("kind_loss", kind * 31 + std::hash<std::string>()(o.loss));
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
