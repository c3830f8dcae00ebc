// Reference models: tables, the documented meaning of trees, and brute-force split search.
// Written from the documentation and the proto comments, not by calling the code under test.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_

#include "common.h"

#include "src/base/base.h"
#include "src/data_store/column.h"
#include "src/data_store/data_store.h"
#include "src/loss_func/gradient_data.h"
#include "src/proto/config.pb.h"
#include "src/proto/tree.pb.h"

namespace vh {

namespace err = google::protobuf::util::error;
using gbdt::Column;
using gbdt::Config;
using gbdt::DataStore;
using gbdt::Forest;
using gbdt::GradientData;
using gbdt::Split;
using gbdt::TreeNode;

const char kMissing[] = "__missing__";

struct RefCol {
  enum Kind { kFloat, kCat, kRaw } kind = kFloat;
  std::string name;
  std::vector<float> f;        // kFloat / kRaw
  std::vector<std::string> s;  // kCat
  size_t size() const { return kind == kCat ? s.size() : f.size(); }
};

struct Table {
  size_t n = 0;
  std::vector<RefCol> cols;
  const RefCol* find(const std::string& name) const {
    for (auto& c : cols) if (c.name == name) return &c;
    return nullptr;
  }
};

inline std::unique_ptr<Column> MakeColumn(const RefCol& c) {
  if (c.kind == RefCol::kCat) return Column::CreateStringColumn(c.name, c.s);
  if (c.kind == RefCol::kFloat) return Column::CreateBucketizedFloatColumn(c.name, c.f);
  return Column::CreateRawFloatColumn(c.name, std::vector<float>(c.f));
}

inline void Fill(const Table& t, DataStore* store) {
  for (auto& c : t.cols) {
    auto s = store->Add(MakeColumn(c));
    expect(s.ok(), "add-column", "adding column ", c.name, " of ", c.size(), " rows failed: ", s.ToString());
  }
}

// Which side a row takes at a split: the documented rule.
inline bool GoesLeft(const Table& t, const Split& split, size_t row) {
  const RefCol* c = t.find(split.feature());
  if (split.has_float_split()) {
    float v = c->f[row];
    if (std::isnan(v)) return !split.float_split().missing_to_right_child();
    return v < split.float_split().threshold();
  }
  for (const auto& cat : split.cat_split().category()) if (cat == c->s[row]) return true;
  return false;
}

inline const TreeNode& Leaf(const Table& t, const TreeNode& tree, size_t row) {
  const TreeNode* n = &tree;
  while (n->has_left_child()) n = GoesLeft(t, n->split(), row) ? &n->left_child() : &n->right_child();
  return *n;
}
inline double PredictTree(const Table& t, const TreeNode& tree, size_t row) { return Leaf(t, tree, row).score(); }
inline double PredictForest(const Table& t, const Forest& f, size_t row, int upto = -1) {
  double s = 0;
  int k = upto < 0 ? f.tree_size() : upto;
  for (int i = 0; i < k; ++i) s += PredictTree(t, f.tree(i), row);
  return s;
}

// ---------------------------------------------------------------------------------- generators
inline float RandFloat(Rng& r) {
  switch (r.range(0, 7)) {
    case 0: return (float)r.range(-3, 3);
    case 1: return (float)r.uni();
    case 2: return (float)(r.normal() * 1e3);
    case 3: return (float)(r.normal() * 1e-3);
    case 4: return (float)(r.range(-1000000, 1000000) * 0.25);
    default: return (float)r.normal();
  }
}

struct GenOpts {
  int min_rows = 1, max_rows = 60;
  int min_feat = 1, max_feat = 5;
  bool extremes = false;     // adjacent floats, huge magnitudes, infinities
  bool cats = true, floats = true;
  double missing = 0.5;      // chance that a float column has missing values
};

inline RefCol GenFloatCol(Rng& r, const std::string& name, size_t n, const GenOpts& o) {
  RefCol c;
  c.kind = RefCol::kFloat;
  c.name = name;
  int style = r.range(0, o.extremes ? 8 : 4);
  int card = r.range(1, std::max<long>(2, r.chance(0.5) ? 4 : n));
  std::vector<float> pool;
  for (int i = 0; i < card; ++i) {
    float v;
    switch (style) {
      case 0: v = (float)r.range(-4, 4); break;
      case 1: v = (float)r.uni(); break;
      case 2: v = (float)(r.normal() * 100); break;
      case 3: v = RandFloat(r); break;
      case 4: v = (float)r.range(0, 1); break;
      case 5: {  // neighbouring representable values
        float b = r.chance(0.5) ? 1.0f : 1e6f;
        int k = r.range(0, 6);
        for (int j = 0; j < k; ++j) b = std::nextafterf(b, std::numeric_limits<float>::infinity());
        v = b;
        break;
      }
      case 6: v = (r.chance(0.5) ? 1 : -1) * (float)(r.uni(0.3, 1.0) * 3.4e38); break;
      case 7: v = std::ldexp((float)r.uni(0.5, 1.0), (int)r.range(-148, -120)); break;
      default: {
        const float inf = std::numeric_limits<float>::infinity();
        float choices[] = {inf, -inf, 0.0f, -0.0f, 1.0f, -1.0f, std::numeric_limits<float>::max(),
                           -std::numeric_limits<float>::max(), std::numeric_limits<float>::denorm_min()};
        v = choices[r.range(0, 8)];
      }
    }
    pool.push_back(v);
  }
  double miss = r.chance(o.missing) ? r.pick(std::vector<double>{0.05, 0.3, 0.8}) : 0;
  for (size_t i = 0; i < n; ++i) c.f.push_back(r.chance(miss) ? NAN : r.pick(pool));
  return c;
}

inline std::string RandCat(Rng& r, int card) {
  static const char* odd[] = {"", " ", "a b", "\"q\"", "caf\xc3\xa9", "\\", "0", "nan", "A", "a"};
  int k = r.range(0, card - 1);
  if (k < 3 && r.chance(0.2)) return odd[r.range(0, 9)];
  return "c" + std::to_string(k);
}

// Off where the texts of categories would count.
inline bool long_categories = true;
inline RefCol GenCatCol(Rng& r, const std::string& name, size_t n) {
  RefCol c;
  c.kind = RefCol::kCat;
  c.name = name;
  int card = r.chance(0.6) ? r.range(1, 6) : r.range(2, std::max<long>(3, n));
  double miss = r.chance(0.3) ? 0.2 : 0;
  std::string tail;
  if (n < 3000 && r.chance(0.02) && long_categories) tail.assign(r.range(250, 5000), 'y');
  for (size_t i = 0; i < n; ++i) c.s.push_back(r.chance(miss) ? kMissing : RandCat(r, card));
  if (!tail.empty()) for (auto& s : c.s) if (s.size() > 1 && s != kMissing) s += tail;
  return c;
}

inline Table GenTable(Rng& r, const GenOpts& o) {
  Table t;
  t.n = r.range(o.min_rows, o.max_rows);
  int k = r.range(o.min_feat, o.max_feat);
  for (int i = 0; i < k; ++i) {
    bool cat = o.cats && (!o.floats || r.chance(0.4));
    std::string name = (cat ? "cat" : "num") + std::to_string(i);
    t.cols.push_back(cat ? GenCatCol(r, name, t.n) : GenFloatCol(r, name, t.n, o));
  }
  return t;
}

// A random tree over the features of the table (thresholds near, at and away from data values).
inline void GenTree(Rng& r, const Table& t, int depth, TreeNode* node) {
  node->set_score((float)(r.chance(0.1) ? 0 : r.normal()));
  if (depth <= 0 || t.cols.empty() || r.chance(0.2)) return;
  const RefCol& c = t.cols[r.range(0, t.cols.size() - 1)];
  if (c.kind == RefCol::kRaw) return;
  auto* s = node->mutable_split();
  s->set_feature(c.name);
  s->set_gain(std::fabs(r.normal()));
  if (c.kind == RefCol::kFloat) {
    float v = t.n ? c.f[r.range(0, t.n - 1)] : 0;
    if (std::isnan(v)) v = 0;
    if (r.chance(0.3)) v = RandFloat(r);
    else if (r.chance(0.3)) v = std::nextafterf(v, r.chance(0.5) ? INFINITY : -INFINITY);
    s->mutable_float_split()->set_threshold(v);
    s->mutable_float_split()->set_missing_to_right_child(r.chance(0.5));
  } else {
    auto* cs = s->mutable_cat_split();
    std::set<std::string> cats;
    bool many = r.chance(0.003);
    int k = many ? r.range(257, 700) : r.range(0, 4);
    for (int i = 0; i < k; ++i) cats.insert(many && i > 3 ? "unseen" + std::to_string(i) : t.n && r.chance(0.8) ? c.s[r.range(0, t.n - 1)] : "unseen" + std::to_string(r.range(0, 3)));
    for (auto& x : cats) cs->add_category(x);
  }
  GenTree(r, t, depth - 1, node->mutable_left_child());
  GenTree(r, t, depth - 1, node->mutable_right_child());
}

// A chain of `depth` splits, of which some row passes every one.
inline void GenDeepTree(Rng& r, const Table& t, int depth, TreeNode* node) {
  std::vector<size_t> rows;
  for (size_t i = 0; i < t.n && i < 60; ++i) rows.push_back(i);
  for (int d = 0; d < depth; ++d) {
    for (int k = 0; k < 40 && !node->has_left_child(); ++k) { node->Clear(); GenTree(r, t, 1, node); }
    if (!node->has_left_child()) return;
    std::vector<size_t> left, right;
    for (size_t i : rows) (&Leaf(t, *node, i) == &node->left_child() ? left : right).push_back(i);
    bool go_left = left.size() == right.size() ? r.chance(0.5) : left.size() > right.size();
    rows = go_left ? left : right;
    node = go_left ? node->mutable_left_child() : node->mutable_right_child();
  }
}

inline Forest GenForest(Rng& r, const Table& t, int max_trees = 8, int depth = 4) {
  Forest f;
  int k = r.range(0, max_trees);
  for (int i = 0; i < k; ++i) GenTree(r, t, r.range(0, depth), f.add_tree());
  return f;
}

inline uint64_t Shape(const TreeNode& n) {
  if (!n.has_left_child()) return 7;
  uint64_t h = mix(hash_str(n.split().feature()), n.split().has_float_split());
  return mix(mix(h, Shape(n.left_child())), Shape(n.right_child()) + 3);
}
inline uint64_t Shape(const Forest& f) {
  uint64_t h = f.tree_size();
  for (auto& t : f.tree()) h = mix(h, Shape(t));
  return h;
}
inline int Leaves(const TreeNode& n) { return n.has_left_child() ? Leaves(n.left_child()) + Leaves(n.right_child()) : 1; }

// |a-b| small relative to the magnitudes involved.
inline bool Near(double a, double b, double rel, double abs_tol) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= abs_tol + rel * std::max(std::fabs(a), std::fabs(b));
}

}  // namespace vh

#endif  // VERIF_REF_H_
