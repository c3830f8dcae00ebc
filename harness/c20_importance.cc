// C20: feature importance and the features of a model.
// Oracle: sums over an own walk of the model.
#include "ref.h"

#include "src/gbdt_algo/utils.h"

using namespace vh;

static void Gen(Rng& r, const std::vector<std::string>& names, int depth, int gains, TreeNode* n) {
  n->set_score(r.normal());
  if (depth <= 0 || r.chance(0.15)) return;
  auto* s = n->mutable_split();
  s->set_feature(r.pick(names));
  switch (gains) {
    case 0: s->set_gain(0); break;
    case 1: s->set_gain(r.range(0, 5)); break;
    case 2: s->set_gain(std::exp(r.uni(-60, 60))); break;
    default: s->set_gain(std::fabs(r.normal()));
  }
  if (r.chance(0.5)) s->mutable_float_split()->set_threshold(r.normal());
  else s->mutable_cat_split()->add_category("x");
  Gen(r, names, depth - 1, gains, n->mutable_left_child());
  Gen(r, names, depth - 1, gains, n->mutable_right_child());
}

static void Walk(const TreeNode& n, std::map<std::string, double>* m, long* inner) {
  if (!n.has_left_child()) return;
  ++*inner;
  (*m)[n.split().feature()] += n.split().gain();
  Walk(n.left_child(), m, inner);
  Walk(n.right_child(), m, inner);
}

static void Case(long id, Rng& r) {
  std::vector<std::string> names;
  static const char* odd[] = {"", "a b", "a", "A", "caf\xc3\xa9"};
  bool wide = id % 200 == 9;
  int k = wide ? r.range(257, 1500) : r.range(1, 12);
  for (int i = 0; i < k; ++i) names.push_back(r.chance(0.15) ? odd[r.range(0, 4)] : "f" + std::to_string(i));
  Forest f;
  int trees = r.chance(0.1) ? 0 : wide ? r.range(100, 600) : r.range(1, 12), gains = r.range(0, 5);
  for (int i = 0; i < trees; ++i) Gen(r, names, r.range(0, 5), gains, f.add_tree());
  std::map<std::string, double> want;
  long inner = 0;
  for (auto& t : f.tree()) Walk(t, &want, &inner);
  double top = 0;
  for (auto& p : want) top = std::max(top, p.second);
  std::string what = cat("trees=", trees, " inner=", inner, " features=", want.size(), " gains=", gains);
  auto imp = gbdt::ComputeFeatureImportance(f);
  expect(imp.size() == want.size(), "features", what, ": ", imp.size(), " listed");
  std::set<std::string> seen_names;
  for (size_t i = 0; i < imp.size(); ++i) {
    expect(want.count(imp[i].first) && seen_names.insert(imp[i].first).second, "features", what, ": entry ", i, " '", imp[i].first, "'");
    expect(!std::isnan(imp[i].second), "nan", what, ": '", imp[i].first, "' has NaN");
    double w = top > 0 ? want[imp[i].first] / top : 0;
    expect(Near(imp[i].second, w, 1e-9, 1e-300), "value", what, ": '", imp[i].first, "' has ", imp[i].second, ", not ", w);
    if (i) expect(imp[i - 1].second >= imp[i].second, "order", what, ": entry ", i);
    else if (top > 0) expect(imp[0].second == 1, "first", what, ": first has ", imp[0].second);
  }
  auto fs = gbdt::CollectAllFeatures(f);
  expect(fs.size() == want.size(), "collect", what, ": ", fs.size(), " collected");
  for (auto& p : want) expect(fs.count(p.first), "collect", what, ": '", p.first, "' not collected");
  count("inner_nodes", inner);
  if (want.size() > 256) count("many_features");
  if (inner && top == 0) count("no_gain");
  seen("features", want.size());
  if (inner > 1) { nontrivial(mix(Shape(f), hash_str(cat(top)))); sample(what); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
