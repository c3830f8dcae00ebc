// C10: growing one tree.
// Oracle: replay of the tree over the raw rows with all divisions of every node enumerated.
#include "splitref.h"

#include "src/gbdt_algo/tree_algo.h"

using namespace vh;

struct Node {
  const TreeNode* n;
  std::vector<uint> rows;
  Best best;        // best admissible division over all features
  bool expanded = false;
};

static void Case(long id, Rng& r) {
  GenOpts o;
  o.extremes = r.chance(0.3);
  o.min_rows = 1;
  o.max_rows = r.chance(0.05) ? 400 : 60;
  o.max_feat = 6;
  if (id % 100 == 11) { o.min_rows = 1000; o.max_rows = 12000; count("long_tables"); }
  if (id % 50 == 17) { o.min_feat = 10; o.max_feat = 40; count("wide_tables"); }
  if (id % 200 == 117) { o.min_feat = 257; o.max_feat = 400; o.min_rows = 60; o.max_rows = 150; count("many_features"); }
  Table t = GenTable(r, o);
  if (id % 40 == 9 && !t.cols.empty()) { t.cols[0].name += std::string(r.range(250, 2000), 'n'); count("long_names"); }
  if (t.n > 3 && r.chance(0.3)) {  // two features that carry the same information: tied gains
    RefCol c = t.cols[0];
    c.name = c.name + "_twin";
    t.cols.push_back(c);
  }
  SplitSpec p;
  p.exact = r.chance(0.5);
  int gs = r.range(0, 3), hs = r.range(0, 3);
  for (size_t i = 0; i < t.n; ++i) {
    double sig = 0;
    for (auto& c : t.cols) if (c.kind == RefCol::kFloat && std::fabs(c.f[i]) < 1e3) sig += c.f[i] > 0.3f; else if (c.kind == RefCol::kCat) sig += c.s[i] == "c1" || c.s[i] == "c2";
    double g, h;
    if (p.exact) {
      g = gs == 0 ? r.range(-1, 1) : gs == 1 ? r.range(-8, 8) * 0.25 : gs == 2 ? sig + r.range(-1, 1) : sig;
      h = hs == 0 ? r.range(0, 1) : hs == 1 ? r.range(0, 8) * 0.125 : 1;
      p.w.push_back(r.chance(0.7) ? 1 : r.range(0, 8) * 0.25f);
    } else {
      g = gs == 0 ? r.normal() : gs == 1 ? r.normal() * 100 : sig + r.normal() * 0.3;
      h = hs == 0 ? r.uni() : hs == 1 ? (r.chance(0.3) ? 0 : r.uni()) : 1;
      p.w.push_back(r.chance(0.6) ? 1 : (float)r.uni(0, 3));
    }
    p.gd.push_back(GradientData(g, h));
  }
  p.lambda = r.chance(0.5) ? 0 : r.pick(std::vector<double>{0.5, 1, 8});
  p.min_hessian = r.chance(0.6) ? 0 : r.pick(std::vector<double>{0.5, 2, 5});
  p.min_gain = r.chance(0.7) ? 0 : r.pick(std::vector<double>{0.25, 2});
  DataStore store;
  Fill(t, &store);
  std::vector<const Column*> features;
  std::vector<const RefCol*> given;
  for (auto& c : t.cols) {
    if (r.chance(0.9) || features.empty()) { features.push_back(store.GetColumn(c.name)); given.push_back(&c); }
  }
  gbdt::Config cfg;
  cfg.set_num_leaves(r.chance(0.2) ? r.range(1, 2) : r.range(2, r.chance(0.3) ? 60 : 9));
  if (id % 200 == 11) { cfg.set_num_leaves(r.range(257, 700)); count("many_leaves"); }
  cfg.set_l2_lambda(p.lambda);
  cfg.set_min_hessian(p.min_hessian);
  cfg.set_min_gain(p.min_gain);
  cfg.set_example_sampling_rate(1);
  cfg.set_feature_sampling_rate(1);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 3});
  auto w = [&p](int i) { return p.w[i]; };
  TreeNode tree = gbdt::FitTreeToGradients(w, p.gd, features, cfg);

  std::ostringstream data;
  for (size_t i = 0; i < t.n && i < 40; ++i) {
    data << '[';
    for (auto* c : given) data << (c->kind == RefCol::kCat ? c->s[i] : cat(c->f[i])) << ' ';
    data << p.w[i] << '*' << p.gd[i].g << ',' << p.gd[i].h << ']';
  }
  std::string what = cat("rows=", t.n, " features=", features.size(), " leaves<=", cfg.num_leaves(), " lambda=", p.lambda, " min_hessian=", p.min_hessian, " min_gain=", p.min_gain, p.exact ? " exact" : "", " data ", data.str().substr(0, 1500), " tree ", tree.ShortDebugString().substr(0, 1500));

  std::map<const RefCol*, std::vector<uint>> codes;
  for (auto* c : given) {
    auto& k = codes[c];
    if (c->kind == RefCol::kFloat) {
      std::set<float> vals;
      for (float v : c->f) if (!std::isnan(v)) vals.insert(v);
      for (float v : c->f) k.push_back(std::isnan(v) ? 0 : 1 + std::distance(vals.begin(), vals.find(v)));
    } else {
      std::map<std::string, uint> m;
      for (auto& s : c->s) k.push_back(m.insert(std::make_pair(s, m.size())).first->second);
    }
  }
  // All nodes of the tree, with the rows that reach them.
  std::vector<Node> nodes;
  std::map<const TreeNode*, int> index;
  std::function<void(const TreeNode&, const std::vector<uint>&)> walk = [&](const TreeNode& n, const std::vector<uint>& rows) {
    index[&n] = nodes.size();
    nodes.emplace_back();
    Node nd;
    nd.n = &n;
    nd.rows = rows;
    expect(n.has_left_child() == n.has_right_child(), "shape", what);
    nd.expanded = n.has_left_child();
    Sums s = p.sum(rows);
    long double score = Score(s, p.lambda), d = s.h + p.lambda;
    long double tol = 2e-7L * std::fabs((double)score) + 1e-30L;
    if (!p.exact && d > 0) tol += 1e-13L * (s.abs_g / d + std::fabs((double)score) * s.abs_h / d);
    expect(std::fabs((double)(n.score() - score)) <= tol, "node-score", what, ": a node reached by ", rows.size(), " rows scores ", n.score(), ", not ", (double)score);
    for (auto* c : given) {
      bool all = false;
      if (c->kind == RefCol::kRaw) continue;
      Best b = c->kind == RefCol::kFloat ? BestFloat(p, codes[c], rows) : BestCat(p, codes[c], rows, &all);
      if (b.gain >= 0 && (nd.best.gain < 0 || b.gain - b.tol > nd.best.gain - nd.best.tol)) { nd.best.gain = b.gain; nd.best.tol = b.tol; nd.best.what = c->name + ": " + b.what; }
      nd.best.candidates += b.candidates;
    }
    int me = index[&n];
    nodes[me] = nd;
    if (!nd.expanded) return;
    const Split& sp = n.split();
    const RefCol* c = nullptr;
    for (auto* g : given) if (g->name == sp.feature()) c = g;
    expect(c && c->kind != RefCol::kRaw, "feature", what, ": split on '", sp.feature(), "' which is not a given feature");
    expect(c->kind == RefCol::kFloat ? sp.has_float_split() && !sp.has_cat_split() : sp.has_cat_split() && !sp.has_float_split(), "kind", what);
    std::set<std::string> cats;
    for (auto& x : sp.cat_split().category()) {
      expect(cats.insert(x).second, "category", what, ": category '", x, "' twice");
      expect(x == kMissing || std::find(c->s.begin(), c->s.end(), x) != c->s.end(), "category", what, ": category '", x, "' does not occur");
    }
    std::vector<uint> left, right;
    for (uint i : rows) (GoesLeft(t, sp, i) ? left : right).push_back(i);
    CheckReported(p, left, right, sp.gain(), cat(what, " at a split on ", sp.feature(), " of ", rows.size(), " rows"));
    if (nd.best.gain >= 0) {
      long double tol2 = nd.best.tol + (p.exact ? 1e-12L : 1e-9L) * nd.best.gain;
      expect(sp.gain() >= nd.best.gain - tol2, "better-split", what, ": splits ", rows.size(), " rows with gain ", sp.gain(), " though ", nd.best.what, " gains ", (double)nd.best.gain);
    }
    walk(n.left_child(), left);
    walk(n.right_child(), right);
  };
  std::vector<uint> all;
  for (uint i = 0; i < t.n; ++i) all.push_back(i);
  walk(tree, all);
  int leaves = Leaves(tree);
  expect(leaves <= cfg.num_leaves(), "leaf-limit", what, ": ", leaves, " leaves");
  // Best-first replay.
  // Among tied nodes any order is right: one that exposes a better node the tree left alone can only have come last.
  auto gain = [&](int i) { return nodes[i].n->split().gain(); };
  auto tied = [&](double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-13; };
  std::function<bool(int, double)> exposes = [&](int i, double level) {
    for (auto* c : {&nodes[i].n->left_child(), &nodes[i].n->right_child()}) {
      int k = index[c];
      if (nodes[k].expanded) { if (gain(k) > level && !tied(gain(k), level) && exposes(k, level)) return true; }
      else if (nodes[k].best.gain - nodes[k].best.tol > level && !tied(nodes[k].best.gain, level)) return true;
    }
    return false;
  };
  std::vector<int> frontier{0};
  int steps = 0;
  while ((int)frontier.size() < cfg.num_leaves()) {
    int pick = -1;
    for (int i : frontier) if (nodes[i].expanded && (pick < 0 || gain(i) > gain(pick))) pick = i;
    if (pick >= 0 && exposes(pick, gain(pick))) {
      for (int i : frontier) if (nodes[i].expanded && tied(gain(i), gain(pick)) && !exposes(i, gain(pick))) { pick = i; break; }
    }
    for (int i : frontier) {
      const Best& b = nodes[i].best;
      if (nodes[i].expanded || b.gain < 0) continue;
      expect(pick >= 0, "stopped-early", what, ": ", frontier.size(), " leaves, though ", b.what, " of ", nodes[i].rows.size(), " rows gains ", (double)b.gain);
      expect(nodes[pick].n->split().gain() >= b.gain - b.tol - 1e-9L * b.gain, "best-first", what, ": splits a node with gain ", nodes[pick].n->split().gain(), " before ", b.what, " which gains ", (double)b.gain);
      count("passed_over");
    }
    if (pick < 0) break;
    frontier.erase(std::find(frontier.begin(), frontier.end(), pick));
    frontier.push_back(index[&nodes[pick].n->left_child()]);
    frontier.push_back(index[&nodes[pick].n->right_child()]);
    ++steps;
  }
  expect((int)frontier.size() == leaves, "leaf-limit", what);
  count("nodes", nodes.size());
  count("inner", steps);
  if (leaves == cfg.num_leaves()) count("full"); else count("exhausted");
  seen("leaves", leaves);
  if (leaves > 1) { nontrivial(mix(Shape(tree), t.n)); sample(cat("rows=", t.n, " leaves=", leaves, " of ", cfg.num_leaves(), " tree ", tree.ShortDebugString().substr(0, 500))); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
