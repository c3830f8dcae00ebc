// C13: groups and pairwise losses.
// Oracle: enumeration of all ordered pairs; exact where the draw is forced, z-tests with exact variances elsewhere.
#include <array>
#include <random>

#include "ref.h"

#include "src/loss_func/group.h"
#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/utils/subsampling.h"

using namespace vh;

struct D { double loss, g, h; };
enum Kind { kAuc, kPairLog, kGbrank, kLambda };
static const char* kName[] = {"auc", "pairwise_logloss", "gbrank", "lambdamart"};

static D PairLoss(int kind, double dy, double df) {
  if (kind == kPairLog || kind == kLambda) {
    double e = std::exp(-std::fabs(df));
    double s = df >= 0 ? e / (1 + e) : 1 / (1 + e);
    return {std::log1p(e) + (df < 0 ? -df : 0), s, e / ((1 + e) * (1 + e))};
  }
  if (kind == kAuc) {
    if (df >= 1) return {0, 0, 0};
    if (df >= 0) return {0.5 * (1 - df) * (1 - df), 1 - df, 1};
    return {0.5 - df, 1, 0};
  }
  double e = dy - df;
  if (e * dy > 0) return {e * e, e, 1};
  return {0, 0, 0};
}

// A group on its own: order, pair count, uniform sampling, ranks.
static void GroupCase(Rng& r) {
  size_t n = r.chance(0.1) ? r.range(0, 2) : r.range(2, r.chance(0.2) ? 60 : 12);
  size_t all = n + r.range(0, 5);
  std::vector<float> y(all);
  int levels = r.range(1, r.chance(0.5) ? 3 : 12);
  for (auto& v : y) v = r.chance(0.05) ? (r.chance(0.5) ? INFINITY : -INFINITY) : r.range(0, levels - 1) - 1.5f;
  std::vector<uint> rows;
  for (uint i = 0; i < all; ++i) rows.push_back(i);
  r.shuffle(&rows);
  rows.resize(n);
  auto copy = rows;
  gbdt::Group g(std::move(copy), [&](int i) { return y[i]; });
  std::string what = cat("group of ", n, " with ", levels, " levels");
  expect(g.size() == n, "group-size", what, ": ", g.size());
  std::set<uint> want(rows.begin(), rows.end()), got;
  uint64_t pairs = 0;
  for (size_t i = 0; i < n; ++i) {
    got.insert(g[i]);
    expect(g.y(i) == y[g[i]], "group-y", what);
    for (size_t j = 0; j < n; ++j) pairs += y[rows[i]] > y[rows[j]];
  }
  expect(got == want, "group-members", what);
  expect(g.num_pairs() == pairs, "num-pairs", what, ": ", g.num_pairs(), " pairs, not ", pairs);
  if (pairs) {
    std::mt19937 gen((uint32_t)r.next());
    long draws = std::min<long>(200 * pairs, thorough() ? 40000 : 12000);
    std::map<std::pair<uint, uint>, long> cnt;
    for (long k = 0; k < draws; ++k) {
      auto p = g.SamplePair(&gen);
      expect(p.first < n && p.second < n, "pair-range", what, ": pair ", p.first, ", ", p.second);
      expect(g.y(p.first) > g.y(p.second), "pair-order", what, ": drew targets ", g.y(p.first), " and ", g.y(p.second));
      ++cnt[std::make_pair(p.first, p.second)];
    }
    double e = (double)draws / pairs, chi = (pairs - cnt.size()) * e;
    for (auto& c : cnt) chi += (c.second - e) * (c.second - e) / e;
    double df = pairs - 1;
    if (e >= 20) {
      expect(chi <= df + 9 * std::sqrt(2 * df) + 60, "pair-uniform", what, ": chi-square ", chi, " for ", df, " degrees in ", draws, " draws of ", pairs, " pairs, ", cnt.size(), " different");
      count("chi_tests");
    }
    count("pairs_drawn", draws);
  }
  std::vector<double> f(all);
  for (auto& v : f) v = r.chance(0.3) ? r.range(-2, 2) : r.normal();
  for (int k = 0; k < 2; ++k) {
    g.Rerank(f);
    std::vector<int> at(n, -1);
    for (size_t i = 0; i < n; ++i) {
      expect(g.rank(i) < n && at[g.rank(i)] < 0, "rank", what, ": rank ", g.rank(i));
      at[g.rank(i)] = i;
    }
    for (size_t k2 = 1; k2 < n; ++k2) expect(f[g[at[k2 - 1]]] >= f[g[at[k2]]], "rank", what, ": rank ", k2, " has a higher score than rank ", k2 - 1);
    for (auto& v : f) v = -v * r.uni();
  }
  count("groups");
}

// Groups with more pairs than 32 bits count.
static void HugeCase(Rng& r) {
  size_t n = r.range(140000, 220000);
  int levels = r.range(2, 4);
  std::vector<float> y(n);
  std::vector<std::vector<uint>> of(levels);
  for (uint i = 0; i < n; ++i) { int l = r.range(0, levels - 1); y[i] = l; of[l].push_back(i); }
  uint64_t pairs = 0;
  std::vector<uint64_t> cell(levels * levels, 0);
  for (int a = 0; a < levels; ++a) for (int b = 0; b < a; ++b) pairs += cell[a * levels + b] = (uint64_t)of[a].size() * of[b].size();
  std::string what = cat("group of ", n, " with ", levels, " levels and ", pairs, " pairs");
  std::vector<uint> rows(n);
  for (uint i = 0; i < n; ++i) rows[i] = i;
  auto copy = rows;
  gbdt::Group g(std::move(copy), [&](int i) { return y[i]; });
  expect(g.num_pairs() == pairs, "num-pairs", what, ": ", g.num_pairs());
  // Cells of level pairs, and eighths of the rows of a level on either side.
  std::vector<size_t> pos(n);
  for (auto& v : of) for (size_t k = 0; k < v.size(); ++k) pos[v[k]] = k * 8 / v.size();
  std::vector<long> got(levels * levels * 64, 0);
  std::mt19937 gen((uint32_t)r.next());
  const long draws = 60000;
  for (long k = 0; k < draws; ++k) {
    auto p = g.SamplePair(&gen);
    expect(p.first < n && p.second < n && g.y(p.first) > g.y(p.second), "pair-order", what, ": pair ", p.first, ", ", p.second);
    ++got[((int)g.y(p.first) * levels + (int)g.y(p.second)) * 64 + pos[g[p.first]] * 8 + pos[g[p.second]]];
  }
  double chi = 0, df = -1;
  for (int c = 0; c < levels * levels; ++c) if (cell[c]) for (int k = 0; k < 64; ++k) {
    double e = (double)draws * cell[c] / pairs / 64, d = got[c * 64 + k] - e;
    chi += d * d / e; ++df;
  }
  expect(chi <= df + 9 * std::sqrt(2 * df) + 60, "pair-uniform", what, ": chi-square ", chi, " for ", df, " degrees of freedom");
  count("chi_tests");
  // In training, beside a group of two rows.
  std::vector<std::string> names(n, "a");
  names[of[0][0]] = names[of[1][0]] = "b";
  uint64_t in_a = 0;
  { std::vector<uint64_t> c; for (int l = 0; l < levels; ++l) c.push_back(of[l].size() - (l < 2)); for (int a = 0; a < levels; ++a) for (int b = 0; b < a; ++b) in_a += c[a] * c[b]; }
  auto col = Column::CreateStringColumn("group", names);
  gbdt::Config cfg;
  int kind = 0;
  while (std::string(kName[kind]) != "pairwise_logloss") ++kind;
  cfg.set_loss_func(kName[kind]);
  double rate = r.pick(std::vector<double>{0.125, 0.5, 2});
  cfg.set_pair_sampling_rate(rate);
  FLAGS_num_threads = r.range(1, 3);
  gbdt::Subsampling::Reseed((int)r.range(0, 1 << 30));
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
  auto s = loss->Init(n, [](int) { return 1.0f; }, [&](int i) { return y[i]; }, static_cast<const gbdt::StringColumn*>(col.get()));
  expect(s.ok(), "init", what, ": ", s.ToString());
  std::vector<double> f(n, 0.0);
  std::vector<gbdt::GradientData> gd;
  double c;
  std::string progress;
  loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, &progress);
  double each = 4 * PairLoss(kind, 1, 0).h, sum = 0, sg = 0;
  for (auto& d : gd) { sum += d.h; sg += d.g; }
  double x = rate * n / 2 * ((double)in_a / (in_a + 1)), drawn = sum / each;
  expect(drawn >= x - 2 && drawn <= x + 1, "draws", what, ": drawn ", drawn, " times, not ", x);
  expect(std::fabs(sg) <= 1e-6 * drawn, "cancel", what, ": gradients sum to ", sg);
  count("huge_groups");
}

// More groups than small counters hold, each of one or two rows.
static void ManyGroups(Rng& r) {
  size_t groups = r.chance(0.3) ? r.range(65600, 80000) : r.range(257, 3000);
  struct M { std::vector<uint> rows; };
  std::vector<int> grp;
  for (size_t k = 0; k < groups; ++k) { grp.push_back(k); if (r.chance(0.9)) grp.push_back(k); }
  r.shuffle(&grp);
  size_t n = grp.size();
  std::vector<float> y, w;
  std::vector<double> f;
  std::vector<std::string> names;
  std::vector<M> of(groups);
  for (uint i = 0; i < n; ++i) {
    y.push_back(r.range(0, 2)); w.push_back(r.range(1, 8) * 0.25f); f.push_back(r.normal());
    names.push_back("g" + std::to_string(grp[i]));
    of[grp[i]].rows.push_back(i);
  }
  size_t total = 0;
  for (auto& m : of) total += m.rows.size() == 2 && y[m.rows[0]] != y[m.rows[1]];
  if (!total) return;
  auto col = Column::CreateStringColumn("group", names);
  gbdt::Config cfg;
  int kind = r.range(0, 2);
  cfg.set_loss_func(kName[kind]);
  double rate = r.range(1, 6);
  cfg.set_pair_sampling_rate(rate);
  FLAGS_num_threads = r.range(1, 4);
  std::string what = cat(kName[kind], " with ", groups, " groups of one or two rows, rate ", rate);
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
  auto s = loss->Init(n, [&](int i) { return w[i]; }, [&](int i) { return y[i]; }, static_cast<const gbdt::StringColumn*>(col.get()));
  expect(s.ok(), "init", what, ": ", s.ToString());
  std::vector<GradientData> gd;
  double c;
  loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, nullptr);
  double x = rate * n / total / 2.0;
  if (std::fabs(x - std::round(x)) < 1e-9 * x) return;
  double draws = std::floor(x);
  for (size_t k = 0; k < groups; ++k) {
    auto& m = of[k].rows;
    bool pair = m.size() == 2 && y[m[0]] != y[m[1]];
    for (uint i : m) {
      double g = 0, h = 0;
      if (pair) {
        uint j = m[0] == i ? m[1] : m[0], a = y[i] > y[j] ? i : j, b = a == i ? j : i;
        D d = PairLoss(kind, (double)y[a] - y[b], f[a] - f[b]);
        g = draws * w[a] * w[b] * d.g * (a == i ? 1 : -1);
        h = draws * 2 * w[a] * w[b] * d.h;
      }
      expect(Near(gd[i].g, g, 1e-6, 1e-9) && Near(gd[i].h, h, 1e-6, 1e-9), "many-groups", what, ": row ", i, " of group ", k, " of ", m.size(), " rows has g=", gd[i].g, " h=", gd[i].h, ", not ", g, " and ", h, " after ", draws, " draws");
    }
  }
  count("many_groups");
  nontrivial(hash_str(what));
  sample(what);
}

// One row with a larger target in a long ranking: what every other row gets is a whole number of draws of its own pair.
static void LongRanking(Rng& r) {
  size_t n = r.range(1100, 5000), a = r.range(0, n - 1);
  std::vector<double> f;
  for (size_t i = 0; i < n; ++i) f.push_back(r.normal());
  if (r.chance(0.7)) f[a] = r.uni(-3, 0);
  std::vector<uint> by(n), rank(n);
  for (uint i = 0; i < n; ++i) by[i] = i;
  std::sort(by.begin(), by.end(), [&](uint i, uint j) { return f[i] > f[j]; });
  for (uint k = 0; k < n; ++k) { rank[by[k]] = k; if (k && f[by[k]] == f[by[k - 1]]) return; }
  gbdt::Config cfg;
  cfg.set_loss_func(kName[kLambda]);
  double rate = r.pick(std::vector<double>{0.5, 2, 8}), base = 2;
  if (r.chance(0.5)) { base = r.pick(std::vector<double>{1.5, 3, 10}); cfg.set_lambdamart_dcg_base(base); }
  cfg.set_pair_sampling_rate(rate);
  FLAGS_num_threads = r.range(1, 3);
  gbdt::Subsampling::Reseed((int)r.range(0, 1 << 30));
  std::string what = cat("lambdamart: a row of rank ", rank[a], " above ", n - 1, " others, rate ", rate, " base ", base);
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
  auto s = loss->Init(n, [](int) { return 1.0f; }, [&](int i) { return (size_t)i == a ? 2.0f : 1.0f; }, nullptr);
  expect(s.ok(), "init", what, ": ", s.ToString());
  std::vector<GradientData> gd;
  double c, all = 0;
  loss->ComputeFunctionalGradientsAndHessians(f, &c, &gd, nullptr);
  for (uint j = 0; j < n; ++j) {
    if (j == a) continue;
    D d = PairLoss(kLambda, 1, f[a] - f[j]);
    double each = d.g * std::fabs(std::log(base) / std::log(base + rank[a]) - std::log(base) / std::log(base + rank[j]));
    double k = -gd[j].g / each;
    // Discounts of close ranks lie close together, and may each be rounded to single precision.
    double dj = std::log(base) / std::log(base + rank[j]);
    double tol = 1e-6 + 5e-7 * dj / std::fabs(each / d.g);
    if (tol > 0.05) { all += std::round(k); count("ranked_blurred"); continue; }
    count("ranked_rows");
    expect(std::fabs(k - std::round(k)) <= tol * std::max(1.0, k) && k > -0.5, "ranked-weight", what, ": row ", j, " of rank ", rank[j], " has gradient ", gd[j].g, ", which is ", k, " draws of ", -each);
    all += std::round(k);
  }
  double x = rate * n / 2;
  expect(all >= std::floor(x * (1 - 1e-9)) - 0.5 && all <= std::floor(x * (1 + 1e-9)) + 0.5, "draws", what, ": ", all, " draws, not ", x);
  count("ranked_alone");
  nontrivial(hash_str(what));
}

static void Case(long id, Rng& r) {
  if (id % 100 == 45) return LongRanking(r);
  if (id % 50 == 31) return ManyGroups(r);
  if (id % 250 == 7) return HugeCase(r);
  if (r.chance(0.4)) { GroupCase(r); if (r.chance(0.5)) return; }
  int kind = r.range(0, 3);
  bool forced = r.chance(0.35);  // every group has one pair at most: all sums are determined
  size_t groups = r.range(1, forced ? 12 : 6);
  bool named = groups > 1 || r.chance(0.5);
  std::vector<float> y, w;
  std::vector<int> grp;
  int levels = r.range(1, 5);
  for (size_t k = 0; k < groups; ++k) {
    int m = forced ? r.range(0, 2) : r.range(1, r.chance(0.1) ? 40 : 8);
    // Ranks beyond the precomputed discounts.
    if (!forced && k == 0 && r.chance(0.03)) { m = r.range(95, 160); count("long_rankings"); }
    for (int i = 0; i < m; ++i) {
      grp.push_back(k);
      y.push_back(forced ? (float)r.range(0, 2) : r.chance(0.7) ? (float)r.range(0, levels) : (float)r.normal());
      w.push_back(r.chance(0.5) ? 1 : r.chance(0.1) ? 0 : (float)r.range(1, 12) * 0.25f);
    }
  }
  if (!named) for (auto& g : grp) g = 0;
  size_t n = y.size();
  if (!n) return;
  // Rows of the groups interleaved.
  std::vector<uint> perm;
  for (uint i = 0; i < n; ++i) perm.push_back(i);
  r.shuffle(&perm);
  { auto y2 = y; auto w2 = w; auto g2 = grp; for (size_t i = 0; i < n; ++i) { y[i] = y2[perm[i]]; w[i] = w2[perm[i]]; grp[i] = g2[perm[i]]; } }
  int missing_group = named && r.chance(0.3) ? (int)r.range(0, groups - 1) : -1;
  std::vector<std::string> names;
  for (int g : grp) names.push_back(g == missing_group ? kMissing : "g" + std::to_string(g));
  auto col = Column::CreateStringColumn("group", names);
  std::vector<double> f;
  double fs = r.pick(std::vector<double>{0, 0.5, 1, 3, 50});
  for (size_t i = 0; i < n; ++i) f.push_back(r.normal() * fs);
  if (kind == kLambda && fs == 0) for (auto& v : f) v = r.normal();  // ranks must be determined
  gbdt::Config cfg;
  cfg.set_loss_func(kName[kind]);
  bool delta = r.chance(0.4), equal = r.chance(0.3);
  cfg.set_pair_weight_by_delta_target(delta);
  cfg.set_equal_group_weight(equal);
  double base = 2;
  if (kind == kLambda && r.chance(0.4)) { base = r.pick(std::vector<double>{1.5, 3, 10}); cfg.set_lambdamart_dcg_base(base); }
  double rate = r.pick(std::vector<double>{0.1, 0.5, 1, 4, 10, 50});
  cfg.set_pair_sampling_rate(rate);
  rate = (float)rate;
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 3});
  gbdt::Subsampling::Reseed((int)r.range(0, 1 << 30));
  auto wf = [&](int i) { return w[i]; };
  std::string what = cat(kName[kind], " n=", n, " groups=", groups, named ? "" : " (one)", missing_group >= 0 ? " one missing" : "", " rate=", rate, delta ? " delta" : "", equal ? " equal" : "", " base=", base, " fscale=", fs, " threads=", FLAGS_num_threads);
  // Refused requests.
  if (r.chance(0.1)) {
    gbdt::Config bad = cfg;
    bad.set_pair_sampling_rate(r.pick(std::vector<float>{0, -1, -1e-30f, NAN, -INFINITY, INFINITY}));
    auto s = gbdt::LossFuncFactory::CreateLossFunc(bad)->Init(n, wf, [&](int i) { return y[i]; }, nullptr);
    expect(!s.ok() && s.error_code() == err::INVALID_ARGUMENT, "bad-rate", what, ": rate ", bad.pair_sampling_rate(), ": ", s.ToString());
    auto y2 = y;
    y2[r.range(0, n - 1)] = NAN;
    s = gbdt::LossFuncFactory::CreateLossFunc(cfg)->Init(n, wf, [&](int i) { return y2[i]; }, named ? static_cast<const gbdt::StringColumn*>(col.get()) : nullptr);
    expect(!s.ok() && s.error_code() == err::INVALID_ARGUMENT, "missing-target", what, ": ", s.ToString());
    uint at = r.range(0, n - 1);
    float odd = r.pick(std::vector<float>{NAN, INFINITY, -INFINITY});
    s = gbdt::LossFuncFactory::CreateLossFunc(cfg)->Init(n, [&](int i) { return (uint)i == at ? odd : w[i]; }, [&](int i) { return y[i]; }, named ? static_cast<const gbdt::StringColumn*>(col.get()) : nullptr);
    expect(!s.ok() && s.error_code() == err::INVALID_ARGUMENT, "odd-weight", what, ": weight ", odd, " of row ", at, ": ", s.ToString());
    count("refused");
  }
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
  if (r.chance(0.2)) {
    // The same loss function served other data before.
    size_t n0 = r.chance(0.5) ? r.range(1, 6) : n + r.range(1, 20);
    std::vector<float> y0;
    std::vector<double> f0;
    std::vector<std::string> g0;
    for (size_t i = 0; i < n0; ++i) { y0.push_back(r.range(0, 3)); f0.push_back(r.normal()); g0.push_back("h" + std::to_string(r.range(0, 4))); }
    auto col0 = Column::CreateStringColumn("group", g0);
    expect(loss->Init(n0, [](int) { return 2.0f; }, [&](int i) { return y0.at(i); }, r.chance(0.5) ? static_cast<const gbdt::StringColumn*>(col0.get()) : nullptr).ok(), "init", what);
    std::vector<GradientData> gd;
    double c0;
    std::string p0;
    for (int k = r.range(0, 2); k > 0; --k) loss->ComputeFunctionalGradientsAndHessians(f0, &c0, &gd, &p0);
    what += " (reused)";
    count("reused");
  }
  auto s = loss->Init(n, wf, [&](int i) { return y[i]; }, named ? static_cast<const gbdt::StringColumn*>(col.get()) : nullptr);
  expect(s.ok(), "init", what, ": ", s.ToString());

  // All ordered pairs of every group, and what each draw of one adds.
  std::vector<std::vector<uint>> members(groups);
  for (uint i = 0; i < n; ++i) members[grp[i]].push_back(i);
  struct P { uint a, b; D d; double w; };
  std::vector<std::vector<P>> pairs(groups);
  uint64_t total = 0, most = 1;
  for (size_t k = 0; k < groups; ++k) {
    std::map<uint, int> rank;
    auto by = members[k];
    std::sort(by.begin(), by.end(), [&](uint a, uint b) { return f[a] > f[b]; });
    for (size_t i = 0; i < by.size(); ++i) rank[by[i]] = i;
    for (uint a : members[k]) for (uint b : members[k]) if (y[a] > y[b]) {
      double pw = (double)w[a] * w[b];
      double dy = (double)y[a] - y[b];
      if (kind == kLambda) pw *= dy * std::fabs(std::log(base) / std::log(base + rank[a]) - std::log(base) / std::log(base + rank[b]));
      else if (delta) pw *= dy;
      pairs[k].push_back(P{a, b, PairLoss(kind, dy, f[a] - f[b]), pw});
    }
    total += pairs[k].size();
    most = std::max<uint64_t>(most, pairs[k].size());
  }
  std::vector<double> draws(groups);
  double fdraws = 0;
  bool on_edge = false;
  for (size_t k = 0; k < groups; ++k) {
    double x = total ? rate * n / total / 2.0 * pairs[k].size() : 0;
    draws[k] = std::floor(x);
    if (x > 0 && std::fabs(x - std::round(x)) < 1e-9 * x) on_edge = true;
    fdraws += draws[k];
    if (equal) for (auto& p : pairs[k]) p.w *= (double)most / pairs[k].size();
  }
  int rounds = fdraws > 2000 ? 20 : 100;
  if (forced) rounds = 2;
  std::vector<double> sg(n), sh(n);
  std::vector<std::vector<uint64_t>> seqs;
  // What the progress message may report: exactly the weighted mean where the draws are determined, else one between the extremes.
  double loss_sum = 0, weight_sum = 0, lo = INFINITY, hi = -INFINITY, first_loss = -1;
  bool exact = !on_edge, unweighted = false;
  for (size_t k = 0; k < groups; ++k) {
    exact = exact && (draws[k] == 0 || pairs[k].size() == 1);
    for (auto& p : pairs[k]) {
      if (p.w == 0) unweighted = true;
      if (p.w != 0 && draws[k] + on_edge > 0) { lo = std::min(lo, p.d.loss); hi = std::max(hi, p.d.loss); }
      loss_sum += draws[k] * p.w * p.d.loss;
      weight_sum += draws[k] * p.w;
    }
  }
  std::set<uint64_t> outcomes;
  for (int k = 0; k < rounds; ++k) {
    std::vector<GradientData> g(k == 0 ? r.range(0, n) : n, GradientData(5, 5));
    double c = 9;
    std::string progress;
    loss->ComputeFunctionalGradientsAndHessians(f, &c, &g, k % 2 ? &progress : nullptr);
    expect(c == 0, "constant", what, ": constant ", c);
    if (k % 2) {
      double l = -1, red = -1;
      expect(sscanf(progress.c_str(), "loss=%lf,reduced=%lf%%", &l, &red) == 2, "progress", what, ": '", progress, "'");
      bool none = lo > hi;
      if (none) expect(l == 0, "progress", what, ": '", progress, "' without any pair of weight");
      else if (exact) { expect(Near(l, weight_sum != 0 ? loss_sum / weight_sum : 0, 1e-5, 1e-9), "progress", what, ": '", progress, "', the weighted mean is ", loss_sum / weight_sum); count("progress_exact"); }
      else expect((l == 0 && (on_edge || unweighted || fdraws < 1)) || (l >= lo - 1e-5 * (1 + std::fabs(lo)) && l <= hi + 1e-5 * (1 + std::fabs(hi))), "progress", what, ": '", progress, "' where pairs lose between ", lo, " and ", hi);
      if (first_loss < 0) { first_loss = l; expect(red == 0, "progress", what, ": '", progress, "' at first"); }
      else if (first_loss > 0) expect(std::fabs(red - (first_loss - l) / first_loss * 100) <= 0.02 + 1e-4 * std::fabs(red), "progress", what, ": '", progress, "' after ", first_loss);
    }
    expect(g.size() == n, "size", what);
    uint64_t hsh = 0;
    std::vector<long double> gs(groups), ga(groups);
    for (size_t i = 0; i < n; ++i) {
      expect(std::isfinite(g[i].g) && std::isfinite(g[i].h) && g[i].h >= 0, "not-finite", what, ": row ", i, " g=", g[i].g, " h=", g[i].h);
      gs[grp[i]] += g[i].g;
      ga[grp[i]] += std::fabs(g[i].g);
      sg[i] += g[i].g;
      sh[i] += g[i].h;
      hsh = mix(hsh, hash_str(cat(g[i].g)));
    }
    outcomes.insert(hsh);
    for (size_t q = 0; q < groups; ++q) {
      double scale = 0;
      for (auto& p : pairs[q]) scale = std::max(scale, std::fabs(p.w * p.d.g));
      expect(fabsl(gs[q]) <= 1e-10L * (ga[q] + scale * draws[q]) , "cancel", what, ": gradients of group ", q, " add up to ", (double)gs[q]);
    }
    count("calls");
  }
  // Rows without comparable partner; forced sums; means.
  double T = rounds;
  for (size_t k = 0; k < groups; ++k) {
    std::map<uint, std::array<double, 4>> m;  // sums of g, g^2, h, h^2 over pairs
    std::map<uint, std::array<double, 2>> mx;
    for (auto& p : pairs[k]) {
      double g = p.w * p.d.g, h = 2 * p.w * p.d.h;
      auto& a = m[p.a]; a[0] += g; a[1] += g * g; a[2] += h; a[3] += h * h;
      auto& b = m[p.b]; b[0] -= g; b[1] += g * g; b[2] += h; b[3] += h * h;
      for (uint i : {p.a, p.b}) { mx[i][0] = std::max(mx[i][0], std::fabs(g)); mx[i][1] = std::max(mx[i][1], h); }
    }
    for (uint i : members[k]) {
      if (!m.count(i)) {
        expect(sg[i] == 0 && sh[i] == 0, "no-partner", what, ": row ", i, " of group ", k, " has no comparable partner but gradient ", sg[i]);
        count("no_partner");
        continue;
      }
      double np = pairs[k].size(), N = draws[k] * T;
      if (pairs[k].size() == 1) {
        auto& p = pairs[k][0];
        double g = (i == p.a ? 1 : -1) * p.w * p.d.g, h = 2 * p.w * p.d.h;
        // One draw more or less where the number of draws is a rounding question.
        bool ok = false;
        for (int e = on_edge ? -1 : 0; e <= 0; ++e) ok = ok || (Near(sg[i], g * (N + e * T), 1e-6, 1e-9 * N * std::fabs(g)) && Near(sh[i], h * (N + e * T), 1e-6, 1e-9 * N * std::fabs(h)));
        expect(ok, "forced", what, ": row ", i, " of a group with one pair has g=", sg[i], " h=", sh[i], " after ", N, " draws of g=", g, " h=", h);
        count("forced");
        continue;
      }
      auto& a = m[i];
      double mean_g = a[0] / np, var_g = std::max(0.0, a[1] / np - mean_g * mean_g);
      double mean_h = a[2] / np, var_h = std::max(0.0, a[3] / np - mean_h * mean_h);
      double edge = on_edge ? T : 0;
      double tol_g = 7 * std::sqrt(N * var_g) + 12 * mx[i][0] + 1e-6 * N * mx[i][0] + edge * mx[i][0];
      double tol_h = 7 * std::sqrt(N * var_h) + 12 * mx[i][1] + 1e-6 * N * mx[i][1] + edge * mx[i][1];
      expect(std::fabs(sg[i] - N * mean_g) <= tol_g, "expected-gradient", what, ": row ", i, " of group ", k, " (", np, " pairs) has gradient ", sg[i], " over ", N, " draws, expected ", N * mean_g, " +- ", tol_g);
      expect(std::fabs(sh[i] - N * mean_h) <= tol_h, "expected-hessian", what, ": row ", i, " of group ", k, " (", np, " pairs) has hessian ", sh[i], " over ", N, " draws, expected ", N * mean_h, " +- ", tol_h);
      count("z_tests", 2);
    }
    // The number of draws: exact where every draw adds the same hessian.
    bool same = !pairs[k].empty();
    for (auto& p : pairs[k]) same = same && p.w * p.d.h == pairs[k][0].w * pairs[k][0].d.h && p.w * p.d.h > 0;
    if (same) {
      double each = 4 * pairs[k][0].w * pairs[k][0].d.h, sum = 0;
      for (uint i : members[k]) sum += sh[i];
      double got = sum / each;
      double x = rate * n / total / 2.0 * pairs[k].size();
      expect(got >= (x - 1) * T * (1 - 1e-6) - 1e-6 && got <= x * T * (1 + 1e-6) + 1e-6, "draws", what, ": group ", k, " of ", pairs[k].size(), " pairs was drawn ", got, " times in ", rounds, " rounds, not ", x, " per round");
      count("draws_counted");
    }
    if (pairs[k].empty()) count("empty_groups");
  }
  if (total == 0) count("no_pairs_at_all");
  if (missing_group >= 0 && pairs[missing_group].size()) count("missing_groups");
  if (!forced && fdraws >= 5 && total > 1 && fs < 10) {
    bool varied = false;  // do different pairs give different gradients?
    for (size_t k = 0; k < groups; ++k) varied = varied || (draws[k] >= 5 && pairs[k].size() > 2 && std::all_of(pairs[k].begin(), pairs[k].end(), [](const P& p) { return p.w * p.d.g != 0; }));
    if (varied) expect(outcomes.size() > 1, "repeats", what, ": ", rounds, " rounds drew the same pairs");
  }
  seen("kind", kind * 8 + delta * 4 + equal * 2 + named);
  if (total > 0 && fdraws > 0) { nontrivial(hash_str(cat(what, y[0], f[0]))); sample(cat(what, " pairs=", total, " draws=", fdraws, " rounds=", rounds, " distinct outcomes=", outcomes.size())); }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
