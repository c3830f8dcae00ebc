// C19: sampling and division of work.
// Oracle: exact requirements per call; binomial statistics (six sigma and more) over many calls.
#include "ref.h"

#include "src/utils/subsampling.h"

using namespace vh;
using gbdt::Subsampling;

static void Divide(Rng& r) {
  int n = r.chance(0.3) ? r.range(0, 20) : r.chance(0.5) ? r.range(0, 3000) : r.range(0, 1000000);
  int k = r.chance(0.5) ? r.range(1, 32) : r.range(1, 300);
  if (r.chance(0.2)) k = std::max(1L, n + r.range(-2, 2)) % 5000 + 1;
  std::string what = cat("n=", n, " groups=", k);
  auto check = [&](const std::vector<std::pair<long, long>>& g) {
    expect((int)g.size() == k, "group-count", what, ": ", g.size());
    long pos = 0, lo = n + 1, hi = -1;
    for (auto& p : g) {
      expect(p.first == pos && p.second >= p.first, "contiguous", what, ": group [", p.first, ",", p.second, ") at ", pos);
      pos = p.second;
      lo = std::min(lo, p.second - p.first);
      hi = std::max(hi, p.second - p.first);
    }
    expect(pos == n, "cover", what, ": ends at ", pos);
    expect(hi - lo <= 1, "even", what, ": sizes ", lo, "..", hi);
  };
  std::vector<std::pair<long, long>> g;
  for (auto& p : Subsampling::DivideSamples(n, k)) g.emplace_back((long)p.first, (long)p.second);
  check(g);
  if (n <= 5000) {
    std::vector<uint> all(n + 7);
    for (int i = 0; i < n + 7; ++i) all[i] = r.range(0, 1000);
    int off = r.range(0, 7);
    VectorSlice<uint> slice(all, off, n);
    g.clear();
    for (auto& s : Subsampling::DivideSamples(slice, k)) g.emplace_back((s.begin() - all.begin()) - off, (s.end() - all.begin()) - off);
    check(g);
    count("slices");
  }
  count("divisions");
  if (n < k) count("fewer_than_groups");
  nontrivial(mix(n, k));
}

static void Exact(Rng& r) {
  uint n = r.chance(0.2) ? r.range(0, 3) : r.range(1, 2000);
  double rate = r.chance(0.25) ? 1.0 : r.chance(0.2) ? (double)(float)r.uni() : r.uni();
  int seed = (int)r.next();
  std::string what = cat("n=", n, " rate=", rate, " seed=", seed);
  Subsampling::Reseed(seed);
  std::vector<std::vector<uint>> a, b;
  for (int i = 0; i < 4; ++i) a.push_back(Subsampling::UniformSubsample(n, rate));
  for (int i = r.range(0, 3); i > 0; --i) Subsampling::UniformSubsample(r.range(0, 50), 0.5);
  Subsampling::Reseed(seed);
  for (int i = 0; i < 4; ++i) b.push_back(Subsampling::UniformSubsample(n, rate));
  expect(a == b, "reseed", what, ": another sample after reseeding");
  for (auto& s : a) {
    for (size_t i = 0; i < s.size(); ++i)
      expect(s[i] < n && (i == 0 || s[i - 1] < s[i]), "increasing", what, ": entry ", i, " is ", s[i]);
    if (rate == 1) expect(s.size() == n, "rate-one", what, ": ", s.size(), " rows");
  }
  auto all = Subsampling::CreateAllSamples(n);
  expect(all.size() == n, "all", what);
  for (uint i = 0; i < n; ++i) expect(all[i] == i, "all", what, " entry ", i, " is ", all[i]);
  count("exact");
  if (n > 1) nontrivial(mix(mix(n, seed), (uint64_t)(rate * 1e9)));
}

static void Z(const std::string& key, const std::string& what, double got, double mean, double var, double limit = 7) {
  double sd = std::sqrt(std::max(var, 1e-12));
  double z = (got - mean) / sd;
  expect(std::fabs(got - mean) <= limit * sd + 3, key, what, ": ", got, " against ", mean, " +- ", sd, " (z=", z, ")");
  count("z_tests");
}

static void Stats(Rng& r) {
  uint n = r.range(2, 40);
  int trials = thorough() ? 20000 : 6000;
  double rates[] = {0.03, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97};
  double p = r.chance(0.3) ? rates[r.range(0, 6)] : r.uni(0.05, 0.95);
  std::string what = cat("n=", n, " rate=", p, " trials=", trials);
  Subsampling::Reseed((int)r.next());
  std::vector<double> inc(n, 0), joint(n, 0), again(n, 0);
  std::vector<char> prev(n, 0), cur(n, 0);
  double sum = 0, sum2 = 0;
  for (int t = 0; t < trials; ++t) {
    auto s = Subsampling::UniformSubsample(n, p);
    std::fill(cur.begin(), cur.end(), 0);
    for (uint i : s) { expect(i < n, "increasing", what); cur[i] = 1; }
    for (uint i = 0; i < n; ++i) {
      inc[i] += cur[i];
      joint[i] += cur[i] && cur[(i + 1) % n];
      if (t) again[i] += cur[i] && prev[i];
    }
    double d = (double)s.size() - n * p;
    sum += d;
    sum2 += d * d;
    prev = cur;
  }
  double T = trials, q = p * p;
  for (uint i = 0; i < n; ++i) {
    Z("inclusion", cat(what, " row ", i), inc[i], T * p, T * p * (1 - p));
    // Counts of joint inclusion; a factor for the overlap of neighbouring terms.
    if (n > 2) Z("independence", cat(what, " rows ", i, "+1"), joint[i], T * q, T * q * (1 - q));
    Z("independence", cat(what, " row ", i, " again"), again[i], (T - 1) * q, T * (q * (1 - q) + 2 * p * q * (1 - p)));
  }
  Z("size-mean", what, sum, 0, T * n * p * (1 - p));
  double v = n * p * (1 - p);
  double m4 = v * (1 + 3 * v * (n - 2.0) / n) + 0;  // fourth central moment, with n*p*q*(1+(3n-6)pq)
  Z("size-variance", what, sum2, T * v, T * (m4 - v * v));
  count("stat_cases");
  nontrivial(mix(n, (uint64_t)(p * 1e9)));
  sample(what);
}

static void Large(Rng& r) {
  uint n = r.range(50000, 400000);
  double p = std::exp(r.uni(std::log(1e-4), 0));
  Subsampling::Reseed((int)r.next());
  auto s = Subsampling::UniformSubsample(n, p);
  std::string what = cat("n=", n, " rate=", p);
  double c[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < s.size(); ++i) {
    expect(s[i] < n && (i == 0 || s[i - 1] < s[i]), "increasing", what);
    c[4ull * s[i] / n] += 1;
  }
  for (int k = 0; k < 4; ++k) Z("inclusion", cat(what, " quarter ", k), c[k], n / 4.0 * p, n / 4.0 * p * (1 - p));
  count("large_cases");
  nontrivial(mix(n, s.size()));
}

static void Case(long id, Rng& r) {
  switch (id % 5) {
    case 0: case 1: Divide(r); break;
    case 2: Exact(r); break;
    case 3: if (id % 20 == 3) Stats(r); else Exact(r); break;
    default: if (id % 10 == 4) Large(r); else Divide(r);
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
