// Brute-force split search over raw values: the reference for C09 and C10.
#ifndef VERIF_SPLITREF_H_
#define VERIF_SPLITREF_H_

#include <algorithm>

#include "ref.h"

namespace vh {

struct Sums {
  long double g = 0, h = 0, abs_g = 0, abs_h = 0;
  void add(float w, const GradientData& d) {
    // The product is formed in double by the code under test; long double sums make ours the reference.
    long double a = (long double)((double)w * d.g), b = (long double)((double)w * d.h);
    g += a; h += b; abs_g += std::fabs((double)a); abs_h += std::fabs((double)b);
  }
  Sums operator+(const Sums& o) const { Sums s = *this; s.g += o.g; s.h += o.h; s.abs_g += o.abs_g; s.abs_h += o.abs_h; return s; }
  bool all_zero_h() const { return abs_h == 0; }
};

inline long double Energy(const Sums& s, double lambda) { long double d = s.h + lambda; return d == 0 ? 0 : s.g * s.g / d; }
inline long double Score(const Sums& s, double lambda) { long double d = s.h + lambda; return d == 0 ? 0 : s.g / d; }

struct SplitSpec {
  std::vector<GradientData> gd;
  std::vector<float> w;
  double lambda = 0, min_hessian = 0, min_gain = 0;
  bool exact = false;  // all sums are exact in double
  Sums sum(const std::vector<uint>& rows) const {
    Sums s;
    for (uint i : rows) s.add(w[i], gd[i]);
    return s;
  }
};

// Rounding allowance of a gain computed in double from these two sides, whichever way the sums are formed.
inline long double GainTol(const SplitSpec& p, const Sums& l, const Sums& r) {
  Sums t = l + r;
  long double tol = 1e-12L * (std::fabs((double)Energy(l, p.lambda)) + std::fabs((double)Energy(r, p.lambda)) + std::fabs((double)Energy(t, p.lambda))) + 1e-14L;
  if (!p.exact) {
    for (const Sums* s : {&l, &r, (const Sums*)&t}) {
      long double d = s->h + p.lambda, dg = 2e-14L * t.abs_g, dh = 2e-14L * t.abs_h;
      if (d <= 2 * dh) return INFINITY;
      tol += (2 * std::fabs((double)s->g) * dg + dg * dg) / d + Energy(*s, p.lambda) * dh / d;
    }
  }
  return tol;
}

inline long double Gain(const SplitSpec& p, const Sums& l, const Sums& r) {
  return Energy(l, p.lambda) + Energy(r, p.lambda) - Energy(l + r, p.lambda);
}
// Hessian limit: +1 clearly above, -1 clearly not, 0 within rounding.
inline int AboveMinHessian(const SplitSpec& p, const Sums& s, const Sums& total) {
  if (s.all_zero_h()) return p.min_hessian >= 0 ? -1 : 1;
  long double tol = p.exact ? 0 : 1e-13L * total.abs_h;
  if (s.h > p.min_hessian + tol) return 1;
  if (s.h <= p.min_hessian - tol) return -1;
  return 0;
}
inline long double MinGain(const SplitSpec& p) { return std::max(p.min_gain, 1e-6); }

struct Best {
  long double gain = -1;        // the highest gain of a clearly admissible split
  long double tol = 0;          // its rounding allowance
  std::string what;
  long candidates = 0, admissible = 0;
  void offer(const SplitSpec& p, const Sums& l, const Sums& r, const std::string& name) {
    ++candidates;
    Sums t = l + r;
    if (AboveMinHessian(p, l, t) <= 0 || AboveMinHessian(p, r, t) <= 0) return;
    long double g = Gain(p, l, r), tl = GainTol(p, l, r);
    if (!(g - tl > MinGain(p))) return;
    ++admissible;
    if (g - tl > gain - tol) { gain = g; tol = tl; what = name; }
  }
};

// The best admissible split of one column for these rows.  codes: bucket or category of every row.
inline Best BestFloat(const SplitSpec& p, const std::vector<uint>& codes, const std::vector<uint>& rows) {
  std::map<uint, Sums> by;
  for (uint i : rows) by[codes[i]].add(p.w[i], p.gd[i]);
  Sums missing;
  bool has_missing = by.count(0);
  if (has_missing) { missing = by[0]; by.erase(0); }
  std::vector<std::pair<uint, Sums>> v(by.begin(), by.end());
  std::vector<Sums> pre(v.size() + 1), suf(v.size() + 1);
  for (size_t i = 0; i < v.size(); ++i) pre[i + 1] = pre[i] + v[i].second;
  for (size_t i = v.size(); i > 0; --i) suf[i - 1] = suf[i] + v[i - 1].second;
  Best b;
  for (size_t k = 0; k <= v.size(); ++k) {
    if (k > 0 && k < v.size()) {
      b.offer(p, pre[k] + missing, suf[k], cat("first ", k, " values left, missing left"));
      if (has_missing) b.offer(p, pre[k], suf[k] + missing, cat("first ", k, " values left, missing right"));
    }
    if (k == 0 && has_missing && !v.empty()) b.offer(p, missing, suf[0], "missing left, values right");
  }
  return b;
}

inline Best BestCat(const SplitSpec& p, const std::vector<uint>& codes, const std::vector<uint>& rows, bool* all_subsets) {
  std::map<uint, Sums> by;
  for (uint i : rows) by[codes[i]].add(p.w[i], p.gd[i]);
  std::vector<std::pair<uint, Sums>> v(by.begin(), by.end());
  Best b;
  bool positive = true;
  for (auto& x : v) positive = positive && x.second.h > 0;
  *all_subsets = p.lambda == 0 && p.min_hessian == 0 && positive && v.size() <= 11;
  if (*all_subsets) {
    for (uint m = 1; v.size() > 1 && m < (1u << (v.size() - 1)); ++m) {
      Sums l, r;
      for (size_t i = 0; i < v.size(); ++i) { if (m >> i & 1) l = l + v[i].second; else r = r + v[i].second; }
      b.offer(p, l, r, cat("subset ", m));
    }
    return b;
  }
  // Categories that contribute nothing can be on any side.
  v.erase(std::remove_if(v.begin(), v.end(), [](const std::pair<uint, Sums>& x) { return x.second.abs_g == 0 && x.second.abs_h == 0; }), v.end());
  std::sort(v.begin(), v.end(), [&](const std::pair<uint, Sums>& x, const std::pair<uint, Sums>& y) { return Score(x.second, p.lambda) < Score(y.second, p.lambda); });
  for (size_t k = 1; k < v.size(); ++k) {
    long double a = Score(v[k - 1].second, p.lambda), c = Score(v[k].second, p.lambda);
    if (c - a <= 1e-9L * (std::fabs((double)a) + std::fabs((double)c)) + 1e-12L) continue;  // order among equals is open
    // Cancelling sums leave the order open, too.
    if (!p.exact && (v[k - 1].second.abs_g > 1e6 * std::fabs((double)v[k - 1].second.g) || v[k].second.abs_g > 1e6 * std::fabs((double)v[k].second.g))) continue;
    Sums l, r;
    for (size_t i = 0; i < v.size(); ++i) { if (i < k) l = l + v[i].second; else r = r + v[i].second; }
    b.offer(p, l, r, cat("first ", k, " categories by score"));
  }
  return b;
}

// Checks one reported split against what it does to the rows; returns its true gain.
inline long double CheckReported(const SplitSpec& p, const std::vector<uint>& left, const std::vector<uint>& right, double reported, const std::string& what) {
  Sums l = p.sum(left), r = p.sum(right), t = l + r;
  expect(!left.empty() && !right.empty(), "empty-side", what, ": one side of the split is empty: ", left.size(), " and ", right.size(), " rows, gain ", reported);
  expect(AboveMinHessian(p, l, t) >= 0 && AboveMinHessian(p, r, t) >= 0, "min-hessian", what, ": hessians ", (double)l.h, " and ", (double)r.h, " do not exceed ", p.min_hessian, ", gain ", reported);
  long double g = Gain(p, l, r), tol = GainTol(p, l, r);
  expect(std::isfinite(reported), "gain-value", what, ": gain ", reported);
  expect(std::fabs((double)(g - reported)) <= tol, "gain-value", what, ": recorded gain ", reported, ", the division gains ", (double)g, " (sides g=", (double)l.g, " h=", (double)l.h, ", g=", (double)r.g, " h=", (double)r.h, ") tolerance ", (double)tol);
  expect(reported > MinGain(p) - 1e-12, "min-gain", what, ": gain ", reported, " does not exceed ", (double)MinGain(p));
  return g;
}

}  // namespace vh

#endif  // VERIF_SPLITREF_H_
