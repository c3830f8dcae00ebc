// C12: pointwise losses.
// Oracle: own derivatives in long double, own Newton iteration.
#include "ref.h"

#include "src/loss_func/loss_func.h"
#include "src/loss_func/loss_func_factory.h"
#include "src/loss_func/loss_func_math.h"

using namespace vh;
typedef long double ld;

struct D { ld loss, g, h; };

static D Ref(int kind, ld y, ld f) {
  if (kind == 0) return {(y - f) * (y - f), y - f, 1};
  ld m = y * f;
  if (kind == 1) {
    ld e = expl(-fabsl(m));
    ld loss = log1pl(e) + (m < 0 ? -m : 0);
    ld s = m >= 0 ? e / (1 + e) : 1 / (1 + e);  // 1 / (1 + exp(m))
    return {loss, y * s, e / ((1 + e) * (1 + e))};
  }
  if (m >= 1) return {0, 0, 0};
  if (m >= 0) return {0.5L * (1 - m) * (1 - m), (1 - m) * y, 1};
  return {0.5L - m, y, 0};
}

struct Fit { ld c, at, loss; int steps; bool stable; };

// Newton steps on the weighted loss, from 0, until a step after the first is at most 1e-4, ten at the most.
static Fit Newton(int kind, const std::vector<double>& f, const std::vector<float>& w, const std::vector<float>& y, ld jitter) {
  Fit r{0, 0, 0, 0, true};
  ld d;
  do {
    ld g = 0, h = 0, l = 0, ws = 0, ag = 0;
    for (size_t i = 0; i < f.size(); ++i) {
      ld at = f[i] * (1 + ((i % 2) ? jitter : -jitter)) + r.c, m = y[i] * at;
      if (kind == 2 && (fabsl(m) < 1e-9L * (1 + fabsl(f[i])) || fabsl(m - 1) < 1e-9L * (1 + fabsl(f[i])))) r.stable = false;  // at a kink
      D x = Ref(kind, y[i], at);
      g += w[i] * x.g; h += w[i] * x.h; l += w[i] * x.loss; ws += w[i]; ag += w[i] * fabsl(x.g);
    }
    r.at = r.c;
    r.loss = l / ws;
    if (h != 0 && h < 1e-290L) r.stable = false;  // underflows in double
    if (ag * 1e-15L * f.size() > 1e-9L * h && ag != 0) r.stable = false;  // the step is rounding noise
    d = h == 0 ? 0 : g / h;
    if (fabsl(fabsl(d) - 1e-4L) < 1e-8L) r.stable = false;
    r.c += d;
    ++r.steps;
  } while ((r.steps < 2 || fabsl(d) > 1e-4L) && r.steps < 10);
  return r;
}

static bool Close(ld a, ld b, ld rel, ld abs_tol) {
  if (a == b) return true;
  if (!(std::isfinite((double)a) && std::isfinite((double)b))) return false;
  return fabsl(a - b) <= abs_tol + rel * std::max(fabsl(a), fabsl(b));
}

static const char* kName[] = {"mse", "logloss", "huberized_hinge"};

static void Direct(Rng& r) {
  typedef std::tuple<double, double, double> T3;
  for (int k = 0; k < 200; ++k) {
    int kind = r.range(0, 2);
    double y = kind == 0 ? r.normal() * 10 : r.chance(0.5) ? 1 : -1;
    double f = r.chance(0.5) ? r.normal() * 3 : r.chance(0.5) ? r.normal() * 1000 : r.pick(std::vector<double>{0, -0.0, 1, -1, 708, -708, 709.5, 709.8, -709.8, 710, -710, 745, -745, 746, 1e4, -1e4, 1e6, -1e6, 1e150, -1e150, 1e300, -1e300});
    T3 v = kind == 0 ? gbdt::ComputeMSE(y, f) : kind == 1 ? gbdt::ComputeLogLoss(y, f) : gbdt::ComputeHuberizedHinge(y, f);
    D want = Ref(kind, y, f);
    double l = std::get<0>(v), g = std::get<1>(v), h = std::get<2>(v);
    std::string what = cat(kName[kind], "(", y, ", ", f, ") = ", l, ", ", g, ", ", h, " want ", (double)want.loss, ", ", (double)want.g, ", ", (double)want.h);
    expect(std::isfinite(g) && std::isfinite(h), "not-finite", what);
    expect(Close(g, want.g, 1e-9L, 1e-12L), "gradient", what);
    expect(Close(h, want.h, 1e-9L, 1e-12L), "hessian", what);
    if (std::fabs(f) < 1e150) expect(Close(l, want.loss, 1e-9L, 1e-12L), "loss", what);
    count("direct");
    if (std::fabs(f) >= 700) count("direct_extreme");
  }
}

static void Case(long id, Rng& r) {
  if (r.chance(0.1)) Direct(r);
  int kind = r.range(0, 2);
  size_t n = r.chance(0.1) ? r.range(1, 3) : r.range(2, 80);
  if (id % 150 == 11) { n = r.range(1000, 20000); count("long_tables"); }
  if (id % 600 == 311) { n = r.range(66000, 150000); count("very_long_tables"); }
  std::vector<float> w, y;
  std::vector<double> f;
  double fs = r.pick(std::vector<double>{0, 0.1, 1, 1, 5, 30, 1000, 1e5});
  double pos = r.pick(std::vector<double>{0.5, 0.5, 0.1, 0.99, 0, 1});
  for (size_t i = 0; i < n; ++i) {
    w.push_back(r.chance(0.6) ? 1 : r.chance(0.1) ? 0 : (float)r.uni(0.01, 4));
    y.push_back(kind == 0 ? (r.chance(0.5) ? (float)r.range(-3, 3) : (float)(r.normal() * 50)) : r.chance(pos) ? 1 : -1);
    f.push_back(r.normal() * fs);
  }
  double ws = 0;
  for (float v : w) ws += v;
  if (ws == 0) w[0] = 1;
  gbdt::Config cfg;
  cfg.set_loss_func(kName[kind]);
  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 3, 8});
  auto loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
  expect(loss != nullptr, "factory", kName[kind]);
  auto wf = [&](int i) { return w[i]; };
  auto yf = [&](int i) { return y[i]; };
  std::string what = cat(kName[kind], " n=", n, " scale=", fs, " threads=", FLAGS_num_threads, " first f=", f[0], " y=", y[0], " w=", w[0]);
  if (kind != 0 && r.chance(0.15)) {
    auto y2 = y;
    float bad = r.pick(std::vector<float>{0, 2, -2, 0.5f, NAN, INFINITY, -INFINITY, std::nextafterf(1, 0), std::nextafterf(-1, 0)});
    size_t at = r.range(0, n - 1);
    y2[at] = bad;
    auto s = loss->Init(n, wf, [&](int i) { return y2[i]; }, nullptr);
    expect(!s.ok() && s.error_code() == err::INVALID_ARGUMENT, "bad-target", what, ": target ", bad, " in row ", at, ": ", s.ToString());
    count("bad_targets");
    loss = gbdt::LossFuncFactory::CreateLossFunc(cfg);
  }
  if (r.chance(0.2)) {
    // The same loss function served other data before.
    std::vector<float> y0, w0;
    std::vector<double> f0;
    for (int i = r.range(1, 2) == 1 ? 5 : n + 20; i > 0; --i) { y0.push_back(r.chance(0.5) ? 1 : -1); w0.push_back(r.range(1, 3)); f0.push_back(r.normal() * 3); }
    expect(loss->Init(y0.size(), [&](int i) { return w0.at(i); }, [&](int i) { return y0.at(i); }, nullptr).ok(), "init", what);
    std::vector<GradientData> g0;
    double c0;
    std::string p0;
    for (int k = r.range(0, 2); k > 0; --k) loss->ComputeFunctionalGradientsAndHessians(f0, &c0, &g0, &p0);
    what += " (reused)";
    count("reused");
  }
  auto s = loss->Init(n, wf, yf, nullptr);
  expect(s.ok(), "init", what, ": ", s.ToString());
  int rounds = r.range(1, 3);
  double first_loss = -1;
  for (int k = 0; k < rounds; ++k) {
    if (k) for (auto& v : f) v = v * 0.7 + 0.1 * r.normal();
    std::vector<GradientData> g(r.chance(0.5) ? n : r.range(0, 5), GradientData(7, 7));
    double c = 99;
    std::string progress;
    bool with_progress = r.chance(0.8);
    loss->ComputeFunctionalGradientsAndHessians(f, &c, &g, with_progress ? &progress : nullptr);
    expect(g.size() == n, "size", what);
    ld G = 0, H = 0, aG = 0;
    for (size_t i = 0; i < n; ++i) {
      expect(std::isfinite(g[i].g) && std::isfinite(g[i].h), "not-finite", what, ": row ", i, " g=", g[i].g, " h=", g[i].h, " at score ", f[i]);
      expect(g[i].h >= 0, "hessian", what, ": row ", i, " h=", g[i].h);
      G += w[i] * g[i].g; H += w[i] * g[i].h; aG += w[i] * fabsl(g[i].g);
    }
    Fit ref = Newton(kind, f, w, y, 0), jit = Newton(kind, f, w, y, 1e-12L);
    bool stable = ref.stable && jit.stable && ref.steps == jit.steps && Close(ref.c, jit.c, 1e-8L, 1e-8L) && Close(ref.at, jit.at, 1e-8L, 1e-8L);
    if (stable) {
      expect(Close(c, ref.c, 1e-7L, 1e-7L), "constant", what, ": constant ", c, ", Newton steps give ", (double)ref.c, " in ", ref.steps);
      count("constants");
      seen("steps", ref.steps);
    } else {
      count("unstable");
    }
    if (!std::isfinite(c)) { count("overflowed"); return; }
    // The rows' derivatives are taken where the last step started.
    ld last = H == 0 ? 0 : G / H;
    ld at = stable ? ref.at : (ld)c - last;
    ld at_tol = stable ? 1e-7L * (1 + fabsl(ref.at)) : (H == 0 ? 1e-9L : 1e-13L * aG / H) + 1e-9L * (1 + fabsl(c));
    if (ref.steps < 10 && stable) expect(fabsl(last) <= 1.1e-4L, "not-fitted", what, ": the last step is ", (double)last);
    for (size_t i = 0; at_tol < 1e-4L && i < n; ++i) {
      D lo = Ref(kind, y[i], f[i] + at - at_tol), hi = Ref(kind, y[i], f[i] + at + at_tol);
      ld gl = std::min(lo.g, hi.g), gh = std::max(lo.g, hi.g);
      ld sl = 1e-9L * std::max(fabsl(gl), fabsl(gh)) + 1e-12L + (kind == 0 ? 1e-13L * fabsl(f[i]) : 0);
      expect(g[i].g >= gl - sl && g[i].g <= gh + sl, "gradient", what, ": row ", i, " (y=", y[i], ", f=", f[i], ") g=", g[i].g, ", not ", (double)gl, " at ", (double)at);
      ld hl = std::min(lo.h, hi.h), hh = std::max(lo.h, hi.h);
      expect(g[i].h >= hl * (1 - 1e-9L) - 1e-12L && g[i].h <= hh * (1 + 1e-9L) + 1e-12L, "hessian", what, ": row ", i, " (y=", y[i], ", f=", f[i], ") h=", g[i].h, ", not ", (double)hl, " at ", (double)at);
    }
    count("rows", n);
    if (with_progress) {
      double l = NAN, red = NAN;
      expect(sscanf(progress.c_str(), "loss=%lf,reduced=%lf%%", &l, &red) == 2, "progress", what, ": '", progress, "'");
      if (stable) expect(Close(l, ref.loss, 2e-5L, 1e-7L), "loss", what, ": reports ", progress, ", the weighted mean loss is ", (double)ref.loss);
      if (first_loss < 0) { first_loss = l; expect(k || red == 0 || std::isnan(red), "progress", what, ": '", progress, "'"); }
      else if (first_loss > 1e-290 && std::isfinite(first_loss) && std::isfinite(l)) { expect(std::fabs(red - (first_loss - l) / first_loss * 100) <= 0.02 + 1e-4 * std::fabs(red), "progress", what, ": '", progress, "' after ", first_loss); }
      count("losses");
    }
    // Other thread counts.
    if (stable && k == 0) {
      FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 5, 16});
      auto other = gbdt::LossFuncFactory::CreateLossFunc(cfg);
      expect(other->Init(n, wf, yf, nullptr).ok(), "init", what);
      double c2;
      std::vector<GradientData> g2;
      other->ComputeFunctionalGradientsAndHessians(f, &c2, &g2, nullptr);
      expect(Close(c, c2, 1e-9L, 1e-9L), "threads", what, ": constant ", c, " and ", c2, " with ", FLAGS_num_threads, " threads");
      for (size_t i = 0; i < n; ++i) expect(Close(g[i].g, g2[i].g, 1e-6L, 1e-6L) && (kind == 2 || Close(g[i].h, g2[i].h, 1e-6L, 1e-6L)), "threads", what, ": row ", i, " has gradient ", g[i].g, " and ", g2[i].g);
      count("thread_pairs");
    }
    if (n > 1) { nontrivial(hash_str(cat(kName[kind], c, f[0], n))); sample(cat(what, " c=", c, " ", progress)); }
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
