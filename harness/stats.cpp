// C21: descriptive, running and multivariate statistics against their batch
// definitions, over every small sample.
#include "array.h"
#include "correlation.h"
#include "matkit.h"
#include "pca.h"
#include "running.h"
#include "statistics.h"
using namespace ldt;
using namespace mk;
using mc::fmt;
using Vec = std::vector<double>;

struct Mom {
  double w = 0, mean = NAN, var = NAN, skew = NAN, kurt = NAN;
  int n = 0;
};
static Mom batch(const Vec &x, const Vec &w) {
  Mom m;
  double s = 0;
  for (size_t i = 0; i < x.size(); i++)
    m.w += w[i], s += w[i] * x[i], m.n++;
  if (m.w == 0)
    return m;
  m.mean = s / m.w;
  double m2 = 0, m3 = 0, m4 = 0;
  for (size_t i = 0; i < x.size(); i++) {
    double d = x[i] - m.mean;
    m2 += w[i] * d * d, m3 += w[i] * d * d * d, m4 += w[i] * d * d * d * d;
  }
  m.var = m2 / m.w;
  if (m.var > 1e-12) {
    m.skew = m3 / m.w / std::pow(m.var, 1.5);
    m.kurt = m4 / m.w / (m.var * m.var) - 3;
  }
  return m;
}
static std::string str(const Vec &v) {
  std::string o = "{";
  for (double x : v)
    o += fmt("%g ", x);
  return o + "}";
}
static Vec sample(int maxlen, const Vec &alpha) {
  int n = mc::choose(maxlen + 1);
  Vec v;
  for (int i = 0; i < n; i++)
    v.push_back(mc::pick(alpha));
  return v;
}
static Vec valid(const Vec &x, Vec *w = nullptr) {
  Vec o, q;
  for (size_t i = 0; i < x.size(); i++)
    if (!std::isnan(x[i])) {
      o.push_back(x[i]);
      if (w)
        q.push_back((*w)[i]);
    }
  if (w)
    *w = q;
  return o;
}

template <bool W, bool S> static void moments(const Vec &x, const Vec &w0) {
  mc::Guard<double> X(x.size()), Wt(x.size());
  for (size_t i = 0; i < x.size(); i++)
    X[i] = x[i], Wt[i] = w0[i];
  Vec w = W ? w0 : Vec(x.size(), 1.0);
  bool miss = false;
  for (double v : x)
    miss |= std::isnan(v);
  Vec u = x;
  if (S)
    u = valid(x, &w);
  Mom m = batch(u, w);
  const double *pw = W ? Wt.p : nullptr;
  using A = Array<double>;
  Ti n = (Ti)x.size();
  std::string t = fmt("weighted=%d skip=%d", W, S);
  if (!S && miss) {
    for (int i = 0; i < (int)x.size(); i++)
      if (W && std::isnan(x[i]) && w[i] == 0)
        return; // a missing observation without weight may be left out
    MC_CHECK(std::isnan((A::Mean<W, S>(X.p, n, pw))), "moments", "mean with missing data is a number");
    return;
  }
  mc::eq(A::Mean<W, S>(X.p, n, pw), m.mean, "moments", "mean " + t);
  mc::eq(A::Variance<W, S>(X.p, n, pw), m.var, "moments", "variance " + t);
  if (m.w == 0 || m.var > 1e-12) {
    mc::eq(A::Skewness<W, S>(X.p, n, pw), m.skew, "moments", "skewness " + t, 1e-8);
    mc::eq(A::Kurtosis<W, S>(X.p, n, pw), m.kurt, "moments", "kurtosis " + t, 1e-8);
  }
  mc::step(4);
}
static void array_moments() {
  Vec x = sample(mc::qt(4, 5), {-1, 0, 1.5, 4, NAN});
  mc::describe("moments " + str(x));
  Vec one(x.size(), 1);
  moments<false, false>(x, one);
  moments<false, true>(x, one);
}
static void array_weighted() {
  Vec x = sample(mc::qt(3, 4), {-1, 0, 2.5, NAN});
  Vec w;
  for (size_t i = 0; i < x.size(); i++)
    w.push_back(mc::pick({0.0, 0.5, 1.0, 3.0}));
  mc::describe("weighted moments " + str(x) + str(w));
  moments<true, false>(x, w);
  moments<true, true>(x, w);
}
template <bool S> static void descr(const Vec &x) {
  using A = Array<double>;
  mc::Guard<double> X(x.size());
  for (size_t i = 0; i < x.size(); i++)
    X[i] = x[i];
  Ti n = (Ti)x.size();
  Vec u = valid(x);
  bool miss = u.size() < x.size();
  if (!S && miss)
    return;
  Mom m = batch(u, Vec(u.size(), 1));
  double mn = INFINITY, mx = -INFINITY;
  int imn = -1, imx = -1;
  for (int i = 0; i < n; i++) {
    if (x[i] < mn)
      mn = x[i], imn = i;
    if (x[i] > mx)
      mx = x[i], imx = i;
  }
  double got;
  Ti idx = 99;
  auto get = [&](DescriptiveType t) {
    double r = 777;
    A::GetDescriptive<S>(X.p, n, t, r);
    mc::step();
    return r;
  };
  if (u.empty()) { // nothing to take: not a number of the data
    MC_CHECK(!std::isfinite(get(DescriptiveType::kMin)), "descriptive", "minimum of nothing");
    MC_CHECK(!std::isfinite(get(DescriptiveType::kMax)), "descriptive", "maximum of nothing");
  } else {
    mc::eq(get(DescriptiveType::kMin), mn, "descriptive", "minimum");
    mc::eq(get(DescriptiveType::kMax), mx, "descriptive", "maximum");
  }
  A::MinIndex<S>(X.p, n, got, idx);
  mc::eqi(idx, imn, "descriptive", "index of the minimum");
  if (idx >= 0)
    mc::eq(got, mn, "descriptive", "minimum with index");
  A::MaxIndex<S>(X.p, n, got, idx);
  mc::eqi(idx, imx, "descriptive", "index of the maximum");
  if (idx >= 0)
    mc::eq(got, mx, "descriptive", "maximum with index");
  mc::eq(get(DescriptiveType::kFirst), u.empty() ? NAN : u.front(), "descriptive", "first");
  mc::eq(get(DescriptiveType::kLast), u.empty() ? NAN : u.back(), "descriptive", "last");
  mc::eq(get(DescriptiveType::kMean), m.mean, "descriptive", "mean");
  mc::eq(get(DescriptiveType::kVariancePop), m.var, "descriptive", "population variance");
  mc::eq(get(DescriptiveType::kStdPop), std::sqrt(m.var), "descriptive", "population standard deviation");
  if (u.size() >= 2) {
    double v = m.var * u.size() / (u.size() - 1.0);
    mc::eq(get(DescriptiveType::kVariance), v, "descriptive", "sample variance");
    mc::eq(get(DescriptiveType::kStd), std::sqrt(v), "descriptive", "sample standard deviation");
  } else {
    MC_CHECK(!std::isfinite(get(DescriptiveType::kVariance)), "descriptive", "sample variance of %d values", (int)u.size());
    MC_CHECK(!std::isfinite(get(DescriptiveType::kStd)), "descriptive", "sample deviation of %d values", (int)u.size());
  }
  if (u.empty() || m.var > 1e-12) {
    mc::eq(get(DescriptiveType::kSkewnessPop), m.skew, "descriptive", "skewness", 1e-8);
    mc::eq(get(DescriptiveType::kKurtosisPop), m.kurt, "descriptive", "kurtosis", 1e-8);
  }
}
static void array_descr() {
  Vec x = sample(mc::qt(4, 5), {-1, 0, 2.5, 2, NAN});
  mc::describe("descriptive " + str(x));
  descr<true>(x);
  descr<false>(x);
}
static void boxcox() {
  double x = mc::pick({0.1, 0.5, 1.0, 2.0, 7.5}), l = mc::pick({-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, (double)NAN});
  mc::describe(fmt("boxcox %g %g", x, l));
  double y = x;
  Array<double>::BoxCox0(y, l);
  mc::eq(y, std::isnan(l) ? x : l == 0 ? std::log(x) : (std::pow(x, l) - 1) / l, "boxcox", "transformation");
  double z = y;
  Array<double>::BoxCoxInv0(z, l);
  mc::eq(z, x, "boxcox", "inverse of the transformation");
  double v[3] = {x, 2 * x, 3}, q[3];
  memcpy(q, v, sizeof v);
  Array<double>::BoxCox(v, 3, l);
  mc::eq(v[0], y, "boxcox", "array");
  Array<double>::BoxCoxInv(v, 3, l);
  for (int i = 0; i < 3; i++)
    mc::eq(v[i], q[i], "boxcox", "array round trip");
  mc::step(4);
}

// ----------------------------------------------------------------- running --
template <Ti M, bool W> static void running_body() {
  using R = RunningMoments<M, true, W, double>;
  int parts = mc::range(1, 3);
  Vec x = sample(mc::qt(3, 4), mc::qt(Vec{-1, 0, 2, NAN}, Vec{-1, 0, 2, 2.5, NAN}));
  Vec w;
  std::vector<int> at;
  for (size_t i = 0; i < x.size(); i++) {
    w.push_back(W ? mc::pick({0.0, 0.5, 2.0}) : 1.0);
    at.push_back(mc::choose(parts));
  }
  int order = parts > 1 ? mc::choose(2) : 0;
  bool reset = mc::flip();
  mc::describe(fmt("running %d parts=%d order=%d reset=%d ", (int)M, parts, order, reset) + str(x) + str(w) + mc::join(at));
  R r[3];
  if (reset)
    for (auto &q : r) {
      q.PushNew(5, 2);
      q.PushNew(-3, 1);
      q.Reset();
    }
  for (size_t i = 0; i < x.size(); i++) {
    r[at[i]].PushNew(x[i], w[i]);
    mc::step();
  }
  R total = order ? r[parts - 1] : r[0];
  for (int k = 1; k < parts; k++) {
    total.Combine(order ? r[parts - 1 - k] : r[k]);
    mc::step();
  }
  Vec u = valid(x, &w);
  Mom m = batch(u, w);
  mc::eq(total.SumWeights, m.w, "running", "sum of the weights");
  mc::eqi(total.Count, m.n, "running", "count");
  mc::eq(total.GetMean(), m.mean, "running", "mean");
  mc::eq(total.GetVariance(), M >= 2 ? m.var : NAN, "running", "variance");
  if (m.w == 0 || m.var > 1e-12) {
    mc::eq(total.GetSkewness(), M >= 3 ? m.skew : NAN, "running", "skewness", 1e-8);
    mc::eq(total.GetKurtosis(), M >= 4 ? m.kurt : NAN, "running", "kurtosis", 1e-8);
  }
  mc::outcome(mc::hash_str(fmt("%.6g %.6g", total.GetMean(), total.GetVariance())));
}
/// moments given as numbers are merged like the observations they summarize
template <Ti M> static void running_given() {
  using R = RunningMoments<M, true, true, double>;
  Vec all, aw;
  R r;
  int sets = mc::range(1, 3), n = 0;
  std::string d;
  for (int k = 0; k < sets; k++) {
    Vec x = {mc::pick({-1.0, 0.0}), mc::pick({1.0, 3.0}), mc::pick({0.5, 4.0})};
    double ws = mc::pick({0.25, 2.0});
    Vec w = {ws, ws, 2 * ws};
    d += str(x) + str(w);
    Mom m = batch(x, w);
    if (mc::flip())
      for (int i = 0; i < 3; i++)
        r.PushNew(x[i], w[i]), n++;
    else {
      r.Combine(m.mean, m.var, m.skew, m.kurt, m.w, 3);
      n += 3;
    }
    mc::step();
    for (int i = 0; i < 3; i++)
      all.push_back(x[i]), aw.push_back(w[i]);
  }
  mc::describe(fmt("given moments %d ", (int)M) + d);
  Mom m = batch(all, aw);
  mc::eqi(r.Count, n, "running", "count");
  mc::eq(r.SumWeights, m.w, "running", "sum of the weights");
  mc::eq(r.GetMean(), m.mean, "running", "mean");
  mc::eq(r.GetVariance(), M >= 2 ? m.var : NAN, "running", "variance");
  mc::eq(r.GetSkewness(), M >= 3 ? m.skew : NAN, "running", "skewness", 1e-8);
  mc::eq(r.GetKurtosis(), M >= 4 ? m.kurt : NAN, "running", "kurtosis", 1e-8);
}

// ------------------------------------------------------------- descriptive --
static void descriptive() {
  int n = mc::choose(mc::qt(5, 6));
  Ref a(n, 1);
  Vec x;
  for (int i = 0; i < n; i++)
    x.push_back(a.at(i, 0) = mc::pick({-2.0, 0.0, 1.0, 3.5}));
  mc::describe("descriptive " + str(x));
  Mat<> A(a);
  Descriptive d(&A.m);
  Mom m = batch(x, Vec(n, 1));
  double mn = NAN, mx = NAN, s = 0, s2 = 0;
  for (double v : x) {
    mn = std::isnan(mn) ? v : std::min(mn, v);
    mx = std::isnan(mx) ? v : std::max(mx, v);
    s += v;
    s2 += v * v;
  }
  mc::eq(d.Minimum(), mn, "descriptive", "Minimum");
  mc::eq(d.Maximum(), mx, "descriptive", "Maximum");
  if (n > 0)
    mc::eq(d.Sum(), s, "descriptive", "Sum");
  mc::eq(d.SumOfSquares(false), s2, "descriptive", "SumOfSquares");
  mc::eq(d.SumOfSquares(true), n ? m.var * n : 0, "descriptive", "central SumOfSquares");
  for (int smp = 0; smp < 2; smp++) {
    double var = n < 2 ? NAN : smp ? m.var * n / (n - 1.0) : m.var;
    auto [me, va] = d.MeanVariance(smp);
    mc::eq(me, m.mean, "descriptive", "MeanVariance mean");
    mc::eq(va, var, "descriptive", fmt("MeanVariance variance sample=%d", smp));
    auto [m1, v1, k1, k2] = d.MeanVarianceKurtosisSkewness(smp);
    mc::eq(m1, m.mean, "descriptive", "four moments: mean");
    mc::eq(v1, var, "descriptive", fmt("four moments: variance sample=%d", smp));
    if (n > 0 && m.var > 1e-12) {
      double g1 = m.skew, g2 = m.kurt;
      double sk = n < 3 ? NAN : smp ? g1 * std::sqrt(n * (n - 1.0)) / (n - 2) : g1;
      double ku = n < 4 ? NAN : smp ? (n - 1.0) / ((n - 2.0) * (n - 3.0)) * ((n + 1) * g2 + 6) : g2;
      mc::eq(k1, sk, "descriptive", fmt("four moments: skewness sample=%d", smp), 1e-8);
      mc::eq(k2, ku, "descriptive", fmt("four moments: kurtosis sample=%d", smp), 1e-8);
    }
  }
  mc::step(10);
  if (n >= 2) { // straight line through (1,x1), (2,x2), ...: residuals orthogonal to 1 and t
    double b[2] = {77, 77};
    d.RegressionTrend(b);
    double r0 = 0, r1 = 0;
    for (int i = 0; i < n; i++) {
      double e = x[i] - b[0] - b[1] * (i + 1);
      r0 += e;
      r1 += e * (i + 1);
    }
    mc::eq(r0, 0, "trend", "sum of the residuals", 1e-8);
    mc::eq(r1, 0, "trend", "residuals times time", 1e-8);
  }
  A.unchanged("descriptive");
  if (n > 0) { // quantiles of the sorted data (median unbiased, type 8)
    std::sort(x.begin(), x.end());
    Ref b(n, 1);
    for (int i = 0; i < n; i++)
      b.at(i, 0) = x[i];
    Mat<> B(b);
    Descriptive q(&B.m);
    mc::eq(q.MinimumSorted(), x[0], "descriptive", "MinimumSorted");
    mc::eq(q.MaximumSorted(), x[n - 1], "descriptive", "MaximumSorted");
    double last = -INFINITY;
    for (int k = -2; k <= 42; k++) {
      double tau = k / 40.0, h = (n + 1 / 3.0) * tau + 1 / 3.0, w;
      int f = (int)std::floor(h);
      w = tau <= 0 || f < 1 ? x[0] : tau >= 1 || f >= n ? x[n - 1] : x[f - 1] + (h - f) * (x[f] - x[f - 1]);
      double g = q.QuantileSorted(tau);
      mc::eq(g, w, "quantile", fmt("QuantileSorted(%g)", tau));
      MC_CHECK(g >= last - 1e-12, "quantile", "quantiles fall");
      last = g;
    }
  }
}
static void filters() {
  int n = mc::range(1, 6), k = mc::range(1, 4);
  Ref a(n, 1), c(k, 1);
  int basis = mc::choose(n + 1);
  for (int i = 0; i < n; i++)
    a.at(i, 0) = basis == n ? 1 + i * i : i == basis;
  for (int i = 0; i < k; i++)
    c.at(i, 0) = mc::pick({-0.5, 0.0, 2.0});
  mc::describe("filter " + a.str() + " coefs " + c.str());
  Mat<> A(a), C(c);
  Descriptive d(&A.m);
  for (int cent = 0; cent < 2; cent++) {
    Mat<> S(Ref(n, 1, 77));
    d.FilterMa(C.m, cent, S.m);
    mc::step();
    int o = cent ? k / 2 : 0;
    Ref w(n, 1, NAN);
    for (int i = 0; i < n; i++) {
      double s = 0;
      bool ok = true;
      for (int j = 0; j < k; j++) {
        int p = i + o - j;
        if (p < 0 || p >= n)
          ok = false;
        else
          s += c.at(j, 0) * a.at(p, 0);
      }
      if (ok)
        w.at(i, 0) = s;
    }
    S.is(w, "filter", fmt("moving average, centred=%d", cent));
  }
  Mat<> S(Ref(n, 1, 77));
  if (k > n) {
    rejects([&] { d.FilterAr(&C.m, &S.m); }, "a recursive filter longer than the data");
  } else {
    d.FilterAr(&C.m, &S.m);
    Ref w(n, 1);
    for (int i = 0; i < n; i++) {
      w.at(i, 0) = a.at(i, 0);
      if (i >= k)
        for (int j = 0; j < k; j++)
          w.at(i, 0) += c.at(j, 0) * w.at(i - j - 1, 0);
    }
    S.is(w, "filter", "recursive filter", 1e-9);
  }
  Mat<> Sh(Ref(n - 1, 1, 77));
  rejects([&] { d.FilterMa(C.m, false, Sh.m); }, "a storage that is too short");
  rejects([&] { d.FilterAr(&C.m, &Sh.m); }, "a storage that is too short");
  A.unchanged("filter");
  C.unchanged("filter");
}
static void seasonal() {
  int s = mc::range(2, 3), n = s * 3 + mc::choose(2);
  bool mult = mc::flip(), cent = mc::flip(), res = mc::flip();
  Ref a(n, 1);
  for (int i = 0; i < n; i++)
    a.at(i, 0) = 4 + i + (i < 4 ? mc::pick({0.0, 1.5}) : (i % s) * 0.5);
  int k = s % 2 ? s : s + 1;
  Ref c(k, 1, 1.0 / s);
  if (s % 2 == 0)
    c.at(0, 0) = c.at(k - 1, 0) = 0.5 / s;
  mc::describe(fmt("seasonal s=%d mult=%d centred=%d ", s, mult, cent) + a.str());
  Mat<> A(a), C(c), T(Ref(n, 1, 77)), S(Ref(n, 1, 77)), R(Ref(n, 1, 77)), M(Ref(s, 1, 77));
  Descriptive d(&A.m);
  d.SeasonalDecompositionMa(T.m, S.m, R.m, M.m, &C.m, s, mult, res, cent);
  mc::step();
  int o = cent ? k / 2 : 0;
  Ref t(n, 1, NAN), se(n, 1), r(n, 1), m(s, 1);
  Vec cnt(s, 0);
  for (int i = 0; i < n; i++) {
    double q = 0;
    bool ok = true;
    for (int j = 0; j < k; j++) {
      int p = i + o - j;
      if (p < 0 || p >= n)
        ok = false;
      else
        q += c.at(j, 0) * a.at(p, 0);
    }
    if (ok) {
      t.at(i, 0) = q;
      m.at(i % s, 0) += mult ? a.at(i, 0) / q : a.at(i, 0) - q;
      cnt[i % s]++;
    }
  }
  double mm = 0;
  for (int j = 0; j < s; j++)
    m.at(j, 0) /= cnt[j], mm += m.at(j, 0) / s;
  for (int j = 0; j < s; j++)
    m.at(j, 0) = mult ? m.at(j, 0) / mm : m.at(j, 0) - mm;
  for (int i = 0; i < n; i++) {
    se.at(i, 0) = m.at(i % s, 0);
    r.at(i, 0) = mult ? a.at(i, 0) / t.at(i, 0) / se.at(i, 0) : a.at(i, 0) - t.at(i, 0) - se.at(i, 0);
  }
  T.is(t, "seasonal", "trend", 1e-9);
  M.is(m, "seasonal", "seasonal means", 1e-9);
  S.is(se, "seasonal", "seasonal part", 1e-9);
  if (res)
    R.is(r, "seasonal", "remainder", 1e-9);
  A.unchanged("seasonal decomposition");
}

// -------------------------------------------------------- rank, correlation --
static Ref ranks(const Ref &a, bool asc) {
  Ref o(a.r, a.c);
  for (int j = 0; j < a.c; j++)
    for (int i = 0; i < a.r; i++)
      for (int k = 0; k < a.r; k++)
        if (asc ? a.at(k, j) < a.at(i, j) : a.at(k, j) > a.at(i, j))
          o.at(i, j)++;
  return o;
}
static Ref all(int r, int c, const Vec &alpha) {
  Ref o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      o.at(i, j) = mc::pick(alpha);
  return o;
}
static void rank() {
  int c = mc::range(1, 2), r = c == 1 ? mc::range(1, 5) : mc::range(1, 3);
  Ref a = all(r, c, {-1, 2, 2.5});
  bool asc = mc::flip();
  int R = r + mc::choose(2), C = c + mc::choose(2);
  mc::describe(fmt("rank asc=%d declared %dx%d ", asc, R, C) + a.str());
  Rank k(R, C);
  mc::Guard<double> st(k.StorageSize), wk(k.WorkSize);
  Mat<> A(a);
  k.Calculate(A.m, wk.p, st.p, asc);
  mc::step();
  MC_CHECK(st.intact() && wk.intact(), "memory", "rank writes before its memory");
  mc::eqi(k.Result.RowsCount, r, "rank", "rows");
  mc::eqi(k.Result.ColsCount, c, "rank", "columns");
  Ref w = ranks(a, asc);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      mc::eq(k.Result.Get(i, j), w.at(i, j), "rank", fmt("rank of (%d,%d)", i, j));
  A.unchanged("rank");
  Rank small(r, c);
  Mat<> L(Ref(r + 1, c, 1));
  rejects([&] { small.Calculate(L.m, wk.p, st.p, asc); }, "a matrix larger than declared");
}
template <bool N, CorrelationType T, CorrelationMethod M> static void corr(const Ref &a) {
  constexpr bool isCor = T == CorrelationType::kCorrelation, isP = M == CorrelationMethod::kPearson;
  bool adj = mc::flip(), low = mc::flip();
  int more = mc::choose(2);
  mc::describe(fmt("correlation nan=%d cor=%d pearson=%d adjust=%d lower=%d declared+%d ", N, isCor, isP, adj, low, more) + a.str());
  Correlation<N, T, M> m(a.r + more, a.c + more, true);
  mc::Guard<double> st(m.StorageSize), wk(m.WorkSize);
  Mat<> A(a);
  m.Calculate(A.m, wk.p, st.p, adj, low);
  mc::step();
  MC_CHECK(st.intact() && wk.intact(), "memory", "correlation writes before its memory");
  A.unchanged("correlation");
  mc::eqi(m.Result.RowsCount, a.c, "correlation", "rows");
  mc::eqi(m.Result.ColsCount, a.c, "correlation", "columns");
  for (int i = 0; i < a.c; i++)
    for (int j = 0; j < a.c; j++) {
      if (!low && i > j)
        continue;
      Ref p(0, 2);
      for (int k = 0; k < a.r; k++)
        if (!std::isnan(a.at(k, i)) && !std::isnan(a.at(k, j))) {
          p.r++;
          p.v.push_back({a.at(k, i), a.at(k, j)});
        }
      if constexpr (N)
        mc::eq(m.ResultCounts.Get(i, j), p.r, "counts", fmt("number of pairs of (%d,%d)", i, j));
      if (p.r < 2)
        continue;
      if (!isP)
        p = ranks(p, false);
      double mx = 0, my = 0, xx = 0, yy = 0, xy = 0;
      for (auto &q : p.v)
        mx += q[0] / p.r, my += q[1] / p.r;
      for (auto &q : p.v)
        xx += (q[0] - mx) * (q[0] - mx), yy += (q[1] - my) * (q[1] - my), xy += (q[0] - mx) * (q[1] - my);
      double got = m.Result.Get(i, j);
      if (!isCor)
        mc::eq(got, xy / (adj ? p.r - 1 : p.r), "correlation", fmt("covariance (%d,%d)", i, j));
      else if (xx > 1e-12 && yy > 1e-12)
        mc::eq(got, xy / std::sqrt(xx * yy), "correlation", fmt("correlation (%d,%d)", i, j));
    }
  if constexpr (!N && isP)
    for (int j = 0; j < a.c; j++) {
      double mean = 0, var = 0;
      for (int i = 0; i < a.r; i++)
        mean += a.at(i, j) / a.r;
      for (int i = 0; i < a.r; i++)
        var += (a.at(i, j) - mean) * (a.at(i, j) - mean) / a.r;
      mc::eq(m.Means.Data[j], mean, "correlation", "means");
      if constexpr (isCor)
        mc::eq(m.Variances.Data[j], var, "correlation", "variances");
    }
}
template <bool N> static void correlation() {
  int c = mc::range(1, 3), r = c == 3 ? mc::qt(2, 3) : mc::range(2, 4 - (c == 2 && N ? 1 : 0));
  Ref a = N ? all(r, c, {0, 1, 3, NAN}) : all(r, c, {0, 1, 3});
  switch (mc::choose(4)) {
  case 0:
    return corr<N, CorrelationType::kCorrelation, CorrelationMethod::kPearson>(a);
  case 1:
    return corr<N, CorrelationType::kCovariance, CorrelationMethod::kPearson>(a);
  case 2:
    return corr<N, CorrelationType::kCorrelation, CorrelationMethod::kSpearman>(a);
  default:
    return corr<N, CorrelationType::kCovariance, CorrelationMethod::kSpearman>(a);
  }
}

// --------------------------------------------------------------------- pca --
static void pca(int r, int c, const Vec &alpha) {
  Ref a = all(r, c, alpha);
  int f = mc::choose(3);
  bool pcs = mc::flip();
  int st_ = mc::choose(5); // none, centre, scale, both, both without removing constants
  bool cen = st_ == 1 || st_ >= 3, sca = st_ >= 2, rem = st_ != 4;
  int more = mc::choose(2);
  mc::describe(fmt("pca centre=%d scale=%d remove=%d pcs=%d forecasts=%d declared+%d ", cen, sca, rem, pcs, f, more) + a.str());
  // the standardized data
  std::vector<int> keep;
  Ref z = a;
  Vec mean(c, 0), var(c, 0);
  for (int j = 0; j < c; j++) {
    for (int i = 0; i < r; i++)
      mean[j] += a.at(i, j) / r;
    for (int i = 0; i < r; i++)
      var[j] += (a.at(i, j) - mean[j]) * (a.at(i, j) - mean[j]) / (r - 1);
    bool constant = var[j] < 1e-12;
    if (constant && sca && !rem)
      return; // no defined result
    if (!(constant && sca))
      keep.push_back(j);
    for (int i = 0; i < r; i++) {
      z.at(i, j) -= cen ? mean[j] : 0;
      if (sca)
        z.at(i, j) /= std::sqrt(var[j]);
    }
  }
  PcaAnalysis m(r + more, c + more, f, pcs, rem, cen, sca);
  mc::Guard<double> st(m.StorageSize), wk(m.WorkSize);
  Mat<> A(a);
  Ref x(f, c);
  for (int i = 0; i < f; i++)
    for (int j = 0; j < c; j++)
      x.at(i, j) = 1 + i + 2 * j;
  Mat<> X(x);
  bool t = throws([&] { m.Calculate(A.m, wk.p, st.p, f ? &X.m : nullptr); });
  MC_CHECK(st.intact() && wk.intact(), "memory", "pca writes before its memory");
  A.unchanged("pca");
  X.unchanged("pca forecasts");
  int k = (int)keep.size(), mn = std::min(r, k);
  if (k == 0) {
    MC_CHECK(t, "pca", "no column with variation is accepted");
    return;
  }
  MC_CHECK(!t, "pca", "rejected");
  mc::eqi(m.Stds.length(), mn, "pca", "number of components");
  mc::eqi(m.Directions.RowsCount, k, "pca", "rows of the directions");
  mc::eqi(m.Directions.ColsCount, k, "pca", "columns of the directions");
  Ref d(k, k), zz(r, k);
  for (int i = 0; i < k; i++)
    for (int j = 0; j < k; j++)
      d.at(i, j) = m.Directions.Get(i, j);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < k; j++)
      zz.at(i, j) = z.at(i, keep[j]);
  Ref o = dot(d, d.t());
  for (int i = 0; i < mn; i++)
    for (int j = 0; j < mn; j++)
      mc::eq(o.at(i, j), i == j, "pca", fmt("direction %d times %d", i, j), 1e-8);
  // every returned number is defined by the data, also the remaining directions
  for (int i = 0; i < k; i++)
    for (int j = 0; j < k; j++)
      if (i >= mn || j >= mn)
        MC_CHECK(std::fabs(o.at(i, j) - (i == j)) < 1e-8 || (o.at(i, j) == 0), "pca-rest", "direction %d times %d is %g (undefined memory)", i, j, o.at(i, j));
  Ref p = dot(zz, d.t()), v = dot(p.t(), p);
  double tot = 0, sum = 0;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < k; j++)
      tot += zz.at(i, j) * zz.at(i, j) / (r - 1);
  for (int i = 0; i < mn; i++) {
    sum += m.Stds.Data[i] * m.Stds.Data[i];
    MC_CHECK(m.Stds.Data[i] >= 0 && (i == 0 || m.Stds.Data[i] <= m.Stds.Data[i - 1] + 1e-9), "pca", "deviations are not sorted");
    for (int j = 0; j < mn; j++)
      mc::eq(v.at(i, j) / (r - 1), i == j ? m.Stds.Data[i] * m.Stds.Data[i] : 0, "pca", fmt("covariance of components %d and %d", i, j), 1e-8);
  }
  mc::eq(sum, tot, "pca", "total variance", 1e-8);
  if (tot > 1e-12) {
    double cum = 0;
    for (int i = 0; i < mn; i++) {
      mc::eq(m.Stds2Ratios.Data[i], m.Stds.Data[i] * m.Stds.Data[i] / sum, "pca", "share of variance", 1e-8);
    }
    for (double cut : {0.05, 0.5, 0.7, 0.95}) {
      int w = 0;
      cum = 0;
      bool close = false;
      while (w < mn && cum <= cut) {
        cum += m.Stds2Ratios.Data[w++];
        close |= std::fabs(cum - cut) < 1e-9;
      }
      if (!close)
        mc::eqi(m.GetCutoffColumn(cut), w, "pca", fmt("components for %g", cut));
    }
    rejects([&] { m.GetCutoffColumn(0); }, "a cutoff of zero");
    rejects([&] { m.GetCutoffColumn(1); }, "a cutoff of one");
  }
  if (pcs) {
    mc::eqi(m.PCs.RowsCount, r, "pca", "rows of the components");
    mc::eqi(m.PCs.ColsCount, k, "pca", "columns of the components");
    for (int i = 0; i < r; i++)
      for (int j = 0; j < k; j++)
        mc::eq(m.PCs.Get(i, j), p.at(i, j), "pca", fmt("component (%d,%d)", i, j), 1e-8);
  }
  if (f) {
    Ref zf(f, k);
    for (int i = 0; i < f; i++)
      for (int j = 0; j < k; j++) {
        int q = keep[j];
        zf.at(i, j) = x.at(i, q) - (cen ? mean[q] : 0);
        if (sca)
          zf.at(i, j) /= std::sqrt(var[q]);
      }
    Ref w = dot(zf, d.t());
    mc::eqi(m.Forecasts.RowsCount, f, "pca", "rows of the forecasts");
    mc::eqi(m.Forecasts.ColsCount, k, "pca", "columns of the forecasts");
    for (int i = 0; i < f; i++)
      for (int j = 0; j < k; j++)
        mc::eq(m.Forecasts.Get(i, j), w.at(i, j), "pca", fmt("forecast (%d,%d)", i, j), 1e-8);
  }
  mc::outcome(mc::hash_str(fmt("%.5g", sum)));
}
static void pcaopt() {
  int r = 4, ign = mc::choose(3), c = ign + 2;
  Ref a(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      a.at(i, j) = j < ign ? 10 * j + 1 : (i == 0 ? 0.0 : mc::pick({1.0, 2.5, -1.0}));
  int mode = mc::choose(4); // exact 1, exact 2, cutoff low, cutoff high with a maximum
  bool fc = mc::flip();
  PcaAnalysisOptions op;
  op.IgnoreFirstCount = ign;
  if (mode < 2)
    op.ExactCount = mode + 1;
  else {
    op.CutoffRate = mode == 2 ? 0.05 : 0.999;
    op.CutoffCountMax = mode == 2 ? 100000 : 1;
  }
  MC_CHECK(op.IsEnabled(), "pca-options", "not enabled");
  op.CheckValidity();
  mc::describe(fmt("pca options ignore=%d mode=%d forecast=%d ", ign, mode, fc) + a.str());
  for (int j = ign; j < c; j++) {
    bool cst = true;
    for (int i = 1; i < r; i++)
      cst &= a.at(i, j) == a.at(0, j);
    if (cst)
      return;
  }
  Ref x(2, c);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < c; j++)
      x.at(i, j) = j < ign ? 10 * j + 1 : 3 + i - j;
  Mat<> A(a), X(x), A0(a);
  PcaAnalysis m(r, c - ign, fc ? 2 : 0, true), m0(r, c - ign, fc ? 2 : 0, true);
  mc::Guard<double> st(m.StorageSize), wk(m.WorkSize), st0(m.StorageSize), wk0(m.WorkSize);
  Ref sub(r, 2), subx(2, 2);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < 2; j++)
      sub.at(i, j) = a.at(i, ign + j);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++)
      subx.at(i, j) = x.at(i, ign + j);
  Mat<> S(sub), SX(subx);
  m0.Calculate(S.m, wk0.p, st0.p, fc ? &SX.m : nullptr);
  op.CalculateForModel(m, A.m, wk.p, st.p, fc ? &X.m : nullptr);
  mc::step(2);
  int keep = mode == 1 ? 2 : 1;
  mc::eqi(A.m.RowsCount, r, "pca-options", "rows");
  mc::eqi(A.m.ColsCount, ign + keep, "pca-options", "columns");
  for (int i = 0; i < r; i++)
    for (int j = 0; j < ign + keep; j++)
      mc::eq(A.m.Get(i, j), j < ign ? a.at(i, j) : m0.PCs.Get(i, j - ign), "pca-options", fmt("data (%d,%d)", i, j), 1e-9);
  if (fc) {
    mc::eqi(X.m.RowsCount, 2, "pca-options", "rows of the forecast data");
    mc::eqi(X.m.ColsCount, ign + keep, "pca-options", "columns of the forecast data");
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < ign + keep; j++)
        mc::eq(X.m.Get(i, j), j < ign ? x.at(i, j) : m0.Forecasts.Get(i, j - ign), "pca-options", fmt("forecast data (%d,%d)", i, j), 1e-9);
  }
}

int main(int argc, char **argv) {
  return mc::harness_main(argc, argv, {
    {"c21_moments", array_moments, "all samples to length 4 (5) over 4 values and missing"},
    {"c21_weighted", array_weighted, "all samples to length 3 (4) over 3 values and missing x weights {0,.5,1,3}"},
    {"c21_array", array_descr, "all samples to length 4 (5) over 4 values and missing, all descriptive types"},
    {"c21_boxcox", boxcox, "5 values x 8 parameters"},
    {"c21_running1", running_body<1, true>, "all histories to 3 (4) pushes x weights x distributions over 3 parts, mean"},
    {"c21_running2", running_body<2, true>, "the same, two moments"},
    {"c21_running3", running_body<3, true>, "the same, three moments"},
    {"c21_running4", running_body<4, true>, "the same, four moments"},
    {"c21_running4u", running_body<4, false>, "the same, four moments without weights"},
    {"c21_given2", running_given<2>, "all sequences of 3 sets, given as data or as moments"},
    {"c21_given4", running_given<4>, "the same, four moments"},
    {"c21_descriptive", descriptive, "all vectors to length 4 (5) over 4 values"},
    {"c21_filters", filters, "lengths to 6, all coefficients to length 4 over 3 values"},
    {"c21_seasonal", seasonal, "two seasons x options x patterns"},
    {"c21_rank", rank, "all columns to length 5 over 3 values (ties)"},
    {"c21_correlation", correlation<false>, "all matrices to 4x2 and 2x3 (3x3) over 3 values, 4 kinds"},
    {"c21_correlation_nan", correlation<true>, "all matrices to 3x2 and 2x3 (3x3) over 3 values and missing, 4 kinds"},
    {"c21_pca22", [] { pca(2, 2, {0, 1, 3}); }, "all 2x2 over 3 values x options"},
    {"c21_pca32", [] { pca(3, 2, {0, 1, 3}); }, "all 3x2 over 3 values x options"},
    {"c21_pca23", [] { pca(2, 3, {0, 1, 3}); }, "all 2x3 over 3 values x options (fewer rows than columns)"},
    {"c21_pca33", [] { pca(3, 3, mc::thorough() ? Vec{0, 1, 3} : Vec{0, 1}); }, "all 3x3 over 2 (3) values x options"},
    {"c21_pcaopt", pcaopt, "all 4x2 data over 3 values x 4 option sets x ignored columns"},
  });
}
