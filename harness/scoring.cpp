// C17 (ROC and frequency cost) and C18 (weights, orientations, names, CRPS)
#include "array.h"
#include "clustering.h"
#include "correlation.h"
#include "frequency.h"
#include "mc.h"
#include "discrete_choice.h"
#include "scoring.h"
using namespace ldt;
using mc::fmt;
using std::string;
using std::vector;

// ------------------------------------------------------------------- C17 ---
typedef std::pair<double, double> Pt;
static const double levels[] = {0.1, 0.4, 0.9};

struct Case {
  int n;
  vector<double> y, s, w, c; // class, score of the negative class, weight, cost
};
static string show(const Case &k) {
  string o;
  for (int i = 0; i < k.n; i++)
    o += fmt("%s(y=%g s=%g w=%g c=%g)", i ? " " : "", k.y[i], k.s[i], k.w[i], k.c[i]);
  return o;
}

// Effective horizontal/vertical weight of an observation
struct Eff {
  double pos = 0, neg = 0;
};
static vector<Eff> effective(const Case &k, bool weighted, bool cost, const double *cm) {
  vector<Eff> e(k.n);
  for (int i = 0; i < k.n; i++) {
    double w = weighted ? k.w[i] : 1;
    double p = 1, q = 1;
    if (cost) {
      p = cm[0] * k.c[i] - cm[2];   // row 1: (TN.. as documented, column-major)
      q = cm[3] - cm[1] * k.c[i];
    }
    if (k.y[i] == 0)
      e[i].neg = w * q;
    else
      e[i].pos = w * p;
  }
  return e;
}
// concordance: probability that a positive has the lower negative-score
static double concordance(const Case &k, const vector<Eff> &e, bool pessimistic, double eps) {
  double num = 0, P = 0, N = 0;
  for (int i = 0; i < k.n; i++) {
    P += e[i].pos;
    N += e[i].neg;
    for (int j = 0; j < k.n; j++) {
      double m = e[i].pos * e[j].neg;
      if (m == 0)
        continue;
      double d = k.s[j] - k.s[i];
      if (std::fabs(d) <= eps)
        num += pessimistic ? 0 : m / 2;
      else if (d > 0)
        num += m;
    }
  }
  return num / (P * N);
}
// curve from thresholds, one at a time, then the clipped area of its graph
static vector<Pt> curve(const Case &k, const vector<Eff> &e, bool pessimistic, double eps) {
  vector<double> th(k.s);
  std::sort(th.begin(), th.end());
  double P = 0, N = 0;
  for (auto &x : e)
    P += x.pos, N += x.neg;
  vector<Pt> r{{0, 0}};
  for (size_t a = 0; a < th.size(); a++) {
    if (a + 1 < th.size() && th[a + 1] - th[a] <= eps)
      continue; // not the last of its group
    double p = 0, q = 0;
    for (int i = 0; i < k.n; i++)
      if (k.s[i] <= th[a]) {
        p += e[i].pos;
        q += e[i].neg;
      }
    if (pessimistic)
      r.push_back({q / N, r.back().second});
    r.push_back({q / N, p / P});
  }
  return r;
}
static double clipped(const vector<Pt> &c, double lo, double hi) {
  double area = 0;
  for (size_t i = 1; i < c.size(); i++) {
    double x0 = c[i - 1].first, x1 = c[i].first, y0 = c[i - 1].second, y1 = c[i].second;
    if (x1 <= x0)
      continue;
    double a = std::max(x0, lo), b = std::min(x1, hi);
    if (b <= a)
      continue;
    auto at = [&](double x) { return y0 + (y1 - y0) * (x - x0) / (x1 - x0); };
    area += (b - a) * (at(a) + at(b)) / 2;
  }
  return area / (hi - lo);
}

static std::unique_ptr<RocBase> roc(bool w, bool c, int n) {
  if (w && c) return std::unique_ptr<RocBase>(new ROC<true, true>(n));
  if (w) return std::unique_ptr<RocBase>(new ROC<true, false>(n));
  if (c) return std::unique_ptr<RocBase>(new ROC<false, true>(n));
  return std::unique_ptr<RocBase>(new ROC<false, false>(n));
}
static double run(RocBase &r, Case &k, bool weighted, const RocOptions &o) {
  Matrix<Tv> y(k.y.data(), k.n, 1), s(k.s.data(), k.n, 1), w(k.w.data(), k.n, 1);
  mc::step();
  r.Calculate(y, s, weighted ? &w : nullptr, o);
  return r.Result;
}

static void c17_roc(bool weighted, bool cost) {
  Case k;
  k.n = mc::range(1, weighted || cost ? mc::qt(4, 5) : mc::qt(6, 7));
  for (int i = 0; i < k.n; i++) {
    k.y.push_back(mc::choose(2));
    k.s.push_back(levels[mc::choose(3)]);
    k.w.push_back(weighted ? mc::pick({1.0, 2.5}) : 1.0);
    k.c.push_back(cost ? mc::pick({1.0, 3.0}) : 1.0);
  }
  double cm[4] = {1, -0.5, 0, 0}; // TP benefit c*1, FP cost c*.5
  int cmk = cost ? mc::choose(2) : 0;
  if (cmk == 1) {
    double v[4] = {2, 0.25, -1, 4};
    std::copy(v, v + 4, cm);
  }
  RocOptions o;
  o.Pessimistic = mc::flip();
  int mode = mc::choose(cost || weighted ? 4 : 6); // points, raw, partial bounds
  double lo = NAN, hi = NAN;
  o.NormalizePoints = mode != 1;
  if (mode >= 2) {
    static const double b[4][2] = {{0, 0.5}, {0.3, 1}, {0.25, 0.75}, {0, 1}};
    lo = b[mode - 2][0];
    hi = b[mode - 2][1];
    o.LowerThreshold = lo;
    o.UpperThreshold = hi;
  }
  vector<double> costs = k.c;
  if (cost) {
    o.CostMatrix.SetData(cm, 2, 2);
    bool unit = std::all_of(costs.begin(), costs.end(), [](double x) { return x == 1; });
    if (!unit || k.n % 2) // all ones may also be given as 'no costs'
      o.Costs.SetData(costs.data(), k.n, 1);
  }
  mc::describe(show(k) + fmt(" pess=%d mode=%d cm=%d", (int)o.Pessimistic, mode, cmk));
  auto e = effective(k, weighted, cost, cm);
  double P = 0, N = 0;
  for (auto &x : e)
    P += x.pos, N += x.neg;
  auto r = roc(weighted, cost, k.n);
  double got = run(*r, k, weighted, o);
  mc::state(mc::hash_str(mc::G().desc));
  if (P == 0 || N == 0)
    return; // not defined with one class only (it must only end)
  auto want = curve(k, e, o.Pessimistic, 0);
  double ref = mode >= 2 ? clipped(want, lo, hi) : concordance(k, e, o.Pessimistic, 0);
  mc::eq(got, ref, "auc", "area under the curve", 1e-12);
  mc::outcome((uint64_t)std::llround(got * 1e9));
  // the curve: starts at the origin, monotone, ends at (1,1) (or the totals)
  auto &p = r->Points;
  MC_CHECK(p.size() >= 2, "points-few", "only %d points", (int)p.size());
  double sx = mode == 1 ? N : 1, sy = mode == 1 ? P : 1;
  auto near = [&](size_t i, double x, double y) {
    return mc::close(std::get<0>(p[i]), x * sx, 1e-12) && mc::close(std::get<1>(p[i]), y * sy, 1e-12);
  };
  MC_CHECK(near(0, 0, 0) && near(p.size() - 1, 1, 1), "points-ends", "the curve does not join (0,0) and the end");
  for (size_t i = 1; i < p.size(); i++)
    MC_CHECK(std::get<0>(p[i]) >= std::get<0>(p[i - 1]) - 1e-12 && std::get<1>(p[i]) >= std::get<1>(p[i - 1]) - 1e-12,
             "points-monotone", "the curve falls at point %d", (int)i);
  // same graph: each reference vertex is on the reported polyline
  for (auto &v : want) {
    bool on = false;
    for (size_t i = 1; i < p.size() && !on; i++) {
      double x0 = std::get<0>(p[i - 1]) / sx, y0 = std::get<1>(p[i - 1]) / sy, x1 = std::get<0>(p[i]) / sx,
             y1 = std::get<1>(p[i]) / sy;
      double cross = (x1 - x0) * (v.second - y0) - (y1 - y0) * (v.first - x0);
      on = std::fabs(cross) < 1e-12 && v.first >= std::min(x0, x1) - 1e-12 && v.first <= std::max(x0, x1) + 1e-12 &&
           v.second >= std::min(y0, y1) - 1e-12 && v.second <= std::max(y0, y1) + 1e-12;
    }
    MC_CHECK(on, "points-missing", "point (%g,%g) is not on the curve", v.first, v.second);
  }
  // a monotone transformation changes nothing; neither does reusing the object
  Case t = k;
  for (auto &x : t.s)
    x = x * x * x + 2;
  mc::eq(run(*r, t, weighted, o), ref, "monotone", "after a monotone transformation", 1e-12);
  std::reverse(t.y.begin(), t.y.end());
  std::reverse(t.s.begin(), t.s.end());
  std::reverse(t.w.begin(), t.w.end());
  std::reverse(costs.begin(), costs.end());
  mc::eq(run(*r, t, weighted, o), ref, "permute", "after reversing the observations", 1e-12);
  if (!weighted) { // unit weights are no weights; equal weights are no weights
    std::reverse(costs.begin(), costs.end());
    auto r2 = roc(true, cost, k.n);
    mc::eq(run(*r2, k, true, o), ref, "unit-weight", "with unit weights", 1e-12);
    Case h = k;
    for (auto &x : h.w)
      x = 0.5;
    mc::eq(run(*r2, h, true, o), ref, "unit-weight", "with equal weights", 1e-12);
  }
}

static void c17_eps() {
  static const double lv[] = {0.2, 0.204, 0.5, 0.508, 0.8};
  Case k;
  k.n = mc::range(2, mc::qt(4, 5));
  for (int i = 0; i < k.n; i++) {
    k.y.push_back(mc::choose(2));
    k.s.push_back(lv[mc::choose(5)]);
    k.w.push_back(1);
    k.c.push_back(1);
  }
  RocOptions o;
  o.Epsilon = mc::pick({0.0, 0.006, 0.05});
  o.Pessimistic = mc::flip();
  mc::describe(show(k) + fmt(" eps=%g pess=%d", o.Epsilon, (int)o.Pessimistic));
  auto e = effective(k, false, false, nullptr);
  double P = 0, N = 0;
  for (auto &x : e)
    P += x.pos, N += x.neg;
  auto r = roc(false, false, k.n);
  double got = run(*r, k, false, o);
  mc::state(mc::hash_str(mc::G().desc));
  if (P == 0 || N == 0)
    return;
  mc::eq(got, concordance(k, e, o.Pessimistic, o.Epsilon), "auc-eps", "area with tolerance", 1e-12);
}

static void c17_reject() {
  Case k;
  k.n = 3;
  k.y = {0, 1, 0};
  k.s = {.1, .2, .3};
  k.w = {1, 1, 1};
  k.c = {1, 2, 1};
  double cm[6] = {1, -1, 0, 0, 0, 0};
  RocOptions o;
  bool cost = false;
  int c = mc::choose(9);
  switch (c) {
  case 0: o.LowerThreshold = -0.1; o.UpperThreshold = 1; break;
  case 1: o.LowerThreshold = 0; o.UpperThreshold = 1.01; break;
  case 2: o.LowerThreshold = 0.6; o.UpperThreshold = 0.5; break;
  case 3: cost = true; break; // no matrix
  case 4: cost = true; o.CostMatrix.SetData(cm, 2, 3); break;
  case 5: cost = true; o.CostMatrix.SetData(cm, 1, 2); break;
  case 6: cost = true; cm[0] = -1; o.CostMatrix.SetData(cm, 2, 2); break; // negative benefit
  case 7: cost = true; cm[1] = 1; o.CostMatrix.SetData(cm, 2, 2); break;  // negative cost
  case 8: k.n = 0; break;
  }
  mc::describe(fmt("invalid request %d", c));
  auto r = roc(false, cost, k.n);
  bool thrown = false;
  try {
    run(*r, k, false, o);
  } catch (std::exception &) {
    thrown = true;
  }
  MC_CHECK(thrown, "roc-accepts", "invalid request %d is accepted", c);
}

static void c17_cost(bool weighted) {
  int K = mc::range(2, 3);
  int n = mc::range(1, K == 2 ? mc::qt(4, 5) : mc::qt(3, 4));
  static const double prob[] = {0, 0.3, 0.5, 1.0};
  vector<double> y, w, pr;
  for (int i = 0; i < n; i++) {
    int a = mc::choose(K + 1);
    y.push_back(a == K ? NAN : a);
    pr.push_back(prob[mc::choose(4)]);
    w.push_back(weighted ? mc::pick({1.0, 3.0}) : 1);
  }
  // probabilities of the actual class as chosen, the others distinct
  vector<double> sc(n * K);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < K; j++)
      sc[i + n * j] = j == (std::isnan(y[i]) ? 0 : (int)y[i]) ? pr[i] : 0.011 * (j + 1);
  // cost tables (column-major): thresholds, then one column per class
  int nt = mc::range(1, 2);
  vector<vector<double>> tab;
  vector<int> rows;
  {
    vector<double> t{0.3, 0.5, 0.9};
    for (int j = 0; j < K; j++)
      for (int i = 0; i < 3; i++)
        t.push_back((i + 1) * 1.5 * (j + 1) - (i == 1 && j == 0 ? 3 : 0));
    tab.push_back(t);
    rows.push_back(3);
    vector<double> u{0.4, 1};
    for (int j = 0; j < K; j++) {
      u.push_back(1 + j);
      u.push_back(0);
    }
    tab.push_back(u);
    rows.push_back(2);
  }
  bool swap = mc::flip();
  if (swap) {
    std::swap(tab[0], tab[1]);
    std::swap(rows[0], rows[1]);
  }
  vector<Matrix<Tv>> costs;
  for (int t = 0; t < nt; t++) {
    costs.push_back(Matrix<Tv>(tab[t].data(), rows[t], K + 1));
    FrequencyCost<false>::Check(costs[t], K);
  }
  mc::describe(fmt("K=%d y=[%s] p=[%s] w=[%s] tables=%d swap=%d", K, mc::join(y).c_str(), mc::join(pr).c_str(),
                   mc::join(w).c_str(), nt, (int)swap));
  mc::state(mc::hash_str(mc::G().desc));
  vector<double> sum(nt, 0), cnt(nt, 0);
  for (int i = 0; i < n; i++) {
    if (std::isnan(y[i]))
      continue;
    for (int t = 0; t < nt; t++) {
      int r = rows[t] - 1;
      for (int q = rows[t] - 1; q >= 0; q--)
        if (pr[i] <= tab[t][q])
          r = q;
      sum[t] += w[i] * tab[t][r + rows[t] * ((int)y[i] + 1)];
      cnt[t] += w[i];
    }
  }
  FrequencyCost<true> fw(nt);
  FrequencyCost<false> fu(nt);
  FrequencyCostBase &f = weighted ? (FrequencyCostBase &)fw : fu;
  mc::Guard<double> st(f.StorageSize);
  Matrix<Tv> my(y.data(), n, 1), ms(sc.data(), n, K), mw(w.data(), n, 1);
  mc::step();
  f.Calculate(costs, my, ms, weighted ? &mw : nullptr, st.p);
  double avg = 0;
  for (int t = 0; t < nt; t++) {
    mc::eq(f.CostSums.Data[t], sum[t], "cost-sum", fmt("sum of costs of table %d", t), 1e-12);
    mc::eq(f.CostCounts.Data[t], cnt[t], "cost-count", fmt("sum of weights of table %d", t), 1e-12);
    avg += sum[t] / cnt[t] / nt;
  }
  mc::eq(f.AverageRatio, avg, "cost-average", "average cost", 1e-12);
  mc::outcome((uint64_t)std::llround(avg * 1e9));
}

static void c17_costcheck() {
  int K = mc::range(2, 3), rows = mc::range(1, 3), cols = mc::range(K, K + 2);
  static const double th[] = {-0.1, 0, 0.5, 1, 1.1};
  vector<double> d(rows * cols, 1.0);
  bool ok = rows >= 2 && cols == K + 1;
  string ts;
  for (int i = 0; i < rows; i++) {
    d[i] = th[mc::choose(5)];
    ts += fmt(" %g", d[i]);
    if (d[i] < 0 || d[i] > 1 || (i && d[i] <= d[i - 1]))
      ok = false;
  }
  mc::describe(fmt("K=%d rows=%d cols=%d thresholds%s", K, rows, cols, ts.c_str()));
  bool thrown = false;
  try {
    FrequencyCost<false>::Check(Matrix<Tv>(d.data(), rows, cols), K);
  } catch (std::exception &) {
    thrown = true;
  }
  mc::step();
  MC_CHECK(thrown == !ok, "cost-check", "table is %s", thrown ? "rejected" : "accepted");
  thrown = false;
  try {
    FrequencyCost<true>::Check(Matrix<Tv>(d.data(), rows, cols), K);
  } catch (std::exception &) {
    thrown = true;
  }
  MC_CHECK(thrown == !ok, "cost-check", "table is %s (weighted)", thrown ? "rejected" : "accepted");
}

// ------------------------------------------------------------------- C18 ---
static const vector<GoodnessOfFitType> gof{GoodnessOfFitType::kAic, GoodnessOfFitType::kSic,
                                           GoodnessOfFitType::kFrequencyCost, GoodnessOfFitType::kAuc,
                                           GoodnessOfFitType::kBrier};
static const vector<ScoringType> sct{ScoringType::kDirection, ScoringType::kSign,  ScoringType::kMae,
                                     ScoringType::kMape,      ScoringType::kRmse,  ScoringType::kRmspe,
                                     ScoringType::kCrps,      ScoringType::kFrequencyCost,
                                     ScoringType::kAuc,       ScoringType::kBrier};
static const double met[] = {0, 0.01, 0.25, 0.5, 0.75, 1, 2.5, -3, 40};
template <class H, class T> static void weights(const vector<T> &types, bool wantPos(T)) {
  T t = mc::pick(types);
  double a = met[mc::choose(9)], b = met[mc::choose(9)], mn = mc::pick({0.0, 1.5, -100.0});
  mc::describe(fmt("%s a=%g b=%g min=%g", ToString(t), a, b, mn));
  mc::step(2);
  double wa = H::ToWeight(t, a, mn), wb = H::ToWeight(t, b, mn);
  mc::eq(H::FromWeight(t, wa, mn), a, "weight-inverse", "metric from its weight", 1e-9);
  bool pos = H::IsPositiveOriented(t);
  MC_CHECK(pos == wantPos(t), "orientation", "%s reported as %s", ToString(t), pos ? "positive" : "negative");
  if (a != b) {
    bool better = pos ? a > b : a < b;
    MC_CHECK(better ? wa > wb : wa < wb, "weight-order", "better metric gets weight %g, worse %g", better ? wa : wb,
             better ? wb : wa);
  }
  mc::state(mc::mix((uint64_t)t, (uint64_t)std::llround(wa * 1e6)));
}
// orientation by definition: shares of correct signs and areas grow, losses fall
static bool posS(ScoringType t) {
  return t == ScoringType::kDirection || t == ScoringType::kSign || t == ScoringType::kAuc;
}
static bool posG(GoodnessOfFitType t) { return t == GoodnessOfFitType::kAuc; }

template <class T> struct Name {
  const char *text;
  T value;
};
template <class T> static void names(T from(const char *), const vector<Name<T>> &t, const vector<const char *> &bad) {
  int i = mc::choose((int)(t.size() + bad.size()));
  if (i < (int)t.size()) {
    mc::describe(fmt("name '%s'", t[i].text));
    bool thrown = false;
    T v = T();
    mc::step();
    try {
      v = from(t[i].text);
    } catch (std::exception &) {
      thrown = true;
    }
    MC_CHECK(!thrown, "name-rejected", "name '%s' is rejected", t[i].text);
    MC_CHECK(v == t[i].value, "name-option", "name '%s' selects option %d", t[i].text, (int)v);
  } else {
    auto s = bad[i - t.size()];
    mc::describe(fmt("unknown name '%s'", s));
    bool thrown = false;
    mc::step();
    try {
      from(s);
    } catch (std::exception &) {
      thrown = true;
    }
    MC_CHECK(thrown, "name-accepted", "unknown name '%s' is accepted", s);
  }
}
// text of every option selects that option again (lower-cased as documented)
template <class T> static void back(T from(const char *), const vector<T> &all, const char *text(T)) {
  T v = mc::pick(all);
  string s = text(v);
  s = s.substr(0, s.find(" (")); // the part in brackets is an explanation
  for (auto &c : s)
    c = (char)tolower(c);
  mc::describe("text '" + s + "'");
  mc::step();
  T u = T();
  bool thrown = false;
  try {
    u = from(s.c_str());
  } catch (std::exception &) {
    thrown = true;
  }
  MC_CHECK(!thrown && u == v, "text-back", "text '%s' of option %d selects %d%s", s.c_str(), (int)v, (int)u,
           thrown ? " (rejected)" : "");
}
static const vector<const char *> bad{"", "x", "zzz", "1", " ", "~"};

static void c18_names() {
  switch (mc::choose(18)) {
  case 0:
    return names<ScoringType>(FromString_ScoringType,
                              {{"direction", ScoringType::kDirection}, {"dir", ScoringType::kDirection},
                               {"sign", ScoringType::kSign}, {"mae", ScoringType::kMae}, {"mape", ScoringType::kMape},
                               {"rmse", ScoringType::kRmse}, {"rmspe", ScoringType::kRmspe},
                               {"crps", ScoringType::kCrps}, {"frequencyCost", ScoringType::kFrequencyCost},
                               {"frequencyCostOut", ScoringType::kFrequencyCost}, {"auc", ScoringType::kAuc},
                               {"aucOut", ScoringType::kAuc}, {"brier", ScoringType::kBrier},
                               {"brierOut", ScoringType::kBrier}},
                              bad);
  case 1:
    return names<GoodnessOfFitType>(
        FromString_GoodnessOfFitType,
        {{"aic", GoodnessOfFitType::kAic}, {"sic", GoodnessOfFitType::kSic}, {"auc", GoodnessOfFitType::kAuc},
         {"aucIn", GoodnessOfFitType::kAuc}, {"brier", GoodnessOfFitType::kBrier},
         {"brierIn", GoodnessOfFitType::kBrier}, {"frequencyCost", GoodnessOfFitType::kFrequencyCost},
         {"frequencyCostIn", GoodnessOfFitType::kFrequencyCost}},
        bad);
  case 2:
    return names<DistanceMethod>(FromString_DistanceMethod,
                                 {{"euclidean", DistanceMethod::kEuclidean}, {"manhattan", DistanceMethod::kManhattan},
                                  {"maximum", DistanceMethod::kMaximum}, {"correlation", DistanceMethod::kCorrelation},
                                  {"absCorrelation", DistanceMethod::kAbsCorrelation}},
                                 bad);
  case 3:
    return names<HClusterLinkage>(
        FromString_HClusterLinkage,
        {{"single", HClusterLinkage::kSingle}, {"complete", HClusterLinkage::kComplete},
         {"uaverage", HClusterLinkage::kAverageU}, {"waverage", HClusterLinkage::kAverageW},
         {"averageU", HClusterLinkage::kAverageU}, {"averageW", HClusterLinkage::kAverageW},
         {"upgma", HClusterLinkage::kAverageU}, {"wpgma", HClusterLinkage::kAverageW}, {"ward", HClusterLinkage::kWard}},
        bad);
  case 4:
    return names<CorrelationMethod>(
        FromString_CorrelationMethod,
        {{"pearson", CorrelationMethod::kPearson}, {"spearman", CorrelationMethod::kSpearman}}, bad);
  case 5:
    return names<DiscreteChoiceDistType>(
        FromString_DiscreteChoiceDistType,
        {{"logit", DiscreteChoiceDistType::kLogit}, {"probit", DiscreteChoiceDistType::kProbit}}, bad);
  case 6:
    return names<DiscreteChoiceModelType>(
        FromString_DiscreteChoiceModelType,
        {{"binary", DiscreteChoiceModelType::kBinary}, {"ordered", DiscreteChoiceModelType::kOrdered}}, bad);
  case 7:
    return names<FunctionType>(FromString_FunctionType,
                               {{"id", FunctionType::kId}, {"pow2", FunctionType::kPow2}, {"pow3", FunctionType::kPow3},
                                {"pow4", FunctionType::kPow4}, {"exp", FunctionType::kExp}, {"log", FunctionType::kLog},
                                {"log10", FunctionType::kLog10}, {"sqrt", FunctionType::kSqrt},
                                {"sin", FunctionType::kSin}, {"cos", FunctionType::kCos}, {"tan", FunctionType::kTan},
                                {"asin", FunctionType::kAsin}, {"acos", FunctionType::kAcos},
                                {"atan", FunctionType::kAtan}, {"sinh", FunctionType::kSinh},
                                {"cosh", FunctionType::kCosh}, {"tanh", FunctionType::kTanh},
                                {"abs", FunctionType::kAbs}, {"ceil", FunctionType::kCeil},
                                {"floor", FunctionType::kFloor}},
                               bad);
  case 8:
    return names<DescriptiveType>(
        FromString_DescriptiveType,
        {{"min", DescriptiveType::kMin}, {"max", DescriptiveType::kMax}, {"mean", DescriptiveType::kMean},
         {"average", DescriptiveType::kMean}, {"variance", DescriptiveType::kVariance},
         {"variancepop", DescriptiveType::kVariancePop}, {"std", DescriptiveType::kStd},
         {"stdpop", DescriptiveType::kStdPop}, {"skewness", DescriptiveType::kSkewness},
         {"skewnesspop", DescriptiveType::kSkewnessPop}, {"kurtosis", DescriptiveType::kKurtosis},
         {"kurtosispop", DescriptiveType::kKurtosisPop}, {"last", DescriptiveType::kLast},
         {"first", DescriptiveType::kFirst}},
        bad);
  case 9:
    return names<DayOfWeek>(FromString_DayOfWeek,
                            {{"sun", DayOfWeek::kSun}, {"mon", DayOfWeek::kMon}, {"tue", DayOfWeek::kTue},
                             {"wed", DayOfWeek::kWed}, {"thu", DayOfWeek::kThu}, {"fri", DayOfWeek::kFri},
                             {"sat", DayOfWeek::kSat}},
                            {"xun", "1", "??"});
  case 10:
    return back<ScoringType>(FromString_ScoringType, sct, [](ScoringType t) { return ToString(t, true); });
  case 11:
    return back<GoodnessOfFitType>(FromString_GoodnessOfFitType, gof,
                                   [](GoodnessOfFitType t) { return ToString(t, true); });
  case 12:
    return back<DistanceMethod>(FromString_DistanceMethod,
                                {DistanceMethod::kEuclidean, DistanceMethod::kManhattan, DistanceMethod::kMaximum,
                                 DistanceMethod::kCorrelation, DistanceMethod::kAbsCorrelation},
                                [](DistanceMethod t) { return ToString(t); });
  case 13:
    return back<HClusterLinkage>(FromString_HClusterLinkage,
                                 {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU,
                                  HClusterLinkage::kAverageW, HClusterLinkage::kWard},
                                 [](HClusterLinkage t) { return ToString(t); });
  case 14:
    return back<CorrelationMethod>(FromString_CorrelationMethod,
                                   {CorrelationMethod::kPearson, CorrelationMethod::kSpearman},
                                   [](CorrelationMethod t) { return ToString(t); });
  case 15:
    return back<DiscreteChoiceDistType>(FromString_DiscreteChoiceDistType,
                                        {DiscreteChoiceDistType::kLogit, DiscreteChoiceDistType::kProbit},
                                        [](DiscreteChoiceDistType t) { return ToString(t); });
  case 16:
    return back<DiscreteChoiceModelType>(FromString_DiscreteChoiceModelType,
                                         {DiscreteChoiceModelType::kBinary, DiscreteChoiceModelType::kOrdered},
                                         [](DiscreteChoiceModelType t) { return ToString(t); });
  case 17:
    return back<DayOfWeek>(FromString_DayOfWeek,
                           {DayOfWeek::kSun, DayOfWeek::kMon, DayOfWeek::kTue, DayOfWeek::kWed, DayOfWeek::kThu,
                            DayOfWeek::kFri, DayOfWeek::kSat},
                           [](DayOfWeek t) { return ToString(t, true); });
  }
}

// CRPS = integral of (F(x) - 1[x >= y])^2, by composite Simpson over the support
template <class F> static double simpson(F f, double a, double b, int n) {
  double h = (b - a) / n, s = f(a) + f(b);
  for (int i = 1; i < n; i++)
    s += f(a + i * h) * (i % 2 ? 4 : 2);
  return s * h / 3;
}
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static void c18_crps() {
  bool log = mc::flip();
  double m = mc::pick({-1.5, 0.0, 0.4, 2.0}), s = mc::pick({0.1, 0.5, 1.0, 1.7});
  double z = mc::pick({-3.0, -1.0, -0.2, 0.0, 0.3, 1.0, 2.5});
  if (!log) {
    double y = m + s * z;
    mc::describe(fmt("normal y=%g mean=%g std=%g", y, m, s));
    auto F = [&](double x) { return Phi((x - m) / s); };
    double ref = simpson([&](double x) { double f = F(x); return f * f; }, m - 12 * s, y, 4000) +
                 simpson([&](double x) { double f = 1 - F(x); return f * f; }, y, m + 12 * s, 4000);
    mc::step();
    mc::eq(Scoring::GetScoreCrpsNormal(y, m, s), ref, "crps-normal", "score", 1e-7);
    mc::eq(Scoring::GetScoreCrpsNormal(y, m, 0), std::fabs(y - m), "crps-point", "score of a point forecast", 1e-12);
  } else {
    double y = std::exp(m + s * z);
    mc::describe(fmt("log-normal y=%g meanlog=%g stdlog=%g", y, m, s));
    // substitute x = exp(m + s u)
    auto g = [&](double u) { return s * std::exp(m + s * u); };
    double ref = simpson([&](double u) { double f = Phi(u); return f * f * g(u); }, -14, z, 6000) +
                 simpson([&](double u) { double f = Phi(-u); return f * f * g(u); }, z, 14, 6000);
    mc::step();
    mc::eq(Scoring::GetScoreCrpsLogNormal(y, m, s), ref, "crps-lognormal", "score", 1e-6);
  }
  mc::state(mc::hash_str(mc::G().desc));
}

int main(int argc, char **argv) {
  vector<mc::Scenario> s;
  s.push_back({"c17_roc", [] { c17_roc(false, false); },
               "all samples of 1..6 (7) observations with 2 classes and 3 score levels x pessimistic x 6 area requests"});
  s.push_back({"c17_roc_w", [] { c17_roc(true, false); },
               "all samples of 1..4 (5) observations x 2 weights x pessimistic x 4 area requests"});
  s.push_back({"c17_roc_c", [] { c17_roc(false, true); },
               "all samples of 1..4 (5) observations x 2 costs x 2 cost matrices x pessimistic x 4 area requests"});
  s.push_back({"c17_roc_wc", [] { c17_roc(true, true); },
               "all samples of 1..4 (5) observations x 2 weights x 2 costs x 2 cost matrices", true});
  s.push_back({"c17_eps", c17_eps, "all samples of 2..4 (5) observations over 5 scores x 3 tolerances x pessimistic"});
  s.push_back({"c17_reject", c17_reject, "9 kinds of invalid requests"});
  s.push_back({"c17_cost", [] { c17_cost(false); },
               "all samples of 1..4 (5) observations, 2-3 classes, missing labels, 4 probabilities x 2 sets of tables"});
  s.push_back({"c17_cost_w", [] { c17_cost(true); }, "as c17_cost with 2 weights"});
  s.push_back({"c17_costcheck", c17_costcheck, "all tables of 1..3 rows with 5 thresholds each x 3 widths"});
  s.push_back({"c18_gof", [] { weights<GoodnessOfFit, GoodnessOfFitType>(gof, posG); },
               "all in-sample metrics x 81 pairs of values x 3 reference minima"});
  s.push_back({"c18_score", [] { weights<Scoring, ScoringType>(sct, posS); },
               "all out-of-sample metrics x 81 pairs of values x 3 reference minima"});
  s.push_back({"c18_names", c18_names, "every documented name and text of every option table, 6 unknown names each"});
  s.push_back({"c18_crps", c18_crps, "4 means x 4 deviations x 7 observations, normal and log-normal"});
  return mc::harness_main(argc, argv, s);
}
