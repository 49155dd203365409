// C01 which models a search visits, C03 best lists, C04 summaries,
// C05 failing models, C06 cancellation - on the library's own search classes
#include "searchkit.h"
#include "distributions.h"
using namespace kit;
using namespace mc;

// ------------------------------------------------------------------- C01 ---
static string show(const vector<vector<Ti>> &v) {
  string s;
  for (auto &a : v)
    s += "{" + join(a) + "}";
  return s;
}

// all ways to take one item from each of `size` groups (indices ascending),
// the first `fix` groups always taken
static void admissible(const vector<vector<Ti>> &groups, int size, int fix,
                       const std::function<bool(const vector<Ti> &)> &ok,
                       vector<vector<Ti>> &out) {
  int n = (int)groups.size();
  for (int mask = 0; mask < (1 << n); mask++) {
    if (__builtin_popcount(mask) != size)
      continue;
    bool good = true;
    for (int i = 0; i < fix; i++)
      if (!(mask >> i & 1))
        good = false;
    if (!good)
      continue;
    vector<vector<Ti>> part = {{}};
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) {
        vector<vector<Ti>> next;
        for (auto &p : part)
          for (auto v : groups[i]) {
            auto q = p;
            q.push_back(v);
            next.push_back(q);
          }
        part = next;
      }
    for (auto &p : part)
      if (ok(p))
        out.push_back(p);
  }
}

static vector<vector<Ti>> drawGroups(int maxGroups, int maxSize, int layouts,
                                     int &total) {
  int g = range(1, maxGroups);
  vector<vector<Ti>> groups(g);
  vector<int> sizes;
  total = 0;
  for (int i = 0; i < g; i++) {
    sizes.push_back(range(1, maxSize));
    total += sizes.back();
  }
  int layout = choose(layouts);
  if (layout == 0) { // one after the other
    int k = 0;
    for (int i = 0; i < g; i++)
      for (int j = 0; j < sizes[i]; j++)
        groups[i].push_back(k++);
  } else if (layout == 1) { // last group holds the first columns
    int k = 0;
    for (int i = g - 1; i >= 0; i--)
      for (int j = 0; j < sizes[i]; j++)
        groups[i].push_back(k++);
  } else { // dealt round
    int k = 0;
    for (int j = 0; k < total; j++)
      for (int i = 0; i < g; i++)
        if (j < sizes[i])
          groups[i].push_back(k++);
  }
  return groups;
}

static void c01_case(bool fixItems) {
  Bench b;
  int total;
  auto groups = drawGroups(qt(4, 5), 3, fixItems ? 1 : 3, total);
  int size = range(1, (int)groups.size());
  int fix = range(0, size);
  bool needTarget = fixItems ? false : flip();
  int targets = needTarget ? range(1, total) : 1;
  int fi = fixItems ? range(1, total) : 0;
  describe(fmt("groups=%s size=%d fixedGroups=%d fixedItems=%d targets=%d",
               show(groups).c_str(), size, fix, fi, needTarget ? targets : 0));
  b.comb.Partitions = groups;
  b.comb.NumFixPartitions = fix;
  b.comb.NumFixItems = fi;
  b.comb.Sizes = {size};
  b.items.LengthEvals = 1;
  b.items.LengthTargets = targets;
  b.metrics.MetricsIn = {GoodnessOfFitType::kAic};
  b.metrics.Update(true, false);
  vector<vector<Ti>> want;
  admissible(groups, size, fix,
             [&](const vector<Ti> &c) {
               if (fi > 0 && c[0] >= fi)
                 return false;
               if (needTarget) {
                 for (auto v : c)
                   if (v < targets)
                     return true;
                 return false;
               }
               return true;
             },
             want);
  Recorder s(b.data, b.comb, b.options, b.items, b.metrics, b.checks, size,
             needTarget);
  long expected = s.GetCount();
  s.Start(nullptr, nullptr);
  vector<vector<Ti>> got = s.seen;
  state(show(groups) + fmt("/%d/%d/%d/%d", size, fix, fi, targets));
  if (needTarget) // targets are the first variables of a model
    for (auto &m : got) {
      bool other = false;
      for (auto v : m) {
        MC_CHECK(!(v < targets && other), "targets-first",
                 "model {%s}: a target follows other variables",
                 join(m).c_str());
        if (v >= targets)
          other = true;
      }
    }
  for (auto &m : got)
    std::sort(m.begin(), m.end());
  for (auto &m : want)
    std::sort(m.begin(), m.end());
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  outcome(hash_str(show(want)));
  for (size_t i = 1; i < got.size(); i++)
    MC_CHECK(got[i] != got[i - 1], "repeated", "model {%s} evaluated twice",
             join(got[i]).c_str());
  for (auto &m : got)
    MC_CHECK(std::binary_search(want.begin(), want.end(), m), "inadmissible",
             "model {%s} was evaluated", join(m).c_str());
  for (auto &m : want)
    MC_CHECK(std::binary_search(got.begin(), got.end(), m), "missing",
             "model {%s} was not evaluated", join(m).c_str());
  eqi(s.Counter, (long)want.size(), "counter", "number of searched models");
  eqi(expected, (long)want.size(), "expected-count",
      "announced number of models");
}
static void c01_visit() { c01_case(false); }
static void c01_fixitems() { c01_case(true); }

static void c01_errors() { // impossible settings are refused
  Bench b;
  int g = range(1, 3), size = range(1, 5), fix = range(0, 5);
  describe(fmt("groups=%d size=%d fixed=%d", g, size, fix));
  for (int i = 0; i < g; i++)
    b.comb.Partitions.push_back({i});
  b.comb.NumFixPartitions = fix;
  b.items.LengthEvals = 1;
  b.metrics.MetricsIn = {GoodnessOfFitType::kAic};
  b.metrics.Update(true, false);
  bool refused = false;
  long seen = -1;
  try {
    Recorder s(b.data, b.comb, b.options, b.items, b.metrics, b.checks, size,
               false);
    s.Start(nullptr, nullptr);
    seen = (long)s.seen.size();
  } catch (std::exception &) {
    refused = true;
  }
  MC_CHECK(refused == (size > g || fix > size), "refusal",
           "refused=%d (models seen: %ld)", refused, seen);
}

// a model set: all sizes x all inner groups
static void c01_modelset() {
  Bench b;
  int total;
  auto groups = drawGroups(3, 2, 1, total);
  int g = (int)groups.size();
  vector<int> sizes;
  for (int s = 1; s <= g; s++)
    if (flip())
      sizes.push_back(s);
  int inner = range(1, 3);
  bool innerExo = flip();
  int fix = range(0, 1);
  if (sizes.empty())
    return;
  describe(fmt("groups=%s sizes=%s inner=%d innerExo=%d fix=%d",
               show(groups).c_str(), join(sizes).c_str(), inner, innerExo,
               fix));
  b.comb.Partitions = groups;
  b.comb.NumFixPartitions = fix;
  b.items.LengthEvals = 1;
  b.items.LengthTargets = 1;
  b.items.KeepAll = true;
  b.metrics.MetricsIn = {GoodnessOfFitType::kAic};
  b.metrics.Update(true, false);
  b.data.NumEndo = 10;
  b.data.NumExo = 10;
  vector<std::unique_ptr<Scripted>> own;
  vector<Searcher *> list;
  vector<string> want;
  Out o;
  o.metrics = {1};
  for (auto s : sizes)
    for (int k = 0; k < inner; k++) {
      vector<Ti> in;
      if (innerExo)
        in = {10 + k};
      else {
        in = {0};
        for (int j = 1; j <= k; j++)
          in.push_back(j);
      }
      own.emplace_back(new Scripted(b.data, b.comb, b.options, b.items,
                                    b.metrics, b.checks, s, innerExo, in));
      own.back()->script.assign(1000, o);
      list.push_back(own.back().get());
      vector<vector<Ti>> w;
      admissible(groups, s, fix,
                 [&](const vector<Ti> &c) {
                   return !innerExo || *std::min_element(c.begin(), c.end()) < 1;
                 },
                 w);
      for (auto &m : w) {
        std::sort(m.begin(), m.end());
        want.push_back(innerExo ? join(m) + "|" + join(in)
                                : join(in) + "|" + join(m));
      }
    }
  ModelSet set(list, b.data, b.comb, b.options, b.items, b.metrics, b.checks);
  set.ShuffleSearchers = false;
  long exp = set.GetExpectedNumberOfModels();
  set.Start(nullptr, nullptr);
  eqi(exp, (long)want.size(), "expected-count", "announced number of models");
  eqi(set.GetNumberOfEstimatedModels(), (long)want.size(), "counter",
      "number of searched models");
  vector<SearcherSummary *> l0, l1, l2;
  SearcherModelingInfo info;
  set.CombineInfo(info, l0, l1, l2);
  eqi(info.ExpectedCount, (long)want.size(), "info-expected", "expectedCount");
  eqi(info.SearchedCount, (long)want.size(), "info-searched", "searchedCount");
  vector<std::shared_ptr<EstimationKeep>> all;
  set.CombineAll(0, 0, 0, l0, all);
  vector<string> got;
  for (auto &e : all) {
    auto en = e->Endogenous, ex = e->Exogenouses;
    std::sort(en.begin(), en.end());
    std::sort(ex.begin(), ex.end());
    got.push_back(join(en) + "|" + join(ex));
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  state(hash_str(join(want)));
  eqs(join(got, " "), join(want, " "), "models", "evaluated models");
}

// --------------------------------------------- scripted searches, C03..C06 --
// metric value tables: chosen so that weights tie, vanish or overflow
static const vector<double> &values(int table) {
  static const vector<vector<double>> t = {
      {1, 2, 3, 4},
      {0.25, 0.5, 0.75, 1.0},
      {3000, 3001, 3001.5, 5000}, // exp(-x/2) underflows
      {-4000, -3000, -2000, 7},   // exp(-x/2) overflows
      {0, 1e-9, 2e-9, -1e-9},
  };
  return t[table];
}

static void c03_best() {
  Rig r;
  int which = choose(5);
  bool pos = which == 0; // AUC
  r.b.metrics.MetricsIn = {};
  switch (which) {
  case 0:
    r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
    break;
  case 1:
    r.b.metrics.MetricsIn = {GoodnessOfFitType::kAic};
    break;
  case 2:
    r.b.metrics.MetricsIn = {GoodnessOfFitType::kFrequencyCost};
    break;
  case 3:
    r.b.metrics.MetricsOut = {ScoringType::kRmspe};
    break;
  case 4:
    r.b.metrics.MetricsOut = {ScoringType::kDirection};
    pos = true;
    break;
  }
  r.b.metrics.SimFixSize = 1;
  r.b.metrics.TrainRatio = 0.5;
  r.b.metrics.Update(true, false);
  int tab = which == 0 || which == 2 || which == 4 ? 1 : choose(5);
  auto &vals = values(tab);
  int nparts = range(1, qt(2, 3));
  int n = range(nparts, qt(5, 6));
  int k = range(1, qt(3, 4));
  vector<vector<Out>> parts(nparts);
  vector<int> left; // sizes of the parts: a composition of n
  {
    int rem = n;
    for (int i = 0; i < nparts; i++) {
      int c = i == nparts - 1 ? rem : range(1, rem - (nparts - 1 - i));
      left.push_back(c);
      rem -= c;
    }
  }
  vector<double> metrics;
  string d;
  for (int i = 0; i < nparts; i++) {
    for (int j = 0; j < left[i]; j++) {
      Out o;
      double m = vals[choose(qt(3, 4))];
      o.metrics = {m};
      metrics.push_back(m);
      parts[i].push_back(o);
      d += fmt("%g ", m);
    }
    d += "| ";
  }
  describe(fmt("metric=%d K=%d values: %s", which, k, d.c_str()));
  r.b.items.KeepBestCount = k;
  r.b.items.LengthEvals = 1;
  r.b.items.KeepAll = true;
  r.start(parts);
  r.run();
  vector<std::shared_ptr<EstimationKeep>> best;
  r.set->CombineBests(0, 0, 0, r.l0, best);
  vector<double> want = metrics;
  std::sort(want.begin(), want.end());
  if (pos)
    std::reverse(want.begin(), want.end());
  want.resize(std::min((int)want.size(), k));
  state(hash_str(d) + k);
  outcome(hash_str(join(want)));
  eqi((long)best.size(), (long)want.size(), "count", "length of the best list");
  for (size_t i = 0; i < want.size(); i++)
    eq(best[i]->Metric, want[i], "order", fmt("best item %d", (int)i));
  std::set<string> ids;
  for (auto &e : best) {
    string id = join(e->Endogenous) + "|" + join(e->Exogenouses);
    MC_CHECK(ids.insert(id).second, "distinct", "model %s listed twice",
             id.c_str());
    int part = e->Endogenous.size() == 1 ? 0 : e->Endogenous.at(1);
    int mod = e->Exogenouses.at(0) - r.b.data.NumEndo;
    eq(parts.at(part).at(mod).metrics[0], e->Metric, "metric-of-model",
       "metric recorded for model " + id);
  }
}

// coefficient best lists (third index), several metrics and parameters
static void c03_params() {
  Rig r;
  r.b.metrics.MetricsIn = {GoodnessOfFitType::kAic, GoodnessOfFitType::kAuc};
  r.b.metrics.Update(true, false);
  int n = range(1, 4);
  int k = range(1, 2);
  vector<vector<Out>> parts(2);
  string d;
  vector<Out> all;
  for (int i = 0; i < n; i++) {
    Out o;
    int bits = choose(4);
    o.metrics = {1.0 + (bits & 1), 0.5 + 0.25 * (bits >> 1)};
    int miss = choose(2);
    o.means = {miss ? NAN : 10.0 + i, 20.0 + i};
    o.vars = {1.0 + i, 2.0 + i};
    parts[flip()].push_back(o);
    all.push_back(o);
    d += fmt("(%g,%g,%s)", o.metrics[0], o.metrics[1], miss ? "-" : "x");
  }
  describe(fmt("K=%d %s parts %d/%d", k, d.c_str(), (int)parts[0].size(),
               (int)parts[1].size()));
  vector<vector<Out>> used;
  for (auto &p : parts)
    if (!p.empty())
      used.push_back(p);
  r.b.items.KeepBestCount = k;
  r.b.items.LengthEvals = 2;
  r.b.items.Length1 = 2;
  r.start(used);
  r.run();
  state(hash_str(d) + k);
  for (int e = 0; e < 2; e++)
    for (int p = 0; p < 2; p++) {
      vector<std::shared_ptr<EstimationKeep>> best;
      r.set->CombineBests(e, 0, p, r.l1, best);
      vector<double> want;
      for (auto &o : all)
        if (!std::isnan(o.means[p]))
          want.push_back(o.metrics[e]);
      std::sort(want.begin(), want.end());
      if (e == 1)
        std::reverse(want.begin(), want.end());
      want.resize(std::min((int)want.size(), k));
      eqi((long)best.size(), (long)want.size(), "param-count",
          fmt("best list of metric %d, parameter %d", e, p));
      std::set<double> ids;
      for (size_t i = 0; i < want.size(); i++) {
        eq(best[i]->Metric, want[i], "param-order",
           fmt("metric %d, parameter %d, item %d", e, p, (int)i));
        double m = best[i]->Mean;
        int id = (int)std::lround(m - (p == 0 ? 10 : 20));
        MC_CHECK(id >= 0 && id < n && ids.insert(m).second, "param-distinct",
                 "unexpected coefficient %g", m);
        eq(all[id].metrics[e], best[i]->Metric, "param-owner",
           "metric of the model that owns the coefficient");
        eq(all[id].vars[p], best[i]->Variance, "param-variance",
           "variance of the coefficient");
      }
    }
}

// summaries ----------------------------------------------------------------
// the definitions, over the complete list
struct Mix {
  double mean = NAN, var = NAN, skew = NAN, kurt = NAN, w = 0;
};
static Mix mixture(const vector<std::array<double, 3>> &v) { // mean var weight
  Mix m;
  for (auto &a : v)
    m.w += a[2];
  if (m.w == 0)
    return m;
  m.mean = 0;
  for (auto &a : v)
    m.mean += a[0] * a[2] / m.w;
  double m2 = 0, m3 = 0, m4 = 0;
  for (auto &a : v) {
    double d = a[0] - m.mean;
    m2 += a[2] / m.w * (a[1] + d * d);
    m3 += a[2] / m.w * (3 * a[1] * d + d * d * d);
    m4 += a[2] / m.w *
          (3 * a[1] * a[1] + 6 * d * d * a[1] + d * d * d * d);
  }
  m.var = m2;
  m.skew = m3 / std::pow(m2, 1.5);
  m.kurt = m4 / (m2 * m2) - 3;
  return m;
}
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }

static void c04_summaries() {
  Rig r;
  // AUC is its own weight, so weights can be chosen freely (zero included)
  r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
  r.b.metrics.Update(true, false);
  int nparts = range(1, qt(2, 3));
  vector<vector<Out>> parts(nparts);
  const vector<double> ws = {0.5, 0.0, 1.0};
  const vector<std::array<double, 2>> mv = {
      {1, 1}, {-2, 0.25}, {-3, 16}, {3, 4}};
  int n = range(nparts, qt(4, 5));
  string d;
  vector<std::array<double, 3>> all;
  int rem = n;
  for (int i = 0; i < nparts; i++) {
    int c = i == nparts - 1 ? rem : range(1, rem - (nparts - 1 - i));
    rem -= c;
    for (int j = 0; j < c; j++) {
      Out o;
      double w = ws[choose((int)ws.size())];
      auto &a = mv[choose(qt(3, 4))];
      o.metrics = {w};
      o.means = {a[0]};
      o.vars = {a[1]};
      parts[i].push_back(o);
      all.push_back({a[0], a[1], w});
      d += fmt("(%g,%g;w=%g)", a[0], a[1], w);
    }
    d += " | ";
  }
  describe(d);
  r.b.items.LengthEvals = 1;
  r.b.items.Length1 = 1;
  r.b.items.KeepAll = true;
  r.b.items.KeepMixture = true;
  r.b.items.KeepInclusionWeights = true;
  r.b.items.CdfsAt = {0.0, 1.5};
  r.b.items.ExtremeBoundsMultiplier = 2;
  r.start(parts);
  r.run();
  state(hash_str(d));
  double wsum = 0;
  for (auto &a : all)
    wsum += a[2];
  // cdf
  for (int c = 0; c < 2; c++) {
    RunningMoments<1, true, true, Tv> got;
    r.set->CombineCdfAt(0, 0, 0, c, r.l1, got);
    double want = 0;
    for (auto &a : all)
      if (wsum > 0)
        want += a[2] / wsum * Phi((r.b.items.CdfsAt[c] - a[0]) / std::sqrt(a[1]));
    if (wsum > 0)
      eq(got.GetMean(), want, "cdf", fmt("weighted cdf at %g", r.b.items.CdfsAt[c]), 1e-8);
    eq(got.SumWeights, wsum, "cdf-weights", "sum of weights of the cdf");
  }
  // bounds
  {
    double lo, hi, wl = INFINITY, wh = -INFINITY;
    r.set->CombineExtremeBounds(0, 0, 0, r.l1, lo, hi);
    for (auto &a : all) {
      wl = std::min(wl, a[0] - 2 * std::sqrt(a[1]));
      wh = std::max(wh, a[0] + 2 * std::sqrt(a[1]));
    }
    eq(lo, wl, "lower-bound", "lower extreme bound");
    eq(hi, wh, "upper-bound", "upper extreme bound");
    outcome(hash_str(fmt("%g %g", wl, wh)));
  }
  // mixture
  {
    RunningMoments<4, true, true, Tv> got;
    r.set->CombineMixture(0, 0, 0, r.l1, got);
    auto want = mixture(all);
    if (wsum > 0) {
      eq(got.GetMean(), want.mean, "mixture-mean", "mean of the mixture", 1e-8);
      eq(got.GetVariance(), want.var, "mixture-var", "variance", 1e-8);
      eq(got.GetSkewness(), want.skew, "mixture-skew", "skewness", 1e-7);
      eq(got.GetKurtosis(), want.kurt, "mixture-kurt", "kurtosis", 1e-7);
    }
    eq(got.SumWeights, wsum, "mixture-weights", "sum of weights");
  }
  // inclusion: average weight of the models that contain the variable
  for (int v = 0; v < r.b.data.NumEndo + r.b.data.NumExo; v++) {
    double s = 0;
    int cnt = 0;
    for (size_t i = 0; i < parts.size(); i++)
      for (size_t k = 0; k < parts[i].size(); k++) {
        bool in = v == 0 || (v < r.b.data.NumEndo && v == (int)i) ||
                  v == r.b.data.NumEndo + (int)k;
        if (in) {
          s += parts[i][k].metrics[0];
          cnt++;
        }
      }
    RunningMoments<1, true, false, Tv> got;
    r.set->CombineInclusionWeights(0, 0, v, r.l0, got);
    eqi(got.Count, cnt, "inclusion-count", fmt("models that contain variable %d", v));
    if (cnt > 0)
      eq(got.GetMean(), s / cnt, "inclusion-mean",
         fmt("inclusion weight of variable %d", v));
  }
  vector<std::shared_ptr<EstimationKeep>> kept;
  r.set->CombineAll(0, 0, 0, r.l0, kept);
  eqi((long)kept.size(), n, "all", "number of kept models");
  vector<string> got, want;
  for (auto &e : kept)
    got.push_back(fmt("%s:%s:%g", join(e->Endogenous).c_str(),
                      join(e->Exogenouses).c_str(), e->Weight));
  for (size_t i = 0; i < parts.size(); i++)
    for (size_t k = 0; k < parts[i].size(); k++)
      want.push_back(fmt("%s:%d:%g", i == 0 ? "0" : fmt("0,%d", (int)i).c_str(),
                         r.b.data.NumEndo + (int)k, parts[i][k].metrics[0]));
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  eqs(join(got, " "), join(want, " "), "all-models", "kept models");
}

// several metrics, targets and parameters never mix; unrequested are absent
static void c04_slots() {
  Rig r;
  r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
  r.b.metrics.MetricsOut = {ScoringType::kDirection};
  r.b.metrics.SimFixSize = 1;
  r.b.metrics.TrainRatio = 0.5;
  r.b.metrics.Update(true, false);
  int req = choose(64);
  int n = range(1, 3);
  vector<Out> ms;
  string d;
  for (int i = 0; i < n; i++) {
    Out o;
    int nanMetric = choose(3); // which metric is missing for this model
    o.metrics = {nanMetric == 1 ? NAN : 0.25 * (i + 1),
                 nanMetric == 2 ? NAN : 0.5 + 0.125 * i};
    int nanMean = choose(3);
    o.means = {nanMean == 1 ? NAN : 1.0 + i, nanMean == 2 ? NAN : -3.0 - i};
    o.vars = {1.0 + i, 0.25 + i};
    ms.push_back(o);
    d += fmt("(%d,%d)", nanMetric, nanMean);
  }
  describe(fmt("request=%d models=%s", req, d.c_str()));
  auto &it = r.b.items;
  it.LengthEvals = 2;
  it.Length1 = req & 1 ? 2 : 0;
  it.KeepModelEvaluations = (req & 2) || !(req & 1);
  it.KeepAll = req & 4;
  it.KeepMixture = req & 8;
  it.KeepInclusionWeights = req & 16;
  if (req & 32) {
    it.CdfsAt = {0.5};
    it.ExtremeBoundsMultiplier = 1;
  }
  r.start({ms});
  r.run();
  state(fmt("%d/", req) + d);
  eqi((long)r.l0.size(), it.KeepModelEvaluations ? 2 : 0, "list0",
      "number of model summaries");
  eqi((long)r.l1.size(), it.Length1 > 0 ? 4 : 0, "list1",
      "number of parameter summaries");
  for (auto *s : r.l0) {
    long cnt = 0;
    for (auto &o : ms)
      if (!std::isnan(o.metrics[s->Index1]))
        cnt++;
    eqi((long)s->All.size(), it.KeepAll ? cnt : 0, "all-requested",
        "kept models of a metric");
    eqi((long)s->InclusionsInfo.size(), it.KeepInclusionWeights
            ? r.b.data.NumEndo + r.b.data.NumExo : 0,
        "inclusion-requested", "inclusion table");
    if (it.KeepInclusionWeights)
      eqi(s->InclusionsInfo.at(0).Count, cnt, "inclusion-slots",
          "models that contain the target");
  }
  for (auto *s : r.l1) {
    vector<std::array<double, 3>> v;
    for (auto &o : ms)
      if (!std::isnan(o.metrics[s->Index1]) && !std::isnan(o.means[s->Index3]))
        v.push_back({o.means[s->Index3], o.vars[s->Index3],
                     o.metrics[s->Index1]});
    auto want = mixture(v);
    eqi((long)s->All.size(), 0, "param-all", "kept parameter models");
    eq(s->Mixture4.SumWeights, it.KeepMixture ? want.w : 0, "slot-weight",
       fmt("weights of metric %d parameter %d", s->Index1, s->Index3));
    if (it.KeepMixture && want.w > 0)
      eq(s->Mixture4.GetMean(), want.mean, "slot-mean",
         fmt("mixture mean of metric %d parameter %d", s->Index1, s->Index3));
    eqi((long)s->Cdfs.size(), (req & 32) ? 1 : 0, "cdf-requested", "cdf table");
    if (req & 32) {
      double c = 0;
      for (auto &a : v)
        c += a[2] / want.w * Phi((0.5 - a[0]) / std::sqrt(a[1]));
      if (want.w > 0)
        eq(s->Cdfs.at(0).GetMean(), c, "slot-cdf",
           fmt("cdf of metric %d parameter %d", s->Index1, s->Index3), 1e-8);
    }
  }
}

// running moments on their own: any way of pushing and merging
static void c04_running() {
  const vector<double> xs = {0, 1, -2, 5, NAN};
  const vector<double> ws = {1, 0.25, 0, 3};
  int n = range(1, qt(4, 5));
  vector<std::array<double, 2>> v;
  string d;
  int cut1 = choose(n + 1), cut2 = cut1 + choose(n - cut1 + 1);
  RunningMoments<4, true, true, Tv> a, b, c;
  RunningMoments<4, true, false, Tv> ua, ub, uc;
  double sw = 0;
  int nn = 0;
  for (int i = 0; i < n; i++) {
    double x = xs[choose(5)], w = ws[choose(4)];
    d += fmt("%g*%g ", x, w);
    auto &t = i < cut1 ? a : i < cut2 ? b : c;
    auto &u = i < cut1 ? ua : i < cut2 ? ub : uc;
    t.PushNew(x, w);
    u.PushNew(x, w);
    step(2);
    if (!std::isnan(x)) {
      v.push_back({x, w});
      sw += w;
      nn++;
    }
  }
  describe(fmt("%s cuts %d %d", d.c_str(), cut1, cut2));
  state(hash_str(d) * 31 + cut1 * 7 + cut2);
  a.Combine(b);
  a.Combine(c);
  ua.Combine(ub);
  ua.Combine(uc);
  for (int un = 0; un < 2; un++) {
    double W = un ? nn : sw;
    double gm = un ? ua.GetMean() : a.GetMean();
    double gv = un ? ua.GetVariance() : a.GetVariance();
    double gs = un ? ua.GetSkewness() : a.GetSkewness();
    double gk = un ? ua.GetKurtosis() : a.GetKurtosis();
    if (W == 0) {
      MC_CHECK(std::isnan(gm), "moments-empty", "mean of nothing is %g", gm);
      continue;
    }
    double m = 0, m2 = 0, m3 = 0, m4 = 0;
    for (auto &p : v)
      m += p[0] * (un ? 1 : p[1]) / W;
    for (auto &p : v) {
      double q = p[0] - m, w = (un ? 1 : p[1]) / W;
      m2 += w * q * q;
      m3 += w * q * q * q;
      m4 += w * q * q * q * q;
    }
    eq(gm, m, "moments-mean", un ? "mean" : "weighted mean", 1e-8);
    eq(gv, m2, "moments-var", un ? "variance" : "weighted variance", 1e-8);
    if (m2 > 1e-6) {
      eq(gs, m3 / std::pow(m2, 1.5), "moments-skew", "skewness", 1e-6);
      eq(gk, m4 / (m2 * m2) - 3, "moments-kurt", "kurtosis", 1e-6);
    }
  }
}

// ------------------------------------------------------------------- C05 ---
static const char *reason(int kind) {
  switch (kind) {
  case 1:
    return "returned text";
  case 2:
    return nullptr; // decorated by the library
  case 3:
    return "standard error";
  case 4:
    return "text error";
  case 5:
    return "literal error";
  }
  return nullptr;
}

static void c05_fail() {
  Rig r;
  r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
  r.b.metrics.Update(true, false);
  int nparts = range(1, 2);
  int n = range(nparts, qt(4, 5));
  vector<vector<Out>> parts(nparts);
  string d;
  int rem = n;
  std::map<int, int> kinds;
  vector<string> want;
  for (int i = 0; i < nparts; i++) {
    int c = i == nparts - 1 ? rem : range(1, rem - (nparts - 1 - i));
    rem -= c;
    for (int j = 0; j < c; j++) {
      Out o;
      o.kind = choose(8);
      o.metrics = {0.5};
      o.means = {1.0 * (i * 10 + j)};
      o.vars = {1};
      parts[i].push_back(o);
      d += fmt("%d ", o.kind);
      if (o.kind)
        kinds[o.kind]++;
      else
        want.push_back(fmt("%d:%d", i, j));
    }
    d += "| ";
  }
  describe("failure kinds: " + d);
  state(hash_str(d));
  r.b.items.LengthEvals = 1;
  r.b.items.Length1 = 1;
  r.b.items.KeepAll = true;
  r.b.items.KeepBestCount = 100;
  r.b.items.KeepMixture = true;
  r.start(parts);
  r.run();
  for (size_t i = 0; i < parts.size(); i++)
    eqi((long)r.own[i]->started.size(), (long)parts[i].size(), "started",
        fmt("models evaluated by part %d", (int)i));
  eqi(r.info.SearchedCount, n, "searched", "searched count");
  eqi(r.info.ExpectedCount, n, "expected", "expected count");
  // every kind is one reason, with its multiplicity
  long total = 0;
  for (auto &f : r.info.FailsCount) {
    MC_CHECK(!f.first.empty(), "reason-empty", "a failure without a reason");
    total += f.second;
  }
  long fails = 0;
  for (auto &k : kinds)
    fails += k.second;
  eqi(total, fails, "failed", "number of reported failures");
  eqi((long)r.info.FailsCount.size(), (long)kinds.size(), "reasons",
      "number of distinct reasons");
  for (auto &k : kinds) {
    string rs = reason(k.first) ? reason(k.first) : "";
    long got = 0;
    if (!rs.empty()) {
      for (auto &f : r.info.FailsCount)
        if (f.first.find(rs) != string::npos)
          got += f.second;
    } else if (k.first == 2) {
      for (auto &f : r.info.FailsCount)
        if (f.first.find("library error") != string::npos)
          got += f.second;
    } else
      continue; // unknown exceptions and missing metrics: counted above
    eqi(got, k.second, "reason-count", fmt("failures of kind %d", k.first));
  }
  vector<string> got;
  vector<std::shared_ptr<EstimationKeep>> all, best;
  r.set->CombineAll(0, 0, 0, r.l0, all);
  for (auto &e : all)
    got.push_back(fmt("%d:%d", (int)e->Endogenous.back(),
                      e->Exogenouses[0] - r.b.data.NumEndo));
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  eqs(join(got), join(want), "kept", "models kept");
  r.set->CombineBests(0, 0, 0, r.l1, best);
  eqi((long)best.size(), (long)want.size(), "kept-params", "coefficients kept");
  RunningMoments<4, true, true, Tv> mix;
  r.set->CombineMixture(0, 0, 0, r.l1, mix);
  eq(mix.SumWeights, 0.5 * want.size(), "kept-weights", "weights in the mixture");
}

// ------------------------------------------------------------------- C06 ---
static void c06_cancel() {
  Rig r;
  r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
  r.b.metrics.Update(true, false);
  int nparts = range(1, 3);
  vector<vector<Out>> parts(nparts);
  string d;
  int total = 0;
  for (int i = 0; i < nparts; i++) {
    int c = range(1, 3);
    for (int j = 0; j < c; j++) {
      Out o;
      o.kind = flip() ? 3 : 0;
      o.metrics = {0.5};
      o.means = {1.0 * (i * 10 + j)};
      o.vars = {1};
      parts[i].push_back(o);
      d += fmt("%d ", o.kind);
      total++;
    }
    d += "| ";
  }
  int at = choose(total + 1); // `total`: requested before the search starts
  int where = at == total ? 0 : choose(2);
  describe(fmt("%s cancel at model %d (%s)", d.c_str(), at,
               at == total ? "before the start" : where ? "end" : "begin"));
  r.b.items.LengthEvals = 1;
  r.b.items.KeepAll = true;
  r.start(parts);
  int k = 0, finished = 0, startedWant = 0;
  vector<string> want;
  bool stop = at == total;
  if (stop)
    r.b.options.RequestCancel = true;
  bool interruptedFails = false;
  for (int i = 0; i < nparts && !stop; i++)
    for (int j = 0; j < (int)parts[i].size(); j++, k++) {
      if (k == at) {
        // a model that fails before the end never reaches the end point
        if (where == 1 && parts[i][j].kind != 0) {
          where = 2; // request never arrives
          at = -2;
        } else {
          r.own[i]->cancelAt = j;
          r.own[i]->cancelWhere = where;
          startedWant++;
          stop = true;
          interruptedFails = true;
          break;
        }
      }
      startedWant++;
      finished++;
      if (parts[i][j].kind == 0)
        want.push_back(fmt("%d:%d", i, j));
    }
  state(fmt("%s %d %d", d.c_str(), at, where));
  r.run();
  int started = 0;
  for (auto &o : r.own)
    started += (int)o->started.size();
  eqi(started, startedWant, "started", "models started");
  long cnt = r.info.SearchedCount;
  MC_CHECK(cnt == finished || (interruptedFails && cnt == finished + 1),
           "searched", "searched=%ld, finished before the request: %d", cnt,
           finished);
  vector<string> got;
  vector<std::shared_ptr<EstimationKeep>> all;
  r.set->CombineAll(0, 0, 0, r.l0, all);
  for (auto &e : all)
    got.push_back(fmt("%d:%d", (int)e->Endogenous.back(),
                      e->Exogenouses[0] - r.b.data.NumEndo));
  outcome(hash_str(join(got)));
  eqs(join(got), join(want), "kept", "models kept");
}

int main(int argc, char **argv) {
  return harness_main(
      argc, argv,
      {{"c01_visit", c01_visit,
        "<=4 (5) groups of 1..3 items, 3 layouts, all sizes, fixed groups, targets"},
       {"c01_fixitems", c01_fixitems, "<=4 (5) groups, all fixed-item counts"},
       {"c01_errors", c01_errors, "impossible sizes and fixed counts"},
       {"c01_modelset", c01_modelset,
        "all size lists x 1..3 inner groups of a model set"},
       {"c03_best", c03_best,
        "all sequences of <=5 (6) metric values over 1..2 (3) parts, K 1..3 (4)"},
       {"c03_params", c03_params,
        "coefficient lists: <=4 models, 2 metrics, 2 parameters, missing values"},
       {"c04_summaries", c04_summaries,
        "all histories of <=4 (5) models x weights x estimates x parts"},
       {"c04_slots", c04_slots, "all request masks x missing metric patterns"},
       {"c04_running", c04_running,
        "running moments: <=4 (5) values, all splits in three"},
       {"c05_fail", c05_fail,
        "all assignments of 8 outcomes to <=4 (5) models in 1..2 parts"},
       {"c06_cancel", c06_cancel,
        "requests at the start, begin and end of every model"}});
}
