// C07: what the searches of the estimator families report for a model is what
// estimating and simulating that model alone gives.
#include "famkit.h"
#include "numkit.h"
using namespace fam;

static double noise(int i, int j, int base) {
  unsigned h = 2654435761u * (unsigned)(i * 31 + j * 1009 + base * 77777 + 13);
  h ^= h >> 15, h *= 2246822519u, h ^= h >> 13;
  return (int)(h % 2001) / 500.0 - 2;
}
static double weightOf(const SearchMetricOptions &o, int eval, int target, double metric) {
  if (eval < (int)o.MetricsIn.size()) {
    auto t = o.MetricsIn[eval];
    double mn = o.MinMetricIn.count(t) ? o.MinMetricIn.at(t).at(target) : 0;
    return GoodnessOfFit::ToWeight(t, metric, mn);
  }
  auto t = o.MetricsOut[eval - o.MetricsIn.size()];
  double mn = o.MinMetricOut.count(t) ? o.MinMetricOut.at(t).at(target) : 0;
  return Scoring::ToWeight(t, metric, mn);
}
struct Item {
  int third;
  double mean, var;
};
/// one model, evaluated alone
struct Alone {
  bool fail = false;
  string why;
  vector<vector<double>> metric; // [evaluation][position in the model]
  vector<vector<Item>> items;    // [position in the model]
  // for the choice of limits
  double aic = NAN, sic = NAN, r2 = NAN, cn = NAN;
  int obs = 0, dof = 0, validSims = 0;
  std::optional<double> lowest, highest; // predictions
};
static void expect(Res &want, const Common &c, const Ids &endo, const Ids &exo, const Ids &extra, Alone &a) {
  want.searched++, want.expected++;
  bool any = false;
  if (!a.fail)
    for (size_t e = 0; e < a.metric.size(); e++)
      for (size_t p = 0; p < endo.size(); p++)
        if (endo[p] < c.items.LengthTargets && !std::isnan(a.metric[e][p]))
          any = true;
  if (!any) {
    want.fails[a.fail ? a.why : "no metric"]++;
    return;
  }
  for (size_t e = 0; e < a.metric.size(); e++)
    for (size_t p = 0; p < endo.size(); p++) {
      double m = a.metric[e][p];
      if (endo[p] >= c.items.LengthTargets || std::isnan(m))
        continue;
      Rec r;
      r.eval = (int)e, r.target = endo[p], r.endo = endo, r.exo = exo, r.extra = extra;
      r.metric = m, r.weight = weightOf(c.metrics, r.eval, r.target, m);
      if (c.items.KeepModelEvaluations)
        add(want, r);
      if (c.items.Length1 > 0)
        for (auto &i : a.items[p])
          if (!std::isnan(i.mean)) {
            r.kind = 1, r.third = i.third, r.mean = i.mean, r.var = i.var;
            add(want, r);
          }
    }
}
static bool isFinite(double v) { return !std::isinf(v); }
static void countsAgree(const Res &got, const Res &want, const string &t) {
  mc::check(!got.threw, "rejected", t + "the search ends with an error: " + got.what);
  mc::eqi(got.expected, want.expected, "count", t + "announced number of models");
  mc::eqi(got.searched, want.searched, "count", t + "number of evaluated models");
  MC_CHECK(got.failed() == want.failed(), "failures", "%s%d models fail (%s) instead of %d (%s)", t.c_str(), got.failed(),
           got.failText().c_str(), want.failed(), want.failText().c_str());
}
/// two runs of the same search
template <class S> static void identical(S &s, const Res &first) {
  s.shuffle = true, s.fill = 0x00;
  Res again = s.run();
  mc::step();
  same(again, first, 0, "repeat", "second run: ");
  MC_CHECK(again.fails == first.fails && again.searched == first.searched, "repeat", "the second run fails differently: %s instead of %s",
           again.failText().c_str(), first.failText().c_str());
}
static double between(vector<double> v, int which) { // a limit between two models
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end(), [](double a, double b) { return mc::close(a, b, 1e-6); }), v.end());
  if (v.size() < 2)
    throw mc::Skip();
  size_t k = which ? v.size() - 1 : 1;
  return (v[k - 1] + v[k]) / 2;
}
static vector<ScoringType> allOut{ScoringType::kSign, ScoringType::kMae, ScoringType::kMape, ScoringType::kRmse, ScoringType::kRmspe, ScoringType::kCrps};

// --------------------------------------------------------------------- SUR --
static Alone surAlone(const SurSearch &s, const Ids &endo, const Ids &exo, unsigned seed) {
  Alone a;
  Ids cs = endo;
  cs.insert(cs.end(), exo.begin(), exo.end());
  auto rows = s.complete(cs);
  int n = (int)rows.size(), m = (int)endo.size(), k = (int)exo.size(), in = (int)s.metrics.MetricsIn.size(), out = (int)s.metrics.MetricsOut.size();
  a.metric.assign(in + out, vector<double>(m, NAN));
  a.items.resize(m);
  a.obs = n, a.dof = n - k;
  mk::Mat<double> A(s.part(rows, cs));
  bool restr = s.sigIter > 0;
  auto &ck = s.checks;
  bool whole = ck.Estimation || in > 0 || ck.MinObsCount > 0 || ck.MinDof > 0 || isFinite(ck.MaxAic) || isFinite(ck.MaxSic) || isFinite(ck.MinR2);
  mc::step();
  try {
    mk::Mat<double> R(mk::Ref(restr ? m * k : 0, restr ? m * k : 0));
    if (whole) {
      SurExtended e(n, m, k, restr, false, true, 0, s.sigIter, false, nullptr, nullptr);
      mc::Guard<double> st((size_t)e.StorageSize, 0), wk((size_t)e.WorkSize, 0);
      e.Calculate(A.m, m, st.p, wk.p, restr ? &R.m : nullptr, s.sigProb, nullptr);
      a.aic = e.Model.Aic, a.sic = e.Model.Sic, a.r2 = e.Model.r2, a.cn = e.Model.condition_number;
      for (int i = 0; i < in; i++)
        for (int j = 0; j < m; j++)
          a.metric[i][j] = s.metrics.MetricsIn[i] == GoodnessOfFitType::kAic ? a.aic : a.sic;
      for (int j = 0; j < m; j++)
        for (int i = 0; i < k; i++) {
          double sd = e.Model.e_beta_std.Get0(i, j);
          a.items[j].push_back({exo[i] - s.data.NumEndo, e.Model.beta.Get0(i, j), sd * sd});
        }
      auto no = [&](bool bad, const char *t) {
        if (bad && !a.fail)
          a.fail = true, a.why = t;
      };
      no(n < ck.MinObsCount, "observations");
      no(ck.MinDof > 0 && a.dof < ck.MinDof, "degrees of freedom");
      no(a.aic > ck.MaxAic, "aic");
      no(a.sic > ck.MaxSic, "sic");
      no(a.r2 < ck.MinR2, "r2");
      no(ck.Estimation && a.cn > ck.MaxConditionNumber, "condition number");
    }
    if (out) {
      SurSimulation sim(n, m, k, s.metrics.TrainRatio, s.metrics.TrainFixSize, s.metrics.MetricsOut, restr, s.sigIter, nullptr, nullptr);
      mc::Guard<double> st((size_t)sim.StorageSize, 0), wk((size_t)sim.WorkSize, 0);
      vector<double> lam;
      for (auto e : endo)
        if (!s.data.Lambdas.empty())
          lam.push_back(s.data.Lambdas.at(e));
      bool cancel = false;
      sim.Calculate(A.m, m, st.p, wk.p, restr ? &R.m : nullptr, cancel, s.metrics.SimFixSize, seed, s.sigProb,
                    isFinite(ck.MaxConditionNumber) ? ck.MaxConditionNumber : INFINITY, INT32_MAX, lam.empty() ? nullptr : &lam);
      a.validSims = sim.ValidIters;
      for (int i = 0; i < out; i++)
        for (int j = 0; j < m; j++)
          a.metric[in + i][j] = sim.Results.Get0(i, j);
      if (sim.ValidIters < ck.MinOutSim && !a.fail)
        a.fail = true, a.why = "simulations";
    }
  } catch (std::exception &e) {
    a.fail = true, a.why = e.what();
  }
  return a;
}
static void sur() {
  Dev v{mc::qt(2, 3), mc::choose(2)};
  SurSearch s;
  int base = v.c(3), numEndo = 2 + v.c(2, 1), numExo = 4, N = 13 + 7 * v.c(2);
  vector<vector<double>> cols;
  for (int j = 0; j < numEndo; j++) {
    cols.push_back({});
    for (int i = 0; i < N; i++)
      cols.back().push_back(3 + noise(i, j, base) + 0.4 * noise(i, numEndo + 1, base) + j);
  }
  for (int j = 0; j < numExo; j++) {
    cols.push_back({});
    for (int i = 0; i < N; i++)
      cols.back().push_back(j == 0 ? 1 : noise(i, numEndo + j, base));
  }
  int special = v.c(4); // a rare dummy, a copy, a bad scale
  for (int i = 0; i < N; i++) {
    auto &x = cols[numEndo + 2][i];
    if (special == 1)
      x = i == 3 || i == 8;
    if (special == 2)
      x = 2 * cols[numEndo + 1][i];
    if (special == 3)
      x *= 1000;
  }
  int nan = v.c(6, 4);
  if (nan == 1)
    cols[0][2] = NAN;
  else if (nan == 2)
    cols[1][0] = cols[1][N - 1] = NAN;
  else if (nan == 3)
    cols[numEndo + 1][5] = NAN;
  else if (nan == 4)
    cols[0][1] = cols[numEndo + 2][4] = cols[numEndo + 3][N - 2] = NAN;
  else if (nan == 5)
    for (int i = 0; i < N - 4; i++)
      cols[numEndo + 3][i] = NAN;
  s.load(cols);
  s.data.NumEndo = numEndo, s.data.NumExo = numExo;
  s.items.LengthEndogenous = numEndo, s.items.LengthExogenous = numExo;
  s.items.LengthTargets = s.comb.NumTargets = 1 + v.c(numEndo, 1);
  int e0 = numEndo;
  switch (v.c(4, 1)) {
  case 0: s.comb.Partitions = {{e0}, {e0 + 1}, {e0 + 2}, {e0 + 3}}; break;
  case 1: s.comb.Partitions = {{e0}, {e0 + 1, e0 + 2}, {e0 + 3}}; break;
  case 2: s.comb.Partitions = {{e0 + 1, e0 + 3}, {e0, e0 + 2}}; break;
  case 3: s.comb.Partitions = {{e0 + 3}, {e0 + 2}, {e0 + 1}, {e0}}; break;
  }
  s.comb.NumFixPartitions = v.c(2);
  switch (v.c(4)) {
  case 0: s.comb.Sizes = {1, 2}; break;
  case 1: s.comb.Sizes = {2}; break;
  case 2: s.comb.Sizes = {1}; break;
  case 3: s.comb.Sizes = {2, 1}; break;
  }
  switch (v.c(6, 3)) {
  case 0: s.comb.InnerGroups = {{0}}; break;
  case 1: s.comb.InnerGroups = {{0, 1}}; break;
  case 2: s.comb.InnerGroups = {{0}, {0, 1}}; break;
  case 3: s.comb.InnerGroups = {{0, 1}, {1}, {0}}; break;
  case 4: s.comb.InnerGroups = {{0}, {numEndo - 1}}; break;
  case 5: s.comb.InnerGroups = {{1}, {1, numEndo - 1}}; break;
  }
  for (auto &g : s.comb.InnerGroups)
    g.erase(std::unique(g.begin(), g.end()), g.end());
  using G = GoodnessOfFitType;
  using O = ScoringType;
  s.metrics.MetricsIn = v.of<vector<G>>(0, {{G::kAic, G::kSic}, {G::kSic}, {}, {G::kSic, G::kAic}});
  s.metrics.MetricsOut = v.of<vector<O>>(2, {{}, {O::kRmse}, allOut, {O::kCrps, O::kSign}, {O::kMape, O::kRmspe, O::kMae}});
  s.metrics.SimFixSize = s.metrics.MetricsOut.empty() ? v.c(2) : 3 + v.c(2);
  s.metrics.TrainRatio = 0.7;
  int tr = v.c(3);
  if (tr)
    s.metrics.TrainFixSize = tr == 1 ? 7 : 9;
  s.metrics.Seed = v.of<int>(0, {-5, 5, 340, -1});
  if (s.metrics.MetricsIn.empty() && s.metrics.MetricsOut.empty())
    throw mc::Skip();
  s.items.Length1 = v.c(2) ? 0 : numExo;
  s.checks.Estimation = v.c(2) == 0;
  if (s.items.Length1 && !s.checks.Estimation)
    throw mc::Skip();
  s.items.KeepModelEvaluations = v.c(2) == 0;
  if (!s.items.KeepModelEvaluations && !s.items.Length1)
    throw mc::Skip(); // nothing to keep
  int sig = v.c(4);
  if (sig)
    s.sigIter = sig == 3 ? 1 : 2, s.sigProb = sig == 1 ? 0.1 : 0.6;
  if (v.c(2, 1))
    for (int j = 0; j < numEndo; j++)
      s.data.Lambdas.push_back(j == 0 ? 0.5 : j == 1 ? 1 : -0.3);
  if (v.c(2, 1)) {
    for (auto t : s.metrics.MetricsIn)
      s.metrics.MinMetricIn[t] = {1, 2.5, -3};
    for (auto t : s.metrics.MetricsOut)
      s.metrics.MinMetricOut[t] = {0.25, 0.5, 1.5};
  }
  int limit = v.c(11), high = limit ? mc::choose(2) : 0;
  // all models alone
  struct One {
    Ids endo, exo;
    unsigned pos;
  };
  vector<One> models;
  unsigned pos = 0;
  bool noTarget = false;
  for (auto size : s.comb.Sizes) {
    if (size < s.comb.NumFixPartitions)
      continue;
    for (auto &g : s.comb.InnerGroups) {
      if (g[0] >= s.items.LengthTargets) {
        noTarget = true;
        continue;
      }
      admissible(s.comb.Partitions, size, s.comb.NumFixPartitions, [&](const Ids &x) { models.push_back({g, x, pos}); });
      pos++;
    }
  }
  mc::state(mc::hash_str(fmt("%d %d %d %d %d %d", (int)models.size(), special, nan, limit, (int)noTarget, base)));
  auto seedOf = [&](unsigned p) { return s.metrics.Seed < 0 ? (unsigned)-s.metrics.Seed : (unsigned)s.metrics.Seed + p; };
  if (limit) {
    vector<double> q;
    auto ck0 = s.checks.Estimation;
    s.checks.Estimation = true;
    for (auto &m : models) {
      auto a = surAlone(s, m.endo, m.exo, seedOf(m.pos));
      if (!a.fail)
        q.push_back(limit == 1 ? a.obs : limit == 2 ? a.dof : limit == 3 ? a.aic : limit == 4 ? a.sic : limit == 5 ? a.r2 : limit <= 7 ? a.cn : a.validSims);
    }
    s.checks.Estimation = ck0;
    if (limit == 1 || limit == 2) {
      if (q.empty())
        throw mc::Skip();
      std::sort(q.begin(), q.end());
      (limit == 1 ? s.checks.MinObsCount : s.checks.MinDof) = (int)q[q.size() / 2] + high;
    } else if (limit == 3)
      s.checks.MaxAic = between(q, high);
    else if (limit == 4)
      s.checks.MaxSic = between(q, high);
    else if (limit == 5)
      s.checks.MinR2 = between(q, high);
    else if (limit == 6) {
      if (!s.checks.Estimation)
        throw mc::Skip(); // see DESIGN: the whole sample is only checked then
      s.checks.MaxConditionNumber = between(q, high);
    } else if (limit == 7) {
      s.checks.MaxConditionNumber = between(q, high) * 1.5;
      s.checks.MinOutSim = 2;
    } else if (limit == 8)
      s.checks.MinOutSim = 1 + high;
    else if (limit == 9)
      s.checks.MinOutSim = s.metrics.SimFixSize;
    else
      s.checks.MinObsCount = 1;
  }
  if (s.checks.MinOutSim && (s.metrics.MetricsOut.empty() || s.checks.MinOutSim > s.metrics.SimFixSize))
    throw mc::Skip();
  mc::describe(fmt("sur: %d models data %d special %d missing %d obs %d targets %d sizes %s groups %d fixed %d inner %d in %d out %d sims %d train %d seed %d "
                   "coefs %d sig %d/%g lambdas %d min %d limit %d/%d estimate %d",
                   (int)models.size(), base, special, nan, N, s.items.LengthTargets, mc::join(s.comb.Sizes).c_str(), (int)s.comb.Partitions.size(),
                   s.comb.NumFixPartitions, (int)s.comb.InnerGroups.size(), (int)s.metrics.MetricsIn.size(), (int)s.metrics.MetricsOut.size(),
                   s.metrics.SimFixSize, s.metrics.TrainFixSize, s.metrics.Seed, s.items.Length1, s.sigIter, s.sigProb, (int)s.data.Lambdas.size(),
                   (int)(s.metrics.MinMetricIn.size() + s.metrics.MinMetricOut.size()), limit, high, s.checks.Estimation));
  Res want;
  for (auto &m : models) {
    auto a = surAlone(s, m.endo, m.exo, seedOf(m.pos));
    expect(want, s, m.endo, m.exo, {}, a);
  }
  mc::outcome(want.failed() * 1000 + (int)want.count());
  Res got = s.run();
  mc::step();
  countsAgree(got, want, "");
  same(got, want, 1e-7, "value", "");
  identical(s, got);
}

// --------------------------------------------------------- discrete choice --
static Alone dcAlone(DcSearch &s, const Ids &exo, bool probit, unsigned seed) {
  Alone a;
  bool wt = s.data.HasWeight, weighted = wt && s.metrics.WeightedEval;
  Ids cs{0};
  if (wt)
    cs.push_back(1);
  for (auto e : exo)
    cs.push_back(e + wt);
  auto rows = s.complete(cs);
  int n = (int)rows.size(), k = (int)exo.size(), in = (int)s.metrics.MetricsIn.size(), out = (int)s.metrics.MetricsOut.size(), J = s.J;
  a.metric.assign(in + out, vector<double>(1, NAN));
  a.items.resize(1);
  a.obs = n, a.dof = n - k - (J - 2);
  mk::Mat<double> A(s.part(rows, cs)), X(s.part(rows, Ids(cs.begin() + 1 + wt, cs.end())));
  auto &ck = s.checks;
  bool whole = ck.Estimation || in > 0 || ck.MinObsCount > 0 || ck.MinDof > 0 || isFinite(ck.MaxAic) || isFinite(ck.MaxSic) || isFinite(ck.MinR2);
  auto mt = J == 2 ? DiscreteChoiceModelType::kBinary : DiscreteChoiceModelType::kOrdered;
  auto dt = probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit;
  mc::step();
  try {
    if (whole) {
      DiscreteChoiceExtended e(mt, dt, n, k + 1 + wt, wt, false, J, false, n, nullptr, nullptr, s.metrics.WeightedEval);
      e.Model->Optim.IterationMax = s.newton.IterationMax;
      e.Model->Optim.TolFunction = s.newton.TolFunction;
      e.Model->Optim.TolGradient = s.newton.TolGradient;
      e.Model->Optim.UseLineSearch = s.newton.UseLineSearch;
      mc::Guard<double> st((size_t)e.StorageSize, 0), wk((size_t)e.WorkSize, 0);
      e.Calculate(A.m, st.p, wk.p, true, &X.m, s.roc);
      auto &m = *e.Model;
      a.aic = m.Aic, a.sic = m.Sic, a.cn = m.condition_number;
      for (int i = 0; i < in; i++) {
        auto t = s.metrics.MetricsIn[i];
        auto &v = a.metric[i][0];
        if (t == GoodnessOfFitType::kAic)
          v = a.aic;
        else if (t == GoodnessOfFitType::kSic)
          v = a.sic;
        else if (t == GoodnessOfFitType::kBrier) {
          double sum = 0, all = 0;
          for (int r = 0; r < n; r++) {
            double w = weighted ? e.W.Data[r] : 1, d = e.Y.Data[r] - e.PredProbs.Get0(r, 1);
            sum += w * d * d, all += w;
          }
          v = sum / all;
        } else if (t == GoodnessOfFitType::kAuc) {
          std::unique_ptr<RocBase> roc;
          bool c = s.roc.Costs.Data != nullptr;
          if (weighted && c)
            roc.reset(new ROC<true, true>(n));
          else if (weighted)
            roc.reset(new ROC<true, false>(n));
          else if (c)
            roc.reset(new ROC<false, true>(n));
          else
            roc.reset(new ROC<false, false>(n));
          Matrix<Tv> none;
          RocOptions o = s.roc;
          std::unique_ptr<mk::Mat<double>> costs;
          roc->Calculate(e.Y, e.PredProbs, weighted ? &e.W : nullptr, o);
          v = roc->Result;
        } else {
          std::unique_ptr<FrequencyCostBase> f;
          if (weighted)
            f.reset(new FrequencyCost<true>((Ti)s.costs.size()));
          else
            f.reset(new FrequencyCost<false>((Ti)s.costs.size()));
          mc::Guard<double> fs((size_t)f->StorageSize, 0);
          f->Calculate(s.costs, e.Y, e.PredProbs, weighted ? &e.W : nullptr, fs.p);
          v = f->AverageRatio;
        }
      }
      for (int i = 0; i < k; i++)
        a.items[0].push_back({exo[i] - 1, m.Beta.Data[i], m.BetaVar.Get0(i, i)});
      auto no = [&](bool bad, const char *t) {
        if (bad && !a.fail)
          a.fail = true, a.why = t;
      };
      no(n < ck.MinObsCount, "observations");
      no(ck.MinDof > 0 && a.dof < ck.MinDof, "degrees of freedom");
      no(a.aic > ck.MaxAic, "aic");
      no(a.sic > ck.MaxSic, "sic");
      no(ck.Estimation && a.cn > ck.MaxConditionNumber, "condition number");
    }
    if (out) {
      auto has = [&](ScoringType t) { return std::find(s.metrics.MetricsOut.begin(), s.metrics.MetricsOut.end(), t) != s.metrics.MetricsOut.end(); };
      auto sim = DiscreteChoiceSimBase::GetFromType(wt, mt, dt, n, k + 1 + wt, J, s.metrics.TrainRatio, s.metrics.TrainFixSize, (Ti)s.costs.size(),
                                                    has(ScoringType::kBrier), has(ScoringType::kAuc), false, nullptr, s.metrics.WeightedEval);
      sim->Seed = seed, sim->SimulationMax = s.metrics.SimFixSize;
      sim->Optim.IterationMax = s.newton.IterationMax;
      sim->Optim.TolFunction = s.newton.TolFunction;
      sim->Optim.TolGradient = s.newton.TolGradient;
      sim->Optim.UseLineSearch = s.newton.UseLineSearch;
      mc::Guard<double> st((size_t)sim->StorageSize, 0), wk((size_t)sim->WorkSize, 0);
      mc::Guard<Ti> wi((size_t)sim->WorkSizeI, 0);
      bool cancel = false;
      sim->Calculate(A.m, &s.costs, st.p, wk.p, wi.p, cancel, s.roc, true, nullptr, INT32_MAX);
      a.validSims = sim->ValidSimulationCount;
      for (int i = 0; i < out; i++) {
        auto t = s.metrics.MetricsOut[i];
        a.metric[in + i][0] = t == ScoringType::kBrier ? sim->BrierScore : t == ScoringType::kAuc ? sim->Auc : sim->CostRatios.Mean();
      }
      if (a.validSims < ck.MinOutSim && !a.fail)
        a.fail = true, a.why = "simulations";
    }
  } catch (std::exception &e) {
    a.fail = true, a.why = e.what();
  }
  return a;
}
static void dc() {
  Dev v{mc::qt(2, 3), mc::choose(2)};
  DcSearch s;
  int base = v.c(3), N = 18 + 10 * v.c(2), K = 4;
  s.J = 2 + v.c(2);
  bool wt = s.data.HasWeight = v.c(2, 1);
  vector<vector<double>> cols(1 + wt + K, vector<double>(N));
  int x0 = 1 + wt;
  for (int j = 0; j < K; j++)
    for (int i = 0; i < N; i++)
      cols[x0 + j][i] = j == 0 ? 1 : noise(i, j, base);
  for (int i = 0; i < N; i++) {
    double z = 0.8 * cols[x0 + 1][i] - 0.5 * cols[x0 + 2][i] + 1.7 * noise(i, 40, base);
    cols[0][i] = s.J == 2 ? z > 0 : z < -1 ? 0 : z < 1.2 ? 1 : 2;
    if (wt)
      cols[1][i] = 0.5 + (i * 7 % 5) * 0.5;
  }
  int special = v.c(4);
  for (int i = 0; i < N; i++) {
    auto &x = cols[x0 + 2][i];
    if (special == 1) // separates
      x = cols[0][i] * 2 + 0.1 * (i % 3);
    if (special == 2)
      x = i == 3 || i == 8;
    if (special == 3)
      x = 2 * cols[x0 + 1][i];
  }
  int nan = v.c(5, 3);
  if (nan == 1)
    cols[0][2] = NAN;
  else if (nan == 2)
    cols[x0 + 1][0] = cols[x0 + 1][N - 1] = NAN;
  else if (nan == 3)
    cols[0][1] = cols[x0 + 2][4] = cols[x0 + 3][N - 2] = NAN;
  else if (nan == 4)
    cols[wt ? 1 : x0][6] = NAN;
  s.load(cols);
  s.data.NumEndo = 1, s.data.NumExo = K;
  switch (v.c(4, 1)) {
  case 0: s.comb.Partitions = {{1}, {2}, {3}, {4}}; break;
  case 1: s.comb.Partitions = {{1}, {2, 3}, {4}}; break;
  case 2: s.comb.Partitions = {{1}, {4}, {2, 3}}; break;
  case 3: s.comb.Partitions = {{1}, {2}}; break;
  }
  s.comb.NumFixPartitions = 1 + v.c(2);
  switch (v.c(4)) {
  case 0: s.comb.Sizes = {1, 2}; break;
  case 1: s.comb.Sizes = {2}; break;
  case 2: s.comb.Sizes = {2, 1}; break;
  case 3: s.comb.Sizes = {2, 3}; break;
  }
  for (auto z : s.comb.Sizes)
    if (z > (int)s.comb.Partitions.size() || z < s.comb.NumFixPartitions)
      throw mc::Skip();
  int links = v.c(3, 1);
  s.logit = links != 2, s.probit = links != 0;
  using G = GoodnessOfFitType;
  using O = ScoringType;
  s.metrics.MetricsIn = v.of<vector<G>>(4, {{G::kAic, G::kSic}, {G::kSic}, {}, {G::kBrier, G::kAic}, {G::kFrequencyCost, G::kAuc, G::kBrier, G::kAic, G::kSic}, {G::kAuc}, {G::kAic, G::kFrequencyCost}, {G::kFrequencyCost}});
  s.metrics.MetricsOut = v.of<vector<O>>(2, {{}, {O::kBrier}, {O::kAuc, O::kBrier, O::kFrequencyCost}, {O::kFrequencyCost}, {O::kBrier, O::kAuc}});
  if (s.metrics.MetricsIn.empty() && s.metrics.MetricsOut.empty())
    throw mc::Skip();
  auto usesIn = [&](G t) { return std::find(s.metrics.MetricsIn.begin(), s.metrics.MetricsIn.end(), t) != s.metrics.MetricsIn.end(); };
  auto usesOut = [&](O t) { return std::find(s.metrics.MetricsOut.begin(), s.metrics.MetricsOut.end(), t) != s.metrics.MetricsOut.end(); };
  int tables = 1 + v.c(2);
  if (!usesIn(G::kFrequencyCost) && !usesOut(O::kFrequencyCost))
    tables = 0;
  for (int q = 0; q < tables; q++) {
    mk::Ref r(s.J, s.J + 1);
    for (int i = 0; i < s.J; i++) {
      r.at(i, 0) = i == s.J - 1 ? 1 : (i + 1.0) / s.J - 0.05 * q;
      for (int j = 0; j < s.J; j++)
        r.at(i, j + 1) = i == j ? 0 : 1 + 0.5 * q + 0.25 * (i < j);
    }
    s.keep.push_back(std::make_unique<mk::Mat<double>>(r));
    s.costs.push_back(s.keep.back()->m);
  }
  s.metrics.SimFixSize = s.metrics.MetricsOut.empty() ? v.c(2) : 3 + v.c(2);
  s.metrics.TrainRatio = 0.7;
  int tr = v.c(3);
  if (tr)
    s.metrics.TrainFixSize = tr == 1 ? 10 : 13;
  s.metrics.Seed = v.of<int>(0, {-5, 5, 340});
  s.metrics.WeightedEval = v.c(2, 1);
  if (s.J > 2 && (!s.metrics.MetricsOut.empty() || usesIn(G::kAuc)))
    throw mc::Skip(); // not available for ordered models
  s.items.Length1 = v.c(2) ? 0 : K + s.J - 2;
  s.checks.Estimation = v.c(2) == 0;
  if (s.items.Length1 && !s.checks.Estimation)
    throw mc::Skip();
  s.newton.IterationMax = v.of<int>(0, {100, 2});
  s.newton.UseLineSearch = v.c(2) == 0;
  if (v.c(2))
    s.metrics.MinMetricIn[G::kAic] = {5}, s.metrics.MinMetricOut[O::kBrier] = {0.1};
  int rocs = v.c(3);
  if (rocs == 1)
    s.roc.LowerThreshold = 0.2, s.roc.UpperThreshold = 0.7;
  else if (rocs == 2)
    s.roc.Pessimistic = true, s.roc.Epsilon = 0.05;
  int limit = v.c(9), high = limit ? mc::choose(2) : 0;
  struct One {
    Ids exo;
    bool probit;
    unsigned pos;
  };
  vector<One> models;
  unsigned pos = 0;
  for (auto size : s.comb.Sizes) {
    pos++;
    if (size < s.comb.NumFixPartitions)
      continue;
    for (int p = 0; p < 2; p++)
      if (p ? s.probit : s.logit)
        admissible(s.comb.Partitions, size, s.comb.NumFixPartitions, [&](const Ids &x) { models.push_back({x, p == 1, pos}); });
  }
  mc::state(mc::hash_str(fmt("%d %d %d %d %d %d", (int)models.size(), special, nan, limit, s.J, base)));
  auto seedOf = [&](unsigned p) { return s.metrics.Seed < 0 ? (unsigned)-s.metrics.Seed : (unsigned)s.metrics.Seed + p; };
  if (limit) {
    vector<double> q;
    auto ck0 = s.checks.Estimation;
    s.checks.Estimation = true;
    for (auto &m : models) {
      auto a = dcAlone(s, m.exo, m.probit, seedOf(m.pos));
      if (!a.fail)
        q.push_back(limit == 1 ? a.obs : limit == 2 ? a.dof : limit == 3 ? a.aic : limit == 4 ? a.sic : limit == 5 ? a.cn : a.validSims);
    }
    s.checks.Estimation = ck0;
    if (limit <= 2) {
      if (q.empty())
        throw mc::Skip();
      std::sort(q.begin(), q.end());
      (limit == 1 ? s.checks.MinObsCount : s.checks.MinDof) = (int)q[q.size() / 2] + high;
    } else if (limit == 3)
      s.checks.MaxAic = between(q, high);
    else if (limit == 4)
      s.checks.MaxSic = between(q, high);
    else if (limit == 5) {
      if (!s.checks.Estimation)
        throw mc::Skip();
      s.checks.MaxConditionNumber = between(q, high);
    } else if (limit == 6)
      s.checks.MinOutSim = 1 + high;
    else if (limit == 7)
      s.checks.MinOutSim = s.metrics.SimFixSize;
    else
      s.checks.MinObsCount = 1;
  }
  if (s.checks.MinOutSim && (s.metrics.MetricsOut.empty() || s.checks.MinOutSim > s.metrics.SimFixSize))
    throw mc::Skip();
  mc::describe(fmt("dc: %d models data %d special %d missing %d obs %d labels %d weight %d/%d logit %d probit %d sizes %s groups %d fixed %d in %d out %d "
                   "tables %d sims %d train %d seed %d coefs %d iterations %d min %d roc %d limit %d/%d estimate %d",
                   (int)models.size(), base, special, nan, N, s.J, wt, s.metrics.WeightedEval, s.logit, s.probit, mc::join(s.comb.Sizes).c_str(),
                   (int)s.comb.Partitions.size(), s.comb.NumFixPartitions, (int)s.metrics.MetricsIn.size(), (int)s.metrics.MetricsOut.size(), tables,
                   s.metrics.SimFixSize, s.metrics.TrainFixSize, s.metrics.Seed, s.items.Length1, s.newton.IterationMax,
                   (int)s.metrics.MinMetricIn.size(), rocs, limit, high, s.checks.Estimation));
  Res want;
  for (auto &m : models) {
    auto a = dcAlone(s, m.exo, m.probit, seedOf(m.pos));
    expect(want, s, {0}, m.exo, {m.probit ? (int)DiscreteChoiceDistType::kProbit : (int)DiscreteChoiceDistType::kLogit}, a);
  }
  mc::outcome(want.failed() * 1000 + (int)want.count());
  Res got = s.run();
  mc::step();
  countsAgree(got, want, "");
  same(got, want, 1e-7, "value", "");
  identical(s, got);
}

// -------------------------------------------------------------------- VARMA --
static Alone varAlone(VarSearch &s, const Ids &endo, const Ids &exo, const Ids &par) {
  Alone a;
  int g = (int)endo.size(), k = (int)exo.size(), in = (int)s.metrics.MetricsIn.size(), out = (int)s.metrics.MetricsOut.size();
  a.metric.assign(in + out, vector<double>(g, NAN));
  a.items.resize(g);
  Ids cs = endo;
  cs.insert(cs.end(), exo.begin(), exo.end());
  // the sample: between the first and the last row at which all series exist
  int first = 0, last = s.rows - 1;
  for (int c : endo) {
    int f = 0, l = s.rows - 1;
    while (f < s.rows && std::isnan(s.at(f, c)))
      f++;
    while (l >= 0 && std::isnan(s.at(l, c)))
      l--;
    first = std::max(first, f), last = std::min(last, l);
  }
  for (int c : exo) {
    int f = 0, l = s.rows - 1;
    while (f < s.rows && std::isnan(s.at(f, c)))
      f++;
    while (l >= 0 && std::isnan(s.at(l, c)))
      l--;
    first = std::max(first, f), last = std::min(last, l);
  }
  int n = last - first + 1;
  auto &ck = s.checks;
  bool whole = ck.Estimation || in > 0 || ck.MinObsCount > 0 || ck.MinDof > 0 || isFinite(ck.MaxAic) || isFinite(ck.MaxSic) || isFinite(ck.MinR2);
  mc::step();
  try {
    VarmaSizes z(n, g, k, par[0], par[1], par[2], par[3], par[4], par[5], s.seasons);
    a.obs = n, a.dof = n - z.NumParamsEq;
    mk::Ref yr(g, n), xr(k, s.rows - first);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < g; j++)
        yr.at(j, i) = s.at(first + i, endo[j]);
    for (int i = 0; i < s.rows - first; i++)
      for (int j = 0; j < k; j++)
        xr.at(j, i) = s.at(first + i, exo[j]);
    mk::Mat<double> Y(yr), X(xr);
    std::optional<VarmaRestriction> R;
    mc::Guard<double> rs(4096, 0);
    if (z.HasMa) {
      R.emplace(z, VarmaRestrictionType::kMaFinal);
      R->Calculate(rs.p);
    }
    bool restr = R && R->IsRestricted;
    auto no = [&](bool bad, const char *t) {
      if (bad && !a.fail)
        a.fail = true, a.why = t;
    };
    if (whole) {
      Varma e(z, true, true, true, &s.optim);
      mc::Guard<double> st((size_t)e.Result.StorageSize, 0), wk((size_t)e.Result.WorkSize, 0);
      e.EstimateMl(Y.m, k ? &X.m : nullptr, wk.p, st.p, restr ? &R->R : nullptr, nullptr, 0, false, s.mult, INFINITY);
      a.aic = e.Result.Aic, a.sic = e.Result.Sic, a.cn = e.Result.cn;
      for (int i = 0; i < in; i++)
        for (int j = 0; j < g; j++)
          a.metric[i][j] = s.metrics.MetricsIn[i] == GoodnessOfFitType::kAic ? a.aic : a.sic;
      no(n < ck.MinObsCount, "observations");
      no(ck.MinDof > 0 && a.dof < ck.MinDof, "degrees of freedom");
      no(a.aic > ck.MaxAic, "aic");
      no(a.sic > ck.MaxSic, "sic");
      no(ck.Estimation && a.cn > ck.MaxConditionNumber, "condition number");
      if (ck.Prediction) {
        VarmaForecast f(z, s.maxHorizon, true);
        mc::Guard<double> fs((size_t)f.StorageSize, 0), fw((size_t)f.WorkSize, 0);
        f.Calculate(e, k ? &X.m : nullptr, &Y.m, fs.p, fw.p, s.maxHorizon, false);
        for (int h = 0; h < s.maxHorizon; h++)
          for (int j = 0; j < g; j++) {
            double v = f.Forecast.Get0(j, h + f.StartIndex);
            no(std::isnan(v), "no prediction");
            a.items[j].push_back({h, v, f.Variance.Get0(j, h + f.StartIndex)});
            if (endo[j] >= s.items.LengthTargets)
              continue;
            if (!a.lowest || v < *a.lowest)
              a.lowest = v;
            if (!a.highest || v > *a.highest)
              a.highest = v;
            if (ck.PredictionLower.Data)
              no(v < ck.PredictionLower.Get0(h, endo[j]) || v > ck.PredictionUpper.Get0(h, endo[j]), "prediction bound");
          }
      }
    }
    if (out) {
      VarmaSimulation sim(z, s.metrics.SimFixSize, s.metrics.Horizons, s.metrics.MetricsOut, &s.optim);
      mc::Guard<double> st((size_t)sim.StorageSize, 0), wk((size_t)sim.WorkSize, 0);
      vector<double> lam;
      for (auto e : endo)
        if (!s.data.Lambdas.empty())
          lam.push_back(s.data.Lambdas.at(e));
      bool cancel = false;
      sim.Calculate(st.p, wk.p, Y.m, cancel, k ? &X.m : nullptr, restr ? &R->R : nullptr, nullptr, s.usePrev,
                    isFinite(ck.MaxConditionNumber) ? ck.MaxConditionNumber : INFINITY, s.mult, false, INT32_MAX, lam.empty() ? nullptr : &lam);
      a.validSims = sim.ValidCounts;
      for (int i = 0; i < out; i++)
        for (int j = 0; j < g; j++)
          a.metric[in + i][j] = sim.ResultAggs.Get0(i, j);
      no(sim.ValidCounts < ck.MinOutSim || sim.ValidCounts == 0, "simulations");
    }
  } catch (std::exception &e) {
    a.fail = true, a.why = e.what();
  }
  return a;
}
static void varma() {
  Dev v{mc::qt(2, 3), mc::choose(2)};
  VarSearch s;
  s.data.HasIntercept = false;
  int base = v.c(3), numEndo = 2 + v.c(2), numExo = v.c(3, 1), future = 2 + v.c(2), T = 20 + 8 * v.c(2), N = T + future;
  vector<vector<double>> cols(numEndo + numExo, vector<double>(N, NAN));
  bool trend = v.c(2);
  for (int j = 0; j < numEndo; j++)
    for (int i = 0; i < T; i++)
      cols[j][i] = 5 + noise(i, j, base) + 0.5 * noise(i - 1, j, base) + 0.3 * noise(i - 1, (j + 1) % numEndo, base) + (trend ? 0.5 * i : 0);
  for (int j = 0; j < numExo; j++)
    for (int i = 0; i < N; i++)
      cols[numEndo + j][i] = j == 0 ? 1 : noise(i, 20 + j, base);
  int nan = v.c(6);
  if (nan == 1)
    cols[0][0] = NAN;
  else if (nan == 2)
    cols[1][0] = cols[1][1] = NAN;
  else if (nan == 3)
    cols[0][T - 1] = NAN; // the first series ends earlier
  else if (nan == 4)
    cols[1][T - 1] = NAN;
  else if (nan == 5 && numExo)
    cols[numEndo][N - 1] = NAN; // exogenous data ends early
  s.load(cols);
  s.data.NumEndo = numEndo, s.data.NumExo = numExo;
  s.items.LengthEndogenous = numEndo, s.items.LengthExogenous = numExo;
  s.items.LengthTargets = s.comb.NumTargets = 1 + v.c(numEndo, 1);
  switch (v.c(3)) {
  case 0:
    for (int j = 0; j < numEndo; j++)
      s.comb.Partitions.push_back({j});
    break;
  case 1: s.comb.Partitions = {{1}, {0}}; break;
  case 2:
    s.comb.Partitions = {{0, 1}};
    if (numEndo > 2)
      s.comb.Partitions.push_back({2});
    break;
  }
  switch (v.c(3)) {
  case 0: s.comb.Sizes = {1, 2}; break;
  case 1: s.comb.Sizes = {1}; break;
  case 2: s.comb.Sizes = {2}; break;
  }
  for (auto z : s.comb.Sizes)
    if (z > (int)s.comb.Partitions.size())
      throw mc::Skip();
  s.comb.NumFixPartitions = v.c(2);
  if (numExo) {
    switch (v.c(3)) {
    case 0: s.comb.InnerGroups = {{numEndo}}; break;
    case 1: s.comb.InnerGroups = {{numEndo}, {}}; break;
    case 2: s.comb.InnerGroups = {{numEndo + numExo - 1}, {numEndo}}; break;
    }
    if (s.comb.InnerGroups.size() > 1 && s.comb.InnerGroups[0] == s.comb.InnerGroups[1])
      s.comb.InnerGroups.pop_back();
  }
  switch (v.c(7)) {
  case 0: s.params = {1, 0, 0, 0, 0, 0}; break;
  case 1: s.params = {0, 0, 1, 0, 0, 0}; break;
  case 2: s.params = {1, 1, 0, 0, 0, 0}; break;
  case 3: s.params = {1, 0, 1, 0, 0, 0}; break;
  case 4: s.params = {2, 0, 0, 0, 0, 0}; break;
  case 5: s.params = {1, 0, 0, 1, 0, 0}, s.seasons = 4; break;
  case 6: s.params = {1, 0, 0, 0, 1, 0}, s.seasons = 2; break;
  }
  using G = GoodnessOfFitType;
  using O = ScoringType;
  s.metrics.MetricsIn = v.of<vector<G>>(0, {{G::kAic, G::kSic}, {G::kSic}, {}, {G::kSic, G::kAic}});
  static const vector<O> all{O::kSign, O::kDirection, O::kMae, O::kMape, O::kRmse, O::kRmspe, O::kCrps};
  s.metrics.MetricsOut = v.of<vector<O>>(2, {{}, {O::kRmse}, all, {O::kCrps, O::kDirection}});
  if (s.metrics.MetricsIn.empty() && s.metrics.MetricsOut.empty())
    throw mc::Skip();
  if (!s.metrics.MetricsOut.empty()) {
    s.metrics.SimFixSize = 2 + v.c(3);
    s.metrics.Horizons = v.of<vector<Ti>>(1, {{1}, {1, 2}, {2}, {1, 3}});
  }
  s.maxHorizon = 1 + v.c(3, 1);
  s.checks.Prediction = v.c(2) == 0;
  s.checks.Estimation = s.checks.Prediction || v.c(2) == 0;
  s.items.Length1 = !s.checks.Prediction || v.c(2) ? 0 : s.maxHorizon;
  s.usePrev = v.c(2);
  s.mult = v.of<double>(0, {2, 0});
  if (v.c(2, 1))
    for (int j = 0; j < numEndo; j++)
      s.data.Lambdas.push_back(j == 0 ? 0.5 : j == 1 ? 1 : -0.3);
  if (v.c(2, 1)) {
    for (auto t : s.metrics.MetricsIn)
      s.metrics.MinMetricIn[t] = {1, 2.5, -3};
    for (auto t : s.metrics.MetricsOut)
      s.metrics.MinMetricOut[t] = {0.25, 0.5, 1.5};
  }
  int limit = v.c(10), high = limit ? mc::choose(2) : 0;
  struct One {
    Ids endo, exo, par;
  };
  vector<One> models;
  vector<Ids> inner = s.comb.InnerGroups;
  if (inner.empty())
    inner.push_back({});
  for (auto size : s.comb.Sizes) {
    if (size < s.comb.NumFixPartitions)
      throw mc::Skip();
    Ids p(6);
    std::function<void(int)> walk = [&](int i) {
      if (i < 6) {
        for (p[i] = 0; p[i] <= s.params[i]; p[i]++)
          walk(i + 1);
        p[i] = 0;
        return;
      }
      if (p[0] + p[2] + p[3] + p[5] == 0)
        return;
      for (auto &g : inner)
        admissible(s.comb.Partitions, size, s.comb.NumFixPartitions, [&](Ids e) {
          std::sort(e.begin(), e.end());
          if (e[0] < s.items.LengthTargets)
            models.push_back({e, g, p});
        });
    };
    walk(0);
  }
  if (models.empty())
    throw mc::Skip();
  mc::state(mc::hash_str(fmt("%d %d %d %d %d", (int)models.size(), nan, limit, base, s.params[0])));
  mk::Ref lo(s.maxHorizon, s.items.LengthTargets, -1e9), hi(s.maxHorizon, s.items.LengthTargets, 1e9);
  if (limit) {
    vector<double> q;
    auto ck0 = s.checks.Estimation;
    s.checks.Estimation = true;
    for (auto &m : models) {
      auto a = varAlone(s, m.endo, m.exo, m.par);
      if (!a.fail)
        q.push_back(limit == 1 ? a.obs : limit == 2 ? a.dof : limit == 3 ? a.aic : limit == 4 ? a.sic : limit == 5 ? a.cn : limit == 6 ? a.lowest.value_or(0) : limit == 7 ? a.highest.value_or(0) : a.validSims);
    }
    s.checks.Estimation = ck0;
    if (limit <= 2) {
      if (q.empty())
        throw mc::Skip();
      std::sort(q.begin(), q.end());
      (limit == 1 ? s.checks.MinObsCount : s.checks.MinDof) = (int)q[q.size() / 2] + high;
    } else if (limit == 3)
      s.checks.MaxAic = between(q, high);
    else if (limit == 4)
      s.checks.MaxSic = between(q, high);
    else if (limit == 5) {
      if (!s.checks.Estimation)
        throw mc::Skip();
      s.checks.MaxConditionNumber = between(q, high);
    } else if (limit <= 7) {
      if (!s.checks.Prediction)
        throw mc::Skip();
      double b = between(q, high);
      for (int h = 0; h < lo.r; h++)
        for (int j = 0; j < lo.c; j++)
          (limit == 6 ? lo : hi).at(h, j) = b;
    } else if (limit == 8)
      s.checks.MinOutSim = 1 + high;
    else
      s.checks.MinOutSim = s.metrics.SimFixSize - high;
  }
  mk::Mat<double> LO(lo), HI(hi);
  if (limit == 6 || limit == 7)
    s.checks.PredictionLower = LO.m, s.checks.PredictionUpper = HI.m;
  if (s.checks.MinOutSim < 0 || (s.checks.MinOutSim && (s.metrics.MetricsOut.empty() || s.checks.MinOutSim > s.metrics.SimFixSize)))
    throw mc::Skip();
  mc::describe(fmt("varma: %d models data %d trend %d missing %d T %d future %d endo %d exo %d targets %d sizes %s fixed %d groups %d inner %d params %s season %d in %d out "
                   "%d sims %d horizons %s max horizon %d coefs %d prediction %d previous %d multiplier %g lambdas %d min %d limit %d/%d estimate %d",
                   (int)models.size(), base, trend, nan, T, future, numEndo, numExo, s.items.LengthTargets, mc::join(s.comb.Sizes).c_str(),
                   s.comb.NumFixPartitions, (int)s.comb.Partitions.size(), (int)s.comb.InnerGroups.size(), mc::join(s.params).c_str(), s.seasons,
                   (int)s.metrics.MetricsIn.size(), (int)s.metrics.MetricsOut.size(), s.metrics.SimFixSize, mc::join(s.metrics.Horizons).c_str(),
                   s.maxHorizon, s.items.Length1, s.checks.Prediction, s.usePrev, s.mult, (int)s.data.Lambdas.size(),
                   (int)(s.metrics.MinMetricIn.size() + s.metrics.MinMetricOut.size()), limit, high, s.checks.Estimation));
  Res want;
  for (auto &m : models) {
    auto a = varAlone(s, m.endo, m.exo, m.par);
    expect(want, s, m.endo, m.exo, m.par, a);
  }
  mc::outcome(want.failed() * 1000 + (int)want.count());
  Res got = s.run();
  mc::step();
  countsAgree(got, want, "");
  same(got, want, 1e-6, "value", "");
  identical(s, got);
}

int main(int argc, char **argv) {
  return mc::harness_main(argc, argv,
                          {
                              {"c07_dc", dc, "all settings within 2 (3) deviations of the default"},
                              {"c07_varma", varma, "all settings within 2 (3) deviations of the default"},
                              {"c07_sur", sur, "all settings within 2 (3) deviations of the default"},
                          });
}
