// The calculators of models: SUR, discrete choice and VARMA.
#pragma once
#include "calckit.h"
#include "discrete_choice.h"
#include "pca.h"
#include "scoring.h"
#include "sur.h"
#include "varma.h"
namespace ck {
inline mk::Ref part(const mk::Ref &a, int i0, int j0, int r, int c) {
  mk::Ref o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      o.at(i, j) = a.at(i0 + i, j0 + j);
  return o;
}
/// regression data: an intercept first among the exogenous variables
inline mk::Ref regData(int n, int m, int k, int variant, int seed = 0) {
  mk::Ref o = table(n, m + k, variant, seed);
  for (int i = 0; i < n; i++)
    if (k > 0 && variant != Equal)
      o.at(i, m) = 1;
  return o;
}
inline mk::Ref restrictions(int rows, int kind) {
  // 1: the last coefficient is zero; 2: the first two are equal; 3: nothing is restricted
  int q = kind == 3 ? rows : rows - 1;
  mk::Ref R(rows, q);
  for (int i = 0; i < rows; i++) {
    int j = kind == 2 ? (i == 0 ? 0 : i - 1) : i;
    if (j < q)
      R.at(i, j) = 1;
  }
  return R;
}
inline void out(Run &r, const Sur &s, bool details, bool variance) {
  r.m(s.gamma, "gamma"), r.m(s.beta, "beta"), r.m(s.yhat, "yhat"), r.m(s.resid, "residuals"), r.m(s.resid_var, "residual variance");
  r.s(s.condition_number, "condition number");
  if (variance)
    r.m(s.gamma_var, "gamma variance");
  if (details) {
    r.m(s.e_beta_std, "std"), r.m(s.e_beta_t, "t"), r.m(s.e_beta_prob, "p-value");
    for (double v : {s.logLikelihood, s.r2, s.f, s.f_prob, s.f_prob_d1, s.f_prob_d2, s.Aic, s.Sic, s.Hqic})
      r.s(v, "goodness");
  }
  r.s(s.mSigSearchIter, "search iterations");
}
// ---------------------------------------------------------------------- SUR --
inline Kind sur() {
  Kind k;
  k.name = "Sur";
  k.opts = {{0, 1, 2, 3}, {0, 1}, {0, 1, 2}}; // restrictions, details, significance search
  k.fewOpts = {{0, 1}, {1}, {0, 2}};
  k.dims = {{5, 9}, {1, 3}, {1, 3}};
  k.few = {{6, 9}, {1, 2}, {1, 3}};
  k.data = {Plain, Other, Constant, Equal};
  k.fewData = {Plain, Equal};
  k.admissible = [](const In &c) { return (c.o[0] == 0 || c.d[1] * c.d[2] > 1) && (c.o[2] == 0 || c.o[0] == 0) && c.d[0] > c.d[2] + 1; };
  k.make = [](const In &d) {
    auto e = std::make_shared<Sur>(d.d[0], d.d[1], d.d[2], d.o[0] > 0, d.o[1], d.o[2]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      mk::Ref all = regData(c.d[0], c.d[1], c.d[2], c.data);
      auto &y = r.in(part(all, 0, 0, c.d[0], c.d[1])), &x = r.in(part(all, 0, c.d[1], c.d[0], c.d[2]));
      int km = c.d[1] * c.d[2];
      std::unique_ptr<mk::Mat<double>> R;
      if (c.o[0] > 0)
        R = std::make_unique<mk::Mat<double>>(restrictions(km, c.o[0]));
      else if (c.o[2] > 0)
        R = std::make_unique<mk::Mat<double>>(mk::Ref(km, km));
      e->Calculate(y, x, st, wk, R ? &R->m : nullptr, c.o[2] ? 0.4 : 0);
      out(r, *e, c.o[1] || c.o[2], true);
      if (R)
        r.m(R->m, "restrictions");
    };
    return o;
  };
  return k;
}
inline Kind surProjection() {
  Kind k;
  k.name = "SurProjection";
  k.opts = {{0, 1, 2}, {0, 1}}; // restrictions, variance
  k.dims = {{1, 4}, {1, 3}, {1, 3}};
  k.few = {{1, 4}, {1, 3}, {1, 3}};
  k.data = {Plain, Other, Nan};
  k.admissible = [](const In &c) { return c.o[0] == 0 || c.d[1] * c.d[2] > 1; };
  k.make = [](const In &d) {
    auto e = std::make_shared<SurProjection>(d.d[0], d.d[1], d.d[2], d.o[0] > 0, d.o[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      int N = 9, m = c.d[1], kk = c.d[2];
      mk::Ref all = regData(N, m, kk, Plain);
      auto &y = r.in(part(all, 0, 0, N, m)), &x = r.in(part(all, 0, m, N, kk));
      Sur s(N, m, kk, c.o[0] > 0, false, 0);
      vector<double> S(s.StorageSize), W(s.WorkSize);
      std::unique_ptr<mk::Mat<double>> R;
      if (c.o[0] > 0)
        R = std::make_unique<mk::Mat<double>>(restrictions(m * kk, c.o[0]));
      s.Calculate(y, x, S.data(), W.data(), R ? &R->m : nullptr);
      auto &nx = r.in(table(c.d[0], kk, c.data, 9));
      e->Calculate(s, nx, st, wk);
      r.m(e->Means, "means");
      if (c.o[1])
        r.m(e->Variances, "variances"), r.m(e->Covariance, "covariance");
    };
    return o;
  };
  return k;
}
inline std::shared_ptr<PcaAnalysisOptions> pcaOptions(int kind, int ignore) {
  auto p = std::make_shared<PcaAnalysisOptions>();
  p->IgnoreFirstCount = ignore;
  if (kind == 1)
    p->ExactCount = 1;
  else if (kind == 2)
    p->CutoffRate = 0.8, p->CutoffCountMax = 2;
  return p;
}
/// options 0: restricted, 1: NaN, 2: projections, 3: PCA of endogenous, 4: PCA of exogenous, 5: details
inline Kind surExtended() {
  Kind k;
  k.name = "SurExtended";
  k.opts = {{0, 1}, {0, 1}, {0, 1, 2}, {0, 1, 2}, {0, 1, 2}, {1}, {0, 2}};
  k.fewOpts = {{0, 1}, {0, 1}, {2}, {0, 2}, {0, 1}, {1}, {0}};
  k.mustRun = false; // no significant coefficients
  k.dims = {{8, 10}, {1, 3}, {1, 4}, {1, 3}}; // observations, equations, exogenous, projections
  k.few = {{8, 10}, {1, 2}, {1, 3}, {1, 3}};
  k.data = {Plain, Nan, Equal};
  k.fewData = {Plain, Nan};
  k.admissible = [](const In &c) {
    return (c.o[1] || c.data != Nan) && !(c.o[0] && (c.o[3] || c.o[4] || c.o[6])) && (c.o[2] || c.d[3] == 1) && (c.o[0] == 0 || c.d[1] * c.d[2] > 1) && !(c.o[6] && (c.o[3] == 1 || c.o[4] == 1)) && (c.o[4] == 0 || c.d[2] > 1);
  };
  k.make = [](const In &d) {
    std::shared_ptr<PcaAnalysisOptions> py = d.o[3] ? pcaOptions(d.o[3], 0) : nullptr, px = d.o[4] ? pcaOptions(d.o[4], 1) : nullptr;
    auto e = std::make_shared<SurExtended>(d.d[0], d.d[1], d.d[2], d.o[0] > 0 || d.o[6], d.o[1], d.o[5], d.o[2] ? d.d[3] : 0, d.o[6], d.o[2] == 2, py.get(), px.get());
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, py, px](const In &c, double *st, double *wk, int *, Run &r) {
      int m = c.d[1], kk = c.d[2];
      auto &data = r.in(regData(c.d[0], m, kk, c.data));
      std::unique_ptr<mk::Mat<double>> R;
      if (c.o[0])
        R = std::make_unique<mk::Mat<double>>(restrictions(m * kk, 1));
      else if (c.o[6])
        R = std::make_unique<mk::Mat<double>>(mk::Ref(m * kk, m * kk));
      Matrix<double> *nx = nullptr;
      if (c.o[2])
        nx = &r.in(regData(c.d[3], 0, kk, Plain, 9));
      e->Calculate(data, m, st, wk, R ? &R->m : nullptr, c.o[6] ? 0.4 : 0, nx);
      out(r, e->Model, true, true);
      r.m(e->Y, "Y"), r.m(e->X, "X");
      if (c.o[2])
        r.m(e->Projections.Means, "projections");
      if (c.o[2] == 2)
        r.m(e->Projections.Variances, "variances");
    };
    return o;
  };
  return k;
}
template <int set> inline const vector<ScoringType> &someMetrics() {
  static vector<ScoringType> v[3] = {{ScoringType::kRmse}, {ScoringType::kMae, ScoringType::kRmspe, ScoringType::kSign}, {ScoringType::kCrps, ScoringType::kMape}};
  return v[set];
}
inline const vector<ScoringType> &metricsOf(int set) { return set == 0 ? someMetrics<0>() : set == 1 ? someMetrics<1>() : someMetrics<2>(); }
/// options 0: metrics, 1: training (0: two thirds, 1: fixed), 2: restricted, 3: search, 4: PCA of exogenous, 5: Box-Cox
inline Kind surSimulation() {
  Kind k;
  k.name = "SurSimulation";
  k.opts = {{0, 1, 2}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}};
  k.fewOpts = {{1, 2}, {0, 1}, {0, 1}, {0}, {0, 1}, {0, 1}};
  k.dims = {{8, 11}, {1, 3}, {1, 3}};
  k.few = {{9, 11}, {1, 2}, {1, 3}};
  k.data = {Plain, Other, Equal};
  k.fewData = {Plain, Equal};
  k.mustRun = false; // a part of the sample can be singular
  k.admissible = [](const In &c) { return c.o[2] + c.o[3] + c.o[4] <= 1 && (c.o[2] == 0 || c.d[1] * c.d[2] > 1) && (!c.o[4] || c.d[2] > 1); };
  k.make = [](const In &d) {
    std::shared_ptr<PcaAnalysisOptions> px = d.o[4] ? pcaOptions(1, 1) : nullptr;
    auto e = std::make_shared<SurSimulation>(d.d[0], d.d[1], d.d[2], d.o[1] ? 0 : 0.7, d.o[1] ? 6 : 0, metricsOf(d.o[0]), d.o[2] || d.o[3], d.o[3], nullptr, px.get());
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, px](const In &c, double *st, double *wk, int *, Run &r) {
      int m = c.d[1], kk = c.d[2];
      mk::Ref t = regData(c.d[0], m, kk, c.data);
      if (c.o[5])
        for (int i = 0; i < t.r; i++)
          for (int j = 0; j < m; j++)
            t.at(i, j) = 0.25 + std::fabs(t.at(i, j)) / 8;
      mk::Mat<double> data(t);
      std::unique_ptr<mk::Mat<double>> R;
      if (c.o[2])
        R = std::make_unique<mk::Mat<double>>(restrictions(m * kk, 1));
      else if (c.o[3])
        R = std::make_unique<mk::Mat<double>>(mk::Ref(m * kk, m * kk));
      vector<double> lambdas(m, 0.5);
      bool cancel = false;
      e->Calculate(data.m, m, st, wk, R ? &R->m : nullptr, cancel, 3, 7, c.o[3] ? 0.4 : 0, INFINITY, INT32_MAX, c.o[5] ? &lambdas : nullptr);
      r.s(e->ValidCounts, "valid counts"), r.s(e->ValidIters, "valid iterations");
      r.m(e->Results, "results");
      for (auto &x : e->Errors)
        r.s(x.second, "error: " + x.first);
      data.unchanged("SurSimulation");
    };
    return o;
  };
  return k;
}
// ---------------------------------------------------------- discrete choice --
inline mk::Ref choiceData(int n, bool weight, int k, int J, int variant) {
  mk::Ref o(n, 1 + weight + k);
  for (int i = 0; i < n; i++) {
    int s = variant == Other ? 50 : 0;
    o.at(i, 0) = variant == Equal ? 0 : (i * 5 + (i * i) / 3 + (variant == Other)) % J;
    if (weight)
      o.at(i, 1) = 0.5 + (i % 3) * 0.5;
    for (int j = 0; j < k; j++)
      o.at(i, 1 + weight + j) = j == 0 ? 1 : gen(i, j, s) / 4;
  }
  if (variant == Constant && k > 1)
    for (int i = 0; i < n; i++)
      o.at(i, weight + k) = 2;
  if (variant == Nan)
    o.at(1, weight + k) = NAN, o.at(n - 1, 0) = NAN;
  return o;
}
inline DiscreteChoiceModelType modelOf(int t) { return t & 1 ? DiscreteChoiceModelType::kOrdered : DiscreteChoiceModelType::kBinary; }
inline DiscreteChoiceDistType linkOf(int t) { return t & 2 ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit; }
inline void out(Run &r, const DiscreteChoiceBase &e, bool details) {
  r.m(e.Beta, "beta"), r.m(e.BetaVar, "variance"), r.m(e.Counts, "counts");
  for (double v : {(double)e.NumObs, (double)e.NumCutoff, (double)e.NumChoices, e.LogL, e.Aic, e.Sic, e.condition_number})
    r.s(v, "goodness");
  if (details)
    r.m(e.BetaStd, "std"), r.m(e.BetaZ, "z"), r.m(e.BetaProb, "p-value");
}
/// options 0: type, 1: weights, 2: details
inline Kind discreteChoice() {
  Kind k;
  k.name = "DiscreteChoice";
  k.opts = {{0, 1, 2, 3}, {0, 1}, {0, 1}, {0, 1}};
  k.fewOpts = {{0, 1, 3}, {0, 1}, {1}, {1}};
  k.dims = {{8, 13}, {1, 3}, {2, 4}}; // observations, exogenous, choices
  k.few = {{9, 13}, {1, 3}, {2, 3, 4}};
  k.data = {Plain, Other, Constant, Equal};
  k.fewData = {Plain, Constant};
  k.mustRun = false;
  k.admissible = [](const In &c) { return c.o[0] & 1 ? c.d[2] > 2 : c.d[2] == 2; };
  k.make = [](const In &d) {
    std::shared_ptr<DiscreteChoiceBase> e = DiscreteChoiceBase::GetFromType(modelOf(d.o[0]), linkOf(d.o[0]), d.d[0], d.d[1], d.d[2], d.o[2]);
    e->Optim.IterationMax = 30;
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      mk::Ref all = choiceData(c.d[0], true, c.d[1], c.d[2], c.data);
      auto &y = r.in(part(all, 0, 0, c.d[0], 1)), &w = r.in(part(all, 0, 1, c.d[0], 1)), &x = r.in(part(all, 0, 2, c.d[0], c.d[1]));
      e->Calculate(y, x, c.o[1] ? &w : nullptr, st, wk, c.o[3] ? c.d[2] : -1);
      out(r, *e, c.o[2]);
      // probabilities need M + choices - 2 elements of work
      int M = 3;
      auto &nx = r.in(regData(M, 0, c.d[1], Plain, 9));
      mc::Guard<double> w2(M + c.d[2] - 2, 0xff), p2(M * c.d[2], 0xff);
      Matrix<double> probs(p2.p, M, c.d[2]);
      e->GetProbabilities(nx, probs, w2.p);
      mc::check(w2.intact() && p2.intact(), "memory", "probabilities: writes before its memory");
      r.m(probs, "probabilities");
    };
    return o;
  };
  return k;
}
/// options 0: type, 1: weights, 2: NaN, 3: details, 4: forecasts, 5: PCA, 6: cost matrices, 7: weighted evaluation
inline Kind choiceExtended() {
  Kind k;
  k.name = "DiscreteChoiceExtended";
  k.opts = {{0, 1, 2}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1, 2}, {0, 1, 2}, {0, 1}};
  k.fewOpts = {{0, 1}, {0, 1}, {0, 1}, {0, 1}, {1}, {0, 1}, {1}, {1}};
  k.dims = {{9, 12}, {1, 4}, {2, 4}, {1, 3}};
  k.few = {{10, 12}, {1, 3}, {2, 3}, {1, 3}};
  k.data = {Plain, Nan, Other};
  k.fewData = {Plain, Nan};
  k.mustRun = false;
  k.admissible = [](const In &c) {
    bool ordered = c.o[0] & 1;
    return (ordered ? c.d[2] > 2 && !c.o[3] : c.d[2] == 2) && (c.o[2] || c.data != Nan) && (c.o[4] || c.d[3] == 1) && (c.o[1] || !c.o[7]) && (c.o[5] == 0 || c.d[1] > 1) && (c.o[3] || !c.o[6]);
  };
  k.make = [](const In &d) {
    std::shared_ptr<PcaAnalysisOptions> px = d.o[5] ? pcaOptions(d.o[5], 1) : nullptr;
    auto mats = std::make_shared<vector<std::unique_ptr<mk::Mat<double>>>>();
    auto costs = std::make_shared<vector<Matrix<double>>>();
    int J = d.d[2];
    for (int q = 0; q < d.o[6]; q++) { // thresholds, then costs of each choice
      mk::Ref t(3, J + 1);
      for (int i = 0; i < 3; i++) {
        t.at(i, 0) = i == 2 ? 1 : 0.3 * (i + 1);
        for (int j = 0; j < J; j++)
          t.at(i, j + 1) = (i + 2 * j + q) % 4;
      }
      mats->push_back(std::make_unique<mk::Mat<double>>(t));
      costs->push_back(Matrix<double>(mats->back()->m.Data, 3, J + 1));
    }
    auto e = std::make_shared<DiscreteChoiceExtended>(modelOf(d.o[0]), linkOf(d.o[0]), d.d[0], 1 + d.o[1] + d.d[1], d.o[1], d.o[2], J, d.o[3], d.o[4] ? d.d[3] : 0, px.get(), d.o[6] ? costs.get() : nullptr, d.o[7]);
    e->Model->Optim.IterationMax = 30;
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, px, mats, costs](const In &c, double *st, double *wk, int *, Run &r) {
      auto &data = r.in(choiceData(c.d[0], c.o[1], c.d[1], c.d[2], c.data));
      Matrix<double> *nx = c.o[4] ? &r.in(regData(c.d[3], 0, c.d[1], Plain, 9)) : nullptr;
      RocOptions roc;
      e->Calculate(data, st, wk, true, nx, roc);
      out(r, *e->Model, c.o[3]);
      r.m(e->Y, "Y"), r.m(e->X, "X");
      if (c.o[1])
        r.m(e->W, "W");
      if (c.o[4])
        r.m(e->PredProbs, "forecasts");
      if (c.o[3]) {
        r.m(e->Projections, "projections"), r.s(e->Auc, "AUC"), r.s(e->BrierScore, "Brier");
        if (c.o[6])
          r.s(e->CostRatioAvg, "cost");
      }
    };
    return o;
  };
  return k;
}
/// options 0: type, 1: weights, 2: fixed training, 3: cost matrices, 4: Brier, 5: AUC, 6: frequency table, 7: PCA
inline Kind choiceSim() {
  Kind k;
  k.name = "DiscreteChoiceSim";
  k.opts = {{0, 1, 2}, {0, 1}, {0, 1}, {0, 1, 2}, {0, 1}, {0, 1}, {0, 1}, {0, 1}};
  k.fewOpts = {{0}, {0, 1}, {0, 1}, {1}, {1}, {1}, {0, 1}, {0, 1}};
  k.dims = {{11, 14}, {1, 3}, {2, 3}};
  k.few = {{12, 14}, {1, 3}, {2}};
  k.data = {Plain, Other, Equal};
  k.fewData = {Plain, Equal};
  k.mustRun = false;
  k.tol = 1e-7;
  k.admissible = [](const In &c) {
    bool ordered = c.o[0] & 1;
    return (ordered ? c.d[2] > 2 && !c.o[3] && !c.o[4] && !c.o[5] && c.o[6] : c.d[2] == 2 && (c.o[3] || c.o[4] || c.o[5])) && (!c.o[7] || c.d[1] > 1);
  };
  k.make = [](const In &d) {
    std::shared_ptr<PcaAnalysisOptions> px = d.o[7] ? pcaOptions(1, 1) : nullptr;
    auto mats = std::make_shared<vector<std::unique_ptr<mk::Mat<double>>>>();
    auto costs = std::make_shared<vector<Matrix<double>>>();
    int J = d.d[2];
    for (int q = 0; q < d.o[3]; q++) {
      mk::Ref t(3, J + 1);
      for (int i = 0; i < 3; i++) {
        t.at(i, 0) = i == 2 ? 1 : 0.3 * (i + 1);
        for (int j = 0; j < J; j++)
          t.at(i, j + 1) = (i + 2 * j + q) % 4;
      }
      mats->push_back(std::make_unique<mk::Mat<double>>(t));
      costs->push_back(Matrix<double>(mats->back()->m.Data, 3, J + 1));
    }
    std::shared_ptr<DiscreteChoiceSimBase> e = DiscreteChoiceSimBase::GetFromType(d.o[1], modelOf(d.o[0]), linkOf(d.o[0]), d.d[0], 1 + d.o[1] + d.d[1], J, d.o[2] ? 0 : 0.7, d.o[2] ? 9 : 0, d.o[3], d.o[4], d.o[5], d.o[6], px.get(), d.o[1]);
    e->Optim.IterationMax = 10;
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize, o.wi = e->WorkSizeI;
    o.run = [e, px, mats, costs](const In &c, double *st, double *wk, int *wi, Run &r) {
      auto &data = r.in(choiceData(c.d[0], c.o[1], c.d[1], c.d[2], c.data));
      bool cancel = false;
      RocOptions roc;
      e->Seed = 3, e->SimulationMax = 3;
      std::set<const char *> errors;
      e->Calculate(data, c.o[3] ? costs.get() : nullptr, st, wk, wi, cancel, roc, true, &errors);
      r.s(e->ValidSimulationCount, "valid"), r.s(e->N1, "test size"), r.s(e->SimulationCounter, "counter");
      if (c.o[3])
        r.m(e->CostRatios, "costs");
      if (c.o[4])
        r.s(e->BrierScore, "Brier");
      if (c.o[5])
        r.s(e->Auc, "AUC");
      if (c.o[6])
        r.m(e->FrequencyTable, "frequencies");
    };
    return o;
  };
  return k;
}
// -------------------------------------------------------------------- VARMA --
struct Lags {
  int p, d, q, P, D, Q, s;
};
inline Lags lags(int i) {
  static const Lags all[] = {{1, 0, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0, 0}, {1, 0, 1, 0, 0, 0, 0}, {1, 1, 0, 0, 0, 0, 0},
                             {2, 0, 0, 0, 0, 0, 0}, {0, 1, 1, 0, 0, 0, 0}, {1, 0, 0, 1, 0, 0, 3}, {0, 1, 1, 0, 1, 0, 2},
                             {1, 2, 0, 0, 0, 1, 2}};
  return all[i];
}
inline std::shared_ptr<VarmaSizes> sizes(const Lags &l, int n, int g, int x) { return std::make_shared<VarmaSizes>(n, g, x, l.p, l.d, l.q, l.P, l.D, l.Q, l.s); }
inline LimitedMemoryBfgsbOptions *fastOptim() {
  static LimitedMemoryBfgsbOptions o;
  o.IterationMax = 4;
  return &o;
}
/// variables in rows
inline mk::Ref seriesData(int n, int g, int variant, int seed) { return table(n, g, variant, seed).t(); }
inline void out(Run &r, const Varma &v, bool details, bool variance) {
  auto &e = v.Result;
  r.m(e.y, "y"), r.m(e.Xt, "X"), r.m(e.gamma, "gamma"), r.m(e.coef, "coefficients"), r.m(e.resid, "residuals"), r.m(e.sigma2, "sigma");
  r.s(e.cn, "condition number");
  if (variance)
    r.m(e.gammavar, "variance");
  if (details) {
    r.m(e.coefstd, "std"), r.m(e.coeft, "t"), r.m(e.coefprob, "p-value");
    r.s(e.LogLikelihood, "log-likelihood"), r.s(e.Aic, "AIC"), r.s(e.Sic, "SIC");
  }
}
/// options 0: lags, 1: restrictions, 2: details, 3: variances, 4: excluded observations
template <bool ml> inline Kind varma() {
  Kind k;
  k.name = ml ? "Varma(likelihood)" : "Varma(least squares)";
  k.opts = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1, 2}, {0, 1}, {0, 1}, {0, 2}};
  k.fewOpts = {{0, 2, 5}, {0, 1}, {1}, {1}, {0, 2}};
  if (!ml)
    k.opts = {{0, 1, 2, 3, 4, 6, 8}, {0, 1}, {0, 1}, {0}, {0, 2}}, k.fewOpts = {{0, 2, 3}, {0, 1}, {0, 1}, {0}, {0, 2}}; // option 2: given residuals
  k.dims = {{12, 14}, {1, 2}, {0, 1}}; // observations, equations, exogenous
  k.few = {{12, 14}, {1, 2}, {0, 1}};
  k.data = {Plain, Other, Equal};
  k.fewData = {Plain, Equal};
  k.mustRun = false;
  k.tol = 1e-7;
  k.admissible = [](const In &c) {
    Lags l = lags(c.o[0]);
    VarmaSizes s(c.d[0], c.d[1], c.d[2], l.p, l.d, l.q, l.P, l.D, l.Q, l.s);
    return (c.o[1] == 0 || s.NumParams > 1) && s.T - c.o[4] > s.NumParamsEq + 1;
  };
  k.make = [](const In &d) {
    Lags l = lags(d.o[0]);
    auto s = sizes(l, d.d[0] - d.o[4], d.d[1], d.d[2]); // excluded observations need no memory
    auto e = std::make_shared<Varma>(*s, d.o[1] > 0, d.o[2], d.o[3], fastOptim());
    Obj o;
    o.st = e->Result.StorageSize, o.wk = e->Result.WorkSize;
    o.run = [e, l](const In &c, double *st, double *wk, int *, Run &r) {
      auto &y = r.in(seriesData(c.d[0], c.d[1], c.data, 3));
      Matrix<double> *x = c.d[2] ? &r.in(seriesData(c.d[0], c.d[2], Plain, 4)) : nullptr;
      int params = sizes(l, c.d[0], c.d[1], c.d[2])->NumParams;
      Matrix<double> *R = c.o[1] ? &r.in(restrictions(params, c.o[1])) : nullptr;
      Matrix<double> *rr = c.o[1] == 2 ? &r.in(table(params, 1, Plain, 8)) : nullptr;
      if (ml)
        e->EstimateMl(y, x, wk, st, R, rr, c.o[4]);
      else {
        Matrix<double> *given = nullptr;
        if (c.o[2])
          given = &r.in(seriesData(sizes(l, c.d[0], c.d[1], c.d[2])->T - c.o[4], c.d[1], Plain, 6));
        e->EstimateOls(y, x, R, rr, wk, st, c.o[4], false, given);
      }
      if (ml)
        out(r, *e, c.o[2], true);
      else
        r.m(e->Result.gamma, "gamma"), r.m(e->Result.resid, "residuals"), r.m(e->Result.sigma2, "sigma"), r.m(e->Result.Xt, "X"), r.s(e->Result.cn, "cn");
    };
    return o;
  };
  return k;
}
/// options 0: lags, 1: variance, 2: excluded observations, 3: new exogenous data
inline Kind varmaForecast() {
  Kind k;
  k.name = "VarmaForecast";
  k.opts = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1}, {0, 2}, {0, 1}};
  k.fewOpts = {{0, 2, 5}, {0, 1}, {0}, {1}};
  k.dims = {{1, 3}, {1, 2}, {0, 1}}; // horizon, equations, exogenous
  k.few = {{1, 3}, {1, 2}, {0, 1}};
  k.data = {Plain, Other};
  k.tol = 1e-7;
  k.mustRun = false;
  k.make = [](const In &d) {
    Lags l = lags(d.o[0]);
    auto s = sizes(l, 14, d.d[1], d.d[2]);
    auto e = std::make_shared<VarmaForecast>(*s, d.d[0], d.o[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, l](const In &c, double *st, double *wk, int *, Run &r) {
      int N = 14;
      mk::Ref ys = seriesData(N, c.d[1], c.data, 3), xs = seriesData(N + c.d[0], std::max(1, c.d[2]), Plain, 4);
      auto &y = r.in(ys);
      Matrix<double> *x = c.d[2] ? &r.in(xs) : nullptr;
      Varma v(*sizes(l, N, c.d[1], c.d[2]), false, false, true, fastOptim());
      vector<double> S(v.Result.StorageSize), W(v.Result.WorkSize);
      v.EstimateMl(y, x, W.data(), S.data(), nullptr, nullptr, c.o[2]);
      Matrix<double> *nx = x;
      if (c.o[3] && c.d[2])
        nx = &r.in(part(xs, 0, N - c.o[2], c.d[2], c.d[0]));
      e->Calculate(v, nx, &y, st, wk, c.d[0], c.o[3]);
      r.m(e->Forecast, "forecast");
      r.s(e->StartIndex, "start"), r.s(e->StartDiff, "difference");
      if (c.o[1])
        r.m(e->Variance, "variance");
    };
    return o;
  };
  return k;
}
/// options 0: lags, 1: restriction, 2: NaN, 3: horizon, 4: PCA of endogenous, 5: PCA of exogenous, 6: excluded, 7: details
inline Kind varmaExtended() {
  Kind k;
  k.name = "VarmaExtended";
  k.opts = {{0, 2, 3, 5, 7}, {0, 1}, {0, 1}, {0, 2}, {0, 1}, {0, 1}, {0, 1}, {1}};
  k.fewOpts = {{0, 2, 3}, {0, 1}, {0, 1}, {2}, {0, 1}, {0, 1}, {0}, {1}};
  k.dims = {{16, 18}, {1, 3}, {0, 2}};
  k.few = {{16, 18}, {2, 3}, {0, 2}};
  k.data = {Plain, Other, 6};
  k.fewData = {Plain, 6};
  k.mustRun = false;
  k.tol = 1e-7;
  k.keepsInputs = true;
  k.admissible = [](const In &c) { return (c.o[2] || c.data != 6) && (!c.o[4] || c.d[1] > 1) && (!c.o[5] || c.d[2] > 1) && (!c.o[1] || lags(c.o[0]).q > 0); };
  k.related = [](const In &declared, const In &c) { return declared.d[1] == c.d[1] && declared.d[2] == c.d[2]; };
  k.make = [](const In &d) {
    Lags l = lags(d.o[0]);
    std::shared_ptr<PcaAnalysisOptions> py = d.o[4] ? pcaOptions(2, 0) : nullptr, px = d.o[5] ? pcaOptions(1, 0) : nullptr;
    auto s = sizes(l, d.d[0], d.d[1], d.d[2]);
    auto e = std::make_shared<VarmaExtended>(*s, d.o[1] ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone, d.o[2], d.o[7], true, d.o[3], py.get(), px.get(), fastOptim());
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, py, px](const In &c, double *st, double *wk, int *, Run &r) {
      int n = c.d[0], g = c.d[1], x = c.d[2];
      mk::Ref t = table(n + (x ? c.o[3] : 0), g + x, Plain, c.data == Other ? 40 : 3);
      for (int i = n; i < t.r; i++) // after the sample: only exogenous data
        for (int j = 0; j < g; j++)
          t.at(i, j) = NAN;
      if (c.data == 6)
        t.at(0, 0) = NAN, t.at(0, g + x - 1) = NAN;
      if (!c.o[2] && x && c.o[3]) // without NaN: the last excluded observations are the horizon
        t = table(n, g + x, Plain, c.data == Other ? 40 : 3);
      auto &data = r.in(t);
      e->Calculate(data, st, wk, false, c.o[3], !c.o[2] && x && c.o[3] ? c.o[3] : c.o[6]);
      out(r, e->Model, true, true);
      if (c.o[3])
        r.m(e->Forecasts.Forecast, "forecast"), r.m(e->Forecasts.Variance, "variance");
    };
    return o;
  };
  return k;
}
/// options 0: lags, 1: infinite MA terms
inline Kind varmaArma() {
  Kind k;
  k.name = "VarmaArma";
  k.opts = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1, 2, 4, 6}};
  k.fewOpts = {{0, 2, 5, 8}, {0, 4}};
  k.dims = {{1, 3}, {0, 2}};
  k.few = {{1, 3}, {0, 2}};
  k.data = {Plain, Other};
  k.exact = true;
  k.make = [](const In &d) {
    Lags l = lags(d.o[0]);
    auto s = sizes(l, 20, d.d[0], d.d[1]);
    auto e = std::make_shared<VarmaArma>(*s, d.o[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, s, l](const In &c, double *st, double *wk, int *, Run &r) {
      auto z = sizes(l, 20, c.d[0], c.d[1]);
      auto &pi = r.in(table(c.d[0], z->NumParamsEq, c.data, 3));
      e->Calculate(pi, st, wk);
      auto poly = [&](const PolynomialM &p, const char *t) {
        r.s((double)p.Coefficients.size(), t);
        for (auto &m : p.Coefficients)
          r.m(*m, t);
      };
      poly(e->Ar, "AR"), poly(e->Ma, "MA");
      if (c.o[1])
        poly(e->MaInf, "MA(inf)");
    };
    return o;
  };
  k.admissible = [](const In &c) { return true; };
  // equations are not visible in the number of coefficients of an equation
  k.related = [](const In &declared, const In &c) {
    Lags l = lags(c.o[0]);
    return sizes(l, 20, declared.d[0], declared.d[1])->NumParamsEq != sizes(l, 20, c.d[0], c.d[1])->NumParamsEq || declared.d == c.d;
  };
  return k;
}
/// options 0: lags, 1: type, 2: indices
inline Kind varmaRestriction() {
  Kind k;
  k.name = "VarmaRestriction";
  k.opts = {{0, 1, 2, 5, 6, 8}, {0, 1, 2}, {0, 1, 2}};
  k.dims = {{1, 3}, {0, 2}};
  k.data = {Plain};
  k.exact = k.fixed = true;
  k.admissible = [](const In &c) { return c.o[1] == 1 || c.o[2] == 0; };
  k.related = [](const In &a, const In &c) { return a.d == c.d; };
  k.make = [](const In &d) {
    Lags l = lags(d.o[0]);
    auto s = sizes(l, 20, d.d[0], d.d[1]);
    vector<Ti> all[] = {{0}, {s->NumParams - 1, 0}, {1, s->NumParams / 2, s->NumParams - 1}};
    auto list = std::make_shared<vector<Ti>>(all[d.o[2]]);
    std::set<Ti> distinct(list->begin(), list->end());
    list->assign(distinct.begin(), distinct.end());
    if (d.o[1] == 1 && (list->back() >= s->NumParams || (int)list->size() >= s->NumParams))
      throw mc::Skip();
    auto e = std::make_shared<VarmaRestriction>(*s, d.o[1] == 0 ? VarmaRestrictionType::kNone : d.o[1] == 1 ? VarmaRestrictionType::kGeneral : VarmaRestrictionType::kMaFinal, 1);
    Obj o;
    o.st = e->StorageSize;
    o.run = [e, s, list](const In &c, double *st, double *, int *, Run &r) {
      e->Calculate(st, c.o[1] == 1 ? list.get() : nullptr);
      r.s(e->IsRestricted, "restricted");
      if (e->IsRestricted)
        r.m(e->R, "R");
    };
    return o;
  };
  return k;
}
/// options 0: lags, 1: metrics, 2: horizons, 3: restricted, 4: previous estimates, 5: Box-Cox
inline const vector<Ti> &horizonsOf(int set) {
  static vector<Ti> v[] = {{1}, {1, 2, 3}, {2}, {1, 3}};
  return v[set];
}
template <bool extended> inline Kind varmaSimulation() {
  Kind k;
  k.name = extended ? "VarmaSimulation(extended)" : "VarmaSimulation";
  k.opts = {{0, 2, 3, 5}, {0, 1, 2}, {0, 1, 2, 3}, {0, 1}, {0, 1}, {0, 1}};
  k.fewOpts = {{0, 2, 3}, {1, 2}, {1, 3}, {0, 1}, {0, 1}, {0}};
  k.dims = {{16, 18}, {1, 2}, {0, 1}};
  k.few = {{16, 18}, {1, 2}, {0, 1}};
  k.data = {Plain, Other, Equal};
  k.fewData = {Plain, Equal};
  k.mustRun = false;
  k.tol = 1e-6;
  if (extended)
    k.related = [](const In &declared, const In &c) { return declared.d[1] == c.d[1] && declared.d[2] == c.d[2]; };
  k.admissible = [](const In &c) { return !c.o[3] || (c.d[1] > 1 && lags(c.o[0]).q > 0); };
  k.make = [](const In &d) {
    Lags l = lags(d.o[0]);
    auto s = sizes(l, d.d[0], d.d[1], d.d[2]);
    auto e = std::make_shared<VarmaSimulation>(*s, 4, horizonsOf(d.o[2]), metricsOf(d.o[1]), fastOptim(), extended, d.o[3] ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone);
    e->KeepDetails = d.o[2] > 1;
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e, s, l](const In &c, double *st, double *wk, int *, Run &r) {
      int n = c.d[0], g = c.d[1], x = c.d[2];
      mk::Ref t = table(n, g, c.data, 3);
      if (c.o[5])
        for (auto &row : t.v)
          for (auto &v : row)
            v = 0.25 + std::fabs(v) / 8;
      vector<double> lambdas(g, 0.5);
      bool cancel = false;
      if (extended) {
        mk::Ref all(n, g + x), xs = table(n, std::max(1, x), Plain, 4);
        for (int i = 0; i < n; i++)
          for (int j = 0; j < g + x; j++)
            all.at(i, j) = j < g ? t.at(i, j) : xs.at(i, j - g);
        auto &data = r.in(all);
        e->CalculateE(st, wk, data, 1e12, 2, false, c.o[4], c.o[5] ? &lambdas : nullptr);
      } else {
        auto &y = r.in(t.t());
        Matrix<double> *xx = x ? &r.in(seriesData(n, x, Plain, 4)) : nullptr;
        std::unique_ptr<VarmaRestriction> rest;
        vector<double> rd;
        auto z = sizes(l, n, g, x);
        if (c.o[3]) {
          rest = std::make_unique<VarmaRestriction>(*z, VarmaRestrictionType::kMaFinal);
          rd.resize(rest->StorageSize);
          rest->Calculate(rd.data());
        }
        e->Calculate(st, wk, y, cancel, xx, rest ? &rest->R : nullptr, nullptr, c.o[4], 1e12, 2, false, INT32_MAX, c.o[5] ? &lambdas : nullptr);
      }
      r.s(e->ValidCounts, "valid");
      r.m(e->ResultAggs, "results");
      for (auto &x : e->Errors)
        r.s(x.second, "error: " + x.first);
      r.s((double)e->Details.size(), "details");
      for (auto &x : e->Details)
        r.s(std::get<0>(x) + 10 * std::get<1>(x) + 100 * std::get<2>(x) + 1000 * std::get<3>(x), "detail"), r.s(std::get<6>(x), "detail forecast"), r.s(std::get<8>(x), "detail std");
    };
    return o;
  };
  return k;
}
inline vector<Kind> modelKinds() {
  return {sur(), surProjection(), surExtended(), surSimulation(), discreteChoice(), choiceExtended(), choiceSim(), varma<false>(), varma<true>(), varmaForecast(), varmaExtended(), varmaArma(), varmaRestriction(), varmaSimulation<false>(), varmaSimulation<true>()};
}
} // namespace ck
