// The calculators of matrices, statistics, polynomials and optimization.
#pragma once
#include "calckit.h"
#include "clustering.h"
#include "correlation.h"
#include "data_split.h"
#include "functionx.h"
#include "matrix_utils.h"
#include "optimization.h"
#include "pca.h"
#include "polynomial.h"
#include "scoring.h"
#include "statistics.h"
namespace ck {
inline vector<Ti> columns(int set, int n) {
  vector<Ti> v;
  for (int i = 0; i < n; i++)
    v.push_back(i);
  if (set == 1)
    std::reverse(v.begin(), v.end());
  if (set == 2)
    v = {n - 1};
  return v;
}
// ----------------------------------------------------------------- matrices --
inline Kind dataset() {
  Kind k;
  k.name = "Dataset";
  k.opts = {{0, 1}, {0, 1}, {0, 1, 2}}; // NaN, select, which columns
  k.dims = {{1, 5}, {1, 3}};
  k.few = {{1, 2, 5}, {1, 3}};
  k.data = {Plain, Nan, Scattered};
  k.admissible = [](const In &c) { return c.o[1] || c.o[2] == 0; };
  k.make = [](const In &d) {
    int n = d.o[1] ? (int)columns(d.o[2], d.d[1]).size() : d.d[1];
    auto e = std::make_shared<Dataset<Tv>>(d.d[0], n, d.o[0], d.o[1]);
    Obj o;
    o.st = e->StorageSize;
    o.run = [e](const In &c, double *st, double *, int *, Run &r) {
      auto &m = r.in(table(c.d[0], c.d[1], c.data));
      auto cols = columns(c.o[2], c.d[1]);
      e->Calculate(m, c.o[1] ? &cols : nullptr, st);
      r.m(e->Result, "result");
    };
    return o;
  };
  return k;
}
template <bool byRow> inline Kind datasetTs() {
  Kind k;
  k.name = byRow ? "DatasetTs(rows)" : "DatasetTs(columns)";
  k.opts = {{0, 1}, {0, 1}, {0, 1, 2}};
  k.dims = {{1, 5}, {1, 3}}; // observations, series
  k.few = {{1, 2, 5}, {1, 3}};
  k.data = {Plain, Nan, Scattered, 6, 7};
  k.admissible = [](const In &c) { return c.o[1] || c.o[2] == 0; };
  k.make = [](const In &d) {
    int n = d.o[1] ? (int)columns(d.o[2], d.d[1]).size() : d.d[1];
    auto e = std::make_shared<DatasetTs<byRow, Tv>>(byRow ? n : d.d[0], byRow ? d.d[0] : n, d.o[0], d.o[1]);
    Obj o;
    o.st = e->StorageSize;
    o.run = [e](const In &c, double *st, double *, int *, Run &r) {
      mk::Ref t = table(c.d[0], c.d[1], c.data <= Scattered ? c.data : Plain);
      if (c.data == 6) // missing ends
        for (int j = 0; j < c.d[1]; j++)
          t.at(j % 2 ? 0 : c.d[0] - 1, j) = NAN;
      if (c.data == 7)
        for (int i = 0; i < c.d[0]; i++)
          t.at(i, c.d[1] - 1) = NAN;
      auto &m = r.in(byRow ? t.t() : t);
      auto cols = columns(c.o[2], c.d[1]);
      e->Data(m);
      r.s(e->HasMissingData, "missing"), r.list(e->Ranges.empty() ? vector<int>() : vector<int>(1, (int)e->Ranges.size()), "ranges");
      for (auto &g : e->Ranges)
        r.s(g.StartIndex, "start"), r.s(g.EndIndex, "end");
      for (auto &w : e->WithMissingIndexes)
        r.s(std::get<0>(w), "series with missing");
      e->Update(c.o[1] ? &cols : nullptr, st);
      r.s(e->Start, "first"), r.s(e->End, "last");
      r.m(e->Result, "result");
    };
    return o;
  };
  return k;
}
inline Kind standardized() {
  Kind k;
  k.name = "MatrixStandardized";
  k.opts = {{0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1, 2, 3}}; // zero variance, center, scale, sample, NaN, overrides
  k.fewOpts = {{0, 1}, {0, 1}, {0, 1}, {1}, {0, 1}, {0, 3}};
  k.dims = {{1, 5}, {1, 3}};
  k.few = {{2, 5}, {1, 3}};
  k.data = {Plain, Nan, Constant, Equal};
  k.fewData = {Nan, Constant};
  k.admissible = [](const In &c) { return (c.o[4] || c.data != Nan) && (c.o[5] == 0 || (c.o[1] && c.o[2]) || (c.o[5] == 1 && c.o[1]) || (c.o[5] == 2 && c.o[2])); };
  k.make = [](const In &d) {
    auto e = std::make_shared<MatrixStandardized<Tv>>(d.d[0], d.d[1], d.o[0], d.o[1], d.o[2]);
    e->Sample = d.o[3], e->CheckNan = d.o[4];
    Obj o;
    o.st = e->StorageSize;
    o.run = [e](const In &c, double *st, double *, int *, Run &r) {
      auto &m = r.in(table(c.d[0], c.d[1], c.data));
      auto &mean = r.in(table(c.d[1], 1, Plain, 5));
      mk::Ref v = table(c.d[1], 1, Plain, 6);
      for (auto &x : v.v)
        x[0] = x[0] * x[0] + 1;
      if (c.data == Constant)
        v.at(0, 0) = 0;
      auto &var = r.in(v);
      e->Calculate(m, st, c.o[5] & 1 ? &mean : nullptr, c.o[5] & 2 ? &var : nullptr);
      r.m(e->Result, "result");
      if (c.o[1] && !(c.o[5] & 1))
        r.m(e->ColumnMeans, "means");
      if (c.o[2] && !(c.o[5] & 2))
        r.m(e->ColumnVars, "variances");
      r.list(e->RemovedZeroVar, "removed");
    };
    return o;
  };
  return k;
}
inline Kind svd() {
  Kind k;
  k.name = "MatrixSvd";
  k.opts = {{'A', 'N'}, {'A', 'N'}};
  k.dims = {{1, 5}, {1, 4}};
  k.data = {Plain, Constant, Equal};
  k.few = {{1, 2, 5}, {1, 2, 4}};
  k.make = [](const In &d) {
    auto e = std::make_shared<MatrixSvd<Tv>>(d.d[0], d.d[1], (char)d.o[0], (char)d.o[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      e->Calculate(r.in(table(c.d[0], c.d[1], c.data)), st, wk);
      r.m(e->S, "S");
      if (c.o[0] != 'N')
        r.m(e->U, "U");
      if (c.o[1] != 'N')
        r.m(e->VT, "VT");
    };
    return o;
  };
  return k;
}
// --------------------------------------------------------------- statistics --
inline Kind rank() {
  Kind k;
  k.name = "Rank";
  k.opts = {{0, 1}};
  k.dims = {{1, 6}, {1, 3}};
  k.few = {{1, 3, 6}, {1, 3}};
  k.data = {Plain, Equal, Constant};
  k.make = [](const In &d) {
    auto e = std::make_shared<Rank>(d.d[0], d.d[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      e->Calculate(r.in(table(c.d[0], c.d[1], c.data)), wk, st, c.o[0]);
      r.m(e->Result, "result");
    };
    return o;
  };
  return k;
}
inline Kind ols() {
  Kind k;
  k.name = "Ols";
  k.opts = {{0, 1}, {0, 1}};
  k.dims = {{3, 6}, {1, 2}, {1, 3}};
  k.few = {{3, 6}, {1, 2}, {1, 3}};
  k.data = {Plain, Other, Equal};
  k.make = [](const In &d) {
    auto e = std::make_shared<Ols>(d.d[0], d.d[1], d.d[2], d.o[0], d.o[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      e->Calculate(r.in(table(c.d[0], c.d[1], c.data, 3)), r.in(table(c.d[0], c.d[2], c.data, 9)), st, wk);
      r.m(e->Beta, "beta");
      if (c.o[0])
        r.m(e->Resid, "resid");
      if (c.o[1])
        r.m(e->Sigma, "sigma");
    };
    return o;
  };
  return k;
}
inline Kind gls() {
  Kind k;
  k.name = "Gls";
  k.opts = {{0, 1}, {0, 1}, {0, 1}};
  k.dims = {{3, 5}, {1, 2}, {1, 3}};
  k.few = {{3, 5}, {1, 2}, {1, 3}};
  k.data = {Plain, Other, Equal};
  k.keepsInputs = false; // omega is inverted in place
  k.make = [](const In &d) {
    auto e = std::make_shared<Gls>(d.d[0], d.d[1], d.d[2], d.o[0], d.o[1], d.o[2]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      int n = c.d[0];
      mk::Ref a = table(n, n, c.data, 20), w = mk::dot(a, a.t());
      for (int i = 0; i < n; i++)
        w.at(i, i) += 20;
      e->Calculate(r.in(table(n, c.d[1], c.data, 3)), r.in(table(n, c.d[2], c.data, 9)), r.in(w), st, wk);
      r.m(e->Beta, "beta");
      if (c.o[0])
        r.m(e->Resid, "resid");
      if (c.o[1])
        r.m(e->Sigma, "sigma");
    };
    return o;
  };
  return k;
}
template <bool nan> inline std::shared_ptr<CorrelationBase> corrOf(bool cov, bool spear, int r, int c) {
  using T = CorrelationType;
  using M = CorrelationMethod;
  if (cov && spear)
    return std::make_shared<Correlation<nan, T::kCovariance, M::kSpearman>>(r, c);
  if (cov)
    return std::make_shared<Correlation<nan, T::kCovariance, M::kPearson>>(r, c);
  if (spear)
    return std::make_shared<Correlation<nan, T::kCorrelation, M::kSpearman>>(r, c);
  return std::make_shared<Correlation<nan, T::kCorrelation, M::kPearson>>(r, c);
}
inline Kind correlation() {
  Kind k;
  k.name = "Correlation";
  k.opts = {{0, 1}, {0, 1}, {0, 1}, {0, 1}, {0, 1}}; // NaN, covariance, Spearman, degrees of freedom, lower
  k.fewOpts = {{0, 1}, {0, 1}, {0, 1}, {1}, {0, 1}};
  k.dims = {{1, 6}, {1, 4}};
  k.few = {{2, 6}, {1, 3}};
  k.data = {Plain, Nan, Scattered, Constant};
  k.fewData = {Plain, Scattered};
  k.admissible = [](const In &c) { return c.o[0] || (c.data != Nan && c.data != Scattered); };
  k.make = [](const In &d) {
    auto e = d.o[0] ? corrOf<true>(d.o[1], d.o[2], d.d[0], d.d[1]) : corrOf<false>(d.o[1], d.o[2], d.d[0], d.d[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      e->Calculate(r.in(table(c.d[0], c.d[1], c.data)), wk, st, c.o[3], c.o[4]);
      r.m(e->Result, "result", c.o[4] ? 0 : 1);
      if (c.o[0]) {
        int n = e->ResultCounts.length_array();
        for (int i = 0; i < n; i++)
          r.s(e->ResultCounts.Data[i], fmt("count %d", i));
      } else {
        if (!c.o[2])
          r.m(e->Means, "means");
        if (!c.o[1] && !c.o[2])
          r.m(e->Variances, "variances");
      }
    };
    return o;
  };
  return k;
}
inline Kind distance() {
  Kind k;
  k.name = "Distance";
  k.opts = {{0, 1}, {0, 1, 2, 3, 4}, {0, 1}};
  k.dims = {{2, 5}, {2, 4}};
  k.few = {{2, 5}, {2, 4}};
  k.data = {Plain, Nan, Scattered};
  k.admissible = [](const In &c) { return (c.o[0] || c.data == Plain) && (c.o[1] >= 3 || c.o[2] == 0); };
  k.make = [](const In &d) {
    std::shared_ptr<DistanceBase> e = DistanceBase::GetFromType(d.o[0], (DistanceMethod)d.o[1], (CorrelationMethod)d.o[2], d.d[0], d.d[1]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      e->Calculate(r.in(table(c.d[0], c.d[1], c.data)), st, wk);
      int n = e->Result.length_array();
      for (int i = 0; i < n; i++)
        r.s(e->Result.Data[i], fmt("distance %d", i));
    };
    return o;
  };
  return k;
}
inline Kind hcluster() {
  Kind k;
  k.name = "HCluster";
  k.exact = true;
  k.opts = {{0, 1, 2, 3, 6}};
  k.dims = {{2, 6}};
  k.data = {Plain, Other, Equal};
  k.keepsInputs = false;
  k.make = [](const In &d) {
    std::shared_ptr<HClusterBase> e = HClusterBase::GetFromType((HClusterLinkage)d.o[0], d.d[0]);
    Obj o;
    int declared = d.d[0];
    o.st = declared * (declared - 1) / 2;
    o.run = [e, declared](const In &c, double *st, double *, int *, Run &r) {
      int n = c.d[0], len = n * (n - 1) / 2;
      mc::Guard<double> g(len);
      for (int i = 0; i < len; i++)
        g[i] = c.data == Equal ? 2 : std::fabs(gen(i, 7, c.data)) + 0.25 + i * 0.001;
      MatrixSym<false> m(g.p, n);
      (void)st;
      e->Calculate(m);
      r.s((double)e->Nodes.size(), "nodes");
      for (auto &x : e->Nodes)
        r.s(x->id, "id"), r.s(x->nodesWithin, "within"), r.s(x->isMerged, "merged");
      Matrix<Ti> merge(new Ti[2 * n], n - 1, 2);
      Matrix<Tv> heights(new Tv[n], n - 1, 1);
      std::unique_ptr<Ti[]> d1(merge.Data);
      std::unique_ptr<Tv[]> d2(heights.Data);
      vector<Ti> order;
      e->MergeR(merge, heights, order);
      r.m(merge, "merge"), r.m(heights, "height"), r.list(order, "order");
    };
    return o;
  };
  return k;
}
inline Kind groupData() {
  Kind k;
  k.name = "GroupData";
  k.opts = {{0, 1, 2, 3, 6}, {3, 4}, {0, 1}, {1, 2, 3}, {0, 1}}; // linkage, distance, method, groups, threshold
  k.fewOpts = {{0, 2}, {3, 4}, {0, 1}, {2}, {0, 1}};
  k.dims = {{3, 6}, {3, 5}};
  k.few = {{3, 6}, {3, 5}};
  k.data = {Plain, Other, Scattered, Constant};
  k.fewData = {Plain, Scattered};
  k.make = [](const In &d) {
    std::shared_ptr<GroupDataBase> e = GroupDataBase::GetFromType((HClusterLinkage)d.o[0], (DistanceMethod)d.o[1], (CorrelationMethod)d.o[2], d.d[0], d.d[1]);
    Obj o;
    o.wk = e->WorkSize;
    o.run = [e](const In &c, double *, double *wk, int *, Run &r) {
      e->Calculate(r.in(table(c.d[0], c.d[1], c.data)), wk, c.o[3], c.o[4] ? 0.8 : 0);
      r.s((double)e->Groups.size(), "groups");
      for (auto &g : e->Groups)
        r.list(*g, "group");
      r.list(e->Removed, "removed");
      r.s(e->NaNDistanceFound, "NaN");
    };
    return o;
  };
  return k;
}
inline Kind pca() {
  Kind k;
  k.name = "PcaAnalysis";
  k.opts = {{0, 1}, {0, 1}, {0, 1}, {0, 1}}; // PCs, zero variance, center, scale
  k.dims = {{2, 6}, {1, 4}, {0, 3}};
  k.few = {{2, 6}, {1, 3}, {0, 2}};
  k.data = {Plain, Constant, Other};
  k.fewData = {Plain, Constant};
  k.make = [](const In &d) {
    auto e = std::make_shared<PcaAnalysis>(d.d[0], d.d[1], d.d[2], d.o[0], d.o[1], d.o[2], d.o[3]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      auto &m = r.in(table(c.d[0], c.d[1], c.data));
      auto &f = r.in(table(c.d[2], c.d[1], Plain, 55));
      e->Calculate(m, wk, st, c.d[2] ? &f : nullptr);
      r.m(e->Directions, "directions"), r.m(e->Stds, "stds"), r.m(e->Stds2Ratios, "ratios");
      if (c.o[0])
        r.m(e->PCs, "PCs");
      if (c.d[2])
        r.m(e->Forecasts, "forecasts");
    };
    return o;
  };
  k.admissible = [](const In &c) { return c.data != Constant || c.d[1] > 1; };
  return k;
}
inline Kind dataSplit() {
  Kind k;
  k.name = "DataSplit";
  k.opts = {{0, 1, 2, 3}};
  k.dims = {{2, 7}, {1, 3}};
  k.few = {{2, 4, 7}, {1, 3}};
  k.data = {Plain, Other};
  k.mustRun = false;
  k.make = [](const In &d) {
    auto e = std::make_shared<DataSplit>(d.d[0], d.d[1]);
    Obj o;
    o.st = e->StorageSize, o.wi = e->WorkSizeI;
    o.run = [e](const In &c, double *st, double *, int *wi, Run &r) {
      auto &m = r.in(table(c.d[0], c.d[1], c.data));
      static const double ratio[] = {0.5, 0.75, 0.3, 0.9};
      e->Calculate(m, st, ratio[c.o[0]], c.o[0] == 3 ? 2 : 0);
      std::mt19937 g(7);
      for (int i = 0; i < 2; i++) {
        e->Shuffle(m, wi, g);
        r.m(e->Sample0, "training"), r.m(e->Sample1, "test");
      }
    };
    return o;
  };
  return k;
}
inline Kind dataSplitDiscrete() {
  Kind k;
  k.name = "DataSplitDiscrete";
  k.opts = {{2, 3}, {0, 1, 2, 3}};
  k.dims = {{3, 8}, {1, 3}};
  k.few = {{4, 8}, {1, 3}};
  k.data = {Plain, Other, Equal};
  k.mustRun = false;
  k.make = [](const In &d) {
    auto e = std::make_shared<DataSplitDiscrete>(d.d[0], d.d[1], d.o[0]);
    Obj o;
    o.st = e->StorageSize, o.wi = e->WorkSizeI;
    o.run = [e](const In &c, double *st, double *, int *wi, Run &r) {
      mk::Ref t = table(c.d[0], c.d[1], Plain);
      for (int i = 0; i < c.d[0]; i++)
        t.at(i, 0) = c.data == Equal ? 0 : c.data == Other ? (i * i + i / 3) % c.o[0] : i % c.o[0];
      auto &m = r.in(t);
      static const double ratio[] = {0.5, 0.75, 0.3, 0.9};
      e->Calculate(m, st, ratio[c.o[1]], c.o[1] == 3 ? 3 : 0);
      std::mt19937 g(7);
      for (int i = 0; i < 2; i++) {
        e->Shuffle(m, wi, g);
        r.m(e->Sample0, "training"), r.m(e->Sample1, "test");
      }
    };
    return o;
  };
  return k;
}
template <bool w> inline Kind frequencyCost() {
  Kind k;
  k.name = w ? "FrequencyCost(weighted)" : "FrequencyCost";
  k.opts = {{2, 3}};
  k.dims = {{1, 3}, {1, 4}}; // cost matrices, observations
  k.data = {Plain, Other};
  k.make = [](const In &d) {
    auto e = std::make_shared<FrequencyCost<w>>(d.d[0]);
    Obj o;
    o.st = e->StorageSize;
    o.run = [e](const In &c, double *st, double *, int *, Run &r) {
      int K = c.o[0], n = c.d[1];
      vector<Matrix<Tv>> costs;
      for (int i = 0; i < c.d[0]; i++) {
        mk::Ref m(2 + i % 2, K + 1, i);
        for (int a = 0; a < m.r; a++) {
          m.at(a, 0) = (a + 1.0) / m.r;
          for (int b = 1; b <= K; b++)
            m.at(a, b) = (a + b * 2 + i) % 3;
        }
        costs.push_back(r.in(m));
      }
      mk::Ref y(n, 1), sc(n, K), wt(n, 1);
      for (int i = 0; i < n; i++) {
        y.at(i, 0) = (i + c.data) % K, wt.at(i, 0) = 1 + i % 2;
        for (int j = 0; j < K; j++)
          sc.at(i, j) = (1.0 + (i + j) % 4) / 8;
      }
      e->Calculate(costs, r.in(y), r.in(sc), w ? &r.in(wt) : nullptr, st);
      r.m(e->CostSums, "sums"), r.m(e->CostCounts, "counts"), r.s(e->AverageRatio, "average");
    };
    return o;
  };
  return k;
}
template <bool w, bool cost> inline Kind roc() {
  Kind k;
  k.name = fmt("ROC(%d,%d)", w, cost);
  k.opts = {{0, 1}, {0, 1}, {0, 1}}; // normalize, partial, pessimistic
  k.dims = {{2, 6}};
  k.data = {Plain, Other, Equal};
  k.make = [](const In &d) {
    auto e = std::make_shared<ROC<w, cost>>(d.d[0]);
    Obj o;
    o.run = [e](const In &c, double *, double *, int *, Run &r) {
      int n = c.d[0];
      mk::Ref y(n, 1), sc(n, 2), wt(n, 1);
      RocOptions op;
      op.NormalizePoints = c.o[0], op.Pessimistic = c.o[2];
      if (c.o[1])
        op.LowerThreshold = 0.2, op.UpperThreshold = 0.9;
      mk::Ref cs(n, 1), cm(2, 2);
      for (int i = 0; i < n; i++) {
        y.at(i, 0) = (i + c.data) % 2, wt.at(i, 0) = 1 + i % 2;
        sc.at(i, 0) = c.data == Equal ? 0.5 : (1.0 + (i * 3) % 5) / 8, sc.at(i, 1) = 1 - sc.at(i, 0);
        cs.at(i, 0) = 1 + i % 3;
      }
      cm.at(0, 0) = 2, cm.at(0, 1) = 0.5, cm.at(1, 0) = -1, cm.at(1, 1) = 3.5;
      if (cost) {
        op.Costs = Matrix<Tv>(r.in(cs).Data, n, 1);
        op.CostMatrix = Matrix<Tv>(r.in(cm).Data, 2, 2);
      }
      e->Calculate(r.in(y), r.in(sc), w ? &r.in(wt) : nullptr, op);
      r.s(e->Result, "area");
      r.s((double)e->Points.size(), "points");
      for (auto &p : e->Points)
        r.s(std::get<0>(p), "x"), r.s(std::get<1>(p), "y");
    };
    return o;
  };
  return k;
}
// -------------------------------------------------------------- polynomials --
inline Matrix<Tv> &poly(Run &r, int degree, int seed, int data) {
  mk::Ref t = table(degree + 1, 1, Plain, seed + data);
  t.at(degree, 0) = 1 + seed % 2;
  if (data == Constant)
    t.at(degree, 0) = 0; // trimmed
  return r.in(t);
}
inline int cut(int x) { return x ? x : INT_MAX; }
inline Kind polyMultiply() {
  Kind k;
  k.name = "PolynomialMultiply";
  k.opts = {{0, 1, 3, 6}};
  k.dims = {{0, 3}, {0, 3}};
  k.data = {Plain, Constant};
  k.make = [](const In &d) {
    auto e = std::make_shared<PolynomialMultiply<Tv>>(d.d[0], d.d[1], cut(d.o[0]));
    Obj o;
    o.st = e->StorageSize;
    o.run = [e](const In &c, double *st, double *, int *, Run &r) {
      Polynomial<Tv> a, b;
      a.Data(poly(r, c.d[0], 1, c.data)), b.Data(poly(r, c.d[1], 2, c.data));
      e->Calculate(a, b, st, cut(c.o[0]));
      r.m(e->Result.Coefficients, "product");
    };
    return o;
  };
  return k;
}
inline Kind polyPower() {
  Kind k;
  k.name = "PolynomialPower";
  k.opts = {{0, 1, 3, 6}};
  k.dims = {{0, 4}, {0, 3}}; // power, degree
  k.data = {Plain, Constant};
  k.make = [](const In &d) {
    auto e = std::make_shared<PolynomialPower<Tv>>(d.d[0], d.d[1], cut(d.o[0]));
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      Polynomial<Tv> a;
      a.Data(poly(r, c.d[1], 1, c.data));
      e->Calculate(a, c.d[0], st, wk, cut(c.o[0]));
      r.m(e->Result.Coefficients, "power");
    };
    return o;
  };
  return k;
}
inline void polyM(Run &r, PolynomialM &p, vector<Matrix<Tv> *> &v, int degree, int m, int seed, bool monic) {
  for (int i = 0; i <= degree; i++) {
    mk::Ref t = table(m, m, Plain, seed + i);
    if (i == 0 && monic)
      for (int a = 0; a < m; a++)
        for (int b = 0; b < m; b++)
          t.at(a, b) = a == b;
    v.push_back(&r.in(t));
  }
  p.Data(v);
}
inline void outM(Run &r, const PolynomialM &p, const string &t) {
  r.s((double)p.Coefficients.size(), t + " length");
  for (auto *m : p.Coefficients)
    r.m(*m, t);
}
inline Kind mpolyMultiply(bool scalar) {
  Kind k;
  k.name = scalar ? "PolynomialMMultiply(scalar)" : "PolynomialMMultiply";
  k.opts = {{0, 1, 3, 6}};
  k.dims = {{1, 2}, {0, 3}, {0, 3}};
  k.few = {{1, 2}, {0, 3}, {0, 2}};
  k.data = {Plain, Other};
  k.make = [scalar](const In &d) {
    auto e = std::make_shared<PolynomialMMultiply>(d.d[0], d.d[1], d.d[2], cut(d.o[0]));
    Obj o;
    o.st = e->StorageSize;
    o.run = [e, scalar](const In &c, double *st, double *, int *, Run &r) {
      vector<Matrix<Tv> *> va, vb;
      PolynomialM a, b;
      polyM(r, a, va, c.d[1], c.d[0], 30 + c.data, false);
      if (scalar) {
        Polynomial<Tv> s;
        s.Data(poly(r, c.d[2], 2, Plain));
        e->Calculate(a, s, st, cut(c.o[0]));
      } else {
        polyM(r, b, vb, c.d[2], c.d[0], 40 + c.data, false);
        e->Calculate(a, b, st, cut(c.o[0]));
      }
      outM(r, e->Result, "product");
    };
    return o;
  };
  return k;
}
inline Kind mpolyInvert() {
  Kind k;
  k.name = "PolynomialMInvert";
  k.opts = {{0, 1}}; // monic or not
  k.dims = {{1, 3}, {0, 3}, {1, 5}};
  k.few = {{1, 2}, {0, 2, 3}, {1, 2, 5}};
  k.data = {Plain, Other};
  k.make = [](const In &d) {
    auto e = std::make_shared<PolynomialMInvert>(d.d[0], d.d[1], d.d[2]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      vector<Matrix<Tv> *> va;
      PolynomialM a;
      polyM(r, a, va, c.d[1], c.d[0], 30 + c.data, c.o[0]);
      e->Calculate(a, st, wk, c.d[2]);
      outM(r, e->Result, "inverse");
    };
    return o;
  };
  return k;
}
// ------------------------------------------------------------- optimization --
struct Fun {
  int kind;
  double operator()(const Matrix<Tv> &x) const {
    double s = 0;
    for (int i = 0; i < x.length(); i++) {
      double d = x.Data[i] - (i - 0.5);
      s += (i + 1) * d * d;
      if (kind == Other)
        s += d * d * d * d;
      if (kind == Constant && i)
        s += x.Data[i] * x.Data[i - 1] * 0.5;
    }
    return s;
  }
  void grad(const Matrix<Tv> &x, Matrix<Tv> &g) const {
    int n = x.length();
    for (int i = 0; i < n; i++) {
      double d = x.Data[i] - (i - 0.5);
      g.Data[i] = 2 * (i + 1) * d + (kind == Other ? 4 * d * d * d : 0);
      if (kind == Constant)
        g.Data[i] += 0.5 * ((i ? x.Data[i - 1] : 0) + (i + 1 < n ? x.Data[i + 1] : 0));
    }
  }
  void hess(const Matrix<Tv> &x, Matrix<Tv> &h) const {
    int n = x.length();
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        double d = x.Data[i] - (i - 0.5);
        h.Data[i + n * j] = i == j ? 2 * (i + 1) + (kind == Other ? 12 * d * d : 0) : kind == Constant && abs(i - j) == 1 ? 0.5 : 0;
      }
  }
};
inline Kind newton() {
  Kind k;
  k.name = "Newton";
  k.opts = {{0, 1}, {0, 1}};
  k.dims = {{1, 4}};
  k.data = {Plain, Other, Constant, Nan};
  k.keepsInputs = false;
  k.make = [](const In &d) {
    auto e = std::make_shared<Newton>(d.d[0]);
    e->UseLineSearch = d.o[0];
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      int n = c.d[0];
      Fun f{c.data};
      auto &x = r.in(table(n, 1, Plain));
      if (c.data == Nan)
        x.Data[0] = NAN;
      std::function<Tv(const Matrix<Tv> &)> fn = f;
      std::function<void(const Matrix<Tv> &, Matrix<Tv> &)> g = [&](const Matrix<Tv> &a, Matrix<Tv> &b) { f.grad(a, b); };
      std::function<void(const Matrix<Tv> &, Matrix<Tv> &)> h = [&](const Matrix<Tv> &a, Matrix<Tv> &b) { f.hess(a, b); };
      if (c.o[1])
        e->Minimize2(fn, g, h, x, st, &st[n], wk);
      else
        e->Minimize(fn, g, h, x, st, wk);
      r.m(x, "minimum"), r.s(e->FunctionValue, "value"), r.s(e->Iteration, "iterations"), r.m(e->Gradient, "gradient");
    };
    return o;
  };
  return k;
}
inline Kind bfgs() {
  Kind k;
  k.name = "LimitedMemoryBFGSB";
  k.opts = {{1, 3, 5}, {0, 1, 2, 3}};
  k.dims = {{1, 4}};
  k.data = {Plain, Other, Constant, Nan};
  k.keepsInputs = false;
  k.make = [](const In &d) {
    auto e = std::make_shared<LimitedMemoryBFGSB>(d.d[0], d.o[0]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize, o.wi = e->WorkSizeI;
    o.run = [e](const In &c, double *st, double *wk, int *wi, Run &r) {
      int n = c.d[0];
      Fun f{c.data};
      auto &x = r.in(table(n, 1, Plain));
      mk::Ref lo(n, 1), hi(n, 1);
      for (int i = 0; i < n; i++)
        lo.at(i, 0) = i - 0.25, hi.at(i, 0) = i + 5;
      auto &l = r.in(lo), &u = r.in(hi);
      if (c.data == Nan)
        x.Data[0] = NAN;
      std::function<Tv(const Matrix<Tv> &)> fn = f;
      std::function<void(const Matrix<Tv> &, Matrix<Tv> &)> g = [&](const Matrix<Tv> &a, Matrix<Tv> &b) { f.grad(a, b); };
      e->Minimize0(fn, g, x, st, wk, wi, c.o[1] & 1 ? &l : nullptr, c.o[1] & 2 ? &u : nullptr);
      r.m(x, "minimum"), r.s(e->FunctionValue, "value"), r.s(e->Iteration, "iterations"), r.s(e->Task, "task"), r.m(e->GradientVector, "gradient");
    };
    return o;
  };
  return k;
}
inline Kind nelder() {
  Kind k;
  k.name = "NelderMead";
  k.opts = {{0, 1, 2, 3}};
  k.dims = {{1, 4}};
  k.data = {Plain, Other, Constant};
  k.keepsInputs = false; // the start is moved into the bounds
  k.make = [](const In &d) {
    auto e = std::make_shared<NelderMead>(d.d[0]);
    Obj o;
    o.st = e->StorageSize, o.wk = e->WorkSize;
    o.run = [e](const In &c, double *st, double *wk, int *, Run &r) {
      int n = c.d[0];
      Fun f{c.data};
      auto &x = r.in(table(n, 1, Plain));
      mk::Ref lo(n, 1), hi(n, 1);
      for (int i = 0; i < n; i++)
        lo.at(i, 0) = i - 0.25, hi.at(i, 0) = i + 5;
      auto &l = r.in(lo), &u = r.in(hi);
      e->MaxIteration = 60;
      e->Minimize(f, x, wk, st, c.o[0] & 1 ? &l : nullptr, c.o[0] & 2 ? &u : nullptr);
      r.m(e->Result, "minimum"), r.s(e->Min, "value"), r.s(e->Iter, "iterations"), r.s(e->Diff, "difference");
    };
    return o;
  };
  return k;
}
inline Kind derivative() {
  Kind k;
  k.name = "Derivative";
  k.opts = {{1, 2, 3}, {2, 3, 5}};
  k.dims = {{1, 4}};
  k.data = {Plain, Other, Constant};
  k.make = [](const In &d) {
    auto e = std::make_shared<Derivative>(d.d[0], d.o[0] & 1, d.o[0] & 2, d.o[1]);
    Obj o;
    long s1 = e->StorageSize1;
    o.st = e->StorageSize1 + e->StorageSize2, o.wk = e->WorkSize;
    o.run = [e, s1](const In &c, double *st, double *wk, int *, Run &r) {
      Fun f{c.data};
      auto &x = r.in(table(c.d[0], 1, Plain));
      if (c.o[0] & 1) {
        e->CalculateFirst(f, x, st, wk);
        r.m(e->Result1, "first");
      }
      if (c.o[0] & 2) {
        e->CalculateSecond(f, x, st + s1, wk);
        r.m(e->Result2, "second");
      }
    };
    return o;
  };
  return k;
}
inline vector<Kind> baseKinds() {
  return {dataset(), datasetTs<true>(), datasetTs<false>(), standardized(), svd(), rank(), ols(), gls(), correlation(), distance(),
          hcluster(), groupData(), pca(), dataSplit(), dataSplitDiscrete(), frequencyCost<false>(), frequencyCost<true>(),
          roc<false, false>(), roc<true, false>(), roc<false, true>(), roc<true, true>(), polyMultiply(), polyPower(), mpolyMultiply(false),
          mpolyMultiply(true), mpolyInvert(), newton(), bfgs(), nelder(), derivative()};
}
} // namespace ck
