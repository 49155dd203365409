// Searches of the three estimator families on small data, with everything they
// report collected in a comparable form.
#pragma once
#include "matkit.h"
#include "discrete_choice.h"
#include "sur.h"
#include "varma.h"
#include <map>
#include <memory>
#include <optional>

namespace fam {
using namespace ldt;
using mc::fmt;
using std::string;
using std::vector;
typedef vector<Ti> Ids;

/// one reported number set of one model
struct Rec {
  int kind = 0; // 0 the model itself, 1 a coefficient or a forecast
  int eval = 0, target = 0, third = 0;
  Ids endo, exo, extra;
  double metric = NAN, weight = NAN, mean = NAN, var = NAN;
  string key() const {
    return fmt("%s metric %d target %d item %d endo {%s} exo {%s} extra {%s}", kind ? "item" : "model", eval, target, third,
               mc::join(endo).c_str(), mc::join(exo).c_str(), mc::join(extra).c_str());
  }
};
struct Res {
  std::map<string, vector<Rec>> recs;
  std::map<string, int> fails;
  int searched = 0, expected = 0;
  bool threw = false;
  string what;
  int failed() const {
    int s = 0;
    for (auto &f : fails)
      s += f.second;
    return s;
  }
  int count() const {
    int s = 0;
    for (auto &r : recs)
      s += (int)r.second.size();
    return s;
  }
  string failText() const {
    string s;
    for (auto &f : fails)
      s += fmt("%s x%d; ", f.first.c_str(), f.second);
    return s;
  }
};
inline void add(Res &r, const Rec &x) { r.recs[x.key()].push_back(x); }

inline void take(Res &r, const vector<SearcherSummary *> &list, int kind) {
  for (auto s : list) {
    // 'All' is for models only
    vector<std::shared_ptr<EstimationKeep>> es = s->All;
    if (kind)
      es.assign(s->Bests.begin(), s->Bests.end());
    for (auto &e : es) {
      Rec x;
      x.kind = kind, x.eval = s->Index1, x.target = s->Index2, x.third = kind ? s->Index3 : 0;
      x.endo = e->Endogenous, x.exo = e->Exogenouses, x.extra = e->Extra;
      x.metric = e->Metric, x.weight = e->Weight, x.mean = e->Mean, x.var = e->Variance;
      add(r, x);
    }
  }
}
inline void collect(Res &r, ModelSet &m) {
  SearcherModelingInfo info;
  vector<SearcherSummary *> l0, l1, l2;
  m.CombineInfo(info, l0, l1, l2);
  take(r, l0, 0);
  take(r, l1, 1);
  r.fails = info.FailsCount;
  r.searched = info.SearchedCount;
  r.expected = info.ExpectedCount;
}

struct Common {
  SearchData data;
  SearchCombinations comb;
  SearchItems items;
  SearchMetricOptions metrics;
  SearchModelChecks checks;
  SearchOptions options;
  int fill = 0xff;
  bool shuffle = false;
  vector<double> table; // by columns
  int rows = 0, cols = 0;
  int fixItems = 0;
  Common() {
    data.NumEndo = 1, data.NumExo = 1;
    data.HasIntercept = true, data.HasWeight = false;
    comb.NumFixPartitions = 0, comb.NumFixItems = 0, comb.NumTargets = 1;
    options.ReportInterval = 0;
    metrics.Seed = 0;
    items.KeepAll = true, items.KeepBestCount = 100000;
    items.LengthTargets = 1;
  }
  Common(const Common &) = delete;
  void load(const vector<vector<double>> &columns) {
    cols = (int)columns.size(), rows = (int)columns[0].size();
    table.clear();
    for (auto &c : columns)
      table.insert(table.end(), c.begin(), c.end());
    data.Data = Matrix<Tv>(table.data(), rows, cols);
  }
  double at(int i, int j) const { return table[(size_t)j * rows + i]; }
  /// rows without missing values in the given columns
  vector<int> complete(const Ids &cs) const {
    vector<int> o;
    for (int i = 0; i < rows; i++) {
      bool ok = true;
      for (int c : cs)
        ok &= !std::isnan(at(i, c));
      if (ok)
        o.push_back(i);
    }
    return o;
  }
  /// those rows and columns, by columns
  mk::Ref part(const vector<int> &rs, const Ids &cs) const {
    mk::Ref m((int)rs.size(), (int)cs.size());
    for (size_t i = 0; i < rs.size(); i++)
      for (size_t j = 0; j < cs.size(); j++)
        m.at((int)i, (int)j) = at(rs[i], cs[j]);
    return m;
  }
  template <class F> Res guarded(F body) {
    Res r;
    vector<double> before = table;
    try {
      body(r);
    } catch (std::exception &e) {
      r.threw = true, r.what = e.what();
    }
    mc::check(memcmp(before.data(), table.data(), before.size() * sizeof(double)) == 0, "data", "the search changes the data");
    return r;
  }
  void start(ModelSet &m, Res &r) {
    m.ShuffleSearchers = shuffle;
    if (options.Parallel) {
      m.Start(nullptr, nullptr);
    } else {
      mc::Guard<double> w((size_t)m.WorkSize, fill);
      mc::Guard<Ti> wi((size_t)m.WorkSizeI, fill);
      m.Start(w.p, wi.p);
      mc::check(w.intact() && wi.intact(), "memory", "the search writes outside its work memory");
    }
    collect(r, m);
  }
};

struct SurSearch : Common {
  int sigIter = 0;
  double sigProb = 0;
  Res run() {
    return guarded([&](Res &r) {
      auto me = metrics;
      auto ck = checks;
      auto it = items;
      SurModelset set(data, comb, options, it, me, ck, sigIter, sigProb);
      start(set.Modelset, r);
    });
  }
};

struct DcSearch : Common {
  bool logit = true, probit = false;
  int J = 2;
  vector<Matrix<Tv>> costs;
  vector<std::unique_ptr<mk::Mat<double>>> keep;
  Newton newton;
  RocOptions roc;
  Res run() {
    return guarded([&](Res &r) {
      auto me = metrics;
      auto ck = checks;
      auto it = items;
      std::unique_ptr<DiscreteChoiceModelsetBase> set(DiscreteChoiceModelsetBase::GetFromTypes(
          J == 2, data.HasWeight, data, comb, options, it, me, ck, data.Data, costs, logit, probit, newton, roc));
      start(set->Modelset, r);
    });
  }
};

struct VarSearch : Common {
  vector<Ti> params{1, 0, 0, 0, 0, 0};
  int seasons = 0, maxHorizon = 1;
  bool usePrev = false;
  double mult = 2;
  LimitedMemoryBfgsbOptions optim;
  Res run() {
    return guarded([&](Res &r) {
      auto me = metrics;
      auto ck = checks;
      auto it = items;
      mk::Ref t(cols, rows); // one series per row
      for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++)
          t.at(j, i) = at(i, j);
      mk::Mat<double> tm(t);
      DatasetTs<true> ts(cols, rows, true, true);
      ts.Data(tm.m);
      VarmaModelset set(data, comb, options, it, me, ck, ts, params, seasons, usePrev, &optim, mult, maxHorizon);
      start(set.Modelset, r);
      tm.unchanged("the data");
    });
  }
};

/// all models of the space: one item of each chosen group, fixed groups first
inline void admissible(const vector<Ids> &groups, int size, int fix, const std::function<void(const Ids &)> &f) {
  int n = (int)groups.size();
  for (int mask = 0; mask < (1 << n); mask++) {
    if (__builtin_popcount(mask) != size || (mask & ((1 << fix) - 1)) != (1 << fix) - 1)
      continue;
    vector<Ids> part = {{}};
    for (int i = 0; i < n; i++)
      if (mask >> i & 1) {
        vector<Ids> next;
        for (auto &p : part)
          for (auto v : groups[i]) {
            auto q = p;
            q.push_back(v);
            next.push_back(q);
          }
        part = next;
      }
    for (auto &p : part)
      f(p);
  }
}

/// at most `left` options leave their default: the first value in profile 0,
/// value `alt` in the other profile
struct Dev {
  int left, profile = 0;
  int c(int n, int alt = 0) {
    int def = profile ? alt : 0;
    if (left <= 0)
      return def;
    int k = mc::choose(n);
    if (k)
      left--;
    return k == 0 ? def : k <= def ? k - 1 : k;
  }
  template <class T> T of(int alt, std::initializer_list<T> v) {
    vector<T> w(v);
    return w[(size_t)c((int)w.size(), alt)];
  }
};

inline bool near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  return mc::close(a, b, tol);
}
/// what a search reports against what is expected of it (a key may have several
/// acceptable values: `alt`)
inline void same(const Res &got, const Res &want, double tol, const char *key, const string &t) {
  for (auto &w : want.recs) {
    auto g = got.recs.find(w.first);
    if (g == got.recs.end())
      mc::fail(key, t + "not reported: " + w.first);
    MC_CHECK(g->second.size() == w.second.size(), key, "%sreported %d times instead of %d: %s", t.c_str(), (int)g->second.size(),
             (int)w.second.size(), w.first.c_str());
    vector<bool> used(w.second.size());
    for (auto &x : g->second) {
      bool ok = false;
      string near_;
      for (size_t i = 0; i < w.second.size() && !ok; i++) {
        auto &y = w.second[i];
        if (used[i])
          continue;
        if (near(x.metric, y.metric, tol) && near(x.weight, y.weight, tol) && near(x.mean, y.mean, tol) && near(x.var, y.var, tol))
          ok = used[i] = true;
        else
          near_ = fmt("reported metric %.10g weight %.10g mean %.10g variance %.10g instead of %.10g %.10g %.10g %.10g", x.metric, x.weight,
                      x.mean, x.var, y.metric, y.weight, y.mean, y.var);
      }
      mc::check(ok, key, t + w.first + ": " + near_);
    }
  }
  for (auto &g : got.recs)
    if (!want.recs.count(g.first))
      mc::fail(key, t + fmt("reported (metric %.10g): ", g.second[0].metric) + g.first);
}
} // namespace fam
