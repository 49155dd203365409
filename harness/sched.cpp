// C02: results of a search do not depend on the order of its parts, on the
// number of threads or on how these interleave; no unordered accesses.
#include "famkit.h"
#include "schedkit.h"
#include "searchkit.h"

using namespace mc;
using namespace fam;
using kit::Out;
using kit::Rig;

typedef std::map<string, double> Table;

/// everything the combined results say
static Table combined(const ModelSet &m, const SearchItems &items, int vars) {
  Table o;
  SearcherModelingInfo info;
  vector<SearcherSummary *> l[3];
  m.CombineInfo(info, l[0], l[1], l[2]);
  o["searched"] = info.SearchedCount, o["expected"] = info.ExpectedCount;
  for (auto &f : info.FailsCount)
    o["fail: " + f.first] = f.second;
  for (int k = 0; k < 2; k++) {
    std::set<std::array<Ti, 3>> ids;
    for (auto s : l[k])
      ids.insert({s->Index1, s->Index2, s->Index3});
    for (auto &id : ids) {
      string p = fmt("%s %d/%d/%d ", k ? "item" : "model", id[0], id[1], id[2]);
      vector<std::shared_ptr<EstimationKeep>> v;
      auto name = [&](const std::shared_ptr<EstimationKeep> &e) {
        return "{" + join(e->Endogenous) + "|" + join(e->Exogenouses) + "|" + join(e->Extra) + "}";
      };
      if (items.KeepAll && !k) {
        m.CombineAll(id[0], id[1], id[2], l[k], v);
        std::map<string, int> seen;
        for (auto &e : v) {
          string n = p + "all " + name(e);
          n += fmt(" #%d", seen[n]++);
          o[n + " metric"] = e->Metric, o[n + " weight"] = e->Weight, o[n + " mean"] = e->Mean, o[n + " var"] = e->Variance;
        }
      }
      if (items.KeepBestCount > 0) {
        v.clear();
        m.CombineBests(id[0], id[1], id[2], l[k], v);
        o[p + "bests"] = (double)v.size();
        // the choice among equally good models is free
        vector<double> metrics;
        for (auto s : l[0])
          if (s->Index1 == id[0] && s->Index2 == id[1])
            for (auto &e : s->All)
              metrics.push_back(e->Metric);
        for (size_t i = 0; i < v.size(); i++) {
          int equal = 0;
          for (auto x : metrics)
            equal += mc::close(x, v[i]->Metric, 1e-9);
          o[p + fmt("best %d ", (int)i) + (equal == 1 ? name(v[i]) : "")] = v[i]->Metric;
        }
      }
      for (size_t c = 0; c < items.CdfsAt.size(); c++) {
        RunningMoments<1, true, true, Tv> r;
        m.CombineCdfAt(id[0], id[1], id[2], (Ti)c, l[k], r);
        o[p + fmt("cdf %d", (int)c)] = r.GetMean(), o[p + fmt("cdf %d count", (int)c)] = r.Count, o[p + fmt("cdf %d weights", (int)c)] = r.SumWeights;
      }
      if (items.KeepMixture) {
        RunningMoments<4, true, true, Tv> r;
        m.CombineMixture(id[0], id[1], id[2], l[k], r);
        o[p + "mixture mean"] = r.GetMean(), o[p + "mixture var"] = r.GetVariance(), o[p + "mixture weights"] = r.SumWeights, o[p + "mixture count"] = r.Count;
      }
      if (items.ExtremeBoundsMultiplier > 0) {
        double a, b;
        m.CombineExtremeBounds(id[0], id[1], id[2], l[k], a, b);
        o[p + "low"] = a, o[p + "high"] = b;
      }
      if (items.KeepInclusionWeights && k == 0)
        for (int i = 0; i < vars; i++) {
          RunningMoments<1, true, false, Tv> r;
          m.CombineInclusionWeights(id[0], id[1], i, l[k], r);
          o[p + fmt("inclusion %d", i)] = r.GetMean(), o[p + fmt("inclusion %d count", i)] = r.Count;
        }
    }
  }
  return o;
}
static void agree(const Table &got, const Table &want, const string &t, double tol = 1e-9) {
  for (auto &w : want) {
    auto g = got.find(w.first);
    if (g == got.end())
      fail("order", t + " loses '" + w.first + "'");
    eq(g->second, w.second, "order", t + " changes '" + w.first + "'", tol);
  }
  for (auto &g : got)
    if (!want.count(g.first))
      fail("order", t + " adds '" + g.first + "'");
}

// set while cancellation is studied
static std::function<void(ModelSet &, SearchOptions &)> onStart, onEnd;

static vector<int> permutation(int n) {
  vector<int> left, o;
  for (int i = 0; i < n; i++)
    left.push_back(i);
  while (!left.empty()) {
    int k = choose((int)left.size());
    o.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  return o;
}
/// some orders of many parts: rotations of the order and of its reverse
static vector<int> order(int n, int exactUpTo) {
  if (n <= exactUpTo)
    return permutation(n);
  bool rev = flip();
  int k = choose(std::min(n, 6)) * std::max(1, n / 6);
  vector<int> o;
  for (int i = 0; i < n; i++) {
    int j = (i + k) % n;
    o.push_back(rev ? n - 1 - j : j);
  }
  return o;
}
/// a fresh search, started on its own: fills the table
struct Job {
  std::function<Table(bool parallel, const vector<int> &order)> run;
  int parts = 0;
};
static string text(const sch::Plan &p) {
  string s = fmt("%d threads, members in order %s", p.threads, join(p.priority).c_str());
  for (auto &x : p.switches)
    s += fmt(", switch at point %ld", x.first);
  return s;
}
static void clean(const string &t) {
  MC_CHECK(sch::R.race->empty(), "race", "%s: %s", t.c_str(), sch::R.race->c_str());
}

// ------------------------------------------------------------- cancellation
/// what one searcher reported so far
typedef vector<int> Sizes;
static Sizes sizes(const Searcher *s) {
  Sizes o;
  for (auto &a : s->Summaries0)
    for (auto &b : a)
      o.push_back((int)b.All.size());
  for (auto &a : s->Summaries1)
    for (auto &b : a)
      for (auto &c : b)
        o.push_back(c.Mixture4.Count);
  return o;
}
static vector<vector<double>> values(const Searcher *s) {
  vector<vector<double>> o;
  for (auto &a : s->Summaries0)
    for (auto &b : a) {
      o.emplace_back();
      for (auto &e : b.All)
        o.back().push_back(e->Metric), o.back().push_back(e->Weight);
    }
  return o;
}
static int fails(const Searcher *s) {
  int n = 0;
  for (auto &f : s->States)
    n += f.second;
  return n;
}
static void cancelled(const Job &job, const string &desc) {
  describe(desc);
  vector<int> id;
  for (int i = 0; i < job.parts; i++)
    id.push_back(i);
  int threads = choose(3); // 0: one part after the other
  sch::Plan plan;
  plan.threads = std::max(1, threads);
  for (int i = 0; i < plan.threads; i++)
    plan.priority.push_back(i);
  bool atPoll = flip();
  auto &R = sch::R;
  ModelSet *set = nullptr;
  vector<std::map<int, Sizes>> legal;
  vector<std::map<int, int>> legalFails;
  vector<vector<vector<double>>> full, got;
  auto look = [&] {
    for (size_t i = 0; i < set->pSearchers->size(); i++) {
      auto s = (*set->pSearchers)[i];
      legal[i].insert({s->Counter, sizes(s)});
      legalFails[i].insert({s->Counter, fails(s)});
    }
  };
  vector<int> at;
  std::function<void()> poll = look, flipped = [&] {
    for (auto s : *set->pSearchers)
      at.push_back(s->Counter);
  };
  bool first = true;
  auto reset = [&] {
    sch::reset(plan);
    R.polls = R.moments = 0, R.flipAt = R.flipMoment = -1, R.flipped = false;
  };
  struct Off {
    ~Off() { onStart = onEnd = nullptr, sch::R.watch = nullptr, sch::R.onPoll = sch::R.onFlip = nullptr; }
  } off;
  onStart = [&](ModelSet &m, SearchOptions &o) {
    set = &m;
    if (first)
      legal.resize(m.pSearchers->size()), legalFails.resize(m.pSearchers->size());
    R.onPoll = first ? &poll : nullptr;
    R.onFlip = &flipped;
    R.watch = &o.RequestCancel;
  };
  onEnd = [&](ModelSet &m, SearchOptions &) {
    R.watch = nullptr;
    if (first)
      look();
    for (auto s : *m.pSearchers)
      (first ? full : got).push_back(values(s));
    if (first)
      return;
    // what is left behind
    int total = 0, before = 0;
    for (size_t i = 0; i < m.pSearchers->size(); i++) {
      auto s = (*m.pSearchers)[i];
      int c = s->Counter, b = at.empty() ? c : at[i];
      total += c, before += b;
      MC_CHECK(c >= b && c <= b + 1, "prompt", "part %d had %d models when the request arrived and %d at the end", (int)i, b, c);
      auto z = sizes(s);
      bool done = legal[i].count(c) && legal[i][c] == z, open = c > b && legal[i].count(b) && legal[i][b] == z;
      MC_CHECK(done || open, "prefix", "part %d: results after %d models (%d when the request arrived) are those of another number of models", (int)i, c, b);
      int f = fails(s);
      MC_CHECK((done && f == legalFails[i][c]) || (open && f == legalFails[i][b] + 1), "failures", "part %d: %d failures after %d models (%d when the request arrived)",
               (int)i, f, c, b);
      for (size_t k = 0; k < got[i].size(); k++) {
        check(got[i][k].size() <= full[i][k].size(), "prefix", "more results than without the request");
        for (size_t e = 0; e < got[i][k].size(); e++)
          eq(got[i][k][e], full[i][k][e], "prefix", fmt("part %d result %d", (int)i, (int)e));
      }
    }
    MC_CHECK(total <= before + std::max(1, threads), "prompt", "%d models when the request arrived, %d at the end", before, total);
    outcome((uint64_t)(total * 1000 + before));
  };
  reset();
  job.run(threads > 0, id);
  long n = atPoll ? R.polls : R.moments;
  if (n == 0)
    throw Skip();
  check(R.polls > 0, "polls", "the request is never looked at");
  first = false;
  // all of the first moments, then every so often one (every one if thorough)
  long step_ = atPoll || thorough() ? 1 : std::max(1L, n / 120);
  long k = (long)choose((int)((n + step_ - 1) / step_)) * step_;
  reset();
  (atPoll ? R.flipAt : R.flipMoment) = k;
  describe(desc + fmt(": request at %s %ld of %ld, %d threads", atPoll ? "poll" : "allocation", k, n, threads));
  step();
  state(mix(hash_str(desc), (uint64_t)(k * 8 + threads * 2 + atPoll)));
  auto t = job.run(threads > 0, id);
  check(R.flipped, "flip", "the request was not made");
  if (threads)
    clean("cancelled search");
}
static bool cancelMode = false;

static void explore(const Job &job, const string &desc, int maxThreads, int preemptions, int exact) {
  if (cancelMode)
    return cancelled(job, desc);
  describe(desc);
  vector<int> id;
  for (int i = 0; i < job.parts; i++)
    id.push_back(i);
  sch::reset({});
  auto want = job.run(false, id);
  state(hash_str(desc));
  outcome((uint64_t)want.size());
  auto ord = order(job.parts, exact);
  sch::Plan plan;
  plan.threads = range(0, maxThreads);
  string t = "order " + join(ord) + " of the parts";
  if (plan.threads == 0) { // one after the other
    describe(desc + ": " + t);
    step();
    agree(job.run(false, ord), want, t);
    return;
  }
  plan.priority = permutation(plan.threads);
  t += ", " + text(plan);
  describe(desc + ": " + t);
  sch::reset(plan);
  step();
  auto got = job.run(true, ord);
  long K = sch::R.points;
  check(sch::R.teams > 0, "parallel", "no parallel execution in " + t);
  clean(t);
  agree(got, want, t);
  if (!thorough() && exact == 3 && ord != id)
    return;
  int b = plan.threads > 1 && K > 0 ? choose(preemptions + 1) : 0;
  if (!b)
    return;
  long from = 0;
  for (int i = 0; i < b && from < K; i++) {
    // quick: a grid of points for the families
    long grid = thorough() || exact != 3 ? 1 : std::max(1L, K / 120);
    from += choose((int)((K - from + grid - 1) / grid)) * grid;
    plan.switches.push_back({from, plan.threads > 2 ? choose(plan.threads - 1) : 0});
    from++;
  }
  t = "order " + join(ord) + " of the parts, " + text(plan);
  describe(desc + ": " + t);
  sch::reset(plan);
  step();
  got = job.run(true, ord);
  clean(t);
  agree(got, want, t);
  state(mix(hash_str(desc), (uint64_t)(from * 16 + sch::R.switchesDone)));
}

// the book keeping, with scripted models
static void scripted() {
  int shape = choose(qt(4, 6));
  vector<vector<int>> kinds = vector<vector<vector<int>>>{
      {{0}, {0}},             // one model each
      {{0, 2}, {0}, {3, 0}},  // failures
      {{0, 0}, {0, 0}},       //
      {{2, 1}, {2}, {0}, {0}},
      {{0, 0, 0}, {0}, {0, 2}},
      {{0}, {0}, {0}, {0}, {0}},
  }[shape];
  int what = choose(3);
  vector<vector<Out>> parts;
  int n = 0;
  for (auto &k : kinds) {
    vector<Out> p;
    for (auto x : k) {
      Out o;
      o.kind = x;
      n++;
      o.metrics = {0.1 + 0.07 * ((n * 5) % 11), 0.9 - 0.06 * ((n * 3) % 7)};
      o.means = {1.0 + (n * 7) % 5, -1.0 * n};
      o.vars = {0.5 + n, 0.25};
      p.push_back(o);
    }
    parts.push_back(p);
  }
  auto make = [&](Rig &r) {
    r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
    r.b.metrics.MetricsOut = {ScoringType::kDirection};
    r.b.metrics.SimFixSize = 1;
    r.b.metrics.TrainRatio = 0.5;
    r.b.metrics.Update(true, false);
    auto &it = r.b.items;
    it.LengthEvals = 2;
    it.KeepModelEvaluations = what != 1;
    it.Length1 = what != 2 ? 2 : 0;
    it.KeepAll = true, it.KeepMixture = true, it.KeepInclusionWeights = true;
    it.KeepBestCount = 2;
    it.CdfsAt = {0.5, 2};
    it.ExtremeBoundsMultiplier = 1;
    r.start(parts);
  };
  Job j;
  j.parts = (int)parts.size();
  j.run = [&](bool parallel, const vector<int> &ord) {
    Rig r;
    r.b.options.Parallel = parallel;
    make(r);
    vector<Searcher *> l;
    for (auto i : ord)
      l.push_back(r.list[i]);
    r.list = l;
    if (onStart)
      onStart(*r.set, r.b.options);
    r.set->Start(nullptr, nullptr);
    if (onEnd)
      onEnd(*r.set, r.b.options);
    return combined(*r.set, r.b.items, r.b.data.NumEndo + r.b.data.NumExo);
  };
  explore(j, fmt("scripted shape %d items %d", shape, what), qt(3, 4), qt(1, 2), 4);
}

// errors reach the caller
static void errors() {
  int parts = range(1, 3), bad = choose(parts), kind = choose(2);
  bool parallel = flip();
  sch::Plan plan;
  plan.threads = parallel ? range(1, 3) : 1;
  plan.priority = permutation(plan.threads);
  describe(fmt("error in part %d of %d kind %d, %s", bad, parts, kind, parallel ? text(plan).c_str() : "sequential"));
  Rig r;
  r.b.options.Parallel = parallel;
  r.b.metrics.MetricsIn = {GoodnessOfFitType::kAuc};
  r.b.metrics.Update(true, false);
  r.b.items.LengthEvals = 1;
  r.b.items.KeepAll = true;
  Out o;
  o.metrics = {0.5};
  r.start(vector<vector<Out>>(parts, {o}));
  sch::reset(plan);
  if (kind == 0) { // searched before
    vector<double> w((size_t)std::max(1, r.list[bad]->WorkSize));
    vector<Ti> wi((size_t)std::max(1, r.list[bad]->WorkSizeI));
    r.list[bad]->Start(w.data(), wi.data());
  } else
    r.combs[bad].Partitions.clear(); // not enough groups
  bool threw = false;
  step();
  try {
    r.set->Start(nullptr, nullptr);
  } catch (std::exception &) {
    threw = true;
  }
  check(threw, "error", "an impossible part is not reported to the caller");
  if (parallel)
    clean("error");
}

// -------------------------------------------------------- estimator families
template <class S, class MS> static Table start(S &s, ModelSet &set, const vector<int> &ord, MS &) {
  set.ShuffleSearchers = false;
  vector<Searcher *> l;
  MC_CHECK(ord.empty() || ord.size() == set.pSearchers->size(), "parts", "%d parts instead of %d", (int)set.pSearchers->size(), (int)ord.size());
  for (auto i : ord)
    l.push_back(set.pSearchers->at(i));
  if (!ord.empty())
    *set.pSearchers = l;
  vector<double> w(s.options.Parallel ? 0 : (size_t)set.WorkSize);
  vector<Ti> wi(s.options.Parallel ? 0 : (size_t)set.WorkSizeI);
  if (onStart)
    onStart(set, s.options);
  set.Start(w.data(), wi.data());
  if (onEnd)
    onEnd(set, s.options);
  return combined(set, s.items, s.data.NumEndo + s.data.NumExo);
}
static double noise(int i, int j, int k) {
  uint64_t h = mix(mix(mix(17, (uint64_t)i), (uint64_t)j), (uint64_t)k);
  h = mix(h, 5);
  return ((double)(h % 20001) - 10000.0) / 4000.0;
}
static void items(SearchItems &it) {
  it.KeepAll = true, it.KeepMixture = true, it.KeepInclusionWeights = true;
  it.KeepBestCount = 2;
  it.CdfsAt = {0.5};
  it.ExtremeBoundsMultiplier = 1.5;
}
static void sur() {
  int kind = choose(qt(4, 6)), N = 14;
  auto make = [&](SurSearch &s) {
    vector<vector<double>> c(5, vector<double>(N));
    for (int i = 0; i < N; i++) {
      for (int j = 2; j < 5; j++)
        c[j][i] = j == 2 ? 1 : noise(i, j, 0);
      for (int j = 0; j < 2; j++)
        c[j][i] = 1 + 0.7 * c[3][i] - 0.4 * c[4][i] + noise(i, j, 1);
    }
    if (kind == 3)
      c[4][2] = NAN;
    s.load(c);
    s.data.NumEndo = 2, s.data.NumExo = 3;
    s.items.LengthEndogenous = 2, s.items.LengthExogenous = 3, s.items.LengthTargets = s.comb.NumTargets = 2;
    items(s.items);
    s.comb.Partitions = {{2}, {3}, {4}};
    s.comb.Sizes = {1, 2};
    s.comb.InnerGroups = {{0}, {0, 1}};
    s.metrics.MetricsIn = {GoodnessOfFitType::kAic};
    s.items.Length1 = 3;
    if (kind >= 1) {
      s.metrics.MetricsOut = {ScoringType::kRmse, ScoringType::kCrps};
      s.metrics.SimFixSize = 2, s.metrics.TrainRatio = 0.75, s.metrics.Seed = kind == 2 ? -7 : 7;
    }
    s.checks.Estimation = true;
    if (kind == 4)
      s.sigIter = 2, s.sigProb = 0.2;
    if (kind == 5)
      s.data.Lambdas = {0.5, 1};
  };
  Job j;
  j.run = [&](bool parallel, const vector<int> &ord) {
    SurSearch s;
    make(s);
    s.options.Parallel = parallel;
    SurModelset set(s.data, s.comb, s.options, s.items, s.metrics, s.checks, s.sigIter, s.sigProb);
    j.parts = (int)set.Modelset.pSearchers->size();
    return start(s, set.Modelset, ord, set);
  };
  j.run(false, {});
  explore(j, fmt("sur kind %d parts %d", kind, j.parts), qt(2, 3), qt(1, 2), 3);
}
static void dc() {
  int kind = choose(qt(5, 7)), N = 16;
  auto make = [&](DcSearch &s) {
    vector<vector<double>> c(kind == 2 ? 5 : 4, vector<double>(N));
    int x = kind == 2 ? 2 : 1;
    s.J = kind == 4 ? 3 : 2;
    for (int i = 0; i < N; i++) {
      if (kind == 2)
        c[1][i] = 0.5 + (i % 3);
      c[x][i] = 1, c[x + 1][i] = noise(i, 2, 3), c[x + 2][i] = noise(i, 3, 3);
      double v = c[x + 1][i] - 0.5 * c[x + 2][i] + noise(i, 4, 3);
      c[0][i] = s.J == 2 ? v > 0 : v > 1 ? 2 : v > -1;
    }
    s.load(c);
    s.data.NumEndo = 1, s.data.NumExo = 3, s.data.HasWeight = kind == 2;
    s.items.LengthEndogenous = 1, s.items.LengthExogenous = 3, s.items.LengthTargets = 1;
    items(s.items);
    s.comb.Partitions = {{1}, {2}, {3}}; // without the column of weights
    s.comb.Sizes = {1, 2};
    s.comb.NumFixPartitions = 1;
    s.metrics.MetricsIn = {GoodnessOfFitType::kAic, GoodnessOfFitType::kBrier};
    s.items.Length1 = 3 + s.J - 2;
    s.probit = kind != 3;
    if (kind >= 1 && s.J == 2) {
      s.metrics.MetricsOut = {ScoringType::kBrier};
      s.metrics.SimFixSize = 2, s.metrics.TrainRatio = 0.75, s.metrics.Seed = kind == 3 ? -7 : 7;
    }
    if (kind == 5 || kind == 1) {
      mk::Ref cm(3, 3);
      double v[3][3] = {{0.3, 1, 0}, {0.6, 0.5, 0.5}, {1, 0, 1}};
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++)
          cm.at(a, b) = v[a][b];
      s.keep.emplace_back(new mk::Mat<double>(cm));
      s.costs.push_back(s.keep.back()->m);
      s.metrics.MetricsIn.push_back(GoodnessOfFitType::kFrequencyCost);
      s.metrics.MetricsOut.push_back(ScoringType::kFrequencyCost);
      s.metrics.MetricsOut.push_back(ScoringType::kAuc);
    }
    s.checks.Estimation = true;
  };
  Job j;
  j.run = [&](bool parallel, const vector<int> &ord) {
    DcSearch s;
    make(s);
    s.options.Parallel = parallel;
    std::unique_ptr<DiscreteChoiceModelsetBase> set(DiscreteChoiceModelsetBase::GetFromTypes(
        s.J == 2, s.data.HasWeight, s.data, s.comb, s.options, s.items, s.metrics, s.checks, s.data.Data, s.costs, s.logit, s.probit, s.newton, s.roc));
    j.parts = (int)set->Modelset.pSearchers->size();
    return start(s, set->Modelset, ord, set);
  };
  j.run(false, {});
  explore(j, fmt("dc kind %d parts %d", kind, j.parts), qt(2, 3), qt(1, 2), 3);
}
static void varma() {
  int kind = choose(qt(4, 6)), T = 18, N = 20;
  auto make = [&](VarSearch &s) {
    vector<vector<double>> c(4, vector<double>(N, NAN));
    for (int j = 0; j < 2; j++)
      for (int i = 0; i < T; i++)
        c[j][i] = 5 + noise(i, j, 4) + 0.5 * noise(i - 1, j, 4) + 0.3 * noise(i - 1, 1 - j, 4);
    for (int j = 2; j < 4; j++)
      for (int i = 0; i < N; i++)
        c[j][i] = j == 2 ? 1 : noise(i, 9, 4);
    s.load(c);
    s.data.HasIntercept = false;
    s.data.NumEndo = 2, s.data.NumExo = 2;
    s.items.LengthEndogenous = 2, s.items.LengthExogenous = 2, s.items.LengthTargets = s.comb.NumTargets = 2;
    items(s.items);
    s.comb.Partitions = {{0}, {1}};
    s.comb.Sizes = {1, 2};
    s.comb.InnerGroups = {{2}, {3}};
    s.params = kind == 1 ? vector<Ti>{0, 0, 1, 0, 0, 0} : vector<Ti>{1, 0, 0, 0, 0, 0};
    if (kind == 5)
      s.params = {1, 1, 0, 0, 0, 0};
    s.metrics.MetricsIn = {GoodnessOfFitType::kAic};
    if (kind >= 2) {
      s.metrics.MetricsOut = {ScoringType::kRmse, ScoringType::kCrps};
      s.metrics.SimFixSize = 2, s.metrics.Horizons = {1, 2};
    }
    s.maxHorizon = 2;
    s.checks.Estimation = s.checks.Prediction = true;
    s.items.Length1 = 2;
    s.usePrev = kind == 3;
    if (kind == 4)
      s.data.Lambdas = {0.5, 1};
  };
  Job j;
  j.run = [&](bool parallel, const vector<int> &ord) {
    VarSearch s;
    make(s);
    s.options.Parallel = parallel;
    mk::Ref t(s.cols, s.rows);
    for (int i = 0; i < s.rows; i++)
      for (int k = 0; k < s.cols; k++)
        t.at(k, i) = s.at(i, k);
    mk::Mat<double> tm(t);
    DatasetTs<true> ts(s.cols, s.rows, true, true);
    ts.Data(tm.m);
    VarmaModelset set(s.data, s.comb, s.options, s.items, s.metrics, s.checks, ts, s.params, s.seasons, s.usePrev, &s.optim, s.mult, s.maxHorizon);
    j.parts = (int)set.Modelset.pSearchers->size();
    return start(s, set.Modelset, ord, set);
  };
  j.run(false, {});
  explore(j, fmt("varma kind %d parts %d", kind, j.parts), qt(2, 3), 1, 3);
}

template <void (*F)()> static void cancel() {
  cancelMode = true;
  struct Off {
    ~Off() { cancelMode = false; }
  } off;
  F();
}

int main(int argc, char **argv) {
  sch::init();
  return harness_main(argc, argv,
                      {
                          {"c02_scripted", scripted, "all orders, 1-3 (4) threads, all member orders, 1 (2) forced switches"},
                          {"c02_errors", errors, "all positions of an impossible part"},
                          {"c02_sur", sur, "orders x 1-2 (3) threads x 1 (2) forced switches, at 120 (all) points"},
                          {"c02_dc", dc, "orders x 1-2 (3) threads x 1 (2) forced switches, at 120 (all) points"},
                          {"c02_varma", varma, "orders x 1-2 (3) threads x 1 forced switch, at 120 (all) points"},
                          {"c06_schedule", cancel<scripted>, "all polls and allocations, sequential and 1-2 threads"},
                          {"c06_sur", cancel<sur>, "all polls, 120 (all) allocations, sequential and 1-2 threads"},
                          {"c06_dc", cancel<dc>, "all polls, 120 (all) allocations, sequential and 1-2 threads"},
                          {"c06_varma", cancel<varma>, "all polls, 120 (all) allocations, sequential and 1-2 threads"},
                      });
}
