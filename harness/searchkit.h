// Small searches whose models are scripted by the explorer: the library's own
// Searcher, SearcherReg, SearcherSummary and ModelSet do all the book keeping.
#pragma once
#include "mc.h"
#include "searchers.h"
#include <memory>

namespace kit {
using namespace ldt;
using mc::fmt;
using std::string;
using std::vector;

/// records the combinations it is asked to evaluate
class Recorder : public Searcher {
public:
  using Searcher::Searcher;
  vector<vector<Ti>> seen;
  string EstimateOne(Tv *, Ti *) override {
    mc::step();
    seen.push_back(CurrentIndices.Vec);
    return "";
  }
};

/// what one model does
struct Out {
  int kind = 0; // 0 fine, otherwise a failure
  vector<double> metrics; // one per metric (same for all targets)
  vector<double> means, vars; // one per parameter
};

/// a searcher whose k-th model behaves as script[k]
class Scripted : public SearcherReg {
public:
  vector<Out> script;
  int cancelAt = -1;   // model index at which the request arrives
  int cancelWhere = 0; // 0 at the start of the evaluation, 1 at its end
  int *order = nullptr;
  vector<int> started;
  Scripted(const SearchData &d, const SearchCombinations &c, SearchOptions &o,
           const SearchItems &i, const SearchMetricOptions &m,
           const SearchModelChecks &k, Ti size, bool innerExo,
           const vector<Ti> &inner)
      : SearcherReg(d, c, o, i, m, k, size, innerExo, inner, 1) {}
  string EstimateOneReg(Tv *, Ti *, VMatrix<Tv> &metrics, VMatrix<Tv> &mean,
                        VMatrix<Tv> &var, VMatrix<Ti> &extra) override {
    mc::step();
    int k = (int)started.size();
    started.push_back(k);
    if (k >= (int)script.size())
      mc::fail("extra-model", fmt("model %d evaluated, only %d exist", k,
                                  (int)script.size()));
    auto &o = script[k];
    if (k == cancelAt && cancelWhere == 0) {
      pOptions->RequestCancel = true;
      return ""; // as the library's own searchers do when they see the request
    }
    switch (o.kind) {
    case 1:
      return "returned text";
    case 2:
      throw LdtException(ErrorType::kLogic, "kit", "library error");
    case 3:
      throw std::runtime_error("standard error");
    case 4:
      throw string("text error");
    case 5:
      throw "literal error";
    case 6:
      throw 17;
    }
    for (Ti i = 0; i < metrics.Mat.RowsCount; i++)
      for (Ti j = 0; j < metrics.Mat.ColsCount; j++)
        metrics.Mat.Set(i, j, o.kind == 7 ? NAN : o.metrics.at(i));
    for (Ti i = 0; i < mean.Mat.RowsCount; i++)
      for (Ti j = 0; j < mean.Mat.ColsCount; j++) {
        mean.Mat.Set(i, j, o.means.at(i));
        var.Mat.Set(i, j, o.vars.at(i));
      }
    extra.Mat.Data[0] = 7;
    if (k == cancelAt && cancelWhere == 1)
      pOptions->RequestCancel = true;
    return "";
  }
};

/// everything a search needs, kept alive together
struct Bench {
  SearchData data;
  SearchCombinations comb;
  SearchOptions options;
  SearchItems items;
  SearchMetricOptions metrics;
  SearchModelChecks checks;
  Bench() {
    data.NumEndo = 1;
    data.NumExo = 1;
    data.HasIntercept = false;
    data.HasWeight = false;
    comb.NumFixPartitions = 0;
    comb.NumFixItems = 0;
    comb.NumTargets = 1;
    options.ReportInterval = 0;
    metrics.Seed = 0;
    items.LengthTargets = 1;
  }
};

/// a model set of scripted searchers
struct Rig {
  Bench b;
  vector<std::unique_ptr<Scripted>> own;
  vector<Searcher *> list;
  std::unique_ptr<ModelSet> set;
  SearcherModelingInfo info;
  vector<SearcherSummary *> l0, l1, l2;
  // counts[i] models in part i; each model of part i has its own column
  void start(const vector<vector<Out>> &parts) {
    int cols = 0;
    for (auto &p : parts)
      cols = std::max(cols, (int)p.size());
    b.comb.Partitions.clear();
    b.data.NumEndo = 1 + (int)parts.size();
    b.data.NumExo = cols;
    // one group per part is not possible (the groups are shared), so each part
    // has its own combinations object
    combs.resize(parts.size());
    for (size_t i = 0; i < parts.size(); i++) {
      combs[i] = b.comb;
      combs[i].Partitions = {{}};
      for (size_t k = 0; k < parts[i].size(); k++)
        combs[i].Partitions[0].push_back(b.data.NumEndo + (Ti)k);
      vector<Ti> inner = {0};
      if (i > 0)
        inner.push_back((Ti)i);
      own.emplace_back(new Scripted(b.data, combs[i], b.options, b.items,
                                    b.metrics, b.checks, 1, false, inner));
      own.back()->script = parts[i];
      list.push_back(own.back().get());
    }
    set.reset(new ModelSet(list, b.data, b.comb, b.options, b.items, b.metrics,
                           b.checks));
    set->ShuffleSearchers = false;
  }
  void run() {
    set->Start(nullptr, nullptr);
    set->CombineInfo(info, l0, l1, l2);
  }
  vector<SearchCombinations> combs;
};

} // namespace kit
