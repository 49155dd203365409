// C20: distances, hierarchical clustering and grouping against direct
// computations from their definitions.
#include "clustering.h"
#include "matkit.h"
using namespace ldt;
using namespace mk;
using mc::fmt;
using Vec = std::vector<double>;

static const std::vector<HClusterLinkage> LINKS = {HClusterLinkage::kSingle, HClusterLinkage::kComplete, HClusterLinkage::kAverageU, HClusterLinkage::kAverageW, HClusterLinkage::kWard};

// ------------------------------------------------------------- clustering
struct Node {
  std::vector<int> items;
  int l = -1, r = -1;
  double h = 0;
};
static double base(const Ref &d, int i, int j) { return d.at(i, j); }
/// distance of two clusters by definition; the recursive linkages follow the tree
static double between(const Ref &d, const std::vector<Node> &t, HClusterLinkage k, int a, int b) {
  const Node &A = t[a], &B = t[b];
  if (k == HClusterLinkage::kSingle || k == HClusterLinkage::kComplete || k == HClusterLinkage::kAverageU) {
    double mn = INFINITY, mx = -INFINITY, s = 0;
    for (int i : A.items)
      for (int j : B.items) {
        double x = base(d, i, j);
        mn = std::min(mn, x), mx = std::max(mx, x), s += x;
      }
    return k == HClusterLinkage::kSingle ? mn : k == HClusterLinkage::kComplete ? mx : s / A.items.size() / B.items.size();
  }
  if (A.l < 0 && B.l < 0)
    return base(d, A.items[0], B.items[0]);
  if (A.l < 0 || (B.l >= 0 && b > a)) // split the one that was merged later
    return between(d, t, k, b, a);
  double x = between(d, t, k, A.l, b), y = between(d, t, k, A.r, b);
  if (k == HClusterLinkage::kAverageW)
    return (x + y) / 2;
  double nl = t[A.l].items.size(), nr = t[A.r].items.size(), nb = B.items.size(), n = nl + nr + nb;
  return ((nl + nb) * x + (nr + nb) * y - nb * A.h) / n;
}
static std::string str(const Ref &d) {
  std::string o;
  for (int j = 0; j < d.r; j++)
    for (int i = j + 1; i < d.r; i++)
      o += fmt("%g ", d.at(i, j));
  return o;
}
/// the k groups of a tree after its last (or highest) k-1 merges are undone
static std::set<std::vector<int>> cut(const std::vector<Node> &t, int n, int k, bool high, bool &tie) {
  std::vector<int> o;
  for (int i = n; i < 2 * n - 1; i++)
    o.push_back(i);
  std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return high ? t[a].h > t[b].h : a > b; });
  tie = k > 1 && k < n && high && t[o[k - 2]].h - t[o[k - 1]].h <= 1e-9;
  std::set<int> undone(o.begin(), o.begin() + k - 1), out;
  std::set<std::vector<int>> g;
  if (undone.empty())
    g.insert(t.back().items);
  for (int i : undone)
    for (int s : {t[i].l, t[i].r})
      if (!undone.count(s))
        g.insert(t[s].items);
  return g;
}
static bool cutHeight = false;
/// runs the library and checks everything it reports
static std::vector<Node> cluster(const Ref &d, HClusterLinkage k, bool groups = true) {
  int n = d.r;
  mc::describe(fmt("%s n=%d ", ToString(k), n) + str(d));
  mc::Guard<double> g(n * (n - 1) / 2);
  MatrixSym<false> D(g.p, n);
  for (int j = 0; j < n; j++)
    for (int i = j + 1; i < n; i++)
      D.Set(i, j, d.at(i, j));
  auto c = HClusterBase::GetFromType(k, n);
  mc::step();
  c->Calculate(D);
  MC_CHECK(g.intact(), "memory", "clustering writes before the distances");
  mc::eqi((int)c->Nodes.size(), 2 * n - 1, "nodes", "number of nodes");
  double tol = 1e-9;
  std::vector<Node> t;
  std::vector<int> live;
  for (int i = 0; i < n; i++) {
    t.push_back({{i}, -1, -1, 0});
    live.push_back(i);
    mc::eqi(c->Nodes.at(i)->id, i, "nodes", "id of an item");
    mc::eqi(c->Nodes.at(i)->nodesWithin, 1, "nodes", "size of an item");
  }
  for (int i = n; i < 2 * n - 1; i++) {
    auto &N = *c->Nodes.at(i);
    mc::eqi(N.id, i, "nodes", "id of a merge");
    int l = N.idLeft, r = N.idRight;
    auto pl = std::find(live.begin(), live.end(), l), pr = std::find(live.begin(), live.end(), r);
    MC_CHECK(l != r && pl != live.end() && pr != live.end(), "merge", "merge %d joins %d and %d, which are not both present", i, l, r);
    double h = between(d, t, k, l, r);
    mc::eq(N.leftDistanceRight, h, "height", fmt("height of merge %d of %d and %d", i, l, r), tol);
    for (int x : live)
      if (x != l && x != r) {
        MC_CHECK(between(d, t, k, l, x) >= h - tol, "closest", "merge %d joins %d and %d at %g but %d is closer to %d (%g)", i, l, r, h, x, l, between(d, t, k, l, x));
        MC_CHECK(between(d, t, k, r, x) >= h - tol, "closest", "merge %d joins %d and %d at %g but %d is closer to %d (%g)", i, l, r, h, x, r, between(d, t, k, r, x));
      }
    Node m;
    m.items = t[l].items;
    m.items.insert(m.items.end(), t[r].items.begin(), t[r].items.end());
    std::sort(m.items.begin(), m.items.end());
    m.l = l, m.r = r, m.h = h;
    MC_CHECK(h >= t[l].h - tol && h >= t[r].h - tol, "height", "merge %d is lower than a part of it", i);
    mc::eqi(N.nodesWithin, (int)m.items.size(), "nodes", "items of a merge");
    t.push_back(m);
    live.erase(std::remove_if(live.begin(), live.end(), [&](int x) { return x == l || x == r; }), live.end());
    live.push_back(i);
  }
  // the table for the dendrogram
  if (n > 1) {
    mc::Guard<Ti> mg(2 * (n - 1));
    mc::Guard<double> hg(n - 1);
    Matrix<Ti> merge(mg.p, n - 1, 2);
    Matrix<Tv> hs(hg.p, n - 1, 1);
    std::vector<Ti> order;
    c->MergeR(merge, hs, order);
    MC_CHECK(mg.intact() && hg.intact(), "memory", "the dendrogram writes before its memory");
    std::vector<Node> q;
    std::multiset<std::vector<int>> want, got;
    std::set<int> used;
    for (int i = 0; i < n - 1; i++) {
      MC_CHECK(i == 0 || hs.Data[i] >= hs.Data[i - 1], "dendrogram", "heights are not sorted at %d", i);
      Node m;
      for (int s = 0; s < 2; s++) {
        int v = merge.Get(i, s);
        MC_CHECK(v != 0 && v >= -n && v <= i, "dendrogram", "row %d refers to %d, which is not before it", i, v);
        MC_CHECK(used.insert(v).second, "dendrogram", "%d is merged twice", v);
        if (v < 0)
          m.items.push_back(-v - 1);
        else
          m.items.insert(m.items.end(), q[v - 1].items.begin(), q[v - 1].items.end());
      }
      std::sort(m.items.begin(), m.items.end());
      m.h = hs.Data[i];
      q.push_back(m);
      bool found = false;
      for (int j = n; j < 2 * n - 1; j++)
        found = found || (t[j].items == m.items && mc::close(t[j].h, m.h, tol));
      MC_CHECK(found, "dendrogram", "row %d is not a merge with its height", i);
      got.insert(m.items);
    }
    for (int j = n; j < 2 * n - 1; j++)
      want.insert(t[j].items);
    MC_CHECK(want == got, "dendrogram", "not the merges of the tree");
    mc::eqi((int)order.size(), n - 1, "dendrogram", "length of the order");
    for (int i = 0; i < n - 1; i++)
      mc::eq(t[n + order[i]].h, hs.Data[i], "dendrogram", "order of the heights", tol);
  }
  // cutting
  for (int kk = 1; groups && kk <= n; kk++) {
    std::vector<std::unique_ptr<std::vector<Ti>>> map;
    for (int i = 0; i < kk; i++)
      map.push_back(std::make_unique<std::vector<Ti>>());
    c->Group(map);
    mc::eqi((int)map.size(), kk, "cut", "number of groups");
    std::set<int> seen;
    for (auto &m : map) {
      MC_CHECK(m->size() > 0, "cut", "%d groups: an empty group", kk);
      std::vector<int> v(m->begin(), m->end());
      for (int x : v)
        MC_CHECK(x >= 0 && x < n && seen.insert(x).second, "cut", "%d groups: %d is repeated or no item", kk, x);
      std::sort(v.begin(), v.end());
      bool node = false;
      for (auto &x : t)
        node = node || x.items == v;
      MC_CHECK(node, "cut", "%d groups: a group is not a part of the tree", kk);
    }
    mc::eqi((int)seen.size(), n, "cut", "covered items");
    // the groups are those below the highest merges or those before the last
    // merges, see 'cutHeight'
    std::set<std::vector<int>> got;
    for (auto &m : map) {
      std::vector<int> v(m->begin(), m->end());
      std::sort(v.begin(), v.end());
      got.insert(v);
    }
    bool tie;
    auto last = cut(t, n, kk, false, tie), high = cut(t, n, kk, true, tie);
    if (cutHeight && !tie && got == last)
      MC_CHECK(got == high, "cut-height", "%d groups are not the groups below a height but before the last merges", kk);
    MC_CHECK(tie || got == last || got == high, "cut", "%d groups are neither the groups below a height nor before the last merges", kk);
  }
  return t;
}
static Ref sym(int n, const Vec &alpha, double scale = 1) {
  Ref d(n, n);
  for (int j = 0; j < n; j++)
    for (int i = j + 1; i < n; i++)
      d.at(i, j) = d.at(j, i) = mc::pick(alpha) * scale;
  return d;
}
static void any(int n, const Vec &alpha) {
  auto k = mc::pick(LINKS);
  cluster(sym(n, alpha, mc::flip() ? 1 : 0.1), k);
}
/// without ties: the merges are those of the greedy algorithm
static void greedy_same(const Ref &d, HClusterLinkage k) {
  auto t = cluster(d, k);
  int n = d.r;
  std::vector<Node> q(t.begin(), t.begin() + n);
  std::vector<int> live;
  for (int i = 0; i < n; i++)
    live.push_back(i);
  std::set<std::vector<int>> a, b;
  while (live.size() > 1) {
    double best = INFINITY, second = INFINITY;
    int bi = 0, bj = 0;
    for (size_t i = 0; i < live.size(); i++)
      for (size_t j = i + 1; j < live.size(); j++) {
        double x = between(d, q, k, live[i], live[j]);
        if (x < best)
          second = best, best = x, bi = live[i], bj = live[j];
        else
          second = std::min(second, x);
      }
    if (second - best < 1e-9)
      return; // a tie: more than one result is right
    Node m;
    m.items = q[bi].items;
    m.items.insert(m.items.end(), q[bj].items.begin(), q[bj].items.end());
    std::sort(m.items.begin(), m.items.end());
    m.l = bi, m.r = bj, m.h = best;
    a.insert(m.items);
    q.push_back(m);
    live.erase(std::remove_if(live.begin(), live.end(), [&](int x) { return x == bi || x == bj; }), live.end());
    live.push_back((int)q.size() - 1);
  }
  for (int i = n; i < 2 * n - 1; i++)
    b.insert(t[i].items);
  MC_CHECK(a == b, "greedy", "not the merges of the direct computation");
}
static void distinct(int n, int steps) { // all orders of distinct distances
  auto k = mc::pick(LINKS);
  int m = n * (n - 1) / 2;
  std::vector<int> left;
  for (int i = 0; i < m; i++)
    left.push_back(i);
  Ref d(n, n);
  for (int j = 0; j < n; j++)
    for (int i = j + 1; i < n; i++) {
      int x = mc::choose(std::min(steps, (int)left.size()));
      double v = 1 + left[x] + 0.013 * left[x] * left[x];
      left.erase(left.begin() + x);
      d.at(i, j) = d.at(j, i) = v;
    }
  greedy_same(d, k);
}
/// points of a line or plane: Ward is the increase of the sum of squares
static void points(int n, int span) {
  auto k = mc::pick(LINKS);
  bool plane = mc::flip();
  std::vector<std::pair<double, double>> p;
  for (int i = 0; i < n; i++)
    p.push_back({mc::choose(span), plane ? (i * 5) % 3 : 0});
  Ref d(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double x = p[i].first - p[j].first, y = p[i].second - p[j].second;
      d.at(i, j) = k == HClusterLinkage::kWard ? x * x + y * y : std::sqrt(x * x + y * y);
    }
  auto t = cluster(d, k);
  if (k == HClusterLinkage::kWard)
    for (int i = n; i < 2 * n - 1; i++) {
      auto mean = [&](const std::vector<int> &v) {
        std::pair<double, double> c{0, 0};
        for (int q : v)
          c.first += p[q].first / v.size(), c.second += p[q].second / v.size();
        return c;
      };
      auto &A = t[t[i].l].items, &B = t[t[i].r].items;
      auto a = mean(A), b = mean(B);
      double w = 2.0 * A.size() * B.size() / (A.size() + B.size());
      mc::eq(t[i].h, w * ((a.first - b.first) * (a.first - b.first) + (a.second - b.second) * (a.second - b.second)), "ward", "increase of the sum of squares", 1e-9);
    }
}
static void invalid() {
  int n = mc::range(2, 5), m = mc::range(2, 5);
  auto k = mc::pick(LINKS);
  int nan = mc::choose(m * (m - 1) / 2 + 1) - 1;
  mc::Guard<double> g(m * (m - 1) / 2);
  for (int i = 0; i < m * (m - 1) / 2; i++)
    g.p[i] = i == nan ? NAN : 1 + i;
  MatrixSym<false> D(g.p, m);
  auto c = HClusterBase::GetFromType(k, n);
  mc::describe(fmt("%s %d items, %d in the distances, missing at %d", ToString(k), n, m, nan));
  bool t = throws([&] { c->Calculate(D); });
  MC_CHECK(t == (nan >= 0 || n != m), "accepted", t ? "valid distances are rejected" : "invalid distances are accepted");
}

// -------------------------------------------------------------- distances
static double pearson(const Vec &x, const Vec &y) {
  double n = x.size(), mx = 0, my = 0, a = 0, b = 0, c = 0;
  for (size_t i = 0; i < x.size(); i++)
    mx += x[i] / n, my += y[i] / n;
  for (size_t i = 0; i < x.size(); i++)
    a += (x[i] - mx) * (x[i] - mx), b += (y[i] - my) * (y[i] - my), c += (x[i] - mx) * (y[i] - my);
  return a < 1e-12 || b < 1e-12 ? NAN : c / std::sqrt(a * b);
}
static Vec ranks(const Vec &x) { // position in descending order, the lowest of a tie
  Vec r;
  for (double a : x) {
    int q = 0;
    for (double b : x)
      q += b > a;
    r.push_back(q);
  }
  return r;
}
static const std::vector<DistanceMethod> DISTS = {DistanceMethod::kEuclidean, DistanceMethod::kManhattan, DistanceMethod::kMaximum, DistanceMethod::kCorrelation, DistanceMethod::kAbsCorrelation};
/// NaN: not defined
static double distance(const Ref &a, int i, int j, DistanceMethod m, bool spearman) {
  Vec x, y;
  for (int r = 0; r < a.r; r++)
    if (!std::isnan(a.at(r, i)) && !std::isnan(a.at(r, j)))
      x.push_back(a.at(r, i)), y.push_back(a.at(r, j));
  if (x.empty())
    return NAN;
  double s = 0, q = 0, mx = 0;
  for (size_t r = 0; r < x.size(); r++) {
    double d = std::fabs(x[r] - y[r]);
    s += d, q += d * d, mx = std::max(mx, d);
  }
  if (m == DistanceMethod::kEuclidean)
    return std::sqrt(q);
  if (m == DistanceMethod::kManhattan)
    return s;
  if (m == DistanceMethod::kMaximum)
    return mx;
  double c = spearman ? pearson(ranks(x), ranks(y)) : pearson(x, y);
  if (std::isnan(c))
    return NAN;
  return m == DistanceMethod::kCorrelation ? std::sqrt(std::max(0.0, (1 - c) / 2)) : std::sqrt(std::max(0.0, 1 - c * c));
}
static Ref data(int r, int c, const Vec &alpha) {
  Ref a(r, c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      a.at(i, j) = mc::pick(alpha);
  return a;
}
static void dist(int r, int c, const Vec &alpha) {
  auto m = mc::pick(DISTS);
  bool corr = m == DistanceMethod::kCorrelation || m == DistanceMethod::kAbsCorrelation;
  bool sp = corr && mc::flip();
  int more = mc::choose(2);
  Ref a = data(r, c, alpha);
  bool miss = false;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      miss = miss || std::isnan(a.at(i, j));
  bool check = miss || mc::flip();
  mc::describe(fmt("%s%s check=%d declared+%d ", ToString(m), sp ? " spearman" : "", check, more) + a.str());
  auto d = DistanceBase::GetFromType(check, m, sp ? CorrelationMethod::kSpearman : CorrelationMethod::kPearson, r + more, c + more);
  mc::Guard<double> st(d->StorageSize), wk(d->WorkSize);
  Mat<> A(a);
  mc::step();
  d->Calculate(A.m, st.p, wk.p);
  A.unchanged("distance");
  MC_CHECK(st.intact() && wk.intact(), "memory", "distance writes before its memory");
  for (int i = 0; i < c; i++)
    for (int j = 0; j < c; j++) {
      double w = i == j ? NAN : distance(a, i, j, m, sp);
      if (std::isnan(w))
        continue; // not defined
      mc::eq(d->Result.Get(i, j), w, "distance", fmt("distance of %d and %d", i, j), 1e-7);
    }
  if (!corr) { // no common observation: never a number below zero
    for (int i = 0; i < c; i++)
      for (int j = 0; j < i; j++)
        MC_CHECK(!(d->Result.Get(i, j) < 0), "distance", "the distance of %d and %d is %g", i, j, d->Result.Get(i, j));
  }
}

// --------------------------------------------------------------- grouping
static void group(int r, int c, const Vec &alpha, bool full) {
  auto k = full ? mc::pick(LINKS) : mc::pick(std::vector<HClusterLinkage>{HClusterLinkage::kSingle, HClusterLinkage::kAverageU});
  auto m = full ? mc::pick(DISTS) : mc::pick(std::vector<DistanceMethod>{DistanceMethod::kEuclidean, DistanceMethod::kMaximum, DistanceMethod::kCorrelation});
  double thr = mc::pick({0.0, 0.6, 1.5});
  int kk = mc::range(1, c);
  int more = mc::choose(2);
  Ref a = data(r, c, alpha);
  mc::describe(fmt("group %s %s threshold=%g groups=%d declared+%d ", ToString(k), ToString(m), thr, kk, more) + a.str());
  Ref d(c, c);
  bool nan = false;
  for (int i = 0; i < c; i++)
    for (int j = 0; j < c; j++)
      if (i != j) {
        d.at(i, j) = distance(a, i, j, m, false);
        if (std::isnan(d.at(i, j)))
          nan = true, d.at(i, j) = 0;
        else if (thr > 0 && std::fabs(d.at(i, j) - thr) < 1e-6)
          return;
      }
  auto g = GroupDataBase::GetFromType(k, m, CorrelationMethod::kPearson, r + more, c + more);
  mc::Guard<double> wk(g->WorkSize);
  Mat<> A(a);
  std::vector<std::vector<Ti>> before; // the groups without removal
  g->Calculate(A.m, wk.p, kk, 0);
  for (auto &v : g->Groups)
    before.push_back(*v);
  int runs = mc::range(1, 2); // a second calculation with the same object
  for (int q = 0; q < runs; q++) {
    mc::step();
    g->Calculate(A.m, wk.p, kk, thr);
    A.unchanged("grouping");
    MC_CHECK(wk.intact(), "memory", "grouping writes before its memory");
    mc::eqi((int)g->Groups.size(), kk, "group", "number of groups");
    std::set<int> seen;
    for (auto &v : g->Groups) {
      MC_CHECK(!v->empty(), "group", "an empty group");
      for (auto x : *v)
        MC_CHECK(x >= 0 && x < c && seen.insert(x).second && !g->Removed.count(x), "group", "%d is repeated, removed or no item", x);
    }
    for (auto x : g->Removed)
      MC_CHECK((int)x < c && seen.insert((int)x).second, "group", "removed %d is also kept or no item", (int)x);
    mc::eqi((int)seen.size(), c, "group", "kept and removed columns");
    if (nan)
      continue; // which distances are undefined is not laid down
    // of two close columns of a group the second one is removed
    std::set<int> close;
    for (auto &v : before)
      for (size_t x = 0; x < v.size(); x++)
        for (size_t y = x + 1; y < v.size(); y++)
          if (thr > 0 && d.at(v[x], v[y]) < thr)
            close.insert(v[y]);
    for (int x = 0; x < c; x++)
      MC_CHECK(close.count(x) == g->Removed.count(x), "threshold", "column %d is %sremoved", x, g->Removed.count(x) ? "" : "not ");
    for (size_t q = 0; q < before.size(); q++) {
      std::vector<Ti> w;
      for (auto x : before[q])
        if (!close.count(x))
          w.push_back(x);
      MC_CHECK(w == *g->Groups[q], "threshold", "kept columns of group %d", (int)q);
    }
    if (thr == 0) { // the groups are parts of a tree of these distances
      auto t = cluster(d, k, false);
    }
  }
}

int main(int argc, char **argv) {
  return mc::harness_main(argc, argv, {
    {"c20_any1", [] { any(1, {1}); }, "one item"},
    {"c20_any3", [] { any(3, {0, 1, 2, 3, 5}); }, "3 items, all distances over 5 values x 5 linkages"},
    {"c20_any4", [] { any(4, mc::qt<Vec>({0, 1, 2, 3}, {0, 1, 2, 3, 5})); }, "4 items, all distances over 4 (5) values x 5 linkages"},
    {"c20_any5", [] { any(5, mc::qt<Vec>({1, 2}, {1, 2, 3})); }, "5 items, all distances over 2 (3) values x 5 linkages"},
    {"c20_any6", [] { any(6, {1, 2}); }, "6 items, all distances over 2 values x 5 linkages", true},
    {"c20_distinct4", [] { distinct(4, 6); }, "4 items, all orders of 6 distinct distances"},
    {"c20_distinct5", [] { distinct(5, mc::qt(3, 4)); }, "5 items, orders of 10 distinct distances with displacement up to 3 (4)"},
    {"c20_distinct6", [] { distinct(6, 2); }, "6 items, orders of 15 distinct distances with displacement up to 2"},
    {"c20_points5", [] { points(5, mc::qt(6, 8)); }, "5 points on 6 (8) positions"},
    {"c20_points6", [] { points(6, mc::qt(4, 6)); }, "6 points on 4 (6) positions"},
    {"c20_points7", [] { points(7, 4); }, "7 points on 4 positions", true},
    {"c20_invalid", invalid, "all sizes 2..5 x a missing distance at each place"},
    {"c20_dist1", [] { dist(1, 3, {0, 1, 3, NAN}); }, "all 1x3 data over 3 values and missing x distances"},
    {"c20_dist2", [] { dist(2, 3, mc::qt<Vec>({0, 1, NAN}, {0, 1, 3, NAN})); }, "all 2x3 data over 2 (3) values and missing x distances"},
    {"c20_dist3", [] { dist(3, 2, {0, 1, 3, NAN}); }, "all 3x2 data over 3 values and missing x distances"},
    {"c20_dist4", [] { dist(4, 2, {0, 1, 0.1}); }, "all 4x2 data over 3 values x distances"},
    {"c20_cut_height", [] { struct On { On() { cutHeight = true; } ~On() { cutHeight = false; } } on; any(4, {1, 2, 3, 5}); }, "all 4x4 distances over 4 values: groups are those below a height"},
    {"c20_group3", [] { group(2, 3, {0, 1, NAN}, true); }, "all 2x3 data over 2 values and missing x linkages x distances x thresholds x groups"},
    {"c20_group4", [] { group(mc::qt(2, 3), 3, {0, 1, 3}, false); }, "all 2x3 (3x3) data over 3 values x options"},
    {"c20_group5", [] { group(1, 5, {0, 1, 2, 4}, false); }, "all 1x5 data over 4 values x options"},
  });
}
