// C16 (sample selection) and C19 (training and test samples)
#include "data_split.h"
#include "matrix_utils.h"
#include "mc.h"
using namespace ldt;
using mc::fmt;
using std::string;
using std::vector;

// ------------------------------------------------------------------- C16 ---
// every cell has its own value, so a moved cell is visible
static vector<double> grid(int r, int c, int mask) {
  vector<double> d(r * c);
  for (int k = 0; k < r * c; k++)
    d[k] = mask >> k & 1 ? NAN : 10.0 * (k % r + 1) + k / r + 1;
  return d;
}
static string cells(const Matrix<Tv> &m) {
  string o = fmt("%dx%d:", m.RowsCount, m.ColsCount);
  for (int i = 0; i < m.RowsCount; i++)
    for (int j = 0; j < m.ColsCount; j++)
      o += fmt(" %g", m.Data[i + m.RowsCount * j]);
  return o;
}
static string cells(const vector<vector<double>> &rows, int cols) {
  string o = fmt("%dx%d:", (int)rows.size(), cols);
  for (auto &r : rows)
    for (auto x : r)
      o += fmt(" %g", x);
  return o;
}
/// an ordered selection of distinct columns, at least one
static vector<Ti> selection(int c) {
  vector<Ti> left(c), r;
  for (int i = 0; i < c; i++)
    left[i] = i;
  int n = mc::range(1, c);
  for (int i = 0; i < n; i++) {
    int k = mc::choose((int)left.size());
    r.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  return r;
}
static string want(const vector<double> &d, int r, int c, const vector<Ti> *sel, bool nan) {
  vector<Ti> s;
  if (sel)
    s = *sel;
  else
    for (int j = 0; j < c; j++)
      s.push_back(j);
  vector<vector<double>> rows;
  for (int i = 0; i < r; i++) {
    vector<double> row;
    bool miss = false;
    for (auto j : s) {
      row.push_back(d[i + r * j]);
      miss |= std::isnan(row.back());
    }
    if (!nan || !miss)
      rows.push_back(row);
  }
  return cells(rows, (int)s.size());
}
static void c16_dataset() {
  static const int shapes[][2] = {{1, 1}, {1, 3}, {2, 2}, {3, 1}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {4, 3}};
  auto *sh = shapes[mc::choose(mc::qt(8, 9))];
  int r = sh[0], c = sh[1];
  int mask = mc::choose(1 << (r * c));
  bool nan = mc::flip(), select = mc::flip();
  auto d = grid(r, c, mask);
  // the object may be declared for more than it is used for, and used twice
  int extra = mc::choose(2);
  Dataset<Tv> ds(r + extra, c + extra, nan, select);
  mc::Guard<double> st(ds.StorageSize);
  Matrix<Tv> m(d.data(), r, c);
  vector<Ti> s1, s2;
  if (select) {
    s1 = selection(c);
    s2 = c <= 2 || mc::thorough() ? selection(c) : vector<Ti>{c - 1};
  }
  mc::describe(fmt("%dx%d missing=%x nan=%d select=[%s] then [%s]", r, c, mask, (int)nan, mc::join(s1).c_str(),
                   mc::join(s2).c_str()));
  mc::state(mc::hash_str(mc::G().desc));
  mc::step(2);
  ds.Calculate(m, select ? &s1 : nullptr, st.p);
  mc::eqs(cells(ds.Result), want(d, r, c, select ? &s1 : nullptr, nan), "sample", "selected sample");
  ds.Calculate(m, select ? &s2 : nullptr, st.p);
  mc::eqs(cells(ds.Result), want(d, r, c, select ? &s2 : nullptr, nan), "sample-again", "second selection");
  // a smaller table after a larger one
  if (r > 1) {
    auto d2 = grid(r - 1, c, mask & 5);
    Matrix<Tv> m2(d2.data(), r - 1, c);
    ds.Calculate(m2, select ? &s1 : nullptr, st.p);
    mc::eqs(cells(ds.Result), want(d2, r - 1, c, select ? &s1 : nullptr, nan), "sample-reuse", "smaller data");
  }
  auto d0 = grid(r, c, mask);
  for (int k = 0; k < r * c; k++)
    MC_CHECK(mc::close(d[k], d0[k]), "source", "the source is changed");
  MC_CHECK(st.intact(), "memory", "memory before the storage is changed");
}

template <bool byRow> static void c16_ts() {
  int T = mc::range(1, mc::qt(4, 5)), V = mc::range(1, T <= 4 ? 3 : 2);
  if (T * V > mc::qt(9, 12))
    V = 2;
  int mask = mc::choose(1 << (T * V)); // bit v*T+t
  auto val = [](int v, int t) { return 10.0 * (v + 1) + t; };
  vector<double> d(T * V);
  for (int v = 0; v < V; v++)
    for (int t = 0; t < T; t++)
      d[byRow ? v + V * t : t + T * v] = mask >> (v * T + t) & 1 ? NAN : val(v, t);
  bool nan = mc::flip(), select = mc::flip();
  vector<Ti> sel;
  if (select)
    sel = selection(V);
  else
    for (int v = 0; v < V; v++)
      sel.push_back(v);
  mc::describe(fmt("%s %d series of %d missing=%x nan=%d select=%d [%s]", byRow ? "rows" : "cols", V, T, mask, (int)nan,
                   (int)select, mc::join(sel).c_str()));
  mc::state(mc::hash_str(mc::G().desc));
  DatasetTs<byRow, Tv> ds(byRow ? V : T, byRow ? T : V, nan, select);
  mc::Guard<double> st(ds.StorageSize);
  Matrix<Tv> m(d.data(), byRow ? V : T, byRow ? T : V);
  vector<int> first(V, -1), last(V, -1), gap(V, 0);
  bool empty = false, anygap = false;
  for (int v = 0; v < V; v++) {
    for (int t = 0; t < T; t++)
      if (!(mask >> (v * T + t) & 1)) {
        if (first[v] < 0)
          first[v] = t;
        last[v] = t;
      }
    for (int t = first[v]; first[v] >= 0 && t <= last[v]; t++)
      gap[v] |= mask >> (v * T + t) & 1;
    empty |= first[v] < 0;
    anygap |= gap[v] > 0;
  }
  bool thrown = false;
  // other data first, in which everything is missing in the middle
  vector<double> other(T * V, 1.0);
  if (T >= 3)
    for (int v = 0; v < V; v++)
      other[byRow ? v + V * 1 : 1 + T * v] = NAN;
  Matrix<Tv> mo(other.data(), byRow ? V : T, byRow ? T : V);
  mc::step(3);
  ds.Data(mo);
  try {
    ds.Data(m);
  } catch (std::exception &) {
    thrown = true;
  }
  if (nan) {
    MC_CHECK(thrown == empty, "ts-empty", "a series without data is %s", thrown ? "reported without reason" : "accepted");
    if (thrown)
      return;
    MC_CHECK(ds.HasMissingData == anygap, "ts-missing", "gap reported: %d", (int)ds.HasMissingData);
    std::set<int> rep, ref;
    for (auto &t : ds.WithMissingIndexes)
      rep.insert(std::get<0>(t));
    for (int v = 0; v < V; v++)
      if (gap[v])
        ref.insert(v);
    MC_CHECK(rep == ref && ds.WithMissingIndexes.size() == ref.size(), "ts-missing-list", "series with gaps");
    MC_CHECK((int)ds.Ranges.size() == V, "ts-ranges", "%d ranges", (int)ds.Ranges.size());
    for (int v = 0; v < V; v++)
      MC_CHECK(ds.Ranges[v].StartIndex == first[v] && ds.Ranges[v].EndIndex == last[v], "ts-range", "series %d: %d..%d", v,
               ds.Ranges[v].StartIndex, ds.Ranges[v].EndIndex);
  } else {
    MC_CHECK(!thrown, "ts-thrown", "error without missing-data check");
  }
  int a = 0, b = T - 1;
  if (nan)
    for (auto v : sel)
      a = std::max(a, first[v]), b = std::min(b, last[v]);
  thrown = false;
  try {
    ds.Update(select ? &sel : nullptr, nullptr);
  } catch (std::exception &) {
    thrown = true;
  }
  if (a > b) { // nothing in common: an error, or an empty range
    if (!thrown) {
      MC_CHECK(ds.Start > ds.End, "ts-common", "series without common range give %d..%d", ds.Start, ds.End);
      try {
        ds.Update(select ? &sel : nullptr, st.p);
      } catch (std::exception &) {
      }
      MC_CHECK(ds.Start > ds.End, "ts-common", "series without common range give %d..%d", ds.Start, ds.End);
    }
    MC_CHECK(st.intact(), "memory", "memory before the storage is changed");
    return;
  }
  MC_CHECK(!thrown, "ts-update", "error for a valid range");
  auto verify = [&](const vector<Ti> &s, int x, int y, const char *key) {
    if (select || nan)
      MC_CHECK(ds.Start == x && ds.End == y, key, "range %d..%d, want %d..%d", ds.Start, ds.End, x, y);
    int R = byRow ? (int)s.size() : y - x + 1, C = byRow ? y - x + 1 : (int)s.size();
    vector<vector<double>> rows(R, vector<double>(C));
    for (size_t i = 0; i < s.size(); i++)
      for (int t = x; t <= y; t++)
        (byRow ? rows[i][t - x] : rows[t - x][i]) = mask >> (s[i] * T + t) & 1 ? NAN : val(s[i], t);
    mc::eqs(cells(ds.Result), cells(rows, C), key, "selected sample");
  };
  ds.Update(select ? &sel : nullptr, st.p);
  verify(sel, a, b, "ts-sample");
  if (select) { // a single series afterwards, then the first selection again
    for (int v = 0; v < V; v++) {
      vector<Ti> one{v};
      ds.Update(&one, st.p);
      verify(one, nan ? first[v] : 0, nan ? last[v] : T - 1, "ts-sample-again");
    }
    ds.Update(&sel, st.p);
    verify(sel, a, b, "ts-sample-again");
  }
  MC_CHECK(st.intact(), "memory", "memory before the storage is changed");
}

// ------------------------------------------------------------------- C19 ---
static uint32_t untemper(uint32_t y) {
  y ^= y >> 18;
  y ^= (y << 15) & 0xefc60000u;
  uint32_t t = y;
  for (int i = 0; i < 5; i++)
    t = y ^ ((t << 7) & 0x9d2c5680u);
  y = t;
  t = y;
  for (int i = 0; i < 3; i++)
    t = y ^ (t >> 11);
  return t;
}
/// a generator whose next numbers are the given ones
static std::mt19937 generator(const vector<uint32_t> &next) {
  std::ostringstream o;
  for (int i = 0; i < 624; i++)
    o << untemper(i < (int)next.size() ? next[i] : 0x12345678u + 0x01010101u * i) << ' ';
  o << 0;
  std::mt19937 g;
  std::istringstream in(o.str());
  in >> g;
  auto h = g;
  for (auto x : next)
    if (h() != x) {
      fprintf(stderr, "harness: generator state\n");
      _exit(77);
    }
  return g;
}
/// d draws, each over all of `levels` equal parts of the range of the generator
static vector<uint32_t> draws(int d, int lv) {
  vector<uint32_t> r;
  for (int i = 0; i < d; i++)
    r.push_back((uint32_t)(((uint64_t)mc::choose(lv) << 32) / lv + (1u << 21)));
  return r;
}
struct Halves {
  vector<int> a, b; // row numbers in both samples, in order
  bool operator==(const Halves &o) const { return a == o.a && b == o.b; }
};
/// rows of the samples, each checked to be a whole row of the data
static Halves read(const Matrix<Tv> &s0, const Matrix<Tv> &s1, const vector<double> &d, int r, int c) {
  Halves h;
  for (int q = 0; q < 2; q++) {
    auto &s = q ? s1 : s0;
    MC_CHECK(s.ColsCount == c, "split-cols", "%d columns", s.ColsCount);
    for (int i = 0; i < s.RowsCount; i++) {
      int id = (int)std::llround(s.Data[i + s.RowsCount * (c - 1)]);
      MC_CHECK(id >= 0 && id < r, "split-row", "unknown row in a sample");
      for (int j = 0; j < c; j++)
        MC_CHECK(s.Data[i + s.RowsCount * j] == d[id + r * j], "split-row", "row %d is not kept together", id);
      (q ? h.b : h.a).push_back(id);
    }
  }
  vector<int> all(h.a);
  all.insert(all.end(), h.b.begin(), h.b.end());
  std::sort(all.begin(), all.end());
  for (int i = 0; i < r; i++)
    MC_CHECK((int)all.size() == r && all[i] == i, "split-partition", "rows are lost or repeated: train [%s] test [%s]",
             mc::join(h.a).c_str(), mc::join(h.b).c_str());
  return h;
}
static void c19_split() {
  int r = mc::range(1, mc::qt(6, 7)), c = mc::range(1, 2);
  double ratio = 0;
  int fix = 0;
  int q = mc::choose(8 + r + 2);
  static const double ratios[] = {0.0, 0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 1.0};
  if (q < 8)
    ratio = ratios[q];
  else {
    fix = q - 7;
    ratio = 0.5;
  }
  vector<double> d(r * c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++)
      d[i + r * j] = j == c - 1 ? i : 100 + i * i;
  int extra = mc::choose(2);
  DataSplit sp(r + extra, c + extra);
  mc::Guard<double> st(sp.StorageSize);
  mc::Guard<Ti> wk(sp.WorkSizeI);
  Matrix<Tv> m(d.data(), r, c);
  int n0 = fix ? fix : (int)std::round(r * ratio);
  bool thrown = false;
  mc::describe(fmt("%d rows, ratio %g, fixed %d", r, ratio, fix));
  mc::step();
  try {
    sp.Calculate(m, st.p, ratio, fix);
  } catch (std::exception &) {
    thrown = true;
  }
  MC_CHECK(thrown == (n0 <= 0 || n0 >= r), "split-size", "training size %d of %d is %s", n0, r,
           thrown ? "rejected" : "accepted");
  if (thrown)
    return;
  auto w = draws(r / 2, r <= 5 ? 20 : mc::qt(12, 20));
  mc::describe(fmt("%d rows, ratio %g, fixed %d, draws [%s]", r, ratio, fix, mc::join(w).c_str()));
  auto g = generator(w);
  mc::step();
  sp.Shuffle(m, wk.p, g);
  auto h = read(sp.Sample0, sp.Sample1, d, r, c);
  mc::eqi((long)h.a.size(), n0, "split-train", "training size");
  mc::state(mc::join(h.a) + "|" + mc::join(h.b));
  // the same state of the generator gives the same split, with an object and
  // memory that were used before
  auto g2 = generator(w);
  sp.Shuffle(m, wk.p, g2);
  MC_CHECK(read(sp.Sample0, sp.Sample1, d, r, c) == h, "split-seed", "second split with the same seed differs");
  DataSplit s2(r, c);
  mc::Guard<double> st2(s2.StorageSize, 0);
  mc::Guard<Ti> wk2(s2.WorkSizeI, 0);
  s2.Calculate(m, st2.p, ratio, fix);
  auto g3 = generator(w);
  s2.Shuffle(m, wk2.p, g3);
  MC_CHECK(read(s2.Sample0, s2.Sample1, d, r, c) == h, "split-seed", "fresh object with the same seed differs");
  MC_CHECK(st.intact() && wk.intact() && st2.intact() && wk2.intact(), "memory", "memory before a buffer is changed");
}
static void c19_discrete() {
  int K = mc::range(2, 3), r = mc::range(1, K == 2 ? mc::qt(6, 7) : mc::qt(5, 6));
  double ratio = 0.5;
  int fix = 0;
  int q = mc::choose(7 + r + 1);
  static const double ratios[] = {0.1, 0.25, 0.5, 0.6, 0.75, 0.9, 1.0};
  if (q < 7)
    ratio = ratios[q];
  else
    fix = q - 6;
  int c = 2;
  vector<double> d(r * c);
  vector<int> cnt(K, 0);
  string ys;
  for (int i = 0; i < r; i++) {
    int y = mc::choose(K);
    cnt[y]++;
    ys += fmt("%d", y);
    d[i] = y;
    d[i + r] = i;
  }
  mc::describe(fmt("classes %s, ratio %g, fixed %d", ys.c_str(), ratio, fix));
  DataSplitDiscrete sp(r, c, K);
  mc::Guard<double> st(sp.StorageSize);
  mc::Guard<Ti> wk(sp.WorkSizeI);
  Matrix<Tv> m(d.data(), r, c);
  bool thrown = false;
  mc::step();
  try {
    sp.Calculate(m, st.p, ratio, fix);
  } catch (std::exception &) {
    thrown = true;
  }
  bool empty = std::count(cnt.begin(), cnt.end(), 0) > 0;
  int n0 = fix ? fix : (int)std::round(r * ratio);
  if (empty || n0 > r) {
    if (empty)
      MC_CHECK(thrown, "discrete-empty", "a class without observations is accepted");
    return;
  }
  // how many of each class, smallest classes first, the rest in the largest
  double share = (double)n0 / r, useshare = fix ? share : ratio;
  vector<int> order(K), tr(K);
  for (int k = 0; k < K; k++)
    order[k] = k;
  std::stable_sort(order.begin(), order.end(), [&](int x, int y) { return cnt[x] < cnt[y]; });
  int sum = 0;
  for (int k = 0; k + 1 < K; k++) {
    int v = order[k];
    tr[v] = std::max(1, std::min(cnt[v] - 1, (int)std::round(useshare * cnt[v])));
    sum += tr[v];
  }
  int big = order[K - 1];
  tr[big] = n0 - sum;
  bool possible = tr[big] >= 1 && tr[big] <= cnt[big];
  int dr = 0;
  for (auto x : cnt)
    dr += x / 2;
  auto w = possible ? draws(dr, dr <= 2 ? 20 : 8) : vector<uint32_t>{0};
  mc::describe(fmt("classes %s, ratio %g, fixed %d, draws [%s]", ys.c_str(), ratio, fix, mc::join(w).c_str()));
  auto g = generator(w);
  if (!thrown) {
    mc::step();
    try {
      sp.Shuffle(m, wk.p, g);
    } catch (std::exception &) {
      thrown = true;
    }
  }
  MC_CHECK(st.intact() && wk.intact(), "memory", "memory before a buffer is changed");
  MC_CHECK(thrown == !possible, "discrete-size", "training size %d of classes [%s] is %s", n0, mc::join(cnt).c_str(),
           thrown ? "rejected" : "accepted");
  if (thrown)
    return;
  auto h = read(sp.Sample0, sp.Sample1, d, r, c);
  mc::eqi((long)h.a.size(), n0, "discrete-train", "training size");
  vector<int> got(K, 0);
  for (auto i : h.a)
    got[(int)d[i]]++;
  int off = 0;
  for (int k = 0; k < K; k++) {
    MC_CHECK(got[k] >= 1, "discrete-class", "class %d has no training observation", k);
    if (std::fabs(got[k] - useshare * cnt[k]) > 1.0 + 1e-9)
      off++;
  }
  MC_CHECK(off <= 1, "discrete-share", "classes [%s] of [%s] in a training share of %g", mc::join(got).c_str(),
           mc::join(cnt).c_str(), useshare);
  mc::state(ys + mc::join(h.a) + "|" + mc::join(h.b));
  auto g2 = generator(w);
  sp.Shuffle(m, wk.p, g2);
  MC_CHECK(read(sp.Sample0, sp.Sample1, d, r, c) == h, "discrete-seed", "second split with the same seed differs");
  DataSplitDiscrete s2(r + 1, c + 1, K);
  mc::Guard<double> st2(s2.StorageSize, 0);
  mc::Guard<Ti> wk2(s2.WorkSizeI, 0);
  {
    vector<double> o(2 * (K + 1)); // other data before
    for (int i = 0; i <= K; i++)
      o[i] = i % K, o[i + K + 1] = i;
    Matrix<Tv> mo(o.data(), K + 1, 2);
    if (K + 1 <= r + 1)
      s2.Calculate(mo, st2.p, 0.5, 0);
  }
  s2.Calculate(m, st2.p, ratio, fix);
  auto g3 = generator(w);
  s2.Shuffle(m, wk2.p, g3);
  MC_CHECK(read(s2.Sample0, s2.Sample1, d, r, c) == h, "discrete-seed", "reused object with the same seed differs");
  MC_CHECK(st2.intact() && wk2.intact(), "memory", "memory before a buffer is changed");
}

int main(int argc, char **argv) {
  vector<mc::Scenario> s;
  s.push_back({"c16_dataset", c16_dataset,
               "all missing patterns of 8 (9) shapes up to 4x2 (4x3) x check/select flags x ordered selections, reuse"});
  s.push_back({"c16_ts_rows", c16_ts<true>, "all missing patterns of 1..3 series of length 1..4 (5) x flags x selections"});
  s.push_back({"c16_ts_cols", c16_ts<false>, "as c16_ts_rows with series in columns"});
  s.push_back({"c19_split", c19_split, "1..6 (7) rows, 8 ratios, all fixed sizes, all shuffles"});
  s.push_back({"c19_discrete", c19_discrete, "all class sequences of 1..6 (7) rows, 7 ratios, all fixed sizes, all shuffles"});
  return mc::harness_main(argc, argv, s);
}
