// C12 (alignment, trimming, interpolation) and C13 (frequency conversion)
#include "array.h"
#include "freqlines.h"
#include "variable.h"
using namespace fl;
using mc::fmt;
using std::string;
using std::vector;
typedef Variable<double> Var;
static string show(const vector<double> &v) { return "[" + mc::join(v) + "]"; }
static void same(const vector<double> &a, const vector<double> &b, const char *key, const string &msg) {
  mc::G().checks++;
  bool ok = a.size() == b.size();
  for (size_t i = 0; ok && i < a.size(); i++)
    ok = mc::close(a[i], b[i], 1e-12);
  if (!ok)
    mc::fail(key, msg + ": got " + show(a) + ", want " + show(b));
}
static Line smallLine() {
  switch (mc::choose(14)) {
  case 0: return cross(5);
  case 1: return year(2000, 1, 1);
  case 2: return year(1999, 4, 1);
  case 3: return year(2000, 12, 1);
  case 4: return year(2000, 1, 3);
  case 5: return year(2000, 3, 2);
  case 6: return days(cal::days(2000, 2, 28), 1);
  case 7: return days(cal::days(2023, 12, 30), 3);
  case 8: return weeks(cal::days(2024, 2, 28), 1);
  case 9: return weeks(cal::days(2024, 2, 28), 2);
  case 10: return inweek(cal::days(2024, 2, 29), 1, 5);
  case 11: return daybased(inweek(cal::days(2024, 2, 29), 1, 5), 2);
  case 12: return daybased(days(cal::days(2024, 2, 29), 1), 24);
  default: return lists(&strItems(2));
  }
}
static vector<double> drawData(int n, int base, bool missing) {
  vector<double> d;
  for (int i = 0; i < n; i++)
    d.push_back(missing && mc::flip() ? NAN : base + i);
  return d;
}
static void range_ref(const vector<double> &d, int &s, int &e, bool &miss) {
  s = 0;
  e = (int)d.size() - 1;
  while (s < (int)d.size() && std::isnan(d[s]))
    s++;
  while (e >= 0 && std::isnan(d[e]))
    e--;
  miss = false;
  for (int i = s; i <= e; i++)
    miss = miss || std::isnan(d[i]);
}

static void sc_align() {
  auto l = smallLine();
  bool isList = l.fc == FrequencyClass::kListString;
  int nv = mc::range(1, mc::qt(3, 3));
  int maxlen = nv == 3 ? 2 : 3;
  vector<Var> vs(nv);
  vector<long> st(nv);
  vector<Var *> ps;
  string d = l.name;
  for (int k = 0; k < nv; k++) {
    st[k] = k == 0 ? (isList ? mc::choose(2) : 0) : isList ? mc::choose(3) : mc::range(-2, nv == 3 ? 2 : 4);
    int len = mc::range(k == 0 ? 1 : 0, maxlen);
    if (isList)
      len = std::min<int>(len, 5 - (int)st[k]);
    vs[k].Data = drawData(len, 100 * (k + 1), nv < 3 || mc::thorough());
    vs[k].Name = fmt("n%d", k);
    vs[k].StartFrequency = l.make(st[k]);
    ps.push_back(&vs[k]);
    d += fmt("; start %ld data ", st[k]) + show(vs[k].Data);
  }
  mc::describe(d);
  mc::step();
  mc::state(d);
  Variables<double> t(ps);
  long lo = 1e9, hi = -1e9;
  for (int k = 0; k < nv; k++) {
    lo = std::min(lo, st[k]);
    hi = std::max(hi, st[k] + (long)vs[k].Data.size());
  }
  mc::eqi(t.NumObs, hi - lo, "table-rows", "number of rows");
  mc::eqs(t.StartFrequency->ToString(), l.text(lo), "table-start", "start of the table");
  MC_CHECK(t.StartFrequency->IsEqualTo(*l.make(lo)), "table-start", "start of the table");
  vector<double> want;
  for (int k = 0; k < nv; k++)
    for (long i = lo; i < hi; i++) {
      long p = i - st[k];
      want.push_back(p >= 0 && p < (long)vs[k].Data.size() ? vs[k].Data[p] : NAN);
    }
  same(t.Data, want, "table-cells", "cells (column by column)");
  mc::eqi((long)t.Names.size(), nv, "table-names", "names");
  for (int k = 0; k < nv; k++) {
    mc::eqs(t.Names[k], fmt("n%d", k), "table-names", "name");
    vector<double> col(want.begin() + k * (hi - lo), want.begin() + (k + 1) * (hi - lo));
    int s, e;
    bool miss, m2;
    range_ref(col, s, e, miss);
    auto r = t.GetRange(k, m2);
    mc::step();
    if (s > e)
      MC_CHECK(std::get<0>(r) > std::get<1>(r), "table-range", "an empty column has the range %d-%d", std::get<0>(r), std::get<1>(r));
    else {
      mc::eqi(std::get<0>(r), s, "table-range", "first available row");
      mc::eqi(std::get<1>(r), e, "table-range", "last available row");
      mc::eqi(m2, miss, "table-range", "has missing data");
    }
    // the sources are unchanged
    mc::eqs(vs[k].StartFrequency->ToString(), l.text(st[k]), "table-source", "start of a source");
  }
}
static void sc_align_mixed() {
  Line ls[] = {cross(0), year(2000, 1, 1), year(2000, 4, 1), year(2000, 12, 1), days(0, 1), days(0, 2), weeks(0, 1), inweek(0, 1, 5), inweek(0, 1, 4), daybased(days(0, 1), 24), lists(&strItems(0))};
  int a = mc::choose(11), b = mc::choose(11);
  Var x, y;
  x.Data = {1, 2};
  y.Data = {3};
  x.StartFrequency = ls[a].make(0);
  y.StartFrequency = ls[b].make(0);
  mc::describe(ls[a].name + " with " + ls[b].name);
  mc::step();
  mc::state(a * 20 + b);
  bool thrown = false;
  try {
    Variables<double> t({&x, &y});
  } catch (std::exception &) {
    thrown = true;
  }
  mc::eqi(thrown, a != b, "mixed", "mixed frequencies rejected");
}

// every sequence of trim / interpolate operations
static void sc_trim() {
  auto l = mc::flip() ? year(2000, 4, 1) : inweek(cal::days(2024, 2, 29), 1, 5);
  int n = mc::range(1, mc::qt(7, 9));
  Var v;
  vector<double> d;
  for (int i = 0; i < n; i++)
    d.push_back(mc::flip() ? NAN : (i * i + 1) * (i % 2 ? -1.5 : 1));
  v.Data = d;
  v.Name = "T";
  v.StartFrequency = l.make(3);
  long start = 3;
  int depth = mc::range(1, 2);
  string desc = l.name + " data " + show(d);
  for (int k = 0; k < depth; k++) {
    int op = mc::choose(3);
    desc += op == 0 ? " trim" : op == 1 ? " interpolate" : " range";
    mc::describe(desc);
    mc::step();
    int s, e;
    bool miss;
    range_ref(d, s, e, miss);
    if (op == 0) {
      auto r = v.Trim();
      if (s > e)
        MC_CHECK(r.IsNotValid(), "trim", "range of missing data is valid");
      else {
        mc::eqi(r.StartIndex, s, "trim", "first");
        mc::eqi(r.EndIndex, e, "trim", "last");
        mc::eqi(r.Count(), e - s + 1, "trim", "count");
        d = vector<double>(d.begin() + s, d.begin() + e + 1);
        start += s;
      }
    } else if (op == 1) {
      Ti count = -1;
      auto r = v.Interpolate(count);
      int c = 0;
      if (s <= e) {
        mc::eqi(r.StartIndex, s, "interpolate", "first");
        mc::eqi(r.EndIndex, e, "interpolate", "last");
        auto o = d;
        for (int i = s; i <= e; i++)
          if (std::isnan(o[i])) {
            int a = i, b = i;
            while (std::isnan(o[a]))
              a--;
            while (std::isnan(o[b]))
              b++;
            d[i] = o[a] + (o[b] - o[a]) * (i - a) / (b - a);
            c++;
          }
      }
      mc::eqi(count, c, "interpolate", "number of filled observations");
    } else {
      bool m2 = false;
      auto r = v.GetRange(m2);
      if (s > e)
        MC_CHECK(r.IsNotValid(), "range", "range of missing data is valid");
      else {
        mc::eqi(r.StartIndex, s, "range", "first");
        mc::eqi(r.EndIndex, e, "range", "last");
        mc::eqi(m2, miss, "range", "has missing");
        auto r2 = Array<double>::GetRange(v.Data.data(), (Ti)v.Data.size());
        MC_CHECK(r2.StartIndex == s && r2.EndIndex == e, "range", "Array::GetRange");
      }
    }
    same(v.Data, d, "trim-data", "data");
    mc::eqs(v.StartFrequency->ToString(), l.text(start), "trim-start", "start");
    mc::state(l.name + show(d) + l.text(start));
  }
}

// ------------------------------------------------------------------- C13 ---
static vector<vector<double>> calls;
static std::function<double(const vector<double> &)> spy = [](const vector<double> &x) {
  calls.push_back(x);
  return 1000.0 + (double)calls.size() - 1;
};
// groups that the result was made of
static vector<vector<double>> groups(const Var &r) {
  vector<vector<double>> g;
  for (auto x : r.Data) {
    MC_CHECK(x >= 1000 && x - 1000 < (double)calls.size(), "aggregate", "a result is not a value of the aggregation");
    g.push_back(calls[(size_t)(x - 1000)]);
  }
  return g;
}
static void cmpGroups(const vector<vector<double>> &g, const vector<vector<double>> &w, const char *key) {
  mc::eqi((long)g.size(), (long)w.size(), key, "number of periods");
  for (size_t i = 0; i < g.size(); i++)
    same(g[i], w[i], key, fmt("observations of period %zu", i));
}
static Var daily(long z, int n) {
  Var v;
  for (int i = 0; i < n; i++)
    v.Data.push_back(i + 1);
  v.Name = "D";
  v.StartFrequency = FrequencyWeekBased::Daily(bdate(z));
  return v;
}
static void sc_partition() {
  int n = mc::range(0, mc::qt(16, 40)), k = mc::range(1, mc::qt(9, 20));
  bool fe = mc::flip();
  mc::describe(fmt("%d observations in groups of %d %s", n, k, fe ? "from the end" : "from the start"));
  mc::state(fmt("%d %d %d", n, k, fe));
  vector<double> d;
  for (int i = 0; i < n; i++)
    d.push_back(i);
  vector<vector<double>> g, w;
  g.push_back({-1}); // old content must go away
  Array<double>::PartitionEqual(d, g, k, fe);
  mc::step();
  int first = fe && n % k ? n % k : k;
  for (int i = 0; i < n;) {
    int len = std::min(i == 0 ? first : k, n - i);
    w.push_back(vector<double>(d.begin() + i, d.begin() + i + len));
    i += len;
  }
  cmpGroups(g, w, "partition");
  if (n == 0)
    return;
  for (long z : {cal::days(2024, 2, 27), cal::days(2023, 12, 30)}) {
    auto v = daily(z, n);
    Var r;
    calls.clear();
    v.ConvertTo_MultiDaily(r, k, &spy, fe);
    mc::step();
    for (auto &x : w)
      for (auto &y : x)
        y = y + (z == cal::days(2024, 2, 27));
    for (size_t i = 0, c = 0; i < w.size(); i++)
      for (auto &y : w[i])
        y = (double)++c;
    cmpGroups(groups(r), w, "multidaily");
    mc::eqs(r.StartFrequency->ToString(), cal::iso(z), "multidaily-start", "start");
    mc::eqs(r.StartFrequency->ToClassString(), k == 1 ? "d" : fmt("d%d", k), "multidaily-class", "class");
    mc::eqs(r.Name, "D", "name", "name");
  }
}
static void sc_weekly() {
  long z = mc::pick<long>({cal::days(2024, 2, 26), cal::days(2023, 12, 28), cal::days(1999, 6, 30)}) + mc::choose(7);
  int fd = mc::choose(7), n = mc::range(1, mc::qt(24, 60));
  mc::describe(fmt("%d days from %s, weeks start on %s", n, cal::iso(z).c_str(), dn(fd)));
  mc::state(fmt("%ld %d %d", z, fd, n));
  auto v = daily(z, n);
  Var r;
  calls.clear();
  mc::step();
  v.ConvertTo_Weekly(r, (DayOfWeek)fd, &spy);
  long w0 = z;
  while (cal::dow(w0) != fd)
    w0--;
  vector<vector<double>> w;
  for (long i = 0; i < n; i++) {
    size_t k = (size_t)((z + i - w0) / 7);
    if (w.size() <= k)
      w.resize(k + 1);
    w[k].push_back(v.Data[i]);
  }
  auto g = groups(r);
  // the days of the first week before the data may be given as missing
  if (!g.empty()) {
    size_t pad = 0;
    while (pad < g[0].size() && std::isnan(g[0][pad]))
      pad++;
    MC_CHECK(pad == 0 || pad == (size_t)(z - w0), "weekly", "%zu missing days are added to the first week", pad);
    g[0].erase(g[0].begin(), g[0].begin() + pad);
  }
  cmpGroups(g, w, "weekly");
  mc::eqs(r.StartFrequency->ToString(), cal::iso(w0), "weekly-start", "start");
  mc::eqs(r.StartFrequency->ToClassString(), "w", "weekly-class", "class");
}
static void conv(Var &v, Var &r, int x, bool month) {
  if (!month)
    v.ConvertTo_XxYear(r, x, &spy);
  else if (x == 24)
    v.ConvertTo_XxYear_month_based<24>(r, &spy);
  else if (x == 12)
    v.ConvertTo_XxYear_month_based<12>(r, &spy);
  else if (x == 6)
    v.ConvertTo_XxYear_month_based<6>(r, &spy);
  else if (x == 4)
    v.ConvertTo_XxYear_month_based<4>(r, &spy);
  else if (x == 3)
    v.ConvertTo_XxYear_month_based<3>(r, &spy);
  else if (x == 2)
    v.ConvertTo_XxYear_month_based<2>(r, &spy);
  else
    v.ConvertTo_XxYear_month_based<1>(r, &spy);
}
static void sc_yearly() {
  bool month = mc::flip();
  int x = month ? mc::pick<int>({24, 12, 6, 4, 3, 2, 1})
                : mc::pick<int>({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 24, 26, 52, 73, 100});
  long y = mc::pick<long>({1999, 2000, 2023, 1900});
  int m = mc::range(1, 12);
  int day = mc::pick<int>({1, 2, 15, 16, 28, 31});
  long z = std::min(cal::days(y, m, day), m == 12 ? cal::days(y, 12, 31) : cal::days(y, m + 1, 1) - 1);
  int n = mc::pick<int>({1, 2, 14, 17, 33, 95, 367, 800});
  mc::describe(fmt("%d days from %s, %d parts a year%s", n, cal::iso(z).c_str(), x, month ? " by month" : ""));
  mc::state(fmt("%d %d %ld %d", month, x, z, n));
  auto v = daily(z, n);
  Var r;
  calls.clear();
  mc::step();
  conv(v, r, x, month);
  auto period = [&](long q) -> long {
    auto c = cal::civil(q);
    long part;
    if (month)
      part = x == 24 ? 2 * (c.m - 1) + (c.d > 15) : (c.m - 1) / (12 / x);
    else {
      long doy = q - cal::days(c.y, 1, 1), len = cal::leap(c.y) ? 366 : 365;
      part = doy * x / len;
    }
    return c.y * x + part;
  };
  vector<vector<double>> w;
  long p0 = period(z);
  for (int i = 0; i < n; i++) {
    size_t k = (size_t)(period(z + i) - p0);
    if (w.size() <= k)
      w.resize(k + 1);
    w[k].push_back(v.Data[i]);
  }
  cmpGroups(groups(r), w, month ? "month-based" : "parts-of-year");
  auto l = year(p0 / x, x, 1);
  mc::eqs(r.StartFrequency->ToString(), l.text(p0 % x), "year-start", "start");
  mc::eqs(r.StartFrequency->ToClassString(), l.cls, "year-class", "class");
  mc::eqs(r.Name, "D", "name", "name");
}
static void sc_todaily_week() {
  long z = cal::days(2024, 2, 24) + mc::choose(7);
  int s = mc::choose(7), e = mc::choose(7), n = mc::range(1, mc::qt(16, 40));
  while (!inr(cal::dow(z), s, e))
    z++;
  mc::describe(fmt("%d observations of %s-%s from %s", n, dn(s), dn(e), cal::iso(z).c_str()));
  mc::state(fmt("%ld %d %d %d", z, s, e, n));
  Var v, r;
  r.Data = {7};
  v.Name = "W";
  for (int i = 0; i < n; i++)
    v.Data.push_back(i + 1);
  v.StartFrequency = FrequencyWeekBased::DailyInWeek(bdate(z), DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), true);
  mc::step();
  v.ConvertTo_Daily(r, nullptr);
  vector<double> w;
  for (int i = 0; i < n; i++) {
    size_t k = (size_t)(rangeday(z, s, e, i) - z);
    w.resize(k + 1, NAN);
    w[k] = i + 1;
  }
  mc::eqs(r.StartFrequency->ToString(), cal::iso(z), "daily-start", "start");
  mc::eqs(r.StartFrequency->ToClassString(), "d", "daily-class", "class");
  mc::eqs(v.StartFrequency->ToString(), cal::iso(z), "daily-source", "start of the source");
  // known: the first week is taken as complete whatever the first day is
  vector<double> late;
  int len = 0;
  while (len < 7 && inr((s + len) % 7, s, e))
    len++;
  for (int i = 0; i < n; i++) {
    if (i && i % len == 0)
      late.resize(late.size() + 7 - len, NAN);
    late.push_back(i + 1);
  }
  bool known = cal::dow(z) != s && r.Data.size() == late.size();
  for (size_t i = 0; known && i < late.size(); i++)
    known = mc::close(r.Data[i], late[i]);
  same(r.Data, w, known ? "dayinweek-start-within-week" : "daily-from-week", "daily data");
}
static void sc_todaily_list() {
  int n = mc::range(1, mc::qt(4, 5));
  vector<long> z;
  vector<boost::gregorian::date> items;
  std::set<long> used;
  for (int i = 0; i < n; i++) {
    long q = cal::days(2024, 2, 26) + mc::range(0, mc::qt(6, 7));
    while (used.count(q))
      q++;
    used.insert(q);
    z.push_back(q);
    items.push_back(bdate(q));
  }
  Var v, r;
  for (int i = 0; i < n; i++)
    v.Data.push_back(i + 1);
  v.Name = "L";
  v.StartFrequency = std::make_unique<FrequencyList<boost::gregorian::date>>(items[0], &items);
  string d;
  for (auto q : z)
    d += cal::iso(q) + " ";
  mc::describe(d);
  mc::state(d);
  mc::step();
  v.ConvertTo_Daily(r, nullptr);
  long lo = *used.begin(), hi = *used.rbegin();
  vector<double> w(hi - lo + 1, NAN);
  for (int i = 0; i < n; i++)
    w[z[i] - lo] = i + 1;
  same(r.Data, w, "daily-from-list", "daily data");
  mc::eqs(r.StartFrequency->ToString(), cal::iso(lo), "daily-start", "start");
}
static void sc_reject() { // not implemented directions are rejected
  Line ls[] = {cross(0), year(2000, 1, 1), year(2000, 12, 1), days(0, 1), days(0, 2), weeks(0, 1), weeks(0, 2), inweek(0, 1, 5), daybased(days(0, 1), 24), lists(&strItems(0))};
  int a = mc::choose(10), op = mc::choose(5);
  Var v, r;
  v.Data = {1, 2};
  v.StartFrequency = ls[a].make(0);
  mc::describe(ls[a].name + fmt(" conversion %d", op));
  mc::step();
  mc::state(a * 10 + op);
  bool ok = op == 0 ? a == 7 : a == 3;
  bool thrown = false;
  try {
    if (op == 0)
      v.ConvertTo_Daily(r, nullptr);
    else if (op == 1)
      v.ConvertTo_MultiDaily(r, 2, &spy, true);
    else if (op == 2)
      v.ConvertTo_Weekly(r, DayOfWeek::kMon, &spy);
    else if (op == 3)
      v.ConvertTo_XxYear(r, 5, &spy);
    else
      v.ConvertTo_XxYear_month_based<12>(r, &spy);
  } catch (std::exception &) {
    thrown = true;
  }
  mc::eqi(thrown, !ok, "reject", "conversion rejected");
}

int main(int c, char **v) {
  return mc::harness_main(c, v, {
    {"c12_align", sc_align, "14 time lines; 1-3 variables, start offsets -2..4, lengths 0..3, all missing patterns"},
    {"c12_mixed", sc_align_mixed, "all pairs of 11 classes"},
    {"c12_trim", sc_trim, "all missing patterns up to length 7 (9), all sequences of <= 2 operations"},
    {"c13_partition", sc_partition, "lengths 0..16 (40), group sizes 1..9 (20), both directions"},
    {"c13_weekly", sc_weekly, "21 start days, 7 first days, lengths 1..24 (60)"},
    {"c13_yearly", sc_yearly, "7 month-based and 18 equal partitions, 288 start days, 8 lengths up to 800"},
    {"c13_daily_week", sc_todaily_week, "49 ranges, 7 start days, lengths 1..16 (40)"},
    {"c13_daily_list", sc_todaily_list, "all lists of <= 4 (5) dates in a week"},
    {"c13_reject", sc_reject, "10 classes x 5 conversions"},
  });
}
