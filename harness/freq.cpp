// C10 (time-line arithmetic) and C11 (text round trips)
#include "freqlines.h"
#include "variable.h"
using namespace fl;
using mc::fmt;
using std::string;

template <class F> bool throws(F f) {
  try {
    f();
  } catch (std::exception &) {
    return true;
  }
  return false;
}

// steps and start indexes that matter for a line: around 0 and around multiples
// of the partition
static std::vector<long> window(const Line &l, int depth) {
  std::set<long> s;
  long P = 1;
  auto f = l.make(0);
  if (auto p = dynamic_cast<FrequencyYearBased *>(f.get()))
    P = p->mPartitionCount;
  if (auto p = dynamic_cast<FrequencyDayBased *>(f.get()))
    P = p->mPartitionCount;
  if (P <= 30) {
    for (long i = -depth; i <= depth; i++)
      s.insert(i);
    for (long k = -3; k <= 3; k++)
      for (long d = -1; d <= 1; d++)
        s.insert(k * P + d);
  } else {
    for (long k : {-7, -2, -1, 0, 1, 2, 9})
      for (long d = -2; d <= 2; d++)
        s.insert(k * P + d);
    s.insert(P / 2);
  }
  std::vector<long> v;
  for (auto i : s)
    if (i >= l.lo && i <= l.hi)
      v.push_back(i);
  return v;
}

static void sc_arith() {
  auto l = drawLine();
  auto w = window(l, mc::qt(9, 16));
  long i = mc::pick(w);
  mc::describe(l.name + fmt(", index %ld (%s)", i, l.text(i).c_str()));
  auto p = l.make(i);
  mc::state(fields(*p));
  for (long n : w) {
    long t = i + n;
    if (t < l.lo || t > l.hi)
      continue;
    auto q = l.make(i);
    q->Next((Ti)n);
    mc::step();
    auto want = l.make(t);
    mc::eqs(fields(*q), fields(*want), "next", fmt("Next(%ld)", n));
    mc::eqi(q->Minus(*p), n, "minus", fmt("difference to the point %ld steps away", n));
    mc::eqi(p->Minus(*q), -n, "minus", fmt("difference from the point %ld steps away", n));
    auto sg = [](long x) { return x > 0 ? 1 : x < 0 ? -1 : 0; };
    mc::eqi(sg(q->CompareTo(*p)), sg(n), "compare", fmt("comparison with the point %ld steps away", n));
    mc::eqi(sg(p->CompareTo(*q)), -sg(n), "compare", fmt("comparison (reversed) with the point %ld steps away", n));
    MC_CHECK(q->IsEqualTo(*p) == (n == 0) && q->IsNewerThan(*p) == (n > 0) &&
                 q->IsOlderThan(*p) == (n < 0) &&
                 q->IsEqualOrNewerThan(*p) == (n >= 0) &&
                 q->IsEqualOrOlderThan(*p) == (n <= 0),
             "compare", "relational predicates disagree at distance %ld", n);
    // second move
    for (long m : w) {
      long u = t + m;
      if (u < l.lo || u > l.hi)
        continue;
      auto c = q->Clone();
      c->Next((Ti)m);
      mc::step();
      auto wu = l.make(u);
      if (fields(*c) != fields(*wu))
        mc::fail("next-next", fmt("Next(%ld) then Next(%ld): got %s, want %s", n, m,
                              fields(*c).c_str(), fields(*wu).c_str()));
      mc::eqi(c->Minus(*q), m, "minus", fmt("difference after %ld+%ld", n, m));
    }
    mc::eqs(fields(*q), fields(*want), "clone", "moving a copy changed the original");
  }
}

static void sc_dow() {
  int s = mc::choose(7), e = mc::choose(7);
  mc::describe(fmt("range %s-%s", dn(s), dn(e)));
  mc::state(s * 7 + e);
  DayOfWeekRange r((DayOfWeek)s, (DayOfWeek)e);
  int len = (e - s + 7) % 7 + 1;
  mc::eqi(r.GetLength(), len, "dow-length", "GetLength");
  mc::eqi(DayOfWeekRange::Distance((DayOfWeek)s, (DayOfWeek)e, true), (e - s + 7) % 7,
          "dow-distance", "forward distance");
  mc::eqi(DayOfWeekRange::Distance((DayOfWeek)s, (DayOfWeek)e, false), (s - e + 7) % 7,
          "dow-distance-back", "backward distance");
  mc::eqs(r.ToString(), string(dn(s)) + "-" + dn(e), "dow-text", "ToString");
  auto b = DayOfWeekRange::Parse(r.ToString());
  MC_CHECK(b.mStart == r.mStart && b.mEnd == r.mEnd, "dow-text", "range round trip");
  mc::eqi((int)DayOfWeekRange::NextDayOfWeek((DayOfWeek)s), (s + 1) % 7, "dow-next", "next");
  mc::eqi((int)DayOfWeekRange::PreviousDayOfWeek((DayOfWeek)s), (s + 6) % 7, "dow-next", "previous");
  MC_CHECK(FromString_DayOfWeek(ToString((DayOfWeek)s)) == (DayOfWeek)s, "dow-text", "day name round trip");
  for (int d = 0; d < 7; d++) {
    mc::step();
    bool in = inr(d, s, e);
    mc::eqi(r.IsInRange((DayOfWeek)d), in, "dow-in", fmt("IsInRange(%s)", dn(d)));
    for (bool fw : {true, false}) {
      Ti st = 99;
      bool out = r.IsOutsideRange((DayOfWeek)d, fw, st);
      mc::eqi(out, !in, "dow-out", fmt("IsOutsideRange(%s)", dn(d)));
      if (!in) {
        int k = 0;
        while (!inr(((d + k) % 7 + 7) % 7, s, e))
          k += fw ? 1 : -1;
        mc::eqi(st, k, "dow-out", fmt("steps from %s into the range", dn(d)));
      }
    }
    // snapping of a day that is outside
    long z = cal::days(2024, 2, 25) + d; // a Sunday
    for (bool fw : {true, false}) {
      auto f = FrequencyWeekBased::DailyInWeek(bdate(z), r, fw);
      long want = z;
      while (!inr(cal::dow(want), s, e))
        want += fw ? 1 : -1;
      mc::eqs(f->ToString(), cal::iso(want), "snap",
              fmt("first day for %s %s", dn(d), fw ? "forward" : "backward"));
    }
  }
}

static void sc_mixed() { // different classes must not be compared
  auto mk = [&](int k) -> Line {
    long z = cal::days(2020, 1, 1);
    switch (k) {
    case 0: return cross(1);
    case 1: return year(2000, 1, 1);
    case 2: return year(2000, 4, 1);
    case 3: return year(2000, 12, 1);
    case 4: return year(2000, 3, 1);
    case 5: return year(2000, 5, 1);
    case 6: return year(2000, 1, 2);
    case 7: return year(2000, 1, 3);
    case 8: return year(2000, 3, 2);
    case 9: return year(2000, 3, 4);
    case 10: return weeks(z, 1);
    case 11: return weeks(z, 2);
    case 12: return weeks(z, 3);
    case 13: return days(z, 1);
    case 14: return days(z, 2);
    case 15: return days(z, 3);
    case 16: return inweek(z, 1, 5);
    case 17: return inweek(z, 1, 4);
    case 18: return daybased(days(z, 1), 24);
    case 19: return daybased(inweek(z, 1, 5), 24);
    case 20: return daybased(days(z, 1), 1440);
    case 21: return daybased(days(z, 1), 86400);
    case 22: return daybased(days(z, 1), 5);
    case 23: return daybased(days(z, 1), 6);
    case 24: return lists(&strItems(0));
    default: {
      static std::vector<boost::gregorian::date> v;
      if (v.empty())
        for (auto q : zItems(0))
          v.push_back(bdate(q));
      return listd(&v, zItems(0));
    }
    }
  };
  int a = mc::choose(26), b = mc::choose(26);
  auto la = mk(a), lb = mk(b);
  mc::describe(la.name + " against " + lb.name);
  mc::state(a * 100 + b);
  mc::step();
  auto fa = la.make(1), fb = lb.make(1);
  bool t1 = throws([&] { fa->CompareTo(*fb); });
  bool t2 = throws([&] { fa->Minus(*fb); });
  MC_CHECK(t1 == (a != b), "mixed", "comparison of two classes %s", t1 ? "rejected" : "accepted");
  MC_CHECK(t2 == (a != b), "mixed", "difference of two classes %s", t2 ? "rejected" : "accepted");
}

static void sc_invalid_ctor() {
  int P = mc::range(-1, 13), pos = mc::range(-2, 15), Z = mc::range(1, 2);
  mc::describe(fmt("partitions %d position %d multi %d", P, pos, Z));
  bool ok = P >= 1 && pos >= 1 && pos <= P;
  mc::step();
  mc::state(fmt("%d %d %d", P, pos, Z));
  bool t = throws([&] { FrequencyYearBased f(2000, P, pos, Z); });
  MC_CHECK(t == !ok, "ctor", "year-based constructor %s", t ? "rejected" : "accepted");
  auto d = FrequencyWeekBased::Daily(bdate(0));
  t = throws([&] { FrequencyDayBased f(*d, P, pos); });
  MC_CHECK(t == !ok, "ctor", "day-based constructor %s", t ? "rejected" : "accepted");
}

// ------------------------------------------------------------------- C11 ---
static FP parseAny(const string &s, const string &c, FrequencyClass &fc,
                   std::vector<string> &is, std::vector<boost::gregorian::date> &id) {
  auto f = Frequency::Parse(s, c, fc);
  if (fc == FrequencyClass::kListString)
    return FrequencyList<string>::ParseList(s, c, fc, is);
  if (fc == FrequencyClass::kListDate)
    return FrequencyList<boost::gregorian::date>::ParseList(s, c, fc, id);
  return f;
}

static void sc_text() {
  auto l = drawLine();
  auto w = window(l, mc::qt(15, 60));
  mc::describe(l.name);
  std::map<string, long> seen;
  auto f0 = l.make(0);
  mc::eqs(f0->ToClassString(true), l.cls, "class-text", "class text");
  MC_CHECK(f0->mClass == l.fc, "class", "class is '%c', want '%c'", (char)f0->mClass, (char)l.fc);
  MC_CHECK(Frequency::GetClass(f0->ToClassString(true)) == l.fc, "class-of-text",
           "class read from '%s'", l.cls.c_str());
  for (long i : w) {
    mc::step();
    auto f = l.make(i);
    string t = f->ToString(), c = f->ToClassString(true);
    mc::state(c + "|" + t);
    mc::eqs(t, l.text(i), "text", fmt("text of index %ld", i));
    mc::eqs(c, l.cls, "class-text", "class text");
    auto it = seen.find(t);
    MC_CHECK(it == seen.end(), "distinct", "indexes %ld and %ld have the same text %s", i,
             it == seen.end() ? 0 : it->second, t.c_str());
    seen[t] = i;
    FrequencyClass fc;
    std::vector<string> is;
    std::vector<boost::gregorian::date> id;
    auto g = parseAny(t, c, fc, is, id);
    MC_CHECK(fc == l.fc && g->mClass == l.fc, "parse-class", "class of parsed '%s'", t.c_str());
    mc::eqs(fields(*g), fields(*f), "parse", fmt("parsing '%s' of class '%s'", t.c_str(), c.c_str()));
    mc::eqs(g->ToString(), t, "parse", "text of the parsed point");
    mc::eqs(g->ToClassString(true), c, "parse", "class text of the parsed point");
    MC_CHECK(f->IsEqualTo(*g) && g->IsEqualTo(*f), "parse", "parsed point is not equal to the original");
    mc::eqi(g->Minus(*f), 0, "parse", "distance of the parsed point");
    // the parsed point lives on the same time line
    for (long n : {-3L, -1L, 1L, 2L, 5L}) {
      g = parseAny(t, c, fc, is.empty() ? is : (is.clear(), is), id.empty() ? id : (id.clear(), id));
      g->Next((Ti)n);
      mc::eqs(g->ToString(), l.text(i + n), "parse-next", fmt("%ld steps from the parsed '%s'", n, t.c_str()));
    }
    is.clear();
    id.clear();
  }
}

static void sc_classnames() { // enum names
  struct E { FrequencyClass c; const char *n; };
  static const std::vector<E> all = {
      {FrequencyClass::kCrossSection, "Cross-Section"}, {FrequencyClass::kYearly, "Yearly"},
      {FrequencyClass::kQuarterly, "Quarterly"}, {FrequencyClass::kMonthly, "Monthly"},
      {FrequencyClass::kMultiYear, "Multi-Yearly"}, {FrequencyClass::kXTimesAYear, "X-Times-A-Year"},
      {FrequencyClass::kXTimesZYears, "X-Times-Z-Years"}, {FrequencyClass::kWeekly, "Weekly"},
      {FrequencyClass::kDaily, "Daily"}, {FrequencyClass::kMultiWeekly, "Multi-Weekly"},
      {FrequencyClass::kMultiDaily, "Multi-Daily"}, {FrequencyClass::kDailyInWeek, "Daily-In-Week"},
      {FrequencyClass::kHourly, "Hourly"}, {FrequencyClass::kMinutely, "Minute(ly)"},
      {FrequencyClass::kSecondly, "Second(ly)"}, {FrequencyClass::kXTimesADay, "X-Times-A-Day"},
      {FrequencyClass::kListString, "List (String)"}, {FrequencyClass::kListDate, "List (Date)"}};
  int i = mc::choose((int)all.size());
  mc::describe(all[i].n);
  mc::state(i);
  mc::step();
  mc::eqs(ToString(all[i].c), all[i].n, "class-name", "name of the class");
  // the name without punctuation and in lower case selects the class
  string s;
  for (const char *p = all[i].n; *p; p++)
    if (isalnum((unsigned char)*p))
      s += (char)tolower(*p);
  FrequencyClass back = FromString_FrequencyClass(s.c_str());
  MC_CHECK(back == all[i].c, "class-name", "name '%s' selects '%c', want '%c'", s.c_str(), (char)back, (char)all[i].c);
}

struct Bad { const char *s, *c; };
static void sc_malformed() {
  static const std::vector<Bad> bad = {
      {"", "cs"}, {"x", "cs"}, {"a1", "cs"}, {"99999999999", "cs"},
      {"", "y"}, {"abc", "y"}, {"Q1", "q"}, {"2000", "q"}, {"2000Q", "q"}, {"2000Qx", "q"},
      {"2000Q0", "q"}, {"2000Q5", "q"}, {"2000Q-1", "q"}, {"2000M0", "m"}, {"2000M13", "m"}, {"2000", "m"}, {"2000M", "m"},
      {"2000:4", "y3"}, {"2000:0", "y3"}, {"2000", "y3"}, {"2000:1", "yx"}, {"2000:1", "y0"}, {"2000:1", "y-2"},
      {"2000", "z"}, {"2000", "zx"}, {"2000:4", "x3z2"}, {"2000:0", "x3z2"}, {"2000", "x3z2"}, {"2000:1", "x3"}, {"2000:1", "xz"}, {"2000:1", "x0z2"},
      {"", "d"}, {"abc", "d"}, {"20001301", "d"}, {"20000001", "d"}, {"20000230", "d"}, {"20010229", "d"}, {"20000100", "d"}, {"20000132", "d"}, {"2000", "d"},
      {"20000101", "dx"}, {"", "w"}, {"20001301", "w"}, {"20000101", "wx"}, {"20001301", "w2"},
      {"20000103", "i"}, {"20000103", "i:"}, {"20000103", "i:mon"}, {"20000103", "i:mon-xyz"}, {"20000103", "i:abc-fri"}, {"20001303", "i:mon-fri"},
      {"20000101", "ho|d"}, {"20000101:0", "ho|d"}, {"20000101:25", "ho|d"}, {"20000101:x", "ho|d"}, {"20000101:-1", "ho|d"}, {"20001301:1", "ho|d"}, {"20000101:1", "ho"}, {"20000101:1", "ho|"}, {"20000101:1", "ho|v"},
      {"20000101:0", "mi|d"}, {"20000101:1441", "mi|d"}, {"20000101:0", "se|d"}, {"20000101:86401", "se|d"},
      {"20000101:6", "da5|d"}, {"20000101:0", "da5|d"}, {"20000101:1", "da|d"}, {"20000101:1", "da0|d"}, {"20000101:1", "dax|d"}, {"20000101:1", "da5|i:mon"},
      {"20001301", "Ld:20000101;20000201"}, {"abc", "Ld:20000101;20000201"}, {"20000101", "Ld:20000101;20001301"}, {"out_item:x", "Ls:a;b"},
      {"A", ""}, {"A", "v"}, {"A", "L"}, {"A", "Lx"}, {"2000", "?"}, {"2000", "Y1z"}, {"1", "cs1"}};
  // trailing or missing characters after a number
  static const std::vector<Bad> trailing = {
      {"2000x", "y"}, {"2000Q1x", "q"}, {"2000Q1Q2", "q"}, {"12x", "cs"}, {"20000101:1x", "ho|d"}, {"20000101:1:2", "ho|d"}};
  int n = (int)bad.size();
  int i = mc::choose(n + (int)trailing.size());
  auto b = i < n ? bad[i] : trailing[i - n];
  mc::describe(fmt("text '%s', class '%s'", b.s, b.c));
  mc::state(i);
  mc::step();
  FrequencyClass fc;
  std::vector<string> is;
  std::vector<boost::gregorian::date> id;
  FP f;
  bool t = throws([&] { f = parseAny(b.s, b.c, fc, is, id); });
  MC_CHECK(t, i < n ? "malformed" : "malformed-trailing", "accepted as %s", t ? "" : f->ToString().c_str());
}

// all texts up to a length over the relevant alphabet: whatever is accepted is a
// valid point and survives its own round trip
static void sc_alltexts() {
  static const std::vector<string> classes = {"cs", "y", "q", "m", "y3", "z2", "x3z2"};
  static const std::vector<string> al = {"1", "5", "0", "-", "Q", "M", ":", "z", " "};
  string c = mc::pick(classes);
  int len = mc::range(0, mc::qt(5, 6));
  string s;
  for (int i = 0; i < len; i++)
    s += mc::pick(al);
  mc::describe("text '" + s + "', class '" + c + "'");
  FrequencyClass fc;
  mc::step();
  FP f;
  try {
    f = Frequency::Parse(s, c, fc);
  } catch (std::exception &) {
    mc::outcome(1);
    return;
  }
  mc::outcome(2);
  mc::state(c + "|" + f->ToString());
  auto g = Frequency::Parse(f->ToString(), f->ToClassString(), fc);
  MC_CHECK(g->IsEqualTo(*f) && fields(*g) == fields(*f), "parse", "accepted point does not survive its round trip");
  if (auto y = dynamic_cast<FrequencyYearBased *>(f.get()))
    MC_CHECK(y->mPosition >= 1 && y->mPosition <= y->mPartitionCount, "malformed",
             "accepted a position %d of %d", y->mPosition, y->mPartitionCount);
}

static void sc_variable() {
  int shape = mc::choose(3);
  // every time line with one small content, every content with a few time lines
  bool lines = shape < 2;
  auto l = lines ? drawLine() : mc::choose(2) ? year(2000, 12, 1) : inweek(cal::days(2024, 2, 28), 1, 5);
  long i = lines ? mc::pick<long>({0, -1, 2}) : 0;
  if (l.fc == FrequencyClass::kListString || l.fc == FrequencyClass::kListDate)
    i = 0;
  static const std::vector<double> vals = {0.0, 1.0, -2.5, NAN, 1e6, -0.001, 1.23456789e-20, 123456.789012345678, 1.0 / 3, INFINITY, -INFINITY, 1e15};
  Variable<double> v;
  static const std::vector<string> names = {"V", "", "a b;c", "name:with|signs"};
  if (shape == 0)
    v.Data = {mc::pick<double>({-2.5, NAN})};
  else if (shape == 1)
    v.Data = {1.0 / 3, mc::pick<double>({0, NAN}), 7};
  else
    for (int k = 0, L = mc::range(1, 3); k < L; k++)
      v.Data.push_back(mc::pick(vals));
  v.Name = lines ? "V" : names[mc::choose(4)];
  int nf = lines ? 1 : mc::range(1, 3);
  static const std::vector<std::pair<string, string>> fs = {{"k1", "v1"}, {"Key two", "a;b;c"}, {"e", ""}};
  for (int k = 0; k < nf; k++)
    v.Fields.insert(fs[k]);
  v.StartFrequency = l.make(i);
  mc::describe(l.name + fmt(" index %ld, data %s, name '%s', %d fields", i, mc::join(v.Data).c_str(), v.Name.c_str(), nf));
  mc::step();
  string t = v.ToString();
  mc::state(t);
  Variable<double> r;
  std::vector<string> is;
  std::vector<boost::gregorian::date> id;
  Variable<double>::Parse(t, r, is, id);
  mc::eqs(r.Name, v.Name, "var-name", "name");
  mc::eqi((long)r.Data.size(), (long)v.Data.size(), "var-data", "length");
  for (size_t k = 0; k < v.Data.size(); k++)
    mc::eq(r.Data[k], v.Data[k], "var-data", fmt("observation %zu", k), 1e-15);
  mc::eqs(fields(*r.StartFrequency), fields(*v.StartFrequency), "var-start", "start");
  MC_CHECK(r.Fields == v.Fields, "var-fields", "fields differ: %zu and %zu", r.Fields.size(), v.Fields.size());
  bool nan = false;
  for (auto d : v.Data)
    nan = nan || std::isnan(d) || std::isinf(d);
  if (!nan)
    MC_CHECK(v.IsEqualTo(r) && r.IsEqualTo(v), "var-equal", "parsed variable is not equal to the original");
  // end of the variable
  mc::eqs(v.GetEndFrequency()->ToString(), l.text(i + (long)v.Data.size()), "var-end", "point after the last observation");
}
static void sc_var_nofields() {
  auto l = drawLine();
  Variable<double> v;
  v.Data = {1, 2};
  v.Name = "N";
  long i = 0;
  v.StartFrequency = l.make(i);
  mc::describe(l.name + " without fields");
  mc::step();
  mc::state(l.name);
  Variable<double> r;
  std::vector<string> is;
  std::vector<boost::gregorian::date> id;
  Variable<double>::Parse(v.ToString(), r, is, id);
  MC_CHECK(r.Fields == v.Fields, "var-nofields", "a variable without fields comes back with %zu fields", r.Fields.size());
  MC_CHECK(r.IsEqualTo(v), "var-nofields", "not equal");
}
// every difference is seen by IsEqualTo
static void sc_var_differs() {
  auto l = year(2000, 4, 1);
  auto mk = [&](Variable<double> &v) {
    v.Name = "V";
    v.Data = {1, 2, 3};
    v.Fields.insert({"a", "b"});
    v.StartFrequency = l.make(1);
  };
  Variable<double> a, b;
  mk(a);
  mk(b);
  int k = mc::choose(8);
  mc::state(k);
  mc::step();
  static const char *nm[] = {"nothing", "name", "an observation", "length", "start", "field value", "field key", "extra field"};
  mc::describe(string("changed ") + nm[k]);
  if (k == 1) b.Name = "W";
  if (k == 2) b.Data[mc::choose(3)] += mc::pick<double>({1, -1, 1e-6});
  if (k == 3) b.Data.push_back(4);
  if (k == 4) b.StartFrequency->Next(mc::pick<int>({1, -1, 4}));
  if (k == 5) b.Fields["a"] = "c";
  if (k == 6) { b.Fields.clear(); b.Fields["x"] = "b"; }
  if (k == 7) b.Fields["z"] = "";
  MC_CHECK(a.IsEqualTo(b) == (k == 0) && b.IsEqualTo(a) == (k == 0), "var-equal", "IsEqualTo gives %d", (int)a.IsEqualTo(b));
}
static void sc_var_malformed() {
  static const std::vector<string> bad = {"", "V", "V\ty", "V\ty\t2000", "V\ty\t2000\t1;2", "V\ty\tabc\t1;2\tk;v", "V\tnope\t2000\t1;2\tk;v",
      "V\ty\t2000\t1;x\tk;v", "V\ty\t2000\t\tk;v", "V\tq\t2000\t1\tk;v", "V\ty\t2000\t1;\tk;v"};
  static const std::vector<string> nokey = {"V\ty\t2000\t1;2\tnokey", "V\ty\t2000\t1;2\ta;b\tnokey"};
  int n = (int)bad.size();
  int i = mc::choose(n + (int)nokey.size());
  string s = i < n ? bad[i] : nokey[i - n];
  mc::describe(mc::jesc(s));
  mc::step();
  mc::state(i);
  Variable<double> r;
  std::vector<string> is;
  std::vector<boost::gregorian::date> id;
  bool t = throws([&] { Variable<double>::Parse(s, r, is, id); });
  MC_CHECK(t, i < n ? "var-malformed" : "var-nokey", "malformed variable accepted");
}

int main(int c, char **v) {
  return mc::harness_main(c, v, {
    {"c10_arith", sc_arith, "every class and parameter set of freqlines.h; all start points, all pairs of moves in a window of >=19 indexes around every boundary"},
    {"c10_dow", sc_dow, "all 49 day-of-week ranges, all days, both directions"},
    {"c10_mixed", sc_mixed, "all ordered pairs of 26 classes"},
    {"c10_ctor", sc_invalid_ctor, "partitions -1..13, positions -2..15"},
    {"c11_text", sc_text, "every class and parameter set; >=31 points around every boundary"},
    {"c11_classnames", sc_classnames, "all 18 classes"},
    {"c11_malformed", sc_malformed, "fixed set of malformed texts for every class"},
    {"c11_alltexts", sc_alltexts, "all texts up to length 5 (6) over 9 characters for 7 classes"},
    {"c11_variable", sc_variable, "every time line with one content; 1-3 observations from 12 values incl. NaN and infinities, 4 names, 1-3 fields on two time lines"},
    {"c11_var_nofields", sc_var_nofields, "every class"},
    {"c11_var_differs", sc_var_differs, "every single difference"},
    {"c11_var_malformed", sc_var_malformed, "fixed set of malformed texts"},
  });
}
