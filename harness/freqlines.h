// Time lines: for every frequency class a map index -> point, computed with an
// independent calendar; the oracle of C10, C11, C12 and C28.
#pragma once
#include "cal.h"
#include "frequency.h"
#include "mc.h"
using namespace ldt;
namespace fl {
using FP = std::unique_ptr<Frequency>;
inline boost::gregorian::date bdate(long z) {
  auto c = cal::civil(z);
  return boost::gregorian::date((unsigned short)c.y, (unsigned short)c.m,
                                (unsigned short)c.d);
}
struct Line {
  std::string name;                      // describes the line
  std::string cls;                       // expected class text
  FrequencyClass fc;
  std::function<FP(long)> make;          // point at index
  std::function<std::string(long)> text; // expected text at index
  long lo, hi;                           // admissible window of indexes
};
inline bool inr(int d, int s, int e) {
  for (int i = s;; i = (i + 1) % 7) {
    if (i == d)
      return true;
    if (i == e)
      return false;
  }
}
inline const char *dn(int i) {
  static const char *n[] = {"sun", "mon", "tue", "wed", "thu", "fri", "sat"};
  return n[i];
}
inline Line cross(long base) {
  Line l;
  l.name = "cs@" + std::to_string(base);
  l.cls = "cs";
  l.fc = FrequencyClass::kCrossSection;
  l.make = [=](long i) { return FP(new FrequencyCrossSection((Ti)(base + i))); };
  l.text = [=](long i) { return std::to_string(base + i); };
  l.lo = -1000;
  l.hi = 1000;
  return l;
}
inline Line year(long base, int P, int Z) {
  Line l;
  l.name = mc::fmt("year-based base=%ld P=%d Z=%d", base, P, Z);
  auto yr = [=](long i) { return base + cal::fdiv(i, P) * Z; };
  auto ps = [=](long i) { return cal::fmodp(i, P) + 1; };
  if (Z == 1) {
    l.cls = P == 1 ? "y" : P == 4 ? "q" : P == 12 ? "m" : mc::fmt("y%d", P);
    l.fc = P == 1    ? FrequencyClass::kYearly
           : P == 4  ? FrequencyClass::kQuarterly
           : P == 12 ? FrequencyClass::kMonthly
                     : FrequencyClass::kXTimesAYear;
  } else {
    l.cls = P == 1 ? mc::fmt("z%d", Z) : mc::fmt("x%dz%d", P, Z);
    l.fc = P == 1 ? FrequencyClass::kMultiYear : FrequencyClass::kXTimesZYears;
  }
  l.make = [=](long i) -> FP {
    Ti y = (Ti)yr(i), p = (Ti)ps(i);
    if (Z == 1) {
      if (P == 1)
        return FrequencyYearBased::Yearly(y);
      if (P == 4)
        return FrequencyYearBased::Quarterly(y, p);
      if (P == 12)
        return FrequencyYearBased::Monthly(y, p);
      return FrequencyYearBased::XTimesAYear(y, P, p);
    }
    if (P == 1)
      return FrequencyYearBased::MultiYearly(y, Z);
    return FrequencyYearBased::XTimesZYear(y, P, p, Z);
  };
  l.text = [=](long i) {
    if (P == 1)
      return std::to_string(yr(i));
    const char *sep = Z == 1 && P == 4 ? "Q" : Z == 1 && P == 12 ? "M" : ":";
    return std::to_string(yr(i)) + sep + std::to_string(ps(i));
  };
  l.lo = -100000;
  l.hi = 100000;
  return l;
}
inline Line days(long z0, int k) {
  Line l;
  l.name = "every " + std::to_string(k) + " days from " + cal::iso(z0);
  l.cls = k == 1 ? "d" : mc::fmt("d%d", k);
  l.fc = k == 1 ? FrequencyClass::kDaily : FrequencyClass::kMultiDaily;
  l.make = [=](long i) -> FP {
    if (k == 1)
      return FrequencyWeekBased::Daily(bdate(z0 + i));
    return FrequencyWeekBased::MultiDaily(bdate(z0 + i * k), k);
  };
  l.text = [=](long i) { return cal::iso(z0 + i * k); };
  l.lo = -20000;
  l.hi = 20000;
  return l;
}
inline Line weeks(long z0, int k) {
  Line l;
  l.name = "every " + std::to_string(k) + " weeks from " + cal::iso(z0);
  l.cls = k == 1 ? "w" : mc::fmt("w%d", k);
  l.fc = k == 1 ? FrequencyClass::kWeekly : FrequencyClass::kMultiWeekly;
  l.make = [=](long i) -> FP {
    if (k == 1)
      return FrequencyWeekBased::Weekly(bdate(z0 + i * 7));
    return FrequencyWeekBased::MultiWeekly(bdate(z0 + i * 7 * k), k);
  };
  l.text = [=](long i) { return cal::iso(z0 + i * 7 * k); };
  l.lo = -3000;
  l.hi = 3000;
  return l;
}
// index -> day number for the days of a week range; z0 is a day in the range
inline long rangeday(long z0, int s, int e, long i) {
  long z = z0;
  for (; i > 0; i--) {
    do
      z++;
    while (!inr(cal::dow(z), s, e));
  }
  for (; i < 0; i++) {
    do
      z--;
    while (!inr(cal::dow(z), s, e));
  }
  return z;
}
inline Line inweek(long z0, int s, int e) {
  Line l;
  while (!inr(cal::dow(z0), s, e))
    z0++;
  l.name = mc::fmt("days %s-%s from %s", dn(s), dn(e), cal::iso(z0).c_str());
  l.cls = mc::fmt("i:%s-%s", dn(s), dn(e));
  l.fc = FrequencyClass::kDailyInWeek;
  l.make = [=](long i) -> FP {
    return FrequencyWeekBased::DailyInWeek(
        bdate(rangeday(z0, s, e, i)),
        DayOfWeekRange((DayOfWeek)s, (DayOfWeek)e), i % 2 == 0);
  };
  l.text = [=](long i) { return cal::iso(rangeday(z0, s, e, i)); };
  l.lo = -400;
  l.hi = 400;
  return l;
}
inline Line daybased(const Line &day, int P) {
  Line l;
  l.name = mc::fmt("%d parts of ", P) + day.name;
  std::string pre;
  if (P == 24)
    pre = "ho", l.fc = FrequencyClass::kHourly;
  else if (P == 1440)
    pre = "mi", l.fc = FrequencyClass::kMinutely;
  else if (P == 86400)
    pre = "se", l.fc = FrequencyClass::kSecondly;
  else
    pre = mc::fmt("da%d", P), l.fc = FrequencyClass::kXTimesADay;
  l.cls = pre + "|" + day.cls;
  l.make = [=](long i) -> FP {
    auto d = day.make(cal::fdiv(i, P));
    auto &w = dynamic_cast<FrequencyWeekBased &>(*d);
    Ti p = (Ti)cal::fmodp(i, P) + 1;
    if (P == 24)
      return FrequencyDayBased::Hourly(w, p);
    if (P == 1440)
      return FrequencyDayBased::Minutely(w, p);
    if (P == 86400)
      return FrequencyDayBased::Secondly(w, p);
    return FrequencyDayBased::XTimesADay(w, P, p);
  };
  l.text = [=](long i) {
    return day.text(cal::fdiv(i, P)) + ":" +
           std::to_string(cal::fmodp(i, P) + 1);
  };
  l.lo = -300L * P;
  l.hi = 300L * P;
  return l;
}
// lists; indexes outside the list are steps beyond its ends
inline std::string outtext(long i, long n) {
  return "out_item:" + std::to_string(i < 0 ? i : i - n + 1);
}
inline Line lists(std::vector<std::string> *items) {
  Line l;
  long n = (long)items->size();
  l.name = "list of strings " + mc::join(*items, ";");
  l.cls = "Ls:" + mc::join(*items, ";");
  l.fc = FrequencyClass::kListString;
  l.make = [=](long i) -> FP {
    long c = std::min(std::max(i, 0L), n - 1);
    auto f = std::make_unique<FrequencyList<std::string>>(items->at(c), items);
    f->OutIndex = (Ti)(i < 0 ? i : i >= n ? i - n + 1 : 0);
    return f;
  };
  l.text = [=](long i) { return i >= 0 && i < n ? items->at(i) : outtext(i, n); };
  l.lo = -50;
  l.hi = n + 50;
  return l;
}
inline Line listd(std::vector<boost::gregorian::date> *items,
                  std::vector<long> zs) {
  Line l;
  long n = (long)items->size();
  std::string t;
  for (size_t i = 0; i < zs.size(); i++)
    t += (i ? ";" : "") + cal::iso(zs[i]);
  l.name = "list of dates " + t;
  l.cls = "Ld:" + t;
  l.fc = FrequencyClass::kListDate;
  l.make = [=](long i) -> FP {
    long c = std::min(std::max(i, 0L), n - 1);
    auto f = std::make_unique<FrequencyList<boost::gregorian::date>>(
        items->at(c), items);
    f->OutIndex = (Ti)(i < 0 ? i : i >= n ? i - n + 1 : 0);
    return f;
  };
  l.text = [=](long i) {
    return i >= 0 && i < n ? cal::iso(zs[i]) : outtext(i, n);
  };
  l.lo = -50;
  l.hi = n + 50;
  return l;
}

inline std::vector<long> baseDays() { // around every calendar boundary
  return {cal::days(1999, 12, 30), cal::days(2000, 2, 28),
          cal::days(1900, 2, 27),  cal::days(2023, 2, 26),
          cal::days(2024, 12, 29), cal::days(2021, 6, 30)};
}
/// draws one line; all classes with their parameters
inline std::vector<std::string> &strItems(int which) {
  static std::vector<std::vector<std::string>> v = {
      {"A", "B", "C"}, {"x"}, {"b", "a", "d", "c", "f"}, {"A", "B"}};
  return v[which];
}
inline std::vector<long> zItems(int which) {
  static std::vector<std::vector<long>> v = {
      {cal::days(2000, 10, 1), cal::days(2001, 2, 12), cal::days(2002, 3, 2)},
      {cal::days(2004, 2, 29)},
      {cal::days(2005, 5, 1), cal::days(2003, 1, 31), cal::days(2009, 12, 31),
       cal::days(2004, 7, 7)}};
  return v[which];
}
inline Line drawLine() {
  int c = mc::choose(8);
  switch (c) {
  case 0:
    return cross(mc::pick<long>({0, 10, -7}));
  case 1:
    return year(mc::pick<long>({2000, 1999, 3, 0, -5}),
                mc::pick<int>({1, 2, 3, 4, 6, 7, 12, 13, 24}),
                mc::pick<int>({1, 2, 3, 5, 10}));
  case 2:
    return days(mc::pick(baseDays()), mc::pick<int>({1, 2, 3, 5, 7, 30}));
  case 3:
    return weeks(mc::pick(baseDays()) + mc::choose(7),
                 mc::pick<int>({1, 2, 3, 4, 10}));
  case 4: {
    long z = mc::pick(baseDays()) + mc::choose(7);
    int s = mc::choose(7), e = mc::choose(7);
    return inweek(z, s, e);
  }
  case 5: {
    long z = mc::pick(baseDays());
    int k = mc::choose(7);
    Line d = k == 0   ? days(z, 1)
             : k == 1 ? days(z, 3)
             : k == 2 ? weeks(z, 1)
             : k == 3 ? weeks(z, 2)
             : k == 4 ? inweek(z, 1, 5)
             : k == 5 ? inweek(z, 6, 2)
                      : inweek(z, 3, 3);
    return daybased(d, mc::pick<int>({1, 2, 3, 8, 24, 25, 1440, 86400}));
  }
  case 6:
    return lists(&strItems(mc::choose(4)));
  default: {
    static std::map<int, std::vector<boost::gregorian::date>> cache;
    int w = mc::choose(3);
    auto zs = zItems(w);
    auto &v = cache[w];
    if (v.empty())
      for (auto z : zs)
        v.push_back(bdate(z));
    return listd(&v, zs);
  }
  }
}
/// canonical text of every public field of a point
inline std::string fields(const Frequency &f) {
  std::string o = std::string(1, (char)f.mClass) + "/" + f.ToClassString() + "/";
  if (auto p = dynamic_cast<const FrequencyCrossSection *>(&f))
    return o + std::to_string(p->mPosition);
  if (auto p = dynamic_cast<const FrequencyYearBased *>(&f))
    return o + mc::fmt("%d %d %d %d", p->mYear, p->mYearMulti,
                       p->mPartitionCount, p->mPosition);
  if (auto p = dynamic_cast<const FrequencyWeekBased *>(&f))
    return o + boost::gregorian::to_iso_string(p->mDay) +
           mc::fmt(" %d", p->mMulti);
  if (auto p = dynamic_cast<const FrequencyDayBased *>(&f))
    return o + boost::gregorian::to_iso_string(p->mDay.mDay) +
           mc::fmt(" %d %d %d", p->mDay.mMulti, p->mPartitionCount,
                   p->mPosition);
  if (auto p = dynamic_cast<const FrequencyList<std::string> *>(&f))
    return o + (p->OutIndex ? mc::fmt("out%d", p->OutIndex) : p->mValue);
  if (auto p =
          dynamic_cast<const FrequencyList<boost::gregorian::date> *>(&f))
    return o + (p->OutIndex ? mc::fmt("out%d", p->OutIndex)
                            : boost::gregorian::to_iso_string(p->mValue));
  return o + "?";
}
} // namespace fl
