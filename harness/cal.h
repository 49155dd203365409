// Independent proleptic Gregorian calendar used as the oracle (no boost).
#pragma once
#include <cstdio>
#include <string>
namespace cal {
// days since 1970-01-01
inline long days(long y, int m, int d) {
  y -= m <= 2;
  const long era = (y >= 0 ? y : y - 399) / 400;
  const long yoe = y - era * 400;
  const long doy = (153L * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
struct Ymd {
  long y;
  int m, d;
};
inline Ymd civil(long z) {
  z += 719468;
  const long era = (z >= 0 ? z : z - 146096) / 146097;
  const long doe = z - era * 146097;
  const long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const long y = yoe + era * 400;
  const long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const long mp = (5 * doy + 2) / 153;
  const int d = (int)(doy - (153 * mp + 2) / 5 + 1);
  const int m = (int)(mp < 10 ? mp + 3 : mp - 9);
  return {y + (m <= 2), m, d};
}
// 0 = Sunday
inline int dow(long z) { return (int)(((z % 7) + 11) % 7); }
inline bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline std::string iso(long z) {
  auto c = civil(z);
  char b[32];
  snprintf(b, sizeof b, "%04ld%02d%02d", c.y, c.m, c.d);
  return b;
}
inline long fdiv(long a, long b) {
  long q = a / b;
  return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}
inline long fmodp(long a, long b) { return a - b * fdiv(a, b); }
} // namespace cal
