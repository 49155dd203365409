// A matrix on exactly sized guarded memory, and the plain reference it is
// compared with cell by cell.
#pragma once
#include "matrix.h"
#include "mc.h"
namespace mk {
using namespace ldt;
using mc::fmt;
using std::string;
using std::vector;

struct Ref { // row i, column j, no layout shared with the library
  int r = 0, c = 0;
  vector<vector<double>> v;
  Ref() {}
  Ref(int r_, int c_, double x = 0) : r(r_), c(c_), v(r_, vector<double>(c_, x)) {}
  double &at(int i, int j) { return v[i][j]; }
  double at(int i, int j) const { return v[i][j]; }
  string str() const {
    string o = fmt("%dx%d", r, c);
    for (auto &x : v) {
      o += " |";
      for (auto y : x)
        o += fmt(" %g", y);
    }
    return o;
  }
  Ref t() const {
    Ref o(c, r);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        o.at(j, i) = at(i, j);
    return o;
  }
};
/// distinct values, so that any moved cell is seen
inline Ref ids(int r, int c, int base = 10) {
  Ref o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      o.at(i, j) = base + 7 * i + j + (i * j % 2 ? 100 : 0);
  return o;
}
inline Ref dot(const Ref &a, const Ref &b) {
  Ref o(a.r, b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < b.c; j++)
      for (int k = 0; k < a.c; k++)
        o.at(i, j) += a.at(i, k) * b.at(k, j);
  return o;
}
inline Ref lin(const Ref &a, double x, const Ref &b, double y) {
  Ref o(a.r, a.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      o.at(i, j) = (x == 0 ? 0 : x * a.at(i, j)) + (y == 0 ? 0 : y * b.at(i, j));
  return o;
}
template <class T = double> struct Mat {
  mc::Guard<T> g;
  Matrix<T> m;
  Ref was;
  explicit Mat(const Ref &x) : g((size_t)x.r * x.c), m(g.p, x.r, x.c), was(x) {
    for (int i = 0; i < x.r; i++)
      for (int j = 0; j < x.c; j++)
        g.p[i + x.r * j] = (T)x.at(i, j);
  }
  Ref now() const {
    Ref o(m.RowsCount, m.ColsCount);
    for (int i = 0; i < o.r; i++)
      for (int j = 0; j < o.c; j++)
        o.at(i, j) = (double)m.Data[i + o.r * j];
    return o;
  }
  operator Matrix<T> &() { return m; }
  void is(const Ref &x, const char *key, const string &what, double tol = 1e-12) const {
    MC_CHECK(m.RowsCount == x.r && m.ColsCount == x.c, key, "%s: shape %dx%d, want %s", what.c_str(), m.RowsCount,
             m.ColsCount, x.str().c_str());
    for (int i = 0; i < x.r; i++)
      for (int j = 0; j < x.c; j++)
        MC_CHECK(mc::close((double)g.p[i + x.r * j], x.at(i, j), tol), key, "%s: (%d,%d) is %.12g, want %.12g [%s]",
                 what.c_str(), i, j, (double)g.p[i + x.r * j], x.at(i, j), x.str().c_str());
    MC_CHECK(g.intact(), "memory", "%s writes before its matrix", what.c_str());
  }
  void unchanged(const string &what) const { is(was, "input-changed", what + " (input)"); }
};
template <class F> bool throws(F f) {
  mc::step();
  try {
    f();
  } catch (std::exception &) {
    return true;
  }
  return false;
}
template <class F> void rejects(F f, const string &what) {
  MC_CHECK(throws(f), "accepted", "%s is accepted", what.c_str());
}
template <class F> void accepts(F f, const string &what) {
  MC_CHECK(!throws(f), "rejected", "%s is rejected", what.c_str());
}
} // namespace mk
