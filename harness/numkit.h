// Plain reference linear algebra in long double, independent of the library.
#pragma once
#include "matkit.h"
namespace nk {
using mk::Ref;
typedef long double L;
struct M {
  int r = 0, c = 0;
  std::vector<L> v;
  M() {}
  M(int r_, int c_, L x = 0) : r(r_), c(c_), v((size_t)r_ * c_, x) {}
  M(const Ref &a) : M(a.r, a.c) {
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        (*this)(i, j) = a.at(i, j);
  }
  L &operator()(int i, int j) { return v[i + (size_t)r * j]; }
  L operator()(int i, int j) const { return v[i + (size_t)r * j]; }
  M t() const {
    M o(c, r);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        o(j, i) = (*this)(i, j);
    return o;
  }
  M operator*(const M &b) const {
    M o(r, b.c);
    for (int i = 0; i < r; i++)
      for (int k = 0; k < c; k++)
        for (int j = 0; j < b.c; j++)
          o(i, j) += (*this)(i, k) * b(k, j);
    return o;
  }
  M operator*(L s) const {
    M o = *this;
    for (auto &x : o.v)
      x *= s;
    return o;
  }
  M operator+(const M &b) const {
    M o = *this;
    for (size_t i = 0; i < v.size(); i++)
      o.v[i] += b.v[i];
    return o;
  }
  M operator-(const M &b) const { return *this + b * (L)-1; }
  M vec() const {
    M o = *this;
    o.r = r * c, o.c = 1;
    return o;
  }
  L max() const {
    L m = 0;
    for (auto x : v)
      m = std::max(m, std::fabs(x));
    return m;
  }
  std::string str() const {
    std::string o = mc::fmt("%dx%d", r, c);
    for (int i = 0; i < r; i++) {
      o += " |";
      for (int j = 0; j < c; j++)
        o += mc::fmt(" %Lg", (*this)(i, j));
    }
    return o;
  }
};
inline M iden(int n) {
  M o(n, n);
  for (int i = 0; i < n; i++)
    o(i, i) = 1;
  return o;
}
inline M kron(const M &a, const M &b) {
  M o(a.r * b.r, a.c * b.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      for (int k = 0; k < b.r; k++)
        for (int l = 0; l < b.c; l++)
          o(i * b.r + k, j * b.c + l) = a(i, j) * b(k, l);
  return o;
}
/// Gauss-Jordan with full row pivoting; det gets the determinant
inline bool inverse(M a, M &out, L *det = nullptr) {
  int n = a.r;
  out = iden(n);
  L d = 1;
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k + 1; i < n; i++)
      if (std::fabs(a(i, k)) > std::fabs(a(p, k)))
        p = i;
    if (a(p, k) == 0) {
      if (det)
        *det = 0;
      return false;
    }
    if (p != k) {
      d = -d;
      for (int j = 0; j < n; j++)
        std::swap(a(p, j), a(k, j)), std::swap(out(p, j), out(k, j));
    }
    L x = a(k, k);
    d *= x;
    for (int j = 0; j < n; j++)
      a(k, j) /= x, out(k, j) /= x;
    for (int i = 0; i < n; i++)
      if (i != k) {
        L f = a(i, k);
        if (f != 0)
          for (int j = 0; j < n; j++)
            a(i, j) -= f * a(k, j), out(i, j) -= f * out(k, j);
      }
  }
  if (det)
    *det = d;
  return true;
}
inline L norm1(const M &a) {
  L m = 0;
  for (int j = 0; j < a.c; j++) {
    L s = 0;
    for (int i = 0; i < a.r; i++)
      s += std::fabs(a(i, j));
    m = std::max(m, s);
  }
  return m;
}
/// condition number, infinite when singular
inline L cond(const M &a) {
  M b;
  if (!inverse(a, b))
    return INFINITY;
  return norm1(a) * norm1(b);
}
inline L det(const M &a) {
  M b;
  L d;
  inverse(a, b, &d);
  return d;
}
/// compares a library matrix with a reference, relative to the largest value
inline void same(const ldt::Matrix<double> &m, const M &w, const char *key, const std::string &what, double tol = 1e-7) {
  MC_CHECK(m.RowsCount == w.r && m.ColsCount == w.c, key, "%s: shape %dx%d, want %dx%d", what.c_str(), m.RowsCount, m.ColsCount, w.r, w.c);
  L s = std::max<L>(w.max(), 1e-6);
  for (int i = 0; i < w.r; i++)
    for (int j = 0; j < w.c; j++) {
      double g = m.Data[i + m.RowsCount * j];
      MC_CHECK(std::fabs(g - w(i, j)) <= tol * s, key, "%s: (%d,%d) is %.12g, want %.12Lg", what.c_str(), i, j, g, w(i, j));
    }
}
inline M get(const ldt::Matrix<double> &m) {
  M o(m.RowsCount, m.ColsCount);
  for (int i = 0; i < o.r; i++)
    for (int j = 0; j < o.c; j++)
      o(i, j) = m.Data[i + m.RowsCount * j];
  return o;
}
inline Ref ref(const M &a) {
  Ref o(a.r, a.c);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      o.at(i, j) = (double)a(i, j);
  return o;
}
} // namespace nk
