// C23: scalar and matrix polynomials, differencing, and the structure of the
// time series models (lags, counts, labels, restrictions, moving-average form).
#include "matkit.h"
#include "polynomial.h"
#include "varma.h"
using namespace ldt;
using namespace mk;
using mc::fmt;
using Vec = std::vector<double>;

static std::string str(const Vec &v) {
  std::string o = "{";
  for (double x : v)
    o += fmt("%g ", x);
  return o + "}";
}
static Vec conv(const Vec &a, const Vec &b) {
  Vec c(a.size() + b.size() - 1, 0.0);
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++)
      c[i + j] += a[i] * b[j];
  return c;
}
static Vec cut(Vec v, int n) {
  if ((int)v.size() > n)
    v.resize(n);
  return v;
}
static Vec coefs(int maxlen, const Vec &alpha) {
  int n = mc::range(1, maxlen);
  Vec v;
  for (int i = 0; i < n; i++)
    v.push_back(mc::pick(alpha));
  return v;
}
template <class T> struct Poly {
  mc::Guard<T> g;
  Matrix<T> m;
  Polynomial<T> p;
  Poly(const Vec &v, bool trim = false) : g(v.size()) {
    for (size_t i = 0; i < v.size(); i++)
      g[i] = (T)v[i];
    m.SetData(g.p, (Ti)v.size(), 1);
    p.Data(m, trim);
  }
};
template <class T> static void same(const Polynomial<T> &p, const Vec &want, const char *what) {
  mc::eqi(p.Coefficients.length(), (long long)want.size(), "polynomial", fmt("%s: number of coefficients", what));
  mc::eqi(p.GetDegree(), (long long)want.size() - 1, "polynomial", fmt("%s: degree", what));
  for (size_t i = 0; i < want.size(); i++)
    mc::eq((double)p.Coefficients.Data[i], want[i], "polynomial", fmt("%s: coefficient %zu", what, i));
}

template <class T> static void multiply_t(const Vec &a, const Vec &b, const Vec &a2, int ml) {
  const int none = INT_MAX;
  int full = (int)(a.size() + b.size()) - 1;
  int maxlen = ml == 0 ? none : ml;
  Poly<T> A(a), B(b), A2(a2);
  PolynomialMultiply<T> mul((Ti)a.size() - 1, (Ti)b.size() - 1, maxlen);
  mc::eqi(mul.StorageSize, std::min(full, maxlen), "polynomial", "announced storage of a product");
  mc::Guard<T> st(mul.StorageSize);
  mul.Calculate(A.p, B.p, st.p, maxlen);
  mc::step();
  same(mul.Result, cut(conv(a, b), maxlen), "product");
  mul.Calculate(B.p, A.p, st.p, maxlen);
  same(mul.Result, cut(conv(a, b), maxlen), "product in the other order");
  // again with the same object and other data
  bool fits = std::min((int)(a2.size() + b.size()) - 1, maxlen) <= mul.StorageSize;
  bool threw = false;
  try {
    mul.Calculate(A2.p, B.p, st.p, maxlen);
  } catch (std::exception &) {
    threw = true;
  }
  mc::step(2);
  mc::check(threw == !fits, "polynomial", "a product that does not fit is not rejected, or one that fits is");
  if (fits)
    same(mul.Result, cut(conv(a2, b), maxlen), "product with a used object");
  mc::check(st.intact() && A.g.intact() && B.g.intact(), "memory", "wrote before its storage");
  for (size_t i = 0; i < a.size(); i++)
    mc::eq((double)A.g[i], a[i], "polynomial", "an input polynomial was changed");
}
static void scalar_multiply() {
  Vec al = {-1, 0, 1, 2};
  Vec a = coefs(3, al), b = coefs(mc::qt(2, 3), al), a2 = coefs(mc::qt(2, 3), {1, -2});
  int ml = mc::choose((int)(a.size() + b.size()) + 1);
  mc::describe("product " + str(a) + "*" + str(b) + " then " + str(a2) + fmt(" max length %d", ml));
  multiply_t<double>(a, b, a2, ml);
  multiply_t<int>(a, b, a2, ml);
}
template <class T> static void power_t(const Vec &a, int power, int power2, int ml) {
  int maxlen = ml == 0 ? INT_MAX : ml;
  Poly<T> A(a);
  PolynomialPower<T> pw(power, (Ti)a.size() - 1, maxlen);
  mc::Guard<T> st(pw.StorageSize), wk(pw.WorkSize);
  auto go = [&](int p) {
    Vec want = {1};
    for (int i = 0; i < p; i++)
      want = conv(want, a);
    want = cut(want, maxlen);
    pw.Calculate(A.p, p, st.p, wk.p, maxlen);
    mc::step();
    same(pw.Result, want, "power");
  };
  go(power);
  if (power2 <= power)
    go(power2);
  go(power);
  mc::check(st.intact() && wk.intact(), "memory", "wrote before its storage");
}
static void scalar_power() {
  Vec a = coefs(3, {-1, 0, 1, 2});
  int power = mc::choose(mc::qt(5, 7)), power2 = mc::choose(4);
  int ml = mc::choose((int)(power * (a.size() - 1)) + 3);
  mc::describe("power " + str(a) + fmt("^%d then ^%d, max length %d", power, power2, ml));
  power_t<double>(a, power, power2, ml);
  power_t<int>(a, power, power2, ml);
}
static void scalar_trim() {
  Vec a = coefs(4, {-1, 0, 2});
  mc::describe("trim " + str(a));
  Vec want = a;
  while (!want.empty() && want.back() == 0)
    want.pop_back();
  bool threw = false;
  try {
    Poly<double> P(a, true);
    if (!want.empty())
      same(P.p, want, "trimmed");
  } catch (std::exception &) {
    threw = true;
  }
  mc::step();
  mc::check(threw == want.empty(), "polynomial", "a polynomial of zeros is accepted, or another one is rejected");
}

// ------------------------------------------------------- matrix polynomials
static Ref mat(const std::vector<Vec> &v) {
  Ref o((int)v.size(), (int)v[0].size());
  for (int i = 0; i < o.r; i++)
    for (int j = 0; j < o.c; j++)
      o.at(i, j) = v[i][j];
  return o;
}
static std::vector<Ref> pool(int m) {
  if (m == 1)
    return {mat({{1}}), mat({{0}}), mat({{-0.5}}), mat({{2}})};
  if (m == 2)
    return {mat({{1, 0}, {0, 1}}), mat({{0, 0}, {0, 0}}), mat({{0.5, -0.25}, {1, 2}}), mat({{0, 1}, {-1, 0.5}})};
  return {mat({{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}), mat({{0.5, -0.25, 0}, {1, 2, 0.5}, {-1, 0, 1}}),
          mat({{0, 1, 2}, {0, 0, -1}, {0, 0.5, 0}}), mat({{0, 0, 0}, {0, 0, 0}, {0, 0, 0}})};
}
using PM = std::vector<Ref>;
static PM coefsM(int m, int maxlen) {
  int n = mc::range(1, maxlen);
  auto p = pool(m);
  PM v;
  for (int i = 0; i < n; i++)
    v.push_back(mc::pick(p));
  return v;
}
static PM convM(const PM &a, const PM &b) {
  PM c(a.size() + b.size() - 1, Ref(a[0].r, a[0].c));
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++)
      c[i + j] = lin(c[i + j], 1, dot(a[i], b[j]), 1);
  return c;
}
static PM cutM(PM v, int n) {
  if ((int)v.size() > n)
    v.resize(n);
  return v;
}
static PM times(const Vec &b, int m) {
  PM o;
  for (double x : b) {
    Ref r(m, m);
    for (int i = 0; i < m; i++)
      r.at(i, i) = x;
    o.push_back(r);
  }
  return o;
}
static std::string str(const PM &v) {
  std::string o = "[";
  for (auto &x : v)
    o += x.str() + "; ";
  return o + "]";
}
struct PolyM {
  std::vector<std::unique_ptr<Mat<double>>> ms;
  std::vector<Matrix<Tv> *> ps;
  PolynomialM p;
  PolyM(const PM &v, bool trim = false) {
    for (auto &x : v) {
      ms.push_back(std::make_unique<Mat<double>>(x));
      ps.push_back(&ms.back()->m);
    }
    p.Data(ps, trim);
  }
  void untouched() {
    for (auto &x : ms)
      x->is(x->was, "polynomial", "an input polynomial was changed");
  }
};
static void sameM(const PolynomialM &p, const PM &want, const char *what, double tol = 1e-9) {
  mc::eqi((long long)p.Coefficients.size(), (long long)want.size(), "matrix-polynomial", fmt("%s: number of coefficients", what));
  mc::eqi(p.GetDegree(), (long long)want.size() - 1, "matrix-polynomial", fmt("%s: degree", what));
  mc::eqi(p.GetSize(), want[0].r, "matrix-polynomial", fmt("%s: size", what));
  for (size_t k = 0; k < want.size(); k++) {
    auto &m = *p.Coefficients.at(k);
    MC_CHECK(m.RowsCount == want[k].r && m.ColsCount == want[k].c, "matrix-polynomial", "%s: shape of coefficient %zu", what, k);
    for (int i = 0; i < want[k].r; i++)
      for (int j = 0; j < want[k].c; j++)
        mc::eq(m.Data[i + m.RowsCount * j], want[k].at(i, j), "matrix-polynomial", fmt("%s: coefficient %zu (%d,%d)", what, k, i, j), tol);
  }
}
static void matrix_multiply() {
  int m = mc::range(1, 3);
  PM a = coefsM(m, mc::qt(2, 3)), b = coefsM(m, mc::qt(2, 3));
  int full = (int)(a.size() + b.size()) - 1;
  int ml = mc::choose(full + 1);
  int maxlen = ml == 0 ? INT_MAX : ml;
  bool reuse = mc::flip();
  mc::describe("matrix product " + str(a) + str(b) + fmt(" max length %d reuse %d", ml, reuse));
  PolyM A(a), B(b);
  PolynomialMMultiply mul(m, (Ti)a.size() - 1, (Ti)b.size() - 1, maxlen);
  mc::eqi(mul.StorageSize, std::min(full, maxlen) * m * m, "matrix-polynomial", "announced storage of a product");
  mc::Guard<double> st(mul.StorageSize, 0xff);
  if (reuse) {
    mul.Calculate(B.p, A.p, st.p, maxlen);
    sameM(mul.Result, cutM(convM(b, a), maxlen), "product in the other order");
  }
  mul.Calculate(A.p, B.p, st.p, maxlen);
  sameM(mul.Result, cutM(convM(a, b), maxlen), reuse ? "product with a used object" : "product");
  mc::step(2);
  A.untouched(), B.untouched();
  mc::check(st.intact(), "memory", "wrote before its storage");
}
static void matrix_scalar_multiply() {
  int m = mc::range(1, 3);
  PM a = coefsM(m, mc::qt(2, 3));
  Vec b = coefs(3, {-1, 0, 2});
  int full = (int)(a.size() + b.size()) - 1;
  int ml = mc::choose(full + 1);
  int maxlen = ml == 0 ? INT_MAX : ml;
  mc::describe("matrix product " + str(a) + str(b) + fmt(" max length %d", ml));
  PolyM A(a);
  Poly<double> B(b);
  PolynomialMMultiply mul(m, (Ti)a.size() - 1, (Ti)b.size() - 1, maxlen);
  mc::Guard<double> st(mul.StorageSize, 0xff);
  for (int k = 0; k < 2; k++) {
    mul.Calculate(A.p, B.p, st.p, maxlen);
    sameM(mul.Result, cutM(convM(a, times(b, m)), maxlen), k ? "product with a used object" : "product");
    mc::step();
  }
  A.untouched();
  mc::check(st.intact(), "memory", "wrote before its storage");
}
static double det(const Ref &a) {
  if (a.r == 1)
    return a.at(0, 0);
  if (a.r == 2)
    return a.at(0, 0) * a.at(1, 1) - a.at(0, 1) * a.at(1, 0);
  return a.at(0, 0) * (a.at(1, 1) * a.at(2, 2) - a.at(1, 2) * a.at(2, 1)) - a.at(0, 1) * (a.at(1, 0) * a.at(2, 2) - a.at(1, 2) * a.at(2, 0)) +
         a.at(0, 2) * (a.at(1, 0) * a.at(2, 1) - a.at(1, 1) * a.at(2, 0));
}
static PM get(const PolynomialM &p) {
  PM o;
  for (auto c : p.Coefficients) {
    Ref r(c->RowsCount, c->ColsCount);
    for (int i = 0; i < r.r; i++)
      for (int j = 0; j < r.c; j++)
        r.at(i, j) = c->Data[i + c->RowsCount * j];
    o.push_back(r);
  }
  return o;
}
static void matrix_inverse() {
  int m = mc::range(1, 3);
  PM a = coefsM(m, m == 3 ? mc::qt(2, 3) : mc::qt(3, 4));
  int len = mc::range(1, 5);
  int reuse = mc::choose(2);
  mc::describe("inverse " + str(a) + fmt(" length %d reuse %d", len, reuse));
  PolyM A(a);
  PolynomialMInvert inv(m, (Ti)a.size() - 1, len);
  mc::Guard<double> st(inv.StorageSize, 0xff), wk(inv.WorkSize, 0xff);
  bool threw = false;
  for (int k = 0; k <= reuse; k++) {
    int l = k == reuse ? len : std::max(1, len - 1); // a shorter one first
    try {
      inv.Calculate(A.p, st.p, wk.p, l);
    } catch (std::exception &) {
      threw = true;
    }
    mc::step();
    bool singular = std::fabs(det(a[0])) < 1e-12;
    mc::check(threw == singular, "matrix-polynomial", "a polynomial without an inverse is inverted, or another one is rejected");
    if (singular)
      return;
    PM b = get(inv.Result);
    mc::eqi((long long)b.size(), l, "matrix-polynomial", "length of the inverse");
    PM id = cutM(convM(a, b), l), id2 = cutM(convM(b, a), l);
    for (int s = 0; s < (int)id.size(); s++)
      for (int i = 0; i < m; i++)
        for (int j = 0; j < m; j++) {
          double want = s == 0 && i == j;
          double scale = 1;
          for (auto &x : b)
            for (auto &y : x.v)
              for (double z : y)
                scale = std::max(scale, std::fabs(z));
          MC_CHECK(std::fabs(id[s].at(i, j) - want) <= 1e-9 * scale, "matrix-polynomial", "A*inverse at power %d is not the identity: %g", s,
                   id[s].at(i, j));
          MC_CHECK(std::fabs(id2[s].at(i, j) - want) <= 1e-9 * scale, "matrix-polynomial", "inverse*A at power %d is not the identity: %g", s,
                   id2[s].at(i, j));
        }
  }
  A.untouched();
  mc::check(st.intact() && wk.intact(), "memory", "wrote before its storage");
}
static void matrix_data() {
  int m = mc::range(1, 2);
  PM a = coefsM(m, 3), b = coefsM(m, 2);
  bool trim = mc::flip();
  mc::describe("matrix polynomial " + str(a) + str(b) + fmt("trim %d", trim));
  auto zero = [](const Ref &r) {
    for (auto &x : r.v)
      for (double y : x)
        if (y != 0)
          return false;
    return true;
  };
  auto want = [&](PM v) {
    while (trim && !v.empty() && zero(v.back()))
      v.pop_back();
    return v;
  };
  PolynomialM p; // one object that gets data twice
  for (auto *v : {&a, &b}) {
    PolyM V(*v);
    PM w = want(*v);
    bool threw = false;
    try {
      p.Data(V.ps, trim);
    } catch (std::exception &) {
      threw = true;
    }
    mc::check(threw == w.empty(), "matrix-polynomial", "a polynomial of zeros is accepted, or another one is rejected");
    if (threw)
      return;
    sameM(p, w, "data");
    mc::step();
  }
  mc::Guard<double> buf(PolynomialM::GetStorageSize(2, m));
  for (size_t i = 0; i < buf.size(); i++)
    buf[i] = (double)i;
  for (int deg : {2, 1}) {
    Ti used = p.Data(deg, m, buf.p);
    mc::eqi(used, (deg + 1) * m * m, "matrix-polynomial", "storage of the coefficients");
    PM w;
    for (int k = 0; k <= deg; k++) {
      Ref r(m, m);
      for (int i = 0; i < m; i++)
        for (int j = 0; j < m; j++)
          r.at(i, j) = k * m * m + i + m * j;
      w.push_back(r);
    }
    sameM(p, w, "array data");
    mc::step();
  }
}

// -------------------------------------------------------------- structures
struct Ord {
  int p, d, q, P, D, Q, s;
};
static std::string str(const Ord &o) { return fmt("(%d,%d,%d)x(%d,%d,%d)_%d", o.p, o.d, o.q, o.P, o.D, o.Q, o.s); }
static std::vector<int> lags(int p, int P, int s) {
  std::set<int> l;
  for (int i = 1; i <= p; i++)
    l.insert(i);
  if (s >= 2)
    for (int i = 1; i <= P; i++)
      l.insert(i * s);
  return {l.begin(), l.end()};
}
static Vec diffpoly(const Ord &o) {
  Vec r = {1};
  for (int i = 0; i < o.d; i++)
    r = conv(r, {1, -1});
  if (o.s >= 2)
    for (int i = 0; i < o.D; i++) {
      Vec t(o.s + 1, 0.0);
      t[0] = 1, t[o.s] = -1;
      r = conv(r, t);
    }
  return r;
}
static Ord order(int mp, int md, int mq, int mP, int mD, int mQ) {
  Ord o;
  o.s = mc::pick({0, 1, 2, 3, 4});
  o.p = mc::choose(mp + 1), o.d = mc::choose(md + 1), o.q = mc::choose(mq + 1);
  o.P = mc::choose(mP + 1), o.D = mc::choose(mD + 1), o.Q = mc::choose(mQ + 1);
  return o;
}
static bool admissible(const Ord &o) {
  if (o.s < 2 && (o.P || o.D || o.Q))
    return false;
  return o.p || o.q || o.P || o.Q;
}
static void structure() {
  Ord o = order(mc::qt(4, 6), 2, mc::qt(3, 6), 2, 2, 2);
  int g = mc::range(1, 2), x = mc::choose(3), T = 30;
  mc::describe("structure " + str(o) + fmt(" eqs %d exo %d", g, x));
  bool ok = admissible(o), threw = false;
  VarmaSizes z;
  try {
    z = VarmaSizes(T, g, x, o.p, o.d, o.q, o.P, o.D, o.Q, o.s, false);
  } catch (std::exception &) {
    threw = true;
  }
  mc::step();
  mc::check(threw == !ok, "structure", ok ? "an admissible order is rejected" : "an order that is not admissible is accepted");
  if (!ok)
    return;
  mc::Guard<int> w(z.WorkSizeI, 0x7f);
  z.Calculate(w.p);
  mc::check(w.intact(), "memory", "wrote before its work memory");
  VarmaSizes z2(T, g, x, o.p, o.d, o.q, o.P, o.D, o.Q, o.s, true);
  auto ar = lags(o.p, o.P, o.s), ma = lags(o.q, o.Q, o.s);
  Vec df = diffpoly(o);
  for (int k = 0; k < 3; k++) {
    if (k == 2) // calculating again changes nothing
      z.Calculate(w.p);
    auto &s = k == 1 ? z2 : z;
    mc::eqs(mc::join(s.ArLags), mc::join(ar), "structure", "autoregressive lags");
    mc::eqs(mc::join(s.MaLags), mc::join(ma), "structure", "moving average lags");
    mc::eqi((long long)s.DiffPoly.size(), (long long)df.size(), "structure", "length of the differencing polynomial");
    for (size_t i = 0; i < df.size(); i++)
      mc::eq(s.DiffPoly[i], df[i], "structure", fmt("differencing coefficient %zu", i));
    int am = ar.empty() ? 0 : ar.back(), mm = ma.empty() ? 0 : ma.back(), dd = (int)df.size() - 1;
    mc::eqi(s.ArLength, (int)ar.size(), "structure", "number of autoregressive lags");
    mc::eqi(s.MaLength, (int)ma.size(), "structure", "number of moving average lags");
    mc::eqi(s.ArMax, am, "structure", "largest autoregressive lag");
    mc::eqi(s.MaMax, mm, "structure", "largest moving average lag");
    mc::eqi(s.DiffDegree, dd, "structure", "degree of differencing");
    mc::eqi(s.ArMax_d, am + dd, "structure", "observations lost at the start");
    mc::eqi(s.T, T - am - dd, "structure", "observations left");
    int per = (int)(ar.size() + ma.size()) * g + x;
    mc::eqi(s.NumParamsEq, per, "structure", "coefficients of an equation");
    mc::eqi(s.NumParams, per * g, "structure", "coefficients");
    mc::eqi(s.MaStart, (int)ar.size() * g + x, "structure", "position of the moving average part");
    mc::eqi(s.HasAr, !ar.empty(), "structure", "HasAr");
    mc::eqi(s.HasMa, !ma.empty(), "structure", "HasMa");
    mc::eqi(s.HasArExo, !ar.empty() || x, "structure", "HasArExo");
    mc::eqi(s.HasDiff, dd > 0, "structure", "HasDiff");
  }
  std::vector<std::string> en, xn, names, want;
  for (int i = 0; i < g; i++)
    en.push_back(fmt("Y%d", i));
  for (int i = 0; i < x; i++)
    xn.push_back(fmt("X%d", i));
  for (int l : ar)
    for (auto &e : en)
      want.push_back(e + fmt("(-%d)", l));
  for (auto &e : xn)
    want.push_back(e);
  for (int l : ma)
    for (auto &e : en)
      want.push_back(e + fmt(": e(-%d)", l));
  VarmaStorage::GetExpNames(z, en, xn, names);
  mc::eqs(mc::join(names, "|"), mc::join(want, "|"), "structure", "labels of the explanatory variables");
  mc::step(3);
}
static void differencing() {
  Ord o{1, mc::choose(4), 0, 0, mc::choose(3), 0, mc::pick({0, 2, 3, 4})};
  if (o.s == 0 && o.D)
    throw mc::Skip();
  int g = mc::range(1, 3), extra = mc::choose(4), kind = mc::choose(3);
  mc::describe("differencing " + str(o) + fmt(" rows %d extra %d kind %d", g, extra, kind));
  VarmaSizes z(50, g, 0, o.p, o.d, o.q, o.P, o.D, o.Q, o.s, true);
  Vec df = diffpoly(o);
  int h = (int)df.size() - 1, n = h + 1 + extra;
  auto val = [&](int i, int t) {
    return kind == 0 ? (i + 1) * 10 + t * t * 0.5 - (t % 3) : kind == 1 ? std::pow(-1.5, t) + i : (t == h ? 1e3 : 1.0 / (1 + t + i));
  };
  Ref y(g, n), w(g, n - h);
  for (int i = 0; i < g; i++)
    for (int t = 0; t < n; t++)
      y.at(i, t) = val(i, t);
  for (int i = 0; i < g; i++)
    for (int t = h; t < n; t++)
      for (int k = 0; k <= h; k++)
        w.at(i, t - h) += df[k] * y.at(i, t - k);
  Mat<double> Y(y);
  Ref dirty(g, n - h, 7.25);
  Mat<double> S(dirty);
  Varma::Difference(z.DiffPoly, Y.m, S.m);
  mc::step();
  S.is(w, "differencing", "the differenced series", 1e-9);
  Y.is(y, "differencing", "the input", 0);
  // undo: the first h observations are levels, the rest differences
  Ref u = y;
  for (int i = 0; i < g; i++)
    for (int t = h; t < n; t++)
      u.at(i, t) = w.at(i, t - h);
  Mat<double> U(u);
  Varma::UnDiferences(z.DiffPoly, U.m);
  mc::step();
  U.is(y, "differencing", "differencing and undoing it", 1e-8);
}
static void restriction_ma_final() {
  Ord o = order(2, 1, 2, 1, 0, 2);
  if (!admissible(o))
    throw mc::Skip();
  int g = mc::range(1, 3), x = mc::choose(2);
  mc::describe("final form " + str(o) + fmt(" eqs %d exo %d", g, x));
  VarmaSizes z(60, g, x, o.p, o.d, o.q, o.P, o.D, o.Q, o.s, true);
  for (auto type : {VarmaRestrictionType::kNone, VarmaRestrictionType::kMaFinal}) {
    VarmaRestriction r(z, type);
    bool want = type == VarmaRestrictionType::kMaFinal && g > 1 && z.HasMa;
    mc::eqi(r.IsRestricted, want, "restriction", "whether the model is restricted");
    mc::step();
    if (!want) {
      mc::eqi(r.StorageSize, 0, "restriction", "storage without restrictions");
      r.Calculate(nullptr);
      continue;
    }
    int fr = z.MaStart * g, q = fr + z.MaLength;
    mc::eqi(r.R.RowsCount, z.NumParams, "restriction", "rows");
    mc::eqi(r.R.ColsCount, q, "restriction", "free coefficients");
    mc::Guard<double> st(r.StorageSize, 0xff);
    r.Calculate(st.p);
    mc::check(st.intact(), "memory", "wrote before its storage");
    // vec(coefficients) is column by column: equation index runs fastest
    for (int c = 0; c < q; c++)
      for (int k = 0; k < z.NumParams; k++) {
        int col = k / g, eq = k % g; // column of the coefficient matrix, equation
        double w = 0;
        if (col < z.MaStart)
          w = k == c;
        else {
          int lag = (col - z.MaStart) / g, var = (col - z.MaStart) % g;
          w = c == fr + lag && var == eq;
        }
        mc::eq(r.R.Get0(k, c), w, "restriction", fmt("coefficient %d (equation %d, regressor %d) of the free one %d", k, eq, col, c));
      }
  }
}
static void restriction_general() {
  int g = mc::range(1, 2), p = mc::range(1, 2), q = mc::choose(2), x = mc::choose(2);
  VarmaSizes z(60, g, x, p, 0, q, 0, 0, 0, 0, true);
  int n = z.NumParams;
  if (n > mc::qt(8, 12))
    throw mc::Skip();
  int mask = mc::choose(1 << n), decl = mc::choose(4);
  std::vector<int> idx;
  for (int i = 0; i < n; i++)
    if (mask >> i & 1)
      idx.push_back(i);
  if (mc::flip())
    std::reverse(idx.begin(), idx.end());
  mc::describe(fmt("general restriction g=%d p=%d q=%d x=%d declared %d: ", g, p, q, x, decl) + mc::join(idx));
  if (decl > n)
    throw mc::Skip();
  std::unique_ptr<VarmaRestriction> r;
  try {
    r = std::make_unique<VarmaRestriction>(z, VarmaRestrictionType::kGeneral, decl);
  } catch (std::exception &) {
  }
  mc::step();
  mc::check((bool)r == (decl > 0), "restriction", "declared number of restrictions");
  if (!r)
    return;
  mc::check(r->IsRestricted, "restriction", "not restricted");
  mc::Guard<double> st(r->StorageSize, 0xff);
  bool threw = false;
  try {
    r->Calculate(st.p, &idx);
  } catch (std::exception &) {
    threw = true;
  }
  mc::check(threw == ((int)idx.size() < decl), "restriction", "fewer restrictions than declared must be rejected, others accepted");
  if (threw)
    return;
  int f = n - (int)idx.size(), c = 0;
  mc::eqi(r->R.RowsCount, n, "restriction", "rows");
  mc::eqi(r->R.ColsCount, f, "restriction", "free coefficients");
  for (int k = 0; k < n; k++) {
    bool zero = mask >> k & 1;
    for (int j = 0; j < f; j++)
      mc::eq(r->R.Get0(k, j), zero ? 0 : j == c, "restriction", fmt("row %d column %d", k, j));
    c += !zero;
  }
  mc::check(st.intact(), "memory", "wrote before its storage");
}
static void arma_form() {
  Ord o = order(2, mc::qt(1, 2), 2, 1, 1, 1);
  if (o.s == 3)
    throw mc::Skip();
  if (!admissible(o))
    throw mc::Skip();
  int g = mc::range(1, 2), x = mc::choose(2), len = mc::pick({0, 1, 2, 3, 5, 8});
  int kind = mc::choose(mc::qt(2, 3));
  mc::describe("moving average form " + str(o) + fmt(" eqs %d exo %d length %d kind %d", g, x, len, kind));
  VarmaSizes z(60, g, x, o.p, o.d, o.q, o.P, o.D, o.Q, o.s, true);
  Ref pi(g, z.NumParamsEq);
  for (int i = 0; i < g; i++)
    for (int j = 0; j < pi.c; j++)
      pi.at(i, j) = kind == 0 ? 0.3 * ((i * 5 + j * 3) % 7 - 3) / 3 : kind == 1 ? 0.1 * (j + 1) - 0.25 * i : (i == j % g ? 1.5 : -0.5);
  PM ar, ma;
  Ref id(g, g), zero(g, g);
  for (int i = 0; i < g; i++)
    id.at(i, i) = 1;
  auto block = [&](int c, double sgn) {
    Ref r(g, g);
    for (int i = 0; i < g; i++)
      for (int j = 0; j < g; j++)
        r.at(i, j) = sgn * pi.at(i, c + j);
    return r;
  };
  auto al = lags(o.p, o.P, o.s), ml = lags(o.q, o.Q, o.s);
  ar.assign((al.empty() ? 0 : al.back()) + 1, zero), ma.assign((ml.empty() ? 0 : ml.back()) + 1, zero);
  ar[0] = ma[0] = id;
  for (size_t i = 0; i < al.size(); i++)
    ar[al[i]] = block((int)i * g, -1);
  for (size_t i = 0; i < ml.size(); i++)
    ma[ml[i]] = block((int)al.size() * g + x + (int)i * g, 1);
  Mat<double> Pi(pi);
  VarmaArma a(z, len);
  mc::Guard<double> st(a.StorageSize, 0xff), wk(a.WorkSize, 0xff);
  PM full = convM(ar, times(diffpoly(o), g));
  // reference: psi_s = ma_s - sum full_j psi_{s-j}
  PM psi;
  for (int s = 0; s < len; s++) {
    Ref r = s < (int)ma.size() ? ma[s] : zero;
    for (int j = 1; j <= s && j < (int)full.size(); j++)
      r = lin(r, 1, dot(full[j], psi[s - j]), -1);
    psi.push_back(r);
  }
  for (int k = 0; k < 2; k++) {
    a.Calculate(Pi.m, st.p, wk.p);
    mc::step();
    mc::check(st.intact() && wk.intact(), "memory", "wrote before its storage");
    sameM(a.Ar, ar, k ? "autoregressive polynomial of a used object" : "autoregressive polynomial");
    sameM(a.Ma, ma, k ? "moving average polynomial of a used object" : "moving average polynomial");
    if (len == 0)
      continue;
    MC_CHECK((int)a.MaInf.Coefficients.size() >= len, "ma-form", "%zu coefficients, asked for %d", a.MaInf.Coefficients.size(), len);
    PM got = get(a.MaInf);
    for (int s = 0; s < len; s++)
      for (int i = 0; i < g; i++)
        for (int j = 0; j < g; j++)
          mc::eq(got[s].at(i, j), psi[s].at(i, j), "ma-form", fmt("response %d (%d,%d)%s", s, i, j, k ? " of a used object" : ""), 1e-8);
  }
}

int main(int argc, char **argv) {
  return mc::harness_main(argc, argv,
                          {
                              {"c23_scalar_multiply", scalar_multiply, "coefficients in {-1,0,1,2}, lengths <= 3, every truncation, used object"},
                              {"c23_scalar_power", scalar_power, "coefficients in {-1,0,1,2}, length <= 3, powers <= 4 (6), every truncation"},
                              {"c23_scalar_trim", scalar_trim, "coefficients in {-1,0,2}, length <= 4"},
                              {"c23_matrix_multiply", matrix_multiply, "sizes 1-3, lengths <= 2 (3), pool of 4 matrices, every truncation"},
                              {"c23_matrix_scalar_multiply", matrix_scalar_multiply, "sizes 1-3, lengths <= 3, every truncation"},
                              {"c23_matrix_inverse", matrix_inverse, "sizes 1-3, lengths <= 3 (4), inverse up to length 5, used object"},
                              {"c23_matrix_data", matrix_data, "sizes 1-2, lengths <= 3, trimmed or not, data given twice"},
                              {"c23_structure", structure, "orders p<=4 (6), d<=2, q<=3 (6), P,D,Q<=2, seasons 0-4, 1-2 equations, 0-2 regressors"},
                              {"c23_differencing", differencing, "d<=3, D<=2, seasons 0,2,3,4, 1-3 rows, every length up to degree+4"},
                              {"c23_restriction_ma_final", restriction_ma_final, "orders <= 2, 1-3 equations"},
                              {"c23_restriction_general", restriction_general, "all subsets of restricted coefficients, up to 8 (12) coefficients"},
                              {"c23_arma_form", arma_form, "orders p,q<=2, d,P,D,Q<=1, seasons 0,1,2,4, lengths 0-8, used object"},
                          });
}
