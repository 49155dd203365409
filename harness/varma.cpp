// C26 (and the time series parts of C08, C09): vector autoregressive moving
// average models, their forecasts and their out-of-sample simulation against
// the recursions written out in long double.
#include "matkit.h"
#include "numkit.h"
#include "statistics.h"
#include "varma.h"
#include <optional>
using namespace ldt;
using namespace mk;
using nk::L;
using nk::M;
using mc::fmt;

// ------------------------------------------------------------------- model --
struct Spec {
  int g = 1, k = 0, p = 0, d = 0, q = 0, P = 0, D = 0, Q = 0, s = 0;
  std::string str() const { return fmt("(%d,%d,%d)(%d,%d,%d)_%d eqs %d exo %d", p, d, q, P, D, Q, s, g, k); }
  static std::vector<int> lags(int a, int A, int s) {
    std::vector<int> o;
    for (int i = 1; i <= a; i++)
      o.push_back(i);
    for (int i = 1; s > 1 && i <= A; i++)
      if (i * s > a)
        o.push_back(i * s);
    return o;
  }
  std::vector<int> ar() const { return lags(p, P, s); }
  std::vector<int> ma() const { return lags(q, Q, s); }
  std::vector<L> diff() const { // (1-B)^d (1-B^s)^D
    std::vector<L> a{1};
    auto mul = [&](int step) {
      std::vector<L> b(a.size() + step, 0);
      for (size_t i = 0; i < a.size(); i++)
        b[i] += a[i], b[i + step] -= a[i];
      a = b;
    };
    for (int i = 0; i < d; i++)
      mul(1);
    for (int i = 0; i < D; i++)
      mul(s);
    return a;
  }
  int arMax() const { return ar().empty() ? 0 : ar().back(); }
  int maMax() const { return ma().empty() ? 0 : ma().back(); }
  int dd() const { return (int)diff().size() - 1; }
  int lead() const { return arMax() + dd(); }
  int f() const { return (int)(ar().size() + ma().size()) * g + k; }
  VarmaSizes sizes(int n) const { return VarmaSizes(n, g, k, p, d, q, P, D, Q, s); }
};
/// n observations (columns) of g series; k regressors with `more` future values
struct Data {
  M y, x;
  std::string str() const { return "y=" + y.str() + (x.r ? " x=" + x.str() : ""); }
};
static Data sample(const Spec &s, int n, int more, int base, double free_) {
  static const double a[5][24] = {
      {1, -2, 3, 0.5, 4, -1, 2.5, 0, -3, 1.5, 2, -0.5, 3.5, 5, -4, 1, 0.25, -1.5, 2, 6, -2, 3, 1, -1},
      {2, 5, 1, 8, 3, 2, 7, 6, 4, 1, 7, 3, 2, 9, 1, 5, 4, 8, 2, 3, 6, 1, 9, 4},
      {100, 102, 99, 104, 97, 103, 101, 98, 105, 100, 96, 107, 99, 101, 103, 95, 102, 98, 104, 100, 106, 97, 101, 99},
      {1, 2, 4, 7, 8, 12, 13, 15, 19, 20, 24, 25, 29, 31, 32, 37, 38, 42, 45, 46, 51, 52, 56, 60},
      {-1, 4, 2, -3, 5, 0.25, -2, 1, 6, -4, 3, 0.75, 2, -1, 0, 8, -5, 2, 1, -3, 4, 0.5, -1, 3}};
  Data o;
  o.y = M(s.g, n), o.x = M(s.k, s.k ? n + more : 0);
  for (int i = 0; i < s.g; i++)
    for (int t = 0; t < n; t++)
      o.y(i, t) = a[(base + 2 * i) % 5][(t + 7 * i) % 24];
  for (int i = 0; i < s.k; i++)
    for (int t = 0; t < n + more; t++)
      o.x(i, t) = i == 0 && base % 2 ? 1 : a[(base + 1 + 3 * i) % 5][(2 * t + 5 * i) % 24];
  o.y(0, n / 2) += free_;
  return o;
}
// ---------------------------------------------------------------- reference --
static M differenced(const Spec &s, const M &y) {
  auto a = s.diff();
  int dd = (int)a.size() - 1;
  M o(y.r, std::max(0, y.c - dd));
  for (int i = 0; i < y.r; i++)
    for (int t = 0; t < o.c; t++)
      for (int j = 0; j <= dd; j++)
        o(i, t) += a[j] * y(i, t + dd - j);
  return o;
}
/// regressors of observation t of the effective sample (t = 0 is the first one
/// with all AR lags), for t beyond the sample with residuals zero
static M regressors(const Spec &s, const M &yd, const M &x, const M &res, int T, int t) {
  M o(s.f(), 1);
  int r = 0;
  for (int l : s.ar())
    for (int i = 0; i < s.g; i++)
      o(r++, 0) = yd(i, s.arMax() + t - l);
  for (int i = 0; i < s.k; i++)
    o(r++, 0) = x(i, s.lead() + t);
  for (int l : s.ma())
    for (int i = 0; i < s.g; i++, r++)
      o(r, 0) = t - l >= 0 && t - l < T ? res(i, t - l) : 0;
  return o;
}
struct Fit {
  bool ok = false;
  int T = 0;
  M coef, res, y, sigma, gvar, Xt;
  L worst = 1;
};
/// residuals of given coefficients by recursion
static void residuals(const Spec &s, const Data &d, int end, Fit &f) {
  M yd = differenced(s, d.y);
  f.T = yd.c - s.arMax() - end;
  f.res = M(s.g, f.T), f.y = M(s.g, f.T), f.Xt = M(f.T, s.f());
  for (int t = 0; t < f.T; t++) {
    M z = regressors(s, yd, d.x, f.res, f.T, t), h = f.coef * z;
    for (int i = 0; i < s.g; i++)
      f.y(i, t) = yd(i, s.arMax() + t), f.res(i, t) = f.y(i, t) - h(i, 0);
    for (int j = 0; j < s.f(); j++)
      f.Xt(t, j) = z(j, 0);
  }
  f.sigma = f.res * f.res.t() * ((L)1 / f.T);
}
/// least squares of a model without moving average part
static Fit ols(const Spec &s, const Data &d, int end) {
  Fit f;
  f.coef = M(s.g, s.f());
  residuals(s, d, end, f);
  M xx = f.Xt.t() * f.Xt, xi;
  f.worst = nk::cond(xx);
  if (!(f.worst < 1e9) || !nk::inverse(xx, xi))
    return f;
  f.coef = f.y * f.Xt * xi;
  residuals(s, d, end, f);
  f.gvar = nk::kron(xi, f.sigma);
  f.ok = true;
  return f;
}
static M column(const M &a, int from, int n) {
  M o(a.r, n);
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < n; j++)
      o(i, j) = a(i, from + j);
  return o;
}
/// forecasts on the original scale for h = 1..H after the end of the sample
static M forecast(const Spec &s, const Data &d, int end, const Fit &f, int H) {
  int n = d.y.c - end;
  M y = column(d.y, 0, n), out(s.g, H);
  auto a = s.diff();
  M x = d.x;
  for (int h = 0; h < H; h++) {
    M yd = differenced(s, y);
    M ext(s.g, yd.c + 1);
    for (int i = 0; i < s.g; i++)
      for (int t = 0; t < yd.c; t++)
        ext(i, t) = yd(i, t);
    M z = regressors(s, ext, x, f.res, f.T, f.T + h), v = f.coef * z;
    M more(s.g, y.c + 1);
    for (int i = 0; i < s.g; i++) {
      for (int t = 0; t < y.c; t++)
        more(i, t) = y(i, t);
      L w = v(i, 0);
      for (size_t j = 1; j < a.size(); j++)
        w -= a[j] * y(i, y.c - (int)j);
      more(i, y.c) = w, out(i, h) = w;
    }
    y = more;
  }
  return out;
}
/// diagonal of the forecast error covariance for h = 1..H: responses of the
/// original series to a single shock, by running the equations themselves
static M variances(const Spec &s, const Fit &f, int H) {
  std::vector<M> psi;
  auto a = s.diff();
  int start = (int)s.ar().size() * s.g + s.k;
  std::vector<M> lv; // levels of differenced series
  for (int h = 0; h < H; h++) {
    M dlt(s.g, s.g);
    if (h == 0)
      dlt = nk::iden(s.g);
    auto block = [&](int c0) {
      M b(s.g, s.g);
      for (int i = 0; i < s.g; i++)
        for (int j = 0; j < s.g; j++)
          b(i, j) = f.coef(i, c0 + j);
      return b;
    };
    auto ar = s.ar(), ma = s.ma();
    for (size_t c = 0; c < ar.size(); c++)
      if (h - ar[c] >= 0)
        dlt = dlt + block((int)c * s.g) * lv[h - ar[c]];
    for (size_t c = 0; c < ma.size(); c++)
      if (h == ma[c])
        dlt = dlt + block(start + (int)c * s.g);
    lv.push_back(dlt);
    M o = dlt;
    for (size_t j = 1; j < a.size(); j++)
      if (h - (int)j >= 0)
        o = o - psi[h - j] * a[j];
    psi.push_back(o);
  }
  M out(s.g, H), acc(s.g, s.g);
  for (int h = 0; h < H; h++) {
    acc = acc + psi[h] * f.sigma * psi[h].t();
    for (int i = 0; i < s.g; i++)
      out(i, h) = acc(i, i);
  }
  return out;
}
// ------------------------------------------------------------------ library --
struct Bufs {
  mc::Guard<double> st, wk;
  Bufs(size_t s, size_t w, unsigned char fill) : st(s, fill), wk(w, fill) {}
  void intact(const char *t = "") { mc::check(st.intact() && wk.intact(), "memory", std::string("wrote before its memory ") + t); }
};
struct Est {
  Mat<double> Y, X;
  std::unique_ptr<Mat<double>> R, r;
  Varma e;
  Bufs b;
  bool threw = false;
  std::string what;
  Est(const Spec &s, const Data &d, int end, bool details, bool varCoefs, const M *R_ = nullptr, const M *r_ = nullptr,
      unsigned char fill = 0xff, int moreN = 0, LimitedMemoryBfgsbOptions *opt = nullptr)
      : Y(nk::ref(d.y)), X(nk::ref(d.x)), R(R_ ? std::make_unique<Mat<double>>(nk::ref(*R_)) : nullptr),
        r(r_ ? std::make_unique<Mat<double>>(nk::ref(*r_)) : nullptr),
        e(s.sizes(d.y.c + moreN), R_ != nullptr, details, varCoefs, opt), b(e.Result.StorageSize, e.Result.WorkSize, fill) {
    try {
      e.EstimateMl(Y.m, s.k ? &X.m : nullptr, b.wk.p, b.st.p, R ? &R->m : nullptr, r ? &r->m : nullptr, end);
    } catch (std::exception &x) {
      threw = true, what = x.what();
    }
    mc::step();
    b.intact("estimation");
  }
};
static bool finite(const Matrix<double> &m) {
  for (int i = 0; i < m.length(); i++)
    if (!std::isfinite(m.Data[i]))
      return false;
  return true;
}
static Fit fitOf(const Spec &s, const Data &d, int end, const Varma &e) {
  Fit f;
  f.coef = nk::get(e.Result.coef);
  residuals(s, d, end, f);
  return f;
}
/// what must hold at whatever coefficients have been estimated
static void consistent(const Spec &s, const Data &d, int end, const Varma &e, const Fit &f, const std::string &t, double tol) {
  MC_CHECK(e.Result.resid.RowsCount == s.g && e.Result.resid.ColsCount == f.T, "sample", "%sresiduals are %dx%d instead of %dx%d",
           t.c_str(), e.Result.resid.RowsCount, e.Result.resid.ColsCount, s.g, f.T);
  nk::same(e.Result.y, f.y, "sample", t + "estimated observations", tol);
  nk::same(e.Result.resid, f.res, "residuals", t + "residuals", tol);
  nk::same(e.Result.Xt, f.Xt, "residuals", t + "explanatory variables", tol);
  nk::same(e.Result.sigma2, f.sigma, "residuals", t + "covariance of residuals", tol);
}
static double tolOf(const Fit &f) { return (double)std::min<L>(1e-4, std::max<L>(1e-8, f.worst * 1e-12)); }
static bool tame(const Data &d, const Fit &f) {
  L m = 0;
  for (L v : f.res.v)
    if (!(std::fabs(v) < 1e6 * (1 + d.y.max())))
      return false;
    else
      m = std::max(m, std::fabs(v));
  return m > 1e-7;
}
/// explosive recursions amplify rounding: compare only where they do not
static bool stable(const Spec &s, const Data &d, int end, const Fit &f) {
  if (!tame(d, f))
    return false;
  Fit h = f;
  h.coef = f.coef * (L)(1 + 1e-12);
  residuals(s, d, end, h);
  return (h.res - f.res).max() < 1e-9L * f.res.max();
}
static Spec drawSpec(int maxg, int maxk, bool moving) {
  Spec s;
  s.g = mc::range(1, maxg), s.k = mc::range(0, maxk);
  s.p = mc::range(0, s.g == 1 ? 2 : mc::qt(1, 2)), s.d = mc::range(0, 2);
  if (moving)
    s.q = mc::range(0, s.g == 1 ? 2 : 1);
  s.s = mc::pick({0, 2, 3});
  if (s.s) {
    s.P = mc::range(0, s.g == 1 ? 2 : 1), s.D = mc::range(0, s.d == 2 ? 0 : 1);
    if (moving)
      s.Q = mc::range(0, 1);
  }
  if (s.p + s.P + s.q + s.Q == 0 || (moving && s.q + s.Q == 0))
    throw mc::Skip();
  if (s.s && s.P + s.D + s.Q == 0) // same as without seasons
    throw mc::Skip();
  return s;
}
static void names(const Spec &s) {
  std::vector<std::string> en, xn, got, want;
  for (int i = 0; i < s.g; i++)
    en.push_back(fmt("y%d", i));
  for (int i = 0; i < s.k; i++)
    xn.push_back(fmt("x%d", i));
  VarmaSizes z = s.sizes(30);
  VarmaStorage::GetExpNames(z, en, xn, got);
  for (int l : s.ar())
    for (auto &n : en)
      want.push_back(n + fmt("(-%d)", l));
  for (auto &n : xn)
    want.push_back(n);
  for (int l : s.ma())
    for (auto &n : en)
      want.push_back(n + fmt(": e(-%d)", l));
  MC_CHECK(got == want, "names", "names of explanatory variables [%s] are not [%s]", mc::join(got).c_str(), mc::join(want).c_str());
}
static void var_fit() {
  Spec s = drawSpec(2, 2, false);
  int T = s.f() + mc::pick({1, 2, 6}), end = mc::pick({0, 1, 3}), n = T + s.lead() + end;
  int base = mc::choose(mc::qt(3, 5));
  bool details = mc::flip();
  int more = details ? 0 : mc::pick({0, 4});
  Data d = sample(s, n, 0, base, mc::pick({0.0, 7.5}));
  mc::describe(s.str() + fmt(" n %d sample end %d declared %d more details %d ", n, end, more, details) + d.str());
  names(s);
  Fit f = ols(s, d, end);
  if (!f.ok)
    throw mc::Skip();
  Est e(s, d, end, details, true, nullptr, nullptr, 0xff, more);
  mc::check(!e.threw, "rejected", "a regular sample is rejected: " + e.what);
  double tol = tolOf(f);
  nk::same(e.e.Result.coef, f.coef, "estimate", "coefficients", tol);
  MC_CHECK(e.e.SampleEnd == end, "sample", "sample end is %d", e.e.SampleEnd);
  if (!tame(d, f))
    return;
  consistent(s, d, end, e.e, f, "", tol);
  nk::same(e.e.Result.gammavar, f.gvar, "covariance", "covariance of coefficients", tol);
  mc::eq(e.e.Result.cn, (double)f.worst, "condition", "condition number", 1e-4);
  L sc = nk::cond(f.sigma);
  if (!details || !(sc < 1e6))
    return;
  L ll = -(L)0.5 * f.T * (s.g * (std::log(2 * M_PI) + 1) + std::log(nk::det(f.sigma)));
  L np = (L)s.g * s.f();
  mc::eq(e.e.Result.LogLikelihood, (double)ll, "likelihood", "log likelihood", 1e-6);
  mc::eq(e.e.Result.Aic, (double)(2 * np - 2 * ll), "likelihood", "AIC", 1e-6);
  mc::eq(e.e.Result.Sic, (double)(std::log((L)f.T) * np - 2 * ll), "likelihood", "SIC", 1e-6);
  Distribution<DistributionType::kT> td(f.T * s.g);
  for (int i = 0; i < s.g * s.f(); i++) {
    double sd = (double)std::sqrt(f.gvar(i, i)), tt = (double)f.coef.v[i] / sd;
    mc::eq(e.e.Result.coefstd.Data[i], sd, "statistics", fmt("standard error %d", i), std::max(1e-6, tol));
    double got = e.e.Result.coeft.Data[i];
    mc::eq(got, e.e.Result.coef.Data[i] / e.e.Result.coefstd.Data[i], "statistics", fmt("t of coefficient %d", i), 1e-9);
    mc::eq(e.e.Result.coefprob.Data[i], 2 * (1 - td.GetCdf(std::fabs(got))), "statistics", fmt("probability of coefficient %d", i), 1e-9);
    (void)tt;
  }
}
// moving average models: whatever the optimizer returns, the results belong to
// the returned coefficients
static L objective(const Fit &f) { return std::log(nk::det(f.res * f.res.t())); }
static void varma_fit() {
  Spec s = drawSpec(2, 1, true);
  int T = s.f() * s.g + mc::pick({3, 7}), end = mc::pick({0, 2}), n = T + s.lead() + end;
  if (s.lead() + s.maMax() > T)
    throw mc::Skip();
  int base = mc::choose(mc::qt(1, 5));
  bool details = mc::flip(), vc = mc::flip();
  Data d = sample(s, n, 0, base, mc::pick({0.0, 7.5}));
  mc::describe(s.str() + fmt(" n %d sample end %d details %d variance %d ", n, end, details, vc) + d.str());
  names(s);
  Est e(s, d, end, details, vc);
  if (e.threw || !finite(e.e.Result.coef))
    throw mc::Skip();
  Fit f = fitOf(s, d, end, e.e);
  if (!stable(s, d, end, f))
    throw mc::Skip();
  consistent(s, d, end, e.e, f, "", 1e-6);
  // least squares regression on lagged residuals is where the search starts
  Fit z;
  z.coef = M(s.g, s.f());
  if (s.p + s.P + s.k == 0) {
    residuals(s, d, end, z);
    if (nk::cond(z.res * z.res.t()) < 1e9)
      MC_CHECK(objective(f) <= objective(z) + 1e-6L, "estimate", "the estimate is worse (%.10Lg) than all parameters zero (%.10Lg)", objective(f),
               objective(z));
  }
  if (details) {
    L np = (L)s.g * s.f();
    mc::eq(e.e.Result.Aic, (double)(2 * np) - 2 * e.e.Result.LogLikelihood, "likelihood", "AIC", 1e-9);
    mc::eq(e.e.Result.Sic, (double)(std::log((L)f.T) * np) - 2 * e.e.Result.LogLikelihood, "likelihood", "SIC", 1e-9);
  }
}
// restrictions coef = R gamma + r
static void var_restricted() {
  Spec s = drawSpec(2, 1, false);
  int m = s.g * s.f();
  if (m > 6)
    throw mc::Skip();
  int mask = mc::choose((1 << m) - 1), base = mc::choose(2);
  std::vector<int> on;
  for (int i = 0; i < m; i++)
    if (!(mask >> i & 1))
      on.push_back(i);
  M R(m, (int)on.size());
  for (size_t j = 0; j < on.size(); j++)
    R(on[j], (int)j) = 1;
  int end = mc::pick({0, 2});
  Data d = sample(s, s.f() + s.lead() + 6 + end, 0, base, 0);
  mc::describe(s.str() + fmt(" restricted, excluded mask %d sample end %d ", mask, end) + d.str());
  Fit u = ols(s, d, end);
  if (!u.ok || !tame(d, u))
    throw mc::Skip();
  Est e(s, d, end, true, mc::flip(), &R);
  mc::check(!e.threw, "rejected", "a regular restricted sample is rejected: " + e.what);
  if (!finite(e.e.Result.coef))
    throw mc::Skip();
  for (int i = 0; i < m; i++)
    if (mask >> i & 1)
      MC_CHECK(e.e.Result.coef.Data[i] == 0, "excluded", "excluded coefficient %d is %g", i, e.e.Result.coef.Data[i]);
  Fit f = fitOf(s, d, end, e.e);
  if (!stable(s, d, end, f))
    throw mc::Skip();
  consistent(s, d, end, e.e, f, "restricted: ", 1e-6);
  // the fit cannot be better than the unrestricted one
  if (nk::cond(u.sigma) < 1e7)
    MC_CHECK(objective(f) >= objective(u) - 1e-6L, "estimate", "restricted fit is better (%.10Lg) than the unrestricted (%.10Lg)", objective(f),
             objective(u));
  if (mask == 0 && nk::cond(u.sigma) < 1e7)
    MC_CHECK(objective(f) <= objective(u) + 1e-3L, "estimate", "fit without exclusions (%.10Lg) is not the unrestricted one (%.10Lg)", objective(f),
             objective(u));
}
// the diagonal moving average restriction
static void varma_mafinal() {
  Spec s;
  s.g = mc::range(1, 3), s.p = mc::range(0, 1), s.q = mc::range(0, 2), s.s = mc::pick({0, 2}), s.k = mc::range(0, 1);
  if (s.s)
    s.Q = mc::range(1, 2);
  if (s.p + s.q + s.Q == 0)
    throw mc::Skip();
  VarmaSizes z = s.sizes(20);
  VarmaRestriction R(z, VarmaRestrictionType::kMaFinal);
  int ml = (int)s.ma().size();
  bool want = s.g > 1 && ml > 0;
  mc::describe(s.str() + " diagonal moving average");
  MC_CHECK(R.IsRestricted == want, "restriction", "restricted is %d", R.IsRestricted);
  if (!want)
    return;
  Bufs b(R.StorageSize, 0, 0xff);
  R.Calculate(b.st.p);
  mc::step();
  b.intact("restriction");
  // parameters: everything before the moving average part is free; each moving
  // average matrix is a multiple of identity
  int first = ((int)s.ar().size() * s.g + s.k) * s.g, cols = first + ml;
  M w(s.g * s.f(), cols);
  for (int i = 0; i < first; i++)
    w(i, i) = 1;
  for (int l = 0; l < ml; l++)
    for (int i = 0; i < s.g; i++)
      w(first + l * s.g * s.g + i * s.g + i, first + l) = 1;
  nk::same(R.R, w, "restriction", "restriction matrix", 0);
  if (s.g > 2 || s.f() > 8)
    return;
  Data d = sample(s, s.f() * s.g + s.lead() + 7, 0, mc::choose(mc::qt(2, 5)), mc::pick({0.0, 7.5}));
  mc::describe(s.str() + " diagonal moving average " + d.str());
  Est e(s, d, 0, true, mc::flip(), &w);
  if (e.threw || !finite(e.e.Result.coef))
    throw mc::Skip();
  M c = nk::get(e.e.Result.coef);
  for (int l = 0; l < ml; l++)
    for (int i = 0; i < s.g; i++)
      for (int j = 0; j < s.g; j++) {
        L v = c(i, first / s.g + l * s.g + j), v0 = c(0, first / s.g + l * s.g);
        MC_CHECK(i == j ? v == v0 : v == 0, "excluded", "moving average matrix %d is not a multiple of identity", l);
      }
  Fit f = fitOf(s, d, 0, e.e);
  if (!stable(s, d, 0, f))
    throw mc::Skip();
  consistent(s, d, 0, e.e, f, "", 1e-6);
}
// ---------------------------------------------------------------- forecasts --
static void grows(const Matrix<double> &v, int from, const std::string &t) {
  for (int i = 0; i < v.RowsCount; i++)
    for (int j = from; j < v.ColsCount; j++) {
      double a = j == from ? 0 : v.Get0(i, j - 1), b = v.Get0(i, j);
      MC_CHECK(b >= a * (1 - 1e-12), "variance", "%sforecast variance of series %d falls from %g to %g at horizon %d", t.c_str(), i, a, b,
               j - from + 1);
    }
}
static void compareForecast(const Spec &s, const Data &d, int end, const Fit &f, const VarmaForecast &fc, int H, bool var, const std::string &t,
                            double tol) {
  int n = d.y.c - end, lead = s.lead();
  MC_CHECK(fc.StartIndex == lead && fc.Forecast.RowsCount == s.g && fc.Forecast.ColsCount == lead + H, "forecast",
           "%sforecasts are %dx%d starting at %d", t.c_str(), fc.Forecast.RowsCount, fc.Forecast.ColsCount, fc.StartIndex);
  M w = forecast(s, d, end, f, H), all(s.g, lead + H);
  for (int i = 0; i < s.g; i++) {
    for (int j = 0; j < lead; j++)
      all(i, j) = d.y(i, n - lead + j);
    for (int h = 0; h < H; h++)
      all(i, lead + h) = w(i, h);
  }
  if (!(all.max() < 1e9 * (1 + d.y.max())))
    return;
  // cells before the forecasts are the last observations; those that have been
  // differenced for lags keep the original values too
  nk::same(fc.Forecast, all, "forecast", t + "forecasts", tol);
  if (!var)
    return;
  M v = variances(s, f, H);
  for (int i = 0; i < s.g; i++)
    for (int h = 0; h < H; h++) {
      mc::eq(fc.Variance.Get0(i, lead + h), (double)v(i, h), "variance", t + fmt("forecast variance of series %d at horizon %d", i, h + 1),
             std::max(tol, 1e-7));
    }
  for (int i = 0; i < s.g; i++)
    for (int j = 0; j < lead; j++)
      mc::check(fc.Variance.Get0(i, j) == 0, "variance", t + "an observation has a variance");
  grows(fc.Variance, lead, t);
}
static void forecasts() {
  bool moving = mc::flip();
  Spec s = drawSpec(2, 1, moving);
  int T = (moving ? s.f() * s.g : s.f()) + 6, end = mc::pick({0, 2}), n = T + s.lead() + end;
  int H = mc::pick({1, 2, 5}), use = mc::choose(2) ? -1 : std::max(1, H - 1);
  bool var = mc::flip();
  if (moving && s.lead() + s.maMax() > T)
    throw mc::Skip();
  int base = mc::choose(mc::qt(1, 4));
  Data d = sample(s, n, H, base, 0);
  mc::describe(s.str() + fmt(" n %d sample end %d horizon %d of %d variance %d ", n, end, use, H, var) + d.str());
  Est e(s, d, end, true, true);
  if (e.threw || !finite(e.e.Result.coef))
    throw mc::Skip();
  Fit f = fitOf(s, d, end, e.e);
  if (!stable(s, d, end, f))
    throw mc::Skip();
  VarmaForecast fc(s.sizes(n), H, var);
  Bufs b(fc.StorageSize, fc.WorkSize, 0xff);
  bool threw = false;
  std::string what;
  try {
    fc.Calculate(e.e, s.k ? &e.X.m : nullptr, &e.Y.m, b.st.p, b.wk.p, use);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact("forecast");
  if (threw) {
    // the library asks for a sample longer than the needed lags
    MC_CHECK(f.T < s.lead(), "rejected", "forecast of a long enough sample is rejected: %s", what.c_str());
    throw mc::Skip();
  }
  compareForecast(s, d, end, f, fc, use == -1 ? H : use, var, "", 1e-6);
}
// forecasts do not need the optional results of the estimation
static void forecasts_lean() {
  bool moving = mc::flip();
  Spec s = drawSpec(2, 1, moving);
  int T = (moving ? s.f() * s.g : s.f()) + 6, n = T + s.lead(), H = 2;
  if (s.lead() + s.maMax() > T)
    throw mc::Skip();
  Data d = sample(s, n, H, mc::choose(mc::qt(2, 4)), 0);
  bool vc = mc::flip();
  mc::describe(s.str() + fmt(" without details, variance of coefficients %d ", vc) + d.str());
  Est e(s, d, 0, false, vc);
  if (e.threw)
    throw mc::Skip();
  if (!finite(e.e.Result.coef))
    throw mc::Skip();
  Fit f = fitOf(s, d, 0, e.e);
  if (!stable(s, d, 0, f))
    throw mc::Skip();
  consistent(s, d, 0, e.e, f, "", 1e-6);
  VarmaForecast fc(s.sizes(n), H, true);
  Bufs b(fc.StorageSize, fc.WorkSize, 0xff);
  std::string what;
  try {
    fc.Calculate(e.e, s.k ? &e.X.m : nullptr, &e.Y.m, b.st.p, b.wk.p);
  } catch (std::exception &x) {
    what = x.what();
  }
  mc::step();
  b.intact("forecast");
  mc::check(what.empty() || f.T < s.lead(), "rejected", "forecast is rejected: " + what);
  if (what.empty())
    compareForecast(s, d, 0, f, fc, H, true, "", 1e-6);
}
// short samples: rejected or right
static void forecasts_short() {
  Spec s;
  s.g = mc::range(1, 2);
  s.p = mc::range(0, 2), s.d = mc::range(0, 1), s.q = mc::range(0, 1), s.s = mc::pick({0, 3, 4});
  if (s.s)
    s.P = mc::range(0, 1), s.D = mc::range(0, 1), s.Q = mc::range(0, 1);
  s.k = mc::range(0, 1);
  if (s.p + s.q + s.P + s.Q == 0)
    throw mc::Skip();
  int T = mc::range(1, 6), end = mc::range(0, 2), n = T + s.lead() + end, H = mc::pick({1, 3});
  Data d = sample(s, n, mc::pick({0, H}), 0, 0);
  mc::describe(s.str() + fmt(" short sample n %d sample end %d horizon %d ", n, end, H) + d.str());
  Est e(s, d, end, true, true);
  if (e.threw || !finite(e.e.Result.coef))
    return;
  Fit f = fitOf(s, d, end, e.e);
  VarmaForecast fc(s.sizes(n), H, true);
  Bufs b(fc.StorageSize, fc.WorkSize, 0xff);
  try {
    fc.Calculate(e.e, s.k ? &e.X.m : nullptr, &e.Y.m, b.st.p, b.wk.p);
  } catch (std::exception &x) {
    mc::step();
    b.intact("forecast");
    return;
  }
  mc::step();
  b.intact("forecast");
  MC_CHECK(!s.k || d.x.c >= n - end + H, "short", "forecasts were made without values of the regressors");
  if (stable(s, d, end, f))
    compareForecast(s, d, end, f, fc, H, true, "", 1e-5);
}
// ----------------------------------------------------------------- extended --
static void extended() {
  bool moving = mc::flip();
  Spec s;
  s.g = mc::range(1, 2), s.k = mc::range(0, 1), s.p = mc::range(moving ? 0 : 1, 1), s.d = mc::range(0, 1), s.q = moving;
  s.s = mc::pick({0, 3});
  if (s.s)
    s.P = 1, s.D = mc::range(0, 1);
  int H = mc::range(0, 3), use = std::max(0, H - mc::choose(2)), end = mc::pick({0, 1, 3});
  int head = mc::choose(2), tailX = s.k ? mc::pick({0, 1, 3}) : mc::choose(2);
  bool check = head + tailX ? true : mc::flip();
  auto rt = mc::flip() ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone;
  bool restricted = rt == VarmaRestrictionType::kMaFinal && s.g > 1 && moving;
  int n = s.f() * s.g + 5 + s.lead() + end;
  Data d = sample(s, n, tailX, mc::choose(mc::qt(1, 5)), 0);
  // columns with missing head of the first series and missing tail of endogenous
  int rows = head + n + tailX;
  M all(rows, s.g + s.k);
  for (int t = 0; t < rows; t++)
    for (int j = 0; j < s.g + s.k; j++) {
      int u = t - head;
      if (j < s.g)
        all(t, j) = u < 0 ? (j == 0 ? NAN : 5) : u < n ? d.y(j, u) : NAN;
      else
        all(t, j) = u < 0 ? 3 : d.x(j - s.g, u);
    }
  mc::describe(s.str() + fmt(" extended: %d rows, head %d, future %d, sample end %d horizon %d of %d check %d restricted %d ", rows, head, tailX, end,
                             use, H, check, restricted) +
               d.str());
  Mat<double> D(nk::ref(all));
  VarmaExtended v(s.sizes(rows), rt, check, true, true, H, nullptr, nullptr, nullptr);
  Bufs b(v.StorageSize, v.WorkSize, 0xff);
  bool threw = false;
  std::string what;
  try {
    v.Calculate(D.m, b.st.p, b.wk.p, false, use, end);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact("extended");
  D.unchanged("input");
  bool futures = !s.k || use == 0 || use <= tailX + end;
  M w;
  if (restricted) {
    int first = ((int)s.ar().size() * s.g + s.k) * s.g;
    w = M(s.g * s.f(), first + 1);
    for (int i = 0; i < first; i++)
      w(i, i) = 1;
    for (int i = 0; i < s.g; i++)
      w(first + i * s.g + i, first) = 1;
  }
  Est e(s, d, end, true, true, restricted ? &w : nullptr);
  if (threw) {
    MC_CHECK(!futures || e.threw || n - s.lead() - end < s.lead(), "rejected", "extended estimation is rejected: %s", what.c_str());
    return;
  }
  mc::check(futures, "short", "forecasts were made without values of the regressors");
  if (e.threw || !finite(e.e.Result.coef)) {
    mc::check(!finite(v.Model.Result.coef), "rejected", "extended estimation accepts what the plain one rejects: " + e.what);
    throw mc::Skip();
  }
  nk::same(v.Model.Result.coef, nk::get(e.e.Result.coef), "estimate", "coefficients against the plain estimation", 1e-9);
  Fit f = fitOf(s, d, end, v.Model);
  if (!stable(s, d, end, f))
    throw mc::Skip();
  consistent(s, d, end, v.Model, f, "extended: ", 1e-6);
  if (use > 0)
    compareForecast(s, d, end, f, v.Forecasts, use, true, "extended: ", 1e-6);
}
// principal components in place of the variables
static void extended_pca() {
  Spec s;
  s.g = mc::range(1, 3), s.k = mc::range(0, mc::qt(2, 3)), s.p = mc::range(0, 1), s.d = mc::range(0, 1), s.q = mc::range(0, 1);
  if (s.p + s.q == 0)
    throw mc::Skip();
  bool py = mc::flip(), px = s.k > 0 && mc::flip();
  if (!py && !px)
    throw mc::Skip();
  PcaAnalysisOptions oy, ox;
  auto draw = [&](PcaAnalysisOptions &o, int n) {
    o.IgnoreFirstCount = mc::range(0, 1);
    if (mc::flip())
      o.ExactCount = mc::range(1, 2), o.CutoffCountMax = o.ExactCount;
    else
      o.ExactCount = 0, o.CutoffRate = mc::pick({0.5, 0.95}), o.CutoffCountMax = mc::range(1, 2);
    if (o.IgnoreFirstCount >= n || (o.ExactCount > n - o.IgnoreFirstCount))
      throw mc::Skip();
  };
  if (py)
    draw(oy, s.g);
  if (px)
    draw(ox, s.k);
  int H = mc::pick({0, 2}), n = s.g * s.f() + 6 + s.lead(), base = mc::choose(mc::qt(1, 4)) * 2;
  Data d = sample(s, n, H, base, 0);
  auto rt = mc::flip() ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone;
  int rows = n + (s.k ? H : 0);
  M all(rows, s.g + s.k);
  for (int t = 0; t < rows; t++)
    for (int j = 0; j < s.g + s.k; j++)
      all(t, j) = j < s.g ? (t < n ? d.y(j, t) : NAN) : d.x(j - s.g, t);
  mc::describe(s.str() + fmt(" components: y %d (ignore %d exact %d rate %g max %d) x %d (ignore %d exact %d rate %g max %d) horizon %d type %d ", py,
                             oy.IgnoreFirstCount, oy.ExactCount, oy.CutoffRate, oy.CutoffCountMax, px, ox.IgnoreFirstCount, ox.ExactCount,
                             ox.CutoffRate, ox.CutoffCountMax, H, (int)rt) +
               d.str());
  Mat<double> D(nk::ref(all));
  std::optional<VarmaExtended> v;
  bool threw = false;
  std::string what;
  v.emplace(s.sizes(rows), rt, true, true, true, H, py ? &oy : nullptr, px ? &ox : nullptr, nullptr);
  Bufs b(v->StorageSize, v->WorkSize, 0xff);
  try {
    v->Calculate(D.m, b.st.p, b.wk.p, false, H, 0);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact("components");
  // reference: components by the analysis class, then the plain estimation
  auto components = [&](M a, const PcaAnalysisOptions &o, const M *fut, M &futOut, bool &ok) {
    int ig = o.IgnoreFirstCount, c = a.c - ig;
    M p(a.r, c), pf(fut ? fut->r : 0, c);
    for (int j = 0; j < c; j++) {
      for (int i = 0; i < a.r; i++)
        p(i, j) = a(i, ig + j);
      for (int i = 0; fut && i < fut->r; i++)
        pf(i, j) = (*fut)(i, ig + j);
    }
    Mat<double> pm(nk::ref(p)), fm(nk::ref(pf));
    PcaAnalysis pca(a.r, c, fut ? fut->r : 0, true, true, true, true);
    Bufs pb(pca.StorageSize, pca.WorkSize, 0xff);
    M out;
    ok = true;
    try {
      pca.Calculate(pm.m, pb.wk.p, pb.st.p, fut ? &fm.m : nullptr);
    } catch (std::exception &) {
      ok = false;
      return a;
    }
    if (pca.DataS.RemovedZeroVar.size()) {
      ok = false;
      return a;
    }
    int cnt = o.ExactCount;
    if (cnt == 0) {
      double s = 0;
      for (cnt = 0; cnt < c; cnt++) {
        s += pca.Stds2Ratios.Data[cnt];
        if (std::fabs(s - o.CutoffRate) < 1e-9)
          ok = false;
        if (s >= o.CutoffRate) {
          cnt++;
          break;
        }
      }
      cnt = std::min(cnt, (int)o.CutoffCountMax);
    }
    out = M(a.r, ig + cnt), futOut = M(fut ? fut->r : 0, ig + cnt);
    for (int j = 0; j < ig + cnt; j++) {
      for (int i = 0; i < a.r; i++)
        out(i, j) = j < ig ? a(i, j) : pca.PCs.Get0(i, j - ig);
      for (int i = 0; fut && i < fut->r; i++)
        futOut(i, j) = j < ig ? (*fut)(i, j) : pca.Forecasts.Get0(i, j - ig);
    }
    return out;
  };
  Spec r = s;
  Data e = d;
  bool ok1 = true, ok2 = true;
  M none, xf;
  M xin(n, s.k), xfut(s.k ? H : 0, s.k);
  for (int j = 0; j < s.k; j++) {
    for (int t = 0; t < n; t++)
      xin(t, j) = d.x(j, t);
    for (int t = 0; t < H; t++)
      xfut(t, j) = d.x(j, n + t);
  }
  xf = xfut;
  if (py)
    e.y = components(d.y.t(), oy, nullptr, none, ok1).t(), r.g = e.y.r;
  if (px) {
    M in = components(xin, ox, H > 0 ? &xfut : nullptr, xf, ok2);
    xin = in;
    r.k = in.c;
  }
  if (!ok1 || !ok2)
    throw mc::Skip();
  e.x = M(r.k, r.k ? n + H : 0);
  for (int j = 0; j < r.k; j++) {
    for (int t = 0; t < n; t++)
      e.x(j, t) = xin(t, j);
    for (int t = 0; t < H; t++)
      e.x(j, n + t) = xf(t, j);
  }
  M w;
  bool restricted = rt == VarmaRestrictionType::kMaFinal && r.g > 1 && r.q;
  if (restricted) {
    int first = ((int)r.ar().size() * r.g + r.k) * r.g;
    w = M(r.g * r.f(), first + 1);
    for (int i = 0; i < first; i++)
      w(i, i) = 1;
    for (int i = 0; i < r.g; i++)
      w(first + i * r.g + i, first) = 1;
  }
  Est pl(r, e, 0, true, true, restricted ? &w : nullptr);
  if (pl.threw) {
    mc::check(threw, "rejected", "components: accepts what the plain estimation rejects: " + pl.what);
    return;
  }
  mc::check(!threw, "rejected", "components: rejected: " + what);
  if (!finite(pl.e.Result.coef))
    throw mc::Skip();
  MC_CHECK(v->Model.Result.coef.RowsCount == r.g && v->Model.Result.coef.ColsCount == r.f(), "estimate", "coefficients are %dx%d instead of %dx%d",
           v->Model.Result.coef.RowsCount, v->Model.Result.coef.ColsCount, r.g, r.f());
  nk::same(v->Model.Result.coef, nk::get(pl.e.Result.coef), "estimate", "coefficients on components", 1e-6);
  Fit f = fitOf(r, e, 0, v->Model);
  if (!stable(r, e, 0, f))
    throw mc::Skip();
  consistent(r, e, 0, v->Model, f, "components: ", 1e-6);
  if (H > 0 && f.T >= r.lead())
    compareForecast(r, e, 0, f, v->Forecasts, H, true, "components: ", 1e-6);
}
// --------------------------------------------------------------- simulation --
static const std::vector<ScoringType> METRICS = {ScoringType::kDirection, ScoringType::kSign,  ScoringType::kMae,  ScoringType::kMape,
                                                 ScoringType::kRmse,      ScoringType::kRmspe, ScoringType::kCrps};
static L score(int m, L act, L fc, L sd, L last) {
  L e = act - fc;
  switch (m) {
  case 0:
    return (act > last && fc > last) || (act < last && fc < last) || (act == last && fc == last);
  case 1:
    return act == 0 || fc == 0 ? 0.5L : (act > 0) == (fc > 0);
  case 2:
    return std::fabs(e);
  case 3:
    return act > 0 ? std::fabs(e) / act : NAN;
  case 4:
    return e * e;
  case 5:
    return act > 0 ? e * e / act / act : NAN;
  default: {
    L z = e / sd, phi = std::exp(-z * z / 2) / std::sqrt(2 * (L)M_PI), P = 0.5L * std::erfc(-z / std::sqrt((L)2));
    return sd * (z * (2 * P - 1) + 2 * phi - 1 / std::sqrt((L)M_PI));
  }
  }
}
struct SimRef {
  M agg;
  int valid = 0, counter = 0;
  bool fuzzy = false;
  std::vector<std::tuple<int, int, int, int>> cells;
};
/// d: the endogenous sample with regressors beyond; count past ends of sample
static SimRef simulate(const Spec &s, const Data &d, int count, const std::vector<int> &hs, const std::vector<int> &ms, const M *R,
                       const std::vector<double> *lambda, bool future, bool restrictDeclared) {
  SimRef o;
  o.agg = M((int)ms.size(), s.g);
  int n = d.y.c;
  for (int se = count; se > 0; se--) {
    int H = std::min(se, hs.back());
    if (H < hs.front())
      continue;
    Est e(s, d, se, true, true, R);
    if (e.threw)
      continue;
    (void)future, (void)restrictDeclared;
    if (!finite(e.e.Result.coef)) {
      o.fuzzy = true;
      continue;
    }
    Fit f = fitOf(s, d, se, e.e);
    if (!stable(s, d, se, f)) {
      o.fuzzy = true;
      continue;
    }
    if (f.T < s.lead())
      continue;
    M w = forecast(s, d, se, f, H), v = variances(s, f, H);
    o.valid++;
    auto back = [&](L z, int i) { return lambda ? (lambda->at(i) == 0 ? std::exp(z) : std::pow(lambda->at(i) * z + 1, 1 / (L)lambda->at(i))) : z; };
    for (int h : hs)
      if (h <= H) {
        o.counter++;
        for (int i = 0; i < s.g; i++) {
          L act = back(d.y(i, n - se - 1 + h), i), fc = back(w(i, h - 1), i), last = back(d.y(i, n - se - 1), i);
          for (size_t m = 0; m < ms.size(); m++) {
            if (ms[m] < 2 && (std::fabs(fc - last) < 1e-6 * (1 + std::fabs(last)) || std::fabs(fc) < 1e-6))
              o.fuzzy = true;
            if (!std::isfinite((double)fc))
              o.fuzzy = true;
            o.agg((int)m, i) += score(ms[m], act, fc, std::sqrt(v(i, h - 1)), last);
          }
        }
      }
  }
  for (size_t m = 0; m < ms.size(); m++)
    for (int i = 0; i < s.g; i++) {
      L &a = o.agg((int)m, i);
      a /= o.counter;
      if (ms[m] == 4 || ms[m] == 5)
        a = std::sqrt(a);
      if (ms[m] == 3 || ms[m] == 5)
        a *= 100;
    }
  return o;
}
static std::vector<int> drawMetrics() {
  switch (mc::choose(mc::qt(4, 9))) {
  case 0:
    return {0, 1, 2, 3, 4, 5, 6};
  case 1:
    return {6};
  case 2:
    return {2, 4};
  case 3:
    return {5, 1};
  case 4:
    return {0};
  case 5:
    return {3};
  case 6:
    return {4};
  case 7:
    return {6, 0};
  default:
    return {1};
  }
}
static std::vector<ScoringType> types(const std::vector<int> &m) {
  std::vector<ScoringType> o;
  for (int i : m)
    o.push_back(METRICS[i]);
  return o;
}
static std::vector<int> drawHorizons() {
  switch (mc::choose(5)) {
  case 0:
    return {1};
  case 1:
    return {1, 2};
  case 2:
    return {2};
  case 3:
    return {1, 3};
  default:
    return {2, 3, 4};
  }
}
static void compareSim(const SimRef &w, const VarmaSimulation &v, const std::vector<int> &ms, int g, double tol) {
  MC_CHECK(v.ValidCounts == w.valid, "scores", "%d valid simulations instead of %d", v.ValidCounts, w.valid);
  if (w.counter == 0)
    return;
  for (size_t m = 0; m < ms.size(); m++)
    for (int i = 0; i < g; i++)
      mc::eq(v.ResultAggs.Get0((int)m, i), (double)w.agg((int)m, i), "scores", fmt("metric %d of series %d", ms[m], i), tol);
}
static void simulation() {
  bool moving = mc::flip();
  Spec s;
  s.g = mc::range(1, 2), s.k = mc::range(0, 1), s.p = mc::range(moving ? 0 : 1, 1), s.d = mc::range(0, 1), s.q = moving;
  s.s = mc::pick({0, 2});
  if (s.s)
    s.P = moving ? 0 : 1, s.D = 1;
  bool restricted = s.g > 1 && moving && mc::flip();
  int count = mc::pick({1, 2, 4});
  auto hs = drawHorizons();
  auto ms = drawMetrics();
  bool prev = !moving && mc::flip();
  int base = mc::choose(mc::qt(2, 5));
  std::vector<double> lam;
  int box = mc::choose(3);
  for (int i = 0; i < s.g; i++)
    lam.push_back(box == 1 ? 1 : 0.5);
  if (box)
    ms.erase(std::remove(ms.begin(), ms.end(), 6), ms.end());
  if (ms.empty() || (box && base % 5 != 1 && base % 5 != 2 && base % 5 != 3))
    throw mc::Skip();
  int n = s.f() * s.g + 4 + s.lead() + count + (moving ? 2 : 0);
  Data d = sample(s, n, 0, base, 0);
  mc::describe(s.str() + fmt(" simulation n %d count %d horizons %s metrics %s restricted %d previous %d box %d ", n, count, mc::join(hs).c_str(),
                             mc::join(ms).c_str(), restricted, prev, box) +
               d.str());
  M R;
  if (restricted) {
    int first = ((int)s.ar().size() * s.g + s.k) * s.g;
    R = M(s.g * s.f(), first + 1);
    for (int i = 0; i < first; i++)
      R(i, i) = 1;
    for (int i = 0; i < s.g; i++)
      R(first + i * s.g + i, first) = 1;
  }
  SimRef w = simulate(s, d, count, hs, ms, restricted ? &R : nullptr, box ? &lam : nullptr, false, true);
  if (w.fuzzy)
    throw mc::Skip();
  auto ty = types(ms);
  std::vector<Ti> h2(hs.begin(), hs.end());
  VarmaSizes z = s.sizes(n);
  VarmaSimulation v(z, count, h2, ty);
  Bufs b(v.StorageSize, v.WorkSize, 0xff);
  Mat<double> Y(nk::ref(d.y)), X(nk::ref(d.x)), Rm(nk::ref(R));
  bool cancel = false, threw = false;
  std::string what;
  try {
    v.Calculate(b.st.p, b.wk.p, Y.m, cancel, s.k ? &X.m : nullptr, restricted ? &Rm.m : nullptr, nullptr, prev, 1e12, 2, false, INT32_MAX,
                box ? &lam : nullptr);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact("simulation");
  Y.unchanged("input");
  if (threw) {
    MC_CHECK(w.counter == 0, "rejected", "simulation is rejected: %s", what.c_str());
    return;
  }
  compareSim(w, v, ms, s.g, moving ? 1e-5 : 1e-6);
}
static void simulation_extended() {
  bool moving = mc::flip();
  Spec s;
  s.g = mc::range(1, 2), s.k = mc::range(0, 1), s.p = mc::range(moving ? 0 : 1, 1), s.d = mc::range(0, 1), s.q = moving;
  s.s = 0;
  auto rt = mc::flip() ? VarmaRestrictionType::kMaFinal : VarmaRestrictionType::kNone;
  bool restricted = rt == VarmaRestrictionType::kMaFinal && s.g > 1 && moving;
  int count = mc::pick({1, 3}), head = mc::choose(2), tail = mc::choose(2);
  auto hs = drawHorizons();
  auto ms = drawMetrics();
  int base = mc::choose(mc::qt(1, 5));
  int n = s.f() * s.g + 4 + s.lead() + count + (moving ? 2 : 0);
  Data d = sample(s, n, tail, base, 0);
  int rows = head + n + tail;
  M all(rows, s.g + s.k);
  for (int t = 0; t < rows; t++)
    for (int j = 0; j < s.g + s.k; j++) {
      int u = t - head;
      if (j < s.g)
        all(t, j) = u < 0 ? (j == 0 ? NAN : 5) : u < n ? d.y(j, u) : NAN;
      else
        all(t, j) = u < 0 ? 3 : d.x(j - s.g, u);
    }
  mc::describe(s.str() + fmt(" extended simulation rows %d head %d tail %d count %d horizons %s metrics %s restricted %d ", rows, head, tail, count,
                             mc::join(hs).c_str(), mc::join(ms).c_str(), restricted) +
               d.str());
  M R;
  if (restricted) {
    int first = ((int)s.ar().size() * s.g + s.k) * s.g;
    R = M(s.g * s.f(), first + 1);
    for (int i = 0; i < first; i++)
      R(i, i) = 1;
    for (int i = 0; i < s.g; i++)
      R(first + i * s.g + i, first) = 1;
  }
  SimRef w = simulate(s, d, count, hs, ms, restricted ? &R : nullptr, nullptr, false, true);
  if (w.fuzzy)
    throw mc::Skip();
  auto ty = types(ms);
  std::vector<Ti> h2(hs.begin(), hs.end());
  VarmaSizes z = s.sizes(rows);
  VarmaSimulation v(z, count, h2, ty, nullptr, true, rt, true);
  v.KeepDetails = mc::flip();
  Bufs b(v.StorageSize, v.WorkSize, 0xff);
  Mat<double> D(nk::ref(all));
  bool threw = false;
  std::string what;
  try {
    v.CalculateE(b.st.p, b.wk.p, D.m);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact("simulation");
  D.unchanged("input");
  mc::check(!threw, "rejected", "simulation is rejected: " + what);
  compareSim(w, v, ms, s.g, moving ? 1e-5 : 1e-6);
  if (v.KeepDetails) {
    size_t want = (size_t)w.counter * ms.size() * s.g;
    MC_CHECK(v.Details.size() == want, "scores", "%zu details instead of %zu", v.Details.size(), want);
    for (auto &t : v.Details) {
      int se = std::get<0>(t), h = std::get<2>(t), i = std::get<3>(t);
      MC_CHECK(std::get<4>(t) == (double)d.y(i, n - se - 1) && std::get<5>(t) == (double)d.y(i, n - se - 1 + h), "scores",
               "details of series %d, sample end %d, horizon %d have last %g and actual %g", i, se, h, std::get<4>(t), std::get<5>(t));
      mc::eq(std::get<7>(t), std::get<5>(t) - std::get<6>(t), "scores", "forecast error in details", 1e-12);
    }
  }
}
int main(int argc, char **argv) {
  using mc::Scenario;
  return mc::harness_main(
      argc, argv,
      {
          {"c26_var", var_fit, "all orders p<=2 d<=2 P<=2 D<=1 seasons 0,2,3 x 1-2 equations x 0-2 regressors x lengths x sample ends x data sets"},
          {"c26_varma", varma_fit, "all orders with q<=2 Q<=1 x 1-2 equations x lengths x sample ends x options"},
          {"c26_restricted", var_restricted, "all exclusions of up to 6 coefficients"},
          {"c26_mafinal", varma_mafinal, "all orders x 1-3 equations, restriction matrices and fits"},
          {"c26_forecast", forecasts, "all orders x horizons x sample ends, forecasts and variances"},
          {"c26_lean", forecasts_lean, "all orders, estimates without details"},
          {"c26_short", forecasts_short, "all orders x effective samples of 1-6 observations"},
          {"c26_extended", extended, "all missing heads and futures x sample ends x horizons x restrictions"},
          {"c26_pca", extended_pca, "all component options of up to 3 series and 3 regressors"},
          {"c26_sim", simulation, "all horizons x counts x metric lists x restrictions x transformations"},
          {"c26_simext", simulation_extended, "all horizons x counts x metric lists x missing edges"},
      });
}
