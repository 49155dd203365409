// C24 (and the linear parts of C08, C09): least squares, generalized least
// squares and systems of equations against their normal equations.
#include "matkit.h"
#include "numkit.h"
#include "statistics.h"
#include "sur.h"
#include <optional>
using namespace ldt;
using namespace mk;
using nk::L;
using nk::M;
using mc::fmt;

// ------------------------------------------------------------------- data --
struct Data {
  M x, y;
  std::string name;
};
/// a base sample with some free cells
static Data sample(int N, int m, int k, int base, const std::vector<double> &freeY, bool konst) {
  static const double a[6][16] = {
      {1, -2, 3, 0.5, 4, -1, 2.5, 0, -3, 1.5, 2, -0.5, 3.5, 5, -4, 1},
      {2, 5, 1, 8, -3, 2, 0, 6, 4, -1, 7, 3, -2, 9, 1, 0},
      {100, 102, 99, 104, 97, 103, 101, 98, 105, 100, 96, 107, 99, 101, 103, 95},
      {0, 1, 0, 1, 1, 0, 0, 1, 1, 1, 0, 0, 1, 0, 1, 0},
      {-1, 4, 2, -3, 5, 0.25, -2, 1, 6, -4, 3, 0.75, 2, -1, 0, 8},
      {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};
  Data d;
  d.x = M(N, k), d.y = M(N, m);
  for (int i = 0; i < N; i++) {
    for (int j = 0; j < k; j++)
      d.x(i, j) = konst && j == 0 ? 1 : a[(base + j) % 6][(i * (1 + base / 6) + 3 * j) % 16];
    for (int j = 0; j < m; j++)
      d.y(i, j) = a[(base + 3 + 2 * j) % 6][(i + 5 * j) % 16];
  }
  for (size_t i = 0; i < freeY.size(); i++)
    d.y((int)(i * 2) % N, (int)i % m) = freeY[i];
  return d;
}
static std::string show(const Data &d) { return "x=" + d.x.str() + " y=" + d.y.str(); }

// -------------------------------------------------------------- reference --
static const double LN2PI = std::log(2 * M_PI);
struct Fit {
  bool ok = false;
  M beta, gamma, gvar, yhat, resid, s;
  L ll = 0, aic = 0, sic = 0, hqic = 0, r2 = 0;
  M std_;
  L worst = 1; // conditioning of everything inverted
};
static void finish(const Data &d, Fit &f, const M *R) {
  int N = d.y.r, m = d.y.c, k = d.x.c;
  f.yhat = d.x * f.beta;
  f.resid = d.y - f.yhat;
  f.s = f.resid.t() * f.resid * ((L)1 / N);
  L dt = m == 0 ? 1 : nk::det(f.s);
  f.ll = -(L)0.5 * N * (m * LN2PI + std::log(dt)) - (L)0.5 * m * N;
  L km = (L)k * m;
  f.aic = 2 * km - 2 * f.ll;
  f.sic = std::log((L)N) * km - 2 * f.ll;
  f.hqic = 2 * std::log(std::log((L)N)) * km - 2 * f.ll;
  L sy = 0, sr = 0;
  for (int j = 0; j < m; j++) {
    L mu = 0;
    for (int i = 0; i < N; i++)
      mu += d.y(i, j) / N;
    for (int i = 0; i < N; i++)
      sy += (d.y(i, j) - mu) * (d.y(i, j) - mu), sr += f.resid(i, j) * f.resid(i, j);
  }
  f.r2 = 1 - sr / sy;
  f.worst = std::max(f.worst, nk::cond(f.s));
  (void)R;
}
static void stderrs(Fit &f, int k, int m, const M *R) {
  M g = R ? *R * f.gvar * R->t() : f.gvar;
  f.std_ = M(k, m);
  for (int i = 0; i < k * m; i++)
    f.std_.v[i] = std::sqrt(g(i, i));
}
static Fit unrestricted(const Data &d) {
  Fit f;
  M xx = d.x.t() * d.x, xi;
  f.worst = nk::cond(xx);
  if (!(f.worst < 1e10) || !nk::inverse(xx, xi))
    return f;
  f.beta = xi * (d.x.t() * d.y);
  f.gamma = f.beta.vec();
  finish(d, f, nullptr);
  f.gvar = nk::kron(f.s, xi);
  stderrs(f, d.x.c, d.y.c, nullptr);
  f.ok = true;
  return f;
}
/// feasible generalized least squares of vec(y) with beta = R gamma, given the
/// covariance of the unrestricted step (or of the last step of a search)
static Fit restricted(const Data &d, const M &R, const M &s0) {
  Fit f;
  M si;
  int k = d.x.c, m = d.y.c;
  f.worst = nk::cond(s0);
  if (!(f.worst < 1e8) || !nk::inverse(s0, si))
    return f;
  M A = R.t() * nk::kron(si, d.x.t() * d.x) * R, Ai;
  f.worst = std::max(f.worst, nk::cond(A));
  if (!(f.worst < 1e10) || !nk::inverse(A, Ai))
    return f;
  f.gamma = Ai * (R.t() * nk::kron(si, d.x.t()) * d.y.vec());
  M b = R * f.gamma;
  f.beta = M(k, m);
  f.beta.v = b.v;
  f.gvar = Ai;
  finish(d, f, &R);
  stderrs(f, k, m, &R);
  f.ok = true;
  return f;
}
static double tprob(double t, double df) {
  // two-sided, by the incomplete beta function through boost
  return 2 * (1 - Distribution<DistributionType::kT>(df).GetCdf(std::fabs(t)));
}
static void compare(const Sur &e, const Data &d, const Fit &f, const M *R, bool details, const std::string &t) {
  int N = d.y.r, m = d.y.c, k = d.x.c;
  L scale = std::max<L>(1, f.worst);
  double tol = (double)std::min<L>(1e-4, std::max<L>(1e-8, scale * 1e-13));
  nk::same(e.beta, f.beta, "estimate", t + "coefficients", tol);
  nk::same(e.gamma, f.gamma, "estimate", t + "estimated parameters", tol);
  nk::same(e.gamma_var, f.gvar, "covariance", t + "covariance of the parameters", tol);
  nk::same(e.yhat, f.yhat, "estimate", t + "fitted values", tol);
  nk::same(e.resid, f.resid, "estimate", t + "residuals", tol);
  nk::same(e.resid_var, f.s, "covariance", t + "covariance of the residuals", tol);
  if (R)
    for (int i = 0; i < k * m; i++) {
      bool zero = true;
      for (int j = 0; j < R->c; j++)
        zero &= (*R)(i, j) == 0;
      if (zero)
        MC_CHECK(e.beta.Data[i] == 0, "excluded", "%sexcluded coefficient %d is %g", t.c_str(), i, e.beta.Data[i]);
    }
  // logarithms of determinants lose digits of a nearly exact fit
  double lt = 1e-6 + 1e-12 * (double)f.worst;
  if (!(f.worst < 1e7))
    return;
  mc::eq(e.logLikelihood, (double)f.ll, "likelihood", t + "log likelihood", lt);
  if (!details)
    return;
  mc::eq(e.Aic, (double)f.aic, "likelihood", t + "AIC", lt);
  mc::eq(e.Sic, (double)f.sic, "likelihood", t + "SIC", lt);
  mc::eq(e.Hqic, (double)f.hqic, "likelihood", t + "HQIC", lt);
  mc::eq(e.r2, (double)f.r2, "statistics", t + "R2", 1e-6);
  // F is that of R2 and of its own degrees of freedom
  double F = (e.r2 / e.f_prob_d1) / ((1 - e.r2) / e.f_prob_d2);
  mc::eq(e.f, F, "statistics", t + "F", 1e-6);
  if (F > 0)
    mc::eq(e.f_prob, 1 - Distribution<DistributionType::kF>(e.f_prob_d1, e.f_prob_d2).GetCdf(F), "statistics", t + "probability of F", 1e-6);
  for (int i = 0; i < k * m; i++) {
    double s = e.e_beta_std.Data[i], w = (double)f.std_.v[i];
    mc::eq(s, w, "statistics", t + fmt("standard error %d", i), std::max(1e-6, tol));
    if (w == 0) {
      mc::check(std::isnan(e.e_beta_t.Data[i]) && std::isnan(e.e_beta_prob.Data[i]), "statistics", t + "test of an excluded coefficient");
      continue;
    }
    double tt = e.beta.Data[i] / s;
    mc::eq(e.e_beta_t.Data[i], tt, "statistics", t + fmt("t of coefficient %d", i), 1e-9);
    mc::eq(e.e_beta_prob.Data[i], tprob(tt, N), "statistics", t + fmt("probability of coefficient %d", i), 1e-7);
  }
}
struct Bufs {
  mc::Guard<double> st, wk;
  Bufs(size_t s, size_t w, unsigned char fill) : st(s, fill), wk(w, fill) {}
  void intact(const char *t = "") { mc::check(st.intact() && wk.intact(), "memory", std::string("wrote before its memory ") + t); }
};
static std::vector<int> perm(int n, int idx) {
  std::vector<int> p(n);
  for (int i = 0; i < n; i++)
    p[i] = i;
  while (idx-- > 0 && std::next_permutation(p.begin(), p.end()))
    ;
  return p;
}
static Data reorder(const Data &d, const std::vector<int> &p) {
  Data o = d;
  for (int i = 0; i < d.x.r; i++) {
    for (int j = 0; j < d.x.c; j++)
      o.x(i, j) = d.x(p[i], j);
    for (int j = 0; j < d.y.c; j++)
      o.y(i, j) = d.y(p[i], j);
  }
  return o;
}
/// an estimate of exactly the declared size in guarded memory full of `fill`
struct Est {
  Mat<double> Y, X;
  std::unique_ptr<Mat<double>> R;
  Sur e;
  Bufs b;
  bool threw = false;
  std::string what;
  Est(const Data &d, const M *r, bool details, int sig, double prob, unsigned char fill = 0xff, int moreN = 0)
      : Y(nk::ref(d.y)), X(nk::ref(d.x)), R(r ? std::make_unique<Mat<double>>(nk::ref(*r)) : nullptr),
        e(d.y.r + moreN, d.y.c, d.x.c, r != nullptr, details, sig), b(e.StorageSize, e.WorkSize, fill) {
    run(prob);
  }
  void run(double prob) {
    threw = false;
    try {
      e.Calculate(Y.m, X.m, b.st.p, b.wk.p, R ? &R->m : nullptr, prob);
    } catch (std::exception &x) {
      threw = true, what = x.what();
    }
    mc::step();
    b.intact();
  }
};

// -------------------------------------------------------------- scenarios --
static M selection(int km, int mask) {
  std::vector<int> on;
  for (int i = 0; i < km; i++)
    if (!(mask >> i & 1))
      on.push_back(i);
  M R(km, (int)on.size());
  for (size_t j = 0; j < on.size(); j++)
    R(on[j], (int)j) = 1;
  return R;
}
static Data drawTiny() { // every 0/1/2 sample
  int N = mc::range(2, mc::qt(4, 5)), k = mc::range(1, 2);
  Data d;
  d.x = M(N, k), d.y = M(N, 1);
  for (int i = 0; i < N; i++) {
    d.x(i, 0) = k == 1 ? mc::choose(3) : 1;
    if (k == 2)
      d.x(i, 1) = mc::choose(3);
    d.y(i, 0) = mc::pick({-1.0, 0.0, 2.5});
  }
  return d;
}
static void sur_tiny() {
  Data d = drawTiny();
  mc::describe("one equation " + show(d));
  Fit f = unrestricted(d);
  bool exact = !f.ok || f.s.max() < 1e-12;
  Est e(d, nullptr, true, 0, 0);
  if (exact)
    return;
  mc::check(!e.threw, "rejected", "a regular sample is rejected: " + e.what);
  compare(e.e, d, f, nullptr, true, "");
}
static Data drawBase(int maxm, int maxk, int free_) {
  int m = mc::range(1, maxm), k = mc::range(1, maxk), N = m + k + mc::pick({2, 4, 8});
  int base = mc::choose(mc::qt(6, 12));
  std::vector<double> fr;
  for (int i = 0; i < free_; i++)
    fr.push_back(mc::pick({-3.0, 0.0, 7.5}));
  return sample(N, m, k, base, fr, mc::flip());
}
static void sur_unrestricted() {
  Data d = drawBase(3, 3, mc::qt(1, 2));
  bool details = mc::flip();
  int more = mc::pick({0, 3});
  mc::describe(fmt("details %d declared %d more ", details, more) + show(d));
  Fit f = unrestricted(d);
  if (!f.ok)
    throw mc::Skip();
  Est e(d, nullptr, details, 0, 0, 0xff, more);
  if (f.s.max() < 1e-9)
    return;
  mc::check(!e.threw, "rejected", "a regular sample is rejected: " + e.what);
  compare(e.e, d, f, nullptr, details, "");
}
static void sur_selection() {
  int m = mc::range(1, 3), k = mc::range(1, m == 3 ? 2 : 3), N = m + k + mc::pick({3, 7});
  int base = mc::choose(mc::qt(3, 6));
  Data d = sample(N, m, k, base, {mc::pick({-3.0, 7.5})}, base % 2);
  int mask = mc::choose((1 << (m * k)) - 1);
  bool details = mc::flip();
  mc::describe(fmt("excluded mask %d details %d ", mask, details) + show(d));
  Fit u = unrestricted(d);
  if (!u.ok || u.s.max() < 1e-9)
    throw mc::Skip();
  M R = selection(m * k, mask);
  Fit f = restricted(d, R, u.s);
  if (!f.ok)
    throw mc::Skip();
  Est e(d, &R, details, 0, 0);
  mc::check(!e.threw, "rejected", "a regular restricted sample is rejected: " + e.what);
  compare(e.e, d, f, &R, details, "restricted: ");
  // without excluding anything the restricted estimate is the plain one
  if (mask == 0)
    compare(e.e, d, u, nullptr, details, "no restriction: ");
}
static void sur_general() { // any linear restriction
  int m = mc::range(1, 2), k = 2, N = 9, km = m * k;
  int q = mc::range(1, km), base = mc::choose(3);
  M R(km, q);
  int cells = std::min(km * q, mc::qt(4, 6));
  for (int c = 0; c < km * q; c++)
    R.v[c] = c < cells ? mc::pick({0.0, 1.0, -2.0}) : ((c * 7 + 3) % 5) / 2.0 - 1;
  Data d = sample(N, m, k, base, {2.5}, false);
  mc::describe("R=" + R.str() + " " + show(d));
  Fit u = unrestricted(d);
  if (!u.ok)
    throw mc::Skip();
  Fit f = restricted(d, R, u.s);
  if (!f.ok)
    throw mc::Skip();
  Est e(d, &R, true, 0, 0);
  mc::check(!e.threw, "rejected", "a regular restricted sample is rejected: " + e.what);
  compare(e.e, d, f, &R, true, "general restriction: ");
}
static void sur_search() {
  int m = mc::range(1, 2), k = mc::range(1, 3), N = 12;
  int base = mc::choose(mc::qt(6, 12)), iters = mc::range(1, 4);
  double prob = mc::pick({1e-6, 0.05, 0.3, 0.7});
  Data d = sample(N, m, k, base, {mc::pick({-3.0, 0.0, 7.5}), mc::pick({1.0, 30.0})}, mc::flip());
  mc::describe(fmt("significance search %d iterations p %g ", iters, prob) + show(d));
  int km = m * k;
  Fit f = unrestricted(d);
  if (!f.ok || f.s.max() < 1e-9)
    throw mc::Skip();
  // reference search
  M R(km, km);
  bool none = false, haveR = false, tie = false;
  int left = km, done = 0;
  M cur;
  for (done = 0; done < iters; done++) {
    std::vector<int> keep;
    for (int i = 0; i < km; i++) {
      double s = (double)f.std_.v[i];
      if (s == 0)
        continue;
      double p = tprob((double)f.beta.v[i] / s, N);
      tie |= std::fabs(p - prob) < 1e-9;
      if (p <= prob)
        keep.push_back(i);
    }
    if ((int)keep.size() == left)
      break;
    left = (int)keep.size();
    if (left == 0) {
      none = true;
      break;
    }
    cur = M(km, left);
    for (int j = 0; j < left; j++)
      cur(keep[j], j) = 1;
    haveR = true;
    f = restricted(d, cur, f.s);
    if (!f.ok)
      throw mc::Skip();
  }
  if (tie)
    throw mc::Skip();
  Est e(d, &R, true, iters, prob);
  mc::check(e.threw == none, "search", none ? "a search without any significant coefficient does not fail" : "the search fails: " + e.what);
  if (none)
    return;
  compare(e.e, d, f, haveR ? &cur : nullptr, true, "significance search: ");
  mc::eqi(e.e.mSigSearchIter, done, "search", "number of iterations");
}
static void sur_reorder() {
  int m = mc::range(1, 2), k = 2, N = mc::qt(5, 6);
  int base = mc::choose(3), p = mc::choose(N == 5 ? 120 : 720);
  int mode = mc::choose(3);
  Data d = sample(N, m, k, base, {}, mode == 1);
  Data o = reorder(d, perm(N, p));
  mc::describe(fmt("order %d mode %d ", p, mode) + show(d));
  M R = selection(m * k, 1);
  Fit f = unrestricted(d);
  if (!f.ok || f.worst > 1e6 || f.s.max() < 1e-9)
    throw mc::Skip();
  Est a(d, mode == 2 ? &R : nullptr, true, 0, 0), b(o, mode == 2 ? &R : nullptr, true, 0, 0);
  mc::check(a.threw == b.threw, "reorder", "only one of the orders is accepted");
  if (a.threw)
    return;
  nk::same(b.e.beta, nk::get(a.e.beta), "reorder", "coefficients", 1e-7);
  nk::same(b.e.gamma_var, nk::get(a.e.gamma_var), "reorder", "covariance", 1e-6);
  mc::eq(b.e.logLikelihood, a.e.logLikelihood, "reorder", "log likelihood", 1e-6);
  mc::eq(b.e.r2, a.e.r2, "reorder", "R2", 1e-6);
}
static void sur_collinear() {
  // equations that are multiples of each other have no inverse covariance
  int k = 2, N = 8, base = mc::choose(6), mult = mc::pick({1, -1, 2});
  int mask = mc::choose(15);
  Data d = sample(N, 2, k, base, {}, mc::flip());
  bool konst = mc::flip();
  for (int i = 0; i < N; i++)
    d.y(i, 1) = konst ? d.x(i, 0) : d.y(i, 0) * mult;
  mc::describe(fmt("dependent equations, mask %d ", mask) + show(d));
  M R = selection(4, mask);
  Fit u = unrestricted(d);
  if (!u.ok)
    throw mc::Skip();
  // only when elimination of the covariance is exactly singular
  Est un(d, nullptr, false, 0, 0);
  if (un.threw)
    return;
  M s = nk::get(un.e.resid_var);
  bool singular = (s(0, 0) == 0 && s(1, 1) == 0) || (double)s(1, 1) - (double)s(1, 0) / (double)s(0, 0) * (double)s(0, 1) == 0;
  if (!singular)
    throw mc::Skip();
  Est e(d, &R, true, 0, 0);
  if (e.threw)
    return; // rejected, as it should be
  // an answer must be an estimate all the same: residuals and projections agree
  M res = d.y - d.x * nk::get(e.e.beta);
  nk::same(e.e.resid, res, "estimate", "residuals", 1e-8);
  mc::check(false, "singular", "a singular covariance of the equations was inverted");
}
static void sur_sizes() {
  // inputs that do not fit the declared sizes are rejected
  int N = mc::range(4, 6), m = mc::range(1, 2), k = mc::range(1, 2);
  int N0 = mc::range(3, 7), m0 = mc::range(1, 2), k0 = mc::range(1, 3);
  bool details = mc::flip(), restr = mc::flip(), sig = mc::flip();
  int rr = mc::choose(4); // shape of R
  Data d = sample(N, m, k, 1, {}, true);
  mc::describe(fmt("declared %dx%dx%d details %d restricted %d search %d R %d ", N0, m0, k0, details, restr, sig, rr) + show(d));
  Sur e(N0, m0, k0, restr, details, sig ? 2 : 0), full(N, m, k, restr, details, sig ? 2 : 0);
  Mat<double> Y(nk::ref(d.y)), X(nk::ref(d.x));
  Bufs b(e.StorageSize, e.WorkSize, 0xff);
  int km = m * k;
  bool isr = restr || sig;
  Ref R(rr == 0 ? km : rr == 1 ? km + 1 : km, rr == 2 ? km + 1 : km);
  for (int i = 0; i < km && i < R.c; i++)
    R.at(i, i) = 1;
  Mat<double> RR(R);
  bool fits = full.StorageSize <= e.StorageSize && full.WorkSize <= e.WorkSize;
  bool shape = !isr || (rr == 0);
  bool threw = false;
  std::string what;
  try {
    e.Calculate(Y.m, X.m, b.st.p, b.wk.p, isr && rr != 3 ? &RR.m : nullptr, sig ? 0.99 : 0);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact();
  if (!fits || !shape)
    mc::check(threw, "sizes", "an input that does not fit is not rejected");
}

static M newrows(int n, int k, int kind) {
  M o(n, k);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < k; j++)
      o(i, j) = kind == 0 ? 0 : kind == 1 ? (i + 1) * (j - 1) + 0.5 : 3 * ((i + 2 * j) % 3) - 2;
  return o;
}
static void projection() {
  int m = mc::range(1, 2), k = mc::range(1, 3), N = 10, n = mc::range(1, 3), kind = mc::choose(3);
  int base = mc::choose(3), declared = n + mc::choose(2);
  bool var = mc::flip(), restr = mc::flip();
  int mask = restr ? mc::choose((1 << (m * k)) - 1) : 0;
  Data d = sample(N, m, k, base, {2.5}, base == 1);
  mc::describe(fmt("projection of %d rows kind %d variance %d restricted %d mask %d ", n, kind, var, restr, mask) + show(d));
  M R = selection(m * k, mask);
  Fit f = unrestricted(d);
  if (f.ok && restr)
    f = restricted(d, R, f.s);
  if (!f.ok)
    throw mc::Skip();
  Est e(d, restr ? &R : nullptr, false, 0, 0);
  mc::check(!e.threw, "rejected", "a regular sample is rejected: " + e.what);
  M nx = newrows(n, k, kind);
  Mat<double> NX(nk::ref(nx));
  SurProjection p(declared, m, k, restr, var);
  Bufs b(p.StorageSize, p.WorkSize, 0xff);
  for (int rep = 0; rep < 2; rep++) {
    p.Calculate(e.e, NX.m, b.st.p, b.wk.p);
    mc::step();
    b.intact();
    L scale = std::max<L>(1, f.worst);
    double tol = (double)std::max<L>(1e-8, scale * 1e-13);
    nk::same(p.Means, nx * f.beta, "projection", "projected means", tol);
    if (var) {
      M v(n, m), cov;
      for (int i = 0; i < n; i++) {
        M row(k, 1);
        for (int j = 0; j < k; j++)
          row(j, 0) = nx(i, j);
        M z = nk::kron(nk::iden(m), row); // km x m
        M g = restr ? R * f.gvar * R.t() : f.gvar;
        cov = z.t() * g * z + f.s;
        for (int j = 0; j < m; j++)
          v(i, j) = cov(j, j);
      }
      nk::same(p.Variances, v, "projection", "projection variances", tol);
      nk::same(p.Covariance, cov, "projection", "covariance of the last projection", tol);
    }
  }
}
/// the extended estimator: missing values, new rows
static void extended() {
  int m = mc::range(1, 2), k = mc::range(1, 2), N = 9, base = mc::choose(3);
  int nan = mc::choose(64), n = mc::choose(3);
  bool checkNan = mc::flip(), restr = mc::flip(), var = mc::flip(), details = mc::flip();
  if (!checkNan && nan)
    throw mc::Skip();
  if (n == 0 && var)
    throw mc::Skip();
  Data d = sample(N, m, k, base, {2.5}, true);
  mc::describe(fmt("extended: missing %d new rows %d check %d restricted %d variance %d details %d", nan, n, checkNan, restr, var, details) + show(d));
  M all(N, m + k);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < m + k; j++)
      all(i, j) = j < m ? d.y(i, j) : d.x(i, j - m);
  static const int cr[6] = {0, 3, 3, 5, 8, 1}, cc[6] = {0, 1, 0, 99, 99, 1};
  std::vector<int> rows;
  for (int b = 0; b < 6; b++)
    if (nan >> b & 1)
      all(cr[b], std::min(cc[b], m + k - 1)) = NAN;
  Data c;
  for (int i = 0; i < N; i++) {
    bool ok = true;
    for (int j = 0; j < m + k; j++)
      ok &= !std::isnan((double)all(i, j));
    if (ok)
      rows.push_back(i);
  }
  int cn = (int)rows.size();
  c.x = M(cn, k), c.y = M(cn, m);
  for (int i = 0; i < cn; i++)
    for (int j = 0; j < m + k; j++)
      (j < m ? c.y(i, j) : c.x(i, j - m)) = all(rows[i], j);
  M R = selection(m * k, restr ? 1 : 0);
  if (R.c == 0)
    throw mc::Skip();
  Fit u = unrestricted(c), f = u;
  if (u.ok && restr)
    f = restricted(c, R, u.s);
  if (!f.ok || f.s.max() < 1e-9)
    throw mc::Skip();
  SurExtended e(N, m, k, restr, checkNan, details, n, 0, var, nullptr, nullptr);
  Bufs b(e.StorageSize, e.WorkSize, 0xff);
  Mat<double> A(nk::ref(all)), RR(nk::ref(R));
  M nx = newrows(n, k, 1);
  Mat<double> NX(nk::ref(nx));
  for (int rep = 0; rep < 2; rep++) {
    e.Calculate(A.m, m, b.st.p, b.wk.p, restr ? &RR.m : nullptr, 0, n ? &NX.m : nullptr);
    mc::step();
    b.intact();
    compare(e.Model, c, f, restr ? &R : nullptr, details, "extended: ");
    nk::same(e.Y, c.y, "estimate", "used endogenous data", 0);
    nk::same(e.X, c.x, "estimate", "used exogenous data", 0);
    if (n)
      nk::same(e.Projections.Means, nx * f.beta, "projection", "projected means", 1e-7);
  }
}
static void extended_checks() {
  int m = mc::range(1, 2), k = 2, N = 9;
  Data d = sample(N, m, k, mc::choose(3), {2.5}, true);
  int which = mc::choose(6), side = mc::choose(3) - 1;
  mc::describe(fmt("model check %d at the limit %+d ", which, side) + show(d));
  M all(N, m + k);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < m + k; j++)
      all(i, j) = j < m ? d.y(i, j) : d.x(i, j - m);
  Fit f = unrestricted(d);
  if (!f.ok)
    throw mc::Skip();
  SearchModelChecks ck;
  ck.MinObsCount = 0, ck.MinDof = 0;
  ck.MaxAic = ck.MaxSic = ck.MaxConditionNumber = INFINITY;
  ck.MinR2 = -INFINITY;
  ck.mCheckCN_all = false;
  bool bad = false; // the model is rejected
  L aic = f.aic, sic = f.sic, r2 = f.r2;
  L eps = side * 1e-3;
  if (which == 0)
    ck.MinObsCount = N + side, bad = side > 0;
  else if (which == 1)
    ck.MinDof = N - k + side, bad = side > 0;
  else if (which == 2)
    ck.MaxAic = (double)(aic - eps), bad = side > 0;
  else if (which == 3)
    ck.MaxSic = (double)(sic - eps), bad = side > 0;
  else if (which == 4)
    ck.MinR2 = (double)(r2 + eps), bad = side > 0;
  else {
    M xx = d.x.t() * d.x;
    ck.mCheckCN_all = true;
    ck.MaxConditionNumber = (double)(nk::cond(xx) * (1 - eps)), bad = side > 0;
  }
  if (which >= 2 && side == 0)
    throw mc::Skip();
  SurExtended e(N, m, k, false, true, true, 0, 0, false, nullptr, nullptr);
  Bufs b(e.StorageSize, e.WorkSize, 0xff);
  Mat<double> A(nk::ref(all));
  bool threw = false;
  try {
    e.Calculate(A.m, m, b.st.p, b.wk.p, nullptr, 0, nullptr, &ck);
  } catch (std::exception &) {
    threw = true;
  }
  mc::step();
  mc::check(threw == bad, "checks", bad ? "a model that fails a check is accepted" : "a model that passes the checks is rejected");
}
static void extended_pca() {
  int m = 1, k = mc::range(2, 3), N = 10, base = mc::choose(3), n = mc::choose(3);
  PcaAnalysisOptions po;
  po.IgnoreFirstCount = mc::choose(2);
  po.ExactCount = mc::choose(3);
  po.CutoffRate = mc::pick({0.5, 0.9});
  po.CutoffCountMax = mc::range(1, 2);
  if (po.ExactCount > k - po.IgnoreFirstCount || (po.ExactCount && po.ExactCount > po.CutoffCountMax))
    throw mc::Skip();
  bool var = mc::flip();
  Data d = sample(N, m, k, base, {2.5}, po.IgnoreFirstCount == 1);
  mc::describe(fmt("principal components of the regressors: ignore %d exact %d rate %g max %d new rows %d variance %d ", po.IgnoreFirstCount,
                   po.ExactCount, po.CutoffRate, po.CutoffCountMax, n, var) +
               show(d));
  M all(N, m + k);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < m + k; j++)
      all(i, j) = j < m ? d.y(i, j) : d.x(i, j - m);
  SurExtended e(N, m, k, false, true, true, n, 0, var, nullptr, &po);
  Bufs b(e.StorageSize, e.WorkSize, 0xff);
  Mat<double> A(nk::ref(all));
  M nx = newrows(n, k, 2);
  for (int i = 0; i < n && po.IgnoreFirstCount; i++)
    nx(i, 0) = 1;
  Mat<double> NX(nk::ref(nx));
  bool threw = false;
  std::string what;
  try {
    e.Calculate(A.m, m, b.st.p, b.wk.p, nullptr, 0, n ? &NX.m : nullptr);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact();
  mc::check(!threw, "rejected", "regression on principal components is rejected: " + what);
  NX.is(nk::ref(nx), "memory", "the new rows were changed", 0);
  // the components themselves are those of the standardized regressors (the
  // statistics check decides them); here the model is the one of its own data
  Data c{nk::get(e.X), nk::get(e.Y), ""};
  MC_CHECK(c.x.r == N && c.y.r == N, "projection", "observations of the model");
  Fit f = unrestricted(c);
  if (!f.ok)
    return;
  compare(e.Model, c, f, nullptr, true, "components: ");
  for (int i = 0; i < N; i++) {
    for (int j = 0; j < po.IgnoreFirstCount; j++)
      mc::eq((double)c.x(i, j), (double)d.x(i, j), "projection", "an ignored regressor");
    mc::eq((double)c.y(i, 0), (double)d.y(i, 0), "projection", "endogenous data");
  }
  // reference components by Jacobi rotations of the correlation matrix
  int ig = po.IgnoreFirstCount, kk = k - ig;
  M z(N, kk), mu(1, kk), sd(1, kk);
  for (int j = 0; j < kk; j++) {
    for (int i = 0; i < N; i++)
      mu(0, j) += d.x(i, ig + j) / N;
    for (int i = 0; i < N; i++)
      sd(0, j) += (d.x(i, ig + j) - mu(0, j)) * (d.x(i, ig + j) - mu(0, j));
    sd(0, j) = std::sqrt(sd(0, j));
    for (int i = 0; i < N; i++)
      z(i, j) = (d.x(i, ig + j) - mu(0, j)) / sd(0, j);
  }
  // new rows: the projected values follow from the fitted linear map
  // x -> components, which is affine, so fit it exactly on the sample
  int pc = c.x.c - ig;
  Data map;
  map.x = M(N, kk + 1), map.y = M(N, pc);
  for (int i = 0; i < N; i++) {
    map.x(i, 0) = 1;
    for (int j = 0; j < kk; j++)
      map.x(i, j + 1) = d.x(i, ig + j);
    for (int j = 0; j < pc; j++)
      map.y(i, j) = c.x(i, ig + j);
  }
  M xx = map.x.t() * map.x, xi;
  if (!nk::inverse(xx, xi))
    return;
  M w = xi * (map.x.t() * map.y);
  nk::same(Mat<double>(nk::ref(map.x * w)).m, map.y, "projection", "components are not an affine map of the regressors", 1e-6);
  // components are uncorrelated
  for (int a = 0; a < pc; a++)
    for (int q = 0; q < a; q++) {
      L s = 0, sa = 0, sq = 0;
      for (int i = 0; i < N; i++)
        s += c.x(i, ig + a) * c.x(i, ig + q), sa += c.x(i, ig + a) * c.x(i, ig + a), sq += c.x(i, ig + q) * c.x(i, ig + q);
      MC_CHECK(std::fabs(s) <= 1e-7 * std::sqrt(sa * sq) + 1e-9, "projection", "components %d and %d are correlated", a, q);
    }
  if (n) {
    M one(n, kk + 1), u(n, ig + pc);
    for (int i = 0; i < n; i++) {
      one(i, 0) = 1;
      for (int j = 0; j < kk; j++)
        one(i, j + 1) = nx(i, ig + j);
    }
    M pcs = one * w;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < ig + pc; j++)
        u(i, j) = j < ig ? nx(i, j) : pcs(i, j - ig);
    nk::same(e.Projections.Means, u * f.beta, "projection", "projected means of the components", 1e-6);
  }
}
// -------------------------------------------------------------- OLS, GLS --
static void ols() {
  int N0 = mc::range(2, 6), m0 = mc::range(1, 2), k0 = mc::range(1, 3);
  int N = mc::range(2, 6), m = mc::range(1, 2), k = mc::range(1, 3);
  int base = mc::choose(mc::qt(3, 6));
  bool resid = mc::flip(), sigma = mc::flip();
  Data d = sample(N, m, k, base, {2.5}, base % 2);
  mc::describe(fmt("ols declared %dx%dx%d resid %d sigma %d ", N0, m0, k0, resid, sigma) + show(d));
  Ols o(N0, m0, k0, resid, sigma), need(N, m, k, resid, sigma);
  Bufs b(o.StorageSize, o.WorkSize, 0xff);
  Mat<double> Y(nk::ref(d.y)), X(nk::ref(d.x));
  M xx = d.x.t() * d.x, xi;
  bool regular = N >= k && nk::cond(xx) < 1e8;
  bool inside = N <= N0 && m <= m0 && k <= k0;
  bool fits = need.StorageSize <= o.StorageSize && need.WorkSize <= o.WorkSize;
  bool threw = false;
  std::string what;
  try {
    o.Calculate(Y.m, X.m, b.st.p, b.wk.p);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact();
  if (N < k || !fits)
    mc::check(threw, "sizes", "an input that does not fit is not rejected");
  if (inside && regular)
    mc::check(!threw, "rejected", "an input within the declared sizes is rejected: " + what);
  if (threw || !regular)
    return;
  nk::inverse(xx, xi);
  M beta = xi * (d.x.t() * d.y), r = d.y - d.x * beta;
  nk::same(o.Beta, beta, "estimate", "coefficients", 1e-6);
  if (resid || sigma)
    nk::same(o.Resid, r, "estimate", "residuals", 1e-6);
  if (sigma)
    nk::same(o.Sigma, r.t() * r, "estimate", "residual products", 1e-6);
}
static void gls() {
  int more = mc::choose(3) - 1; // smaller, equal, larger declaration
  int N = mc::range(2, 5), m = mc::range(1, 2), k = mc::range(1, 2), base = mc::choose(3);
  bool resid = mc::flip(), sigma = mc::flip(), inv = mc::flip();
  int kind = mc::choose(3);
  Data d = sample(N, m, k, base, {2.5}, base % 2);
  mc::describe(fmt("gls declared %+d resid %d sigma %d omega %d inverted %d ", more, resid, sigma, kind, inv) + show(d));
  M om = nk::iden(N), oi;
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++)
      if (kind == 1)
        om(i, j) = i == j ? 1 + i : 0;
      else if (kind == 2)
        om(i, j) = std::pow((L)0.5, std::abs(i - j)) * (i == j ? 1 + 0.1 * i : 1);
  nk::inverse(om, oi);
  Gls g(N + more, m, k, resid, sigma, inv);
  Bufs b(g.StorageSize, g.WorkSize, 0xff);
  Mat<double> Y(nk::ref(d.y)), X(nk::ref(d.x)), O(nk::ref(inv ? oi : om));
  bool threw = false;
  std::string what;
  try {
    g.Calculate(Y.m, X.m, O.m, b.st.p, b.wk.p);
  } catch (std::exception &x) {
    threw = true, what = x.what();
  }
  mc::step();
  b.intact();
  M A = d.x.t() * oi * d.x, Ai;
  bool regular = N >= k && nk::cond(A) < 1e8;
  Gls need(N, m, k, resid, sigma, inv);
  if (N < k || need.WorkSize > g.WorkSize || need.StorageSize > g.StorageSize)
    mc::check(threw, "sizes", "an input that does not fit is not rejected");
  if (more >= 0 && regular)
    mc::check(!threw, "rejected", "an input within the declared sizes is rejected: " + what);
  if (threw || !regular)
    return;
  nk::inverse(A, Ai);
  M beta = Ai * (d.x.t() * oi * d.y), r = d.y - d.x * beta;
  nk::same(g.Beta, beta, "estimate", "coefficients", 1e-6);
  if (resid || sigma)
    nk::same(g.Resid, r, "estimate", "residuals", 1e-6);
  if (sigma)
    nk::same(g.Sigma, r.t() * r, "estimate", "residual products", 1e-6);
}

int main(int argc, char **argv) {
  return mc::harness_main(
      argc, argv,
      {
          {"c24_sur_tiny", sur_tiny, "every sample of 2-4 (5) observations with cells in {0,1,2}, 1-2 regressors"},
          {"c24_sur_unrestricted", sur_unrestricted, "1-3 equations, 1-3 regressors, 6 (12) base samples with 1-2 free cells"},
          {"c24_sur_selection", sur_selection, "1-3 equations, 1-3 regressors, every set of excluded coefficients"},
          {"c24_sur_general", sur_general, "1-2 equations, restriction matrices with entries in {0,1,-2}"},
          {"c24_sur_search", sur_search, "1-2 equations, 1-3 regressors, 1-4 iterations, 4 significance levels"},
          {"c24_sur_reorder", sur_reorder, "all orders of 5 (6) observations"},
          {"c24_sur_collinear", sur_collinear, "dependent equations, every restriction"},
          {"c24_sur_sizes", sur_sizes, "declared and actual sizes, shapes of R"},
          {"c24_projection", projection, "1-3 new rows, every restriction, with and without variances"},
          {"c24_extended", extended, "every subset of 6 missing cells, restrictions, 0-2 new rows"},
          {"c24_extended_checks", extended_checks, "each model check just below, at and above its limit"},
          {"c24_extended_pca", extended_pca, "principal component options, 0-2 new rows"},
          {"c24_ols", ols, "declared x actual sizes, options"},
          {"c24_gls", gls, "sizes, covariance kinds, given or inverted"},
      });
}
