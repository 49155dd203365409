// C25 (and the discrete-choice parts of C08, C09): estimates, probabilities,
// in-sample scores and simulations of binary and ordered models against the
// likelihood in long double.
#include "matkit.h"
#include "numkit.h"
#include "data_split.h"
#include "discrete_choice.h"
#include <optional>
using namespace ldt;
using namespace mk;
using nk::L;
using nk::M;
using mc::fmt;

// -------------------------------------------------------------- reference --
struct Data {
  M x;
  std::vector<int> y;
  std::vector<L> w; // empty: no weights
  int J = 2;
};
static std::string show(const Data &d) {
  std::string o = "y=";
  for (int v : d.y)
    o += fmt("%d ", v);
  o += "x=" + d.x.str();
  if (!d.w.empty()) {
    o += " w=";
    for (L v : d.w)
      o += fmt("%Lg ", v);
  }
  return o;
}
struct Link {
  bool probit;
  L F(L z) const { return probit ? 0.5L * std::erfc(-z / std::sqrt(2.0L)) : 1 / (1 + std::exp(-z)); }
  L f(L z) const {
    if (probit)
      return std::isinf(z) ? 0 : std::exp(-z * z / 2) / std::sqrt(2 * (L)M_PIl);
    return F(z) * F(-z);
  }
  L df(L z) const {
    if (std::isinf(z))
      return 0;
    return probit ? -z * f(z) : f(z) * (F(-z) - F(z));
  }
  L between(L lo, L hi) const { return lo > 0 ? F(-lo) - F(-hi) : F(hi) - F(lo); }
};
/// cut below choice j: minus infinity, 0, then the estimated ones
static L cut(const std::vector<L> &b, int k0, int j, int J) {
  return j <= 0 ? -INFINITY : j == 1 ? 0 : j >= J ? INFINITY : b[k0 + j - 2];
}
static L dotrow(const M &x, int i, const std::vector<L> &b) {
  L s = 0;
  for (int j = 0; j < x.c; j++)
    s += x(i, j) * b[j];
  return s;
}
static L prob(const Link &F, const M &x, int i, int j, int J, const std::vector<L> &b) {
  L xb = dotrow(x, i, b);
  return F.between(cut(b, x.c, j, J) - xb, cut(b, x.c, j + 1, J) - xb);
}
struct Like {
  L ll = 0, minp = 1;
  M g, h; // of minus the log-likelihood
};
static Like like(const Link &F, const Data &d, const std::vector<L> &b) {
  int k0 = d.x.c, k = k0 + d.J - 2;
  Like o;
  o.g = M(k, 1), o.h = M(k, k);
  for (size_t i = 0; i < d.y.size(); i++) {
    L w = d.w.empty() ? 1 : d.w[i];
    if (w == 0)
      continue;
    int y = d.y[i];
    L xb = dotrow(d.x, (int)i, b), lo = cut(b, k0, y, d.J) - xb, hi = cut(b, k0, y + 1, d.J) - xb;
    L P = F.between(lo, hi);
    o.minp = std::min(o.minp, P);
    o.ll += w * std::log(P);
    L gu = F.f(hi) / P, gl = -F.f(lo) / P;
    L huu = F.df(hi) / P - gu * gu, hll = -F.df(lo) / P - gl * gl, hul = -gu * gl;
    std::vector<L> du(k, 0), dl(k, 0);
    for (int j = 0; j < k0; j++)
      du[j] = std::isinf(hi) ? 0 : -d.x((int)i, j), dl[j] = std::isinf(lo) ? 0 : -d.x((int)i, j);
    if (y + 1 >= 2 && y + 1 < d.J)
      du[k0 + y + 1 - 2] = 1;
    if (y >= 2)
      dl[k0 + y - 2] = 1;
    for (int a = 0; a < k; a++) {
      o.g(a, 0) -= w * (gu * du[a] + gl * dl[a]);
      for (int c = 0; c < k; c++)
        o.h(a, c) -= w * (huu * du[a] * du[c] + hll * dl[a] * dl[c] + hul * (du[a] * dl[c] + dl[a] * du[c]));
    }
  }
  return o;
}
static L decrement(const Like &l) { // g' h^-1 g
  M hi;
  if (!nk::inverse(l.h, hi))
    return INFINITY;
  return (l.g.t() * hi * l.g)(0, 0);
}
/// the unique maximum, if there is one at a moderate distance
static bool maximum(const Link &F, const Data &d, std::vector<L> &b) {
  int k0 = d.x.c, k = k0 + d.J - 2;
  b.assign(k, 0);
  for (int j = k0; j < k; j++)
    b[j] = j - k0 + 1;
  Like l = like(F, d, b);
  for (int it = 0; it < 80; it++) {
    if (!std::isfinite((double)l.ll) || nk::cond(l.h) > 1e10L)
      return false;
    M hi;
    if (!nk::inverse(l.h, hi))
      return false;
    M s = hi * l.g;
    L dec = (l.g.t() * s)(0, 0);
    if (dec < 1e-26L) {
      for (auto v : b)
        if (std::fabs(v) > 15)
          return false;
      return nk::cond(l.h) < 1e7L && hi.max() < 1e5L; // flat: separated labels
    }
    L t = 1;
    bool moved = false;
    for (int q = 0; q < 60 && !moved; q++, t /= 2) {
      auto c = b;
      for (int j = 0; j < k; j++)
        c[j] -= t * s(j, 0);
      bool ordered = true;
      for (int j = k0; j < k; j++)
        ordered &= c[j] > (j == k0 ? 0 : c[j - 1]);
      if (!ordered)
        continue;
      Like n = like(F, d, c);
      if (n.ll >= l.ll - 1e-16L * std::fabs(l.ll))
        b = c, l = n, moved = true;
    }
    if (!moved)
      return false;
  }
  return false;
}

// ---------------------------------------------------------------- library --
struct Bufs {
  mc::Guard<double> st, wk;
  Bufs(int s, int w, unsigned char fill) : st((size_t)s, fill), wk((size_t)w, fill) {}
  void intact() const {
    MC_CHECK(st.intact(), "memory", "the storage is exceeded");
    MC_CHECK(wk.intact(), "memory", "the work memory is exceeded");
  }
};
static Ref column(const std::vector<int> &y) {
  Ref o((int)y.size(), 1);
  for (size_t i = 0; i < y.size(); i++)
    o.at((int)i, 0) = y[i];
  return o;
}
static Ref column(const std::vector<L> &y) {
  Ref o((int)y.size(), 1);
  for (size_t i = 0; i < y.size(); i++)
    o.at((int)i, 0) = (double)y[i];
  return o;
}
static DiscreteChoiceModelType mtype(bool ordered) { return ordered ? DiscreteChoiceModelType::kOrdered : DiscreteChoiceModelType::kBinary; }
static DiscreteChoiceDistType dtype(bool probit) { return probit ? DiscreteChoiceDistType::kProbit : DiscreteChoiceDistType::kLogit; }
struct Est {
  Mat<double> Y, X;
  std::optional<Mat<double>> W;
  std::unique_ptr<DiscreteChoiceBase> e;
  Bufs b;
  int J;
  bool threw = false;
  std::string what;
  Est(const Data &d, bool probit, bool details, unsigned char fill = 0xff, int more = 0)
      : Y(column(d.y)), X(nk::ref(d.x)), e(DiscreteChoiceBase::GetFromType(mtype(d.J > 2), dtype(probit), (int)d.y.size() + more, d.x.c, d.J, details)),
        b(e->StorageSize, e->WorkSize, fill), J(d.J) {
    if (!d.w.empty())
      W.emplace(column(d.w));
  }
  void run(bool ols = true, bool giveJ = true) {
    threw = false;
    try {
      e->Calculate(Y.m, X.m, W ? &W->m : nullptr, b.st.p, b.wk.p, giveJ ? J : -1, ols);
    } catch (std::exception &x) {
      threw = true, what = x.what();
    }
    mc::step();
    b.intact();
  }
  std::vector<L> beta() const {
    std::vector<L> o;
    for (int i = 0; i < e->Beta.length(); i++)
      o.push_back(e->Beta.Data[i]);
    return o;
  }
};
static void tight(DiscreteChoiceBase &e) {
  e.Optim.TolFunction = 0;
  e.Optim.TolGradient = 1e-8;
  e.Optim.IterationMax = 60;
}
/// everything that is reported, at the reported coefficients
static void compare(const Est &s, const Data &d, bool probit, bool details, bool haveMle, bool isTight, const std::string &t) {
  auto &e = *s.e;
  Link F{probit};
  int n = (int)d.y.size(), k0 = d.x.c, k = k0 + d.J - 2;
  mc::eqi(e.Beta.length(), k, "estimate", t + "number of coefficients");
  auto b = s.beta();
  for (auto v : b)
    MC_CHECK(std::isfinite((double)v), "estimate", "%sa coefficient is not finite", t.c_str());
  Like l = like(F, d, b);
  if (l.minp > 1e-9L)
    mc::eq(e.LogL, (double)l.ll, "likelihood", t + "log-likelihood at the estimate", 1e-6);
  mc::eq(e.Aic, 2 * k - 2 * e.LogL, "criteria", t + "AIC", 1e-12);
  mc::eq(e.Sic, std::log((double)n) * k - 2 * e.LogL, "criteria", t + "SIC", 1e-12);
  mc::eqi(e.NumObs, n, "criteria", t + "number of observations");
  mc::eqi(e.NumChoices, d.J, "criteria", t + "number of choices");
  mc::eqi(e.NumCutoff, d.J - 1, "criteria", t + "number of cutoffs");
  std::vector<L> cnt(d.J, 0);
  for (int i = 0; i < n; i++)
    cnt[d.y[i]] += d.w.empty() ? 1 : d.w[i];
  mc::eqi(e.Counts.length(), d.J, "criteria", t + "number of label counts");
  for (int j = 0; j < d.J; j++)
    mc::eq(e.Counts.Data[j], (double)cnt[j], "criteria", t + fmt("count of label %d", j), 1e-12);
  if (!haveMle)
    return;
  L dec = decrement(l);
  MC_CHECK(dec >= -1e-12L && dec < (isTight ? 1e-12L : 2e-5L), "score", "%sthe score is not zero: g'inv(H)g = %Lg", t.c_str(), dec);
  if (isTight)
    MC_CHECK(l.g.max() < 1e-5L, "score", "%sthe score is not zero: %Lg", t.c_str(), l.g.max());
  M hi;
  if (!nk::inverse(l.h, hi))
    return;
  nk::same(e.BetaVar, hi, "variance", t + "variance", 1e-6);
  L cn = nk::norm1(l.h) * nk::norm1(hi);
  mc::eq(e.condition_number, (double)cn, "variance", t + "condition number", 1e-6);
  if (details)
    for (int i = 0; i < k; i++) {
      double sd = std::sqrt(e.BetaVar.Data[i + k * i]), z = e.Beta.Data[i] / sd;
      mc::eq(e.BetaStd.Data[i], sd, "details", t + "standard error", 1e-10);
      mc::eq(e.BetaZ.Data[i], z, "details", t + "z", 1e-10);
      mc::eq(e.BetaProb.Data[i], std::erfc(std::fabs(z) / std::sqrt(2.0)), "details", t + "p-value", 1e-8);
    }
}
static void probabilities(Est &s, const Data &d, bool probit, const M &x, const std::string &t) {
  Link F{probit};
  auto b = s.beta();
  Mat<double> X(nk::ref(x));
  mc::Guard<double> res((size_t)x.r * d.J, 0xff), wk((size_t)x.r + d.J - 2, 0xff);
  Matrix<double> R(res.p, x.r, d.J);
  s.e->GetProbabilities(X.m, R, wk.p);
  mc::step();
  MC_CHECK(res.intact() && wk.intact(), "memory", "%sprobabilities write outside", t.c_str());
  for (int i = 0; i < x.r; i++) {
    double sum = 0;
    for (int j = 0; j < d.J; j++) {
      double p = res.p[i + x.r * j];
      MC_CHECK(p >= 0 && p <= 1, "probability", "%sprobability (%d,%d) is %g", t.c_str(), i, j, p);
      mc::eq(p, (double)prob(F, x, i, j, d.J, b), "probability", t + fmt("probability (%d,%d)", i, j), 1e-9);
      sum += p;
    }
    mc::eq(sum, 1, "probability", t + "sum of probabilities", 1e-12);
  }
}
static M probes(int k0) { // ordinary and extreme rows
  M x(8, k0);
  for (int i = 0; i < 8; i++)
    for (int j = 0; j < k0; j++)
      x(i, j) = j == 0 ? (i < 6 ? 1 : i == 6 ? 5000 : -5000) : (L)((i * (j + 1)) % 5) - 2 + (i == 5 ? 40 : 0) - (i == 4 ? 40 : 0);
  return x;
}
static bool varied(const Data &d) {
  std::vector<L> cnt(d.J, 0);
  for (size_t i = 0; i < d.y.size(); i++)
    cnt[d.y[i]] += d.w.empty() ? 1 : d.w[i];
  for (L c : cnt)
    if (c == 0)
      return false;
  return true;
}
/// every multiset of n observations out of `kinds`
static std::vector<int> multiset(int n, int kinds) {
  std::vector<int> o;
  int at = 0;
  for (int i = 0; i < n; i++)
    o.push_back(at += mc::choose(kinds - at));
  return o;
}
static void weigh(Data &d, int mode) {
  static const L w[5][8] = {{1, 1, 1, 1, 1, 1, 1, 1}, {1, 2, 1, 3, 2, 1, 1, 2}, {2, 1, 0, 1, 1, 3, 1, 0}, {0.5, 1.25, 2, 0.75, 1, 0.1, 3, 0.5}, {100, 250, 300, 120, 90, 400, 10, 30}};
  if (mode == 0)
    return;
  for (size_t i = 0; i < d.y.size(); i++)
    d.w.push_back(w[mode - 1][i % 8]);
}
/// the same observations written out one by one
static Data repeated(const Data &d) {
  Data o;
  o.J = d.J;
  int n = 0;
  for (L w : d.w)
    n += (int)w;
  o.x = M(n, d.x.c);
  int at = 0;
  for (size_t i = 0; i < d.y.size(); i++)
    for (int q = 0; q < (int)d.w[i]; q++, at++) {
      o.y.push_back(d.y[i]);
      for (int j = 0; j < d.x.c; j++)
        o.x(at, j) = d.x((int)i, j);
    }
  return o;
}
static void judge(const Data &d, bool probit, bool details, int mode, bool mustConverge) {
  Link F{probit};
  Est s(d, probit, details);
  tight(*s.e);
  bool ols = true;
  s.run(ols);
  if (!varied(d)) {
    mc::check(s.threw, "no-variation", "dependent data without variation is estimated");
    mc::outcome(1);
    return;
  }
  std::vector<L> best;
  bool mle = maximum(F, d, best);
  mc::outcome(2 + mle * 2 + s.threw);
  if (s.threw) {
    if (mle && mustConverge)
      mc::fail("no-estimate", "a maximum exists but the estimation fails: " + s.what);
    return;
  }
  compare(s, d, probit, details, mle, true, "");
  if (!mle)
    return;
  auto b = s.beta();
  for (size_t i = 0; i < b.size(); i++)
    mc::eq((double)b[i], (double)best[i], "score", fmt("coefficient %d is not the maximum", (int)i), 1e-6);
  probabilities(s, d, probit, d.x, "sample ");
  probabilities(s, d, probit, probes(d.x.c), "new ");
  // again with this object and its used memory, then with the default tolerance
  double ll = s.e->LogL;
  s.run(true);
  mc::check(!s.threw && s.e->LogL == ll && s.beta() == b, "reuse", "a second calculation gives other results");
  Est q(d, probit, details);
  q.run(true);
  if (!q.threw)
    compare(q, d, probit, details, true, false, "default tolerance: ");
  else if (mustConverge)
    mc::fail("no-estimate", "a maximum exists but the estimation with default tolerance fails: " + q.what);
  // weights are repetitions
  if (mode == 1 || mode == 2 || mode == 3) {
    Data r = repeated(d);
    Est u(r, probit, details);
    tight(*u.e);
    u.run(true);
    if (u.threw)
      return;
    mc::eq(u.e->LogL, s.e->LogL, "weights", "log-likelihood of repeated observations", 1e-7);
    for (size_t i = 0; i < b.size(); i++)
      mc::eq(u.e->Beta.Data[i], s.e->Beta.Data[i], "weights", "coefficients of repeated observations", 1e-6);
    nk::same(u.e->BetaVar, nk::get(s.e->BetaVar), "weights", "variance of repeated observations", 1e-5);
  }
}

// -------------------------------------------------------------- scenarios --
static void binary() {
  bool probit = mc::flip(), details = mc::flip();
  int mode = mc::choose(6), n = mc::qt(5, 7);
  auto ks = multiset(n, 6);
  static const L xs[3] = {-1, 0, 2};
  Data d;
  d.x = M(n, 2);
  for (int i = 0; i < n; i++)
    d.x(i, 0) = 1, d.x(i, 1) = xs[ks[i] / 2], d.y.push_back(ks[i] % 2);
  weigh(d, mode);
  mc::describe(fmt("binary %s details %d ", probit ? "probit" : "logit", details) + show(d));
  judge(d, probit, details, mode, true);
}
static void binary3() { // two regressors and an intercept, or none
  bool probit = mc::flip(), konst = mc::flip();
  int mode = mc::pick({0, 2, 4}), n = mc::qt(6, 7);
  auto ks = multiset(n, 8);
  Data d;
  d.x = M(n, konst ? 3 : 2);
  for (int i = 0; i < n; i++) {
    int at = 0;
    if (konst)
      d.x(i, at++) = 1;
    d.x(i, at++) = (ks[i] >> 1 & 1) ? 2 : -1;
    d.x(i, at++) = (ks[i] >> 2 & 1) ? 0.5L : -0.25L;
    d.y.push_back(ks[i] & 1);
  }
  weigh(d, mode);
  mc::describe(fmt("binary %s intercept %d ", probit ? "probit" : "logit", konst) + show(d));
  judge(d, probit, false, mode, true);
}
static void ordered3() {
  bool probit = mc::flip();
  int form = mc::choose(3), mode = mc::choose(form == 0 ? 6 : 2), n = mc::qt(5, 6);
  auto ks = multiset(n, 9);
  static const L xs[3] = {-1, 0, 2};
  Data d;
  d.J = 3;
  d.x = M(n, form == 0 ? 2 : 1);
  for (int i = 0; i < n; i++) {
    int at = 0;
    if (form != 1)
      d.x(i, at++) = 1;
    if (form != 2)
      d.x(i, at++) = xs[ks[i] / 3];
    d.y.push_back(ks[i] % 3);
  }
  weigh(d, mode);
  mc::describe(fmt("ordered %s form %d ", probit ? "probit" : "logit", form) + show(d));
  judge(d, probit, mode == 0, mode, false);
}
static void ordered4() {
  bool probit = mc::flip();
  int mode = mc::pick({0, 2, 4}), n = mc::qt(6, 7);
  auto ks = multiset(n, 8);
  Data d;
  d.J = 4;
  d.x = M(n, 2);
  for (int i = 0; i < n; i++)
    d.x(i, 0) = 1, d.x(i, 1) = ks[i] / 4 ? 1.5L : -1, d.y.push_back(ks[i] % 4);
  weigh(d, mode);
  mc::describe(fmt("ordered %s four labels ", probit ? "probit" : "logit") + show(d));
  judge(d, probit, true, mode, false);
}
static Data base(int which, int n, int k, bool weights, int J = 2) {
  static const L a[4][16] = {{1, -2, 3, 0.5, 4, -1, 2.5, 0, -3, 1.5, 2, -0.5, 3.5, 5, -4, 1},
                             {2, 5, 1, 8, -3, 2, 0, 6, 4, -1, 7, 3, -2, 9, 1, 0},
                             {0.1, 0.7, -0.4, 0.2, 1.3, -0.6, 0.9, 0.5, -1.1, 0.3, 0.8, -0.2, 0.4, 1.6, -0.9, 0.6},
                             {-1, 4, 2, -3, 5, 0.25, -2, 1, 6, -4, 3, 0.75, 2, -1, 0, 8}};
  static const int ys[3][16] = {{0, 1, 1, 0, 1, 0, 2, 1, 0, 0, 1, 1, 0, 2, 1, 0}, {1, 1, 0, 0, 2, 1, 0, 1, 0, 1, 0, 0, 1, 1, 0, 2}, {0, 0, 1, 0, 1, 2, 1, 1, 0, 0, 2, 0, 1, 0, 1, 1}};
  Data d;
  d.J = J;
  d.x = M(n, k);
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < k; j++)
      d.x(i, j) = j == 0 ? 1 : a[(which + j) % 4][(i + 2 * j) % 16];
    int y = ys[which % 3][i % 16];
    d.y.push_back(J == 2 ? y % 2 : y);
  }
  if (weights)
    weigh(d, 4);
  return d;
}
static std::vector<int> perm(int n, int idx) {
  std::vector<int> p, left;
  for (int i = 0; i < n; i++)
    left.push_back(i);
  for (int i = n; i > 0; i--) {
    int q = idx % i;
    idx /= i;
    p.push_back(left[q]);
    left.erase(left.begin() + q);
  }
  return p;
}
static void reorder() { // order of observations and of regressors
  bool probit = mc::flip();
  int J = mc::range(2, 3), n = 9, m = mc::qt(4, 6), which = mc::choose(3);
  bool wt = mc::flip();
  Data d = base(which, n, 3, wt, J), e = d;
  auto p = perm(m, mc::choose(m == 4 ? 24 : 720));
  bool cols = mc::flip();
  int xp[3] = {0, cols ? 2 : 1, cols ? 1 : 2};
  for (int i = 0; i < n; i++) {
    int s = i < m ? p[i] : i;
    e.y[i] = d.y[s];
    for (int j = 0; j < 3; j++)
      e.x(i, j) = d.x(s, xp[j]);
    if (wt)
      e.w[i] = d.w[s];
  }
  mc::describe(fmt("reorder probit %d ", probit) + show(e));
  Est a(d, probit, false), b(e, probit, false);
  tight(*a.e), tight(*b.e);
  a.run(), b.run();
  mc::check(a.threw == b.threw, "order", "the order decides whether estimation succeeds");
  if (a.threw) {
    mc::outcome(1);
    return;
  }
  std::vector<L> best;
  if (!maximum(Link{probit}, d, best))
    return;
  mc::outcome(2);
  mc::eq(a.e->LogL, b.e->LogL, "order", "log-likelihood after reordering", 1e-8);
  for (int j = 0; j < a.e->Beta.length(); j++)
    mc::eq(b.e->Beta.Data[j], a.e->Beta.Data[j < 3 ? xp[j] : j], "order", "coefficient after reordering", 1e-6);
}
/// given starting values, and the number of labels left to the library
static void starts() {
  bool probit = mc::flip();
  int J = mc::range(2, 3), which = mc::choose(3);
  bool wt = mc::flip(), giveJ = mc::flip();
  Data d = base(which, 10, 2, wt, J);
  std::vector<L> best;
  if (!maximum(Link{probit}, d, best))
    throw mc::Skip();
  Est s(d, probit, true);
  tight(*s.e);
  double b0 = mc::pick({0.0, 0.3, -0.5}), b1 = mc::pick({0.0, 0.2, -0.2}), c = mc::pick({0.5, 2.0});
  s.b.st.p[0] = b0, s.b.st.p[1] = b1;
  if (J > 2)
    s.b.st.p[2] = c;
  mc::describe(fmt("start %g %g %g probit %d labels %d given %d ", b0, b1, c, probit, J, giveJ) + show(d));
  s.run(false, giveJ);
  mc::check(!s.threw, "no-estimate", "estimation from a start fails: " + s.what);
  compare(s, d, probit, true, true, true, "from a start: ");
}
/// labels outside of the declared choices, inconsistent shapes and sizes
static void invalid() {
  bool probit = mc::flip(), wt = mc::flip(), giveJ = mc::flip();
  int J = mc::range(2, 3), at = mc::choose(8), kind = mc::choose(8);
  Data d = base(0, 8, 2, wt, J);
  if (J == 3)
    d.y[0] = 0, d.y[1] = 1, d.y[2] = 2;
  std::vector<L> y(d.y.begin(), d.y.end());
  mc::describe(fmt("invalid kind %d at %d probit %d labels %d given %d ", kind, at, probit, J, giveJ) + show(d));
  static const L bad[6] = {-1, 0, 7, 1000, -100000, NAN};
  int n = 8, more = 0;
  if (kind < 6)
    y[at] = kind == 1 ? J : bad[kind];
  if (J == 3 && !giveJ && (kind == 1 || kind == 2 || kind == 3))
    throw mc::Skip(); // the number of labels is taken from the data
  if (kind == 6)
    more = -1 - at % 3; // declared for fewer observations
  if (kind == 7)
    n = 7; // shorter endogenous data
  y.resize(n);
  Est s(d, probit, true, 0xff, more);
  Mat<double> Y(column(y));
  bool threw = false;
  try {
    s.e->Calculate(Y.m, s.X.m, s.W ? &s.W->m : nullptr, s.b.st.p, s.b.wk.p, giveJ ? J : -1, true);
  } catch (std::exception &) {
    threw = true;
  }
  mc::step();
  s.b.intact();
  if (kind == 6) { // the requirement may be met by chance only if sizes agree
    auto t = DiscreteChoiceBase::GetFromType(mtype(J > 2), dtype(probit), 8, 2, J, true);
    if (t->WorkSize <= s.e->WorkSize && t->StorageSize <= s.e->StorageSize)
      return;
  }
  mc::check(threw, "invalid", "invalid input is estimated");
}

// ---------------------------------------------------------------- extended --
static L auc(const std::vector<int> &y, const std::vector<L> &p1, const std::vector<L> &w) {
  L num = 0, a = 0, b = 0;
  for (size_t i = 0; i < y.size(); i++) {
    (y[i] ? a : b) += w[i];
    if (y[i])
      for (size_t j = 0; j < y.size(); j++)
        if (!y[j]) {
          L df = p1[i] - p1[j];
          num += w[i] * w[j] * (std::fabs(df) < 1e-12L ? 0.5L : df > 0 ? 1 : 0);
        }
  }
  return num / (a * b);
}
/// y, (w,) x as one matrix
static M table(const Data &d) {
  int n = (int)d.y.size(), wt = d.w.empty() ? 0 : 1;
  M o(n, 1 + wt + d.x.c);
  for (int i = 0; i < n; i++) {
    o(i, 0) = d.y[i];
    if (wt)
      o(i, 1) = d.w[i];
    for (int j = 0; j < d.x.c; j++)
      o(i, 1 + wt + j) = d.x(i, j);
  }
  return o;
}
static std::vector<Matrix<double>> costTables(std::vector<std::unique_ptr<Mat<double>>> &keep, int count) {
  std::vector<Matrix<double>> o;
  for (int q = 0; q < count; q++) {
    Ref r(2, 3);
    r.at(0, 0) = q ? 0.3 : 0.5, r.at(1, 0) = 1;
    r.at(0, 1) = 0, r.at(1, 1) = q ? 2 : 1;
    r.at(0, 2) = 1, r.at(1, 2) = q ? 0.5 : 0;
    keep.push_back(std::make_unique<Mat<double>>(r));
    o.push_back(keep.back()->m);
  }
  return o;
}
static void extended() {
  bool probit = mc::flip(), wt = mc::flip(), checkNan = mc::flip(), details = mc::flip(), weightedEval = mc::flip();
  int J = details ? 2 : mc::range(2, 3), nf = mc::pick({0, 1, 4, 25}), nan = mc::choose(32), costs = details ? mc::choose(3) : 0;
  int which = mc::choose(mc::qt(1, 3)), N = 14, k = 3;
  if (!checkNan && nan)
    throw mc::Skip();
  Data d = base(which, N, k, wt, J), c = d;
  M all = table(d);
  mc::describe(fmt("extended probit %d labels %d missing %d new %d details %d costs %d weighted scores %d check %d ", probit, J, nan, nf, details, costs, weightedEval, checkNan) + show(d));
  static const int cr[5] = {0, 3, 3, 13, 7}, cc[5] = {1, 0, 2, 99, 3};
  for (int q = 0; q < 5; q++)
    if (nan >> q & 1)
      all(cr[q], std::min(cc[q], all.c - 1)) = NAN;
  std::vector<int> rows;
  for (int i = 0; i < N; i++) {
    bool ok = true;
    for (int j = 0; j < all.c; j++)
      ok &= !std::isnan((double)all(i, j));
    if (ok)
      rows.push_back(i);
  }
  int n = (int)rows.size();
  c.x = M(n, k), c.y.clear(), c.w.clear();
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < k; j++)
      c.x(i, j) = d.x(rows[i], j);
    c.y.push_back(d.y[rows[i]]);
    if (wt)
      c.w.push_back(d.w[rows[i]]);
  }
  std::vector<L> best;
  Link F{probit};
  if (!varied(c) || !maximum(F, c, best))
    throw mc::Skip();
  std::vector<std::unique_ptr<Mat<double>>> keep;
  auto cost = costTables(keep, costs);
  DiscreteChoiceExtended e(mtype(J > 2), dtype(probit), N, k + 1 + wt, wt, checkNan, J, details, nf, nullptr, costs ? &cost : nullptr, weightedEval);
  tight(*e.Model);
  Bufs b(e.StorageSize, e.WorkSize, 0xff);
  Mat<double> A(nk::ref(all));
  M nx = M(nf, k);
  for (int i = 0; i < nf; i++)
    for (int j = 0; j < k; j++)
      nx(i, j) = j == 0 ? 1 : (L)((i * (j + 1)) % 5) - 2;
  Mat<double> NX(nk::ref(nx));
  RocOptions ro;
  for (int rep = 0; rep < 2; rep++) {
    e.Calculate(A.m, b.st.p, b.wk.p, true, nf ? &NX.m : nullptr, ro);
    mc::step();
    b.intact();
    std::vector<L> be;
    for (int i = 0; i < e.Model->Beta.length(); i++)
      be.push_back(e.Model->Beta.Data[i]);
    mc::eqi((int)be.size(), (int)best.size(), "estimate", "number of coefficients");
    for (size_t i = 0; i < be.size(); i++)
      mc::eq((double)be[i], (double)best[i], "score", "extended: coefficient", 1e-6);
    mc::eqi(e.Y.RowsCount, n, "estimate", "used observations");
    nk::same(e.X, c.x, "estimate", "used exogenous data", 0);
    if (nf) {
      mc::check(e.PredProbs.RowsCount == nf && e.PredProbs.ColsCount == J, "probability", "shape of the predictions");
      for (int i = 0; i < nf; i++)
        for (int j = 0; j < J; j++)
          mc::eq(e.PredProbs.Data[i + nf * j], (double)prob(F, nx, i, j, J, be), "probability", fmt("prediction (%d,%d)", i, j), 1e-9);
    }
    if (!details)
      continue;
    MC_CHECK(e.Projections.RowsCount == n && e.Projections.ColsCount == J, "projection", "projections are %dx%d for %d used observations", e.Projections.RowsCount, e.Projections.ColsCount, n);
    std::vector<L> p1, one(n, 1), ew = wt && weightedEval ? c.w : one;
    L brier = 0, sw = 0;
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < J; j++)
        mc::eq(e.Projections.Data[i + n * j], (double)prob(F, c.x, i, j, J, be), "projection", fmt("projection (%d,%d)", i, j), 1e-9);
      p1.push_back(prob(F, c.x, i, 1, J, be));
      brier += ew[i] * (c.y[i] - p1[i]) * (c.y[i] - p1[i]), sw += ew[i];
    }
    mc::eq(e.BrierScore, (double)(brier / sw), "in-sample", "Brier score", 1e-9);
    mc::eq(e.Auc, (double)auc(c.y, p1, ew), "in-sample", "AUC", 1e-9);
    if (costs) {
      M pr(n, 2);
      for (int i = 0; i < n; i++)
        pr(i, 0) = 1 - p1[i], pr(i, 1) = p1[i];
      Mat<double> P(nk::ref(pr)), Y(column(c.y)), W(column(ew));
      FrequencyCost<true> fc(costs);
      mc::Guard<double> fs((size_t)fc.StorageSize, 0);
      fc.Calculate(cost, Y.m, P.m, &W.m, fs.p);
      mc::eq(e.CostRatioAvg, fc.AverageRatio, "in-sample", "average cost ratio", 1e-9);
    }
  }
}
/// principal components instead of the regressors
static void extendedPca() {
  bool probit = mc::flip(), wt = mc::flip(), details = mc::flip();
  int which = mc::choose(3), nf = mc::choose(4), N = 14, k = 4;
  int exact = mc::choose(5), ignore = mc::choose(4);
  double rate = exact ? 0 : mc::pick({0.3, 0.8, 0.999999});
  int cap = mc::pick({1, 2, 100000});
  unsigned char fill = mc::pick({0xff, 0x3f});
  Data d = base(which, N, k, wt, 2);
  mc::describe(fmt("extended pca exact %d ignore %d rate %g at most %d new %d ", exact, ignore, rate, cap, nf) + show(d));
  PcaAnalysisOptions po;
  po.ExactCount = exact, po.IgnoreFirstCount = ignore, po.CutoffRate = rate, po.CutoffCountMax = cap;
  M all = table(d);
  Mat<double> A(nk::ref(all));
  M nx(nf, k);
  for (int i = 0; i < nf; i++)
    for (int j = 0; j < k; j++)
      nx(i, j) = j == 0 ? 1 : (L)((i * (j + 1)) % 5) - 2;
  Mat<double> NX(nk::ref(nx));
  RocOptions ro;
  std::unique_ptr<DiscreteChoiceExtended> e;
  std::optional<Bufs> b;
  bool threw = false;
  try {
    e = std::make_unique<DiscreteChoiceExtended>(mtype(false), dtype(probit), N, k + 1 + wt, wt, true, 2, details, nf, &po, nullptr, true);
    tight(*e->Model);
    b.emplace(e->StorageSize, e->WorkSize, fill);
    e->Calculate(A.m, b->st.p, b->wk.p, true, nf ? &NX.m : nullptr, ro);
  } catch (std::exception &) {
    threw = true;
  }
  mc::step();
  if (b)
    b->intact();
  NX.unchanged("the new data");
  int avail = k - ignore;
  mc::outcome(threw);
  if (threw)
    return; // constant columns, too many components, no maximum
  MC_CHECK(exact == 0 || exact <= avail, "pca", "%d components of %d variables", exact, avail);
  int used = e->X.ColsCount - ignore;
  MC_CHECK(used >= 1 && used <= avail && (exact ? used == exact : used <= cap), "pca", "%d components are used", used);
  // standardized scores, direction by direction
  M xs(N, avail), fs(nf, avail);
  for (int j = 0; j < avail; j++) {
    L mu = 0, s = 0;
    for (int i = 0; i < N; i++)
      mu += d.x(i, ignore + j) / N;
    for (int i = 0; i < N; i++)
      s += (d.x(i, ignore + j) - mu) * (d.x(i, ignore + j) - mu);
    s = std::sqrt(s / (N - 1));
    for (int i = 0; i < N; i++)
      xs(i, j) = (d.x(i, ignore + j) - mu) / s;
    for (int i = 0; i < nf; i++)
      fs(i, j) = (nx(i, ignore + j) - mu) / s;
  }
  M pc(N, used);
  Data c = d;
  c.x = M(N, ignore + used);
  M cx(nf, ignore + used);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < ignore + used; j++)
      c.x(i, j) = e->X.Data[i + N * j];
  for (int j = 0; j < ignore; j++) {
    for (int i = 0; i < N; i++)
      mc::eq((double)c.x(i, j), (double)d.x(i, j), "pca", "an ignored column", 0);
    for (int i = 0; i < nf; i++)
      cx(i, j) = nx(i, j);
  }
  // the component is linear in the standardized data: solve for its direction
  M xx = xs.t() * xs, xi;
  if (nk::cond(xx) > 1e8L || !nk::inverse(xx, xi))
    throw mc::Skip();
  L total = 0, part = 0;
  for (int j = 0; j < avail; j++)
    total += xx(j, j);
  for (int q = 0; q < used; q++) {
    M z(N, 1);
    for (int i = 0; i < N; i++)
      z(i, 0) = c.x(i, ignore + q);
    M dir = xi * (xs.t() * z);
    nk::same(Matrix<double>(&e->X.Data[N * (ignore + q)], N, 1), xs * dir, "pca", "component is not a combination of the variables", 1e-8);
    mc::eq((double)(dir.t() * dir)(0, 0), 1, "pca", "length of a direction", 1e-8);
    M f = fs * dir;
    for (int i = 0; i < nf; i++)
      cx(i, ignore + q) = f(i, 0);
    L share = (z.t() * z)(0, 0) / total;
    if (!exact)
      MC_CHECK(q == 0 || part <= rate + 1e-9L, "pca", "more components than the rate needs");
    part += share;
  }
  if (!exact && used < cap && used < avail)
    MC_CHECK(part >= rate - 1e-9L, "pca", "too few components for the rate");
  Link F{probit};
  std::vector<L> best, be;
  if (!maximum(F, c, best))
    return;
  for (int i = 0; i < e->Model->Beta.length(); i++)
    be.push_back(e->Model->Beta.Data[i]);
  for (size_t i = 0; i < be.size(); i++)
    mc::eq((double)be[i], (double)best[i], "score", "pca: coefficient", 1e-5);
  for (int i = 0; i < nf; i++)
    for (int j = 0; j < 2; j++)
      mc::eq(e->PredProbs.Data[i + nf * j], (double)prob(F, cx, i, j, 2, be), "probability", fmt("pca: prediction (%d,%d)", i, j), 1e-7);
  if (details)
    for (int i = 0; i < N; i++)
      mc::eq(e->Projections.Data[i + N], (double)prob(F, c.x, i, 1, 2, be), "projection", "pca: projection", 1e-7);
}

// -------------------------------------------------------------- simulation --
static void simulation() {
  bool probit = mc::flip(), wt = mc::flip(), weightedEval = mc::flip();
  int which = mc::choose(3), N = 16, k = 2, goals = 1 + mc::choose(15); // costs, brier, auc, table
  int sims = mc::range(1, mc::qt(3, 5)), size = mc::choose(4);
  int fewer = mc::choose(3); // rows less than declared
  unsigned seed = 1 + mc::choose(mc::qt(2, 5));
  if (wt == false && weightedEval)
    throw mc::Skip();
  double ratio = size == 0 ? 0.5 : size == 1 ? 0.75 : 0.6;
  int fix = size == 3 ? 10 : 0;
  Data d = base(which, N - fewer, k, wt, 2);
  mc::describe(fmt("simulation probit %d goals %d runs %d ratio %g size %d seed %u weighted scores %d declared %+d ", probit, goals, sims, ratio, fix, seed, weightedEval, fewer) + show(d));
  int rows = N - fewer;
  M all = table(d);
  Mat<double> A(nk::ref(all));
  std::vector<std::unique_ptr<Mat<double>>> keep;
  auto cost = costTables(keep, goals & 1 ? 2 : 0);
  bool brier = goals & 2, doAuc = goals & 4, freq = goals & 8;
  auto s = DiscreteChoiceSimBase::GetFromType(wt, mtype(false), dtype(probit), N, k + 1 + wt, 2, ratio, fix, (int)cost.size(), brier, doAuc, freq, nullptr, weightedEval);
  s->Seed = seed, s->SimulationMax = sims;
  Bufs b(s->StorageSize, s->WorkSize, 0xff);
  mc::Guard<int> wi((size_t)s->WorkSizeI, 0xff);
  bool cancel = false;
  RocOptions ro;
  for (int rep = 0; rep < 2; rep++) {
    bool threw = false;
    try {
      s->Calculate(A.m, cost.empty() ? nullptr : &cost, b.st.p, b.wk.p, wi.p, cancel, ro, true, nullptr, INT32_MAX);
    } catch (std::exception &) {
      threw = true;
    }
    mc::step();
    b.intact();
    mc::check(wi.intact(), "memory", "the integer work memory is exceeded");
    // the same splits, each estimated alone
    int N0 = fix ? fix : (int)std::round(rows * ratio), N1 = rows - N0;
    DataSplitDiscrete sp(rows, k + 1 + wt, 2);
    mc::Guard<double> ss((size_t)sp.StorageSize, 0);
    std::vector<int> swi((size_t)sp.WorkSizeI);
    std::mt19937 eng(seed);
    bool wrongSplit = false;
    int valid = 0;
    L sumB = 0, sumA = 0;
    std::vector<L> cs(cost.size(), 0), cn(cost.size(), 0);
    M tab(10, 2);
    bool boundary = false;
    try {
      sp.Calculate(A.m, ss.p, ratio, fix);
    } catch (std::exception &) {
      wrongSplit = true;
    }
    if (wrongSplit) {
      mc::check(threw, "simulation", "a sample that cannot be split is simulated");
      return;
    }
    for (int r = 0; r < sims; r++) {
      try {
        sp.Shuffle(A.m, swi.data(), eng);
      } catch (std::exception &) {
        wrongSplit = true;
        break;
      }
      Data tr, te;
      auto part = [&](Matrix<double> &m, Data &o) {
        o.x = M(m.RowsCount, k);
        for (int i = 0; i < m.RowsCount; i++) {
          o.y.push_back((int)m.Get0(i, 0));
          if (wt)
            o.w.push_back(m.Get0(i, 1));
          for (int j = 0; j < k; j++)
            o.x(i, j) = m.Get0(i, 1 + wt + j);
        }
      };
      part(sp.Sample0, tr), part(sp.Sample1, te);
      Est e(tr, probit, false);
      e.e->Optim.IterationMax = s->Optim.IterationMax;
      e.e->Optim.TolFunction = s->Optim.TolFunction;
      e.e->Optim.TolGradient = s->Optim.TolGradient;
      e.e->Optim.UseLineSearch = s->Optim.UseLineSearch;
      e.run();
      if (e.threw)
        continue;
      valid++;
      auto be = e.beta();
      Link F{probit};
      std::vector<L> p1, w1 = weightedEval ? te.w : std::vector<L>(te.y.size(), 1);
      L br = 0, sw = 0;
      M pr(N1, 2);
      for (int i = 0; i < N1; i++) {
        L p = prob(F, te.x, i, 1, 2, be);
        p1.push_back(p);
        pr(i, 0) = 1 - p, pr(i, 1) = p;
        br += w1[i] * (te.y[i] - p) * (te.y[i] - p), sw += w1[i];
        L act = te.y[i] ? p : 1 - p;
        int bin = std::min(9, (int)std::floor(act * 10));
        boundary |= std::fabs(act * 10 - std::round(act * 10)) < 1e-7L;
        tab(bin, te.y[i]) += wt ? te.w[i] : 1;
      }
      sumB += br / sw;
      if (doAuc) {
        Mat<double> P(nk::ref(pr)), Y(column(te.y)), W(column(w1));
        ROC<true, false> roc(N1);
        // probabilities that tie are compared exactly by the library
        for (int i = 0; i < N1; i++)
          for (int j = 0; j < i; j++)
            if (p1[i] != p1[j] && std::fabs(p1[i] - p1[j]) < 1e-9L)
              boundary = true;
        roc.Calculate(Y.m, P.m, &W.m, ro);
        sumA += roc.Result;
      }
      if (!cost.empty()) {
        Mat<double> P(nk::ref(pr)), Y(column(te.y)), W(column(w1));
        FrequencyCost<true> fc((int)cost.size());
        mc::Guard<double> fs((size_t)fc.StorageSize, 0);
        fc.Calculate(cost, Y.m, P.m, &W.m, fs.p);
        for (size_t q = 0; q < cost.size(); q++)
          cs[q] += fc.CostSums.Data[q], cn[q] += fc.CostCounts.Data[q];
      }
    }
    mc::outcome(wrongSplit ? 1 : valid == 0 ? 2 : 3);
    if (wrongSplit || valid == 0) {
      mc::check(threw, "simulation", "no run is valid but the simulation succeeds");
      return;
    }
    mc::check(!threw, "simulation", "valid runs exist but the simulation fails");
    mc::eqi(s->ValidSimulationCount, valid, "simulation", "number of valid runs");
    mc::eqi(s->SimulationCounter, sims, "simulation", "number of runs");
    mc::eqi(s->N1, N1, "simulation", "size of the test sample");
    if (brier)
      mc::eq(s->BrierScore, (double)(sumB / valid), "simulation", "Brier score", 1e-8);
    if (boundary)
      return;
    if (doAuc && !std::isnan((double)sumA))
      mc::eq(s->Auc, (double)(sumA / valid), "simulation", "AUC", 1e-8);
    for (size_t q = 0; q < cost.size(); q++)
      mc::eq(s->CostRatios.Data[q], (double)(cs[q] / cn[q]), "simulation", fmt("cost ratio %d", (int)q), 1e-8);
    if (freq && (!wt || weightedEval))
      nk::same(s->FrequencyTable, tab, "simulation", "frequency table", 1e-9);
  }
}

int main(int argc, char **argv) {
  return mc::harness_main(
      argc, argv,
      {
          {"c25_binary", binary, "every multiset of 5 (7) observations over 3 regressor values and 2 labels, 6 weightings, both links"},
          {"c25_binary3", binary3, "every multiset of 6 (7) observations over 2x2 regressor values and 2 labels, with and without intercept"},
          {"c25_ordered3", ordered3, "every multiset of 5 (6) observations over 3 regressor values and 3 labels, 3 forms"},
          {"c25_ordered4", ordered4, "every multiset of 6 (7) observations over 2 regressor values and 4 labels"},
          {"c25_reorder", reorder, "orders of 4 (6) observations and of the regressors"},
          {"c25_starts", starts, "starting values, label count given or not"},
          {"c25_invalid", invalid, "labels outside the choices at every position, wrong shapes and sizes"},
          {"c25_extended", extended, "every subset of 5 missing cells, new rows, scores, weights"},
          {"c25_extended_pca", extendedPca, "principal component options, new rows"},
          {"c25_simulation", simulation, "every selection of scores, sizes, seeds, fewer rows than declared"},
      });
}
