// C22: distribution functions are mutually consistent, for every distribution
// of the library on a grid of parameters and arguments.  Boost's densities are
// used only as an independent definition of which distribution it is.
#include "distributions.h"
#include "mc.h"
#include <boost/math/distributions.hpp>
#include <boost/math/quadrature/tanh_sinh.hpp>
using namespace ldt;
using mc::fmt;
using Vec = std::vector<double>;
using D = std::unique_ptr<DistributionBase>;
using DT = DistributionType;
namespace bm = boost::math;
namespace bp = boost::math::policies;
typedef bp::policy<bp::overflow_error<bp::ignore_error>,
                   bp::domain_error<bp::ignore_error>,
                   bp::pole_error<bp::ignore_error>,
                   bp::evaluation_error<bp::ignore_error>,
                   bp::rounding_error<bp::ignore_error>,
                   bp::underflow_error<bp::ignore_error>,
                   bp::denorm_error<bp::ignore_error>>
    Pol;

struct Spec {
  DT type;
  double a, b;
  std::string name() const {
    return fmt("%c(%g,%g)", (char)type, a, b);
  }
};
struct Ref { // independent definition
  std::function<double(double)> pdf, cdf;
  double mean, var, skew, kurt, mn, mx;
};
template <class X> static Ref wrap(X x, double mn, double mx) {
  Ref r;
  r.pdf = [x](double v) { return bm::pdf(x, v); };
  r.cdf = [x](double v) { return bm::cdf(x, v); };
  r.mean = bm::mean(x), r.var = bm::variance(x), r.skew = bm::skewness(x);
  r.kurt = bm::kurtosis_excess(x), r.mn = mn, r.mx = mx;
  return r;
}
static Ref ref(const Spec &s) {
  const double I = INFINITY;
  switch (s.type) {
  case DT::kNormal:
    return wrap(bm::normal_distribution<double, Pol>(s.a, s.b), -I, I);
  case DT::kLogNormal:
    return wrap(bm::lognormal_distribution<double, Pol>(s.a, s.b), 0, I);
  case DT::kUniformCon:
    return wrap(bm::uniform_distribution<double, Pol>(s.a, s.b), s.a, s.b);
  case DT::kChi2:
    return wrap(bm::chi_squared_distribution<double, Pol>(s.a), 0, I);
  case DT::kT:
    return wrap(bm::students_t_distribution<double, Pol>(s.a), -I, I);
  case DT::kExponential:
    return wrap(bm::exponential_distribution<double, Pol>(s.a), 0, I);
  case DT::kF:
    return wrap(bm::fisher_f_distribution<double, Pol>(s.a, s.b), 0, I);
  case DT::kGamma:
    return wrap(bm::gamma_distribution<double, Pol>(s.a, s.b), 0, I);
  case DT::kBeta:
    return wrap(bm::beta_distribution<double, Pol>(s.a, s.b), 0, 1);
  default:
    break;
  }
  throw std::logic_error("ref");
}
static std::vector<Spec> conts() {
  static std::vector<Spec> v;
  if (!v.empty())
    return v;
  auto add = [](DT t, Vec a, Vec b) {
    for (double x : a)
      for (double y : b)
        v.push_back({t, x, y});
  };
  bool T = mc::thorough();
  add(DT::kNormal, {-3, 0, 2.5}, {.1, 1, 7});
  add(DT::kLogNormal, {-1, 0, 1.5}, {.25, 1, 1.5});
  v.push_back({DT::kUniformCon, -2, 3});
  v.push_back({DT::kUniformCon, 0, 1});
  v.push_back({DT::kUniformCon, 5, 5.5});
  add(DT::kChi2, {.5, 1, 2, 3, 7.5, 50, 400}, {0});
  add(DT::kT, {.5, 1, 2, 2.5, 3, 3.5, 4, 5, 30, 400}, {0});
  add(DT::kExponential, {.1, 1, 20}, {0});
  for (auto p : std::vector<std::pair<double, double>>{{1, 1}, {2, 3}, {3, 5}, {5, 7}, {10, 9}, {4.5, 30}, {300, 500}, {1, 8.5}, {7, 4}, {2, 6}, {60, 2}})
    v.push_back({DT::kF, p.first, p.second});
  add(DT::kGamma, {.4, 1, 2.5, 30, 300}, {.2, 1, 3});
  add(DT::kBeta, {.5, 1, 1.5, 3, 40, 600}, {.5, 1, 1.5, 3, 40, 600});
  if (T) {
    add(DT::kNormal, {-1e3, .3, 1e4}, {1e-3, 2, 50});
    add(DT::kLogNormal, {-4, .3, 4}, {.05, .7, 2});
    add(DT::kChi2, {.1, 1.5, 4, 6, 9, 10, 17, 120, 1000}, {0});
    add(DT::kT, {.3, 1.5, 2.01, 4.01, 6, 8.5, 11, 100, 5000}, {0});
    add(DT::kExponential, {.001, .5, 2, 3, 1000}, {0});
    add(DT::kF, {.7, 2, 4, 9, 25, 150}, {.7, 2, 4, 6, 8, 9, 25, 150});
    add(DT::kGamma, {.1, .7, 1.5, 2, 5, 11, 80, 1000}, {.01, .7, 1.5, 40});
    add(DT::kBeta, {.1, .7, 2, 5, 11, 90}, {.1, .7, 2, 5, 11, 90});
  }
  return v;
}
static Vec probs() {
  Vec p{1e-12, 1e-6, 1e-3, .01, .05};
  int n = mc::qt(10, 50);
  for (int i = 1; i < n; i++)
    p.push_back(.05 + .9 * i / n);
  for (double x : {.95, .99, .999, 1 - 1e-6, 1 - 1e-9})
    p.push_back(x);
  return p;
}
static D make(const Spec &s) {
  mc::step();
  return DistributionBase::GetDistributionFromType(s.type, s.a, s.b, 0, 0);
}

// -------------------------------------------------------------- continuous --
static void cont_curve() {
  Spec s = mc::pick(conts());
  D d = make(s);
  Ref r = ref(s);
  std::string n = s.name();
  mc::describe(n);
  MC_CHECK(!d->IsDiscrete(), "kind", "%s is discrete", n.c_str());
  mc::eq(d->GetMinimum(), r.mn, "min", n + " minimum");
  mc::eq(d->GetMaximum(), r.mx, "max", n + " maximum");
  mc::eq(d->GetCdf(-INFINITY), 0, "cdf-inf", n + " cdf(-inf)");
  mc::eq(d->GetCdf(INFINITY), 1, "cdf-inf", n + " cdf(+inf)");
  if (!std::isinf(r.mn)) {
    mc::eq(d->GetCdf(r.mn), 0, "cdf-end", n + " cdf(min)");
    mc::eq(d->GetCdf(r.mn - .5), 0, "cdf-out", n + " cdf below");
    mc::eq(d->GetPdfOrPmf(r.mn - .5), 0, "pdf-out", n + " pdf below");
    mc::eq(d->GetPdfOrPmfLog(r.mn - .5), -INFINITY, "pdf-out", n + " log pdf below");
  }
  if (!std::isinf(r.mx)) {
    mc::eq(d->GetCdf(r.mx), 1, "cdf-end", n + " cdf(max)");
    mc::eq(d->GetCdf(r.mx + .5), 1, "cdf-out", n + " cdf above");
    mc::eq(d->GetPdfOrPmf(r.mx + .5), 0, "pdf-out", n + " pdf above");
    mc::eq(d->GetPdfOrPmfLog(r.mx + .5), -INFINITY, "pdf-out", n + " log pdf above");
  }
  mc::eq(d->GetQuantile(0), r.mn, "quantile-0", n + " quantile(0)");
  mc::eq(d->GetQuantile(1), r.mx, "quantile-1", n + " quantile(1)");
  // the ends of the support
  for (double x : {r.mn, r.mx})
    if (!std::isinf(x)) {
      double f = d->GetPdfOrPmf(x), l = d->GetPdfOrPmfLog(x);
      MC_CHECK(f >= 0, "pdf-end", "%s pdf(%g)=%g", n.c_str(), x, f);
      mc::eq(l, std::log(f), "logpdf-end", n + fmt(" log pdf(%g)", x));
      double e = x == r.mn ? x + 1e-13 * std::max(1e-290, std::fabs(x)) : x - 1e-13 * std::fabs(x);
      double g = d->GetPdfOrPmf(e);
      if (std::isinf(f))
        MC_CHECK(g > 100 || (s.type == DT::kBeta && g > 10), "pdf-end-limit",
                 "%s pdf(end)=inf, near %g", n.c_str(), g);
      else
        MC_CHECK(std::fabs(f - g) <= 2e-2 * std::max(1.0, f), "pdf-end-limit",
                 "%s pdf(%g)=%g but near it %g", n.c_str(), x, f, g);
    } else {
      mc::eq(d->GetPdfOrPmf(x), 0, "pdf-inf", n + " pdf(inf)");
    }
  double prevx = r.mn, prevF = 0;
  double best = 0;
  for (double p : probs()) {
    mc::step(4);
    double x = d->GetQuantile(p);
    std::string at = n + fmt(" at p=%.12g x=%.17g", p, x);
    MC_CHECK(x >= r.mn && x <= r.mx, "quantile-range", "%s outside", at.c_str());
    MC_CHECK(x >= prevx, "quantile-monotone", "%s previous %g", at.c_str(), prevx);
    double F = d->GetCdf(x);
    double e = std::fabs(r.pdf(x) * x) * 3e-15; // one-ulp changes of x
    MC_CHECK(std::fabs(F - p) <= 4e-9 * std::min(1.0, 1e3 * p) + e + 2e-12, "quantile-inverse",
             "%s cdf=%.17g", at.c_str(), F);
    MC_CHECK(F >= prevF - 1e-15, "cdf-monotone", "%s cdf=%.17g after %.17g", at.c_str(), F, prevF);
    mc::eq(F, r.cdf(x), "cdf", at + " cdf", 4e-9);
    double f = d->GetPdfOrPmf(x), l = d->GetPdfOrPmfLog(x), g = r.pdf(x);
    MC_CHECK(f >= 0 && (f == g || std::fabs(f - g) <= 1e-8 * g + 1e-300), "pdf",
             "%s pdf=%.15g want %.15g", at.c_str(), f, g);
    MC_CHECK(l == std::log(g) || std::fabs(l - std::log(g)) <= 1e-8 * std::max(1.0, std::fabs(l)), "logpdf",
             "%s log pdf=%.15g want %.15g", at.c_str(), l, std::log(g));
    // midpoint between two quantiles: F monotone there as well
    if (std::isfinite(prevx)) {
      double m = prevx + (x - prevx) / 2, Fm = d->GetCdf(m);
      MC_CHECK(Fm >= prevF - 1e-14 && Fm <= F + 1e-14, "cdf-monotone",
               "%s cdf(mid %g)=%.15g", at.c_str(), m, Fm);
      best = std::max(best, d->GetPdfOrPmf(m));
    }
    best = std::max(best, f);
    prevx = x, prevF = F;
    mc::state(at);
  }
  double md = d->GetMode();
  if (!std::isnan(md)) {
    double f = d->GetPdfOrPmf(md);
    MC_CHECK(md >= r.mn && md <= r.mx && f >= best * (1 - 1e-9), "mode",
             "%s mode=%g with density %g, but %g is reached", n.c_str(), md, f, best);
  }
  double me = d->GetMedian();
  if (!std::isnan(me))
    mc::eq(d->GetCdf(me), .5, "median", n + fmt(" cdf(median=%g)", me), 1e-9);
  mc::outcome(mc::hash_str(n));
}
static void cont_moments() {
  Spec s = mc::pick(conts());
  D d = make(s);
  Ref r = ref(s);
  std::string n = s.name();
  mc::describe(n + " moments");
  auto cmp = [&](double got, double want, const char *k) {
    mc::step();
    if (std::isnan(want)) // the moment does not exist
      MC_CHECK(std::isnan(got) || std::isinf(got), k, "%s %s=%g but it does not exist", n.c_str(), k, got);
    else if (std::isinf(want))
      MC_CHECK(!std::isfinite(got), k, "%s %s=%g but it is infinite", n.c_str(), k, got);
    else
      mc::eq(got, want, k, n + " " + k, 1e-8);
  };
  cmp(d->GetMean(), r.mean, "mean");
  cmp(d->GetVariance(), r.var, "variance");
  cmp(d->GetSandardDeviation(), std::sqrt(r.var), "sd");
  cmp(d->GetSkewness(), r.skew, "skewness");
  cmp(d->GetKurtosis(), r.kurt, "kurtosis");
  using P = DistributionProperty;
  auto same = [&](P p, double v, const char *k) {
    double g = d->GetProperty(p);
    MC_CHECK((std::isnan(g) && std::isnan(v)) || g == v, "property", "%s property %s=%g but getter %g", n.c_str(), k, g, v);
  };
  same(P::kMean, d->GetMean(), "mean");
  same(P::kVariance, d->GetVariance(), "variance");
  same(P::kStandardError, d->GetSandardDeviation(), "sd");
  same(P::kSkewness, d->GetSkewness(), "skewness");
  same(P::kKurtosis, d->GetKurtosis(), "kurtosis");
  same(P::kMinimum, d->GetMinimum(), "min");
  same(P::kMaximum, d->GetMaximum(), "max");
  same(P::kMedian, d->GetMedian(), "median");
  same(P::kMode, d->GetMode(), "mode");
}
/// deterministic Kolmogorov-Smirnov distance
static double ks(Vec x, const std::function<double(double)> &cdf, const std::function<double(double)> &left) {
  std::sort(x.begin(), x.end());
  double m = 0, N = x.size();
  for (size_t i = 0; i < x.size();) {
    size_t j = i;
    while (j < x.size() && x[j] == x[i])
      j++;
    m = std::max(m, std::fabs(cdf(x[i]) - j / N));
    m = std::max(m, std::fabs(left(x[i]) - i / N));
    i = j;
  }
  return m;
}
static void sampling(DistributionBase &d, const std::string &n, bool beta,
                     const std::function<double(double)> &cdf, const std::function<double(double)> &left,
                     double lo, double hi) {
  const int N = mc::qt(3000, 20000);
  unsigned seed = mc::pick({340u, 7u});
  mc::describe(n + fmt(" seed %u", seed));
  mc::Guard<double> a(N), b(N);
  try {
    d.GetSample(a.p, N, seed);
  } catch (std::exception &) {
    MC_CHECK(beta, "sample-throws", "%s cannot be sampled", n.c_str());
    return;
  }
  mc::step(2);
  d.GetSample(b.p, N, seed);
  MC_CHECK(a.intact() && b.intact(), "sample-bounds", "%s writes before its sample", n.c_str());
  Vec va(a.p, a.p + N), vb(b.p, b.p + N);
  MC_CHECK(va == vb, "sample-repeat", "%s sample differs with the same seed", n.c_str());
  for (double x : va)
    MC_CHECK(x >= lo && x <= hi, "sample-support", "%s sampled %g", n.c_str(), x);
  double k = ks(va, cdf, left);
  MC_CHECK(k <= 2.5 / std::sqrt(N), "sample-law", "%s sample of %d is %g away from its distribution", n.c_str(), N, k);
  std::mt19937 eng(seed);
  Vec c;
  for (int i = 0; i < N; i++)
    c.push_back(d.GetSample1(eng));
  k = ks(c, cdf, left);
  MC_CHECK(k <= 2.5 / std::sqrt(N), "sample1-law", "%s single samples (%d) are %g away from the distribution", n.c_str(), N, k);
  if (d.GetVariance() > 0) {
    d.GetSample(b.p, N, seed + 1);
    Vec vd(b.p, b.p + N);
    MC_CHECK(va != vd, "sample-seed", "%s sample ignores the seed", n.c_str());
  }
}
static void cont_sample() {
  Spec s = mc::pick(conts());
  D d = make(s);
  Ref r = ref(s);
  sampling(*d, s.name(), s.type == DT::kBeta, r.cdf, r.cdf, r.mn, r.mx);
}

// ---------------------------------------------------------------- discrete --
static std::vector<Spec> discs() {
  static std::vector<Spec> v;
  if (!v.empty())
    return v;
  v = {{DT::kUniformDis, -3, 4}, {DT::kUniformDis, 0, 0}, {DT::kUniformDis, 2, 30}};
  for (double p : {0.0, .2, .5, .7, 1.0})
    v.push_back({DT::kBernoulli, p, 0});
  for (double l : {.01, .3, 1.0, 2.5, 3.0, 10.0, 47.3, 1000.0})
    v.push_back({DT::kPoisson, l, 0});
  for (double p : {.01, .2, .5, .9, 1.0})
    v.push_back({DT::kGeometric, p, 0});
  for (double p : {0.0, .01, .3, .5, .95, 1.0})
    for (double n : {1, 2, 7, 100, 1000})
      v.push_back({DT::kBinomial, p, n});
  if (mc::thorough()) {
    for (double l : {.1, .69, .7, 5.0, 20.0, 99.5, 300.0})
      v.push_back({DT::kPoisson, l, 0});
    for (double p : {.001, .05, .1, .3, .35, .4, .6, .75})
      v.push_back({DT::kGeometric, p, 0});
    for (double p : {.001, .1, .2, .4, .6, .75, .999})
      for (double n : {1, 3, 4, 5, 10, 31, 64, 400, 1029})
        v.push_back({DT::kBinomial, p, n});
  }
  return v;
}
struct Table {
  int lo, hi;
  Vec pmf, cdf;
  double mean = 0, var = 0, skew = 0, kurt = 0;
  double P(double x) const {
    if (x != std::floor(x) || x < lo || x > hi)
      return 0;
    return pmf[(int)x - lo];
  }
  double F(double x) const {
    double k = std::floor(x);
    return k < lo ? 0 : k > hi ? 1 : cdf[(int)k - lo];
  }
};
static Table table(const Spec &s) { // long double sums
  Table t;
  std::vector<long double> p;
  auto lg = [](long double x) { return lgammal(x); };
  switch (s.type) {
  case DT::kUniformDis:
    t.lo = s.a, t.hi = s.b;
    for (int i = t.lo; i <= t.hi; i++)
      p.push_back(1.0L / (t.hi - t.lo + 1));
    break;
  case DT::kBernoulli:
    t.lo = 0, t.hi = 1;
    p = {1.0L - (long double)s.a, (long double)s.a};
    break;
  case DT::kPoisson:
    t.lo = 0, t.hi = (int)(s.a + 40 * std::sqrt(s.a) + 60);
    for (int i = 0; i <= t.hi; i++)
      p.push_back(expl(i * logl(s.a) - s.a - lg(i + 1.0L)));
    break;
  case DT::kGeometric:
    t.lo = 0, t.hi = s.a == 1 ? 1 : (int)(-60 / std::log1p(-s.a)) + 5;
    for (int i = 0; i <= t.hi; i++)
      p.push_back(s.a * powl(1.0L - (long double)s.a, i));
    break;
  default: {
    int n = s.b;
    t.lo = 0, t.hi = n;
    for (int i = 0; i <= n; i++) {
      long double q = s.a == 0 ? (i == 0) : s.a == 1 ? (i == n)
                      : expl(lg(n + 1.0L) - lg(i + 1.0L) - lg(n - i + 1.0L) +
                             i * logl(s.a) + (n - i) * log1pl(-(long double)s.a));
      p.push_back(q);
    }
  }
  }
  long double c = 0, m = 0, v = 0, k3 = 0, k4 = 0;
  for (size_t i = 0; i < p.size(); i++) {
    c += p[i], m += p[i] * (t.lo + (int)i);
    t.pmf.push_back((double)p[i]), t.cdf.push_back((double)std::min(1.0L, c));
  }
  for (size_t i = 0; i < p.size(); i++) {
    long double d = t.lo + (int)i - m;
    v += p[i] * d * d, k3 += p[i] * d * d * d, k4 += p[i] * d * d * d * d;
  }
  t.mean = m, t.var = v;
  t.skew = v > 0 ? (double)(k3 / powl(v, 1.5L)) : NAN;
  t.kurt = v > 0 ? (double)(k4 / (v * v) - 3) : NAN;
  return t;
}
static void disc_curve() {
  Spec s = mc::pick(discs());
  D d = make(s);
  Table t = table(s);
  std::string n = s.name();
  mc::describe(n);
  MC_CHECK(d->IsDiscrete(), "kind", "%s is continuous", n.c_str());
  mc::eqi(d->GetPmfSupportIncrement(), 1, "increment", n);
  mc::eq(d->GetMinimum(), t.lo, "min", n + " minimum");
  double mx = s.type == DT::kPoisson || s.type == DT::kGeometric ? INFINITY : t.hi;
  mc::eq(d->GetMaximum(), mx, "max", n + " maximum");
  mc::eq(d->GetCdf(-INFINITY), 0, "cdf-inf", n + " cdf(-inf)");
  mc::eq(d->GetCdf(INFINITY), 1, "cdf-inf", n + " cdf(+inf)");
  mc::eq(d->GetQuantile(0), t.lo, "quantile-0", n);
  mc::eq(d->GetQuantile(1), mx, "quantile-1", n);
  double prev = 0, best = 0;
  for (int k = t.lo - 2; k <= t.hi + 2; k++) {
    mc::step(6);
    std::string at = n + fmt(" at %d", k);
    bool tail = k > t.hi && std::isinf(mx);
    double p = d->GetPdfOrPmf(k), l = d->GetPdfOrPmfLog(k), F = d->GetCdf(k);
    if (!tail) {
      MC_CHECK(p >= 0 && std::fabs(p - t.P(k)) <= 1e-7 * t.P(k) + 1e-60, "pmf", "%s pmf=%.15g want %.15g", at.c_str(), p, t.P(k));
      if (t.P(k) > 1e-290)
        mc::eq(l, std::log(t.P(k)), "logpmf", at + " log pmf", 1e-9);
      else if (t.P(k) == 0 && (k < t.lo || k > mx))
        mc::eq(l, -INFINITY, "logpmf", at + " log pmf");
    }
    mc::eq(F, t.F(k), "cdf", at + " cdf", 1e-9);
    MC_CHECK(F >= prev - 1e-15, "cdf-monotone", "%s cdf=%.17g after %.17g", at.c_str(), F, prev);
    for (double h : {.25, .5, .999999}) {
      mc::eq(d->GetCdf(k + h), F, "cdf-between", at + fmt(" cdf(+%g)", h), 1e-12);
      mc::eq(d->GetPdfOrPmf(k + h), 0, "pmf-between", at + fmt(" pmf(+%g)", h));
      mc::eq(d->GetPdfOrPmfLog(k + h), -INFINITY, "pmf-between", at + fmt(" log pmf(+%g)", h));
    }
    // quantile: smallest x whose (own) cdf reaches p, also right at the steps
    if (k >= t.lo && k <= t.hi && F > 1e-14 && F < 1 - 1e-12 && (k - t.lo < mc::qt(60, 100000) || k % 10 == 0)) {
      double G = k > t.lo ? d->GetCdf(k - 1) : 0;
      if (F - G > 1e-13) {
        mc::step(4);
        mc::eq(d->GetQuantile(F), k, "quantile-step", at + fmt(" quantile(cdf=%.17g)", F));
        mc::eq(d->GetQuantile((F + G) / 2), k, "quantile", at + fmt(" quantile(%.17g)", (F + G) / 2));
        if (F + 1e-10 < 1 && d->GetCdf(k + 1) > F + 1e-10)
          mc::eq(d->GetQuantile(F + 1e-11), k + 1, "quantile-step", at + " quantile just above the step");
        if (F - G > 1e-10)
          mc::eq(d->GetQuantile(F - 1e-11), k, "quantile-step", at + " quantile just below the step");
      }
    }
    prev = F, best = std::max(best, p);
    mc::state(at);
  }
  double md = d->GetMode();
  if (!std::isnan(md))
    MC_CHECK(d->GetPdfOrPmf(md) >= best * (1 - 1e-9), "mode", "%s mode=%g has %g but %g is reached", n.c_str(), md, d->GetPdfOrPmf(md), best);
  double me = d->GetMedian();
  if (!std::isnan(me))
    MC_CHECK(t.F(me) >= .5 - 1e-12 && 1 - t.F(me) + t.P(me) >= .5 - 1e-12, "median", "%s median=%g", n.c_str(), me);
  mc::outcome(mc::hash_str(n));
}
static void disc_moments() {
  Spec s = mc::pick(discs());
  D d = make(s);
  Table t = table(s);
  std::string n = s.name();
  mc::describe(n + " moments");
  mc::step(5);
  mc::eq(d->GetMean(), t.mean, "mean", n + " mean", 1e-8);
  mc::eq(d->GetVariance(), t.var, "variance", n + " variance", 1e-8);
  mc::eq(d->GetSandardDeviation(), std::sqrt(t.var), "sd", n + " sd", 1e-8);
  if (t.var > 1e-12) {
    mc::eq(d->GetSkewness(), t.skew, "skewness", n + " skewness", 1e-6);
    mc::eq(d->GetKurtosis(), t.kurt, "kurtosis", n + " kurtosis", 1e-6);
  }
  // listing of the support
  double lo = mc::pick({-2., 0., 3.}), hi = mc::pick({4., 9.});
  bool log = mc::flip(), plot = mc::flip();
  Ti len = d->GetPmfSupportSize(lo, hi);
  double a = lo, b = hi;
  if (s.type == DT::kUniformDis || s.type == DT::kBinomial)
    a = std::max(lo, (double)t.lo), b = std::min(hi, (double)t.hi);
  if (s.type == DT::kBernoulli)
    a = 0, b = 1;
  if (b < a)
    return; // an empty window is outside the contract
  mc::eqi(len, (int)(b - a) + 1, "support-size", n + fmt(" [%g,%g]", lo, hi));
  int m = plot ? 3 : 1;
  mc::Guard<double> X(len * m), Y(len * m);
  d->GetPmfSupport(X.p, Y.p, log, len * m, plot, a);
  MC_CHECK(X.intact() && Y.intact(), "support-bounds", "%s writes before its output", n.c_str());
  for (int i = 0; i < len; i++) {
    double x = a + i, v = log ? d->GetPdfOrPmfLog(x) : d->GetPdfOrPmf(x);
    if (!plot) {
      mc::eq(X[i], x, "support-x", n + fmt(" item %d", i));
      mc::eq(Y[i], v, "support-y", n + fmt(" item %d", i));
    } else
      for (int j = 0; j < 3; j++) {
        mc::eq(X[3 * i + j], x, "support-x", n + fmt(" item %d", i));
        mc::eq(Y[3 * i + j], j == 1 ? v : 0, "support-y", n + fmt(" item %d/%d", i, j));
      }
  }
}
static void disc_sample() {
  Spec s = mc::pick(discs());
  D d = make(s);
  Table t = table(s);
  double mx = d->GetMaximum();
  sampling(*d, s.name(), false, [&](double x) { return t.F(x); }, [&](double x) { return t.F(x - 1); }, t.lo, mx);
}

// --------------------------------------------------------------------- GLD --
static double gq(double p, double l1, double l2, double l3, double l4) {
  auto part = [](double u, double l) { return l == 0 ? std::log(u) : (std::pow(u, l) - 1) / l; };
  return l1 + (part(p, l3) - part(1 - p, l4)) / l2;
}
static void gld_curve() {
  double l1 = mc::pick({-1., 0., 2.}), l2 = mc::pick({.5, 1., 3.});
  double l3 = mc::pick({-.4, -.2, 0., .13, .5, 1., 1.5, 2., 3.});
  double l4 = mc::pick({-.4, -.2, 0., .13, .5, 1., 1.5, 2., 3.});
  D d = DistributionBase::GetDistributionFromType(DT::kGldFkml, l1, l2, l3, l4);
  std::string n = fmt("gld(%g,%g,%g,%g)", l1, l2, l3, l4);
  mc::describe(n);
  double mn = l3 > 0 ? l1 - 1 / (l2 * l3) : -INFINITY, mx = l4 > 0 ? l1 + 1 / (l2 * l4) : INFINITY;
  mc::eq(d->GetMinimum(), mn, "gld-min", n + " minimum");
  mc::eq(d->GetMaximum(), mx, "gld-max", n + " maximum");
  mc::eq(d->GetQuantile(0), mn, "gld-q0", n);
  mc::eq(d->GetQuantile(1), mx, "gld-q1", n);
  int region = DistributionGld::GetGldFklmRegion(l3, l4);
  mc::eqi(region, l3 <= 0 ? (l4 > 0 ? 1 : 4) : (l4 > 0 ? 3 : 2), "gld-region", n);
  double prev = mn;
  for (double p : probs()) {
    mc::step(3);
    double x = d->GetQuantile(p);
    std::string at = n + fmt(" p=%g", p);
    mc::eq(x, gq(p, l1, l2, l3, l4), "gld-quantile", at, 1e-10);
    mc::eq(DistributionGld::GetQuantile(p, l1, l2, l3, l4), x, "gld-static", at);
    MC_CHECK(x >= prev, "gld-monotone", "%s", at.c_str());
    double want = l2 / (std::pow(p, l3 - 1) + std::pow(1 - p, l4 - 1));
    mc::eq(d->GetDensityQuantile(p), want, "gld-density", at, 1e-10);
    mc::eq(DistributionGld::GetDensityQuantile(p, l1, l2, l3, l4), want, "gld-density", at, 1e-10);
    prev = x;
    mc::state(at);
  }
  double me = d->GetMedian();
  if (!std::isnan(me))
    mc::eq(me, gq(.5, l1, l2, l3, l4), "gld-median", n, 1e-10);
  // moments
  bm::quadrature::tanh_sinh<double> ts;
  auto raw = [&](int k, double c, double sc, bool dev) {
    // integrate (Q(p)-c)^k with both tails written in their own variable
    auto f = [&](double p, double pc) {
      double u = pc < 0 ? -pc : p, v = pc < 0 ? 1 + pc : pc; // p and 1-p
      (void)dev;
      auto part = [](double w, double l) { return l == 0 ? std::log(w) : (std::pow(w, l) - 1) / l; };
      return std::pow((l1 + (part(u, l3) - part(v, l4)) / l2 - c) / sc, k);
    };
    return ts.integrate(f, 0.0, 1.0);
  };
  double lm = std::min(l3, l4);
  double mean = NAN, var = NAN;
  if (lm > -.45) {
    mean = raw(1, 0, 1, false);
    mc::eq(d->GetMean(), mean, "gld-mean", n, 1e-6);
  }
  if (lm > -.21) {
    var = raw(2, mean, 1, true);
    mc::eq(d->GetVariance(), var, "gld-variance", n, 1e-5);
    mc::eq(d->GetSandardDeviation(), std::sqrt(var), "gld-sd", n, 1e-5);
    double sd = std::sqrt(var);
    mc::eq(d->GetSkewness(), raw(3, mean, sd, true), "gld-skewness", n, 2e-4);
    if (lm > -.1 || !std::isnan(d->GetKurtosis()))
      mc::eq(d->GetKurtosis(), raw(4, mean, sd, true) - 3, "gld-kurtosis", n, lm > -.1 ? 1e-4 : 2e-2);
  }
  double M[5];
  if (lm <= -.25)
    return; // the fourth moment does not exist
  DistributionGld::GetMs(l3, l4, M[1], M[2], M[3], M[4]);
  for (int k = 1; k <= 4; k++)
    if (lm > -1. / k && !(l3 == l4 && (k == 1 || k == 3)))
      mc::eq(M[k], DistributionGld::GetMk(k, l3, l4), "gld-ms", n + fmt(" M%d", k), 1e-8);
}
static void gld_sample() {
  double l1 = mc::pick({-1., 2.}), l2 = mc::pick({.5, 3.});
  double l3 = mc::pick({-.2, 0., .5, 2.}), l4 = mc::pick({-.2, 0., .5, 2.});
  D d = DistributionBase::GetDistributionFromType(DT::kGldFkml, l1, l2, l3, l4);
  std::string n = fmt("gld(%g,%g,%g,%g)", l1, l2, l3, l4);
  auto cdf = [=](double x) {
    double a = 0, b = 1;
    for (int i = 0; i < 200; i++) {
      double m = (a + b) / 2;
      (gq(m, l1, l2, l3, l4) < x ? a : b) = m;
    }
    return (a + b) / 2;
  };
  sampling(*d, n, false, cdf, cdf, d->GetMinimum(), d->GetMaximum());
}
static void gld_moments() {
  int type = mc::choose(12);
  double mean = mc::pick({-2., 0., 3.}), var = mc::pick({.5, 1., 9.});
  double skew = mc::pick({-.6, 0., .3, 1.}), kurt = mc::pick({-1., -.3, 0., 1., 3.});
  bool sym = type == 1 || type == 3 || type == 5 || type == 7 || type == 10;
  std::string n = fmt("gld moments type %d mean %g var %g skew %g kurt %g", type, mean, var, skew, kurt);
  mc::describe(n);
  NelderMead opt(sym ? 1 : 2);
  std::tuple<Tv, Tv, Tv, Tv> res;
  auto run = [&](double m, double v) {
    NelderMead o(sym ? 1 : 2);
    mc::step();
    return DistributionGld::GetFromMoments(m, v, skew, kurt, type, o, 0, 0);
  };
  res = run(mean, var);
  auto [L1, L2, L3, L4] = res;
  if (std::isnan(L3) || std::isnan(L4) || std::isnan(L2))
    return; // the search left the region where moments exist
  auto in = [](double x, double a, double b) { return x >= a - 1e-9 && x <= b + 1e-9; };
  bool ok = in(L3, -.25, INFINITY) && in(L4, -.25, INFINITY);
  const double I = INFINITY;
  switch (type) {
  case 2: case 3: ok &= in(L3, -I, 1) && in(L4, -I, 1); break;
  case 4: case 5: ok &= in(L3, -I, .5) && in(L4, -I, .5); break;
  case 6: case 7: ok &= in(L3, 2, I) && in(L4, 2, I); break;
  case 9: case 10: ok &= in(L3, 1, 2) && in(L4, 1, 2); break;
  case 11: ok &= in(L3, 1, I) && in(L4, -I, 1); break;
  }
  MC_CHECK(ok, "gld-shape", "%s: shapes (%g,%g) outside the type", n.c_str(), L3, L4);
  if (sym)
    mc::eq(L3, L4, "gld-symmetric", n);
  if (std::min(L3, L4) < -.15 || std::max(L3, L4) > 1e3 || std::fabs(L3) < 1e-3 || std::fabs(L4) < 1e-3)
    return;
  bm::quadrature::tanh_sinh<double> ts;
  double l1 = L1, l2 = L2, l3 = L3, l4 = L4;
  double m = ts.integrate([&](double p) { return gq(p, l1, l2, l3, l4); }, 0.0, 1.0);
  double v = ts.integrate([&](double p) { double e = gq(p, l1, l2, l3, l4) - m; return e * e; }, 0.0, 1.0);
  mc::eq(m, mean, "gld-fit-mean", n, 1e-4);
  mc::eq(v, var, "gld-fit-variance", n, 1e-3);
  // location and scale do not change the shape
  auto r2 = run(mean + 5, var * 4);
  mc::eq(std::get<2>(r2), L3, "gld-fit-shape", n, 1e-9);
  mc::eq(std::get<3>(r2), L4, "gld-fit-shape", n, 1e-9);
  mc::eq(std::get<1>(r2), L2 / 2, "gld-fit-scale", n, 1e-6);
  mc::outcome(mc::hash_str(fmt("%g %g", L3, L4)));
}

// ----------------------------------------------------------------- mixture --
static void mixture(bool disc) {
  static const std::vector<Spec> C{{DT::kNormal, 0, 1}, {DT::kNormal, 3, .5}, {DT::kGamma, 2.5, 1}, {DT::kUniformCon, -2, 3}, {DT::kUniformCon, -9, -5}, {DT::kExponential, 2, 0}};
  static const std::vector<Spec> Q{{DT::kUniformDis, -3, 4}, {DT::kUniformDis, -9, -7}, {DT::kBernoulli, .2, 0}, {DT::kPoisson, 2.5, 0}, {DT::kBinomial, .3, 7}, {DT::kGeometric, .5, 0}};
  auto &L = disc ? Q : C;
  int k = mc::range(1, mc::qt(3, 4));
  std::vector<D> own;
  std::vector<DistributionBase *> parts;
  Vec w;
  std::vector<Spec> sp;
  std::string n = "mix";
  double W = 0;
  for (int i = 0; i < k; i++) {
    Spec s = mc::pick(L);
    w.push_back(k < 3 || i == 0 ? mc::pick({.5, 1., 3.}) : mc::thorough() ? mc::pick({.5, 2.}) : .5 + i);
    W += w.back();
    sp.push_back(s);
    own.push_back(make(s));
    parts.push_back(own.back().get());
    n += " " + s.name() + fmt("*%g", w.back());
  }
  mc::describe(n);
  DistributionMixture m(w, parts);
  double mn = INFINITY, mx = -INFINITY, mean = 0;
  Vec mu, va, sk, ku;
  for (int i = 0; i < k; i++) {
    if (disc) {
      Table t = table(sp[i]);
      mu.push_back(t.mean), va.push_back(t.var), sk.push_back(t.skew), ku.push_back(t.kurt);
    } else {
      Ref r = ref(sp[i]);
      mu.push_back(r.mean), va.push_back(r.var), sk.push_back(r.skew), ku.push_back(r.kurt);
    }
    mn = std::min(mn, parts[i]->GetMinimum()), mx = std::max(mx, parts[i]->GetMaximum());
    mean += w[i] / W * mu[i];
  }
  double v = 0, m3 = 0, m4 = 0;
  for (int i = 0; i < k; i++) {
    double d = mu[i] - mean, a = w[i] / W, s3 = sk[i] * std::pow(va[i], 1.5), s4 = (ku[i] + 3) * va[i] * va[i];
    v += a * (va[i] + d * d);
    m3 += a * (s3 + 3 * d * va[i] + d * d * d);
    m4 += a * (s4 + 4 * d * s3 + 6 * d * d * va[i] + d * d * d * d);
  }
  mc::eq(m.GetMinimum(), mn, "mix-min", n);
  mc::eq(m.GetMaximum(), mx, "mix-max", n);
  double a = NAN, b = NAN, c = NAN, e = NAN;
  m.GetMoments(a, b);
  mc::step(3);
  mc::eq(a, mean, "mix-mean", n);
  mc::eq(b, v, "mix-variance", n);
  m.GetMoments(a, b, c, e);
  mc::eq(a, mean, "mix-mean", n);
  mc::eq(b, v, "mix-variance", n);
  mc::eq(c, m3 / std::pow(v, 1.5), "mix-skewness", n, 1e-8);
  mc::eq(e, m4 / (v * v) - 3, "mix-kurtosis", n, 1e-8);
  bool normal = true;
  for (auto &s : sp)
    normal &= s.type == DT::kNormal;
  if (normal) {
    m.GetMomentsNormal(a, b, c, e);
    mc::eq(a, mean, "mix-mean", n);
    mc::eq(b, v, "mix-variance", n);
    mc::eq(c, m3 / std::pow(v, 1.5), "mix-skewness", n, 1e-8);
    mc::eq(e, m4 / (v * v) - 3, "mix-kurtosis", n, 1e-8);
  }
  double prev = 0;
  for (double x = -10; x <= 12; x += .5) {
    mc::step(3);
    double F = 0, f = 0;
    for (int i = 0; i < k; i++)
      F += w[i] / W * parts[i]->GetCdf(x), f += w[i] / W * parts[i]->GetPdfOrPmf(x);
    mc::eq(m.GetCdf(x), F, "mix-cdf", n + fmt(" at %g", x));
    MC_CHECK(m.GetCdf(x) >= prev - 1e-15, "mix-monotone", "%s at %g", n.c_str(), x);
    prev = F;
    mc::eq(m.GetPdfOrPmf(x), f, "mix-pdf", n + fmt(" at %g", x));
    mc::eq(m.GetPdfOrPmfLog(x), std::log(f), "mix-logpdf", n + fmt(" at %g", x));
  }
  if (disc) {
    double lo = -4, hi = 6;
    Ti len = m.GetPmfSupportSize(lo, hi);
    double l0 = std::max(-4., mn), h0 = std::min(6., mx);
    if (h0 >= l0) {
      mc::eq(lo, l0, "mix-support", n + " lower end");
      mc::eq(hi, h0, "mix-support", n + " upper end");
      mc::eqi(len, (int)(h0 - l0) + 1, "mix-support", n + " size");
      for (int plot = 0; plot < 2; plot++) {
        int q = plot ? 3 : 1;
        mc::Guard<double> X(len * q), Y(len * q);
        m.GetPmfSupport(X.p, Y.p, false, len * q, plot, -4, 6);
        MC_CHECK(X.intact() && Y.intact(), "mix-support", "%s writes outside", n.c_str());
        for (int i = 0; i < len; i++)
          for (int j = 0; j < q; j++) {
            mc::eq(X[q * i + j], l0 + i, "mix-support-x", n);
            mc::eq(Y[q * i + j], plot && j != 1 ? 0 : m.GetPdfOrPmf(l0 + i), "mix-support-y", n);
          }
      }
    }
  }
  const int N = 2000;
  mc::Guard<double> S(N), S2(N);
  m.GetSample(S.p, N, 55);
  m.GetSample(S2.p, N, 55);
  MC_CHECK(S.intact() && !memcmp(S.p, S2.p, N * sizeof(double)), "mix-sample-repeat", "%s", n.c_str());
  Vec sv(S.p, S.p + N);
  double dist = ks(sv, [&](double x) { return m.GetCdf(x); }, [&](double x) { return m.GetCdf(disc ? x - 1 : x); });
  MC_CHECK(dist < 2.5 / std::sqrt(N), "mix-sample-law", "%s: sample is %g away", n.c_str(), dist);
  mc::outcome(mc::hash_str(fmt("%g %g", mean, v)));
}
static void mixture_kinds() {
  static const std::vector<Spec> A{{DT::kNormal, 0, 1}, {DT::kBernoulli, .2, 0}, {DT::kPoisson, 2.5, 0}};
  int k = mc::range(1, 3);
  std::vector<D> own;
  std::vector<DistributionBase *> parts;
  Vec w;
  int nd = 0;
  std::string n = "kinds";
  double bad = 1;
  for (int i = 0; i < k; i++) {
    Spec s = mc::pick(A);
    nd += s.type != DT::kNormal;
    own.push_back(make(s));
    parts.push_back(own.back().get());
    w.push_back(mc::pick({-1., 0., .5}));
    bad = std::min(bad, w.back());
    n += " " + s.name() + fmt("*%g", w.back());
  }
  int extra = mc::range(-1, 1);
  if (extra == 1)
    w.push_back(1);
  if (extra == -1)
    w.pop_back();
  mc::describe(n + fmt(" %d", extra));
  mc::step();
  try {
    DistributionMixture m(w, parts);
    MC_CHECK(extra == 0 && bad > 0, "mix-accepts", "%s", n.c_str());
    bool th = false;
    try {
      m.GetPdfOrPmf(1);
    } catch (std::exception &) {
      th = true;
    }
    MC_CHECK(th == (nd != 0 && nd != k), "mix-pdf-kind", "%s: pdf available %d", n.c_str(), !th);
    double x[3], y[3];
    th = false;
    try {
      m.GetPmfSupport(x, y, false, 1, false, 0, 1);
    } catch (std::exception &) {
      th = true;
    }
    MC_CHECK(th == (nd != k), "mix-support-kind", "%s: support available %d", n.c_str(), !th);
  } catch (LdtException &) {
    MC_CHECK(extra != 0 || bad <= 0, "mix-rejects", "%s", n.c_str());
  }
}

// ------------------------------------------------------------- empirical103 --
static double emp_p(int i) { return i == 0 ? .0001 : i == 1 ? .001 : i == 101 ? .999 : i == 102 ? .9999 : (i - 1) / 100.0; }
static Vec emp_fill(int kind, double shift, double scale) {
  Vec q;
  bm::normal_distribution<double> nd;
  for (int i = 0; i < 103; i++) {
    double p = emp_p(i);
    double x = kind == 0   ? bm::quantile(nd, p)
               : kind == 1 ? p
               : kind == 2 ? -std::log1p(-p)
               : kind == 3 ? i - 50.
                           : (i < 51 ? p : 5 + p);
    q.push_back(shift + scale * x);
  }
  return q;
}
static void empirical() {
  int kind = mc::choose(5);
  double shift = mc::pick({-3., 0., 10.}), scale = mc::pick({.1, 1., 20.});
  Vec q = emp_fill(kind, shift, scale);
  DistributionEmpirical103 e(q.data());
  std::string n = fmt("empirical kind %d shift %g scale %g", kind, shift, scale);
  mc::describe(n);
  for (int i = 0; i < 103; i++) {
    mc::step(2);
    mc::eq(e.GetCDFApprox(q[i]), emp_p(i), "emp-knot-cdf", n + fmt(" knot %d", i));
    MC_CHECK(std::fabs(e.GetQuantileApprox(emp_p(i)) - q[i]) <= 1e-9 * (std::fabs(q[i]) + scale), "emp-knot-quantile", "%s knot %d: %.15g want %.15g", n.c_str(), i, e.GetQuantileApprox(emp_p(i)), q[i]);
  }
  mc::eq(e.GetCDFApprox(-INFINITY), 0, "emp-inf", n);
  mc::eq(e.GetCDFApprox(INFINITY), 1, "emp-inf", n);
  mc::eq(e.GetQuantileApprox(0), -INFINITY, "emp-inf", n);
  mc::eq(e.GetQuantileApprox(1), INFINITY, "emp-inf", n);
  double prev = 0;
  for (int i = -60; i < 103 * 3 + 60; i++) { // also both tails
    double x = i < 0 ? q[0] + i * (q[1] - q[0]) * .01
               : i >= 306 ? q[102] + (i - 306) * (q[102] - q[101]) * .01
                          : q[i / 3] + (q[i / 3 + 1] - q[i / 3]) * (i % 3) / 3;
    double F = e.GetCDFApprox(x);
    mc::step();
    MC_CHECK(F >= prev - 1e-12 && F >= 0 && F <= 1, "emp-cdf-monotone", "%s cdf(%g)=%.12g after %.12g", n.c_str(), x, F, prev);
    prev = F;
    if (F > 1e-7 && F < 1 - 1e-7) {
      double y = e.GetQuantileApprox(F);
      MC_CHECK(std::fabs(y - x) <= 1e-7 * (std::fabs(x) + std::fabs(q[102] - q[0])), "emp-inverse", "%s quantile(cdf(%.12g))=%.12g", n.c_str(), x, y);
    }
  }
  prev = -INFINITY;
  for (int i = 1; i < 2000; i++) {
    double y = e.GetQuantileApprox(i / 2000.);
    MC_CHECK(y >= prev - 1e-9, "emp-quantile-monotone", "%s quantile(%g)=%.12g after %.12g", n.c_str(), i / 2000., y, prev);
    prev = y;
  }
}
static void emp_combine() {
  int k = mc::range(1, 3);
  std::vector<Vec> qs;
  std::vector<DistributionEmpirical103> ds;
  Vec w;
  bool weighted = mc::flip();
  std::string n = "combine";
  for (int i = 0; i < k; i++) {
    int kind = mc::choose(3);
    double sh = mc::pick({-1., 0., 2.}), sc = k == 3 ? 1 : mc::pick({.5, 1.});
    qs.push_back(emp_fill(kind, sh, sc));
    n += fmt(" (%d,%g,%g)", kind, sh, sc);
  }
  Vec ws[3] = {{1}, {.3, .7}, {.2, .5, .3}};
  w = ws[k - 1];
  for (auto &q : qs)
    ds.emplace_back(q.data());
  mc::describe(n + (weighted ? " weighted" : ""));
  mc::Guard<double> R(103);
  DistributionEmpirical103::Combine(ds, weighted ? w.data() : nullptr, R.p);
  mc::step();
  MC_CHECK(R.intact(), "combine-bounds", "%s", n.c_str());
  double prev = -INFINITY;
  for (int i = 0; i < 103; i++) {
    double F = 0;
    for (int j = 0; j < k; j++)
      F += (weighted ? w[j] : 1.0 / k) * ds[j].GetCDFApprox(R[i]);
    MC_CHECK(R[i] >= prev - 1e-9, "combine-monotone", "%s knot %d", n.c_str(), i);
    prev = R[i];
    MC_CHECK(std::fabs(F - emp_p(i)) < 2e-3, "combine-cdf", "%s knot %d: combined quantile %.8g has probability %.8g, want %g", n.c_str(), i, R[i], F, emp_p(i));
  }
}

// --------------------------------------------------------------- histogram --
static void histogram() {
  static const Vec A{-2, 0, 0.5, 1, 3};
  int n = mc::range(1, mc::qt(5, 6));
  Vec x;
  for (int i = 0; i < n; i++)
    x.push_back(mc::pick(A));
  int mode = mc::choose(3); // 0: range and count given; 1: count given; 2: own axis
  std::string t = fmt("histogram mode %d data %s", mode, mc::join(x).c_str());
  if (mode == 2) {
    static const std::vector<Vec> axes{{0}, {-2, 3}, {-1, 0, 1}, {-2, 0.5, 3}, {0, 1}, {-5, -3}, {4, 5}};
    Vec ax = mc::pick(axes);
    t += " axis " + mc::join(ax);
    mc::describe(t);
    mc::Guard<double> X(n), Y(ax.size());
    mc::Guard<int> Z(ax.size() + 1);
    std::copy(x.begin(), x.end(), X.p);
    std::copy(ax.begin(), ax.end(), Y.p);
    Matrix<Tv> data(X.p, n, 1), axis(Y.p, (Ti)ax.size(), 1);
    Matrix<Ti> count(Z.p, (Ti)ax.size() + 1, 1);
    mc::step();
    Histogram::ComputeV(&data, &axis, &count, false);
    MC_CHECK(X.intact() && Y.intact() && Z.intact(), "hist-bounds", "%s", t.c_str());
    int na = ax.size();
    for (int i = 0; i <= na; i++) {
      int c = 0;
      for (double v : x) {
        bool in = (i == 0 || v >= ax[i - 1]) && (i == na || v < ax[i]);
        if (na > 1 && i == na - 1 && v == ax[i])
          in = true; // the last bin is closed
        if (na > 1 && i == na && v == ax[na - 1])
          in = false;
        if (na == 1) // a single cut: its own observation may be on either side
          in = in;
        c += in;
      }
      if (na == 1)
        continue;
      mc::eqi(Z[i], c, "hist-count", t + fmt(" bin %d", i));
    }
    int sum = 0;
    for (int i = 0; i <= na; i++)
      sum += Z[i];
    mc::eqi(sum, n, "hist-total", t);
    return;
  }
  Ti bins = mc::range(1, 4);
  double mn = NAN, mx = NAN, iqr = mc::pick({1.5, 100.});
  if (mode == 0)
    mn = mc::pick({-3., -2., 0.}), mx = mc::pick({1., 3., 4.});
  t += fmt(" bins %d min %g max %g iqr %g", bins, mn, mx, iqr);
  mc::describe(t);
  mc::Guard<double> X(n);
  std::copy(x.begin(), x.end(), X.p);
  Matrix<Tv> data(X.p, n, 1);
  Ti b = bins;
  Ti size = Histogram::Compute(true, &data, nullptr, nullptr, b, mn, mx, iqr, false);
  mc::step(2);
  mc::eqi(size, bins + 1, "hist-size", t);
  mc::Guard<double> Y(size);
  mc::Guard<int> Z(size + 1);
  Matrix<Tv> axis(Y.p, size, 1);
  Matrix<Ti> count(Z.p, size + 1, 1);
  std::sort(x.begin(), x.end());
  Histogram::Compute(false, &data, &axis, &count, b, mn, mx, iqr, false);
  MC_CHECK(X.intact() && Y.intact() && Z.intact(), "hist-bounds", "%s", t.c_str());
  if (mode == 1) {
    double lo = x.front(), hi = x.back();
    if (iqr > 50 && lo < hi) {
      // a wide range keeps everything unless the quartiles agree
      auto q = [&](double p) { double h = (n - 1) * p; int k = (int)h; return k + 1 < n ? x[k] + (h - k) * (x[k + 1] - x[k]) : x[n - 1]; };
      if (q(.75) - q(.25) > .1)
        MC_CHECK(mn == lo && mx == hi, "hist-range", "%s: [%g,%g]", t.c_str(), mn, mx);
    }
    MC_CHECK(mn <= mx && mn >= lo - .011 && mx <= hi + .011, "hist-range", "%s: [%g,%g]", t.c_str(), mn, mx);
  }
  int sum = 0;
  for (int i = 0; i <= bins; i++)
    mc::eq(Y[i], mn + (mx - mn) * i / bins, "hist-axis", t + fmt(" %d", i));
  for (int i = 0; i <= size; i++) {
    int c = 0;
    for (double v : x) {
      bool in = (i == 0 || v >= Y[i - 1]) && (i == size || v < Y[i] || (i == bins && v <= Y[i]));
      if (i == size && v == Y[bins])
        in = false;
      c += in;
    }
    sum += Z[i];
    mc::eqi(Z[i], c, "hist-count", t + fmt(" bin %d", i));
  }
  mc::eqi(sum, n, "hist-total", t);
}

int main(int c, char **v) {
  return mc::harness_main(
      c, v,
      {{"c22_continuous", cont_curve, "every continuous distribution x parameter grid x ends of the support and a grid of probabilities from 1e-12 to 1-1e-9"},
       {"c22_continuous_moments", cont_moments, "every continuous distribution x parameter grid, all moments and properties"},
       {"c22_continuous_sample", cont_sample, "every continuous distribution x parameter grid x 2 seeds"},
       {"c22_discrete", disc_curve, "every discrete distribution x parameter grid x every support point, 3 points between them, every step of the quantile function"},
       {"c22_discrete_moments", disc_moments, "every discrete distribution x parameter grid, all moments, all listings over 6 windows"},
       {"c22_discrete_sample", disc_sample, "every discrete distribution x parameter grid x 2 seeds"},
       {"c22_gld", gld_curve, "GLD over 9 locations/scales x 9x9 shapes"},
       {"c22_gld_sample", gld_sample, "GLD sampling over 4 locations/scales x 4x4 shapes x 2 seeds"},
       {"c22_gld_moments", gld_moments, "GLD from moments: 12 types x 180 moment sets"},
       {"c22_mixture_continuous", [] { mixture(false); }, "all mixtures of up to 3 (thorough 4) of 6 parts x weights"},
       {"c22_mixture_discrete", [] { mixture(true); }, "all mixtures of up to 3 (thorough 4) of 6 discrete parts x weights"},
       {"c22_mixture_kinds", mixture_kinds, "all mixed-kind mixtures of up to 3 parts x weights in {-1,0,.5} x list lengths"},
       {"c22_empirical", empirical, "5 shapes x 9 locations/scales, every knot, 489 arguments"},
       {"c22_empirical_combine", emp_combine, "all combinations of up to 3 of 18 quantile functions, weighted or not"},
       {"c22_histogram", histogram, "all samples of up to 5 (thorough 6) of 5 values x ranges, bin counts and axes"}});
}
