// C27: minimizers and numerical derivatives
#include "mc.h"
#include "functionx.h"
#include "optimization.h"
using namespace ldt;
using mc::fmt;
using Vec = std::vector<double>;
using Fn = std::function<double(const Vec &)>;

struct Problem {
  std::string name;
  int n;
  Fn f;
  std::function<Vec(const Vec &)> g;
  std::function<Vec(const Vec &)> h; // n*n, column major
};

static std::string show(const Vec &v) {
  std::string s = "(";
  for (auto x : v)
    s += fmt("%g ", x);
  return s + ")";
}

// ---- quadratics -----------------------------------------------------------
static Problem quadratic(int n, const Vec &A, const Vec &c, double k) {
  Problem p;
  p.n = n;
  p.name = "quadratic " + show(A) + " at " + show(c);
  p.f = [=](const Vec &x) {
    double s = 0;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        s += A[i + j * n] * (x[i] - c[i]) * (x[j] - c[j]);
    return s / 2 + k;
  };
  p.g = [=](const Vec &x) {
    Vec g(n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        g[i] += A[i + j * n] * (x[j] - c[j]);
    return g;
  };
  p.h = [=](const Vec &) { return A; };
  return p;
}
static bool solve(std::vector<Vec> a, Vec &b) { // small, with pivoting
  int n = (int)b.size();
  for (int i = 0; i < n; i++) {
    int p = i;
    for (int r = i; r < n; r++)
      if (std::fabs(a[r][i]) > std::fabs(a[p][i]))
        p = r;
    if (a[p][i] == 0)
      return false;
    std::swap(a[p], a[i]);
    std::swap(b[p], b[i]);
    for (int r = 0; r < n; r++)
      if (r != i) {
        double q = a[r][i] / a[i][i];
        for (int c = 0; c < n; c++)
          a[r][c] -= q * a[i][c];
        b[r] -= q * b[i];
      }
  }
  for (int i = 0; i < n; i++)
    b[i] /= a[i][i];
  return true;
}
// minimum of the quadratic in the box: all active sets
static Vec boxmin(int n, const Vec &A, const Vec &c, const Vec &l, const Vec &u, const Fn &f) {
  Vec best;
  int total = 1;
  for (int i = 0; i < n; i++)
    total *= 3;
  for (int s = 0; s < total; s++) {
    Vec x(n, NAN);
    std::vector<int> fr;
    bool ok = true;
    for (int i = 0, q = s; i < n; i++, q /= 3) {
      if (q % 3 == 0)
        fr.push_back(i);
      else
        x[i] = q % 3 == 1 ? l[i] : u[i];
      if (q % 3 && std::isinf(x[i]))
        ok = false;
    }
    if (!ok)
      continue;
    int k = (int)fr.size();
    if (k) {
      std::vector<Vec> a(k, Vec(k));
      Vec b(k, 0);
      for (int r = 0; r < k; r++) {
        for (int q = 0; q < k; q++)
          a[r][q] = A[fr[r] + fr[q] * n];
        for (int j = 0; j < n; j++)
          if (!std::isnan(x[j]))
            b[r] -= A[fr[r] + j * n] * (x[j] - c[j]);
      }
      solve(a, b);
      for (int r = 0; r < k; r++) {
        x[fr[r]] = c[fr[r]] + b[r];
        if (x[fr[r]] < l[fr[r]] || x[fr[r]] > u[fr[r]])
          ok = false;
      }
    }
    if (ok && (best.empty() || f(x) < f(best)))
      best = x;
  }
  return best;
}
static Problem pickQuadratic(int &n, Vec &A, Vec &c) {
  n = mc::range(1, mc::qt(2, 3));
  A.assign(n * n, 0);
  c.assign(n, 0);
  // A = L L' with L from a small alphabet
  Vec L(n * n, 0);
  for (int j = 0; j < n; j++)
    for (int i = j; i < n; i++)
      L[i + j * n] = n == 3 ? (i == j ? (i == 1 ? 3 : 1) : mc::pick<double>({0, -1, 2}))
                            : (i == j ? mc::pick<double>({1, 3}) : mc::pick<double>({0, -1, 2}));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      for (int k = 0; k < n; k++)
        A[i + j * n] += L[i + k * n] * L[j + k * n];
  for (int i = 0; i < n; i++)
    c[i] = n == 3 ? (i == 0 ? -1.5 : mc::pick<double>({0, 2})) : mc::pick<double>({0, -1.5, 2});
  return quadratic(n, A, c, n == 1 ? -4 : 3);
}

// ---- general functions ----------------------------------------------------
static std::vector<Problem> general() {
  std::vector<Problem> v;
  v.push_back({"x^4", 1, [](const Vec &x) { return std::pow(x[0], 4); },
               [](const Vec &x) { return Vec{4 * std::pow(x[0], 3)}; },
               [](const Vec &x) { return Vec{12 * x[0] * x[0]}; }});
  v.push_back({"cosh", 1, [](const Vec &x) { return std::cosh(2 * x[0] - 1); },
               [](const Vec &x) { return Vec{2 * std::sinh(2 * x[0] - 1)}; },
               [](const Vec &x) { return Vec{4 * std::cosh(2 * x[0] - 1)}; }});
  v.push_back({"x - log x", 1, [](const Vec &x) { return x[0] - std::log(x[0]); },
               [](const Vec &x) { return Vec{1 - 1 / x[0]}; },
               [](const Vec &x) { return Vec{1 / (x[0] * x[0])}; }});
  v.push_back({"sqrt(1+x^2)", 1, [](const Vec &x) { return std::sqrt(1 + x[0] * x[0]); },
               [](const Vec &x) { return Vec{x[0] / std::sqrt(1 + x[0] * x[0])}; },
               [](const Vec &x) { return Vec{std::pow(1 + x[0] * x[0], -1.5)}; }});
  v.push_back({"sin", 1, [](const Vec &x) { return std::sin(x[0]); },
               [](const Vec &x) { return Vec{std::cos(x[0])}; },
               [](const Vec &x) { return Vec{-std::sin(x[0])}; }});
  v.push_back({"rosenbrock", 2,
               [](const Vec &x) { return 100 * std::pow(x[1] - x[0] * x[0], 2) + std::pow(1 - x[0], 2); },
               [](const Vec &x) {
                 return Vec{-400 * x[0] * (x[1] - x[0] * x[0]) - 2 * (1 - x[0]), 200 * (x[1] - x[0] * x[0])};
               },
               [](const Vec &x) {
                 return Vec{1200 * x[0] * x[0] - 400 * x[1] + 2, -400 * x[0], -400 * x[0], 200};
               }});
  v.push_back({"exp sum", 2,
               [](const Vec &x) { return std::exp(x[0] + 3 * x[1]) + std::exp(x[0] - 3 * x[1]) + std::exp(-x[0]); },
               [](const Vec &x) {
                 double a = std::exp(x[0] + 3 * x[1]), b = std::exp(x[0] - 3 * x[1]), c = std::exp(-x[0]);
                 return Vec{a + b - c, 3 * a - 3 * b};
               },
               [](const Vec &x) {
                 double a = std::exp(x[0] + 3 * x[1]), b = std::exp(x[0] - 3 * x[1]), c = std::exp(-x[0]);
                 return Vec{a + b + c, 3 * a - 3 * b, 3 * a - 3 * b, 9 * a + 9 * b};
               }});
  v.push_back({"himmelblau", 2,
               [](const Vec &x) { return std::pow(x[0] * x[0] + x[1] - 11, 2) + std::pow(x[0] + x[1] * x[1] - 7, 2); },
               [](const Vec &x) {
                 double a = x[0] * x[0] + x[1] - 11, b = x[0] + x[1] * x[1] - 7;
                 return Vec{4 * x[0] * a + 2 * b, 2 * a + 4 * x[1] * b};
               },
               [](const Vec &x) {
                 double a = x[0] * x[0] + x[1] - 11, b = x[0] + x[1] * x[1] - 7, o = 4 * x[0] + 4 * x[1];
                 return Vec{4 * a + 8 * x[0] * x[0] + 2, o, o, 2 + 4 * b + 8 * x[1] * x[1]};
               }});
  return v;
}

static Vec tov(const Matrix<Tv> &m) { return Vec(m.Data, m.Data + m.length()); }

struct Log {
  std::vector<Vec> at;
  int count = 0, faultAt = -1; // the evaluation that fails
  bool throwing = false;
  double bestv = INFINITY;
};
static std::function<Tv(const Matrix<Tv> &)> wrap(const Fn &f, Log &l) {
  return [&f, &l](const Matrix<Tv> &m) {
    Vec x = tov(m);
    l.at.push_back(x);
    mc::step();
    if (l.count++ == l.faultAt) {
      if (l.throwing)
        throw std::runtime_error("no value");
      return (double)NAN;
    }
    double y = f(x);
    l.bestv = std::min(l.bestv, y);
    return y;
  };
}
static std::function<void(const Matrix<Tv> &, Matrix<Tv> &)> wrapg(const std::function<Vec(const Vec &)> &g, int sz) {
  return [&g, sz](const Matrix<Tv> &m, Matrix<Tv> &r) {
    Vec v = g(tov(m));
    mc::check(r.length() == sz, "size", "derivative argument has the wrong size");
    for (int i = 0; i < sz; i++)
      r.Data[i] = v[i];
  };
}

// ------------------------------------------------------------------ Newton
static void newtonOn(const Problem &p, const Vec &start, int itmax, double tolf, double tolg, bool line, int spare, bool quad,
                     const Vec &best) {
  int n = p.n;
  Newton o(n + spare);
  o.IterationMax = itmax;
  o.TolFunction = tolf;
  o.TolGradient = tolg;
  o.UseLineSearch = line;
  mc::Guard<double> st(o.StorageSize), wk(o.WorkSize), x(n);
  for (int i = 0; i < n; i++)
    x[i] = start[i];
  Matrix<Tv> X(x.p, n, 1);
  Log l;
  bool two = spare == 1;
  mc::Guard<double> sg(n), sh(n * n);
  bool threw = false;
  try {
    if (two)
      o.Minimize2(wrap(p.f, l), wrapg(p.g, n), wrapg(p.h, n * n), X, sg.p, sh.p, wk.p);
    else
      o.Minimize(wrap(p.f, l), wrapg(p.g, n), wrapg(p.h, n * n), X, st.p, wk.p);
  } catch (std::exception &e) {
    threw = true; // e.g. the Hessian is not positive definite
  }
  Vec r = tov(X);
  double f0 = p.f(start), f1 = p.f(r);
  mc::outcome(mc::hash_str(fmt("%d %d %.3g", threw, o.Iteration, f1)));
  if (line)
    mc::check(f1 <= f0 + 1e-12 * std::max(1.0, std::fabs(f0)), "newton-worse", fmt("%s from %s limit %d: %g after %g", p.name.c_str(), show(start).c_str(), itmax, f1, f0));
  mc::check(o.Iteration <= itmax, "newton-limit", fmt("%d iterations, limit %d", o.Iteration, itmax));
  mc::check(st.intact() && wk.intact() && x.intact(), "newton-memory", "wrote before its memory");
  if (threw) {
    mc::check(!quad, "newton-throws", "no minimum of a convex quadratic: " + p.name);
    return;
  }
  mc::eq(o.FunctionValue, f1, "newton-value", p.name + " reported value");
  Vec g = p.g(r);
  for (int i = 0; i < n; i++)
    mc::eq(o.Gradient.Data[i], g[i], "newton-gradient", p.name + " reported gradient");
  if (quad && itmax >= 3)
    for (int i = 0; i < n; i++)
      mc::eq(r[i], best[i], "newton-minimum", p.name + " from " + show(start), 1e-6);
}
static void newton_quad() {
  int n;
  Vec A, c;
  auto p = pickQuadratic(n, A, c);
  Vec s(n);
  for (auto &v : s)
    v = mc::pick<double>({0, 5, -30});
  int it = mc::pick({0, 1, 3, 100});
  int tol = mc::choose(3);
  bool line = mc::flip();
  int spare = mc::choose(3);
  mc::describe(fmt("newton %s from %s limit %d tol %d line %d spare %d", p.name.c_str(), show(s).c_str(), it, tol, line, spare));
  newtonOn(p, s, it, tol == 1 ? 0 : 1e-6, tol == 0 ? 0 : 1e-8, line, spare, true, c);
}
static void newton_general() {
  static auto ps = general();
  auto &p = mc::pick(ps);
  Vec s(p.n);
  for (auto &v : s)
    v = mc::pick<double>({0.1, 1, 2.5, 4, -1.7});
  int it = mc::range(0, mc::qt(12, 40));
  if (p.name == "x - log x" && s[0] < 0)
    return;
  mc::describe(fmt("newton %s from %s limit %d", p.name.c_str(), show(s).c_str(), it));
  newtonOn(p, s, it, 1e-9, 0, true, 0, false, {});
}
// without line search: the classical iteration
static void newton_plain() {
  static auto ps = general();
  auto &p = mc::pick(ps);
  if (p.name != "cosh" && p.name != "x^4" && p.name != "exp sum")
    return;
  Vec s(p.n);
  for (auto &v : s)
    v = mc::pick<double>({0.1, 0.6, 1, 1.3});
  int it = mc::range(0, 12);
  mc::describe(fmt("newton without line search %s from %s limit %d", p.name.c_str(), show(s).c_str(), it));
  Newton o(p.n);
  o.IterationMax = it;
  o.TolFunction = 0;
  o.UseLineSearch = false;
  mc::Guard<double> st(o.StorageSize), wk(o.WorkSize);
  Vec x = s;
  Matrix<Tv> X(x.data(), p.n, 1);
  Log l;
  o.Minimize(wrap(p.f, l), wrapg(p.g, p.n), wrapg(p.h, p.n * p.n), X, st.p, wk.p);
  Vec r = s;
  for (int k = 0; k < it; k++) {
    Vec g = p.g(r), h = p.h(r);
    std::vector<Vec> a(p.n, Vec(p.n));
    for (int i = 0; i < p.n; i++)
      for (int j = 0; j < p.n; j++)
        a[i][j] = h[i + j * p.n];
    solve(a, g);
    for (int i = 0; i < p.n; i++)
      r[i] -= g[i];
  }
  for (int i = 0; i < p.n; i++)
    mc::eq(x[i], r[i], "newton-steps", fmt("step %d", it), 1e-7);
  mc::eq(o.FunctionValue, p.f(x), "newton-value", "reported value");
}

// ----------------------------------------------------------------- L-BFGS-B
static void lbfgsOn(const Problem &p, const Vec &start, const Vec *lo, const Vec *up, int itmax, int m, int spare, bool quad, const Vec &best) {
  int n = p.n;
  LimitedMemoryBFGSB o(n + spare, m);
  o.Options.IterationMax = itmax;
  if (quad)
    o.Options.Factor = 10;
  mc::Guard<double> st(o.StorageSize), wk(o.WorkSize), x(n), l(n), u(n);
  mc::Guard<Ti> wi(o.WorkSizeI);
  for (int i = 0; i < n; i++) {
    x[i] = start[i];
    l[i] = lo ? (*lo)[i] : 0;
    u[i] = up ? (*up)[i] : 0;
  }
  Matrix<Tv> X(x.p, n, 1), Lm(l.p, n, 1), Um(u.p, n, 1);
  Log lg;
  if (spare)
    o.Minimize0(wrap(p.f, lg), wrapg(p.g, n), X, st.p, wk.p, wi.p, lo ? &Lm : nullptr, up ? &Um : nullptr);
  else
    o.Minimize(wrap(p.f, lg), wrapg(p.g, n), X, st.p, wk.p, lo ? &Lm : nullptr, up ? &Um : nullptr);
  Vec r = tov(X), s = start;
  for (int i = 0; i < n; i++) {
    if (lo)
      s[i] = std::max(s[i], (*lo)[i]);
    if (up)
      s[i] = std::min(s[i], (*up)[i]);
  }
  double f0 = p.f(s), f1 = p.f(r);
  mc::outcome(mc::hash_str(fmt("%d %.3g", o.Task, f1)));
  auto what = fmt("%s from %s limit %d: %s", p.name.c_str(), show(start).c_str(), itmax, show(r).c_str());
  for (auto &e : lg.at)
    for (int i = 0; i < n; i++)
      mc::check((!lo || e[i] >= (*lo)[i]) && (!up || e[i] <= (*up)[i]), "lbfgs-bounds", what + " evaluated at " + show(e));
  if (itmax > 0) {
    for (int i = 0; i < n; i++)
      mc::check((!lo || r[i] >= (*lo)[i]) && (!up || r[i] <= (*up)[i]), "lbfgs-bounds", what + " returned");
  }
  mc::check((int)lg.at.size() <= itmax && o.Iteration <= itmax, "lbfgs-limit", what);
  mc::check(wk.intact() && wi.intact() && st.intact() && x.intact() && l.intact() && u.intact(), "lbfgs-memory", what);
  for (int i = 0; i < n; i++)
    mc::check((!lo || l[i] == (*lo)[i]) && (!up || u[i] == (*up)[i]), "lbfgs-input", "bounds changed");
  if (lg.at.empty())
    return;
  mc::check(f1 <= f0 + 1e-12 * std::max(1.0, std::fabs(f0)), "lbfgs-worse", what + fmt(" %g after %g", f1, f0));
  mc::eq(o.FunctionValue, f1, "lbfgs-value", what);
  if (quad && itmax >= 100)
    for (int i = 0; i < n; i++)
      mc::eq(r[i], best[i], "lbfgs-minimum", what, 1e-5);
}
static void lbfgs_quad() {
  int n;
  Vec A, c;
  auto p = pickQuadratic(n, A, c);
  Vec s(n), l(n), u(n);
  for (auto &v : s)
    v = n == 3 ? mc::pick<double>({0, -30}) : mc::pick<double>({0, 5, -30});
  int b = mc::choose(4);
  for (int i = 0; i < n; i++) {
    int k = b ? mc::choose(3) : 0;
    l[i] = b & 1 ? (k == 0 ? -1 : k == 1 ? 1 : -INFINITY) : -INFINITY;
    u[i] = b & 2 ? (k == 0 ? 1.5 : k == 1 ? INFINITY : -0.5) : INFINITY;
  }
  int it = n == 3 ? mc::pick({4, 200}) : mc::pick({1, 2, 3, 5, 200});
  int m = n == 3 ? 5 : mc::pick({1, 5});
  int spare = n == 3 ? 0 : mc::choose(2);
  mc::describe(fmt("lbfgsb %s from %s in %s %s limit %d", p.name.c_str(), show(s).c_str(), show(l).c_str(), show(u).c_str(), it));
  lbfgsOn(p, s, b & 1 ? &l : nullptr, b & 2 ? &u : nullptr, it, m, spare, true, boxmin(n, A, c, l, u, p.f));
}
static void lbfgs_general() {
  static auto ps = general();
  auto &p = mc::pick(ps);
  Vec s(p.n), l(p.n), u(p.n);
  bool pos = p.name == "x - log x";
  for (auto &v : s)
    v = pos ? mc::pick<double>({0.1, 1, 2.5, 4}) : mc::pick<double>({0.1, 1, 2.5, 4, -1.7});
  bool b = pos || mc::flip();
  for (int i = 0; i < p.n; i++) {
    l[i] = pos ? 1e-3 : mc::pick<double>({-2, 0.5});
    u[i] = 3;
  }
  int it = mc::range(0, mc::qt(25, 60));
  mc::describe(fmt("lbfgsb %s from %s bounds %d limit %d", p.name.c_str(), show(s).c_str(), b, it));
  lbfgsOn(p, s, b ? &l : nullptr, b ? &u : nullptr, it, 5, 0, false, {});
}

// -------------------------------------------------------------- Nelder-Mead
static void nmOn(const Problem &p, const Vec &start, const Vec *lo, const Vec *up, int itmax, int faultAt, bool throwing, bool quad, const Vec &best,
                 double curv) {
  int n = p.n;
  NelderMead o(n);
  if (itmax >= 0)
    o.MaxIteration = itmax;
  mc::Guard<double> st(o.StorageSize), wk(o.WorkSize), x(n), l(n), u(n);
  for (int i = 0; i < n; i++) {
    x[i] = start[i];
    l[i] = lo ? (*lo)[i] : 0;
    u[i] = up ? (*up)[i] : 0;
  }
  Matrix<Tv> X(x.p, n, 1), Lm(l.p, n, 1), Um(u.p, n, 1);
  Log lg;
  lg.faultAt = faultAt;
  lg.throwing = throwing;
  o.Minimize(wrap(p.f, lg), X, wk.p, st.p, lo ? &Lm : nullptr, up ? &Um : nullptr);
  mc::check(o.Result.length() == n, "nm-size", "size of the result");
  Vec r = tov(o.Result), s = start;
  for (int i = 0; i < n; i++) {
    if (lo)
      s[i] = std::max(s[i], (*lo)[i]);
    if (up)
      s[i] = std::min(s[i], (*up)[i]);
  }
  double f0 = p.f(s), f1 = p.f(r);
  mc::outcome(mc::hash_str(fmt("%d %.3g", o.Iter, f1)));
  auto what = fmt("%s from %s limit %d fault %d: %s", p.name.c_str(), show(start).c_str(), itmax, faultAt, show(r).c_str());
  mc::check(o.Iter <= o.MaxIteration, "nm-limit", what);
  mc::check(st.intact() && wk.intact() && x.intact() && l.intact() && u.intact(), "nm-memory", what);
  for (int i = 0; i < n; i++)
    mc::check((!lo || r[i] >= (*lo)[i]) && (!up || r[i] <= (*up)[i]), "nm-bounds", what);
  if (!lo && !up) // clamping a point with a penalty may cost something
    mc::check(f1 <= f0 + 1e-12 * std::max(1.0, std::fabs(f0)), "nm-worse", what + fmt(" %g after %g", f1, f0));
  if (lg.faultAt < 0 || lg.faultAt < (int)lg.at.size() - 1)
    mc::eq(o.Min, f1, "nm-value", what);
  if (quad && itmax < 0) {
    double fb = p.f(best);
    mc::check(f1 <= fb + curv, "nm-minimum", what + fmt(" value %g, minimum %g", f1, fb));
  }
}
static void nm_quad() {
  int n;
  Vec A, c;
  auto p = pickQuadratic(n, A, c);
  Vec s(n), l(n), u(n);
  for (auto &v : s)
    v = n == 3 ? mc::pick<double>({0, -12}) : mc::pick<double>({0, 1.5, -12, 0.25});
  int b = mc::choose(4);
  for (int i = 0; i < n; i++) {
    int k = b ? mc::choose(3) : 0;
    l[i] = b & 1 ? (k == 0 ? -1 : k == 1 ? 1 : -INFINITY) : -INFINITY;
    u[i] = b & 2 ? (k == 0 ? 1.5 : k == 1 ? INFINITY : -0.5) : INFINITY;
  }
  int it = n == 3 ? -1 : mc::pick({-1, 0, 1, 2, 7});
  bool inside = true; // the penalty moves other minima
  for (int i = 0; i < n; i++)
    inside &= l[i] <= c[i] && c[i] <= u[i];
  mc::describe(fmt("nelder-mead %s from %s in %s %s limit %d", p.name.c_str(), show(s).c_str(), show(l).c_str(), show(u).c_str(), it));
  nmOn(p, s, b & 1 ? &l : nullptr, b & 2 ? &u : nullptr, it, -1, false, inside, c, 1e-3);
}
static void nm_general() {
  static auto ps = general();
  auto &p = mc::pick(ps);
  Vec s(p.n);
  bool pos = p.name == "x - log x";
  for (auto &v : s)
    v = pos ? mc::pick<double>({0.1, 1, 2.5, 4}) : mc::pick<double>({0.1, 1, 2.5, 4, -1.7});
  int it = mc::range(0, mc::qt(15, 60));
  // the objective fails at any one evaluation after the first
  int fault = mc::range(-1, mc::qt(12, 40));
  bool thr = fault > 0 && mc::flip();
  if (fault == 0)
    return;
  mc::describe(fmt("nelder-mead %s from %s limit %d fault %d %d", p.name.c_str(), show(s).c_str(), it, fault, thr));
  nmOn(p, s, nullptr, nullptr, it, fault, thr, false, {}, 0);
}
static void nm_one() {
  // one variable: f over a grid of shapes, bounds and starts
  int shape = mc::choose(4);
  double c = mc::pick<double>({0, -2.3, 0.01, 4});
  std::function<double(const double &)> f0 = [&](const double &x) {
    switch (shape) {
    case 0:
      return (x - c) * (x - c) - 1;
    case 1:
      return std::fabs(x - c);
    case 2:
      return std::exp(x - c) - x;
    default:
      return std::fabs(x - c) < 1 ? 0 : (x - c) * (x - c) - 1;
    }
  };
  double l = mc::pick<double>({(double)NAN, -5, 0.001, -0.2, 1});
  double u = mc::pick<double>({(double)NAN, 6, -0.001, 0.3, 3});
  if (l > u)
    return;
  double s = mc::pick<double>({0, -7, 2.2, 0.05});
  double step = mc::pick<double>({0.1, 1});
  int it = mc::pick({0, 1, 5, 500});
  mc::describe(fmt("minimize1 shape %d at %g in [%g,%g] from %g step %g limit %d", shape, c, l, u, s, step, it));
  Vec at;
  std::function<double(const double &)> f = [&](const double &x) {
    at.push_back(x);
    mc::step();
    return f0(x);
  };
  auto r = NelderMead::Minimize1(f, s, step, it, 1e-6, l, u);
  double x = std::get<0>(r);
  mc::check(std::get<1>(r) <= it, "nm1-limit", fmt("%d iterations", std::get<1>(r)));
  mc::check(!(x < l) && !(x > u), "nm1-bounds", fmt("returned %.10g", x));
  double s2 = s < l ? l : s > u ? u : s;
  mc::check(f0(x) <= f0(s2), "nm1-worse", fmt("%g after %g", f0(x), f0(s2)));
  mc::outcome(mc::hash_str(fmt("%.5g", x)));
  if (it == 500) {
    double best = shape == 2 ? c : c, v = best < l ? l : best > u ? u : best;
    mc::check(f0(x) <= f0(v) + 1e-4, "nm1-minimum", fmt("%.10g, minimum at %.10g", x, v));
  }
}

// -------------------------------------------------------------- derivatives
static void derivative() {
  static auto ps = general();
  int k = mc::choose((int)ps.size() + 1);
  Problem p = k < (int)ps.size() ? ps[k] : quadratic(3, {2, 1, 0, 1, 3, -1, 0, -1, 4}, {1, 0, -2}, 3);
  Vec x(p.n);
  bool pos = p.name == "x - log x";
  for (auto &v : x)
    v = pos ? mc::pick<double>({0.5, 1, 2.5, 12}) : mc::pick<double>({0, 1e-9, 0.3, -0.7, 1, 2.5, -1.7});
  int count = mc::range(1, 5), spare = mc::choose(2), which = mc::range(1, 3);
  bool row = mc::flip();
  double T = mc::pick<double>({2, 4});
  mc::describe(fmt("derivative %s at %s count %d which %d row %d", p.name.c_str(), show(x).c_str(), count, which, row));
  Derivative d(p.n + spare, which & 1, which & 2, count);
  d.T = T;
  mc::Guard<double> s1(d.StorageSize1), s2(d.StorageSize2), wk(d.WorkSize), xx(p.n);
  for (int i = 0; i < p.n; i++)
    xx[i] = x[i];
  Matrix<Tv> X(xx.p, row ? 1 : p.n, row ? p.n : 1);
  Log l;
  auto f = wrap(p.f, l);
  double scale = 1 + std::fabs(p.f(x));
  if (which & 1) {
    d.CalculateFirst(f, X, s1.p, wk.p);
    mc::check(d.Result1.length() == p.n, "der-size", "first");
    Vec g = p.g(x);
    for (int i = 0; i < p.n; i++)
      mc::eq(d.Result1.Data[i] / scale, g[i] / scale, "der-first", fmt("entry %d", i), 2e-5);
  }
  if (which & 2 && T == 2) {
    d.CalculateSecond(f, X, s2.p, wk.p);
    mc::check(d.Result2.RowsCount == p.n && d.Result2.ColsCount == p.n, "der-size", "second");
    Vec h = p.h(x);
    for (int i = 0; i < p.n; i++)
      for (int j = 0; j < p.n; j++) {
        mc::eq(d.Result2.Get(i, j) / scale, h[i + j * p.n] / scale, "der-second", fmt("entry %d %d", i, j), 2e-3);
        mc::check(d.Result2.Get(i, j) == d.Result2.Get(j, i), "der-symmetric", "Hessian");
      }
  }
  for (int i = 0; i < p.n; i++)
    mc::check(xx[i] == x[i], "der-input", "the point was changed");
  mc::check(s1.intact() && s2.intact() && wk.intact(), "der-memory", "wrote before its memory");
  mc::outcome(mc::hash_str(p.name));
  // a request that was not announced is an error
  bool threw = false;
  try {
    if (which == 1)
      d.CalculateSecond(f, X, s2.p, wk.p);
    else if (which == 2)
      d.CalculateFirst(f, X, s1.p, wk.p);
    else {
      mc::Guard<double> big(p.n + spare + 1);
      for (int i = 0; i < p.n + spare + 1; i++)
        big[i] = 0;
      Matrix<Tv> B(big.p, p.n + spare + 1, 1);
      d.CalculateFirst(f, B, s1.p, wk.p);
    }
  } catch (std::exception &) {
    threw = true;
  }
  mc::check(threw, "der-reject", "an unannounced request was accepted");
}

// ------------------------------------------------------------------- areas
static void area() {
  int n = mc::range(0, mc::qt(4, 5));
  std::vector<std::tuple<Tv, Tv>> pts;
  std::string s;
  for (int i = 0; i < n; i++) {
    double x = mc::pick<double>({0, 1, 2.5}), y = mc::pick<double>({0, 1, 3.25});
    pts.push_back({x, y});
    s += fmt("(%g,%g)", x, y);
  }
  double base = mc::pick<double>({0, -1});
  mc::describe("area " + s + fmt(" over %g", base));
  mc::step(2);
  AucPoints<false> a(pts, base);
  AucPoints<true> b(pts, base);
  double ra = 0, rb = 0;
  for (int i = 1; i < n; i++) {
    double x0 = std::get<0>(pts[i - 1]), y0 = std::get<1>(pts[i - 1]), x1 = std::get<0>(pts[i]), y1 = std::get<1>(pts[i]);
    ra += (x1 - x0) * ((y0 + y1) / 2 - base);
    rb += (y1 - y0) * ((x0 + x1) / 2 - base);
  }
  mc::eq(a.Result, ra, "area", "under the points");
  mc::eq(b.Result, rb, "area", "beside the points");
  mc::outcome(mc::hash_str(fmt("%g", ra)));
}

int main(int argc, char **argv) {
  return mc::harness_main(argc, argv, {
    {"c27_newton_quad", newton_quad, "all convex quadratics in 1-2 (3) variables from a small alphabet x starts x options"},
    {"c27_newton_general", newton_general, "8 functions x starts x every iteration limit to 12 (40)"},
    {"c27_newton_plain", newton_plain, "3 convex functions x starts x every iteration limit to 12, without line search"},
    {"c27_lbfgs_quad", lbfgs_quad, "all convex quadratics in 1-2 (3) variables x starts x boxes x limits"},
    {"c27_lbfgs_general", lbfgs_general, "8 functions x starts x boxes x every limit to 25 (60)"},
    {"c27_nm_quad", nm_quad, "all convex quadratics in 1-2 (3) variables x starts x boxes x limits"},
    {"c27_nm_general", nm_general, "8 functions x starts x every limit to 15 (60) x failure of each evaluation to 12 (40)"},
    {"c27_nm_one", nm_one, "4 shapes x bounds x starts x limits"},
    {"c27_derivative", derivative, "9 functions x points x orders of extrapolation"},
    {"c27_area", area, "all polylines to 4 (5) points of a 3x3 grid"},
  });
}
