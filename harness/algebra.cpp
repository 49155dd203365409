// C15: matrix algebra against its definitions on plain loops.
#include "matkit.h"
#include "matrix_utils.h"
using namespace ldt;
using namespace mk;
using mc::fmt;

template <class T> static double tol() { return sizeof(T) == 4 ? 1e-4 : 1e-10; }
static Ref gen(int r, int c, int k) { // generic, all different, with signs
  Ref o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      o.at(i, j) = ((i * 5 + j * 3 + k * 7) % 11 - 4) + 0.5 * ((i + 2 * j + k) % 3);
  return o;
}
/// a basis matrix or a generic one
static Ref element(int r, int c, int seed, const char *) {
  int e = mc::choose(r * c + 2);
  if (e < r * c) {
    Ref o(r, c);
    o.at(e % r, e / r) = 2;
    return o;
  }
  return gen(r, c, seed + e - r * c);
}
static Ref nans(int r, int c) { return Ref(r, c, NAN); }
static Ref eye(int n) {
  Ref o(n, n);
  for (int i = 0; i < n; i++)
    o.at(i, i) = 1;
  return o;
}
static Ref sym(const Ref &a, bool upper) { // the symmetric matrix stored in one triangle
  Ref o = a;
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      o.at(i, j) = upper ? a.at(std::min(i, j), std::max(i, j)) : a.at(std::max(i, j), std::min(i, j));
  return o;
}
static Ref half(const Ref &a, bool upper) { // only that triangle, the rest is missing
  Ref o = a;
  for (int i = 0; i < a.r; i++)
    for (int j = 0; j < a.c; j++)
      if (upper ? i > j : i < j)
        o.at(i, j) = NAN;
  return o;
}
static double minor(const Ref &a, std::vector<int> rows, int col) {
  if (col == a.c)
    return 1;
  double s = 0;
  for (size_t k = 0; k < rows.size(); k++) {
    auto q = rows;
    q.erase(q.begin() + k);
    if (a.at(rows[k], col) != 0)
      s += (k % 2 ? -1 : 1) * a.at(rows[k], col) * minor(a, q, col + 1);
  }
  return s;
}
static double det(const Ref &a) {
  std::vector<int> rows;
  for (int i = 0; i < a.r; i++)
    rows.push_back(i);
  return minor(a, rows, 0);
}
static Ref all(int r, int c, const std::vector<double> &alpha) {
  Ref o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      o.at(i, j) = mc::pick(alpha);
  return o;
}
static Ref allsym(int n, const std::vector<double> &alpha) {
  Ref o(n, n);
  for (int i = 0; i < n; i++)
    for (int j = i; j < n; j++)
      o.at(i, j) = o.at(j, i) = mc::pick(alpha);
  return o;
}

// ---------------------------------------------------------------- products --
struct AB {
  double a, b;
};
static const std::vector<AB> ABS = {{1, 0}, {1, 1}, {-2, 0}, {2, -1}, {0.5, 3}, {0, 2}};

template <class T> static void products() {
  const double e = tol<T>();
  int m = mc::range(1, 3), k = mc::range(1, 3), n = mc::range(1, 3);
  int op = mc::choose(8);
  AB ab = mc::pick(ABS);
  T al = (T)ab.a, be = (T)ab.b;
  if (op <= 3) { // A B with transposed arguments
    bool ta = op & 1, tb = op & 2;
    Ref a = element(m, k, 0, "A"), b = element(k, n, 3, "B");
    Ref c = ab.b == 0 ? nans(m, n) : gen(m, n, 5);
    Ref w = lin(dot(a, b), ab.a, c, ab.b);
    mc::describe(fmt("product ta=%d tb=%d alpha=%g beta=%g A=%s B=%s", ta, tb, ab.a, ab.b, a.str().c_str(), b.str().c_str()));
    Mat<T> A(ta ? a.t() : a), B(tb ? b.t() : b), C(c), D(c), W(Ref(m + 1, n)), W2(Ref(m, n + 1));
    auto f = [&](Matrix<T> &s, bool checked) {
      if (!ta && !tb)
        checked ? A.m.Dot(B.m, s, al, be) : A.m.Dot0(B.m, s, al, be);
      else if (ta && !tb)
        checked ? A.m.TrDot(B.m, s, al, be) : A.m.TrDot0(B.m, s, al, be);
      else if (!ta)
        checked ? A.m.DotTr(B.m, s, al, be) : A.m.DotTr0(B.m, s, al, be);
      else
        checked ? A.m.TrDotTr(B.m, s, al, be) : A.m.TrDotTr0(B.m, s, al, be);
      mc::step();
    };
    f(C.m, true);
    C.is(w, "product", "checked product", e);
    f(D.m, false);
    D.is(w, "product", "unchecked product", e);
    rejects([&] { f(W.m, true); }, "storage with another row count");
    rejects([&] { f(W2.m, true); }, "storage with another column count");
    W.unchanged("rejected product");
    A.unchanged("product");
    B.unchanged("product");
    Mat<T> X(Ref((tb ? n : k) + (tb ? 0 : 1), (tb ? k : n) + (tb ? 1 : 0)));
    rejects([&] {
      if (!ta && !tb)
        A.m.Dot(X.m, C.m, al, be);
      else if (ta && !tb)
        A.m.TrDot(X.m, C.m, al, be);
      else if (!ta)
        A.m.DotTr(X.m, C.m, al, be);
      else
        A.m.TrDotTr(X.m, C.m, al, be);
    }, "inner dimensions that differ");
    mc::outcome(mc::hash_str(w.str()));
    return;
  }
  if (op <= 5) { // matrix and vector
    if (n > 1)
      return;
    bool ta = op == 5;
    Ref a = element(m, k, 0, "A"), b = element(k, 1, 3, "b");
    Ref c = ab.b == 0 ? nans(m, 1) : gen(m, 1, 5);
    Ref w = lin(dot(a, b), ab.a, c, ab.b);
    mc::describe(fmt("vector product ta=%d alpha=%g beta=%g A=%s b=%s", ta, ab.a, ab.b, a.str().c_str(), b.str().c_str()));
    Mat<T> A(ta ? a.t() : a), B(b), C(c), D(c), X(Ref(k + 1, 1)), Y(Ref(m + 1, 1));
    ta ? A.m.tDotVector(B.m, C.m, al, be) : A.m.DotVector(B.m, C.m, al, be);
    C.is(w, "product", "checked product", e);
    ta ? A.m.tDotVector0(B.m, D.m, al, be) : A.m.DotVector0(B.m, D.m, al, be);
    D.is(w, "product", "unchecked product", e);
    rejects([&] { ta ? A.m.tDotVector(X.m, C.m, al, be) : A.m.DotVector(X.m, C.m, al, be); }, "vector of another length");
    rejects([&] { ta ? A.m.tDotVector(B.m, Y.m, al, be) : A.m.DotVector(B.m, Y.m, al, be); }, "storage of another length");
    A.unchanged("product");
    B.unchanged("product");
    if (m == 1) { // two vectors
      Mat<T> P(b), Q(element(k, 1, 8, "Q"));
      double s = 0;
      for (int i = 0; i < k; i++)
        s += b.at(i, 0) * Q.was.at(i, 0);
      mc::eq(P.m.VectorDotVector(Q.m), s, "product", "VectorDotVector", e);
      mc::eq(P.m.VectorDotVector0(Q.m), s, "product", "VectorDotVector0", e);
      Mat<T> Z(Ref(k + 1, 1));
      rejects([&] { P.m.VectorDotVector(Z.m); }, "vectors of different lengths");
    }
    return;
  }
  if (op == 6) { // AA' and A'A
    if (n > 1)
      return;
    bool tr = mc::flip(), low = mc::flip();
    Ref a = element(m, k, 0, "A");
    int d = tr ? k : m;
    Ref p = tr ? dot(a.t(), a) : dot(a, a.t());
    Ref c = ab.b == 0 ? nans(d, d) : sym(gen(d, d, 5), true);
    Ref w = lin(p, ab.a, c, ab.b);
    if (!low)
      for (int i = 0; i < d; i++)
        for (int j = 0; j < i; j++)
          w.at(i, j) = c.at(i, j); // left alone
    mc::describe(fmt("A%sA low=%d alpha=%g beta=%g A=%s", tr ? "t" : "At", low, ab.a, ab.b, a.str().c_str()));
    Mat<T> A(a), C(c), D(c), X(Ref(d + 1, d + 1));
    tr ? A.m.Dot_AtA(C.m, low, al, be) : A.m.Dot_AAt(C.m, low, al, be);
    C.is(w, "product", "checked product", e);
    tr ? A.m.Dot_AtA0(D.m, low, al, be) : A.m.Dot_AAt0(D.m, low, al, be);
    D.is(w, "product", "unchecked product", e);
    rejects([&] { tr ? A.m.Dot_AtA(X.m, low, al, be) : A.m.Dot_AAt(X.m, low, al, be); }, "storage of another size");
    A.unchanged("product");
    return;
  }
  // symmetric times general: only one triangle holds data
  if (k != m)
    return;
  bool upper = mc::flip(), left = mc::flip(), full = mc::flip();
  Ref s0 = gen(m, m, mc::choose(2)), s = sym(s0, upper), st = full ? s : half(s, upper);
  Ref b = left ? element(m, n, 3, "B") : element(n, m, 3, "B");
  Ref c = ab.b == 0 ? nans(b.r, b.c) : gen(b.r, b.c, 5);
  Ref w = lin(left ? dot(s, b) : dot(b, s), ab.a, c, ab.b);
  mc::describe(fmt("symmetric product left=%d upper=%d full=%d alpha=%g beta=%g S=%s B=%s", left, upper, full, ab.a, ab.b, st.str().c_str(), b.str().c_str()));
  Mat<T> S(st), B(b), C(c), D(c);
  if (!left && !full) { // the repository's own test binds the flag of DotSym to the other triangle
    Mat<T> C1(c), D1(c);
    B.m.DotSym(S.m, C1.m, !upper, al, be);
    C1.is(w, "product", "product with a symmetric matrix (flag of the repository's test)", e);
    B.m.DotSym0(S.m, D1.m, !upper, al, be);
    D1.is(w, "product", "unchecked product with a symmetric matrix (flag of the repository's test)", e);
    B.m.DotSym(S.m, C.m, upper, al, be);
    C.is(w, "dotsym-triangle", "product with a symmetric matrix (documented flag)", e);
  } else {
    left ? S.m.SymDot(B.m, C.m, upper, al, be) : B.m.DotSym(S.m, C.m, upper, al, be);
    C.is(w, "product", "symmetric product", e);
    left ? S.m.SymDot0(B.m, D.m, upper, al, be) : B.m.DotSym0(S.m, D.m, upper, al, be);
    D.is(w, "product", "unchecked symmetric product", e);
  }
  S.unchanged("product");
  B.unchanged("product");
  Mat<T> X(Ref(b.r + 1, b.c + 1));
  rejects([&] { left ? S.m.SymDot(X.m, C.m, upper, al, be) : X.m.DotSym(S.m, C.m, upper, al, be); }, "other dimensions");
  rejects([&] { left ? S.m.SymDot(B.m, X.m, upper, al, be) : B.m.DotSym(S.m, X.m, upper, al, be); }, "storage of another size");
}

template <class T> static void others() {
  const double e = std::is_integral<T>() ? 0 : tol<T>();
  int op = mc::choose(6);
  int r = mc::range(1, 3), c = mc::range(1, 3);
  auto G = [&](int a, int b, int k) {
    Ref o = gen(a, b, k);
    if (std::is_integral<T>())
      for (auto &x : o.v)
        for (auto &y : x)
          y = std::floor(y);
    return o;
  };
  if (op <= 1) { // diagonal
    Ref a = G(r, c, 1), d = G(op ? r : c, 1, 4);
    Ref w(r, c);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        w.at(i, j) = a.at(i, j) * d.at(op ? i : j, 0);
    mc::describe(fmt("diagonal side=%d A=%s d=%s", op, a.str().c_str(), d.str().c_str()));
    Mat<T> A(a), D(d), C(Ref(r, c, 77)), X(Ref(r + 1, c, 77)), Y(Ref(d.r + 1, 1));
    op ? D.m.DiagDot(A.m, C.m) : A.m.DotDiag(D.m, C.m);
    C.is(w, "diagonal", "diagonal product", e);
    rejects([&] { op ? D.m.DiagDot(A.m, X.m) : A.m.DotDiag(D.m, X.m); }, "storage of another size");
    rejects([&] { op ? Y.m.DiagDot(A.m, C.m) : A.m.DotDiag(Y.m, C.m); }, "a diagonal of another length");
    A.unchanged("diagonal product");
    D.unchanged("diagonal product");
  } else if (op == 2) { // Kronecker
    int p = mc::range(1, 2), q = mc::range(1, 3);
    Ref a = G(r, c, 1), b = G(p, q, 3), w(r * p, c * q);
    for (int i = 0; i < r * p; i++)
      for (int j = 0; j < c * q; j++)
        w.at(i, j) = a.at(i / p, j / q) * b.at(i % p, j % q);
    mc::describe(fmt("kronecker A=%s B=%s", a.str().c_str(), b.str().c_str()));
    Mat<T> A(a), B(b), C(Ref(r * p, c * q, 77)), X(Ref(r * p + 1, c * q)), Y(Ref(r * p, c * q + 1));
    A.m.Kron(B.m, C.m);
    C.is(w, "kronecker", "Kron", e);
    rejects([&] { A.m.Kron(B.m, X.m); }, "storage of another size");
    rejects([&] { A.m.Kron(B.m, Y.m); }, "storage of another size");
    A.unchanged("Kron");
    B.unchanged("Kron");
  } else if (op == 3) { // Kronecker with the identity
    int h = mc::range(1, 3);
    Ref a = G(r, c, 1), u(r * h, c * h), v(r * h, c * h), t(c * h, r * h);
    for (int i = 0; i < r * h; i++)
      for (int j = 0; j < c * h; j++) {
        u.at(i, j) = i % h == j % h ? a.at(i / h, j / h) : 0;
        v.at(i, j) = i / r == j / c ? a.at(i % r, j % c) : 0;
        t.at(j, i) = u.at(i, j);
      }
    mc::describe(fmt("kronecker identity %d A=%s", h, a.str().c_str()));
    Mat<T> A(a), U(Ref(r * h, c * h, 77)), V(Ref(r * h, c * h, 77)), W(Ref(c * h, r * h, 77)), X(Ref(r * h + 1, c * h)), Y(Ref(c * h, r * h + 1));
    A.m.KronIden(h, U.m);
    U.is(u, "kronecker", "KronIden", e);
    A.m.IdenKron(h, V.m);
    V.is(v, "kronecker", "IdenKron", e);
    A.m.TrKronIden(h, W.m);
    W.is(t, "kronecker", "TrKronIden", e);
    rejects([&] { A.m.KronIden(h, X.m); }, "storage of another size");
    rejects([&] { A.m.IdenKron(h, X.m); }, "storage of another size");
    rejects([&] { A.m.TrKronIden(h, Y.m); }, "storage of another size");
    A.unchanged("Kronecker");
  } else if (op == 4) { // trace
    Ref a = G(r, c, mc::choose(3));
    mc::describe("trace " + a.str());
    Mat<T> A(a);
    double s = 0;
    for (int i = 0; i < std::min(r, c); i++)
      s += a.at(i, i);
    if (r == c)
      mc::eq(A.m.Trace(), s, "trace", "Trace", e);
    else
      rejects([&] { A.m.Trace(); }, "trace of a matrix that is not square");
  } else { // transposition
    int C = mc::range(1, 5);
    Ref a = G(r + 1, C, 2);
    mc::describe("transpose " + a.str());
    Mat<T> A(a), S(Ref(C, r + 1, 77));
    A.m.Transpose(S.m);
    S.is(a.t(), "transpose", "Transpose into", e);
    A.unchanged("Transpose into");
    A.m.Transpose();
    A.is(a.t(), "transpose", "Transpose in place", e);
    A.m.Transpose();
    A.is(a, "transpose", "Transpose twice", e);
  }
}
template <class T> static void nanproduct() {
  int r = mc::range(1, 3), c = mc::range(1, 2);
  if (r * c > 4 && !mc::thorough())
    r = 2;
  Ref a = all(r, c, {1, 2, -3, NAN});
  bool low = mc::flip();
  mc::describe(fmt("Dot_AtA_nan low=%d ", low) + a.str());
  Ref w(c, c), n(c, c);
  for (int i = 0; i < c; i++)
    for (int j = 0; j < c; j++)
      for (int k = 0; k < r; k++) {
        double v = a.at(k, i) * a.at(k, j);
        if (!std::isnan(v)) {
          w.at(i, j) += v;
          n.at(i, j)++;
        }
      }
  Mat<T> A(a), C(Ref(c, c, 77)), N(Ref(c, c, 77));
  A.m.Dot_AtA_nan(C.m, N.m, low);
  C.is(w, "product", "Dot_AtA_nan");
  N.is(n, "product", "Dot_AtA_nan counts");
  A.unchanged("Dot_AtA_nan");
}

// ---------------------------------------------------------- inverse and det --
template <class T> static void inverse(int n, const std::vector<double> &alpha) {
  const double e = sizeof(T) == 4 ? 2e-3 : 1e-9;
  Ref a = all(n, n, alpha);
  mc::describe(fmt("inverse %d ", (int)sizeof(T)) + a.str());
  double d = det(a);
  auto verify = [&](const Ref &x, const char *what) {
    Ref p = dot(a, x), q = dot(x, a);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        mc::eq(p.at(i, j), i == j, "inverse", fmt("%s: A X (%d,%d)", what, i, j), e);
        mc::eq(q.at(i, j), i == j, "inverse", fmt("%s: X A (%d,%d)", what, i, j), e);
      }
  };
  auto bad = [&](int info, const Ref &x, const char *what) {
    bool odd = info != 0;
    for (auto &l : x.v)
      for (double y : l)
        if (!std::isfinite(y) || std::fabs(y) > (sizeof(T) == 4 ? 1e5 : 1e12))
          odd = true;
    MC_CHECK(odd, "singular", "%s reports an inverse of a singular matrix: %s", what, x.str().c_str());
  };
  Mat<T> A(a), S(Ref(n, n, 77));
  int info = A.m.Inv(S.m);
  A.unchanged("Inv");
  if (d != 0) {
    mc::eqi(info, 0, "inverse", "Inv of a regular matrix");
    verify(S.now(), "Inv");
  } else
    bad(info, S.now(), "Inv");
  Mat<T> B(a);
  info = B.m.Inv0();
  if (d != 0) {
    mc::eqi(info, 0, "inverse", "Inv0 of a regular matrix");
    verify(B.now(), "Inv0");
  } else
    bad(info, B.now(), "Inv0");
  Mat<T> E(a);
  mc::Guard<int> ip(n + 1);
  mc::Guard<T> wk(n * n);
  info = E.m.Inv00(ip.p, wk.p);
  MC_CHECK(ip.intact() && wk.intact(), "memory", "Inv00 writes before its work memory");
  if (d != 0) {
    mc::eqi(info, 0, "inverse", "Inv00 of a regular matrix");
    verify(E.now(), "Inv00");
  }
  Mat<T> D(a);
  double got = 0;
  bool t = throws([&] { got = D.m.Det(); });
  if (d != 0) {
    MC_CHECK(!t, "determinant", "Det of a regular matrix fails");
    mc::eq(got, d, "determinant", "Det", e);
  } else
    MC_CHECK(t || std::fabs(got) < e, "determinant", "Det of a singular matrix is %g", got);
  if (n == 2) {
    Mat<T> F(a);
    info = F.m.Inv2x2();
    if (d != 0) {
      mc::eqi(info, 0, "inverse", "Inv2x2 of a regular matrix");
      verify(F.now(), "Inv2x2");
    } else
      bad(info, F.now(), "Inv2x2");
  }
  mc::outcome((uint64_t)(long)(d * 16 + 1000));
}
template <class T> static void inverse_shapes() {
  int r = mc::range(1, 3), c = mc::range(1, 3), s = mc::range(1, 3);
  Mat<T> A(gen(r, c, 1)), S(Ref(s, s, 77));
  mc::describe(fmt("shapes %dx%d storage %d", r, c, s));
  if (r != c || s != r) {
    rejects([&] { A.m.Inv(S.m); }, "inverse with inconsistent shapes");
    S.unchanged("rejected Inv");
  }
  if (r != c) {
    rejects([&] { A.m.Det(); }, "determinant of a matrix that is not square");
    rejects([&] { A.m.Chol(S.m); }, "Cholesky of a matrix that is not square");
    rejects([&] { A.m.SolveTrian(S.m); }, "solving with a matrix that is not square");
    rejects([&] { A.m.SolvePos(S.m); }, "solving with a matrix that is not square");
  } else if (s != r) {
    Mat<T> I(eye(r));
    rejects([&] { I.m.Chol(S.m); }, "Cholesky with a storage of another size");
    rejects([&] { I.m.SolveTrian(S.m); }, "solving with a right side of another size");
    rejects([&] { I.m.SolvePos(S.m); }, "solving with a right side of another size");
  }
  if (r == c && r > 1) {
    Ref q = eye(r);
    q.at(0, 1) = 0.25;
    Mat<T> Q(q), R(Ref(r, r));
    rejects([&] { Q.m.Chol(R.m); }, "Cholesky of a matrix that is not symmetric");
  }
}

// ----------------------------------------------------------------- cholesky --
static bool posdef(const Ref &a, double &worst) {
  worst = 1e300;
  for (int n = 1; n <= a.r; n++) {
    Ref s(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        s.at(i, j) = a.at(i, j);
    worst = std::min(worst, det(s));
  }
  return worst > 0;
}
template <class T> static void cholesky(int n, const std::vector<double> &alpha) {
  const double e = sizeof(T) == 4 ? 2e-3 : 1e-8;
  Ref a = allsym(n, alpha);
  bool upper = mc::flip();
  mc::describe(fmt("cholesky upper=%d ", upper) + a.str());
  double w;
  bool pd = posdef(a, w);
  Mat<T> A(a), S(Ref(n, n, 77));
  int info = A.m.Chol(S.m, upper);
  A.unchanged("Chol");
  auto verify = [&](const Ref &x, const char *what) {
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (upper ? i > j : i < j)
          mc::eq(x.at(i, j), 0, "cholesky", fmt("%s other triangle (%d,%d)", what, i, j));
    Ref p = upper ? dot(x.t(), x) : dot(x, x.t());
    for (int i = 0; i < n; i++) {
      MC_CHECK(x.at(i, i) > 0, "cholesky", "%s diagonal", what);
      for (int j = 0; j < n; j++)
        mc::eq(p.at(i, j), a.at(i, j), "cholesky", fmt("%s product (%d,%d)", what, i, j), e);
    }
  };
  Mat<T> B(half(a, upper));
  int info0 = B.m.Chol0(upper);
  if (pd) {
    mc::eqi(info, 0, "cholesky", "Chol of a positive definite matrix");
    verify(S.now(), "Chol");
    mc::eqi(info0, 0, "cholesky", "Chol0 of a positive definite matrix");
    verify(B.now(), "Chol0");
  } else if (w < 0) // a clear failure (zero determinants may round to either side)
    MC_CHECK(info != 0 && info0 != 0, "cholesky", "a matrix that is not positive definite has a factor");
  Mat<T> D(a);
  double d = D.m.Det_pd0();
  if (pd)
    mc::eq(d, det(a), "determinant", "Det_pd0", e);
  else if (w < 0 && n > 1)
    MC_CHECK(std::isnan(d), "determinant", "Det_pd0 of a matrix that is not positive definite is %g", d);
  // solving
  int k = mc::range(1, 2);
  Ref b = gen(n, k, 2);
  Mat<T> Q(half(a, upper)), X(b);
  info = Q.m.SolvePos(X.m, upper);
  if (pd) {
    mc::eqi(info, 0, "solve", "SolvePos");
    Ref p = dot(a, X.now());
    for (int i = 0; i < n; i++)
      for (int j = 0; j < k; j++)
        mc::eq(p.at(i, j), b.at(i, j), "solve", fmt("SolvePos (%d,%d)", i, j), e * 10);
  } else if (w < 0)
    MC_CHECK(info != 0, "solve", "SolvePos accepts a matrix that is not positive definite");
  mc::outcome(pd + 2 * (w < 0));
}
template <class T> static void triangular(int n, const std::vector<double> &alpha) {
  const double e = sizeof(T) == 4 ? 2e-3 : 1e-9;
  bool upper = mc::flip(), tr = mc::flip(), unit = mc::flip();
  int k = mc::range(1, 2);
  Ref a(n, n), st(n, n, NAN);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i == j) {
        a.at(i, j) = unit ? 1 : mc::pick(alpha);
        st.at(i, j) = unit ? NAN : a.at(i, j);
      } else if (upper ? i < j : i > j)
        st.at(i, j) = a.at(i, j) = mc::pick(alpha);
  mc::describe(fmt("triangular upper=%d transpose=%d unit=%d ", upper, tr, unit) + a.str());
  Ref b = gen(n, k, 4);
  Mat<T> A(st), X(b);
  int info = A.m.SolveTrian(X.m, upper, tr, unit);
  A.unchanged("SolveTrian");
  int zero = 0;
  for (int i = n - 1; i >= 0; i--)
    if (a.at(i, i) == 0)
      zero = i + 1;
  mc::eqi(info, zero, "solve", "SolveTrian status (first zero on the diagonal)");
  if (!zero) {
    Ref p = dot(tr ? a.t() : a, X.now());
    for (int i = 0; i < n; i++)
      for (int j = 0; j < k; j++)
        mc::eq(p.at(i, j), b.at(i, j), "solve", fmt("SolveTrian (%d,%d)", i, j), e);
  }
}

// ----------------------------------------------------------- svd, qr, norms --
static void svd(int r, int c, const std::vector<double> &alpha) {
  Ref a = all(r, c, alpha);
  int job = mc::choose(4);
  char ju = job & 1 ? 'N' : 'A', jv = job & 2 ? 'N' : 'A';
  // the object may have been declared for a larger matrix
  int R = r + mc::choose(2), C = c + mc::choose(2);
  mc::describe(fmt("svd %c%c declared %dx%d ", ju, jv, R, C) + a.str());
  MatrixSvd<double> m(R, C, ju, jv);
  mc::Guard<double> st(m.StorageSize), wk(m.WorkSize);
  Mat<> A(a);
  m.Calculate(A.m, st.p, wk.p);
  mc::step();
  MC_CHECK(st.intact() && wk.intact(), "memory", "svd writes before its memory");
  A.unchanged("svd");
  int mn = std::min(r, c);
  mc::eqi(m.S.length(), mn, "svd", "number of singular values");
  double ss = 0, f = 0;
  for (int i = 0; i < mn; i++) {
    MC_CHECK(m.S.Data[i] >= 0 && (i == 0 || m.S.Data[i] <= m.S.Data[i - 1] + 1e-12), "svd", "singular values are not sorted");
    ss += m.S.Data[i] * m.S.Data[i];
  }
  for (auto &l : a.v)
    for (double x : l)
      f += x * x;
  mc::eq(ss, f, "svd", "squares of the singular values");
  // the singular values are the roots of det(A'A - s2 I)
  Ref p = r >= c ? dot(a.t(), a) : dot(a, a.t());
  for (int i = 0; i < mn; i++) {
    Ref q = p;
    for (int k = 0; k < mn; k++)
      q.at(k, k) -= m.S.Data[i] * m.S.Data[i];
    MC_CHECK(std::fabs(det(q)) < 1e-7, "svd", "singular value %g is no root", m.S.Data[i]);
  }
  auto orth = [&](const Matrix<double> &x, int n, const char *what) {
    mc::eqi(x.RowsCount, n, "svd", what);
    mc::eqi(x.ColsCount, n, "svd", what);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        double s = 0;
        for (int k = 0; k < n; k++)
          s += x.Get(k, i) * x.Get(k, j);
        mc::eq(s, i == j, "svd", fmt("%s is orthogonal", what), 1e-9);
      }
  };
  if (ju == 'A')
    orth(m.U, r, "U");
  if (jv == 'A')
    orth(m.VT, c, "VT");
  if (job == 0)
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) {
        double s = 0;
        for (int k = 0; k < mn; k++)
          s += m.U.Get(i, k) * m.S.Data[k] * m.VT.Get(k, j);
        mc::eq(s, a.at(i, j), "svd", fmt("U S V' (%d,%d)", i, j), 1e-9);
      }
}
template <class T> static void qr(int r, int c, const std::vector<double> &alpha) {
  const double e = sizeof(T) == 4 ? 2e-3 : 1e-9;
  Ref a = all(r, c, alpha);
  mc::describe("qr " + a.str());
  Mat<T> A(a);
  int k = std::min(r, c);
  mc::Guard<T> tau(k);
  mc::eqi(A.m.QR0(tau.p), 0, "qr", "QR0");
  MC_CHECK(A.g.intact() && tau.intact(), "memory", "QR0 writes before its memory");
  Ref x = A.now(), q = eye(r), R(r, c);
  for (int i = 0; i < r; i++)
    for (int j = i; j < c; j++)
      R.at(i, j) = x.at(i, j);
  for (int h = 0; h < k; h++) { // Q = H1 H2 ...
    Ref v(r, 1);
    v.at(h, 0) = 1;
    for (int i = h + 1; i < r; i++)
      v.at(i, 0) = x.at(i, h);
    q = dot(q, lin(eye(r), 1, dot(v, v.t()), -(double)tau.p[h]));
  }
  Ref p = dot(q, R), o = dot(q.t(), q);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      mc::eq(p.at(i, j), a.at(i, j), "qr", fmt("QR (%d,%d)", i, j), e);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < r; j++)
      mc::eq(o.at(i, j), i == j, "qr", fmt("Q'Q (%d,%d)", i, j), e);
}
template <class T> static void norms(int r, int c) {
  Ref a = all(r, c, {-2, -1, 0, 1, 3});
  mc::describe("norm " + a.str());
  Mat<T> A(a);
  double n1 = 0, ni = 0, nm = 0, nf = 0;
  for (int j = 0; j < c; j++) {
    double s = 0;
    for (int i = 0; i < r; i++)
      s += std::fabs(a.at(i, j));
    n1 = std::max(n1, s);
  }
  for (int i = 0; i < r; i++) {
    double s = 0;
    for (int j = 0; j < c; j++) {
      s += std::fabs(a.at(i, j));
      nm = std::max(nm, std::fabs(a.at(i, j)));
      nf += a.at(i, j) * a.at(i, j);
    }
    ni = std::max(ni, s);
  }
  mc::eq(A.m.Norm('1'), n1, "norm", "one norm", tol<T>());
  mc::eq(A.m.Norm('F'), std::sqrt(nf), "norm", "Frobenius norm", tol<T>());
  mc::eq(A.m.Norm('I'), ni, "norm", "infinity norm", tol<T>());
  mc::eq(A.m.Norm('M'), nm, "norm", "largest value", tol<T>());
  mc::step(4);
  A.unchanged("Norm");
}

int main(int argc, char **argv) {
  std::vector<double> z3 = {-1, 0, 1}, z4 = {-1, 0, 1, 2};
  auto big = [=] { return mc::thorough() ? z4 : z3; };
  return mc::harness_main(argc, argv, {
    {"c15_products", products<double>, "shapes to 3x3x3, all pairs of basis and generic matrices, 8 products, 6 scalar pairs"},
    {"c15_others", others<double>, "shapes to 3x3: diagonal and Kronecker products, trace, transposition"},
    {"c15_others_int", others<int>, "the same for integers"},
    {"c15_nan", nanproduct<double>, "all matrices to 3x2 over {1,2,-3,missing}"},
    {"c15_inv1", [=] { inverse<double>(1, {-2, -1, 0, 1, 3}); }, "all 1x1"},
    {"c15_inv2", [=] { inverse<double>(2, {-2, -1, 0, 1, 2, 3}); }, "all 2x2 over 6 values"},
    {"c15_inv3", [=] { inverse<double>(3, big()); }, "all 3x3 over {-1,0,1} (and 2)"},
    {"c15_inv4", [=] { inverse<double>(4, {0, 1}); }, "all 4x4 over {0,1}"},
    {"c15_shapes", inverse_shapes<double>, "all shapes to 3x3 and storages"},
    {"c15_chol1", [=] { cholesky<double>(1, {-2, 0, 1, 3}); }, "all 1x1"},
    {"c15_chol2", [=] { cholesky<double>(2, {-2, -1, 0, 1, 2, 3}); }, "all symmetric 2x2 over 6 values"},
    {"c15_chol3", [=] { cholesky<double>(3, mc::thorough() ? std::vector<double>{-2, -1, 0, 1, 2, 4} : std::vector<double>{-1, 0, 1, 2}); }, "all symmetric 3x3 over 4 (6) values"},
    {"c15_trian", [=] { triangular<double>(3, z4); }, "all triangular 3x3 over {-1,0,1,2}"},
    {"c15_trian2", [=] { triangular<double>(2, {-2, -1, 0, 1, 2}); }, "all triangular 2x2 over 5 values"},
    {"c15_svd11", [=] { svd(1, 1, {-2, 0, 1, 3}); }, "all 1x1"},
    {"c15_svd22", [=] { svd(2, 2, {-2, -1, 0, 1, 3}); }, "all 2x2 over 5 values"},
    {"c15_svd23", [=] { svd(2, 3, z3); }, "all 2x3 over 3 values"},
    {"c15_svd32", [=] { svd(3, 2, z3); }, "all 3x2 over 3 values"},
    {"c15_svd13", [=] { svd(1, 3, z4); }, "all 1x3"},
    {"c15_svd31", [=] { svd(3, 1, z4); }, "all 3x1"},
    {"c15_svd33", [=] { svd(3, 3, mc::thorough() ? std::vector<double>{-1, 0, 1} : std::vector<double>{0, 1}); }, "all 3x3 over 2 (3) values"},
    {"c15_qr22", [=] { qr<double>(2, 2, {-2, -1, 0, 1, 3}); }, "all 2x2 over 5 values"},
    {"c15_qr23", [=] { qr<double>(2, 3, z3); }, "all 2x3 over 3 values"},
    {"c15_qr32", [=] { qr<double>(3, 2, z3); }, "all 3x2 over 3 values"},
    {"c15_qr33", [=] { qr<double>(3, 3, {0, 1}); }, "all 3x3 over 2 values"},
    {"c15_norm22", [=] { norms<double>(2, 2); }, "all 2x2 over 5 values"},
    {"c15_norm23", [=] { norms<double>(2, 3); }, "all 2x3 over 5 values"},
    {"c15_norm31", [=] { norms<double>(3, 1); }, "all 3x1 over 5 values"},
  });
}
