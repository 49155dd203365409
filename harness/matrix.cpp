// C14: element, slice, sort, missing-data and summary operations of Matrix,
// MatrixSym and VMatrix, each compared with a plain two-dimensional reference.
#include "matkit.h"
#include "matrix_utils.h"
using namespace mk;

static void shape(int &r, int &c, int mr, int mc_) {
  r = mc::range(1, mr);
  c = mc::range(1, mc_);
}
// ---------------------------------------------------------------- elements --
template <class T> static void element() {
  int r, c;
  shape(r, c, 3, 4);
  Ref a = ids(r, c);
  Mat<T> A(a);
  auto &m = A.m;
  int i = mc::range(-1, r), j = mc::range(-1, c);
  bool ok = i >= 0 && i < r && j >= 0 && j < c;
  mc::describe(fmt("%dx%d element (%d,%d)", r, c, i, j));
  mc::state(mc::hash_str(mc::G().desc));
  T v = 0;
  bool th = throws([&] { v = m.Get(i, j); });
  MC_CHECK(th == !ok, "get-bounds", "Get is %s", th ? "rejected" : "accepted");
  if (ok) {
    MC_CHECK(v == a.at(i, j) && m.Get0(i, j) == v && m.Get0r(i, j) == v, "get", "Get gives %g", (double)v);
    Ti ri, ci;
    m.TranslateIndex((Ti)(i + r * j), ri, ci);
    MC_CHECK(ri == i && ci == j, "translate", "TranslateIndex gives (%d,%d)", ri, ci);
    MC_CHECK(m.Get((Ti)(i + r * j)) == a.at(i, j), "get", "Get by position");
    int k = 0;
    for (auto it = m.RowBegin(i); it != m.RowEnd(i); ++it, k++)
      MC_CHECK(*it == a.at(i, k), "iterate", "row iterator at %d", k);
    mc::eqi(k, c, "iterate", "row iterator length");
    k = 0;
    for (auto it = m.ColBegin(j); it != m.ColEnd(j); ++it, k++)
      MC_CHECK(*it == a.at(k, j), "iterate", "column iterator at %d", k);
    mc::eqi(k, r, "iterate", "column iterator length");
  }
  mc::eqi(m.end() - m.begin(), r * c, "iterate", "length of the range");
  Ti pos = (Ti)mc::range(-1, r * c);
  bool okp = pos >= 0 && pos < r * c;
  int op = mc::choose(7);
  T x = 77;
  Ref w = a;
  auto two = [&](std::function<void()> f, double val, const char *name) {
    bool t = throws(f);
    MC_CHECK(t == !ok, "set-bounds", "%s is %s", name, t ? "rejected" : "accepted");
    if (ok)
      w.at(i, j) = val;
    A.is(w, "set", name);
  };
  double cur = ok ? a.at(i, j) : 0;
  switch (op) {
  case 0: two([&] { m.Set(i, j, x); }, 77, "Set"); break;
  case 1: two([&] { m.Set_Plus(i, j, x); }, cur + 77, "Set_Plus"); break;
  case 2: two([&] { m.Set_Minus(i, j, x); }, cur - 77, "Set_Minus"); break;
  case 3:
    if (ok) {
      m.Set0(i, j, x);
      w.at(i, j) = 77;
      A.is(w, "set", "Set0");
      m.Set_Plus0(i, j, x);
      w.at(i, j) += 77;
      A.is(w, "set", "Set_Plus0");
      m.Set_Minus0(i, j, 3);
      w.at(i, j) -= 3;
      A.is(w, "set", "Set_Minus0");
      m.Get0r(i, j) = 5;
      w.at(i, j) = 5;
      A.is(w, "set", "Get0r");
    }
    break;
  case 4: {
    bool t = throws([&] { m.Set(pos, x); });
    MC_CHECK(t == !okp, "set-bounds", "Set(%d) is %s", pos, t ? "rejected" : "accepted");
    if (okp)
      w.at(pos % r, pos / r) = 77;
    A.is(w, "set", "Set by position");
    t = throws([&] { v = m.Get(pos); });
    MC_CHECK(t == !okp, "get-bounds", "Get(%d) is %s", pos, t ? "rejected" : "accepted");
    break;
  }
  case 5: {
    bool okv = okp && c == 1, t = throws([&] { v = m.GetVector(pos); });
    MC_CHECK(t == !okv, "get-bounds", "GetVector(%d) is %s", pos, t ? "rejected" : "accepted");
    if (okv)
      MC_CHECK(v == a.at(pos, 0), "get", "GetVector");
    t = throws([&] { m.SetVector(pos, x); });
    MC_CHECK(t == !okv, "set-bounds", "SetVector(%d) is %s", pos, t ? "rejected" : "accepted");
    if (okv)
      w.at(pos, 0) = 77;
    A.is(w, "set", "SetVector");
    break;
  }
  case 6: {
    MC_CHECK(m.length() == r * c && m.IsVector() == (c == 1) && m.IsSquare() == (r == c) && !m.IsEmpty(), "shape",
             "shape questions");
    MC_CHECK(m.First() == a.at(0, 0) && m.Last() == a.at(r - 1, c - 1), "get", "First, Last");
    A.is(a, "input-changed", "questions");
    int nr = i + 1, nc = j + 1; // 0..
    bool t = throws([&] { m.Restructure(nr, nc); });
    MC_CHECK(t == (nr * nc != r * c), "shape", "Restructure to %dx%d is %s", nr, nc, t ? "rejected" : "accepted");
    if (!t) {
      Ref q(nr, nc);
      for (int k = 0; k < r * c; k++)
        q.at(k % nr, k / nr) = a.at(k % r, k / r);
      A.is(q, "restructure", "Restructure");
    }
    break;
  }
  }
}
// --------------------------------------------------------------- fill, apply --
template <class T> static void fill() {
  int r, c;
  shape(r, c, 3, 4);
  Ref a = ids(r, c), b = ids(r, c, 40);
  int op = mc::choose(20);
  mc::describe(fmt("%dx%d fill/apply %d", r, c, op));
  mc::state(mc::hash_str(mc::G().desc));
  Mat<T> A(a), B(b), S(Ref(r, c, 3));
  auto &m = A.m;
  Ref w = a;
  std::function<T(T)> f1 = [](T x) { return (T)(2 * x + 1); };
  std::function<T(T, T)> f2 = [](T x, T y) { return (T)(3 * x - y); };
  auto each = [&](Ref &x, std::function<double(int, int)> f) {
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        x.at(i, j) = f(i, j);
  };
  auto square = [&](std::function<void()> g, std::function<double(int, int)> f, const char *name) {
    bool t = throws(g);
    MC_CHECK(t == (r != c), "square", "%s is %s", name, t ? "rejected" : "accepted");
    if (!t)
      each(w, f);
    A.is(w, "fill", name);
  };
  switch (op) {
  case 0: m.SetValue(9); each(w, [](int, int) { return 9; }); A.is(w, "fill", "SetValue"); break;
  case 1: m.SetSequence(4, 3); each(w, [&](int i, int j) { return 4 + 3 * (i + r * j); }); A.is(w, "fill", "SetSequence"); break;
  case 2: square([&] { m.SetValueDiag(9); }, [&](int i, int j) { return i == j ? 9 : a.at(i, j); }, "SetValueDiag"); break;
  case 3: square([&] { m.SetValueDiag(9, 2); }, [&](int i, int j) { return i == j ? 9 : 2; }, "SetValueDiag2"); break;
  case 4: square([&] { m.SetValueOffDiag(2); }, [&](int i, int j) { return i == j ? a.at(i, j) : 2; }, "SetValueOffDiag"); break;
  case 5: m.Apply_in(f1); each(w, [&](int i, int j) { return 2 * a.at(i, j) + 1; }); A.is(w, "apply", "Apply_in"); break;
  case 6: m.Apply_in(B.m, f2); each(w, [&](int i, int j) { return 3 * a.at(i, j) - b.at(i, j); }); A.is(w, "apply", "Apply_in(B)"); B.unchanged("Apply_in"); break;
  case 7: { int k = mc::choose(r); m.ApplyRow_in(k, f1); each(w, [&](int i, int j) { return i == k ? 2 * a.at(i, j) + 1 : a.at(i, j); }); A.is(w, "apply", "ApplyRow_in"); break; }
  case 8: { int k = mc::choose(c); m.ApplyColumn_in(k, f1); each(w, [&](int i, int j) { return j == k ? 2 * a.at(i, j) + 1 : a.at(i, j); }); A.is(w, "apply", "ApplyColumn_in"); break; }
  case 9: mc::flip() ? m.Apply(f1, S.m) : m.Apply0(f1, S.m); each(w, [&](int i, int j) { return 2 * a.at(i, j) + 1; }); S.is(w, "apply", "Apply"); A.unchanged("Apply"); break;
  case 10: mc::flip() ? m.Apply(B.m, f2, S.m) : m.Apply0(B.m, f2, S.m); each(w, [&](int i, int j) { return 3 * a.at(i, j) - b.at(i, j); }); S.is(w, "apply", "Apply(B)"); A.unchanged("Apply"); B.unchanged("Apply"); break;
  case 11: switch (mc::choose(6)) {
    case 0: m.CopyTo(S.m); break;
    case 1: m.CopyTo0(S.m); break;
    case 2: m.CopyTo00(S.m); break;
    case 3: S.m.CopyFrom(m); break;
    case 4: S.m.CopyFrom0(m); break;
    case 5: S.m.CopyFrom00(m); break;
    }
    S.is(a, "copy", "copy"); A.unchanged("copy"); break;
  case 12: { // other shapes are rejected
    Mat<T> O(Ref(r + 1, c, 3));
    rejects([&] { m.CopyTo(O.m); }, "CopyTo another shape");
    rejects([&] { m.CopyTo0(O.m); }, "CopyTo0 another length");
    rejects([&] { m.CopyFrom(O.m); }, "CopyFrom another shape");
    rejects([&] { m.Apply(f1, O.m); }, "Apply to another shape");
    rejects([&] { m.Apply(B.m, f2, O.m); }, "Apply to another shape");
    rejects([&] { m.Apply(O.m, f2, S.m); }, "Apply with another shape");
    rejects([&] { m.Apply_in(O.m, f2); }, "Apply_in with another shape");
    O.unchanged("rejected operations"); A.unchanged("rejected operations"); S.unchanged("rejected operations");
    break; }
  case 13: { // default-value constructors and SetData
    Matrix<T> q((T)6, S.g.p, r, c);
    each(w, [](int, int) { return 6; });
    S.is(w, "fill", "default value");
    q.SetData((T)8, B.g.p, c, r);
    MC_CHECK(q.RowsCount == c && q.ColsCount == r && q.Data == B.g.p, "setdata", "SetData");
    each(w, [](int, int) { return 8; });
    B.is(w, "fill", "SetData default");
    q.SetData(A.g.p);
    MC_CHECK(q.RowsCount == c && q.ColsCount == r && q.Data == A.g.p, "setdata", "SetData keeps the shape");
    A.unchanged("SetData");
    break; }
  case 14: { // diagonal
    bool t = throws([&] { Matrix<T>::Diagonal(m, 5, 2); });
    MC_CHECK(t == (r != c), "square", "Diagonal is %s", t ? "rejected" : "accepted");
    if (!t) {
      each(w, [](int i, int j) { return i == j ? 5 : 2; });
      A.is(w, "fill", "Diagonal");
      if constexpr (std::is_floating_point<T>()) {
        MC_CHECK(Matrix<T>::IsDiagonal(m, 5, 2), "isdiagonal", "not recognized");
        int i = mc::choose(r), j = mc::choose(c);
        m.Set0(i, j, (T)(m.Get0(i, j) + 0.5));
        MC_CHECK(!Matrix<T>::IsDiagonal(m, 5, 2), "isdiagonal", "difference at (%d,%d) not seen", i, j);
        MC_CHECK(Matrix<T>::IsDiagonal(m, 5, 2, 0.75), "isdiagonal", "tolerance is ignored");
      }
    }
    break; }
  case 15: { // triangular
    int n = r;
    bool dg = mc::flip();
    int up = mc::range(-1, 1), len = dg ? n * (n + 1) / 2 : n * (n - 1) / 2;
    bool byrow = mc::flip(), zero = mc::flip();
    if (len == 0 || c != 1)
      break;
    Ref e(len, 1), s(n, n, 3);
    for (int k = 0; k < len; k++)
      e.at(k, 0) = 20 + k;
    Mat<T> E(e), Q(s);
    bool possible = up >= 0 ? byrow : !byrow;
    bool t = throws([&] { zero ? Matrix<T>::MakeTriangular0(Q.m, E.m, up, dg, byrow) : Matrix<T>::MakeTriangular(Q.m, E.m, up, dg, byrow); });
    if (t) { // 'some options might not be implemented'
      MC_CHECK(!possible, "triangular", "up=%d diag=%d byrow=%d is rejected", up, (int)dg, (int)byrow);
      break;
    }
    int k = 0;
    for (int i = 0; i < n; i++) // rows of the upper triangle = columns of the lower
      for (int j = dg ? i : i + 1; j < n; j++, k++) {
        if (up >= 0)
          s.at(i, j) = e.at(k, 0);
        if (up <= 0)
          s.at(j, i) = e.at(k, 0);
      }
    Q.is(s, "triangular", fmt("n=%d up=%d diag=%d", n, up, (int)dg));
    E.unchanged("MakeTriangular");
    break; }
  case 16: { // symmetric
    bool t = throws([&] { m.IsSymmetric(); });
    MC_CHECK(t == (r != c), "square", "IsSymmetric is %s", t ? "rejected" : "accepted");
    if (t)
      break;
    Ref s(r, r);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < r; j++)
        s.at(i, j) = 10 * std::min(i, j) + std::max(i, j);
    Mat<T> Q(s);
    MC_CHECK(Q.m.IsSymmetric(), "symmetric", "not recognized");
    int i = mc::choose(r), j = mc::choose(r);
    Q.m.Set0(i, j, (T)(s.at(i, j) + 2));
    MC_CHECK(Q.m.IsSymmetric() == (i == j) && Q.m.IsSymmetric((T)2), "symmetric", "difference at (%d,%d)", i, j);
    break; }
  case 17: { // comparison
    Mat<T> Q(a);
    T d;
    MC_CHECK(m.Equals(Q.m) && m.Equals(Q.m, d, (T)0), "equals", "equal matrices differ");
    int i = mc::choose(r), j = mc::choose(c);
    Q.m.Set0(i, j, (T)(a.at(i, j) + 2));
    MC_CHECK(!m.Equals(Q.m) && !m.Equals(Q.m, (T)1) && m.Equals(Q.m, (T)2) && !Q.m.Equals(m, (T)1), "equals", "difference at (%d,%d)", i, j);
    Mat<T> O(Ref(r, c + 1, 3));
    rejects([&] { m.Equals(O.m); }, "comparing different shapes");
    MC_CHECK(!m.Equals(O.m, (T)0, false), "equals", "different shapes are equal");
    break; }
  case 18: { // from/to vectors
    std::vector<T> v((size_t)(r * c));
    for (int k = 0; k < r * c; k++)
      v[k] = (T)(k + 1);
    Matrix<T> q(&v, r, c);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        MC_CHECK(q.Get(i, j) == i + r * j + 1, "vector", "matrix over a vector");
    Matrix<T> q1(&v);
    MC_CHECK(q1.RowsCount == r * c && q1.ColsCount == 1 && q1.Data == v.data(), "vector", "column over a vector");
    VMatrix<T> vm(v, r, c);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        MC_CHECK(vm.Mat.Get(i, j) == i + r * j + 1, "vmatrix", "own vector");
    MC_CHECK(vm.Mat.Data == vm.Vec.data() && v[0] == 1, "vmatrix", "data of the own vector");
    VMatrix<T> vz(r, c);
    MC_CHECK((int)vz.Vec.size() == r * c && vz.Mat.RowsCount == r && vz.Mat.ColsCount == c && vz.Mat.Data == vz.Vec.data(), "vmatrix", "shape");
    VMatrix<T> vc(vm);
    vc.Sync();
    vc.Mat.Set(0, 0, 50);
    MC_CHECK(vm.Mat.Get(0, 0) == 1 && vc.Mat.Data == vc.Vec.data(), "vmatrix", "copies share data");
    break; }
  case 19: { // transposition
    Ref x = a.t();
    Mat<T> Q(Ref(c, r, 3));
    mc::flip() ? m.Transpose(Q.m) : m.Transpose0(Q.m);
    Q.is(x, "transpose", "Transpose");
    A.unchanged("Transpose");
    m.Transpose();
    A.is(x, "transpose", "in-place Transpose");
    Mat<T> O(Ref(c, r + 1, 3));
    rejects([&] { S.m.Transpose(O.m); }, "Transpose to another shape");
    break; }
  }
}
// ---------------------------------------------------------------- sub-matrix --
template <class T> static void sub() {
  int r, c, sr, sc;
  shape(r, c, 3, 3);
  shape(sr, sc, 3, 3);
  Ref a = ids(r, c), b = ids(sr, sc, 300);
  int op = mc::choose(2);
  int i0 = mc::range(0, 2), j0 = mc::range(0, 2), p0 = mc::range(0, 2), q0 = mc::range(0, 2);
  int n = mc::range(0, 3), k = mc::range(0, 3);
  mc::describe(fmt("%s at (%d,%d) of %dx%d, source (%d,%d) of %dx%d, %dx%d cells", op ? "SetSub_t" : "SetSub", i0, j0, r,
                   c, p0, q0, sr, sc, n, k));
  mc::state(mc::hash_str(mc::G().desc));
  Mat<T> A(a), B(b);
  // for the transposed form, cell (i,j) comes from source (p0+j, q0+i)
  bool ok = i0 + n <= r && j0 + k <= c && (op ? p0 + k <= sr && q0 + n <= sc : p0 + n <= sr && q0 + k <= sc);
  bool t = throws([&] { op ? A.m.SetSub_t(i0, j0, B.m, p0, q0, n, k) : A.m.SetSub(i0, j0, B.m, p0, q0, n, k); });
  MC_CHECK(t == !ok, "sub-bounds", "block is %s", t ? "rejected" : "accepted");
  Ref w = a;
  if (ok)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < k; j++)
        w.at(i0 + i, j0 + j) = op ? b.at(p0 + j, q0 + i) : b.at(p0 + i, q0 + j);
  A.is(w, "sub", "block copy");
  B.unchanged("block copy");
  if (ok) {
    Mat<T> A2(a);
    op ? A2.m.SetSub_t0(i0, j0, B.m, p0, q0, n, k) : A2.m.SetSub0(i0, j0, B.m, p0, q0, n, k);
    A2.is(w, "sub", "block copy (unchecked)");
  }
}
template <class T> static void getsub() {
  int r, c;
  shape(r, c, 3, 4);
  Ref a = ids(r, c);
  Mat<T> A(a);
  int op = mc::choose(3);
  int s0 = mc::range(0, 1), s1 = mc::range(0, 1);
  int extra = mc::choose(3); // shape of the storage: exact, one more row, one column less/more
  auto build = [&](int n, int k) { // storage for n x k cells at (s0,s1)
    int R = n + s0 + (extra == 1), C = k + s1 + (extra == 2);
    return Ref(R, C, 3);
  };
  auto run = [&](int n, int k, std::function<double(int, int)> cell, bool inside, std::function<void(Matrix<T> &)> f,
                 std::function<void(Matrix<T> &)> f0) {
    Ref s = build(n, k);
    if (s.r == 0 || s.c == 0)
      s = Ref(std::max(1, s.r), std::max(1, s.c), 3);
    bool fits = s.r == n + s0 && s.c == k + s1;
    Mat<T> S(s);
    mc::describe(mc::G().desc + fmt(" into %dx%d at (%d,%d)", s.r, s.c, s0, s1));
    mc::state(mc::hash_str(mc::G().desc));
    if (!inside && op != 0)
      return; // only the block form checks the source
    bool t = throws([&] { f(S.m); });
    MC_CHECK(t == !(fits && inside), "sub-bounds", "slice is %s", t ? "rejected" : "accepted");
    Ref w = s;
    if (fits && inside)
      for (int i = 0; i < n; i++)
        for (int j = 0; j < k; j++)
          w.at(s0 + i, s1 + j) = cell(i, j);
    S.is(w, "slice", "slice");
    A.unchanged("slice");
    if (fits && inside) {
      Mat<T> S2(s);
      f0(S2.m);
      S2.is(w, "slice", "slice (unchecked)");
    }
  };
  if (op == 0) {
    int i0 = mc::range(0, 2), j0 = mc::range(0, 3), n = mc::range(0, 3), k = mc::range(0, 4);
    mc::describe(fmt("GetSub %dx%d: (%d,%d) %dx%d", r, c, i0, j0, n, k));
    run(n, k, [&](int i, int j) { return a.at(i0 + i, j0 + j); }, i0 + n <= r && j0 + k <= c,
        [&](Matrix<T> &S) { A.m.GetSub(i0, j0, n, k, S, s0, s1); }, [&](Matrix<T> &S) { A.m.GetSub0(i0, j0, n, k, S, s0, s1); });
  } else if (op == 1) {
    bool firstRow = mc::flip(), exclude = mc::flip();
    int F = firstRow ? r : c, N = firstRow ? c : r;
    int f0 = mc::range(0, F - 1), fn = mc::range(0, F - f0);
    vector<Ti> idx; // any subset, in ascending or descending order
    int bits = mc::choose(1 << N);
    bool rev = mc::flip();
    for (int q = 0; q < N; q++)
      if (bits >> q & 1)
        idx.push_back(q);
    if (rev)
      std::reverse(idx.begin(), idx.end());
    vector<int> use;
    if (exclude) {
      for (int q = 0; q < N; q++)
        if (!(bits >> q & 1))
          use.push_back(q);
    } else
      use.assign(idx.begin(), idx.end());
    mc::describe(fmt("GetSub %dx%d: first %s %d+%d, second [%s] exclude=%d", r, c, firstRow ? "rows" : "cols", f0, fn,
                     mc::join(idx).c_str(), (int)exclude));
    int n = firstRow ? fn : (int)use.size(), k = firstRow ? (int)use.size() : fn;
    run(n, k, [&](int i, int j) { return firstRow ? a.at(f0 + i, use[j]) : a.at(use[i], f0 + j); }, true,
        [&](Matrix<T> &S) { A.m.GetSub(f0, fn, idx, firstRow, S, s0, s1, exclude); },
        [&](Matrix<T> &S) { A.m.GetSub0(f0, fn, idx, firstRow, S, s0, s1, exclude); });
  } else {
    vector<Ti> ri, ci;
    int nr = mc::range(0, 2), nc = mc::range(0, 2);
    for (int q = 0; q < nr; q++)
      ri.push_back(mc::choose(r));
    for (int q = 0; q < nc; q++)
      ci.push_back(mc::choose(c));
    mc::describe(fmt("GetSub %dx%d: rows [%s] cols [%s]", r, c, mc::join(ri).c_str(), mc::join(ci).c_str()));
    run(nr, nc, [&](int i, int j) { return a.at(ri[i], ci[j]); }, true,
        [&](Matrix<T> &S) { A.m.GetSub(ri, ci, S, s0, s1); }, [&](Matrix<T> &S) { A.m.GetSub0(ri, ci, S, s0, s1); });
  }
}
// ------------------------------------------------------------- rows, columns --
template <class T> static void lines() {
  int r, c;
  shape(r, c, 3, 4);
  Ref a = ids(r, c);
  int op = mc::choose(18), i = mc::range(-1, r), j = mc::range(-1, c);
  mc::describe(fmt("%dx%d row/column operation %d at %d/%d", r, c, op, i, j));
  mc::state(mc::hash_str(mc::G().desc));
  Mat<T> A(a);
  auto &m = A.m;
  bool okr = i >= 0 && i < r, okc = j >= 0 && j < c;
  Ref w = a;
  auto row = [&](std::function<void()> f, std::function<void()> f0, std::function<double(int)> g, const char *name) {
    bool t = throws(f);
    MC_CHECK(t == !okr, "line-bounds", "%s(%d) is %s", name, i, t ? "rejected" : "accepted");
    if (okr)
      for (int k = 0; k < c; k++)
        w.at(i, k) = g(k);
    A.is(w, "line", name);
    if (okr) {
      for (int k = 0; k < c; k++)
        for (int q = 0; q < r; q++)
          m.Data[q + r * k] = (T)a.at(q, k);
      f0();
      A.is(w, "line", string(name) + " (unchecked)");
    }
  };
  auto col = [&](std::function<void()> f, std::function<void()> f0, std::function<double(int)> g, const char *name) {
    bool t = throws(f);
    MC_CHECK(t == !okc, "line-bounds", "%s(%d) is %s", name, j, t ? "rejected" : "accepted");
    if (okc)
      for (int k = 0; k < r; k++)
        w.at(k, j) = g(k);
    A.is(w, "line", name);
    if (okc) {
      for (int k = 0; k < c; k++)
        for (int q = 0; q < r; q++)
          m.Data[q + r * k] = (T)a.at(q, k);
      f0();
      A.is(w, "line", string(name) + " (unchecked)");
    }
  };
  Ref vr = ids(1, c, 500), vc = ids(r, 1, 500);
  switch (op) {
  case 0: row([&] { m.SetRow(i, (T)9); }, [&] { m.SetRow0(i, (T)9); }, [](int) { return 9; }, "SetRow value"); break;
  case 1: row([&] { m.SetRow_plus(i, (T)9); }, [&] { m.SetRow_plus0(i, (T)9); }, [&](int k) { return a.at(i, k) + 9; }, "SetRow_plus"); break;
  case 2: row([&] { m.SetRow_minus(i, (T)9); }, [&] { m.SetRow_minus0(i, (T)9); }, [&](int k) { return a.at(i, k) - 9; }, "SetRow_minus"); break;
  case 3: { Mat<T> B(vr); row([&] { m.SetRow(i, B.m); }, [&] { m.SetRow0(i, B.m); }, [&](int k) { return vr.at(0, k); }, "SetRow"); B.unchanged("SetRow"); break; }
  case 4: { Ref sq = ids(c, c, 500); Mat<T> B(sq); row([&] { m.SetRowFromDiag(i, B.m); }, [&] { m.SetRowFromDiag0(i, B.m); }, [&](int k) { return sq.at(k, k); }, "SetRowFromDiag"); B.unchanged("SetRowFromDiag");
    Mat<T> O(Ref(c, c + 1, 1)); if (okr) rejects([&] { m.SetRowFromDiag(i, O.m); }, "SetRowFromDiag of another shape"); break; }
  case 5: case 6: { int sr = mc::range(1, 3), k = mc::range(-1, sr); Ref s = ids(sr, c, 500); Mat<T> B(s); bool ok = okr && k >= 0 && k < sr;
    bool t = throws([&] { m.SetRowFromRow(i, B.m, k); }); MC_CHECK(t == !ok, "line-bounds", "SetRowFromRow(%d,%d of %d) is %s", i, k, sr, t ? "rejected" : "accepted");
    if (ok) for (int q = 0; q < c; q++) w.at(i, q) = s.at(k, q);
    A.is(w, "line", "SetRowFromRow"); B.unchanged("SetRowFromRow"); break; }
  case 7: col([&] { m.SetColumn(j, (T)9); }, [&] { m.SetColumn0(j, (T)9); }, [](int) { return 9; }, "SetColumn value"); break;
  case 8: col([&] { m.SetColumn_plus(j, (T)9); }, [&] { m.SetColumn_plus0(j, (T)9); }, [&](int k) { return a.at(k, j) + 9; }, "SetColumn_plus"); break;
  case 9: col([&] { m.SetColumn_minus(j, (T)9); }, [&] { m.SetColumn_minus0(j, (T)9); }, [&](int k) { return a.at(k, j) - 9; }, "SetColumn_minus"); break;
  case 10: { Mat<T> B(vc); col([&] { m.SetColumn(j, B.m); }, [&] { m.SetColumn0(j, B.m); }, [&](int k) { return vc.at(k, 0); }, "SetColumn"); B.unchanged("SetColumn"); break; }
  case 11: { Ref sq = ids(r, r, 500); Mat<T> B(sq); col([&] { m.SetColumnFromDiag(j, B.m); }, [&] { m.SetColumnFromDiag0(j, B.m); }, [&](int k) { return sq.at(k, k); }, "SetColumnFromDiag"); B.unchanged("SetColumnFromDiag");
    Mat<T> O(Ref(r + 1, r, 1)); if (okc) rejects([&] { m.SetColumnFromDiag(j, O.m); }, "SetColumnFromDiag of another shape"); break; }
  case 12: { int sr = mc::range(1, 3), k = mc::range(-1, sr); Ref s = ids(sr, r, 500); Mat<T> B(s); bool ok = okc && k >= 0 && k < sr;
    bool t = throws([&] { m.SetColumnFromRow(j, B.m, k); }); MC_CHECK(t == !ok, "line-bounds", "SetColumnFromRow(%d,%d of %d) is %s", j, k, sr, t ? "rejected" : "accepted");
    if (ok) for (int q = 0; q < r; q++) w.at(q, j) = s.at(k, q);
    A.is(w, "line", "SetColumnFromRow"); B.unchanged("SetColumnFromRow"); break; }
  case 13: { int sc = mc::range(1, 3), k = mc::range(-1, sc), more = mc::choose(2); Ref s = ids(r + more, sc, 500); Mat<T> B(s); bool ok = okc && k >= 0 && k < sc;
    bool t = throws([&] { m.SetColumnFromColumn(j, B.m, k); }); MC_CHECK(t == !ok, "line-bounds", "SetColumnFromColumn(%d,%d of %d) is %s", j, k, sc, t ? "rejected" : "accepted");
    if (ok) for (int q = 0; q < r; q++) w.at(q, j) = s.at(q, k);
    A.is(w, "line", "SetColumnFromColumn"); B.unchanged("SetColumnFromColumn"); break; }
  case 14: { int len = c + mc::range(-1, 1); if (len < 1) len = c + 1; Mat<T> S(Ref(len, 1, 3)); bool ok = okr && len == c;
    bool t = throws([&] { m.GetRow(i, S.m); }); MC_CHECK(t == !ok, "line-bounds", "GetRow(%d) into %d is %s", i, len, t ? "rejected" : "accepted");
    Ref s(len, 1, 3); if (ok) for (int q = 0; q < c; q++) s.at(q, 0) = a.at(i, q);
    S.is(s, "line", "GetRow"); A.unchanged("GetRow"); break; }
  case 15: { int len = r + mc::range(-1, 1); if (len < 1) len = r + 1; Mat<T> S(Ref(len, 1, 3)); bool ok = okc && len == r;
    bool t = throws([&] { m.GetColumn(j, S.m); }); MC_CHECK(t == !ok, "line-bounds", "GetColumn(%d) into %d is %s", j, len, t ? "rejected" : "accepted");
    Ref s(len, 1, 3); if (ok) for (int q = 0; q < r; q++) s.at(q, 0) = a.at(q, j);
    S.is(s, "line", "GetColumn"); A.unchanged("GetColumn"); break; }
  case 16: { int len = r + mc::range(-1, 1); if (len < 1) len = r; Mat<T> S(Ref(len, 1, 3)); bool ok = r == c && len >= r;
    bool t = throws([&] { m.GetDiag(S.m); }); MC_CHECK(t == !ok, "line-bounds", "GetDiag of %dx%d into %d is %s", r, c, len, t ? "rejected" : "accepted");
    Ref s(len, 1, 3); if (ok) for (int q = 0; q < r; q++) s.at(q, 0) = a.at(q, q);
    S.is(s, "line", "GetDiag"); A.unchanged("GetDiag"); break; }
  case 17: { int st = mc::range(0, c), len = mc::range(0, c + 1), sl = mc::range(1, c + 1); Ref s = ids(sl, 1, 500); Mat<T> B(s);
    bool ok = okr && st + len <= c && len <= sl;
    bool t = throws([&] { m.SetSubRow(i, st, B.m, len); }); MC_CHECK(t == !ok, "line-bounds", "SetSubRow(%d,%d) of %d from %d is %s", i, st, len, sl, t ? "rejected" : "accepted");
    if (ok) for (int q = 0; q < len; q++) w.at(i, st + q) = s.at(q, 0);
    A.is(w, "line", "SetSubRow"); B.unchanged("SetSubRow"); break; }
  }
}
template <class T> static void vectors() {
  int n = mc::range(1, 4), sn = mc::range(1, 4), st = mc::range(0, 3), ss = mc::range(0, 3), k = mc::range(0, 4);
  bool get = mc::flip();
  mc::describe(fmt("%s %d cells of %d from %d to %d of %d", get ? "GetSubVector" : "SetSubVector", k, sn, ss, st, n));
  mc::state(mc::hash_str(mc::G().desc));
  Ref a = ids(n, 1), b = ids(sn, 1, 500);
  Mat<T> A(a), B(b);
  if (ss + k > sn)
    return; // the source is not checked
  Ref w = a;
  bool ok = get ? st + k == n : st + k <= n;
  bool t = throws([&] { get ? B.m.GetSubVector(ss, k, A.m, st) : A.m.SetSubVector(st, B.m, ss, k); });
  MC_CHECK(t == !ok, "sub-bounds", "vector slice is %s", t ? "rejected" : "accepted");
  if (ok)
    for (int q = 0; q < k; q++)
      w.at(st + q, 0) = b.at(ss + q, 0);
  A.is(w, "slice", "vector slice");
  B.unchanged("vector slice");
}
// ----------------------------------------------------------------- ordering --
template <class T> static void order() {
  int r = mc::range(1, 4), c = r <= 3 ? mc::range(1, 2) : 1;
  Ref a(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      a.at(i, j) = mc::choose(3);
  bool asc = mc::flip();
  mc::describe(fmt("sort %s ascending=%d", a.str().c_str(), (int)asc));
  mc::state(mc::hash_str(mc::G().desc));
  Mat<T> A(a), S(Ref(r, c, 3));
  mc::step();
  A.m.Sort(S.m, asc);
  Ref w = a;
  for (int j = 0; j < c; j++) {
    vector<double> v;
    for (int i = 0; i < r; i++)
      v.push_back(a.at(i, j));
    std::sort(v.begin(), v.end());
    if (!asc)
      std::reverse(v.begin(), v.end());
    for (int i = 0; i < r; i++)
      w.at(i, j) = v[i];
  }
  S.is(w, "sort", "Sort");
  A.unchanged("Sort");
  Mat<T> O(Ref(r + 1, c, 3));
  rejects([&] { A.m.Sort(O.m, asc); }, "Sort into another shape");
  if (c == 1) {
    vector<Ti> idx;
    A.m.SortIndicesVector(idx, asc);
    vector<int> seen(r, 0);
    for (int k = 0; k < r; k++) {
      MC_CHECK((int)idx.size() == r && idx[k] >= 0 && idx[k] < r && !seen[idx[k]], "sort-indices", "not a permutation");
      seen[idx[k]] = 1;
      MC_CHECK(a.at(idx[k], 0) == w.at(k, 0), "sort-indices", "position %d", k);
      if (k && a.at(idx[k], 0) == a.at(idx[k - 1], 0))
        MC_CHECK(idx[k] > idx[k - 1], "sort-indices", "equal elements change their order");
    }
  }
}
template <class T> static void orderby() {
  int r, c;
  shape(r, c, 3, 3);
  Ref a = ids(r, c);
  int op = mc::choose(3), n = op == 0 ? r * c : op == 1 ? r : c;
  if (n > 4)
    n = 4, r = 2, c = 2, a = ids(r, c);
  vector<Ti> idx;
  int len = mc::range(std::max(1, n - 1), n + 1);
  bool ok = len == n;
  for (int k = 0; k < len; k++)
    idx.push_back(mc::choose(n + (ok ? 1 : 0))); // repetitions and one too large
  for (auto x : idx)
    ok = ok && x < n;
  mc::describe(fmt("%s of %dx%d by [%s]", op == 0 ? "cells" : op == 1 ? "rows" : "columns", r, c, mc::join(idx).c_str()));
  mc::state(mc::hash_str(mc::G().desc));
  Mat<T> A(a), S(Ref(r, c, 3));
  bool t = throws([&] { op == 0 ? A.m.SortByVector(S.m, idx) : op == 1 ? A.m.SortRowsBy(S.m, idx) : A.m.SortColumnsBy(S.m, idx); });
  MC_CHECK(t == !ok, "sortby-bounds", "order is %s", t ? "rejected" : "accepted");
  Ref w(r, c, 3);
  if (ok)
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) {
        int p = idx[op == 0 ? i + r * j : op == 1 ? i : j];
        w.at(i, j) = op == 0 ? a.at(p % r, p / r) : op == 1 ? a.at(p, j) : a.at(i, p);
      }
  S.is(w, "sortby", "ordered copy");
  A.unchanged("ordered copy");
}
// ------------------------------------------------------- missing data, search --
static void missing() {
  static const int shapes[][2] = {{1, 1}, {1, 3}, {4, 1}, {2, 2}, {3, 2}, {2, 3}};
  auto *sh = shapes[mc::choose(mc::qt(5, 6))];
  int r = sh[0], c = sh[1];
  static const double al[] = {1, 2, NAN, INFINITY, -INFINITY};
  int na = r * c > 5 ? 4 : 5;
  Ref a(r, c);
  int distinct = 0;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) {
      int k = mc::choose(na);
      a.at(i, j) = k == 0 ? 10 + distinct++ : na == 4 && k == 3 && (i + j) % 2 ? -INFINITY : al[k];
    }
  mc::describe("missing " + a.str());
  mc::state(mc::hash_str(mc::G().desc));
  Mat<> A(a);
  auto &m = A.m;
  mc::step(20);
  auto bad = [&](double x, bool inf) { return std::isnan(x) || (inf && std::isinf(x)); };
  bool anynan = false;
  for (auto &v : a.v)
    for (auto x : v)
      anynan |= std::isnan(x);
  MC_CHECK(m.HasNaN() == anynan, "hasnan", "HasNaN");
  for (int inf = 0; inf < 2; inf++) {
    for (int bits = 0; bits < (1 << c); bits++) { // every set of columns, none = all
      vector<Ti> cols, got, want;
      for (int j = 0; j < c; j++)
        if (bits >> j & 1)
          cols.push_back(j);
      m.GetAnyNanRow(got, inf, bits ? &cols : nullptr);
      for (int i = 0; i < r; i++) {
        bool b = false;
        for (int j = 0; j < c; j++)
          if (!bits || bits >> j & 1)
            b |= bad(a.at(i, j), inf);
        if (!b)
          want.push_back(i);
      }
      MC_CHECK(got == want, "nanrows", "complete rows [%s], want [%s]", mc::join(got).c_str(), mc::join(want).c_str());
    }
    { // remove columns
      Mat<> B(a);
      B.m.RemoveColumnsAnyNan_in(inf);
      vector<int> keep;
      for (int j = 0; j < c; j++) {
        bool b = false;
        for (int i = 0; i < r; i++)
          b |= bad(a.at(i, j), inf);
        if (!b)
          keep.push_back(j);
      }
      Ref w(r, (int)keep.size());
      for (int i = 0; i < r; i++)
        for (size_t j = 0; j < keep.size(); j++)
          w.at(i, (int)j) = a.at(i, keep[j]);
      B.is(w, "nancols", "RemoveColumnsAnyNan_in");
    }
    if (c == 1) {
      Mat<> B(a);
      B.m.RemoveNanVector_in(inf);
      Ref w(0, 1);
      for (int i = 0; i < r; i++)
        if (!bad(a.at(i, 0), inf))
          w.v.push_back({a.at(i, 0)}), w.r++;
      B.is(w, "nanvector", "RemoveNanVector_in");
      if (!inf) {
        Matrix<double> none;
        mc::eqi(Matrix<double>::RemoveNanVector(m, none), w.r, "nanvector", "RemoveNanVector count");
        Mat<> S(Ref(w.r, 1, 3));
        Matrix<double>::RemoveNanVector(m, S.m);
        S.is(w, "nanvector", "RemoveNanVector");
      }
    }
  }
  for (int bits = 0; bits < (1 << c); bits++) {
    Mat<> B(a);
    vector<Ti> cols;
    int left = 0;
    Ref w(r, 0);
    for (int j = 0; j < c; j++)
      if (bits >> j & 1)
        cols.push_back(j);
      else {
        left++;
        for (int i = 0; i < r; i++)
          w.v[i].push_back(a.at(i, j));
      }
    w.c = left;
    B.m.RemoveColumnsIn(cols);
    B.is(w, "removecols", "RemoveColumnsIn");
  }
  for (double x : {10.0, 11.0, 2.0, (double)NAN, (double)INFINITY, (double)-INFINITY, 5.0}) {
    auto same = [&](double y) { return std::isnan(x) ? std::isnan(y) : x == y; };
    vector<Ti> got, want;
    m.IndicesOfVector(x, got);
    int hits = 0;
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++)
        if (same(a.at(i, j))) {
          want.push_back(i + r * j);
          hits++;
        }
    MC_CHECK(got == want, "search", "positions of %g: [%s], want [%s]", x, mc::join(got).c_str(), mc::join(want).c_str());
    MC_CHECK(m.Any(x) == (hits > 0) && m.All(x) == (hits == r * c), "search", "Any/All of %g", x);
    if (std::isinf(x))
      continue;
    for (int mode = 0; mode < 4; mode++) { // nans equal, ignore nans
      bool ne = mode & 1, ig = mode & 2;
      bool all = true;
      vector<bool> col(c, true);
      for (int j = 0; j < c; j++)
        for (int i = 0; i < r; i++) {
          double y = a.at(i, j);
          bool e;
          if (ig && (std::isnan(y) || std::isnan(x)))
            e = true;
          else if (std::isnan(x) || std::isnan(y))
            e = ne && std::isnan(x) && std::isnan(y);
          else
            e = std::fabs(x - y) <= 1;
          all = all && e;
          col[j] = col[j] && e;
        }
      MC_CHECK(m.EqualsValue(x, 1, ne, ig) == all, "equalsvalue", "EqualsValue(%g, nans %d, ignore %d)", x, (int)ne, (int)ig);
      for (int j = 0; j < c; j++)
        MC_CHECK(m.EqualsValueColumn(j, x, 1, ne, ig) == col[j], "equalsvalue", "EqualsValueColumn %d (%g, nans %d, ignore %d)", j, x, (int)ne, (int)ig);
    }
  }
  { // comparison with itself, missing cells included
    Mat<> B(a);
    MC_CHECK(m.Equals(B.m, 0.0, true, true) || [&] { for (auto &v : a.v) for (auto x : v) if (std::isinf(x)) return true; return false; }(), "equals", "equal matrices differ");
    MC_CHECK(!anynan || !m.Equals(B.m, 0.0, true, false), "equals", "missing cells are equal");
  }
  // ranges
  auto range = [&](vector<double> v, int &s, int &e, bool &gap) {
    s = -1, e = -1, gap = false;
    for (int i = 0; i < (int)v.size(); i++)
      if (!std::isnan(v[i])) {
        if (s < 0)
          s = i;
        e = i;
      }
    for (int i = s; s >= 0 && i <= e; i++)
      gap |= std::isnan(v[i]);
  };
  int cs = 0, ce = INT_MAX;
  bool cgap = false, cnone = false;
  for (int q = 0; q < 2; q++)
    for (int k = 0; k < (q ? c : r); k++) {
      vector<double> v;
      for (int z = 0; z < (q ? r : c); z++)
        v.push_back(q ? a.at(z, k) : a.at(k, z));
      int s, e;
      bool gap, g2 = false;
      range(v, s, e, gap);
      auto R = q ? m.GetRangeColumn(g2, k) : m.GetRangeRow(g2, k);
      if (s < 0)
        MC_CHECK(R.IsNotValid(), "range", "a line without data has range %d..%d", R.StartIndex, R.EndIndex);
      else
        MC_CHECK(R.StartIndex == s && R.EndIndex == e && g2 == gap, "range", "%s %d: %d..%d gap %d, want %d..%d gap %d",
                 q ? "column" : "row", k, R.StartIndex, R.EndIndex, (int)g2, s, e, (int)gap);
      if (q) {
        cnone |= s < 0;
        cs = std::max(cs, s), ce = std::min(ce, e);
        cgap |= gap;
      }
      // interpolation of this line
      bool inf = false;
      for (auto x : v)
        inf |= std::isinf(x);
      if (s < 0 || inf)
        continue;
      Mat<> B(a);
      Ti cnt = -1;
      q ? B.m.InterpolateColumn(cnt, k) : B.m.InterpolateRow(cnt, k);
      Ref w = a;
      int filled = 0;
      for (int z = s; z <= e; z++)
        if (std::isnan(v[z])) {
          int p = z, n = z;
          while (std::isnan(v[p]))
            p--;
          while (std::isnan(v[n]))
            n++;
          (q ? w.at(z, k) : w.at(k, z)) = v[p] + (v[n] - v[p]) * (z - p) / (n - p);
          filled++;
        }
      B.is(w, "interpolate", q ? "InterpolateColumn" : "InterpolateRow", 1e-9);
      mc::eqi(cnt, filled, "interpolate", "number of filled cells");
    }
  {
    bool g2;
    auto R = m.GetRange(g2);
    if (cnone || cs > ce)
      MC_CHECK(R.IsNotValid(), "range", "common range %d..%d of disjoint columns", R.StartIndex, R.EndIndex);
    else
      MC_CHECK(R.StartIndex == cs && R.EndIndex == ce && g2 == cgap, "range", "common range %d..%d", R.StartIndex, R.EndIndex);
  }
  A.unchanged("questions");
}
// --------------------------------------------------------------- arithmetic --
static void arith() {
  int r, c;
  shape(r, c, 2, 3);
  Ref a = ids(r, c, 3), b = ids(r, c, 5), s(r, c, 1.5);
  int op = mc::choose(4), form = mc::choose(9);
  double k = mc::pick({0.0, 2.0, -0.5}), beta = mc::pick({0.0, 1.0, -2.0});
  auto f = [&](double x, double y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; };
  mc::describe(fmt("%dx%d arithmetic %d form %d k=%g beta=%g", r, c, op, form, k, beta));
  mc::state(mc::hash_str(mc::G().desc));
  Mat<> A(a), B(b), S(s);
  auto &m = A.m;
  Ref w(r, c);
  bool scalar = form == 0 || form == 1 || form == 4, inplace = form >= 4 && form <= 6;
  bool usebeta = op == 2 && !inplace;
  if (!usebeta)
    beta = 0;
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      w.at(i, j) = f(a.at(i, j), scalar ? k : b.at(i, j)) + (beta != 0 ? beta * s.at(i, j) : 0);
  mc::step();
  switch (form) {
  case 0: op == 0 ? m.Add(k, S.m) : op == 1 ? m.Subtract(k, S.m) : op == 2 ? m.Multiply(k, S.m, beta) : m.Divide(k, S.m); break;
  case 1: op == 0 ? m.Add0(k, S.m) : op == 1 ? m.Subtract0(k, S.m) : op == 2 ? m.Multiply0(k, S.m, beta) : m.Divide0(k, S.m); break;
  case 2: op == 0 ? m.Add(B.m, S.m) : op == 1 ? m.Subtract(B.m, S.m) : op == 2 ? m.Multiply(B.m, S.m, beta) : m.Divide(B.m, S.m); break;
  case 3: op == 0 ? m.Add0(B.m, S.m) : op == 1 ? m.Subtract0(B.m, S.m) : op == 2 ? m.Multiply0(B.m, S.m, beta) : m.Divide0(B.m, S.m); break;
  case 4: op == 0 ? m.Add_in(k) : op == 1 ? m.Subtract_in(k) : op == 2 ? m.Multiply_in(k) : m.Divide_in(k); break;
  case 5: op == 0 ? m.Add_in(B.m) : op == 1 ? m.Subtract_in(B.m) : op == 2 ? m.Multiply_in(B.m) : m.Divide_in(B.m); break;
  case 6: op == 0 ? m.Add_in0(B.m) : op == 1 ? m.Subtract_in0(B.m) : op == 2 ? m.Multiply_in0(B.m) : m.Divide_in0(B.m); break;
  case 7: { // shapes
    Mat<> O(Ref(r + 1, c, 1));
    auto go = [&](Matrix<double> &x, const Matrix<double> &y, Matrix<double> &z) { op == 0 ? x.Add(y, z) : op == 1 ? x.Subtract(y, z) : op == 2 ? x.Multiply(y, z) : x.Divide(y, z); };
    rejects([&] { go(m, O.m, S.m); }, "arithmetic with another shape");
    rejects([&] { go(m, B.m, O.m); }, "arithmetic into another shape");
    rejects([&] { op == 0 ? m.Add(k, O.m) : op == 1 ? m.Subtract(k, O.m) : op == 2 ? m.Multiply(k, O.m) : m.Divide(k, O.m); }, "arithmetic into another shape");
    rejects([&] { op == 0 ? m.Add_in(O.m) : op == 1 ? m.Subtract_in(O.m) : op == 2 ? m.Multiply_in(O.m) : m.Divide_in(O.m); }, "in-place arithmetic with another shape");
    A.unchanged("rejected arithmetic"); B.unchanged("rejected arithmetic"); S.unchanged("rejected arithmetic");
    return; }
  case 8: { // power
    m.Power_in(k);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        w.at(i, j) = std::pow(a.at(i, j), k);
    A.is(w, "arith", "Power_in", 1e-10);
    return; }
  }
  (inplace ? A : S).is(w, "arith", "result", 1e-12);
  if (!inplace)
    A.unchanged("arithmetic");
  B.unchanged("arithmetic");
}
// ---------------------------------------------------------------- summaries --
struct Mom {
  int n = 0;
  double mean = NAN, varp = NAN, vars = NAN;
};
static Mom moments(const vector<double> &v, bool skip) {
  Mom o;
  double s = 0;
  for (auto x : v)
    if (!(skip && std::isnan(x)))
      s += x, o.n++;
  if (!o.n)
    return o;
  o.mean = s / o.n;
  double q = 0;
  for (auto x : v)
    if (!(skip && std::isnan(x)))
      q += (x - o.mean) * (x - o.mean);
  o.varp = q / o.n;
  o.vars = o.n > 1 ? q / (o.n - 1) : NAN;
  return o;
}
static void summary(bool nan) {
  static const int shapes[][2] = {{1, 1}, {2, 1}, {4, 1}, {1, 3}, {2, 2}, {3, 2}};
  auto *sh = shapes[mc::choose(6)];
  int r = sh[0], c = sh[1];
  static const double al[] = {-3, 1, 4, NAN};
  Ref a(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      a.at(i, j) = al[mc::choose(nan ? 4 : 3)] + (nan ? 0.25 * i : 0);
  mc::describe("summary " + a.str());
  mc::state(mc::hash_str(mc::G().desc));
  Mat<> A(a);
  auto &m = A.m;
  mc::step(12);
  vector<double> all;
  vector<vector<double>> cols(c);
  for (int j = 0; j < c; j++)
    for (int i = 0; i < r; i++) {
      all.push_back(a.at(i, j));
      cols[j].push_back(a.at(i, j));
    }
  // extremes: value and one position that has it
  if (!nan) {
    double mx = *std::max_element(all.begin(), all.end()), mn = *std::min_element(all.begin(), all.end());
    Ti i = -1, j = -1;
    mc::eq(m.Maximum(), mx, "extreme", "Maximum");
    mc::eq(m.Minimum(), mn, "extreme", "Minimum");
    mc::eq(m.max(i, j), mx, "extreme", "max");
    MC_CHECK(i >= 0 && i < r && j >= 0 && j < c && a.at(i, j) == mx, "extreme", "position (%d,%d) of the maximum", i, j);
    i = j = -1;
    mc::eq(m.min(i, j), mn, "extreme", "min");
    MC_CHECK(i >= 0 && i < r && j >= 0 && j < c && a.at(i, j) == mn, "extreme", "position (%d,%d) of the minimum", i, j);
    for (int q = 0; q < r; q++) {
      Ti k = -1;
      double x = *std::max_element(a.v[q].begin(), a.v[q].end()), y = *std::min_element(a.v[q].begin(), a.v[q].end());
      mc::eq(m.MaximumInRow(q, k), x, "extreme", "MaximumInRow");
      MC_CHECK(k >= 0 && k < c && a.at(q, k) == x, "extreme", "position %d in row %d", k, q);
      k = -1;
      mc::eq(m.MinimumInRow(q, k), y, "extreme", "MinimumInRow");
      MC_CHECK(k >= 0 && k < c && a.at(q, k) == y, "extreme", "position %d in row %d", k, q);
    }
    for (int q = 0; q < c; q++) {
      Ti k = -1;
      double x = *std::max_element(cols[q].begin(), cols[q].end()), y = *std::min_element(cols[q].begin(), cols[q].end());
      mc::eq(m.MaximumInColumn(q, k), x, "extreme", "MaximumInColumn");
      MC_CHECK(k >= 0 && k < r && a.at(k, q) == x, "extreme", "position %d in column %d", k, q);
      k = -1;
      mc::eq(m.MinimumInColumn(q, k), y, "extreme", "MinimumInColumn");
      MC_CHECK(k >= 0 && k < r && a.at(k, q) == y, "extreme", "position %d in column %d", k, q);
    }
    double s = 0, tr = 0;
    for (auto x : all)
      s += x;
    mc::eq(m.Sum(), s, "sum", "Sum");
    bool t = throws([&] { mc::eq(m.Trace(), [&] { for (int q = 0; q < r && q < c; q++) tr += a.at(q, q); return tr; }(), "sum", "Trace"); });
    MC_CHECK(t == (r != c), "square", "Trace is %s", t ? "rejected" : "accepted");
    // sums, means and variances of chosen lines; an empty list means all
    for (int bits = 0; bits < (1 << r); bits++) {
      vector<Ti> idx;
      for (int q = r - 1; q >= 0; q--)
        if (bits >> q & 1)
          idx.push_back(q);
      vector<Ti> use = idx;
      if (!bits)
        for (int q = 0; q < r; q++)
          use.push_back(q);
      Mat<> S(Ref((int)use.size(), 1, 3));
      m.RowsSum(S.m, idx);
      Ref w((int)use.size(), 1);
      for (size_t q = 0; q < use.size(); q++)
        for (int k = 0; k < c; k++)
          w.at((int)q, 0) += a.at(use[q], k);
      S.is(w, "sum", "RowsSum");
    }
    for (int bits = 0; bits < (1 << c); bits++) {
      vector<Ti> idx;
      for (int q = c - 1; q >= 0; q--)
        if (bits >> q & 1)
          idx.push_back(q);
      vector<Ti> use = idx;
      if (!bits)
        for (int q = 0; q < c; q++)
          use.push_back(q);
      int n = (int)use.size();
      Ref ws(n, 1), wm(n, 1), wv(n, 1), wp(n, 1);
      for (int q = 0; q < n; q++) {
        auto o = moments(cols[use[q]], false);
        ws.at(q, 0) = o.mean * r;
        wm.at(q, 0) = o.mean;
        wv.at(q, 0) = o.vars;
        wp.at(q, 0) = o.varp;
      }
      Mat<> S(Ref(n, 1, 3));
      auto fresh = [&] { return idx; };
      auto i1 = fresh();
      m.ColumnsSum(S.m, i1);
      S.is(ws, "sum", "ColumnsSum");
      i1 = fresh();
      m.ColumnsMean(S.m, i1);
      S.is(wm, "colmean", "ColumnsMean");
      if (r > 1) {
        Mat<> V(Ref(n, n, 3));
        Ref cv(n, n), cp(n, n);
        for (int x = 0; x < n; x++)
          for (int y = 0; y < n; y++) {
            double q = 0;
            for (int k = 0; k < r; k++)
              q += (cols[use[x]][k] - wm.at(x, 0)) * (cols[use[y]][k] - wm.at(y, 0));
            cv.at(x, y) = q / (r - 1);
            cp.at(x, y) = q / r;
          }
        i1 = fresh();
        m.ColumnsVariance(V.m, i1, true);
        V.is(cv, "colvar", "ColumnsVariance", 1e-10);
        i1 = fresh();
        m.ColumnsVariance(V.m, i1, false);
        V.is(cp, "colvar", "ColumnsVariance (population)", 1e-10);
      }
    }
  }
  for (int skip = 0; skip < 2; skip++) {
    auto o = moments(all, skip);
    if (all.size() > 1) {
      mc::eq(m.Mean(skip), o.mean, "mean", fmt("Mean skip=%d", skip));
      for (int smp = 0; smp < 2; smp++) {
        double me = 0, v = m.Variance(me, smp, skip);
        mc::eq(me, o.mean, "mean", fmt("mean of Variance skip=%d", skip));
        mc::eq(v, smp ? o.vars : o.varp, "variance", fmt("Variance sample=%d skip=%d", smp, skip), 1e-10);
      }
    }
    if (r > 1) {
      for (int smp = 0; smp < 2; smp++) {
        Ref wm(c, 1), wv(c, 1);
        for (int j = 0; j < c; j++) {
          auto q = moments(cols[j], skip);
          wm.at(j, 0) = q.mean;
          wv.at(j, 0) = smp ? q.vars : q.varp;
          double me = 0;
          Ti cnt = -1;
          double v = m.VarianceColumn(j, me, cnt, smp, skip);
          mc::eq(v, wv.at(j, 0), "variance", fmt("VarianceColumn sample=%d skip=%d", smp, skip), 1e-10);
          mc::eq(me, q.mean, "mean", "mean of VarianceColumn");
          if (skip)
            mc::eqi(cnt, q.n, "count", "count of VarianceColumn");
        }
        Mat<> M(Ref(c, 1, 3)), V(Ref(c, 1, 3));
        m.ColumnsMeans(M.m, skip);
        M.is(wm, "colmean", "ColumnsMeans");
        m.ColumnsVariances(V.m, smp, skip);
        V.is(wv, "colvar", "ColumnsVariances", 1e-10);
        Mat<> M2(Ref(c, 1, 3)), V2(Ref(c, 1, 3));
        m.ColumnsMeansVariances(M2.m, V2.m, smp, skip);
        M2.is(wm, "colmean", "ColumnsMeansVariances");
        V2.is(wv, "colvar", "ColumnsMeansVariances", 1e-10);
        // standardization: centre, scale, both; a column without variation has no scale
        for (int md = 1; md < 4; md++) {
          Mat<> Z(a);
          Z.m.ColumnsStandard(md & 1 ? &M.m : nullptr, md & 2 ? &V.m : nullptr, true);
          Ref w = a;
          for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) {
              double x = a.at(i, j) - (md & 1 ? wm.at(j, 0) : 0);
              if (md & 2)
                x = wv.at(j, 0) == 0 ? NAN : x / std::sqrt(wv.at(j, 0));
              w.at(i, j) = x;
            }
          Z.is(w, "standard", fmt("ColumnsStandard mode %d", md), 1e-10);
          bool rem = mc::thorough() || c == 2;
          for (int zr = 0; zr < (rem ? 2 : 1); zr++) {
            MatrixStandardized<double> st(r, c, zr, md & 1, md & 2);
            st.Sample = smp;
            st.CheckNan = skip;
            mc::Guard<double> g(st.StorageSize);
            st.Calculate(m, g.p);
            Ref x(r, 0);
            for (int j = 0; j < c; j++) {
              if (zr && (md & 2) && wv.at(j, 0) == 0)
                continue;
              x.c++;
              for (int i = 0; i < r; i++)
                x.v[i].push_back(w.at(i, j));
            }
            MC_CHECK(st.Result.RowsCount == r && st.Result.ColsCount == x.c, "standardized", "shape %dx%d, want %s",
                     st.Result.RowsCount, st.Result.ColsCount, x.str().c_str());
            for (int i = 0; i < r; i++)
              for (int j = 0; j < x.c; j++)
                mc::eq(st.Result.Get(i, j), x.at(i, j), "standardized", fmt("mode %d removeZero %d cell", md, zr), 1e-10);
            MC_CHECK(g.intact(), "memory", "memory before the storage");
          }
        }
      }
      for (int x = 0; x < c; x++)
        for (int y = 0; y < c; y++)
          for (int smp = 0; smp < 2; smp++) {
            vector<double> p, q;
            for (int i = 0; i < r; i++)
              if (!skip || !(std::isnan(a.at(i, x)) || std::isnan(a.at(i, y)))) {
                p.push_back(a.at(i, x));
                q.push_back(a.at(i, y));
              }
            int n = (int)p.size();
            if (n < 2)
              continue;
            auto P = moments(p, false), Q = moments(q, false);
            double cv = 0;
            for (int i = 0; i < n; i++)
              cv += (p[i] - P.mean) * (q[i] - Q.mean);
            cv /= smp ? n - 1 : n;
            double m1 = 0, m2 = 0, v1 = 0, v2 = 0;
            Ti cnt = -1;
            mc::eq(m.CovarianceColumn(x, y, m1, m2, cnt, smp, skip), cv, "covariance", fmt("CovarianceColumn(%d,%d) sample=%d skip=%d", x, y, smp, skip), 1e-10);
            mc::eq(m1, P.mean, "covariance", "first mean");
            mc::eq(m2, Q.mean, "covariance", "second mean");
            if (skip)
              mc::eqi(cnt, n, "covariance", "count");
            double w1 = smp ? P.vars : P.varp, w2 = smp ? Q.vars : Q.varp;
            double got = m.CorrelationColumn(x, y, m1, m2, v1, v2, cnt, smp, skip);
            if (w1 > 0 && w2 > 0 && !std::isnan(cv))
              mc::eq(got, cv / std::sqrt(w1 * w2), "correlation", fmt("CorrelationColumn(%d,%d) sample=%d skip=%d", x, y, smp, skip), 1e-10);
            else
              MC_CHECK(!std::isfinite(got) || got == 1, "correlation", "correlation without variation is %g", got); // two constants count as equal
            mc::eq(v1, w1, "correlation", "first variance", 1e-10);
            mc::eq(v2, w2, "correlation", "second variance", 1e-10);
          }
    }
  }
  A.unchanged("summaries");
}
// ---------------------------------------------------------------- symmetric --
template <bool diag> static void sym() {
  int n = mc::range(1, 4), len = diag ? n * (n + 1) / 2 : n * (n - 1) / 2;
  mc::Guard<double> g(len);
  MatrixSym<diag, double> s(g.p, n);
  mc::eqi(s.length_array(), len, "sym", "length");
  int i = mc::range(-1, n), j = mc::range(-1, n);
  int k = mc::choose(2);
  mc::describe(fmt("symmetric n=%d diag=%d (%d,%d)", n, (int)diag, i, j));
  mc::state(mc::hash_str(mc::G().desc));
  for (int p = 0; p < n; p++)
    for (int q = p + (diag ? 0 : 1); q < n; q++)
      k ? s.Set0(p, q, 10 * p + q + 1) : s.Set0(q, p, 10 * p + q + 1);
  auto val = [&](int p, int q) { return p == q && !diag ? 0.0 : 10.0 * std::min(p, q) + std::max(p, q) + 1; };
  bool in = i >= 0 && i < n && j >= 0 && j < n, ok = in && (diag || i != j);
  double v = 0;
  bool t = throws([&] { v = s.Get(i, j); });
  MC_CHECK(!(t && in && i != j), "sym", "Get(%d,%d) is rejected", i, j);
  MC_CHECK(in || t, "sym", "Get(%d,%d) is accepted", i, j);
  if (!t)
    mc::eq(v, val(i, j), "sym", "Get");
  t = throws([&] { s.Set(i, j, 99); });
  MC_CHECK(!(ok && t), "sym", "Set(%d,%d) is rejected", i, j);
  MC_CHECK(ok || t, "sym", "Set(%d,%d) is accepted", i, j);
  for (int p = 0; p < n; p++)
    for (int q = 0; q < n; q++)
      if (p != q || diag) {
        bool hit = ok && ((p == i && q == j) || (p == j && q == i));
        mc::eq(s.Get(p, q), hit ? 99 : val(p, q), "sym", fmt("cell (%d,%d) after Set(%d,%d)", p, q, i, j));
      }
  int hits = 0;
  for (int p = 0; p < len; p++)
    hits += g.p[p] == 99;
  MC_CHECK(s.Any(99) == (hits > 0) && (len == 0 || s.All(99) == (hits == len)), "sym", "Any/All");
  MC_CHECK(g.intact(), "memory", "memory before the storage");
}

int main(int argc, char **argv) {
  vector<mc::Scenario> s;
  auto both = [&](string name, std::function<void()> f, std::function<void()> g, string bound) {
    s.push_back({name, f, bound});
    s.push_back({name + "_int", g, bound});
  };
  both("c14_element", element<Tv>, element<Ti>, "shapes to 3x4, all indices from -1 to one past the end x all linear positions x 7 operations");
  both("c14_fill", fill<Tv>, fill<Ti>, "shapes to 3x4 x 20 operations and their options");
  both("c14_sub", sub<Tv>, sub<Ti>, "all block copies among shapes to 3x3, all offsets and sizes");
  both("c14_getsub", getsub<Tv>, getsub<Ti>, "all slices of shapes to 3x4: blocks, index lists, exclusions, storage offsets");
  both("c14_lines", lines<Tv>, lines<Ti>, "shapes to 3x4 x 18 row/column operations at all indices");
  both("c14_vectors", vectors<Tv>, vectors<Ti>, "all vector slices of lengths to 4");
  both("c14_order", order<Tv>, order<Ti>, "all matrices to 4x1 / 3x2 over 3 values");
  both("c14_orderby", orderby<Tv>, orderby<Ti>, "all index lists for shapes to 3x3 (4 positions)");
  s.push_back({"c14_missing", missing, "all matrices of 5 (6) shapes over {value, 2, missing, infinite}"});
  s.push_back({"c14_arith", arith, "shapes to 2x3 x 4 operations x 9 forms x scalars"});
  s.push_back({"c14_summary", [] { summary(false); }, "all matrices of 6 shapes over 3 values"});
  s.push_back({"c14_summary_nan", [] { summary(true); }, "all matrices of 6 shapes over 3 values and missing"});
  s.push_back({"c14_sym", sym<true>, "symmetric storage n to 4, all indices"});
  s.push_back({"c14_sym_nodiag", sym<false>, "symmetric storage without diagonal n to 4, all indices"});
  return mc::harness_main(argc, argv, s);
}
