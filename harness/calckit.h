// C08 and C09: every calculator class behind one interface. A kind knows its
// options, its dimensions, how to declare an object, and how to run it on an
// input, using only the announced amount of memory.
#pragma once
#include "matkit.h"
#include <functional>
#include <memory>
#include <set>
namespace ck {
using namespace ldt;
using mc::fmt;
using std::string;
using std::vector;

/// deterministic values in general position; the variant adds trouble
inline double gen(int i, int j, int seed) {
  unsigned h = 2166136261u;
  for (int v : {i, j, seed})
    h = (h ^ (unsigned)(v + 77)) * 16777619u, h ^= h >> 13, h *= 0x5bd1e995u, h ^= h >> 15;
  return ((int)(h % 81) - 40) / 8.0;
}
enum Variant { Plain = 0, Nan = 1, Constant = 2, Other = 3, Equal = 4, Scattered = 5 };
inline mk::Ref table(int r, int c, int variant, int seed = 0) {
  mk::Ref o(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) {
      double v = gen(i, j, seed + (variant == Other ? 100 : 0));
      if (variant == Nan && ((i == 1 % r && j == 0) || (i == 2 && j == c - 1)))
        v = NAN;
      if (variant == Scattered && (i + 2 * j) % 3 == 0)
        v = NAN;
      if (variant == Constant && j == c - 1)
        v = 2;
      if (variant == Equal)
        v = 3;
      o.at(i, j) = v;
    }
  return o;
}

struct In {
  vector<int> o, d; // options, dimensions
  int data = 0;
  string str() const {
    string s = "options";
    for (int x : o)
      s += fmt(" %d", x);
    s += " dims";
    for (int x : d)
      s += fmt(" %d", x);
    return s + fmt(" data %d", data);
  }
};
/// inputs of one run on exactly sized memory, and what came out
struct Run {
  vector<std::unique_ptr<mk::Mat<double>>> ins;
  vector<std::unique_ptr<mk::Mat<int>>> insI;
  vector<double> out;
  vector<string> tags;
  bool threw = false;
  string what;
  Matrix<double> &in(const mk::Ref &r) {
    ins.push_back(std::make_unique<mk::Mat<double>>(r));
    return ins.back()->m;
  }
  Matrix<int> &inI(const mk::Ref &r) {
    insI.push_back(std::make_unique<mk::Mat<int>>(r));
    return insI.back()->m;
  }
  void s(double v, const string &tag) { out.push_back(v), tags.push_back(tag); }
  template <class T> void m(const Matrix<T> &x, const string &tag, int part = 0) { // part 1: upper triangle
    s(x.RowsCount, tag + " rows"), s(x.ColsCount, tag + " columns");
    if (!x.Data)
      return;
    for (int j = 0; j < x.ColsCount; j++)
      for (int i = 0; i < x.RowsCount; i++)
        if (part == 0 || i <= j)
          s((double)x.Data[i + x.RowsCount * j], tag + fmt("(%d,%d)", i, j));
  }
  template <class V> void list(const V &x, const string &tag) {
    s((double)x.size(), tag + " length");
    for (auto v : x)
      s((double)v, tag);
  }
  void unchanged(const string &t) {
    for (auto &i : ins)
      i->unchanged(t);
    for (auto &i : insI)
      i->unchanged(t);
  }
};
struct Obj {
  long st = 0, wk = 0, wi = 0;
  std::function<void(const In &, double *, double *, int *, Run &)> run;
};
struct Kind {
  string name;
  vector<vector<int>> opts;         // values of each option
  vector<std::pair<int, int>> dims; // range of each dimension
  vector<int> data;                 // variants
  std::function<bool(const In &)> admissible; // combinations that make sense
  std::function<Obj(const In &)> make;
  bool mustRun = true;       // a plain admissible input is not rejected
  bool fixed = false;       // no input can disagree with the declaration
  bool exact = false;       // only takes what it was declared for
  bool keepsInputs = true;   // inputs are left as they are
  double tol = 1e-9;         // between differently declared objects
  std::function<bool(const In &, const In &)> related; // may share an object (beyond equal options)
  vector<vector<int>> few;  // values of each dimension when inputs are paired (quick)
  vector<vector<int>> fewOpts; // options when inputs are paired (quick); empty: all
  vector<int> fewData;
};

struct Mem {
  mc::Guard<double> st, wk;
  mc::Guard<int> wi;
  explicit Mem(const Obj &o, unsigned char fill)
      : st((size_t)std::max(0L, o.st), fill), wk((size_t)std::max(0L, o.wk), fill), wi((size_t)std::max(0L, o.wi), fill) {}
  bool intact() const { return st.intact() && wk.intact() && wi.intact(); }
};
inline Run run(const Kind &k, const Obj &o, const In &c, Mem &mem) {
  Run r;
  mc::step();
  try {
    o.run(c, mem.st.p, mem.wk.p, mem.wi.p, r);
  } catch (mc::Violation &) {
    throw;
  } catch (mc::Skip &) {
    throw;
  } catch (std::exception &e) {
    r.threw = true, r.what = e.what();
  }
  mc::check(mem.intact(), "memory", k.name + ": writes before its memory, " + c.str());
  if (k.keepsInputs)
    r.unchanged(k.name);
  return r;
}
inline void same(const Run &a, const Run &b, const char *key, const string &t, double tol) {
  mc::check(a.threw == b.threw, key, t + ": " + (a.threw ? "throws (" + a.what + ")" : "works") + " instead of " + (b.threw ? "throwing (" + b.what + ")" : "working"));
  if (a.threw)
    return;
  mc::check(a.tags == b.tags, key, t + ": results of another shape");
  for (size_t i = 0; i < a.out.size(); i++)
    MC_CHECK(mc::close(a.out[i], b.out[i], tol), key, "%s: %s is %.12g instead of %.12g", t.c_str(), a.tags[i].c_str(), a.out[i], b.out[i]);
}
inline In drawOpts(const Kind &k) {
  In c;
  for (auto &o : k.opts)
    c.o.push_back(o[mc::choose((int)o.size())]);
  return c;
}
inline In drawFewOpts(const Kind &k) {
  if (mc::thorough() || k.fewOpts.empty())
    return drawOpts(k);
  In c;
  for (auto &o : k.fewOpts)
    c.o.push_back(o[mc::choose((int)o.size())]);
  return c;
}
inline In drawFew(const Kind &k, In c) {
  c.d.clear();
  if (mc::thorough() || k.few.empty())
    for (auto &d : k.dims)
      c.d.push_back(mc::range(d.first, d.second));
  else
    for (auto &d : k.few)
      c.d.push_back(d[mc::choose((int)d.size())]);
  return c;
}
inline In drawDims(const Kind &k, In c) {
  c.d.clear();
  for (auto &d : k.dims)
    c.d.push_back(mc::range(d.first, d.second));
  return c;
}
inline bool within(const In &big, const In &c) {
  for (size_t i = 0; i < c.d.size(); i++)
    if (c.d[i] > big.d[i])
      return false;
  return true;
}
/// C09: exactly the announced memory is enough, whatever the dimensions
inline void fit(const Kind &k) {
  In c = drawDims(k, drawOpts(k));
  c.data = k.data[mc::choose((int)k.data.size())];
  if (k.admissible && !k.admissible(c))
    throw mc::Skip();
  unsigned char fill = mc::pick({0x00, 0xff});
  mc::describe(k.name + " " + c.str() + fmt(" memory 0x%02x", fill));
  Obj o = k.make(c);
  mc::check(o.st >= 0 && o.wk >= 0 && o.wi >= 0, "sizes", k.name + ": negative sizes");
  Mem mem(o, fill);
  Run r = run(k, o, c, mem);
  mc::check(!(k.mustRun && c.data == Plain && r.threw), "rejected", k.name + ": rejects what it was declared for: " + r.what);
}
/// C09: what does not fit is rejected; what fits gives what an exact object gives
inline void reject(const Kind &k) {
  In c = drawOpts(k), d = c;
  d = drawFew(k, d), c = drawFew(k, c);
  if (d.d == c.d)
    throw mc::Skip();
  if (k.admissible && (!k.admissible(c) || !k.admissible(d)))
    throw mc::Skip();
  if (k.related && !k.related(d, c))
    throw mc::Skip();
  mc::describe(k.name + " " + c.str() + " given to an object declared with " + d.str());
  Obj o = k.make(d), need = k.make(c);
  Mem mem(o, 0xff);
  Run r = run(k, o, c, mem);
  bool tooBig = need.st > o.st || need.wk > o.wk || need.wi > o.wi;
  if (tooBig)
    mc::check(r.threw, "accepted", k.name + ": computes an input that needs more memory than declared");
  if (k.exact)
    mc::check(r.threw, "accepted", k.name + ": computes an input of other dimensions than declared");
  else if (within(d, c)) {
    Mem m2(need, 0xff);
    Run e = run(k, need, c, m2);
    if (!tooBig)
      same(r, e, "declared", k.name + ": an object declared larger", k.tol);
  }
}
/// C08: earlier inputs and the content of the memory do not matter
inline void reuse(const Kind &k, int length) {
  In base = length == 1 ? drawOpts(k) : drawFewOpts(k);
  vector<In> seq;
  auto &data = mc::thorough() || length == 1 || k.fewData.empty() ? k.data : k.fewData;
  In big = base;
  big.d.assign(k.dims.size(), 0);
  for (int i = 0; i < length; i++) {
    In c = length == 1 ? drawDims(k, base) : drawFew(k, base);
    if (k.exact && !seq.empty() && c.d != seq.back().d)
      throw mc::Skip();
    c.data = data[mc::choose((int)data.size())];
    if (k.admissible && !k.admissible(c))
      throw mc::Skip();
    if (k.related && !seq.empty() && (!k.related(seq.back(), c) || !k.related(c, seq.back())))
      throw mc::Skip();
    for (size_t j = 0; j < c.d.size(); j++)
      big.d[j] = std::max(big.d[j], c.d[j]);
    seq.push_back(c);
  }
  unsigned char fill = mc::pick({0x00, 0xff, 0x5a});
  string t = k.name + fmt(" memory 0x%02x:", fill);
  for (auto &c : seq)
    t += " [" + c.str() + "]";
  mc::describe(t);
  Obj o = k.make(big);
  Mem mem(o, fill);
  for (size_t i = 0; i < seq.size(); i++) {
    Run a = run(k, o, seq[i], mem);
    if (i + 1 < seq.size() && length > 1)
      continue; // shorter sequences check it
    Obj f = k.make(big);
    Mem clean(f, 0);
    Run b = run(k, f, seq[i], clean);
    same(a, b, "remembers", k.name + fmt(": calculation %zu", i + 1), 1e-12);
  }
}
} // namespace ck
