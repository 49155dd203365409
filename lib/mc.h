// Bounded exhaustive explorer used by every harness of this framework.
//
// A harness is a set of scenarios.  A scenario body is a deterministic function
// that draws every decision (configuration, input, operation, schedule, fault
// point) from mc::choose(n).  The explorer enumerates *all* choice sequences
// depth first (replaying the prefix, taking 0 at every later point), in worker
// processes that own disjoint sub-trees, so a run without a cap is exhaustive
// within the bounds written in the harness.  Nothing is sampled.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cfloat>
#include <chrono>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fnmatch.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

using std::string;
using std::vector;

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hash_str(const string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return h;
}

struct Skip {};
struct Violation {
  string key, msg;
};

struct Slot { // shared with the parent, one per worker
  std::atomic<uint64_t> progress;
  int scenario;
  int len;
  short choices[400];
  char desc[400];
};

struct Globals {
  bool thorough = false;
  bool verbose = false;
  int worker = 0, workers = 1;
  vector<int> prefix;   // choices to replay
  vector<int> choices;  // made so far
  vector<int> arity;    // arities so far
  bool crossed = false; // the sub-tree owner was decided
  bool replaying = false;
  double prod = 1;
  uint64_t h = 7;
  uint64_t steps = 0, traces = 0, checks = 0, execs = 0;
  std::unordered_set<uint64_t> states;
  std::unordered_set<uint64_t> outcomes;
  vector<string> samples;
  string desc;
  Slot *slot = nullptr;
  double split = 512;
};
inline Globals &G() {
  static Globals g;
  return g;
}

inline bool thorough() { return G().thorough; }
/// quick-or-thorough bound
template <class T> inline T qt(T q, T t) { return G().thorough ? t : q; }

inline int choose(int n) {
  auto &g = G();
  if (n <= 0) {
    fprintf(stderr, "mc: empty choice\n");
    _exit(77);
  }
  int v = 0;
  size_t i = g.choices.size();
  if (i < g.prefix.size()) {
    v = g.prefix[i];
    if (v >= n || v < 0) {
      fprintf(stderr, "mc: divergence while replaying (%d of %d at %zu)\n", v,
              n, i);
      _exit(77);
    }
  }
  g.choices.push_back(v);
  g.arity.push_back(n);
  g.h = mix(g.h, (uint64_t)v + 1000003ULL * n);
  if (g.slot && i < 400) {
    g.slot->choices[i] = (short)v;
    g.slot->len = (int)i + 1;
  }
  if (!g.crossed) {
    g.prod *= n;
    if (g.prod >= g.split) {
      g.crossed = true;
      if (!g.replaying && (int)(g.h % (uint64_t)g.workers) != g.worker)
        throw Skip();
    }
  }
  return v;
}
template <class T> inline const T &pick(const vector<T> &v) {
  return v[choose((int)v.size())];
}
template <class T> inline T pick(std::initializer_list<T> v) {
  return *(v.begin() + choose((int)v.size()));
}
inline bool flip() { return choose(2) == 1; }
/// integer in [a,b]
inline int range(int a, int b) { return a + choose(b - a + 1); }

inline string fmt(const char *f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

/// one transition: one operation performed on the real code
inline void step(uint64_t n = 1) { G().steps += n; }
/// a distinct state reached (canonical hash)
inline void state(uint64_t h) { G().states.insert(h); }
inline void state(const string &s) { state(hash_str(s)); }
/// an observed outcome, to show the exploration is not vacuous
inline void outcome(uint64_t h) { G().outcomes.insert(h); }
/// describe the current case (used for crashes and samples)
inline void describe(const string &s) {
  auto &g = G();
  g.desc = s;
  g.states.insert(hash_str(s));
  if (g.slot) {
    strncpy(g.slot->desc, s.c_str(), sizeof g.slot->desc - 1);
  }
  if (g.verbose)
    fprintf(stderr, "case: %s\n", s.c_str());
}

[[noreturn]] inline void fail(const string &key, const string &msg) {
  throw Violation{key, msg};
}
inline void check(bool ok, const char *key, const string &msg) {
  G().checks++;
  if (!ok)
    fail(key, msg);
}
inline bool close(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (a == b)
    return true;
  if (std::isinf(a) || std::isinf(b))
    return false;
  return std::fabs(a - b) <=
         tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
inline void eq(double a, double b, const char *key, const string &msg,
               double tol = 1e-9) {
  G().checks++;
  if (!close(a, b, tol))
    fail(key, msg + fmt(": got %.15g, want %.15g", a, b));
}
inline void eqi(long long a, long long b, const char *key, const string &msg) {
  G().checks++;
  if (a != b)
    fail(key, msg + fmt(": got %lld, want %lld", a, b));
}
inline void eqs(const string &a, const string &b, const char *key,
                const string &msg) {
  G().checks++;
  if (a != b)
    fail(key, msg + ": got '" + a + "', want '" + b + "'");
}
template <class T> string join(const vector<T> &v, const char *sep = ",") {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? sep : "") << v[i];
  return o.str();
}

/// Buffer of exactly n elements: an unmapped page follows the last byte, a
/// canary precedes the first, so any access outside is caught, also from code
/// that is not instrumented (BLAS, LAPACK).
template <class T> class Guard {
  char *base = nullptr;
  size_t total = 0, lead = 0;
  size_t n;

public:
  T *p = nullptr;
  Guard(const Guard &) = delete;
  Guard(Guard &&o) : base(o.base), total(o.total), lead(o.lead), n(o.n), p(o.p) {
    o.base = nullptr;
  }
  explicit Guard(size_t count, unsigned char fill = 0x5a) : n(count) {
    const size_t pg = 4096;
    size_t bytes = n * sizeof(T);
    size_t body = (bytes + 64 + pg - 1) / pg * pg;
    total = body + pg;
    base = (char *)mmap(nullptr, total, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) {
      perror("mmap");
      _exit(77);
    }
    mprotect(base + body, pg, PROT_NONE);
    lead = body - bytes;
    memset(base, 0xC3, lead);
    p = (T *)(base + lead);
    memset((void *)p, fill, bytes);
  }
  ~Guard() {
    if (base)
      munmap(base, total);
  }
  bool intact() const {
    for (size_t i = 0; i < lead; i++)
      if ((unsigned char)base[i] != 0xC3)
        return false;
    return true;
  }
  void fill_value(T v) {
    for (size_t i = 0; i < n; i++)
      p[i] = v;
  }
  size_t size() const { return n; }
  T &operator[](size_t i) { return p[i]; }
};

struct Scenario {
  string name;
  std::function<void()> body;
  string bound;            // the stated bound, in words
  bool thoroughOnly = false;
};

// ---------------------------------------------------------------- runner ---
inline string jesc(const string &s) {
  string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o;
}

struct Found {
  string scenario, key, msg, desc;
  vector<int> choices;
};

inline void run_one(const Scenario &sc, const vector<int> &prefix) {
  auto &g = G();
  g.prefix = prefix;
  g.choices.clear();
  g.arity.clear();
  g.crossed = false;
  g.prod = 1;
  g.h = 7;
  g.desc.clear();
  if (g.slot)
    g.slot->len = 0;
  sc.body();
}

// Returns false when the whole tree is done.
inline bool advance(vector<int> &prefix) {
  auto &g = G();
  prefix = g.choices;
  while (!prefix.empty()) {
    int i = (int)prefix.size() - 1;
    if (prefix[i] + 1 < g.arity[i]) {
      prefix[i]++;
      return true;
    }
    prefix.pop_back();
  }
  return false;
}

inline int harness_main(int argc, char **argv, vector<Scenario> scs) {
  string tier = "quick", out, replay, only, knownfile, prop;
  int workers = 8, maxviol = 25;
  double hang = 120, deadline = 1e9;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto val = [&]() { return string(argv[++i]); };
    if (a == "--tier")
      tier = val();
    else if (a == "--out")
      out = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--only")
      only = val();
    else if (a == "--workers")
      workers = atoi(val().c_str());
    else if (a == "--known")
      knownfile = val();
    else if (a == "--property")
      prop = val();
    else if (a == "--hang")
      hang = atof(val().c_str());
    else if (a == "--deadline")
      deadline = atof(val().c_str());
    else if (a == "--verbose")
      G().verbose = true;
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  auto &g = G();
  g.thorough = tier == "thorough";
  vector<string> known; // key globs of this property
  if (!knownfile.empty()) {
    std::ifstream f(knownfile);
    string line;
    while (std::getline(f, line))
      known.push_back(line);
  }

  if (!replay.empty()) { // scenario then choices
    std::ifstream f(replay);
    string word, scn;
    vector<int> ch;
    while (f >> word) {
      if (word == "scenario")
        f >> scn;
      else if (word == "choices") {
        int n;
        f >> n;
        for (int i = 0; i < n; i++) {
          int v;
          f >> v;
          ch.push_back(v);
        }
      }
    }
    g.replaying = true;
    g.verbose = true;
    for (auto &s : scs)
      if (s.name == scn) {
        try {
          run_one(s, ch);
        } catch (Violation &v) {
          printf("REPRODUCED key=%s %s\n  case: %s\n", v.key.c_str(),
                 v.msg.c_str(), g.desc.c_str());
          return 1;
        } catch (std::exception &e) {
          printf("REPRODUCED key=exception %s\n  case: %s\n", e.what(),
                 g.desc.c_str());
          return 1;
        }
        printf("NOT-REPRODUCED %s\n", g.desc.c_str());
        return 0;
      }
    fprintf(stderr, "unknown scenario %s\n", scn.c_str());
    return 77;
  }

  vector<Scenario> todo;
  for (auto &s : scs)
    if ((only.empty() || fnmatch(only.c_str(), s.name.c_str(), 0) == 0) &&
        (!s.thoroughOnly || g.thorough))
      todo.push_back(s);

  auto *slots = (Slot *)mmap(nullptr, sizeof(Slot) * workers,
                             PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS,
                             -1, 0);
  string tmp = out.empty() ? "/tmp/mc." + std::to_string(getpid()) : out;
  struct W {
    pid_t pid = -1;
    int startScenario = 0;
    vector<int> startPrefix;
    bool resume = false;
    int part = 0;
    uint64_t lastp = 0;
    std::chrono::steady_clock::time_point lastt;
    int crashes = 0;
    bool done = false;
  };
  vector<W> ws(workers);
  vector<Found> found;

  const auto begin = std::chrono::steady_clock::now();
  auto body = [&](int w) { // in the child
    auto &W0 = ws[w];
    g.worker = w;
    g.workers = workers;
    g.slot = &slots[w];
    FILE *o = fopen((tmp + ".w" + std::to_string(w) + "." +
                     std::to_string(W0.part))
                        .c_str(),
                    "w");
    int nviol = 0;
    std::map<string, int> perkey;
    for (int si = W0.startScenario; si < (int)todo.size(); si++) {
      auto &sc = todo[si];
      g.slot->scenario = si;
      vector<int> prefix;
      uint64_t t0 = g.traces, e0 = g.execs;
      if (W0.resume && si == W0.startScenario) {
        // continue after the execution that killed the previous worker: replay
        // only its choices, with arities learnt from a dry walk
        prefix = W0.startPrefix;
      }
      bool more = true;
      int distinctk = 0;
      while (more) {
        bool viol = false;
        g.slot->progress++;
        try {
          run_one(sc, prefix);
          bool owner =
              g.crossed || (int)(g.h % (uint64_t)workers) == w;
          if (owner) {
            g.traces++;
            g.execs++;
            if (g.samples.size() < 3 ||
                (g.samples.size() < 8 && (g.traces & (g.traces - 1)) == 0))
              if (!g.desc.empty())
                g.samples.push_back(sc.name + ": " + g.desc);
          }
        } catch (Skip &) {
        } catch (Violation &v) {
          viol = true;
          g.execs++;
          bool owner = g.crossed || (int)(g.h % (uint64_t)workers) == w;
          if (owner) {
            string k = v.key;
            if (perkey[k]++ < 3) {
              fprintf(o, "V\t%s\t%s\t%s\t%s\t", sc.name.c_str(), k.c_str(),
                      jesc(v.msg).c_str(), jesc(g.desc).c_str());
              for (auto c : g.choices)
                fprintf(o, "%d ", c);
              fprintf(o, "\n");
              fflush(o);
              bool isknown = false;
              for (auto &kn : known)
                if (fnmatch(kn.c_str(), k.c_str(), 0) == 0)
                  isknown = true;
              if (!isknown && perkey[k] == 1)
                distinctk++;
            }
          }
        } catch (std::exception &e) {
          viol = true;
          string k = "exception";
          bool owner = g.crossed || (int)(g.h % (uint64_t)workers) == w;
          if (owner && perkey[sc.name + k]++ < 3) {
            fprintf(o, "V\t%s\t%s\t%s\t%s\t", sc.name.c_str(), k.c_str(),
                    jesc(string("unexpected exception: ") + e.what()).c_str(),
                    jesc(g.desc).c_str());
            for (auto c : g.choices)
              fprintf(o, "%d ", c);
            fprintf(o, "\n");
            fflush(o);
            distinctk++;
          }
        }
        (void)viol;
        if (distinctk >= 6) // enough evidence in this scenario
          break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() -
                                          begin)
                .count() > deadline)
          break; // reported as capped
        more = advance(prefix);
      }
      nviol += distinctk;
      fprintf(o, "S\t%s\t%llu\t%llu\t%d\n", sc.name.c_str(),
              (unsigned long long)(g.traces - t0),
              (unsigned long long)(g.execs - e0), more ? 1 : 0);
      fflush(o);
      if (nviol >= maxviol)
        break;
    }
    fprintf(o, "T\t%llu\t%llu\t%llu\n", (unsigned long long)g.steps,
            (unsigned long long)g.checks, (unsigned long long)g.traces);
    for (auto s : g.states)
      fprintf(o, "H\t%llx\n", (unsigned long long)s);
    for (auto s : g.outcomes)
      fprintf(o, "O\t%llx\n", (unsigned long long)s);
    for (auto &s : g.samples)
      fprintf(o, "X\t%s\n", jesc(s).c_str());
    fprintf(o, "E\n");
    fclose(o);
  };
  auto spawn = [&](int w) {
    slots[w].progress = 0;
    ws[w].lastp = 0;
    ws[w].lastt = std::chrono::steady_clock::now();
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      // keep the sanitizer report of this worker
      string lf = tmp + ".log" + std::to_string(w);
      int fd = open(lf.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
      if (!g.verbose)
        dup2(fd, 2);
      body(w);
      _exit(0);
    }
    ws[w].pid = p;
  };
  auto t0 = std::chrono::steady_clock::now();
  for (int w = 0; w < workers; w++)
    spawn(w);
  int live = workers;
  bool internal = false, crashed = false;
  while (live > 0) {
    usleep(5000);
    for (int w = 0; w < workers; w++) {
      auto &W0 = ws[w];
      if (W0.done)
        continue;
      int st;
      pid_t r = waitpid(W0.pid, &st, WNOHANG);
      bool hung = false;
      auto now = std::chrono::steady_clock::now();
      if (r == 0) {
        uint64_t p = slots[w].progress;
        if (p != W0.lastp) {
          W0.lastp = p;
          W0.lastt = now;
          continue;
        } else if (std::chrono::duration<double>(now - W0.lastt).count() >
                   hang) {
          kill(W0.pid, SIGKILL);
          waitpid(W0.pid, &st, 0);
          hung = true;
        } else
          continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        W0.done = true;
        live--;
        continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        internal = true;
        W0.done = true;
        live--;
        continue;
      }
      // crash or hang: the case in the slot is the counterexample
      Found f;
      auto &sl = slots[w];
      f.scenario = todo[sl.scenario].name;
      f.key = (hung ? "hang:" : "crash:") + f.scenario;
      f.msg = hung ? fmt("no progress for %.0f s", hang)
                   : (WIFSIGNALED(st)
                          ? fmt("killed by signal %d", WTERMSIG(st))
                          : fmt("process ended with status %d (sanitizer or abort)",
                                WEXITSTATUS(st)));
      f.desc = jesc(sl.desc);
      f.msg = jesc(f.msg);
      f.choices.assign(sl.choices, sl.choices + sl.len);
      found.push_back(f);
      crashed = true;
      W0.crashes++;
      // move on to the next scenario after a crash
      W0.startScenario = sl.scenario + 1;
      W0.resume = false;
      W0.part++;
      if (W0.startScenario >= (int)todo.size() || W0.crashes > 6) {
        W0.done = true;
        live--;
      } else
        spawn(w);
    }
  }
  double wall = std::chrono::duration<double>(
                    std::chrono::steady_clock::now() - t0)
                    .count();
  // gather
  std::unordered_set<uint64_t> states, outcomes;
  uint64_t steps = 0, checks = 0, traces = 0;
  vector<string> samples;
  std::map<string, std::array<uint64_t, 3>> per;
  bool capped = false;
  for (int w = 0; w < workers; w++)
    for (int p = 0; p <= ws[w].part; p++) {
      string fn = tmp + ".w" + std::to_string(w) + "." + std::to_string(p);
      std::ifstream f(fn);
      string line;
      while (std::getline(f, line)) {
        vector<string> c;
        std::istringstream ss(line);
        string t;
        while (std::getline(ss, t, '\t'))
          c.push_back(t);
        if (c[0] == "V") {
          Found v;
          v.scenario = c[1];
          v.key = c[2];
          v.msg = c[3];
          v.desc = c.size() > 4 ? c[4] : "";
          std::istringstream cs(c.size() > 5 ? c[5] : "");
          int x;
          while (cs >> x)
            v.choices.push_back(x);
          found.push_back(v);
        } else if (c[0] == "S") {
          auto &a = per[c[1]];
          a[0] += std::stoull(c[2]);
          a[1] += std::stoull(c[3]);
          if (c[4] == "1") {
            a[2] = 1;
            capped = true;
          }
        } else if (c[0] == "T") {
          steps += std::stoull(c[1]);
          checks += std::stoull(c[2]);
          traces += std::stoull(c[3]);
        } else if (c[0] == "H")
          states.insert(std::stoull(c[1], nullptr, 16));
        else if (c[0] == "O")
          outcomes.insert(std::stoull(c[1], nullptr, 16));
        else if (c[0] == "X" && samples.size() < 24)
          samples.push_back(c[1]);
      }
      unlink(fn.c_str());
    }
  std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) {
    if (a.scenario != b.scenario)
      return a.scenario < b.scenario;
    if (a.choices.size() != b.choices.size())
      return a.choices.size() < b.choices.size();
    return a.choices < b.choices;
  });
  string js = "{\n";
  js += fmt("\"tier\":\"%s\",\"wall_s\":%.3f,\"states\":%zu,\"transitions\":%llu,"
            "\"traces\":%llu,\"checks\":%llu,\"outcomes\":%zu,\"exhaustive\":%s,"
            "\"internal_error\":%s,\n\"scenarios\":[",
            tier.c_str(), wall, states.size(), (unsigned long long)steps,
            (unsigned long long)traces, (unsigned long long)checks,
            outcomes.size(), (capped || crashed) ? "false" : "true",
            internal ? "true" : "false");
  bool first = true, vacuous = false;
  for (auto &s : todo) {
    auto &a = per[s.name];
    if (a[1] == 0 && found.empty()) { // a vacuous scenario proves nothing
      fprintf(stderr, "mc: scenario %s has no execution\n", s.name.c_str());
      vacuous = true;
    }
    js += fmt("%s{\"name\":\"%s\",\"executions\":%llu,", first ? "" : ",\n",
              s.name.c_str(), (unsigned long long)a[0]);
    js += "\"bound\":\"" + jesc(s.bound) + "\"}";
    first = false;
  }
  js += "],\n\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++)
    js += (i ? ",\n" : "") + string("\"") + samples[i] + "\"";
  js += "],\n\"violations\":[";
  for (size_t i = 0; i < found.size(); i++) {
    auto &v = found[i];
    js += (i ? ",\n" : "") + string("{\"scenario\":\"") + v.scenario +
          "\",\"key\":\"" + jesc(v.key) + "\",\"msg\":\"" + v.msg +
          "\",\"case\":\"" + v.desc + "\",\"choices\":[" + join(v.choices) +
          "]}";
  }
  js += "]}\n";
  if (!out.empty()) {
    std::ofstream f(out);
    f << js;
  }
  if (out.empty())
    printf("%s", js.c_str());
  return internal || vacuous ? 77 : 0;
}
} // namespace mc

#define MC_CHECK(cond, key, ...)                                               \
  do {                                                                         \
    const bool mc_ok_ = static_cast<bool>(cond);                               \
    mc::check(mc_ok_, key, mc_ok_ ? std::string() : mc::fmt(__VA_ARGS__));     \
  } while (0)
