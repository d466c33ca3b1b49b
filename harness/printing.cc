// C16: every problem x guess x option set is solved at every verbosity with a recording stream and with
// the default stream; process output (descriptors 1 and 2) is captured around every solve.
#include <limits>

#include "tap.h"

using namespace qp;
using namespace fbstab;
using mc::S;
static mc::Run R;

// --- process output -----------------------------------------------------------------------
struct Capture {
  int fd[3], saved[3];
  Capture() {
    fflush(nullptr);
    std::cout.flush(), std::cerr.flush(), std::clog.flush();
    for (int k = 1; k <= 2; k++) {
      fd[k] = memfd();
      saved[k] = dup(k);
      dup2(fd[k], k);
    }
  }
  static int memfd() {
    static int cached[2] = {-1, -1};
    static int turn = 0;
    int& f = cached[turn ^= 1];
    if (f < 0) {
      char name[64];
      snprintf(name, sizeof name, "/dev/shm/mc-%d-%d", (int)getpid(), turn);
      f = open(name, O_RDWR | O_CREAT | O_TRUNC, 0600);
      if (f < 0) abort();
      unlink(name);
    }
    if (ftruncate(f, 0)) abort();
    lseek(f, 0, SEEK_SET);
    return f;
  }
  std::string finish(std::string* err) {
    fflush(nullptr);
    std::cout.flush(), std::cerr.flush(), std::clog.flush();
    std::string text[3];
    for (int k = 1; k <= 2; k++) {
      dup2(saved[k], k);
      close(saved[k]);
      char buf[65536];
      lseek(fd[k], 0, SEEK_SET);
      ssize_t n;
      while ((n = read(fd[k], buf, sizeof buf)) > 0) text[k].append(buf, n);
    }
    *err = text[2];
    return text[1];
  }
};
static std::string without_time(const std::string& s) {
  std::string o;
  std::istringstream in(s);
  std::string line;
  while (std::getline(in, line)) o += (line.compare(0, 12, "Time elapsed") ? line : std::string("Time elapsed")) + "\n";
  return o;
}
// Cannot be copied: the text has to arrive at this very object.
struct Own : public OutputStream<Own> {
  mutable std::vector<std::string> calls;
  Own() {}
  Own(const Own&) = delete;
  Own& operator=(const Own&) = delete;
  void PrintImplementation(const char* m) const { calls.push_back(m ? m : "(null)"); }
  std::string text() const {
    std::string t;
    for (auto& c : calls) t += c;
    return t;
  }
};

static const char* kPath[] = {"default", "reliable", "newton-limit", "prox-limit", "no-feasibility-check", "nan-guess", "long-subproblems", "many-subproblems", "large-limits"};
static const int kPaths = 6;
static AlgorithmParameters path_options(int path) {
  AlgorithmParameters o = preset(path == 1 ? 1 : 0);
  if (path == 2) o.max_newton_iters = 3;
  if (path == 3) o.max_prox_iters = 2, o.max_inner_iters = 2;
  if (path == 4) o.check_feasibility = false, o.max_newton_iters = 15, o.max_prox_iters = 5;
  if (path == 5) o.max_newton_iters = 10, o.max_prox_iters = 3;
  // (tolerances that cannot be met: only the limits end the run, the numbers printed get long)
  if (path == 6 || path == 7) o.abs_tol = 1e-14, o.rel_tol = 0, o.stall_tol = 1e-14, o.inner_tol_min = 1e-14, o.check_feasibility = false;
  if (path == 6) o.max_newton_iters = 420, o.max_inner_iters = 130, o.max_prox_iters = 1000;
  if (path == 7) o.max_newton_iters = 2500, o.max_inner_iters = 1, o.max_prox_iters = 1100;
  if (path == 8) o.max_newton_iters = 123456, o.max_prox_iters = 2000000000;
  return o;
}

static bool near(double printed, long double value, double slack) { return std::fabs((long double)printed - value) <= 1e-3L * std::fabs(value) + slack; }
static bool penalised(const QP& p, const Point& x, double alpha, long double* out) {
  Kkt k = kkt(p, x.z, x.l, x.v, alpha);
  out[0] = k.rz, out[1] = k.rl, out[2] = std::sqrt(std::max(0.0L, k.pen * k.pen - k.rz * k.rz - k.rl * k.rl));
  return std::isfinite((double)k.pen);
}
static std::vector<std::string> lines(const std::string& t) {
  std::vector<std::string> v;
  std::istringstream in(t);
  std::string s;
  while (std::getline(in, s)) v.push_back(s);
  return v;
}
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

// Does the final summary say what was returned?
static bool summary(const Prob& q, const Result& r, const AlgorithmParameters& o, const std::string& text, std::string* why) {
  static const char* say[] = {"Success", "Divergence", "Iteration limit exceeded", "Primal Infeasibility", "Dual Infeasibility", "Primal-Dual Infeasibility"};
  auto ls = lines(text);
  int code = -1, prox = -1, newton = -1;
  for (size_t i = 0; i < ls.size(); i++) {
    size_t at = ls[i].find("Exit code:");
    if (at != std::string::npos) {
      std::string rest = ls[i].substr(at + 10);
      while (!rest.empty() && rest[0] == ' ') rest.erase(0, 1);
      for (int k = 0; k < 6; k++)
        if (rest == say[k]) {
          if (code >= 0) return *why = "two verdicts are printed", false;
          code = k;
        }
    }
    int a, b;
    if (sscanf(ls[i].c_str(), "Proximal iterations: %d out of %d", &a, &b) == 2) {
      prox = a;
      if (b != o.max_prox_iters) return *why = S() << "the printed proximal limit is " << b, false;
    }
    if (sscanf(ls[i].c_str(), "Newton iterations: %d out of %d", &a, &b) == 2) {
      newton = a;
      if (b != o.max_newton_iters) return *why = S() << "the printed newton limit is " << b, false;
    }
  }
  if (code != (int)r.out.eflag) return *why = S() << "the printed verdict is " << (code < 0 ? "missing" : say[code]), false;
  if (prox != r.out.prox_iters || newton != r.out.newton_iters) return *why = S() << "the printed counters are prox " << prox << " newton " << newton, false;
  // the last line of numbers: residual norms and tolerance
  double v[4];
  bool found = false;
  for (auto& s : ls) {
    double w[4];
    char rest[8];
    if (sscanf(s.c_str(), "%lf %lf %lf %lf %7s", w, w + 1, w + 2, w + 3, rest) == 4) memcpy(v, w, sizeof v), found = true;
  }
  if (!found) return *why = "the residual line is missing", false;
  if (!near(v[3], combo_tol(o, q.p), 0)) return *why = S() << "the printed tolerance is " << v[3] << " instead of " << combo_tol(o, q.p), false;
  double total = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  if (std::isfinite(r.out.residual) && !near(total, r.out.residual, 0)) return *why = S() << "the printed residuals do not add up to the returned one " << r.out.residual, false;
  long double k[3];
  if ((r.out.eflag == ExitFlag::SUCCESS || r.out.eflag == ExitFlag::MAXITERATIONS) && penalised(q.p, r.x, o.alpha, k))
    for (int i = 0; i < 3; i++)
      if (!near(v[i], k[i], 1e-9 * magnitude(q.p, r.x))) return *why = S() << "printed residual " << v[i] << " instead of " << (double)k[i] << " (component " << i << ")", false;
  return true;
}

static bool progress_iter(const Prob& q, const Result& r, const Point& guess, const AlgorithmParameters& o, const std::string& text, std::string* why) {
  int rows = 0, last_newton = 0;
  for (auto& s : lines(text)) {
    int a, b;
    double v[5];
    char rest[8];
    if (sscanf(s.c_str(), "%d%*[ ]%d%*[ ]%lf %lf %lf %lf %lf %7s", &a, &b, v, v + 1, v + 2, v + 3, v + 4, rest) != 7) continue;
    if (a != rows) return *why = S() << "progress line " << rows << " says proximal iteration " << a, false;
    if (b < last_newton || b > r.out.newton_iters) return *why = S() << "progress line " << rows << " says " << b << " newton iterations", false;
    last_newton = b;
    if (rows == 0) {
      long double k[3];
      if (b != 0) return *why = "newton iterations are printed before the first one", false;
      if (penalised(q.p, guess, o.alpha, k))
        for (int i = 0; i < 3; i++)
          if (!near(v[i], k[i], 1e-9 * magnitude(q.p, guess))) return *why = S() << "first progress line shows " << v[i] << " instead of " << (double)k[i], false;
    }
    rows++;
  }
  int want = r.out.prox_iters + (r.out.eflag == ExitFlag::MAXITERATIONS && r.out.prox_iters >= o.max_prox_iters ? 0 : 1);
  if (rows != want) return *why = S() << rows << " progress lines for " << r.out.prox_iters << " proximal iterations", false;
  if (r.out.eflag == ExitFlag::SUCCESS && last_newton != r.out.newton_iters) return *why = "the last progress line misses iterations", false;
  return true;
}
static bool progress_detailed(const Result& r, const AlgorithmParameters& o, const std::string& text, std::string* why) {
  int begins = 0, done = 0, steps = -1, last = 0;
  for (auto& s : lines(text)) {
    int a, b, c;
    double v[4];
    char rest[8];
    if (sscanf(s.c_str(), "Begin Prox Iter: %d, Total Newton Iters: %d, Residual: %lf", &a, &b, v) == 3) {
      if (a != begins) return *why = S() << "subproblem " << begins << " is announced as number " << a, false;
      if (b < last || b > r.out.newton_iters) return *why = S() << "subproblem " << begins << " starts at newton iteration " << b, false;
      if (begins && b - last != steps && b - last != steps + 1) return *why = S() << "subproblem " << begins - 1 << " took " << b - last << " newton iterations but printed " << steps + 1 << " lines", false;
      begins++, last = b, steps = -1;
    } else if (sscanf(s.c_str(), "%d%*[ ]%lf %lf %lf %lf %7s", &c, v, v + 1, v + 2, v + 3, rest) == 5) {
      if (c != steps + 1) return *why = S() << "inner iteration " << c << " after " << steps, false;
      steps = c;
      if (!(v[0] > 0 && v[0] <= 1)) return *why = S() << "printed step length " << v[0], false;
    } else if (starts(s, "Exiting inner loop.")) {
      done++;
    }
  }
  int want = r.out.prox_iters + ((r.out.eflag == ExitFlag::MAXITERATIONS && r.out.prox_iters >= o.max_prox_iters) || r.out.eflag == ExitFlag::SUCCESS ? 0 : 1);
  if (begins != want) return *why = S() << begins << " subproblems printed, " << want << " solved", false;
  if (done > begins) return *why = "more subproblem ends than beginnings", false;
  return true;
}

static void check(const Prob& q, int path, int gk) {
  AlgorithmParameters o = path_options(path);
  Point g = guess_of(q, gk);
  if (path == 5) g.z.setConstant(std::numeric_limits<double>::quiet_NaN());
  std::string where = S() << kPath[path] << " guess " << kGuesses[gk].name << " on " << show(q), why;
  Result base;
  std::string text[4];
  for (int lev = 0; lev < 4; lev++) {
    AlgorithmParameters w = o;
    w.display_level = (Display)lev;
    std::string at = S() << "display level " << lev << ", " << where, err, out;
    Own own;
    Result r;
    {
      Solver s(q);
      s.options(w);
      Capture c;
      r = s.solve(q, g, &own);
      out = c.finish(&err);
    }
    R.validated++, R.transitions += 1 + r.out.newton_iters;
    text[lev] = without_time(own.text());
    R.state(mc::fnv(text[lev].data(), text[lev].size()));
    if (!out.empty() || !err.empty()) return R.fail(S() << "text went to the process output instead of the supplied stream: '" << (out.empty() ? err : out).substr(0, 200) << "': " << at);
    if (lev == 0) base = r;
    if (!same_result(base, r, false)) return R.fail(S() << "the display level changes the result: " << show(base) << " / " << show(r) << ": " << at);
    if (lev == 0 && !own.calls.empty()) return R.fail(S() << "something is printed although display is off: '" << own.calls[0] << "': " << at);
    if (r.other) return R.fail(S() << "unexpected exception: " << r.what << ": " << at);
    if (!r.threw && lev > 0) {
      if (!summary(q, r, w, text[lev], &why)) return R.fail(S() << why << ": " << show(r) << " printed:\n" << text[lev] << "\n" << at);
      if (own.text().empty() || own.text().back() != '\n') return R.fail(S() << "the output does not end with a complete line: " << at);
    }
    if (!r.threw && lev == 2 && path != 5 && !progress_iter(q, r, g, w, text[lev], &why)) return R.fail(S() << why << ": " << show(r) << " printed:\n" << text[lev] << "\n" << at);
    if (!r.threw && lev == 3 && path != 5 && !progress_detailed(r, w, text[lev], &why)) return R.fail(S() << why << ": " << show(r) << " printed:\n" << text[lev] << "\n" << at);
    if (!r.threw && lev >= 2) {  // every level ends with the summary
      const std::string& f = text[1];
      if (text[lev].size() < f.size() || text[lev].compare(text[lev].size() - f.size(), f.size(), f)) return R.fail(S() << "the summary differs between display levels: '" << f << "' / '" << text[lev] << "': " << at);
    }
    // the default stream is the standard output and carries the same text
    if (!r.threw) {
      Solver s(q);
      s.options(w);
      Capture c;
      Result d = s.solve(q, g);
      out = c.finish(&err);
      if (!err.empty()) return R.fail(S() << "text went to the error output: '" << err.substr(0, 200) << "': " << at);
      if (without_time(out) != text[lev]) return R.fail(S() << "standard output carries different text: '" << out.substr(0, 400) << "' instead of '" << text[lev].substr(0, 400) << "': " << at);
      if (!same_result(base, d, false)) return R.fail(S() << "the default stream changes the result: " << at);
    }
  }
  R.note(base.threw ? "threw" : flag(base.out.eflag));
  if (R.want_sample) R.sample(S() << where << " -> " << text[1]);
}

// --- progress lines against the iterates -----------------------------------------------------------------
typedef long double ld;
struct It {  // what the linear solver is given
  VecL z, l, v, y;
};
static It take(const FullVariable& x) { return It{x.z().cast<ld>(), x.l().cast<ld>(), x.v().cast<ld>(), x.y().cast<ld>()}; }
static ld top(const VecL& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0L; }
// Component norms of the residual of the proximal subproblem, or (natural) of the problem itself.
static bool components(const QP& p, const It& x, const It& bar, ld s, ld alpha, bool natural, ld out[3]) {
  VecL rz = p.H.cast<ld>() * x.z + p.f.cast<ld>() + p.A.cast<ld>().transpose() * x.v;
  ld sq = 0;
  out[1] = 0;
  if (p.l) {
    rz += p.G.cast<ld>().transpose() * x.l;
    VecL rl = p.h.cast<ld>() - p.G.cast<ld>() * x.z;
    if (!natural) rl += s * (x.l - bar.l);
    out[1] = rl.norm();
  }
  if (!natural) rz += s * (x.z - bar.z);
  out[0] = rz.norm();
  for (int i = 0; i < p.m; i++) {
    ld a = x.y(i) + (natural ? 0 : s * (x.v(i) - bar.v(i))), b = x.v(i);
    ld r = (natural ? alpha * std::min(a, b) : alpha * (a + b - std::sqrt(a * a + b * b))) + (1 - alpha) * std::max<ld>(0, a) * std::max<ld>(0, b);
    sq += r * r;
  }
  out[2] = std::sqrt(sq);
  return std::isfinite((double)(out[0] + out[1] + out[2]));
}
static void traced(const Prob& q, int path, int gk, int lev) {
  AlgorithmParameters o = path_options(path);
  o.display_level = (Display)lev;
  Point g = guess_of(q, gk);
  TapSolver s(q);
  s.options(o);
  const QP& p = q.p;
  std::string bad;
  It px, pd;
  int sub = -1, first = 0, sub_steps = 0;
  auto near3 = [&](const double* v, const ld* k, ld slack) {
    for (int i = 0; i < 3; i++)
      if (!near(v[i], k[i], (double)slack)) return false;
    return true;
  };
  s.tap.init = [&](int n, const FullVariable& x_, const FullVariable& bar_, double sigma) {
    if (!bad.empty()) return true;
    It x = take(x_), bar = take(bar_);
    ld slack = 1e-12L * magnitude(p, Point(p)) * (1 + top(x.z) + top(x.l) + top(x.v) + top(bar.z) + top(bar.l) + top(bar.v)) * (1 + top(x.y) + top(x.v));
    ld ki[3], ko[3];
    if (!components(p, x, bar, sigma, o.alpha, false, ki) || !components(p, bar, bar, sigma, o.alpha, true, ko)) return true;
    auto ls = lines(*s.tap.text);
    char rest[8];
    int a = -1, b = -1;
    double v[5];
    if (lev == 2) {
      if (ls.empty() || sscanf(ls.back().c_str(), "%d%*[ ]%d%*[ ]%lf %lf %lf %lf %lf %7s", &a, &b, v, v + 1, v + 2, v + 3, v + 4, rest) != 7) return bad = "no progress line before a newton step", true;
      if (!near3(v, ko, slack)) bad = S() << "the progress line '" << ls.back() << "' of proximal iteration " << a << " does not show the residuals of its iterate " << (double)ko[0] << " " << (double)ko[1] << " " << (double)ko[2];
      if (a != sub) sub = a, first = n;
      if (b != first) bad = S() << "the progress line '" << ls.back() << "' counts " << b << " newton iterations, there were " << first;
      R.note("progress-lines");
      return true;
    }
    int k = -1, header = -1, hb = -1;
    double hr = -1;
    if (ls.empty() || sscanf(ls.back().c_str(), "%d%*[ ]%lf %lf %lf %lf %7s", &k, v, v + 1, v + 2, v + 3, rest) != 5) return bad = "no detailed line before a newton step", true;
    for (auto& t : ls) {
      int c, d;
      double e;
      if (sscanf(t.c_str(), "Begin Prox Iter: %d, Total Newton Iters: %d, Residual: %lf", &c, &d, &e) == 3) header = c, hb = d, hr = e;
    }
    if (!near3(v + 1, ki, slack)) bad = S() << "the detailed line '" << ls.back() << "' does not show the residuals of its iterate " << (double)ki[0] << " " << (double)ki[1] << " " << (double)ki[2];
    ld total = std::sqrt(ko[0] * ko[0] + ko[1] * ko[1] + ko[2] * ko[2]);
    if (!near(hr, total, (double)slack)) bad = S() << "subproblem " << header << " is announced with residual " << hr << " instead of " << (double)total;
    if (header != sub) {
      if (hb != n) bad = S() << "subproblem " << header << " is announced after " << hb << " newton iterations, there were " << n;
      sub = header, first = n, sub_steps = 0;
      if (k != 0) bad = S() << "the first line of subproblem " << header << " has number " << k;
    } else {
      sub_steps++;
      if (k != sub_steps) bad = S() << "inner iteration " << sub_steps << " is printed as " << k;
      // the step length that was taken
      ld d = std::max(top(x.z - px.z - v[0] * pd.z), std::max(top(x.l - px.l - v[0] * pd.l), top(x.v - px.v - v[0] * pd.v)));
      ld len = std::max(top(pd.z), std::max(top(pd.l), top(pd.v)));
      if (std::isfinite((double)len) && !(d <= 2e-6L * len + 1e-13L * (top(px.z) + top(px.l) + top(px.v)))) bad = S() << "the printed step length " << v[0] << " is not the one that was taken";
    }
    R.note("detailed-lines");
    px = x;
    return true;
  };
  s.tap.solve = [&](int, FullVariable* dx) {
    pd = It{dx->z().cast<ld>(), dx->l().cast<ld>(), dx->v().cast<ld>(), VecL()};
    return true;
  };
  Result r = s.solve(q, g);
  R.validated++, R.transitions += 1 + s.tap.solves;
  R.state(mc::fnv(r.text.data(), r.text.size()));
  if (!bad.empty()) return R.fail(S() << bad << ": " << kPath[path] << " guess " << kGuesses[gk].name << " on " << show(q) << " printed:\n" << r.text);
  if (R.want_sample) R.sample(S() << "traced " << s.tap.solves << " newton steps of " << q.name);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  std::vector<Prob> lib = dense_library();
  for (auto& p : mpc_library()) lib.push_back(p);
  for (auto& q : lib)
    R.family(S() << "library-" << q.name, kPaths * kNumGuesses, [&](mc::ll i) { check(q, (int)(i % kPaths), (int)(i / kPaths)); });
  for (auto& q : designed_library(1))
    R.family(S() << "library-" << q.name, kPaths * 2, [&](mc::ll i) { check(q, (int)(i % kPaths), (int)(i / kPaths)); });
  for (auto& q : large_library(1))
    R.family(S() << "library-" << q.name, kPaths * (T ? 3 : 1), [&](mc::ll i) { check(q, (int)(i % kPaths), (int)(i / kPaths)); });
  // every printed iterate
  const std::vector<Prob> designed = designed_library(1), large = large_library(1);
  for (auto* set : {(const std::vector<Prob>*)&lib, &designed, &large})
    for (auto& q : *set) {
      const int ng = set == &lib ? kNumGuesses : T ? 4 : 2;
      R.family(S() << "iterates-" << q.name, 5 * 2 * ng, [&](mc::ll i) { traced(q, (int)(i % 5), (int)(i / 10), 2 + (int)(i / 5 % 2)); });
    }
  // changing the verbosity of a solver that is in use: every sequence of levels
  for (auto& q : lib)
    R.family(S() << "levels-in-sequence-" << q.name, 3 * 256, [&](mc::ll i) {
      mc::Dec d(i);
      int path = 2 + d.digit(3);
      Solver s(q);
      Point g = guess_of(q, 1);
      std::string seen;
      for (int k = 0; k < 4 && !R.violated; k++) {
        AlgorithmParameters w = path_options(path);
        w.display_level = (Display)d.digit(4);
        Solver f(q);
        Own a, b;
        s.options(w), f.options(w);
        Result r = s.solve(q, g, &a), c = f.solve(q, g, &b);
        R.validated++, R.transitions += 2 + r.out.newton_iters;
        seen += S() << " " << (int)w.display_level;
        std::string ta = without_time(a.text()), tb = without_time(b.text());
        R.state(mc::fnv(ta.data(), ta.size(), mc::fnv(seen.data(), seen.size(), mc::fnv(q.name.data(), q.name.size()))));
        if (!same_result(r, c, false)) return R.fail(S() << "changing the display level changes the result: levels" << seen << ": " << show(r) << " / " << show(c) << " on " << show(q));
        if (ta != tb) return R.fail(S() << "after the display levels" << seen << " the solver prints '" << ta.substr(0, 400) << "', a new solver with the last one '" << tb.substr(0, 400) << "' on " << show(q));
      }
    });
  for (auto& q : lib)
    R.family(S() << "long-" << q.name, 3 * 3 * (T ? 5 : 1), [&](mc::ll i) {
      int path = 6 + (int)(i % 3), gk = (int)(i / 9), what = (int)(i / 3 % 3);
      if (what == 0) check(q, path, gk);
      else traced(q, path, gk, 1 + what);
    });
  for (int kind = 0; kind < 3; kind++) {
    DenseDev dv(2, 1, 2, kind, {-1, 0, 2}, T ? 3 : 2);
    R.family(S() << "deviations-" << dv.name(), dv.size() * (T ? 3 : 1), [&](mc::ll i) {
      mc::ll k = i % dv.size();
      Prob q = make("dev", dv.get(k));
      check(q, (int)((k + i / dv.size()) % 3), (int)(k % 3));
      for (int lev = 2; lev < 4; lev++) traced(q, (int)(k % 5), (int)(k / 5 % 3), lev);
    });
    MpcSpace ms(mpc_base(2, 1, 1, 1, kind), {-1, 0, 2}, T ? 2 : 1);
    R.family(S() << "deviations-mpc-" << kind, ms.size() * 3, [&](mc::ll i) {
      Prob q = make("dev", ms.get(i / 3));
      check(q, (int)(i % 3), (int)(i % 5));
      for (int lev = 2; lev < 4; lev++) traced(q, (int)(i % 5), (int)(i % 3), lev);
    });
  }
  return R.finish();
}
