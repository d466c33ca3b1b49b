// C09: for every problem of the library and of the deviation spaces, every guess that differs from a
// base guess in at most k entries (alphabet with huge, tiny and non-finite values): verdict and solution
// do not depend on the guess; restarting from a returned solution stops at once, unchanged.
#include <limits>

#include "designed.h"
#include "solve.h"

using namespace qp;
using mc::S;
static mc::Run R;

static std::vector<double> alphabet(bool big) {
  double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  std::vector<double> a = {0, 1, -1, 7.5, -1e3, 1e3, 1e5, -1e5, 1e-9, nan, inf, -inf};
  if (big) a.push_back(1e300), a.push_back(-1e300), a.push_back(5e-324);
  return a;
}

static bool is_finite_guess(const Point& g) { return finite(g.z) && finite(g.l) && finite(g.v); }
static bool moderate(const Point& g) { return is_finite_guess(g) && inf(g.z) <= 1e6 && inf(g.l) <= 1e6 && inf(g.v) <= 1e6; }

static void account(const Prob& q, const Result& r, mc::ll i, int pr) {
  R.transitions += r.threw ? 1 : 1 + r.out.newton_iters + r.out.prox_iters;
  R.state(mc::fnv(r.x.z.data(), r.x.z.size() * 8, mc::fnv(r.x.v.data(), r.x.v.size() * 8, mc::fnv(&i, 8, mc::fnv(&pr, 4, mc::fnv(R.slot.family, strlen(R.slot.family)))))));
}

static void restart(const Prob& q, Solver& s, const AlgorithmParameters& o, const Point& sol, const Result& first, const std::string& where) {
  if (first.out.residual > 0.99 * combo_tol(o, q.p)) {  // stopped on the stall criterion or within rounding of the tolerance
    R.note("restart-skipped-borderline");
    return;
  }
  Point g = sol;
  g.y.setConstant(-3);
  Result r = s.solve(q, g);
  R.validated++, R.transitions++;
  double eps = 1e-7 * magnitude(q.p, sol);
  // the margin of the first solve carries rounding errors; the recomputed one does not
  Kkt k = kkt(q.p, sol.z, sol.l, sol.v, o.alpha);
  if (k.pen > 0.999 * combo_tol(o, q.p)) {
    R.note("restart-skipped-rounding");
    return;
  }
  bool ok = !r.threw && !r.other && r.out.eflag == ExitFlag::SUCCESS && r.out.newton_iters == 0 && r.out.prox_iters == 0 && same_bits(r.x.z, sol.z) && same_bits(r.x.l, sol.l) &&
            same_bits(r.x.v, sol.v) && (r.x.y - sol.y).cwiseAbs().maxCoeff() <= eps;
  if (!ok) R.fail(S() << "restart from the returned solution does not stop at once with the same point: " << show(r) << " | solution " << show(sol) << " | " << where);
  R.note("restarts");
}

// The guess is what the solver starts from: the first residual it reports belongs to it.
static void start_judged(const Prob& q, const Point& g, const Result& r, const AlgorithmParameters& o, const std::string& where) {
  if (r.threw || r.other || !moderate(g)) return;
  double e = (double)kkt(q.p, g.z, g.l, g.v, o.alpha).pen;
  R.validated++;
  if (!(std::abs(r.out.initial_residual - e) <= 1e-9 * e + 1e-13 * magnitude(q.p, g) * (1 + inf(g.v))))
    R.fail(S() << "the first residual is not the one of the guess, " << e << ": " << show(r) << " | " << where);
}
// A guess that meets the tolerance is returned as it is.
static void recognised(const Prob& q, const Point& g, const Result& r, const AlgorithmParameters& o, const std::string& where) {
  double e = (double)kkt(q.p, g.z, g.l, g.v, o.alpha).pen;
  if (!(e <= 0.9 * combo_tol(o, q.p) - 1e-12 * magnitude(q.p, g))) return R.note("guess-not-within-tolerance");
  R.validated++, R.note("guess-within-tolerance");
  if (r.threw || r.other || r.out.eflag != ExitFlag::SUCCESS || r.out.newton_iters || r.out.prox_iters || !same_bits(r.x.z, g.z) || !same_bits(r.x.l, g.l) || !same_bits(r.x.v, g.v))
    R.fail(S() << "a guess that meets the tolerance (" << e << ") is not returned as it is: " << show(r) << " | " << where);
}

static void guess_case(const Prob& q, const Point& g, mc::ll i, const Result* ref, const AlgorithmParameters& o, int pr, bool reused) {
  Solver s(q);
  s.options(o);
  if (reused) s.solve(q, guess_of(q, 2));
  Result r = s.solve(q, g);
  account(q, r, i, pr);
  R.validated++;
  std::string where = S() << show(q) << " | guess " << show(g) << " preset " << (pr ? "reliable" : "default");
  if (R.want_sample && pr == 0) R.sample(S() << where << " -> " << show(r));
  std::string why;
  if (r.other) return R.fail(S() << "not a runtime_error: " << show(r) << " | " << where);
  start_judged(q, g, r, o, where);
  bool fin = is_finite_guess(g);
  if (!r.threw && r.out.eflag == ExitFlag::SUCCESS && (!fin || moderate(g)) && !optimal(q.p, r.x, o, &why))
    return R.fail(S() << "success with a wrong point (" << why << "): " << show(r) << " | " << where);
  if (!fin) {
    // a non-finite guess must not produce a wrong answer either
    R.note(r.threw ? "nonfinite-threw" : std::string("nonfinite-") + flag(r.out.eflag));
    if (!r.threw && r.out.eflag != ExitFlag::MAXITERATIONS && !verdict_ok(q, r.out.eflag)) R.fail(S() << "wrong verdict from a non-finite guess: " << show(r) << " | " << where);
    return;
  }
  if (!moderate(g)) {
    R.note(r.threw ? "extreme-threw" : std::string("extreme-") + flag(r.out.eflag));
    if (!r.threw && r.out.eflag != ExitFlag::SUCCESS && r.out.eflag != ExitFlag::MAXITERATIONS && !verdict_ok(q, r.out.eflag)) R.fail(S() << "wrong verdict from an extreme guess: " << show(r) << " | " << where);
    return;
  }
  // from guesses that are 10^5 times larger than the data the iteration limits may strike first
  bool near = inf(g.z) <= 1e3 && inf(g.l) <= 1e3 && inf(g.v) <= 1e3;
  bool complete = near && (pr == 1 || q.pd || q.p.n == 1);
  if (r.threw || r.out.eflag == ExitFlag::MAXITERATIONS) {
    R.note("no-verdict");
    if (complete) R.fail(S() << "no verdict from this guess: " << show(r) << " | " << where);
    return;
  }
  if (!verdict_ok(q, r.out.eflag)) return R.fail(S() << "wrong verdict from this guess: " << show(r) << " | " << where);
  if (r.out.eflag == ExitFlag::SUCCESS) {
    if (q.pd && ref && !ref->threw && ref->out.eflag == ExitFlag::SUCCESS) {
      double tol = 2e3 * combo_tol(o, q.p) * (1 + inf(ref->x.z) + inf(ref->x.v) + inf(ref->x.l));
      if (!(inf(r.x.z - ref->x.z) <= tol)) return R.fail(S() << "solution differs from the one of the zero guess z=" << vec(ref->x.z) << ": " << show(r) << " | " << where);
    }
    restart(q, s, o, r.x, r, where);
  }
  R.note(flag(r.out.eflag));
}

static Point put(const Prob& q, const Point& base, const std::vector<mc::DevSpace::Dev>& dev, const std::vector<double>& al) {
  Point g = base;
  for (auto& d : dev) {
    int k = d.first;
    double v = al[d.second];
    if (k < q.p.n) g.z(k) = v;
    else if (k < q.p.n + q.p.l) g.l(k - q.p.n) = v;
    else g.v(k - q.p.n - q.p.l) = v;
  }
  return g;
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  auto full = alphabet(true);
  const double nan = std::numeric_limits<double>::quiet_NaN();
  std::vector<double> few = {0, -1e3, 1e5, nan, 1e300};
  std::vector<Prob> lib = dense_library();
  for (auto& p : mpc_library()) lib.push_back(p);
  for (auto& q : lib) {
    int np = q.p.n + q.p.l + q.p.m;
    int k = np <= 4 ? (T ? 4 : 3) : np == 5 ? (T ? 3 : 2) : np <= 10 ? (T ? 3 : 2) : (T ? 2 : 1);
    for (int base = 0; base < (np > 12 ? 4 : 3); base++) {
      auto& al = q.mpc && k > 1 && !T ? few : full;
      if (q.mpc && base > 0 && !T) k = 1;
      mc::DevSpace dev(std::vector<int>(np, (int)al.size()), k);
      Result ref[2];
      bool have = false;
      R.family(S() << "guesses-" << q.name << "-base" << base << "-k" << k, dev.size(), [&](mc::ll i) {
        if (!have) {
          for (int pr = 0; pr < 2; pr++) {
            Solver s(q);
            s.options(preset(pr));
            ref[pr] = s.solve(q, Point(q.p));
          }
          have = true;
        }
        Point b = base == 0 ? Point(q.p) : guess_of(q, base == 1 ? 1 : base == 2 ? 2 : 5);
        Point g = put(q, b, dev.cases[i], al);
        for (int pr = 0; pr < 2; pr++) guess_case(q, g, i, &ref[pr], preset(pr), pr, base == 2);
      });
    }
  }
  // every entry of the guess with every order of magnitude: it is what the solver starts from
  std::vector<Prob> many = lib;
  for (auto& q : designed_library(T ? 1 : 0)) many.push_back(q);
  for (auto& q : many) {
    const int np = q.p.n + q.p.l + q.p.m, lo = -12, hi = 40;
    R.family(S() << "magnitudes-" << q.name, (mc::ll)(np + 3) * 2 * (hi - lo + 1), [&](mc::ll i) {
      mc::Dec d(i);
      double v = (d.digit(2) ? -1.5 : 1.5) * std::pow(10., lo + d.digit(hi - lo + 1));
      int at = (int)d.k;
      for (int pr = 0; pr < 2 && !R.violated; pr++) {
        Point g = guess_of(q, pr);
        if (at < np) g = put(q, g, {{at, 0}}, {v});
        else if (at == np) g.z *= v;
        else if (at == np + 1) g.l.setConstant(v);
        else g.v.setConstant(v);
        AlgorithmParameters o = preset(pr);
        o.max_newton_iters = 1;
        Solver s(q);
        s.options(o);
        Result r = s.solve(q, g);
        account(q, r, i, pr);
        if (r.threw || r.other) {
          if (r.other) R.fail(S() << "not a runtime_error: " << show(r) << " | " << show(q) << " | guess " << show(g));
          continue;
        }
        R.validated++;
        double e = (double)kkt(q.p, g.z, g.l, g.v, o.alpha).pen, data = magnitude(q.p, Point(q.p));
        double tol = 1e-9 * e + 1e-13 * data * ((1 + inf(g.z)) * (1 + inf(g.v)) + inf(g.l));
        if (!(std::abs(r.out.initial_residual - e) <= tol)) R.fail(S() << "the first residual is not the one of the guess, " << e << ": " << show(r) << " | " << show(q) << " | guess " << show(g));
      }
    });
  }
  // more problems, the standard guesses
  int dv[][3] = {{2, 1, 2}, {3, 1, 3}, {4, 0, 5}};
  for (auto& s : dv)
    for (int kind = (s[0] == 4 && !T) ? 2 : 0; kind < 3; kind++) {
      DenseDev V(s[0], s[1], s[2], kind, {-1, 0, 1, 3}, T ? 3 : 2);
      R.family(S() << "problems-" << V.name(), V.size(), [&](mc::ll i) {
        Prob q = make("dev", V.get(i));
        if (fm_overflow) return R.note("oracle-overflow");
        for (int pr = 0; pr < 2 && !R.violated; pr++) {
          Solver s(q);
          s.options(preset(pr));
          Result ref = s.solve(q, Point(q.p));
          for (int g = 0; g < kNumGuesses && !R.violated; g += T ? 1 : 2) guess_case(q, guess_of(q, g), i * 8 + g, &ref, preset(pr), pr, g == 3);
        }
      });
    }
  int sh[][4] = {{1, 1, 1, 1}, {2, 1, 1, 1}, {1, 2, 1, 2}};
  for (auto& s : sh)
    for (int kind = (s[3] == 2 && !T) ? 2 : 0; kind < 3; kind++) {
      MpcSpace M(mpc_base(s[0], s[1], s[2], s[3], kind), {-1, 0, 1, 2}, T ? 3 : 2);
      R.family(S() << "problems-mpc-" << s[0] << s[1] << s[2] << s[3] << "-b" << kind, M.size(), [&](mc::ll i) {
        Prob q = make("dev", M.get(i));
        if (fm_overflow) return R.note("oracle-overflow");
        for (int pr = 0; pr < 2 && !R.violated; pr++) {
          Solver t(q);
          t.options(preset(pr));
          Result ref = t.solve(q, Point(q.p));
          for (int g = 0; g < kNumGuesses && !R.violated; g += T ? 1 : 2) guess_case(q, guess_of(q, g), i * 8 + g, &ref, preset(pr), pr, g == 3);
        }
      });
    }
  // problems whose optimal point is known exactly: that point as guess, and with one entry changed
  auto exact = [&](const Prob& q, const Design& g, mc::ll idx, int entry, double delta, int pr, int nonmoderate) {
    Point x(q.p);
    x.z = g.z, x.l = g.l, x.v = g.v;
    x.y.setConstant(nonmoderate ? std::nan("") : -5);
    const AlgorithmParameters o = preset(pr);
    auto where = [&] { return std::string(S() << show(q) << " | optimal point " << show(x) << " preset " << pr); };
    if (entry < 0) {
      Solver s(q);
      s.options(o);
      if (idx % 2) s.solve(q, guess_of(q, 2));
      Result r = s.solve(q, x);
      account(q, r, idx, pr);
      R.validated++;
      if (r.threw || r.other || r.out.eflag != ExitFlag::SUCCESS || r.out.newton_iters || r.out.prox_iters || !same_bits(r.x.z, x.z) || !same_bits(r.x.l, x.l) || !same_bits(r.x.v, x.v))
        R.fail(S() << "an exact solution given as guess is not recognised: " << show(r) << " | " << where());
      R.note("exact-guess");
      return;
    }
    if (entry >= 1000000) {  // every entry with a rounding error
      for (int k = 0; k < q.p.n; k++) x.z(k) += delta * ((k * 7 + entry) % 3 - 1);
      for (int k = 0; k < q.p.l; k++) x.l(k) += delta * ((k * 5 + entry) % 3 - 1);
      for (int k = 0; k < q.p.m; k++) x.v(k) += delta * (entry % 2 ? (k + entry) % 3 - 1 : k == (entry / 2) % q.p.m ? -1 : 0);
      Solver s(q);
      s.options(o);
      Result r = s.solve(q, x);
      account(q, r, idx, pr);
      start_judged(q, x, r, o, where());
      return recognised(q, x, r, o, where());
    }
    double* at = entry < q.p.n ? &x.z(entry) : entry < q.p.n + q.p.l ? &x.l(entry - q.p.n) : &x.v(entry - q.p.n - q.p.l);
    *at += delta;
    Solver s(q);
    s.options(o);
    Result r = s.solve(q, x);
    account(q, r, idx, pr);
    R.validated++;
    start_judged(q, x, r, o, where());
    if (std::abs(delta) < 1e-6) recognised(q, x, r, o, where());
    std::string why;
    if (r.threw || r.other || r.out.eflag == ExitFlag::MAXITERATIONS) {
      R.note("near-no-verdict");
      if (q.pd || pr == 1) R.fail(S() << "no verdict from a guess next to the solution: " << show(r) << " | " << where());
      return;
    }
    if (r.out.eflag != ExitFlag::SUCCESS || !optimal(q.p, r.x, o, &why)) R.fail(S() << "wrong result from a guess next to the solution (" << why << "): " << show(r) << " | " << where());
    R.note("near-guess");
  };
  const double delta[] = {1e-9, -1e-3, 1, -1, 50, -1000, 1e4};
  {
    const int xn = R.qt(9, 12), xl = 4, xm = R.qt(12, 16);
    R.family("exact-dense", (mc::ll)xn * xl * xm * 3 * 2 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int pr = d.digit(2), mode = d.digit(2) ? 4 : 0, kind = d.digit(3), n = 1 + d.digit(xn), l = d.digit(xl), m = 1 + d.digit(xm);
      if (l > n) return;
      Prob q;
      Design g;
      q.p = design_dense(n, l, m, kind, mode, 0, &g), q.pd = g.pd;
      exact(q, g, i, -1, 0, pr, (int)(i % 3 == 0));
      for (int k = 0; k < R.qt(2, 8) && !R.violated; k++)
        for (double e : {1e-16, 1e-12, 1e-9}) exact(q, g, i * 100 + k, 1000000 + k + (int)(i % 6), e, pr, 0);
      for (int e = 0; e < n + l + m && !R.violated; e++)
        for (int k = 0; k < 7 && !R.violated; k++)
          if (T || (e + k) % 7 == (int)(i % 7)) exact(q, g, i * 1000 + e * 7 + k, e, delta[k], pr, 0);
    });
    const int Ns[] = {1, 2, 3, 5, 8, 14};
    const int xN = 6, xx = 3, xu = R.qt(2, 3), xc = 3;
    R.family("exact-mpc", (mc::ll)xN * xx * xu * xc * 3 * 2 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int pr = d.digit(2), mode = d.digit(2) ? 4 : 0, kind = d.digit(3), nc = 1 + d.digit(xc), nu = 1 + d.digit(xu), nx = 1 + d.digit(xx), N = Ns[d.digit(xN)];
      Prob q;
      Design g;
      q.mpc = true, q.mp = design_mpc(N, nx, nu, nc, kind, mode, 0, &g), q.p = expand(q.mp), q.pd = g.pd;
      exact(q, g, i, -1, 0, pr, (int)(i % 3 == 0));
      for (int k = 0; k < R.qt(2, 8) && !R.violated; k++)
        for (double e : {1e-16, 1e-12, 1e-9}) exact(q, g, i * 100 + k, 1000000 + k + (int)(i % 6), e, pr, 0);
      for (int e = 0; e < q.p.n + q.p.l + q.p.m && !R.violated; e++)
        for (int k = 0; k < 7 && !R.violated; k++)
          if ((T && N < 6) || (e + k) % 7 == (int)(i % 7)) exact(q, g, i * 10000 + e * 7 + k, e, delta[k], pr, 0);
    });
  }
  R.family("exact-large", (mc::ll)(nLargeD + nLargeM) * 3 * 2 * 2, [&](mc::ll i) {
    mc::Dec d(i);
    int pr = d.digit(2), mode = d.digit(2) ? 4 : 0, kind = d.digit(3), sh = (int)d.k;
    Prob q;
    Design g;
    if (sh < nLargeD) {
      const int* s = kLargeD[sh];
      q.p = design_dense(s[0], s[1], s[2], kind, mode, 0, &g);
    } else {
      const int* s = kLargeM[sh - nLargeD];
      q.mpc = true, q.mp = design_mpc(s[0], s[1], s[2], s[3], kind, mode, 0, &g), q.p = expand(q.mp);
    }
    q.pd = g.pd;
    exact(q, g, i, -1, 0, pr, (int)(i % 3 == 0));
    const int ne = q.p.n + q.p.l + q.p.m;
    for (int k = 0; k < R.qt(4, 20) && !R.violated; k++)
      for (double e : {1e-16, 1e-12, 1e-9}) exact(q, g, i * 100 + k, 1000000 + k + (int)(i % 6), e, pr, 0);
    for (int e = 0; e < ne && !R.violated; e++)
      for (int k = 0; k < 2 && !R.violated; k++)
        if (T || (e + k) % 11 == (int)(i % 11)) exact(q, g, i * 10000 + e * 7 + k, e, delta[k], pr, 0);
    Solver s(q);
    s.options(preset(pr));
    Result ref = s.solve(q, Point(q.p));
    for (int k = 0; k < R.qt(2, 4) && !R.violated && g.pd; k++) guess_case(q, guess_of(q, 1 + k), i * 8 + k, &ref, preset(pr), pr, k == 1);
  });
  return R.finish();
}
