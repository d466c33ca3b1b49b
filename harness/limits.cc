// C11: every combination of iteration limits x problem x guess x search mode: the solve ends, the
// counters respect the limits, an iteration-limit verdict is given exactly when a limit stops the run
// that the same solver makes without limits, and the point handed back is never worse than the
// proximal centre it started from.
#include "solve.h"

using namespace qp;
using mc::S;
static mc::Run R;

static const int kNewton[] = {1, 2, 3, 4, 6, 9, 200}, kProx[] = {1, 2, 3, 30}, kInner[] = {1, 2, 3, 50}, kLs[] = {1, 2, 4, 20};
static const int nN = 7, nP = 4, nI = 4, nL = 4;

static AlgorithmParameters opts(int variant, bool mono, int inner, int ls) {
  AlgorithmParameters o = preset(variant == 1 ? 1 : 0);
  if (variant == 2) o.sigma0 = o.sigma_max = 1e-2, o.beta = 0.5;
  o.nonmonotone_linesearch = !mono;
  o.max_inner_iters = inner, o.max_linesearch_iters = ls;
  return o;
}
static double residual_of(const QP& p, const Point& x, double alpha) { return (double)kkt(p, x.z, x.l, x.v, alpha).pen; }

static void limit_case(const Prob& q, int gk, int variant, bool mono, int inner, int ls, mc::ll idx) {
  AlgorithmParameters o = opts(variant, mono, inner, ls);
  Point g = guess_of(q, gk);
  o.max_newton_iters = 3000, o.max_prox_iters = 1000;
  Solver free_(q);
  free_.options(o);
  Result ref = free_.solve(q, g);
  R.transitions += ref.threw ? 1 : ref.out.newton_iters;
  std::map<int, Result> at_prox;
  double r0 = residual_of(q.p, g, o.alpha);
  for (int a = 0; a < nN; a++)
    for (int b = 0; b < nP && !R.violated; b++) {
      o.max_newton_iters = kNewton[a], o.max_prox_iters = kProx[b];
      Solver s(q);
      s.options(o);
      Result r = s.solve(q, g);
      R.validated++, R.transitions += r.threw ? 1 : 1 + r.out.newton_iters + r.out.prox_iters;
      R.state(mc::fnv(r.x.z.data(), r.x.z.size() * 8, mc::fnv(&idx, 8, mc::fnv(&a, 4, mc::fnv(&b, 4, mc::fnv(q.name.data(), q.name.size()))))));
      std::string where = S() << "limits newton " << kNewton[a] << " prox " << kProx[b] << " inner " << inner << " linesearch " << ls << (mono ? " monotone" : " nonmonotone") << " variant " << variant << " guess "
                              << kGuesses[gk].name << " on " << show(q) << " || without limits: " << show(ref);
      if (R.want_sample && a == 2 && b == 1) R.sample(S() << where << " -> " << show(r));
      auto bad = [&](const std::string& m) { R.fail(S() << m << ": " << show(r) << " | " << where); };
      if (r.other) return bad("unexpected exception");
      if (r.threw) {
        if (!ref.threw && ref.out.newton_iters <= kNewton[a] && ref.out.prox_iters <= kProx[b] && ref.out.eflag != ExitFlag::MAXITERATIONS) bad("throws only because of the limits");
        R.note("threw");
        continue;
      }
      const SolverOut& u = r.out;
      R.note(flag(u.eflag));
      if (u.newton_iters < 0 || u.prox_iters < 0 || u.newton_iters > kNewton[a] || u.prox_iters > kProx[b]) return bad("a counter exceeds its limit");
      if (u.newton_iters > inner * (u.prox_iters + 1)) return bad("more Newton iterations than the inner limit allows");
      std::string why;
      if (u.eflag == ExitFlag::SUCCESS && !optimal(q.p, r.x, o, &why)) return bad("success with a wrong point " + why);
      if (u.eflag == ExitFlag::MAXITERATIONS) {
        bool n = u.newton_iters >= kNewton[a], p = u.prox_iters >= kProx[b];
        if (!n && !p) return bad("iteration limit reported although no limit was reached");
        if (n && !p) {
          // never worse than the proximal centre of the interrupted subproblem
          double bound = r0;
          if (u.prox_iters > 0) {
            if (!at_prox.count(u.prox_iters)) {
              AlgorithmParameters w = o;
              w.max_newton_iters = 3000, w.max_prox_iters = u.prox_iters;
              Solver t(q);
              t.options(w);
              at_prox[u.prox_iters] = t.solve(q, g);
            }
            const Result& c = at_prox[u.prox_iters];
            if (c.threw || c.out.eflag != ExitFlag::MAXITERATIONS) {
              R.note("centre-not-available");
              continue;
            }
            bound = residual_of(q.p, c.x, o.alpha);
          }
          double e = residual_of(q.p, r.x, o.alpha);
          if (!(e <= bound * (1 + 1e-9) + 1e-9 * magnitude(q.p, r.x))) return bad(S() << "the returned point (residual " << e << ") is worse than the point the subproblem started from (" << bound << ")");
          if (u.prox_iters == 0 && !(u.residual <= u.initial_residual * (1 + 1e-12))) return bad("reported residual is worse than that of the guess");
          R.note("interrupted-subproblems");
        }
      }
      if (ref.threw || ref.out.eflag == ExitFlag::MAXITERATIONS) {
        R.note("no-unlimited-reference");
        continue;
      }
      bool inside = ref.out.newton_iters < kNewton[a] && ref.out.prox_iters < kProx[b];
      if (inside && !same_result(r, ref, false)) return bad("limits that are not reached change the result");
      // (a run that ends exactly at a limit may be reported either way)
      bool outside = ref.out.newton_iters > kNewton[a] || ref.out.prox_iters > kProx[b];
      if (outside && u.eflag != ExitFlag::MAXITERATIONS) return bad("the limit was passed without an iteration-limit verdict");
    }
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  std::vector<Prob> lib = dense_library();
  for (auto& p : mpc_library()) lib.push_back(p);
  for (auto& q : lib) {
    int ng = T ? kNumGuesses : 5;
    R.family(S() << "limits-" << q.name, (mc::ll)ng * 3 * 2 * nI * nL, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(ng), variant = d.digit(3), mono = d.digit(2), in = d.digit(nI), ls = d.digit(nL);
      limit_case(q, g, variant, mono, kInner[in], kLs[ls], i);
    });
  }
  for (auto& q : designed_library(T ? 1 : 0))
    R.family(S() << "limits-" << q.name, 3ll * 3 * 2 * nI * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(3), variant = d.digit(3), mono = d.digit(2), in = d.digit(nI), ls = d.digit(2) * 2 + 1;
      limit_case(q, g, variant, mono, kInner[in], kLs[ls], i);
    });
  for (auto& q : large_library(1))
    R.family(S() << "limits-" << q.name, T ? 3 * 3 * 2 * 2 : 6, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(3), mono = d.digit(2), variant = d.digit(3), in = d.digit(2);
      if (!T) variant = (int)(i % 3);
      limit_case(q, g, variant, mono, kInner[in ? 1 : 3], 20, i);
    });
  // runs that nothing but a limit ends: no tolerance can be met
  static const int kLong[][4] = {{2600, 100000, 500, 20}, {2600, 100000, 1, 40}, {1500, 100000, 3, 1}, {700, 100000, 50, 64}, {100000, 1200, 1, 20}, {100000, 400, 20, 20}, {100000, 151, 3, 40}, {100000, 260, 2, 1}};
  for (auto& q : lib)
    R.family(S() << "long-runs-" << q.name, 8ll * 2 * 2 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(2) * 2, mono = d.digit(2), variant = d.digit(2);
      const int* lim = kLong[(int)d.k];
      AlgorithmParameters o = opts(variant * 2, mono, lim[2], lim[3]);
      o.max_newton_iters = lim[0], o.max_prox_iters = lim[1];
      o.abs_tol = o.rel_tol = o.stall_tol = 0, o.inner_tol_min = 1e-14, o.check_feasibility = false;
      Solver s(q);
      s.options(o);
      Result r = s.solve(q, guess_of(q, g));
      R.validated++, R.transitions += r.threw ? 1 : r.out.newton_iters + r.out.prox_iters;
      R.state(mc::fnv(r.x.z.data(), r.x.z.size() * 8, mc::fnv(&i, 8, mc::fnv(q.name.data(), q.name.size()))));
      std::string where = S() << "limits newton " << lim[0] << " prox " << lim[1] << " inner " << lim[2] << " linesearch " << lim[3] << (mono ? " monotone" : " nonmonotone") << " zero tolerances on " << show(q);
      auto bad = [&](const std::string& m) { R.fail(S() << m << ": " << show(r) << " | " << where); };
      if (r.other) return bad("unexpected exception");
      if (r.threw) return R.note("long-threw");
      const SolverOut& u = r.out;
      R.note(std::string("long-") + flag(u.eflag));
      if (u.newton_iters > lim[0] || u.prox_iters > lim[1] || u.newton_iters > (double)lim[2] * (u.prox_iters + 1.0)) return bad("a counter exceeds its limit");
      if (u.eflag == ExitFlag::SUCCESS) {
        if (!(u.residual == 0) && u.prox_iters == 0) return bad("success although no tolerance is met");
        return;  // (a proximal step of length zero ends the run legitimately)
      }
      if (u.eflag != ExitFlag::MAXITERATIONS) return bad("a verdict although the certificate test is switched off");
      if (u.newton_iters < lim[0] && u.prox_iters < lim[1]) bad("iteration limit reported although no limit was reached");
    });
  // every problem of the deviation spaces
  auto space = [&](const std::string& name, mc::ll total, const std::function<Prob(mc::ll)>& get) {
    const int combos = 2 * 3 * 2 * nI * nL;
    R.family(name, total * combos, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(2) * 2, variant = d.digit(3), mono = d.digit(2), in = d.digit(nI), ls = d.digit(nL);
      Prob q = get(d.k);
      limit_case(q, g, variant, mono, kInner[in], kLs[ls], i);
    });
  };
  for (int kind = 0; kind < 3; kind++) {
    DenseDev V(3, 1, 3, kind, {-1, 0, 1, 3}, T ? 2 : 1);
    space(S() << "limits-" << V.name(), V.size(), [&](mc::ll i) {
      Prob q;
      q.name = "dev", q.p = V.get(i);
      return q;
    });
    MpcSpace M(mpc_base(2, 1, 1, 1, kind), {-1, 0, 1, 2}, T ? 2 : 1);
    space(S() << "limits-mpc-2111-b" << kind, M.size(), [&](mc::ll i) {
      Prob q;
      q.name = "mpcdev", q.mpc = true, q.mp = M.get(i), q.p = expand(q.mp);
      return q;
    });
  }
  return R.finish();
}
