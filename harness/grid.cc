// C01..C06, C12: every problem of the enumerated spaces x guesses x presets is solved by the
// real solver and judged against the exact/independent reference.
#include "dense.h"
#include "designed.h"
#include "mpcqp.h"

using namespace fbstab;
using namespace qp;
using mc::S;

static mc::Run R;

struct Result {
  bool threw = false;
  std::string what;
  SolverOut out;
  VectorXd z, l, v, y;
};

template <class Solver, class Data, class Var>
static Result run(Solver& s, const Data& d, Var& x) {
  Result r;
  try {
    r.out = s.Solve(d, &x);
  } catch (const std::runtime_error& e) {
    r.threw = true;
    r.what = e.what();
  }
  r.z = x.z, r.l = x.l, r.v = x.v, r.y = x.y;
  return r;
}

static const char* flag(ExitFlag e) {
  static const char* n[] = {"SUCCESS", "DIVERGENCE", "MAXITERATIONS", "PRIMAL_INFEASIBLE", "DUAL_INFEASIBLE", "PRIMAL_DUAL_INFEASIBLE"};
  int k = (int)e;
  return k >= 0 && k < 6 ? n[k] : "?";
}

struct Case {
  const QP* p;
  const MP* mp;        // null for dense
  const Guess* g;
  AlgorithmParameters o;
  int preset;
  VectorXd z0, l0, v0;
  bool must = true;
};
static std::string tell(const Case& c, const Result& r) {
  S s;
  s << (c.mp ? show(*c.mp) : show(*c.p)) << " | guess " << c.g->name << " z=" << vec(c.z0) << " l=" << vec(c.l0) << " v=" << vec(c.v0)
    << " preset " << (c.preset ? "reliable" : "default");
  if (r.threw)
    s << " -> threw " << r.what;
  else
    s << " -> " << flag(r.out.eflag) << " residual " << r.out.residual << " prox " << r.out.prox_iters << " newton "
      << r.out.newton_iters << " z=" << vec(r.z) << " l=" << vec(r.l) << " v=" << vec(r.v) << " y=" << vec(r.y);
  return s;
}

static double scale_of(const QP& p, const Result& r) {
  double a = 1 + p.H.cwiseAbs().rowwise().sum().maxCoeff() + p.A.cwiseAbs().rowwise().sum().maxCoeff() + p.A.cwiseAbs().colwise().sum().maxCoeff();
  if (p.l) a += p.G.cwiseAbs().rowwise().sum().maxCoeff() + p.G.cwiseAbs().colwise().sum().maxCoeff();
  return a * (1 + inf(r.z) + inf(r.l) + inf(r.v)) + inf(p.f) + inf(p.b) + inf(p.h);
}

// The margin is updated incrementally, so it carries the rounding error of the largest
// intermediate iterate (which may be of the size of 1/sigma for semidefinite problems).
static const double kDrift = 1e-7;

// --- judges -----------------------------------------------------------------------------
static void judge_success(const Case& c, const Result& r) {
  if (r.threw || r.out.eflag != ExitFlag::SUCCESS) return;
  R.validated++;
  Kkt k = kkt(*c.p, r.z, r.l, r.v, c.o.alpha);
  double combo = c.o.abs_tol + c.o.rel_tol * (1 + c.p->forcing());
  double eps = 1e-13 * scale_of(*c.p, r);
  // on problems without curvature the iterates pass through points of size |data|/sigma
  if (!positive_definite(c.p->H)) eps += 1e-15 * (inf(c.p->f) + inf(c.p->b) + inf(c.p->h)) / c.o.sigma0 + 1e-15 * (inf(c.z0) + inf(c.v0));
  eps += 1e-15 * c.p->A.cwiseAbs().rowwise().sum().maxCoeff() * inf(c.z0);  // the margin is updated incrementally from the guess
  double eps2 = eps * (1 + inf(r.v) + inf(r.y));  // an error eps of the margin shows in the product
  bool ok = k.total() <= 1.001 * combo / c.o.alpha + eps && k.comp <= 1.001 * combo / (1 - c.o.alpha) + eps2;
  if (!ok || !std::isfinite((double)k.total()))
    R.fail(S() << "success but not optimal: |stationarity|=" << (double)k.rz << " |equality|=" << (double)k.rl << " |min(y,v)|=" << (double)k.rv
               << " max y*v=" << (double)k.comp << " tolerance " << combo << ": " << tell(c, r));
}

static void judge_verdict(const Case& c, const Result& r, const Status& st, bool pd) {
  R.validated++;
  std::string must;
  bool complete = c.preset == 1 || pd || (!c.mp && c.p->n == 1);
  if (r.threw || r.out.eflag == ExitFlag::MAXITERATIONS) {
    R.note(r.threw ? "no-verdict-exception" : "no-verdict-limit");
    if (complete && c.must) R.fail(S() << "no verdict for a problem that must get one: " << tell(c, r));
    return;
  }
  bool ok = false;
  switch (r.out.eflag) {
    case ExitFlag::SUCCESS: ok = st.bounded(); break;
    case ExitFlag::PRIMAL_INFEASIBLE: ok = !st.feasible; break;
    case ExitFlag::DUAL_INFEASIBLE: ok = st.descent; break;
    case ExitFlag::PRIMAL_DUAL_INFEASIBLE: ok = !st.feasible && st.descent; break;
    default: ok = false;
  }
  R.note(std::string("verdict-") + flag(r.out.eflag));
  if (!ok)
    R.fail(S() << "wrong verdict: exactly, the problem is " << (st.feasible ? "feasible" : "infeasible") << " and has "
               << (st.descent ? "a" : "no") << " descending recession direction: " << tell(c, r));
}

static void judge_certificate(const Case& c, const Result& r) {
  if (r.threw) return;
  std::string why;
  bool p = r.out.eflag == ExitFlag::PRIMAL_INFEASIBLE || r.out.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  bool d = r.out.eflag == ExitFlag::DUAL_INFEASIBLE || r.out.eflag == ExitFlag::PRIMAL_DUAL_INFEASIBLE;
  if (!p && !d) return;
  R.validated++;
  R.note(std::string("certificates-") + flag(r.out.eflag));
  if (p && !primal_certificate(*c.p, r.l, r.v, c.o.infeas_tol, &why))
    R.fail(S() << "invalid primal infeasibility certificate (" << why << "): " << tell(c, r));
  if (d && !dual_certificate(*c.p, r.z, c.o.infeas_tol, &why))
    R.fail(S() << "invalid dual infeasibility certificate (" << why << "): " << tell(c, r));
}

static void judge_consistency(const Case& c, const Result& r) {
  if (r.threw) return;
  R.validated++;
  const SolverOut& o = r.out;
  double eps = kDrift * scale_of(*c.p, r);
  if (!(o.newton_iters >= 0 && o.prox_iters >= 0 && o.solve_time >= 0)) return R.fail(S() << "negative counter or time: " << tell(c, r));
  VectorXd y = c.p->b - c.p->A * r.z;
  if (!(inf(y - r.y) <= eps)) return R.fail(S() << "margin is not b-Az=" << vec(y) << ": " << tell(c, r));
  Kkt k0 = kkt(*c.p, c.z0, c.l0, c.v0, c.o.alpha);
  double e0 = (double)k0.pen;
  if (!(std::abs(o.initial_residual - e0) <= 1e-9 * (1 + e0)))
    return R.fail(S() << "initial residual " << o.initial_residual << " but the guess has " << e0 << ": " << tell(c, r));
  if (o.eflag == ExitFlag::SUCCESS || o.eflag == ExitFlag::MAXITERATIONS) {
    double e = (double)kkt(*c.p, r.z, r.l, r.v, c.o.alpha).pen;
    if (!(std::abs(o.residual - e) <= 1e-9 * e + 10 * eps))
      return R.fail(S() << "reported residual " << o.residual << " but the point has " << e << ": " << tell(c, r));
    double bound = o.eflag == ExitFlag::SUCCESS ? (c.o.abs_tol + c.o.rel_tol * (1 + c.p->forcing())) / c.o.alpha : 0;
    if (o.eflag == ExitFlag::SUCCESS && !(r.v.minCoeff() >= -1.001 * bound)) return R.fail(S() << "negative multiplier: " << tell(c, r));
    if (o.eflag == ExitFlag::MAXITERATIONS && !(r.v.minCoeff() >= std::min(0.0, c.v0.minCoeff())))
      return R.fail(S() << "negative multiplier: " << tell(c, r));
  }
  R.note(std::string("exit-") + flag(o.eflag));
}

// --- problem sets -----------------------------------------------------------------------
template <class Opt>
static Opt options(int preset, Opt d, Opt r) {
  Opt o = preset ? r : d;
  o.display_level = Display::OFF;
  return o;
}

static void account(const Case& c, const Result& r, ll i, int gi, int preset) {
  R.transitions += r.threw ? 1 : r.out.newton_iters + r.out.prox_iters + 1;
  uint64_t h = mc::fnv(&i, sizeof i);
  h = mc::fnv(&gi, sizeof gi, h), h = mc::fnv(&preset, sizeof preset, h);
  h = mc::fnv(R.slot.family, strlen(R.slot.family), h);
  h = mc::fnv(r.z.data(), r.z.size() * 8, h), h = mc::fnv(r.v.data(), r.v.size() * 8, h);
  R.state(h);
  if (R.want_sample && gi == 0 && preset == 0) R.sample(tell(c, r));
}

static void judge(const Case& c, const Result& r, const Status* st, bool pd) {
  const std::string& P = R.prop;
  if (P == "C01" || P == "C04") judge_success(c, r);
  else if (P == "C02" || P == "C05") judge_verdict(c, r, *st, pd);
  else if (P == "C03") judge_certificate(c, r);
  else if (P == "C12") judge_consistency(c, r);
}

// limits: 0 none, otherwise index into small-limit table (only for C12)
static void apply_limits(AlgorithmParameters* o, int k) {
  static const int T[][4] = {{0, 0, 0, 0}, {1, 30, 50, 20}, {2, 30, 50, 20}, {200, 1, 50, 20}, {200, 1, 1, 20}, {3, 2, 2, 1}, {200, 2, 1, 1}, {5, 30, 5, 3}};
  if (!k) return;
  o->max_newton_iters = T[k][0], o->max_prox_iters = T[k][1], o->max_inner_iters = T[k][2], o->max_linesearch_iters = T[k][3];
}

// options away from the presets (soundness only: completeness is stated for the presets)
static const int kVariants = 12;
template <class Opt>
static void apply_variant(Opt* o, int k) {
  switch (k) {
    case 1: o->alpha = 0.5; break;
    case 2: o->alpha = 0.8, o->sigma0 = o->sigma_max = 1e-2; break;
    case 3: o->sigma0 = o->sigma_max = 1; break;
    case 4: o->sigma0 = o->sigma_max = 1e-4, o->sigma_min = 1e-6; break;
    case 5: o->abs_tol = 1e-9, o->inner_tol_min = 1e-13; break;
    case 6: o->abs_tol = 1e-12, o->rel_tol = 1e-5; break;
    case 7: o->abs_tol = 1e-2, o->rel_tol = 1e-3; break;
    case 8: o->nonmonotone_linesearch = !o->nonmonotone_linesearch, o->beta = 0.5; break;
    case 9: o->eta = 0.4, o->beta = 0.9, o->delta = 0.5; break;
    case 10: o->check_feasibility = false, o->max_prox_iters = 40; break;
    case 11: o->alpha = 0.99, o->inner_tol_max = 1, o->delta = 0.01; break;
  }
}

struct Plan {
  int guesses = 1, presets = 2, limit = 0, variant = 0;
  bool must = true;  // the problem belongs to a class for which a verdict is promised
  bool designed = false;  // large problem: a verdict is promised for moderate guesses, and by the reliability preset for feasible ones
  int near = 3;           // ... up to this guess
  int first = 0;     // first guess
};

static void dense_run(const QP& p, const Status& st, bool pd, ll idx, const Plan& plan) {
  FBstabDense::ProblemData D = data(p);
  for (int pr = 0; pr < plan.presets; pr++)
    for (int g = plan.first; g < plan.first + plan.guesses && !R.violated; g++) {
      FBstabDense s(p.n, p.l, p.m);
      FBstabDense::Options o = options(pr, FBstabDense::DefaultOptions(), FBstabDense::ReliableOptions());
      apply_limits(&o, plan.limit);
      apply_variant(&o, plan.variant);
      s.UpdateOptions(o);
      FBstabDense::Variable x(p.n, p.l, p.m);
      set_guess(kGuesses[g], &x);
      Case c{&p, nullptr, &kGuesses[g], o, pr, x.z, x.l, x.v};
      c.must = plan.must && !plan.variant && !plan.limit && (!plan.designed || g <= plan.near);
      Result r = run(s, D, x);
      account(c, r, idx, g, pr);
      judge(c, r, &st, pd);
    }
}

static void mpc_run(const MP& mp, const QP& p, const Status& st, bool pd, ll idx, const Plan& plan) {
  FBstabMpc::ProblemData D = data(mp);
  for (int pr = 0; pr < plan.presets; pr++)
    for (int g = plan.first; g < plan.first + plan.guesses && !R.violated; g++) {
      FBstabMpc s(mp.N, mp.nx, mp.nu, mp.nc);
      FBstabMpc::Options o = options(pr, FBstabMpc::DefaultOptions(), FBstabMpc::ReliableOptions());
      apply_limits(&o, plan.limit);
      apply_variant(&o, plan.variant);
      s.UpdateOptions(o);
      FBstabMpc::Variable x(mp.N, mp.nx, mp.nu, mp.nc);
      set_guess(kGuesses[g], &x);
      Case c{&p, &mp, &kGuesses[g], o, pr, x.z, x.l, x.v};
      c.must = plan.must && !plan.variant && !plan.limit && (!plan.designed || (g <= plan.near && (mp.N <= 25 || pd) && (pr == 0 || st.feasible)));
      Result r = run(s, D, x);
      account(c, r, idx, g, pr);
      judge(c, r, &st, pd);
    }
}

static bool status_of(const QP& p, bool verdict, Status* st, bool* pd) {
  *st = Status{true, false};
  *pd = false;
  if (!verdict) return true;
  fm_overflow = false;
  *st = classify(p);
  if (fm_overflow) {
    R.note("oracle-overflow");
    return false;
  }
  *pd = positive_definite(p.H);
  return true;
}

static void dense_case(const QP& p, ll idx, int guesses, int presets, bool verdict, int limit = 0, int variant = 0) {
  Status st;
  bool pd;
  if (!status_of(p, verdict, &st, &pd)) return;
  Plan plan;
  plan.guesses = guesses, plan.presets = presets, plan.limit = limit, plan.variant = variant;
  dense_run(p, st, pd, idx, plan);
}

static void mpc_case(const MP& mp, ll idx, int guesses, int presets, bool verdict, int limit = 0, int variant = 0) {
  QP p = expand(mp);
  Status st;
  bool pd;
  if (!status_of(p, verdict, &st, &pd)) return;
  Plan plan;
  plan.guesses = guesses, plan.presets = presets, plan.limit = limit, plan.variant = variant;
  mpc_run(mp, p, st, pd, idx, plan);
}

// C06: both interfaces on the same problem
static void equiv_case(const MP& mp, ll idx, int guesses, int presets, const Status* known = nullptr, int variant = 0) {
  QP p = expand(mp);
  bool pd = positive_definite(p.H);
  FBstabMpc::ProblemData D = data(mp);
  FBstabDense::ProblemData DD = data(p);
  for (int pr = 0; pr < presets; pr++)
    for (int g = 0; g < guesses && !R.violated; g++) {
      FBstabMpc s(mp.N, mp.nx, mp.nu, mp.nc);
      FBstabMpc::Options o = options(pr, FBstabMpc::DefaultOptions(), FBstabMpc::ReliableOptions());
      apply_variant(&o, variant);
      s.UpdateOptions(o);
      FBstabMpc::Variable x(mp.N, mp.nx, mp.nu, mp.nc);
      set_guess(kGuesses[g], &x);
      FBstabDense t(p.n, p.l, p.m);
      FBstabDense::Options w0 = options(pr, FBstabDense::DefaultOptions(), FBstabDense::ReliableOptions());
      apply_variant(&w0, variant);
      t.UpdateOptions(w0);
      FBstabDense::Variable w(p.n, p.l, p.m);
      w.z = x.z, w.l = x.l, w.v = x.v;
      Case c{&p, &mp, &kGuesses[g], o, pr, x.z, x.l, x.v};
      Result a = run(s, D, x), b = run(t, DD, w);
      account(c, a, idx, g, pr);
      R.transitions += b.threw ? 1 : b.out.newton_iters + b.out.prox_iters + 1;
      R.validated++;
      auto both = [&] { return std::string(S() << tell(c, a) << " || dense form -> " << (b.threw ? b.what.c_str() : flag(b.out.eflag)) << " z=" << vec(b.z) << " l=" << vec(b.l) << " v=" << vec(b.v)); };
      // without a verdict there is nothing to compare
      bool nva = a.threw || a.out.eflag == ExitFlag::MAXITERATIONS, nvb = b.threw || b.out.eflag == ExitFlag::MAXITERATIONS;
      if (nva || nvb) {
        R.note("no-verdict");
        if (!variant && (known ? pd && pr == 0 : pd || pr == 1) && nva != nvb) R.fail(S() << "only one interface reaches a verdict: " << both());
        continue;
      }
      bool sa = a.out.eflag == ExitFlag::SUCCESS, sb = b.out.eflag == ExitFlag::SUCCESS;
      if (sa != sb) {
        R.fail(S() << "different verdicts: " << both());
        continue;
      }
      // infeasible/unbounded: for problems that are both, either flag is a correct answer
      if (!sa) {
        if (a.out.eflag != b.out.eflag) {
          fm_overflow = false;
          Status st = known ? *known : classify(p);
          if (!fm_overflow && !(!st.feasible && st.descent)) R.fail(S() << "different verdicts: " << both());
        }
        continue;
      }
      double tol = 50 * (o.abs_tol + o.rel_tol * (1 + p.forcing()));
      double ca = cost(p, a.z), cb = cost(p, b.z);
      double mag = 1 + inf(a.z) + inf(b.z) + inf(a.l) + inf(b.l) + inf(a.v) + inf(b.v);
      if (!(std::abs(ca - cb) <= tol * mag * p.n)) R.fail(S() << "different costs " << ca << " vs " << cb << ": " << both());
      if (pd && !(inf(a.z - b.z) <= 20 * tol * mag)) R.fail(S() << "different solutions: " << both());
    }
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const std::string P = R.prop;
  const bool T = R.thorough();
  const bool verdict = P == "C02" || P == "C05";
  const bool dense = P == "C01" || P == "C02" || P == "C03" || P == "C12";
  const bool mpc = P == "C03" || P == "C04" || P == "C05" || P == "C06" || P == "C12";

  if (dense) {
    int small[][3] = {{1, 0, 1}, {1, 0, 2}, {1, 0, 3}, {1, 1, 1}, {1, 1, 2}, {1, 2, 1}, {2, 0, 1}};
    int mid[][3] = {{2, 0, 2}, {2, 1, 1}};
    int big[][3] = {{2, 0, 3}, {2, 1, 2}, {2, 2, 1}, {3, 0, 2}};
    for (auto& s : small) {
      DenseGrid G(s[0], s[1], s[2]);
      R.family(G.name(), G.total, [&](ll i) { dense_case(G.get(i), i, kNumGuesses, 2, verdict); });
    }
    for (auto& s : mid) {
      DenseGrid G(s[0], s[1], s[2]);
      R.family(G.name(), G.total, [&](ll i) { dense_case(G.get(i), i, R.qt(P == "C12" ? 3 : 4, kNumGuesses), 2, verdict); });
    }
    if (T)
      for (auto& s : big) {
        DenseGrid G(s[0], s[1], s[2]);
        R.family(G.name(), G.total, [&](ll i) { dense_case(G.get(i), i, 4, 2, verdict); });
      }
    // larger shapes (vectorised and remainder code paths), all problems within k deviations
    int dev[][3] = {{3, 0, 4}, {3, 1, 3}, {4, 2, 3}, {5, 1, 6}, {4, 0, 7}};
    for (auto& s : dev)
      for (int kind = 0; kind < 3; kind++) {
        DenseDev V(s[0], s[1], s[2], kind, {-1, 0, 1, 3}, T ? 3 : 2);
        R.family(V.name(), V.size(), [&](ll i) { dense_case(V.get(i), i, R.qt(2, 4), 2, verdict); });
      }
    if (P == "C12")
      for (int lim = 1; lim < 8; lim++) {
        for (int kind = 0; kind < 3; kind++) {
          DenseDev V(3, 1, 3, kind, {-1, 0, 1, 3}, T ? 3 : 2);
          R.family(S() << V.name() << "-limits" << lim, V.size(), [&](ll i) { dense_case(V.get(i), i, R.qt(3, kNumGuesses), 1, false, lim); });
        }
        DenseGrid G(2, 0, 2);
        R.family(S() << G.name() << "-limits" << lim, T ? G.total : G.total / 9, [&](ll i) { dense_case(G.get(T ? i : i * 9 + lim), i, R.qt(2, 6), 1, false, lim); });
      }
  }
  if (mpc) {
    struct Shape {
      int N, nx, nu, nc, k, kt;
    };
    Shape sh[] = {{1, 1, 1, 1, 3, 4}, {2, 1, 1, 1, 2, 3}, {1, 2, 1, 1, 2, 3}, {1, 1, 2, 2, 2, 3}, {2, 2, 1, 2, 2, 3}, {3, 1, 1, 2, 2, 3}, {3, 2, 2, 1, 1, 2}, {2, 3, 2, 3, 1, 2}, {5, 2, 1, 2, 1, 2}};
    for (auto& s : sh)
      for (int kind = 0; kind < 3; kind++) {
        MpcSpace M(mpc_base(s.N, s.nx, s.nu, s.nc, kind), {-1, 0, 1, 2}, T ? s.kt : s.k);
        std::string nm = S() << "mpc-" << s.N << "-" << s.nx << "-" << s.nu << "-" << s.nc << "-b" << kind << "-k" << (T ? s.kt : s.k);
        // the exact classification of long horizons is too expensive: soundness checks only
        bool big = (s.nu * (s.N + 1) > 6 || s.nc * (s.N + 1) > 8);
        if (verdict && big) continue;
        int ng = R.qt(M.size() > 20000 ? 2 : 4, M.size() > 200000 ? 3 : kNumGuesses);
        R.family(nm, M.size(), [&](ll i) {
          MP mp = M.get(i);
          if (P == "C06") equiv_case(mp, i, ng, 2);
          else mpc_case(mp, i, ng, 2, verdict);
        });
        if (P == "C12" && !big)
          for (int lim = 1; lim < 8; lim++)
            R.family(S() << nm << "-limits" << lim, M.size() / 5, [&](ll i) { mpc_case(M.get(i * 5 + lim % 5), i, 2, 1, false, lim); });
      }
  }
  // shapes: problems of known status for every small shape, and some long horizons
  if (dense) {
    const int xn = R.qt(9, 12), xl = 4, xm = R.qt(12, 16);
    R.family("designed-dense", (ll)xn * xl * xm * 3 * kModes * 3, [&](ll i) {
      mc::Dec d(i);
      int at = d.digit(3), mode = d.digit(kModes), kind = d.digit(3), n = 1 + d.digit(xn), l = d.digit(xl), m = 1 + d.digit(xm);
      if (l > n || (l == n && mode != 0)) return;
      if (at && (mode == 0 || mode == 4)) return;
      Design g;
      QP p = design_dense(n, l, m, kind, mode, at == 0 ? 0 : at == 1 ? n + m - 1 : (n + m) / 2, &g);
      if (!g.ok) return;
      Plan plan;
      plan.guesses = R.qt(2, kNumGuesses), plan.designed = true;
      dense_run(p, g.st, g.pd, i, plan);
    });
    // options and magnitudes
    const double mag[] = {1e-3, verdict ? 10. : 1e3, verdict ? 100. : 1e6, 0.1};
    R.family("options-and-scales-dense", (ll)5 * 5 * 5 * 3 * 2 * (kVariants - 1 + 16), [&](ll i) {
      mc::Dec d(i);
      int var = 1 + d.digit(kVariants - 1 + 16), mode = d.digit(2) ? 3 : 0, kind = d.digit(3), n = 1 + d.digit(5), m = 1 + d.digit(5), at = d.digit(5);
      int l = (n + m) % 2 && n > 1 ? 1 : 0;
      if (at >= R.qt(3, 5)) return;
      if (at % 2) mode = mode ? 2 : 4;
      Design g;
      QP p = design_dense(n, l, m, kind, mode, at, &g);
      if (!g.ok) return;
      Plan plan;
      plan.must = false, plan.first = at % 4, plan.guesses = 3;
      if (var < kVariants) {
        plan.variant = var;
      } else {
        int k = var - kVariants;
        double s = mag[k % 4];
        if (k / 4 == 0) p.f *= s, p.h *= s, p.b *= s;
        if (k / 4 == 1) p.H *= s, p.f *= s;
        if (k / 4 == 2) p.A *= s, p.b *= s;
        if (k / 4 == 3) p.A.row(0) *= s, p.b(0) *= s;
      }
      dense_run(p, g.st, g.pd, i, plan);
    });
  }
  if (mpc) {
    const int Ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 25, 40};
    const int xN = R.qt(10, 12), xx = R.qt(3, 4), xu = 3, xc = R.qt(3, 4);
    R.family("designed-mpc", (ll)xN * xx * xu * xc * 3 * kModes * 3, [&](ll i) {
      mc::Dec d(i);
      int at = d.digit(3), mode = d.digit(kModes), kind = d.digit(3), nx = 1 + d.digit(xx), nu = 1 + d.digit(xu), nc = 1 + d.digit(xc), N = Ns[d.digit(xN)];
      if (at && (mode == 0 || mode == 4)) return;
      if (!R.thorough() && N > 5 && (nx + nu + nc + kind + mode) % 3 != N % 3) return;
      Design g;
      MP mp = design_mpc(N, nx, nu, nc, kind, mode, at == 0 ? 0 : at == 1 ? N + (N + 1) * (nc - 1) : N / 2, &g);
      if (!g.ok) return;
      if (P == "C06") {
        if (N <= R.qt(6, 16)) equiv_case(mp, i, R.qt(1, 3), 2, &g.st);
        return;
      }
      Plan plan;
      plan.guesses = R.qt(N > 5 ? 1 : 2, N > 11 ? 2 : 5);
      plan.first = (int)(i % 2), plan.designed = true;
      mpc_run(mp, expand(mp), g.st, g.pd, i, plan);
    });
    const double mag[] = {1e-3, verdict ? 10. : 1e3, verdict ? 100. : 1e6, 0.1};
    if (P == "C06")
      R.family("options-mpc", (ll)4 * 2 * 2 * 3 * 3 * 2 * (kVariants - 1), [&](ll i) {
        mc::Dec d(i);
        int var = 1 + d.digit(kVariants - 1), mode = d.digit(2) ? 3 : 0, kind = d.digit(3), nc = 1 + d.digit(3), nu = 1 + d.digit(2), nx = 1 + d.digit(2), N = 1 + d.digit(4);
        if ((N + nc) % 2) mode = mode ? 2 : 4;
        Design g;
        MP mp = design_mpc(N, nx, nu, nc, kind, mode, N + nx, &g);
        if (g.ok) equiv_case(mp, i, R.qt(2, 4), 2, &g.st, var);
      });
    else
      R.family("options-and-scales-mpc", (ll)4 * 2 * 2 * 3 * 3 * 2 * (kVariants - 1 + 12), [&](ll i) {
        mc::Dec d(i);
        int var = 1 + d.digit(kVariants - 1 + 12), mode = d.digit(2) ? 3 : 0, kind = d.digit(3), nc = 1 + d.digit(3), nu = 1 + d.digit(2), nx = 1 + d.digit(2), N = 1 + d.digit(4);
        if ((N + nc) % 2) mode = mode ? 2 : 4;
        Design g;
        MP mp = design_mpc(N, nx, nu, nc, kind, mode, N + nx, &g);
        if (!g.ok) return;
        Plan plan;
        plan.must = false, plan.first = (nx + nc) % 4, plan.guesses = R.qt(2, 4);
        auto times = [&](std::vector<MatrixXd>& v, double s) {
          for (auto& M : v) M *= s;
        };
        if (var < kVariants) {
          plan.variant = var;
        } else {
          int k = var - kVariants;
          double s = mag[k % 4];
          if (k / 4 == 0) times(mp.q, s), times(mp.r, s), times(mp.c, s), times(mp.d, s), mp.x0 *= s;
          if (k / 4 == 1) times(mp.Q, s), times(mp.R, s), times(mp.S, s), times(mp.q, s), times(mp.r, s);
          if (k / 4 == 2) times(mp.E, s), times(mp.L, s), times(mp.d, s);
        }
        mpc_run(mp, expand(mp), g.st, g.pd, i, plan);
      });
  }
  // every entry of the guess at every order of magnitude: the initial residual is the one of that guess
  if (P == "C12") {
    const int lo = -12, hi = 40, nd = 4, nm = 3;
    static const int sd[nd][3] = {{2, 1, 2}, {3, 1, 4}, {5, 2, 6}, {9, 3, 11}}, sm[nm][4] = {{1, 1, 1, 1}, {3, 2, 1, 2}, {6, 2, 2, 3}};
    R.family("guess-magnitudes", (ll)(nd + nm) * 2 * 2 * (hi - lo + 1) * 16, [&](ll i) {
      mc::Dec d(i);
      int block = d.digit(16);
      double v = (d.digit(2) ? -1.5 : 1.5) * std::pow(10., lo + d.digit(hi - lo + 1));
      int pr = d.digit(2), sh = (int)d.k;
      Design g;
      MP mp;
      QP p;
      if (sh < nd) p = design_dense(sd[sh][0], sd[sh][1], sd[sh][2], 2, 0, 0, &g);
      else mp = design_mpc(sm[sh - nd][0], sm[sh - nd][1], sm[sh - nd][2], sm[sh - nd][3], 2, 0, 0, &g), p = expand(mp);
      AlgorithmParameters o;
      pr ? o.ReliableParameters() : o.DefaultParameters();
      o.display_level = Display::OFF, o.max_newton_iters = 1;
      auto change = [&](VectorXd* x, int k) {  // whole block, or one of four entries
        for (int j = 0; j < x->size(); j++)
          if (k == 4 || j == (int)(x->size() - 1) * k / 3) (*x)(j) = v * (k == 4 ? 1 + 0.25 * (j % 3) : 1);
      };
      auto one = [&](auto& s, const auto& D, auto x) {
        auto w = s.DefaultOptions();
        static_cast<AlgorithmParameters&>(w) = o;
        s.UpdateOptions(w);
        set_guess(kGuesses[pr], &x);
        if (block < 15) change(block % 3 == 0 ? &x.z : block % 3 == 1 ? &x.l : &x.v, block / 3);
        else change(&x.z, 4), change(&x.l, 4), change(&x.v, 4);
        Case c{&p, sh < nd ? nullptr : &mp, &kGuesses[pr], o, pr, x.z, x.l, x.v};
        Result r = run(s, D, x);
        account(c, r, i, pr, pr);
        if (r.threw) return;
        R.validated++;
        double e = (double)kkt(p, c.z0, c.l0, c.v0, o.alpha).pen, data = 1 + p.H.cwiseAbs().sum() + p.A.cwiseAbs().sum() + p.G.cwiseAbs().sum() + inf(p.f) + inf(p.b) + inf(p.h);
        double tol = 1e-9 * e + 1e-13 * data * ((1 + inf(c.z0)) * (1 + inf(c.v0)) + inf(c.l0));
        if (!(std::abs(r.out.initial_residual - e) <= tol)) R.fail(S() << "initial residual " << r.out.initial_residual << " but the guess has " << e << ": " << tell(c, r));
      };
      if (sh < nd) {
        FBstabDense s(p.n, p.l, p.m);
        one(s, data(p), FBstabDense::Variable(p.n, p.l, p.m));
      } else {
        FBstabMpc s(mp.N, mp.nx, mp.nu, mp.nc);
        one(s, data(mp), FBstabMpc::Variable(mp.N, mp.nx, mp.nu, mp.nc));
      }
    });
  }
  // beyond the sizes at which blocking, unrolling and fixed buffers change
  if (dense)
    R.family("large-dense", (ll)nLargeD * 3 * kModes * 2, [&](ll i) {
      mc::Dec d(i);
      int at = d.digit(2), mode = d.digit(kModes), kind = d.digit(3);
      const int* s = kLargeD[d.k];
      if (s[1] >= s[0] && mode != 0) return;
      if (at && (mode == 0 || mode == 4)) return;
      Design g;
      QP p = design_dense(s[0], s[1], s[2], kind, mode, at ? s[0] * s[2] - 1 : 3, &g);
      if (!g.ok) return;
      Plan plan;
      plan.guesses = R.qt(4, kNumGuesses), plan.designed = true, plan.must = g.pd && g.st.bounded(), plan.near = 1;
      dense_run(p, g.st, g.pd, i, plan);
    });
  if (mpc)
    R.family("large-mpc", (ll)nLargeM * 3 * kModes * 2, [&](ll i) {
      mc::Dec d(i);
      int at = d.digit(2), mode = d.digit(kModes), kind = d.digit(3);
      const int* s = kLargeM[d.k];
      if (at && (mode == 0 || mode == 4)) return;
      Design g;
      MP mp = design_mpc(s[0], s[1], s[2], s[3], kind, mode, at ? s[0] + (s[0] + 1) * (s[3] - 1) : s[0] / 2, &g);
      if (!g.ok) return;
      if (P == "C06") {
        if (!T && mp.nz() > 210) return;
        equiv_case(mp, i, 1, 2, &g.st);
        return;
      }
      Plan plan;
      plan.guesses = R.qt(4, kNumGuesses), plan.designed = true, plan.must = g.pd && g.st.bounded(), plan.near = 1;
      mpc_run(mp, expand(mp), g.st, g.pd, i, plan);
    });
  return R.finish();
}
