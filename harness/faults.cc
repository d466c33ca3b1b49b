// C18: every failure point of the linear solver, and every sequence of up to two (three) corrupted Newton
// directions, over problems x guesses x presets; afterwards the same solver object solves without faults.
#include <limits>

#include "tap.h"

using namespace qp;
using fbstab::ExitFlag;
using mc::S;
static mc::Run R;

static const char* kKind[] = {"zero", "reversed", "times 10", "times 0.001", "constant 1000", "negated dual part", "without primal part", "NaN", "infinite"};
enum { kKinds = 9, kFinite = 7 };
static void corrupt(int kind, FullVariable* dx) {
  const double inf = std::numeric_limits<double>::infinity();
  auto each = [&](double a) { dx->z() *= a, dx->l() *= a, dx->v() *= a; };
  switch (kind) {
    case 0: dx->z().setZero(), dx->l().setZero(), dx->v().setZero(); break;
    case 1: each(-1); break;
    case 2: each(10); break;
    case 3: each(1e-3); break;
    case 4: dx->z().setConstant(1000), dx->l().setConstant(1000), dx->v().setConstant(1000); break;
    case 5: dx->v() *= -1, dx->l() *= -1; break;
    case 6: dx->z().setZero(); break;
    case 7: dx->z()(dx->z().size() - 1) = std::numeric_limits<double>::quiet_NaN(); break;
    default: dx->v()(0) = inf; break;
  }
  dx->InitializeConstraintMargin();  // a direction always carries the margin of its primal part
}

struct Cfg {
  const Prob* q;
  int guess, preset_;
  AlgorithmParameters o;
  Point g;
  Result clean;
  int inits, solves;
  std::string where;
};
static Cfg config(const Prob& q, int guess, int pre, const AlgorithmParameters* o = nullptr) {
  Cfg c;
  c.q = &q, c.guess = guess, c.preset_ = pre;
  c.o = o ? *o : preset(pre);
  c.g = guess_of(q, guess);
  TapSolver s(q);
  s.options(c.o);
  c.clean = s.solve(q, c.g);
  c.inits = s.tap.inits, c.solves = s.tap.solves;
  c.where = S() << (pre ? "reliable" : "default") << " guess " << kGuesses[guess].name << " on " << show(q);
  return c;
}
static void usable_again(TapSolver& s, const Cfg& c, const std::string& what) {
  s.tap.reset();
  Result r = s.solve(*c.q, c.g);
  R.transitions += r.threw ? 1 : 1 + r.out.newton_iters;
  if (!same_result(r, c.clean)) R.fail(S() << "after " << what << " the solver no longer gives the same result: " << show(r) << " instead of " << show(c.clean) << " | " << c.where);
}

// the k-th factorization (how=0) or solve (how=1) fails; how=2: both fail from k on until the next call
static void fail_at(const Cfg& c, int how, int k) {
  if (k >= (how == 0 ? c.inits : c.solves)) return R.note("position-not-reached");
  TapSolver s(*c.q);
  s.options(c.o);
  if (how == 0) s.tap.init = [&](int i, const FullVariable&, const FullVariable&, double) { return i != k; };
  else s.tap.solve = [&](int i, FullVariable* dx) {
    if (i == k) dx->Fill(std::numeric_limits<double>::quiet_NaN());  // nothing may be used
    return i != k;
  };
  Result r = s.solve(*c.q, c.g);
  std::string what = S() << (how == 0 ? "factorization " : "linear solve ") << k << " failing";
  R.validated++, R.transitions += k + 1;
  R.state(mc::fnv(&k, 4, mc::fnv(&how, 4, mc::fnv(c.where.data(), c.where.size()))));
  if (R.want_sample) R.sample(S() << what << " | " << c.where << " -> " << show(r));
  if (!r.threw) return R.fail(S() << what << " does not end the solve with a runtime error: " << show(r) << " | " << c.where);
  if (!same_bits(r.x, c.g)) return R.fail(S() << what << " changes the caller's vectors: " << show(r) << " | " << c.where);
  if (r.what.empty()) return R.fail(S() << what << " gives an empty message | " << c.where);
  usable_again(s, c, what);
  R.note("failures");
}

// The second documented stopping test: the proximal step was short and led to a better point (up to the
// projection of the multipliers, which moves the point by no more than the step).  (Corrupted
// steps can lead a subproblem back to an earlier, not yet accurate point; nothing else gets here.)
static bool stalled(const Cfg& c, const Result& r, const Point& centre) {
  const QP& p = c.q->p;
  double step = std::sqrt((r.x.z - centre.z).squaredNorm() + (r.x.l - centre.l).squaredNorm() + (r.x.v - centre.v).squaredNorm());
  if (!(step > 0 && step <= c.o.stall_tol * (1 + 1e-9))) return false;
  double now = (double)kkt(p, r.x.z, r.x.l, r.x.v, c.o.alpha).pen, before = (double)kkt(p, centre.z, centre.l, centre.v, c.o.alpha).pen;
  R.note("stalled-early");
  return now <= before + 100 * c.o.stall_tol * magnitude(p, r.x) && std::fabs(now - r.out.residual) <= 1e-9 * magnitude(p, r.x);
}

static void corrupted(const Cfg& c, const std::vector<std::pair<int, int>>& faults) {
  TapSolver s(*c.q);
  s.options(c.o);
  int hit = 0;
  uint64_t h = 3;
  Point centre;
  s.tap.init = [&](int, const FullVariable&, const FullVariable& xbar, double) {
    centre.z = xbar.z(), centre.l = xbar.l(), centre.v = xbar.v(), centre.y = xbar.y();
    return true;
  };
  s.tap.solve = [&](int i, FullVariable* dx) {
    for (auto& f : faults)
      if (f.first == i) corrupt(f.second, dx), hit++;
    h = mc::fnv(dx->z().data(), dx->z().size() * 8, mc::fnv(dx->v().data(), dx->v().size() * 8, h));
    R.state(h);
    return true;
  };
  Result r = s.solve(*c.q, c.g);
  R.transitions += r.threw ? 1 : 1 + r.out.newton_iters;
  if (hit < (int)faults.size()) return R.note("position-not-reached");
  R.validated++;
  std::string what = "corrupted directions";
  bool finite_only = true;
  for (auto& f : faults) {
    what += S() << " [" << f.first << ": " << kKind[f.second] << "]";
    finite_only = finite_only && f.second < kFinite;
  }
  std::string tail = S() << ": " << show(r) << " | " << what << " | without: " << show(c.clean) << " | " << c.where, why;
  if (R.want_sample) R.sample(tail);
  if (r.other) return R.fail("unexpected exception" + tail);
  if (r.threw) {
    R.note(finite_only ? "threw-finite" : "threw-nonfinite");
    if (!same_bits(r.x, c.g)) return R.fail("an exception changes the caller's vectors" + tail);
  } else {
    R.note(std::string(finite_only ? "finite-" : "nonfinite-") + flag(r.out.eflag));
    switch (r.out.eflag) {
      case ExitFlag::SUCCESS:
        if (!optimal(c.q->p, r.x, c.o, &why) && !stalled(c, r, centre)) return R.fail(S() << "success with a wrong point (" << why << ")" << tail);
        break;
      case ExitFlag::MAXITERATIONS:
        if (r.out.newton_iters < c.o.max_newton_iters && r.out.prox_iters < c.o.max_prox_iters) return R.fail("iteration limit reported although no limit was reached" + tail);
        break;
      default:
        if (!verdict_ok(*c.q, r.out.eflag)) return R.fail("wrong verdict" + tail);
        if (r.out.eflag != ExitFlag::DUAL_INFEASIBLE && !primal_certificate(c.q->p, r.x.l, r.x.v, c.o.infeas_tol, &why)) return R.fail("invalid infeasibility certificate (" + why + ")" + tail);
        if (r.out.eflag != ExitFlag::PRIMAL_INFEASIBLE && !dual_certificate(c.q->p, r.x.z, c.o.infeas_tol, &why)) return R.fail("invalid unboundedness certificate (" + why + ")" + tail);
    }
    if (r.out.newton_iters > c.o.max_newton_iters || r.out.prox_iters > c.o.max_prox_iters) return R.fail("a counter exceeds its limit" + tail);
  }
  // with the robust preset, finite corruption only costs progress
  if (finite_only && c.preset_ == 1 && !c.clean.threw && c.clean.out.eflag != ExitFlag::MAXITERATIONS && (r.threw || r.out.eflag == ExitFlag::MAXITERATIONS)) return R.note("robust-no-verdict");
  usable_again(s, c, what);
}

// ---- data whose factorization really breaks down --------------------------------------------------------
// Non-convex costs: one negative curvature at every position of every stage, at every size.  A linear solver
// may report failure; when it reports success the step must solve the documented system (see C08).
static double worst_break = 0;
static std::string step_error(const QP& p, const VectorXd& y, const VectorXd& v, double sigma, double alpha, const VectorXd& rz, const VectorXd& rl, const VectorXd& rv, const FullVariable& dx) {
  typedef long double ld;
  VecL dz = dx.z().cast<ld>(), dl = dx.l().cast<ld>(), dv = dx.v().cast<ld>();
  Point st;
  st.z = dx.z(), st.l = dx.l(), st.v = dx.v(), st.y = VectorXd::Zero(p.m);
  if (!finite(st)) return "a step that is not finite";
  MatL H = p.H.cast<ld>(), A = p.A.cast<ld>(), G = p.G.cast<ld>();
  VecL e1 = H * dz + (ld)sigma * dz + A.transpose() * dv - rz.cast<ld>();
  VecL s1 = H.cwiseAbs() * dz.cwiseAbs() + A.cwiseAbs().transpose() * dv.cwiseAbs() + rz.cwiseAbs().cast<ld>();
  VecL e2 = (ld)sigma * dl - rl.cast<ld>(), s2 = (ld)sigma * dl.cwiseAbs() + rl.cwiseAbs().cast<ld>();
  if (p.l) e1 += G.transpose() * dl, s1 += G.cwiseAbs().transpose() * dl.cwiseAbs(), e2 -= G * dz, s2 += G.cwiseAbs() * dz.cwiseAbs();
  VecL Az = A * dz, sA = A.cwiseAbs() * dz.cwiseAbs(), e3(p.m), s3(p.m);
  for (int i = 0; i < p.m; i++) {
    ld a = y(i), b = v(i), r = sqrtl(a * a + b * b), g = alpha * (1 - a / r), m = alpha * (1 - b / r);
    if (a > 0 && b > 0) g += (1 - (ld)alpha) * b, m += (1 - (ld)alpha) * a;
    e3(i) = -g * Az(i) + (m + sigma * g) * dv(i) - rv(i);
    s3(i) = g * sA(i) + (m + sigma * g) * fabsl(dv(i)) + fabsl((ld)rv(i));
  }
  ld top = std::max(s1.maxCoeff(), std::max(p.l ? s2.maxCoeff() : 0, s3.maxCoeff()));
  ld err = std::max(e1.cwiseAbs().maxCoeff(), std::max(p.l ? e2.cwiseAbs().maxCoeff() : 0, e3.cwiseAbs().maxCoeff()));
  worst_break = std::max(worst_break, (double)(err / top));
  if (err <= 1e-4L * top) return "";
  return mc::S() << "a step that leaves " << (double)err << " of its equations (whose terms reach " << (double)top << ") | step " << show(st);
}
template <class Lin, class Data>
static void breakdown(const QP& p, Lin& lin, const Data& d, const std::string& what, int pair, double sigma) {
  static const double kP[][2] = {{3, 0.001}, {1, -1}, {-1, 1}, {1, 1}, {0.002, 2}, {50, 0.0001}};
  const double alpha = 0.95;
  FullVariable x(p.n, p.l, p.m), dx(p.n, p.l, p.m);
  FullResidual r(p.n, p.l, p.m);
  x.LinkData(&d), dx.LinkData(&d), r.LinkData(&d), lin.LinkData(&d);
  lin.SetAlpha(alpha);
  for (int i = 0; i < p.m; i++) {
    const double* q = kP[pair < 6 ? pair : (i * (pair - 5) + pair) % 6];
    x.y()(i) = q[0], x.v()(i) = q[1];
  }
  R.transitions++, R.validated++;
  if (!lin.Initialize(x, x, sigma)) return R.note("breakdown-reported-by-the-factorization");
  for (int i = 0; i < p.n; i++) r.z()(i) = 1 + (i * 5) % 3 * 0.7;
  for (int i = 0; i < p.l; i++) r.l()(i) = -0.8 + (i * 3) % 4;
  for (int i = 0; i < p.m; i++) r.v()(i) = 0.6 - (i * 2) % 3;
  dx.Fill(7);
  if (!lin.Solve(r, &dx)) return R.note("breakdown-reported-by-the-solve");
  R.state(mc::fnv(dx.z().data(), p.n * 8, mc::fnv(what.data(), what.size())));
  R.note("steps-on-nonconvex-data");
  std::string why = step_error(p, x.y(), x.v(), sigma, alpha, r.z(), r.l(), r.v(), dx);
  if (!why.empty()) R.fail(mc::S() << "success reported with " << why << " | sigma=" << sigma << " y=" << vec(x.y()) << " v=" << vec(x.v()) << " on " << what);
}
// a whole solve of such a problem: it throws and changes nothing, or what it returns is what it says
static void breakdown_solve(const Prob& bad, const Prob& good, int guess, int pre) {
  Solver s(good), ref(good);
  AlgorithmParameters o = preset(pre);
  s.options(o), ref.options(o);
  Point g = guess_of(good, guess);
  Result want = ref.record(good, g), r = s.record(bad, g), again = s.record(good, g);
  R.validated += 2, R.transitions += 3;
  R.state(mc::fnv(r.x.z.data(), r.x.z.size() * 8, mc::fnv(bad.name.data(), bad.name.size())));
  std::string why, tail = mc::S() << ": " << show(r) << " | " << (pre ? "reliable" : "default") << " guess " << guess << " on " << show(bad);
  if (r.other) return R.fail("unexpected exception" + tail);
  R.note(r.threw ? "nonconvex-threw" : std::string("nonconvex-") + flag(r.out.eflag));
  if (r.threw && !same_bits(r.x, g)) return R.fail("an exception changes the caller's vectors" + tail);
  if (!r.threw && r.out.eflag == ExitFlag::SUCCESS && !optimal(bad.p, r.x, o, &why)) return R.fail("success with a wrong point (" + why + ")" + tail);
  if (!r.threw && r.out.eflag == ExitFlag::PRIMAL_INFEASIBLE && !primal_certificate(bad.p, r.x.l, r.x.v, o.infeas_tol, &why)) return R.fail("invalid infeasibility certificate (" + why + ")" + tail);
  if (!same_result(again, want)) return R.fail(mc::S() << "afterwards a convex problem gives " << show(again) << " instead of " << show(want) << " | after" << tail);
}
static const double kCurv[] = {-0.37, -3.1, -50.3, -1e4};
// position: which diagonal entry of which stage's cost
static MP bent(const MP& mp, int stage, int pos, double c, double cross) {
  MP r = mp;
  if (pos < mp.nx) r.Q[stage](pos, pos) = c;
  else r.R[stage](pos - mp.nx, pos - mp.nx) = c;
  if (cross != 0) r.S[stage](0, 0) = cross;
  return r;
}

// Data that are not finite: one entry of any matrix or vector.  Nothing may be called solved, and a verdict
// needs a certificate that does not involve the entry.
static int entries(const Prob& q) {
  const MP& m = q.mp;
  if (!q.mpc) return (int)(q.p.H.size() + q.p.f.size() + q.p.G.size() + q.p.h.size() + q.p.A.size() + q.p.b.size());
  return (m.N + 1) * (m.nx * m.nx + m.nu * m.nu + m.nx * m.nu + m.nx + m.nu + m.nc * (m.nx + m.nu + 1)) + m.N * m.nx * (m.nx + m.nu + 1) + m.nx;
}
static Prob poisoned(const Prob& q, int at, double value) {
  Prob r = q;
  auto in = [&](double* p, long n) {
    if (at >= 0 && at < n) p[at] = value;
    at -= (int)n;
  };
  if (q.mpc) {
    for (auto* seq : {&r.mp.Q, &r.mp.R, &r.mp.S, &r.mp.q, &r.mp.r, &r.mp.A, &r.mp.B, &r.mp.c, &r.mp.E, &r.mp.L, &r.mp.d})
      for (auto& m : *seq) in(m.data(), m.size());
    in(r.mp.x0.data(), r.mp.x0.size());
    r.p = expand(r.mp);
  } else {
    in(r.p.H.data(), r.p.H.size()), in(r.p.f.data(), r.p.f.size()), in(r.p.G.data(), r.p.G.size()), in(r.p.h.data(), r.p.h.size()), in(r.p.A.data(), r.p.A.size()), in(r.p.b.data(), r.p.b.size());
  }
  return r;
}
static void poison(const Prob& q, int at, int kind, int guess, int pre) {
  const double inf_ = std::numeric_limits<double>::infinity(), val[] = {std::numeric_limits<double>::quiet_NaN(), inf_, -inf_, 1e200, -1e200};
  Prob bad = poisoned(q, at, val[kind]);
  Solver s(q), ref(q);
  AlgorithmParameters o = preset(pre);
  s.options(o), ref.options(o);
  Point g = guess_of(q, guess);
  Result want = ref.record(q, g), r = s.record(bad, g), again = s.record(q, g);
  R.validated += 2, R.transitions += 3;
  R.state(mc::fnv(&at, 4, mc::fnv(&kind, 4, mc::fnv(q.name.data(), q.name.size(), 10 * guess + pre))));
  std::string why, tail = mc::S() << ": " << show(r) << " | " << (pre ? "reliable" : "default") << " guess " << guess << " on " << show(bad);
  if (r.other) return R.fail("unexpected exception" + tail);
  R.note(r.threw ? "nonfinite-data-threw" : std::string("nonfinite-data-") + flag(r.out.eflag));
  if (r.threw && !same_bits(r.x, g)) return R.fail("an exception changes the caller's vectors" + tail);
  if (!r.threw) {
    if (r.out.eflag == ExitFlag::SUCCESS) {
      if (kind < 3) return R.fail("success on data that are not finite" + tail);
      // huge data: sums of squares overflow in double precision, not here
      VecL f = bad.p.f.cast<long double>(), h = bad.p.h.cast<long double>(), b = bad.p.b.cast<long double>();
      long double c = o.abs_tol + (long double)o.rel_tol * (1 + sqrtl(f.squaredNorm() + h.squaredNorm() + b.squaredNorm()));
      if (!finite(r.x.z) || !finite(r.x.l) || !finite(r.x.v)) return R.fail("success at a point that is not finite" + tail);
      Kkt k = kkt(bad.p, r.x.z, r.x.l, r.x.v, o.alpha);
      long double eps = 1e-13L * magnitude(bad.p, r.x);
      if (!(k.rz <= c / o.alpha * 1.001L + eps && k.rl <= c / o.alpha * 1.001L + eps && k.rv <= c / o.alpha * 1.001L + eps)) return R.fail(mc::S() << "success although the residual is not small against " << (double)c << tail);
    }
    if (r.out.newton_iters > o.max_newton_iters || r.out.prox_iters > o.max_prox_iters) return R.fail("a counter exceeds its limit" + tail);
    if (r.out.eflag == ExitFlag::PRIMAL_INFEASIBLE && !primal_certificate(bad.p, r.x.l, r.x.v, o.infeas_tol, &why)) return R.fail("invalid infeasibility certificate (" + why + ")" + tail);
    if (r.out.eflag == ExitFlag::DUAL_INFEASIBLE && !dual_certificate(bad.p, r.x.z, o.infeas_tol, &why)) return R.fail("invalid unboundedness certificate (" + why + ")" + tail);
  }
  if (!same_result(again, want)) return R.fail(mc::S() << "afterwards a finite problem gives " << show(again) << " instead of " << show(want) << " | after" << tail);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  std::vector<Prob> lib = dense_library();
  for (auto& p : mpc_library()) lib.push_back(p);
  const int F = T ? 40 : 25, P = T ? 16 : 10, ng = T ? kNumGuesses : 3;
  for (auto& q : lib) {
    std::vector<Cfg> cs;
    for (int g = 0; g < ng; g++)
      for (int pre = 0; pre < 2; pre++) cs.push_back(config(q, g, pre));
    R.family(S() << "failing-" << q.name, (mc::ll)cs.size() * 2 * F, [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit((int)cs.size()), how = d.digit(2), k = d.digit(F);
      fail_at(cs[c], how, k);
    });
    R.family(S() << "one-corrupted-" << q.name, (mc::ll)cs.size() * 2 * P * kKinds, [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit((int)cs.size()), k = d.digit(2 * P), kind = d.digit(kKinds);
      corrupted(cs[c], {{k, kind}});
    });
    size_t two = T ? cs.size() : 2;  // quick: zero guess, both presets
    R.family(S() << "two-corrupted-" << q.name, (mc::ll)two * P * P * kKinds * kKinds, [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit((int)two), a = d.digit(P), b = d.digit(P), ka = d.digit(kKinds), kb = d.digit(kKinds);
      if (a >= b || ka >= kFinite) return;  // after a non-finite step nothing finite is left to corrupt
      corrupted(cs[c], {{a, ka}, {b, kb}});
    });
    if (T) {
      const int Q = 6;
      R.family(S() << "three-corrupted-" << q.name, 2ll * Q * Q * Q * kFinite * kFinite * kFinite, [&](mc::ll i) {
        mc::Dec d(i);
        int c = d.digit(2), a = d.digit(Q), b = d.digit(Q), e = d.digit(Q), ka = d.digit(kFinite), kb = d.digit(kFinite), ke = d.digit(kFinite);
        if (a >= b || b >= e) return;
        corrupted(cs[c], {{a, ka}, {b, kb}, {e, ke}});
      });
    }
  }
  // larger problems
  for (auto& q : designed_library(T ? 1 : 0)) {
    std::vector<Cfg> cs;
    for (int g = 0; g < 2; g++)
      for (int pre = 0; pre < 2; pre++) cs.push_back(config(q, g, pre));
    R.family(S() << "failing-" << q.name, (mc::ll)cs.size() * 2 * F, [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit((int)cs.size()), how = d.digit(2), k = d.digit(F);
      fail_at(cs[c], how, k);
    });
    R.family(S() << "one-corrupted-" << q.name, (mc::ll)cs.size() * 2 * P * kKinds, [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit((int)cs.size()), k = d.digit(2 * P), kind = d.digit(kKinds);
      corrupted(cs[c], {{k, kind}});
    });
    if (T) lib.push_back(q);
  }
  for (auto& q : large_library(1)) {
    std::vector<Cfg> cs;
    for (int pre = 0; pre < 2; pre++) cs.push_back(config(q, 0, pre));
    R.family(S() << "failing-" << q.name, 2ll * 2 * (T ? F : 8), [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit(2), how = d.digit(2), k = (int)d.k;
      fail_at(cs[c], how, T ? k : k < 4 ? k : 3 * k - 8);
    });
    R.family(S() << "one-corrupted-" << q.name, (T ? 2ll * 12 : 3) * kKinds, [&](mc::ll i) {
      mc::Dec d(i);
      int kind = d.digit(kKinds), c = T ? d.digit(2) : (int)(i % 2), k = (int)d.k;
      corrupted(cs[c], {{T ? k : k * k + k, kind}});
    });
  }
  for (auto& q : lib) {
    int n = entries(q);
    R.family(S() << "nonfinite-data-" << q.name, (mc::ll)n * 5 * 3 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int pre = d.digit(2), g = d.digit(3), kind = d.digit(5);
      poison(q, (int)d.k, kind, g, pre);
    });
  }
  // failures late in a solve that nothing but its limits ends
  for (auto& q : lib) {
    static const int kInner[] = {150, 1, 3};
    std::vector<Cfg> cs;
    for (int inner : kInner) {
      AlgorithmParameters o = preset(0);
      o.abs_tol = o.rel_tol = o.stall_tol = 0, o.inner_tol_min = 1e-14, o.check_feasibility = false;
      o.max_inner_iters = inner, o.max_newton_iters = 1300, o.max_prox_iters = inner == 3 ? 300 : 2000;
      Cfg c = config(q, 0, 0, &o);
      c.where = S() << "zero tolerances, inner limit " << inner << " on " << show(q);
      cs.push_back(c);
    }
    R.family(S() << "failing-late-" << q.name, 3ll * 2 * (T ? 600 : 150), [&](mc::ll i) {
      mc::Dec d(i);
      int c = d.digit(3), how = d.digit(2), k = (int)d.k;
      fail_at(cs[c], how, T ? 2 * k + 1 : k < 132 ? k : 132 + (k - 132) * 67);
    });
  }
  // data whose factorization breaks down
  {
    const int xs = T ? 3 : 2, Ns[] = {1, 2, 3, 6, 12}, xN = T ? 5 : 4, np = T ? 12 : 9;
    static const double kS[] = {1e-2, 1e-4, 1, 1e-6};
    R.family("breakdown-riccati", (mc::ll)xN * xs * xs * 2 * np * 4 * 3 * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int sg = d.digit(4), cr = d.digit(3), cu = d.digit(4), pair = d.digit(np), nc = 1 + d.digit(2), nu = 1 + d.digit(xs), nx = 1 + d.digit(xs), N = Ns[d.digit(xN)];
      if (sg > 2 && !T) return;
      Design g;
      MP base = design_mpc(N, nx, nu, nc, 0, 0, 0, &g);
      for (int stage = 0; stage <= N; stage++)
        for (int pos = 0; pos < nx + nu && !R.violated; pos++) {
          if (N > 3 && stage > 1 && stage < N - 1 && (stage + pos) % 3) continue;
          MP mp = bent(base, stage, pos, kCurv[cu], cr == 0 ? 0 : cr == 1 ? 1.7 : -6.3);
          QP p = expand(mp);
          auto D = data(mp);
          MpcData dd(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
          RiccatiLinearSolver lin(N, nx, nu, nc);
          breakdown(p, lin, dd, show(mp), pair, kS[sg]);
        }
    });
    const int xn = T ? 5 : 4;
    R.family("breakdown-dense", (mc::ll)xn * 3 * 3 * np * 5 * 3 * 3, [&](mc::ll i) {
      mc::Dec d(i);
      int sg = d.digit(3), cr = d.digit(3), cu = d.digit(5), pair = d.digit(np), m = 1 + d.digit(3), l = d.digit(3), n = 1 + d.digit(xn);
      if (l > n) return;
      Design g;
      QP base = design_dense(n, l, m, 0, 0, 0, &g);
      for (int pos = 0; pos < n && !R.violated; pos++) {
        QP p = base;
        p.H(pos, pos) = cu < 4 ? kCurv[cu] : -kS[sg];  // the last one cancels the regularization
        if (cr) p.H(pos, (pos + 1) % n) = p.H((pos + 1) % n, pos) = n > 1 ? (cr == 1 ? 1.7 : -6.3) : p.H(pos, pos);
        if (cu == 4 && cr == 2 && n > 1) p.A.setZero(), p.H((pos + 1) % n, (pos + 1) % n) = -kS[sg];
        auto D = data(p);
        DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
        DenseCholeskySolver lin(n, l, m);
        breakdown(p, lin, dd, show(p), pair, kS[sg]);
      }
    });
    R.family("breakdown-solves", (mc::ll)xN * xs * xs * 2 * 4 * 3 * 6, [&](mc::ll i) {
      mc::Dec d(i);
      int v = d.digit(6), cr = d.digit(3), cu = d.digit(4), nc = 1 + d.digit(2), nu = 1 + d.digit(xs), nx = 1 + d.digit(xs), N = Ns[d.digit(xN)];
      Design g;
      Prob good;
      good.mp = design_mpc(N, nx, nu, nc, 0, 0, 0, &g), good.p = expand(good.mp), good.mpc = true, good.st = g.st, good.pd = g.pd;
      for (int stage = 0; stage <= N; stage++)
        for (int pos = 0; pos < nx + nu && !R.violated; pos++) {
          if (N > 3 && stage > 1 && stage < N - 1 && (stage + pos) % 3) continue;
          Prob bad = good;
          bad.mp = bent(good.mp, stage, pos, kCurv[cu], cr == 0 ? 0 : cr == 1 ? 1.7 : -6.3), bad.p = expand(bad.mp);
          breakdown_solve(bad, good, v % 3, v / 3);
        }
    });
  }
  // whole blocks of consecutive corrupted steps
  for (auto& q : lib) {
    R.family(S() << "blocks-" << q.name, 2ll * 3 * 8 * 8 * kKinds, [&](mc::ll i) {
      mc::Dec d(i);
      int pre = d.digit(2), g = d.digit(3), a = d.digit(8), len = 1 + d.digit(8), kind = d.digit(kKinds);
      std::vector<std::pair<int, int>> f;
      for (int k = 0; k < len; k++) f.push_back({a + k, kind});
      corrupted(config(q, g, pre), f);
    });
  }
  R.note("worst-step-error-on-nonconvex-data-1e-12", (mc::ll)std::min(worst_break * 1e12, 1e15));
  return R.finish();
}
