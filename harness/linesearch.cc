// C20: every Newton step of every explored solve is observed at the linear-solver interface and checked
// against the documented globalisation; directions are also distorted to exercise the backtracking.
#include "tap.h"

using namespace qp;
using fbstab::ExitFlag;
using mc::S;
static mc::Run R;
typedef long double ld;

struct Pt {
  VecL z, l, v, y;
};
static Pt take(const FullVariable& x) {
  Pt p;
  p.z = x.z().cast<ld>(), p.l = x.l().cast<ld>(), p.v = x.v().cast<ld>(), p.y = x.y().cast<ld>();
  return p;
}
struct Step {
  Pt x, bar, dx;
  bool at_centre = false, same_centre = false;  // x equals its centre; centre equals the previous one
  double sigma = 0;
};
struct Lin {  // long double copies of the data
  MatL H, G, A;
  VecL f, h, b;
  explicit Lin(const QP& p) : H(p.H.cast<ld>()), G(p.G.cast<ld>()), A(p.A.cast<ld>()), f(p.f.cast<ld>()), h(p.h.cast<ld>()), b(p.b.cast<ld>()) {}
};
struct Value {
  ld norm, err;  // residual norm, bound on what double evaluation may differ
};
// The regularized Fischer-Burmeister residual of the proximal subproblem.
static Value inner(const Lin& d, const Pt& x, const Pt& bar, double s, double alpha) {
  VecL rz = d.H * x.z + d.f + d.A.transpose() * x.v + s * (x.z - bar.z);
  ld sq = 0, mag = d.H.cwiseAbs().sum() * x.z.cwiseAbs().maxCoeff() + d.f.cwiseAbs().maxCoeff() + d.A.cwiseAbs().sum() * (x.v.cwiseAbs().maxCoeff() + x.z.cwiseAbs().maxCoeff()) + d.b.cwiseAbs().maxCoeff();
  if (d.h.size()) {
    rz += d.G.transpose() * x.l;
    VecL rl = d.h - d.G * x.z + s * (x.l - bar.l);
    sq += rl.squaredNorm();
    mag += d.G.cwiseAbs().sum() * (x.l.cwiseAbs().maxCoeff() + x.z.cwiseAbs().maxCoeff()) + d.h.cwiseAbs().maxCoeff();
  }
  sq += rz.squaredNorm();
  ld big = 0;
  for (int i = 0; i < x.v.size(); i++) {
    ld a = x.y(i) + s * (x.v(i) - bar.v(i)), b = x.v(i);
    ld fb = alpha * (a + b - std::sqrt(a * a + b * b)) + (1 - alpha) * std::max<ld>(0, a) * std::max<ld>(0, b);
    big += std::fabs(a) + std::fabs(b) + std::fabs(fb);
    sq += fb * fb;
  }
  Value r;
  r.norm = std::sqrt(sq);
  r.err = 2e-15L * (mag + big) * (1 + x.v.cwiseAbs().maxCoeff() * (1 - alpha));
  return r;
}
static Value outer(const Lin& d, const Pt& x, double alpha) {
  VecL rz = d.H * x.z + d.f + d.A.transpose() * x.v;
  Pt zero = x;
  Value e = inner(d, x, zero, 0, alpha);
  ld sq = 0;
  if (d.h.size()) rz += d.G.transpose() * x.l, sq += (d.h - d.G * x.z).squaredNorm();
  sq += rz.squaredNorm();
  for (int i = 0; i < x.v.size(); i++) {
    ld w = alpha * std::min(x.y(i), x.v(i)) + (1 - alpha) * std::max<ld>(0, x.y(i)) * std::max<ld>(0, x.v(i));
    sq += w * w;
  }
  e.norm = std::sqrt(sq);
  return e;
}
static Pt moved(const Lin& d, const Pt& x, ld t, const Pt& dx) {
  Pt r;
  r.z = x.z + t * dx.z, r.l = x.l + t * dx.l, r.v = x.v + t * dx.v, r.y = x.y - t * (d.A * dx.z);
  return r;
}
static ld norm_inf(const VecL& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0L; }
static ld dist(const Pt& a, const Pt& b) { return std::max(std::max(norm_inf(a.z - b.z), norm_inf(a.l - b.l)), norm_inf(a.v - b.v)); }
static ld size_of(const Pt& a) { return std::max(std::max(norm_inf(a.z), norm_inf(a.l)), norm_inf(a.v)); }
static bool finite_pt(const Pt& a) { return std::isfinite((double)size_of(a)) && std::isfinite((double)norm_inf(a.y)); }
static Pt projected(Pt a) {
  a.v = a.v.cwiseMax(0.0L);
  return a;
}

static void distort(int kind, int k, FullVariable* dx) {
  ld a = 1;
  switch (kind) {
    case 1: a = 6; break;
    case 2: a = -1; break;
    case 3: a = k % 2 ? 3 : 0.25; break;
    case 4: dx->v() *= 2.5; break;
    case 5: dx->z() *= (k % 3 == 0 ? -0.5 : 1.0), dx->l() *= 1.5; break;
    default: return;
  }
  dx->z() *= (double)a, dx->l() *= (double)a, dx->v() *= (double)a;
  dx->InitializeConstraintMargin();
}

static void check(const Prob& q, const AlgorithmParameters& o, const Point& g, int kind, const std::string& what) {
  TapSolver s(q);
  s.options(o);
  std::vector<Step> st;
  bool nonfinite = false;
  s.tap.init = [&](int, const FullVariable& x, const FullVariable& xbar, double sigma) {
    Step e;
    e.x = take(x), e.bar = take(xbar), e.sigma = sigma;
    e.at_centre = dist(e.x, e.bar) == 0;
    e.same_centre = !st.empty() && dist(e.bar, st.back().bar) == 0;
    if (!finite_pt(e.x) || !finite_pt(e.bar)) nonfinite = true;
    st.push_back(e);
    return true;
  };
  s.tap.solve = [&](int k, FullVariable* dx) {
    if (kind) distort(kind, k, dx);
    st.back().dx = take(*dx);
    return true;
  };
  Result r = s.solve(q, g);
  R.transitions += (mc::ll)st.size();
  R.validated++;
  std::string where = S() << what << " on " << show(q);
  if (nonfinite) return R.note("not-finite");
  R.note("steps", (mc::ll)st.size());
  R.note(r.threw ? "threw" : flag(r.out.eflag));
  if (R.want_sample) R.sample(S() << where << " -> " << show(r) << " with " << st.size() << " steps");
  Lin d(q.p);
  Pt start;
  start.z = g.z.cast<ld>(), start.l = g.l.cast<ld>(), start.v = g.v.cast<ld>();
  start.y = d.b - d.A * start.z;
  std::vector<ld> past;  // merits of this subproblem, newest last
  double tol = 0;
  int inner_count = 0;
  Value Ek{0, 0};
  for (size_t k = 0; k < st.size(); k++) {
    Step& e = st[k];
    if (!e.dx.z.size()) break;  // the factorization failed here
    {
      double h[3] = {(double)e.x.z(0), (double)e.x.v(0), (double)e.dx.z(0)};
      R.state(mc::fnv(h, sizeof h));
    }
    std::string at = S() << " at newton step " << k << " of " << show(r) << " | " << where;
    if (e.sigma != o.sigma0) return R.fail(S() << "regularization " << e.sigma << " instead of " << o.sigma0 << at);
    ld ysize = 1 + norm_inf(d.b) + d.A.cwiseAbs().sum() * size_of(e.x);
    if (k == 0 && dist(e.bar, start) != 0) return R.fail("the first proximal centre is not the initial guess" + at);
    if (norm_inf(e.x.y - (d.b - d.A * e.x.z)) > 1e-6L * ysize) return R.fail("the constraint margin of an iterate is not b - A z" + at);
    // (a subproblem may also end without having moved at all)
    bool fresh = k == 0 || !e.same_centre || (e.at_centre && inner_count >= o.max_inner_iters);
    if (fresh) {
      if (!e.at_centre) return R.fail("a subproblem does not start at its centre" + at);
      if (k > 0 && e.bar.v.minCoeff() < 0) return R.fail("a proximal centre has a negative multiplier" + at);
      past.clear();
      inner_count = 0;
      Ek = outer(d, e.bar, o.alpha);
      double E = (double)Ek.norm;
      if (k == 0) tol = std::min(std::max(E, o.inner_tol_min), o.inner_tol_max);
      tol = std::min(std::max(tol * o.delta, o.inner_tol_min), std::max(E, o.inner_tol_min));
    }
    inner_count++;
    if (inner_count > o.max_inner_iters) return R.fail("more inner iterations than allowed" + at);
    Value F0 = inner(d, e.x, e.bar, e.sigma, o.alpha);
    // a Newton step is only taken while the subproblem is unsolved
    {
      Value Eo = outer(d, e.x, o.alpha);
      bool certainly_done = F0.norm + 10 * F0.err < o.inner_tol_min * (1 - 1e-9L) || (F0.norm + 10 * F0.err < tol * (1 - 1e-6L) && Eo.norm + 10 * Eo.err < Ek.norm * (1 - 1e-9L) - 10 * Ek.err);
      if (certainly_done) return R.fail(S() << "a subproblem solved to " << (double)F0.norm << " (tolerance " << tol << ") is iterated further" << at);
    }
    past.push_back(F0.norm * F0.norm / 2);
    ld cur = past.back(), m0 = cur;
    if (o.nonmonotone_linesearch)
      for (size_t i = past.size() > 5 ? past.size() - 5 : 0; i < past.size(); i++) m0 = std::max(m0, past[i]);
    // where did the step go?
    Pt next;
    bool ends = k + 1 == st.size(), leaves = !ends && (!st[k + 1].same_centre || (st[k + 1].at_centre && inner_count >= o.max_inner_iters));
    if (!ends) next = st[k + 1].x;
    else if (!r.threw && r.out.eflag == ExitFlag::SUCCESS) {
      next.z = r.x.z.cast<ld>(), next.l = r.x.l.cast<ld>(), next.v = r.x.v.cast<ld>(), next.y = r.x.y.cast<ld>();
      leaves = true;
    } else {
      break;
    }
    ld scale = size_of(e.x) + size_of(e.dx) + 1;
    bool on_ray = false, right = false;
    std::string why = "";
    ld t = 1;
    bool earlier_ok = false;  // some longer step certainly satisfies the rule
    std::vector<Pt> chosen;
    for (int j = 0; j <= o.max_linesearch_iters; j++) {
      Pt trial = moved(d, e.x, t, e.dx);
      Pt hit = leaves ? projected(trial) : trial;
      Value F = inner(d, trial, e.bar, e.sigma, o.alpha);
      ld m = F.norm * F.norm / 2, bound = m0 - 2 * t * o.eta * cur;
      ld fuzz = 1e-10L * (m0 + m) + 20 * (F.norm * F.err + F.err * F.err + F0.norm * F0.err + F0.err * F0.err);
      bool may = m <= bound + fuzz, must = m <= bound - fuzz;
      if (dist(hit, next) <= 1e-13L * scale) {
        on_ray = true;
        if (earlier_ok) why = S() << "step length " << (double)t << " although a longer step gives the sufficient decrease";
        else if (j < o.max_linesearch_iters && !may) why = S() << "step length " << (double)t << " does not give the sufficient decrease (merit " << (double)m << ", bound " << (double)bound << ")";
        else right = true;
        // (several lengths fit when the step is tiny)
        if (!earlier_ok && (j == o.max_linesearch_iters || may)) {
          if (chosen.empty() && j > 0) R.note(j == o.max_linesearch_iters ? "end-of-sequence" : "backtracked");
          chosen.push_back(trial);
        }
      }
      if (must) earlier_ok = true;
      t *= o.beta;
    }
    if (!on_ray) return R.fail("the iterate does not lie on the Newton direction at any backtracking step length" + at);
    if (!right) return R.fail(why + at);
    // the centre only moves when the subproblem is solved or its iterations are used up
    if (leaves && inner_count < o.max_inner_iters) {
      bool surely_not = true;
      Value Ei, Eo;
      for (auto& c : chosen) {
        Ei = inner(d, c, e.bar, e.sigma, o.alpha), Eo = outer(d, c, o.alpha);
        surely_not = surely_not && Ei.norm - 10 * Ei.err > o.inner_tol_min * (1 + 1e-9L) && (Ei.norm - 10 * Ei.err > tol * (1 + 1e-6L) || Eo.norm - 10 * Eo.err > Ek.norm * (1 + 1e-9L) + 10 * Ek.err);
      }
      if (surely_not) return R.fail(S() << "the centre moves although the subproblem is only solved to " << (double)Ei.norm << " (tolerance " << tol << ", outer residual " << (double)Eo.norm << " from " << (double)Ek.norm << ")" << at);
      R.note("subproblems");
    }
  }
}

static AlgorithmParameters variant(int k) {
  AlgorithmParameters o = preset(k % 2);
  switch (k / 2) {
    case 1: o.nonmonotone_linesearch = !o.nonmonotone_linesearch; break;
    case 2: o.beta = 0.5, o.eta = 0.3, o.nonmonotone_linesearch = false; break;
    case 3: o.beta = 0.9, o.eta = 0.499, o.max_linesearch_iters = 3; break;
    case 4: o.max_linesearch_iters = 1, o.eta = 0.4, o.sigma0 = o.sigma_max = 1e-2; break;
    case 5: o.beta = 0.3, o.eta = 0.1, o.sigma0 = o.sigma_max = 1e-4, o.delta = 0.05, o.inner_tol_max = 10, o.nonmonotone_linesearch = true; break;
    case 6: o.max_inner_iters = 3, o.alpha = 0.5, o.eta = 0.2, o.inner_tol_min = 1e-9; break;
  }
  return o;
}
static const int kVariants = 14;
static const int kDistortions = 6;

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  std::vector<Prob> lib = dense_library();
  for (auto& p : mpc_library()) lib.push_back(p);
  for (auto& q : lib)
    R.family(S() << "steps-" << q.name, (mc::ll)kNumGuesses * kVariants * kDistortions, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(kNumGuesses), v = d.digit(kVariants), k = d.digit(kDistortions);
      check(q, variant(v), guess_of(q, g), k, S() << "variant " << v << " distortion " << k << " guess " << kGuesses[g].name);
    });
  for (auto& q : designed_library(T ? 1 : 0))
    R.family(S() << "steps-" << q.name, 4ll * kVariants * kDistortions, [&](mc::ll i) {
      mc::Dec d(i);
      int g = d.digit(4), v = d.digit(kVariants), k = d.digit(kDistortions);
      check(q, variant(v), guess_of(q, g), k, S() << "variant " << v << " distortion " << k << " guess " << kGuesses[g].name);
    });
  for (auto& q : large_library(T ? 1 : 0))
    R.family(S() << "steps-" << q.name, T ? 2ll * kVariants * kDistortions : kVariants, [&](mc::ll i) {
      mc::Dec d(i);
      int v = d.digit(kVariants), k = T ? d.digit(kDistortions) : (int)((i + q.name.size()) % kDistortions), g = T ? d.digit(2) : (int)(i / 3 % 3);
      check(q, variant(v), guess_of(q, g), k, S() << "variant " << v << " distortion " << k << " guess " << kGuesses[g].name);
    });
  for (int kind = 0; kind < 3; kind++) {
    DenseDev V(3, 1, 3, kind, {-1, 0, 1, 3}, T ? 2 : 1);
    int nv = kVariants, nk = T ? 3 : 2, ng = T ? 4 : 2;
    R.family(S() << "steps-" << V.name(), V.size() * nv * nk * ng, [&](mc::ll i) {
      mc::Dec d(i);
      int v = d.digit(nv), k = d.digit(nk), g = d.digit(ng);
      Prob q;
      q.name = "dev", q.p = V.get(d.k);
      check(q, variant(v), guess_of(q, g), k, S() << "variant " << v << " distortion " << k << " guess " << kGuesses[g].name);
    });
    MpcSpace M(mpc_base(2, 1, 1, 1, kind), {-1, 0, 1, 2}, T ? 2 : 1);
    R.family(S() << "steps-mpc-2111-b" << kind, M.size() * nv * nk * ng, [&](mc::ll i) {
      mc::Dec d(i);
      int v = d.digit(nv), k = d.digit(nk), g = d.digit(ng);
      Prob q;
      q.name = "mpcdev", q.mpc = true, q.mp = M.get(d.k), q.p = expand(q.mp);
      check(q, variant(v), guess_of(q, g), k, S() << "variant " << v << " distortion " << k << " guess " << kGuesses[g].name);
    });
  }
  return R.finish();
}
