// C23: the algorithm core against an explicit model of the documented iteration.  The components around it are
// real containers whose answers (residual norms, merits, directions, failures, certificates) are open choices:
// every execution with at most k answers away from a base behaviour is explored, and must end exactly like the
// model of the documented algorithm fed with the same answers.
//   decisions-*: at most k deviating answers;  window-*: every sequence of merits over an alphabet
#include <limits>

#include "tap.h"

using namespace fbstab;
using namespace qp;
using mc::S;

static mc::Run R;

// --- open answers -----------------------------------------------------------------------
typedef std::vector<double> Key;
enum Kind { OUTER, INNER, MERIT, DIRECTION, FACTOR, BACKSOLVE, CERTIFICATE, KINDS };
static const int kAlt[KINDS] = {5, 6, 6, 6, 1, 1, 3};

struct Oracle {
  int base = 0;
  std::vector<std::pair<int, int>> devs;  // (number of the question, alternative)
  std::vector<double> merits;             // answers to the first questions about a merit
  int run = -1;                           // >= 0: every subproblem is solved after this many steps
  double before = 10, after = 0;          // inner residuals of such a run
  int late_kind = -1, late = 0;           // the late-th question of this kind is answered with
  double late_answer = 0;
  std::vector<double> alt[KINDS];         // other alternatives than the usual ones
  std::map<Key, double> table[KINDS];
  std::map<Key, int> inner_seen;  // per centre
  int asked = 0;
  std::vector<int> width;  // alternatives of every question so far
  std::string broken;  // contract violations

  double usual(int kind, const Key& k) {
    switch (kind) {
      case OUTER: {
        int n = (int)table[OUTER].size();
        return base == 0 ? std::ldexp(1, -n) : base == 1 ? 1 : base == 2 ? 2 + n : n % 2 ? 0.25 : 0.5;
      }
      case INNER: {
        int n = inner_seen[Key(k.begin() + 3, k.end())]++;
        if (run >= 0) return n < run ? before : after;
        return base == 1 ? 10 : base == 2 ? (n ? 0 : 10) : (n < 2 ? 10 : 0);
      }
      case MERIT: {
        int n = (int)table[MERIT].size();
        return base == 0 ? std::ldexp(1, 8 - n) : base == 1 ? 4 : base == 2 ? 1 + 0.5 * (n % 3) : n % 2 ? 1 : 8;
      }
      default: return 0;
    }
  }
  int alternatives(int kind) const { return alt[kind].empty() ? kAlt[kind] : (int)alt[kind].size(); }
  double other(int kind, int v) const {
    if (!alt[kind].empty()) return alt[kind][v];
    static const double P[] = {0, 1e-5, 0.3, 3, HUGE_VAL}, I[] = {0, 10, 1e-3, 2e-4, 5e-6, 1e-9}, M[] = {4, 1, 3.4, 8, 100, 0};
    switch (kind) {
      case OUTER: return P[v];
      case INNER: return I[v];
      case MERIT: return M[v];
      default: return v + 1;
    }
  }
  double ask(int kind, const Key& k) {
    auto it = table[kind].find(k);
    if (it != table[kind].end()) return it->second;
    double x = usual(kind, k);
    int q = asked++;
    width.push_back(alternatives(kind));
    if (kind == MERIT && table[MERIT].size() < merits.size()) x = merits[table[MERIT].size()];
    if (kind == late_kind && (int)table[kind].size() == late) x = late_answer;
    for (auto& d : devs)
      if (d.first == q && d.second < alternatives(kind)) x = other(kind, d.second);
    table[kind][k] = x;
    return x;
  }
};
static Oracle* O;
static const double kStall = 1.0 / 8589934592;

static Key key(const FullVariable& x) { return Key{x.z(0), x.l(0), x.v(0)}; }
static Key key(const FullVariable& x, const FullVariable& bar, double sigma) {
  Key k = key(x), b = key(bar);
  k.insert(k.end(), b.begin(), b.end());
  k.push_back(sigma);
  return k;
}
static void broken(const std::string& s) {
  if (O->broken.empty()) O->broken = s;
}

// what every component must have been given before it is used
struct Current {
  const Data* data = nullptr;
  double alpha = 0, sigma = 0, infeas_tol = 0;
} cur;

class OpenVariable : public FullVariable {
 public:
  using FullVariable::FullVariable;
};

class OpenResidual : public FullResidual {
  Key k_;
  int kind_ = -1;

 public:
  using FullResidual::FullResidual;
  double alpha = 0;
  const Data* data = nullptr;
  void SetAlpha(double a) { alpha = a, FullResidual::SetAlpha(a); }
  void LinkData(const Data* d) { data = d, FullResidual::LinkData(d); }
  void Fill(double a) { kind_ = -1, FullResidual::Fill(a); }
  void used() const {
    if (data != cur.data) broken("a residual works on other data");
    if (alpha != cur.alpha) broken("a residual uses another smoothing weight");
  }
  void InnerResidual(const FullVariable& x, const FullVariable& bar, double sigma) {
    used();
    if (sigma != cur.sigma) broken("the regularization is not the configured one");
    FullResidual::InnerResidual(x, bar, sigma);
    kind_ = INNER, k_ = key(x, bar, sigma);
  }
  void PenalizedNaturalResidual(const FullVariable& x) {
    used();
    FullResidual::PenalizedNaturalResidual(x);
    kind_ = OUTER, k_ = key(x);
  }
  void NaturalResidual(const FullVariable& x) {
    used();
    FullResidual::NaturalResidual(x);
    kind_ = -1;
  }
  double Norm() const { return kind_ < 0 ? FullResidual::Norm() : O->ask(kind_, k_); }
  double Merit() const { return kind_ != INNER ? FullResidual::Merit() : O->ask(MERIT, k_); }
};

class OpenSolver {
  Key k_;
  mutable FullResidual ref_;
  FullVariable x_, bar_;
  double s_ = 0;

 public:
  double alpha = 0;
  const Data* data = nullptr;
  mutable int solves = 0;
  OpenSolver() : ref_(1, 1, 1), x_(1, 1, 1), bar_(1, 1, 1) {}
  void SetAlpha(double a) { alpha = a; }
  void LinkData(const Data* d) { data = d; }
  bool Initialize(const FullVariable& x, const FullVariable& bar, double sigma) {
    if (data != cur.data) broken("the linear solver works on other data");
    if (alpha != cur.alpha) broken("the linear solver uses another smoothing weight");
    if (sigma != cur.sigma) broken("the regularization is not the configured one");
    k_ = key(x, bar, sigma);
    x_.LinkData(data), bar_.LinkData(data);
    x_.Copy(x), bar_.Copy(bar), s_ = sigma;
    return O->ask(FACTOR, k_) == 0;
  }
  bool Solve(const FullResidual& r, FullVariable* dx) const {
    if (k_.empty()) return broken("a step is computed without a factorization"), false;
    ref_.LinkData(data), ref_.SetAlpha(alpha);
    ref_.InnerResidual(x_, bar_, s_);
    double scale = 1e-9 * (1 + inf(ref_.z()) + inf(ref_.l()) + inf(ref_.v()));
    if (!(inf(r.z() + ref_.z()) + inf(r.l() + ref_.l()) + inf(r.v() + ref_.v()) <= scale)) broken("the right-hand side is not the negative residual of the factored point");
    solves++;
    step(k_, dx);
    return O->ask(BACKSOLVE, k_) == 0;
  }
  // dyadic steps keep all positions exact
  static void step(const Key& k, FullVariable* dx) {
    double d[3];
    direction(k, d);
    dx->z()(0) = d[0], dx->l()(0) = d[1], dx->v()(0) = d[2];
    dx->y()(0) = 3 - 2 * d[0];  // b - A*dz
  }
  static void direction(const Key& k, double* d) {
    static const double T[][3] = {{4, 1, 1}, {-8, 2, -4}, {0, 0, 0}, {9.094947017729282e-13, 0, 0}, {1024, -16, 64}, {0, 0, -2}, {0.0009765625, 0, 0}, {kStall * (1 - 0.0009765625), 0, 0}, {0, kStall * (1 + 0.0009765625), 0}, {0, 0, kStall}};
    int v = (int)O->ask(DIRECTION, k);
    for (int i = 0; i < 3; i++) d[i] = T[v][i];
    if (v == 0) d[0] += std::floor(std::fmod(std::fabs(k[0]), 3));  // no two usual steps alike
    if (v == 0 && O->late_kind >= 0) d[1] += std::ldexp(k[0], -10);    // and no two subproblems either
  }
};

class OpenFeasibility : public FullFeasibility {
 public:
  using FullFeasibility::FullFeasibility;
  const Data* data = nullptr;
  void LinkData(const Data* d) { data = d, FullFeasibility::LinkData(d); }
  FeasibilityStatus CheckFeasibility(const FullVariable& x, double tol) {
    if (data != cur.data) broken("the certificate test works on other data");
    if (tol != cur.infeas_tol) broken("the certificate test uses another tolerance");
    int v = (int)O->ask(CERTIFICATE, key(x));
    return v == 0 ? FeasibilityStatus::FEASIBLE : v == 1 ? FeasibilityStatus::PRIMAL_INFEASIBLE : v == 2 ? FeasibilityStatus::DUAL_INFEASIBLE : FeasibilityStatus::BOTH;
  }
};

typedef FBstabAlgorithm<OpenVariable, OpenResidual, OpenSolver, OpenFeasibility> Core;

// --- the model ----------------------------------------------------------------------------
struct P3 {
  double z, l, v;
  Key key() const { return Key{z, l, v}; }
};
struct Outcome {
  bool threw = false;
  ExitFlag e = ExitFlag::SUCCESS;
  int newton = 0, prox = 0;
  double E0 = 0, residual = 0;
  bool residual_known = false, either = false;
  P3 x{0, 0, 0}, alt{0, 0, 0};
};

static double clamp(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }

static Outcome model(P3 x, const AlgorithmParameters& o, double forcing) {
  Outcome r;
  auto outer = [&](const P3& p) { return O->ask(OUTER, p.key()); };
  const double tol_out = o.abs_tol + o.rel_tol * (1 + forcing), sigma = o.sigma0;
  r.E0 = outer(x);
  double tol = clamp(r.E0, o.inner_tol_min, o.inner_tol_max), moved = HUGE_VAL;
  bool solved = false;
  for (; r.prox < o.max_prox_iters; r.prox++) {
    const double E = outer(x);
    if (E <= tol_out || (solved && moved <= o.stall_tol)) {
      r.e = ExitFlag::SUCCESS, r.x = x, r.residual = E, r.residual_known = true;
      return r;
    }
    tol = clamp(tol * o.delta, o.inner_tol_min, std::max(E, o.inner_tol_min));
    // subproblem
    P3 p = x;
    solved = false;
    std::vector<double> merits;
    for (int i = 0; i < o.max_inner_iters; i++) {
      auto ik = [&](const P3& q) { return Key{q.z, q.l, q.v, x.z, x.l, x.v, sigma}; };
      const double in = O->ask(INNER, ik(p));
      if (in <= o.inner_tol_min || (in <= tol && outer(p) < E)) {
        solved = true;
        break;
      }
      if (r.newton >= o.max_newton_iters) break;
      if (O->ask(FACTOR, ik(p)) != 0) return r.threw = true, r;
      double d[3];
      OpenSolver::direction(ik(p), d);
      if (O->ask(BACKSOLVE, ik(p)) != 0) return r.threw = true, r;
      r.newton++;
      const double m = O->ask(MERIT, ik(p));
      merits.push_back(m);
      double m0 = m;
      if (o.nonmonotone_linesearch)
        for (size_t j = merits.size() > 5 ? merits.size() - 5 : 0; j < merits.size(); j++) m0 = std::max(m0, merits[j]);
      double t = 1;
      for (int j = 0; j < o.max_linesearch_iters; j++) {
        P3 q{p.z + t * d[0], p.l + t * d[1], p.v + t * d[2]};
        if (O->ask(MERIT, ik(q)) <= m0 - 2 * t * o.eta * m) break;
        t *= o.beta;
      }
      p = P3{p.z + t * d[0], p.l + t * d[1], p.v + t * d[2]};
    }
    p.v = std::max(p.v, 0.0);
    if (r.newton >= o.max_newton_iters) {
      const double Ep = outer(p);
      r.e = ExitFlag::MAXITERATIONS;
      r.x = Ep < E ? p : x, r.alt = Ep < E ? x : p, r.either = Ep == E;
      r.residual = std::min(Ep, E), r.residual_known = true;
      return r;
    }
    P3 d{p.z - x.z, p.l - x.l, p.v - x.v};
    moved = std::sqrt(d.z * d.z + d.l * d.l + d.v * d.v);
    if (o.check_feasibility) {
      int c = (int)O->ask(CERTIFICATE, d.key());
      if (c) {
        r.e = c == 1 ? ExitFlag::PRIMAL_INFEASIBLE : c == 2 ? ExitFlag::DUAL_INFEASIBLE : ExitFlag::PRIMAL_DUAL_INFEASIBLE;
        r.x = d;
        return r;
      }
    }
    x = p;
  }
  r.e = ExitFlag::MAXITERATIONS, r.x = x, r.residual = outer(x), r.residual_known = true;
  return r;
}

// --- one execution ------------------------------------------------------------------------
struct Setting {
  AlgorithmParameters o;
  int base, history;
  P3 guess;
  std::vector<double> alt[KINDS];
  double before = 10, after = 0;
  int late_kind = -1, late = 0;
  double late_answer = 0;
};

struct Parts {
  OpenVariable x1, x2, x3, x4;
  OpenResidual r1, r2;
  OpenSolver lin;
  OpenFeasibility fc;
  Core core;
  Parts() : x1(1, 1, 1), x2(1, 1, 1), x3(1, 1, 1), x4(1, 1, 1), r1(1, 1, 1), r2(1, 1, 1), fc(1, 1, 1), core(&x1, &x2, &x3, &x4, &r1, &r2, &lin, &fc) {}
};
struct Problem {
  MatrixXd H, G, A;
  VectorXd f, h, b;
  DenseData data;
  Problem() : H(MatrixXd::Constant(1, 1, 1)), G(MatrixXd::Constant(1, 1, 1)), A(MatrixXd::Constant(1, 1, 2)), f(VectorXd::Constant(1, 1)), h(VectorXd::Constant(1, 2)), b(VectorXd::Constant(1, 3)), data(&H, &f, &G, &h, &A, &b) {}
};

static std::string describe(const Setting& s, const Oracle& o) {
  S t;
  t << "base behaviour " << s.base << " deviating answers";
  for (auto& d : o.devs) t << " (" << d.first << "," << d.second << ")";
  t << " merits";
  for (double m : o.merits) t << " " << m;
  if (!o.alt[0].empty()) t << " alternatives near the thresholds";
  if (o.run >= 0) t << " subproblems of " << o.run << " steps (inner residual " << o.before << ", then " << o.after << ")";
  static const char* kNames[] = {"outer residual", "inner residual", "merit", "direction", "factorization", "back-substitution", "certificate"};
  if (s.late_kind >= 0) t << " " << kNames[s.late_kind] << " number " << s.late << " answered " << s.late_answer;
  t << " guess " << s.guess.z << " " << s.guess.l << " " << s.guess.v << " history " << s.history << " limits newton " << s.o.max_newton_iters << " prox " << s.o.max_prox_iters << " inner " << s.o.max_inner_iters << " search " << s.o.max_linesearch_iters
    << " nonmonotone " << s.o.nonmonotone_linesearch << " feasibility " << s.o.check_feasibility;
  return t;
}

// Returns the widths of the questions that were asked.
static std::vector<int> execute(const Setting& s, const std::vector<std::pair<int, int>>& devs, const std::vector<double>& merits = std::vector<double>(), int run = -1) {
  static Problem other, main_;
  static std::unique_ptr<Parts> keep;
  static int uses = 0;
  if (!keep || s.history == 0 || ++uses % 64 == 0) keep.reset(new Parts());
  Parts& parts = *keep;
  auto solve = [&](Problem& pr, const AlgorithmParameters& o, VectorXd* z, VectorXd* l, VectorXd* v, VectorXd* y, SolverOut* out) {
    cur.data = &pr.data, cur.alpha = o.alpha, cur.sigma = o.sigma0, cur.infeas_tol = o.infeas_tol;
    parts.lin.solves = 0;
    parts.core.UpdateParameters(&o);
    static std::string text;
    text.clear();
    Recorder rec(&text);
    try {
      *out = parts.core.Solve(pr.data, z, l, v, y, rec);
    } catch (const std::runtime_error&) {
      return true;
    }
    return false;
  };
  VectorXd z(1), l(1), v(1), y(1);
  SolverOut out;
  if (s.history) {  // an unrelated earlier solve, possibly one that fails, with other data and options
    Oracle before;
    before.base = (s.base + s.history) % 4;
    if (s.history == 2) before.devs = {{9, 0}, {10, 0}, {11, 0}, {12, 0}};
    O = &before;
    AlgorithmParameters w = s.o;
    w.alpha = 0.25, w.sigma0 = 0.5, w.sigma_max = 1, w.nonmonotone_linesearch = true, w.max_newton_iters = 7;
    z << 100, l << -7, v << 33, y << 0;
    solve(other, w, &z, &l, &v, &y, &out);
  }
  Oracle o;
  o.base = s.base, o.devs = devs, o.merits = merits, o.run = run, o.before = s.before, o.after = s.after, o.late_kind = s.late_kind, o.late = s.late, o.late_answer = s.late_answer;
  for (int k = 0; k < KINDS; k++) o.alt[k] = s.alt[k];
  O = &o;
  z << s.guess.z, l << s.guess.l, v << s.guess.v, y << std::nan("");
  bool threw = solve(main_, s.o, &z, &l, &v, &y, &out);
  R.validated++;
  uint64_t h = mc::fnv(&s.base, 4);
  for (int k = 0; k < KINDS; k++)
    for (auto& e : o.table[k]) h = mc::fnv(e.first.data(), e.first.size() * 8, mc::fnv(&e.second, 8, h));
  R.state(h);
  auto tell = [&](const Outcome& m) {
    return std::string(S() << (threw ? "threw" : flag(out.eflag)) << " newton " << out.newton_iters << " prox " << out.prox_iters << " residual " << out.residual << " initial " << out.initial_residual << " z=" << z(0) << " l=" << l(0) << " v=" << v(0) << " y=" << y(0)
                           << "; documented: " << (m.threw ? "exception" : flag(m.e)) << " newton " << m.newton << " prox " << m.prox << " residual " << m.residual << " initial " << m.E0 << " z=" << m.x.z << " l=" << m.x.l << " v=" << m.x.v << " | " << describe(s, o));
  };
  Outcome m = model(s.guess, s.o, main_.data.ForcingNorm());
  std::vector<int> width = o.width;  // also what only the model asked: the implementation may have skipped a decision
  R.transitions += (int)width.size();
  if (!o.broken.empty()) return R.fail(o.broken + ": " + tell(m)), width;
  R.note(threw ? "exit-exception" : std::string("exit-") + flag(out.eflag));
  if (threw != m.threw) return R.fail("other outcome than documented: " + tell(m)), width;
  auto at = [&](const P3& p) { return z(0) == p.z && l(0) == p.l && v(0) == p.v; };
  if (threw) {
    if (!at(s.guess) || !std::isnan(y(0))) R.fail("an exception changes the caller's vectors: " + tell(m));
    return width;
  }
  if (out.eflag != m.e || out.newton_iters != m.newton || out.prox_iters != m.prox) R.fail("other outcome than documented: " + tell(m));
  else if (!at(m.x) && !(m.either && at(m.alt))) R.fail("another point than documented: " + tell(m));
  else if (out.initial_residual != m.E0) R.fail("initial residual is not that of the guess: " + tell(m));
  else if (m.residual_known && out.residual != m.residual) R.fail("residual is not that of the returned point: " + tell(m));
  else if (!(std::abs(y(0) - (3 - 2 * z(0))) <= 1e-9 * (1 + std::abs(z(0))))) R.fail("margin is not b-Az: " + tell(m));
  else if (parts.lin.solves != m.newton) R.fail(S() << parts.lin.solves << " linear systems solved: " << tell(m));
  if (R.want_sample) R.sample(tell(m)), R.want_sample = false;
  return width;
}

static void deviate(const Setting& s, std::vector<std::pair<int, int>>& devs, int k, int max_question) {
  if (R.violated) return;
  R.slot.seq = R.slot.seq + 1;
  std::vector<int> w = execute(s, devs);
  if (!k) return;
  int from = devs.empty() ? 0 : devs.back().first + 1;
  for (int q = from; q < (int)w.size() && q < max_question; q++)
    for (int v = 0; v < w[q] && !R.violated; v++) {
      devs.push_back({q, v});
      deviate(s, devs, k - 1, max_question);
      devs.pop_back();
    }
}

static const int kSettings = 13;
static Setting setting(int base, int var, int history) {
  Setting s;
  s.base = base, s.history = history;
  AlgorithmParameters& o = s.o;
  o.DefaultParameters();
  o.display_level = var % 2 ? Display::ITER_DETAILED : Display::OFF;
  o.alpha = 0.5, o.sigma0 = 0.25, o.sigma_max = 1, o.eta = 0.25, o.beta = 0.5, o.delta = 0.25;
  o.abs_tol = 1e-6, o.rel_tol = 1e-8, o.stall_tol = 1e-10, o.infeas_tol = 1e-5, o.inner_tol_max = 1e-2, o.inner_tol_min = 1e-8;
  o.max_newton_iters = 9, o.max_prox_iters = 4, o.max_inner_iters = 3, o.max_linesearch_iters = 2;
  o.nonmonotone_linesearch = var % 2 == 0;
  s.guess = P3{1, -2, var % 3 == 2 ? -3. : 2.};
  switch (var) {
    case 1: o.check_feasibility = false; break;
    case 2: o.max_newton_iters = 4; break;
    case 3: o.max_prox_iters = 2, o.max_newton_iters = 2; break;
    case 4: o.max_inner_iters = 9, o.max_newton_iters = 8, o.max_prox_iters = 2; break;
    case 5: o.max_linesearch_iters = 4, o.max_newton_iters = 5; break;
    case 6: o.max_linesearch_iters = 1, o.max_inner_iters = 8, o.max_newton_iters = 12; break;
    case 7: o.max_inner_iters = 1, o.max_prox_iters = 6; break;
    case 8: o.max_inner_iters = 1, o.max_newton_iters = 1, o.max_prox_iters = 3; break;
    case 10: o.abs_tol = 0.375, o.stall_tol = 2; break;  // tolerances in unusual order
    case 11: o.inner_tol_min = 4e-3, o.abs_tol = 1e-9, o.stall_tol = 0; break;
    case 12: o.inner_tol_max = 1e-6, o.abs_tol = 1e-3, o.rel_tol = 0.01, o.eta = 0.4; break;
    case 9: o.inner_tol_max = 1, o.delta = 0.5, o.max_newton_iters = 20, o.max_prox_iters = 8, o.max_inner_iters = 4, o.max_linesearch_iters = 3; break;
  }
  return s;
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  const int kMaxQ = 64, kMaxAlt = 6;
  for (int base = 0; base < 4; base++)
    for (int var = 0; var < kSettings; var++)
      for (int hist = 0; hist < 3; hist++) {
        const bool large = var == 6 || var == 9;
        const int k = T ? (hist || large ? 2 : 3) : hist || large ? 1 : 2;
        R.family(S() << "decisions-base" << base << "-options" << var << "-history" << hist << "-k" << k, (mc::ll)kMaxQ * kMaxAlt + 1, [&](mc::ll i) {
          Setting s = setting(base, var, hist);
          std::vector<std::pair<int, int>> devs;
          if (i == 0) {
            execute(s, devs);
            return;
          }
          int q = (int)((i - 1) / kMaxAlt), v = (int)((i - 1) % kMaxAlt);
          std::vector<int> w = execute(s, devs);
          if (q >= (int)w.size() || v >= w[q]) return;
          devs.push_back({q, v});
          deviate(s, devs, k - 1, kMaxQ);
        });
      }
  // every sequence of merits, long enough to fill the memory of the line search more than once
  static const double kMerits[] = {1, 2, 1.5, 3};
  for (int var = 0; var < 5; var++)
    for (int alphabet = 3; alphabet <= 4; alphabet++) {
      const int n = (alphabet == 3 ? 10 : 8) + (T ? 2 : 0);
      R.family(S() << "window-options" << var << "-alphabet" << alphabet << "-length" << n, mc::ipow(alphabet, n), [&](mc::ll i) {
        Setting s = setting(1, 0, 0);
        AlgorithmParameters& o = s.o;
        o.max_newton_iters = 9, o.max_inner_iters = 20, o.max_linesearch_iters = 1, o.max_prox_iters = 2;
        if (var == 1) o.max_linesearch_iters = 2;
        if (var == 2) o.max_inner_iters = 6;
        if (var == 3) o.max_inner_iters = 4, o.max_prox_iters = 3;
        if (var == 4) o.nonmonotone_linesearch = false, o.max_linesearch_iters = 2;
        std::vector<double> merits;
        for (int j = 0; j < n; j++, i /= alphabet) merits.push_back(kMerits[i % alphabet]);
        execute(s, {}, merits);
      });
    }
  // answers just below, at and just above every threshold of the iteration
  auto near_setting = [&](int base, int var, double e) {
    Setting s = setting(base, var, 0);
    AlgorithmParameters& o = s.o;
    o.stall_tol = kStall;
    if (e == 0)  // exact ties: powers of two, so that every way of computing a threshold gives the same number
      o.abs_tol = std::ldexp(1, -20), o.rel_tol = 0, o.inner_tol_max = std::ldexp(1, -7), o.inner_tol_min = std::ldexp(1, -27);
    static Problem pr;
    const double tol_out = o.abs_tol + o.rel_tol * (1 + pr.data.ForcingNorm());
    auto around = [&](int kind, double c) {
      s.alt[kind].push_back(c * (1 - e));
      if (e > 0) s.alt[kind].push_back(c * (1 + e));
    };
    around(OUTER, tol_out), around(OUTER, base == 0 ? 0.5 : base == 3 ? 0.25 : 1), around(OUTER, o.inner_tol_max);
    around(INNER, o.inner_tol_min), around(INNER, o.inner_tol_max * o.delta), around(INNER, o.inner_tol_max * o.delta * o.delta);
    const double m = base == 0 ? 256 : base == 3 ? 8 : 4;
    around(MERIT, m), around(MERIT, m * (1 - 2 * o.eta)), around(MERIT, m * (1 - 2 * o.eta * o.beta)), around(MERIT, m * (1 - 2 * o.eta * o.beta * o.beta));
    for (int k = 0; k < 9; k++) s.alt[DIRECTION].push_back(k + 1);
    return s;
  };
  for (int base = 0; base < 4; base++)
    for (int var = 0; var < kSettings; var++)
      R.family(S() << "thresholds-base" << base << "-options" << var, 3ll * (kMaxQ * 9 + 1), [&](mc::ll i) {
        Setting s = near_setting(base, var, i % 3 == 2 ? 0 : i % 3 ? 1e-3 : 1e-8);
        i /= 3;
        std::vector<std::pair<int, int>> devs;
        std::vector<int> w = execute(s, devs);
        if (i == 0) return;
        int q = (int)((i - 1) / 9), v = (int)((i - 1) % 9);
        if (q >= (int)w.size() || v >= w[q]) return;
        devs.push_back({q, v});
        deviate(s, devs, T && var != 6 && var != 9 ? 2 : 1, kMaxQ);
      });
  R.family("late-thresholds", 130ll * 3 * 2 * 4 * 3, [&](mc::ll i) {  // of a subproblem that takes long
    mc::Dec d(i);
    const int near = d.digit(3);
    const double e = near == 2 ? 0 : near ? 1e-3 : 1e-8;
    int mono = d.digit(2), b = d.digit(4), a = d.digit(3), n = 1 + (int)d.k;
    for (int base = 0; base < 2; base++) {
      Setting s = near_setting(base, 0, e);
      AlgorithmParameters& o = s.o;
      o.nonmonotone_linesearch = mono, o.max_linesearch_iters = 1, o.max_prox_iters = 2, o.max_inner_iters = 100000, o.max_newton_iters = 2 * n + 5;
      const double t1 = o.inner_tol_max * o.delta;
      s.before = b == 0 ? 10 : b == 1 ? t1 * (1 + e) : b == 2 ? o.inner_tol_min * (1 + e) : t1 * 0.5;
      s.after = a == 0 ? 0 : a == 1 ? o.inner_tol_min * (1 - e) : t1 * (1 - e);
      execute(s, {}, {}, n);
    }
  });
  // long runs: every length up to some hundred and some beyond, limits just below, at and above it
  std::vector<int> lengths;
  for (int n = 1; n <= R.qt(130, 520); n++) lengths.push_back(n);
  for (int n : {150, 200, 201, 256, 257, 300, 400, 500, 501, 512, 513, 700, 1000, 1001, 1025, 1500, 2049, 3000})
    if (n > lengths.back()) lengths.push_back(n);
  const int nl = (int)lengths.size();
  R.family("long-inner", (mc::ll)nl * 4 * 2 * 2, [&](mc::ll i) {  // steps of one subproblem
    mc::Dec d(i);
    int lim = d.digit(4), mono = d.digit(2), which = d.digit(2), n = lengths[(int)d.k];
    Setting s = setting(1, 0, 0);
    AlgorithmParameters& o = s.o;
    o.nonmonotone_linesearch = mono, o.max_linesearch_iters = 1, o.max_prox_iters = 2;
    o.max_inner_iters = o.max_newton_iters = 100000;
    if (lim < 3) (which ? o.max_inner_iters : o.max_newton_iters) = std::max(1, n - 1 + lim);
    execute(s, {}, {}, n);
  });
  R.family("long-prox", (mc::ll)nl * 2 * 3, [&](mc::ll i) {  // number of subproblems, of 0..2 steps each
    mc::Dec d(i);
    int mono = d.digit(2), run = d.digit(3), n = lengths[(int)d.k];
    Setting s = setting(1, mono, 0);
    AlgorithmParameters& o = s.o;
    o.max_linesearch_iters = 1, o.max_prox_iters = n, o.max_inner_iters = 100, o.max_newton_iters = 100000, o.stall_tol = 0;
    execute(s, {}, {}, run);
  });
  std::vector<int> late;
  for (int n : lengths)
    if (T || n <= 40 || n == 64 || n == 65 || n == 100 || n == 101 || n == 128 || n == 129 || (n > 130 && n <= 520)) late.push_back(n);
  R.family("late-answers", (mc::ll)late.size() * 12 * 3 * 2, [&](mc::ll i) {  // one other answer, late in the run
    static const struct { int kind; double answer; } kLate[] = {{CERTIFICATE, 1}, {CERTIFICATE, 2}, {CERTIFICATE, 3}, {FACTOR, 1}, {BACKSOLVE, 1}, {OUTER, 0}, {OUTER, 0.3}, {INNER, 0}, {INNER, 10}, {MERIT, 100}, {MERIT, 0}, {DIRECTION, 3}};
    mc::Dec d(i);
    int what = d.digit(12), run = d.digit(3), cap = d.digit(2), n = late[(int)d.k];
    Setting s = setting(1, n % 2, 0);
    AlgorithmParameters& o = s.o;
    o.check_feasibility = true, o.max_linesearch_iters = 1 + n % 2, o.max_newton_iters = 100000, o.max_inner_iters = cap ? 2 : 100;
    o.max_prox_iters = what < 3 ? n + 2 : what == 5 || what == 6 ? 2 * n + 3 : n + 2;
    s.late_kind = kLate[what].kind, s.late_answer = kLate[what].answer, s.late = n - 1;
    execute(s, {}, {}, run == 0 ? -1 : run);
  });
  R.family("long-newton", (mc::ll)nl * 3, [&](mc::ll i) {  // Newton limit met in a late subproblem
    mc::Dec d(i);
    int run = 1 + 2 * d.digit(3), n = lengths[(int)d.k];
    Setting s = setting(1, 0, 0);
    AlgorithmParameters& o = s.o;
    o.max_linesearch_iters = 1, o.max_prox_iters = 100000, o.max_inner_iters = 100, o.max_newton_iters = n;
    execute(s, {}, {}, run);
  });
  R.family("long-search", 64ll * 4 * 3 * 2, [&](mc::ll i) {  // the trial that is accepted, after j rejected ones
    mc::Dec d(i);
    int lim = d.digit(4), bt = d.digit(3), mono = d.digit(2), j = (int)d.k;
    Setting s = setting(1, 0, 0);
    AlgorithmParameters& o = s.o;
    o.nonmonotone_linesearch = mono, o.max_prox_iters = 2, o.max_newton_iters = 3, o.eta = bt == 1 ? 1e-4 : 0.25;
    o.beta = bt == 2 ? 0.75 : 0.5;
    o.max_linesearch_iters = lim < 3 ? std::max(1, j + lim) : 80;
    std::vector<double> merits(j + 1, 4);
    for (int k = 1; k <= j; k++) merits[k] = 5 + k % 3;
    merits.push_back(0.5);
    execute(s, {}, merits, 1);
  });
  return R.finish();
}
