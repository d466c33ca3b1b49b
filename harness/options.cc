// C13: every option field (and every pair; every triple of the coupled fields) set to values below,
// on, inside and above its range; sanitising, transport through both interfaces, effect, no crash.
#include <limits>

#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "solve.h"

using namespace qp;
using namespace fbstab;
using mc::S;
static mc::Run R;
typedef AlgorithmParameters AP;
static const double kInf = std::numeric_limits<double>::infinity();

struct Field {
  const char* name;
  double AP::*d;
  int AP::*i;
  bool AP::*b;
  double lo, hi;
  std::vector<double> values;
};
static std::vector<Field> fields() {
  auto D = [](const char* n, double AP::*p, double lo, double hi, std::vector<double> v) { return Field{n, p, nullptr, nullptr, lo, hi, v}; };
  auto I = [](const char* n, int AP::*p) { return Field{n, nullptr, p, nullptr, 1, 2147483647, {-2147483648.0, -1, 0, 1, 2, 7, 60}}; };
  auto B = [](const char* n, bool AP::*p) { return Field{n, nullptr, nullptr, p, 0, 1, {0, 1}}; };
  std::vector<Field> f;
  f.push_back(D("sigma0", &AP::sigma0, 1e-10, 1e2, {-1, 0, 1e-11, 1e-10, 2e-9, 1e-8, 1e-6, 1e-3, 1e2, 1e3, kInf}));
  f.push_back(D("sigma_max", &AP::sigma_max, 1e-6, 1e2, {-1, 0, 1e-8, 1e-6, 3e-3, 1, 1e2, 1e4, kInf}));
  f.push_back(D("sigma_min", &AP::sigma_min, 1e-13, 1e-8, {-1, 0, 1e-14, 1e-13, 1e-10, 1e-8, 1e-3, kInf}));
  f.push_back(D("alpha", &AP::alpha, 0.001, 0.999, {-kInf, -1, 0, 0.001, 0.3, 0.95, 0.999, 1, 2}));
  f.push_back(D("beta", &AP::beta, 0.1, 0.99, {-1, 0, 0.1, 0.5, 0.8, 0.99, 1, kInf}));
  f.push_back(D("eta", &AP::eta, 1e-12, 0.499, {-1, 0, 1e-12, 1e-3, 0.3, 0.499, 0.5, 1}));
  f.push_back(D("delta", &AP::delta, 0.0001, 0.99, {-1, 0, 0.0001, 0.05, 0.5, 0.99, 1, 3}));
  f.push_back(D("gamma", &AP::gamma, 0.001, 0.9, {-1, 0, 0.001, 0.1, 0.4, 0.9, 1}));
  f.push_back(D("abs_tol", &AP::abs_tol, 1e-14, kInf, {-1, 0, 1e-15, 1e-14, 1e-8, 1e-3, 1, kInf}));
  f.push_back(D("rel_tol", &AP::rel_tol, 0, kInf, {-1, 0, 1e-12, 1e-3, 0.5}));
  f.push_back(D("stall_tol", &AP::stall_tol, 1e-14, kInf, {-1, 0, 1e-15, 1e-14, 1e-9, 1e-2}));
  f.push_back(D("infeas_tol", &AP::infeas_tol, 1e-14, kInf, {-1, 0, 1e-15, 1e-14, 1e-7, 1e-2}));
  f.push_back(D("inner_tol_max", &AP::inner_tol_max, 1e-8, 1e2, {-1, 0, 1e-9, 1e-8, 1e-4, 1, 1e2, 1e5, kInf}));
  f.push_back(D("inner_tol_min", &AP::inner_tol_min, 1e-14, 1e-2, {-1, 0, 1e-15, 1e-14, 1e-9, 1e-5, 1e-2, 1, kInf}));
  f.push_back(I("max_newton_iters", &AP::max_newton_iters));
  f.push_back(I("max_prox_iters", &AP::max_prox_iters));
  f.push_back(I("max_inner_iters", &AP::max_inner_iters));
  f.push_back(I("max_linesearch_iters", &AP::max_linesearch_iters));
  f.push_back(B("check_feasibility", &AP::check_feasibility));
  f.push_back(B("nonmonotone_linesearch", &AP::nonmonotone_linesearch));
  return f;
}
static const std::vector<Field> F = fields();
static void set(AP* o, const Field& f, double v) {
  if (f.d) o->*f.d = v;
  else if (f.i) o->*f.i = (int)v;
  else o->*f.b = v != 0;
}
static double get(const AP& o, const Field& f) { return f.d ? o.*f.d : f.i ? (double)(o.*f.i) : (double)(o.*f.b); }
static std::string show(const AP& o) {
  S s;
  for (auto& f : F) s << f.name << "=" << get(o, f) << " ";
  s << "display=" << (int)o.display_level;
  return s;
}

// Does `got` correctly sanitise `want`?
static bool sanitised(const AP& want, const AP& got, std::string* why) {
  for (auto& f : F) {
    double w = get(want, f), g = get(got, f), lo = f.lo, hi = f.hi;
    std::string n = f.name;
    if (n == "sigma0") lo = std::max(lo, got.sigma_min), hi = got.sigma_max;
    if (n == "inner_tol_max") lo = std::max(lo, got.inner_tol_min);
    if (!(g >= lo && g <= hi)) return *why = S() << f.name << " is stored as " << g << " which is outside [" << lo << ", " << hi << "]", false;
    if (w >= lo && w <= hi && g != w) return *why = S() << f.name << "=" << w << " is legal but stored as " << g, false;
  }
  if (want.display_level != got.display_level) return *why = "display_level was changed", false;
  return true;
}
static bool equal(const AP& a, const AP& b) {
  for (auto& f : F)
    if (get(a, f) != get(b, f)) return false;
  return a.display_level == b.display_level;
}

// The bare algorithm, assembled from its components: stored parameters are observable here.
template <class Lin, class Data>
struct Bare {
  FullVariable x1, x2, x3, x4;
  FullResidual r1, r2;
  FullFeasibility fc;
  Lin* lin;
  FBstabAlgorithm<FullVariable, FullResidual, Lin, FullFeasibility> alg;
  Bare(const QP& p, Lin* l) : x1(p.n, p.l, p.m), x2(p.n, p.l, p.m), x3(p.n, p.l, p.m), x4(p.n, p.l, p.m), r1(p.n, p.l, p.m), r2(p.n, p.l, p.m), fc(p.n, p.l, p.m), lin(l), alg(&x1, &x2, &x3, &x4, &r1, &r2, l, &fc) {}
  Result solve(const Data& d, Point g) {
    Result r;
    Recorder rec(&r.text);
    try {
      r.out = alg.Solve(d, &g.z, &g.l, &g.v, &g.y, rec);
    } catch (const std::runtime_error& e) {
      r.threw = true, r.what = e.what();
    }
    r.x = g;
    return r;
  }
};

static void stored(const AP& o, mc::ll idx) {
  std::string why;
  AP a = o;
  R.transitions++, R.validated++;
  for (auto& f : F) {
    double v = get(a, f);
    idx = (mc::ll)mc::fnv(&v, 8, (uint64_t)idx);
  }
  R.state((uint64_t)idx);
  try {
    a.ValidateOptions();
  } catch (const std::exception& e) {
    return R.fail(S() << "ValidateOptions threw " << e.what() << " for " << show(o));
  }
  if (!sanitised(o, a, &why)) return R.fail(S() << why << " (requested " << show(o) << ")");
  AP twice = a;
  twice.ValidateOptions();
  if (!equal(a, twice)) return R.fail(S() << "sanitising sanitised options changes them: " << show(a) << " -> " << show(twice));
  QP p;
  p.resize(1, 0, 1);
  DenseCholeskySolver lin(1, 0, 1);
  Bare<DenseCholeskySolver, DenseData> b(p, &lin);
  b.alg.UpdateParameters(&o);
  AP c = b.alg.CurrentParameters();
  if (!sanitised(o, c, &why)) return R.fail(S() << "after UpdateParameters: " << why << " (requested " << show(o) << ")");
  if (!equal(a, c)) R.fail(S() << "UpdateParameters stores " << show(c) << " instead of " << show(a));
}

static void solve_with(const Prob& q, const AP& o, int gk, bool wrapper_check) {
  Solver s(q);
  s.options(o);
  Point g = guess_of(q, gk);
  Result r = s.record(q, g);
  R.validated++, R.transitions += r.threw ? 1 : 1 + r.out.newton_iters + r.out.prox_iters;
  std::string where = S() << "options " << show(o) << " guess " << kGuesses[gk].name << " on " << show(q);
  if (r.other || (r.threw && q.pd)) return R.fail(S() << "options make the solve throw: " << show(r) << " | " << where);
  if (R.want_sample) R.sample(S() << where << " -> " << show(r));
  AP a = o;
  a.ValidateOptions();
  if (!r.threw) {
    const SolverOut& u = r.out;
    R.note(flag(u.eflag));
    if (u.newton_iters > a.max_newton_iters || u.prox_iters > a.max_prox_iters) return R.fail(S() << "counter above its limit: " << show(r) << " | " << where);
    if (!a.check_feasibility && u.eflag != ExitFlag::SUCCESS && u.eflag != ExitFlag::MAXITERATIONS) return R.fail(S() << "infeasibility verdict although the check is disabled: " << show(r) << " | " << where);
    std::string why;
    // (large stall tolerances allow an early stop by definition)
    if (u.eflag == ExitFlag::SUCCESS && a.stall_tol <= 1e-9) {
      // (a stop at the rounding level is legitimate, whatever tolerance was asked for)
      double slack = a.inner_tol_min + a.sigma0 * a.stall_tol + 1e-13 * magnitude(q.p, r.x);
      if (!(u.residual <= combo_tol(a, q.p) * (1 + 1e-9) + 10 * slack)) return R.fail(S() << "success although the residual exceeds the requested tolerance " << combo_tol(a, q.p) << ": " << show(r) << " | " << where);
      AP w = a;
      w.abs_tol += 10 * slack;
      if (!optimal(q.p, r.x, w, &why)) return R.fail(S() << "success with a wrong point (" << why << "): " << show(r) << " | " << where);
    }
    if (a.infeas_tol <= 1e-7 && u.eflag != ExitFlag::SUCCESS && u.eflag != ExitFlag::MAXITERATIONS && !verdict_ok(q, u.eflag)) return R.fail(S() << "wrong verdict: " << show(r) << " | " << where);
  } else {
    R.note("threw");
  }
  if (wrapper_check) {  // both interfaces hand every option on to the algorithm
    Result w;
    if (q.mpc) {
      auto D = data(q.mp);
      MpcData d(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      RiccatiLinearSolver lin(q.mp.N, q.mp.nx, q.mp.nu, q.mp.nc);
      Bare<RiccatiLinearSolver, MpcData> b(q.p, &lin);
      b.alg.UpdateParameters(&o);
      w = b.solve(d, g);
    } else {
      auto D = data(q.p);
      DenseData d(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
      DenseCholeskySolver lin(q.p.n, q.p.l, q.p.m);
      Bare<DenseCholeskySolver, DenseData> b(q.p, &lin);
      b.alg.UpdateParameters(&o);
      w = b.solve(d, g);
    }
    if (!same_result(r, w)) R.fail(S() << "UpdateOptions does not give the algorithm these options: " << show(r) << " but the algorithm itself " << show(w) << " | " << where);
  }
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  // all pairs of (field, value)
  std::vector<std::pair<int, int>> fv;
  for (int f = 0; f < (int)F.size(); f++)
    for (int v = 0; v < (int)F[f].values.size(); v++) fv.push_back({f, v});
  const mc::ll n = (mc::ll)fv.size();
  auto pair = [&](mc::ll i, int base) {
    AP o = preset(base);
    auto a = fv[i / n], b = fv[i % n];
    set(&o, F[a.first], F[a.first].values[a.second]);
    set(&o, F[b.first], F[b.first].values[b.second]);
    return o;
  };
  R.family("stored-pairs", n * n * 2, [&](mc::ll i) { stored(pair(i / 2, i % 2), i); });
  // the second options replace all of the first
  R.family("stored-in-sequence", n * n * 4, [&](mc::ll i) {
    mc::Dec d(i);
    int ba = d.digit(2), bb = d.digit(2);
    auto a = fv[d.digit((int)n)], b = fv[d.digit((int)n)];
    QP p;
    p.resize(1, 0, 1);
    DenseCholeskySolver lin(1, 0, 1);
    Bare<DenseCholeskySolver, DenseData> s(p, &lin);
    for (int lev = 0; lev < 16 && !R.violated; lev++) {
      AP x = preset(ba), y = preset(bb);
      set(&x, F[a.first], F[a.first].values[a.second]), set(&y, F[b.first], F[b.first].values[b.second]);
      x.display_level = (Display)(lev % 4), y.display_level = (Display)(lev / 4);
      s.alg.UpdateParameters(&x);
      s.alg.UpdateParameters(&y);
      AP got = s.alg.CurrentParameters(), want = y;
      want.ValidateOptions();
      R.transitions += 2, R.validated++;
      R.state(mc::fnv(&i, 8, mc::fnv(&lev, 4)));
      if (!equal(got, want)) return R.fail(S() << "after options " << show(x) << " the options " << show(y) << " are stored as " << show(got) << " instead of " << show(want));
    }
  });
  auto idx = [&](const char* nm) {
    for (int f = 0; f < (int)F.size(); f++)
      if (!strcmp(F[f].name, nm)) return f;
    abort();
  };
  auto grid = [&](const std::string& name, std::vector<int> fs, const std::function<void(const AP&, mc::ll)>& fn) {
    mc::ll tot = 1;
    for (int f : fs) tot *= (mc::ll)F[f].values.size();
    R.family(name, tot, [&](mc::ll i) {
      mc::Dec d(i);
      AP o = preset(0);
      for (int f : fs) set(&o, F[f], F[f].values[d.digit((int)F[f].values.size())]);
      fn(o, i);
    });
  };
  grid("stored-sigma", {idx("sigma0"), idx("sigma_min"), idx("sigma_max")}, [&](const AP& o, mc::ll i) { stored(o, i); });
  grid("stored-inner", {idx("inner_tol_min"), idx("inner_tol_max"), idx("abs_tol"), idx("delta")}, [&](const AP& o, mc::ll i) { stored(o, i); });

  std::vector<Prob> lib = dense_library(), ml = mpc_library();
  for (auto& p : ml) lib.push_back(p);
  auto find = [&](const char* nm) -> const Prob& {
    for (auto& p : lib)
      if (p.name == nm) return p;
    abort();
  };
  // solving with every pair
  for (const char* nm : {"convex-active", "three", "mpc-convex", "infeasible", "mpc-infeasible"}) {
    const Prob& q = find(nm);
    R.family(S() << "solve-pairs-" << nm, n * n, [&](mc::ll i) {
      solve_with(q, pair(i, 0), 2, true);
      if (T)
        for (int g : {0, 3, 5}) solve_with(q, pair(i, 1), g, true);
    });
  }
  // coupled options, all problems
  for (auto& q : lib) {
    grid(S() << "solve-tolerances-" << q.name, {idx("abs_tol"), idx("rel_tol"), idx("check_feasibility"), idx("inner_tol_min"), idx("inner_tol_max")}, [&](const AP& o, mc::ll i) { solve_with(q, o, (int)(i % 3), T); });
    grid(S() << "solve-steps-" << q.name, {idx("alpha"), idx("beta"), idx("nonmonotone_linesearch"), idx("sigma0"), idx("check_feasibility")}, [&](const AP& o, mc::ll i) {
      AP w = o;
      w.sigma_max = 1e2;
      solve_with(q, w, (int)(i % 3), T);
    });
  }
  // shapes beyond likely size thresholds: every field and value
  for (auto& q : large_library(T ? 1 : 0))
    R.family(S() << "solve-" << q.name, n * 2, [&](mc::ll i) {
      AP o = preset((int)(i % 2));
      auto a = fv[i / 2];
      set(&o, F[a.first], F[a.first].values[a.second]);
      solve_with(q, o, (int)(i / 2 % 3), true);
    });
  // every limit is used as it is: no tolerance can be met, so only a limit ends the run
  static const int kLimits[] = {1, 2, 3, 7, 20, 31, 50, 51, 64, 99, 100, 101, 128, 199, 201, 256, 300, 499, 501, 600, 1000, 1024, 1500, 2049, 3001};
  const int nLim = (int)(sizeof kLimits / sizeof *kLimits);
  for (auto& q : lib)
    R.family(S() << "limits-in-full-" << q.name, (mc::ll)nLim * 2 * 2 * 3, [&](mc::ll i) {
      mc::Dec d(i);
      int pr = d.digit(2), which = d.digit(2), g = d.digit(3), n = kLimits[(int)d.k];
      AP o = preset(pr);
      o.abs_tol = o.rel_tol = o.stall_tol = 0, o.inner_tol_min = 1e-14, o.check_feasibility = false;
      o.max_newton_iters = which ? 1000000 : n, o.max_prox_iters = which ? n : 1000000, o.max_inner_iters = 7;
      Solver s(q);
      s.options(o);
      Result r = s.solve(q, guess_of(q, g));
      R.validated++, R.transitions += r.threw ? 1 : r.out.newton_iters + r.out.prox_iters;
      R.state(mc::fnv(r.x.z.data(), r.x.z.size() * 8, mc::fnv(&i, 8, mc::fnv(q.name.data(), q.name.size()))));
      if (r.threw) return R.note("limits-threw");
      const int used = which ? r.out.prox_iters : r.out.newton_iters;
      R.note(std::string("limits-") + flag(r.out.eflag));
      if (r.out.eflag == ExitFlag::MAXITERATIONS ? used != n : r.out.eflag != ExitFlag::SUCCESS || used > n)
        R.fail(S() << "the limit of " << n << (which ? " proximal" : " Newton") << " iterations is not the one that is used: " << show(r) << " preset " << pr << " guess " << g << " on " << show(q));
    });
  // presets
  R.family("presets", (mc::ll)lib.size() * 3, [&](mc::ll i) {
    const Prob& q = lib[i / 3];
    int g = (int)(i % 3);
    AP dd = FBstabDense::DefaultOptions(), dr = FBstabDense::ReliableOptions(), md = FBstabMpc::DefaultOptions(), mr = FBstabMpc::ReliableOptions(), a, b;
    a.DefaultParameters(), b.ReliableParameters();
    R.transitions++, R.validated++;
    R.state((uint64_t)i);
    if (!equal(dd, md) || !equal(dd, a)) return R.fail(S() << "default presets differ: dense " << show(dd) << " | mpc " << show(md) << " | algorithm " << show(a));
    if (!equal(dr, mr) || !equal(dr, b)) return R.fail(S() << "reliable presets differ: dense " << show(dr) << " | mpc " << show(mr) << " | algorithm " << show(b));
    AP c = dd, e = dr;
    c.ValidateOptions(), e.ValidateOptions();
    if (!equal(c, dd) || !equal(e, dr)) return R.fail("a preset contains inadmissible values");
    // overwriting a fully modified object gives the preset, too
    AP z;
    for (auto& f : F) set(&z, f, F[0].values.size() ? f.values[f.values.size() / 2] : 0);
    z.display_level = Display::OFF;
    AP z2 = z;
    z.DefaultParameters(), z2.ReliableParameters();
    if (!equal(z, dd) || !equal(z2, dr)) return R.fail(S() << "loading a preset keeps old values: " << show(z) << " | " << show(z2));
    // a new solver uses the default preset
    Solver s(q), t(q);
    t.options(dd);
    Result r1 = s.record(q, guess_of(q, g)), r2 = t.record(q, guess_of(q, g));
    if (!same_result(r1, r2)) R.fail(S() << "a new solver does not use the default preset: " << show(r1) << " / " << show(r2) << " on " << show(q));
  });
  return R.finish();
}
