// One interface to both solvers plus a library of small problems of every kind.
#pragma once
#include <memory>

#include "dense.h"
#include "designed.h"
#include "mpcqp.h"

namespace qp {
using fbstab::AlgorithmParameters;
using fbstab::Display;
using fbstab::ExitFlag;
using fbstab::FBstabDense;
using fbstab::FBstabMpc;
using fbstab::SolverOut;

struct Point {
  VectorXd z, l, v, y;
  Point() {}
  explicit Point(const QP& p) : z(VectorXd::Zero(p.n)), l(VectorXd::Zero(p.l)), v(VectorXd::Zero(p.m)), y(VectorXd::Zero(p.m)) {}
};
inline bool same_bits(const VectorXd& a, const VectorXd& b) {
  return a.size() == b.size() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
inline bool same_bits(const Point& a, const Point& b) { return same_bits(a.z, b.z) && same_bits(a.l, b.l) && same_bits(a.v, b.v) && same_bits(a.y, b.y); }
inline std::string show(const Point& x) { return mc::S() << "z=" << vec(x.z) << " l=" << vec(x.l) << " v=" << vec(x.v) << " y=" << vec(x.y); }

inline const char* flag(ExitFlag e) {
  static const char* n[] = {"SUCCESS", "DIVERGENCE", "MAXITERATIONS", "PRIMAL_INFEASIBLE", "DUAL_INFEASIBLE", "PRIMAL_DUAL_INFEASIBLE"};
  int k = (int)e;
  return k >= 0 && k < 6 ? n[k] : "?";
}

struct Result {
  bool threw = false, other = false;  // std::runtime_error / any other exception
  std::string what, text;
  SolverOut out;
  Point x;
};
inline std::string show(const Result& r) {
  mc::S s;
  if (r.threw || r.other)
    s << (r.other ? "threw (not a runtime_error) " : "threw ") << r.what;
  else
    s << flag(r.out.eflag) << " residual " << r.out.residual << " initial " << r.out.initial_residual << " prox " << r.out.prox_iters << " newton " << r.out.newton_iters;
  s << " " << show(r.x);
  return s;
}
inline bool same_result(const Result& a, const Result& b, bool text = true) {
  if (a.threw != b.threw || a.other != b.other || a.what != b.what) return false;
  if (!same_bits(a.x, b.x)) return false;
  if (text && a.text != b.text) return false;
  if (a.threw || a.other) return true;
  return a.out.eflag == b.out.eflag && memcmp(&a.out.residual, &b.out.residual, 8) == 0 && a.out.newton_iters == b.out.newton_iters &&
         a.out.prox_iters == b.out.prox_iters && memcmp(&a.out.initial_residual, &b.out.initial_residual, 8) == 0;
}

// Keeps everything it is given, except the elapsed time which differs between runs.
struct Recorder : public fbstab::OutputStream<Recorder> {
  std::string* text;
  explicit Recorder(std::string* t) : text(t) {}
  void PrintImplementation(const char* m) const {
    if (!strncmp(m, "Time elapsed", 12))
      *text += "Time elapsed\n";
    else
      *text += m;
  }
};

struct Prob {
  std::string name;
  bool mpc = false;
  QP p;
  MP mp;
  Status st{true, false};
  bool pd = false;
};
inline std::string show(const Prob& p) { return p.mpc ? show(p.mp) : show(p.p); }

inline Prob make(const std::string& name, const QP& p) {
  Prob r;
  r.name = name, r.p = p;
  fm_overflow = false;
  r.st = classify(p);
  r.pd = positive_definite(p.H);
  return r;
}
inline Prob make(const std::string& name, const MP& mp) {
  Prob r = make(name, expand(mp));
  r.mpc = true, r.mp = mp;
  return r;
}
inline ExitFlag any_verdict(const Prob& p) { return p.st.bounded() ? ExitFlag::SUCCESS : p.st.descent ? ExitFlag::DUAL_INFEASIBLE : ExitFlag::PRIMAL_INFEASIBLE; }
// Is e a correct answer for this problem?
inline bool verdict_ok(const Prob& p, ExitFlag e) {
  switch (e) {
    case ExitFlag::SUCCESS: return p.st.bounded();
    case ExitFlag::PRIMAL_INFEASIBLE: return !p.st.feasible;
    case ExitFlag::DUAL_INFEASIBLE: return p.st.descent;
    case ExitFlag::PRIMAL_DUAL_INFEASIBLE: return !p.st.feasible && p.st.descent;
    default: return false;
  }
}

class Solver {
 public:
  explicit Solver(const Prob& q) : mpc_(q.mpc) {
    if (mpc_)
      m_.reset(new FBstabMpc(q.mp.N, q.mp.nx, q.mp.nu, q.mp.nc));
    else
      d_.reset(new FBstabDense(q.p.n, q.p.l, q.p.m));
  }
  void options(const AlgorithmParameters& a) {
    if (mpc_) {
      FBstabMpc::Options o;
      (AlgorithmParameters&)o = a;
      m_->UpdateOptions(o);
    } else {
      FBstabDense::Options o;
      (AlgorithmParameters&)o = a;
      d_->UpdateOptions(o);
    }
  }
  template <class OS>
  __attribute__((noinline)) Result solve(const Prob& q, const Point& guess, const OS* os) {
    Result r;
    if (q.mpc != mpc_) abort();
    auto go = [&](auto& s, const auto& D, auto& X) {
      X.z = guess.z, X.l = guess.l, X.v = guess.v, X.y = guess.y;
      try {
        r.out = os ? s.Solve(D, &X, *os) : s.Solve(D, &X);
      } catch (const std::runtime_error& e) {
        r.threw = true, r.what = e.what();
      } catch (const std::exception& e) {
        r.other = true, r.what = e.what();
      }
      r.x.z = X.z, r.x.l = X.l, r.x.v = X.v, r.x.y = X.y;
    };
    if (mpc_) {
      FBstabMpc::ProblemData D = data(q.mp);
      FBstabMpc::Variable X(1, 1, 1, 1);
      go(*m_, D, X);
    } else {
      FBstabDense::ProblemData D = data(q.p);
      FBstabDense::Variable X(1, 1, 1);
      go(*d_, D, X);
    }
    return r;
  }
  Result solve(const Prob& q, const Point& guess) { return solve<Recorder>(q, guess, (const Recorder*)nullptr); }
  Result record(const Prob& q, const Point& guess) {
    std::string t;
    Recorder rec(&t);
    Result r = solve(q, guess, &rec);
    r.text = t;
    return r;
  }

 public:
  bool mpc_;
  std::unique_ptr<FBstabDense> d_;
  std::unique_ptr<FBstabMpc> m_;
};

inline AlgorithmParameters preset(int k) {
  AlgorithmParameters o;
  if (k == 0)
    o.DefaultParameters();
  else
    o.ReliableParameters();
  o.display_level = Display::OFF;
  return o;
}

inline Point guess_of(const Prob& q, int k) {
  Point x(q.p);
  set_guess(kGuesses[k], &x);
  return x;
}

// Magnitude of the numbers that enter the residuals of a point.
inline double magnitude(const QP& p, const Point& x) {
  double a = 1 + p.H.cwiseAbs().rowwise().sum().maxCoeff() + p.A.cwiseAbs().rowwise().sum().maxCoeff() + p.A.cwiseAbs().colwise().sum().maxCoeff();
  if (p.l) a += p.G.cwiseAbs().rowwise().sum().maxCoeff() + p.G.cwiseAbs().colwise().sum().maxCoeff();
  return a * (1 + inf(x.z) + inf(x.l) + inf(x.v)) + inf(p.f) + inf(p.b) + inf(p.h);
}
inline double combo_tol(const AlgorithmParameters& o, const QP& p) { return o.abs_tol + o.rel_tol * (1 + p.forcing()); }
inline bool finite(const VectorXd& v) {
  for (int i = 0; i < v.size(); i++)
    if (!std::isfinite(v(i))) return false;
  return true;
}
inline bool finite(const Point& x) { return finite(x.z) && finite(x.l) && finite(x.v) && finite(x.y); }

// Does the point satisfy the optimality conditions to the requested tolerance?  On "no", *why says how.
inline bool optimal(const QP& p, const Point& x, const AlgorithmParameters& o, std::string* why) {
  if (!finite(x.z) || !finite(x.l) || !finite(x.v)) return *why = "point is not finite", false;
  Kkt k = kkt(p, x.z, x.l, x.v, o.alpha);
  double c = combo_tol(o, p), eps = 1e-13 * magnitude(p, x);
  if (k.total() <= 1.001 * c / o.alpha + eps && k.comp <= 1.001 * c / (1 - o.alpha) + eps) return true;
  *why = mc::S() << "|stationarity|=" << (double)k.rz << " |equality|=" << (double)k.rl << " |min(y,v)|=" << (double)k.rv << " max y*v=" << (double)k.comp << " tolerance " << c;
  return false;
}

// Small problems of every kind (dense).
inline std::vector<Prob> dense_library() {
  std::vector<Prob> r;
  auto add = [&](const char* n, int nz, int l, int m, std::vector<double> H, std::vector<double> f, std::vector<double> G, std::vector<double> h, std::vector<double> A, std::vector<double> b) {
    QP p;
    p.resize(nz, l, m);
    auto fill = [](MatrixXd& M, const std::vector<double>& v) {
      for (int i = 0; i < M.rows(); i++)
        for (int j = 0; j < M.cols(); j++) M(i, j) = v[i * M.cols() + j];
    };
    fill(p.H, H), fill(p.G, G), fill(p.A, A);
    for (int i = 0; i < nz; i++) p.f(i) = f[i];
    for (int i = 0; i < l; i++) p.h(i) = h[i];
    for (int i = 0; i < m; i++) p.b(i) = b[i];
    r.push_back(make(n, p));
  };
  add("convex-active", 2, 0, 2, {2, 1, 1, 2}, {-4, 1}, {}, {}, {1, 0, 1, 1}, {1, 0});
  add("convex-inactive", 2, 0, 2, {3, -1, -1, 2}, {1, -1}, {}, {}, {1, 1, -1, 0}, {5, 4});
  add("weakly-active", 2, 0, 2, {1, 0, 0, 1}, {-1, -1}, {}, {}, {1, 0, 0, 1}, {1, 0});
  add("equality", 2, 1, 2, {1, 0, 0, 2}, {1, -3}, {1, 1}, {1}, {1, 0, 0, 1}, {0, 3});
  add("redundant-equality", 2, 2, 1, {1, 0, 0, 1}, {1, 0}, {1, 1, 2, 2}, {1, 2}, {1, -1}, {2});
  add("lp-vertex", 2, 0, 3, {0, 0, 0, 0}, {-1, -2}, {}, {}, {1, 1, -1, 0, 0, -1}, {2, 0, 0});
  add("semidefinite", 2, 0, 2, {1, 1, 1, 1}, {1, 1}, {}, {}, {1, -1, -1, 1}, {1, 1});
  add("infeasible", 2, 0, 2, {1, 0, 0, 1}, {1, 2}, {}, {}, {1, 1, -1, -1}, {-1, 0});
  add("infeasible-equality", 2, 2, 1, {2, 0, 0, 1}, {0, 1}, {1, 1, 1, 1}, {1, -1}, {1, 0}, {2});
  add("unbounded", 2, 0, 2, {1, 0, 0, 0}, {1, -1}, {}, {}, {1, 0, 1, -1}, {2, 1});
  add("both", 2, 0, 2, {0, 0, 0, 0}, {-1, -1}, {}, {}, {1, -1, -1, 1}, {-1, 0});
  add("one", 1, 0, 1, {1}, {-2}, {}, {}, {1}, {1});
  add("one-unbounded", 1, 0, 1, {0}, {-1}, {}, {}, {-1}, {1});
  add("three", 3, 1, 4, {4, 1, 0, 1, 3, -1, 0, -1, 2}, {1, -2, 3}, {1, 1, 1}, {2}, {1, 0, 0, 0, 1, 0, 0, 0, 1, -1, -1, 0}, {1, 1, 1, 2});
  add("large-data", 2, 0, 2, {200, 100, 100, 300}, {-4000, 1000}, {}, {}, {10, 0, 30, 10}, {100, 50});
  return r;
}
inline std::vector<Prob> mpc_library() {
  std::vector<Prob> r;
  r.push_back(make("mpc-convex", mpc_base(2, 2, 1, 2, 0)));
  r.push_back(make("mpc-lp", mpc_base(1, 1, 1, 1, 1)));
  r.push_back(make("mpc-semi", mpc_base(2, 1, 1, 1, 2)));
  {
    MP p = mpc_base(1, 1, 1, 2, 0);  // tight constraints: active at the solution
    for (auto& d : p.d) d(0, 0) = -1, d(1, 0) = 0;
    r.push_back(make("mpc-tight", p));
  }
  {
    MP p = mpc_base(1, 1, 1, 2, 0);  // contradictory stage constraints
    for (int i = 0; i < 2; i++) p.E[i](0, 0) = 1, p.E[i](1, 0) = -1, p.L[i].setZero(), p.d[i](0, 0) = 1, p.d[i](1, 0) = 1;
    r.push_back(make("mpc-infeasible", p));
  }
  {
    MP p = mpc_base(2, 1, 1, 1, 0);  // free descending input
    MpcSpace::set_hess(p, 2, MatrixXd::Zero(2, 2));
    p.r[2](0, 0) = -1, p.L[2].setZero();
    r.push_back(make("mpc-unbounded", p));
  }
  r.push_back(make("mpc-wide", mpc_base(1, 1, 3, 1, 0)));
  r.push_back(make("mpc-long", mpc_base(4, 1, 1, 1, 0)));
  return r;
}
// Larger problems of every kind; the status is known by construction.
inline std::vector<Prob> designed_library(int level) {
  static const int kD[][3] = {{6, 2, 9}, {3, 1, 14}, {10, 0, 8}}, kM[][4] = {{8, 2, 1, 2}, {15, 1, 1, 1}, {3, 4, 2, 5}};
  std::vector<Prob> r;
  for (int sh = 0; sh < 6; sh++)
    for (int kind = 0; kind < (level ? 3 : 1); kind++)
      for (int mode = 0; mode < kModes; mode++) {
        Design de;
        Prob q;
        if (sh < 3) {
          q.p = design_dense(kD[sh][0], kD[sh][1], kD[sh][2], kind, mode, sh + mode, &de);
        } else {
          const int* k = kM[sh - 3];
          q.mp = design_mpc(k[0], k[1], k[2], k[3], kind, mode, sh + mode, &de);
          q.p = expand(q.mp), q.mpc = true;
        }
        if (!de.ok) continue;
        q.name = mc::S() << "designed-" << (q.mpc ? "mpc" : "dense") << sh % 3 << "-kind" << kind << "-mode" << mode;
        q.st = de.st, q.pd = de.pd;
        r.push_back(q);
      }
  return r;
}
// Shapes beyond likely size thresholds (see kLargeD, kLargeM), problems of known kind.
inline std::vector<Prob> large_library(int level) {
  static const int kD[] = {0, 6, 1, 4, 7, 3}, kM[] = {0, 1, 2, 3, 5, 9};
  std::vector<Prob> r;
  for (int sh = 0; sh < 12; sh++) {
    if (!level && sh % 6 > (sh < 6 ? 2 : 3)) continue;
    for (int mode = 0; mode < kModes; mode++) {
      Design de;
      Prob q;
      int kind = mode % 2 == 0 ? (sh + mode / 2) % 3 : 0;
      if (sh < 6) {
        const int* k = kLargeD[kD[sh]];
        q.p = design_dense(k[0], k[1], k[2], kind, mode, sh + 3 * mode, &de);
      } else {
        const int* k = kLargeM[kM[sh - 6]];
        q.mp = design_mpc(k[0], k[1], k[2], k[3], kind, mode, sh + 3 * mode, &de);
        q.p = expand(q.mp), q.mpc = true;
      }
      if (!de.ok) continue;
      q.name = mc::S() << "large-" << (q.mpc ? "mpc" : "dense") << sh % 6 << "-kind" << kind << "-mode" << mode;
      q.st = de.st, q.pd = de.pd;
      r.push_back(q);
    }
  }
  return r;
}
}  // namespace qp
