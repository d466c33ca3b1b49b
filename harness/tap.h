// The algorithm assembled from its public components, with a linear solver that passes every call through
// to the real one and lets the harness watch, corrupt or fail it.
#pragma once
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "solve.h"

namespace qp {
using fbstab::DenseCholeskySolver;
using fbstab::DenseData;
using fbstab::FBstabAlgorithm;
using fbstab::FullFeasibility;
using fbstab::FullResidual;
using fbstab::FullVariable;
using fbstab::MpcData;
using fbstab::RiccatiLinearSolver;

struct Tap {
  int inits = 0, solves = 0;
  std::string* text = nullptr;  // what has been printed so far
  // return false to make the call fail
  std::function<bool(int, const FullVariable&, const FullVariable&, double)> init;
  std::function<bool(int, FullVariable*)> solve;
  void reset() { inits = solves = 0, init = nullptr, solve = nullptr; }
};

template <class Base>
class Tapped : public Base {
 public:
  using Base::Base;
  Tap* tap = nullptr;
  bool Initialize(const FullVariable& x, const FullVariable& xbar, double sigma) {
    int k = tap->inits++;
    if (tap->init && !tap->init(k, x, xbar, sigma)) return false;
    return Base::Initialize(x, xbar, sigma);
  }
  bool Solve(const FullResidual& r, FullVariable* dx) const {
    int k = tap->solves++;
    bool ok = Base::Solve(r, dx);
    if (tap->solve && !tap->solve(k, dx)) return false;
    return ok;
  }
};

class TapSolver {
  template <class Lin>
  struct Parts {
    FullVariable x1, x2, x3, x4;
    FullResidual r1, r2;
    FullFeasibility fc;
    std::unique_ptr<Tapped<Lin>> lin;
    FBstabAlgorithm<FullVariable, FullResidual, Tapped<Lin>, FullFeasibility> alg;
    Parts(const QP& p, Tapped<Lin>* l, Tap* tap) : x1(p.n, p.l, p.m), x2(p.n, p.l, p.m), x3(p.n, p.l, p.m), x4(p.n, p.l, p.m), r1(p.n, p.l, p.m), r2(p.n, p.l, p.m), fc(p.n, p.l, p.m), lin(l), alg(&x1, &x2, &x3, &x4, &r1, &r2, l, &fc) {
      lin->tap = tap;
    }
  };
  std::unique_ptr<Parts<DenseCholeskySolver>> d_;
  std::unique_ptr<Parts<RiccatiLinearSolver>> m_;

 public:
  Tap tap;
  explicit TapSolver(const Prob& q) {
    if (q.mpc) m_.reset(new Parts<RiccatiLinearSolver>(q.p, new Tapped<RiccatiLinearSolver>(q.mp.N, q.mp.nx, q.mp.nu, q.mp.nc), &tap));
    else d_.reset(new Parts<DenseCholeskySolver>(q.p, new Tapped<DenseCholeskySolver>(q.p.n, q.p.l, q.p.m), &tap));
  }
  void options(const AlgorithmParameters& o) {
    AlgorithmParameters w = o;
    if (m_) m_->alg.UpdateParameters(&w);
    else d_->alg.UpdateParameters(&w);
  }
  Result solve(const Prob& q, Point g) {
    Result r;
    Recorder rec(&r.text);
    tap.text = &r.text;
    try {
      if (m_) {
        auto D = data(q.mp);
        MpcData d(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
        r.out = m_->alg.Solve(d, &g.z, &g.l, &g.v, &g.y, rec);
      } else {
        auto D = data(q.p);
        DenseData d(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
        r.out = d_->alg.Solve(d, &g.z, &g.l, &g.v, &g.y, rec);
      }
    } catch (const std::runtime_error& e) {
      r.threw = true, r.what = e.what();
    } catch (const std::exception& e) {
      r.other = true, r.what = e.what();
    }
    r.x = g;
    tap.text = nullptr;
    return r;
  }
};
}  // namespace qp
