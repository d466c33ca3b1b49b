// Reference side for linear-quadratic optimal control problems: stage data, expansion to an
// explicit dense QP written from the documented problem statement, generators.
#pragma once
#include "fbstab/fbstab_mpc.h"
#include "qp.h"

namespace qp {

struct MP {
  int N = 0, nx = 0, nu = 0, nc = 0;
  std::vector<MatrixXd> Q, R, S, q, r, A, B, c, E, L, d;
  VectorXd x0;
  int nz() const { return (nx + nu) * (N + 1); }
  int nl() const { return nx * (N + 1); }
  int nv() const { return nc * (N + 1); }
  void resize(int N_, int nx_, int nu_, int nc_) {
    N = N_, nx = nx_, nu = nu_, nc = nc_;
    auto z = [](int k, int a, int b) { return std::vector<MatrixXd>(k, MatrixXd::Zero(a, b)); };
    Q = z(N + 1, nx, nx), R = z(N + 1, nu, nu), S = z(N + 1, nu, nx), q = z(N + 1, nx, 1), r = z(N + 1, nu, 1);
    A = z(N, nx, nx), B = z(N, nx, nu), c = z(N, nx, 1);
    E = z(N + 1, nc, nx), L = z(N + 1, nc, nu), d = z(N + 1, nc, 1);
    x0 = VectorXd::Zero(nx);
  }
};

// sum_i 1/2 [x;u]'[Q S';S R][x;u] + q'x + r'u ; x(0)=x0 ; x(i+1)=Ax+Bu+c ; Ex+Lu+d<=0.
// The equality rows are ordered as documented: x0 - x(0) and A x + B u - x(i+1) + c, i.e.
// G z = h with G = [-I; A B -I; ...], h = -[x0; c].
inline QP expand(const MP& p) {
  QP k;
  k.resize(p.nz(), p.nl(), p.nv());
  int s = p.nx + p.nu;
  for (int i = 0; i <= p.N; i++) {
    for (int a = 0; a < p.nx; a++) {
      for (int b = 0; b < p.nx; b++) k.H(i * s + a, i * s + b) = p.Q[i](a, b);
      for (int b = 0; b < p.nu; b++) k.H(i * s + a, i * s + p.nx + b) = k.H(i * s + p.nx + b, i * s + a) = p.S[i](b, a);
      k.f(i * s + a) = p.q[i](a, 0);
    }
    for (int a = 0; a < p.nu; a++) {
      for (int b = 0; b < p.nu; b++) k.H(i * s + p.nx + a, i * s + p.nx + b) = p.R[i](a, b);
      k.f(i * s + p.nx + a) = p.r[i](a, 0);
    }
    for (int a = 0; a < p.nc; a++) {
      for (int b = 0; b < p.nx; b++) k.A(i * p.nc + a, i * s + b) = p.E[i](a, b);
      for (int b = 0; b < p.nu; b++) k.A(i * p.nc + a, i * s + p.nx + b) = p.L[i](a, b);
      k.b(i * p.nc + a) = -p.d[i](a, 0);
    }
    for (int a = 0; a < p.nx; a++) {
      k.G(i * p.nx + a, i * s + a) = -1;
      if (i == 0) {
        k.h(a) = -p.x0(a);
      } else {
        for (int b = 0; b < p.nx; b++) k.G(i * p.nx + a, (i - 1) * s + b) = p.A[i - 1](a, b);
        for (int b = 0; b < p.nu; b++) k.G(i * p.nx + a, (i - 1) * s + p.nx + b) = p.B[i - 1](a, b);
        k.h(i * p.nx + a) = -p.c[i - 1](a, 0);
      }
    }
  }
  return k;
}

inline fbstab::MatrixSequence seq(const std::vector<MatrixXd>& v) {
  fbstab::MatrixSequence s((int)v.size(), (int)v[0].rows(), (int)v[0].cols());
  for (int i = 0; i < (int)v.size(); i++) s(i) = v[i];
  return s;
}
inline fbstab::FBstabMpc::ProblemData data(const MP& p) {
  fbstab::FBstabMpc::ProblemData D;
  D.Q = seq(p.Q), D.R = seq(p.R), D.S = seq(p.S), D.q = seq(p.q), D.r = seq(p.r);
  D.A = seq(p.A), D.B = seq(p.B), D.c = seq(p.c);
  D.E = seq(p.E), D.L = seq(p.L), D.d = seq(p.d);
  D.x0 = p.x0;
  return D;
}

inline std::string show(const MP& p) {
  mc::S s;
  s << "N=" << p.N << " nx=" << p.nx << " nu=" << p.nu << " nc=" << p.nc;
  auto w = [&](const char* n, const std::vector<MatrixXd>& v) {
    s << " " << n << "=";
    for (auto& M : v) s << mat(M);
  };
  w("Q", p.Q), w("R", p.R), w("S", p.S), w("q", p.q), w("r", p.r), w("A", p.A), w("B", p.B), w("c", p.c);
  w("E", p.E), w("L", p.L), w("d", p.d);
  s << " x0=" << vec(p.x0);
  return s;
}

// Scalar positions of a problem other than the Hessian blocks.
struct MpcSpace {
  MP base;
  std::vector<double*> at(MP& p) const {
    std::vector<double*> v;
    auto add = [&](std::vector<MatrixXd>& s) {
      for (auto& M : s)
        for (int i = 0; i < M.size(); i++) v.push_back(M.data() + i);
    };
    add(p.q), add(p.r), add(p.A), add(p.B), add(p.c), add(p.E), add(p.L), add(p.d);
    for (int i = 0; i < p.x0.size(); i++) v.push_back(p.x0.data() + i);
    return v;
  }
  std::vector<double> alphabet;
  std::vector<MatrixXd> hess;
  mc::DevSpace* dev = nullptr;
  MpcSpace(const MP& b, const std::vector<double>& al, int k) : base(b), alphabet(al) {
    hess = hessians(b.nx + b.nu);
    std::vector<int> alt;
    for (int i = 0; i <= b.N; i++) alt.push_back((int)hess.size());
    size_t np = at(base).size();
    for (size_t i = 0; i < np; i++) alt.push_back((int)al.size());
    dev = new mc::DevSpace(alt, k);
  }
  ll size() const { return dev->size(); }
  static void set_hess(MP& p, int i, const MatrixXd& H) {
    p.Q[i] = H.topLeftCorner(p.nx, p.nx);
    p.R[i] = H.bottomRightCorner(p.nu, p.nu);
    p.S[i] = H.bottomLeftCorner(p.nu, p.nx);
  }
  MP get(ll i) const {
    MP p = base;
    auto v = at(p);
    for (auto& d : dev->cases[i]) {
      if (d.first <= base.N)
        set_hess(p, d.first, hess[d.second]);
      else
        *v[d.first - base.N - 1] = alphabet[d.second];
    }
    return p;
  }
};

// Base problems.  kind 0: strictly convex, feasible, all data different per stage;
// 1: linear program (no curvature) with box-like constraints; 2: semidefinite cost, unstable.
inline MP mpc_base(int N, int nx, int nu, int nc, int kind) {
  MP p;
  p.resize(N, nx, nu, nc);
  auto hs = hessians(nx + nu);
  auto val = [](int k) {
    static const double t[] = {1, 0, -1, 2, 0, 1, 1, -1, 0, 2, -2, 1, 0};
    return t[((k % 13) + 13) % 13];
  };
  for (int i = 0; i <= N; i++) {
    if (kind == 0) {
      MatrixXd H = MatrixXd::Zero(nx + nu, nx + nu);
      for (int a = 0; a < nx + nu; a++) H(a, a) = 3 + ((a + i) % 3);
      for (int a = 0; a + 1 < nx + nu; a++) H(a, a + 1) = H(a + 1, a) = ((a + i) % 2) ? 1 : -1;
      MpcSpace::set_hess(p, i, H);
    } else if (kind == 2) {
      MpcSpace::set_hess(p, i, hs[(3 + i) % hs.size()]);
    }
    for (int a = 0; a < nx; a++) p.q[i](a, 0) = val(3 * i + a + kind);
    for (int a = 0; a < nu; a++) p.r[i](a, 0) = val(5 * i + 2 * a + 1 + kind);
    for (int a = 0; a < nc; a++) {
      for (int b = 0; b < nx; b++) p.E[i](a, b) = kind == 1 ? ((a % 2) ? -1 : 1) : val(7 * i + a + 3 * b + 2);
      for (int b = 0; b < nu; b++) p.L[i](a, b) = kind == 1 ? ((a % 2) ? 1 : -1) : val(4 * i + 2 * a + b + 6);
      p.d[i](a, 0) = kind == 0 ? -3 - ((i + a) % 2) : -1 + ((i + a) % 3 == 2 ? -1 : 0);
    }
  }
  for (int i = 0; i < N; i++) {
    for (int a = 0; a < nx; a++) {
      for (int b = 0; b < nx; b++) p.A[i](a, b) = (a == b) ? 1 : val(2 * i + a + b + 1);
      for (int b = 0; b < nu; b++) p.B[i](a, b) = (kind == 2 && b == 0) ? 2 - i % 2 : val(i + a + 2 * b + 5 + kind);
      p.c[i](a, 0) = val(6 * i + a + 7);
    }
  }
  for (int a = 0; a < nx; a++) p.x0(a) = a % 2 ? -1 : 1;
  return p;
}

}  // namespace qp
