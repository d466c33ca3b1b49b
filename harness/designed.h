// Problems of any shape whose exact status is known by construction (no elimination needed):
//   mode 0: feasible and bounded, an optimal point z*, l*, v* is chosen first and the data follow from it
//   mode 1: as 0, but one constraint row is 0 <= -1                         (primal infeasible)
//   mode 2: as 0, but one row pair contradicts another                     (primal infeasible, needs two rows)
//   mode 3: as 0, but one variable is free, costs linearly and has no curvature (descending direction)
// Mode 4: the bounded problem with a degenerate vertex: all constraints active, half with zero multiplier.
#pragma once
#include "dense.h"
#include "mpcqp.h"

namespace qp {

static const int kModes = 5;
inline double pick(int k) {
  static const double t[] = {1, -1, 0.5, 2, 0, -0.5, 1, 0, -2, 1.5, -1, 0, 1};
  return t[((k % 13) + 13) % 13];
}

struct Design {
  Status st{true, false};
  bool ok = true, pd = false;
  VectorXd z, l, v;  // an optimal point (modes 0 and 4)
};

// at: which row / variable the defect is put on
inline QP design_dense(int n, int l, int m, int kind, int mode, int at, Design* d) {
  QP p;
  p.resize(n, l, m);
  for (int i = 0; i < n; i++) p.H(i, i) = kind == 0 ? 2 + i % 3 : kind == 2 && i % 2 == 0 ? 1 + i % 2 : 0;
  if (kind == 0)
    for (int i = 0; i + 1 < n; i++) p.H(i, i + 1) = p.H(i + 1, i) = (i % 2) ? 0.5 : -0.5;
  if (kind == 1 && n > 1) p.H.setConstant(0.25);  // rank one
  for (int r = 0; r < l; r++)
    for (int j = 0; j < n; j++) p.G(r, j) = j == r ? 1 : j < l ? 0 : pick(2 * r + 3 * j + 1);
  for (int r = 0; r < m; r++)
    for (int j = 0; j < n; j++) p.A(r, j) = j == r % n ? ((r / n) % 2 ? -1 : 1) : ((r + j) % 3 == 0 ? pick(5 * r + 2 * j) : 0);
  VectorXd z(n), lam(l), v(m);
  for (int i = 0; i < n; i++) z(i) = pick(3 * i + 1);
  for (int r = 0; r < l; r++) lam(r) = pick(4 * r + 2);
  for (int r = 0; r < m; r++) {
    bool active = mode == 4 || r % 3 != 1;
    v(r) = active && !(mode == 4 && r % 2) ? 1 + 0.5 * (r % 2) : 0;
    p.b(r) = p.A.row(r).dot(z) + (active ? 0 : 1 + r % 2);
  }
  if (mode == 3) {
    int c = at % n;
    p.H.row(c).setZero(), p.H.col(c).setZero(), p.A.col(c).setZero();
    if (l) p.G.col(c).setZero();
    for (int r = 0; r < m; r++) p.b(r) = p.A.row(r).dot(z) + (v(r) > 0 ? 0 : 1);
    d->st.descent = true;
  }
  if (l) p.h = p.G * z;
  p.f = -p.H * z - p.A.transpose() * v;
  if (l) p.f -= p.G.transpose() * lam;
  if (mode == 3) p.f(at % n) = at % 2 ? -1 : 1;
  if (mode == 1) p.A.row(at % m).setZero(), p.b(at % m) = -1, d->st.feasible = false;
  if (mode == 2) {
    d->ok = m >= 2;
    if (d->ok) {
      int a = at % m, b = (at + 1) % m;
      p.A.row(b) = -p.A.row(a), p.b(b) = -p.b(a) - 1;
      d->st.feasible = false;
    }
  }
  if ((mode == 1 || mode == 2) && kind != 0) {  // without the optimal point the cost must be bounded by itself
    p.f = -p.H * z;
  }
  d->pd = positive_definite(p.H);
  d->z = z, d->l = lam, d->v = v;
  return p;
}

inline MP design_mpc(int N, int nx, int nu, int nc, int kind, int mode, int at, Design* d) {
  MP p;
  p.resize(N, nx, nu, nc);
  for (int i = 0; i <= N; i++) {
    for (int a = 0; a < nx; a++) p.Q[i](a, a) = kind == 0 ? 2 + (a + i) % 3 : kind == 2 ? (a + i) % 2 : 0;
    for (int a = 0; a < nu; a++) p.R[i](a, a) = kind == 0 ? 1 + (a + i) % 2 : kind == 2 ? (a + i + 1) % 2 : 0;
    if (kind == 0) p.S[i](0, 0) = i % 2 ? 0.5 : -0.5;
    if (kind == 0 && nx > 1) p.Q[i](1, 0) = p.Q[i](0, 1) = 0.5;
    for (int a = 0; a < nc; a++) {
      for (int b = 0; b < nx; b++) p.E[i](a, b) = (a + b + i) % 2 ? pick(3 * i + a + 2 * b) : 0;
      for (int b = 0; b < nu; b++) p.L[i](a, b) = (a + b) % 2 ? 0 : (a % 4 < 2 ? 1 : -1);
    }
  }
  for (int i = 0; i < N; i++)
    for (int a = 0; a < nx; a++) {
      for (int b = 0; b < nx; b++) p.A[i](a, b) = a == b ? 0.5 : b == a + 1 ? (i % 2 ? 0.25 : -0.25) : 0;
      for (int b = 0; b < nu; b++) p.B[i](a, b) = (a + b) % 2 ? pick(i + a + b) : 1;
      p.c[i](a, 0) = 0.5 * pick(2 * i + 3 * a + 1);
    }
  // a trajectory, multipliers, and the data that make it optimal
  std::vector<VectorXd> x(N + 1, VectorXd::Zero(nx)), u(N + 1, VectorXd::Zero(nu)), lam(N + 1, VectorXd::Zero(nx)), v(N + 1, VectorXd::Zero(nc));
  for (int a = 0; a < nx; a++) p.x0(a) = x[0](a) = pick(a);
  int js = at % (N + 1);
  if (mode == 3) {  // the first control of the stage acts on nothing
    p.R[js].row(0).setZero(), p.R[js].col(0).setZero(), p.S[js].row(0).setZero(), p.L[js].col(0).setZero();
    if (js < N) p.B[js].col(0).setZero();
    d->st.descent = true;
  }
  for (int i = 0; i <= N; i++) {
    for (int b = 0; b < nu; b++) u[i](b) = 0.5 * pick(i + 2 * b + 3);
    if (i < N) x[i + 1] = p.A[i] * x[i] + p.B[i] * u[i] + p.c[i];
    for (int a = 0; a < nx; a++) lam[i](a) = pick(2 * i + a + 4);
    VectorXd w = p.E[i] * x[i] + p.L[i] * u[i];
    for (int a = 0; a < nc; a++) {
      bool active = mode == 4 || (i + a) % 3 != 1;
      v[i](a) = active && !(mode == 4 && (i + a) % 2) ? 1 + 0.5 * (a % 2) : 0;
      p.d[i](a, 0) = -w(a) - (active ? 0 : 1 + a % 2);
    }
  }
  for (int i = 0; i <= N; i++) {
    bool own = (mode == 1 || mode == 2) && kind != 0;
    VectorXd q = -(p.Q[i] * x[i] + p.S[i].transpose() * u[i]), r = -(p.R[i] * u[i] + p.S[i] * x[i]);
    if (!own) {
      q += lam[i] - p.E[i].transpose() * v[i];
      r -= p.L[i].transpose() * v[i];
      if (i < N) q -= p.A[i].transpose() * lam[i + 1], r -= p.B[i].transpose() * lam[i + 1];
    }
    p.q[i] = q, p.r[i] = r;
  }
  if (mode == 3) p.r[js](0, 0) = at % 2 ? -1 : 1;
  if (mode == 1) {
    int a = (at / (N + 1)) % nc;
    p.E[js].row(a).setZero(), p.L[js].row(a).setZero(), p.d[js](a, 0) = 1;
    d->st.feasible = false;
  }
  if (mode == 2) {
    d->ok = nc >= 2;
    if (d->ok) {
      p.E[js].row(1) = -p.E[js].row(0), p.L[js].row(1) = -p.L[js].row(0), p.d[js](1, 0) = -p.d[js](0, 0) + 1;
      d->st.feasible = false;
    }
  }
  d->pd = positive_definite(expand(p).H);
  d->z.resize(p.nz()), d->l.resize(p.nl()), d->v.resize(p.nv());
  for (int i = 0; i <= N; i++) d->l.segment(i * nx, nx) = lam[i], d->v.segment(i * nc, nc) = v[i];
  for (int i = 0; i <= N; i++) d->z.segment(i * (nx + nu), nx) = x[i], d->z.segment(i * (nx + nu) + nx, nu) = u[i];
  return p;
}

// Shapes beyond any likely size threshold (block sizes, unrolling, fixed buffers, cached lengths).
static const int kLargeD[][3] = {{17, 3, 20}, {20, 0, 33}, {1, 0, 40}, {24, 20, 5}, {33, 5, 40}, {16, 16, 16}, {2, 1, 65}, {40, 9, 10}, {5, 2, 129}, {65, 1, 3}, {70, 33, 70}, {3, 0, 300}};
static const int kLargeM[][4] = {{33, 1, 1, 1}, {2, 9, 1, 1}, {1, 1, 9, 2}, {2, 2, 2, 17}, {70, 1, 1, 2}, {20, 3, 2, 4}, {2, 8, 8, 9}, {40, 2, 1, 1}, {100, 1, 1, 1}, {50, 2, 2, 3}, {1, 17, 5, 3}, {3, 4, 17, 2}, {1, 3, 2, 40}, {17, 1, 2, 1}, {129, 1, 1, 1}, {5, 1, 1, 33}};
static const int nLargeD = sizeof kLargeD / sizeof *kLargeD, nLargeM = sizeof kLargeM / sizeof *kLargeM;

}  // namespace qp
