// Reference side for QPs: exact classification (Fourier-Motzkin over integers), independent
// KKT residuals in long double, certificate checks, problem generators.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

#include "fm.h"
#include "mc.h"

namespace qp {
using Eigen::MatrixXd;
using Eigen::VectorXd;
using mc::ll;
typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> MatL;
typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> VecL;

struct QP {
  int n = 0, l = 0, m = 0;
  MatrixXd H, G, A;
  VectorXd f, h, b;
  void resize(int n_, int l_, int m_) {
    n = n_, l = l_, m = m_;
    H = MatrixXd::Zero(n, n), G = MatrixXd::Zero(l, n), A = MatrixXd::Zero(m, n);
    f = VectorXd::Zero(n), h = VectorXd::Zero(l), b = VectorXd::Zero(m);
  }
  double forcing() const { return std::sqrt(f.squaredNorm() + h.squaredNorm() + b.squaredNorm()); }
};

inline std::string vec(const VectorXd& v) {
  mc::S s;
  s << "[";
  for (int i = 0; i < v.size(); i++) s << (i ? " " : "") << v(i);
  s << "]";
  return s;
}
inline std::string mat(const MatrixXd& M) {
  mc::S s;
  s << "[";
  for (int i = 0; i < M.rows(); i++) {
    if (i) s << "; ";
    for (int j = 0; j < M.cols(); j++) s << (j ? " " : "") << M(i, j);
  }
  s << "]";
  return s;
}
inline std::string show(const QP& p) {
  mc::S s;
  s << "H=" << mat(p.H) << " f=" << vec(p.f);
  if (p.l) s << " G=" << mat(p.G) << " h=" << vec(p.h);
  s << " A=" << mat(p.A) << " b=" << vec(p.b);
  return s;
}

struct Status {
  bool feasible, descent;  // primal feasible; has descending recession direction
  bool bounded() const { return feasible && !descent; }
};
// Exact: all data times `scale` must be integers.
inline Status classify(const QP& p, double scale = 2.0) {
  std::vector<Row> eq, in, deq, din;
  auto I_ = [&](double x) { return (I)llround(x * scale); };
  for (int i = 0; i < p.l; i++) {
    Row r;
    for (int j = 0; j < p.n; j++) r.push_back(I_(p.G(i, j)));
    r.push_back(I_(p.h(i)));
    eq.push_back(r);
    r[p.n] = 0;
    deq.push_back(r);
  }
  for (int i = 0; i < p.m; i++) {
    Row r;
    for (int j = 0; j < p.n; j++) r.push_back(I_(p.A(i, j)));
    r.push_back(I_(p.b(i)));
    in.push_back(r);
    r[p.n] = 0;
    din.push_back(r);
  }
  for (int i = 0; i < p.n; i++) {
    Row r;
    for (int j = 0; j < p.n; j++) r.push_back(I_(p.H(i, j)));
    r.push_back(0);
    deq.push_back(r);
  }
  Row r;
  for (int j = 0; j < p.n; j++) r.push_back(I_(p.f(j)));
  r.push_back(-1);
  din.push_back(r);
  Status s;
  s.feasible = Feasible(eq, in, p.n);
  s.descent = Feasible(deq, din, p.n);
  return s;
}
// Small integer/half-integer matrices: LDLT pivots are exact enough to decide definiteness.
inline bool positive_definite(const MatrixXd& H) {
  MatL M = H.cast<long double>();
  int n = M.rows();
  for (int k = 0; k < n; k++) {
    if (!(M(k, k) > 1e-6L)) return false;
    for (int i = k + 1; i < n; i++)
      for (int j = k + 1; j < n; j++) M(i, j) -= M(i, k) * M(k, j) / M(k, k);
  }
  return true;
}

struct Kkt {
  long double rz, rl, rv;       // norms: stationarity, equalities, min(y,v)
  long double pen;              // penalized natural residual (documented stopping measure)
  long double comp;             // max of y+ * v+
  long double total() const { return std::sqrt(rz * rz + rl * rl + rv * rv); }
};
inline Kkt kkt(const QP& p, const VectorXd& z_, const VectorXd& l_, const VectorXd& v_, double alpha) {
  VecL z = z_.cast<long double>(), l = l_.cast<long double>(), v = v_.cast<long double>();
  MatL H = p.H.cast<long double>(), G = p.G.cast<long double>(), A = p.A.cast<long double>();
  VecL rz = H * z + p.f.cast<long double>() + A.transpose() * v;
  VecL rl = p.h.cast<long double>();
  if (p.l) {
    rz += G.transpose() * l;
    rl -= G * z;
  }
  VecL y = p.b.cast<long double>() - A * z;
  Kkt k;
  k.rz = rz.norm();
  k.rl = p.l ? rl.norm() : 0;
  long double s = 0, t = 0;
  k.comp = 0;
  for (int i = 0; i < p.m; i++) {
    long double mn = std::min(y(i), v(i));
    long double pp = std::max(0.0L, y(i)) * std::max(0.0L, v(i));
    s += mn * mn;
    long double w = alpha * mn + (1 - alpha) * pp;
    t += w * w;
    k.comp = std::max(k.comp, pp);
  }
  k.rv = std::sqrt(s);
  k.pen = std::sqrt(k.rz * k.rz + k.rl * k.rl + t);
  return k;
}
inline double cost(const QP& p, const VectorXd& z) { return 0.5 * z.dot(p.H * z) + p.f.dot(z); }
inline double inf(const VectorXd& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0.0; }

// Is (l,v) a numerically valid proof that the constraints contradict each other?
inline bool primal_certificate(const QP& p, const VectorXd& l, const VectorXd& v, double tol, std::string* why) {
  double u = std::max(inf(v), inf(l));
  if (!(u > 0) || !std::isfinite(u)) return *why = "multipliers are zero or not finite", false;
  VectorXd r = p.A.transpose() * v;
  double bh = p.b.dot(v), s = inf(p.b);
  if (p.l) r += p.G.transpose() * l, bh += p.h.dot(l), s = std::max(s, inf(p.h));
  double eps = 1e-12 * (1 + inf(p.A.rowwise().sum()) + (p.l ? inf(p.G.rowwise().sum()) : 0));
  if (!(inf(r) <= (1.01 * tol + eps) * u)) return *why = "A'v+G'l is not zero", false;
  if (!(v.minCoeff() >= -(1.01 * tol + eps) * u)) return *why = "v has a negative entry", false;
  if (!(bh < -10 * tol * u * s)) return *why = "b'v+h'l is not negative", false;
  return true;
}
inline bool dual_certificate(const QP& p, const VectorXd& z, double tol, std::string* why) {
  double w = inf(z);
  if (!(w > 0) || !std::isfinite(w)) return *why = "direction is zero or not finite", false;
  double eps = 1e-12 * (1 + inf(p.A.rowwise().sum()) + inf(p.H.rowwise().sum()) + (p.l ? inf(p.G.rowwise().sum()) : 0));
  if (!(inf(p.H * z) <= (1.01 * tol + eps) * w)) return *why = "Hz is not zero", false;
  if (p.l && !(inf(p.G * z) <= (1.01 * tol + eps) * w)) return *why = "Gz is not zero", false;
  if (!((p.A * z).maxCoeff() <= (1.01 * tol + eps) * w)) return *why = "Az has a positive entry", false;
  if (!(p.f.dot(z) < -10 * tol * w * inf(p.f))) return *why = "f'z is not negative", false;
  return true;
}

// Positive semidefinite integer Hessians.
inline std::vector<MatrixXd> hessians(int n) {
  std::vector<MatrixXd> Hs;
  if (n == 1) {
    for (double h : {0., 1., 2.}) Hs.push_back(MatrixXd::Constant(1, 1, h));
  } else if (n == 2) {
    double L[][3] = {{0, 0, 0}, {1, 0, 0}, {0, 0, 1}, {1, 1, 1}, {1, -1, 1}, {1, 0, 1}, {2, 1, 2}, {2, -1, 1}, {4, 2, 1}};
    for (auto& q : L) {
      MatrixXd H(2, 2);
      H << q[0], q[1], q[1], q[2];
      Hs.push_back(H);
    }
  } else if (n == 3) {
    double L[][6] = {{0, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {1, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 1},
                     {1, 1, 1, 1, 1, 1}, {2, 1, 0, 2, 1, 2}, {1, 0, -1, 0, 0, 1}};
    for (auto& q : L) {
      MatrixXd H(3, 3);
      H << q[0], q[1], q[2], q[1], q[3], q[4], q[2], q[4], q[5];
      Hs.push_back(H);
    }
  } else {
    Hs.push_back(MatrixXd::Zero(n, n));
    Hs.push_back(MatrixXd::Identity(n, n));
    MatrixXd T = 2 * MatrixXd::Identity(n, n);
    for (int i = 0; i + 1 < n; i++) T(i, i + 1) = T(i + 1, i) = (i % 2 ? 1 : -1);
    Hs.push_back(T);  // diagonally dominant (weakly): positive definite tridiagonal
    VectorXd a(n);
    for (int i = 0; i < n; i++) a(i) = (i % 3) - 1;
    Hs.push_back(a * a.transpose());  // rank one
    MatrixXd D = MatrixXd::Zero(n, n);
    for (int i = 0; i < n; i += 2) D(i, i) = 1 + i;
    Hs.push_back(D);
  }
  return Hs;
}

}  // namespace qp
