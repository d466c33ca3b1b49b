// C07: every operator of the problem-data classes against the explicit matrices of the
// documented problem, for every scaling pair, shape, basis vector and contents of y.
#include <limits>

#include "fbstab/components/dense_data.h"
#include "fbstab/components/mpc_data.h"
#include "solve.h"

using namespace qp;
using mc::S;
static mc::Run R;

static const double kScale[] = {1, 0, -1, 2, -0.5, 3, 0.25};
static const int nScale = 7;

// position-coded data: every scalar of the problem is different
struct Code {
  int k = 0;
  double operator()() {
    k++;
    return (k % 2 ? 1.0 : -1.0) * (1 + (k * 7) % 997) * 0.5;
  }
};
static MP coded(int N, int nx, int nu, int nc, int kind) {
  MP p;
  p.resize(N, nx, nu, nc);
  Code c;
  auto fill = [&](std::vector<MatrixXd>& s, bool sym) {
    for (int i = 0; i < (int)s.size(); i++) {
      auto& M = s[i];
      for (int j = 0; j < M.cols(); j++)
        for (int r = 0; r < M.rows(); r++)
          if (!sym || r >= j) {
            M(r, j) = c();
            if (sym) M(j, r) = M(r, j);
          }
      if (kind == 1 && i % 2 == 0) M.setZero();                               // zero blocks
      if (kind == 2) M = (M.rows() == M.cols()) ? MatrixXd::Identity(M.rows(), M.cols()).eval() : MatrixXd::Ones(M.rows(), M.cols()).eval();
    }
  };
  fill(p.Q, true), fill(p.R, true), fill(p.S, false), fill(p.q, false), fill(p.r, false);
  fill(p.A, false), fill(p.B, false), fill(p.c, false), fill(p.E, false), fill(p.L, false), fill(p.d, false);
  for (int i = 0; i < nx; i++) p.x0(i) = kind == 1 ? 0 : c();
  return p;
}
static QP coded(int n, int l, int m, int kind) {
  QP p;
  p.resize(n, l, m);
  Code c;
  for (int j = 0; j < n; j++)
    for (int i = j; i < n; i++) p.H(i, j) = p.H(j, i) = c();
  for (int j = 0; j < n; j++)
    for (int i = 0; i < l; i++) p.G(i, j) = c();
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++) p.A(i, j) = c();
  for (int i = 0; i < n; i++) p.f(i) = c();
  for (int i = 0; i < l; i++) p.h(i) = c();
  for (int i = 0; i < m; i++) p.b(i) = c();
  if (kind == 1) p.A.setZero(), p.b.setZero();
  if (kind == 2) p.H.setZero(), p.f.setZero();
  return p;
}

// The same data with entries of magnitudes 1e-12 .. 1e12 (every entry has its own).
static double magnitude(int k) { return std::pow(10.0, (k * 7) % 25 - 12); }
static void spread(MP* p) {
  int k = 0;
  for (auto v : {&p->Q, &p->R, &p->S, &p->q, &p->r, &p->A, &p->B, &p->c, &p->E, &p->L, &p->d})
    for (auto& M : *v) {
      bool sym = v == &p->Q || v == &p->R;
      for (int j = 0; j < M.cols(); j++)
        for (int r = sym ? j : 0; r < M.rows(); r++) {
          M(r, j) *= magnitude(++k);
          if (sym) M(j, r) = M(r, j);
        }
    }
  for (int i = 0; i < p->nx; i++) p->x0(i) *= magnitude(++k);
}
static void spread(QP* p) {
  int k = 0;
  for (int j = 0; j < p->H.cols(); j++)
    for (int i = j; i < p->H.rows(); i++) p->H(i, j) *= magnitude(++k), p->H(j, i) = p->H(i, j);
  for (auto M : {&p->G, &p->A})
    for (int i = 0; i < M->size(); i++) M->data()[i] *= magnitude(++k);
  for (auto v : {&p->f, &p->h, &p->b})
    for (int i = 0; i < v->size(); i++) (*v)(i) *= magnitude(++k);
}

static const char* kOp[] = {"gemvH", "gemvA", "gemvAT", "gemvG", "gemvGT", "axpyf", "axpyb", "axpyh"};

// A data object of either class, whose operators are called through the same interface.
template <class D>
static void apply(const D& d, int op, const VectorXd& x, double a, double b, VectorXd* y) {
  switch (op) {
    case 0: d.gemvH(x, a, b, y); break;
    case 1: d.gemvA(x, a, b, y); break;
    case 2: d.gemvAT(x, a, b, y); break;
    case 3: d.gemvG(x, a, b, y); break;
    case 4: d.gemvGT(x, a, b, y); break;
    case 5: d.axpyf(a, y); break;
    case 6: d.axpyb(a, y); break;
    default: d.axpyh(a, y);
  }
}
static MatrixXd matrix(const QP& p, int op) {
  switch (op) {
    case 0: return p.H;
    case 1: return p.A;
    case 2: return p.A.transpose();
    case 3: return p.G;
    case 4: return p.G.transpose();
    case 5: return p.f;
    case 6: return p.b;
    default: return p.h;
  }
}

template <class D>
static void check_op(const D& d, const QP& p, int op, double a, double b, const std::string& what) {
  MatrixXd M = matrix(p, op);
  bool axpy = op >= 5;
  int rows = M.rows(), cols = axpy ? 1 : M.cols();
  double nan = std::numeric_limits<double>::quiet_NaN(), infty = std::numeric_limits<double>::infinity();
  for (int xk = 0; xk < (axpy ? 1 : cols + 3) && !R.violated; xk++) {
    VectorXd x(axpy ? 0 : cols);
    if (!axpy) {
      if (xk < cols) x = VectorXd::Unit(cols, xk);
      else if (xk == cols) x.setZero();
      else
        for (int i = 0; i < cols; i++) x(i) = xk == cols + 1 ? 1 : (i % 2 ? -1 : 1) * (2 + (i * 5) % 7) * 0.5;
    }
    for (int yk = 0; yk < 5 && !R.violated; yk++) {
      if (yk >= 3 && (axpy || b != 0)) break;  // undefined contents are only allowed when overwritten
      VectorXd y(rows);
      for (int i = 0; i < rows; i++) y(i) = yk == 0 ? 0 : yk == 1 ? (i % 2 ? 1 : -1) * (1 + i % 5) : yk == 2 ? 1000 + i : yk == 3 ? nan : infty;
      VectorXd want = axpy ? VectorXd(a * M + y) : VectorXd(a * (M * x));
      if (!axpy && b != 0) want += b * y;
      VectorXd x0 = x, y0 = y;
      R.transitions++;
      apply(d, op, x, a, b, &y);
      R.validated++;
      uint64_t h = mc::fnv(y.data(), rows * 8, mc::fnv(x.data(), x.size() * 8));
      R.state(mc::fnv(&op, 4, mc::fnv(&a, 8, mc::fnv(&b, 8, mc::fnv(M.data(), M.size() * 8, mc::fnv(y0.data(), rows * 8, h))))));
      double scale = 1e-13 * (1 + std::abs(a) * (M.cwiseAbs().rowwise().sum().size() ? M.cwiseAbs().rowwise().sum().maxCoeff() : 0.0) * (1 + inf(x)) + (b != 0 || axpy ? (1 + std::abs(b)) * inf(y0) : 0.0));
      bool ok = y.size() == rows && same_bits(x, x0);
      for (int i = 0; ok && i < rows; i++) ok = std::abs(y(i) - want(i)) <= scale;
      if (!ok)
        R.fail(S() << kOp[op] << "(a=" << a << ", b=" << b << ") gives " << vec(y) << " but should give " << vec(want) << " for x=" << vec(x0) << " y=" << vec(y0) << (same_bits(x, x0) ? "" : " (x was modified)") << " on " << what);
      if (R.want_sample && xk == 0 && yk == 1) R.sample(S() << kOp[op] << " a=" << a << " b=" << b << " x=" << vec(x0) << " y=" << vec(y0) << " -> " << vec(y) << " on " << what);
    }
  }
}

// Every product with every magnitude of the scalings, of one entry of x at a time and of all,
// and of y: each row is compared relative to the sizes of its own terms.
static const double kBig[] = {1, -1e-12, 1e-7, -1e-3, 1e4, -1e9, 1e14};
static const int nBig = 7;
template <class D>
static void check_magnitudes(const D& d, const QP& p, int op, double a, double b, const std::string& what) {
  MatrixXd M = matrix(p, op);
  bool axpy = op >= 5;
  int rows = M.rows(), cols = axpy ? 1 : M.cols();
  for (int xk = 0; xk < (axpy ? 1 : cols + 3) && !R.violated; xk++)
    for (int e = -15; e <= 15 && !R.violated; e += 3) {
      VectorXd x(axpy ? 0 : cols), y(rows);
      for (int i = 0; i < x.size(); i++) {
        if (xk < cols) x(i) = i == xk ? 1.25 * std::pow(10, e) : 0;
        else x(i) = (i % 2 ? -1.5 : 1.75) * (xk == cols ? std::pow(10, e) : xk == cols + 1 ? magnitude(i + e + 15) : 1);
      }
      for (int i = 0; i < rows; i++) y(i) = (i % 2 ? 1.25 : -1.5) * (xk % 2 ? magnitude(3 * i + e + 15) : std::pow(10, e));
      VectorXd want = axpy ? VectorXd(a * M + y) : VectorXd(a * (M * x) + b * y);
      VectorXd size = axpy ? VectorXd(std::abs(a) * M.cwiseAbs() + y.cwiseAbs()) : VectorXd(std::abs(a) * (M.cwiseAbs() * x.cwiseAbs()) + std::abs(b) * y.cwiseAbs());
      VectorXd x0 = x, y0 = y;
      R.transitions++, R.validated++;
      apply(d, op, x, a, b, &y);
      R.state(mc::fnv(&op, 4, mc::fnv(&a, 8, mc::fnv(&b, 8, mc::fnv(M.data(), M.size() * 8, mc::fnv(y0.data(), rows * 8, mc::fnv(x.data(), x.size() * 8)))))));
      bool ok = y.size() == rows && same_bits(x, x0);
      for (int i = 0; ok && i < rows; i++) ok = std::abs(y(i) - want(i)) <= 1e-12 * size(i);
      if (!ok) R.fail(S() << kOp[op] << "(a=" << a << ", b=" << b << ") gives " << vec(y) << " but should give " << vec(want) << " for x=" << vec(x0) << " y=" << vec(y0) << " on " << what);
    }
}

static void ops_case(mc::ll i, const std::function<void(int op, double a, double b)>& f) {
  mc::Dec d(i);
  int op = d.digit(8);
  double a = kScale[d.digit(nScale)], b = kScale[d.digit(nScale)];
  f(op, a, b);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  const int per = 8 * nScale * nScale;
  int maxN = T ? 5 : 3, maxd = T ? 5 : 4;

  auto mpc_case = [&](const int* s, int kind, mc::ll i) {
    MP mp = coded(s[0], s[1], s[2], s[3], kind);
    QP p = expand(mp);
    auto D = data(mp);
    fbstab::MpcData m(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
    ops_case(i, [&](int op, double a, double b) { check_op(m, p, op, a, b, S() << "optimal-control data N=" << s[0] << " nx=" << s[1] << " nu=" << s[2] << " nc=" << s[3] << " kind " << kind); });
    double fn = p.forcing();
    if (!(std::abs(m.ForcingNorm() - fn) <= 1e-12 * (1 + fn))) R.fail(S() << "forcing norm " << m.ForcingNorm() << " instead of " << fn << " for " << show(mp));
  };
  auto dense_case = [&](int n, int l, int m, int kind, mc::ll i) {
    QP p = coded(n, l, m, kind);
    auto D = data(p);
    fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
    ops_case(i, [&](int op, double a, double b) { check_op(dd, p, op, a, b, S() << "dense data n=" << n << " l=" << l << " m=" << m << " kind " << kind); });
    double fn = p.forcing();
    if (!(std::abs(dd.ForcingNorm() - fn) <= 1e-12 * (1 + fn))) R.fail(S() << "forcing norm " << dd.ForcingNorm() << " instead of " << fn << " for " << show(p));
  };
  for (int kind = 0; kind < 3; kind++) {
    mc::ll shapes = (mc::ll)maxN * maxd * maxd * maxd;
    R.family(S() << "mpc-operators-data" << kind, shapes * per, [&](mc::ll i) {
      mc::Dec d(i / per);
      int s[4];
      s[0] = 1 + d.digit(maxN), s[1] = 1 + d.digit(maxd), s[2] = 1 + d.digit(maxd), s[3] = 1 + d.digit(maxd);
      mpc_case(s, kind, i % per);
    });
    int dn = T ? 9 : 6, dl = T ? 5 : 4, dm = T ? 9 : 6;
    R.family(S() << "dense-operators-data" << kind, (mc::ll)dn * dl * dm * per, [&](mc::ll i) {
      mc::Dec d(i / per);
      int n = 1 + d.digit(dn), l = d.digit(dl), m = 1 + d.digit(dm);
      dense_case(n, l, m, kind, i % per);
    });
    // one dimension at a time is large
    static const int kLong[][4] = {{9, 1, 1, 1}, {21, 2, 1, 2}, {2, 9, 1, 1}, {2, 1, 9, 1}, {2, 1, 1, 9}, {5, 6, 5, 7}, {64, 1, 1, 1}, {1, 17, 2, 3}, {1, 2, 17, 3}, {1, 2, 3, 17}};
    R.family(S() << "mpc-operators-large-data" << kind, 10ll * per, [&](mc::ll i) { mpc_case(kLong[i / per], kind, i % per); });
    static const int kWide[][3] = {{17, 0, 1}, {1, 0, 17}, {9, 8, 3}, {16, 5, 20}, {33, 1, 2}, {3, 2, 33}, {24, 20, 40}};
    R.family(S() << "dense-operators-large-data" << kind, 7ll * per, [&](mc::ll i) {
      const int* w = kWide[i / per];
      dense_case(w[0], w[1], w[2], kind, i % per);
    });
  }
  // magnitudes
  {
    static const int kShape[][4] = {{1, 1, 1, 1}, {2, 2, 1, 3}, {3, 1, 2, 1}, {2, 3, 2, 2}, {1, 4, 3, 5}};
    static const int kDense[][3] = {{1, 1, 1}, {2, 0, 3}, {4, 2, 3}, {3, 3, 6}, {9, 4, 5}};
    const int per2 = 8 * nBig * nBig;
    auto pick = [&](mc::ll i, const std::function<void(int, double, double)>& f) {
      mc::Dec d(i);
      int op = d.digit(8);
      double a = kBig[d.digit(nBig)], b = kBig[d.digit(nBig)];
      f(op, a, b);
    };
    for (int data_kind = 0; data_kind < 2; data_kind++) {
      R.family(S() << "mpc-operators-magnitudes" << data_kind, 5ll * per2, [&](mc::ll i) {
        const int* s = kShape[i / per2];
        MP mp = coded(s[0], s[1], s[2], s[3], 0);
        if (data_kind) spread(&mp);
        QP p = expand(mp);
        auto D = data(mp);
        fbstab::MpcData m(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
        pick(i % per2, [&](int op, double a, double b) { check_magnitudes(m, p, op, a, b, S() << "optimal-control data N=" << s[0] << " nx=" << s[1] << " nu=" << s[2] << " nc=" << s[3] << (data_kind ? " of magnitudes 1e-12..1e12" : "")); });
      });
      R.family(S() << "dense-operators-magnitudes" << data_kind, 5ll * per2, [&](mc::ll i) {
        const int* s = kDense[i / per2];
        QP p = coded(s[0], s[1], s[2], 0);
        if (data_kind) spread(&p);
        auto D = data(p);
        fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
        pick(i % per2, [&](int op, double a, double b) { check_magnitudes(dd, p, op, a, b, S() << "dense data n=" << s[0] << " l=" << s[1] << " m=" << s[2] << (data_kind ? " of magnitudes 1e-12..1e12" : "")); });
      });
    }
    // the forcing norm of one linear term of every magnitude, alone and next to one of size 1
    R.family("forcing-magnitudes", 2 * 61 * 2 * 6, [&](mc::ll i) {
      mc::Dec d(i);
      bool alone = d.digit(2);
      double v = 1.5 * std::pow(10.0, d.digit(61) - 30);
      bool dense = d.digit(2);
      int at = d.digit(6);
      R.transitions++, R.validated++;
      R.state(mc::fnv(&i, 8));
      double want = alone ? v : std::hypot(v, 1.0), got;
      if (dense) {
        if (at >= 3) return;
        QP p = coded(3, 2, 4, 0);
        p.f.setZero(), p.h.setZero(), p.b.setZero();
        (at == 0 ? p.f : at == 1 ? p.h : p.b)(1) = v;
        if (!alone) p.f(2) = -1;
        auto D = data(p);
        fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
        got = dd.ForcingNorm();
      } else {
        if (at >= 5) return;
        MP p;
        p.resize(2, 2, 2, 3);
        (at == 0 ? p.q[1](1) : at == 1 ? p.r[2](0) : at == 2 ? p.c[1](1) : at == 3 ? p.d[2](2) : p.x0(1)) = v;
        if (!alone) p.q[0](0) = -1;
        auto D = data(p);
        fbstab::MpcData m(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
        got = m.ForcingNorm();
      }
      if (!(std::abs(got - want) <= 1e-12 * want)) R.fail(S() << "forcing norm " << got << " instead of " << want << (dense ? " of dense data" : " of optimal-control data") << " with linear term " << at << " of size " << v << (alone ? "" : " and one of size 1"));
    });
  }
  // the forcing norm: one linear term at a time, and all of them
  struct Sh {
    int N, nx, nu, nc;
  } sh[] = {{1, 1, 1, 1}, {2, 2, 1, 2}, {3, 1, 2, 1}, {3, 3, 2, 4}};
  for (auto& s : sh) {
    int nt = (s.N + 1) * (s.nx + s.nu + s.nc) + s.N * s.nx + s.nx;
    R.family(S() << "forcing-" << s.N << "-" << s.nx << "-" << s.nu << "-" << s.nc, nt * (nt + 1) / 2 + 1, [&](mc::ll i) {
      MP p;
      p.resize(s.N, s.nx, s.nu, s.nc);
      std::vector<double*> at;
      for (auto v : {&p.q, &p.r, &p.d, &p.c})
        for (auto& M : *v)
          for (int k = 0; k < M.size(); k++) at.push_back(M.data() + k);
      for (int k = 0; k < s.nx; k++) at.push_back(&p.x0(k));
      // pairs (a<=b)
      int a = 0, b = 0;
      mc::ll k = i - 1;
      if (i > 0) {
        while (k >= nt - a) k -= nt - a, a++;
        b = a + (int)k;
        *at[a] = 3, *at[b] = -4;
      }
      auto D = data(p);
      fbstab::MpcData m(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      R.transitions++, R.validated++;
      double want = i == 0 ? 0 : a == b ? 4 : 5;
      R.state(mc::fnv(&i, 8, mc::fnv(&s, sizeof s)));
      if (!(std::abs(m.ForcingNorm() - want) <= 1e-12)) R.fail(S() << "forcing norm " << m.ForcingNorm() << " instead of " << want << " for " << show(p));
    });
  }
  return R.finish();
}
