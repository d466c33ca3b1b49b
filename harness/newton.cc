// C08: the step returned by both linear solvers is put back into the documented system
//   [H+sI  G'   A'] [dz]   [rz]
//   [-G    sI   0 ] [dl] = [rl]      C = diag(gamma), D = diag(mu + s*gamma), (gamma,mu) a generalized
//   [-CA   0    D ] [dv]   [rv]      derivative of the penalized Fischer-Burmeister function at (y+s(v-vbar), v)
// and dy = b - A*dz, in long double, for every iterate / centre / regularization / alpha / right-hand side.
#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "designed.h"
#include "solve.h"

using namespace qp;
using mc::S;
static mc::Run R;

typedef long double ld;
struct Box {
  ld g0, g1, m0, m1;  // admissible gamma in [g0,g1], mu in [m0,m1]
};
static Box derivative(ld a, ld b, ld alpha) {
  ld r = sqrtl(a * a + b * b);
  ld d = 1 / sqrtl(2.0L);
  if (r < 1e-13L) return Box{alpha * (1 - d), alpha * (1 - d), alpha * (1 - d), alpha * (1 - d)};
  ld g = alpha * (1 - a / r), m = alpha * (1 - b / r);
  Box x{g, g, m, m};
  // slope of max(0,a)*max(0,b); at a kink every value between the one-sided slopes is a derivative
  ld sg = b > 0 ? (1 - alpha) * b : 0, sm = a > 0 ? (1 - alpha) * a : 0;
  ld tiny = 1e-15L;
  if (a > tiny) x.g0 += sg, x.g1 += sg;
  else if (a >= -tiny) x.g1 += sg;
  if (b > tiny) x.m0 += sm, x.m1 += sm;
  else if (b >= -tiny) x.m1 += sm;
  return x;
}

// the first argument is computed in double precision, so it is only known up to rounding
static Box derivative(ld a, ld b, ld alpha, ld fuzz) {
  Box x = derivative(a, b, alpha);
  if (fuzz <= 0) return x;
  auto join = [&](ld c) {
    Box o = derivative(c, b, alpha);
    x.g0 = std::min(x.g0, o.g0), x.g1 = std::max(x.g1, o.g1), x.m0 = std::min(x.m0, o.m0), x.m1 = std::max(x.m1, o.m1);
  };
  join(a - fuzz), join(a + fuzz);
  if (fabsl(a) <= fuzz) join(0);
  return x;
}

static double worst = 0;
static bool T_ = false;
// regularizations below 1e-6: the squared growth of the worst case would hide every error, and is never seen
static const double kSmallSigma[] = {1e-8, 1e-10, 1e-12, 1e-13};
static double worst_small = 0;

struct Setup {
  const QP* p;
  double sigma, alpha;
  VectorXd v, vbar, y;
  bool tight = false;  // no elimination with 1/sigma: a definite Hessian in the dense factorization
};

static bool check_step(const Setup& s, const VectorXd& rz_, const VectorXd& rl_, const VectorXd& rv_, const Point& dx, std::string* why) {
  const QP& p = *s.p;
  MatL H = p.H.cast<ld>(), G = p.G.cast<ld>(), A = p.A.cast<ld>();
  VecL dz = dx.z.cast<ld>(), dl = dx.l.cast<ld>(), dv = dx.v.cast<ld>(), rz = rz_.cast<ld>(), rl = rl_.cast<ld>(), rv = rv_.cast<ld>();
  if (!finite(dx)) return *why = "step is not finite", false;
  ld sg = s.sigma;
  VecL e1 = H * dz + sg * dz + A.transpose() * dv - rz;
  if (p.l) e1 += G.transpose() * dl;
  VecL e2 = sg * dl - rl;
  if (p.l) e2 -= G * dz;
  VecL Adz = A * dz;
  ld amax = A.cwiseAbs().maxCoeff(), zmax = dz.cwiseAbs().maxCoeff();
  ld big = 0;
  // the condensed system has entries of the size of Gamma = gamma/(mu+s*gamma)
  std::vector<Box> bx(p.m);
  for (int i = 0; i < p.m; i++) {
    ld move = sg * ((ld)s.v(i) - s.vbar(i));
    bx[i] = derivative((ld)s.y(i) + move, s.v(i), s.alpha, move == 0 ? 0 : 2.3e-16L * (std::abs((ld)s.y(i)) + 2 * std::abs(move)));
    ld dmin = bx[i].m0 + sg * bx[i].g0;
    big = std::max(big, bx[i].g1 / dmin);
    big = std::max(big, 1 / dmin);
  }
  ld gm = p.l ? G.cwiseAbs().maxCoeff() / sg : 0;
  const bool small = sg < 1e-7L && !s.tight;
  const ld g0 = p.l ? G.cwiseAbs().maxCoeff() : 0;
  ld grow = s.tight ? 1 + g0 * g0 * p.n * 100 : 1 + gm * (small ? 1 : gm) + gm * (p.l ? G.cwiseAbs().maxCoeff() : 0);  // element growth of LDL' / Riccati factors
  ld scale1 = (1 + H.cwiseAbs().maxCoeff() + big * amax * amax * p.n + grow) * (zmax + 1e-300L) + (1 + big) * amax * rv.cwiseAbs().maxCoeff() + rz.cwiseAbs().maxCoeff() +
              (p.l ? (G.cwiseAbs().maxCoeff() + 1) * dl.cwiseAbs().maxCoeff() * (1 + sg * grow) : 0) + amax * dv.cwiseAbs().maxCoeff();
  ld eps = 2.3e-16L * 50 * p.n;
  auto rel = [&](ld v, ld sc) {
    double q = (double)(v / ((small ? 1 : eps) * sc + 1e-300L));
    if (small) worst_small = std::max(worst_small, q);
    else worst = std::max(worst, q);
    return q;
  };
  const double limit = small ? 1e-3 : 10;
  if (rel(e1.cwiseAbs().maxCoeff(), scale1) > limit) return *why = S() << "stationarity row is off by " << (double)e1.cwiseAbs().maxCoeff(), false;
  ld scale2 = p.l ? G.cwiseAbs().maxCoeff() * zmax * p.n + grow * sg * dl.cwiseAbs().maxCoeff() + rl.cwiseAbs().maxCoeff() + G.cwiseAbs().maxCoeff() * zmax * grow * 1e-2L : 0;
  if (s.tight && p.l) scale2 = (1 + g0) * (1 + g0) * p.n * (zmax + dl.cwiseAbs().maxCoeff()) + rl.cwiseAbs().maxCoeff();
  if (p.l && rel(e2.cwiseAbs().maxCoeff(), scale2) > limit) return *why = S() << "equality row is off by " << (double)e2.cwiseAbs().maxCoeff(), false;
  for (int i = 0; i < p.m; i++) {
    // -g*Adz + (m+s*g)*dv - rv is linear in (g,m): its range over the box must contain 0
    ld cg = -Adz(i) + sg * dv(i), cm = dv(i);
    ld lo = -rv(i) + std::min(cg * bx[i].g0, cg * bx[i].g1) + std::min(cm * bx[i].m0, cm * bx[i].m1);
    ld hi = -rv(i) + std::max(cg * bx[i].g0, cg * bx[i].g1) + std::max(cm * bx[i].m0, cm * bx[i].m1);
    // gamma and mu are differences like 1 - a/r: absolute error, not relative
    ld sc = std::abs(rv(i)) + (std::abs(Adz(i)) + amax * zmax * p.n) * (bx[i].g1 + 1) + std::abs(dv(i)) * (bx[i].m1 + sg * bx[i].g1 + 1);
    ld off = lo > 0 ? lo : hi < 0 ? -hi : 0;
    if (rel(off, sc) > limit) return *why = S() << "complementarity row " << i << " is off by " << (double)off, false;
    ld ey = (ld)dx.y(i) - ((ld)p.b(i) - Adz(i));
    if (rel(std::abs(ey), std::abs((ld)p.b(i)) + amax * zmax * p.n) > limit) return *why = S() << "constraint margin of the step is off by " << (double)ey, false;
  }
  return true;
}

// iterates: entry i of the inequality pair (y,v) is taken from this list, covering both sides of
// every kink, the origin, and very active / inactive pairs
static const double kPair[][2] = {{0, 0}, {1, 1}, {1, 0}, {0, 1}, {-1, 1}, {1, -1}, {-1, -1}, {3, 1e-3}, {1e-3, 3}, {0, -2}, {-2, 0}, {100, 1e-6}, {1e-6, 100},
                                 {0, 1e-6}, {1e-6, 0}, {-1e-6, 0}, {0, -1e-6}, {1e-9, 0}, {0, 1e-3}, {1e-7, 1e-7}, {-1e-4, 1e-5}, {1e-11, 1e-11}, {1e5, 0}};
static const int nPair = 23;
static const double kSigma[] = {1e-2, 1, 1e-4, 100, 1e-6};
static const double kAlpha[] = {0.95, 0.5, 0.999};

// The iterate's y is a free input of the linear solver (it only reads x.y), so it is set directly.
template <class Lin, class Data>
static void newton_case(const QP& p, Lin& lin, const Data& d, mc::ll idx, const std::string& what, int first_pair, int step, int nsig, int nalpha, const double* sigmas = kSigma, const double (*pairs)[2] = kPair, int npair = nPair, bool tight = false) {
  fbstab::FullVariable x(p.n, p.l, p.m), xb(p.n, p.l, p.m), dx(p.n, p.l, p.m);
  fbstab::FullResidual r(p.n, p.l, p.m);
  x.LinkData(&d), xb.LinkData(&d), dx.LinkData(&d), r.LinkData(&d);
  lin.LinkData(&d);
  for (int ai = 0; ai < nalpha; ai++)
    for (int si = 0; si < nsig; si++)
      for (int centre = 0; centre < 3 && !R.violated; centre++) {
        Setup s;
        s.tight = tight;
        s.p = &p, s.sigma = sigmas[si], s.alpha = kAlpha[ai];
        lin.SetAlpha(s.alpha);
        for (int i = 0; i < p.n; i++) x.z()(i) = 1 + i, xb.z()(i) = centre ? -i : 1 + i;
        for (int i = 0; i < p.l; i++) x.l()(i) = 2 - i, xb.l()(i) = centre ? i : 2 - i;
        for (int i = 0; i < p.m; i++) {
          const double* q = pairs[(first_pair + i * step) % npair];
          x.v()(i) = q[1];
          xb.v()(i) = centre == 0 ? q[1] : centre == 1 ? 0 : q[1] + 2 - i;
          // y such that y + s*(v - vbar) is exactly the wanted first argument (up to rounding)
          x.y()(i) = q[0] - s.sigma * (x.v()(i) - xb.v()(i));
          xb.y()(i) = 7;
        }
        s.v = x.v(), s.vbar = xb.v(), s.y = x.y();
        VectorXd kz = x.z(), kl = x.l(), bz = xb.z(), bl = xb.l();
        if (!lin.Initialize(x, xb, s.sigma)) {
          R.fail(S() << "factorization failed with sigma=" << s.sigma << " alpha=" << s.alpha << " y=" << vec(s.y) << " v=" << vec(s.v) << " vbar=" << vec(s.vbar) << " on " << what);
          return;
        }
        R.transitions++;
        int nr = p.n + p.l + p.m;
        for (int k = -4; k < nr && !R.violated; k++) {
          if (k >= 0 && (ai || centre == 1) && k % 3 != (int)(idx % 3)) continue;  // all basis vectors for the main setting, a third for the others
          if (k >= 0 && !T_ && nr > 40 && (k + centre) % 7 != (int)(idx % 7)) continue;
          r.Fill(0.0);
          auto set = [&](int j, double v) {
            if (j < p.n) r.z()(j) = v;
            else if (j < p.n + p.l) r.l()(j - p.n) = v;
            else r.v()(j - p.n - p.l) = v;
          };
          if (k == -2) {
            r.InnerResidual(x, xb, s.sigma);
            r.Negate();
          } else if (k < 0) {  // ordinary, tiny and huge right-hand sides
            for (int j = 0; j < nr; j++) set(j, (j % 2 ? -1 : 1) * (1 + (j * 3) % 5) * (k == -1 ? 1.0 : k == -3 ? std::ldexp(1, -34) : std::ldexp(1, 40)));
          } else {
            set(k, 1);
          }
          VectorXd rz = r.z(), rl = r.l(), rv = r.v();
          dx.Fill(k % 2 ? 1e3 : -7);
          bool ok = lin.Solve(r, &dx);
          R.transitions++, R.validated++;
          Point st;
          st.z = dx.z(), st.l = dx.l(), st.v = dx.v(), st.y = dx.y();
          R.state(mc::fnv(st.z.data(), p.n * 8, mc::fnv(st.v.data(), p.m * 8, mc::fnv(R.slot.family, strlen(R.slot.family)))));
          std::string why = "Solve reports failure";
          if (ok) ok = check_step(s, rz, rl, rv, st, &why);
          if (ok && (!same_bits(rz, r.z()) || !same_bits(rl, r.l()) || !same_bits(rv, r.v()) || !same_bits(x.z(), kz) || !same_bits(x.v(), s.v) || !same_bits(x.y(), s.y) || !same_bits(xb.v(), s.vbar) || !same_bits(xb.z(), bz) || !same_bits(xb.l(), bl) || !same_bits(x.l(), kl)))
            ok = false, why = "an input vector was modified";
          if (!ok)
            R.fail(S() << "Newton step: " << why << " | sigma=" << s.sigma << " alpha=" << s.alpha << " y=" << vec(s.y) << " v=" << vec(s.v) << " vbar=" << vec(s.vbar) << " rhs " << vec(rz) << vec(rl) << vec(rv) << " step " << show(st) << " on " << what);
          if (R.want_sample && k == -1 && si == 0 && centre == 2) R.sample(S() << "sigma=" << s.sigma << " alpha=" << s.alpha << " y=" << vec(s.y) << " v=" << vec(s.v) << " vbar=" << vec(s.vbar) << " rhs " << vec(rz) << vec(rl) << vec(rv) << " step " << show(st) << " on " << what);
        }
      }
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = T_ = R.thorough();
  const int steps[] = {1, 3, 5, 7, 0};
  int ns = T ? 5 : 3;
  int nal = T ? 3 : 2;
  const int nsig = 5, nfirst = T ? nPair : 8;  // quick: a third of the pair list, another third for the next problem
  // dense: all problems within 1 (2) deviations of the bases, every rotation of the pair list
  int dev[][3] = {{1, 0, 1}, {1, 1, 2}, {2, 0, 2}, {2, 1, 3}, {3, 2, 4}, {4, 1, 5}, {5, 3, 7}};
  for (auto& s : dev)
    for (int kind = 0; kind < 3; kind++) {
      int k = s[0] <= 2 ? (T ? 3 : 2) : (T ? 2 : 1);
      DenseDev V(s[0], s[1], s[2], kind, {-1, 0, 2, 5}, k);
      int rot = s[2] == 1 ? 1 : (V.size() > 600 ? 1 : ns);
      R.family(S() << "dense-" << V.name(), V.size() * nfirst * rot, [&](mc::ll i) {
        mc::Dec dd(i);
        int first = dd.digit(nfirst), st = steps[(dd.digit(rot) + first) % ns];
        QP p = V.get(dd.k);
        if (!T) first = (3 * first + (int)(dd.k % nPair)) % nPair;
        auto D = data(p);
        fbstab::DenseData d(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
        fbstab::DenseCholeskySolver lin(p.n, p.l, p.m);
        newton_case(p, lin, d, i, show(p), first, st, T ? nsig : 3, nal);
      });
    }
  int sh[][4] = {{1, 1, 1, 1}, {1, 2, 1, 1}, {2, 1, 2, 2}, {2, 2, 1, 2}, {3, 2, 2, 3}, {2, 3, 2, 1}, {4, 1, 1, 1}};
  for (auto& s : sh)
    for (int kind = 0; kind < 3; kind++) {
      int k = T && (s[0] + s[1] + s[2] + s[3] <= 7) ? 2 : 1;
      MpcSpace M(mpc_base(s[0], s[1], s[2], s[3], kind), {-1, 0, 2, 5}, k);
      int rot = T || M.size() > 300 ? 1 : ns;
      R.family(S() << "riccati-" << s[0] << "-" << s[1] << "-" << s[2] << "-" << s[3] << "-b" << kind << "-k" << k, M.size() * nfirst * rot, [&](mc::ll i) {
        mc::Dec dd(i);
        int first = dd.digit(nfirst), st = steps[(dd.digit(rot) + first) % ns];
        MP mp = M.get(dd.k);
        if (!T) first = (3 * first + (int)(dd.k % nPair)) % nPair;
        QP p = expand(mp);
        auto D = data(mp);
        fbstab::MpcData d(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
        fbstab::RiccatiLinearSolver lin(s[0], s[1], s[2], s[3]);
        newton_case(p, lin, d, i, show(mp), first, st, T ? nsig : 3, nal);
      });
    }
  // every small shape and some long horizons
  {
    const int xn = R.qt(8, 12), xl = 4, xm = R.qt(9, 14), nf = R.qt(6, nPair);
    R.family("dense-shapes", (mc::ll)xn * xl * xm * 3 * nf, [&](mc::ll i) {
      mc::Dec d(i);
      int f = d.digit(nf), kind = d.digit(3), n = 1 + d.digit(xn), l = d.digit(xl), m = 1 + d.digit(xm);
      if (l > n) return;
      Design g;
      QP p = design_dense(n, l, m, kind, 0, 0, &g);
      auto D = data(p);
      fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
      fbstab::DenseCholeskySolver lin(n, l, m);
      newton_case(p, lin, dd, i, show(p), (f * 5 + n + m) % nPair, steps[(n + l) % 4], R.qt(2, 4), R.qt(1, 2));
    });
    const int Ns[] = {1, 2, 3, 4, 6, 9, 16, 30};
    const int xN = R.qt(6, 8), xx = R.qt(3, 4), xu = R.qt(3, 4), xc = R.qt(3, 4);
    R.family("riccati-shapes", (mc::ll)xN * xx * xu * xc * 3 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int f = d.digit(2), kind = d.digit(3), nx = 1 + d.digit(xx), nu = 1 + d.digit(xu), nc = 1 + d.digit(xc), N = Ns[d.digit(xN)];
      if (N > 2 && !T && (nx + nu + nc + kind) % (N > 4 ? 3 : 2) != f) return;
      Design g;
      MP mp = design_mpc(N, nx, nu, nc, kind, 0, 0, &g);
      QP p = expand(mp);
      auto D = data(mp);
      fbstab::MpcData dd(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      fbstab::RiccatiLinearSolver lin(N, nx, nu, nc);
      newton_case(p, lin, dd, i, show(mp), (f * 5 + N + nx) % nPair, steps[(nu + nc) % 4], N > 6 ? 1 : 2, 1);
    });
  }
  R.family("dense-large", (mc::ll)nLargeD * 3 * nPair, [&](mc::ll i) {
    mc::Dec d(i);
    int f = d.digit(nPair), kind = d.digit(3);
    const int* s = kLargeD[d.k];
    if (!T && s[0] * s[2] > 800 && f > 3) return;
    Design g;
    QP p = design_dense(s[0], s[1], s[2], kind, 0, 0, &g);
    auto D = data(p);
    fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
    fbstab::DenseCholeskySolver lin(s[0], s[1], s[2]);
    newton_case(p, lin, dd, i, show(p), f, steps[f % 4], R.qt(1, 3), 1);
  });
  R.family("riccati-large", (mc::ll)nLargeM * 3 * nPair, [&](mc::ll i) {
    mc::Dec d(i);
    int f = d.digit(nPair), kind = d.digit(3);
    const int* s = kLargeM[d.k];
    if (!T && f > 3) return;
    Design g;
    MP mp = design_mpc(s[0], s[1], s[2], s[3], kind, 0, 0, &g);
    QP p = expand(mp);
    auto D = data(mp);
    fbstab::MpcData dd(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
    fbstab::RiccatiLinearSolver lin(s[0], s[1], s[2], s[3]);
    newton_case(p, lin, dd, i, show(mp), f, steps[f % 4], R.qt(1, 3), 1);
  });
  // pairs (y,v) of every combination of signs and magnitudes
  {
    static const double kMag[] = {0, 1e-8, 1e-4, 1e-2, 1, 30, 1e3, 1e5, 1e7, -1e-8, -1e-4, -1e-2, -1, -30, -1e3, -1e5, -1e7};
    static double grid[17 * 17][2];
    for (int k = 0; k < 17 * 17; k++) grid[k][0] = kMag[k % 17], grid[k][1] = kMag[k / 17];
    static const int kSteps[] = {1, 18, 17, 40};
    static const int kD[][3] = {{1, 0, 1}, {2, 1, 3}, {4, 2, 6}};
    R.family("dense-magnitudes", 3 * 3 * 17 * 17 * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int f = d.digit(17 * 17), st = kSteps[d.digit(4)], kind = d.digit(3);
      const int* s = kD[d.k];
      QP p = dense_base(s[0], s[1], s[2], kind);
      auto D = data(p);
      fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
      fbstab::DenseCholeskySolver lin(s[0], s[1], s[2]);
      newton_case(p, lin, dd, i, show(p), f, st, R.qt(2, 4), R.qt(1, 3), kSigma, grid, 17 * 17);
    });
    static const int kM[][4] = {{1, 1, 1, 1}, {2, 2, 1, 2}, {3, 1, 2, 3}};
    R.family("riccati-magnitudes", 3 * 3 * 17 * 17 * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int f = d.digit(17 * 17), st = kSteps[d.digit(4)], kind = d.digit(3);
      const int* s = kM[d.k];
      MP mp = mpc_base(s[0], s[1], s[2], s[3], kind);
      QP p = expand(mp);
      auto D = data(mp);
      fbstab::MpcData dd(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      fbstab::RiccatiLinearSolver lin(s[0], s[1], s[2], s[3]);
      newton_case(p, lin, dd, i, show(mp), f, st, R.qt(2, 4), R.qt(1, 3), kSigma, grid, 17 * 17);
    });
  }
  // every regularization the options allow, down to the smallest
  {
    const int xN = 4, Ns[] = {1, 2, 3, 8}, xs = R.qt(2, 3);
    R.family("riccati-small-sigma", (mc::ll)xN * xs * xs * xs * nPair * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int sg = d.digit(4), f = d.digit(nPair), nx = 1 + d.digit(xs), nu = 1 + d.digit(xs), nc = 1 + d.digit(xs), N = Ns[d.digit(xN)];
      Design g;
      MP mp = design_mpc(N, nx, nu, nc, 0, 0, 0, &g);
      QP p = expand(mp);
      auto D = data(mp);
      fbstab::MpcData dd(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      fbstab::RiccatiLinearSolver lin(N, nx, nu, nc);
      newton_case(p, lin, dd, i, show(mp), f, steps[(f + nu + nc) % 4], 1, R.qt(1, 3), kSmallSigma + sg);
    });
    const int xn = R.qt(4, 6), xm = R.qt(4, 8);
    R.family("dense-small-sigma", (mc::ll)xn * 3 * xm * nPair * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int sg = d.digit(4), f = d.digit(nPair), n = 1 + d.digit(xn), l = d.digit(3), m = 1 + d.digit(xm);
      if (l > n) return;
      Design g;
      QP p = design_dense(n, l, m, 0, 0, 0, &g);
      auto D = data(p);
      fbstab::DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
      fbstab::DenseCholeskySolver lin(n, l, m);
      newton_case(p, lin, dd, i, show(p), f, steps[(n + l + f) % 4], 1, R.qt(1, 3), kSmallSigma + sg, kPair, nPair, true);
    });
  }
  R.note("worst-error-small-sigma-1e-12", (mc::ll)std::min(worst_small * 1e12, 1e15));
  R.note("sum-over-shards-of-worst-error-in-thousandths-of-a-unit", (mc::ll)(worst * 1000));
  return R.finish();
}
