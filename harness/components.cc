// C22: the building blocks of the algorithm against a reference model in long double.
//  operations-*:   every sequence of operations on two variables and a residual up to a depth; after every
//                  operation every readable value is compared with the model
//  pairs-*:        every combination of (margin, multiplier, centre) values in a complementarity pair
//  certificates-*: every direction of an alphabet on every problem of a space: the feasibility test
//                  recognises exactly the certificates of the documented conditions
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/full_residual.h"
#include "fbstab/components/full_variable.h"
#include "solve.h"

using namespace qp;
using fbstab::FullFeasibility;
using fbstab::FullResidual;
using fbstab::FullVariable;
using mc::S;
static mc::Run R;
typedef long double ld;

// problem data in both forms, kept alive together
struct Held {
  QP p;
  std::unique_ptr<fbstab::FBstabDense::ProblemData> D;
  std::unique_ptr<fbstab::FBstabMpc::ProblemData> M;
  std::unique_ptr<fbstab::Data> data;
  MatL H, G, A;
  VecL f, h, b;
  void lift() { H = p.H.cast<ld>(), G = p.G.cast<ld>(), A = p.A.cast<ld>(), f = p.f.cast<ld>(), h = p.h.cast<ld>(), b = p.b.cast<ld>(); }
  explicit Held(const QP& q) : p(q), D(new fbstab::FBstabDense::ProblemData(qp::data(q))) {
    data.reset(new fbstab::DenseData(&D->H, &D->f, &D->G, &D->h, &D->A, &D->b));
    lift();
  }
  explicit Held(const MP& m) : p(expand(m)), M(new fbstab::FBstabMpc::ProblemData(qp::data(m))) {
    data.reset(new fbstab::MpcData(&M->Q, &M->R, &M->S, &M->q, &M->r, &M->A, &M->B, &M->c, &M->E, &M->L, &M->d, &M->x0));
    lift();
  }
};

struct Var {
  VecL z, l, v, y;
  int data = 0;
  bool known = true;  // is y the margin of z for the linked data?
  ld mag = 1;         // magnitude of everything that went into the entries
  explicit Var(const QP& p) : z(VecL::Zero(p.n)), l(VecL::Zero(p.l)), v(VecL::Zero(p.m)), y(VecL::Zero(p.m)), known(false) {}
};
struct Res {
  VecL z, l, v;
  bool known = true;
  ld mag = 0, alpha = 0.95L;
  int data = 0;
  explicit Res(const QP& p) : z(VecL::Zero(p.n)), l(VecL::Zero(p.l)), v(VecL::Zero(p.m)) {}
};
static ld pos(ld a) { return a > 0 ? a : 0; }
static ld top(const VecL& v) { return v.size() ? v.cwiseAbs().maxCoeff() : 0; }

static ld row_scale(const Held& d) {
  ld s = 1 + d.H.cwiseAbs().sum() + d.A.cwiseAbs().sum() + top(d.f) + top(d.b);
  if (d.h.size()) s += d.G.cwiseAbs().sum() + top(d.h);
  return s;
}
static void natural(const Held& d, const Var& x, bool penalty, Res* r) {
  r->z = d.H * x.z + d.f + d.A.transpose() * x.v;
  r->l = d.h;
  if (d.h.size()) r->z += d.G.transpose() * x.l, r->l = d.h - d.G * x.z;
  for (int i = 0; i < x.v.size(); i++) {
    ld m = std::min(x.y(i), x.v(i));
    r->v(i) = penalty ? r->alpha * m + (1 - r->alpha) * pos(x.y(i)) * pos(x.v(i)) : m;
  }
  r->known = x.known;
  r->mag = row_scale(d) * x.mag * (1 + (penalty ? top(x.v) + top(x.y) : 0));
}
static void inner(const Held& d, const Var& x, const Var& c, ld s, Res* r) {
  natural(d, x, false, r);
  r->z += s * (x.z - c.z), r->l += s * (x.l - c.l);
  ld big = 0;
  for (int i = 0; i < x.v.size(); i++) {
    ld a = x.y(i) + s * (x.v(i) - c.v(i)), b = x.v(i);
    r->v(i) = r->alpha * (a + b - std::sqrt(a * a + b * b)) + (1 - r->alpha) * pos(a) * pos(b);
    big = std::max(big, std::fabs(a) + std::fabs(b) + 1);
  }
  r->mag = (row_scale(d) * x.mag + s * (x.mag + c.mag)) * (1 + big);
}

static bool close(const VectorXd& a, const VecL& b, ld mag) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); i++)
    if (!(std::fabs((ld)a(i) - b(i)) <= 1e-14L * mag * (1 + a.size()))) return false;
  return true;
}
static bool close(double a, ld b, ld mag) { return std::fabs((ld)a - b) <= 1e-14L * mag; }
static std::string text(const VecL& v) { return vec(v.cast<double>()); }

// compares; returns a description of the first difference
static std::string differs(const FullVariable& x, const Var& m, const char* name) {
  const ld mag = 10 * m.mag;
  if (!close(x.z(), m.z, mag)) return S() << name << ".z is " << vec(x.z()) << " instead of " << text(m.z);
  if (!close(x.l(), m.l, mag)) return S() << name << ".l is " << vec(x.l()) << " instead of " << text(m.l);
  if (!close(x.v(), m.v, mag)) return S() << name << ".v is " << vec(x.v()) << " instead of " << text(m.v);
  if (m.known && !close(x.y(), m.y, 10 * mag)) return S() << name << ".y is " << vec(x.y()) << " instead of " << text(m.y);
  for (int i = 0; i < x.z().size(); i++)
    if (x.z(i) != x.z()(i)) return S() << name << ".z(" << i << ") is not the entry of z";
  for (int i = 0; i < x.l().size(); i++)
    if (x.l(i) != x.l()(i)) return S() << name << ".l(" << i << ") is not the entry of l";
  for (int i = 0; i < x.v().size(); i++)
    if (x.v(i) != x.v()(i) || x.y(i) != x.y()(i)) return S() << name << ".v/y(" << i << ") is not the entry";
  ld n = std::sqrt(m.z.squaredNorm() + m.l.squaredNorm() + m.v.squaredNorm());
  if (!close(x.Norm(), n, mag * (3 + m.z.size() + m.l.size() + m.v.size()))) return S() << name << ".Norm() is " << x.Norm() << " instead of " << (double)n;
  return "";
}
static std::string differs(const FullResidual& r, const Res& m) {
  ld mag = 10 * m.mag;
  if (!close(r.z(), m.z, mag)) return S() << "stationarity residual is " << vec(r.z()) << " instead of " << text(m.z);
  if (!close(r.l(), m.l, mag)) return S() << "equality residual is " << vec(r.l()) << " instead of " << text(m.l);
  if (!m.known) return "";
  if (!close(r.v(), m.v, 10 * mag)) return S() << "complementarity residual is " << vec(r.v()) << " instead of " << text(m.v);
  ld nz = m.z.norm(), nl = m.l.size() ? m.l.norm() : 0, nv = m.v.norm(), n = std::sqrt(nz * nz + nl * nl + nv * nv);
  mag *= 20 * (1 + m.z.size() + m.l.size() + m.v.size());
  if (!close(r.z_norm(), nz, mag)) return S() << "z_norm() is " << r.z_norm() << " instead of " << (double)nz;
  if (!close(r.l_norm(), nl, mag)) return S() << "l_norm() is " << r.l_norm() << " instead of " << (double)nl;
  if (!close(r.v_norm(), nv, mag)) return S() << "v_norm() is " << r.v_norm() << " instead of " << (double)nv;
  if (!close(r.Norm(), n, mag)) return S() << "Norm() is " << r.Norm() << " instead of " << (double)n;
  if (!close(r.Merit(), n * n / 2, mag * (1 + 2 * n))) return S() << "Merit() is " << r.Merit() << " instead of " << (double)(n * n / 2);
  return "";
}

static const double kFill[] = {0, 1, -2}, kAxpy[] = {1, -0.5, 0, 1e-3}, kAlpha[] = {0.95, 0.5, 0.001}, kSigma[] = {1e-4, 1};
static const int nOps = 3 + 2 + 2 * 4 + 1 + 1 + 2 + 2 + 3 + 4 + 1 + 1 + 1 + 2 + 3;

struct World {
  const Held* d[2];
  FullVariable x, y;
  FullResidual r;
  Var mx, my;
  Res mr;
  std::string trace;
  World(const Held& a, const Held& b) : d{&a, &b}, x(a.p.n, a.p.l, a.p.m), y(a.p.n, a.p.l, a.p.m), r(a.p.n, a.p.l, a.p.m), mx(a.p), my(a.p), mr(a.p) {
    x.LinkData(a.data.get()), y.LinkData(a.data.get()), r.LinkData(a.data.get());
  }
  void margin(Var* m) {
    const Held& h = *d[m->data];
    m->y = h.b - h.A * m->z, m->known = true;
    m->mag += row_scale(h) * (1 + top(m->z));
  }
  void write(int k, FullVariable* u, Var* m) {  // caller writes through the accessors
    auto val = [&](int i) { return (i % 2 ? -1 : 1) * (0.5 * ((3 * i + 5 * k) % 7) - 1); };
    for (int i = 0; i < u->v().size(); i++) u->v()(i) = val(i), m->v(i) = val(i);
    m->mag += 4;
    if (k == 2) return;  // multipliers only
    for (int i = 0; i < u->z().size(); i++) u->z()(i) = val(i + 2), m->z(i) = val(i + 2);
    for (int i = 0; i < u->l().size(); i++) u->l()(i) = val(i + 4), m->l(i) = val(i + 4);
    m->known = false;
  }
  void axpy(FullVariable* u, Var* m, double a, const FullVariable& w, const Var& n) {
    u->axpy(a, w);
    bool ok = m->known && n.known && m->data == n.data;
    ld mag = m->mag + std::fabs(a) * n.mag + top(d[m->data]->b) * (1 + std::fabs(a));
    m->z += (ld)a * n.z, m->l += (ld)a * n.l, m->v += (ld)a * n.v;
    m->mag = mag;
    if (ok) m->y = d[m->data]->b - d[m->data]->A * m->z;
    m->known = ok;
  }
  void step(int op) {
    auto take = [&](int n) {
      if (op < n && op >= 0) return true;
      op -= n;
      return false;
    };
    auto name = [&](const std::string& s) { trace += s + "; "; };
    if (take(3)) {
      name(S() << "x.Fill(" << kFill[op] << ")");
      x.Fill(kFill[op]);
      mx.z.setConstant(kFill[op]), mx.l.setConstant(kFill[op]), mx.v.setConstant(kFill[op]);
      mx.mag = 3;
      margin(&mx);
    } else if (take(2)) {
      name(op ? "y.Copy(x)" : "x.Copy(y)");
      if (op) y.Copy(x), my = mx;
      else x.Copy(y), mx = my;
    } else if (take(8)) {
      double a = kAxpy[op % 4];
      name(S() << (op < 4 ? "x.axpy(" : "y.axpy(") << a << (op < 4 ? ",y)" : ",x)"));
      if (op < 4) axpy(&x, &mx, a, y, my);
      else axpy(&y, &my, a, x, mx);
    } else if (take(1)) {
      name("x.ProjectDuals()");
      x.ProjectDuals();
      mx.v = mx.v.cwiseMax(0.0L);
    } else if (take(1)) {
      name("x.axpy(2,x)");
      // an alias: the documented result is 3x
      Var n = mx;
      axpy(&x, &mx, 2, x, n);
    } else if (take(2)) {
      name(op ? "y margin" : "x margin");
      if (op) y.InitializeConstraintMargin(), margin(&my);
      else x.InitializeConstraintMargin(), margin(&mx);
    } else if (take(2)) {
      name(op ? "link all to data 1" : "link x to data 1");
      x.LinkData(d[1]->data.get()), mx.known = mx.known && mx.data == 1, mx.data = 1;
      if (op) y.LinkData(d[1]->data.get()), my.known = my.known && my.data == 1, my.data = 1, r.LinkData(d[1]->data.get()), mr.data = 1;
    } else if (take(3)) {
      name(S() << "alpha " << kAlpha[op]);
      r.SetAlpha(kAlpha[op]), mr.alpha = kAlpha[op];
    } else if (take(4)) {
      double s = kSigma[op % 2];
      name(S() << "inner residual of " << (op < 2 ? "x" : "y") << " sigma " << s);
      if (op < 2) r.InnerResidual(x, y, s), inner(*d[mr.data], mx, my, s, &mr);
      else r.InnerResidual(y, x, s), inner(*d[mr.data], my, mx, s, &mr);
    } else if (take(1)) {
      name("natural residual");
      r.NaturalResidual(x), natural(*d[mr.data], mx, false, &mr);
    } else if (take(1)) {
      name("penalized residual");
      r.PenalizedNaturalResidual(x), natural(*d[mr.data], mx, true, &mr);
    } else if (take(1)) {
      name("negate");
      r.Negate();
      mr.z = -mr.z, mr.l = -mr.l, mr.v = -mr.v;
    } else if (take(2)) {
      double a = op ? -3 : 0;
      name(S() << "r.Fill(" << a << ")");
      r.Fill(a);
      mr.z.setConstant(a), mr.l.setConstant(a), mr.v.setConstant(a), mr.known = true, mr.mag = 3;
    } else {
      name(S() << "write " << op);
      write(op, op == 1 ? &y : &x, op == 1 ? &my : &mx);
    }
  }
  std::string compare() {
    std::string s = differs(x, mx, "x");
    if (s.empty()) s = differs(y, my, "y");
    if (s.empty()) s = differs(r, mr);
    return s;
  }
};

static void operations(const std::string& name, const Held& a, const Held& b, int depth) {
  R.family(S() << "operations-" << name << "-depth" << depth, mc::ipow(nOps, depth), [&](mc::ll i) {
    mc::Dec dec(i);
    World w(a, b);
    w.x.InitializeConstraintMargin(), w.margin(&w.mx);  // a common starting point
    w.y.InitializeConstraintMargin(), w.margin(&w.my);
    w.write(0, &w.x, &w.mx), w.write(1, &w.y, &w.my);
    w.x.InitializeConstraintMargin(), w.margin(&w.mx);
    w.y.InitializeConstraintMargin(), w.margin(&w.my);
    for (int k = 0; k < depth; k++) {
      w.step(dec.digit(nOps));
      R.transitions++, R.validated++;
      std::string s = w.compare();
      R.state(mc::fnv(w.x.z().data(), w.x.z().size() * 8, mc::fnv(w.x.v().data(), w.x.v().size() * 8, mc::fnv(w.r.v().data(), w.r.v().size() * 8, mc::fnv(w.y.v().data(), w.y.v().size() * 8)))));
      if (!s.empty()) return R.fail(S() << s << " after " << w.trace << " on " << show(a.p));
    }
    if (R.want_sample) R.sample(w.trace);
  });
}

static const double kVal[] = {0, 1, -1, 1e-8, -1e-8, 37, -37, 1e6, -1e6};
static void pairs(const std::string& name, const QP& base, bool full) {
  const int nv = full ? 9 : 7;
  R.family(S() << "pairs-" << name, (mc::ll)base.m * nv * nv * nv * 3 * 3, [&](mc::ll i) {
    mc::Dec dec(i);
    int at = dec.digit(base.m);
    double y = kVal[dec.digit(nv)], v = kVal[dec.digit(nv)], vb = kVal[dec.digit(nv)];
    static const double kS[] = {1e-8, 1e-2, 10}, kA[] = {0.95, 0.5, 0.999};
    double s = kS[dec.digit(3)], al = kA[dec.digit(3)];
    QP p = base;
    FullVariable x(p.n, p.l, p.m), c(p.n, p.l, p.m);
    FullResidual r(p.n, p.l, p.m);
    Var mx(p), mc_(p);
    for (int k = 0; k < p.n; k++) x.z()(k) = pick(k), c.z()(k) = pick(k + 1);
    for (int k = 0; k < p.l; k++) x.l()(k) = pick(k + 2), c.l()(k) = pick(k + 3);
    for (int k = 0; k < p.m; k++) x.v()(k) = pick(k + 5), c.v()(k) = pick(k + 6);
    x.v()(at) = v, c.v()(at) = vb;
    p.b(at) = p.A.row(at).dot(x.z()) + y;
    Held h(p);
    x.LinkData(h.data.get()), c.LinkData(h.data.get()), r.LinkData(h.data.get());
    x.InitializeConstraintMargin(), c.InitializeConstraintMargin();
    mx.z = x.z().cast<ld>(), mx.l = x.l().cast<ld>(), mx.v = x.v().cast<ld>(), mx.y = h.b - h.A * mx.z, mx.known = true;
    mc_.z = c.z().cast<ld>(), mc_.l = c.l().cast<ld>(), mc_.v = c.v().cast<ld>(), mc_.known = true;
    mx.mag = 2 + top(mx.v), mc_.mag = 2 + top(mc_.v);
    Res m(p);
    r.SetAlpha(al), m.alpha = al;
    std::string where = S() << " for y=" << y << " v=" << v << " vbar=" << vb << " in row " << at << " sigma " << s << " alpha " << al << " on " << show(p), e;
    auto judge = [&](const char* what) {
      R.transitions++, R.validated++;
      R.state(mc::fnv(r.v().data(), p.m * 8, mc::fnv(&i, 8)));
      e = differs(r, m);
      if (!e.empty()) R.fail(S() << what << ": " << e << where);
    };
    r.InnerResidual(x, c, s), inner(h, mx, mc_, s, &m);
    judge("inner residual");
    r.NaturalResidual(x), natural(h, mx, false, &m);
    judge("natural residual");
    r.PenalizedNaturalResidual(x), natural(h, mx, true, &m);
    judge("penalized natural residual");
    if (R.want_sample) R.sample(S() << "rv=" << vec(r.v()) << where);
  });
}

// three-valued reading of the documented conditions: yes, no, or too close to call
struct Tri {
  bool yes, no;
};
static Tri at_most(ld value, ld bound, ld slack) { return {value <= 0.8L * bound - slack || (value <= 0 && bound >= 0), value > 1.25L * bound + slack && value > 0}; }
static Tri both(Tri a, Tri b) { return {a.yes && b.yes, a.no || b.no}; }

static void certificate(const Held& h, const VectorXd& z, const VectorXd& l, const VectorXd& v, double tol, const std::string& what) {
  const QP& p = h.p;
  FullVariable x(p.n, p.l, p.m);
  x.LinkData(h.data.get());
  x.z() = z, x.l() = l, x.v() = v;
  x.InitializeConstraintMargin();
  FullFeasibility f(p.n, p.l, p.m);
  f.LinkData(h.data.get());
  auto got = f.CheckFeasibility(x, tol);
  VecL Z = z.cast<ld>(), L = l.cast<ld>(), V = v.cast<ld>();
  ld w = top(Z), u = std::max(top(L), top(V)), t = tol;
  ld sc = 1e-14L * row_scale(h);
  VecL Az = h.A * Z;
  ld gz = p.l ? top(h.G * Z) : 0;
  Tri dual = both(both(at_most(Az.maxCoeff(), t * w, sc * w), at_most(gz, t * w, sc * w)), at_most(top(h.H * Z), t * w, sc * w));
  // the decrease must be significant: margin min(100 tol, 1e-3) relative to the data
  const ld margin = std::min(100.0L * t, 1e-3L);
  auto decrease = [&](ld value, ld size, ld data) {
    ld eps = 1e-14L * size * data * (p.n + p.l + p.m);
    return Tri{value < -1.25L * margin * size * data - eps, value > -0.8L * margin * size * data + eps || (data == 0 && value >= 0)};
  };
  ld dec = h.f.dot(Z);
  dual = both(dual, both(decrease(dec, w, top(h.f)), Tri{w > 1e-12L, w < 1e-16L}));
  VecL comb = h.A.transpose() * V;
  if (p.l) comb += h.G.transpose() * L;
  ld gain = h.b.dot(V) + (p.l ? h.h.dot(L) : 0), bn = std::max(top(h.b), top(h.h));
  Tri primal = both(at_most(top(comb), t * u, sc * u), at_most(-V.minCoeff(), t * u, 0));
  primal = both(primal, both(decrease(gain, u, bn), Tri{u > 1e-12L, u == 0}));
  typedef FullFeasibility::FeasibilityStatus St;
  bool d = got == St::DUAL_INFEASIBLE || got == St::BOTH, pr = got == St::PRIMAL_INFEASIBLE || got == St::BOTH;
  R.transitions++, R.validated++;
  R.note(d && pr ? "both" : d ? "dual" : pr ? "primal" : "none");
  if (!dual.yes && !dual.no) R.note("dual-borderline");
  if (!primal.yes && !primal.no) R.note("primal-borderline");
  R.state(mc::fnv(z.data(), z.size() * 8, mc::fnv(v.data(), v.size() * 8, mc::fnv(l.data(), l.size() * 8, mc::fnv(p.A.data(), p.A.size() * 8, mc::fnv(p.H.data(), p.H.size() * 8))))));
  std::string tail = S() << " tol " << tol << " z=" << vec(z) << " l=" << vec(l) << " v=" << vec(v) << " " << what << " on " << show(p);
  if (R.want_sample) R.sample(tail);
  if (dual.yes && !d) return R.fail("a certificate of unboundedness is not recognised:" + tail);
  if (dual.no && d) return R.fail("a direction that is no certificate of unboundedness is accepted:" + tail);
  if (primal.yes && !pr) return R.fail("a certificate of infeasibility is not recognised:" + tail);
  if (primal.no && pr) return R.fail("a combination that is no certificate of infeasibility is accepted:" + tail);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  {
    QP a = dense_base(2, 1, 2, 0), b = dense_base(2, 1, 2, 2);
    b.b *= -2, b.h.setConstant(3);
    Held ha(a), hb(b);
    for (int d = 1; d <= (T ? 4 : 3); d++) operations("dense-2-1-2", ha, hb, d);
    QP c = dense_base(1, 0, 1, 0), e = dense_base(1, 0, 1, 1);
    Held hc(c), he(e);
    for (int d = 1; d <= (T ? 4 : 3); d++) operations("dense-1-0-1", hc, he, d);
    QP g = dense_base(7, 3, 9, 0), k = dense_base(7, 3, 9, 1);
    Held hg(g), hk(k);
    for (int d = 1; d <= (T ? 4 : 3); d++) operations("dense-7-3-9", hg, hk, d);
    MP m = mpc_base(2, 2, 1, 2, 0), n = mpc_base(2, 2, 1, 2, 2);
    Held hm(m), hn(n);
    for (int d = 1; d <= (T ? 4 : 3); d++) operations("mpc-2-2-1-2", hm, hn, d);
    MP o = mpc_base(9, 1, 2, 1, 0), q = mpc_base(9, 1, 2, 1, 1);
    Held ho(o), hq(q);
    for (int d = 1; d <= (T ? 3 : 2); d++) operations("mpc-9-1-2-1", ho, hq, d);
    QP la = dense_base(17, 3, 20, 0), lb = dense_base(17, 3, 20, 2);
    Held hla(la), hlb(lb);
    for (int d = 1; d <= (T ? 3 : 2); d++) operations("dense-17-3-20", hla, hlb, d);
    MP lm = mpc_base(33, 1, 1, 1, 0), ln = mpc_base(33, 1, 1, 1, 1);
    Held hlm(lm), hln(ln);
    for (int d = 1; d <= (T ? 3 : 2); d++) operations("mpc-33-1-1-1", hlm, hln, d);
    MP lo = mpc_base(1, 3, 2, 17, 0), lq = mpc_base(1, 3, 2, 17, 2);
    Held hlo(lo), hlq(lq);
    for (int d = 1; d <= (T ? 3 : 2); d++) operations("mpc-1-3-2-17", hlo, hlq, d);
  }
  static const int kSh[][3] = {{1, 0, 1}, {2, 1, 2}, {3, 0, 5}, {4, 2, 3}, {2, 0, 11}, {9, 3, 17}, {3, 2, 65}};
  for (auto& s : kSh)
    for (int kind = 0; kind < (T ? 3 : 1); kind++) pairs(S() << s[0] << "-" << s[1] << "-" << s[2] << "-b" << kind, dense_base(s[0], s[1], s[2], kind), T);

  // small integer directions on small integer problems: nothing is close to a threshold
  static const double kTol[] = {1e-8, 1e-4, 1e-12}, kScale[] = {1, 2e-11, 1e9};
  auto direction = [&](const Held& h, mc::ll i, const std::string& what, int pairing) {
    const QP& p = h.p;
    mc::Dec d(i);
    int ti = pairing == 1 ? 0 : d.digit(3), si = pairing == 1 ? 0 : pairing == 3 ? ti : d.digit(3);
    double tol = kTol[ti], sc = kScale[si];
    VectorXd z(p.n), l(p.l), v(p.m);
    auto val = [&] { return sc * (d.digit(3) - 1); };
    for (int k = 0; k < p.n; k++) z(k) = val();
    for (int k = 0; k < p.l; k++) l(k) = val();
    for (int k = 0; k < p.m; k++) v(k) = val();
    certificate(h, z, l, v, tol, what);
  };
  for (auto s : {std::array<int, 3>{1, 0, 1}, std::array<int, 3>{1, 1, 1}, std::array<int, 3>{1, 0, 2}, std::array<int, 3>{2, 0, 1}}) {
    DenseGrid g(s[0], s[1], s[2]);
    mc::ll per = 9 * mc::ipow(3, s[0] + s[1] + s[2]);
    R.family(S() << "certificates-" << g.name(), g.total * per, [&](mc::ll i) { direction(Held(g.get(i / per)), i % per, "", 9); });
  }
  for (int kind = 0; kind < 3; kind++) {
    for (int k = 1; k <= (T ? 2 : 1); k++) {
      const int comb = k == 2 ? 1 : T ? 9 : 3;  // tolerances x scales
      DenseDev dv(2, 1, 3, kind, {-1, 0, 1, 2}, k);
      mc::ll per = comb * mc::ipow(3, 6);
      R.family(S() << "certificates-" << dv.name(), dv.size() * per, [&](mc::ll i) { direction(Held(dv.get(i / per)), i % per, "", comb); });
      MpcSpace ms(mpc_base(1, 1, 1, 1, kind), {-1, 0, 1}, k);
      std::unique_ptr<Held> held;
      mc::ll last = -1, pm = comb * mc::ipow(3, 4 + 2 + 2);
      R.family(S() << "certificates-mpc-" << kind << "-k" << k, ms.size() * pm, [&](mc::ll i) {
        if (i / pm != last || !held) held.reset(new Held(ms.get(i / pm))), last = i / pm;
        direction(*held, i % pm, "optimal control", comb);
      });
    }
  }
  // known certificates of larger problems, exact and with one entry disturbed by a multiple of the tolerance
  auto lib = designed_library(1);
  for (auto& q : large_library(T ? 1 : 0)) lib.push_back(q);
  for (auto& q : lib) {
    if (q.st.bounded()) continue;
    const QP& p = q.p;
    std::unique_ptr<Held> h(q.mpc ? new Held(q.mp) : new Held(p));
    // the defect rows / variables are visible in the data
    VectorXd z = VectorXd::Zero(p.n), v = VectorXd::Zero(p.m);
    for (int j = 0; j < p.n; j++) {
      bool alone = p.H.col(j).cwiseAbs().maxCoeff() == 0 && p.A.col(j).cwiseAbs().maxCoeff() == 0 && (p.l == 0 || p.G.col(j).cwiseAbs().maxCoeff() == 0);
      if (alone && p.f(j) != 0 && z.isZero()) z(j) = p.f(j) > 0 ? -1 : 1;
    }
    for (int a = 0; a < p.m && v.isZero(); a++) {
      if (p.A.row(a).isZero() && p.b(a) < 0) v(a) = 1;
      for (int b = 0; b < a && v.isZero(); b++)
        if ((p.A.row(a) + p.A.row(b)).isZero() && p.b(a) + p.b(b) < 0) v(a) = v(b) = 1;
    }
    int nz = p.n, nl = p.l, nv = p.m;
    R.family("certificates-" + q.name, (mc::ll)(nz + nl + nv + 1) * 8 * 3 * 3, [&](mc::ll i) {
      if (nz + nl + nv > 60 && (i / 8) % 9 != (i / 72) % 9) return;  // large: one tolerance and scale per position
      mc::Dec d(i);
      static const double kD[] = {0.3, -0.3, 3, -3, 100, -100, 0.01, 1e6};
      double delta = kD[d.digit(8)], tol = kTol[d.digit(3)], sc = kScale[d.digit(3)];
      int at = (int)d.k - 1;
      VectorXd a = z, b = VectorXd::Zero(nl), c = v;
      if (at >= 0 && at < nz) a(at) += delta * tol;
      else if (at >= nz && at < nz + nl) b(at - nz) += delta * tol;
      else if (at >= nz + nl) c(at - nz - nl) += delta * tol;
      certificate(*h, sc * a, sc * b, sc * c, tol, S() << "certificate disturbed at " << at << " by " << delta << " tol");
    });
  }
  // how large the decrease must be: a row without coefficients, an equality without coefficients and a free
  // variable make any gain possible; all right-hand sides have their own scale
  static const int kM[][3] = {{2, 1, 2}, {2, 0, 2}, {3, 2, 4}, {9, 3, 5}, {5, 9, 8}, {2, 1, 17}};
  for (int si = 0; si < (T ? 6 : 6); si++) {
    auto& s = kM[si];
    R.family(S() << "margins-" << s[0] << "-" << s[1] << "-" << s[2], 2 * 7 * 5 * 5 * 5 * 3 * 3 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      static const double kRatio[] = {-1, 0, 0.1, 0.5, 2, 10, 1000}, kRhs[] = {0, 1e-3, 1, 1e4, 1e-8};
      bool on_h = d.digit(2);
      double ratio = kRatio[d.digit(7)], bs = kRhs[d.digit(5)], hs = kRhs[d.digit(5)], fs = kRhs[d.digit(5)], tol = kTol[d.digit(3)], sc = kScale[d.digit(3)], sign = d.digit(2) ? -1 : 1;
      QP p = dense_base(s[0], s[1], s[2], 0);
      int row = s[2] - 1, col = s[0] - 1;
      p.A.row(row).setZero(), p.A.col(col).setZero(), p.H.row(col).setZero(), p.H.col(col).setZero();
      for (int k = 0; k < p.m; k++) p.b(k) = bs * (k % 2 ? -1 : 1) / (1 + k % 3);
      for (int k = 0; k < p.n; k++) p.f(k) = fs * (k % 2 ? -1 : 1) / (1 + k % 3);
      if (p.l) {
        p.G.row(p.l - 1).setZero(), p.G.col(col).setZero();
        for (int k = 0; k < p.l; k++) p.h(k) = hs * (k % 2 ? -1 : 1) / (1 + k % 3);
      } else if (on_h) {
        return;
      }
      double margin = std::min(100 * tol, 1e-3), bn = std::max(inf(p.b.head(row)), p.l ? inf(on_h ? VectorXd(p.h.head(p.l - 1)) : p.h) : 0.0);
      VectorXd z = VectorXd::Zero(p.n), l = VectorXd::Zero(p.l), v = VectorXd::Zero(p.m);
      if (on_h) bn = std::max(bn, inf(p.b)), p.h(p.l - 1) = -sign * ratio * margin * bn, l(p.l - 1) = sc * sign;
      else p.b(row) = -ratio * margin * bn, v(row) = sc;
      p.f(col) = -sign * ratio * margin * inf(p.f.head(col)), z(col) = sign * sc;
      certificate(Held(p), z, l, v, tol, S() << "decrease " << ratio << " margins");
    });
  }
  // blocks of very different size: nothing is lost in the norms, the merit or the entries
  static const double kMag[] = {0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 1, 10, 100, 1e3, 1e5, 1e7, 1e10};
  const int nMag = 16;
  static const int kB[][3] = {{1, 1, 1}, {3, 2, 4}, {17, 9, 18}};
  for (int mpc = 0; mpc < 2; mpc++)
    for (int si = 0; si < 3; si++)
      R.family(S() << "blocks-" << (mpc ? "mpc-" : "") << si, (mc::ll)nMag * nMag * nMag * nMag * 2 * 2, [&](mc::ll i) {
        mc::Dec d(i);
        int a = d.digit(nMag), b = d.digit(nMag), c = d.digit(nMag), e = d.digit(nMag), sgn = d.digit(2) ? -1 : 1, sg = d.digit(2);
        if (si && (a + b + c + e) % (T ? 2 : 5)) return;
        MP mp;
        QP p;
        if (mpc) {
          mp = mpc_base(1 + si, 1 + si, 1, 1 + si, 0);
          for (auto v : {&mp.Q, &mp.R, &mp.S, &mp.A, &mp.B, &mp.E, &mp.L})
            for (auto& M : *v) M.setZero();
          int k = 0;
          for (auto& M : mp.q) M.setConstant(kMag[a] * sgn), M *= ++k % 2 ? 1 : -2;
          for (auto& M : mp.r) M.setConstant(kMag[a] * 0.5);
          for (auto& M : mp.c) M.setConstant(kMag[b] * -sgn), M *= ++k % 3 ? 1 : -2;
          for (auto& M : mp.d) M.setConstant(-kMag[c] * (e % 2 ? sgn : 1)), M *= ++k % 2 ? 1 : 1.5;
          mp.x0.setConstant(kMag[b]);
          p = expand(mp);
        } else {
          p.resize(kB[si][0], kB[si][1], kB[si][2]);
          p.H.setZero(), p.G.setZero(), p.A.setZero();
          for (int k = 0; k < p.n; k++) p.f(k) = kMag[a] * (k % 2 ? -2 : sgn);
          for (int k = 0; k < p.l; k++) p.h(k) = kMag[b] * (k % 2 ? 1 : -sgn);
          for (int k = 0; k < p.m; k++) p.b(k) = kMag[c] * (k % 3 == 1 ? 2 : e % 2 ? sgn : 1);
        }
        Held h = mpc ? Held(mp) : Held(p);
        const double sigma = sg ? 0.5 : 1e-6, alpha = 0.95;
        FullVariable x(p.n, p.l, p.m), cc(p.n, p.l, p.m);
        FullResidual r(p.n, p.l, p.m);
        x.LinkData(h.data.get()), cc.LinkData(h.data.get()), r.LinkData(h.data.get());
        r.SetAlpha(alpha);
        for (int k = 0; k < p.m; k++) x.v()(k) = kMag[e] * (k % 2 ? 1 : sg ? -1 : 1), cc.v()(k) = kMag[(e + 3) % nMag] * (k % 2);
        x.InitializeConstraintMargin(), cc.InitializeConstraintMargin();
        for (int k = 0; k < p.n; k++) cc.z()(k) = k % 2 ? kMag[a] : -1e-3 * kMag[a];
        for (int k = 0; k < p.l; k++) cc.l()(k) = k % 2 ? kMag[b] : -1e-3 * kMag[b];
        std::string where = S() << " with |f|~" << kMag[a] << " |h|~" << kMag[b] << " |b|~" << kMag[c] << " |v|~" << kMag[e] << " sigma " << sigma << " on " << show(p);
        for (int kind = 0; kind < 3; kind++) {
          if (kind == 0) r.InnerResidual(x, cc, sigma);
          else if (kind == 1) r.NaturalResidual(x);
          else r.PenalizedNaturalResidual(x);
          R.transitions++, R.validated++;
          ld n2[3] = {0, 0, 0}, err2 = 0, sig = kind ? 0 : sigma;
          bool ok = true;
          for (int k = 0; k < p.n; k++) {
            ld w = (ld)p.f(k) - sig * (ld)cc.z()(k);
            ok = ok && std::fabs(r.z()(k) - w) <= 1e-15L * (std::fabs((ld)p.f(k)) + sig * std::fabs((ld)cc.z()(k)));
            n2[0] += w * w;
          }
          for (int k = 0; k < p.l; k++) {
            ld w = (ld)p.h(k) - sig * (ld)cc.l()(k);
            ok = ok && std::fabs(r.l()(k) - w) <= 1e-15L * (std::fabs((ld)p.h(k)) + sig * std::fabs((ld)cc.l()(k)));
            n2[1] += w * w;
          }
          for (int k = 0; k < p.m; k++) {
            ld y = p.b(k), v = x.v()(k), s = y + sig * (v - (ld)cc.v()(k)), w, al = alpha;
            ld t = std::fabs(y) + sig * (std::fabs(v) + std::fabs((ld)cc.v()(k))) + std::fabs(v);
            if (kind == 0) w = al * (s + v - std::sqrt(s * s + v * v)) + (1 - al) * pos(s) * pos(v);
            else if (kind == 1) w = std::min(y, v), t = std::fabs(w);
            else w = al * std::min(y, v) + (1 - al) * pos(y) * pos(v), t = std::fabs(std::min(y, v)) + pos(y) * pos(v);
            ld er = 2e-15L * (t + (kind == 0 ? t * pos(v) : 0));
            ok = ok && std::fabs(r.v()(k) - w) <= er;
            n2[2] += w * w, err2 += er * er;
          }
          ld err = std::sqrt(err2), n = std::sqrt(n2[0] + n2[1] + n2[2]);
          auto same = [&](double got, ld want, ld slack) { return std::fabs(got - want) <= 1e-13L * want + slack; };
          ok = ok && same(r.z_norm(), std::sqrt(n2[0]), 0) && same(r.l_norm(), std::sqrt(n2[1]), 0) && same(r.v_norm(), std::sqrt(n2[2]), err) && same(r.Norm(), n, err) && same(r.Merit(), n * n / 2, err * (n + err));
          if (!ok)
            return R.fail(S() << (kind == 0 ? "inner" : kind == 1 ? "natural" : "penalized") << " residual z=" << vec(r.z()) << " l=" << vec(r.l()) << " v=" << vec(r.v()) << " norms " << r.z_norm() << " " << r.l_norm() << " " << r.v_norm() << " total " << r.Norm() << " merit "
                              << r.Merit() << " instead of norms " << (double)std::sqrt(n2[0]) << " " << (double)std::sqrt(n2[1]) << " " << (double)std::sqrt(n2[2]) << where);
        }
        R.state(mc::fnv(r.v().data(), p.m * 8, mc::fnv(&i, 8, mc::fnv(&si, 4, mc::fnv(&mpc, 4)))));
        // norm, projection and scaled addition of variables of such sizes
        x.z() = p.f, x.l() = p.h;
        ld n = std::sqrt(p.f.cast<ld>().squaredNorm() + p.h.cast<ld>().squaredNorm() + x.v().cast<ld>().squaredNorm());
        if (!(std::fabs(x.Norm() - n) <= 1e-13L * n)) return R.fail(S() << "norm of a variable " << x.Norm() << " instead of " << (double)n << where);
        VectorXd v0 = x.v(), z0 = x.z(), l0 = x.l();
        x.axpy(0.75, cc);
        for (int k = 0; k < p.m; k++)
          if (x.v()(k) != v0(k) + 0.75 * cc.v()(k) && !(std::fabs(x.v()(k) - (v0(k) + 0.75L * cc.v()(k))) <= 1e-15L * (std::fabs(v0(k)) + cc.v()(k)))) return R.fail(S() << "scaled addition of v gives " << vec(x.v()) << where);
        for (int k = 0; k < p.n; k++)
          if (!(std::fabs(x.z()(k) - (z0(k) + 0.75L * cc.z()(k))) <= 1e-15L * (std::fabs(z0(k)) + std::fabs(cc.z()(k))))) return R.fail(S() << "scaled addition of z gives " << vec(x.z()) << where);
        for (int k = 0; k < p.l; k++)
          if (!(std::fabs(x.l()(k) - (l0(k) + 0.75L * cc.l()(k))) <= 1e-15L * (std::fabs(l0(k)) + std::fabs(cc.l()(k))))) return R.fail(S() << "scaled addition of l gives " << vec(x.l()) << where);
        v0 = x.v();
        x.ProjectDuals();
        for (int k = 0; k < p.m; k++)
          if (x.v()(k) != (v0(k) > 0 ? v0(k) : 0.0)) return R.fail(S() << "projection of v=" << vec(v0) << " gives " << vec(x.v()) << where);
      });
  return R.finish();
}
