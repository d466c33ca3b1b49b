// C14: every deviation (up to k at a time) of every dimension of every input array, guess vector and
// solver from a consistent configuration, owned and referenced storage, both interfaces; all
// constructor arguments in a box around the legal range; documented precondition checks of the
// components.  Inconsistent calls must throw std::runtime_error and leave guess and solver as they
// were; consistent calls must be accepted.  Runs under the address/undefined-behaviour checker.
#include <array>
#include <deque>

#include "fbstab/components/dense_cholesky_solver.h"
#include "fbstab/components/full_feasibility.h"
#include "fbstab/components/riccati_linear_solver.h"
#include "solve.h"

using namespace qp;
using namespace fbstab;
using mc::S;
using Eigen::Map;
static mc::Run R;

// 0 returned normally, 1 std::runtime_error, 2 something else was thrown
template <class F>
static int outcome(F f, std::string* what) {
  try {
    f();
    return 0;
  } catch (const std::runtime_error& e) {
    *what = S() << "runtime_error: " << e.what();
    return 1;
  } catch (const std::exception& e) {
    *what = S() << "other exception: " << e.what();
    return 2;
  } catch (...) {
    *what = "unknown exception";
    return 2;
  }
}
// Judges one call: must it have thrown?
static bool judge(int got, bool expect_throw, const std::string& what, const std::string& where) {
  R.transitions++, R.validated++;
  R.note(expect_throw ? "inconsistent" : "consistent");
  if (expect_throw && got == 0) return R.fail(S() << "an inconsistent call was accepted: " << where), false;
  if (got == 2) return R.fail(S() << "not a runtime_error (" << what << "): " << where), false;
  if (!expect_throw && got == 1) return R.fail(S() << "a consistent call was rejected (" << what << "): " << where), false;
  if (R.want_sample) R.sample(S() << where << " -> " << (got ? what : "accepted"));
  return true;
}
static void hash(const std::vector<int>& d) { R.state(mc::fnv(d.data(), d.size() * sizeof(int))); }

// Applies the deviations of a case to a list of dimensions.  Returns false if one becomes negative.
static bool deviate(std::vector<int>* d, const std::vector<mc::DevSpace::Dev>& c) {
  for (auto& x : c) {
    (*d)[x.first] += x.second == 0 ? -1 : x.second == 1 ? 1 : 2;
    if ((*d)[x.first] < 0) return false;
  }
  return true;
}
static std::string show(const char* const* names, const std::vector<int>& d) {
  S s;
  for (size_t i = 0; i < d.size(); i++) s << (i ? " " : "") << names[i] << "=" << d[i];
  return s;
}
static MatrixXd filler(int r, int c, int k) {
  MatrixXd M(r, c);
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++) M(i, j) = i == j ? 3 : ((i + 2 * j + k) % 3) * 0.25;
  return M;
}
static VectorXd fillv(int n, int k) {
  VectorXd v(n);
  for (int i = 0; i < n; i++) v(i) = 1 + ((i + k) % 4) * 0.5;
  return v;
}
// (no status needed here, and finding it is expensive for large shapes)
static Prob plain(const QP& p) {
  Prob q;
  q.name = "probe", q.p = p;
  return q;
}
static Prob plain(const MP& mp) {
  Prob q = plain(expand(mp));
  q.mpc = true, q.mp = mp;
  return q;
}
// The solver must still work, exactly like a new one.
static bool still_works(Solver& used, const Prob& q, const std::string& where) {
  Solver fresh(q);
  fresh.options(preset(0));
  Result a = used.record(q, guess_of(q, 2)), b = fresh.record(q, guess_of(q, 2));
  if (!same_result(a, b)) return R.fail(S() << "a rejected call changed the solver: " << where << ": then " << show(a) << " instead of " << show(b)), false;
  return true;
}

// --- dense --------------------------------------------------------------------------------
static const char* kDense[] = {"H.rows", "H.cols", "f", "G.rows", "G.cols", "h", "A.rows", "A.cols", "b", "z", "l", "v", "y", "solver.nz", "solver.nl", "solver.nv"};
static void dense_case(int n, int l, int m, bool ref, const std::vector<mc::DevSpace::Dev>& c) {
  std::vector<int> d = {n, n, n, l, n, l, m, n, m, n, l, m, m, n, l, m};
  if (!deviate(&d, c)) return;
  hash(d);
  std::string where = S() << (ref ? "dense, mapped: " : "dense: ") << show(kDense, d), what;
  const int nz = d[13], nl = d[14], nv = d[15];
  std::unique_ptr<FBstabDense> s;
  int g = outcome([&] { s.reset(new FBstabDense(nz, nl, nv)); }, &what);
  if (!judge(g, nz <= 0 || nv <= 0 || nl < 0, what, "constructor of " + where) || g) return;
  FBstabDense::Options o;
  o.DefaultParameters();
  o.display_level = Display::OFF;
  s->UpdateOptions(o);
  bool ok = d[0] == d[1] && d[0] == d[2] && d[4] == d[0] && d[7] == d[0] && d[3] == d[5] && d[6] == d[8];
  ok = ok && d[2] == nz && d[5] == nl && d[8] == nv && d[9] == nz && d[10] == nl && d[11] == nv && d[12] == nv;
  FBstabDense::ProblemData D(1, 0, 1);
  D.H = filler(d[0], d[1], 1), D.f = fillv(d[2], 0), D.G = filler(d[3], d[4], 2), D.h = fillv(d[5], 1), D.A = filler(d[6], d[7], 0), D.b = fillv(d[8], 2);
  D.H = (0.5 * (d[0] == d[1] ? MatrixXd(D.H + D.H.transpose()) : MatrixXd(2 * D.H))).eval();
  FBstabDense::Variable x(1, 1, 1);
  x.z = fillv(d[9], 3), x.l = fillv(d[10], 2), x.v = fillv(d[11], 1), x.y = fillv(d[12], 0);
  Point before;
  before.z = x.z, before.l = x.l, before.v = x.v, before.y = x.y;
  if (ref) {
    Map<MatrixXd> H(D.H.data(), d[0], d[1]), G(D.G.data(), d[3], d[4]), A(D.A.data(), d[6], d[7]);
    Map<VectorXd> f(D.f.data(), d[2]), h(D.h.data(), d[5]), b(D.b.data(), d[8]), z(x.z.data(), d[9]), la(x.l.data(), d[10]), v(x.v.data(), d[11]), y(x.y.data(), d[12]);
    FBstabDense::ProblemDataRef P(&H, &f, &G, &h, &A, &b);
    FBstabDense::VariableRef X(&z, &la, &v, &y);
    g = outcome([&] { s->Solve(P, &X); }, &what);
  } else {
    g = outcome([&] { s->Solve(D, &x); }, &what);
  }
  if (!judge(g, !ok, what, where)) return;
  Point after;
  after.z = x.z, after.l = x.l, after.v = x.v, after.y = x.y;
  if (g && !same_bits(before, after)) return R.fail(S() << "a rejected call changed the guess: " << where);
  Prob q = plain(dense_base(nz, nl, nv, 0));
  Solver used(q);
  used.d_ = std::move(s);
  still_works(used, q, where);
}

// --- optimal control ----------------------------------------------------------------------
static const char* kMpc[] = {"Q.len", "Q.rows", "Q.cols", "R.len", "R.rows", "R.cols", "S.len", "S.rows", "S.cols", "q.len", "q.rows", "q.cols", "r.len", "r.rows", "r.cols", "A.len", "A.rows", "A.cols", "B.len", "B.rows", "B.cols", "c.len", "c.rows", "c.cols",
                             "E.len", "E.rows", "E.cols", "L.len", "L.rows", "L.cols", "d.len", "d.rows", "d.cols", "x0", "z", "l", "v", "y", "solver.N", "solver.nx", "solver.nu", "solver.nc"};
static std::vector<int> mpc_dims(int N, int nx, int nu, int nc) {
  int T = N + 1;
  return {T, nx, nx, T, nu, nu, T, nu, nx, T, nx, 1, T, nu, 1, N, nx, nx, N, nx, nu, N, nx, 1, T, nc, nx, T, nc, nu, T, nc, 1, nx, T * (nx + nu), T * nx, T * nc, T * nc, N, nx, nu, nc};
}
static void mpc_case(int N, int nx, int nu, int nc, int storage, const std::vector<mc::DevSpace::Dev>& c) {
  std::vector<int> d = mpc_dims(N, nx, nu, nc);
  if (!deviate(&d, c)) return;
  hash(d);
  std::string where = S() << (storage == 2 ? "mpc, mapped: " : storage == 1 ? "mpc, referenced: " : "mpc: ") << show(kMpc, d), what;
  const int sN = d[38], sx = d[39], su = d[40], sc = d[41];
  std::unique_ptr<FBstabMpc> s;
  int g = outcome([&] { s.reset(new FBstabMpc(sN, sx, su, sc)); }, &what);
  if (!judge(g, sN < 1 || sx < 1 || su < 1 || sc < 1, what, "constructor of " + where) || g) return;
  FBstabMpc::Options o;
  o.DefaultParameters();
  o.display_level = Display::OFF;
  s->UpdateOptions(o);
  std::vector<int> want = mpc_dims(sN, sx, su, sc);
  bool ok = d == want;
  std::deque<MatrixSequence> q;
  std::deque<std::vector<double>> raw;
  std::deque<MapMatrixSequence> mq;
  for (int k = 0; k < 11; k++) {
    int L = d[3 * k], r = d[3 * k + 1], cc = d[3 * k + 2];
    MatrixSequence one;
    bool bad = L < 0 || r <= 0 || cc <= 0;
    g = outcome([&] { one = MatrixSequence(L, r, cc); }, &what);
    if (!judge(g, bad, what, S() << "sequence " << kMpc[3 * k] << " of " << where) || g) return;
    // symmetric positive definite cost blocks, small everything else
    for (int i = 0; i < L; i++) one(i) = k < 2 ? MatrixXd(3 * MatrixXd::Identity(r, cc)) : MatrixXd(0.25 * filler(r, cc, i + k));
    if (k == 10)
      for (int i = 0; i < L; i++) one(i).setConstant(-2);
    q.push_back(one);
    if (storage == 2) {
      raw.push_back(std::vector<double>(one.data(), one.data() + one.size()));
      MapMatrixSequence m;
      double dummy = 0;
      g = outcome([&] { m = MapMatrixSequence(raw.back().empty() ? &dummy : raw.back().data(), L, r, cc); }, &what);
      if (!judge(g, L <= 0, what, S() << "view " << kMpc[3 * k] << " of " << where) || g) return;
      mq.push_back(m);
    }
  }
  VectorXd x0 = fillv(d[33], 1);
  FBstabMpc::Variable x(1, 1, 1, 1);
  x.z = fillv(d[34], 3), x.l = fillv(d[35], 2), x.v = fillv(d[36], 1), x.y = fillv(d[37], 0);
  Point before;
  before.z = x.z, before.l = x.l, before.v = x.v, before.y = x.y;
  auto call = [&](const auto& P) {
    if (storage == 0) {
      g = outcome([&] { s->Solve(P, &x); }, &what);
    } else {
      FBstabMpc::VariableRef X(Map<VectorXd>(x.z.data(), d[34]), Map<VectorXd>(x.l.data(), d[35]), Map<VectorXd>(x.v.data(), d[36]), Map<VectorXd>(x.y.data(), d[37]));
      g = outcome([&] { s->Solve(P, &X); }, &what);
    }
  };
  if (storage == 0) {
    FBstabMpc::ProblemData P;
    P.Q = q[0], P.R = q[1], P.S = q[2], P.q = q[3], P.r = q[4], P.A = q[5], P.B = q[6], P.c = q[7], P.E = q[8], P.L = q[9], P.d = q[10], P.x0 = x0;
    call(P);
  } else if (storage == 1) {
    FBstabMpc::ProblemDataRef P(&q[0], &q[1], &q[2], &q[3], &q[4], &q[5], &q[6], &q[7], &q[8], &q[9], &q[10], &x0);
    call(P);
  } else {
    FBstabMpc::ProblemDataRef P;
    P.Q = mq[0], P.R = mq[1], P.S = mq[2], P.q = mq[3], P.r = mq[4], P.A = mq[5], P.B = mq[6], P.c = mq[7], P.E = mq[8], P.L = mq[9], P.d = mq[10];
    P.SetX0(x0);
    call(P);
  }
  if (!judge(g, !ok, what, where)) return;
  Point after;
  after.z = x.z, after.l = x.l, after.v = x.v, after.y = x.y;
  if (g && !same_bits(before, after)) return R.fail(S() << "a rejected call changed the guess: " << where);
  Prob p = plain(mpc_base(sN, sx, su, sc, 0));
  Solver used(p);
  used.m_ = std::move(s);
  still_works(used, p, where);
}

// --- components ---------------------------------------------------------------------------
struct Sz {
  int z, l, v;
};
static bool eq(const Sz& a, const Sz& b) { return a.z == b.z && a.l == b.l && a.v == b.v; }
static std::string show(const Sz& a) { return S() << "(" << a.z << "," << a.l << "," << a.v << ")"; }
static Sz size_of(const Sz& b, int k) {  // 27 neighbours
  return Sz{b.z + k % 3 - 1, b.l + (k / 3) % 3 - 1, b.v + k / 9 - 1};
}

template <class Lin, class Data>
static void component_case(const char* kind, Lin& lin, const Data& data, const Sz& own, mc::ll i) {
  mc::Dec dec(i);
  int call = dec.digit(5), a = dec.digit(27), b = dec.digit(27), sg = dec.digit(3), linked = dec.digit(2);
  Sz A = size_of(own, a), B = size_of(own, b);
  if (A.z < 1 || A.l < 0 || A.v < 1 || B.z < 1 || B.l < 0 || B.v < 1) return;
  double sigma = sg == 0 ? 1e-3 : sg == 1 ? 0 : -1;
  const bool second = call == 0 || call == 1 || call == 2;
  if (!second && b != 13) return;      // these calls have no second argument
  if (call >= 2 && sg != 0) return;    // ... no sigma
  FullVariable x(A.z, A.l, A.v), y(B.z, B.l, B.v);
  FullResidual r(B.z, B.l, B.v), w(own.z, own.l, own.v);
  FullFeasibility fe(own.z, own.l, own.v);
  x.v().setConstant(1), x.y().setConstant(0.5), y.v().setConstant(2);
  r.z().setConstant(1), r.l().setConstant(-1), r.v().setConstant(0.5);
  lin.LinkData(linked ? &data : nullptr), x.LinkData(linked ? &data : nullptr), w.LinkData(linked ? &data : nullptr), fe.LinkData(linked ? &data : nullptr);
  bool bad = !linked || !eq(A, own) || (second && !eq(B, own)) || !(sigma > 0);
  static const char* names[] = {"linear solver Initialize", "InnerResidual", "linear solver Solve", "NaturalResidual / PenalizedNaturalResidual", "CheckFeasibility"};
  std::string where = S() << kind << " " << names[call] << " component " << show(own) << " arguments " << show(A) << (second ? show(B) : std::string()) << " sigma " << sigma << (linked ? "" : " without data"), what;
  R.state((uint64_t)i * 7 + own.z);
  int g = 0;
  if (call == 0) g = outcome([&] { if (!lin.Initialize(x, y, sigma)) throw 1; }, &what);
  if (call == 1) g = outcome([&] { w.InnerResidual(x, y, sigma); }, &what);
  if (call == 2) {
    lin.LinkData(&data);
    FullVariable o(own.z, own.l, own.v);
    o.v().setConstant(1), o.y().setConstant(1);
    lin.Initialize(o, o, 1e-3);
    lin.LinkData(linked ? &data : nullptr);
    g = outcome([&] { if (!lin.Solve(r, &x)) throw 1; }, &what);
  }
  if (call == 3) {
    if (!eq(A, own)) return;  // nothing is documented about sizes here
    std::string w2;
    g = outcome([&] { w.NaturalResidual(x); }, &what);
    int g2 = outcome([&] { w.PenalizedNaturalResidual(x); }, &w2);
    if (!judge(g2, bad, w2, where)) return;
  }
  if (call == 4) g = outcome([&] { fe.CheckFeasibility(x, 1e-8); }, &what);
  judge(g, bad, what, where);
}

static void mpc_operator_case(const MP& mp, mc::ll i) {
  auto D = data(mp);
  MpcData M(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
  mc::Dec dec(i);
  int op = dec.digit(8), dx = dec.digit(4), dy = dec.digit(5), sc = dec.digit(9);
  static const char* nm[] = {"gemvH", "gemvA", "gemvG", "gemvAT", "gemvGT", "axpyf", "axpyh", "axpyb"};
  int in[] = {mp.nz(), mp.nz(), mp.nz(), mp.nv(), mp.nl(), 0, 0, 0}, out[] = {mp.nz(), mp.nv(), mp.nl(), mp.nz(), mp.nz(), mp.nz(), mp.nl(), mp.nv()};
  static const int dev[] = {0, -1, 1, -1000};
  if (op >= 5 && dx) return;
  int nx = op >= 5 ? 1 : std::max(0, in[op] + dev[dx]), ny = dy == 4 ? 1 : std::max(0, out[op] + dev[dy]);
  double a = (sc % 3) - 1, b = (sc / 3) - 1;
  VectorXd x = fillv(nx, 1), y = fillv(ny, 2), y0 = y;
  VectorXd* py = dy == 4 ? nullptr : &y;
  bool bad = (op < 5 && nx != in[op]) || dy == 4 || ny != out[op];
  std::string what, where = S() << nm[op] << " x of size " << nx << " y of size " << (dy == 4 ? -1 : ny);
  R.state((uint64_t)i);
  int g = outcome([&] {
    switch (op) {
      case 0: M.gemvH(x, a, b, py); break;
      case 1: M.gemvA(x, a, b, py); break;
      case 2: M.gemvG(x, a, b, py); break;
      case 3: M.gemvAT(x, a, b, py); break;
      case 4: M.gemvGT(x, a, b, py); break;
      case 5: M.axpyf(a, py); break;
      case 6: M.axpyh(a, py); break;
      default: M.axpyb(a, py);
    }
  }, &what);
  if (!judge(g, bad, what, where)) return;
  if (g && !same_bits(y, y0)) R.fail(S() << "a rejected call wrote to y: " << where);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  struct Shape {
    int a, b, c, d;
  };
  std::vector<Shape> ds = {{1, 0, 1, 0}, {2, 1, 2, 0}, {3, 2, 1, 0}, {1, 1, 1, 0}, {2, 0, 4, 0}};
  if (T) ds.push_back({4, 3, 5, 0}), ds.push_back({2, 2, 2, 0}), ds.push_back({1, 3, 2, 0});
  for (auto& s : ds)
    for (int ref = 0; ref < 2; ref++) {
      mc::DevSpace sp(std::vector<int>(16, T ? 3 : 2), T ? 4 : 3);
      R.family(S() << "dense-" << s.a << "-" << s.b << "-" << s.c << (ref ? "-mapped" : "-owned"), sp.size(), [&](mc::ll i) { dense_case(s.a, s.b, s.c, ref != 0, sp.cases[i]); });
    }
  std::vector<Shape> ms = {{1, 1, 1, 1}, {2, 2, 1, 3}, {1, 2, 3, 1}, {3, 1, 2, 2}};
  for (auto& s : ms)
    for (int st = 0; st < 3; st++) {
      mc::DevSpace sp(std::vector<int>(42, T ? 3 : 2), T ? 3 : 2);
      R.family(S() << "mpc-" << s.a << "-" << s.b << "-" << s.c << "-" << s.d << "-storage" << st, sp.size(), [&](mc::ll i) { mpc_case(s.a, s.b, s.c, s.d, st, sp.cases[i]); });
    }
  // shapes beyond likely size thresholds: every single deviation (thorough: pairs)
  for (auto& s : std::vector<Shape>{{17, 3, 20, 0}, {33, 0, 9, 0}, {9, 5, 40, 0}, {2, 1, 65, 0}})
    for (int ref = 0; ref < 2; ref++) {
      mc::DevSpace sp(std::vector<int>(16, 3), T ? 2 : 1);
      R.family(S() << "dense-" << s.a << "-" << s.b << "-" << s.c << (ref ? "-mapped" : "-owned"), sp.size(), [&](mc::ll i) { dense_case(s.a, s.b, s.c, ref != 0, sp.cases[i]); });
    }
  for (auto& s : std::vector<Shape>{{33, 1, 1, 1}, {2, 9, 1, 1}, {1, 1, 9, 2}, {2, 2, 2, 17}, {10, 4, 3, 5}})
    for (int st = 0; st < 3; st++) {
      mc::DevSpace sp(std::vector<int>(42, 3), 1);
      R.family(S() << "mpc-" << s.a << "-" << s.b << "-" << s.c << "-" << s.d << "-storage" << st, sp.size(), [&](mc::ll i) { mpc_case(s.a, s.b, s.c, s.d, st, sp.cases[i]); });
    }
  // consistent changes of one dimension everywhere but in one place
  {
    const char* dim[] = {"N", "nx", "nu", "nc"};
    for (int w = 0; w < 4; w++)
      for (int st = 0; st < 3; st++)
        R.family(S() << "mpc-except-one-" << dim[w] << "-storage" << st, 2 * 43 * 2, [&](mc::ll i) {
          mc::Dec dec(i);
          int up = dec.digit(2), keep = dec.digit(43), base = dec.digit(2);
          int p[4] = {2, 2, 2, 2}, q[4] = {2, 2, 2, 2};
          if (base) p[0] = q[0] = 3, p[1] = q[1] = 1;
          q[w] += up ? 1 : -1;
          std::vector<int> a = mpc_dims(p[0], p[1], p[2], p[3]), b = mpc_dims(q[0], q[1], q[2], q[3]);
          std::vector<mc::DevSpace::Dev> c;
          for (int k = 0; k < 42; k++) {
            if (k == keep) continue;
            int dlt = b[k] - a[k];
            for (; dlt > 0; dlt--) c.push_back({(short)k, 1});
            for (; dlt < 0; dlt++) c.push_back({(short)k, 0});
          }
          mpc_case(p[0], p[1], p[2], p[3], st, c);
        });
  }
  // consistent data of one shape given to a solver of another one (including shapes with the same totals)
  {
    auto between = [](const std::vector<int>& a, const std::vector<int>& b) {
      std::vector<mc::DevSpace::Dev> c;
      for (size_t k = 0; k < a.size(); k++) {
        int dlt = b[k] - a[k];
        for (; dlt > 0; dlt--) c.push_back({(short)k, 1});
        for (; dlt < 0; dlt++) c.push_back({(short)k, 0});
      }
      return c;
    };
    for (int st : {0, 1, 2})
      R.family(S() << "mpc-shape-pairs-storage" << st, 72 * 72 * 2, [&](mc::ll i) {
        if (!T && st == 1 && i % 2) return;
        mc::Dec dec(i);
        static const int kN[] = {1, 2, 3, 5};
        int own = dec.digit(2), p[2][4];
        for (auto& s : p) {
          s[0] = kN[dec.digit(4)];
          s[1] = dec.digit(3) + 1, s[2] = dec.digit(3) + 1, s[3] = dec.digit(2) + 1;
        }
        std::vector<int> a = mpc_dims(p[0][0], p[0][1], p[0][2], p[0][3]), b = mpc_dims(p[1][0], p[1][1], p[1][2], p[1][3]), w = a;
        std::copy(b.begin(), b.begin() + 34, w.begin());
        if (!own) std::copy(b.begin() + 34, b.begin() + 38, w.begin() + 34);
        mpc_case(p[0][0], p[0][1], p[0][2], p[0][3], st, between(a, w));
      });
    for (int ref = 0; ref < 2; ref++)
      R.family(S() << "dense-shape-pairs" << (ref ? "-mapped" : "-owned"), 64 * 64 * 2, [&](mc::ll i) {
        mc::Dec dec(i);
        int own = dec.digit(2), p[2][3];
        for (auto& s : p) s[0] = dec.digit(4) + 1, s[1] = dec.digit(4), s[2] = dec.digit(4) + 1;
        auto dims = [](const int* s) { return std::vector<int>{s[0], s[0], s[0], s[1], s[0], s[1], s[2], s[0], s[2], s[0], s[1], s[2], s[2], s[0], s[1], s[2]}; };
        std::vector<int> a = dims(p[0]), b = dims(p[1]), w = a;
        std::copy(b.begin(), b.begin() + 9, w.begin());
        if (!own) std::copy(b.begin() + 9, b.begin() + 13, w.begin() + 9);
        dense_case(p[0][0], p[0][1], p[0][2], ref != 0, between(a, w));
      });
    // one array whose dimensions are permuted, i.e. with the right number of entries (also two arrays at a time)
    static const int kS[][4] = {{2, 1, 4, 2}, {1, 2, 6, 3}, {3, 4, 1, 8}, {5, 3, 2, 1}};
    for (int st : {0, 1, 2})
      R.family(S() << "mpc-permuted-storage" << st, 4 * 11 * 6 * 11 * 6, [&](mc::ll i) {
        mc::Dec dec(i);
        static const int kP[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        const int* s = kS[dec.digit(4)];
        int x = dec.digit(11), px = dec.digit(6), y = dec.digit(11), py = dec.digit(6);
        if (y > x || (y == x && py) || (!T && y != x && (px + py + st) % 3)) return;
        std::vector<int> a = mpc_dims(s[0], s[1], s[2], s[3]), w = a;
        for (int k = 0; k < 3; k++) w[3 * x + k] = a[3 * x + kP[px][k]];
        if (y != x)
          for (int k = 0; k < 3; k++) w[3 * y + k] = a[3 * y + kP[py][k]];
        mpc_case(s[0], s[1], s[2], s[3], st, between(a, w));
      });
    R.family("dense-permuted", 4 * 8 * 24 * 2, [&](mc::ll i) {
      mc::Dec dec(i);
      static const int kD[][3] = {{2, 1, 3}, {4, 2, 3}, {3, 1, 2}, {1, 4, 2}};
      const int* s = kD[dec.digit(4)];
      int tr = dec.digit(8), pg = dec.digit(24), ref = dec.digit(2);
      std::vector<int> a = {s[0], s[0], s[0], s[1], s[0], s[1], s[2], s[0], s[2], s[0], s[1], s[2], s[2], s[0], s[1], s[2]}, w = a;
      if (tr & 1) std::swap(w[3], w[4]);
      if (tr & 2) std::swap(w[6], w[7]);
      if (tr & 4) std::swap(w[5], w[8]);
      std::vector<int> v = {0, 1, 2, 3};
      for (; pg; pg--) std::next_permutation(v.begin(), v.end());
      for (int k = 0; k < 4; k++) w[9 + k] = a[9 + v[k]];
      dense_case(s[0], s[1], s[2], ref != 0, between(a, w));
    });
  }
  // constructors: a box around the legal arguments
  R.family("construct-dense", 6 * 6 * 6, [&](mc::ll i) {
    mc::Dec d(i);
    int nz = d.digit(6) - 2, nl = d.digit(6) - 2, nv = d.digit(6) - 2;
    std::string what, where = S() << "FBstabDense(" << nz << "," << nl << "," << nv << ")";
    std::unique_ptr<FBstabDense> s;
    bool bad = nz < 1 || nl < 0 || nv < 1;
    R.state((uint64_t)i);
    if (!judge(outcome([&] { s.reset(new FBstabDense(nz, nl, nv)); }, &what), bad, what, where)) return;
    auto part = [&](const char* n, std::function<void()> f) { judge(outcome(f, &what), bad, what, S() << n << "(" << nz << "," << nl << "," << nv << ")"); };
    part("FullVariable", [&] { FullVariable x(nz, nl, nv); });
    part("FullResidual", [&] { FullResidual x(nz, nl, nv); });
    part("FullFeasibility", [&] { FullFeasibility x(nz, nl, nv); });
    part("DenseCholeskySolver", [&] { DenseCholeskySolver x(nz, nl, nv); });
    if (bad) return;
    FBstabDense::Variable v(nz, nl, nv);
    if (v.z.size() != nz || v.l.size() != nl || v.v.size() != nv || v.y.size() != nv || inf(v.z) || inf(v.l) || inf(v.v) || inf(v.y)) return R.fail("FBstabDense::Variable is not the origin of the right size");
    FBstabDense::ProblemData D(nz, nl, nv);
    D.H.setIdentity(), D.G.setZero(), D.A.setZero(), D.f.setOnes(), D.h.setZero(), D.b.setOnes();
    judge(outcome([&] { StandardOutput os; FBstabDense::Options o = FBstabDense::DefaultOptions(); o.display_level = Display::OFF; s->UpdateOptions(o); s->Solve(D, &v, os); }, &what), false, what, "solve after " + where);
  });
  R.family("construct-mpc", 4 * 4 * 4 * 4, [&](mc::ll i) {
    mc::Dec d(i);
    int N = d.digit(4) - 1, nx = d.digit(4) - 1, nu = d.digit(4) - 1, nc = d.digit(4) - 1;
    std::string what, where = S() << "FBstabMpc(" << N << "," << nx << "," << nu << "," << nc << ")";
    bool bad = N < 1 || nx < 1 || nu < 1 || nc < 1;
    R.state((uint64_t)i);
    std::unique_ptr<FBstabMpc> s, t;
    if (!judge(outcome([&] { s.reset(new FBstabMpc(N, nx, nu, nc)); }, &what), bad, what, where)) return;
    if (!judge(outcome([&] { t.reset(new FBstabMpc(Eigen::Vector4d(N, nx, nu, nc))); }, &what), bad, what, where)) return;
    if (!judge(outcome([&] { RiccatiLinearSolver x(N, nx, nu, nc); }, &what), bad, what, "RiccatiLinearSolver of " + where)) return;
    if (bad) return;
    FBstabMpc::Variable v(N, nx, nu, nc), w(Eigen::Vector4d(N, nx, nu, nc));
    for (auto* p : {&v, &w})
      if (p->z.size() != (N + 1) * (nx + nu) || p->l.size() != (N + 1) * nx || p->v.size() != (N + 1) * nc || p->y.size() != (N + 1) * nc || inf(p->z) || inf(p->l) || inf(p->v) || inf(p->y)) return R.fail("FBstabMpc::Variable is not the origin of the right size");
    MP mp = mpc_base(N, nx, nu, nc, 0);
    auto D = data(mp);
    FBstabMpc::Options o = FBstabMpc::DefaultOptions();
    o.display_level = Display::OFF;
    s->UpdateOptions(o), t->UpdateOptions(o);
    if (!judge(outcome([&] { s->Solve(D, &v); }, &what), false, what, "solve after " + where)) return;
    if (!judge(outcome([&] { t->Solve(D, &w); }, &what), false, what, "solve after " + where)) return;
    if (!same_bits(v.z, w.z)) R.fail("the vector form of the constructor makes a different solver: " + where);
  });
  // component preconditions
  for (Sz own : {Sz{2, 1, 2}, Sz{1, 1, 1}, Sz{3, 2, 1}, Sz{17, 3, 20}}) {
    QP p = dense_base(own.z, own.l, own.v, 0);
    auto D = data(p);
    DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
    DenseCholeskySolver lin(own.z, own.l, own.v);
    R.family(S() << "components-dense-" << own.z << "-" << own.l << "-" << own.v, 5 * 27 * 27 * 3 * 2, [&](mc::ll i) { component_case("dense", lin, dd, own, i); });
  }
  ms.push_back({17, 2, 1, 2}), ms.push_back({1, 3, 2, 17});
  for (auto& s : ms) {
    MP mp = mpc_base(s.a, s.b, s.c, s.d, 0);
    auto D = data(mp);
    MpcData md(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
    RiccatiLinearSolver lin(s.a, s.b, s.c, s.d);
    Sz own{mp.nz(), mp.nl(), mp.nv()};
    R.family(S() << "components-mpc-" << s.a << "-" << s.b << "-" << s.c << "-" << s.d, 5 * 27 * 27 * 3 * 2, [&](mc::ll i) { component_case("mpc", lin, md, own, i); });
    R.family(S() << "operators-mpc-" << s.a << "-" << s.b << "-" << s.c << "-" << s.d, 8 * 4 * 5 * 9, [&](mc::ll i) { mpc_operator_case(mp, i); });
  }
  R.family("null-arguments", 64 + 256 + 4, [&](mc::ll i) {
    std::string what;
    R.state((uint64_t)i);
    QP p = dense_base(2, 1, 2, 0);
    auto D = data(p);
    if (i < 64) {
      int k = (int)i;
      int g = outcome([&] { DenseData x(k & 1 ? nullptr : &D.H, k & 2 ? nullptr : &D.f, k & 4 ? nullptr : &D.G, k & 8 ? nullptr : &D.h, k & 16 ? nullptr : &D.A, k & 32 ? nullptr : &D.b); }, &what);
      judge(g, k != 0, what, S() << "DenseData with null pointers, mask " << k);
      return;
    }
    FullVariable x1(2, 1, 2), x2(2, 1, 2), x3(2, 1, 2), x4(2, 1, 2);
    FullResidual r1(2, 1, 2), r2(2, 1, 2);
    FullFeasibility fe(2, 1, 2);
    DenseCholeskySolver lin(2, 1, 2);
    if (i < 64 + 256) {
      int k = (int)i - 64;
      int g = outcome([&] { FBstabAlgorithm<FullVariable, FullResidual, DenseCholeskySolver, FullFeasibility> a(k & 1 ? nullptr : &x1, k & 2 ? nullptr : &x2, k & 4 ? nullptr : &x3, k & 8 ? nullptr : &x4, k & 16 ? nullptr : &r1, k & 32 ? nullptr : &r2, k & 64 ? nullptr : &lin, k & 128 ? nullptr : &fe); }, &what);
      judge(g, k != 0, what, S() << "FBstabAlgorithm with null components, mask " << k);
      return;
    }
    int k = (int)i - 64 - 256;
    if (k == 0) judge(outcome([&] { x1.Fill(1); }, &what), true, what, "FullVariable::Fill without data");
    if (k == 1) judge(outcome([&] { x1.InitializeConstraintMargin(); }, &what), true, what, "FullVariable::InitializeConstraintMargin without data");
    if (k == 2) judge(outcome([&] { x1.axpy(1, x2); }, &what), true, what, "FullVariable::axpy without data");
    if (k == 3) {
      DenseData dd(&D.H, &D.f, &D.G, &D.h, &D.A, &D.b);
      lin.LinkData(&dd);
      judge(outcome([&] { lin.Solve(r1, nullptr); }, &what), true, what, "DenseCholeskySolver::Solve into null");
      MP mp = mpc_base(1, 1, 1, 1, 0);
      auto M = data(mp);
      MpcData md(&M.Q, &M.R, &M.S, &M.q, &M.r, &M.A, &M.B, &M.c, &M.E, &M.L, &M.d, &M.x0);
      RiccatiLinearSolver rs(1, 1, 1, 1);
      rs.LinkData(&md);
      FullResidual rr(mp.nz(), mp.nl(), mp.nv());
      judge(outcome([&] { rs.Solve(rr, nullptr); }, &what), true, what, "RiccatiLinearSolver::Solve into null");
    }
  });
  return R.finish();
}
