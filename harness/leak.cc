// C24: live heap memory, counted by replacing the allocator.  Every word of operations up to a depth is
// repeated on one solver object; the live memory must stop growing after the second round.  Every word of
// object life cycles (constructions, copies, assignments, rejected arguments, failures) is repeated; the
// live memory after a repetition must be that of the repetition before.
#include <malloc.h>

#include <Eigen/Sparse>
#include <utility>

#include "tap.h"
#include "tools/matrix_sequence.h"
#include "tools/qdldl/qdldl_wrapper.h"

using namespace qp;
using fbstab::MapMatrixSequence;
using fbstab::MatrixSequence;
using fbstab::QdldlWrapper;
using mc::S;
static mc::Run R;

// --- counting allocator --------------------------------------------------------------------
static long long g_blocks = 0, g_bytes = 0, g_peak = 0, g_calls = 0;
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static inline void* got(void* p) {
  if (p) {
    g_blocks++, g_calls++, g_bytes += (long long)malloc_usable_size(p);
    if (g_bytes > g_peak) g_peak = g_bytes;
  }
  return p;
}
static inline void gone(void* p) {
  if (p) g_blocks--, g_bytes -= (long long)malloc_usable_size(p);
}
void* malloc(size_t n) { return got(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void free(void* p) { gone(p), __libc_free(p); }
void* realloc(void* p, size_t n) {
  gone(p);
  void* q = __libc_realloc(p, n);
  if (q || n == 0) return got(q);
  return got(p), nullptr;
}
void* aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void* memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n) {
  *out = got(__libc_memalign(a, n));
  return *out ? 0 : 12;
}
}
struct Live {
  long long blocks, bytes;
};
static Live live() { return Live{g_blocks, g_bytes}; }
// (equal requests may be served by slightly larger blocks: a few bytes say nothing)
static bool grew(const Live& a, const Live& b) { return b.blocks > a.blocks || b.bytes > a.bytes + 256; }
static std::string show(const Live& a) { return S() << a.blocks << " blocks, " << a.bytes << " bytes"; }

struct Silent : public fbstab::OutputStream<Silent> {  // formats everything, keeps nothing
  void PrintImplementation(const char*) const {}
};
struct Breaks : public fbstab::OutputStream<Breaks> {  // fails at message n
  mutable int left;
  explicit Breaks(int n) : left(n) {}
  void PrintImplementation(const char*) const {
    if (--left < 0) throw std::runtime_error("stream failed");
  }
};

// --- letters -------------------------------------------------------------------------------
struct Scene {
  std::vector<Prob> probs;  // of one size, for one solver object
  Prob bent;                // not convex: the factorization breaks down
  std::vector<Point> guess, nan, wide_z, wide_v;
  std::vector<AlgorithmParameters> opts;
  std::vector<std::string> names;
  std::string name;
};
static Scene scene(const std::string& name, const std::vector<Prob>& probs) {
  Scene s;
  s.name = name, s.probs = probs;
  for (auto& q : probs) {
    Point g = guess_of(q, 2), x = g;
    s.guess.push_back(g);
    x.z.setConstant(std::numeric_limits<double>::quiet_NaN());
    s.nan.push_back(x);
    x = g, x.z.resize(g.z.size() + 1), x.z.setZero();
    s.wide_z.push_back(x);
    x = g, x.v.resize(g.v.size() + 2), x.v.setOnes();
    s.wide_v.push_back(x);
  }
  s.bent = probs[0];
  if (s.bent.mpc) {
    for (auto& r : s.bent.mp.R) r.diagonal().array() -= 1e6;
    s.bent.p = expand(s.bent.mp);
  } else {
    s.bent.p.H.diagonal().array() -= 1e6;
  }
  for (int k = 0; k < 4; k++) {
    AlgorithmParameters o = preset(k == 1);
    o.display_level = k == 0 ? Display::OFF : Display::ITER_DETAILED;
    if (k == 2) o.max_newton_iters = 3, o.max_prox_iters = 2, o.max_inner_iters = 2, o.max_linesearch_iters = 1;
    if (k == 3) o.check_feasibility = false, o.nonmonotone_linesearch = false, o.max_newton_iters = 60, o.abs_tol = o.rel_tol = o.stall_tol = 0;
    s.opts.push_back(o);
  }
  for (size_t i = 0; i < probs.size(); i++) s.names.push_back("solve(" + probs[i].name + ")");
  for (const char* n : {"solve(NaN guess)", "options(default)", "options(reliable)", "options(small limits)", "options(zero tolerances)", "rejected(z)", "rejected(v)", "stream failure at message 0", "stream failure at message 4", "stream failure at message 9", "solve of a problem that is not convex", "solve without a stream"}) s.names.push_back(n);
  return s;
}
static long long g_bent[2] = {0, 0};
static void letter(Solver& s, const Scene& c, int k) {
  R.transitions++;
  int n = (int)c.probs.size();
  Silent out;
  if (k < n) {
    s.solve(c.probs[k], c.guess[k], &out);
    return;
  }
  switch (k - n) {
    case 0: s.solve(c.probs[0], c.nan[0], &out); break;
    case 1: case 2: case 3: case 4: s.options(c.opts[k - n - 1]); break;
    case 5: s.solve(c.probs[0], c.wide_z[0], &out); break;
    case 6: s.solve(c.probs[n > 1], c.wide_v[n > 1], &out); break;
    case 7: case 8: case 9: {
      Breaks b(k - n == 7 ? 0 : k - n == 8 ? 4 : 9);
      s.solve(c.probs[0], c.guess[0], &b);
      break;
    }
    case 10: g_bent[s.solve(c.bent, c.guess[0], &out).threw]++; break;
    default: {
      AlgorithmParameters o = preset(0);
      s.options(o);
      s.solve(c.probs[n > 1], c.guess[n > 1]);
    }
  }
}
// One object, the word over and over.
static void word_on_one_object(const Scene& c, const std::vector<int>& w) {
  const int rounds = 7;
  Live at[rounds + 1], before[3], inside;
  std::string word;
  for (int k : w) word += c.names[k] + " ";
  for (int rep = 0; rep < 3; rep++) {
    before[rep] = live();
    {
      Solver s(c.probs[0]);
      s.options(c.opts[2]);
      for (int i = 0; i <= (rep == 0 ? rounds : 1); i++) {
        for (int k : w) letter(s, c, k);
        if (rep == 0) at[i] = live();
      }
      inside = live();
    }
  }
  const Live end = live();  // before the harness itself allocates anything
  R.validated++;
  R.state(mc::fnv(word.data(), word.size(), mc::fnv(c.name.data(), c.name.size())));
  if (R.want_sample) R.sample(S() << word << "on " << c.name << ": live after the rounds " << show(at[0]) << " ... " << show(at[rounds]) << "; " << show(before[1]) << " without an object");
  if (grew(at[1], at[rounds])) return R.fail(S() << "live memory grows while one object is used: " << show(at[1]) << " after 2 rounds, " << show(at[rounds]) << " after " << rounds + 1 << " rounds of: " << word << "| " << c.name);
  if (grew(before[1], before[2]) || grew(before[2], end)) return R.fail(S() << "destroying a solver leaves memory behind: " << show(before[1]) << " before, " << show(end) << " after two objects used for: " << word << "| " << c.name);
  if (inside.blocks <= before[2].blocks) R.note("allocator-not-counting");
  R.note("words"), R.note("solves-of-nonconvex-problems", g_bent[0]), R.note("breakdowns", g_bent[1]);
  g_bent[0] = g_bent[1] = 0;
}

// --- life cycles -----------------------------------------------------------------------------
template <class F>
static void swallow(F f) {
  try {
    f();
  } catch (const std::exception&) {
  }
}
typedef Eigen::SparseMatrix<double> Sparse;
static Sparse kkt_matrix(int n, bool dense, double shift) {
  std::vector<Eigen::Triplet<double>> t;
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < j; i++)
      if (dense || i + 1 == j) t.push_back(Eigen::Triplet<double>(i, j, 0.5 + i));
    t.push_back(Eigen::Triplet<double>(j, j, j % 2 ? -9.0 - shift : 9.0 + shift));
  }
  Sparse A(n, n);
  A.setFromTriplets(t.begin(), t.end());
  A.makeCompressed();
  return A;
}
struct Parts {
  std::vector<Prob> dense, mpc;
};
static const char* kLife[] = {
    "dense solver", "mpc solver", "dense solver solving", "mpc solver solving", "rejected dense sizes", "rejected mpc sizes", "dense solve failing in the linear solver", "mpc solve failing in the linear solver",
    "dense variables copied and assigned", "mpc variables copied and assigned", "dense data copied and assigned", "mpc data copied and assigned", "variable and residual vectors", "rejected internal operations", "sequences built, copied, assigned, moved", "rejected sequences",
    "views rebound", "factorizations made, copied, assigned", "factorization repeated", "factorization breaking down", "rejected internal data", "mpc solve from references", "dense solve from references", "dense solve, infeasible"};
static const int kLives = 24;
static void life(const Parts& P, int k) {
  R.transitions++;
  const Prob &d = P.dense[0], &m = P.mpc[0];
  Silent out;
  switch (k) {
    case 0: { Solver s(d); break; }
    case 1: { Solver s(m); break; }
    case 2: { Solver s(d); s.solve(d, Point(d.p), &out); break; }
    case 3: { Solver s(m); s.solve(m, Point(m.p), &out); break; }
    case 4:
      swallow([] { FBstabDense s(0, 1, 1); });
      swallow([] { FBstabDense s(2, -1, 1); });
      swallow([] { FBstabDense s(2, 1, 0); });
      break;
    case 5:
      swallow([] { FBstabMpc s(0, 1, 1, 1); });
      swallow([] { FBstabMpc s(2, 0, 1, 1); });
      swallow([] { FBstabMpc s(2, 2, 0, 1); });
      swallow([] { FBstabMpc s(2, 2, 1, 0); });
      break;
    case 6: case 7: {
      const Prob& q = k == 6 ? d : m;
      for (int at = 0; at < 3; at++)
        for (int how = 0; how < 2; how++) {
          TapSolver s(q);
          s.options(preset(at % 2));
          if (how == 0) s.tap.init = [&](int i, const FullVariable&, const FullVariable&, double) { return i != at; };
          else s.tap.solve = [&](int i, FullVariable*) { return i != at; };
          s.solve(q, Point(q.p));
        }
      break;
    }
    case 8: {
      FBstabDense::Variable x(2, 1, 3), y(4, 2, 5), z(x);
      y = x, x = y, z = x;
      break;
    }
    case 9: {
      FBstabMpc::Variable x(2, 1, 1, 3), y(4, 2, 1, 2), z(x);
      y = x, x = y, z = x;
      break;
    }
    case 10: {
      FBstabDense::ProblemData x = data(d.p), y(3, 2, 4), z(x);
      y = x, x = y, z = y;
      break;
    }
    case 11: {
      FBstabMpc::ProblemData x = data(m.mp), y, z(x);
      y = x, x = y, z = y;
      break;
    }
    case 12: {
      FullVariable x(3, 2, 4), y(3, 2, 4);
      FullResidual r(3, 2, 4);
      FullFeasibility f(3, 2, 4);
      swallow([&] { x.Fill(1); });
      swallow([&] { y.Copy(x), x.ProjectDuals(), r.Fill(2), r.Negate(); });
      swallow([&] { x.axpy(1, y); });
      swallow([&] { r.InnerResidual(x, y, 1); });
      swallow([] { FullVariable w(0, 1, 1); });
      swallow([] { FullResidual w(0, 1, 1); });
      swallow([] { FullFeasibility w(0, 1, 1); });
      break;
    }
    case 13: {
      FullVariable own(3, 2, 4), other(2, 0, 1);
      DenseData w(&d.p.H, &d.p.f, &d.p.G, &d.p.h, &d.p.A, &d.p.b);
      swallow([&] { own.Copy(other); });
      swallow([&] { own.InitializeConstraintMargin(); });
      swallow([&] {
        FullVariable x(d.p.n, d.p.l, d.p.m);
        x.LinkData(&w), x.Fill(1), x.axpy(0.5, x), x.ProjectDuals();
        DenseCholeskySolver lin(2, 1, 3);
        lin.Initialize(own, other, 1);
      });
      swallow([] { DenseCholeskySolver lin(0, 1, 3); });
      swallow([] { RiccatiLinearSolver lin(2, 1, -1, 3); });
      break;
    }
    case 14: {
      MatrixSequence a(3, 2, 2), b(1, 1, 4), c(a);
      b = a, c = b, a = MatrixSequence(2, 3, 1);
      MatrixSequence e(std::move(b));
      b = e, e = e;
      break;
    }
    case 15:
      swallow([] { MatrixSequence s(-1, 2, 2); });
      swallow([] { MatrixSequence s(2, 0, 2); });
      swallow([] {
        MatrixSequence s(2, 2, 2);
        s(2)(0, 0) = 1;
      });
      break;
    case 16: {
      MatrixSequence a(3, 2, 2), b(2, 1, 4);
      MapMatrixSequence v(a.data(), 3, 2, 2), w(b.data(), 2, 1, 4), u(v), none;
      u = w, v = u, none = MapMatrixSequence(a);
      swallow([&] { v(3).sum(); });
      swallow([&] { MapMatrixSequence t(a.data(), 2, -1, 2); });
      break;
    }
    case 17: {
      Sparse A = kkt_matrix(4, true, 0), B = kkt_matrix(7, false, 1);
      QdldlWrapper a(4, A.outerIndexPtr(), A.innerIndexPtr()), b(7, B.outerIndexPtr(), B.innerIndexPtr());
      a.Factor(A);
      QdldlWrapper c(a);
      b.Factor(B);
      VectorXd x = VectorXd::Ones(4);
      c.Solve(&x);
      a = b, b = a, c = QdldlWrapper(b);
      x = VectorXd::Ones(7), c.Solve(&x);
      break;
    }
    case 18: {
      Sparse A = kkt_matrix(5, true, 0);
      QdldlWrapper a(5, A.outerIndexPtr(), A.innerIndexPtr());
      VectorXd x = VectorXd::Ones(5);
      for (int i = 0; i < 4; i++) a.Factor(kkt_matrix(5, true, i)), a.Solve(&x);
      break;
    }
    case 19: {
      Sparse A = kkt_matrix(3, true, 0);
      A.coeffRef(1, 1) = 0, A.coeffRef(0, 0) = 0;  // breaks down
      QdldlWrapper a(3, A.outerIndexPtr(), A.innerIndexPtr());
      a.Factor(A);
      break;
    }
    case 20:
      swallow([&] {
        QP p = d.p;
        p.f.resize(p.n + 1);
        DenseData w(&p.H, &p.f, &p.G, &p.h, &p.A, &p.b);
      });
      swallow([&] {
        QP p = d.p;
        DenseData w(&p.H, &p.f, &p.G, &p.h, (const MatrixXd*)nullptr, &p.b);
      });
      break;
    case 21: {
      FBstabMpc::ProblemData D = data(m.mp);
      FBstabMpc::Variable X(m.mp.N, m.mp.nx, m.mp.nu, m.mp.nc);
      typedef Eigen::Map<VectorXd> Map;
      FBstabMpc s(m.mp.N, m.mp.nx, m.mp.nu, m.mp.nc);
      FBstabMpc::ProblemDataRef ref(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      FBstabMpc::VariableRef x(Map(X.z.data(), X.z.size()), Map(X.l.data(), X.l.size()), Map(X.v.data(), X.v.size()), Map(X.y.data(), X.y.size())), x2(x);
      swallow([&] { s.Solve(ref, &x, out); });
      break;
    }
    case 22: {
      FBstabDense::ProblemData D = data(d.p);
      FBstabDense::Variable X(d.p.n, d.p.l, d.p.m);
      FBstabDense s(d.p.n, d.p.l, d.p.m);
      typedef Eigen::Map<VectorXd> Map;
      typedef Eigen::Map<MatrixXd> MapM;
      MapM H(D.H.data(), d.p.n, d.p.n), G(D.G.data(), d.p.l, d.p.n), A(D.A.data(), d.p.m, d.p.n);
      Map f(D.f.data(), d.p.n), h(D.h.data(), d.p.l), bb(D.b.data(), d.p.m), z(X.z.data(), d.p.n), l(X.l.data(), d.p.l), v(X.v.data(), d.p.m), y(X.y.data(), d.p.m);
      FBstabDense::ProblemDataRef ref(&H, &f, &G, &h, &A, &bb);
      FBstabDense::VariableRef x(&z, &l, &v, &y);
      swallow([&] { s.Solve(ref, &x, out); });
      break;
    }
    default: {
      Solver s(P.dense[1]);
      s.solve(P.dense[1], Point(P.dense[1].p), &out);
    }
  }
}
static void lives(const Parts& P, const std::vector<int>& w) {
  std::string word;
  for (int k : w) word += std::string(kLife[k]) + "; ";
  Live at[5];
  for (int i = 0; i < 5; i++) {
    for (int k : w) life(P, k);
    at[i] = live();
  }
  R.validated++;
  R.state(mc::fnv(word.data(), word.size()));
  if (R.want_sample) R.sample(S() << word << "live after each round: " << show(at[1]) << " ... " << show(at[4]));
  R.note("life-cycles");
  if (grew(at[1], at[4])) R.fail(S() << "live memory grows over life cycles: " << show(at[1]) << " after 2 rounds, " << show(at[4]) << " after 5 rounds of: " << word);
}

// --- long solves: the live memory at a late iteration is that at an early one ---------------------
static void long_solve(const Prob& q, int guess, int variant) {
  AlgorithmParameters o = preset(variant & 1);
  o.max_newton_iters = 1500, o.max_prox_iters = 1500;
  o.abs_tol = o.rel_tol = o.stall_tol = 0, o.inner_tol_min = 1e-14, o.check_feasibility = (variant & 2) != 0;
  if (variant & 4) o.max_inner_iters = 3;
  Point g = guess_of(q, guess);
  struct Meter : public fbstab::OutputStream<Meter> {
    mutable Live early, most;
    mutable int n = 0;
    void PrintImplementation(const char*) const {
      Live a = live();
      if (++n <= 40) early.blocks = std::max(early.blocks, a.blocks), early.bytes = std::max(early.bytes, a.bytes);
      else most.blocks = std::max(most.blocks, a.blocks), most.bytes = std::max(most.bytes, a.bytes);
    }
    Meter() : early(Live{0, 0}), most(Live{0, 0}) {}
  } meter;
  o.display_level = Display::ITER_DETAILED;
  Solver s(q);
  s.options(o);
  Result r = s.solve(q, g, &meter);
  R.validated++, R.transitions += r.threw ? 1 : r.out.newton_iters;
  R.state(mc::fnv(&variant, 4, mc::fnv(&guess, 4, mc::fnv(q.name.data(), q.name.size()))));
  std::string where = S() << "variant " << variant << " guess " << guess << ": " << meter.n << " messages, first 40: " << show(meter.early) << ", later: " << show(meter.most) << " | " << show(r) << " | " << show(q);
  if (R.want_sample) R.sample(where);
  if (meter.n <= 80) return R.note("short-solves");
  R.note("long-solves");
  if (grew(meter.early, meter.most)) R.fail("live memory grows with the iterations of one solve: " + where);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  std::vector<Prob> lib = dense_library(), mlib = mpc_library();
  auto pick = [](const std::vector<Prob>& v, std::initializer_list<const char*> names) {
    std::vector<Prob> r;
    for (auto n : names)
      for (auto& q : v)
        if (q.name == n) r.push_back(q);
    return r;
  };
  std::vector<Scene> scenes;
  scenes.push_back(scene("dense", pick(lib, {"convex-active", "infeasible", "unbounded", "both"})));
  scenes.push_back(scene("dense-equality", pick(lib, {"infeasible-equality", "redundant-equality"})));
  scenes.push_back(scene("dense-three", pick(lib, {"three"})));
  scenes.push_back(scene("mpc", pick(mlib, {"mpc-tight", "mpc-infeasible"})));
  scenes.push_back(scene("mpc-unbounded", pick(mlib, {"mpc-unbounded", "mpc-semi"})));
  scenes.push_back(scene("mpc-long", pick(mlib, {"mpc-long"})));
  for (auto& q : designed_library(T ? 1 : 0)) scenes.push_back(scene(q.name, {q}));
  for (size_t i = 0; i < scenes.size(); i++) {
    const Scene& c = scenes[i];
    bool same = true;
    for (auto& q : c.probs) same = same && q.p.n == c.probs[0].p.n && q.p.m == c.probs[0].p.m && q.p.l == c.probs[0].p.l;
    if (!same || c.probs.empty()) abort();
    int n = (int)c.names.size();
    for (int depth = 1; depth <= (i < 6 ? R.qt(3, 4) : R.qt(1, 2)); depth++) {
      mc::ll total = 1;
      for (int k = 0; k < depth; k++) total *= n;
      R.family(S() << "words-" << c.name << "-depth" << depth, total, [&](mc::ll j) {
        mc::Dec d(j);
        std::vector<int> w;
        for (int k = 0; k < depth; k++) w.push_back(d.digit(n));
        word_on_one_object(c, w);
      });
    }
  }
  Parts P;
  P.dense = pick(lib, {"three", "infeasible"}), P.mpc = pick(mlib, {"mpc-tight"});
  for (int depth = 1; depth <= R.qt(2, 3); depth++) {
    mc::ll total = 1;
    for (int k = 0; k < depth; k++) total *= kLives;
    R.family(S() << "life-cycles-depth" << depth, total, [&](mc::ll j) {
      mc::Dec d(j);
      std::vector<int> w;
      for (int k = 0; k < depth; k++) w.push_back(d.digit(kLives));
      lives(P, w);
    });
  }
  std::vector<Prob> all = lib;
  for (auto& q : mlib) all.push_back(q);
  for (auto& q : designed_library(T ? 1 : 0)) all.push_back(q);
  for (auto& q : all) {
    int ng = T ? kNumGuesses : 2;
    R.family(S() << "long-solves-" << q.name, ng * 8ll, [&](mc::ll j) {
      mc::Dec d(j);
      int g = d.digit(ng);
      long_solve(q, T ? g : g * 2, d.digit(8));
    });
  }
  return R.finish();
}
