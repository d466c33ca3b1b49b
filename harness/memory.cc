// C15: solves on caller memory laid out so that every illegal access is visible: each data array lies
// in its own read-only pages next to an inaccessible page (flush at its end, at its start, or in the
// middle), each result vector in its own pages with guard values around it.  All storage
// combinations, placements, guesses, presets and exit paths over the problem library and all
// single-entry deviations; results are compared with the owned-storage solve.
#include <deque>
#include <limits>

#include "solve.h"

using namespace qp;
using namespace fbstab;
using mc::S;
using Eigen::Map;
static mc::Run R;
static const size_t kPage = 4096;
static const double kCanary = 1.23456789e300;

// One array in its own mapping: [inaccessible][pages][inaccessible].
struct Buf {
  char* base = nullptr;
  size_t pages = 0;
  double* p = nullptr;
  size_t n = 0;
  Buf() {}
  Buf(const Buf&) = delete;
  // place: 0 flush at the end, 1 flush at the start, 2 in the middle and 16-byte aligned, 3 in the middle, misaligned
  void make(const double* src, size_t count, int place) {
    n = count;
    pages = (count * 8 + 512 + kPage - 1) / kPage;
    base = (char*)mmap(nullptr, (pages + 2) * kPage, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) abort();
    double* first = (double*)(base + kPage);
    size_t total = pages * kPage / 8;
    for (size_t i = 0; i < total; i++) first[i] = kCanary;
    p = place == 0 ? first + total - n : place == 1 ? first : place == 2 ? first + 16 : first + 17;
    for (size_t i = 0; i < n; i++) p[i] = src[i];
    mprotect(base, kPage, PROT_NONE);
    mprotect(base + (pages + 1) * kPage, kPage, PROT_NONE);
  }
  void protect(bool ro) { mprotect(base + kPage, pages * kPage, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
  bool canaries() const {
    const double* first = (const double*)(base + kPage);
    size_t total = pages * kPage / 8;
    for (size_t i = 0; i < total; i++)
      if ((first + i < p || first + i >= p + n) && first[i] != kCanary) return false;
    return true;
  }
  ~Buf() {
    if (base) munmap(base, (pages + 2) * kPage);
  }
};
struct Thrower : public OutputStream<Thrower> {
  mutable int left;
  explicit Thrower(int n) : left(n) {}
  void PrintImplementation(const char*) const {
    if (--left < 0) throw std::runtime_error("stream failed");
  }
};

// exit path: 0 preset default, 1 reliable, 2 newton limit, 3 prox limit, 4 the stream throws, 5 NaN guess, 6 huge guess
static const char* kPath[] = {"default", "reliable", "newton-limit", "prox-limit", "stream-throws", "nan-guess", "far-guess"};
static const int kPaths = 7;
static AlgorithmParameters path_options(int path) {
  AlgorithmParameters o = preset(path == 1 || path == 6 ? 1 : 0);
  if (path == 2) o.max_newton_iters = 2;
  if (path == 3) o.max_prox_iters = 1, o.max_inner_iters = 1;
  if (path == 4) o.display_level = Display::ITER_DETAILED;
  if (path == 5) o.max_newton_iters = 20, o.max_prox_iters = 4;
  return o;
}
static Point path_guess(const Prob& q, int path) {
  Point g = guess_of(q, path == 6 ? 3 : path % 2 ? 2 : 0);
  if (path == 5) g.z.setConstant(std::numeric_limits<double>::quiet_NaN());
  return g;
}

template <class Solve>
static void guarded(Result* r, Solve solve) {
  try {
    r->out = solve();
  } catch (const std::runtime_error& e) {
    r->threw = true, r->what = e.what();
  } catch (const std::exception& e) {
    r->other = true, r->what = e.what();
  }
}
// OS of the path
template <class F>
static void with_stream(int path, Result* r, F f) {
  if (path == 4) {
    Thrower t(3);
    guarded(r, [&] { return f(t); });
  } else {
    Recorder rec(&r->text);
    guarded(r, [&] { return f(rec); });
  }
}

// The reference: everything owned by the containers.  Checks that the data stay as they are.
static Result owned(const Prob& q, int path, double y0, std::string* bad) {
  Result r;
  Solver s(q);
  s.options(path_options(path));
  Point g = path_guess(q, path);
  g.y.setConstant(y0);
  auto same = [](const MatrixXd& a, const MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), a.size() * 8) == 0); };
  auto sames = [](const MatrixSequence& a, const MatrixSequence& b) { return a.length() == b.length() && a.rows() == b.rows() && a.cols() == b.cols() && memcmp(a.data(), b.data(), a.size() * 8) == 0; };
  if (q.mpc) {
    const auto D = data(q.mp), C = D;
    FBstabMpc::Variable X(1, 1, 1, 1);
    X.z = g.z, X.l = g.l, X.v = g.v, X.y = g.y;
    with_stream(path, &r, [&](const auto& os) { return s.m_->Solve(D, &X, os); });
    r.x.z = X.z, r.x.l = X.l, r.x.v = X.v, r.x.y = X.y;
    if (!(sames(D.Q, C.Q) && sames(D.R, C.R) && sames(D.S, C.S) && sames(D.q, C.q) && sames(D.r, C.r) && sames(D.A, C.A) && sames(D.B, C.B) && sames(D.c, C.c) && sames(D.E, C.E) && sames(D.L, C.L) && sames(D.d, C.d) && same(D.x0, C.x0))) *bad = "problem data were modified";
  } else {
    const auto D = data(q.p), C = D;
    FBstabDense::Variable X(1, 1, 1);
    X.z = g.z, X.l = g.l, X.v = g.v, X.y = g.y;
    with_stream(path, &r, [&](const auto& os) { return s.d_->Solve(D, &X, os); });
    r.x.z = X.z, r.x.l = X.l, r.x.v = X.v, r.x.y = X.y;
    if (!(same(D.H, C.H) && same(D.f, C.f) && same(D.G, C.G) && same(D.h, C.h) && same(D.A, C.A) && same(D.b, C.b))) *bad = "problem data were modified";
  }
  if (r.x.z.size() != q.p.n || r.x.l.size() != q.p.l || r.x.v.size() != q.p.m || r.x.y.size() != q.p.m) *bad = "the size of a result vector changed";
  if ((r.threw || r.other) && bad->empty() && !same_bits(r.x, g)) *bad = "a failed solve changed the result vectors";
  return r;
}

// data_mapped / var_mapped: which side lives in guarded pages; place: see Buf::make
struct Layout {
  bool data_mapped, var_mapped;
  int place;
};
static std::string show(const Layout& l) { return S() << (l.data_mapped ? "mapped data" : "owned data") << ", " << (l.var_mapped ? "mapped vectors" : "owned vectors") << ", placement " << l.place; }

template <class SolverT, class Data, class Var, class VarRef>
static Result solve_on(SolverT& s, const Data& D, Var& own, VarRef* ref, int path) {
  Result r;
  with_stream(path, &r, [&](const auto& os) { return ref ? s.Solve(D, ref, os) : s.Solve(D, &own, os); });
  return r;
}

static Result laid_out(const Prob& q, int path, const Layout& L, double y0, std::string* bad, const QP* change = nullptr, Result* second = nullptr) {
  Result r;
  Solver s(q);
  s.options(path_options(path));
  Point g = path_guess(q, path);
  g.y.setConstant(y0);
  std::deque<Buf> db, vb;
  auto put = [&](std::deque<Buf>& d, const double* p, size_t n) {
    d.emplace_back();
    d.back().make(p, n, L.place);
    return d.back().p;
  };
  std::vector<double> copy;
  auto lock = [&](bool on) {
    for (auto& b : db) b.protect(on);
  };
  double *pz = nullptr, *pl = nullptr, *pv = nullptr, *py = nullptr;
  if (L.var_mapped) pz = put(vb, g.z.data(), g.z.size()), pl = put(vb, g.l.data(), g.l.size()), pv = put(vb, g.v.data(), g.v.size()), py = put(vb, g.y.data(), g.y.size());
  const int n = q.p.n, l = q.p.l, m = q.p.m;
  auto read_back = [&](auto& X) {
    if (L.var_mapped)
      r.x.z = Map<VectorXd>(pz, n), r.x.l = Map<VectorXd>(pl, l), r.x.v = Map<VectorXd>(pv, m), r.x.y = Map<VectorXd>(py, m);
    else
      r.x.z = X.z, r.x.l = X.l, r.x.v = X.v, r.x.y = X.y;
  };
  if (q.mpc) {
    auto D = data(q.mp);
    FBstabMpc::Variable X(1, 1, 1, 1);
    X.z = g.z, X.l = g.l, X.v = g.v, X.y = g.y;
    std::unique_ptr<FBstabMpc::VariableRef> V;
    if (L.var_mapped) V.reset(new FBstabMpc::VariableRef(Map<VectorXd>(pz, n), Map<VectorXd>(pl, l), Map<VectorXd>(pv, m), Map<VectorXd>(py, m)));
    if (L.data_mapped) {
      FBstabMpc::ProblemDataRef P;
      auto mp = [&](MapMatrixSequence* t, const MatrixSequence& q) { *t = MapMatrixSequence(put(db, q.data(), q.size()), q.length(), q.rows(), q.cols()); };
      mp(&P.Q, D.Q), mp(&P.R, D.R), mp(&P.S, D.S), mp(&P.q, D.q), mp(&P.r, D.r), mp(&P.A, D.A), mp(&P.B, D.B), mp(&P.c, D.c), mp(&P.E, D.E), mp(&P.L, D.L), mp(&P.d, D.d);
      P.SetX0(Map<VectorXd>(put(db, D.x0.data(), D.x0.size()), D.x0.size()));
      lock(true);
      Result t = solve_on(*s.m_, P, X, V.get(), path);
      lock(false);
      r = t;
    } else {
      r = solve_on(*s.m_, D, X, V.get(), path);
    }
    read_back(X);
  } else {
    auto D = data(q.p);
    FBstabDense::Variable X(1, 1, 1);
    X.z = g.z, X.l = g.l, X.v = g.v, X.y = g.y;
    std::unique_ptr<FBstabDense::VariableRef> V;
    Map<VectorXd> mz(pz, pz ? n : 0), ml(pl, pl ? l : 0), mv(pv, pv ? m : 0), my(py, py ? m : 0);
    if (L.var_mapped) V.reset(new FBstabDense::VariableRef(&mz, &ml, &mv, &my));
    if (L.data_mapped) {
      Map<MatrixXd> H(put(db, D.H.data(), n * n), n, n), G(put(db, D.G.data(), l * n), l, n), A(put(db, D.A.data(), m * n), m, n);
      Map<VectorXd> f(put(db, D.f.data(), n), n), h(put(db, D.h.data(), l), l), b(put(db, D.b.data(), m), m);
      FBstabDense::ProblemDataRef P(&H, &f, &G, &h, &A, &b);
      lock(true);
      r = solve_on(*s.d_, P, X, V.get(), path);
      lock(false);
      if (change && second) {  // the views must follow the caller's memory
        read_back(X);
        Result first = r;
        f = change->f, b = change->b, A = change->A;
        if (V) V->z = g.z, V->l = g.l, V->v = g.v, V->y = g.y;
        X.z = g.z, X.l = g.l, X.v = g.v, X.y = g.y;
        *second = solve_on(*s.d_, P, X, V.get(), path);
        read_back(X);
        second->x = r.x;
        r = first;
        return r;
      }
    } else {
      r = solve_on(*s.d_, D, X, V.get(), path);
    }
    read_back(X);
  }
  for (auto& b : vb)
    if (!b.canaries()) *bad = "memory next to a result vector was overwritten";
  for (auto& b : db)
    if (!b.canaries()) *bad = "memory next to a data array was overwritten";
  if ((r.threw || r.other) && bad->empty() && !same_bits(r.x, g)) *bad = "a failed solve changed the result vectors";
  return r;
}

// Same answer up to rounding?
static bool agree(const Prob& q, const Result& a, const Result& b, int path, std::string* why) {
  if (a.threw != b.threw || a.other != b.other) return *why = "one throws, the other one does not", false;
  if (a.threw || a.other) return true;
  AlgorithmParameters o = path_options(path);
  if (a.out.eflag != b.out.eflag) {
    // degenerate problems may end with either answer at rounding level only if both are correct
    if (path <= 1 && verdict_ok(q, a.out.eflag) && verdict_ok(q, b.out.eflag)) return true;
    return *why = "different verdicts", false;
  }
  if (path == 5) return true;
  double tol = 1e-7 * (1 + magnitude(q.p, a.x));
  if (a.out.eflag == ExitFlag::SUCCESS) {
    if (!optimal(q.p, b.x, o, why)) return false;
    tol += 1e3 * combo_tol(o, q.p);
  }
  if (q.pd && inf(a.x.z - b.x.z) > tol) return *why = "different points", false;
  return true;
}

static std::vector<Layout> layouts(bool all) {
  std::vector<Layout> v;
  for (int p = 0; p < 4; p++) {
    v.push_back({true, true, p});
    if (all || p == 0) v.push_back({true, false, p}), v.push_back({false, true, p});
  }
  return v;
}

static void check(const Prob& q, int path, const std::vector<Layout>& ls) {
  std::string bad, why;
  Result a = owned(q, path, 0, &bad);
  R.validated++, R.transitions += 1 + a.out.newton_iters;
  R.note(a.threw ? "threw" : flag(a.out.eflag));
  std::string where = S() << "exit path " << kPath[path] << " on " << show(q);
  if (!bad.empty()) return R.fail(S() << bad << ": " << where);
  if (a.other) return R.fail(S() << "unexpected exception " << a.what << ": " << where);
  R.state(mc::fnv(a.x.z.data(), a.x.z.size() * 8) * 31 + path);
  // what the margin vector held before the call is irrelevant
  for (double y0 : {7.0, std::numeric_limits<double>::quiet_NaN()}) {
    Result b = owned(q, path, y0, &bad);
    if (!bad.empty()) return R.fail(S() << bad << ": " << where);
    if (!a.threw && !same_result(a, b)) return R.fail(S() << "the old contents of the margin vector influence the result: " << show(a) << " / " << show(b) << ": " << where);
  }
  for (auto& l : ls) {
    Result b = laid_out(q, path, l, 3, &bad);
    R.validated++, R.transitions += 1 + b.out.newton_iters;
    if (!bad.empty()) return R.fail(S() << bad << ": " << show(l) << " " << where);
    if (!agree(q, a, b, path, &why)) return R.fail(S() << "mapped storage changes the result (" << why << "): owned " << show(a) << " / " << show(l) << ": " << show(b) << ": " << where);
    if (R.want_sample) R.sample(S() << show(l) << " " << where << " -> " << show(b));
  }
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  std::vector<Prob> lib = dense_library();
  for (auto& p : mpc_library()) lib.push_back(p);
  for (auto& q : lib)
    R.family(S() << "library-" << q.name, kPaths, [&](mc::ll i) { check(q, (int)i, layouts(true)); });
  for (auto& q : designed_library(1))
    R.family(S() << "library-" << q.name, kPaths, [&](mc::ll i) { check(q, (int)i, layouts(T)); });
  for (auto& q : large_library(1))
    R.family(S() << "library-" << q.name, kPaths, [&](mc::ll i) { check(q, (int)i, layouts(T)); });
  // sizes around the vectorization widths
  R.family("shapes", 9 * 4 * 9 * kPaths, [&](mc::ll i) {
    mc::Dec d(i);
    int n = d.digit(9) + 1, l = d.digit(4), m = d.digit(9) + 1, path = d.digit(kPaths);
    if (l > n) return;
    if (!T && (n + l + m) % 3 != path % 3) return;
    QP p = dense_base(n, l, m, 0);
    Prob q;
    q.name = "shape", q.p = p, q.pd = positive_definite(p.H);
    check(q, path, layouts(false));
  });
  R.family("shapes-mpc", 3 * 3 * 3 * 3 * kPaths, [&](mc::ll i) {
    mc::Dec d(i);
    int N = d.digit(3) + 1, nx = d.digit(3) + 1, nu = d.digit(3) + 1, nc = d.digit(3) + 1, path = d.digit(kPaths);
    MP p = mpc_base(N, nx, nu, nc, 0);
    Prob q;
    q.name = "shape", q.mp = p, q.mpc = true, q.p = expand(p), q.pd = positive_definite(q.p.H);
    check(q, path, layouts(T));
  });
  // single-entry deviations
  for (int kind = 0; kind < 3; kind++) {
    DenseDev dv(2, 1, 2, kind, {-1, 0, 2}, T ? 3 : 2);
    R.family(S() << "deviations-" << dv.name(), dv.size() * 2, [&](mc::ll i) { check(make("dev", dv.get(i / 2)), (int)(i % 2), layouts(false)); });
    MpcSpace ms(mpc_base(2, 1, 1, 1, kind), {-1, 0, 2}, T ? 3 : 2);
    R.family(S() << "deviations-mpc-" << kind, ms.size() * 2, [&](mc::ll i) {
      // quick: every case in two of the layouts, every layout in a third of the cases
      std::vector<Layout> all = layouts(false), some = all;
      if (!T) some = {all[(i / 2) % 6], all[(i / 2 + 3) % 6]};
      check(make("dev", ms.get(i / 2)), (int)(i % 2), some);
    });
  }
  // views follow the memory they refer to
  {
    DenseDev dv(2, 1, 2, 0, {-1, 0, 2}, 1);
    R.family("views-follow", dv.size() * 8, [&](mc::ll i) {
      Prob a = make("before", dv.base), b = make("after", dv.get(i / 8));
      if (a.p.H != b.p.H || a.p.G != b.p.G || a.p.h != b.p.h) return;
      std::string bad, why;
      Layout L{true, (i / 4) % 2 == 1, (int)(i % 4)};
      Result second, ref = owned(b, 1, 0, &bad);
      laid_out(a, 1, L, 0, &bad, &b.p, &second);
      R.validated++, R.transitions += 2;
      if (!agree(b, ref, second, 1, &why)) R.fail(S() << "a view does not follow its memory (" << why << "): " << show(second) << " instead of " << show(ref) << " for " << show(b));
    });
    R.family("views-follow-mpc", 2 * 12, [&](mc::ll i) {
      MP mp = mpc_base(2, 1, 1, 1, 0);
      auto D = data(mp);
      FBstabMpc::ProblemDataRef P(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      FBstabMpc s(2, 1, 1, 1);
      auto o = FBstabMpc::ReliableOptions();
      o.display_level = Display::OFF;
      s.UpdateOptions(o);
      FBstabMpc::Variable x(2, 1, 1, 1), y(2, 1, 1, 1);
      s.Solve(P, &x);
      int k = (int)(i / 2), stage = (int)(i % 2);
      MatrixSequence* seqs[] = {&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d};
      if (k < 11) (*seqs[k])(stage)(0, 0) += 0.5;
      else D.x0(0) += 0.5;
      x = FBstabMpc::Variable(2, 1, 1, 1);
      SolverOut a = s.Solve(P, &x);
      FBstabMpc t(2, 1, 1, 1);
      t.UpdateOptions(o);
      const auto E = D;
      SolverOut b = t.Solve(E, &y);
      R.validated++, R.transitions += 3;
      R.state((uint64_t)i);
      if (a.eflag != b.eflag || inf(x.z - y.z) > 1e-3) R.fail(S() << "a referenced sequence does not follow its memory: sequence " << k << " stage " << stage << ": " << vec(x.z) << " instead of " << vec(y.z));
    });
  }
  // the containers themselves: a new variable is the origin of the right size, a view is exactly the caller's
  // memory, fill sets all four vectors and nothing else
  {
    static const double kA[] = {0, 1, -2.5, 1e300, -1e-300, 0.1};
    auto filled = [](double* const* p, const int* n, double a, std::string* why) {
      static const char* nm[] = {"z", "l", "v", "y"};
      for (int k = 0; k < 4; k++)
        for (int j = 0; j < n[k]; j++)
          if (memcmp(&p[k][j], &a, 8)) return *why = S() << nm[k] << "(" << j << ") = " << p[k][j], false;
      return true;
    };
    const int nn = R.qt(9, 20);
    R.family("containers-dense", (mc::ll)nn * nn * nn * 6 * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int place = d.digit(4), ka = d.digit(6), nz = d.digit(nn) + 1, nl = d.digit(nn), nv = d.digit(nn) + 1, n[4] = {nz, nl, nv, nv};
      std::string where = S() << "dense (" << nz << "," << nl << "," << nv << ")", why;
      FBstabDense::Variable x(nz, nl, nv);
      if (x.z.size() != nz || x.l.size() != nl || x.v.size() != nv || x.y.size() != nv) return R.fail("a new variable has the wrong size: " + where);
      double* px[4] = {x.z.data(), x.l.data(), x.v.data(), x.y.data()};
      if (!filled(px, n, 0.0, &why)) return R.fail("a new variable is not the origin (" + why + "): " + where);
      FBstabDense::ProblemData D(nz, nl, nv);
      if (D.H.rows() != nz || D.H.cols() != nz || D.G.rows() != nl || D.G.cols() != nz || D.A.rows() != nv || D.A.cols() != nz || D.f.size() != nz || D.h.size() != nl || D.b.size() != nv) return R.fail("new problem data have the wrong size: " + where);
      Buf b[4];
      double* p[4];
      std::vector<double> src(std::max(std::max(nz, nl), nv), 5);
      for (int k = 0; k < 4; k++) b[k].make(src.data(), n[k], place), p[k] = b[k].p;
      Map<VectorXd> z(p[0], nz), l(p[1], nl), v(p[2], nv), y(p[3], nv);
      FBstabDense::VariableRef r(&z, &l, &v, &y);
      if (r.z.data() != p[0] || (nl && r.l.data() != p[1]) || r.v.data() != p[2] || r.y.data() != p[3] || r.z.size() != nz || r.l.size() != nl || r.v.size() != nv || r.y.size() != nv) return R.fail("a view of result vectors is not the caller's memory: " + where);
      r.fill(kA[ka]);
      R.validated++, R.transitions++, R.state(mc::fnv(&i, 8));
      if (!filled(p, n, kA[ka], &why)) return R.fail(S() << "fill(" << kA[ka] << ") leaves " << why << ": " << where);
      for (auto& q : b)
        if (!q.canaries()) return R.fail("fill writes outside of the vectors: " + where);
      Map<MatrixXd> H(D.H.data(), nz, nz), G(D.G.data(), nl, nz), A(D.A.data(), nv, nz);
      Map<VectorXd> f(D.f.data(), nz), h(D.h.data(), nl), bb(D.b.data(), nv);
      FBstabDense::ProblemDataRef P(&H, &f, &G, &h, &A, &bb);
      if (P.H.data() != D.H.data() || P.A.data() != D.A.data() || (nl && (P.G.data() != D.G.data() || P.h.data() != D.h.data())) || P.f.data() != D.f.data() || P.b.data() != D.b.data() || P.H.rows() != nz || P.H.cols() != nz || P.G.rows() != nl || P.G.cols() != nz || P.A.rows() != nv || P.A.cols() != nz || P.f.size() != nz || P.h.size() != nl || P.b.size() != nv) return R.fail("a view of problem data is not the caller's memory: " + where);
    });
    const int nm = R.qt(4, 6);
    R.family("containers-mpc", (mc::ll)nm * nm * nm * nm * 6 * 4, [&](mc::ll i) {
      mc::Dec d(i);
      int place = d.digit(4), ka = d.digit(6), N = d.digit(nm) + 1, nx = d.digit(nm) + 1, nu = d.digit(nm) + 1, nc = d.digit(nm) + 1, T1 = N + 1, n[4] = {T1 * (nx + nu), T1 * nx, T1 * nc, T1 * nc};
      std::string where = S() << "mpc (" << N << "," << nx << "," << nu << "," << nc << ")", why;
      FBstabMpc::Variable x(N, nx, nu, nc), w(Eigen::Vector4d(N, nx, nu, nc));
      for (auto* q : {&x, &w}) {
        if (q->z.size() != n[0] || q->l.size() != n[1] || q->v.size() != n[2] || q->y.size() != n[3]) return R.fail("a new variable has the wrong size: " + where);
        double* px[4] = {q->z.data(), q->l.data(), q->v.data(), q->y.data()};
        if (!filled(px, n, 0.0, &why)) return R.fail("a new variable is not the origin (" + why + "): " + where);
      }
      Buf b[4];
      double* p[4];
      std::vector<double> src(T1 * (nx + nu + nc), 5);
      for (int k = 0; k < 4; k++) b[k].make(src.data(), n[k], place), p[k] = b[k].p;
      FBstabMpc::VariableRef r(Map<VectorXd>(p[0], n[0]), Map<VectorXd>(p[1], n[1]), Map<VectorXd>(p[2], n[2]), Map<VectorXd>(p[3], n[3]));
      if (r.z.data() != p[0] || r.l.data() != p[1] || r.v.data() != p[2] || r.y.data() != p[3] || r.z.size() != n[0] || r.l.size() != n[1] || r.v.size() != n[2] || r.y.size() != n[3]) return R.fail("a view of result vectors is not the caller's memory: " + where);
      r.fill(kA[ka]);
      R.validated++, R.transitions++, R.state(mc::fnv(&i, 8));
      if (!filled(p, n, kA[ka], &why)) return R.fail(S() << "fill(" << kA[ka] << ") leaves " << why << ": " << where);
      for (auto& q : b)
        if (!q.canaries()) return R.fail("fill writes outside of the vectors: " + where);
      MP mp = mpc_base(N, nx, nu, nc, 0);
      auto D = data(mp);
      FBstabMpc::ProblemDataRef P(&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d, &D.x0);
      MatrixSequence* from[] = {&D.Q, &D.R, &D.S, &D.q, &D.r, &D.A, &D.B, &D.c, &D.E, &D.L, &D.d};
      MapMatrixSequence* to[] = {&P.Q, &P.R, &P.S, &P.q, &P.r, &P.A, &P.B, &P.c, &P.E, &P.L, &P.d};
      for (int k = 0; k < 11; k++) {
        if (to[k]->length() != from[k]->length() || to[k]->rows() != from[k]->rows() || to[k]->cols() != from[k]->cols()) return R.fail(S() << "a view of problem data has the wrong size: sequence " << k << " of " << where);
        for (int j = 0; j < to[k]->length(); j++)
          if ((*to[k])(j).data() != (*from[k])(j).data() || (*to[k])(j).rows() != from[k]->rows() || (*to[k])(j).cols() != from[k]->cols()) return R.fail(S() << "a view of problem data is not the caller's memory: sequence " << k << " block " << j << " of " << where);
      }
      if (P.x0.data() != D.x0.data() || P.x0.size() != nx) return R.fail("a view of the initial state is not the caller's memory: " + where);
    });
  }
  return R.finish();
}
