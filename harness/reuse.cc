// C10: every sequence of operations on one solver object up to a depth, followed by every probe
// solve; the probe must be bit-identical (vectors, counters, residuals, printed progress) to the same
// solve on a new object with the same options.  Second part: the same solves on heap and stack
// memory prefilled with different garbage must be bit-identical.
#include <errno.h>
#include <malloc.h>
#include <sys/wait.h>

#include <limits>

#include "designed.h"
#include "solve.h"

using namespace qp;
using mc::S;
static mc::Run R;

// --- heap interposer ----------------------------------------------------------------------
static int g_fill = -1;  // byte used for fresh allocations, -1: leave as is
extern "C" {
void* __libc_malloc(size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (p && g_fill >= 0) memset(p, g_fill, n);
  return p;
}
void* aligned_alloc(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  if (p && g_fill >= 0) memset(p, g_fill, n);
  return p;
}
void* memalign(size_t a, size_t n) { return aligned_alloc(a, n); }
int posix_memalign(void** out, size_t a, size_t n) {
  *out = aligned_alloc(a, n);
  return *out ? 0 : 12;
}
}
__attribute__((noinline)) static void paint_stack(int byte) {
  volatile char buf[48 * 1024];
  for (size_t i = 0; i < sizeof buf; i++) buf[i] = (char)byte;
}

// --- operations ---------------------------------------------------------------------------
struct Thrower : public fbstab::OutputStream<Thrower> {  // the caller's stream fails in the middle of a solve
  mutable int left;
  explicit Thrower(int n) : left(n) {}
  void PrintImplementation(const char*) const {
    if (--left < 0) throw std::runtime_error("stream failed");
  }
};

struct Op {
  std::string name;
  int kind;  // 0 solve, 1 options, 2 solve with wrong sizes, 3 solve with failing stream
  int prob = 0, guess = 0, opt = 0;
};
struct Group {
  std::string name;
  std::vector<Prob> probs;
  std::vector<Op> ops;
  std::vector<int> probes;
};

static AlgorithmParameters option(int k) {
  AlgorithmParameters o = preset(k == 1 ? 1 : 0);
  o.display_level = Display::ITER_DETAILED;
  if (k == 1) o.display_level = Display::ITER;
  if (k == 2) o.alpha = 0.5, o.beta = 0.3, o.sigma0 = o.sigma_max = 1e-6, o.nonmonotone_linesearch = false, o.abs_tol = 1e-3, o.display_level = Display::FINAL;
  if (k == 3) o.max_newton_iters = 4, o.max_prox_iters = 3, o.max_inner_iters = 2, o.max_linesearch_iters = 2, o.display_level = Display::ITER;
  if (k == 4) o.check_feasibility = false, o.max_newton_iters = 30, o.max_prox_iters = 10, o.display_level = Display::ITER_DETAILED;
  if (k >= 5) {  // long runs: no tolerance can be met
    o.abs_tol = o.rel_tol = o.stall_tol = 0, o.inner_tol_min = 1e-14, o.check_feasibility = false, o.display_level = Display::OFF;
    o.max_newton_iters = k == 5 ? 1300 : 700, o.max_prox_iters = k == 5 ? 2000 : 650, o.max_inner_iters = k == 5 ? 150 : 1;
  }
  return o;
}
static const int nOpt = 5;

static Point guess_for(const Prob& q, int k) {
  if (k == 3) {
    Point g(q.p);
    g.z.setConstant(std::numeric_limits<double>::quiet_NaN());
    return g;
  }
  if (k == 4) {  // solution-like: immediate exit for some problems
    Point g(q.p);
    g.z.setConstant(1);
    return g;
  }
  return guess_of(q, k == 0 ? 0 : k == 1 ? 2 : 5);
}

// All solves from the same stack depth, so that the library's temporaries reuse the same addresses.
__attribute__((noinline)) static Result solve_here(Solver& s, const Prob& q, const Point& x) { return s.record(q, x); }

static Result perform(Solver& s, const Group& g, const Op& op) {
  R.transitions++;
  Result r;
  switch (op.kind) {
    case 0: return s.record(g.probs[op.prob], guess_for(g.probs[op.prob], op.guess));
    case 1: s.options(option(op.opt)); return r;
    case 2: {
      Point x = guess_for(g.probs[op.prob], 0);
      if (op.guess == 0) x.z.resize(x.z.size() + 1), x.z.setZero();
      else x.v.resize(x.v.size() + 2), x.v.setOnes();
      return s.record(g.probs[op.prob], x);
    }
    default: {
      Thrower t(op.guess);
      return s.solve(g.probs[op.prob], guess_for(g.probs[op.prob], 1), &t);
    }
  }
}

static Group make_group(const std::string& name, const std::vector<Prob>& probs, bool small) {
  Group g;
  g.name = name, g.probs = probs;
  for (int i = 0; i < (int)probs.size(); i++)
    for (int k : {1, 0, 3}) {
      if (k == 3 && i > 0) continue;  // one solve from a NaN guess
      if (k == 0 && small && i % 2) continue;
      Op o;
      o.kind = 0, o.prob = i, o.guess = k;
      o.name = S() << "solve(" << probs[i].name << "," << (k == 0 ? "zero" : k == 1 ? "mixed" : "nan") << ")";
      g.probes.push_back((int)g.ops.size());
      g.ops.push_back(o);
    }
  for (int k = 0; k < nOpt; k++) {
    Op o;
    o.kind = 1, o.opt = k, o.name = S() << "options(" << k << ")";
    g.ops.push_back(o);
  }
  Op o;
  o.kind = 2, o.prob = 0, o.guess = 0, o.name = "rejected(size of z)";
  g.ops.push_back(o);
  o.guess = 1, o.name = "rejected(size of v)";
  g.ops.push_back(o);
  o.kind = 3, o.guess = 5, o.name = "stream failure at message 5";
  g.ops.push_back(o);
  return g;
}

static void poison(Prob* q) {  // data with a NaN: the factorization fails
  q->name = "nan-data";
  q->p.H(0, 0) = std::numeric_limits<double>::quiet_NaN();
  if (q->mpc) q->mp.Q[0](0, 0) = std::numeric_limits<double>::quiet_NaN();
}

static void explore(const Group& g, int depth) {
  int no = (int)g.ops.size();
  std::map<std::pair<int, int>, Result> fresh;  // (options, probe)
  auto reference = [&](int opt, int probe) -> const Result& {
    auto key = std::make_pair(opt, probe);
    auto it = fresh.find(key);
    if (it != fresh.end()) return it->second;
    Solver s(g.probs[0]);
    s.options(option(opt));
    return fresh[key] = perform(s, g, g.ops[probe]);
  };
  // case: the prefix; inside: every probe, each after replaying the prefix on its own object
  R.family(S() << "reuse-" << g.name << "-depth" << depth, mc::ipow(no, depth), [&](mc::ll i) {
    mc::Dec d(i);
    std::vector<int> pre(depth);
    for (auto& k : pre) k = d.digit(no);
    // the object keeps being reused for the probes, too: probe k runs after prefix + probes before it
    int opt = 0;
    Solver s(g.probs[0]);
    s.options(option(0));
    std::string hist;
    for (int k : pre) {
      if (g.ops[k].kind == 1) opt = g.ops[k].opt;
      perform(s, g, g.ops[k]);
      hist += g.ops[k].name + "; ";
    }
    // rotate the probe order so that every probe comes directly after some prefix
    int np = (int)g.probes.size();
    for (int a = 0; a < np && !R.violated; a++) {
      int probe = g.probes[(a + i) % np];
      Result r = perform(s, g, g.ops[probe]);
      const Result& w = reference(opt, probe);
      R.validated++;
      R.state(mc::fnv(&i, 8, mc::fnv(&probe, 4, mc::fnv(r.text.data(), r.text.size(), mc::fnv(g.name.data(), g.name.size())))));
      hist += g.ops[probe].name + "; ";
      if (!same_result(r, w)) {
        size_t k = 0;
        while (k < r.text.size() && k < w.text.size() && r.text[k] == w.text[k]) k++;
        R.fail(S() << "reused solver differs from a new one (options " << opt << "): history " << hist << " last gives " << show(r) << " but a new solver " << show(w) << (r.text != w.text ? " printed text differs at: " : "") << (r.text != w.text ? r.text.substr(k > 60 ? k - 60 : 0, 160) + " / " + w.text.substr(k > 60 ? k - 60 : 0, 160) : ""));
      }
      if (R.want_sample && a == 0) R.sample(S() << "history " << hist << " -> " << show(r));
    }
  });
}

// Words of operations repeated until the history is long: every solve on the way is compared.
static void periodic(const Group& g, int len, int total) {
  int no = (int)g.ops.size();
  std::map<std::pair<int, int>, Result> fresh;
  R.family(S() << "periodic-" << g.name << "-word" << len, mc::ipow(no, len), [&](mc::ll i) {
    mc::Dec d(i);
    std::vector<int> w(len);
    bool solves = false;
    for (auto& k : w) k = d.digit(no), solves |= g.ops[k].kind != 1;
    if (!solves) return;
    Solver s(g.probs[0]);
    s.options(option(0));
    int opt = 0;
    for (int a = 0; a < total && !R.violated; a++) {
      const Op& o = g.ops[w[a % len]];
      if (o.kind == 1) opt = o.opt;
      Result r = perform(s, g, o);
      if (o.kind == 1) continue;
      auto key = std::make_pair(opt, w[a % len]);
      auto it = fresh.find(key);
      if (it == fresh.end()) {
        Solver t(g.probs[0]);
        t.options(option(opt));
        it = fresh.insert(std::make_pair(key, perform(t, g, o))).first;
      }
      R.validated++;
      R.state(mc::fnv(&i, 8, mc::fnv(&a, 4, mc::fnv(g.name.data(), g.name.size()))));
      if (!same_result(r, it->second)) {
        std::string word;
        for (int k : w) word += g.ops[k].name + "; ";
        R.fail(S() << "operation " << a << " of the repeated word " << word << " (options " << opt << ") gives " << show(r) << " but a new solver " << show(it->second));
      }
    }
  });
}

// Solves after (and under) long runs on the same object.
static void after_long_run(const Group& g) {
  int nprobe = (int)g.probes.size(), no = nOpt + R.qt(0, 2);
  R.family(S() << "after-long-run-" << g.name, (mc::ll)nprobe * 2 * no, [&](mc::ll i) {
    mc::Dec d(i);
    int lng = 5 + d.digit(2), opt = d.digit(no), first = g.probes[(int)d.k];
    Solver s(g.probs[0]);
    s.options(option(lng));
    Result a = perform(s, g, g.ops[first]);
    s.options(option(opt));
    for (int p = 0; p < nprobe && !R.violated; p++) {
      Solver t(g.probs[0]);
      t.options(option(opt));
      Result r = perform(s, g, g.ops[g.probes[p]]), w = perform(t, g, g.ops[g.probes[p]]);
      R.validated++, R.transitions += r.threw ? 1 : r.out.newton_iters + r.out.prox_iters;
      R.state(mc::fnv(&i, 8, mc::fnv(&p, 4, mc::fnv(g.name.data(), g.name.size()))));
      if (!same_result(r, w)) R.fail(S() << "after a run of " << a.out.prox_iters << " proximal and " << a.out.newton_iters << " Newton iterations (options " << lng << ", " << g.ops[first].name << "), options " << opt << ", solve " << p << " " << g.ops[g.probes[p]].name << " gives " << show(r) << " but a new solver " << show(w));
    }
  });
}

// One block of the data times a factor.
static const int kBlocks = 6;
static const char* block_name(bool mpc, int b) {
  static const char* d[] = {"H", "f", "G,h", "A,b", "h", "b"};
  static const char* m[] = {"Q,R,S", "q,r", "A,B", "c,x0", "E,L", "d"};
  return mpc ? m[b] : d[b];
}
static void scale_block(Prob* q, int b, double a) {
  if (!q->mpc) {
    QP& p = q->p;
    if (b == 0) p.H *= a;
    if (b == 1) p.f *= a;
    if (b == 2) p.G *= a;
    if (b == 3) p.A *= a;
    if (b == 2 || b == 4) p.h *= a;
    if (b == 3 || b == 5) p.b *= a;
    return;
  }
  MP& m = q->mp;
  auto mul = [&](std::vector<MatrixXd>& v) {
    for (auto& M : v) M *= a;
  };
  if (b == 0) mul(m.Q), mul(m.R), mul(m.S);
  if (b == 1) mul(m.q), mul(m.r);
  if (b == 2) mul(m.A), mul(m.B);
  if (b == 3) mul(m.c), m.x0 *= a;
  if (b == 4) mul(m.E), mul(m.L);
  if (b == 5) mul(m.d);
  q->p = expand(m);
}
// Solves whose history has data of a very different magnitude: every block of every problem times every
// factor is solved first, then every probe.
static void scaled_history(const Group& g, int nopt) {
  static const double kF[] = {1e-9, 1e9, 0, -1, 1e-3, 1e3};
  const int nf = R.qt(3, 6);
  std::map<std::pair<int, int>, Result> fresh;
  R.family(S() << "scaled-history-" << g.name, (mc::ll)g.probs.size() * kBlocks * nf * nopt, [&](mc::ll i) {
    mc::Dec d(i);
    int opt = d.digit(nopt), b = d.digit(kBlocks), k = d.digit(nf), pr = (int)d.k;
    Prob q = g.probs[pr];
    scale_block(&q, b, kF[k]);
    Solver s(g.probs[0]);
    s.options(option(opt));
    for (int a = 0; a < (int)g.probes.size() && !R.violated; a++) {
      solve_here(s, q, guess_for(q, a % 2));
      int probe = g.probes[(a + i) % g.probes.size()];
      const Op& o = g.ops[probe];
      Result r = solve_here(s, g.probs[o.prob], guess_for(g.probs[o.prob], o.guess));
      auto key = std::make_pair(opt, probe);
      auto it = fresh.find(key);
      if (it == fresh.end()) {
        Solver t(g.probs[0]);
        t.options(option(opt));
        it = fresh.insert(std::make_pair(key, solve_here(t, g.probs[o.prob], guess_for(g.probs[o.prob], o.guess)))).first;
      }
      R.validated++, R.transitions++;
      R.state(mc::fnv(&i, 8, mc::fnv(&probe, 4, mc::fnv(g.name.data(), g.name.size()))));
      if (!same_result(r, it->second)) R.fail(S() << "after solving " << q.name << " with " << block_name(q.mpc, b) << " times " << kF[k] << ", " << g.ops[probe].name << " (options " << opt << ") gives " << show(r) << " but a new solver " << show(it->second));
    }
  });
}

// A receding-horizon loop: one solver, one data object changed in place, one solution variable that is the
// next guess.  Every step is compared with a new solver, new data and the same guess.
template <class SolverT, class Data, class Var>
static void loop_step(SolverT& s, const Data& D, Var* X, Result* r) {
  Recorder rec(&r->text);
  R.transitions++;
  try {
    r->out = s.Solve(D, X, rec);
  } catch (const std::runtime_error& e) {
    r->threw = true, r->what = e.what();
  }
  r->x.z = X->z, r->x.l = X->l, r->x.v = X->v, r->x.y = X->y;
}
static void put(const QP& q, FBstabDense::ProblemData* d) { d->H = q.H, d->G = q.G, d->A = q.A, d->f = q.f, d->h = q.h, d->b = q.b; }
static void put(const MP& m, FBstabMpc::ProblemData* d) {
  for (int i = 0; i <= m.N; i++) {
    d->Q(i) = m.Q[i], d->R(i) = m.R[i], d->S(i) = m.S[i], d->q(i) = m.q[i], d->r(i) = m.r[i], d->E(i) = m.E[i], d->L(i) = m.L[i], d->d(i) = m.d[i];
    if (i < m.N) d->A(i) = m.A[i], d->B(i) = m.B[i], d->c(i) = m.c[i];
  }
  d->x0 = m.x0;
}
static void reset(const Prob& q, FBstabDense::Variable* x) { x->z.setZero(), x->l.setZero(), x->v.setZero(), x->y.setZero(); }
static void reset(const Prob& q, FBstabMpc::Variable* x) { x->z.setZero(), x->l.setZero(), x->v.setZero(), x->y.setZero(); }

static void nudge(int what, int a, QP* q) {
  if (what == 0) q->b *= -1, q->h *= 0.5;
  else q->f(a % q->n) += a % 3 - 1;
}
static void nudge(int what, int a, MP* m) {
  if (what == 0) m->x0 = -m->x0, m->x0(0) += 0.25 * (a % 5 - 2);
  else m->q[a % (m->N + 1)](0, 0) += a % 3 - 1;
}
// letters: take problem k's data; scale the right hand sides / initial state in place; perturb the linear cost; change options; restart from zero
template <class SolverT, class P, class Get, class New, class NewVar>
static void in_place(const Group& g, int len, int total, Get get, New make_solver, NewVar make_var) {
  const int np = (int)g.probs.size(), na = np + 2 + nOpt + 1;
  R.family(S() << "in-place-" << g.name << "-word" << len, mc::ipow(na, len), [&](mc::ll i) {
    mc::Dec d(i);
    std::vector<int> w(len);
    for (auto& k : w) k = d.digit(na);
    auto s = make_solver();
    P cur = get(g.probs[0]);
    auto D = data(cur);
    auto X = make_var();
    int opt = 0;
    auto set = [&](SolverT& t) {
      typename SolverT::Options o;
      (AlgorithmParameters&)o = option(opt);
      t.UpdateOptions(o);
    };
    set(*s);
    for (int a = 0; a < total && !R.violated; a++) {
      int k = w[a % len];
      if (k < np) cur = get(g.probs[k]);
      else if (k < np + 2) nudge(k - np, a, &cur);
      else if (k < np + 2 + nOpt) opt = k - np - 2, set(*s);
      else reset(g.probs[0], &X);
      put(cur, &D);
      Result r, f;
      auto Y = make_var();
      Y.z = X.z, Y.l = X.l, Y.v = X.v, Y.y = X.y;
      loop_step(*s, D, &X, &r);
      {
        auto t = make_solver();
        set(*t);
        auto E = data(cur);
        loop_step(*t, E, &Y, &f);
      }
      R.validated++;
      R.state(mc::fnv(r.x.z.data(), r.x.z.size() * 8, mc::fnv(&a, 4, mc::fnv(&k, 4))));
      if (!same_result(r, f)) R.fail(S() << "step " << a << " of the loop with letters " << i << " (length " << len << "): the reused solver on data changed in place gives " << show(r) << " but a new one " << show(f));
      for (int c = 0; c < X.z.size(); c++)
        if (!std::isfinite(X.z(c)) || std::fabs(X.z(c)) > 1e6) {
          reset(g.probs[0], &X);
          break;
        }
    }
  });
}
static void in_place(const Group& g, int len, int total) {
  const Prob& q = g.probs[0];
  if (q.mpc) {
    const MP& m = q.mp;
    in_place<FBstabMpc, MP>(g, len, total, [](const Prob& p) { return p.mp; }, [&] { return std::unique_ptr<FBstabMpc>(new FBstabMpc(m.N, m.nx, m.nu, m.nc)); }, [&] { return FBstabMpc::Variable(m.N, m.nx, m.nu, m.nc); });
  } else {
    const QP& p = q.p;
    in_place<FBstabDense, QP>(g, len, total, [](const Prob& x) { return x.p; }, [&] { return std::unique_ptr<FBstabDense>(new FBstabDense(p.n, p.l, p.m)); }, [&] { return FBstabDense::Variable(p.n, p.l, p.m); });
  }
}

// --- state of the process ---------------------------------------------------------------------
// Every solve below runs in a process that has not solved anything before; the reference is that solve alone.
template <class F>
static std::string in_child(F f) {
  int p[2];
  if (pipe(p)) abort();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) {
    close(p[0]);
    alarm(100);
    std::string s = f();
    for (size_t i = 0; i < s.size();) {
      ssize_t k = write(p[1], s.data() + i, s.size() - i);
      if (k <= 0) break;
      i += k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char buf[65536];
  for (;;) {
    ssize_t k = read(p[0], buf, sizeof buf);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
    out.append(buf, k);
  }
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (st) out += "[the process ended with status " + std::to_string(st) + "]";
  return out;
}
static std::string digest(const Result& r) {
  std::string s = show(r);
  if (!r.threw && !r.other) {
    char b[64];
    snprintf(b, sizeof b, " %a %a", r.out.residual, r.out.initial_residual);
    s += b;
  }
  for (auto* v : {&r.x.z, &r.x.l, &r.x.v, &r.x.y}) s += " " + std::to_string(mc::fnv(v->data(), v->size() * 8));
  return s + " text " + std::to_string(mc::fnv(r.text.data(), r.text.size()));
}
static void pristine(const std::vector<Prob>& probs, bool thorough) {
  struct Letter {
    int prob, opt, guess;
  };
  std::vector<Letter> L;
  for (int o = 0; o < nOpt; o++)
    for (int i = 0; i < (int)probs.size(); i++) L.push_back(Letter{i, o, (i + o) % 2});
  const int n = (int)L.size();
  auto run = [&](const Letter& l) {
    Solver s(probs[l.prob]);
    s.options(option(l.opt));
    R.transitions++;
    return digest(s.record(probs[l.prob], guess_for(probs[l.prob], l.guess)));
  };
  auto name = [&](const Letter& l) { return std::string(S() << "solve(" << probs[l.prob].name << ", options " << l.opt << ", guess " << l.guess << ")"); };
  std::map<int, std::string> alone;  // filled when needed
  auto ref = [&](int k) -> const std::string& {
    auto it = alone.find(k);
    if (it == alone.end()) it = alone.insert({k, in_child([&] { return run(L[k]); })}).first;
    return it->second;
  };
  // first one letter (thorough: two), then all others in both orders, each on an object of its own
  R.family(thorough ? "pristine-process-depth2" : "pristine-process", (thorough ? (mc::ll)n * n : n) * 2, [&](mc::ll i) {
    mc::Dec d(i);
    int dir = d.digit(2);
    std::vector<int> order;
    order.push_back(d.digit(n));
    if (thorough) order.push_back(d.digit(n));
    size_t first = order.size();
    for (int k = 0; k < n; k++) order.push_back(dir ? n - 1 - k : k);
    std::string got = in_child([&] {
      std::string s;
      for (int k : order) s += run(L[k]) + '\1';
      return s;
    });
    R.validated++, R.transitions += n;
    R.state(mc::fnv(order.data(), order.size() * sizeof(int)));
    size_t at = 0;
    for (size_t j = 0; j < order.size(); j++) {
      size_t e = got.find('\1', at);
      std::string one = got.substr(at, e == std::string::npos ? e : e - at);
      if (one != ref(order[j])) {
        R.fail(S() << "the result depends on what this process did before: " << one << " instead of " << ref(order[j]) << " | " << name(L[order[j]]) << " after " << name(L[order[0]]) << " and " << (j > first ? j - first : 0) << " more");
        return;
      }
      if (e == std::string::npos) return;
      at = e + 1;
    }
  });
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  {
    std::vector<Prob> ps;  // before anything else: nothing may have been solved in this process
    for (auto& p : dense_library()) ps.push_back(p);
    for (auto& p : mpc_library()) ps.push_back(p);
    pristine(ps, false);
    if (T) {
      std::vector<Prob> few;
      for (auto& p : ps)
        if (p.name == "convex-active" || p.name == "infeasible" || p.name == "unbounded" || p.name == "large-data" || p.name == "mpc-tight" || p.name == "mpc-infeasible" || p.name == "mpc-unbounded") few.push_back(p);
      pristine(few, true);
    }
  }
  auto lib = dense_library();
  auto find = [&](const std::vector<Prob>& l, const char* n) {
    for (auto& p : l)
      if (p.name == n) return p;
    abort();
  };
  std::vector<Group> groups;
  {
    std::vector<Prob> ps;
    for (auto& p : lib)
      if (p.p.n == 2 && p.p.l == 0 && p.p.m == 2) ps.push_back(p);
    Prob bad = ps[0];
    poison(&bad);
    ps.push_back(bad);
    groups.push_back(make_group("dense-2-0-2", ps, true));
  }
  {
    std::vector<Prob> ps = {find(lib, "equality")};
    QP a = ps[0].p;
    a.G << 0, 0;
    ps.push_back(make("inconsistent", a));
    a = ps[0].p, a.H.setZero(), a.A << -1, 0, 0, -1, a.b << 0, 0;
    ps.push_back(make("equality-lp", a));
    a.f << -1, -1, a.G << 1, -1;
    ps.push_back(make("equality-unbounded", a));
    Prob bad = ps[0];
    poison(&bad);
    ps.push_back(bad);
    groups.push_back(make_group("dense-2-1-2", ps, false));
  }
  {
    std::vector<Prob> ps;
    MP b = mpc_base(1, 1, 1, 2, 0);
    ps.push_back(make("mpc-a", b));
    MP c = b;
    for (auto& d : c.d) d(0, 0) = -2, d(1, 0) = -1;
    c.x0(0) = -1, c.S[0](0, 0) = 0.5;
    ps.push_back(make("mpc-b", c));
    ps.push_back(find(mpc_library(), "mpc-infeasible"));
    c = b;
    MpcSpace::set_hess(c, 1, MatrixXd::Zero(2, 2));
    c.L[1].setZero(), c.r[1](0, 0) = 1;
    ps.push_back(make("mpc-unb", c));
    Prob bad = ps[0];
    poison(&bad);
    ps.push_back(bad);
    groups.push_back(make_group("mpc-1-1-1-2", ps, false));
  }
  for (auto& g : groups)
    for (int d = 0; d <= (T ? 4 : 3); d++) explore(g, d);

  for (auto& g : groups) {
    periodic(g, 1, 300);
    periodic(g, 2, T ? 64 : 40);
    if (T) periodic(g, 3, 24);
    after_long_run(g);
    scaled_history(g, nOpt);
    in_place(g, 1, 120);
    in_place(g, 2, 24);
    if (T) in_place(g, 3, 18);
  }

  // larger shapes, problems of known kind
  auto raw = [](const std::string& n, const QP& p) {
    Prob q;
    q.name = n, q.p = p;
    return q;
  };
  static const int kD[][3] = {{5, 2, 7}, {8, 1, 12}, {3, 0, 16}}, kM[][4] = {{5, 2, 2, 3}, {12, 1, 1, 2}, {9, 3, 2, 5}};
  for (int sh = 0; sh < 6; sh++) {
    std::vector<Prob> ps;
    for (int mode = 0; mode < kModes; mode++) {
      Design de;
      Prob q;
      if (sh < 3) {
        q = raw(S() << "mode" << mode, design_dense(kD[sh][0], kD[sh][1], kD[sh][2], mode % 2 ? 0 : mode / 2, mode, sh + mode, &de));
      } else {
        const int* k = kM[sh - 3];
        MP m = design_mpc(k[0], k[1], k[2], k[3], mode % 2 ? 0 : mode / 2, mode, sh + mode, &de);
        q = raw(S() << "mode" << mode, expand(m));
        q.mpc = true, q.mp = m;
      }
      ps.push_back(q);
    }
    Prob bad = ps[0];
    poison(&bad);
    ps.push_back(bad);
    Group g = make_group(S() << (sh < 3 ? "designed-dense-" : "designed-mpc-") << sh % 3, ps, true);
    for (int d = 0; d <= (T ? 3 : 1); d++) explore(g, d);
    periodic(g, 1, 60);
    periodic(g, 2, T ? 40 : 12);
    after_long_run(g);
    scaled_history(g, T ? nOpt : 2);
    in_place(g, 1, 40);
    in_place(g, 2, T ? 20 : 6);
  }

  // shapes beyond likely size thresholds
  std::vector<Prob> large = large_library(T ? 1 : 0);
  for (size_t a = 0; a < large.size();) {
    size_t b = a;
    std::vector<Prob> ps;
    auto same_shape = [](const Prob& x, const Prob& y) { return x.mpc == y.mpc && x.p.n == y.p.n && x.p.l == y.p.l && x.p.m == y.p.m && (!x.mpc || (x.mp.N == y.mp.N && x.mp.nx == y.mp.nx)); };
    while (b < large.size() && same_shape(large[a], large[b])) ps.push_back(large[b++]);
    Prob bad = ps[0];
    poison(&bad);
    ps.push_back(bad);
    Group g = make_group(large[a].name.substr(0, large[a].name.find("-kind")), ps, true);
    for (int d = 0; d <= (T ? 2 : 1); d++) explore(g, d);
    periodic(g, 1, T ? 20 : 6);
    if (T) periodic(g, 2, 8);
    scaled_history(g, T ? 2 : 1);
    in_place(g, 1, T ? 16 : 6);
    in_place(g, 2, T ? 6 : 3);
    a = b;
  }

  // memory contents
  std::vector<Prob> all = lib;
  for (auto& p : mpc_library()) all.push_back(p);
  for (size_t k = 0; k < large.size(); k += T ? 1 : 3) all.push_back(large[k]);
  static const int kFill[] = {0x00, 0xff, 0x41, 0x7f, 0x3f, 0xc0};
  for (auto& q : all)
    R.family(S() << "memory-" << q.name, nOpt * 5 * 2, [&](mc::ll i) {
      mc::Dec d(i);
      int opt = d.digit(nOpt), gk = d.digit(5), twice = d.digit(2);
      Result first;
      for (int f = 0; f < 6 && !R.violated; f++) {
        g_fill = kFill[f];
        Result r;
        {
          paint_stack(kFill[f]);
          Solver s(q);
          s.options(option(opt));
          paint_stack(kFill[f]);
          if (twice) s.record(q, guess_for(q, 1));
          paint_stack(kFill[f]);
          r = s.record(q, guess_for(q, gk));
        }
        g_fill = -1;
        R.transitions++, R.validated++;
        R.state(mc::fnv(&i, 8, mc::fnv(&f, 4, mc::fnv(q.name.data(), q.name.size()))));
        if (f == 0) first = r;
        else if (!same_result(r, first))
          R.fail(S() << "result depends on the previous contents of memory (fill " << kFill[f] << "): " << show(r) << " instead of " << show(first) << " options " << opt << " guess " << gk << " on " << show(q) << " text " << r.text << " / " << first.text);
        if (R.want_sample && f == 1) R.sample(S() << "memory filled with " << kFill[f] << ": " << show(r));
      }
    });
  return R.finish();
}
