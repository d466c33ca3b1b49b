// C17: two solves on two threads under a controlled scheduler.
//  - reduction: every memory access of both threads is recorded; accesses of both threads to the same memory,
//    one of them a write, are the only ones whose order matters.  Without any, all interleavings are
//    equivalent to the one that ran; otherwise all schedules with one and two preemptions at exactly these
//    accesses are explored;
//  - all schedules with one preemption at any memory access (both threads, both orders), no reduction;
//  - the same from a cold start: the very first solves of a process, one process per schedule;
//  - nesting: a complete second solve inside every print call of the first.
#include <sys/wait.h>

#include "mcsched.h"
#include "solve.h"

using namespace qp;
using mc::S;
static mc::Run R;

// --- one thread's work: build a solver, solve, solve again -------------------------------------------
struct Job {
  const Prob* q;
  int guess, pre, display;
  const FBstabDense::ProblemData* dd;  // data shared between threads
  const FBstabMpc::ProblemData* md;
  // outcome, plain memory only
  double num[256];
  int n;
  uint64_t text;
  char what[160];
  bool same(const Job& o) const { return n == o.n && text == o.text && !strcmp(what, o.what) && !memcmp(num, o.num, n * sizeof(double)); }
};
struct Hash : public fbstab::OutputStream<Hash> {
  uint64_t* h;
  explicit Hash(uint64_t* p) : h(p) {}
  void PrintImplementation(const char* m) const {
    if (strncmp(m, "Time elapsed", 12)) *h = mc::fnv(m, strlen(m), *h);
  }
};
static void put(Job* j, double x) {
  if (j->n < 256) j->num[j->n++] = x;
}
template <class Solver, class Options, class Data, class Var>
static void work(Job* j, Solver& s, Options o, const Data& d, Var x) {
  (AlgorithmParameters&)o = preset(j->pre);
  o.display_level = (Display)j->display;
  s.UpdateOptions(o);
  Hash os(&j->text);
  for (int k = 0; k < 2; k++) {
    Point g(j->q->p);
    set_guess(kGuesses[(j->guess + 2 * k) % 3], &g);
    x.z = g.z, x.l = g.l, x.v = g.v, x.y = g.y;
    SolverOut u = s.Solve(d, &x, os);
    put(j, (double)(int)u.eflag), put(j, u.residual), put(j, u.initial_residual), put(j, u.newton_iters), put(j, u.prox_iters);
    for (auto* v : {&x.z, &x.l, &x.v, &x.y})
      for (int i = 0; i < v->size(); i++) put(j, (*v)(i));
  }
}
static void body(void* a) {
  Job* j = (Job*)a;
  j->n = 0, j->text = 1469598103934665603ull;
  memset(j->what, 0, sizeof j->what);
  try {
    const Prob& q = *j->q;
    if (q.mpc) {
      FBstabMpc s(q.mp.N, q.mp.nx, q.mp.nu, q.mp.nc);
      FBstabMpc::Variable x(q.mp.N, q.mp.nx, q.mp.nu, q.mp.nc);
      work(j, s, FBstabMpc::Options(), *j->md, x);
    } else {
      FBstabDense s(q.p.n, q.p.l, q.p.m);
      FBstabDense::Variable x(q.p.n, q.p.l, q.p.m);
      work(j, s, FBstabDense::Options(), *j->dd, x);
    }
  } catch (const std::exception& e) {
    strncpy(j->what, e.what(), sizeof j->what - 1);
  }
}
static std::string show(const Job& j) {
  S s;
  s << "[";
  for (int i = 0; i < j.n && i < 24; i++) s << (i ? " " : "") << j.num[i];
  s << "] text " << (unsigned long long)j.text << " " << j.what;
  return s;
}

struct Pair {
  std::string name;
  Prob a, b;
  int ga, gb, pa, pb, da, db;
  bool share;  // both threads solve from one problem data object
  FBstabDense::ProblemData dd[2] = {FBstabDense::ProblemData(1, 0, 1), FBstabDense::ProblemData(1, 0, 1)};
  FBstabMpc::ProblemData md[2];
  Job alone[2];
  Pair(const std::string& n, const Prob& a_, const Prob& b_, int ga_, int gb_, int pa_, int pb_, int da_, int db_, bool share_) : name(n), a(a_), b(b_), ga(ga_), gb(gb_), pa(pa_), pb(pb_), da(da_), db(db_), share(share_) {
    for (int k = 0; k < 2; k++) {
      const Prob& q = k ? b : a;
      if (q.mpc) md[k] = data(q.mp);
      else dd[k] = data(q.p);
    }
  }
  Job job(int k) const {
    Job j;
    memset(&j, 0, sizeof j);
    j.q = k ? &b : &a, j.guess = k ? gb : ga, j.pre = k ? pb : pa, j.display = k ? db : da;
    j.dd = &dd[share ? 0 : k], j.md = &md[share ? 0 : k];
    return j;
  }
  void reference() {
    for (int k = 0; k < 2; k++) {
      alone[k] = job(k);
      body(&alone[k]);
    }
  }
};
// Runs one schedule; on a difference returns a description.
static std::string schedule(const Pair& p, int first, const sched::Preempt* pre, int np, sched::Mode mode) {
  Job j1 = p.job(0), j2 = p.job(1);
  sched::run(body, &j1, body, &j2, first, pre, np, mode);
  R.transitions += 1 + sched::switches();
  R.validated++;
  int key[8] = {first, np ? pre[0].tid : 0, np ? (int)pre[0].at : 0, np > 1 ? pre[1].tid : 0, np > 1 ? (int)pre[1].at : 0, (int)mode, 0, 0};
  R.state(mc::fnv(key, sizeof key, mc::fnv(p.name.data(), p.name.size())));
  S w;
  if (!j1.same(p.alone[0])) w << "thread 1 gets " << show(j1) << " instead of " << show(p.alone[0]) << "; ";
  if (!j2.same(p.alone[1])) w << "thread 2 gets " << show(j2) << " instead of " << show(p.alone[1]) << "; ";
  std::string why = w;
  if (!why.empty()) {
    S s;
    s << why << "schedule of " << p.name << ": thread " << first << " first";
    for (int i = 0; i < np; i++) s << ", thread " << pre[i].tid << " is interrupted at its " << (mode == sched::kAll ? "memory access " : "conflicting access ") << pre[i].at;
    why = s;
  }
  return why;
}
// All schedules over the non-commuting accesses; the number of them goes to *conflicts.
static std::string reduced(const Pair& p, int* conflicts, int limit2, int part, int parts) {
  sched::clear_record();
  std::string why;
  for (int first = 1; first <= 2; first++) {
    why = schedule(p, first, nullptr, 0, sched::kRecord);
    if (!why.empty()) return why;
  }
  R.note("accesses-recorded", sched::recorded());
  *conflicts = sched::freeze_conflicts();
  if (!*conflicts) return "";
  why = schedule(p, 1, nullptr, 0, sched::kConflicts);
  long n[3] = {0, sched::points(1), sched::points(2)};
  R.note("conflicting-accesses", n[1] + n[2]);
  for (int first = 1; first <= 2 && why.empty(); first++)
    for (long i = 1 + part; i <= n[first] && why.empty(); i += parts) {
      sched::Preempt one[1] = {{first, i}};
      why = schedule(p, first, one, 1, sched::kConflicts);
    }
  for (int first = 1; first <= 2 && why.empty(); first++) {
    long N = std::min<long>(n[first], limit2), M = std::min<long>(n[3 - first], limit2);
    for (long i = 1; i <= N && why.empty(); i++)
      for (long k = 1 + part; k <= M && why.empty(); k += parts) {
        sched::Preempt two[2] = {{first, i}, {3 - first, k}};
        why = schedule(p, first, two, 2, sched::kConflicts);
      }
  }
  return why;
}

// --- cold start: every schedule in a process of its own that has not solved anything yet ----------------
struct Shared {  // result of a child
  int n1, n2, conflicts, bad;
  char why[1500];
};
template <class F>
static bool child(Shared* sh, F f) {
  memset(sh, 0, sizeof *sh);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM}) signal(s, SIG_DFL);
    alarm(60);
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    sh->bad = 1;
    snprintf(sh->why, sizeof sh->why, "the process ended with status %d", st);
  }
  return !sh->bad;
}
static void tell(Shared* sh, const std::string& why) {
  if (why.empty()) return;
  sh->bad = 1;
  snprintf(sh->why, sizeof sh->why, "%s", why.c_str());
}
static void cold(Pair& p, int part, int parts, long limit) {
  static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static Job* ref = (Job*)mmap(nullptr, 2 * sizeof(Job), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // references: each solve alone in a new process
  for (int k = 0; k < 2; k++) {
    if (!child(sh, [&] {
          ref[k] = p.job(k);
          sched::alone(k + 1, body, &ref[k]);
        }))
      return R.fail(S() << "a single solve fails in a new process: " << sh->why << " " << p.name);
    p.alone[k] = ref[k];
  }
  // the accesses that do not commute in a first pair of solves
  for (int first = 1; first <= 2; first++) {
    if (!child(sh, [&] {
          sched::clear_record();
          tell(sh, schedule(p, first, nullptr, 0, sched::kRecord));
          sh->conflicts = sched::freeze_conflicts();
        }))
      return R.fail(S() << "cold start: " << sh->why);
    R.note("cold-conflicting-granules", sh->conflicts);
  }
  for (int first = 1; first <= 2; first++) {
    child(sh, [&] {
      schedule(p, first, nullptr, 0, sched::kAll);
      sh->n1 = (int)sched::points(1), sh->n2 = (int)sched::points(2);
    });
    long total = first == 1 ? sh->n1 : sh->n2;
    // the first `limit` accesses one by one (all first-use initialisation is there), then thinned out
    long step = 1;
    for (long i = 1 + part; i <= total; i += parts * step) {
      if (i > limit) step = 97;
      sched::Preempt one[1] = {{first, i}};
      R.transitions += 2, R.validated++;
      long key[2] = {first, i};
      R.state(mc::fnv(key, sizeof key, 77));
      if (!child(sh, [&] { tell(sh, schedule(p, first, one, 1, sched::kAll)); })) return R.fail(S() << "cold start, thread " << first << " interrupted at access " << i << ": " << sh->why << " " << p.name);
      R.note("cold-schedules");
      R.slot.seq = R.slot.seq + 1;
    }
  }
}

// --- nesting ---------------------------------------------------------------------------------------------
struct Nest : public fbstab::OutputStream<Nest> {
  std::function<void()>* inner;
  int at;
  bool late = false;
  mutable int calls = 0;
  mutable std::string text;
  void PrintImplementation(const char* m) const {
    if (!late && strncmp(m, "Time elapsed", 12)) text += m;
    if (calls++ == at) (*inner)();
    if (late && strncmp(m, "Time elapsed", 12)) text += m;  // the line is still the caller's
  }
};
static void nested(const Prob& a, const Prob& b, int ga, int gb, int pa, int at, bool late) {
  auto opt = [&](int p) {
    AlgorithmParameters o = preset(p);
    o.display_level = Display::ITER_DETAILED;
    return o;
  };
  Solver sa(a), sb(b), ra(a), rb(b);
  for (Solver* s : {&sa, &sb, &ra, &rb}) s->options(opt(pa));
  Point xa = guess_of(a, ga), xb = guess_of(b, gb);
  Nest quiet, os;
  std::function<void()> nothing = [] {};
  quiet.inner = &nothing, quiet.at = -1;
  Result wa = ra.solve(a, xa, &quiet), wb = rb.record(b, xb), gotb;
  std::string texta = quiet.text;
  if (at >= quiet.calls) return R.note("position-not-reached");
  std::function<void()> in = [&] { gotb = sb.record(b, xb); };
  os.inner = &in, os.at = at, os.late = late;
  Result gota = sa.solve(a, xa, &os);
  R.validated += 2, R.transitions += 2;
  R.state(mc::fnv(&at, 4, mc::fnv(a.name.data(), a.name.size(), mc::fnv(b.name.data(), b.name.size(), 10 * ga + gb))));
  R.note("nested");
  if (!same_result(wa, gota, false) || texta != os.text) return R.fail(S() << "a solve is changed by another one inside its print call " << at << ": " << qp::show(gota) << " instead of " << qp::show(wa) << " on " << qp::show(a) << " | inner: " << qp::show(b));
  if (!same_result(wb, gotb)) return R.fail(S() << "a solve inside print call " << at << " of another one gives " << qp::show(gotb) << " instead of " << qp::show(wb) << " on " << qp::show(b) << " | outer: " << qp::show(a));
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  R.hang_ticks = 60;
  const bool T = R.thorough();
  sched::pin(R.shard);
  std::vector<Prob> lib = dense_library(), ml = mpc_library();
  auto find = [&](const char* n) -> const Prob& {
    for (auto& v : {&lib, &ml})
      for (auto& p : *v)
        if (p.name == n) return p;
    abort();
  };
  QP other = find("convex-active").p;  // the same shape with other numbers
  other.f *= -2, other.b(0) += 2;
  MP mother = find("mpc-convex").mp;
  for (auto& m : mother.q) m *= -1;
  mother.x0 *= 2;
  Prob other_d = make("other-dense", other), other_m = make("other-mpc", mother);

  // first-use behaviour: before anything has been solved in this process
  {
    std::vector<Pair> cp;
    cp.emplace_back("cold dense/dense", find("convex-active"), other_d, 0, 1, 0, 0, 2, 3, false);
    cp.emplace_back("cold mpc/mpc", find("mpc-lp"), find("mpc-tight"), 0, 1, 0, 1, 0, 0, false);
    cp.emplace_back("cold dense/mpc", find("one"), find("mpc-lp"), 0, 1, 0, 0, 0, 0, false);
    const int parts = 32;
    for (auto& p : cp) R.family(p.name, parts, [&](mc::ll i) { cold(p, (int)i, parts, T ? 40000 : 2500); });
  }

  std::vector<Pair> pairs;
  auto all = lib;
  for (auto& m : ml) all.push_back(m);
  pairs.emplace_back("dense twins", find("convex-active"), other_d, 0, 1, 0, 0, 0, 0, false);
  pairs.emplace_back("mpc twins", find("mpc-convex"), other_m, 0, 1, 0, 0, 0, 0, false);
  pairs.emplace_back("dense printing", find("convex-active"), other_d, 2, 0, 1, 0, 3, 3, false);
  pairs.emplace_back("shared dense data", find("three"), find("three"), 0, 2, 0, 1, 0, 0, true);
  pairs.emplace_back("shared mpc data", find("mpc-tight"), find("mpc-tight"), 0, 2, 0, 1, 0, 1, true);
  pairs.emplace_back("dense and mpc", find("three"), find("mpc-tight"), 0, 1, 0, 0, 1, 1, false);
  pairs.emplace_back("infeasible", find("infeasible"), find("mpc-infeasible"), 0, 1, 0, 1, 1, 0, false);
  pairs.emplace_back("unbounded", find("unbounded"), find("mpc-unbounded"), 1, 0, 0, 0, 0, 1, false);
  for (auto& p : pairs) p.reference(), p.reference();
  // all schedules with one preemption at any access
  const int parts = 64;
  for (size_t k = 0; k < pairs.size(); k++) {
    if (!T && k > 3) continue;
    R.family(S() << "one-preemption-anywhere-" << pairs[k].name, parts, [&](mc::ll part) {
      const Pair& p = pairs[k];
      std::string why = schedule(p, 1, nullptr, 0, sched::kAll);
      if (!why.empty()) return R.fail(why);
      long n[3] = {0, sched::points(1), sched::points(2)};
      long step = T ? 1 : 1 + (n[1] + n[2]) / 40000;  // quick: an exhaustive stride over all accesses
      for (int first = 1; first <= 2; first++)
        for (long i = 1 + part * step; i <= n[first]; i += parts * step) {
          sched::Preempt one[1] = {{first, i}};
          why = schedule(p, first, one, 1, sched::kAll);
          if (!why.empty()) return R.fail(why);
          R.slot.seq = R.slot.seq + 1;
        }
      if (part == 0) R.note("accesses-" + p.name, n[1] + n[2]);
    });
  }
  // reduction for every pair of problems
  R.family("all-interleavings-pairs", (mc::ll)pairs.size() * 4, [&](mc::ll i) {
    int conflicts = 0;
    std::string why = reduced(pairs[i / 4], &conflicts, T ? 400 : 100, (int)(i % 4), 4);
    R.note(conflicts ? "pairs-with-conflicts" : "pairs-without-conflicts");
    if (!why.empty()) R.fail(why);
  });
  R.family("all-interleavings-library", (mc::ll)all.size() * all.size() * (T ? 4 : 1), [&](mc::ll i) {
    mc::Dec d(i);
    int a = d.digit((int)all.size()), b = d.digit((int)all.size()), pre = d.digit(4);
    Pair p(S() << all[a].name << "/" << all[b].name, all[a], all[b], (a + b) % 3, b % 3, T ? pre % 2 : (a + b) % 2, T ? pre / 2 : 0, (a + b / 2) % 4, b % 2 ? (a + b / 2) % 4 : b % 4, a == b);
    p.reference();
    int conflicts = 0;
    std::string why = reduced(p, &conflicts, 60, 0, 1);
    R.note(conflicts ? "pairs-with-conflicts" : "pairs-without-conflicts");
    if (!why.empty()) R.fail(why);
    if (R.want_sample) R.sample(S() << p.name << ": " << sched::recorded() << " accesses recorded, " << conflicts << " conflicts");
  });
  // nesting
  const int C = T ? 60 : 40;
  R.family("nested", (mc::ll)all.size() * all.size() * C * (T ? 4 : 1), [&](mc::ll i) {
    mc::Dec d(i);
    int at = d.digit(C), a = d.digit((int)all.size()), b = d.digit((int)all.size()), v = d.digit(4);
    nested(all[a], all[b], (a + v) % 3, b % 3, v % 2, at, (a + b) % 2);
  });
  // shapes beyond likely size thresholds
  std::vector<Prob> large = large_library(1);
  R.family("all-interleavings-large", (mc::ll)large.size() * 2, [&](mc::ll i) {
    const Prob &a = large[i / 2], &b = i % 2 ? large[(i / 2 + 1) % large.size()] : a;
    Pair p(S() << a.name << "/" << b.name, a, b, 0, (int)(i % 3), (int)(i / 2 % 2), 0, (int)(i % 4), 0, i % 2 == 0);
    p.reference();
    int conflicts = 0;
    std::string why = reduced(p, &conflicts, 10, 0, 1);
    R.note(conflicts ? "pairs-with-conflicts" : "pairs-without-conflicts");
    if (!why.empty()) R.fail(why);
  });
  R.family("nested-large", (mc::ll)large.size() * 3 * 3, [&](mc::ll i) {
    mc::Dec d(i);
    int at = 3 * d.digit(3), off = d.digit(3), a = (int)d.k;
    nested(large[a], large[(a + off) % large.size()], 0, 1, a % 2, at, off % 2);
  });
  return R.finish();
}
