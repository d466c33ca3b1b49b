// C19: all operation sequences up to a depth on a pool of two owning sequences and two views, compared
// after every operation with plain arrays; all shapes around the limits for construction and indexing.
#include <climits>
#include <memory>
#include <utility>

#include "mc.h"
#include "tools/matrix_sequence.h"

using namespace fbstab;
using mc::S;
typedef MatrixSequence Seq;
typedef MapMatrixSequence View;
static mc::Run R;

struct Ref {  // what an owning sequence should contain
  int n = 0, r = 1, c = 1;
  bool moved = false;
  int epoch = 0;  // changes whenever the memory may have moved
  std::vector<double> v;
};
struct RefView {
  int of = -1, epoch = 0, n = 0, r = 1, c = 1;  // of: -1 empty, 0/1 owning sequence, 2 foreign array
};
static const int kShape[][3] = {{0, 2, 1}, {1, 1, 1}, {3, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 2, 1}, {2, 1, 2}, {2, 3, 2}, {3, 2, 2}};
static const int kShapes = 9;
static const int kBad[][3] = {{-1, 1, 1}, {1, 0, 1}, {1, 1, 0}, {2, -1, 1}, {2, 1, -1}, {INT_MIN, 1, 1}, {0, 0, 0}};
static const int kBads = 7;
static const int kIndex[] = {INT_MIN, -2, -1, INT_MAX};

struct World {
  std::unique_ptr<Seq> s[2];
  std::unique_ptr<View> w[2];
  Ref rs[2];
  RefView rw[2];
  std::vector<double> foreign;
  double stamp = 1;
  std::string trace;
  World() {
    for (int i = 0; i < 2; i++) s[i].reset(new Seq()), w[i].reset(new View());
    for (int i = 0; i < 12; i++) foreign.push_back(-100 - i);
  }
};

template <class Q>
static bool indices_throw(Q& q, int n) {
  int bad[6] = {kIndex[0], kIndex[1], kIndex[2], kIndex[3], n, n + 1};
  for (int k : bad) {
    try {
      auto m = q(k);
      (void)m;
      return false;
    } catch (const std::exception&) {
    }
  }
  return true;
}
template <class Q>
static std::string shape_and_values(Q& q, int n, int r, int c, const double* v) {
  if (q.length() != n || q.rows() != r || q.cols() != c) return S() << "shape is " << q.length() << "x" << q.rows() << "x" << q.cols() << " instead of " << n << "x" << r << "x" << c;
  if (q.size() != n * r * c) return S() << "size is " << q.size() << " instead of " << n * r * c;
  for (int k = 0; k < n; k++) {
    auto m = q(k);
    if (m.rows() != r || m.cols() != c) return S() << "matrix " << k << " is " << m.rows() << "x" << m.cols();
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++) {
        double want = v[k * r * c + j * r + i];
        if (m(i, j) != want) return S() << "element (" << i << "," << j << ") of matrix " << k << " is " << m(i, j) << " instead of " << want;
        if (q.data()[k * r * c + j * r + i] != want) return S() << "stored element " << k * r * c + j * r + i << " is " << q.data()[k * r * c + j * r + i] << " instead of " << want;
      }
  }
  if (!indices_throw(q, n)) return "an out-of-range index is accepted";
  return "";
}
static std::string verify(World& W) {
  std::string why;
  for (int i = 0; i < 2; i++) {
    if (W.rs[i].moved) continue;
    const Ref& f = W.rs[i];
    const Seq& cs = *W.s[i];
    if (!(why = shape_and_values(*W.s[i], f.n, f.r, f.c, f.v.data())).empty()) return S() << "sequence " << i << ": " << why;
    if (!(why = shape_and_values(cs, f.n, f.r, f.c, f.v.data())).empty()) return S() << "sequence " << i << " (const): " << why;
  }
  for (int i = 0; i < 2; i++) {
    const RefView& f = W.rw[i];
    if (f.of < 0) {
      if (W.w[i]->length() != 0 || W.w[i]->size() != 0 || !indices_throw(*W.w[i], 0)) return S() << "the empty view " << i << " is not empty";
      continue;
    }
    if (f.of < 2 && (W.rs[f.of].moved || W.rs[f.of].epoch != f.epoch)) continue;  // dangling: must not be used
    const double* v = f.of == 2 ? W.foreign.data() : W.rs[f.of].v.data();
    const View& cv = *W.w[i];
    if (!(why = shape_and_values(*W.w[i], f.n, f.r, f.c, v)).empty()) return S() << "view " << i << ": " << why;
    if (!(why = shape_and_values(cv, f.n, f.r, f.c, v)).empty()) return S() << "view " << i << " (const): " << why;
    const double* mem = f.of == 2 ? W.foreign.data() : W.s[f.of]->data();
    if (W.w[i]->data() != mem) return S() << "view " << i << " does not alias the memory it was given";
  }
  return "";
}

// --- operations -----------------------------------------------------------------------------
static void fill(World& W, int i) {
  Ref& f = W.rs[i];
  f.v.assign(f.n * f.r * f.c, 0);
  for (size_t e = 0; e < f.v.size(); e++) f.v[e] = W.stamp++;
  for (int k = 0; k < f.n; k++)
    for (int c = 0; c < f.c; c++)
      for (int r = 0; r < f.r; r++) (*W.s[i])(k)(r, c) = f.v[k * f.r * f.c + c * f.r + r];
}
struct Op {
  std::string name;
  std::function<std::string(World&)> run;  // returns a complaint
};
static std::vector<Op> ops;
static const char* kSkip = "";

static void build_ops() {
  for (int i = 0; i < 2; i++) {
    for (int k = 0; k < kShapes; k++)
      ops.push_back({S() << "s" << i << "=new(" << kShape[k][0] << "," << kShape[k][1] << "," << kShape[k][2] << ")", [=](World& W) -> std::string {
                       const int* h = kShape[k];
                       *W.s[i] = h[2] == 1 ? Seq(h[0], h[1]) : Seq(h[0], h[1], h[2]);
                       Ref& f = W.rs[i];
                       f.n = h[0], f.r = h[1], f.c = h[2], f.moved = false, f.epoch++;
                       fill(W, i);
                       return "";
                     }});
    ops.push_back({S() << "s" << i << "=bad", [=](World& W) -> std::string {
                     for (int k = 0; k < kBads; k++) {
                       try {
                         *W.s[i] = Seq(kBad[k][0], kBad[k][1], kBad[k][2]);
                         return S() << "the shape " << kBad[k][0] << "," << kBad[k][1] << "," << kBad[k][2] << " is accepted";
                       } catch (const std::exception&) {
                       }
                     }
                     return "";
                   }});
    // single element through every path
    for (int how = 0; how < 3; how++)
      ops.push_back({S() << "write" << how << " s" << i, [=](World& W) -> std::string {
                       Ref& f = W.rs[i];
                       if (f.moved || f.n == 0) return kSkip;
                       double x = W.stamp++;
                       int k = how == 0 ? f.n - 1 : how == 1 ? 0 : f.n / 2, r = f.r - 1, c = how == 1 ? 0 : f.c - 1;
                       f.v[k * f.r * f.c + c * f.r + r] = x;
                       if (how == 2) W.s[i]->data()[k * f.r * f.c + c * f.r + r] = x;
                       else (*W.s[i])(k)(r, c) = x;
                       return "";
                     }});
    ops.push_back({S() << "assign-matrix s" << i, [=](World& W) -> std::string {
                     Ref& f = W.rs[i];
                     if (f.moved || f.n == 0) return kSkip;
                     Eigen::MatrixXd M(f.r, f.c);
                     int k = f.n - 1;
                     for (int c = 0; c < f.c; c++)
                       for (int r = 0; r < f.r; r++) f.v[k * f.r * f.c + c * f.r + r] = M(r, c) = W.stamp++;
                     (*W.s[i])(k) = M;
                     return "";
                   }});
    ops.push_back({S() << "clear s" << i, [=](World& W) -> std::string {
                     *W.s[i] = Seq();
                     Ref& f = W.rs[i];
                     f.n = 0, f.r = f.c = 1, f.moved = false, f.v.clear(), f.epoch++;
                     return "";
                   }});
    int j = 1 - i;
    ops.push_back({S() << "s" << i << "=s" << j, [=](World& W) -> std::string {
                     if (W.rs[j].moved) return kSkip;
                     int e = W.rs[i].epoch + 1;
                     *W.s[i] = *W.s[j];
                     W.rs[i] = W.rs[j], W.rs[i].epoch = e;
                     return "";
                   }});
    ops.push_back({S() << "s" << i << "=s" << i, [=](World& W) -> std::string {
                     if (W.rs[i].moved) return kSkip;
                     const Seq& same = *W.s[i];
                     *W.s[i] = same;
                     return "";
                   }});
    ops.push_back({S() << "s" << i << "=copy-constructed s" << j, [=](World& W) -> std::string {
                     if (W.rs[j].moved) return kSkip;
                     int e = W.rs[i].epoch + 1;
                     W.s[i].reset(new Seq(*W.s[j]));
                     W.rs[i] = W.rs[j], W.rs[i].epoch = e;
                     return "";
                   }});
    ops.push_back({S() << "s" << i << "=move s" << j, [=](World& W) -> std::string {
                     if (W.rs[j].moved) return kSkip;
                     int e = W.rs[i].epoch + 1;
                     *W.s[i] = std::move(*W.s[j]);
                     W.rs[i] = W.rs[j], W.rs[i].epoch = e;
                     W.rs[j].moved = true, W.rs[j].epoch++;
                     return "";
                   }});
    ops.push_back({S() << "s" << i << "=move-constructed s" << j, [=](World& W) -> std::string {
                     if (W.rs[j].moved) return kSkip;
                     int e = W.rs[i].epoch + 1;
                     W.s[i].reset(new Seq(std::move(*W.s[j])));
                     W.rs[i] = W.rs[j], W.rs[i].epoch = e;
                     W.rs[j].moved = true, W.rs[j].epoch++;
                     return "";
                   }});
    for (int k = 0; k < 2; k++)
      ops.push_back({S() << "v" << i << "=view of s" << k, [=](World& W) -> std::string {
                       if (W.rs[k].moved) return kSkip;
                       *W.w[i] = View(*W.s[k]);
                       RefView& f = W.rw[i];
                       f.of = k, f.epoch = W.rs[k].epoch, f.n = W.rs[k].n, f.r = W.rs[k].r, f.c = W.rs[k].c;
                       return "";
                     }});
    // the same memory read with another shape
    ops.push_back({S() << "v" << i << "=reshaped s" << i, [=](World& W) -> std::string {
                     Ref& s = W.rs[i];
                     if (s.moved || s.n == 0) return kSkip;
                     *W.w[i] = View(W.s[i]->data(), s.r, s.c, s.n);
                     RefView& f = W.rw[i];
                     f.of = i, f.epoch = s.epoch, f.n = s.r, f.r = s.c, f.c = s.n;
                     return "";
                   }});
    ops.push_back({S() << "v" << i << "=foreign", [=](World& W) -> std::string {
                     RefView& f = W.rw[i];
                     f.of = 2, f.n = i ? 2 : 3, f.r = i ? 3 : 2, f.c = 2;
                     *W.w[i] = View(W.foreign.data(), f.n, f.r, f.c);
                     return "";
                   }});
    ops.push_back({S() << "v" << i << "=bad", [=](World& W) -> std::string {
                     for (int k = 0; k < kBads; k++) {
                       try {
                         *W.w[i] = View(W.foreign.data(), kBad[k][0], kBad[k][1], kBad[k][2]);
                         return S() << "a view of shape " << kBad[k][0] << "," << kBad[k][1] << "," << kBad[k][2] << " is accepted";
                       } catch (const std::exception&) {
                       }
                     }
                     try {
                       *W.w[i] = View(W.foreign.data(), 0, 1, 1);
                       return "a view of length 0 is accepted";
                     } catch (const std::exception&) {
                     }
                     try {
                       *W.w[i] = View(nullptr, 1, 1, 1);
                       return "a view of no memory is accepted";
                     } catch (const std::exception&) {
                     }
                     return "";
                   }});
    ops.push_back({S() << "v" << i << "=v" << j, [=](World& W) -> std::string {
                     *W.w[i] = *W.w[j];
                     W.rw[i] = W.rw[j];
                     return "";
                   }});
    ops.push_back({S() << "v" << i << "=copy-constructed v" << j, [=](World& W) -> std::string {
                     W.w[i].reset(new View(*W.w[j]));
                     W.rw[i] = W.rw[j];
                     return "";
                   }});
    ops.push_back({S() << "v" << i << "=moved v" << j, [=](World& W) -> std::string {
                     View tmp(*W.w[j]);
                     *W.w[i] = std::move(tmp);
                     W.rw[i] = W.rw[j];
                     return "";
                   }});
  }
  ops.push_back({"write foreign", [](World& W) -> std::string {
                   W.foreign[11] = W.stamp++, W.foreign[4] = W.stamp++;
                   return "";
                 }});
  ops.push_back({"swap", [](World& W) -> std::string {
                   std::swap(*W.s[0], *W.s[1]);
                   std::swap(W.rs[0], W.rs[1]);
                   int e = std::max(W.rs[0].epoch, W.rs[1].epoch) + 1;
                   W.rs[0].epoch = W.rs[1].epoch = e;
                   return "";
                 }});
}

static void sequence(mc::ll code, int depth) {
  mc::Dec d(code);
  World W;
  int n = (int)ops.size();
  for (int k = 0; k < depth; k++) {
    const Op& op = ops[d.digit(n)];
    W.trace += op.name + "; ";
    std::string why;
    try {
      why = op.run(W);
      if (why.empty() && k + 1 == depth) why = verify(W);  // shorter prefixes are families of their own
    } catch (const std::exception& e) {
      why = S() << "unexpected exception: " << e.what();
    }
    R.transitions++;
    if (!why.empty()) return R.fail(why + " after: " + W.trace);
  }
  R.validated++;
  uint64_t h = 7;
  for (int i = 0; i < 2; i++) {
    int key[8] = {W.rs[i].n, W.rs[i].r, W.rs[i].c, W.rs[i].moved, W.rw[i].of, W.rw[i].n, W.rw[i].r, W.rw[i].c};
    h = mc::fnv(key, sizeof key, h);
    h = mc::fnv(W.rs[i].v.data(), W.rs[i].v.size() * sizeof(double), h);
  }
  R.state(h);
  if (R.want_sample) R.sample(W.trace);
}

// every shape in a box: constructed or refused, size arithmetic, every index
static void shape(int n, int r, int c) {
  bool fits = n >= 0 && r > 0 && c > 0;
  std::string at = S() << n << "," << r << "," << c;
  try {
    Seq s(n, r, c);
    if (!fits) return R.fail("accepted sequence shape " + at);
    std::vector<double> v(n * r * c);
    for (size_t e = 0; e < v.size(); e++) v[e] = s.data()[e] = 1 + e;
    std::string why = shape_and_values(s, n, r, c, v.data());
    if (!why.empty()) return R.fail(why + " for shape " + at);
    const Seq copy(s);
    for (size_t e = 0; e < v.size(); e++) s.data()[e] = -1;
    if (!(why = shape_and_values(copy, n, r, c, v.data())).empty()) return R.fail("copy: " + why + " for shape " + at);
  } catch (const std::runtime_error&) {
    if (fits) return R.fail("refused sequence shape " + at);
  } catch (const std::exception& e) {
    return R.fail(S() << "unexpected exception " << e.what() << " for shape " << at);
  }
  std::vector<double> mem(fits ? n * r * c : 1);
  for (size_t e = 0; e < mem.size(); e++) mem[e] = 2 + e;
  for (int null = 0; null < 2; null++) {
    bool vfits = n > 0 && r > 0 && c > 0 && !null;
    try {
      View w(null ? nullptr : mem.data(), n, r, c);
      if (!vfits) return R.fail(S() << "accepted view shape " << at << (null ? " of no memory" : ""));
      std::string why = shape_and_values(w, n, r, c, mem.data());
      if (!why.empty()) return R.fail("view: " + why + " for shape " + at);
    } catch (const std::runtime_error&) {
      if (vfits) return R.fail("refused view shape " + at);
    } catch (const std::exception& e) {
      return R.fail(S() << "unexpected exception " << e.what() << " for view shape " << at);
    }
  }
  R.validated += 3, R.transitions += 3;
  int key[3] = {n, r, c};
  R.state(mc::fnv(key, sizeof key));
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  build_ops();
  const int box = T ? 9 : 6;
  R.family("shapes", (mc::ll)box * box * box, [&](mc::ll i) {
    mc::Dec d(i);
    int n = d.digit(box) - 1, r = d.digit(box) - 1, c = d.digit(box) - 1;
    shape(n, r, c);
  });
  static const int kSide[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65}, kLen[] = {0, 1, 2, 8, 16, 17, 33, 65, 100, 129, 257, 300};
  R.family("large-shapes", 12 * 13 * 13, [&](mc::ll i) {
    mc::Dec d(i);
    int n = kLen[d.digit(12)], r = kSide[d.digit(13)], c = kSide[d.digit(13)];
    if ((mc::ll)n * r * c <= (T ? 200000 : 40000)) shape(n, r, c);
  });
  for (int depth = 1; depth <= (T ? 4 : 3); depth++) R.family(S() << "operations-depth-" << depth, mc::ipow(ops.size(), depth), [&](mc::ll i) { sequence(i, depth); });
  return R.finish();
}
