// C21: every upper-triangular pattern up to a size x diagonal signs x value sets x all short sequences of
// factor / solve / copy calls on the wrapper, solutions checked by multiplication.
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <memory>
#include <vector>

#include "mc.h"
#include "tools/qdldl/qdldl_wrapper.h"

using namespace fbstab;
using mc::S;
typedef Eigen::SparseMatrix<double> Sparse;
static mc::Run R;

// Patterns of any size: bit pattern (kind 0), diagonal, last column, first row, bands, both, full, blocks, spread.
struct Pattern {
  int kind, bits;
  bool operator()(int n, int i, int j, int bit) const {
    switch (kind) {
      case 0: return bits >> bit & 1;
      case 1: return false;
      case 2: return j == n - 1;
      case 3: return i == 0;
      case 4: return j - i <= bits;
      case 5: return j - i <= 1 || j == n - 1;
      case 6: return true;
      case 7: return i / 4 == j / 4 || (j / 4 == i / 4 + 1 && (i + j) % 2);
      case 8: return (i * 7 + j * 13) % (bits + 2) == 0;
      default: return j - i == bits || j - i == n / 2;
    }
  }
  std::string name() const { return S() << kind << ":" << bits; }
};
static const Pattern kLarge[] = {{1, 0}, {2, 0}, {3, 0}, {4, 1}, {4, 2}, {4, 5}, {5, 0}, {6, 0}, {7, 0}, {8, 1}, {8, 3}, {8, 9}, {9, 1}, {9, 3}};
static const int kLarges = 14;
static int sign_of(int n, int signs, int i) {  // bit mask, or a rule for large sizes
  if (n < 16) return signs >> i & 1;
  return signs == 0 ? 0 : signs == 1 ? i % 2 : signs == 2 ? i >= n / 2 : (i * i) % 3 == 1;
}
// Values: strictly dominant inside the blocks of equal diagonal sign, arbitrary between them.
static Sparse matrix(int n, const Pattern& pattern, int signs, int set) {
  std::vector<Eigen::Triplet<double>> t;
  int bit = 0;
  for (int j = 0; j < n; j++) {
    for (int i = 0; i < j; i++, bit++) {
      if (!pattern(n, i, j, bit)) continue;
      bool cross = sign_of(n, signs, i) != sign_of(n, signs, j);
      double v = ((i * 5 + j * 3 + set) % 3 + 1) * ((i + j + set) % 2 ? -1.0 : 1.0) * (cross ? 2.0 : 0.5);
      t.push_back(Eigen::Triplet<double>(i, j, set == 2 && bit % 2 ? 0.0 : v));  // stored zeros as well
    }
    t.push_back(Eigen::Triplet<double>(j, j, (sign_of(n, signs, j) ? -1.0 : 1.0) * (1.6 * n + (j * 7 + set * 3) % 5)));
  }
  Sparse A(n, n);
  A.setFromTriplets(t.begin(), t.end());
  A.makeCompressed();
  return A;
}
static Eigen::VectorXd rhs(int n, int k) {
  Eigen::VectorXd b(n);
  for (int i = 0; i < n; i++) b(i) = k == 0 ? 0 : (k == 1 ? 1 + i : ((i * 5 + k) % 7) - 3.0);
  return b;
}
static std::string solve(QdldlWrapper& w, const Sparse& A, int k) {
  Eigen::VectorXd b = rhs((int)A.rows(), k), x = b;
  w.Solve(&x);
  if (x.size() != b.size()) return "the solution has another size";
  Eigen::VectorXd r = A.selfadjointView<Eigen::Upper>() * x - b;
  if (!(r.lpNorm<Eigen::Infinity>() <= 1e-9 * (1 + b.lpNorm<Eigen::Infinity>()))) return S() << "residual " << r.transpose() << " for right-hand side " << b.transpose();
  R.validated++;
  R.state(mc::fnv(x.data(), x.size() * sizeof(double)));
  return "";
}
// operations: 0-2 factor value set, 3-4 solve, 5 copy to the second wrapper, 6 solve with the copy, 7 factor through a map,
// 8 change values of one matrix in place (all but the first and the last one) and factor it
static const int kOps = 9;
static void run(int n, const Pattern& pattern, int signs, const std::vector<int>& ops) {
  std::string trace = S() << "n=" << n << " pattern=" << pattern.name() << " signs=" << signs << ":";
  Sparse A[4] = {matrix(n, pattern, signs, 0), matrix(n, pattern, signs, 1), matrix(n, pattern, signs, 2), Sparse()};
  std::unique_ptr<QdldlWrapper> w, copy;
  {
    // the pattern arrays need not outlive the analysis
    std::vector<int> Ap(A[0].outerIndexPtr(), A[0].outerIndexPtr() + n + 1), Ai(A[0].innerIndexPtr(), A[0].innerIndexPtr() + A[0].nonZeros());
    w.reset(new QdldlWrapper(n, Ap.data(), Ai.data()));
  }
  Sparse mine = A[0], C;
  int cur = -1, ccur = -1, changes = 0;
  for (int op : ops) {
    trace += S() << " " << op;
    std::string why;
    R.transitions++;
    if (op < 3) {
      w->Factor(A[op]), cur = op;
    } else if (op < 5) {
      if (cur >= 0) why = solve(*w, A[cur], op - 2);
    } else if (op == 5) {
      copy.reset(new QdldlWrapper(*w)), ccur = cur;
      if (cur >= 0) C = A[cur];
    } else if (op == 6) {
      if (ccur >= 0) why = solve(*copy, C, 3);
    } else if (op == 8) {
      const Sparse& from = A[++changes % 3];
      for (int k = 1; k + 1 < mine.nonZeros(); k++) mine.valuePtr()[k] = from.valuePtr()[k];
      w->Factor(mine), A[3] = mine, cur = 3;
    } else {
      Eigen::Map<Sparse> M(n, n, A[0].nonZeros(), A[0].outerIndexPtr(), A[0].innerIndexPtr(), A[0].valuePtr(), nullptr);
      w->Factor(M), cur = 0;
    }
    if (!why.empty()) return R.fail(why + " " + trace);
  }
  std::string why;
  for (int k = 0; k < 4 && cur >= 0 && why.empty(); k++) why = solve(*w, A[cur], k);
  if (why.empty() && ccur >= 0) why = solve(*copy, C, 1);
  if (!why.empty()) return R.fail(why + " at the end of " + trace);
  if (R.want_sample) R.sample(trace);
}

int main(int argc, char** argv) {
  R.init(argc, argv);
  const bool T = R.thorough();
  for (int n = 1; n <= (T ? 6 : 5); n++) {
    int pats = 1 << (n * (n - 1) / 2), sg = 1 << n;
    R.family(S() << "patterns-" << n, (mc::ll)pats * sg, [&](mc::ll i) { run(n, Pattern{0, (int)(i % pats)}, (int)(i / pats), {8, 3, 1, 4, 8}); });
  }
  for (int n = 1; n <= (T ? 4 : 3); n++)
    for (int depth = 1; depth <= (T ? 5 : 4); depth++) {
      if (T && n == 4 && depth == 5) continue;
      int pats = 1 << (n * (n - 1) / 2);
      mc::ll seqs = mc::ipow(kOps, depth);
      R.family(S() << "operations-" << n << "-depth-" << depth, pats * seqs, [&](mc::ll i) {
        mc::Dec d(i / pats);
        std::vector<int> ops;
        for (int k = 0; k < depth; k++) ops.push_back(d.digit(kOps));
        run(n, Pattern{0, (int)(i % pats)}, n > 1 ? 2 : 0, ops);
      });
    }
  static const int kSize[] = {16, 17, 20, 32, 33, 40, 64, 65, 100, 129}, kWord[][5] = {{0, 3, 1, 4, 2}, {0, 5, 1, 6, 3}, {2, 3, 2, 4, 7}, {1, 5, 5, 3, 0}, {8, 3, 8, 4, 8}};
  R.family("large", 10ll * kLarges * 5 * 4, [&](mc::ll i) {
    mc::Dec d(i);
    int n = kSize[d.digit(10)], w = d.digit(5), sg = d.digit(4);
    const Pattern& p = kLarge[d.digit(kLarges)];
    if (!T && p.kind == 6 && n > 65) return;
    run(n, p, sg, std::vector<int>(kWord[w], kWord[w] + 5));
  });
  return R.finish();
}
