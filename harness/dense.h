// Dense problem spaces.
#pragma once
#include "fbstab/fbstab_dense.h"
#include "qp.h"

namespace qp {

inline fbstab::FBstabDense::ProblemData data(const QP& p) {
  fbstab::FBstabDense::ProblemData D(p.n, p.l, p.m);
  D.H = p.H, D.G = p.G, D.A = p.A, D.f = p.f, D.h = p.h, D.b = p.b;
  return D;
}

// Complete product: Hessian list x {0,1,-1}^(all other entries).
struct DenseGrid {
  int n, l, m;
  std::vector<MatrixXd> Hs;
  ll total;
  DenseGrid(int n_, int l_, int m_) : n(n_), l(l_), m(m_), Hs(hessians(n_)) {
    total = (ll)Hs.size() * mc::ipow(3, n + l * n + l + m * n + m);
  }
  QP get(ll i) const {
    mc::Dec d(i);
    QP p;
    p.resize(n, l, m);
    p.H = Hs[d.digit((int)Hs.size())];
    auto v = [&] {
      int k = d.digit(3);
      return k == 2 ? -1.0 : (double)k;
    };
    for (int j = 0; j < n; j++) p.f(j) = v();
    for (int r = 0; r < l; r++) {
      for (int j = 0; j < n; j++) p.G(r, j) = v();
      p.h(r) = v();
    }
    for (int r = 0; r < m; r++) {
      for (int j = 0; j < n; j++) p.A(r, j) = v();
      p.b(r) = v();
    }
    return p;
  }
  std::string name() const { return mc::S() << "grid-" << n << "-" << l << "-" << m; }
};

inline QP dense_base(int n, int l, int m, int kind) {
  QP p;
  p.resize(n, l, m);
  auto val = [](int k) {
    static const double t[] = {1, -1, 0, 2, 1, 0, -2, 1, 1, -1, 0};
    return t[((k % 11) + 11) % 11];
  };
  if (kind == 0) {
    for (int i = 0; i < n; i++) p.H(i, i) = 3 + i % 3;
    for (int i = 0; i + 1 < n; i++) p.H(i, i + 1) = p.H(i + 1, i) = i % 2 ? 1 : -1;
  } else if (kind == 2) {
    for (int i = 0; i < n; i += 2) p.H(i, i) = 1 + i;
  }
  for (int i = 0; i < n; i++) p.f(i) = val(2 * i + kind);
  for (int r = 0; r < l; r++) {
    for (int j = 0; j < n; j++) p.G(r, j) = (j == r) ? 1 : val(r + 3 * j + 2);
    p.h(r) = val(r + 1);
  }
  for (int r = 0; r < m; r++) {
    for (int j = 0; j < n; j++) p.A(r, j) = (j == r % n) ? ((r / n) % 2 ? -1 : 1) : (kind == 1 ? 0 : val(3 * r + j + 4));
    p.b(r) = kind == 0 ? 2 + r % 2 : 1;
  }
  return p;
}

// All problems differing from the base in at most k entries.
struct DenseDev {
  QP base;
  int k, kind;
  std::vector<double> alphabet;
  std::vector<MatrixXd> Hs;
  mc::DevSpace* dev;
  DenseDev(int n, int l, int m, int kind_, const std::vector<double>& al, int k_) : base(dense_base(n, l, m, kind_)), k(k_), kind(kind_), alphabet(al), Hs(hessians(n)) {
    std::vector<int> alt{(int)Hs.size()};
    for (int i = 0; i < n + l * n + l + m * n + m; i++) alt.push_back((int)al.size());
    dev = new mc::DevSpace(alt, k);
  }
  ll size() const { return dev->size(); }
  std::string name() const { return mc::S() << "dev-" << base.n << "-" << base.l << "-" << base.m << "-b" << kind << "-k" << k; }
  QP get(ll i) const {
    QP p = base;
    std::vector<double*> at;
    for (int j = 0; j < p.n; j++) at.push_back(&p.f(j));
    for (int j = 0; j < p.G.size(); j++) at.push_back(p.G.data() + j);
    for (int j = 0; j < p.l; j++) at.push_back(&p.h(j));
    for (int j = 0; j < p.A.size(); j++) at.push_back(p.A.data() + j);
    for (int j = 0; j < p.m; j++) at.push_back(&p.b(j));
    for (auto& d : dev->cases[i]) {
      if (d.first == 0) p.H = Hs[d.second];
      else *at[d.first - 1] = alphabet[d.second];
    }
    return p;
  }
};

struct Guess {
  const char* name;
  double z, l, v;
};
static const Guess kGuesses[] = {{"zero", 0, 0, 0},          {"ones", 1, 1, 1},       {"mixed", -3, 2, 5},
                                 {"large", 100, -100, 100},  {"far", 1e4, 0, 0},      {"negdual", 0.5, -1, -7},
                                 {"bigdual", -2, 1e3, 1e3},  {"farneg", -1e3, 50, -1e3}};
static const int kNumGuesses = 8;

// entry-dependent guess so that no symmetry hides indexing errors
template <class Var>
inline void set_guess(const Guess& g, Var* x) {
  for (int i = 0; i < x->z.size(); i++) x->z(i) = g.z * (1 + 0.25 * (i % 3));
  for (int i = 0; i < x->l.size(); i++) x->l(i) = g.l * (1 + 0.5 * (i % 2));
  for (int i = 0; i < x->v.size(); i++) x->v(i) = g.v * (1 + 0.125 * (i % 4));
  for (int i = 0; i < x->y.size(); i++) x->y(i) = 1 + i;
}

}  // namespace qp
