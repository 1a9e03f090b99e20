// A constraint as its text gives it, for independently computed slacks and margins.
#pragma once
#include "cones.h"

namespace vh {

using VM = std::vector<M>;  // hypercomplex matrix, component by component

// sign and index of the product of two units of the Cayley-Dickson algebra of dimension d
inline std::pair<int, int> Unit(int d, int i, int j) {
  if (d == 1) return {1, 0};
  int h = d / 2;
  auto conj = [](int a) { return a == 0 ? 1 : -1; };
  if (i < h && j < h) return Unit(h, i, j);
  if (i < h) {
    auto u = Unit(h, i, j - h);
    return {conj(i) * u.first, h + u.second};
  }
  if (j < h) {
    auto u = Unit(h, j, i - h);
    return {u.first, h + u.second};
  }
  auto u = Unit(h, j - h, i - h);
  return {-conj(i - h) * u.first, u.second};
}

inline double MinEig(const VM& x) {
  int d = x.size(), n = x[0].rows();
  if (n == 0) return 1e9;
  if (d == 8) {
    // principal blocks of order two; the generator keeps octonion slacks of that order
    if (n == 1) return x[0](0, 0);
    double worst = 1e9;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) {
        double off = 0;
        for (int k = 0; k < d; k++) off += x[k](i, j) * x[k](i, j);
        double a = x[0](i, i), b = x[0](j, j);
        worst = std::min(worst, (a + b) / 2 - std::sqrt((a - b) * (a - b) / 4 + off));
      }
    return worst;
  }
  M big = M::Zero(n * d, n * d);
  for (int k = 0; k < d; k++)
    for (int c = 0; c < d; c++) {
      auto u = Unit(d, k, c);  // e_k e_c
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) big(i * d + u.second, j * d + c) += u.first * x[k](i, j);
    }
  return Eigen::SelfAdjointEigenSolver<M>(big).eigenvalues().minCoeff();
}

// A constraint as the text gives it, for the margins.
struct Raw {
  std::string kind;
  int n = 0, m = 0, dim = 0;
  std::vector<int> vars;
  std::vector<VM> A;  // coefficients (matrix kinds)
  VM C;
  M L, c, Q;          // rows (other kinds)
  static Raw Read(Tok t, int nprog) {
    Raw r;
    r.kind = t.s();
    int nv = t.i();
    r.vars = t.ints(std::max(0, nv));
    if (nv < 0)
      for (int i = 0; i < nprog; i++) r.vars.push_back(i);
    if (r.kind == "cost") return r;
    r.n = t.i(), r.m = t.i(), r.dim = t.i();
    if (r.kind == "psd" || r.kind == "herm") {
      int d = r.kind == "psd" ? 1 : r.dim;
      auto el = [&] {
        VM x;
        for (int i = 0; i < d; i++) x.push_back(t.mat(r.n, r.n));
        return x;
      };
      for (int i = 0; i < r.m; i++) r.A.push_back(el());
      r.C = el();
    } else if (r.kind == "lower" || r.kind == "upper") {
      M b = t.mat(r.n, 1);
      double s = r.kind == "lower" ? -1 : 1;
      r.L = s * M::Identity(r.n, r.n);
      r.c = s * b;
    } else if (r.kind != "epi") {
      int rows = r.kind == "soc" || r.kind == "quad" ? r.n + 1 : r.n;
      r.L = t.mat(rows, r.m);
      r.c = t.mat(rows, 1);
      if (r.kind == "quad" && r.dim) r.Q = t.mat(r.n, r.n);
    } else {
      r.Q = t.mat(r.n, r.n);
    }
    return r;
  }
  VectorXd Local(const VectorXd& y) const {
    VectorXd z(vars.size());
    for (size_t i = 0; i < vars.size(); i++) z(i) = y(vars[i]);
    return z;
  }
  // margin of the slack in its cone, and the slack as the vector that pairs with the multiplier
  double Slack(const VectorXd& y, VectorXd* s) const {
    VectorXd z = Local(y);
    if (kind == "psd" || kind == "herm") {
      VM x = C;
      for (size_t i = 0; i < A.size(); i++)
        for (size_t k = 0; k < x.size(); k++) x[k] -= z(i) * A[i][k];
      *s = Eigen::Map<VectorXd>(x[0].data(), x[0].size());
      return MinEig(x);
    }
    if (kind == "epi") {  // t >= x'Qx / 2, t last
      int q = Q.rows();
      VectorXd x = z.head(q);
      return z(q) - .5 * x.dot(Q * x);
    }
    VectorXd x = c - L * z;
    *s = x;
    if (kind == "eq") return x.size() ? -x.cwiseAbs().maxCoeff() : 0;
    if (kind == "soc" || kind == "quad") {
      VectorXd t = x.tail(n);
      return x(0) - std::sqrt(std::max(0.0, Q.size() ? t.dot(Q * t) : t.dot(t)));
    }
    return x.size() ? x.minCoeff() : 1e9;
  }
  bool HasMultiplier() const { return kind != "eq" && kind != "epi" && kind != "cost" && !(kind == "herm" && dim > 1); }
  double Dual(const VectorXd& x) const {
    if (kind == "psd" || kind == "herm") return MinEig({Eigen::Map<const M>(x.data(), n, n)});
    if (kind == "soc") return x(0) - x.tail(n).norm();
    if (kind == "quad") {
      VectorXd t = x.tail(n);
      return x(0) - std::sqrt(std::max(0.0, Q.size() ? t.dot(Q.llt().solve(t)) : t.dot(t)));
    }
    return x.size() ? x.minCoeff() : 1e9;
  }
};

}  // namespace vh
