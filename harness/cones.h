// Reading constraints and programs of every kind from text.
#pragma once
#include "common.h"
#include "conex/cone_program.h"
#include "conex/constraint.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"

namespace vh {

using M = Eigen::MatrixXd;

template <typename A, typename F>
void WithHermitian(Tok& t, int n, int m, int dim, F f) {
  using Mat = typename A::Matrix;
  std::vector<Mat> a(m, Mat(dim));
  for (auto& x : a)
    for (int i = 0; i < dim; i++) x.at(i) = t.mat(n, n);
  Mat c(dim);
  for (int i = 0; i < dim; i++) c.at(i) = t.mat(n, n);
  f(conex::HermitianPsdConstraint<A>(n, a, c));
}

// Reads "<n> <m> <dim> <data>" and calls f with a constraint of the kind. m is the number of variables.
template <typename F>
void WithCone(const std::string& kind, Tok& t, F f) {
  using namespace conex;
  int n = t.i(), m = t.i(), dim = t.i();
  if (kind == "linear") {
    M A = t.mat(n, m), c = t.mat(n, 1);
    f(LinearConstraint(A, c));
  } else if (kind == "lower") {
    f(LowerBound(Eigen::VectorXd(t.mat(n, 1))));
  } else if (kind == "upper") {
    f(UpperBound(Eigen::VectorXd(t.mat(n, 1))));
  } else if (kind == "psd") {
    std::vector<M> a;
    for (int i = 0; i < m; i++) a.push_back(t.mat(n, n));
    M c = t.mat(n, n);
    f(DenseLMIConstraint(n, a, c));
  } else if (kind == "herm") {
    if (dim == 1) WithHermitian<conex::Real>(t, n, m, dim, f);
    if (dim == 2) WithHermitian<conex::Complex>(t, n, m, dim, f);
    if (dim == 4) WithHermitian<conex::Quaternions>(t, n, m, dim, f);
    if (dim == 8) WithHermitian<conex::Octonions>(t, n, m, dim, f);
  } else if (kind == "soc") {
    M A = t.mat(n + 1, m), c = t.mat(n + 1, 1);
    f(SOCConstraint(A, c));
  } else if (kind == "quad") {
    M A = t.mat(n + 1, m), c = t.mat(n + 1, 1);
    M Q;
    if (dim) Q = t.mat(n, n);
    f(QuadraticConstraint(Q, A, c));
  } else if (kind == "epi") {
    f(QuadraticEpigraph(t.mat(n, n)));
  } else if (kind == "eq") {
    M A = t.mat(n, m), b = t.mat(n, 1);
    f(EqualityConstraints(A, b));
  } else {
    throw std::runtime_error("unknown kind " + kind);
  }
}

// "con <kind> <nv> <vars> <n> <m> <dim> <data>", with nv < 0: all variables in order; "cost" is a quadratic cost.
inline bool AddFromText(conex::Program* p, Tok& t) {
  std::string kind = t.s();
  int nv = t.i();
  std::vector<int> vars = t.ints(std::max(0, nv));
  bool res = true;
  if (kind == "cost") {
    int m = t.i();
    M Q = t.mat(m, m);
    res = nv < 0 ? p->AddQuadraticCost(Q) : p->AddQuadraticCost(Q, vars);
  } else {
    WithCone(kind, t, [&](auto c) { res = nv < 0 ? p->AddConstraint(c) : p->AddConstraint(c, vars); });
  }
  return res == CONEX_SUCCESS;
}

// "opt <name> <value>"
inline bool SetOption(conex::SolverConfiguration* c, const std::string& k, double v) {
#define OPT(f)       \
  if (k == #f) {     \
    c->f = static_cast<decltype(c->f)>(v);        \
    return true;     \
  }
  OPT(prepare_dual_variables)
  OPT(initialization_mode)
  OPT(inv_sqrt_mu_max)
  OPT(minimum_mu)
  OPT(maximum_mu)
  OPT(divergence_upper_bound)
  OPT(enable_line_search)
  OPT(dinf_upper_bound)
  OPT(final_centering_steps)
  OPT(final_centering_tolerance)
  OPT(initial_centering_steps_warmstart)
  OPT(initial_centering_steps_coldstart)
  OPT(warmstart_abort_threshold)
  OPT(max_iterations)
  OPT(iterative_refinement_iterations)
  OPT(infeasibility_threshold)
  OPT(kkt_error_tolerance)
  OPT(enable_rescaling)
  OPT(kkt_solver)
#undef OPT
  return false;
}

}  // namespace vh
