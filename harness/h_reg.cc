// Registers constraints of every kind with valid and invalid variable lists and reports what the program holds.
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/soc_constraint.h"
#include <cstdlib>
#include "common.h"

using namespace vh;
using conex::Program;

struct Call {
  std::string kind, how, pass;
  int rows, misfit, seed;
  std::vector<int> vars;
};

template <typename T>
static bool Add(Program* p, const Call& a, T x) {
  if (a.how == "all") return a.pass == "r" ? p->AddConstraint(std::move(x)) : p->AddConstraint(x);
  return a.pass == "r" ? p->AddConstraint(std::move(x), a.vars) : p->AddConstraint(x, a.vars);
}

template <typename T>
static conex::HermitianPsdConstraint<T> Lmi(int order, int m, unsigned* s) {
  std::vector<typename T::Matrix> A;
  for (int i = 0; i < m; i++) {
    auto X = T::Zero(order, order);
    for (int r = 0; r < order; r++)
      for (int c = 0; c <= r; c++) X.at(0)(r, c) = X.at(0)(c, r) = static_cast<int>((*s = *s * 1103515245u + 12345u) >> 16) % 3 - 1;
    A.push_back(X);
  }
  auto C = T::Zero(order, order);
  C.at(0) = MatrixXd::Identity(order, order) * 5;
  return conex::HermitianPsdConstraint<T>(order, A, C);
}

// Answers the conex status code: 0 is success.
static int Register(Program* p, const Call& a) {
  int n = p->GetNumberOfVariables(), m = a.how == "all" ? n : a.vars.size();
  unsigned s = 77 + a.seed;
  auto mat = [&](int r, int c) {
    MatrixXd X(r, c);
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++) X(i, j) = static_cast<int>((s = s * 1103515245u + 12345u) >> 16) % 5 - 2;
    return X;
  };
  if (a.kind == "lin") {
    MatrixXd A = mat(3, m), c = MatrixXd::Constant(3, 1, 5);
    return Add(p, a, conex::LinearConstraint(A, c));
  }
  if (a.kind == "box") {  // keeps the program bounded, so that outcomes are comparable
    MatrixXd A(2 * m, m), c = MatrixXd::Constant(2 * m, 1, 10);
    A << MatrixXd::Identity(m, m), -MatrixXd::Identity(m, m);
    return Add(p, a, conex::LinearConstraint(A, c));
  }
  if (a.kind == "soc") {
    MatrixXd A = mat(3, m), c = MatrixXd::Zero(3, 1);
    c(0) = 5;
    return Add(p, a, conex::SOCConstraint(A, c));
  }
  if (a.kind == "qcone") {
    MatrixXd A = mat(3, m), c = MatrixXd::Zero(3, 1), Q = MatrixXd::Identity(2, 2);
    c(0) = 5;
    return Add(p, a, conex::QuadraticConstraint(Q, A, c));
  }
  if (a.kind == "lmi") return Add(p, a, Lmi<conex::Real>(2, m, &s));
  if (a.kind == "clmi") return Add(p, a, Lmi<conex::Complex>(2, m, &s));
  if (a.kind == "dense") {
    std::vector<MatrixXd> A;
    for (int i = 0; i < m; i++) {
      MatrixXd X = mat(2, 2);
      A.push_back(X + X.transpose());
    }
    MatrixXd C = MatrixXd::Identity(2, 2) * 5;
    return Add(p, a, conex::DenseLMIConstraint(A, C));
  }
  if (a.kind == "eq") {
    MatrixXd A = mat(a.rows, m), b = MatrixXd::Zero(a.rows, 1);
    return Add(p, a, conex::EqualityConstraints(A, b));
  }
  if (a.kind == "quad") {
    MatrixXd X = mat(m + a.misfit, m + a.misfit), Q = X * X.transpose() + MatrixXd::Identity(m + a.misfit, m + a.misfit);
    return a.how == "all" ? p->AddQuadraticCost(Q) : p->AddQuadraticCost(Q, a.vars);
  }
  throw "unknown kind";
}

static bool SolveIt(Program* p, int mode, std::vector<double>* y) {
  int n = p->GetNumberOfVariables();
  conex::SolverConfiguration cfg;
  cfg.enable_line_search = mode & 1;
  cfg.kkt_solver = 1;
  MatrixXd b(n, 1);
  for (int i = 0; i < n; i++) b(i) = 1 + (i * 7) % 3 - (i % 2) * 3;
  y->assign(n, 0);
  srand(7);
  return Solve(b, *p, cfg, y->data());
}
static void State(Program* p, Json* j) {
  std::vector<std::vector<int>> cl = p->kkt_system_manager_.cliques, du = p->kkt_system_manager_.dual_vars;
  j->vv("cliques", cl).vv("duals", du).i("size", p->kkt_system_manager_.SizeOfKKTSystem());
  j->i("num", p->NumberOfConstraints());
}

static void Case(const std::vector<std::string>& lines) {
  std::unique_ptr<Program> p;
  int n = 0, k = 0;
  std::vector<Call> accepted;
  for (auto& line : lines) {
    Tok t(line);
    std::string op = t.s();
    Json j;
    if (op == "start") {
      n = t.i();
      p.reset(new Program(n));
      Emit("start", j.i("n", n));
    } else if (op == "add") {
      Call a;
      a.kind = t.s();
      a.how = t.s();
      a.pass = t.s();
      a.rows = t.i();
      a.misfit = t.i();
      a.vars = t.list();
      a.seed = k++;
      int ret = Register(p.get(), a);
      // The expected set of accepted calls is what the answers claim; the trace checks the answers.
      if (ret == CONEX_SUCCESS) accepted.push_back(a);
      State(p.get(), &j);
      Emit("add", j.b("ok", ret == CONEX_SUCCESS));
    } else if (op == "solve" || op == "compare") {
      int mode = t.i();
      std::vector<double> y1, y2;
      if (op == "solve") {
        SolveIt(p.get(), mode, &y1);
        continue;
      }
      Program q(n);
      for (auto& a : accepted) Register(&q, a);
      bool s1 = SolveIt(p.get(), mode, &y1), s2 = SolveIt(&q, mode, &y2);
      j.b("solved1", s1).b("solved2", s2).dvec("y1", y1, 1e5).dvec("y2", y2, 1e5);
      j.i("size1", p->kkt_system_manager_.SizeOfKKTSystem()).i("size2", q.kkt_system_manager_.SizeOfKKTSystem());
      Emit("solved", j);
    }
  }
}

int main() { return RunCases(Case); }
