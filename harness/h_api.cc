// Replays call histories of the C interface and reports, after every call, what the program holds.
#include "interfaces/conex.h"
#include "conex/cone_program.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"
#include <cstdlib>
#include "common.h"

using namespace vh;
using conex::Program;

// The Newton data of every constraint at the identity, computed in private memory.
static std::string Snapshot(Program* p) {
  std::string out = "[";
  int i = 0;
  for (auto& ci : p->kkt_system_manager_.eqs) {
    auto& cl = p->kkt_system_manager_.cliques.at(i);
    int m = std::max<int>(cl.size(), ci.constraint.number_of_variables());
    auto ws = ci.constraint.workspace();
    VectorXd mem = VectorXd::Zero(SizeOf(ws) + 64);
    Initialize(&ws, mem.data());
    SetIdentity(&ci.constraint);
    conex::SchurComplementSystem sys(m);
    VectorXd mem2 = VectorXd::Zero(SizeOf(sys) + 64);
    Initialize(&sys, mem2.data());
    sys.setZero();
    ConstructSchurComplementSystem(&ci.constraint, true, &sys);
    // The upper triangle is not part of the interface for every cone.
    Json j;
    j.ints("vars", cl).mat("G", sys.G).vec("AW", VectorXd(sys.AW.col(0))).vec("AQc", VectorXd(sys.AQc.col(0)));
    j.i("wc", sys.inner_product_of_w_and_c).i("cqc", sys.inner_product_of_c_and_Qc).i("rank", Rank(ci.constraint));
    out += (i ? ",{" : "{") + j.s + "}";
    i++;
  }
  return out + "]";
}

// The matrix with the given coefficients, one block of order*order numbers (row-major) per component.
template <typename T>
static typename T::Matrix HyperMat(Tok* t, int order, int dim) {
  typename T::Matrix m = T::Zero(order, order);
  for (int d = 0; d < dim; d++) {
    MatrixXd block = t->mat(order, order);
    m.at(d) = block;
  }
  return m;
}
template <typename T>
static bool AddHermitian(Tok* t, Program* q, int n, int order, int dim) {
  std::vector<typename T::Matrix> A;
  for (int i = 0; i < n; i++) A.push_back(HyperMat<T>(t, order, dim));
  typename T::Matrix c = HyperMat<T>(t, order, dim);
  return q->AddConstraint(conex::HermitianPsdConstraint<T>(order, A, c));
}
// Builds the constraint in one shot from its coefficients.
static bool AddOneShot(Tok* t, Program* q, int n) {
  std::string kind = t->s();
  int order = t->i(), dim = t->i();
  if (kind == "lmi") {
    if (dim == 1) return AddHermitian<conex::Real>(t, q, n, order, dim);
    if (dim == 2) return AddHermitian<conex::Complex>(t, q, n, order, dim);
    if (dim == 4) return AddHermitian<conex::Quaternions>(t, q, n, order, dim);
    return AddHermitian<conex::Octonions>(t, q, n, order, dim);
  }
  if (kind == "quad") {
    MatrixXd Q = t->mat(order, order);
    return q->AddQuadraticCost(Q);
  }
  int rows = kind == "soc" ? order + 1 : order;
  MatrixXd A = t->mat(n, rows).transpose(), c = t->mat(rows, 1);
  if (kind == "soc") return q->AddConstraint(conex::SOCConstraint(A, c));
  return q->AddConstraint(conex::LinearConstraint(A, c));
}
// A box keeps every program bounded so that the outcomes are comparable.
static void AddBox(void* p, int n) {
  MatrixXd A(2 * n, n), c = MatrixXd::Constant(2 * n, 1, 10);
  A << MatrixXd::Identity(n, n), -MatrixXd::Identity(n, n);
  CONEX_AddDenseLinearConstraint(p, A.data(), 2 * n, n, c.data(), 2 * n);
}
static bool SolveDefault(void* p, int n, MatrixXd b, std::vector<double>* y) {
  CONEX_SolverConfiguration cfg;
  memset(&cfg, 0, sizeof cfg);
  CONEX_SetDefaultOptions(&cfg);
  y->assign(n, 0);
  srand(7);  // Hermitian cones start their eigenvalue estimates from rand()
  return CONEX_Maximize(p, b.data(), n, &cfg, y->data(), n);
}

static void Case(const std::vector<std::string>& lines) {
  void* p = CONEX_CreateConeProgram();
  struct Del {
    void* p;
    ~Del() { CONEX_DeleteConeProgram(p); }
  } del{p};
  auto* prog = static_cast<Program*>(p);
  for (auto& line : lines) {
    Tok t(line);
    std::string op = t.s();
    int ret = -99, id = -77;
    bool solved = false;
    std::vector<double> y;
    Json j;
    if (op == "setvars" || op == "lmi" || op == "soc" || op == "lin" || op == "quad") {
      int nullp = t.i(), nullid = t.i(), a = t.i(), b = t.i();
      void* q = nullp ? nullptr : p;
      int* pid = nullid ? nullptr : &id;
      if (op == "setvars") ret = CONEX_SetNumberOfVariables(q, a);
      if (op == "lmi") ret = CONEX_NewLinearMatrixInequality(q, a, b, pid);
      if (op == "soc") ret = CONEX_NewLorentzConeConstraint(q, a, pid);
      if (op == "lin") ret = CONEX_NewLinearInequality(q, a, pid);
      if (op == "quad") ret = CONEX_NewQuadraticCost(q, pid);
    } else if (op == "upd") {
      int nullp = t.i(), cid = t.i();
      double v = t.d();
      int var = t.i(), r = t.i(), c = t.i(), d = t.i();
      ret = CONEX_UpdateLinearOperator(nullp ? nullptr : p, cid, v, var, r, c, d);
    } else if (op == "aff") {
      int nullp = t.i(), cid = t.i();
      double v = t.d();
      int r = t.i(), c = t.i(), d = t.i();
      ret = CONEX_UpdateAffineTerm(nullp ? nullptr : p, cid, v, r, c, d);
    } else if (op == "qupd") {
      int nullp = t.i(), cid = t.i();
      double v = t.d();
      int r = t.i(), c = t.i();
      ret = CONEX_UpdateQuadraticCostMatrix(nullp ? nullptr : p, cid, v, r, c);
    } else if (op == "sparse" || op == "dense") {
      // sparse n k vars.. A(k matrices) c ; dense n m A c
      int n = t.i();
      std::vector<long> vars;
      int k = t.i();
      if (op == "sparse")
        for (int i = 0; i < k; i++) vars.push_back(t.i());
      MatrixXd A = t.mat(n * n * k, 1), c = t.mat(n, n);
      if (op == "sparse")
        ret = CONEX_AddSparseLMIConstraint(p, A.data(), n, n, k, c.data(), n, n, vars.data(), k);
      else
        ret = CONEX_AddDenseLMIConstraint(p, A.data(), n, n, k, c.data(), n, n);
      id = ret;
    } else if (op == "denselin") {
      int r = t.i(), m = t.i();
      MatrixXd A = t.mat(r, m), c = t.mat(r, 1);
      ret = CONEX_AddDenseLinearConstraint(p, A.data(), r, m, c.data(), r);
      id = ret;
    } else if (op == "addquad") {
      int r = t.i();
      MatrixXd Q = t.mat(r, r);
      ret = CONEX_AddQuadraticCost(p, Q.data(), r, r);
    } else if (op == "oneshot") {
      int n = prog->GetNumberOfVariables(), m = t.i();
      void* q = CONEX_CreateConeProgram();
      Del delq{q};
      CONEX_SetNumberOfVariables(q, n);
      int added = 0;
      for (int i = 0; i < m; i++) added += AddOneShot(&t, static_cast<Program*>(q), n) != CONEX_SUCCESS;
      j.b("added", added == 0).raw("cons", Snapshot(static_cast<Program*>(q)));
      MatrixXd b = t.mat(n, 1);
      AddBox(p, n);
      AddBox(q, n);
      std::vector<double> y1, y2;
      bool s1 = SolveDefault(p, n, b, &y1), s2 = SolveDefault(q, n, b, &y2);
      j.b("solved1", s1).b("solved2", s2).dvec("y1", y1, 1e5).dvec("y2", y2, 1e5);
      Emit("oneshot", j);
      continue;
    } else if (op == "solve") {
      int linesearch = t.i(), rescale = t.i(), iters = t.i();
      int n = prog->GetNumberOfVariables();
      CONEX_SolverConfiguration cfg;
      memset(&cfg, 0, sizeof cfg);
      CONEX_SetDefaultOptions(&cfg);
      cfg.enable_line_search = linesearch;
      cfg.enable_rescaling = rescale;
      cfg.max_iterations = iters;
      MatrixXd b = t.mat(n, 1);
      y.assign(n, 7e7);
      ret = CONEX_Maximize(p, b.data(), n, &cfg, y.data(), n);
      solved = ret;
      j.b("solved", solved).dvec("y", y, 1e6);
      ret = 0;
    }
    j.str("op", op).i("ret", ret).i("id", id).i("n", prog->GetNumberOfVariables()).i("ncons", prog->NumberOfConstraints());
    j.raw("cons", Snapshot(prog));
    Emit("call", j);
  }
}

int main() { return RunCases(Case); }
