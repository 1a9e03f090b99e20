// Two-sided linear inequalities: the conversion, and programs that hold them through the C interface.
#include "interfaces/conex.h"
#include "conex/cone_program.h"
#include "conex/linear_constraint.h"
#include "common.h"
using namespace vh;
using M = MatrixXd;

// Rows with the largest coefficient scaled to one (or the right side, if there is none).
std::string Rows(const M& A, const M& b) {
  std::string out = "[";
  for (int i = 0; i < A.rows(); i++) {
    double n = A.cols() ? A.row(i).cwiseAbs().maxCoeff() : 0;
    if (!(n > 0)) n = std::fabs(b(i, 0));
    if (!(n > 0)) n = 1;
    Json j;
    j.vec("a", VectorXd(A.row(i).transpose() / n), 1e6).i("bf", b(i, 0) / n, 1e4).i("bc", b(i, 0) / n, 10);
    out += (i ? ",{" : "{") + j.s + "}";
  }
  return out + "]";
}

void Run(const std::vector<std::string>& lines) {
  for (auto& line : lines) {
    Tok t(line);
    std::string op = t.s();
    if (op == "pre") {
      int r = t.i(), m = t.i();
      M A = t.mat(r, m), lb = t.mat(r, 1), ub = t.mat(r, 1), Ai, bi, Ae, be;
      conex::PreprocessLinearInequality(A, lb, ub, &Ai, &bi, &Ae, &be);
      Json j;
      j.b("shape", Ai.rows() == bi.rows() && Ae.rows() == be.rows());
      j.raw("le", Rows(Ai, bi)).raw("eq", Rows(Ae, be));
      Emit("pre", j);
    } else if (op == "lp") {
      // lp <calls> { rows, A, lb, ub } cost of the two variables
      void* p = CONEX_CreateConeProgram();
      CONEX_SetNumberOfVariables(p, 2);
      int calls = t.i();
      for (int k = 0; k < calls; k++) {
        int r = t.i();
        M A = t.mat(r, 2), lb = t.mat(r, 1), ub = t.mat(r, 1);
        CONEX_AddLinearInequalities(p, A.data(), r, 2, lb.data(), r, ub.data(), r);
      }
      M b = t.mat(2, 1);
      CONEX_SolverConfiguration c;
      CONEX_SetDefaultOptions(&c);
      c.max_iterations = 100;
      c.inv_sqrt_mu_max = 300;
      double y[2] = {-77, -77};
      int ret = CONEX_Maximize(p, b.data(), 2, &c, y, 2);
      Json j;
      j.b("ret", ret != 0).i("solved", static_cast<conex::Program*>(p)->status_.solved).vec("y", Eigen::Map<VectorXd>(y, 2), 1e4);
      Emit("lp", j);
      CONEX_DeleteConeProgram(p);
    }
  }
}

int main() { return RunCases(Run); }
