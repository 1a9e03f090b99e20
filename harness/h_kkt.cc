// Assembles, factors and solves the Newton system of programs made of scripted and real constraints.
#include "conex/equality_constraint.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cost.h"
#include "probe.h"

using namespace vh;

static const double kSol = 1e3;

static void Case(const std::vector<std::string>& lines) {
  std::unique_ptr<conex::Program> prog;
  conex::SolverConfiguration cfg;
  for (auto& line : lines) {
    Tok t(line);
    std::string op = t.s();
    if (op == "vars") {
      prog = std::make_unique<conex::Program>(t.i());
    } else if (op == "probe") {
      auto v = t.list();
      int m = v.size();
      auto st = std::make_shared<ProbeState>();
      st->G = t.mat(m, m);
      st->AW = t.mat(m, 1);
      st->AQc = t.mat(m, 1);
      st->wc = t.d();
      st->cqc = t.d();
      bool r = prog->AddConstraint(Probe(st), v);
      Emit("added", Json().b("ok", r == 0));
    } else if (op == "lin") {
      auto v = t.list();
      int n = t.i();
      MatrixXd A = t.mat(n, v.size());
      MatrixXd c = t.mat(n, 1);
      bool r = prog->AddConstraint(conex::LinearConstraint(A, c), v);
      Emit("added", Json().b("ok", r == 0));
    } else if (op == "eq") {
      auto v = t.list();
      int n = t.i();
      MatrixXd A = t.mat(n, v.size());
      MatrixXd c = t.mat(n, 1);
      bool r = prog->AddConstraint(conex::EqualityConstraints(A, c), v);
      Emit("added", Json().b("ok", r == 0));
    } else if (op == "quad") {
      auto v = t.list();
      MatrixXd A = t.mat(v.size(), v.size());
      bool r = prog->AddQuadraticCost(A, v);
      Emit("added", Json().b("ok", r == 0));
    } else if (op == "init") {
      Initialize(*prog, cfg);
      Emit("init", Json().i("size", prog->kkt_system_manager_.SizeOfKKTSystem()));
    } else if (op == "assemble") {
      prog->solver->Assemble();
      AssembleSchurComplementResiduals(&prog->kkt_system_manager_, &prog->sys);
      auto& s = prog->sys;
      Emit("assemble", Json().mat("K", prog->solver->KKTMatrix()).vec("AW", VectorXd(s.AW.col(0)))
                           .vec("AQc", VectorXd(s.AQc.col(0))).i("wc", s.inner_product_of_w_and_c)
                           .i("cqc", s.inner_product_of_c_and_Qc));
    } else if (op == "assemble3") {
      int N = prog->kkt_system_manager_.SizeOfKKTSystem();
      VectorXd a(N), q(N);
      double ip = 77;
      prog->solver->Assemble(&a, &q, &ip);
      Emit("assemble3", Json().mat("K", prog->solver->KKTMatrix()).vec("AW", a).vec("AQc", q).i("wc", ip));
    } else if (op == "mode") {
      int m = t.i();
      prog->solver->SetSolverMode(m);
      Emit("mode", Json().i("mode", m));
    } else if (op == "refine") {
      int m = t.i();
      prog->solver->SetIterativeRefinementIterations(m);
      Emit("refine", Json().i("refine", m));
    } else if (op == "factor") {
      bool ok = prog->solver->Factor();
      Emit("factor", Json().b("ok", ok));
    } else if (op == "solve" || op == "solvein") {
      int judge = t.i();
      auto x = t.list();
      int N = x.size();
      MatrixXd b = t.mat(N, 1);
      VectorXd sol;
      if (op == "solve") {
        sol = prog->solver->Solve(b.col(0));
      } else {
        MatrixXd d = b;
        Eigen::Map<MatrixXd, Eigen::Aligned> y(d.data(), N, 1);
        prog->solver->SolveInPlace(&y);
        sol = d.col(0);
      }
      Emit("solve", Json().vec("b", b.col(0)).ints("want", x).vec("x", sol, kSol).b("judge", judge != 0));
    }
  }
}

int main() { return RunCases(Case); }
