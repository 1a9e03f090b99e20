// Programs built, configured and solved through the C interface, next to the same program in C++, and the queries of
// the C interface about the last solve.
#include "interfaces/conex.h"
#include "raw.h"
#include "queries.h"
using namespace vh;
using namespace conex;

#define ALL_OPTIONS(X)                                                                                                 \
  X(prepare_dual_variables) X(initialization_mode) X(inv_sqrt_mu_max) X(minimum_mu) X(maximum_mu)                      \
  X(divergence_upper_bound) X(enable_line_search) X(dinf_upper_bound) X(final_centering_steps)                         \
  X(final_centering_tolerance) X(initial_centering_steps_warmstart) X(initial_centering_steps_coldstart)              \
  X(warmstart_abort_threshold) X(max_iterations) X(iterative_refinement_iterations) X(infeasibility_threshold)         \
  X(kkt_error_tolerance) X(enable_rescaling) X(kkt_solver)

// Numbers as text, so that they are compared exactly.
std::string Exact(double v) {
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", v);
  return buf;
}
template <typename C>
Json Fields(const C& c) {
  Json j;
#define F(name) j.str(#name, Exact(c.name));
  ALL_OPTIONS(F)
#undef F
  return j;
}
bool SetC(CONEX_SolverConfiguration* c, const std::string& k, double v) {
#define F(name)                                  \
  if (k == #name) {                              \
    c->name = static_cast<decltype(c->name)>(v); \
    return true;                                 \
  }
  ALL_OPTIONS(F)
#undef F
  return false;
}

// Adds the constraint through the C interface. style picks between the ways to do so. Returns false if there is none.
bool AddThroughC(void* p, const std::string& text, int n, int style) {
  Tok t(text);
  Raw r = Raw::Read(Tok(text), n);
  auto prog = static_cast<Program*>(p);
  int before = prog->NumberOfConstraints();
  auto column = [&](const M& L, int v) -> VectorXd {  // coefficients of variable v of the program
    VectorXd c = VectorXd::Zero(L.rows());
    for (size_t i = 0; i < r.vars.size(); i++)
      if (r.vars[i] == v) c += L.col(i);
    return c;
  };
  if (r.kind == "linear") {
    M A(r.n, n);
    for (int v = 0; v < n; v++) A.col(v) = column(r.L, v);
    if (style % 2 == 0) {
      CONEX_AddDenseLinearConstraint(p, A.data(), r.n, n, r.c.data(), r.n);
    } else {
      int id = -1;
      CONEX_NewLinearInequality(p, r.n, &id);
      for (int i = 0; i < r.n; i++) {
        for (int v = 0; v < n; v++)
          if (A(i, v) != 0) CONEX_UpdateLinearOperator(p, id, A(i, v), v, i, 0, 0);
        if (r.c(i, 0) != 0) CONEX_UpdateAffineTerm(p, id, r.c(i, 0), i, 0, 0);
      }
    }
  } else if (r.kind == "psd") {
    if (style % 2 == 0) {
      std::vector<double> A;
      std::vector<long> vars;
      for (size_t i = 0; i < r.vars.size(); i++) {
        A.insert(A.end(), r.A[i][0].data(), r.A[i][0].data() + r.n * r.n);
        vars.push_back(r.vars[i]);
      }
      CONEX_AddSparseLMIConstraint(p, A.data(), r.n, r.n, r.vars.size(), r.C[0].data(), r.n, r.n, vars.data(), vars.size());
    } else {
      std::vector<double> A;
      for (int v = 0; v < n; v++) {
        M a = M::Zero(r.n, r.n);
        for (size_t i = 0; i < r.vars.size(); i++)
          if (r.vars[i] == v) a += r.A[i][0];
        A.insert(A.end(), a.data(), a.data() + r.n * r.n);
      }
      CONEX_AddDenseLMIConstraint(p, A.data(), r.n, r.n, n, r.C[0].data(), r.n, r.n);
    }
  } else if (r.kind == "herm") {
    int id = -1;
    CONEX_NewLinearMatrixInequality(p, r.n, r.dim, &id);
    auto each = [&](const VM& x, auto f) {
      for (int d = 0; d < r.dim; d++)
        for (int i = 0; i < r.n; i++)
          for (int j = 0; j <= i; j++)
            if (x[d](i, j) != 0) f(x[d](i, j), i, j, d);
    };
    for (size_t k = 0; k < r.vars.size(); k++)
      each(r.A[k], [&](double v, int i, int j, int d) { CONEX_UpdateLinearOperator(p, id, v, r.vars[k], i, j, d); });
    each(r.C, [&](double v, int i, int j, int d) { CONEX_UpdateAffineTerm(p, id, v, i, j, d); });
  } else if (r.kind == "soc") {
    int id = -1;
    CONEX_NewLorentzConeConstraint(p, r.n, &id);
    for (int i = 0; i <= r.n; i++) {
      for (int v = 0; v < n; v++)
        if (column(r.L, v)(i) != 0) CONEX_UpdateLinearOperator(p, id, column(r.L, v)(i), v, i, 0, 0);
      if (r.c(i, 0) != 0) CONEX_UpdateAffineTerm(p, id, r.c(i, 0), i, 0, 0);
    }
  } else if (r.kind == "cost") {
    t.s();
    int nv = t.i();
    t.ints(std::max(0, nv));
    int m = t.i();
    M q = t.mat(m, m), Q = M::Zero(n, n);
    for (int i = 0; i < m; i++)
      for (int j = 0; j < m; j++) Q(r.vars[i], r.vars[j]) += q(i, j);
    if (style % 2 == 0) {
      CONEX_AddQuadraticCost(p, Q.data(), n, n);
    } else {
      int id = -1;
      CONEX_NewQuadraticCost(p, &id);
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if (Q(i, j) != 0) CONEX_UpdateQuadraticCostMatrix(p, id, Q(i, j), i, j);
    }
  } else if (r.kind == "eq") {
    M A = M::Zero(r.n, n);
    for (int v = 0; v < n; v++) A.col(v) = column(r.L, v);
    CONEX_AddLinearInequalities(p, A.data(), r.n, n, r.c.data(), r.n, r.c.data(), r.n);
  } else {
    return false;
  }
  return prog->NumberOfConstraints() == before + 1;
}
// The same constraint in C++. Equalities come with normalized rows, as from the C interface.
bool AddThroughCpp(Program* p, const std::string& text, int n) {
  Tok t(text);
  Raw r = Raw::Read(Tok(text), n);
  if (r.kind == "eq") {
    M Ai, bi, Ae, be;
    PreprocessLinearInequality(r.L, r.c, r.c, &Ai, &bi, &Ae, &be);
    return p->AddConstraint(EqualityConstraints(Ae, be), r.vars) == CONEX_SUCCESS;
  }
  return AddFromText(p, t);
}

struct Both {
  void* c = nullptr;
  std::unique_ptr<Program> cpp, ref;
  CONEX_SolverConfiguration config;
  std::vector<Raw> raw;
  int n = 0;
  ~Both() {
    if (c) CONEX_DeleteConeProgram(c);
  }
};

struct Outcome {
  bool ret;
  VectorXd y;
  std::string text;
};
Outcome Report(Program* p, bool ret, const VectorXd& y, size_t ncons) {
  auto st = p->Status();
  Json j;
  std::vector<double> ks;
  if (p->stats)
    for (int i = 0; i < p->stats->num_iter; i++) ks.push_back(p->stats->sqrt_inv_mu[i]);
  j.b("ret", ret).i("solved", st.solved).i("pinf", st.primal_infeasible).i("dinf", st.dual_infeasible).i("num", st.num_iterations);
  j.vec("y", y, 1e5).dvec("ks", ks, 1e3);
  std::string mult;
  for (size_t i = 0; i < ncons; i++) {
    int d = p->GetDualVariableSize(i);
    M x = M::Constant(d, 1, 77);
    p->GetDualVariable(i, &x);
    mult += (i ? "," : "") + Json::Vec(VectorXd(x.col(0)), d, 1e4);
  }
  j.raw("mult", "[" + mult + "]");
  return {ret, y, "{" + j.s + "}"};
}

// The multiplier of a constraint through the C interface, in the middle of guarded memory.
Json Dual(const Both& s, int i, bool valid) {
  int size = CONEX_GetDualVariableSize(s.c, i);
  int want = valid ? size : 1;
  std::vector<double> buf(want + 16, 55.5);
  CONEX_GetDualVariable(s.c, i, buf.data() + 8, want, 1);
  bool guard = true, touched = false;
  for (int j = 0; j < 8; j++) guard = guard && buf[j] == 55.5 && buf[want + 8 + j] == 55.5;
  for (int j = 0; j < want; j++) touched = touched || buf[8 + j] != 55.5;
  Json j;
  j.i("i", i).i("size", valid ? size : 0).i("cpp", valid ? s.cpp->GetDualVariableSize(i) : 0).b("guard", guard).b("touched", touched);
  return j.dvec("x", std::vector<double>(buf.begin() + 8, buf.begin() + 8 + want), 1e4);
}

void Run(const std::vector<std::string>& lines) {
  Both s;
  for (auto& l : lines) {
    Tok t(l);
    std::string k = t.s();
    if (k == "n") {
      s.n = t.i();
      s.c = CONEX_CreateConeProgram();
      CONEX_SetNumberOfVariables(s.c, s.n);
      s.cpp = std::make_unique<Program>(s.n);
      s.ref = std::make_unique<Program>(s.n);
    } else if (k == "con") {  // con <style> <constraint>
      int style = t.i();
      std::string rest;
      std::getline(t.in, rest);
      bool a = AddThroughC(s.c, rest, s.n, style);
      bool b = AddThroughCpp(s.cpp.get(), rest, s.n) && AddThroughCpp(s.ref.get(), rest, s.n);
      if (!a || !b) Emit("refused", Json().b("c", a).b("cpp", b).str("what", rest));
      s.raw.push_back(Raw::Read(Tok(rest), s.n));
    } else if (k == "defaults") {  // the byte that fills the memory before
      memset(&s.config, t.i(), sizeof s.config);
      CONEX_SetDefaultOptions(&s.config);
      Json j;
      j.raw("c", "{" + Fields(s.config).s + "}").raw("cpp", "{" + Fields(SolverConfiguration()).s + "}");
      Emit("defaults", j);
    } else if (k == "set") {
      std::string name = t.s();
      if (!SetC(&s.config, name, t.d())) throw std::runtime_error("unknown option");
    } else if (k == "solve") {  // solve max|min <cost> <number of options> {name value}
      std::string mode = t.s();
      VectorXd b = t.mat(s.n, 1).col(0);
      SolverConfiguration config;
      for (int i = t.i(); i > 0; i--) {
        std::string name = t.s();
        SetOption(&config, name, t.d());
      }
      auto p = static_cast<Program*>(s.c);
      VectorXd y = VectorXd::Constant(s.n, 77), z = y, w = y;
      bool ry, rz, rw;
      if (mode == "max") {
        srand(7), ry = CONEX_Maximize(s.c, b.data(), s.n, &s.config, y.data(), s.n);
        srand(7), rz = Solve(b, *s.cpp, config, z.data());
        srand(7), rw = Solve(b, *s.ref, SolverConfiguration(), w.data());
      } else {
        for (auto q : {p, s.cpp.get(), s.ref.get()}) q->ClearLinearCosts(), q->AddLinearCost(b);
        srand(7), ry = CONEX_Solve(s.c, &s.config, y.data(), s.n);
        srand(7), rz = Solve(*s.cpp, config, z.data());
        srand(7), rw = Solve(*s.ref, SolverConfiguration(), w.data());
      }
      auto C = Report(p, ry, y, s.raw.size()), X = Report(s.cpp.get(), rz, z, s.raw.size()), D = Report(s.ref.get(), rw, w, s.raw.size());
      Json j;
      j.str("mode", mode).raw("c", C.text).raw("cpp", X.text).b("effect", X.text != D.text);
      Emit("solve", j);
    } else if (k == "stats") {  // all indices from -(number of iterations) - 3 on
      Emit("stats", AllStats(static_cast<Program*>(s.c), 1e3));
    } else if (k == "duals") {
      int cons = s.raw.size();
      std::string all;
      for (int i : {-1000, -2, -1, 1000, cons, cons + 1}) all += (all.empty() ? "{" : ",{") + Dual(s, i, false).s + "}";
      for (int i = 0; i < cons; i++) all += ",{" + Dual(s, i, true).s + "}";
      Emit("duals", Json().i("cons", cons).raw("all", "[" + all + "]"));
    } else if (k == "central") {  // multipliers times slacks, in units of mu, for the point that a solve reports
      auto p = static_cast<Program*>(s.c);
      VectorXd b = t.mat(s.n, 1).col(0), y = VectorXd::Constant(s.n, 77);
      srand(7);
      bool r = CONEX_Maximize(s.c, b.data(), s.n, &s.config, y.data(), s.n);
      double mu = 0;
      if (r) {
        double kk = p->stats->sqrt_inv_mu[p->stats->num_iter - 1];
        mu = 1 / (kk * kk * p->stats->b_scaling() * p->stats->c_scaling());
      }
      std::string all;
      for (size_t i = 0; r && i < s.raw.size(); i++) {
        const Raw& c = s.raw[i];
        int size = CONEX_GetDualVariableSize(s.c, i);
        Json j;
        j.str("kind", c.kind).i("size", size);
        std::vector<double> prod;
        double total = 0;
        if (c.HasMultiplier()) {
          VectorXd x = VectorXd::Constant(size, 55.5), slack;
          CONEX_GetDualVariable(s.c, i, x.data(), size, 1);
          c.Slack(y, &slack);
          if (slack.size() == size) {
            total = slack.dot(x) / mu;
            if (c.kind == "linear")
              for (int q = 0; q < size; q++) prod.push_back(slack(q) * x(q) / mu);
          }
        }
        j.b("has", c.HasMultiplier()).b("judged", c.kind != "soc" || size == c.n + 1).i("n", c.n).i("total", total, 1e3).dvec("prod", prod, 1e3);
        all += (all.empty() ? "{" : ",{") + j.s + "}";
      }
      Emit("central", Json().i("solved", r).i("mu", mu, 1e6).raw("all", "[" + all + "]"));
    }
  }
}

int main() { return RunCases(Run); }
