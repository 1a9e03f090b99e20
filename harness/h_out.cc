// Programs built from text, solved, and their outcomes reported together with independently computed margins: how far
// the slack and the multiplier of every constraint are inside their cone. Several programs may be alive at once.
#include "raw.h"
using namespace vh;
using namespace conex;
struct Instance {
  std::unique_ptr<Program> p;
  std::vector<Raw> raw;
  SolverConfiguration config;
  VectorXd b;
  int n = 0;
};

void SolveAndTell(Instance* s, const std::string& tag) {
  VectorXd y = VectorXd::Constant(s->n, 77);
  srand(7);
  bool r = Solve(s->b, *s->p, s->config, y.data());
  auto st = s->p->Status();
  Json j;
  j.str("tag", tag).b("ret", r).i("solved", st.solved).i("pinf", st.primal_infeasible).i("dinf", st.dual_infeasible);
  j.i("num", st.num_iterations).vec("y", y, 1e4);
  std::vector<double> margin, dmargin, ks;
  std::string mult;
  double gap = 0, size = 0;
  bool all = true;
  for (size_t i = 0; i < s->raw.size(); i++) {
    const Raw& c = s->raw[i];
    if (c.kind == "cost") continue;
    VectorXd slack;
    margin.push_back(c.Slack(y, &slack));
    VectorXd x;
    double dm = 0;
    if (c.HasMultiplier()) {
      int d = s->p->GetDualVariableSize(i);
      M xm = M::Constant(d, 1, 77);
      s->p->GetDualVariable(i, &xm);
      x = xm.col(0);
      if (d != slack.size()) {
        j.str("wrong_size", "multiplier " + std::to_string(i));
      } else {
        gap += slack.dot(x);
        size += std::fabs(slack.cwiseAbs().dot(x.cwiseAbs()));
        dm = c.Dual(x);
      }
    } else if (c.kind != "eq") {
      all = false;
    }
    dmargin.push_back(dm);
    mult += (mult.empty() ? "" : ",") + Json::Vec(x, x.size(), 1e3);
  }
  if (s->p->stats)
    for (int i = 0; i < s->p->stats->num_iter; i++) ks.push_back(s->p->stats->sqrt_inv_mu[i]);
  double mu = 0;
  if (!ks.empty()) mu = 1 / (ks.back() * ks.back() * s->p->stats->b_scaling() * s->p->stats->c_scaling());
  j.i("mu", mu, 1e6);
  j.dvec("margin", margin, 1e5).dvec("dmargin", dmargin, 1e5).raw("mult", "[" + mult + "]");
  j.i("gap", gap, 1e4).b("allmult", all).dvec("ks", ks, 1e3);
  Emit("solve", j);
}

void Run(const std::vector<std::string>& lines) {
  std::map<int, Instance> all;
  std::map<int, VectorXd> buffers;
  Instance* s = &all[0];
  for (auto& l : lines) {
    Tok t(l);
    std::string k = t.s();
    if (k == "n") {  // n <variables> [buffer id]
      s->n = t.i();
      std::string buf = t.s();
      s->raw.clear();
      if (buf.empty())
        s->p = std::make_unique<Program>(s->n);
      else
        s->p = std::make_unique<Program>(s->n, &buffers[std::stoi(buf)]);
    } else if (k == "use") {
      s = &all[t.i()];
    } else if (k == "con") {
      Raw r = Raw::Read(Tok(l.substr(4)), s->n);
      if (AddFromText(s->p.get(), t))
        s->raw.push_back(r);
      else
        Emit("rejected", Json().i("n", s->raw.size()));
    } else if (k == "late") {  // a constraint added to a program that may have been solved
      Raw r = Raw::Read(Tok(l.substr(5)), s->n);
      bool ok = AddFromText(s->p.get(), t);
      if (ok) s->raw.push_back(r);
      Emit("late", Json().b("ok", ok));
    } else if (k == "upd" || k == "updc") {  // constraint, [variable,] row, column, unit, value
      int i = t.i(), v = k == "upd" ? t.i() : 0, r = t.i(), c = t.i(), d = t.i();
      double x = t.d();
      int ret = k == "upd" ? s->p->UpdateLinearOperatorOfConstraint(i, x, v, r, c, d) : s->p->UpdateAffineTermOfConstraint(i, x, r, c, d);
      Emit("upd", Json().i("ret", ret));
    } else if (k == "feas") {
      GetFeasibleObjective(s->p.get());
      Emit("feas", Json().i("n", 0));
    } else if (k == "drop") {
      s->p.reset();
      s->raw.clear();
      Emit("drop", Json().i("n", 0));
    } else if (k == "cost") {
      s->b = t.mat(s->n, 1).col(0);
    } else if (k == "opt") {
      std::string name = t.s();
      if (!SetOption(&s->config, name, t.d())) throw std::runtime_error("unknown option");
    } else if (k == "defaults") {
      s->config = SolverConfiguration();
    } else if (k == "solve") {
      SolveAndTell(s, t.s());
    }
  }
}

int main() { return RunCases(Run); }
