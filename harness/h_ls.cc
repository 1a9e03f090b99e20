// Line searches of single constraints, inverses of the divergence bound, and the first weight that a solve chooses.
#include "raw.h"
#include "conex/divergence.h"
using namespace vh;
using namespace conex;

// ls <kind> <n> <m> <dim> <data> | W | y0 y1 c0 c1 bound
void LineSearch(Tok& t) {
  std::string kind = t.s();
  std::string rest;
  std::getline(t.in, rest);
  size_t bar = rest.find('|');
  Tok head(rest.substr(0, bar)), tail(rest.substr(bar + 1));
  auto go = [&](auto con, int n, int m, bool weights) {
    Constraint c(&con);
    std::vector<Workspace> ws;
    ws.push_back(c.workspace());
    VectorXd memory(SizeOf(ws) + 8);
    double* at = memory.data();
    while (reinterpret_cast<size_t>(at) % 64) at++;
    memory.setConstant(0.3);
    Initialize(&ws, at);
    if (weights) {
      SetIdentity(&c);
      M w = tail.mat(n, 1);
      for (int i = 0; i < n; i++) at[i] = w(i);
      VectorXd back(n);
      c.get_dual_variable(back.data());
      if ((back - w).norm() > 0) throw std::runtime_error("cannot set the scaling point");
    } else {
      tail.mat(n, 1);
    }
    M y0 = tail.mat(m, 1), y1 = tail.mat(m, 1);
    VectorXd a0 = y0, a1 = y1;
    LineSearchParameters p;
    p.c0_weight = tail.d(), p.c1_weight = tail.d(), p.dinf_upper_bound = tail.d();
    LineSearchOutput o;
    Ref r0(a0.data(), m, 1), r1(a1.data(), m, 1);
    bool fail = PerformLineSearch(&c, p, r0, r1, &o);
    Emit("ls", Json().b("fail", fail).i("lo", o.lower_bound, 1e4).i("up", o.upper_bound, 1e4));
  };
  Tok dims(rest);
  int n = dims.i(), m = dims.i();
  if (kind == "cost") {
    Emit("ls", Json());
    return;
  }
  WithCone(kind, head, [&](auto c) { go(c, n, m, kind != "eq"); });
}

// first <number of variables>, constraints, costs and options on the lines before
struct First {
  int n = 0;
  std::unique_ptr<Program> prog;
  std::vector<Raw> raw;
  std::vector<std::pair<M, std::vector<int>>> costs;
  VectorXd b;
  SolverConfiguration config;
};

void Pick(First& s, int before) {
  auto cfg = s.config;
  VectorXd y(s.n);
  if (before) {
    auto c = s.config;
    c.max_iterations = before;
    c.initialization_mode = 0;
    Solve(s.b, *s.prog, c, y.data());
    cfg.initialization_mode = 1;
  }
  // scaling points
  std::vector<VectorXd> W;
  int eqs = 0, i = 0;
  for (auto& ci : s.prog->kkt_system_manager_.eqs) {
    const Raw& r = s.raw[i++];
    if (r.kind == "eq") eqs += r.n;
    VectorXd w = VectorXd::Ones(r.kind == "eq" || r.kind == "cost" ? 0 : r.n);
    if (before && w.size()) ci.constraint.get_dual_variable(w.data());
    W.push_back(w);
  }
  cfg.max_iterations = 1;
  Solve(s.b, *s.prog, cfg, y.data());
  double bs = s.prog->stats->b_scaling(), cs = s.prog->stats->c_scaling(), kk = s.prog->stats->sqrt_inv_mu[0];
  int N = s.n + eqs, e = s.n;
  M K = M::Zero(N, N);
  VectorXd AW = VectorXd::Zero(N), AQc = VectorXd::Zero(N);
  for (size_t j = 0; j < s.raw.size(); j++) {
    const Raw& r = s.raw[j];
    if (r.kind == "cost") continue;
    M A = M::Zero(r.n, s.n);
    for (size_t v = 0; v < r.vars.size(); v++) A.col(r.vars[v]) += r.L.col(v);
    if (r.kind == "eq") {
      K.block(e, 0, r.n, s.n) = A;
      K.block(0, e, s.n, r.n) = A.transpose();
      AQc.segment(e, r.n) = r.c.col(0);
      e += r.n;
    } else {
      M WA = W[j].asDiagonal() * A;
      K.topLeftCorner(s.n, s.n) += WA.transpose() * WA;
      AW.head(s.n) += A.transpose() * W[j];
      AQc.head(s.n) += WA.transpose() * W[j].cwiseProduct(r.c.col(0));
    }
  }
  for (auto& q : s.costs)
    for (size_t a = 0; a < q.second.size(); a++)
      for (size_t c = 0; c < q.second.size(); c++) K(q.second[a], q.second[c]) += q.first(a, c);
  Eigen::FullPivLU<M> lu(K);
  VectorXd full = VectorXd::Zero(N);
  full.head(s.n) = s.b * bs;
  VectorXd y0 = lu.solve(-2 * AW), dy = lu.solve(full + AQc * cs);
  std::vector<double> d0, delta;
  for (size_t j = 0; j < s.raw.size(); j++) {
    const Raw& r = s.raw[j];
    if (r.kind == "eq" || r.kind == "cost") continue;
    VectorXd a = r.L * r.Local(y0.head(s.n)), d = r.L * r.Local(dy.head(s.n)) - r.c.col(0) * cs;
    for (int q = 0; q < r.n; q++) d0.push_back(1 + W[j](q) * a(q)), delta.push_back(W[j](q) * d(q));
  }
  bool sane = lu.isInvertible() && lu.rcond() > 1e-7;
  double root = std::sqrt(bs * cs);
  // weights in units in which the fastest row changes by one
  double unit = 1e-9;
  for (double d : delta) unit = std::max(unit, std::fabs(d));
  for (double& d : delta) d /= unit;
  double kmax = cfg.inv_sqrt_mu_max / (cfg.enable_rescaling ? root : 1);
  if (sane)
    Emit("first", Json().dvec("d0", d0, 1e4).dvec("delta", delta, 1e4).i("kk", kk * unit, 1e4).i("bound", cfg.dinf_upper_bound, 1e4)
                      .i("kmin", std::sqrt(1 / (cfg.maximum_mu + 1e-15)) * unit, 1e4).i("kmax", kmax * unit, 1e4));
  else
    Emit("skip", Json());
}

void Run(const std::vector<std::string>& lines) {
  First s;
  for (auto& l : lines) {
    Tok t(l);
    std::string k = t.s();
    if (k == "ls") {
      LineSearch(t);
    } else if (k == "div") {  // div <rank> <eigenvalues> <bound> <weight>
      int r = t.i();
      VectorXd lam = t.mat(r, 1).col(0);
      double D = t.d(), k0 = t.d();
      WeightedSlackEigenvalues p;
      p.lambda_max = lam.maxCoeff(), p.lambda_min = lam.minCoeff(), p.frobenius_norm_squared = lam.squaredNorm(), p.trace = lam.sum();
      p.rank = r;
      double kk = DivergenceUpperBoundInverse(D, p);
      Emit("div", Json().i("kk", kk, 1e4).i("f", DivergenceUpperBound(k0, p), 1e4));
    } else if (k == "n") {
      s.n = t.i();
      s.prog = std::make_unique<Program>(s.n);
    } else if (k == "con") {
      std::string rest;
      std::getline(t.in, rest);
      Tok u(rest);
      if (!AddFromText(s.prog.get(), u)) throw std::runtime_error("refused");
      s.raw.push_back(Raw::Read(Tok(rest), s.n));
      if (s.raw.back().kind == "cost") {
        Tok q(rest);
        q.s();
        q.ints(std::max(0, q.i()));
        int m = q.i();
        s.costs.push_back({q.mat(m, m), s.raw.back().vars});
      }
    } else if (k == "cost") {
      s.b = t.mat(s.n, 1).col(0);
    } else if (k == "opt") {
      std::string name = t.s();
      if (!SetOption(&s.config, name, t.d())) throw std::runtime_error("unknown option");
    } else if (k == "first") {
      Pick(s, t.i());
    }
  }
}

int main() { return RunCases(Run); }
