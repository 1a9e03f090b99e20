// The interior-point loop driven by scripted constraints: every call a constraint receives is recorded, and the norms,
// line-search intervals, spectra and factorization failures it answers with are chosen by the script, by iteration.
#include "interfaces/conex.h"
#include "cones.h"
#include "queries.h"
using namespace vh;
using namespace conex;

struct Script {
  int m = 0;
  bool live = false;       // inside a solve
  bool assembled = false;  // a system has been assembled since the last step
  bool broke = false;      // the failing factorization of this round has been served
  int round = 0;           // completed rounds (steps taken or restarts)
  std::vector<double> fail;                                   // per round: 1 if the system is not positive definite
  std::vector<std::vector<double>> ninf, nsq;                 // per round and probe
  std::vector<std::vector<std::vector<double>>> ls, eig;      // per round and probe: {fail, lo, up}, {min, max, frob, trace}
};

template <typename T>
const T& At(const std::vector<T>& v, int i) {
  return v.at(std::min<int>(i, v.size() - 1));
}

struct LoopWorkspace {
  friend int SizeOf(const LoopWorkspace&) { return 4; }
  friend void Initialize(LoopWorkspace* o, double* data) { new (&o->W) Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(data, 1, 1); }
  friend void print(const LoopWorkspace&) {}
  Eigen::Map<Eigen::MatrixXd, Eigen::Aligned> W{NULL, 0, 0};
};

struct LoopProbe {
  std::shared_ptr<Script> s;
  int id = 0, rank = 1;
  double g = 1, wc = 0, cqc = 0;
  VectorXd AW, AQc;
  LoopWorkspace ws;
  LoopWorkspace* workspace() { return &ws; }
  int number_of_variables() { return AW.size(); }
  Json Opt(const StepOptions& o) const {
    Json j;
    return j.i("p", id).b("affine", o.affine).i("kk", o.inv_sqrt_mu, 1e6).i("cw", o.c_weight, 1e6).i("ew", o.e_weight, 1e6);
  }
  void Log(const char* k, const Json& j) const {
    if (s->live) Emit(k, j);
  }
  void Rounded() {
    if (id == 0 && s->live && s->assembled) {
      s->round++;
      s->assembled = false;
      s->broke = false;
    }
  }
  friend int Rank(const LoopProbe& o) { return o.rank; }
  friend void SetIdentity(LoopProbe* o) {
    o->ws.W.setConstant(1);
    o->Log("ident", Json().i("p", o->id).b("initial", !o->s->assembled && o->s->round == 0));
    o->Rounded();
  }
  friend void PrepareStep(LoopProbe* o, const StepOptions& opt, const Ref& y, StepInfo* info) {
    info->norminfd = At(At(o->s->ninf, o->s->round), o->id);
    info->normsqrd = At(At(o->s->nsq, o->s->round), o->id);
    o->Log("prep", o->Opt(opt).vec("y", VectorXd(y.col(0)), 1e4).i("ninf", info->norminfd, 1e6));
  }
  friend bool TakeStep(LoopProbe* o, const StepOptions& opt) {
    o->Log("take", o->Opt(opt).i("step", opt.step_size, 1e6));
    o->Rounded();
    return true;
  }
  friend void GetWeightedSlackEigenvalues(LoopProbe* o, const Ref& y, double c_weight, WeightedSlackEigenvalues* p) {
    auto& e = At(At(o->s->eig, o->s->round), o->id);
    p->lambda_min = e[0];
    p->lambda_max = e[1];
    p->frobenius_norm_squared = e[2];
    p->trace = e[3];
    o->Log("eig", Json().i("p", o->id).i("cw", c_weight, 1e6).vec("y", VectorXd(y.col(0)), 1e4));
  }
  friend bool PerformLineSearch(LoopProbe* o, const LineSearchParameters& prm, const Ref& y0, const Ref& y1,
                                LineSearchOutput* out) {
    auto& e = At(At(o->s->ls, o->s->round), o->id);
    out->lower_bound = e[1];
    out->upper_bound = e[2];
    Json j;
    j.i("p", o->id).b("fail", e[0] != 0).i("lo", e[1], 1e6).i("up", e[2], 1e6);
    j.i("c0", prm.c0_weight, 1e6).i("c1", prm.c1_weight, 1e6).i("bound", prm.dinf_upper_bound, 1e6);
    j.vec("y0", VectorXd(y0.col(0)), 1e4).vec("y1", VectorXd(y1.col(0)), 1e4);
    o->Log("ls", j);
    return e[0] != 0;
  }
  friend void ConstructSchurComplementSystem(LoopProbe* o, bool initialize, SchurComplementSystem* sys) {
    if (initialize) sys->setZero();
    double sign = 1;
    if (o->s->live && o->id == 0) {
      o->s->assembled = true;
      if (!o->s->fail.empty() && At(o->s->fail, o->s->round) != 0) {
        sign = -100;
        if (!o->s->broke) o->Log("fail", Json());
        o->s->broke = true;
      }
    }
    sys->G += sign * o->g * MatrixXd::Identity(o->AW.size(), o->AW.size());
    sys->AW += o->AW;
    sys->AQc += o->AQc;
    sys->inner_product_of_w_and_c += o->wc;
    sys->inner_product_of_c_and_Qc += o->cqc;
  }
};

template <typename V>
std::vector<V> Rounds(const std::vector<V>& v) { return v; }

void Run(const std::vector<std::string>& lines) {
  auto s = std::make_shared<Script>();
  std::unique_ptr<Program> prog;
  SolverConfiguration config;
  VectorXd b;
  int n = 0, probes = 0;
  for (auto& l : lines) {
    Tok t(l);
    std::string k = t.s();
    if (k == "n") {
      n = t.i();
      prog = std::make_unique<Program>(n);
    } else if (k == "probe") {
      LoopProbe p;
      p.s = s;
      p.id = probes++;
      p.g = t.d();
      p.rank = t.i();
      p.wc = t.d();
      p.cqc = t.d();
      p.AW = t.mat(n, 1).col(0);
      p.AQc = t.mat(n, 1).col(0);
      prog->AddConstraint(p);
    } else if (k == "cost") {
      b = t.mat(n, 1).col(0);
    } else if (k == "opt") {
      std::string name = t.s();
      if (!SetOption(&config, name, t.d())) throw std::runtime_error("unknown option");
    } else if (k == "defaults") {
      config = SolverConfiguration();
    } else if (k == "round") {
      // round <fail> then per probe: ninf nsq lsfail lo up min max frob trace
      s->fail.push_back(t.d());
      std::vector<double> ni, ns;
      std::vector<std::vector<double>> ls, eg;
      for (int i = 0; i < probes; i++) {
        ni.push_back(t.d());
        ns.push_back(t.d());
        double f = t.d(), lo = t.d(), up = t.d();
        ls.push_back({f, lo, up});
        double a = t.d(), c = t.d(), d = t.d(), e = t.d();
        eg.push_back({a, c, d, e});
      }
      s->ninf.push_back(ni), s->nsq.push_back(ns), s->ls.push_back(ls), s->eig.push_back(eg);
    } else if (k == "stats") {
      Emit("stats", AllStats(prog.get(), 1e6));
    } else if (k == "solve") {
      s->live = true;
      s->assembled = false;
      s->broke = false;
      s->round = 0;
      VectorXd y = VectorXd::Constant(n, 77);
      Emit("start", Json());
      bool r = Solve(b, *prog, config, y.data());
      s->live = false;
      auto st = prog->Status();
      Json j;
      j.b("ret", r).i("solved", st.solved).i("num", st.num_iterations).i("pinf", st.primal_infeasible).i("dinf", st.dual_infeasible);
      j.vec("y", y, 1e4);
      std::vector<double> mu;
      if (prog->stats)
        for (int i = 0; i < prog->stats->num_iter; i++) mu.push_back(prog->stats->sqrt_inv_mu[i]);
      Emit("end", j.dvec("mu", mu, 1e6));
      s->fail.clear(), s->ninf.clear(), s->nsq.clear(), s->ls.clear(), s->eig.clear();
    }
  }
}

int main() { return RunCases(Run); }
