// A scripted constraint: it answers the solver from tables and records every call it receives.
#pragma once
#include "common.h"
#include "conex/cone_program.h"

namespace vh {

using conex::LineSearchOutput;
using conex::LineSearchParameters;
using conex::Ref;
using conex::SchurComplementSystem;
using conex::StepInfo;
using conex::StepOptions;
using conex::WeightedSlackEigenvalues;

struct ProbeWorkspace {
  explicit ProbeWorkspace(int k) : k_(k) {}
  friend int SizeOf(const ProbeWorkspace& o) { return static_cast<int>(conex::get_size_aligned(o.k_)); }
  friend void Initialize(ProbeWorkspace* o, double* data) {
    new (&o->W) Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(data, o->k_, 1);
  }
  friend void print(const ProbeWorkspace&) {}
  Eigen::Map<Eigen::MatrixXd, Eigen::Aligned> W{NULL, 0, 0};
  int k_;
};

struct ProbeState {
  MatrixXd G;      // contribution (all of it is given; the solver may read either triangle)
  VectorXd AW, AQc;
  double wc = 0, cqc = 0;
  int rank = 1;
  bool log = false;
  std::string name;
  // Scripts; the last entry repeats.
  std::vector<double> norminf, normsq;
  std::vector<std::vector<double>> eig;  // lambda_min, lambda_max, frob2, trace
  std::vector<std::vector<double>> ls;   // fail?, lower, upper
  std::vector<double> gscale;            // factor applied to G at the n-th assembly
  size_t n_prep = 0, n_eig = 0, n_ls = 0, n_schur = 0;
  double identity = 1;  // value written to W by SetIdentity
  std::function<void(const std::string&, Json&)> sink;
  template <typename T>
  static const T* At(const std::vector<T>& v, size_t n) {
    if (v.empty()) return nullptr;
    return &v[std::min(n, v.size() - 1)];
  }
};

class Probe {
 public:
  Probe(std::shared_ptr<ProbeState> st, int k = 4) : st_(st), workspace_(k) {}
  std::shared_ptr<ProbeState> st_;
  ProbeWorkspace workspace_;
  ProbeWorkspace* workspace() { return &workspace_; }
  int number_of_variables() { return static_cast<int>(st_->AW.size()); }

  void Log(const std::string& kind, Json j) {
    if (st_->log && st_->sink) st_->sink(kind, j);
  }

  friend int Rank(const Probe& o) { return o.st_->rank; }
  friend void SetIdentity(Probe* o) {
    o->workspace_.W.setConstant(o->st_->identity);
    o->Log("identity", Json());
  }
  friend void PrepareStep(Probe* o, const StepOptions& opt, const Ref& y, StepInfo* info) {
    auto* ni = ProbeState::At(o->st_->norminf, o->st_->n_prep);
    auto* ns = ProbeState::At(o->st_->normsq, o->st_->n_prep);
    info->norminfd = ni ? *ni : 0;
    info->normsqrd = ns ? *ns : 0;
    Json j;
    j.b("affine", opt.affine).i("k", opt.inv_sqrt_mu, 1e6).i("cw", opt.c_weight, 1e6).i("ew", opt.e_weight, 1e6);
    j.vec("y", VectorXd(y.col(0)), 1e6).i("ninf", info->norminfd, 1e6).i("nsq", info->normsqrd, 1e6);
    o->Log("prepare", j);
    o->st_->n_prep++;
  }
  friend bool TakeStep(Probe* o, const StepOptions& opt) {
    Json j;
    j.b("affine", opt.affine).i("k", opt.inv_sqrt_mu, 1e6).i("cw", opt.c_weight, 1e6).i("ew", opt.e_weight, 1e6);
    j.i("step", opt.step_size, 1e6);
    o->Log("take", j);
    o->workspace_.W.array() += 1;
    return true;
  }
  friend void GetWeightedSlackEigenvalues(Probe* o, const Ref& y, double c_weight, WeightedSlackEigenvalues* p) {
    auto* e = ProbeState::At(o->st_->eig, o->st_->n_eig);
    if (e) {
      p->lambda_min = (*e)[0];
      p->lambda_max = (*e)[1];
      p->frobenius_norm_squared = (*e)[2];
      p->trace = (*e)[3];
    } else {
      p->lambda_min = p->lambda_max = p->frobenius_norm_squared = p->trace = 1;
    }
    Json j;
    j.i("cw", c_weight, 1e6).vec("y", VectorXd(y.col(0)), 1e6);
    o->Log("eig", j);
    o->st_->n_eig++;
  }
  friend bool PerformLineSearch(Probe* o, const LineSearchParameters& prm, const Ref& y0, const Ref& y1,
                                LineSearchOutput* out) {
    auto* e = ProbeState::At(o->st_->ls, o->st_->n_ls);
    bool fail = false;
    if (e) {
      fail = (*e)[0] != 0;
      out->lower_bound = (*e)[1];
      out->upper_bound = (*e)[2];
    }
    Json j;
    j.b("fail", fail).i("c0", prm.c0_weight, 1e6).i("c1", prm.c1_weight, 1e6).i("bound", prm.dinf_upper_bound, 1e6);
    j.i("lo", out->lower_bound, 1e6).i("up", out->upper_bound, 1e6);
    j.vec("y0", VectorXd(y0.col(0)), 1e6).vec("y1", VectorXd(y1.col(0)), 1e6);
    o->Log("linesearch", j);
    o->st_->n_ls++;
    return fail;
  }
  friend void ConstructSchurComplementSystem(Probe* o, bool initialize, SchurComplementSystem* sys) {
    auto* gs = ProbeState::At(o->st_->gscale, o->st_->n_schur);
    double f = gs ? *gs : 1;
    if (initialize) sys->setZero();
    sys->G += f * o->st_->G;
    sys->AW += o->st_->AW;
    sys->AQc += o->st_->AQc;
    sys->inner_product_of_w_and_c += o->st_->wc;
    sys->inner_product_of_c_and_Qc += o->st_->cqc;
    Json j;
    j.b("init", initialize).i("g", f, 1e6);
    o->Log("schur", j);
    o->st_->n_schur++;
  }
};

}  // namespace vh
