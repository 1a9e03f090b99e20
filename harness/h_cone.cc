// One constraint of any kind on its own: its Newton data, directions, steps and spectra at chosen scaling points.
#include "common.h"
#include "conex/cone_program.h"
#include "conex/constraint.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"
using namespace vh;
using namespace conex;
using M = Eigen::MatrixXd;

struct Cone {
  std::shared_ptr<void> owner;
  std::shared_ptr<Constraint> c;
  std::function<void(Tok&)> setw;
  Program prog{0};
  Eigen::VectorXd buffer, sysbuf;
  int m = 0;  // order of the Newton block
};

template <typename T>
T* Make(Cone* k, T* t) {
  k->owner = std::shared_ptr<T>(t);
  k->c = std::make_shared<Constraint>(t);
  return t;
}

template <typename A>
void MakeHermitian(Cone* k, Tok& t, int n, int m, int dim) {
  using Mat = typename A::Matrix;
  std::vector<Mat> a(m, Mat(dim));
  for (auto& x : a)
    for (int i = 0; i < dim; i++) x.at(i) = t.mat(n, n);
  Mat c(dim);
  for (int i = 0; i < dim; i++) c.at(i) = t.mat(n, n);
  Make(k, new HermitianPsdConstraint<A>(n, a, c));
}

void New(Cone* k, Tok& t) {
  std::string kind = t.s();
  int n = t.i(), m = t.i(), dim = t.i();
  k->m = m;
  if (kind == "linear") {
    M A = t.mat(n, m), c = t.mat(n, 1);
    auto p = Make(k, new LinearConstraint(A, c));
    k->setw = [p, n](Tok& u) { p->workspace()->W = u.mat(n, 1); };
  } else if (kind == "psd") {
    std::vector<M> a;
    for (int i = 0; i < m; i++) a.push_back(t.mat(n, n));
    M c = t.mat(n, n);
    auto p = Make(k, new DenseLMIConstraint(n, a, c));
    k->setw = [p, n](Tok& u) { p->workspace()->W = u.mat(n, n); };
  } else if (kind == "herm") {
    if (dim == 1) MakeHermitian<Real>(k, t, n, m, dim);
    if (dim == 2) MakeHermitian<Complex>(k, t, n, m, dim);
    if (dim == 4) MakeHermitian<Quaternions>(k, t, n, m, dim);
    if (dim == 8) MakeHermitian<Octonions>(k, t, n, m, dim);
  } else if (kind == "soc") {
    M A = t.mat(n + 1, m), c = t.mat(n + 1, 1);
    auto p = Make(k, new SOCConstraint(A, c));
    k->setw = [p, n](Tok& u) {
      *p->workspace()->W0 = u.d();
      p->workspace()->W1 = u.mat(n, 1);
    };
  } else if (kind == "quad") {
    M A = t.mat(n + 1, m), c = t.mat(n + 1, 1);
    M Q;
    if (dim) Q = t.mat(n, n);
    auto p = Make(k, new QuadraticConstraint(Q, A, c));
    k->setw = [p, n](Tok& u) {
      *p->workspace()->W0 = u.d();
      p->workspace()->W1 = u.mat(n, 1);
    };
  } else if (kind == "epi") {
    auto p = Make(k, new QuadraticEpigraph(t.mat(n - 1, n - 1)));
    k->setw = [p, n](Tok& u) {
      *p->workspace()->W0 = u.d();
      p->workspace()->W1 = u.mat(n, 1);
    };
  } else if (kind == "eq") {
    M A = t.mat(n, m), b = t.mat(n, 1);
    Make(k, new EqualityConstraints(A, b));
    k->m = m + n;
  }
  Workspace w = k->c->workspace();
  k->buffer.setConstant(SizeOf(w) + 4, 0.5);
  Initialize(&w, k->buffer.data());
}

int main() {
  return RunCases([](const std::vector<std::string>& lines) {
    Cone k;
    srand(7);
    for (auto& l : lines) {
      Tok t(l);
      std::string op = t.s();
      if (op == "new") {
        New(&k, t);
        Emit("new", Json().i("vars", k.c->number_of_variables()).i("rank", Rank(*k.c)));
      } else if (op == "identity") {
        SetIdentity(k.c.get());
        Emit("identity", Json());
      } else if (op == "setw") {
        k.setw(t);
        Emit("setw", Json());
      } else if (op == "schur") {
        bool init = t.i();
        double s1 = t.d(), s2 = t.d();
        int m = k.m;
        SchurComplementSystem sys(m);
        k.sysbuf.setZero(SizeOf(sys) + 4);
        Initialize(&sys, k.sysbuf.data());
        for (int i = 0; i < m; i++) {
          for (int j = 0; j < m; j++) sys.G(i, j) = 2 + 3 * (i + j) + i * j;
          sys.AW(i) = 7 + i;
          sys.AQc(i) = 2 * i - 4;
        }
        sys.inner_product_of_w_and_c = 3;
        sys.inner_product_of_c_and_Qc = -5;
        ConstructSchurComplementSystem(k.c.get(), init, &sys);
        std::string low = "[";
        for (int i = 0; i < m; i++) {
          VectorXd row = sys.G.row(i).head(i + 1).transpose();
          low += (i ? "," : "") + Json::Vec(row, i + 1, s2);
        }
        Emit("schur", Json().raw("G", low + "]").vec("AW", VectorXd(sys.AW.col(0)), s1)
                          .vec("AQc", VectorXd(sys.AQc.col(0)), s2)
                          .i("wc", sys.inner_product_of_w_and_c, s1).i("cqc", sys.inner_product_of_c_and_Qc, s2));
      } else if (op == "affine" || op == "prep" || op == "step") {
        StepOptions o;
        o.affine = op == "affine";
        o.c_weight = t.d();
        o.e_weight = t.d();
        o.inv_sqrt_mu = o.c_weight;
        o.step_size = t.d();
        double scale = t.d();
        int m = k.m;
        VectorXd y(m + 4);
        for (int i = 0; i < m; i++) y(i) = t.d();
        Ref yr(y.data(), m, 1);
        StepInfo info;
        PrepareStep(k.c.get(), o, yr, &info);
        if (op == "step") TakeStep(k.c.get(), o);
        Emit(op, Json().i("ninf", info.norminfd, scale).i("nsq", info.normsqrd, scale));
      } else if (op == "eig") {
        double cw = t.d(), scale = t.d();
        VectorXd y(k.m + 4);
        for (int i = 0; i < k.m; i++) y(i) = t.d();
        Ref yr(y.data(), k.m, 1);
        WeightedSlackEigenvalues p;
        GetWeightedSlackEigenvalues(k.c.get(), yr, cw, &p);
        Emit("eig", Json().i("lmin", p.lambda_min, scale).i("lmax", p.lambda_max, scale)
                        .i("frob", p.frobenius_norm_squared, scale).i("trace", p.trace, scale));
      } else if (op == "dual") {
        double scale = t.d();
        int n = k.c->dual_variable_size();
        VectorXd v(n + 1);
        k.c->get_dual_variable(v.data());
        Emit("dual", Json().i("size", n).vec("w", VectorXd(v.head(n)), scale));
      }
    }
  });
}
