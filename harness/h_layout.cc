// Memory layout of workspaces: areas and footprints inside a program's buffer, isolation of constraints, and
// histories of programs that share one buffer.
#include "cones.h"
#include "conex/psd_constraint.h"
#include "conex/triangular_matrix_workspace.h"
#include "conex/workspace_soc.h"
#include "conex/linear_workspace.h"
using namespace vh;
using namespace conex;

struct Areas {
  const double* base;
  std::string s;
  void add(const std::string& name, int owner, const double* p, long len) {
    if (len == 0) return;
    long off = p - base;
    if (std::labs(off) > 100000000) off = -1;
    s += (s.empty() ? "" : ",") + std::string("{\"name\":\"") + name + "\",\"owner\":" + std::to_string(owner) +
         ",\"off\":" + std::to_string(off) + ",\"len\":" + std::to_string(len) + "}";
  }
  template <typename Map>
  void map(const std::string& name, int owner, const Map& m) {
    add(name, owner, m.data(), m.size());
  }
};

void Standalone(Tok& t) {
  std::string w = t.s();
  int n = t.i(), m = t.i();
  Eigen::VectorXd buf;
  Areas a;
  auto with = [&](auto ws, auto f) {
    buf.setConstant(SizeOf(ws), 7);
    a.base = buf.data();
    Initialize(&ws, buf.data());
    f(ws);
    Emit("areas", Json().str("what", w).i("n", n).i("m", m).i("size", buf.size()).raw("areas", "[" + a.s + "]"));
  };
  if (w == "linear")
    with(WorkspaceLinear(n, m), [&](auto& x) {
      a.map("W", 0, x.W), a.map("temp_1", 0, x.temp_1), a.map("temp_2", 0, x.temp_2);
      a.map("weighted_constraints", 0, x.weighted_constraints);
    });
  if (w == "psd")
    with(WorkspaceDensePSD(n), [&](auto& x) { a.map("W", 0, x.W), a.map("temp_1", 0, x.temp_1), a.map("temp_2", 0, x.temp_2); });
  if (w == "herm")
    with(WorkspaceDenseHermitian(n),
         [&](auto& x) { a.map("W", 0, x.W), a.map("temp_1", 0, x.temp_1), a.map("temp_2", 0, x.temp_2); });
  if (w == "soc")
    with(WorkspaceSOC(n), [&](auto& x) {
      a.map("W1", 0, x.W1), a.map("temp1_1", 0, x.temp1_1), a.map("temp2_1", 0, x.temp2_1), a.map("temp3_1", 0, x.temp3_1);
      a.add("W0", 0, x.W0, 1);
    });
  if (w == "schur" || w == "residual") {
    WorkspaceSchurComplement s(n);
    s.residual_only_ = w == "residual";
    with(s, [&](auto& x) {
      if (!x.residual_only_) a.map("G", 0, x.G);
      a.map("AW", 0, x.AW), a.map("AQc", 0, x.AQc);
    });
  }
  if (w == "stats")
    with(WorkspaceStats(n), [&](auto& x) {
      a.add("sqrt_inv_mu", 0, x.sqrt_inv_mu, n), a.add("norm_inf_d", 0, x.norm_inf_d, n);
      a.add("c_scaling", 0, x.c_scaling_, 1), a.add("b_scaling", 0, x.b_scaling_, 1);
    });
  if (w == "triangular") {
    // n supernodes; each line gives their sizes, then the separators
    std::vector<int> sizes = t.ints(n);
    std::vector<Clique> path;
    for (int i = 0; i < n; i++) path.push_back(t.list());
    TriangularMatrixWorkspace x(path, sizes);
    buf.setConstant(SizeOf(x), 7);
    a.base = buf.data();
    Initialize(&x, buf.data());
    for (size_t i = 0; i < x.diagonal.size(); i++) a.map("diagonal", i, x.diagonal[i]);
    for (size_t i = 0; i < x.off_diagonal.size(); i++) a.map("off_diagonal", i, x.off_diagonal[i]);
    Json j;
    j.str("what", w).i("n", n).i("m", m).i("size", buf.size()).raw("areas", "[" + a.s + "]");
    Emit("areas", j);
  }
}

using Lines = std::vector<std::string>;
void Fill(Program* p, const Lines& cons) {
  for (auto& l : cons) {
    Tok t(l);
    if (!AddFromText(p, t)) throw std::runtime_error("constraint rejected");
  }
}

// Deterministic directions of moderate size.
Eigen::VectorXd Direction(int m, int k) {
  Eigen::VectorXd y(m);
  for (int i = 0; i < m; i++) y(i) = (((i + 1) * 7 + k * 5) % 5 - 2) / 8.0;
  return y;
}

std::string Data(Container& c) {
  auto& s = c.supernodal_assembler.submatrix_data_;
  double g = 0;
  for (int i = 0; i < s.G.rows(); i++)
    for (int j = 0; j <= i; j++) g += s.G(i, j) * (1 + i + 3 * j);
  return "{\"G\":" + Json::I(g, 1e3) + ",\"AW\":" + Json::Vec(Eigen::VectorXd(s.AW.col(0)), s.AW.rows(), 1e3) +
         ",\"AQc\":" + Json::Vec(Eigen::VectorXd(s.AQc.col(0)), s.AQc.rows(), 1e3) +
         ",\"wc\":" + Json::I(s.inner_product_of_w_and_c, 1e3) + ",\"cqc\":" + Json::I(s.inner_product_of_c_and_Qc, 1e3) + "}";
}

struct Session {
  std::unique_ptr<Program> p;
  std::vector<Eigen::VectorXd> ys;
  // op: 0 identity, 1 schur, 2 prepare, 3 take
  std::string Op(int i, int op, int k) {
    auto it = p->kkt_system_manager_.eqs.begin();
    std::advance(it, i);
    auto& c = *it;
    if (op == 0) SetIdentity(&c.constraint);
    if (op == 1) {
      ConstructSchurComplementSystem(&c.constraint, true, &c.supernodal_assembler.submatrix_data_);
      return Data(c);
    }
    StepOptions o;
    o.affine = false;
    o.e_weight = 1;
    o.c_weight = .125;
    o.inv_sqrt_mu = 1;
    o.step_size = .5;
    if (op == 2) {
      Eigen::VectorXd y = Direction(p->kkt_system_manager_.cliques.at(i).size(), k);
      Ref z(y.data(), y.rows(), 1);
      StepInfo info;
      srand(7);
      PrepareStep(&c.constraint, o, z, &info);
      return "{\"nsq\":" + Json::I(info.normsqrd, 1e3) + ",\"ninf\":" + Json::I(info.norminfd, 1e3) + "}";
    }
    if (op == 3) TakeStep(&c.constraint, o);
    return "";
  }
};

void OneProgram(const Lines& lines) {
  int n = 0, iters = 25, shared = -1;
  Lines cons, ops;
  for (auto& l : lines) {
    Tok t(l);
    std::string k = t.s();
    if (k == "n") n = t.i();
    if (k == "iters") iters = t.i();
    if (k == "shared") shared = t.i();
    if (k == "con") cons.push_back(l.substr(4));
    if (k == "op") ops.push_back(l.substr(3));
  }
  Eigen::VectorXd memory;
  auto make = [&](const Lines& c, bool alone) {
    std::unique_ptr<Program> p;
    if (shared >= 0 && !alone) {
      memory.setConstant(shared, 7);
      p = std::make_unique<Program>(n, &memory);
    } else {
      p = std::make_unique<Program>(n);
    }
    Fill(p.get(), c);
    SolverConfiguration config;
    config.max_iterations = iters;
    p->sys.m_ = p->kkt_system_manager_.SizeOfKKTSystem();
    p->sys.residual_only_ = true;
    p->stats = std::make_unique<WorkspaceStats>(iters);
    p->InitializeWorkspace();
    return p;
  };
  Session all;
  all.p = make(cons, false);
  auto& buf = *all.p->workspace_data_;
  Areas a;
  a.base = buf.data();
  int i = 0;
  for (auto& c : all.p->kkt_system_manager_.eqs) {
    auto& s = c.supernodal_assembler.submatrix_data_;
    a.map("G", i, s.G), a.map("AW", i, s.AW), a.map("AQc", i, s.AQc);
    i++;
  }
  auto& st = *all.p->stats;
  a.add("sqrt_inv_mu", -1, st.sqrt_inv_mu, iters), a.add("norm_inf_d", -1, st.norm_inf_d, iters);
  a.add("c_scaling", -1, st.c_scaling_, 1), a.add("b_scaling", -1, st.b_scaling_, 1);
  a.map("system AW", -1, all.p->sys.AW), a.map("system AQc", -1, all.p->sys.AQc);
  // Footprints: which doubles of the buffer the calls of each constraint change. Its own Newton block is known.
  std::string foot;
  int count = i;
  const double poison1 = 7.25, poison2 = -3.75;
  std::vector<std::vector<int>> touched(count);
  for (double poison : {poison1, poison2}) {
    for (int c = 0; c < count; c++) {
      for (int op = 0; op < 4; op++) {
        // a well-defined point first; then everything the constraint does not own is poisoned again
        Eigen::VectorXd before = buf;
        if (op == 0) {
          buf.setConstant(poison);
          before = buf;
        }
        all.Op(c, op, 1);
        for (int j = 0; j < buf.size(); j++)
          if (memcmp(&before(j), &buf(j), sizeof(double))) touched[c].push_back(j);
      }
    }
  }
  for (auto& v : touched) {
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    foot += (foot.empty() ? "" : ",") + Json::Vec(v, v.size());
  }
  Emit("layout", Json().i("size", buf.size()).i("count", count).raw("areas", "[" + a.s + "]").raw("foot", "[" + foot + "]"));
  // Isolation: the same calls on a program that has only this constraint.
  std::vector<Session> one(count);
  for (int c = 0; c < count; c++) {
    one[c].p = make({cons[c]}, true);
    one[c].p->workspace_data_->setConstant(1e300);
    all.Op(c, 0, 0);
    one[c].Op(0, 0, 0);
  }
  for (auto& l : ops) {
    Tok t(l);
    int c = t.i(), op = t.i(), k = t.i();
    std::string x = all.Op(c, op, k), y = one[c].Op(0, op, k);
    if (!x.empty()) Emit("both", Json().i("con", c).i("op", op).raw("among", x).raw("alone", y));
  }
}

struct Structure {
  int n;
  Lines cons;
  std::vector<Eigen::VectorXd> cost;
};

std::string Run(Program* p, const Structure& s, const std::string& mode, int cost, int iters) {
  SolverConfiguration c;
  c.initialization_mode = mode == "w";
  c.max_iterations = iters;
  c.inv_sqrt_mu_max = 100;
  Eigen::VectorXd y(s.n);
  y.setConstant(3);
  srand(7);
  bool solved = Solve(s.cost.at(cost), *p, c, y.data());
  return "{\"solved\":" + std::to_string(solved) + ",\"iter\":" + std::to_string(p->Status().num_iterations) +
         ",\"y\":" + Json::Vec(y, y.size(), 1e4) + "}";
}

void Histories(const Lines& lines) {
  std::map<int, Structure> st;
  std::vector<std::unique_ptr<Program>> inst;
  std::vector<int> of;
  Eigen::VectorXd memory;
  int iters = 20;
  Structure* cur = nullptr;
  for (auto& l : lines) {
    Tok t(l);
    std::string k = t.s();
    if (k == "structure") {
      cur = &st[t.i()];
      cur->n = t.i();
    } else if (k == "cost") {
      Eigen::MatrixXd b = t.mat(cur->n, 1);
      cur->cost.push_back(b.col(0));
    } else if (k == "con") {
      cur->cons.push_back(l.substr(4));
    } else if (k == "iters") {
      iters = t.i();
    } else if (k == "buffer") {
      memory.setConstant(t.i(), 7);
    } else if (k == "sizes") {
      std::vector<int> v;
      for (auto& x : st) {
        Program p(x.second.n);
        Fill(&p, x.second.cons);
        SolverConfiguration c;
        c.max_iterations = iters;
        Initialize(p, c);
        v.push_back(p.workspace_data_->size());
      }
      Emit("sizes", Json().ints("need", v).i("buffer", memory.size()));
    } else if (k == "new") {
      of.push_back(t.i());
      auto& s = st.at(of.back());
      inst.push_back(std::make_unique<Program>(s.n, &memory));
      Fill(inst.back().get(), s.cons);
    } else if (k == "solve") {
      int i = t.i();
      std::string mode = t.s();
      int cost = t.i(), nref = t.i();
      auto& s = st.at(of.at(i));
      std::string got = Run(inst.at(i).get(), s, mode, cost, iters), want = "{}";
      if (nref > 0) {
        Program p(s.n);
        Fill(&p, s.cons);
        for (int r = 0; r < nref; r++) {
          std::string md = t.s();
          want = Run(&p, s, md, t.i(), iters);
        }
      }
      Emit("solve", Json().i("i", i).str("mode", mode).i("cost", cost).i("nref", nref).i("buffer", memory.size()).raw("got", got).raw("want", want));
    }
  }
}

int main() {
  return RunCases([](const Lines& lines) {
    Tok t(lines.at(0));
    std::string k = t.s();
    if (k == "class") {
      for (auto& l : lines) {
        Tok u(l);
        u.s();
        Standalone(u);
      }
    } else if (k == "n") {
      OneProgram(lines);
    } else {
      Histories(lines);
    }
  });
}
