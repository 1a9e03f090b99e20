From 6fffde6da3912b0cfbe88f45ed0b5441586b52e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/36] fix: do not bind a constraint directly to a supernode
 that holds fill-in

A supernode of the size of the constraint can contain a fill-in variable
(label -1) in front of the constraint's own variables. Its labels are
increasing, so the constraint's matrix was written over the supernode
shifted by one position and its remaining entries were dropped.
---
 conex/supernodal_assembler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..fb1ff14 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -78,8 +78,10 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
 
   if (m == data->num_vars) {
     direct_update = true;
-    for (int i = 1; i < data->num_vars; i++) {
-      if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
+    for (int i = 0; i < data->num_vars; i++) {
+      // The block must hold variables 0, ..., m - 1 in order. In particular, it
+      // must not hold fill-in, which is labeled -1.
+      if (*(data->var_data + i) != i) {
         direct_update = false;
         break;
       }
-- 
2.43.0


From 9eb82d79abde99a15bbc77a491aa58046d3f4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 02/36] fix: reject constraints on negative variable indices

IsUnique wrote out of bounds when a variable list contained a negative
index.
---
 conex/constraint_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..81dcfab 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
-- 
2.43.0


From 888bb30de8d3da6e88afd8a8bc83f1ddd7c67168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 03/36] fix: register equality constraints passed as lvalues as
 equalities

AddConstraint(eq) deduced T = EqualityConstraints& and took the branch for
cone constraints, so that no multipliers were allocated.
---
 conex/cone_program.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..2db7ad8 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -190,7 +190,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
@@ -198,13 +198,13 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d));
+          EqualityConstraints(std::forward<T>(d)));
     }
   }
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
@@ -213,7 +213,7 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d), variables);
+          EqualityConstraints(std::forward<T>(d)), variables);
     }
   }
 
-- 
2.43.0


From c15ebde678142c03bff80528be22b686fd35a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 04/36] fix: report quadratic costs that are rejected

AddQuadraticCost returned success and marked the program as having a
quadratic cost although the variable list was invalid, and accepted a
matrix whose order differs from the number of variables.
---
 conex/cone_program.cc   | 7 ++++---
 conex/quadratic_cost.cc | 6 ++++--
 conex/quadratic_cost.h  | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..2ab613e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -553,9 +553,10 @@ bool Solve(const DenseMatrix& b, Program& prog,
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
-  contains_quadratic_costs_ = true;
-  conex::AddQuadraticCost(this, Q, vars);
-  bool failure = false;
+  bool failure = conex::AddQuadraticCost(this, Q, vars);
+  if (!failure) {
+    contains_quadratic_costs_ = true;
+  }
   return failure;
 }
 
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..da819f1 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -70,9 +70,11 @@ class QuadraticFunction {
 };
 }  // namespace
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z) {
-  conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
+  CONEX_DEMAND(Qi.rows() == static_cast<int>(z.size()) && Qi.cols() == Qi.rows(),
+               "Order of matrix must equal number of variables.");
+  return conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
 }
 
 }  // namespace conex
diff --git a/conex/quadratic_cost.h b/conex/quadratic_cost.h
index 852aeda..a0a3016 100644
--- a/conex/quadratic_cost.h
+++ b/conex/quadratic_cost.h
@@ -3,7 +3,7 @@
 
 namespace conex {
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z);
 
 }  // namespace conex
-- 
2.43.0


From c711b10b105bb597ab9efed1922e6aff26fae930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 05/36] fix: accept C interface calls on programs that have
 been solved

A solve creates two workspaces per constraint; the corruption test expected
one, so every New* and Update* call failed after the first solve.
---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..b09e089 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,7 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    if (2 * prog->NumberOfConstraints() + 2 !=                             \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From 936f48e4fb0dad2c53737edaddce97d169e86f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 06/36] fix: reinitialize a program when constraints were added
 after a solve

A warm start used the workspaces and the linear solver of the program
before the addition, and the C interface took it for corrupted.
---
 conex/cone_program.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 2db7ad8..3a62f02 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -188,17 +188,28 @@ class Program {
     is_initialized = true;
   }
 
+  // The workspaces and the solver do not cover constraints added later.
+  void InvalidateWorkspace() {
+    workspaces.clear();
+    is_initialized = false;
+  }
+
   template <typename T>
   bool AddConstraint(T&& d) {
     if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
+        InvalidateWorkspace();
       }
       return result;
     } else {
-      return kkt_system_manager_.AddEqualityConstraint(
+      bool result = kkt_system_manager_.AddEqualityConstraint(
           EqualityConstraints(std::forward<T>(d)));
+      if (result == CONEX_SUCCESS) {
+        InvalidateWorkspace();
+      }
+      return result;
     }
   }
 
@@ -209,11 +220,16 @@ class Program {
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
+        InvalidateWorkspace();
       }
       return result;
     } else {
-      return kkt_system_manager_.AddEqualityConstraint(
+      bool result = kkt_system_manager_.AddEqualityConstraint(
           EqualityConstraints(std::forward<T>(d)), variables);
+      if (result == CONEX_SUCCESS) {
+        InvalidateWorkspace();
+      }
+      return result;
     }
   }
 
-- 
2.43.0


From 2c48c46fde5d49ede28a91bbea9613bccdcd1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 07/36] fix: set every option in CONEX_SetDefaultOptions

iterative_refinement_iterations and kkt_solver were left uninitialized.
---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index b09e089..1a7e90b 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -251,9 +251,11 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
       config.initial_centering_steps_coldstart;
   c->warmstart_abort_threshold = config.warmstart_abort_threshold;
   c->max_iterations = config.max_iterations;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From 2263b3da0f371964562125f8668ab93e8200089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 08/36] fix: do not return 'solved' when a solve is rejected

CONEX_DEMAND returns 1, which callers of Solve read as success.
---
 conex/cone_program.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 2ab613e..7b319c9 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,11 +234,6 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
-
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
@@ -248,6 +243,13 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
 
+  if (prog.contains_quadratic_costs_ &&
+      !(config.enable_line_search && !config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs.\n";
+    return prog.status_.solved;
+  }
+
 #if CONEX_VERBOSE
   std::cout.precision(2);
   std::cout << std::scientific;
@@ -384,8 +386,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       }
 
       if (temp < 0) {
-        CONEX_DEMAND(!prog.contains_quadratic_costs_,
-                     "Solver terminating with error: line-search failed.");
+        if (prog.contains_quadratic_costs_) {
+          std::cerr << "Solver terminating with error: line-search failed.\n";
+          return prog.status_.solved;
+        }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, config, rankK, &y);
-- 
2.43.0


From f5e6dfbd29d970965ee57a520675cf7b1b1145da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 09/36] fix: do not solve with a zero cost when the cost vector
 has the wrong size

AddLinearCost returned true in both cases and its result was ignored.
---
 conex/cone_program.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7b319c9..c110832 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -224,8 +224,10 @@ void ApplyLimits(double* x, double lb, double ub) {
 }
 
 bool Program::AddLinearCost(const VectorXd& b) {
-  CONEX_DEMAND(GetNumberOfVariables() == b.rows(),
-               "Cost vector dimension does not equal number of variables");
+  if (GetNumberOfVariables() != b.rows()) {
+    std::cerr << "Cost vector dimension does not equal number of variables\n";
+    return false;
+  }
   linear_cost_ += b;
   return true;
 }
@@ -551,7 +553,10 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
   prog.ClearLinearCosts();
-  prog.AddLinearCost(-b);
+  if (!prog.AddLinearCost(-b)) {
+    prog.status_ = ConexStatus();
+    return false;
+  }
   return Solve(prog, config, primal_variable);
 }
 
-- 
2.43.0


From 8e79d9b26aad4c20a331f9731c48e8fa9e5b7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 10/36] fix: count the iterations of the last solve only

The counters were uninitialized when a solve ended before its first
iteration, or kept the count of an earlier solve.
---
 conex/cone_program.cc | 5 +++++
 conex/cone_program.h  | 2 +-
 conex/workspace.h     | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index c110832..e34dc16 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -243,6 +243,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   prog.status_.solved = 0;
   prog.status_.primal_infeasible = 0;
   prog.status_.dual_infeasible = 0;
+  prog.status_.num_iterations = 0;
+  if (prog.stats) {
+    prog.stats->num_iter = 0;
+  }
   bool max_iters_reached = true;
 
   if (prog.contains_quadratic_costs_ &&
@@ -370,6 +374,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         continue;
       }
       prog.status_.solved = 0;
+      prog.status_.num_iterations = prog.stats->num_iter;
       PRINTSTATUS("Factorization failed.");
       return prog.status_.solved;
     }
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 3a62f02..e9eaedc 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -39,7 +39,7 @@ struct SolverConfiguration {
 
 struct ConexStatus {
   int solved = 0;
-  int num_iterations;
+  int num_iterations = 0;
   int primal_infeasible = 0;
   int dual_infeasible = 0;
 };
diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4380c2d 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -111,7 +111,7 @@ struct WorkspaceStats {
     return *c_scaling_;
   }
 
-  int num_iter;
+  int num_iter = 0;
   int max_iter_;
   bool initialized = false;
 };
-- 
2.43.0


From ab4766b8d1d05c20fb2231b56bad6d03b3f10044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 11/36] fix: allow queries of statistics and multipliers before
 the first solve

Both dereferenced a null pointer.
---
 conex/cone_program.h | 4 ++++
 interfaces/conex.cc  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index e9eaedc..e8f4260 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -119,6 +119,10 @@ class Program {
 
   template <typename T>
   void GetDualVariable(int i, T* xi) {
+    // There is no multiplier before the first iteration.
+    if (!stats || stats->num_iter < 1) {
+      return;
+    }
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 1a7e90b..63b50d1 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -267,7 +267,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 3a33e029f4fb59daeb3f19397ef55d062fc0304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 12/36] fix: return -1 when CONEX_AddSparseLMIConstraint
 rejects its variables

It returned the id that the next constraint gets.
---
 interfaces/conex.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 63b50d1..eb122ec 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -183,7 +183,9 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   conex::DenseLMIConstraint T3{Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3, variables);
+  if (program.AddConstraint(T3, variables) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
-- 
2.43.0


From 26b2742b6371beb2abefd9a7280c48d5796617f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 13/36] fix: reject coefficient updates with indices out of
 range

Negative indices, and variables beyond those of the constraint, were written
out of bounds, or accepted and read out of bounds by the next solve.
---
 conex/cone_program.h       | 4 ++++
 conex/hermitian_psd.cc     | 4 ++++
 conex/linear_constraint.cc | 2 ++
 conex/quadratic_cost.cc    | 1 +
 4 files changed, 11 insertions(+)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index e8f4260..fd6c5b3 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -154,6 +154,10 @@ class Program {
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
+        const auto& variables = kkt_system_manager_.cliques.at(i);
+        CONEX_DEMAND(GetNumberOfVariables() == 0 ||
+                         variable < static_cast<int>(variables.size()),
+                     "Variable index out of bounds.");
         return UpdateLinearOperator(&ci.constraint, value, variable, row, col,
                                     hyper_complex_dim);
       }
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..40ef636 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -251,9 +251,12 @@ bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0 && dim >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
+  CONEX_DEMAND(var >= 0, "Indices cannot be negative.");
+
   using T = HermitianPsdConstraint<H>;
   if constexpr (std::is_same<T, Octonions>::value) {
     if (dim >= 3) {
@@ -288,6 +291,7 @@ bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0 && dim >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..e753206 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -210,6 +210,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
 
   o->constraint_matrix_(r, var) = val;
   return CONEX_SUCCESS;
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index da819f1..28c15b5 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -33,6 +33,7 @@ class QuadraticFunction {
   friend bool UpdateAffineTerm(QuadraticFunction* o, double val, int r, int c,
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
+    CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
-- 
2.43.0


From e0245b283c9f6559d342facf29ae49b831dc8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 14/36] fix: create constraints of the C interface with
 coefficients for all variables

Matrix inequalities and second-order cones for which the affine term, or the
coefficients of the last variables, are never set had matrices of the wrong
size and crashed the solver. Coefficients that are never set are zero.
---
 conex/soc_constraint.h |  3 ++-
 interfaces/conex.cc    | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index eb122ec..b6e4bc2 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -62,6 +62,15 @@ void NonZeroSubMat(const Eigen::MatrixXd& M, std::vector<int>* vars,
     row++;
   }
 }
+
+// A constraint with zero coefficients for every variable of the program.
+template <typename T>
+HermitianPsdConstraint<T> ZeroLMI(int order, int num_vars) {
+  const typename T::Matrix zero = T::Zero(order, order);
+  return HermitianPsdConstraint<T>(
+      order, std::vector<typename T::Matrix>(num_vars, zero), zero);
+}
+
 SolverConfiguration APIConvertSolverConfiguration(
     const CONEX_SolverConfiguration* config) {
   SolverConfiguration c;
@@ -300,20 +309,21 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
+  const int n = prg->GetNumberOfVariables();
   switch (hyper_complex_dim) {
     case 1:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Real>(order));
+      prg->AddConstraint(ZeroLMI<conex::Real>(order, n));
       break;
     case 2:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Complex>(order));
+      prg->AddConstraint(ZeroLMI<conex::Complex>(order, n));
       break;
     case 4:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Quaternions>(order));
+      prg->AddConstraint(ZeroLMI<conex::Quaternions>(order, n));
       break;
     case 8:
       CONEX_DEMAND(order <= 3,
                    "Order of octonion algebra cannot be greater than 3.");
-      prg->AddConstraint(HermitianPsdConstraint<conex::Octonions>(order));
+      prg->AddConstraint(ZeroLMI<conex::Octonions>(order, n));
   }
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
@@ -395,7 +405,10 @@ CONEX_STATUS CONEX_NewLorentzConeConstraint(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
-  prg->AddConstraint(conex::SOCConstraint(order));
+  const int n = prg->GetNumberOfVariables();
+  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(order + 1, n);
+  Eigen::MatrixXd c = Eigen::MatrixXd::Zero(order + 1, 1);
+  prg->AddConstraint(conex::SOCConstraint(A, c));
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From 8540ddbd98620ed38c7c152dc6b7aebe59f2e501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 15/36] fix: reject linear inequalities with no or negative
 rows in the C interface

---
 interfaces/conex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index b6e4bc2..5cc3df7 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -331,6 +331,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 1, "Invalid number of inequalities.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
-- 
2.43.0


From 0086bb1830883b1878b7e45986f6dea74f8470c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 16/36] fix: solve cones whose affine term or last coefficients
 were never set

Matrix inequalities and second-order cones that are built by coefficient
updates had matrices of the wrong size unless the affine term and the last
variable were updated.
---
 conex/hermitian_psd.cc  |  4 ++++
 conex/hermitian_psd.h   |  3 ++-
 conex/soc_constraint.cc | 19 ++++++++++++-------
 conex/soc_constraint.h  |  6 +++++-
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 40ef636..6a986ef 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -178,6 +178,10 @@ void ConstructSchurComplementSystem(HermitianPsdConstraint<T>* o,
   typename T::Matrix AW;
   typename T::Matrix WAW;
   if (initialize) {
+    // The coefficients of the last variables are zero if not given.
+    if (G->rows() != m) {
+      sys->setZero();
+    }
     for (int i = 0; i < m; i++) {
       if constexpr (std::is_same<T, Octonions>::value) {
         WAW = T::QuadraticRepresentation(W, o->constraint_matrices_.at(i));
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..18b1e1a 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -42,7 +42,8 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {}
+  HermitianPsdConstraint(int n)
+      : rank_(n), workspace_(n), constraint_affine_(T::Zero(n, n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index f073c21..d076662 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -192,7 +192,7 @@ double NormInf(double x0, const DenseMatrix& x) {
 
 void SOCConstraint::ComputeNegativeSlack(double inv_sqrt_mu, const Ref& y,
                                          Ref* minus_s) {
-  minus_s->noalias() = (constraint_matrix_)*y;
+  minus_s->noalias() = (constraint_matrix_)*y.topRows(number_of_variables());
   minus_s->noalias() -= (constraint_affine_)*inv_sqrt_mu;
 }
 
@@ -287,16 +287,21 @@ void ConstructSchurComplementSystem(SOCConstraint* o, bool initialize,
     WA.col(i) = QuadraticRepresentation(Wsqrt, WA.col(i));
   }
 
+  // The coefficients of the last variables are zero if not given.
+  const int m = o->number_of_variables();
   if (initialize) {
-    (*G).noalias() = 2 * WA.transpose() * WA;
-    sys->AW.noalias() = 2 * o->constraint_matrix_.transpose() * W;
-    sys->AQc.noalias() = 2 * WA.transpose() * WsqrtC;
+    if (G->rows() != m) {
+      sys->setZero();
+    }
+    (*G).topLeftCorner(m, m).noalias() = 2 * WA.transpose() * WA;
+    sys->AW.topRows(m).noalias() = 2 * o->constraint_matrix_.transpose() * W;
+    sys->AQc.topRows(m).noalias() = 2 * WA.transpose() * WsqrtC;
     sys->inner_product_of_w_and_c = 2 * WsqrtC(0);
     sys->inner_product_of_c_and_Qc = 2 * WsqrtC.squaredNorm();
   } else {
-    (*G).noalias() += 2 * WA.transpose() * WA;
-    sys->AW.noalias() += 2 * o->constraint_matrix_.transpose() * W;
-    sys->AQc.noalias() += 2 * WA.transpose() * WsqrtC;
+    (*G).topLeftCorner(m, m).noalias() += 2 * WA.transpose() * WA;
+    sys->AW.topRows(m).noalias() += 2 * o->constraint_matrix_.transpose() * W;
+    sys->AQc.topRows(m).noalias() += 2 * WA.transpose() * WsqrtC;
     sys->inner_product_of_w_and_c += 2 * WsqrtC(0);
     sys->inner_product_of_c_and_Qc += 2 * WsqrtC.squaredNorm();
   }
diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index 3a9a872..8295903 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -17,7 +17,11 @@ class SOCConstraint {
   }
 
   // Lorentz cone a subset of R^(n+1).
-  SOCConstraint(int n) : workspace_(n), n_(n) {}
+  SOCConstraint(int n)
+      : workspace_(n),
+        constraint_matrix_(DenseMatrix::Zero(n + 1, 0)),
+        constraint_affine_(DenseMatrix::Zero(n + 1, 1)),
+        n_(n) {}
 
   WorkspaceSOC* workspace() { return &workspace_; }
 
-- 
2.43.0


From 0f59297c508cd9973ed5cc89912e5a3869cca640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 17/36] fix: convert zero rows with a zero bound

The row was scaled by 1/0, which turned it into NaN.
---
 conex/linear_constraint.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index e753206..90cc1e7 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -19,25 +19,28 @@ void AppendRow(MatrixXd* A, const MatrixXd& new_rows) {
   A->bottomRows(new_rows.rows()) = new_rows;
 }
 
+// The scale that normalizes a row, which may be zero.
+double RowScale(const MatrixXd& A, const MatrixXd& b, int i) {
+  const double norm_squared = A.row(i).squaredNorm() + b.row(i).squaredNorm();
+  return norm_squared > 0 ? 1.0 / std::sqrt(norm_squared) : 1;
+}
+
 void PreprocessLinearInequality(const MatrixXd& A, const MatrixXd& lb,
                                 const MatrixXd& ub, MatrixXd* Aineq,
                                 MatrixXd* bineq, MatrixXd* Aeq, MatrixXd* beq) {
   for (int i = 0; i < A.rows(); i++) {
     if (lb.row(i) == ub.row(i)) {
-      double scale =
-          1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+      double scale = RowScale(A, ub, i);
       AppendRow(Aeq, scale * A.row(i));
       AppendRow(beq, scale * ub.row(i));
     } else {
       if (ub(i, 0) < 1e8) {
-        double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+        double scale = RowScale(A, ub, i);
         AppendRow(Aineq, scale * A.row(i));
         AppendRow(bineq, scale * ub.row(i));
       }
       if (lb(i, 0) > -1e8) {
-        double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
+        double scale = RowScale(A, lb, i);
         AppendRow(Aineq, -scale * A.row(i));
         AppendRow(bineq, -scale * lb.row(i));
       }
-- 
2.43.0


From 6fc1277d6929c326360009fb44d58509e5b703f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 18/36] fix: make room for the statistics of a longer
 warm-started solve

The history was sized by the first solve, so that a warm start with more
iterations wrote over the scalings and the residuals.
---
 conex/cone_program.cc |  2 ++
 conex/workspace.h     | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index e34dc16..a8cbb6e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -107,6 +107,8 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     }
     solver->Bind(kkt);
     END_TIMER
+  } else {
+    prog.stats->Reserve(config.max_iterations);
   }
   return true;
 }
diff --git a/conex/workspace.h b/conex/workspace.h
index 4380c2d..d77ca19 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -94,6 +94,16 @@ struct WorkspaceStats {
 
   bool IsInitialized() { return initialized; }
 
+  // Makes room for a longer history than the workspace holds. The scalings are
+  // not moved.
+  void Reserve(int max_iter) {
+    if (max_iter > max_iter_) {
+      history_.resize(2 * max_iter);
+      sqrt_inv_mu = history_.data();
+      norm_inf_d = history_.data() + max_iter;
+    }
+  }
+
   double* sqrt_inv_mu;
   double* norm_inf_d;
   double* c_scaling_;
@@ -114,6 +124,7 @@ struct WorkspaceStats {
   int num_iter = 0;
   int max_iter_;
   bool initialized = false;
+  std::vector<double> history_;
 };
 
 }  // namespace conex
-- 
2.43.0


From 38c23781cbeae471b9351feded90961a32a4d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 19/36] fix: start from the identity when there is no point to
 warm start from

A warm start of a program that has not been initialized, or to which
constraints were added, read scaling points and scalings from memory that
nobody had written.
---
 conex/cone_program.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index a8cbb6e..2f66d20 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -85,8 +85,15 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.m_ = prog.kkt_system_manager_.SizeOfKKTSystem();
     prog.sys.residual_only_ = true;
 
+    // A new program can only warm start from a buffer that another one filled.
+    const bool is_new = prog.solver == nullptr;
+    const int buffer_size = prog.workspace_data_->size();
     prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    const bool buffer_has_point =
+        is_new && prog.workspace_data_ != &prog.memory_ && buffer_size > 0 &&
+        buffer_size == prog.workspace_data_->size();
+    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
+        !buffer_has_point) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
-- 
2.43.0


From 0f39564c0f09f6db43fe02a088faeb66c058d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 20/36] fix: do not scale earlier contributions when a
 quadratic cone adds to a system

---
 conex/quadratic_cone_constraint.cc | 58 ++++++++++++++----------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..a55398e 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -83,15 +83,15 @@ template <typename T>
 void SchurComplement(const Eigen::VectorXd& A0, const Eigen::MatrixXd& A_gram,
                      const double W0, double det_w,
                      const Eigen::MatrixXd& A_dot_w, bool initialize, T* G) {
+  // The factors account for the Jordan inner-product  <x, y> := 2 x^T y.
   if (initialize) {
     G->noalias() = A0 * A0.transpose();
     G->noalias() -= A_gram;
-    G->array() *= -det_w;
+    G->array() *= -2 * det_w;
   } else {
-    G->noalias() += det_w * (A_gram - A0 * A0.transpose());
+    G->noalias() += 2 * det_w * (A_gram - A0 * A0.transpose());
   }
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
+  G->noalias() += 4 * (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
 }
 
 }  // namespace
@@ -252,41 +252,37 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   double det_w = (*o->workspace_.W0) * (*o->workspace_.W0) -
                  SquaredNorm(o->Q_, o->workspace_.W1, &Q_W1);
 
+  double w_dot_c;
+  if (o->Q_.size() > 0) {
+    w_dot_c = Q_W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
+  } else {
+    w_dot_c =
+        o->workspace_.W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
+  }
+
+  // Account for Jordan inner-product  <x, y> := 2 x^T y.
+  const double k = 2;
   if (initialize) {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
                     &sys->G);
-    sys->AW.noalias() = A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->AW.noalias() = k * (A_dot_x + A0 * (*o->workspace_.W0));
+    sys->AQc.noalias() = k * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc =
+        k * det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->inner_product_of_w_and_c = k * w_dot_c;
   } else {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, false,
                     &sys->G);
-    sys->AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() += det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc += det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
-  }
-
-  double scale;
-  if (o->Q_.size() > 0) {
-    scale = Q_W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
-  } else {
-    scale = o->workspace_.W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
+    sys->AW.noalias() += k * (A_dot_x + A0 * (*o->workspace_.W0));
+    sys->AQc.noalias() += k * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc +=
+        k * det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->inner_product_of_w_and_c += k * w_dot_c;
   }
-  sys->AQc.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
+  sys->AQc.noalias() +=
+      2 * k * (A_dot_x + A0 * (*o->workspace_.W0)) * w_dot_c;
   sys->inner_product_of_c_and_Qc +=
-      2 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
-  if (initialize) {
-    sys->inner_product_of_w_and_c = scale;
-  } else {
-    sys->inner_product_of_w_and_c += scale;
-  }
-
-  // Account for Jordan inner-product  <x, y> := 2 x^T y.
-  sys->AQc *= 2;
-  sys->AW *= 2;
-  sys->inner_product_of_c_and_Qc *= 2;
-  sys->inner_product_of_w_and_c *= 2;
-  sys->G *= 2;
+      2 * k * (c_dot_x + C0 * (*o->workspace_.W0)) * w_dot_c;
 }
 
 void SetIdentity(QuadraticConstraintBase* o) {
-- 
2.43.0


From 546c8f00858c93acadd4b1b3ee12163e73e6fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:18 +0000
Subject: [PATCH 21/36] fix: scale the whole direction in a damped step over
 the octonions

---
 conex/exponential_map.cc | 21 ++++++++++++---------
 conex/exponential_map.h  |  3 ++-
 conex/hermitian_psd.cc   |  9 +--------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/conex/exponential_map.cc b/conex/exponential_map.cc
index 367b17f..d701ebe 100644
--- a/conex/exponential_map.cc
+++ b/conex/exponential_map.cc
@@ -120,7 +120,8 @@ HyperComplexMatrix GeodesicUpdate(const HyperComplexMatrix& x,
 //
 //           = Q(w^{1/2})  (c e + k Q(w^{1/2}) s)^2,
 //
-//  for c = 1.5 and k = 2.
+//  for c = 1.5 and k = 1/2. A damped step replaces e + Q(w^{1/2}) s by
+//  step_size * (e + Q(w^{1/2}) s), that is, k = step_size / 2 and c = 1 + k.
 //
 // Using the fact that:
 //
@@ -132,9 +133,10 @@ HyperComplexMatrix GeodesicUpdate(const HyperComplexMatrix& x,
 //           = (c^2 w + 2  c k Q(w) s +  k^2 Q(w) Q(s) w
 template <typename T>
 typename T::Matrix DoGeodesicUpdateScaled(const typename T::Matrix& w,
-                                          const typename T::Matrix& s) {
-  double c = 1.5;
-  double k = 1.0 / 2.0;
+                                          const typename T::Matrix& s,
+                                          double step_size) {
+  double k = step_size / 2.0;
+  double c = 1.0 + k;
   return T::MakeHermitian(T::Add(
       T::Add(T::ScalarMultiply(w, c * c),
              T::ScalarMultiply(T::QuadraticRepresentation(w, s), 2 * k * c)),
@@ -144,23 +146,24 @@ typename T::Matrix DoGeodesicUpdateScaled(const typename T::Matrix& w,
 }
 
 HyperComplexMatrix GeodesicUpdateScaled(const HyperComplexMatrix& x,
-                                        const HyperComplexMatrix& s) {
+                                        const HyperComplexMatrix& s,
+                                        double step_size) {
   assert(x.size() > 0);
   assert(x.size() == s.size());
   int n = x.size();
 
   switch (n) {
     case 1:
-      return DoGeodesicUpdateScaled<Real>(x, s);
+      return DoGeodesicUpdateScaled<Real>(x, s, step_size);
       break;
     case 2:
-      return DoGeodesicUpdateScaled<Complex>(x, s);
+      return DoGeodesicUpdateScaled<Complex>(x, s, step_size);
       break;
     case 4:
-      return DoGeodesicUpdateScaled<Quaternions>(x, s);
+      return DoGeodesicUpdateScaled<Quaternions>(x, s, step_size);
       break;
     case 8:
-      return DoGeodesicUpdateScaled<Octonions>(x, s);
+      return DoGeodesicUpdateScaled<Octonions>(x, s, step_size);
       break;
     default:
       throw "Dimension of division algebra must be 1, 2, 4, or 8.";
diff --git a/conex/exponential_map.h b/conex/exponential_map.h
index d43adca..e7c07ad 100644
--- a/conex/exponential_map.h
+++ b/conex/exponential_map.h
@@ -9,6 +9,7 @@ void ExponentialMap(const HyperComplexMatrix& arg, HyperComplexMatrix* result);
 Octonions::Matrix GeodesicUpdate(const Octonions::Matrix& w,
                                  const Octonions::Matrix& s);
 HyperComplexMatrix GeodesicUpdateScaled(const HyperComplexMatrix& w,
-                                        const HyperComplexMatrix& s);
+                                        const HyperComplexMatrix& s,
+                                        double step_size = 1);
 
 }  // namespace conex
diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 6a986ef..8121de6 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -115,15 +115,8 @@ template void GetWeightedSlackEigenvalues(
 
 template <>
 bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
-  using T = Octonions;
   auto& minus_s = o->minus_s;
-  double scale = opt.step_size;
-
-  if (scale != 1) {
-    minus_s = T::ScalarMultiply(minus_s, scale);
-  }
-
-  o->W = GeodesicUpdateScaled(o->W, minus_s);
+  o->W = GeodesicUpdateScaled(o->W, minus_s, opt.step_size);
   return true;
 }
 
-- 
2.43.0


From ebc50f82abc2b41190d9f06da53180651c5418f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 22/36] fix: give second-order and octonion constraints a
 multiplier

The multiplier of a second-order cone was a matrix that was never written, and
extracting multipliers left the square root of the scaling point behind. The
one of an octonion constraint kept pointing to memory it no longer used.
---
 conex/hermitian_psd.cc             |  6 ++++++
 conex/quadratic_cone_constraint.cc | 34 ++++++++++++++++++++++++++++++
 conex/quadratic_cone_constraint.h  |  3 ++-
 conex/soc_constraint.cc            | 14 +++++++++++-
 conex/soc_constraint.h             |  1 +
 conex/workspace_soc.h              | 10 +++++++--
 6 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8121de6..f1faaf9 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -117,6 +117,12 @@ template <>
 bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   auto& minus_s = o->minus_s;
   o->W = GeodesicUpdateScaled(o->W, minus_s, opt.step_size);
+
+  // TODO(FrankPermenter): Remove this hack, which provides
+  // the dual-variable-interface access to real part of W.
+  const int n = Rank(*o);
+  new (&o->workspace_.W)
+      Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(o->W.at(0).data(), n, n);
   return true;
 }
 
diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index a55398e..7a7db4d 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -169,8 +169,40 @@ void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
   Eigen::internal::set_is_malloc_allowed(true);
 }
 
+void QuadraticConstraintBase::SetDualVariable() {
+  if (Q_.rows() > 0) {
+    workspace_.SetDualVariable(Q_ * workspace_.W1);
+  } else {
+    workspace_.SetDualVariable(workspace_.W1);
+  }
+}
+
+// w <- (1 + e_weight) w + Q(w)(A^y - C)
+void QuadraticConstraintBase::AffineUpdate(const Ref& minus_s_1,
+                                           double minus_s_0, double e_weight) {
+  double& w0 = *workspace_.W0;
+  const Eigen::VectorXd w1 = workspace_.W1;
+  DenseMatrix temp(n_, 1);
+  DenseMatrix z1(n_, 1);
+  double z0;
+  QuadraticRepresentation(SquaredNorm(Q_, w1, &temp),
+                          InnerProduct(Q_, w1, minus_s_1, &temp), w0, w1,
+                          minus_s_0, minus_s_1, &z0, &z1);
+  w0 = (1 + e_weight) * w0 + z0;
+  workspace_.W1 = (1 + e_weight) * w1 + z1;
+  SetDualVariable();
+}
+
 void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
                  const Ref& y, StepInfo* info) {
+  if (opt.affine) {
+    double minus_s_0;
+    auto& minus_s_1 = o->workspace_.temp1_1;
+    o->ComputeNegativeSlack(opt.c_weight, y, &minus_s_0, &minus_s_1);
+    o->AffineUpdate(minus_s_1, minus_s_0, opt.e_weight);
+    return;
+  }
+
   Eigen::internal::set_is_malloc_allowed(false);
   // d =  e - Q(w^{1/2})(C-A^y)
   double& wsqrt_q0 = *o->workspace_.W0;
@@ -231,6 +263,7 @@ bool TakeStep(QuadraticConstraintBase* o, const StepOptions& options) {
       wsqrt_q1_norm_sqr,
       InnerProduct(o->Q_, wsqrt_q1, expd_q1, &o->workspace_.temp1_1), wsqrt_q0,
       wsqrt_q1, expd_q0, expd_q1, o->workspace_.W0, &o->workspace_.W1);
+  o->SetDualVariable();
   return true;
 }
 
@@ -288,6 +321,7 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
 void SetIdentity(QuadraticConstraintBase* o) {
   *o->workspace_.W0 = 1;
   o->workspace_.W1.setZero();
+  o->SetDualVariable();
 }
 
 }  // namespace conex
diff --git a/conex/quadratic_cone_constraint.h b/conex/quadratic_cone_constraint.h
index 1d9a319..70f6f0a 100644
--- a/conex/quadratic_cone_constraint.h
+++ b/conex/quadratic_cone_constraint.h
@@ -62,7 +62,8 @@ class QuadraticConstraintBase {
   void ComputeNegativeSlack(double inv_sqrt_mu, const Ref& y, double* minus_s_0,
                             Ref* minus_s_1);
   void GeodesicUpdate(const Ref& S, StepInfo* data);
-  void AffineUpdate(const Ref& S);
+  void AffineUpdate(const Ref& minus_s_1, double minus_s_0, double e_weight);
+  void SetDualVariable();
 
   const int n_ = 0;
   WorkspaceSOC workspace_;
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index d076662..6cf0b8d 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -239,6 +239,7 @@ bool TakeStep(SOCConstraint* o, const StepOptions& opt) {
   auto wn = QuadraticRepresentation(wsqrt, expd);
   *o->workspace_.W0 = wn(0, 0);
   o->workspace_.W1 = wn.bottomRows(n - 1);
+  o->workspace_.SetDualVariable(o->workspace_.W1);
 
   if (o->workspace_.W1.norm() > *o->workspace_.W0) {
     DUMP(o->workspace_.W1.norm());
@@ -254,8 +255,19 @@ void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
   Ref minus_s(minus_s_data.data(), o->workspace_.n_ + 1, 1);
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
 
-  // e - Q(w^{1/2})(C-A^y)
   int n = minus_s.rows();
+  if (opt.affine) {
+    Eigen::VectorXd w(n);
+    w(0) = *o->workspace_.W0;
+    w.bottomRows(n - 1) = o->workspace_.W1;
+    w = (1 + opt.e_weight) * w + QuadraticRepresentation(w, minus_s);
+    *o->workspace_.W0 = w(0);
+    o->workspace_.W1 = w.bottomRows(n - 1);
+    o->workspace_.SetDualVariable(o->workspace_.W1);
+    return;
+  }
+
+  // e - Q(w^{1/2})(C-A^y)
   auto wsqrt = Sqrt(*o->workspace_.W0, o->workspace_.W1);
   *o->workspace_.W0 = wsqrt(0, 0);
   o->workspace_.W1 = wsqrt.bottomRows(n - 1);
diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index 8295903..c9d0b28 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -30,6 +30,7 @@ class SOCConstraint {
   friend void SetIdentity(SOCConstraint* o) {
     *o->workspace_.W0 = 1;
     o->workspace_.W1.setZero();
+    o->workspace_.SetDualVariable(o->workspace_.W1);
   }
   friend void PrepareStep(SOCConstraint* o, const StepOptions& opt,
                           const Ref& y, StepInfo* data);
diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 71909a1..0a9e839 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -40,8 +40,14 @@ struct WorkspaceSOC {
   Eigen::Map<DenseMatrix, Eigen::Aligned> temp2_1{NULL, 0, 0};
   Eigen::Map<DenseMatrix, Eigen::Aligned> temp3_1{NULL, 0, 0};
 
-  // Dummy to make dual variable interface happy
-  // TODO(FrankPermenter): Remove this.
+  // The multiplier of the constraint for the dual variable interface. The
+  // factor accounts for the Jordan inner-product <x, y> := 2 x^T y.
+  template <typename T>
+  void SetDualVariable(const T& w1) {
+    W(0, 0) = 2 * (*W0);
+    W.bottomRows(n_) = 2 * w1;
+  }
+
   int n_;
   Eigen::MatrixXd W;
 };
-- 
2.43.0


From 311565035be5432b0133b95087aa099257f18008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:42 +0000
Subject: [PATCH 23/36] fix: leave room for the first coordinate of a
 second-order cone of order zero

---
 conex/workspace_soc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 0a9e839..f5a8d17 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -8,7 +8,7 @@ struct WorkspaceSOC {
   WorkspaceSOC(int n) : n_(n), W(n + 1, 1) {}
 
   static constexpr int size_of(int n) {
-    return get_size_aligned(n) + 4 * get_size_aligned(n);
+    return 4 * get_size_aligned(n) + get_size_aligned(1);
   }
 
   friend int SizeOf(const WorkspaceSOC& o) { return size_of(o.n_); }
-- 
2.43.0


From 588d1b0bd6d175aec2bce2326fefe7877d6e8a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:46 +0000
Subject: [PATCH 24/36] fix: do not use a workspace that another program has
 moved

A program that shares its memory with a larger one kept pointers into the
memory that was released when the larger one grew it.
---
 conex/cone_program.cc |  2 +-
 conex/cone_program.h  | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 2f66d20..7390334 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -76,7 +76,7 @@ void ConstructSchurComplementSystem(std::vector<T*>* c, bool initialize,
 }
 
 bool Initialize(Program& prog, const SolverConfiguration& config) {
-  if (!prog.is_initialized ||
+  if (!prog.is_initialized || prog.WorkspaceMoved() ||
       config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
     auto& solver = prog.solver;
diff --git a/conex/cone_program.h b/conex/cone_program.h
index fd6c5b3..4dbe467 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -120,7 +120,7 @@ class Program {
   template <typename T>
   void GetDualVariable(int i, T* xi) {
     // There is no multiplier before the first iteration.
-    if (!stats || stats->num_iter < 1) {
+    if (!stats || stats->num_iter < 1 || WorkspaceMoved()) {
       return;
     }
     int cnt = 0;
@@ -194,6 +194,14 @@ class Program {
     Initialize(&workspaces, workspace_data_->data());
 
     is_initialized = true;
+    workspace_start_ = workspace_data_->data();
+    workspace_size_ = workspace_data_->size();
+  }
+
+  // True if another program that shares the memory has grown it since.
+  bool WorkspaceMoved() const {
+    return workspace_start_ != workspace_data_->data() ||
+           workspace_size_ != workspace_data_->size();
   }
 
   // The workspaces and the solver do not cover constraints added later.
@@ -254,6 +262,8 @@ class Program {
   Eigen::VectorXd memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
+  const double* workspace_start_ = nullptr;
+  Eigen::Index workspace_size_ = 0;
   bool contains_quadratic_costs_ = false;
   ConexStatus status_;
 
-- 
2.43.0


From b44b6384410dbbcee350e88bbfa499c98f8aec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:04 +0000
Subject: [PATCH 25/36] fix: multipliers of programs with quadratic costs
 ignored the gradient of the cost

---
 conex/cone_program.cc | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7390334..ffdd563 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -522,17 +522,31 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     solver->Assemble();
     AssembleSchurComplementResiduals(&prog.kkt_system_manager_, &prog.sys);
     solver->Factor();
-    DenseMatrix bres =
-        newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
-    y2 = solver->Solve(bres);
-
-    newton_step_parameters.affine = true;
-    newton_step_parameters.e_weight = 0;
-    newton_step_parameters.c_weight = 0;
-    Ref y2map(y2.data(), y2.rows(), y2.cols());
     StepInfo info;
-    PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
-                &info);
+    if (prog.contains_quadratic_costs_) {
+      // The affine step would ignore the gradient of the quadratic cost; the
+      // multipliers are those of a Newton step for the final mu.
+      y2 = solver->Solve(newton_step_parameters.inv_sqrt_mu *
+                             (b * b_scaling + prog.sys.AQc * c_scaling) -
+                         2 * prog.sys.AW);
+      Ref y2map(y2.data(), y2.rows(), y2.cols());
+      PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
+                  &info);
+      newton_step_parameters.step_size =
+          std::min(1.0, 2.0 / (info.norminfd * info.norminfd));
+      TakeStep(&prog.constraints_, newton_step_parameters);
+    } else {
+      DenseMatrix bres =
+          newton_step_parameters.inv_sqrt_mu * b * b_scaling - 1 * prog.sys.AW;
+      y2 = solver->Solve(bres);
+
+      newton_step_parameters.affine = true;
+      newton_step_parameters.e_weight = 0;
+      newton_step_parameters.c_weight = 0;
+      Ref y2map(y2.data(), y2.rows(), y2.cols());
+      PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y2map,
+                  &info);
+    }
   }
 
   if (prog.status_.solved) {
-- 
2.43.0


From 7dbb3fea0d561a1093662b74620352c8046ee1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 26/36] fix: long steps of semidefinite constraints left the
 cone (norm missed eigenvalues, exponential inaccurate)

---
 conex/exponential_map_pade.cc | 18 ++++++++++++++++--
 conex/psd_constraint.cc       | 15 +++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/conex/exponential_map_pade.cc b/conex/exponential_map_pade.cc
index 0c454c9..6b64356 100644
--- a/conex/exponential_map_pade.cc
+++ b/conex/exponential_map_pade.cc
@@ -22,13 +22,27 @@ void ComputeWeightedPowers(const MatrixXd& A, MatrixXd* U, MatrixXd* V) {
 
 void ExponentialMapPadeApproximation(
     const Eigen::Ref<const Eigen::MatrixXd>& arg, Ref* result) {
+  // The approximant is accurate (and positive) only near zero: scale larger
+  // arguments down and square the result.
+  int squarings = 0;
+  double scale = 1;
+  for (double norm = arg.norm(); norm * scale > 2 && squarings < 60;) {
+    scale *= .5;
+    squarings++;
+  }
+  const MatrixXd scaled = scale * arg;
+
   MatrixXd odd_powers(arg.rows(), arg.rows());
   MatrixXd even_powers(arg.rows(), arg.rows());
-  ComputeWeightedPowers(arg, &odd_powers, &even_powers);
+  ComputeWeightedPowers(scaled, &odd_powers, &even_powers);
   MatrixXd numer = odd_powers + even_powers;
   MatrixXd denom = -odd_powers + even_powers;
   // TODO(FrankPermenter): Use inplace decomposition.
-  *result = denom.partialPivLu().solve(numer);
+  MatrixXd power = denom.partialPivLu().solve(numer);
+  for (int i = 0; i < squarings; i++) {
+    power = power * power;
+  }
+  *result = power;
 }
 
 }  // namespace conex
diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 579070a..1a8dc05 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -65,8 +65,8 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   // Finds eigenvalues of -Q(w/2) s
   int index = 0;
   WS.diagonal().maxCoeff(&index);
-  auto gw_eig =
-      ApproximateEigenvalues(WS, workspace.W, minus_s.col(index), n / 2, true);
+  auto gw_eig = ApproximateEigenvalues(WS, workspace.W, minus_s.col(index),
+                                       n / 2 + 1, true);
 
   // Get eigenvalues of e - Q(w/2) s.
   const double lambda_1 = std::fabs(opt.e_weight + gw_eig.minCoeff());
@@ -79,6 +79,13 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   WSWS = WS * WS;
   double norm2 = WSWS.trace() + 2 * WS.trace() + Rank(*o);
 
+  // The heuristic can miss eigenvalues; the Frobenius norm bounds what it
+  // misses.
+  const double lower_bound = std::sqrt(std::max(0.0, norm2 / n));
+  if (norminf < lower_bound) {
+    norminf = lower_bound;
+  }
+
   info->norminfd = norminf;
   info->normsqrd = norm2;
 }
@@ -109,8 +116,8 @@ void GetWeightedSlackEigenvalues(PsdConstraint* o, const Ref& y,
   // VectorXd r = minus_s.col(0);
   int index = 0;
   WS.diagonal().maxCoeff(&index);
-  auto gw_eig =
-      ApproximateEigenvalues(WS, workspace->W, minus_s.col(index), n / 2, true);
+  auto gw_eig = ApproximateEigenvalues(WS, workspace->W, minus_s.col(index),
+                                       n / 2 + 1, true);
   // SWS
   const double lamda_max = -gw_eig.minCoeff();
   const double lamda_min = -gw_eig.maxCoeff();
-- 
2.43.0


From 32e233e5aba9177bb431de0557eb77c3dedd3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 27/36] fix: diverging or infeasible iterates were reported as
 solved

---
 conex/cone_program.cc        | 19 ++++++++++++++++---
 conex/cone_program.h         |  4 ++++
 conex/equality_constraint.cc |  8 +++++++-
 conex/newton_step.h          |  2 ++
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index ffdd563..e702673 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -295,8 +295,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   Ref y(ydata.data(), prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
 
   double inv_sqrt_mu_max = config.inv_sqrt_mu_max;
+  const double inv_sqrt_mu_min = std::sqrt(1.0 / (1e-15 + config.maximum_mu));
   double cx = 1;
   double by = -1;
+  double d_inf = std::numeric_limits<double>::infinity();
+  double equality_residual = 0;
   double kkt_error = 0;
 
   StepOptions newton_step_parameters;
@@ -423,8 +426,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     }
 
     const double max = inv_sqrt_mu_max;
-    const double min = std::sqrt(1.0 / (1e-15 + config.maximum_mu));
-    ApplyLimits(&newton_step_parameters.inv_sqrt_mu, min, max);
+    ApplyLimits(&newton_step_parameters.inv_sqrt_mu, inv_sqrt_mu_min, max);
 
     y = newton_step_parameters.inv_sqrt_mu *
             (b * b_scaling + prog.sys.AQc * c_scaling) -
@@ -457,7 +459,8 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     END_TIMER
 
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
-    const double d_inf = std::fabs(info.norminfd);
+    d_inf = std::fabs(info.norminfd);
+    equality_residual = info.equality_residual;
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
@@ -558,6 +561,16 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     if (max_iters_reached) {
       prog.status_.solved = false;
       PRINTSTATUS("Terminating at maximum iteration limit.");
+    } else if (newton_step_parameters.inv_sqrt_mu <= inv_sqrt_mu_min &&
+               inv_sqrt_mu_min < inv_sqrt_mu_max) {
+      // The barrier parameter never left its upper limit: the iterates of an
+      // infeasible or unbounded problem cannot be mistaken for a solution.
+      prog.status_.solved = false;
+      PRINTSTATUS("Terminating at maximum barrier parameter.");
+    } else if (!(d_inf < 1 && equality_residual <= 1e-4)) {
+      // Only a Newton direction of norm less than one certifies feasibility.
+      prog.status_.solved = false;
+      PRINTSTATUS("Terminating without centering.");
     } else {
       PRINTSTATUS("Solved.");
     }
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 4dbe467..41201b8 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -74,6 +74,7 @@ inline void PrepareStep(ConstraintManager<Container>* kkt,
   info_i.norminfd = 0;
   info->normsqrd = 0;
   info->norminfd = -1;
+  info->equality_residual = 0;
   int i = 0;
   for (auto& ci : kkt->eqs) {
     // TODO(FrankPermenter): Remove creation of these maps.
@@ -85,6 +86,9 @@ inline void PrepareStep(ConstraintManager<Container>* kkt,
       info->norminfd = info_i.norminfd;
     }
     info->normsqrd += info_i.normsqrd;
+    if (!(info_i.equality_residual <= info->equality_residual)) {
+      info->equality_residual = info_i.equality_residual;
+    }
     i++;
   }
 }
diff --git a/conex/equality_constraint.cc b/conex/equality_constraint.cc
index 999de9e..db459e1 100644
--- a/conex/equality_constraint.cc
+++ b/conex/equality_constraint.cc
@@ -27,11 +27,17 @@ void ConstructSchurComplementSystem(EqualityConstraints* o, bool initialize,
   }
 }
 
-void PrepareStep(EqualityConstraints* o, const StepOptions&, const Ref& y,
+void PrepareStep(EqualityConstraints* o, const StepOptions& opt, const Ref& y,
                  StepInfo* info_i) {
   o->lambda_ = y.col(0).tail(o->b_.rows());
   info_i->normsqrd = 0;
   info_i->norminfd = 0;
+  if (o->b_.rows() > 0 && opt.c_weight > 0) {
+    const Eigen::VectorXd residual =
+        o->A_ * y.col(0).head(o->A_.cols()) / opt.c_weight - o->b_;
+    info_i->equality_residual = residual.lpNorm<Eigen::Infinity>() /
+                                (1 + o->b_.lpNorm<Eigen::Infinity>());
+  }
 }
 
 }  // namespace conex
diff --git a/conex/newton_step.h b/conex/newton_step.h
index 8567289..0a25647 100644
--- a/conex/newton_step.h
+++ b/conex/newton_step.h
@@ -33,6 +33,8 @@ struct StepOptions {
 struct StepInfo {
   double normsqrd = 0;
   double norminfd = 0;
+  // Residual of the equality constraints, relative to the size of their data.
+  double equality_residual = 0;
 };
 
 struct LineSearchParameters {
-- 
2.43.0


From 6607dde2f9d3f408531acb6d38046d5ef18c2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:09 +0000
Subject: [PATCH 28/36] fix: warm start from a buffer used with another
 iteration limit read the scalings from the wrong place

---
 conex/workspace.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conex/workspace.h b/conex/workspace.h
index d77ca19..013ba32 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -73,10 +73,12 @@ class Workspace {
 struct WorkspaceStats {
   WorkspaceStats(int max_iter) : max_iter_(max_iter) {}
   friend void Initialize(WorkspaceStats* o, double* y) {
-    o->sqrt_inv_mu = y;
-    o->norm_inf_d = y + o->max_iter_;
-    o->c_scaling_ = y + 2 * o->max_iter_;
-    o->b_scaling_ = y + 2 * o->max_iter_ + 1;
+    // The place of the scalings must not depend on the iteration limit: a new
+    // program can warm start from a buffer that was used with another limit.
+    o->c_scaling_ = y;
+    o->b_scaling_ = y + 1;
+    o->sqrt_inv_mu = y + 2;
+    o->norm_inf_d = y + 2 + o->max_iter_;
     o->initialized = true;
   }
 
-- 
2.43.0


From 5573cab6a7299247ba7c456a6ba620e59ffe3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 29/36] fix: warm start of a new program with Hermitian
 constraints on a shared buffer threw (the scaling point was never set)

---
 conex/hermitian_psd.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 18b1e1a..57e1fc9 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -43,13 +43,17 @@ class HermitianPsdConstraint {
   using Matrix = typename T::Matrix;
 
   HermitianPsdConstraint(int n)
-      : rank_(n), workspace_(n), constraint_affine_(T::Zero(n, n)) {}
+      : rank_(n),
+        workspace_(n),
+        constraint_affine_(T::Zero(n, n)),
+        W(T::Identity(n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
         workspace_(n),
         constraint_matrices_(a),
-        constraint_affine_(c) {}
+        constraint_affine_(c),
+        W(T::Identity(n)) {}
 
   WorkspaceDenseHermitian* workspace() { return &workspace_; }
   friend void SetIdentity(HermitianPsdConstraint* o) {
@@ -90,7 +94,8 @@ class HermitianPsdConstraint {
   std::vector<Matrix> constraint_matrices_;
   Matrix constraint_affine_;
 
-  // TODO(FrankPermenter): Move to workspace.
+  // TODO(FrankPermenter): Move to workspace. A new program that warm starts
+  // from a shared buffer begins at the identity because W is not part of it.
   Matrix W;
   Matrix WS;
   Matrix minus_s;
-- 
2.43.0


From 3c4f72e3fdfeccb58ec8cdcc621c879c2b84a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 30/36] fix: a solve without iterations returned uninitialized
 memory as the point

---
 conex/cone_program.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index e702673..5373a5e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -290,7 +290,8 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   Initialize(prog, config);
   std::cout << "\n";
 
-  Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
+  Eigen::MatrixXd ydata =
+      Eigen::MatrixXd::Zero(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
   Eigen::Map<DenseMatrix> yout(primal_variable, m, 1);
   Ref y(ydata.data(), prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
 
-- 
2.43.0


From b77ccc3ccad0caf7a71e1ca76fa65072e8210fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 31/36] fix: the statistics of a warm start abandoned while
 factoring were uninitialized

---
 conex/cone_program.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 5373a5e..ef65fff 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -384,6 +384,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         PRINTSTATUS("Aborting warmstart...");
         SetIdentity(&prog.constraints_);
         warmstart_aborted = true;
+        prog.stats->sqrt_inv_mu[i] = newton_step_parameters.inv_sqrt_mu;
         continue;
       }
       prog.status_.solved = 0;
-- 
2.43.0


From c4e6072278ccca5543818534bcd7300e8deee0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:30 +0000
Subject: [PATCH 32/36] fix: a failed line search reported no iterations after
 completing some

---
 conex/cone_program.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index ef65fff..8864662 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -409,6 +409,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       if (temp < 0) {
         if (prog.contains_quadratic_costs_) {
           std::cerr << "Solver terminating with error: line-search failed.\n";
+          prog.status_.num_iterations = prog.stats->num_iter;
           return prog.status_.solved;
         }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
-- 
2.43.0


From 9beb2e07ce41a35de89c1585895a93f826ef12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 33/36] Revert "fix: a failed line search reported no
 iterations after completing some"

This reverts commit c4e6072278ccca5543818534bcd7300e8deee0cb.
---
 conex/cone_program.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 8864662..ef65fff 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -409,7 +409,6 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       if (temp < 0) {
         if (prog.contains_quadratic_costs_) {
           std::cerr << "Solver terminating with error: line-search failed.\n";
-          prog.status_.num_iterations = prog.stats->num_iter;
           return prog.status_.solved;
         }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
-- 
2.43.0


From dd571a2cc63d680db37e44c0fb64118028b884cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:36 +0000
Subject: [PATCH 34/36] fix: line search of rows that do not depend on the
 weight

---
 conex/linear_constraint.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index 90cc1e7..57e84ff 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -57,7 +57,16 @@ bool FindMinimumMu(const T& d0, const T& delta, double dinfmax,
   double temp;
   int i = 0;
 
+  upper_bound = std::numeric_limits<double>::max();
+  lower_bound = -std::numeric_limits<double>::max();
   for (i = 0; i < d0.size(); i++) {
+    if (delta(i) == 0) {
+      // All weights are admissible for this row, or none.
+      if (!(std::fabs(d0(i)) <= dinfmax)) {
+        return false;
+      }
+      continue;
+    }
     upper_bound_i = (dinfmax - d0(i)) / delta(i);
     lower_bound_i = (-dinfmax - d0(i)) / delta(i);
 
-- 
2.43.0


From f1b714bcb24c0afb2b8c8d0ae4602abd88d4ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:42 +0000
Subject: [PATCH 35/36] fix: diagonal semidefinite constraints: eigenvalues
 missed when the barrier parameter is selected

---
 conex/psd_constraint.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 1a8dc05..61aaaed 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -132,6 +132,16 @@ void GetWeightedSlackEigenvalues(PsdConstraint* o, const Ref& y,
   WSWS = WS * WS;
   p->frobenius_norm_squared = WSWS.trace();
   p->trace = -WS.trace();
+
+  // The heuristic finds a single eigenvalue if it starts from an eigenvector.
+  // The mean and the variance of the spectrum bound what it misses.
+  const double mean = p->trace / n;
+  const double variance = p->frobenius_norm_squared / n - mean * mean;
+  if (gw_eig.rows() == 1 && variance > .1 * mean * mean) {
+    const double spread = std::sqrt(variance / (n - 1));
+    p->lambda_max = std::max(p->lambda_max, mean + spread);
+    p->lambda_min = std::min(p->lambda_min, mean - spread);
+  }
 }
 
 }  // namespace conex
-- 
2.43.0


From 38c2d5e074b1a02518faadc0ea86ec7a44d33cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:25 +0000
Subject: [PATCH 36/36] fix: semidefinite constraints whose slack has a zero
 column made the estimate of the eigenvalues NaN

---
 conex/approximate_eigenvalues.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conex/approximate_eigenvalues.cc b/conex/approximate_eigenvalues.cc
index 517a927..2355024 100644
--- a/conex/approximate_eigenvalues.cc
+++ b/conex/approximate_eigenvalues.cc
@@ -203,7 +203,10 @@ Eigen::VectorXd AsymmetricLanczos(const MatrixXd& WS, const MatrixXd& W,
 
   // Execute the three term recurrence (equivalent to Gram-Schmidt):
   V.col(1) = r;
-  V.col(0) = W * r;
+  if (V.col(1).isZero(0)) {
+    V.col(1).setOnes();
+  }
+  V.col(0) = W * V.col(1);
   V = V / std::sqrt(inner_product(V, V));
   Vprev = V;
 
-- 
2.43.0

