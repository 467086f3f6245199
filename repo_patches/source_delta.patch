From d668adc20d72f642faa7787394ed1db38fcd44b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 01/23] fix: compute Runge-Kutta stage times from the stages
 they belong to

The intermediate-time coefficients were accumulated without the last stage's
own contribution, so every multi-stage scheme reported wrong stage times (the
second stage of SSP(2,2) was evaluated at the start of the step) and dropped
to first order for time-dependent forcing.
---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..f796085 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,10 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From a03ff4a7e87842695144351f32a9316b7d92009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 02/23] fix: treat ADCIRC island boundaries as land instead of
 failing to find them

---
 source/preprocessor/ADCIRC_reader/adcirc_format.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 0f992dc..285f845 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -223,6 +223,15 @@ SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) cons
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::land;
             }
+        } else if (this->IBTYPE[segment_id] % 10 == 1) {
+            // islands are closed loops, whose first node need not be repeated at the end
+            const std::vector<uint>& island = this->NBVV[segment_id];
+            const std::vector<uint> closure{island.back(), island.front()};
+
+            if (has_edge(island.cbegin(), island.cend(), node_pair) ||
+                has_edge(closure.cbegin(), closure.cend(), node_pair)) {
+                return SWE::BoundaryTypes::land;
+            }
         } else if (this->IBTYPE[segment_id] % 10 == 2) {
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::flow;
-- 
2.43.0


From e6760aaf525d7f16b61d4fb3a6d7280bcfd692d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 03/23] fix: keep IHDG bottom friction Jacobian finite for
 fluid at rest

---
 .../kernels_processor/ihdg_swe_proc_source.hpp       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..4fe4dd0 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -47,18 +47,22 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
                 }
             }
 
-            double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            const double h     = internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+            const double speed = std::hypot(u, v);
+
+            double bottom_friction_stress = Cf * speed / h;
+            // C multiplies products of velocities, i.e. the terms with it vanish for fluid at rest
+            double C = speed > 0.0 ? Cf / (speed * h) : 0.0;
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qx, gp);
+                dCf_dze * speed / h * internal.q_at_gp(SWE::Variables::qx, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qx_qx, gp) -= bottom_friction_stress + C * u * u;
             internal.dsource_dq_at_gp(JacobianVariables::qx_qy, gp) -= C * u * v;
 
             internal.dsource_dq_at_gp(JacobianVariables::qy_ze, gp) -=
                 -2.0 * bottom_friction_stress * v +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qy, gp);
+                dCf_dze * speed / h * internal.q_at_gp(SWE::Variables::qy, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qy_qx, gp) -= C * u * v;
             internal.dsource_dq_at_gp(JacobianVariables::qy_qy, gp) -= bottom_friction_stress + C * v * v;
         }
-- 
2.43.0


From 2f5e1be53a260420bcfbc8638d4993d754681e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 04/23] fix: initialise the generic boundary counts of ADCIRC
 meshes without such boundaries

---
 source/preprocessor/ADCIRC_reader/adcirc_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 6f2fc79..c706c39 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -28,8 +28,8 @@ struct AdcircFormat {
     std::map<uint, std::vector<double>> BARINCFSB;  // for internal barrier segment k
     std::map<uint, std::vector<double>> BARINCFSP;  // for internal barrier segment k
 
-    uint NGEN;  // number of generic boundaries
-    uint NNGN;  // total number of nodes for generic boundaries
+    uint NGEN = 0;  // number of generic boundaries
+    uint NNGN = 0;  // total number of nodes for generic boundaries
 
     std::vector<std::vector<uint>> NBGN;  // node numbers for a segment of generic boundary
 
-- 
2.43.0


From 99a1147d5ad0edb08e4c5bfb84d3a380984f8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 05/23] fix: skip blank lines in boundary condition files

---
 source/problem/SWE/problem_input/swe_inputs.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 52bd756..66d3a22 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -223,7 +223,10 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
     while (std::getline(file, line)) {
         stream = std::stringstream(line);
-        stream >> btype >> nnodes;
+
+        if (!(stream >> btype >> nnodes)) {
+            continue;  // blank line
+        }
 
         if (btype == SWE::BoundaryTypes::tide) {
             TideBoundary tide_bound;
-- 
2.43.0


From 45ef4ae0dad309d2caefb1d208198d8271ab0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 06/23] fix: take IHDG tide and flow forcing phases in degrees
 at the next stage too

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From ff03a0e1642f5e560179cc6d2b11adf9dfb2443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 07/23] fix: solve consistent singular sparse systems as dense
 ones are

---
 source/utilities/linear_algebra/use_eigen.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/utilities/linear_algebra/use_eigen.hpp b/source/utilities/linear_algebra/use_eigen.hpp
index b024728..091e130 100644
--- a/source/utilities/linear_algebra/use_eigen.hpp
+++ b/source/utilities/linear_algebra/use_eigen.hpp
@@ -216,7 +216,13 @@ void solve_sle(SparseMatrix<T>& A_sparse, ArrayType& B) {
     Eigen::SparseLU<SparseMatrix<T>> solver;
     solver.analyzePattern(A_sparse);
     solver.factorize(A_sparse);
-    B = solver.solve(B);
+
+    if (solver.info() == Eigen::Success) {
+        B = solver.solve(B);
+    } else {  // singular matrix, as the full pivoting of dense systems return a solution of the consistent equations
+        Eigen::SparseQR<SparseMatrix<T>, Eigen::COLAMDOrdering<int>> qr_solver(A_sparse);
+        B = qr_solver.solve(B);
+    }
 }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 6d97c4fad03804b397305a315475da3fd467a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 08/23] fix: include the dependence of tide and flow far-field
 states on the interior in the IHDG Newton matrix

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp               | 6 +++++-
 .../boundary_conditions/ihdg_swe_bc_tide.hpp               | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index 4f36ea7..27708c0 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -182,7 +182,11 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
         column(dB_dq_hat, SWE::Variables::qy) +=
             this->dAplus_dqy[gp] * (q - q_hat) - this->dAminus_dqy[gp] * (q_inf - q_hat);
 
-        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(this->Aplus[gp]);
+        StatMatrix<double, SWE::n_variables, SWE::n_variables> dB_dq = this->Aplus[gp];
+
+        column(dB_dq, SWE::Variables::ze) -= column(this->Aminus[gp], SWE::Variables::ze);
+
+        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(dB_dq);
         column(edge_internal.delta_hat_global_kernel_at_gp, gp) = flatten<double>(dB_dq_hat);
         column(edge_internal.rhs_global_kernel_at_gp, gp) =
             this->Aplus[gp] * (q - q_hat) - this->Aminus[gp] * (q_inf - q_hat);
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 89c7a82..e6999bc 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -174,7 +174,12 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
         column(dB_dq_hat, SWE::Variables::qy) +=
             this->dAplus_dqy[gp] * (q - q_hat) - this->dAminus_dqy[gp] * (q_inf - q_hat);
 
-        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(this->Aplus[gp]);
+        StatMatrix<double, SWE::n_variables, SWE::n_variables> dB_dq = this->Aplus[gp];
+
+        column(dB_dq, SWE::Variables::qx) -= column(this->Aminus[gp], SWE::Variables::qx);
+        column(dB_dq, SWE::Variables::qy) -= column(this->Aminus[gp], SWE::Variables::qy);
+
+        column(boundary.delta_global_kernel_at_gp, gp)          = flatten<double>(dB_dq);
         column(edge_internal.delta_hat_global_kernel_at_gp, gp) = flatten<double>(dB_dq_hat);
         column(edge_internal.rhs_global_kernel_at_gp, gp) =
             this->Aplus[gp] * (q - q_hat) - this->Aminus[gp] * (q_inf - q_hat);
-- 
2.43.0


From 68666551ac52afedc1351113362ff21721a65256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 09/23] fix: apply the spherical projection factor to the
 exterior side of the LLF flux and to the hydrostatic source

---
 .../kernels_processor/rkdg_swe_proc_source.hpp             | 7 +++++++
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                 | 6 +++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
index ab7dbb2..c341adc 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
@@ -13,6 +13,13 @@ void Problem::source_kernel(const ProblemStepperType& stepper, ElementType& elt)
 
         SWE::get_source(stepper.GetTimeAtCurrentStage(), elt);
 
+        // Spherical projection of the hydrostatic pressure contribution
+        for (uint gp = 0; gp < columns(internal.source_at_gp); ++gp) {
+            internal.source_at_gp(SWE::Variables::qx, gp) +=
+                Global::g * (internal.aux_at_gp(SWE::Auxiliaries::sp, gp) - 1.0) *
+                internal.db_at_gp(GlobalCoord::x, gp) * internal.q_at_gp(SWE::Variables::ze, gp);
+        }
+
         state.rhs += elt.IntegrationPhi(internal.source_at_gp);
     }
 }
diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From 4dee94547cfbcf430b2eb7320089ada6977b6641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:38 +0000
Subject: [PATCH 10/23] fix: land walls and levees below crest reflect the
 projected mass flux, so that they do not leak with spherical projection

---
 .../boundary_conditions/rkdg_swe_bc_land.hpp  | 41 +++++++------------
 .../rkdg_swe_dbc_distributed_levee.hpp        |  6 ++-
 .../rkdg_swe_is_levee.hpp                     |  7 +++-
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
index 8bce928..aac946a 100644
--- a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
+++ b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
@@ -24,6 +24,7 @@ class Land {
 
     void GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+               const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                Column<HybMatrix<double, SWE::n_variables>>&& q_ex);
 };
 
@@ -41,21 +42,12 @@ template <typename StepperType, typename BoundaryType>
 void Land::ComputeFlux(const StepperType& stepper, BoundaryType& bound) {
     auto& boundary = bound.data.boundary[bound.bound_id];
 
-    auto n_x = row(bound.surface_normal, GlobalCoord::x);
-    auto n_y = row(bound.surface_normal, GlobalCoord::y);
-    auto t_x = -n_y;
-    auto t_y = n_x;
-
-    auto qn_ex = -(vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), n_x) +
-                   vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), n_y));
-    auto qt_ex = vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), t_x) +
-                 vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), t_y);
-
-    row(this->q_ex, SWE::Variables::ze) = row(boundary.q_at_gp, SWE::Variables::ze);
-    row(this->q_ex, SWE::Variables::qx) = vec_cw_mult(qn_ex, n_x) + vec_cw_mult(qt_ex, t_x);
-    row(this->q_ex, SWE::Variables::qy) = vec_cw_mult(qn_ex, n_y) + vec_cw_mult(qt_ex, t_y);
-
     for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
+        this->GetEX(column(bound.surface_normal, gp),
+                    column(boundary.q_at_gp, gp),
+                    column(boundary.aux_at_gp, gp),
+                    column(this->q_ex, gp));
+
         LLF_flux(Global::g,
                  column(boundary.q_at_gp, gp),
                  column(this->q_ex, gp),
@@ -70,28 +62,25 @@ void Land::ComputeFlux(const Column<HybMatrix<double, SWE::n_dimensions>>& surfa
                        const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                        Column<HybMatrix<double, SWE::n_variables>>&& F_hat) {
     // *** //
-    double n_x = surface_normal[GlobalCoord::x];
-    double n_y = surface_normal[GlobalCoord::y];
-    double t_x = -n_y;
-    double t_y = n_x;
-
-    double qn_ex = -(q_in[SWE::Variables::qx] * n_x + q_in[SWE::Variables::qy] * n_y);
-    double qt_ex = q_in[SWE::Variables::qx] * t_x + q_in[SWE::Variables::qy] * t_y;
-
-    this->q_ex(SWE::Variables::ze, 0) = q_in[SWE::Variables::ze];
-    this->q_ex(SWE::Variables::qx, 0) = qn_ex * n_x + qt_ex * t_x;
-    this->q_ex(SWE::Variables::qy, 0) = qn_ex * n_y + qt_ex * t_y;
+    this->GetEX(surface_normal, q_in, aux_in, column(this->q_ex, 0));
 
     LLF_flux(Global::g, q_in, column(this->q_ex, 0), aux_in, surface_normal, std::move(F_hat));
 }
 
 void Land::GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                  const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+                 const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                  Column<HybMatrix<double, SWE::n_variables>>&& q_ex) {
     double n_x, n_y, t_x, t_y, qn_in, qt_in, qn_ex, qt_ex;
 
-    n_x = surface_normal[GlobalCoord::x];
+    // With spherical projection the mass flux through the wall is q_in * (sp * n_x, n_y)
+    n_x = aux_in[SWE::Auxiliaries::sp] * surface_normal[GlobalCoord::x];
     n_y = surface_normal[GlobalCoord::y];
+
+    double n_norm = std::hypot(n_x, n_y);
+    n_x /= n_norm;
+    n_y /= n_norm;
+
     t_x = -n_y;
     t_y = n_x;
 
diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..ebc3d6d 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -100,8 +100,10 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary
-            this->land_boundary.GetEX(
-                column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
+            this->land_boundary.GetEX(column(dbound.surface_normal, gp),
+                                      column(boundary.q_at_gp, gp),
+                                      column(boundary.aux_at_gp, gp),
+                                      column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..9c4a20f 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -90,12 +90,15 @@ void Levee::ComputeFlux(InterfaceType& intface) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary in
-            this->land_boundary.GetEX(
-                column(intface.surface_normal_in, gp), column(boundary_in.q_at_gp, gp), column(this->q_in_ex, gp));
+            this->land_boundary.GetEX(column(intface.surface_normal_in, gp),
+                                      column(boundary_in.q_at_gp, gp),
+                                      column(boundary_in.aux_at_gp, gp),
+                                      column(this->q_in_ex, gp));
 
             // reflective boundary ex
             this->land_boundary.GetEX(column(intface.surface_normal_ex, gp_ex),
                                       column(boundary_ex.q_at_gp, gp_ex),
+                                      column(boundary_ex.aux_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
-- 
2.43.0


From 2d93a9e54775bebd46b82eeb09828a89d82019f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:03 +0000
Subject: [PATCH 11/23] fix: the discontinuity detector tests the inflow with
 the discharge, not with the elevation

---
 .../SWE/problem_slope_limiter/swe_trouble_check.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
index 774b1ef..b9b9704 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
@@ -27,12 +27,12 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
                 row(boundary_ex.q_at_gp, SWE::Variables::ze) + row(boundary_ex.aux_at_gp, SWE::Auxiliaries::bath);
 
             const auto qn_in =
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, SWE::Variables::qy));
 
             const auto qn_ex =
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, SWE::Variables::qy));
 
             if (intface.IntegrationIN(qn_in) < 0.0) {
                 const uint ngp                              = intface.data_in.get_ngp_boundary(intface.bound_id_in);
@@ -66,8 +66,8 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
 
         if (dbound.data.wet_dry_state.wet) {
             const auto qn =
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, SWE::Variables::qy));
 
             if (dbound.Integration(qn) < 0.0) {
                 const uint ngp                       = dbound.data.get_ngp_boundary(dbound.bound_id);
-- 
2.43.0


From 74e2d2b37ad1f8418720fac364c5685ea51394ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 12/23] fix: do not take an extra time step when a duration is
 a multiple of the step size up to rounding [P21]

---
 source/preprocessor/input_parameters.hpp      |  8 +++---
 .../problem/SWE/problem_parser/swe_parser.hpp |  2 +-
 source/simulation/ompi/simulation_ompi.hpp    |  2 +-
 source/simulation/serial/simulation.hpp       |  2 +-
 source/utilities/count_steps.hpp              | 25 +++++++++++++++++++
 5 files changed, 33 insertions(+), 6 deletions(-)
 create mode 100644 source/utilities/count_steps.hpp

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index d629893..12f5572 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -4,6 +4,8 @@
 #include "general_definitions.hpp"
 #include <yaml-cpp/yaml.h>
 
+#include "utilities/count_steps.hpp"
+
 #include "ADCIRC_reader/adcirc_format.hpp"
 #include "mesh_metadata.hpp"
 
@@ -227,7 +229,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtk_output   = true;
                 this->writer_input.vtk_output_frequency = out_node["vtk"]["frequency"].as<double>();
                 this->writer_input.vtk_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtk_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.vtk_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: VTK YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -239,7 +241,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtu_output   = true;
                 this->writer_input.vtu_output_frequency = out_node["vtu"]["frequency"].as<double>();
                 this->writer_input.vtu_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtu_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.vtu_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: VTU YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -251,7 +253,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_modal_output   = true;
                 this->writer_input.modal_output_frequency = out_node["modal"]["frequency"].as<double>();
                 this->writer_input.modal_output_freq_step =
-                    (uint)std::ceil(this->writer_input.modal_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.modal_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: Modal YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 31b6b55..a407861 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -39,7 +39,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
         this->parsing_input = true;
 
         this->meteo_parse_frequency =
-            (uint)std::ceil(input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
+            Utilities::count_steps(input.problem_input.meteo_forcing.frequency, input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
     }
 }
diff --git a/source/simulation/ompi/simulation_ompi.hpp b/source/simulation/ompi/simulation_ompi.hpp
index c5bd340..8431209 100644
--- a/source/simulation/ompi/simulation_ompi.hpp
+++ b/source/simulation/ompi/simulation_ompi.hpp
@@ -34,7 +34,7 @@ OMPISimulation<ProblemType>::OMPISimulation(const std::string& input_string) {
 
     InputParameters<typename ProblemType::ProblemInputType> input(input_string);
 
-    this->n_steps = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
+    this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->stepper = typename ProblemType::ProblemStepperType(input.stepper_input);
 
diff --git a/source/simulation/serial/simulation.hpp b/source/simulation/serial/simulation.hpp
index 124e58e..e2a612e 100644
--- a/source/simulation/serial/simulation.hpp
+++ b/source/simulation/serial/simulation.hpp
@@ -44,7 +44,7 @@ Simulation<ProblemType>::Simulation(const std::string& input_string) {
 
     ProblemType::preprocess_mesh_data(input);
 
-    this->n_steps = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
+    this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->discretization.mesh = typename ProblemType::ProblemMeshType(input.polynomial_order);
     this->stepper             = typename ProblemType::ProblemStepperType(input.stepper_input);
diff --git a/source/utilities/count_steps.hpp b/source/utilities/count_steps.hpp
new file mode 100644
index 0000000..6f9c399
--- /dev/null
+++ b/source/utilities/count_steps.hpp
@@ -0,0 +1,25 @@
+#ifndef COUNT_STEPS_HPP
+#define COUNT_STEPS_HPP
+
+#include "general_definitions.hpp"
+#include "utilities/almost_equal.hpp"
+
+namespace Utilities {
+/**
+ * Number of time steps needed to cover a duration.
+ * A duration that is a multiple of the step size up to rounding takes exactly that many steps, e.g. 30 steps of 0.7s
+ * for 21s, although 21 / 0.7 > 30 in double precision.
+ *
+ * @param duration
+ * @param dt size of a step
+ * @return least number of steps, which last as long as the duration
+ */
+inline uint count_steps(double duration, double dt) {
+    const double n_steps = duration / dt;
+    const double nearest = std::round(n_steps);
+
+    return (uint)(almost_equal(n_steps, nearest) ? nearest : std::ceil(n_steps));
+}
+}
+
+#endif
-- 
2.43.0


From 561439733f2811a7c130ef0099223f9ac1157f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 13/23] fix: the EHDG flux into a dry element drops gravity
 from the stabilisation too

get_tau_LF(gravity, ...) ignored its argument and used the global gravity, so the
momentum flux 'without gravity' still carried the wave-speed term.
---
 .../SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
index abf025b..f3ae417 100644
--- a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
+++ b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
@@ -35,7 +35,7 @@ void get_tau_LF(double gravity,
     double nx = surface_normal[GlobalCoord::x];
     double ny = surface_normal[GlobalCoord::y];
 
-    double c  = std::sqrt(Global::g * h);
+    double c  = std::sqrt(gravity * h);
     double un = u * nx + v * ny;
 
     tau = (c + std::abs(un)) * IdentityMatrix<double>(3);
-- 
2.43.0


From 473e0a855b15b3fe5f9253cb1bd8c487222c0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 14/23] fix: start the EHDG open boundary trace iteration from
 the interior trace

The iteration started from a zero state: where the bed lies above the datum the
depth of that state is negative and the first step ended with NaN.
---
 .../boundary_conditions/compute_bc_trace.hpp                   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp b/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
index 7e106ad..6200254 100644
--- a/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
+++ b/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
@@ -14,6 +14,9 @@ void compute_bc_trace(EdgeBoundaryType& edge_bound) {
     auto& aux_hat_at_gp  = edge_internal.aux_hat_at_gp;
     auto& surface_normal = edge_bound.boundary.surface_normal;
 
+    // start from the interior trace
+    edge_state.q_hat = edge_bound.L2Projection(boundary.q_at_gp);
+
     uint iter = 0;
     while (iter != 100) {
         edge_internal.q_hat_at_gp = edge_bound.ComputeUgp(edge_state.q_hat);
-- 
2.43.0


From dfb24e1b61455246f38d40ae34080e0841f90cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 15/23] fix: accept submeshes without neighbors in distributed
 runs

---
 source/communication/ompi_communicator.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..9b96928 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,11 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    // a submesh without neighbors has nothing to exchange
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +64,34 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0


From a0165459e7383c6b7e49bb124282dc24ce21f65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 16/23] fix: send the depth of dry elements to the trouble
 check of a neighboring submesh

---
 .../problem_slope_limiter/swe_CS_slope_limiter.hpp  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
index 347a497..429dc46 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
@@ -58,15 +58,16 @@ void slope_limiting_distributed_boundary_send_kernel(const StepperType& stepper,
     std::vector<double> message(1 + SWE::n_variables + ngp);
     message[0] = (double)wd_state.wet;
     if (wd_state.wet) {
-        boundary.q_at_gp = dbound.ComputeUgp(state.q);
-        row(boundary.aux_at_gp, SWE::Auxiliaries::h) =
-            row(boundary.q_at_gp, SWE::Variables::ze) + row(boundary.aux_at_gp, SWE::Auxiliaries::bath);
         for (uint var = 0; var < SWE::n_variables; ++var) {
             message[1 + var] = sl_state.q_at_baryctr[var];
         }
-        for (uint gp = 0; gp < ngp; ++gp) {
-            message[1 + SWE::n_variables + gp] = boundary.aux_at_gp(SWE::Auxiliaries::h, gp);
-        }
+    }
+    // the trouble check of a wet neighbor uses the depth of dry elements too
+    boundary.q_at_gp = dbound.ComputeUgp(state.q);
+    row(boundary.aux_at_gp, SWE::Auxiliaries::h) =
+        row(boundary.q_at_gp, SWE::Variables::ze) + row(boundary.aux_at_gp, SWE::Auxiliaries::bath);
+    for (uint gp = 0; gp < ngp; ++gp) {
+        message[1 + SWE::n_variables + gp] = boundary.aux_at_gp(SWE::Auxiliaries::h, gp);
     }
     dbound.boundary_condition.exchanger.SetToSendBuffer(comm_type, message);
 }
-- 
2.43.0


From b1c0907e0da2996cef24ab18a85c1a1eea78a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 17/23] fix: spread the trouble check of the slope limiter
 across submesh boundaries

---
 .../swe_data_slope_limit.hpp                  |  3 +-
 .../problem_slope_limiter/swe_CS_sl_ompi.hpp  | 75 +++++++++++++++++--
 .../swe_trouble_check.hpp                     | 35 ++++++---
 3 files changed, 97 insertions(+), 16 deletions(-)

diff --git a/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp b/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp
index 406885d..a31e5e3 100644
--- a/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp
+++ b/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp
@@ -28,7 +28,8 @@ struct SlopeLimit {
 
     std::vector<double> lengths;
     double radius;
-    bool troubled    = false;
+    bool troubled         = false;
+    bool in_troubled_area = false;
     double perimeter = 0.0;
     double I         = 0.0;
     std::vector<DynRowVector<double>> hdif_at_gp;
diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp
index 8c1ad14..f4d45a9 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp
@@ -6,6 +6,62 @@
 #include "swe_trouble_check.hpp"
 
 namespace SWE {
+// One pass of spread_trouble over all submeshes: the area moves across the boundaries between them
+template <typename StepperType, typename OMPISimUnitType>
+void spread_trouble_ompi(StepperType& stepper,
+                         std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units,
+                         const uint begin_sim_id,
+                         const uint end_sim_id,
+                         uint comm_type,
+                         std::vector<std::set<uint>>& troubled_area) {
+    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+        sim_units[su_id]->communicator.ReceiveAll(comm_type, stepper.GetTimestamp());
+
+        auto& area = troubled_area[su_id];
+
+        sim_units[su_id]->discretization.mesh.CallForEachElement([&area](auto& elt) {
+            elt.data.slope_limit_state.in_troubled_area = (area.find(elt.GetID()) != area.end());
+        });
+
+        sim_units[su_id]->discretization.mesh.CallForEachDistributedBoundary([comm_type](auto& dbound) {
+            std::vector<double> message(1, (double)dbound.data.slope_limit_state.in_troubled_area);
+            dbound.boundary_condition.exchanger.SetToSendBuffer(comm_type, message);
+        });
+
+        sim_units[su_id]->communicator.SendAll(comm_type, stepper.GetTimestamp());
+
+        spread_trouble(sim_units[su_id]->discretization, area);
+    }
+
+    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+        sim_units[su_id]->communicator.WaitAllReceives(comm_type, stepper.GetTimestamp());
+
+        auto& area = troubled_area[su_id];
+
+        sim_units[su_id]->discretization.mesh.CallForEachElement(
+            [](auto& elt) { elt.data.slope_limit_state.in_troubled_area = false; });
+
+        // elements reached from a neighboring submesh
+        sim_units[su_id]->discretization.mesh.CallForEachDistributedBoundary([comm_type](auto& dbound) {
+            std::vector<double> message(1);
+            dbound.boundary_condition.exchanger.GetFromReceiveBuffer(comm_type, message);
+            if (message[0] != 0.0) {
+                dbound.data.slope_limit_state.in_troubled_area = true;
+            }
+        });
+
+        sim_units[su_id]->discretization.mesh.CallForEachElement([&area](auto& elt) {
+            if (elt.data.slope_limit_state.in_troubled_area) {
+                area.insert(elt.GetID());
+            }
+        });
+    }
+
+    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+        sim_units[su_id]->communicator.WaitAllSends(comm_type, stepper.GetTimestamp());
+    }
+}
+
 template <typename StepperType, typename OMPISimUnitType>
 void CS_slope_limiter_ompi(StepperType& stepper,
                            std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units,
@@ -45,6 +101,9 @@ void CS_slope_limiter_ompi(StepperType& stepper,
         }
     }
 
+    // elements of each submesh the current pass of the trouble check marks
+    std::vector<std::set<uint>> troubled_area(sim_units.size());
+
     for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
         if (sim_units[su_id]->writer.WritingVerboseLog()) {
             sim_units[su_id]->writer.GetLogFile()
@@ -61,8 +120,18 @@ void CS_slope_limiter_ompi(StepperType& stepper,
             slope_limiting_prepare_distributed_boundary_kernel(stepper, dbound, comm_type);
         });
 
-        check_trouble(sim_units[su_id]->discretization, stepper, comm_type);
+        troubled_area[su_id] = detect_trouble(sim_units[su_id]->discretization, stepper, comm_type);
+    }
+
+    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+        sim_units[su_id]->communicator.WaitAllSends(comm_type, stepper.GetTimestamp());
+    }
+
+    for (uint pass = 0; pass < n_trouble_passes; ++pass) {
+        spread_trouble_ompi(stepper, sim_units, begin_sim_id, end_sim_id, comm_type, troubled_area);
+    }
 
+    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
         sim_units[su_id]->discretization.mesh.CallForEachElement(
             [&stepper](auto& elt) { slope_limiting_kernel(stepper, elt); });
 
@@ -71,10 +140,6 @@ void CS_slope_limiter_ompi(StepperType& stepper,
                                                   << std::endl;
         }
     }
-
-    for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
-        sim_units[su_id]->communicator.WaitAllSends(comm_type, stepper.GetTimestamp());
-    }
 }
 }
 
diff --git a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
index b9b9704..33301e9 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
@@ -3,7 +3,7 @@
 
 namespace SWE {
 template <typename DiscretizationType, typename StepperType>
-void check_trouble(DiscretizationType& discretization, const StepperType& stepper, uint comm_type) {
+std::set<uint> detect_trouble(DiscretizationType& discretization, const StepperType& stepper, uint comm_type) {
     discretization.mesh.CallForEachElement([&stepper](auto& elt) {
         elt.data.slope_limit_state.I         = 0.0;
         elt.data.slope_limit_state.perimeter = 0.0;
@@ -103,15 +103,30 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
         }
     });
 
-    for (uint pass = 0; pass < 6; ++pass) {
-        std::set<uint> troubled_area_new;
-        discretization.mesh.CallForEachElement([&troubled_area, &troubled_area_new](auto& elt) {
-            if (troubled_area.find(elt.GetID()) != troubled_area.end()) {
-                elt.data.slope_limit_state.troubled = true;
-                troubled_area_new.insert(elt.GetNeighborID().begin(), elt.GetNeighborID().end());
-            }
-        });
-        troubled_area = troubled_area_new;
+    return troubled_area;
+}
+
+// Marks the elements of the troubled area and moves the area on to their neighbors
+template <typename DiscretizationType>
+void spread_trouble(DiscretizationType& discretization, std::set<uint>& troubled_area) {
+    std::set<uint> troubled_area_new;
+    discretization.mesh.CallForEachElement([&troubled_area, &troubled_area_new](auto& elt) {
+        if (troubled_area.find(elt.GetID()) != troubled_area.end()) {
+            elt.data.slope_limit_state.troubled = true;
+            troubled_area_new.insert(elt.GetNeighborID().begin(), elt.GetNeighborID().end());
+        }
+    });
+    troubled_area = troubled_area_new;
+}
+
+constexpr uint n_trouble_passes = 6;
+
+template <typename DiscretizationType, typename StepperType>
+void check_trouble(DiscretizationType& discretization, const StepperType& stepper, uint comm_type) {
+    std::set<uint> troubled_area = detect_trouble(discretization, stepper, comm_type);
+
+    for (uint pass = 0; pass < n_trouble_passes; ++pass) {
+        spread_trouble(discretization, troubled_area);
     }
 }
 }
-- 
2.43.0


From 5d4a86d3e1573b412a971ec4763f59f531e0534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 18/23] fix: accept elements whose nodes an ADCIRC mesh lists
 clockwise

---
 source/preprocessor/mesh_metadata.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 337a1dc..cadeb95 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -23,8 +23,19 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
         uint ID = elt.first;
         this->elements.insert({ID, ElementMetaData(3)});
 
+        std::vector<uint>& node_ID = this->elements.at(ID).node_ID;
         for (uint i = 0; i < 3; ++i) {
-            this->elements.at(ID).node_ID[i] = elt.second[i + 1];
+            node_ID[i] = elt.second[i + 1];
+        }
+
+        // edges, neighbors and shape functions all assume counter-clockwise nodes
+        const Point<3>& a = this->nodes.at(node_ID[0]).coordinates;
+        const Point<3>& b = this->nodes.at(node_ID[1]).coordinates;
+        const Point<3>& c = this->nodes.at(node_ID[2]).coordinates;
+        if ((b[GlobalCoord::x] - a[GlobalCoord::x]) * (c[GlobalCoord::y] - a[GlobalCoord::y]) -
+                (c[GlobalCoord::x] - a[GlobalCoord::x]) * (b[GlobalCoord::y] - a[GlobalCoord::y]) <
+            0.0) {
+            std::swap(node_ID[0], node_ID[2]);
         }
     }
 
@@ -33,7 +44,7 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
     std::unordered_map<std::uint64_t, std::pair<eltID_faceID, eltID_faceID>> edge_dictionary;
 
     for (const auto& elt : mesh_file.elements) {
-        std::vector<uint> node{elt.second[1], elt.second[2], elt.second[3]};
+        const std::vector<uint>& node = this->elements.at(elt.first).node_ID;
 
         for (uint k = 0; k < 3; ++k) {
             std::uint64_t curr_key = static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 32 |
@@ -66,8 +77,8 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
             uint elt_id  = edge.second.first.first;
             uint face_id = edge.second.first.second;
 
-            std::array<uint, 2> nodes{mesh_file.elements.at(elt_id)[(face_id + 1) % 3 + 1],
-                                      mesh_file.elements.at(elt_id)[(face_id + 2) % 3 + 1]};
+            std::array<uint, 2> nodes{this->elements.at(elt_id).node_ID[(face_id + 1) % 3],
+                                      this->elements.at(elt_id).node_ID[(face_id + 2) % 3]};
 
             this->elements.at(elt_id).neighbor_ID[face_id]   = DEFAULT_ID;
             this->elements.at(elt_id).boundary_type[face_id] = mesh_file.get_ibtype(nodes);
-- 
2.43.0


From 8438998a5777d42a1fe56dbd1ae1653184421411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 19/23] fix: include the bed slope source in the IHDG Newton
 matrix

---
 .../kernels_processor/ihdg_swe_proc_source.hpp                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index 4fe4dd0..c386512 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -26,6 +26,10 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
 
     set_constant(internal.dsource_dq_at_gp, 0.0);
 
+    // hydrostatic pressure on the bed
+    row(internal.dsource_dq_at_gp, JacobianVariables::qx_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::x);
+    row(internal.dsource_dq_at_gp, JacobianVariables::qy_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::y);
+
     if (SWE::SourceTerms::bottom_friction) {
         double Cf      = SWE::SourceTerms::Cf;
         double dCf_dze = 0.0;
-- 
2.43.0


From 5ea519103a30df6eb01d745d9df48e6d99fbe101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 20/23] fix: sign of the bed gradient in the depth gradient of
 the dispersive source

---
 .../kernels_processor/ehdg_gn_proc_source.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
index aa37de5..55a18e3 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
@@ -25,8 +25,8 @@ void Problem::local_dc_source_kernel(const ESSPRKStepper& stepper, ElementType&
         const auto zex = elt.ComputeUgp(row(state.dze, GlobalCoord::x));
         const auto zey = elt.ComputeUgp(row(state.dze, GlobalCoord::y));
 
-        const auto hx = zex + bx;
-        const auto hy = zey + by;
+        const auto hx = zex - bx;
+        const auto hy = zey - by;
 
         const auto u = row(internal.u_at_gp, GlobalCoord::x);
         const auto v = row(internal.u_at_gp, GlobalCoord::y);
-- 
2.43.0


From 4f603c7c12e838d9bf32e619a7d0561b9d374114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 21/23] fix: Green-Naghdi runs with edges between dry elements
 or with no wet element

---
 .../ehdg_gn_proc_ompi_sol_glob_prob.hpp              | 12 ++++++++++++
 .../ehdg_gn_proc_serial_sol_glob_prob.hpp            | 11 ++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index de2db49..83e57f6 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -327,6 +327,10 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
 
     for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeInterface([&global_data](auto& edge_int) {
+            // edges between dry elements are not part of the global problem
+            if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+                return;
+
             auto& edge_internal = edge_int.edge_data.edge_internal;
             auto& internal_in   = edge_int.interface.data_in.internal;
             auto& internal_ex   = edge_int.interface.data_ex.internal;
@@ -345,6 +349,10 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeBoundary([&global_data](auto& edge_bound) {
+            // edges between dry elements are not part of the global problem
+            if (!edge_bound.boundary.data.wet_dry_state.wet)
+                return;
+
             auto& edge_internal = edge_bound.edge_data.edge_internal;
             auto& internal      = edge_bound.boundary.data.internal;
             auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
@@ -358,6 +366,10 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeDistributed([&global_data](auto& edge_dbound) {
+            // edges between dry elements are not part of the global problem
+            if (!edge_dbound.boundary.data.wet_dry_state.wet)
+                return;
+
             auto& edge_internal = edge_dbound.edge_data.edge_internal;
             auto& internal      = edge_dbound.boundary.data.internal;
             auto& boundary      = edge_dbound.boundary.data.boundary[edge_dbound.boundary.bound_id];
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index dd220c1..c81eb26 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -182,9 +182,14 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
 
     sparse_w1_hat_w1_hat.get_sparse_matrix(w1_hat_w1_hat);
 
-    solve_sle(w1_hat_w1_hat, w1_hat_rhs);
+    if (rows(w1_hat_w1_hat) > 0)  // there are wet elements
+        solve_sle(w1_hat_w1_hat, w1_hat_rhs);
 
     discretization.mesh_skeleton.CallForEachEdgeInterface([&w1_hat_rhs](auto& edge_int) {
+        // edges between dry elements are not part of the global problem
+        if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+            return;
+
         auto& edge_internal = edge_int.edge_data.edge_internal;
         auto& internal_in   = edge_int.interface.data_in.internal;
         auto& internal_ex   = edge_int.interface.data_ex.internal;
@@ -200,6 +205,10 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
     });
 
     discretization.mesh_skeleton.CallForEachEdgeBoundary([&w1_hat_rhs](auto& edge_bound) {
+        // edges between dry elements are not part of the global problem
+        if (!edge_bound.boundary.data.wet_dry_state.wet)
+            return;
+
         auto& edge_internal = edge_bound.edge_data.edge_internal;
         auto& internal      = edge_bound.boundary.data.internal;
         auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
-- 
2.43.0


From e19144ce30e597279620f10434904f4adcba0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 22/23] fix: message tags of different submesh pairs coincided
 from submesh 256 of a locality on

---
 source/communication/ompi_communicator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 9b96928..7b34f14 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -10,9 +10,9 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
         rank_boundary.receive_rank = rb_meta_data.locality_ex;
 
         rank_boundary.send_tag =
-            (int)((unsigned short)rb_meta_data.submesh_in << 8 | (unsigned short)rb_meta_data.submesh_ex);
+            (int)((unsigned short)rb_meta_data.submesh_in << 15 | (unsigned short)rb_meta_data.submesh_ex);
         rank_boundary.receive_tag =
-            (int)((unsigned short)rb_meta_data.submesh_ex << 8 | (unsigned short)rb_meta_data.submesh_in);
+            (int)((unsigned short)rb_meta_data.submesh_ex << 15 | (unsigned short)rb_meta_data.submesh_in);
 
         this->rank_boundaries.push_back(std::move(rank_boundary));
     }
-- 
2.43.0


From 32015b9638c4621f53663801b0588d2117460dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:25 +0000
Subject: [PATCH 23/23] fix: a distributed run stopped by NaN ended with exit
 status 0

MPI_Abort was given the error code 0, which mpirun returns as its exit status.
---
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/ihdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/rkdg_swe_proc_ompi_step.hpp               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 22fe33c..7962d55 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -146,7 +146,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, MPI_ERR_OTHER);
         });
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
index 6e06743..9dede54 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
@@ -114,7 +114,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, MPI_ERR_OTHER);
         });
     }
 }
diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
index 4d00566..3b356f5 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
@@ -122,7 +122,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, MPI_ERR_OTHER);
         });
     }
 
-- 
2.43.0

