From 967ab023d9782552f61b11c8f7ef0b46d396e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 01/25] fix: evaluate Runge-Kutta stage times with the scheme's
 own abscissae

The loops computing crk/drk left out the diagonal coefficient and read the
wrong row, so every stage of every multi-stage scheme was evaluated at time t^n.
---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..f796085 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,10 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From d4575d7e049671d78583e53410809fb89a7d8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 02/25] fix: classify edges of island boundaries as land

Island sections (IBTYPE 1, 11, 21) were read but never looked up, so every mesh
with an island was rejected.
---
 source/preprocessor/ADCIRC_reader/adcirc_format.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 0f992dc..74e3482 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -223,6 +223,14 @@ SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) cons
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::land;
             }
+        } else if (this->IBTYPE[segment_id] % 10 == 1) {
+            // island boundaries are closed, the edge between last and first node need not be listed
+            const auto& island = this->NBVV[segment_id];
+            if (has_edge(island.cbegin(), island.cend(), node_pair) ||
+                (island.front() == node_pair[0] && island.back() == node_pair[1]) ||
+                (island.front() == node_pair[1] && island.back() == node_pair[0])) {
+                return SWE::BoundaryTypes::land;
+            }
         } else if (this->IBTYPE[segment_id] % 10 == 2) {
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::flow;
-- 
2.43.0


From 9fd5b85f4de715f1d874137dcbf3206aca53b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 03/25] fix: initialize generic boundary counts of meshes
 without generic boundaries

NGEN and NNGN stayed uninitialized when the optional section was absent, and
write_to then wrote garbage counts or ran past the end of NBGN.
---
 source/preprocessor/ADCIRC_reader/adcirc_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 6f2fc79..c706c39 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -28,8 +28,8 @@ struct AdcircFormat {
     std::map<uint, std::vector<double>> BARINCFSB;  // for internal barrier segment k
     std::map<uint, std::vector<double>> BARINCFSP;  // for internal barrier segment k
 
-    uint NGEN;  // number of generic boundaries
-    uint NNGN;  // total number of nodes for generic boundaries
+    uint NGEN = 0;  // number of generic boundaries
+    uint NNGN = 0;  // total number of nodes for generic boundaries
 
     std::vector<std::vector<uint>> NBGN;  // node numbers for a segment of generic boundary
 
-- 
2.43.0


From 746a07df0cc030d443c9262a960dc1a158568ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 04/25] fix: apply the spherical correction to both sides of
 the LLF flux

Only the interior flux carried the factor, so the numerical flux of two equal
states was not the physical flux when spherical projection was enabled.
---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From b9d49fac11ac79af301e766940049df0078fee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 05/25] fix: report failure when a distributed run is aborted
 because of NaNs

MPI_Abort with error code 0 makes mpirun exit with status 0.
---
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/ihdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/rkdg_swe_proc_ompi_step.hpp               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 22fe33c..265da1c 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -146,7 +146,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
         });
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
index 6e06743..dbeff54 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
@@ -114,7 +114,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
         });
     }
 }
diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
index 4d00566..f12fe36 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
@@ -122,7 +122,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
         });
     }
 
-- 
2.43.0


From a12bec9fcce7dc0823d5100203c2f50317744c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 06/25] fix: allow submeshes without neighbors in distributed
 runs

InitializeCommunication dereferenced the first neighbor, and the exchange
functions indexed empty request vectors, when a submesh touches no other.
---
 source/communication/ompi_communicator.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..5a86390 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,10 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    // a submesh without neighbors has nothing to exchange
+    if (this->rank_boundaries.empty())
+        return;
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +63,30 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty())
+        return;
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0


From 74f0c3ca4099a090ba0802eba4d79e588ee1d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 07/25] fix: give every ordered pair of submeshes its own
 message tag

Tags packed two submesh ids into 8 bits each, so with more than 256 submeshes on
a rank different pairs between the same two ranks shared a tag.
---
 source/communication/ompi_communicator.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 5a86390..f026039 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -1,5 +1,13 @@
 #include "ompi_communicator.hpp"
 
+namespace {
+// Unique tag for each ordered pair of submesh ids, below 2^16 as long as both ids are below 2^8
+int get_tag(const uint submesh_from, const uint submesh_to) {
+    return submesh_from < submesh_to ? submesh_to * submesh_to + submesh_from
+                                     : submesh_from * submesh_from + submesh_from + submesh_to;
+}
+}
+
 OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
     for (auto& rb_meta_data : db_data.rank_boundary_data) {
         OMPIRankBoundary rank_boundary;
@@ -9,10 +17,8 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
         rank_boundary.send_rank    = rb_meta_data.locality_ex;
         rank_boundary.receive_rank = rb_meta_data.locality_ex;
 
-        rank_boundary.send_tag =
-            (int)((unsigned short)rb_meta_data.submesh_in << 8 | (unsigned short)rb_meta_data.submesh_ex);
-        rank_boundary.receive_tag =
-            (int)((unsigned short)rb_meta_data.submesh_ex << 8 | (unsigned short)rb_meta_data.submesh_in);
+        rank_boundary.send_tag    = get_tag(rb_meta_data.submesh_in, rb_meta_data.submesh_ex);
+        rank_boundary.receive_tag = get_tag(rb_meta_data.submesh_ex, rb_meta_data.submesh_in);
 
         this->rank_boundaries.push_back(std::move(rank_boundary));
     }
-- 
2.43.0


From dca6d75347ddbfac0896473d2abacdd481c94363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 08/25] fix: convert constituent phases to radians in the IHDG
 global boundary kernels

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From 9ff960fa49cbe53ccbfc380c18f1ca97ff5c7d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 09/25] fix: exchange the weir discharge on both sides of an
 overtopped levee

The Lax-Friedrichs flux averages the discharge with the flow on its own side,
so the two sides of a levee lost and received different amounts of water.
---
 .../rkdg_swe_dbc_distributed_levee.hpp          | 14 ++++++++++++++
 .../rkdg_swe_is_levee.hpp                       | 17 +++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..59fc6e2 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -93,6 +93,8 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
 
         gravity = Global::g;
 
+        bool overtopped = false;
+
         h_above_levee_in = boundary.q_at_gp(SWE::Variables::ze, gp) - H_levee;
         h_above_levee_ex = this->q_ex(SWE::Variables::ze, gp) - H_levee;
 
@@ -103,6 +105,8 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             this->land_boundary.GetEX(
                 column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
+            overtopped = true;
+
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
             n_x = dbound.surface_normal(GlobalCoord::x, gp);
@@ -124,6 +128,8 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             this->q_ex(SWE::Variables::qx, gp) = qn_in * n_x + qt_in * t_x;
             this->q_ex(SWE::Variables::qy, gp) = qn_in * n_y + qt_in * t_y;
         } else if (h_above_levee_in < h_above_levee_ex) {  // overtopping from ex to in
+            overtopped = true;
+
             double n_x, n_y, t_x, t_y, qn_ex, qt_ex;
 
             n_x = dbound.surface_normal(GlobalCoord::x, gp);
@@ -156,6 +162,14 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
                  column(boundary.aux_at_gp, gp),
                  column(dbound.surface_normal, gp),
                  column(boundary.F_hat_at_gp, gp));
+
+        if (overtopped) {
+            // the weir discharge is the exchange of water on both sides of the levee
+            boundary.F_hat_at_gp(SWE::Variables::ze, gp) =
+                boundary.aux_at_gp(SWE::Auxiliaries::sp, gp) * this->q_ex(SWE::Variables::qx, gp) *
+                    dbound.surface_normal(GlobalCoord::x, gp) +
+                this->q_ex(SWE::Variables::qy, gp) * dbound.surface_normal(GlobalCoord::y, gp);
+        }
     }
 }
 }
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..a3a5397 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -83,6 +83,8 @@ void Levee::ComputeFlux(InterfaceType& intface) {
         gravity_in = Global::g;
         gravity_ex = Global::g;
 
+        bool overtopped = false;
+
         h_above_levee_in = boundary_in.q_at_gp(SWE::Variables::ze, gp) - H_levee;
         h_above_levee_ex = boundary_ex.q_at_gp(SWE::Variables::ze, gp_ex) - H_levee;
 
@@ -98,6 +100,8 @@ void Levee::ComputeFlux(InterfaceType& intface) {
                                       column(boundary_ex.q_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
+            overtopped = true;
+
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
             n_x = intface.surface_normal_in(GlobalCoord::x, gp);
@@ -127,6 +131,8 @@ void Levee::ComputeFlux(InterfaceType& intface) {
                 gravity_ex = 0.0;
             }
         } else if (h_above_levee_in < h_above_levee_ex) {  // overtopping from ex to in
+            overtopped = true;
+
             double n_x, n_y, t_x, t_y, qn_ex, qt_ex;
 
             n_x = intface.surface_normal_ex(GlobalCoord::x, gp_ex);
@@ -170,6 +176,17 @@ void Levee::ComputeFlux(InterfaceType& intface) {
                  column(boundary_ex.aux_at_gp, gp_ex),
                  column(intface.surface_normal_ex, gp_ex),
                  column(boundary_ex.F_hat_at_gp, gp_ex));
+
+        if (overtopped) {
+            // the weir discharge is the exchange of water on both sides of the levee
+            double n_x = intface.surface_normal_in(GlobalCoord::x, gp);
+            double n_y = intface.surface_normal_in(GlobalCoord::y, gp);
+            double sp  = boundary_in.aux_at_gp(SWE::Auxiliaries::sp, gp);
+
+            boundary_in.F_hat_at_gp(SWE::Variables::ze, gp) =
+                sp * this->q_in_ex(SWE::Variables::qx, gp) * n_x + this->q_in_ex(SWE::Variables::qy, gp) * n_y;
+            boundary_ex.F_hat_at_gp(SWE::Variables::ze, gp_ex) = -boundary_in.F_hat_at_gp(SWE::Variables::ze, gp);
+        }
     }
 }
 }
-- 
2.43.0


From e3752f22293876f7c67cce6d3b70d03c825b70cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 10/25] fix: a dry element above a levee does not overtop it

---
 .../rkdg_swe_dbc_distributed_levee.hpp                        | 4 +++-
 .../interface_specializations/rkdg_swe_is_levee.hpp           | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 59fc6e2..021b61e 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -79,6 +79,7 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
     }
 
     bool wet_in = dbound.data.wet_dry_state.wet;
+    bool wet_ex = (bool)message[0];
 
     auto& boundary = dbound.data.boundary[dbound.bound_id];
 
@@ -99,7 +100,8 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
         h_above_levee_ex = this->q_ex(SWE::Variables::ze, gp) - H_levee;
 
         if ((h_above_levee_in <= H_tolerance && h_above_levee_ex <= H_tolerance) ||  // both side below or
-            std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
+            std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance ||          // equal within tolerance
+            (h_above_levee_in > h_above_levee_ex ? !wet_in : !wet_ex)) {             // no water on the higher side
 
             // reflective boundary
             this->land_boundary.GetEX(
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index a3a5397..8bd3148 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -89,7 +89,8 @@ void Levee::ComputeFlux(InterfaceType& intface) {
         h_above_levee_ex = boundary_ex.q_at_gp(SWE::Variables::ze, gp_ex) - H_levee;
 
         if ((h_above_levee_in <= H_tolerance && h_above_levee_ex <= H_tolerance) ||  // both side below or
-            std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
+            std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance ||          // equal within tolerance
+            (h_above_levee_in > h_above_levee_ex ? !wet_in : !wet_ex)) {             // no water on the higher side
 
             // reflective boundary in
             this->land_boundary.GetEX(
-- 
2.43.0


From aed2448955fda04025c53a169fd4a891592fc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:54 +0000
Subject: [PATCH 11/25] fix: stop when a sparse factorization fails instead of
 solving with it

With non-numbers in the implicit scheme the solve does not terminate.
---
 source/utilities/linear_algebra/use_eigen.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/utilities/linear_algebra/use_eigen.hpp b/source/utilities/linear_algebra/use_eigen.hpp
index b024728..2f620e6 100644
--- a/source/utilities/linear_algebra/use_eigen.hpp
+++ b/source/utilities/linear_algebra/use_eigen.hpp
@@ -5,6 +5,9 @@
 #include <Eigen/Sparse>
 #include <Eigen/StdVector>
 
+#include <cstdlib>
+#include <iostream>
+
 #define EIGEN_DONT_PARALLELIZE
 
 namespace SO {
@@ -216,6 +219,11 @@ void solve_sle(SparseMatrix<T>& A_sparse, ArrayType& B) {
     Eigen::SparseLU<SparseMatrix<T>> solver;
     solver.analyzePattern(A_sparse);
     solver.factorize(A_sparse);
+    if (solver.info() != Eigen::Success) {
+        // solving with a failed factorization may not terminate
+        std::cerr << "Fatal Error: sparse LU factorization failed: " << solver.lastErrorMessage() << std::endl;
+        abort();
+    }
     B = solver.solve(B);
 }
 
-- 
2.43.0


From 0da7ea56d0b215af5771230a07f374dda34d22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 12/25] fix: IHDG bottom friction is not a number for still
 water or a zero coefficient

---
 .../kernels_processor/ihdg_swe_proc_source.hpp        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..ce82691 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -48,17 +48,22 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
             }
 
             double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double dstress_dze            = dCf_dze * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+
+            // friction is quadratic in the velocity: its derivative vanishes for still water
+            double C = 0.0;
+            if (u != 0.0 || v != 0.0)
+                C = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qx, gp);
+                dstress_dze * internal.q_at_gp(SWE::Variables::qx, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qx_qx, gp) -= bottom_friction_stress + C * u * u;
             internal.dsource_dq_at_gp(JacobianVariables::qx_qy, gp) -= C * u * v;
 
             internal.dsource_dq_at_gp(JacobianVariables::qy_ze, gp) -=
                 -2.0 * bottom_friction_stress * v +
-                dCf_dze * bottom_friction_stress / Cf * internal.q_at_gp(SWE::Variables::qy, gp);
+                dstress_dze * internal.q_at_gp(SWE::Variables::qy, gp);
             internal.dsource_dq_at_gp(JacobianVariables::qy_qx, gp) -= C * u * v;
             internal.dsource_dq_at_gp(JacobianVariables::qy_qy, gp) -= bottom_friction_stress + C * v * v;
         }
-- 
2.43.0


From 5f5de8bb820064a58d524ebf2f797b4a86b0c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 13/25] fix: evaluate the basis at its singular point when
 rounding leaves 0/0 one-sided

---
 source/basis/bases_2D/basis_dubiner_2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/basis/bases_2D/basis_dubiner_2D.cpp b/source/basis/bases_2D/basis_dubiner_2D.cpp
index 9b9f461..995c7a1 100644
--- a/source/basis/bases_2D/basis_dubiner_2D.cpp
+++ b/source/basis/bases_2D/basis_dubiner_2D.cpp
@@ -98,7 +98,7 @@ DynVector<double> Dubiner_2D::ComputePhi(const uint p,
     for (uint pt = 0; pt < npt; ++pt) {
         phi[pt] = psi_p[pt] * std::pow((1 - n2[pt]) / 2, (int)p) * psi_pq[pt];
 
-        if (std::isnan(n1[pt])) {  // value of Dubiner polynomial at singular point (-1,1)
+        if (!std::isfinite(n1[pt])) {  // value of Dubiner polynomial at singular point (-1,1)
             if (p == 0) {
                 phi[pt] = q + 1;
             } else {
@@ -126,7 +126,7 @@ DynVector<double> Dubiner_2D::ComputeDPhiDZ1(const uint p,
     for (uint pt = 0; pt < npt; ++pt) {
         dphi_dz1[pt] = (2.0 / (1.0 - n2[pt])) * dpsi_p_dn1[pt] * pow((1.0 - n2[pt]) / 2.0, (int)p) * psi_pq[pt];
 
-        if (std::isnan(n1[pt])) {  // value of Dubiner polynomial derivatives at singular point (-1,1)
+        if (!std::isfinite(n1[pt])) {  // value of Dubiner polynomial derivatives at singular point (-1,1)
             if (p == 1) {
                 dphi_dz1[pt] = this->ComputeSingularDPhiDZ1(q)[1];
             } else {
@@ -160,7 +160,7 @@ DynVector<double> Dubiner_2D::ComputeDPhiDZ2(const uint p,
             psi_p[pt] * (pow((1.0 - n2[pt]) / 2.0, (int)p) * dpsi_pq_dn2[pt] -
                          (p / 2.0) * pow((1.0 - n2[pt]) / 2.0, (int)(p - 1)) * psi_pq[pt]);
 
-        if (std::isnan(n1[pt])) {  // value of Dubiner polynomial derivatives at singular point (-1,1)
+        if (!std::isfinite(n1[pt])) {  // value of Dubiner polynomial derivatives at singular point (-1,1)
             if (p == 0) {
                 dphi_dz2[pt] = 3 * this->ComputeSingularDPhiDZ2(q)[1];
             } else if (p == 1) {
-- 
2.43.0


From b31c5bb89ca3a6b91190f3f2070ddc0a6d472941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 14/25] fix: refuse a mesh whose internal or levee face has no
 other side instead of dropping the face

---
 .../problem_preprocessor/gn_pre_create_intface.hpp     | 10 ++++++++++
 .../problem_preprocessor/swe_pre_create_intface.hpp    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp
index f664dd3..4b26ff4 100644
--- a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp
+++ b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_intface.hpp
@@ -25,6 +25,11 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
 
                     mesh.template CreateInterface<InterfaceTypeInternal>(std::move(raw_boundary_in),
                                                                          std::move(raw_boundary_ex));
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: unable to find other side of internal face of element " +
+                                           std::to_string(itt->first.first) + "!\n");
                 }
 
                 it->second.erase(itt++);
@@ -69,6 +74,11 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
 
                     mesh.template CreateInterface<InterfaceTypeLevee>(
                         std::move(raw_boundary_in), std::move(raw_boundary_ex), levee);
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: unable to find other side of levee face of element " +
+                                           std::to_string(itt->first.first) + "!\n");
                 }
 
                 it->second.erase(itt++);
diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp
index 8d7ac66..906771c 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_create_intface.hpp
@@ -25,6 +25,11 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
 
                     mesh.template CreateInterface<InterfaceTypeInternal>(std::move(raw_boundary_in),
                                                                          std::move(raw_boundary_ex));
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: unable to find other side of internal face of element " +
+                                           std::to_string(itt->first.first) + "!\n");
                 }
 
                 it->second.erase(itt++);
@@ -69,6 +74,11 @@ void create_interfaces(std::map<uchar, std::map<std::pair<uint, uint>, RawBounda
 
                     mesh.template CreateInterface<InterfaceTypeLevee>(
                         std::move(raw_boundary_in), std::move(raw_boundary_ex), levee);
+
+                    it->second.erase(key_pre_int_ex);
+                } else {
+                    throw std::logic_error("Fatal Error: unable to find other side of levee face of element " +
+                                           std::to_string(itt->first.first) + "!\n");
                 }
 
                 it->second.erase(itt++);
-- 
2.43.0


From 080aab7543169a9b1c8be3db8827f61687150eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 15/25] fix: write forcing data of generated meshes at full
 precision

The quadrilateral mesh generator wrote frequency, forcing factor and
equilibrium argument of tide and flow boundaries to the .bcis file with the
default 6 significant digits, so that a run on the generated mesh was not
forced with the values specified.
---
 mesh_generators/quad_mesh_generator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mesh_generators/quad_mesh_generator.cpp b/mesh_generators/quad_mesh_generator.cpp
index 3a9dfa7..b75a00a 100644
--- a/mesh_generators/quad_mesh_generator.cpp
+++ b/mesh_generators/quad_mesh_generator.cpp
@@ -281,6 +281,9 @@ int main(int argc, const char* argv[]) {
 void WriteBCISFile(const std::string& mesh_name, const std::vector<Boundary>& boundaries) {
     std::ofstream file(std::string{mesh_name + ".bcis"});
 
+    // the forcing data is written such that it is read back as specified
+    file << std::setprecision(17);
+
     for (const Boundary& boundary : boundaries) {
         if ((boundary.type == SWE::BoundaryTypes::tide) || (boundary.type == SWE::BoundaryTypes::flow)) {
             file << static_cast<int>(boundary.type) << ' ' << boundary.nodes.size() << '\n';
-- 
2.43.0


From 13087858e9e8864a1244b80536c4b300e402548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 16/25] fix: depth gradient in the dispersive source has the
 bed slope with the wrong sign

---
 .../kernels_processor/ehdg_gn_proc_source.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
index aa37de5..55a18e3 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
@@ -25,8 +25,8 @@ void Problem::local_dc_source_kernel(const ESSPRKStepper& stepper, ElementType&
         const auto zex = elt.ComputeUgp(row(state.dze, GlobalCoord::x));
         const auto zey = elt.ComputeUgp(row(state.dze, GlobalCoord::y));
 
-        const auto hx = zex + bx;
-        const auto hy = zey + by;
+        const auto hx = zex - bx;
+        const auto hy = zey - by;
 
         const auto u = row(internal.u_at_gp, GlobalCoord::x);
         const auto v = row(internal.u_at_gp, GlobalCoord::y);
-- 
2.43.0


From 2966c1bf75f18aa1a9ae8164d2dffe426c3390bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 17/25] fix: dispersive solve reads trace rows of faces between
 dry elements that have no row

---
 .../ehdg_gn_proc_ompi_sol_glob_prob.hpp                | 10 ++++++++++
 .../ehdg_gn_proc_serial_sol_glob_prob.hpp              |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index de2db49..b588083 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -327,6 +327,10 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
 
     for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeInterface([&global_data](auto& edge_int) {
+            // faces between dry elements have no place in the global system
+            if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+                return;
+
             auto& edge_internal = edge_int.edge_data.edge_internal;
             auto& internal_in   = edge_int.interface.data_in.internal;
             auto& internal_ex   = edge_int.interface.data_ex.internal;
@@ -345,6 +349,9 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeBoundary([&global_data](auto& edge_bound) {
+            if (!edge_bound.boundary.data.wet_dry_state.wet)
+                return;
+
             auto& edge_internal = edge_bound.edge_data.edge_internal;
             auto& internal      = edge_bound.boundary.data.internal;
             auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
@@ -358,6 +365,9 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeDistributed([&global_data](auto& edge_dbound) {
+            if (!edge_dbound.boundary.data.wet_dry_state.wet)
+                return;
+
             auto& edge_internal = edge_dbound.edge_data.edge_internal;
             auto& internal      = edge_dbound.boundary.data.internal;
             auto& boundary      = edge_dbound.boundary.data.boundary[edge_dbound.boundary.bound_id];
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index dd220c1..b807707 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -185,6 +185,10 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
     solve_sle(w1_hat_w1_hat, w1_hat_rhs);
 
     discretization.mesh_skeleton.CallForEachEdgeInterface([&w1_hat_rhs](auto& edge_int) {
+        // faces between dry elements have no place in the global system
+        if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+            return;
+
         auto& edge_internal = edge_int.edge_data.edge_internal;
         auto& internal_in   = edge_int.interface.data_in.internal;
         auto& internal_ex   = edge_int.interface.data_ex.internal;
@@ -200,6 +204,9 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
     });
 
     discretization.mesh_skeleton.CallForEachEdgeBoundary([&w1_hat_rhs](auto& edge_bound) {
+        if (!edge_bound.boundary.data.wet_dry_state.wet)
+            return;
+
         auto& edge_internal = edge_bound.edge_data.edge_internal;
         auto& internal      = edge_bound.boundary.data.internal;
         auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
-- 
2.43.0


From 206ceda4b282644b7278e9218b9ea9de66eb0c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 18/25] fix: meteo snapshots looked up by the steps of a
 splitting stepper instead of those of the run

---
 .../problem/SWE/problem_parser/swe_parser.hpp  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 31b6b55..1f3be49 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -9,6 +9,7 @@ class Parser {
   private:
     bool parsing_input = false;
 
+    double dt;
     uint meteo_parse_frequency;
     std::string meteo_data_file;
     std::map<uint, std::map<uint, std::vector<double>>> node_meteo_data_step;
@@ -27,6 +28,12 @@ class Parser {
     void ParseInput(const StepperType& stepper, MeshType& mesh);
 
   private:
+    // steps of the whole run completed, a stepper of a splitting scheme may advance in parts of them
+    template <typename StepperType>
+    uint GetRunStep(const StepperType& stepper) const {
+        return (uint)(stepper.GetStep() * (stepper.GetDT() / this->dt));
+    }
+
     template <typename StepperType>
     void ParseMeteoInput(const StepperType& stepper);
     template <typename StepperType>
@@ -38,6 +45,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
     if (input.problem_input.meteo_forcing.type == MeteoForcingType::Enable) {
         this->parsing_input = true;
 
+        this->dt = input.stepper_input.dt;
         this->meteo_parse_frequency =
             (uint)std::ceil(input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
@@ -51,7 +59,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input, const uin
 template <typename StepperType, typename MeshType>
 void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
     if (SWE::SourceTerms::meteo_forcing) {
-        if (stepper.GetStep() % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
+        if (this->GetRunStep(stepper) % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
             this->ParseMeteoInput(stepper);
         }
 
@@ -84,7 +92,7 @@ void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
 
 template <typename StepperType>
 void Parser::ParseMeteoInput(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetRunStep(stepper);
 
     if (this->node_meteo_data_step.find(step - this->meteo_parse_frequency) != this->node_meteo_data_step.end()) {
         this->node_meteo_data_step.erase(this->node_meteo_data_step.find(step - this->meteo_parse_frequency));
@@ -144,13 +152,13 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
 template <typename StepperType>
 void Parser::InterpolateMeteoData(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetRunStep(stepper);
 
     uint step_start = step - step % this->meteo_parse_frequency;
     uint step_end   = step_start + this->meteo_parse_frequency;
 
-    double t_start = step_start * stepper.GetDT();
-    double t_end   = step_end * stepper.GetDT();
+    double t_start = step_start * this->dt;
+    double t_end   = step_end * this->dt;
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
-- 
2.43.0


From 5eb4574e73c9d867acf2af51bf2ddf03ee993c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 19/25] fix: nodes missing in a meteo snapshot are reported
 instead of read out of bounds

---
 .../problem/SWE/problem_parser/swe_parser.hpp | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 1f3be49..c8cb4a8 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -162,18 +162,21 @@ void Parser::InterpolateMeteoData(const StepperType& stepper) {
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
+    const auto& data_start = this->node_meteo_data_step.at(step_start);
+    const auto& data_end   = this->node_meteo_data_step.at(step_end);
+
     for (auto& it : this->node_meteo_data_interp) {
-        it.second[0] = this->node_meteo_data_step[step_start][it.first][0] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][0] -
-                                        this->node_meteo_data_step[step_start][it.first][0]);
+        const auto node_start = data_start.find(it.first);
+        const auto node_end   = data_end.find(it.first);
 
-        it.second[1] = this->node_meteo_data_step[step_start][it.first][1] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][1] -
-                                        this->node_meteo_data_step[step_start][it.first][1]);
+        if (node_start == data_start.end() || node_end == data_end.end()) {
+            throw std::logic_error("Fatal Error: meteo data for node " + std::to_string(it.first) + " was not found!\n");
+        }
 
-        it.second[2] = this->node_meteo_data_step[step_start][it.first][2] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][2] -
-                                        this->node_meteo_data_step[step_start][it.first][2]);
+        for (uint var = 0; var < 3; ++var) {
+            it.second[var] =
+                node_start->second[var] + interp_factor * (node_end->second[var] - node_start->second[var]);
+        }
     }
 }
 }
-- 
2.43.0


From 2ca023913192f0520a1aace0ed8bd444329c4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 20/25] fix: output frequencies that are not positive crash the
 run instead of being refused

---
 source/preprocessor/input_parameters.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index d629893..416bd23 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -226,6 +226,10 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             if (out_node["vtk"]["frequency"]) {
                 this->writer_input.writing_vtk_output   = true;
                 this->writer_input.vtk_output_frequency = out_node["vtk"]["frequency"].as<double>();
+                if (!(this->writer_input.vtk_output_frequency > 0)) {
+                    std::string err_msg("Error: VTK output frequency must be positive\n");
+                    throw std::logic_error(err_msg);
+                }
                 this->writer_input.vtk_output_freq_step =
                     (uint)std::ceil(this->writer_input.vtk_output_frequency / this->stepper_input.dt);
             } else {
@@ -238,6 +242,10 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             if (out_node["vtu"]["frequency"]) {
                 this->writer_input.writing_vtu_output   = true;
                 this->writer_input.vtu_output_frequency = out_node["vtu"]["frequency"].as<double>();
+                if (!(this->writer_input.vtu_output_frequency > 0)) {
+                    std::string err_msg("Error: VTU output frequency must be positive\n");
+                    throw std::logic_error(err_msg);
+                }
                 this->writer_input.vtu_output_freq_step =
                     (uint)std::ceil(this->writer_input.vtu_output_frequency / this->stepper_input.dt);
             } else {
@@ -250,6 +258,10 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             if (out_node["modal"]["frequency"]) {
                 this->writer_input.writing_modal_output   = true;
                 this->writer_input.modal_output_frequency = out_node["modal"]["frequency"].as<double>();
+                if (!(this->writer_input.modal_output_frequency > 0)) {
+                    std::string err_msg("Error: Modal output frequency must be positive\n");
+                    throw std::logic_error(err_msg);
+                }
                 this->writer_input.modal_output_freq_step =
                     (uint)std::ceil(this->writer_input.modal_output_frequency / this->stepper_input.dt);
             } else {
-- 
2.43.0


From d39b76464dea574125c0b2e9bd031b90a8c9124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 21/25] fix: start and end times that cannot be read are taken
 for wrong times instead of being refused

---
 source/preprocessor/input_parameters.hpp | 25 +++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index 416bd23..881952c 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -89,6 +89,7 @@ struct InputParameters {
     void write_to(const std::string& output_filename);
 
   private:
+    struct tm read_time(const std::string& time_string);
     ProblemInput problem_specific_ctor_helper(const YAML::Node& input_file);
 };
 
@@ -151,11 +152,8 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
             std::string start_time = time_stepping["start_time"].as<std::string>();
             std::string end_time   = time_stepping["end_time"].as<std::string>();
 
-            this->stepper_input.T_start = {0};
-            this->stepper_input.T_end   = {0};
-
-            strptime(start_time.c_str(), "%d-%m-%Y %H:%M:%S", &this->stepper_input.T_start);
-            strptime(end_time.c_str(), "%d-%m-%Y %H:%M:%S", &this->stepper_input.T_end);
+            this->stepper_input.T_start = this->read_time(start_time);
+            this->stepper_input.T_end   = this->read_time(end_time);
 
             this->stepper_input.run_time =
                 difftime(timegm(&this->stepper_input.T_end), timegm(&this->stepper_input.T_start));
@@ -272,6 +270,23 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
     }
 }
 
+template <typename ProblemInput>
+struct tm InputParameters<ProblemInput>::read_time(const std::string& time_string) {
+    // the seconds may be left out
+    for (const char* format : {"%d-%m-%Y %H:%M:%S", "%d-%m-%Y %H:%M"}) {
+        struct tm time = {0};
+
+        const char* end = strptime(time_string.c_str(), format, &time);
+
+        if (end != nullptr && *end == '\0') {
+            return time;
+        }
+    }
+
+    std::string err_msg{"Error: Unable to read time: " + time_string + '\n'};
+    throw std::logic_error(err_msg);
+}
+
 template <typename ProblemInput>
 InputParameters<ProblemInput>::InputParameters(const std::string& input_string,
                                                const uint locality_id,
-- 
2.43.0


From 7510b518ca64d2bbb5394890ddd46dcc645f6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 22/25] fix: elements listed clockwise get the coordinates of
 another node order than their faces

---
 source/preprocessor/mesh_metadata.cpp | 30 ++++++++++++++++++++++++---
 source/preprocessor/mesh_metadata.hpp |  3 +++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 337a1dc..d2da401 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -28,12 +28,14 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
         }
     }
 
+    this->orient_elements();
+
     // make all edges
     using eltID_faceID = std::pair<uint, uint>;
     std::unordered_map<std::uint64_t, std::pair<eltID_faceID, eltID_faceID>> edge_dictionary;
 
     for (const auto& elt : mesh_file.elements) {
-        std::vector<uint> node{elt.second[1], elt.second[2], elt.second[3]};
+        const std::vector<uint>& node = this->elements.at(elt.first).node_ID;
 
         for (uint k = 0; k < 3; ++k) {
             std::uint64_t curr_key = static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 32 |
@@ -66,8 +68,8 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
             uint elt_id  = edge.second.first.first;
             uint face_id = edge.second.first.second;
 
-            std::array<uint, 2> nodes{mesh_file.elements.at(elt_id)[(face_id + 1) % 3 + 1],
-                                      mesh_file.elements.at(elt_id)[(face_id + 2) % 3 + 1]};
+            std::array<uint, 2> nodes{this->elements.at(elt_id).node_ID[(face_id + 1) % 3],
+                                      this->elements.at(elt_id).node_ID[(face_id + 2) % 3]};
 
             this->elements.at(elt_id).neighbor_ID[face_id]   = DEFAULT_ID;
             this->elements.at(elt_id).boundary_type[face_id] = mesh_file.get_ibtype(nodes);
@@ -115,6 +117,28 @@ MeshMetaData::MeshMetaData(const std::string& mesh_file) {
     }
 
     ifs.close();
+
+    this->orient_elements();
+}
+
+void MeshMetaData::orient_elements() {
+    // faces are numbered by the nodes opposite of them, hence they are swapped along with the nodes
+    for (auto& elt : this->elements) {
+        ElementMetaData& meta = elt.second;
+
+        if (meta.node_ID.size() != 3)
+            continue;
+
+        const Point<3>& a = this->nodes.at(meta.node_ID[0]).coordinates;
+        const Point<3>& b = this->nodes.at(meta.node_ID[1]).coordinates;
+        const Point<3>& c = this->nodes.at(meta.node_ID[2]).coordinates;
+
+        if ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) < 0.0) {
+            std::swap(meta.node_ID[0], meta.node_ID[2]);
+            std::swap(meta.neighbor_ID[0], meta.neighbor_ID[2]);
+            std::swap(meta.boundary_type[0], meta.boundary_type[2]);
+        }
+    }
 }
 
 void MeshMetaData::write_to(const std::string& file) {
diff --git a/source/preprocessor/mesh_metadata.hpp b/source/preprocessor/mesh_metadata.hpp
index 31d7420..3a6a00f 100644
--- a/source/preprocessor/mesh_metadata.hpp
+++ b/source/preprocessor/mesh_metadata.hpp
@@ -89,6 +89,9 @@ struct MeshMetaData {
     std::string mesh_name;
     std::unordered_map<uint, ElementMetaData> elements;
     std::unordered_map<uint, NodeMetaData> nodes;
+
+  private:
+    void orient_elements();  // list the nodes of all elements counter-clockwise
 };
 
 struct DBPairMetaData {
-- 
2.43.0


From 0c00e3514873aac5cdb83a51b962f52dbf120af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 23/25] fix: a meteo forcing frequency that is not positive
 crashes the run instead of being refused

---
 source/problem/SWE/problem_input/swe_inputs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 52bd756..dcf78ef 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -133,6 +133,10 @@ Inputs::Inputs(YAML::Node& swe_node) {
             this->meteo_forcing.raw_meteo_data_file = meteo["raw_input_file"].as<std::string>();
             this->meteo_forcing.meteo_data_file     = meteo["input_file"].as<std::string>();
             this->meteo_forcing.frequency           = meteo["frequency"].as<double>();
+
+            if (!(this->meteo_forcing.frequency > 0.0)) {
+                throw std::logic_error("Fatal Error: meteo forcing frequency must be positive!\n");
+            }
         } else {
             std::cerr << malformatted_meteo_warning;
         }
-- 
2.43.0


From 3c764012ab93fa247cb68ff1dbdea022dc07c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 24/25] fix: nodes missing from the manning factor file
 silently get no friction

---
 .../problem/SWE/problem_preprocessor/swe_pre_init_data.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index 3f3eb00..116cfc9 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -184,7 +184,12 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         mesh.CallForEachElement([&node_manning_n](auto& elt) {
             const std::vector<uint>& node_ID = elt.GetNodeID();
             for (uint node = 0; node < elt.data.get_nnode(); ++node) {
-                elt.data.source.manning_n[node] = node_manning_n[node_ID[node]];
+                const auto manning_n = node_manning_n.find(node_ID[node]);
+                if (manning_n == node_manning_n.end()) {
+                    throw std::logic_error("Fatal Error: manning factor data missing for node " +
+                                           std::to_string(node_ID[node]) + "!\n");
+                }
+                elt.data.source.manning_n[node] = manning_n->second;
             }
 
             elt.data.source.manning = true;
-- 
2.43.0


From 8e2d1b86a9579771fad7e1b68843e868180a8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:59 +0000
Subject: [PATCH 25/25] fix: blank lines in the boundary data file are read as
 a repeat of the block before

---
 source/problem/SWE/problem_input/swe_inputs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index dcf78ef..2e1cc23 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -227,7 +227,8 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
     while (std::getline(file, line)) {
         stream = std::stringstream(line);
-        stream >> btype >> nnodes;
+        if (!(stream >> btype >> nnodes))
+            continue;
 
         if (btype == SWE::BoundaryTypes::tide) {
             TideBoundary tide_bound;
-- 
2.43.0

