From 992c08aed486719538f42b4b9462ddf9501179eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 01/61] fix: power-flow State vector writes beyond the declared
 block of a PV bus and swaps the unknowns

---
 .../components/pf_matrix/pf_components.cpp         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e251986..93ab94c 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -190,8 +190,11 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
     values[0] = ret;
     return true;
   } else if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    // unknowns are ordered in the same way as in setValues
+    int nvals = 0;
+    vectorSize(&nvals);
+    values[0] = p_a;
+    if (nvals > 1) values[1] = p_v;
     return true;
   } else if (p_mode == RHS) {
     double rvals[2];
@@ -209,8 +212,11 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
 bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 {
   if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    // unknowns are ordered in the same way as in setValues
+    int nvals = 0;
+    vectorSize(&nvals);
+    values[0] = p_a;
+    if (nvals > 1) values[1] = p_v;
     return true;
   }
   if (p_mode == RHS) {
-- 
2.43.0


From 068d5ba62c9af913ad38f9f4b9a0d1f11b22b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 02/61] fix: clearing reactive limit violations loses the
 status of generators and the loads of a bus

PFBus::chkQlim turned generators off, overwrote every load in service with
the net residual of the whole bus and pushed the saved generator status onto
a list that was never emptied; clearQlim restored that list unconditionally,
so a bus that had never been switched lost all its generators and a bus that
had been switched kept the modified loads. Generators in service are now held
at their limits and the original schedule is put back.
---
 .../components/pf_matrix/pf_components.cpp    | 75 +++++++------------
 .../components/pf_matrix/pf_components.hpp    | 10 ++-
 2 files changed, 37 insertions(+), 48 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 93ab94c..bea4ebb 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -61,6 +61,7 @@ gridpack::powerflow::PFBus::PFBus(void)
   p_vMag_ptr = NULL;
   p_vAng_ptr = NULL;
   p_PV_ptr = NULL;
+  p_qlim_fixed = false;
 }
 
 /**
@@ -239,15 +240,13 @@ bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 bool gridpack::powerflow::PFBus::chkQlim(void)
 {
   if (p_isPV) {
-    double qmax, qmin, ppl;
+    double qmax, qmin;
     qmax = 0.0;
     qmin = 0.0;
-    ppl = 0.0;
     for (int i=0; i<p_gstatus.size(); i++) {
       if (p_gstatus[i] == 1) {
         qmax += p_qmax[i];
         qmin += p_qmin[i];
-        ppl  += p_pg[i];
       }
     }
     std::vector<boost::shared_ptr<BaseComponent> > branches;
@@ -263,7 +262,6 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
         ql += p_ql[i];
       }
     }
-    p_save2isPV = p_isPV;
     double pval = p_Pinj*p_sbase+pl;
     double qval = p_Qinj*p_sbase+ql;
 
@@ -271,45 +269,11 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
 //
     if (qval > qmax ) {
       printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
-      ql = ql-qmax;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      *p_PV_ptr = false;
-      pl -= ppl;
-    //p_gstatus.clear();
-      for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmax[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
-      }
-      if (p_PV_ptr) *p_PV_ptr = p_isPV;
+      fixReactivePower(p_qmax);
       return true;
     } else if (qval < qmin) {
       printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
-      ql = ql-qmin;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      pl -= ppl;
-    //  p_gstatus.clear();
-      for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmin[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
-      }
-
-      if (p_PV_ptr) *p_PV_ptr = p_isPV;
+      fixReactivePower(p_qmin);
       return true;
     } else {
        if (p_PV_ptr) *p_PV_ptr = p_isPV;
@@ -323,19 +287,35 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
   return false;
 }
 
+/**
+ * Convert PV bus to PQ bus with generators that are in service held at
+ * their reactive power limits
+ * @param qlim reactive power limits of generators
+ */
+void gridpack::powerflow::PFBus::fixReactivePower(
+    const std::vector<double> &qlim)
+{
+  p_save2isPV = p_isPV;
+  p_qg_save = p_qg;
+  p_qlim_fixed = true;
+  for (int i=0; i<p_gstatus.size(); i++) {
+    if (p_gstatus[i] == 1) p_qg[i] = qlim[i];
+  }
+  p_isPV = false;
+  if (p_PV_ptr) *p_PV_ptr = p_isPV;
+}
+
 /**
  * Clear changes that were made for Q limit violations and reset
  * bus to its original state
  */
 void gridpack::powerflow::PFBus::clearQlim()
 {
-  int size = p_gstatus_save.size();
-  p_gstatus.clear();
-  int i;
-  for (i=0; i<size; i++) {
-    p_gstatus.push_back(p_gstatus_save[i]);
+  if (p_qlim_fixed) {
+    p_qg = p_qg_save;
+    p_isPV = p_save2isPV;
+    p_qlim_fixed = false;
   }
-  p_isPV = p_save2isPV;
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
 
@@ -440,7 +420,8 @@ void gridpack::powerflow::PFBus::load(
   p_pFac.clear();
   p_pFac_orig.clear();
   p_gstatus.clear();
-  p_gstatus_save.clear();
+  p_qg_save.clear();
+  p_qlim_fixed = false;
   p_qmin.clear();
   p_qmax.clear();
   p_qmin_orig.clear();
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 993171f..92e059a 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -438,6 +438,13 @@ class PFBus
     void setScale(double scale);
 
   private:
+    /**
+     * Convert PV bus to PQ bus with generators that are in service held at
+     * their reactive power limits
+     * @param qlim reactive power limits of generators
+     */
+    void fixReactivePower(const std::vector<double> &qlim);
+
     double p_shunt_gs;
     double p_shunt_bs;
     bool p_shunt;
@@ -457,7 +464,8 @@ class PFBus
     std::vector<double> p_pg, p_qg, p_pFac;
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
-    std::vector<int> p_gstatus_save;
+    std::vector<double> p_qg_save; // generation before Q limits were imposed
+    bool p_qlim_fixed; // generators are held at Q limits
     std::vector<double> p_qmax,p_qmin;
     std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
     std::vector<double> p_vs;
-- 
2.43.0


From 8cc250c2d0a8e7d40e1969a08c7fb4e914f2d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 03/61] fix: area version of checkQlimViolations reports
 violations when there are none

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 38d9a29..01e26d8 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -638,7 +638,7 @@ bool gridpack::powerflow::PFFactoryModule::checkQlimViolations(int area)
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (bus->getArea() == area) {
-        if (!bus->chkQlim()) bus_ok = false;
+        if (bus->chkQlim()) bus_ok = false;
       }
     }
   }
-- 
2.43.0


From e5f353f10feeabe3adf8dc299097f231d306b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 04/61] fix: piecewise-linear block with decreasing points
 returns an undefined output between its points

---
 .../modules/dynamic_simulation_full_y/dblock.cpp   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
index ba150ea..d2cd937 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
@@ -143,7 +143,7 @@ PiecewiseSlope::PiecewiseSlope(void)
 
 void PiecewiseSlope::setparams(int n, double *uin, double *yin)
 {
-  double u[2],y[2],ya,yb;
+  double u[2],y[2];
   int    i;
 
   // Check the slope direction - increasing or decreasing
@@ -158,7 +158,14 @@ void PiecewiseSlope::setparams(int n, double *uin, double *yin)
       p_y[p_n]   = yin[i];
       p_y[p_n+1] = yin[i+1];
 
-      p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      if(p_increasing) {
+        p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      } else {
+        // Slope expects its points in the order of increasing input
+        u[0] = p_u[p_n+1]; u[1] = p_u[p_n];
+        y[0] = p_y[p_n+1]; y[1] = p_y[p_n];
+        p_slopes[p_n].setparams(u,y,y[0],y[1]);
+      }
       p_n++;
     }
   }
@@ -175,7 +182,8 @@ double PiecewiseSlope::getoutput(double u)
   if(!p_increasing && u <= p_u[p_n]) yout = p_y[p_n];
 
   for(i=0; i < p_n; i++) {
-    if(p_u[i] <= u && u <= p_u[i+1]) {
+    if((p_u[i] <= u && u <= p_u[i+1]) ||
+       (!p_increasing && p_u[i+1] <= u && u <= p_u[i])) {
       yout = p_slopes[i].getoutput(u);
     }
   }
-- 
2.43.0


From 37579b1f7af419b9fb42029f44d6796d7fb6e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 05/61] fix: rotor angle of the classical generator advances at
 dw/OMEGA_S instead of OMEGA_S*dw

---
 .../model_classes/classical_gen_model.cpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
index f66bf7c..8f7a9ac 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
@@ -147,7 +147,7 @@ bool ClassicalGen::vectorValues(gridpack::ComplexType *values)
     values[dw_idx] = p_dw - p_dwprev;
   } else if(p_mode == RESIDUAL_EVAL) {
     // Generator equations
-    values[delta_idx] = p_dw/OMEGA_S - p_deltadot;
+    values[delta_idx] = OMEGA_S*p_dw - p_deltadot;
     values[dw_idx]    = (p_Pm - VD*p_Ep*sin(p_delta)/p_Xdp + VQ*p_Ep*cos(p_delta)/p_Xdp - p_D*p_dw)/(2*p_H) - p_dwdot;
     //printf("classical: %f\t%f\n", real(values[delta_idx]),real(values[dw_idx]));
   }
@@ -205,7 +205,7 @@ bool ClassicalGen::setJacobian(gridpack::ComplexType **values)
     // Partials of generator equations w.r.t generator variables
     // dF_dX
     values[delta_idx][delta_idx] = -shift;
-    values[dw_idx][delta_idx] = 1.0/OMEGA_S;
+    values[dw_idx][delta_idx] = OMEGA_S;
     values[delta_idx][dw_idx] = (-VD*p_Ep*cos(p_delta)/p_Xdp - VQ*p_Ep*sin(p_delta)/p_Xdp)/(2*p_H);
     values[dw_idx][dw_idx] = -shift - p_D/(2*p_H);
 
-- 
2.43.0


From 22bd53b079d056ff1e8c1bb96bd1e5074df7d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 06/61] fix: fault Jacobian of the classical generator misses
 the derivative of its current in the angle

---
 .../model_classes/classical_gen_model.cpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
index 8f7a9ac..14f4ccd 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/classical_gen_model.cpp
@@ -197,6 +197,10 @@ bool ClassicalGen::setJacobian(gridpack::ComplexType **values)
     values[delta_idx][delta_idx] = 1.0;
     values[dw_idx][dw_idx] = 1.0;
 
+    // dG_dX
+    values[delta_idx][IGQ_idx] = p_Ep*sin(p_delta)/p_Xdp;
+    values[delta_idx][IGD_idx] = p_Ep*cos(p_delta)/p_Xdp;
+
     // dG_dV
     values[VD_idx][IGQ_idx] +=  1/p_Xdp;
     values[VQ_idx][IGD_idx] += -1/p_Xdp;
-- 
2.43.0


From bc70e306d34c915cd02cbdf454bdf5e9545d8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 07/61] fix: comment ending in a backslash removes the
 statement that disables saturation in GENSAL

---
 .../modules/dynamic_simulation_dae/model_classes/gensal.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp
index 62dc87a..4bba246 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/gensal.cpp
@@ -138,7 +138,7 @@ double GensalGen::Sat(double Eqp)
 {
     double result = sat_B * (Eqp - sat_A) * (Eqp - sat_A) /Eqp;
     if(Eqp < sat_A) result = 0.0;
-    //    return result; // Scaled Quadratic with 1.7.1 equations\
+    //    return result; // Scaled Quadratic with 1.7.1 equations
     result = 0.0;
     return result; // disabled saturation effect
 }
-- 
2.43.0


From 70c3c317e329261a79ea2c84ba5540aea4dae86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 08/61] fix: Jacobian of EXDC1 has a wrong sign and misses the
 field voltage in the lead-lag equation

---
 .../modules/dynamic_simulation_dae/model_classes/exdc1.cpp  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
index 817d571..152dea7 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
@@ -314,10 +314,12 @@ bool Exdc1Exc::setJacobian(gridpack::ComplexType **values)
       yLL = xLL + TC/TB*(Vref - Vmeas - Vf);
       dyLL_dxLL  = 1.0;
       dyLL_dVmeas = -TC/TB;
+      dyLL_dEfd   = -TC/TB*dVf_dEfd;
       dyLL_dxf    = -TC/TB*dVf_dxf;
     } else {
       values[Vmeas_idx][xLL_idx] = -1.0;
       values[xLL_idx][xLL_idx]  = -1.0;
+      values[Efd_idx][xLL_idx]   = -dVf_dEfd;
       values[xf_idx][xLL_idx]    = -dVf_dxf;
       yLL = xLL;
       dyLL_dxLL = 1.0;
@@ -360,15 +362,17 @@ bool Exdc1Exc::setJacobian(gridpack::ComplexType **values)
       values[Vmeas_idx][xLL_idx] = ((1 - TC/TB)*-1.0)/TB;
       values[xLL_idx][xLL_idx] = -1.0/TB - shift;
       values[Efd_idx][xLL_idx] = ((1 - TC/TB)*-KF/TF)/TB;
-      values[xf_idx][xLL_idx]  = (1 - TC/TB)/TB;
+      values[xf_idx][xLL_idx]  = ((1 - TC/TB)*-dVf_dxf)/TB;
 
       yLL = xLL + TC/TB*(Vref - Vmeas - Vf);
       dyLL_dxLL  = 1.0;
       dyLL_dVmeas = -TC/TB;
+      dyLL_dEfd   = -TC/TB*dVf_dEfd;
       dyLL_dxf    = -TC/TB*dVf_dxf;
     } else {
       values[Vmeas_idx][xLL_idx] = -1.0;
       values[xLL_idx][xLL_idx]  = -1.0;
+      values[Efd_idx][xLL_idx]   = -dVf_dEfd;
       values[xf_idx][xLL_idx]    = -dVf_dxf;
       yLL = xLL;
       dyLL_dxLL = 1.0;
-- 
2.43.0


From ebccdc194c5afc1944893832b6579710d8783739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 09/61] fix: Jacobian of ESST1A misses the rate feedback of Va
 and has a wrong second lead-lag diagonal

---
 .../dynamic_simulation_dae/model_classes/esst1a.cpp        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
index 2f47b65..5fada03 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
@@ -371,6 +371,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
       dyLL1_dxLL1  = 1.0;
       if(!Vi_at_min && !Vi_at_max) {
 	dyLL1_dVmeas = -Tc/Tb;
+	dyLL1_dVa    = -Tc/Tb*dVf_dEfd;
 	dyLL1_dxf    = -Tc/Tb*dVf_dxf;
       }
     } else {
@@ -378,6 +379,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
 
       if(!Vi_at_min && !Vi_at_max) {
 	values[Vmeas_idx][xLL1_idx] = -1.0;
+	values[Va_idx][xLL1_idx]    = -dVf_dEfd;
 	values[xf_idx][xLL1_idx]    = -dVf_dxf;
       }
       yLL1 = xLL1;
@@ -442,6 +444,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
       values[xLL1_idx][xLL1_idx]  = -1.0/Tb - shift;
       if(!Vi_at_min && !Vi_at_max) {
 	values[Vmeas_idx][xLL1_idx] = (1.0 - Tc/Tb)*-1.0/Tb;
+	values[Va_idx][xLL1_idx]    = (1.0 - Tc/Tb)*-dVf_dEfd/Tb;
 	values[xf_idx][xLL1_idx]    = (1.0 - Tc/Tb)*-dVf_dxf/Tb;
       }
       yLL1 = xLL1 + Tc/Tb*Vi;
@@ -449,12 +452,14 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
 
       if(!Vi_at_min && !Vi_at_max) {
 	dyLL1_dVmeas = -Tc/Tb;
+	dyLL1_dVa    = -Tc/Tb*dVf_dEfd;
 	dyLL1_dxf    = -Tc/Tb*dVf_dxf;
       }
     } else {
       values[xLL1_idx][xLL1_idx]  = -1.0;
       if(!Vi_at_min && !Vi_at_max) {
 	values[Vmeas_idx][xLL1_idx] = -1.0;
+	values[Va_idx][xLL1_idx]    = -dVf_dEfd;
 	values[xf_idx][xLL1_idx]    = -dVf_dxf;
       }
       yLL1 = xLL1;
@@ -465,7 +470,7 @@ bool Esst1aExc::setJacobian(gridpack::ComplexType **values)
     if(iseq_diff[2]) {
       values[Vmeas_idx][xLL2_idx] =  (1.0 - Tc1/Tb1)*dyLL1_dVmeas/Tb1;
       values[xLL1_idx][xLL2_idx]  =  (1.0 - Tc1/Tb1)*dyLL1_dxLL1/Tb1;
-      values[xLL2_idx][xLL2_idx]  =  -1.0/Tb1 + (1 - Tc1/Tb1)*dyLL1_dxLL1/Tb1 - shift;
+      values[xLL2_idx][xLL2_idx]  =  -1.0/Tb1 + (1 - Tc1/Tb1)*dyLL1_dxLL2/Tb1 - shift;
       values[Va_idx][xLL2_idx]    =  (1.0 - Tc1/Tb1)*dyLL1_dVa/Tb1;
       values[xf_idx][xLL2_idx]    =  (1.0 - Tc1/Tb1)*dyLL1_dxf/Tb1;
 
-- 
2.43.0


From 1f572c89ddf58bddc6bd76e93e2fac10c9d1c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 10/61] fix: WSIEG1 does not release the lower limit of the
 gate speed

---
 .../modules/dynamic_simulation_dae/model_classes/wsieg1.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.cpp
index 3ae24d8..6b40b92 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/wsieg1.cpp
@@ -588,7 +588,7 @@ void Wsieg1Gov::resetEventFlags()
   if(!uGV_at_min) {
     if(uGV - Uc < 0) uGV_at_min = true;
   } else {
-    if(Uo - uGV < 0) uGV_at_min = false; /* Release */
+    if(Uc - uGV < 0) uGV_at_min = false; /* Release */
   }
 
   if(!uGV_at_max) {
@@ -651,7 +651,7 @@ void Wsieg1Gov::eventHandlerFunction(const bool *triggered, const double& t, gri
       uGV_at_min = true;
     } else {
       /* Release */
-      uGV_at_max = false;
+      uGV_at_min = false;
     }
   }
 
-- 
2.43.0


From 3ffdd7f1ec3cdaa4389056ba31b9b48c997bda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 11/61] fix: ESST1A releases the upper limit of Vi on the event
 of the lower one

---
 .../modules/dynamic_simulation_dae/model_classes/esst1a.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
index 5fada03..7640947 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/esst1a.cpp
@@ -730,7 +730,7 @@ void Esst1aExc::eventHandlerFunction(const bool *triggered, const double& t, gri
       Vi_at_min = true;
     } else {
       /* Release */
-      Vi_at_max = false;
+      Vi_at_min = false;
     }
   }
 
-- 
2.43.0


From 11c205c95f1efc6023cb70b0900bceb1e2d78e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 12/61] fix: GENROU starts with a mechanical power that ignores
 the losses of its armature resistance

---
 .../modules/dynamic_simulation_dae/model_classes/genrou.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp
index ad56b81..1263a64 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp
@@ -214,9 +214,9 @@ void GenrouGen::init(gridpack::ComplexType* values)
   Efd = Eqp + (Xd - Xdp)*Id  + Psidpp*Sat(Psidpp,Psiqpp)/Psipp;;
 
   LadIfd = Efd;
-  Pmech = P;
-
   double Telec = Psidpp*Iq - Psiqpp*Id;
+  Pmech = Telec; // includes the losses in Ra
+
   values[0] = delta;
   values[1] = dw;
   values[2] = Eqp;
-- 
2.43.0


From dab83ca71fdd012932452f17a8e11b7a17f75c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 13/61] fix: GENROU does not convert its armature resistance to
 the system base

---
 .../modules/dynamic_simulation_dae/model_classes/genrou.cpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp
index 1263a64..08394ea 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/genrou.cpp
@@ -107,6 +107,7 @@ void GenrouGen::load(const boost::shared_ptr<gridpack::component::DataCollection
   H *= mult;
   D *= mult;
 
+  Ra /= mult;
   Xdp /= mult;
   Xd /= mult;
   Xq /= mult;
-- 
2.43.0


From e293d43968a824c66adae38989f6729c2a7fa568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 14/61] fix: saturation curve of EXDC1 does not pass through
 its second point

---
 .../modules/dynamic_simulation_dae/model_classes/exdc1.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
index 152dea7..cf161f9 100644
--- a/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_dae/model_classes/exdc1.cpp
@@ -87,7 +87,7 @@ void Exdc1Exc::load(const boost::shared_ptr<gridpack::component::DataCollection>
 
   // Calculate saturation curve parameters
   if(SE2 != 0 && E2 != 0.0) {
-    double alpha = std::sqrt(SE1*E1/SE2*E2);
+    double alpha = std::sqrt(SE1*E1/(SE2*E2));
     satA = (alpha*E2 - E1)/(alpha - 1.0);
     satB = SE1*E1/((E1 - satA)*(E1 - satA));
     Efdthresh = satA;
-- 
2.43.0


From 915355e9d3d6e8abf652e93c8c06e35326b64d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 15/61] fix: a branch whose elements were all out of service
 becomes part of the matrix when one is switched on

---
 src/applications/components/pf_matrix/pf_components.cpp     | 1 +
 src/applications/components/y_matrix/ymatrix_components.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index bea4ebb..26f9d8c 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2403,6 +2403,7 @@ void gridpack::powerflow::PFBranch::setBranchStatus(std::string tag, bool status
   for (i=0; i<bsize; i++) {
     if (tag == p_ckt[i]) {
       p_branch_status[i] = status;
+      if (status) p_active = true;
       YMBranch::setLineStatus(tag,status);
       return;
     }
diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index be851a3..00351c1 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -772,6 +772,7 @@ bool gridpack::ymatrix::YMBranch::setLineStatus(std::string tag,
   for (i=0; i<p_elems; i++) {
     if (tag == p_tag[i]) {
       p_branch_status[i] = status;
+      if (status) p_active = true;
       found = true;
       break;
     }
-- 
2.43.0


From 58283fbe02c348d77a9afeafc2f2ea0b64effd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 16/61] fix: PFBus::load keeps the saved injections of an
 earlier load

---
 src/applications/components/pf_matrix/pf_components.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 26f9d8c..5abbc86 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -416,6 +416,7 @@ void gridpack::powerflow::PFBus::load(
 
   // This routine may be called more than once, so clear all vectors
   p_pg.clear();
+  p_savePg.clear();
   p_qg.clear();
   p_pFac.clear();
   p_pFac_orig.clear();
@@ -431,6 +432,8 @@ void gridpack::powerflow::PFBus::load(
   p_pb.clear();
   p_pl.clear();
   p_ql.clear();
+  p_savePl.clear();
+  p_saveQl.clear();
   p_lstatus.clear();
   p_lid.clear();
 
-- 
2.43.0


From 77ff73208511909ba7aa7cb6f6003535839063cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 17/61] fix: PFBus::load writes past the participation factors
 of a bus without generators

---
 src/applications/components/pf_matrix/pf_components.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 5abbc86..94182a1 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -522,7 +522,7 @@ void gridpack::powerflow::PFBus::load(
         p_pFac[i] = p_pFac[i]/pcaptot;
         p_pFac_orig[i] = p_pFac[i];
       }
-    } else {
+    } else if (p_ngen > 0) {
       p_pFac[0] = 1.0;
       p_pFac_orig[0] = p_pFac[0];
     }
-- 
2.43.0


From 0c918298e125cb64753beb2588cd916235104d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 18/61] fix: PFBranch::load uses values of other items for a
 missing shift, tap ratio or rating

---
 src/applications/components/pf_matrix/pf_components.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 94182a1..728f13a 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2095,9 +2095,11 @@ void gridpack::powerflow::PFBranch::load(
     p_reactance.push_back(rvar);
     xform = xform && data->getValue(BRANCH_R, &rvar, idx);
     p_resistance.push_back(rvar);
+    rvar = 0.0;
     ok = data->getValue(BRANCH_SHIFT, &rvar, idx);
     rvar = -rvar*pi/180.0; 
     p_phase_shift.push_back(rvar);
+    rvar = 0.0;
     ok = data->getValue(BRANCH_TAP, &rvar, idx);
     p_tap_ratio.push_back(rvar); 
     if (rvar != 0.0) {
@@ -2125,6 +2127,7 @@ void gridpack::powerflow::PFBranch::load(
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
     bool rate = true;
+    rvar = 0.0;
     rate = rate && data->getValue(BRANCH_RATING_A,&rvar,idx);
     p_rateA.push_back(rvar);
     rate = rate && data->getValue(BRANCH_RATING_B,&rvar,idx);
-- 
2.43.0


From 800ca0e5690c4e862074b43b675dc0fe2ce4d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 19/61] fix: switching a generator turns a load or reference
 bus into a regulated bus

---
 .../components/pf_matrix/pf_components.cpp             | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 728f13a..48684dc 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1657,11 +1657,13 @@ void gridpack::powerflow::PFBus::setGeneratorStatus(
       data->setValue(GENERATOR_QG,0.0,idx);
     }
     // Check PV status and change it if all generators are off
-    p_isPV = p_gstatus[0];
-    for (i=1; i<p_ngen; i++) {
-      p_isPV = p_isPV || p_gstatus[i];
+    bool isPV = false;
+    if (p_type == 2) {
+      for (i=0; i<p_ngen; i++) {
+        isPV = isPV || p_gstatus[i];
+      }
     }
-    setIsPV(p_isPV);
+    setIsPV(isPV);
   } else {
     printf("setGenertorStatus: No generator found on bus %d with id: (%s)\n",getOriginalIndex(),tag.c_str());
   }
-- 
2.43.0


From 89bec79bf10a04f1bdb2567bcad60760e139269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 20/61] fix: write the case generation back on the system base,
 not on 100 MVA

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 48684dc..e0615f3 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1299,13 +1299,13 @@ void gridpack::powerflow::PFBus::saveDataAlsotoOrg(
     if (!data->setValue("GENERATOR_PF_PGEN",rval,i)) {
       data->addValue("GENERATOR_PF_PGEN",rval,i);
     }
-	data->setValue(GENERATOR_PG,rval*100.0,i); //also modify the original GENERATOR_PG 
+	data->setValue(GENERATOR_PG,rval*p_sbase,i); //also modify the original GENERATOR_PG 
 	
     rval = p_pFac[i]*(p_Qinj+ql/p_sbase);
     if (!data->setValue("GENERATOR_PF_QGEN",rval,i)) {
       data->addValue("GENERATOR_PF_QGEN",rval,i);
     }
-	data->setValue(GENERATOR_QG,rval*100.0,i); //also modify the original GENERATOR_QG 
+	data->setValue(GENERATOR_QG,rval*p_sbase,i); //also modify the original GENERATOR_QG 
 	
   }
 }
-- 
2.43.0


From 32621841663d8100033195ae924f5fdd0a3bc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 21/61] fix: GAST and HYGOV governors ignore the rotor speed
 deviation

---
 .../modules/dynamic_simulation_full_y/model_classes/gast.cpp  | 4 ++--
 .../modules/dynamic_simulation_full_y/model_classes/hygov.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
index 5e8a8dd..7e9bd7a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
@@ -162,9 +162,9 @@ void gridpack::dynamic_simulation::GastModel::setMechanicalPower(double pmech)
  * Set the rotor speed deviation inside the governor
  * @param delta_o value of the rotor speed deviation
  */
-void gridpack::dynamic_simulation::GastModel::setRotorSpeedDeviation(double delta_w)
+void gridpack::dynamic_simulation::GastModel::setRotorSpeedDeviation(double delta_o)
 {
-  delta_w = delta_w;
+  delta_w = delta_o;
 }
 
 /** 
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index 6c3c8b7..ad2a862 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -166,9 +166,9 @@ void gridpack::dynamic_simulation::HygovModel::setMechanicalPower(double pmech)
  * Set the rotor speed deviation inside the governor
  * @param delta_o value of the rotor speed deviation
  */
-void gridpack::dynamic_simulation::HygovModel::setRotorSpeedDeviation(double delta_w)
+void gridpack::dynamic_simulation::HygovModel::setRotorSpeedDeviation(double delta_o)
 {
-  delta_w = delta_w;
+  delta_w = delta_o;
 }
 
 /** 
-- 
2.43.0


From a85bf5db70f495c639254477f205c168897db70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 22/61] fix: the initial reference of the GAST governor
 contradicts its droop

---
 .../modules/dynamic_simulation_full_y/model_classes/gast.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
index 7e9bd7a..92ab5c0 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
@@ -93,7 +93,7 @@ void gridpack::dynamic_simulation::GastModel::init(double mag, double ang, doubl
 
   double lv_gate_in1 = AT + KT*(AT - exh_temp_block_out);
 
-  Pref = fuel_valve_block_in + delta_w*R; // Here the assumption is lv_gate_in1 > fuel_valve_block_in.
+  Pref = fuel_valve_block_in + droop; // Here the assumption is lv_gate_in1 > fuel_valve_block_in.
   // If this condition is not satisfied then Pref value is indeterminate.
 }
 
-- 
2.43.0


From 427a6480feb519f417a40ac795238ac3d314e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 23/61] fix: HYGOV temporary droop stays uninitialized when it
 is missing

---
 .../modules/dynamic_simulation_full_y/model_classes/hygov.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index ad2a862..1e3deed 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -54,7 +54,7 @@ void gridpack::dynamic_simulation::HygovModel::load(
     data, int idx)
 {
   if (!data->getValue(GOVERNOR_R, &R, idx)) R = 0.05;
-  if (!data->getValue(GOVERNOR_r, &r, idx)) R = 0.05; 
+  if (!data->getValue(GOVERNOR_r, &r, idx)) r = 0.05; 
   if (!data->getValue(GOVERNOR_TR, &TR, idx)) TR = 0.5;
   if (!data->getValue(GOVERNOR_TF, &TF, idx)) TF = 3.0; 
   if (!data->getValue(GOVERNOR_TG, &TG, idx)) TG = 10.0;
-- 
2.43.0


From 1146be371da41d687b0c156cedb6d3f0d4bc997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 24/61] fix: HYGOV turbine head is the inverse of the head of
 the gate opening

---
 .../modules/dynamic_simulation_full_y/model_classes/hygov.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index 1e3deed..c98cfe4 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -115,7 +115,7 @@ void gridpack::dynamic_simulation::HygovModel::predictor(double t_inc, bool flag
 
   double turbine_flow_block_in,h;
 
-  h = opening_block_out/turbine_flow_block_out;
+  h = turbine_flow_block_out/opening_block_out;
   h = h*h;
 
   turbine_flow_block_in = 1 - h;
@@ -142,7 +142,7 @@ void gridpack::dynamic_simulation::HygovModel::corrector(double t_inc, bool flag
 
   double turbine_flow_block_in,h;
 
-  h = opening_block_out/turbine_flow_block_out;
+  h = turbine_flow_block_out/opening_block_out;
   h = h*h;
 
   turbine_flow_block_in = 1 - h;
-- 
2.43.0


From b942791567707139c5bbf5b002ad7f2e4d6fef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 25/61] fix: EXDC1 transient gain reduction uses the regulator
 time constant

---
 .../modules/dynamic_simulation_full_y/model_classes/exdc1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
index e6c177c..e67ba44 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
@@ -77,7 +77,7 @@ void gridpack::dynamic_simulation::Exdc1Model::load(
   if (!data->getValue(EXCITER_SE2, &SE2, idx)) SE2 = 0.0; // SE2
 
   if(fabs(SE1*SE2) < 1e-6) has_Sat = false;
-  if(fabs(TB*TC) < 1e-6)   has_leadlag = false;
+  if(fabs(TB) < 1e-6)   has_leadlag = false;
   if(fabs(TA) < 1e-6) zero_TA = true;
   if(fabs(TR) < 1e-6) zero_TR = true;
 
@@ -95,7 +95,7 @@ void gridpack::dynamic_simulation::Exdc1Model::load(
   }
 
   if(has_leadlag) {
-    Leadlag_blk.setparams(TA,TB);
+    Leadlag_blk.setparams(TC,TB);
   }
 
   if(!zero_TA) {
-- 
2.43.0


From 45e9646ad7d85ad5353eb080e475c3d7a2deef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 26/61] fix: EXDC1 initial reference has the wrong sign of
 feedback and stabilizer signals

---
 .../modules/dynamic_simulation_full_y/model_classes/exdc1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
index e67ba44..39b1054 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
@@ -161,13 +161,13 @@ void gridpack::dynamic_simulation::Exdc1Model::init(double Vm, double Va, double
   } else leadlag_blk_in = VLL;
 
   double Verr;
-  Verr = leadlag_blk_in - VF + Vs;
+  Verr = leadlag_blk_in + VF;
       
   if(!zero_TR) {
     Vmeas = Vmeas_blk.init_given_u(Ec);
   } else Vmeas = Ec;
 
-  Vref = Verr + Vmeas;
+  Vref = Verr + Vmeas - Vs;
 
   
 }
-- 
2.43.0


From 5503e6d8b2828deb302254fc2b463b8612dc85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 27/61] fix: SEXS without time constant limits the input
 instead of the field voltage at the start

---
 .../modules/dynamic_simulation_full_y/model_classes/sexs.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp
index 90e634f..4ca08b9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/sexs.cpp
@@ -100,7 +100,7 @@ void gridpack::dynamic_simulation::SexsModel::init(double Vm, double ang, double
   if(!zero_TE) {
     y1 = filterblock.init_given_y(Efd);
   } else {
-    y1 = std::min(EMAX,std::max(EMIN,Efd/K));
+    y1 = std::min(EMAX,std::max(EMIN,Efd))/K;
   }
 
   // Initialize first block
-- 
2.43.0


From a812481bdb79ecfd20f78273e2793414d3f4f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 28/61] fix: ESST4B reads KPM for the integral gain KIM

---
 .../modules/dynamic_simulation_full_y/model_classes/esst4b.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
index b5de42b..a3b0913 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
@@ -57,7 +57,7 @@ void gridpack::dynamic_simulation::Esst4bModel::load(
   if (!data->getValue(EXCITER_VRMIN, &Vrmin, idx)) Vrmin = 0.0; // Vrmin
   if (!data->getValue(EXCITER_TA, &Ta, idx)) Ta = 0.0; // Ta
   if (!data->getValue(EXCITER_KPM, &Kpm, idx)) Kpm = 0.0; // Kpm
-  if (!data->getValue(EXCITER_KPM, &Kim, idx)) Kim = 0.0; // Kim
+  if (!data->getValue(EXCITER_KIM, &Kim, idx)) Kim = 0.0; // Kim
   if (!data->getValue(EXCITER_VMMAX, &Vmmax, idx)) Vmmax = 0.0; // Vmmax
   if (!data->getValue(EXCITER_VMMIN, &Vmmin, idx)) Vmmin = 0.0; // Vmax
   if (!data->getValue(EXCITER_KG, &Kg, idx)) Kg = 0.0; // Kg
-- 
2.43.0


From d3d7f778f2b6428143747f8d4eebf4acddbcc44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 29/61] fix: ESST4B widened limits do not reach the control
 blocks

---
 .../modules/dynamic_simulation_full_y/model_classes/esst4b.cpp  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
index a3b0913..c8624e3 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst4b.cpp
@@ -230,6 +230,7 @@ void gridpack::dynamic_simulation::Esst4bModel::init(double mag, double ang, dou
     if (OptionToModifyLimitsForInitialStateLimitViolation) {
       if (u1 > Vmmax) Vmmax = u1+0.1;
       if (u1 < Vmmin) Vmmin = u1-0.1;
+      PIControl_blmM.setxlimits(Vmmin, Vmmax);
     }
   } else {
     u2 = u1/Kpm;
@@ -248,6 +249,7 @@ void gridpack::dynamic_simulation::Esst4bModel::init(double mag, double ang, dou
     if (OptionToModifyLimitsForInitialStateLimitViolation) {
       if (u3 > Vrmax) Vrmax = u3+0.1;
       if (u3 < Vrmin) Vrmin = u3-0.1;
+      PIControl_blkR.setxlimits(Vrmin, Vrmax);
     }
   } else {
     u4 = u3/Kpr;
-- 
2.43.0


From 61c7ac953545a336e212ee4fb1140a4c6356b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 30/61] fix: ESST1A regulator skips the second lead-lag block

---
 .../modules/dynamic_simulation_full_y/model_classes/esst1a.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 7913906..94370bb 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -241,7 +241,7 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
   if (zero_TA) {
     VA = Regulator_gain_blk.getoutput(VLL1);
   } else {
-    VA = Regulator_blk.getoutput(VLL, t_inc, int_flag, true);
+    VA = Regulator_blk.getoutput(VLL1, t_inc, int_flag, true);
   }
 
   double u1 = 0.0;
-- 
2.43.0


From 47a4a4bced063cf522a55c985ab8a321a6bb2892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 31/61] fix: ESST1A uses blocks that it has not configured for
 zero time constants

---
 .../model_classes/esst1a.cpp                  | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 94370bb..f669d23 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -129,8 +129,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
 
   HVGate_blk1.setparams(Vuel); // is UEL Vuel?
 
-  Leadlag_blkBC.setparams(Tc, Tb);
-  Leadlag_blkBC1.setparams(Tc1, Tb1);
+  if(!zero_TB) Leadlag_blkBC.setparams(Tc, Tb);
+  if(!zero_TB1) Leadlag_blkBC1.setparams(Tc1, Tb1);
 
   if(!zero_TA) {
     Regulator_blk.setparams(Ka,Ta,Vrmin,Vrmax,-1000.0,1000.0);
@@ -144,11 +144,12 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double a[2], b[2];
   a[0] = Tf; a[1] = 1.0;
   b[0] = Kf; b[1] = 0.0;
-  Feedback_blkF.setcoeffs(a, b);
+  if(!zero_TF) Feedback_blkF.setcoeffs(a, b);
   
   Vterm = mag;
   
-  Vf = Feedback_blkF.init_given_u(Efd);
+  if(!zero_TF) Vf = Feedback_blkF.init_given_u(Efd);
+  else Vf = 0.0;
   
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (Efd > (Vterm * Vrmax - Kc * LadIfd)) Vrmax = (Efd + Kc * LadIfd) / Vterm+0.21;
@@ -182,11 +183,13 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
     if (VA > Vamax) Vamax = VA+0.1;
     if (VA < Vamin) Vamin = VA-0.1;
   }
-  VLL1 = Regulator_blk.init_given_y(VA);
+  if(!zero_TA) VLL1 = Regulator_blk.init_given_y(VA);
+  else VLL1 = VA/Ka;
 
-
-  VLL = Leadlag_blkBC1.init_given_y(VLL1);
-  double u1 = Leadlag_blkBC.init_given_y(VLL);
+  if(!zero_TB1) VLL = Leadlag_blkBC1.init_given_y(VLL1);
+  else VLL = VLL1;
+  double u1 = VLL;
+  if(!zero_TB) u1 = Leadlag_blkBC.init_given_y(VLL);
 
   // HV Gate?
   // assume HV gate always take feedforward path during initialization, may need to adjust Vuel
@@ -202,7 +205,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double Vop = 0.0;
   if (UEL == 1.0) Vop += Vuel;
   if (VOS == 1.0) Vop += Vothsg;
-  Vmeas = Filter_blkR.init_given_u(Vcomp);
+  if(!zero_TR) Vmeas = Filter_blkR.init_given_u(Vcomp);
+  else Vmeas = Vcomp;
   Vref = u1 + Vmeas - Vop + Vf;
 
 }
@@ -223,7 +227,8 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
   if (VOS == 1.0) Vop += Vothsg;
   double Verr = Vref - Vmeas + Vop;
 
-  Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  if(!zero_TF) Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  else Vf = 0.0;
 
   double leadlag_blk_in = Verr - Vf;
 
@@ -234,9 +239,11 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
 
   if (UEL == 2.0) leadlag_blk_in = HVGate_blk1.getoutput(leadlag_blk_in);
 
-  VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  if(!zero_TB) VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  else VLL = leadlag_blk_in;
   
-  VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true); 
+  if(!zero_TB1) VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true); 
+  else VLL1 = VLL;
 
   if (zero_TA) {
     VA = Regulator_gain_blk.getoutput(VLL1);
-- 
2.43.0


From 3c7dfa77f3471ae1326215e3b9fd4459087d0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:51 +0000
Subject: [PATCH 32/61] fix: ESST1A regulator is limited by VAMAX and VAMIN

---
 .../dynamic_simulation_full_y/model_classes/esst1a.cpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index f669d23..1fa22e4 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -133,9 +133,9 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   if(!zero_TB1) Leadlag_blkBC1.setparams(Tc1, Tb1);
 
   if(!zero_TA) {
-    Regulator_blk.setparams(Ka,Ta,Vrmin,Vrmax,-1000.0,1000.0);
+    Regulator_blk.setparams(Ka,Ta,Vamin,Vamax,-1000.0,1000.0);
   } else {
-    Regulator_gain_blk.setparams(Ka,Vrmin,Vrmax);
+    Regulator_gain_blk.setparams(Ka,Vamin,Vamax);
   }
 
   HVGate_blk2.setparams(Vuel); // UEL is Vuel?
@@ -182,6 +182,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (VA > Vamax) Vamax = VA+0.1;
     if (VA < Vamin) Vamin = VA-0.1;
+    if (!zero_TA) Regulator_blk.setxlimits(Vamin,Vamax);
+    else Regulator_gain_blk.setparams(Ka,Vamin,Vamax);
   }
   if(!zero_TA) VLL1 = Regulator_blk.init_given_y(VA);
   else VLL1 = VA/Ka;
-- 
2.43.0


From 989b045038c498fd989f4ef938877227746be368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 33/61] fix: GENSAL without saturation produces NaN

---
 .../modules/dynamic_simulation_full_y/model_classes/gensal.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
index c4f25c8..440237f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
@@ -95,6 +95,9 @@ void gridpack::dynamic_simulation::GensalGenerator::load(
  */
 double gridpack::dynamic_simulation::GensalGenerator::Sat(double x)
 {
+  // Zero saturation
+  if (fabs(S10*S12) < 1e-6) return 0.0;
+
   double a_ = S12 / S10 - 1.0;
   double b_ = -2 * S12 / S10 + 2.4;
   double c_ = S12 / S10 - 1.44;
-- 
2.43.0


From 00dcd4579e80768a63105b99c6c1a478cba16521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 34/61] fix: classical machine uses an uninitialised reactance
 in its Norton admittance

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp    | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index a46770d..e5331a6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -178,10 +178,7 @@ gridpack::ComplexType gridpack::dynamic_simulation::ClassicalGenerator::INorton(
 gridpack::ComplexType gridpack::dynamic_simulation::ClassicalGenerator::NortonImpedence()
 {
   double ra = p_r * p_sbase / p_mva; // * p_sbase / p_mva;
-  double xd;
-  if (p_dstr == 0.0) {
-    xd = p_dtr * p_sbase / p_mva; // * p_sbase / p_mva;
-  }
+  double xd = p_dtr * p_sbase / p_mva; // * p_sbase / p_mva;
   //printf("---------classical generator model :: NortonImpedence() p_r = %f, ra = %f, xd = %f, p_dstr = %f, p_dtr = %f \n", p_r, ra, xd, p_dstr, p_dtr);
   gridpack::ComplexType Y_a(ra, xd);
   
-- 
2.43.0


From 942a68129318fe2ddb31bb4f52e37a5b0931f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 35/61] fix: classical machine that absorbs power starts out of
 balance

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index e5331a6..2b6fc9b 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -134,7 +134,7 @@ void gridpack::dynamic_simulation::ClassicalGenerator::init(double mag,
   p_eqprime = gridpack::ComplexType(abs(p_eprime_s0),0.0);
   //printf("eqprime = %f\n", p_eqprime);
   // pmech
-  p_pmech = gridpack::ComplexType(abs(p_pelect),0.0);
+  p_pmech = p_pelect;
   //printf("mech = %f\n", p_pmech);
   //printf("mva = %f\n", p_mva);
   //printf("d0 = %f\n", p_d0);
-- 
2.43.0


From 3cb2ef794ee65421f12171db40bf6e8df4aaa9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 36/61] fix: classical machine ignores the system base

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index 2b6fc9b..4ede64c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -49,7 +49,7 @@ void gridpack::dynamic_simulation::ClassicalGenerator::load(
     boost::shared_ptr<gridpack::component::DataCollection>
     data, int idx)
 {
-  p_sbase = 100.0;
+  if (!data->getValue(CASE_SBASE,&p_sbase)) p_sbase = 100.0;
 
   int gstatus;
   double pg, qg, mva, r, dstr, dtr;
-- 
2.43.0


From f0f9945391288dc9c92ab614bf90e3a646b61837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 37/61] fix: classical machine keeps injecting current when it
 is out of service

---
 .../model_classes/classical.cpp                        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index 4ede64c..0d33da4 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -203,6 +203,7 @@ void gridpack::dynamic_simulation::ClassicalGenerator::predictor_currentInjectio
   p_INorton = p_eprime_s0 / (p_dtr * jay);
   
   p_INorton = p_INorton * p_mva / p_sbase; 
+  if (!getGenStatus()) p_INorton = gridpack::ComplexType(0.0, 0.0);
  
   /*double Idnorton = real(p_INorton);
   double Iqnorton = imag(p_INorton); 
@@ -242,8 +243,8 @@ void gridpack::dynamic_simulation::ClassicalGenerator::predictor(
   curr = conj(curr);
   p_pelect = real(p_eprime_s0 * curr);
   
-  genP = real(p_volt*curr);
-  genQ = imag(p_volt*curr);
+  genP = getGenStatus() ? real(p_volt*curr) : 0.0;
+  genQ = getGenStatus() ? imag(p_volt*curr) : 0.0;
   
   // dmac_ang:
   //printf("classical gen  predictor p_mac_ang_s0 and p_mac_spd_s0: %12.9f, %12.9f \n",p_mac_ang_s0, p_mac_spd_s0);
@@ -270,6 +271,7 @@ void gridpack::dynamic_simulation::ClassicalGenerator::corrector_currentInjectio
   p_INorton = p_eprime_s1 / (p_dtr * jay);
   
   p_INorton = p_INorton * p_mva / p_sbase; 
+  if (!getGenStatus()) p_INorton = gridpack::ComplexType(0.0, 0.0);
 
   /*double Idnorton = real(p_INorton);
   double Iqnorton = imag(p_INorton); 
@@ -302,8 +304,8 @@ void gridpack::dynamic_simulation::ClassicalGenerator::corrector(
   curr = conj(curr);
   p_pelect = real(p_eprime_s1 * curr);
   
-  genP = real(p_volt*curr);
-  genQ = imag(p_volt*curr);
+  genP = getGenStatus() ? real(p_volt*curr) : 0.0;
+  genQ = getGenStatus() ? imag(p_volt*curr) : 0.0;
   
   // dmac_ang:
   //printf("classical gen  corrector p_mac_ang_s1 and p_mac_spd_s1: %12.9f, %12.9f \n",p_mac_ang_s1, p_mac_spd_s1);
-- 
2.43.0


From 67e712cd7344ae4cd8eb27319ec9f14ba901fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 38/61] fix: data collection index overflows its buffer

---
 src/component/data_collection.cpp | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/component/data_collection.cpp b/src/component/data_collection.cpp
index 63969d3..f347689 100644
--- a/src/component/data_collection.cpp
+++ b/src/component/data_collection.cpp
@@ -99,7 +99,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_ints.insert(std::pair<std::string, int>(str,value));
@@ -110,7 +110,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_longs.insert(std::pair<std::string, long>(str,value));
@@ -121,7 +121,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_bools.insert(std::pair<std::string, bool>(str,value));
@@ -132,7 +132,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -144,7 +144,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_floats.insert(std::pair<std::string, float>(str,value));
@@ -155,7 +155,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_doubles.insert(std::pair<std::string, double>(str,value));
@@ -166,7 +166,7 @@ void gridpack::component::DataCollection::addValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_complexType.insert(std::pair<std::string, gridpack::ComplexType>(str,value));
@@ -315,7 +315,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -337,7 +337,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -359,7 +359,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -381,7 +381,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -404,7 +404,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -426,7 +426,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -448,7 +448,7 @@ bool gridpack::component::DataCollection::setValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -607,7 +607,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, int *value,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -629,7 +629,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, long *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -651,7 +651,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, bool *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -673,7 +673,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, std::string
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -695,7 +695,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, float *valu
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -717,7 +717,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, double *val
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -739,7 +739,7 @@ bool gridpack::component::DataCollection::getValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
-- 
2.43.0


From 57f5239622affa84526dfe11f4108b82401117bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 39/61] fix: generators that absorb power shift the machine
 models of their bus

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 133ea6c..42c3a23 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -1113,6 +1113,10 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	p_genqg_nodynmodel[i] = qg;
 	p_ngen_nodynmodel++;
       } else if (pg < 0.0) {
+        // Represented as a constant admittance: placeholder keeps the list of
+        // generator models aligned with the other generator lists
+        p_generators.push_back(boost::shared_ptr<BaseGeneratorModel>(
+              new BaseGeneratorModel));
         p_negpg.push_back(pg);
         p_negqg.push_back(qg);
         p_negngen++;
-- 
2.43.0


From 2ae9a6a8c713ee0287d8c717868efd9813f32b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 40/61] fix: generators that absorb power enter the network
 matrix twice

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp  | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 42c3a23..44fae3a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -239,14 +239,6 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
       gridpack::ComplexType u(p_ybusr, p_ybusi);
       values[0] = u;
     }
-    if (p_negngen > 0) {
-      for (int i = 0; i < p_negngen; i++) {
-        p_ybusr = p_ybusr+(-p_negpg[i])/(p_voltage*p_voltage);
-        p_ybusi = p_ybusi+p_negqg[i]/(p_voltage*p_voltage);
-        gridpack::ComplexType ret(p_ybusr, p_ybusi);
-        values[0] = ret;
-      }
-    }
     for (int i = 0; i < p_ngen; i++) {
       if(p_gen_nodynmodel[i]) {
 	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
-- 
2.43.0


From 8e9675b5b124f7a0e803666b5ce8a6418f0e560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 41/61] fix: generators without a dynamic model enter the
 network matrix while out of service

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 44fae3a..47c1a94 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -240,7 +240,7 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
       values[0] = u;
     }
     for (int i = 0; i < p_ngen; i++) {
-      if(p_gen_nodynmodel[i]) {
+      if(p_gstatus[i] && p_gen_nodynmodel[i]) {
 	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
 	p_ybusi = p_ybusi+p_genqg_nodynmodel[i]/(p_voltage*p_voltage);
 	gridpack::ComplexType ret(p_ybusr, p_ybusi);
-- 
2.43.0


From aa5e3013699f1ae3d57e21442365e5a7b7209775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 42/61] fix: network matrix entry undefined if all generators
 of a bus are out of service

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 47c1a94..90828e8 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -243,10 +243,9 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
       if(p_gstatus[i] && p_gen_nodynmodel[i]) {
 	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
 	p_ybusi = p_ybusi+p_genqg_nodynmodel[i]/(p_voltage*p_voltage);
-	gridpack::ComplexType ret(p_ybusr, p_ybusi);
-	values[0] = ret;
       }
     }
+    values[0] = gridpack::ComplexType(p_ybusr, p_ybusi);
     return true;
   } else if (p_mode == jxd) {
     if (p_ngen > 0) {
@@ -270,6 +269,7 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     }
     //printf("idx: %d Real: %f Imag: %f\n",getOriginalIndex(),
       //real(values[0]), imag(values[0]));
+    values[0] = gridpack::ComplexType(p_ybusr, p_ybusi);
     return true;
   } else if(p_mode == BUSFAULTON) {
     // Note this should be only used with
-- 
2.43.0


From 57fc8ddcd86eb3f6d92e94c051c1bc5081570032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 43/61] fix: tripping a phase shifter removes the element of
 the opposite shift

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 90828e8..ebaf80e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3479,7 +3479,7 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
     p_resistance.push_back(rvar);
     rvar = 0.0;
     data->getValue(BRANCH_SHIFT, &rvar, idx);
-    rvar = -rvar*pi/180.0;
+    rvar = rvar*pi/180.0;
     p_phase_shift.push_back(rvar);
     rvar = 0.0;
     data->getValue(BRANCH_TAP, &rvar, idx);
-- 
2.43.0


From cfb7888794eda7b8241f34a245ad2e3d8fdf4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 44/61] fix: load impedance set during a simulation has the
 sign of its reactance reversed

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index ebaf80e..8cb5120 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2160,7 +2160,7 @@ void gridpack::dynamic_simulation::DSFullBus::applyConstYLoad_Change_P(double lo
 		gridpack::ComplexType volttmp(1.0, 0.0);
 		Y_a = volttmp / z_a;
 		p_Yload_change_r = -p_pl + real(Y_a)*(p_voltage*p_voltage);
-		p_Yload_change_i = -p_ql + imag(Y_a)*(p_voltage*p_voltage);
+		p_Yload_change_i = -p_ql - imag(Y_a)*(p_voltage*p_voltage);
 		
 		p_bConstYLoadSettoValue = true;
 
-- 
2.43.0


From 234071b54f8a3c3aeba4b70a92762e27139c8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 45/61] fix: shed part of a constant admittance load is
 compensated at the initial voltage

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 8cb5120..12e20a6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -476,8 +476,9 @@ bool gridpack::dynamic_simulation::DSFullBus::vectorValues(ComplexType *values)
 		  double inj_constY_P, inj_constY_Q;
 		  gridpack::ComplexType inj_constY_S, inj_constY_cur_tmp;
 		  
-		  inj_constY_P = p_loadimpedancer*(p_voltage*p_voltage)*(1.0-remainConstYLoadPerc);
-		  inj_constY_Q = -p_loadimpedancei*(p_voltage*p_voltage)*(1.0-remainConstYLoadPerc);
+		  double voltagemagtmp = abs(p_volt_full);
+		  inj_constY_P = p_loadimpedancer*(voltagemagtmp*voltagemagtmp)*(1.0-remainConstYLoadPerc);
+		  inj_constY_Q = -p_loadimpedancei*(voltagemagtmp*voltagemagtmp)*(1.0-remainConstYLoadPerc);
 		  inj_constY_S = gridpack::ComplexType(inj_constY_P, inj_constY_Q);
 		  inj_constY_cur_tmp = inj_constY_S/p_volt_full;
 		  inj_constY_cur_tmp = conj(inj_constY_cur_tmp);
-- 
2.43.0


From 2dba8553d20d3c179a6a1f7c2b6d8ea8f84a1cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 46/61] fix: tripping two circuits of a branch together removes
 each twice from the diagonal

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 12e20a6..b42660c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2108,7 +2108,12 @@ void gridpack::dynamic_simulation::DSFullBus::setBranchTripAction(int from_idx,
   }
   
   if (p_branchtripaction_to_flag || p_branchtripaction_from_flag) {
-    p_vec_tripactionbranch.push_back(branch_ptr);
+    // a branch reports all its elements tripped in this action
+    bool found = false;
+    for (size_t i=0; i<p_vec_tripactionbranch.size(); i++) {
+      if (p_vec_tripactionbranch[i] == branch_ptr) found = true;
+    }
+    if (!found) p_vec_tripactionbranch.push_back(branch_ptr);
   } 
 }
 
-- 
2.43.0


From 5c9af338321b3d441a3079a889eb983a5d3b6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 47/61] fix: status change of an unknown generator reads
 outside the list of generators

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index b42660c..567b75f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -164,6 +164,7 @@ void gridpack::dynamic_simulation::DSFullBus::setGenStatus(std::string id, int s
   ckt_id = util.clean2Char(id);
 
   int gen_i = getGenNum(ckt_id);
+  if (gen_i < 0) return;
   int gen_status = p_generators[gen_i]->getGenStatus();
 
   if(status != gen_status) {
-- 
2.43.0


From bf0a811620d13e2dcfec80de9c8a44bcb980e1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 48/61] fix: missing branch charging is taken from the tap
 ratio

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 567b75f..55f7347 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3504,14 +3504,19 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
     if (!ok) lvar = false;
     p_switched.push_back(lvar);
     bool shunt = true;
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_B, &rvar, idx);
     p_charging.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G1, &rvar, idx);
     p_shunt_admt_g1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B1, &rvar, idx);
     p_shunt_admt_b1.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_G2, &rvar, idx);
     p_shunt_admt_g2.push_back(rvar);
+    rvar = 0.0;
     shunt = shunt && data->getValue(BRANCH_SHUNT_ADMTTNC_B2, &rvar, idx);
     p_shunt_admt_b2.push_back(rvar);
     p_shunt.push_back(shunt);
-- 
2.43.0


From 506ad45931f116d554e1bac2676fbd9812973705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 49/61] fix: a line opened by one kind of event is still in
 service for the other

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 55f7347..0b11e26 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -4054,6 +4054,7 @@ void gridpack::dynamic_simulation::DSFullBranch::clearBranchTripAction()
 	for (ibr=0 ; ibr<nbr ; ibr++){
 		idx = p_vec_tripaction_branchcktidx[ibr];
 		p_branch_status[idx] = 0;
+		YMBranch::setLineStatus(p_ckt[idx],false);
 	}
 	
 	p_vec_tripaction_branchcktidx.clear();
@@ -4200,6 +4201,12 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
     p_line_status_change = true;
 
     YMBranch::setLineStatus(ckt_id,status);
+    for (int i=0; i<p_elems; i++) {
+      if (p_ckt[i] == ckt_id) {
+        p_branch_status[i] = status;
+        break;
+      }
+    }
   }
 }
   
-- 
2.43.0


From b2af6276edc683519f22166cb229071b8671c2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 50/61] fix: angle of a bus without machines in service is
 undefined

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 0b11e26..2ded7f0 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -775,6 +775,7 @@ double gridpack::dynamic_simulation::DSFullBus::getAngle()
     double angle = p_generators[i]->getAngle();
     return angle;
   }
+  return 0.0;
 }
 
 /**
-- 
2.43.0


From eed5475cbc7f343bd46911b2f18fce47190299de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 51/61] fix: load changes assume a system base of 100 MVA

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 2ded7f0..8b68fa8 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2129,14 +2129,14 @@ void gridpack::dynamic_simulation::DSFullBus::clearBranchTripAction()
 void gridpack::dynamic_simulation::DSFullBus::applyConstYLoad_Change_P(double loadPChangeMW)
  {
 	 p_Yload_change_P_flag = true;
-	 p_Yload_change_r = loadPChangeMW/100.0;
+	 p_Yload_change_r = loadPChangeMW/p_sbase;
 	  
  }
  
  void gridpack::dynamic_simulation::DSFullBus::applyConstYLoad_Change_Q(double loadPChangeMVAR)
  {
 	 p_Yload_change_Q_flag = true;
-	 p_Yload_change_i = loadPChangeMVAR/100.0;
+	 p_Yload_change_i = loadPChangeMVAR/p_sbase;
 	  
  }
  
-- 
2.43.0


From 7a081fc3b185752823e7b9f130fed9405bea17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 52/61] fix: ignore the buses that violate their voltage
 limits, not those that do not

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 01e26d8..c99d906 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -315,7 +315,7 @@ void gridpack::powerflow::PFFactoryModule::ignoreVoltageViolations()
       gridpack::powerflow::PFBus *bus =
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
-      if (bus->checkVoltageViolation()) bus->setIgnore(true);
+      if (!bus->checkVoltageViolation()) bus->setIgnore(true);
     }
   }
 }
-- 
2.43.0


From 2015a229e341b7c4b800bc7562a7cfd229baa0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 53/61] fix: checkLoneBus reports false if some bus is
 isolated, as documented

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index c99d906..fdd4b4c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -179,7 +179,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
     if (!ok) bus_ok = false;
   }
   // Check whether bus_ok is true on all processors
-  return checkTrue(!bus_ok);
+  return checkTrue(bus_ok);
 }
 
 /**
-- 
2.43.0


From 2af6d1fd407af7c529a5128ee2674baec7a2368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 54/61] fix: overload check of listed lines looks at the listed
 line and the selected rating

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index fdd4b4c..7a25bd9 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -494,7 +494,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       std::vector<std::string> alltags = branch->getLineTags();
       double rate;
       for (int k = 0; k<nlines; k++) {
-        if (tags[i] == alltags[k] && !branch->getIgnore(tags[k])) {
+        if (tags[i] == alltags[k] && !branch->getIgnore(tags[i])) {
           bool foundRating=false;
           if (p_rateB) {
             if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_B,
@@ -512,10 +512,9 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
               foundRating = true;
             }
           }
-          if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_A,
-                &rate,k)) {
+          if (foundRating) {
             if (rate > 0.0) {
-              gridpack::ComplexType s = branch->getComplexPower(tags[k]);
+              gridpack::ComplexType s = branch->getComplexPower(tags[i]);
               double pq = abs(s);
               if (pq > rate) {
                 failure[i] = 1;
-- 
2.43.0


From 6df88f28885ab345e9aecdfa839af59a3a193de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 55/61] fix: ignoring overloaded lines uses the same rating as
 the overload check

---
 .../modules/powerflow/pf_factory_module.cpp       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 7a25bd9..aa3e3e0 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -554,13 +554,20 @@ void gridpack::powerflow::PFFactoryModule::ignoreLineOverloadViolations()
       int nlines;
       p_network->getBranchData(i)->getValue(BRANCH_NUM_ELEMENTS,&nlines);
       std::vector<std::string> tags = branch->getLineTags();
-      double rateA;
+      double rate;
       for (int k = 0; k<nlines; k++) {
-        if (p_network->getBranchData(i)->getValue(BRANCH_RATING_A,&rateA,k)) {
-          if (rateA > 0.0) {
+        bool foundRating=false;
+        if (p_rateB) {
+          foundRating = p_network->getBranchData(i)->getValue(BRANCH_RATING_B,&rate,k);
+        }
+        if (!foundRating) {
+          foundRating = p_network->getBranchData(i)->getValue(BRANCH_RATING_A,&rate,k);
+        }
+        if (foundRating) {
+          if (rate > 0.0) {
             gridpack::ComplexType s = branch->getComplexPower(tags[k]);
             double pq = abs(s);
-            if (pq > rateA) branch->setIgnore(tags[k],true);
+            if (pq > rate) branch->setIgnore(tags[k],true);
           }
         }
       }
-- 
2.43.0


From d69e7c81c279a56ddfdeacd84132dcaf5476da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 56/61] fix: generation margins and total load of an area count
 every bus of the system once

---
 .../modules/dynamic_simulation_full_y/dsf_factory.cpp        | 5 +++++
 src/applications/modules/powerflow/pf_factory_module.cpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
index cc9bd1f..757653c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
@@ -502,6 +502,7 @@ double gridpack::dynamic_simulation::DSFullFactory::getTotalLoadRealPower(
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -544,6 +545,7 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -566,6 +568,9 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
       }
     }
   }
+  p_network->communicator().sum(total,1);
+  p_network->communicator().sum(pmin,1);
+  p_network->communicator().sum(pmax,1);
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index aa3e3e0..c28d2cb 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -776,6 +776,7 @@ double gridpack::powerflow::PFFactoryModule::getTotalLoadRealPower(int area, int
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -818,6 +819,7 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -840,6 +842,9 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
       }
     }
   }
+  p_network->communicator().sum(total,1);
+  p_network->communicator().sum(pmin,1);
+  p_network->communicator().sum(pmax,1);
 }
 
 /**
-- 
2.43.0


From 282942e4151fbac71b1659b66bbf5fe62c142877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 57/61] fix: violations of different processes do not overwrite
 each other

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index c28d2cb..9f0c746 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -923,7 +923,7 @@ gridpack::powerflow::PFFactoryModule::getViolations()
 
   p_network->communicator().sum(&sizes[0],nproc);
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From d35b9d0133f957ad9941c2bf014af6ca421ebbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 58/61] fix: every violation found is recorded, whether or not
 the check is restricted to an area

---
 .../modules/powerflow/pf_factory_module.cpp   | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 9f0c746..b788987 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -262,7 +262,16 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations()
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (!bus->getIgnore()) {
-        if (!bus->checkVoltageViolation()) bus_ok = false;
+        if (!bus->checkVoltageViolation()) {
+          bus_ok = false;
+          gridpack::powerflow::PFFactoryModule::Violation violation;
+          int idx = bus->getOriginalIndex();
+          violation.bus_violation = true;
+          violation.line_violation = false;
+          violation.bus1 = idx;
+          violation.bus2 = -1;
+          p_violations.push_back(violation);
+        }
       }
     }
   }
@@ -447,7 +456,17 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(int area)
               if (rate > 0.0) {
                 gridpack::ComplexType s = branch->getComplexPower(tags[k]);
                 double pq = abs(s);
-                if (pq > rate) branch_ok = false;
+                if (pq > rate) {
+                  branch_ok = false;
+                  gridpack::powerflow::PFFactoryModule::Violation violation;
+                  violation.bus_violation = false;
+                  violation.line_violation = true;
+                  violation.bus1 = branch->getBus1OriginalIndex();
+                  violation.bus2 = branch->getBus2OriginalIndex();
+                  strncpy(violation.tag,tags[k].c_str(),2);
+                  violation.tag[2] = '\0';
+                  p_violations.push_back(violation);
+                }
               }
             }
           }
-- 
2.43.0


From 47e6bd4e230095ed44440fc102792cacca8f05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 59/61] fix: full-Y buses report the actual status of their
 generators and loads

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 8b68fa8..7a08653 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2812,7 +2812,7 @@ void gridpack::dynamic_simulation::DSFullBus::getGeneratorMargins(
     current.push_back(p_savePg[i]);
     pmin.push_back(p_gpmin[i]);
     pmax.push_back(p_gpmax[i]);
-    status.push_back(1);
+    status.push_back(p_gstatus[i]);
   }
 }
 
@@ -2836,7 +2836,7 @@ void gridpack::dynamic_simulation::DSFullBus::getLoadPower(
     tag.push_back(p_loadid[i]);
     pl.push_back(p_powerflowload_p_save[i]);
     ql.push_back(p_powerflowload_q_save[i]);
-    status.push_back(1);
+    status.push_back(p_powerflowload_status[i]);
   }
 }
 
-- 
2.43.0


From aafaebd3ccbca613c3fce8b3eb173716bc046fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 60/61] fix: total load and generation of a full-Y bus count
 the items in service only

---
 .../dynamic_simulation_full_y/dsf_components.cpp     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 7a08653..ebe8dd1 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3118,8 +3118,10 @@ void gridpack::dynamic_simulation::DSFullBus::getTotalLoadPower(double &total_p,
   int i;
 //#if 0
   for (i=0; i<p_npowerflow_load; i++) {
-    total_p += p_powerflowload_p[i];
-    total_q += p_powerflowload_q[i];
+    if (p_powerflowload_status[i]) {
+      total_p += p_powerflowload_p[i];
+      total_q += p_powerflowload_q[i];
+    }
   }
   
 //#else
@@ -3144,8 +3146,10 @@ void gridpack::dynamic_simulation::DSFullBus::getTotalGeneratorPower(double &tot
         p_ngen,p_pg.size(),p_qg.size());
   }
   for (i=0; i<p_ngen; i++) {
-    total_p += p_pg[i];
-    total_q += p_qg[i];
+    if (p_gstatus[i]) {
+      total_p += p_pg[i];
+      total_q += p_qg[i];
+    }
   }
   
   total_p *= p_sbase;
-- 
2.43.0


From 1a6ee226ba69773cdf3d49e41fd77f8bff20c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 61/61] fix: a dynamic load is found by its own identifier

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index ebe8dd1..1139bdd 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2894,7 +2894,7 @@ gridpack::dynamic_simulation::BaseLoadModel
 {
   int i;
   for (i=0; i<p_loadmodels.size(); i++) {
-    if (id == p_loadid[i]) {
+    if (id == p_dynamic_loadid[i]) {
       return p_loadmodels[i].get();
     }
   }
-- 
2.43.0

