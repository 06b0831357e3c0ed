From 1b598d36833cd15c7bccad58f3403efd1916245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 001/139] fix: product superposition keeps ambient wind speed
 where no wake contributes

---
 foxes/models/wake_superpositions/ws_product.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_superpositions/ws_product.py b/foxes/models/wake_superpositions/ws_product.py
index ce65425..07cd260 100644
--- a/foxes/models/wake_superpositions/ws_product.py
+++ b/foxes/models/wake_superpositions/ws_product.py
@@ -118,11 +118,11 @@ class WSProduct(WakeSuperposition):
                 f"Superposition '{self.name}': Expecting wind speed variable, got {variable}"
             )
 
-        if np.max(np.abs(wake_delta)) < 1e-14:
-            wake_delta[:] = 1
-
+        # the stored delta is the product of all wake factors minus one, such
+        # that the initial value zero represents points without any wake:
         if np.any(st_sel):
-            wake_delta[st_sel] *= 1 + wake_model_result
+            d = wake_delta[st_sel]
+            wake_delta[st_sel] = d + (1 + d) * wake_model_result
 
         return wake_delta
 
@@ -164,7 +164,7 @@ class WSProduct(WakeSuperposition):
             (n_states, n_targets, n_tpoints)
 
         """
-        w = amb_results * (wake_delta - 1)
+        w = amb_results * wake_delta
         if self.lim_low is not None:
             w = np.maximum(w, self.lim_low - amb_results)
         if self.lim_high is not None:
-- 
2.43.0


From c3c521c1131951a0e4b1d62c62f5a64563452e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 002/139] fix: do not reorder the inverse turbine order in farm
 results

---
 foxes/algorithms/downwind/models/reorder_farm_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/reorder_farm_output.py b/foxes/algorithms/downwind/models/reorder_farm_output.py
index 3e2a500..cc0f4af 100644
--- a/foxes/algorithms/downwind/models/reorder_farm_output.py
+++ b/foxes/algorithms/downwind/models/reorder_farm_output.py
@@ -76,7 +76,7 @@ class ReorderFarmOutput(FarmDataModel):
         out = {}
         for v in self.output_farm_vars(algo):
             if (
-                v != FV.ORDER
+                v not in [FV.ORDER, FV.ORDER_INV]
                 and fdata[v].shape[1] > 1
                 and np.any(fdata[v] != fdata[v][0, 0, None, None])
             ):
-- 
2.43.0


From 995b62d6691da21b319edea31f4c3987e6fea825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 003/139] fix: do not modify the user's profile dicts, such
 that states can be re-initialized

---
 foxes/input/states/single.py       | 1 +
 foxes/input/states/states_table.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/foxes/input/states/single.py b/foxes/input/states/single.py
index 96067cb..028ea92 100644
--- a/foxes/input/states/single.py
+++ b/foxes/input/states/single.py
@@ -109,6 +109,7 @@ class SingleStateStates(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 1b5fb09..8b43c49 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -160,6 +160,7 @@ class StatesTable(States):
             elif isinstance(d, VerticalProfile):
                 self._profiles[v] = d
             elif isinstance(d, dict):
+                d = dict(d)
                 t = d.pop("type")
                 self._profiles[v] = VerticalProfile.new(t, **d)
             else:
-- 
2.43.0


From 4b63b2b40ca782bec091a713c4e97926d648fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 004/139] fix: calc_points works on an algorithm that did not
 run calc_farm itself

---
 foxes/algorithms/downwind/downwind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 79fe9d9..f315630 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -779,7 +779,7 @@ class Downwind(Algorithm):
         if persist_mdata:
             model_data = model_data.persist()
         self.print("\nInput data:\n\n", model_data, "\n")
-        self.print(f"\nOutput farm variables:", ", ".join(self.farm_vars))
+        self.print(f"\nInput farm variables:", ", ".join(farm_results.data_vars))
 
         # chunk farm results:
         self.print("\nInput farm data:\n\n", farm_results, "\n")
-- 
2.43.0


From 15eb3def9b790987c7b42df14b9cddd84e9da428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 005/139] fix: air density and yaw corrections do not overwrite
 the rotor effective wind speeds

---
 foxes/models/turbine_types/PCt_file.py     | 5 +++--
 foxes/models/turbine_types/PCt_from_two.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 70732c1..79ec000 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -302,8 +302,9 @@ class PCtFile(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        # copy, since slice type selections yield views:
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 8fa8bb8..511289f 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -347,8 +347,9 @@ class PCtFromTwo(TurbineType):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        rews2 = fdata[self.WSCT][st_sel]
-        rews3 = fdata[self.WSP][st_sel]
+        # copy, since slice type selections yield views:
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
 
         # apply air density correction:
         if self.rho is not None:
-- 
2.43.0


From 311365a0318794c97440c00b6c85de8ebd6c28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 006/139] fix: direction of the air density correction of power
 curves

Power in the partial load region is proportional to the air density,
hence the corrected wind speed is ws * (rho / rho_ref)^(1/3).
---
 foxes/models/turbine_types/PCt_file.py          | 4 ++--
 foxes/models/turbine_types/PCt_from_two.py      | 4 ++--
 foxes/models/turbine_types/lookup.py            | 2 +-
 foxes/models/turbine_types/wsti2PCt_from_two.py | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index 79ec000..c7ab25a 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -312,8 +312,8 @@ class PCtFile(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            # rews2 *= (rho / self.rho) ** 0.5
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 511289f..3cf176c 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -357,8 +357,8 @@ class PCtFromTwo(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            # rews2 *= (self.rho / rho) ** 0.5
-            rews3 *= (self.rho / rho) ** (1.0 / 3.0)
+            # rews2 *= (rho / self.rho) ** 0.5
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index 2d73723..df8a0c8 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -279,7 +279,7 @@ class FromLookupTable(TurbineType):
             # that in the partial load region the
             # correct value is reconstructed:
             rho = fdata[FV.RHO][st_sel]
-            rews3[st_sel] *= (self.rho / rho) ** (1.0 / 3.0)
+            rews3[st_sel] *= (rho / self.rho) ** (1.0 / 3.0)
             del rho
 
         # in yawed case, calc yaw corrected wind speed:
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index e2c42f7..7dde34c 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -297,7 +297,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # that in the partial load region the
                 # correct value is reconstructed:
                 rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** (1.0 / 3.0)
+                qts[:, 0] *= (rho / self.rho) ** (1.0 / 3.0)
                 del rho
 
             # apply yaw corrections:
@@ -346,7 +346,7 @@ class WsTI2PCtFromTwo(TurbineType):
                 # that in the partial load region the
                 # correct value is reconstructed:
                 rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (self.rho / rho) ** 0.5
+                qts[:, 0] *= (rho / self.rho) ** 0.5
                 del rho
 
             # apply yaw corrections:
-- 
2.43.0


From 4612daf7d0d6fb623b63551bd7e430b42a3c319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 007/139] fix: SetFarmVars assigns values to the turbines they
 were specified for

The model data is already in downwind order, the second re-ordering
mixed up the turbines.
---
 foxes/models/turbine_models/set_farm_vars.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index d3e0f5c..cbc2a2f 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -271,18 +271,12 @@ class SetFarmVars(TurbineModel):
         i0 = mdata.states_i0(counter=True)
         if not self.once or i0 not in self.__once_done:
 
-            if self.pre_rotor:
-                order = np.s_[:]
-                ssel = np.s_[:]
-            else:
-                order = fdata[FV.ORDER]
-                ssel = fdata[FV.ORDER_SSEL]
-
             bsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
             bsel[st_sel] = True
 
             for v in self.vars:
-                data = mdata[self.var(v)][ssel, order]
+                # note that mdata is in downwind order, like fdata:
+                data = mdata[self.var(v)]
                 hsel = ~np.isnan(data)
                 tsel = bsel & hsel
 
-- 
2.43.0


From 23efb23c7304fc1e42d9651aef2a6221a243b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 008/139] fix: yawed wake frame searches a wake model that does
 have a wake growth model

---
 foxes/models/wake_frames/yawed_wakes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 38e1a5d..30ac430 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -132,7 +132,7 @@ class YawedWakes(WakeFrame):
                     self.wake_k = wake_k
                 else:
                     for w in algo.wake_models.values():
-                        if hasattr(w, "wake_k"):
+                        if getattr(w, "wake_k", None) is not None:
                             self.wake_k = w.wake_k
                             break
 
-- 
2.43.0


From 887868899924fa8be642c8d73cca787d10851cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 009/139] fix: ground mirrors keep the partial wakes choice for
 the main wake

---
 foxes/models/ground_models/wake_mirror.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index c00f093..7db1e33 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -75,8 +75,7 @@ class WakeMirror(GroundModel):
         # assert(np.all(fdata[FV.H]==fdata[FV.TXYH[..., 2]]))
 
         # contribution from main wake:
-        wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
-        wmodel.contribute(algo, mdata, fdata, tdata, downwind_index, wcoos, wake_deltas)
+        pwake.contribute(algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel)
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
-- 
2.43.0


From 3e4bc3fcff8aa051936b8a40d3051f25570d73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 010/139] fix: partial wakes top-hat and axiwake average over
 the target rotor, not the wake causing one

---
 .../algorithms/downwind/models/farm_wakes_calc.py |  8 +++++++-
 .../iterative/models/farm_wakes_calc.py           |  8 +++++++-
 foxes/models/partial_wakes/axiwake.py             | 15 +++------------
 foxes/models/partial_wakes/top_hat.py             | 13 +++----------
 4 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 48b6e42..2bca197 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -70,7 +70,13 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                tdata = TData.from_tpoints(tpoints, tweights)
+                tdata.add(
+                    FV.D,
+                    fdata[FV.D][:, :, None],
+                    (FC.STATE, FC.TARGET, FC.TPOINT),
+                )
+                pwake2tdata[pwake.name] = tdata
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 3d85c90..1b72000 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -100,7 +100,13 @@ class FarmWakesCalculation(FarmDataModel):
             pwake = algo.partial_wakes[wname]
             if pwake.name not in pwake2tdata:
                 tpoints, tweights = pwake.get_wake_points(algo, mdata, fdata)
-                pwake2tdata[pwake.name] = TData.from_tpoints(tpoints, tweights)
+                tdata = TData.from_tpoints(tpoints, tweights)
+                tdata.add(
+                    FV.D,
+                    fdata[FV.D][:, :, None],
+                    (FC.STATE, FC.TARGET, FC.TPOINT),
+                )
+                pwake2tdata[pwake.name] = tdata
 
         def _get_wdata(tdatap, wdeltas, variables, s):
             """Helper function for wake data extraction"""
diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index c41e63e..b80bd48 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -4,7 +4,6 @@ from foxes.models.wake_models.axisymmetric import AxisymmetricWakeModel
 from foxes.utils.two_circles import calc_area
 from foxes.config import config
 import foxes.variables as FV
-import foxes.constants as FC
 
 from .centre import PartialCentre
 
@@ -112,17 +111,9 @@ class PartialAxiwake(PartialCentre):
         n_states = mdata.n_states
         n_targets = tdata.n_targets
 
-        # get D:
-        D = self.get_data(
-            FV.D,
-            FC.STATE_TARGET,
-            lookup="w",
-            algo=algo,
-            fdata=fdata,
-            tdata=tdata,
-            downwind_index=downwind_index,
-            upcast=True,
-        )
+        # get diameter of the target rotors, not of the wake causing turbine:
+        D = np.zeros((n_states, n_targets), dtype=config.dtype_double)
+        D[:] = tdata[FV.D][:, :, 0]
 
         # calc coordinates to rotor centres:
         wcoos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
diff --git a/foxes/models/partial_wakes/top_hat.py b/foxes/models/partial_wakes/top_hat.py
index a48c050..b1df7de 100644
--- a/foxes/models/partial_wakes/top_hat.py
+++ b/foxes/models/partial_wakes/top_hat.py
@@ -153,16 +153,9 @@ class PartialTopHat(PartialCentre):
             R = np.linalg.norm(yz, axis=-1)
             del yz
 
-            D = self.get_data(
-                FV.D,
-                FC.STATE_TARGET,
-                lookup="w",
-                fdata=fdata,
-                tdata=tdata,
-                downwind_index=downwind_index,
-                algo=algo,
-                upcast=True,
-            )
+            # diameter of the target rotors, not of the wake causing turbine:
+            D = np.zeros_like(R)
+            D[:] = tdata[FV.D][:, :, 0]
 
             wr = wmodel.calc_wake_radius(
                 algo, mdata, fdata, tdata, downwind_index, x, ct
-- 
2.43.0


From fadaf153acb724d723cfb196358fd21ba137d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 011/139] fix: axiwake partial wakes include wake centres
 exactly on the rotor edge

---
 foxes/models/partial_wakes/axiwake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/partial_wakes/axiwake.py b/foxes/models/partial_wakes/axiwake.py
index b80bd48..94028bb 100644
--- a/foxes/models/partial_wakes/axiwake.py
+++ b/foxes/models/partial_wakes/axiwake.py
@@ -159,7 +159,7 @@ class PartialAxiwake(PartialCentre):
             del hA, Rsel, Dsel, R1, R2
 
         # case wake centre inside rotor disk:
-        sel = (x > 0) & (R < D / 2)
+        sel = (x > 0) & (R <= D / 2)
         if np.any(sel):
             n_sel = np.sum(sel)
             Rsel = np.zeros((n_sel, self.n + 1), dtype=config.dtype_double)
-- 
2.43.0


From 7152e0f0f3ba7c66b0614922aff4dbefa1b17267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 012/139] fix: waked rotor effective wind speeds refer to the
 same rotor axis as ambient ones

With yaw set by turbine models that run after the rotor evaluation, the rotor
effective wind speed of a turbine without any wake depended on whether it was
the most upstream one or not.
---
 .../downwind/models/farm_wakes_calc.py        |  3 ++-
 .../iterative/models/farm_wakes_calc.py       |  3 ++-
 foxes/constants.py                            |  5 +++++
 foxes/core/rotor_model.py                     | 13 ++++++++----
 foxes/models/rotor_models/centre.py           | 21 ++++++++++++++-----
 5 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/foxes/algorithms/downwind/models/farm_wakes_calc.py b/foxes/algorithms/downwind/models/farm_wakes_calc.py
index 2bca197..2e272f4 100644
--- a/foxes/algorithms/downwind/models/farm_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/farm_wakes_calc.py
@@ -61,6 +61,7 @@ class FarmWakesCalculation(FarmDataModel):
         rotor = algo.rotor_model
         rwghts = algo.get_from_chunk_store(FC.ROTOR_WEIGHTS, mdata=mdata)
         amb_res = algo.get_from_chunk_store(FC.AMB_ROTOR_RES, mdata=mdata)
+        ryaw = algo.get_from_chunk_store(FC.ROTOR_YAW, mdata=mdata)
         weights = algo.get_from_chunk_store(FC.WEIGHT_RES, mdata=mdata)
 
         # generate all wake evaluation points
@@ -102,7 +103,7 @@ class FarmWakesCalculation(FarmDataModel):
             hres[FV.WEIGHT] = weights
 
             rotor.eval_rpoint_results(
-                algo, mdata, fdata, hres, rwghts, downwind_index=oi
+                algo, mdata, fdata, hres, rwghts, downwind_index=oi, yaw=ryaw
             )
 
             res = algo.farm_controller.calculate(
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 1b72000..4276598 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -91,6 +91,7 @@ class FarmWakesCalculation(FarmDataModel):
         rotor = algo.rotor_model
         rwghts = algo.get_from_chunk_store(FC.ROTOR_WEIGHTS, mdata=mdata)
         amb_res = algo.get_from_chunk_store(FC.AMB_ROTOR_RES, mdata=mdata)
+        ryaw = algo.get_from_chunk_store(FC.ROTOR_YAW, mdata=mdata)
         weights = algo.get_from_chunk_store(FC.WEIGHT_RES, mdata=mdata)
 
         # generate all wake evaluation points
@@ -160,7 +161,7 @@ class FarmWakesCalculation(FarmDataModel):
             del pwake, tdatap, wdeltas
 
         wake_res[FV.WEIGHT] = weights
-        rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts)
+        rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts, yaw=ryaw)
         res = algo.farm_controller.calculate(algo, mdata, fdata, pre_rotor=False)
         if self.urelax is not None:
             res = self.urelax.calculate(algo, mdata, fdata, res)
diff --git a/foxes/constants.py b/foxes/constants.py
index 5dcd142..b6f5155 100644
--- a/foxes/constants.py
+++ b/foxes/constants.py
@@ -74,6 +74,11 @@ ROTOR_WEIGHTS = "rotor_weights"
 :group: foxes.constants
 """
 
+ROTOR_YAW = "rotor_yaw"
+""" Identifier for the rotor axis direction of the rotor points
+:group: foxes.constants
+"""
+
 AMB_ROTOR_RES = "amb_rotor_res"
 """ Identifier for ambient rotor point results
 :group: foxes.constants
diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index bd6fb26..98ef77c 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -192,6 +192,7 @@ class RotorModel(FarmDataModel):
         rpoint_weights,
         downwind_index=None,
         copy_to_ambient=False,
+        yaw=None,
     ):
         """
         Evaluate rotor point results.
@@ -219,6 +220,10 @@ class RotorModel(FarmDataModel):
         copy_to_ambient: bool
             If `True`, the fdata results are copied to ambient
             variables after calculation
+        yaw: numpy.ndarray, optional
+            The rotor axis directions, for wind speed projections.
+            Default is the yaw angle from fdata. Shape:
+            (n_states, n_turbines)
 
         """
         for v in [FV.REWS2, FV.REWS3]:
@@ -260,10 +265,9 @@ class RotorModel(FarmDataModel):
             or FV.REWS2 in self.calc_vars
             or FV.REWS3 in self.calc_vars
         ):
-            if downwind_index is None:
-                yaw = fdata[FV.YAW].copy()
-            else:
-                yaw = fdata[FV.YAW][:, downwind_index, None]
+            yaw = fdata[FV.YAW] if yaw is None else yaw
+            if downwind_index is not None:
+                yaw = yaw[:, downwind_index, None]
             nax = wd2uv(yaw, axis=-1)
             wsp = np.einsum("stpd,std->stp", uvp, nax)
 
@@ -391,6 +395,7 @@ class RotorModel(FarmDataModel):
         if store:
             algo.add_to_chunk_store(FC.ROTOR_POINTS, rpoints, mdata=mdata)
             algo.add_to_chunk_store(FC.ROTOR_WEIGHTS, rpoint_weights, mdata=mdata)
+            algo.add_to_chunk_store(FC.ROTOR_YAW, fdata[FV.YAW].copy(), mdata=mdata)
             algo.add_to_chunk_store(FC.AMB_ROTOR_RES, sres, mdata=mdata)
             algo.add_to_chunk_store(FC.WEIGHT_RES, tdata[FV.WEIGHT], mdata=mdata)
 
diff --git a/foxes/models/rotor_models/centre.py b/foxes/models/rotor_models/centre.py
index dc34055..52f0e95 100644
--- a/foxes/models/rotor_models/centre.py
+++ b/foxes/models/rotor_models/centre.py
@@ -92,6 +92,7 @@ class CentreRotor(RotorModel):
         rpoint_weights,
         downwind_index=None,
         copy_to_ambient=False,
+        yaw=None,
     ):
         """
         Evaluate rotor point results.
@@ -122,11 +123,22 @@ class CentreRotor(RotorModel):
         copy_to_ambient: bool
             If `True`, the fdata results are copied to ambient
             variables after calculation
+        yaw: numpy.ndarray, optional
+            The rotor axis directions, for wind speed projections.
+            Default is the yaw angle from fdata. Shape:
+            (n_states, n_turbines)
 
         """
         if len(rpoint_weights) > 1:
             return super().eval_rpoint_results(
-                algo, mdata, fdata, rpoint_results, rpoint_weights, downwind_index
+                algo,
+                mdata,
+                fdata,
+                rpoint_results,
+                rpoint_weights,
+                downwind_index,
+                copy_to_ambient,
+                yaw,
             )
 
         n_states = mdata.n_states
@@ -174,10 +186,9 @@ class CentreRotor(RotorModel):
             or FV.REWS2 in self.calc_vars
             or FV.REWS3 in self.calc_vars
         ):
-            if downwind_index is None:
-                yaw = fdata[FV.YAW]
-            else:
-                yaw = fdata[FV.YAW][:, downwind_index, None]
+            yaw = fdata[FV.YAW] if yaw is None else yaw
+            if downwind_index is not None:
+                yaw = yaw[:, downwind_index, None]
             nax = wd2uv(yaw, axis=-1)
             wsp = np.einsum("stpd,std->stp", uvp, nax)
 
-- 
2.43.0


From c63fa8c31c274ddb7e7820a859a813737e9e5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 013/139] fix: point results of several wake models refer to
 ambient results, as in the farm calculation

---
 foxes/algorithms/downwind/models/point_wakes_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/point_wakes_calc.py b/foxes/algorithms/downwind/models/point_wakes_calc.py
index c8ff6d0..23fa05f 100644
--- a/foxes/algorithms/downwind/models/point_wakes_calc.py
+++ b/foxes/algorithms/downwind/models/point_wakes_calc.py
@@ -115,6 +115,7 @@ class PointWakesCalculation(PointDataModel):
 
         """
         res = {}
+        amb_res = {v: tdata[v].copy() for v in self.pvars if v in tdata}
         wmodels = (
             algo.wake_models.values() if self.wake_models is None else self.wake_models
         )
@@ -139,7 +140,9 @@ class PointWakesCalculation(PointDataModel):
                     if v not in res and v in tdata:
                         res[v] = tdata[v].copy()
 
-                gmodel.finalize_point_wakes(algo, mdata, fdata, res, wdeltas, wmodel)
+                gmodel.finalize_point_wakes(
+                    algo, mdata, fdata, amb_res, wdeltas, wmodel
+                )
 
                 for v in res.keys():
                     if v in wdeltas:
-- 
2.43.0


From 47e3980d2c1b3d34f2fa6d586730633bef3b25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 014/139] fix: Bastankhah2016 wake models with different
 parameters do not reuse each other's data

---
 foxes/models/wake_models/wind/bastankhah16.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/wake_models/wind/bastankhah16.py b/foxes/models/wake_models/wind/bastankhah16.py
index b4b1c3c..58a1398 100644
--- a/foxes/models/wake_models/wind/bastankhah16.py
+++ b/foxes/models/wake_models/wind/bastankhah16.py
@@ -150,6 +150,7 @@ class Bastankhah2016Model(Model):
         # store parameters:
         out = {self.PARS: self.pars}
         out[self.CHECK] = (
+            self.model_id,
             mdata.states_i0(counter=True),
             mdata.n_states,
             downwind_index,
@@ -353,6 +354,7 @@ class Bastankhah2016Model(Model):
 
         """
         check = (
+            self.model_id,
             mdata.states_i0(counter=True),
             mdata.n_states,
             downwind_index,
-- 
2.43.0


From ca301cf7e87aa532e76a5ff4d8f3c4e5c24fcb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 015/139] fix: Rathmann induction uses the correct branch of
 the viewing angle close to the rotor

---
 foxes/models/wake_models/induction/rathmann.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/foxes/models/wake_models/induction/rathmann.py b/foxes/models/wake_models/induction/rathmann.py
index 5439113..1d6574b 100644
--- a/foxes/models/wake_models/induction/rathmann.py
+++ b/foxes/models/wake_models/induction/rathmann.py
@@ -186,12 +186,12 @@ class Rathmann(TurbineInductionModel):
 
         def G(x_R, r_R):
             """radial shape function eqn 20"""
-            sin_2_alpha = (2 * x_R) / np.sqrt(
-                (x_R**2 + (r_R - 1) ** 2) * (x_R**2 + (r_R + 1) ** 2)
-            )  # eqn 19
-            sin_alpha = np.sqrt(
-                0.5 * (1 - np.sqrt(1 - sin_2_alpha**2))
-            )  # derived from cos(2a)**2 + sin(2a)**2 = 1
+            # 2 alpha is the angle under which the rotor appears, it exceeds
+            # 90 degrees within the sphere around the rotor:
+            cos_2_alpha = (x_R**2 + r_R**2 - 1) / np.maximum(
+                np.sqrt((x_R**2 + (r_R - 1) ** 2) * (x_R**2 + (r_R + 1) ** 2)), 1e-12
+            )  # complements sin(2a), eqn 19
+            sin_alpha = np.sqrt(0.5 * (1 - np.clip(cos_2_alpha, -1.0, 1.0)))
             sin_beta = 1 / np.sqrt(x_R**2 + r_R**2 + 1)  # eqn 19
             return sin_alpha * sin_beta * (1 + x_R**2)
 
-- 
2.43.0


From a8690ad48d0dfab728e86104d4d85df6dafab58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 016/139] fix: iterations apply the downwind order to the model
 data of turbine models

---
 foxes/algorithms/iterative/iterative.py       |  4 ++
 foxes/algorithms/iterative/models/__init__.py |  1 +
 .../iterative/models/order_model_data.py      | 67 +++++++++++++++++++
 3 files changed, 72 insertions(+)
 create mode 100644 foxes/algorithms/iterative/models/order_model_data.py

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3dd6820..906b7ba 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -220,6 +220,10 @@ class Iterative(Downwind):
             # do not rotate back from downwind order:
             if not self._final_run:
 
+                # apply the downwind order to the model data:
+                mlist.models.append(self.get_model("OrderModelData")())
+                calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+
                 # add under-relaxation during wake calculation:
                 urelax = None
                 if self._urelax is not None and len(self._urelax["pre_wake"]):
diff --git a/foxes/algorithms/iterative/models/__init__.py b/foxes/algorithms/iterative/models/__init__.py
index 4e9831a..15953a7 100644
--- a/foxes/algorithms/iterative/models/__init__.py
+++ b/foxes/algorithms/iterative/models/__init__.py
@@ -1,3 +1,4 @@
 from .convergence import ConvCrit, ConvCritList, ConvVarDelta, DefaultConv
 from .farm_wakes_calc import FarmWakesCalculation
+from .order_model_data import OrderModelData
 from .urelax import URelax
diff --git a/foxes/algorithms/iterative/models/order_model_data.py b/foxes/algorithms/iterative/models/order_model_data.py
new file mode 100644
index 0000000..dcd4b65
--- /dev/null
+++ b/foxes/algorithms/iterative/models/order_model_data.py
@@ -0,0 +1,67 @@
+import numpy as np
+
+from foxes.core import FarmDataModel
+import foxes.variables as FV
+import foxes.constants as FC
+
+
+class OrderModelData(FarmDataModel):
+    """
+    Applies the downwind order to the model data.
+
+    The farm data of follow-up iterations is in downwind
+    order, while the model data is provided in farm order.
+
+    :group: algorithms.iterative.models
+
+    """
+
+    def output_farm_vars(self, algo):
+        """
+        The variables which are being modified by the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+
+        Returns
+        -------
+        output_vars: list of str
+            The output variable names
+
+        """
+        return [FV.ORDER, FV.ORDER_SSEL]
+
+    def calculate(self, algo, mdata, fdata):
+        """
+        The main model calculation.
+
+        This function is executed on a single chunk of data,
+        all computations should be based on numpy arrays.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        mdata: foxes.core.MData
+            The model data
+        fdata: foxes.core.FData
+            The farm data
+
+        Returns
+        -------
+        results: dict
+            The resulting data, keys: output variable str.
+            Values: numpy.ndarray with shape (n_states, n_turbines)
+
+        """
+        order = fdata[FV.ORDER].astype(int)
+        ssel = fdata[FV.ORDER_SSEL].astype(int)
+        for k in mdata.keys():
+            if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
+                mdata[k] != mdata[k][0, 0, None, None]
+            ):
+                mdata[k] = mdata[k][ssel, order]
+
+        return {v: fdata[v] for v in self.output_farm_vars(algo)}
-- 
2.43.0


From cd73e45a8bc9ded854b27ebaf12c24ad2006c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 017/139] fix: streamlines wake frame starts with known wind
 directions and orders turbines downstream

---
 foxes/models/wake_frames/streamlines.py | 49 ++++++++++++-------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/foxes/models/wake_frames/streamlines.py b/foxes/models/wake_frames/streamlines.py
index bd911e0..18f7e58 100644
--- a/foxes/models/wake_frames/streamlines.py
+++ b/foxes/models/wake_frames/streamlines.py
@@ -71,33 +71,32 @@ class Streamlines2D(WakeFrame):
             # set streamline start point data (rotor centre):
             if i == 0:
                 data[:, :, i, :3] = fdata[FV.TXYH]
-                data[:, :, i, 3] = fdata[FV.AMB_WD]
 
-            # compute next step:
+            # calculate next point:
             else:
-
-                # calculate next point:
                 xyz = data[:, :, i - 1, :3]
                 n = wd2uv(data[:, :, i - 1, 3])
                 data[:, :, i, :2] = xyz[:, :, :2] + self.step * n
                 data[:, :, i, 2] = xyz[:, :, 2]
 
-                # calculate next tangential vector:
-                svars = algo.states.output_point_vars(algo)
-                tdata = TData.from_points(
-                    data[:, :, i, :3],
-                    data={
-                        v: np.full(
-                            (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
-                        )
-                        for v in svars
-                    },
-                    dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
-                )
-                data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[
-                    FV.WD
-                ][:, :, 0]
+            # calculate next tangential vector, using ambient wind directions
+            # also at the rotor centre (not yet in fdata during calc_order):
+            svars = algo.states.output_point_vars(algo)
+            tdata = TData.from_points(
+                data[:, :, i, :3],
+                data={
+                    v: np.full(
+                        (n_states, n_turbines, 1), np.nan, dtype=config.dtype_double
+                    )
+                    for v in svars
+                },
+                dims={v: (FC.STATE, FC.TARGET, FC.TPOINT) for v in svars},
+            )
+            data[:, :, i, 3] = algo.states.calculate(algo, mdata, fdata, tdata)[FV.WD][
+                :, :, 0
+            ]
 
+            if i > 0:
                 sel = np.isnan(data[:, :, i, 3])
                 if np.any(sel):
                     data[sel, i, 3] = data[sel, i - 1, 3]
@@ -202,13 +201,11 @@ class Streamlines2D(WakeFrame):
                 :, :, 0, 0
             ]
 
-        # derive turbine order:
-        # TODO: Remove loop over states
-        order = np.zeros((n_states, n_turbines), dtype=config.dtype_int)
-        for si in range(n_states):
-            order[si] = np.lexsort(keys=coosx[si])
-
-        return order
+        # derive turbine order by counting the upstream turbines, notice that
+        # x is nan for targets that are upstream of the streamline start:
+        return np.argsort(np.sum(coosx > 0, axis=1), axis=-1, kind="stable").astype(
+            config.dtype_int
+        )
 
     def get_wake_coos(
         self,
-- 
2.43.0


From 9e0fd651886c357da6e5dc656a0ec8790f4521ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 018/139] fix: yawed wake frame keeps the lateral positions of
 rotor points

---
 foxes/models/wake_frames/yawed_wakes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 30ac430..ccde9cc 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -271,11 +271,11 @@ class YawedWakes(WakeFrame):
         # take rotor average:
         xy = np.einsum("stpd,p->std", xyz[..., :2], tdata[FC.TWEIGHTS])
         x = xy[:, :, 0]
-        y = xy[:, :, 1]
+        y = xy[:, :, 1].copy()
 
-        # apply deflection:
+        # apply deflection, identical for all points of each target:
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
-        xyz[..., 1] = y[:, :, None]
+        xyz[..., 1] += (y - xy[:, :, 1])[:, :, None]
 
         return xyz
 
-- 
2.43.0


From 9545274732bffe74130e5e6ed56fd6fad4fc8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 019/139] fix: yawed wake frame does not re-use models of
 previous algorithms

---
 foxes/models/wake_frames/yawed_wakes.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index ccde9cc..dd282e2 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -327,3 +327,21 @@ class YawedWakes(WakeFrame):
         points += y[:, :, None] * ny
 
         return points
+
+    def finalize(self, algo, verbosity=0):
+        """
+        Finalizes the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        verbosity: int
+            The verbosity level, 0 = silent
+
+        """
+        super().finalize(algo, verbosity)
+
+        # do not keep models of the wake models of this algorithm:
+        self.model = None
+        self.wake_k = None
-- 
2.43.0


From e734b4d22a366488b03ba66338754d70673c0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 020/139] fix: under-relaxation of iterations, entry points
 pre_wake and last

---
 foxes/algorithms/iterative/iterative.py            | 14 ++++++++++++++
 .../algorithms/iterative/models/farm_wakes_calc.py |  4 ++--
 foxes/algorithms/iterative/models/urelax.py        |  2 +-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 906b7ba..4eed51b 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -86,6 +86,20 @@ class Iterative(Downwind):
 
         self.verbosity = self.verbosity - 1
 
+    @property
+    def prev_farm_results(self):
+        """
+        Gets the farm results of the previous iteration,
+        in downwind order
+
+        Returns
+        -------
+        fres: xarray.Datatset
+            The farm results of the previous iteration
+
+        """
+        return self.__prev_farm_results
+
     @property
     def farm_results_downwind(self):
         """
diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index 4276598..a13a565 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -163,8 +163,8 @@ class FarmWakesCalculation(FarmDataModel):
         wake_res[FV.WEIGHT] = weights
         rotor.eval_rpoint_results(algo, mdata, fdata, wake_res, rwghts, yaw=ryaw)
         res = algo.farm_controller.calculate(algo, mdata, fdata, pre_rotor=False)
-        if self.urelax is not None:
-            res = self.urelax.calculate(algo, mdata, fdata, res)
         fdata.update(res)
+        if self.urelax is not None:
+            fdata.update(self.urelax.calculate(algo, mdata, fdata))
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
diff --git a/foxes/algorithms/iterative/models/urelax.py b/foxes/algorithms/iterative/models/urelax.py
index cb706b2..11e242e 100644
--- a/foxes/algorithms/iterative/models/urelax.py
+++ b/foxes/algorithms/iterative/models/urelax.py
@@ -71,7 +71,7 @@ class URelax(FarmDataModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        i0 = fdata.states_i0(counter=True, algo=algo)
+        i0 = fdata.states_i0(counter=True)
         i1 = i0 + fdata.n_states
         pres = algo.prev_farm_results
 
-- 
2.43.0


From 7b07249e6fd8f495dbddbe980b68a89732728b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 021/139] fix: final run of iterations returns the last results
 in farm order, also for ambient calculations

---
 foxes/algorithms/iterative/iterative.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 4eed51b..8ae2bc4 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -77,6 +77,7 @@ class Iterative(Downwind):
         )
         self.__prev_farm_results = None
         self._it = None
+        self._final_run = False
         self._mlist = None
         self._reamb = False
         self._urelax = None
@@ -183,7 +184,7 @@ class Iterative(Downwind):
         """
         Helper function that creates model list
         """
-        if self._it == 0:
+        if self._it == 0 and not self._final_run:
             self._mlist0, self._calc_pars0 = super()._collect_farm_models(
                 outputs=False,
                 calc_parameters=calc_parameters,
@@ -223,7 +224,7 @@ class Iterative(Downwind):
 
             return self._mlist0, self._calc_pars0
 
-        elif ambient or self._reamb:
+        elif (ambient or self._reamb) and not self._final_run:
             return self._mlist0, self._calc_pars0
 
         else:
@@ -263,7 +264,7 @@ class Iterative(Downwind):
 
     def _calc_farm_vars(self, mlist):
         """Helper function that gathers the farm variables"""
-        if self._it == 0:
+        if self._it == 0 and not self._final_run:
             super()._calc_farm_vars(mlist)
 
     def _launch_parallel_farm_calc(self, mlist, *data, **kwargs):
@@ -322,6 +323,11 @@ class Iterative(Downwind):
             fres = super().calc_farm(outputs=None, finalize=False, **kwargs)
 
             fres_dwnd = fres
+
+            # no iterations without wakes:
+            if kwargs.get("ambient", False):
+                break
+
             if self.conv_crit is not None:
                 if self.eval_conv_block():
                     self.print(f"{self.name}: Convergence blocked", vlim=0)
@@ -341,6 +347,7 @@ class Iterative(Downwind):
         # final run, recovers farm order of results:
         self.print("Starting final run", vlim=0)
         self._final_run = True
+        self.__prev_farm_results = fres
         fres = super().calc_farm(outputs=outputs, finalize=False, **kwargs)
 
         # finalize models:
-- 
2.43.0


From 87804aa9cf3a13d8f814b5d7ebd033b80be0254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 022/139] fix: sequential algorithm respects ambient flag,
 per-state points and model parameters

---
 foxes/algorithms/sequential/sequential.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/foxes/algorithms/sequential/sequential.py b/foxes/algorithms/sequential/sequential.py
index abcc3df..860e0f5 100644
--- a/foxes/algorithms/sequential/sequential.py
+++ b/foxes/algorithms/sequential/sequential.py
@@ -168,6 +168,7 @@ class Sequential(Iterative):
                         ),
                     )
                     for v in self.farm_vars
+                    if not self.ambient or v not in FV.var2amb
                 },
             )
             self._farm_results[FC.TNAME] = ((FC.TURBINE,), self.farm.turbine_names)
@@ -201,7 +202,8 @@ class Sequential(Iterative):
                 outputs=self.farm_vars,
                 finalize=False,
                 ret_dwnd_order=True,
-                **self.calc_pars,
+                calc_parameters=self.calc_pars,
+                ambient=self.ambient,
             )
 
             for v in self._farm_results.data_vars.keys():
@@ -219,7 +221,16 @@ class Sequential(Iterative):
                 return fres
 
             else:
-                pres = super().calc_points(fres, points=self.points, finalize=False)
+                points = self.points
+                if len(points) > 1:
+                    points = points[[self._i]]
+                pres = super().calc_points(
+                    fres,
+                    points=points,
+                    calc_parameters=self.calc_pars,
+                    finalize=False,
+                    ambient=self.ambient,
+                )
 
                 if self._point_results is None:
                     n_states = self._model_data.sizes[FC.STATE]
-- 
2.43.0


From a00a1042c3a9ddab2c9c0db86adbeb7fb537ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 023/139] fix: sequential algorithm lets states and turbine
 positions refer to the current state

---
 foxes/algorithms/downwind/models/init_farm_data.py |  4 +++-
 foxes/algorithms/sequential/models/seq_state.py    | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 2d23d61..51b8ac9 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -90,7 +90,9 @@ class InitFarmData(FarmDataModel):
             if len(t.xy.shape) == 1:
                 fdata[FV.TXYH][:, ti, :2] = t.xy[None, :]
             else:
-                i0 = fdata.states_i0(counter=True)
+                i0 = getattr(algo, "counter", None)  # sequential states
+                if i0 is None:
+                    i0 = fdata.states_i0(counter=True)
                 s = np.s_[i0 : i0 + fdata.n_states]
                 fdata[FV.TXYH][:, ti, :2] = t.xy[s]
 
diff --git a/foxes/algorithms/sequential/models/seq_state.py b/foxes/algorithms/sequential/models/seq_state.py
index 8b8759b..d889ec2 100644
--- a/foxes/algorithms/sequential/models/seq_state.py
+++ b/foxes/algorithms/sequential/models/seq_state.py
@@ -1,4 +1,5 @@
 from foxes.core.states import States
+from foxes.core.data import MData
 
 
 class SeqState(States):
@@ -142,4 +143,13 @@ class SeqState(States):
             (n_states, n_targets, n_tpoints)
 
         """
+        if self.counter is not None:
+            # let the original states know the current state counter:
+            mdata = MData(
+                data=dict(mdata),
+                dims=dict(mdata.dims),
+                loop_dims=mdata.loop_dims,
+                states_i0=self.counter,
+            )
+
         return self.states.calculate(algo, mdata, fdata, tdata)
-- 
2.43.0


From e8f7d3aeebeca0e24825cc8efba4ddc8d2ec265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 024/139] fix: pre_wake under-relaxation does not apply to
 ambient calculations

---
 foxes/algorithms/iterative/iterative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 8ae2bc4..3a2cd3b 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -213,7 +213,7 @@ class Iterative(Downwind):
                     self._reamb = True
                     n += 1
 
-                if len(self._urelax["pre_wake"]):
+                if len(self._urelax["pre_wake"]) and not ambient:
                     self._mlist0.models[5 + n].urelax = mdls.URelax(
                         **self._urelax["pre_wake"]
                     )
-- 
2.43.0


From 4ae1c648be94b402fb6445cfd648120998e47b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 025/139] fix: a choice of farm outputs does not remove
 variables needed during the calculation

---
 foxes/core/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/core/engine.py b/foxes/core/engine.py
index afaefb2..419baeb 100644
--- a/foxes/core/engine.py
+++ b/foxes/core/engine.py
@@ -374,7 +374,8 @@ class Engine(ABC):
 
             def cb(data, dims):
                 n_states = i1_states - i0_states
-                for o in set(out_vars).difference(data.keys()):
+                fvars = set(out_vars).union(algo.farm_vars)
+                for o in fvars.difference(data.keys()):
                     data[o] = np.full(
                         (n_states, algo.n_turbines), np.nan, dtype=config.dtype_double
                     )
-- 
2.43.0


From 0ed6a9d716193922ac34ed6433746df24aacfdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 026/139] fix: wind direction differences are the smallest
 angles for all inputs, also scalars

---
 foxes/utils/wind_dir.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/foxes/utils/wind_dir.py b/foxes/utils/wind_dir.py
index a91876a..63279f5 100644
--- a/foxes/utils/wind_dir.py
+++ b/foxes/utils/wind_dir.py
@@ -134,9 +134,7 @@ def delta_wd(wd_a, wd_b):
     :group: utils
 
     """
-    out = wd_b - wd_a
+    out = np.asarray(wd_b) - np.asarray(wd_a)
 
-    out[out < -180.0] += 360.0
-    out[out > 180.0] -= 360.0
-
-    return out
+    # map to the interval [-180, 180], where needed:
+    return np.where(np.abs(out) > 180.0, np.mod(out + 180.0, 360.0) - 180.0, out)[()]
-- 
2.43.0


From 9977b555f7a2726b58919bba7775462d65a3bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 027/139] fix: wind vector to direction conversion supports
 negative axis indices

---
 foxes/utils/wind_dir.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/foxes/utils/wind_dir.py b/foxes/utils/wind_dir.py
index 63279f5..50e23c6 100644
--- a/foxes/utils/wind_dir.py
+++ b/foxes/utils/wind_dir.py
@@ -82,10 +82,8 @@ def uv2wd(uv, axis=-1):
         u = uv[..., 0]
         v = uv[..., 1]
     else:
-        s = tuple(0 if a == axis else slice(None) for a in range(len(uv.shape)))
-        u = uv[s]
-        s = tuple(1 if a == axis else slice(None) for a in range(len(uv.shape)))
-        v = uv[s]
+        u = np.take(uv, 0, axis=axis)
+        v = np.take(uv, 1, axis=axis)
 
     return np.mod(180 + np.rad2deg(np.arctan2(u, v)), 360)
 
-- 
2.43.0


From 98fac5526d8a60ecf1454a27a886f17a71395744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 028/139] fix: circle intersection area for inputs that
 broadcast, and integer distances

---
 foxes/utils/two_circles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/two_circles.py b/foxes/utils/two_circles.py
index 60d120a..7067fd6 100644
--- a/foxes/utils/two_circles.py
+++ b/foxes/utils/two_circles.py
@@ -82,7 +82,8 @@ def calc_area(r1, r2, d):
     """
 
     # prepare:
-    out = np.zeros_like(d)
+    r1, r2, d = np.broadcast_arrays(r1, r2, d)
+    out = np.zeros(d.shape, dtype=np.float64)
 
     # condition d < r1 + r2:
     sel0 = d < r1 + r2
@@ -116,4 +117,4 @@ def calc_area(r1, r2, d):
             if np.any(seld):
                 out[seld] = area(r2[seld], r1[seld], d[seld])
 
-    return out
+    return out[()]
-- 
2.43.0


From d12171c3a89787bcfed5c111e2634707864f8aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 029/139] fix: cubic roots with a single or a triple real root

---
 foxes/utils/cubic_roots.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/foxes/utils/cubic_roots.py b/foxes/utils/cubic_roots.py
index 37da261..1c40a51 100644
--- a/foxes/utils/cubic_roots.py
+++ b/foxes/utils/cubic_roots.py
@@ -52,23 +52,21 @@ def cubic_roots(a0, a1, a2, a3=None):
     D = Q3 + R * R
     b_a_3 = (1.0 / 3.0) * b_a
 
-    sel = Q == 0.0
+    sel = (Q == 0.0) & (R == 0.0)
     if np.any(sel):
-        o = out[sel, 0]
+        # Triple root
+        out[sel] = -b_a_3[sel][:, None]
 
-        sel2 = R == 0.0
-        if np.any(sel2):
-            o[sel2] = -b_a_3[sel][sel2]
-
-        if np.any(~sel2):
-            o[~sel2] = np.pow(2 * R[sel][~sel2], 1 / 3.0) - b_a_3[sel][~sel2]
-
-        out[sel, 0] = o
+    sel = D > 0.0
+    if np.any(sel):
+        # One real root
+        A = np.cbrt(np.abs(R[sel]) + np.sqrt(D[sel])) * np.where(R[sel] < 0, -1.0, 1.0)
+        out[sel, 0] = A - Q[sel] / A - b_a_3[sel]
 
-    sel = D <= 0.0
+    sel = (D <= 0.0) & (Q < 0.0)
     if np.any(sel):
         # Three real roots
-        theta = np.arccos(R[sel] / np.sqrt(-Q3[sel]))
+        theta = np.arccos(np.clip(R[sel] / np.sqrt(-Q3[sel]), -1.0, 1.0))
         sqrt_Q = np.sqrt(-Q[sel])
 
         out[sel, 0] = 2 * sqrt_Q * np.cos(theta / 3.0) - b_a_3[sel]
-- 
2.43.0


From a175aa37f02c5211adfb78fbcf77305db9bfa084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 030/139] fix: nearest boundary point of a circle for points at
 the circle centre

---
 foxes/utils/geom2d/circle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/circle.py b/foxes/utils/geom2d/circle.py
index 2d1788c..242a364 100644
--- a/foxes/utils/geom2d/circle.py
+++ b/foxes/utils/geom2d/circle.py
@@ -89,9 +89,9 @@ class Circle(AreaGeometry):
             if np.all(sel):
                 minp = self.centre + deltas / magd[:, None] * self.radius
             else:
-                minp = np.zeros_like(points)
-                minp[sel] = deltas[sel] / magd[sel]
-                minp[~sel][:, 0] = 1
+                minp = np.zeros_like(deltas)
+                minp[sel] = deltas[sel] / magd[sel, None]
+                minp[~sel, 0] = 1
                 minp = self.centre + minp * self.radius
             return dists, minp
         else:
-- 
2.43.0


From 8f45aa1c47b445f7ef37260ed976e51540739b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 031/139] fix: polygons with integer point coordinates

---
 foxes/utils/geom2d/polygon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/utils/geom2d/polygon.py b/foxes/utils/geom2d/polygon.py
index 11aa015..469ae42 100644
--- a/foxes/utils/geom2d/polygon.py
+++ b/foxes/utils/geom2d/polygon.py
@@ -32,10 +32,10 @@ class ClosedPolygon(AreaGeometry):
             The polygon points, shape: (n_points, 2)
 
         """
-        self.points = points
+        self.points = np.array(points, dtype=np.float64)
 
-        if not np.all(points[0] == points[-1]):
-            self.points = np.append(self.points, points[[0]], axis=0)
+        if not np.all(self.points[0] == self.points[-1]):
+            self.points = np.append(self.points, self.points[[0]], axis=0)
 
         self.poly = Path(self.points, closed=True)
 
-- 
2.43.0


From 8655889b8155e7cd0e0d716c80a7c2ce77f3fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 032/139] fix: subtraction of a list of areas

---
 foxes/utils/geom2d/area_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index d9d9eb8..3302afa 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -214,7 +214,7 @@ class AreaGeometry(metaclass=ABCMeta):
 
     def __sub__(self, g):
         if isinstance(g, list):
-            return AreaIntersection([self] + g.inverse())
+            return AreaIntersection([self] + [h.inverse() for h in g])
         else:
             return AreaIntersection([self, g.inverse()])
 
-- 
2.43.0


From 7042d969eb548b53ca08c40662cfdcb0b6a45ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 033/139] fix: bounding box of intersections that are unbounded

---
 foxes/utils/geom2d/area_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/utils/geom2d/area_geometry.py b/foxes/utils/geom2d/area_geometry.py
index 3302afa..ae1d297 100644
--- a/foxes/utils/geom2d/area_geometry.py
+++ b/foxes/utils/geom2d/area_geometry.py
@@ -637,7 +637,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pmi[di]) and not np.isinf(imi[di]):
                         out[di] = np.minimum(out[di], imi[di])
             for di in range(2):
-                if not np.isinf(pmi[di]):
+                if not np.isinf(pmi[di]) or np.isinf(out[di]):
                     out[di] = -np.inf
             return out
 
@@ -665,7 +665,7 @@ class InvertedAreaUnion(InvertedAreaGeometry):
                     if np.isinf(pma[di]) and not np.isinf(ima[di]):
                         out[di] = np.maximum(out[di], ima[di])
             for di in range(2):
-                if not np.isinf(pma[di]):
+                if not np.isinf(pma[di]) or np.isinf(out[di]):
                     out[di] = np.inf
             return out
 
-- 
2.43.0


From af92ba1b85866a975b901049b01ecc3a0b572766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 034/139] fix: abl log profile with friction velocity given as
 a single value

---
 foxes/models/vertical_profiles/abl_log_ws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/vertical_profiles/abl_log_ws.py b/foxes/models/vertical_profiles/abl_log_ws.py
index a18a659..6b61817 100644
--- a/foxes/models/vertical_profiles/abl_log_ws.py
+++ b/foxes/models/vertical_profiles/abl_log_ws.py
@@ -81,7 +81,8 @@ class ABLLogWsProfile(VerticalProfile):
         mol[:] = data[FV.MOL]
 
         if self.ustar_input:
-            ustar = data[FV.USTAR]
+            ustar = np.zeros_like(heights)
+            ustar[:] = data[FV.USTAR]
         else:
             ws = np.zeros_like(heights)
             ws[:] = data[FV.WS]
-- 
2.43.0


From 88779626eae2c07002f069a2838f896e9bb72267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 035/139] fix: table states with variables that are provided by
 profiles only

---
 foxes/input/states/states_table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 8b43c49..00558f9 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -247,15 +247,20 @@ class StatesTable(States):
             )
 
         tcols = []
+        tvars = []
         for v in self._tvars:
             c = self.var2col.get(v, v)
             if c in data.columns:
                 tcols.append(c)
-            elif v not in self._profiles.keys():
+                tvars.append(v)
+            elif v not in self._profiles.keys() or any(
+                v in p.input_vars() for p in self._profiles.values()
+            ):
                 raise KeyError(
                     f"States '{self.name}': Missing variable '{c}' in states table columns, profiles or fixed vars"
                 )
         data = data[tcols]
+        self._tvars = tvars
 
         idata = super().load_data(algo, verbosity)
         idata["coords"][self.VARS] = self._tvars
-- 
2.43.0


From 71e397e40a630095e2898c92fff3cd5175c59614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 036/139] fix: nominal power of turbine types from tables has
 the unit of the table

---
 foxes/models/turbine_types/PCt_file.py     | 3 +--
 foxes/models/turbine_types/PCt_from_two.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/PCt_file.py b/foxes/models/turbine_types/PCt_file.py
index c7ab25a..4650f01 100644
--- a/foxes/models/turbine_types/PCt_file.py
+++ b/foxes/models/turbine_types/PCt_file.py
@@ -7,7 +7,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_file_name
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFile(TurbineType):
@@ -191,7 +190,7 @@ class PCtFile(TurbineType):
         self.data_ct = data[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self.data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self.data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 3cf176c..055beb9 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -6,7 +6,6 @@ from foxes.utils import PandasFileHelper
 from foxes.data import PCTCURVE, parse_Pct_two_files
 from foxes.config import get_input_path
 import foxes.variables as FV
-import foxes.constants as FC
 
 
 class PCtFromTwo(TurbineType):
@@ -222,7 +221,7 @@ class PCtFromTwo(TurbineType):
         self._data_ct = self._data_ct[self.col_ct].to_numpy()
 
         if self.P_nominal is None:
-            self.P_nominal = np.max(self._data_P) / FC.P_UNITS[self.P_unit]
+            self.P_nominal = np.max(self._data_P)
             if verbosity > 0:
                 print(
                     f"Turbine type '{self.name}': Setting P_nominal = {self.P_nominal:.2f} {self.P_unit}"
-- 
2.43.0


From 920546a033af3881da1ef3f2cc3a5d138ee3c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 037/139] fix: turbine types from two files respect additional
 parameters

---
 foxes/models/turbine_types/CpCt_from_two.py      | 1 +
 foxes/models/turbine_types/PCt_from_two.py       | 1 +
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 1 +
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 73c55a4..1b478fc 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -56,6 +56,7 @@ class CpCtFromTwo(PCtFromTwo):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_cp, data_source_ct)
+            pars.update(parameters)
             path_cp = get_input_path(data_source_cp)
             path_ct = get_input_path(data_source_ct)
             data_cp = PandasFileHelper.read_file(path_cp, **pd_file_read_pars_cp)
diff --git a/foxes/models/turbine_types/PCt_from_two.py b/foxes/models/turbine_types/PCt_from_two.py
index 055beb9..02fc00b 100644
--- a/foxes/models/turbine_types/PCt_from_two.py
+++ b/foxes/models/turbine_types/PCt_from_two.py
@@ -98,6 +98,7 @@ class PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index b69611f..452c67f 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -92,6 +92,7 @@ class WsRho2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 7dde34c..555d2b8 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -99,6 +99,7 @@ class WsTI2PCtFromTwo(TurbineType):
             data_source_ct, pd.DataFrame
         ):
             pars = parse_Pct_two_files(data_source_P, data_source_ct)
+            pars.update(parameters)
         else:
             pars = parameters
         super().__init__(**pars)
-- 
2.43.0


From 0c680a53db7f7f82abab592d8dae136b1fc7334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 038/139] fix: turbine type from cp and ct curves uses the ct
 curve, tables in any order

---
 foxes/models/turbine_types/CpCt_file.py     | 16 +++++++++++++++-
 foxes/models/turbine_types/CpCt_from_two.py |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_types/CpCt_file.py b/foxes/models/turbine_types/CpCt_file.py
index 6f4b959..32d29f3 100644
--- a/foxes/models/turbine_types/CpCt_file.py
+++ b/foxes/models/turbine_types/CpCt_file.py
@@ -23,6 +23,7 @@ class CpCtFile(PCtFile):
         data_source,
         col_ws="ws",
         col_cp="cp",
+        col_ct="ct",
         rho=1.225,
         pd_file_read_pars={},
         **parameters,
@@ -38,6 +39,8 @@ class CpCtFile(PCtFile):
             The wind speed column
         col_cp: str
             The cp column
+        col_ct: str
+            The ct column
         rho: float
             The air density for the curves
         pd_file_read_pars: dict
@@ -57,8 +60,10 @@ class CpCtFile(PCtFile):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data = data.sort_values(col_ws)
         ws = data[col_ws].to_numpy()
         cp = data[col_cp].to_numpy()
+        ct = data[col_ct].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
 
         ws_delta = 0.0001
@@ -72,5 +77,14 @@ class CpCtFile(PCtFile):
         data_P["P"] = (
             0.5 * rho * A * data_P["cp"] * data_P["ws"] ** 3 / FC.P_UNITS[P_unit]
         )
+        data_P["ct"] = np.interp(data_P["ws"], ws, ct, left=0, right=0)
 
-        super().__init__(data_P, col_ws="ws", col_P="P", rho=rho, P_unit=P_unit, **pars)
+        super().__init__(
+            data_P,
+            col_ws="ws",
+            col_P="P",
+            col_ct="ct",
+            rho=rho,
+            P_unit=P_unit,
+            **pars,
+        )
diff --git a/foxes/models/turbine_types/CpCt_from_two.py b/foxes/models/turbine_types/CpCt_from_two.py
index 1b478fc..5c8c252 100644
--- a/foxes/models/turbine_types/CpCt_from_two.py
+++ b/foxes/models/turbine_types/CpCt_from_two.py
@@ -68,6 +68,7 @@ class CpCtFromTwo(PCtFromTwo):
 
         D = pars["D"]
         A = np.pi * (D / 2) ** 2
+        data_cp = data_cp.sort_values(col_ws_cp_file)
         ws = data_cp[col_ws_cp_file].to_numpy()
         cp = data_cp[col_cp].to_numpy()
         P_unit = pars.pop("P_unit", FC.kW)
-- 
2.43.0


From 4cb4faa80a627e1f4e38d6eaa42965013b5f423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 039/139] fix: power curve file names without any parameters

---
 foxes/data/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/data/parse.py b/foxes/data/parse.py
index d33358f..cf7c08b 100644
--- a/foxes/data/parse.py
+++ b/foxes/data/parse.py
@@ -42,6 +42,8 @@ def parse_Pct_file_name(file_name):
         pieces = sname.split("-")
     elif "_" in sname:
         pieces = sname.split("_")
+    else:
+        pieces = [sname]
 
     pars["name"] = pieces[0]
     pieces = pieces[1:]
-- 
2.43.0


From 8f52518fa737fba618ef3527a9fa9d8a9f54f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 040/139] fix: turbine types from matrices do not modify the
 user's data frames

---
 foxes/models/turbine_types/wsrho2PCt_from_two.py | 4 ++--
 foxes/models/turbine_types/wsti2PCt_from_two.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 452c67f..4eb9d87 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -193,7 +193,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._rho_P = np.sort(data.columns.to_numpy())
@@ -212,7 +212,7 @@ class WsRho2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._rho_ct = np.sort(data.columns.to_numpy())
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 555d2b8..28d2891 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -205,7 +205,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_P)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_P = data.index.to_numpy(config.dtype_double)
         self._ti_P = np.sort(data.columns.to_numpy())
@@ -224,7 +224,7 @@ class WsTI2PCtFromTwo(TurbineType):
             pars.update(self.rpars_ct)
             data = PandasFileHelper.read_file(fpath, **pars)
 
-        data.sort_index(inplace=True)
+        data = data.sort_index()
         data.columns = data.columns.astype(config.dtype_double)
         self._ws_ct = data.index.to_numpy(config.dtype_double)
         self._ti_ct = np.sort(data.columns.to_numpy())
-- 
2.43.0


From 3b68e22ac46c5d12f394c7599f0bca98f7cf35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 041/139] fix: turbine types from wind speed and turbulence or
 density matrices support selections of turbines, and evaluate ct at its wind
 speed

---
 .../turbine_types/wsrho2PCt_from_two.py       | 113 +++++---------
 .../models/turbine_types/wsti2PCt_from_two.py | 141 ++++++------------
 2 files changed, 82 insertions(+), 172 deletions(-)

diff --git a/foxes/models/turbine_types/wsrho2PCt_from_two.py b/foxes/models/turbine_types/wsrho2PCt_from_two.py
index 4eb9d87..ce9cc70 100644
--- a/foxes/models/turbine_types/wsrho2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsrho2PCt_from_two.py
@@ -264,84 +264,43 @@ class WsRho2PCtFromTwo(TurbineType):
 
         """
 
-        # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.RHO][st_sel_P]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
-            # run interpolation:
-            try:
-                fdata[FV.P][st_sel_P] = interpn(
-                    (self._ws_P, self._rho_P), self._P, qts, **self.ipars_P
+        # copy, since slice type selections yield views:
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
+        rho = fdata[FV.RHO][st_sel]
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and (self.p_P is not None or self.p_ct is not None):
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
                 )
-            except ValueError as e:
-                self._bounds_info(FV.P, qts)
-                raise e
-        del st_sel_P, st_sel_P0
-
-        # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, rho
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.RHO][st_sel_ct]
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
-            # run interpolation:
-            try:
-                fdata[FV.CT][st_sel_ct] = interpn(
-                    (self._ws_ct, self._rho_ct), self._ct, qts, **self.ipars_ct
-                )
-            except ValueError as e:
-                self._bounds_info(FV.CT, qts)
-                raise e
+            cosm = np.cos(yawm / 180 * np.pi)
+            if self.p_ct is not None:
+                rews2 *= (cosm**self.p_ct) ** 0.5
+            if self.p_P is not None:
+                rews3 *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # run interpolation, with zero results outside of the wind speed range:
+        for v, ws, data_ws, data_rho, data, ipars in (
+            (FV.P, rews3, self._ws_P, self._rho_P, self._P, self.ipars_P),
+            (FV.CT, rews2, self._ws_ct, self._rho_ct, self._ct, self.ipars_ct),
+        ):
+            res = np.zeros_like(ws)
+            sel = (ws >= data_ws[0]) & (ws <= data_ws[-1])
+            if np.any(sel):
+                qts = np.stack([ws[sel], rho[sel]], axis=-1)
+                try:
+                    res[sel] = interpn((data_ws, data_rho), data, qts, **ipars)
+                except ValueError as e:
+                    self._bounds_info(v, qts)
+                    raise e
+            fdata[v][st_sel] = res
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
diff --git a/foxes/models/turbine_types/wsti2PCt_from_two.py b/foxes/models/turbine_types/wsti2PCt_from_two.py
index 28d2891..8fc1df9 100644
--- a/foxes/models/turbine_types/wsti2PCt_from_two.py
+++ b/foxes/models/turbine_types/wsti2PCt_from_two.py
@@ -276,102 +276,53 @@ class WsTI2PCtFromTwo(TurbineType):
 
         """
 
-        # calculate P:
-        st_sel_P = (
-            st_sel
-            & (fdata[self.WSP] >= self._ws_P[0])
-            & (fdata[self.WSP] <= self._ws_P[-1])
-        )
-        st_sel_P0 = st_sel & ~st_sel_P
-        if np.any(st_sel_P0):
-            fdata[FV.P][st_sel_P0] = 0
-        if np.any(st_sel_P):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_P)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_P]
-            qts[:, 1] = fdata[FV.TI][st_sel_P]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (rho / self.rho) ** (1.0 / 3.0)
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_P is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_P]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_P) ** (1.0 / 3.0)
-                del yawm, cosm
-
-            # run interpolation:
-            try:
-                fdata[FV.P][st_sel_P] = interpn(
-                    (self._ws_P, self._ti_P), self._P, qts, **self.ipars_P
+        # copy, since slice type selections yield views:
+        rews2 = fdata[self.WSCT][st_sel].copy()
+        rews3 = fdata[self.WSP][st_sel].copy()
+        ti = fdata[FV.TI][st_sel]
+
+        # apply air density correction:
+        if self.rho is not None:
+            # correct wind speed by air density, such
+            # that in the partial load region the
+            # correct value is reconstructed:
+            rho = fdata[FV.RHO][st_sel]
+            rews2 *= (rho / self.rho) ** 0.5
+            rews3 *= (rho / self.rho) ** (1.0 / 3.0)
+            del rho
+
+        # apply yaw corrections:
+        if FV.YAWM in fdata and (self.p_P is not None or self.p_ct is not None):
+            # calculate corrected wind speed wsc,
+            # gives ws**3 * cos**p_P in partial load region
+            # and smoothly deals with full load region:
+            yawm = fdata[FV.YAWM][st_sel]
+            if np.any(np.isnan(yawm)):
+                raise ValueError(
+                    f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
                 )
-            except ValueError as e:
-                self._bounds_info(FV.P, qts)
-                raise e
-        del st_sel_P, st_sel_P0
-
-        # calculate ct:
-        st_sel_ct = (
-            st_sel
-            & (fdata[self.WSCT] >= self._ws_P[0])
-            & (fdata[self.WSCT] <= self._ws_P[-1])
-        )
-        st_sel_ct0 = st_sel & ~st_sel_ct
-        if np.any(st_sel_ct0):
-            fdata[FV.CT][st_sel_ct0] = 0
-        if np.any(st_sel_ct):
-            # prepare interpolation:
-            n_sel = np.sum(st_sel_ct)
-            qts = np.zeros((n_sel, 2), dtype=config.dtype_double)  # ws, ti
-            qts[:, 0] = fdata[self.WSP][st_sel_ct]
-            qts[:, 1] = fdata[FV.TI][st_sel_ct]
-
-            # apply air density correction:
-            if self.rho is not None:
-                # correct wind speed by air density, such
-                # that in the partial load region the
-                # correct value is reconstructed:
-                rho = fdata[FV.RHO][st_sel]
-                qts[:, 0] *= (rho / self.rho) ** 0.5
-                del rho
-
-            # apply yaw corrections:
-            if FV.YAWM in fdata and self.p_ct is not None:
-                # calculate corrected wind speed wsc,
-                # gives ws**3 * cos**p_P in partial load region
-                # and smoothly deals with full load region:
-                yawm = fdata[FV.YAWM][st_sel_ct]
-                if np.any(np.isnan(yawm)):
-                    raise ValueError(
-                        f"{self.name}: Found NaN values for variable '{FV.YAWM}'. Maybe change order in turbine_models?"
-                    )
-                cosm = np.cos(yawm / 180 * np.pi)
-                qts[:, 0] *= (cosm**self.p_ct) ** 0.5
-                del yawm, cosm
-
-            # run interpolation:
-            try:
-                fdata[FV.CT][st_sel_ct] = interpn(
-                    (self._ws_ct, self._ti_ct), self._ct, qts, **self.ipars_ct
-                )
-            except ValueError as e:
-                self._bounds_info(FV.CT, qts)
-                raise e
+            cosm = np.cos(yawm / 180 * np.pi)
+            if self.p_ct is not None:
+                rews2 *= (cosm**self.p_ct) ** 0.5
+            if self.p_P is not None:
+                rews3 *= (cosm**self.p_P) ** (1.0 / 3.0)
+            del yawm, cosm
+
+        # run interpolation, with zero results outside of the wind speed range:
+        for v, ws, data_ws, data_ti, data, ipars in (
+            (FV.P, rews3, self._ws_P, self._ti_P, self._P, self.ipars_P),
+            (FV.CT, rews2, self._ws_ct, self._ti_ct, self._ct, self.ipars_ct),
+        ):
+            res = np.zeros_like(ws)
+            sel = (ws >= data_ws[0]) & (ws <= data_ws[-1])
+            if np.any(sel):
+                qts = np.stack([ws[sel], ti[sel]], axis=-1)
+                try:
+                    res[sel] = interpn((data_ws, data_ti), data, qts, **ipars)
+                except ValueError as e:
+                    self._bounds_info(v, qts)
+                    raise e
+            fdata[v][st_sel] = res
 
         return {v: fdata[v] for v in self.output_farm_vars(algo)}
 
-- 
2.43.0


From 42060898bbd869c927cfaf9fabb45027f69b033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 042/139] fix: lookup tables with a single input variable

---
 foxes/models/turbine_models/lookup_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 5ae07d9..636171a 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -138,7 +138,7 @@ class LookupTable(TurbineModel):
             if len(self.varmap):
                 data = data.rename(columns={c: v for v, c in self.varmap.items()})
             data = data[self.input_vars + self.output_vars]
-            data.sort_values(by=self.input_vars, inplace=True)
+            data = data.sort_values(by=self.input_vars)
             coords = {
                 v: np.asarray(data[v].unique(), dtype=config.dtype_double)
                 for v in self.input_vars
@@ -150,7 +150,7 @@ class LookupTable(TurbineModel):
                 dvars[oname] = (
                     self.input_vars,
                     pivot_matrix.to_numpy(config.dtype_double).reshape(
-                        pivot_matrix.index.levshape
+                        [len(c) for c in coords.values()]
                     ),
                 )
 
-- 
2.43.0


From 465634a6b9171a5c1f860c63831edc4ec199cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 043/139] fix: lookup table turbine types evaluate ct at its
 wind speed, and support column mapping and file reading parameters

---
 foxes/models/turbine_types/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/turbine_types/lookup.py b/foxes/models/turbine_types/lookup.py
index df8a0c8..1b636c4 100644
--- a/foxes/models/turbine_types/lookup.py
+++ b/foxes/models/turbine_types/lookup.py
@@ -108,6 +108,7 @@ class FromLookupTable(TurbineType):
             input_vars=input_vars,
             output_vars=[FV.P, FV.CT],
             varmap=varmap,
+            pd_file_read_pars=pd_file_read_pars,
             interpn_args=iargs,
             **lookup_pars,
         )
@@ -186,8 +187,7 @@ class FromLookupTable(TurbineType):
         """
         super().initialize(algo, verbosity, force)
         if self.P_nominal is None:
-            col_P = self._lookup.varmap.get(FV.P, FV.P)
-            self.P_nominal = np.max(self._lookup._data[col_P].to_numpy())
+            self.P_nominal = np.max(self._lookup._data[FV.P].to_numpy())
 
     def modify_cutin(
         self,
@@ -308,9 +308,9 @@ class FromLookupTable(TurbineType):
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
         else:
             fdata_lookup[FV.REWS] = rews2
-            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT]
+            ct = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)[FV.CT].copy()
             fdata_lookup[FV.REWS] = rews3
             out = self._lookup.calculate(algo, mdata, fdata_lookup, st_sel)
-            out[FV.CT] = ct
+            out[FV.CT][:] = ct
 
         return out
-- 
2.43.0


From 0e5306d17ec573a7362039eccfc8a34f0a1040a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 044/139] fix: downwind order of variables set by pre-rotor
 turbine models

---
 foxes/algorithms/downwind/models/init_farm_data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index 51b8ac9..e4e85d4 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -130,6 +130,13 @@ class InitFarmData(FarmDataModel):
             if np.any(fdata[v] != fdata[v][0, 0, None, None]):
                 fdata[v] = fdata[v][ssel, order]
         fdata[FV.YAW] = fdata[FV.WD].copy()
+
+        # apply downwind order to results of pre-rotor models:
+        skip = self.output_farm_vars(algo)
+        for k in fdata.keys():
+            if k not in skip and fdata[k].shape == (n_states, n_turbines):
+                fdata[k] = fdata[k][ssel, order]
+
         for k in mdata.keys():
             if tuple(mdata.dims[k][:2]) == (FC.STATE, FC.TURBINE) and np.any(
                 mdata[k] != mdata[k][0, 0, None, None]
-- 
2.43.0


From 3292c7517b96ffcb01ad34b9a7eb7c5b974bd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 045/139] fix: tables of states from netcdf files

---
 foxes/input/states/multi_height.py | 4 +++-
 foxes/input/states/states_table.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index b5d204a..a5d26d3 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -210,7 +210,9 @@ class MultiHeightStates(States):
                     print(f"Path: {self.data_source}")
             elif verbosity:
                 print(f"States '{self.name}': Reading file {self.data_source}")
-            rpars = dict(self.RDICT, **self.rpars)
+            rpars = dict(self.rpars)
+            if self.data_source.suffix != ".nc":
+                rpars = dict(self.RDICT, **rpars)
             data = PandasFileHelper().read_file(self.data_source, **rpars)
         else:
             data = self.data_source
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 00558f9..d61b2dd 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -227,7 +227,9 @@ class StatesTable(States):
                     print(f"Path: {self.data_source}")
             elif verbosity:
                 print(f"States '{self.name}': Reading file {self.data_source}")
-            rpars = dict(self.RDICT, **self.rpars)
+            rpars = dict(self.rpars)
+            if self.data_source.suffix != ".nc":
+                rpars = dict(self.RDICT, **rpars)
             data = PandasFileHelper().read_file(self.data_source, **rpars)
 
         if self.states_sel is not None:
-- 
2.43.0


From 71f25f289d2e4fba766b8795ac147c807bee5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 046/139] fix: positional parameters of tab file states

---
 foxes/input/states/states_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index d61b2dd..d727d79 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -509,7 +509,7 @@ class TabStates(StatesTable):
                 f"Expecting str, Path or xarray.Dataset as data_source, got {type(data_source)}"
             )
 
-        super().__init__(data_source=None, *args, **kwargs)
+        super().__init__(None, *args, **kwargs)
 
     def load_data(self, algo, verbosity=0):
         """
-- 
2.43.0


From f34ae4367544e74987d54fc7bd5a4f5f63bea368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 047/139] fix: gridded inflow data cover the bounds of the
 farm, and leave the user's selection unchanged

---
 foxes/input/states/field_data_nc.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 8a1b3bc..e032c5e 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -12,6 +12,17 @@ import foxes.constants as FC
 from foxes.config import config, get_input_path
 
 
+def _bounds_slice(x, x_min, x_max):
+    """Helper function, finds the index range that covers the given bounds"""
+    if len(x) < 2:
+        return slice(None)
+    descending = x[0] > x[-1]
+    xs = x[::-1] if descending else x
+    i0 = np.clip(np.searchsorted(xs, x_min, side="right") - 1, 0, len(x) - 2)
+    i1 = np.clip(np.searchsorted(xs, x_max, side="left") + 1, 2, len(x))
+    return slice(len(x) - i1, len(x) - i0) if descending else slice(i0, i1)
+
+
 def _read_nc_file(
     fpath,
     coords,
@@ -20,6 +31,7 @@ def _read_nc_file(
     sel,
     isel,
     minimal,
+    bounds={},
 ):
     """Helper function for nc file reading"""
     data = xr.open_dataset(fpath, engine=nc_engine)
@@ -37,6 +49,10 @@ def _read_nc_file(
             data = data.isel(**isel)
         if sel is not None and len(sel):
             data = data.sel(**sel)
+        for c, (c_min, c_max) in bounds.items():
+            if c in data.dims:
+                s = _bounds_slice(data[c].to_numpy(), c_min, c_max)
+                data = data.isel({c: s})
         return data
 
 
@@ -377,6 +393,7 @@ class FieldDataNC(States):
                     )
 
             # find bounds:
+            self._bounds = {}
             if self.x_coord is not None and self.x_coord not in self.sel:
                 xy_min, xy_max = algo.farm.get_xy_bounds(
                     extra_space=self.bounds_extra_space, algo=algo
@@ -385,12 +402,9 @@ class FieldDataNC(States):
                     print(
                         f"States '{self.name}': Restricting to bounds {xy_min} - {xy_max}"
                     )
-                self.sel.update(
-                    {
-                        self.x_coord: slice(xy_min[0], xy_max[1]),
-                        self.y_coord: slice(xy_min[1], xy_max[1]),
-                    }
-                )
+                for i, c in enumerate([self.x_coord, self.y_coord]):
+                    if c not in self.sel and c not in self.isel:
+                        self._bounds[c] = (xy_min[i], xy_max[i])
 
             # read files:
             if verbosity > 0:
@@ -419,6 +433,7 @@ class FieldDataNC(States):
                 isel=self.isel,
                 sel=self.sel,
                 minimal=self.load_mode == "fly",
+                bounds=self._bounds,
             )
 
             if self.load_mode in ["preload", "lazy"]:
@@ -700,6 +715,7 @@ class FieldDataNC(States):
                                 isel=isel,
                                 sel=self.sel,
                                 minimal=False,
+                                bounds=self._bounds,
                             )
                         )
 
-- 
2.43.0


From 32e72e27c8c06d0c28b4823467937720f01abbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 048/139] fix: selections of states for gridded inflow data
 that is read on the fly

---
 foxes/input/states/field_data_nc.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index e032c5e..d662c0a 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -1,7 +1,6 @@
 import numpy as np
 import pandas as pd
 import xarray as xr
-from copy import copy
 from scipy.interpolate import interpn
 
 from foxes.core import States, get_engine
@@ -32,6 +31,7 @@ def _read_nc_file(
     isel,
     minimal,
     bounds={},
+    states_isel=None,
 ):
     """Helper function for nc file reading"""
     data = xr.open_dataset(fpath, engine=nc_engine)
@@ -41,7 +41,12 @@ def _read_nc_file(
                 f"Missing coordinate '{c}' in file {fpath}, got: {list(data.coords.keys())}"
             )
     if minimal:
-        return data[coords[0]].to_numpy()
+        data = data[coords[0]]
+        if isel is not None and coords[0] in isel:
+            data = data.isel({coords[0]: isel[coords[0]]})
+        if sel is not None and coords[0] in sel:
+            data = data.sel({coords[0]: sel[coords[0]]})
+        return np.atleast_1d(data.to_numpy())
     else:
         data = data[vars]
         data.attrs = {}
@@ -49,6 +54,8 @@ def _read_nc_file(
             data = data.isel(**isel)
         if sel is not None and len(sel):
             data = data.sel(**sel)
+        if states_isel is not None:
+            data = data.isel({coords[0]: states_isel})
         for c, (c_min, c_max) in bounds.items():
             if c in data.dims:
                 s = _bounds_slice(data[c].to_numpy(), c_min, c_max)
@@ -703,19 +710,17 @@ class FieldDataNC(States):
                     if i0 < j1:
                         a = i0 - j0
                         b = min(i1, j1) - j0
-                        isel = copy(self.isel)
-                        isel[self.states_coord] = slice(a, b)
-
                         data.append(
                             _read_nc_file(
                                 fpath,
                                 coords=coords,
                                 vars=vars,
                                 nc_engine=config.nc_engine,
-                                isel=isel,
+                                isel=self.isel,
                                 sel=self.sel,
                                 minimal=False,
                                 bounds=self._bounds,
+                                states_isel=slice(a, b),
                             )
                         )
 
-- 
2.43.0


From 6ac36380e5d66367a54d42abb6e43c86424fe751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 049/139] fix: fixed wind speed or wind direction for gridded
 inflow data

---
 foxes/input/states/field_data_nc.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index d662c0a..34e7c58 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -279,7 +279,7 @@ class FieldDataNC(States):
                 )
 
         data = np.zeros(
-            (n_sts, n_h, n_y, n_x, len(self.var2ncvar)), dtype=config.dtype_double
+            (n_sts, n_h, n_y, n_x, self._n_dvars), dtype=config.dtype_double
         )
         for v in vars_shyx:
             ncv = self.var2ncvar[v]
@@ -301,12 +301,9 @@ class FieldDataNC(States):
         for v in vars_s:
             ncv = self.var2ncvar[v]
             data[..., self._dkys[v]] = ds[ncv].to_numpy()[:, None, None, None]
-        if FV.WD in self.fixed_vars:
-            data[..., self._dkys[FV.WD]] = np.full(
-                (n_sts, n_h, n_y, n_x),
-                self.fixed_vars[FV.WD],
-                dtype=config.dtype_double,
-            )
+        for v in [FV.WS, FV.WD]:
+            if v in self._dkys and v in self.fixed_vars:
+                data[..., self._dkys[v]] = self.fixed_vars[v]
 
         weights = None
         if self.weight_ncvar is not None:
@@ -486,7 +483,6 @@ class FieldDataNC(States):
         self._dkys = {}
         if FV.WS in self.ovars:
             self._dkys[FV.WD] = 0
-        if FV.WS in self.var2ncvar:
             self._dkys[FV.WS] = 1
         for v in self.var2ncvar:
             if v not in self._dkys:
@@ -746,11 +742,7 @@ class FieldDataNC(States):
         # translate WS, WD into U, V:
         if FV.WD in self.ovars and FV.WS in self.ovars:
             wd = data[..., self._dkys[FV.WD]]
-            ws = (
-                data[..., self._dkys[FV.WS]]
-                if FV.WS in self._dkys
-                else self.fixed_vars[FV.WS]
-            )
+            ws = data[..., self._dkys[FV.WS]]
             wdwsi = [self._dkys[FV.WD], self._dkys[FV.WS]]
             data[..., wdwsi] = wd2uv(wd, ws, axis=-1)
             del ws, wd
@@ -848,8 +840,8 @@ class FieldDataNC(States):
             out[FV.WD] = uv2wd(uv, axis=-1)
             del uv
         for v in self.ovars:
-            if v != FV.WEIGHT and v not in out:
-                if v in self._dkys:
+            if v != FV.WEIGHT and (v not in out or v in self.fixed_vars):
+                if v not in self.fixed_vars:
                     out[v] = data[..., self._dkys[v]]
                 else:
                     out[v] = np.full(
-- 
2.43.0


From 60013b808d59b6b9fb96e66e5e4b2cadae1378ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 050/139] fix: gridded inflow data from data sets, and for
 farms at different locations

---
 foxes/input/states/field_data_nc.py | 77 ++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/foxes/input/states/field_data_nc.py b/foxes/input/states/field_data_nc.py
index 34e7c58..1c415d7 100644
--- a/foxes/input/states/field_data_nc.py
+++ b/foxes/input/states/field_data_nc.py
@@ -205,10 +205,17 @@ class FieldDataNC(States):
         }
 
         self._N = None
+        self._bounds = None
 
-        self.__data_source = data_source
         self.__inds = None
 
+        if isinstance(data_source, xr.Dataset):
+            self.__files = None
+            self.__data_source = data_source.isel(**self.isel).sel(**self.sel)
+        else:
+            self.__files = data_source
+            self.__data_source = data_source
+
     @property
     def data_source(self):
         """
@@ -371,33 +378,43 @@ class FieldDataNC(States):
 
         # pre-load file reading:
         coords = [self.states_coord, self.h_coord, self.y_coord, self.x_coord]
-        if not isinstance(self.data_source, xr.Dataset):
-
-            # check variables:
-            for v in self.ovars:
-                if v == FV.WEIGHT and self.weight_ncvar is None:
-                    pass
-                elif v not in self.var2ncvar and v not in self.fixed_vars:
-                    raise ValueError(
-                        f"States '{self.name}': Variable '{v}' neither found in var2ncvar not in fixed_vars"
-                    )
-            if (FV.WS in self.ovars and FV.WD not in self.ovars) or (
-                FV.WS not in self.ovars and FV.WD in self.ovars
-            ):
-                raise KeyError(
-                    f"States '{self.name}': Missing '{FV.WS}' or '{FV.WD}' in output variables {self.ovars}"
+
+        # check variables:
+        for v in self.ovars:
+            if v == FV.WEIGHT and self.weight_ncvar is None:
+                pass
+            elif v not in self.var2ncvar and v not in self.fixed_vars:
+                raise ValueError(
+                    f"States '{self.name}': Variable '{v}' neither found in var2ncvar not in fixed_vars"
                 )
+        if (FV.WS in self.ovars and FV.WD not in self.ovars) or (
+            FV.WS not in self.ovars and FV.WD in self.ovars
+        ):
+            raise KeyError(
+                f"States '{self.name}': Missing '{FV.WS}' or '{FV.WD}' in output variables {self.ovars}"
+            )
+
+        # case data:
+        if self.__files is None:
+            if self.load_mode == "fly":
+                raise ValueError(
+                    f"States '{self.name}': Load mode 'fly' requires data from files"
+                )
+            self.__inds = self.__data_source[self.states_coord].to_numpy()
+            self._N = len(self.__inds)
 
+        # case files:
+        else:
             # check static data:
-            fpath = get_input_path(self.data_source)
-            if "*" not in str(self.data_source):
+            fpath = get_input_path(self.__files)
+            if "*" not in str(self.__files):
                 if not fpath.is_file():
                     fpath = StaticData().get_file_path(
                         STATES, fpath.name, check_raw=False
                     )
 
             # find bounds:
-            self._bounds = {}
+            bounds = {}
             if self.x_coord is not None and self.x_coord not in self.sel:
                 xy_min, xy_max = algo.farm.get_xy_bounds(
                     extra_space=self.bounds_extra_space, algo=algo
@@ -408,21 +425,25 @@ class FieldDataNC(States):
                     )
                 for i, c in enumerate([self.x_coord, self.y_coord]):
                     if c not in self.sel and c not in self.isel:
-                        self._bounds[c] = (xy_min[i], xy_max[i])
+                        bounds[c] = (xy_min[i], xy_max[i])
 
-            # read files:
+        # read files, unless done before:
+        if self.__files is not None and (
+            self.__inds is None or bounds != self._bounds
+        ):
+            self._bounds = bounds
             if verbosity > 0:
                 if self.load_mode == "preload":
                     print(
-                        f"States '{self.name}': Reading data from '{self.data_source}'"
+                        f"States '{self.name}': Reading data from '{self.__files}'"
                     )
                 elif self.load_mode == "lazy":
                     print(
-                        f"States '{self.name}': Reading header from '{self.data_source}'"
+                        f"States '{self.name}': Reading header from '{self.__files}'"
                     )
                 else:
                     print(
-                        f"States '{self.name}': Reading states from '{self.data_source}'"
+                        f"States '{self.name}': Reading states from '{self.__files}'"
                     )
             files = sorted(list(fpath.resolve().parent.glob(fpath.name)))
             vars = list(self.var2ncvar.values())
@@ -474,10 +495,10 @@ class FieldDataNC(States):
                     f"States '{self.name}': Unknown load_mode '{self.load_mode}', choices: preload, lazy, fly"
                 )
 
-            if self.time_format is not None:
-                self.__inds = pd.to_datetime(
-                    self.__inds, format=self.time_format
-                ).to_numpy()
+        if self.time_format is not None:
+            self.__inds = pd.to_datetime(
+                self.__inds, format=self.time_format
+            ).to_numpy()
 
         # ensure WD and WS get the first two slots of data:
         self._dkys = {}
-- 
2.43.0


From c2563f94e7396361a9c10b460bce02bbebfc990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 051/139] fix: multi-height inflow data for heights in any
 order

---
 foxes/input/states/multi_height.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index a5d26d3..26fbb11 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -424,9 +424,8 @@ class MultiHeightStates(States):
         coeffs = np.zeros((n_h, n_h), dtype=config.dtype_double)
         np.fill_diagonal(coeffs, 1.0)
         ipars = dict(
-            assume_sorted=True,
             bounds_error=True,
-            fill_value=(coeffs[0], coeffs[-1]),
+            fill_value=(coeffs[np.argmin(h)], coeffs[np.argmax(h)]),
         )
         ipars.update(self.ipars)
         intp = interp1d(h, coeffs, axis=0, **ipars)
-- 
2.43.0


From 3b5bc3bbe325c1d03a2d2b5fc75df155189713ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 052/139] fix: wind speed that is uniform in multi-height
 inflow data with height dependent wind direction

---
 foxes/input/states/multi_height.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index 26fbb11..cacc9a1 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -470,7 +470,7 @@ class MultiHeightStates(States):
         for v in self.ovars:
             if has_wd and v == FV.WD:
                 results[v] = uv2wd(uv, axis=-1)
-            elif has_wd and v == FV.WS:
+            elif v == FV.WS and has_wd and v in vrs:
                 results[v] = np.linalg.norm(uv, axis=-1)
             elif v in self.fixed_vars:
                 results[v] = np.zeros(
-- 
2.43.0


From 2f287e0c6a0130a65bad86b80550495f81cd6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 053/139] fix: multi-height inflow data from netcdf files with
 variables that do not depend on height

---
 foxes/input/states/multi_height.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index cacc9a1..c2608ed 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -658,7 +658,7 @@ class MultiHeightNCStates(MultiHeightStates):
                 continue
             c = self.var2col.get(v, v)
             if c in data.attrs:
-                self._solo[v] = np.full(self._N, data.attrs)
+                self._solo[v] = np.full(self._N, data.attrs[c])
             elif c in data.data_vars:
                 if data[c].dims == (self.state_coord,):
                     self._solo[v] = data.data_vars[c].to_numpy()
@@ -688,12 +688,12 @@ class MultiHeightNCStates(MultiHeightStates):
         idata["coords"][self.VARS] = list(cols.keys())
 
         dims = (FC.STATE, self.VARS, self.H)
-        idata["data_vars"][self.DATA] = (
-            dims,
-            np.stack(
-                [data.data_vars[c].to_numpy() for c in cols.values()], axis=1
-            ).astype(config.dtype_double),
+        hdata = np.zeros(
+            (self._N, len(cols), len(self.heights)), dtype=config.dtype_double
         )
+        for i, c in enumerate(cols.values()):
+            hdata[:, i] = data.data_vars[c].to_numpy()
+        idata["data_vars"][self.DATA] = (dims, hdata)
         if weights is not None:
             idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
         for v, d in self._solo.items():
-- 
2.43.0


From 4ce821c061101bb184b5f1812bc53f0b898cf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 054/139] fix: bounds of wind resource grid data contain the
 farm

---
 foxes/input/states/wrg_states.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index 08d4610..ae3c90a 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -109,7 +109,7 @@ class WRGStates(States):
         ny = wrg.ny
         ns = wrg.n_sectors
         res = wrg.resolution
-        p1 = p0 + np.array([nx * res, ny * res])
+        p1 = p0 + np.array([(nx - 1) * res, (ny - 1) * res])
         if verbosity > 0:
             print(f"States '{self.name}': Data bounds {p0} - {p1}")
 
@@ -120,8 +120,10 @@ class WRGStates(States):
             )
             if verbosity > 0:
                 print(f"States '{self.name}': Farm bounds {xy_min} - {xy_max}")
-            ij_min = np.asarray((xy_min - p0) / res, dtype=config.dtype_int)
-            ij_max = np.asarray((xy_max - p0) / res, dtype=config.dtype_int) + 1
+            ij_min = np.ceil((xy_min - p0) / res).astype(config.dtype_int) - 1
+            ij_max = np.floor((xy_max - p0) / res).astype(config.dtype_int) + 2
+            ij_min = np.maximum(ij_min, 0)
+            ij_max = np.maximum(np.minimum(ij_max, [nx, ny]), 0)
             sx = slice(ij_min[0], ij_max[0])
             sy = slice(ij_min[1], ij_max[1])
         else:
-- 
2.43.0


From 0b344c6795455f3c9cefc5ca6e5a229daa4a867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:11 +0000
Subject: [PATCH 055/139] fix: weights of wind resource grid states are
 fractions, not percentages

---
 foxes/input/states/wrg_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/wrg_states.py b/foxes/input/states/wrg_states.py
index ae3c90a..c8b5876 100644
--- a/foxes/input/states/wrg_states.py
+++ b/foxes/input/states/wrg_states.py
@@ -149,7 +149,7 @@ class WRGStates(States):
         for s in range(ns):
             A.append(wrg.data[f"As_{s}"].to_numpy().reshape(ny, nx)[sy, sx])
             k.append(wrg.data[f"Ks_{s}"].to_numpy().reshape(ny, nx)[sy, sx])
-            f.append(wrg.data[f"fs_{s}"].to_numpy().reshape(ny, nx)[sy, sx])
+            f.append(wrg.data[f"fs_{s}"].to_numpy().reshape(ny, nx)[sy, sx] / 100)
         del wrg
         A = np.stack(A, axis=0).T
         k = np.stack(k, axis=0).T
-- 
2.43.0


From feb3de0246c64b97cd53ae8da466097f18448f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 056/139] fix: one-point flow keeps variables that are listed
 before wind speed and direction

---
 foxes/input/states/one_point_flow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 012c3a8..0782357 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -469,7 +469,8 @@ class OnePointFlowStates(States):
                         [ires[:, :, vres.index("U")], ires[:, :, vres.index("V")]],
                         axis=-1,
                     )
-                    results = {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    results[FV.WD] = uv2wd(uv)
+                    results[FV.WS] = np.linalg.norm(uv, axis=-1)
                     del uv
 
         # no dependence on height:
@@ -482,7 +483,8 @@ class OnePointFlowStates(States):
                     uv = np.stack(
                         [_interp_time(hi, "U"), _interp_time(hi, "V")], axis=-1
                     )
-                    results = {FV.WD: uv2wd(uv), FV.WS: np.linalg.norm(uv, axis=-1)}
+                    results[FV.WD] = uv2wd(uv)
+                    results[FV.WS] = np.linalg.norm(uv, axis=-1)
                     del uv
 
         # set weights:
-- 
2.43.0


From ad665df4fbb3449f27e4b68606b4a6b6fe6fbd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 057/139] fix: positional arguments of the base states of
 one-point flow

---
 foxes/input/states/one_point_flow.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 0782357..25dbdad 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -526,9 +526,9 @@ class OnePointFlowTimeseries(OnePointFlowStates):
             tl_heights = [100.0]
         super().__init__(
             ref_xy,
+            "Timeseries",
             *args,
             tl_heights=tl_heights,
-            states_type="Timeseries",
             **kwargs,
         )
 
@@ -542,19 +542,22 @@ class OnePointFlowMultiHeightTimeseries(OnePointFlowStates):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, ref_xy, *args, **kwargs):
         """
         Constructor.
 
         Parameters
         ----------
+        ref_xy: list of float
+            The [x, y] or [x, y, z] coordinates of the base states.
+            If [x, y, z] then z will serve as height
         args: tuple, optional
             Parameters for the base class
         kwargs: dict, optional
             Parameters for the base class
 
         """
-        super().__init__(*args, states_type="MultiHeightTimeseries", **kwargs)
+        super().__init__(ref_xy, "MultiHeightTimeseries", *args, **kwargs)
 
 
 class OnePointFlowMultiHeightNCTimeseries(OnePointFlowStates):
@@ -566,16 +569,19 @@ class OnePointFlowMultiHeightNCTimeseries(OnePointFlowStates):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, ref_xy, *args, **kwargs):
         """
         Constructor.
 
         Parameters
         ----------
+        ref_xy: list of float
+            The [x, y] or [x, y, z] coordinates of the base states.
+            If [x, y, z] then z will serve as height
         args: tuple, optional
             Parameters for the base class
         kwargs: dict, optional
             Parameters for the base class
 
         """
-        super().__init__(*args, states_type="MultiHeightNCTimeseries", **kwargs)
+        super().__init__(ref_xy, "MultiHeightNCTimeseries", *args, **kwargs)
-- 
2.43.0


From d4fdf815ab18ab2afb74ad6cc0431a6c79222990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 058/139] fix: one-point flow weights of the measured values
 next to the reference plane

---
 foxes/input/states/one_point_flow.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 25dbdad..57f6025 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -271,8 +271,8 @@ class OnePointFlowStates(States):
         coeffs = np.full((n_states, n_points), np.nan, dtype=config.dtype_double)
 
         # flake8: noqa: F821
-        def _eval_trace(sel, hdxy=None, hdxy0=None, trs=None):
-            """Helper function that updates trace_done"""
+        def _eval_trace(sel, hdxy=None, hdxy0=None, backwards=True):
+            """Helper function that updates coeffs, the weights of the previous state"""
             nonlocal coeffs
 
             # project onto local x direction:
@@ -282,9 +282,9 @@ class OnePointFlowStates(States):
 
             # check for local points:
             if hdxy is None:
-                seld = (projx >= 1e-10) & (projx <= 1e-10)
+                seld = np.abs(projx) <= 1e-10
                 if np.any(seld):
-                    coeffs[sel] = np.where(seld, -1, coeffs[sel])
+                    coeffs[sel] = np.where(seld, 0, coeffs[sel])
 
             # check for vicinity to reference plane:
             else:
@@ -293,7 +293,9 @@ class OnePointFlowStates(States):
                     (lx > 0) & (projx >= 0) & (projx <= lx)
                 )
                 if np.any(seld):
-                    w = projx / np.abs(lx)
+                    w = projx / np.where(seld, lx, 1)
+                    if backwards:
+                        w = 1 - w
                     coeffs[sel] = np.where(seld, w, coeffs[sel])
 
         # step backwards in time, until projection onto axis is negative:
@@ -331,7 +333,9 @@ class OnePointFlowStates(States):
                 hdxy = dxy[trs]
                 trace_p[sel] += hdxy
 
-                _eval_trace(sel, hdxy=hdxy, hdxy0=dxy[trs - tshift])
+                _eval_trace(
+                    sel, hdxy=hdxy, hdxy0=dxy[trs - tshift], backwards=False
+                )
 
                 tshift += 1
                 sel0 = np.isnan(coeffs)
@@ -404,13 +408,7 @@ class OnePointFlowStates(States):
             if np.any(sel_hi):
                 out[sel_hi] = data[algo.n_states - 1]
 
-            sel = (~sel_low) & (~sel_hi) & (cfs <= 0)
-            if np.any(sel):
-                s = sts[sel]
-                c = -cfs[sel]
-                out[sel] = c * data[s] + (1 - c) * data[s - 1]
-
-            sel = (~sel_low) & (~sel_hi) & (cfs > 0)
+            sel = (~sel_low) & (~sel_hi)
             if np.any(sel):
                 s = sts[sel]
                 c = cfs[sel]
-- 
2.43.0


From 21bc045d8991aacf5ec983a4afe8adda19aec800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 059/139] fix: one-point flow does not mix the last measured
 values into the first state

---
 foxes/input/states/one_point_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index 57f6025..f384515 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -412,7 +412,7 @@ class OnePointFlowStates(States):
             if np.any(sel):
                 s = sts[sel]
                 c = cfs[sel]
-                out[sel] = c * data[s - 1] + (1 - c) * data[s]
+                out[sel] = c * data[np.maximum(s - 1, 0)] + (1 - c) * data[s]
 
             return out
 
-- 
2.43.0


From f356101f26d2a96db5283d096cd25147e829cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 060/139] fix: one-point flow uses the first measured values
 where no measured wind arrived yet

---
 foxes/input/states/one_point_flow.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/foxes/input/states/one_point_flow.py b/foxes/input/states/one_point_flow.py
index f384515..4baad7c 100644
--- a/foxes/input/states/one_point_flow.py
+++ b/foxes/input/states/one_point_flow.py
@@ -344,6 +344,15 @@ class OnePointFlowStates(States):
 
                 del trs, sel0, hdxy
 
+        # downwind points that were not reached yet are before the first state:
+        sel = np.isnan(coeffs)
+        if np.any(sel):
+            hdxy = dxy[i0 + np.arange(n_states)]
+            projx = np.einsum(
+                "spd,sd->sp", points[:, :, :2] - ref_xy[:, :, :2], hdxy
+            )
+            trace_si = np.where(sel & (projx > 0), -1, trace_si)
+
         return trace_si, coeffs
 
     def calculate(self, algo, mdata, fdata, tdata):
-- 
2.43.0


From 503e7ccb53fa0ff3cc2e144a8138ee0181edc853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 061/139] fix: non-uniform state weights with timelines at more
 than one height

---
 foxes/models/wake_frames/timelines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index f6605d7..53a5a8c 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -122,7 +122,7 @@ class Timelines(WakeFrame):
 
             if weight_data is None:
                 weight_data = ((FC.STATE,), tdata[FV.WEIGHT][:, 0, 0])
-            elif not np.all(tdata[FV.WEIGHT] == weight_data[1]):
+            elif not np.all(tdata[FV.WEIGHT][:, 0, 0] == weight_data[1]):
                 raise AssertionError(
                     f"States '{self.name}': weight data mismatch between heights"
                 )
-- 
2.43.0


From 1a3b047c322b3fcb66ed3fb6215bff85687c7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 062/139] fix: weights of state tables that serve as base
 states of one-point flow

---
 foxes/input/states/states_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index d727d79..9cc8427 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -268,7 +268,7 @@ class StatesTable(States):
         idata["coords"][self.VARS] = self._tvars
         idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data.to_numpy())
         if weights is not None:
-            idata["data_vars"][self.WEIGHT] = (FC.STATE, weights)
+            idata["data_vars"][self.WEIGHT] = ((FC.STATE,), weights)
 
         return idata
 
-- 
2.43.0


From 7c49af5d44fed663e3d99aebba2017c1b864614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:25 +0000
Subject: [PATCH 063/139] fix: state selections of turbine models with
 pre-rotor models or model lists

---
 foxes/core/farm_controller.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index eaba616..7de2d12 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -117,7 +117,7 @@ class FarmController(FarmDataModel):
                 return True
         return False
 
-    def _analyze_models(self, algo, pre_rotor, models):
+    def _analyze_models(self, algo, pre_rotor, models, states_sels):
         """
         Helper function for model analysis
         """
@@ -151,7 +151,7 @@ class FarmController(FarmDataModel):
                         for tj, jnames in enumerate(mnames):
                             mi = tmis[tj]
                             if mi < len(jnames) and jnames[mi] == mname:
-                                ssel = algo.farm.turbines[tj].mstates_sel[mi]
+                                ssel = states_sels[tj][mi]
                                 tsel[:, tj] = True if ssel is None else ssel
                                 tmis[tj] += 1
                         tmsels.append(tsel)
@@ -227,6 +227,8 @@ class FarmController(FarmDataModel):
         # check turbine models, and find turbine types and pre/post-rotor models:
         prer_models = [[] for t in algo.farm.turbines]
         postr_models = [[] for t in algo.farm.turbines]
+        prer_sels = [[] for t in algo.farm.turbines]
+        postr_sels = [[] for t in algo.farm.turbines]
         ttypes = {m.name: m for m in self.turbine_types}
         for ti, t in enumerate(algo.farm.turbines):
             prer = None
@@ -257,15 +259,17 @@ class FarmController(FarmDataModel):
                         )
                     if m.pre_rotor:
                         prer_models[ti].append(m)
+                        prer_sels[ti].append(t.mstates_sel[mi])
                     else:
                         postr_models[ti].append(m)
+                        postr_sels[ti].append(t.mstates_sel[mi])
 
         # analyze models:
         mnames_pre, tmsels_pre = self._analyze_models(
-            algo, pre_rotor=True, models=prer_models
+            algo, pre_rotor=True, models=prer_models, states_sels=prer_sels
         )
         mnames_post, tmsels_post = self._analyze_models(
-            algo, pre_rotor=False, models=postr_models
+            algo, pre_rotor=False, models=postr_models, states_sels=postr_sels
         )
         tmsels = tmsels_pre + tmsels_post
         self._tmall = [np.all(t) for t in tmsels]
-- 
2.43.0


From 8c8c4c52855b6364c842e7834e78c88a813d35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 064/139] fix: table factors for turbine models that are
 selected for all states or turbines

---
 foxes/models/turbine_models/table_factors.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foxes/models/turbine_models/table_factors.py b/foxes/models/turbine_models/table_factors.py
index d9b235d..a1f4f32 100644
--- a/foxes/models/turbine_models/table_factors.py
+++ b/foxes/models/turbine_models/table_factors.py
@@ -143,10 +143,10 @@ class TableFactors(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        n_sel = np.sum(st_sel)
-        qts = np.zeros((n_sel, 2), dtype=config.dtype_double)
-        qts[:, 0] = fdata[self.row_var][st_sel]
-        qts[:, 1] = fdata[self.col_var][st_sel]
+        rdata = fdata[self.row_var][st_sel]
+        qts = np.zeros(rdata.shape + (2,), dtype=config.dtype_double)
+        qts[..., 0] = rdata
+        qts[..., 1] = fdata[self.col_var][st_sel]
 
         try:
             factors = interpn(
@@ -158,7 +158,7 @@ class TableFactors(TurbineModel):
                 f"DATA BOUNDS: ({np.min(self._rvals)}, {np.min(self._cvals)}) -- ({np.max(self._rvals)}, {np.max(self._cvals)})"
             )
             print(
-                f"VALUE BOUNDS: ({np.min(qts[:, 0]):.4f}, {np.min(qts[:, 1]):.4f}) -- ({np.max(qts[:, 0]):.4f}, {np.max(qts[:, 1]):.4f})\n"
+                f"VALUE BOUNDS: ({np.min(qts[..., 0]):.4f}, {np.min(qts[..., 1]):.4f}) -- ({np.max(qts[..., 0]):.4f}, {np.max(qts[..., 1]):.4f})\n"
             )
             raise e
 
-- 
2.43.0


From 7fa2a89c4fb061bf677a464322437dde73ae60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 065/139] fix: kTI turbine model uses the given ti_val

---
 foxes/models/turbine_models/kTI_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/kTI_model.py b/foxes/models/turbine_models/kTI_model.py
index ed93057..cbc1c05 100644
--- a/foxes/models/turbine_models/kTI_model.py
+++ b/foxes/models/turbine_models/kTI_model.py
@@ -122,7 +122,7 @@ class kTI(TurbineModel):
         ti = self.get_data(
             self.ti_var,
             FC.STATE_TURBINE,
-            lookup="f",
+            lookup="sf",
             fdata=fdata,
             upcast=False,
             selection=st_sel,
-- 
2.43.0


From 2ec5f2f04b36eec79116f2dcff4e0eb8b5c6562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 066/139] fix: sector management for the turbines and states
 that carry the model, in any downwind order

---
 .../turbine_models/sector_management.py       | 47 +++++++------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 98f7a7e..9942a80 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -3,7 +3,7 @@ import pandas as pd
 
 from foxes.core import TurbineModel
 from foxes.utils import PandasFileHelper
-from foxes.config import get_input_path
+from foxes.config import config, get_input_path
 import foxes.variables as FV
 import foxes.constants as FC
 
@@ -189,46 +189,31 @@ class SectorManagement(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
-        # prepare:
-        n_trbs = len(self._trbs)
-        if n_trbs == fdata.n_turbines and np.all(
-            self._trbs == np.arange(fdata.n_turbines)
-        ):
-            tsel = np.s_[:]
-        else:
-            tsel = self._trbs
+        # find the turbines in downwind order, shape (n_states, n_rows):
+        si = np.arange(fdata.n_states)[:, None]
+        ti = fdata[FV.ORDER_INV].astype(config.dtype_int)[:, self._trbs]
+
+        # only for the selected states and turbines:
+        rsel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
+        rsel[st_sel] = True
+        rsel = rsel[si, ti]
 
         # find state-turbine data that matches ranges:
-        rsel = np.ones((fdata.n_states, n_trbs), dtype=bool)
         for vi, v in enumerate(self._rvars):
-            d = fdata[v][:, tsel]
+            d = fdata[v][si, ti]
+            mi = self._rdata[None, :, vi, 0]
+            ma = self._rdata[None, :, vi, 1]
             if v in self._perds:
                 d = np.mod(d, self._perds[v])
-                mi = self._rdata[:, vi, 0]
-                ma = self._rdata[:, vi, 1]
-                sel = ma < mi
-                if np.any(sel):
-                    rsel[:, sel] = rsel[:, sel] & (
-                        (d[:, sel] >= mi[sel]) | (d[:, sel] < ma[sel])
-                    )
-                if np.any(~sel):
-                    rsel[:, ~sel] = (
-                        rsel[:, ~sel]
-                        & (d[:, ~sel] >= mi[~sel])
-                        & (d[:, ~sel] < ma[~sel])
-                    )
+                rsel = rsel & np.where(ma < mi, (d >= mi) | (d < ma), (d >= mi) & (d < ma))
             else:
-                rsel = (
-                    rsel
-                    & (d >= self._rdata[None, :, vi, 0])
-                    & (d < self._rdata[None, :, vi, 1])
-                )
+                rsel = rsel & (d >= mi) & (d < ma)
 
         # set target data:
         if np.any(rsel):
             sel = np.where(rsel)
-            selt = self._trbs[sel[1]]
+            selt = ti[sel]
             for vi, v in enumerate(self._tvars):
-                fdata[v][sel[0], selt] = self._tdata[None, sel[1], vi]
+                fdata[v][sel[0], selt] = self._tdata[sel[1], vi]
 
         return {v: fdata[v] for v in self._tvars}
-- 
2.43.0


From 9350d9380396db6a595634b8bdb0969412aaf9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 067/139] fix: sector management with ranges that cover the
 full period

---
 foxes/models/turbine_models/sector_management.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 9942a80..4979dc3 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -144,7 +144,9 @@ class SectorManagement(TurbineModel):
 
         for vi, v in enumerate(self._rvars):
             if v in self._perds:
+                full = self._rdata[:, vi, 1] - self._rdata[:, vi, 0] >= self._perds[v]
                 self._rdata[:, vi] = np.mod(self._rdata[:, vi], self._perds[v])
+                self._rdata[full, vi] = [0, self._perds[v]]
 
     def output_farm_vars(self, algo):
         """
-- 
2.43.0


From fe3d3f3dd0b88256fbcc50dd95c3bfac859a9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 068/139] fix: sector management leaves the user's data frame
 untouched

---
 foxes/models/turbine_models/sector_management.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index 4979dc3..c1480e0 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -98,11 +98,11 @@ class SectorManagement(TurbineModel):
 
         if self._trbs is None:
             if self._col_i is not None and self._col_t is None:
-                data.reset_index(inplace=True)
+                data = data.reset_index()
             elif self._col_i is None and self._col_t is not None:
                 tnames = algo.farm.turbine_names
                 inds = [tnames.index(name) for name in data[self._col_t]]
-                data[FC.TURBINE] = inds
+                data = data.assign(**{FC.TURBINE: inds})
                 self._col_i = FC.TURBINE
             else:
                 raise KeyError(
-- 
2.43.0


From d7e25326386cf1f3716d9549fbd793d2d40a29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 069/139] fix: lookup table turbine models that are not
 selected for any state of a chunk

---
 foxes/models/turbine_models/lookup_table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/foxes/models/turbine_models/lookup_table.py b/foxes/models/turbine_models/lookup_table.py
index 636171a..b0a63e0 100644
--- a/foxes/models/turbine_models/lookup_table.py
+++ b/foxes/models/turbine_models/lookup_table.py
@@ -189,6 +189,11 @@ class LookupTable(TurbineModel):
             Values: numpy.ndarray with shape (n_states, n_turbines)
 
         """
+        # nothing to do if the selection is empty:
+        out = {v: fdata[v] for v in self.output_vars}
+        if not np.zeros((fdata.n_states, fdata.n_turbines))[st_sel].size:
+            return out
+
         data = {
             v: self.get_data(
                 v,
@@ -236,9 +241,7 @@ class LookupTable(TurbineModel):
             )
             raise e
 
-        out = {}
         for v in self.output_vars:
-            out[v] = fdata[v]
             out[v][st_sel] = odata[v]
 
         return out
-- 
2.43.0


From 340e4146589d26074d056a338338c11d369b3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 070/139] fix: power mask uses the rated power of the right
 turbine in farms of mixed types

---
 foxes/models/turbine_models/power_mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/turbine_models/power_mask.py b/foxes/models/turbine_models/power_mask.py
index 6e3b53e..db8400e 100644
--- a/foxes/models/turbine_models/power_mask.py
+++ b/foxes/models/turbine_models/power_mask.py
@@ -153,7 +153,8 @@ class PowerMask(TurbineModel):
         # prepare:
         P = fdata[FV.P]
         max_P = fdata[FV.MAX_P]
-        P_rated = self._P_rated[None, :]
+        order = fdata[FV.ORDER].astype(config.dtype_int)
+        P_rated = self._P_rated[order]  # in downwind order, like fdata
 
         # select power entries for which this is active:
         sel = np.zeros((fdata.n_states, fdata.n_turbines), dtype=bool)
-- 
2.43.0


From 9bd281456afe249e32c8242f3bce6e1827b26bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 071/139] fix: turbine positions, heights and diameters set by
 pre-rotor models act on their turbines and states only

---
 foxes/algorithms/downwind/models/init_farm_data.py | 10 ++++++++++
 foxes/core/farm_controller.py                      | 13 +++++++++++++
 foxes/models/turbine_models/set_farm_vars.py       |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/foxes/algorithms/downwind/models/init_farm_data.py b/foxes/algorithms/downwind/models/init_farm_data.py
index e4e85d4..bfc1af3 100644
--- a/foxes/algorithms/downwind/models/init_farm_data.py
+++ b/foxes/algorithms/downwind/models/init_farm_data.py
@@ -74,6 +74,12 @@ class InitFarmData(FarmDataModel):
         n_states = fdata.n_states
         n_turbines = algo.n_turbines
 
+        # remember turbine geometry set by pre-rotor models:
+        pvars = algo.farm_controller.pre_rotor_models.output_farm_vars(algo)
+        pdata = {
+            v: fdata[v].copy() for v in [FV.X, FV.Y, FV.H, FV.D] if v in pvars
+        }
+
         # define FV.TXYH as vector [X, Y, H]:
         fdata[FV.TXYH] = np.full(
             (n_states, n_turbines, 3), np.nan, dtype=config.dtype_double
@@ -106,6 +112,10 @@ class InitFarmData(FarmDataModel):
                 D = algo.farm_controller.turbine_types[ti].D
             fdata[FV.D][:, ti] = D
 
+        for v, d in pdata.items():
+            sel = ~np.isnan(d)
+            fdata[v][sel] = d[sel]
+
         # calc WD and YAW at rotor centres:
         svrs = algo.states.output_point_vars(algo)
         tdata = TData.from_points(points=fdata[FV.TXYH], variables=svrs)
diff --git a/foxes/core/farm_controller.py b/foxes/core/farm_controller.py
index 7de2d12..74a28dd 100644
--- a/foxes/core/farm_controller.py
+++ b/foxes/core/farm_controller.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from foxes.config import config
+import foxes.variables as FV
 import foxes.constants as FC
 from foxes.utils import new_instance
 
@@ -399,6 +400,18 @@ class FarmController(FarmDataModel):
 
         """
         s = self.pre_rotor_models if pre_rotor else self.post_rotor_models
+
+        # turbine geometry set by pre-rotor models, nan where not set:
+        if pre_rotor:
+            pvars = s.output_farm_vars(algo)
+            for v in [FV.X, FV.Y, FV.H, FV.D]:
+                if v in pvars:
+                    fdata.add(
+                        v,
+                        np.full((fdata.n_states, fdata.n_turbines), np.nan),
+                        (FC.STATE, FC.TURBINE),
+                    )
+
         pars = self.__get_pars(algo, s.models, "calc", mdata, downwind_index)
         res = s.calculate(algo, mdata, fdata, parameters=pars)
         return res
diff --git a/foxes/models/turbine_models/set_farm_vars.py b/foxes/models/turbine_models/set_farm_vars.py
index cbc2a2f..0605fc9 100644
--- a/foxes/models/turbine_models/set_farm_vars.py
+++ b/foxes/models/turbine_models/set_farm_vars.py
@@ -149,6 +149,10 @@ class SetFarmVars(TurbineModel):
             data[:] = vdata
             idata["data_vars"][self.var(v)] = ((FC.STATE, FC.TURBINE), data)
 
+            # pre-rotor data is picked up during farm data initialization:
+            if self.pre_rotor:
+                continue
+
             # special case of turbine positions:
             if v in [FV.X, FV.Y]:
                 i = [FV.X, FV.Y].index(v)
-- 
2.43.0


From ddaf03e5cf943fb14a2a674b2cd6a7de590d0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 072/139] fix: means over the turbines of a farm

---
 foxes/output/farm_results_eval.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index f6af445..bab733d 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -254,7 +254,7 @@ class FarmResultsEval(Output):
                 else:
                     rdata[v] = self.weinsum("", vdata[None, :])
             elif op == "mean_no_weights":
-                rdata[v] = np.sum(vdata)
+                rdata[v] = np.mean(vdata)
             elif op == "sum":
                 rdata[v] = np.sum(vdata)
             elif op == "min":
@@ -369,8 +369,10 @@ class FarmResultsEval(Output):
             The fully contracted results
 
         """
-        op = {v: "weights" for v in vars}
-        return self.reduce_all(states_op=op, turbines_op=op)
+        return self.reduce_all(
+            states_op={v: "weights" for v in vars},
+            turbines_op={v: "mean_no_weights" for v in vars},
+        )
 
     def calc_farm_sum(self, vars):
         """
-- 
2.43.0


From 42f109b1c1bfd0ec8ea77ac7e20f65596aa73527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 073/139] fix: ambient farm yield

---
 foxes/output/farm_results_eval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index bab733d..213ae08 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -564,13 +564,14 @@ class FarmResultsEval(Output):
             yargs.update(kwargs)
             turbine_yield = self.calc_turbine_yield(**yargs)
         farm_yield = turbine_yield.sum()
+        var = FV.YLD if FV.YLD in turbine_yield else FV.AMB_YLD
 
         if power_uncert is not None:
             P75 = farm_yield * (1.0 - (0.675 * power_uncert))
             P90 = farm_yield * (1.0 - (1.282 * power_uncert))
-            return farm_yield["YLD"], P75["YLD"], P90["YLD"]
+            return farm_yield[var], P75[var], P90[var]
 
-        return farm_yield["YLD"]
+        return farm_yield[var]
 
     def add_efficiency(self, verbosity=1):
         """
-- 
2.43.0


From 88c18502a5da7e3c1cad0b898336c74e1d275203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 074/139] fix: yields of time series with time stamps in other
 units than nanoseconds

---
 foxes/output/farm_results_eval.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/foxes/output/farm_results_eval.py b/foxes/output/farm_results_eval.py
index 213ae08..6525ede 100644
--- a/foxes/output/farm_results_eval.py
+++ b/foxes/output/farm_results_eval.py
@@ -471,8 +471,7 @@ class FarmResultsEval(Output):
             if delta_t is None:
                 delta_t = times[-1] - times[-2]
             duration = times[-1] - times[0] + delta_t
-            duration_seconds = np.int64(duration.astype(np.int64) / 1e9)
-            duration_hours = duration_seconds / 3600
+            duration_hours = duration / np.timedelta64(1, "s") / 3600
         elif hours is None and annual == True:
             duration_hours = 8760
         elif hours is None:
-- 
2.43.0


From 0ea1012fbb1498f1ce88b61d8e64cc29f9be32f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 075/139] fix: slice data without selection of variables

---
 foxes/output/slice_data.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index a4c87f9..6f4e9ff 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -140,9 +140,7 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
-        else:
-            point_results.drop_vars(variables)
+            variables = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
         del g_pts
 
         # take mean over states:
@@ -657,9 +655,7 @@ class SliceData(Output):
         )
         states = point_results[FC.STATE].to_numpy()
         if variables is None:
-            variables = list(point_results.data_vars.keys())
-        else:
-            point_results.drop_vars(variables)
+            variables = [v for v in point_results.data_vars.keys() if v != FV.WEIGHT]
         del g_pts
 
         # convert to numpy:
-- 
2.43.0


From 453ddb05823e5210e3f0200cf01a1fe9882c4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 076/139] fix: writing pandas slice data with verbosity

---
 foxes/output/slice_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index 6f4e9ff..0e96f1c 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -96,7 +96,7 @@ class SliceData(Output):
 
             elif format == "pandas":
                 if verbosity > 0:
-                    print("Writing file", fpath)
+                    print("Writing file", self.get_fpath(fname))
                 self.write(fname, data, **write_pars)
 
             elif format == "xarray":
-- 
2.43.0


From 2099e6fc06c6a3690f3c921d75231de3824ff021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 077/139] fix: pandas slice data per state, and variable labels
 of slice data

---
 foxes/output/grids.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index b9766b5..f9ff865 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -563,6 +563,7 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
     n_a = len(a_pos)
     n_b = len(b_pos)
     minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
+    data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -601,6 +602,7 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     minds = pd.MultiIndex.from_product(
         [states, range(n_a), range(n_b)], names=[s, a, b]
     )
+    data = {label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
 
@@ -638,7 +640,8 @@ def np2xr_p(data, a_pos, b_pos, c_pos, ori, label_map={}):
     return Dataset(
         coords={b: b_pos, a: a_pos},
         data_vars={
-            v: ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1)) for v, d in data.items()
+            label_map.get(v, v): ((b, a), np.swapaxes(d.reshape(n_a, n_b), 0, 1))
+            for v, d in data.items()
         },
         attrs={c: float(c_pos)},
     )
-- 
2.43.0


From 954cbf7ebf42bfd88dc79505c518f9cb73d17eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 078/139] fix: coordinates in pandas slice data

---
 foxes/output/grids.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/foxes/output/grids.py b/foxes/output/grids.py
index f9ff865..1b9c6de 100644
--- a/foxes/output/grids.py
+++ b/foxes/output/grids.py
@@ -560,9 +560,7 @@ def np2pd_p(data, a_pos, b_pos, ori, label_map={}):
 
     """
     a, b = [label_map.get(o, o) for o in ori]
-    n_a = len(a_pos)
-    n_b = len(b_pos)
-    minds = pd.MultiIndex.from_product([range(n_a), range(n_b)], names=[a, b])
+    minds = pd.MultiIndex.from_product([a_pos, b_pos], names=[a, b])
     data = {label_map.get(v, v): d for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
 
@@ -597,10 +595,8 @@ def np2pd_sp(data, states, a_pos, b_pos, ori, label_map={}):
     """
     a, b = [label_map.get(o, o) for o in ori]
     s = label_map.get(FC.STATE, FC.STATE)
-    n_a = len(a_pos)
-    n_b = len(b_pos)
     minds = pd.MultiIndex.from_product(
-        [states, range(n_a), range(n_b)], names=[s, a, b]
+        [states, a_pos, b_pos], names=[s, a, b]
     )
     data = {label_map.get(v, v): d.reshape(-1) for v, d in data.items()}
     return pd.DataFrame(index=minds, data=data)
-- 
2.43.0


From c585e23b53f7bd40ec383fcfbe5f6721d1880cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:32 +0000
Subject: [PATCH 079/139] fix: mean slice data for selected states

---
 foxes/output/slice_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/output/slice_data.py b/foxes/output/slice_data.py
index 0e96f1c..407ad1e 100644
--- a/foxes/output/slice_data.py
+++ b/foxes/output/slice_data.py
@@ -145,6 +145,7 @@ class SliceData(Output):
 
         # take mean over states:
         weights = point_results[FV.WEIGHT].to_numpy()
+        weights = weights / np.sum(weights, axis=0)
         if point_results[FV.WEIGHT].dims == (FC.STATE,):
             data = {
                 v: np.einsum("s,sp->p", weights, point_results[v].to_numpy())
-- 
2.43.0


From 3f8c668fa1e4fdc79121989c15a51d29e8638132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:32 +0000
Subject: [PATCH 080/139] fix: point calculator for means over states, files
 and selected states

---
 foxes/output/calc_points.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/foxes/output/calc_points.py b/foxes/output/calc_points.py
index d7bff65..398e8ce 100644
--- a/foxes/output/calc_points.py
+++ b/foxes/output/calc_points.py
@@ -84,12 +84,19 @@ class PointCalculator(Output):
             dimensions (state, point)
 
         """
+        # apply states selection:
+        fres = self.farm_results
+        if kwargs.get("states_isel", None) is not None:
+            fres = fres.isel({FC.STATE: kwargs["states_isel"]})
+        if kwargs.get("states_sel", None) is not None:
+            fres = fres.sel({FC.STATE: kwargs["states_sel"]})
+
         if points.shape[-1] == 3 and len(points.shape) == 3:
             pts = points
             p_has_s = True
         elif points.shape[-1] == 3 and len(points.shape) == 2:
             pts = np.zeros(
-                [self.algo.n_states] + list(points.shape), dtype=config.dtype_double
+                [fres.sizes[FC.STATE]] + list(points.shape), dtype=config.dtype_double
             )
             pts[:] = points[None, :]
             p_has_s = False
@@ -101,11 +108,15 @@ class PointCalculator(Output):
         pres = self.algo.calc_points(self.farm_results, pts, *args, **kwargs)
 
         if states_mean:
-            weights = self.farm_results[FV.WEIGHT].to_numpy()[:, weight_turbine]
+            weights = fres[FV.WEIGHT].to_numpy()
+            if weights.ndim > 1:
+                weights = weights[:, weight_turbine]
+            weights = weights / np.sum(weights)
             pres = Dataset(
                 data_vars={
-                    v: np.einsum("s,sp->p", weights, pres[v].to_numpy())
+                    v: ((FC.POINT,), np.einsum("s,sp->p", weights, pres[v].to_numpy()))
                     for v in pres.data_vars.keys()
+                    if v != FV.WEIGHT
                 }
             )
 
@@ -135,7 +146,7 @@ class PointCalculator(Output):
                         "z": ((FC.POINT,), points[..., 2]),
                     }
                 dvars.update(
-                    {v: ((FC.STATE, FC.POINT), pres[v].to_numpy()) for v in vrs}
+                    {v: (pres[v].dims, pres[v].to_numpy()) for v in vrs}
                 )
                 ds = Dataset(
                     coords={FC.STATE: pres[FC.STATE].to_numpy()}, data_vars=dvars
-- 
2.43.0


From 5ade38100bbf9a5609ab61ca3afab6cf45eff6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:48 +0000
Subject: [PATCH 081/139] fix: labels and normalization of the stacking axis of
 multiple slices

---
 foxes/output/slices_data.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/foxes/output/slices_data.py b/foxes/output/slices_data.py
index 3db23c7..e1501dc 100644
--- a/foxes/output/slices_data.py
+++ b/foxes/output/slices_data.py
@@ -88,8 +88,9 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
+        lmap = kwargs.get("label_map", {})
+        c = lmap.get("z", "z")
+        out = xr.concat(dsl, pd.Index([d.attrs.pop(c) for d in dsl], name=c))
         return out
 
     def get_mean_data_xz(
@@ -134,8 +135,9 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
+        lmap = kwargs.get("label_map", {})
+        c = lmap.get("y", "y")
+        out = xr.concat(dsl, pd.Index([d.attrs.pop(c) for d in dsl], name=c))
         return out
 
     def get_mean_data_yz(
@@ -180,8 +182,9 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
+        lmap = kwargs.get("label_map", {})
+        c = lmap.get("x", "x")
+        out = xr.concat(dsl, pd.Index([d.attrs.pop(c) for d in dsl], name=c))
         return out
 
     def get_states_data_xy(
@@ -226,9 +229,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(z_list, name="z"))
-        del out.attrs["z"]
-        return out.transpose(FC.STATE, "z", ...)
+        lmap = kwargs.get("label_map", {})
+        c = lmap.get("z", "z")
+        out = xr.concat(dsl, pd.Index([d.attrs.pop(c) for d in dsl], name=c))
+        return out.transpose(*[lmap.get(d, d) for d in [FC.STATE, "z"]], ...)
 
     def get_states_data_xz(
         self,
@@ -272,9 +276,10 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(y_list, name="y"))
-        del out.attrs["y"]
-        return out.transpose(FC.STATE, "z", "y", ...)
+        lmap = kwargs.get("label_map", {})
+        c = lmap.get("y", "y")
+        out = xr.concat(dsl, pd.Index([d.attrs.pop(c) for d in dsl], name=c))
+        return out.transpose(*[lmap.get(d, d) for d in [FC.STATE, "z", "y"]], ...)
 
     def get_states_data_yz(
         self,
@@ -318,6 +323,7 @@ class SlicesData(Output):
                     **kwargs,
                 )
             )
-        out = xr.concat(dsl, pd.Index(x_list, name="x"))
-        del out.attrs["x"]
-        return out.transpose(FC.STATE, "z", "y", "x", ...)
+        lmap = kwargs.get("label_map", {})
+        c = lmap.get("x", "x")
+        out = xr.concat(dsl, pd.Index([d.attrs.pop(c) for d in dsl], name=c))
+        return out.transpose(*[lmap.get(d, d) for d in [FC.STATE, "z", "y", "x"]], ...)
-- 
2.43.0


From ca5c73f017cc030684b2b9640354e7881b32275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 082/139] fix: flow plots return the data of the plotted
 variable

---
 foxes/output/flow_plots_2d/flow_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 4937007..63bcdf1 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -156,7 +156,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -306,7 +306,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
@@ -457,7 +457,7 @@ class FlowPlots2D(SliceData):
 
         if ret_data:
             out = list(out) if isinstance(out, tuple) else [out]
-            return tuple(out + [data[:, :, 0]])
+            return tuple(out + [data[:, :, vi]])
 
         return out
 
-- 
2.43.0


From f99005addc5867be219fcb5b43797a768f8fbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 083/139] fix: writing NetCDF files leaves the data set
 untouched and rounds coordinates on request

---
 foxes/utils/xarray_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/foxes/utils/xarray_utils.py b/foxes/utils/xarray_utils.py
index ccf6a88..6be6837 100644
--- a/foxes/utils/xarray_utils.py
+++ b/foxes/utils/xarray_utils.py
@@ -31,12 +31,14 @@ def write_nc(
     """
     fpath = Path(fpath)
     if round is not None:
+        ds = ds.copy()
         for v in ds.coords.keys():
             d = round.get(v, get_default_digits(v))
             if d is not None:
                 if verbosity > 1:
                     print(f"File {fpath.name}: Rounding {v} to {d} decimals")
-                ds[v].data = ds[v].data.round(decimals=d)
+                rdata = (ds[v].dims, ds[v].to_numpy().round(decimals=d), ds[v].attrs)
+                ds = ds.assign_coords({v: rdata})
         for v in ds.data_vars.keys():
             d = round.get(v, get_default_digits(v))
             if d is not None:
-- 
2.43.0


From d4037f7ec9b04f42dfadd57074368a2879a54028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:22 +0000
Subject: [PATCH 084/139] fix: rotors of the selected states in flow plots

---
 foxes/output/flow_plots_2d/flow_plots.py | 46 +++++++++++++-----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/foxes/output/flow_plots_2d/flow_plots.py b/foxes/output/flow_plots_2d/flow_plots.py
index 63bcdf1..449dd14 100644
--- a/foxes/output/flow_plots_2d/flow_plots.py
+++ b/foxes/output/flow_plots_2d/flow_plots.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from foxes.output import SliceData
 import foxes.variables as FV
+import foxes.constants as FC
 
 from .get_fig import get_fig
 
@@ -601,18 +602,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self.fres.sel({FC.STATE: s})
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD] + fres[FV.YAWM]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D],
+                    "H": fres[FV.H],
+                    "X": fres[FV.X],
+                    "Y": fres[FV.Y],
+                    "AMB_WD": fres[FV.AMB_WD],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -787,18 +789,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self.fres.sel({FC.STATE: s})
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD] + fres[FV.YAWM]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D],
+                    "H": fres[FV.H],
+                    "X": fres[FV.X],
+                    "Y": fres[FV.Y],
+                    "AMB_WD": fres[FV.AMB_WD],
                     "turb_angle": turb_angle,
                 }
             else:
@@ -973,18 +976,19 @@ class FlowPlots2D(SliceData):
 
             # get data for show_turbines
             if rotor_color is not None:
+                fres = self.fres.sel({FC.STATE: s})
                 try:
-                    turb_angle = self.fres[FV.AMB_WD][si] + self.fres[FV.YAWM][si]
+                    turb_angle = fres[FV.AMB_WD] + fres[FV.YAWM]
                 except KeyError:
-                    turb_angle = self.fres[FV.AMB_WD][si]
+                    turb_angle = fres[FV.AMB_WD]
 
                 show_rotor_dict = {
                     "color": rotor_color,
-                    "D": self.fres[FV.D][si],
-                    "H": self.fres[FV.H][si],
-                    "X": self.fres[FV.X][si],
-                    "Y": self.fres[FV.Y][si],
-                    "AMB_WD": self.fres[FV.AMB_WD][si],
+                    "D": fres[FV.D],
+                    "H": fres[FV.H],
+                    "X": fres[FV.X],
+                    "Y": fres[FV.Y],
+                    "AMB_WD": fres[FV.AMB_WD],
                     "turb_angle": turb_angle,
                 }
             else:
-- 
2.43.0


From 2cf978dec1bdc4255f83b53bafd0435a8bd7bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:22 +0000
Subject: [PATCH 085/139] fix: state turbine map of a single state

---
 foxes/output/state_turbine_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/state_turbine_map.py b/foxes/output/state_turbine_map.py
index 1e1fb2a..d9ae044 100644
--- a/foxes/output/state_turbine_map.py
+++ b/foxes/output/state_turbine_map.py
@@ -76,7 +76,7 @@ class StateTurbineMap(Output):
             __, ax = plt.subplots(figsize=figsize)
         fig = ax.get_figure()
 
-        ds = states[-1] - states[-2]
+        ds = states[-1] - states[-2] if len(states) > 1 else 1
         states = np.append(states, states[-1] + ds)
         turbines = np.arange(len(turbines) + 1)
 
-- 
2.43.0


From eab81e8f264653d660d218130af06ab2096288a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 086/139] fix: turbines own their lists of models

---
 foxes/core/turbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/foxes/core/turbine.py b/foxes/core/turbine.py
index b1ad99a..419b2cf 100644
--- a/foxes/core/turbine.py
+++ b/foxes/core/turbine.py
@@ -71,13 +71,14 @@ class Turbine:
         self.index = index
         self.name = name
         self.xy = np.array(xy)
-        self.models = turbine_models
+        self.models = list(turbine_models)
         self.D = D
         self.H = H
 
-        self.mstates_sel = models_state_sel
-        if self.mstates_sel is None:
+        if models_state_sel is None:
             self.mstates_sel = [None] * len(self.models)
+        else:
+            self.mstates_sel = list(models_state_sel)
 
     def add_model(self, model, states_sel=None):
         """
-- 
2.43.0


From b06cf60a673da21e0062e364ed641c3a3d14b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 087/139] fix: ring layouts with integer offset angle

---
 foxes/input/farm_layout/ring.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/input/farm_layout/ring.py b/foxes/input/farm_layout/ring.py
index 0fe15d0..07efaef 100644
--- a/foxes/input/farm_layout/ring.py
+++ b/foxes/input/farm_layout/ring.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from foxes.config import config
 from foxes.core import Turbine
 from foxes.utils import wd2wdvec
 
@@ -45,7 +46,7 @@ def add_ring(
     """
     p0 = np.array(xy_base)
     R = n_turbines * dist / (2 * np.pi)
-    a = np.atleast_1d(offset_deg)
+    a = np.array([offset_deg], dtype=config.dtype_double).reshape(-1)
     da = 360 / n_turbines
 
     for i in range(n_turbines):
-- 
2.43.0


From fcbc7d8ad884a079d3fa4b4c92d2d514fdcad5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 088/139] fix: random layouts with seed zero

---
 foxes/utils/random_xy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/random_xy.py b/foxes/utils/random_xy.py
index 18d97e8..3ae4db0 100644
--- a/foxes/utils/random_xy.py
+++ b/foxes/utils/random_xy.py
@@ -38,7 +38,7 @@ def random_xy_square(
     :group: utils
 
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     xmax = np.sqrt(n) * min_dist if xmax_ini is None else xmax_ini
-- 
2.43.0


From bd0c577477814cd60beebbf9137ac5c6aa7d96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:34 +0000
Subject: [PATCH 089/139] fix: bounds of farms with boundaries given by integer
 points

---
 foxes/core/wind_farm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/core/wind_farm.py b/foxes/core/wind_farm.py
index f4fa639..4c1a99c 100644
--- a/foxes/core/wind_farm.py
+++ b/foxes/core/wind_farm.py
@@ -139,8 +139,8 @@ class WindFarm:
                     p_max = np.max(xy + extra_space * rds[:, None], axis=0)
                     return p_min, p_max
 
-            p_min -= extra_space
-            p_max += extra_space
+            p_min = p_min - extra_space
+            p_max = p_max + extra_space
 
         return p_min, p_max
 
-- 
2.43.0


From 11f941c970f1aab99a77f3a3857feb5310bc58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 090/139] fix: missing hub heights and rotor diameters in farm
 layout tables

---
 foxes/input/farm_layout/from_csv.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 91d0a64..4b7c6cd 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -83,6 +83,11 @@ def add_from_csv(
     H = turbine_parameters.pop("H", None)
     D = turbine_parameters.pop("D", None)
 
+    def _get(i, col, default):
+        if col not in data.columns or pd.isna(data.loc[i, col]):
+            return default
+        return data.loc[i, col]
+
     for i in data.index:
         s = 1 if turbine_base_name_count_shift else 0
         tname = (
@@ -111,8 +116,8 @@ def add_from_csv(
                 name=tname,
                 index=tid,
                 xy=txy,
-                H=H if col_H not in data.columns else data.loc[i, col_H],
-                D=D if col_D not in data.columns else data.loc[i, col_D],
+                H=_get(i, col_H, H),
+                D=_get(i, col_D, D),
                 turbine_models=hmodels,
                 **turbine_parameters,
             ),
-- 
2.43.0


From de500ce933af5d7bc8a650bfd718bd45ee632f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 091/139] fix: turbine ids for farm layout tables with other
 indices than row numbers

---
 foxes/input/farm_layout/from_csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/farm_layout/from_csv.py b/foxes/input/farm_layout/from_csv.py
index 4b7c6cd..92ea90c 100644
--- a/foxes/input/farm_layout/from_csv.py
+++ b/foxes/input/farm_layout/from_csv.py
@@ -88,7 +88,7 @@ def add_from_csv(
             return default
         return data.loc[i, col]
 
-    for i in data.index:
+    for ti, i in enumerate(data.index):
         s = 1 if turbine_base_name_count_shift else 0
         tname = (
             f"{turbine_base_name}{i+s}" if col_name is None else data.loc[i, col_name]
@@ -96,7 +96,7 @@ def add_from_csv(
         txy = data.loc[i, [col_x, col_y]].values
 
         if turbine_ids is not None:
-            tid = turbine_ids[i]
+            tid = turbine_ids[ti]
         elif col_id is not None:
             tid = data.loc[i, col_id]
         else:
-- 
2.43.0


From 7e17e7c00bcb4316aa30214e3f0df703218c9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 092/139] fix: farm layouts from compressed files given as path
 objects, and verbosity

---
 foxes/input/farm_layout/from_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/input/farm_layout/from_file.py b/foxes/input/farm_layout/from_file.py
index d42bc30..74e8d08 100644
--- a/foxes/input/farm_layout/from_file.py
+++ b/foxes/input/farm_layout/from_file.py
@@ -40,12 +40,12 @@ def add_from_file(farm, file_path, *args, verbosity=1, dbook=None, **kwargs):
         file_path = dbook.get_file_path(FARM, fpath.name, check_raw=False)
 
     if fpath.suffix == ".json":
-        add_from_json(farm, file_path, *args, **kwargs)
+        add_from_json(farm, file_path, *args, verbosity=verbosity, **kwargs)
     elif (
         fpath.suffix == ".csv"
-        or (len(file_path) > 7 and file_path[-7:] == ".csv.gz")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.bz2")
-        or (len(file_path) > 8 and file_path[-8:] == ".csv.zip")
+        or fpath.name.endswith(".csv.gz")
+        or fpath.name.endswith(".csv.bz2")
+        or fpath.name.endswith(".csv.zip")
     ):
         add_from_csv(farm, file_path, *args, verbosity=verbosity, **kwargs)
     else:
-- 
2.43.0


From afbe00574dd8622f5a5d42d53f6f9a66b382856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 093/139] fix: xyh layout files in the output directory

---
 foxes/output/farm_layout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index afdae5f..56ba27c 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -341,7 +341,8 @@ class FarmLayoutOutput(Output):
         data = self.get_layout_data()
 
         fname = file_path if file_path is not None else self.farm.name + ".xyh"
-        np.savetxt(fname, data, header="x y h")
+        fpath = self.get_fpath(fname)
+        np.savetxt(fpath, data, header="x y h")
 
     def write_csv(self, file_name=None, type_col=None, algo=None):
         """
-- 
2.43.0


From 17fcf1993b6b40725a5186f3e7555ad926ba1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 094/139] fix: json output of farms with turbine ids from
 tables

---
 foxes/output/farm_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index 56ba27c..f19bf6d 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -117,7 +117,7 @@ class FarmLayoutOutput(Output):
         for ti, p in enumerate(data):
             t = self.farm.turbines[ti]
             out[self.farm.name][t.name] = {
-                "id": t.index,
+                "id": t.index.item() if isinstance(t.index, np.generic) else t.index,
                 "name": t.name,
                 "UTMX": p[0],
                 "UTMY": p[1],
-- 
2.43.0


From 5cf18a3a38705d8160839ec67772a9ca6914635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 095/139] fix: hub heights and rotor diameters in json layout
 output

---
 foxes/output/farm_layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/foxes/output/farm_layout.py b/foxes/output/farm_layout.py
index f19bf6d..769311c 100644
--- a/foxes/output/farm_layout.py
+++ b/foxes/output/farm_layout.py
@@ -122,6 +122,10 @@ class FarmLayoutOutput(Output):
                 "UTMX": p[0],
                 "UTMY": p[1],
             }
+            if not np.isnan(p[2]):
+                out[self.farm.name][t.name]["H"] = p[2]
+            if t.D is not None:
+                out[self.farm.name][t.name]["D"] = float(t.D)
 
         return out
 
-- 
2.43.0


From 75e2d84b4e9048efdbaa195ae841db318ad6859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 096/139] fix: names with trailing characters do not match
 factory templates with suffix

---
 foxes/utils/factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index ea230c4..1d6b2c3 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -280,6 +280,9 @@ class Factory:
         for pi, p in enumerate(self._pre):
             if len(p) > 0:
                 i = name[j:].find(p)
+                # the suffix has to end the name
+                if pi == len(self._pre) - 1:
+                    i = len(name) - len(p) - j if name[j:].endswith(p) else -1
                 if i < 0 or (pi == 0 and i > 0):
                     if error:
                         raise ValueError(
-- 
2.43.0


From 44cdf6516653ee5e74f585d6206a19d63af3cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 097/139] fix: names with unknown options do not match factory
 templates

---
 foxes/utils/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index 1d6b2c3..1aa052b 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -308,8 +308,12 @@ class Factory:
                     o = self.options[v]
                     if hasattr(o, "__call__"):
                         kwargs[w] = o(data)
+                    elif data in o:
+                        kwargs[w] = o[data]
                     else:
-                        kwargs[w] = self.options[v][data]
+                        raise ValueError(
+                            f"Factory '{self.name_template}': Name '{name}' not matching template, unknown option '{data}' for variable '{v}'"
+                        )
                 else:
                     kwargs[w] = data
 
-- 
2.43.0


From 568dc67003bdbe67c1dd739fb39811897e6e8661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 098/139] fix: model names that no factory can construct are
 not contained in factory dictionaries

---
 foxes/utils/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/utils/factory.py b/foxes/utils/factory.py
index 1aa052b..e8b535f 100644
--- a/foxes/utils/factory.py
+++ b/foxes/utils/factory.py
@@ -621,8 +621,11 @@ class FDict(Dict):
         found = super().__contains__(key)
         if not found:
             for f in self.factories:
-                if f.check_match(key):
+                try:
+                    f.check_match(key, error=True, ret_pars=True)
                     return True
+                except Exception:
+                    pass
         return found
 
     def get_item(self, key, prnt=True):
-- 
2.43.0


From 418dc70171804ee33ddbd6fd96e1ad12b412b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 099/139] fix: point and farm data models by class name

---
 foxes/core/farm_data_model.py  | 18 ++++++++++++++++++
 foxes/core/point_data_model.py | 34 +++++++++++++++++-----------------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/foxes/core/farm_data_model.py b/foxes/core/farm_data_model.py
index 2c05cb2..20720ae 100644
--- a/foxes/core/farm_data_model.py
+++ b/foxes/core/farm_data_model.py
@@ -2,6 +2,7 @@ from abc import abstractmethod
 import numpy as np
 
 from foxes.config import config
+from foxes.utils import new_instance
 import foxes.constants as FC
 
 from .data_calc_model import DataCalcModel
@@ -156,6 +157,23 @@ class FarmDataModel(DataCalcModel):
         else:
             return FarmDataModelList([self, m])
 
+    @classmethod
+    def new(cls, model_type, *args, **kwargs):
+        """
+        Run-time farm data model factory.
+
+        Parameters
+        ----------
+        model_type: str
+            The selected derived class name
+        args: tuple, optional
+            Additional parameters for the constructor
+        kwargs: dict, optional
+            Additional parameters for the constructor
+
+        """
+        return new_instance(cls, model_type, *args, **kwargs)
+
 
 class FarmDataModelList(FarmDataModel):
     """
diff --git a/foxes/core/point_data_model.py b/foxes/core/point_data_model.py
index f18d315..8b16a25 100644
--- a/foxes/core/point_data_model.py
+++ b/foxes/core/point_data_model.py
@@ -142,6 +142,23 @@ class PointDataModel(DataCalcModel):
         else:
             return PointDataModelList([self, m])
 
+    @classmethod
+    def new(cls, model_type, *args, **kwargs):
+        """
+        Run-time point model factory.
+
+        Parameters
+        ----------
+        model_type: str
+            The selected derived class name
+        args: tuple, optional
+            Additional parameters for the constructor
+        kwargs: dict, optional
+            Additional parameters for the constructor
+
+        """
+        return new_instance(cls, model_type, *args, **kwargs)
+
 
 class PointDataModelList(PointDataModel):
     """
@@ -264,20 +281,3 @@ class PointDataModelList(PointDataModel):
             tdata.update(res)
 
         return {v: tdata[v] for v in self.output_point_vars(algo)}
-
-    @classmethod
-    def new(cls, model_type, *args, **kwargs):
-        """
-        Run-time point model factory.
-
-        Parameters
-        ----------
-        model_type: str
-            The selected derived class name
-        args: tuple, optional
-            Additional parameters for the constructor
-        kwargs: dict, optional
-            Additional parameters for the constructor
-
-        """
-        return new_instance(cls, model_type, *args, **kwargs)
-- 
2.43.0


From 4863279786a89187840bc1682e83d77cbba51b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 100/139] fix: file writing options no longer become defaults
 of later writes

---
 foxes/utils/pandas_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index fe375bb..45ff116 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -163,7 +163,7 @@ class PandasFileHelper:
                 f = out.to_netcdf
 
             if f is not None:
-                pars = cls.DEFAULT_WRITING_PARAMETERS[fmt]
+                pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[fmt])
                 pars.update(kwargs)
 
                 f(file_path, **pars)
-- 
2.43.0


From b7529d9744cdb4aceeb36fa830f01d983171acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 101/139] fix: data file names with additional dots

---
 foxes/utils/pandas_utils.py | 76 ++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/foxes/utils/pandas_utils.py b/foxes/utils/pandas_utils.py
index 45ff116..286cfc8 100644
--- a/foxes/utils/pandas_utils.py
+++ b/foxes/utils/pandas_utils.py
@@ -1,3 +1,4 @@
+import re
 import pandas as pd
 from pathlib import Path
 import xarray
@@ -78,6 +79,14 @@ class PandasFileHelper:
 
     DATA_FILE_FORMATS = list(DEFAULT_READING_PARAMETERS.keys())
 
+    @classmethod
+    def _get_format(cls, fname):
+        """
+        Helper for finding the format by file ending, None if unknown
+        """
+        m = re.search(r"\.(csv(\.\w+)*|h5|nc)$", fname)
+        return None if m is None else m.group(1)
+
     @classmethod
     def read_file(cls, file_path, **kwargs):
         """
@@ -96,24 +105,22 @@ class PandasFileHelper:
             The data
 
         """
-        fpath = Path(file_path)
-        fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
+        fname = Path(file_path).name
+        fmt = cls._get_format(fname)
         f = None
-        for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
-                f = pd.read_csv
-            elif sfx == "h5":
-                f = pd.read_hdf
-            elif sfx == "nc":
-                f = lambda fname, **pars: xarray.open_dataset(
-                    fname, **pars
-                ).to_dataframe()
-
-            if f is not None:
-                pars = deepcopy(cls.DEFAULT_READING_PARAMETERS[fmt])
-                pars.update(kwargs)
-                return f(file_path, **pars)
+        if fmt is None:
+            pass
+        elif fmt[:3] == "csv":
+            f = pd.read_csv
+        elif fmt == "h5":
+            f = pd.read_hdf
+        elif fmt == "nc":
+            f = lambda fname, **pars: xarray.open_dataset(fname, **pars).to_dataframe()
+
+        if f is not None:
+            pars = deepcopy(cls.DEFAULT_READING_PARAMETERS.get(fmt, {}))
+            pars.update(kwargs)
+            return f(file_path, **pars)
 
         raise KeyError(
             f"Unknown file format '{fname}'. Supported formats: {cls.DATA_FILE_FORMATS}"
@@ -150,25 +157,24 @@ class PandasFileHelper:
             else:
                 out[c] = data[c]
 
-        fpath = Path(file_path)
-        fname = fpath.name
-        sfx = ".".join(fname.split(".")[1:])
+        fmt = cls._get_format(Path(file_path).name)
         f = None
-        for fmt in cls.DATA_FILE_FORMATS:
-            if sfx[:3] == "csv":
-                f = out.to_csv
-            elif sfx == "h5":
-                f = out.to_hdf
-            elif sfx == "nc":
-                f = out.to_netcdf
-
-            if f is not None:
-                pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS[fmt])
-                pars.update(kwargs)
-
-                f(file_path, **pars)
-
-                return
+        if fmt is None:
+            pass
+        elif fmt[:3] == "csv":
+            f = out.to_csv
+        elif fmt == "h5":
+            f = out.to_hdf
+        elif fmt == "nc":
+            f = out.to_netcdf
+
+        if f is not None:
+            pars = deepcopy(cls.DEFAULT_WRITING_PARAMETERS.get(fmt, {}))
+            pars.update(kwargs)
+
+            f(file_path, **pars)
+
+            return
 
         raise KeyError(
             f"Unknown file format '{file_path}'. Supported formats: {cls.DATA_FILE_FORMATS}"
-- 
2.43.0


From 38c96f372b66fd42134ebf6308a56be3fa7cec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 102/139] fix: writing results does not modify the given
 variable dictionary

---
 foxes/output/results_writer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index d532c78..9f7ebd7 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -55,11 +55,10 @@ class ResultsWriter(Output):
         if variables is None:
             pass
         elif isinstance(variables, dict):
-            inds = {
-                s: variables.pop(s) for s in self.data.index.names if s in variables
-            }
-            if len(variables):
-                data = data[list(variables.keys())].rename(variables, axis=1)
+            inds = {s: variables[s] for s in self.data.index.names if s in variables}
+            cols = {v: c for v, c in variables.items() if v not in inds}
+            if len(cols):
+                data = data[list(cols.keys())].rename(cols, axis=1)
             if len(inds):
                 for s, ns in inds.items():
                     data = data.rename_axis(index={s: ns})
-- 
2.43.0


From e5199a6366ca06eab52423cce11b410db60a02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 103/139] fix: writing csv results does not modify the data of
 the writer

---
 foxes/output/results_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index 9f7ebd7..13abf71 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -103,8 +103,8 @@ class ResultsWriter(Output):
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables = self._get_data_vars(variables)
-        data.reset_index(inplace=True)
-        fc2v = kwargs.pop("format_col2var", {})
+        data = data.reset_index()
+        fc2v = dict(kwargs.pop("format_col2var", {}))
         tix = FC.TNAME if turbine_names else FC.TURBINE
 
         if state_turbine_table:
-- 
2.43.0


From ab3cecfa55aff78e962008ab663fd4c9426388a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 104/139] fix: turbine names and renamed state and turbine
 columns in result files

---
 foxes/output/results_writer.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/foxes/output/results_writer.py b/foxes/output/results_writer.py
index 13abf71..4e893f2 100644
--- a/foxes/output/results_writer.py
+++ b/foxes/output/results_writer.py
@@ -103,9 +103,13 @@ class ResultsWriter(Output):
             print(f"ResultsWriter: Writing file '{file_name}'")
 
         data, variables = self._get_data_vars(variables)
+        state, tix = data.index.names
         data = data.reset_index()
         fc2v = dict(kwargs.pop("format_col2var", {}))
-        tix = FC.TNAME if turbine_names else FC.TURBINE
+        if turbine_names:
+            data = data.drop(columns=tix)
+            tix = FC.TNAME
+            data[tix] = self.data[FC.TNAME].to_numpy()
 
         if state_turbine_table:
             if len(variables) != 1:
@@ -114,11 +118,11 @@ class ResultsWriter(Output):
                 )
             v = variables[0]
             cnames = {
-                t: f"{v}_T{t:04d}" if tix == FC.TURBINE else f"{v}_{t}"
+                t: f"{v}_{t}" if turbine_names else f"{v}_T{t:04d}"
                 for t in data[tix]
             }
             for ti, (t, g) in enumerate(
-                data.reset_index().set_index(FC.STATE).groupby(tix)
+                data.reset_index().set_index(state).groupby(tix)
             ):
                 if ti == 0:
                     odata = pd.DataFrame(
@@ -130,7 +134,7 @@ class ResultsWriter(Output):
                 fc2v[cname] = v
             data = odata
         else:
-            data.set_index([FC.STATE, tix], inplace=True)
+            data.set_index([state, tix], inplace=True)
 
         super().write(file_name, data, format_col2var=fc2v, **kwargs)
 
@@ -167,16 +171,16 @@ class ResultsWriter(Output):
         n_states = len(states)
         n_turbines = len(data.index.get_level_values(1).unique())
 
-        crds = {FC.STATE: states}
+        state, turbine = data.index.names
+        crds = {state: states}
         if turbine_names:
-            idx = pd.IndexSlice
-            crds[FC.TURBINE] = self.data.loc[idx[0, :], FC.TNAME].to_numpy()
+            crds[turbine] = self.data[FC.TNAME].to_numpy()[:n_turbines]
 
         ds = Dataset(
             coords=crds,
             data_vars={
                 v: (
-                    (FC.STATE, FC.TURBINE),
+                    (state, turbine),
                     data[v].to_numpy().reshape(n_states, n_turbines),
                 )
                 for v in variables
-- 
2.43.0


From e6bc2106fce5893c76ea2265c123f667659626cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:23 +0000
Subject: [PATCH 105/139] fix: state or turbine variables like weights in
 state-turbine tables

---
 foxes/output/state_turbine_table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/output/state_turbine_table.py b/foxes/output/state_turbine_table.py
index 082fce3..78df512 100644
--- a/foxes/output/state_turbine_table.py
+++ b/foxes/output/state_turbine_table.py
@@ -76,7 +76,10 @@ class StateTurbineTable(Output):
                 turbine: self.farm_results[FC.TURBINE].to_numpy(),
             },
             data_vars={
-                name_map.get(v, v): ((state, turbine), self.farm_results[v].to_numpy())
+                name_map.get(v, v): (
+                    tuple(name_map.get(d, d) for d in self.farm_results[v].dims),
+                    self.farm_results[v].to_numpy(),
+                )
                 for v in variables
             },
         )
-- 
2.43.0


From b2df9a2ed99f519f613d02d7a58f8ccf3a7dac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 106/139] fix: wind directions outside the range and at sector
 limits got lost in wind roses

---
 foxes/output/rose_plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/foxes/output/rose_plot.py b/foxes/output/rose_plot.py
index 33db838..c47d5c9 100644
--- a/foxes/output/rose_plot.py
+++ b/foxes/output/rose_plot.py
@@ -168,15 +168,15 @@ class RosePlotOutput(Output):
         ws = self.results[ws_var].to_numpy()[:, t]
         wd = self.results[wd_var].to_numpy()[:, t].copy()
         wd_delta = 360 / wd_sectors
-        wd[wd >= 360 - wd_delta / 2] -= 360
-        wd_bins = np.arange(-wd_delta / 2, 360, wd_delta)
+        wd = np.mod(wd + wd_delta / 2, 360) - wd_delta / 2
+        wd_bins = np.linspace(-wd_delta / 2, 360 - wd_delta / 2, wd_sectors + 1)
         ws_bins = np.asarray(ws_bins, dtype=ws.dtype)
 
         freq = 100 * np.histogram2d(wd, ws, (wd_bins, ws_bins), weights=w)[0]
 
         data = Dataset(
             coords={
-                wd_var: np.arange(0, 360, wd_delta),
+                wd_var: np.arange(wd_sectors) * wd_delta,
                 ws_var: 0.5 * (ws_bins[:-1] + ws_bins[1:]),
             },
             data_vars={
@@ -472,8 +472,8 @@ class WindRoseBinPlot(Output):
         ws = self.farm_results[ws_var].to_numpy()[:, turbine]
         wd = self.farm_results[wd_var].to_numpy()[:, turbine].copy()
         wd_delta = 360 / wd_sectors
-        wd[wd >= 360 - wd_delta / 2] -= 360
-        wd_bins = np.arange(-wd_delta / 2, 360, wd_delta)
+        wd = np.mod(wd + wd_delta / 2, 360) - wd_delta / 2
+        wd_bins = np.linspace(-wd_delta / 2, 360 - wd_delta / 2, wd_sectors + 1)
         ws_bins = np.asarray(ws_bins)
 
         if contraction == "weights":
-- 
2.43.0


From 2aef3b9570a6463f93542cdada82f8d649b7d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 107/139] fix: running a dictionary case does not modify the
 dictionary

---
 foxes/input/yaml/dict.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 70f9379..084bc05 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -11,6 +11,19 @@ from foxes.config import config
 import foxes.constants as FC
 
 
+def _copy_dict(data, name=None):
+    """Helper that copies nested dictionaries and lists"""
+    if isinstance(data, dict):
+        name = getattr(data, "name", name)
+        return Dict(
+            {k: _copy_dict(d, name=f"{name}.{k}") for k, d in data.items()}, name=name
+        )
+    elif isinstance(data, list):
+        return [_copy_dict(d, name=name) for d in data]
+    else:
+        return data
+
+
 def read_dict(
     idict,
     farm=None,
@@ -74,6 +87,9 @@ def read_dict(
         if verbosity is None or verbosity >= level:
             print(*args, **kwargs)
 
+    # keep the input data unchanged:
+    idict = _copy_dict(idict)
+
     # set working directory:
     l = 0
     for c, d in zip(
@@ -476,6 +492,9 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
         if verbosity is None or verbosity >= level:
             print(*args, **kwargs)
 
+    # keep the input data unchanged:
+    idict = _copy_dict(idict)
+
     # read components:
     algo, engine = read_dict(idict, *args, verbosity=verbosity, **kwargs)
 
-- 
2.43.0


From b888c472161c4b88bc64462d00f76f769d0d3279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 108/139] fix: verbosity of engines from dictionary cases

---
 foxes/input/yaml/dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 084bc05..5bc5049 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -168,9 +168,10 @@ def read_dict(
         _print(f"Initializing engine: {engine}")
         engine.initialize()
     elif "engine" in idict:
+        edict = idict.get_item("engine")
         if verbosity is not None:
-            idict["verbosity"] = verbosity - 1
-        engine = Engine.new(**idict["engine"])
+            edict["verbosity"] = verbosity - 1
+        engine = Engine.new(**edict)
         engine.initialize()
         _print(f"Initializing engine: {engine}")
 
-- 
2.43.0


From 4c73102be40a0bfa425d74f41764ddaf5b2f92d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 109/139] fix: outputs of dictionary cases are returned without
 result labels, if not requested

---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 5bc5049..7aa3f32 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -455,7 +455,7 @@ def run_outputs(
         if len(odicts):
             _print()
 
-    return out if not ret_rlabels else out, rlabels
+    return (out, rlabels) if ret_rlabels else out
 
 
 def run_dict(idict, *args, verbosity=None, **kwargs):
-- 
2.43.0


From 2d2ad5b91bc731084fc97da8f9870eca5de132f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 110/139] fix: empty strings as parameters of output functions

---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 7aa3f32..9a84b64 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -319,7 +319,7 @@ def run_obj_function(
 
     # replace result labels by objects:
     for k, d in fdict.items():
-        if isinstance(d, str) and d[0] == "$":
+        if isinstance(d, str) and d.startswith("$"):
             fdict[k] = _get_object(rlabels, d)
 
     # run function:
-- 
2.43.0


From 06a01c39dec08dc18662a3d32a48ee702a3022dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 111/139] fix: elements of lists and tuples as result labels

---
 foxes/input/yaml/dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 9a84b64..63d6f1b 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -258,7 +258,7 @@ def _get_object(rlabels, d):
     i0 = d.find("[")
     if i0 > 0:
         inds = tuple([int(x) for x in d[i0 + 1 :].split(",")])
-        return rlabels[d[:i0]][inds]
+        return rlabels[d[:i0]][inds if len(inds) > 1 else inds[0]]
     else:
         return rlabels[d]
 
-- 
2.43.0


From 320f6cab8526b67c23446616d13647ccff986351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 112/139] fix: point files of dictionary cases are searched in
 the input directory

---
 foxes/input/yaml/dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/input/yaml/dict.py b/foxes/input/yaml/dict.py
index 63d6f1b..f74d2fd 100644
--- a/foxes/input/yaml/dict.py
+++ b/foxes/input/yaml/dict.py
@@ -7,7 +7,7 @@ from foxes.core import States, Engine, WindFarm, Algorithm
 from foxes.models import ModelBook
 from foxes.output import Output
 from foxes.utils import Dict, new_cls
-from foxes.config import config
+from foxes.config import config, get_input_path
 import foxes.constants as FC
 
 
@@ -517,7 +517,7 @@ def run_dict(idict, *args, verbosity=None, **kwargs):
             points = rdict.pop_item("points")
             if isinstance(points, str):
                 _print("Reading file", points)
-                points = pd.read_csv(points).to_numpy()
+                points = pd.read_csv(get_input_path(points)).to_numpy()
             point_results = algo.calc_points(farm_results, points=points, **rdict)
         else:
             point_results = None
-- 
2.43.0


From f66c4bd69ecc7132b2cfba0a96b9e77908e31b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 113/139] fix: SetUniformData point model could not be used: no
 base class init, dict source undefined, wrong data lookup

---
 foxes/models/point_models/set_uniform_data.py | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/foxes/models/point_models/set_uniform_data.py b/foxes/models/point_models/set_uniform_data.py
index f371ebd..e240942 100644
--- a/foxes/models/point_models/set_uniform_data.py
+++ b/foxes/models/point_models/set_uniform_data.py
@@ -1,8 +1,9 @@
+import numpy as np
 import pandas as pd
 
 from foxes.core.point_data_model import PointDataModel
 from foxes.utils import PandasFileHelper
-from foxes.config import config
+from foxes.config import config, get_input_path
 import foxes.constants as FC
 
 
@@ -49,6 +50,7 @@ class SetUniformData(PointDataModel):
             pandas file reading parameters
 
         """
+        super().__init__()
         self.data_source = data_source
         self.ovars = output_vars
         self.var2col = var2col
@@ -86,20 +88,22 @@ class SetUniformData(PointDataModel):
                 [self.var2col.get(v, v) for v in self.ovars]
             ].to_numpy(config.dtype_double)
         elif isinstance(self.data_source, dict):
-            pass
+            data = None
         else:
+            fpath = get_input_path(self.data_source)
             if verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                print(f"Point model '{self.name}': Reading file {fpath}")
             rpars = dict(index_col=0)
             rpars.update(self._rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
             data = data[[self.var2col.get(v, v) for v in self.ovars]].to_numpy(
                 config.dtype_double
             )
 
         idata = super().load_data(algo, verbosity)
-        idata["coords"][self.VARS] = self.ovars
-        idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
+        if data is not None:
+            idata["coords"][self.VARS] = self.ovars
+            idata["data_vars"][self.DATA] = ((FC.STATE, self.VARS), data)
 
         return idata
 
@@ -120,7 +124,7 @@ class SetUniformData(PointDataModel):
         """
         return self.ovars
 
-    def calculate(self, algo, mdata, fdata, pdata):
+    def calculate(self, algo, mdata, fdata, tdata):
         """
         The main model calculation.
 
@@ -145,10 +149,14 @@ class SetUniformData(PointDataModel):
             Values: numpy.ndarray with shape (n_states, n_points)
 
         """
-        for v in self.ovars:
-            if self.DATA in mdata:
-                pdata[v][:] = mdata[v][None, self.ovars.index(v)]
+        shape = (tdata.n_states, tdata.n_targets, tdata.n_tpoints)
+        results = {}
+        for i, v in enumerate(self.ovars):
+            if isinstance(self.data_source, dict):
+                d = self.data_source[self.var2col.get(v, v)]
             else:
-                pdata[v][:] = self.data_source[v]
+                d = mdata[self.DATA][:, i, None, None]
+            results[v] = np.full(shape, np.nan, dtype=config.dtype_double)
+            results[v][:] = d
 
-        return {v: pdata[v] for v in self.ovars}
+        return results
-- 
2.43.0


From a5ffd95b5b86c7b16971e4b4b0255ed99fc6f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:58 +0000
Subject: [PATCH 114/139] fix: Ustar2TI applied the upper limit max_ti as lower
 limit

---
 foxes/models/point_models/ustar2ti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/ustar2ti.py b/foxes/models/point_models/ustar2ti.py
index c44cdb2..51a9414 100644
--- a/foxes/models/point_models/ustar2ti.py
+++ b/foxes/models/point_models/ustar2ti.py
@@ -79,6 +79,6 @@ class Ustar2TI(PointDataModel):
 
         ti = (ustar / FC.KAPPA) / ws
         if self.max_ti is not None:
-            ti = np.maximum(ti, self.max_ti)
+            ti = np.minimum(ti, self.max_ti)
 
         return {FV.TI: ti}
-- 
2.43.0


From a8749609672066b431d82b20713f5c821fa7ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:16 +0000
Subject: [PATCH 115/139] fix: WakeDeltas with normalize raised, wrong result
 variable name

---
 foxes/models/point_models/wake_deltas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index 551df49..c958b31 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -81,6 +81,6 @@ class WakeDeltas(PointDataModel):
 
         if self.normalize:
             for v in self.vars:
-                out[v] /= pdata[FV.var2amb[v]]
+                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
 
         return out
-- 
2.43.0


From 79a99a908289246b0655d32961ac644cf3cabbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:16 +0000
Subject: [PATCH 116/139] fix: TKE2TI needs the missing variable TKE

---
 foxes/variables.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/variables.py b/foxes/variables.py
index dbfefde..e6b43ee 100644
--- a/foxes/variables.py
+++ b/foxes/variables.py
@@ -266,6 +266,11 @@ USTAR = "USTAR"
 :group: foxes.variables
 """
 
+TKE = "TKE"
+""" The turbulent kinetic energy in m2/s2
+:group: foxes.variables
+"""
+
 SHEAR = "shear"
 """ The shear exponent
 :group: foxes.variables
-- 
2.43.0


From e44d283ef6c6e5f35539de23ab2214c9ae9f4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 117/139] fix: threads engine chunks shared one chunk store,
 dropping data of each other

---
 foxes/engines/pool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/engines/pool.py b/foxes/engines/pool.py
index 2c17007..1b89b2a 100644
--- a/foxes/engines/pool.py
+++ b/foxes/engines/pool.py
@@ -1,6 +1,7 @@
 import numpy as np
 import xarray as xr
 from abc import abstractmethod
+from copy import copy
 from tqdm import tqdm
 
 from foxes.core import Engine
@@ -9,7 +10,9 @@ import foxes.constants as FC
 
 def _run(algo, model, data, iterative, chunk_store, i0_t0, **cpars):
     """Helper function for running in a single process"""
-    algo.reset_chunk_store(chunk_store)
+    # threads share the algorithm, so each run needs its own chunk store:
+    algo = copy(algo)
+    algo.reset_chunk_store({k: c.copy() for k, c in chunk_store.items()})
     results = model.calculate(algo, *data, **cpars)
     chunk_store = algo.reset_chunk_store() if iterative else {}
     cstore = {i0_t0: chunk_store[i0_t0]} if i0_t0 in chunk_store else {}
-- 
2.43.0


From 5a28b30a72fc44e8afb48701b185868304534c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:56 +0000
Subject: [PATCH 118/139] fix: relative input directory was prepended again
 when states were re-initialized

---
 foxes/input/states/multi_height.py | 34 +++++++++++++++---------------
 foxes/input/states/states_table.py | 18 ++++++++--------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/foxes/input/states/multi_height.py b/foxes/input/states/multi_height.py
index c2608ed..d726495 100644
--- a/foxes/input/states/multi_height.py
+++ b/foxes/input/states/multi_height.py
@@ -197,23 +197,23 @@ class MultiHeightStates(States):
 
         """
         if not isinstance(self.data_source, pd.DataFrame):
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
+                    print(f"Path: {fpath}")
             elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                print(f"States '{self.name}': Reading file {fpath}")
             rpars = dict(self.rpars)
-            if self.data_source.suffix != ".nc":
+            if fpath.suffix != ".nc":
                 rpars = dict(self.RDICT, **rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
         else:
             data = self.data_source
 
@@ -606,20 +606,20 @@ class MultiHeightNCStates(MultiHeightStates):
 
         """
         if not isinstance(self.data_source, Dataset):
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
+                    print(f"Path: {fpath}")
             elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
-            data = open_dataset(self.data_source, **self.xr_read_pars)
+                print(f"States '{self.name}': Reading file {fpath}")
+            data = open_dataset(fpath, **self.xr_read_pars)
         else:
             data = self.data_source
 
diff --git a/foxes/input/states/states_table.py b/foxes/input/states/states_table.py
index 9cc8427..e47b722 100644
--- a/foxes/input/states/states_table.py
+++ b/foxes/input/states/states_table.py
@@ -214,23 +214,23 @@ class StatesTable(States):
         if isinstance(self.data_source, pd.DataFrame):
             data = self.data_source
         else:
-            self._data_source = get_input_path(self.data_source)
-            if not self.data_source.is_file():
+            fpath = get_input_path(self.data_source)
+            if not fpath.is_file():
                 if verbosity > 0:
                     print(
-                        f"States '{self.name}': Reading static data '{self.data_source}' from context '{STATES}'"
+                        f"States '{self.name}': Reading static data '{fpath}' from context '{STATES}'"
                     )
-                self._data_source = algo.dbook.get_file_path(
-                    STATES, self.data_source.name, check_raw=False
+                fpath = algo.dbook.get_file_path(
+                    STATES, fpath.name, check_raw=False
                 )
                 if verbosity > 0:
-                    print(f"Path: {self.data_source}")
+                    print(f"Path: {fpath}")
             elif verbosity:
-                print(f"States '{self.name}': Reading file {self.data_source}")
+                print(f"States '{self.name}': Reading file {fpath}")
             rpars = dict(self.rpars)
-            if self.data_source.suffix != ".nc":
+            if fpath.suffix != ".nc":
                 rpars = dict(self.RDICT, **rpars)
-            data = PandasFileHelper().read_file(self.data_source, **rpars)
+            data = PandasFileHelper().read_file(fpath, **rpars)
 
         if self.states_sel is not None:
             data = data.iloc[self.states_sel]
-- 
2.43.0


From 44f7b0c6ad542ced7ff772e89b1f9a2bd2d95370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 119/139] fix: model lists created without models shared the
 default list

---
 foxes/core/farm_data_model.py  | 2 +-
 foxes/core/point_data_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/foxes/core/farm_data_model.py b/foxes/core/farm_data_model.py
index 20720ae..e6a8641 100644
--- a/foxes/core/farm_data_model.py
+++ b/foxes/core/farm_data_model.py
@@ -203,7 +203,7 @@ class FarmDataModelList(FarmDataModel):
 
         """
         super().__init__()
-        self.models = models
+        self.models = list(models)
 
     def __repr__(self):
         return f"{type(self).__name__}({[m.name for m in self.models]})"
diff --git a/foxes/core/point_data_model.py b/foxes/core/point_data_model.py
index 8b16a25..0e07a78 100644
--- a/foxes/core/point_data_model.py
+++ b/foxes/core/point_data_model.py
@@ -188,7 +188,7 @@ class PointDataModelList(PointDataModel):
 
         """
         super().__init__()
-        self.models = models
+        self.models = list(models)
 
     def __repr__(self):
         return f"{type(self).__name__}({[m.name for m in self.models]})"
-- 
2.43.0


From 10559620e1457456f0a62e6dfcb0a1e60dc7a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 120/139] fix: WakeDeltas raised if ambient variables were not
 selected for output

---
 foxes/models/point_models/wake_deltas.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/foxes/models/point_models/wake_deltas.py b/foxes/models/point_models/wake_deltas.py
index c958b31..62e5b56 100644
--- a/foxes/models/point_models/wake_deltas.py
+++ b/foxes/models/point_models/wake_deltas.py
@@ -77,10 +77,12 @@ class WakeDeltas(PointDataModel):
 
         """
 
-        out = {f"DELTA_{v}": pdata[v] - pdata[FV.var2amb[v]] for v in self.vars}
-
-        if self.normalize:
-            for v in self.vars:
-                out[f"DELTA_{v}"] /= pdata[FV.var2amb[v]]
-
+        out = {}
+        for v in self.vars:
+            # ambient results are not available before wake calculation,
+            # unless selected for output:
+            amb = pdata[FV.var2amb[v]] if FV.var2amb[v] in pdata else pdata[v]
+            out[f"DELTA_{v}"] = pdata[v] - amb
+            if self.normalize:
+                out[f"DELTA_{v}"] /= amb
         return out
-- 
2.43.0


From 381f3efaf7be5f5ed03521724226e64062315508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:35 +0000
Subject: [PATCH 121/139] fix: WakeK stored k under self during calculation,
 mixing up data of the chunks of the threads engine

---
 foxes/core/wake_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/foxes/core/wake_model.py b/foxes/core/wake_model.py
index d872111..ae6de9e 100644
--- a/foxes/core/wake_model.py
+++ b/foxes/core/wake_model.py
@@ -1,4 +1,5 @@
 from abc import abstractmethod
+from copy import copy
 import numpy as np
 
 from foxes.utils import new_instance
@@ -309,7 +310,11 @@ class WakeK(Model):
 
         """
         sel = kwargs.pop("selection", None)
-        setattr(self, self.k_var, self._k)
+
+        # do not store k under self, since the model may be
+        # shared between threads:
+        model = copy(self)
+        setattr(model, self.k_var, self._k)
         if self._ka is not None or self._kb is not None:
             if self.ti_var == FV.TI and ti is not None:
                 pass
@@ -318,8 +323,7 @@ class WakeK(Model):
             else:
                 ti = self.get_data(self.ti_var, *args, lookup=lookup_ti, **kwargs)
             kb = 0 if self._kb is None else self._kb
-            setattr(self, self.k_var, self._ka * ti + kb)
+            setattr(model, self.k_var, self._ka * ti + kb)
 
-        k = self.get_data(self.k_var, *args, lookup=lookup_k, selection=sel, **kwargs)
-        setattr(self, self.k_var, None)
+        k = model.get_data(self.k_var, *args, lookup=lookup_k, selection=sel, **kwargs)
         return k
-- 
2.43.0


From 69ee66e3b101d024a3f3df979c9c37691d542dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 122/139] fix: calc_farm modified the given calc_parameters,
 running pre-rotor models as post-rotor models

---
 foxes/algorithms/downwind/downwind.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index f315630..8138c20 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -435,7 +435,7 @@ class Downwind(Algorithm):
 
         # 0) run pre-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = True
 
         # 1) set initial data:
@@ -444,12 +444,12 @@ class Downwind(Algorithm):
 
         # 2) calculate ambient rotor results:
         mlist.models.append(self.rotor_model)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1].update({"store": True})
 
         # 3) run post-rotor turbine models via farm controller:
         mlist.models.append(self.farm_controller)
-        calc_pars.append(calc_parameters.get(mlist.models[-1].name, {}))
+        calc_pars.append(dict(calc_parameters.get(mlist.models[-1].name, {})))
         calc_pars[-1]["pre_rotor"] = False
 
         # 4) copy results to ambient, requires self.farm_vars:
-- 
2.43.0


From f70e93ba9339b8b68bc2e823d05782e2ae3ad63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:38 +0000
Subject: [PATCH 123/139] fix: all yawed wake frames shared the same base frame
 object

---
 foxes/models/wake_frames/yawed_wakes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index dd282e2..7ff6800 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -42,7 +42,7 @@ class YawedWakes(WakeFrame):
 
     def __init__(
         self,
-        base_frame=RotorWD(),
+        base_frame=None,
         alpha=0.58,
         beta=0.07,
         induction="Madsen",
@@ -54,8 +54,8 @@ class YawedWakes(WakeFrame):
 
         Parameters
         ----------
-        base_frame: foxes.core.WakeFrame
-            The wake frame from which to start
+        base_frame: foxes.core.WakeFrame, optional
+            The wake frame from which to start, RotorWD by default
         alpha: float
             model parameter used to determine onset of far wake region,
             if not found in wake model
@@ -72,7 +72,7 @@ class YawedWakes(WakeFrame):
         """
         super().__init__(max_length_km=max_length_km)
 
-        self.base_frame = base_frame
+        self.base_frame = RotorWD() if base_frame is None else base_frame
         self.model = None
         self.alpha = alpha
         self.beta = beta
-- 
2.43.0


From 3e810f65fd71f07dc189dc026908f0a1d9b5c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 124/139] fix: sequential states with a single state returned
 wrong index outside iterations, a second run failed

---
 foxes/algorithms/sequential/models/seq_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/algorithms/sequential/models/seq_state.py b/foxes/algorithms/sequential/models/seq_state.py
index d889ec2..16d2f30 100644
--- a/foxes/algorithms/sequential/models/seq_state.py
+++ b/foxes/algorithms/sequential/models/seq_state.py
@@ -85,7 +85,7 @@ class SeqState(States):
             The index labels of states, or None for default integers
 
         """
-        return [self._indx] if self._size == 1 else self.states.index()
+        return self.states.index() if self.counter is None else [self._indx]
 
     @property
     def counter(self):
-- 
2.43.0


From cf6db0ac5b4a3d54474f91adac3d939e1af38581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 125/139] fix: algorithms with a common model book used the
 turbine types of the one constructed last

---
 foxes/algorithms/downwind/downwind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/downwind/downwind.py b/foxes/algorithms/downwind/downwind.py
index 8138c20..e480846 100644
--- a/foxes/algorithms/downwind/downwind.py
+++ b/foxes/algorithms/downwind/downwind.py
@@ -1,3 +1,4 @@
+from copy import copy
 import numpy as np
 
 from foxes.core import Algorithm, FarmDataModelList, get_engine
@@ -184,7 +185,10 @@ class Downwind(Algorithm):
             checkw=False,
         )
 
-        self.__farm_controller = self.mbook.farm_controllers.get_item(farm_controller)
+        # own copy, since the controller stores the models of this wind farm:
+        self.__farm_controller = copy(
+            self.mbook.farm_controllers.get_item(farm_controller)
+        )
         self.farm_controller.name = farm_controller
         self.farm_controller.find_turbine_types(self)
 
-- 
2.43.0


From 16a6fb56af8d8e0faa1fd50f73465d5e8a6599a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 126/139] fix: sector management kept turbine indices of the
 first farm

---
 .../turbine_models/sector_management.py       | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/foxes/models/turbine_models/sector_management.py b/foxes/models/turbine_models/sector_management.py
index c1480e0..4a55884 100644
--- a/foxes/models/turbine_models/sector_management.py
+++ b/foxes/models/turbine_models/sector_management.py
@@ -96,19 +96,20 @@ class SectorManagement(TurbineModel):
                 print(f"{self.name}: Reading file {fpath}")
             data = PandasFileHelper.read_file(fpath, **self._rpars)
 
-        if self._trbs is None:
-            if self._col_i is not None and self._col_t is None:
-                data = data.reset_index()
-            elif self._col_i is None and self._col_t is not None:
-                tnames = algo.farm.turbine_names
-                inds = [tnames.index(name) for name in data[self._col_t]]
-                data = data.assign(**{FC.TURBINE: inds})
-                self._col_i = FC.TURBINE
-            else:
-                raise KeyError(
-                    f"{self.name}: Please either specify 'col_tinds' or 'col_tnames'"
-                )
-            self._trbs = data[self._col_i].to_numpy()
+        col_i = self._col_i
+        if self._col_i is not None and self._col_t is None:
+            data = data.reset_index()
+        elif self._col_i is None and self._col_t is not None:
+            tnames = algo.farm.turbine_names
+            inds = [tnames.index(name) for name in data[self._col_t]]
+            data = data.assign(**{FC.TURBINE: inds})
+            col_i = FC.TURBINE
+        else:
+            raise KeyError(
+                f"{self.name}: Please either specify 'col_tinds' or 'col_tnames'"
+            )
+
+        self._trbs = data[col_i].to_numpy()
         n_trbs = len(self._trbs)
 
         self._rcols = []
-- 
2.43.0


From fb7cb55f9491ffa4f16690c5689d5c8058525a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 127/139] fix: rotor models kept the variables of the first
 algorithm, and modified the given list

---
 foxes/core/rotor_model.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/foxes/core/rotor_model.py b/foxes/core/rotor_model.py
index 98ef77c..0a19f5e 100644
--- a/foxes/core/rotor_model.py
+++ b/foxes/core/rotor_model.py
@@ -41,7 +41,41 @@ class RotorModel(FarmDataModel):
 
         """
         super().__init__()
-        self.calc_vars = calc_vars
+        self.calc_vars = None if calc_vars is None else list(calc_vars)
+        self._calc_vars0 = None
+
+    def initialize(self, algo, verbosity=0):
+        """
+        Initializes the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        verbosity: int
+            The verbosity level, 0 = silent
+
+        """
+        if not self.initialized:
+            self._calc_vars0 = None if self.calc_vars is None else list(self.calc_vars)
+        super().initialize(algo, verbosity)
+
+    def finalize(self, algo, verbosity=0):
+        """
+        Finalizes the model.
+
+        Parameters
+        ----------
+        algo: foxes.core.Algorithm
+            The calculation algorithm
+        verbosity: int
+            The verbosity level, 0 = silent
+
+        """
+        if self.initialized:
+            # do not keep variables that depend on this algorithm:
+            self.calc_vars = self._calc_vars0
+        super().finalize(algo, verbosity)
 
     def output_farm_vars(self, algo):
         """
@@ -67,7 +101,7 @@ class RotorModel(FarmDataModel):
             if FV.WS in vrs:
                 self.calc_vars = [FV.REWS] + [v for v in vrs if v != FV.WS]
             else:
-                self.calc_vars = vrs
+                self.calc_vars = list(vrs)
 
             if algo.farm_controller.needs_rews2() and FV.REWS2 not in self.calc_vars:
                 self.calc_vars.append(FV.REWS2)
-- 
2.43.0


From e3e905cfaff5037fd97ef228745a72122a68bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:20 +0000
Subject: [PATCH 128/139] fix: wake mirrors changed the hub heights of the wake
 source, mirrored wakes vanished for timelines

---
 foxes/models/ground_models/wake_mirror.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/foxes/models/ground_models/wake_mirror.py b/foxes/models/ground_models/wake_mirror.py
index 7db1e33..a045327 100644
--- a/foxes/models/ground_models/wake_mirror.py
+++ b/foxes/models/ground_models/wake_mirror.py
@@ -79,6 +79,8 @@ class WakeMirror(GroundModel):
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
+        txyh = fdata[FV.TXYH]
+        fdata[FV.TXYH] = txyh.copy()  # such that fdata[FV.H] remains unchanged
         for h in self.heights:
 
             fdata[FV.TXYH][:, downwind_index, 2] = hh + 2 * (h - hh)
@@ -88,7 +90,7 @@ class WakeMirror(GroundModel):
             )
 
         # reset heights:
-        fdata[FV.TXYH][:, downwind_index, 2] = hh
+        fdata[FV.TXYH] = txyh
 
     def contribute_to_point_wakes(
         self,
@@ -134,6 +136,8 @@ class WakeMirror(GroundModel):
 
         # contribution from mirrors:
         tdata[FC.TARGETS] = tdata[FC.TARGETS].copy()  # making sure this is no ref
+        txyh = fdata[FV.TXYH]
+        fdata[FV.TXYH] = txyh.copy()  # such that fdata[FV.H] remains unchanged
         for h in self.heights:
 
             fdata[FV.TXYH][:, downwind_index, 2] = hh + 2 * (h - hh)
@@ -146,7 +150,7 @@ class WakeMirror(GroundModel):
             )
 
         # reset heights:
-        fdata[FV.TXYH][:, downwind_index, 2] = hh
+        fdata[FV.TXYH] = txyh
 
 
 class GroundMirror(WakeMirror):
-- 
2.43.0


From 6a8cb0f89ee0230f6c33a06ed17acb50a1b23cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:35 +0000
Subject: [PATCH 129/139] fix: dynamic wakes of a single turbine were not
 transported beyond the chunk of states

---
 foxes/algorithms/iterative/models/farm_wakes_calc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/foxes/algorithms/iterative/models/farm_wakes_calc.py b/foxes/algorithms/iterative/models/farm_wakes_calc.py
index a13a565..f1c7891 100644
--- a/foxes/algorithms/iterative/models/farm_wakes_calc.py
+++ b/foxes/algorithms/iterative/models/farm_wakes_calc.py
@@ -141,6 +141,11 @@ class FarmWakesCalculation(FarmDataModel):
                         algo, mdata, fdata, tdata, oi, wdelta, wmodel, pwake
                     )
 
+            if n_turbines == 1:
+                # no other turbine is affected, but the wake
+                # may still have to be followed through the chunks:
+                algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdatap, 0)
+
             for oi in range(n_turbines):
                 wres = gmodel.finalize_farm_wakes(
                     algo,
-- 
2.43.0


From b3121c760bfabf5a4d0326989a3f82ad3685a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:13 +0000
Subject: [PATCH 130/139] fix: timelines centreline points ignored the chunk of
 states and were mirrored along the wind direction

---
 foxes/models/wake_frames/timelines.py | 37 +++++++++++++--------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/foxes/models/wake_frames/timelines.py b/foxes/models/wake_frames/timelines.py
index 53a5a8c..1125b58 100644
--- a/foxes/models/wake_frames/timelines.py
+++ b/foxes/models/wake_frames/timelines.py
@@ -469,34 +469,33 @@ class Timelines(WakeFrame):
         trace_dp = np.zeros_like(points[..., :2])
         trace_l = x.copy()
         trace_si = np.zeros((n_states, n_points), dtype=config.dtype_int)
-        trace_si[:] = np.arange(n_states)[:, None]
+        trace_si[:] = mdata.states_i0(counter=True) + np.arange(n_states)[:, None]
 
         for hi, h in enumerate(heights):
             precond = theights == h
             if np.any(precond):
-                sel = precond[:, None] & (trace_l > 0)
-                while np.any(sel):
-                    dxy = data_dxy[hi][trace_si[sel]]
-
-                    trl = trace_l[sel]
-                    trp = trace_dp[sel]
-                    dl = np.linalg.norm(dxy, axis=-1)
-                    cl = np.abs(trl - dl) < np.abs(trl)
-                    if np.any(cl):
-                        trace_l[sel] = np.where(cl, trl - dl, trl)
-                        trace_dp[sel] = np.where(cl[:, None], trp + dxy, trp)
-                    del trl, trp, dl, cl, dxy
-
+                dxy = data_dxy[hi]
+                dl = np.linalg.norm(dxy, axis=-1)
+
+                # step backwards in time, while this gets closer to x:
+                sel = precond[:, None] & (trace_si > 0)
+                while True:
+                    trl = np.abs(trace_l - dl[trace_si - 1])
+                    sel = sel & (trace_si > 0) & (trl < np.abs(trace_l))
+                    del trl
+                    if not np.any(sel):
+                        break
                     trace_si[sel] -= 1
-                    sel = precond[:, None] & (trace_l > 0) & (trace_si >= 0)
+                    trace_l[sel] -= dl[trace_si[sel]]
+                    trace_dp[sel] += dxy[trace_si[sel]]
 
-                si = trace_si[precond] + 1
-                dxy = data_dxy[hi][si]
-                dl = np.linalg.norm(dxy, axis=-1)[:, :, None]
+                # add the remaining distance:
+                si = trace_si[precond]
                 trl = trace_l[precond][:, :, None]
                 trp = trace_dp[precond]
+                dl = dl[si][:, :, None]
                 sel = np.abs(trl) < 2 * dl
-                trace_dp[precond] = np.where(sel, trp - trl / dl * dxy, np.nan)
+                trace_dp[precond] = np.where(sel, trp + trl / dl * dxy[si], np.nan)
 
                 del si, dxy, dl, trl, trp, sel
             del precond
-- 
2.43.0


From 3213c96d9f914a565de834e1c51e314085dedcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:54 +0000
Subject: [PATCH 131/139] fix: centreline points of yawed wakes were deflected
 to the wrong side

---
 foxes/models/wake_frames/yawed_wakes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index 7ff6800..c87ac30 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -324,7 +324,7 @@ class YawedWakes(WakeFrame):
         y = np.zeros_like(x)
         self._update_y(algo, mdata, fdata, tdata, downwind_index, x, y)
 
-        points += y[:, :, None] * ny
+        points -= y[:, :, None] * ny
 
         return points
 
-- 
2.43.0


From 96bcf653b1875bdfb398e339cd4d7ce202844e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:28 +0000
Subject: [PATCH 132/139] fix: yawed wakes failed for a single centreline point

---
 foxes/models/wake_frames/yawed_wakes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/foxes/models/wake_frames/yawed_wakes.py b/foxes/models/wake_frames/yawed_wakes.py
index c87ac30..90d4269 100644
--- a/foxes/models/wake_frames/yawed_wakes.py
+++ b/foxes/models/wake_frames/yawed_wakes.py
@@ -309,11 +309,14 @@ class YawedWakes(WakeFrame):
         tdata = TData.from_points(points)
 
         nx = np.zeros_like(points)
-        nx[:, 0] = points[:, 1] - points[:, 0]
-        nx[:, -1] = points[:, -1] - points[:, -2]
-        nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
-            points[:, 2:] - points[:, 1:-1]
-        )
+        if points.shape[1] == 1:
+            nx[:, 0] = points[:, 0] - fdata[FV.TXYH][:, downwind_index]
+        else:
+            nx[:, 0] = points[:, 1] - points[:, 0]
+            nx[:, -1] = points[:, -1] - points[:, -2]
+            nx[:, 1:-1] = 0.5 * (points[:, 1:-1] - points[:, :-2]) + 0.5 * (
+                points[:, 2:] - points[:, 1:-1]
+            )
         nx /= np.linalg.norm(nx, axis=-1)[:, :, None]
 
         nz = np.zeros_like(nx)
-- 
2.43.0


From bfa83de5c02e314ae35f9855d3848179ba606eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:14 +0000
Subject: [PATCH 133/139] fix: iterations stopped before wakes were transported
 through all chunks of states

---
 foxes/algorithms/iterative/iterative.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 3a2cd3b..a2b8082 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -72,6 +72,7 @@ class Iterative(Downwind):
         super().__init__(*args, **kwargs)
 
         self.max_it = 2 + self.farm.n_turbines**2 if max_it is None else max_it
+        self._default_max_it = max_it is None
         self.conv_crit = (
             self.get_model("DefaultConv")() if conv_crit == "default" else conv_crit
         )
@@ -314,7 +315,8 @@ class Iterative(Downwind):
         self._it = -1
         self._final_run = False
         fres_dwnd = None
-        while self._it < self.max_it:
+        max_it = self.max_it
+        while self._it < max_it:
             self._it += 1
 
             self.print(f"\nAlgorithm {self.name}: Iteration {self._it}\n", vlim=0)
@@ -331,6 +333,9 @@ class Iterative(Downwind):
             if self.conv_crit is not None:
                 if self.eval_conv_block():
                     self.print(f"{self.name}: Convergence blocked", vlim=0)
+                    # e.g. wakes still have to be transported to the next chunk:
+                    if self._default_max_it:
+                        max_it += 1
                 else:
                     conv = self.conv_crit.check_converged(
                         self,
-- 
2.43.0


From 336e161b4b1849d5656cb44ffdf6cb2828d5f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:50 +0000
Subject: [PATCH 134/139] fix: model parameters were replaced by farm data for
 wake frames with past states

---
 foxes/core/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/foxes/core/model.py b/foxes/core/model.py
index a451056..de07919 100644
--- a/foxes/core/model.py
+++ b/foxes/core/model.py
@@ -484,9 +484,11 @@ class Model(ABC):
                 )
             return out
 
-        # data from other chunks, only with iterations:
+        # data from other chunks, only with iterations
+        # (parameters of this model do not depend on the states):
         if (
-            target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
+            s != "s"
+            and target in [FC.STATE_TARGET, FC.STATE_TARGET_TPOINT]
             and fdata is not None
             and variable in fdata
             and tdata is not None
-- 
2.43.0


From 3fb467c36e54ef9e80366ebe340c1ae904b97921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:21 +0000
Subject: [PATCH 135/139] fix: point results after iterations read farm data of
 other chunks from the latest run, not from the given farm results

---
 foxes/algorithms/iterative/iterative.py | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index a2b8082..1a73cd3 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -368,3 +368,30 @@ class Iterative(Downwind):
             return fres, fres_dwnd
         else:
             return fres
+
+    def calc_points(self, farm_results, points, *args, **kwargs):
+        """
+        Calculate data at a given set of points.
+
+        Parameters
+        ----------
+        farm_results: xarray.Dataset
+            The farm results. The calculated variables have
+            dimensions (state, turbine)
+        points: numpy.ndarray
+            The points of interest, shape: (n_states, n_points, 3)
+        args: tuple, optional
+            Arguments for calc_points in the base class
+        kwargs: dict, optional
+            Arguments for calc_points in the base class.
+
+        Returns
+        -------
+        point_results: xarray.Dataset
+            The point results. The calculated variables have
+            dimensions (state, point)
+
+        """
+        # wakes may originate from states in other chunks:
+        self.__prev_farm_results = farm_results
+        return super().calc_points(farm_results, points, *args, **kwargs)
-- 
2.43.0


From bc0cc2b6af952bd7faa97622bd8ce8151888d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 136/139] fix: chunk data of the farm calculation was lost
 after the first point calculation

---
 foxes/core/algorithm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/foxes/core/algorithm.py b/foxes/core/algorithm.py
index beafde3..d63d4f2 100644
--- a/foxes/core/algorithm.py
+++ b/foxes/core/algorithm.py
@@ -908,12 +908,15 @@ class Algorithm(Model):
         chunk_store = self.reset_chunk_store()
         point_results = self._launch_parallel_points_calc(
             *args,
-            chunk_store=chunk_store,
+            chunk_store={k: c.copy() for k, c in chunk_store.items()},
             sel=sel,
             isel=isel,
             **kwargs,
         )
 
+        # keep the results of the farm calculation:
+        self.reset_chunk_store(chunk_store)
+
         # reset to not running:
         self.unset_running(
             self, data_stash, sel=sel, isel=isel, verbosity=self.verbosity - 2
-- 
2.43.0


From f83d76c2df0ed8deac36576ea692c97c4216463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 137/139] fix: iterations used chunk data of earlier runs with
 other chunk sizes

---
 foxes/algorithms/iterative/iterative.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/foxes/algorithms/iterative/iterative.py b/foxes/algorithms/iterative/iterative.py
index 1a73cd3..bb7f806 100644
--- a/foxes/algorithms/iterative/iterative.py
+++ b/foxes/algorithms/iterative/iterative.py
@@ -316,6 +316,7 @@ class Iterative(Downwind):
         self._final_run = False
         fres_dwnd = None
         max_it = self.max_it
+        self.reset_chunk_store()
         while self._it < max_it:
             self._it += 1
 
-- 
2.43.0


From 5d4c3e0d021a74b458b99fa2b7af04f37dc27016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 138/139] fix: automatic maximal age of dynamic wakes was kept
 for the time steps of later states

---
 foxes/models/wake_frames/dynamic_wakes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/foxes/models/wake_frames/dynamic_wakes.py b/foxes/models/wake_frames/dynamic_wakes.py
index ade5a91..43f63c0 100644
--- a/foxes/models/wake_frames/dynamic_wakes.py
+++ b/foxes/models/wake_frames/dynamic_wakes.py
@@ -62,6 +62,7 @@ class DynamicWakes(WakeFrame):
         super().__init__(max_length_km=max_length_km, **kwargs)
 
         self.max_age = max_age
+        self._auto_max_age = max_age is None
         self.cl_ipars = cl_ipars
         self.dt_min = dt_min
         self._mage_ws = max_age_mean_ws
@@ -111,7 +112,7 @@ class DynamicWakes(WakeFrame):
         self._dt = np.append(self._dt, self._dt[-1, None], axis=0)
 
         # find max age if not given:
-        if self.max_age is None:
+        if self._auto_max_age:
             step = np.mean(self._mage_ws * self._dt)
             self.max_age = max(int(self.max_length_km * 1e3 / step), 1)
             if verbosity > 0:
-- 
2.43.0


From 4d3de409a654949db971a1a4cc20a0182d9566e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:16 +0000
Subject: [PATCH 139/139] fix: points in dynamic wakes missed the wakes if the
 chunk sizes differ from those of the farm calculation

---
 foxes/models/wake_frames/dynamic_wakes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/foxes/models/wake_frames/dynamic_wakes.py b/foxes/models/wake_frames/dynamic_wakes.py
index 43f63c0..8014c33 100644
--- a/foxes/models/wake_frames/dynamic_wakes.py
+++ b/foxes/models/wake_frames/dynamic_wakes.py
@@ -164,6 +164,18 @@ class DynamicWakes(WakeFrame):
         key = f"{self.DATA}_{downwind_index}"
         ukey_fun = lambda fr, to: f"{self.UPDATE}_dw{downwind_index}_from_{fr}_to_{to}"
 
+        # wakes from a farm calculation with other chunk sizes:
+        if algo.chunk_store.get((i0, 0), {}).get("n_states") != n_states:
+            stored = []
+            s0 = 0
+            while s0 < i1:
+                stored.append(algo.chunk_store.get((s0, 0), {}).get(key))
+                if stored[-1] is None:
+                    break
+                s0 += len(stored[-1])
+            else:
+                return np.concatenate(stored, axis=0)[:i1], 0
+
         # compute wakes that start within this chunk: x, y, z, length
         data = algo.get_from_chunk_store(name=key, mdata=mdata, error=False)
         if data is None:
-- 
2.43.0

