From 85caaf47d7f2b4adaf81f2a935f827ca04be543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 01/79] fix: check the disorientation rule when one damage
 tolerance ply is required

is_diso_ss returned True without looking at the stack for damage tolerance
rule 1; only the two-ply rules exempt the outer interfaces.
---
 src/guidelines/disorientation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/guidelines/disorientation.py b/src/guidelines/disorientation.py
index a2f0763..3f2957f 100644
--- a/src/guidelines/disorientation.py
+++ b/src/guidelines/disorientation.py
@@ -90,12 +90,12 @@ def is_diso_ss(ss, delta_angle, dam_tol=False,
             for ind_ply in range(ss.size - 3):
                 if not is_diso(ss[ind_ply + 1], ss[ind_ply + 2], delta_angle):
                     return False
+            return True
         if dam_tol_rule is None and n_plies_dam_tol is None:
             raise Exception('Not enough input arugments!')
-    else:
-        for ind_ply in range(ss.size - 1):
-            if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
-                return False
+    for ind_ply in range(ss.size - 1):
+        if not is_diso(ss[ind_ply], ss[ind_ply + 1], delta_angle):
+            return False
     return True
 
 
-- 
2.43.0


From 4d6ad39ffe952f9883223d7e03960f75fd8d774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 02/79] fix: orthotropy penalties of several panels when
 optimiser parameters are given

calculate_penalty was only assigned when parameters was None.
---
 src/guidelines/ipo_oopo.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index a398171..9c41e43 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -243,22 +243,18 @@ def calc_penalty_ipo_oopo_mp(
     - cummul_sec_mom_areas: sum of the second moments of areas of the plies
     retrieved so far + the current plies
     """
-    if parameters is None:
-        calculate_penalty = True
-
     n_panels = lampam.shape[0]
     penalties_ipo = np.zeros((n_panels,), dtype=float)
     penalties_oopo = np.zeros((n_panels,), dtype=float)
-    if calculate_penalty:
-        for ind_panel in range(n_panels):
-            # penalty for in-plane orthotropy
-            if constraints.ipo and penalty_ipo_switch:
-                penalties_ipo[ind_panel] = (
-                    abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
-            # penalty for out-of-plane orthotropy
-            if constraints.oopo:
-                penalties_oopo[ind_panel] = (
-                    abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
+    for ind_panel in range(n_panels):
+        # penalty for in-plane orthotropy
+        if constraints.ipo and penalty_ipo_switch:
+            penalties_ipo[ind_panel] = (
+                abs(lampam[ind_panel][2]) + abs(lampam[ind_panel][3])) / 2
+        # penalty for out-of-plane orthotropy
+        if constraints.oopo:
+            penalties_oopo[ind_panel] = (
+                abs(lampam[ind_panel][10]) + abs(lampam[ind_panel][11])) / 2
     return cummul_areas * penalties_ipo, cummul_sec_mom_areas * penalties_oopo
 
 
-- 
2.43.0


From 2a202c997c40a9835d9bf7c22de0fa0eabd08502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 03/79] fix: 10% rule of a symmetric laminate with a middle ply
 and a ply queue

The middle ply was read at index 1 instead of at the middle of the stack.
---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index bfe351f..992c503 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -139,7 +139,7 @@ def is_ten_percent_rule(
             percent_135 = 2 * (
                 sum(stack[:stack.size // 2] == -45) + ply_queue.count(-45))
             if stack.size % 2:
-                mid_ply_angle = stack[stack.size % 2]
+                mid_ply_angle = stack[stack.size // 2]
                 if mid_ply_angle == 0:
                     percent_0 += 1
                 if mid_ply_angle == 90:
-- 
2.43.0


From cba0474b7efc68e3c7eee9b3e4c4565d6ae5b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 04/79] fix: rounding in the 10% rule evaluated from ply counts

Laminates with exactly the minimum +-45 percentage were refused (0.7 + 0.1 <
0.8); use the tolerance of the other branch.
---
 src/guidelines/ten_percent_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 992c503..660b90b 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -114,11 +114,11 @@ def is_ten_percent_rule(
             percent_45 = n_plies_per_angle[constraints.index45] / n_total
             percent_90 = n_plies_per_angle[constraints.index90] / n_total
             percent_135 = n_plies_per_angle[constraints.index135] / n_total
-            if percent_0 < constraints.percent_0 \
-            or percent_45 < constraints.percent_45 \
-            or percent_90 < constraints.percent_90 \
-            or percent_135 < constraints.percent_135 \
-            or percent_45 + percent_135 < constraints.percent_45_135:
+            if percent_0 + 1e-15 < constraints.percent_0 \
+            or percent_45 + 1e-15 < constraints.percent_45 \
+            or percent_90 + 1e-15 < constraints.percent_90 \
+            or percent_135 + 1e-15 < constraints.percent_135 \
+            or percent_45 + percent_135 + 1e-15 < constraints.percent_45_135:
                 return False
         return True
 
-- 
2.43.0


From c85fcca5e3e31c0f2a8e56debc029c650389080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 05/79] fix: 10% rule penalties of a list of stacks when no
 percentage is set

lists have no shape; saving results without the 10% rule failed.
---
 src/guidelines/ten_percent_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 660b90b..6abab6d 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -235,7 +235,7 @@ def calc_penalty_10_ss(ss, constraints, LPs=None, mp=False):
 
     if not mp:
         return 0
-    return np.zeros((ss.shape[0],))
+    return np.zeros((len(ss),))
 
 
 def calc_penalty_10_pc(n_plies_per_angle, constraints, cummul_areas=1):
-- 
2.43.0


From 2617f01fcb0a9f405a3beddc9beb8ace6e817472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 06/79] fix: distance to the feasible region of the 10% rule of
 Abdalla

The boundary points did not lie on the boundary that the rule itself tests,
a**2 + a * LP2 - 2 * LP1**2 = 0 with -a <= LP1 <= a.
---
 src/guidelines/ten_percent_rule_Abdalla.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/guidelines/ten_percent_rule_Abdalla.py b/src/guidelines/ten_percent_rule_Abdalla.py
index 2ebb91b..0be2f50 100644
--- a/src/guidelines/ten_percent_rule_Abdalla.py
+++ b/src/guidelines/ten_percent_rule_Abdalla.py
@@ -73,11 +73,11 @@ def calc_distance_Abdalla(LPs, constraints, num=10000):
         and 1 - 4 * constraints.percent_Abdalla - LPs[1] + 1e-15 > 0:
             return 0
 
-        LP1_max = math.sqrt(1 - 4 * constraints.percent_Abdalla)
+        LP1_max = 1 - 4 * constraints.percent_Abdalla
         LP1_min = - LP1_max
 
         def point_parabola_Abdalla(LP1, constraints):
-            LP2 = 2 * (LP1 / (1 - 4 * constraints.percent_Abdalla)) **2 \
+            LP2 = 2 * LP1 ** 2 / (1 - 4 * constraints.percent_Abdalla) \
             - (1 - 4 * constraints.percent_Abdalla)
             return np.array([LP1, LP2])
 
-- 
2.43.0


From 6aa0a05c7c60cafacda80ae704811fcfc988b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 07/79] fix: import numpy.matlib where np.matlib is used

numpy does not import it by itself.
---
 src/BELLA/pdl_tools.py             | 1 +
 src/guidelines/ten_percent_rule.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index adea881..5100c79 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -29,6 +29,7 @@ Guidelines:
 """
 import sys
 import numpy as np
+import numpy.matlib
 
 sys.path.append(r'C:\BELLA')
 from src.guidelines.ply_drop_spacing import calc_penalty_spacing_1ss
diff --git a/src/guidelines/ten_percent_rule.py b/src/guidelines/ten_percent_rule.py
index 6abab6d..f35fead 100644
--- a/src/guidelines/ten_percent_rule.py
+++ b/src/guidelines/ten_percent_rule.py
@@ -24,6 +24,7 @@ __author__ = 'Noemie Fedon'
 
 import sys
 import numpy as np
+import numpy.matlib
 import math
 
 sys.path.append(r'C:\BELLA')
-- 
2.43.0


From 9b11ebca82b219a48c6c41ee895eed2cb24e75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 08/79] fix: external_contig filters the second sublaminate
 table too

Rows dropped from the first table stayed in the second one.
---
 src/guidelines/external_contig.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/guidelines/external_contig.py b/src/guidelines/external_contig.py
index b6ba1aa..1ed53e1 100644
--- a/src/guidelines/external_contig.py
+++ b/src/guidelines/external_contig.py
@@ -389,6 +389,7 @@ sublaminate
                             if  angle[ii, 0] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 3:
@@ -401,6 +402,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -414,6 +416,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -428,6 +431,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1]\
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -443,6 +447,7 @@ sublaminate
                             and angle[ii, 4] == ss_before[-1] \
                             and angle[ii, 5] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -458,6 +463,7 @@ sublaminate
                         if  angle[ii, 0] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-2]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 3:
@@ -470,6 +476,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 4:
@@ -483,6 +490,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
 
@@ -498,6 +506,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -513,6 +522,7 @@ sublaminate
                             and angle[ii, 3] == ss_before[-1] \
                             and angle[ii, 4] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -532,6 +542,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 4:
@@ -545,6 +556,7 @@ sublaminate
                             and ss_before[-3] == ss_before[-1] \
                             and ss_before[-2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 5:
@@ -559,6 +571,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -574,6 +587,7 @@ sublaminate
                             and angle[ii, 2] == ss_before[-1]  \
                             and angle[ii, 3] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -597,6 +611,7 @@ sublaminate
                         and ss_before[-3] == ss_before[-1] \
                         and ss_before[-2] == ss_before[-1]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 5:
@@ -611,6 +626,7 @@ sublaminate
                             and ss_before[-2] == ss_before[-1] \
                             and angle[ii, 1] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 elif constraints.n_contig == 6:
@@ -626,6 +642,7 @@ sublaminate
                             and angle[ii, 1] == ss_before[-1] \
                             and angle[ii, 2] == ss_before[-1]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
                 else:
                     raise Exception(
@@ -652,6 +669,7 @@ sublaminate
                         and ss_before[-2] == ss_before[-1] \
                         and angle[ii, 0] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 elif constraints.n_contig == 6:
@@ -667,6 +685,7 @@ sublaminate
                             and angle[ii, 0] == ss_before[-5] \
                             and angle[ii, 1] == ss_before[-5]:
                                 angle = np.delete(angle, np.s_[ii], axis=0)
+                                angle2 = np.delete(angle2, np.s_[ii], axis=0)
                                 continue
 
                 else:
@@ -698,6 +717,7 @@ sublaminate
                         and angle[ii, 0] == ss_before[-5]  \
                         and ss_before[-6] == ss_before[-5]:
                             angle = np.delete(angle, np.s_[ii], axis=0)
+                            angle2 = np.delete(angle2, np.s_[ii], axis=0)
                             continue
 
                 else:
-- 
2.43.0


From 0e0c0286b53b0c28a7b7e2ea527cc889d2762e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 09/79] fix: pruning of asymmetric laminates and contiguity of
 thin laminates

Plies are identified by their position, as everywhere else in the optimisers:
the parity of that position does not tell on which side of the laminate a ply
is added. Top plies are now checked for contiguity, the last ply of asymmetric
laminates against both neighbours, and the plies preceding the last one are not
lost anymore when there are fewer of them than the contiguity limit.
---
 src/BELLA/optimiser_with_one_pdl.py |  3 +-
 src/BELLA/pruning.py                | 53 +++++++++++++----------
 src/LAYLA_V02/pruning.py            | 66 +++++++++++++----------------
 3 files changed, 63 insertions(+), 59 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index e8fd032..04b2607 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -227,7 +227,8 @@ def BELLA_optimiser_one_pdl(
                     ss_top = list(mother_ss_top)
                     ss_bot = list(mother_ss_bot)
 
-                    if level % 2 == 0:
+                    if level < n_plies_to_optimise // 2 \
+                    + n_plies_to_optimise % 2: # bottom part
                         for ind_panel in range(multipanel.reduced.n_panels):
                             if pdl[ind_panel, level] >= 0:
                                 ss_bot[ind_panel] = np.hstack((
diff --git a/src/BELLA/pruning.py b/src/BELLA/pruning.py
index b55f88d..327f4b3 100644
--- a/src/BELLA/pruning.py
+++ b/src/BELLA/pruning.py
@@ -38,6 +38,16 @@ def pruning_diso_contig_damtol(
     design
     - has_middle_ply: True if one panel at least has a middle ply
     '''
+    if not constraints.sym:
+        # plies are added from the outside inwards: does the new ply belong to
+        # the bottom part of the laminate? is it the last ply to be added?
+        is_bottom_ply = level < n_plies_to_optimise // 2 \
+        + n_plies_to_optimise % 2
+        is_last_ply = level == n_plies_to_optimise // 2
+    else:
+        is_bottom_ply = True
+        is_last_ply = level == n_plies_to_optimise - 1
+
     # =========================================================================
     #       pruning for middle ply symmetry
     # =========================================================================
@@ -119,7 +129,7 @@ def pruning_diso_contig_damtol(
     #       pruning for disorientation
     # =========================================================================
     if constraints.diso:
-        if constraints.sym or level % 2 == 0: # plies at bottom part
+        if is_bottom_ply: # plies at bottom part
             #   externally with mother_ss_bot
             if mother_ss_bot.size > 0:
                 for ind in range(child_ss.size)[:: -1]:
@@ -135,9 +145,9 @@ def pruning_diso_contig_damtol(
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        if not constraints.sym and level == n_plies_to_optimise - 1:
+        if not constraints.sym and is_last_ply:
             # last ply asymmetric laminates
-            if level % 2 == 1: # top part
+            if not is_bottom_ply: # top part
                 for ind in range(child_ss.size)[:: -1]:
                     if not is_diso(child_ss[ind], mother_ss_bot[-1],
                                    constraints.delta_angle):
@@ -156,22 +166,22 @@ def pruning_diso_contig_damtol(
     if constraints.contig:
 
         # not last ply
-        if not level == n_plies_to_optimise - 1:
-
-            # general case
-            if constraints.sym or level % 2 == 0: # bottom ply
+        if not is_last_ply:
 
-                for ind in range(child_ss.size)[:: -1]:
-                    #   externally with mother_ss_bot
-                    test, _ = external_contig(
-                        angle=np.array((child_ss[ind],)),
-                        n_plies_group=1,
-                        constraints=constraints,
-                        ss_before=mother_ss_bot)
-                    if test.size == 0:
-                        child_ss = np.delete(child_ss, np.s_[ind], axis=0)
-                        continue
+            if is_bottom_ply: # externally with mother_ss_bot
+                ss_before = mother_ss_bot
+            else: # externally with mother_ss_top
+                ss_before = np.flip(mother_ss_top, axis=0)
 
+            for ind in range(child_ss.size)[:: -1]:
+                test, _ = external_contig(
+                    angle=np.array((child_ss[ind],)),
+                    n_plies_group=1,
+                    constraints=constraints,
+                    ss_before=ss_before)
+                if test.size == 0:
+                    child_ss = np.delete(child_ss, np.s_[ind], axis=0)
+                    continue
 
         # last ply
         else:
@@ -179,7 +189,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with no middle ply
             if constraints.sym and not has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -192,7 +202,7 @@ def pruning_diso_contig_damtol(
             # symmetric laminate with middle ply
             elif constraints.sym and has_middle_ply:
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 for ind in range(child_ss.size)[:: -1]:
                     new_stack = np.hstack((
                         ss_before,
@@ -203,12 +213,11 @@ def pruning_diso_contig_damtol(
 
             else: # not symmetric
                 ss_before = mother_ss_bot[
-                    mother_ss_bot.size - constraints.n_contig:]
+                    max(0, mother_ss_bot.size - constraints.n_contig):]
                 ss_after = mother_ss_top[:constraints.n_contig]
                 for ind in range(child_ss.size)[:: -1]:
                     if not internal_contig2(
-                            new_stack=np.hstack((
-                                ss_before, child_ss[ind], ss_after)),
+                            np.hstack((ss_before, child_ss[ind], ss_after)),
                             constraints=constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index f2faa78..c5b33d5 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -39,6 +39,14 @@ def pruning_diso_contig_damtol(
     - constraints: lay-up design guidelines
     - targets.n_plies: laminate target ply counts
     '''
+    if not constraints.sym:
+        # plies are added from the outside inwards: does the new ply belong to
+        # the bottom part of the laminate? is it the last ply to be added?
+        is_bottom_ply = level < targets.n_plies // 2 + targets.n_plies % 2
+        is_last_ply = level == targets.n_plies // 2
+    else:
+        is_bottom_ply = True
+        is_last_ply = level == targets.n_plies // 2 + targets.n_plies % 2 - 1
 # =============================================================================
 #       pruning for middle ply symmetry
 # =============================================================================
@@ -120,7 +128,7 @@ def pruning_diso_contig_damtol(
 #       pruning for disorientation
 # =============================================================================
     if constraints.diso:
-        if constraints.sym or level % 2: # plies at the laminate bottom part
+        if is_bottom_ply: # plies at the laminate bottom part
             #   externally with ss_bot_simp
             if ss_bot_simp.size > 0 and mother_ss_bot.size == 0:
                 for ind in range(child_ss.size)[:: -1]:
@@ -148,16 +156,18 @@ def pruning_diso_contig_damtol(
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        if not constraints.sym and level == targets.n_plies - 1:
+        if not constraints.sym and is_last_ply:
             # last ply asymmetric laminates
-            if not level % 2: # check compatibility with laminate bottom part
+            if not is_bottom_ply: # compatibility with laminate bottom part
+                stack_bot = np.hstack((ss_bot_simp, mother_ss_bot))
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_bot[-1],
+                    if not is_diso(child_ss[ind], stack_bot[-1],
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
             else: # check compatibility with laminate top part
+                stack_top = np.hstack((mother_ss_top, ss_top_simp))
                 for ind in range(child_ss.size)[:: -1]:
-                    if not is_diso(child_ss[ind], mother_ss_top[0],
+                    if not is_diso(child_ss[ind], stack_top[0],
                                    constraints.delta_angle):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
@@ -169,9 +179,7 @@ def pruning_diso_contig_damtol(
     if constraints.contig:
 
         # laminate bottom part but not last ply
-        if (constraints.sym \
-            and not level == targets.n_plies // 2 + targets.n_plies % 2 - 1)\
-        or (not constraints.sym and not level == targets.n_plies - 1):
+        if is_bottom_ply and not is_last_ply:
 
             for ind in range(child_ss.size)[:: -1]:
                 #   externally with ss_bot_simp
@@ -184,9 +192,8 @@ def pruning_diso_contig_damtol(
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
                     continue
 
-        # plies at the laminate bottom part but not last ply
-        elif not constraints.sym and not level % 2 \
-        and not level == targets.n_plies - 1:
+        # plies at the laminate top part but not last ply
+        elif not is_last_ply:
 
             for ind in range(child_ss.size)[:: -1]:
 
@@ -202,16 +209,11 @@ def pruning_diso_contig_damtol(
                     continue
 
         # last ply of symmetric laminate
-        elif constraints.sym \
-        and level == targets.n_plies // 2 + targets.n_plies % 2 - 1:
+        elif constraints.sym:
 
-            ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
-                    ss_before))
+            ss_before = np.hstack((ss_bot_simp, mother_ss_bot))
+            ss_before = ss_before[
+                max(0, ss_before.size - constraints.n_contig):]
 
             if targets.n_plies % 2 == 0: # no middle ply
 
@@ -233,27 +235,19 @@ def pruning_diso_contig_damtol(
                     if not internal_contig2(new_stack, constraints):
                         child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-        # plies at the laminate bottom part and not last ply
-        elif not constraints.sym and level == targets.n_plies - 1:
+        # last ply of asymmetric laminate
+        else:
 
-            ss_before = mother_ss_bot[
-                mother_ss_bot.size - constraints.n_contig:]
-            if ss_before.size < constraints.n_contig:
-                ss_before = np.hstack((
-                    ss_bot_simp[ss_bot_simp.size \
-                                - constraints.n_contig + ss_before.size:],
-                    ss_before))
+            ss_before = np.hstack((ss_bot_simp, mother_ss_bot))
+            ss_before = ss_before[
+                max(0, ss_before.size - constraints.n_contig):]
 
-            ss_after = mother_ss_top[:constraints.n_contig]
-            if ss_after.size < constraints.n_contig:
-                ss_after = np.hstack((
-                    ss_after,
-                    ss_top_simp[:constraints.n_contig - ss_after.size:]))
+            ss_after = np.hstack((mother_ss_top, ss_top_simp))
+            ss_after = ss_after[:constraints.n_contig]
 
             for ind in range(child_ss.size)[:: -1]:
                 if not internal_contig2(
-                        new_stack=np.hstack((
-                            ss_before, child_ss[ind], ss_after)),
+                        np.hstack((ss_before, child_ss[ind], ss_after)),
                         constraints=constraints):
                     child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
-- 
2.43.0


From 2ab5d052612bd776d91d135274fa26ba00e8a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 10/79] fix: boundary weights given as (larger ID, smaller ID)
 or equal to zero

---
 src/BELLA/multipanels.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/BELLA/multipanels.py b/src/BELLA/multipanels.py
index 0ba76b4..07dabad 100644
--- a/src/BELLA/multipanels.py
+++ b/src/BELLA/multipanels.py
@@ -182,20 +182,15 @@ The panels of the multipanel-component are not all connected!""")
                 ind_panel1_mod, ind_panel2_mod = sorted((ind_panel1_mod,
                                                          ind_panel2_mod))
                 weight = boundary_weights.get((ind_panel1, ind_panel2), None)
-                if weight:
-                    self.boundary_weights_in_IDs[
-                        (ind_panel1, ind_panel2)] = weight
-                    self.boundary_weights[
-                        (ind_panel1_mod, ind_panel2_mod)] = weight
-                else:
+                if weight is None:
                     weight = boundary_weights.get(
                         (ind_panel2, ind_panel1), None)
-                    if not weight:
+                    if weight is None:
                         raise Exception('Missing boundary weightings.')
-                    self.boundary_weights_in_IDs[
-                        (ind_panel2, ind_panel1)] = weight
-                    self.boundary_weights[
-                        (ind_panel2_mod, ind_panel1_mod)] = weight
+                self.boundary_weights_in_IDs[
+                    (ind_panel1, ind_panel2)] = weight
+                self.boundary_weights[
+                    (ind_panel1_mod, ind_panel2_mod)] = weight
 
         else:  # all boundary weightings set to one
             for ind_panel1, ind_panel2 in self.boundaries_in_IDs:
-- 
2.43.0


From e99244e81a1c8f3eccf2747381bc3a17daa35b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 11/79] fix: covering rule with two covering plies in
 check_ply_drop_rules

---
 src/guidelines/one_stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index 789876a..b40edd0 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -81,7 +81,9 @@ def check_ply_drop_rules(reduced_sst, multipanel, constraints, reduced=True):
     reduced = True if the function is applied to the blending strip
     """
     if constraints.covering:
-        if (reduced_sst[:, 0] == -1).any() or (reduced_sst[:, -1] == -1).any():
+        n_covering = constraints.n_covering
+        if (reduced_sst[:, :n_covering] == -1).any() \
+        or (reduced_sst[:, reduced_sst.shape[1] - n_covering:] == -1).any():
             raise Exception("Covering constraint not satisfied")
 
     if  constraints.pdl_spacing:
-- 
2.43.0


From 06283c99ccb2e7a2781f53bbefb632d72b63cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 12/79] fix: check the 10% rule of Abdalla in
 check_lay_up_rules

---
 src/guidelines/one_stack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/guidelines/one_stack.py b/src/guidelines/one_stack.py
index b40edd0..555afba 100644
--- a/src/guidelines/one_stack.py
+++ b/src/guidelines/one_stack.py
@@ -66,10 +66,14 @@ def check_lay_up_rules(
             raise Exception("Contiguity constraint not satisfied")
 
     if constraints.rule_10_percent:
+        # lamination parameters for the 10% rule of Abdalla
+        LPs = None
+        if constraints.rule_10_Abdalla:
+            LPs = calc_lampamA(ss, constraints)
         if not is_ten_percent_rule(
                 constraints, stack=ss,
                 equality_45_135=equality_45_135,
-                equality_0_90=equality_0_90):
+                equality_0_90=equality_0_90, LPs=LPs):
             raise Exception("10% rule not satisfied")
     return 0
 
-- 
2.43.0


From 6fb48a9d65e77314006c4bc02abadd3fceed69e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 13/79] fix: layout recovered from the table of a symmetric
 structure with a middle ply

---
 src/BELLA/pdl_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/pdl_tools.py b/src/BELLA/pdl_tools.py
index 5100c79..126560a 100644
--- a/src/BELLA/pdl_tools.py
+++ b/src/BELLA/pdl_tools.py
@@ -270,13 +270,13 @@ def input_pdl_from_sst(sst, multipanel, constraints):
         if constraints.n_covering == 1:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 1:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 1:(sst.shape[1] + 1) // 2]
         elif constraints.n_covering == 2:
             pdl_before_cummul[0] = np.matlib.repmat(
                 np.array([0, 1], dtype=int), multipanel.n_panels, 1)
-            sst_to_mod = sst_to_mod[:, 2:sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, 2:(sst.shape[1] + 1) // 2]
         else:
-            sst_to_mod = sst_to_mod[:, :sst.shape[1] // 2]
+            sst_to_mod = sst_to_mod[:, :(sst.shape[1] + 1) // 2]
 
         for ind_panel in range(sst_to_mod.shape[0]):
             counter = 0
-- 
2.43.0


From 5b49e484d7e834e1cc0bfed5a07366a7bd3743aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 14/79] fix: weightings of the panels of the blending strip sum
 over the panels of the structure

---
 src/BELLA/reduced_multipanels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/reduced_multipanels.py b/src/BELLA/reduced_multipanels.py
index c5dfcf1..40b5d17 100644
--- a/src/BELLA/reduced_multipanels.py
+++ b/src/BELLA/reduced_multipanels.py
@@ -158,7 +158,7 @@ The panel ply counts are not compatible with guide-based blending (middle ply)""
         parameters are aggregated
         """
         self.actual_panel_weightings = np.zeros((self.n_panels,))
-        for ind_panel, panel in enumerate(self.panels):
+        for ind_panel, panel in enumerate(multipanel.panels):
             self.actual_panel_weightings[
                 self.ind_panels_guide[ind_panel]] += panel.weighting
 
-- 
2.43.0


From 8e91b0e3a2d24741d952fc6cd5b10da00d336844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 15/79] fix: ply moments of areas of asymmetric laminates in
 the order of the plies

---
 src/BELLA/moments_of_areas.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/BELLA/moments_of_areas.py b/src/BELLA/moments_of_areas.py
index ef486d2..21a3a1e 100644
--- a/src/BELLA/moments_of_areas.py
+++ b/src/BELLA/moments_of_areas.py
@@ -75,12 +75,8 @@ def calc_mom_of_areas(multipanel, constraints, ply_order):
 
             ply_indices = np.arange(panel.n_plies)
 
-            print(ply_indices, type(ply_indices))
-            print(ply_order, type(ply_order))
-            pos_bot = ((2 / panel.n_plies) \
-                       * ply_indices - 1)[ply_order[ind_panel]]
-            pos_top = ((2 / panel.n_plies) \
-                       * (ply_indices + 1) - 1)[ply_order[ind_panel]]
+            pos_bot = (2 / panel.n_plies) * ply_indices - 1
+            pos_top = (2 / panel.n_plies) * (ply_indices + 1) - 1
 
             mom_areas_panel[:, 0] = pos_top - pos_bot
             mom_areas_panel[:, 1] = pos_top**2 - pos_bot**2
@@ -146,19 +142,31 @@ def calc_mom_of_areas2(multipanel, constraints, mom_areas_plus, pdl,
     cummul_sec_mom_areas = np.zeros(
         (multipanel.reduced.n_panels, n_plies_to_optimise), float)
 
+    # order in which the plies are optimised
+    order = np.arange(n_plies_to_optimise)
+    if not constraints.sym:
+        order_before_sorting = np.arange(n_plies_to_optimise)
+        order[0::2] = order_before_sorting[
+            :n_plies_to_optimise // 2 + n_plies_to_optimise % 2]
+        order[1::2] = order_before_sorting[
+            n_plies_to_optimise // 2 + n_plies_to_optimise % 2:][::-1]
+
     for ind_panel, panel in enumerate(multipanel.reduced.panels):
         counter_plies = -1
         for index_ply in range(n_plies_to_optimise):
             if pdl[ind_panel, index_ply] != -1:
                 counter_plies += 1
 
-                cummul_areas[ind_panel, index_ply:] \
+                # plies optimised from the ply of index 'index_ply' on
+                indices = order[int(np.where(order == index_ply)[0][0]):]
+
+                cummul_areas[ind_panel, indices] \
                 += mom_areas_plus[ind_panel][counter_plies][0]
 
-                cummul_first_mom_areas[ind_panel, index_ply:] \
+                cummul_first_mom_areas[ind_panel, indices] \
                 += mom_areas_plus[ind_panel][counter_plies][1]
 
-                cummul_sec_mom_areas[ind_panel, index_ply:] \
+                cummul_sec_mom_areas[ind_panel, indices] \
                 += mom_areas_plus[ind_panel][counter_plies][2]
 
     return cummul_areas, cummul_first_mom_areas, cummul_sec_mom_areas
-- 
2.43.0


From bf0a3d39a00a607cfc5a2712efb27cb4ab8b38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 16/79] fix: middle ply in the ply-drop layouts of symmetric
 structures

---
 src/BELLA/pdl_group.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index d7f2f94..81687fc 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -167,14 +167,6 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
-        if last_group and has_middle_ply:
-            middle = -(middle_ply_indices[:-1] != 0).astype(int)
-#            print('middle', middle)
-            middle = middle.reshape((new_pdl.shape[0], 1))
-#            print('middle', middle)
-            new_pdl = np.hstack((new_pdl, middle))
-
-
         # Formatting the ply drop layout so that a ply drop scheme is
         # associated to each panel boundary
         new_pdl = ply_drops_at_each_boundaries(
@@ -183,6 +175,12 @@ def randomly_pdl_guide(
 #        print('new_pdl')
 #        print(new_pdl)
 
+        # middle ply dropped from the panels without middle ply
+        if last_group and has_middle_ply:
+            middle = -(middle_ply_indices == 0).astype(int)
+            middle = middle.reshape((new_pdl.shape[0], 1))
+            new_pdl = np.hstack((new_pdl, middle))
+
         # Application ply drop spacing and stacking rules:
         #   - Ply drops should be separated by at least min_drop plies
 
-- 
2.43.0


From 298102a800ccbd82928f7b06556c0898ac18354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 17/79] fix: keep the ply-drop layouts with the smallest
 penalties

---
 src/BELLA/pdl_group.py | 2 +-
 src/BELLA/pdl_ini.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index 81687fc..b12ca9d 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -248,7 +248,7 @@ def randomly_pdl_guide(
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_spacing_imperfect)
+                    indexx = np.argmax(p_spacing_imperfect)
                     pdl_imperfect[indexx] = new_pdl
                     p_spacing_imperfect[indexx] = p_spacing
             else:
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index a4b7142..122b56c 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -160,7 +160,7 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
                     if is_double:
                         continue
                     #print('is_double', is_double)
-                    indexx = np.argmin(p_pdls_imperfect)
+                    indexx = np.argmax(p_pdls_imperfect)
                     pdls_imperfect[indexx] = new_pdl
                     p_pdls_imperfect[indexx] = new_penalty_spacing
             else:
-- 
2.43.0


From 4dd134a1a2ca327971f8828eb0b35a489863d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 18/79] fix: fewer distinct initial ply-drop layouts than asked

---
 src/BELLA/optimiser.py | 2 ++
 src/BELLA/pdl_ini.py   | 9 ++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index b8d152e..e77d329 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -69,6 +69,8 @@ def BELLA_optimiser(
         divide_panels(multipanel, parameters, constraints)
         pdls_ini = create_initial_pdls(
             multipanel, constraints, parameters, obj_func_param)
+        # number of initial ply drops to be tested
+        parameters.n_ini_ply_drops = len(pdls_ini)
     else:
         # read initial ply-drop layouts
         pdls_ini = read_pdls_excel(filename_initial_pdls)
diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index 122b56c..b3e8ef6 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -193,15 +193,18 @@ def create_initial_pdls(multipanel, constraints, parameters, obj_func_param):
 No conform ply drop layout can be generated.
 Too many ply drops between two adjacent panels.""")
 
+        # less ply drop layouts than asked if not enough were generated
+        pdls_perfect = pdls_perfect[:ind_perfect + ind_imperfect]
+
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, parameters.n_ini_ply_drops):
+        for ind in range(ind_perfect, pdls_perfect.shape[0]):
             indexx = np.argmin(p_pdls_imperfect)
             pdls_perfect[ind] = pdls_imperfect[indexx]
-            p_pdls_imperfect[indexx] = 10e6
+            p_pdls_imperfect[indexx] = np.inf
 
         print('    ' + str(ind_perfect) \
           + ' feasible intial ply-drop layouts generated.')
-        print('    ' + str(parameters.n_ini_ply_drops - ind_perfect) \
+        print('    ' + str(pdls_perfect.shape[0] - ind_perfect) \
           + ' infeasible intial ply-drop layouts generated.')
 
         return pdls_perfect
-- 
2.43.0


From 0ec3bcb3bf3b5353c9adca82a4fc28ac6eb6190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 19/79] fix: last ply-drop layout of an input file read twice

---
 src/BELLA/pdl_ini.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/pdl_ini.py b/src/BELLA/pdl_ini.py
index b3e8ef6..304cc9e 100644
--- a/src/BELLA/pdl_ini.py
+++ b/src/BELLA/pdl_ini.py
@@ -52,11 +52,9 @@ def read_pdls_excel(filename):
                 header=None, )
         except:
             break
-        finally:
-            ind_pdl += 1
-            pdls.append(np.array(pdl))
-    ind_pdl -= 2
-    print('    ' + str(ind_pdl) + ' intial ply-drop layouts read.')
+        ind_pdl += 1
+        pdls.append(np.array(pdl))
+    print('    ' + str(len(pdls)) + ' intial ply-drop layouts read.')
     return pdls
 
 
-- 
2.43.0


From 73cacbfed9a679a3f9dfef56da1786f6b8827db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 20/79] fix: ply drops of thinner panels distributed so that
 blending remains guide-based

---
 src/BELLA/divide_panels.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/divide_panels.py b/src/BELLA/divide_panels.py
index 38a4807..68e4ff9 100644
--- a/src/BELLA/divide_panels.py
+++ b/src/BELLA/divide_panels.py
@@ -249,7 +249,9 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
     #===================
     # Division of other panels into groups of plies
     #===================
-    for ind_panel, panel in enumerate(multipanel.reduced.panels):
+    # ply drops per group of the last panel dealt with (thicker panels first)
+    n_ply_drops_thicker = np.zeros((multipanel.reduced.n_groups,))
+    for panel in multipanel.reduced.panels[::-1]:
         # ----- if panel is one of the thickest panels ----- #
         if panel.n_plies == multipanel.n_plies_max:
             #--------------------------
@@ -316,6 +318,14 @@ Increase parameters.group_size_max or decrease parameters.group_size_min.
                         if missing == 0:
                             break
                 iteration += 1
+            # for guide-based blending, the plies dropped in a thicker panel
+            # must also be dropped in this panel
+            if (n_ply_drops < n_ply_drops_thicker).any():
+                n_ply_drops = np.copy(n_ply_drops_thicker)
+                while np.sum(n_ply_drops) < int(n_drops):
+                    n_ply_drops[np.argmax(
+                        n_drops*percent_thickness - n_ply_drops)] += 1
+            n_ply_drops_thicker = n_ply_drops
             # Here, panel.n_ply_drops = chosen combination of ply drops
             panel.n_ply_drops = n_ply_drops
             #--------------------------
-- 
2.43.0


From b516f8c344411293e00b78fc9ee965fc74f844ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 21/79] fix: spacing penalty of a group in which two panels
 have no plies

---
 src/guidelines/ply_drop_spacing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/guidelines/ply_drop_spacing.py b/src/guidelines/ply_drop_spacing.py
index d8fdd5e..940bbb8 100644
--- a/src/guidelines/ply_drop_spacing.py
+++ b/src/guidelines/ply_drop_spacing.py
@@ -131,6 +131,8 @@ def calc_penalty_spacing_1ss(ss, min_drop):
     - min_drop: minimum number of continuous plies required between two block
     of dropped plies
     """
+    if ss.size == 0:
+        return 0
     penal = 0
     # indentify index of the successive -1 elements in the array
     index1 = 0
-- 
2.43.0


From 21962e022e81be6dc5981ade47d46bd3d6d6ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 22/79] fix: refuse negative transverse and shear moduli

---
 src/BELLA/materials.py     | 4 ++--
 src/LAYLA_V02/materials.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index a467770..cbb514d 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index a467770..cbb514d 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -30,7 +30,7 @@ Attention, the elastic modulus must be positive! (E11 = {E11})""")
         if not isinstance(E22, int) and not isinstance(E22, float):
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be a number! (E22 = {E22})""")
-        if E11 <= 0:
+        if E22 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the elastic modulus must be positive! (E22 = {E22})""")
 
@@ -38,7 +38,7 @@ Attention, the elastic modulus must be positive! (E22 = {E22})""")
         if not isinstance(G12, int) and not isinstance(G12, float):
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be a number! (G12 = {G12})""")
-        if E11 <= 0:
+        if G12 <= 0:
             raise MaterialDefinitionError(f"""
 Attention, the shear modulus must be positive! (G12 = {G12})""")
 
-- 
2.43.0


From 54a5c4a4f68f80a9f5d7d23b2431d6aee3cde6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 23/79] fix: volumic density of the default surface density

---
 src/BELLA/materials.py     | 2 +-
 src/LAYLA_V02/materials.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/materials.py b/src/BELLA/materials.py
index cbb514d..c7f426a 100644
--- a/src/BELLA/materials.py
+++ b/src/BELLA/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
diff --git a/src/LAYLA_V02/materials.py b/src/LAYLA_V02/materials.py
index cbb514d..c7f426a 100644
--- a/src/LAYLA_V02/materials.py
+++ b/src/LAYLA_V02/materials.py
@@ -86,7 +86,7 @@ Attention, the density must be positive! (ply_t= {ply_t})""")
         if density_area == 0 and density_volume == 0:
             # give a value by default
             self.density_area = 300.5 # g/m^2
-            self.density_volume = density_area / ply_t
+            self.density_volume = self.density_area / ply_t
         elif density_area == 0:
             self.density_area = density_volume * ply_t
         elif density_volume == 0:
-- 
2.43.0


From 26de2fce7149f3e02506a1716110367b8d7039a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 24/79] fix: stiffness D66 from the out-of-plane lamination
 parameters only

---
 src/buckling/buckling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buckling/buckling.py b/src/buckling/buckling.py
index aae1013..c9ba6a0 100644
--- a/src/buckling/buckling.py
+++ b/src/buckling/buckling.py
@@ -79,7 +79,7 @@ def buckling_factor(
         D11 = a * (mat.U1 + mat.U2*lampam[0] + mat.U3*lampam[1])
         D12 = a *(-mat.U3*lampam[1] + mat.U4)
         D22 = a *(mat.U1 - mat.U2*lampam[0] + mat.U3*lampam[1])
-        D66 = a *(-mat.U3*lampam[0] + mat.U5)
+        D66 = a *(-mat.U3*lampam[1] + mat.U5)
     for mode_m in range(n_modes):
         for mode_n in range(n_modes):
             buck[mode_m, mode_n] = buckling_factor_m_n(
-- 
2.43.0


From 7ecb8ed2b5f2227a4be4ebb11e065b852120f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 25/79] fix: excel files written with the current interface of
 pandas

---
 src/divers/excel.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/divers/excel.py b/src/divers/excel.py
index e4419a0..476e26b 100644
--- a/src/divers/excel.py
+++ b/src/divers/excel.py
@@ -28,14 +28,13 @@ def autofit_column_widths(filename):
     """
     autofits the column widths in an excel file
     """
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    writer.book = load_workbook(filename)
-    sheetnames = writer.book.sheetnames
+    book = load_workbook(filename)
+    sheetnames = book.sheetnames
 
 #    for worksheet in writer.book[sheetnames]: # NO !
 
     for ind_sheet in range(len(sheetnames)):
-        worksheet = writer.book[sheetnames[ind_sheet]]
+        worksheet = book[sheetnames[ind_sheet]]
 
         for col in worksheet.columns:
             max_length = 0
@@ -52,7 +51,7 @@ def autofit_column_widths(filename):
             adjusted_width = (max_length + 2)
             worksheet.column_dimensions[column].width = adjusted_width
 
-    writer.save()
+    book.save(filename)
     return 0
 
 
@@ -102,15 +101,10 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
     # ignore [engine] parameter if it was passed
     if 'engine' in to_excel_kwargs:
         to_excel_kwargs.pop('engine')
-    writer = pd.ExcelWriter(filename, engine='openpyxl')
-    # Python 2.x: define [FileNotFoundError] exception if it doesn't exist
-    try:
-        FileNotFoundError
-    except NameError:
-        FileNotFoundError = IOError
     try:
         # try to open an existing workbook
-        writer.book = load_workbook(filename)
+        writer = pd.ExcelWriter(filename, engine='openpyxl', mode='a',
+                                if_sheet_exists='overlay')
         # get the last row in the existing Excel sheet
         # if it was not specified explicitly
         if startrow is None and sheet_name in writer.book.sheetnames:
@@ -123,17 +117,16 @@ def append_df_to_excel(filename, dataf, sheet_name='Sheet1', startrow=None,
             writer.book.remove(writer.book.worksheets[idx])
             # create an empty sheet [sheet_name] using old index
             writer.book.create_sheet(sheet_name, idx)
-        # copy existing sheets
-        writer.sheets = {ws.title:ws for ws in writer.book.worksheets}
     except FileNotFoundError:
         # file does not exist yet, we will create it
-        pass
+        writer = pd.ExcelWriter(filename, engine='openpyxl')
     if startrow is None:
         startrow = 0
     # write out the new sheet
-    dataf.to_excel(writer, sheet_name, startrow=startrow, **to_excel_kwargs)
+    dataf.to_excel(writer, sheet_name=sheet_name, startrow=startrow,
+                   **to_excel_kwargs)
     # save the workbook
-    writer.save()
+    writer.close()
 
 if __name__ == "__main__":
     print('When two pages are saved successively, the first page is lost')
-- 
2.43.0


From 536972fb688d2f0770465e05ee8856e6df71f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 26/79] fix: objective of partly designed structures with
 penalties common to the panels

---
 src/BELLA/objectives.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/BELLA/objectives.py b/src/BELLA/objectives.py
index 34dc263..39262fd 100644
--- a/src/BELLA/objectives.py
+++ b/src/BELLA/objectives.py
@@ -140,38 +140,40 @@ def calc_obj_multi_panel(
             to_add = actual_panel_weightings[ind] * objective[ind]
             
             if penalty_diso is not None:
-                if (isinstance(penalty_diso, list) \
-                    and len(penalty_diso) > 1) or penalty_diso.size > 1:
+                if np.size(penalty_diso) > 1:
                     to_add *= (1 + coeff_diso * penalty_diso[ind])
                 else:
-                    to_add *= (1 + coeff_diso * penalty_diso)
-            
+                    to_add *= (1 + coeff_diso * np.ravel(penalty_diso)[0])
+
             if penalty_contig is not None:
-                if (isinstance(penalty_contig, list) \
-                    and len(penalty_contig) > 1) or  penalty_contig.size > 1:
+                if np.size(penalty_contig) > 1:
                     to_add *= (1 + coeff_contig * penalty_contig[ind])
                 else:
-                    to_add *= (1 + coeff_contig * penalty_contig)
+                    to_add *= (1 + coeff_contig * np.ravel(penalty_contig)[0])
 
             if penalty_10 is not None:
-                if (isinstance(penalty_10, list) and len(penalty_10) > 1) \
-                or  penalty_10.size > 1:
+                if np.size(penalty_10) > 1:
                     to_add *= (1 + coeff_10 * penalty_10[ind])
                 else:
-                    to_add *= (1 + coeff_10 * penalty_10)
+                    to_add *= (1 + coeff_10 * np.ravel(penalty_10)[0])
 
             if penalty_oopo is not None:
-                if (isinstance(penalty_oopo, list) \
-                    and len(penalty_oopo) > 1) or  penalty_oopo.size > 1:
+                if np.size(penalty_oopo) > 1:
                     to_add *= (1 + coeff_oopo * penalty_oopo[ind])
                 else:
-                    to_add *= (1 + coeff_oopo * penalty_oopo)
+                    to_add *= (1 + coeff_oopo * np.ravel(penalty_oopo)[0])
 
             if penalty_bal_ipo is not None:
-                to_add *= (1 + coeff_bal_ipo * penalty_bal_ipo[ind])
+                if np.size(penalty_bal_ipo) > 1:
+                    to_add *= (1 + coeff_bal_ipo * penalty_bal_ipo[ind])
+                else:
+                    to_add *= (1 + coeff_bal_ipo * np.ravel(penalty_bal_ipo)[0])
 
             if penalty_weight is not None:
-                to_add *= (1 + coeff_weight * penalty_weight[ind])
+                if np.size(penalty_weight) > 1:
+                    to_add *= (1 + coeff_weight * penalty_weight[ind])
+                else:
+                    to_add *= (1 + coeff_weight * np.ravel(penalty_weight)[0])
 
             my_sum += to_add
     return my_sum
-- 
2.43.0


From b8444ee90ca667faf16a168474f2ab934c2175ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 27/79] fix: sets of fibre orientations without angle plies

---
 src/BELLA/constraints.py     | 2 +-
 src/LAYLA_V02/constraints.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/constraints.py b/src/BELLA/constraints.py
index 1059678..1951451 100644
--- a/src/BELLA/constraints.py
+++ b/src/BELLA/constraints.py
@@ -339,7 +339,7 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
             elem,
             self.ind_angles_dict[elem],
             self.ind_angles_dict[-elem]
-            ] for elem in angles_bal])
+            ] for elem in angles_bal], int).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 164c95a..13afeb7 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -267,7 +267,8 @@ Missing input fibre orientation {-angle} to have both angle plies +-{angle}.
         self.angles_bal = np.array([[
             elem,
             self.ind_angles_dict[elem],
-            self.ind_angles_dict[-elem]] for elem in angles_bal])
+            self.ind_angles_dict[-elem]] for elem in angles_bal],
+            int).reshape((-1, 3))
 
         # data used for repair for balance
         self.indices_bal = dict() # Dictionary to retrieve indices
-- 
2.43.0


From fe55fcecbc444825bbc0917848cf6ff93a843ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 28/79] fix: 10% rule evaluated with the constraints of LAYLA

---
 src/LAYLA_V02/constraints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LAYLA_V02/constraints.py b/src/LAYLA_V02/constraints.py
index 13afeb7..325f2eb 100644
--- a/src/LAYLA_V02/constraints.py
+++ b/src/LAYLA_V02/constraints.py
@@ -63,6 +63,9 @@ Choose either:
         if not isinstance(rule_10_percent, bool):
             raise ConstraintDefinitionError("""
 Attention, rule_10_percent must be a boolean!""")
+        # no restrictions of LPs (rule of Abdalla) in LAYLA
+        self.rule_10_Abdalla = False
+        self.percent_Abdalla = 0
         # set the limit percentages for the 10% rule
         self.set_percentages(
             percent_0, percent_45, percent_90, percent_135, percent_45_135)
-- 
2.43.0


From 098b56c23ddd629f4b4d80054ce469559ffde6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 29/79] fix: refuse lamination-parameter weightings that are
 not vectors of 12 components

---
 src/BELLA/panels.py         |  7 +++----
 src/LAYLA_V02/parameters.py | 14 ++++++--------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index d490fd7..bec780f 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -105,11 +105,10 @@ The panel weighting in the multi-panel objective function must be positive!
 """)
 
         # lamination-parameter weightings in panel objective function
-        if not(isinstance(lampam_weightings, np.ndarray)) \
-        and lampam_weightings.size == 12 \
-        and lampam_weightings.dtype == float:
+        if not isinstance(lampam_weightings, np.ndarray) \
+        or lampam_weightings.size != 12:
             raise PanelDefinitionError("""
-Attention, lampam_weightings must be a vector with 12 float components!
+Attention, lampam_weightings must be a vector with 12 components!
 """)
         if [False for elem in lampam_weightings if elem < 0]:
                     raise PanelDefinitionError("""
diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 93d4f32..1f6ef4f 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -248,11 +248,10 @@ Attention, local_node_limit_final must be strictly positive!""")
 
 
         # Lamination parameters sensitivities from the first-lebel optimiser
-        if not(isinstance(first_level_sensitivities, np.ndarray)) \
-        and first_level_sensitivities.size == 12 \
-        and first_level_sensitivities.dtype == float:
+        if not isinstance(first_level_sensitivities, np.ndarray) \
+        or first_level_sensitivities.size != 12:
             raise ParametersDefinitionError("""
-Attention, first_level_sensitivities must be a vector with 12 float components!
+Attention, first_level_sensitivities must be a vector with 12 components!
 """)
         if [False for elem in first_level_sensitivities if elem < 0]:
                     raise ParametersDefinitionError("""
@@ -262,11 +261,10 @@ Attention, the elements of first_level_sensitivities must be positive!
 
         # Lamination parameters to be considered in the multi-objective
         # functions
-        if not(isinstance(lampam_to_be_optimised, np.ndarray)) \
-        and lampam_to_be_optimised.size == 12 \
-        and lampam_to_be_optimised.dtype == float:
+        if not isinstance(lampam_to_be_optimised, np.ndarray) \
+        or lampam_to_be_optimised.size != 12:
             raise ParametersDefinitionError("""
-Attention, lampam_to_be_optimised must be a vector with 12 float components!
+Attention, lampam_to_be_optimised must be a vector with 12 components!
 """)
         if [False for elem in lampam_to_be_optimised if elem not in (0,1)]:
             raise ParametersDefinitionError("""
-- 
2.43.0


From fa31c7989a5cbc88ace5d3d2e6a071e864dddce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 30/79] fix: weighting of the eleventh lamination parameter
 lost when penalising in-plane anisotropy

---
 src/LAYLA_V02/parameters.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/LAYLA_V02/parameters.py b/src/LAYLA_V02/parameters.py
index 1f6ef4f..358af23 100644
--- a/src/LAYLA_V02/parameters.py
+++ b/src/LAYLA_V02/parameters.py
@@ -342,7 +342,6 @@ Attention, the elements of lampam_to_be_optimised must be either 0 or 1!
         elif constraints.ipo and self.penalty_ipo_switch:
             if set(constraints.set_of_angles) == set([0, 45, -45, 90]):
                 sensitivities[2] = s*coeff_bal_ipo
-                sensitivities[10] = s*coeff_oopo
             else:
                 sensitivities[2] = s*coeff_bal_ipo
                 sensitivities[3] = s*coeff_bal_ipo
-- 
2.43.0


From 0dfffcd3976ba2d86c32176db04f1295ac9bf6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 31/79] fix: out-of-plane orthotropy weighting truncated when
 weightings are integers

---
 src/BELLA/panels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index bec780f..3097ea7 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -147,7 +147,7 @@ Attention, the elements of lampam_weightings must be positive!
         lampam_weightings: for all other blending steps (contain penalty for
             out-of-plane orthotropy and does not contain penalty for balance)
         """
-        lampam_weightings = np.copy(self.lampam_weightings_ini)
+        lampam_weightings = np.array(self.lampam_weightings_ini, dtype=float)
 
         # filter for zero lamination parameters factors
         if constraints.sym:
-- 
2.43.0


From f43859f11d59a1594d0c9f86996740b0b534f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 32/79] fix: endless repair of short laminates for the
 lamination-parameter form of the 10% rule

---
 src/RELAY/repair_10_bal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index 90b1f7a..f8bbead 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -90,6 +90,9 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         # attempts at modifying a couple of angled plies
         ind_pos_angle1, ind_pos_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
+        # if no change of a couple of plies is beneficial
+        if dist_10_options[ind_pos_angle1, ind_pos_angle2] + 1e-10 > dist_10:
+            break
         angle1 = constraints.pos_angles[ind_pos_angle1]
         angle2 = constraints.pos_angles[ind_pos_angle2]
 #        print('angle1', angle1, 'angle2', angle2)
@@ -271,6 +274,9 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
         # attempts at modifying a couple of angled plies
         ind_angle1, ind_angle2 = np.unravel_index(
             np.argmin(dist_10_options, axis=None), dist_10_options.shape)
+        # if no change of ply is beneficial
+        if dist_10_options[ind_angle1, ind_angle2] + 1e-10 > dist_10:
+            break
         angle1 = constraints.set_of_angles[ind_angle1]
         angle2 = constraints.set_of_angles[ind_angle2]
 #        print('test  angle1', angle1, 'to angle2', angle2)
-- 
2.43.0


From 06d4b13f1c97f0d5fdf24efc57f8c0cedfb19338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 33/79] fix: contiguity and disorientation windows of the
 inward repair

---
 src/RELAY/repair_from_outside_asym.py | 33 +++++++++++++--------------
 src/RELAY/repair_from_outside_sym.py  | 31 ++++++++++++-------------
 2 files changed, 30 insertions(+), 34 deletions(-)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index eb35f68..f46015e 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -170,32 +170,31 @@ def repair_diso_contig_from_outside_asym(
 #    print('remaining_plies', remaining_plies)
 
 
+    mini_top = max(
+        0, stack_top.size - max(real_n_D1 + 1, constraints.n_contig))
+    maxi_bottom = min(
+        stack_bottom.size, max(real_n_D1 + 1, constraints.n_contig))
+    # no disorientation between the two outer plies for damage tolerance
+    n_outer = 0
     if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini_bottom = max(1, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size - 1, real_n_D1 + 1)
-        else:
-            mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-            mini_top = min(stack_bottom.size, real_n_D1 + 1)
-    else:
-        mini_bottom = max(0, stack_bottom.size - real_n_D1 - 1)
-        mini_top = min(stack_bottom.size, real_n_D1 + 1)
+        if hasattr(constraints, 'dam_tol_rule'):
+            if constraints.dam_tol_rule in {2, 3}:
+                n_outer = 1
+        elif constraints.n_plies_dam_tol == 2:
+            n_outer = 1
+    beg_diso = n_outer if mini_top == 0 else 0
+    end_diso = n_outer if maxi_bottom == stack_bottom.size else 0
 
-    ind_2 = np.sort(ind_2)
     for elem in itertools.permutations(
         range(real_n_D1)):
 #        print('elem', elem)
         ss_group = remaining_plies[np.array(elem, int)]
         stack_test = np.hstack((
-            stack_top[mini_bottom:], ss_group, stack_bottom[:mini_top]))
+            stack_top[mini_top:], ss_group, stack_bottom[:maxi_bottom]))
 #        print('stack_test', stack_test)
         if constraints.diso and not is_diso_ss(
-                stack_test, constraints.delta_angle, dam_tol=False):
+                stack_test[beg_diso:stack_test.size - end_diso],
+                constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
diff --git a/src/RELAY/repair_from_outside_sym.py b/src/RELAY/repair_from_outside_sym.py
index 394d164..a2c3226 100644
--- a/src/RELAY/repair_from_outside_sym.py
+++ b/src/RELAY/repair_from_outside_sym.py
@@ -156,17 +156,16 @@ def repair_diso_contig_from_outside_sym(
             remaining_plies[counter] = ply_queue.pop(0)
 #    print('remaining_plies', remaining_plies)
 
-    if constraints.dam_tol:
-        if hasattr(constraints, 'dam_tol_rule') \
-        and constraints.dam_tol_rule in {2, 3}:
-            mini = max(1, stack.size - real_n_D1 - 1)
-        if not hasattr(constraints, 'dam_tol_rule') and \
-        constraints.n_plies_dam_tol == 2:
-            mini = max(1, stack.size - real_n_D1 - 1)
-        else:
-            mini = max(0, stack.size - real_n_D1 - 1)
-    else:
-        mini = max(0, stack.size - real_n_D1 - 1)
+    mini = max(
+        0, stack.size - max(real_n_D1 + 1, constraints.n_contig))
+    # no disorientation between the two outer plies for damage tolerance
+    mini_diso = 0
+    if constraints.dam_tol and mini == 0:
+        if hasattr(constraints, 'dam_tol_rule'):
+            if constraints.dam_tol_rule in {2, 3}:
+                mini_diso = 1
+        elif constraints.n_plies_dam_tol == 2:
+            mini_diso = 1
 
     for elem in itertools.permutations(
         range(real_n_D1)):
@@ -175,14 +174,12 @@ def repair_diso_contig_from_outside_sym(
         stack_test = np.hstack((stack[mini:], ss_group))
         if ss.size % 2:
             stack_test = np.hstack((
-                stack_test, ss[ss.size // 2],
-                np.flip(stack_test[-real_n_D1:])))
+                stack_test, ss[ss.size // 2], np.flip(stack_test)))
         else:
-            stack_test = np.hstack((
-                stack_test,
-                np.flip(stack_test[-real_n_D1:])))
+            stack_test = np.hstack((stack_test, np.flip(stack_test)))
         if constraints.diso and not is_diso_ss(
-                stack_test, constraints.delta_angle, dam_tol=False):
+                stack_test[mini_diso:stack_test.size - mini_diso],
+                constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
                 stack_test, constraints.n_contig_c):
-- 
2.43.0


From 1835c08d4c79b7bbcd7e91b6a5b12a0884cf80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 34/79] fix: inward repair of asymmetric laminates shuffled the
 innermost plies of feasible laminates

---
 src/RELAY/repair_from_outside_asym.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/RELAY/repair_from_outside_asym.py b/src/RELAY/repair_from_outside_asym.py
index f46015e..97daa59 100644
--- a/src/RELAY/repair_from_outside_asym.py
+++ b/src/RELAY/repair_from_outside_asym.py
@@ -159,6 +159,7 @@ def repair_diso_contig_from_outside_asym(
 #    print_ss(stack_top)
 
     # plies at the centre all designed simultaneously
+    ind_2 = np.sort(ind_2)
     good_permut = []
     real_n_D1 = ind_2.size
     remaining_plies = np.empty((real_n_D1,), int)
-- 
2.43.0


From b0f9638ffe005cb5df4a03527d56566257a4d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 35/79] fix: outer plies missed when checking the contiguity
 and disorientation of outward repairs

---
 src/RELAY/repair_from_inside_asym.py | 17 +++--------------
 src/RELAY/repair_from_inside_sym.py  |  3 ++-
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/RELAY/repair_from_inside_asym.py b/src/RELAY/repair_from_inside_asym.py
index 4aaff64..cc3dc08 100644
--- a/src/RELAY/repair_from_inside_asym.py
+++ b/src/RELAY/repair_from_inside_asym.py
@@ -188,24 +188,13 @@ def repair_diso_contig_from_inside_asym(
                 stack,
                 ss_group[real_n_D1//2:]))
 #        print('stack_test', stack_test)
-        stack_test_1 = stack_test[
-            :3 + real_n_D1 + constraints.n_contig]
         if constraints.diso and not is_diso_ss(
-                stack_test_1, constraints.delta_angle, dam_tol=False):
+                stack_test, constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
-                stack_test_1, constraints.n_contig_c):
+                np.hstack((stack_top[:-1], stack_test, stack_bottom[1:])),
+                constraints.n_contig_c):
             continue
-        number = stack_test.size - 4 - real_n_D1 \
-        - constraints.n_contig
-        if number > 0:
-            stack_test_2 = stack_test[number:]
-            if constraints.diso and not is_diso_ss(
-                    stack_test_2, constraints.delta_angle, dam_tol=False):
-                continue
-            if constraints.contig and not is_contig(
-                    stack_test_2, constraints.n_contig_c):
-                continue
         good_permut.append(np.array(elem, int))
 #    print('good_permut', good_permut)
 
diff --git a/src/RELAY/repair_from_inside_sym.py b/src/RELAY/repair_from_inside_sym.py
index ee50bc0..d1b2df7 100644
--- a/src/RELAY/repair_from_inside_sym.py
+++ b/src/RELAY/repair_from_inside_sym.py
@@ -133,12 +133,13 @@ def repair_diso_contig_from_inside_sym(
         stack_test = np.hstack((stack_test, stack, np.flip(stack_test)))
         stack_test = stack_test[:2 + 2 * constraints.n_contig \
                                 + real_n_D1]
+        stack_test_contig = np.hstack((stack_dam_tol[:-1], stack_test))
 #        print('stack_test', stack_test)
         if constraints.diso and not is_diso_ss(
                 stack_test, constraints.delta_angle, dam_tol=False):
             continue
         if constraints.contig and not is_contig(
-                stack_test, constraints.n_contig_c):
+                stack_test_contig, constraints.n_contig_c):
             continue
         good_permut.append(np.array(elem, int))
 #    print('good_permut', good_permut)
-- 
2.43.0


From 78e5b85af27b6f16055b2b4fd6e4fa83bb532bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 36/79] fix: functions missing from the repair for membrane
 properties

---
 src/RELAY/repair_membrane_1_ipo.py    | 1 +
 src/RELAY/repair_membrane_1_no_ipo.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index aa88414..2bc48af 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -23,6 +23,7 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_membrane_1_no_ipo import calc_excess_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_1
 from src.guidelines.ten_percent_rule import is_ten_percent_rule
 
 def repair_membrane_1_ipo(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 8094363..3bcdfb5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -22,6 +22,9 @@ from src.LAYLA_V02.constraints import Constraints
 from src.divers.pretty_print import print_ss
 from src.CLA.lampam_functions import calc_lampam
 from src.RELAY.repair_10_bal import calc_mini_10
+from src.RELAY.repair_10_bal import calc_ind_plies
+from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
+from src.RELAY.repair_10_bal import calc_lampamA_options_3
 from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
-- 
2.43.0


From f8759e913724b8c879274f9004571664ace9a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 37/79] fix: options excluded by the 10% rule in
 lamination-parameter form during the membrane repair of balanced laminates

---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 9f07780..85fcef8 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -113,7 +113,7 @@ def repair_membrane_1_ipo_Abdalla(
         LPs = lampamA + lampamA_options[ind_pos_angle2] - lampamA_options[
             ind_pos_angle1]
         if calc_distance_Abdalla(LPs, constraints) > 1e-10:
-            objA_options[ind_angle1, ind_angle2] = 1e10
+            objA_options[ind_pos_angle1, ind_pos_angle2] = 1e10
             continue
 
 #        print('objA_options after clean', objA_options)
-- 
2.43.0


From ec56d9bfbbe330fb65f823de6a2c4502dca7da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 38/79] fix: in-plane lamination parameters of the initial
 laminate overwritten by the membrane repair

---
 src/RELAY/repair_membrane_1_ipo.py            | 2 +-
 src/RELAY/repair_membrane_1_ipo_Abdalla.py    | 2 +-
 src/RELAY/repair_membrane_1_no_ipo.py         | 2 +-
 src/RELAY/repair_membrane_1_no_ipo_Abdalla.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 2bc48af..15cd71b 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -79,7 +79,7 @@ def repair_membrane_1_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 85fcef8..6b87e69 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -63,7 +63,7 @@ def repair_membrane_1_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index 3bcdfb5..a19db8f 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -68,7 +68,7 @@ def repair_membrane_1_no_ipo(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     excess_10 = calc_excess_10(ss, ply_queue, mini_10, constraints.sym)
diff --git a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
index a44095b..4953861 100644
--- a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
@@ -51,7 +51,7 @@ def repair_membrane_1_no_ipo_Abdalla(
 
     ss_list = [np.copy(ss)]
     ply_queue_list = [ply_queue[:]]
-    lampamA_list = [lampamA]
+    lampamA_list = [np.copy(lampamA)]
     objA_list = [objA]
 
     indices_1, indices_per_angle = calc_ind_plies(
-- 
2.43.0


From 443f21895610565967b3f547b9cf4dc78d16d541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 39/79] fix: minimum percentage of +45 and -45 plies together
 broken by the membrane repair

---
 src/RELAY/repair_membrane_1_no_ipo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index a19db8f..a6b5bb5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -113,15 +113,19 @@ def repair_membrane_1_no_ipo(
                 continue
             excess_10[1] -= 1
         elif angle1 == 45:
-            if excess_10[2] < 1:
+            if excess_10[2] < 1 \
+            or (excess_10[4] < 1 and angle2 != -45):
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[2] -= 1
+            excess_10[4] -= 1
         elif angle1 == -45:
-            if excess_10[3] < 1:
+            if excess_10[3] < 1 \
+            or (excess_10[4] < 1 and angle2 != 45):
                 objA_options[ind_angle1, ind_angle2] = 1e10
                 continue
             excess_10[3] -= 1
+            excess_10[4] -= 1
 
 #        print(angle1, ' plies changed into ', angle2, 'plies')
 #        print('ind_angle1', ind_angle1, 'ind_angle2', ind_angle2)
@@ -134,8 +138,10 @@ def repair_membrane_1_no_ipo(
             excess_10[1] += 1
         elif angle2 == 45:
             excess_10[2] += 1
+            excess_10[4] += 1
         elif angle2 == -45:
             excess_10[3] += 1
+            excess_10[4] += 1
 
         lampamA += lampamA_options[ind_angle2] - lampamA_options[ind_angle1]
         objA = objA_options[ind_angle1, ind_angle2]
-- 
2.43.0


From 9f8ed5c16b33dedd1986dbb8cd5d3a9ff48ef24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 40/79] fix: order of the plies modified in asymmetric
 laminates by the repairs for the 10% rule and membrane properties

---
 src/RELAY/repair_10_bal.py                    | 7 ++-----
 src/RELAY/repair_membrane_1_ipo.py            | 4 +---
 src/RELAY/repair_membrane_1_ipo_Abdalla.py    | 4 +---
 src/RELAY/repair_membrane_1_no_ipo.py         | 3 +--
 src/RELAY/repair_membrane_1_no_ipo_Abdalla.py | 3 +--
 5 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index f8bbead..e153563 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -72,7 +72,7 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         ss, n_plies, ply_queue, constraints)
 
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -174,8 +174,6 @@ def repair_10_Abdalla_ipo(ss, ply_queue, constraints):
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('dist_10', dist_10)
@@ -260,7 +258,7 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -313,7 +311,6 @@ def repair_10_Abdalla_no_ipo(ss, ply_queue, constraints):
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('dist_10', dist_10)
diff --git a/src/RELAY/repair_membrane_1_ipo.py b/src/RELAY/repair_membrane_1_ipo.py
index 15cd71b..319da5e 100644
--- a/src/RELAY/repair_membrane_1_ipo.py
+++ b/src/RELAY/repair_membrane_1_ipo.py
@@ -87,7 +87,7 @@ def repair_membrane_1_ipo(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -225,8 +225,6 @@ def repair_membrane_1_ipo(
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
index 6b87e69..255ac48 100644
--- a/src/RELAY/repair_membrane_1_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_ipo_Abdalla.py
@@ -69,7 +69,7 @@ def repair_membrane_1_ipo_Abdalla(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -177,8 +177,6 @@ def repair_membrane_1_ipo_Abdalla(
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
             sortAccording(indices_per_angle[ind_angle2_minus], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
-            indices_per_angle[ind_angle2_minus].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index a6b5bb5..b5995f5 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -76,7 +76,7 @@ def repair_membrane_1_no_ipo(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -168,7 +168,6 @@ def repair_membrane_1_no_ipo(
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
diff --git a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
index 4953861..f0378c0 100644
--- a/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
+++ b/src/RELAY/repair_membrane_1_no_ipo_Abdalla.py
@@ -57,7 +57,7 @@ def repair_membrane_1_no_ipo_Abdalla(
     indices_1, indices_per_angle = calc_ind_plies(
         ss, n_plies, ply_queue, constraints, p_A)
     indices_to_sort = list(indices_1)
-    indices_to_sort.insert(0, -1)
+    indices_to_sort.insert(0, 6666)
 #    print('indices_1', list(indices_1))
 #    print('indices_per_angle', list(indices_per_angle))
 #    print('indices_to_sort', indices_to_sort)
@@ -119,7 +119,6 @@ def repair_membrane_1_no_ipo_Abdalla(
             indices_per_angle[ind_angle2].sort(reverse=True)
         else:
             sortAccording(indices_per_angle[ind_angle2], indices_to_sort)
-            indices_per_angle[ind_angle2].reverse()
 
 #        print('indices_per_angle', indices_per_angle)
 #        print('objA', objA)
-- 
2.43.0


From af93960336f316d081b840caf72635d37db4ac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 41/79] fix: positions of the blocks of plies swapped by the
 flexural repair, shifted by one ply

---
 src/RELAY/repair_flexural_1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 999c430..4ddf74f 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -98,8 +98,8 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
                 new_lampamDs[index] = lampamD + calc_delta_lampamD_swap_1(
                     angle_first=block_1.angle,
                     angle_second=list_blocks[index_block_2].angle,
-                    n_first_ply=block_1.first_ply_pos,
-                    n_second_ply=list_blocks[index_block_2].first_ply_pos,
+                    n_first_ply=block_1.first_ply_pos + 1,
+                    n_second_ply=list_blocks[index_block_2].first_ply_pos + 1,
                     n_plies_group=block_1.n_block_of_plies,
                     n_plies=n_plies,
                     constraints=constraints)
-- 
2.43.0


From ebdd72bcc5f1ac8ed5e8accf43d33d2cbb9856ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 42/79] fix: plies for damage tolerance swapped by the flexural
 repair

---
 src/RELAY/repair_flexural_1.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_1.py b/src/RELAY/repair_flexural_1.py
index 4ddf74f..bd8dfe5 100644
--- a/src/RELAY/repair_flexural_1.py
+++ b/src/RELAY/repair_flexural_1.py
@@ -74,14 +74,18 @@ def repair_flexural_1(ss_ini, out_of_plane_coeffs, lampam_target, constraints,
     # out-of-plane properties
     for index_block_1 in range(len(list_blocks[:-1])):
         block_1 = list_blocks[index_block_1]
-        if status_dam_tol[block_1.first_ply_pos]:
+        if status_dam_tol[
+                block_1.first_ply_pos:
+                block_1.first_ply_pos + block_1.n_block_of_plies].any():
             continue
 #        if block_1.distance_middle < 0.5:
 #            break
         ind_possible_swap = []
         for index_block_2, block_2 \
         in enumerate(list_blocks[index_block_1 + 1:]):
-            if status_dam_tol[list_blocks[index_block_2].first_ply_pos]:
+            if status_dam_tol[
+                    block_2.first_ply_pos:
+                    block_2.first_ply_pos + block_2.n_block_of_plies].any():
                 continue
             if block_1.n_block_of_plies == block_2.n_block_of_plies \
             and block_2.angle in block_1.possible_angles \
-- 
2.43.0


From a61bbc3e8af8eeda569844086d542c8d577d7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 43/79] fix: number of ply shifts tested at each step of the
 flexural repair

---
 src/RELAY/repair_flexural_2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/repair_flexural_2.py b/src/RELAY/repair_flexural_2.py
index 646a77b..f5e35f5 100644
--- a/src/RELAY/repair_flexural_2.py
+++ b/src/RELAY/repair_flexural_2.py
@@ -110,10 +110,10 @@ def repair_flexural_2(
     for index, ind_ply_1 in enumerate(ind_2[:-1]):
 #        print('ind_ply_1', ind_ply_1)
 
-        objD = 1e10 * np.ones((parameters.n_D2 - 1,), float)
+        objD = 1e10 * np.ones((parameters.n_D2,), float)
 
         for ind_loc, ind_ply_2 \
-        in enumerate(ind_2[index + 1:index + parameters.n_D2]):
+        in enumerate(ind_2[index + 1:index + 1 + parameters.n_D2]):
 
 #            print('    ind_ply_2', ind_ply_2)
 
-- 
2.43.0


From 8beb8391aab6587cd479e1df1ee958d43e67f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 44/79] fix: middle ply missing from the neighbours of blocks
 of plies during the flexural repair

---
 src/RELAY/repair_flexural_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index de48154..eec5279 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -319,6 +319,8 @@ class Block():
                     if block2.ID == block1.ID + 1 \
                     or block2.ID == block1.ID - 1:
                         block1.neighbour_angles.append(block2.angle)
+                if block1.ID == 0 and midply is not None:
+                    block1.neighbour_angles.append(midply)
                 block1.calc_possible_angles(constraints)
 
 
-- 
2.43.0


From e212a8103302078b3b7594ba6abcac33b195a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 45/79] fix: flexural repair of laminates with all plies at the
 same fibre orientation

---
 src/RELAY/repair_flexural_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/RELAY/repair_flexural_tools.py b/src/RELAY/repair_flexural_tools.py
index eec5279..c0c2191 100644
--- a/src/RELAY/repair_flexural_tools.py
+++ b/src/RELAY/repair_flexural_tools.py
@@ -343,8 +343,11 @@ def find_list_blocks(ss_ref, n_plies, constraints):
     if constraints.sym:
         if n_plies % 2:
             ind_start = n_plies // 2 - 1
-            while ss_ref[ind_start] == ss_ref[n_plies // 2]:
+            while ind_start >= 0 \
+            and ss_ref[ind_start] == ss_ref[n_plies // 2]:
                 ind_start -= 1
+            if ind_start < 0: # all plies at the orientation of the middle ply
+                return []
         else:
             ind_start = n_plies // 2 - 1
     else:
-- 
2.43.0


From 1dd70231d2d35ef4ba547901fb10668b618253b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 46/79] fix: laminates returned with undetermined outer plies
 by the repair

---
 src/RELAY/repair_diso_contig.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index e3203ef..152deb9 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -69,6 +69,16 @@ def repair_diso_contig(
 #    print('constraints.sym', constraints.sym)
 #    print('n_D1', n_D1)
 
+    # laminate too thin to repair without changing the outer plies fixed for
+    # damage tolerance
+    if constraints.dam_tol:
+        if hasattr(constraints, 'dam_tol_rule'):
+            n_fixed = 2 if constraints.dam_tol_rule in {2, 3} else 1
+        else:
+            n_fixed = constraints.n_plies_dam_tol
+        if 666 in ss[:n_fixed] or 666 in ss[ss.size - n_fixed:]:
+            return ss, False, False
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
-- 
2.43.0


From ab61fac6f324180994221b84707be0daafac971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 47/79] fix: membrane repair of laminates with a middle ply
 neither at 0 nor 90 degrees

---
 src/RELAY/repair_membrane_1_no_ipo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/RELAY/repair_membrane_1_no_ipo.py b/src/RELAY/repair_membrane_1_no_ipo.py
index b5995f5..752c004 100644
--- a/src/RELAY/repair_membrane_1_no_ipo.py
+++ b/src/RELAY/repair_membrane_1_no_ipo.py
@@ -25,7 +25,6 @@ from src.RELAY.repair_10_bal import calc_mini_10
 from src.RELAY.repair_10_bal import calc_ind_plies
 from src.RELAY.repair_10_bal import calc_lampamA_ply_queue
 from src.RELAY.repair_10_bal import calc_lampamA_options_3
-from src.RELAY.repair_tools import RepairError
 
 def repair_membrane_1_no_ipo(
         ss_ini, ply_queue_ini, mini_10, in_plane_coeffs,
@@ -230,10 +229,12 @@ returns the current number of plies in the 0/90/+45/-45 directions
                 current_10[0] += 1/2
             elif ss[lenn] == 90:
                 current_10[1] += 1/2
-            else:
-                raise RepairError("""
-This should not happen, plies at the midle surface at another fibre orientation
-than 0 or 90 deg""")
+            elif ss[lenn] == 45:
+                current_10[2] += 1/2
+                current_10[4] += 1/2
+            elif ss[lenn] == -45:
+                current_10[3] += 1/2
+                current_10[4] += 1/2
     else:
         current_10[0] = sum(ss == 0) + sum(ply_queue == 0)
         current_10[1] = sum(ss == 90) + sum(ply_queue == 90)
-- 
2.43.0


From 69edf0046865ade414758baf345143096d4d90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 48/79] fix: objective function value of repaired laminates

---
 src/RELAY/repair_ss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/repair_ss.py b/src/RELAY/repair_ss.py
index 5a13d91..6c6a7f0 100644
--- a/src/RELAY/repair_ss.py
+++ b/src/RELAY/repair_ss.py
@@ -21,6 +21,7 @@ sys.path.append(r'C:\BELLA')
 from src.LAYLA_V02.parameters import Parameters
 from src.LAYLA_V02.constraints import Constraints
 from src.LAYLA_V02.objectives import objectives
+from src.LAYLA_V02.targets import Targets
 from src.divers.pretty_print import print_ss, print_list_ss
 from src.RELAY.repair_10_bal import repair_10_bal
 from src.RELAY.repair_10_bal import calc_mini_10
@@ -141,14 +142,14 @@ def repair_ss(
     #--------------------------------------------------------------------------
     obj_no_constraints = objectives(
         lampam=calc_lampam(ss, constraints),
-        lampam_target=lampam_target,
+        targets=Targets(n_plies=ss.size, lampam=lampam_target),
         lampam_weightings=parameters.lampam_weightings_final,
         constraints=constraints,
         parameters=parameters)
     if count_obj:
-        return ss, True, 1e10, n_obj_func_D_calls
+        return ss, True, obj_no_constraints, n_obj_func_D_calls
     else:
-        return ss, True, 1e10
+        return ss, True, obj_no_constraints
 
 if __name__ == "__main__":
     print('\n*** Test for the function repair_ss ***')
-- 
2.43.0


From ae909027915aa69623c62fda6c3eb646eb370778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 49/79] fix: laminates with all plies to be determined returned
 with undetermined outermost plies by the repair

---
 src/RELAY/repair_diso_contig.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/RELAY/repair_diso_contig.py b/src/RELAY/repair_diso_contig.py
index 152deb9..35b7b17 100644
--- a/src/RELAY/repair_diso_contig.py
+++ b/src/RELAY/repair_diso_contig.py
@@ -79,6 +79,16 @@ def repair_diso_contig(
         if 666 in ss[:n_fixed] or 666 in ss[ss.size - n_fixed:]:
             return ss, False, False
 
+    # outermost plies taken from the queue when they are undetermined
+    if ss[0] == 666 or ss[-1] == 666:
+        ss = np.copy(ss)
+        if ss[0] == 666:
+            ss[0] = ply_queue.pop(0)
+            if constraints.sym:
+                ss[-1] = ss[0]
+        if ss[-1] == 666:
+            ss[-1] = ply_queue.pop(0)
+
     if constraints.sym:
         ss, inward = repair_diso_contig_from_outside_sym(
             ss, ply_queue, constraints, n_D1)
-- 
2.43.0


From ffe793a1d3b8aa784f8378f1d5f4496580763e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 50/79] fix: plies missing for the 10% rule when the +45 and
 -45 minima round up to more than their total

---
 src/RELAY/repair_10_bal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index e153563..b0934ad 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -370,8 +370,8 @@ def repair_10_bal_2(ss_ini, mini_10, constraints):
 #    print('initial ply queue', ply_queue)
 
     if constraints.rule_10_percent and constraints.percent_45_135:
-        missing_extra_45_135 = ma.ceil(mini_10[4]) \
-        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3])
+        missing_extra_45_135 = max(0, ma.ceil(mini_10[4]) \
+        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3]))
     else:
         missing_extra_45_135 = 0
 
@@ -711,8 +711,8 @@ if __name__ == "__main__":
     n_135 = ma.ceil(mini_10[3])
     n_45_135 = ma.ceil(mini_10[4])
     if constraints.rule_10_percent and constraints.percent_45_135:
-        missing_extra_45_135 = ma.ceil(mini_10[4]) \
-        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3])
+        missing_extra_45_135 = max(0, ma.ceil(mini_10[4]) \
+        - ma.ceil(mini_10[2]) - ma.ceil(mini_10[3]))
     else:
         missing_extra_45_135 = 0
     print('n_45', n_45)
-- 
2.43.0


From 9e764a0e212d8afa4720b9c13cefe2c037fedb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 51/79] fix: properties of candidate ply drops paired with
 other candidates in the thick-to-thin and thin-to-thick repairs

---
 src/RELAY/thick_to_thin.py | 10 +++++-----
 src/RELAY/thin_to_thick.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 78b66fb..b80b433 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -405,14 +405,14 @@ def repair_thick_to_thin(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
-                tab_child_penalty_diso.append(child_penalty_diso)
+                tab_child_penalty_diso.insert(0, child_penalty_diso)
                 # tab_child_penalty_contig.append(child_penalty_contig)
                 # tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 70ae860..9bf5b4b 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -458,14 +458,14 @@ def repair_thin_to_thick(
 #                print('child_obj_constraints', child_obj_constraints)
 
                 ### saving
-                tab_child_n_plies_per_angle.append(child_n_plies_per_angle)
-                tab_child_lampam.append(child_lampam)
+                tab_child_n_plies_per_angle.insert(0, child_n_plies_per_angle)
+                tab_child_lampam.insert(0, child_lampam)
                 # tab_child_penalty_oopo.append(child_penalty_oopo)
 #                tab_child_penalty_diso.append(child_penalty_diso)
 #                tab_child_penalty_contig.append(child_penalty_contig)
 #                tab_child_penalty_10.append(child_penalty_10)
-                tab_child_obj_no_constraints.append(child_obj_no_constraints)
-                tab_child_obj_constraints.append(child_obj_constraints)
+                tab_child_obj_no_constraints.insert(0, child_obj_no_constraints)
+                tab_child_obj_constraints.insert(0, child_obj_constraints)
 
                 n_obj_func_calls += 1
                 n_tab_nodes += 1
-- 
2.43.0


From 7de9bf58dc33d7a914bcb0db6458803a49b37fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 52/79] fix: thin-to-thick repair stopped by a wrong argument
 to numpy.copy

---
 src/RELAY/thin_to_thick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 9bf5b4b..b6ecc8c 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -211,7 +211,7 @@ def repair_thin_to_thick(
                 # print('one_pd_index', one_pd_index)
 
                 ### branching for ply orientation of new ply
-                child_angle = np.copy(constraints.set_of_angles, int)
+                child_angle = np.copy(constraints.set_of_angles)
 
                 ### pruning for balance
                 if constraints.bal:
-- 
2.43.0


From 07eed17bbbed588ba94044211185c9f745c13825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 53/79] fix: checks of the lamination parameters after the
 thick-to-thin and thin-to-thick repairs

---
 src/RELAY/thick_to_thin.py | 4 ++--
 src/RELAY/thin_to_thick.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index b80b433..22821b7 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -635,8 +635,8 @@ def repair_thick_to_thin(
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(
         reduced_ss[0: multipanel.reduced.ind_ref], constraints)
-    if not abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
-               - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam[0: multipanel.reduced.ind_ref] \
+                - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index b6ecc8c..7c97b46 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -664,7 +664,7 @@ def repair_thin_to_thick(
 
     ## test for the partial lamination parameters
     reduced_lampam_test = calc_lampam(reduced_ss, constraints)
-    if not abs(reduced_lampam - reduced_lampam_test).all() < 1e-13:
+    if not (abs(reduced_lampam - reduced_lampam_test) < 1e-13).all():
         raise Exception("""
 beam search does not return group lamination parameters matching
 the group stacking sequences.""")
-- 
2.43.0


From 91d4d837921deb6a658437c11bc6bbbee329523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 54/79] fix: stacking sequence and ply counts of another design
 returned with the best objective when failed designs are discarded

---
 src/BELLA/optimiser_with_one_pdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 04b2607..51004ab 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -500,8 +500,6 @@ beam search with no solutions !
 # =============================================================================
 # select best result
 # =============================================================================
-    ss_bot_tab = np.copy(ss_final)
-
     if parameters.save_success_rate:
         to_keep = np.array([ind for ind in range(len(obj_constraints_tab))\
                             if obj_constraints_tab[ind] < 1e10])
@@ -524,6 +522,8 @@ beam search with no solutions !
                 obj_constraints_tab, np.s_[ind], axis=0)
             obj_no_constraints_tab = np.delete(
                 obj_no_constraints_tab, np.s_[ind], axis=0)
+            n_plies_per_angle_tab = np.delete(
+                n_plies_per_angle_tab, np.s_[ind], axis=0)
 
         results.n_designs_repaired_unique = np.unique(
             sst_final, axis=0).shape[0]
@@ -533,7 +533,7 @@ beam search with no solutions !
         return None
 
     index = np.argmin(obj_constraints_tab)
-    ss = ss_bot_tab[index]
+    ss = ss_final[index]
     lampam = lampam_tab[index]
     n_plies_per_angle = n_plies_per_angle_tab[index]
     obj_no_constraints = obj_no_constraints_tab[index]
-- 
2.43.0


From 0dca01249d0a9d1c9f9afe0e7c959d562ef6bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 55/79] fix: empty design returned as the best when some ply
 drop layouts have no solution or are not explored

---
 src/BELLA/optimiser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index e77d329..86d1aeb 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -118,14 +118,17 @@ def BELLA_optimiser(
 
         ## === If the stacking sequence is good enough, exit the loop
         if results_one_pdl is not None:
-            if abs(results_one_pdl.obj_constraints).all() < 1e-10:
+            if abs(results_one_pdl.obj_constraints) < 1e-10:
                 print(f"""Low objective for the outer step {outer_step}.""")
                 break
 
         outer_step += 1
 
     # To determine the best solution
-    ind_mini = np.argmin(results.obj_constraints_tab)
+    if np.isnan(results.obj_constraints_tab).all():
+        raise Exception("""
+No laminate design solution found with any of the initial ply drop layouts.""")
+    ind_mini = np.nanargmin(results.obj_constraints_tab)
 
     results.ss = results.ss_tab[ind_mini]
     results.sst = results.ss_tab_tab[ind_mini]
-- 
2.43.0


From 3e8c0971d38e4b05c1c9c251a5f8984e9b52a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 56/79] fix: optional material properties of the optimiser

---
 src/BELLA/optimiser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/optimiser.py b/src/BELLA/optimiser.py
index 86d1aeb..f062c0a 100644
--- a/src/BELLA/optimiser.py
+++ b/src/BELLA/optimiser.py
@@ -52,7 +52,8 @@ def BELLA_optimiser(
     delete_file(filename)
 
     multipanel.should_you_use_BELLA()
-    multipanel.calc_weight_per_panel(mat.density_area)
+    if mat is not None:
+        multipanel.calc_weight_per_panel(mat.density_area)
     multipanel.filter_target_lampams(constraints, obj_func_param)
     multipanel.filter_lampam_weightings(constraints, obj_func_param)
 
@@ -145,7 +146,7 @@ No laminate design solution found with any of the initial ply drop layouts.""")
         save_materials(filename, mat)
     save_parameters_BELLA(filename, parameters)
     save_objective_function_BELLA(filename, obj_func_param)
-    save_multipanel(filename, multipanel, obj_func_param, mat)
+    save_multipanel(filename, multipanel, obj_func_param, mat=mat)
 
     pdls = np.zeros((len(pdls_ini),
                      multipanel.n_panels,
-- 
2.43.0


From 91bb303b877f825d68b6580536660c86f4830991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 57/79] fix: initial ply drop layout returned instead of the
 layout of the repaired design

---
 src/RELAY/repair_mp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RELAY/repair_mp.py b/src/RELAY/repair_mp.py
index 66818c6..0730bbf 100644
--- a/src/RELAY/repair_mp.py
+++ b/src/RELAY/repair_mp.py
@@ -104,5 +104,10 @@ Reference stacking sequence modified during blending step 4.3""")
         if reduced_ss[ind_panel].size != panel.n_plies:
             raise Exception("""Wrong ply counts in the laminate.""")
 
+    # ply drop layout after its re-optimisation
+    reduced_sst = np.array(reduced_sst)
+    reduced_pdl = np.where(
+        reduced_sst == -1, -1, np.arange(reduced_sst.shape[1]))
+
 #    print('Blending step 4 successful')
     return True, reduced_ss, reduced_sst, reduced_pdl, 4
-- 
2.43.0


From eb6d075438ca94129282d93201358c36c1c01dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 58/79] fix: designs and objectives of the result sheets from
 different ply drop layouts

---
 src/BELLA/save_result.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 5bb058a..4c72bd4 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -48,6 +48,8 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
 
 
     for ind in range(parameters.n_ini_ply_drops):
+        if np.isnan(output.obj_constraints_tab[ind]):
+            continue # no design with this initial ply drop layout
         table_res = pd.DataFrame()
         table_res = save_result_BELLA_one_pdl(
             table_res,
@@ -58,12 +60,14 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
             output,
             pdl[ind],
             ind,
-            mat)
+            mat,
+            output.ss_tab[ind],
+            output.ss_tab_tab[ind])
         append_df_to_excel(
             filename, table_res, 'Results', index=False, header=True)
     # to save best result
     table_res = pd.DataFrame()
-    table_res.loc[0, 'time (s)'] = output.time
+    table_res.loc[output.ind_mini, 'time (s)'] = output.time
     table_res = save_result_BELLA_one_pdl(
         table_res,
         multipanel,
@@ -72,7 +76,7 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
         obj_func_param,
         output,
         pdl[output.ind_mini],
-        0,
+        output.ind_mini,
         mat)
     append_df_to_excel(
         filename, table_res, 'Best Result', index=False, header=True)
@@ -80,11 +84,17 @@ def save_result_BELLAs(filename, multipanel, constraints, parameters,
 
 def save_result_BELLA_one_pdl(
         table_res, multipanel, constraints, parameters, obj_func_param,
-        output, pdl=None, ind=0, mat=None):
+        output, pdl=None, ind=0, mat=None, ss=None, sst=None):
     """
     saves the results at one iteration of the design of a multipanel
     structure
+
+    The best design is saved if no other design (ss, sst) is given.
     """
+    if ss is None:
+        ss = output.ss
+    if sst is None:
+        sst = output.sst
 
     if parameters is None:
         if multipanel.panels[0].N_x == 0 and multipanel.panels[0].N_y == 0:
@@ -113,8 +123,6 @@ def save_result_BELLA_one_pdl(
 
     table_res.loc[ind, 'penalty_spacing'] = output.penalty_spacing_tab[ind]
 
-    ss = output.ss
-
     norm_diso_contig = np.array(
         [panel.n_plies for panel in multipanel.panels])
 
@@ -158,16 +166,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(output.sst[ind_p] == 0) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(output.sst[ind_p] == 90) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(output.sst[ind_p] == 45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(output.sst[ind_p] == -45) / (output.sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
-        = (sum(output.sst[ind_p] == 45) + sum(output.sst[ind_p] == -45)) \
-        / (output.sst[ind_p].size)
+        = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
+        / (sst[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
@@ -180,7 +188,7 @@ def save_result_BELLA_one_pdl(
             table_res.loc[ind + ind_p, 'lambda buckling'] = buckling_factor(
                 lampam=lampam[ind_p],
                 mat=mat,
-                n_plies=output.ss[ind_p].size,
+                n_plies=ss[ind_p].size,
                 N_x=panel.N_x,
                 N_y=panel.N_y,
                 length_x=panel.length_x,
@@ -189,7 +197,7 @@ def save_result_BELLA_one_pdl(
 
         for angle in constraints.set_of_angles:
             table_res.loc[ind + ind_p, 'n_' + str(angle) + 'plies'] \
-            = sum(output.sst[ind_p] == angle)
+            = sum(sst[ind_p] == angle)
 
         for ind_lp in range(12):
             table_res.loc[
@@ -210,11 +218,11 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'gamma'] = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
         table_res.loc[ind + ind_p, 'delta'] = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
-        stack = ' '.join(np.array(output.sst[ind_p], dtype=str))
+        stack = ' '.join(np.array(sst[ind_p], dtype=str))
         table_res.loc[
             ind + ind_p, 'stacking sequences with ply drops included'] = stack
 
-        stack = ' '.join(np.array(output.ss[ind_p], dtype=str))
+        stack = ' '.join(np.array(ss[ind_p], dtype=str))
         table_res.loc[ind + ind_p, 'stacking sequences'] = stack
 
         if pdl is not None:
-- 
2.43.0


From dc4614fda9f582a8d8e7d9ce40849a37405dbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 59/79] fix: dropped plies included in the ply percentages of
 the result sheets

---
 src/BELLA/save_result.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 4c72bd4..003a56b 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -166,16 +166,16 @@ def save_result_BELLA_one_pdl(
         table_res.loc[ind + ind_p, 'oopo: |lampam[11]| + |lampam[12]|'] \
         = abs(lampam[ind_p, 10]) + abs(lampam[ind_p, 11])
         table_res.loc[ind + ind_p, 'percentage_0_plies'] \
-        = sum(sst[ind_p] == 0) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 0) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_90_plies'] \
-        = sum(sst[ind_p] == 90) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 90) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+45_plies'] \
-        = sum(sst[ind_p] == 45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == 45) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_-45_plies'] \
-        = sum(sst[ind_p] == -45) / (sst[ind_p].size)
+        = sum(sst[ind_p] == -45) / (ss[ind_p].size)
         table_res.loc[ind + ind_p, 'percentage_+-45_plies'] \
         = (sum(sst[ind_p] == 45) + sum(sst[ind_p] == -45)) \
-        / (sst[ind_p].size)
+        / (ss[ind_p].size)
 
         table_res.loc[ind + ind_p, 'penalty_diso'] = penalty_diso[ind_p]
         table_res.loc[ind + ind_p, 'penalty_contig'] = penalty_contig[ind_p]
-- 
2.43.0


From 104c3fb6acc66ee135fb31fdc1a1dcb0d41add69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 60/79] fix: results saved without material properties

---
 src/BELLA/save_result.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/BELLA/save_result.py b/src/BELLA/save_result.py
index 003a56b..ad2c667 100644
--- a/src/BELLA/save_result.py
+++ b/src/BELLA/save_result.py
@@ -209,14 +209,17 @@ def save_result_BELLA_one_pdl(
                 ind + ind_p, 'lampam[' + str(ind_lp + 1) + ']'] = \
             lampam[ind_p, ind_lp]
             
-        D = D_from_lampam(lampam[ind_p], mat) 
-        D_11 = D[0, 0]
-        D_22 = D[1, 1]
-        D_16 = D[0, 2]
-        D_26 = D[1, 2]
-        
-        table_res.loc[ind + ind_p, 'gamma'] = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
-        table_res.loc[ind + ind_p, 'delta'] = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
+        if mat is not None:
+            D = D_from_lampam(lampam[ind_p], mat)
+            D_11 = D[0, 0]
+            D_22 = D[1, 1]
+            D_16 = D[0, 2]
+            D_26 = D[1, 2]
+
+            table_res.loc[ind + ind_p, 'gamma'] \
+            = abs(D_16/(( (D_11**3) * D_22 )**(1/4)))
+            table_res.loc[ind + ind_p, 'delta'] \
+            = abs(D_26/(( (D_22**3) * D_11 )**(1/4)))
             
         stack = ' '.join(np.array(sst[ind_p], dtype=str))
         table_res.loc[
-- 
2.43.0


From bfdcd234d67a8808883da9030ebc73cfcc8aa58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 61/79] fix: area of the structure and weights of the panels in
 the saved set-up

---
 src/BELLA/save_set_up.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index ffcff80..9bd12b4 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -84,7 +84,7 @@ def save_multipanel(
     table_mp = pd.DataFrame()
     table_mp.loc[0, 'Number of panels'] = multipanel.n_panels
     table_mp.loc[0, 'Number of plies max'] = multipanel.n_plies_max
-    table_mp.loc[0, 'Area'] = multipanel.area_patches
+    table_mp.loc[0, 'Area'] = multipanel.area
     table_mp.loc[0, 'Area of all patches'] = multipanel.area_patches
     if mat is not None:
         table_mp.loc[0, 'Weight'] = multipanel.calc_weight(mat.density_area)
@@ -127,7 +127,7 @@ def save_multipanel(
             table_p.loc[ind_p, 'N_x'] = panel.N_x
             table_p.loc[ind_p, 'N_y'] = panel.N_y
 
-        if hasattr(panel, 'Weight'):
+        if mat is not None:
             table_p.loc[ind_p, 'Weight'] = panel.calc_weight(mat.density_area)
 
         for ind in range(12):
-- 
2.43.0


From 7e5c0fd9f5c94224ea5ac1218adaa47fb57c4f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:17 +0000
Subject: [PATCH 62/79] fix: node limits of the thick-to-thin repair used by
 the thin-to-thick repair

---
 src/RELAY/thin_to_thick.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 7c97b46..11326ca 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -305,9 +305,9 @@ def repair_thin_to_thick(
             indices_to_keep = []
             tab_penalty_spacing_for_pruning = np.copy(tab_penalty_spacing)
             if len(tab_penalty_spacing_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
 
                     min_value = min(tab_penalty_spacing_for_pruning)
                     indices_to_add = np.where(
@@ -476,9 +476,9 @@ def repair_thin_to_thick(
             = np.copy(tab_child_obj_constraints)
             if ind_step != n_steps - 1 \
             and len(tab_child_obj_constraints_for_pruning) \
-            > parameters.local_node_limit2:
+            > parameters.local_node_limit3:
 
-                while len(indices_to_keep) < parameters.local_node_limit2:
+                while len(indices_to_keep) < parameters.local_node_limit3:
                     
                     min_value = min(tab_child_obj_constraints_for_pruning)
                     index_to_add = np.where(
@@ -564,9 +564,9 @@ def repair_thin_to_thick(
         penalty_spacing_tab_for_pruning = np.copy(penalty_spacing_tab)
         if ind_step != n_steps - 1 \
         and len(penalty_spacing_tab_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(penalty_spacing_tab_for_pruning)
                 indices_to_add = np.where(
@@ -607,9 +607,9 @@ def repair_thin_to_thick(
 
         if ind_step != n_steps - 1 \
         and len(tab_child_obj_constraints_for_pruning) \
-        > parameters.global_node_limit2:
+        > parameters.global_node_limit3:
 
-            while len(indices_to_keep) < parameters.global_node_limit2:
+            while len(indices_to_keep) < parameters.global_node_limit3:
 
                 min_value = min(tab_child_obj_constraints_for_pruning)
                 index_to_add = np.where(
-- 
2.43.0


From 8629e746d4f91e639903d1f4935ba2bdfb1017eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 63/79] fix: designs exactly on the minimum of the 10% rule
 discarded by the thick-to-thin and thin-to-thick repairs because of rounding

---
 src/RELAY/thick_to_thin.py | 2 +-
 src/RELAY/thin_to_thick.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RELAY/thick_to_thin.py b/src/RELAY/thick_to_thin.py
index 22821b7..59661ac 100644
--- a/src/RELAY/thick_to_thin.py
+++ b/src/RELAY/thick_to_thin.py
@@ -366,7 +366,7 @@ def repair_thick_to_thin(
                             child_n_plies_per_angle[ind_panel_tab[ind_step]],
                             constraints)
                     # pruning 10% rule
-                    if penalty_10 != 0:
+                    if penalty_10 > 1e-10:
                         # print('10')
                         del tab_child_pdl[ind_pd]
                         del tab_penalty_spacing[ind_pd]
diff --git a/src/RELAY/thin_to_thick.py b/src/RELAY/thin_to_thick.py
index 11326ca..4e0c593 100644
--- a/src/RELAY/thin_to_thick.py
+++ b/src/RELAY/thin_to_thick.py
@@ -417,7 +417,7 @@ def repair_thin_to_thick(
                             child_n_plies_per_angle[ind_panel_now],
                             constraints)
                     # pruning for 10% rule
-                    if penalty_10 != 0:
+                    if penalty_10 > 1e-10:
                         # print('10')
                         del tab_child_pdl[ind_pd]
                         del tab_penalty_spacing[ind_pd]
-- 
2.43.0


From 4c344f148e9c2ea25b1f4047222f759fd6b9454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:03 +0000
Subject: [PATCH 64/79] fix: optimisation stopped when the repair of all the
 designs of a ply drop layout fails

---
 src/BELLA/optimiser_with_one_pdl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BELLA/optimiser_with_one_pdl.py b/src/BELLA/optimiser_with_one_pdl.py
index 51004ab..97e4c00 100644
--- a/src/BELLA/optimiser_with_one_pdl.py
+++ b/src/BELLA/optimiser_with_one_pdl.py
@@ -614,7 +614,9 @@ Objective function value not matching the stacking sequences.""")
         coeff_10=obj_func_param.coeff_10,
         coeff_bal_ipo=obj_func_param.coeff_bal_ipo)
 
-    if abs(obj_constraints_test - obj_constraints > 1e-10).any():
+    # (designs with a failed repair have no actual objective function value)
+    if obj_constraints < 1e10 \
+    and abs(obj_constraints_test - obj_constraints > 1e-10).any():
         print('obj_constraints_test', obj_constraints_test)
         print('obj_constraints', obj_constraints)
         pass
-- 
2.43.0


From 6e4aa9a59e2b123a0730b28433fa3cdc0df74679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 65/79] fix: penalties of panels of different thicknesses and
 of the 10% rule in ply percentages in the saved set-up

---
 src/BELLA/save_set_up.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/save_set_up.py b/src/BELLA/save_set_up.py
index 9bd12b4..9e6b3a6 100644
--- a/src/BELLA/save_set_up.py
+++ b/src/BELLA/save_set_up.py
@@ -141,7 +141,7 @@ def save_multipanel(
             = panel.lampam_weightings[ind]
 
     if calc_penalties:
-        ss = np.array(convert_sst_to_ss(sst))
+        ss = convert_sst_to_ss(sst)
 
         norm_diso_contig = np.array(
                 [panel.n_plies for panel in multipanel.panels])
@@ -163,7 +163,8 @@ def save_multipanel(
         if constraints.rule_10_percent and constraints.rule_10_Abdalla:
             penalty_10 = calc_penalty_10_ss(ss, constraints, lampam, mp=True)
         else:
-            penalty_10 = calc_penalty_10_ss(ss, constraints, LPs=None)
+            penalty_10 = calc_penalty_10_ss(
+                ss, constraints, LPs=None, mp=True)
 
         penalty_ipo, penalty_oopo = calc_penalty_ipo_oopo_mp(
             lampam, constraints)
-- 
2.43.0


From cfee26f924cf0aaef5dc2b6a5916ebb5f0e7d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 66/79] fix: set-ups in which all the panels have only one
 neighbour not read

---
 FXI-results/format_restults_FXI_SST_1.py     | 4 ++--
 FXI-results/format_restults_FXI_horseshoe.py | 4 ++--
 run_BELLA_from_input_file_SST_1.py           | 4 ++--
 run_BELLA_from_input_file_horseshoe.py       | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/FXI-results/format_restults_FXI_SST_1.py b/FXI-results/format_restults_FXI_SST_1.py
index 684af34..befd6de 100644
--- a/FXI-results/format_restults_FXI_SST_1.py
+++ b/FXI-results/format_restults_FXI_SST_1.py
@@ -156,8 +156,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/FXI-results/format_restults_FXI_horseshoe.py b/FXI-results/format_restults_FXI_horseshoe.py
index bb2fa56..b83e0c0 100644
--- a/FXI-results/format_restults_FXI_horseshoe.py
+++ b/FXI-results/format_restults_FXI_horseshoe.py
@@ -154,8 +154,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
diff --git a/run_BELLA_from_input_file_SST_1.py b/run_BELLA_from_input_file_SST_1.py
index 02447b9..ce17c24 100644
--- a/run_BELLA_from_input_file_SST_1.py
+++ b/run_BELLA_from_input_file_SST_1.py
@@ -234,8 +234,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints))
 
 multipanel = MultiPanel(panels)
diff --git a/run_BELLA_from_input_file_horseshoe.py b/run_BELLA_from_input_file_horseshoe.py
index f94b0df..7442faa 100644
--- a/run_BELLA_from_input_file_horseshoe.py
+++ b/run_BELLA_from_input_file_horseshoe.py
@@ -234,8 +234,8 @@ for ind_panel in range(data_panels.shape[0]):
         n_plies=int(data_panels["Number of plies"].iloc[ind_panel]),
         weighting=float(data_panels[
             "Weighting in MP objective funtion"].iloc[ind_panel]),
-        neighbour_panels=np.array(data_panels[
-            "Neighbour panel IDs"].iloc[ind_panel].split(" "), int),
+        neighbour_panels=np.array(str(data_panels[
+            "Neighbour panel IDs"].iloc[ind_panel]).split(" "), int),
         constraints=constraints,
         length_x=float(data_panels["Length_x"].iloc[ind_panel]),
         length_y=float(data_panels["Length_y"].iloc[ind_panel]),
-- 
2.43.0


From 2c46fdf8fda83f14df61eb1b56bd24b955d6dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 67/79] fix: contiguity violations counted as a laminate grows:
 stopped on the first ply, counted twice

---
 src/guidelines/contiguity.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/guidelines/contiguity.py b/src/guidelines/contiguity.py
index 12dbe7f..0346f65 100644
--- a/src/guidelines/contiguity.py
+++ b/src/guidelines/contiguity.py
@@ -177,7 +177,7 @@ def calc_n_viola_contig(
                 if pdl[ind_panel, level] >= 0:
                     new_stack = np.hstack((
                         mother_ss_bot[ind_panel][-constraints.n_contig:],
-                        np.array([child_ss]),
+                        np.array([child_ss[0]]),
                         np.flip(mother_ss_bot[
                             ind_panel][-constraints.n_contig:], axis=0)))
                 else:
@@ -196,8 +196,8 @@ def calc_n_viola_contig(
                 if pdl[ind_panel, level] >= 0:
                     new_stack = np.hstack((
                         mother_ss_bot[ind_panel][-constraints.n_contig:],
-                        np.array([child_ss]),
-                        np.array([child_ss]),
+                        np.array([child_ss[0]]),
+                        np.array([child_ss[0]]),
                         np.flip(mother_ss_bot[
                             ind_panel][-constraints.n_contig:], axis=0)))
                 else:
@@ -222,9 +222,6 @@ def calc_n_viola_contig(
                         else:
                             n_viola_contig[ind_panel] += 1
 
-                vector = calc_contig_vector(new_stack, constraints.n_contig)
-                n_viola_contig[ind_panel] += np.sum(vector)
-
     else: ### top
         for ind_panel in range(n_panels):
             if pdl[ind_panel, level] >= 0 \
@@ -232,7 +229,6 @@ def calc_n_viola_contig(
                 new_stack = np.hstack((
                     np.array([child_ss[0]]),
                     mother_ss_top[ind_panel][:constraints.n_contig]))
-                vector = calc_contig_vector(new_stack, constraints.n_contig)
                 if not is_contig(new_stack, constraints.n_contig):
                     n_viola_contig[ind_panel] += 1
 
-- 
2.43.0


From f67afe1bb82544585ad8736f3904e3d3082434f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 68/79] fix: several layouts of a group asked: layouts returned
 twice, or search stopped, when fewer exist

---
 src/BELLA/pdl_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BELLA/pdl_group.py b/src/BELLA/pdl_group.py
index b12ca9d..3b7918d 100644
--- a/src/BELLA/pdl_group.py
+++ b/src/BELLA/pdl_group.py
@@ -289,11 +289,12 @@ Too many ply drops between two adjacent panels.""")
 
 
         # add the non-manufacturable ply drop layouts
-        for ind in range(ind_perfect, n_pdl_max):
+        n_found = min(n_pdl, ind_perfect + ind_imperfect)
+        for ind in range(ind_perfect, n_found):
             indexx = np.argmin(p_spacing_imperfect)
             pdl_perfect[ind] = pdl_imperfect[indexx]
             p_spacing_imperfect[indexx] = 10e6
 
-        return pdl_perfect
+        return pdl_perfect[:n_found]
     # if enough manufacturable ply drop layouts have been found
     return pdl_perfect
-- 
2.43.0


From bed656d48087d1449c413ed292777c22ae7f16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 69/79] fix: one ply too many asked by the repair for the 10%
 rule because of rounding

---
 src/RELAY/repair_10_bal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/RELAY/repair_10_bal.py b/src/RELAY/repair_10_bal.py
index b0934ad..ac102a9 100644
--- a/src/RELAY/repair_10_bal.py
+++ b/src/RELAY/repair_10_bal.py
@@ -495,11 +495,12 @@ def calc_mini_10(constraints, n_plies):
         constraints: constraints (instance of the class Constraints)
     """
     mini_10 = np.zeros((5,), float)
-    mini_10[0] = ma.ceil(constraints.percent_0 * n_plies)
-    mini_10[1] = ma.ceil(constraints.percent_90 * n_plies)
-    mini_10[2] = ma.ceil(constraints.percent_45 * n_plies)
-    mini_10[3] = ma.ceil(constraints.percent_135 * n_plies)
-    mini_10[4] = ma.ceil(constraints.percent_45_135 * n_plies)
+    # tolerance for numerical rounding (for instance 0.28 * 25 > 7)
+    mini_10[0] = ma.ceil(constraints.percent_0 * n_plies - 1e-12)
+    mini_10[1] = ma.ceil(constraints.percent_90 * n_plies - 1e-12)
+    mini_10[2] = ma.ceil(constraints.percent_45 * n_plies - 1e-12)
+    mini_10[3] = ma.ceil(constraints.percent_135 * n_plies - 1e-12)
+    mini_10[4] = ma.ceil(constraints.percent_45_135 * n_plies - 1e-12)
     if constraints.ipo:
         mini_10[2] = max(mini_10[2], mini_10[3])
         if mini_10[4] % 2:
-- 
2.43.0


From 7b3a25b5b2aff7c1f0bca662610cf821bc174719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 70/79] fix: penalties for in-plane and out-of-plane orthotropy
 of single laminates missing: LAYLA could not be imported

---
 src/guidelines/ipo_oopo.py | 43 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/guidelines/ipo_oopo.py b/src/guidelines/ipo_oopo.py
index 9c41e43..8a47340 100644
--- a/src/guidelines/ipo_oopo.py
+++ b/src/guidelines/ipo_oopo.py
@@ -259,6 +259,49 @@ def calc_penalty_ipo_oopo_mp(
 
 
 
+def calc_penalty_ipo_oopo_ss(
+        lampam,
+        constraints,
+        parameters=None,
+        mat=0,
+        cummul_areas=1,
+        cummul_sec_mom_areas=1):
+    """
+    calculates penalties for in-plane and out-of plane orthotropy based
+    lamination parameters for a single-panel structure
+
+    INPUTS
+
+    - lampam: lamination parameters of one or several lay-ups
+    - constraints: design and maufacturing constraints
+    - parameters: optimiser parameters
+    - mat: material properties of the laminae
+    - cummul_areas: sum of the areas of the plies retrieved so far + the
+    current plies
+    - cummul_sec_mom_areas: sum of the second moments of areas of the plies
+    retrieved so far + the current plies
+    """
+    penalty_ipo_switch = parameters is None or parameters.penalty_ipo_switch
+
+    if lampam.ndim == 2: # several lay-ups
+        return calc_penalty_ipo_oopo_mp(
+            lampam,
+            constraints,
+            penalty_ipo_switch=penalty_ipo_switch,
+            cummul_areas=cummul_areas,
+            cummul_sec_mom_areas=cummul_sec_mom_areas)
+
+    penalty_ipo, penalty_oopo = 0, 0
+    # penalty for in-plane orthotropy
+    if constraints.ipo and penalty_ipo_switch:
+        penalty_ipo = (abs(lampam[2]) + abs(lampam[3])) / 2
+    # penalty for out-of-plane orthotropy
+    if constraints.oopo:
+        penalty_oopo = (abs(lampam[10]) + abs(lampam[11])) / 2
+    return cummul_areas * penalty_ipo, cummul_sec_mom_areas * penalty_oopo
+
+
+
 def calc_penalty_oopo_ss(lampam, constraints, cummul_sec_mom_areas=1):
     """
     calculates penalties for out-of plane orthotropy based lamination
-- 
2.43.0


From d98a797b951a2a2282e8f4fe4d3d597de40081a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 71/79] fix: LAYLA stopped when the best laminate had in-plane
 anisotropy: switches of the penalties looked for in the constraints

---
 src/LAYLA_V02/outer_step_asym.py | 4 ++--
 src/LAYLA_V02/outer_step_sym.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 3249583..4f8f0cd 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -189,9 +189,9 @@ def outer_step_asym(
     # if repair failed
     if ((constraints.rule_10_percent and penalty_10)\
     or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 59057ac..74fc467 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -189,9 +189,9 @@ def outer_step_sym(
     # If repair failed
     if ((constraints.rule_10_percent and penalty_10)\
     or (constraints.ipo and penalty_ipo_lampam \
-        and constraints.penalty_ipo_switch) \
+        and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
-        and constraints.penalty_bal_switch)):
+        and parameters.penalty_bal_switch)):
          outer_step_result.obj_const = 1e10
 
 #    print('outer_step_result.ss_best', result.ss_best)
-- 
2.43.0


From cbc31304ff066b7d4ea420b4981207cf7e3c9af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 72/79] fix: lamination parameters of asymmetric laminates
 designed with LAYLA were those of other lay-ups

---
 src/LAYLA_V02/optimiser.py       | 20 ++++++++++++++------
 src/LAYLA_V02/outer_step_asym.py |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index a6a8e6b..7b36c13 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -95,6 +95,11 @@ laminates""")
         lampam_weightings[ind]/sum(lampam_weightings[ind]) \
         for ind in range(lampam_weightings.shape[0])])
 
+    # the levels of the search are identified with ply indices
+    levels = np.argsort(ply_order)
+    lampam_weightings = lampam_weightings[levels]
+    cummul_mom_areas = cummul_mom_areas[levels]
+
     # calculation of ply partial lamination parameters
     if constraints.sym:
         delta_lampams = np.empty((targets.n_plies // 2 + targets.n_plies % 2,
@@ -109,12 +114,14 @@ laminates""")
         delta_lampams = np.empty((
             targets.n_plies, constraints.n_set_of_angles, 12), float)
         for ind in range(lampam_weightings.shape[0]):
-            delta_lampams[
-                ind, :, 0:4] = mom_areas[ind, 0] * constraints.cos_sin
-            delta_lampams[
-                ind, :, 4:8] = mom_areas[ind, 1] * constraints.cos_sin
-            delta_lampams[
-                ind, :, 8:12] = mom_areas[ind, 2] * constraints.cos_sin
+            # the moments of areas are sorted in the order in which plies are
+            # optimised
+            delta_lampams[ply_order[ind], :, 0:4] \
+            = mom_areas[ind, 0] * constraints.cos_sin
+            delta_lampams[ply_order[ind], :, 4:8] \
+            = mom_areas[ind, 1] * constraints.cos_sin
+            delta_lampams[ply_order[ind], :, 8:12] \
+            = mom_areas[ind, 2] * constraints.cos_sin
 
     # asummed lamination parameters for ech ply groups
     lampam_assumed = np.zeros((n_groups, 12), float)
@@ -199,6 +206,7 @@ laminates""")
 
             mom_areas, cummul_mom_areas, group_mom_areas = calc_mom_of_areas(
                 constraints, targets, ply_order, n_plies_in_groups)
+            cummul_mom_areas = cummul_mom_areas[levels]
 
             levels_in_groups = calc_levels(
                 ply_order, n_plies_in_groups, n_groups)
diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 4f8f0cd..82400b1 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -136,7 +136,7 @@ def outer_step_asym(
     obj_no_const = objectives(
         outer_step_result.lampam_best,
         targets=targets,
-        lampam_weightings=lampam_weightings[-1],
+        lampam_weightings=lampam_weightings[levels_in_groups[-1][-1]],
         constraints=constraints,
         parameters=parameters,
         mat_prop=mat_prop)
-- 
2.43.0


From 9e60bcae47a15a65daaf7275b13a6a48eacb6368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:24 +0000
Subject: [PATCH 73/79] fix: penalty for balance of the last orientation
 applied to all orientations tried for a ply in LAYLA

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 36267fc..21ce4b5 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -340,7 +340,7 @@ def beam_search(
             penalty_ipo_pc = np.zeros((n_solution,))
             if constraints.ipo and parameters.penalty_bal_switch:
                 penalty_ipo_pc = calc_penalty_bal(
-                    ply_counts,
+                    ply_counts_tab[ply_counts_tab.shape[0] - n_solution:],
                     constraints=constraints,
                     cummul_areas=cummul_mom_areas[level, 0])
 #                print('penalty_ipo_pc', penalty_ipo_pc.shape)
-- 
2.43.0


From c1f840f46ddde39995b7c091bc5182c960b46246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 74/79] fix: laminates designed with LAYLA taken for unrepaired
 ones because of rounding of their lamination parameters

---
 src/LAYLA_V02/outer_step_asym.py | 4 ++--
 src/LAYLA_V02/outer_step_sym.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/outer_step_asym.py b/src/LAYLA_V02/outer_step_asym.py
index 82400b1..7554ea6 100644
--- a/src/LAYLA_V02/outer_step_asym.py
+++ b/src/LAYLA_V02/outer_step_asym.py
@@ -187,8 +187,8 @@ def outer_step_asym(
         coeff_oopo=parameters.coeff_oopo)
 
     # if repair failed
-    if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
+    if ((constraints.rule_10_percent and penalty_10 > 1e-10)\
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
         and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
         and parameters.penalty_bal_switch)):
diff --git a/src/LAYLA_V02/outer_step_sym.py b/src/LAYLA_V02/outer_step_sym.py
index 74fc467..5f6ebd6 100644
--- a/src/LAYLA_V02/outer_step_sym.py
+++ b/src/LAYLA_V02/outer_step_sym.py
@@ -187,8 +187,8 @@ def outer_step_sym(
         coeff_oopo=parameters.coeff_oopo)
 
     # If repair failed
-    if ((constraints.rule_10_percent and penalty_10)\
-    or (constraints.ipo and penalty_ipo_lampam \
+    if ((constraints.rule_10_percent and penalty_10 > 1e-10)\
+    or (constraints.ipo and penalty_ipo_lampam > 1e-10 \
         and parameters.penalty_ipo_switch) \
     or (constraints.ipo and penalty_ipo_pc \
         and parameters.penalty_bal_switch)):
-- 
2.43.0


From 1a9f53d59606c237da17cff8b1b25882f5071acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 75/79] fix: laminates repaired in LAYLA compared with the
 penalties that they had before their repair

---
 src/LAYLA_V02/beam_search.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 21ce4b5..52e5b39 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -318,6 +318,15 @@ def beam_search(
                         check_lay_up_rules(ss, constraints)
                         lampam_tab[indddd] = calc_lampam_from_delta_lp_matrix(
                             ss, constraints, delta_lampams)
+                        # penalties are those of the repaired stacking sequence
+                        ply_counts_tab[indddd] = [
+                            np.sum(ss == angle) / (2 if constraints.sym else 1)
+                            for angle in constraints.set_of_angles]
+                        if constraints.rule_10_percent \
+                        and parameters.penalty_10_pc_switch:
+                            penalty_10[n_solution - indd - 1] \
+                            = calc_penalty_10_pc(
+                                ply_counts_tab[indddd], constraints)
                     else:
 #                        print('unsuccess full repair')
                         obj_no_constraints[n_solution - indd - 1] = 1e10
-- 
2.43.0


From d46a7246f8870fe2edc21ba69e40ddba600dc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 76/79] fix: results of LAYLA could not be printed

---
 src/LAYLA_V02/optimiser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LAYLA_V02/optimiser.py b/src/LAYLA_V02/optimiser.py
index 7b36c13..df1fc70 100644
--- a/src/LAYLA_V02/optimiser.py
+++ b/src/LAYLA_V02/optimiser.py
@@ -231,6 +231,8 @@ laminates""")
     results.objective = results.obj_tab[ind_mini]
     results.ss = results.ss_tab[ind_mini]
     results.lampam = results.lampam_tab_tab[ind_mini]
+    results.ss_best = results.ss
+    results.lampam_best = results.lampam
     results.completed = True
 
     return results
\ No newline at end of file
-- 
2.43.0


From 353ace5d08a398b2113c7c722e4170fb2c4a5a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 77/79] fix: plies of asymmetric laminates put at the wrong end
 by LAYLA after a ply group with an odd number of plies

---
 src/LAYLA_V02/beam_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LAYLA_V02/beam_search.py b/src/LAYLA_V02/beam_search.py
index 52e5b39..9f1f8ac 100644
--- a/src/LAYLA_V02/beam_search.py
+++ b/src/LAYLA_V02/beam_search.py
@@ -231,7 +231,7 @@ def beam_search(
                     new_stack_bot = np.copy(mother_ss_bot)
                     new_stack_top = np.copy(mother_ss_top)
 
-                    if local_level % 2:
+                    if level >= targets.n_plies // 2 + targets.n_plies % 2:
                         new_stack_top = np.hstack((
                             child_ss[indd], new_stack_top))
                     else:
-- 
2.43.0


From dcee6348ad6eb0f24537c6af29c099537bcfd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 78/79] fix: damage tolerance with ply groups of one or two
 plies: LAYLA stopped

---
 src/LAYLA_V02/pruning.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/LAYLA_V02/pruning.py b/src/LAYLA_V02/pruning.py
index c5b33d5..b94ea2d 100644
--- a/src/LAYLA_V02/pruning.py
+++ b/src/LAYLA_V02/pruning.py
@@ -80,9 +80,12 @@ def pruning_diso_contig_damtol(
 
             if level == 1:
 
+                # the first ply may belong to the previous ply group
+                ss_bot = np.hstack((ss_bot_simp, mother_ss_bot))
+
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_bot[0]:
+                        if child_ss[ind] != - ss_bot[0]:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -93,7 +96,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_bot[0]:
+                            if child_ss[ind] != - ss_bot[0]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
@@ -103,9 +106,12 @@ def pruning_diso_contig_damtol(
 
             if level == targets.n_plies - 2 and not constraints.sym:
 
+                # the last ply may belong to the previous ply group
+                ss_top = np.hstack((mother_ss_top, ss_top_simp))
+
                 if constraints.dam_tol_rule == 2:
                     for ind in range(child_ss.size)[:: -1]:
-                        if child_ss[ind] != - mother_ss_top[-1]:
+                        if child_ss[ind] != - ss_top[-1]:
                             child_ss = np.delete(child_ss, np.s_[ind], axis=0)
 
                 elif constraints.dam_tol_rule == 3:
@@ -116,7 +122,7 @@ def pruning_diso_contig_damtol(
                         # diso
                         if constraints.diso \
                         and not is_diso(-45, 45, constraints.delta_angle):
-                            if child_ss[ind] != - mother_ss_top[-1]:
+                            if child_ss[ind] != - ss_top[-1]:
                                 child_ss = np.delete(
                                     child_ss, np.s_[ind], axis=0)
 
-- 
2.43.0


From 19a0ba2498956e6a44ae31f798774416842cef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:28 +0000
Subject: [PATCH 79/79] fix: panels filter their own lamination-parameter
 targets, not the array of the caller

---
 src/BELLA/panels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BELLA/panels.py b/src/BELLA/panels.py
index 3097ea7..f4fcb16 100644
--- a/src/BELLA/panels.py
+++ b/src/BELLA/panels.py
@@ -50,7 +50,7 @@ class Panel():
         self.set_n_plies(n_plies, constraints)
 
         # lamination-parameter targets
-        self.lampam_target = lampam_target
+        self.lampam_target = np.copy(lampam_target)
 
         # panel ID
         self.ID = ID
-- 
2.43.0

