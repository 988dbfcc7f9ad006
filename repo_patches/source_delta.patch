From 13b7884d8e61cc69806ea2a90369a3f22d7930dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 01/51] fix: enforce minimum up- and downtime for the first
 possible switch

---
 src/oemof/solph/flows/_shared.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 6713750..0c6aadb 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -189,6 +189,16 @@ def variables_for_non_convex_flows(block):
         )
 
 
+def _previous_status(block, i, o, t):
+    """Status in the time step before t (initial status before the first)"""
+    if t > 0:
+        return block.status[i, o, t - 1]
+    initial_status = block.parent_block().flows[i, o].nonconvex.initial_status
+    if initial_status is None:  # unknown, so the first step is no switch
+        return block.status[i, o, t]
+    return initial_status
+
+
 def _min_downtime_constraint(block):
     r"""
     .. math::
@@ -215,7 +225,7 @@ def _min_downtime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
@@ -223,7 +233,7 @@ def _min_downtime_constraint(block):
 
             expr = 0
             expr += (
-                block.status[i, o, t - 1] - block.status[i, o, t]
+                _previous_status(block, i, o, t) - block.status[i, o, t]
             ) * m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += -m.flows[i, o].nonconvex.minimum_downtime[t]
             expr += sum(
@@ -269,14 +279,14 @@ def _min_uptime_constraint(block):
         """
         if (
             m.flows[i, o].nonconvex.first_flexible_timestep
-            < t
+            <= t
             < m.TIMESTEPS.at(-1)
         ):
             # We have a 2D matrix of constraints,
             # so testing is easier then just calling the rule for valid t.
             expr = 0
             expr += (
-                block.status[i, o, t] - block.status[i, o, t - 1]
+                block.status[i, o, t] - _previous_status(block, i, o, t)
             ) * m.flows[i, o].nonconvex.minimum_uptime[t]
             expr += -sum(
                 block.status[i, o, u]
-- 
2.43.0


From 6b0c69303b9f7f1606411c81cdd2c4ce5ccb8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 02/51] fix: keep the initial status of flows with investment
 for its minimum time

---
 src/oemof/solph/flows/_invest_non_convex_flow_block.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 9d04efb..0622560 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -124,6 +124,12 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.status = Var(
             self.INVEST_NON_CONVEX_FLOWS, m.TIMESTEPS, within=Binary
         )
+        for i, o in self.INVEST_NON_CONVEX_FLOWS:
+            nonconvex = m.flows[i, o].nonconvex
+            if nonconvex.initial_status is not None:
+                for t in range(0, nonconvex.first_flexible_timestep):
+                    self.status[i, o, t] = nonconvex.initial_status
+                    self.status[i, o, t].fix()
 
         _shared.variables_for_non_convex_flows(self)
 
-- 
2.43.0


From eb84bdb7336ddf4104a0ec4e2020fbfcfc3bd478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 03/51] fix: enforce the minimum of investment flows that is
 zero at some steps

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 51f5ef9..9f1cd41 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -144,7 +144,11 @@ class InvestmentFlowBlock(ScalarBlock):
         )
 
         self.MIN_INVESTFLOWS = Set(
-            initialize=[(g[0], g[1]) for g in group if g[2].minimum.min() != 0]
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].minimum.min() != 0 or g[2].minimum.max() != 0
+            ]
         )
 
         self.EXISTING_INVESTFLOWS = Set(
-- 
2.43.0


From 9c29d3cc5998c9266f58a40044985d2039aaff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 04/51] fix: enforce a minimum level of invested storages at
 the last time point

---
 src/oemof/solph/components/_generic_storage.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index fa9b6f1..a63bf1c 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1513,11 +1513,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
         # sense to create an additional constraint if the lower bound is zero
         # for all time steps.
         self.MIN_INVESTSTORAGES = Set(
-            initialize=[
-                n
-                for n in group
-                if sum([n.min_storage_level[t] for t in m.TIMESTEPS]) > 0
-            ]
+            initialize=[n for n in group if n.min_storage_level.max() > 0]
         )
 
         self.OVERALL_MAXIMUM_INVESTSTORAGES = Set(
-- 
2.43.0


From c433f947ae50a722447cbb5c9c3c7ac886e772ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 05/51] fix: apply investment_limit to all blocks that have
 investment costs

---
 src/oemof/solph/constraints/investment_limit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index bbf5e83..cb3e9c1 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -35,9 +35,14 @@ def investment_limit(model, limit=None):
     def investment_rule(m):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        if hasattr(m.component("InvestmentFlowBlock"), "investment_costs"):
             expr += m.InvestmentFlowBlock.investment_costs
 
+        if hasattr(
+            m.component("InvestNonConvexFlowBlock"), "investment_costs"
+        ):
+            expr += m.InvestNonConvexFlowBlock.investment_costs
+
         if hasattr(m, "GenericInvestmentStorageBlock"):
             expr += m.GenericInvestmentStorageBlock.investment_costs
 
@@ -96,7 +101,9 @@ def investment_limit_per_period(model, limit=None):
     def investment_period_rule(m, p):
         expr = 0
 
-        if hasattr(m, "InvestmentFlowBlock"):
+        if hasattr(
+            m.component("InvestmentFlowBlock"), "period_investment_costs"
+        ):
             expr += m.InvestmentFlowBlock.period_investment_costs[p]
 
         if hasattr(m, "GenericInvestmentStorageBlock"):
-- 
2.43.0


From 0dcb66a2f3f37a868c72f2cc08abc906020cff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 06/51] fix: allow investments without custom properties next
 to additional_investment_flow_limit

---
 src/oemof/solph/constraints/investment_limit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index cb3e9c1..03da4db 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -211,6 +211,7 @@ def additional_investment_flow_limit(model, keyword, limit=None):
     for i, o in model.flows:
         if (
             model.flows[i, o].investment is not None
+            and model.flows[i, o].investment.custom_properties is not None
             and keyword in model.flows[i, o].investment.custom_properties
         ):
             investments[(i, o)] = model.flows[i, o].investment
-- 
2.43.0


From 4ae4550e70874f462e5d56d1d55c14fc998afbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 07/51] fix: count nonconvex investment flows in
 additional_investment_flow_limit

---
 src/oemof/solph/constraints/investment_limit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/constraints/investment_limit.py b/src/oemof/solph/constraints/investment_limit.py
index 03da4db..6eecee9 100644
--- a/src/oemof/solph/constraints/investment_limit.py
+++ b/src/oemof/solph/constraints/investment_limit.py
@@ -216,6 +216,11 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         ):
             investments[(i, o)] = model.flows[i, o].investment
 
+    def _invest(i, o, p):
+        if model.flows[i, o].nonconvex is None:
+            return model.InvestmentFlowBlock.invest[i, o, p]
+        return model.InvestNonConvexFlowBlock.invest[i, o, p]
+
     limit_name = "invest_limit_" + keyword
 
     setattr(
@@ -223,7 +228,7 @@ def additional_investment_flow_limit(model, keyword, limit=None):
         limit_name,
         po.Expression(
             expr=sum(
-                model.InvestmentFlowBlock.invest[i, o, p]
+                _invest(i, o, p)
                 * investments[i, o].custom_properties[keyword]
                 for (i, o) in investments
                 for p in model.PERIODS
-- 
2.43.0


From 77db8eccdf1cc0ea07112dce44042357c4ea6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 08/51] fix: do not reorder a decreasing time index when the
 last interval is inferred

---
 src/oemof/solph/_energy_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 46399d7..a30216c 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -108,7 +108,7 @@ class EnergySystem(es.EnergySystem):
                 if timeindex.freq is None:
                     timeindex.freq = pd.infer_freq(timeindex)
 
-                timeindex = timeindex.union(
+                timeindex = timeindex.append(
                     pd.date_range(
                         timeindex[-1] + timeindex.freq,
                         periods=1,
-- 
2.43.0


From e859e99aea27ad30811d9d557fc83963c45407cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 09/51] fix: charge yearly fixed costs of flows with a lifetime
 whatever the number of steps

---
 src/oemof/solph/flows/_simple_flow_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_simple_flow_block.py b/src/oemof/solph/flows/_simple_flow_block.py
index 696b870..d2bdedc 100644
--- a/src/oemof/solph/flows/_simple_flow_block.py
+++ b/src/oemof/solph/flows/_simple_flow_block.py
@@ -480,7 +480,7 @@ class SimpleFlowBlock(ScalarBlock):
 
             # Fixed costs for units with limited lifetime
             for i, o in self.LIFETIME_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if m.flows[i, o].fixed_costs is not None:
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime,
@@ -492,7 +492,7 @@ class SimpleFlowBlock(ScalarBlock):
                     )
 
             for i, o in self.LIFETIME_AGE_FLOWS:
-                if valid_sequence(m.flows[i, o].fixed_costs, len(m.TIMESTEPS)):
+                if m.flows[i, o].fixed_costs is not None:
                     range_limit = min(
                         m.es.end_year_of_optimization,
                         m.flows[i, o].lifetime - m.flows[i, o].age,
-- 
2.43.0


From bddd42df8a5474350adb67503ad82812c964fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 10/51] fix: apply the minimum flue gas losses of generic CHP
 units

---
 src/oemof/solph/components/_generic_chp.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/components/_generic_chp.py b/src/oemof/solph/components/_generic_chp.py
index 572b200..7bc9bca 100644
--- a/src/oemof/solph/components/_generic_chp.py
+++ b/src/oemof/solph/components/_generic_chp.py
@@ -492,8 +492,11 @@ class GenericCHPBlock(ScalarBlock):
         def _H_L_FG_min_rule(block, n, t):
             """Set min. flue gas loss as fuel flow share."""
             # minimum flue gas losses e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += -self.H_L_FG_min[n, t]
@@ -514,13 +517,19 @@ class GenericCHPBlock(ScalarBlock):
         def _Q_min_res_rule(block, n, t):
             """Set minimum Q depending on fuel and eletrical flow."""
             # minimum restriction for heat flows e.g. for motoric CHPs
-            if getattr(
-                list(n.fuel_input.values())[0], "H_L_FG_share_min", None
+            if (
+                list(n.fuel_input.values())[0].custom_properties.get(
+                    "H_L_FG_share_min"
+                )
+                is not None
             ):
                 expr = 0
                 expr += self.P[n, t] + self.Q[n, t] + self.H_L_FG_min[n, t]
                 expr += (
-                    list(n.heat_output.values())[0].Q_CW_min[t] * self.Y[n, t]
+                    list(n.heat_output.values())[0].custom_properties[
+                        "Q_CW_min"
+                    ][t]
+                    * self.Y[n, t]
                 )
                 expr += -self.H_F[n, t]
                 return expr >= 0
-- 
2.43.0


From ce905361326f6c9ccd7932e7d61747161fe56eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 11/51] fix: allow conversion functions that are not
 monotonically increasing

---
 .../experimental/_piecewise_linear_converter.py    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
index fad3b91..344b364 100644
--- a/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
+++ b/src/oemof/solph/components/experimental/_piecewise_linear_converter.py
@@ -164,17 +164,15 @@ class PiecewiseLinearConverterBlock(ScalarBlock):
             expr = n.conversion_function(x)
             return expr
 
-        # bounds are min/max of breakpoints
+        # bounds are min/max of breakpoints and of the values at these
         lower_bound_in = {n: min(n.in_breakpoints) for n in group}
         upper_bound_in = {n: max(n.in_breakpoints) for n in group}
-        lower_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in lower_bound_in.items()
-        }
-        upper_bound_out = {
-            n: n.conversion_function(bound)
-            for (n, bound) in upper_bound_in.items()
+        values_out = {
+            n: [n.conversion_function(x) for x in n.in_breakpoints]
+            for n in group
         }
+        lower_bound_out = {n: min(values_out[n]) for n in group}
+        upper_bound_out = {n: max(values_out[n]) for n in group}
 
         def get_inflow_bounds(model, n, t):
             return lower_bound_in[n], upper_bound_in[n]
-- 
2.43.0


From 9372d63c936561006807c94c46b595172b28989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 12/51] fix: check all values of a series given for a flow
 without capacity

---
 src/oemof/solph/flows/_flow.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/oemof/solph/flows/_flow.py b/src/oemof/solph/flows/_flow.py
index a293666..1e04a12 100644
--- a/src/oemof/solph/flows/_flow.py
+++ b/src/oemof/solph/flows/_flow.py
@@ -326,18 +326,22 @@ class Flow(Edge):
         }
         if self.investment is None and self.nominal_capacity is None:
             for attr in need_nominal_capacity:
-                if isinstance(getattr(self, attr), Iterable):
-                    the_attr = getattr(self, attr)[0]
+                the_attr = getattr(self, attr)
+                default = need_nominal_capacity_defaults[attr]
+                if isinstance(the_attr, Iterable):
+                    is_default = (
+                        the_attr.min() == default and the_attr.max() == default
+                    )
                 else:
-                    the_attr = getattr(self, attr)
-                if the_attr != need_nominal_capacity_defaults[attr]:
+                    is_default = the_attr == default
+                if not is_default:
                     raise AttributeError(
                         f"If {attr} is set in a flow, "
                         "nominal_capacity must be set as well."
                     )
 
         if self.nominal_capacity is not None and not math.isfinite(
-            self.maximum[0]
+            self.maximum.max()
         ):
             raise ValueError(infinite_error_msg.format("maximum"))
 
-- 
2.43.0


From 5646daf09bc03e159c74b23d76b6f01bf0b06683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 13/51] fix: check all values of a series given as investment
 limit or offset

---
 src/oemof/solph/_options.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_options.py b/src/oemof/solph/_options.py
index aebd550..858dd5e 100644
--- a/src/oemof/solph/_options.py
+++ b/src/oemof/solph/_options.py
@@ -151,7 +151,7 @@ class Investment:
 
     def _check_invest_attributes_maximum(self):
         """Throw an error if maximum is infinite and nonconvex is True"""
-        if (self.maximum[0] == float("+inf")) and (self.nonconvex is True):
+        if (self.maximum.max() == float("+inf")) and (self.nonconvex is True):
             e2 = (
                 "Please provide a maximum investment value in case of"
                 " nonconvex investment (nonconvex=True), which is in the"
@@ -164,7 +164,9 @@ class Investment:
 
     def _check_invest_attributes_offset(self):
         """Throw an error if offset is given without nonconvex=True"""
-        if (self.offset[0] != 0) and (self.nonconvex is False):
+        if (self.offset.min() != 0 or self.offset.max() != 0) and (
+            self.nonconvex is False
+        ):
             e3 = (
                 "If `nonconvex` is `False`, the `offset` parameter will be"
                 " ignored."
-- 
2.43.0


From 473640eaa673a81311e2ba9c948e25e84b6385a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 14/51] fix: refuse absolute losses in multi-period models
 whatever their first value

---
 src/oemof/solph/components/_generic_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index a63bf1c..714bdaa 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1448,7 +1448,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     "For a multi-period investment model, fixed absolute"
                     " losses are not supported. Please remove parameter."
                 )
-                if n.fixed_losses_absolute[0] != 0:
+                if n.fixed_losses_absolute.max() != 0:
                     raise ValueError(error_fixed_absolute_losses)
                 error_initial_storage_level = (
                     "For a multi-period model, initial_storage_level is"
-- 
2.43.0


From 576aad91c7f515ba0297ba5c939049646b37897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 15/51] fix: make dumped energy systems usable after restoring
 them

---
 src/oemof/solph/_energy_system.py | 38 +++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index a30216c..92ca040 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -17,14 +17,38 @@ SPDX-License-Identifier: MIT
 
 import collections
 import itertools
+import logging
 import warnings
 
+import dill
 import numpy as np
 import pandas as pd
+from oemof.network import Node
 from oemof.network import energy_system as es
 from oemof.tools import debugging
 
 
+def _labelled_node(cls, label):
+    """Create a node that can be hashed before its other attributes are set"""
+    node = cls.__new__(cls)
+    node._label = label
+    return node
+
+
+class _Pickler(dill.Pickler):
+    """Pickler for graphs of nodes
+
+    Nodes are hashed by their label and refer to each other in sets and as
+    keys of dictionaries. So, they need to have it when these are restored,
+    which can happen before the node itself is completely restored.
+    """
+
+    def reducer_override(self, obj):
+        if isinstance(obj, Node):
+            return _labelled_node, (type(obj), obj._label), vars(obj)
+        return NotImplemented
+
+
 class EnergySystem(es.EnergySystem):
     """A variant of the class EnergySystem from
     <oemof.network.network.energy_system.EnergySystem> specially tailored to
@@ -246,6 +270,20 @@ class EnergySystem(es.EnergySystem):
         else:
             self.end_year_of_optimization = 1
 
+    def dump(self, dpath=None, filename=None, consider_dpath=True):
+        """Dump an EnergySystem instance, see
+        :meth:`oemof.network.energy_system.EnergySystem.dump`.
+        """
+        filename = self._deprecated_path_handling(
+            dpath, filename, consider_dpath
+        )
+        with open(filename, "wb") as f:
+            _Pickler(f).dump(vars(self))
+
+        msg = f"Attributes dumped to {filename}."
+        logging.debug(msg)
+        return msg
+
     def _extract_periods_years(self):
         """Map years in optimization to respective period based on time indices
 
-- 
2.43.0


From 7f3e9a62fc513b0055cb5b30328c2a57b22d868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 16/51] fix: index results of models whose timeindex has no end
 point

---
 src/oemof/solph/_results.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index efb7309..7d17fcf 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -150,11 +150,15 @@ class Results:
 
             # overwrite known indexes
             index_type = tuple(dataset.index_set().subsets())[-1].name
+            timeindex = self._model.es.timeindex
+            # the index of a multi-period model has no end point
+            has_end = len(timeindex) != len(self._model.TIMESTEPS)
             match index_type:
                 case "TIMEPOINTS":
-                    rv.index = self._model.es.timeindex
+                    rv = rv if has_end else rv.iloc[:-1]
+                    rv.index = timeindex
                 case "TIMESTEPS":
-                    rv.index = self._model.es.timeindex[:-1]
+                    rv.index = timeindex[:-1] if has_end else timeindex
                 case _:
                     rv.index = rv.index.get_level_values(-1)
         else:
-- 
2.43.0


From a1a4aab8b7c92f646d1fd1e515765fca3adc3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 17/51] fix: report objective and costs as members of the
 results they are keys of

---
 src/oemof/solph/_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 7d17fcf..3af020b 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -328,4 +328,4 @@ class Results:
             return rv
 
     def __contains__(self, key: Hashable) -> bool:
-        return key in self._solver_results or key in self._variables
+        return key in self.keys()
-- 
2.43.0


From 48f8f88f70f9383f2b763fe46885fc38ab9ae74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 18/51] fix: weight reported variable costs like the objective
 does

---
 src/oemof/solph/_results.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 3af020b..656a633 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -273,6 +273,12 @@ class Results:
         # extract the the optimized flow values
         flow_values = self.get("flow", pd.DataFrame())
 
+        # same weighting of time steps as in the objective function
+        weights = [
+            self._model.objective_weighting[t] * self._model.tsam_weighting[t]
+            for t in range(len(flow_values))
+        ]
+
         for i, o in self._model.FLOWS:
             # access the variable costs of each flow
             variable_costs = self._model.flows[i, o].variable_costs
@@ -280,7 +286,10 @@ class Results:
             # map flows and variable costs and mulitply
             for col in flow_values.columns:
                 if col[0] == i and col[1] == o:
-                    opex = flow_values[col] * variable_costs
+                    opex = flow_values[col] * [
+                        weight * variable_costs[t]
+                        for t, weight in enumerate(weights)
+                    ]
                     df_opex[col] = opex
 
         return df_opex
-- 
2.43.0


From a5a3551700a50e0811b7c70dab77074b47fdd561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 19/51] fix: report investment costs of every period, offsets
 only if invested

---
 src/oemof/solph/_results.py | 38 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 656a633..00dee5a 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -224,16 +224,10 @@ class Results:
                         pass
                     else:
                         if col[0] == i and col[1] == o:
-                            invest_size = invest_values[col][0]
-
-                            investment_costs = (
-                                self._model.flows[i, o].investment.ep_costs[0]
-                                * invest_size
-                                + self._model.flows[i, o].investment.offset[0]
-                            )
-
                             # Save values to dictionary
-                            capex_data[col] = investment_costs
+                            capex_data[col] = self._investment_costs(
+                                self._model.flows[i, o].investment, col
+                            )
 
             else:
                 pass
@@ -250,22 +244,30 @@ class Results:
                 for col in invest_values.columns:
                     if isinstance(col, oemof.solph.components.GenericStorage):
                         if col == node:
-                            invest_size = invest_values[col][0]
-
-                            investment_costs = (
-                                node.investment.ep_costs[0] * invest_size
-                                + node.investment.offset[0]
-                            )
-
                             # Save values to dictionary
-                            capex_data[col] = investment_costs
+                            capex_data[col] = self._investment_costs(
+                                node.investment, col
+                            )
                     else:
                         pass
 
-        df_capex = pd.DataFrame([capex_data])
+        df_capex = pd.DataFrame(capex_data, index=invest_values.index)
 
         return df_capex
 
+    def _investment_costs(self, investment, key):
+        """Costs of the investment made in each period"""
+        invest_size = self["invest"][key]
+        investment_costs = invest_size * [
+            investment.ep_costs[p] for p in invest_size.index
+        ]
+        if investment.nonconvex:
+            # the offset is only paid if there is an investment
+            investment_costs += self["invest_status"][key] * [
+                investment.offset[p] for p in invest_size.index
+            ]
+        return investment_costs
+
     def _calc_variable_costs(self):
         self._economy_calculation_waring()
         df_opex = pd.DataFrame()
-- 
2.43.0


From 9681777e58c52b32c3204d1f0850c96e6ca1d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 20/51] fix: recognise scalar results of very short time series

---
 src/oemof/solph/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index db1439c..05b3516 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -152,6 +152,8 @@ def divide_scalars_sequences(df_dict, k):
     """
     try:
         condition = df_dict[k][:-1].isnull().any()
+        # in short time series, scalars do not differ in length
+        condition |= df_dict[k].columns.isin(PERIOD_INDEXES)
         scalars = df_dict[k].loc[:, condition].dropna().iloc[0]
         sequences = df_dict[k].loc[:, ~condition]
         return {"scalars": scalars, "sequences": sequences}
-- 
2.43.0


From 3467e2ab332529730896ba5d389291c17c96fc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 21/51] fix: put multi-period storage results on the time index

---
 src/oemof/solph/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 05b3516..7d8f670 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -203,6 +203,7 @@ def set_sequences_index(df, result_index):
             df.index = result_index
         except ValueError:
             raise ValueError("Results extraction failed!")
+    return df
 
 
 def results(model, remove_last_time_point=False):
@@ -436,10 +437,9 @@ def _extract_multi_period_model_result(
         sequences = df_dict[k].loc[
             :, [col for col in df_dict[k].columns if col not in period_cols]
         ]
-        if remove_last_time_point:
-            set_sequences_index(sequences, result_index[:-1])
-        else:
-            set_sequences_index(sequences, result_index)
+        # The result_index has no end point in a multi-period model,
+        # so the last time point is not included in any case.
+        sequences = set_sequences_index(sequences, result_index)
         if period_scalars.empty:
             period_scalars = pd.DataFrame(index=d.values())
         try:
-- 
2.43.0


From 62f1639bc9e5f8a89de9647736830790d8d9ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 22/51] fix: list the investment status with the other results
 per period

---
 src/oemof/solph/processing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 7d8f670..3d670f4 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -299,12 +299,10 @@ def results(model, remove_last_time_point=False):
 
     # Results extraction for a multi-period model
     else:
-        period_indexed = ["invest", "total", "old", "old_end", "old_exo"]
-
         result = _extract_multi_period_model_result(
             model,
             df_dict,
-            period_indexed,
+            list(PERIOD_INDEXES),
             result,
             result_index,
             remove_last_time_point,
-- 
2.43.0


From 34d220c5fffc73514503653c6eee247122577527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 23/51] fix: report the gap of problems whose optimum is zero

---
 src/oemof/solph/processing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 3d670f4..34d5de1 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -801,15 +801,15 @@ def meta_results(om, undefined=False):
                     meta_res[k1][k2] = msg.format(
                         type(om.es.results[k1][0][k2])
                     )
-    meta_res["problem"]["MIPGap"] = abs(
-        meta_res["problem"]["Upper bound"] - meta_res["problem"]["Lower bound"]
-    ) / (
-        abs(
-            meta_res["problem"]["Upper bound"]
-            + meta_res["problem"]["Lower bound"]
+    upper = meta_res["problem"]["Upper bound"]
+    lower = meta_res["problem"]["Lower bound"]
+    if upper == lower:
+        # also holds if both are zero
+        meta_res["problem"]["MIPGap"] = 0.0
+    else:
+        meta_res["problem"]["MIPGap"] = abs(upper - lower) / (
+            abs(upper + lower) / 2
         )
-        / 2
-    )
     return meta_res
 
 
-- 
2.43.0


From 185f7f48f165310273db8cfd92b546b48a3d37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 24/51] fix: allow minimum up- and down-times that exceed the
 horizon

---
 src/oemof/solph/flows/_invest_non_convex_flow_block.py | 5 ++++-
 src/oemof/solph/flows/_non_convex_flow_block.py        | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 0622560..a1cb70a 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -127,7 +127,10 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         for i, o in self.INVEST_NON_CONVEX_FLOWS:
             nonconvex = m.flows[i, o].nonconvex
             if nonconvex.initial_status is not None:
-                for t in range(0, nonconvex.first_flexible_timestep):
+                for t in range(
+                    0,
+                    min(nonconvex.first_flexible_timestep, len(m.TIMESTEPS)),
+                ):
                     self.status[i, o, t] = nonconvex.initial_status
                     self.status[i, o, t].fix()
 
diff --git a/src/oemof/solph/flows/_non_convex_flow_block.py b/src/oemof/solph/flows/_non_convex_flow_block.py
index ca63b5b..a809aa9 100644
--- a/src/oemof/solph/flows/_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_non_convex_flow_block.py
@@ -92,7 +92,11 @@ class NonConvexFlowBlock(ScalarBlock):
         for o, i in self.FIXED_CAPACITY_NONCONVEX_FLOWS:
             if m.flows[o, i].nonconvex.initial_status is not None:
                 for t in range(
-                    0, m.flows[o, i].nonconvex.first_flexible_timestep
+                    0,
+                    min(
+                        m.flows[o, i].nonconvex.first_flexible_timestep,
+                        len(m.TIMESTEPS),
+                    ),
                 ):
                     self.status[o, i, t] = m.flows[
                         o, i
-- 
2.43.0


From f37628e53156ef7de3e9b931d2cf93ccf542a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 25/51] fix: nodes with only values of their own have no
 outputs

---
 src/oemof/solph/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/views.py b/src/oemof/solph/views.py
index 904838e..ec649aa 100644
--- a/src/oemof/solph/views.py
+++ b/src/oemof/solph/views.py
@@ -182,9 +182,12 @@ def filter_nodes(results, option=NodeOption.All, exclude_busses=False):
     :obj:`set`
         A set of Nodes.
     """
-    node_from, node_to = map(lambda x: set(x) - {None}, zip(*results))
+    # entries of a node itself (node, None) do not belong to a flow
+    flows = [key for key in results if None not in key]
+    node_from = {key[0] for key in flows}
+    node_to = {key[1] for key in flows}
     if option == NodeOption.All:
-        nodes = node_from.union(node_to)
+        nodes = {node for key in results for node in key} - {None}
     elif option == NodeOption.HasOutputs:
         nodes = node_from
     elif option == NodeOption.HasInputs:
-- 
2.43.0


From b705c6b44b1a5678839c17d9362419bfea87764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 26/51] fix: process results with duals of systems without
 balanced buses

---
 src/oemof/solph/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 34d5de1..422adb9 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -310,7 +310,8 @@ def results(model, remove_last_time_point=False):
         scalars_col = "period_scalars"
 
     # add dual variables for bus constraints
-    if model.dual is not None:
+    # (there are none if no bus has to be balanced)
+    if model.dual is not None and hasattr(model.BusBlock, "balance"):
         grouped = groupby(
             sorted(model.BusBlock.balance.iterkeys()), lambda t: t[0]
         )
-- 
2.43.0


From 1f6efd4645679179cd24d4d59705d9afedfa9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 27/51] fix: add duals to buses that have other values as well

---
 src/oemof/solph/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 422adb9..90f7467 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -330,7 +330,7 @@ def results(model, remove_last_time_point=False):
                     scalars_col: pd.Series(dtype=float),
                 }
             else:
-                result[(bus, None)]["sequences"]["duals"] = duals
+                result[(bus, None)]["sequences"]["duals"] = df["duals"]
 
     return result
 
-- 
2.43.0


From 193b8bf30be6d2ccbfce76f0519605bde447d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 28/51] fix: list parameters of a node or flow that differ in
 length

---
 src/oemof/solph/processing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 90f7467..4f8f117 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -910,9 +910,14 @@ def __separate_attrs(
         if exclude_none:
             remove_nones(com_data)
 
+        sequences = com_data["sequences"]
+        if len({len(value) for value in sequences.values()}) > 1:
+            # e.g. one has values per time step, another one per period
+            sequences = {k: pd.Series(v) for k, v in sequences.items()}
+
         com_data = {
             "scalars": pd.Series(com_data["scalars"]),
-            "sequences": pd.DataFrame(com_data["sequences"]),
+            "sequences": pd.DataFrame(sequences),
         }
         return com_data
 
-- 
2.43.0


From a413736b63e91cd438a8ab2ffbdf3b2710eecfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:42 +0000
Subject: [PATCH 29/51] fix: list parameters of nodes that keep their flows
 under own names

---
 src/oemof/solph/processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 4f8f117..642f36a 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -27,6 +27,7 @@ from typing import Tuple
 
 import numpy as np
 import pandas as pd
+from oemof.network import Edge
 from oemof.network.network import Entity
 from pyomo.core.base.piecewise import IndexedPiecewise
 from pyomo.core.base.var import Var
@@ -929,6 +930,9 @@ def __separate_attrs(
             elif isinstance(value, _FakeSequence):
                 com["scalars"][ckey] = value.value
                 del com["sequences"][ckey]
+            elif isinstance(value, Edge):
+                # a flow is listed on its own, not with its node
+                del com["sequences"][ckey]
             elif len(value) == 0:
                 del com["sequences"][ckey]
 
-- 
2.43.0


From fdad1b9e2f29e648859f942fcdabba0a7a758d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 30/51] fix: results keep the values of their solution

---
 src/oemof/solph/_results.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/oemof/solph/_results.py b/src/oemof/solph/_results.py
index 00dee5a..0d1ab9d 100644
--- a/src/oemof/solph/_results.py
+++ b/src/oemof/solph/_results.py
@@ -75,6 +75,16 @@ class Results:
                     # We should avoid useless iterations.
                     pass
 
+        # The model might be changed or solved again later,
+        # but the results are those of the current solution.
+        self._values = {
+            key: {
+                occurence: variable.extract_values()
+                for occurence, variable in variables.items()
+            }
+            for key, variables in self._variables.items()
+        }
+
         # adss additional keys for the calculation of opex and capex
         # if the keyword eval_economy is True
         # checks if investment optimization is happing to add capex as key
@@ -134,9 +144,9 @@ class Results:
             for occurence in self._variables[key]:
                 dataset = self._variables[key][occurence]
                 rv.append(
-                    pd.DataFrame(dataset.extract_values(), index=[0]).stack(
-                        future_stack=True
-                    )
+                    pd.DataFrame(
+                        self._values[key][occurence], index=[0]
+                    ).stack(future_stack=True)
                 )
             # We assume that varables with the same name
             # also use the same index but have disjunct values on that index.
-- 
2.43.0


From d01f01f9d0db0e3d7c573f7169f318f607b486cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 31/51] fix: start-up costs of typical steps count for all
 steps they represent

---
 src/oemof/solph/flows/_shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index 0c6aadb..cf56e41 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -579,6 +579,7 @@ def startup_costs(block):
                 startup_costs += sum(
                     block.startup[i, o, t]
                     * m.flows[i, o].nonconvex.startup_costs[t]
+                    * m.tsam_weighting[t]
                     for t in m.TIMESTEPS
                 )
 
-- 
2.43.0


From 94a374ca872b3d5f2a66d1c1705e79500a4e0190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 32/51] fix: full load time of invested flows with aggregated
 time series

---
 src/oemof/solph/flows/_investment_flow_block.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/flows/_investment_flow_block.py b/src/oemof/solph/flows/_investment_flow_block.py
index 9f1cd41..0ddf074 100644
--- a/src/oemof/solph/flows/_investment_flow_block.py
+++ b/src/oemof/solph/flows/_investment_flow_block.py
@@ -681,7 +681,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) <= (
                 m.flows[i, o].full_load_time_max
                 * sum(self.total[i, o, p] for p in m.PERIODS)
@@ -698,7 +699,8 @@ class InvestmentFlowBlock(ScalarBlock):
             in investment case.
             """
             expr = sum(
-                m.flow[i, o, t] * m.timeincrement[t] for t in m.TIMESTEPS
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
             ) >= (
                 sum(self.total[i, o, p] for p in m.PERIODS)
                 * m.flows[i, o].full_load_time_min
-- 
2.43.0


From fb22811932fbad76855d88b96723e22b172a97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 33/51] fix: integral limits with aggregated time series

---
 src/oemof/solph/constraints/integral_limit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 679e17a..3f2b30d 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -165,6 +165,7 @@ def generic_integral_limit(
             expr=sum(
                 om.flow[i, o, t]
                 * om.timeincrement[t]
+                * om.tsam_weighting[t]
                 * sequence(flows[i, o].custom_properties[keyword])[t]
                 for (i, o) in flows
                 for t in om.TIMESTEPS
@@ -251,6 +252,7 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
         expr = sum(
             om.flow[i, o, t]
             * om.timeincrement[t]
+            * om.tsam_weighting[t]
             * sequence(flows[i, o].custom_properties[keyword])[t]
             for (i, o) in flows
             for t in m.TIMESTEPS_IN_PERIOD[p]
-- 
2.43.0


From 4ed06081fd8372c47d0d2ee67242c2c951ba99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 34/51] fix: time steps of aggregated periods that differ in
 length

---
 src/oemof/solph/_models.py                     | 13 +++++++++++--
 src/oemof/solph/components/_generic_storage.py |  8 ++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/oemof/solph/_models.py b/src/oemof/solph/_models.py
index 093eaeb..be3f369 100644
--- a/src/oemof/solph/_models.py
+++ b/src/oemof/solph/_models.py
@@ -514,14 +514,23 @@ class Model(po.ConcreteModel):
         return self
 
     def get_timestep_from_tsam_timestep(self, p, ik, g):
-        """Return original timestep from cluster-based timestep"""
+        """Return timestep of the model from cluster-based timestep"""
         t = (
-            p * len(self.TIMESTEPS_IN_PERIOD[p])
+            self.TIMESTEPS_IN_PERIOD[p][0]
             + ik * self.es.tsa_parameters[p]["timesteps"]
             + g
         )
         return t
 
+    def get_original_timestep(self, p, i, g):
+        """Return position of a timestep in the original (not aggregated)
+        sequence of timesteps
+        """
+        t = i * self.es.tsa_parameters[p]["timesteps"] + g
+        for params in self.es.tsa_parameters[:p]:
+            t += len(params["order"]) * params["timesteps"]
+        return t
+
     def get_cluster_index(self, cluster_type, offset):
         """
         Return cluster index for original or typical periods with or
diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 714bdaa..bb9f49a 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -652,7 +652,7 @@ class GenericStorageBlock(ScalarBlock):
             # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
+                    t = m.get_original_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
                     tk = m.get_timestep_from_tsam_timestep(p, k, g)
@@ -684,7 +684,7 @@ class GenericStorageBlock(ScalarBlock):
         def _storage_inter_maximum_level_rule(block):
             for n in self.STORAGES:
                 for p, i, g in m.TIMEINDEX_CLUSTER:
-                    t = m.get_timestep_from_tsam_timestep(p, i, g)
+                    t = m.get_original_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
                     tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
@@ -2164,7 +2164,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
             def _storage_inter_maximum_level_rule(block):
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
+                        t = m.get_original_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
                         tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
@@ -2198,7 +2198,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 # 57ec32561fb95e746c505760bd0d61c97d2fd2fb/FINE/storage.py#L1329
                 for n in self.INVESTSTORAGES:
                     for p, i, g in m.TIMEINDEX_CLUSTER:
-                        t = m.get_timestep_from_tsam_timestep(p, i, g)
+                        t = m.get_original_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
                         tk = m.get_timestep_from_tsam_timestep(p, k, g)
-- 
2.43.0


From afcc883dd998647c2c4fddfeb60da050163a8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 35/51] fix: storage losses within aggregated periods

---
 .../solph/components/_generic_storage.py      | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index bb9f49a..66b9067 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -428,6 +428,18 @@ class GenericStorage(Node):
             return GenericStorageBlock
 
 
+def _remaining_share(m, n, p, k, steps):
+    """
+    Share of the content at the beginning of a typical period that is not
+    lost within the first steps of this period
+    """
+    t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
+    return math.prod(
+        (1 - n.loss_rate[t]) ** m.timeincrement[t]
+        for t in range(t0, t0 + steps)
+    )
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -655,7 +667,6 @@ class GenericStorageBlock(ScalarBlock):
                     t = m.get_original_timestep(p, i, g)
                     lhs = n.nominal_storage_capacity * n.min_storage_level[t]
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -665,7 +676,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     rhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _remaining_share(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     self.storage_inter_minimum_level.add(
@@ -686,7 +697,6 @@ class GenericStorageBlock(ScalarBlock):
                 for p, i, g in m.TIMEINDEX_CLUSTER:
                     t = m.get_original_timestep(p, i, g)
                     k = m.es.tsa_parameters[p]["order"][i]
-                    tk = m.get_timestep_from_tsam_timestep(p, k, g)
                     inter_i = (
                         sum(
                             len(m.es.tsa_parameters[ip]["order"])
@@ -696,7 +706,7 @@ class GenericStorageBlock(ScalarBlock):
                     )
                     lhs = (
                         self.inter_storage_content[n, inter_i]
-                        * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                        * _remaining_share(m, n, p, k, g)
                         + self.intra_storage_delta[n, p, k, g]
                     )
                     rhs = n.nominal_storage_capacity * n.max_storage_level[t]
@@ -799,15 +809,8 @@ class GenericStorageBlock(ScalarBlock):
             k = m.es.tsa_parameters[p]["order"][ii]
 
             # Calculate inter losses over whole typical period
-            t0 = m.get_timestep_from_tsam_timestep(p, k, 0)
-            losses = math.prod(
-                (
-                    (1 - n.loss_rate[t0 + s])
-                    ** m.es.tsa_parameters[p]["segments"][(k, s)]
-                    if "segments" in m.es.tsa_parameters[p]
-                    else 1 - n.loss_rate[t0 + s]
-                )
-                for s in range(m.es.tsa_parameters[p]["timesteps"])
+            losses = _remaining_share(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
 
             expr = 0
@@ -1914,14 +1917,12 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     break
 
             k = m.es.tsa_parameters[p]["order"][ii]
-            t = m.get_timestep_from_tsam_timestep(
-                p, k, m.es.tsa_parameters[p]["timesteps"] - 1
+            losses = _remaining_share(
+                m, n, p, k, m.es.tsa_parameters[p]["timesteps"]
             )
             expr = 0
             expr += block.inter_storage_content[n, i + 1]
-            expr += -block.inter_storage_content[n, i] * (
-                1 - n.loss_rate[t]
-            ) ** (m.timeincrement[t] * m.es.tsa_parameters[p]["timesteps"])
+            expr += -block.inter_storage_content[n, i] * losses
             expr += -self.intra_storage_delta[
                 n, p, k, m.es.tsa_parameters[p]["timesteps"]
             ]
@@ -2166,7 +2167,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     for p, i, g in m.TIMEINDEX_CLUSTER:
                         t = m.get_original_timestep(p, i, g)
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2176,7 +2176,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         lhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _remaining_share(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         rhs = self.total[n, p] * n.max_storage_level[t]
@@ -2201,7 +2201,6 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         t = m.get_original_timestep(p, i, g)
                         lhs = self.total[n, p] * n.min_storage_level[t]
                         k = m.es.tsa_parameters[p]["order"][i]
-                        tk = m.get_timestep_from_tsam_timestep(p, k, g)
                         inter_i = (
                             sum(
                                 len(m.es.tsa_parameters[ip]["order"])
@@ -2211,7 +2210,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                         )
                         rhs = (
                             self.inter_storage_content[n, inter_i]
-                            * (1 - n.loss_rate[t]) ** (g * m.timeincrement[tk])
+                            * _remaining_share(m, n, p, k, g)
                             + self.intra_storage_delta[n, p, k, g]
                         )
                         self.storage_inter_minimum_level.add(
-- 
2.43.0


From d8d1d31e513eaac665df6162c8c0fd15b1d9cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 36/51] fix: initial content of invested storages with
 aggregated time series

---
 src/oemof/solph/components/_generic_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 66b9067..88292cc 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -1816,7 +1816,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs <= n.investment.existing + block.invest[n, 0]
 
             self.init_content_limit = Constraint(
@@ -1829,7 +1829,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                 if not m.TSAM_MODE:
                     lhs = block.storage_content[n, 0]
                 else:
-                    lhs = block.intra_storage_delta[n, 0, 0, 0]
+                    lhs = block.inter_storage_content[n, 0]
                 return lhs == n.initial_storage_level * (
                     n.investment.existing + block.invest[n, 0]
                 )
-- 
2.43.0


From 27eb3168c9018ae72012cce390f1a8456b4b1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 37/51] fix: final storage content with aggregated time series
 has no limit

---
 .../solph/components/_generic_storage.py      | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 88292cc..06ba340 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -656,6 +656,10 @@ class GenericStorageBlock(ScalarBlock):
                         n.initial_storage_level * n.nominal_storage_capacity
                     )
                     self.inter_storage_content[n, 0].fix()
+                # all other contents are limited within the periods
+                self.inter_storage_content[n, m.CLUSTERS_OFFSET.at(-1)].setub(
+                    n.nominal_storage_capacity
+                )
         #  ************* Constraints ***************************
 
         def _storage_inter_minimum_level_rule(block):
@@ -2217,6 +2221,25 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                             (n, p, i, g), lhs <= rhs
                         )
 
+            def _final_content_rule(block, n):
+                """
+                Rule definition for the content after the last period, all
+                other contents are limited within the periods.
+                """
+                p = m.PERIODS.at(-1)
+                k = m.es.tsa_parameters[p]["order"][-1]
+                steps = m.es.tsa_parameters[p]["timesteps"]
+                return (
+                    block.inter_storage_content[n, m.CLUSTERS_OFFSET.at(-2)]
+                    * _remaining_share(m, n, p, k, steps)
+                    + block.intra_storage_delta[n, p, k, steps]
+                    <= self.total[n, p]
+                )
+
+            self.final_content_limit = Constraint(
+                self.INVESTSTORAGES, rule=_final_content_rule
+            )
+
             self.storage_inter_minimum_level = Constraint(
                 self.INVESTSTORAGES, m.TIMEINDEX_CLUSTER, noruleinit=True
             )
-- 
2.43.0


From 068e1818a602127f326ede4bdafc43d420520d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 38/51] fix: storage costs with aggregated time series

---
 .../solph/components/_generic_storage.py      | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index 06ba340..e044e8a 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -440,6 +440,27 @@ def _remaining_share(m, n, p, k, steps):
     )
 
 
+def _aggregated_storage_costs(block, m, n):
+    """
+    Costs for the content after every timestep of the original (not
+    aggregated) sequence of timesteps
+    """
+    expr = 0
+    cluster = 0
+    for p in m.PERIODS:
+        params = m.es.tsa_parameters[p]
+        for k in params["order"]:
+            for g in range(params["timesteps"]):
+                t = m.get_timestep_from_tsam_timestep(p, k, g)
+                expr += n.storage_costs[t] * (
+                    block.inter_storage_content[n, cluster]
+                    * _remaining_share(m, n, p, k, g + 1)
+                    + block.intra_storage_delta[n, p, k, g + 1]
+                )
+            cluster += 1
+    return expr
+
+
 class GenericStorageBlock(ScalarBlock):
     r"""Storage without an :class:`.Investment` object.
 
@@ -950,11 +971,7 @@ class GenericStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
-                        )
+                    storage_costs += _aggregated_storage_costs(self, m, n)
 
         self.storage_costs = Expression(expr=storage_costs)
         self.costs = Expression(expr=storage_costs + fixed_costs)
@@ -2399,11 +2416,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                             self.storage_content[n, t + 1] * n.storage_costs[t]
                         )
                 else:
-                    for t in m.TIMESTEPS_ORIGINAL:
-                        storage_costs += (
-                            self.storage_content[n, t + 1]
-                            * n.storage_costs[t + 1]
-                        )
+                    storage_costs += _aggregated_storage_costs(self, m, n)
 
         self.storage_costs = Expression(expr=storage_costs)
 
-- 
2.43.0


From e17480d769880aa5cbea7a111601be307f2aa892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 39/51] fix: reported storage content with aggregated time
 series

The losses within a typical period have been read using the index of the
original period (and without its time increments).
---
 src/oemof/solph/processing.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 642f36a..767d876 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -285,7 +285,9 @@ def results(model, remove_last_time_point=False):
             result_index = model.es.timeindex
 
     if model.es.tsa_parameters is not None:
-        df_dict = _disaggregate_tsa_result(df_dict, model.es.tsa_parameters)
+        df_dict = _disaggregate_tsa_result(
+            df_dict, model.es.tsa_parameters, model.timeincrement
+        )
 
     # create final result dictionary by splitting up the dataframes in the
     # dataframe dict into a series for scalar data and dataframe for sequences
@@ -459,7 +461,7 @@ def _extract_multi_period_model_result(
     return result
 
 
-def _disaggregate_tsa_result(df_dict, tsa_parameters):
+def _disaggregate_tsa_result(df_dict, tsa_parameters, timeincrement=None):
     """
     Disaggregate timeseries aggregated by TSAM
 
@@ -541,7 +543,7 @@ def _disaggregate_tsa_result(df_dict, tsa_parameters):
     # Add storage SOC flows:
     for storage, soc in storages.items():
         flow_dict[(storage, None)] = _calculate_soc_from_inter_and_intra_soc(
-            soc, storage, tsa_parameters
+            soc, storage, tsa_parameters, timeincrement
         )
     # Add multiplexer boolean actives values:
     for multiplexer, values in multiplexer.items():
@@ -594,8 +596,14 @@ def _disaggregate_segmentation(
     return disaggregated_data
 
 
-def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
-    """Calculate resulting SOC from inter and intra SOC flows"""
+def _calculate_soc_from_inter_and_intra_soc(
+    soc, storage, tsa_parameters, timeincrement=None
+):
+    """Calculate resulting SOC from inter and intra SOC flows
+
+    The time increments hold one value for each time step of each typical
+    period. Without them, they are taken from the segments (if there are any).
+    """
     soc_frames = []
     i_offset = 0
     t_offset = 0
@@ -604,7 +612,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
             inter_value = soc["inter"].iloc[i_offset + i]["value"]
             # Self-discharge has to be taken into account for calculating
             # inter SOC for each timestep in cluster
-            t0 = t_offset + i * tsa_period["timesteps"]
+            t0 = t_offset + k * tsa_period["timesteps"]
             # Add last timesteps of simulation in order to interpolate SOC for
             # last segment correctly:
             is_last_timestep = (
@@ -620,11 +628,13 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
                 pd.Series(
                     itertools.accumulate(
                         (
-                            (
-                                (1 - storage.loss_rate[t])
-                                ** tsa_period["segments"][(k, t - t0)]
-                                if "segments" in tsa_period
-                                else 1 - storage.loss_rate[t]
+                            (1 - storage.loss_rate[t])
+                            ** (
+                                timeincrement[t]
+                                if timeincrement is not None
+                                else tsa_period.get("segments", {}).get(
+                                    (k, t - t0), 1
+                                )
                             )
                             for t in range(
                                 t0,
@@ -659,7 +669,7 @@ def _calculate_soc_from_inter_and_intra_soc(soc, storage, tsa_parameters):
 
             soc_frames.append(soc_frame)
         i_offset += len(tsa_period["order"])
-        t_offset += i_offset * tsa_period["timesteps"]
+        t_offset += len(tsa_period["occurrences"]) * tsa_period["timesteps"]
     soc_ts = pd.concat(soc_frames)
 
     soc_ts["timestep"] = range(len(soc_ts))
-- 
2.43.0


From 8aa1cd1ab5d5ec9731e12c387a7a166d05899e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 40/51] fix: results with aggregated time series keep their
 last time step

---
 src/oemof/solph/processing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 767d876..0f4944e 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -295,8 +295,13 @@ def results(model, remove_last_time_point=False):
 
     # Standard model results extraction
     if model.es.periods is None:
+        # Disaggregated results have no additional time point at the end
+        # that could be removed.
         result = _extract_standard_model_result(
-            df_dict, result, result_index, remove_last_time_point
+            df_dict,
+            result,
+            result_index,
+            remove_last_time_point and model.es.tsa_parameters is None,
         )
         scalars_col = "scalars"
 
-- 
2.43.0


From da18dd9a53d28128ba69d8f9b34522251809a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:41 +0000
Subject: [PATCH 41/51] fix: segments of aggregated time series may have any
 order

---
 src/oemof/solph/_energy_system.py | 8 +++++++-
 src/oemof/solph/processing.py     | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_energy_system.py b/src/oemof/solph/_energy_system.py
index 92ca040..e4dfa23 100644
--- a/src/oemof/solph/_energy_system.py
+++ b/src/oemof/solph/_energy_system.py
@@ -375,7 +375,13 @@ class EnergySystem(es.EnergySystem):
             # Concatenate segments from TSAM parameters to get timeincrement
             return list(
                 itertools.chain(
-                    *[params["segments"].values() for params in tsa_parameters]
+                    *[
+                        [
+                            params["segments"][segment]
+                            for segment in sorted(params["segments"])
+                        ]
+                        for params in tsa_parameters
+                    ]
                 )
             )
 
diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 0f4944e..1d909d5 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -590,7 +590,7 @@ def _disaggregate_segmentation(
         Added timesteps contain None values and are interpolated later.
     """
     current_segments = list(
-        v for ((k, s), v) in segments.items() if k == current_period
+        v for ((k, s), v) in sorted(segments.items()) if k == current_period
     )
     df.index = range(len(current_segments))
     segmented_index = itertools.chain.from_iterable(
-- 
2.43.0


From 51abbb1d648d8b2dc6a5f7734e715c4da975a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 42/51] fix: existing capacity counts for invested flows with
 on/off operation

---
 .../flows/_invest_non_convex_flow_block.py    | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index a1cb70a..15b2bfb 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -199,7 +199,8 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         The resulting constraint is equivalent to
 
         .. math::
-            status\_nominal(i,o,t) = Y_{status}(t) \cdot P_{invest}.
+            status\_nominal(i,o,t) = Y_{status}(t)
+            \cdot (P_{exist} + P_{invest}).
 
         However, :math:`status` and :math:`invest` are variables
         (binary and continuous, respectively).
@@ -221,10 +222,10 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         * Case :math:`status = 1`
             .. math::
                 (1) \Rightarrow \text{ trivially fulfilled},\\
-                (2) \Rightarrow status\_nominal \leq P_{invest},\\
-                (3) \Rightarrow status\_nominal \geq P_{invest}.
+                (2) \Rightarrow status\_nominal \leq P_{exist} + P_{invest},\\
+                (3) \Rightarrow status\_nominal \geq P_{exist} + P_{invest}.
 
-            So, in total :math:`status\_nominal = P_{invest}`,
+            So, in total :math:`status\_nominal = P_{exist} + P_{invest}`,
             which is the desired result.
         """
         self.invest_nc_one = self._linearised_investment_constraint_1()
@@ -235,13 +236,17 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. math::
             status\_nominal(i,o,t)
-            \leq Y_{status}(t) \cdot P_{invest, max}\quad (1)
+            \leq Y_{status}(t) \cdot (P_{exist} + P_{invest, max})\quad (1)
         """
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_one(_, i, o, p, t):
             expr = (
-                self.status[i, o, t] * m.flows[i, o].investment.maximum[p]
+                self.status[i, o, t]
+                * (
+                    m.flows[i, o].investment.existing
+                    + m.flows[i, o].investment.maximum[p]
+                )
                 >= self.status_nominal[i, o, t]
             )
             return expr
@@ -255,13 +260,16 @@ class InvestNonConvexFlowBlock(ScalarBlock):
     def _linearised_investment_constraint_2(self):
         r"""
         .. math::
-            status\_nominal(i,o,t) \leq P_{invest}\quad (2)
+            status\_nominal(i,o,t) \leq P_{exist} + P_{invest}\quad (2)
         """
 
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_two(_, i, o, p, t):
-            expr = self.invest[i, o, p] >= self.status_nominal[i, o, t]
+            expr = (
+                m.flows[i, o].investment.existing + self.invest[i, o, p]
+                >= self.status_nominal[i, o, t]
+            )
             return expr
 
         return Constraint(
@@ -274,16 +282,21 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         r"""
         .. math::
             status\_nominal(i,o,t) \geq
-            P_{invest} - (1 - Y_{status}(t)) \cdot P_{invest, max}\quad (3)
+            P_{exist} + P_{invest}
+            - (1 - Y_{status}(t)) \cdot (P_{exist} + P_{invest, max})\quad (3)
         """
 
         m = self.parent_block()
 
         def _linearization_rule_invest_non_convex_three(_, i, o, p, t):
             expr = (
-                self.invest[i, o, p]
+                m.flows[i, o].investment.existing
+                + self.invest[i, o, p]
                 - (1 - self.status[i, o, t])
-                * m.flows[i, o].investment.maximum[p]
+                * (
+                    m.flows[i, o].investment.existing
+                    + m.flows[i, o].investment.maximum[p]
+                )
                 <= self.status_nominal[i, o, t]
             )
             return expr
-- 
2.43.0


From c6d37e6f13575fa49fe757f611141bf28fe987c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 43/51] fix: profiles and full load times of invested flows
 with on/off operation

---
 .../flows/_invest_non_convex_flow_block.py    | 66 +++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/src/oemof/solph/flows/_invest_non_convex_flow_block.py b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
index 15b2bfb..334cb1c 100644
--- a/src/oemof/solph/flows/_invest_non_convex_flow_block.py
+++ b/src/oemof/solph/flows/_invest_non_convex_flow_block.py
@@ -92,6 +92,26 @@ class InvestNonConvexFlowBlock(ScalarBlock):
             ]
         )
 
+        self.FIXED_INVEST_NON_CONVEX_FLOWS = Set(
+            initialize=[(g[0], g[1]) for g in group if g[2].fix is not None]
+        )
+
+        self.FULL_LOAD_TIME_MAX_INVEST_NON_CONVEX_FLOWS = Set(
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].full_load_time_max is not None
+            ]
+        )
+
+        self.FULL_LOAD_TIME_MIN_INVEST_NON_CONVEX_FLOWS = Set(
+            initialize=[
+                (g[0], g[1])
+                for g in group
+                if g[2].full_load_time_min is not None
+            ]
+        )
+
         _shared.sets_for_non_convex_flows(self, group)
 
     def _create_variables(self):
@@ -193,6 +213,52 @@ class InvestNonConvexFlowBlock(ScalarBlock):
         self.max = _shared.maximum_flow_constraint(self)
 
         self._linearised_investment_constraints()
+        self._fix_and_full_load_time_constraints()
+
+    def _fix_and_full_load_time_constraints(self):
+        r"""
+        As for other invested flows, a fixed profile and full load times
+        refer to the capacity :math:`P_{exist} + P_{invest}`.
+        """
+        m = self.parent_block()
+
+        def _capacity(i, o, p):
+            return m.flows[i, o].investment.existing + self.invest[i, o, p]
+
+        def _energy(i, o):
+            return sum(
+                m.flow[i, o, t] * m.timeincrement[t] * m.tsam_weighting[t]
+                for t in m.TIMESTEPS
+            )
+
+        def _fixed_rule(_, i, o, p, t):
+            return (
+                m.flow[i, o, t] == _capacity(i, o, p) * m.flows[i, o].fix[t]
+            )
+
+        self.fixed = Constraint(
+            self.FIXED_INVEST_NON_CONVEX_FLOWS, m.TIMEINDEX, rule=_fixed_rule
+        )
+
+        def _full_load_time_max_rule(_, i, o):
+            return _energy(i, o) <= m.flows[i, o].full_load_time_max * sum(
+                _capacity(i, o, p) for p in m.PERIODS
+            )
+
+        self.full_load_time_max = Constraint(
+            self.FULL_LOAD_TIME_MAX_INVEST_NON_CONVEX_FLOWS,
+            rule=_full_load_time_max_rule,
+        )
+
+        def _full_load_time_min_rule(_, i, o):
+            return _energy(i, o) >= m.flows[i, o].full_load_time_min * sum(
+                _capacity(i, o, p) for p in m.PERIODS
+            )
+
+        self.full_load_time_min = Constraint(
+            self.FULL_LOAD_TIME_MIN_INVEST_NON_CONVEX_FLOWS,
+            rule=_full_load_time_min_rule,
+        )
 
     def _linearised_investment_constraints(self):
         r"""
-- 
2.43.0


From 0a25b4908ba9b3cd200deac298a2117a023886f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:40 +0000
Subject: [PATCH 44/51] fix: gradient limits of flows with on/off operation
 bind

---
 src/oemof/solph/flows/_shared.py | 45 +++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/oemof/solph/flows/_shared.py b/src/oemof/solph/flows/_shared.py
index cf56e41..8fbfb2e 100644
--- a/src/oemof/solph/flows/_shared.py
+++ b/src/oemof/solph/flows/_shared.py
@@ -398,16 +398,16 @@ def shared_constraints_for_non_convex_flows(block):
     positive_gradient_constraint
         .. math::
 
-            P(t) \cdot Y_{status}(t)
-            - P(t-1) \cdot Y_{status}(t-1)  \leq \
-            \dot{P}_{up}(t), \\
+            P(t) - P(t-1) \leq \
+            \dot{P}_{up}(t) \leq \
+            \dot{P}_{up, max}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     negative_gradient_constraint
         .. math::
-            P(t-1) \cdot Y_{status}(t-1)
-            - P(t) \cdot Y_{status}(t) \leq \
-            \dot{P}_{down}(t), \\
+            P(t-1) - P(t) \leq \
+            \dot{P}_{down}(t) \leq \
+            \dot{P}_{down, max}(t) \cdot P_{nom}, \\
             \forall t \in \textrm{TIMESTEPS}.
 
     Also creates:
@@ -428,6 +428,35 @@ def shared_constraints_for_non_convex_flows(block):
     block.min_uptime_constr = _min_uptime_constraint(block)
     block.min_downtime_constr = _min_downtime_constraint(block)
 
+    def _capacity(i, o, p):
+        if m.flows[i, o].investment is None:
+            return m.flows[i, o].nominal_capacity
+        return m.flows[i, o].investment.existing + block.invest[i, o, p]
+
+    def _positive_gradient_limit_rule(_, i, o, p, t):
+        return block.positive_gradient[i, o, t] <= (
+            m.flows[i, o].nonconvex.positive_gradient_limit[t]
+            * _capacity(i, o, p)
+        )
+
+    block.positive_gradient_limit_constr = Constraint(
+        block.POSITIVE_GRADIENT_FLOWS,
+        m.TIMEINDEX,
+        rule=_positive_gradient_limit_rule,
+    )
+
+    def _negative_gradient_limit_rule(_, i, o, p, t):
+        return block.negative_gradient[i, o, t] <= (
+            m.flows[i, o].nonconvex.negative_gradient_limit[t]
+            * _capacity(i, o, p)
+        )
+
+    block.negative_gradient_limit_constr = Constraint(
+        block.NEGATIVE_GRADIENT_FLOWS,
+        m.TIMEINDEX,
+        rule=_negative_gradient_limit_rule,
+    )
+
     def _positive_gradient_flow_constraint(_):
         r"""Rule definition for positive gradient constraint."""
         for i, o in block.POSITIVE_GRADIENT_FLOWS:
@@ -439,9 +468,7 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                         - m.flow[i, o, m.TIMESTEPS[index - 1]]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                     )
                     rhs = block.positive_gradient[i, o, m.TIMEINDEX[index][1]]
                     block.positive_gradient_constr.add(
@@ -482,13 +509,11 @@ def shared_constraints_for_non_convex_flows(block):
                             o,
                             m.TIMESTEPS[index - 1],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index - 1]]
                         - m.flow[
                             i,
                             o,
                             m.TIMESTEPS[index],
                         ]
-                        * block.status[i, o, m.TIMESTEPS[index]]
                     )
                     rhs = block.negative_gradient[i, o, m.TIMESTEPS[index]]
                     block.negative_gradient_constr.add(
-- 
2.43.0


From c6c1d63069b320c9745a6f5ae64f70773f458697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 45/51] fix: periodical limits of several keywords can be
 combined

---
 src/oemof/solph/constraints/integral_limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/constraints/integral_limit.py b/src/oemof/solph/constraints/integral_limit.py
index 3f2b30d..b28effc 100644
--- a/src/oemof/solph/constraints/integral_limit.py
+++ b/src/oemof/solph/constraints/integral_limit.py
@@ -260,10 +260,10 @@ def generic_periodical_integral_limit(om, keyword, flows=None, limit=None):
 
         return expr <= limit[p]
 
-    om.periodical_integral_limit = po.Constraint(
-        om.PERIODS,
-        rule=_periodical_integral_limit_rule,
-        name=limit_name + "_constraint",
+    setattr(
+        om,
+        limit_name + "_constraint",
+        po.Constraint(om.PERIODS, rule=_periodical_integral_limit_rule),
     )
 
     return om
-- 
2.43.0


From 98aad6b34eaecf445f62821c8708ef216866677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 46/51] fix: sequence accepts series longer than 256 values of
 the given length

---
 src/oemof/solph/_plumbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/_plumbing.py b/src/oemof/solph/_plumbing.py
index 4459b31..908639a 100644
--- a/src/oemof/solph/_plumbing.py
+++ b/src/oemof/solph/_plumbing.py
@@ -60,10 +60,10 @@ def sequence(iterable_or_scalar, length=None):
     if iterable_or_scalar is None:
         return None
     if isinstance(iterable_or_scalar, abc.Iterable):
-        if length and length is not len(iterable_or_scalar):
+        if length and length != len(iterable_or_scalar):
             raise ValueError(
                 f"Length mismatch: Cannot create sequence of length {length}"
-                + " from input {iterable_or_scalar}."
+                + f" from input {iterable_or_scalar}."
             )
         else:
             if isinstance(iterable_or_scalar, str):
-- 
2.43.0


From a73ecdeca20f45fd99e6d05e0aeb01e44d7a1f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 47/51] fix: part-load helpers respect a maximum load other
 than one

---
 src/oemof/solph/components/_offset_converter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 4c161b6..0e81916 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -527,7 +527,8 @@ def slope_offset_from_nonconvex_input(
             - \text{min} \cdot \eta_\text{at min}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \eta_\text{at,max} - \text{slope}
+        \text{offset} =
+        \left(\eta_\text{at max} - \text{slope}\right) \cdot \text{max}
 
     Parameters
     ----------
@@ -580,7 +581,7 @@ def slope_offset_from_nonconvex_input(
     slope = (max_load * eta_at_max - min_load * eta_at_min) / (
         max_load - min_load
     )
-    offset = eta_at_max - slope
+    offset = (eta_at_max - slope) * max_load
     return slope, offset
 
 
@@ -604,7 +605,9 @@ def slope_offset_from_nonconvex_output(
             - \frac{\text{min}}{\eta_\text{at min}}
         }{\text{max} - \text{min}}\\
 
-        \text{offset} = \frac{1}{\eta_\text{at,max}} - \text{slope}
+        \text{offset} =
+        \left(\frac{1}{\eta_\text{at max}} - \text{slope}\right)
+        \cdot \text{max}
 
     Parameters
     ----------
@@ -657,5 +660,5 @@ def slope_offset_from_nonconvex_output(
     slope = (max_load / eta_at_max - min_load / eta_at_min) / (
         max_load - min_load
     )
-    offset = 1 / eta_at_max - slope
+    offset = (1 / eta_at_max - slope) * max_load
     return slope, offset
-- 
2.43.0


From 9fe940022e0d4d45231dbd6611c0e704f7671cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:35 +0000
Subject: [PATCH 48/51] fix: series of coefficients of an OffsetConverter are
 used step by step

---
 src/oemof/solph/components/_offset_converter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/_offset_converter.py b/src/oemof/solph/components/_offset_converter.py
index 0e81916..24c52b8 100644
--- a/src/oemof/solph/components/_offset_converter.py
+++ b/src/oemof/solph/components/_offset_converter.py
@@ -282,10 +282,14 @@ class OffsetConverter(Node):
 
         input_bus = list(self.inputs.values())[0].input
         for flow in self.outputs.values():
-            if flow.maximum.size is not None:
-                target_len = flow.maximum.size
-            else:
-                target_len = 1
+            target_len = max(
+                [
+                    series.size
+                    for series in (flow.maximum, flow.minimum, *coefficients)
+                    if series.size is not None
+                ],
+                default=1,
+            )
 
             slope = []
             offset = []
-- 
2.43.0


From 58f7881393770055136e133c12b968e7b6a6ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:23 +0000
Subject: [PATCH 49/51] fix: limit the final content of invested storages in
 multi-period models

---
 src/oemof/solph/components/_generic_storage.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oemof/solph/components/_generic_storage.py b/src/oemof/solph/components/_generic_storage.py
index e044e8a..78ce6f7 100644
--- a/src/oemof/solph/components/_generic_storage.py
+++ b/src/oemof/solph/components/_generic_storage.py
@@ -2147,6 +2147,11 @@ class GenericInvestmentStorageBlock(ScalarBlock):
                     rule=_min_storage_content_invest_rule,
                 )
             else:
+                # The final content is limited as well as the ones before.
+                content_index = [
+                    *m.TIMEINDEX,
+                    (m.PERIODS.at(-1), m.TIMEPOINTS.at(-1)),
+                ]
 
                 def _max_storage_content_invest_rule(_, n, p, t):
                     """
@@ -2161,7 +2166,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
                 self.max_storage_content = Constraint(
                     self.INVESTSTORAGES,
-                    m.TIMEINDEX,
+                    content_index,
                     rule=_max_storage_content_invest_rule,
                 )
 
@@ -2178,7 +2183,7 @@ class GenericInvestmentStorageBlock(ScalarBlock):
 
                 self.min_storage_content = Constraint(
                     self.MIN_INVESTSTORAGES,
-                    m.TIMEINDEX,
+                    content_index,
                     rule=_min_storage_content_invest_rule,
                 )
         else:
-- 
2.43.0


From ac6ad17267fc48b35b9c02ff6808bae43439bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 50/51] fix: constants of the cavern of a GenericCAES only
 apply while it runs

Equations (20) and (21) multiply the constants by the status of the
compressor and the expander; without, a plant at rest changed its filling.
---
 src/oemof/solph/components/experimental/_generic_caes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oemof/solph/components/experimental/_generic_caes.py b/src/oemof/solph/components/experimental/_generic_caes.py
index 384ca90..a5c7868 100644
--- a/src/oemof/solph/components/experimental/_generic_caes.py
+++ b/src/oemof/solph/components/experimental/_generic_caes.py
@@ -212,8 +212,8 @@ class GenericCAESBlock(ScalarBlock):
              + b_{cas\_in}\cdot ST_{cmp}(t)
              \quad \forall t \in T \\
         &
-        (21) \quad\; \dot{E}_{cas\_out}(t) = m_{cas\_out}\cdot P_{cmp}(t)
-             + b_{cas\_out}\cdot ST_{cmp}(t)
+        (21) \quad\; \dot{E}_{cas\_out}(t) = m_{cas\_out}\cdot P_{exp}(t)
+             + b_{cas\_out}\cdot ST_{exp}(t)
              \quad \forall t \in T \\
         &
         (22) \quad\; \eta_{cas\_tmp} \cdot CAS_{fil}(t) = CAS_{fil}(t-1)
@@ -645,7 +645,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_in[n, t]
                 == n.params["cav_e_in_m"] * self.cmp_p[n, t]
-                + n.params["cav_e_in_b"]
+                + n.params["cav_e_in_b"] * self.cmp_st[n, t]
             )
 
         self.cav_e_in_constr = Constraint(
@@ -657,7 +657,7 @@ class GenericCAESBlock(ScalarBlock):
             return (
                 self.cav_e_out[n, t]
                 == n.params["cav_e_out_m"] * self.exp_p[n, t]
-                + n.params["cav_e_out_b"]
+                + n.params["cav_e_out_b"] * self.exp_st[n, t]
             )
 
         self.cav_e_out_constr = Constraint(
-- 
2.43.0


From 613e0d61ef7e6b91b3f140dbb1ebbdeae318a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:51 +0000
Subject: [PATCH 51/51] fix: storage_level_constraint works with aggregated
 time series

---
 src/oemof/solph/constraints/storage_level.py | 48 +++++++++-----------
 src/oemof/solph/processing.py                | 35 +++++++-------
 2 files changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/oemof/solph/constraints/storage_level.py b/src/oemof/solph/constraints/storage_level.py
index 5feba7f..b4c88dd 100644
--- a/src/oemof/solph/constraints/storage_level.py
+++ b/src/oemof/solph/constraints/storage_level.py
@@ -9,6 +9,8 @@ SPDX-License-Identifier: MIT
 
 from pyomo import environ as po
 
+from oemof.solph.components._generic_storage import _remaining_share
+
 
 def storage_level_constraint(
     model,
@@ -45,6 +47,22 @@ def storage_level_constraint(
     Verbose description can be found in https://arxiv.org/abs/2211.14080
     """
 
+    def _content(m, p, i, g):
+        """
+        Content of the storage g steps after the beginning of the i-th
+        (not aggregated) cluster of a period
+        """
+        k = m.es.tsa_parameters[p]["order"][i]
+        cluster = i + sum(
+            len(params["order"]) for params in m.es.tsa_parameters[:p]
+        )
+        block = m.GenericStorageBlock
+        return (
+            block.inter_storage_content[storage_component, cluster]
+            * _remaining_share(m, storage_component, p, k, g)
+            + block.intra_storage_delta[storage_component, p, k, g]
+        )
+
     def _outputs():
         OUTPUTS = po.Set(initialize=output_levels.keys())
         setattr(model, f"{name}_OUTPUTS", OUTPUTS)
@@ -126,21 +144,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for o in output_levels:
                     getattr(m, constraint_name).add(
                         (o, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content(m, p, i, g + 1)
                         / storage_component.nominal_storage_capacity
                         >= active_output[o, p, k, g] * output_levels[o],
                     )
@@ -164,7 +171,7 @@ def storage_level_constraint(
         def _constraint_output_rule(m, o, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[multiplexer_bus, o, p, t]
+                m.flow[multiplexer_bus, o, t]
                 / m.flows[multiplexer_bus, o].nominal_capacity
                 <= active_output[o, p, k, g]
             )
@@ -268,21 +275,10 @@ def storage_level_constraint(
             """
             for p, i, g in m.TIMEINDEX_CLUSTER:
                 k = m.es.tsa_parameters[p]["order"][i]
-                t = m.get_timestep_from_tsam_timestep(p, k, g)
-                tk = m.get_timestep_from_tsam_timestep(p, k, g)
                 for inp in input_levels:
                     getattr(m, constraint_name).add(
                         (inp, p, i, g),
-                        (
-                            m.GenericStorageBlock.intra_storage_delta[
-                                storage_component, p, k, g + 1
-                            ]
-                            + m.GenericStorageBlock.inter_storage_content[
-                                storage_component, i
-                            ]
-                            * (1 - storage_component.loss_rate[t])
-                            ** (g * m.timeincrement[tk])
-                        )
+                        _content(m, p, i, g)
                         / storage_component.nominal_storage_capacity
                         - input_levels[inp]
                         <= inactive_input[inp, p, k, g],
@@ -307,7 +303,7 @@ def storage_level_constraint(
         def _constraint_input_rule(m, i, p, k, g):
             t = m.get_timestep_from_tsam_timestep(p, k, g)
             return (
-                m.flow[i, multiplexer_bus, p, t]
+                m.flow[i, multiplexer_bus, t]
                 / m.flows[i, multiplexer_bus].nominal_capacity
                 <= 1 - inactive_input[i, p, k, g]
             )
diff --git a/src/oemof/solph/processing.py b/src/oemof/solph/processing.py
index 1d909d5..41c6416 100644
--- a/src/oemof/solph/processing.py
+++ b/src/oemof/solph/processing.py
@@ -686,21 +686,24 @@ def _calculate_soc_from_inter_and_intra_soc(
 
 def _calculate_multiplexer_actives(values, multiplexer, tsa_parameters):
     """Calculate multiplexer actives"""
-    actives_frames = []
-    for p, tsa_period in enumerate(tsa_parameters):
-        for i, k in enumerate(tsa_period["order"]):
-            timesteps = tsa_period["timesteps"]
-            actives_frames.append(
-                pd.DataFrame(
-                    values[(p, k)].iloc[0:timesteps], columns=["value"]
-                )
-            )
-    actives_frames_ts = pd.concat(actives_frames)
-    actives_frames_ts["variable_name"] = values[(p, k)][
-        "variable_name"
-    ].values[0]
-    actives_frames_ts["timestep"] = range(len(actives_frames_ts))
-    return actives_frames_ts
+    actives = []
+    variable_names = next(iter(values.values()))["variable_name"].unique()
+    for variable_name in variable_names:
+        actives_frames = []
+        for p, tsa_period in enumerate(tsa_parameters):
+            for k in tsa_period["order"]:
+                data = values[(p, k)]
+                data = data[data["variable_name"] == variable_name]
+                data = data.iloc[0 : tsa_period["timesteps"]]
+                if "segments" in tsa_period:
+                    data = _disaggregate_segmentation(
+                        data, tsa_period["segments"], k
+                    )
+                actives_frames.append(data[["variable_name", "value"]])
+        actives_ts = pd.concat(actives_frames).ffill()
+        actives_ts["timestep"] = range(len(actives_ts))
+        actives.append(actives_ts)
+    return pd.concat(actives)
 
 
 def _get_storage_soc_flows_and_keys(flow_dict):
@@ -739,7 +742,7 @@ def _get_multiplexer_flows_and_keys(flow_dict):
     for oemof_tuple, data in flow_dict.items():
         if oemof_tuple[1] is not None and not isinstance(oemof_tuple[1], int):
             continue
-        if "multiplexer_active" in data["variable_name"].values[0]:
+        if data["variable_name"].str.contains("_active_(?:in|out)put").any():
             multiplexer.setdefault(oemof_tuple[0], {})
             multiplexer_keys.append(oemof_tuple)
             multiplexer[oemof_tuple[0]][
-- 
2.43.0

