From 0ebc61253df9f9fe0a348195f1403fde1e0c377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 01/38] fix: trim removes reactions with an explicit order on
 an eliminated species

A reaction whose rate depends on an eliminated species that is not one of its
reactants (nonreactant-orders) was kept, so the reduced model could not be
constructed.
---
 src/pymars/reduce_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 9cd93ba..e701766 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -53,8 +53,11 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
             ):
                 continue
 
-        reaction_species = list(reaction.products.keys()) + list(
-            reaction.reactants.keys()
+        # species with a declared reaction order need not be reactants
+        reaction_species = (
+            list(reaction.products.keys())
+            + list(reaction.reactants.keys())
+            + list(reaction.orders.keys())
         )
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
-- 
2.43.0


From cf5b40b54eefd572c87b7f0b353cb5dc8c243685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 02/38] fix: trim writes loadable models when no third-body
 efficiency survives

When all species with an explicit efficiency were eliminated, the file written
for the reduced model still listed their efficiencies and could not be loaded.
---
 src/pymars/reduce_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index e701766..f9c28d2 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -62,11 +62,17 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
             if tb is not None:
-                tb.efficiencies = {
+                efficiencies = {
                     sp: val
                     for sp, val in tb.efficiencies.items()
                     if sp in final_species_names
                 }
+                if tb.efficiencies and not efficiencies:
+                    # For an empty dictionary Cantera would write the original
+                    # efficiencies, with species no longer in the model; state
+                    # the (unchanged) value of a remaining species instead.
+                    efficiencies = {final_species_names[0]: tb.default_efficiency}
+                tb.efficiencies = efficiencies
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From 8081975a9d0878e25809dc387c6d53f42d11f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 03/38] fix: compare_models treats missing transport data
 symmetrically

Species without transport data were ignored only when they belonged to the first
model; now also in the second.  Values are compared to rounding rather than by
the raw input entries, so that a model read back from its file is equivalent.
---
 src/pymars/tools.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..03cdfeb 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -51,22 +51,28 @@ def compare_models(model1, model2):
             if not np.isclose(sp1.thermo.s(T_ref), sp2.thermo.s(T_ref), rtol=1e-5):
                 return False
 
-        if hasattr(sp1, "transport") or hasattr(sp2, "transport"):
-            if hasattr(sp1, "transport") and hasattr(sp2, "transport"):
-                # iterate over transport parameters
-                params = [
-                    a
-                    for a in dir(sp1.transport)
-                    if not a.startswith("__")
-                    and not callable(getattr(sp1.transport, a))
-                ]
-                for attr in params:
-                    if getattr(sp1.transport, attr) != getattr(
-                        sp2.transport, attr, 0.0
-                    ):
-                        return False
-            else:
+        # transport is None for species without transport data, e.g., in models
+        # converted without a transport file; compare it if both models have it
+        if sp1.transport is not None and sp2.transport is not None:
+            if sp1.transport.geometry != sp2.transport.geometry:
                 return False
+            for attr in (
+                "diameter",
+                "well_depth",
+                "dipole",
+                "polarizability",
+                "rotational_relaxation",
+                "acentric_factor",
+                "dispersion_coefficient",
+                "quadrupole_polarizability",
+            ):
+                if not np.isclose(
+                    getattr(sp1.transport, attr),
+                    getattr(sp2.transport, attr),
+                    rtol=1e-9,
+                    atol=0.0,
+                ):
+                    return False
 
     for rxn1, rxn2 in zip(
         sorted(model1.reactions(), key=attrgetter("equation")),
-- 
2.43.0


From ec8c236f5696267c1c57ac0bc9ff5201669776ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 04/38] fix: compare_models compares temperature ranges and
 limits

Thermodynamic data were only evaluated at 500, 1000 and 2000 K, so that another
range of validity or reference pressure went unnoticed.
---
 src/pymars/tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 03cdfeb..ca07d30 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -43,7 +43,12 @@ def compare_models(model1, model2):
         if sp1.composition != sp2.composition:
             return False
 
-        for T_ref in (500.0, 1000.0, 2000.0):
+        for attr in ("min_temp", "max_temp", "reference_pressure"):
+            if not np.isclose(getattr(sp1.thermo, attr), getattr(sp2.thermo, attr)):
+                return False
+
+        T_limits = (sp1.thermo.min_temp, sp1.thermo.max_temp)
+        for T_ref in (500.0, 1000.0, 2000.0) + T_limits:
             if not np.isclose(sp1.thermo.cp(T_ref), sp2.thermo.cp(T_ref), rtol=1e-5):
                 return False
             if not np.isclose(sp1.thermo.h(T_ref), sp2.thermo.h(T_ref), rtol=1e-5):
-- 
2.43.0


From 1fd702660a82b805e05d57c5ced68635d5f3965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 05/38] fix: compare_models compares reversibility and explicit
 reaction orders

---
 src/pymars/tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index ca07d30..bbfda63 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -91,6 +91,13 @@ def compare_models(model1, model2):
         if rxn1.products != rxn2.products:
             return False
 
+        if rxn1.reversible != rxn2.reversible:
+            return False
+        if rxn1.orders.keys() != rxn2.orders.keys() or not all(
+            np.isclose(order, rxn2.orders[sp]) for sp, order in rxn1.orders.items()
+        ):
+            return False
+
         if rxn1.duplicate != rxn2.duplicate:
             return False
 
-- 
2.43.0


From 7f87a3d0c0b5a218a9f35cd41e3b9fd3f9ff54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 06/38] fix: compare_models answers for falloff and Chebyshev
 data of different size

Models with a different number of Troe or SRI parameters or of Chebyshev
coefficients raised a ValueError instead of being reported as different.
---
 src/pymars/tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index bbfda63..e1544e3 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -124,7 +124,11 @@ def compare_models(model1, model2):
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
-                    if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
+                    if len(rate1.falloff_coeffs) != len(rate2.falloff_coeffs):
+                        return False
+                    if not np.allclose(
+                        rate1.falloff_coeffs, rate2.falloff_coeffs, atol=0.0
+                    ):
                         return False
 
             # Plog: compare pressure-dependent rate table
@@ -155,6 +159,8 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
+                if np.shape(rate1.data) != np.shape(rate2.data):
+                    return False
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
-- 
2.43.0


From d8100161b26d26df1a572e3b6ae1bfc19c8dae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 07/38] fix: compare_models compares small rate parameters
 relatively

Pre-exponential factors below about 1e-8 (in SI units) always compared equal
because of the absolute tolerance of numpy.isclose.
---
 src/pymars/tools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index e1544e3..907d3f4 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -116,9 +116,13 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
+                    ):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
+                    ):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
@@ -149,7 +153,7 @@ def compare_models(model1, model2):
                         "activation_energy",
                     ):
                         if not np.isclose(
-                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
+                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
                         ):
                             return False
 
@@ -172,7 +176,7 @@ def compare_models(model1, model2):
                     "activation_energy",
                 ):
                     if not np.isclose(
-                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
+                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
                     ):
                         return False
 
-- 
2.43.0


From a758b86c6443a0113d08a387fffc864544a07d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 08/38] fix: compare_models pairs duplicate reactions whatever
 their order

Reactions were paired by sorting them by equation, so a model with duplicate
reactions differed from a copy that lists them in another order.
---
 src/pymars/tools.py | 248 ++++++++++++++++++++++++--------------------
 1 file changed, 138 insertions(+), 110 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 907d3f4..6fe2371 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -11,6 +11,133 @@ from cantera import ck2yaml
 from . import soln2ck
 
 
+def compare_reactions(rxn1, rxn2):
+    """Checks whether two Cantera reactions are equivalent.
+
+    Parameters
+    ----------
+    rxn1 : cantera.Reaction
+        First reaction
+    rxn2 : cantera.Reaction
+        Second reaction
+
+    Returns
+    -------
+    bool
+        ``True`` if reactions match, ``False`` if they disagree
+
+    """
+    if rxn1.reaction_type != rxn2.reaction_type:
+        return False
+
+    if rxn1.reactants != rxn2.reactants:
+        return False
+    if rxn1.products != rxn2.products:
+        return False
+
+    if rxn1.reversible != rxn2.reversible:
+        return False
+    if rxn1.orders.keys() != rxn2.orders.keys() or not all(
+        np.isclose(order, rxn2.orders[sp]) for sp, order in rxn1.orders.items()
+    ):
+        return False
+
+    if rxn1.duplicate != rxn2.duplicate:
+        return False
+
+    # Check primary rate object (present on all reactions in Cantera 3)
+    if hasattr(rxn1, "rate") and hasattr(rxn2, "rate"):
+        rate1, rate2 = rxn1.rate, rxn2.rate
+        if type(rate1) is not type(rate2):
+            return False
+
+        # Falloff / chemically-activated: compare low-pressure and high-pressure rates
+        if hasattr(rate1, "low_rate") and hasattr(rate2, "low_rate"):
+            lo1, lo2 = rate1.low_rate, rate2.low_rate
+            hi1, hi2 = rate1.high_rate, rate2.high_rate
+            for attr in (
+                "pre_exponential_factor",
+                "temperature_exponent",
+                "activation_energy",
+            ):
+                if not np.isclose(
+                    getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
+                ):
+                    return False
+                if not np.isclose(
+                    getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
+                ):
+                    return False
+            # falloff parameters (Troe, SRI, …)
+            if hasattr(rate1, "falloff_coeffs") and hasattr(
+                rate2, "falloff_coeffs"
+            ):
+                if len(rate1.falloff_coeffs) != len(rate2.falloff_coeffs):
+                    return False
+                if not np.allclose(
+                    rate1.falloff_coeffs, rate2.falloff_coeffs, atol=0.0
+                ):
+                    return False
+
+        # Plog: compare pressure-dependent rate table
+        elif hasattr(rate1, "rates") and hasattr(rate2, "rates"):
+            table1 = rate1.rates
+            table2 = rate2.rates
+            if len(table1) != len(table2):
+                return False
+            for (p1, r1), (p2, r2) in zip(
+                sorted(table1, key=lambda x: x[0]),
+                sorted(table2, key=lambda x: x[0]),
+            ):
+                if not np.isclose(p1, p2):
+                    return False
+                for attr in (
+                    "pre_exponential_factor",
+                    "temperature_exponent",
+                    "activation_energy",
+                ):
+                    if not np.isclose(
+                        getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
+                    ):
+                        return False
+
+        # Chebyshev: compare polynomial coefficients and ranges
+        elif hasattr(rate1, "data") and hasattr(rate2, "data"):
+            if not np.allclose(rate1.pressure_range, rate2.pressure_range):
+                return False
+            if not np.allclose(rate1.temperature_range, rate2.temperature_range):
+                return False
+            if np.shape(rate1.data) != np.shape(rate2.data):
+                return False
+            if not np.allclose(rate1.data, rate2.data):
+                return False
+
+        # Simple Arrhenius (Arrhenius / three-body-Arrhenius)
+        else:
+            for attr in (
+                "pre_exponential_factor",
+                "temperature_exponent",
+                "activation_energy",
+            ):
+                if not np.isclose(
+                    getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
+                ):
+                    return False
+
+    # Third-body efficiencies (Cantera 3: accessed via reaction.third_body)
+    tb1 = getattr(rxn1, "third_body", None)
+    tb2 = getattr(rxn2, "third_body", None)
+    if (tb1 is None) != (tb2 is None):
+        return False
+    if tb1 is not None and tb2 is not None:
+        if tb1.default_efficiency != tb2.default_efficiency:
+            return False
+        if tb1.efficiencies != tb2.efficiencies:
+            return False
+
+    return True
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -79,118 +206,19 @@ def compare_models(model1, model2):
                 ):
                     return False
 
-    for rxn1, rxn2 in zip(
-        sorted(model1.reactions(), key=attrgetter("equation")),
-        sorted(model2.reactions(), key=attrgetter("equation")),
-    ):
-        if rxn1.reaction_type != rxn2.reaction_type:
-            return False
-
-        if rxn1.reactants != rxn2.reactants:
-            return False
-        if rxn1.products != rxn2.products:
-            return False
-
-        if rxn1.reversible != rxn2.reversible:
-            return False
-        if rxn1.orders.keys() != rxn2.orders.keys() or not all(
-            np.isclose(order, rxn2.orders[sp]) for sp, order in rxn1.orders.items()
-        ):
+    # Reactions with the same equation (duplicates) may be listed in any order
+    candidates = {}
+    for rxn2 in model2.reactions():
+        candidates.setdefault(rxn2.equation, []).append(rxn2)
+
+    for rxn1 in model1.reactions():
+        for rxn2 in candidates.get(rxn1.equation, []):
+            if compare_reactions(rxn1, rxn2):
+                candidates[rxn1.equation].remove(rxn2)
+                break
+        else:
             return False
 
-        if rxn1.duplicate != rxn2.duplicate:
-            return False
-
-        # Check primary rate object (present on all reactions in Cantera 3)
-        if hasattr(rxn1, "rate") and hasattr(rxn2, "rate"):
-            rate1, rate2 = rxn1.rate, rxn2.rate
-            if type(rate1) is not type(rate2):
-                return False
-
-            # Falloff / chemically-activated: compare low-pressure and high-pressure rates
-            if hasattr(rate1, "low_rate") and hasattr(rate2, "low_rate"):
-                lo1, lo2 = rate1.low_rate, rate2.low_rate
-                hi1, hi2 = rate1.high_rate, rate2.high_rate
-                for attr in (
-                    "pre_exponential_factor",
-                    "temperature_exponent",
-                    "activation_energy",
-                ):
-                    if not np.isclose(
-                        getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
-                    ):
-                        return False
-                    if not np.isclose(
-                        getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
-                    ):
-                        return False
-                # falloff parameters (Troe, SRI, …)
-                if hasattr(rate1, "falloff_coeffs") and hasattr(
-                    rate2, "falloff_coeffs"
-                ):
-                    if len(rate1.falloff_coeffs) != len(rate2.falloff_coeffs):
-                        return False
-                    if not np.allclose(
-                        rate1.falloff_coeffs, rate2.falloff_coeffs, atol=0.0
-                    ):
-                        return False
-
-            # Plog: compare pressure-dependent rate table
-            elif hasattr(rate1, "rates") and hasattr(rate2, "rates"):
-                table1 = rate1.rates
-                table2 = rate2.rates
-                if len(table1) != len(table2):
-                    return False
-                for (p1, r1), (p2, r2) in zip(
-                    sorted(table1, key=lambda x: x[0]),
-                    sorted(table2, key=lambda x: x[0]),
-                ):
-                    if not np.isclose(p1, p2):
-                        return False
-                    for attr in (
-                        "pre_exponential_factor",
-                        "temperature_exponent",
-                        "activation_energy",
-                    ):
-                        if not np.isclose(
-                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
-                        ):
-                            return False
-
-            # Chebyshev: compare polynomial coefficients and ranges
-            elif hasattr(rate1, "data") and hasattr(rate2, "data"):
-                if not np.allclose(rate1.pressure_range, rate2.pressure_range):
-                    return False
-                if not np.allclose(rate1.temperature_range, rate2.temperature_range):
-                    return False
-                if np.shape(rate1.data) != np.shape(rate2.data):
-                    return False
-                if not np.allclose(rate1.data, rate2.data):
-                    return False
-
-            # Simple Arrhenius (Arrhenius / three-body-Arrhenius)
-            else:
-                for attr in (
-                    "pre_exponential_factor",
-                    "temperature_exponent",
-                    "activation_energy",
-                ):
-                    if not np.isclose(
-                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
-                    ):
-                        return False
-
-        # Third-body efficiencies (Cantera 3: accessed via reaction.third_body)
-        tb1 = getattr(rxn1, "third_body", None)
-        tb2 = getattr(rxn2, "third_body", None)
-        if (tb1 is None) != (tb2 is None):
-            return False
-        if tb1 is not None and tb2 is not None:
-            if tb1.default_efficiency != tb2.default_efficiency:
-                return False
-            if tb1.efficiencies != tb2.efficiencies:
-                return False
-
     return True
 
 
-- 
2.43.0


From 0c7aafb61164cf4d32b5ee55aa01f97128c5e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 09/38] fix: graph-based reductions end when no further species
 can be removed

If the smallest candidate still satisfied the error limit the threshold was
raised forever.  The branch for this case, which was never reached, passed the
ReducedModel container instead of its model to the YAML writer.
---
 src/pymars/drg.py   | 14 ++++++++++++--
 src/pymars/drgep.py | 14 ++++++++++++--
 src/pymars/pfa.py   | 14 ++++++++++++--
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..bce5f77 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -318,6 +318,9 @@ def run_drg(
     # start with detailed (starting) model
     previous_model = ReducedModel(model=solution, filename=model_file, error=0.0)
 
+    # above the largest coefficient, only targets and retained species are left
+    max_coefficient = max((np.max(matrix) for matrix in matrices), default=0.0)
+
     first = True
     error_current = 0.0
     threshold = 0.01
@@ -371,6 +374,10 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # no further species can be removed
+        if threshold - threshold_increment > max_coefficient:
+            break
+
     if error_current > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
@@ -390,9 +397,12 @@ def run_drg(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..1561bdc 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -457,6 +457,9 @@ def run_drgep(
     # start with detailed (starting) model
     previous_model = ReducedModel(model=solution, filename=model_file, error=0.0)
 
+    # above the largest coefficient, only targets and retained species are left
+    max_coefficient = max(importance_coeffs.values(), default=0.0)
+
     first = True
     error_current = 0.0
     threshold = 0.01
@@ -508,6 +511,10 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # no further species can be removed
+        if threshold - threshold_increment > max_coefficient:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
@@ -525,9 +532,12 @@ def run_drgep(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     if threshold_upper:
         for sp in reduced_model.model.species_names:
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..3459d87 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -344,6 +344,9 @@ def run_pfa(
     # start with detailed (starting) model
     previous_model = ReducedModel(model=solution, filename=model_file, error=0.0)
 
+    # above the largest coefficient, only targets and retained species are left
+    max_coefficient = max((np.max(matrix) for matrix in matrices), default=0.0)
+
     first = True
     error_current = 0.0
     threshold = 0.01
@@ -397,6 +400,10 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # no further species can be removed
+        if threshold - threshold_increment > max_coefficient:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
@@ -416,9 +423,12 @@ def run_pfa(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=filename)
 
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
-- 
2.43.0


From 5da2fde4d10cb08395a8560d721bbfc34a95a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 10/38] fix: run_drgep never removes target species

Targets have an importance of one and were removed, or listed as limbo species,
for thresholds above one.
---
 src/pymars/drgep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 1561bdc..182e69b 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -425,6 +425,11 @@ def run_drgep(
     solution = ct.Solution(model_file, phase_name)
     assert species_targets, "Need to specify at least one target species."
 
+    # targets are always retained, also at thresholds above their importance of one
+    species_safe = list(species_safe) + [
+        sp for sp in species_targets if sp not in species_safe
+    ]
+
     # first, sample thermochemical data and generate metrics for measuring error
     # (e.g, ignition delays). Also produce adjacency matrices for graphs, which
     # will be used to produce graphs for any threshold value.
-- 
2.43.0


From b9d47e77c0bcd068ce55ca6544d8330f4de153da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 11/38] fix: run_drgep does not add limbo species to a shared
 default list

The limbo species were appended to the default value of ReducedModel, so that
they showed up in the results of all later reductions of the same process.
---
 src/pymars/drgep.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 182e69b..56d0062 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -545,9 +545,12 @@ def run_drgep(
         reduced_model = reduced_model._replace(filename=filename)
 
     if threshold_upper:
-        for sp in reduced_model.model.species_names:
-            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+        limbo_species = [
+            sp
+            for sp in reduced_model.model.species_names
+            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe)
+        ]
+        reduced_model = reduced_model._replace(limbo_species=limbo_species)
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From 67335a0266bb7f22d3fdeaf12f40eb09c3bbe4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 12/38] fix: run_drg reports the species to be removed at the
 upper threshold as limbo

It reported the species selected at the upper threshold instead, which made the
sensitivity analysis examine the most important species (including targets).
---
 src/pymars/drg.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index bce5f77..78397f0 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -404,6 +404,17 @@ def run_drg(
         )
         reduced_model = reduced_model._replace(filename=filename)
 
+    if threshold_upper:
+        # limbo species are those not selected at the upper threshold
+        limbo_species = [
+            sp
+            for sp in reduced_model.model.species_names
+            if sp not in reduced_model.limbo_species
+            and sp not in species_targets
+            and sp not in species_safe
+        ]
+        reduced_model = reduced_model._replace(limbo_species=limbo_species)
+
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
     logging.info(
-- 
2.43.0


From c415c4a0ad34f7a0482a178e9087c33176a5dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 13/38] fix: PFA identifies limbo species with the upper
 threshold

The species selected at the (lower) threshold were excluded from the limbo
species, which were therefore always none, and the upper threshold given by the
user was not passed to the method.
---
 src/pymars/pfa.py    | 8 +++++---
 src/pymars/pymars.py | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 3459d87..6919fa2 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -247,9 +247,11 @@ def reduce_pfa(
     # If desired, now identify limbo species for future sensitivity analysis
     limbo_species = []
     if threshold_upper:
-        species_retained += trim_pfa(
-            matrix, solution.species_names, species_targets, threshold_upper
-        )
+        species_retained = []
+        for matrix in matrices:
+            species_retained += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
         limbo_species = [
             sp
             for sp in solution.species_names
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..1276fcd 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -255,6 +255,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From 81194975d687f8000415638df9aa145ed390086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 14/38] fix: no sensitivity analysis if a graph-based method
 finds no limbo species

An empty list makes the analysis consider all species, also those selected at
the upper threshold.
---
 src/pymars/pymars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 1276fcd..c4d2500 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -268,7 +268,10 @@ def main(
         error = reduced_model.error
         limbo_species = reduced_model.limbo_species
 
-    if run_sensitivity_analysis:
+    if run_sensitivity_analysis and method and upper_threshold and not limbo_species:
+        # an empty list would make the sensitivity analysis consider all species
+        logging.info("No limbo species for sensitivity analysis.")
+    elif run_sensitivity_analysis:
         if not sensitivity_type:
             sensitivity_type = "greedy"
 
-- 
2.43.0


From c81f4bfc52f370870304f8a923a72580944cd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 15/38] fix: greedy sensitivity analysis ends when all limbo
 species are removed

The minimum of the (then empty) list of induced errors raised a ValueError.
---
 src/pymars/sensitivity_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..6ae650e 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -255,7 +255,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if not species_limbo or min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From 8490ad96b311a72ef8efca160691612ba0ff611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 16/38] fix: run_sa returns the name of the file it wrote

The directory given as path was missing from the file name.
---
 src/pymars/sensitivity_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 6ae650e..30c314e 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -259,12 +259,16 @@ def run_sa(
                     break
 
     # Final model; may need to rewrite
+    reduced_model_filename = soln2yaml.write(
+        current_model.model,
+        f"reduced_{current_model.model.n_species}.yaml",
+        path=path,
+    )
     reduced_model = ReducedModel(
         model=current_model.model,
-        filename=f"reduced_{current_model.model.n_species}.yaml",
+        filename=reduced_model_filename,
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From 8c64c47d953a5b27e2cd99d2e74ee179e55bce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 17/38] fix: run_sa does not empty the list of limbo species
 passed to it

---
 src/pymars/sensitivity_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 30c314e..afa9a29 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -179,6 +179,8 @@ def run_sa(
         species_limbo = [
             sp for sp in current_model.model.species_names if sp not in species_safe
         ]
+    # species are removed from the list below; leave the list passed in intact
+    species_limbo = list(species_limbo)
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
-- 
2.43.0


From 72ed10cf42da3ddac1a71c05b1881226f2796bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:01 +0000
Subject: [PATCH 18/38] fix: sample_metrics runs the simulations when no
 samples are saved

With reuse_saved but without saved metrics of autoignition or flame cases, an
array of zeros was taken for the saved metrics.  A sensitivity analysis without
a preceding graph-based method compared candidates with these zeros.
---
 src/pymars/sampling.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..3516263 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -406,8 +406,6 @@ def sample_metrics(
 
     ignition_delays = np.array([])
     if ignition_conditions:
-        ignition_delays = np.zeros(len(ignition_conditions))
-
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
             ignition_delays = np.atleast_1d(
@@ -465,8 +463,6 @@ def sample_metrics(
 
     flame_speeds = np.array([])
     if flame_conditions:
-        flame_speeds = np.zeros(len(flame_conditions))
-
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
             flame_speeds = np.atleast_1d(
-- 
2.43.0


From 938de09a3d4377206bbf3478a7d56ca5476d4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:49 +0000
Subject: [PATCH 19/38] fix: soln2ck writes Troe falloff functions with three
 parameters

---
 src/pymars/soln2ck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..59188b2 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -128,10 +128,8 @@ def build_falloff(parameters, falloff_function):
 
     """
     if falloff_function == "Troe":
-        falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
-        )
+        # three or four parameters; T2 is optional
+        falloff_string = "TROE / " + "  ".join([f"{p}" for p in parameters]) + " /\n"
     elif falloff_function == "SRI":
         falloff_string = (
             "SRI / "
-- 
2.43.0


From f3c09e6ef1a42beff0eb1599da4a42e71314ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:33 +0000
Subject: [PATCH 20/38] fix: soln2ck converts units of Chebyshev rate
 coefficients

---
 src/pymars/soln2ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 59188b2..18d3cd2 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -397,7 +397,10 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                # coefficients give log10(k), so converting units shifts the first one
+                data = cheb.data.copy()
+                data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                for coeffs in data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From d915eecab0d8531bea359d66a0524cfc5048358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:09 +0000
Subject: [PATCH 21/38] fix: soln2ck separates long equations from their rate
 coefficients

---
 src/pymars/soln2ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 18d3cd2..8c22d5e 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -293,7 +293,7 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
-            reaction_string = f"{reaction.equation:<51}"
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From 00c4a996d8914be4668c148f34a4ecd76351c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:23 +0000
Subject: [PATCH 22/38] fix: soln2ck writes explicit reaction orders

---
 src/pymars/soln2ck.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 8c22d5e..4a4835c 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -295,18 +295,22 @@ def write(
             rxn_type = reaction.reaction_type
             reaction_string = f"{reaction.equation:<50} "
 
+            # explicit orders replace the stoichiometric coefficients of reactants
+            orders = {**reaction.reactants, **reaction.orders}
+            reaction_order = sum(orders.values())
+
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
             if rxn_type in ("Arrhenius", "three-body-Arrhenius"):
                 arrhenius = build_arrhenius(
-                    reaction.rate, sum(reaction.reactants.values()), rxn_type
+                    reaction.rate, reaction_order, rxn_type
                 )
 
             elif rxn_type.startswith("falloff-"):
                 # high-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -315,7 +319,7 @@ def write(
                 # low-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -326,7 +330,7 @@ def write(
             elif rxn_type == "pressure-dependent-Arrhenius":
                 arrhenius = build_arrhenius(
                     reaction.rate.rates[0][1],
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     "pressure-dependent-Arrhenius",
                 )
             else:
@@ -352,7 +356,7 @@ def write(
             if rxn_type.startswith("falloff-"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -367,7 +371,7 @@ def write(
             elif rxn_type.startswith("chemically-activated"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -384,7 +388,7 @@ def write(
                     pressure_str = f"{pressure / ct.one_atm}"
                     arrhenius = build_arrhenius(
                         rate,
-                        sum(reaction.reactants.values()),
+                        reaction_order,
                         "pressure-dependent-Arrhenius",
                     )
                     reaction_string += f"PLOG / {pressure_str} {arrhenius} /\n"
@@ -399,11 +403,14 @@ def write(
                 )
                 # coefficients give log10(k), so converting units shifts the first one
                 data = cheb.data.copy()
-                data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                data[0, 0] += 3 * (reaction_order - 1)
                 for coeffs in data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
+            for species_name, order in reaction.orders.items():
+                reaction_string += f"FORD / {species_name} {order} /\n"
+
             if reaction.duplicate:
                 reaction_string += "DUPLICATE\n"
 
-- 
2.43.0


From 4370de9efaec3dbe7366446eb05e51a24c22a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 23/38] fix: soln2ck writes default third-body efficiencies
 other than one

---
 src/pymars/soln2ck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 4a4835c..4438da4 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -346,6 +346,11 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                if tb.name == "M" and tb.default_efficiency != 1.0:
+                    # Chemkin has no default efficiency, so list those of all species
+                    reduced_efficiencies = {
+                        s: tb.efficiency(s) for s in solution.species_names
+                    }
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From 5650d05753845f8bc986f0a63e373b4064b5171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:14 +0000
Subject: [PATCH 24/38] fix: ignition cases may converge at the last allowed
 step

---
 src/pymars/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..56227aa 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -335,8 +335,7 @@ class IgnitionSimulation(BaseSimulation):
 
                     if residual < residual_threshold:
                         break
-
-                if step == self.max_steps - 1:
+                else:
                     logging.error(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
-- 
2.43.0


From d363343f4f4f5682b90ccb02d3586937d041c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 25/38] fix: ignition delay calculation ends at steady state

---
 src/pymars/simulation.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 56227aa..3450229 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -397,12 +397,34 @@ class IgnitionSimulation(BaseSimulation):
                     )
             else:
                 # otherwise, integrate until steady state, or maximum number of steps reached
+                # (see ``run_case``); time steps grow without limit at steady state
+                self.sim.reinitialize()
+                max_state_values = self.sim.get_state()
+                residual_threshold = 10.0 * self.sim.rtol
+                absolute_tolerance = self.sim.atol
+
                 for step in range(self.max_steps):
+                    previous_state = self.sim.get_state()
+
                     self._step()
                     if self.reac.T >= self.properties.temperature + 400.0:
                         self.ignition_delay = self.sim.time
                         break
-                if step == self.max_steps - 1:
+
+                    state = self.sim.get_state()
+                    max_state_values = np.maximum(max_state_values, state)
+                    residual = np.linalg.norm(
+                        (state - previous_state)
+                        / (max_state_values + absolute_tolerance)
+                    ) / np.sqrt(self.sim.n_vars)
+
+                    if residual < residual_threshold:
+                        logging.warning(
+                            "No ignition detected before steady state for "
+                            f"ignition case {self.idx}"
+                        )
+                        break
+                else:
                     logging.warning(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
-- 
2.43.0


From 5176366cea94fea3a482b7e062ec1041de921caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 26/38] fix: sampling covers fractions crossed between
 consecutive points

---
 src/pymars/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 3450229..ce1a5b9 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -125,9 +125,8 @@ class BaseSimulation(ABC):
 
         idx = 0
         for point in range(len(temperatures)):
-            if idx >= len(deltas):
-                break
-            if temperatures[point] >= temperature_initial + (
+            # temperature may cross multiple fractions between consecutive points
+            while idx < len(deltas) and temperatures[point] >= temperature_initial + (
                 deltas[idx] * temperature_diff
             ):
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
-- 
2.43.0


From cc5220f9b9419bcfdb9720b05938f7b77f959f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 27/38] fix: incomplete saved samples are ignored rather than
 aborting the run

---
 src/pymars/sampling.py | 58 +++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 3516263..d50e72f 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -305,6 +305,28 @@ def calculate_error(metrics_original, metrics_test):
     return error
 
 
+def _read_saved(filename):
+    """Read saved metrics or sampled data.
+
+    Parameters
+    ----------
+    filename : str
+        Name of file with comma-separated numbers
+
+    Returns
+    -------
+    numpy.ndarray
+        Contents of the file; empty if the file is incomplete (e.g., because an
+        earlier run was interrupted), so that it matches no cases.
+
+    """
+    try:
+        contents = np.loadtxt(filename, delimiter=",", ndmin=1)
+    except ValueError:
+        return np.array([])
+    return contents
+
+
 def read_metrics(ignition_conditions, psr_conditions=[], flame_conditions=[]):
     """Reads in stored already-sampled metrics.
 
@@ -408,9 +430,7 @@ def sample_metrics(
     if ignition_conditions:
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
-            ignition_delays = np.atleast_1d(
-                np.genfromtxt(data_files["output_ignition"], delimiter=",")
-            )
+            ignition_delays = _read_saved(data_files["output_ignition"])
 
         if reuse_saved and len(ignition_delays) == len(ignition_conditions):
             logging.info(
@@ -441,9 +461,7 @@ def sample_metrics(
 
         exists_output = os.path.isfile(data_files["output_psr"])
         if reuse_saved and exists_output:
-            psr_metrics = np.atleast_1d(
-                np.genfromtxt(data_files["output_psr"], delimiter=",")
-            )
+            psr_metrics = _read_saved(data_files["output_psr"])
 
         if reuse_saved and len(psr_metrics) == n_psr_metrics:
             logging.info("Reusing existing PSR samples for the starting model.")
@@ -465,9 +483,7 @@ def sample_metrics(
     if flame_conditions:
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
-            flame_speeds = np.atleast_1d(
-                np.genfromtxt(data_files["output_flame"], delimiter=",")
-            )
+            flame_speeds = _read_saved(data_files["output_flame"])
 
         if reuse_saved and len(flame_speeds) == len(flame_conditions):
             logging.info(
@@ -555,10 +571,8 @@ def sample(
         exists_data = os.path.isfile(data_files["data_ignition"])
         exists_output = os.path.isfile(data_files["output_ignition"])
         if exists_data and exists_output:
-            ignition_delays = np.genfromtxt(
-                data_files["output_ignition"], delimiter=","
-            )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_delays = _read_saved(data_files["output_ignition"])
+            ignition_data = _read_saved(data_files["data_ignition"])
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -567,7 +581,7 @@ def sample(
             # also check that expected data is right shape (e.g., in case number of species
             # has changed if running a new model)
             gas = ct.Solution(model, phase_name)
-            matches_shape = ignition_data.shape[1] == 2 + gas.n_species
+            matches_shape = ignition_data.shape[1:] == (2 + gas.n_species,)
 
         if matches_number and matches_shape:
             logging.info(
@@ -607,16 +621,14 @@ def sample(
         exists_data = os.path.isfile(data_files["data_psr"])
         exists_output = os.path.isfile(data_files["output_psr"])
         if exists_data and exists_output:
-            psr_metrics = np.atleast_1d(
-                np.genfromtxt(data_files["output_psr"], delimiter=",")
-            )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_metrics = _read_saved(data_files["output_psr"])
+            psr_data = _read_saved(data_files["data_psr"])
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
 
             gas = ct.Solution(model, phase_name)
-            matches_shape = psr_data.shape[1] == 2 + gas.n_species
+            matches_shape = psr_data.shape[1:] == (2 + gas.n_species,)
 
         if matches_number and matches_shape:
             logging.info("Reusing existing PSR samples for the starting model.")
@@ -652,10 +664,8 @@ def sample(
         exists_data = os.path.isfile(data_files["data_flame"])
         exists_output = os.path.isfile(data_files["output_flame"])
         if exists_data and exists_output:
-            flame_speeds = np.atleast_1d(
-                np.genfromtxt(data_files["output_flame"], delimiter=",")
-            )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_speeds = _read_saved(data_files["output_flame"])
+            flame_data = _read_saved(data_files["data_flame"])
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
@@ -664,7 +674,7 @@ def sample(
             # also check that expected data is right shape (e.g., in case number of species
             # has changed if running a new model)
             gas = ct.Solution(model, phase_name)
-            matches_shape = flame_data.shape[1] == 2 + gas.n_species
+            matches_shape = flame_data.shape[1:] == (2 + gas.n_species,)
 
         if matches_number and matches_shape:
             logging.info(
-- 
2.43.0


From 72ad427be8ed7702313c26eab7564cfe493f38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:14 +0000
Subject: [PATCH 28/38] fix: interrupted sampling does not pair new data with
 earlier metrics

---
 src/pymars/sampling.py | 46 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index d50e72f..c6309ff 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -327,6 +327,31 @@ def _read_saved(filename):
     return contents
 
 
+def _save_samples(data_file, data, output_file, metrics):
+    """Save sampled data and metrics, such that they always belong together.
+
+    Saved metrics are removed first and replaced last, so if the run is interrupted
+    in between there are no metrics of an earlier run next to the new data.
+
+    Parameters
+    ----------
+    data_file : str
+        Name of file for sampled data
+    data : numpy.ndarray
+        Sampled data
+    output_file : str
+        Name of file for metrics
+    metrics : numpy.ndarray
+        Metrics
+
+    """
+    if os.path.isfile(output_file):
+        os.remove(output_file)
+    np.savetxt(data_file, data, delimiter=",")
+    np.savetxt(output_file + ".tmp", metrics, delimiter=",")
+    os.replace(output_file + ".tmp", output_file)
+
+
 def read_metrics(ignition_conditions, psr_conditions=[], flame_conditions=[]):
     """Reads in stored already-sampled metrics.
 
@@ -604,8 +629,12 @@ def sample(
                 simulations, ignition_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_ignition"], ignition_data, delimiter=",")
-            np.savetxt(data_files["output_ignition"], ignition_delays, delimiter=",")
+            _save_samples(
+                data_files["data_ignition"],
+                ignition_data,
+                data_files["output_ignition"],
+                ignition_delays,
+            )
 
     # PSR cases contribute three metrics each (extinction residence time and the
     # two response temperatures) and ``num_sample_points`` sampled-state rows.
@@ -649,8 +678,9 @@ def sample(
                 simulations, psr_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_psr"], psr_data, delimiter=",")
-            np.savetxt(data_files["output_psr"], psr_metrics, delimiter=",")
+            _save_samples(
+                data_files["data_psr"], psr_data, data_files["output_psr"], psr_metrics
+            )
 
     flame_speeds = np.array([])
     flame_data = []
@@ -702,8 +732,12 @@ def sample(
                 simulations, flame_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_flame"], flame_data, delimiter=",")
-            np.savetxt(data_files["output_flame"], flame_speeds, delimiter=",")
+            _save_samples(
+                data_files["data_flame"],
+                flame_data,
+                data_files["output_flame"],
+                flame_speeds,
+            )
 
     # combine metrics and sampled data from all phenomena (ignition, PSR, flame)
     metric_arrays = [
-- 
2.43.0


From b16aaf5d3d59c9224f35ff88be286c175dec9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 29/38] fix: command line converts Chemkin models before
 parsing inputs

---
 src/pymars/pymars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index c4d2500..a7ff9e2 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -383,12 +383,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From 9c99f44f60c90a81cbec5ffab2ebf0252db2eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 30/38] fix: pymars parses the arguments it is given

---
 src/pymars/pymars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index a7ff9e2..32444e6 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -354,7 +354,7 @@ def pymars(argv):
         parser.print_help()
         sys.exit(1)
 
-    args = parser.parse_args()
+    args = parser.parse_args(argv)
 
     if args.version:
         from ._version import __version__
-- 
2.43.0


From 4a6ffda24935d105a83552a7215c12eb0ef33286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 31/38] fix: final threshold is the last accepted one

---
 src/pymars/drg.py   | 4 +++-
 src/pymars/drgep.py | 4 +++-
 src/pymars/pfa.py   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 78397f0..49f80c3 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -360,6 +360,8 @@ def run_drg(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -379,7 +381,7 @@ def run_drg(
             break
 
     if error_current > error_limit:
-        threshold -= 2 * threshold_increment
+        threshold = threshold_accepted
         reduced_model = reduce_drg(
             model_file,
             species_targets,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 56d0062..c1a362b 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -502,6 +502,8 @@ def run_drgep(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -521,7 +523,7 @@ def run_drgep(
             break
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
+        threshold = threshold_accepted
         reduced_model = reduce_drgep(
             model_file,
             species_safe,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 6919fa2..08e842a 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -388,6 +388,8 @@ def run_pfa(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -407,7 +409,7 @@ def run_pfa(
             break
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
+        threshold = threshold_accepted
         reduced_model = reduce_pfa(
             model_file,
             species_targets,
-- 
2.43.0


From 95e8a967033a9eb6ec823dcd60885f94ad5433c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 32/38] fix: sensitivity analysis stops if the starting model
 fails

---
 src/pymars/sensitivity_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index afa9a29..f87020d 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -174,6 +174,9 @@ def run_sa(
         num_threads=num_threads,
         path=path,
     )
+    # a case that fails for the starting model gives no basis for evaluating errors
+    if np.any(initial_metrics == 0.0):
+        raise RuntimeError("A simulation of the starting model failed: " + model_file)
 
     if not species_limbo:
         species_limbo = [
-- 
2.43.0


From 6e8443fbb022931f08506a444bdc8f956db074d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 33/38] fix: last sampled state is never left empty by rounding

---
 src/pymars/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index ce1a5b9..078862b 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -121,14 +121,16 @@ class BaseSimulation(ABC):
         temperature_initial = temperatures[0]
         temperature_diff = temperatures[-1] - temperature_initial
 
+        thresholds = temperature_initial + deltas * temperature_diff
+        # rounding must not put the last one beyond the end of the profile
+        thresholds[-1] = temperatures[-1]
+
         sampled_data = np.zeros((len(deltas), 2 + n_species))
 
         idx = 0
         for point in range(len(temperatures)):
             # temperature may cross multiple fractions between consecutive points
-            while idx < len(deltas) and temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
-            ):
+            while idx < len(deltas) and temperatures[point] >= thresholds[idx]:
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
                 idx += 1
-- 
2.43.0


From f65d1b63c44d30e403885fa1bff655764d33bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:25 +0000
Subject: [PATCH 34/38] fix: PSR burning branch is seeded where rounding limits
 the residual

---
 src/pymars/psr_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 49f2bf8..5018a42 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -74,7 +74,8 @@ def _damped_newton(residual, x0, tol=1.0e-9, maxit=50):
                 break
             lam *= 0.5
         else:
-            return u, False
+            # no further descent possible: rounding limits the residual
+            return u, nrm < tol * 1000
         u = u + lam * step
     return u, np.linalg.norm(residual(u)) < tol * 100
 
-- 
2.43.0


From f7f5c8c154ce5cdbb7f8c66e1cfcbd3ea449a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 35/38] fix: PSR continuation does not leave the burning branch

---
 src/pymars/psr_solver.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 5018a42..e18435e 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -42,6 +42,8 @@ PENALTY = 1.0e3
 #: applied only after the extinction fold, during a full ``stop_at_extinction=False``
 #: march toward the ignition turning point.
 DS_MAX_MIDDLE = 0.05
+#: Smallest cosine of the angle by which the curve may turn in one accepted step.
+MIN_ALIGNMENT = 0.98
 
 
 def _damped_newton(residual, x0, tol=1.0e-9, maxit=50):
@@ -136,7 +138,7 @@ def trace_extinction_curve(
     gas,
     stop_at_extinction=True,
     ds0=0.10,
-    ds_min=1.0e-3,
+    ds_min=1.0e-6,
     ds_max=0.4,
     tau_start=1.0,
     tau_second=0.5,
@@ -274,9 +276,17 @@ def trace_extinction_curve(
     n_folds = 0
     i_ext = None
 
-    for _ in range(max_steps):
-        tangent = (u_prev - u_pp) / np.linalg.norm(u_prev - u_pp)
+    def tangent_at(u, direction):
+        # unit tangent of the curve at ``u``, oriented along ``direction``
+        system = np.vstack([core_jac(u), direction])
+        try:
+            solution = np.linalg.solve(system, np.eye(u.size)[-1])
+        except np.linalg.LinAlgError:
+            solution = direction
+        return solution / np.linalg.norm(solution)
 
+    tangent = tangent_at(u_prev, u_prev - u_pp)
+    for _ in range(max_steps):
         new_sign = np.sign(tangent[sigma])
         if new_sign != 0.0 and new_sign != sigma_sign:
             sigma_sign = new_sign
@@ -300,6 +310,12 @@ def trace_extinction_curve(
             return np.vstack([core_jac(u), _t])
 
         u_new, ok = correct(augmented_res, augmented_jac, u_prev + ds * tangent)
+        if ok:
+            # the corrector may find a point of another branch, such as the
+            # extinguished one; the curve does not turn that much within a step
+            tangent_new = tangent_at(u_new, tangent)
+            chord = (u_new - u_prev) / np.linalg.norm(u_new - u_prev)
+            ok = min(np.dot(tangent, tangent_new), np.dot(tangent, chord)) > MIN_ALIGNMENT
         if not ok:
             ds *= 0.5
             if ds < ds_min:
@@ -311,7 +327,7 @@ def trace_extinction_curve(
         temps.append(T_new)
         states.append(Y_new.copy())
 
-        u_pp, u_prev = u_prev, u_new
+        u_prev, tangent = u_new, tangent_new
         ds = min(ds * 1.2, ds_cap)
 
     if i_ext is None:
-- 
2.43.0


From d590aa873c5bfa3a199d17e95a88b8d0cf538a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:57 +0000
Subject: [PATCH 36/38] fix: PSR burning branch is seeded from the transient
 reactor if needed

---
 src/pymars/psr_solver.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index e18435e..acfb154 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -31,6 +31,7 @@ finite-difference damped Newton when needed.
 
 import numpy as np
 import cantera as ct
+from scipy.integrate import solve_ivp
 from scipy.optimize import root
 
 #: Temperature scale (K) used to nondimensionalize the unknown vector.
@@ -243,10 +244,28 @@ def trace_extinction_curve(
             return sol.x, True
         return _damped_newton(res, x0)  # fall back to FD damped Newton
 
+    def settle(tau, x):
+        # follow the transient reactor from ``x`` for many residence times
+        def rate(_, x):
+            residual = core_res_phys(x[:-1], x[-1], tau)
+            Y_rate = -residual[:-1] / tau
+            h_rate = -residual[-1] * h_scale / tau
+            h_k = gas.partial_molar_enthalpies / Wk
+            return np.append(Y_rate, (h_rate - np.dot(h_k, Y_rate)) / gas.cp_mass)
+
+        solution = solve_ivp(
+            rate, (0.0, 50.0 * tau), x, method="BDF", rtol=1e-6, atol=1e-12
+        )
+        return solution.y[:, -1]
+
     # ---- seed the burning branch from adiabatic equilibrium ----
+    T_in = gas.T
     gas.equilibrate("HP")
     guess = np.concatenate([gas.Y, [gas.T]])
     x0, ok0 = solve_fixed_tau(tau_start, guess)
+    if not ok0 or x0[-1] < 0.5 * (T_in + guess[-1]):
+        # the steady state may be far from equilibrium, e.g. for rich mixtures
+        x0, ok0 = solve_fixed_tau(tau_start, settle(tau_start, guess))
     x1, ok1 = solve_fixed_tau(tau_second, x0)
     if not (ok0 and ok1):
         raise RuntimeError("PSR: failed to seed the burning branch")
-- 
2.43.0


From 541f18d744ff052e86f36d9f8095b594ae753b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:00 +0000
Subject: [PATCH 37/38] fix: PSR burning branch is not confused with the
 unstable one

---
 src/pymars/psr_solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index acfb154..f81427f 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -259,12 +259,12 @@ def trace_extinction_curve(
         return solution.y[:, -1]
 
     # ---- seed the burning branch from adiabatic equilibrium ----
-    T_in = gas.T
     gas.equilibrate("HP")
     guess = np.concatenate([gas.Y, [gas.T]])
     x0, ok0 = solve_fixed_tau(tau_start, guess)
-    if not ok0 or x0[-1] < 0.5 * (T_in + guess[-1]):
-        # the steady state may be far from equilibrium, e.g. for rich mixtures
+    if not ok0 or x0[-1] < 0.9 * guess[-1]:
+        # the steady state may be far from equilibrium, e.g. for rich mixtures, and
+        # a colder solution may belong to another branch
         x0, ok0 = solve_fixed_tau(tau_start, settle(tau_start, guess))
     x1, ok1 = solve_fixed_tau(tau_second, x0)
     if not (ok0 and ok1):
-- 
2.43.0


From e742030a40f0355e2e34b30a06ed8b685a7370d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:40 +0000
Subject: [PATCH 38/38] fix: parsing inputs does not add to the caller's list
 of retained species

---
 src/pymars/pymars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 32444e6..5c7c484 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -89,7 +89,8 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    # species are added to the list below; leave the one passed in intact
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0

