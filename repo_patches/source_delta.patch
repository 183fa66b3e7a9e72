From 8faa8449c141bdab225d1862397acfab68f2a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 01/34] fix: keep memoized results per solver instance

---
 scaks/descriptors/descriptors.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..eda2af3 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -377,24 +377,27 @@ class Memoized(object):
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        # Results depend on the state of the instance, so each instance
+        # has its own cache.
+        return lambda **kwargs: self.__call(instance, **kwargs)
+
+    def __call(self, instance, **kwargs):
+        cache_name = "_memoized_{}".format(self.func.__name__)
+        results = instance.__dict__.setdefault(cache_name, {})
 
-    def __call__(self, **kwargs):
         # Make all arguments hashable.
         key = make_hashable(kwargs)
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
         if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+            key["relative_energies"] = make_hashable(instance._owner.relative_energies)
 
         try:
-            return self.results[key]
+            return results[key]
         except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+            results[key] = self.func(instance, **kwargs)
+            return results[key]
 
-- 
2.43.0


From bc2f4f3c5d36f134e077919bc3567267fcb5ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 02/34] fix: do not share mutable attribute defaults between
 models

---
 scaks/descriptors/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index eda2af3..18ec988 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -30,7 +30,7 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From 4823f41abe8cb9acd86902da98eb52ff7d576345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 03/34] fix: no doubled * between factors when differentiating
 mixed terms

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..1cfb6cc 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -375,7 +375,7 @@ class SteadyStateSolver(MeanFieldSolver):
             regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
-                site_part = m.group(1) + '*' + m.group(6)
+                site_part = m.group(1) + m.group(6)
             else:
                 site_part = m.group(1)
             adsorbate_part = m.group(2) + m.group(3)
-- 
2.43.0


From 483701e6456f6b917bcb91658c9bb9f8c6449c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 04/34] fix: parenthesise two-part derivatives in Jacobian
 entries

---
 scaks/solvers/steady_state_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 1cfb6cc..e1bd1a6 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -429,6 +429,9 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Combine 2 lists.
         derived_poly_list = []
+        # A derived term of two parts must be kept together behind a minus.
+        derived_terms = ['(' + term + ')' if ' + ' in term else term
+                         for term in derived_terms]
         for combination in zip(derived_terms, operators):
             derived_poly_list += list(combination)
         derived_poly_list.append(derived_terms[-1])
-- 
2.43.0


From 25d67bd4fb22ed428e6155316c554421dd3d213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 05/34] fix: differentiate powers of more than one digit

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index e1bd1a6..f9eaf9c 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -265,7 +265,7 @@ class SteadyStateSolver(MeanFieldSolver):
         if '*' in adsorbate_name:
             adsorbate_name = '\\' + adsorbate_name
 
-        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+        regex = r"((.*)\*|)(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
         #r"(.*)\*(theta\['CO_s'\])(\*\*(\d)|)(\*(.*)|)"
         ###########################################################
         # group(1) -> ((.*)\*|), group(2) -> (.*)                 #
@@ -372,7 +372,7 @@ class SteadyStateSolver(MeanFieldSolver):
         # If contains both.
         if (site_name in sites_list) and (theta(adsorbate_name) in term_expression):
             #split two parts
-            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d)|)(\*(.*)|)"
+            regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
             if m.group(6):
                 site_part = m.group(1) + m.group(6)
-- 
2.43.0


From a4123d45aae255d26831b528ea6f7565ac88bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 06/34] fix: use the net stoichiometry of an adsorbate in
 dtheta/dt

---
 scaks/solvers/steady_state_solver.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f9eaf9c..e232bc0 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,28 +133,22 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
-
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
-
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # Net number of adsorbates produced by the reaction.
+        produced, consumed = [sum([formula.stoichiometry() for formula in formula_list
+                                   if formula.species_site() == adsorbate_name])
+                              for formula_list in (elementary_rxn_list[-1],
+                                                   elementary_rxn_list[0])]
+        stoichiometry = abs(produced - consumed)
+
+        # If the reaction does not change the adsorbate, stop.
+        if stoichiometry == 0:
             return
 
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
+        if consumed > produced:
             if stoichiometry == 1:
                 increase_rate, decrease_rate = r_expr, f_expr
             else:
@@ -193,7 +187,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 dtheta_dt_expression_list.append(single_dtheta_dt)
 
         # Join the expressions.
-        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list)
+        dtheta_dt_expression = ' + '.join(dtheta_dt_expression_list) or '0.0'
 
         return dtheta_dt_expression
         # }}}
-- 
2.43.0


From fda571a93970a165ba72bd588e778abe1e6eda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 07/34] fix: symbolic Jacobian for any number of adsorbates

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index e232bc0..2bb48ef 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -621,7 +621,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -651,7 +651,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From a7b382ab67c382ee7d43c30007a3504ee2c88e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 08/34] fix: report the residual of a good guess for the
 energies in use

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 2bb48ef..4063430 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -806,7 +806,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = self.get_residual(c0, relative_energies)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From acc3a7a33fa4de0b993535c9f03ed624dd3a16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/34] fix: look up liquid concentrations by name

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..dfd5f9d 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -989,7 +989,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
-- 
2.43.0


From 0ad68e0a35621538e6cff3dee56707de9f30165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 10/34] fix: reject relative energies without Gaf

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index dfd5f9d..bd7eb1f 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -213,7 +213,7 @@ class MeanFieldSolver(SolverBase):
                 raise AttributeError(msg)
 
         # Check input parameter.
-        if "Gaf" and "Gar" not in relative_energies:
+        if "Gaf" not in relative_energies or "Gar" not in relative_energies:
             msg = "'Gaf' and 'Gar' must be in relative_energies."
             raise ParameterError(msg)
 
-- 
2.43.0


From 778f743c48dfecf626932b47b72ff97722de0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 11/34] fix: gas pressures of formulas with a stoichiometric
 coefficient

---
 scaks/solvers/solver_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..685d90c 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,18 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            f = lambda gas: (self._owner.species_definitions[gas.species_site()]["pressure"] **
+                             gas.stoichiometry())
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +232,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +286,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From c24626db367f9efee594b1ce3190b4d4df9865ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 12/34] fix: weight energy corrections by stoichiometry

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..dd205ef 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -300,7 +300,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 02ce54b3463e7bb611e52e1dc85fb78316eec857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 13/34] fix: logger name in entropy correction

---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index dd205ef..efb9683 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
-- 
2.43.0


From 847b39032ea27ce5f5f798b29893f3ce5b00683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 14/34] fix: set_plotter stores the given plotter

---
 scaks/models/kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..e700203 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -404,7 +404,7 @@ class KineticModel(object):
         :param plotter: Valid plotter object
         :type plotter: any
         '''
-        setattr(self, mangled_name(self, 'plotter'), solver)
+        setattr(self, mangled_name(self, 'plotter'), plotter)
 
     def set_corrector(self, corrector):
         ''' Set corrector for current model
-- 
2.43.0


From 38630525e2a6cf17b6ac8c7bb37122799518ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 15/34] fix: split sequences whose length is no multiple of the
 process number

---
 scaks/mpicommons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..2b80807 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,9 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        length, residual = divmod(len(sequence), self.size)
+        start = self.rank*length + min(self.rank, residual)
+        end = start + length + (1 if self.rank < residual else 0)
 
         return sequence[start: end]
 
-- 
2.43.0


From f1f3e93693e6b1b1fe53fcd25ea2696fa70eeb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 16/34] fix: quote possible types once in the coverages file

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From 70a53c0c1b5a47c70465cb8327249b042408da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 17/34] fix: no mapping entry for a reverse process that does
 not exist

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..0f2af98 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not fast and not redist:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From aa6f6897d2c5dbf7c4a21010d0e90760f805d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 18/34] fix: raise the parameter error in state conservation
 check

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 16ff33f..3a4ca80 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -234,7 +234,7 @@ class ChemState(object):
         # Check input parameter.
         if not isinstance(another, self.__class__):
             msg = "Parameter another must be instance of ChemState."
-            return ParameterError(msg)
+            raise ParameterError(msg)
 
         # Check elements.
         dict1 = self.get_elements_dict()
-- 
2.43.0


From 5a45894bbae8edbbe3f217c998eaa40c26b9281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 19/34] fix: reject move vectors that are not lists of three
 numbers

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index efb1581..33d7bc7 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -99,7 +99,7 @@ class CoordsGroup(object):
             move_vector = [0.0, 0.0, 0.0]
 
         # Check the parameter.
-        if type(move_vector) is not list and len(move_vector) != 3:
+        if type(move_vector) is not list or len(move_vector) != 3:
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-- 
2.43.0


From d1a494dc83a97c109f1e6a8921e1420ab492f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 20/34] fix: reject extending a group with unequal coordinates
 and elements

---
 scaks/utilities/coordinate_utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 33d7bc7..d1adc98 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -83,6 +83,10 @@ class CoordsGroup(object):
         if elements is None:
             elements = ["V"]*len(coordinates)
 
+        if len(coordinates) != len(elements):
+            msg = "Length of coordinates({}) and elements({}) are different."
+            raise ValueError(msg.format(len(coordinates), len(elements)))
+
         for coordinate, element in zip(coordinates, elements):
             self.append(coordinate, element)
 
-- 
2.43.0


From 3bf11cce278ade2f10095f282c9eb93ee16ec497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 21/34] fix: step size of the constrained Newton iteration as
 an mp float

---
 scaks/solvers/rootfinding_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..45deac9 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -133,7 +133,7 @@ class ConstrainedNewton(RootfindingIterator):
                 x1 = self._matrix(x0) + l*s
                 fx = self._matrix(f(tuple(x1)))
                 return norm(fx)
-            l = golden(fl)
+            l = self._mpfloat(float(golden(fl)))
 #            print l
 #            l = mp.mpf('1.0')
             x1 = self._matrix(x0) + l*s  # matrix
-- 
2.43.0


From 17600c4899bdd3b0c9a97dbf53b793b593d564bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 22/34] fix: constrained Newton evaluates its line search in
 plain floats

---
 scaks/solvers/rootfinding_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 45deac9..82f227c 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,9 +130,10 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
+                l = self._mpfloat(float(l))
                 x1 = self._matrix(x0) + l*s
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
+                return float(norm(fx))
             l = self._mpfloat(float(golden(fl)))
 #            print l
 #            l = mp.mpf('1.0')
-- 
2.43.0


From e14531156f941507ef619cd9672e7c725cd8292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 23/34] fix: XRC calculation keeps the converged coverages

---
 scaks/solvers/steady_state_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4063430..c28efb2 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1133,6 +1133,9 @@ class SteadyStateSolver(MeanFieldSolver):
             XRC = get_XRCi(i)
             XRCs[i] = XRC
 
+            # The perturbed steady state must not replace the real one.
+            self._coverages = init_guess
+
             # Ouput log info.
             if self._owner.log_allowed:
                 self.__logger.info("XRC({}) = {:.2e}\n".format(rxn_expressions[i], float(XRC)))
-- 
2.43.0


From b8f4148646f771ba10d145f47db4fc724551a530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 24/34] fix: read two-letter element symbols in species

---
 scaks/parsers/rxn_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/parsers/rxn_parser.py b/scaks/parsers/rxn_parser.py
index 3a4ca80..99953e2 100644
--- a/scaks/parsers/rxn_parser.py
+++ b/scaks/parsers/rxn_parser.py
@@ -296,7 +296,7 @@ class ChemFormula(object):
         """
         self.__formula = formula
         self.__formula_regex = re.compile(r'(\d*)(([\w\*-]*)_(\d*)([a-zA-Z\*]+))')
-        self.__sp_regex = re.compile(r'([a-zA-Z\*])(\d*)')
+        self.__sp_regex = re.compile(r'([A-Z][a-z]?|[a-z\*])(\d*)')
 
         self.__split()
 
-- 
2.43.0


From b0b53b2786f27fc5cf2d76cb1ec021163d757789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 25/34] fix: coarse search without initial coverages uses the
 hybrid method

---
 scaks/solvers/steady_state_solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index c28efb2..b09754d 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -730,6 +730,9 @@ class SteadyStateSolver(MeanFieldSolver):
 
         #fprime = lambda x: get_jacobian(c0, relative_energies=relative_energies)
 
+        if c0 is None:
+            c0 = self._owner.hybrid_method(self._owner, 0)
+
         # Main hotpot.
         c0 = [float(c) for c in c0]
         converged_cvgs = fsolve(self.steady_state_function, c0,
-- 
2.43.0


From 9110a5fb5d52228cd4ca23ca83ef7c6da5d1ea10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 26/34] fix: constrain the coverages a hybrid method proposes

---
 scaks/solvers/steady_state_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index b09754d..0a08f1f 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -939,6 +939,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         break
                     else:
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -950,6 +951,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     break
                 else:
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
                 for ap in self._owner.analysis:
-- 
2.43.0


From 4214bd139f00d85ed766ada78757d24d068ba134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 27/34] fix: keep the product sign when the free site follows
 the adsorbate in a derived term

---
 scaks/solvers/steady_state_solver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 0a08f1f..a34254a 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -368,10 +368,7 @@ class SteadyStateSolver(MeanFieldSolver):
             #split two parts
             regex = r"(.*)\*(theta\['" + adsorbate_name + r"'\])(\*{2}(\d+)|)(\*(.*)|)"
             m = re.search(regex, term_expression)
-            if m.group(6):
-                site_part = m.group(1) + m.group(6)
-            else:
-                site_part = m.group(1)
+            site_part = m.group(1) + m.group(5)
             adsorbate_part = m.group(2) + m.group(3)
             # Get derivation expression
             derivation_expression = (deriv_adsorbate_part(adsorbate_name, adsorbate_part) +
-- 
2.43.0


From da279ceaf0dc7076c7270d285bb348724cf84a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 28/34] fix: memoize calls with omitted arguments under their
 default values

---
 scaks/descriptors/descriptors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 18ec988..f0005d0 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -4,6 +4,7 @@ Definitions of attribute descriptors.
 
 import numpy as np
 import copy
+import inspect
 
 from ..utilities.check_utilities import check_species_definitions
 from ..utilities.check_utilities import check_ref_energies
@@ -387,8 +388,10 @@ class Memoized(object):
         cache_name = "_memoized_{}".format(self.func.__name__)
         results = instance.__dict__.setdefault(cache_name, {})
 
-        # Make all arguments hashable.
-        key = make_hashable(kwargs)
+        # Make all arguments hashable, an omitted one has its default value.
+        arguments = inspect.signature(self.func).bind(instance, **kwargs)
+        arguments.apply_defaults()
+        key = make_hashable(dict(list(arguments.arguments.items())[1:]))
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
-- 
2.43.0


From af5aeed1ba8b5a8dda54e7eef5aa18a7c4010267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 29/34] fix: coverage analysis does not write an empty last
 flush that cannot be evaluated

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..4093bfc 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -136,8 +136,9 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         Write all data to files.
         """
         if mpi.is_master:
-            # Write to file.
-            self.__flush()
+            # Write data left in buffer to file.
+            if self.__coverages:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From cff59c7aee24b557653fdd6cdea0005608041ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 30/34] fix: rejected coordinates or elements leave the
 coordinate group unchanged

---
 scaks/utilities/coordinate_utilities.py | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index d1adc98..0063b04 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -50,6 +50,15 @@ class CoordsGroup(object):
 
         return coordinate
 
+    def __check_element(self, element):
+        """
+        Private helper function to check validty of element.
+        """
+        if element is not None and type(element) is not str:
+            raise ValueError("element must be a string.")
+
+        return element
+
     def append(self, coordinate, element=None):
         """ Function to append a new coordinate.
 
@@ -59,17 +68,15 @@ class CoordsGroup(object):
         :param element: element type, default value is "V"
         :type element: str
         """
-        # Append coordinates.
+        # Check before changing anything.
         self.__check_coordinate(coordinate)
+        self.__check_element(element)
+
+        # Append coordinates.
         self.__coords.append(coordinate)
 
         # Append elements.
-        if element is None:
-            self.__elements.append("V")
-        else:
-            if type(element) is not str:
-                raise ValueError("element must be a string.")
-            self.__elements.append(element)
+        self.__elements.append("V" if element is None else element)
 
     def extend(self, coordinates, elements=None):
         """ Function to add new coordinates.
@@ -87,6 +94,11 @@ class CoordsGroup(object):
             msg = "Length of coordinates({}) and elements({}) are different."
             raise ValueError(msg.format(len(coordinates), len(elements)))
 
+        # Check all entries before changing anything.
+        for coordinate, element in zip(coordinates, elements):
+            self.__check_coordinate(coordinate)
+            self.__check_element(element)
+
         for coordinate, element in zip(coordinates, elements):
             self.append(coordinate, element)
 
-- 
2.43.0


From da759093e7ce1d930c3887344de91ca414894048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 31/34] fix: an empty list of initial coverages is rejected
 like any other of a wrong length

---
 scaks/models/micro_kinetic_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..7af3920 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -198,7 +198,7 @@ class MicroKineticModel(KineticModel):
         # set initial guess(initial coverage)
         # if there is converged coverage in current path,
         # use it as initial guess
-        if init_cvgs:
+        if init_cvgs is not None:
             # Check init_cvgs type.
             if not isinstance(init_cvgs, (tuple, list)):
                 msg = "init_cvgs must be a list or tuple, but {} received."
-- 
2.43.0


From 4280ad60c8e1fe7a63cafdebf89ead031b42a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 32/34] fix: total reaction equation from exact ratios of the
 combination

Ratios that are not whole numbers were rounded or cut off, giving a wrong
equation or none; a gas that only helps gave a division by zero.
---
 scaks/parsers/parser_base.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/scaks/parsers/parser_base.py b/scaks/parsers/parser_base.py
index 9028a4c..5a991e0 100644
--- a/scaks/parsers/parser_base.py
+++ b/scaks/parsers/parser_base.py
@@ -1,6 +1,7 @@
 import copy
 import re
 import logging
+from fractions import Fraction
 
 import numpy as np
 
@@ -191,7 +192,7 @@ class ParserBase(ModelShell):
         # Helper function to get null space of transposition of site_matrix.
         def null(A, eps=1e-10):
             u, s, vh = np.linalg.svd(A, full_matrices=1, compute_uv=1)
-            null_space = np.compress(s <= eps, vh, axis=0)
+            null_space = vh[np.count_nonzero(s > eps):]
             return null_space.T
 
         x = null(site_matrix.T)  # basis of null space
@@ -199,16 +200,17 @@ class ParserBase(ModelShell):
             raise ValueError('Failed to get basis of nullspace.')
 
         x = [abs(i) for i in x.T.tolist()[0]]
-        #convert entries of x to integer
-        min_x = min(x)
-        x = [round(i/min_x, 1) for i in x]
-        x = np.matrix(x)
-        total_coefficients = (x*reapro_matrix).tolist()[0]
-
-        # cope with small differences between coeffs
-        abs_total_coefficients = list(map(abs, total_coefficients))
-        min_coeff = min(abs_total_coefficients)
-        total_coefficients = [int(i/min_coeff) for i in total_coefficients]
+        # Convert numbers to the smallest integers in the same ratios.
+        def integers(numbers):
+            unit = min([abs(i) for i in numbers if abs(i) > 1e-10])
+            ratios = [Fraction(i/unit).limit_denominator(1000) for i in numbers]
+            multiple = 1
+            for ratio in ratios:
+                multiple *= (multiple*ratio).denominator
+            return [int(multiple*ratio) for ratio in ratios]
+
+        x = np.matrix(integers(x))
+        total_coefficients = integers((x*reapro_matrix).tolist()[0])
 
         # create total rxn expression
         reactants_list, products_list = [], []
@@ -216,6 +218,8 @@ class ParserBase(ModelShell):
         for sp_name in reapro_names:
             idx = reapro_names.index(sp_name)
             coefficient = total_coefficients[idx]
+            if coefficient == 0:  # neither consumed nor produced
+                continue
             if coefficient < 0:  # for products
                 coefficient = abs(int(coefficient))
                 if coefficient == 1:
-- 
2.43.0


From c71eed85bc564933f308a5d30dafa789e7e35759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:16 +0000
Subject: [PATCH 33/34] fix: move a coordinate group without coordinates

---
 scaks/utilities/coordinate_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/utilities/coordinate_utilities.py b/scaks/utilities/coordinate_utilities.py
index 0063b04..8f3d2ba 100644
--- a/scaks/utilities/coordinate_utilities.py
+++ b/scaks/utilities/coordinate_utilities.py
@@ -119,7 +119,7 @@ class CoordsGroup(object):
             raise ValueError("move_vector must be a list of three float numbers.")
 
         move_vector = np.array(move_vector)
-        ori_coords = np.array(self.__coords)
+        ori_coords = np.array(self.__coords).reshape(len(self.__coords), 3)
         new_coords = (ori_coords + move_vector).tolist()
 
         return CoordsGroup(new_coords, copy.copy(self.__elements))
-- 
2.43.0


From 451cafaffaa0b17175c0e35b90782bfa42af7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 34/34] fix: memoized results for empty relative energies
 depend on the model's energies

---
 scaks/descriptors/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index f0005d0..dd66c09 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -395,7 +395,7 @@ class Memoized(object):
 
         # NOTE: if relative_energies is None, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
+        if "relative_energies" in key and not key["relative_energies"]:
             key["relative_energies"] = make_hashable(instance._owner.relative_energies)
 
         try:
-- 
2.43.0

