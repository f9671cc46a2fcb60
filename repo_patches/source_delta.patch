From 5ea28c6f296194a9053b7d2ebd645386307038d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 01/23] fix: return plain floats from the Wigner functions so
 selection rules compare against zero correctly

---
 atomtoolkit/wigner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..6671567 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -38,8 +38,9 @@ def wignerPicker(func):
                 return 0.0
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
+            # (the result is converted to a float, since sympy's exact zero does not compare equal to 0.0)
             try:
-                return N(func(*args))
+                return float(N(func(*args)))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From c2b2f73a2bc2b738ee9d1543f98d10d1406ab42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:42 +0000
Subject: [PATCH 02/23] fix: include the (2I-1) factor of the magnetic octupole
 hyperfine term

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..a25daed 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -431,7 +431,7 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From ceba48ff88b84bfec82706a6300aa2f56588e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 03/23] fix: weight Lande estimates by percentage and squared
 LS amplitude of each term component

---
 atomtoolkit/atom.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a25daed..3272a73 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -337,26 +337,26 @@ class EnergyLevel(BaseLevel):
         :return: gJ
         """
         from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
-        total = 0
-        for pct, term in self.term.terms_dict.items():
+        total = 0.0
+        for term in self.term.terms:
+            J = term.J
+            if J == 0:  # there is no moment to speak of, and the projection below is undefined
+                continue
             if term.coupling == 'LS':
-                terms = np.array([[self.term.l], [self.term.s], [1.0]])
+                terms = np.array([[term.l], [term.s], [1.0]])
             elif term.coupling == 'JJ':
-                terms = JJ_to_LS(self.term.J, self.term.jc, self.term.jo, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JJ_to_LS(J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'JK':
-                terms = JK_to_LS(self.term.J, self.term.jc, self.term.k, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JK_to_LS(J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'LK':
-                terms = LK_to_LS(self.term.J, self.term.l, self.term.k, self.term.sc, self.term.so)
+                terms = LK_to_LS(J, term.l, term.k, term.sc, term.so)
             else:
                 return 0.0
 
-            J = term.J
-            ls, ss, percents = terms
+            ls, ss, ampls = terms
 
-            total += pct * sum(percents * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
-                                           / (2 * J * (J + 1))))
+            total += term.percentage / 100 * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
+                                                               / (2 * J * (J + 1))))
         return total
 
     @classmethod
-- 
2.43.0


From 499a2a809df7cf610d62694e5ff48c1fa7de9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 04/23] fix: use the other level's F in the quadrupole factor
 of Zeeman transitions

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3272a73..f812dd7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -817,7 +817,7 @@ class ZTransition(BaseTransition):
         if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
             factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
         elif self.parent.allowed_types[2]:
-            factor = sum([wigner3j(F1, 2, F1, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
+            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
         else:
             factor = 0.0
         return self.parent.A * factor, float(factor)
-- 
2.43.0


From e777dc86a45cad5df4dbefb7511db04dbc494e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:30 +0000
Subject: [PATCH 05/23] fix: degeneracy factor of the second level in tkq
 strengths is 2F+1

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..267af99 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -15,7 +15,7 @@ from .wigner import wigner3j, wigner6j, wigner9j
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) * (2 * F1 + 2) * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                    F1, F0, I) ** 2
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0) ** 2
@@ -26,7 +26,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 2) ** 0.5 * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                  F1, F0, I)
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0)
-- 
2.43.0


From 69d4ab610323e4c7b260c7f611096416e01f4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 06/23] fix: multiply rather than add k and eps components in
 the q=+-2 quadrupole matrix elements

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 267af99..8d59191 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -99,7 +99,7 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
@@ -107,7 +107,7 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     return tot
 
 
-- 
2.43.0


From 4c111d6fea9dd4c70f45fd00b7fcf7d8180d8b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 07/23] fix: weight both transverse terms of the q=+-1
 quadrupole strengths with the tensor component

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8d59191..a772efc 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -122,11 +122,11 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
            (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     return tot
-- 
2.43.0


From 5dd535382925f281382a49cf24b205ab83e66ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 08/23] fix: do not cache functions of (unhashable)
 polarization and wave vector arrays

---
 atomtoolkit/transition_strengths.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index a772efc..3571bad 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -34,7 +34,6 @@ def tkq_mel(I: float, k: int, q: int,
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
-@functools.lru_cache(maxsize=None)
 def E1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -45,7 +44,6 @@ def E1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -61,7 +59,6 @@ def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def M1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -72,7 +69,6 @@ def M1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def M1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -90,7 +86,6 @@ def M1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -111,7 +106,6 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
-- 
2.43.0


From 0fba09e083024dcf92af68b910adb50dd6bb0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 09/23] fix: require the full triangle rule for allowed
 transition types

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index f812dd7..397ab72 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -716,9 +716,9 @@ class Transition(BaseTransition):
             return False, False, False
         # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
         # Correct me if I'm wrong!
-        return ((np.abs(J1 - J0) <= 1.0 and p0 != p1),
-                (np.abs(J1 - J0) <= 1.0 and p0 == p1),
-                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
+        return ((np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 != p1),
+                (np.abs(J1 - J0) <= 1.0 <= J0 + J1 and p0 == p1),
+                (np.abs(J1 - J0) <= 2.0 <= J0 + J1 and p0 == p1 and not (self.E_1 is self.E_2)))
 
     def _assign_models(self):
         """A Transition lives as an edge in the atom's levelsModel graph"""
-- 
2.43.0


From aa627cf0f1631c1a88e810c621d7f9f7e3746667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 10/23] fix: find transitions by any pair of keys or levels, in
 either order and independent of the order of addition

---
 atomtoolkit/atom.py         |  4 +--
 atomtoolkit/atom_helpers.py | 57 ++++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 397ab72..a8724c0 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -670,9 +670,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..9a56bbb 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -104,6 +104,8 @@ class TransitionStructure:
         Parses the key to return the associated transition. Supports various kinds of access. Access by:
             - Tuple[int, int]:
                  (n, m) returns the transition between the nth-lowest-lying level and the mth-lowest-lying level
+            - Tuple[BaseLevel, BaseLevel]:
+                 the transition between the two levels
             - alias
             - ([conf] [term] F=[F] mF=[mF], [conf] [term] F=[F] mF=[mF])
             - ([conf] [term] mJ=[mJ], [conf] [term] mJ=[mj])
@@ -115,29 +117,38 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
-        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
-        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
-            k_lower, k_upper = key[1], key[0]
-        else:
-            k_lower, k_upper = key[0], key[1]
-        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
-            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
-            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
-        elif 'mJ=' in key[0]:
-            main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
-            main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
-            l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
-            l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
-        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
-            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
-            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
-        else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+        # the pair can be given in either order, as names (or any other keys into atom.levels) or as level objects
+        level_0, level_1 = (self.atom.levels[k] if isinstance(k, (int, str)) else k for k in key)
+        main_0, main_1 = level_0.manifold, level_1.manifold
+        transition = self.model.edges[(main_0.name, main_1.name)]['transition']
+        for sub_0, sub_1 in zip(self._sublevel_path(level_0), self._sublevel_path(level_1)):
+            transition = self._subtransition(transition, sub_0, sub_1)
+        if not self._connects(transition, level_0, level_1):
+            raise KeyError(key)
+        return transition
+
+    @staticmethod
+    def _sublevel_path(level: BaseLevel) -> List[BaseLevel]:
+        """The chain of sublevels leading from (and not including) the fine structure level to the level"""
+        path = []
+        while level is not level.manifold:
+            path.insert(0, level)
+            level = level.parent
+        return path
+
+    @staticmethod
+    def _connects(transition: BaseTransition, level_0: BaseLevel, level_1: BaseLevel) -> bool:
+        """Whether the transition is the one between the two levels"""
+        return ((transition.E_1 is level_0 and transition.E_2 is level_1)
+                or (transition.E_1 is level_1 and transition.E_2 is level_0))
+
+    def _subtransition(self, transition: BaseTransition, sub_0: BaseLevel, sub_1: BaseLevel) -> BaseTransition:
+        """Subtransitions are filed by the names of their sublevels, in the order (lower, upper)"""
+        names = (sub_0.term.short_name, sub_1.term.short_name)
+        for k in (names, names[::-1]):
+            if k in transition.keys() and self._connects(transition[k], sub_0, sub_1):
+                return transition[k]
+        raise KeyError((sub_0.name, sub_1.name))
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From b2fc870c83e12646b0ce399ebbaccf64204b9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 11/23] fix: re-add the subtransitions (not their keys) when a
 transition is added to an atom

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a8724c0..ba3cdb7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -646,7 +646,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From c2cd4d0a79db2dc8c85ba8dfa8e4a774968c023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 12/23] fix: consider pairs of sublevels two apart whenever the
 transition is E2 allowed

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ba3cdb7..aa1d7e3 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -657,7 +657,7 @@ class BaseTransition(ABC):
         """
         if True not in self.allowed_types:
             return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
-        max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
+        max_delta = (2 if self.allowed_types[2] else 1)
         return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
                 if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
 
-- 
2.43.0


From aad88b5e4beb06fb2742b10997f9b2aaf0f21182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 13/23] fix: let populate_transitions add exactly the allowed
 transitions that are not present yet

---
 atomtoolkit/atom.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index aa1d7e3..0d12709 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -649,6 +649,11 @@ class BaseTransition(ABC):
             for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
+    def remove_from_atom(self):
+        """Take the transition out of the graph in which it was placed when it was created"""
+        if self.atom is not None:
+            self._model.remove_edge(self.E_lower.name, self.E_upper.name)
+
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
         """
         Returns pairs of sublevels that are likely to have allowed transitions, given the type of transition
@@ -733,7 +738,7 @@ class Transition(BaseTransition):
             if np.any(np.array(t.allowed_types)):
                 self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
-                del t
+                t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
@@ -795,7 +800,7 @@ class HFTransition(BaseTransition):
             if np.any(np.array(t.allowed_types)):
                 self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
-                del t
+                t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
         diff = freq - self.freq
@@ -1029,11 +1034,8 @@ class Atom:
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
         max_to_try = 20
-        allowed_deltas = []
-        # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
-        for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
-                allowed_deltas.append(i)
+        # the ordering of the list is E1, M1, E2, and their J can change by at most 1, 1, 2
+        allowed_deltas = range(3 if allowed[2] else 2)
 
         # The keys of js are J values, and the values are lists of levels with that J value
         js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
@@ -1045,13 +1047,13 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                     t = Transition(pair[0], pair[1])
                     if np.any(np.array(t.allowed_types) & np.array(allowed)):
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
                     else:
-                        del t
+                        t.remove_from_atom()
 
     def populate_internal_transitions(self):
         """
-- 
2.43.0


From 5250ed4939de645557c801d5b8a1f92a7987719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 14/23] fix: let linked levels, lifetimes and branching ratios
 be looked up by alias

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 0d12709..232f435 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1094,8 +1094,8 @@ class Atom:
         if not isinstance(level, EnergyLevel):
             for k, trans in self.linked_levels(level.parent.name).items():
                 trans.populate_subtransitions()
-        adjacent = level.model.adj[key]
-        return {k: t['transition'] for k, t in adjacent.items() if k != key}
+        adjacent = level.model.adj[level.name]
+        return {k: t['transition'] for k, t in adjacent.items() if k != level.name}
 
     def state_lifetime(self, key: str) -> pint.Quantity:
         """
@@ -1119,7 +1119,7 @@ class Atom:
         transitions = self.linked_levels(key)
         A_coeffs = {}
         for n, t in transitions.items():
-            if t.E_upper.name == key:
+            if t.E_upper is self.levels[key]:
                 A_coeffs[n] = t.A
         try:
             totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-- 
2.43.0


From 6936555998629e53fbaffc083d421d745f0962fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 15/23] fix: report missing A coefficients as ValueError and
 sum A coefficients of mixed units

---
 atomtoolkit/atom.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 232f435..0e4db9d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1104,7 +1104,10 @@ class Atom:
         :return: the state lifetime in seconds
         """
         ts = self.linked_levels(key).values()
-        total_A = sum((t.A for t in ts if t.E_upper is self.levels[key]))
+        A_coeffs = [t.A for t in ts if t.E_upper is self.levels[key]]
+        if any(A is None for A in A_coeffs):
+            raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
+        total_A = sum(A_coeffs)
         if total_A == 0:
             return np.inf * ureg.s
         return (1 / (total_A / (2 * np.pi))).to(ureg.s)
@@ -1121,13 +1124,11 @@ class Atom:
         for n, t in transitions.items():
             if t.E_upper is self.levels[key]:
                 A_coeffs[n] = t.A
-        try:
-            totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+        if any(A is None for A in A_coeffs.values()):
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
-
-        ratios = {k: t.magnitude / totalAs for k, t in A_coeffs.items()}
+        totalAs = np.sum([A.to(Hz).magnitude for A in A_coeffs.values()])
+        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
         return ratios
 
     def enforce_consistency(self, node_or_trans: BaseLevel or BaseTransition = None):
-- 
2.43.0


From 785c3cc50c34fc3ea1c6df4102efb907e4517863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 16/23] fix: convert subtransition frequencies given as
 wavelength or wavenumber before taking differences

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 0e4db9d..56f3de9 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -803,7 +803,7 @@ class HFTransition(BaseTransition):
                 t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
@@ -850,7 +850,7 @@ class ZTransition(BaseTransition):
         pass
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
-- 
2.43.0


From 4bbe9e2477d4fc6754879f5a2c3d1942425ac0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 17/23] fix: append .atom to saved files unless the name
 already ends in it

---
 atomtoolkit/atom.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 56f3de9..97e0db2 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -979,10 +979,7 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
         with open(filename, "wb") as file:
             pickle.dump(self, file)
-- 
2.43.0


From 0fdfc1dd378fb66b54f858726484a4c5767226eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 18/23] fix: estimate the Lande factor of tabulated levels that
 have none

---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 97e0db2..c627388 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -368,7 +368,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=df["Lande"][i])
+        lande = df["Lande"][i]
+        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
-- 
2.43.0


From 37ce259b4d8870d852cfe50e48ceb43fe504539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 19/23] fix: place every level relative to the one it is
 reached from when enforcing transition frequencies

---
 atomtoolkit/atom.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index c627388..1238301 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1156,15 +1156,17 @@ class Atom:
                 elif node.level_Hz < lowest.level_Hz:
                     lowest, key_lowest = node, key
             # perform a depth first search starting from the lowest energy node in the subgraph,
-            # setting subsequent levels one at a time
+            # setting subsequent levels one at a time relative to the level from which they were reached
             search = nx.dfs_edges(subgraph, source=key_lowest)
             for edge in search:
                 t = subgraph.edges()[edge]['transition']
                 e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
-                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
-                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
-                elif e_u.fixed:
+                if edge[0] == e_u.name:
                     e_l.level_Hz = e_u.level_Hz - freq
                 else:
                     e_u.level_Hz = e_l.level_Hz + freq
                 e_u.fixed = e_l.fixed = True
+            # transitions that close a loop did not take part in the placement, so they may contradict it
+            for u, v, t in subgraph.edges(data='transition'):
+                if abs(t.freq_Hz - t.set_freq.to(Hz).magnitude) > 1:
+                    warnings.warn(f'Constraint problem encountered when checking {(u, v)}. Loop of fixed transitions?')
-- 
2.43.0


From b01161941e5ce2d23af94a27eb059b116ef85a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 20/23] fix: keep squeeze in units of F so sublevels of
 half-integer F and F=0 are drawn with the documented widths

---
 atomtoolkit/render/grotrian.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..e4fa409 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -282,12 +282,11 @@ class Grotrian:
         y1 = kwargs.get('y1', 0)
         offset = kwargs.get('offset', 0.0)
 
-        squeeze = kwargs.get('squeeze', int((level.term.J + level.atom.I)))
+        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
         if squeeze is True:
-            squeeze = int((level.term.J + level.atom.I))
+            squeeze = level.term.J + level.atom.I
         elif squeeze is False:
             squeeze = max(l.term.F for l in level.atom.levels[0].values())
-        squeeze = int(2 * squeeze + 1)
 
         hf_scale = kwargs.get('hf_scale', 10000.0)
         z_scale = kwargs.get('z_scale', 5.0)
@@ -334,8 +333,8 @@ class Grotrian:
         W, x0, x1, y0, y1, _, squeeze, hf_scale, z_scale, a, b, kwargs = self._process_level_kwargs(level, kwargs)
         fill_factor = kwargs.pop('fill_factor', 0.9)
 
-        sublevel_width = fill_factor * W / squeeze
-        space_width = (1 - fill_factor) * W / (squeeze - 1)
+        sublevel_width = fill_factor * W / (2 * squeeze + 1)
+        space_width = (1 - fill_factor) * W / (2 * squeeze) if squeeze > 0 else 0.0
 
         Fs = [s.term.F for s in level.manifold.sublevels()]
         N = len(Fs)
-- 
2.43.0


From 0ad91895d4962b595a54493581b37c7a0351ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 21/23] fix: wavenumber conversions of a zero energy raised
 ZeroDivisionError

The wavenumber<->frequency transformations defined at import were never enabled: the context shares its name with pint's
built-in one, which converts through the wavelength and divides by zero for a level at 0.
---
 atomtoolkit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/__init__.py b/atomtoolkit/__init__.py
index 0eb8241..1494640 100644
--- a/atomtoolkit/__init__.py
+++ b/atomtoolkit/__init__.py
@@ -14,7 +14,7 @@ _c.add_transformation('[wavenumber]', '[frequency]',
                       lambda ureg, x: x * ureg.speed_of_light)
 _c.add_transformation('[frequency]', '[wavenumber]',
                       lambda ureg, x: x / ureg.speed_of_light)
-ureg.enable_contexts('spectroscopy')
+ureg.enable_contexts('spectroscopy', _c)
 
 c = ureg.speed_of_light
 Hz = ureg.Hz
-- 
2.43.0


From c7dc83c8fb83e06c12ae84dbb0b54d81fe12ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 22/23] fix: keep all subtransitions of levels whose sublevels
 overlap in energy

---
 atomtoolkit/atom.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 1238301..efeaa15 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -655,6 +655,14 @@ class BaseTransition(ABC):
         if self.atom is not None:
             self._model.remove_edge(self.E_lower.name, self.E_upper.name)
 
+    def _subtransition_key(self, t: BaseTransition) -> Tuple[str, str]:
+        """A subtransition is filed under the short names of its sublevels of the lower and of the upper level.
+        The sublevels' own order can't be used, since the structures of the two levels may overlap in energy."""
+        lower, upper = t.E_lower, t.E_upper
+        if self.E_1 is not self.E_2:
+            lower, upper = (t.E_1, t.E_2) if self.E_lower is self.E_1 else (t.E_2, t.E_1)
+        return lower.term.short_name, upper.term.short_name
+
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
         """
         Returns pairs of sublevels that are likely to have allowed transitions, given the type of transition
@@ -737,7 +745,7 @@ class Transition(BaseTransition):
         for a, b in pairs:
             t = HFTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                self[self._subtransition_key(t)] = t
             else:
                 t.remove_from_atom()
 
@@ -799,7 +807,7 @@ class HFTransition(BaseTransition):
         for a, b in pairs:
             t = ZTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                self[self._subtransition_key(t)] = t
             else:
                 t.remove_from_atom()
 
-- 
2.43.0


From 37df3197a3c89e3b858bea5591ef807cceec95ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 23/23] fix: keep one subtransition per pair of degenerate
 sublevels of one level

---
 atomtoolkit/atom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index efeaa15..d869cf8 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -669,10 +669,14 @@ class BaseTransition(ABC):
         :param attr: the Term attribute to use for selection rules. Can be anything in {L, J, F, mF, mJ}
         :return: An iterable of pairs of sublevels with possible allowed transitions
         """
+        if self.E_1 is self.E_2:  # within one level, (a, b) and (b, a) are the same pair
+            pairs = itertools.combinations_with_replacement(self.E_1.sublevels(), 2)
+        else:
+            pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
         if True not in self.allowed_types:
-            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+            return pairs
         max_delta = (2 if self.allowed_types[2] else 1)
-        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+        return ((l1, l2) for l1, l2 in pairs
                 if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
 
     # region: dict-like-methods
-- 
2.43.0

