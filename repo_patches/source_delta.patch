From 70b98509ad7132e08734af964e3b314e9270cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 01/38] fix: refresh primitive cell arrays when values differ
 but their hashes collide

hash(-1) == hash(-2) in Python, so changing an on-site energy, a position or a
hopping term between -1 and -2 left orb_eng, orb_pos, hop_ind and hop_eng stale.
---
 tbplas/builder/primitive.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 207d0a8..7b81403 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -136,18 +136,21 @@ class PrimitiveCell(Observable):
               self._hopping_dict, self.extended)
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> Hashable:
         """
-        Get the hash of given attribute.
+        Get the fingerprint of given attribute.
 
         :param attr: name of the attribute
-        :return: hash of the attribute
+        :return: fingerprint of the attribute
         :raises ValueError: if attr is illegal
         """
+        # NOTE: compare the contents rather than their hashes. In Python we have
+        # hash(-1) == hash(-2), so changing -1.0 eV to -2.0 eV would otherwise go
+        # unnoticed.
         if attr == "orb":
-            new_hash = hash(tuple(self._orbital_list))
+            new_hash = tuple(self._orbital_list)
         elif attr == "hop":
-            new_hash = hash(self._hopping_dict)
+            new_hash = tuple(self._hopping_dict.to_list())
         else:
             raise ValueError(f"Illegal attribute name {attr}")
         return new_hash
-- 
2.43.0


From 947813967228d9fcd76fd1979a2bc49538203275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 02/38] fix: check all indices before removing any orbital from
 the primitive cell

An index out of range was reported only after other orbitals had been removed,
and a negative index removed an orbital but not its hopping terms.
---
 tbplas/builder/primitive.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 7b81403..5a2d61b 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -351,13 +351,14 @@ class PrimitiveCell(Observable):
         # Check arguments
         self.check_lock()
 
-        # Delete the orbitals
         indices = sorted(set(indices))
+        for orb_i in indices:
+            if not (0 <= orb_i < self.num_orb):
+                raise exc.PCOrbIndexError(orb_i)
+
+        # Delete the orbitals
         for i, orb_i in enumerate(indices):
-            try:
-                self._orbital_list.pop(orb_i - i)
-            except IndexError as err:
-                raise exc.PCOrbIndexError(orb_i) from err
+            self._orbital_list.pop(orb_i - i)
 
         # Delete associated hopping terms
         self._hopping_dict.remove_orbitals(indices)
-- 
2.43.0


From f80f40056179b8c2e41ebd668214a9846f61e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:00 +0000
Subject: [PATCH 03/38] fix: allow a HopDict to be added to primitive cells
 more than once

The first use turns the matrices sparse, for which np.diag raises.
---
 tbplas/builder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 9e5daee..6ed6297 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -590,7 +590,7 @@ class HopDict:
         rn = (0, 0, 0)
         if rn in self._hoppings.keys():
             hop_mat = self._hoppings[rn]
-            for i, energy in enumerate(np.abs(np.diag(hop_mat))):
+            for i, energy in enumerate(np.abs(hop_mat.diagonal())):
                 if energy >= 1e-5:
                     raise exc.PCHopDiagonalError(rn, i)
 
-- 
2.43.0


From 8f802524b25879990bc0497b79d30fe0aa397cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:07 +0000
Subject: [PATCH 04/38] fix: reject negative indices in OrbitalSet.orb_id_sc2pc

They are out of range, and orb_id_sc2pc_array reports them as such.
---
 tbplas/builder/super.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 24b0958..e5a5825 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -340,11 +340,9 @@ class OrbitalSet(Observable):
         :raises IDSCIndexError: if id_sc is out of range
         """
         self.sync_array()
-        try:
-            id_pc = self._orb_id_pc[id_sc]
-        except IndexError as err:
-            raise exc.IDSCIndexError(id_sc) from err
-        return id_pc
+        if not (0 <= id_sc < self.num_orb_sc):
+            raise exc.IDSCIndexError(id_sc)
+        return self._orb_id_pc[id_sc]
 
     def orb_id_pc2sc(self, id_pc: Union[id_pc_type, np.ndarray]) -> int:
         """
-- 
2.43.0


From 509aed065ef915961c24aad892bb4e95ab3562a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:07 +0000
Subject: [PATCH 05/38] fix: leave the vacancies unchanged if any of the new
 ones is illegal

Also let set_vacancies() without argument remove all the vacancies, as its
default value promises, instead of raising TypeError.
---
 tbplas/builder/super.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index e5a5825..57e1080 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -259,11 +259,10 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        vacancies = [tuple(vacancy) for vacancy in vacancies]
         for vacancy in vacancies:
-            if not isinstance(vacancy, tuple):
-                vacancy = tuple(vacancy)
             self._check_id_pc(vacancy)
-            self._vacancy_set.add(vacancy)
+        self._vacancy_set.update(vacancies)
 
     def set_vacancies(self, vacancies: Union[Iterable[id_pc_type], np.ndarray] = None) -> None:
         """
@@ -278,6 +277,9 @@ class OrbitalSet(Observable):
             out of range
         """
         self.check_lock()
+        vacancies = [] if vacancies is None else list(vacancies)
+        for vacancy in vacancies:
+            self._check_id_pc(tuple(vacancy))
         self._vacancy_set = set()
         self.add_vacancies(vacancies)
 
-- 
2.43.0


From 02cc5a75d17f51900129f4f5a4b079a4194cfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:07 +0000
Subject: [PATCH 06/38] fix: keep bond indices integers if the hopping modifier
 adds no new term

---
 tbplas/builder/super.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 57e1080..15c77a1 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -801,10 +801,11 @@ class SuperCell(OrbitalSet):
                     dr_new.append(dr_i)
 
             # Append additional hopping terms
-            hop_i = np.append(hop_i, hop_i_new)
-            hop_j = np.append(hop_j, hop_j_new)
-            hop_v = np.append(hop_v, hop_v_new)
+            # NOTE: appending an empty list would turn the indices into floats.
             if len(dr_new) != 0:
+                hop_i = np.append(hop_i, hop_i_new)
+                hop_j = np.append(hop_j, hop_j_new)
+                hop_v = np.append(hop_v, hop_v_new)
                 dr = np.vstack((dr, dr_new))
         return hop_i, hop_j, hop_v, dr
 
-- 
2.43.0


From 5d95696968cc2e5fa42a29e07731e2ec65df8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:19 +0000
Subject: [PATCH 07/38] fix: refuse to remove hopping terms from a locked
 InterHopping

---
 tbplas/builder/base.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/tbplas/builder/base.py b/tbplas/builder/base.py
index 6ed6297..c112ea6 100644
--- a/tbplas/builder/base.py
+++ b/tbplas/builder/base.py
@@ -488,6 +488,44 @@ class InterHopping(Observable, IntraHopping):
         self.check_lock()
         super().add_hopping(rn, orb_i, orb_j, energy)
 
+    def remove_hopping(self, rn: rn_type,
+                       orb_i: int,
+                       orb_j: int) -> bool:
+        """
+        Remove an existing hopping term.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :param orb_i: orbital index or bra
+        :param orb_j: orbital index of ket
+        :return: where the hopping term is removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_hopping(rn, orb_i, orb_j)
+
+    def remove_orbitals(self, indices: Union[Iterable[int], np.ndarray]) -> None:
+        """
+        Remove the hopping terms corresponding to a list of orbitals and update
+        remaining hopping terms.
+
+        :param indices: indices of orbitals to remove
+        :return: None
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        super().remove_orbitals(indices)
+
+    def remove_rn(self, rn: rn_type) -> bool:
+        """
+        Remove all the hopping terms of given cell index.
+
+        :param rn: (r_a, r_b, r_c), cell index
+        :return: where the hopping terms are removed, False if not found
+        :raises LockError: is the object is locked
+        """
+        self.check_lock()
+        return super().remove_rn(rn)
+
 
 class HopDict:
     """
-- 
2.43.0


From 64f7ff3c5faede18d7d41e5d101748fb35c17080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 08/38] fix: lock the primitive cell again if it is updated to
 values with colliding hashes

---
 tbplas/builder/primitive.py | 15 +++++++++++++--
 tbplas/builder/super.py     | 11 ++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index 5a2d61b..c1bc8bc 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -131,10 +131,21 @@ class PrimitiveCell(Observable):
 
     def __hash__(self) -> int:
         """Return the hash of this instance."""
+        return hash(self.get_fingerprint())
+
+    def get_fingerprint(self) -> Hashable:
+        """
+        Get the fingerprint of this instance.
+
+        In contrast to the hash, cells with different contents always have
+        different fingerprints.
+
+        :return: fingerprint of this instance
+        """
         lat_vec = tuple([tuple(_) for _ in self._lat_vec])
         fp = (lat_vec, tuple(self._origin), tuple(self._orbital_list),
-              self._hopping_dict, self.extended)
-        return hash(fp)
+              tuple(self._hopping_dict.to_list()), self.extended)
+        return fp
 
     def _get_attr_hash(self, attr: str) -> Hashable:
         """
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 15c77a1..422a49e 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -1,6 +1,6 @@
 """Functions and classes for supercell."""
 
-from typing import Callable, Iterable, Tuple, Union, Set, List
+from typing import Callable, Hashable, Iterable, Tuple, Union, Set, List
 
 import numpy as np
 import matplotlib.pyplot as plt
@@ -162,19 +162,20 @@ class OrbitalSet(Observable):
               tuple(self._vacancy_set))
         return hash(fp)
 
-    def _get_attr_hash(self, attr: str) -> int:
+    def _get_attr_hash(self, attr: str) -> Hashable:
         """
         Get hash of given attribute.
 
-        For the primitive cell, we can use both its actual hash or the number
-        of orbitals as the fingerprint, while the latter is much faster.
+        For the primitive cell, we can use both its fingerprint or the number
+        of orbitals, while the latter is much faster. The actual hash should
+        not be used since hash(-1) == hash(-2) in Python.
 
         :param attr: name of the attribute
         :return: hash of the attribute
         :raises ValueError: if attr is illegal
         """
         if attr == "pc":
-            new_hash = hash(self._prim_cell)
+            new_hash = self._prim_cell.get_fingerprint()
             # new_hash = self.num_orb_pc
         elif attr == "vac":
             new_hash = hash(tuple(self._vacancy_set))
-- 
2.43.0


From a35c5f7554530980791593e6f0dd9e870fd89bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:24 +0000
Subject: [PATCH 09/38] fix: keep reporting vacancies that the modified
 primitive cell does not have

---
 tbplas/builder/super.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index 422a49e..f0da258 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -314,8 +314,13 @@ class OrbitalSet(Observable):
             else:
                 # Check for invalid vacancies if primitive cell changes
                 if update_pc:
-                    for vac in self._vacancy_set:
-                        self._check_id_pc(vac)
+                    try:
+                        for vac in self._vacancy_set:
+                            self._check_id_pc(vac)
+                    except exc.IDPCIndexError:
+                        # Check again in the next call
+                        self._hash_dict["pc"] = None
+                        raise
                 vac_id_pc = np.array(sorted(self._vacancy_set), dtype=np.int32)
                 vac_id_sc = core.build_vac_id_sc(self._dim, self.num_orb_pc,
                                                  vac_id_pc)
-- 
2.43.0


From 385ba79b3b4942f881cc23cc2777f3c92443845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:43 +0000
Subject: [PATCH 10/38] fix: use the documented vector potential for the
 symmetric gauge

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index c48e522..90e3d0c 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -68,7 +68,7 @@ def set_mag_field(long [::1] hop_i, long [::1] hop_j,
             dx, dy = dr[ih, 0], dr[ih, 1]
             sx = orb_pos[jj, 0] + orb_pos[ii, 0]
             sy = orb_pos[jj, 1] + orb_pos[ii, 1]
-            phase = factor * 0.5 * intensity * (dx * sx - dy * sy)
+            phase = factor * 0.5 * intensity * (dx * sy - dy * sx)
             hop_v[ih] = hop_v[ih] * (cos(phase) + 1j * sin(phase))
 
 
-- 
2.43.0


From 9f70428782b836ec7928854790325f46778f319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:43 +0000
Subject: [PATCH 11/38] fix: take absolute values of on-site energies when
 estimating the rescaling factor

---
 tbplas/cython/sample.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/sample.pyx b/tbplas/cython/sample.pyx
index 90e3d0c..dfa7fc2 100644
--- a/tbplas/cython/sample.pyx
+++ b/tbplas/cython/sample.pyx
@@ -104,7 +104,7 @@ def get_rescale(double [::1] orb_eng, long [::1] hop_i, long [::1] hop_j,
 
     ham_sum = np.zeros(num_orb_sc, dtype=np.float64)
     for io in range(num_orb_sc):
-        ham_sum[io] = orb_eng[io]
+        ham_sum[io] = abs(orb_eng[io])
     for ih in range(num_hop_sc):
         ii, jj = hop_i[ih], hop_j[ih]
         hop_abs = sqrt(hop_v[ih].real**2 + hop_v[ih].imag**2)
-- 
2.43.0


From 390b368482954a7581c181335e795323e2a7e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:43 +0000
Subject: [PATCH 12/38] fix: estimate the rescaling factor from the original
 Hamiltonian

---
 tbplas/builder/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index b164df4..09b3276 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -292,8 +292,9 @@ class Sample(Observable):
         self.init_orb_eng()
         self.init_hop()
         if factor is None:
+            # NOTE: the arrays may have already been rescaled.
             factor = core.get_rescale(self.orb_eng, self.hop_i, self.hop_j,
-                                      self.hop_v)
+                                      self.hop_v) * self._rescale
         self.orb_eng *= (self._rescale / factor)
         self.hop_v *= (self._rescale / factor)
         self._rescale = factor
-- 
2.43.0


From 561501837fc6ded5da5add09c3d6d6a21e7fc3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 13/38] fix: search the whole reshaped cell for orbitals

---
 tbplas/builder/advanced.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index c3a1c55..95a4d85 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1,6 +1,6 @@
 """Functions and classes for advanced modeling."""
 
-from math import floor, ceil, sqrt
+from math import floor, sqrt
 from typing import Union, List, Tuple, Dict
 from collections import namedtuple, defaultdict
 from copy import deepcopy
@@ -181,15 +181,15 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
     res_cell.extended = prim_cell.extended * (vol_res / vol_prim)
 
     # Determine searching range
-    # sum_vec is actually a0+a1, a1+a2 or a2+a0 depending on j, i.e., the
-    # diagonal vector. If it is not taken into consideration, orbitals and
-    # hopping terms in the top right corner of reshaped cell may be missing.
+    # All the corners of the reshaped cell should be taken into consideration.
+    # Otherwise, orbitals and hopping terms near the corners may be missing.
+    orb_pos = prim_cell.orb_pos
+    corners = np.array([np.matmul(np.array((i_a, i_b, i_c)) - delta, lat_frac)
+                        for i_a in (0, 1) for i_b in (0, 1) for i_c in (0, 1)])
     rn_range = np.zeros((3, 2), dtype=np.int32)
-    for i in range(3):
-        sum_vec = lat_frac.sum(axis=0) - lat_frac[i]
-        for j in range(3):
-            rn_range[j, 0] = min(rn_range[j, 0], floor(sum_vec[j]))
-            rn_range[j, 1] = max(rn_range[j, 1], ceil(sum_vec[j]))
+    if len(orb_pos) > 0:
+        rn_range[:, 0] = np.floor(corners.min(axis=0) - orb_pos.max(axis=0))
+        rn_range[:, 1] = np.ceil(corners.max(axis=0) - orb_pos.min(axis=0))
     rn_range[:, 0] -= 1
     rn_range[:, 1] += 1
 
@@ -198,7 +198,6 @@ def reshape_prim_cell(prim_cell: PrimitiveCell,
         return floor(x.item(0)), floor(x.item(1)), floor(x.item(2))
 
     # Add orbitals
-    orb_pos = prim_cell.orb_pos
     orb_map = OrbitalMap()
     for i_a in range(rn_range.item(0, 0), rn_range.item(0, 1)+1):
         for i_b in range(rn_range.item(1, 0), rn_range.item(1, 1)+1):
-- 
2.43.0


From dbb24de93e02b2a99cef375a812651fc07f4f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 14/38] fix: detect cells extended less than the first one when
 merging

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 95a4d85..5cf8c4a 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -362,7 +362,7 @@ def merge_prim_cell(*args: Union[PrimitiveCell, PCInterHopping]) -> PrimitiveCel
     # Determine the 'extended' attribute
     extended = pc_list[0].extended
     for pc in pc_list:
-        if (pc.extended - extended) >= 1.e-3:
+        if abs(pc.extended - extended) >= 1.e-3:
             print(f"INFO: resetting extend to 1.0")
             extended = 1.0
             break
-- 
2.43.0


From f3ee50a8c744e3a3b5390dc0ebc8a1ad91087893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:26 +0000
Subject: [PATCH 15/38] fix: reallocate working arrays of DiagSolver if the
 model changes its size

---
 tbplas/diagonal/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/base.py b/tbplas/diagonal/base.py
index 2d55dad..da7250b 100644
--- a/tbplas/diagonal/base.py
+++ b/tbplas/diagonal/base.py
@@ -245,7 +245,8 @@ class DiagSolver(MPIEnv):
         :raises RuntimeError: if diagonalization failed
         """
         # Set up the Hamiltonian
-        if self.__h_mat is None:
+        # NOTE: the model may have been modified since the last call.
+        if self.__h_mat is None or self.__h_mat.shape[0] != self.num_orb:
             self.__h_mat = np.zeros((self.num_orb, self.num_orb),
                                     dtype=np.complex128)
         else:
@@ -254,7 +255,7 @@ class DiagSolver(MPIEnv):
 
         # Set up the overlap matrix
         if self.__overlap is not None:
-            if self.__s_mat is None:
+            if self.__s_mat is None or self.__s_mat.shape[0] != self.num_orb:
                 self.__s_mat = np.zeros((self.num_orb, self.num_orb),
                                         dtype=np.complex128)
             else:
-- 
2.43.0


From fc5f75e9b344a107afa87565cc422f6d7ee21be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 16/38] fix: accept lists of q-points when calculating the
 dielectric function

---
 tbplas/diagonal/lindhard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 9fe8e13..01248e9 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -539,7 +539,7 @@ class Lindhard(DiagSolver):
             relative dielectric function
         """
         if not isinstance(q_points, np.ndarray):
-            q_points = np.ndarray(q_points, dtype=np.float64)
+            q_points = np.array(q_points, dtype=np.float64)
         num_qpt = q_points.shape[0]
         num_omega = self._omegas.shape[0]
         epsilon = np.zeros((num_qpt, num_omega), dtype=np.complex128)
-- 
2.43.0


From 95bb0033e1d28a31ed3fc2ea904724261d049a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 17/38] fix: accept lists of fractional coordinates in
 frac2cart

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index e91babb..c09ff17 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -116,7 +116,7 @@ def frac2cart(lattice_vectors: np.ndarray,
     if not isinstance(lattice_vectors, np.ndarray):
         lattice_vectors = np.array(lattice_vectors)
     if not isinstance(fractional_coordinates, np.ndarray):
-        fractional_coordinates = np.ndarray(fractional_coordinates)
+        fractional_coordinates = np.array(fractional_coordinates)
     cartesian_coordinates = np.zeros(fractional_coordinates.shape)
     conversion_matrix = lattice_vectors.T
     for i, row in enumerate(fractional_coordinates):
-- 
2.43.0


From 1c75734db27fad495c59cc1a8d702f571b4e7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 18/38] fix: do not truncate when rotating integer coordinates

---
 tbplas/base/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/base/lattice.py b/tbplas/base/lattice.py
index c09ff17..8c34da5 100644
--- a/tbplas/base/lattice.py
+++ b/tbplas/base/lattice.py
@@ -172,7 +172,7 @@ def rotate_coord(coord: np.ndarray,
     rot_mat = cos_ang * np.eye(3) + sin_ang * u_prod + (1 - cos_ang) * u_tens
 
     # Rotate coordinates
-    coord_rot = np.zeros(shape=coord.shape, dtype=coord.dtype)
+    coord_rot = np.zeros(shape=coord.shape)
     for i in range(coord.shape[0]):
         coord_rot[i] = np.matmul(rot_mat, coord[i] - center) + center
     return coord_rot
-- 
2.43.0


From c49204817148d4a3ac6d76113d491100463afb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 19/38] fix: synchronize dyn_pol once after all q-points are
 done

---
 tbplas/diagonal/lindhard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/diagonal/lindhard.py b/tbplas/diagonal/lindhard.py
index 01248e9..76c5e95 100644
--- a/tbplas/diagonal/lindhard.py
+++ b/tbplas/diagonal/lindhard.py
@@ -409,7 +409,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
@@ -498,7 +498,7 @@ class Lindhard(DiagSolver):
             else:
                 core.dyn_pol(delta_eng, prod_df, self._omegas, self._delta,
                              k_min, k_max, i_q, dyn_pol)
-            dyn_pol = self.all_reduce(dyn_pol)
+        dyn_pol = self.all_reduce(dyn_pol)
 
         # Multiply dyn_pol by prefactor
         dyn_pol *= self._get_dyn_pol_factor()
-- 
2.43.0


From 296051e03ec4279d367ca0aae55f2a425d463d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 20/38] fix: allow more processes than k-points in dist_bound

---
 tbplas/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/parallel.py b/tbplas/parallel.py
index c5dac5e..3501804 100644
--- a/tbplas/parallel.py
+++ b/tbplas/parallel.py
@@ -116,7 +116,7 @@ class MPIEnv:
         :return: lower and upper bounds of subrange assigned to this process
         """
         i_index = self.dist_range(n_max)
-        i_min, i_max = min(i_index), max(i_index)
+        i_min, i_max = i_index.start, i_index.stop - 1
         return i_min, i_max
 
     def reduce(self, data_local: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3f4034305d9050044d079d0c17bc0eb83d60f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:52 +0000
Subject: [PATCH 21/38] fix: close the loop of parallel transport with the
 phase of the reciprocal lattice vector

---
 tbplas/diagonal/z2.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tbplas/diagonal/z2.py b/tbplas/diagonal/z2.py
index 35397f5..0564c3d 100644
--- a/tbplas/diagonal/z2.py
+++ b/tbplas/diagonal/z2.py
@@ -21,6 +21,8 @@ class Z2(DiagSolver):
 
     Attributes
     ----------
+    _cell: 'PrimitiveCell' instance
+        primitive cell under investigation
     _num_occ: int
         number of occupied bands of the primitive cell
     _d_mat: (num_occ, num_occ) complex128 array
@@ -38,6 +40,7 @@ class Z2(DiagSolver):
         """
         # Initialize parallel environment
         super().__init__(model=cell, **kwargs)
+        self._cell = cell
 
         # Check and set num_occ
         num_orb = self.num_orb
@@ -150,6 +153,16 @@ class Z2(DiagSolver):
         num_kb = kb_array.shape[0]
         phases = np.zeros((num_kb, self._num_occ), dtype=np.float64)
 
+        # The loop is closed at ka_0 shifted by a reciprocal lattice vector G,
+        # where the eigenstates are those at ka_0 times exp(-i*G*tau) since the
+        # Hamiltonian is set up with convention 1. Analytical models have no
+        # orbital positions and are assumed to be periodic.
+        loop_phase = 1.0
+        if hasattr(self._cell, "orb_pos_nm"):
+            loop_sign = 1 if ka_array.item(-1) >= ka_array.item(0) else -1
+            orb_pos_a = self._cell.orb_pos[:, [0]]
+            loop_phase = np.exp(-2j * pi * loop_sign * orb_pos_a)
+
         # Distribute kb_array among processes
         k_index = self.dist_range(num_kb)
 
@@ -174,7 +187,7 @@ class Z2(DiagSolver):
                 vec0 = vec1
 
             # Special treatment for the last ka
-            self._eval_f_mat(vec0, vec0_bak)
+            self._eval_f_mat(vec0, vec0_bak * loop_phase)
             self._d_mat = np.matmul(self._d_mat, self._f_mat)
 
             # Diagonalize the D matrix and evaluate phases
-- 
2.43.0


From f5636f242544c11c3da6e8b2ca9142dcee94927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:51 +0000
Subject: [PATCH 22/38] fix: provide the propagator with at least 3 Bessel
 functions

---
 tbplas/tbpm/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/solver.py b/tbplas/tbpm/solver.py
index 7dbbbc7..e2ece02 100644
--- a/tbplas/tbpm/solver.py
+++ b/tbplas/tbpm/solver.py
@@ -221,6 +221,10 @@ class Solver(MPIEnv):
         # Check and return results
         if not converged:
             raise ValueError("Bessel_max too low")
+
+        # The propagator needs at least 3 terms.
+        while len(bessel_series) < 3:
+            bessel_series.append(spec.jv(len(bessel_series), time_scaled))
         return bessel_series
 
     def _get_beta_mu_re(self) -> Tuple[float, float]:
-- 
2.43.0


From 8582bad05b066a8564b105b9bac25e138f0f835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:11 +0000
Subject: [PATCH 23/38] fix: store the AC correlation function at the first
 time step

---
 tbplas/fortran/tbpm.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tbplas/fortran/tbpm.f90 b/tbplas/fortran/tbpm.f90
index e49df30..fd77fe9 100644
--- a/tbplas/fortran/tbpm.f90
+++ b/tbplas/fortran/tbpm.f90
@@ -301,6 +301,12 @@ SUBROUTINE tbpm_accond(Bes, n_Bes, beta, mu, s_indptr, n_indptr, &
             REAL(corrval(4)), AIMAG(corrval(4))
 #endif
 
+        ! update output array
+        corr(1, 1) = corr(1, 1) + corrval(1) / n_ran_samples
+        corr(2, 1) = corr(2, 1) + corrval(2) / n_ran_samples
+        corr(3, 1) = corr(3, 1) + corrval(3) / n_ran_samples
+        corr(4, 1) = corr(4, 1) + corrval(4) / n_ran_samples
+
         ! iterate over time
         ! Norm check is performed for psi2. It can also be done for psi1_x
         ! and psi1_y.
-- 
2.43.0


From ec44ae74e92b70bb0b77fbc7f84a4bbc5d595c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:19 +0000
Subject: [PATCH 24/38] fix: terminate the Haydock recursion when the space is
 exhausted

---
 tbplas/fortran/propagation.f90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tbplas/fortran/propagation.f90 b/tbplas/fortran/propagation.f90
index cc68b7f..b83a1bc 100644
--- a/tbplas/fortran/propagation.f90
+++ b/tbplas/fortran/propagation.f90
@@ -121,11 +121,17 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
     !   p2, n2 -> ni+1
     !   p_buf, n_buf -> H|ni> and mi+1
 
+    ! The recursion terminates if it has exhausted the space, i.e., mi+1 = 0.
+    ! Then the remaining coefficients do not contribute to Green's function.
+    coefa = 0D0
+    coefb = 0D0
+
     ! get initial values for a and b
     n_buf = amv(H_rescale, H_csr, n1)  ! n_buf = H|n1>
     coefa(1) = inner_prod(n1, n_buf)   ! a1 = <n1|H|n1> = <n1|n_buf>
     CALL axpy(-coefa(1), n1, n_buf)    ! m2 = (H - a1)|n1> = |n_buf> - a1|n1>
     coefb(1) = norm(n_buf)             ! b2 = |m2|
+    IF (coefb(1) == 0D0) RETURN
     n2 = n_buf / coefb(1)              ! n2 = m2 / b2
 
     ! initialize pointers
@@ -144,6 +150,7 @@ SUBROUTINE Haydock_coef(n1, n_depth, H_csr, H_rescale, coefa, coefb)
         ! mi+1 = (H - ai)|ni> - bi|ni-1> = n_buf - ai|ni> - bi|ni-1>
         CALL axpbypz(-coefa(i), p2, -coefb(i-1), p1, p_buf)
         coefb(i) = norm(p_buf)             ! bi+1 = |mi+1|
+        IF (coefb(i) == 0D0) EXIT
         p_buf = p_buf / coefb(i)           ! ni+1 = mi+1 / bi+1
 
         ! update pointers
-- 
2.43.0


From 1548fa84c16c16e20faf770086d0a7d98b6aca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:44 +0000
Subject: [PATCH 25/38] fix: check the parameters of DC_conductivity and
 quasi_eigenstates

---
 tbplas/tbpm/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tbplas/tbpm/config.py b/tbplas/tbpm/config.py
index 5df56a4..b8677bb 100644
--- a/tbplas/tbpm/config.py
+++ b/tbplas/tbpm/config.py
@@ -140,6 +140,8 @@ class Config:
         self._legal_params = {
             'generic': set(self.generic.keys()),
             'LDOS': set(self.LDOS.keys()),
+            'DC_conductivity': set(self.DC_conductivity.keys()),
+            'quasi_eigenstates': set(self.quasi_eigenstates.keys()),
             'dyn_pol': set(self.dyn_pol.keys()),
             'dckb': set(self.dckb.keys())
         }
@@ -161,6 +163,8 @@ class Config:
 
         _check(self.generic, 'generic')
         _check(self.LDOS, 'LDOS')
+        _check(self.DC_conductivity, 'DC_conductivity')
+        _check(self.quasi_eigenstates, 'quasi_eigenstates')
         _check(self.dyn_pol, 'dyn_pol')
         _check(self.dckb, 'dckb')
 
-- 
2.43.0


From 7c8a5326dc991e8db9eb58acd636f0caa7309518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:53 +0000
Subject: [PATCH 26/38] fix: do not read beyond short expansions of the Fermi
 operator

---
 tbplas/fortran/funcs.f90       |  2 +-
 tbplas/fortran/propagation.f90 | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tbplas/fortran/funcs.f90 b/tbplas/fortran/funcs.f90
index 8f0afaf..f0e6f22 100644
--- a/tbplas/fortran/funcs.f90
+++ b/tbplas/fortran/funcs.f90
@@ -114,7 +114,7 @@ SUBROUTINE get_Fermi_cheb_coef(cheb_coef, n_cheb, nr_Fermi, &
     END DO
     !$OMP END PARALLEL DO
 
-    DO i = 1, n_cheb
+    DO i = 1, n_cheb - 1
         IF((ABS(cheb_coef(i)) < eps) .AND. (ABS(cheb_coef(i + 1)) < eps)) THEN
             n_cheb = i
             EXIT
diff --git a/tbplas/fortran/propagation.f90 b/tbplas/fortran/propagation.f90
index b83a1bc..6acaae2 100644
--- a/tbplas/fortran/propagation.f90
+++ b/tbplas/fortran/propagation.f90
@@ -62,13 +62,19 @@ FUNCTION Fermi(H_csr, cheb_coef, wf_in) RESULT(wf_out)
 
     ! declare vars
     INTEGER :: i
+    REAL(KIND=8), DIMENSION(3) :: coef
     COMPLEX(KIND=8), DIMENSION(SIZE(wf_in)), TARGET :: Tcheb0, Tcheb1
     COMPLEX(KIND=8), DIMENSION(:), POINTER :: p0, p1, p2
 
+    ! the expansion may have less than 3 terms
+    coef = 0D0
+    DO i = 1, MIN(3, SIZE(cheb_coef))
+        coef(i) = cheb_coef(i)
+    END DO
+
     Tcheb0 = H_csr * wf_in
     Tcheb1 = amv(2D0, H_csr, Tcheb0) .pSub. wf_in(:)
-    wf_out = axpbypcz(cheb_coef(1), wf_in, cheb_coef(2), Tcheb0, &
-                      cheb_coef(3), Tcheb1)
+    wf_out = axpbypcz(coef(1), wf_in, coef(2), Tcheb0, coef(3), Tcheb1)
 
     p0 => Tcheb0
     p1 => Tcheb1
-- 
2.43.0


From f3b82a84fe0537336ed717680a45bbb95b1a15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 27/38] fix: divide Wannier90 hopping terms by the degeneracies
 of their grid points

The degeneracies in seed_name_hr.dat were skipped, so terms on the boundary of
the Wigner-Seitz cell were counted several times.
---
 tbplas/adapter/wannier90.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1068cba..1501de4 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -91,14 +91,19 @@ def read_hop(seed_name: str = "wannier90") -> Tuple[List[rn5_type], List[complex
     """
     with open(f"{seed_name}_hr.dat", "r") as hr_file:
         hr_content = hr_file.readlines()
+    num_wan = int(hr_content[1])
     nl_hopping = int(hr_content[2])
     nl_skip = 3 + int(np.ceil(nl_hopping / 15))
+    # Degeneracies of the Wigner-Seitz grid points, by which the hopping terms
+    # should be divided
+    degen = [int(x) for line in hr_content[3:nl_skip] for x in line.split()]
     hop_ind, hop_eng = [], []
-    for line in hr_content[nl_skip:]:
+    for i_l, line in enumerate(hr_content[nl_skip:]):
         data = line.split()
         ind = (int(data[0]), int(data[1]), int(data[2]),
                int(data[3])-1, int(data[4])-1)
         eng = float(data[5]) + 1j * float(data[6])
+        eng /= degen[i_l // num_wan**2]
         hop_ind.append(ind)
         hop_eng.append(eng)
     return hop_ind, hop_eng
-- 
2.43.0


From d3f5b8b134d6f9249c2f674cfb646f4a994db478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:44 +0000
Subject: [PATCH 28/38] fix: accumulate terms moved to the same place when
 applying wsvec corrections

---
 tbplas/adapter/wannier90.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/tbplas/adapter/wannier90.py b/tbplas/adapter/wannier90.py
index 1501de4..03fffae 100644
--- a/tbplas/adapter/wannier90.py
+++ b/tbplas/adapter/wannier90.py
@@ -151,23 +151,17 @@ def apply_wsvec(wsvec: dict,
     :param hop_eng: hopping energies in eV
     :return: None
     """
-    for ind_0 in wsvec.keys():
-        # Back up and reset original hopping term
-        ih_0 = hop_ind.index(ind_0)
-        eng_bak = hop_eng[ih_0]
-        hop_eng[ih_0] = 0.0
-
-        # Apply correction vector
-        num_vec = len(wsvec[ind_0])
-        for vec in wsvec[ind_0]:
+    # Several terms may be moved to the same place, and some of the places may
+    # have corrections themselves. So collect them from the original terms.
+    hop_dict = dict()
+    for ind_0, eng_0 in zip(hop_ind, hop_eng):
+        vectors = wsvec.get(ind_0, [(0, 0, 0)])
+        for vec in vectors:
             ind_1 = (ind_0[0] + vec[0], ind_0[1] + vec[1], ind_0[2] + vec[2],
                      ind_0[3], ind_0[4])
-            if ind_1 in hop_ind:
-                ih_1 = hop_ind.index(ind_1)
-                hop_eng[ih_1] = eng_bak / num_vec
-            else:
-                hop_ind.append(ind_1)
-                hop_eng.append(eng_bak / num_vec)
+            hop_dict[ind_1] = hop_dict.get(ind_1, 0.0) + eng_0 / len(vectors)
+    hop_ind[:] = hop_dict.keys()
+    hop_eng[:] = hop_dict.values()
 
 
 def wan2pc(seed_name: str = "wannier90",
-- 
2.43.0


From 8b57ab2e31a992ef7067fb8e584f1eaf9ff4888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:42 +0000
Subject: [PATCH 29/38] fix: respect the length of c-axis when reshaping
 graphene into rectangular cell

---
 tbplas/materials/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/materials/graphene.py b/tbplas/materials/graphene.py
index 7891deb..10ff245 100644
--- a/tbplas/materials/graphene.py
+++ b/tbplas/materials/graphene.py
@@ -66,7 +66,7 @@ def make_graphene_rect(from_scratch: bool = True,
         cell.add_hopping((1, 0), 3, 1, t)
         cell.add_hopping((1, 0), 2, 0, t)
     else:
-        cell = make_graphene_diamond(t=t)
+        cell = make_graphene_diamond(c=c, t=t)
         lat_frac = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]])
         cell = reshape_prim_cell(cell, lat_frac)
     return cell
-- 
2.43.0


From af7e63da2a2bd30680e713e7463867da8c2cdc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 30/38] fix: keep the orientation of scalar fields on grids
 with different numbers of points

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 88e8070..925e371 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -338,7 +338,7 @@ class Visualizer(MPIEnv):
                 x_grid, y_grid = np.meshgrid(x_fi, y_fi)
                 xy_fi = np.c_[x_grid.ravel(), y_grid.ravel()]
                 z_fi = griddata((x, y), z, xy_fi, method="cubic")
-                z_fi = z_fi.reshape(num_grid)
+                z_fi = z_fi.reshape(x_grid.shape)
                 extent = (x_min, x_max, y_min, y_max)
                 img = ax.imshow(z_fi, cmap=cmap, interpolation="none",
                                 origin="lower", extent=extent, **kwargs)
-- 
2.43.0


From 85806ba943a9626f3eb3a9ed948893f173b7218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 31/38] fix: make the default rn_max of plot_wfc3d usable

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 925e371..9238a8a 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -503,7 +503,7 @@ class Visualizer(MPIEnv):
             k_point = [0, 0, 0]
         k_point = np.array(k_point, dtype=np.float64)
         if rn_max is None:
-            rn_max = np.zeros(3)
+            rn_max = np.zeros(3, dtype=np.int32)
         rn_frac = np.array([(i, j, k)
                             for i in range(-rn_max[0], rn_max[0] + 1)
                             for j in range(-rn_max[1], rn_max[1] + 1)
-- 
2.43.0


From 17c9d2e4b87678c8066c4278b46e60b03d7eec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 32/38] fix: draw the orbitals of the home cell when conjugate
 terms are not plotted

---
 tbplas/builder/primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index c1bc8bc..fd876c0 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -668,8 +668,8 @@ class PrimitiveCell(Observable):
                     rn_range[i, 0] = min([ri_min, ri_max, -ri_min, -ri_max])
                     rn_range[i, 1] = max([ri_min, ri_max, -ri_min, -ri_max])
                 else:
-                    rn_range[i, 0] = ri_min
-                    rn_range[i, 1] = ri_max
+                    rn_range[i, 0] = min(ri_min, 0)
+                    rn_range[i, 1] = max(ri_max, 0)
         ra_min, ra_max = rn_range.item(0, 0), rn_range.item(0, 1)
         rb_min, rb_max = rn_range.item(1, 0), rn_range.item(1, 1)
         rc_min, rc_max = rn_range.item(2, 0), rn_range.item(2, 1)
-- 
2.43.0


From 46c89389c491b7564456a1a6def88bf39dbd27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 33/38] fix: evaluate s orbitals at the nucleus in set_cube

---
 tbplas/cython/atom.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/cython/atom.pyx b/tbplas/cython/atom.pyx
index a0fee2f..029c416 100644
--- a/tbplas/cython/atom.pyx
+++ b/tbplas/cython/atom.pyx
@@ -203,7 +203,7 @@ def set_cube(double [::1] c0, int[::1] qn, double[::1] cube_origin,
             for k in range(num_grid[2]):
                 dz = zmin + res * k - c0[2]
                 r = sqrt(dx2y2 + dz**2)
-                if r < 1.0e-7:
+                if r < 1.0e-7 and l > 0:
                     gridval = 0.0
                 else:
                     gridval = _radial(z, n, l, r) * _ylm(l, m, dx, dy, dz, r) * factor
-- 
2.43.0


From fb20faac797d519c60f159b8a3a1bb9581f9774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 34/38] fix: accept integer weights in ParamFit

---
 tbplas/builder/advanced.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/builder/advanced.py b/tbplas/builder/advanced.py
index 5cf8c4a..929f6dd 100644
--- a/tbplas/builder/advanced.py
+++ b/tbplas/builder/advanced.py
@@ -1449,7 +1449,7 @@ class ParamFit(ABC):
             if weights.shape[0] != num_bands:
                 raise ValueError(f"Length of weights should be {num_bands}")
             weights = np.abs(weights)
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._weights = weights
 
     @abstractmethod
-- 
2.43.0


From 5fb39f0a40800910230bccc2349da6c886355e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 35/38] fix: add_hopping_dict leaves the cell unchanged if any
 term is illegal

---
 tbplas/builder/primitive.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tbplas/builder/primitive.py b/tbplas/builder/primitive.py
index fd876c0..1155275 100644
--- a/tbplas/builder/primitive.py
+++ b/tbplas/builder/primitive.py
@@ -406,15 +406,23 @@ class PrimitiveCell(Observable):
         :param hop_dict: hopping dictionary
         :return: None
         :raises LockError: if the primitive cell is locked
+        :raises PCOrbIndexError: if any orbital index falls out of range
+        :raises PCHopDiagonalError: if on-site energies are included in hopping
+            matrix
         """
         self.check_lock()
         hop_dict.to_spare()
+        hop_terms = []
         for rn, hop_mat in hop_dict.hoppings.items():
             for i in range(hop_mat.nnz):
                 orb_i = hop_mat.row.item(i)
                 orb_j = hop_mat.col.item(i)
                 hop_eng = hop_mat.data.item(i)
-                self.add_hopping(rn, orb_i, orb_j, hop_eng)
+                # Check all the terms before adding any of them
+                self._check_hop_index(rn, orb_i, orb_j)
+                hop_terms.append((rn, orb_i, orb_j, hop_eng))
+        for rn, orb_i, orb_j, hop_eng in hop_terms:
+            self.add_hopping(rn, orb_i, orb_j, hop_eng)
 
     def get_hopping(self, rn: rn_type,
                     orb_i: int,
-- 
2.43.0


From a650b1ead224511424f54674dd1b2badd887fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 36/38] fix: refused supercells and samples neither lock nor
 subscribe to their components

---
 tbplas/builder/sample.py | 7 +++++--
 tbplas/builder/super.py  | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 09b3276..44fbd81 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -80,8 +80,6 @@ class Sample(Observable):
                 self._hop_list.append(arg)
             else:
                 raise exc.SampleCompError(i_arg)
-            arg.add_subscriber(f"sample #{id(self)}", self)
-            arg.lock(f"sample #{id(self)}")
 
         # Check closure of inter-hopping instances
         for i_h, hop in enumerate(self._hop_list):
@@ -90,6 +88,11 @@ class Sample(Observable):
             if hop.sc_ket not in self._sc_list:
                 raise exc.SampleClosureError(i_h, "sc_ket")
 
+        # Lock the components after all of them have been checked
+        for arg in args:
+            arg.add_subscriber(f"sample #{id(self)}", self)
+            arg.lock(f"sample #{id(self)}")
+
         # Declare arrays
         # The actual initialization will be done on-demand in init_* methods.
         self.orb_eng = None
diff --git a/tbplas/builder/super.py b/tbplas/builder/super.py
index f0da258..68de015 100644
--- a/tbplas/builder/super.py
+++ b/tbplas/builder/super.py
@@ -118,10 +118,8 @@ class OrbitalSet(Observable):
         """
         super().__init__()
 
-        # Set and lock the primitive cell
+        # Set the primitive cell
         self._prim_cell = prim_cell
-        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
-        self._prim_cell.lock(f"supercell #{id(self)}")
         self._prim_cell.verify_orbitals()
         self._prim_cell.verify_hoppings()
 
@@ -156,6 +154,10 @@ class OrbitalSet(Observable):
         if vacancies is not None:
             self.add_vacancies(vacancies)
 
+        # Lock the primitive cell after all the arguments have been checked
+        self._prim_cell.add_subscriber(f"supercell #{id(self)}", self)
+        self._prim_cell.lock(f"supercell #{id(self)}")
+
     def __hash__(self) -> int:
         """Return the hash of this instance."""
         fp = (self._prim_cell, tuple(self._dim), tuple(self._pbc),
-- 
2.43.0


From 1bc14e223976335f89af628d15e5c2fbee58d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 37/38] fix: initializing energies or hopping terms of a
 rescaled sample by force keeps them consistent

---
 tbplas/builder/sample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tbplas/builder/sample.py b/tbplas/builder/sample.py
index 44fbd81..dc45d18 100644
--- a/tbplas/builder/sample.py
+++ b/tbplas/builder/sample.py
@@ -137,6 +137,8 @@ class Sample(Observable):
         if force_init or self.orb_eng is None:
             orb_eng = [sc.get_orb_eng() for sc in self._sc_list]
             self.orb_eng = np.concatenate(orb_eng)
+            # NOTE: the hopping terms may have already been rescaled.
+            self.orb_eng /= self._rescale
 
     def init_orb_pos(self, force_init: bool = False) -> None:
         """
@@ -198,6 +200,8 @@ class Sample(Observable):
             self.dr = np.concatenate(dr_tot)
 
             # Reset scaling factor
+            if self.orb_eng is not None:
+                self.orb_eng *= self._rescale
             self._rescale = 1.0
 
     def reset_array(self) -> None:
@@ -209,12 +213,12 @@ class Sample(Observable):
         :raises ValueError: if duplicate terms have been detected in any
             inter-hopping
         """
+        if self.hop_i is not None:
+            self.init_hop(force_init=True)
         if self.orb_eng is not None:
             self.init_orb_eng(force_init=True)
         if self.orb_pos is not None:
             self.init_orb_pos(force_init=True)
-        if self.hop_i is not None:
-            self.init_hop(force_init=True)
         for arg in self._sc_list:
             arg.lock(f"sample #{id(self)}")
         for arg in self._hop_list:
-- 
2.43.0


From 28aa873882d9107d63ed5d54802f41b9ec5e14dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:24 +0000
Subject: [PATCH 38/38] fix: keep values with three-digit exponents apart in
 cube files

---
 tbplas/visual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tbplas/visual.py b/tbplas/visual.py
index 9238a8a..26f88f2 100644
--- a/tbplas/visual.py
+++ b/tbplas/visual.py
@@ -592,7 +592,7 @@ class Visualizer(MPIEnv):
                 for i in range(num_grid[0]):
                     for j in range(num_grid[1]):
                         for k in range(num_grid[2]):
-                            f.write(f"{cube[i, j, k]:13.5e}")
+                            f.write(f" {cube[i, j, k]:12.5e}")
                             counter += 1
                             if counter % 6 == 0:
                                 f.write("\n")
-- 
2.43.0

