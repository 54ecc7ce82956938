From 315d7658c93403eb901447b0b8e2322aae906147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 01/38] fix: HPKOT primitive cell of rhombohedral lattices

The columns of the hR transformation matrix were 1.5 times too long: the
"primitive" cell was not spanned by translations of the crystal.
---
 src/wulfric/constants/_hpkot_convention.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..6c70513 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From 497f24da3620cfa814f8f6653bd9316145c4207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 02/38] fix: plot labels of the high-symmetry point F3

---
 src/wulfric/constants/_kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From 615342de7386aa1eb7621a2f18916efa569425f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 03/38] fix: coordinates of the point Z of aP2 (HPKOT
 convention)

Z had the coordinates of GAMMA, it is (0, 0, 1/2) in table 91 of the reference.
---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From e314662f24c7c80c675b75f39588ba83418ec8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 04/38] fix: orthorhombic crystals with equal lengths in the SC
 convention

get_conventional raised PotentialBugError if two lattice parameters of an
orthorhombic cell were accidentally equal.
---
 src/wulfric/crystal/_conventional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..fad5695 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From 2730acdb2058faef7c395ecc1111378dd892279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 05/38] fix: negative scale factor of POSCAR is the volume of
 the cell

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..7e2a83c 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,7 +100,7 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell[0] *= scale_factor[0]
-- 
2.43.0


From 2464380a4b05a8e0ff7e6ff9ac9582ece25d566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 06/38] fix: three scale factors of POSCAR scale x, y and z
 components

The lattice vectors were scaled instead, while Cartesian positions of the
atoms were already scaled by components.
---
 src/wulfric/io/_vasp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 7e2a83c..4005b55 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -103,9 +103,8 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Scale x, y and z components of every vector
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From 7dc54bdd759cb0cbb4d5f9d57e9bdaa3c5a558bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 07/38] fix: error message of dump_poscar for the unknown
 species

The intended ValueError was replaced by KeyError while composing the message.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 4005b55..9c3278a 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -234,7 +234,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From 5deac602a91109f3a6b916b61c2680c14383729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 08/38] fix: carriage returns in the comment of dump_poscar

A carriage return is a line break for the text files, thus the written file could
not be read back.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 9c3278a..89d969f 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -219,7 +219,7 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = comment.replace("\r", " ").replace("\n", " ")
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From 7d43691267280f15940f47aeff8aabbdfd23da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 09/38] fix: cure_negative for a single atom with position
 given as a list

---
 src/wulfric/crystal/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..9b2319a 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,7 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
+    min_values = np.array(atoms["positions"][0], dtype=float)
     for position in atoms["positions"][1:]:
         min_values = np.minimum(min_values, position)
 
-- 
2.43.0


From 61b94a2a39de1804b8352eec9cc0f627f7700a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 10/38] fix: returned atoms are independent of spglib_data and
 can be passed back

get_conventional and get_primitive returned the arrays of spglib_data themselves,
and spglib_types as an array of int32, which validate_atoms rejects.
---
 src/wulfric/crystal/_conventional.py | 6 ++++--
 src/wulfric/crystal/_primitive.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index fad5695..7290d5e 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -796,7 +796,9 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
         )
 
     # Create conventional atoms
-    conv_atoms = dict(positions=conv_positions)
+    # Note: make copies, as spglib_data can be reused
+    conv_cell = np.array(conv_cell, dtype=float)
+    conv_atoms = dict(positions=np.array(conv_positions, dtype=float))
 
     # Get mapping from original atoms to conventional ones through types
     types_mapping = {
@@ -812,6 +814,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in conv_atoms:
-        conv_atoms["spglib_types"] = conv_types
+        conv_atoms["spglib_types"] = [int(type_index) for type_index in conv_types]
 
     return conv_cell, conv_atoms
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..6ed672b 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -285,7 +285,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
         )
 
     # Create primitive atoms
-    prim_atoms = dict(positions=prim_positions)
+    # Note: make copies, as spglib_data can be reused
+    prim_cell = np.array(prim_cell, dtype=float)
+    prim_atoms = dict(positions=np.array(prim_positions, dtype=float))
 
     # Get mapping from original atoms to primitive ones through types
     types_mapping = {}
@@ -302,6 +304,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = [int(type_index) for type_index in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From f6cbf0ee4acb279b504db57dc5a978151d83c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 11/38] fix: get_primitive populates keys based on the last
 atom of each type

As it is documented and as get_conventional does.
---
 src/wulfric/crystal/_primitive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 6ed672b..afa9128 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -290,10 +290,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     prim_atoms = dict(positions=np.array(prim_positions, dtype=float))
 
     # Get mapping from original atoms to primitive ones through types
-    types_mapping = {}
-    for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+    types_mapping = {
+        type_index: index for index, type_index in enumerate(spglib_data.original_types)
+    }
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From 543a9584575fe4cb97d3f136b1744b90f559ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 12/38] fix: distances between the atoms in get_primitive

Distances in relative coordinates were compared with the tolerance that is given
in the units of length, periodicity was not accounted for.
---
 src/wulfric/crystal/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index afa9128..b88dbb4 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,12 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between (the closest images of the) atoms
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    differences = differences - np.round(differences)
+    distances = np.linalg.norm(differences @ prim_cell, axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From ad5e1e01de09815f1c52fb647754354f3649e1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 13/38] fix: Kpoints keep their own list of names

add_hs_point and remove_hs_point were modifying the list given by the user.
---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From 0c687f3bab72a50a973e955dfca62fd185a94b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 14/38] fix: Kpoints with less than two points

coordinates are optional, but Kpoints could not be created without them as the
default path was rejected.
---
 src/wulfric/_kpoints_class.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..75abe69 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -120,7 +120,8 @@ class Kpoints:
 
         self._path = None
         if path is None:
-            path = "-".join(self.hs_names)
+            # There is no path with less than two points
+            path = "-".join(self.hs_names) if len(self.hs_names) > 1 else []
         self.path = path
 
     @staticmethod
@@ -479,6 +480,9 @@ class Kpoints:
                     points = new_points
                 else:
                     points = np.concatenate((points, new_points))
+        # Empty path
+        if points is None:
+            return np.zeros((0, 3), dtype=float)
         return points
 
     # It can not just call for points and flatten them,
@@ -525,6 +529,9 @@ class Kpoints:
                 else:
                     delta += flat_points[-1]
                     flat_points = np.concatenate((flat_points, delta))
+        # Empty path
+        if flat_points is None:
+            return np.zeros(0, dtype=float)
         return flat_points
 
     ################################################################################
-- 
2.43.0


From 17d4f1d87f68e4d45bbcb66dc59da0ddab7b527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 15/38] fix: path of Kpoints after the point is removed

Removed point was left in the path, thus labels, ticks(), points() and
flat_points() were raising KeyError.
---
 src/wulfric/_kpoints_class.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index 75abe69..d833507 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -278,6 +278,9 @@ class Kpoints:
         r"""
         Removes high-symmetry point.
 
+        Segments of the ``path`` that start or end at the removed point are removed from
+        the ``path`` as well.
+
         Parameters
         ----------
         name : str
@@ -289,6 +292,19 @@ class Kpoints:
             del self.hs_coordinates[name]
             del self.hs_labels[name]
 
+            # Cut the path at the removed point
+            new_path = []
+            for subpath in self._path:
+                part = []
+                for point in subpath + [name]:
+                    if point != name:
+                        part.append(point)
+                        continue
+                    if len(part) > 1:
+                        new_path.append(part)
+                    part = []
+            self._path = new_path
+
     ################################################################################
     #                                Path attributes                               #
     ################################################################################
-- 
2.43.0


From 3d819e3e3ed3b2bc251ed41a17369306f13377f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 16/38] fix: tolerance in the step 4 of the niggli reduction

Signs of xi, eta, zeta were compared with default eps instead of the same eps as
in all other steps: for the values in between the transformation was inconsistent
with the parameters.
---
 src/wulfric/cell/_niggli.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..b99ad28 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -112,21 +112,21 @@ def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From cb581453766a38eccd8f019a0610433d3359d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 17/38] fix: get_niggli raises ValueError for the cell with
 zero volume

As documented. It was not checked for the default implementation.
---
 src/wulfric/cell/_niggli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index b99ad28..ea403d9 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -352,6 +352,10 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
 
     implementation = implementation.lower()
 
+    volume = get_volume(cell)
+    if volume == 0:
+        raise ValueError("Cell volume is zero")
+
     if implementation == "spglib":
         if spglib is None:
             raise ImportError(
@@ -364,10 +368,6 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             'Supported are "spglib" and "wulfric".'
         )
 
-    volume = get_volume(cell)
-    if volume == 0:
-        raise ValueError("Cell volume is zero")
-
     eps = eps_relative * volume ** (1 / 3.0)
 
     # 0
-- 
2.43.0


From 43427500ad032ffd6ca4d5728b9fe5d3ae1ba7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 18/38] fix: get_transformation_matrix accepts any array-like

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..7e2d71d 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.transpose(transformed_cell)
-- 
2.43.0


From 9685bfeb8d6c004e220ce5a0b51db3e0401d123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 19/38] fix: get_unique_names returns unique names

Names with the index added could coincide with other names, for instance for
[A, A, A1] and repeated-only strategy.
---
 src/wulfric/crystal/_atoms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..bf9b7fe 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -253,6 +253,12 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
 
     if names_are_not_unique and strategy == "all":
         unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
+        # Names might still be the same (A1 + 1 = A + 11), pad the index in that case
+        if len(unique_names) != len(set(unique_names)):
+            width = len(str(len(unique_names)))
+            unique_names = [
+                f"{name}{i + 1:0{width}}" for i, name in enumerate(atoms["names"])
+            ]
 
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
@@ -261,12 +267,17 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
                 counter[name] = [1, 1]
             else:
                 counter[name][1] += 1
+        # Do not create a name that is already taken
+        taken_names = set(unique_names)
 
         for i in range(len(unique_names)):
             name = unique_names[i]
             total = counter[name][1]
             if total > 1:
+                while f"{name}{counter[name][0]}" in taken_names:
+                    counter[name][0] += 1
                 unique_names[i] += str(counter[name][0])
+                taken_names.add(unique_names[i])
                 counter[name][0] += 1
 
     return unique_names
-- 
2.43.0


From 06861a26b763ee899d8b2fa86f667bd692e9f392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 20/38] fix: azimuthal angle when radial_line_zero is not
 perpendicular to polar_axis

---
 src/wulfric/geometry/_geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wulfric/geometry/_geometry.py b/src/wulfric/geometry/_geometry.py
index d2ecc35..eeb1195 100644
--- a/src/wulfric/geometry/_geometry.py
+++ b/src/wulfric/geometry/_geometry.py
@@ -425,6 +425,13 @@ def get_spherical(
         vector = vector - polar_axis * np.dot(vector, polar_axis)
         vector /= np.linalg.norm(vector)
 
+        # Zero of the radial line has to be in the plane perpendicular to the polar axis
+        projection = radial_line_zero - polar_axis * np.dot(
+            radial_line_zero, polar_axis
+        )
+        if np.linalg.norm(projection) > 1e-8:
+            radial_line_zero = projection / np.linalg.norm(projection)
+
         # This one is more complex, as it is from 0 to 360
         azimuthal = float(np.arccos(np.clip(np.dot(vector, radial_line_zero), -1, 1)))
 
-- 
2.43.0


From 2b184b49a58e16ca81988d32a4daa967f59406e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 21/38] fix: colors of Pd and Er

They were not valid colors, PlotlyEngine.plot_atoms raised ValueError for Er.
---
 src/wulfric/constants/_atoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_atoms.py b/src/wulfric/constants/_atoms.py
index 11ecbc9..0f9ac15 100644
--- a/src/wulfric/constants/_atoms.py
+++ b/src/wulfric/constants/_atoms.py
@@ -316,7 +316,7 @@ ATOM_COLORS = {
     "Tc": "#3B9E9E",
     "Ru": "#248F8F",
     "Rh": "#0A7D8C",
-    "Pd": "#6985",
+    "Pd": "#006985",
     "Ag": "#C0C0C0",
     "Cd": "#FFD98F",
     "In": "#A67573",
@@ -338,7 +338,7 @@ ATOM_COLORS = {
     "Tb": "#30FFC7",
     "Dy": "#1FFFC7",
     "Ho": "#00FF9C",
-    "Er": "#",
+    "Er": "#00E675",
     "Tm": "#00D452",
     "Yb": "#00BF38",
     "Lu": "#00AB24",
-- 
2.43.0


From ef438feb2572129bcb240640d287a467fbe8a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 22/38] fix: range of the axes accounts for all subpaths in
 plot_kpath

---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..091e286 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -764,17 +764,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From 263896f99b27d2f53c91ab590d209d9b6737f24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 23/38] fix: plotted objects do not fall outside of the range
 of the axes

Positive minima and negative maxima were moved inwards by 5%.
---
 src/wulfric/_plotly_engine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 091e286..d233731 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -125,9 +125,12 @@ class PlotlyEngine:
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            xlim = self.x_range[(row, col)]
+            xlim = xlim + 0.05 * np.abs(xlim) * [-1, 1]
+            ylim = self.y_range[(row, col)]
+            ylim = ylim + 0.05 * np.abs(ylim) * [-1, 1]
+            zlim = self.z_range[(row, col)]
+            zlim = zlim + 0.05 * np.abs(zlim) * [-1, 1]
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From f811129248fc39dd1660e04a9b9f7135f379aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 24/38] fix: documented values of colors in plot_atoms

Single color and named colors were raising ValueError.
---
 src/wulfric/_plotly_engine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index d233731..99f48cc 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -51,7 +51,11 @@ _LEGEND_SETTINGS = {
 # Source: https://gamedev.stackexchange.com/questions/38536/given-a-rgb-color-x-how-to-find-the-most-contrasting-color-y
 def _get_good_contrast(hex_color):
     hex_color = hex_color[1:]
-    R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
+    try:
+        R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
+    # Other formats of colors, that are supported by plotly
+    except ValueError:
+        return "#000000"
 
     gamma = 2.2
     L = 0.2126 * R**gamma + 0.7152 * G**gamma + 0.0722 * B**gamma
@@ -1032,7 +1036,10 @@ class PlotlyEngine:
 
             colors = [ATOM_COLORS[_] for _ in species]
 
-        text_color = [_get_good_contrast(color) for color in colors]
+        if isinstance(colors, str):
+            text_color = _get_good_contrast(colors)
+        else:
+            text_color = [_get_good_contrast(color) for color in colors]
 
         # Prepare hover info
         if add_hoverinfo:
-- 
2.43.0


From 42cef528a4fe3be31604a6f502c2ad1a755999f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 25/38] fix: hs_table of Kpoints without points

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index d833507..f5005f3 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -594,7 +594,7 @@ class Kpoints:
         """
 
         d = decimals
-        nd = max([len(name) for name in self.hs_names])
+        nd = max([len(name) for name in self.hs_names], default=0)
         table = [
             (
                 f"{'Name':<{nd}}  "
-- 
2.43.0


From 8dd498240d4d19394469eb57294ca3edb2c82d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 26/38] fix: load_poscar looks for the POSCAR file in the given
 directory

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 89d969f..2bde060 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From ce3cba04b4254d3208811b45eacf323a78788f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 27/38] fix: index of repeated names starts with 1 unless the
 name is taken

---
 src/wulfric/crystal/_atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index bf9b7fe..ff995a0 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -268,7 +268,7 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
         # Do not create a name that is already taken
-        taken_names = set(unique_names)
+        taken_names = set(name for name in counter if counter[name][1] == 1)
 
         for i in range(len(unique_names)):
             name = unique_names[i]
-- 
2.43.0


From 0307b87714738141c1f17b76588004d37c0184ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 28/38] fix: dump_poscar does not touch the file if the
 arguments are wrong

---
 src/wulfric/io/_vasp.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 2bde060..fd40294 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -21,6 +21,7 @@
 import os
 from calendar import month_name
 from datetime import datetime
+from io import StringIO
 
 import numpy as np
 
@@ -256,11 +257,8 @@ def dump_poscar(
             atom_species[atom[0]] += 1
         atom_coordinates.append(atom[1])
 
-    # Open file if needed
-    if isinstance(file_object, str):
-        file_object = open(file_object, "w", encoding="utf-8")
-
-    # Write
+    # Write to the buffer, file is opened only when its whole content is known
+    output, file_object = file_object, StringIO()
     file_object.write(comment + "\n")
     file_object.write("1.0\n")
     for vector_index in range(3):
@@ -285,3 +283,10 @@ def dump_poscar(
                 f"{coordinate[component_index]:{decimals + 5}.{decimals}f} "
             )
         file_object.write("\n")
+
+    # Open file if needed
+    if isinstance(output, str):
+        output = open(output, "w", encoding="utf-8")
+
+    # Write
+    output.write(file_object.getvalue())
-- 
2.43.0


From e007a9e9cd1af0f4007f319376f5ba984e0983db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 29/38] fix: flat and single-point figures have ranges and
 aspect ratio

---
 src/wulfric/_plotly_engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 99f48cc..88ec34d 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -136,6 +136,14 @@ class PlotlyEngine:
             zlim = self.z_range[(row, col)]
             zlim = zlim + 0.05 * np.abs(zlim) * [-1, 1]
 
+            # An axis without extent has no scale
+            extent = max(lim[1] - lim[0] for lim in (xlim, ylim, zlim))
+            padding = 0.5 * (extent if extent > 0 else 1.0)
+            xlim, ylim, zlim = (
+                lim if lim[1] > lim[0] else lim + padding * np.array([-1, 1])
+                for lim in (xlim, ylim, zlim)
+            )
+
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
                 yaxis=dict(range=ylim),
-- 
2.43.0


From 3708b39d5f9b0797c30b754506e6e358196ee847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:34 +0000
Subject: [PATCH 30/38] fix: PlotlyEngine plots on the figure without subplots

---
 src/wulfric/_plotly_engine.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 88ec34d..5dc8fec 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -95,12 +95,16 @@ class PlotlyEngine:
                 'Plotly is not available. Please install it with "pip install plotly"'
             )
 
+        specs = [[{"type": "scene"} for _ in range(cols)] for _ in range(rows)]
         if fig is None:
-            fig = make_subplots(
-                rows=rows,
-                cols=cols,
-                specs=[[{"type": "scene"} for _ in range(cols)] for _ in range(rows)],
-            )
+            fig = make_subplots(rows=rows, cols=cols, specs=specs)
+        else:
+            # Traces are referenced by row and column
+            try:
+                fig.set_subplots(rows=rows, cols=cols, specs=specs)
+            except ValueError:
+                # Figure already has subplots
+                pass
         self.fig = fig
 
         self.fig.update_layout(template="none")
-- 
2.43.0


From 428a27da98a7a489db1cddbc2e26d11f3bfc2846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 31/38] fix: get_niggli raises NiggliReductionFailed if spglib
 fails

---
 src/wulfric/cell/_niggli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ea403d9..7462301 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -361,7 +361,11 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             raise ImportError(
                 "spglib is not installed. Please install it with `pip install spglib`"
             )
-        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        niggli_cell = spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        # spglib returns None if the reduction fails
+        if niggli_cell is None:
+            raise NiggliReductionFailed(max_iterations="internal limit of spglib")
+        return niggli_cell
     elif implementation != "wulfric":
         raise ValueError(
             f"Implementation {implementation} is not supported. "
-- 
2.43.0


From 06431b89b959e8ede13612bcc0153e7b56bf4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 32/38] fix: Voronoi cell of the strongly skewed bases

---
 src/wulfric/cell/_voronoi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wulfric/cell/_voronoi.py b/src/wulfric/cell/_voronoi.py
index f3cb0fb..749f29e 100644
--- a/src/wulfric/cell/_voronoi.py
+++ b/src/wulfric/cell/_voronoi.py
@@ -21,6 +21,7 @@
 import numpy as np
 
 from wulfric.cell._basic_manipulation import get_reciprocal
+from wulfric.cell._niggli import get_niggli
 
 try:
     from scipy.spatial import Voronoi
@@ -117,6 +118,9 @@ def _get_voronoi_cell(cell):
         raise ImportError(
             'SciPy is not available. Please install it with "pip install scipy"'
         )
+    # The Voronoi cell does not depend on the choice of the basis of the lattice, but the
+    # span that is required to find it does. It is smallest for the reduced basis.
+    cell = get_niggli(cell, implementation="wulfric")
     voronoi = Voronoi(get_lattice_points(cell, relative=False, range=(n, n, n)))
     edges_index = set()
     # Thanks ASE for the general idea
-- 
2.43.0


From 523ffd3e9ca968a14a3ebb996cdeaabcccecbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:34 +0000
Subject: [PATCH 33/38] fix: tolerance of the sign of xi*eta*zeta in the niggli
 reduction

---
 src/wulfric/cell/_niggli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index 7462301..da8a8d9 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -32,6 +32,14 @@ except ImportError:
 __all__ = ["get_niggli"]
 
 
+def _is_product_positive(xi, eta, zeta, eps):
+    # The tolerance is meant for xi, eta and zeta, and not for the product of the three
+    positive = sum(compare_with_tolerance(x, ">", 0, eps=eps) for x in (xi, eta, zeta))
+    negative = sum(compare_with_tolerance(x, "<", 0, eps=eps) for x in (xi, eta, zeta))
+
+    return positive + negative == 3 and positive in (1, 3)
+
+
 def _niggli_step_1(A, B, C, xi, eta, zeta, trans_matrix, eps):
     condition = compare_with_tolerance(A, ">", B, eps=eps) or (
         compare_with_tolerance(A, "==", B, eps=eps)
@@ -73,7 +81,7 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _is_product_positive(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,7 +113,7 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _is_product_positive(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
-- 
2.43.0


From bfa2944a10d83e6281933f76edfb1f92bd81eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:12 +0000
Subject: [PATCH 34/38] fix: compare lengths with the tolerance of lengths in
 the variations of the ORCF lattice

The border between the variations was compared as an inverse squared length
with a tolerance on lengths, thus the variation depended on the unit of length
and big lattices a few percent away from the border were taken for ORCF3.
---
 src/wulfric/crystal/_sc_variation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_sc_variation.py b/src/wulfric/crystal/_sc_variation.py
index a56f593..5cd70a1 100644
--- a/src/wulfric/crystal/_sc_variation.py
+++ b/src/wulfric/crystal/_sc_variation.py
@@ -18,7 +18,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 # ================================ END LICENSE =================================
-from math import cos, sin
+from math import cos, sin, sqrt
 
 import numpy as np
 
@@ -107,12 +107,13 @@ def _ORCF_variation(
             f'(convention="SC"): ORCF variation. a < b < c is not satisfied with {distance_tolerance} tolerance.'
         )
 
-    expression = 1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2
-    if cwt(expression, "==", 0, eps=distance_tolerance):
+    # Value of a at the border, as the tolerance is the one for the lengths
+    border_a = 1 / sqrt(1 / conv_b**2 + 1 / conv_c**2)
+    if cwt(conv_a, "==", border_a, eps=distance_tolerance):
         return "ORCF3"
-    elif cwt(expression, ">", 0, eps=distance_tolerance):
+    elif cwt(conv_a, "<", border_a, eps=distance_tolerance):
         return "ORCF1"
-    elif cwt(expression, "<", 0, eps=distance_tolerance):
+    elif cwt(conv_a, ">", border_a, eps=distance_tolerance):
         return "ORCF2"
 
 
-- 
2.43.0


From c7232c3fe9021b1185976e562c4cfde726ca1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 35/38] fix: read the default POSCAR file with the encoding it
 is written with

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index fd40294..16b53f7 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -74,7 +74,7 @@ def load_poscar(file_object=None):
     # Open file if needed
     if file_object is None:
         try:
-            file_object = open("POSCAR")
+            file_object = open("POSCAR", "r", encoding="utf-8")
         except FileNotFoundError:
             raise FileNotFoundError(
                 f'"POSCAR" file not found, looked here: {os.getcwd()}'
-- 
2.43.0


From 09ace202f4bd585908bc57e159f78e144d320e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:59 +0000
Subject: [PATCH 36/38] fix: close the POSCAR file that was opened by the
 function

---
 src/wulfric/io/_vasp.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 16b53f7..653effa 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -71,6 +71,9 @@ def load_poscar(file_object=None):
 
     """
 
+    # The file that is opened here has to be closed here
+    is_opened_here = file_object is None or isinstance(file_object, str)
+
     # Open file if needed
     if file_object is None:
         try:
@@ -92,7 +95,11 @@ def load_poscar(file_object=None):
                     f'"POSCAR" file not found, looked here: {file_object}'
                 )
 
-    lines = file_object.readlines()
+    try:
+        lines = file_object.readlines()
+    finally:
+        if is_opened_here:
+            file_object.close()
 
     comment = lines[0].strip()
 
@@ -286,7 +293,7 @@ def dump_poscar(
 
     # Open file if needed
     if isinstance(output, str):
-        output = open(output, "w", encoding="utf-8")
-
-    # Write
-    output.write(file_object.getvalue())
+        with open(output, "w", encoding="utf-8") as output_file:
+            output_file.write(file_object.getvalue())
+    else:
+        output.write(file_object.getvalue())
-- 
2.43.0


From b4ccdf6ca254b625dade8881bdea827169655ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:50 +0000
Subject: [PATCH 37/38] fix: exceptions of wulfric can be copied and sent
 between processes

---
 src/wulfric/_exceptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wulfric/_exceptions.py b/src/wulfric/_exceptions.py
index 20de1eb..307579e 100644
--- a/src/wulfric/_exceptions.py
+++ b/src/wulfric/_exceptions.py
@@ -53,6 +53,7 @@ class ConventionNotSupported(Exception):
     """
 
     def __init__(self, convention: str, supported_conventions: list):
+        super().__init__(convention, supported_conventions)
         self.message = (
             f'Convention "{convention}" is not supported. Supported conventions are\n  * '
             + "\n  * ".join(supported_conventions)
@@ -68,6 +69,7 @@ class FailedToDeduceAtomSpecies(Exception):
     """
 
     def __init__(self, name: str):
+        super().__init__(name)
         self.message = f"Tried to deduce name from '{name}'. Failed."
 
     def __str__(self):
@@ -80,6 +82,7 @@ class NiggliReductionFailed(Exception):
     """
 
     def __init__(self, max_iterations: int):
+        super().__init__(max_iterations)
         self.message = f"Niggli reduction algorithm reached maximum amount of iterations: {max_iterations}"
 
     def __str__(self):
@@ -88,6 +91,7 @@ class NiggliReductionFailed(Exception):
 
 class PotentialBugError(Exception):
     def __init__(self, error_summary):
+        super().__init__(error_summary)
         self.message = (
             error_summary
             + "\nIf you see this error, than there might be a bug in wulfric."
-- 
2.43.0


From 2b827cc357d94a4435ce9437655fcebaed317ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:33 +0000
Subject: [PATCH 38/38] fix: find the Voronoi cell of a lattice in any unit of
 length

---
 src/wulfric/cell/_voronoi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_voronoi.py b/src/wulfric/cell/_voronoi.py
index 749f29e..0fc6371 100644
--- a/src/wulfric/cell/_voronoi.py
+++ b/src/wulfric/cell/_voronoi.py
@@ -22,6 +22,7 @@ import numpy as np
 
 from wulfric.cell._basic_manipulation import get_reciprocal
 from wulfric.cell._niggli import get_niggli
+from wulfric.geometry._geometry import get_volume
 
 try:
     from scipy.spatial import Voronoi
@@ -120,7 +121,11 @@ def _get_voronoi_cell(cell):
         )
     # The Voronoi cell does not depend on the choice of the basis of the lattice, but the
     # span that is required to find it does. It is smallest for the reduced basis.
-    cell = get_niggli(cell, implementation="wulfric")
+    # Unit of length is the size of the cell, as the tolerance of the reduction has the
+    # dimension of length, but is used for its squares.
+    volume = get_volume(cell)
+    scale = volume ** (1 / 3.0) if volume > 0 else 1.0
+    cell = scale * get_niggli(np.array(cell) / scale, implementation="wulfric")
     voronoi = Voronoi(get_lattice_points(cell, relative=False, range=(n, n, n)))
     edges_index = set()
     # Thanks ASE for the general idea
-- 
2.43.0

