From b9f09885ce66c7e5321ee20faf9cd79cada97e6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 01/73] fix: publish the compiled shim atomically

The compiler wrote straight to the cached library, whose mere presence is
what the lock-free fast path trusts: another process could be handed a
half-written library, and a build killed half-way left one behind for good.
---
 python/qugar/dolfinx/_shim/__init__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..7b291e7 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -26,6 +26,7 @@ import shutil
 import subprocess
 import sys
 import sysconfig
+import tempfile
 import threading
 from pathlib import Path
 
@@ -138,12 +139,20 @@ def ensure_built() -> tuple[Path, str]:
     if lib.exists() and lib.stat().st_mtime >= src_mtime:
         return cache, LIB_NAME
 
-    with _LOCK, _file_lock(cache / ".build.lock"):
+    # The library is compiled into a private directory and moved to its final
+    # place only once complete: callers of the lock-free fast path above (and
+    # later ones, if this build dies half-way) must never see a partial one.
+    with (
+        _LOCK,
+        _file_lock(cache / ".build.lock"),
+        tempfile.TemporaryDirectory(prefix=".build-", dir=cache) as build_dir,
+    ):
         # Double-check under the lock — another rank/process/thread may
         # have built it while we were waiting.
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
+        new_lib = Path(build_dir) / _LIB_FILENAME
         prefix = Path(sys.prefix)
         cmd = [
             str(_find_cxx()),
@@ -156,18 +165,21 @@ def ensure_built() -> tuple[Path, str]:
             "-lbasix",
             f"-Wl,-rpath,{prefix / 'lib'}",
             "-o",
-            str(lib),
+            str(new_lib),
             str(SHIM_SRC),
         ]
         # Align the shim's macOS deployment target with what cffi will use
         # when it links the kernel (otherwise ld warns "built for newer
         # version X" because conda clang's default target is much newer).
         if sys.platform == "darwin":
+            # The install name defaults to the output path: keep the final one.
+            cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
             target = (os.environ.get("MACOSX_DEPLOYMENT_TARGET")
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
         subprocess.run(cmd, check=True)
+        os.replace(new_lib, lib)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From 31b8cb14a2bb7c8f1bd7780ee439eb117ee35003 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 02/73] fix: rebuild the shim when its sources change during
 the build

The library is dated at the end of the build, so an edit made while the
compiler was running went unnoticed by every later call.
---
 python/qugar/dolfinx/_shim/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 7b291e7..d44af90 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -178,7 +178,13 @@ def ensure_built() -> tuple[Path, str]:
                       or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
             if target:
                 cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+        # The library's time stamp is the one of the end of the build: make sure
+        # it does not vouch for sources edited while the compiler was running.
+        while True:
+            compiled = max(SHIM_SRC.stat().st_mtime, Path(__file__).stat().st_mtime)
+            subprocess.run(cmd, check=True)
+            if compiled == max(SHIM_SRC.stat().st_mtime, Path(__file__).stat().st_mtime):
+                break
         os.replace(new_lib, lib)
         return cache, LIB_NAME
 
-- 
2.43.0


From 0de4d6e72197ed20e6836f7df38661a5fb644ba7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 03/73] fix: hexahedron edge numbering between DOLFINx and
 lexicographical

The tables exchanged lexicographical edges 1 and 2 (the vertical edges of
corners 1 and 2), against TensorProdIndex and the corner numbering.
---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From 325663805a02e944cc57ce2c89047f5f3608ddba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 04/73] fix: TensorProdIndex.get_all_internal returns a flat,
 sorted array

In 2D it returned a matrix, which in 3D was then broadcast against the
third direction, mixing up the indices (or failing).
---
 python/qugar/mesh/tp_index.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..9a680c2 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,17 +95,19 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
+            internals = internals_1D + np.arange(
                 n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
             ).reshape(n_inds[1] - 2, 1)
+            return internals.ravel()
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
+            internals = internals_2D + np.arange(
                 n_inds[0] * n_inds[1],
                 n_inds[0] * n_inds[1] * (n_inds[2] - 1),
                 n_inds[0] * n_inds[1],
                 dtype=np.int64,
             ).reshape(n_inds[2] - 2, 1)
+            return internals.ravel()
 
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
-- 
2.43.0


From 1a1f2086033e5b36051f792f91e78a17fb97216d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 05/73] fix: create_Cartesian_mesh passes the ghost mode and
 type by keyword

They were taken as the active cells and the ghost mode.
---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..8bc2d00 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -606,4 +606,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From 22166de8b501f29067c3699cf48f5c9a485ea11d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/73] fix: get_face_facets takes a lexicographical face id

The id was used as a DOLFINx local facet index without converting it.
---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 8bc2d00..51cdcda 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From 85dde459561a52475c1ae70fecc2882d9a3403a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/73] fix: get_cell_tensor_index on a scalar cell id

Indexing the scalar obtained from a 0-d array raised an IndexError.
---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 51cdcda..8a9e9d9 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -450,7 +450,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 01993daa5bcfae2451280e01edf55af558e4373d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 08/73] fix: _find_in_array on an empty array of values

A subdomain without cells (or nodes) raised instead of reporting the
indices as absent.
---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..43a7a78 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -124,6 +124,9 @@ def _find_in_array(values_to_search: npt.NDArray, all_values: npt.NDArray) -> np
         it returns -1.
     """
 
+    if all_values.size == 0:
+        return np.full(values_to_search.shape, -1, dtype=np.int64)
+
     index = np.argsort(all_values)
     sorted_all_values = all_values[index]
 
-- 
2.43.0


From 55dac033238625a4e422ce43d4aff7ee0e405ca9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 09/73] fix: use local facet indices when creating all/interior
 mesh facets

The global range of the process was used as local indices.
---
 python/qugar/mesh/mesh_facets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..8bd3030 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -478,7 +478,7 @@ if qugar.utils.has_FEniCSx:
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
 
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
@@ -505,6 +505,6 @@ if qugar.utils.has_FEniCSx:
         """
         topology = mesh.topology
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         return create_facets_from_ids(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From 2ba226a8bfcdca0dc296e294a00cf3296859a819 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 10/73] fix: create_facet_tags sets the empty tag to the empty
 facets

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From 50d7a0aab4c16903623c6bd7f54087fecd3a0733 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 11/73] fix: interior empty facets overwrote the cached
 interior cut facets

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From e346b2ea3e582428af3e215a9d0af82a174b6982 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 12/73] fix: nodes coordinates of 1D tensor-product meshes

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 8a9e9d9..52e2484 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -152,7 +152,7 @@ def _create_Cartesian_mesh_nodes_from_points(
     assert 1 <= dim <= 3, "Invalid dimension"
 
     if dim == 1:
-        x = pts_1D[0].copy()
+        x = [pts_1D[0]]
     elif dim == 2:
         x = np.meshgrid(pts_1D[0], pts_1D[1], indexing="xy")
     else:  # dim == 3
-- 
2.43.0


From 11921567e57fd72200efb3b271a584fee0ce5234 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 13/73] fix: make the merged nodes map available in every
 process

The nodes are merged in rank 0 only, so the other ones mapped nodes as if
none had been merged.
---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index 43a7a78..fa43c4a 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -388,6 +388,9 @@ class Mesh(dolfinx.mesh.Mesh):
             n_nodes_per_cell = cmap.dim
             conn = np.empty((0, n_nodes_per_cell), dtype=np.int64, order="C")
 
+        if merge_nodes and comm.size > 1:
+            self._merged_nodes_map = comm.bcast(self._merged_nodes_map, root=0)
+
         if comm.size > 1:
             partitioner = dlf_cpp.mesh.create_cell_partitioner(ghost_mode)
         else:
-- 
2.43.0


From e87384d747a4d5ef9d50864e894a9c7e3b8a038d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 14/73] fix: create the mesh facets before querying them in
 create_all_mesh_facets

---
 python/qugar/mesh/mesh_facets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 8bd3030..2501ca0 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -504,6 +504,7 @@ if qugar.utils.has_FEniCSx:
             MeshFacets: A MeshFacets instance with all facets.
         """
         topology = mesh.topology
+        topology.create_connectivity(topology.dim - 1, topology.dim)
         imap = topology.index_map(topology.dim - 1)
         all_facets = np.arange(imap.size_local, dtype=np.int32)
 
-- 
2.43.0


From 987181648107863b2ea6be9a5fed62aa811fbf44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 15/73] fix: lexicographical comparison of versions

Versions were compared component by component, e.g., 0.9.1 was not found
to be smaller or equal than 0.10.0.
---
 python/qugar/utils.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..92d5a7b 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -102,15 +102,7 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
         bool: ``True`` if version_lhs is smaller or equal than version_rhs,
         ``False`` otherwise.
     """
-    lhs = _extract_version(version_lhs)
-    rhs = _extract_version(version_rhs)
-
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
-    else:
-        return lhs[2] <= rhs[2]
+    return not _compare_version_lt(version_rhs, version_lhs)
 
 
 def check_version_in_range(version, lower, upper) -> bool:
-- 
2.43.0


From f4a1d5e9b7cf07420783f2f1764606b3f4096bd1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 16/73] fix: accept version strings with suffixes
 (post-releases)

Importing qugar next to a package as 0.10.0.post1 raised a ValueError.
---
 python/qugar/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 92d5a7b..f050d76 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -9,6 +9,7 @@
 # --------------------------------------------------------------------------
 
 import importlib.util
+import re
 from typing import Tuple, cast
 
 DOLFINX_VERSION_MIN = "0.10.0"
@@ -54,7 +55,7 @@ The imported UFL version must be smaller than this version.
 
 def _extract_version(version_str: str) -> Tuple[int, int, int]:
     """Extracts the major, minor, and revision numbers of a string with
-    with format "X.Y.Z".
+    with format "X.Y.Z", possibly followed by a suffix (as "X.Y.Z.post1").
 
     Args:
         version_str (str): Version sring with format "X.Y.Z".
@@ -63,9 +64,10 @@ def _extract_version(version_str: str) -> Tuple[int, int, int]:
         Tuple[int,int,int]: Major, minor, and revision numbers (i.e.,
         X, Y, and Z).
     """
-    vals = tuple(int(val) for val in version_str.split("."))
+    match = re.match(r"(\d+)\.(\d+)\.(\d+)", version_str)
+    assert match is not None, f"Invalid version {version_str}."
+    vals = tuple(int(val) for val in match.groups())
     vals = cast(Tuple[int, int, int], vals)
-    assert len(vals) == 3
     return vals
 
 
-- 
2.43.0


From cc55189a336bbf1875f6b48e8d634f4aeddfaaae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 17/73] fix: facets of meshes without cells in the current
 process

Reshaping an empty connectivity with an unknown dimension raises.
---
 python/qugar/mesh/mesh_facets.py | 3 ++-
 python/qugar/mesh/tp_mesh.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 2501ca0..b7ec341 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -375,7 +375,8 @@ if qugar.utils.has_FEniCSx:
         topology.create_connectivity(tdim, tdim - 1)
         conn = topology.connectivity(tdim, tdim - 1)
 
-        return conn.array.reshape(conn.num_nodes, -1)
+        n_facets = conn.links(0).size if conn.num_nodes > 0 else 0
+        return conn.array.reshape(conn.num_nodes, n_facets)
 
     def create_facets_from_ids(
         mesh: dolfinx.mesh.Mesh,
diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 52e2484..795d014 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -433,7 +433,7 @@ class TensorProductMesh(Mesh):
         tdim = self.tdim
         self.topology.create_connectivity(tdim, tdim - 1)
         cell_to_facets = self.topology.connectivity(tdim, tdim - 1)
-        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
+        cell_to_facets = cell_to_facets.array.reshape(-1, 2 * tdim)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
         dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
-- 
2.43.0


From 87e673ff109a458769554774afa10244c69b2757 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 18/73] fix: detect that all the cells are active in every
 process

The connectivity is only known in rank 0: the other processes kept the
list of active cells and applied it to the non-permuted cells.
---
 python/qugar/mesh/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index fa43c4a..1d669a7 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -362,7 +362,7 @@ class Mesh(dolfinx.mesh.Mesh):
         # TODO: to manage active cells for the case of
         # distributed meshes.
 
-        if active_cells is not None and active_cells.size == conn.shape[0]:
+        if active_cells is not None and active_cells.size == comm.bcast(conn.shape[0], root=0):
             active_cells = None
         self._original_active_cells = active_cells
 
-- 
2.43.0


From 22fd75ada56937e33dfd9631eda9ee747c6987f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 19/73] fix: offsets of empty interior facets

There are two rows per interior facet: the offset 0 of the i-th facet
belongs to row 2*i, not to row i.
---
 python/qugar/dolfinx/custom_coefficients.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..2882a20 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -419,7 +419,10 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        all_rel_offsets[self._get_empty_entities_ids()] = 0
+        if interior_facet:
+            all_rel_offsets_[self._get_empty_entities_ids(), 0] = 0
+        else:
+            all_rel_offsets[self._get_empty_entities_ids()] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
-- 
2.43.0


From e9be89f3c8db4fa40a9cc91031bdbca320fe477d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 20/73] fix: coefficients of interior facets in custom
 integrals

DOLFINx stores the coefficients of both sides of an interior facet in a
single contiguous block (all the values of the first coefficient in both
sides, then the ones of the second, ...), while the packer inserted the
extra columns between the two halves of that block, and the generated
kernel looked for the offset inside the standard coefficients.
---
 python/qugar/dolfinx/codegeneration.py      |  4 +-
 python/qugar/dolfinx/custom_coefficients.py | 42 ++++++++++++++++++---
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..2049d59 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # Interior facets have the values of the two sides.
+            n_sides = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + n_sides * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 2882a20..42a3988 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,31 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _copy_standard_coeffs(
+    old_coeffs: FloatingArray, new_coeffs: FloatingArray, interior_facet: bool
+) -> None:
+    """Copies the standard (DOLFINx) coefficients into the array of
+    custom coefficients, that has extra columns (and rows).
+
+    For interior facets, the two rows of a facet make a single block in
+    which DOLFINx stores, contiguously, the values of the two sides for
+    every coefficient. Thus, that block is copied as a whole.
+
+    Args:
+        old_coeffs (FloatingArray): Standard coefficients.
+        new_coeffs (FloatingArray): Custom coefficients to be modified.
+        interior_facet (bool): Flag indicating if the coefficients are
+            associated to an interior facet integral.
+    """
+    n_rows, n_cols = old_coeffs.shape
+    new_rows = new_coeffs[:n_rows]
+    if interior_facet:
+        n_cols *= 2
+        old_coeffs = old_coeffs.reshape(n_rows // 2, n_cols)
+        new_rows = new_rows.reshape(n_rows // 2, 2 * new_coeffs.shape[1])
+    new_rows[:, :n_cols] = old_coeffs
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -449,7 +474,14 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        if interior_facet:
+            # The two rows of every interior facet are a single block, with
+            # the offset right after the standard coefficients.
+            n_cols = self._old_coeffs.shape[1]
+            blocks = self._new_coeffs[:n_entities].reshape(n_tot_entities, 2 * n_cols_complex)
+            blocks[:, 2 * n_cols : 2 * n_cols + n_extra_cols] = all_rel_offsets_view[::2]
+        else:
+            self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -801,8 +833,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_standard_coeffs(self._old_coeffs, self._new_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -991,9 +1022,10 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            _copy_standard_coeffs(
+                _new_coeffs_dlf, c, itg_info[0] == IntegralType.interior_facet
+            )
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 9f8167600b3362c13e77962afede4b1a3357fcdc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 21/73] fix: all the permutations of quadrilateral facets

The cell (and not its name) was compared to a string, hence the last two
permutations were missing and hexahedra with them raised an IndexError.
---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From dac60a88ba96216a91d8cbbb79e7dde3b975789e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 22/73] fix: location of custom points on interior and mixed
 dimensional facets

The custom points of a facet are given in the frame of the first cell of
the facet, but they were permuted as if they were given in the facet's
global frame. So, unless symmetric, they ended up in other positions of
the facet.
---
 python/qugar/dolfinx/custom_coefficients.py | 45 ++++++++++++++++++---
 python/qugar/dolfinx/custom_quad_utils.py   | 12 +++++-
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 42a3988..3e3b2ec 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -612,8 +612,15 @@ class _CustomCoeffsPackerIntegral:
             degree, custom_facets, self._is_exterior_facet()
         )
 
+        # The points are given as seen from the cells of the custom facets.
         quad = self._map_facet_quadrature(quad_facet, custom_facets)
 
+        if not self._is_interior_facet() and not self._is_mixed_dim():
+            return quad_facet, quad
+
+        # Points in the global frame of the facets.
+        quad_facet = self._permute_facet_quadrature(quad_facet, custom_facets, inverse=True)
+
         if not self._is_interior_facet():
             return quad_facet, quad
 
@@ -621,10 +628,42 @@ class _CustomCoeffsPackerIntegral:
             self._domain[:, 1, 0].reshape(-1)[self._custom_entity_ids],
             self._domain[:, 1, 1].reshape(-1)[self._custom_entity_ids],
         )
-        quad_1 = self._map_facet_quadrature(quad_facet, custom_facets_1)
+        quad_1 = self._map_facet_quadrature(
+            self._permute_facet_quadrature(quad_facet, custom_facets_1), custom_facets_1
+        )
 
         return quad_facet, (quad, quad_1)
 
+    def _permute_facet_quadrature(
+        self,
+        quad_facet: CustomQuadFacet,
+        facets: MeshFacets,
+        inverse: bool = False,
+    ) -> CustomQuadFacet:
+        """Permutes the points of the given quadrature from the global
+        frame of the facets to the one in which they are seen from their
+        cells, or the other way around.
+
+        Args:
+            quad_facet (CustomQuadFacet): Facet quadrature to permute.
+            facets (MeshFacets): Facets to which the facet quadrature is
+                associated to.
+            inverse (bool): If ``True``, the points are transformed from
+                the cells' to the global frame. Defaults to ``False``.
+
+        Returns:
+            CustomQuadFacet: Permuted facet quadrature.
+        """
+
+        n_pts_per_entity = quad_facet.n_pts_per_entity
+        cells_rep = np.repeat(facets.cell_ids.reshape(-1), n_pts_per_entity)
+        facets_rep = np.repeat(facets.local_facet_ids.reshape(-1), n_pts_per_entity)
+
+        points = permute_facet_points(
+            quad_facet.points, self._mesh, cells_rep, facets_rep, inverse
+        )
+        return CustomQuadFacet(facets, n_pts_per_entity, points, quad_facet.weights)
+
     def _map_facet_quadrature(
         self,
         quad_facet: CustomQuadFacet,
@@ -646,7 +685,6 @@ class _CustomCoeffsPackerIntegral:
         assert self._is_facet()
 
         mesh = self._mesh
-        needs_permutations = self._is_interior_facet() or self._is_mixed_dim()
 
         n_pts_per_entity = quad_facet.n_pts_per_entity
         points = quad_facet.points
@@ -656,9 +694,6 @@ class _CustomCoeffsPackerIntegral:
         cells_rep = np.repeat(cells.reshape(-1), n_pts_per_entity)
         facets_rep = np.repeat(local_facets.reshape(-1), n_pts_per_entity)
 
-        if needs_permutations:
-            points = permute_facet_points(points, mesh, cells_rep, facets_rep)
-
         mapped_points = map_facets_points(points, facets_rep, mesh.topology.cell_type)
 
         return CustomQuad(cells, n_pts_per_entity, mapped_points, quad_facet.weights)
diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index 7fdf1a9..2b8ad2f 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -157,6 +157,7 @@ def _permute_points(
     points: npt.NDArray[np.float64],
     permutations: npt.NDArray[np.uint8],
     facet_cell: ufl.AbstractCell,
+    inverse: bool = False,
 ) -> npt.NDArray[np.float64]:
     """Permutes the given points.
 
@@ -171,6 +172,8 @@ def _permute_points(
         facet_cell (ufl.AbstractCell): Cell type of the facet in which
             the permutations are applied. It can be ``interval``,
             ``triangle``, or ``quadrilateral``.
+        inverse (bool): If ``True``, the inverse of the permutations
+            are applied. Defaults to ``False``.
 
     Returns:
         npt.NDArray[np.float64]: Permuted points.
@@ -188,6 +191,8 @@ def _permute_points(
             continue
         ids = np.where(permutations == perm)[0]
         P = Ps[perm].T
+        if inverse:
+            P = np.rint(np.linalg.inv(P))
         perm_points[ids, :] = hom_points[ids, :] @ P[:, :-1]
 
     return perm_points
@@ -230,6 +235,7 @@ def permute_facet_points(
     mesh: dolfinx.mesh.Mesh,
     cells: npt.NDArray[np.int32],
     facets: npt.NDArray[np.int32],
+    inverse: bool = False,
 ) -> npt.NDArray[np.float64]:
     """Permutes the points belonging to (interior or exterior) facet
     accoring to the facet permutations.
@@ -241,6 +247,10 @@ def permute_facet_points(
             belong.
         facets (npt.NDArray[np.int32]): Local facet ids (relative) to
             the reference cell for which the permutations are performed.
+        inverse (bool): If ``False``, the points are transformed from
+            the facet's global frame to the one in which the facet is
+            seen from the cell. If ``True``, it is the other way
+            around. Defaults to ``False``.
 
     Returns:
         npt.NDArray[np.float64]: Permuted points.
@@ -252,4 +262,4 @@ def permute_facet_points(
     face_tdim = cell.topological_dimension() - 1
     facet_cell = cell.sub_entity_types(face_tdim)[0]
 
-    return _permute_points(points, perms, facet_cell)
+    return _permute_points(points, perms, facet_cell, inverse)
-- 
2.43.0


From 00ae274ec6aaa37cc6896e250ed6d16e6420b964 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 23/73] fix: tables of single point quadratures vary along the
 custom points

For a static quadrature with one point FFCx accesses the tables with the
constant point index 0, so the custom kernels used the values at the first
custom point for all of them.
---
 python/qugar/dolfinx/fe_table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..a09856c 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -433,9 +433,13 @@ class FETable:
 
         terms = []
 
+        # FFCx considers as constant the tables with a single (static)
+        # point, while the custom quadratures may have many of them.
+        point_index = "iq" if self._points == 1 else indices[2]
+
         # Permutation and entity indices are discarded.
         offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
+        for index, offset in zip((point_index, indices[3]), offsets):
             new_index = transform_index(index)
             if new_index != 0:
                 terms.append(f"{offset}{index}")
-- 
2.43.0


From 939ee80bc91356f64fc56bdaa27f0c53bb9320c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 24/73] fix: tables of both sides of interior facets for single
 point quadratures

With one static point the permutations do not change the tables, so a
single buffer was used, and the basis functions of the second side were
evaluated at the points of the first one. The side is recovered now from
the facet index.
---
 python/qugar/dolfinx/codegeneration.py | 12 ++++++------
 python/qugar/dolfinx/fe_table.py       | 22 ++++++++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 2049d59..dc5d7f5 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -475,9 +475,9 @@ class _IntegralModifier:
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
             # component/derivative tables). For interior-facet integrals
-            # with perm>1 tables, two basix blocks are produced (one per
-            # side) and perm>1 tables get an FE..[2] array of per-side
-            # buffers; perm<=1 tables stay single-buffer (their values
+            # with two-sided tables, two basix blocks are produced (one per
+            # side) and two-sided tables get an FE..[2] array of per-side
+            # buffers; the other tables stay single-buffer (their values
             # agree on both sides).
             #
             # All buffers (basix blocks + per-table repack buffers when
@@ -502,7 +502,7 @@ class _IntegralModifier:
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
                 any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                    t.two_sided for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
@@ -516,7 +516,7 @@ class _IntegralModifier:
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if is_interior_facet and table.two_sided:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
@@ -578,7 +578,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = is_interior_facet and table.two_sided
 
                     if vs == 1:
                         # The basix block's layout already matches the
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index a09856c..01624f0 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -295,6 +295,15 @@ class FETable:
         """Returns the number of entities in the table."""
         return self._entities
 
+    @property
+    def two_sided(self) -> bool:
+        """Whether the table has different values in the two sides of an
+        interior facet. Note that for single point quadratures the
+        permutations do not make a difference, but the facets do."""
+        return self._integral_type == "interior_facet" and (
+            self._permutations > 1 or self._entities > 1
+        )
+
     @property
     def points(self) -> int:
         """Returns the number of points in the table."""
@@ -416,12 +425,13 @@ class FETable:
 
         assert not self.is_constant_for_pts()
 
-        perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
+        side_index = None
+        if has_permutations and self.two_sided:
             match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
+            if match is None:
+                match = re.search(r"entity_local_index\[(\d+)\]", indices[1])
             assert match
-            perm_index = int(match.group(1))
+            side_index = int(match.group(1))
 
         def transform_index(index: str) -> int | str:
             index = index.replace(" ", "")
@@ -447,8 +457,8 @@ class FETable:
         plain_index = " + ".join(terms)
 
         new_access = f"{self._name}"
-        if perm_index is not None:
-            new_access += f"[{perm_index}]"
+        if side_index is not None:
+            new_access += f"[{side_index}]"
         new_access += f"[{plain_index}]"
 
         return new_access
-- 
2.43.0


From d1b0492635a42930b3181fa8ff06853fae333768 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 25/73] fix: degree of integrands sharing the same static rule

The degree of the last one was used for the custom quadratures of all of
them, even if some other one asked for a higher degree (e.g., all the
integrals along the unfitted boundary share the same fake rule).
---
 python/qugar/dolfinx/quadrature_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..36fff7d 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,9 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Different degrees may share the same static rule.
+                prev_data = quads_data.get(quad_data.name)
+                if prev_data is None or prev_data.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From 544dc8cf8a5794ec3e7d26a4d4a7f30ab0d918cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 26/73] fix: update the coefficients of lists of forms

Every form received the coefficients of the whole list.
---
 python/qugar/dolfinx/petsc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..ff92531 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,22 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray],
+                        _update(sub_form, sub_coeffs),
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From 19038a5c9fb179da839e33319d2844b71b6ac62b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 27/73] fix: form_custom on lists of forms

The compiled forms were dropped from the flattened list, so it was always
empty.
---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..c70a415 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -358,6 +358,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From f3aa99a54f0bb78b6b8a6af19edf6b6907103a8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 28/73] fix: form_custom does not modify the integrals of the
 given form

The exterior facet integrals (that may be shared with other forms) were
modified in place, as well as the metadata of their measure, and the ones
put back in the form had the subdomain id as subdomain data.
---
 python/qugar/dolfinx/forms.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index c70a415..13ba893 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -145,37 +145,31 @@ def _modify_everywhere_exterior_facet_integrals(form):
         form: The dolfinx form object.
 
     Returns:
-        The modified dolfinx form object.
+        A new form with the modified integrals. The given form (and its
+        integrals, that may be shared with other forms) are not modified.
     """
 
+    integrals = list(form.integrals())
+
     def _get_max_subdomain_id():
         subdomain_id = -1
-        for integral in form.integrals():
+        for integral in integrals:
             if integral.integral_type() == "exterior_facet":
                 if isinstance(integral.subdomain_id(), int):
                     subdomain_id = max(subdomain_id, integral.subdomain_id())
         return subdomain_id + 1
 
-    old_integrals = list(form.integrals())
-
-    for i, integral in enumerate(form.integrals()):
+    for i, integral in enumerate(integrals):
         if integral.integral_type() == "exterior_facet":
             # Check if the integral is over the whole domain
             if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
+                integrals[i] = integral.reconstruct(
+                    subdomain_id=_get_max_subdomain_id(),
+                    metadata={**integral.metadata(), "ext_facet_everywhere": True},
                 )
+                integrals[i]._subdomain_data = None
 
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
-
-    return form, tuple(old_integrals)
+    return ufl.Form(integrals)
 
 
 def form_custom(
@@ -246,7 +240,7 @@ def form_custom(
         # replaces the ``"everywhere"`` subdomain id with a fresh
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -334,9 +328,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From 3b9c1fec2bb9c463cbd650002512d9337716cf12 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 29/73] fix: quadratures sharing FE tables in the same integral

FFCx emits equal tables (e.g., the constant gradients in simplices) only
once, for the first quadrature using them. The loops of the other ones
were attributed to the first quadrature, and the quadratures without
tables of their own were not loaded at all.
---
 python/qugar/dolfinx/_kernel_body.py  | 5 +++--
 python/qugar/dolfinx/integral_data.py | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..b067a63 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -207,9 +207,10 @@ class KernelBody:
             header = inside_body[lm.start():lm.end() + b_open + 1]
             body = after_header[b_open + 1:b_close - 1]
             # Identify the quadrature this loop belongs to.
-            quad = _QUAD_NAME_IN_BODY.search(body)
+            # (a loop may use tables shared with another quadrature).
+            quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
             if quad is None:
-                quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
+                quad = _QUAD_NAME_IN_BODY.search(body)
             if quad is None:
                 raise ValueError("Quadrature name not found in loop body.")
             loops.append(
diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 5088915..66f25b7 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -187,6 +187,11 @@ def extract_integral_data(
         if FE_table.element_dim != tdim:
             is_mixed_dim = True
 
+    # FFCx shares the equal tables among quadratures, so there may be
+    # quadratures without tables of their own.
+    for _cell, rule in itg_ir.expression.integrand.keys():
+        quad_FE_tables.setdefault(all_quads_data[rule.id()], [])
+
     return IntegralData(
         short_itg_name,
         itg_ids,
-- 
2.43.0


From 10cb1399c0c1437e0e246392fd84e749bd54ca6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 30/73] fix: component and derivatives of the FE tables shared
 among terminals

FFCx shares equal tables among terminals, under the name of the first
one. The element of one terminal was combined with the component and
derivatives in that name, that may belong to another.
---
 python/qugar/dolfinx/fe_table.py | 33 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index 01624f0..f9e2cc7 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -18,6 +18,7 @@ if not has_FEniCSx:
 
 import hashlib
 import re
+from typing import TYPE_CHECKING
 
 import numpy as np
 from basix.ufl import _BasixElement as BasixElement
@@ -27,6 +28,9 @@ from ffcx.ir.representation import IntegralIR
 from qugar.dolfinx.parsing_utils import parse_real_dtype_from_C
 from qugar.dolfinx.quadrature_data import QuadratureData
 
+if TYPE_CHECKING:
+    from ffcx.ir.elementtables import ModifiedTerminalElement
+
 
 class FETable:
     """Class for storing a table of finite element basis values (or
@@ -375,18 +379,23 @@ class FETable:
             else:
                 assert False, f"Invalid finite element option: {opt}."
 
-    def _set_element(self, element: BasixElement) -> None:
-        """Sets the element associated to the table.
+    def _set_element(self, mte: "ModifiedTerminalElement") -> None:
+        """Sets the element associated to the table, together with its
+        component and derivatives.
 
         This method is used for setting the element after the table
-        has been created. If not previously set, it also sets the
-        derivates of the table to 0.
+        has been created. FFCx shares equal tables among terminals, so
+        the component and derivatives in the table's name may refer to
+        a different element, and must not be combined with this one.
 
         Args:
-            element (BasixElement): Element associated to the table.
+            mte (ModifiedTerminalElement): Element, component, and
+                derivatives of one of the terminals that use the table.
         """
-        self._element = element
-        elem_dim = element.cell.topological_dimension()
+        self._element = mte.element
+        self._component = mte.fc
+        self._derivatives = tuple(mte.local_derivatives)
+        elem_dim = mte.element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
 
     def _set_derivatives(self, elem_dim: int) -> None:
@@ -499,9 +508,9 @@ def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
 
 def _build_table_name_to_element_map(
     ir_itg: IntegralIR,
-) -> dict[str, BasixElement]:
-    """Build a (C-code table name -> Basix element) map directly from
-    the FFCx IR factorization graph.
+) -> dict[str, "ModifiedTerminalElement"]:
+    """Build a (C-code table name -> Basix element, component, and
+    derivatives) map directly from the FFCx IR factorization graph.
 
     In FFCx 0.10.0 each terminal node in the factorization graph
     already carries both its ``UniqueTableReferenceT`` (``node["tr"]``,
@@ -513,7 +522,7 @@ def _build_table_name_to_element_map(
     table's quadrature points and value-matching against the C-code
     table values.
     """
-    result: dict[str, BasixElement] = {}
+    result: dict[str, "ModifiedTerminalElement"] = {}
     for _key, integrand in ir_itg.expression.integrand.items():
         for node in integrand["factorization"].nodes.values():
             tr = node.get("tr")
@@ -523,7 +532,7 @@ def _build_table_name_to_element_map(
             mte = get_modified_terminal_element(mt)
             if mte is None:
                 continue
-            result[tr.name] = mte.element
+            result[tr.name] = mte
     return result
 
 
-- 
2.43.0


From f4a7464cb0c453f79a730c25f4851f0ef51f5e82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 31/73] fix: apply the Nanson term once for tuples of subdomain
 ids

The measures of the single ids are reconstructed (with their term), and
they were multiplied by an integrand that already had it.
---
 python/qugar/dolfinx/boundary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..bd2532c 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,11 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        if isinstance(self.subdomain_id(), tuple):
+            # The integrals are created one by one by multiplying the
+            # integrand by the reconstructed measures, that already
+            # include the complement.
+            return super().__rmul__(integrand)
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From 123e7a3fd815fd62e7f5e1ca29e855579cb39045 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 32/73] fix: constant FE tables of single-point quadratures
 stay static

All the tables of a quadrature with a single static point were loaded
dynamically, with as many points as that quadrature has in the cell.
The constant ones (e.g., of the Jacobian) are shared by FFCx with other
quadratures in the integral, that may have more points.
---
 python/qugar/dolfinx/fe_table.py | 53 ++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index f9e2cc7..be81a16 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -18,8 +18,10 @@ if not has_FEniCSx:
 
 import hashlib
 import re
+from functools import cached_property
 from typing import TYPE_CHECKING
 
+import basix
 import numpy as np
 from basix.ufl import _BasixElement as BasixElement
 from ffcx.ir.elementtables import get_modified_terminal_element
@@ -126,6 +128,7 @@ class FETable:
 
         self._integral_type = integral_type
         self._entity_type = entity_type
+        self._itg_tdim = itg_tdim
         self._avg = None
 
         self._parse_code(code)
@@ -212,16 +215,54 @@ class FETable:
         Therefore, from the point of view of custom quadratures, the
         values of these tables will not change.
 
+        FFCx considers as constant all the tables with a single (static)
+        point. In that case it is checked if the basis functions are
+        actually constant.
+
         Returns:
             bool: Whether the table is constant for all the points.
         """
+        if self._table_type not in ["fixed", "piecewise", "zeros", "ones"]:
+            return False
+
         n_quad_pts = self._quad_data.rule.points.shape[0]  # type: ignore
-        return n_quad_pts > 1 and self._table_type in [
-            "fixed",
-            "piecewise",
-            "zeros",
-            "ones",
-        ]
+        return n_quad_pts > 1 or self._has_constant_basis
+
+    @cached_property
+    def _has_constant_basis(self) -> bool:
+        """Whether the basis functions (or their derivatives, or
+        averages) the table stores are constant in the element, or in
+        every one of its facets in the case of facet integrals.
+        """
+        if self._avg is not None:
+            return True
+
+        tdim = self.element_dim
+        cell = self.element.cell_type
+        on_facets = self._entity_type == "facet" and tdim == self._itg_tdim
+
+        # Some points in the cell, or in each of its facets.
+        points = np.array([[0.25, 0.15, 0.1], [0.1, 0.3, 0.2], [0.3, 0.05, 0.35]])
+        if on_facets:
+            vertices = basix.geometry(cell)
+            patches = []
+            for facet in basix.topology(cell)[tdim - 1]:
+                origin = vertices[facet[0]]
+                axes = vertices[facet[1:tdim]] - origin
+                patches.append(origin + points[:, : tdim - 1] @ axes)
+        else:
+            patches = [points[:, :tdim]]
+
+        element, _, _ = self.element.get_component_element(self.component)
+        ind = basix.index(*self.derivatives)
+        n_derivs = sum(self.derivatives)
+        tol = 1.0e4 * float(np.finfo(self.dtype).eps)
+
+        for patch in patches:
+            values = np.asarray(element.tabulate(n_derivs, patch)[ind])
+            if not np.allclose(values, values[0], rtol=tol, atol=tol):
+                return False
+        return True
 
     @property
     def FE_id(self) -> int:
-- 
2.43.0


From a2db59c2621d35619be6e44e896e46e05e6208d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 33/73] fix: refuse elements that cannot be recreated from
 their parameters

The kernels create the elements at runtime from six parameters. Custom
elements were silently skipped, and custom dof orderings ignored.
---
 python/qugar/dolfinx/codegeneration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index dc5d7f5..7eeeb71 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -319,6 +319,10 @@ class _IntegralModifier:
         block_size = getattr(el, "block_size", 1)
         scalar = el.sub_elements[0] if block_size > 1 else el
         be = scalar.basix_element
+        if be.family == basix.ElementFamily.custom or be.dof_ordering:
+            raise ValueError(
+                "Custom elements and elements with custom dof orderings are not supported."
+            )
         params = (
             int(be.family),
             int(be.cell_type),
-- 
2.43.0


From 526c72e8398c5336b029abe075ce64e042a51ab2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 34/73] fix: one scratch for the tables of all the quadratures
 of an integral

---
 python/qugar/dolfinx/codegeneration.py | 60 ++++++++++++++------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 7eeeb71..1ec41ad 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -434,6 +434,18 @@ class _IntegralModifier:
 
         is_interior_facet = self._data.integral_type == "interior_facet"
 
+        # All the points are loaded first: the buffers of all the
+        # quadratures share the same scratch, whose size depends on the
+        # number of points of every quadrature.
+        scratch_var = "scratch"
+        scratch_terms: list[str] = []
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
+
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
+
+        load_code = ""
         call_code = ""
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
@@ -451,30 +463,30 @@ class _IntegralModifier:
             # Constant-for-points tables stay statically defined.
             for table in FE_tables:
                 if table.is_constant_for_pts():
-                    call_code += table.code + "\n"
+                    load_code += table.code + "\n"
 
             # Per-cell points/weights (+side-1, +facet points, +normals) decls.
-            call_code += f"const {dtype_str}* restrict {points_name};\n"
+            load_code += f"const {dtype_str}* restrict {points_name};\n"
             if is_interior_facet:
-                call_code += f"const {dtype_str}* restrict {points_side1_name};\n"
+                load_code += f"const {dtype_str}* restrict {points_side1_name};\n"
             if mixed_dim:
-                call_code += f"const {dtype_str}* restrict {points_facet_name};\n"
-            call_code += f"const {dtype_str}* restrict {weights_name};\n"
+                load_code += f"const {dtype_str}* restrict {points_facet_name};\n"
+            load_code += f"const {dtype_str}* restrict {weights_name};\n"
             if has_normals:
-                call_code += f"const {dtype_str}* restrict {normals_name};\n"
+                load_code += f"const {dtype_str}* restrict {normals_name};\n"
 
             # Loader execution (returns the runtime number of points).
             aux = f"const int {n_pts_name} = {func_name}("
             indent = " " * len(aux)
-            call_code += f"{aux}&w_custom,\n{indent}&{points_name}"
+            load_code += f"{aux}&w_custom,\n{indent}&{points_name}"
             if is_interior_facet:
-                call_code += f",\n{indent}&{points_side1_name}"
+                load_code += f",\n{indent}&{points_side1_name}"
             if mixed_dim:
-                call_code += f",\n{indent}&{points_facet_name}"
-            call_code += f",\n{indent}&{weights_name}"
+                load_code += f",\n{indent}&{points_facet_name}"
+            load_code += f",\n{indent}&{weights_name}"
             if has_normals:
-                call_code += f",\n{indent}&{normals_name}"
-            call_code += ");\n\n"
+                load_code += f",\n{indent}&{normals_name}"
+            load_code += ");\n\n"
 
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
@@ -499,7 +511,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -525,20 +536,6 @@ class _IntegralModifier:
                                 f"{n_pts_name} * {table.funcs}"
                             )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
-
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
-
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
-
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
                  any_perm, blk_size_expr) = gd
@@ -662,7 +659,14 @@ class _IntegralModifier:
                             f"{buf};\n\n"
                         )
 
-        return call_code
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            load_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
+
+        return load_code + call_code
 
     def _create_non_custom_quad_function(self) -> str:
         """Creates a copy of the original FFCx function (signature +
-- 
2.43.0


From 38062df54d864321946cff20bb757cefede0dbb8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 35/73] fix: coefficients of the empty forms of a list

---
 python/qugar/dolfinx/petsc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index ff92531..9b74f15 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -62,7 +62,9 @@ def _pack_coefficients(
     """  # noqa: E501
 
     def _pack(form):
-        if isinstance(form, CustomForm):
+        if form is None:  # Empty form.
+            return {}
+        elif isinstance(form, CustomForm):
             return form.pack_coefficients()
         else:
             return list(
@@ -96,7 +98,9 @@ def _update_coefficients(
     """  # noqa: E501
 
     def _update(form, old_coeffs):
-        if isinstance(form, CustomForm):
+        if form is None:  # Empty form.
+            return {}
+        elif isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
-- 
2.43.0


From 2172cd73b703e401209bf05f5959fbc9d9f9d80c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 36/73] fix: everywhere integrals over exterior facets get ids
 beyond those of lists of subdomains

---
 python/qugar/dolfinx/forms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 13ba893..f6482c5 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -133,7 +133,8 @@ def _modify_everywhere_exterior_facet_integrals(form):
 
     Finds exterior facet integrals defined on the whole boundary
     (subdomain_id is "everywhere" or -1) and assigns them a unique
-    integer ID greater than any existing exterior facet subdomain ID.
+    integer ID greater than any existing exterior facet subdomain ID
+    (those of subdomain data given as lists included).
     It also adds metadata to mark these integrals.
 
     This is necessary because by default DOLFINx defines exterior
@@ -157,6 +158,10 @@ def _modify_everywhere_exterior_facet_integrals(form):
             if integral.integral_type() == "exterior_facet":
                 if isinstance(integral.subdomain_id(), int):
                     subdomain_id = max(subdomain_id, integral.subdomain_id())
+                if isinstance(integral.subdomain_data(), list):
+                    # All the domains of the list are passed to DOLFINx
+                    for list_id, _ in integral.subdomain_data():
+                        subdomain_id = max(subdomain_id, int(list_id))
         return subdomain_id + 1
 
     for i, integral in enumerate(integrals):
-- 
2.43.0


From ce14e5baabc1b8a23e74239e1711011c1ff4edbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 37/73] fix: subdomain ids given as numpy integers beside
 integrals over everywhere

---
 python/qugar/dolfinx/forms.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index f6482c5..3751f6d 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -21,6 +21,7 @@
 from __future__ import annotations
 
 import collections.abc
+import numbers
 import types
 import typing
 from itertools import chain
@@ -156,8 +157,8 @@ def _modify_everywhere_exterior_facet_integrals(form):
         subdomain_id = -1
         for integral in integrals:
             if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
+                if isinstance(integral.subdomain_id(), numbers.Integral):
+                    subdomain_id = max(subdomain_id, int(integral.subdomain_id()))
                 if isinstance(integral.subdomain_data(), list):
                     # All the domains of the list are passed to DOLFINx
                     for list_id, _ in integral.subdomain_data():
@@ -256,8 +257,12 @@ def form_custom(
         assert isinstance(unf_domain, UnfittedDomainABC)
 
         # Check that subdomain data for each integral type is the same
+        # (among the integrals that have any)
+        def _get_data(data):
+            return next((d for d in data if d is not None), None)
+
         for data in sd.get(domain).values():
-            assert all([d is data[0] for d in data if d is not None])
+            assert all([d is _get_data(data) for d in data if d is not None])
 
         msh = domain.ufl_cargo()
         if msh is None:
@@ -324,7 +329,7 @@ def form_custom(
         # types)
         subdomains = {
             _ufl_to_dolfinx_domain[key]: get_integration_domains(
-                _ufl_to_dolfinx_domain[key], subdomain_data[0], subdomain_ids[key]
+                _ufl_to_dolfinx_domain[key], _get_data(subdomain_data), subdomain_ids[key]
             )
             for (key, subdomain_data) in sd.get(domain).items()
         }
-- 
2.43.0


From 5f9c0ff1c0ca80212544b0b1109cc12a4cd26bb0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 38/73] fix: restore the handlers of the root logger when the
 compilation of kernels fails

---
 python/qugar/dolfinx/jit.py | 38 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..3e79c04 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,24 +174,26 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
-    s = f.getvalue()
-    if cffi_verbose:
-        print(s)
-
-    logger.info(f"JIT C compiler finished in {time.time() - t0:.4f}")
-
-    # Create a "status ready" file. If this fails, it is an error,
-    # because it should not exist yet.
-    # Copy the stdout verbose output of the build into the ready file
-    fd = open(ready_name, "x")
-    fd.write(s)
-    fd.close()
-
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+        s = f.getvalue()
+        if cffi_verbose:
+            print(s)
+
+        logger.info(f"JIT C compiler finished in {time.time() - t0:.4f}")
+
+        # Create a "status ready" file. If this fails, it is an error,
+        # because it should not exist yet.
+        # Copy the stdout verbose output of the build into the ready file
+        fd = open(ready_name, "x")
+        fd.write(s)
+        fd.close()
+    finally:
+        # Copy back the original handlers (in case someone is logging into
+        # root logger and has custom handlers), also if the compilation
+        # failed.
+        root_logger.handlers = old_handlers
 
     return code_body, itg_data
 
-- 
2.43.0


From cdc31416b19afc08cade71d30409a3959d1c6ed0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 39/73] fix: only repeated search paths are removed from the
 link command of the kernels, and LDSHARED set by the user is kept

---
 python/qugar/dolfinx/jit.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 3e79c04..3b9475a 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -72,14 +72,23 @@ def _deduped_ldshared():
     ``-Wl,-rpath,$PREFIX/lib`` and ``-L$PREFIX/lib`` *twice*, which makes
     every cffi kernel link emit ``ld: warning: duplicate -rpath ... ignored``.
     distutils honors the ``LDSHARED`` env var as a full override of
-    ``sysconfig.LDSHARED``, so we feed it the same flags with duplicates
-    removed (order preserved) just for the duration of the cffi compile.
+    ``sysconfig.LDSHARED``, so we feed it the same flags with duplicated
+    search paths removed (order preserved) just for the duration of the
+    cffi compile. The remaining flags may be repeated on purpose (e.g.,
+    ``-arch arm64 -arch x86_64``), and are left untouched. If the user
+    has already set ``LDSHARED``, its value is the one deduplicated.
     """
     saved = os.environ.get("LDSHARED")
-    raw = sysconfig.get_config_var("LDSHARED") or ""
+    raw = saved or sysconfig.get_config_var("LDSHARED") or ""
     if raw:
-        deduped = " ".join(dict.fromkeys(raw.split()))
-        os.environ["LDSHARED"] = deduped
+        tokens = []
+        for token in raw.split():
+            is_search_path = token.startswith("-Wl,-rpath,") or (
+                token.startswith("-L") and token != "-L"
+            )
+            if not is_search_path or token not in tokens:
+                tokens.append(token)
+        os.environ["LDSHARED"] = " ".join(tokens)
     try:
         yield
     finally:
-- 
2.43.0


From 2bdb90c9fe19bf5bf2defc5e21b43d3b562da285 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 40/73] fix: kernels cached by other versions of QUGaR are not
 reused

---
 python/qugar/dolfinx/jit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 3b9475a..2bbae21 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -59,6 +59,7 @@ from ffcx.codegeneration.jit import (
     root_logger,
 )
 
+from qugar.cpp import __version__ as qugar_version
 from qugar.dolfinx._shim import ensure_built as _ensure_shim_built
 from qugar.dolfinx.compiler import compile_ufl_objects
 from qugar.dolfinx.integral_data import IntegralData
@@ -246,8 +247,9 @@ def compile_forms(
     p = ffcx.options.get_options(options)
 
     # This options is introduced just for modifying the module name
-    # respect to the non-custom version.
-    p["custom"] = True
+    # respect to the non-custom version, and respect to the ones generated
+    # by other versions of QUGaR.
+    p["custom"] = f"qugar-{qugar_version}"
     module_name = "libffcx_forms_" + ffcx.naming.compute_signature(
         forms,  # type: ignore
         _compute_option_signature(p) + _compilation_signature(cffi_extra_compile_args, cffi_debug),
-- 
2.43.0


From 3391d81e4d9bbebddf10d328e3d4966ca5ee747e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 41/73] fix: cached kernels are loaded with the shim they were
 linked to

---
 python/qugar/dolfinx/jit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index 2bbae21..c4a18e7 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -246,10 +246,14 @@ def compile_forms(
 
     p = ffcx.options.get_options(options)
 
+    # The kernels, also the cached ones, are loaded together with the shim
+    # they were linked to: make sure it is still there.
+    shim_dir, _ = _ensure_shim_built()
+
     # This options is introduced just for modifying the module name
     # respect to the non-custom version, and respect to the ones generated
-    # by other versions of QUGaR.
-    p["custom"] = f"qugar-{qugar_version}"
+    # by other versions of QUGaR or linked to a shim placed elsewhere.
+    p["custom"] = f"qugar-{qugar_version} {shim_dir}"
     module_name = "libffcx_forms_" + ffcx.naming.compute_signature(
         forms,  # type: ignore
         _compute_option_signature(p) + _compilation_signature(cffi_extra_compile_args, cffi_debug),
-- 
2.43.0


From c4ff98fcbd19bf7758ce044239074845aef28ba7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 42/73] fix: tensor indices are ordered by their last differing
 component

---
 cpp/qugar/tensor_index_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..a14a25c 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -119,8 +119,8 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
     return false;
   } else {
     for (int dir = dim - 1; dir > 0; --dir) {
-      if (rhs(dir) < this->operator()(dir)) {
-        return false;
+      if (this->operator()(dir) != rhs(dir)) {
+        return this->operator()(dir) < rhs(dir);
       }
     }
     return this->operator()(0) < rhs(0);
-- 
2.43.0


From ffbd7ebd2e57065e63d19f2d83ed7613228a244d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:33:47 +0000
Subject: [PATCH 43/73] fix: empty ranges of tensor indices have no elements to
 visit

---
 cpp/qugar/tensor_index_tp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index a14a25c..ac16cc8 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -209,6 +209,9 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
+  if (this->size() == 0) {
+    return this->cend();
+  }
   return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
 }
 
-- 
2.43.0


From 8e5611798602d00d6f0f8457eb60aef224a7f2fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 44/73] fix: points between cells of a grid belong to the
 lowest one

---
 cpp/qugar/cart_grid_tp.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..d75b3fe 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -136,7 +136,7 @@ template<int dim> std::int64_t CartGridTP<dim>::get_cell_id(const PointType &poi
   TensorIndexTP<dim> tid;
   for (int dir = 0; dir < dim; ++dir) {
     const auto &breaks = this->get_breaks(dir);
-    const auto n_spans = static_cast<int>(breaks.size()) - 1;
+    [[maybe_unused]] const auto n_spans = static_cast<int>(breaks.size()) - 1;
     assert(0 < n_spans);
 
     const auto coord = point(dir);
@@ -145,11 +145,9 @@ template<int dim> std::int64_t CartGridTP<dim>::get_cell_id(const PointType &poi
     const auto it = std::prev(std::upper_bound(begin, breaks.cend(), coord + tolerance.value()));
 
     auto dist = static_cast<int>(std::distance(begin, it));
-    if (tolerance.equal(coord, *it)) {
-      if (dist == n_spans) {
-        // Point at last knot.
-        --dist;
-      }
+    if (tolerance.equal(coord, *it) && 0 < dist) {
+      // Point at the boundary between two cells (or at the last break): the lowest one is returned.
+      --dist;
     }
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= dist && dist < n_spans);
-- 
2.43.0


From dd2772056e3ea66535d512740bd401699eca7fa4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 45/73] fix: unfitted domains defined for some cells classify
 those cells only

---
 cpp/qugar/impl_unfitted_domain.cpp | 44 +++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..b5a3866 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -108,6 +108,23 @@ namespace {
     }
   }
 
+  //! @brief Counts how many of the target cells belong to the subgrid.
+  //!
+  //! @tparam dim The dimensionality of the grid.
+  //! @param subgrid The subgrid in which target cells are sought.
+  //! @param target_cells A vector of (unique) cell indices.
+  //! @return Number of target cells in the subgrid.
+  template<int dim>
+  std::size_t count_cells(const SubCartGridTP<dim> &subgrid, const std::vector<std::int64_t> &target_cells)
+  {
+    const auto &range = subgrid.get_range();
+    const auto &size = subgrid.get_grid()->get_num_cells_dir();
+    return static_cast<std::size_t>(
+      std::count_if(target_cells.cbegin(), target_cells.cend(), [&range, &size](const std::int64_t cell_id) {
+        return range.is_in_range(cell_id, size);
+      }));
+  }
+
   //! Inserts cell IDs from a subgrid into a container.
   //!
   //! @param subgrid The subgrid from which to extract cell IDs.
@@ -119,13 +136,26 @@ namespace {
   //! that are within the range of `subgrid` into `container`. If `target_cells` is not provided,
   //! all cell IDs from the `subgrid` are inserted into `container`.
   template<int dim>
+  // NOLINTNEXTLINE (misc-no-recursion)
   void insert_cells(UnfittedBinarySpacePart<dim> &tree,
     const std::optional<std::vector<std::int64_t>> &target_cells,
     const FuncSign sign)
   {
-    // TODO: Implement this function for target cells.
-    static_cast<void>(target_cells);
-    assert(!target_cells.has_value());
+    if (target_cells.has_value()) {
+      const auto subgrid = tree.get_subgrid();
+      const auto n_targets = count_cells(*subgrid, target_cells.value());
+      if (n_targets == 0) {
+        return;
+      }
+
+      if (n_targets < subgrid->get_num_cells()) {
+        // Only the status of the target cells is set.
+        tree.branch();
+        insert_cells(*tree.get_child(0), target_cells, sign);
+        insert_cells(*tree.get_child(1), target_cells, sign);
+        return;
+      }
+    }
 
     const auto status = sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full;
 
@@ -433,8 +463,14 @@ UnfittedImplDomain<dim>::UnfittedImplDomain(const FuncPtr phi,
 {
   assert(this->phi_ != nullptr);
 
+  // The target cells, without repetitions.
+  auto target_cells = cells;
+  std::ranges::sort(target_cells);
+  const auto repeated = std::ranges::unique(target_cells);
+  target_cells.erase(repeated.begin(), repeated.end());
+
   const auto compute_sign = create_compute_sign_function<dim>(*phi);
-  this->create_decomposition(*(this->binary_sp_part_), compute_sign, cells);
+  this->create_decomposition(*(this->binary_sp_part_), compute_sign, target_cells);
   this->init_full_cells_with_unf_bdry();
 }
 
-- 
2.43.0


From 6d7f01d335ed3b1b2693764f1d1cf512a39bd355 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 46/73] fix: facets with unfitted boundary only are accepted by
 the quadrature generation

---
 cpp/qugar/impl_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..2f0d90e 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -401,7 +401,8 @@ namespace {
   {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -440,7 +441,8 @@ namespace {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
 
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
 
     const auto grid = unf_domain.get_grid();
-- 
2.43.0


From 05cddb66c54bcc36c8b7ac46262e889d76f6c8a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 47/73] fix: the status of leaves of the space partition can be
 asked for

---
 cpp/qugar/unfitted_domain_binary_part.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/unfitted_domain_binary_part.cpp b/cpp/qugar/unfitted_domain_binary_part.cpp
index 80813cc..3b9b923 100644
--- a/cpp/qugar/unfitted_domain_binary_part.cpp
+++ b/cpp/qugar/unfitted_domain_binary_part.cpp
@@ -62,7 +62,7 @@ template<int dim> void UnfittedBinarySpacePart<dim>::set_status(const ImmersedCe
 
 template<int dim> ImmersedCellStatus UnfittedBinarySpacePart<dim>::get_status() const
 {
-  assert(this->get_child(0) != nullptr && this->get_child(1) != nullptr);
+  assert(this->is_leaf());
   return this->status_;
 }
 
-- 
2.43.0


From 0d053a14257e19852d54691b77a8ef293a9b2add Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 48/73] fix: facets lying on the level set of Bezier functions
 are not lost

---
 cpp/qugar/impl_quadrature.cpp      | 3 ++-
 cpp/qugar/impl_unfitted_domain.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 2f0d90e..993446f 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -460,7 +460,8 @@ namespace {
     ipquad.integrate(
       strategy, n_pts_dir, [&quad, bezier_facet](const Point<dim - 1> &perm_point_01, const real weight_01) {
         const auto point_01 = permute_vector_directions(perm_point_01);
-        if (bezier_facet->operator()(point_01) < numbers::zero) {
+        // Points of facets lying on the level set are kept too.
+        if (!Tolerance().is_positive(bezier_facet->operator()(point_01))) {
           quad.points.push_back(point_01);
           quad.weights.push_back(weight_01);
         }
diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index b5a3866..eade808 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -401,7 +401,8 @@ namespace {
       n_pts_dir,
       [&facet_quad, &bzr_facet, side, const_dir](const Vector<real, dim - 1> &perm_point, const real weight) {
         const auto point = permute_vector_directions(perm_point);
-        if (bzr_facet->operator()(point) < numbers::zero) {
+        // Points of facets lying on the level set are kept too.
+        if (!Tolerance().is_positive(bzr_facet->operator()(point))) {
           const auto sup_point = add_component(point, const_dir, static_cast<real>(side));
           facet_quad.nodes.emplace_back(sup_point, weight);
         }
-- 
2.43.0


From e85acbf70e0719535c0dee8b149e62c2108e5d73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 49/73] fix: external boundaries are left out of the
 quadratures of cut facets

---
 cpp/qugar/impl_quadrature.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 993446f..8946e1c 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -300,9 +300,8 @@ namespace {
     CutIsoBoundsQuad<dim - 1> &quad)
   // NOLINTEND (bugprone-easily-swappable-parameters)
   {
-    const bool has_unf_bdry = unf_domain.has_unfitted_boundary(cell_id, local_facet_id);
-    purge_unf_bdry = purge_unf_bdry && has_unf_bdry;
-    purge_unf_ext_bdry = purge_unf_ext_bdry && has_unf_bdry;
+    purge_unf_bdry = purge_unf_bdry && unf_domain.has_unfitted_boundary(cell_id, local_facet_id);
+    purge_unf_ext_bdry = purge_unf_ext_bdry && unf_domain.has_external_boundary(cell_id, local_facet_id);
     purge_cut = purge_cut && unf_domain.is_cut_facet(cell_id, local_facet_id);
 
     if (!purge_unf_bdry && !purge_unf_ext_bdry && !purge_cut) {
-- 
2.43.0


From adb63be387f9f126c229f6d336a43985388220cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 50/73] fix: boundary points that belong to neighbouring cells
 are removed from the quadratures of unfitted boundaries

---
 cpp/qugar/impl_quadrature.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 8946e1c..66ba68c 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -572,9 +572,7 @@ void create_cell_unfitted_bound_quadrature(const UnfittedImplDomain<dim> &unf_do
 
     // We remove generated points on facets.
     for (int local_facet_id = 0; local_facet_id < n_local_facets; ++local_facet_id) {
-      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)) {
-        purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
-      }
+      purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
     }
   } else {
     // it's full with unfitted boundaries.
-- 
2.43.0


From ca7a6f621cb0465a33d73a3b802b7e1634fd6504 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 51/73] fix: three-dimensional quadratures in boxes away from
 the origin

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From 91f5952d6c5fd50a5a209fec0be6bc0928f726f4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:03 +0000
Subject: [PATCH 52/73] fix: Lagrange polynomials of the nodes that
 reparameterizations use

---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From ef2169af0c2735f7aa39976691c9d5edfa73bf24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 53/73] fix: facets of monomial polynomials at the end of the
 unit interval

---
 cpp/qugar/monomials_tp.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..23a9496 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -206,20 +206,21 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
-
-  TensorIndexTP<dim> lower_bound(0);
-  TensorIndexTP<dim> upper_bound(this->get_order());
-  if (side == 0) {
-    upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
-  }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
-
-  auto new_coef = new_coefs.begin();
-  for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()), CoefsType{ qugar::numbers::zero });
+
+  // At side 0 only the constant terms along const_dir are not zero, at side 1 all of them contribute.
+  const int n_terms = side == 0 ? 1 : this->get_order(const_dir);
+  for (int i = 0; i < n_terms; ++i) {
+    TensorIndexTP<dim> lower_bound(0);
+    TensorIndexTP<dim> upper_bound(this->get_order());
+    lower_bound(const_dir) = i;
+    upper_bound(const_dir) = i + 1;
+    const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
+
+    auto new_coef = new_coefs.begin();
+    for (const auto &tid : indices_range) {
+      *new_coef++ += at(this->coefs_, tid.flat(this->get_order()));
+    }
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
-- 
2.43.0


From 1cfb09c487cd92f8020df3efb0fec5061eea1d9b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 54/73] fix: gradients of monomial polynomials that are
 constant along a direction

---
 cpp/qugar/monomials_tp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 23a9496..4770cd6 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -287,7 +287,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
     val = val * x + at(beta, i);
     der = der * x + static_cast<real>(i) * at(beta, i)(0);
   }
-  val = val * x + beta.front();
+  if (last_degree > 0) {
+    val = val * x + beta.front();
+  }
 
   return add_component(val, dim, der);
 }
-- 
2.43.0


From 496d4dbab980ffe0e51911432c4529298a208ea7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 55/73] fix: reference systems around a 3D axis are orthonormal

---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..d3feb33 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -143,7 +143,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From ee163cd9dc3e227194243553a1045684f810206c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 56/73] fix: Hessian of cylinders with any axis

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..d4a491e 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From 1db020e9f0e23d5b84f564548c1d14189ea4007b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 57/73] fix: gradient and Hessian of the non-Bezier annulus

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index d4a491e..c936935 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -493,13 +493,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const auto aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From f318f08d1f3b07db4c3b3ce50460a17abdadda01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 58/73] fix: derivatives of the SchoenIWP and Schoen surfaces

---
 cpp/qugar/tpms_lib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..a2344a6 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(0)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From 015a0a8840eb41fb233bccdc4f7a49d90093ecf6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:33:41 +0000
Subject: [PATCH 59/73] fix: Hessian of trilinear functions

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..f938b15 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      (cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From 3bd6c8075a1809d051cb63746df1ab31a7f74336 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 60/73] fix: name in the assertion about target facets of
 unfitted domains

---
 python/nanobind_wrappers/unf_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9a55db6..873594f 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -82,7 +82,7 @@ namespace {
         std::vector<int> local_facet_ids;
 
         if (target_cell_ids_py.has_value()) {
-          assert(target_local_facets_ids_py.has_value());
+          assert(target_local_facet_ids_py.has_value());
 
           const std::span<const std::int64_t> cells_span(
             target_cell_ids_py.value().data(), target_cell_ids_py.value().size());
-- 
2.43.0


From a9e9e6ea23e69e3b74164440ceefb749cbbda4ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 61/73] fix: dangling references in the bindings of unfitted
 domains

---
 python/nanobind_wrappers/unf_domain.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 873594f..d16a1c3 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -54,7 +54,7 @@ namespace {
     };
 
     const auto get_cells =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
@@ -74,7 +74,7 @@ namespace {
       };
 
     const auto get_facets =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
         const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
@@ -113,7 +113,7 @@ namespace {
         "has_facets_with_unf_bdry", [](const UnfDomain &domain) { return domain.has_facets_with_unf_bdry(); })
       .def(
         "get_full_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
@@ -125,7 +125,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
@@ -137,7 +137,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_cut_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
@@ -149,7 +149,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -167,7 +167,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -185,7 +185,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_cut_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -203,7 +203,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -221,7 +221,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
-- 
2.43.0


From c5ba526078ba963c9da5a99a484ab1e8f5d9473b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 62/73] fix: middle point of bounding boxes handed to Python

---
 python/nanobind_wrappers/common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 283ea60..658c1d6 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -83,7 +83,9 @@ namespace {
         "mid_point",
         [](BBox &bbox) {
           using Array = nb::ndarray<const real, nb::numpy, nb::shape<dim>, nb::c_contig>;
-          return Array(bbox.mid_point().data(), { dim }, nb::handle());
+          const auto mid_point = bbox.mid_point();
+          // There is a copy here.
+          return Array(mid_point.data(), { dim }, nb::handle()).cast();
         },
         nb::rv_policy::reference_internal)
       .def_prop_ro("volume", &BBox::volume)
-- 
2.43.0


From eb5a35f258e2ea77a009020ef9fccb10bfa13a9d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 63/73] fix: boxes with affine transformations in Python

---
 python/qugar/impl/impl_function.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..dd39be4 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -541,7 +541,8 @@ def create_box(
             is created.
         dim (Optional[int]):
             The dimension of the box. Must be either 2 or 3. If affine_trans is provided,
-            this must match the dimension of the affine transformation. If None, defaults to 2.
+            this must match the dimension of the affine transformation. If None, defaults to the
+            dimension of the affine transformation, if provided, or to 2 otherwise.
 
     Returns:
         ImplicitFunc: An implicit function representing the created box.
@@ -561,14 +562,10 @@ def create_box(
             cpp_obj = qugar.cpp.create_square_3D()
 
     else:
-        assert dim == (2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3), (
-            "Non-matching affine transformation and dimension"
-        )
+        dim_trans = 2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3
+        assert dim is None or dim == dim_trans, "Non-matching affine transformation and dimension"
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From a17e5ee91bc33d45ef07c1defede103c4b8e2cc9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 64/73] fix: documented assertions of create_ellipsoid and
 create_torus

---
 python/qugar/impl/impl_function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index dd39be4..87d4b9e 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -218,7 +218,7 @@ def create_ellipsoid(
     """
 
     assert semi_axes.size == 3, "Invalid semi-axes dimension. It must have 3 coordinates"
-    semi_axes = semi_axes.astype(np.float64)
+    assert np.all(semi_axes > 0.0), "Invalid semi-axes. They must be all positive"
     semi_axes = semi_axes.astype(np.float64)
 
     if ref_system is None:
@@ -344,6 +344,11 @@ def create_torus(
     minor_radius = np.float64(minor_radius)
     assert minor_radius > 0.0, "Invalid outer radius. It must be positive"
 
+    assert center is None or center.size == 3, (
+        "Invalid center dimension. It must have 3 coordinates"
+    )
+    assert axis is None or axis.size == 3, "Invalid axis dimension. It must have 3 coordinates"
+
     if center is None:
         if axis is None:
             return ImplicitFunc(qugar.cpp.create_torus(major_radius, minor_radius, use_bzr))
-- 
2.43.0


From d5e39b33fa2babb7401d44b04ff26bc8cf650d06 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:10 +0000
Subject: [PATCH 65/73] fix: lists of cells, facets and breaks which are not
 contiguous

---
 python/nanobind_wrappers/common.cpp     |  2 +-
 python/nanobind_wrappers/cut_quad.cpp   | 10 ++++----
 python/nanobind_wrappers/reparam.cpp    |  2 +-
 python/nanobind_wrappers/unf_domain.cpp | 34 ++++++++++++-------------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 658c1d6..d4aa513 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -118,7 +118,7 @@ namespace {
   template<int dim> void declare_cartesian_grid_tp(nb::module_ &module)
   {
     using Grid = CartGridTP<dim>;
-    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>>;
+    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     const std::string pyclass_name{ std::string("CartGridTP_") + std::to_string(dim) + "D" };
     // NOLINTNEXTLINE (bugprone-unused-raii)
diff --git a/python/nanobind_wrappers/cut_quad.cpp b/python/nanobind_wrappers/cut_quad.cpp
index b3b7241..3e28ccd 100644
--- a/python/nanobind_wrappers/cut_quad.cpp
+++ b/python/nanobind_wrappers/cut_quad.cpp
@@ -173,8 +173,8 @@ namespace {
 
   template<int dim> void create_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_quadrature",
@@ -191,7 +191,7 @@ namespace {
 
   template<int dim> void create_unfitted_bound_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_bound_quadrature",
@@ -216,8 +216,8 @@ namespace {
 
   template<int dim> void create_facets_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_facets_quadrature_interior_integral",
diff --git a/python/nanobind_wrappers/reparam.cpp b/python/nanobind_wrappers/reparam.cpp
index 5986420..baea45a 100644
--- a/python/nanobind_wrappers/reparam.cpp
+++ b/python/nanobind_wrappers/reparam.cpp
@@ -96,7 +96,7 @@ namespace {
 
   template<int dim> void create_reparam(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_reparameterization",
diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index d16a1c3..4ca8e1d 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -56,7 +56,7 @@ namespace {
     const auto get_cells =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
 
         if (target_cell_ids_py.has_value()) {
@@ -76,8 +76,8 @@ namespace {
     const auto get_facets =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
         std::vector<std::int64_t> cell_ids;
         std::vector<int> local_facet_ids;
 
@@ -114,7 +114,7 @@ namespace {
       .def(
         "get_full_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
           };
@@ -126,7 +126,7 @@ namespace {
       .def(
         "get_empty_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
           };
@@ -138,7 +138,7 @@ namespace {
       .def(
         "get_cut_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
           };
@@ -150,8 +150,8 @@ namespace {
       .def(
         "get_empty_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -168,8 +168,8 @@ namespace {
       .def(
         "get_full_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -186,8 +186,8 @@ namespace {
       .def(
         "get_cut_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -204,8 +204,8 @@ namespace {
       .def(
         "get_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -222,8 +222,8 @@ namespace {
       .def(
         "get_full_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -273,7 +273,7 @@ namespace {
       nb::arg("impl_func"),
       nb::arg("grid"));
 
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_impl_domain",
-- 
2.43.0


From 32709dbb1e72b726361f2d8414dbcb384ca3320f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 66/73] fix: interval evaluation of the square

---
 cpp/qugar/impl_funcs_lib.cpp | 84 ++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 18 deletions(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index f938b15..fa6d673 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -25,6 +25,7 @@
 #include <qugar/types.hpp>
 #include <qugar/vector.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cmath>
@@ -45,40 +46,87 @@ template<int dim> Square<dim>::Square(const AffineTransf<dim> &transf) : FuncWit
 
 implement_impl_func_transf(Square);
 
-template<int dim> template<typename T> T Square<dim>::eval_(const Point<dim, T> &point) const
-{
-  Vector<real, dim> diff;
+namespace {
 
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
-      diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
+  //! @brief Lower and upper bounds of the absolute value of the given interval.
+  template<typename T> std::array<real, 2> abs_bounds(const T &val)
+  {
+    const real mid = std::abs(val.alpha);
+    const real dev = val.maxDeviation();
+    return { std::max(mid - dev, numbers::zero), mid + dev };
+  }
+
+  //! @brief Largest of the lower bounds of the absolute values of the coordinates
+  //! (intervals) of @p point, and largest of their upper bounds, without considering
+  //! the direction @p skip.
+  template<int dim, typename T> std::array<real, 2> max_abs_bounds(const Point<dim, T> &point, const int skip = -1)
+  {
+    std::array<real, 2> bounds{ numbers::zero, numbers::zero };
+    for (int dir = 0; dir < dim; ++dir) {
+      if (dir != skip) {
+        const auto dir_bounds = abs_bounds(point(dir));
+        bounds = { std::max(bounds[0], dir_bounds[0]), std::max(bounds[1], dir_bounds[1]) };
+      }
     }
+    return bounds;
   }
 
+}// namespace
+
+template<int dim> template<typename T> T Square<dim>::eval_(const Point<dim, T> &point) const
+{
   if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff;
+    for (int dir = 0; dir < dim; ++dir) {
+      diff(dir) = std::abs(point(dir)) - numbers::one;
+    }
     return max(diff);
   } else {
-    const int ind = argmax(diff);
-    return point(ind) * sgn(point(ind)) - numbers::one;
+    // If the same direction is the dominant one in all the points of the interval.
+    for (int dir = 0; dir < dim; ++dir) {
+      if (point(dir).uniformSign() && abs_bounds(point(dir))[0] >= max_abs_bounds<dim, T>(point, dir)[1]) {
+        return (point(dir).alpha > numbers::zero ? point(dir) : -point(dir)) - numbers::one;
+      }
+    }
+
+    const auto bounds = max_abs_bounds<dim, T>(point);
+    return T(numbers::half * (bounds[0] + bounds[1]) - numbers::one,
+      Vector<real, dim>(numbers::zero),
+      numbers::half * (bounds[1] - bounds[0]));
   }
 }
 
 template<int dim> template<typename T> Vector<T, dim> Square<dim>::grad_(const Point<dim, T> &point) const
 {
-  Vector<real, dim> diff{};
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
+  if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff{};
+    for (int dir = 0; dir < dim; ++dir) {
       diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
+    }
 
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
+    const int ind = argmax(diff);
+    return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
+  } else {
+    Vector<T, dim> grad;
+    for (int dir = 0; dir < dim; ++dir) {
+      const auto bounds = abs_bounds(point(dir));
+      const auto other_bounds = max_abs_bounds<dim, T>(point, dir);
+
+      // Bounds of the derivative along the current direction.
+      real lower{ -numbers::one };
+      real upper{ numbers::one };
+      if (bounds[1] < other_bounds[0]) {
+        lower = upper = numbers::zero;
+      } else if (point(dir).uniformSign()) {
+        const real least = bounds[0] > other_bounds[1] ? numbers::one : numbers::zero;
+        const bool positive = point(dir).alpha > numbers::zero;
+        lower = positive ? least : -numbers::one;
+        upper = positive ? numbers::one : -least;
+      }
+      grad(dir) = T(numbers::half * (lower + upper), Vector<real, dim>(numbers::zero), numbers::half * (upper - lower));
     }
+    return grad;
   }
-
-  const int ind = argmax(diff);
-  return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
 }
 
 template<int dim> template<typename T> auto Square<dim>::hessian_(const Vector<T, dim> & /*point*/) const -> Hessian<T>
-- 
2.43.0


From c76de7e8b921e4b74fcd49a9fa83978ae7bf2e73 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:45:09 +0000
Subject: [PATCH 67/73] fix: status of the cells of unfitted meshes in plots

The cells of an unfitted mesh follow the DOLFINx local numbering, while the
cells of the PyVista grid are lexicographically ordered.
---
 python/qugar/plot/pyvista_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..9ffb26d 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -623,6 +623,13 @@ def unfitted_domain_to_PyVista(
     value[full_cells] = full
     status[full_cells] = 0
 
+    if not is_cpp:
+        # The cells of the domain follow the DOLFINx local numbering,
+        # the ones of the grid are lexicographically ordered.
+        dlf_cell_ids = grid.cell_data["DOLFINx local cell ids"]
+        value = value[dlf_cell_ids]
+        status = status[dlf_cell_ids]
+
     grid.cell_data["value"] = value
     grid.cell_data["Cell status (0: full, 1: cut, 2: empty)"] = status
 
-- 
2.43.0


From 599535ffca4ec3f7ccea3cabaf320944e8405000 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:45:09 +0000
Subject: [PATCH 68/73] fix: facets of unfitted domains in plots

Cells and local facets of meshes follow the DOLFINx numbering, and C++ domains
return tuples and have no tdim.
---
 python/qugar/plot/pyvista_tools.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 9ffb26d..57616a5 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -44,6 +44,7 @@ from qugar.mesh import (
     DOLFINx_to_lexicg_faces,
     VTK_to_lexicg_faces,
     VTK_to_lexicg_nodes,
+    lexicg_to_DOLFINx_faces,
     lexicg_to_VTK_faces,
 )
 
@@ -528,9 +529,13 @@ def unfitted_domain_facets_to_PyVista(
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
 
-    dim = domain.tdim
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
+    if not is_cpp:
+        dlf_cell_ids = grid.cell_data["DOLFINx local cell ids"]
+
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
     if dim == 2:
         grid = cast(pv.DataSet, grid.extract_all_edges())
@@ -555,9 +560,20 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    if not is_cpp:
+        # Positions in the grid of the cells in the DOLFINx local numbering.
+        pv_cells = np.argsort(dlf_cell_ids)
+        lex_dlf_mask = lexicg_to_DOLFINx_faces(dim)
+
+    for status, cells_facets in facets.items():
+        if is_cpp:
+            cells, lex_facets = cells_facets
+        else:
+            cells = pv_cells[cells_facets.cell_ids]
+            lex_facets = lex_dlf_mask[cells_facets.local_facet_ids]
+
+        vtk_facets = vtk_lex_mask[lex_facets]
+        vtk_cells = cells * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +585,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
-- 
2.43.0


From 208f9cd8aa67bde02a6d703ec2f4fc6a31b67222 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 69/73] fix: ids of large tensor-product index sets

---
 python/qugar/mesh/tp_index.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 9a680c2..6fefb33 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -60,6 +60,9 @@ class TensorProdIndex:
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
+        # The indices may not fit in the type of the sizes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
+
         if dim == 1:
             return np.array([0, n_inds[0] - 1], dtype=np.int64)
         elif dim == 2:
@@ -91,6 +94,9 @@ class TensorProdIndex:
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
+        # The indices may not fit in the type of the sizes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
+
         if dim == 1:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
@@ -127,6 +133,9 @@ class TensorProdIndex:
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
+        # The indices may not fit in the type of the sizes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
+
         if dim == 1:
             faces = TensorProdIndex.get_all_corners(n_inds)
         elif dim == 2:
@@ -234,6 +243,9 @@ class TensorProdIndex:
         dim = len(n_inds)
         assert 1 <= dim <= 3 and 0 <= face_id < 2 * dim
 
+        # The indices may not fit in the type of the sizes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
+
         if not lexicg:
             face_id = lexicg_to_DOLFINx_faces(dim)[face_id]
 
@@ -299,6 +311,9 @@ class TensorProdIndex:
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
+        # The indices may not fit in the type of the sizes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
+
         if not lexicg:
             edge_id = lexicg_to_DOLFINx_edges(dim)[edge_id]
 
-- 
2.43.0


From b4a3e54b0e49572d5a4889ad5d3d74bfae572df6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 70/73] fix: tensor index from a flat index in large spaces

---
 cpp/include/qugar/tensor_index_tp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..9dfa91f 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,10 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    std::int64_t total_size{ 1 };
+    for (int dir = 0; dir < dim; ++dir) {
+      total_size *= size(dir);
+    }
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
-- 
2.43.0


From 78276b6cbc20d28273fc941daac326ad08007522 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:53:31 +0000
Subject: [PATCH 71/73] fix: boundary cells with large ids

---
 cpp/qugar/cart_grid_tp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index d75b3fe..6a98521 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -216,7 +216,7 @@ template<int dim> std::vector<std::int64_t> CartGridTP<dim>::get_boundary_cells(
   cells.reserve(static_cast<std::size_t>(prod(n_cells_facet)));
 
   for (const auto cell_tid : TensorIndexRangeTP<dim>(tid_0, tid_1)) {
-    cells.push_back(static_cast<int>(cell_tid.flat(n_cells_dir)));
+    cells.push_back(cell_tid.flat(n_cells_dir));
   }
 
   return cells;
-- 
2.43.0


From 1202bfb418dfbf5e894d63c8d30ebc6e6862df6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:54:51 +0000
Subject: [PATCH 72/73] fix: reparameterization of Bezier domains that are
 empty

---
 cpp/qugar/impl_reparam_bezier.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..79ab2ed 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,7 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0


From d2736f625bb4e4ff8b02ba7d2c48e33d377caf83 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 08:38:53 +0000
Subject: [PATCH 73/73] fix: direction beyond those of the base in Bezier
 reparameterizations

---
 cpp/qugar/impl_reparam_bezier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 79ab2ed..2eda8ac 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -491,7 +491,7 @@ namespace {
           Point<sub_dim> new_point = point;
           for (const auto &val : ts) {
 
-            const int dir = std::max(this->base_.dir_k_, dim - 2);
+            const int dir = std::min(this->base_.dir_k_, dim - 2);
             new_point(dir) = (numbers::one - val) * point(dir) + val * old_point(dir);
 
             this->compute_roots(new_point, i, new_roots_i);
-- 
2.43.0

