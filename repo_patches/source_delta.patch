From 507e30dc99bf0bc678cf6f13a7d81f02a0641a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 01/21] fix: polar cap Slepian matrix elements assigned from
 size-1 arrays

numpy no longer converts a size-1 array to a scalar on item assignment, so
every entry raised in the worker and the whole matrix stayed zero.
---
 src/sleplet/slepian/slepian_polar_cap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 9bd1e00..3bbd063 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -255,11 +255,11 @@ class SlepianPolarCap(SlepianFunctions):
             p = int(lvec[j])
             c = 0
             for n in range(abs(el - p), el + p + 1):
-                A = Pl[ell == n - 1] if n != 0 else 1
+                A = Pl[ell == n - 1].item() if n != 0 else 1
                 c += (
                     self._wigner3j(el, n, p, 0, 0, 0)
                     * self._wigner3j(el, n, p, m, 0, -m)
-                    * (A - Pl[ell == n + 1])
+                    * (A - Pl[ell == n + 1].item())
                 )
             Dm[i, j] = (
                 self._polar_gap_modification(el, p)
-- 
2.43.0


From 30bc9e5cc97eb2ea7c67cf78d80517b6e512c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 02/21] fix: propagate worker failures when building Slepian
 matrices

The result of Executor.map was never consumed, so an exception in a worker
was dropped and the eigenproblem was solved for a matrix left at zero.
---
 src/sleplet/meshes/mesh_slepian.py       | 2 +-
 src/sleplet/slepian/slepian_arbitrary.py | 2 +-
 src/sleplet/slepian/slepian_polar_cap.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 10765fb..27e4f47 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -130,7 +130,7 @@ class MeshSlepian:
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_ext.copy()
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index 2682bf3..b199d91 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -147,7 +147,7 @@ class SlepianArbitrary(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         D = D_r_ext + 1j * D_i_ext
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 3bbd063..96c972d 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -219,7 +219,7 @@ class SlepianPolarCap(SlepianFunctions):
 
         # initialise pool and apply function
         with concurrent.futures.ThreadPoolExecutor(max_workers=ncpu) as e:
-            e.map(func, chunks)
+            list(e.map(func, chunks))
 
         # retrieve from parallel function
         Dm = Dm_ext * (-1) ** m / 2
-- 
2.43.0


From 0275750c9fe7669b49c00cd3b07c8baf83d97ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 03/21] fix: keep Slepian wavelet coefficients aligned with
 their wavelets

Any scale without signal was dropped, also the scaling function or an
interior scale, while the inverse pairs coefficients with wavelets[:len].
Only the trailing empty scales are left out now.
---
 src/sleplet/wavelet_methods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/wavelet_methods.py b/src/sleplet/wavelet_methods.py
index 7a35862..7665e48 100644
--- a/src/sleplet/wavelet_methods.py
+++ b/src/sleplet/wavelet_methods.py
@@ -160,4 +160,6 @@ def find_non_zero_wavelet_coefficients(
     Returns:
         The non-zero wavelet coefficients.
     """
-    return wav_coeffs[wav_coeffs.any(axis=axis)]
+    # only drop trailing scales so the others stay aligned with their wavelets
+    scales = np.flatnonzero(wav_coeffs.any(axis=axis))
+    return wav_coeffs[: scales[-1] + 1 if scales.size else 0]
-- 
2.43.0


From 21536e10992242053f7171ae778781c73193acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 04/21] fix: normalise small amplitude fields to the unit
 interval

The default absolute tolerance of allclose treated any field below 1e-8 as
constant, giving values outside [0, 1] or a division by zero.
---
 src/sleplet/plot_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d85343a..d2bd6ec 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -157,7 +157,7 @@ def _normalise_function(
         # if all 0, set to 0
         return (f + 0.5).astype(np.float64)
     # if all non-zero, set to 1 otherwise scale from [0, 1]
-    return f / f.max() if np.allclose(f, f.max()) else (f - f.min()) / np.ptp(f)
+    return f / f.max() if np.allclose(f, f.max(), atol=0) else (f - f.min()) / np.ptp(f)
 
 
 def _boost_field(  # noqa: PLR0913
-- 
2.43.0


From 2e51f55d14615b93078465584b2c2ac33b6d716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 05/21] fix: do not share saved Slepian regions between
 different angles

Region names rounded the angles to whole degrees, so e.g. 40 and 40.3 degrees
loaded each other's saved eigensolutions. Names for whole degrees unchanged.
---
 src/sleplet/_string_methods.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 31cdced..1fd04bb 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -8,6 +8,8 @@ if typing.TYPE_CHECKING:
     import sleplet.functions.coefficients
     import sleplet.meshes.mesh_coefficients
 
+_DEGREE_TOLERANCE = 1e-9
+
 
 def _get_angle_num_dem(angle_fraction: float) -> tuple[int, int]:
     """Get numerator and denominator for a given decimal."""
@@ -73,9 +75,11 @@ def multiples_of_pi(angle: float) -> str:
     return f"{multiple if multiple != 1 else ''}\u03c0"
 
 
-def angle_as_degree(radian: float) -> int:
-    """Convert radian angle to integer degree."""
-    return round(np.rad2deg(radian))
+def angle_as_degree(radian: float) -> float:
+    """Convert radian angle to degree, as an integer for whole degrees."""
+    degree = float(np.rad2deg(radian))
+    whole = round(degree)
+    return whole if abs(degree - whole) < _DEGREE_TOLERANCE else degree
 
 
 def wavelet_ending(j_min: int, j: int | None) -> str:
-- 
2.43.0


From 7ed5767d6a3a36723f4eda93e2377a870dfc8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 06/21] fix: polar cap of a single order from truncated saved
 eigenvectors

For large L only the first N eigenvectors are saved but all the orders, so
selecting the order indexed out of bounds.
---
 src/sleplet/slepian/slepian_polar_cap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 96c972d..7e9371c 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -101,6 +101,9 @@ class SlepianPolarCap(SlepianFunctions):
         orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
 
         if self.order is not None:
+            if len(eigenvectors) < len(orders):
+                # not all eigenvectors are saved for large L
+                return self._solve_eigenproblem_order(self.order)
             idx = np.where(orders == self.order)
             return eigenvalues[idx], eigenvectors[idx]
         self.order = orders
-- 
2.43.0


From 678ca1c4241304a625d4a4deb79c707b3053ec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 07/21] fix: count both caps in the Shannon number of a polar
 gap region

The mask and the Slepian matrix cover both caps but the area was of one.
---
 src/sleplet/slepian/slepian_polar_cap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index 7e9371c..eb6c7d8 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -58,7 +58,8 @@ class SlepianPolarCap(SlepianFunctions):
         return sleplet._mask_methods.create_mask_region(self.L, self.region)
 
     def _calculate_area(self: typing_extensions.Self) -> float:
-        return 2 * np.pi * (1 - np.cos(self.theta_max))
+        caps = 2 if self.gap else 1
+        return caps * 2 * np.pi * (1 - np.cos(self.theta_max))
 
     def _create_matrix_location(self: typing_extensions.Self) -> str:
         return (
-- 
2.43.0


From 688299381aff74f7470792e86e24902bd3cc340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 08/21] fix: keep the denominator of arguments larger than one
 in filenames

1.5 and 3 both gave the suffix 3.
---
 src/sleplet/_string_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/_string_methods.py b/src/sleplet/_string_methods.py
index 1fd04bb..29a8534 100644
--- a/src/sleplet/_string_methods.py
+++ b/src/sleplet/_string_methods.py
@@ -31,7 +31,7 @@ def filename_args(value: float, arg_name: str) -> str:
     filename = "_"
     num, dem = _get_angle_num_dem(value)
     filename += f"{num}{arg_name}"
-    if abs(value) < 1 and value != 0:
+    if dem != 1:
         filename += f"{dem}"
     return filename
 
-- 
2.43.0


From 7cecaad0dd452252210536a13ff24e07b09242aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 09/21] fix: reject a mesh function rank equal to the number of
 functions

The limit itself passed the check, and the Slepian functions of the mesh
never ran theirs, so the rank failed later with an index error.
---
 src/sleplet/meshes/mesh_basis_functions.py   | 4 ++--
 src/sleplet/meshes/mesh_slepian_functions.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sleplet/meshes/mesh_basis_functions.py b/src/sleplet/meshes/mesh_basis_functions.py
index 444cb0b..849fd20 100644
--- a/src/sleplet/meshes/mesh_basis_functions.py
+++ b/src/sleplet/meshes/mesh_basis_functions.py
@@ -59,8 +59,8 @@ class MeshBasisFunctions(MeshHarmonicCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
diff --git a/src/sleplet/meshes/mesh_slepian_functions.py b/src/sleplet/meshes/mesh_slepian_functions.py
index db69bad..ac51036 100644
--- a/src/sleplet/meshes/mesh_slepian_functions.py
+++ b/src/sleplet/meshes/mesh_slepian_functions.py
@@ -23,6 +23,7 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
     selects a given Slepian function from the spectrum (p in the papers)."""
 
     def __post_init__(self: typing_extensions.Self) -> None:
+        self._validate_rank()
         super().__post_init__()
 
     def _create_coefficients(
@@ -62,8 +63,8 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
         """Check the requested rank is valid."""
         if isinstance(self.extra_args, list):
             limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] > limit:
-                msg = f"rank should be less than or equal to {limit}"
+            if self.extra_args[0] >= limit:
+                msg = f"rank should be less than {limit}"
                 raise ValueError(msg)
 
     @pydantic.field_validator("rank")
-- 
2.43.0


From 72afee8d374e8150adfc3e09dc5505df64c89288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 10/21] fix: never leave a partly written array under its
 cached name

An interrupted save left a truncated file which made every later
construction of the same region or mesh fail. Arrays are now written to a
partial file which is renamed once complete.
---
 src/sleplet/_data/setup_pooch.py             | 19 +++++++++++++++++++
 src/sleplet/_mask_methods.py                 |  6 +-----
 src/sleplet/_mesh_methods.py                 |  7 ++-----
 src/sleplet/meshes/mesh_slepian.py           | 11 +++++------
 src/sleplet/slepian/slepian_arbitrary.py     |  8 ++------
 src/sleplet/slepian/slepian_limit_lat_lon.py |  9 ++-------
 src/sleplet/slepian/slepian_polar_cap.py     | 10 +++-------
 7 files changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/sleplet/_data/setup_pooch.py b/src/sleplet/_data/setup_pooch.py
index 4b2bd7c..9249630 100644
--- a/src/sleplet/_data/setup_pooch.py
+++ b/src/sleplet/_data/setup_pooch.py
@@ -1,7 +1,10 @@
 import logging
 import os
+import pathlib
 import typing
 
+import numpy as np
+import numpy.typing as npt
 import platformdirs
 import pooch
 
@@ -78,3 +81,19 @@ def find_on_pooch_then_local(filename: str) -> os.PathLike[str] | None:
     msg = f"No {filename} found, calculating..."
     _logger.info(msg)
     return None
+
+
+def save_to_local(filename: str, array: npt.NDArray[typing.Any]) -> None:
+    """
+    Save an array in the data folder, under its name only once fully written.
+
+    Args:
+        filename: Filename to save as
+        array: The array to save
+    """
+    save_path = pathlib.Path(platformdirs.user_data_path())
+    save_path.mkdir(parents=True, exist_ok=True)
+    partial = save_path / f"{filename}.{os.getpid()}.partial"
+    with partial.open("wb") as f:
+        np.save(f, array)
+    partial.replace(save_path / filename)
diff --git a/src/sleplet/_mask_methods.py b/src/sleplet/_mask_methods.py
index efb1536..57a854d 100644
--- a/src/sleplet/_mask_methods.py
+++ b/src/sleplet/_mask_methods.py
@@ -1,11 +1,9 @@
 import logging
 import os
-import pathlib
 import typing
 
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 
 import pyssht as ssht
 
@@ -201,7 +199,5 @@ def create_mask(L: int, mask_name: str) -> npt.NDArray[np.float64]:
     else:
         msg = f"Mask name {mask_name} not recognised"
         raise ValueError(msg)
-    save_path = platformdirs.user_data_path()
-    pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-    np.save(save_path / f"slepian_masks_{mask_name}", mask)
+    sleplet._data.setup_pooch.save_to_local(f"slepian_masks_{mask_name}", mask)
     return mask
diff --git a/src/sleplet/_mesh_methods.py b/src/sleplet/_mesh_methods.py
index d461d3f..ddc5d2a 100644
--- a/src/sleplet/_mesh_methods.py
+++ b/src/sleplet/_mesh_methods.py
@@ -5,7 +5,6 @@ import typing
 import igl
 import numpy as np
 import numpy.typing as npt
-import platformdirs
 import scipy.sparse.linalg as LA_sparse  # noqa: N812
 import tomli
 
@@ -104,10 +103,8 @@ def mesh_eigendecomposition(
         )
         eigenvectors = _orthonormalise_basis_functions(vertices, faces, eigenvectors.T)
         _logger.info("saving binaries...")
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors)
+        sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors)
     return eigenvalues, eigenvectors, number_basis_functions
 
 
diff --git a/src/sleplet/meshes/mesh_slepian.py b/src/sleplet/meshes/mesh_slepian.py
index 27e4f47..f808089 100644
--- a/src/sleplet/meshes/mesh_slepian.py
+++ b/src/sleplet/meshes/mesh_slepian.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -88,10 +86,11 @@ class MeshSlepian:
             self.slepian_eigenvalues,
             self.slepian_functions,
         ) = self._clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, self.slepian_eigenvalues)
-        np.save(save_path / evec_loc, self.slepian_functions[: self.N])
+        sleplet._data.setup_pooch.save_to_local(eval_loc, self.slepian_eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(
+            evec_loc,
+            self.slepian_functions[: self.N],
+        )
 
     def _create_D_matrix(  # noqa: N802
         self: typing_extensions.Self,
diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index b199d91..fd0e120 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -3,12 +3,10 @@
 import concurrent.futures
 import logging
 import os
-import pathlib
 
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -96,10 +94,8 @@ class SlepianArbitrary(SlepianFunctions):
             eigenvalues,
             eigenvectors,
         ) = sleplet._slepian_arbitrary_methods.clean_evals_and_evecs(LA.eigh(D))
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[: self.N])
+        sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_D_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_limit_lat_lon.py b/src/sleplet/slepian/slepian_limit_lat_lon.py
index 78c99a9..c184925 100644
--- a/src/sleplet/slepian/slepian_limit_lat_lon.py
+++ b/src/sleplet/slepian/slepian_limit_lat_lon.py
@@ -1,12 +1,9 @@
 """Contains the `SlepianLimitLatLon` class."""
 
-import pathlib
-
 import numba
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -76,10 +73,8 @@ class SlepianLimitLatLon(SlepianFunctions):
         except TypeError:
             K = self._create_K_matrix()
             eigenvalues, eigenvectors = self._clean_evals_and_evecs(LA.eigh(K))
-            save_path = platformdirs.user_data_path()
-            pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-            np.save(save_path / eval_loc, eigenvalues)
-            np.save(save_path / evec_loc, eigenvectors[: self.N])
+            sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+            sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors[: self.N])
         return eigenvalues, eigenvectors
 
     def _create_K_matrix(  # noqa: N802
diff --git a/src/sleplet/slepian/slepian_polar_cap.py b/src/sleplet/slepian/slepian_polar_cap.py
index eb6c7d8..ac2bde1 100644
--- a/src/sleplet/slepian/slepian_polar_cap.py
+++ b/src/sleplet/slepian/slepian_polar_cap.py
@@ -4,13 +4,11 @@ import concurrent.futures
 import dataclasses
 import logging
 import os
-import pathlib
 
 import gmpy2 as gp
 import numpy as np
 import numpy.linalg as LA  # noqa: N812
 import numpy.typing as npt
-import platformdirs
 import pydantic
 import typing_extensions
 
@@ -134,11 +132,9 @@ class SlepianPolarCap(SlepianFunctions):
             self.order,
         ) = self._sort_all_evals_and_evecs(evals_all, evecs_all, emm)
         limit = self.N if self.L > _L_SAVE_ALL else None
-        save_path = platformdirs.user_data_path()
-        pathlib.Path(save_path).mkdir(parents=True, exist_ok=True)
-        np.save(save_path / eval_loc, eigenvalues)
-        np.save(save_path / evec_loc, eigenvectors[:limit])
-        np.save(save_path / order_loc, self.order)
+        sleplet._data.setup_pooch.save_to_local(eval_loc, eigenvalues)
+        sleplet._data.setup_pooch.save_to_local(evec_loc, eigenvectors[:limit])
+        sleplet._data.setup_pooch.save_to_local(order_loc, self.order)
         return eigenvalues, eigenvectors
 
     def _solve_eigenproblem_order(
-- 
2.43.0


From 5ecac0bd9295c0b88fe8b61189cac26264e1fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 11/21] fix: declare the cached fields of an arbitrary Slepian
 region

---
 src/sleplet/slepian/slepian_arbitrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sleplet/slepian/slepian_arbitrary.py b/src/sleplet/slepian/slepian_arbitrary.py
index fd0e120..a979b58 100644
--- a/src/sleplet/slepian/slepian_arbitrary.py
+++ b/src/sleplet/slepian/slepian_arbitrary.py
@@ -39,6 +39,11 @@ class SlepianArbitrary(SlepianFunctions):
         init_var=False,
         repr=False,
     )
+    _fields: dict[int, npt.NDArray[np.complex128]] = pydantic.Field(
+        default_factory=dict,
+        init_var=False,
+        repr=False,
+    )
 
     def __post_init__(self: typing_extensions.Self) -> None:
         self._resolution = _SAMPLES * self.L
@@ -103,7 +108,7 @@ class SlepianArbitrary(SlepianFunctions):
     ) -> npt.NDArray[np.complex128]:
         """Compute the D matrix in parallel."""
         # create dictionary for the integrals
-        self._fields: dict[int, npt.NDArray[np.complex128 | np.float64]] = {}
+        self._fields = {}
 
         # initialise real and imaginary matrices
         D_r = np.zeros((self.L**2, self.L**2))
-- 
2.43.0


From 0e7d575fba0faab0b93e1f0c38ad7937850d9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 12/21] fix: find the mesh field when creating its noise

MeshField was looked up in the wrong module, so that MeshNoiseField could
not be created.
---
 src/sleplet/meshes/mesh_noise_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/meshes/mesh_noise_field.py b/src/sleplet/meshes/mesh_noise_field.py
index 9e3f853..b392494 100644
--- a/src/sleplet/meshes/mesh_noise_field.py
+++ b/src/sleplet/meshes/mesh_noise_field.py
@@ -7,7 +7,7 @@ import typing_extensions
 
 import sleplet._string_methods
 import sleplet._validation
-import sleplet.meshes.mesh_slepian
+import sleplet.meshes.mesh_field
 import sleplet.noise
 from sleplet.meshes.mesh_harmonic_coefficients import MeshHarmonicCoefficients
 
@@ -26,7 +26,7 @@ class MeshNoiseField(MeshHarmonicCoefficients):
     def _create_coefficients(
         self: typing_extensions.Self,
     ) -> npt.NDArray[np.complex128 | np.float64]:
-        mf = sleplet.meshes.mesh_slepian.MeshField(self.mesh)
+        mf = sleplet.meshes.mesh_field.MeshField(self.mesh)
         noise = sleplet.noise._create_mesh_noise(mf.coefficients, self.SNR)
         sleplet.noise.compute_snr(mf.coefficients, noise, "Harmonic")
         return noise
-- 
2.43.0


From 936409a77b16aa53b12d1070829d5e61fb7cbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 13/21] fix: reject a mesh rank out of range also when given as
 argument

Only the rank of the command line was checked: the argument itself failed
later with an index error.
---
 src/sleplet/meshes/mesh_basis_functions.py   | 10 +++++-----
 src/sleplet/meshes/mesh_slepian_functions.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sleplet/meshes/mesh_basis_functions.py b/src/sleplet/meshes/mesh_basis_functions.py
index 849fd20..a2674c5 100644
--- a/src/sleplet/meshes/mesh_basis_functions.py
+++ b/src/sleplet/meshes/mesh_basis_functions.py
@@ -57,11 +57,11 @@ class MeshBasisFunctions(MeshHarmonicCoefficients):
 
     def _validate_rank(self: typing_extensions.Self) -> None:
         """Check the requested rank is valid."""
-        if isinstance(self.extra_args, list):
-            limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] >= limit:
-                msg = f"rank should be less than {limit}"
-                raise ValueError(msg)
+        rank = self.extra_args[0] if isinstance(self.extra_args, list) else self.rank
+        limit = self.mesh.mesh_eigenvalues.shape[0]
+        if rank >= limit:
+            msg = f"rank should be less than {limit}"
+            raise ValueError(msg)
 
     @pydantic.field_validator("rank")
     def _check_rank(
diff --git a/src/sleplet/meshes/mesh_slepian_functions.py b/src/sleplet/meshes/mesh_slepian_functions.py
index ac51036..206598c 100644
--- a/src/sleplet/meshes/mesh_slepian_functions.py
+++ b/src/sleplet/meshes/mesh_slepian_functions.py
@@ -61,11 +61,11 @@ class MeshSlepianFunctions(MeshSlepianCoefficients):
 
     def _validate_rank(self: typing_extensions.Self) -> None:
         """Check the requested rank is valid."""
-        if isinstance(self.extra_args, list):
-            limit = self.mesh.mesh_eigenvalues.shape[0]
-            if self.extra_args[0] >= limit:
-                msg = f"rank should be less than {limit}"
-                raise ValueError(msg)
+        rank = self.extra_args[0] if isinstance(self.extra_args, list) else self.rank
+        limit = self.mesh.mesh_eigenvalues.shape[0]
+        if rank >= limit:
+            msg = f"rank should be less than {limit}"
+            raise ValueError(msg)
 
     @pydantic.field_validator("rank")
     def _check_rank(
-- 
2.43.0


From 0d6218920e0854527545f381ef8735cda1e85208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 14/21] fix: reject a Slepian rank out of range also when given
 as argument

Only the rank of the command line was checked: the argument itself failed
later with an index error.
---
 src/sleplet/functions/slepian.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sleplet/functions/slepian.py b/src/sleplet/functions/slepian.py
index 649b2e3..9e2c793 100644
--- a/src/sleplet/functions/slepian.py
+++ b/src/sleplet/functions/slepian.py
@@ -71,11 +71,11 @@ class Slepian(Fp):
 
     def _validate_rank(self: typing_extensions.Self) -> None:
         """Check the requested rank is valid."""
-        if isinstance(self.extra_args, list):
-            limit = self.L**2
-            if self.extra_args[0] >= limit:
-                msg = f"rank should be less than {limit}"
-                raise ValueError(msg)
+        rank = self.extra_args[0] if isinstance(self.extra_args, list) else self.rank
+        limit = self.L**2
+        if rank >= limit:
+            msg = f"rank should be less than {limit}"
+            raise ValueError(msg)
 
     @pydantic.field_validator("rank")
     def _check_rank(
-- 
2.43.0


From 52aae28fded9b98ae788f37a7e9cbbe88f87632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 15/21] fix: noise of Slepian signals with more coefficients
 than the Shannon number

The noise always had as many coefficients as the Shannon number, so that it
could not be added to the Slepian wavelets or identity (or was broadcast).
---
 src/sleplet/noise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/noise.py b/src/sleplet/noise.py
index 3384b8d..09c02ae 100644
--- a/src/sleplet/noise.py
+++ b/src/sleplet/noise.py
@@ -109,7 +109,10 @@ def _create_slepian_noise(
         Method=sleplet._vars.SAMPLING_SCHEME,
     )
     nlm = _create_noise(L, flm, snr_in)
-    return sleplet.slepian_methods.slepian_forward(L, slepian, flm=nlm)
+    # only the coefficients within the Shannon number contribute to the field
+    n_p = np.zeros(slepian_signal.shape[0], dtype=np.complex128)
+    n_p[: slepian.N] = sleplet.slepian_methods.slepian_forward(L, slepian, flm=nlm)
+    return n_p
 
 
 def _perform_hard_thresholding(
@@ -274,10 +277,13 @@ def _create_slepian_mesh_noise(
         ),
     )
     n_i = _create_mesh_noise(u_i, snr_in)
-    return sleplet.slepian_methods.slepian_mesh_forward(
+    # only the coefficients within the Shannon number contribute to the field
+    n_p = np.zeros(slepian_signal.shape[0])
+    n_p[: mesh_slepian.N] = sleplet.slepian_methods.slepian_mesh_forward(
         mesh_slepian,
         u_i=n_i,
     )
+    return n_p
 
 
 def compute_slepian_mesh_sigma_j(
-- 
2.43.0


From cf0b9d3b575c29b4b9d654cfadc363219db598fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 16/21] fix: use the spin and reality of the function when
 finding its maximum amplitude

---
 src/sleplet/plot_methods.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/sleplet/plot_methods.py b/src/sleplet/plot_methods.py
index d2bd6ec..1f9eba6 100644
--- a/src/sleplet/plot_methods.py
+++ b/src/sleplet/plot_methods.py
@@ -79,18 +79,7 @@ def find_max_amplitude(
         The maximum amplitude value.
     """
     # compute inverse transform
-    if hasattr(function, "slepian"):
-        field = sleplet.slepian_methods.slepian_inverse(
-            function.coefficients,
-            function.L,
-            function.slepian,
-        )
-    else:
-        field = ssht.inverse(
-            function.coefficients,
-            function.L,
-            Method=sleplet._vars.SAMPLING_SCHEME,
-        )
+    field = _coefficients_to_field_sphere(function, function.coefficients)
 
     # find resolution of final plot for boosting if necessary
     resolution = calc_plot_resolution(function.L) if upsample else function.L
-- 
2.43.0


From 69be00b57293ca164f67892a4e4b510bc2916541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 17/21] fix: the identity is not a real signal as its
 coefficients lack the conjugate symmetry

---
 src/sleplet/functions/identity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/identity.py b/src/sleplet/functions/identity.py
index d930104..55366cc 100644
--- a/src/sleplet/functions/identity.py
+++ b/src/sleplet/functions/identity.py
@@ -28,7 +28,7 @@ class Identity(Flm):
         )
 
     def _set_reality(self: typing_extensions.Self) -> bool:
-        return True
+        return False
 
     def _set_spin(self: typing_extensions.Self) -> int:
         return 0
-- 
2.43.0


From 44d2efd645afbe127b81850ff29cb7377dc4e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 18/21] fix: report a spherical harmonic degree out of range
 instead of failing with a KeyError

---
 src/sleplet/functions/spherical_harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sleplet/functions/spherical_harmonic.py b/src/sleplet/functions/spherical_harmonic.py
index 1bc18d2..f320f0f 100644
--- a/src/sleplet/functions/spherical_harmonic.py
+++ b/src/sleplet/functions/spherical_harmonic.py
@@ -69,7 +69,7 @@ class SphericalHarmonic(Flm):
         v: int,
         info: pydantic.ValidationInfo,
     ) -> int:
-        if abs(v) > info.data["ell"]:
+        if "ell" in info.data and abs(v) > info.data["ell"]:
             msg = "the magnitude of m should be less than ell"
             raise ValueError(msg)
         return v
-- 
2.43.0


From fa140b40baf09b1bcf2d5c495edddd82771f8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 19/21] fix: accept the text values of annotations so that
 translated functions can be plotted

---
 src/sleplet/_plotly_methods.py              | 2 +-
 src/sleplet/_scripts/plotting_on_sphere.py  | 2 +-
 src/sleplet/plotting/_create_plot_sphere.py | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sleplet/_plotly_methods.py b/src/sleplet/_plotly_methods.py
index a1f3381..1a83873 100644
--- a/src/sleplet/_plotly_methods.py
+++ b/src/sleplet/_plotly_methods.py
@@ -32,7 +32,7 @@ def create_camera(  # noqa: PLR0913
 def create_layout(
     camera: go.layout.scene.Camera,
     *,
-    annotations: list[dict[str, float | int]] | None = None,
+    annotations: list[dict[str, float | int | str]] | None = None,
 ) -> go.Layout:
     """Create the default plotly layout."""
     return go.Layout(
diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index 1b0d983..cf2d8e5 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -302,7 +302,7 @@ def _translation_helper(
     alpha_pi_frac: float,
     beta_pi_frac: float,
     shannon: int | None,
-) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int]]:
+) -> tuple[npt.NDArray[np.complex128 | np.float64], str, dict[str, float | int | str]]:
     """Perform the translation specific steps."""
     msg = f"angles: (alpha, beta) = ({alpha_pi_frac}, {beta_pi_frac})"
     _logger.info(msg)
diff --git a/src/sleplet/plotting/_create_plot_sphere.py b/src/sleplet/plotting/_create_plot_sphere.py
index 933b60b..87b384e 100644
--- a/src/sleplet/plotting/_create_plot_sphere.py
+++ b/src/sleplet/plotting/_create_plot_sphere.py
@@ -32,7 +32,9 @@ class PlotSphere:
     _: dataclasses.KW_ONLY
     amplitude: float | None = None
     """Whether to customise the amplitude range of the colour bar."""
-    annotations: list[dict[str, float | int]] = pydantic.Field(default_factory=list)
+    annotations: list[dict[str, float | int | str]] = pydantic.Field(
+        default_factory=list,
+    )
     """Whether to display any annotations on the surface plot or not."""
     normalise: bool = True
     """Whether to normalise the plot or not."""
-- 
2.43.0


From 1eb4f434d847c8c063d89f5a3f3238d578f91eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 20/21] fix: do not rotate Slepian coefficients convolved with
 the Earth

---
 src/sleplet/_scripts/plotting_on_sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/_scripts/plotting_on_sphere.py b/src/sleplet/_scripts/plotting_on_sphere.py
index cf2d8e5..750b508 100644
--- a/src/sleplet/_scripts/plotting_on_sphere.py
+++ b/src/sleplet/_scripts/plotting_on_sphere.py
@@ -231,8 +231,8 @@ def plot(  # noqa: PLR0913
             filename,
         )
 
-    # rotate plot of Earth
-    if "earth" in filename:
+    # rotate plot of Earth - rotation isn't defined for Slepian coefficients
+    if "earth" in filename and not hasattr(f, "slepian"):
         match earth_view:
             case "africa":
                 coefficients = sleplet.harmonic_methods.rotate_earth_to_africa(
-- 
2.43.0


From b76887de7cd260a3d5a4ed1db24e0956ef5faf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:13 +0000
Subject: [PATCH 21/21] fix: translate Slepian signals to the nearest sample,
 not the one before it

The index pyssht computes from the angle of a sample is truncated, and one
too small for many samples from bandlimit 6 on.
---
 src/sleplet/slepian_methods.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sleplet/slepian_methods.py b/src/sleplet/slepian_methods.py
index 7c2cf46..9598c9e 100644
--- a/src/sleplet/slepian_methods.py
+++ b/src/sleplet/slepian_methods.py
@@ -160,8 +160,9 @@ def _compute_s_p_omega_prime(
 ) -> npt.NDArray[np.complex128]:
     """Pick out the desired angle from Sp(omega)."""
     sp_omega = compute_s_p_omega(L, slepian)
-    p = ssht.theta_to_index(beta, L, Method=sleplet._vars.SAMPLING_SCHEME)
-    q = ssht.phi_to_index(alpha, L, Method=sleplet._vars.SAMPLING_SCHEME)
+    thetas, phis = ssht.sample_positions(L, Method=sleplet._vars.SAMPLING_SCHEME)
+    p = np.abs(thetas - beta).argmin()
+    q = np.abs(phis - alpha).argmin()
     sp_omega_prime = sp_omega[:, p, q]
     # pad with zeros so it has the expected shape
     boost = L**2 - slepian.N
-- 
2.43.0

