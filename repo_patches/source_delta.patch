From a804ad912e3f4e32e91942b61e7ca31278dcfbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 01/48] fix: GSData.consolidate stores higher-order SH
 channel-grouped like the PLY layout

---
 src/gsply/gsdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a085d3d..33cb34f 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -861,9 +861,9 @@ class GSData:
             sh_coeffs = sh_bands * 3  # Total coefficients (9, 24, or 45)
             n_props = 14 + sh_coeffs
 
-            # Flatten shN from (N, bands, 3) to (N, bands*3)
+            # Flatten shN from (N, bands, 3) to channel-grouped (N, 3*bands) PLY order
             shn_flat = np.ascontiguousarray(
-                self.shN.reshape(n_gaussians, sh_coeffs), dtype=np.float32
+                self.shN.transpose(0, 2, 1).reshape(n_gaussians, sh_coeffs), dtype=np.float32
             )
 
             # Allocate and populate using JIT kernel
-- 
2.43.0


From a02bb15407ceaa5bbe40f9757a6e909141e08b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 02/48] fix: replacing or deactivating GSData attributes
 invalidates the consolidated base array

---
 src/gsply/gsdata.py | 14 ++++++++++++++
 src/gsply/utils.py  |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 33cb34f..705d1de 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -390,6 +390,10 @@ def _combine_masks_numba_or(masks):
     return result
 
 
+# Attributes stored in (and viewed from) the consolidated _base array
+_BASE_BACKED_FIELDS = frozenset({"means", "scales", "quats", "opacities", "sh0", "shN"})
+
+
 @dataclass
 class GSData:
     """Gaussian Splatting data container.
@@ -455,6 +459,16 @@ class GSData:
     mask_names: list[str] | None = None  # Names for each mask layer
     _base: np.ndarray | None = None  # Private field for zero-copy views
 
+    def __setattr__(self, name: str, value) -> None:
+        # _base mirrors the attribute arrays: replacing one of them makes it stale
+        if (
+            name in _BASE_BACKED_FIELDS
+            and self.__dict__.get("_base") is not None
+            and value is not self.__dict__.get(name)
+        ):
+            object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
     def __post_init__(self):
         """Auto-detect format if not provided."""
         # Copy format dict to avoid sharing mutable state between instances
diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8b4ae4..978dced 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -428,6 +428,9 @@ def apply_pre_deactivations(
     data.scales = scales
     data.opacities = opacities
 
+    # Invalidate _base: it still holds the values before deactivation
+    data._base = None
+
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
         scales.shape[0],
-- 
2.43.0


From 2841bb110c09f7df7bcb0e292b075227a2c1624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 03/48] fix: normalize/denormalize convert only the attributes
 whose label is not already the target

---
 src/gsply/gsdata.py | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 705d1de..227f30b 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1450,19 +1450,36 @@ class GSData:
         """
         from gsply.utils import apply_pre_deactivations
 
+        # Only attributes that are not in PLY format yet are converted
+        result = self if inplace else self.copy()
+        keep_scales, keep_opacities = self.is_scales_ply, self.is_opacities_ply
+        if keep_scales and keep_opacities:
+            return result
+
         # Constants for numerical stability (matching GSTensor)
         min_scale = 1e-9
         min_opacity = 1e-4
         max_opacity = 1.0 - 1e-4
 
+        # The fused kernel converts both arrays: give it a scratch copy of one that must stay
+        scales, opacities = result.scales, result.opacities
+        if keep_scales:
+            result.scales = scales.copy()
+        if keep_opacities:
+            result.opacities = opacities.copy()
+
         # Use fused deactivation kernel for optimal performance (~8-15x faster)
-        result = apply_pre_deactivations(
-            self,
+        apply_pre_deactivations(
+            result,
             min_scale=min_scale,
             min_opacity=min_opacity,
             max_opacity=max_opacity,
-            inplace=inplace,
+            inplace=True,
         )
+        if keep_scales:
+            result.scales = scales
+        if keep_opacities:
+            result.opacities = opacities
 
         # Update format dict: scales and opacities are now in PLY format
         if inplace:
@@ -1506,8 +1523,25 @@ class GSData:
         """
         from gsply.utils import apply_pre_activations
 
+        # Only attributes that are not in linear format yet are converted
+        result = self if inplace else self.copy()
+        keep_scales, keep_opacities = self.is_scales_linear, self.is_opacities_linear
+        if keep_scales and keep_opacities:
+            return result
+
+        # The fused kernel converts both arrays: give it a scratch copy of one that must stay
+        scales, opacities = result.scales, result.opacities
+        if keep_scales:
+            result.scales = scales.copy()
+        if keep_opacities:
+            result.opacities = opacities.copy()
+
         # Use fused activation kernel for optimal performance (~8-15x faster)
-        result = apply_pre_activations(self, inplace=inplace)
+        apply_pre_activations(result, inplace=True)
+        if keep_scales:
+            result.scales = scales
+        if keep_opacities:
+            result.opacities = opacities
 
         # Update format dict: scales and opacities are now in linear format
         if inplace:
-- 
2.43.0


From 9d641d541e164313884af716fb6095102c97dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 04/48] fix: plywrite converts to PLY units on a copy instead
 of modifying the caller's scene

---
 src/gsply/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 92aedc8..382aaee 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1582,14 +1582,14 @@ def plywrite(
                 file_path = Path(str(file_path) + ".compressed.ply")
 
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=False)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From 146956f8fab42a192253c4c5bef7c27c5b661f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 05/48] fix: saving converts an RGB base colour back to SH

---
 src/gsply/writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 382aaee..cf9f735 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -865,7 +865,7 @@ def _compute_chunk_boundaries(num_chunks: int, num_gaussians: int) -> tuple[np.n
 
 
 def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
-    """Ensure data is in PLY format (log-scales, logit-opacities).
+    """Ensure data is in PLY format (log-scales, logit-opacities, SH base colour).
 
     Checks format flags and converts if needed. Used before writing PLY files.
 
@@ -880,7 +880,10 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
         logger.debug(
             f"[PLY Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        return data.normalize(inplace=inplace)
+        data = data.normalize(inplace=inplace)
+        inplace = True  # already a private copy, or modifying in place was requested
+    if data.is_sh0_rgb:
+        data = data.to_sh(inplace=inplace)
     return data
 
 
-- 
2.43.0


From f0be2d22571e9c4265e640907fd25878e483804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 06/48] fix: compress_to_bytes, compress_to_arrays and
 write_uncompressed honour the units labels

---
 src/gsply/writer.py | 131 +++++++++++++++++++++++---------------------
 1 file changed, 69 insertions(+), 62 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index cf9f735..14d8c4a 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -40,12 +40,15 @@ from gsply.formats import (
     QUAT_B_SHIFT,
     QUAT_C_SHIFT,
     QUAT_INDEX_SHIFT,
+    SH_BANDS_TO_DEGREE,
     SH_C0,
 )
 from gsply.gsdata import (
     DataFormat,
     GSData,
     _create_format_dict,
+    _detect_format_from_values,
+    _get_sh_order_format,
     _interleave_sh0_jit,
     _interleave_shn_jit,
 )
@@ -887,6 +890,54 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
     return data
 
 
+def _gsdata_from_arrays(
+    means: np.ndarray,
+    scales: np.ndarray,
+    quats: np.ndarray,
+    opacities: np.ndarray,
+    sh0: np.ndarray,
+    shn: np.ndarray | None,
+) -> GSData:
+    """Wrap individual arrays in a GSData, detecting the units from the values.
+
+    :param means: Gaussian centers, shape (N, 3)
+    :param scales: Log or linear scales, shape (N, 3)
+    :param quats: Rotations as quaternions (wxyz), shape (N, 4)
+    :param opacities: Logit or linear opacities, shape (N,)
+    :param sh0: DC spherical harmonics, shape (N, 3)
+    :param shn: Higher-order SH coefficients, shape (N, K, 3) or (N, K*3), or None
+    :returns: GSData without _base
+    """
+    means, scales, quats, opacities, sh0, shn = _ensure_numpy_arrays(
+        means, scales, quats, opacities, sh0, shn
+    )
+    scales_format, opacities_format = _detect_format_from_values(scales, opacities)
+
+    # Determine SH degree for format dict
+    sh_degree = 0
+    if shn is not None and shn.shape[1] > 0:
+        sh_bands = shn.shape[1] // 3 if shn.ndim == 2 else shn.shape[1]
+        sh_degree = SH_BANDS_TO_DEGREE.get(sh_bands, 0)
+
+    return GSData(
+        means=means,
+        scales=scales,
+        quats=quats,
+        opacities=opacities,
+        sh0=sh0,
+        shN=shn if shn is not None else np.empty((means.shape[0], 0, 3), dtype=np.float32),
+        _base=None,
+        _format=_create_format_dict(
+            scales=scales_format,
+            opacities=opacities_format,
+            sh0=DataFormat.SH0_SH,  # Assume SH format
+            sh_order=_get_sh_order_format(sh_degree),
+            means=DataFormat.MEANS_RAW,
+            quats=DataFormat.QUATS_RAW,
+        ),
+    )
+
+
 def _validate_and_normalize_inputs(
     means: np.ndarray,
     scales: np.ndarray,
@@ -1145,6 +1196,9 @@ def write_uncompressed(
     """
     file_path = Path(file_path)
 
+    # PLY files store log-scales, logit-opacities and SH colours
+    data = _ensure_ply_format(data, inplace=False)
+
     # ZERO-COPY FAST PATH: Write _base array directly if it exists
     if data._base is not None:
         num_gaussians = len(data)
@@ -1324,22 +1378,17 @@ def compress_to_bytes(
         >>> with open("output.compressed.ply", "wb") as f:
         ...     f.write(compressed_bytes)
     """
-    # Handle GSData input
-    if isinstance(data_or_means, GSData):
-        means = data_or_means.means
-        scales = data_or_means.scales
-        quats = data_or_means.quats
-        opacities = data_or_means.opacities
-        sh0 = data_or_means.sh0
-        shN = data_or_means.shN  # noqa: N806
-    else:
-        # Use individual arrays
-        means = data_or_means
+    # Wrap individual arrays, so that units are handled exactly as in plywrite()
+    if not isinstance(data_or_means, GSData):
         if scales is None or quats is None or opacities is None or sh0 is None:
             raise ValueError(
                 "When passing individual arrays, scales, quats, opacities, and sh0 are required. "
                 "Consider using GSData for cleaner API: compress_to_bytes(data)"
             )
+        data_or_means = _gsdata_from_arrays(data_or_means, scales, quats, opacities, sh0, shN)
+
+    data = _ensure_ply_format(data_or_means, inplace=False)
+    means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
 
     # Validate and normalize inputs
     means, scales, quats, opacities, sh0, shN = _validate_and_normalize_inputs(  # noqa: N806
@@ -1406,22 +1455,17 @@ def compress_to_arrays(
         >>> print(f"Chunks shape: {chunks.shape}")
         >>> print(f"Packed data: {packed.nbytes} bytes")
     """
-    # Handle GSData input
-    if isinstance(data_or_means, GSData):
-        means = data_or_means.means
-        scales = data_or_means.scales
-        quats = data_or_means.quats
-        opacities = data_or_means.opacities
-        sh0 = data_or_means.sh0
-        shN = data_or_means.shN  # noqa: N806
-    else:
-        # Use individual arrays
-        means = data_or_means
+    # Wrap individual arrays, so that units are handled exactly as in plywrite()
+    if not isinstance(data_or_means, GSData):
         if scales is None or quats is None or opacities is None or sh0 is None:
             raise ValueError(
                 "When passing individual arrays, scales, quats, opacities, and sh0 are required. "
                 "Consider using GSData for cleaner API: compress_to_arrays(data)"
             )
+        data_or_means = _gsdata_from_arrays(data_or_means, scales, quats, opacities, sh0, shN)
+
+    data = _ensure_ply_format(data_or_means, inplace=False)
+    means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
 
     # Validate and normalize inputs
     means, scales, quats, opacities, sh0, shN = _validate_and_normalize_inputs(  # noqa: N806
@@ -1528,44 +1572,8 @@ def plywrite(
                 "When passing individual arrays, all of data (means), scales, quats, "
                 "opacities, and sh0 must be provided"
             )
-        # Create GSData without _base (will auto-consolidate below)
-        # Automatically detect format from values (always returns valid format)
-        from gsply.gsdata import _detect_format_from_values, _get_sh_order_format
-
-        scales_format, opacities_format = _detect_format_from_values(scales, opacities)
-
-        # Determine SH degree for format dict
-        if shN is not None and shN.shape[1] > 0:
-            if shN.ndim == 2:
-                sh_bands = shN.shape[1] // 3
-            else:
-                sh_bands = shN.shape[1]
-            from gsply.formats import SH_BANDS_TO_DEGREE
-
-            sh_degree = SH_BANDS_TO_DEGREE.get(sh_bands, 0)
-        else:
-            sh_degree = 0
-
-        # Create format dict (always provided)
-        format_dict = _create_format_dict(
-            scales=scales_format,
-            opacities=opacities_format,
-            sh0=DataFormat.SH0_SH,  # Assume SH format
-            sh_order=_get_sh_order_format(sh_degree),
-            means=DataFormat.MEANS_RAW,
-            quats=DataFormat.QUATS_RAW,
-        )
-
-        data = GSData(
-            means=data,
-            scales=scales,
-            quats=quats,
-            opacities=opacities,
-            sh0=sh0,
-            shN=shN if shN is not None else np.empty((data.shape[0], 0, 3), dtype=np.float32),
-            _base=None,  # No _base for manually created data
-            _format=format_dict,  # Auto-detected format (always provided)
-        )
+        # Create GSData without _base; units are detected from the values
+        data = _gsdata_from_arrays(data, scales, quats, opacities, sh0, shN)
 
     # Note: Auto-consolidate was removed for better performance
     # The standard path already uses optimized JIT interleaving kernels,
@@ -1591,8 +1599,7 @@ def plywrite(
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
-        # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=False)
+        # write_uncompressed ensures PLY format (log-scales, logit-opacities) before writing
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From fc4cfb1b739147d4729f98b9125e941962cf849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 07/48] fix: an empty scene with a base array keeps its SH
 degree when saved

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 14d8c4a..89a1ff2 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1205,7 +1205,7 @@ def write_uncompressed(
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
         num_sh_rest = (
-            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.size > 0) else None
+            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-- 
2.43.0


From dbd2857b05972e59f6ebc3b66adb3be3966457f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 08/48] fix: not-in-place colour conversions and mask layers
 share no state with their source

---
 src/gsply/gsdata.py | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 227f30b..a65a381 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -666,7 +666,7 @@ class GSData:
             >>> data.add_mask_layer("foreground", data.means[:, 2] < 0)
             >>> print(data.mask_names)  # ['high_opacity', 'foreground']
         """
-        mask = np.asarray(mask, dtype=bool)
+        mask = np.array(mask, dtype=bool)  # own copy: the caller may reuse its array
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
@@ -685,7 +685,8 @@ class GSData:
             self.masks = np.column_stack([self.masks, mask])
             if self.mask_names is None:
                 self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            # New list: the current one may be shared with the caller or another scene
+            self.mask_names = [*self.mask_names, name]
 
     def get_mask_layer(self, name: str) -> np.ndarray:
         """Get a mask layer by name.
@@ -1591,18 +1592,10 @@ class GSData:
 
         # Create copy for non-inplace operation
         rgb = self.sh0 * SH_C0 + 0.5
-        return GSData(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=rgb,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_RGB},
-        )
+        result = self.copy()
+        result.sh0 = rgb
+        result._format["sh0"] = DataFormat.SH0_RGB
+        return result
 
     def to_sh(self, inplace: bool = True) -> "GSData":
         """Convert sh0 from RGB color format to spherical harmonics (SH) format.
@@ -1637,18 +1630,10 @@ class GSData:
 
         # Create copy for non-inplace operation
         sh = (self.sh0 - 0.5) / SH_C0
-        return GSData(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=sh,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_SH},
-        )
+        result = self.copy()
+        result.sh0 = sh
+        result._format["sh0"] = DataFormat.SH0_SH
+        return result
 
     def copy_slice(self, key) -> "GSData":
         """Efficiently slice and copy in one operation.
-- 
2.43.0


From 3e3b3ba56641d17602eee0ca998e9730451e99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 09/48] fix: with_format returns an independent copy as
 documented

---
 src/gsply/gsdata.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a65a381..7fa3b7b 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -641,18 +641,9 @@ class GSData:
             else:
                 raise ValueError(f"Unknown format key: {key}")
 
-        return GSData(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=self._base,
-            _format=new_format,
-        )
+        result = self.copy()
+        result._format = new_format
+        return result
 
     def add_mask_layer(self, name: str, mask: np.ndarray) -> None:
         """Add a named boolean mask layer.
-- 
2.43.0


From 7217c836e11e3d1292f2be6586e31c480343de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 10/48] fix: make_contiguous(inplace=False) never returns
 arrays of the source

---
 src/gsply/gsdata.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 7fa3b7b..59b3eab 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1307,6 +1307,9 @@ class GSData:
         See Also:
             is_contiguous: Check if arrays are already contiguous
         """
+        if not inplace:
+            return self.copy().make_contiguous(inplace=True)
+
         # Check if already contiguous
         if self._base is None:
             # No _base means separate arrays, likely already contiguous
@@ -1327,30 +1330,16 @@ class GSData:
         shN = np.ascontiguousarray(self.shN) if self.shN is not None else None  # noqa: N806
         masks = np.ascontiguousarray(self.masks) if self.masks is not None else None
 
-        if inplace:
-            # Modify in-place
-            self.means = means
-            self.scales = scales
-            self.quats = quats
-            self.opacities = opacities
-            self.sh0 = sh0
-            self.shN = shN
-            self.masks = masks
-            self._base = None  # Clear _base reference
-            return self
-        # Return new object
-        return GSData(
-            means=means,
-            scales=scales,
-            quats=quats,
-            opacities=opacities,
-            sh0=sh0,
-            shN=shN,
-            masks=masks,
-            mask_names=self.mask_names.copy() if self.mask_names else None,
-            _base=None,
-            _format=self._format,  # Preserve format flag
-        )
+        # Modify in-place
+        self.means = means
+        self.scales = scales
+        self.quats = quats
+        self.opacities = opacities
+        self.sh0 = sh0
+        self.shN = shN
+        self.masks = masks
+        self._base = None  # Clear _base reference
+        return self
 
     def is_contiguous(self) -> bool:
         """Check if all arrays are C-contiguous.
-- 
2.43.0


From 93aacc43ff50433458132e2a2fe1e61668bb31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 11/48] fix: indexing a scene with a list of booleans selects
 by mask

---
 src/gsply/gsdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 59b3eab..c2c2768 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1896,6 +1896,10 @@ class GSData:
                 _format=self._format,  # Preserve format flag
             )
 
+        # A list of booleans is a mask, not a list of indices 0 and 1
+        if isinstance(key, list) and key and np.asarray(key).dtype == bool:
+            key = np.asarray(key)
+
         # Handle boolean array masking
         if isinstance(key, np.ndarray) and key.dtype == bool:
             if len(key) != len(self):
-- 
2.43.0


From 76faf6750717f0ec751358532937caffdc627aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 12/48] fix: saving validates the shape of shN

---
 src/gsply/writer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 89a1ff2..4215291 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -984,6 +984,11 @@ def _validate_and_normalize_inputs(
 
     # Step 4: Flatten shN if needed (from (N, K, 3) to (N, K*3))
     shn = _flatten_shn(shn, validate)
+    if validate and shn is not None:
+        assert shn.ndim == 2 and shn.shape[0] == num_gaussians and shn.shape[1] % 3 == 0, (
+            f"shN array has incorrect shape: {shn.shape} (flattened), "
+            f"expected ({num_gaussians}, K*3)."
+        )
 
     return means, scales, quats, opacities, sh0, shn
 
@@ -1231,6 +1236,12 @@ def write_uncompressed(
 
     num_gaussians = means.shape[0]
 
+    if validate and shn is not None and shn.shape[1] not in (0, *_F_REST_PROPERTIES):
+        raise ValueError(
+            f"shN has {shn.shape[1] // 3} bands, which is no SH degree: "
+            f"the uncompressed format stores 0, 3, 8 or 15 bands (SH degree 0-3)."
+        )
+
     # Build header using pre-computed templates (3-5% faster)
     num_sh_rest = shn.shape[1] if shn is not None else None
     header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
-- 
2.43.0


From c15ecc5d865da9c0ffd0154327b1412f73005978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 13/48] fix: format detection terminates on a file that ends
 inside the header

---
 src/gsply/formats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3f987b0..03b4e3a 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -180,6 +180,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         while True:
             line = f.readline()
+            if not line:
+                raise ValueError("Invalid PLY: no end_header found")
             header_size += len(line)
             line_str = line.decode("ascii").strip()
 
-- 
2.43.0


From 2b88331e7b2ea6621e584c512eaf8ef87703f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 14/48] fix: the PLY header ends at the end_header line,
 whatever comments precede it

---
 src/gsply/formats.py           | 11 +++++++++++
 src/gsply/reader.py            | 23 +++++++++++------------
 src/gsply/torch/compression.py | 10 +++++-----
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 03b4e3a..a26d41b 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -160,6 +160,17 @@ QUAT_NORM = 1.4142135623730951  # 1.0 / (sqrt(2) * 0.5) = sqrt(2)
 SH_DEGREE_TO_COEFFS = {0: 0, 1: 3, 2: 8, 3: 15}
 
 
+def _find_header_end(data: bytes) -> int:
+    """Find the end of a PLY header (a comment line may contain the word end_header too).
+
+    :param data: Bytes starting with a PLY header
+    :returns: Offset just after the end_header line, or -1 if there is none
+    """
+    marker = b"\nend_header\n"
+    idx = data.find(marker)
+    return -1 if idx == -1 else idx + len(marker)
+
+
 def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
     """Parse PLY header to extract element definitions.
 
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 97e5422..5380395 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -50,6 +50,7 @@ from gsply.formats import (
     QUAT_NORM,
     SH_BANDS_TO_DEGREE,
     SH_C0,
+    _find_header_end,
     detect_format,
     get_sh_degree_from_property_count,
 )
@@ -94,7 +95,6 @@ _INV_SH_C0 = 1.0 / SH_C0  # = 3.544907701811032
 
 # Header reading constants
 _HEADER_READ_CHUNK_SIZE = 8192  # bytes - typical header is 300-2000 bytes
-_MAX_HEADER_LINES = 200  # sanity limit to prevent infinite loops on malformed files
 
 # ======================================================================================
 # PRE-COMPUTED SLICE INDICES (Optimization to eliminate branching)
@@ -161,24 +161,24 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
         chunk = f.read(_HEADER_READ_CHUNK_SIZE)
 
         # Find end_header marker
-        end_marker = b"end_header\n"
-        end_idx = chunk.find(end_marker)
+        header_end = _find_header_end(chunk)
 
-        if end_idx == -1:
+        if header_end == -1:
             # Header larger than chunk size - use line-by-line fallback
             f.seek(0)
             header_lines = []
             while True:
-                line = f.readline().decode("ascii").strip()
+                raw_line = f.readline()
+                if not raw_line:
+                    return None
+                line = raw_line.decode("ascii").strip()
                 header_lines.append(line)
                 if line == "end_header":
                     break
-                if len(header_lines) > _MAX_HEADER_LINES:
-                    return None
             return header_lines, f.tell()
 
         # Fast path: decode entire header at once
-        header_bytes = chunk[: end_idx + len(end_marker)]
+        header_bytes = chunk[:header_end]
         header_text = header_bytes.decode("ascii")
         header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
         data_offset = len(header_bytes)
@@ -744,14 +744,13 @@ def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, d
     :raises ValueError: If header is invalid or not compressed format
     """
     # Fast path: Find end_header with byte search (like _read_header_fast)
-    end_marker = b"end_header\n"
-    end_idx = compressed_bytes.find(end_marker)
+    header_end = _find_header_end(compressed_bytes)
 
-    if end_idx == -1:
+    if header_end == -1:
         raise ValueError("Invalid PLY: no end_header found")
 
     # Decode entire header at once (like _read_header_fast)
-    header_bytes = compressed_bytes[: end_idx + len(end_marker)]
+    header_bytes = compressed_bytes[:header_end]
     header_text = header_bytes.decode("ascii")
     header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
     data_offset = len(header_bytes)
diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 64d3f71..e9a998b 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -759,6 +759,7 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
     :param device: Target GPU device (default "cuda")
     :returns: GSTensor with decompressed data on GPU
     """
+    from gsply.formats import _find_header_end
     from gsply.gsdata import DataFormat, _create_format_dict, _get_sh_order_format
     from gsply.reader import _parse_header_from_bytes
     from gsply.torch.gstensor import GSTensor
@@ -774,16 +775,15 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
             if not chunk:
                 break
             header_bytes += chunk
-            if b"end_header\n" in header_bytes:
+            if _find_header_end(header_bytes) != -1:
                 break
 
         # Find header end
-        end_idx = header_bytes.find(b"end_header\n")
-        if end_idx == -1:
+        data_offset = _find_header_end(header_bytes)
+        if data_offset == -1:
             raise ValueError("Invalid PLY: no end_header found")
 
-        header_bytes = header_bytes[: end_idx + len(b"end_header\n")]
-        data_offset = len(header_bytes)
+        header_bytes = header_bytes[:data_offset]
 
         # Parse header
         header_lines, _, elements = _parse_header_from_bytes(header_bytes)
-- 
2.43.0


From 0933403a7a97fdeeb6762fc10adcbe6a81387b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:38 +0000
Subject: [PATCH 15/48] fix: readers and format detection accept only the exact
 layouts they decode

---
 src/gsply/formats.py |  95 +++++++++++++++++++++++++++------------
 src/gsply/reader.py  | 103 ++++++++-----------------------------------
 2 files changed, 86 insertions(+), 112 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index a26d41b..fb0ed78 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -171,6 +171,54 @@ def _find_header_end(data: bytes) -> int:
     return -1 if idx == -1 else idx + len(marker)
 
 
+def _parse_header_elements(header_lines: list[str]) -> dict[str, dict[str, Any]]:
+    """Parse the element definitions of a binary little-endian PLY header.
+
+    :param header_lines: Stripped header lines, from "ply" to "end_header"
+    :returns: Dictionary mapping element names (in file order) to their counts and properties
+    :raises ValueError: If the header is malformed or declares another encoding
+    """
+    if not header_lines or header_lines[0] != "ply":
+        raise ValueError("Not a valid PLY file")
+
+    elements: dict[str, dict[str, Any]] = {}
+    properties = None
+    encoding = None
+
+    for line in header_lines[1:]:
+        parts = line.split()
+        if not parts or parts[0] == "comment":
+            continue
+        if parts[0] == "format":
+            if encoding is not None or parts[1:2] != ["binary_little_endian"]:
+                raise ValueError(f"Unsupported PLY encoding: {line}")
+            encoding = parts[1]
+        elif parts[0] == "element":
+            if len(parts) != 3 or not parts[2].isdigit() or parts[1] in elements:
+                raise ValueError(f"Invalid PLY element: {line}")
+            properties = []
+            elements[parts[1]] = {"count": int(parts[2]), "properties": properties}
+        elif parts[0] == "property":
+            if properties is None or len(parts) < 3:
+                raise ValueError(f"Invalid PLY property: {line}")
+            properties.append((parts[1], " ".join(parts[2:])))
+
+    if encoding is None:
+        raise ValueError("Invalid PLY: no format declared")
+    return elements
+
+
+def _is_standard_vertex_layout(elements: dict[str, dict[str, Any]], sh_degree: int) -> bool:
+    """Check that the data starts with vertices of exactly the standard float properties.
+
+    :param elements: Parsed PLY header elements
+    :param sh_degree: SH degree (0-3)
+    :returns: True if the vertex element has the standard layout for this SH degree
+    """
+    expected = [("float", name) for name in EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]]
+    return next(iter(elements)) == "vertex" and elements["vertex"]["properties"] == expected
+
+
 def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
     """Parse PLY header to extract element definitions.
 
@@ -178,8 +226,7 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
     :returns: Tuple of (elements_dict, header_size_bytes)
     :raises ValueError: If PLY format is invalid
     """
-    elements = {}
-    current_element = None
+    header_lines = []
     header_size = 0
 
     with open(file_path, "rb") as f:
@@ -188,6 +235,7 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         if line.strip() != b"ply":
             raise ValueError("Not a valid PLY file")
+        header_lines.append("ply")
 
         while True:
             line = f.readline()
@@ -198,23 +246,9 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
             if line_str == "end_header":
                 break
+            header_lines.append(line_str)
 
-            parts = line_str.split()
-            if not parts:
-                continue
-
-            if parts[0] == "element":
-                element_name = parts[1]
-                element_count = int(parts[2])
-                elements[element_name] = {"count": element_count, "properties": []}
-                current_element = element_name
-
-            elif parts[0] == "property" and current_element:
-                prop_type = parts[1]
-                prop_name = parts[2]
-                elements[current_element]["properties"].append((prop_type, prop_name))
-
-    return elements, header_size
+    return _parse_header_elements(header_lines), header_size
 
 
 def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
@@ -256,10 +290,8 @@ def detect_format(file_path: str | Path) -> tuple[bool, int | None]:
     # Try to match against known SH degrees
     for sh_degree, expected_count in PROPERTY_COUNTS_BY_SH_DEGREE.items():
         if property_count == expected_count:
-            # Verify property names match
-            prop_names = [prop[1] for prop in vertex_props]
-            expected_names = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if prop_names == expected_names:
+            # Verify property types, names and order match
+            if _is_standard_vertex_layout(elements, sh_degree):
                 return False, sh_degree
 
     # Unknown format
@@ -303,9 +335,8 @@ def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
     :param elements: Parsed PLY header elements
     :returns: True if compressed format detected
     """
-    # Must have chunk and vertex elements
-    required_elements = {"chunk", "vertex"}
-    if not required_elements.issubset(elements):
+    # Must have chunk and vertex elements, then optionally SH, stored in this order
+    if list(elements) not in (["chunk", "vertex"], ["chunk", "vertex", "sh"]):
         return False
 
     chunk_elem = elements["chunk"]
@@ -327,7 +358,7 @@ def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
 
     # Check vertex element (4 uint properties)
     vertex_props = vertex_elem["properties"]
-    if len(vertex_props) < COMPRESSED_VERTEX_PROPERTIES:
+    if len(vertex_props) != COMPRESSED_VERTEX_PROPERTIES:
         return False
 
     # Verify vertex property types and names match expected format
@@ -343,8 +374,18 @@ def _is_compressed_format(elements: dict[str, dict[str, Any]]) -> bool:
     num_chunks = chunk_elem["count"]
     num_vertices = vertex_elem["count"]
     expected_chunks = (num_vertices + CHUNK_SIZE - 1) // CHUNK_SIZE
+    if num_chunks != expected_chunks:
+        return False
 
-    return num_chunks == expected_chunks
+    # Check SH element (one row of bytes per splat, three colour channels)
+    if "sh" not in elements:
+        return True
+    sh_props = elements["sh"]["properties"]
+    return (
+        elements["sh"]["count"] == num_vertices
+        and len(sh_props) % 3 == 0
+        and sh_props == [("uchar", f"f_rest_{i}") for i in range(len(sh_props))]
+    )
 
 
 def get_sh_degree_from_property_count(property_count: int) -> int | None:
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 5380395..a932f85 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -32,7 +32,6 @@ from gsply.formats import (
     COLOR_G_SHIFT,
     COLOR_O_SHIFT,
     COLOR_R_SHIFT,
-    EXPECTED_PROPERTIES_BY_SH_DEGREE,
     INV_255,
     INV_1023,
     INV_2047,
@@ -51,6 +50,9 @@ from gsply.formats import (
     SH_BANDS_TO_DEGREE,
     SH_C0,
     _find_header_end,
+    _is_compressed_format,
+    _is_standard_vertex_layout,
+    _parse_header_elements,
     detect_format,
     get_sh_degree_from_property_count,
 )
@@ -448,35 +450,21 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
                 return None
             header_lines, data_offset = header_result
 
-            # Parse header
-            vertex_count = None
-            is_binary_le = False
-            property_names = []
-
-            for line in header_lines:
-                if line.startswith("format "):
-                    format_type = line.split()[1]
-                    is_binary_le = format_type == "binary_little_endian"
-                elif line.startswith("element vertex "):
-                    vertex_count = int(line.split()[2])
-                elif line.startswith("property float "):
-                    prop_name = line.split()[2]
-                    property_names.append(prop_name)
-
-            # Validate format
-            if not is_binary_le or vertex_count is None:
+            # Parse header (raises ValueError if it is not binary little-endian)
+            elements = _parse_header_elements(header_lines)
+            if "vertex" not in elements:
                 return None
+            vertex_count = elements["vertex"]["count"]
 
             # Detect SH degree from property count
-            property_count = len(property_names)
+            property_count = len(elements["vertex"]["properties"])
             sh_degree = get_sh_degree_from_property_count(property_count)
 
             if sh_degree is None:
                 return None
 
-            # Validate property names and order
-            expected_properties = EXPECTED_PROPERTIES_BY_SH_DEGREE[sh_degree]
-            if property_names != expected_properties:
+            # Validate property types, names and order
+            if not _is_standard_vertex_layout(elements, sh_degree):
                 return None
 
             # Seek to data position and read binary data
@@ -547,61 +535,6 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
 # ======================================================================================
 
 
-def _parse_elements_from_header(header_lines: list[str]) -> dict:
-    """Parse element information from PLY header lines.
-
-    :param header_lines: List of header lines from PLY file
-    :returns: Dictionary mapping element names to their properties and counts
-    """
-    elements = {}
-    current_element = None
-
-    for line in header_lines:
-        if line.startswith("element "):
-            parts = line.split()
-            name = parts[1]
-            count = int(parts[2])
-            elements[name] = {"count": count, "properties": []}
-            current_element = name
-        elif line.startswith("property ") and current_element:
-            parts = line.split()
-            prop_type = parts[1]
-            prop_name = parts[2]
-            elements[current_element]["properties"].append((prop_type, prop_name))
-
-    return elements
-
-
-def _is_compressed_format(header_lines: list) -> bool:
-    """Check if PLY header indicates compressed format."""
-    # Reuse element parsing logic
-    elements = _parse_elements_from_header(header_lines)
-
-    # Compressed format has "chunk" and "vertex" elements with specific properties
-    if "chunk" not in elements or "vertex" not in elements:
-        return False
-
-    chunk_props = elements["chunk"]["properties"]
-    if len(chunk_props) != 18:
-        return False
-
-    vertex_props = elements["vertex"]["properties"]
-    if len(vertex_props) != 4:
-        return False
-
-    expected_vertex = [
-        "packed_position",
-        "packed_rotation",
-        "packed_scale",
-        "packed_color",
-    ]
-    for (_, prop_name), expected_name in zip(vertex_props, expected_vertex, strict=False):
-        if prop_name != expected_name:
-            return False
-
-    return True
-
-
 def _decompress_data_internal(
     chunk_data: np.ndarray,
     vertex_data: np.ndarray,
@@ -755,13 +688,13 @@ def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, d
     header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
     data_offset = len(header_bytes)
 
+    # Parse element info using shared helper
+    elements = _parse_header_elements(header_lines)
+
     # Check if compressed format
-    if not _is_compressed_format(header_lines):
+    if not _is_compressed_format(elements):
         raise ValueError("Bytes do not contain compressed PLY format")
 
-    # Parse element info using shared helper
-    elements = _parse_elements_from_header(header_lines)
-
     return header_lines, data_offset, elements
 
 
@@ -797,13 +730,13 @@ def read_compressed(file_path: str | Path) -> GSData | None:
                 return None
             header_lines, data_offset = result
 
+            # Parse element info using shared helper
+            elements = _parse_header_elements(header_lines)
+
             # Check if compressed format
-            if not _is_compressed_format(header_lines):
+            if not _is_compressed_format(elements):
                 return None
 
-            # Parse element info using shared helper
-            elements = _parse_elements_from_header(header_lines)
-
             # Seek to data and read binary from same file handle
             f.seek(data_offset)
 
-- 
2.43.0


From 0b26a5b839ceaed788faca9ccd964adc6ff2d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 16/48] fix: a save that the storage cuts short raises instead
 of returning normally

---
 src/gsply/torch/compression.py |  7 ++++---
 src/gsply/writer.py            | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index e9a998b..29ef50f 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -915,12 +915,13 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     header_bytes = header.encode("ascii")
 
     # Write to file
+    # Not ndarray.tofile: it loses a failure to store the last buffered bytes
     with open(file_path, "wb") as f:
         f.write(header_bytes)
-        chunk_bounds.tofile(f)
-        packed_vertex.tofile(f)
+        f.write(np.ascontiguousarray(chunk_bounds))
+        f.write(np.ascontiguousarray(packed_vertex))
         if packed_sh is not None:
-            packed_sh.tofile(f)
+            f.write(np.ascontiguousarray(packed_sh))
 
     logger.info(
         f"[GPU Write] Saved {num_gaussians:,} Gaussians to {file_path.name} "
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 4215291..d064128 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1219,7 +1219,7 @@ def write_uncompressed(
         )
         with open(file_path, "wb", buffering=buffer_size) as f:
             f.write(header_bytes)
-            data._base.tofile(f)
+            f.write(np.ascontiguousarray(data._base))
 
         logger.debug(
             f"[Gaussian PLY] Wrote uncompressed (zero-copy): {num_gaussians} Gaussians to {file_path.name}"
@@ -1270,7 +1270,7 @@ def write_uncompressed(
     )
     with open(file_path, "wb", buffering=buffer_size) as f:
         f.write(header_bytes)
-        output_array.tofile(f)
+        f.write(output_array)
 
     logger.debug(
         f"[Gaussian PLY] Wrote uncompressed: {num_gaussians} Gaussians to {file_path.name}"
@@ -1338,12 +1338,13 @@ def write_compressed(
     )
 
     # Write to file
+    # Not ndarray.tofile: it loses a failure to store the last buffered bytes
     with open(file_path, "wb") as f:
         f.write(header_bytes)
-        chunk_bounds.tofile(f)
-        packed_data.tofile(f)
+        f.write(np.ascontiguousarray(chunk_bounds))
+        f.write(np.ascontiguousarray(packed_data))
         if packed_sh is not None:
-            packed_sh.tofile(f)
+            f.write(np.ascontiguousarray(packed_sh))
 
     logger.debug(
         f"[Gaussian PLY] Wrote compressed: {num_gaussians} Gaussians to {file_path.name} "
-- 
2.43.0


From ca22ffcd556eaceb9783ff80286053768bc96203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 17/48] fix: the zero-copy uncompressed writer always stores
 float32

---
 src/gsply/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index d064128..aa82ca7 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1219,7 +1219,8 @@ def write_uncompressed(
         )
         with open(file_path, "wb", buffering=buffer_size) as f:
             f.write(header_bytes)
-            f.write(np.ascontiguousarray(data._base))
+            # The base of a half or double precision tensor is not float32
+            f.write(np.ascontiguousarray(data._base, dtype=np.float32))
 
         logger.debug(
             f"[Gaussian PLY] Wrote uncompressed (zero-copy): {num_gaussians} Gaussians to {file_path.name}"
-- 
2.43.0


From b0008f0fac0a2938e82e3994e5ec7b10956073a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 18/48] fix: mask layers stay unique next to default names and
 GSTensor layers share no state

---
 src/gsply/gsdata.py         | 12 ++++++++----
 src/gsply/torch/gstensor.py | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index c2c2768..95de68d 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -661,8 +661,14 @@ class GSData:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
+        # Existing layers without names get default ones
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            num_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            names = [f"layer_{i}" for i in range(num_layers)]
+
         # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
@@ -674,10 +680,8 @@ class GSData:
             if self.masks.ndim == 1:
                 self.masks = self.masks[:, None]
             self.masks = np.column_stack([self.masks, mask])
-            if self.mask_names is None:
-                self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
             # New list: the current one may be shared with the caller or another scene
-            self.mask_names = [*self.mask_names, name]
+            self.mask_names = [*names, name]
 
     def get_mask_layer(self, name: str) -> np.ndarray:
         """Get a mask layer by name.
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 94cb4c3..e4ff33e 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1754,22 +1754,27 @@ class GSTensor:
         if mask.shape != (len(self),):
             raise ValueError(f"Mask shape {mask.shape} doesn't match data length ({len(self)},)")
 
+        # Existing layers without names get default ones
+        names = self.mask_names
+        if names is None and self.masks is not None:
+            num_layers = 1 if self.masks.ndim == 1 else self.masks.shape[1]
+            names = [f"layer_{i}" for i in range(num_layers)]
+
         # Check for duplicate names
-        if self.mask_names is not None and name in self.mask_names:
+        if names is not None and name in names:
             raise ValueError(f"Mask layer '{name}' already exists")
 
         # Initialize or append to masks
         if self.masks is None:
-            self.masks = mask.unsqueeze(-1)  # Shape (N, 1)
+            self.masks = mask.clone().unsqueeze(-1)  # Shape (N, 1), not the caller's tensor
             self.mask_names = [name]
         else:
             # Ensure masks is 2D
             if self.masks.ndim == 1:
                 self.masks = self.masks.unsqueeze(-1)
             self.masks = torch.cat([self.masks, mask.unsqueeze(-1)], dim=1)
-            if self.mask_names is None:
-                self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            # New list: the current one may be shared with another scene
+            self.mask_names = [*names, name]
 
     def get_mask_layer(self, name: str) -> torch.Tensor:
         """Get a mask layer by name.
-- 
2.43.0


From 8975513da1361f49aadf2a14be3d75b19cf6e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 19/48] fix: GSTensor.consolidate stores higher-order SH
 channel-grouped

---
 src/gsply/torch/gstensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index e4ff33e..49befc8 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -885,7 +885,8 @@ class GSTensor:
         # Handle shN if present
         if self.shN is not None and self.shN.shape[1] > 0:
             sh_coeffs = self.shN.shape[1]
-            shN_flat = self.shN.reshape(n_gaussians, sh_coeffs * 3)
+            # Channel-grouped order [R0..Rk, G0..Gk, B0..Bk], as _recreate_from_base expects
+            shN_flat = self.shN.transpose(1, 2).reshape(n_gaussians, sh_coeffs * 3)
             new_base[:, 6 : 6 + sh_coeffs * 3] = shN_flat
             opacity_idx = 6 + sh_coeffs * 3
         else:
-- 
2.43.0


From 96bfe13e1e2e02a4cfbcd56f2f177a1d32edaf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 20/48] fix: GSTensor edits of shN and replaced attributes are
 never lost to a stale base tensor

---
 src/gsply/torch/gstensor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 49befc8..35ea338 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -13,6 +13,7 @@ from gsply.formats import SH_BANDS_TO_DEGREE, SH_C0
 # Import DataFormat, FormatDict, GSData, and helpers from gsdata
 # No circular dependency - gsdata.py doesn't import GSTensor
 from gsply.gsdata import (
+    _BASE_BACKED_FIELDS,
     DataFormat,
     FormatDict,
     GSData,
@@ -83,6 +84,16 @@ class GSTensor:
     mask_names: list[str] | None = None
     _base: torch.Tensor | None = None
 
+    def __setattr__(self, name: str, value) -> None:
+        # _base mirrors the attribute tensors: replacing one of them makes it stale
+        if (
+            name in _BASE_BACKED_FIELDS
+            and self.__dict__.get("_base") is not None
+            and value is not self.__dict__.get(name)
+        ):
+            object.__setattr__(self, "_base", None)
+        object.__setattr__(self, name, value)
+
     def __post_init__(self):
         """Auto-detect format if not provided."""
         # Copy format dict to avoid sharing mutable state between instances
@@ -947,8 +958,8 @@ class GSTensor:
             shN_flat = base_tensor[:, 6 : 6 + sh_coeffs * 3]
             # PLY stores SH coefficients channel-grouped: [R0..Rk, G0..Gk, B0..Bk]
             # Reshape to [N, 3, K] then transpose to [N, K, 3] for gsplat convention
-            # contiguous() is required for correct memory layout after transpose
-            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2).contiguous()
+            # Stays a view like the other attributes, so that in-place edits reach the base
+            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2)
             opacity_idx = 6 + sh_coeffs * 3
         else:
             shN = None
-- 
2.43.0


From c8cb556c30f5104e0c77329ae3a583867fc8f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 21/48] fix: GSTensor unit conversions touch only unconverted
 attributes and their copies are independent

---
 src/gsply/torch/gstensor.py | 129 ++++++++++--------------------------
 1 file changed, 35 insertions(+), 94 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 35ea338..1f6fb51 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -503,42 +503,13 @@ class GSTensor:
         Returns a new GSTensor with log-scales and logit-opacities.
         Useful for GPU-accelerated writing.
         """
-        # Constants for numerical stability
-        _MIN_SCALE = 1e-9
-        _MIN_OPACITY = 1e-4
-        _MAX_OPACITY = 1.0 - 1e-4
-
-        # Clone to avoid modifying original
-        scales = torch.log(torch.clamp(self.scales, min=_MIN_SCALE))
-
-        # Logit opacities: log(p / (1 - p))
-        opacities = torch.logit(torch.clamp(self.opacities, min=_MIN_OPACITY, max=_MAX_OPACITY))
-
-        # Preserve format and update to PLY format
-        format_flag = self._format.copy()
-        format_flag["scales"] = DataFormat.SCALES_PLY
-        format_flag["opacities"] = DataFormat.OPACITIES_PLY
-        if "sh_order" not in format_flag:
-            format_flag["sh_order"] = _get_sh_order_format(self.get_sh_degree())
-        if "sh0" not in format_flag:
-            format_flag["sh0"] = DataFormat.SH0_SH
-        if "means" not in format_flag:
-            format_flag["means"] = DataFormat.MEANS_RAW
-        if "quats" not in format_flag:
-            format_flag["quats"] = DataFormat.QUATS_RAW
+        result = self.normalize(inplace=False)
 
-        return GSTensor(
-            means=self.means,
-            scales=scales,
-            quats=self.quats,
-            opacities=opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format=format_flag,  # Set to PLY format
-        )
+        # Complete the format dict
+        result._format.setdefault("sh0", DataFormat.SH0_SH)
+        result._format.setdefault("means", DataFormat.MEANS_RAW)
+        result._format.setdefault("quats", DataFormat.QUATS_RAW)
+        return result
 
     def to_ply_data(self) -> GSData:
         """Convert to GSData with PLY-compatible log/logit scaling.
@@ -580,41 +551,26 @@ class GSTensor:
         min_opacity = 1e-4
         max_opacity = 1.0 - 1e-4
 
+        # Only attributes that are not in PLY format yet are converted
+        result = self if inplace else self.clone()
+
         # Convert linear scales to log-scales: log(scale)
-        scales = torch.log(torch.clamp(self.scales, min=min_scale))
+        if not self.is_scales_ply:
+            result.scales = torch.log(torch.clamp(self.scales, min=min_scale))
 
         # Convert linear opacities to logit-opacities: logit(opacity)
         # Use eps=min_opacity to match GSData behavior (1e-4)
-        opacities = torch.logit(
-            torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
-        )
+        if not self.is_opacities_ply:
+            result.opacities = torch.logit(
+                torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
+            )
 
-        if inplace:
-            self.scales = scales
-            self.opacities = opacities
-            self._base = None  # Invalidate _base since we modified tensors
-            # Update format dict: scales and opacities are now in PLY format
-            self._format["scales"] = DataFormat.SCALES_PLY
-            self._format["opacities"] = DataFormat.OPACITIES_PLY
-            return self
-
-        return GSTensor(
-            means=self.means,
-            scales=scales,
-            quats=self.quats,
-            opacities=opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={
-                **self._format,
-                "scales": DataFormat.SCALES_PLY,
-                "opacities": DataFormat.OPACITIES_PLY,
-                "sh_order": _get_sh_order_format(self.get_sh_degree()),
-            },
-        )
+        # Update format dict: scales and opacities are now in PLY format
+        result._format["scales"] = DataFormat.SCALES_PLY
+        result._format["opacities"] = DataFormat.OPACITIES_PLY
+        if not inplace:
+            result._format["sh_order"] = _get_sh_order_format(result.get_sh_degree())
+        return result
 
     def denormalize(self, inplace: bool = True) -> GSTensor:
         """Convert PLY format (log-scales, logit-opacities) to linear format.
@@ -640,38 +596,23 @@ class GSTensor:
             >>> # Or create a copy if you need to keep PLY format
             >>> linear_tensor = gstensor.denormalize(inplace=False)
         """
+        # Only attributes that are not in linear format yet are converted
+        result = self if inplace else self.clone()
+
         # Convert log-scales back to linear: exp(log_scale)
-        scales = torch.exp(self.scales)
+        if not self.is_scales_linear:
+            result.scales = torch.exp(self.scales)
 
         # Convert logit-opacities back to linear: sigmoid(logit)
-        opacities = torch.sigmoid(self.opacities)
-
-        if inplace:
-            self.scales = scales
-            self.opacities = opacities
-            self._base = None  # Invalidate _base since we modified tensors
-            # Update format dict: scales and opacities are now in linear format
-            self._format["scales"] = DataFormat.SCALES_LINEAR
-            self._format["opacities"] = DataFormat.OPACITIES_LINEAR
-            return self
-
-        return GSTensor(
-            means=self.means,
-            scales=scales,
-            quats=self.quats,
-            opacities=opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={
-                **self._format,
-                "scales": DataFormat.SCALES_LINEAR,
-                "opacities": DataFormat.OPACITIES_LINEAR,
-                "sh_order": _get_sh_order_format(self.get_sh_degree()),
-            },
-        )
+        if not self.is_opacities_linear:
+            result.opacities = torch.sigmoid(self.opacities)
+
+        # Update format dict: scales and opacities are now in linear format
+        result._format["scales"] = DataFormat.SCALES_LINEAR
+        result._format["opacities"] = DataFormat.OPACITIES_LINEAR
+        if not inplace:
+            result._format["sh_order"] = _get_sh_order_format(result.get_sh_degree())
+        return result
 
     def to_rgb(self, inplace: bool = True) -> GSTensor:
         """Convert sh0 from spherical harmonics (SH) format to RGB color format.
-- 
2.43.0


From d49d552d489e8aa5ba947ebd36392c01b589fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 22/48] fix: GSTensor not-in-place colour conversions and
 with_format return independent copies

---
 src/gsply/torch/gstensor.py | 47 +++++++++----------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 1f6fb51..d13a517 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -284,18 +284,9 @@ class GSTensor:
             else:
                 raise ValueError(f"Unknown format key: {key}")
 
-        return GSTensor(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=self.sh0,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=self._base,
-            _format=new_format,
-        )
+        result = self.clone()
+        result._format = new_format
+        return result
 
     # ==========================================================================
     # Conversion Methods (GSData <-> GSTensor)
@@ -644,18 +635,10 @@ class GSTensor:
 
         # Create copy for non-inplace operation
         rgb = self.sh0 * SH_C0 + 0.5
-        return GSTensor(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=rgb,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_RGB},
-        )
+        result = self.clone()
+        result.sh0 = rgb
+        result._format["sh0"] = DataFormat.SH0_RGB
+        return result
 
     def to_sh(self, inplace: bool = True) -> GSTensor:
         """Convert sh0 from RGB color format to spherical harmonics (SH) format.
@@ -687,18 +670,10 @@ class GSTensor:
 
         # Create copy for non-inplace operation
         sh = (self.sh0 - 0.5) / SH_C0
-        return GSTensor(
-            means=self.means,
-            scales=self.scales,
-            quats=self.quats,
-            opacities=self.opacities,
-            sh0=sh,
-            shN=self.shN,
-            masks=self.masks,
-            mask_names=self.mask_names,
-            _base=None,
-            _format={**self._format, "sh0": DataFormat.SH0_SH},
-        )
+        result = self.clone()
+        result.sh0 = sh
+        result._format["sh0"] = DataFormat.SH0_SH
+        return result
 
     # ==========================================================================
     # Device Management
-- 
2.43.0


From ea6372c1248e8997ac241d466843b424fca6f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 23/48] fix: GSTensor indexing with a list or array of booleans
 selects by mask

---
 src/gsply/torch/gstensor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index d13a517..49f4c58 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -990,9 +990,15 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
+        # Lists and arrays of booleans are masks, not lists of indices 0 and 1
+        if (isinstance(key, np.ndarray) and key.dtype == bool) or (
+            isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key)
+        ):
+            key = torch.as_tensor(key, dtype=torch.bool, device=self.device)
+
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
-            if len(key) != len(self):
+            if key.shape != (len(self),):
                 raise ValueError(
                     f"Boolean mask length {len(key)} doesn't match data length {len(self)}"
                 )
-- 
2.43.0


From 9afc11c65c4dc7437d5b3f6350a598b166e455f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 24/48] fix: the tensor codec saves an empty scene

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 29ef50f..3288d53 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -447,7 +447,7 @@ def _compute_chunk_bounds_gpu(
         data_padded = data
 
     # Reshape to (NumChunks, 256, D)
-    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, -1)
+    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, data.shape[1])
 
     # Create mask to exclude padded values in last chunk
     # For last chunk, mask out positions >= num_gaussians
@@ -627,7 +627,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     """
     # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
     # This gives channel-grouped order matching original 3DGS PLY format
-    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], -1)
+    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], shN.shape[1] * shN.shape[2])
 
     # Quantize: shN * 32 + 128, clamped to [0, 255]
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
-- 
2.43.0


From 47cd8ef31a46fe0780bc7815f5bd55b901b28a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 25/48] fix: the tensor reader decodes saturated opacities like
 the CPU reader

---
 src/gsply/torch/compression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 3288d53..b87b096 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -237,6 +237,9 @@ def _unpack_colors_and_opacities_gpu(
     # opacity = -log(1/x - 1)
     epsilon = 1e-7
     opacities = torch.logit(co, eps=epsilon)
+    # Saturated codes decode to the same finite values as in the CPU reader
+    opacities = torch.where(co <= 0.0, torch.full_like(co, -10.0), opacities)
+    opacities = torch.where(co >= 1.0, torch.full_like(co, 10.0), opacities)
 
     return sh0, opacities
 
-- 
2.43.0


From 7794c46e4a411acb2f88fbb74eab95d3e3d1010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 26/48] fix: saving a GSTensor in linear or RGB units converts
 it to PLY units

---
 src/gsply/torch/compression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index b87b096..3e14b74 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -858,6 +858,12 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     """
     file_path = Path(file_path)
 
+    # The file stores log-scales, logit-opacities and SH colours
+    if not (gstensor.is_scales_ply and gstensor.is_opacities_ply):
+        gstensor = gstensor.normalize(inplace=False)
+    if gstensor.is_sh0_rgb:
+        gstensor = gstensor.to_sh(inplace=False)
+
     # Compress on GPU
     chunk_bounds, packed_vertex, packed_sh = compress_gpu(
         gstensor.means,
-- 
2.43.0


From 132e68dca9aba17742a255b1b48b52bd797b119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 27/48] fix: compressing half, double or gradient-tracking
 tensors uses single precision

---
 src/gsply/torch/compression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 3e14b74..86558f2 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -739,7 +739,7 @@ def compress_gpu(
         packed_sh = packed_sh.cpu().numpy()
 
     # Transfer to CPU
-    chunk_bounds_np = chunk_bounds.cpu().numpy().astype(np.float32)
+    chunk_bounds_np = chunk_bounds.detach().cpu().numpy().astype(np.float32)
     packed_vertex_np = packed_vertex.cpu().numpy().astype(np.uint32)
 
     logger.debug(f"[GPU Compression] Compressed {num_gaussians:,} Gaussians ({num_chunks} chunks)")
@@ -863,6 +863,8 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
         gstensor = gstensor.normalize(inplace=False)
     if gstensor.is_sh0_rgb:
         gstensor = gstensor.to_sh(inplace=False)
+    # Bounds and codes are computed in single precision, also for half or double tensors
+    gstensor = gstensor.float()
 
     # Compress on GPU
     chunk_bounds, packed_vertex, packed_sh = compress_gpu(
-- 
2.43.0


From 556eb8acac12abf3fd93b770cd1ccf1fcca07398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 28/48] fix: looking up a compiled packing function survives a
 concurrent cache clear

---
 src/gsply/torch/compression.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 86558f2..1110037 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -88,16 +88,19 @@ def _get_compiled_fn(name: str, fn: object) -> object:
     if not _TORCH_COMPILE_AVAILABLE or _TORCH_COMPILE_DISABLED:
         return fn
 
-    if name not in _COMPILED_FUNCTIONS:
+    # Single lookup: another thread may clear the cache at any moment
+    compiled = _COMPILED_FUNCTIONS.get(name)
+    if compiled is None:
         try:
             # Use default mode (reduce-overhead has issues with int32 bit ops on Windows)
-            _COMPILED_FUNCTIONS[name] = torch.compile(fn, mode="default")
+            compiled = torch.compile(fn, mode="default")
             logger.debug("Compiled %s with torch.compile", name)
         except Exception as e:
             logger.debug("Failed to compile %s: %s, using original", name, e)
-            _COMPILED_FUNCTIONS[name] = fn
+            compiled = fn
+        _COMPILED_FUNCTIONS[name] = compiled
 
-    return _COMPILED_FUNCTIONS[name]
+    return compiled
 
 
 def _call_with_fallback(compiled_fn: object, original_fn: object, *args: object) -> object:
-- 
2.43.0


From 12372000dae9f4116ea2bf932962f348234e31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 29/48] fix: SOG archives whose metadata does not fit their
 textures are rejected

---
 src/gsply/sog_reader.py | 54 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 19c9e9b..e2b2484 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -409,6 +409,36 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _meta_array(attribute: dict, key: str, length: int) -> np.ndarray:
+    """Get a per-channel bounds array from the metadata, checking its length.
+
+    :param attribute: Metadata of one attribute
+    :param key: Field name ("mins" or "maxs")
+    :param length: Number of channels
+    :returns: (length,) float32 array
+    :raises ValueError: If the length differs (the kernels index it unchecked)
+    """
+    values = np.array(attribute[key], dtype=np.float32)
+    if values.shape != (length,):
+        raise ValueError(f"SOG metadata '{key}' must have {length} values, got {values.shape}")
+    return values
+
+
+def _meta_codebook(attribute: dict, codes_rgba: np.ndarray) -> np.ndarray:
+    """Get a codebook from the metadata, checking that it covers all codes.
+
+    :param attribute: Metadata of one attribute
+    :param codes_rgba: (N*4,) uint8 RGBA data whose RGB channels index the codebook
+    :returns: float32 codebook
+    :raises ValueError: If a code is out of range (the kernels index it unchecked)
+    """
+    codebook = np.array(attribute["codebook"], dtype=np.float32)
+    codes = codes_rgba.reshape(-1, 4)[:, :3]
+    if codebook.ndim != 1 or (codes.size > 0 and int(codes.max()) >= len(codebook)):
+        raise ValueError(f"SOG codebook of shape {codebook.shape} does not cover all codes")
+    return codebook
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -471,8 +501,8 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     count = meta["means"]["shape"][0] if is_v3 else meta["count"]
 
     # --- Means (same encoding in both formats: 16-bit split, log space) ---
-    means_mins = np.array(meta["means"]["mins"], dtype=np.float32)
-    means_maxs = np.array(meta["means"]["maxs"], dtype=np.float32)
+    means_mins = _meta_array(meta["means"], "mins", 3)
+    means_maxs = _meta_array(meta["means"], "maxs", 3)
     means_ranges = means_maxs - means_mins
     means_ranges = np.where(means_ranges == 0, np.ones_like(means_ranges), means_ranges)
 
@@ -517,12 +547,12 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     scales = np.empty((count, 3), dtype=np.float32)
     if is_v3:
         # v3: linear min/max dequantization
-        sc_mins = np.array(meta["scales"]["mins"], dtype=np.float32)
-        sc_maxs = np.array(meta["scales"]["maxs"], dtype=np.float32)
+        sc_mins = _meta_array(meta["scales"], "mins", 3)
+        sc_maxs = _meta_array(meta["scales"], "maxs", 3)
         sx, sy, sz = _decode_scales_linear_jit(scales_rgba, sc_mins, sc_maxs, count)
     else:
         # v2: codebook lookup
-        scales_codebook = np.array(meta["scales"]["codebook"], dtype=np.float32)
+        scales_codebook = _meta_codebook(meta["scales"], scales_rgba[: count * 4])
         sx, sy, sz = _decode_scales_jit(scales_rgba, scales_codebook, count)
     scales[:, 0] = sx
     scales[:, 1] = sy
@@ -536,14 +566,14 @@ def sogread(file_path: str | Path | bytes) -> GSData:
 
     if is_v3:
         # v3: linear min/max dequantization (4 channels: RGB + opacity in logit space)
-        sh0_mins = np.array(meta["sh0"]["mins"], dtype=np.float32)
-        sh0_maxs = np.array(meta["sh0"]["maxs"], dtype=np.float32)
+        sh0_mins = _meta_array(meta["sh0"], "mins", 4)
+        sh0_maxs = _meta_array(meta["sh0"], "maxs", 4)
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_linear_jit(
             sh0_rgba, sh0_mins, sh0_maxs, count
         )
     else:
         # v2: codebook lookup + logit transform on alpha channel
-        sh0_codebook = np.array(meta["sh0"]["codebook"], dtype=np.float32)
+        sh0_codebook = _meta_codebook(meta["sh0"], sh0_rgba[: count * 4])
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_jit(sh0_rgba, sh0_codebook, count)
 
     sh0 = np.empty((count, 3), dtype=np.float32)
@@ -560,6 +590,8 @@ def sogread(file_path: str | Path | bytes) -> GSData:
         if is_v3:
             # v3: derive bands from shape, use scalar min/max dequantization
             shn_bands = shn_meta["shape"][1]  # e.g. 15 for SH degree 3
+            if shn_bands != 0 and shn_bands not in SH_BANDS_TO_DEGREE:
+                raise ValueError(f"SOG shN band count {shn_bands} is no SH degree")
             sh_degree = SH_BANDS_TO_DEGREE.get(shn_bands, 0)
             sh_coeffs = shn_bands  # shape[1] IS the number of coefficients
         else:
@@ -578,6 +610,8 @@ def sogread(file_path: str | Path | bytes) -> GSData:
                 raise ValueError("SOG shN labels texture too small for count")
 
             centroids_width = 64 * sh_coeffs
+            if cw != centroids_width:
+                raise ValueError(f"SOG shN centroids texture must be {centroids_width} wide")
 
             if is_v3:
                 # v3: linear dequantization with scalar min/max
@@ -598,7 +632,9 @@ def sogread(file_path: str | Path | bytes) -> GSData:
             else:
                 # v2: codebook lookup
                 palette_count = shn_meta["count"]
-                codebook = np.array(shn_meta["codebook"], dtype=np.float32)
+                codebook = _meta_codebook(shn_meta, centroids_rgba)
+                if ch * 64 < palette_count:
+                    raise ValueError("SOG shN centroids texture too small for its palette")
                 shn = _decode_shn_jit(  # noqa: N806
                     labels_rgba,
                     centroids_rgba,
-- 
2.43.0


From d06da876c620f0263abb38709af5591a17fe600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 30/48] fix: a reversed scene of at most one Gaussian converts
 to a tensor

---
 src/gsply/torch/gstensor.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 49f4c58..e82dc60 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -31,6 +31,17 @@ from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
 # (writer.py and reader.py import GSData at module level, creating circular imports)
 
 
+def _contiguous_array(array: np.ndarray) -> np.ndarray:
+    """Return a C-contiguous array that torch.from_numpy accepts.
+
+    :param array: Any NumPy array
+    :returns: The array itself when possible, a contiguous copy otherwise
+    """
+    array = np.ascontiguousarray(array)
+    # A reversed view of at most one row counts as contiguous, but torch rejects its strides
+    return array.copy() if any(stride < 0 for stride in array.strides) else array
+
+
 @dataclass
 class GSTensor:
     """GPU-accelerated Gaussian Splatting data container using PyTorch tensors.
@@ -366,7 +377,7 @@ class GSTensor:
         # Fast path: Use _base if available (11x faster)
         if data._base is not None:
             # Ensure array is contiguous (handles sliced data edge case)
-            base_array = np.ascontiguousarray(data._base)
+            base_array = _contiguous_array(data._base)
 
             # Single tensor transfer (zero CPU copy if already contiguous)
             base_tensor = torch.from_numpy(base_array).to(device=device_obj, dtype=dtype)
@@ -375,7 +386,7 @@ class GSTensor:
             # Transfer masks separately if present
             masks_tensor = None
             if data.masks is not None:
-                masks_array = np.ascontiguousarray(data.masks)
+                masks_array = _contiguous_array(data.masks)
                 masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
             # Recreate GSTensor from base tensor (preserve format from GSData)
@@ -426,7 +437,7 @@ class GSTensor:
         # Transfer masks separately
         masks_tensor = None
         if data.masks is not None:
-            masks_array = np.ascontiguousarray(data.masks)
+            masks_array = _contiguous_array(data.masks)
             masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
         # Recreate GSTensor from base tensor (preserve format from GSData)
-- 
2.43.0


From e1d3dd3541c297f90d439dc473ca1f9e12c2737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 31/48] fix: compression keeps the positions of chunks smaller
 than 1e-10

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index aa82ca7..c3ad9b8 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1061,7 +1061,7 @@ def _compress_data_internal(
     # Pre-compute ranges using vectorized NumPy operations
     # Uses np.maximum to handle zero-range case (replaces conditional: r if r > 0 else 1.0)
     # This is faster than Python loop for large num_chunks
-    min_range_epsilon = np.float32(1e-10)  # Small epsilon to avoid division by zero
+    min_range_epsilon = np.finfo(np.float32).tiny  # Avoids division by zero
 
     # Position ranges (vectorized subtraction + max with epsilon)
     range_x = np.maximum(max_x - min_x, min_range_epsilon)
-- 
2.43.0


From d6f4378ef0396db447e0be9b1d98b2ff5fe71b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 32/48] fix: GSTensor results share no mask name list with
 their source

---
 src/gsply/torch/gstensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index e82dc60..0fe237c 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -107,8 +107,10 @@ class GSTensor:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and mask names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
-- 
2.43.0


From 6277a1270f96acde77f21a66b6f9eb5398073ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 33/48] fix: saving a half-precision GSTensor in linear units
 no longer fails

---
 src/gsply/torch/gstensor.py | 2 +-
 src/gsply/writer.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 0fe237c..aaae792 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1419,7 +1419,7 @@ class GSTensor:
             # Convert to GSData and save uncompressed
             from gsply.writer import plywrite
 
-            gsdata = self.to_gsdata()
+            gsdata = self.float().to_gsdata()  # files store single precision
             plywrite(file_path, gsdata, compressed=False)
 
     def save_compressed(self, file_path: str | Path) -> None:
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index c3ad9b8..1b5d3b7 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1571,8 +1571,8 @@ def plywrite(
         from gsply.torch.gstensor import GSTensor  # noqa: PLC0415
 
         if isinstance(data, GSTensor):
-            # Convert GSTensor to GSData (transfers to CPU)
-            data = data.to_gsdata()
+            # Convert GSTensor to GSData (transfers to CPU); files store single precision
+            data = data.float().to_gsdata()
     except (ImportError, RuntimeError):
         # PyTorch not available or has import issues, skip GSTensor check
         pass
-- 
2.43.0


From 49f5c8fd9ed314b28e0b26db21fee45cdaeb1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:30 +0000
Subject: [PATCH 34/48] fix: a PLY header cut before the newline of end_header
 is rejected

---
 src/gsply/formats.py | 2 ++
 src/gsply/reader.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index fb0ed78..c283444 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -245,6 +245,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
             line_str = line.decode("ascii").strip()
 
             if line_str == "end_header":
+                if not line.endswith(b"\n"):
+                    raise ValueError("Invalid PLY: truncated end_header line")
                 break
             header_lines.append(line_str)
 
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index a932f85..ac0c822 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -176,6 +176,8 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
                 line = raw_line.decode("ascii").strip()
                 header_lines.append(line)
                 if line == "end_header":
+                    if not raw_line.endswith(b"\n"):
+                        return None
                     break
             return header_lines, f.tell()
 
-- 
2.43.0


From f255fd463d1d0ce604bb66d66809d0c7df12dad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:08 +0000
Subject: [PATCH 35/48] fix: all PLY readers and format detection agree on
 where a header ends, and accept any comment bytes

---
 src/gsply/formats.py | 21 +++++++++++++++++----
 src/gsply/reader.py  |  9 ++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index c283444..a08a23c 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -1,5 +1,6 @@
 """Format detection and constants for Gaussian splatting PLY files."""
 
+import re
 from pathlib import Path
 from typing import Any
 
@@ -160,15 +161,27 @@ QUAT_NORM = 1.4142135623730951  # 1.0 / (sqrt(2) * 0.5) = sqrt(2)
 SH_DEGREE_TO_COEFFS = {0: 0, 1: 3, 2: 8, 3: 15}
 
 
+# The end_header line, with any surrounding blanks (e.g. the carriage return of a CRLF header)
+_HEADER_END_LINE = re.compile(rb"\n[^\S\n]*end_header[^\S\n]*\n")
+
+
 def _find_header_end(data: bytes) -> int:
     """Find the end of a PLY header (a comment line may contain the word end_header too).
 
     :param data: Bytes starting with a PLY header
     :returns: Offset just after the end_header line, or -1 if there is none
     """
-    marker = b"\nend_header\n"
-    idx = data.find(marker)
-    return -1 if idx == -1 else idx + len(marker)
+    match = _HEADER_END_LINE.search(data)
+    return -1 if match is None else match.end()
+
+
+def _decode_header_line(line: bytes) -> str:
+    """Decode a PLY header line (comments may hold any bytes).
+
+    :param line: Raw header line
+    :returns: Line as text without surrounding blanks
+    """
+    return line.strip().decode("ascii", errors="replace")
 
 
 def _parse_header_elements(header_lines: list[str]) -> dict[str, dict[str, Any]]:
@@ -242,7 +255,7 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
             if not line:
                 raise ValueError("Invalid PLY: no end_header found")
             header_size += len(line)
-            line_str = line.decode("ascii").strip()
+            line_str = _decode_header_line(line)
 
             if line_str == "end_header":
                 if not line.endswith(b"\n"):
diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index ac0c822..b048fff 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -49,6 +49,7 @@ from gsply.formats import (
     QUAT_NORM,
     SH_BANDS_TO_DEGREE,
     SH_C0,
+    _decode_header_line,
     _find_header_end,
     _is_compressed_format,
     _is_standard_vertex_layout,
@@ -173,7 +174,7 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
                 raw_line = f.readline()
                 if not raw_line:
                     return None
-                line = raw_line.decode("ascii").strip()
+                line = _decode_header_line(raw_line)
                 header_lines.append(line)
                 if line == "end_header":
                     if not raw_line.endswith(b"\n"):
@@ -183,8 +184,7 @@ def _read_header_fast(f) -> tuple[list[str], int] | None:
 
         # Fast path: decode entire header at once
         header_bytes = chunk[:header_end]
-        header_text = header_bytes.decode("ascii")
-        header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
+        header_lines = [_decode_header_line(line) for line in header_bytes.split(b"\n")]
         data_offset = len(header_bytes)
 
         return header_lines, data_offset
@@ -686,8 +686,7 @@ def _parse_header_from_bytes(compressed_bytes: bytes) -> tuple[list[str], int, d
 
     # Decode entire header at once (like _read_header_fast)
     header_bytes = compressed_bytes[:header_end]
-    header_text = header_bytes.decode("ascii")
-    header_lines = [line.strip() for line in header_text.split("\n") if line.strip()]
+    header_lines = [_decode_header_line(line) for line in header_bytes.split(b"\n")]
     data_offset = len(header_bytes)
 
     # Parse element info using shared helper
-- 
2.43.0


From f02257d857af1f8f15defb0ae4ced935a0a1d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 36/48] fix: sigmoid and logit compute integer, bool, half and
 byte-swapped arrays in floating point

---
 src/gsply/utils.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 978dced..e8d112c 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -53,6 +53,20 @@ def rgb2sh(rgb: np.ndarray | float) -> np.ndarray | float:
     return (rgb - 0.5) / SH_C0
 
 
+def _as_native_float(x: np.ndarray) -> np.ndarray:
+    """Convert array input to a float type the kernels can compute in and return.
+
+    :param x: Input array of any real dtype
+    :returns: x itself if native float32/float64, otherwise a converted copy
+    """
+    x = np.asarray(x)
+    if x.dtype.kind != "f" or x.dtype.itemsize > 8:
+        return x.astype(np.float64)
+    if x.dtype.itemsize < 4:
+        return x.astype(np.float32)
+    return x.astype(x.dtype.newbyteorder("="), copy=False)
+
+
 @jit(nopython=True, parallel=True, fastmath=True, cache=True, nogil=True, boundscheck=False)
 def _logit_impl(x: np.ndarray, out: np.ndarray, eps: float):
     for i in prange(x.size):
@@ -74,11 +88,12 @@ def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
     :param eps: Epsilon for numerical stability (clamping)
     :returns: Logit values
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         val = max(eps, min(val, 1.0 - eps))
         return np.log(val / (1.0 - val))
 
+    x = _as_native_float(x)
     out = np.empty_like(x)
     _logit_impl(x, out, eps)
     return out
@@ -105,13 +120,14 @@ def sigmoid(x: np.ndarray | float) -> np.ndarray | float:
     :param x: Input values (logits)
     :returns: Values in [0, 1] range (probabilities)
     """
-    if np.isscalar(x):
+    if np.ndim(x) == 0:
         val = float(x)
         if val >= 0:
             return 1.0 / (1.0 + np.exp(-val))
         z = np.exp(val)
         return z / (1.0 + z)
 
+    x = _as_native_float(x)
     out = np.empty_like(x)
     _sigmoid_impl(x, out)
     return out
-- 
2.43.0


From d0501bbce19600947a356c1b39ed493fb2090a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 37/48] fix: compressed tensor writers reject attributes of
 inconsistent shape

---
 src/gsply/torch/compression.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 1110037..6c0be51 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -850,6 +850,23 @@ def read_compressed_gpu(file_path: str | Path, device: str = "cuda") -> GSTensor
     )
 
 
+def _validate_shapes(gstensor: GSTensor) -> None:
+    """Check that all attributes describe the same Gaussians (as the CPU writers do).
+
+    :param gstensor: GSTensor about to be written
+    :raises ValueError: If an attribute has an unexpected shape
+    """
+    n = gstensor.means.shape[0]
+    expected = {"means": (n, 3), "scales": (n, 3), "quats": (n, 4), "opacities": (n,), "sh0": (n, 3)}
+    for name, shape in expected.items():
+        actual = tuple(getattr(gstensor, name).shape)
+        if actual != shape:
+            raise ValueError(f"{name} has incorrect shape: expected {shape}, got {actual}")
+    shn = gstensor.shN
+    if shn is not None and not (shn.ndim == 3 and shn.shape[0] == n and shn.shape[2] == 3):
+        raise ValueError(f"shN has incorrect shape: expected ({n}, K, 3), got {tuple(shn.shape)}")
+
+
 def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
     """Write GSTensor to compressed PLY file using GPU compression.
 
@@ -858,8 +875,10 @@ def write_compressed_gpu(file_path: str | Path, gstensor: GSTensor) -> None:
 
     :param file_path: Output file path
     :param gstensor: GSTensor on GPU to compress and save
+    :raises ValueError: If an attribute has an unexpected shape
     """
     file_path = Path(file_path)
+    _validate_shapes(gstensor)
 
     # The file stores log-scales, logit-opacities and SH colours
     if not (gstensor.is_scales_ply and gstensor.is_opacities_ply):
-- 
2.43.0


From 95800f3dd7d49a190a61e81b11b27f4988d33af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 38/48] fix: fused activation and deactivation label the units
 they convert to

---
 src/gsply/utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8d112c..4d05881 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -315,6 +315,8 @@ def apply_pre_activations(
 
         apply_pre_activations._GSData = _GSData
 
+    from gsply.gsdata import DataFormat
+
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate exponentiation results.")
     if max_scale <= 0 or max_scale < min_scale:
@@ -363,6 +365,10 @@ def apply_pre_activations(
     # and read from _base (which still has PLY format data), ignoring our changes.
     data._base = None
 
+    # The values are linear now, whatever the labels said before
+    data._format["scales"] = DataFormat.SCALES_LINEAR
+    data._format["opacities"] = DataFormat.OPACITIES_LINEAR
+
     logger.debug(
         "[PreActivation] Activated %d Gaussians (min_scale=%.2e, max_scale=%.2f, min_quat_norm=%.2e)",
         scales.shape[0],
@@ -406,6 +412,8 @@ def apply_pre_deactivations(
 
         apply_pre_deactivations._GSData = _GSData
 
+    from gsply.gsdata import DataFormat
+
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate logarithm results.")
     if min_opacity <= 0 or max_opacity >= 1.0:
@@ -447,6 +455,10 @@ def apply_pre_deactivations(
     # Invalidate _base: it still holds the values before deactivation
     data._base = None
 
+    # The values are in PLY units now, whatever the labels said before
+    data._format["scales"] = DataFormat.SCALES_PLY
+    data._format["opacities"] = DataFormat.OPACITIES_PLY
+
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
         scales.shape[0],
-- 
2.43.0


From 1b60b17d61e8745e9a7195ddd805fdcee3a9a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 39/48] fix: tensor scenes made with requires_grad hold leaf
 tensors, so that optimizers accept them

---
 src/gsply/torch/gstensor.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index aaae792..f249529 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -383,7 +383,6 @@ class GSTensor:
 
             # Single tensor transfer (zero CPU copy if already contiguous)
             base_tensor = torch.from_numpy(base_array).to(device=device_obj, dtype=dtype)
-            base_tensor.requires_grad_(requires_grad)
 
             # Transfer masks separately if present
             masks_tensor = None
@@ -392,12 +391,13 @@ class GSTensor:
                 masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
             # Recreate GSTensor from base tensor (preserve format from GSData)
-            return cls._recreate_from_base(
+            result = cls._recreate_from_base(
                 base_tensor,
                 format_flag=data._format,
                 masks_tensor=masks_tensor,
                 mask_names=data.mask_names,
             )
+            return result._track_gradients() if requires_grad else result
 
         # Fallback: Stack arrays on CPU then transfer (2x faster than separate transfers)
         # Convert to Python int to avoid numpy _NoValueType issues
@@ -434,7 +434,6 @@ class GSTensor:
 
         # Single GPU transfer (2x faster than 5 separate transfers)
         base_tensor = torch.from_numpy(base_cpu).to(device=device_obj, dtype=dtype)
-        base_tensor.requires_grad_(requires_grad)
 
         # Transfer masks separately
         masks_tensor = None
@@ -443,12 +442,27 @@ class GSTensor:
             masks_tensor = torch.from_numpy(masks_array).to(device=device_obj)
 
         # Recreate GSTensor from base tensor (preserve format from GSData)
-        return cls._recreate_from_base(
+        result = cls._recreate_from_base(
             base_tensor,
             format_flag=data._format,
             masks_tensor=masks_tensor,
             mask_names=data.mask_names,
         )
+        return result._track_gradients() if requires_grad else result
+
+    def _track_gradients(self) -> GSTensor:
+        """Make every attribute a leaf tensor, as optimizers and ``.grad`` require.
+
+        Views of a tracked base tensor are no leaves: the attributes are detached from
+        the base, which is dropped because gradients do not flow through it.
+
+        :returns: This object
+        """
+        for name in _BASE_BACKED_FIELDS:
+            tensor = getattr(self, name)
+            if tensor is not None:
+                setattr(self, name, tensor.detach().requires_grad_(True))
+        return self
 
     def to_gsdata(self) -> GSData:
         """Convert GSTensor back to GSData (CPU NumPy arrays).
-- 
2.43.0


From 0308422a597da6040951cf885a20c6ef43d648ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 40/48] fix: pickled and deep copied scenes no longer keep a
 base that misses later edits

---
 src/gsply/gsdata.py         | 7 +++++++
 src/gsply/torch/gstensor.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 95de68d..3de03a3 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -469,6 +469,13 @@ class GSData:
             object.__setattr__(self, "_base", None)
         object.__setattr__(self, name, value)
 
+    def __getstate__(self) -> dict:
+        """State for pickling and deep copies, without the _base array.
+
+        Views become separate arrays there, so that _base would not follow their changes.
+        """
+        return {**self.__dict__, "_base": None}
+
     def __post_init__(self):
         """Auto-detect format if not provided."""
         # Copy format dict to avoid sharing mutable state between instances
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index f249529..a5b1729 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -105,6 +105,13 @@ class GSTensor:
             object.__setattr__(self, "_base", None)
         object.__setattr__(self, name, value)
 
+    def __getstate__(self) -> dict:
+        """State for pickling and deep copies, without the _base tensor.
+
+        Views become separate tensors there, so that _base would not follow their changes.
+        """
+        return {**self.__dict__, "_base": None}
+
     def __post_init__(self):
         """Auto-detect format if not provided."""
         # Copy format dict and mask names to avoid sharing mutable state between instances
-- 
2.43.0


From 2b60170a77313945f3b2d24d17e4554eddb478a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 41/48] fix: dataclasses.replace of a consolidated scene no
 longer keeps the old base next to the new arrays

---
 src/gsply/gsdata.py         | 20 ++++++++++++++++++++
 src/gsply/torch/gstensor.py | 19 +++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 3de03a3..7d4b1ad 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -481,6 +481,10 @@ class GSData:
         # Copy format dict to avoid sharing mutable state between instances
         self._format = dict(self._format)
 
+        # dataclasses.replace() passes the base of the original along with new arrays
+        if self._base is not None and not self._base_holds_attributes():
+            self._base = None
+
         # If _format is empty dict, auto-detect from values
         if not self._format:
             scales_format, opacities_format = _detect_format_from_values(
@@ -495,6 +499,22 @@ class GSData:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def _base_holds_attributes(self) -> bool:
+        """Check that every attribute is a view of _base, row by row."""
+        base = self._base
+        arrays = [self.means, self.scales, self.quats, self.opacities, self.sh0]
+        if self.shN is not None and self.shN.shape[1] > 0:
+            arrays.append(self.shN)
+        elif base.shape[1] != 14:
+            return False
+        start = base.__array_interface__["data"][0]
+        row_size = base.shape[1] * base.strides[1]
+        return base.shape[0] == 0 or all(
+            array.strides[0] == base.strides[0]
+            and 0 <= array.__array_interface__["data"][0] - start < row_size
+            for array in arrays
+        )
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index a5b1729..70319ff 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -119,6 +119,10 @@ class GSTensor:
         if self.mask_names is not None:
             self.mask_names = list(self.mask_names)
 
+        # dataclasses.replace() passes the base of the original along with new tensors
+        if self._base is not None and not self._base_holds_attributes():
+            self._base = None
+
         # If _format is empty dict, auto-detect from values
         if not self._format:
             # Convert tensors to numpy for format detection
@@ -134,6 +138,21 @@ class GSTensor:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def _base_holds_attributes(self) -> bool:
+        """Check that every attribute is a view of _base, row by row."""
+        base = self._base
+        tensors = [self.means, self.scales, self.quats, self.opacities, self.sh0]
+        if self.shN is not None and self.shN.shape[1] > 0:
+            tensors.append(self.shN)
+        elif base.shape[1] != 14:
+            return False
+        start = base.data_ptr()
+        row_size = base.shape[1] * base.stride(1) * base.element_size()
+        return base.shape[0] == 0 or all(
+            tensor.stride(0) == base.stride(0) and 0 <= tensor.data_ptr() - start < row_size
+            for tensor in tensors
+        )
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
-- 
2.43.0


From 36605612a7a2b30d6c95d1a50c4b960908d178f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 42/48] fix: quaternions are normalised in double precision, so
 that large components do not overflow

---
 src/gsply/torch/compression.py | 5 +++--
 src/gsply/utils.py             | 5 ++++-
 src/gsply/writer.py            | 5 ++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 6c0be51..03df871 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -580,8 +580,9 @@ def _pack_quaternions_gpu(quats: torch.Tensor) -> torch.Tensor:
     :returns: (NumChunks, 256) uint32 packed quaternions
     """
     # Normalize quaternions
-    norms = torch.norm(quats, dim=-1, keepdim=True)
-    quats_norm = quats / torch.clamp(norms, min=1e-7)
+    # In double precision: squares of large components overflow single precision
+    norms = torch.norm(quats, dim=-1, keepdim=True, dtype=torch.float64)
+    quats_norm = (quats / torch.clamp(norms, min=1e-7)).to(quats.dtype)
 
     # Find largest component by absolute value
     abs_quats = torch.abs(quats_norm)
diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 4d05881..aca4bdd 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -210,7 +210,10 @@ def _activate_gaussians_numba(
         qz = quats[i, 2]
         qw = quats[i, 3]
 
-        norm = np.sqrt(qx * qx + qy * qy + qz * qz + qw * qw)
+        # In double precision: squares of large components overflow single precision
+        norm = np.sqrt(
+            np.float64(qx) * qx + np.float64(qy) * qy + np.float64(qz) * qz + np.float64(qw) * qw
+        )
         if norm < min_quat_norm:
             quats[i, 0] = np.float32(0.0)
             quats[i, 1] = np.float32(0.0)
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 1b5d3b7..930a76e 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -538,7 +538,10 @@ def _pack_all_jit(
         qz = sorted_quats[i, 3]
 
         # --- Step 4.1: Normalize quaternion ---
-        qnorm = np.sqrt(qw * qw + qx * qx + qy * qy + qz * qz)
+        # In double precision: squares of large or small components leave the single range
+        qnorm = np.sqrt(
+            np.float64(qw) * qw + np.float64(qx) * qx + np.float64(qy) * qy + np.float64(qz) * qz
+        )
         if qnorm > 0:
             inv_norm = 1.0 / qnorm
             qw *= inv_norm
-- 
2.43.0


From bb12ac4d9e7216b7e26794a6d3a6f520450a5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 43/48] fix: compressed files can be decoded onto the CPU with
 any spelling of its device

---
 src/gsply/torch/compression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 03df871..135f6d0 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -325,6 +325,7 @@ def decompress_gpu(
     """
     num_vertices = vertex_data.shape[0]
     num_chunks = chunk_data.shape[0]
+    on_cpu = torch.device(device).type == "cpu"  # in any spelling, also "cpu:0"
 
     # Calculate padding needed
     padded_vertices = num_chunks * CHUNK_SIZE
@@ -338,7 +339,7 @@ def decompress_gpu(
     # Phase 4B: Batch memory transfer using byte-level concatenation (1.71x speedup)
     # Combine chunk_bounds and vertex_data into single transfer to reduce DMA overhead
     # Use byte-level concatenation to preserve uint32 bit patterns
-    if device != "cpu":
+    if not on_cpu:
         # Convert to bytes and concatenate (preserves bit patterns)
         chunk_bytes = chunk_data.tobytes()
         vertex_bytes = vertex_data.tobytes()
@@ -405,7 +406,7 @@ def decompress_gpu(
     shN = None  # noqa: N806
     if sh_data is not None:
         sh_tensor = torch.from_numpy(sh_data)
-        if device != "cpu":
+        if not on_cpu:
             sh_tensor = sh_tensor.pin_memory().to(device, non_blocking=True)
         else:
             sh_tensor = sh_tensor.to(device)
-- 
2.43.0


From 67ef64a27ef12ac0ee72b86b2d4c9dcb67fac76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:48 +0000
Subject: [PATCH 44/48] fix: empty compressed files can be decoded onto a
 device other than the CPU

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 135f6d0..6e771f1 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -339,7 +339,7 @@ def decompress_gpu(
     # Phase 4B: Batch memory transfer using byte-level concatenation (1.71x speedup)
     # Combine chunk_bounds and vertex_data into single transfer to reduce DMA overhead
     # Use byte-level concatenation to preserve uint32 bit patterns
-    if not on_cpu:
+    if not on_cpu and num_chunks > 0:
         # Convert to bytes and concatenate (preserves bit patterns)
         chunk_bytes = chunk_data.tobytes()
         vertex_bytes = vertex_data.tobytes()
@@ -359,7 +359,7 @@ def decompress_gpu(
         vertex_bytes_tensor = combined_tensor[num_chunks * 18 * 4 :]
         vertex_packed = vertex_bytes_tensor.view(torch.int32).reshape(padded_vertices, 4)
     else:
-        # CPU path: separate transfers (no benefit from batching)
+        # Separate transfers (no benefit from batching on the CPU or without any chunk)
         chunk_bounds = torch.from_numpy(chunk_data).to(device)
         vertex_packed = torch.from_numpy(vertex_data.astype(np.int32)).to(device)
 
-- 
2.43.0


From 10fed6972d9ba85dbbe3fa67945675b79a0820ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 45/48] fix: concatenation keeps the precision of every part,
 not only of the first

---
 src/gsply/gsdata.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 7d4b1ad..bca02f8 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1032,7 +1032,8 @@ class GSData:
             # Optimized: Pre-allocate and use direct assignment
             n1 = len(self)
             n2 = len(other)
-            combined_base = np.empty((n1 + n2, self._base.shape[1]), dtype=self._base.dtype)
+            base_dtype = np.result_type(self._base, other._base)
+            combined_base = np.empty((n1 + n2, self._base.shape[1]), dtype=base_dtype)
             combined_base[:n1] = self._base
             combined_base[n1:] = other._base
 
@@ -1152,12 +1153,12 @@ class GSData:
         n2 = len(other)
         total = n1 + n2
 
-        # Pre-allocate output arrays
-        means = np.empty((total, 3), dtype=self.means.dtype)
-        scales = np.empty((total, 3), dtype=self.scales.dtype)
-        quats = np.empty((total, 4), dtype=self.quats.dtype)
-        opacities = np.empty(total, dtype=self.opacities.dtype)
-        sh0 = np.empty((total, 3), dtype=self.sh0.dtype)
+        # Pre-allocate output arrays, wide enough for the values of both
+        means = np.empty((total, 3), dtype=np.result_type(self.means, other.means))
+        scales = np.empty((total, 3), dtype=np.result_type(self.scales, other.scales))
+        quats = np.empty((total, 4), dtype=np.result_type(self.quats, other.quats))
+        opacities = np.empty(total, dtype=np.result_type(self.opacities, other.opacities))
+        sh0 = np.empty((total, 3), dtype=np.result_type(self.sh0, other.sh0))
 
         # Direct assignment (faster than concatenate)
         means[:n1] = self.means
@@ -1239,19 +1240,20 @@ class GSData:
         # Calculate total size
         total = sum(len(arr) for arr in arrays)
 
-        # Pre-allocate output arrays (single allocation for efficiency)
-        means = np.empty((total, 3), dtype=arrays[0].means.dtype)
-        scales = np.empty((total, 3), dtype=arrays[0].scales.dtype)
-        quats = np.empty((total, 4), dtype=arrays[0].quats.dtype)
-        opacities = np.empty(total, dtype=arrays[0].opacities.dtype)
-        sh0 = np.empty((total, 3), dtype=arrays[0].sh0.dtype)
+        # Pre-allocate output arrays (single allocation for efficiency), wide enough for all values
+        means = np.empty((total, 3), dtype=np.result_type(*[arr.means for arr in arrays]))
+        scales = np.empty((total, 3), dtype=np.result_type(*[arr.scales for arr in arrays]))
+        quats = np.empty((total, 4), dtype=np.result_type(*[arr.quats for arr in arrays]))
+        opacities = np.empty(total, dtype=np.result_type(*[arr.opacities for arr in arrays]))
+        sh0 = np.empty((total, 3), dtype=np.result_type(*[arr.sh0 for arr in arrays]))
 
         # Handle shN
         combined_shN = None  # noqa: N806
         if any(arr.shN is not None for arr in arrays):
             # Get shN shape from first array that has it
             sh_bands = next(arr.shN.shape[1] for arr in arrays if arr.shN is not None)
-            combined_shN = np.empty((total, sh_bands, 3), dtype=arrays[0].sh0.dtype)  # noqa: N806
+            shn_dtype = np.result_type(*[arr.shN for arr in arrays if arr.shN is not None])
+            combined_shN = np.empty((total, sh_bands, 3), dtype=shn_dtype)  # noqa: N806
 
         # Copy data in one pass
         offset = 0
-- 
2.43.0


From 1f3afdf4e37ddb1d1e3c49124a4154229458cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 46/48] fix: colour conversion in place of arrays of other
 number types

---
 src/gsply/gsdata.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index bca02f8..ed23a8d 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1596,8 +1596,11 @@ class GSData:
         from gsply.utils import _sh2rgb_inplace_jit
 
         if inplace:
-            # True in-place: modify self.sh0 directly using Numba JIT
-            _sh2rgb_inplace_jit(self.sh0, SH_C0)
+            if self.sh0.dtype in (np.float32, np.float64):
+                # True in-place: modify self.sh0 directly using Numba JIT
+                _sh2rgb_inplace_jit(self.sh0, SH_C0)
+            else:  # the kernel cannot hold the result in arrays of other types
+                self.sh0 = self.sh0 * SH_C0 + 0.5
             self._base = None  # Invalidate _base since we modified arrays
             # Update format dict: sh0 is now in RGB format
             self._format["sh0"] = DataFormat.SH0_RGB
@@ -1634,8 +1637,11 @@ class GSData:
         from gsply.utils import _rgb2sh_inplace_jit
 
         if inplace:
-            # True in-place: modify self.sh0 directly using Numba JIT
-            _rgb2sh_inplace_jit(self.sh0, 1.0 / SH_C0)
+            if self.sh0.dtype in (np.float32, np.float64):
+                # True in-place: modify self.sh0 directly using Numba JIT
+                _rgb2sh_inplace_jit(self.sh0, 1.0 / SH_C0)
+            else:  # the kernel cannot hold the result in arrays of other types
+                self.sh0 = (self.sh0 - 0.5) / SH_C0
             self._base = None  # Invalidate _base since we modified arrays
             # Update format dict: sh0 is now in SH format
             self._format["sh0"] = DataFormat.SH0_SH
-- 
2.43.0


From e09ea9b924303a77917b8dc31a769a9f2965f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 47/48] fix: half-precision tensors keep the documented limits
 when normalised

---
 src/gsply/torch/gstensor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 70319ff..535ab09 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -595,19 +595,26 @@ class GSTensor:
         min_opacity = 1e-4
         max_opacity = 1.0 - 1e-4
 
+        # Half precision cannot hold these limits: clamp and convert in single precision
+        def single(x: torch.Tensor) -> torch.Tensor:
+            return x.float() if x.element_size() < 4 else x
+
         # Only attributes that are not in PLY format yet are converted
         result = self if inplace else self.clone()
 
         # Convert linear scales to log-scales: log(scale)
         if not self.is_scales_ply:
-            result.scales = torch.log(torch.clamp(self.scales, min=min_scale))
+            result.scales = torch.log(torch.clamp(single(self.scales), min=min_scale)).to(
+                self.scales.dtype
+            )
 
         # Convert linear opacities to logit-opacities: logit(opacity)
         # Use eps=min_opacity to match GSData behavior (1e-4)
         if not self.is_opacities_ply:
             result.opacities = torch.logit(
-                torch.clamp(self.opacities, min=min_opacity, max=max_opacity), eps=min_opacity
-            )
+                torch.clamp(single(self.opacities), min=min_opacity, max=max_opacity),
+                eps=min_opacity,
+            ).to(self.opacities.dtype)
 
         # Update format dict: scales and opacities are now in PLY format
         result._format["scales"] = DataFormat.SCALES_PLY
-- 
2.43.0


From 174110cd87cf0f09d3283ded9766d58c33f97a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 48/48] fix: scenes whose SH band count is no degree can be
 consolidated and sent to tensors

consolidate() and from_gsdata() returned None for them, although the compressed
format reads and writes such scenes.
---
 src/gsply/gsdata.py         | 15 ++++-----------
 src/gsply/torch/gstensor.py | 15 ++++-----------
 src/gsply/writer.py         | 22 +++++++++++++++++-----
 3 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index ed23a8d..38c9701 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1780,19 +1780,12 @@ class GSData:
         n_gaussians = base_array.shape[0]
         n_props = base_array.shape[1]
 
-        # Map property count to SH degree
+        # Map property count to SH bands
         # Layout: means(3) + sh0(3) + shN(K*3) + opacity(1) + scales(3) + quats(4)
-        # Total: 14 + K*3 where K is number of bands
+        # Total: 14 + K*3 where K is number of bands (also a count of no SH degree)
         # Note: shN.shape = (N, K, 3) where K is the number of bands
-        if n_props == 14:  # SH0: no shN
-            sh_coeffs = 0
-        elif n_props == 23:  # SH1: 14 + 3*3, K=3 bands
-            sh_coeffs = 3
-        elif n_props == 38:  # SH2: 14 + 8*3, K=8 bands
-            sh_coeffs = 8
-        elif n_props == 59:  # SH3: 14 + 15*3, K=15 bands
-            sh_coeffs = 15
-        else:
+        sh_coeffs, remainder = divmod(n_props - 14, 3)
+        if sh_coeffs < 0 or remainder != 0:
             return None  # Unknown format
 
         # Create views into the base array
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 535ab09..d0352c5 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -911,19 +911,12 @@ class GSTensor:
         n_gaussians = int(base_tensor.shape[0])
         n_props = int(base_tensor.shape[1])
 
-        # Map property count to SH degree
+        # Map property count to SH bands
         # Layout: means(3) + sh0(3) + shN(K*3) + opacity(1) + scales(3) + quats(4)
-        # Total: 14 + K*3 where K is number of bands
+        # Total: 14 + K*3 where K is number of bands (also a count of no SH degree)
         # Note: shN.shape = (N, K, 3) where K is the number of bands
-        if n_props == 14:  # SH0: no shN
-            sh_coeffs = 0
-        elif n_props == 23:  # SH1: 14 + 3*3, K=3 bands
-            sh_coeffs = 3
-        elif n_props == 38:  # SH2: 14 + 8*3, K=8 bands
-            sh_coeffs = 8
-        elif n_props == 59:  # SH3: 14 + 15*3, K=15 bands
-            sh_coeffs = 15
-        else:
+        sh_coeffs, remainder = divmod(n_props - 14, 3)
+        if sh_coeffs < 0 or remainder != 0:
             return None  # Unknown format
 
         # Create views into the base tensor
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 930a76e..5290e22 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1173,6 +1173,19 @@ def _compress_data_internal(
 # ======================================================================================
 
 
+def _check_sh_bands(num_sh_rest: int | None) -> None:
+    """Check that the uncompressed format stores a number of SH coefficients.
+
+    :param num_sh_rest: Total higher-order coefficients (K * 3), or None
+    :raises ValueError: If it is that of no SH degree
+    """
+    if num_sh_rest is not None and num_sh_rest not in (0, *_F_REST_PROPERTIES):
+        raise ValueError(
+            f"shN has {num_sh_rest // 3} bands, which is no SH degree: "
+            f"the uncompressed format stores 0, 3, 8 or 15 bands (SH degree 0-3)."
+        )
+
+
 def write_uncompressed(
     file_path: str | Path,
     data: "GSData",  # noqa: F821
@@ -1215,6 +1228,8 @@ def write_uncompressed(
         num_sh_rest = (
             data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
+        if validate:
+            _check_sh_bands(num_sh_rest)
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
         buffer_size = (
@@ -1240,11 +1255,8 @@ def write_uncompressed(
 
     num_gaussians = means.shape[0]
 
-    if validate and shn is not None and shn.shape[1] not in (0, *_F_REST_PROPERTIES):
-        raise ValueError(
-            f"shN has {shn.shape[1] // 3} bands, which is no SH degree: "
-            f"the uncompressed format stores 0, 3, 8 or 15 bands (SH degree 0-3)."
-        )
+    if validate and shn is not None:
+        _check_sh_bands(shn.shape[1])
 
     # Build header using pre-computed templates (3-5% faster)
     num_sh_rest = shn.shape[1] if shn is not None else None
-- 
2.43.0

