From 52752126b32b9aedbc7e3d860e4a8c5a006d2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 01/31] fix: raise on a PLY header without end_header instead
 of looping forever

---
 src/gsply/formats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsply/formats.py b/src/gsply/formats.py
index 3f987b0..f7e06b8 100644
--- a/src/gsply/formats.py
+++ b/src/gsply/formats.py
@@ -180,6 +180,8 @@ def _parse_ply_header(file_path: Path) -> tuple[dict[str, dict[str, Any]], int]:
 
         while True:
             line = f.readline()
+            if not line:
+                raise ValueError("Not a valid PLY file: header has no end_header line")
             header_size += len(line)
             line_str = line.decode("ascii").strip()
 
-- 
2.43.0


From 0c67390d4ba546d7ec506e0ff3bea2e1b1e49c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 02/31] fix: consolidate() stores shN channel-grouped, as the
 base layout is read back

---
 src/gsply/gsdata.py         | 5 +++--
 src/gsply/torch/gstensor.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index a085d3d..ed253f5 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -861,9 +861,10 @@ class GSData:
             sh_coeffs = sh_bands * 3  # Total coefficients (9, 24, or 45)
             n_props = 14 + sh_coeffs
 
-            # Flatten shN from (N, bands, 3) to (N, bands*3)
+            # Flatten shN from (N, bands, 3) to channel-grouped (N, 3*bands), the
+            # order _recreate_from_base() and the PLY layout expect
             shn_flat = np.ascontiguousarray(
-                self.shN.reshape(n_gaussians, sh_coeffs), dtype=np.float32
+                self.shN.transpose(0, 2, 1).reshape(n_gaussians, sh_coeffs), dtype=np.float32
             )
 
             # Allocate and populate using JIT kernel
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 94cb4c3..b3543bf 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -885,7 +885,8 @@ class GSTensor:
         # Handle shN if present
         if self.shN is not None and self.shN.shape[1] > 0:
             sh_coeffs = self.shN.shape[1]
-            shN_flat = self.shN.reshape(n_gaussians, sh_coeffs * 3)
+            # Channel-grouped order, as _recreate_from_base() and the PLY layout expect
+            shN_flat = self.shN.transpose(1, 2).reshape(n_gaussians, sh_coeffs * 3)
             new_base[:, 6 : 6 + sh_coeffs * 3] = shN_flat
             opacity_idx = 6 + sh_coeffs * 3
         else:
-- 
2.43.0


From b716f5723ff409e42ff522537ef9ef5d445c1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 03/31] fix: invalidate the base buffer in
 apply_pre_deactivations

---
 src/gsply/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index e8b4ae4..00a71cc 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -428,6 +428,9 @@ def apply_pre_deactivations(
     data.scales = scales
     data.opacities = opacities
 
+    # Invalidate _base: it may still hold the linear values (see apply_pre_activations)
+    data._base = None
+
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
         scales.shape[0],
-- 
2.43.0


From 93f38f76e88c5c07a2c9c31f2275ff19390dcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 04/31] fix: read_uncompressed rejects vertex layouts it would
 misread (non-float or misplaced vertex data)

---
 src/gsply/reader.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 97e5422..90c75d7 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -449,23 +449,18 @@ def read_uncompressed(file_path: str | Path) -> GSData | None:  # noqa: PLR0911
             header_lines, data_offset = header_result
 
             # Parse header
-            vertex_count = None
-            is_binary_le = False
-            property_names = []
-
-            for line in header_lines:
-                if line.startswith("format "):
-                    format_type = line.split()[1]
-                    is_binary_le = format_type == "binary_little_endian"
-                elif line.startswith("element vertex "):
-                    vertex_count = int(line.split()[2])
-                elif line.startswith("property float "):
-                    prop_name = line.split()[2]
-                    property_names.append(prop_name)
-
-            # Validate format
-            if not is_binary_le or vertex_count is None:
+            elements = _parse_elements_from_header(header_lines)
+
+            # Validate format: the data section is read as float32 rows, so the
+            # vertices must come first and every property of theirs must be a float
+            if not _is_binary_little_endian(header_lines) or next(iter(elements), None) != "vertex":
+                return None
+
+            vertex_count = elements["vertex"]["count"]
+            vertex_props = elements["vertex"]["properties"]
+            if any(prop_type != "float" for prop_type, _ in vertex_props):
                 return None
+            property_names = [prop_name for _, prop_name in vertex_props]
 
             # Detect SH degree from property count
             property_count = len(property_names)
@@ -572,6 +567,12 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
     return elements
 
 
+def _is_binary_little_endian(header_lines: list[str]) -> bool:
+    """Check that the header declares little-endian binary data."""
+    format_lines = [line.split() for line in header_lines if line.startswith("format ")]
+    return len(format_lines) == 1 and format_lines[0][1] == "binary_little_endian"
+
+
 def _is_compressed_format(header_lines: list) -> bool:
     """Check if PLY header indicates compressed format."""
     # Reuse element parsing logic
-- 
2.43.0


From 5252de5579e54dd25285ad0fec023d2e69dea0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 05/31] fix: compressed readers check format, section order,
 types and chunk count before decoding

---
 src/gsply/reader.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index 90c75d7..e48c7db 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -27,6 +27,7 @@ import numpy as np
 from numba import jit
 
 from gsply.formats import (
+    CHUNK_SIZE,
     CHUNK_SIZE_SHIFT,
     COLOR_B_SHIFT,
     COLOR_G_SHIFT,
@@ -50,6 +51,7 @@ from gsply.formats import (
     QUAT_NORM,
     SH_BANDS_TO_DEGREE,
     SH_C0,
+    _EXPECTED_CHUNK_NAMES,
     detect_format,
     get_sh_degree_from_property_count,
 )
@@ -575,6 +577,9 @@ def _is_binary_little_endian(header_lines: list[str]) -> bool:
 
 def _is_compressed_format(header_lines: list) -> bool:
     """Check if PLY header indicates compressed format."""
+    if not _is_binary_little_endian(header_lines):
+        return False
+
     # Reuse element parsing logic
     elements = _parse_elements_from_header(header_lines)
 
@@ -590,6 +595,9 @@ def _is_compressed_format(header_lines: list) -> bool:
     if len(vertex_props) != 4:
         return False
 
+    if [prop_name for _, prop_name in chunk_props] != _EXPECTED_CHUNK_NAMES:
+        return False
+
     expected_vertex = [
         "packed_position",
         "packed_rotation",
@@ -600,7 +608,22 @@ def _is_compressed_format(header_lines: list) -> bool:
         if prop_name != expected_name:
             return False
 
-    return True
+    # The sections are read back to back with fixed strides, in this order
+    section_types = {"chunk": "float", "vertex": "uint", "sh": "uchar"}
+    names = list(elements)
+    if names[:2] != ["chunk", "vertex"] or ("sh" in elements and names[2] != "sh"):
+        return False
+    for name, expected_type in section_types.items():
+        if name in elements and any(
+            prop_type != expected_type for prop_type, _ in elements[name]["properties"]
+        ):
+            return False
+
+    # The kernels index the chunk bounds without bounds checks
+    num_vertices = elements["vertex"]["count"]
+    if "sh" in elements and elements["sh"]["count"] != num_vertices:
+        return False
+    return elements["chunk"]["count"] == (num_vertices + CHUNK_SIZE - 1) // CHUNK_SIZE
 
 
 def _decompress_data_internal(
-- 
2.43.0


From 309a08349798873e63a1a6b1184231de236b97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 06/31] fix: malformed element and property lines in a header
 are a ValueError

---
 src/gsply/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsply/reader.py b/src/gsply/reader.py
index e48c7db..939b353 100644
--- a/src/gsply/reader.py
+++ b/src/gsply/reader.py
@@ -556,12 +556,16 @@ def _parse_elements_from_header(header_lines: list[str]) -> dict:
     for line in header_lines:
         if line.startswith("element "):
             parts = line.split()
+            if len(parts) < 3:
+                raise ValueError(f"Invalid PLY header line: {line!r}")
             name = parts[1]
             count = int(parts[2])
             elements[name] = {"count": count, "properties": []}
             current_element = name
         elif line.startswith("property ") and current_element:
             parts = line.split()
+            if len(parts) < 3:
+                raise ValueError(f"Invalid PLY header line: {line!r}")
             prop_type = parts[1]
             prop_name = parts[2]
             elements[current_element]["properties"].append((prop_type, prop_name))
-- 
2.43.0


From fef01a540a0ee5ab75fd0f1d2b8947a74beb1aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 07/31] fix: add_mask_layer no longer grows a mask-name list
 shared with another container

---
 src/gsply/gsdata.py         | 2 +-
 src/gsply/torch/gstensor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index ed253f5..7babb32 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -671,7 +671,7 @@ class GSData:
             self.masks = np.column_stack([self.masks, mask])
             if self.mask_names is None:
                 self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            self.mask_names = [*self.mask_names, name]  # never extend a shared list
 
     def get_mask_layer(self, name: str) -> np.ndarray:
         """Get a mask layer by name.
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index b3543bf..e9a87f5 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1770,7 +1770,7 @@ class GSTensor:
             self.masks = torch.cat([self.masks, mask.unsqueeze(-1)], dim=1)
             if self.mask_names is None:
                 self.mask_names = [f"layer_{i}" for i in range(self.masks.shape[1] - 1)]
-            self.mask_names.append(name)
+            self.mask_names = [*self.mask_names, name]  # never extend a shared list
 
     def get_mask_layer(self, name: str) -> torch.Tensor:
         """Get a mask layer by name.
-- 
2.43.0


From 54a0104ae182e427a5376caf50d3dcfe433a7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 08/31] fix: GSTensor.save(compressed=True) converts linear
 data to PLY format, as plywrite_gpu does

---
 src/gsply/torch/gstensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index e9a87f5..ca04a56 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -24,7 +24,7 @@ from gsply.gsdata import (
 )
 
 # Import compression functions (no circular dependency - compression.py only imports GSTensor for type hints)
-from gsply.torch.compression import read_compressed_gpu, write_compressed_gpu
+from gsply.torch.compression import read_compressed_gpu
 
 # Lazy imports to avoid circular dependencies with writer.py and reader.py
 # (writer.py and reader.py import GSData at module level, creating circular imports)
@@ -1468,7 +1468,10 @@ class GSTensor:
         file_path = Path(file_path)
 
         if compressed:
-            write_compressed_gpu(file_path, self)
+            # Converts linear data to PLY format first, without touching self
+            from gsply.torch.io import plywrite_gpu
+
+            plywrite_gpu(file_path, self)
         else:
             # Convert to GSData and save uncompressed
             from gsply.writer import plywrite
-- 
2.43.0


From b90dcf10f4ca1cf434acb31a1f5ef92d8f63e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 09/31] fix: write_uncompressed no longer streams a non-float32
 base buffer under a float header

---
 src/gsply/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 92aedc8..556f2d2 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1142,8 +1142,8 @@ def write_uncompressed(
     """
     file_path = Path(file_path)
 
-    # ZERO-COPY FAST PATH: Write _base array directly if it exists
-    if data._base is not None:
+    # ZERO-COPY FAST PATH: Write _base array directly if it exists (the file holds float32)
+    if data._base is not None and data._base.dtype == np.float32:
         num_gaussians = len(data)
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
-- 
2.43.0


From d0cdbf6e6977f68b6a2e810177efb3e97629eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 10/31] fix: replacing a field of a container drops its
 outdated base buffer

---
 src/gsply/gsdata.py         | 10 ++++++++++
 src/gsply/torch/gstensor.py |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 7babb32..4b8bf9d 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -390,6 +390,10 @@ def _combine_masks_numba_or(masks):
     return result
 
 
+# Attributes stored in the columns of _base
+_BASE_FIELDS = frozenset({"means", "scales", "quats", "opacities", "sh0", "shN"})
+
+
 @dataclass
 class GSData:
     """Gaussian Splatting data container.
@@ -474,6 +478,12 @@ class GSData:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        """Assign an attribute; replacing a Gaussian array drops the outdated `_base`."""
+        if name in _BASE_FIELDS and self.__dict__.get(name) is not value:
+            super().__setattr__("_base", None)
+        super().__setattr__(name, value)
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index ca04a56..45b296a 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -16,6 +16,7 @@ from gsply.gsdata import (
     DataFormat,
     FormatDict,
     GSData,
+    _BASE_FIELDS,
     _create_format_dict,
     _detect_format_from_values,
     _get_sh_order_format,
@@ -103,6 +104,12 @@ class GSTensor:
                 quats=DataFormat.QUATS_RAW,
             )
 
+    def __setattr__(self, name, value):
+        """Assign an attribute; replacing a Gaussian tensor drops the outdated `_base`."""
+        if name in _BASE_FIELDS and self.__dict__.get(name) is not value:
+            super().__setattr__("_base", None)
+        super().__setattr__(name, value)
+
     def __len__(self) -> int:
         """Return the number of Gaussians."""
         return self.means.shape[0]
-- 
2.43.0


From 5abd39e94f421858c1f90320e33cac31fd84da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 11/31] fix: GSTensor shN of a base tensor is a view of it, so
 in-place edits are not lost

---
 src/gsply/torch/gstensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 45b296a..0d329b1 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -954,8 +954,8 @@ class GSTensor:
             shN_flat = base_tensor[:, 6 : 6 + sh_coeffs * 3]
             # PLY stores SH coefficients channel-grouped: [R0..Rk, G0..Gk, B0..Bk]
             # Reshape to [N, 3, K] then transpose to [N, K, 3] for gsplat convention
-            # contiguous() is required for correct memory layout after transpose
-            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2).contiguous()
+            # Stays a view of base_tensor, so that in-place edits reach it like any other field
+            shN = shN_flat.reshape(n_gaussians, 3, sh_coeffs).transpose(1, 2)
             opacity_idx = 6 + sh_coeffs * 3
         else:
             shN = None
-- 
2.43.0


From 5583bc6ccc2574d92fc0f02993cadcba66cb5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 12/31] fix: plywrite no longer converts the caller's arrays or
 CPU tensors in place

---
 src/gsply/writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 556f2d2..ef49504 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1506,6 +1506,9 @@ def plywrite(
 
     file_path = Path(file_path)
 
+    # Only a GSData is converted in place; arrays and tensors stay as the caller passed them
+    inplace = isinstance(data, GSData)
+
     # Convert GSTensor to GSData if needed (lazy import to avoid torch import issues)
     try:
         from gsply.torch.gstensor import GSTensor  # noqa: PLC0415
@@ -1582,14 +1585,14 @@ def plywrite(
                 file_path = Path(str(file_path) + ".compressed.ply")
 
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=inplace)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
         # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=True)
+        data = _ensure_ply_format(data, inplace=inplace)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From 93e2b36c3afe64abb74a05b6e974ef7f46a5715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 13/31] fix: writers convert only the linear field of data in
 mixed format

---
 src/gsply/torch/io.py |  8 +++++++-
 src/gsply/writer.py   | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/io.py b/src/gsply/torch/io.py
index 293174d..ba86f10 100644
--- a/src/gsply/torch/io.py
+++ b/src/gsply/torch/io.py
@@ -101,7 +101,13 @@ def plywrite_gpu(
         logger.debug(
             f"[GPU Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        gstensor = gstensor.normalize(inplace=False)  # Create copy with PLY format
+        source = gstensor
+        gstensor = source.normalize(inplace=False)  # Create copy with PLY format
+        # normalize() converts both: keep the one that already is in PLY format
+        if scales_format == DataFormat.SCALES_PLY:
+            gstensor.scales = source.scales
+        if opacities_format == DataFormat.OPACITIES_PLY:
+            gstensor.opacities = source.opacities
 
     file_path = Path(file_path)
     write_compressed_gpu(file_path, gstensor)
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index ef49504..c6ed7db 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -880,7 +880,15 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
         logger.debug(
             f"[PLY Write] Converting from {scales_format}/{opacities_format} to PLY format before writing"
         )
-        return data.normalize(inplace=inplace)
+        # normalize() converts both: keep the one that already is in PLY format
+        kept = {}
+        if scales_format == DataFormat.SCALES_PLY:
+            kept["scales"] = data.scales.copy()
+        if opacities_format == DataFormat.OPACITIES_PLY:
+            kept["opacities"] = data.opacities.copy()
+        data = data.normalize(inplace=inplace)
+        for name, array in kept.items():
+            setattr(data, name, array)
     return data
 
 
-- 
2.43.0


From 45c675e04217bbcb2bebbf776486e8641affceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 14/31] fix: writers convert RGB sh0 back to SH coefficients

---
 src/gsply/torch/io.py | 4 ++++
 src/gsply/writer.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/gsply/torch/io.py b/src/gsply/torch/io.py
index ba86f10..7cc1ac2 100644
--- a/src/gsply/torch/io.py
+++ b/src/gsply/torch/io.py
@@ -109,6 +109,10 @@ def plywrite_gpu(
         if opacities_format == DataFormat.OPACITIES_PLY:
             gstensor.opacities = source.opacities
 
+    # PLY files store SH coefficients, not RGB colors
+    if gstensor._format.get("sh0") == DataFormat.SH0_RGB:
+        gstensor = gstensor.to_sh(inplace=False)
+
     file_path = Path(file_path)
     write_compressed_gpu(file_path, gstensor)
 
diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index c6ed7db..111121c 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -889,6 +889,10 @@ def _ensure_ply_format(data: GSData, inplace: bool = True) -> GSData:
         data = data.normalize(inplace=inplace)
         for name, array in kept.items():
             setattr(data, name, array)
+
+    # PLY files store SH coefficients, not RGB colors
+    if data._format.get("sh0") == DataFormat.SH0_RGB:
+        data = data.to_sh(inplace=False)
     return data
 
 
-- 
2.43.0


From 86e29ec9c40f09a748b79893ac5dc9ccd5720ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 15/31] fix: apply_pre_activations/apply_pre_deactivations
 record the format they convert to

---
 src/gsply/utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 00a71cc..0a3f254 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -299,6 +299,8 @@ def apply_pre_activations(
 
         apply_pre_activations._GSData = _GSData
 
+    from gsply.gsdata import DataFormat
+
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate exponentiation results.")
     if max_scale <= 0 or max_scale < min_scale:
@@ -346,6 +348,10 @@ def apply_pre_activations(
     # If _base is not invalidated, GSTensor.from_gsdata() will use the fast path
     # and read from _base (which still has PLY format data), ignoring our changes.
     data._base = None
+    data._format.update(
+        scales=DataFormat.SCALES_LINEAR,
+        opacities=DataFormat.OPACITIES_LINEAR,
+    )
 
     logger.debug(
         "[PreActivation] Activated %d Gaussians (min_scale=%.2e, max_scale=%.2f, min_quat_norm=%.2e)",
@@ -390,6 +396,8 @@ def apply_pre_deactivations(
 
         apply_pre_deactivations._GSData = _GSData
 
+    from gsply.gsdata import DataFormat
+
     if min_scale <= 0:
         raise ValueError("min_scale must be positive to avoid degenerate logarithm results.")
     if min_opacity <= 0 or max_opacity >= 1.0:
@@ -430,6 +438,10 @@ def apply_pre_deactivations(
 
     # Invalidate _base: it may still hold the linear values (see apply_pre_activations)
     data._base = None
+    data._format.update(
+        scales=DataFormat.SCALES_PLY,
+        opacities=DataFormat.OPACITIES_PLY,
+    )
 
     logger.debug(
         "[PreDeactivation] Deactivated %d Gaussians (min_scale=%.2e, min_opacity=%.2e, max_opacity=%.2e)",
-- 
2.43.0


From 9f563c9297b610b9b8979387e014ff86a1c745a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 16/31] fix: boolean lists and numpy masks used as an index
 select rows, not indices 0 and 1

---
 src/gsply/gsdata.py         | 4 ++++
 src/gsply/torch/gstensor.py | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 4b8bf9d..29b0c94 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1894,6 +1894,10 @@ class GSData:
                 _format=self._format,  # Preserve format flag
             )
 
+        # A list of booleans is a mask, not a list of the indices 0 and 1
+        if isinstance(key, list) and np.asarray(key).dtype == bool:
+            key = np.asarray(key)
+
         # Handle boolean array masking
         if isinstance(key, np.ndarray) and key.dtype == bool:
             if len(key) != len(self):
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 0d329b1..cdfeb39 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1070,6 +1070,12 @@ class GSTensor:
                 _format=self._format,  # Preserve format flag
             )
 
+        # A boolean list or numpy array is a mask, not the indices 0 and 1
+        if isinstance(key, list) and key and all(isinstance(k, (bool, np.bool_)) for k in key):
+            key = np.asarray(key)
+        if isinstance(key, np.ndarray) and key.dtype == bool:
+            key = torch.as_tensor(key, device=self.device)
+
         # Handle boolean tensor masking
         if isinstance(key, torch.Tensor) and key.dtype == torch.bool:
             if len(key) != len(self):
-- 
2.43.0


From 72b292736652b62efb8e1fe06c436765fb92b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 17/31] fix: saving activated data no longer converts the
 caller's container

---
 src/gsply/writer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 111121c..e9734cb 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1518,9 +1518,6 @@ def plywrite(
 
     file_path = Path(file_path)
 
-    # Only a GSData is converted in place; arrays and tensors stay as the caller passed them
-    inplace = isinstance(data, GSData)
-
     # Convert GSTensor to GSData if needed (lazy import to avoid torch import issues)
     try:
         from gsply.torch.gstensor import GSTensor  # noqa: PLC0415
@@ -1596,15 +1593,17 @@ def plywrite(
             else:
                 file_path = Path(str(file_path) + ".compressed.ply")
 
-        # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=inplace)
+        # Ensure data is in PLY format (log-scales, logit-opacities) before writing,
+        # without changing what the caller passed
+        data = _ensure_ply_format(data, inplace=False)
 
         # Extract arrays for compressed write (compressed write doesn't use GSData yet)
         means, scales, quats, opacities, sh0, shN = data.unpack()  # noqa: N806
         write_compressed(file_path, means, scales, quats, opacities, sh0, shN)
     else:
-        # Ensure data is in PLY format (log-scales, logit-opacities) before writing
-        data = _ensure_ply_format(data, inplace=inplace)
+        # Ensure data is in PLY format (log-scales, logit-opacities) before writing,
+        # without changing what the caller passed
+        data = _ensure_ply_format(data, inplace=False)
         write_uncompressed(file_path, data, validate=validate)
 
 
-- 
2.43.0


From 248dcd2d8728ae569a0c37c59d49dfa6c5732a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:53 +0000
Subject: [PATCH 18/31] fix: zero-copy write of an empty selection keeps the SH
 properties in the header

---
 src/gsply/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index e9734cb..7810ee3 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -1160,7 +1160,7 @@ def write_uncompressed(
         # shN.shape = (N, K, 3) where K is number of bands
         # Header needs total coefficients = K * 3
         num_sh_rest = (
-            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.size > 0) else None
+            data.shN.shape[1] * 3 if (data.shN is not None and data.shN.shape[1] > 0) else None
         )
         header_bytes = _build_header_fast(num_gaussians, num_sh_rest)
 
-- 
2.43.0


From 89698a4882045c6db1e87f04a80d1055a1bf4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 19/31] fix: containers own their list of mask names instead of
 sharing it

---
 src/gsply/gsdata.py         | 4 +++-
 src/gsply/torch/gstensor.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 29b0c94..db39efb 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -461,8 +461,10 @@ class GSData:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and mask names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index cdfeb39..ef8a96b 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -86,8 +86,10 @@ class GSTensor:
 
     def __post_init__(self):
         """Auto-detect format if not provided."""
-        # Copy format dict to avoid sharing mutable state between instances
+        # Copy format dict and mask names to avoid sharing mutable state between instances
         self._format = dict(self._format)
+        if self.mask_names is not None:
+            self.mask_names = list(self.mask_names)
 
         # If _format is empty dict, auto-detect from values
         if not self._format:
-- 
2.43.0


From a816af97d978eb2ad8906fd8b1e9718eb48b42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 20/31] fix: SOG labels outside their codebook are an error,
 not an out-of-bounds read

---
 src/gsply/sog_reader.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 19c9e9b..b5d1e52 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -409,6 +409,18 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _check_labels(rgba: np.ndarray, codebook: np.ndarray, count: int) -> None:
+    """Check that all labels lie within the codebook: the decoders do not check bounds.
+
+    :param rgba: (N*4,) uint8 RGBA data with labels in RGB
+    :param codebook: Codebook values
+    :param count: Number of Gaussians
+    :raises ValueError: If a label lies outside the codebook
+    """
+    if count and len(codebook) < 256 and rgba.reshape(-1, 4)[:count, :3].max() >= len(codebook):
+        raise ValueError(f"SOG label outside its codebook of {len(codebook)} entries")
+
+
 def sogread(file_path: str | Path | bytes) -> GSData:
     """Read SOG (Splat Ordering Grid) format file.
 
@@ -523,6 +535,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     else:
         # v2: codebook lookup
         scales_codebook = np.array(meta["scales"]["codebook"], dtype=np.float32)
+        _check_labels(scales_rgba, scales_codebook, count)
         sx, sy, sz = _decode_scales_jit(scales_rgba, scales_codebook, count)
     scales[:, 0] = sx
     scales[:, 1] = sy
@@ -544,6 +557,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     else:
         # v2: codebook lookup + logit transform on alpha channel
         sh0_codebook = np.array(meta["sh0"]["codebook"], dtype=np.float32)
+        _check_labels(sh0_rgba, sh0_codebook, count)
         sh0_r, sh0_g, sh0_b, opacities = _decode_colors_jit(sh0_rgba, sh0_codebook, count)
 
     sh0 = np.empty((count, 3), dtype=np.float32)
-- 
2.43.0


From 1349f6eaf9fd1e092abb1183fdbf3b59c0aaf8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 21/31] fix: a SOG bundle that is not a ZIP archive is a
 ValueError, as documented

---
 src/gsply/sog_reader.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index b5d1e52..12928fd 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -409,6 +409,20 @@ def _load_webp_image(data: bytes) -> tuple[np.ndarray, int, int]:
     return rgba_flat, width, height
 
 
+def _read_bundle(source: Path | io.BytesIO) -> dict[str, bytes]:
+    """Read all entries of a SOG bundle.
+
+    :param source: Path of the bundle or its content
+    :returns: Content of each entry by name
+    :raises ValueError: If the bundle is not a ZIP archive
+    """
+    try:
+        with zipfile.ZipFile(source, "r") as zf:
+            return {name: zf.read(name) for name in zf.namelist()}
+    except zipfile.BadZipFile as e:
+        raise ValueError(f"SOG bundle is not a valid ZIP archive: {e}") from e
+
+
 def _check_labels(rgba: np.ndarray, codebook: np.ndarray, count: int) -> None:
     """Check that all labels lie within the codebook: the decoders do not check bounds.
 
@@ -449,8 +463,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
 
     # Handle bytes input (in-memory ZIP)
     if isinstance(file_path, bytes):
-        with zipfile.ZipFile(io.BytesIO(file_path), "r") as zf:
-            entries = {name: zf.read(name) for name in zf.namelist()}
+        entries = _read_bundle(io.BytesIO(file_path))
     else:
         # Handle file path
         path_obj = Path(file_path)
@@ -458,8 +471,7 @@ def sogread(file_path: str | Path | bytes) -> GSData:
             raise ValueError(f"SOG file or folder not found: {path_obj}")
 
         if path_obj.is_file() and path_obj.suffix.lower() == ".sog":
-            with zipfile.ZipFile(path_obj, "r") as zf:
-                entries = {name: zf.read(name) for name in zf.namelist()}
+            entries = _read_bundle(path_obj)
 
     def load(name: str) -> bytes:
         if entries is not None:
-- 
2.43.0


From 0c47fa256c86bbeb32061404cf2f241cd1c0095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 22/31] fix: missing SOG metadata entries are a ValueError, as
 documented

---
 src/gsply/sog_reader.py | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/gsply/sog_reader.py b/src/gsply/sog_reader.py
index 12928fd..ad0a250 100644
--- a/src/gsply/sog_reader.py
+++ b/src/gsply/sog_reader.py
@@ -423,6 +423,22 @@ def _read_bundle(source: Path | io.BytesIO) -> dict[str, bytes]:
         raise ValueError(f"SOG bundle is not a valid ZIP archive: {e}") from e
 
 
+def _require(meta: dict, attribute: str, **lengths: int) -> None:
+    """Check that a metadata attribute has the entries sogread needs.
+
+    :param meta: Decoded meta.json
+    :param attribute: Attribute name (means, scales, quats, sh0, shN)
+    :param lengths: Required entries with the least number of items (0 for scalars)
+    :raises ValueError: If an entry is missing or too short
+    """
+    entries = meta.get(attribute)
+    for name, length in lengths.items():
+        if not isinstance(entries, dict) or name not in entries:
+            raise ValueError(f"SOG metadata has no '{name}' for '{attribute}'")
+        if length and (not isinstance(entries[name], list) or len(entries[name]) < length):
+            raise ValueError(f"SOG metadata '{name}' of '{attribute}' needs {length} entries")
+
+
 def _check_labels(rgba: np.ndarray, codebook: np.ndarray, count: int) -> None:
     """Check that all labels lie within the codebook: the decoders do not check bounds.
 
@@ -490,8 +506,23 @@ def sogread(file_path: str | Path | bytes) -> GSData:
     meta_bytes = load("meta.json")
     meta = json.loads(meta_bytes.decode("utf-8"))
 
+    if not isinstance(meta, dict):
+        raise ValueError("SOG metadata is not a JSON object")
+    _require(meta, "means", mins=3, maxs=3, files=2)
+    _require(meta, "quats", files=1)
+
     # Detect format version: v2 has top-level "count", v3 uses per-attribute "shape"
     is_v3 = "count" not in meta and "shape" in meta.get("means", {})
+    if is_v3:
+        # Per-channel bounds
+        _require(meta, "means", shape=1)
+        _require(meta, "scales", mins=3, maxs=3, files=1)
+        _require(meta, "sh0", mins=4, maxs=4, files=1)
+    else:
+        if "count" not in meta:
+            raise ValueError("SOG metadata has no 'count'")
+        _require(meta, "scales", codebook=1, files=1)
+        _require(meta, "sh0", codebook=1, files=1)
     count = meta["means"]["shape"][0] if is_v3 else meta["count"]
 
     # --- Means (same encoding in both formats: 16-bit split, log space) ---
@@ -585,16 +616,26 @@ def sogread(file_path: str | Path | bytes) -> GSData:
 
         if is_v3:
             # v3: derive bands from shape, use scalar min/max dequantization
+            _require(meta, "shN", shape=2)
             shn_bands = shn_meta["shape"][1]  # e.g. 15 for SH degree 3
+            if shn_bands != 0 and shn_bands not in SH_BANDS_TO_DEGREE:
+                raise ValueError(f"SOG shN must have 0, 3, 8 or 15 coefficients, got {shn_bands}")
             sh_degree = SH_BANDS_TO_DEGREE.get(shn_bands, 0)
             sh_coeffs = shn_bands  # shape[1] IS the number of coefficients
         else:
             # v2: explicit bands and count
+            _require(meta, "shN", bands=0)
             bands = shn_meta["bands"]
+            if bands not in SH_DEGREE_TO_COEFFS:
+                raise ValueError(f"SOG shN bands must be 0-3, got {bands}")
             sh_degree = bands
             sh_coeffs = SH_DEGREE_TO_COEFFS[bands]
 
         if sh_coeffs > 0:
+            if is_v3:
+                _require(meta, "shN", mins=0, maxs=0, files=2)
+            else:
+                _require(meta, "shN", count=0, codebook=1, files=2)
             centroids_data = load(shn_meta["files"][0])
             labels_data = load(shn_meta["files"][1])
             centroids_rgba, cw, ch = _load_webp_image(centroids_data)
-- 
2.43.0


From 1dd4b8b2b5141f2072bd7414b7ab8ebd9c269c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 23/31] fix: a shN with another number of rows than the other
 arrays is refused

---
 src/gsply/writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gsply/writer.py b/src/gsply/writer.py
index 7810ee3..db67d9f 100644
--- a/src/gsply/writer.py
+++ b/src/gsply/writer.py
@@ -942,6 +942,11 @@ def _validate_and_normalize_inputs(
 
     # Step 4: Flatten shN if needed (from (N, K, 3) to (N, K*3))
     shn = _flatten_shn(shn, validate)
+    if validate and shn is not None:
+        assert shn.ndim == 2 and shn.shape[0] == num_gaussians, (
+            f"shN array has incorrect shape: expected ({num_gaussians}, K, 3), "
+            f"got {shn.shape} after flattening to (N, K*3)."
+        )
 
     return means, scales, quats, opacities, sh0, shn
 
-- 
2.43.0


From 3e238a911efd25a94f9e5f9ad8489ed646b3728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 24/31] fix: an empty GSTensor can be saved in compressed form

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 64d3f71..573b74c 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -447,7 +447,7 @@ def _compute_chunk_bounds_gpu(
         data_padded = data
 
     # Reshape to (NumChunks, 256, D)
-    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, -1)
+    data_reshaped = data_padded.reshape(num_chunks, CHUNK_SIZE, data.shape[1])
 
     # Create mask to exclude padded values in last chunk
     # For last chunk, mask out positions >= num_gaussians
@@ -627,7 +627,7 @@ def _pack_sh_gpu(shN: torch.Tensor) -> torch.Tensor:  # noqa: N803
     """
     # Transpose [N, K, 3] -> [N, 3, K] then flatten to [N, 3*K]
     # This gives channel-grouped order matching original 3DGS PLY format
-    sh_flat = shN.transpose(1, 2).reshape(shN.shape[0], -1)
+    sh_flat = shN.transpose(1, 2).flatten(start_dim=1)
 
     # Quantize: shN * 32 + 128, clamped to [0, 255]
     return torch.clamp(sh_flat * 32.0 + 128.0, 0.0, 255.0).to(torch.uint8)
-- 
2.43.0


From 38deeeee6d70cb4997df5304952d7bc2d9a18bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 25/31] fix: a GSTensor with another number of shN rows is
 refused

---
 src/gsply/torch/compression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 573b74c..85059cd 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -652,6 +652,8 @@ def compress_gpu(
     :returns: Tuple of (chunk_bounds, packed_vertex_data, packed_sh_data) as CPU numpy arrays
     """
     num_gaussians = means.shape[0]
+    if shN is not None and shN.shape[0] != num_gaussians:
+        raise ValueError(f"shN has {shN.shape[0]} rows, but there are {num_gaussians} Gaussians")
     num_chunks = (num_gaussians + CHUNK_SIZE - 1) // CHUNK_SIZE
     padded_size = num_chunks * CHUNK_SIZE
 
-- 
2.43.0


From e6e18d181fe095d09f9c1d6352b42f4beb06ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 26/31] fix: sigmoid and logit of integer arrays are not
 truncated

---
 src/gsply/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gsply/utils.py b/src/gsply/utils.py
index 0a3f254..01579f8 100644
--- a/src/gsply/utils.py
+++ b/src/gsply/utils.py
@@ -79,6 +79,8 @@ def logit(x: np.ndarray | float, eps: float = 1e-6) -> np.ndarray | float:
         val = max(eps, min(val, 1.0 - eps))
         return np.log(val / (1.0 - val))
 
+    if x.dtype.kind in "biu":
+        x = x.astype(np.float64)  # the result does not fit the integer type
     out = np.empty_like(x)
     _logit_impl(x, out, eps)
     return out
@@ -112,6 +114,8 @@ def sigmoid(x: np.ndarray | float) -> np.ndarray | float:
         z = np.exp(val)
         return z / (1.0 + z)
 
+    if x.dtype.kind in "biu":
+        x = x.astype(np.float64)  # the result does not fit the integer type
     out = np.empty_like(x)
     _sigmoid_impl(x, out)
     return out
-- 
2.43.0


From 0c1718611e451058869d433126d7bc90a8b4dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 27/31] fix: make_contiguous covers masks and returns a new
 object when asked to

---
 src/gsply/gsdata.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index db39efb..17bbcec 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -1314,16 +1314,9 @@ class GSData:
         See Also:
             is_contiguous: Check if arrays are already contiguous
         """
-        # Check if already contiguous
-        if self._base is None:
-            # No _base means separate arrays, likely already contiguous
-            all_contiguous = all(
-                arr.flags["C_CONTIGUOUS"]
-                for arr in [self.means, self.scales, self.quats, self.opacities, self.sh0]
-                if arr is not None
-            )
-            if all_contiguous and (self.shN is None or self.shN.flags["C_CONTIGUOUS"]):
-                return self  # Already contiguous, nothing to do
+        # Check if already contiguous (a new object is returned either way if not inplace)
+        if inplace and self._base is None and self.is_contiguous():
+            return self  # Already contiguous, nothing to do
 
         # Convert to contiguous arrays
         means = np.ascontiguousarray(self.means)
-- 
2.43.0


From 547822228f65a5df9bd051f6a6b6ac1e271c19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 28/31] fix: to_rgb and to_sh in place work on tensors that
 require gradients

---
 src/gsply/torch/gstensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index ef8a96b..0b4f772 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -692,6 +692,9 @@ class GSTensor:
             >>> rgb_tensor = gstensor.to_rgb(inplace=False)
         """
         if inplace:
+            if self.sh0.requires_grad:
+                # Autograd refuses in-place changes of leaf tensors and of their views
+                self.sh0 = self.sh0.clone()
             # True in-place: modify self.sh0 directly using PyTorch in-place operations
             self.sh0.mul_(SH_C0).add_(0.5)
             self._base = None  # Invalidate _base since we modified tensors
@@ -735,6 +738,9 @@ class GSTensor:
             >>> sh_tensor = gstensor.to_sh(inplace=False)
         """
         if inplace:
+            if self.sh0.requires_grad:
+                # Autograd refuses in-place changes of leaf tensors and of their views
+                self.sh0 = self.sh0.clone()
             # True in-place: modify self.sh0 directly using PyTorch in-place operations
             self.sh0.sub_(0.5).div_(SH_C0)
             self._base = None  # Invalidate _base since we modified tensors
-- 
2.43.0


From 6731098a58ddd4203f499c9eb0f8c9e0787face8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 29/31] fix: a GSTensor that requires gradients can be
 compressed

---
 src/gsply/torch/compression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 85059cd..17e1d8d 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -738,7 +738,7 @@ def compress_gpu(
         packed_sh = packed_sh.cpu().numpy()
 
     # Transfer to CPU
-    chunk_bounds_np = chunk_bounds.cpu().numpy().astype(np.float32)
+    chunk_bounds_np = chunk_bounds.detach().cpu().numpy().astype(np.float32)
     packed_vertex_np = packed_vertex.cpu().numpy().astype(np.uint32)
 
     logger.debug(f"[GPU Compression] Compressed {num_gaussians:,} Gaussians ({num_chunks} chunks)")
-- 
2.43.0


From a3daa2f1a005e79011b01179ac6bdbcd1cf1c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 30/31] fix: compress_gpu refuses shN without three channels

---
 src/gsply/torch/compression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gsply/torch/compression.py b/src/gsply/torch/compression.py
index 17e1d8d..195a5a7 100644
--- a/src/gsply/torch/compression.py
+++ b/src/gsply/torch/compression.py
@@ -652,8 +652,8 @@ def compress_gpu(
     :returns: Tuple of (chunk_bounds, packed_vertex_data, packed_sh_data) as CPU numpy arrays
     """
     num_gaussians = means.shape[0]
-    if shN is not None and shN.shape[0] != num_gaussians:
-        raise ValueError(f"shN has {shN.shape[0]} rows, but there are {num_gaussians} Gaussians")
+    if shN is not None and (shN.shape[0] != num_gaussians or shN.shape[2] != 3):
+        raise ValueError(f"shN has shape {tuple(shN.shape)}, expected ({num_gaussians}, K, 3)")
     num_chunks = (num_gaussians + CHUNK_SIZE - 1) // CHUNK_SIZE
     padded_size = num_chunks * CHUNK_SIZE
 
-- 
2.43.0


From a7ac56cff8ac5c4d527ef8a23d37e783d7d40db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 31/31] fix: apply_masks(inplace=True) leaves the data as it
 was when an array does not fit the mask

---
 src/gsply/gsdata.py         | 24 ++++++++++--------------
 src/gsply/torch/gstensor.py | 24 ++++++++++--------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/gsply/gsdata.py b/src/gsply/gsdata.py
index 17bbcec..1f8e305 100644
--- a/src/gsply/gsdata.py
+++ b/src/gsply/gsdata.py
@@ -817,20 +817,16 @@ class GSData:
 
         if inplace:
             # Filter arrays in-place (replace with filtered versions)
-            self.means = self.means[combined_mask]
-            self.scales = self.scales[combined_mask]
-            self.quats = self.quats[combined_mask]
-            self.opacities = self.opacities[combined_mask]
-            self.sh0 = self.sh0[combined_mask]
-            if self.shN is not None:
-                self.shN = self.shN[combined_mask]
-            if self.masks is not None:
-                if self.masks.ndim == 1:
-                    self.masks = self.masks[combined_mask]
-                else:
-                    self.masks = self.masks[combined_mask, :]
-            if self._base is not None:
-                self._base = self._base[combined_mask]
+            # Select everything before assigning anything: if one of the arrays does not fit
+            # the mask, the data is left as it was
+            names = ("means", "scales", "quats", "opacities", "sh0", "shN", "masks")
+            current = {name: getattr(self, name) for name in names}
+            filtered = {
+                name: None if value is None else value[combined_mask]
+                for name, value in current.items()
+            }
+            for name, value in filtered.items():
+                setattr(self, name, value)
             return self
         # Return filtered copy
         return self[combined_mask]
diff --git a/src/gsply/torch/gstensor.py b/src/gsply/torch/gstensor.py
index 0b4f772..c65bf3c 100644
--- a/src/gsply/torch/gstensor.py
+++ b/src/gsply/torch/gstensor.py
@@ -1938,20 +1938,16 @@ class GSTensor:
 
         if inplace:
             # Filter tensors in-place (replace with filtered versions)
-            self.means = self.means[combined_mask]
-            self.scales = self.scales[combined_mask]
-            self.quats = self.quats[combined_mask]
-            self.opacities = self.opacities[combined_mask]
-            self.sh0 = self.sh0[combined_mask]
-            if self.shN is not None:
-                self.shN = self.shN[combined_mask]
-            if self.masks is not None:
-                if self.masks.ndim == 1:
-                    self.masks = self.masks[combined_mask]
-                else:
-                    self.masks = self.masks[combined_mask, :]
-            if self._base is not None:
-                self._base = self._base[combined_mask]
+            # Select everything before assigning anything: if one of the tensors does not fit
+            # the mask, the data is left as it was
+            names = ("means", "scales", "quats", "opacities", "sh0", "shN", "masks")
+            current = {name: getattr(self, name) for name in names}
+            filtered = {
+                name: None if value is None else value[combined_mask]
+                for name, value in current.items()
+            }
+            for name, value in filtered.items():
+                setattr(self, name, value)
             return self
         # Return filtered copy (leverages existing __getitem__ with _base optimization)
         return self[combined_mask]
-- 
2.43.0

