From d2707f77f088754001f56a47a950865268e59c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 01/80] fix: keep masked row ranges in file order when cells
 are not sorted

The order of cells is computed from the first particle type only. With files
written under MPI, cells that are empty for one type then appear out of order for
the others (or share an offset with another cell), so unsorted ranges were handed
to the readers that assume sorted ranges and returned the wrong rows.
---
 swiftsimio/masks.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..63d604a 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -675,9 +675,25 @@ class SWIFTMask(HandleProvider):
                 counts = self.counts[count_name][self.cell_mask[count_name]]
                 offsets = self.offsets[count_name][self.cell_mask[count_name]]
 
-                this_mask = [[o, c + o] for c, o in zip(counts, offsets)]
+                # The readers need ranges in the order that they appear in the file. The
+                # cells are only sorted according to the first particle type, this may
+                # not be the right order for other types (or for empty cells, that share
+                # their offset with another cell) when using MPI.
+                keep = counts > 0
+                counts, offsets = counts[keep], offsets[keep]
+                order = np.argsort(offsets, stable=True)
+                counts, offsets = counts[order], offsets[order]
+
+                this_mask = np.array(
+                    [[o, c + o] for c, o in zip(counts, offsets)], dtype=np.int64
+                )
 
-                setattr(self, data_name, np.array(this_mask))
+                setattr(
+                    self,
+                    data_name,
+                    # the "empty" mask, from 0 to 0 gets 0 elements
+                    this_mask if len(this_mask) > 0 else np.array([[0, 0]]),
+                )
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-- 
2.43.0


From 1a1b5e76bbe41847961393e6914a6921418ae6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 02/80] fix: add cells to boolean masks when uniting spatial
 constraints

With a mask converted to boolean form, constrain_spatial(..., union=True) only ever
removed particles, so the second region was silently left out.
---
 swiftsimio/masks.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 63d604a..9b9c884 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -837,6 +837,13 @@ class SWIFTMask(HandleProvider):
             new_mask = self._generate_cell_mask(sanitized_region)
             for group_name in self.update_list:
                 group_name = group_name[1:]  # remove leading underscore
+                if not self.range_mask:
+                    # updating only ever removes from boolean masks, add new cells here
+                    added = new_mask[group_name] & ~self.cell_mask[group_name]
+                    for count, offset in zip(
+                        self.counts[group_name][added], self.offsets[group_name][added]
+                    ):
+                        getattr(self, f"_{group_name}")[offset : count + offset] = True
                 self.cell_mask[group_name] = np.logical_or(
                     self.cell_mask[group_name], new_mask[group_name]
                 )
-- 
2.43.0


From f77e97ec985d0f58a7d1f94286d118d389d8e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 03/80] fix: read masked datasets with more than two dimensions

The shape of the result was truncated to two dimensions, so masked reads of e.g. an
(N, 3, 3) field raised or returned garbage.
---
 swiftsimio/accelerated.py | 2 +-
 swiftsimio/reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..13ad102 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -386,7 +386,7 @@ def read_ranges_from_file_chunked(
     chunk_range_size = np.diff(chunk_ranges).sum()
 
     try:
-        output_shape = (chunk_range_size, output_shape[1])
+        output_shape = (chunk_range_size, *output_shape[1:])
     except (TypeError, IndexError):
         # Output shape is just a number, we have a 1D array.
         output_shape = chunk_range_size
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..e5c4245 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -137,7 +137,7 @@ def _generate_getter(
                     if mask is not None:
                         output_type = handle[field].dtype
                         output_shape = (
-                            (mask_size, handle[field].shape[1])
+                            (mask_size, *handle[field].shape[1:])
                             if handle[field].ndim > 1 and not use_columns
                             else mask_size
                         )
-- 
2.43.0


From 3a789f35735587e2d8561b2a0fa01286f364810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 04/80] fix: convert chunked masked reads to native byte order
 before extracting

The jit-compiled extraction does not support non-native byte orders, so masked reads of
chunked big-endian datasets raised a TypingError.
---
 swiftsimio/accelerated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 13ad102..5fc09e4 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -417,12 +417,12 @@ def read_ranges_from_file_chunked(
 
         already_read += size_of_range
 
+    # Ensure the result is a native endian type (before passing to a jit function)
+    to_native_byteorder_inplace(output)
+
     if handle.chunks is not None:
         output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
 
-    # Ensure the result is a native endian type
-    to_native_byteorder_inplace(output)
-
     return output
 
 
-- 
2.43.0


From 10f6de837b09ca77499224ef1f48862d4b6252d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 05/80] fix: keep cosmology attributes when squeezing to a
 scalar

---
 swiftsimio/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..f9c07e3 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1400,7 +1400,9 @@ class cosmo_array(unyt_array):
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From 332f44fbe6d18fc836a6001218917981c01bf2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 06/80] fix: label loaded fields the same way with and without
 a mask

---
 swiftsimio/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index e5c4245..db45d44 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -131,6 +131,8 @@ def _generate_getter(
                     unit = _load_field_units(attributes, self.metadata.units)
                     cf = _load_field_cosmo_factor(attributes, self.metadata)
                     description = _load_field_description(attributes)
+                    if use_columns:
+                        description = f"{description} [Column {column_index}, {name}]"
                     compression = _load_field_compression(attributes)
                     physical = _load_field_physical(attributes)
                     valid_transform = _load_field_valid_transform(attributes)
@@ -174,7 +176,7 @@ def _generate_getter(
                                 ),
                                 unit,
                                 cosmo_factor=cf,
-                                name=f"{description} [Column {column_index}, {name}]",
+                                name=description,
                                 compression=compression,
                                 comoving=not physical,
                                 valid_transform=valid_transform,
-- 
2.43.0


From 16f1a6f692f8e3e3e56a135b533486d1bde9eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:45 +0000
Subject: [PATCH 07/80] fix: keep the shape of datasets in subsets and allow
 empty datasets

---
 swiftsimio/subset_writer.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..c174ebb 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -350,14 +350,10 @@ def _write_datasubset(
             if any([substr for substr in skip_list if substr in name]):
                 continue
 
-            # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            # get output dtype and shape
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From 9f863e2ec655c0be1212beba86f1717c3eb82357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 08/80] fix: keep nested links and match names exactly when
 writing subsets

---
 swiftsimio/subset_writer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index c174ebb..893e207 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -181,7 +181,9 @@ def _find_links(
             link_paths.append(dataset.path)
         elif getattr(input_file[subpath], "keys", lambda: None)() is not None:
             # has `keys` so it's not a Dataset
-            _find_links(input_file, link_names, link_paths, subpath)
+            sub_names, sub_paths = _find_links(input_file, path=subpath)
+            link_names.extend(sub_names)
+            link_paths.extend(sub_paths)
 
     return link_names, link_paths
 
@@ -276,7 +278,7 @@ def _write_metadata(
     skip_list += ["Cells"]
     skip_list += set(group.split("/")[0] for group in mask.metadata.present_groups)
     for field in infile.keys():
-        if not any([substr for substr in skip_list if substr in field]):
+        if field not in skip_list:
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
             output_type = infile[field].attrs.get("OutputType", "FullVolume")
@@ -347,7 +349,8 @@ def _write_datasubset(
     skip_list.extend(["Cells", "SubgridScheme", "PartTypeNames"])
     if mask is not None:
         for name in dataset_names:
-            if any([substr for substr in skip_list if substr in name]):
+            # skip anything that is (or is inside) one of the listed objects
+            if any(f"{name}/".startswith(f"/{skip}/") for skip in skip_list):
                 continue
 
             # get output dtype and shape
@@ -388,7 +391,9 @@ def _connect_links(
         List of paths specifying how to link each soft link.
     """
     for i in range(len(links_list)):
-        outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
+        # links inside groups that were copied in full are there already
+        if outfile.get(links_list[i], getlink=True) is None:
+            outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
 
 
 def write_subset(
-- 
2.43.0


From 907d47cbdaf4670748a95eaafa9701eb05f25b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 09/80] fix: count masked particles per cell without assuming
 cells are in file order

---
 swiftsimio/masks.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 9b9c884..b338990 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -1005,32 +1005,21 @@ class SWIFTMask(HandleProvider):
         for part_type in self.counts.keys():
             counts = self.counts[part_type]
             offsets = self.offsets[part_type]
+            selection = getattr(self, f"_{part_type}")
+            # Evaluate the number of selected particles stored before each cell's start
+            # and end. Cells are not guaranteed to be in file order for every type.
+            edges = np.stack((offsets, offsets + counts)).astype(np.int64)
             if self.range_mask:
-                # figure out what cell each range starts in (cell_ranges[:, 0]) and ends
-                # in (cell_ranges[:, 1])
-                # counts and offsets are sorted by offsets when loaded: searchsorted valid
-                cell_ranges = np.searchsorted(
-                    offsets[1:],
-                    getattr(self, f"_{part_type}"),
-                    side="right",
+                # the ranges are sorted and do not overlap, so the number of selected
+                # particles before a location is piecewise linear
+                selected = np.concatenate(([0], np.cumsum(np.diff(selection).ravel())))
+                n_before = np.interp(
+                    edges, selection.ravel(), np.repeat(selected, 2)[1:-1]
                 )
-                masked_counts[part_type] = np.zeros(counts.shape, dtype=np.int64)
-                for (start_cell, end_cell), mask_range in zip(
-                    cell_ranges, getattr(self, f"_{part_type}")
-                ):
-                    for cell in range(start_cell, end_cell + 1):
-                        masked_counts[part_type][cell] += min(
-                            mask_range[1], offsets[cell] + counts[cell]
-                        ) - max(mask_range[0], offsets[cell])
             else:
-                masked_counts[part_type] = np.array(
-                    [
-                        getattr(self, f"_{part_type}")[slice(*cell_slice)].sum()
-                        for cell_slice in np.vstack((offsets, offsets + counts)).T
-                    ]
-                )
-            masked_offsets[part_type] = np.r_[
-                0, np.cumsum(masked_counts[part_type])[:-1]
-            ]
+                n_before = np.concatenate(([0], np.cumsum(selection)))[edges]
+            n_before = np.rint(n_before).astype(np.int64)
+            masked_counts[part_type] = n_before[1] - n_before[0]
+            masked_offsets[part_type] = n_before[0]
 
         return masked_counts, masked_offsets
-- 
2.43.0


From eaf77bf5b92b9340f27682897a17d663e0d70b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 10/80] fix: write the scale-factor exponent of fields that do
 not scale

---
 swiftsimio/snapshot_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..c915408 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -11,7 +11,7 @@ from functools import reduce
 
 from swiftsimio import metadata
 from swiftsimio.metadata.writer.unit_systems import cosmo_units
-from swiftsimio.objects import cosmo_array
+from swiftsimio.objects import cosmo_array, a
 
 
 def _ptype_str_to_int(ptype_str: str) -> int:
@@ -272,7 +272,7 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    float(field.cosmo_factor.expr.as_powers_dict()[a])
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From e88e6511847abbb055688ab53b7176d43903933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 11/80] fix: write the comoving box size when given a physical
 one

---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index c915408..13b72d5 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -684,6 +684,8 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if isinstance(self.boxsize, cosmo_array):
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From a9aac877abc7a9222f44b98adb7f1567c4f39f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:32 +0000
Subject: [PATCH 12/80] fix: do not convert the caller's arrays when assigning
 them to a writer

---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 13b72d5..90a276e 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -401,6 +401,8 @@ def generate_setter(
         if dimensions != 1:
             if isinstance(value, cosmo_array):
                 if value.units.dimensions == dimensions:
+                    # convert a copy, the caller's array must not change
+                    value = value.copy()
                     value.convert_to_base(unit_system)
                     value.convert_to_comoving()
                     setattr(self, f"_{name}", value)
-- 
2.43.0


From c84390eaf9082141ed97d16c524a828635c5c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 13/80] fix: do not convert the data of an array passed to the
 cosmo_array constructor

---
 swiftsimio/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index f9c07e3..edaa201 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1164,6 +1164,9 @@ class cosmo_array(unyt_array):
             return obj
 
         if isinstance(input_array, cosmo_array):
+            if comoving is not None and comoving is not input_array.comoving:
+                # we'll convert in place below, don't modify the input's data
+                input_array = input_array.copy()
             obj = input_array.view(cls)
             if comoving is None:
                 # we could be dealing with unyt creating an object for us so copy the
-- 
2.43.0


From b2be5033a5fdb65d2a4d44bbf1926f638da03e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 14/80] fix: label the bin edges of density histogramdd along
 every axis

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..60265ff 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1533,7 +1533,7 @@ def histogramdd(  # noqa: ANN202
         helper_result = _prepare_array_func_args(
             *sample, bins=bins, range=range, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        ret_cfs = [_preserve_cosmo_factor(cf) for cf in helper_result["cfs"]]
         counts, bins = unyt_histogramdd(
             helper_result["args"],
             bins=helper_result["kwargs"]["bins"],
-- 
2.43.0


From a0dff176289478fcac545397d6255832d51076e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 15/80] fix: compare the expressions of cosmo_factors for
 equality

---
 swiftsimio/objects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index edaa201..1eaea7e 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -790,7 +790,12 @@ class cosmo_factor(object):
         elif self.a_factor is None or b.a_factor is None:
             # we know they're not both None from previous case
             a_factor_match = False
-        elif np.isclose(self.a_factor, b.a_factor, rtol=1e-6):
+        elif np.isclose(self.a_factor, b.a_factor, rtol=1e-6) and np.isclose(
+            # all powers of a are equal at a=1, so compare expressions elsewhere too
+            float(self.expr.subs(a, 0.5)),
+            float(b.expr.subs(a, 0.5)),
+            rtol=1e-6,
+        ):
             a_factor_match = True
         else:
             a_factor_match = False
-- 
2.43.0


From 766299d98fd19060dee6b39dcd2631cbedd92b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 16/80] fix: convert the comoving arguments when mixed frames
 are coerced to physical

---
 swiftsimio/_array_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 60265ff..d370e8a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -934,7 +934,7 @@ def _prepare_array_func_args(
     else:
         # mix of comoving and physical inputs
         if _default_cm:
-            for arg, cm in zip(args, cms):
+            for arg in [*args, *kwargs.values()]:
                 # None is not the same as False here:
                 if getattr(arg, "valid_transform", None) is False:
                     _default_cm = False
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From 1acfc6615b71356f7d7f544fc16176533eebd778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 17/80] fix: convert values assigned to items of a cosmo_array
 to its frame

---
 swiftsimio/objects.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 1eaea7e..91b1626 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1417,6 +1417,35 @@ class cosmo_array(unyt_array):
     ua = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
     unit_array = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
 
+    def __setitem__(self, item: object, value: object) -> None:
+        """
+        Set items, coercing any :class:`~swiftsimio.objects.cosmo_array` to our frame.
+
+        Parameters
+        ----------
+        item : object
+            The index or indices to set.
+
+        value : object
+            The value(s) to set.
+
+        Raises
+        ------
+        ValueError
+            If ``value`` has a different ``cosmo_factor``.
+        """
+        if (
+            isinstance(value, cosmo_array)  # also recognizes cosmo_quantity
+            and self.cosmo_factor is not None
+            and value.cosmo_factor is not None
+        ):
+            _preserve_cosmo_factor(self.cosmo_factor, value.cosmo_factor)
+            if self.comoving is True and value.comoving is False:
+                value = value.to_comoving()
+            elif self.comoving is False and value.comoving is True:
+                value = value.to_physical()
+        super().__setitem__(item, value)
+
     def convert_to_comoving(
         self,
         units: unyt.Unit | str | None = None,
-- 
2.43.0


From 020b493da5cc7a10f7e971d3bf9592611c6cb58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 18/80] fix: give the result of raising a cosmo_array to the
 power 0 a matching cosmo_factor

---
 swiftsimio/objects.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 91b1626..3975f5d 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2347,6 +2347,31 @@ class cosmo_array(unyt_array):
             function_to_invoke = func._implementation
         return function_to_invoke(*args, **kwargs)
 
+    def __pow__(self, p: object, mod: object = None, /) -> "cosmo_array":
+        """
+        Raise to a power.
+
+        :mod:`unyt` special-cases the power 0 without calling the ufunc, so handle the
+        ``cosmo_factor`` for this here.
+
+        Parameters
+        ----------
+        p : object
+            The exponent.
+
+        mod : object
+            Passed to the :mod:`unyt` implementation.
+
+        Returns
+        -------
+        cosmo_array
+            The result.
+        """
+        result = super().__pow__(p, mod)
+        if np.isscalar(p) and p == 0.0:
+            result.cosmo_factor = _power_cosmo_factor(self.cosmo_factor, None, power=0)
+        return result
+
     def __mul__(
         self, b: int | float | np.ndarray | unyt.unit_object.Unit
     ) -> "cosmo_array":
-- 
2.43.0


From 5ea9daa17b1cde543003fde58f241bb7c3d660f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 19/80] fix: preserve the compression of cosmo_arrays in array
 functions

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index d370e8a..546658e 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -962,7 +962,7 @@ def _prepare_array_func_args(
     ret_vt = all(vts + list(kw_vts.values()))  # if any False, then False
     if len(set(comps + list(kw_comps.values()))) == 1:
         # all compressions identical, preserve it
-        ret_comp = (comps + list(kw_comps.values()))[0]
+        ret_comp = (comps + list(kw_comps.values()))[0][1]
     else:
         # mixed compressions, strip it off
         ret_comp = None
-- 
2.43.0


From 28d3fdd8c8cc371b0ffa3bc6c338fef0623e0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 20/80] fix: write results into the out argument when its frame
 differs from the inputs

---
 swiftsimio/_array_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 546658e..5c80985 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -903,8 +903,9 @@ def _prepare_array_func_args(
     comps = [
         (hasattr(arg, "compression"), getattr(arg, "compression", None)) for arg in args
     ]
+    # out is only written to, so its present state plays no part:
     kw_cms = {
-        k: (hasattr(kwarg, "comoving"), getattr(kwarg, "comoving", None))
+        k: (hasattr(kwarg, "comoving") and k != "out", getattr(kwarg, "comoving", None))
         for k, kwarg in kwargs.items()
     }
     kw_cfs = {k: getattr(kwarg, "cosmo_factor", None) for k, kwarg in kwargs.items()}
-- 
2.43.0


From 96a1a1b3d948b607d495bd826174bc0845d19949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 21/80] fix: support keyword bounds in numpy.clip and the clip
 method of cosmo_array

---
 swiftsimio/_array_functions.py | 14 ++++++++++----
 swiftsimio/objects.py          |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 5c80985..5802c71 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2101,15 +2101,21 @@ def clip(  # noqa numpydoc ignore=GL08
     max=np._NoValue,  # noqa: ANN001
     **kwargs,  # noqa: ANN003
 ):
-    # can't work out how to properly handle min and max,
-    # just leave them in kwargs I guess (might be a numpy version conflict?)
+    # min and max are aliases of a_min and a_max:
+    a_min = min if a_min is np._NoValue else a_min
+    a_max = max if a_max is np._NoValue else a_max
+    a_min = None if a_min is np._NoValue else a_min
+    a_max = None if a_max is np._NoValue else a_max
     helper_result = _prepare_array_func_args(
         a, a_min=a_min, a_max=a_max, out=out, **kwargs
     )
     ret_cf = _preserve_cosmo_factor(
         helper_result["cfs"][0],
-        helper_result["kw_cfs"]["a_min"],
-        helper_result["kw_cfs"]["a_max"],
+        *(
+            helper_result["kw_cfs"][k]
+            for k, bound in (("a_min", a_min), ("a_max", a_max))
+            if bound is not None
+        ),
     )
     res = unyt_clip(
         helper_result["args"][0],
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3975f5d..3430fdc 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1071,7 +1071,7 @@ class cosmo_array(unyt_array):
         heaviside: _preserve_cosmo_factor,
         _ones_like: _preserve_cosmo_factor,
         matmul: _multiply_cosmo_factor,
-        clip: _passthrough_cosmo_factor,
+        clip: _preserve_cosmo_factor,
         vecdot: _multiply_cosmo_factor,
     }
 
-- 
2.43.0


From 2956e639df4086cea3221ec2215b254127e23ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 22/80] fix: support numpy.where with only a condition

---
 swiftsimio/_array_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 5802c71..9fa6b51 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2133,6 +2133,7 @@ def where(condition, *args):  # noqa numpydoc ignore=GL08
     if len(args) == 0:  # just condition
         ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
         res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return _return_helper(res, helper_result, ret_cf)
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From 7dbe2dac5c7714439c8218e7d294c380e805e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 23/80] fix: support bin edges given as an array in
 numpy.histogram_bin_edges

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 9fa6b51..228228c 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1315,9 +1315,7 @@ def histogram_bin_edges(  # noqa: ANN202
     else:
         # bins based on values in a
         ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
-        )
+    res = unyt_histogram_bin_edges(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From f9bdfce8c536a19eb15f96c5bff624cf5954b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 24/80] fix: square the cosmo_factor of a variance

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 228228c..e6c798a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1825,7 +1825,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From 04e2fec929ee9d44f5b59e7c4ee7082a66d5ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 25/80] fix: check that the cosmo_factors of arrays to be
 stacked or concatenated match

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index e6c798a..6c20234 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1264,7 +1264,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
-- 
2.43.0


From 5669a4e9eeab5f788de3b9487216a5ec92f8bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 26/80] fix: ignore the previous state of the out argument in
 array functions

---
 swiftsimio/_array_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6c20234..2490a36 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -904,8 +904,10 @@ def _prepare_array_func_args(
         (hasattr(arg, "compression"), getattr(arg, "compression", None)) for arg in args
     ]
     # out is only written to, so its present state plays no part:
+    has_out = "out" in kwargs
+    out = kwargs.pop("out", None)
     kw_cms = {
-        k: (hasattr(kwarg, "comoving") and k != "out", getattr(kwarg, "comoving", None))
+        k: (hasattr(kwarg, "comoving"), getattr(kwarg, "comoving", None))
         for k, kwarg in kwargs.items()
     }
     kw_cfs = {k: getattr(kwarg, "cosmo_factor", None) for k, kwarg in kwargs.items()}
@@ -967,6 +969,9 @@ def _prepare_array_func_args(
     else:
         # mixed compressions, strip it off
         ret_comp = None
+    if has_out:
+        kwargs["out"] = out
+        kw_cfs["out"] = getattr(out, "cosmo_factor", None)
     return {
         "args": args,
         "kwargs": kwargs,
-- 
2.43.0


From 3d2bc791a6ee53d82da53401a1d0b7c8551c9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 27/80] fix: leave the source arrays of copyto, fill_diagonal,
 place, put and putmask unchanged

---
 swiftsimio/_array_functions.py | 76 ++++++++++++++++------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 2490a36..bce8122 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -983,6 +983,35 @@ def _prepare_array_func_args(
     }
 
 
+def _match_comoving(source: Any, destination: Any) -> Any:
+    """
+    Get the values of a source array in the frame of a destination array.
+
+    Used by functions that write values into an existing array. The source array is not
+    modified.
+
+    Parameters
+    ----------
+    source : Any
+        The values to be written.
+
+    destination : Any
+        The array that they will be written into.
+
+    Returns
+    -------
+    Any
+        The ``source``, converted to be comoving or physical to match ``destination``.
+    """
+    if isinstance(source, objects.cosmo_array):  # also recognizes cosmo_quantity
+        comoving = getattr(destination, "comoving", None)
+        if comoving:
+            return source.to_comoving()
+        elif comoving is False:
+            return source.to_physical()
+    return source
+
+
 def implements(numpy_function: Callable) -> Callable:
     """
     Register an __array_function__ implementation for cosmo_array objects.
@@ -1795,13 +1824,7 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
         # if we're copyting across two
         _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass dst directly here because it's modified in-place
-    if isinstance(src, objects.cosmo_array):
-        comoving = getattr(dst, "comoving", None)
-        if comoving:
-            src.convert_to_comoving()
-        elif comoving is False:
-            src.convert_to_physical()
-    unyt_copyto(dst, src, **helper_result["kwargs"])
+    unyt_copyto(dst, _match_comoving(src, dst), **helper_result["kwargs"])
 
 
 @implements(np.prod)
@@ -1996,12 +2019,7 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, val, wrap=wrap)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
-    unyt_fill_diagonal(a, val, **helper_result["kwargs"])
+    unyt_fill_diagonal(a, _match_comoving(val, a), **helper_result["kwargs"])
 
 
 implements(np.isin)(_default_comparison_wrapper(unyt_isin))
@@ -2012,13 +2030,7 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(arr, mask, vals)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(vals, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            vals.convert_to_comoving()
-        elif comoving is False:
-            vals.convert_to_physical()
-    unyt_place(arr, mask, vals)
+    unyt_place(arr, mask, _match_comoving(vals, arr))
 
 
 @implements(np.put)
@@ -2026,13 +2038,7 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, ind, v, mode=mode)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(v, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            v.convert_to_comoving()
-        elif comoving is False:
-            v.convert_to_physical()
-    unyt_put(a, ind, v, **helper_result["kwargs"])
+    unyt_put(a, ind, _match_comoving(v, a), **helper_result["kwargs"])
 
 
 @implements(np.put_along_axis)
@@ -2040,13 +2046,7 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(arr, indices, values, axis)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
-    unyt_put_along_axis(arr, indices, values, axis)
+    unyt_put_along_axis(arr, indices, _match_comoving(values, arr), axis)
 
 
 @implements(np.putmask)
@@ -2054,13 +2054,7 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, mask, values)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
-    unyt_putmask(a, mask, values)
+    unyt_putmask(a, mask, _match_comoving(values, a))
 
 
 implements(np.searchsorted)(
-- 
2.43.0


From e00d7618f1ff0f33e3b01ddc5644e670ca521738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 28/80] fix: coerce the choices of numpy.choose and
 numpy.select to a common frame

---
 swiftsimio/_array_functions.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index bce8122..fdd1b95 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1893,11 +1893,10 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
 
 @implements(np.choose)
 def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(a, helper_result_choices["args"], out=out, mode=mode)
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
@@ -2064,14 +2063,9 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-    helper_result_choicelist = _prepare_array_func_args(*choicelist)
-    ret_cf = _preserve_cosmo_factor(*helper_result_choicelist["cfs"])
-    res = unyt_select(
-        helper_result["args"][0],
-        helper_result_choicelist["args"],
-        **helper_result["kwargs"],
-    )
+    helper_result = _prepare_array_func_args(*choicelist, default=default)
+    ret_cf = _preserve_cosmo_factor(*helper_result["cfs"])
+    res = unyt_select(condlist, helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From a3c31b6b9b75dbaf046b80fb9196a6d5604bc8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 29/80] fix: coerce the values and weights of numpy.average to
 a common frame

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index fdd1b95..4a5e657 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2274,9 +2274,7 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     else:
         super_average = np.average._implementation
 
-    res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    res = super_average(*helper_result["args"], **helper_result["kwargs"])
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-- 
2.43.0


From 7ef1dc97f59a4a1d6f76700984d0e8d29966bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 30/80] fix: leave sources already in the frame of the
 destination as they are

---
 swiftsimio/_array_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4a5e657..8ba5817 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1005,9 +1005,9 @@ def _match_comoving(source: Any, destination: Any) -> Any:
     """
     if isinstance(source, objects.cosmo_array):  # also recognizes cosmo_quantity
         comoving = getattr(destination, "comoving", None)
-        if comoving:
+        if comoving is True and not source.comoving:
             return source.to_comoving()
-        elif comoving is False:
+        elif comoving is False and source.comoving:
             return source.to_physical()
     return source
 
-- 
2.43.0


From 27ca03bd90e368b4199ba7870633d8722d6421fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 31/80] fix: set valid_transform in from_astropy and from_pint

---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3430fdc..f61e0b8 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1951,7 +1951,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
@@ -2013,7 +2013,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
-- 
2.43.0


From ba962cca8b7bd2667ea22c0196c7ab1eadb182bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 32/80] fix: label the bin edges of a density histogram2d or
 histogramdd with the frame used

---
 swiftsimio/_array_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 8ba5817..ab8a6e5 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1498,6 +1498,8 @@ def histogram2d(  # noqa: ANN202
             counts.cosmo_factor = ret_cf_counts
             counts.valid_transform = helper_result["valid_transform"]
             counts.compression = helper_result["compression"]
+        # the edges are in the common frame
+        helper_result_x = helper_result_y = helper_result
     return (
         counts,
         _return_helper(xbins, helper_result_x, ret_cf_x),
@@ -1590,6 +1592,8 @@ def histogramdd(  # noqa: ANN202
             counts.cosmo_factor = ret_cf_counts
             counts.valid_transform = helper_result["valid_transform"]
             counts.compression = helper_result["compression"]
+        # the edges are in the common frame
+        helper_results = [helper_result] * len(helper_results)
     return (
         counts,
         tuple(
-- 
2.43.0


From 132defebba9eba516d53571008bce065aafb28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 33/80] fix: convert the range of a histogram to the frame of
 the data

---
 swiftsimio/_array_functions.py | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index ab8a6e5..d7bd5ef 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1335,6 +1335,37 @@ implements(np.outer)(_default_binary_wrapper(unyt_outer, _multiply_cosmo_factor)
 implements(np.kron)(_default_binary_wrapper(unyt_kron, _multiply_cosmo_factor))
 
 
+def _coerce_range(range: Any, comoving: bool | None) -> Any:
+    """
+    Convert the limits of the range of a histogram to the frame of the data.
+
+    Parameters
+    ----------
+    range : Any
+        The range, often a pair of :class:`~swiftsimio.objects.cosmo_quantity`.
+
+    comoving : bool
+        Whether the data are comoving.
+
+    Returns
+    -------
+    Any
+        The range, in the requested frame.
+    """
+    if range is None or comoving is None or isinstance(range, objects.cosmo_array):
+        return range
+    return tuple(
+        (
+            (limit.to_comoving() if comoving else limit.to_physical())
+            if isinstance(limit, objects.cosmo_array)
+            and limit.comoving is not None
+            and limit.comoving != comoving
+            else limit
+        )
+        for limit in range
+    )
+
+
 @implements(np.histogram_bin_edges)
 def histogram_bin_edges(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -1343,6 +1374,9 @@ def histogram_bin_edges(  # noqa: ANN202
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
+    helper_result["kwargs"]["range"] = _coerce_range(
+        helper_result["kwargs"]["range"], helper_result["comoving"]
+    )
     if not isinstance(bins, str) and np.ndim(bins) == 1:
         # we got bin edges as input
         ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
@@ -1378,6 +1412,9 @@ def histogram(  # noqa: ANN202
     helper_result = _prepare_array_func_args(
         a, bins=bins, range=range, density=density, weights=weights
     )
+    helper_result["kwargs"]["range"] = _coerce_range(
+        helper_result["kwargs"]["range"], helper_result["comoving"]
+    )
     ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
     ret_cf_dens = _reciprocal_cosmo_factor(helper_result["cfs"][0])
     counts, bins = unyt_histogram(*helper_result["args"], **helper_result["kwargs"])
-- 
2.43.0


From b9b8acfebbdf6a9f37fd6465f81cbf1475522bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 34/80] fix: coerce the values and bins given to
 numpy.digitize, and label the result of numpy.block

---
 swiftsimio/_array_functions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index d7bd5ef..ac08744 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1709,7 +1709,7 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     cms = [hr["comoving"] for hr in helper_results]
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
+    cfs = [cf for hr in helper_results for cf in hr["cfs"]]
     convert_to_cm = False
     if all(cms):
         ret_cm = True
@@ -2097,6 +2097,15 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     unyt_putmask(a, mask, _match_comoving(values, a))
 
 
+@implements(np.digitize)
+def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(x, bins, right=right)
+    _return_without_cosmo_factor(*helper_result["cfs"])
+    return np.digitize._implementation(
+        *helper_result["args"], **helper_result["kwargs"]
+    )
+
+
 implements(np.searchsorted)(
     _default_binary_wrapper(unyt_searchsorted, _return_without_cosmo_factor)
 )
-- 
2.43.0


From c4c3094dba5277da14e0ea622eb80c60c8943e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 35/80] fix: label the out argument of functions that join
 arrays

---
 swiftsimio/_array_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index ac08744..6790603 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1304,7 +1304,9 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
             *helper_result["args"][1:],
             **helper_result["kwargs"],
         )
-        return _return_helper(res, helper_result_oplist, ret_cf)
+        return _return_helper(
+            res, helper_result_oplist, ret_cf, out=kwargs.get("out", None)
+        )
 
     return wrapper
 
-- 
2.43.0


From 8eb0226b0888dfbb47486ff83805e6314c727b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 36/80] fix: convert the items of a list to the frame requested
 of the cosmo_array constructor

---
 swiftsimio/objects.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index f61e0b8..58b6152 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1239,6 +1239,16 @@ class cosmo_array(unyt_array):
             )
 
             input_array = helper_result["args"]
+            if comoving is True and helper_result["comoving"] is False:
+                input_array = [
+                    i.to_comoving() if isinstance(i, cosmo_array) else i
+                    for i in input_array
+                ]
+            elif comoving is False and helper_result["comoving"] is True:
+                input_array = [
+                    i.to_physical() if isinstance(i, cosmo_array) else i
+                    for i in input_array
+                ]
 
             # default to comoving, cosmo_factor and compression given as kwargs
             comoving = helper_result["comoving"] if comoving is None else comoving
-- 
2.43.0


From c6b13ef80fa76e5bed35645453bbcec736113534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 37/80] fix: convert a quantity to the frame requested of the
 cosmo_quantity constructor

---
 swiftsimio/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 58b6152..3e6112b 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2568,6 +2568,12 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         if not isinstance(input_scalar, (numeric_type, np.number, np.ndarray)):
             raise RuntimeError("cosmo_quantity values must be numeric")
 
+        if isinstance(input_scalar, cosmo_array):  # also recognizes cosmo_quantity
+            if comoving is True and input_scalar.comoving is False:
+                input_scalar = input_scalar.to_comoving()
+            elif comoving is False and input_scalar.comoving is True:
+                input_scalar = input_scalar.to_physical()
+
         # Use values from kwargs, if None use values from input_scalar
         units = getattr(input_scalar, "units", None) if units is None else units
         name = getattr(input_scalar, "name", None) if name is None else name
-- 
2.43.0


From ba6e0d4219cc2afd847f80e5152fa140b4da9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 38/80] fix: normalise the renormalised projection kernel over
 all the pixels it covers

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From 22ca44e8c9b0a14b6c37bec0c9d3aacdf2b2726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 39/80] fix: measure the distance to the far pixel edges in the
 subsampled backends

---
 swiftsimio/visualisation/projection_backends/subsampled.py    | 4 ++--
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..5a3625a 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..74f3538 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
-- 
2.43.0


From 68642f7bcf962fbc81700f72403670593b66fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 40/80] fix: place the dithered kernel samples at the centres
 they were evaluated at

---
 swiftsimio/visualisation/projection_backends/subsampled.py    | 4 ++--
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 5a3625a..d2dd7fb 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -204,7 +204,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -220,7 +220,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index 74f3538..2be1de7 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -205,7 +205,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -221,7 +221,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
-- 
2.43.0


From 6c5f017b868dd1dae23456b04ac92c35338996fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 41/80] fix: include the last row and column of pixels a kernel
 covers in slices

---
 swiftsimio/visualisation/slice_backends/sph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..66f1057 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,9 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(
+                            particle_cell_x + cells_spanned + 1, maximal_array_index + 1
+                        ),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +211,8 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             distance_y = (
-- 
2.43.0


From 4629569a43929eb1d73aed7e0a3ebc4df13164e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 42/80] fix: include the last layers of voxels a kernel covers
 in volume renders

---
 .../volume_render_backends/scatter.py              | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..1e5d795 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,8 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +189,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +200,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +402,8 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +416,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +427,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From 9dc835d56648e8dc87f7e029f79c23c7c7d75b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 43/80] fix: tile the periodic box as often as needed in
 scatter_limited_z

---
 .../visualisation/volume_render_backends/scatter.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 1e5d795..9d455cd 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -328,20 +328,20 @@ def scatter_limited_z(
         xshift_min = 0
         xshift_max = 1
     else:
-        xshift_min = -1
-        xshift_max = 2
+        xshift_min = -1  # x_min is always at x=0
+        xshift_max = int(np.ceil(1 / box_x) + 1)  # tile the box to cover [0, 1]
     if box_y == 0.0:
         yshift_min = 0
         yshift_max = 1
     else:
-        yshift_min = -1
-        yshift_max = 2
+        yshift_min = -1  # y_min is always at y=0
+        yshift_max = int(np.ceil(1 / box_y) + 1)  # tile the box to cover [0, 1]
     if box_z == 0.0:
         zshift_min = 0
         zshift_max = 1
     else:
-        zshift_min = -1
-        zshift_max = 2
+        zshift_min = -1  # z_min is always at z=0
+        zshift_max = int(np.ceil(1 / box_z) + 1)  # tile the box to cover [0, 1]
 
     for x_pos_original, y_pos_original, z_pos_original, mass, hsml in zip(
         x, y, z, m, h
-- 
2.43.0


From 5cff88b3a7b0d97c80b541eeb99c68341eeba514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 44/80] fix: give the parallel volume render its own resolution
 along z

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 9d455cd..35f4d4d 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -531,7 +531,7 @@ def scatter_parallel(
     number_of_particles = x.size
     core_particles = number_of_particles // NUM_THREADS
 
-    output = np.zeros((res, res, res), dtype=np.float32)
+    output = np.zeros((res, res, res // res_ratio_z), dtype=np.float32)
 
     for thread in prange(NUM_THREADS):
         # Left edge is easy, just start at 0 and go to 'final'
-- 
2.43.0


From 72299bd076d9dfe7c4bc2817a71ffebb06a03853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 45/80] fix: keep particles that round up to the box edge
 inside the deposition grid

---
 swiftsimio/visualisation/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..0aa2d74 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -90,9 +90,9 @@ def deposit(
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
         # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        x_pix = min(np.int32(x_pos_scaled * float_res), res - 1)
+        y_pix = min(np.int32(y_pos_scaled * float_res), res - 1)
+        z_pix = min(np.int32(z_pos_scaled * float_res), res - 1)
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From ad21ba895ada64350af53ae4d097b14ac641b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 46/80] fix: deposit physical coordinates in a physical box

---
 swiftsimio/visualisation/power_spectrum.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 0aa2d74..5a8c7b0 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -236,7 +236,7 @@ def render_to_deposit(
             )
 
     # Get the box size
-    boxsize = data.metadata.boxsize
+    boxsize = data.metadata.boxsize.to(comoving=positions.comoving)
 
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
@@ -262,10 +262,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From 2abfe0adcbb80165452d530bb9a60074a99e034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 47/80] fix: normalise projections of non-square regions by the
 area of the pixels

---
 swiftsimio/visualisation/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..a9227f9 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,7 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    norm = region_info["max_range"] ** 2
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From 2be44ed2347f5a4e656bd14941c36b4a8aeac720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 48/80] fix: do not wrap the coordinates of the dataset in
 place when visualising

---
 swiftsimio/visualisation/_vistools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..f267257 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,7 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 91e05a7b24b0dfa75ce21f17961cac4d34b9c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 49/80] fix: do not wrap the input arrays of the nearest
 neighbour slice in place

---
 .../visualisation/slice_backends/nearest_neighbours.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/nearest_neighbours.py b/swiftsimio/visualisation/slice_backends/nearest_neighbours.py
index 9f79b2c..a196a2c 100644
--- a/swiftsimio/visualisation/slice_backends/nearest_neighbours.py
+++ b/swiftsimio/visualisation/slice_backends/nearest_neighbours.py
@@ -54,11 +54,11 @@ def build_tree(
         )
     if box_x != 0 or box_y != 0 or box_z != 0:
         if box_x != 0:
-            x %= box_x
+            x = x % box_x
         if box_y != 0:
-            y %= box_y
+            y = y % box_y
         if box_z != 0:
-            z %= box_z
+            z = z % box_z
         data = np.stack((x, y, z), axis=1)
         return KDTree(data, boxsize=[box_x, box_y, box_z])
     else:
-- 
2.43.0


From 50e8fd787be8ed8ab0b642471f6e198c15cdb10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 50/80] fix: return a proper rotation for vectors along the
 viewing axis

---
 swiftsimio/visualisation/rotation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..c698838 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -45,16 +45,18 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
 
     cross_product = np.cross(original_direction, normed_vector)
     mod_cross_product = np.linalg.norm(cross_product)
-    cross_product = cross_product / mod_cross_product
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
+        # The vector is along the axis so there is nothing to do, unless it points in
+        # the opposite direction: then turn by 180 degrees around the next axis.
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+        if np.dot(original_direction, normed_vector) < 0:
+            output[switch[axis], switch[axis]] = -1.0
+            output[switch[axis] - 1, switch[axis] - 1] = -1.0
 
         return output
     else:
+        cross_product = cross_product / mod_cross_product
         cos_theta = np.dot(original_direction, normed_vector)
         sin_theta = np.sin(np.arccos(cos_theta))
 
-- 
2.43.0


From 93dca6bdc83380b6ed21f4b666662f6423784acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 51/80] fix: accept lists of vertical values in 2D colour maps

---
 swiftsimio/visualisation/tools/cmaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..7ef9f12 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -195,7 +195,7 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From 32477ed80343f10b12539747ec4938be6ab0e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 52/80] fix: do not read outside of the 2D colour map for
 values that are not a number

---
 swiftsimio/visualisation/tools/cmaps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index 7ef9f12..bda939d 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -82,8 +82,9 @@ def apply_color_map(
         horizontal = norm_x * min(max(first_values[index], 0.0), 1.0)
         vertical = norm_y * min(max(second_values[index], 0.0), 1.0)
 
-        horizontal_base = np.int32(horizontal)
-        vertical_base = np.int32(vertical)
+        # NaN does not survive the conversion, make sure to stay within the map
+        horizontal_base = min(max(np.int32(horizontal), 0), len(map_grid) - 1)
+        vertical_base = min(max(np.int32(vertical), 0), len(map_grid[0]) - 1)
 
         # Could do some more fancy interpolation but I'm sure this will do.
         output_values[index] = map_grid[horizontal_base, vertical_base]
-- 
2.43.0


From 1a5b0d368e44a89b3296f4f7fd535b7c40580a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 53/80] fix: allow histogram projections of particles without
 masses

---
 swiftsimio/visualisation/smoothing_length/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/smoothing_length/__init__.py b/swiftsimio/visualisation/smoothing_length/__init__.py
index dbcdd06..dc4126a 100644
--- a/swiftsimio/visualisation/smoothing_length/__init__.py
+++ b/swiftsimio/visualisation/smoothing_length/__init__.py
@@ -11,7 +11,7 @@ __all__ = [
 ]
 
 backends_get_hsml = {
-    "histogram": lambda data: np.empty_like(data.masses),
+    "histogram": lambda data: np.zeros_like(data.coordinates[:, 0]),
     "sph": _sph_get_hsml,
     "nearest_neighbours": _nearest_neighbours_get_hsml,
 }
-- 
2.43.0


From d0fd2481c01994b39500b9362954da3fe9a5a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 54/80] fix: measure smoothing lengths in a box in the frame of
 the coordinates

---
 swiftsimio/visualisation/smoothing_length/generate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..2aea3ee 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,11 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    # the box has to be in the same frame as the coordinates
+    comoving = getattr(coordinates, "comoving", None)
+    if comoving is not None and getattr(boxsize, "comoving", None) == (not comoving):
+        boxsize = boxsize.to_comoving() if comoving else boxsize.to_physical()
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From b50d05c7f5e56246178eb3709ec5e2b20d3a6b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 55/80] fix: read infinities and NaNs in the first line of
 statistics files

---
 swiftsimio/accelerated.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 5fc09e4..9f0c7f3 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -564,7 +564,8 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
     number_of_lines = len(lines)
 
     for item in lines[0].split():
-        if "." in item or "e" in item:
+        if "." in item or "e" in item or "n" in item.lower():
+            # "n" covers infinities and NaNs
             dtype = np.float64
         else:
             dtype = np.int64
-- 
2.43.0


From cec4f28161de97ca94c4cd2d9de60a0be19fb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 56/80] fix: do not add a row and column of pixels to slices by
 rounding

---
 swiftsimio/visualisation/slice.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/slice.py b/swiftsimio/visualisation/slice.py
index df58b8f..df1db70 100644
--- a/swiftsimio/visualisation/slice.py
+++ b/swiftsimio/visualisation/slice.py
@@ -117,8 +117,12 @@ def slice_pixel_grid(
     mask = mask if mask is not None else np.s_[...]
 
     # determine the effective number of pixels for each dimension
-    xres = int(np.ceil(resolution * region_info["x_range"] / region_info["max_range"]))
-    yres = int(np.ceil(resolution * region_info["y_range"] / region_info["max_range"]))
+    xres = int(
+        np.ceil(resolution * (region_info["x_range"] / region_info["max_range"]))
+    )
+    yres = int(
+        np.ceil(resolution * (region_info["y_range"] / region_info["max_range"]))
+    )
 
     normed_x = (x[mask] - region_info["x_min"]) / region_info["max_range"]
     normed_y = (y[mask] - region_info["y_min"]) / region_info["max_range"]
-- 
2.43.0


From 14c4117ef4d1b495668aef5c7dec588b85731338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 57/80] fix: label folded power spectra with the scale factor
 exponent of a volume

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 5a8c7b0..3996bdd 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -384,7 +384,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From c5372d0ce308eeee46174afbb1863e56564f4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 58/80] fix: leave the bin edges given to histogram functions
 labelled as they are

---
 swiftsimio/_array_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6790603..b9f3d95 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1433,7 +1433,8 @@ def histogram(  # noqa: ANN202
         counts.cosmo_factor = ret_cf_counts
         counts.valid_transform = helper_result["valid_transform"]
         counts.compression = helper_result["compression"]
-    return counts, _return_helper(bins, helper_result, ret_cf_bins)
+    # numpy returns the bins argument itself if it was an array of edges: label a view
+    return counts, _return_helper(bins.view(), helper_result, ret_cf_bins)
 
 
 @implements(np.histogram2d)
@@ -1541,8 +1542,8 @@ def histogram2d(  # noqa: ANN202
         helper_result_x = helper_result_y = helper_result
     return (
         counts,
-        _return_helper(xbins, helper_result_x, ret_cf_x),
-        _return_helper(ybins, helper_result_y, ret_cf_y),
+        _return_helper(xbins.view(), helper_result_x, ret_cf_x),
+        _return_helper(ybins.view(), helper_result_y, ret_cf_y),
     )
 
 
@@ -1636,7 +1637,7 @@ def histogramdd(  # noqa: ANN202
     return (
         counts,
         tuple(
-            _return_helper(b, helper_result, ret_cf)
+            _return_helper(b.view(), helper_result, ret_cf)
             for b, helper_result, ret_cf in zip(bins, helper_results, ret_cfs)
         ),
     )
-- 
2.43.0


From 0b188ddc6b896c7c75805d7dee2d9c8f37c3621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 59/80] fix: combine power spectra when a folding samples none
 of the bins

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3996bdd..894383b 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -428,7 +428,7 @@ def folded_depositions_to_power_spectrum(
                 2.0**folding * np.min(depositions[folding].shape) / np.min(boxsize)
             )
 
-            if cutoff_above_wavenumber_fraction is not None:
+            if cutoff_above_wavenumber_fraction is not None and np.any(use_bins):
                 maximally_sampled_wavenumber = np.max(
                     folded_wavenumber_centers[use_bins]
                 )
-- 
2.43.0


From d9589906c14f1c814c5afad4bb4589ee9f14217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 60/80] fix: compare the cutoff wavenumbers of power spectra in
 a common frame

---
 swiftsimio/visualisation/power_spectrum.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 894383b..b59e849 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -432,11 +432,9 @@ def folded_depositions_to_power_spectrum(
                 maximally_sampled_wavenumber = np.max(
                     folded_wavenumber_centers[use_bins]
                 )
-                cutoff_wavenumber = np.min(
-                    [
-                        cutoff_above_wavenumber_fraction * maximally_sampled_wavenumber,
-                        cutoff_above_wavenumber_fraction * cutoff_wavenumber,
-                    ]
+                cutoff_wavenumber = np.minimum(
+                    cutoff_above_wavenumber_fraction * maximally_sampled_wavenumber,
+                    cutoff_above_wavenumber_fraction * cutoff_wavenumber,
                 )
 
             use_bins = np.logical_and(
-- 
2.43.0


From 445d0855c7f26e6ab36ab09b1148c757855df0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 61/80] fix: do not write outside of the deposition for
 coordinates that are not finite

---
 swiftsimio/visualisation/power_spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index b59e849..b343bd1 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -94,6 +94,10 @@ def deposit(
         y_pix = min(np.int32(y_pos_scaled * float_res), res - 1)
         z_pix = min(np.int32(z_pos_scaled * float_res), res - 1)
 
+        # Coordinates that are not finite are in none of the cells
+        if x_pix < 0 or y_pix < 0 or z_pix < 0:
+            continue
+
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
 
-- 
2.43.0


From 128938c6b52e3be95dc0803027436442e0202bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 62/80] fix: give images of volume renders the transposed shape
 they are filled in

---
 swiftsimio/visualisation/volume_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render.py b/swiftsimio/visualisation/volume_render.py
index 3e061cc..f7f58cc 100644
--- a/swiftsimio/visualisation/volume_render.py
+++ b/swiftsimio/visualisation/volume_render.py
@@ -245,7 +245,7 @@ def render_voxels_to_array(data: np.array, center: float, width: float) -> np.ar
     np.ndarray
         The 2D image array.
     """
-    output = np.zeros((data.shape[0], data.shape[1]))
+    output = np.zeros((data.shape[1], data.shape[0]))
 
     for i in range(data.shape[0]):
         for j in range(data.shape[1]):
-- 
2.43.0


From 1e607497a64e2445428a867100cf1d49d404ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 63/80] fix: raise to the power that a dimensionless exponent
 states in other units

---
 swiftsimio/objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3e6112b..a698236 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2257,6 +2257,14 @@ class cosmo_array(unyt_array):
         else:
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
 
+        if ufunc is power and method == "__call__":
+            base, exponent = helper_result["args"][:2]
+            if hasattr(exponent, "units"):
+                # unyt uses the value of the exponent regardless of its (dimensionless)
+                # units, but the ``cosmo_factor`` above accounts for them
+                exponent = exponent.to(unyt.dimensionless)
+                helper_result["args"] = [base, exponent]
+
         result = _ensure_result_is_cosmo_array_or_quantity(super().__array_ufunc__)(
             ufunc, method, *helper_result["args"], **helper_result["kwargs"]
         )
-- 
2.43.0


From 46135e7966405969280056321aff0d4370e7a2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 64/80] fix: accept exponents in the dimensionless unit object
 as powers

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index b9f3d95..09b9d85 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -518,9 +518,7 @@ def _power_cosmo_factor(
     if hasattr(power, "units"):
         if not power.units.is_dimensionless:
             raise ValueError("Exponent must be dimensionless.")
-        elif power.units is not unyt.dimensionless:
-            power = power.to_value(unyt.dimensionless)
-        # else power.units is unyt.dimensionless, do nothing
+        power = power.to_value(unyt.dimensionless)
     exp_afactor = getattr(cf2, "a_factor", None)
     if (exp_afactor is not None) and (exp_afactor != 1.0):
         raise ValueError("Exponent has scaling with scale factor != 1.")
-- 
2.43.0


From b8f4b61bc09ca38fca98d557f8966a74976d0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 65/80] fix: keep the scale factor dependence of quantities
 converted through an equivalence

---
 swiftsimio/_array_functions.py | 36 ++++++++++++++++++++++++++++++++++
 swiftsimio/objects.py          | 11 +++++------
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 09b9d85..55c1711 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -202,6 +202,42 @@ def _propagate_cosmo_array_attributes_to_result(func: Callable) -> Callable:
     return wrapped
 
 
+def _propagate_cosmo_array_attributes_of_conversion(func: Callable) -> Callable:
+    """
+    Copy attributes from first input argument to the result of a conversion of units.
+
+    Like :func:`_propagate_cosmo_array_attributes_to_result`, except that a result that
+    was obtained through an equivalence keeps its own ``cosmo_factor``. It can depend on
+    the scale factor in a different way than the input does.
+
+    Parameters
+    ----------
+    func : callable
+        The conversion, a method that accepts the keyword ``equivalence``.
+
+    Returns
+    -------
+    Callable
+        The wrapped function.
+    """
+
+    def wrapped(
+        obj: object,
+        units: object,
+        equivalence: str | None = None,
+        **kwargs: dict[str, Any],
+    ) -> object:  # noqa numpydoc ignore=GL08
+        # omit docstring so that sphinx picks up docstring of wrapped function
+        result = func(obj, units, equivalence=equivalence, **kwargs)
+        cosmo_factor = getattr(result, "cosmo_factor", None)
+        result = _copy_cosmo_array_attributes_if_present(obj, result)
+        if equivalence is not None and isinstance(result, objects.cosmo_array):
+            result.cosmo_factor = cosmo_factor
+        return result
+
+    return wrapped
+
+
 def _promote_unyt_to_cosmo(input_object: object) -> object:
     """
     Upgrade the input unyt instance to its cosmo equivalent.
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index a698236..989acdd 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -103,6 +103,7 @@ from numpy import (
 )
 from numpy._core.umath import _ones_like, clip
 from ._array_functions import (
+    _propagate_cosmo_array_attributes_of_conversion,
     _propagate_cosmo_array_attributes_to_result,
     _ensure_result_is_cosmo_array_or_quantity,
     _copy_cosmo_array_attributes_if_present,
@@ -1393,7 +1394,7 @@ class cosmo_array(unyt_array):
     # Wrap functions that return copies of cosmo_arrays so that our
     # attributes get passed through:
     astype = _propagate_cosmo_array_attributes_to_result(unyt_array.astype)
-    in_units = _propagate_cosmo_array_attributes_to_result(unyt_array.in_units)
+    in_units = _propagate_cosmo_array_attributes_of_conversion(unyt_array.in_units)
     byteswap = _propagate_cosmo_array_attributes_to_result(unyt_array.byteswap)
     compress = _propagate_cosmo_array_attributes_to_result(unyt_array.compress)
     diagonal = _propagate_cosmo_array_attributes_to_result(unyt_array.diagonal)
@@ -1708,11 +1709,9 @@ class cosmo_array(unyt_array):
         if units is None:
             arr_copy = self.copy()
         else:
-            arr_copy = _copy_cosmo_array_attributes_if_present(
-                self,
-                _ensure_result_is_cosmo_array_or_quantity(super().to)(
-                    units, equivalence=equivalence, **kwargs
-                ),
+            # attributes are set in `in_units`
+            arr_copy = _ensure_result_is_cosmo_array_or_quantity(super().to)(
+                units, equivalence=equivalence, **kwargs
             )
         # do comoving conversion in-place since we already made a copy.
         # if comoving is not None and self.comoving is None this will (and should) raise.
-- 
2.43.0


From cf432205ef9e3c7cd827dc840d118fb68608a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 66/80] fix: compare values with bins stated in other units in
 digitize

---
 swiftsimio/_array_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 55c1711..0aa9aa3 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2138,9 +2138,10 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
 def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(x, bins, right=right)
     _return_without_cosmo_factor(*helper_result["cfs"])
-    return np.digitize._implementation(
-        *helper_result["args"], **helper_result["kwargs"]
-    )
+    x, bins = helper_result["args"]
+    if hasattr(x, "units") and hasattr(bins, "units"):
+        bins = bins.to(x.units)
+    return np.digitize._implementation(x, bins, **helper_result["kwargs"])
 
 
 implements(np.searchsorted)(
-- 
2.43.0


From 7032b4798f0309d2c97adfd2df2950302f9740d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 67/80] fix: allow a scale factor and exponent when bypassing
 validation

---
 swiftsimio/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 989acdd..0c8b548 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1163,7 +1163,8 @@ class cosmo_array(unyt_array):
             obj.comoving = comoving
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                # the class name is shadowed by the argument
+                obj.cosmo_factor = NULL_CF.create(scale_factor, scale_exponent)
             obj.valid_transform = valid_transform
             obj.compression = compression
 
-- 
2.43.0


From 5a7e3a6ebd31dc6be6e09180af699072db6945a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 68/80] fix: reconcile lists of quantities that are assigned to
 elements of an array

---
 swiftsimio/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 0c8b548..3ce3ea1 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1446,6 +1446,12 @@ class cosmo_array(unyt_array):
         ValueError
             If ``value`` has a different ``cosmo_factor``.
         """
+        if (
+            isinstance(value, (list, tuple))
+            and len(value) > 0
+            and all(isinstance(v, cosmo_array) for v in value)
+        ):
+            value = cosmo_array(value)  # coerces the elements to be consistent
         if (
             isinstance(value, cosmo_array)  # also recognizes cosmo_quantity
             and self.cosmo_factor is not None
-- 
2.43.0


From 2b331d048c626b44066a71a70c59fa5032e6d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 69/80] fix: reconcile frame and units in the fill, put and
 searchsorted methods

---
 swiftsimio/objects.py | 81 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 80 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3ce3ea1..cb92a7b 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1441,6 +1441,27 @@ class cosmo_array(unyt_array):
         value : object
             The value(s) to set.
 
+        Raises
+        ------
+        ValueError
+            If ``value`` has a different ``cosmo_factor``.
+        """
+        super().__setitem__(item, self._match_frame(value))
+
+    def _match_frame(self, value: object) -> object:
+        """
+        Coerce any :class:`~swiftsimio.objects.cosmo_array` to our frame.
+
+        Parameters
+        ----------
+        value : object
+            The value(s) to be stored in or compared with this array.
+
+        Returns
+        -------
+        object
+            The value(s), in our frame if they have one.
+
         Raises
         ------
         ValueError
@@ -1462,7 +1483,65 @@ class cosmo_array(unyt_array):
                 value = value.to_comoving()
             elif self.comoving is False and value.comoving is True:
                 value = value.to_physical()
-        super().__setitem__(item, value)
+        return value
+
+    def fill(self, value: object) -> None:
+        """
+        Set all elements, coercing ``value`` to our frame and units.
+
+        Parameters
+        ----------
+        value : object
+            The value to set.
+        """
+        self[...] = value
+
+    def put(self, indices: object, values: object, mode: str = "raise") -> None:
+        """
+        Set elements, coercing ``values`` to our frame and units.
+
+        Parameters
+        ----------
+        indices : object
+            The indices of the elements in the flattened array.
+
+        values : object
+            The values to set.
+
+        mode : str
+            Treatment of indices that are out of bounds.
+        """
+        values = self._match_frame(values)
+        if isinstance(values, unyt_array):
+            values = values.to_value(self.units)
+        super().put(indices, values, mode=mode)
+
+    def searchsorted(
+        self, v: object, side: str = "left", sorter: object | None = None
+    ) -> np.ndarray:
+        """
+        Find where to insert elements to maintain order, in our frame and units.
+
+        Parameters
+        ----------
+        v : object
+            The values to insert.
+
+        side : str
+            Give the first (``"left"``) or the last (``"right"``) suitable location.
+
+        sorter : object, optional
+            Indices that sort this array.
+
+        Returns
+        -------
+        np.ndarray
+            The insertion points.
+        """
+        v = self._match_frame(v)
+        if isinstance(v, unyt_array):
+            v = v.to_value(self.units)
+        return super().searchsorted(v, side=side, sorter=sorter)
 
     def convert_to_comoving(
         self,
-- 
2.43.0


From f3d58fa893ef9d08b8fd196d718400fa2e572dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 70/80] fix: account for the frame of an initial value in max,
 min and sum

---
 swiftsimio/_array_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0aa9aa3..789f119 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2375,8 +2375,9 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
         return _return_helper(res, helper_result, ret_cf_avg)
 
 
-implements(np.max)(_propagate_cosmo_array_attributes_to_result(np.max._implementation))
-implements(np.min)(_propagate_cosmo_array_attributes_to_result(np.min._implementation))
+# these reduce with ufuncs, that label the result (operands include ``initial``)
+implements(np.max)(np.max._implementation)
+implements(np.min)(np.min._implementation)
 implements(np.mean)(
     _propagate_cosmo_array_attributes_to_result(np.mean._implementation)
 )
@@ -2386,7 +2387,7 @@ implements(np.median)(
 implements(np.sort)(
     _propagate_cosmo_array_attributes_to_result(np.sort._implementation)
 )
-implements(np.sum)(_propagate_cosmo_array_attributes_to_result(np.sum._implementation))
+implements(np.sum)(np.sum._implementation)
 implements(np.partition)(
     _propagate_cosmo_array_attributes_to_result(np.partition._implementation)
 )
-- 
2.43.0


From b8618e6fe2b43466921b10fbbe15289358c87d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 71/80] fix: keep the scale factor dependence of Fourier
 transforms

---
 swiftsimio/_array_functions.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 789f119..a9ab9d0 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1796,35 +1796,35 @@ def block(arrays):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result_block, ret_cf)
 
 
-implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _reciprocal_cosmo_factor))
-implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _reciprocal_cosmo_factor))
-implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _reciprocal_cosmo_factor))
-implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _reciprocal_cosmo_factor))
+implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _preserve_cosmo_factor))
+implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _preserve_cosmo_factor))
+implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _preserve_cosmo_factor))
+implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _preserve_cosmo_factor))
+implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _preserve_cosmo_factor))
 implements(np.fft.rfft2)(
-    _default_unary_wrapper(unyt_fft_rfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_rfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.rfftn)(
-    _default_unary_wrapper(unyt_fft_rfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_rfftn, _preserve_cosmo_factor)
 )
-implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _reciprocal_cosmo_factor))
+implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _preserve_cosmo_factor))
 implements(np.fft.ifft2)(
-    _default_unary_wrapper(unyt_fft_ifft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ifft2, _preserve_cosmo_factor)
 )
 implements(np.fft.ifftn)(
-    _default_unary_wrapper(unyt_fft_ifftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ifftn, _preserve_cosmo_factor)
 )
 implements(np.fft.ihfft)(
-    _default_unary_wrapper(unyt_fft_ihfft, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ihfft, _preserve_cosmo_factor)
 )
 implements(np.fft.irfft)(
-    _default_unary_wrapper(unyt_fft_irfft, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft, _preserve_cosmo_factor)
 )
 implements(np.fft.irfft2)(
-    _default_unary_wrapper(unyt_fft_irfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.irfftn)(
-    _default_unary_wrapper(unyt_fft_irfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfftn, _preserve_cosmo_factor)
 )
 implements(np.fft.fftshift)(
     _default_unary_wrapper(unyt_fft_fftshift, _preserve_cosmo_factor)
-- 
2.43.0


From eafffe61c1c183c98f3bde03f035a48e691b61c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 72/80] fix: keep units and scale factor dependence in
 numpy.round

---
 swiftsimio/_array_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a9ab9d0..df48967 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1692,6 +1692,7 @@ implements(np.dstack)(_default_oplist_wrapper(unyt_dstack))
 implements(np.column_stack)(_default_oplist_wrapper(unyt_column_stack))
 implements(np.stack)(_default_oplist_wrapper(unyt_stack))
 implements(np.around)(_default_unary_wrapper(unyt_around, _preserve_cosmo_factor))
+implements(np.round)(_default_unary_wrapper(unyt_around, _preserve_cosmo_factor))
 
 
 def _recursive_to_comoving(lst: list) -> list:
-- 
2.43.0


From 848b008166a7d930bd1e511908a30700be9833a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 73/80] fix: keep units and scale factor dependence in the
 round method

---
 swiftsimio/objects.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index cb92a7b..e0b5848 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1516,6 +1516,27 @@ class cosmo_array(unyt_array):
             values = values.to_value(self.units)
         super().put(indices, values, mode=mode)
 
+    def round(
+        self, decimals: int = 0, out: "cosmo_array | None" = None
+    ) -> "cosmo_array":
+        """
+        Round each element to the given number of decimals.
+
+        Parameters
+        ----------
+        decimals : int
+            Number of decimal places to round to.
+
+        out : cosmo_array, optional
+            Array to place the result in.
+
+        Returns
+        -------
+        cosmo_array
+            The rounded array.
+        """
+        return np.around(self, decimals=decimals, out=out)
+
     def searchsorted(
         self, v: object, side: str = "left", sorter: object | None = None
     ) -> np.ndarray:
-- 
2.43.0


From 68212aa971b2e3e4e958aa85fdedb19c1ef475db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 74/80] fix: refuse exponents that differ by element for values
 that scale with a

---
 swiftsimio/_array_functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index df48967..4949a81 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -560,6 +560,13 @@ def _power_cosmo_factor(
         raise ValueError("Exponent has scaling with scale factor != 1.")
     if cf1 is None:
         return None
+    if np.ndim(power) > 0:
+        if cf1.expr is None or cf1.expr == 1:
+            return cf1  # whatever the exponents
+        powers = np.unique(power)
+        if powers.size != 1:
+            raise ValueError("Elements of the result would have differing cosmo_factors.")
+        power = powers[0]
     return np.power(cf1, power)
 
 
-- 
2.43.0


From f0a64d0472e9d1712f06480af3654931d6349c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 75/80] fix: refuse rows beyond the end in constrain_indices

---
 swiftsimio/masks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index b338990..00d3e50 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -965,6 +965,12 @@ class SWIFTMask(HandleProvider):
         else:
             sorted_indices = np.asarray(indices)
         for mask in self.update_list:
+            n_rows = getattr(self, f"{mask}_size")  # nothing is constrained yet
+            if np.any(sorted_indices >= n_rows):
+                raise IndexError(
+                    f"Cannot constrain to row {sorted_indices[-1]}, there are {n_rows} "
+                    "rows."
+                )
             if self.range_mask:
                 setattr(self, mask, ranges_from_array(sorted_indices))
                 setattr(self, f"{mask}_size", len(indices))
-- 
2.43.0


From ccc2831771d889142512ba1a09e179f08b8de4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 76/80] fix: label the singular values of a full decomposition

---
 swiftsimio/_array_functions.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4949a81..44d8241 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1439,9 +1439,22 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+@implements(np.linalg.svd)
+def linalg_svd(  # noqa: ANN202
+    a,  # noqa: ANN001
+    full_matrices=True,  # noqa: ANN001
+    compute_uv=True,  # noqa: ANN001
+    hermitian=False,  # noqa: ANN001
+):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(
+        a, full_matrices=full_matrices, compute_uv=compute_uv, hermitian=hermitian
+    )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    ress = unyt_linalg_svd(*helper_result["args"], **helper_result["kwargs"])
+    if not compute_uv:
+        return _return_helper(ress, helper_result, ret_cf)
+    # the singular values are the only ones with units
+    return (ress[0], _return_helper(ress[1], helper_result, ret_cf), ress[2])
 
 
 @implements(np.histogram)
-- 
2.43.0


From e5cb89c5201dce72199abfa583a466174d21861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 77/80] fix: refuse bins for another number of dimensions in
 histogramdd

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 44d8241..373d6c9 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1622,7 +1622,7 @@ def histogramdd(  # noqa: ANN202
         bins = D * [bins]
     helper_results = [
         _prepare_array_func_args(s, bins=b, range=r)
-        for s, b, r in zip(sample, bins, ranges)
+        for s, b, r in zip(sample, bins, ranges, strict=True)
     ]
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
-- 
2.43.0


From e7ec085cbe492c06880438c6f6ab475cec065eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 78/80] fix: keep coordinates just below zero inside the
 periodic nearest neighbour tree

---
 .../visualisation/slice_backends/nearest_neighbours.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/slice_backends/nearest_neighbours.py b/swiftsimio/visualisation/slice_backends/nearest_neighbours.py
index a196a2c..339b5cd 100644
--- a/swiftsimio/visualisation/slice_backends/nearest_neighbours.py
+++ b/swiftsimio/visualisation/slice_backends/nearest_neighbours.py
@@ -60,7 +60,10 @@ def build_tree(
         if box_z != 0:
             z = z % box_z
         data = np.stack((x, y, z), axis=1)
-        return KDTree(data, boxsize=[box_x, box_y, box_z])
+        boxsize = np.array([box_x, box_y, box_z])
+        # the remainder of tiny negative values is rounded up to the box size itself
+        data[(boxsize != 0) & (data >= boxsize)] = 0.0
+        return KDTree(data, boxsize=boxsize)
     else:
         data = np.stack((x, y, z), axis=1)
         return KDTree(data)
-- 
2.43.0


From 56969a0db4c78697cffd62714c411aeb6c84c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 79/80] fix: refused in-place conversions of frame leave the
 units as they were

---
 swiftsimio/objects.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index e0b5848..1361329 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1600,12 +1600,13 @@ class cosmo_array(unyt_array):
             If the provided ``units`` does not have the same dimensions as the array and
             cannot be converted via a provided ``equivalence``.
         """
+        # refuse before anything is changed
+        if self.comoving is None or not (self.comoving or self.valid_transform):
+            raise InvalidConversionError
         if units is not None:
             self.convert_to_units(units, equivalence=equivalence, **kwargs)
         if self.comoving:
             return
-        if not self.valid_transform or self.comoving is None:
-            raise InvalidConversionError
         # Best to just modify values as otherwise we're just going to have
         # to do a convert_to_units anyway.
         values = self.d
@@ -1648,11 +1649,12 @@ class cosmo_array(unyt_array):
             If the provided ``units`` does not have the same dimensions as the array and
             cannot be converted via a provided ``equivalence``.
         """
-        if units is not None:
-            self.convert_to_units(units, equivalence=equivalence, **kwargs)
+        # refuse before anything is changed
         if self.comoving is None:
             raise InvalidConversionError
-        elif not self.comoving:
+        if units is not None:
+            self.convert_to_units(units, equivalence=equivalence, **kwargs)
+        if not self.comoving:
             return
         else:  # self.comoving
             # Best to just modify values as otherwise we're just going to have
-- 
2.43.0


From f4e1405ba190af708d044ed8196dc44304f6f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 80/80] fix: refuse secondary operands that scale differently
 (bins, interpolation points, fill and initial values)

---
 swiftsimio/_array_functions.py | 79 +++++++++++++++++++++++++++++++++-
 swiftsimio/objects.py          |  3 ++
 2 files changed, 81 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 373d6c9..ed6b5dc 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1024,6 +1024,55 @@ def _prepare_array_func_args(
     }
 
 
+def _check_cosmo_factors(
+    cf: "objects.cosmo_factor", *cfs: tuple["objects.cosmo_factor"]
+) -> None:
+    """
+    Check that secondary arguments of a function scale in the same way as the main one.
+
+    Arguments without a :class:`~swiftsimio.objects.cosmo_factor` are accepted.
+
+    Parameters
+    ----------
+    cf : swiftsimio.objects.cosmo_factor
+        :class:`~swiftsimio.objects.cosmo_factor` of the main argument.
+
+    *cfs : swiftsimio.objects.cosmo_factor
+        The :class:`~swiftsimio.objects.cosmo_factor`s of the other arguments.
+
+    Raises
+    ------
+    ValueError
+        If one of the :class:`~swiftsimio.objects.cosmo_factor`s differs from the first.
+    """
+    for other in cfs:
+        if cf is not None and other is not None and cf != other:
+            raise ValueError(
+                f"Arguments have cosmo_factors that differ: {cf} and {other}."
+            )
+
+
+def _check_bins(cf: "objects.cosmo_factor", bins: Any, range: Any) -> None:
+    """
+    Check that the bins of a histogram scale in the same way as the data.
+
+    Parameters
+    ----------
+    cf : swiftsimio.objects.cosmo_factor
+        :class:`~swiftsimio.objects.cosmo_factor` of the data.
+
+    bins : Any
+        The bins, if they are edges these can be a :class:`~swiftsimio.objects.cosmo_array`.
+
+    range : Any
+        The range, often a pair of :class:`~swiftsimio.objects.cosmo_quantity`.
+    """
+    limits = () if range is None else tuple(range)
+    _check_cosmo_factors(
+        cf, *(getattr(arg, "cosmo_factor", None) for arg in (bins, *limits))
+    )
+
+
 def _match_comoving(source: Any, destination: Any) -> Any:
     """
     Get the values of a source array in the frame of a destination array.
@@ -1420,6 +1469,7 @@ def histogram_bin_edges(  # noqa: ANN202
     helper_result["kwargs"]["range"] = _coerce_range(
         helper_result["kwargs"]["range"], helper_result["comoving"]
     )
+    _check_bins(helper_result["cfs"][0], bins, range)
     if not isinstance(bins, str) and np.ndim(bins) == 1:
         # we got bin edges as input
         ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
@@ -1471,6 +1521,7 @@ def histogram(  # noqa: ANN202
     helper_result["kwargs"]["range"] = _coerce_range(
         helper_result["kwargs"]["range"], helper_result["comoving"]
     )
+    _check_bins(helper_result["cfs"][0], bins, range)
     ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
     ret_cf_dens = _reciprocal_cosmo_factor(helper_result["cfs"][0])
     counts, bins = unyt_histogram(*helper_result["args"], **helper_result["kwargs"])
@@ -1515,6 +1566,8 @@ def histogram2d(  # noqa: ANN202
         xbins, ybins = bins
     helper_result_x = _prepare_array_func_args(x, bins=xbins, range=xrange)
     helper_result_y = _prepare_array_func_args(y, bins=ybins, range=yrange)
+    _check_bins(helper_result_x["cfs"][0], xbins, xrange)
+    _check_bins(helper_result_y["cfs"][0], ybins, yrange)
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
         ret_cf_x = _preserve_cosmo_factor(helper_result_x["cfs"][0])
@@ -1624,6 +1677,8 @@ def histogramdd(  # noqa: ANN202
         _prepare_array_func_args(s, bins=b, range=r)
         for s, b, r in zip(sample, bins, ranges, strict=True)
     ]
+    for helper_result, b, r in zip(helper_results, bins, ranges):
+        _check_bins(helper_result["cfs"][0], b, r)
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
         ret_cfs = [
@@ -1975,7 +2030,17 @@ def linalg_det(a):  # noqa numpydoc ignore=GL08
 
 
 implements(np.diff)(_default_unary_wrapper(unyt_diff, _preserve_cosmo_factor))
-implements(np.ediff1d)(_default_unary_wrapper(unyt_ediff1d, _preserve_cosmo_factor))
+
+
+@implements(np.ediff1d)
+def ediff1d(ary, to_end=None, to_begin=None):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(ary, to_end=to_end, to_begin=to_begin)
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    _check_cosmo_factors(ret_cf, *helper_result["kw_cfs"].values())
+    res = unyt_ediff1d(*helper_result["args"], **helper_result["kwargs"])
+    return _return_helper(res, helper_result, ret_cf)
+
+
 implements(np.ptp)(_default_unary_wrapper(unyt_ptp, _preserve_cosmo_factor))
 # implements(np.cumprod)(...) Omitted because unyt just raises if called.
 
@@ -1986,6 +2051,9 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
     # the number of options is huge, including user defined functions to handle data
     # let's just preserve the cosmo_factor of the input `array` and trust the user...
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    _check_cosmo_factors(
+        ret_cf, *(helper_result["kw_cfs"].get(k) for k in ("constant_values", "end_values"))
+    )
     res = unyt_pad(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
@@ -2174,6 +2242,7 @@ implements(np.searchsorted)(
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(*choicelist, default=default)
     ret_cf = _preserve_cosmo_factor(*helper_result["cfs"])
+    _check_cosmo_factors(ret_cf, helper_result["kw_cfs"]["default"])
     res = unyt_select(condlist, helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
@@ -2310,6 +2379,14 @@ def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc igno
         x, xp, fp, left=left, right=right, period=period
     )
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][2])
+    _check_cosmo_factors(
+        helper_result["cfs"][1],
+        helper_result["cfs"][0],
+        helper_result["kw_cfs"]["period"],
+    )
+    _check_cosmo_factors(
+        ret_cf, helper_result["kw_cfs"]["left"], helper_result["kw_cfs"]["right"]
+    )
     res = unyt_interp(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 1361329..f0fb8a8 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -106,6 +106,7 @@ from ._array_functions import (
     _propagate_cosmo_array_attributes_of_conversion,
     _propagate_cosmo_array_attributes_to_result,
     _ensure_result_is_cosmo_array_or_quantity,
+    _check_cosmo_factors,
     _copy_cosmo_array_attributes_if_present,
     _sqrt_cosmo_factor,
     _multiply_cosmo_factor,
@@ -2364,6 +2365,8 @@ class cosmo_array(unyt_array):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
+            # reductions can start from an initial value
+            _check_cosmo_factors(ret_cf, helper_result["kw_cfs"].get("initial"))
 
         if ufunc is power and method == "__call__":
             base, exponent = helper_result["args"][:2]
-- 
2.43.0

