From 2da138732f6987ee54376f5c6eaf5dde0baaf1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 01/39] fix: do not report a field lost to an I/O error as
 absent

h5py raises KeyError when an I/O error interrupts an object lookup. The lazy
getter swallowed every KeyError, printed 'Could not read' and returned None, so a
transient read error looked like a missing field. Test for absence explicitly and
let errors reach the caller.
---
 swiftsimio/reader.py | 113 ++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 55 deletions(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..abb9741 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -126,63 +126,66 @@ def _generate_getter(
             return current_value
         else:
             with self.open_file() as handle:
-                try:
-                    attributes = handle[field].attrs
-                    unit = _load_field_units(attributes, self.metadata.units)
-                    cf = _load_field_cosmo_factor(attributes, self.metadata)
-                    description = _load_field_description(attributes)
-                    compression = _load_field_compression(attributes)
-                    physical = _load_field_physical(attributes)
-                    valid_transform = _load_field_valid_transform(attributes)
-                    if mask is not None:
-                        output_type = handle[field].dtype
-                        output_shape = (
-                            (mask_size, handle[field].shape[1])
-                            if handle[field].ndim > 1 and not use_columns
-                            else mask_size
-                        )
-                        setattr(
-                            self,
-                            f"_{name}",
-                            cosmo_array(
-                                read_ranges_from_file(
-                                    handle[field],
-                                    mask,
-                                    output_shape=output_shape,
-                                    output_type=output_type,
-                                    columns=columns,
-                                ),
-                                unit,
-                                cosmo_factor=cf,
-                                name=description,
-                                compression=compression,
-                                comoving=not physical,
-                                valid_transform=valid_transform,
-                            ),
-                        )
-                    else:
-                        setattr(
-                            self,
-                            f"_{name}",
-                            cosmo_array(
-                                # Only use column data if array is multidimensional,
-                                # otherwise we will crash here
-                                (
-                                    handle[field][:, columns]
-                                    if handle[field].ndim > 1
-                                    else handle[field][:]
-                                ),
-                                unit,
-                                cosmo_factor=cf,
-                                name=f"{description} [Column {column_index}, {name}]",
-                                compression=compression,
-                                comoving=not physical,
-                                valid_transform=valid_transform,
-                            ),
-                        )
-                except KeyError:
+                # Only a field that really is absent from the file may be reported as
+                # such: h5py also raises KeyError when an I/O error interrupts the
+                # lookup, and that must reach the caller.
+                if field not in handle:
                     print(f"Could not read {field}")
                     return None
+                dataset = handle[field]
+                attributes = dataset.attrs
+                unit = _load_field_units(attributes, self.metadata.units)
+                cf = _load_field_cosmo_factor(attributes, self.metadata)
+                description = _load_field_description(attributes)
+                compression = _load_field_compression(attributes)
+                physical = _load_field_physical(attributes)
+                valid_transform = _load_field_valid_transform(attributes)
+                if mask is not None:
+                    output_type = dataset.dtype
+                    output_shape = (
+                        (mask_size, dataset.shape[1])
+                        if dataset.ndim > 1 and not use_columns
+                        else mask_size
+                    )
+                    setattr(
+                        self,
+                        f"_{name}",
+                        cosmo_array(
+                            read_ranges_from_file(
+                                dataset,
+                                mask,
+                                output_shape=output_shape,
+                                output_type=output_type,
+                                columns=columns,
+                            ),
+                            unit,
+                            cosmo_factor=cf,
+                            name=description,
+                            compression=compression,
+                            comoving=not physical,
+                            valid_transform=valid_transform,
+                        ),
+                    )
+                else:
+                    setattr(
+                        self,
+                        f"_{name}",
+                        cosmo_array(
+                            # Only use column data if array is multidimensional,
+                            # otherwise we will crash here
+                            (
+                                dataset[:, columns]
+                                if dataset.ndim > 1
+                                else dataset[:]
+                            ),
+                            unit,
+                            cosmo_factor=cf,
+                            name=f"{description} [Column {column_index}, {name}]",
+                            compression=compression,
+                            comoving=not physical,
+                            valid_transform=valid_transform,
+                        ),
+                    )
 
         return getattr(self, f"_{name}")
 
-- 
2.43.0


From 7c1e409853ed6773683f7c4c00d834189e2b1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 02/39] fix: return the value just read, not whatever the
 attribute now holds

The lazy getter stored the array on the dataset and then returned the attribute
again; a del of the same field from another thread in between made a successful
read return None.
---
 swiftsimio/reader.py | 62 +++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index abb9741..966addf 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -147,47 +147,37 @@ def _generate_getter(
                         if dataset.ndim > 1 and not use_columns
                         else mask_size
                     )
-                    setattr(
-                        self,
-                        f"_{name}",
-                        cosmo_array(
-                            read_ranges_from_file(
-                                dataset,
-                                mask,
-                                output_shape=output_shape,
-                                output_type=output_type,
-                                columns=columns,
-                            ),
-                            unit,
-                            cosmo_factor=cf,
-                            name=description,
-                            compression=compression,
-                            comoving=not physical,
-                            valid_transform=valid_transform,
+                    value = cosmo_array(
+                        read_ranges_from_file(
+                            dataset,
+                            mask,
+                            output_shape=output_shape,
+                            output_type=output_type,
+                            columns=columns,
                         ),
+                        unit,
+                        cosmo_factor=cf,
+                        name=description,
+                        compression=compression,
+                        comoving=not physical,
+                        valid_transform=valid_transform,
                     )
                 else:
-                    setattr(
-                        self,
-                        f"_{name}",
-                        cosmo_array(
-                            # Only use column data if array is multidimensional,
-                            # otherwise we will crash here
-                            (
-                                dataset[:, columns]
-                                if dataset.ndim > 1
-                                else dataset[:]
-                            ),
-                            unit,
-                            cosmo_factor=cf,
-                            name=f"{description} [Column {column_index}, {name}]",
-                            compression=compression,
-                            comoving=not physical,
-                            valid_transform=valid_transform,
-                        ),
+                    value = cosmo_array(
+                        # Only use column data if array is multidimensional,
+                        # otherwise we will crash here
+                        (dataset[:, columns] if dataset.ndim > 1 else dataset[:]),
+                        unit,
+                        cosmo_factor=cf,
+                        name=f"{description} [Column {column_index}, {name}]",
+                        compression=compression,
+                        comoving=not physical,
+                        valid_transform=valid_transform,
                     )
 
-        return getattr(self, f"_{name}")
+        setattr(self, f"_{name}", value)
+        # Do not go through the attribute again: another thread may have deleted it.
+        return value
 
     return getter
 
-- 
2.43.0


From c30e9c42ae3b3d38b54d3ba476af347d148f05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 03/39] fix: an I/O error while reading metadata is not absent
 metadata

h5py raises KeyError when an I/O error interrupts an object lookup. The metadata
readers took every KeyError to mean that the optional group was not in the file, so
a transient error silently dropped, for example, the cosmology or the named columns
from an otherwise successful load.
---
 swiftsimio/metadata/objects.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/swiftsimio/metadata/objects.py b/swiftsimio/metadata/objects.py
index 4fcdc16..16b89f7 100644
--- a/swiftsimio/metadata/objects.py
+++ b/swiftsimio/metadata/objects.py
@@ -144,6 +144,9 @@ class SWIFTMetadata(HandleProvider, ABC):
             try:
                 setattr(self, name, dict(self.handle[field].attrs))
             except KeyError:
+                # h5py also raises KeyError if an I/O error interrupts the lookup
+                if field in self.handle:
+                    raise
                 setattr(self, name, None)
 
         return
@@ -335,6 +338,8 @@ class SWIFTMetadata(HandleProvider, ABC):
                 self.handle["SubgridScheme/PhotonGroupEdges"][:] / self.units.time
             )
         except KeyError:
+            if "SubgridScheme/PhotonGroupEdges" in self.handle:
+                raise  # an I/O error
             self.photon_group_edges = None
 
         # get reduced speed of light RT dataset from the SubgridScheme group
@@ -345,6 +350,8 @@ class SWIFTMetadata(HandleProvider, ABC):
                 / self.units.time
             )
         except KeyError:
+            if "SubgridScheme/ReducedLightspeed" in self.handle:
+                raise  # an I/O error
             self.reduced_lightspeed = None
 
         # Store these separately as self.n_gas = number of gas particles for example
@@ -921,6 +928,8 @@ class SWIFTSnapshotMetadata(SWIFTMetadata):
                 k: [x.decode("utf-8") for x in data[k][:]] for k in data.keys()
             }
         except KeyError:
+            if "SubgridScheme/NamedColumns" in self.handle:
+                raise  # an I/O error
             self.named_columns = {}
 
         return
@@ -943,6 +952,8 @@ class SWIFTSnapshotMetadata(SWIFTMetadata):
                 self.handle[f"SubgridScheme/{key}"][:] for key in available_keys
             ]
         except KeyError:
+            if "SubgridScheme" in self.handle:
+                raise  # an I/O error
             available_keys = []
             available_data = []
 
-- 
2.43.0


From 996e0141972ff1d2f3b28da0716d3e40ac84e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 04/39] fix: keep the cosmology metadata when an array is
 squeezed to a scalar

cosmo_array.squeeze() of a one-element array returned a cosmo_quantity with comoving
and cosmo_factor unset, so the line-of-sight xpos/ypos/zpos attributes were read
without either.
---
 swiftsimio/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..f9c07e3 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1400,7 +1400,9 @@ class cosmo_array(unyt_array):
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From 03dcbddc6e3b1e43cf9941f95e8f72a9f5f13739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 05/39] fix: sort cells in file order also when some are empty
 for one particle type

The order of the cells was taken from the offsets of the first particle type
alone. With cells distributed over MPI ranks and empty for that type, the
offsets of the sorted cells were not ascending, and chunked masked reads and
subset cell counts were wrong.
---
 swiftsimio/masks.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..a84c0d8 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -379,24 +379,20 @@ class SWIFTMask(HandleProvider):
             self.maxpositions["shared"] = (
                 centers_values + (pad_cells + 0.5) * metadata_handle.attrs["size"]
             )
-        # Only want to compute this once (even if it is fast, we do not
-        # have a reliable stable sort in the case where cells do not
-        # contain at least one of each type of particle).
-        self.cell_sort = None
+        # When using MPI, we cannot assume that the cells are sorted. Recover their order
+        # in the file, that is common to all particle types. Cells that are empty for one
+        # type have the same offset as the next cell, so the offsets of a single type
+        # don't determine the order of the others: use every type, and break remaining
+        # ties with the end of each cell (then the order as given).
+        sort_keys = [self.offsets[key] for key in self.offsets]
+        sort_keys += [self.offsets[key] + self.counts[key] for key in self.offsets]
+        sort_keys += [np.arange(len(centers_values))]
+        self.cell_sort = np.lexsort(sort_keys[::-1])  # primary key is last
 
         # Now perform sort:
         for key in self.offsets.keys():
-            offsets = self.offsets[key]
-            counts = self.counts[key]
-
-            # When using MPI, we cannot assume that these are sorted.
-            if self.cell_sort is None:
-                # Only compute once; not stable between particle
-                # types if some datasets do not have particles in a cell!
-                self.cell_sort = np.argsort(offsets, stable=True)
-
-            self.offsets[key] = offsets[self.cell_sort]
-            self.counts[key] = counts[self.cell_sort]
+            self.offsets[key] = self.offsets[key][self.cell_sort]
+            self.counts[key] = self.counts[key][self.cell_sort]
 
         # Also need to sort centers in the same way
         self.centers = cosmo_array(
-- 
2.43.0


From 2ce528a607ef2f65f09da23b3121fcdfcabe9cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 06/39] fix: convert chunked data to native byte order before
 passing it to numba

Masked reads of chunked datasets stored in the other byte order failed with a
numba TypingError.
---
 swiftsimio/accelerated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..dbe1e6e 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -417,12 +417,12 @@ def read_ranges_from_file_chunked(
 
         already_read += size_of_range
 
+    # Ensure that we have a native endian type (numba does not support others)
+    to_native_byteorder_inplace(output)
+
     if handle.chunks is not None:
         output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
 
-    # Ensure the result is a native endian type
-    to_native_byteorder_inplace(output)
-
     return output
 
 
-- 
2.43.0


From 09e8f53a1a12fe60f1a732574da183a1a346eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 07/39] fix: compare with property mask bounds in the units of
 the data

The comparison operators were reflected to the bounds and converted single
precision data to the units of the bounds. Masses in 1e10 Msun compared with a
bound in kg overflowed, so everything or nothing was selected.
---
 swiftsimio/masks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index a84c0d8..444a93e 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -545,7 +545,12 @@ class SWIFTMask(HandleProvider):
             cosmo_factor=cf,
         )
 
-        new_mask = np.logical_and.reduce([data > lower, data <= upper])
+        # Use the functions because the `data > lower` operator gets reflected to convert
+        # the data to the units of the bounds (`cosmo_quantity` is a subclass): this can
+        # overflow in single precision. We want the bounds converted to the data units.
+        new_mask = np.logical_and.reduce(
+            [np.greater(data, lower), np.less_equal(data, upper)]
+        )
         current_mask[current_mask] = new_mask
         setattr(self, data_name, current_mask)
 
-- 
2.43.0


From 9e8e66ff08012971ff1edf7164dac1f72c2c9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 08/39] fix: extend boolean masks when taking the union of
 spatial constraints

After convert_masks_to_bool a union could only remove rows, so the rows of the
additional region that were outside the first one were not selected.
---
 swiftsimio/masks.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 444a93e..1d11afc 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -664,10 +664,6 @@ class SWIFTMask(HandleProvider):
     def _update_range_masks(self) -> None:
         """
         Update the particle masks using the cell masks.
-
-        We actually overwrite all non-used cells with ``False``, rather than the
-        inverse, as we assume initially that we want to read all particles in,
-        and we want to respect other masks that may have been applied to the data.
         """
         for data_name in self.update_list:
             count_name = data_name[1:]  # Remove the underscore
@@ -682,18 +678,17 @@ class SWIFTMask(HandleProvider):
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-                counts = self.counts[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-                offsets = self.offsets[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
+                counts = self.counts[count_name][self.cell_mask[count_name]]
+                offsets = self.offsets[count_name][self.cell_mask[count_name]]
 
-                # We must do the whole boolean mask business.
+                # We must do the whole boolean mask business. There can't be any other
+                # constraints to respect (these prevent further spatial constraints), and
+                # a union can select rows that were not selected before.
                 this_mask = getattr(self, data_name)
+                this_mask[...] = False
 
                 for count, offset in zip(counts, offsets):
-                    this_mask[offset : count + offset] = False
+                    this_mask[offset : count + offset] = True
 
         return
 
-- 
2.43.0


From 4fa025d2f2d15a2f93534090a4cec1e023b4d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 09/39] fix: refuse row indices that are out of range when
 constraining a mask

An index beyond the end or a negative index was accepted, and reading through
the mask could return uninitialised memory. Tuples of indices now also work
with boolean masks.
---
 swiftsimio/masks.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 1d11afc..627262c 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -937,13 +937,22 @@ class SWIFTMask(HandleProvider):
             sorted_indices = np.sort(indices)
         else:
             sorted_indices = np.asarray(indices)
+        number_of_rows = getattr(
+            self.metadata, f"n_{self.metadata.shared_cell_counts.lower()}"
+        )
+        if sorted_indices.size > 0 and (
+            sorted_indices[0] < 0 or sorted_indices[-1] >= number_of_rows
+        ):
+            raise IndexError(
+                f"Row indices must be between 0 and {number_of_rows - 1} (inclusive)."
+            )
         for mask in self.update_list:
             if self.range_mask:
                 setattr(self, mask, ranges_from_array(sorted_indices))
                 setattr(self, f"{mask}_size", len(indices))
             else:
                 comparison_array = np.zeros(getattr(self, mask).size, dtype=bool)
-                comparison_array[indices] = True
+                comparison_array[np.asarray(indices, dtype=int)] = True
                 setattr(
                     self, mask, np.logical_and(getattr(self, mask), comparison_array)
                 )
-- 
2.43.0


From 9c520343c2020cf9a0f9d7b0fc45545c315b79bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 10/39] fix: write subsets of empty datasets and of datasets
 with one column

The shape of the output was worked out from the first row, which an empty
dataset does not have and which for an (N, 1) dataset gives (N,).
---
 swiftsimio/subset_writer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..9ebb0e8 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -351,13 +351,9 @@ def _write_datasubset(
                 continue
 
             # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size,) + infile[name].shape[1:]
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From 0e84560f94fd4c58ff1eaa88a1b8aac2c082efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 11/39] fix: preserve soft links inside groups when writing a
 subset

The links found by the recursive calls were thrown away, so such links were
written as copies of the data they point to.
---
 swiftsimio/subset_writer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 9ebb0e8..d440c03 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -181,7 +181,9 @@ def _find_links(
             link_paths.append(dataset.path)
         elif getattr(input_file[subpath], "keys", lambda: None)() is not None:
             # has `keys` so it's not a Dataset
-            _find_links(input_file, link_names, link_paths, subpath)
+            sub_names, sub_paths = _find_links(input_file, path=subpath)
+            link_names.extend(sub_names)
+            link_paths.extend(sub_paths)
 
     return link_names, link_paths
 
@@ -388,7 +390,9 @@ def _connect_links(
         List of paths specifying how to link each soft link.
     """
     for i in range(len(links_list)):
-        outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
+        # it already exists if it was copied with its group
+        if outfile.get(links_list[i], getlink=True) is None:
+            outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
 
 
 def write_subset(
-- 
2.43.0


From 27b696ba1cb7a44b5a4915fe93816b96c13af00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 12/39] fix: compare whole path components when choosing what a
 subset copies

A dataset or group was left out of the subset if its path merely contained
the name of a link, a data group, or one of "Cells", "SubgridScheme" and
"PartTypeNames"; a dataset in any other metadata group made the write fail.
---
 swiftsimio/subset_writer.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index d440c03..63e6822 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -32,6 +32,27 @@ def _get_swift_name(name: str) -> str:
     return part_type_names[part_types.index(name)]
 
 
+def _is_within(name: str, parents: list[str]) -> bool:
+    """
+    Check if an object is one of, or inside one of, some objects in the file.
+
+    Parameters
+    ----------
+    name : str
+        The path of the object in the file.
+
+    parents : list[str]
+        The paths of the objects to compare with.
+
+    Returns
+    -------
+    bool
+        ``True`` if ``name`` is one of ``parents`` or is contained in one of them.
+    """
+    name = name.strip("/")
+    return any(name == parent or name.startswith(f"{parent}/") for parent in parents)
+
+
 def _get_dataset_mask(mask: SWIFTMask, dataset_name: str) -> np.ndarray | None:
     """
     Return appropriate mask for given dataset.
@@ -278,7 +299,7 @@ def _write_metadata(
     skip_list += ["Cells"]
     skip_list += set(group.split("/")[0] for group in mask.metadata.present_groups)
     for field in infile.keys():
-        if not any([substr for substr in skip_list if substr in field]):
+        if not _is_within(field, skip_list):
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
             output_type = infile[field].attrs.get("OutputType", "FullVolume")
@@ -345,11 +366,10 @@ def _write_datasubset(
     links_list : list
         Names of links found in the snapshot.
     """
-    skip_list = links_list.copy()
-    skip_list.extend(["Cells", "SubgridScheme", "PartTypeNames"])
+    groups = list(set(group.split("/")[0] for group in mask.metadata.present_groups))
     if mask is not None:
         for name in dataset_names:
-            if any([substr for substr in skip_list if substr in name]):
+            if _is_within(name, links_list) or not _is_within(name, groups):
                 continue
 
             # get output dtype and size
-- 
2.43.0


From f36e3c47d4270670b31510e34afed95e67bc24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 13/39] fix: notice when the data of a subset could not be
 written

Small datasets are buffered by HDF5 and written when the dataset is closed;
an error at that point is not reported, and the subset held zeros.
---
 swiftsimio/subset_writer.py | 43 ++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 63e6822..5c21ee4 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -209,6 +209,32 @@ def _find_links(
     return link_names, link_paths
 
 
+def _write_dataset(outfile: h5py.File, name: str, data: np.ndarray) -> None:
+    """
+    Write a dataset to a file, or replace its data if it is already there.
+
+    The data of small datasets are only buffered by HDF5 until the dataset is closed, and
+    an error that happens then goes unnoticed, so flush them while the dataset is open.
+
+    Parameters
+    ----------
+    outfile : h5py.File
+        File handle to write to.
+
+    name : str
+        The path of the dataset in the file.
+
+    data : np.ndarray
+        The data to write.
+    """
+    if name in outfile:
+        dataset = outfile[name]
+        dataset[...] = data
+    else:
+        dataset = outfile.create_dataset(name, data=data)
+    dataset.flush()
+
+
 def _update_metadata_counts(
     infile: h5py.File, outfile: h5py.File, mask: SWIFTMask
 ) -> None:
@@ -241,22 +267,23 @@ def _update_metadata_counts(
     for part_type in particle_counts:
         for dset in counts_dsets:
             if mask.metadata.shared_cell_counts:
-                outfile[dset] = particle_counts[part_type]
+                _write_dataset(outfile, dset, particle_counts[part_type])
             elif _get_swift_name(part_type) in dset:
-                outfile[dset] = particle_counts[part_type]
+                _write_dataset(outfile, dset, particle_counts[part_type])
 
     # Loop over each particle type in the cells and update their offsets
     offsets_dsets = _find_datasets(infile, path=offsets_path)
     for part_type in particle_offsets:
         for dset in offsets_dsets:
             if mask.metadata.shared_cell_counts:
-                outfile[dset] = particle_offsets[part_type]
+                _write_dataset(outfile, dset, particle_offsets[part_type])
             elif _get_swift_name(part_type) in dset:
-                outfile[dset] = particle_offsets[part_type]
+                _write_dataset(outfile, dset, particle_offsets[part_type])
 
     # Copy the cell centres and metadata
     infile.copy("/Cells/Centres", outfile, name="/Cells/Centres")
-    outfile["/Cells/Centres"][...] = outfile["/Cells/Centres"][...][mask.cell_sort,]
+    centres = outfile["/Cells/Centres"][...][mask.cell_sort,]
+    _write_dataset(outfile, "/Cells/Centres", centres)
     infile.copy("/Cells/Meta-data", outfile, name="/Cells/Meta-data")
     if (
         "MinPositions" in infile["/Cells"].keys()
@@ -265,9 +292,9 @@ def _update_metadata_counts(
         infile.copy("/Cells/MinPositions", outfile, name="/Cells/MinPositions")
         infile.copy("/Cells/MaxPositions", outfile, name="/Cells/MaxPositions")
         for k, v in outfile["/Cells/MinPositions"].items():
-            outfile[f"/Cells/MinPositions/{k}"][...] = v[...][mask.cell_sort,]
+            _write_dataset(outfile, f"/Cells/MinPositions/{k}", v[...][mask.cell_sort,])
         for k, v in outfile["/Cells/MaxPositions"].items():
-            outfile[f"/Cells/MaxPositions/{k}"][...] = v[...][mask.cell_sort,]
+            _write_dataset(outfile, f"/Cells/MaxPositions/{k}", v[...][mask.cell_sort,])
 
 
 def _write_metadata(
@@ -387,7 +414,7 @@ def _write_datasubset(
             )
 
             # Write the subset
-            outfile.create_dataset(name, data=subset)
+            _write_dataset(outfile, name, subset)
             for attr_name, attr_value in infile[name].attrs.items():
                 outfile[name].attrs.create(attr_name, attr_value)
 
-- 
2.43.0


From c2cd44860a1fa638aa962c8d0f87787e826fe28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:49 +0000
Subject: [PATCH 14/39] fix: remove the incomplete output when writing a subset
 fails

It was left behind as a file that opens as a dataset, with fields missing.
---
 swiftsimio/subset_writer.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 5c21ee4..c73a8f1 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -5,6 +5,7 @@ from swiftsimio.accelerated import read_ranges_from_file
 from swiftsimio._file_utils import is_dataset, is_soft_link
 import swiftsimio.metadata as metadata
 
+from pathlib import Path
 import h5py
 import numpy as np
 
@@ -475,9 +476,18 @@ def write_subset(
     # Open the files
     mask.convert_masks_to_ranges()
     infile: h5py.File
-    with mask.metadata.open_file() as infile, h5py.File(output_file, "w") as outfile:
-        # Write metadata and data subset
-        list_of_links, list_of_link_paths = _find_links(infile)
-        _write_metadata(infile, outfile, list_of_links, mask)
-        _write_datasubset(infile, outfile, mask, _find_datasets(infile), list_of_links)
-        _connect_links(outfile, list_of_links, list_of_link_paths)
+    with mask.metadata.open_file() as infile:
+        outfile = h5py.File(output_file, "w")
+        try:
+            with outfile:
+                # Write metadata and data subset
+                list_of_links, list_of_link_paths = _find_links(infile)
+                _write_metadata(infile, outfile, list_of_links, mask)
+                _write_datasubset(
+                    infile, outfile, mask, _find_datasets(infile), list_of_links
+                )
+                _connect_links(outfile, list_of_links, list_of_link_paths)
+        except BaseException:
+            # an incomplete file could be mistaken for a subset
+            Path(output_file).unlink(missing_ok=True)
+            raise
-- 
2.43.0


From b76eefe72d6e6c8693d46156421568413dd1192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 15/39] fix: write the scale exponent of quantities that don't
 depend on scale factor

The expression of their cosmo_factor is 1, which has no exponent: 1.0 was
written instead of 0.0, e.g. for the masses.
---
 swiftsimio/snapshot_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..01ad01b 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -6,12 +6,12 @@ import numpy as np
 from warnings import warn
 
 from typing import Callable
-from sympy import Symbol
+from sympy import Symbol, sympify
 from functools import reduce
 
 from swiftsimio import metadata
 from swiftsimio.metadata.writer.unit_systems import cosmo_units
-from swiftsimio.objects import cosmo_array
+from swiftsimio.objects import a, cosmo_array
 
 
 def _ptype_str_to_int(ptype_str: str) -> int:
@@ -272,7 +272,7 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    float(sympify(field.cosmo_factor.expr).as_powers_dict()[a])
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From d87d6eeb3d916a330cd8870027ba672ef5e19dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 16/39] fix: write the box size in comoving coordinates

A box size given in physical coordinates was written as it is, but is
comoving by definition in the file (and when it is read back).
---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 01ad01b..cf83c65 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -684,6 +684,8 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if getattr(self.boxsize, "comoving", None) is False:
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From 971f2c749978ef8861ff6e0ab4240e2dde86c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 17/39] fix: notice when the data of a snapshot could not be
 written

Small datasets are buffered by HDF5 and written when the dataset is closed;
an error at that point is not reported, and the snapshot held zeros.
---
 swiftsimio/snapshot_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index cf83c65..52ed087 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -200,9 +200,12 @@ class __SWIFTWriterParticleDataset(object):
             metadata.required_fields, self.particle_name
         ).items():
             output_handle = required_field_info["handle"]
-            particle_group.create_dataset(
+            dataset = particle_group.create_dataset(
                 output_handle, data=getattr(self, name), compression=compression
             )
+            # buffered data are otherwise written when the dataset is closed, and an
+            # error that happens then goes unnoticed
+            dataset.flush()
 
         return
 
-- 
2.43.0


From d7396125bbf9cf3dc7cfab877472a745a37f9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:53 +0000
Subject: [PATCH 18/39] fix: remove the incomplete output when writing a
 snapshot fails

It was left behind as a file that opens as a dataset, with fields missing.
---
 swiftsimio/snapshot_writer.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 52ed087..fd1bc4e 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -1,5 +1,6 @@
 """Provide utilities to create SWIFT files usable as initial conditions."""
 
+from pathlib import Path
 import unyt
 import h5py
 import numpy as np
@@ -890,14 +891,22 @@ class SWIFTSnapshotWriter(object):
                     "Particle IDs must be unique across all particle types."
                 )
 
-        with h5py.File(filename, "w") as handle:
-            self._write_metadata(handle, names_to_write)
+        handle = h5py.File(filename, "w")
+        try:
+            with handle:
+                self._write_metadata(handle, names_to_write)
 
-            self._write_units(handle)
+                self._write_units(handle)
 
-            for name in names_to_write:
-                getattr(self, name).write_particle_group(handle, compress=self.compress)
-                attrs = getattr(self, name).get_attributes()
-                getattr(self, name).write_particle_group_metadata(handle, attrs)
+                for name in names_to_write:
+                    getattr(self, name).write_particle_group(
+                        handle, compress=self.compress
+                    )
+                    attrs = getattr(self, name).get_attributes()
+                    getattr(self, name).write_particle_group_metadata(handle, attrs)
+        except BaseException:
+            # an incomplete file could be mistaken for a snapshot
+            Path(filename).unlink(missing_ok=True)
+            raise
 
         return
-- 
2.43.0


From 907e56041ad5c41d641664739d0f8b22fb9a64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 19/39] fix: allow particle types with no particles in the
 Writer

The write failed, after the output file had been replaced, because there is
no first particle to take the mass of.
---
 swiftsimio/snapshot_writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index fd1bc4e..20af437 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -774,10 +774,10 @@ class SWIFTSnapshotWriter(object):
 
         for number, name in metadata.particle_types.particle_name_underscores.items():
             if name in names_to_write:
-                number_of_particles[_ptype_str_to_int(number)] = getattr(
-                    self, name
-                ).n_part
-                mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[0]
+                dataset = getattr(self, name)
+                number_of_particles[_ptype_str_to_int(number)] = dataset.n_part
+                if dataset.n_part > 0:
+                    mass_table[_ptype_str_to_int(number)] = dataset.masses[0]
 
         attrs = {
             "BoxSize": self.boxsize,
-- 
2.43.0


From dbf20f9f3d2afc747c221b31e8524d998d5a58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:30 +0000
Subject: [PATCH 20/39] fix: write all fields of the Writer in its unit system

Arrays are converted in place when they are assigned. If such an array was
assigned to another Writer with other units as well, or converted in place
by the user, it was written in units that don't match those of the file.
---
 swiftsimio/snapshot_writer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 20af437..c4030e5 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -148,6 +148,22 @@ class __SWIFTWriterParticleDataset(object):
 
         return True
 
+    def convert_to_unit_system(self) -> None:
+        """
+        Convert the required fields to comoving quantities in the unit system to write.
+
+        This was done when they were assigned, but the arrays may since have been
+        converted in place, or assigned to another writer with other units.
+        """
+        for name, required_field_info in getattr(
+            metadata.required_fields, self.particle_name
+        ).items():
+            if required_field_info["dimensions"] != 1:
+                getattr(self, name).convert_to_base(self.unit_system)
+                getattr(self, name).convert_to_comoving()
+
+        return
+
     def generate_smoothing_lengths(self) -> None:
         """
         Generate smoothing lengths as 2 times the mean interparticle spacing.
@@ -891,6 +907,9 @@ class SWIFTSnapshotWriter(object):
                     "Particle IDs must be unique across all particle types."
                 )
 
+        for name in names_to_write:
+            getattr(self, name).convert_to_unit_system()
+
         handle = h5py.File(filename, "w")
         try:
             with handle:
-- 
2.43.0


From 4ae1b3ae16ffe702a4b2383a6e0ec57ae88f8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 21/39] fix: convert a mask only once when several threads load
 data with it

A second thread could find the masks partly converted and convert the ranges
once more as if they were boolean masks, which selected wrong particles.
---
 swiftsimio/masks.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 627262c..e9b5950 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -4,6 +4,7 @@ import warnings
 import h5py
 import numpy as np
 from pathlib import Path
+from threading import Lock
 
 from swiftsimio.metadata.field.attr_reader import (
     load_field_units as _load_field_units,
@@ -18,6 +19,8 @@ from swiftsimio._handle_provider import HandleProvider
 from typing import Callable, Sequence
 
 _DEFAULT_SAFE_PADDING = 0.1
+# Masks are converted when data are loaded, which several threads may do with one mask.
+_conversion_lock = Lock()
 _GROUPCAT_OUTPUT_TYPES = ["FOF", "SOAP", "FOFSubset", "SOAPSubset"]
 
 
@@ -853,16 +856,17 @@ class SWIFTMask(HandleProvider):
         --------
         convert_masks_to_bool
         """
-        if not self.range_mask:
-            # We must do the whole boolean mask stuff. To do that, we
-            # First, convert each boolean mask into an integer mask
-            # Use the accelerate.ranges_from_array function to convert
-            # This into a set of ranges.
-            for mask in self.update_list:
-                where_array = np.where(getattr(self, mask))[0]
-                setattr(self, f"{mask}_size", where_array.size)
-                setattr(self, mask, ranges_from_array(where_array))
-            self.range_mask = True
+        with _conversion_lock:
+            if not self.range_mask:
+                # We must do the whole boolean mask stuff. To do that, we
+                # First, convert each boolean mask into an integer mask
+                # Use the accelerate.ranges_from_array function to convert
+                # This into a set of ranges.
+                for mask in self.update_list:
+                    where_array = np.where(getattr(self, mask))[0]
+                    setattr(self, f"{mask}_size", where_array.size)
+                    setattr(self, mask, ranges_from_array(where_array))
+                self.range_mask = True
 
         return
 
-- 
2.43.0


From 70252978bd1f18f75e48bcc51af278cb53e4038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 22/39] fix: allocate the parallel voxel grid with its reduced
 depth

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..793a3dd 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -529,7 +529,7 @@ def scatter_parallel(
     number_of_particles = x.size
     core_particles = number_of_particles // NUM_THREADS
 
-    output = np.zeros((res, res, res), dtype=np.float32)
+    output = np.zeros((res, res, res // res_ratio_z), dtype=np.float32)
 
     for thread in prange(NUM_THREADS):
         # Left edge is easy, just start at 0 and go to 'final'
-- 
2.43.0


From ff03cd690f66ff31480eb93932a97f7fb160cc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 23/39] fix: recognise the file of a mask when it is opened
 twice from a server

---
 swiftsimio/_handle_provider.py | 28 ++++++++++++++++++++++++++++
 swiftsimio/reader.py           | 12 ++++++------
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 6610e9d..2e3c71d 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -61,6 +61,34 @@ class HandleProvider:
         if self.handle_manager:
             self._handle.close()
 
+    def _is_same_file_as(self, other: "HandleProvider") -> bool:
+        """
+        Check whether another object provides the same file.
+
+        A remote file is identified by its server and its path there. It never is the same
+        file as a local one, even if the paths agree.
+
+        Parameters
+        ----------
+        other : HandleProvider
+            The object to compare with.
+
+        Returns
+        -------
+        bool
+            ``True`` if both objects refer to the same file.
+        """
+        if self._handle is not None and self._handle is other._handle:
+            return True
+        servers = [
+            getattr(getattr(provider._handle, "connection", None), "server", None)
+            for provider in (self, other)
+        ]
+        if servers == [None, None]:
+            return self.filename.samefile(other.filename)
+        paths = [str(provider.filename).lstrip("/") for provider in (self, other)]
+        return servers[0] == servers[1] and paths[0] == paths[1]
+
     @contextmanager
     def open_file(self) -> ContextManager[h5py.File]:
         """
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 966addf..eb71ddf 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -746,9 +746,9 @@ class SWIFTDataset(HandleProvider):
         """
         if self.mask is not None:
             # we can save ourselves the trouble of reading it again
-            assert (self._handle is self.mask._handle) or self.filename.samefile(
-                self.mask.filename
-            ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
+            assert self._is_same_file_as(self.mask), (
+                f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
+            )
             self.units = self.mask.units
         else:
             self.units = SWIFTUnits(self.filename, handle=self.handle)
@@ -764,9 +764,9 @@ class SWIFTDataset(HandleProvider):
         """
         if self.mask is not None:
             # we can save ourselves the trouble of reading it again
-            assert (self._handle is self.mask._handle) or self.filename.samefile(
-                self.mask.filename
-            ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
+            assert self._is_same_file_as(self.mask), (
+                f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
+            )
             self.metadata = self.mask.metadata
         else:
             self.metadata = _metadata_discriminator(
-- 
2.43.0


From 9c705e633ed2e9d2852a490e96d2f14931a8afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 24/39] fix: read nothing from a server with a mask that
 selects nothing

---
 swiftsimio/_ordered_slices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/_ordered_slices.py b/swiftsimio/_ordered_slices.py
index a4f75d7..015250b 100644
--- a/swiftsimio/_ordered_slices.py
+++ b/swiftsimio/_ordered_slices.py
@@ -30,6 +30,9 @@ class OrderedSlices:
     def __init__(
         self, ranges: np.ndarray, ndim: int, columns: slice | int = np.s_[:]
     ) -> None:
+        # A mask that selects nothing may be an empty list of ranges
+        ranges = np.reshape(ranges, (-1, 2))
+
         # Drop any zero length ranges
         keep = (ranges[:, 1] - ranges[:, 0]) > 0
         ranges = ranges[keep, :]
-- 
2.43.0


From 3318fa4748aa41a7e03636548db0ad5c4cbc856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 25/39] fix: load statistics rows of mixed formats and refuse
 rows of the wrong length

---
 swiftsimio/accelerated.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index dbe1e6e..2e9977d 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -4,6 +4,8 @@ Define functions that can be accelerated by numba.
 Numba does not use classes, unfortunately.
 """
 
+import re
+
 import numpy as np
 
 from h5py._hl.dataset import Dataset
@@ -557,24 +559,24 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
     -----
     Currently not suitable for :mod:`numba` acceleration due to mixed datatype usage.
     """
-    # Calculate types and set up arrays.
+    rows = [row for row in (line.split() for line in lines) if row]
+    number_of_columns = len(rows[0])
 
-    arrays = []
-    dtypes = []
-    number_of_lines = len(lines)
+    for row in rows:
+        if len(row) != number_of_columns:
+            raise ValueError(
+                f"Expected {number_of_columns} values in each row but found "
+                f"{len(row)}: {' '.join(row)}"
+            )
 
-    for item in lines[0].split():
-        if "." in item or "e" in item:
-            dtype = np.float64
-        else:
-            dtype = np.int64
+    # Calculate types and set up arrays. Only columns that are made entirely of
+    # integers can be stored as such (the first row alone does not settle it).
 
-        dtypes.append(dtype)
-
-        arrays.append(np.zeros(number_of_lines, dtype=dtype))
+    arrays = []
 
-    for index, line in enumerate(lines):
-        for dtype, (array, value) in zip(dtypes, enumerate(line.split())):
-            arrays[array][index] = dtype(value)
+    for column in zip(*rows):
+        is_integer = all(re.fullmatch(r"[+-]?[0-9]+", item) for item in column)
+        dtype = np.int64 if is_integer else np.float64
+        arrays.append(np.array([dtype(item) for item in column], dtype=dtype))
 
     return arrays
-- 
2.43.0


From c0f341b598180e77aebb3ffb986e33567ff2c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 26/39] fix: do not report a partially written last row of a
 statistics file

---
 swiftsimio/statistics.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index 8ba615c..ff219ab 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -2,6 +2,7 @@
 
 import unyt
 import re
+import warnings
 
 from swiftsimio.accelerated import list_of_strings_to_arrays
 
@@ -91,12 +92,28 @@ class SWIFTStatisticsFile(object):
 
         self.raw_lines = lines[current_line:]
 
+        if self.raw_lines and not self.raw_lines[-1].endswith("\n"):
+            # Rows end in a newline, so this one was only partially written (the
+            # run crashed, or is writing it now) and its values cannot be trusted.
+            warnings.warn(
+                f"Ignoring the last row of {self.filename} because it is incomplete."
+            )
+            self.raw_lines = self.raw_lines[:-1]
+
         return
 
     def _process_raw_lines(self) -> None:
         """Process the raw string lines read out of the header."""
         arrays = list_of_strings_to_arrays(lines=self.raw_lines)
 
+        if len(arrays) > max(
+            len(self.header_names), len(self.header_snake_case_names)
+        ):
+            raise ValueError(
+                f"Rows of {self.filename} have {len(arrays)} values but the header "
+                f"names {len(self.header_names)} columns."
+            )
+
         for array, header_name, header_snake_case_name in zip(
             arrays, self.header_names, self.header_snake_case_names
         ):
-- 
2.43.0


From 3744cd6514482b75544b6ac0328d37e0389176f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 27/39] fix: do not take an attribute for absent when an I/O
 error interrupts reading it

---
 swiftsimio/_file_utils.py                | 28 ++++++++++++++++++++++++
 swiftsimio/metadata/field/attr_reader.py | 23 ++++++++++++-------
 swiftsimio/metadata/objects.py           |  7 ++++--
 swiftsimio/subset_writer.py              |  4 ++--
 4 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/swiftsimio/_file_utils.py b/swiftsimio/_file_utils.py
index b4d9ffb..bbee564 100644
--- a/swiftsimio/_file_utils.py
+++ b/swiftsimio/_file_utils.py
@@ -61,6 +61,34 @@ def is_dataset(obj: h5py.Group | h5py.Dataset | h5py.SoftLink) -> bool:
         return isinstance(obj, h5py.Dataset)
 
 
+def get_attribute(
+    attributes: h5py.AttributeManager, name: str, default: object
+) -> object:
+    """
+    Read an attribute that may be absent from the file.
+
+    The ``get`` method of :class:`~h5py._hl.attrs.AttributeManager` is not suitable for
+    this because it returns the default when an I/O error interrupts the lookup, too.
+
+    Parameters
+    ----------
+    attributes : ~h5py._hl.attrs.AttributeManager
+        The :mod:`h5py` interface to the attributes.
+
+    name : str
+        The name of the attribute.
+
+    default : object
+        The value to return if there is no such attribute.
+
+    Returns
+    -------
+    object
+        The value of the attribute, or the default.
+    """
+    return attributes[name] if name in attributes else default
+
+
 def split_path_or_handle(obj: str | Path | h5py.File) -> tuple[Path, h5py.File]:
     """
     Given a filename or handle, return a ``(filename, handle)`` tuple.
diff --git a/swiftsimio/metadata/field/attr_reader.py b/swiftsimio/metadata/field/attr_reader.py
index 8f86ce7..a0457bc 100644
--- a/swiftsimio/metadata/field/attr_reader.py
+++ b/swiftsimio/metadata/field/attr_reader.py
@@ -1,5 +1,6 @@
 """Helper functions to read and parse the metadata attached to individual datasets."""
 
+from swiftsimio._file_utils import get_attribute
 from swiftsimio.objects import cosmo_factor
 from swiftsimio.metadata.objects import (
     SWIFTUnits,
@@ -66,7 +67,9 @@ def load_field_description(field_attributes: h5py.AttributeManager) -> str:
     str
         The field description.
     """
-    description = field_attributes.get("Description", "No description available.")
+    description = get_attribute(
+        field_attributes, "Description", "No description available."
+    )
     if hasattr(description, "decode"):
         description = description.decode("utf-8")
     mask_str = (
@@ -75,7 +78,7 @@ def load_field_description(field_attributes: h5py.AttributeManager) -> str:
             f"{' + '.join(field_attributes['Mask Datasets'])} "
             f">= {field_attributes['Mask Threshold']}."
         )
-        if field_attributes.get("Masked", False)
+        if get_attribute(field_attributes, "Masked", False)
         else "Not masked."
     )
     return f"{description} {mask_str}"
@@ -95,10 +98,10 @@ def load_field_compression(field_attributes: h5py.AttributeManager) -> str:
     str
         The compression filter description.
     """
-    if not field_attributes.get("Is Compressed", True):
+    if not get_attribute(field_attributes, "Is Compressed", True):
         return "Not compressed."
-    comp = field_attributes.get(
-        "Lossy compression filter", "No compression info available"
+    comp = get_attribute(
+        field_attributes, "Lossy compression filter", "No compression info available"
     )
     if hasattr(comp, "decode"):
         comp = comp.decode("utf-8")
@@ -125,7 +128,8 @@ def load_field_cosmo_factor(
         The cosmology information for the field.
     """
     return cosmo_factor.create(
-        metadata.scale_factor, field_attributes.get("a-scale exponent", [0.0])[0]
+        metadata.scale_factor,
+        get_attribute(field_attributes, "a-scale exponent", [0.0])[0],
     )
 
 
@@ -143,7 +147,7 @@ def load_field_physical(field_attributes: h5py.AttributeManager) -> bool:
     bool
         The flag for comoving or physical coordinates.
     """
-    return field_attributes.get("Value stored as physical", [0])[0] == 1
+    return get_attribute(field_attributes, "Value stored as physical", [0])[0] == 1
 
 
 def load_field_valid_transform(field_attributes: h5py.AttributeManager) -> bool:
@@ -161,4 +165,7 @@ def load_field_valid_transform(field_attributes: h5py.AttributeManager) -> bool:
         The flag for whether comoving-physical conversion is allowed.
     """
     # defaults to True for backwards compatibility
-    return field_attributes.get("Property can be converted to comoving", [1])[0] == 1
+    return (
+        get_attribute(field_attributes, "Property can be converted to comoving", [1])[0]
+        == 1
+    )
diff --git a/swiftsimio/metadata/objects.py b/swiftsimio/metadata/objects.py
index 16b89f7..b7430dd 100644
--- a/swiftsimio/metadata/objects.py
+++ b/swiftsimio/metadata/objects.py
@@ -15,6 +15,7 @@ from unyt.array import _iterable
 from swiftsimio.conversions import swift_cosmology_to_astropy
 from swiftsimio import metadata
 from swiftsimio.objects import cosmo_array, cosmo_factor, cosmo_quantity
+from swiftsimio._file_utils import get_attribute
 from swiftsimio._handle_provider import HandleProvider
 from abc import ABC, abstractmethod
 
@@ -856,9 +857,11 @@ def _metadata_discriminator(
     # Old snapshots did not have OutputType, so we need to default to FullVolume
     if handle is None:
         with h5py.File(filename, "r") as local_handle:
-            file_type = local_handle["Header"].attrs.get("OutputType", "FullVolume")
+            file_type = get_attribute(
+                local_handle["Header"].attrs, "OutputType", "FullVolume"
+            )
     else:
-        file_type = handle["Header"].attrs.get("OutputType", "FullVolume")
+        file_type = get_attribute(handle["Header"].attrs, "OutputType", "FullVolume")
 
     if isinstance(file_type, bytes):
         file_type = file_type.decode("utf-8")
diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index c73a8f1..5822496 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -2,7 +2,7 @@
 
 from swiftsimio.masks import SWIFTMask
 from swiftsimio.accelerated import read_ranges_from_file
-from swiftsimio._file_utils import is_dataset, is_soft_link
+from swiftsimio._file_utils import get_attribute, is_dataset, is_soft_link
 import swiftsimio.metadata as metadata
 
 from pathlib import Path
@@ -330,7 +330,7 @@ def _write_metadata(
         if not _is_within(field, skip_list):
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
-            output_type = infile[field].attrs.get("OutputType", "FullVolume")
+            output_type = get_attribute(infile[field].attrs, "OutputType", "FullVolume")
             if hasattr(output_type, "decode"):
                 output_type = output_type.decode()
             if field in ["Header", "Parameters"]:
-- 
2.43.0


From 736e3cbe5c516bd4aa3a783ac6b7bb8d37d9873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 28/39] fix: select a row once however often constrain_indices
 lists it

---
 swiftsimio/masks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index e9b5950..45a104f 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -941,6 +941,8 @@ class SWIFTMask(HandleProvider):
             sorted_indices = np.sort(indices)
         else:
             sorted_indices = np.asarray(indices)
+        # a row listed more than once is still selected once
+        sorted_indices = np.unique(sorted_indices)
         number_of_rows = getattr(
             self.metadata, f"n_{self.metadata.shared_cell_counts.lower()}"
         )
@@ -953,7 +955,7 @@ class SWIFTMask(HandleProvider):
         for mask in self.update_list:
             if self.range_mask:
                 setattr(self, mask, ranges_from_array(sorted_indices))
-                setattr(self, f"{mask}_size", len(indices))
+                setattr(self, f"{mask}_size", sorted_indices.size)
             else:
                 comparison_array = np.zeros(getattr(self, mask).size, dtype=bool)
                 comparison_array[np.asarray(indices, dtype=int)] = True
-- 
2.43.0


From f21333a7c0d2f59b622aa3cc466bcad4a69dea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 29/39] fix: do not wrap the coordinates cached by the dataset
 when imaging

---
 swiftsimio/visualisation/_vistools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..37054dc 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,8 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        # not in-place, these may be the coordinates cached by the dataset!
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 0d8b39b0884f311099df2d8fcd2bd6d00c77a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 30/39] fix: do not let rounding add a row of pixels to a slice

---
 swiftsimio/visualisation/slice.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/slice.py b/swiftsimio/visualisation/slice.py
index df58b8f..df1db70 100644
--- a/swiftsimio/visualisation/slice.py
+++ b/swiftsimio/visualisation/slice.py
@@ -117,8 +117,12 @@ def slice_pixel_grid(
     mask = mask if mask is not None else np.s_[...]
 
     # determine the effective number of pixels for each dimension
-    xres = int(np.ceil(resolution * region_info["x_range"] / region_info["max_range"]))
-    yres = int(np.ceil(resolution * region_info["y_range"] / region_info["max_range"]))
+    xres = int(
+        np.ceil(resolution * (region_info["x_range"] / region_info["max_range"]))
+    )
+    yres = int(
+        np.ceil(resolution * (region_info["y_range"] / region_info["max_range"]))
+    )
 
     normed_x = (x[mask] - region_info["x_min"]) / region_info["max_range"]
     normed_y = (y[mask] - region_info["y_min"]) / region_info["max_range"]
-- 
2.43.0


From 204cb11062c2f80e2fb5092d1b25b7546baf7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 31/39] fix: use the box size in the frame of the coordinates
 to generate smoothing lengths

---
 swiftsimio/visualisation/smoothing_length/generate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..4ec32e8 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,12 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    # The box must be in the same frame as the coordinates
+    if getattr(coordinates, "comoving", None):
+        boxsize = boxsize.to_comoving()
+    elif getattr(coordinates, "comoving", None) is False:  # compare to False in case None
+        boxsize = boxsize.to_physical()
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 5e7195f256d2cb3adfe5ff8e65f9838acc99fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 32/39] fix: deposit particles that round onto the upper edge
 of the box inside the grid

---
 swiftsimio/visualisation/power_spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..bec2b26 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -89,10 +89,10 @@ def deposit(
         y_pos_scaled = (y_pos % box_over_fold_y) * inv_box_over_fold_y
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
-        # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        # Convert to grid position (a scaled position can round up to exactly 1)
+        x_pix = min(np.int32(x_pos_scaled * float_res), res - 1)
+        y_pix = min(np.int32(y_pos_scaled * float_res), res - 1)
+        z_pix = min(np.int32(z_pos_scaled * float_res), res - 1)
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From 19b8825a8d2d5594c5f123194a57f9fa15cf3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 33/39] fix: give folded power spectra the cosmo_factor of a
 volume

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index bec2b26..2ec8e53 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -386,7 +386,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From 58616274307ab3bc73f2750afa0c6d07795658e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 34/39] fix: use the box size in the frame of the positions to
 deposit particles

---
 swiftsimio/visualisation/power_spectrum.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 2ec8e53..01c72fd 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -235,8 +235,12 @@ def render_to_deposit(
                 "coordinates!"
             )
 
-    # Get the box size
+    # Get the box size, in the same frame as the positions
     boxsize = data.metadata.boxsize
+    if positions.comoving:
+        boxsize = boxsize.to_comoving()
+    elif positions.comoving is False:  # compare to False in case None
+        boxsize = boxsize.to_physical()
 
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
@@ -262,10 +266,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From a86dd1a58204ef9ec5f409890ab84ee52b0631df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 35/39] fix: do not read a chunk for an empty range

---
 swiftsimio/accelerated.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 2e9977d..f2ca225 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -530,15 +530,23 @@ def read_ranges_from_file(
     # performance than read_ranges_from_file_unchunked
     cross_over_range_size = 5e5
 
-    average_range_size = np.diff(ranges).mean()
+    if hasattr(handle, "request_slices"):
+        return read_ranges_from_hdfstream(
+            handle, ranges, output_shape, output_type, columns
+        )
+
+    # Empty ranges (e.g. of cells without particles) must not cause a chunk to be read
+    ranges = np.asarray(ranges).reshape(-1, 2)
+    ranges = ranges[ranges[:, 0] != ranges[:, 1]]
+
     read_ranges = (
         read_ranges_from_file_chunked
-        if handle.chunks is not None and average_range_size < cross_over_range_size
+        if handle.chunks is not None
+        and len(ranges) > 0
+        and np.diff(ranges).mean() < cross_over_range_size
         else read_ranges_from_file_unchunked
     )
-    return (
-        read_ranges_from_hdfstream if hasattr(handle, "request_slices") else read_ranges
-    )(handle, ranges, output_shape, output_type, columns)
+    return read_ranges(handle, ranges, output_shape, output_type, columns)
 
 
 def list_of_strings_to_arrays(lines: list[str]) -> np.array:
-- 
2.43.0


From 26d6505a97d88519a990c2b7c3ef6f575a9edee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 36/39] fix: let get_units, get_metadata and create_datasets be
 called again on a loaded dataset

---
 swiftsimio/reader.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index eb71ddf..a6cdd89 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -720,6 +720,7 @@ class SWIFTDataset(HandleProvider):
         if mask is not None:
             self.mask.convert_masks_to_ranges()
 
+        self.handle  # open the file once for all that follows
         self.get_units()
         self.get_metadata()
         self.create_datasets()
@@ -751,7 +752,8 @@ class SWIFTDataset(HandleProvider):
             )
             self.units = self.mask.units
         else:
-            self.units = SWIFTUnits(self.filename, handle=self.handle)
+            with self.open_file() as handle:
+                self.units = SWIFTUnits(self.filename, handle=handle)
 
         return
 
@@ -769,9 +771,10 @@ class SWIFTDataset(HandleProvider):
             )
             self.metadata = self.mask.metadata
         else:
-            self.metadata = _metadata_discriminator(
-                self.filename, self.units, handle=self.handle
-            )
+            with self.open_file() as handle:
+                self.metadata = _metadata_discriminator(
+                    self.filename, self.units, handle=handle
+                )
 
         return
 
@@ -786,16 +789,17 @@ class SWIFTDataset(HandleProvider):
         if not hasattr(self, "metadata"):
             self.get_metadata()
 
-        for group_name in self.metadata.present_group_names:
-            setattr(
-                self,
-                group_name,
-                _generate_datasets(
-                    self.filename,
-                    getattr(self.metadata, f"{group_name}_properties"),
-                    self.mask,
-                    handle=self.handle,
-                ),
-            )
+        with self.open_file() as handle:
+            for group_name in self.metadata.present_group_names:
+                setattr(
+                    self,
+                    group_name,
+                    _generate_datasets(
+                        self.filename,
+                        getattr(self.metadata, f"{group_name}_properties"),
+                        self.mask,
+                        handle=handle,
+                    ),
+                )
 
         return
-- 
2.43.0


From 3411583bf8095394072196c2d6eb8c87361b4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 37/39] fix: identify the file a mask is for by the file
 itself, not by its name

---
 swiftsimio/_handle_provider.py | 28 ++++++++++++++++++++++++++--
 swiftsimio/masks.py            |  2 ++
 swiftsimio/reader.py           | 24 ++++++++++++++++++------
 3 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 2e3c71d..fec9825 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -3,6 +3,7 @@
 from contextlib import contextmanager
 from typing import ContextManager
 from pathlib import Path
+import os
 import h5py
 
 
@@ -27,6 +28,7 @@ class HandleProvider:
     def __init__(self, filename: Path, handle: h5py.File | None = None) -> None:
         self.filename = Path(filename)
         self._handle = handle
+        self._file_identity: tuple[int, int] | None = None
 
         self.handle_manager = not self._handle
 
@@ -61,12 +63,28 @@ class HandleProvider:
         if self.handle_manager:
             self._handle.close()
 
+    def _get_file_identity(self) -> tuple[int, int] | None:
+        """
+        Identify the local file behind an open handle, whatever its name.
+
+        Returns
+        -------
+        tuple[int, int] | None
+            The device and inode numbers of the file, ``None`` if they can't be known.
+        """
+        if isinstance(self._handle, h5py.File) and self._handle:
+            if self._handle.driver == "sec2":
+                status = os.fstat(self._handle.id.get_vfd_handle())
+                return status.st_dev, status.st_ino
+        return None
+
     def _is_same_file_as(self, other: "HandleProvider") -> bool:
         """
         Check whether another object provides the same file.
 
         A remote file is identified by its server and its path there. It never is the same
-        file as a local one, even if the paths agree.
+        file as a local one, even if the paths agree. A local file is identified by the
+        file itself where that is known, because another file can take over its name.
 
         Parameters
         ----------
@@ -85,7 +103,13 @@ class HandleProvider:
             for provider in (self, other)
         ]
         if servers == [None, None]:
-            return self.filename.samefile(other.filename)
+            identities = [
+                provider._file_identity or provider._get_file_identity()
+                for provider in (self, other)
+            ]
+            if None in identities:
+                return self.filename.samefile(other.filename)
+            return identities[0] == identities[1]
         paths = [str(provider.filename).lstrip("/") for provider in (self, other)]
         return servers[0] == servers[1] and paths[0] == paths[1]
 
diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 45a104f..d2d31d9 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -137,6 +137,8 @@ class SWIFTMask(HandleProvider):
             )
 
         self._unpack_cell_metadata()
+        # remember which file this mask is for, the name can come to refer to another one
+        self._file_identity = self._get_file_identity()
 
         self.cell_mask = self._generate_cell_mask(restrict=None)
         self._update_range_masks()
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index a6cdd89..71bbd16 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -721,6 +721,7 @@ class SWIFTDataset(HandleProvider):
             self.mask.convert_masks_to_ranges()
 
         self.handle  # open the file once for all that follows
+        self._file_identity = self._get_file_identity()
         self.get_units()
         self.get_metadata()
         self.create_datasets()
@@ -738,6 +739,21 @@ class SWIFTDataset(HandleProvider):
         """Print out some useful information, not just the memory location."""
         return self.__str__()
 
+    def _check_mask_is_for_this_file(self) -> None:
+        """
+        Refuse a mask that was not made for the file being loaded.
+
+        Raises
+        ------
+        ValueError
+            If the mask was made for another file.
+        """
+        if not self._is_same_file_as(self.mask):
+            raise ValueError(
+                f"Mask is for {self.mask.filename} but dataset is for {self.filename}, "
+                "or one of these files has since been replaced."
+            )
+
     def get_units(self) -> None:
         """
         Load the units from the SWIFT snapshot.
@@ -747,9 +763,7 @@ class SWIFTDataset(HandleProvider):
         """
         if self.mask is not None:
             # we can save ourselves the trouble of reading it again
-            assert self._is_same_file_as(self.mask), (
-                f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
-            )
+            self._check_mask_is_for_this_file()
             self.units = self.mask.units
         else:
             with self.open_file() as handle:
@@ -766,9 +780,7 @@ class SWIFTDataset(HandleProvider):
         """
         if self.mask is not None:
             # we can save ourselves the trouble of reading it again
-            assert self._is_same_file_as(self.mask), (
-                f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
-            )
+            self._check_mask_is_for_this_file()
             self.metadata = self.mask.metadata
         else:
             with self.open_file() as handle:
-- 
2.43.0


From ff9b92a5bd344e32583c213d3f21b709c83ccc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 38/39] fix: read masked fields with more than two dimensions

---
 swiftsimio/accelerated.py | 7 ++-----
 swiftsimio/reader.py      | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index f2ca225..4f01513 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -387,11 +387,8 @@ def read_ranges_from_file_chunked(
     chunk_ranges = get_chunk_ranges(ranges, chunk_size, handle.shape[0])
     chunk_range_size = np.diff(chunk_ranges).sum()
 
-    try:
-        output_shape = (chunk_range_size, output_shape[1])
-    except (TypeError, IndexError):
-        # Output shape is just a number, we have a 1D array.
-        output_shape = chunk_range_size
+    # Output shape can be just a number if we have a 1D array.
+    output_shape = (chunk_range_size,) + tuple(np.atleast_1d(output_shape)[1:])
 
     output = np.empty(output_shape, dtype=output_type)
     already_read = 0
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 71bbd16..eadb4f4 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -142,11 +142,8 @@ def _generate_getter(
                 valid_transform = _load_field_valid_transform(attributes)
                 if mask is not None:
                     output_type = dataset.dtype
-                    output_shape = (
-                        (mask_size, dataset.shape[1])
-                        if dataset.ndim > 1 and not use_columns
-                        else mask_size
-                    )
+                    # (a single column has one dimension less)
+                    output_shape = (mask_size,) + dataset.shape[1 + use_columns :]
                     value = cosmo_array(
                         read_ranges_from_file(
                             dataset,
-- 
2.43.0


From e9f147b7063d6a58d5503d45fbd6a463a20584f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 39/39] fix: a mask conversion or spatial constraint that runs
 out of memory left the mask half changed

---
 swiftsimio/masks.py | 55 ++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index d2d31d9..d8236b8 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -140,8 +140,7 @@ class SWIFTMask(HandleProvider):
         # remember which file this mask is for, the name can come to refer to another one
         self._file_identity = self._get_file_identity()
 
-        self.cell_mask = self._generate_cell_mask(restrict=None)
-        self._update_range_masks()
+        self._update_range_masks(self._generate_cell_mask(restrict=None))
 
         self._close_handle_if_manager()
 
@@ -666,35 +665,48 @@ class SWIFTMask(HandleProvider):
 
         return cell_mask
 
-    def _update_range_masks(self) -> None:
+    def _update_range_masks(self, cell_mask: dict[str, np.ndarray]) -> None:
         """
         Update the particle masks using the cell masks.
+
+        Nothing is changed if it fails (for instance because it runs out of memory).
+
+        Parameters
+        ----------
+        cell_mask : dict[str, np.ndarray]
+            The cells that are selected.
         """
+        new_masks = {}
         for data_name in self.update_list:
             count_name = data_name[1:]  # Remove the underscore
 
             if self.range_mask:
-                counts = self.counts[count_name][self.cell_mask[count_name]]
-                offsets = self.offsets[count_name][self.cell_mask[count_name]]
+                counts = self.counts[count_name][cell_mask[count_name]]
+                offsets = self.offsets[count_name][cell_mask[count_name]]
 
                 this_mask = [[o, c + o] for c, o in zip(counts, offsets)]
 
-                setattr(self, data_name, np.array(this_mask))
-                setattr(self, f"{data_name}_size", np.sum(counts))
+                new_masks[data_name] = np.array(this_mask)
+                new_masks[f"{data_name}_size"] = np.sum(counts)
 
             else:
-                counts = self.counts[count_name][self.cell_mask[count_name]]
-                offsets = self.offsets[count_name][self.cell_mask[count_name]]
+                counts = self.counts[count_name][cell_mask[count_name]]
+                offsets = self.offsets[count_name][cell_mask[count_name]]
 
                 # We must do the whole boolean mask business. There can't be any other
                 # constraints to respect (these prevent further spatial constraints), and
                 # a union can select rows that were not selected before.
-                this_mask = getattr(self, data_name)
-                this_mask[...] = False
+                this_mask = np.zeros_like(getattr(self, data_name))
 
                 for count, offset in zip(counts, offsets):
                     this_mask[offset : count + offset] = True
 
+                new_masks[data_name] = this_mask
+
+        self.cell_mask = cell_mask
+        for key, value in new_masks.items():
+            setattr(self, key, value)
+
         return
 
     def _sanitize_region(self, region: Sequence) -> cosmo_array:
@@ -819,15 +831,15 @@ class SWIFTMask(HandleProvider):
         sanitized_region = self._sanitize_region(restrict)
         if self.constrained == "constrain_spatial" and union:
             # we are in union mode and already have a spatial constraint
-            new_mask = self._generate_cell_mask(sanitized_region)
+            cell_mask = self._generate_cell_mask(sanitized_region)
             for group_name in self.update_list:
                 group_name = group_name[1:]  # remove leading underscore
-                self.cell_mask[group_name] = np.logical_or(
-                    self.cell_mask[group_name], new_mask[group_name]
+                cell_mask[group_name] = np.logical_or(
+                    self.cell_mask[group_name], cell_mask[group_name]
                 )
         elif self.constrained is None:
             # union or not union, doesn't matter, just make a new mask
-            self.cell_mask = self._generate_cell_mask(sanitized_region)
+            cell_mask = self._generate_cell_mask(sanitized_region)
         else:
             # union or not union, doesn't matter
             # we don't allow combining with current mask
@@ -843,7 +855,7 @@ class SWIFTMask(HandleProvider):
                 )
             raise RuntimeError(msg)
 
-        self._update_range_masks()
+        self._update_range_masks(cell_mask)
 
         return
 
@@ -864,10 +876,15 @@ class SWIFTMask(HandleProvider):
                 # First, convert each boolean mask into an integer mask
                 # Use the accelerate.ranges_from_array function to convert
                 # This into a set of ranges.
+                # Change the masks only when all of them are converted: this can run out
+                # of memory.
+                converted = {}
                 for mask in self.update_list:
                     where_array = np.where(getattr(self, mask))[0]
-                    setattr(self, f"{mask}_size", where_array.size)
-                    setattr(self, mask, ranges_from_array(where_array))
+                    converted[f"{mask}_size"] = where_array.size
+                    converted[mask] = ranges_from_array(where_array)
+                for key, value in converted.items():
+                    setattr(self, key, value)
                 self.range_mask = True
 
         return
@@ -888,6 +905,8 @@ class SWIFTMask(HandleProvider):
             for mask_key, mask_value in empty_masks.items():
                 for r in getattr(self, mask_key):
                     mask_value[slice(*r)] = True
+            # change the masks only when all of them are converted
+            for mask_key, mask_value in empty_masks.items():
                 setattr(self, mask_key, mask_value)
             for size_key, size_value in sizes.items():
                 setattr(self, size_key, size_value)
-- 
2.43.0

