"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


NODATA = "The tests that read a snapshot need downloaded files that are absent here (or are one fixed file), and none injects an I/O error. "

prop("P01", "Lazy field reads are faithful over any access history and I/O error",
     "Whatever sequence of reads, deletes, assignments, in-place edits and reloads came before, reading a field that the user has not "
     "replaced returns exactly the values, dtype, units, comoving/physical state and cosmology factor stored in the file, and a value the "
     "user already holds or assigned is returned unchanged until deleted. If an I/O error, exhausted memory or the user interrupts a read the caller gets an exception, "
     "never a wrong, partial or missing (None) value, and repeating the read once the error is gone succeeds.",
     ["histories", "fault_sequences", "inputs"],
     "every history of accesses to every field (plain, named-column, line-of-sight attribute) of every file layout, with I/O errors at any read, open, lock or close",
     NODATA + "Histories and error positions are unbounded.",
     ["swiftsimio/reader.py", "swiftsimio/metadata/field/attr_reader.py"],
     [("lazy getter/setter/deleter", "reader._generate_getter and siblings"), ("field attributes", "metadata.field.attr_reader")],
     [("_<name>", "cached value of a field, None when on disk only")], ["SWIFTDataset group attributes"])

prop("P02", "Loading and metadata are all-or-nothing under I/O errors",
     "Opening a dataset or building a mask either raises or yields an object whose metadata (header values, cosmology, particle counts, "
     "field names, named columns, units, cell tables) is identical to what the file holds; an I/O error or exhausted memory at any point never silently drops or changes a part of it. "
     "After a failed attempt, repeating it without errors succeeds with the identical result.",
     ["fault_sequences", "inputs", "configurations"],
     "every position and kind of I/O error during load() or mask(), for every output type and optional metadata combination",
     NODATA + "Optional metadata is looked up with a fallback on 'missing', so only an error at the exact lookup shows the difference.",
     ["swiftsimio/metadata/objects.py", "swiftsimio/__init__.py", "swiftsimio/masks.py", "swiftsimio/conversions.py"],
     [("metadata loading", "SWIFTMetadata.get_metadata/postprocess_header/load_groups/extract_cosmology"),
      ("output-type dispatch", "metadata.objects._metadata_discriminator"), ("cell tables", "SWIFTMask._unpack_cell_metadata")])

prop("P03", "A masked read returns exactly the selected rows",
     "Loading with a mask gives, for every field and named column of every group, exactly the rows the mask selects, each once, all fields of a group in the "
     "same row order, with the same dtype, units and cosmology as an unmasked read, whatever the storage layout (contiguous, chunked, compressed, virtual), the "
     "order in which cells were written, or the history of accesses. Under I/O errors or exhausted memory a masked read raises or is exact.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all masks, storage layouts, chunk sizes, dtypes, cell orders and access/fault histories",
     NODATA + "Range arithmetic on chunk boundaries depends on the combination of mask, chunk size and cell order.",
     ["swiftsimio/accelerated.py", "swiftsimio/reader.py", "swiftsimio/masks.py"],
     [("range readers", "accelerated.read_ranges_from_file*, get_chunk_ranges, extract_ranges_from_chunks"), ("mask use", "reader._generate_getter")])

prop("P04", "A spatial mask keeps every particle in the region, by whole needed cells",
     "After constraining to any region, including periodic wrap-around, inverted bounds, open axes, any length unit, comoving or physical bounds, and unions of several regions, loading "
     "returns every particle that lies in the region, never a particle twice, and only whole cells that the cell metadata (bounding boxes, or the cell "
     "geometry with the requested padding) says the region can touch. Regions outside the supported interval are rejected.",
     ["inputs", "histories", "configurations"],
     "all cell grids, box shapes, particle drifts, cell orders on disk, regions and sequences of union calls",
     NODATA + "The tests use a few fixed regions on one file.",
     ["swiftsimio/masks.py"],
     [("cell selection", "SWIFTMask._generate_cell_mask"), ("cell tables", "SWIFTMask._unpack_cell_metadata"), ("cells to rows", "SWIFTMask._update_range_masks")])

prop("P05", "A property mask selects exactly the rows within its bounds",
     "Constraining a group by a property keeps exactly those currently selected rows whose stored value q satisfies lower < q <= upper, with the bounds' units and "
     "comoving/physical state taken into account, and leaves other groups' selections alone (in catalogues all groups share one row selection); successive constraints intersect, in any order and in any number, after a "
     "spatial constraint or not. A constraint interrupted by an I/O error or exhausted memory changes nothing and can be repeated.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of property constraints on all fields, units and bounds, with I/O errors at any point",
     NODATA + "Tests apply one or two constraints to one file.",
     ["swiftsimio/masks.py"], [("property constraint", "SWIFTMask.constrain_property/constrain_mask")])

prop("P06", "A row mask of a catalogue selects exactly the listed rows",
     "For catalogues whose arrays share one length, constraining to one index or to a list of indices (in any order, as ranges or booleans) makes every field "
     "of every group contain exactly those rows in ascending order, and the reported size is their number. For other files the request is refused.",
     ["inputs", "histories", "configurations"],
     "all index lists, mask representations, catalogue groups and layouts",
     NODATA + "Tests try one fixed index list.",
     ["swiftsimio/masks.py", "swiftsimio/reader.py", "swiftsimio/metadata/soap/soap_types.py"],
     [("row constraints", "SWIFTMask.constrain_index/constrain_indices"), ("shared mask", "SWIFTMask.group_mapping")])

prop("P07", "Mask operations compose safely: misuse and failure change nothing",
     "Whatever the history of constraints, conversions between range and boolean form, loads and subset writes, a mask keeps selecting the same rows unless a constraint succeeded; "
     "a constraint that is not allowed in the current state, is malformed, or fails with an error raises and leaves the mask exactly as it was. "
     "One mask can be used for any number of loads and gives the same selection each time.",
     ["histories", "fault_sequences"],
     "all sequences of legal, illegal and failing mask operations",
     "Tests exercise single illegal calls on absent data; whether state survives needs arbitrary histories.",
     ["swiftsimio/masks.py", "swiftsimio/reader.py"],
     [("state machine", "masks._constraint and SWIFTMask.constrained"), ("conversions", "SWIFTMask.convert_masks_to_ranges/convert_masks_to_bool")],
     [("constrained", "last constraint applied"), ("range_mask", "representation of the masks")])

prop("P08", "A written subset is a faithful, self-consistent dataset",
     "Writing a masked subset produces a file that loads, in which every field of every group holds exactly the selected rows with the same values, dtype, shape, attributes and "
     "units as the source, the header counts match, other metadata and soft links are preserved, and the output type marks it as a subset. Its cell counts and offsets "
     "describe the written rows, so masking the subset, or writing a subset of it, behaves as on the original restricted to those rows.",
     ["inputs", "configurations", "histories"],
     "all masks (spatial, property, row, union), layouts, cell orders, output types and chains of subset-of-subset",
     NODATA + "The one subset test checks one mask on one file.",
     ["swiftsimio/subset_writer.py", "swiftsimio/masks.py"],
     [("subset writer", "subset_writer.write_subset and helpers"), ("cell accounting", "SWIFTMask._get_masked_counts_offsets")])

prop("P09", "A failed or interrupted subset write is never mistaken for a good one",
     "If writing a subset meets an I/O error, a full disk, exhausted memory, an interrupt or a crash at any point, the call raises (or the process is gone), the source file is untouched, and what is left at the output path "
     "either cannot be opened as a dataset or is not silently wrong; repeating the call afterwards succeeds. A write that returned normally is complete and correct.",
     ["fault_sequences", "crash_points"],
     "every write, read, open, close or truncate failure, every full-disk size and every crash point, including torn last writes",
     "No test injects faults or crashes.",
     ["swiftsimio/subset_writer.py"],
     [("subset writer", "subset_writer.write_subset")], None, ["the output file after reopening", "the source file bytes"])

prop("P10", "Snapshots written by the Writer read back as given",
     "For any particle data accepted by the Writer (any mix of types, units, scale factor, comoving or physical inputs, box, unit system, compression, extra header), loading the written file returns the same physical quantities, "
     "counts, box size and scale factor, with particle IDs unique across all types: as supplied when every type supplied them, otherwise generated.",
     ["inputs", "histories", "configurations"],
     "all accepted inputs and all histories of assignment, deletion, reassignment and repeated writes",
     "Tests write a handful of fixed inputs.",
     ["swiftsimio/snapshot_writer.py", "swiftsimio/metadata/writer/required_fields.py", "swiftsimio/reader.py"],
     [("writer", "snapshot_writer.SWIFTSnapshotWriter.write"), ("IDs", "SWIFTSnapshotWriter._generate_ids"), ("setters", "snapshot_writer.generate_setter")])

prop("P11", "The Writer refuses bad data without damage and survives write faults",
     "Inconsistent input (missing required field, mismatched lengths, wrong dimensions or scale factor, non-positive or repeated IDs, in one type or across types) is refused with an error, "
     "leaving previously assigned data and any existing file at the target path as they were; an I/O error, full disk or exhausted memory during writing raises. After any refusal or failure the same Writer can be corrected and written successfully.",
     ["histories", "fault_sequences", "crash_points"],
     "all histories of good and bad assignments and writes with write faults at any point",
     "Tests check single refusals, not what remains afterwards, and inject no faults.",
     ["swiftsimio/snapshot_writer.py"],
     [("validation", "__SWIFTWriterParticleDataset.check_consistent, generate_setter, SWIFTSnapshotWriter.write")])

prop("P12", "Remote datasets read exactly like local ones under network faults",
     "A dataset served by a remote server yields the same metadata, fields, masks and masked rows as the same file read locally, whatever the order of accesses. "
     "Lost, refused, failed, truncated or delayed responses raise or are retried, and never produce values that differ from the file; once the faults stop, reads succeed.",
     ["fault_sequences", "histories", "inputs"],
     "all sequences of accesses and network faults, and all masks including those whose ranges are out of order",
     "The remote tests need a network server and are skipped; none injects faults.",
     ["swiftsimio/accelerated.py", "swiftsimio/_ordered_slices.py", "swiftsimio/_handle_provider.py", "swiftsimio/_file_utils.py", "swiftsimio/reader.py"],
     [("remote ranges", "accelerated.read_ranges_from_hdfstream"), ("slice ordering", "_ordered_slices.OrderedSlices")])

prop("P13", "File handles: the user's stay open, swiftsimio's own are closed",
     "A file handle passed in by the caller is never closed by any operation, and handles swiftsimio opened itself are closed when the operation returns, so no file stays open afterwards, "
     "even if the operation fails with an I/O error, runs out of memory or is interrupted (once its exception has been handled). Objects built from a path keep working after each operation, and units, metadata and datasets can be loaded again; "
     "objects built on a handle that its caller has closed either fail clearly or read exactly, and leave nothing open.",
     ["histories", "fault_sequences"],
     "all histories of loads, masks, reads, subset writes and caller-side closes, with faults at any point",
     NODATA + "Leaks only show in the process's file table after failures.",
     ["swiftsimio/_handle_provider.py", "swiftsimio/reader.py", "swiftsimio/masks.py", "swiftsimio/metadata/objects.py", "swiftsimio/subset_writer.py"],
     [("handle ownership", "_handle_provider.HandleProvider")], [("handle_manager", "whether the object owns its handle")])

prop("P14", "Reading is lazy and I/O is proportional to what was asked",
     "Loading, masking and spatial constraints read no particle data; a property constraint reads only the constrained field; reading one field touches only that field's data, once, and nothing when it is "
     "already in memory; and a spatially masked read of a field, or a subset write, reads only the stored blocks that hold selected rows (up to the file library's small read-ahead). Reading never writes to the file.",
     ["histories", "inputs", "configurations"],
     "all layouts, masks and access histories, judged on the bytes actually requested from the file",
     "No test observes the I/O performed.",
     ["swiftsimio/reader.py", "swiftsimio/accelerated.py", "swiftsimio/masks.py", "swiftsimio/metadata/objects.py"],
     [("lazy getter", "reader._generate_getter"), ("chunk selection", "accelerated.get_chunk_ranges, read_ranges_from_file")])

prop("P15", "Concurrent use of datasets from several threads is safe",
     "Threads that read, delete, assign and re-read fields of one dataset, or of datasets sharing a mask, each obtain exact values under every interleaving: "
     "every read returns the file's complete data (or a value some thread assigned), never None, a partially filled array or an error caused by another thread's reading.",
     ["schedules"],
     "every interleaving of caller threads at statement granularity",
     "No test uses threads; interleavings are unbounded.",
     ["swiftsimio/reader.py", "swiftsimio/_handle_provider.py"],
     [("lazy getter", "reader._generate_getter"), ("temporary handles", "HandleProvider.open_file")])

prop("P16", "Parallel visualisation equals serial for any schedule and thread count",
     "Every parallel image, slice, volume or density deposit equals the serial result up to rounding for any number of worker threads (also more threads than particles), any division of work and any "
     "interleaving: every particle contributes exactly once, and no update is lost to a race.",
     ["schedules", "inputs", "configurations"],
     "all thread counts, completion orders and interleavings of the workers, for every backend, periodic or not",
     "Tests compare on the machine's thread count and whatever schedule happens.",
     ["swiftsimio/visualisation/projection_backends", "swiftsimio/visualisation/slice_backends", "swiftsimio/visualisation/volume_render_backends", "swiftsimio/visualisation/power_spectrum.py"],
     [("work division", "scatter_parallel, slice_scatter_parallel, deposit_parallel")])

prop("P17", "Statistics files: complete rows load exactly, torn files are not misread",
     "A statistics file loads every complete row and column with the names and units of its header, however many rows have been appended so far. If the last row is torn "
     "by an interrupted append, or an I/O error interrupts the read, the reader raises or returns only complete rows: it never reports invented values.",
     ["crash_points", "fault_sequences", "inputs"],
     "every header and value format, every truncation point of the file, every I/O error during the read",
     "Tests read one complete file.",
     ["swiftsimio/statistics.py", "swiftsimio/accelerated.py"],
     [("parser", "SWIFTStatisticsFile, list_of_strings_to_arrays")])

prop("P18", "A mask is only ever applied to the file it was made for",
     "Loading with a mask succeeds when the mask was made from the same file (through any equivalent path, link or handle) and is refused otherwise, whatever has happened to paths and handles in between: "
     "renamed, relinked, replaced by another file, or run with assertions disabled. "
     "Files that must not be masked (single parts of a distributed snapshot, file types without cell information) and files that are not SWIFT output are refused.",
     ["histories", "configurations", "inputs"],
     "all pairings of masks and files through paths, links, handles, renames and replaced files",
     "Tests check one mismatched pair.",
     ["swiftsimio/reader.py", "swiftsimio/masks.py", "swiftsimio/__init__.py", "swiftsimio/metadata/objects.py"],
     [("identity check", "SWIFTDataset.get_units/get_metadata"), ("validity", "SWIFTMask.__init__, swiftsimio.validate_file")])

prop("P19", "Imaging a dataset is a repeatable observation, also from partial data",
     "Producing an image, slice, volume, deposition, power spectrum or generated smoothing lengths does not change the dataset's fields, its metadata or the caller's arguments, is repeatable bit for bit in any order, "
     "after failed attempts and whatever fresh memory contains, and gives the same physical result whether it is computed from the whole dataset or from one loaded with a spatial mask enclosing the region and its kernels, "
     "and whether lengths are given or cached as comoving or physical, in any unit. Depositions and whole-box histograms contain every particle exactly once. An I/O error while data are loaded raises, and a retry gives the same image.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of imaging calls, regions, backends, masks and I/O errors",
     "Tests make single images from complete in-memory data.",
     ["swiftsimio/visualisation"],
     [("pipelines", "project_pixel_grid, slice_pixel_grid, render_voxel_grid"), ("unit stripping", "_vistools.backend_strip_and_restore_cosmo_and_units")])

prop("P90", "Arithmetic on cosmology-aware arrays tracks units and scale-factor powers",
     "Every operation on cosmology-aware arrays returns the value, units, comoving/physical state and scale-factor exponent that the operands imply, and refuses inconsistent operands.",
     ["inputs", "programs"], "all expressions over cosmology-aware arrays",
     "Tests sample functions and operands.", ["swiftsimio/objects.py", "swiftsimio/_array_functions.py"],
     [("array class", "objects.cosmo_array"), ("numpy overrides", "_array_functions")])

prop("P91", "Serial smoothing kernels conserve the projected quantity",
     "The sum over an image or volume that encloses all kernels equals the total of the projected quantity to the backend's stated accuracy.",
     ["inputs"], "all particle sets and smoothing lengths",
     "Tests sample particle sets.", ["swiftsimio/visualisation"], [("scatter kernels", "projection_backends, volume_render_backends")])

prop("P92", "Cosmology parameters convert to the equivalent astropy cosmology",
     "The cosmology object built from a file's parameters has the densities, neutrino content, equation of state and Hubble rate that the file states.",
     ["inputs"], "all parameter sets SWIFT can write", "Tests use the parameters of absent files.",
     ["swiftsimio/conversions.py"], [("conversion", "conversions.swift_cosmology_to_astropy")])

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
