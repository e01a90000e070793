#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to review)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Uncompressed save and load is lossless and standard",
  "Saving any scene in PLY units uncompressed and loading it back returns every attribute of every Gaussian bit for bit (float32), in the same order and with the same SH degree, whatever the scene's size, memory layout, construction route, or save/load entry point. The file written is exactly the standard 3DGS binary little-endian layout (14/23/38/59 float properties, higher-order SH grouped by channel), so an independent PLY reader decodes the same values, and an independently written standard file is read back exactly.",
  ["inputs", "configurations"],
  "Every SH degree x every construction route/memory layout x every save entry point x every load entry point, for every size in a contiguous range plus boundary sizes, with unique per-cell values and special float values.",
  "Tests round-trip a few sizes of contiguous random arrays with allclose; they never cross layouts (strided, consolidated, sliced, float64, tensor) with entry points, never compare bits, and never check every size.",
  ["src/gsply/writer.py", "src/gsply/reader.py", "src/gsply/formats.py", "src/gsply/gsdata.py", "src/gsply/torch/gstensor.py"],
  [("uncompressed writer: streaming and interleaving paths", "src/gsply/writer.py: write_uncompressed"),
   ("header templates", "src/gsply/writer.py: _build_header_fast"),
   ("uncompressed reader: strided views", "src/gsply/reader.py: read_uncompressed"),
   ("SH channel grouping", "src/gsply/writer.py: _flatten_shn; src/gsply/gsdata.py: _recreate_from_base")],
  observe=["plywrite", "plyread", "GSData.save", "GSData.load", "GSTensor.save(compressed=False)"])

p("C02", "Compressed round trip stays within the quantisation error",
  "Compressing any finite scene and decompressing it preserves the number, order and SH degree of the Gaussians, and every decoded position, log-scale (after clamping to [-20, 20]) and colour lies within half a quantisation step of its value relative to the extent of its own 256-Gaussian chunk. Decoded opacity is within half an 8-bit probability step (0 and 1 decode to -10 and +10), decoded rotation represents the normalised input rotation within the smallest-three 10-bit step, and each higher-order SH coefficient is within half its 1/32 step (clamped to the representable range).",
  ["inputs", "configurations"],
  "Every scene size in a contiguous range across chunk boundaries x SH degree; every quantisation cell boundary of every field; every largest-component/sign class of rotations; every SH byte; degenerate (zero-extent) chunks.",
  "Tests compress one or two random scenes with loose tolerances; boundaries between codes, chunk-edge sizes, degenerate chunks and per-field worst cases are not sampled.",
  ["src/gsply/writer.py", "src/gsply/reader.py", "src/gsply/formats.py", "src/gsply/torch/compression.py"],
  [("chunk bounds and packing kernels", "src/gsply/writer.py: _compute_chunk_bounds_jit, _pack_all_jit"),
   ("unpacking kernels", "src/gsply/reader.py: _unpack_all_jit, _unpack_sh_jit"),
   ("tensor packing/unpacking", "src/gsply/torch/compression.py")],
  observe=["compress_to_bytes", "decompress_from_bytes", "plywrite_gpu", "plyread_gpu"])

p("C03", "Every compressed reader and writer agrees on the format",
  "Every file in the compressed format, for every value of every packed field, decodes through each compressed reader (file path, in-memory bytes, object method, tensor path) to the values the published format defines, including the Gaussian-to-chunk assignment. All CPU writers (file by flag, file by extension, bytes, component arrays joined, object method; from object or arrays) produce byte-identical output for the same scene, and the tensor writer's output has the same layout and decodes to the same scene within one quantisation step.",
  ["inputs", "configurations"],
  "All 2^11/2^10/2^8 codes of every packed field, all SH bytes, all rotation index values, all chunk counts up to a bound x all readers; all writers x all SH degrees x a contiguous range of sizes.",
  "Tests compare two entry points on one random scene; a divergence limited to some codes, sizes, degrees or one entry point is invisible to them.",
  ["src/gsply/writer.py", "src/gsply/reader.py", "src/gsply/torch/compression.py", "src/gsply/torch/io.py"],
  [("shared compression routine", "src/gsply/writer.py: _compress_data_internal"),
   ("shared decompression routine", "src/gsply/reader.py: _decompress_data_internal"),
   ("tensor codec", "src/gsply/torch/compression.py: compress_gpu, decompress_gpu, read_compressed_gpu, write_compressed_gpu")],
  observe=["plyread", "decompress_from_bytes", "plyread_gpu", "plywrite", "compress_to_bytes", "compress_to_arrays"])

p("C04", "Any history of container operations equals plain array operations",
  "After any sequence of public operations on a scene container (editing values in place, replacing an attribute array, slicing, filtering, copying, consolidating, making contiguous, concatenating, masking, converting units or colours, saving and reloading), its attributes, order, SH degree, units labels and masks equal those of the same sequence applied to plain arrays. In particular the container's internal fast representation is never observable: what is saved, sliced, copied, concatenated or sent to a tensor is always the current attribute values.",
  ["histories"],
  "All operation sequences up to a depth over the full operation alphabet, from scenes of every SH degree built by every route (arrays, uncompressed file, compressed file, consolidated, sliced).",
  "Tests exercise operations one at a time from fresh data; stale-cache and layout bugs need two or three operations in a particular order.",
  ["src/gsply/gsdata.py", "src/gsply/utils.py", "src/gsply/writer.py", "src/gsply/reader.py"],
  [("shared base array and recreation of views", "src/gsply/gsdata.py: consolidate, _recreate_from_base, _slice_from_base"),
   ("invalidation on in-place conversion", "src/gsply/utils.py: apply_pre_activations, apply_pre_deactivations; src/gsply/gsdata.py: to_rgb, to_sh")],
  state=[("base array", "interleaved copy of all attributes, when present the source of fast paths", "src/gsply/gsdata.py: GSData._base"),
         ("units labels", "per-attribute units", "src/gsply/gsdata.py: GSData._format")],
  observe=["attributes", "plywrite+plyread", "format queries", "masks"])

p("C05", "Tensor container mirrors the array container",
  "Converting a scene between the array container and the tensor container (with or without an internal fast representation, with or without masks, any supported device-side dtype cast that is exact) changes no value, label, mask layer or mask name. Any sequence of operations on the tensor container yields the same scene as the same sequence on plain arrays.",
  ["histories", "configurations"],
  "All operation sequences up to a depth over the tensor container's public operations, including conversions in both directions, dtype changes, cloning, slicing, masking, concatenation, unit and colour conversion, consolidation and saving.",
  "Tests check single conversions of one random scene; sequences mixing conversions with cached representations are not explored.",
  ["src/gsply/torch/gstensor.py", "src/gsply/torch/io.py", "src/gsply/gsdata.py"],
  [("conversion", "src/gsply/torch/gstensor.py: from_gsdata, to_gsdata"),
   ("base tensor", "src/gsply/torch/gstensor.py: consolidate, _recreate_from_base, to, clone")],
  state=[("base tensor", "interleaved copy of all attributes", "src/gsply/torch/gstensor.py: GSTensor._base")],
  observe=["GSTensor attributes", "to_gsdata", "save"])

p("C06", "Units labels are truthful and saving respects them",
  "At every moment the units labels of a scene (log/linear scales, logit/linear opacities, SH/RGB base colour, SH degree) describe its actual values, and each unit conversion (normalize/denormalize) changes exactly the attributes whose label is not already the target, so converting units or colour back and forth returns the scene up to the documented clamps. Saving a scene in any combination of units, through any writer, stores the same physical scene in PLY units, and combining scenes whose units or SH degrees differ is rejected rather than mixed.",
  ["histories", "configurations"],
  "All combinations of unit labels x all conversion sequences up to a depth x all writers x array and tensor containers.",
  "Tests convert fully-linear or fully-PLY scenes once; mixed label combinations, repeated conversions and non-default writers are not covered.",
  ["src/gsply/gsdata.py", "src/gsply/torch/gstensor.py", "src/gsply/utils.py", "src/gsply/writer.py", "src/gsply/torch/io.py"],
  [("conversions", "src/gsply/gsdata.py: normalize, denormalize, to_rgb, to_sh"),
   ("conversion before writing", "src/gsply/writer.py: _ensure_ply_format; src/gsply/torch/io.py: plywrite_gpu")],
  state=[("units labels", "per-attribute units", "_format")],
  observe=["format_state and is_* queries", "files written"])

p("C07", "No operation changes data it was not asked to change",
  "Saving, compressing, converting to another container, copying, filtering, concatenating, combining masks, iterating, unpacking, and every conversion requested as not-in-place leave the source scene and the caller's own arrays unchanged (values, labels, masks, mask names). Results documented as copies are fully independent of their source: later changes to either one, including adding or removing mask layers and in-place conversions, are never visible in the other.",
  ["histories"],
  "All pairs (deriving operation, later mutation) x which side is mutated x all construction routes and SH degrees, for both containers and for raw input arrays.",
  "Tests check independence for a single attribute of one copy route; the pairs of deriving operation and mutation are not enumerated.",
  ["src/gsply/gsdata.py", "src/gsply/torch/gstensor.py", "src/gsply/writer.py", "src/gsply/utils.py"],
  [("copying", "src/gsply/gsdata.py: copy, copy_slice, __getitem__, add, concatenate, with_format"),
   ("writers", "src/gsply/writer.py: plywrite, _ensure_ply_format")],
  observe=["attributes of all live objects after each step"])

p("C08", "Mask layers behave as named boolean columns",
  "For any history of adding, removing, fetching, combining and applying mask layers, a scene's layers equal an ordered mapping from unique names to boolean vectors of the scene's length: duplicate or unknown names and wrong lengths are rejected with no change, combining yields the exact and/or of the selected layers, and applying keeps exactly the selected Gaussians in order together with all their attributes and mask rows. This holds identically for the array and tensor containers.",
  ["histories"],
  "All sequences up to a depth over add/remove/get/combine/apply with all boolean vectors of small scenes, all layer subsets and both modes, from unmasked, file-loaded and sliced scenes.",
  "Tests use a handful of fixed masks and short scripts; sequences that shrink to one layer, rename, re-add or subset in odd orders are not enumerated.",
  ["src/gsply/gsdata.py", "src/gsply/torch/gstensor.py"],
  [("layer storage", "src/gsply/gsdata.py: add_mask_layer, remove_mask_layer, combine_masks, apply_masks"),
   ("tensor layers", "src/gsply/torch/gstensor.py: the same operations")],
  state=[("masks", "boolean columns", "masks"), ("mask_names", "layer names", "mask_names")],
  observe=["masks", "mask_names", "get_mask_layer", "combine_masks", "apply_masks"])

p("C09", "Indexing selects exactly the rows array indexing selects",
  "For every slice, integer (including negative), integer list or array, and boolean mask, indexing a scene returns exactly the Gaussians that the same index selects from each plain array, in the same order, with labels, masks and mask names preserved, and an out-of-range index or wrong-length mask is rejected. This is the same with or without the internal fast representation, for views and copies, through every selection method (indexing, copying slices, single-Gaussian access, iteration), for both containers.",
  ["inputs", "configurations"],
  "All slices with start/stop/step in a range exceeding the scene length, all integers, all short integer lists, all boolean masks, for all scene lengths up to a bound x all construction routes x all SH degrees.",
  "Tests index with a few hand-picked slices and masks.",
  ["src/gsply/gsdata.py", "src/gsply/torch/gstensor.py"],
  [("selection", "src/gsply/gsdata.py: __getitem__, _slice_from_base, copy_slice, get_gaussian, __iter__"),
   ("tensor selection", "src/gsply/torch/gstensor.py: __getitem__, _slice_from_base")],
  observe=["returned scene or tuple"])

p("C10", "Concatenation is ordered, complete and consistent",
  "Concatenating scenes by any route (pairwise add, the + operator, sum, bulk concatenate; both containers) yields all Gaussians of the inputs in argument order with every attribute unchanged, labels kept, and the same result for every grouping of the same list. Mask layers of a pairwise result are the row-wise stack of compatible inputs (a side without masks contributes rejected rows), and inputs with different SH degree or units raise an error.",
  ["inputs", "histories"],
  "All lists up to a length over a palette of scenes (sizes including 0 and 1, all construction routes, mask shapes, SH degrees, units) x all routes x all groupings.",
  "Tests concatenate two or three equal-layout scenes; mixed layouts (cached with uncached), empty members, mask shape mixes and groupings are not enumerated.",
  ["src/gsply/gsdata.py", "src/gsply/torch/gstensor.py"],
  [("pairwise", "src/gsply/gsdata.py: add, __add__, __radd__"), ("bulk", "src/gsply/gsdata.py: concatenate"),
   ("tensor", "src/gsply/torch/gstensor.py: add, concatenation")],
  observe=["returned scene"])

p("C11", "A truncated or damaged file is rejected, never misread",
  "Reading a file or byte string that is any proper prefix of a valid one, at every byte position and for every format and entry point (file, bytes, tensor and archive readers, format detection), terminates promptly with a clear error (or 'unknown' from format detection) and never returns a scene, hangs, crashes the process or reads outside the data. The same holds when the header's element counts are inconsistent with each other or claim more data than follows.",
  ["crash_points", "inputs"],
  "Every truncation point of uncompressed, compressed (every SH degree) and archive files at several sizes; every small header count value (negative, zero, off by one, huge) for every element.",
  "Tests try an empty or garbage file; no test truncates at each byte or edits counts, and out-of-bounds kernels do not fail visibly.",
  ["src/gsply/reader.py", "src/gsply/formats.py", "src/gsply/torch/compression.py", "src/gsply/sog_reader.py"],
  [("header parsing", "src/gsply/formats.py: _parse_ply_header; src/gsply/reader.py: _read_header_fast"),
   ("size checks", "src/gsply/reader.py: read_uncompressed, read_compressed, decompress_from_bytes; src/gsply/torch/compression.py: read_compressed_gpu")],
  observe=["exception or result of each reader, run in a child process"])

p("C12", "A file is accepted only with exactly the layout it is decoded by",
  "Whenever a reader accepts a PLY file, the returned values are those a generic PLY parser assigns to the same properties: files whose property types, names, order, elements, byte order or encoding differ from a supported layout are rejected with an error instead of being decoded as something else. Every valid supported file is accepted regardless of comments, their content and position, or header length, and format detection agrees with what the readers accept.",
  ["inputs"],
  "All single and pairwise edits of valid headers over an edit alphabet (type changes, renames, swaps, insertions, deletions, extra elements, comments including ones containing header keywords, encodings, header lengths across the read-buffer boundary) x all formats x all readers.",
  "Tests cover one or two malformed headers; which header edits are silently accepted depends on combinations of type, name, order and count.",
  ["src/gsply/formats.py", "src/gsply/reader.py", "src/gsply/torch/compression.py"],
  [("layout checks", "src/gsply/formats.py: detect_format, _is_compressed_format; src/gsply/reader.py: read_uncompressed, _is_compressed_format"),
   ("header scan", "src/gsply/reader.py: _read_header_fast, _parse_header_from_bytes")],
  observe=["plyread", "detect_format", "decompress_from_bytes", "plyread_gpu"])

p("C13", "A failed save is reported and leaves nothing that reads as a scene",
  "If storing the file fails at any point (file cannot be created, or the storage stops accepting data after any number of bytes), every save entry point raises an error, the in-memory scene is unchanged, and whatever remains on disk is not readable as a valid scene. A save that returns normally has stored the complete file, under exactly the documented file name, fully replacing any previous file of that name.",
  ["fault_sequences", "crash_points"],
  "Every byte offset at which storage can stop accepting data, for every writer, SH degree and construction route; every output name form; previous file longer or shorter.",
  "Tests only write to healthy storage.",
  ["src/gsply/writer.py", "src/gsply/torch/compression.py", "src/gsply/torch/io.py", "src/gsply/gsdata.py"],
  [("file writing", "src/gsply/writer.py: write_uncompressed, write_compressed"), ("tensor file writing", "src/gsply/torch/compression.py: write_compressed_gpu")],
  observe=["exception, file content, in-memory scene, under a file-size limit in a child process"])

p("C14", "Concurrent calls behave as if run one after another",
  "When several threads load, save, compress, decompress, slice, copy, concatenate, convert (not in place) or combine masks, on distinct scenes or sharing the same scene read-only, every call returns the result it returns when run alone, under every interleaving, and shared scenes are unchanged. In particular concurrent saves of one scene write identical, complete files and never fail.",
  ["schedules"],
  "All interleavings of two (and for selected operations three) threads at source-line granularity up to a preemption bound, for all pairs of operations over shared and distinct scenes, including first-use initialisation.",
  "Tests are single-threaded.",
  ["src/gsply/writer.py", "src/gsply/reader.py", "src/gsply/gsdata.py", "src/gsply/utils.py", "src/gsply/torch/compression.py", "src/gsply/torch/gstensor.py"],
  [("conversion before writing", "src/gsply/writer.py: _ensure_ply_format"), ("header template cache", "src/gsply/writer.py: _build_header_fast"),
   ("compiled-function cache", "src/gsply/torch/compression.py: _get_compiled_function, _TORCH_COMPILE_DISABLED"),
   ("lazy imports cached on functions", "src/gsply/utils.py: apply_pre_activations")],
  observe=["return values, files, shared objects"])

p("C15", "SOG archives decode to the values the format defines",
  "For every SOG scene of either metadata version, every texture code value of every attribute (16-bit means, scale/colour/SH codebooks or ranges, quaternion mode and components, opacity, palette labels) decodes to the value the format defines, for exactly the stated number of Gaussians in order. Archive file, unpacked folder and in-memory bytes give identical results, and archives with missing members, wrong sizes or unsupported metadata are rejected with an error.",
  ["inputs", "configurations"],
  "All 256 codes of every 8-bit channel and covering sets of 16-bit combinations, all quaternion modes, all SH band counts, both versions x all container forms; all single-member removals and count/size edits.",
  "Tests decode a few synthetic archives; code-dependent and version-dependent paths are not enumerated.",
  ["src/gsply/sog_reader.py"],
  [("decoding", "src/gsply/sog_reader.py")],
  observe=["sogread"])

p("C16", "Activation functions compute the documented transforms",
  "For every input value, shape and memory layout, the conversion utilities (sigmoid, logit, SH/RGB, fused activation and deactivation of a scene) compute the documented elementwise formula with the documented clamps to float32 accuracy, independent of array size, neighbours, layout or thread count, never produce NaN from finite input, and invert each other inside the unclamped range. Activation also normalises quaternions (a near-zero one becomes the fixed identity fallback), and requests not in place leave the input untouched.",
  ["inputs", "configurations"],
  "All 65,536 half-precision-representable values (finite ones) as inputs for each function, all clamp parameter combinations from a grid, all small shapes x layouts x dtypes x thread counts, both containers.",
  "Tests check a few values and random arrays of one shape.",
  ["src/gsply/utils.py", "src/gsply/gsdata.py", "src/gsply/torch/gstensor.py"],
  [("kernels", "src/gsply/utils.py: _activate_gaussians_numba, _deactivate_gaussians_numba, sigmoid, logit, sh2rgb, rgb2sh")],
  observe=["return values"])

p("C17", "Factories keep the given data and label it by one documented rule",
  "Building a scene from arrays or from a dictionary, for either container and any preset, keeps every value unchanged and labels it exactly as the preset or explicit arguments say, with the SH degree of the given coefficients; automatic labelling is a function of the scale and opacity values only and is the same in the constructor, both factories, both containers, and when saving raw arrays. Input that cannot form a valid scene (wrong attribute lengths or an SH band count of no degree) makes saving fail with an error rather than write an inconsistent file.",
  ["inputs", "configurations"],
  "All presets x SH degrees x colour labels x containers x dtypes; all value patterns over a small alphabet of scale and opacity values straddling each documented threshold; all single-attribute shape faults x all writers.",
  "Tests check a few clear-cut examples; threshold behaviour and agreement between the separate implementations is not enumerated.",
  ["src/gsply/gsdata.py", "src/gsply/torch/gstensor.py", "src/gsply/writer.py"],
  [("factories", "src/gsply/gsdata.py: from_arrays, from_dict, create_ply_format, create_rasterizer_format, _detect_format_from_values"),
   ("raw array saving", "src/gsply/writer.py: plywrite, _validate_and_normalize_inputs")],
  observe=["attributes, format_state, files"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
