"""The property table: statements, anchors and how each one is decided."""
R, W_, G, I_, U, F, S_ = ("src/gsply/" + x for x in ("reader.py", "writer.py", "gsdata.py", "__init__.py", "utils.py", "formats.py", "sog_reader.py"))
TC, TG, TI = ("src/gsply/torch/" + x for x in ("compression.py", "gstensor.py", "io.py"))

ROWS = "one symbolic row index and a symbolic number of rows stand for all rows; library calls are modelled (gsa/lib.py); equality of value-flow terms is by exact normal form or, failing that, agreement on random draws that satisfy the path facts (an alarm always carries a concrete disagreeing draw)"

NOT_APPLICABLE = {
    "X01": "how much loss shows depends on the spread of the values within each chunk and on the renderer, runtime quantities that no sound static argument bounds; the half-step bound per code is decided as C03",
    "X02": "elapsed time is a property of a machine and its load, not of the source",
    "X03": "the last bit depends on the rounding of numpy, numba and torch kernels, which the value-flow terms (real arithmetic) do not model; both codecs are decided against the same published format as C03-C06",
    "X04": "the decision is a statistical threshold on the data; whether it is right is not determined by the source. What it must decide for clear-cut data is part of C22",
}

PROPS = [
    dict(id="C01", title="Uncompressed files have the standard 3DGS layout, value for value",
         statement="Saving a dataset uncompressed, through any entry point (file function, container method, host or device container, separate arrays), produces a little-endian binary PLY "
         "whose header lists exactly the 14, 23, 38 or 59 standard float properties of its SH degree in the standard order and announces exactly its number of rows. "
         "Row i of the file holds the values of Gaussian i, converted to the stored (log-scale, logit-opacity, SH) form where the dataset is marked as activated, with higher SH coefficients grouped by channel.",
         over=["inputs", "configurations"], all="all dataset sizes, field values, SH degrees 0-3, memory layouts (separate arrays, strided views, shared buffer from a file), entry points",
         tests="Tests save a handful of small random datasets and read them back with the same library, so a layout error mirrored in the reader, in one fast path, or in one degree stays unseen.",
         files=[W_, I_, G, TG], state=[("_base", "interleaved buffer of a dataset read from a file, streamed without copying", G)],
         mech=[("write_uncompressed header and column assembly", W_), ("plywrite dispatch", W_), ("GSData/GSTensor.save", G)], observe=["bytes of the written file"],
         note=ROWS),
    dict(id="C02", title="Reading a standard uncompressed file yields every field of every row",
         statement="Reading a standard uncompressed 3DGS file through any entry point returns a dataset of exactly the announced number of rows whose fields hold, row for row and unconverted, the values of the properties of that name, "
         "with the shapes of its SH degree and coefficient order undone from channel grouping. The result is marked as log-scale, logit-opacity, SH data of that degree.",
         over=["inputs", "configurations"], all="all row counts, payload values, SH degrees, comments and header lengths, reader entry points",
         tests="Tests read files the library itself wrote, of a few sizes; header parsing shortcuts (fast single-read path, long headers) and per-degree slicing are only sampled.",
         files=[R, I_, G, TG, F], state=[("_base", "zero-copy buffer behind the fields", R)],
         mech=[("read_uncompressed", R), ("plyread", R)], observe=["fields of the returned container", "format record"], note=ROWS),
    dict(id="C03", title="Compressed words encode each row to within half a quantisation step",
         statement="In any compressed output, the packed position, scale, rotation, colour/opacity words and SH bytes of row i decode by the published bit layout to the values of Gaussian i within half a quantisation step relative to the bounds of chunk i/256, "
         "whatever entry point and device produced it. The quaternion component that is dropped is a largest one, and out-of-range values saturate instead of wrapping.",
         over=["inputs", "configurations"], all="all rows, values, chunk positions, SH degrees, CPU and GPU encoders, entry points",
         tests="Round-trip tests use the library's own decoder with loose tolerances on average-looking data; swapped channels, neighbouring-chunk bounds or wrap-around at extremes pass them.",
         files=[W_, TC, I_, G], mech=[("_pack_*_jit / pack kernels", W_), ("_compress_data_internal", W_), ("compress_gpu", TC)], observe=["packed words of the output"],
         note=ROWS),
    dict(id="C04", title="Compressed output is a well-formed PlayCanvas container",
         statement="Every compressed output, whatever entry point produced it, consists of a header declaring chunk, vertex and (for degree above 0) SH elements in that order with the published property names and types, "
         "followed by exactly ceil(N/256) chunk records, N packed rows and N SH rows. The counts in the header always equal the data that follows.",
         over=["inputs", "configurations"], all="all row counts including those not divisible by 256, SH degrees, twelve writer entry points",
         tests="Only a few (N, degree) pairs are written by tests and most are read back by the same library, which would accept a shared deviation.",
         files=[W_, TC, I_], mech=[("_compress_data_internal", W_), ("write_compressed_gpu", TC)], observe=["header and length of the output"], note=ROWS),
    dict(id="C05", title="Chunk bounds are the extremes of exactly the rows in the chunk",
         statement="The bounds stored for chunk j in compressed output are, per axis, the minimum and maximum of positions, of scales limited to [-20, 20], and of colours over exactly the existing rows 256j to 256j+255. "
         "No padding, neighbouring or missing row takes part.",
         over=["inputs"], all="all row counts, chunk positions, values",
         tests="A wrong last chunk or a bound taken from a padded row only changes precision of a few rows, which the tests' tolerances absorb.",
         files=[W_, TC], mech=[("_compute_chunk_bounds / sort-free bounds kernels", W_), ("compress_gpu chunk reduction", TC)], observe=["chunk records of the output"], note=ROWS),
    dict(id="C06", title="Compressed files decode to the published values for every row",
         statement="Reading a compressed file through any entry point or device returns for row i the values the published format defines: lerp of the packed codes within the bounds of chunk i/256, the rotation rebuilt with its dropped component, opacity as logit, colour as SH coefficient, SH bytes by channel. "
         "The result has exactly the announced rows, finite opacities at saturated codes, and is marked as stored-format data of the file's degree.",
         over=["inputs", "configurations"], all="all words, bounds, row counts, SH degrees, CPU/GPU decoders and entry points",
         tests="Tests decode what the library encoded; an error shared by both directions, or in one of the duplicated CPU/GPU decoders, is invisible.",
         files=[R, TC, I_], mech=[("_unpack_*_jit", R), ("read_compressed", R), ("decompress_gpu", TC)], observe=["fields of the returned container"], note=ROWS),
    dict(id="C07", title="A layout that is not the standard one is refused, never misread",
         statement="An uncompressed PLY whose vertex properties are permuted, renamed, missing, extra, of another type, in another encoding, or whose vertex data does not directly follow the header is refused in the documented way, or its values are returned under the right names. "
         "No reader ever returns a dataset whose columns hold other properties' values.",
         over=["inputs"], all="every single departure from the standard vertex layout tried, for symbolic row counts and payloads",
         tests="Tests contain two or three foreign headers; everything else a file from another tool may contain is unsampled.",
         files=[R, F], mech=[("read_uncompressed header checks", R), ("detect_format", F)], observe=["outcome of the reader"],
         note="the list of departures is enumerated per degree, row count and payload are symbolic; " + ROWS),
    dict(id="C08", title="Damaged headers end in the documented refusal, never in a hang",
         statement="Whatever bytes a header consists of - cut at any point, without terminator, with malformed or non-ASCII lines, empty - every reader returns, and refuses in its documented way (ValueError, or the no-result value). "
         "No reader loops forever or leaks another exception type.",
         over=["inputs", "fault_sequences"], all="a family of truncated, unterminated and malformed headers for each of the reader entry points",
         tests="Tests try one truncated and one non-PLY file; a reader that never returns is not something a passing test shows absent.",
         files=[R, F, TC], mech=[("header scanning loops", R), ("detect_format", F), ("_parse_header", TC)], observe=["outcome of the reader"],
         note="headers are enumerated constants interpreted through the sources; a loop whose state repeats at end of file is reported as divergence"),
    dict(id="C09", title="A payload shorter than announced is always refused",
         statement="When a file ends before the data its header announces, at any point of any section, every reader refuses it in its documented way. No reader returns a dataset with missing, repeated or invented rows.",
         over=["inputs", "crash_points"], all="every truncation point (symbolic number of missing items) of every section, SH degrees, entry points",
         tests="Tests truncate one file at one place.",
         files=[R, TC, I_], mech=[("size checks before decoding", R), ("read_compressed_gpu", TC)], observe=["outcome of the reader"], note=ROWS),
    dict(id="C10", title="A selection returns exactly the asked-for rows and all that belongs to them",
         statement="Selecting from a dataset by slice, boolean mask, index array, list, mask layers, get_gaussian or copy_slice returns a dataset whose row k equals, in every field and every mask layer, the k-th selected row of the source. "
         "Layer names, format record and SH degree are carried over, and the result's fields agree with its shared buffer where it has one. Negative indices, steps and repetitions mean what they mean for sequences.",
         over=["inputs", "configurations"], all="all row counts, selections of every kind, both containers, with and without shared buffer, every mask arrangement and degree",
         tests="Tests select from small arrays in one arrangement; a field or mask lost in one of the many fast paths (shared buffer, step, mask) stays unseen.",
         files=[G, TG], state=[("_base", "shared buffer sliced together with its fields", G)], mech=[("__getitem__ / _slice_* / copy_slice / get_gaussian / apply_masks", G), ("__getitem__ and _slice_* of GSTensor", TG)],
         observe=["fields, masks, names, format record and buffer of the result"], note=ROWS),
    dict(id="C11", title="Operations compose: results depend on contents, not on the history behind them",
         statement="After any sequence of container operations (selection, copying, consolidation, conversion, assignment and in-place edits of fields, mask edits, addition, transfer) fields, masks and format record equal the composition of what each operation means. "
         "A dataset backed by a shared buffer never shows other contents than the same dataset without one, and every field stays equal to its columns in the buffer.",
         over=["histories"], all="all ordered pairs of some 30 operations (triples in the thorough tier) from starting points covering both containers, shared buffers, masks, linear and RGB data; symbolic rows and values",
         tests="The suite tests operations one at a time on fresh objects; a stale cache or buffer only shows after a particular sequence.",
         files=[G, TG], state=[("_base", "shared buffer that can become stale", G), ("_format", "format record", G)], mech=[("__setattr__ invalidation of _base", G), ("consolidate / _recreate_from_base", G), ("GSTensor counterparts", TG)],
         observe=["fields, masks, names, format record and buffer after each sequence"], note="histories are bounded by length 2 (3 in the thorough tier); " + ROWS),
    dict(id="C12", title="What is saved is what the dataset currently holds, whatever its history",
         statement="Saving uncompressed after any operation or pair of operations writes the current contents of the dataset, converted to stored form where the format record says so. "
         "No edit, assignment, conversion, selection or addition made before saving is lost, and none is applied twice.",
         over=["histories"], all="every operation from five starting points and all ordered pairs of operations followed by save; symbolic rows and values; both containers",
         tests="Tests save fresh or once-modified datasets; the zero-copy path that streams the shared buffer is only right if every history keeps it valid.",
         files=[G, TG, W_, I_], state=[("_base", "buffer that is streamed to the file", G)], mech=[("save -> plywrite -> write_uncompressed zero-copy path", W_)], observe=["bytes of the saved file"], note="histories bounded by length 2; " + ROWS),
    dict(id="C13", title="What is not in-place leaves its source alone",
         statement="Saving, compressing, transferring, exporting, selecting, copying, adding and every conversion called with inplace=False leave the dataset they are applied to exactly as it was: fields, masks, layer names, format record, and the caller's arrays. "
         "Only operations documented as in-place change their object.",
         over=["inputs", "configurations"], all="every non-in-place operation, writer and transfer on both containers, with shared buffers, masks, linear and RGB data; symbolic rows and values",
         tests="Tests compare results, hardly ever the argument afterwards.",
         files=[G, TG, W_, I_, U], mech=[("copy-before-convert in the writers", I_), ("inplace=False paths", G)], observe=["source container and caller's arrays after the call"], note=ROWS),
    dict(id="C14", title="Copies are independent of their source",
         statement="A result documented as a copy - copy(), clone(), consolidate(), add, selection by mask, index array or list, copy_slice, apply_masks, copying conversions - shares no changeable state with its source: "
         "overwriting anything reachable from one (fields, buffer, masks, layer names, format record) never shows in the other.",
         over=["histories"], all="every copying operation, both directions, both containers, with shared buffers, masks, linear and RGB data",
         tests="Aliasing shows only when something is modified after the copy; tests modify one field at most.",
         files=[G, TG, U], state=[("_base", "buffer the fields are views of", G), ("mask_names, _format", "small mutable records", G)], mech=[("copy / clone / _recreate_from_base", G)], observe=["the other container after overwriting one"], note=ROWS),
    dict(id="C15", title="Conversions compute the documented functions and record the new format",
         statement="normalize, denormalize, to_rgb, to_sh, apply_pre_activations, apply_pre_deactivations, to_ply_tensor and with_format change exactly the fields they are about, by the documented functions (exp/log, sigmoid/logit with their clamps, unit quaternions, SH DC affine map), for every row. "
         "They touch no other field, and afterwards the format record and every is_* predicate state the form the data is in. Invalid bounds are a ValueError without effect.",
         over=["inputs", "configurations"], all="all values (clamps included), row counts, layouts (contiguous, strided, buffer-backed, 2-D opacities), in-place and copying, both containers",
         tests="Tests check a few values and one round trip; clamp order, zero quaternions, layout-dependent kernels and the record are sampled.",
         files=[G, TG, U], state=[("_format", "format record", G)], mech=[("activation kernels", U), ("normalize / denormalize / to_rgb / to_sh", G)], observe=["fields, record and predicates of the result"], note=ROWS),
    dict(id="C16", title="Adding datasets appends their rows in order, or refuses",
         statement="a + b, a.add(b), sum() and GSData.concatenate return a dataset whose rows are those of the parts, in order, for every field, in the format of the parts, with mask layers kept as documented (missing masks count as false). "
         "Parts of different SH degree or format are refused with ValueError, and no part is changed.",
         over=["inputs", "configurations"], all="all sizes, one to three parts, degrees, buffer/no-buffer pairings, twelve pairings of mask arrangements, both containers",
         tests="Tests add equal, small, mask-less datasets.",
         files=[G, TG], mech=[("add / __add__ / __radd__ / concatenate", G), ("GSTensor.add", TG)], observe=["fields, masks, record of the sum and the parts"], note=ROWS),
    dict(id="C17", title="Mask layers keep their names and rows through every sequence of edits",
         statement="After any sequence of add_mask_layer and remove_mask_layer, each name returns exactly the layer stored under it, combine_masks is the row-wise AND or OR of all or of the named layers, and apply_masks keeps exactly the rows where that is true. "
         "Duplicate names, unknown layers, wrong lengths, bad modes and missing masks are a ValueError without effect.",
         over=["histories", "inputs"], all="programs of up to four layer edits from every mask arrangement, both containers; symbolic rows and mask bits",
         tests="Tests use two layers on ten rows; index bookkeeping after removals and the fast kernels for one or many layers are sampled.",
         files=[G, TG], state=[("masks, mask_names", "layer matrix and names", G)], mech=[("add/get/remove_mask_layer, combine_masks, apply_masks", G), ("numba mask kernels", G)], observe=["layers, combinations, selected rows"], note="programs bounded by length 4; " + ROWS),
    dict(id="C18", title="Transfers between host, device and precisions lose nothing",
         statement="from_gsdata, to_gsdata, to, cpu, cuda, half, float, double, detach, clone and chains of them keep every row, field, mask layer, layer name and the format record; values change only by the rounding of the precision asked for. "
         "Afterwards every tensor of the dataset is on the requested device in the requested precision, and every operation also works there.",
         over=["histories", "configurations"], all="chains of transfers and precision changes, every operation on CPU and CUDA tensors, all degrees, mask arrangements, shared buffers; symbolic rows and values",
         tests="There is no GPU in CI, so the device half of every operation is skipped; masks and shared buffers are not sampled in transfers.",
         files=[TG], state=[("_base", "shared buffer moved as one block", TG)], mech=[("from_gsdata / to_gsdata / to", TG)], observe=["fields, masks, names, format record, device, dtype"], note="device semantics are modelled (mixing devices raises); " + ROWS),
    dict(id="C19", title="Activated data is converted field by field on saving",
         statement="For every combination of activated scales, activated opacities and RGB colour in the format record, every writer stores exactly the marked fields in converted (log, logit, SH) form and the others as they are. "
         "Uncompressed columns and compressed codes and bounds alike describe the stored-format values.",
         over=["configurations", "inputs"], all="five combinations of activated fields, with and without shared buffer, fourteen writer entry points; symbolic rows and values",
         tests="Tests save fully activated or fully stored data; a mixed record, or one writer that forgets the conversion, is not sampled.",
         files=[I_, W_, G, TG, TC], state=[("_format", "record that says which fields are activated", G)], mech=[("plywrite conversion before writing", I_), ("compress_gpu", TC)], observe=["vertex columns, chunk bounds and packed words"], note=ROWS),
    dict(id="C20", title="Row access and iteration return the rows asked for; bad keys are refused",
         statement="d[i] is the tuple of row i's values of every field and mask layer, for every i counted from either end, and iterating yields exactly rows 0 to len-1 in order. "
         "Indices outside the dataset are an IndexError, masks of another length a ValueError, other kinds of keys a TypeError, and none of these changes the dataset.",
         over=["inputs", "configurations"], all="all row counts, indices, buffers, mask arrangements, degrees, both containers",
         tests="Tests index two or three rows of one small dataset; off-by-one at the ends and single rows next to masks or shared buffers are not sampled.",
         files=[G, TG], mech=[("__getitem__ / __iter__ / get_gaussian / __len__", G), ("GSTensor.__getitem__", TG)], observe=["returned tuples, exceptions"], note=ROWS),
    dict(id="C21", title="Slices are views: edits show on both sides, in exactly the rows selected",
         statement="A slice (contiguous or stepped) of a dataset shares storage with it, as documented: writing into any field or mask of the slice changes exactly the selected rows of the source, and writing into the source shows in the slice. "
         "No other row changes and shared buffers stay equal to their fields.",
         over=["histories"], all="six kinds of slice, both directions, both containers, with and without shared buffer, masks and degrees; symbolic rows and values",
         tests="Tests check np.shares_memory for one field of one arrangement at most; a field that silently became a copy is not noticed.",
         files=[G, TG], state=[("_base", "buffer the slice's fields are views of", G)], mech=[("_slice_from_base / _recreate_from_base / slice fallback", G), ("GSTensor counterparts", TG)], observe=["source after writing to the slice and vice versa"], note=ROWS),
    dict(id="C22", title="Building a dataset keeps the arrays given and records the format asked for",
         statement="from_arrays, from_dict and the constructors hold exactly the arrays passed, and record the preset asked for, the SH degree of the arrays and the colour form; format 'auto' records linear for small positive scales and opacities in [0,1], stored form for clearly logarithmic data and for empty data. "
         "unpack, to_dict, format_state, copy_format_from and with_format expose or copy exactly that without sharing the record; invalid presets, degrees or keys are refused.",
         over=["inputs", "configurations"], all="all sizes and values (in the documented clear-cut domains for 'auto'), degrees, presets, both containers, devices and dtypes",
         tests="Tests build one dataset per preset with random normal values; swapped fields in dictionaries, aliasing of the record and the device/dtype options are not covered.",
         files=[G, TG], state=[("_format", "format record", G)], mech=[("from_arrays / from_dict / __post_init__ / presets", G), ("GSTensor.from_arrays / from_dict", TG)], observe=["fields, record, degree, device, dtype of the result"], note=ROWS),
    dict(id="C23", title="The right codec and the right path, whatever the file is called",
         statement="Saving writes exactly one file, at the documented path (the given one, or with .compressed.ply added when compressed output is requested under another extension), in the documented codec, replacing whatever was there. "
         "Reading decides by content, not by name: the same dataset comes back whatever the file is called, and detect_format reports codec and SH degree consistently with what the readers do.",
         over=["configurations", "inputs"], all="eight kinds of destination names, five savers, both flag values, six kinds of source names, three readers, both codecs, degrees; symbolic rows and values",
         tests="Tests save to two names. Names with several dots, no suffix, an existing longer file or misleading extensions are not sampled.",
         files=[W_, R, F, G, TG], mech=[("plywrite path and codec selection", W_), ("plyread / detect_format", R), ("GSTensor.save / load", TG)], observe=["set of files written, their bytes, datasets read"], note="names are enumerated; " + ROWS),
    dict(id="C24", title="Reading SOG version 2 returns the scene the bundle encodes",
         statement="For every valid version-2 SOG bundle - a folder, a .sog archive or its bytes - sogread returns exactly `count` rows with every field as the format defines it: 16-bit logarithmic positions, smallest-three quaternions, codebook scales and colours, logit opacities, palette SH coefficients. "
         "The file names come from the metadata, the format record is the stored form and the SH degree that of the bundle.",
         over=["inputs", "configurations"], all="all texture sizes, pixels, bounds, codebooks, palettes; degrees 0-3; RGB and RGBA textures; five ways of handing the bundle over; flat axes",
         tests="Tests read one generated bundle per degree and compare shapes; byte order, channel order, palette rows beyond 64 entries and flat axes are not sampled.",
         files=[S_], mech=[("sogread and its decoding kernels", S_)], observe=["fields, format record and masks of the dataset"], note="the WebP decoder and ZIP reader are modelled as returning the stored pixels and entries; " + ROWS),
    dict(id="C25", title="Reading SOG version 3 returns the scene the bundle encodes",
         statement="For every valid version-3 SOG bundle - a folder, a .sog archive or its bytes - sogread returns exactly the rows its shapes announce with every field as the format defines it: 16-bit logarithmic positions, smallest-three quaternions, linearly quantised scales, colours, logit opacities and palette SH coefficients. "
         "The format record is the stored form and the SH degree follows from the coefficient count.",
         over=["inputs", "configurations"], all="all texture sizes, pixels, bounds and palettes; degrees 0-3; RGB and RGBA textures; five ways of handing the bundle over; flat axes",
         tests="Tests read one small bundle; per-channel bounds and palettes with more than one texture row are not sampled.",
         files=[S_], mech=[("sogread and its decoding kernels", S_)], observe=["fields, format record and masks of the dataset"], note="the WebP decoder and ZIP reader are modelled as returning the stored pixels and entries; " + ROWS),
    dict(id="C26", title="Broken SOG bundles are refused with ValueError",
         statement="sogread refuses, with ValueError, a path that does not exist, content that is not an archive, metadata that is not a JSON object or lacks or shortens an entry the format needs, missing textures, textures smaller than the row count, codebooks shorter than the labels that refer to them, and unsupported SH band counts. "
         "Without imagecodecs it is an ImportError. It never returns invented rows or reads outside a texture or codebook.",
         over=["fault_sequences", "inputs"], all="every metadata entry and every file removed or shortened, one at a time, for both versions; every size relation of texture and count; all label values against a short codebook",
         tests="Tests cover three or four refusals; the rest of the metadata is taken on trust there.",
         files=[S_], mech=[("sogread checks of paths, metadata and sizes", S_)], observe=["exceptions"], note="one defect at a time; " + ROWS),
    dict(id="C27", title="Compiled kernels never read or write outside their arrays",
         statement="The numba kernels are compiled without bounds checks, so every subscript they evaluate must lie within the array it indexes, for every dataset and for every file, archive or texture the entry points let through to them. "
         "A violation would read or overwrite unrelated memory silently.",
         over=["inputs", "fault_sequences"], all="every subscript of every kernel reached by writing, reading, converting, masking and SOG decoding; symbolic sizes, labels, palettes and texture shapes, including those that do not fit together",
         tests="An out-of-bounds access of a compiled kernel usually returns garbage or zeros and no test notices it.",
         files=[W_, R, G, U, S_], mech=[("compression and decompression kernels", W_), ("mask kernels", G), ("activation kernels", U), ("SOG kernels", S_)], observe=["index and extent of each access"], note="kernels that nothing calls are not judged; " + ROWS),
    dict(id="C28", title="Parallel loops give the same result under every schedule",
         statement="In every parallel (prange) loop of the compiled kernels, two different iterations never write the same cell, none reads a cell another one writes, and no scalar travels from one iteration to the next except as a reduction. "
         "The result therefore does not depend on the number of threads or on the schedule.",
         over=["schedules"], all="every parallel loop reached by writing, reading, converting, masking and SOG decoding, for all sizes",
         tests="A race shows only under some schedules, on large inputs, and rarely twice in the same way.",
         files=[W_, R, G, U, S_], mech=[("prange loops", W_)], observe=["cells each iteration reads and writes"], note="kernels that nothing calls are not judged; " + ROWS, technique="dependence analysis of parallel loops over the trace-partitioned abstract interpretation"),
    dict(id="C29", title="sigmoid, logit, sh2rgb and rgb2sh compute the documented formulas",
         statement="The public functions sigmoid, logit (with its clamp eps), sh2rgb and rgb2sh return, for scalars and for arrays of any shape, layout and numeric type, the documented value for every element, as floating point of the same shape. "
         "They never modify their argument.",
         over=["inputs", "configurations"], all="scalars; arrays of one to three dimensions, contiguous, strided, reversed, transposed; float32, float64, integers and booleans; all values including those beyond the clamps",
         tests="Tests evaluate a handful of float arrays; integer arrays, non-contiguous layouts and values at the clamps are not sampled.",
         files=[U], mech=[("sigmoid / logit / sh2rgb / rgb2sh", U)], observe=["returned values, shape and type; the argument"], note="float rounding is not modelled; zero-dimensional arrays excluded"),
    dict(id="C30", title="Without the optional packages everything else still works",
         statement="Without PyTorch (absent, or failing while it is imported) and without imagecodecs, `import gsply` and every name of its public list work, and reading, writing, compressing, converting, masking and combining datasets on the host behave as with them. "
         "Only GSTensor, plyread_gpu and plywrite_gpu (no PyTorch) and sogread (no imagecodecs) raise ImportError naming what to install; an unknown name is an AttributeError.",
         over=["configurations"], all="each subset of the optional packages missing, and PyTorch failing to initialise; every host-side entry point, degree and container form",
         tests="The test environment has all optional packages installed, so the paths taken without them never run.",
         files=["src/gsply/__init__.py", "src/gsply/torch/__init__.py", W_, S_], mech=[("lazy attributes", "src/gsply/__init__.py:__getattr__"), ("import guards", "src/gsply/torch/__init__.py"), ("plywrite type dispatch", W_), ("imagecodecs guard", S_)], observe=["exceptions and results of host-side calls"], note="numpy and numba are taken as present; " + ROWS),
    dict(id="C31", title="Arrays that do not fit together are refused before anything is written",
         statement="When one array of a dataset has another number of rows than the rest, or another number of columns than its field has, every writer - file or bytes, compressed or not, host or device, dataset or separate arrays - raises. "
         "No file appears or changes and no existing file is truncated by the attempt.",
         over=["inputs"], all="every writer x every field x (any other row count, none, one, a column more or less, flat or two-dimensional form), symbolic row counts, degrees 0, 1 and 3",
         tests="Tests try single mismatched shapes on one writer and do not look at the file afterwards.",
         files=[W_, TC], mech=[("_validate_and_normalize_inputs", W_), ("compress_gpu", TC)], observe=["exceptions; files after the attempt"], note="validate=False is outside; the number of SH bands is not restricted by the compressed writers; " + ROWS),
    dict(id="C32", title="Datasets without rows work everywhere",
         statement="A dataset with no rows can be written and compressed by every writer, read back by every reader, selected from, converted, added, masked, iterated, copied and transferred. "
         "The result is again a well-formed dataset or file announcing zero rows, with the SH degree, layer names and format record kept.",
         over=["inputs", "programs"], all="every scenario of C01, C02, C04, C06, C10, C13, C15-C20 and C22 with the row count zero",
         tests="Tests touch a handful of empty selections; empty inputs of kernels, codecs and transfers are not sampled.",
         files=[G, W_, R, TC, TG], mech=[("containers", G), ("writers", W_), ("readers", R), ("device codec", TC), ("device container", TG)], observe=["exceptions, shapes, headers, names and format record"], note="scenarios whose operation needs a row (an index into the dataset) drop out"),
    dict(id="C33", title="make_contiguous makes every array contiguous and is_contiguous tells the truth",
         statement="GSData.is_contiguous() answers True exactly when every array present, masks included, is C-contiguous, whichever way the dataset came about. make_contiguous() leaves every array contiguous with the values, masks, names and format record it had, in place by default; "
         "with inplace=False the source stays as it was and another object is returned.",
         over=["inputs", "programs"], all="datasets with and without a base array, each array in turn strided, after every kind of selection and edit; SH degrees 0-3, mask forms",
         tests="Tests check one dataset read from a file; strided masks, single strided fields and already contiguous data with inplace=False are not sampled.",
         files=[G], mech=[("make_contiguous", G + ":GSData.make_contiguous"), ("is_contiguous", G + ":GSData.is_contiguous")], observe=["layout flags and contents of every array"], note=ROWS),
    dict(id="C34", title="Datasets that track gradients can be used like any other",
         statement="A GSTensor whose tensors require gradients can be sliced, converted between colour, activation and element formats, copied, moved, added, masked, written and turned back into GSData without an error, and with the same values as one that does not. "
         "Results that are GSTensors again still track gradients and the source keeps doing so; only the conversion to host data and files detaches.",
         over=["inputs", "programs"], all="every operation, use and writer of GSTensor x (from_gsdata(requires_grad=True), leaves set by hand) x base / arrays, SH degrees 0-3, mask forms, formats",
         tests="Tests convert one dataset with requires_grad=True and look at the flags; operations on the result are hardly tried.",
         files=[TG, TC], mech=[("GSTensor operations", TG), ("device compression", TC)], observe=["exceptions, values and requires_grad of results and sources"], note="gradient values themselves are not judged; whole-dataset add with one tracking side included; " + ROWS),
    dict(id="C35", title="One call never influences the next",
         statement="What a call returns depends on its arguments and the file it is given alone: reading, writing, building or converting a second dataset gives what it would have given first, even under the same file name and with the same shapes, "
         "and neither later calls nor overwriting an earlier result in place changes a result already handed out or a later one.",
         over=["histories", "inputs"], all="pairs and triples of calls of every reader, writer, constructor, preset and operation, with equal and different sizes, SH degrees and file names, the first result overwritten in between; symbolic contents",
         tests="Tests use fresh inputs and look at one result at a time; caches, reused buffers and shared defaults show only across calls.",
         files=[R, W_, G, TG, TC, S_], mech=[("readers", R), ("writers", W_), ("constructors", G), ("device codec", TC), ("SOG reader", S_)], observe=["results of each call of a sequence"], note="state kept by numpy, numba and torch themselves is outside; " + ROWS),
    dict(id="C36", title="Every file opened is closed again, and reading writes nothing",
         statement="Whatever a reader or writer does - result, refusal or exception - every file, archive and archive member it opened is closed by the time it returns, and readers neither create nor change any file.",
         over=["inputs", "fault_sequences"], all="every path of the reading, refusing, decoding and writing scenarios of C01, C02, C04, C06-C09, C24-C26 and C31",
         tests="A handle left open on a refusal path shows only as a warning or as exhausted descriptors after many calls; tests do not count them.",
         files=[R, W_, S_, TC], mech=[("readers", R), ("writers", W_), ("SOG bundles", S_), ("device reading and writing", TC)], observe=["open handles at return; files created"], note="library calls that open and close a file themselves are taken to close it; " + ROWS),
    dict(id="C37", title="A dataset describes itself correctly",
         statement="After every operation len(), get_sh_degree(), the format predicates, and on the device has_high_order_sh(), device and dtype agree with the arrays and the format the operation must have produced, for the result and for the source - also after arrays were replaced by hand with arrays of another SH degree or length. "
         "format_state is a copy: changing it changes nothing.",
         over=["inputs", "programs"], all="every operation of both containers x base / arrays x SH degrees 0-3 x mask forms x formats; the device also on cuda",
         tests="Tests ask a few freshly built datasets; degree 0 with an empty shN, results of conversions and of selections are not asked.",
         files=[G, TG], mech=[("GSData properties", G), ("GSTensor properties", TG)], observe=["answers of the describing methods"], note=ROWS),
    dict(id="C38", title="An operation that is refused leaves the dataset as it was",
         statement="When an operation of GSData or GSTensor raises - a wrong argument, an unknown mask layer, arrays or masks that do not fit together, a partner that cannot be combined - the dataset and every other operand keep exactly the arrays, values, "
         "masks, layer names and format record they had, in-place operations included. Arguments outside the documented ones and ill-shaped scales, quaternions or opacities given to the activation helpers are refused.",
         over=["inputs", "fault_sequences"], all="every operation of both containers x (each field or the masks with a row more or less, unfit columns or dimensions, invalid arguments, unfit second and third partners) x base / arrays, mask forms, formats; symbolic row counts",
         tests="Tests assert that an exception is raised and drop the dataset; what an in-place operation had already changed by then is not looked at.",
         files=[G, TG], mech=[("in-place operations and argument checks", G), ("device container", TG)], observe=["exceptions; operands afterwards"], note="direct attribute assignment is outside, as are exceptions such as running out of memory; " + ROWS),
    dict(id="C39", title="Concurrent calls do not disturb each other",
         statement="Calls made from several threads on different datasets and files - reading, writing, compressing, building, converting - give what each would give alone, whatever their interleaving: "
         "no call overwrites state that another call can see (module variables, class attributes, default arguments, remembered results, shared scratch arrays) unless both hold the same lock, and writers of different files touch no common third file.",
         over=["schedules", "histories"], all="all interleavings of any two calls out of every reader, writer, constructor, conversion and utility function; symbolic contents",
         tests="Tests call one function at a time; an interleaving that corrupts a result is rare and not reproducible.",
         files=[R, W_, G, TG, TC, S_, U], mech=[("readers", R), ("writers", W_), ("containers", G), ("device codec", TC), ("SOG reader", S_), ("utilities", U)], observe=["stores to state shared between calls, with the locks held"], note="calls on the same dataset are outside; numpy, numba and torch themselves are taken to be safe; lazy initialisation (None or absent to a value) is taken to be benign"),
    dict(id="X01", title="Lossy compression stays visually small",
         statement="A dataset read back from its compressed file looks the same: positions, scales, rotations and colours differ by amounts that do not show when rendered.",
         over=["inputs"], all="all datasets", tests="The size of the loss depends on the spread of values within each chunk of the data at hand.",
         files=[W_, R], mech=[("quantisation", W_)], observe=["rendered images"], note="not claimed"),
    dict(id="X02", title="Reading and writing stay within the documented times",
         statement="Reading and writing 400000 Gaussians takes the milliseconds the documentation states, and grows linearly with the number of rows.",
         over=["inputs", "configurations"], all="all dataset sizes on the documented machine", tests="Timings depend on the machine, the disk and the load.",
         files=[R, W_], mech=[("kernels", W_)], observe=["wall-clock time"], note="not claimed"),
    dict(id="X03", title="Host and device codecs agree bit for bit",
         statement="plywrite and plywrite_gpu produce the same bytes for the same dataset, and plyread and plyread_gpu the same floats for the same file.",
         over=["inputs"], all="all datasets and files", tests="Equality of the last bit depends on the libraries' rounding of each value.",
         files=[W_, TC], mech=[("quantisation", TC)], observe=["bytes and floats"], note="not claimed"),
    dict(id="X04", title="Automatic format detection recognises every dataset",
         statement="format='auto' and plywrite of separate arrays tell linear from logarithmic scales and opacities for every dataset.",
         over=["inputs"], all="all datasets", tests="The decision is a threshold on statistics of the values.",
         files=[G], mech=[("_detect_format_from_values", G)], observe=["format record"], note="not claimed"),
]
