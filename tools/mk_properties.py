"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))


prop("C01", "Every patch an operation returns is internally coherent",
     "Whatever patch operations are chained, every returned patch is self-consistent: its array has exactly one axis per dimension, each as long as that dimension's coordinate, and every other coordinate has the shape of the dimensions it is attached to. The metadata a patch reports about its coordinates and dimensions (names, minimum, maximum, step, units, type) always equals what the coordinate values themselves give.",
     ["inputs", "programs"], "all patches (dimension count and order, coordinate type, sampling, direction, units, extra coordinates) and all sequences of public patch operations",
     "Each test applies one operation to a handful of example patches; incoherence appears after combinations (edit coordinates, then reduce, then transpose ...) on unusual coordinates that no test enumerates.",
     ["dascore/core/patch.py", "dascore/core/coordmanager.py", "dascore/core/coords.py", "dascore/core/attrs.py"],
     [("patch construction reconciles data, coords and attrs", "dascore/core/patch.py"),
      ("coord manager validates shapes and dims", "dascore/core/coordmanager.py"),
      ("coordinate summaries", "dascore/core/coords.py")])

prop("C02", "Operations never modify their inputs",
     "Patches, coordinates, attributes and spools behave as immutable values: after any operation, successful or failing, every pre-existing patch, spool, array or other argument the caller still holds has exactly the data, coordinates, attributes and contents it had before. Changing the result of an operation that documents a copy never changes the original.",
     ["inputs", "programs"], "all public patch and spool operations with all valid (and invalid) arguments on all patches",
     "The tests compare outputs; aliasing shows only if the old object is re-examined after the new one was produced, for each operation and each argument combination that takes an in-place path.",
     ["dascore/core/patch.py", "dascore/proc", "dascore/transform", "dascore/utils/array.py", "dascore/core/spool.py"],
     [("operations build new patches through new/update", "dascore/proc/basic.py"),
      ("spools derive new instances", "dascore/core/spool.py")])

prop("C03", "Selection keeps exactly the samples whose labels match the query",
     "Selecting from a patch by a value range, open or half-open range, relative range, sample numbers, array of values or boolean mask, on any coordinate, keeps exactly the samples whose label satisfies the query, in their original order and with their original labels and data. Query values given with units, as time strings, or as relative offsets mean the same physical bounds as the plain values, and a query that matches nothing yields an empty result rather than wrong samples.",
     ["inputs"], "all coordinates (even, uneven, reversed, unsorted, duplicate-valued, time, numeric), all bounds including those on, between and outside samples, and all query forms",
     "Boundary behaviour depends on floating point and integer-time positions of both the coordinate and the bound; tests use a few round numbers on ascending coordinates.",
     ["dascore/proc/coords.py", "dascore/core/coordmanager.py", "dascore/core/coords.py"],
     [("range/array selection per coordinate class", "dascore/core/coords.py"),
      ("indexer propagation to data and associated coords", "dascore/core/coordmanager.py"),
      ("patch.select / patch.sel / iselect", "dascore/proc/coords.py")])

prop("C04", "Reordering and reshaping never separate a sample from its labels",
     "Sorting, ordering by given values, flipping, transposing, renaming, squeezing, adding or swapping dimensions, rolling, and making dimensions broadcastable or aligned only rearrange a patch: each sample is found afterwards under the same coordinate labels it had before, and no sample appears or disappears except those the call asks for. Orderings come out in the requested order.",
     ["inputs", "programs"], "all patches with any number of attached coordinates, all permutations/argument forms and all compositions of these operations",
     "Tests check shape or a single coordinate of one example patch; the label/sample pairing over all attached coordinates for all dimension orders is not examined.",
     ["dascore/proc/coords.py", "dascore/proc/basic.py", "dascore/proc/align.py", "dascore/core/coordmanager.py"],
     [("sort/order/flip/transpose/rename/set_dims", "dascore/proc/coords.py"),
      ("coord manager reindexing", "dascore/core/coordmanager.py"),
      ("align_to_coord", "dascore/proc/align.py"), ("roll, squeeze, append_dims", "dascore/proc/basic.py")])

prop("C05", "A coordinate is exactly the sequence of values it was built from",
     "A coordinate built from an array, or from start/stop/step/length, has exactly those values, and its length, limits, sortedness, step, dtype, equality and hash are those of that sequence however it is represented internally. Indexing, slicing, sorting, reversing, snapping, changing length or limits, and looking up the index of values give the same result as doing so on the plain value array.",
     ["inputs"], "all value sequences (datetime, timedelta, float, int; even, uneven, reversed, constant, empty, single, partial) and all operations on them",
     "Two or more internal representations must agree for every value sequence; tests sample a few fixtures per class.",
     ["dascore/core/coords.py"],
     [("representation choice", "dascore/core/coords.py get_coord"), ("evenly sampled coordinate", "dascore/core/coords.py CoordRange"),
      ("monotonic/array coordinates", "dascore/core/coords.py")])

prop("C06", "Editing coordinates or attributes changes only what was asked",
     "Updating, adding, dropping, renaming, re-attaching or re-unit-ing coordinates or attributes changes precisely the named items to the requested values, leaving the data and every other coordinate, dimension and attribute untouched. Requests that would make the patch inconsistent (wrong length, unknown name) are refused with an error and not silently applied.",
     ["inputs", "programs"], "all patches, all edit requests (valid and invalid), all sequences of edits",
     "The space of (existing coordinate, replacement value form, attribute) triples is large; tests pin a handful of forms.",
     ["dascore/proc/coords.py", "dascore/proc/basic.py", "dascore/core/coordmanager.py", "dascore/core/coords.py", "dascore/core/attrs.py"],
     [("update_coords/drop_coords/rename_coords", "dascore/proc/coords.py"), ("update_attrs", "dascore/proc/basic.py"),
      ("coord manager update", "dascore/core/coordmanager.py"), ("limits/step update", "dascore/core/coords.py")])

prop("C07", "Patch arithmetic acts element-wise on equal labels, with units",
     "Arithmetic, comparison and array functions on patches (with scalars, arrays or other patches on either side, and quantities on the right) equal the same operation on the arrays after matching samples that carry the same labels, broadcasting over dimensions only one side has. Units combine as the physical operation demands and incompatible units or labels are refused instead of combined.",
     ["inputs"], "all operators and array functions, all operand kinds/orders, all partially overlapping or reordered patches and unit combinations",
     "The number of (operator, operand kind, alignment, unit) combinations is far beyond the tests' samples.",
     ["dascore/utils/array.py", "dascore/utils/patch.py", "dascore/core/patch.py", "dascore/core/coordmanager.py"],
     [("ufunc dispatch and units", "dascore/utils/array.py"), ("patch alignment / coord merging", "dascore/utils/patch.py"),
      ("operator dunders", "dascore/core/patch.py")])

prop("C08", "Aggregations equal the reduction over the named dimensions",
     "Reducing a patch (min, max, mean, median, std, sum, first, last, any, all, custom functions, numpy functions) over one, several or all dimensions gives exactly the array reduction over those axes (one dimension after the other, in the order named), with every remaining sample under its original labels. The reduced dimension is kept as a single sample, dropped, or relabelled as requested, and its label is the documented summary of the original coordinate.",
     ["inputs"], "all methods, dimension subsets, dimension-reduction modes, dtypes, NaN placements and coordinate kinds",
     "Tests use one or two dims of float example patches without missing values.",
     ["dascore/proc/aggregate.py", "dascore/core/coords.py", "dascore/utils/array.py"],
     [("aggregate", "dascore/proc/aggregate.py"), ("coordinate reduction", "dascore/core/coords.py reduce_coord"),
      ("numpy function protocol", "dascore/utils/array.py")])

prop("C09", "Rolling windows summarise exactly the samples they are labelled with",
     "A rolling statistic at a label equals that statistic of exactly the window of samples ending at (or centred on) that label, missing where the window is incomplete, at every requested stride and along the requested dimension only. Which computing engine is used, and the order of the patch's dimensions, never changes the result.",
     ["inputs", "configurations"], "all window lengths, strides, centring, units, functions, engines, dimension orders and data",
     "Windows, strides and centring interact arithmetically; tests fix a few and mostly compare shapes.",
     ["dascore/proc/rolling.py", "dascore/utils/moving.py"],
     [("numpy and pandas rollers", "dascore/proc/rolling.py"), ("moving-window kernels", "dascore/utils/moving.py")])

prop("C10", "A spool is an immutable ordered sequence of patches",
     "A spool behaves as a sequence: its length, iteration, positive and negative indexing, slicing, array and boolean indexing, sorting, splitting and mapping all agree on one list of patches, and its contents table describes those patches row for row, in the same order. Operations return new spools and leave the original as it was; spools built the same way from equal patches compare equal, and spools with different contents do not.",
     ["inputs", "programs"], "all collections of patches and all sequences of spool operations, including on chunked, selected and sliced spools",
     "Operations interact (slicing a chunked, selected, sorted spool); tests exercise one operation at a time.",
     ["dascore/core/spool.py", "dascore/clients/filespool.py", "dascore/utils/pd.py"],
     [("data-frame backed spool", "dascore/core/spool.py"), ("instruction/source tables", "dascore/core/spool.py")])

prop("C11", "Selecting from a spool equals selecting from each of its patches",
     "Selecting on a spool (by coordinate range, attribute value, wildcard, or collection of values) returns exactly the patches that match, each trimmed exactly as if the selection were applied to the patch itself, and never returns a patch or sample outside the query. This holds for in-memory, file and directory spools, before or after other spool operations, and selections compose.",
     ["inputs", "programs"], "all spools, queries, and compositions of selections",
     "Correctness is a relation between table filtering and per-patch trimming for all bounds; tests use a few.",
     ["dascore/core/spool.py", "dascore/utils/pd.py", "dascore/utils/patch.py", "dascore/clients/dirspool.py"],
     [("dataframe filtering", "dascore/utils/pd.py"), ("instruction adjustment and patch trimming", "dascore/core/spool.py")])

prop("C12", "Chunking and merging neither lose, duplicate nor relabel samples",
     "Merging contiguous patches, or chunking a spool into segments of any length and overlap, yields patches that contain every sample of the inputs with its own labels and data exactly as often as the request implies: once each when merging or chunking without overlap. Gaps larger than the tolerance are never bridged, patches of different groups are never joined, overlapping inputs are resolved without duplicating labels, partial segments are kept or dropped as requested, and segments have the requested length.",
     ["inputs", "programs"], "all sets of patches (order, gaps, overlaps, sampling, groups, extra coordinates) and all chunk lengths, overlaps, tolerances and partial policies",
     "Off-by-one and rounding behaviour at every boundary position over all gap/overlap layouts cannot be enumerated by the existing examples.",
     ["dascore/utils/chunk.py", "dascore/utils/patch.py", "dascore/core/spool.py", "dascore/utils/coordmanager.py", "dascore/utils/attrs.py"],
     [("chunk planning", "dascore/utils/chunk.py"), ("patch forcing-merge", "dascore/utils/patch.py"), ("coord manager merge", "dascore/utils/coordmanager.py")])

prop("C13", "Concatenating and stacking patches keeps every sample under its label",
     "Concatenating patches along an existing or new dimension yields every sample of each input, in input order, under its own labels, and stacking patches yields the element-wise sum of the compatible patches. Incompatible patches are refused, warned about or skipped exactly as requested, never silently combined.",
     ["inputs"], "all lists of patches, dimensions (existing or new), length limits and compatibility policies",
     "Combinations of mismatching coordinates, dims and lengths are unlimited; tests cover a few.",
     ["dascore/utils/patch.py", "dascore/core/spool.py"],
     [("concatenate_patches / stack_patches", "dascore/utils/patch.py")])

prop("C14", "Files return exactly the patches that were written to them",
     "Writing patches to the native file format (or a pickle) and reading them back returns equal patches: same data, dtype, dimension order, coordinates of every kind, units, attributes and history. Writing more patches to the same file keeps those already there, reading with a query equals reading everything and then selecting, and scanning the file describes exactly what reading returns.",
     ["inputs", "histories"], "all patches storable in a file, all sequences of writes, all read queries",
     "Round trips depend on every coordinate representation, dtype and attribute value; tests round-trip a fixed list of example patches.",
     ["dascore/io/dasdae/core.py", "dascore/io/dasdae/utils.py", "dascore/io/pickle/core.py", "dascore/io/core.py", "dascore/utils/hdf5.py"],
     [("DASDAE save/load of patches", "dascore/io/dasdae/utils.py"), ("read/write dispatch", "dascore/io/core.py")])

prop("C15", "A directory spool reflects exactly the files in its directory",
     "After an update, a directory spool describes and returns exactly the readable patches stored under its directory, whatever sequence of files being added, put in subdirectories, and spools being reopened, selected from or updated again led there; repeating an update changes nothing. Reading through the index returns the same patches as reading the files directly.",
     ["histories", "inputs"], "all histories of file additions (including sub-directories, unreadable and foreign files), index updates, reopenings and queries",
     "Index contents depend on the history of updates; tests do one or two fixed steps.",
     ["dascore/clients/dirspool.py", "dascore/io/indexer.py", "dascore/utils/hdf5.py"],
     [("directory index", "dascore/io/indexer.py"), ("HDF index manager", "dascore/utils/hdf5.py"), ("directory spool", "dascore/clients/dirspool.py")])

prop("C16", "Scanning and format detection agree with reading and survive bad input",
     "Every file written by a supported writer is detected as that format and version, and scanning reports the same dimensions, coordinate limits, attributes and number of patches that reading returns. Unknown, empty, truncated or corrupt files are rejected with a documented error (or skipped when scanning), never misreported as good data, never crash the process, and never change the file.",
     ["inputs", "fault_sequences"], "all files: written by any writer, then left intact, truncated, bit-flipped, renamed or replaced by arbitrary bytes",
     "Tests use pristine fixture files only.",
     ["dascore/io/core.py", "dascore/io/dasdae", "dascore/io/pickle", "dascore/io/wav", "dascore/io/rsf", "dascore/io/segy", "dascore/utils/io.py"],
     [("FiberIO manager, get_format, scan, read", "dascore/io/core.py")])

prop("C17", "Vendor-format readers return the stored samples under the right labels",
     "Reading a file in a supported interrogator or interchange format yields exactly the stored samples, with the time, distance and metadata the file's header declares, and scanning the file declares the same thing as reading it. Reading with a time, distance or sample range returns exactly what reading everything and then selecting that range returns.",
     ["inputs"], "all well-formed files of each format (sizes, layouts, time stamps, header values) and all query ranges",
     "The tests' vendor files are single downloads (absent offline); headers and ranges are not varied.",
     ["dascore/io/h5simple", "dascore/io/prodml", "dascore/io/terra15", "dascore/io/sintela_binary", "dascore/io/segy", "dascore/io/xml_binary", "dascore/io/silixah5", "dascore/io/optodas", "dascore/io/dashdf5", "dascore/io/gdr", "dascore/io/ap_sensing", "dascore/io/neubrex", "dascore/io/febus", "dascore/io/sentek", "dascore/io/rsf", "dascore/io/wav"],
     [("per-format header parsing and partial loading", "dascore/io/<format>/utils.py")])

prop("C18", "Time conversions are exact and mutually consistent",
     "Converting between strings, numbers, datetimes, time deltas, pandas and numpy types denotes the same instant or duration to nanosecond precision for every representation, scalar or array, and missing values stay missing. Converting back returns the original value, and conversion order and container type never change the result.",
     ["inputs"], "all instants and durations representable in nanoseconds, in all accepted types, units and containers",
     "Precision and unit mistakes appear only for particular dtypes/resolutions/magnitudes.",
     ["dascore/utils/time.py"],
     [("to_datetime64/to_timedelta64/to_int/to_float", "dascore/utils/time.py")])

prop("C19", "Unit conversion preserves the physical quantity",
     "Converting the data or any coordinate of a patch to other units multiplies (and offsets) the numbers so that the physical quantity is unchanged, converting back restores the original, and setting units changes the label only. Filter bounds and window sizes given in any compatible unit mean the same physical amount, while incompatible units are refused.",
     ["inputs"], "all unit pairs (including offset, inverse, dimensionless and time units), all patches and all unit-accepting arguments",
     "The unit space is unbounded; tests try a few length/time units.",
     ["dascore/units.py", "dascore/proc/units.py", "dascore/core/coords.py", "dascore/core/coordmanager.py"],
     [("quantity parsing/conversion", "dascore/units.py"), ("convert/set/simplify units", "dascore/proc/units.py"), ("coordinate unit conversion", "dascore/core/coords.py")])

prop("C20", "Fourier transforms equal their definition and invert exactly",
     "Forward transforms of a patch equal the discrete Fourier sums at the frequencies that label them (including their scaling, and the time origin), over any dimensions, real or complex, padded or not. The inverse transforms restore the original samples, labels, coordinates and units, and signal energy is preserved as documented.",
     ["inputs"], "all patches (lengths, offsets, steps, dtypes), dimension subsets, padding and window choices",
     "Correctness depends on odd/even and prime lengths, origin offsets and dimension combinations; tests use two signals.",
     ["dascore/transform/fourier.py", "dascore/utils/patch.py"],
     [("dft/idft/stft/istft", "dascore/transform/fourier.py")])

prop("C21", "Integration, differentiation and strain match their numerical definitions",
     "Integrals equal trapezoidal sums over the coordinate, derivatives equal the stated finite differences over the coordinate at every sample, and strain and strain-rate conversions equal the gauge-length difference they document, along the named dimension(s) only. Units follow the operation, evenly and unevenly sampled or reversed coordinates are honoured, and labels stay with their samples.",
     ["inputs"], "all patches, dims, orders, strides, gauge lengths, and coordinate samplings",
     "Tests use linear or constant example data on evenly sampled axes.",
     ["dascore/transform/integrate.py", "dascore/transform/differentiate.py", "dascore/transform/strain.py"],
     [("integrate", "dascore/transform/integrate.py"), ("differentiate", "dascore/transform/differentiate.py"), ("velocity_to_strain_rate and friends", "dascore/transform/strain.py")])

prop("C22", "Filters act only along the named dimensions, as the reference filter does",
     "Every filter, detrend, whitening, envelope and window statistic gives, for each trace along the named dimension(s), the result the documented reference algorithm gives on that trace alone with parameters taken in the coordinate's units; other traces, dimension order, labels and units do not influence it. Linear filters are linear, frequency limits given by name, period or unit are honoured, and filters named for several dimensions apply to all of them.",
     ["inputs", "configurations"], "all filters, parameters, units, dimension orders and data",
     "Each filter is tested on a default-ordered example for shape or gross effect.",
     ["dascore/proc/filter.py", "dascore/proc/detrend.py", "dascore/proc/hampel.py", "dascore/proc/whiten.py", "dascore/proc/wiener.py", "dascore/transform/hilbert.py", "dascore/transform/stalta.py", "dascore/transform/kurtosis.py", "dascore/utils/moving.py"],
     [("pass/sobel/median/notch/savgol/gaussian/slope filter", "dascore/proc/filter.py"), ("hilbert/envelope", "dascore/transform/hilbert.py")])

prop("C23", "Resampling and interpolation keep values at their labels",
     "Interpolating, resampling, decimating or snapping a patch gives at each new label the value the stated interpolation, band-limiting or sub-sampling rule gives for the original samples at that label, spans no more than the original range, and has exactly the requested sampling. Requesting the existing labels changes nothing, and other dimensions, coordinates and units are untouched.",
     ["inputs"], "all patches, target samplings, units, interpolation kinds, factors and filter choices",
     "Rounding at range ends and non-integer ratios need many (start, step, target) combinations.",
     ["dascore/proc/resample.py", "dascore/proc/coords.py", "dascore/core/coords.py"],
     [("interpolate/resample/decimate", "dascore/proc/resample.py"), ("snap_coords", "dascore/proc/coords.py")])

prop("C24", "Masking, filling, padding and scaling touch only the samples they name",
     "Padding, filling or dropping missing values, conditional replacement, tapering and muting change exactly the samples the request designates, to exactly the documented values, and leave every other sample, label and attribute untouched. Normalising and standardising scale each trace along the named dimension to the documented norm and nothing else.",
     ["inputs"], "all patches, missing-value placements, ranges (absolute, relative, units, samples, one- or many-dimensional), window kinds and norms",
     "Which samples are inside a range is a boundary question over all coordinates; tests check a few ranges visually chosen.",
     ["dascore/proc/basic.py", "dascore/proc/taper.py", "dascore/proc/mute.py"],
     [("pad/fillna/dropna/where/normalize/standardize", "dascore/proc/basic.py"), ("taper", "dascore/proc/taper.py"), ("mute", "dascore/proc/mute.py")])

prop("C25", "Correlation equals the direct sum at each lag label",
     "Correlating a patch with source traces gives, at each lag label and for each source, the direct sum of products of the source trace and the shifted receiver trace, with zero lag labelled zero, for every dimension order and any choice of sources by value, sample or unit. Shifting correlations and transforming them from the frequency domain give the same labelled values.",
     ["inputs"], "all patches, source selections, lags, padding and order of operations",
     "Lag labelling and wraparound depend on length parity and source position; tests use one synthetic shift.",
     ["dascore/proc/correlate.py", "dascore/utils/patch.py"],
     [("correlate / correlate_shift", "dascore/proc/correlate.py")])

prop("C26", "Conversions to and from other libraries preserve the patch",
     "Converting patches to and from the supported array, table and seismology structures preserves data, labels, dimension names, units and metadata that the other structure can carry, so that converting there and back gives an equal patch. Conversions the other structure cannot represent are refused with an error.",
     ["inputs"], "all patches representable in the other library",
     "Tests convert single example patches.",
     ["dascore/utils/io.py", "dascore/core/patch.py", "dascore/utils/patch.py", "dascore/utils/pd.py"],
     [("xarray/obspy converters", "dascore/utils/io.py"), ("patches_to_df / spool dataframes", "dascore/utils/patch.py")])

prop("C27", "Processing history and combined metadata tell the truth",
     "Each processing step that promises to record history appends exactly one entry naming the operation and its arguments in call order (or none when told not to), preserving earlier entries, in the patch it returns and nowhere else. When patches are combined, conflicting metadata is refused, dropped or kept exactly according to the requested policy, and agreeing metadata survives.",
     ["inputs", "programs"], "all sequences of operations, all attribute values and combination policies",
     "Which calls nest others, and which metadata values conflict, are combinatorial; tests check single calls.",
     ["dascore/utils/patch.py", "dascore/utils/attrs.py", "dascore/core/attrs.py"],
     [("patch_function history recording", "dascore/utils/patch.py"), ("combine_patch_attrs", "dascore/utils/attrs.py")])

prop("C28", "Spectrograms, slant stacks and dispersion images equal their definitions",
     "Every sample of a spectrogram equals the windowed transform of the trace samples around its label; every sample of a tau-p transform equals the sum of the traces along the line with its slowness and delay; every sample of a dispersion image equals the normalised sum of unit phasors shifted for its velocity and frequency. The reported window centres, frequencies, slownesses and velocities are those the values were computed for, in the reported units, whatever the order of the dimensions, the units and spacing of the channels, or the direction of the axis.",
     ["inputs"], "all patches with the needed dimensions in any order, all spacings, units and parameters",
     "The tests check the position of one maximum on one patch layout; a wrong label, an untransposed array or a wrong half of the output shows only for other layouts, spacings and sizes.",
     ["dascore/transform/spectro.py", "dascore/transform/taup.py", "dascore/transform/dispersion.py"],
     [("spectrogram", "dascore/transform/spectro.py"), ("slant stack kernels", "dascore/transform/taup.py"), ("phase-shift dispersion", "dascore/transform/dispersion.py")])

prop("C29", "Plots draw the data at their labels, on the requested colour scale",
     "In a waterfall, wiggle, fiber map or spectrogram plot every sample is drawn at the position of its own coordinate labels, whatever the order of the dimensions and whether the labels run forward or backward, evenly or not; each axis is titled after, and in the units of, the coordinate it shows; the colour limits are those which the given scale (number, pair or percent, relative or absolute, logarithmic or not) defines for the data; and the patch plotted is unchanged.",
     ["inputs"], "all patches with the needed dimensions in any order, any labels, and all plotting options",
     "The tests check that an axis is returned and one or two limits of one regular patch; a mirrored or transposed image, swapped labels or a scale computed from other data looks plausible and shows only for other layouts.",
     ["dascore/viz/waterfall.py", "dascore/viz/wiggle.py", "dascore/viz/map_fiber.py", "dascore/viz/spectrogram.py", "dascore/utils/plotting.py"],
     [("image and colour limits", "dascore/viz/waterfall.py"), ("extents and axis labels", "dascore/utils/plotting.py"), ("fiber map", "dascore/viz/map_fiber.py"), ("wiggles", "dascore/viz/wiggle.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
