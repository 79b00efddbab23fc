EXPL = ("Generated-input search against an independent oracle: no violation "
        "in the explored cases, not a proof. ")
P("C01", "Dirty images are the exact weighted Fourier sum of each band",
  "For any visibilities, baselines, frequencies, channel-to-band mapping, "
  "optional weights and optional mask, the dirty image of each band equals the "
  "real part of the explicit Fourier sum over exactly that band's selected "
  "samples (mask non-zero), each multiplied once by its weight, with the "
  "w-term and 1/n factor when requested, to the requested accuracy. "
  "The pixel size per axis, precision of the result (real type of the "
  "visibility precision) and documented defaults are honoured, the map is "
  "linear, bands do not influence each other, real visibilities are rejected "
  "and no input array is modified.",
  ["inputs", "configurations"],
  "all observations, band mappings, weights, masks, pixel sizes, precisions "
  "and accuracies",
  "tests use one seed, square-ish pixels, no mask, no gaps and epsilon 1e-3; "
  "weights, mask, per-axis pixel size and band slicing only matter in "
  "combination",
  ["africanus/gridding/wgridder/vis2im.py"],
  [("band slicing and weight/mask selection",
    "africanus/gridding/wgridder/vis2im.py:_dirty_internal"),
   ("defaulting of pixel size and threads",
    "africanus/gridding/wgridder/vis2im.py:dirty")],
  "property-based testing against an explicit Fourier sum",
  EXPL + "Trusts numpy and the direct summation written in the harness.",
  ["africanus.gridding.wgridder.dirty"])
P("C02", "Predicted visibilities are the exact Fourier sum; adjoint of imaging",
  "For any band images and observation, the predicted visibility of every "
  "mapped channel equals the explicit forward Fourier sum of that channel's "
  "band image (with w-term and 1/n factor when requested), multiplied once by "
  "its weight, zero where masked out, to the requested accuracy. "
  "Prediction and imaging with the same weights and mask are adjoint linear "
  "maps: <image(y), x> equals Re <y, predict(x)>.",
  ["inputs", "configurations"],
  "all images, observations, band mappings, weights, masks, pixel sizes, "
  "precisions and accuracies",
  "the tests only check adjointness, for one seed and without masks; a defect "
  "in both operators, or in the mask, weight or pixel-size handling, is "
  "invisible to them",
  ["africanus/gridding/wgridder/im2vis.py"],
  [("band slicing and weight/mask selection",
    "africanus/gridding/wgridder/im2vis.py:_model_internal"),
   ("defaulting of pixel size and threads",
    "africanus/gridding/wgridder/im2vis.py:model")],
  "property-based testing against an explicit Fourier sum and adjointness",
  EXPL + "Trusts numpy and the direct summation written in the harness.",
  ["africanus.gridding.wgridder.model"])
P("C03", "Residual and Hessian images equal the composed operators",
  "For any image, visibilities and observation, the residual image of each "
  "band equals the weighted dirty image of (visibilities minus the unweighted "
  "prediction of the image), and the Hessian image equals the weighted dirty "
  "image of the unweighted prediction, over unmasked samples only, weights "
  "applied exactly once. The residual of a model's own prediction is zero to "
  "the requested accuracy, and no input array is modified.",
  ["inputs", "configurations"],
  "all images, visibilities, observations, weights, masks, accuracies",
  "tests compare with the same operators at one seed, with unit pixel ratio "
  "and without masks",
  ["africanus/gridding/wgridder/im2residim.py",
   "africanus/gridding/wgridder/hessian.py"],
  [("subtract then grid", "africanus/gridding/wgridder/im2residim.py:"
    "_residual_internal"),
   ("degrid then grid",
    "africanus/gridding/wgridder/hessian.py:_hessian_internal")],
  "property-based testing against explicit Fourier sums",
  EXPL + "Trusts numpy and the direct summation written in the harness.",
  ["africanus.gridding.wgridder.residual",
   "africanus.gridding.wgridder.hessian"])
P("C04", "Chunked w-gridding equals w-gridding of the whole data set",
  "For any partition of the rows and of the bands into chunks and any "
  "execution order of the resulting tasks, the lazy imaging, prediction, "
  "residual and Hessian operators compute what the definition gives for the "
  "whole data set, to the requested accuracy. The shape and dtype they "
  "announce are those of the computed result.",
  ["inputs", "schedules", "configurations"],
  "all chunkings of rows and bands, execution orders and options",
  "tests use a handful of regular chunkings without masks and one scheduler",
  ["africanus/gridding/wgridder/dask.py",
   "africanus/gridding/wgridder/vis2im.py",
   "africanus/gridding/wgridder/im2vis.py"],
  [("blockwise wiring and row reduction",
    "africanus/gridding/wgridder/dask.py:dirty,model,residual,hessian"),
   ("re-basing of band starts per chunk",
    "africanus/gridding/wgridder/vis2im.py:_dirty_internal")],
  "property-based testing over chunkings and task orders, explicit sums",
  EXPL + "Task order is chosen by the generated case (plus some runs on real "
  "threads).",
  ["africanus.gridding.wgridder.dask"])
P("C05", "Stokes/correlation conversion follows the defining linear relations",
  "For any subset, order, nesting (flat or 2x2) and spelling (name or CASA "
  "enumeration) of Stokes parameters or linear/circular correlations that can "
  "produce the requested outputs, each converted output equals its defining "
  "linear combination of the inputs, at its requested place, for every "
  "leading dimension. Stokes to correlations and back is the identity. The "
  "lazy version gives the same values for any chunking and execution order "
  "and declares the true shape and dtype; inputs are not modified.",
  ["inputs", "configurations", "schedules"],
  "all schemas that are convertible, all leading shapes, dtypes, chunkings",
  "there are thousands of schema pairs; tests sample a dozen",
  ["africanus/model/coherency/conversion.py",
   "africanus/model/coherency/dask.py"],
  [("derivation of each output",
    "africanus/model/coherency/conversion.py:convert_setup"),
   ("lazy wiring", "africanus/model/coherency/dask.py:convert")],
  "property-based testing against the defining relations",
  EXPL + "The relations are restated in the harness.",
  ["africanus.model.coherency.convert"])
P("C06", "Conversions without a well-defined answer are rejected",
  "A conversion request whose inputs cannot produce an output, that names an "
  "entry twice, names unknown or unsupported correlations, is raggedly "
  "nested, or whose data do not have the trailing shape of the input schema "
  "raises an error (eagerly and lazily) instead of returning numbers. The "
  "CASA correlation table maps every name to its CASA number and back.",
  ["inputs", "configurations"],
  "all malformed schemas and data shapes",
  "tests sample two or three malformed requests",
  ["africanus/model/coherency/conversion.py", "africanus/util/casa_types.py"],
  [("schema validation",
    "africanus/model/coherency/conversion.py:convert_setup"),
   ("CASA enumeration", "africanus/util/casa_types.py")],
  "property-based testing: generated invalid requests must raise",
  EXPL + "Only the classes of malformed request listed are generated.",
  ["africanus.model.coherency.convert"])
P("C07", "Averaging partitions rows into the documented time bins",
  "For any rows (any order, missing samples, varying intervals, flags), every "
  "row maps to exactly one output row, which holds rows of one baseline, of "
  "one flag state, consecutive in time, and never spans more than the "
  "requested number of seconds, new bins starting only where the next sample "
  "would exceed it. Output rows are ordered by time then baseline and carry "
  "the bin's time and interval; channels map to consecutive bins of the "
  "requested size, the last possibly smaller. Unique times and baselines, "
  "with their indices and counts, are those of the input, and inputs whose "
  "arrays disagree in length, or duplicate a baseline at a time, are "
  "rejected.",
  ["inputs"],
  "all row sets, orders, time spacings, flags and bin sizes",
  "tests use one regular row set; gaps, unequal intervals and partially "
  "flagged bins interact",
  ["africanus/averaging/time_and_channel_mapping.py",
   "africanus/averaging/shared.py", "africanus/averaging/support.py"],
  [("binning", "africanus/averaging/time_and_channel_mapping.py:row_mapper"),
   ("channel binning",
    "africanus/averaging/time_and_channel_mapping.py:channel_mapper"),
   ("unique times and baselines", "africanus/averaging/support.py")],
  "property-based testing against a per-baseline reference binning",
  EXPL + "The reference is an independent greedy binning in plain Python.",
  ["africanus.averaging.time_and_channel_mapping.row_mapper"])
P("C08", "Averaged columns are the weighted averages of unflagged samples",
  "For any data and any combination of optional columns, each averaged "
  "value (time centroid, exposure, uvw, weight, sigma, channel frequency and "
  "width, effective bandwidth, resolution, visibilities, flags, weight and "
  "sigma spectra) equals the documented sum, mean or weighted average over "
  "exactly the samples in its bin; flagged samples - whatever they hold - "
  "contribute only to bins in which everything is flagged, and those bins are "
  "flagged. Inputs are not modified.",
  ["inputs", "configurations"],
  "all data, flags, weights, precisions and column combinations",
  "tests fix one row set and a few columns, and never place NaN in flagged "
  "samples",
  ["africanus/averaging/time_and_channel_avg.py"],
  [("row averaging", "africanus/averaging/time_and_channel_avg.py:row_average"),
   ("row and channel averaging",
    "africanus/averaging/time_and_channel_avg.py:row_chan_average"),
   ("channel averaging",
    "africanus/averaging/time_and_channel_avg.py:chan_average")],
  "property-based testing against direct sums per bin",
  EXPL + "The reference is a direct sum per bin in numpy.",
  ["africanus.averaging.time_and_channel"])
P("C09", "Chunked averaging equals averaging each chunk",
  "For any row, channel and correlation chunking, any combination of optional "
  "columns and any execution order, also together with other lazy averages, "
  "lazy averaging yields for each row chunk exactly the eager average of that chunk (bins do not cross chunks), with "
  "declared chunks and dtypes that are the computed ones. A row flag that "
  "disagrees with the sample flags is rejected.",
  ["inputs", "schedules", "configurations"],
  "all chunkings, column combinations and execution orders",
  "tests use one chunking with all or fixed columns",
  ["africanus/averaging/dask.py"],
  [("graph wiring", "africanus/averaging/dask.py:time_and_channel"),
   ("chunk metadata", "africanus/averaging/dask.py:_chunk_metadata")],
  "property-based testing over chunkings and task orders",
  EXPL + "Task order is chosen by the generated case.",
  ["africanus.averaging.dask.time_and_channel"])
P("C10", "Gains are applied, subtracted and undone as the RIME says",
  "For any time binning, baselines, gains (scalar/diagonal, diagonal on 2x2, "
  "full 2x2), directions and flags: corrupting gives the sum over directions "
  "of G_p M G_q^H, the residual is data minus that (flagged samples left "
  "zero), correcting unflagged data gives G_p^-1 V G_q^-H and undoes "
  "corrupting, computing and corrupting a model of sources equals predicting "
  "it and corrupting it. Row chunks never split a time bin and describe "
  "exactly the rows. Inputs, including time bin indices, are not modified.",
  ["inputs", "configurations"],
  "all problem shapes, time binnings, gain modes, flags and values",
  "tests fix one shape per mode, with every time bin the same size",
  ["africanus/calibration/utils/corrupt_vis.py",
   "africanus/calibration/utils/residual_vis.py",
   "africanus/calibration/utils/correct_vis.py",
   "africanus/calibration/utils/compute_and_corrupt_vis.py",
   "africanus/calibration/utils/utils.py"],
  [("corrupting", "africanus/calibration/utils/corrupt_vis.py:corrupt_vis"),
   ("correcting", "africanus/calibration/utils/correct_vis.py:correct_vis"),
   ("row chunks", "africanus/calibration/utils/utils.py:chunkify_rows")],
  "property-based testing against explicit matrix products",
  EXPL + "Oracle: numpy matrix products per sample.",
  ["africanus.calibration.utils"])
P("C11", "Chunked calibration equals unchunked calibration",
  "For any partition into time chunks (with their rows) and channel chunks "
  "and any execution order or real threads, the lazy corrupt, residual, "
  "correct, compute-and-corrupt, J^H J and J^H r equal the eager result on "
  "the whole data, declare the true chunks and dtype, and leave the arrays "
  "they were given untouched, so they can be re-used with other chunks. "
  "Chunked antenna or direction axes are rejected.",
  ["inputs", "schedules", "configurations"],
  "all time and channel chunkings, execution orders and gain modes",
  "tests use one chunking per function",
  ["africanus/calibration/utils/dask.py",
   "africanus/calibration/phase_only/dask.py"],
  [("blockwise wiring", "africanus/calibration/utils/dask.py"),
   ("in-chunk re-basing of time bins",
    "africanus/calibration/utils/corrupt_vis.py:corrupt_vis")],
  "property-based testing over chunkings, task orders and threads",
  EXPL + "Task order is chosen by the generated case.",
  ["africanus.calibration.utils.dask", "africanus.calibration.phase_only.dask"])
P("C12", "Phase-only calibration uses the exact normal equations and converges",
  "For any gains, models, residuals and flags, J^H J and J^H r equal those of "
  "the explicit Jacobian of the diagonal phase-only model with respect to the "
  "phases, over unflagged samples. Given noise-free data corrupted by phases "
  "near the unit-amplitude starting gains, the Gauss-Newton solver returns "
  "unit-amplitude gains that reproduce the data, the weighted J^H J, a "
  "vanishing J^H r and the number of iterations used, never more than the "
  "limit, also with weights and flags, and leaves its inputs untouched.",
  ["inputs", "configurations"],
  "all problem shapes, gains, flags and weights; solvable problems",
  "tests solve one seed without flags or varying weights",
  ["africanus/calibration/phase_only/phase_only.py",
   "africanus/calibration/phase_only/gauss_newton.py"],
  [("normal equations",
    "africanus/calibration/phase_only/phase_only.py:compute_jhj,compute_jhr"),
   ("iteration",
    "africanus/calibration/phase_only/gauss_newton.py:gauss_newton")],
  "property-based testing against an explicit Jacobian",
  EXPL + "Solver cases are restricted to starting points close to the "
  "solution, where convergence is guaranteed.",
  ["africanus.calibration.phase_only"])
P("C13", "Sky coordinate conversions are the orthographic projection",
  "For any phase centre (poles included) and any source in its hemisphere, "
  "direction cosines are the components of the source's unit vector in the "
  "tangent frame at the phase centre; converting back returns the same "
  "direction on the sky (right ascension up to whole turns), in the precision "
  "of the inputs; the lazy version agrees for any chunking; arrays with the "
  "wrong number of components are rejected; inputs are not modified.",
  ["inputs", "schedules"],
  "all phase centres, sources within 85 degrees, precisions, chunkings",
  "tests compare round trips near one phase centre, where an arctan branch "
  "error cannot show",
  ["africanus/coordinates/coordinates.py", "africanus/coordinates/dask.py"],
  [("projection", "africanus/coordinates/coordinates.py:radec_to_lmn"),
   ("inverse", "africanus/coordinates/coordinates.py:lmn_to_radec")],
  "property-based testing against unit-vector rotation and round trips",
  EXPL + "Tolerances allow for the loss of digits near horizon and poles.",
  ["africanus.coordinates"])
P("C14", "Direct Fourier transforms are the exact sums and adjoint",
  "For any sources, baselines, frequencies and correlations, the predicted "
  "visibility is the sum over sources of brightness times "
  "exp(-+2 pi i (ul+vm+w(n-1)) f/c) with the documented sign per convention, "
  "and the image is the real part of the conjugate sum over samples none of "
  "whose correlations is flagged. The lazy versions agree for any chunking "
  "and execution order and declare true shape and dtype; unknown conventions "
  "and inconsistent chunks are rejected; inputs are not modified.",
  ["inputs", "schedules", "configurations"],
  "all sources, baselines, flags, precisions, conventions and chunkings",
  "tests use one seed, rarely flags or the casa convention",
  ["africanus/dft/kernels.py", "africanus/dft/dask.py"],
  [("sums", "africanus/dft/kernels.py:im_to_vis,vis_to_im"),
   ("blockwise wiring and reduction", "africanus/dft/dask.py")],
  "property-based testing against explicit Fourier sums",
  EXPL + "Oracle: einsum with the explicit kernel in double precision.",
  ["africanus.dft", "africanus.dft.dask"])
P("C15", "Phase, feed-rotation, parallactic and beam-coordinate terms are exact",
  "For any sources, baselines and frequencies the phase delay is "
  "exp(-+2 pi i (ul+vm+w(n-1)) f/c) with the documented sign per convention; "
  "for any parallactic angles the feed rotation is the documented matrix for "
  "linear or circular feeds; parallactic angles are the angle from celestial "
  "north to the zenith at each time and antenna; transformed source "
  "coordinates are the original ones rotated by the parallactic angle, plus "
  "the pointing error, times the antenna scaling. Lazy "
  "versions agree for any chunking and execution order; unknown conventions "
  "and feeds are rejected; inputs are not modified.",
  ["inputs", "schedules", "configurations"],
  "all sources, baselines, frequencies, angles, antennas, times, precisions "
  "and chunkings",
  "tests use one random sample per function, mostly at double precision, and "
  "transform_sources is compared with nothing but its own shape",
  ["africanus/rime/phase.py", "africanus/rime/feeds.py",
   "africanus/rime/parangles.py", "africanus/rime/transform.py",
   "africanus/rime/dask.py"],
  [("phase", "africanus/rime/phase.py:phase_delay"),
   ("feed rotation", "africanus/rime/feeds.py:feed_rotation"),
   ("zenith angle", "africanus/rime/parangles.py:parallactic_angles"),
   ("beam coordinates", "africanus/rime/transform.py:transform_sources")],
  "property-based testing against the defining formulas",
  EXPL + "Parallactic angles compare with an independent astropy computation "
  "within tolerance of the earth-orientation data available offline.",
  ["africanus.rime", "africanus.rime.dask"])
P("C16", "Model visibilities are the RIME product of the supplied terms",
  "For any rows, antennas, times, sources, channels, and every valid "
  "combination of supplied direction-dependent, coherency, "
  "direction-independent and base terms, with scalar, diagonal or 2x2 "
  "correlations, each predicted visibility is "
  "G_p (base + sum_s E_ps X_s E_qs^H) G_q^H of its own row's antennas and "
  "time; applying gains alone gives G_p V G_q^H; malformed combinations are "
  "rejected with an error, and inputs are not modified.",
  ["inputs", "configurations"],
  "all problem shapes, term combinations, correlation shapes and precisions",
  "tests enumerate combinations at one size with rows ordered by time and "
  "all antennas present",
  ["africanus/rime/predict.py"],
  [("term combination", "africanus/rime/predict.py:predict_vis"),
   ("gain application", "africanus/rime/predict.py:apply_gains"),
   ("argument checks", "africanus/rime/predict.py:predict_checks")],
  "property-based testing against per-row matrix products",
  EXPL + "Oracle: explicit numpy matrix products per row.",
  ["africanus.rime.predict_vis", "africanus.rime.apply_gains"])
P("C17", "Chunked visibility prediction equals the unchunked RIME",
  "For any chunking of rows (with their times), sources and channels, any "
  "choice of streamed or tree summation over source chunks, and any task "
  "execution order or thread interleaving, also together with other "
  "predictions, the dask prediction equals the RIME product of the whole arrays, with base visibilities and "
  "direction-independent terms applied exactly once, and declares the shape "
  "and type it computes; misaligned chunks are rejected.",
  ["inputs", "schedules", "configurations"],
  "all problem shapes, chunkings, reductions, term combinations and task "
  "orders",
  "tests use a fixed chunking per axis and the default scheduler",
  ["africanus/rime/dask_predict.py", "africanus/rime/dask.py"],
  [("graph building", "africanus/rime/dask_predict.py:predict_vis"),
   ("source fan/stream reductions",
    "africanus/rime/dask_predict.py:fan_reduction,stream_reduction")],
  "property-based testing over chunkings, task orders and threads",
  EXPL + "Task order is chosen by the generated case.",
  ["africanus.rime.dask.predict_vis"])
P("C18", "Primary beams interpolate the cube and Zernike model faithfully",
  "For any beam cube, extents, frequency grid, source, channel, pointing "
  "error, rotation and scaling, the interpolated beam is the trilinear "
  "interpolation, of magnitude and of unit phasor separately, at the "
  "transformed coordinate clamped to the cube, exact on grid points; "
  "channels outside the grid take the nearest plane with coordinates "
  "scaled by frequency. Zernike beams are the sum of "
  "coefficients times the (Noll-indexed) polynomials within the unit disk. "
  "Lazy versions agree for any chunking; too-small or chunked beams are "
  "rejected.",
  ["inputs", "schedules", "configurations"],
  "all cubes, sources, channels, pointing errors, rotations and chunkings",
  "tests compare one random sample, or a pickled image of one beam",
  ["africanus/rime/fast_beam_cubes.py", "africanus/rime/zernike.py",
   "africanus/rime/dask.py"],
  [("frequency grid", "africanus/rime/fast_beam_cubes.py:freq_grid_interp"),
   ("interpolation", "africanus/rime/fast_beam_cubes.py:beam_cube_dde"),
   ("Zernike sum", "africanus/rime/zernike.py:zernike_dde")],
  "property-based testing against trilinear and Zernike references",
  EXPL + "Oracle: a numpy interpolation and explicit radial polynomials.",
  ["africanus.rime", "africanus.rime.dask"])
P("C19", "Source spectra and shapes follow their documented formulas",
  "For any sources, Stokes parameters, spectral indices, reference and "
  "channel frequencies, in every polynomial base alone or mixed per "
  "polarisation, the spectrum is the documented polynomial; Gaussian shapes "
  "are the Fourier transform of the documented ellipse; WSClean spectra are "
  "ordinary or logarithmic polynomials; predicted WSClean visibilities are "
  "the sum over components of spectrum, shape and phase. Lazy versions agree "
  "for any chunking and execution order and declare true types; malformed "
  "bases, types and chunks are rejected; inputs are not modified.",
  ["inputs", "schedules", "configurations"],
  "all sources, spectra, shapes, bases, precisions and chunkings",
  "tests use one seed per base, never mixed bases in chunks, nor negative "
  "logarithmic coefficients",
  ["africanus/model/spectral/spec_model.py",
   "africanus/model/spectral/dask.py",
   "africanus/model/shape/gaussian_shape.py", "africanus/model/shape/dask.py",
   "africanus/model/wsclean/spec_model.py", "africanus/model/wsclean/dask.py",
   "africanus/rime/wsclean_predict.py", "africanus/rime/dask.py"],
  [("spectra", "africanus/model/spectral/spec_model.py:spectral_model"),
   ("gaussian shape", "africanus/model/shape/gaussian_shape.py:gaussian"),
   ("WSClean spectra", "africanus/model/wsclean/spec_model.py:spectra"),
   ("WSClean prediction",
    "africanus/rime/wsclean_predict.py:wsclean_predict")],
  "property-based testing against the documented formulas",
  EXPL + "Oracle: the formulas in double precision numpy.",
  ["africanus.model.spectral", "africanus.model.shape",
   "africanus.model.wsclean", "africanus.rime.wsclean_predict"])
P("C20", "WSClean component lists are read back exactly as written",
  "For any component list (any column order and subset, header defaults, "
  "empty fields, signs, spacing, comments and blank lines) loading returns "
  "each component's name, type, position in radians, flux, spectral "
  "coefficients, reference frequency and shape in the right units, in order, "
  "with defaults only where a field is empty; damaged lists raise an error "
  "rather than returning other values.",
  ["inputs"],
  "all well-formed component lists, and damaged ones",
  "tests read two small fixed lists, without negative declinations below a "
  "degree, empty fields or reordered columns",
  ["africanus/model/wsclean/file_model.py"],
  [("header parsing", "africanus/model/wsclean/file_model.py:_parse_header"),
   ("line parsing", "africanus/model/wsclean/file_model.py:_parse_lines"),
   ("units", "africanus/model/wsclean/file_model.py:load")],
  "property-based testing by rendering and reading back",
  EXPL + "Oracle: the values the list was rendered from.",
  ["africanus.model.wsclean.file_model.load"])
P("C21", "Spectral index fits return the weighted least-squares solution",
  "For noise-free power-law spectra seen through any beam and weights, the "
  "fit returns the flux and spectral index that generated them; for noisy "
  "data it returns a stationary point of the weighted least squares and the "
  "variances of its inverse Hessian; components are independent of each "
  "other and the lazy version agrees for any chunking of components; chunked "
  "channels are rejected; inputs are not modified.",
  ["inputs", "schedules"],
  "all solvable spectra, beams, weights, starting points and chunkings",
  "tests fit one noise-free set of components without beam or weights",
  ["africanus/model/spi/component_spi.py", "africanus/model/spi/dask.py"],
  [("Gauss-Newton fit",
    "africanus/model/spi/component_spi.py:_fit_spi_components_impl"),
   ("block wiring", "africanus/model/spi/dask.py:fit_spi_components")],
  "property-based testing against least-squares optimality",
  EXPL + "Restricted to starting points for which the fit converges.",
  ["africanus.model.spi", "africanus.model.spi.dask"])
P("C22", "Beam FITS headers and file name schemas are interpreted exactly",
  "For any FITS header with L/X/PX, M/Y/PY and FREQ axes in any order, the "
  "returned axis numbers are the header's, and the grid value of every pixel "
  "is (pixel - CRPIX) CDELT + CRVAL, or the listed irregular grid when it is "
  "complete, in radians for degree axes and negated on request; missing "
  "keywords take their defaults and missing axes raise. For any file name "
  "schema and correlation types, each correlation maps to its real and "
  "imaginary names with every placeholder substituted in the right case; "
  "unknown placeholders and correlations raise.",
  ["inputs", "configurations"],
  "all headers (dict or astropy), schemas and correlation types",
  "tests use one header and two schemas",
  ["africanus/util/beams.py", "africanus/util/casa_types.py"],
  [("axis grids", "africanus/util/beams.py:BeamAxes"),
   ("axis selection", "africanus/util/beams.py:beam_grids"),
   ("file names", "africanus/util/beams.py:beam_filenames")],
  "property-based testing against the generated header and schema",
  EXPL + "Oracle: the values the header or schema was generated from.",
  ["africanus.util.beams"])
P("C23", "Chunk aggregation and command-line parsing are faithful and safe",
  "For any chunks and limits, aggregated chunks are unions of consecutive "
  "input chunks, the same in every dimension, none empty, none over the "
  "limit unless it is one input chunk, merged whenever neighbours fit. For "
  "any assignment string of literals, slices, chains and unpackings, the "
  "parsed dictionary holds exactly the assigned values, and any other code "
  "is rejected without running. Correlation shapes, complex type inference "
  "and file hashes equal their definitions.",
  ["inputs"],
  "all chunk tuples, limits, assignment strings, dtypes and file sizes",
  "tests use three chunk examples and never parse assignments",
  ["africanus/util/shapes.py", "africanus/util/cmdline.py",
   "africanus/util/type_inference.py", "africanus/util/files.py"],
  [("aggregation", "africanus/util/shapes.py:aggregate_chunks"),
   ("parsing", "africanus/util/cmdline.py:parse_python_assigns")],
  "property-based testing against invariants and rendered expectations",
  EXPL + "Oracle: invariants of the partition; the rendered values.",
  ["africanus.util"])
P("C24", "Progress bars, memoised functions and guards survive any schedule",
  "For any history of starting, finishing and failing tasks and display "
  "ticks, the progress bar shows the elapsed time and an estimate that is "
  "scaled from completed tasks and kept until more complete, never changes "
  "or breaks the computation, and its thread neither dies nor outlives it, "
  "in any interleaving. For any racing threads, a memoised function runs "
  "once per key and a singleton is made once. Functions with missing "
  "optional packages raise, naming them, and run otherwise.",
  ["histories", "schedules"],
  "all task histories, clock values, interleavings and requirement lists",
  "tests run the bar on one computation and never race anything",
  ["africanus/util/dask_util.py", "africanus/util/code.py",
   "africanus/util/requirements.py"],
  [("estimate", "africanus/util/dask_util.py:update_bar,timer_func"),
   ("locking", "africanus/util/dask_util.py:EstimatingProgressBar"),
   ("memoisation", "africanus/util/code.py:memoize_on_key,SingletonMixin"),
   ("guards", "africanus/util/requirements.py:requires_optional")],
  "model-based testing on a simulated clock and injected schedules",
  EXPL + "The clock is simulated and delays are injected between lines; real "
  "thread races are sampled.",
  ["africanus.util.dask_util", "africanus.util.code"])
P("C25", "Regions select, split, pad and stitch exactly their own pixels",
  "For any convex hull or box, in any position and orientation, the mask "
  "holds exactly the pixels in or on it, the membership test agrees, "
  "overlap of two regions is symmetric and exact, and bounding, padded and "
  "split boxes contain the region, have the requested size and partition the "
  "masked pixels. For any image cube, cutting a region out, also across the "
  "image's edges, returns the cube's values inside and the fill value "
  "elsewhere without sharing memory, and stitching facets back restores "
  "every pixel, averaging where normalised masks overlap, with blank (NaN) "
  "pixels as zeros. Malformed regions, boxes and cubes raise, and no cube "
  "given is changed.",
  ["inputs"],
  "all convex hulls, boxes, masks, image sizes, axes and facet counts",
  "tests use a few boxes within positive coordinates",
  ["africanus/linalg/geometry.py"],
  [("hulls", "africanus/linalg/geometry.py:BoundingConvexHull"),
   ("boxes", "africanus/linalg/geometry.py:BoundingBox"),
   ("stitching", "africanus/linalg/geometry.py:BoundingBox.project_regions"),
   ("splitting", "africanus/linalg/geometry.py:BoundingBoxFactory")],
  "property-based testing against half-plane tests and pixel bookkeeping",
  EXPL + "Oracle: half-plane tests, separating axes, sets of pixels.",
  ["africanus.linalg.geometry"])
P("C26", "Splines, Kronecker products and covariances equal their definitions",
  "For any knots and end conditions, the spline and its derivatives "
  "interpolate the data, are continuous, satisfy both end conditions and "
  "extend the end polynomials beyond the knots. For any square factors, the "
  "Kronecker matrix-vector, matrix-matrix, Cholesky and diagonal products "
  "equal those of the explicit product. For any points the squared "
  "exponential covariance and for any baselines the cell size equal their "
  "formulas, malformed arguments raise, and no input is changed.",
  ["inputs"],
  "all knots, evaluation points, factor shapes, baselines and frequencies",
  "tests use one spline and one product of real factors",
  ["africanus/averaging/splines.py", "africanus/linalg/kronecker_tools.py",
   "africanus/gps/kernels.py", "africanus/gridding/util.py"],
  [("splines", "africanus/averaging/splines.py"),
   ("Kronecker", "africanus/linalg/kronecker_tools.py"),
   ("covariance", "africanus/gps/kernels.py:exponential_squared"),
   ("cell size", "africanus/gridding/util.py:estimate_cell_size")],
  "property-based testing against scipy, numpy.kron and formulas",
  EXPL + "Oracle: scipy.interpolate.CubicSpline, numpy.kron, formulas.",
  ["africanus.linalg", "africanus.gps", "africanus.averaging.splines"])
P("C27", "Hogbom CLEAN conserves flux and stops when it should",
  "For any dirty image, point spread function, gain, threshold and iteration "
  "limit, the dirty image always equals the residual plus the clean "
  "components convolved with the point spread function, each component is "
  "taken at the most positive residual pixel, and iteration stops at the "
  "threshold or the limit and no earlier. For any components, the restored "
  "image is their convolution with the fitted clean beam plus the residuals. "
  "No input is changed.",
  ["inputs"],
  "all images, point spread functions, gains, thresholds and limits",
  "the test checks a single image for an exception",
  ["africanus/deconv/hogbom/clean.py", "africanus/deconv/hogbom/__init__.py"],
  [("loop", "africanus/deconv/hogbom/clean.py:hogbom_clean"),
   ("restoration", "africanus/deconv/hogbom/clean.py:restore")],
  "property-based testing against a conservation law and a reference loop",
  EXPL + "Oracle: residual + components * PSF = dirty; a reference loop.",
  ["africanus.deconv.hogbom"])
P("C28", "Facet gridding equals the convolution at the facet's baselines",
  "For any baselines (also beyond the grid), visibilities, band mapping, "
  "facet centre, kernel and policies, the gridded image is the sum over "
  "samples of the rotated Stokes visibility times the kernel around the "
  "transformed baseline, optionally normalised, and the degridded "
  "visibilities are the same kernel's weighted mean of the grid, rotated "
  "back into every correlation of the Stokes parameter. Packed and unpacked "
  "kernels agree, facets add up, and any chunks of rows, channels and facets "
  "give the same result as none. No input is changed and malformed inputs "
  "raise.",
  ["inputs", "configurations", "schedules"],
  "all baselines, wavelengths, facets, kernels, policies and chunks",
  "tests grid single sources at a few policies and compare by eye",
  ["africanus/gridding/perleypolyhedron/gridder.py",
   "africanus/gridding/perleypolyhedron/degridder.py",
   "africanus/gridding/perleypolyhedron/dask.py",
   "africanus/gridding/perleypolyhedron/kernels.py",
   "africanus/gridding/perleypolyhedron/policies"],
  [("gridding", "africanus/gridding/perleypolyhedron/gridder.py:gridder"),
   ("degridding",
    "africanus/gridding/perleypolyhedron/degridder.py:degridder"),
   ("chunks", "africanus/gridding/perleypolyhedron/dask.py"),
   ("rotation", "africanus/gridding/perleypolyhedron/policies/"
    "baseline_transform_policies.py,phase_transform_policies.py"),
   ("Stokes", "africanus/gridding/perleypolyhedron/policies/"
    "stokes_conversion_policies.py")],
  "property-based testing against a per-sample convolution in numpy",
  EXPL + "Samples at a step of the oversampled kernel are not compared; "
  "normalised grids only in one row chunk (known finding).",
  ["africanus.gridding.perleypolyhedron"])
P("C29", "Synthetic beam files agree with their headers and file names",
  "For any polarisation type, range of frequencies, odd number of pixels, "
  "precision and file name schema, beam_factory writes exactly one real and "
  "one imaginary FITS file per correlation under the names of the schema, "
  "replacing existing files only if allowed. Each cube holds the beam model "
  "cos^3(min(65 GHz^-1 f r, 1.0881)) at the coordinates and frequencies that "
  "its own header declares, in the requested precision. "
  "An even number of pixels or an unknown polarisation type is rejected "
  "before anything is written, and no input is changed.",
  ["inputs", "configurations"],
  "all polarisations, frequencies, sizes, precisions and schemas",
  "the test reads one beam back and checks that the files exist",
  ["africanus/testing/beam_factory.py"],
  [("headers and cubes", "africanus/testing/beam_factory.py:beam_factory")],
  "property-based testing: write, read back with astropy, compare with the "
  "beam model at the declared coordinates",
  EXPL + "Oracle: the beam formula at the coordinates of the headers.",
  ["africanus.testing.beam_factory"])
P("C30", "The lazy NIFTY wrappers see every sample exactly once",
  "For any visibilities, baselines, flags, weights, w ranges and chunks of "
  "rows, correlations and streams, the lazy grid of every correlation is the "
  "sum of the grids of its unflagged, weighted samples, each counted exactly "
  "once, and degridding and the dirty image and model grids are those of the "
  "whole data set correlation by correlation. Grid configurations survive "
  "pickling, the result does not depend on the order of the tasks, and no "
  "input is changed.",
  ["inputs", "configurations", "schedules"],
  "all data, chunks, streams and orders of the tasks",
  "the tests need a package that is seldom installed and are skipped",
  ["africanus/gridding/nifty/dask.py"],
  [("gridding", "africanus/gridding/nifty/dask.py:grid"),
   ("degridding", "africanus/gridding/nifty/dask.py:degrid"),
   ("images", "africanus/gridding/nifty/dask.py:dirty,model"),
   ("pickling", "africanus/gridding/nifty/dask.py:GridderConfigWrapper")],
  "property-based testing on a stand-in for the nifty_gridder package, "
  "against the operation on the whole data set",
  EXPL + "nifty_gridder is not installed: a stand-in with its interface "
  "(vlib/nifty.py) does the arithmetic.",
  ["africanus.gridding.nifty"])
