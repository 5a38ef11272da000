"""Writes properties.jsonl and MANIFEST.json from the specifications below (python3 tools/gen.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
MC_DIRECT = "explicit-state bounded model checking: exhaustive enumeration of %s, every behaviour executed on the real code and compared step by step with a reference automaton/model"


def prop(id, title, statement, over, text, why, files, mech, enum, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _enum=enum, _note=note))


B = "pycomlink/processing/baseline.py"
prop("C01", "Constant baseline is held during wet periods and never uses unknown states",
     "With the constant-level method the baseline equals the signal level in every dry step, and from the first wet step on stays at the mean of the requested number of baseline values directly before that wet period, until the next dry step. Steps whose wet/dry state is missing have no baseline value (NaN), and a wet period that follows an unknown state does not invent one. This holds for every sequence of levels, gaps and wet/dry/unknown states, every averaging length and every accepted container or data type.",
     ["inputs", "configurations"], "all signal/gap and wet/dry/unknown sequences, averaging lengths, containers, compiled and interpreted execution",
     "The tests compare one stored real series; the order of dry, wet and unknown steps and gaps is never enumerated.", [B],
     [("constant baseline loop", B + ":_numba_baseline_constant")],
     "all signal/gap x dry/wet/unknown words up to length 6-8 (thorough 7-10) x averaging lengths", "lengths beyond the bound are covered only by interval families on long series")
prop("C02", "Linear baseline interpolates exactly between enclosing dry samples",
     "With the linear method every dry step has its own level as baseline and every completed wet period is the straight line between the last dry sample before and the first dry sample after it. A wet period that is not closed, or (unless missing states are to be ignored) contains an unknown state, has no baseline value; with ignoring, an unknown state continues the previous state. No step ever gets an invented value such as zero.",
     ["inputs", "configurations"], "all signal and wet/dry/unknown sequences, both missing-value policies, containers",
     "Tests use a handful of series; open wet periods, unknown states at borders and their combinations are not enumerated.", [B],
     [("linear baseline loop", B + ":_numba_baseline_linear")],
     "all signal x dry/wet/unknown words and policies", "the flanking dry samples of an unknown period may be NaN or the level (both accepted)")
W = "pycomlink/processing/xarray_wrapper.py"
prop("C03", "Labelled multi-link calls equal per-series calls; argument errors are refused",
     "Calling a time-series function with labelled arrays of any number and order of dimensions gives, for every label combination, exactly what a call with that single series gives, whichever arguments carry which dimensions and however they are split into positional and keyword arguments. Labels, not positions, pair the data of different arguments, and data whose labels do not match are refused. Unknown, duplicate or missing arguments are refused as for plain arrays.",
     ["inputs", "programs", "configurations"], "all wrapped functions x dimension layouts x argument passing styles x label sets",
     "Tests check one layout and one passing style per function.", [W],
     [("apply along time", W + ":xarray_apply_along_time_dim"), ("argument binding", W + ":_get_new_args_dict")],
     "functions x dimension orders x positional/keyword splits x parameter ranks x wrong-argument calls", "dimension order of results is not judged")
G = "pycomlink/processing/blackout_gap_detection.py"
prop("C04", "Blackout gaps are exactly the missing runs next to very low levels",
     "A gap start (end) is marked exactly at samples below the threshold that are directly followed (preceded) by a missing sample, never across the ends of the series. The mask built from these markers contains exactly the missing samples from a marked start to the end of that gap, forward or backward in time, and no sample with a level.",
     ["inputs"], "all level/threshold/missing sequences, forward and reversed, plain and labelled",
     "Tests contain a few hand-made gaps, none touching the series ends in all combinations.", [G],
     [("marker detection", G + ":get_blackout_start_and_end"), ("mask building", G + ":created_blackout_gap_mask_from_start_end_markers")],
     "all words over {below, at, above, missing} up to length 7 (9)", "a sample closing one gap does not open the next (pinned by tests)")
K = "pycomlink/processing/k_R_relation.py"
prop("C05", "Rain rate is the inverted power law with exact cut-offs",
     "For every attenuation and link length the rain rate is the inverse of the power law A = a R^b L with the given coefficients or those of the given frequency and polarization; negative attenuation and rates below the minimum give 0, missing attenuation stays missing. Results are never negative, and grow with attenuation. Incomplete or contradictory coefficient arguments are refused, for arrays, series, scalars and labelled arrays alike.",
     ["inputs", "configurations"], "all attenuation sequences, lengths, minimum rates, coefficient sources, containers",
     "Tests compare a few numbers for one frequency.", [K], [("power law inversion", K + ":calc_R_from_A")],
     "attenuation words x parameter grid, dense scans, argument presence combinations", "")
prop("C06", "Power-law coefficients follow the ITU tables for every frequency and spelling",
     "For every frequency from 1 to 100 GHz, every accepted polarization spelling and both recommendations, the coefficients equal the published tables at the nodes and their smooth interpolation between nodes, element by element for arrays of any shape with mixed polarizations; labelled frequencies give coefficients with the same labels. Frequencies outside the range, unknown polarizations or tables are refused.",
     ["inputs", "configurations"], "frequency range, spellings, tables, shapes and containers, invalid inputs",
     "Tests look at three frequencies and one array.", [K], [("table interpolation", K + ":a_b")],
     "frequency lattice x spellings x tables x shapes", "oracle: frozen tables, cross-checked with the closed form of P.838-3")
A = "pycomlink/processing/wet_antenna.py"
prop("C07", "Dynamic wet antenna attenuation is bounded and recovers as specified",
     "The dynamic wet antenna attenuation starts at 0, never exceeds the observed attenuation or its maximum, rises in wet periods from its previous value with the configured time constant, and outside wet periods is limited only by these two bounds. A missing attenuation gives a missing value at that step only.",
     ["inputs", "histories"], "all attenuation and wet/dry/unknown sequences x maximum, step and time constant",
     "One stored series is compared.", [A], [("recursion", A + ":_numba_waa_schleiss_2013")],
     "all words over 5 attenuation symbols x 3 states up to length 4 (5) x 4 parameter sets", "unknown wet state is handled like dry")
prop("C08", "Wet antenna attenuation from rain rate follows the film and power-law models",
     "Wet antenna attenuation from a rain rate equals the published water-film (Leijnse) or power-law (Pastorek) model for every rate, frequency and parameter, is 0 for no rain and missing for missing rain. The variants that start from the observed attenuation return the value consistent with the same model and k-R relation for that link, never more than the observed attenuation, element-wise for any shape and for per-link parameters.",
     ["inputs", "configurations"], "rain rates, frequencies, model and link parameters, observed attenuation sequences, shapes",
     "Tests check a few values with default parameters.", [A],
     [("film model", A + ":waa_leijnse_2008"), ("power law", A + ":waa_pastorek_2021"), ("inversion", A + ":waa_leijnse_2008_from_A_obs, waa_pastorek_2021_from_A_obs"), ("permittivity", A + ":eps_water")],
     "rate x frequency x parameter lattice and attenuation words", "the documented 100-node look-up is part of the oracle")
N = "pycomlink/processing/wet_dry/nearby_wetdry.py"
prop("C09", "Nearby-link classification uses exactly the links within the radius",
     "A link is classified wet at a step exactly when, over all links whose four end-point distances to it are below the radius, more than the minimum number of links have data and the medians of the signal decrease (from the maximum of the preceding hours) and of the decrease per length are below their thresholds, plus the documented extension around strong own decreases; the outlier score is the windowed sum of the own minus the neighbours' decrease. The result does not depend on the order of links in either input, on far links, or on labels.",
     ["inputs", "configurations"], "all level sequences of link groups, distances, radii, thresholds, windows, orders and subsets of links",
     "The tests compare one stored data set in one order.", [N],
     [("neighbour selection and medians", N + ":nearby_wetdry"), ("distance matrix", N + ":calc_distance_between_cml_endpoints")],
     "all signal words of link groups, radius/threshold/window/order combinations", "known finding: first and last two steps are reported wet")
R = "pycomlink/processing/nearby_rain_retrival.py"
prop("C10", "Nearby-link reference level, correction and rain rate follow the published rules",
     "The reference level is the median of the mid level over the dry steps of the trailing window (missing if there are too few); corrected levels differ from the reference only in wet steps and are never above it. The rain rate is the weighted mean of the rates from minimum and maximum attenuation after wet antenna correction, never negative, and missing exactly where an input is missing or the outlier score is at or below its threshold.",
     ["inputs", "configurations"], "all level and wet/dry/unknown sequences, windows, thresholds, weights, coefficient sources",
     "Tests compare one stored data set.", [R],
     [("reference level", R + ":nearby_determine_reference_level"), ("correction", R + ":nearby_correct_received_signals"), ("retrieval", R + ":nearby_rainfall_retrival")],
     "words of signal/class symbols x window grid; full grid of retrieval inputs", "correction judged where raw levels are present")
I = "pycomlink/spatial/interpolator.py"
D = "pycomlink/spatial/idw.py"
prop("C11", "IDW grids are the weighted mean of the nearest valid points",
     "Each grid value is the inverse-distance weighted mean, with the chosen exponent, of the chosen number of nearest points (among points with values, if missing values are to be excluded) within the maximum distance; grid points on a data point get that value, and points without any neighbour, or if nothing has a value, are missing. Values lie between the smallest and largest value used, and a generated grid covers the data at the requested resolution.",
     ["inputs", "configurations"], "all value/missing patterns, neighbour counts, exponents, distances, grids, containers",
     "Tests use one data set with default settings.", [I, D],
     [("interpolator", I + ":IdwKdtreeInterpolator"), ("tree search and weights", D + ":Invdisttree, _numba_idw_loop"), ("grid", I + ":_parse_grid_kwargs")],
     "value words of 1..5 points x neighbour count x exponent x distance x policy on a grid", "distance ties are not judged")
prop("C12", "Interpolation results do not depend on earlier calls",
     "Every call of an interpolator object returns what a fresh object with the same settings would return for the same points, values and grid, whatever was interpolated before and however the caller changed, reordered or replaced its arrays or the object's settings in between. Results returned earlier are never changed by later calls, and two objects do not influence each other.",
     ["histories"], "all sequences of user actions between calls of one or two objects",
     "Tests make at most two calls in a fixed order; stale caches need particular sequences.", [I, D],
     [("cached tree", I + ":IdwKdtreeInterpolator._interpol_func"), ("cached neighbours", D + ":Invdisttree.__call__")],
     "all sequences of up to 3 (4) of 18 user actions", "single-threaded use of one object")
prop("C13", "Kriging grids solve the ordinary kriging system for the valid points",
     "Each grid value is the ordinary kriging estimate from the points that have values, with the chosen variogram, parameters and number of closest points; without nugget, grid points on a data point get its value. Missing values only remove their point, and if all values are missing the grid is missing everywhere.",
     ["inputs", "configurations"], "all value/missing patterns, variogram models and parameters, window sizes, grids",
     "Tests use one data set and compare a few numbers.", [I], [("kriging", I + ":OrdinaryKrigingInterpolator")],
     "value words of 2..5 points x variogram grid x window size x backend", "automatic variogram fitting belongs to pykrige")
S = "pycomlink/validation/stats.py"
prop("C14", "Wet-dry scores are the exact confusion-table statistics",
     "Pairs with a missing value on either side are left out of every score and counted by kind; all remaining pairs are counted exactly once in the confusion table, and every rate and the Matthews correlation follow from these counts for input of any shape and type. Swapping or reordering pairs does not change a score, and inputs of different shape are refused.",
     ["inputs"], "all pairs of wet/dry/missing sequences, all confusion tables up to a size, shapes and types",
     "Tests check three hand-made arrays.", [S], [("scores", S + ":calc_wet_dry_performance_metrics, calc_wet_error_rates")],
     "all word pairs up to length 4 (5) and all confusion tables with counts up to 5 (7)", "")
prop("C15", "Rainfall error scores use exactly the valid pairs and the stated threshold",
     "Correlation, variation, errors, sums and means are computed from exactly the pairs in which both amounts are present; wet means at or above the threshold, and false/missed rates and amounts follow from it. Missing values are counted by kind, arrays of any shape give the same scores as their flattened pairs, and inputs of different shape are refused.",
     ["inputs", "configurations"], "all pairs of amount/missing sequences incl. the threshold value, thresholds, shapes",
     "Tests check a few hand-made arrays without values at the threshold.", [S], [("scores", S + ":calc_rain_error_performance_metrics")],
     "all word pairs over rain amounts incl. the threshold x thresholds x shapes", "")
T = "pycomlink/util/temporal.py"
prop("C16", "Aggregation assigns every sample to exactly its target interval",
     "Aggregating a series onto given time stamps puts each sample of the common period into exactly one interval, the one ending (or, for the other label side, beginning) at its time stamp, with border samples on the labelled side. The result carries the target time stamps, also if data and target are in different time zones, and the inputs are unchanged.",
     ["inputs", "configurations"], "all subsets of sample and target times, label sides, time zones, aggregation functions",
     "Tests use two regular series.", [T], [("aggregation", T + ":aggregate_df_onto_DatetimeIndex")],
     "all sample subsets x targets x label sides x zones", "sorted, unique target stamps; data without time zone are in UTC")
C = "pycomlink/io/cmlh5_to_xarray.py"
prop("C17", "Reading a link file keeps every sample with its link, channel and time",
     "Reading a file returns one data set per link in which every stored level of every channel (instantaneous levels, or the minimum and maximum levels of min/max files) appears at its own time stamp, steps a channel does not have are missing, and identifiers, coordinates, frequency, polarization and length belong to that link and channel. The number and order of links and channels and the time encoding do not matter, and the file is not modified.",
     ["inputs", "configurations"], "all small file structures, channel time relations, encodings, missing patterns, name orders",
     "Tests read one example file of instantaneous levels.", [C, "pycomlink/io/examples.py"], [("reader", C + ":read_cmlh5_file_to_xarray")],
     "all files with up to 3 links x 3 channels x time relation x encoding", "")
TI = "pycomlink/processing/pytorch_utils/inference_utils.py"
prop("C18", "The model cache only ever delivers completely downloaded models",
     "A model requested by address is downloaded once, stored under its own entry and afterwards delivered with exactly the served content until a new download is forced or the cache is cleared; two addresses never share an entry. A transfer that fails or is cut off, a full disk or a process that dies at any point is reported and leaves either the older complete model or no entry, never an incomplete file that is used or listed. This also holds for concurrent requests.",
     ["histories", "fault_sequences", "crash_points", "schedules"], "operation sequences, transfer faults at every byte, process death at every line, disk limits, two-thread schedules with two preemptions",
     "Tests never interrupt a download or use the cache twice.", [TI],
     [("download and cache", TI + ":download_and_cache_model"), ("listing and clearing", TI + ":list_cached_models, clear_model_cache")],
     "operation sequences, fault points, crash points and thread schedules against a scripted loopback server", "process death, not power loss; served length is announced")
FI = "pycomlink/processing/tensorflow_utils/inference_utils.py"
prop("C19", "Downloaded network files are complete, distinct and belong together",
     "Architecture and weight files given by address are downloaded once into the cache directory and delivered with exactly the served content, each address with its own entry even if file names are equal; local paths are used as they are. Any failed, cut-off or crashed transfer is reported and never leaves an incomplete file that a later use would accept, and a forced download replaces an entry only when complete. This also holds for concurrent requests.",
     ["histories", "fault_sequences", "crash_points", "schedules"], "operation sequences, transfer faults, process death at every line, disk limits, two-thread schedules, local/remote combinations",
     "Tests never interrupt a download.", [FI], [("download and cache", FI + ":download_and_cache"), ("source resolution", FI + ":resolve_model_paths")],
     "operation sequences, fault points, crash points and thread schedules against a scripted loopback server", "process death, not power loss; served length is announced")
TR = "pycomlink/processing/pytorch_utils/run_inference.py"
prop("C20", "PyTorch predictions land on the link and time step they were made for",
     "Every complete window of every link is given to the model once, in the order time within channel, and its prediction is stored at that link and at the target step of that window (half the reference length before the window end); all other cells are missing. The result does not depend on batch size, number or order of links, label types or dimension order, the input is returned unchanged next to the predictions, and the model runs in inference mode.",
     ["inputs", "configurations"], "window, series and reference lengths, batch sizes, links, channels, missing patterns, layouts",
     "No test runs inference; alignment needs position-coded models.", [TR, "pycomlink/processing/pytorch_utils/pytorch_utils.py"],
     [("windows", TR + ":rolling_window, batchify_windows"), ("mapping back", TR + ":redistribute_results"), ("loading", "pycomlink/processing/pytorch_utils/pytorch_utils.py:load_model")],
     "window x length x batch x link x reference-length combinations and sample words with position-coded models", "reference lengths whose targets collide are not judged")
prop("C21", "TensorFlow predictions land on the link and time step they were made for",
     "Every window without missing or infinite values ending at a step of a requested link is scaled per feature over all windows, given to the model once, and its probability stored at that link and step; all other cells are missing. The result does not depend on batch size, on the order of links, on labels or on the name of the coordinate that holds them, the data set handed over is unchanged, and predictions whose labels do not match in number are refused.",
     ["inputs", "configurations"], "window and series lengths, missing/infinite patterns, link subsets and orders, batch sizes, layouts",
     "No test runs inference with a model.", [FI, "pycomlink/processing/tensorflow_utils/run_inference.py"],
     [("windows", FI + ":create_samples"), ("scaling", FI + ":scale_features"), ("mapping back", FI + ":store_predictions")],
     "window/length/link combinations, sample words, result sequences, position-coded Keras models", "at least one complete window")
M = "pycomlink/processing/wet_dry/mlp.py"
prop("C22", "Neural-network classification uses exactly the window around each step",
     "For each of the four networks the class at a step is that of the network applied to exactly the 40-step window of both channels that the method prescribes (trailing differences, or the centred detrended window), and a step whose window is incomplete or contains a missing sample has no class. The result keeps the time axis of the input and unknown network names are refused.",
     ["inputs", "configurations"], "positions of missing samples and events in either channel, networks, series lengths",
     "Tests compare one stored series.", [M], [("window construction", M + ":mlp_wet_dry")],
     "every position and pair of missing samples, every event position, 4 networks", "series of at least 41 steps")
F = "pycomlink/processing/wet_dry/stft.py"
prop("C23", "Rolling Fourier classification compares each window with the dry spectrum",
     "The score of a step is the mean normalised power below minus that above the dividing frequency, of the windowed spectrum centred at that step relative to the mean spectrum of the dry period; a step is wet exactly if its score is above the threshold and dry where no window fits. The dry period is the given one, or the period of the requested length with the lowest variation, and contradictory settings are refused.",
     ["inputs", "configurations"], "all level sequences, windows, dividing frequencies, dry periods, thresholds, mirrored ends, supplied spectra",
     "Tests compare two stored series.", [F], [("classification", F + ":stft_classification"), ("dry period search", F + ":find_lowest_std_dev_period")],
     "all level words of length 8 x window x frequency x dry period, argument combinations", "scores within 1e-6 of the threshold are not judged")
O = "pycomlink/spatial/coverage.py"
prop("C24", "The coverage mask is exactly the area within the distance of any link path",
     "A grid point is covered exactly if its distance to the path of at least one link is at most the given distance; the mask has the shape of the grid, is the union of the masks of the single links, and only grows with the distance.",
     ["inputs", "configurations"], "sets of link paths incl. zero length, distances, grid shapes",
     "No test covers the function with more than one layout.", [O], [("buffer union", O + ":calc_coverage_mask")],
     "all link sets on a lattice x distances x grid points", "points within 1.5 % of the border are not judged (polygonal caps)")
prop("C25", "Climatological variogram parameters follow the published seasonal model",
     "For every date and aggregation interval the range, sill and nugget equal the published climatological model for that day of the year, whatever date notation is used, with a nugget of one tenth of the sill, and can be used directly for kriging.",
     ["inputs"], "every day of common and leap years x intervals x notations",
     "No test calls it.", [I], [("seasonal model", I + ":clim_var_param")],
     "every day of two years x intervals x notations", "")
prop("C26", "Rain from min/max sampled levels uses bias-corrected, trailing references",
     "Attenuation from minimum/maximum samples is the bias-corrected maximum loss minus the smallest bias-corrected minimum loss of the current and the preceding window steps, never negative and missing before the window is filled; missing levels are replaced by the rounded mean loss. The rain rate uses the power law with the coefficient for maxima, with 0 below the minimum rate and missing for missing attenuation.",
     ["inputs", "configurations"], "all level sequences incl. gaps, windows, biases, coefficient sources",
     "Tests compare one stored series.", ["pycomlink/processing/min_max.py", K], [("attenuation", "pycomlink/processing/min_max.py:_calc_A_min_max"), ("rain rate", K + ":calc_R_from_A_min_max")],
     "all level words up to length 5 (6) x windows x biases", "at least one valid sample per signal")
H = "pycomlink/spatial/helper.py"
prop("C27", "Great-circle distance is a metric on the sphere",
     "The distance between any two points given in degrees is that of the great circle on the used sphere: zero only for the same place, symmetric, independent of full turns of longitude, obeying the triangle inequality, and defined (never missing) also for poles and antipodes. Arrays give the element-wise result.",
     ["inputs"], "all pairs and triples of a lattice incl. poles, date line, antipodes; short distances; array forms",
     "Tests check a few pairs.", [H], [("haversine", H + ":haversine")],
     "all pairs/triples of a lattice incl. poles, date line and antipodes", "")
prop("C28", "Functions leave their arguments alone and do not influence each other",
     "No public function changes the arrays, labelled data, tables or objects it is given, results of earlier calls, the process-wide random numbers, numerical error handling, environment or working directory. Calling a function again with the same arguments gives the same result whatever was called before or in between, including calls interleaved with others at any point.",
     ["histories", "schedules", "inputs"], "ordered pairs of public operations, repeated use of the same objects, interruption at every executed line",
     "Tests call each function once on its own copy of the data.", ["pycomlink"],
     [("all public functions", "pycomlink/processing, pycomlink/spatial, pycomlink/validation, pycomlink/util, pycomlink/io")],
     "all ordered operation pairs A,B,A of 48 operations and one preemption at every executed source line", "results may share memory with arguments")
Z = "pycomlink/processing/tensorflow_utils/lazy_tf.py"
prop("C29", "Nothing is installed, run or fetched unless requested",
     "A missing TensorFlow is installed only if the caller asks for it or the documented environment variable is exactly 1, once, into the running interpreter and as GPU variant only if a GPU is present; otherwise it is reported as an import error and a later request behaves the same. Importing the package and using its processing functions runs no program, opens no network connection and creates no files, also without the optional frameworks.",
     ["histories", "configurations", "fault_sequences"], "request sequences x permission x environment values x framework/GPU/installer states; imports; all operations",
     "Tests run with TensorFlow present.", [Z, "pycomlink/processing/tensorflow_utils/run_inference.py"], [("lazy import", Z + ":get_tf, ensure_tensorflow_installed")],
     "all request sequences of length 3 (4) x environment states with recorded process creation", "process creation replaced by a recorder")
X = "pycomlink/validation/validator.py"
prop("C30", "Path-averaged reference series weight each grid cell by its share of the path",
     "The reference series of a link is, for each grid time strictly inside the link's period, the sum of the grid values weighted by the share of the path in each cell. Resampling a link series onto these times averages exactly the samples belonging to each grid time on the labelled side, and neither depends on links handled before with the same object. The correlation of a link with a reference series uses exactly the pairs with the same time stamp, and a plot of the intersections shows exactly these weights at their cells.",
     ["inputs", "histories", "configurations"], "link paths, periods, value patterns, sample subsets, label sides, time zones, sequences of links",
     "Tests use one link and one grid.", [X], [("weights and sum", X + ":GridValidator.get_time_series"), ("resampling", X + ":GridValidator.resample_to_grid_time_series"), ("correlation", X + ":Validator.calc_stats"), ("plot", X + ":GridValidator.plot_intersections")],
     "all end-point pairs x periods x sample subsets x two-link sequences", "regular grid, coordinates are cell centres")
prop("C31", "Level-to-rain chain: no rain when dry, no value without data, no look-ahead",
     "Running baseline, wet antenna correction and rain retrieval in sequence gives rain rates that are never negative, exactly 0 in dry steps, missing where the level is missing, and otherwise equal to the composed models; wet antenna correction never increases rain while levels do not fall below the baseline. With the constant baseline the rates up to any step do not depend on later samples, and links of one data set do not influence each other.",
     ["inputs", "configurations", "histories"], "all level/gap and wet/dry/unknown sequences x baseline method x wet antenna method x link parameters; prefixes; link subsets and orders",
     "Only single functions are tested, mostly on one stored series.", [B, A, K, W],
     [("chain", B + " -> " + A + " -> " + K)],
     "all words up to length 3-4 (5) x 4 baselines x 4 wet antenna methods, all prefixes, all link subsets", "attenuation clipped at zero as in the documentation")


prop("C32", "Nearby-link chain: no rain unless wet, no influence of other regions",
     "Running the nearby-link classification, reference level, signal correction and rain retrieval in sequence gives for every link the composition of their published rules: rates are never negative, exactly 0 or missing in steps not classified wet, and missing where the reference level is missing or the outlier score is at or below its threshold. The rates of a link depend only on links within the radius: not on the order or labels of the links, nor on other regions in the same call; and rates up to a step do not depend on samples more than two steps later.",
     ["inputs", "configurations", "histories"], "all level/gap words of a link x neighbour histories x parameters; prefixes; link orders; regions alone and together; event positions",
     "Each of the four functions is tested alone, on one stored series.", [N, R],
     [("chain", N + " -> " + R)],
     "all words of length 5 (6) over 3 levels x 3 neighbour histories, parameter grid, all prefixes, all orders of a region, regions alone and together", "first and last two steps of the class as returned (known finding nearby_wetdry_edges)")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "mc", "props", p["id"].lower() + ".py")):
            c = "bash check.sh %s --tier %%s" % p["id"]
            checks.append(dict(property=p["id"], quick_cmd=c % "quick", thorough_cmd=c % "thorough", technique=MC_DIRECT % p["_enum"], level="model_checking", level_note=("Exhaustive within the bounds reported in the evidence file, on the real code. " + p["_note"]).strip()))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes="All checks run the working tree of /repo in place (PYTHONPATH, byte code outside the tree); no hooks are needed. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks")


main()
