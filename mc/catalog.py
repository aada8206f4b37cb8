"""The properties, and how each is claimed. `python3-vt mc/catalog.py` writes
properties.jsonl and MANIFEST.json from this."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
SP, CF, PA = ("echidna/core/spectra.py", "echidna/core/config.py",
              "echidna/core/parameter.py")
SH, SC, SM = ("echidna/core/shift.py", "echidna/core/scale.py",
              "echidna/core/smear.py")
TS, MI, FR = ("echidna/fit/test_statistic.py", "echidna/fit/minimise.py",
              "echidna/fit/fit_results.py")
FT, LI, ST = ("echidna/fit/fit.py", "echidna/limit/limit.py",
              "echidna/output/store.py")
YL = "echidna/util/yaml_loader.py"


def P(pid, title, statement, over, text, why, files, mech, check,
      technique, note, state=(), observe=()):
    PROPS.append(dict(
        rec={"id": pid, "title": title, "statement": statement,
             "quantifier": {"over": over, "text": text},
             "why_tests_cant": why,
             "anchors": {
                 "files": files,
                 "state": [dict(zip(("name", "meaning", "where"), s))
                           for s in state],
                 "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                 "observe_at": list(observe), "hook_needed": None}},
        check=check, technique=technique, note=note))


ENUM = "exhaustive enumeration of bounded inputs on the real code against a reference model"
HIST = "exhaustive exploration of bounded operation sequences on the real code in lock step with a reference model"
BFS = "explicit-state breadth-first model checking of the real code in lock step with a reference model"
ENV = "exhaustive exploration of every environment answer (controlled nondeterminism) on the real code"
TRUST = ("Exhaustive within the bounds the evidence states; trusts the Python 2 "
         "loader and library stand-ins (mc/py2rt.py, mc/stubs.py, validated by "
         "setup) and the reference model in the check.")

P("P01", "Axis geometry follows one uniform-bin model",
  "For any axis with given bounds and number of bins, edges, centres, width, "
  "bin number of a value and rounding to an edge all agree with one uniform "
  "partition of the half-open range from low to high, also after the bounds, "
  "the number of bins or an array returned are changed. Values and bin numbers outside the axis "
  "and invalid settings are refused.",
  ["inputs", "configurations"],
  "every low bound, width, number of bins, bin and position inside a bin, "
  "including axes that do not start at a multiple of the width",
  "The unit tests use one or two axes that start at zero, where several wrong "
  "formulas agree; the agreement has to hold for every axis.",
  [PA, CF], [("SpectraParameter bin arithmetic", PA)], "c_geometry", ENUM,
  TRUST, [("_low/_high/_bins", "bounds and number of bins of an axis", PA)],
  ["get_bin, get_bin_boundary, get_bin_centre, get_width, round"])

P("P02", "Filling counts in exactly the bin that contains the values",
  "Filling a spectrum at values inside its axes adds the weight to the one "
  "bin containing them and changes nothing else. A fill with "
  "a missing, unknown, out-of-range or not-a-number value is refused and "
  "changes nothing.",
  ["inputs", "configurations", "histories"],
  "every bin and position in it, edges included, of 1 to 3 axes in any order; "
  "every class of invalid argument; sequences of fills",
  "Tests fill a few thousand random values in one 3-axis spectrum and compare "
  "projections; bin edges, upper bounds and rejected fills are not reached.",
  [SP, PA], [("Spectra.fill range checks and index", SP)], "c_fill", ENUM,
  TRUST, [("_data", "histogram contents", SP)], ["Spectra.fill", "get_data"])

P("P03", "Projections are the marginals of the histogram",
  "At any point of its history, projecting a spectrum of any number of axes on "
  "any subset of them gives the sums over all other axes, as an array in the "
  "order of its axes, and leaves the spectrum unchanged. Unknown axes are "
  "refused.",
  ["inputs", "configurations"],
  "every shape up to 5 axes, every subset of axes and order of naming them, "
  "every history of three operations",
  "The tests project one 3-axis spectrum on single axes; wrong axes can agree "
  "there for symmetric contents.",
  [SP], [("Spectra.project and nd_project", SP)], "c_project", ENUM, TRUST, (),
  ["Spectra.project", "Spectra.nd_project"])

P("P04", "Adding spectra is dimension-wise addition or a refusal",
  "Adding a spectrum with the same dimensions and binning, in any axis order, "
  "adds contents bin by bin, numbers of decays and raw events, and leaves the "
  "added spectrum untouched and independent. Adding one whose dimensions, "
  "bounds or numbers of bins differ is refused and changes nothing.",
  ["inputs", "configurations", "histories"],
  "every pair of axis sets differing in order, bounds, bins, names or number "
  "of axes; histories of additions",
  "Tests add two identically binned spectra; compatible spectra with another "
  "axis order and partial failures are not reached.",
  [SP], [("Spectra.add compatibility checks", SP)], "c_add", ENUM, TRUST, (),
  ["Spectra.add"])

P("P05", "Shrinking and cutting keep exactly the requested bins",
  "Shrinking keeps exactly the bins that overlap the requested ranges with "
  "their contents, and the axes afterwards describe those bins; cutting also "
  "scales the number of decays by the fraction kept and a region of interest "
  "records that fraction. Reversed, empty, outside or unknown requests are "
  "refused without any change.",
  ["inputs", "configurations", "histories"],
  "every pair of bounds at, near and between bin edges, on one or several "
  "axes at once; successive shrinks",
  "Tests shrink at a few exact bin edges; bounds within a bin, rounding of "
  "edges, multi-axis requests with one invalid axis need all combinations.",
  [SP, PA], [("Spectra.shrink, cut, shrink_to_roi", SP)], "c_shrink", ENUM,
  TRUST, [("_rois", "recorded regions of interest", SP)],
  ["Spectra.shrink", "Spectra.cut", "Spectra.shrink_to_roi"])

P("P06", "Rebinning sums neighbouring bins and keeps the axes",
  "Rebinning to divisors of the numbers of bins sums each group of "
  "neighbouring bins, keeps bounds, total, decays and regions, and rebinning "
  "in steps equals rebinning at once. A request that does not divide, or has "
  "the wrong number of axes, is refused and changes nothing.",
  ["inputs", "configurations", "histories"],
  "every shape of 1 to 3 axes, every tuple of divisors and non-divisors, all "
  "two-step rebinnings",
  "Tests rebin one shape by one factor and check sums only.",
  [SP], [("Spectra.rebin", SP)], "c_rebin", ENUM, TRUST, (),
  ["Spectra.rebin"])

P("P07", "Scaling to a number of decays is linear and path independent",
  "After any sequence of scalings the contents equal the original shape times "
  "the last requested number of decays over the original one, whatever was "
  "requested in between. Nothing but contents and number of decays changes.",
  ["inputs", "histories"],
  "every sequence of targets, integers and floats, after shrinking, cutting "
  "or adding",
  "The tests scale once, from and to floats.",
  [SP], [("Spectra.scale", SP)], "c_scale_counts", HIST, TRUST,
  [("_num_decays", "number of decays the contents stand for", SP)],
  ["Spectra.scale", "get_num_decays"])

P("P08", "Any history of operations tracks a reference histogram",
  "Through any sequence of fills, scalings, additions, shrinks, cuts, regions "
  "and rebinnings, valid and invalid, the contents, axes, number of decays, "
  "raw events, regions and projections of a spectrum equal those of a "
  "reference histogram given the same operations. Refused operations leave "
  "no trace.",
  ["histories"], "every operation sequence up to the depth bound, from "
  "2-axis and 3-axis starting spectra",
  "Each unit test applies one operation to a fresh spectrum; state left over "
  "from one operation shows only in the next.",
  [SP, CF, PA], [("every mutating method of Spectra", SP)], "c_history", BFS,
  TRUST, [("_data, _config, _num_decays, _raw_events, _rois",
           "whole state of a spectrum", SP)], ["all getters of Spectra"])

P("P09", "Derived spectra and their sources stay independent",
  "Copying, shifting, scaling or smearing a spectrum leaves it as it was and "
  "gives one with the same description, and no later operation on either of "
  "the two, or on anything derived further, changes the other.",
  ["histories"], "every way of deriving a spectrum x every sequence of "
  "mutating operations on either side",
  "Sharing of axes, regions or arrays shows only when one side is modified "
  "after the derivation; the tests never do.",
  [SP, SH, SC, SM, PA], [("Spectra.__copy__ / __deepcopy__", SP),
                         ("results built by Shift, Scale, Smear", SM)],
  "c_copy", HIST, TRUST, [("_config", "axes of a spectrum", SP)],
  ["get_data, get_config, get_roi of both spectra"])

P("P10", "Shifting by whole bins is an exact translation",
  "A shift by a whole number of bins, however the product was rounded, moves "
  "every bin's contents exactly that far along the axis and drops what leaves "
  "it, through both entry points. A whole-bin shift by anything else is "
  "refused, and the input is unchanged.",
  ["inputs", "configurations"],
  "every axis, number of bins shifted and floating point spelling of it, each "
  "axis of multi-axis spectra",
  "One axis and one shift are tested, with exactly representable widths.",
  [SH], [("Shift.shift_by_bin, Shift.shift", SH)], "c_shiftbin", ENUM, TRUST,
  (), ["Shift.shift", "Shift.shift_by_bin"])

P("P11", "Interpolated shifts and scalings follow the interpolated marginal",
  "Shifting or stretching an axis by any amount keeps the total, gives the "
  "affected axis the interpolated distribution of the original with nothing "
  "from outside the axis, and leaves the distribution over the other axes "
  "to the two source bins concerned. Contents never become negative or "
  "undefined, and the input is unchanged.",
  ["inputs", "configurations"],
  "every shift, factor, interpolation order, content shape, and position of "
  "the axis among 1 to 3 axes",
  "Tests fit a Gaussian to one shifted and one scaled random spectrum with a "
  "loose tolerance.",
  [SH, SC], [("Shift.shift", SH), ("Scale.scale", SC)], "c_interp", ENUM,
  TRUST, (), ["Shift.shift", "Scale.scale"])

P("P12", "Weighted smearing spreads bins by the stated resolution",
  "Weighted smearing replaces each bin by the normalised distribution of the "
  "stated resolution over the window of bins around it, keeping every count "
  "and touching no other axis; it is linear in the contents. The input and "
  "the smearing settings are unchanged.",
  ["inputs", "configurations"],
  "every method, axis, resolution from far below to far above the bin width, "
  "window width and source bin",
  "Tests smear one peak with default settings and check its mean and width "
  "to several percent.",
  [SM], [("EnergySmearLY/EnergySmearRes/RadialSmear.weighted_smear", SM)],
  "c_smear", ENUM, TRUST, (), ["weighted_smear"])

P("P13", "Random smearing puts every entry where its draw falls",
  "Random smearing draws anew and once for every whole entry, around its bin centre with the "
  "stated resolution, and the entry ends up in the bin containing the drawn "
  "value or is dropped outside the axis. The other axes and the input are "
  "unchanged.",
  ["fault_sequences", "inputs"],
  "every sequence of answers of the random source inside each bin, below, "
  "above and negative, for every method",
  "A test samples the random source and compares moments; draws outside the "
  "axis and in edge bins are not controlled.",
  [SM], [("random_smear methods", SM)], "c_random", ENV, TRUST, (),
  ["random_smear"])

P("P14", "Resolutions compose and settings keep the last valid value",
  "Smearing by the computed extra resolution on top of the current one equals "
  "the requested resolution, in terms of the widths the smearing applies, and "
  "requests for a better one are refused. Every setting accepts exactly the "
  "physical values and keeps the last one accepted.",
  ["inputs", "histories"],
  "every pair of current and requested resolution, integers and floats; "
  "every sequence of valid and invalid settings",
  "Tests check single float values; integer values and sequences with "
  "refused settings are not reached.",
  [SM, SC, SH], [("calc_smear_ly, calc_smear_resoluton, set_*", SM)],
  "c_resolution", ENUM, TRUST, (), ["calc_smear_*", "get_*"])

P("P15", "Test statistics equal their definitions in every bin",
  "Each test statistic gives, for any observed and expected counts, the value "
  "of its published definition per bin and in total, and the total is the sum "
  "over bins; penalties are the squared pull. Inputs are left alone and "
  "arrays of different or wrong shape are refused.",
  ["inputs"], "all arrays over an alphabet of counts including zeros, tiny "
  "and large values, integers and floats, views of larger arrays",
  "The tests compare a few values above zero with hand calculations.",
  [TS], [("the TestStatistic classes", TS)], "c_stats", ENUM, TRUST, (),
  ["compute_statistic", "get_penalty_term"])

P("P16", "A grid search tries every point and finds the smallest total",
  "A search evaluates the function exactly once at every combination of "
  "parameter values, stores each answer at its own grid point, and reports "
  "the smallest statistic plus penalty with the first such point as best fit, "
  "never an undefined one. Repeated searches on the same object are "
  "independent.",
  ["inputs", "fault_sequences", "configurations"],
  "every table of answers over an alphabet with ties, infinities and "
  "undefined values, every grid shape with repeated and non-linear values",
  "Tests minimise one smooth function; ties, repeated values, penalties that "
  "move the minimum and undefined values are not reached.",
  [MI, FR], [("GridSearch.minimise and find_minimum", MI)], "c_grid", ENV,
  TRUST, [("_stats, _penalty_terms", "answers per grid point", FR)],
  ["GridSearch.minimise", "get_par(...).get_best_fit"])

P("P17", "Every view of the search grid agrees with what was stored",
  "After any sequence of writes, resets and refused writes, statistics and "
  "penalties read by index, by parameter value, as slices or as projections "
  "agree with the values last stored at those grid points. Totals, projections "
  "and selections by value are the caller's own arrays. Wrong shapes, indices "
  "out of range and unknown names are refused.",
  ["histories", "configurations"],
  "every sequence of grid operations on several grid and spectrum shapes, "
  "every index, subset of values and projection",
  "Tests read back one total array.",
  [FR, MI, CF], [("FitResults/GridSearch accessors", FR)], "c_gridview", HIST,
  TRUST, [("_stats, _penalty_terms", "answers per grid point", FR)],
  ["get_stats, get_raw_stats, get_penalty_at, nd_project_stats"])

P("P18", "Fit parameter grids have the promised values and look-ups",
  "A fit parameter scans the requested number of values from low to high with "
  "the requested spacing, includes its prior where promised, and finds every "
  "one of its values and no other. After any sequence of settings it equals a "
  "parameter newly created with the resulting settings, and invalid settings "
  "are refused without effect.",
  ["inputs", "configurations", "histories"],
  "every range, number of values, prior and spacing; every sequence of valid "
  "and invalid settings with the grid read in between or not",
  "Tests build a handful of parameters and do not change them after first "
  "use.",
  [PA], [("FitParameter.get_values / set_par / get_value_index", PA)],
  "c_parvals", HIST, TRUST, [("_values", "the cached grid", PA)],
  ["get_values", "get_value_index", "get_value_at"])

P("P19", "A fit compares the data with the sum of all its components",
  "At every point of its grid a fit uses the chosen statistic of the data "
  "against fixed backgrounds plus floating backgrounds at their rates plus "
  "signal, the latter two with all global systematics applied in order, over "
  "the region of interest and in the data's binning, and adds the penalty of "
  "every parameter that has one. It returns the smallest total. Incomplete or "
  "inconsistent set-ups are refused.",
  ["inputs", "configurations"],
  "every combination of axis layout, region of interest, fixed, floating and "
  "signal spectra, binning, global systematics, statistic, penalties and "
  "whole, per-bin or counting fit; every grid point of each",
  "No test runs a fit; a wrong component only shifts numbers.",
  [FT, PA, MI, CF], [("Fit._funct, Fit.fit", FT)], "c_fitstat", ENUM, TRUST,
  [("_data, _fixed_background, _floating_backgrounds, _signal",
    "the components", FT)], ["Fit.fit", "GridSearch.get_raw_stat"])

P("P20", "Fit results do not depend on earlier fits or components",
  "After any sequence of fits, of replacements of data, signal, backgrounds, "
  "statistic, minimiser or region of interest, of scalings of the spectra "
  "held, and of other changes to them before they are set again, a fit gives "
  "what a new one with the present components gives. Fitting changes none "
  "of the spectra it was given.",
  ["histories"],
  "every bounded sequence of fits and replacements, with several global "
  "systematics, spectra that share a background name, and rates of zero",
  "Convolved spectra are cached between fits; only sequences of fits with "
  "changed components can expose a stale one.",
  [FT, PA], [("Fit._global_dict and in-place scaling in Fit._funct", FT)],
  "c_fithist", HIST, TRUST, [("_global_dict", "cached spectra", FT)],
  ["Fit.fit", "get_data of every spectrum"])

P("P21", "The limit is the first scanned scale that exceeds the threshold",
  "A limit is the smallest signal scale at or above the best-fit one whose "
  "statistic, relative to the supplied or signal-free minimum and with the "
  "penalties at its own best fit, exceeds the requested value, or LimitError "
  "if there is none. The recorded results hold statistic, best fits, penalties "
  "and (if asked) the fit itself of a separate fit at every scale, whatever was "
  "asked or stored before.",
  ["inputs", "configurations", "histories"],
  "every threshold between scanned statistics, for every kind of fit, scan, "
  "supplied minimum and storage option, asked repeatedly; every short array "
  "of statistics",
  "No test sets a limit.",
  [LI, FT, FR, MI, ST], [("Limit.get_limit, get_array_limit, get_statistics",
                          LI), ("LimitResults", FR)], "c_limit", ENUM,
  TRUST + " Scans whose best-fit scale depends on whether penalties count are "
  "not asserted.", [("_limit_results", "results per scale", LI)],
  ["Limit.get_limit", "LimitResults getters"])

P("P22", "Fit and limit results hold and save one entry per grid point and scale",
  "Results hold exactly what was last set for each grid point, or for each "
  "signal scale and parameter. Saving and loading them at any point of any "
  "history changes neither what they answer nor what they do next.",
  ["histories"],
  "every bounded sequence of operations on fit and limit results, over sets "
  "of fit parameters of every kind and order, whole and per-bin, with and "
  "without stored fits",
  "The unit test saves one fit with both kinds of parameter; results without "
  "spectral parameters, per bin, or with another order of axes are not tried.",
  [ST, FR, MI], [("dump/load of FitResults, LimitResults and arrays", ST)],
  "c_results", HIST, TRUST,
  [("_stats/_penalty_terms/_best_fits", "tables of results", FR)],
  ["load_fit_results, load_limit_results, every getter"])

P("P23", "A spectrum read from a file is the spectrum that was saved",
  "Contents, axes, scaling information, names, style, regions of interest and "
  "fit configuration survive saving and loading, and the loaded spectrum "
  "behaves as the saved one. A file is a map from group names to spectra: "
  "saving affects the named group (or, without append, replaces the file), "
  "and a refused save leaves the file as it was.",
  ["inputs", "histories"],
  "every bounded combination of layout, contents, style, regions of interest, "
  "names and fit configuration, and every bounded sequence of saves",
  "The unit test stores one spectrum once; the guarantee concerns every "
  "spectrum and every sequence of saves to one file.",
  [ST, SP], [("store.dump and store.load", ST)], "c_store", HIST, TRUST,
  [("hdf5 groups", "the spectra of a file", ST)],
  ["store.load of every group, getters of the spectrum"])

P("P24", "Configurations are ordered maps and survive their files",
  "A configuration is an ordered map of the parameters added to it, which "
  "fixes shape, index and dimension of each. Written to a dictionary or to "
  "YAML files and read again it holds equal parameters, under the file and "
  "configuration names that were asked for; malformed dictionaries are "
  "refused.",
  ["configurations", "histories"],
  "every ordered choice of a few axes or fit parameters in every state "
  "(changed, fitted, logarithmic), every form of name, every bounded sequence "
  "of additions",
  "Tests load a few fixed files; orders, parameters changed by a fit and the "
  "different forms of file names are not sampled.",
  [CF, PA, YL], [("dump, dump_to_file, load, load_from_file", CF)],
  "c_config", HIST, TRUST, [("_parameters", "ordered map", CF)],
  ["get_pars, get_shape, get_index, parameter getters, files written"])

P("P25", "Decay conversions describe one physical situation along any path",
  "For a double-beta isotope, converting between half-life, activity, number "
  "of counts and effective mass along any sequence of conversions gives the "
  "value that the first quantity determines, for every live time, loading, "
  "volume and number of atoms. The number of atoms follows the given loading, "
  "density and radius (zero included), and impossible values are refused.",
  ["inputs", "histories"],
  "every walk through the four quantities up to a length, from several values "
  "of each, for every way of giving or omitting the optional arguments",
  "Tests check one conversion of each kind at one value with the default "
  "arguments; whole numbers, explicit atoms and cycles are not reached.",
  ["echidna/calc/decay.py", "echidna/calc/constants.py"],
  [("DBIsotope conversions", "echidna/calc/decay.py")],
  "c_decay", HIST, TRUST, [("DBIsotope attributes", "isotope and detector "
                            "constants", "echidna/calc/decay.py")],
  ["DBIsotope conversion methods, get_n_atoms"])

P("P26", "Each event of a file that passes the cuts is counted once",
  "Filling a spectrum from an ntuple or a ROOT file adds one count for each "
  "event whose values are valid, inside the fiducial volume (by the position "
  "asked for), left by the bipo cut and on the axes, in the bin of its "
  "extracted values, and nothing else. "
  "Raw events grow by the number of counts and decays by the number of "
  "entries read, however the entries are split into files.",
  ["environment answers", "inputs", "histories"],
  "every event of a bounded alphabet of answers of the file (fits missing, "
  "invalid or partial, particles or triggered events missing, positions in "
  "and out of the fiducial volume, either sign of z, energies off the axis), "
  "every short sequence of them, every set of cuts and parameters",
  "The tests never read an ntuple or ROOT file; what is counted depends on "
  "combinations of rare events and options.",
  ["echidna/core/fill_spectrum.py", "echidna/core/dsextract.py"],
  [("fill_from_root, fill_from_ntuple", "echidna/core/fill_spectrum.py"),
   ("function_factory and extractors", "echidna/core/dsextract.py")],
  "c_fromfile", ENV, TRUST,
  [("_raw_events, _num_decays, _bipo", "scaling information", SP)],
  ["fill_from_root, fill_from_ntuple", "get_data, get_num_decays"])

P("P27", "Pre-made spectra are found by value and give the same fit",
  "Every combination of values of the systematics, whole or fractional, names "
  "one pre-made file of its own in the documented directory, whatever other "
  "words the name holds. A fit that loads pre-made spectra from the directory "
  "set last gives what a fit of the same convolved spectra gives, scaled to "
  "the decays the fit was given.",
  ["inputs", "histories", "configurations"],
  "every value, file name and directory of an alphabet, every sequence of "
  "systematics up to a length, every sequence of directory changes and fits",
  "Nothing tests pre-made spectra; a collision of two names or a stale "
  "directory silently fits the wrong spectrum.",
  [PA, FT, ST], [("get_pre_convolved", PA), ("load_pre_made", FT)],
  "c_premade", HIST, TRUST,
  [("_global_dict, _pre_made_base_dir", "convolved spectra kept by a fit", FT)],
  ["get_pre_convolved, load_pre_made, set_pre_made_dir, fit"])

P("P28", "Scripts save exactly the spectrum their arguments describe",
  "Each script that scales, shifts, smears, shrinks, rebins, combines or fills "
  "spectra writes one file per result, at the path its documentation gives, "
  "holding what that operation of the library makes of its inputs, however the "
  "path is written and in any pipeline of scripts. The inputs stay as they "
  "were, and missing or impossible arguments write nothing.",
  ["inputs", "histories", "configurations"],
  "every combination of arguments of an alphabet for 10 scripts, every "
  "pipeline of calls up to a length",
  "No script is run by the tests; relative paths, zero values, lists of files "
  "and destinations are options that only some users meet.",
  ["echidna/scripts/dump_scaled.py", "echidna/scripts/dump_shifted.py",
   "echidna/scripts/dump_shrink.py", "echidna/scripts/dump_smeared.py",
   "echidna/scripts/dump_smeared_energy.py", "echidna/scripts/rebin.py",
   "echidna/scripts/combine_hdf5.py", "echidna/scripts/dump_spectra_ntuple.py",
   "echidna/scripts/dump_spectra_root.py",
   "echidna/scripts/multi_ntuple_spectrum.py"],
  [("main of each script", "echidna/scripts")],
  "c_scripts", HIST, TRUST, [("files", "the stored spectra", ST)],
  ["files written, store.load of them"])

P("P29", "Plots of spectra show exactly the projected counts",
  "A projection, surface or stacked spectral plot, drawn with matplotlib or "
  "with ROOT, shows every bin of the plotted dimensions once, at its own "
  "boundaries, holding the counts summed over the other dimensions. A stack "
  "shows each spectrum under its label, the sum of its backgrounds with its error band, the "
  "total and any limit, and refuses spectra of different binning. Plotting "
  "changes no spectrum.",
  ["inputs", "configurations"],
  "every shape and axis of a bounded set, every pair of dimensions in both "
  "orders, every assignment of roles in a stack",
  "Nothing tests the plots; a transposed surface, a dropped last bin or a "
  "missing background still looks like a plot.",
  ["echidna/output/plot.py", "echidna/output/plot_root.py"],
  [("plot_projection, plot_surface, spectral_plot", "echidna/output/plot.py"),
   ("plot_projection, plot_surface, spectral_plot",
    "echidna/output/plot_root.py")],
  "c_plotspec", ENUM,
  "what matplotlib and ROOT make of the histograms, bands and cells they are "
  "given (recorded by stand-ins)",
  [("input", "the plotted spectra", SP)],
  ["numbers handed to matplotlib and ROOT"])

P("P30", "Plots of fits and limits show exactly the stored results",
  "Each plot of a limit, of a search grid or of chi squared against signal "
  "counts, half-life or mass shows every stored statistic, penalty or best "
  "fit at its own parameter value or bin, on the axes asked for. No plot, and "
  "no sequence of plots, changes the results it shows, and conversions "
  "without a converter are refused.",
  ["inputs", "histories"],
  "every plot of every grid and limit of a bounded set, every sequence of "
  "plots up to a length",
  "Nothing tests the plots; a transposed map looks plausible, and a plot that "
  "changes the results shows only in the next one.",
  ["echidna/output/plot_root.py", "echidna/output/plot_chi_squared.py",
   "echidna/output/plot_chi_squared_root.py"],
  [("plots of limits and grids", "echidna/output/plot_root.py"),
   ("chi_squared_vs_signal, penalty_vs_systematic",
    "echidna/output/plot_chi_squared.py"),
   ("chi_squared_vs_signal, _half_life, _mass",
    "echidna/output/plot_chi_squared_root.py")],
  "c_plotfit", HIST,
  "what matplotlib and ROOT make of the points and cells they are given "
  "(recorded by stand-ins)",
  [("results", "the stored results", FR), ("grid", "the search grid", MI)],
  ["numbers handed to matplotlib and ROOT"])

P("P31", "Every message is logged, and shown once at the chosen level",
  "Once logging has started, every message of any logger and every captured "
  "warning is in the one log file of the profile's directory, whose name the "
  "arguments give, and those of at least the profile's level are also shown "
  "exactly once, in the form of the nearest logger that has one. Starting "
  "again changes nothing, user warnings are raised in cautious mode only, and "
  "a missing directory is refused.",
  ["inputs", "histories", "configurations"],
  "every setting of the profile and arguments, every sequence of messages, "
  "warnings and restarts up to a length",
  "Logging is never started by the tests; lost or doubled messages show only "
  "for particular settings, loggers and restarts.",
  ["echidna/utilities.py", "echidna/settings.py"],
  [("start_logging, DispatchingFormatter", "echidna/utilities.py")],
  "c_log", HIST,
  "Python 3's logging module behaving as Python 2's, colours being left out",
  [("logger_set, root handlers", "where messages go",
    "echidna/utilities.py")], ["log file, terminal"])

P("P32", "Errors of an array are those of its elements, in its shape",
  "For an array of any shape, get_array_errors gives an array of the same "
  "shape whose every entry is the growth of that element when its value, its "
  "natural or its decimal logarithm grows by lin_err, zeros included. The "
  "array is left as it was.",
  ["inputs"],
  "every shape up to three axes, rotation of a set of values, memory layout, "
  "error size and scale",
  "No test calls it; for one-dimensional arrays a lost shape does not show.",
  ["echidna/utilities.py"],
  [("get_array_errors", "echidna/utilities.py")], "c_errors", ENUM, TRUST,
  (), ["get_array_errors"])

P("P33", "A fit runs only with fitting parts, and a refused one leaves no trace",
  "A spectrum is accepted for a fit exactly if it covers the region of "
  "interest and is cut to it, or already is exactly that region, and a fit "
  "runs only if it has data, a background and, if per bin, a statistic and a "
  "minimiser per bin. A refused spectrum (or list of them) or region leaves "
  "the fit as it was: it gives the statistic of the parts accepted so far, or "
  "refuses, whatever was set or run before.",
  ["histories", "inputs"],
  "every short sequence of accepted and refused parts and regions, from an "
  "empty, a partial and a complete fit",
  "No test sets up a fit that does not fit together; what a refused part "
  "leaves behind shows only in the next fit.",
  [FT], [("set_data, set_signal, set_fixed_background, make_fixed_background, "
          "append_fixed_background, set_floating_backgrounds, set_roi", FT),
         ("check_all_spectra, check_fitter, check_roi, check_spectra", FT)],
  "c_fitcheck", HIST, TRUST, [("_checked and the spectra held", "the parts "
                               "accepted so far", FT)],
  ["Fit.fit", "Fit.get_fit_config"])

P("P34", "A scan that omits its prior or leaves its bounds is announced",
  "Checking the values of a fit parameter warns the user once exactly if some "
  "value lies outside the bounds of its type, and once exactly if its prior, "
  "zero or not, is not among the values it scans, after any sequence of "
  "settings, and changes nothing. A fit does so for the rates of the floating "
  "backgrounds it is given, at once or later; where such a warning is raised "
  "as an error, the list is refused and the fit is as it was.",
  ["inputs", "histories"],
  "every parameter type, scale, range and number of bins of a set with priors "
  "on and between the values, every short sequence of settings, every choice "
  "of good and bad rates of a fit",
  "No test checks the values; a warning that is missing or wrong changes no "
  "number, only whether the user can trust it.",
  [PA, FT], [("FitParameter.check_values", PA),
             ("check_fit_config, set_floating_backgrounds", FT)],
  "c_values", HIST, TRUST, [("_values", "the values a parameter scans", PA)],
  ["FitParameter.check_values", "FitParameter.get_values"])

P("P35", "A spectrum keeps the names, style and regions last given to it",
  "After any sequence of setting, filling, scaling, shrinking to regions of "
  "interest, copying, saving and loading, a spectrum reports the background "
  "name, style, fit configuration and regions of interest (bounds and fraction "
  "kept) last given to it; anything but a fit configuration of a spectrum is "
  "refused as one. A spectrum without a background name takes it from its name "
  "(what stands before _mc, _mix or _reco), or refuses to name one and to be "
  "saved. Nothing done to one spectrum changes what another reports.",
  ["histories"],
  "every short sequence of such operations on either of two spectra and on "
  "what is copied or loaded from them, for names of every form",
  "Tests read each setting back once, directly after it is set.",
  [SP, ST], [("set_background_name, get_background_name, set_style, "
              "set_fit_config, get_roi, shrink_to_roi", SP),
             ("dump, load", ST)],
  "c_labels", HIST, TRUST, [("_background_name, _style, _fit_config, _rois",
                             "what a spectrum was told", SP)],
  ["Spectra.get_background_name", "Spectra.get_style",
   "Spectra.get_fit_config", "Spectra.get_roi"])

NOT_APPLICABLE = []
try:
    from catalog_more import add
    add(P, globals())
except ImportError:
    pass


def main():
    import sys
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    ids = [p["rec"]["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            r = p["rec"]
            assert len(r["title"]) <= 80, r["id"]
            n = len(re.findall(r"[.](?:\s|$)", r["statement"]))
            assert n <= 3, (r["id"], n)
            f.write(json.dumps(r) + "\n")
    checks = []
    for p in PROPS:
        if p["check"] is None:
            continue
        src = open(os.path.join(VERIF, "checks", p["check"] + ".py")).read()
        m = re.search(r'^PROPERTY = "(\w+)"', src, re.M)
        assert m and m.group(1) == p["rec"]["id"], p["check"]
        cmd = "python3-vt mc/run.py %s --tier " % p["check"]
        checks.append({"property": p["rec"]["id"], "quick_cmd": cmd + "quick",
                       "thorough_cmd": cmd + "thorough",
                       "evidence_file": "evidence/%s.json" % p["rec"]["id"],
                       "technique": p["technique"], "level": "model_checking",
                       "level_note": p["note"]})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3-vt mc/selftest.py",
                   "checks": checks,
                   "not_applicable": [{"property": a, "reason": b}
                                      for a, b in NOT_APPLICABLE]}, f,
                  indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
