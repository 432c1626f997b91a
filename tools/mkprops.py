#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = state
    a["hook_needed"] = None
    M = {"iteration histories": "histories", "call arguments": "inputs", "time axes": "inputs", "operation histories": "histories",
         "trial outcomes": "inputs", "random states": "inputs", "stage histories": "histories", "noise decompositions": "inputs",
         "types": "inputs", "parameters": "configurations", "argument combinations": "configurations"}
    over = sorted({M.get(o, o) for o in over})
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

EMDF = "PyEMD/EMD.py"
prop("C01", "EMD components always add back up to the signal",
 "For every finite real signal of two or more samples and every configuration, the returned components are finite, have the length of the signal and sum to it sample by sample up to rounding. The stored modes and stored remainder also sum exactly to the signal, and the returned array is precisely those modes followed by the remainder, which is left out only when every one of its samples is numerically zero (below 1e-8). With parabolic extrema the claim is for signals whose neighbouring samples differ.",
 ["inputs", "configurations"], "all signals (length, shape, ties, scale, dtype) x spline kinds x extrema detection x number of mirrored points x stopping modes x component limits",
 "Unit tests reconstruct a few smooth signals with the default configuration; a lost component shows only for particular combinations of limit, threshold and trend.",
 [EMDF], [("decomposition loop, trend removal, remainder append", "PyEMD/EMD.py: EMD.emd")],
 "return value of a decomposition and the modes/remainder accessor")
prop("C02", "Every mode is sifted by the configured stopping rule",
 "Starting from what is left of the signal, each extracted mode is the result of repeatedly subtracting the mean of the upper and lower envelope, and the repetition stops exactly when the configured rule says so: after the fixed number of rounds; or after the requested number of consecutive rounds in which extrema and zero crossings differ by at most one (the first round never counts); or, by default, in the first round where the mode criterion holds and those counts differ by at most one. Sifting never goes on beyond the configured iteration maximum, and stops when at most two extrema are left. The mode criterion holds only if all envelope knots have the right sign, the energy is not negligible, and at least one of the three configured convergence thresholds is met.",
 ["inputs", "configurations", "iteration histories"], "all signals, stopping modes, thresholds and iteration limits; every round of every mode",
 "Tests only check that results exist or compare a handful of signals; an extra or missing round changes outputs slightly and only for certain histories (counter resets, limits reached at the same time).",
 [EMDF], [("inner sifting loop", "PyEMD/EMD.py: EMD.emd"), ("mode criterion", "PyEMD/EMD.py: EMD.check_imf")],
 "components of a decomposition, public mode criterion")
prop("C03", "Decomposition stops exactly when it should",
 "Modes are extracted one after another until the component limit is reached, what is left has a range or a summed magnitude below the configured thresholds, or what is left has at most two extrema. No further mode is extracted once one of these holds and none is dropped before, except that a last candidate with at most two extrema is part of the remainder and not a mode. A positive limit k therefore gives at most k modes plus a remainder, and a signal without enough extrema is returned as remainder only.",
 ["inputs", "configurations", "call arguments"], "all signals, thresholds, limits",
 "The interplay of limit, thresholds and trend is only sampled at one or two points by tests.",
 [EMDF], [("outer loop and end condition", "PyEMD/EMD.py: EMD.emd, EMD.end_condition")], "number and content of components, public end condition")
prop("C04", "Sample extrema and zero crossings are found exactly",
 "In the default detection mode the reported maxima (minima) are exactly the interior points that rise above (fall below) the signal on both sides, where a flat run counts once, at its middle sample (of two middle samples the one with the even zero-based index), and only if the signal turns there; flat runs touching either end are not extrema. Reported values are the signal values at the reported positions, positions are increasing and maxima and minima alternate. Zero crossings are exactly the sign changes between neighbouring samples plus one entry per run of exact zeros, in order.",
 ["inputs"], "all finite signals including plateaus, runs of zeros, ties, and extrema next to the borders; all time axes",
 "Tests check five or six hand written sequences; the plateau logic has cases at both borders and for single/multiple plateaus.",
 [EMDF], [("default extrema detection", "PyEMD/EMD.py: EMD._find_extrema_simple"), ("public entry", "PyEMD/EMD.py: EMD.find_extrema")], "public extrema finder")
prop("C05", "Parabolic extrema are the vertices of local parabolas",
 "In parabolic detection mode, after interior samples of flat runs are dropped, an extremum is reported exactly for each sample triple whose interpolating parabola has its vertex within half a step of the middle sample (left half step inclusive, right exclusive), for any spacing of the time axis. Its reported position and value are those of the vertex, and it is a maximum or minimum by the sense of the curvature. Zero crossings are as in the default mode.",
 ["inputs", "time axes"], "all finite signals and strictly increasing time axes",
 "Tests use one or two smooth signals with equidistant time.",
 [EMDF], [("parabolic detection", "PyEMD/EMD.py: EMD._find_extrema_parabol, EMD._not_duplicate")], "public extrema finder")
prop("C06", "Boundary extension mirrors the extrema past both ends",
 "The knots for an envelope are all extrema of its kind in order, extended on each side by up to the configured number of extrema mirrored either about the outermost extremum or, when the signal's end value reaches or passes the nearest opposite extremum or mirroring about the extremum would not reach past the end, about the signal's end, where in the first case (with parabolic detection in both) the end sample itself becomes one of the knots of the opposite side. Every mirrored knot has the value of the extremum it reflects and lies at the reflected position. The knots are strictly increasing and span the whole time axis for both envelopes.",
 ["inputs", "configurations"], "all signals with at least one maximum and one minimum and three extrema in total; 1, 2, 3... mirrored points; both detection modes",
 "Tests cover a few handcrafted sequences per branch with the default number of mirrored points.",
 [EMDF], [("mirroring", "PyEMD/EMD.py: EMD.prepare_points_simple, EMD.prepare_points_parabol, EMD.prepare_points")], "public knot preparation and envelope extraction")
prop("C07", "Envelopes are the selected interpolating spline of the knots",
 "For each supported spline kind the envelope passes through every knot, is evaluated at each sample of the time axis, and is the interpolant of that kind: piecewise linear, quadratic, twice differentiable cubic (natural when there are just three knots, not-a-knot otherwise), Akima, shape preserving cubic Hermite, or cubic Hermite with finite difference slopes. Reversing time, shifting or scaling values accordingly transforms the envelope. An unknown kind is rejected.",
 ["inputs", "configurations"], "all strictly increasing knot sequences (three or more, uneven spacing), values and evaluation grids",
 "Tests compare with the same library call on one data set; swapped kinds or a wrong three-point formula pass unnoticed.",
 [EMDF, "PyEMD/splines.py"], [("spline dispatch", "PyEMD/EMD.py: EMD.spline_points"), ("three point spline, wrappers", "PyEMD/splines.py")], "public spline evaluation")
prop("C08", "Results depend only on the call, and accessors on the last call",
 "On one object, the outcome of a call depends only on the current configuration and the arguments (and, for noise assisted variants, on the random state), never on earlier calls, failed calls, pickling, or which entry point was used; input arrays are never modified, and changes the caller makes afterwards to its input or to an array returned by plain EMD do not reach the object. After any history of successful and failed calls, mutated results, accessor reads and configuration changes, the accessors return the modes and remainder (or modes and trend) of the most recent successful call, they raise an error before the first one, and trend plus its modes always add up like modes plus remainder.",
 ["operation histories"], "all interleavings of decompositions of different signals/lengths/types, failing calls, accessor reads, configuration changes and pickling on one EMD, EEMD or CEEMDAN object",
 "Tests use fresh objects with one call each.",
 [EMDF, "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"], [("stored modes and remainder", "PyEMD/EMD.py: EMD.emd, get_imfs_and_residue, get_imfs_and_trend"), ("stored ensemble", "PyEMD/EEMD.py: EEMD.eemd"), ("stored result", "PyEMD/CEEMDAN.py: CEEMDAN.ceemdan")], "return values and accessors")
prop("C09", "EEMD averages every order over exactly the trials that have it",
 "The ensemble holds, for each order, the components of exactly the trials that produced that order, once each, in trial order, each trial being decomposed with the given time axis and component limit; the returned components are the mean over these, and the count, mean and standard deviation statistics agree with them. When trends are separated, each trial contributes its trend once, as the last component, and only its other modes to the remaining orders. The result is the same for any number of worker processes, completion order and progress display, and the stored remainder is the signal minus the returned components. Unless another decomposition is supplied, trials use the plain one with the options given on construction; the number of trials and the noise width default to 100 and 0.05.",
 ["schedules", "trial outcomes"], "all distributions of component counts over trials, sequential or any number of processes, any completion order, with or without separated trends",
 "Tests check shapes and a few statistics with real, similar trials.",
 ["PyEMD/EEMD.py"], [("aggregation", "PyEMD/EEMD.py: EEMD.eemd, all_imfs, ensemble_count/mean/std"), ("trial", "PyEMD/EEMD.py: EEMD._trial_update")], "returned components, ensemble accessor and statistics, with a recording trial decomposition passed in")
prop("C10", "EEMD trials get fresh independent noise, reproducible by seed",
 "Each trial decomposes the original signal plus its own newly drawn noise of the configured kind, whose amplitude is the configured width times the range of the signal (standard deviation for normal, full width for uniform noise); no noise is reused between trials or between calls. Setting the seed makes the whole result reproducible and equal for sequential and parallel execution with any number of processes, and zero width makes every trial equal to the plain decomposition.",
 ["schedules", "random states", "operation histories"], "all seeds, trial and process counts, noise kinds, widths, signals, sequences of calls",
 "Tests average a few trials; reused noise leaves plausible averages.",
 ["PyEMD/EEMD.py"], [("noise drawing and distribution to workers", "PyEMD/EEMD.py: EEMD.eemd, EEMD._trial_update, EEMD.generate_noise, EEMD.noise_seed")], "signals handed to the trial decomposition")
prop("C11", "CEEMDAN is complete and limited as requested",
 "For every signal, the returned components are finite and sum to the signal up to rounding for any noise, trial count, kind of noise, seed or parallel mode. A positive limit k gives at most k modes plus the final remainder; otherwise extraction stops as soon as what is left is itself without further modes or below the range or power threshold, and not before. A seeded run is reproducible and independent of the number of worker processes, and scaling the signal by a positive constant scales the components.",
 ["inputs", "configurations", "random states", "schedules"], "all signals, limits, thresholds, noise settings, seeds, process counts",
 "Tests check one or two signals and shapes only.",
 ["PyEMD/CEEMDAN.py"], [("stage loop, final remainder, rescaling", "PyEMD/CEEMDAN.py: CEEMDAN.ceemdan"), ("end condition", "PyEMD/CEEMDAN.py: CEEMDAN.end_condition")], "returned components, accessor, public end condition")
prop("C12", "CEEMDAN adds the right noise mode at the right scale in each stage",
 "One noise series per trial is drawn and decomposed, optionally normalised by the deviation of its own first mode; the first component is the average of the trials' first modes of the standardised signal plus the scaled first noise mode. In stage k+1 each trial decomposes the current remainder plus its (k+1)-th noise mode, if it has one, scaled by epsilon times the deviation of that remainder, on the given time axis; the average of the local means becomes the next remainder and the component is the difference. All trials contribute with equal weight. Unless another decomposition is supplied, the plain one with the options given on construction is used; 100 trials and epsilon 0.005 are the defaults.",
 ["stage histories", "noise decompositions"], "all noise decompositions (including trials running out of modes at different stages), trial counts, epsilon, normalisation on or off, stages",
 "Only completeness is visible from outside, and it holds whatever noise was added in a stage.",
 ["PyEMD/CEEMDAN.py"], [("noise decomposition", "PyEMD/CEEMDAN.py: CEEMDAN._decompose_noise"), ("first mode", "PyEMD/CEEMDAN.py: CEEMDAN._eemd, _trial_update"), ("stages", "PyEMD/CEEMDAN.py: CEEMDAN.ceemdan")], "signals handed to the trial decomposition and returned components")
prop("C13", "Time axis and sample type never change the meaning of the result",
 "A missing time axis is the sample index 0, 1, 2 and so on, without repeats for any signal length and sample type; with default extrema detection the result does not depend on the time values at all, and with parabolic detection it does not change when time is shifted or scaled by a positive factor. Integer, small integer, half, single and double precision signals of equal values give the same decomposition up to the precision of the type (for half precision: as far as sample positions are distinct in it). A time axis of different length or with repeated values (where it is used) is rejected.",
 ["inputs", "types", "time axes"], "all sample types, lengths past the range of the type, time axes (offset, scale, uneven)",
 "Tests try a few types with short signals.",
 [EMDF, "PyEMD/utils.py", "PyEMD/EEMD.py"], [("time handling", "PyEMD/EMD.py: EMD.emd, EMD._normalize_time"), ("timeline and type promotion", "PyEMD/utils.py")], "decomposition results, public timeline helper")
prop("C14", "White noise test follows the energy and period rule",
 "For every set of components, none identically zero, the significance test reports one 0/1 verdict per component, numbered from one, deciding a priori by whether the log energy density lies outside the two sided confidence band around minus the log mean period, and a posteriori by whether the energy density, divided by the reference level exp(k sqrt(2/N) P/2 - ln P) of the chosen reference component with mean period P, lies above the upper band; the reference itself is judged by that level. Mean period is the length divided by the number of non-negative local maxima (the length if there are none). Empty or NaN input yields no verdict, and invalid arguments are rejected.",
 ["inputs", "parameters"], "all component sets, both tests, reference components, confidence levels",
 "Tests check a few verdicts on one signal.",
 ["PyEMD/checks.py"], [("test", "PyEMD/checks.py: whitenoise_check, significance_apriori, significance_aposteriori, mean_period, energy")], "returned verdicts")
prop("C15", "Plots show exactly the given components and frequencies",
 "Every plot of components draws each component, in order, one row each, labelled with its number from one, against the given time (or sample index), followed by the remainder if and only if requested; passed arrays take precedence over those of the attached object, and missing data is an error. The instantaneous frequency plot draws for each component, in order, the time derivative of its unwrapped analytic phase in cycles per unit of time, with the last value repeated in the low order scheme (the default), and smoothing is applied only if a valid filter strength is given, in which case the analytic signal, its phase and the frequency pass through the compact filter. Time is uniformly spaced.",
 ["inputs", "argument combinations"], "all component sets (including a single one), with and without remainder, attached object, time axis, difference order, filter",
 "Tests only check that plotting does not raise.",
 ["PyEMD/visualisation.py"], [("plots and frequencies", "PyEMD/visualisation.py: Visualisation.plot_imfs, plot_instant_freq")], "drawn lines of the figure")
prop("C16", "Compact schemes solve their system and keep their order",
 "The tridiagonal solver returns the solution of every diagonally dominant system; the sixth order derivative is exact at every point, including both borders, for polynomials up to degree five with any step, it is linear, and reverses sign under reflection. The filter reproduces cubic data at every strength, is linear and reflection symmetric, leaves data that vanish near both borders unchanged at strength one half, and removes the alternating (highest) frequency at every strength (for seven or more samples).",
 ["inputs"], "all lengths from the stencil size up, steps, strengths, data",
 "Tests check one sine.",
 ["PyEMD/compact.py"], [("schemes", "PyEMD/compact.py: TDMAsolver, pade6, filt6")], "returned arrays")
prop("C17", "MATLAB compatible EMD is complete and counts consistently",
 "The MATLAB compatible variant returns as many components as it reports, numbered from zero without gaps, with one extrema count and one iteration count each; for floating point signals the components are finite and sum to the signal up to rounding, and a component limit k of two or more gives at most k components including the remainder. By default sifting of a component stops at the first candidate with more than two extrema, extrema and zero crossing counts differing by less than two, no sample whose mean to amplitude ratio exceeds the high bound and no more than the tolerated share of samples exceeding the low bound; the fixed iteration modes perform the configured number of rounds; the reported iteration count is the number of rounds plus one and never exceeds the iteration maximum. Extrema, zero crossings, boundary extension and splines follow the same definition as in the default variant.",
 ["inputs", "configurations"], "all finite signals with time axes, limits, stopping modes, splines",
 "Tests check a few smooth signals.",
 ["PyEMD/EMD_matlab.py"], [("decomposition", "PyEMD/EMD_matlab.py: EMD.emd, findExtrema, preparePoints")], "returned tuple, public extrema finder")
prop("C18", "JIT variant computes the same decomposition",
 "For double precision signals of three or more samples on the sample index axis the compiled variant returns the same components, in the same number and order, as the reference implementation with the same options, for every spline kind it supports, both detection modes (the parabolic one when neighbouring samples differ), and each stopping rule. Its object keeps the last component as remainder and the others as modes, a missing time axis is the sample index, and it can serve as the trial decomposition of the ensemble variants, sequential and parallel, with the same ensemble result.",
 ["inputs", "configurations"], "all float64 signals; supported splines, detection, thresholds, fixed iteration modes, limits",
 "Tests compare one or two signals.",
 ["PyEMD/experimental/jitemd.py"], [("compiled decomposition", "PyEMD/experimental/jitemd.py")], "returned components")
prop("C19", "Two dimensional variants reconstruct the image",
 "For every image, of any integer or float type, on which they finish, both two dimensional variants return components of the image's shape that are finite and sum to the image, and no more than the requested number plus the remainder; in the plain variant an offset of the image only enters the last component. Plain two dimensional extrema are exactly the inner pixels not exceeded by (not below) any of their eight neighbours and the edge extension is the exact mirror image on all eight sides. The candidate criterion of the plain variant holds exactly if the mean surface swings less than the mean threshold, the candidate no longer changes, or its mean magnitude or mean square is below the threshold.",
 ["inputs"], "all non-constant images, limits, thresholds",
 "The two dimensional tests are disabled in the test suite.",
 ["PyEMD/EMD2d.py", "PyEMD/BEMD.py"], [("2D decomposition", "PyEMD/EMD2d.py: EMD2D.emd, find_extrema, prepare_image"), ("morphological variant", "PyEMD/BEMD.py: BEMD.bemd")], "returned components, public helpers")
prop("C20", "Morphological image variant sifts its components by rule",
 "Maxima of the morphological image variant are the pixels from which no pixel higher by one unit or more can be reached without going below the pixel, minima the same on the negated image. The envelopes are the cubic radial interpolants through them. Each component is what is left of the image minus the repeated mean of the envelopes, stopped exactly by the configured rule: the fixed number of rounds plus one, enough consecutive rounds after the first that meet the criterion, the criterion itself, the iteration maximum, or fewer than two minima or maxima left.",
 ["inputs", "configurations"], "all images, stopping rules, thresholds, limits",
 "The two dimensional tests are disabled in the test suite.",
 ["PyEMD/BEMD.py"], [("morphological extrema and envelopes", "PyEMD/BEMD.py: BEMD.find_extrema_positions, extract_max_min_spline"), ("sifting loop", "PyEMD/BEMD.py: BEMD.bemd, check_proto_imf")], "returned components, public helpers")
prop("C21", "Plain image variant sifts its components by rule",
 "Each component of the plain image variant (working on the image scaled to the range 0 to 1) is what is left of the image minus the repeated mean of the two envelope surfaces of the current candidate, stopped exactly by the configured rule: the fixed number of rounds plus one, enough consecutive rounds after the first that meet the criterion, the criterion itself, or the iteration maximum. Sifting also stops when fewer than five minima or maxima are left, which makes that candidate the last one. Decomposition goes on until then, until the components add up to the image or until the limit, and what is left, unless negligible, becomes the last component.",
 ["inputs", "configurations"], "all images, stopping rules, thresholds, limits",
 "The two dimensional tests are disabled in the test suite.",
 ["PyEMD/EMD2d.py"], [("sifting loop", "PyEMD/EMD2d.py: EMD2D.emd, check_proto_imf, end_condition")], "returned components, public helpers")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
