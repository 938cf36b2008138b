"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Peak-to-track association is greedy, loudest first, one-to-one, in tolerance",
 "When the sinusoidal tracker is fed one frame of spectral peaks, every peak extends at most one active track and every active track receives at most one peak, and what it receives is exactly that peak's frequency, magnitude and phase. Peaks are considered in order of decreasing magnitude and each one goes to the still-unmatched active track whose last frequency is closest to it, but only if that distance is strictly below the tolerance (offset + slope x peak frequency); otherwise no active track receives it. No other track is altered by the frame.",
 "Any number of active tracks, any number of peaks, any frequencies, magnitudes and phases, any tolerance parameters; ties in magnitude may be broken either way.",
 "The tests run the tracker on one synthetic sound; they never look at which peak went to which track.",
 ["sample/sms/sm.py"],
 [("greedy association loop", "SineTracker.__call__"), ("nearest candidate selection", "min_key"), ("frequency tolerance", "SineTracker.df")],
 over=("inputs", "histories"), observe=["active track lists before and after a frame"],
 state=[("active tracks", "tracks that received a peak in the previous frame", "sample/sms/sm.py:SineTracker")])

prop("C02", "Tracks are born, kept contiguous and ended exactly at the right frame",
 "In every frame, each active track that received no peak is ended exactly once and every other active track stays active; then the peaks that were not used start new tracks at the current frame, in increasing frequency-bin order, until the configured maximum number of simultaneously active tracks is reached. Consequently the number of active tracks never exceeds that maximum, an active track always has as many frequencies as magnitudes and phases, and its starting frame plus its length equals the number of frames seen so far. A reset tracker has no tracks and counts frames from zero, and the analysis of a sound feeds the tracker every frame once, in time order (time-reversed input when reverse analysis is on).",
 "Every sequence of frames with arbitrary peaks, from a freshly reset tracker.",
 "An invariant over all frame histories; the tests only look at a final count of tracks for one sound.",
 ["sample/sms/sm.py", "sample/sms/mm.py"],
 [("deactivation and activation loops", "SineTracker.__call__"), ("deactivation", "SineTracker.deactivate"), ("reset", "SineTracker.reset"), ("frame loop", "SinusoidalModel.fit")],
 over=("inputs", "histories"), observe=["tracker state after every frame"],
 state=[("active tracks / finished tracks / frame counter", "tracker state", "sample/sms/sm.py:SineTracker")])

prop("C03", "Only tracks meeting the documented criteria are reported",
 "A finished track is kept only if it lasts at least max(2, ceil(minimum duration x frame rate)) frames and, for the modal tracker, its mean frequency lies within the (inclusive, individually optional) frequency bounds, its least-squares magnitude line does not rise over playback time, and that line's value at the track's first playback frame is not below the peak threshold; every track that meets these criteria is kept. The reported tracks are the kept ones followed by those still-active ones that meet the same criteria, and when a strip time is set the tracks whose onset (in playback time) is later than ceil(strip time x frame rate) frames are left out and no other.",
 "Every track (length, frequencies, magnitudes), every combination of thresholds, bounds, strip time, and both analysis directions.",
 "Tests use one configuration on one sound and never exercise a criterion at its boundary or a reversed slope.",
 ["sample/sms/sm.py", "sample/sms/mm.py"],
 [("length criterion", "SineTracker.track_ok / min_sine_len"), ("modal criteria", "ModalTracker.track_ok"), ("reported tracks and strip filter", "SineTracker.all_tracks_ / ModalTracker.all_tracks_")],
 over=("inputs", "configurations"), observe=["list of reported tracks"])

prop("C04", "Track merging joins only compatible tracks and keeps them time-aligned",
 "When a finished modal track is accepted it is appended to an already finished track only if that one ended strictly before the new one started (at least one empty frame between them), it is the one with the smallest frequency difference according to the selected strategy (average of valid frequencies, or last-versus-first), and that difference is strictly below the tolerance at the new track's first frequency; otherwise it is stored as a separate track. In a merged track, frequency, magnitude and phase have the same length, the missing frames are filled with NaN in all three, and every value stays at its original frame; no other stored track is changed and no accepted frame is lost.",
 "Every set of previously finished tracks and every newly finished track, both merge strategies.",
 "Merging depends on the history of finished tracks; the test sound exercises at most one case and checks no alignment.",
 ["sample/sms/mm.py", "sample/sms/sm.py"],
 [("merge step", "ModalTracker.deactivate"), ("strategies", "_track_diff_avg / _track_diff_single"), ("closest track", "min_key")],
 over=("inputs", "histories"), observe=["stored tracks before and after the end of a track"])

prop("C05", "Spectral peaks are exactly the strict interior local maxima above threshold",
 "Peak detection returns, in increasing order and without duplicates, precisely those interior positions of the spectrum whose value is strictly greater than both neighbours and, if a threshold is given, strictly greater than the threshold. It never returns the first or the last position and accepts spectra of any length.",
 "Every real spectrum of any length and every threshold (or none).",
 "Tests only compare two peaks of one synthetic spectrum.",
 ["sample/sms/dsp.py"], [("peak detection", "peak_detect")], observe=["returned indices"])

prop("C06", "Peak refinement returns the vertex of the parabola through the three samples",
 "For each detected peak the refined position and magnitude are the abscissa and ordinate of the vertex of the parabola through the peak sample and its two neighbours, hence the position moves by at most half a bin and the magnitude is never below that of the peak sample. The refined phase, when a phase spectrum is given, is the phase spectrum linearly interpolated at the refined position. Detection followed by refinement yields one value per detected peak, in the same order.",
 "Every spectrum, every set of detected peaks.",
 "Needs all real triples of samples; the tests use a single window shape.",
 ["sample/sms/dsp.py"], [("parabolic interpolation", "peak_refine"), ("composition", "peak_detect_interp")], observe=["returned positions, magnitudes, phases"])

prop("C07", "Overlapping frames cover the signal in order, in bounds, without copying",
 "Splitting a signal of any shape (linearised) into windows of size W every H samples yields as many windows as entirely fit (none if the signal is shorter than W), window i being exactly samples iH..iH+W-1, read-only unless writing is asked for, and never touching memory outside the signal. The default hop is the window size. Optional analysis padding adds zeros only, keeps every sample, and makes the signal start after (W+1)//2 zeros and be followed by W//2 zeros.",
 "All signal lengths, window sizes and hops >= 1.",
 "The tests use one size/hop combination; out-of-bounds views cannot be observed by value tests.",
 ["sample/utils/dsp.py", "sample/sms/sm.py"],
 [("window count", "n_windows"), ("strided view", "overlapping_windows"), ("padding", "SinusoidalModel.pad_input / time_frames")], observe=["shape and content of the windows"])

prop("C08", "The analysis frame is zero-phase windowed and its spectrum has a dB floor",
 "For a frame and window of equal length W and an FFT size n >= W, the transform is applied to the n-sample buffer whose sample k (modulo n) is the windowed frame sample at W//2 + k, for k from -(W//2) to W-W//2-1, all other samples being zero. The returned spectra both have n//2+1 values, the magnitude is 20 log10 of the modulus floored at machine epsilon (so it is always finite), and bins whose modulus is below the tolerance contribute phase zero before unwrapping. The analysis window used in analysis is normalised to unit sum.",
 "All frames, windows, window lengths >= 1 and FFT sizes n >= W.",
 "The tests use a few windows and sizes; layout errors of odd/even/one-sample windows are not visible there.",
 ["sample/sms/dsp.py", "sample/sms/sm.py"], [("zero-phase DFT", "dft"), ("window normalisation", "SinusoidalModel._normalized_window")], observe=["argument of the FFT, returned magnitude and phase"])

prop("C09", "Track preparation gives every value its playback time and leaves tracks intact",
 "For regression, each valid (non-NaN) value of a track is paired with time (start frame + its position)/frame rate, plus half a window when the analysis was not padded, or with the signal duration minus that time when the analysis was reversed; frequencies, magnitudes and phases stay aligned with it. Magnitudes are raised by 20 log10 2 dB and everything else is unchanged; the stored track is not modified.",
 "Every track with any NaN gaps, every frame rate, window, and all four padded/reversed combinations.",
 "Tests run only the default configuration and look at final parameters with loose tolerances.",
 ["sample/sample.py"], [("track preprocessing", "SAMPLE._preprocess_track")], over=("inputs", "configurations"), observe=["time axis and track passed to regression"])

prop("C10", "The hinge model, its starting point and its bounds are well-formed",
 "The hinge function equals k*min(x, a)+q element-wise. For data of at least two points whose linear fit is finite, the default starting point lies within the default bounds, every bound interval is non-empty, the knee interval contains all abscissas, the slope interval never contains slopes of the opposite sign to a non-zero linear slope and extends from it to eight times it, and the intercept interval is centred on the linear intercept; shorter data is rejected with an error. The residual that is minimised is the hinge function minus the data, and the fitted coefficients are the optimiser's solution.",
 "All data sets, slopes of either sign and zero, coincident abscissas, constant data.",
 "Boundary cases (zero slope, equal abscissas, zero residual) are not reached by the test data.",
 ["sample/hinge.py"], [("hinge function", "hinge_function"), ("initialiser", "HingeRegression._default_coeffs_init"), ("bounds", "HingeRegression._default_bounds"), ("regression", "HingeRegression.fit")], observe=["bounds, starting point, residuals"])

prop("C11", "Fitted lines map to (frequency, decay, amplitude) exactly, one column per mode",
 "A track whose magnitude line has slope k and intercept q (dB) yields a mode of frequency reduced from the track's frequencies, decay d and amplitude a such that 20 log10(a exp(-2t/d)) = k t + q for all t. A fitted model has exactly one parameter column per fitted mode with finite parameters, in track order, with rows frequency, decay, amplitude (and phase for the beat-aware model); non-finite modes are dropped and when nothing is found the matrix is empty with the right number of rows.",
 "Every slope (non-zero), intercept, reduction function and every list of tracks, including none and non-finite fits.",
 "The tests check a single three-mode sound with loose tolerances.",
 ["sample/sample.py", "sample/beatsdrop/sample.py"], [("line to modal parameters", "SAMPLE._fit_track / _D2K_CONST"), ("matrix assembly", "SAMPLE.fit / _valid_params_"), ("row accessors", "SAMPLE.freqs_/decays_/amps_, SAMPLEBeatsDROP.phases_")], observe=["parameter matrix"])

prop("C12", "Additive synthesis equals the sum of exponentially decaying partials",
 "The synthesised signal equals, at every time t, the sum over modes of a*exp(-2t/d)*cos(2*pi*f*t+phase) (or the complex exponential when the analytic signal is requested, whose real part is then the same sum). Phases default to zero, unsupported phase options raise an error, random phases are reproducible from a seed, and the inputs are not modified.",
 "Any number of modes including none, any time axis, any parameters.",
 "Tests compare a single sound against the analysed one with tolerances, and never individual modes or no modes at all.",
 ["sample/sample.py"], [("additive synthesis", "additive_synth"), ("random phases", "_random_phases")], observe=["returned audio samples"])

prop("C13", "Mode selection and export keep the strongest modes and their parameters together",
 "The energy of a mode is decay x amplitude^2 / 4, and ordering the modes by a feature gives a permutation of all modes sorted by that feature (decreasing by default). Resynthesis with n modes uses exactly the first n modes in that order (all if unlimited), each with its own frequency, decay, amplitude and phase. The exported description lists all modes in that order with mutually aligned frequencies, decays and gains, equal weights summing to one, and a number of active modes equal to the smaller of the limit and the number of modes; it works for a model without modes.",
 "Any number of modes, any parameters, any limit (including zero), all ordering features, both directions.",
 "Tests look at the exported dictionary of one three-mode sound.",
 ["sample/sample.py", "sample/beatsdrop/sample.py"], [("energy", "modal_energy"), ("ordering", "SAMPLE.mode_argsort_"), ("export", "SAMPLE.sdt_params_"), ("resynthesis", "SAMPLE.predict / SAMPLEBeatsDROP.predict")], over=("inputs", "configurations"), observe=["argument of the synthesiser, exported dictionary"])

prop("C14", "Decibel conversions are exact inverses with floors and numpy output rules",
 "Linear-to-decibel conversion is 20 log10 of the amplitude (of the modulus for complex input), decibel-to-linear is its inverse, and with a floor (given linearly or in decibel) values below it give exactly the floor's level. Every conversion returns a scalar for a scalar and an array of the same shape for an array, writes into the output array when one is given (even if it is the input itself) and otherwise leaves its inputs unmodified.",
 "All positive amplitudes, all decibel values, all floors, scalars and arrays, with and without output array.",
 "Round trips over all reals, aliasing and input preservation are only sampled.",
 ["sample/utils/dsp.py", "sample/utils/__init__.py"], [("conversions", "db2a, a2db, complex2db"), ("output handling", "numpy_out")], observe=["returned values, inputs after the call"])

prop("C15", "Psychoacoustic frequency scales are strictly increasing and mutually inverse",
 "For every supported definition of the Bark (Traunmuller, Wang), Mel (default, Fant) and Cam (linear, quadratic) scales, converting from Hertz and back (and the other way round within the scale's range) gives the starting value, and conversion is strictly increasing on non-negative frequencies; the Zwicker Bark scale is increasing as well. Equivalent rectangular bandwidths are positive and increasing on non-negative frequencies. Conversions honour the output array argument (also when it is the input itself) and unknown definitions are rejected with an error.",
 "All non-negative frequencies, all definitions, scalars and arrays.",
 "Tests sample a few frequencies and one direction with tolerances.",
 ["sample/psycho.py"], [("Bark", "hz2bark / bark2hz variants"), ("Mel", "hz2mel / mel2hz variants"), ("Cams", "hz2cams / cams2hz variants"), ("ERB", "erb variants")], observe=["returned values"])

prop("C16", "A-weighting is the standard curve, normalised at 1 kHz",
 "The linear A-weight of a frequency f is 12194^2 f^4 / ((f^2+20.6^2) sqrt((f^2+107.7^2)(f^2+737.9^2)) (f^2+12194^2)), a value in [0, 1) that does not depend on the sign of f. In decibel it is referred to 1 kHz, where it is exactly zero. A supplied output array receives the result, and inputs are otherwise unmodified.",
 "All frequencies, scalars and arrays, both units, with and without output array.",
 "Tests compare a handful of tabulated values to 1 decimal.",
 ["sample/psycho.py"], [("A-weighting", "a_weighting")], observe=["returned values, output array"])

prop("C17", "Strided convolution is the decimated full-overlap convolution",
 "Convolving a real signal with a kernel with stride s gives, for each i that fits, the value at lag i*s of the convolution restricted to complete overlap; complex kernels give the complex result of the same formula, and a given output array receives the result. The number of outputs is the number of complete windows.",
 "All signals, kernels no longer than the signal, strides >= 1, real and complex kernels.",
 "Tests compare against a library convolution at one size and stride.",
 ["sample/utils/dsp.py"], [("strided convolution", "strided_convolution"), ("complex kernel", "strided_convolution_complex_kernel")], observe=["returned array"])

prop("C18", "Gammatone impulse responses and cochleagrams are correctly aligned",
 "Each gammatone impulse response is zero before its leading time and equals scale x t^(n-1) exp(-2 pi b t) times its oscillator afterwards, with time measured from the leading-time offset. A precomputed filterbank delays each filter so that their time origins coincide, and its cochleagram row for a filter equals the full convolution of the input with that filter's impulse response shifted by that delay, zero elsewhere; with a time step s the cochleagram is the unstrided one sampled every s samples.",
 "All filters, sample rates, inputs and time steps.",
 "Tests check shape and two configurations; alignment of unequal impulse responses is not pinned down.",
 ["sample/psycho.py"], [("filter", "GammatoneFilter"), ("precomputed bank", "GammatoneFilterbank.PrecomputedIRBank")], observe=["impulse responses, cochleagram"])

prop("C19", "Mel filterbanks are unit triangles and mel spectra filter the magnitudes",
 "Without a bandwidth function, filter i rises linearly from 0 at corner i to 1 at corner i+1 and falls linearly to 0 at corner i+2, being zero outside, so all weights lie in [0, 1]; with one, the triangle is centred on the given frequency and reaches zero one bandwidth away on either side. When a number of filters is requested the corner (or centre) frequencies are equally spaced on the transformed scale between the limits, and specifying no filter raises an error. The mel spectrum is (filterbank applied to |STFT|^p)^(1/p), the plain complex product if no power is given, and the STFT passed in is not modified.",
 "All frequency axes, limits, numbers of filters, bandwidth functions and powers.",
 "Tests compare one configuration to one reference.",
 ["sample/psycho.py"], [("triangular filterbank", "mel_triangular_filterbank"), ("mel spectrum", "stft2mel")], observe=["filterbank matrix, centre frequencies, mel spectrum"])

prop("C20", "The beat model is algebraically the sum of its two partials",
 "For two partials with constant frequencies f0, f1, phases p0, p1 and amplitudes a0(t), a1(t), the model's amplitude modulation is 2*sqrt of its squared half-amplitude and its square equals a0^2 + a1^2 + 2 a0 a1 cos(2 pi (f0-f1) t + p0 - p1). The instantaneous angular frequency is the time derivative of the phase of a0 exp(i(2 pi f0 t + p0)) + a1 exp(i(2 pi f1 t + p1)). An exponentially decaying amplitude a exp(-2t/d) reports the derivative -2/d times its value, and the modal beat attaches amplitude, decay, frequency and phase 0 to partial 0 and 1 to partial 1.",
 "All frequencies, phases, amplitudes and decays, all times where the amplitude modulation is non-zero.",
 "Trigonometric identities over all reals; tests compare one case numerically with wide tolerance.",
 ["sample/beatsdrop/__init__.py"], [("computational graph", "Beat._define_*"), ("decay", "ExponentialDecay"), ("modal beat", "ModalBeat.__init__")], observe=["computed variables"])

prop("C21", "Beat-regression bounds are ordered and fitted parameters stay paired",
 "The default bounds for fitting a beat to a track of at least two points are ordered (lower <= upper for all eight parameters), contain the starting amplitudes, frequencies and second phase, never allow negative amplitudes or non-positive decays, and shorter tracks are rejected; an unfeasible starting point raises an error instead of being fitted. After fitting, the two-hypothesis disambiguation keeps each amplitude with its decay and exchanges frequencies and phases together, choosing the hypothesis with the smaller sum of squared residuals.",
 "All tracks, all starting points, all optimiser outcomes.",
 "Tests fit a few synthetic beats; association and bounds are not checked individually.",
 ["sample/beatsdrop/regression.py"], [("bounds", "BeatRegression._default_bounds"), ("feasibility", "BeatRegression.fit"), ("disambiguation", "DualBeatRegression.fit"), ("sorting", "sort_params")], observe=["bounds, fitted parameters"])

prop("C22", "Beat decisions emit the right modes with their own parameters",
 "A track judged to be a beat yields two modes (f0, d0, a0, p0) and (f1, d1, a1, p1) from the fitted eight beat parameters, and any other track yields exactly the single-partial mode with zero phase. The default decision is a beat exactly when the two amplitudes and the frequency difference all exceed the threshold (times machine epsilon) in absolute value; the base decision is never a beat. Resynthesis by the beat-aware model uses the learned phases unless others are given.",
 "All fitted beat parameters and thresholds.",
 "Tests only count modes on a synthetic sound.",
 ["sample/beatsdrop/decision.py", "sample/beatsdrop/sample.py"], [("decisor", "BeatDecisor.track_params / output_params / output_beat_params"), ("default decision", "AlmostNotABeatDecisor.decide_beat"), ("model", "SAMPLEBeatsDROP._fit_track / predict")], observe=["returned parameter tuples, stored intermediate values"])

prop("C23", "Parallel fitting gives the same result as sequential fitting, in the same order",
 "Fitting with any number of worker processes applies the per-track fit to every track exactly once and returns results in track order, as sequential fitting does. During parallel fitting intermediate-value storages are replaced by shared ones and afterwards, whether or not fitting failed (the failure is passed on), the model holds its original storages again, which on success contain everything that was stored meanwhile, by whichever workers and in whatever order.",
 "All track lists, all completion orders of the workers, failures at any point, models with and without each storage.",
 "Tests run one small parallel fit with whatever schedule happens.",
 ["sample/_training.py"], [("ordered asynchronous map", "_progress_starmap"), ("storage patching", "_wrap_as_managed"), ("context", "sample_training_context")], over=("inputs", "schedules", "fault_sequences"), observe=["results, model parameters after fitting"])

prop("C24", "Argument adapters pass every value to exactly the intended parameter",
 "A deprecated keyword is delivered under its new name (or converted pair, or new prefix) with its value, once, with a deprecation warning naming it, while all other arguments pass through untouched. Default keyword arguments never override the caller's values and never modify the caller's dictionary. Functions with variants call exactly the selected variant and reject unknown ones, warnings filters are active only during the call and leave the global filters as before, and signature-extending decorators do not change the arguments delivered.",
 "All argument combinations of the decorated functions.",
 "Tests use one or two examples of each adapter.",
 ["sample/utils/__init__.py"], [("deprecation", "deprecated_argument"), ("defaults", "default_kws"), ("variants", "function_with_variants / function_variant"), ("warnings", "warnings_simplefilter"), ("signatures", "add_keyword_arg")], over=("inputs", "configurations"), observe=["arguments received by the wrapped function"])

prop("C25", "Default members are never shared and storages behave as indexed lists",
 "An object whose member is left to its default gets a fresh default built for it when the attribute is set, never shared with another object, while explicit values are kept as they are. An intermediate-value storage returns every stored value unchanged, stores nothing when inactive, appends in order or at the requested index (padding the gap with None and leaving other entries alone), hands out a deep copy of its state, independent of later changes on either side, and is empty after a reset.",
 "All values, all sequences of operations.",
 "A property of operation histories; tests show single examples.",
 ["sample/utils/learn.py"], [("default property", "_DefaultProperty"), ("storage", "OptionalStorage")], over=("inputs", "histories"), observe=["attribute values, storage content"])

prop("C26", "Evaluation losses are symmetric distances that sum over scales",
 "The p-distance of two equally shaped arrays is (sum |x-y|^p)^(1/p): non-negative, symmetric, zero for equal inputs, not modifying its inputs and independent of their numeric types. The spectral loss is that distance of STFT magnitudes plus the weighted distance of their floored decibel values, and the multiscale loss is the sum of the per-scale losses, each computed once with its own options, whether or not computed in parallel.",
 "All pairs of arrays (any real dtype), exponents >= 1, sets of scales.",
 "Tests check a few random signals for ordering only.",
 ["sample/evaluation/metrics.py"], [("lp distance", "lp_distance"), ("spectral loss", "lin_log_spectral_loss"), ("multiscale", "MultiScaleSpectralLoss")], observe=["loss values"])

prop("C27", "The random beat generator respects its ranges and its seed",
 "Generated sounds have three partials whose frequencies lie within the configured limits, two of which differ by a beat frequency within the configured limits; decays are at least the configured minimum; partial amplitudes are non-negative (the third is zero if only the beat is asked for) and sum to the sine amplitude, which with the noise amplitude sums to one. The two-sided beta distribution takes values in [-1, 1]. The same seed gives the same parameters and audio.",
 "All seeds and configurations with a frequency range at least twice the largest beat frequency and wide enough, in Bark, for the largest distance of the third partial.",
 "Tests draw few samples with the default configuration.",
 ["sample/evaluation/random.py"], [("generator", "BeatsGenerator"), ("repetition", "_repeated_samples")], over=("inputs", "configurations"), observe=["generated parameters"])

prop("C28", "Hyper-parameter remapping produces valid analysis settings and loses nothing",
 "The hyper-parameter remapper turns a size exponent into FFT size 2^n, an overlap fraction into a hop between 1 and the window size, window type and size into a window of that size, and leaves every other argument as given. The optimiser assigns the i-th optimised value to the i-th dimension, combines it with the fixed arguments, rejects a wrong number of values, and refits the best point with the same assignment.",
 "All values of all dimensions, any set of additional arguments, with or without a remapper.",
 "Tests run a 3-call optimisation and look at the type of the result.",
 ["sample/optimize.py"], [("remapper", "sample_kwargs_remapper"), ("assignment", "SAMPLEOptimizer._kwargs"), ("loss", "SAMPLEOptimizer.loss")], observe=["keyword arguments given to the model"])

prop("C29", "GUI settings parse any text to valid values and expand consistently",
 "Whatever text is entered, the integer parsers return a positive integer or their default, the FFT size is the smallest power of two not below the integer part of the entered value, clipped floats lie within their limits, and frequency bounds come out ordered; no text makes a parser fail. The window derived from the settings has the window size clipped to the FFT size, and the number of jobs is zero unless multiprocessing is on.",
 "All strings and all settings combinations.",
 "No tests cover the GUI.",
 ["sample/widgets/settings.py"], [("parsers", "next_power_of_2, custom_positive_int, try_float, float_clip, strip_time_parse"), ("post-processing", "postprocess_fbound / postprocess_windows / postprocess_multiprocessing")], observe=["parsed and post-processed values"])

prop("C30", "Trimming always selects a non-empty valid range of the loaded audio",
 "Whatever trim positions are requested (manually, in seconds or samples, from either side, or automatically from onsets), the selected range satisfies 0 <= start < stop <= number of samples as long as audio is loaded, and a requested position inside the audio is honoured up to that. Loading a WAV file of any integer or floating sample type gives mono samples (integers scaled to [-1, 1], floating-point samples as they are, channels averaged) and selects a range of the new audio automatically.",
 "All requested positions, both sides, all sample formats and channel counts, including silence.",
 "No tests cover the GUI.",
 ["sample/widgets/audioload.py"], [("trim", "AudioLoadTab.set_trim"), ("auto trim", "AudioLoadTab.auto_trim"), ("load", "AudioLoadTab.load_cbk")], over=("inputs", "histories"), observe=["trim start/stop, loaded samples"])

prop("C31", "Normalisation and onset detection follow their definitions",
 "Peak normalisation divides by the largest absolute value, RMS normalisation gives zero mean and unit deviation, range normalisation maps minimum to 0 and maximum to 1. A sample is a local maximum exactly when it is at least as large as all samples within w positions and not within w of either end; spectral flux is the sum over frequency of positive magnitude increments; selected onsets satisfy all three conditions (envelope, local mean plus threshold, local maximum); detected onsets are in-range sample positions proportional to the feature positions.",
 "All signals long enough for the windows, all window parameters.",
 "Tests run one signal per function.",
 ["sample/utils/dsp.py"], [("normalise", "normalize"), ("local maxima", "local_maxima"), ("flux", "spectral_flux_from_tf"), ("selection", "onset_selection"), ("detection", "onset_detection")], observe=["returned arrays"])

prop("C32", "Bisection brackets a sign change and reports when there is none",
 "Given a function whose values at the two limits have opposite signs (or one is zero), the search returns a point between the limits at which the function is zero or which is within (interval width)/2^(steps+1) of a point separating values of opposite sign; if the signs agree it raises an error. The order of the limits does not matter and the function is evaluated at most steps+2 times, only between the limits.",
 "All functions (continuous or not), limits, numbers of steps.",
 "Tests use one cosine.",
 ["sample/utils/dsp.py"], [("bisection", "dychotomic_zero_crossing")], observe=["returned point, evaluation points"])

prop("C33", "Release tooling orders versions correctly and round-trips notebook commands",
 "Version comparison is a total order on version-number tuples that compares numerically from the left, a missing component coming before any present one, so the change log lists every version file once from newest to oldest. Escaping a notebook command line for formatting and unescaping it gives the original line back, and other lines are untouched (a line that already has the escaped form counts as escaped).",
 "All version tuples; all single lines of text.",
 "There are no tests of the scripts.",
 ["scripts/utils/make_changelog.py", "scripts/utils/yapf_nbformat.py"], [("comparison", "_version_compare"), ("escaping", "_wrap_command_line / _unwrap_command_line")], observe=["comparison result, escaped lines"])

prop("C34", "Frequency-bin conversions and autocorrelation helpers are consistent",
 "Bin-to-frequency conversion is b*fs/n and frequency-to-bin is the smallest bin whose frequency is not below the given one. The Lomb-Scargle spectrum is evaluated on the non-negative FFT frequencies k*fs/n, is zero outside the pass band, uses the squared mean at zero frequency when that is in the band, and the autocorrelogram of a spectrum is the inverse transform of its squared modulus truncated to the requested length. Trend removal returns the signal minus its fitted trend, for one-dimensional signals only.",
 "All sizes, sample rates, corner frequencies and signals.",
 "Tests compare one periodogram to one FFT.",
 ["sample/utils/dsp.py"], [("bins", "f2bin / bin2f"), ("periodogram", "lombscargle_as_fft"), ("autocorrelogram", "fft2autocorrelogram"), ("detrending", "detrend")], observe=["returned arrays"])

prop("C35", "End-to-end estimates match the true modes of a noisy recording",
 "For a sound that is a sum of exponentially decaying partials plus moderate noise, the estimated frequencies, decays and amplitudes are close to the true ones.",
 "All such sounds.",
 "An accuracy claim over all sounds; tests check one synthetic sound.",
 ["sample/sample.py", "sample/hinge.py"], [("full pipeline", "SAMPLE.fit")], observe=["estimated parameters"])

prop("C36", "Beat regression compares the model with the track it is given",
 "The residual a beat is fitted with is, at each time of the track, the track's linear amplitude minus the model's amplitude modulation there (interpolated on the model's time axis for the single-loss regression). For the two-loss regression it is the amplitude losses, followed by the weighted losses between the absolute track frequencies and the model's absolute instantaneous frequencies in Hertz, clipped to the chosen multiple of half the interquartile range around their median whenever a clip is set. The default starting point has both amplitudes equal to half of the track's linear intercept, frequencies symmetric around the mean frequency, apart by the modulation frequency of the first autocorrelation peak (equal when there is none), decays from the linear slope, zero first phase and, as the second, the phase of the amplitudes at that modulation frequency. Predictions are the requested outputs of the fitted beat, the signal by default. The track is not modified.",
 "All tracks, parameters, losses, weights, clips and sampling rates.",
 "Tests fit one beat and check that the result is close.",
 ["sample/beatsdrop/regression.py"], [("residuals", "BeatRegression._residual_fn / DualBeatRegression._residual_fn"), ("starting point", "BeatRegression._default_params_init"), ("predictions", "BeatRegression.predict")], observe=["residual vector", "initial_params_", "predicted arrays"])

prop("C37", "GUI analysis, playback and export act on the selected range, exclusively",
 "Analysing without loaded audio only reports an error, and analysing while another analysis runs changes nothing and does not wait. Otherwise one model of the chosen class is built from the settings it has (keeping intermediate results unless told otherwise) and the sampling rate of the audio, and fitted once to exactly the selected range; failures are reported to the user; however it ends, the next analysis is possible and no earlier resynthesis remains. The audio played or exported is the selected range, or the model's prediction at the sample times of the selection, clipped to [-1, 1] and computed once; the exported JSON file holds exactly the model's SDT parameters. Without an analysed model only an error is reported, nothing is written unless a file is chosen, and write errors are reported.",
 "All audio, selections, settings, failures of the model, of the fit and of the file system, and interleavings of analyses.",
 "The widgets are excluded from the tests: they need a display.",
 ["sample/widgets/analysis.py", "sample/widgets/sample.py"], [("analysis", "AnalysisTab.analysis_cbk / _non_block_lock"), ("resynthesis", "AnalysisTab._get_audio / play_cbk"), ("export", "AnalysisTab.wav_export_cbk / export_cbk"), ("model", "sample_factory")], observe=["fitted range", "played and exported audio", "exported JSON", "state of the lock"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
