#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single place where the property texts live)."""
import json, pathlib
S = "python/src/adctoolbox/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": observe}})


prop("C01", "Unit and figure-of-merit conversions are exact inverses and obey their laws",
     "Every conversion pair offered to users (dB/magnitude, dB/power, LSB/volts, bin/frequency, SNR/ENOB, dBm/Vrms, dBm/mW, SNR/noise density including signal level and oversampling) is a mutual inverse on its whole domain. Each direction obeys its defining law: ten times the magnitude is +20 dB, ten times the power +10 dB, 6.02 dB per bit above 1.76 dB, and noise density is signal level minus SNR minus ten log of the in-band bandwidth. The Walden, Schreier, kT/C, jitter, sine-power and amplitude-to-SNR figures equal their textbook closed forms for all positive arguments.",
     ["inputs"], "all real arguments in the domain of each conversion, all load impedances, reference voltages, resolutions, sampling rates, OSRs and signal levels",
     "Tests pin a handful of numeric points; the inverse and scaling laws quantify over all real arguments and all parameter combinations.",
     ["fundamentals/units.py", "fundamentals/snr_nsd.py", "fundamentals/metrics.py", "common.py"],
     [("unit conversions", "fundamentals/units.py"), ("SNR/NSD conversions", "fundamentals/snr_nsd.py"), ("figures of merit", "fundamentals/metrics.py")],
     ["return values of the conversion functions"])

prop("C02", "Aliasing folds every frequency or bin into the first Nyquist zone",
     "Folding a frequency or an FFT bin always yields a value between 0 and half the sampling rate (half the FFT length, odd lengths included), scalars and arrays alike. The result is unchanged by adding any multiple of the sampling rate and by negating the input, and values already in the zone map to themselves.",
     ["inputs"], "all real frequencies/bins (negative and fractional included), all positive rates, all FFT lengths",
     "Tests check a few integer bins of power-of-two lengths; range, periodicity and symmetry are claims over all reals and all lengths.",
     ["fundamentals/frequency.py"],
     [("frequency folding", "fundamentals/frequency.py"), ("bin folding", "fundamentals/frequency.py")],
     ["fold_frequency_to_nyquist / fold_bin_to_nyquist results"])

prop("C03", "The coherent-frequency helper returns the nearest valid coherent bin",
     "For every target frequency the chosen bin is positive, shares no factor with the FFT length, is odd when odd bins are requested, and the returned frequency is exactly that bin times the sampling rate over the FFT length. No other admissible bin within the search radius of the rounded target lies closer to the target, and an error is raised only when the radius contains no admissible bin.",
     ["inputs", "configurations"], "all target frequencies and sampling rates, FFT lengths and radii of the stated sets, odd-only on and off",
     "Tests try a few targets; nearest-ness quantifies over a continuum of targets including ties and targets near zero and Nyquist.",
     ["fundamentals/frequency.py"], [("coherent bin search", "fundamentals/frequency.py")],
     ["find_coherent_frequency result or exception"])

prop("C04", "Capacitor-array weights equal the solution of the charge-sharing network",
     "For every split or non-split capacitor array the returned bit weights are the output-node voltage contributions of the capacitive network (bit, bridge and parasitic capacitors, zero bridge meaning a direct connection) and the returned total is the capacitance seen at the output. Hence weights are never negative, sum to at most one (exactly one without parasitics) and are unchanged when all capacitors are scaled together.",
     ["inputs", "configurations"], "all non-negative capacitances, with every pattern of present/absent bridges and with dead (zero) nodes",
     "Tests compare a few designs with constants; the network equations must hold for every capacitor vector.",
     ["fundamentals/convert_cap_to_weight.py"], [("LSB-to-MSB network reduction", "fundamentals/convert_cap_to_weight.py")],
     ["returned weights and total capacitance"])

prop("C05", "SAR conversion is a correct greedy quantiser with exact reconstruction",
     "Without noise each decision is 1 exactly when the trial level (weights already kept plus the one under test) does not exceed the normalised input, every code is a 0/1 vector with one entry per weight, each sample is converted independently of the others and of array shape, and reconstruction is the weighted sum of the bits mapped onto the input range. With ideal binary weights the reconstruction error lies in [0, 1 LSB) inside the range, the code is all zeros below it and all ones above it, and a larger input never gives a smaller output. Sampling noise acts as an addition to the input and comparator noise as an addition to the comparison, and an invalid range is rejected.",
     ["inputs", "configurations"], "all real inputs, weights, increasing ranges, noise realisations; up to the stated number of bits and samples",
     "Tests use specific ramps and sines; decision ties, out-of-range inputs, arbitrary weights and shifted ranges form a continuum.",
     ["models/sar.py"], [("SAR loop", "models/sar.py"), ("reconstruction", "models/sar.py"), ("ideal weights", "models/sar.py")],
     ["sar_convert codes, sar_reconstruct output, sar_ideal_weights"])

prop("C06", "Mismatch models scale each weight independently and respect capacitor size",
     "Capacitor mismatch multiplies each weight by one plus the given sigma over the square root of its unit count (inferred from the smallest weight unless supplied) times its own random draw, while flat mismatch uses the same sigma for all; sigma zero returns the weights unchanged and the inputs are never modified. Non-positive or mis-shaped weights or unit counts and negative sigma are rejected.",
     ["inputs"], "all weights, sigmas, unit counts and random draws; vectors up to the stated length",
     "Tests check statistics of one random stream; the per-element law quantifies over all draws and weights.",
     ["models/sar.py"], [("mismatch appliers", "models/sar.py")], ["returned weights, exceptions"])

prop("C07", "Signal-generator quantiser stays on the code grid within one LSB and clips",
     "Quantising any signal yields only values on the grid range-minimum plus code times LSB with codes 0 to 2^bits-1; inside the range the output is below the input by less than one LSB, outside it clips to the end codes, and the map is non-decreasing. Noise shaping returns the input plus the quantisation error filtered by the requested noise transfer function (the order-th difference by default, or a supplied numerator or numerator/denominator), and unsupported orders are rejected.",
     ["inputs", "configurations"], "all sample values, ranges, resolutions and shaping orders/filters within the stated bounds",
     "Tests check noise power of one sine; grid membership, clipping and the exact error recursion hold for every sample sequence.",
     ["siggen/nonidealities.py"], [("quantiser", "siggen/nonidealities.py"), ("noise shaping", "siggen/nonidealities.py")],
     ["apply_quantization_noise / apply_noise_shaping outputs"])

prop("C08", "Signal-generator impairments follow their stated laws around the DC level",
     "Each impairment transforms the given signal (or the clean sine when none is given) by its documented law around the generator's DC level: polynomial distortion, HD-level distortion, amplitude modulation by noise or tone, additive noise, glitches, percentile clipping, reference droop, incomplete settling, residue-amplifier gain errors and memory. With zero strength, or unity gain for gain errors, the impairment leaves the signal unchanged up to its own stated code truncation, and the caller's array is never modified.",
     ["inputs", "configurations"], "all sample values, strengths, coefficients and random draws; signal lengths within the stated bounds",
     "Tests look at spectra of one sine per impairment; the laws are pointwise identities over all signals and strengths.",
     ["siggen/nonidealities.py"], [("impairment appliers", "siggen/nonidealities.py")], ["returned signals", "the caller's input array"])

prop("C09", "Interleaving and de-interleaving are exact inverses",
     "De-interleaving by M puts sample n into channel n mod M in time order, re-interleaving restores the original sequence exactly, and the reverse composition restores the channels. Inputs that are not one- (two-) dimensional, a non-positive channel count, or a length that is not a multiple of it are rejected.",
     ["inputs", "configurations"], "all sample values; all channel counts and lengths within the stated bounds",
     "Tests use a few shapes; the index law quantifies over shapes and contents.",
     ["timeinterleave/deinterleave.py"], [("channel reshaping", "timeinterleave/deinterleave.py")], ["deinterleave / interleave results"])

prop("C10", "Fractional delay filters delay by the requested time",
     "The FFT delay is linear, preserves the mean, composes (integer-sample delays are exact circular shifts and opposite delays cancel on odd lengths) and shifts every sampled tone below Nyquist by exactly the requested time. The Farrow delay is linear, has unit DC gain, is an exact zero-padded shift for integer-sample delays, and reproduces any delayed polynomial of degree below the tap count away from the edges.",
     ["inputs", "configurations"], "all sample values and tone amplitudes/phases; delays (real-valued symbolic for the Farrow filter), lengths and tap counts of the stated sets",
     "Tests delay one sine; linearity and exactness hold for all signals and delays.",
     ["timeinterleave/fractional_delay.py"], [("FFT delay", "timeinterleave/fractional_delay.py"), ("Farrow delay", "timeinterleave/fractional_delay.py")],
     ["fractional_delay_fft / fractional_delay_farrow outputs"])

prop("C11", "Foreground TI calibration undoes the described mismatch",
     "Foreground calibration of a time-interleaved stream subtracts each channel's offset, divides by its gain and delays it by its skew at the per-channel rate, so a stream built by applying those mismatches to any sequence comes back exactly when skews are zero and every channel equals its own corrected, delayed version otherwise. Parameter vectors of the wrong length and unknown skew methods with non-zero skew are rejected.",
     ["inputs", "configurations"], "all samples, offsets and non-zero gains; channel counts, lengths, skews and methods of the stated sets",
     "Tests calibrate one sine with one mismatch set; the inverse law quantifies over all sequences and mismatch values.",
     ["timeinterleave/calibrate_foreground.py"], [("foreground correction", "timeinterleave/calibrate_foreground.py")], ["calibrate_foreground output"])

prop("C12", "TI mismatch extraction recovers gain, offset and skew of a sine capture",
     "For a coherently sampled sine passed through channels with arbitrary offsets, positive gains and small skews, extraction at the known frequency returns each channel's offset, its gain relative to the mean, the mean amplitude, and its skew relative to the mean skew. Reported gains always average to one and skews to zero.",
     ["inputs", "configurations"], "all amplitudes, offsets, gains (and channel phase steps of the stated set); channel counts and lengths of the stated sets",
     "Tests use one random mismatch vector with tolerance; recovery is an identity over all mismatch values.",
     ["timeinterleave/extract_mismatch_sine.py"], [("per-channel DFT", "timeinterleave/extract_mismatch_sine.py")], ["extract_mismatch_sine result"])

prop("C13", "Predicted TI spurs sit at the aliased image positions with DFT amplitudes",
     "For M channels the prediction lists exactly M-1 offset spurs at the folded multiples of fs/M and M-1 gain/skew images at the folded fin + k·fs/M, sorted by frequency and inside the first Nyquist zone. Spur amplitudes are the k-th Fourier coefficients of the channel offsets and of the complex channel gains (times the input amplitude), hence zero when channels match, unaffected by a common offset and proportional to the mismatch; dBFS and dBc follow from amplitude, full scale and fundamental. Parameter vectors of different lengths and a missing input frequency are rejected with ValueError.",
     ["inputs", "configurations"], "all offsets, gains, amplitudes, full scales, input frequencies and sampling rates; channel counts and skew sets as stated",
     "Tests check one spur of one design; position and amplitude laws quantify over all mismatch values.",
     ["timeinterleave/predict_spurs.py"], [("spur prediction", "timeinterleave/predict_spurs.py")], ["predict_spurs list"])

prop("C14", "Spectrum metrics partition the in-band bins exactly as defined",
     "For every spectrum, the fundamental is the strongest in-band bin above DC; SNDR is the power of its signal bins (fundamental and side bins, inside the band) over all other in-band power above the DC bins, SFDR compares the signal with the largest remaining in-band bin (with its side bins), and neither these nor SNR use bins beyond the band set by the oversampling ratio. THD sums each bin of the aliased harmonics once, over the whole Nyquist band, skipping harmonics that collide with the fundamental or DC, and per-harmonic levels are their own bin powers over the signal. ENOB is (SNDR-1.76)/6.02. SNR uses the selected noise estimate (median, trimmed mean, harmonics excluded, their median, or wide exclusion) over the remaining in-band bins; noise floor is signal level minus SNR, noise density the floor minus ten log of the in-band bandwidth; an assumed signal level replaces the measured one, bins below a high-pass cut-off count as empty, and automatic side bins cover the window's main lobe where it fits.",
     ["inputs", "configurations"], "every power spectrum (all bin values), window, side-bin count, OSR, harmonic count, noise method and assumed signal level of the stated sets, odd and even lengths",
     "Tests compare a few sines with tolerances; bin accounting (overlaps, edges, collisions, odd lengths) must be right for every spectrum.",
     ["spectrum/compute_spectrum.py", "spectrum/_harmonics.py", "spectrum/_estimate_noise_power.py", "spectrum/_exclude_bins.py", "spectrum/_bin_ranges.py", "spectrum/_locate_fundamental.py", "spectrum/_window.py", "spectrum/analyze_spectrum.py"],
     [("metric computation", "spectrum/compute_spectrum.py"), ("harmonic power", "spectrum/_harmonics.py"), ("noise estimate", "spectrum/_estimate_noise_power.py")],
     ["metrics and plot data returned by the spectrum analysis"])

prop("C15", "Spectrum levels are calibrated to full scale and ignore offset and polarity",
     "A coherent full-scale sine at any in-band bin and phase reads 0 dBFS for every window whose main lobe is inside the signal bins after correction of the window's noise bandwidth, a scaled sine reads its dB level, and the full scale can be given as peak, as a (min, max) range or taken from the data. Adding a DC offset or negating the data changes no metric, and with data-derived full scale neither does scaling; runs may be given as rows, a column vector or a tall matrix with the same result.",
     ["inputs", "configurations"], "all sample values (linear-response claims), amplitudes, phases, offsets and scales; lengths and windows of the stated sets",
     "Tests read one amplitude at one bin; calibration and invariance quantify over all data.",
     ["spectrum/_prepare_fft_input.py", "spectrum/_window.py", "spectrum/_spectrum_averaging.py", "spectrum/compute_spectrum.py"],
     [("normalisation", "spectrum/_prepare_fft_input.py"), ("window gain correction", "spectrum/_window.py")],
     ["per-bin power spectrum and signal level returned by the spectrum analysis"])

prop("C16", "The fast SNDR path agrees with the full spectrum analysis",
     "For every capture, window and explicit side-bin count, the lean SNDR/ENOB routine returns the same SNDR and ENOB as the full spectrum analysis at oversampling ratio one.",
     ["inputs", "configurations"], "every spectrum and scale range; windows, side-bin counts and lengths of the stated sets",
     "Tests compare two or three captures; agreement must hold for every spectrum including edge bins and odd lengths.",
     ["spectrum/quick_sndr.py", "spectrum/compute_spectrum.py"], [("lean path", "spectrum/quick_sndr.py")], ["quick_sndr result vs compute_spectrum metrics"])

prop("C17", "Multi-run averaging preserves power and is independent of run order",
     "Power averaging over runs equals the mean of the per-run power spectra bin by bin, so repeating a run or reordering runs changes nothing. Coherent averaging of identical runs returns the single-run power spectrum, preserves the fundamental power whatever the start phase of each run, never exceeds the power average in any bin, and ignores dead runs.",
     ["inputs", "histories"], "all run contents/spectra and run phases; run counts and lengths of the stated sets",
     "Tests average a few noisy sines; the laws are identities and inequalities over all spectra.",
     ["spectrum/_spectrum_averaging.py", "spectrum/_align_spectrum_phase.py", "spectrum/compute_spectrum.py"],
     [("power average", "spectrum/_spectrum_averaging.py"), ("coherent average", "spectrum/_spectrum_averaging.py"), ("phase alignment", "spectrum/_align_spectrum_phase.py")],
     ["power spectrum returned for multi-run input"])

prop("C18", "The brick-wall band extractor is an exact linear projection per column",
     "Band extraction keeps exactly the DFT components whose bin lies inside one of the requested bands (edges rounded to the nearest bin, either order of edges) and removes all others, so it is linear, idempotent, real-valued, acts on each column alone, passes everything for the full band, and complementary bands add up to the input. Bands outside 0 to 0.5 or not given as pairs are rejected.",
     ["inputs", "configurations"], "all signals; lengths (odd and even), column counts and band sets of the stated sets",
     "Tests filter one two-tone signal; projection identities quantify over all signals and band layouts.",
     ["spectrum/extract_freq_components.py", "oversampling/ifilter.py"], [("FFT mask filter", "spectrum/extract_freq_components.py")], ["filter output"])

prop("C19", "Performance-versus-OSR curves follow the in-band error power",
     "At each oversampling ratio the reported SNDR is the fitted-sine power over the total in-band power of the windowed fit error, SFDR uses its largest in-band bin, and ENOB is (SNDR-1.76)/6.02, in the order the ratios were requested whatever that order is. SNDR and SFDR therefore never decrease as the oversampling ratio grows; non-positive ratios, harmonic counts or smoothing are rejected by the wrapper.",
     ["inputs", "configurations"], "all signals/error spectra and amplitudes; OSR lists (any order, duplicates, non-integers) and lengths of the stated sets",
     "Tests sweep one signal in default order; monotonicity and order independence quantify over all spectra and lists.",
     ["spectrum/sweep_performance_vs_osr.py", "oversampling/perfosr.py", "spectrum/_bin_ranges.py"], [("incremental OSR sweep", "spectrum/sweep_performance_vs_osr.py")],
     ["returned osr/sndr/sfdr/enob arrays"])

prop("C20", "Ramp-histogram INL/DNL is an exact function of the code histogram",
     "For every code sequence DNL is each analysed code's hit count over the mean count minus one, transition INL is its running sum starting at zero and corrected by the chosen baseline (none, end points, or best-fit line), missing codes are exactly those with zero hits, and the summary extremes match the arrays. Results do not depend on sample order, DNL averages zero, end-point INL starts and ends at zero, and non-integer, out-of-range or empty inputs and bad limits are rejected.",
     ["inputs", "configurations"], "all code sequences within the stated length and resolution, all code offsets and baselines, end codes kept or dropped",
     "Tests check one or two staircases; the identities hold for every histogram including missing and edge codes.",
     ["aout/compute_inl_from_ramp.py", "aout/analyze_inl_from_ramp.py"], [("ramp histogram", "aout/compute_inl_from_ramp.py")], ["result dictionary"])

prop("C21", "Sine-histogram INL/DNL obeys histogram invariants",
     "DNL and INL from a sine capture depend only on the code histogram: sample order is irrelevant and shifting all codes shifts only the code axis. DNL follows the arcsine-corrected cumulative histogram, is never below -1 LSB, is -1 LSB (the lowest) at missing codes and averages zero when nothing is clipped, and INL is the running sum of DNL; there is one value per code between the two extremes, reported against the code below it as in the MATLAB original; voltage input gives the result of its quantised and clipped codes.",
     ["inputs", "configurations"], "all code sequences within the stated length and code span; clip percentages and voltage modes of the stated sets",
     "Tests use one ideal sine; invariants quantify over all histograms.",
     ["aout/compute_inl_from_sine.py", "aout/analyze_inl_from_sine.py"], [("sine histogram", "aout/compute_inl_from_sine.py")], ["returned inl, dnl, code"])

prop("C22", "Sine fit is the least-squares optimum and its report is self-consistent",
     "At a fixed frequency the fitted sine is the least-squares optimum: the residual is orthogonal to the sine, cosine and constant, and a pure sine plus offset is recovered exactly with its amplitude, phase and offset. In all modes residual equals data minus fitted signal, the fitted signal is the reported amplitude, phase, frequency and offset, RMSE is the residual's RMS, a refined frequency stays in (0, 0.5), the iteration count and convergence flag tell the truth, and multi-column input equals fitting each column alone.",
     ["inputs", "configurations"], "all sample values; frequencies, lengths, iteration limits and column counts of the stated sets",
     "Tests fit a few sines; optimality and consistency quantify over all data, including noise-only records and clamped frequencies.",
     ["fundamentals/fit_sine_4param.py", "fundamentals/frequency.py", "common.py"], [("3/4-parameter fit", "fundamentals/fit_sine_4param.py")], ["fit result dictionary"])

prop("C23", "Harmonic decomposition splits a signal exactly and orthogonally",
     "Fundamental plus harmonic plus residual parts add up to the (run-averaged) signal exactly, the reconstruction is fundamental plus harmonics, and the residual is orthogonal to DC and to every fitted harmonic. A signal made only of those harmonics has zero residual, with each reported magnitude twice the tone amplitude and each phase relative to the fundamental's; run order and a DC shift do not alter the split.",
     ["inputs", "configurations"], "all sample values and tone amplitudes/phases; lengths, harmonic counts, run counts and frequencies of the stated sets",
     "Tests decompose one distorted sine; exact splitting quantifies over all signals.",
     ["aout/decompose_harmonic_error.py", "aout/_fit_sine_harmonics.py"], [("harmonic LS split", "aout/decompose_harmonic_error.py")], ["decomposition dictionary"])

prop("C24", "Binned error statistics conserve every sample",
     "Value-binned and phase-binned error analyses put every retained sample into exactly one bin: each bin's count, mean and RMS are those of the errors of its samples, empty bins are marked undefined, and the error is signal minus fitted sine. Value bins are the nearest of the equally spaced levels over the given or inferred range, edge clipping drops exactly the clipped bins, and AM/PM/base-noise terms are non-negative and come from the least-squares fit of squared error against phase.",
     ["inputs", "configurations"], "all sample values and fitted sines; lengths, bin counts, ranges and clip settings of the stated sets",
     "Tests check shapes and a few magnitudes; conservation quantifies over every assignment of samples to bins.",
     ["aout/rearrange_error_by_value.py", "aout/rearrange_error_by_phase.py", "aout/_fit_error_phase.py", "aout/_infer_signal_range.py"],
     [("value binning", "aout/rearrange_error_by_value.py"), ("phase binning", "aout/rearrange_error_by_phase.py")], ["result dictionaries"])

prop("C25", "Error autocorrelation, PDF scale and static-nonlinearity fits obey their laws",
     "The error autocorrelation is symmetric in lag, equals the mean lagged product of the zero-mean error, is one at zero lag when normalised and is unchanged by scaling or offsetting the signal. The error histogram scale converts the fit error to LSB of the given or measured full scale with its sample mean and standard deviation, and static-nonlinearity extraction returns exactly the quadratic and cubic coefficients of a polynomial transfer of its fitted sine, independent of amplitude, gain and offset.",
     ["inputs", "configurations"], "all error samples, scales, offsets and coefficients; lengths, lags, orders and resolutions of the stated sets",
     "Tests check one noise record or one coefficient pair; the laws are identities over all errors and coefficients.",
     ["aout/analyze_error_autocorr.py", "aout/analyze_error_pdf.py", "aout/fit_static_nonlin.py"],
     [("autocorrelation", "aout/analyze_error_autocorr.py"), ("PDF scaling", "aout/analyze_error_pdf.py"), ("polynomial fit", "aout/fit_static_nonlin.py")], ["result dictionaries / tuples"])

prop("C26", "Sine weight calibration reports a consistent least-squares solution",
     "For every bit matrix (single or several captures, dead, duplicated or complementary bits included) the returned weights are those of the least-squares sine fit scaled so the first capture's fundamental has unit amplitude; for each capture the calibrated signal is the bits times the weights, the ideal signal is the fitted sine of that capture and the error is calibrated minus offset minus ideal. Overall polarity is positive, stuck bits get weight zero, bits that move together share weight in proportion to their nominal weights, and SNR/ENOB follow from ideal and error power.",
     ["inputs", "configurations"], "all solver coefficient vectors and bit matrices within the stated sizes, harmonic orders, nominal weights and numbers of captures",
     "Tests calibrate a few simulated SARs and look at the first capture's ENOB; the index bookkeeping must be right for every capture count, harmonic order and rank defect.",
     ["calibration/calibrate_weight_sine.py", "calibration/_lstsq_solver.py", "calibration/_post_process.py", "calibration/_patch_rank_deficiency.py", "calibration/_scale_columns_for_conditioning.py", "calibration/_prepare_input.py", "calibration/_estimate_frequencies.py"],
     [("solve", "calibration/_lstsq_solver.py"), ("assembly", "calibration/_post_process.py"), ("rank patch", "calibration/_patch_rank_deficiency.py")],
     ["calibration result dictionary"])

prop("C27", "Frequency-searching and lite calibration solve the problem they state",
     "When calibration refines the frequency, each step moves every capture's frequency along its own fitted frequency-derivative column and the final weights, offset and ideal sine come from that same fit, so starting at the exact frequency of data that a weighted sum of bits explains perfectly returns that frequency and those weights. The lite routine returns the bit weights of the unit-amplitude sine fit with positive total, equal to the full routine's on full-rank data, and frequencies above 0.5 are rejected by both.",
     ["inputs", "configurations"], "all solver coefficient vectors; bit matrices, harmonic orders and capture counts of the stated sets",
     "Tests accept loose ENOB limits at one setting; the column bookkeeping of the search must be right for every solution vector.",
     ["calibration/_lstsq_solver.py", "calibration/calibrate_weight_sine.py", "calibration/calibrate_weight_sine_lite.py"],
     [("frequency search", "calibration/_lstsq_solver.py"), ("lite solve", "calibration/calibrate_weight_sine_lite.py")], ["weights, refined frequency"])

prop("C28", "Digital-output diagnostics are exact functions of bits and weights",
     "Bit activity is the percentage of ones per column; residue ranges are the minimum and maximum over samples of the remaining weighted bits over their total weight, inside [0, 1] for non-negative weights, with under/overflow percentages counting samples at or beyond 0 and 1; partial-sum residuals subtract exactly the first k weighted bits. Radix is the ratio of neighbouring absolute weights, and effective resolution is log2 of one plus total over smallest among the weights before the first three-fold drop of the sorted magnitudes, independent of sign, order and common scale.",
     ["inputs", "configurations"], "all bit matrices and weights within the stated sizes",
     "Tests check binary weights and one sine; the definitions hold for every matrix and weight vector.",
     ["dout/analyze_bit_activity.py", "dout/analyze_overflow.py", "dout/plot_residual_scatter.py", "dout/analyze_weight_radix.py"],
     [("bit activity", "dout/analyze_bit_activity.py"), ("residue ranges", "dout/analyze_overflow.py"), ("residuals", "dout/plot_residual_scatter.py"), ("radix/effective resolution", "dout/analyze_weight_radix.py")],
     ["returned arrays and dictionaries"])

prop("C29", "Data validators accept exactly the usable data",
     "The analog validator accepts exactly the non-empty real finite one- or two-dimensional records with enough samples and non-zero range, and the digital validator exactly the finite two-dimensional 0/1 matrices with enough rows; everything else raises an error. Accepted digital data with stuck columns and analog data with a vanishing range produce a warning.",
     ["inputs", "configurations"], "all sample values of the stated shapes and minimum-sample settings, NaN and infinity at any position",
     "Tests try single bad examples; acceptance is an iff over all contents.",
     ["fundamentals/validate.py"], [("validators", "fundamentals/validate.py")], ["exception or warning raised"])

prop("C30", "Skill installer never replaces anything without --force and stays in --dest",
     "For every state of the destination (absent, file, directory, live or broken symlink, in any combination across the requested skills) installing without force never deletes, replaces or writes through an existing entry and reports an error for it, and with force replaces only the named skill entries. Nothing outside the destination directory's named entries is ever created or removed, links are never followed for deletion, and names resolve to known skills without duplicates.",
     ["inputs", "histories", "configurations"], "all combinations of existence/link/file/directory state per target, force and editable flags, and requested name lists within the stated sizes",
     "Tests cover a few states one at a time; the guarantee is over all combinations of entry states and flags.",
     ["skill_cli.py"], [("installer", "skill_cli.py")], ["sequence of file-system operations with their targets"])

prop("C31", "ENOB sweep and compatibility calls report the functions they stand for",
     "The ENOB sweep calibrates once with all bits, at the given frequency and harmonic order, and its k-th figure is the ENOB of the first k bits weighted by their calibrated weights, analysed with the requested oversampling ratio and window, for every k from one to all bits. The historical entry points (bit activity, overflow, radix vector, calibration tuple) return exactly the values of the functions they stand for, honouring their old flags.",
     ["inputs", "configurations"], "all bit matrices, calibrated weights and frequencies within the stated sizes; harmonic orders, ratios, windows and flags of the stated sets",
     "Tests look at the trend of one sweep; which weights meet which bits is an identity over all of them.",
     ["dout/analyze_enob_sweep.py", "dout/__init__.py"], [("ENOB sweep", "dout/analyze_enob_sweep.py"), ("compatibility entry points", "dout/__init__.py")],
     ["returned arrays; arguments handed to calibration and spectrum analysis"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
