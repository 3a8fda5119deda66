#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
D = "deltares_wave_toolbox/"
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [D + f for f in files], "state": state or [],
                          "mechanism": [{"name": n, "where": D + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Every zero-crossing of a record is found once, at the interpolated time",
     "For any record of two or more samples on a uniform time axis, a down-crossing (up-crossing) is reported for exactly each pair of consecutive samples that goes from non-negative to strictly negative (from non-positive to strictly positive), in order of time, at the moment the straight line between the two samples passes zero. The reported number of waves is one less than the number of crossings, and zero when there are no crossings. The kind of crossing may be written in upper or lower case, and any other kind is rejected with an error.",
     ["inputs"], "every record length >= 2, every real-valued signal (including runs of zeros and crossings at the first or last pair), every uniform time axis, both kinds of crossing",
     "The tests run three short hand-made records; the sign patterns around zeros, the last pair and the interpolation at arbitrary values are not enumerable.",
     ["cores/core_time.py", "series.py"], [("determine_zero_crossing", "cores/core_time.py"), ("Series.get_crossing", "series.py")],
     ["core_time.determine_zero_crossing", "Series.get_crossing"])

prop("C02", "Each wave's period, crest, trough and height are those of its own stretch",
     "For any increasing list of crossing times, each two consecutive crossings give one wave: its period is the difference of the two times, its crest (trough) the largest (smallest) sample of the record taken from the first up to and including the second crossing time, and its height crest minus trough, which is never negative. The reported crest and trough times are the times of the first sample with that value in that stretch. The six lists are in the order of the crossings and have one entry per wave; no crossings or one crossing gives no waves.",
     ["inputs"], "every record, every increasing uniform time axis, every list of crossing times of any length whose waves contain at least one sample",
     "The tests use two records; that no sample of a neighbouring wave is used or lost must hold for every position of the crossings relative to the samples.",
     ["cores/core_time.py"], [("determine_params_individual_waves", "cores/core_time.py")],
     ["core_time.determine_params_individual_waves"])

prop("C03", "Sorting waves keeps every height with its own period",
     "Sorting a set of waves returns a rearrangement of exactly the same (height, period) pairs with the heights in descending order. Waves of equal height keep their original relative order. Lists of different length are rejected with an error.",
     ["inputs"], "every number of waves including none, every combination of heights (ties included) and periods",
     "The tests sort two short lists without ties; pairing and stability are statements about all permutations.",
     ["cores/core_time.py", "series.py"], [("sort_wave_params", "cores/core_time.py"), ("WaveHeights.sort", "series.py")],
     ["core_time.sort_wave_params", "WaveHeights.sort"])

prop("C04", "Highest-wave averages and exceedance heights follow their definition",
     "For N waves sorted by descending height, the average over the highest fraction p is the mean height and the mean period of the first floor(N*p) waves (the significant wave height uses p = 1/3), and the height exceeded by e percent is the floor(N*e/100)-th highest; both are zero when that number is zero, also for a record without waves. Fractions outside [0,1], percentages outside [0,100] and heights that are not in descending order are rejected with an error. The Rayleigh 2% height is the significant height times sqrt(ln(50)/2).",
     ["inputs"], "every N >= 0, every set of heights and periods, every fraction and percentage",
     "The tests use one list of seven waves with four fractions; counts, boundaries and empty sets for other N are not covered.",
     ["cores/core_time.py", "series.py"],
     [("highest_waves_params", "cores/core_time.py"), ("exceedance_wave_height", "cores/core_time.py"), ("WaveHeights.highest_waves / get_Hs / get_exceedance_waveheight / get_H2p_Rayleigh", "series.py")],
     ["core_time.highest_waves_params", "core_time.exceedance_wave_height", "WaveHeights.get_Hs", "WaveHeights.get_H2p_Rayleigh"])

prop("C05", "Wave statistics do not depend on what was asked before",
     "For any set of waves or time series object, each statistic (significant height and period, averages over a fraction, exceedance height, root-mean-square height, maximum height, Rayleigh 2% height, crossings) gives the same answer whatever other statistics or plots were requested before it, in whatever order and however often, sorting included. None of these requests, and no plot drawn from the object, changes the number of waves, the set of (height, period) pairs, or the time series. The root-mean-square height is the square root of the mean squared wave height and the maximum height is the largest wave height.",
     ["histories", "inputs"], "every finite sequence of requests on one object, every set of waves including ties",
     "Tests call one getter once on a fresh object; the getters re-sort the stored waves in place, so the claim is about all histories.",
     ["series.py", "cores/core_time.py"], [("WaveHeights getters sort hwave/twave in place", "series.py"), ("sort_wave_params", "cores/core_time.py")],
     ["WaveHeights.get_Hs", "WaveHeights.highest_waves", "WaveHeights.get_exceedance_waveheight", "WaveHeights.get_Hrms", "WaveHeights.get_Hmax", "WaveHeights.sort"],
     [{"name": "hwave, twave", "meaning": "wave heights and periods, re-ordered by the getters", "where": D + "series.py"}])

prop("C06", "Transforming to frequencies and back reproduces the signal",
     "For any real signal of two or more samples on a uniform time axis, transforming it to the frequency domain and back returns the same signal, both over the full and over the folded frequency axis, for even and for odd numbers of samples. The folded transform holds the floor(n/2)+1 lowest frequencies of the full transform, unfolding it restores all n coefficients, and the frequency axis is k/(n*dt).",
     ["inputs"], "every n >= 2 (even and odd), every signal, every uniform time axis with any start time",
     "The tests check one 100-sample signal and two hand-made spectra.",
     ["cores/core_spectral.py", "series.py"], [("time2freq", "cores/core_spectral.py"), ("time2freq_nyquist", "cores/core_spectral.py"), ("unfold_spectrum", "cores/core_spectral.py"), ("freq2time", "cores/core_spectral.py"), ("Series.get_fourier_comp", "series.py")],
     ["core_spectral.time2freq", "core_spectral.time2freq_nyquist", "core_spectral.unfold_spectrum", "core_spectral.freq2time"])

prop("C07", "The variance density spectrum carries the variance of the signal",
     "Without band averaging, the variance density at the k-th folded frequency of any signal of n samples is 2|X_k|^2/(n^2 df), with X_k the discrete Fourier coefficients and df the frequency spacing 1/(n dt), so that for a signal without mean and without content at the Nyquist frequency the sum of the density times df equals the variance of the signal. Computing it from the time series or from its Fourier components gives the same result. The density is never negative.",
     ["inputs"], "every n >= 2, every signal, every uniform axis, every requested frequency spacing",
     "The tests compare one signal with tabulated numbers to 1e-4.",
     ["cores/core_spectral.py", "series.py"], [("compute_spectrum_time_series", "cores/core_spectral.py"), ("compute_spectrum_freq_series", "cores/core_spectral.py"), ("Series.get_spectrum_raw", "series.py")],
     ["core_spectral.compute_spectrum_time_series", "core_spectral.compute_spectrum_freq_series"])

prop("C08", "Band averaging averages whole consecutive bands and conserves energy",
     "Averaging a spectrum on a uniform axis to a requested spacing replaces each consecutive group of m samples by their mean frequency and mean density, with m the requested spacing divided by the original one, rounded to the nearest whole number and at least one; a remainder of fewer than m samples at the end is left out. Hence the area under the averaged spectrum equals the area of the samples used, and every average lies between the smallest and largest density of its group. Without a requested spacing the spectrum is returned unchanged.",
     ["inputs"], "every number of samples >= 2, every density, every requested spacing",
     "In the tests the requested spacing never leads to more than one sample per band, so averaging itself is never exercised.",
     ["cores/core_spectral.py"], [("frequency_averaging", "cores/core_spectral.py")], ["core_spectral.frequency_averaging"])

prop("C09", "The band filter keeps exactly the components inside the band",
     "Filtering a signal between a lower and an upper frequency returns the signal whose Fourier components at positive frequencies from the lower limit (inclusive) up to the upper limit (exclusive, but including the highest frequency when the upper limit is at or above it) are those of the input, a lower limit at or above the highest frequency keeping nothing, while all other components and the mean are zero. Hence filters of adjoining bands add up to the filter of the joined band, and filtering twice with the same band changes nothing more.",
     ["inputs"], "every signal, even and odd length, every pair of band limits inside, at or beyond the ends of the frequency axis (lower limit below the highest frequency)",
     "The tests look at the maximum of one filtered two-component signal within 2%, which cannot see which components near the limits are kept.",
     ["cores/core_spectral.py", "series.py"], [("applybandfilter", "cores/core_spectral.py"), ("bandpassfilter", "cores/core_spectral.py"), ("Series.get_bandpassfilter", "series.py")],
     ["core_spectral.applybandfilter", "core_spectral.bandpassfilter", "Series.get_bandpassfilter"])

prop("C10", "Coherence lies between 0 and 1, is symmetric, and is 1 for proportional signals",
     "The coherence of any two signals, at any requested frequency spacing, is at every frequency the square of the band-averaged magnitude of the cross-spectrum divided by the product of the two band-averaged auto-spectra, and so lies between 0 and 1. It does not change when the two signals are exchanged, and it equals 1 wherever one signal is a nonzero constant times the other and both have more than negligible energy (band averages of at least 1e-10). A band in which either signal has no energy yields coherence 0 rather than an error.",
     ["inputs"], "every pair of complex spectra, every band width",
     "Coherence has no test at all; the bound is an inequality over all pairs of spectra.",
     ["cores/core_spectral.py"], [("coherence", "cores/core_spectral.py"), ("frequency_averaging", "cores/core_spectral.py")], ["core_spectral.coherence"])

prop("C11", "A synthesised time series realises the given spectrum",
     "A time series generated from a variance density spectrum starts at the requested start time with the requested time step, ends at or less than one step beyond the requested end time, and is a sum of harmonics at the multiples k/(N dt) up to the Nyquist frequency, N being the number of samples rounded up to even: each harmonic below the Nyquist frequency has amplitude sqrt(2 S df) with S the spectrum linearly interpolated at that frequency, zero outside the range of the given spectrum, the one at the Nyquist frequency at most half of that, and there is no constant part. Only the phases are random; the same non-negative seed gives the same series.",
     ["inputs", "histories"], "every spectrum on an increasing axis, every start, end and step, every seed, every state of the random generator",
     "Tests only build one series as a fixture and check a ratio of its wave heights.",
     ["cores/core_spectral.py", "spectrum.py"], [("spectrum2timeseries", "cores/core_spectral.py"), ("spectrum2timeseries_object", "cores/core_spectral.py"), ("Spectrum.create_series", "spectrum.py")],
     ["core_spectral.spectrum2timeseries", "Spectrum.create_series"])

prop("C12", "Spectral moments integrate f^m S over the requested band",
     "The m-th spectral moment is Simpson's rule applied to f^m S on the samples from the one nearest to the lower limit up to and including the one nearest to the upper limit, where an omitted limit means that end of the frequency axis. An upper limit beyond the axis adds the exact integral of a tail proportional to f^-5 that continues the last sample, also for an infinite limit; for negative orders a sample at zero frequency is left out. Moments are therefore proportional to the spectrum.",
     ["inputs"], "every uniform frequency axis of positive or zero start, every density, orders -1 to 2, every pair of limits, with and without tail",
     "The tests reach moments only through one Hm0 value of one JONSWAP spectrum over the whole axis.",
     ["cores/core_wavefunctions.py", "cores/core_engine.py"], [("compute_moment", "cores/core_wavefunctions.py"), ("approx_array_index", "cores/core_engine.py")], ["core_wavefunctions.compute_moment"])

prop("C13", "Spectral parameters follow from the moments, alike in both interfaces",
     "For any spectrum and band, Hm0 = 4 sqrt(m0), Tm-1,0 = m-1/m0, Tm01 = m0/m1, Tm02 = sqrt(m0/m2), and the steepness is 2 pi Hm0/(g T^2) with T the smoothed peak period or Tm-1,0; the spectrum object and the function that computes all parameters at once give the same values (that function gives not-a-number for all when Hm0 is below 1e-6). The high- and low-frequency variants are the same quantities over the band above or below 0.45/Tm-1,0 of the whole spectrum unless a limit is given. Multiplying the spectrum by a positive factor multiplies heights by its square root and leaves the periods unchanged.",
     ["inputs"], "every spectrum with energy, every band, both interfaces",
     "Two getters are tested on one spectrum; the agreement of ten getters with the function over all bands is not.",
     ["spectrum.py", "cores/core_wavefunctions.py"], [("Spectrum getters", "spectrum.py"), ("compute_spectrum_params", "cores/core_wavefunctions.py")],
     ["Spectrum.get_Hm0", "Spectrum.get_Tmm10", "Spectrum.get_Tm01", "Spectrum.get_Tm02", "Spectrum.get_s0p", "Spectrum.get_smm10", "core_wavefunctions.compute_spectrum_params"])

prop("C14", "Mean periods are ordered and lie inside the band",
     "For any non-negative spectrum with energy on a uniform axis of positive frequencies, and any band with at least two samples within the axis, all spectral moments are non-negative and Tm02 <= Tm01 <= Tm-1,0. All three periods lie between the inverse of the highest and the inverse of the lowest frequency of the samples used.",
     ["inputs"], "every non-negative spectrum, every uniform positive axis, every band",
     "An inequality over all spectra; no test compares the periods.",
     ["cores/core_wavefunctions.py", "spectrum.py"], [("compute_moment", "cores/core_wavefunctions.py"), ("get_Tmm10 / get_Tm01 / get_Tm02", "spectrum.py")],
     ["Spectrum.get_Tmm10", "Spectrum.get_Tm01", "Spectrum.get_Tm02"])

prop("C15", "Spectrum parameters do not depend on what was asked before",
     "Each parameter requested from a spectrum object is determined by its frequencies, its densities and the arguments of that request alone: any sequence of other requests (plots included) before it, with any frequency limits, leaves the answer unchanged. No request and no plot changes the frequencies or densities.",
     ["histories"], "every finite sequence of parameter requests with any limits on one object",
     "Tests call single getters; the object stores results of earlier requests as attributes, so the claim is about all histories.",
     ["spectrum.py"], [("Spectrum getters store Hm0, Tps, Tmm10, ... on the object", "spectrum.py")],
     ["Spectrum.get_s0p", "Spectrum.get_smm10", "Spectrum.get_smm10_HF", "Spectrum.get_Hm0_HF", "Spectrum.get_Hm0_LF", "Spectrum.get_Tmm10_HF", "Spectrum.get_Tmm10_LF"],
     [{"name": "Hm0, Tps, Tmm10, Hm0_HF, Tmm10_HF, ...", "meaning": "result of the latest request", "where": D + "spectrum.py"}])

prop("C16", "Design spectra have the requested height and the JONSWAP shape",
     "For any uniform frequency axis, peak frequency, wave height and peak enhancement factor, the JONSWAP spectrum is zero at non-positive frequencies, never negative, proportional to f^-5 exp(-1.25 (f/fp)^-4) gamma^exp(-(f/fp-1)^2/(2 sigma^2)) with sigma 0.07 below and 0.09 from the peak frequency on, and integrating it over its axis (or to infinity with the f^-5 tail, if so requested) gives exactly the requested Hm0. The Pierson-Moskowitz spectrum is the one with factor 1, the object versions hold the same densities, and the density rises up to the peak frequency and falls beyond it for any factor of at least 1.",
     ["inputs"], "every uniform axis with energy on it, every peak frequency, height >= 0 and factor, with and without tail",
     "The tests compare four tabulated spectra to 1e-4 for one Tp and Hm0.",
     ["cores/core_wavefunctions.py"], [("create_spectrum_jonswap", "cores/core_wavefunctions.py"), ("create_spectrum_piersonmoskowitz", "cores/core_wavefunctions.py"), ("create_spectrum_object_*", "cores/core_wavefunctions.py")],
     ["core_wavefunctions.create_spectrum_jonswap", "core_wavefunctions.create_spectrum_piersonmoskowitz"])

prop("C17", "Peak periods belong to the highest sample of the band",
     "The peak period is the inverse frequency of the highest density within the band, the highest such frequency if several tie. The smoothed peak period of a spectrum on a uniform axis, with a highest density of at least 1e-10, is the inverse of the top of the parabola through the unique highest sample and its two neighbours, which lies within half a spacing of it; for two equal neighbouring highest samples it is the frequency midway between them. A highest sample at the edge of the band never gives a frequency outside the three samples at that edge, and so never a negative period.",
     ["inputs"], "every spectrum of three or more samples on a uniform axis of positive frequencies, every band",
     "The tests use eight spectra of one to three samples and one JONSWAP spectrum to 1%.",
     ["cores/core_wavefunctions.py", "spectrum.py"], [("compute_tps", "cores/core_wavefunctions.py"), ("Spectrum.get_Tp / get_Tps", "spectrum.py"), ("compute_spectrum_params", "cores/core_wavefunctions.py")],
     ["core_wavefunctions.compute_tps", "Spectrum.get_Tp", "Spectrum.get_Tps", "core_wavefunctions.compute_spectrum_params"])

prop("C18", "Wave numbers satisfy the linear dispersion relation",
     "For every positive radial frequency w and every positive finite depth h, the returned wave number k satisfies w^2 = g k tanh(k h) to a relative accuracy of 1e-9, from the longest to the shortest waves; a zero frequency gives a zero wave number. An infinite depth gives w^2/g and a negative depth -d gives the shallow water value w/sqrt(g d).",
     ["inputs"], "every frequency >= 0 in an array of any length, every depth, every positive gravity",
     "The tests compare eight intermediate-depth values to 1e-4, so lost accuracy, very long waves and the deep and shallow options are invisible.",
     ["cores/core_dispersion.py"], [("disper", "cores/core_dispersion.py")], ["core_dispersion.disper"])

prop("C19", "Reflection analysis recovers incident and reflected waves exactly",
     "For gauge signals that are a sum of an incident and a reflected wave per frequency obeying the linear dispersion relation, the decomposition returns, at the first gauge, exactly the incident and the reflected part of every frequency whose scaled determinant exceeds the limit, and nothing for the other frequencies, for any two or more gauge positions, any weights in [0,1] with a sum above 1 and any depth. It is linear in the signals. Gauges that are not in increasing order, weights outside [0,1] or with a sum of at most 1 and inconsistent numbers of gauges or samples are rejected with an error.",
     ["inputs"], "every number of gauges >= 2, every increasing positions, weights in [0,1] with sum above 1, every depth, every frequency content, even and odd record length",
     "One five-gauge layout with equal weights and three frequencies is tested to 1e-3.",
     ["cores/core_wave_decomposition.py", "cores/core_dispersion.py", "cores/core_spectral.py"], [("decompose_linear_ZS", "cores/core_wave_decomposition.py"), ("decompose_linear_ZS_series", "cores/core_wave_decomposition.py")],
     ["core_wave_decomposition.decompose_linear_ZS", "core_wave_decomposition.decompose_linear_ZS_series"])

prop("C20", "Battjes-Groenendijk points lie on a valid composite Weibull distribution",
     "For any wave height, depth, slope and number of waves above one, the returned distribution points are (0, 1), (H_tr, exp(-(H_tr/H1)^2)) and (x, 1/n), with H_tr = (0.35 + 5.8/cot_slope) times the depth, H1 normalising the composite Weibull distribution with exponents 2 and 3.6 to the prescribed root-mean-square height (2.69 + 3.24 sqrt(m0)/depth) sqrt(m0) within the tolerance, and x the height exceeded with probability 1/n, never above the Rayleigh value Hm0 sqrt(ln(n)/2). All probabilities lie in (0,1]. When H_tr is more than 2.75 times the root-mean-square height, both results are empty.",
     ["inputs"], "every Hm0 > 0, depth > 0, slope, number of waves >= 2 for which the iteration ends",
     "The function has no test.",
     ["cores/core_wavefunctions.py"], [("compute_BattjesGroenendijk_wave_height_distribution", "cores/core_wavefunctions.py")],
     ["core_wavefunctions.compute_BattjesGroenendijk_wave_height_distribution"])

prop("C21", "Unusable axes and mismatched arrays are rejected, never analysed",
     "A Fourier transform, variance spectrum, band filter, spectral moment, parameter computation or spectrum object given a time or frequency axis that is not strictly increasing, or of which any step differs from the first by 1e-9 or more in either direction, raises an error instead of returning a result. The same holds when the axis and the values differ in length, when either has several columns (apart from the spectrum object, which may be directional), and for wave lists or crossings with values of another length. A uniform increasing axis is always accepted.",
     ["inputs"], "every axis of two or more points, every position and size of the irregular step, every pair of lengths",
     "No test passes an invalid axis; a one-sided comparison passes all tests.",
     ["cores/core_engine.py", "cores/core_spectral.py", "cores/core_wavefunctions.py", "cores/core_time.py", "spectrum.py"], [("monotonic_increasing_constant_step", "cores/core_engine.py"), ("convert_to_vector / is1darray", "cores/core_engine.py"), ("input checks of each function", "cores/core_spectral.py")],
     ["core_spectral.time2freq", "core_spectral.time2freq_nyquist", "core_spectral.compute_spectrum_time_series", "core_spectral.compute_spectrum_freq_series", "core_spectral.bandpassfilter", "core_wavefunctions.compute_moment", "core_wavefunctions.compute_spectrum_params", "Spectrum"])

prop("C22", "Arguments are never modified, and lists, arrays and columns are alike",
     "No computation changes the arrays passed to it. The functions on spectra and time series give the same results whether a one-dimensional argument is passed as a list of floats, a one-dimensional array or a column of shape (n,1); the functions on waves do so for lists and one-dimensional arrays.",
     ["inputs", "configurations"], "every public function, every argument value, every accepted representation",
     "Tests never look at the arguments after a call, and mostly pass one representation.",
     ["cores/core_engine.py", "cores/core_time.py", "cores/core_spectral.py", "cores/core_wavefunctions.py", "cores/core_dispersion.py", "cores/core_wave_decomposition.py", "series.py", "spectrum.py"], [("convert_to_vector / convert_to_array_type return the caller's own array when they can", "cores/core_engine.py")],
     ["all public functions"])

prop("C23", "The segmented spectrum is Welch's estimate at the requested resolution",
     "The segmented spectrum of a time series object is Welch's one-sided density estimate with sampling frequency 1/dt, constant detrending and the chosen window; with a desired frequency resolution the segments have the length 1/(dt*resolution) rounded to a whole number of samples and overlap by half of it (rounded), otherwise the given segment length, overlap and transform length are used, zero meaning the default of the underlying estimator. The returned object holds exactly the frequencies and densities of that estimate.",
     ["inputs", "configurations"], "every signal, time step, resolution, segment settings and window",
     "The method has no test.",
     ["series.py", "cores/core_spectral.py"], [("Series.get_spectrum", "series.py"), ("compute_spectrum_welch_wrapper", "cores/core_spectral.py")],
     ["Series.get_spectrum", "core_spectral.compute_spectrum_welch_wrapper"])

prop("C24", "A time series object reports the waves of its own record",
     "A time series object holds its samples and axis unchanged, its number of samples and time step, and from creation on the heights and periods of the waves between consecutive down-crossings of its record. Determining the waves anew uses the requested kind of crossing, of the record minus its part below a cut-off frequency if one is given, measures the waves on the record itself, and keeps in order exactly the waves that are at least as high as the requested minimum, with all lists and the number of waves consistent. The mean, variance, extremes, skewness, band-filtered object, Fourier components and raw spectrum of the object are those of its samples.",
     ["inputs", "histories"], "every record on a uniform axis with at least two samples, every kind of crossing, cut-off and minimum height",
     "Only one series fixture is used, for one ratio; the object-level wiring is untested.",
     ["series.py", "cores/core_time.py", "cores/core_spectral.py"], [("Series.__init__", "series.py"), ("Series._determine_individual_waves", "series.py")],
     ["Series.hwave", "Series.twave", "Series.nwave", "Series.get_crossing", "Series.get_bandpassfilter", "Series.get_fourier_comp", "Series.get_spectrum_raw"])

prop("C25", "Skewness and asymmetry depend on the shape of the record alone",
     "For any record of three or more samples that is not constant, the skewness is the mean cubed deviation from its mean divided by its variance to the power 3/2, and the asymmetry is the mean cube of its Hilbert transform divided by the same. Adding a constant to the record or multiplying it by a positive constant changes neither, and a negative constant reverses the sign of both. Reversing the record in time keeps the skewness and reverses the sign of the asymmetry.",
     ["inputs"], "every record that is not constant, every offset and scale",
     "Symmetries hold over all records; no test asks for either measure.",
     ["series.py"], [("Series.get_skewness", "series.py"), ("Series.get_asymmetry", "series.py")],
     ["Series.get_skewness", "Series.get_asymmetry"])

prop("C26", "The period tpd is the mean period of the band around the peak",
     "For any spectrum on a uniform axis with a positive highest density, the period tpd is the quotient m0/m1 of the moments over the band from the first up to and including the last sample whose density is at least 0.64 (0.8 of 0.8) times the highest. For non-negative densities and a band of two or more samples at positive frequencies it lies between the inverse of the highest and the inverse of the lowest frequency of that band. Multiplying all densities by a positive constant does not change it.",
     ["inputs"], "every uniform axis and every density whose band has two or more samples",
     "No test calls the function; which samples belong to the band depends on the whole spectrum.",
     ["cores/core_wavefunctions.py"], [("tpd", "cores/core_wavefunctions.py"), ("compute_moment", "cores/core_wavefunctions.py")],
     ["core_wavefunctions.tpd"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        fh.write(json.dumps(p) + "\n")
print(len(P))
