#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays valid JSON lines)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
I=["inputs"]; IC=["inputs","configurations"]
p("P01","Key notation is total and lossless",
 "Every one of the 24 keys has its conventional sharp name ('C', 'F#', minor 'Am', 'D#m') and its own circle-of-fifths code ('1A'..'12A' for the majors C, G, D, ..., F and '1B'..'12B' for the minors Am, Em, ..., Dm), and reading a code back yields exactly the key it was written from. The parser accepts exactly a decimal number from 1 to 12 followed by 'A' or 'B'; any other text yields no key, and no text, including multi-byte text, makes it crash.",
 I,"all keys and all strings","Tests sample a few keys and strings; a swapped table entry or a crash on one odd string is invisible to them.",
 ["src/analysis/result.rs"],[("wheel tables and parser","src/analysis/result.rs Key::numerical / Key::from_numerical / Key::name")],["Key::name","Key::numerical","Key::from_numerical"])
p("P02","Confidence report is bounded, consistent and honest about missing parts",
 "For every analysis result whose scores are numbers (infinite and out-of-range ones included), each reported confidence lies in [0,1]; a missing tempo (not above zero) or key confidence not above zero counts as 0. A warning naming BPM multiplies tempo confidence by 0.7; a warning naming key/Key/tonality multiplies key confidence by 0.7, and key clarity below 0.2 or 0.5 by 0.6 or 0.85; the overall score is 40% tempo, 30% key, 30% grid stability when both are present and 60% of the one present otherwise. Low tempo (<0.3), low key (<0.2) and unstable grid (<0.3) confidences each raise exactly their own flag on top of the flags already present, and every overall score is exactly one of high, medium, low.",
 I,"all analysis results whose scores are numbers, finite or infinite",
 "Tests evaluate a dozen hand-made results; the bounds must hold for every combination of scores, warnings and flags.",
 ["src/analysis/confidence.rs"],[("confidence computation","src/analysis/confidence.rs compute_confidence, compute_bpm_confidence, compute_key_confidence"),("classification","src/analysis/confidence.rs AnalysisConfidence methods")],["compute_confidence"])
p("P03","Channel mixing is sample-exact",
 "Mixing two channels of equal length returns exactly one sample per input pair, in order, each computed only from that pair: the average (l+r)/2 for the averaging modes, and in dominant mode the one of larger magnitude (left on a tie). Channels of different length are rejected with an error, and empty channels give an empty result.",
 IC,"all channel contents, lengths and modes","Tests mix a few short vectors; only a proof over the index covers every position, length and mode.",
 ["src/preprocessing/channel_mixer.rs"],[("mixer","src/preprocessing/channel_mixer.rs stereo_to_mono")],["stereo_to_mono"])
p("P04","Silence trimming removes only leading and trailing material",
 "For all audio and detector settings, the trimmed audio is one contiguous, unmodified run of the input; it is exactly the input between a reported region that starts at the first sample and one that ends at the last sample (all of it where there is none). The reported silence regions are non-empty, lie inside the input, are ordered and disjoint, and each one that does not start at the first sample lasts at least the configured minimum duration; all-zero audio is one region and trims to nothing. A zero sample rate or frame size is an error for non-empty audio, and no settings crash the call.",
 IC,"all sample buffers, sample rates, frame sizes, thresholds and minimum durations","Tests use a few tones with default frame sizes; boundary frames, tiny frames and odd lengths are not reached.",
 ["src/preprocessing/silence.rs"],[("frame scan and trim","src/preprocessing/silence.rs detect_and_trim")],["detect_and_trim"])
p("P05","Normalization applies one gain and never clips",
 "Normalizing audio multiplies every sample by one common non-negative gain, so length, order and waveform shape are preserved, and after successful peak, RMS or loudness normalization with a headroom of 0 to 200 dB no sample exceeds full scale (magnitude 1 up to rounding). Peak normalization brings the largest sample to the peak the headroom asks for (10^(-headroom/20), up to rounding) and leaves audio no louder than 1e-10 as it is. Empty audio is an error; no input makes the call crash.",
 IC,"all sample buffers of magnitude up to 2^40, targets from -300 to 100, head-room from 0 to 200 dB, and methods","Tests normalise a few sines; a gain bug that shows only for quiet, loud or very short input is not sampled.",
 ["src/preprocessing/normalization.rs"],[("gain computation and limiting","src/preprocessing/normalization.rs normalize, normalize_peak, normalize_rms, normalize_lufs")],["normalize"])
p("P06","Adaptive thresholds are the statistics they claim to be",
 "For every non-empty list of finite values, the percentile threshold is an element of the list that has the requested fraction of the sorted values below it (clamped to the largest), and the robust threshold is the median plus the multiplier times the median absolute deviation. Empty input, negative multipliers and percentiles outside [0,1] are rejected, and the input is not modified.",
 I,"all lists of finite values, multipliers and percentiles","Tests use lists of 5-10 values; rank and parity errors at other lengths go unseen.",
 ["src/features/onset/threshold.rs"],[("thresholds","src/features/onset/threshold.rs percentile_threshold, adaptive_threshold_median_mad")],["percentile_threshold","adaptive_threshold_median_mad"])
p("P07","Onset detectors report ordered, distinct, in-range positions",
 "For every spectrogram or sample buffer of finite values, each onset detector returns positions in strictly increasing order, all inside the analysed material and never at the very first frame. Spectral flux and HFC detectors reject ragged or zero-width spectrograms, spectral flux and HPSS reject a percentile outside [0,1], the energy detector rejects a zero frame or hop size, and nothing makes a detector crash.",
 IC,"all finite spectrograms and sample buffers, all parameters","Tests use synthetic click tracks; index errors at other frame counts, hop sizes or ties are not reached.",
 ["src/features/onset/spectral_flux.rs","src/features/onset/hfc.rs","src/features/onset/hpss.rs","src/features/onset/energy_flux.rs"],
 [("peak picking loops","src/features/onset/*.rs detect_*_onsets")],["detect_spectral_flux_onsets","detect_hfc_onsets","detect_hpss_onsets","detect_energy_flux_onsets"])
p("P08","Onset consensus voting is faithful to its inputs",
 "Every reported consensus onset lies between the earliest and latest onset given, its time in seconds is its sample position divided by the sample rate, it names between one and four supporting methods, and its confidence is in [0,1]; candidates come ordered by falling confidence. There are no more candidates than onsets given, and none only if no onset was given; zero sample rate, zero tolerance or a negative weight is an error.",
 I,"all onset lists of up to 2^28 onsets at positions up to 2^32, weights up to 2^100, tolerances and sample rates","Tests vote on lists of a few onsets; bounds must hold for all lists, including very long recordings.",
 ["src/features/onset/consensus.rs"],[("clustering and voting","src/features/onset/consensus.rs vote_onsets")],["vote_onsets"])
p("P09","Harmonic/percussive separation conserves the spectrogram",
 "For every rectangular spectrogram of magnitudes from 0 to 2^100, separation yields a harmonic and a percussive part of the same shape, each entry non-negative and no larger than the original entry (up to rounding), the two adding up to the original within rounding. Empty or ragged spectrograms are rejected with an error; every margin works.",
 I,"all spectrograms of non-negative magnitudes up to 2^100, all margins below 2^62","Tests look at shapes and a few sums; the mask must behave for every bin, margin and border.",
 ["src/features/onset/hpss.rs"],[("soft mask and median filters","src/features/onset/hpss.rs hpss_decompose, apply_*_median_filter")],["hpss_decompose"])
p("P10","Novelty curves are aligned and normalised",
 "Every novelty curve (spectral flux, superflux, energy flux, HFC, mel superflux) of a rectangular spectrogram of N >= 2 frames with magnitudes from 0 to 2^30 has exactly N-1 values, one per frame transition, each between 0 and 1, with the largest exactly 1 unless none exceeds 1e-10; a band narrower than two bins gives an empty curve, and so do fewer than 2 frames. Ragged spectrograms and empty frames are an error, and so are a zero sample rate for HFC and mel superflux and fewer than 2 bins for mel superflux; nothing else is. Combining curves with values in [0, 1] keeps the length of the shortest, with the same range and largest value. No filter width, band, window or weight makes them crash.",
 IC,"all rectangular finite non-negative spectrograms, bands, margins and window sizes","Tests check a handful of curves; alignment and range must hold for all shapes and parameters.",
 ["src/features/period/novelty.rs"],[("novelty functions","src/features/period/novelty.rs")],["spectral_flux_novelty","superflux_novelty","energy_flux_novelty","hfc_novelty","combined_novelty_with_params"])
p("P11","Peak picking returns real, separated, ranked peaks",
 "Every peak reported for a finite signal is a position inside it with the value found there, strictly higher than its neighbours and at least the threshold (a threshold strictly between 0 and 1 means that fraction of the largest value); with a minimum distance given, any two reported peaks are at least that far apart, no qualifying peak is dropped unless a reported peak at least as high lies within that distance, and peaks are listed in falling order of height. Signals of fewer than 3 samples, or nowhere above 1e-10, have no peaks.",
 I,"all finite signals, thresholds and minimum distances","Tests use signals of a dozen samples; separation and ranking must hold for every signal and distance.",
 ["src/features/period/peak_picking.rs"],[("peak search and suppression","src/features/period/peak_picking.rs find_peaks")],["find_peaks"])
p("P12","Tempo candidates stay inside the requested range",
 "Every tempo candidate from onsets (by autocorrelation, by comb filter with any resolution, or by coarse-to-fine search) lies within the requested tempo range (comb filter: up to 1e-10 above it), carries a confidence in [0,1] (comb filter: at least 0.1), and candidates come by falling confidence. Every entry of a Fourier or autocorrelation tempogram lies within the range with a non-negative finite strength, by falling strength, and the best tempo reported from a tempogram is its first entry, with confidence in [0,1], absent exactly for an empty tempogram. No onsets or novelty, zero rates (and hops, where used), empty or inverted ranges and resolutions of 0 or less are errors; the tempograms give a result for anything else, autocorrelation for anything else unless several onsets all fall into the first hop.",
 IC,"onset lists with positions below 2^60 (autocorrelation: below 2^30 hops), novelty curves in [0,1] of up to 2^30 values, all rates and hops, tempo ranges given in numbers (comb filter: up to 2^20, resolution at least 2^-20; autocorrelation tempogram: from 2^-20)","Tests use a few tempi with the default range.",
 ["src/features/period/autocorrelation.rs","src/features/period/comb_filter.rs","src/features/period/tempogram_fft.rs","src/features/period/tempogram_autocorr.rs"],
 [("range filters and sorting","src/features/period/*.rs")],["estimate_bpm_from_autocorrelation","estimate_bpm_from_comb_filter","fft_tempogram","autocorrelation_tempogram"])
p("P13","Merged tempo estimate is drawn from its candidates, with bounded confidence",
 "Merging tempo candidates from two methods always gives a result: estimates exist exactly when candidates do; every estimated tempo lies within 2.1 BPM of a candidate tempo, carries a confidence in [0, 4.21] (1 before the documented boosts) and an agreement of at least 1. Estimates come in the documented order: by confidence, halved outside 60-180 BPM, except that an estimate outside 60-180 precedes one inside only when it leads by 0.5; equal ones by agreement. The single tempo estimate from onsets lies within 2.1 BPM of the requested tempo range and its confidence is never negative, with any guardrails (whose ranges are made ordered and nested and whose weights are made finite and non-negative, preferred range first, then soft, then extreme). Every tempogram estimate (with or without band fusion) lies in the requested range, carries a confidence in [0,1] and at most as many candidates as asked for, all in the range; the multi-resolution estimate lies in the range or within 2 BPM (or the resolution, whichever is larger) of it, to rounding, with a confidence in [0,1] and an agreement of at most 3. No onsets, zero rates or hops, empty or inverted ranges and resolutions of 0 or less are errors.",
 IC,"all lists of candidates with tempi in (0,1024] and confidences in [0,1] (at most 2^30 by autocorrelation); all onset lists below 2^60 and 2^30 hops, tempo ranges up to 1000, resolutions from 2^-20, guardrail range ends that are numbers, band and resolution weights of magnitude up to 2^20","Tests merge lists of two or three candidates.",
 ["src/features/period/candidate_filter.rs","src/features/period/mod.rs","src/features/period/tempogram.rs","src/features/period/multi_resolution.rs"],[("merging and guardrails","src/features/period/candidate_filter.rs merge_bpm_candidates; src/features/period/mod.rs")],["merge_bpm_candidates","estimate_bpm","estimate_bpm_with_guardrails","estimate_bpm_tempogram","multi_resolution_tempogram_from_samples"])
p("P14","Beat grids are ordered and self-consistent",
 "Every generated beat grid has at least one beat and lists its beats in strictly increasing time order, each within 0.0537 s of an onset; its downbeats are beats, the first beat is one, each further downbeat lies one bar (the time signature's beats at the given tempo) after the one before to within a tenth of a bar, and every beat lying so after the latest downbeat before it is a downbeat; bars equal downbeats; grid stability lies in [0,1]. A tempo of at most 1e-10 or above 300, or no onsets, is an error; anything else gives a grid.",
 I,"all tempi and confidences that are numbers, all lists (in any order) of fewer than 2^31 onset times that are 0 or between 2^-20 and 2^20 s","Tests use regular click tracks.",
 ["src/features/beat_tracking/mod.rs"],[("grid construction","src/features/beat_tracking/mod.rs")],["generate_beat_grid"])
p("P15","Beat tracking returns valid beats only",
 "The beat tracker's beats come in time order, each with a confidence in [0,1] and lying a whole number of beat intervals (60/tempo) after the first onset, within the span of the onsets; every such grid time with an onset within 0.0536 s is a beat (so the first onset always is) and none without an onset within 0.0537 s is; decoding never indexes outside its state space. No onsets, or a tempo that is at most 1e-10 or above 300, is an error; anything else gives a result.",
 I,"all onset lists of magnitude up to 2^20 s and all tempi","Tests use short regular onset lists.",
 ["src/features/beat_tracking/hmm.rs"],[("Viterbi decoding","src/features/beat_tracking/hmm.rs")],["HmmBeatTracker::track_beats"])
p("P16","Tempo segments and time signature are well formed",
 "Tempo variation analysis gives at least one segment; segments start one after another, each lies inside the span of the beats, ends no earlier than it starts, and has a positive tempo and a confidence in [0,1]; there is variation exactly when some segment varies. The detected time signature has a confidence in [0,1] and is 4/4 with confidence 0.5 for fewer than 8 beats; 4/4, 3/4 and 6/8 have 4, 3 and 6 beats per bar. A tempo of at most 1e-10 is an error (from 4 beats on for segments, from 8 on for the time signature); anything else gives a result.",
 I,"all tempi; all beat lists (for segments: ordered, of fewer than 2^31 beats) of times that are 0 or between 2^-20 and 2^21 s","Tests use a few beat lists.",
 ["src/features/beat_tracking/tempo_variation.rs","src/features/beat_tracking/time_signature.rs"],[("segmenting, scoring","src/features/beat_tracking/*.rs")],["detect_tempo_variations","detect_time_signature"])
p("P17","Bayesian tempo tracking keeps its state sane over any history",
 "An update is rejected exactly for no onsets or a current tempo at most 1e-10 or above 300, and then leaves the state unchanged. An accepted update appends exactly the new tempo to the history and answers with the new state: a tempo that is the old one, or within 5 BPM of it and inside 60-180, and a confidence in [0,1]. A new tracker holds the initial tempo, the confidence brought into [0,1], and a history of that tempo alone.",
 ["histories","inputs"],"all sequences of updates with fewer than 2^31 onsets of magnitude up to 2^60 s each","Tests apply one or two updates.",
 ["src/features/beat_tracking/bayesian.rs"],[("update","src/features/beat_tracking/bayesian.rs update_with_onsets")],["BayesianBeatTracker"])
p("P18","Chroma processing preserves shape and scale",
 "Chroma normalisation divides every entry by the vector's Euclidean norm, and sharpening first raises each entry to the given power and then does the same; when that norm is negligible (at most 1e-10) the result is uniform with unit norm, and the length never changes. Temporal smoothing keeps frame count and width: median smoothing gives each value the median (upper of two) of its pitch class over a window of the given number of frames (made odd) centred on the frame and cut at both ends, average smoothing the mean over the window of the given length; a window of 0 or 1 changes nothing.",
 IC,"all vectors and powers; all rectangular chroma sequences without NaN, up to 2^30 frames, and windows up to 2^30","Tests use a few vectors.",
 ["src/features/chroma/normalization.rs","src/features/chroma/smoothing.rs"],[("normalisation, sharpening, smoothing","src/features/chroma/*.rs")],["l2_normalize_chroma","sharpen_chroma","smooth_chroma","smooth_chroma_average"])
p("P19","Key detection ranks all 24 keys and reports the best",
 "Key detection (plain or frame-weighted) scores each of the 24 keys exactly once and lists them in falling order; the reported key is the best-scored one, the listed top keys are the first three of that ranking, and confidence is the relative lead of the best score over the second, in [0,1] (0 if the best score is not positive). An empty sequence, a frame without exactly 12 values, or weights of another length than the sequence are errors, anything else gives a result; the answer depends on the input alone.",
 IC,"all chroma sequences, weights and 12-entry templates of magnitude up to 2^20","Tests use a few synthetic chroma vectors.",
 ["src/features/key/detector.rs"],[("template scoring and ranking","src/features/key/detector.rs")],["detect_key","detect_key_weighted"])
p("P20","Key templates are 24 unit-norm rotations of two profiles",
 "Each template set (Krumhansl-Kessler, the default, and Temperley) holds 12 major and 12 minor templates of 12 entries: the template of each tonic is that set's published profile scaled to unit norm and rotated by that many semitones. Looking a template up by key index returns the major templates for 0-11 and the minor ones for 12-23; lookups by tonic count modulo 12.",
 IC,"all template sets, tonics and pitch classes","Tests check a few entries.",
 ["src/features/key/templates.rs"],[("template construction","src/features/key/templates.rs")],["KeyTemplates"])
p("P21","Key clarity and key-change segments are well formed",
 "Key clarity is how far the first score stands above the mean of all scores relative to their spread, in [0,1], and 0 for fewer than two scores or no spread. Key-change analysis returns time-ordered segments with valid keys and confidences in [0,1], a primary key that occurs among the segments with confidence in [0,1], and as changes exactly the neighbouring segments whose keys differ and whose mean confidence exceeds 0.2, in order; segment or hop lengths of zero frames, or no whole segment, are errors.",
 I,"all score lists of magnitude up to 2^80; all chroma sequences of magnitude up to 2^20 and all segment settings","Tests use a few lists.",
 ["src/features/key/key_clarity.rs","src/features/key/key_changes.rs"],[("clarity, segmentation","src/features/key/*.rs")],["compute_key_clarity","detect_key_changes"])
p("P22","Whole-track analysis reports consistent, bounded results",
 "Analysing a buffer fails with an error when it is empty, the sample rate is zero, or silence is trimmed and the audio is all zeros. Whenever it returns a report: the sample rate is the given one; the duration is positive and that of the whole buffer, or with trimming no longer; the tempo is 0 or within 2.1 BPM (or the resolution) of the configured range, to rounding; tempo confidence and grid stability lie in [0,1]; beats are strictly increasing, downbeats are beats and bars are the downbeats; without a tempo there are no beats and confidence and stability are 0; the weak-tonality flag is set exactly when key clarity is below 0.2; there is exactly one warning each for no tempo, stability below 0.5, key confidence below 0.3 and clarity below 0.2; onset consensus is 0 or 1; tempogram candidates appear only when asked for and when legacy tempo is not forced.",
 IC,"all buffers of fewer than 2^28 samples of magnitude up to 2^40; sample rates of 0 or from 512 to 2^20; tempo ranges within 4 to 1000 BPM, resolutions from 2^-20 to 3, other numbers of the configuration finite and of magnitude up to 2^20; any spectrogram, chroma and key results","Integration tests use a few synthetic tracks and the default configuration.",
 ["src/lib.rs"],[("pipeline","src/lib.rs analyze_audio")],["analyze_audio"])
json_lines="\n".join(json.dumps(x) for x in P)+"\n"
open("/verif/properties.jsonl","w").write(json_lines)
assert all(len(x["title"])<=80 for x in P)
print(len(P))
