#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {
            "files": ["src/" + f for f in files],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": None}})


p("C01", "Well-formed 16-bit PCM audio is decoded exactly and mixed to mono by averaging",
  "For every well-formed 16-bit PCM WAV input (plain format tag, or extensible one followed by its fact chunk, any channel count, any sample rate, any even-sized "
  "chunks between the format and data chunks, anything after the data chunk), the loaded signal has the header's sample rate and "
  "exactly one sample per frame: the average of that frame's channel samples, each divided by 32768. No byte outside the data chunk "
  "ever becomes a sample, and loading from a file and from a stream give the same signal.",
  ["inputs"], "every well-formed WAV byte string: header variants x chunk layouts x channel counts x sample values",
  "The WAV tests decode a handful of recordings with one header layout each; they never vary extension sizes, ancillary chunks, "
  "trailing data or channel counts, and compare only counts and one sum.",
  ["wav_reader.cc", "misc_audio.cc", "include/misc_math.h"],
  [("header and chunk parser", "wav_reader.cc ParseHeader"), ("sample read", "wav_reader.cc ReadSamples"),
   ("de-interleave and downmix", "misc_audio.cc LoadAsMono, ExtractMultiChannel, ToMono")],
  ["MiscAudio::LoadAsMono (file and stream)", "WavReader accessors and ReadSamples"])

p("C02", "Malformed or unsupported audio is rejected; a truncated one yields silence",
  "A byte string that is not a supported WAV (bad or missing RIFF/WAVE/fmt/fact/data identifiers, too short, a chunk running past the end before the "
  "data chunk, non-16-bit samples, zero channels, an unsupported format tag, an empty or odd-sized data chunk, no readable sample) loads as an empty signal and never crashes. If the data chunk "
  "declares more samples than the file holds, the signal keeps the declared length and every missing sample is zero.",
  ["inputs", "fault_sequences"], "every byte string, in particular every truncation and every single-field corruption of a valid file",
  "Tests feed two malformed streams; the space of truncation points and field corruptions is not sampled.",
  ["wav_reader.cc", "misc_audio.cc"],
  [("validity conditions", "wav_reader.cc ParseHeader"), ("empty-signal fallback", "misc_audio.cc LoadAsMono")],
  ["MiscAudio::LoadAsMono", "WavReader::IsHeaderValid, GetNumTotalSamples, ReadSamples"])

p("C03", "Every reported result is well-formed and internally consistent",
  "Whenever a comparison succeeds, MOS-LQO is a number in [1, 5]; the four per-band vectors and the centre-frequency list all have one entry "
  "per frequency band (32 in audio mode, 21 in speech mode), centre frequencies strictly increase, and VNSIM is the mean of FVNSIM. "
  "Each reported patch has one mean per band whose average is the patch similarity, FVNSIM is the mean over patches of those means, "
  "patch start times do not exceed end times, and patches are reported in increasing reference-time order.",
  ["inputs", "configurations"], "every pair of signals (speech-like, noise, tones, silence, clipped, shifted, shortened) x every mode and option combination",
  "The end-to-end tests compare the score of a dozen recordings with one number each and never look at the rest of the result; they cannot be run here at all (they need pffft/TFLite).",
  ["visqol.cc", "visqol_manager.cc", "comparison_patches_selector.cc", "proto/similarity_result.proto"],
  [("aggregation", "visqol.cc CalculateSimilarity"), ("result message", "visqol_manager.cc PopulateSimResultMsg")],
  ["SimilarityResultMsg returned by VisqolManager::Run / VisqolApi::Measure"])

p("C04", "A comparison depends only on its inputs and options, not on history",
  "Comparing a given pair under given options always returns the identical result (every field), no matter which comparisons (successful or failed) the same or other "
  "instances ran before, whether the signals are passed as files, as signal objects or through the API, or whether the pair is compared alone or inside a batch. The reference signal passed in is never modified.",
  ["histories", "inputs"], "every sequence of comparisons on any set of instances",
  "Tests run one comparison per instance (two at most); no test repeats a pair after other work on the same instance.",
  ["visqol_manager.cc", "visqol.cc", "gammatone_filterbank.cc", "gammatone_spectrogram_builder.cc", "signal_filter.cc"],
  [("filter state reset per frame", "gammatone_spectrogram_builder.cc Build, gammatone_filterbank.cc ResetFilterConditions"),
   ("no cross-run state", "visqol_manager.cc Run")],
  ["VisqolManager::Run", "VisqolApi::Measure", "visqol command line"])

p("C05", "Instances used from different threads do not interfere",
  "Separate instances created, initialised and used concurrently from different threads produce exactly the results they produce sequentially. "
  "At most one thread at a time is inside the support-vector model loader, and every loader that enters leaves, including on failed loads.",
  ["schedules"], "every interleaving of create/load/compare/destroy across threads, including failing loads",
  "The only multithreading test runs two threads once and cannot run here; it samples one schedule.",
  ["support_vector_regression_model.cc", "visqol_manager.cc"],
  [("load mutex", "support_vector_regression_model.cc Init")],
  ["SupportVectorRegressionModel::Init / Predict", "VisqolManager::Run", "calls into libsvm"])

p("C06", "Batch runs process every listed pair once, in order, and survive failures",
  "A batch file's first line is a header; every further line 'reference,degraded' (LF or CRLF, last newline optional) is one pair, processed in file order, and blank lines and lines without a comma are skipped. "
  "Each pair that can be scored yields exactly one result, identical to comparing that pair alone; a pair that fails yields no result and does not affect any other pair.",
  ["histories", "inputs", "fault_sequences"], "every batch file content: order, repetition and position of good, unreadable, too short and mismatched pairs; line endings",
  "One test reads a two-line batch file; no test runs a batch with failing rows.",
  ["main.cc", "commandline_parser.cc"],
  [("batch file reader", "commandline_parser.cc ReadFilesToCompare"), ("per-pair loop", "main.cc main")],
  ["VisqolCommandLineParser::BuildFilePairPaths", "visqol command line: results CSV and output"])

p("C07", "Result files are append-only, parseable, and report what was computed",
  "For paths without commas, quotes and line breaks, the results CSV gets its header line exactly once (only when the file did not exist) and one line per result after all earlier content, with "
  "as many fields as the header: both paths, the score, and the four per-band vectors in header order, equal to the result's values to nine significant digits. The debug output "
  "gets exactly one JSON object per result appended after all earlier content, holding the result's fields, and the console shows the score and mode of every result, in verbose mode also the paths and one row per band and per patch.",
  ["histories", "inputs"], "every sequence of results written to fresh or pre-existing files, with any combination of outputs and verbosity",
  "The writer has no test at all.",
  ["include/sim_results_writer.h", "main.cc"],
  [("CSV writer", "include/sim_results_writer.h"), ("JSON writer", "include/sim_results_writer.h")],
  ["SimilarityResultsWriter::Write: files and standard output"])

p("C08", "Command-line options are validated and passed through faithfully",
  "Parsing fails with an invalid-argument error exactly when a required input does not exist: the batch file if one is given, otherwise the reference or the degraded file, "
  "the explicit model in audio mode, or the mode's default model under the current directory when no model is given. Otherwise every option has the value given or its documented default, "
  "a batch file takes precedence over a single pair, and the pairs to compare are exactly those named. The program ends with a nonzero status and writes nothing when parsing or loading the model fails, and otherwise compares under exactly the options given.",
  ["configurations", "inputs"], "every combination of present/missing files, modes and flags",
  "Tests parse two command lines; absl flags are process-global so the tests do not explore combinations.",
  ["commandline_parser.cc", "include/commandline_parser.h", "include/file_path.h"],
  [("option parsing and checks", "commandline_parser.cc Parse")],
  ["VisqolCommandLineParser::Parse / BuildFilePairPaths", "exit status of the visqol command line"])

p("C09", "The embedding API accepts and rejects configurations as documented",
  "Creation fails with invalid-argument when audio info is absent, when the sample rate is not positive, when a non-48 kHz rate is configured without speech mode and without the override, or when the selected model cannot be loaded, and succeeds otherwise; "
  "unset options mean audio scoring, scaled mapping, a search window of 60 patches and the mode's default model. A measurement on an instance whose creation failed, or was never done, returns an aborted error.",
  ["configurations", "histories"], "every subset of configuration fields and every order of create/measure calls",
  "Tests cover half a dozen configurations, one call order, and all successful-measure tests fail in this environment.",
  ["visqol_api.cc", "visqol_manager.cc", "proto/visqol_config.proto"],
  [("decision table", "visqol_api.cc Create"), ("delegation", "visqol_api.cc Measure")],
  ["VisqolApi::Create / Measure"])

p("C10", "The comparison life cycle: initialise first, then compatible non-empty signals",
  "A comparison returns an aborted error unless the most recent initialisation of that instance succeeded; a failed (re-)initialisation leaves the instance unusable until one succeeds. "
  "Once initialised, a pair with different sample rates, or with an unreadable or empty signal, returns an invalid-argument error, a reference shorter than one analysis window returns an error, and none of these crash or make later comparisons fail.",
  ["histories", "fault_sequences"], "every sequence of successful/failed initialisations in different modes, good comparisons and bad comparisons",
  "Tests exercise 'run before init' and one rate mismatch, never re-initialisation or recovery.",
  ["visqol_manager.cc", "visqol.cc"],
  [("initialised flag", "visqol_manager.cc Init, ErrorIfNotInitialized"), ("input validation", "visqol_manager.cc ValidateInputAudio")],
  ["VisqolManager::Init / Run status codes"],
  [("is_initialized_", "last initialisation succeeded", "visqol_manager.h")])

p("C11", "The selected mode determines the whole pipeline",
  "Speech mode uses 21 bands reaching at most 8 kHz, patches of 20 frames taken only where the reference has voice activity, and the exponential or lattice quality mapping; audio mode uses 32 bands up to half the sample rate, back-to-back patches of 30 frames and the support-vector mapping (also when a lattice is asked for). "
  "In both, bands start at 50 Hz, the frame step is a quarter of an 80 ms window, the options for search radius, unscaled mapping, global alignment and realignment take effect as requested, and disabling global alignment reports a zero lag.",
  ["configurations", "inputs"], "every mode and option combination x signals",
  "Tests check single scores per mode; nothing relates the reported bands, patch durations and mapping to the mode.",
  ["visqol_manager.cc", "gammatone_spectrogram_builder.cc", "analysis_window.cc", "include/analysis_window.h"],
  [("per-mode component choice", "visqol_manager.cc InitPatchCreator, InitSpectrogramBuilder, InitSimilarityToQualityMapper")],
  ["fields of SimilarityResultMsg per mode and option"])

p("C12", "Audio-mode reference patches tile the spectrogram",
  "For every spectrogram length and patch length, audio-mode segmentation fails with invalid-argument exactly when fewer than one and a half patches fit; otherwise it returns at least one patch start, the first half a patch in (minus one frame), consecutive starts exactly one patch apart, "
  "no patch reaching past the spectrogram, and none left out that would start before the last full patch. The patch contents are exactly the spectrogram columns from each start.",
  ["inputs", "configurations"], "all spectrogram lengths and patch sizes",
  "Tests use one spectrogram with one patch size.",
  ["image_patch_creator.cc"], [("segmentation", "image_patch_creator.cc CreateRefPatchIndices, CreatePatchesFromIndices")],
  ["ImagePatchCreator::CreateRefPatchIndices / CreatePatchesFromIndices"])

p("C13", "Speech-mode patches are exactly the blocks with voice activity",
  "Speech-mode segmentation splits the signal into consecutive blocks of one patch length and keeps exactly those in which at least one frame is voiced, in order, reporting an error (not a crash) for signals too short for one block. "
  "A frame is voiced unless it and both frames before it have an RMS level below 5000 (16-bit scale, after scaling the whole signal so that its largest, positive, sample is 1, values clamped to the 16-bit range); the first two frames are always voiced.",
  ["inputs", "histories"], "every sequence of loud and quiet frames and every signal length and patch size",
  "Tests use one recording and two hand-made chunks; hang-over state over arbitrary histories is not sampled.",
  ["vad_patch_creator.cc", "rms_vad.cc", "include/misc_math.h"],
  [("RMS detector with hang-over", "rms_vad.cc ProcessChunk, GetVadResults"), ("block selection", "vad_patch_creator.cc")],
  ["RmsVad", "VadPatchCreator::CreateRefPatchIndices"],
  [("vad_results_", "per-chunk presence with hang-over history", "rms_vad.h")])

p("C14", "Patch matching finds the best monotone assignment",
  "Reference patches are matched to degraded positions such that each match lies within the search window around its reference position, matches move strictly forward in time, and the total similarity is the maximum over all such assignments (all similarities being positive), where any patch but the first may be left unmatched. "
  "A matched patch is reported with the similarity and per-band values of that position and start/end times equal to position times frame duration; an unmatched patch is reported with zero similarity, zero band means and zero degraded times. Degraded positions past the end are padded with silence.",
  ["inputs"], "all similarity tables over all patch counts, spectrogram lengths, patch starts and window radii",
  "Tests check a few hand-made spectrograms; optimality over all assignments is never checked.",
  ["comparison_patches_selector.cc"],
  [("dynamic programme", "comparison_patches_selector.cc FindMostOptimalDegPatch"), ("back-trace", "comparison_patches_selector.cc FindMostOptimalDegPatches")],
  ["ComparisonPatchesSelector::FindMostOptimalDegPatches with a table-driven comparator"],
  [("cumulative_similarity_dp", "best total per patch and offset", "comparison_patches_selector.cc"), ("backtrace", "predecessor offset", "comparison_patches_selector.cc")])

p("C15", "Reference patches beyond the degraded signal are dropped, never invented",
  "When the degraded signal is shorter, exactly the trailing reference patches that start more than half a patch after its last frame are dropped (with a search radius of zero, already those that start after its last frame), all others are scored, and if none remains (or there is no reference patch) the comparison returns an error instead of a score.",
  ["inputs"], "all patch start lists, degraded lengths and patch sizes",
  "Tests check three lengths with one patch list.",
  ["comparison_patches_selector.cc"], [("patch count", "comparison_patches_selector.cc CalcMaxNumPatches")],
  ["number of results and status of FindMostOptimalDegPatches"])

p("C16", "Fine realignment never lowers a patch's similarity and keeps times consistent",
  "Realignment returns one result per coarse match, in order; unmatched patches are returned untouched; each result's similarity is at least the coarse one, and when the realigned measurement is lower the coarse result is returned unchanged. "
  "When it is used, the later-starting segment's start moves by exactly the recovered lag (the reference's for a positive lag, the degraded's for a negative one), the other start is kept, and both segments have the duration of the aligned audio.",
  ["inputs"], "all coarse matches x lags in both directions x realigned similarities above, equal and below the coarse one",
  "One test realigns two patches with one lag.",
  ["comparison_patches_selector.cc", "alignment.cc"],
  [("realignment", "comparison_patches_selector.cc FinelyAlignAndRecreatePatches")],
  ["ComparisonPatchesSelector::FinelyAlignAndRecreatePatches"])

p("C17", "Extracting a time segment returns the right samples, padded with silence",
  "The segment of a signal between two times, of which at least one sample lies within the signal, holds, in order, the samples from the start index up to (not including) the end index, keeps the sample rate, and adds silence before a negative start and for an end past the signal so that the segment has its full duration; it never contains samples from outside the interval.",
  ["inputs"], "all signal lengths, sample rates and start/end times, including negative starts and ends past the signal",
  "Tests slice one signal at three positions.",
  ["comparison_patches_selector.cc"], [("segment extraction", "comparison_patches_selector.cc Slice")],
  ["ComparisonPatchesSelector::Slice (through the tests' peer)"])

p("C18", "Global alignment recovers a constant delay",
  "Global alignment estimates the lag at which the upper envelopes of the two signals correlate best and removes it: leading samples of a late degraded signal are dropped, an early one gets leading zeros, and the reported lag is the shift in seconds, negative for a late signal. "
  "The delay of a burst surrounded by silence is recovered exactly. A lag of zero, of more than half the reference, or one that would leave nothing changes nothing and reports zero; sample rate, the reference and the order of the remaining samples are never changed.",
  ["inputs"], "all shifts and signal pairs of any relative length",
  "Tests align two recordings with one known lag, and cannot run here.",
  ["alignment.cc", "envelope.cc", "xcorr.cc"],
  [("lag estimate", "xcorr.cc FindLowestLagIndex on envelopes"), ("shift", "alignment.cc GloballyAlign")],
  ["Alignment::GloballyAlign"])

p("C19", "Aligned-and-truncated pairs have equal length and correspond sample for sample",
  "After aligning and truncating a pair of segments (whatever their lengths), both have the same length, the reference piece is a contiguous piece of the reference, the degraded piece is the same stretch of the degraded segment moved by exactly the reported lag, "
  "and, when the segments had equal lengths, no padding zeros added by the alignment remain.",
  ["inputs"], "all pairs of segments, all shifts in both directions",
  "One test, one pair; it cannot run here.",
  ["alignment.cc"], [("align and truncate", "alignment.cc AlignAndTruncate")],
  ["Alignment::AlignAndTruncate"])

p("C20", "Spectrogram frames are independent, complete and correctly placed",
  "Building a spectrogram fails with invalid-argument exactly when the signal is not longer than one analysis window; otherwise it has 1 + floor((samples - window) / hop) columns and one row per band, and column k depends only on the samples of the window starting at k hops: any other sample may change without changing it, and equal windows give equal columns.",
  ["inputs", "histories"], "all signal lengths, window sizes and signals; repeated builds with one builder",
  "Tests build three spectrograms and compare them with stored values.",
  ["gammatone_spectrogram_builder.cc", "gammatone_filterbank.cc", "signal_filter.cc", "analysis_window.cc"],
  [("framing loop", "gammatone_spectrogram_builder.cc Build"), ("state reset", "gammatone_filterbank.cc")],
  ["GammatoneSpectrogramBuilder::Build"])

p("C21", "The filter bank covers the band on the ERB scale and is linear and causal",
  "For every band count, sample rate and frequency range, the centre frequencies start at the minimum frequency, stay below the maximum, strictly increase and are equally spaced on the ERB scale, listed in the order of the spectrogram rows. "
  "Each band's filtering is linear, time-invariant and causal, is unaffected by signals filtered before a reset, and passes a tone at its own centre frequency more strongly than the bands away from it do.",
  ["inputs", "configurations"], "all band counts, rates and frequency limits; all input signals",
  "Tests compare stored coefficients for two configurations.",
  ["equivalent_rectangular_bandwidth.cc", "gammatone_filterbank.cc", "signal_filter.cc", "gammatone_spectrogram_builder.cc"],
  [("ERB spacing and coefficients", "equivalent_rectangular_bandwidth.cc MakeFilters"), ("cascaded IIR filters", "gammatone_filterbank.cc, signal_filter.cc")],
  ["EquivalentRectangularBandwidth::MakeFilters", "GammatoneFilterBank", "SignalFilter", "Spectrogram::GetCenterFreqBands"])

p("C22", "Spectrogram preparation applies the documented floors to both signals alike",
  "Preparing two spectrograms replaces every value by its level in dB (zero as the smallest positive level), raises it to at least -45 dB and, in frames present in both, to at least 45 dB below the loudest value of that frame in either spectrogram, then subtracts the lowest value of the two; "
  "so all values are non-negative, the smallest is zero, swapping the two spectrograms swaps the outputs, and frames present in only one get only the absolute floor.",
  ["inputs"], "all pairs of spectrograms of any (also unequal) sizes and values including zero, negative and tiny ones",
  "Tests check the single operations on one small matrix.",
  ["spectrogram.cc", "misc_audio.cc"],
  [("floors", "spectrogram.cc RaiseFloor, RaiseFloorPerFrame, SubtractFloor"), ("sequence", "misc_audio.cc PrepareSpectrogramsForComparison")],
  ["MiscAudio::PrepareSpectrogramsForComparison", "Spectrogram methods"])

p("C23", "The score does not depend on the playback level of the degraded signal",
  "The degraded signal is scaled to the reference's sound pressure level without changing its shape or sample rate, so multiplying a degraded signal by any positive constant does not change any field of the result (up to rounding), and a silent degraded signal is handled without an invalid score.",
  ["inputs"], "all signals and positive gains, including silent ones",
  "One test scales one pair of recordings.",
  ["misc_audio.cc", "visqol.cc"], [("level matching", "misc_audio.cc ScaleToMatchSoundPressureLevel, called in visqol.cc")],
  ["MiscAudio::ScaleToMatchSoundPressureLevel", "result of a comparison under gain"])

p("C24", "Patch similarity is a bounded, symmetric index that is 1 on identical patches",
  "For every pair of equally sized patches of non-negative values, the similarity is the mean over bands of the band means of intensity times structure computed over a 3x3 neighbourhood with replicated borders: symmetric in the two patches, 1 with zero band deviations when they are identical, and never above 1. The reported band deviations and degraded energies are those of that map and of the degraded patch.",
  ["inputs"], "all patch sizes (including one row or one column) and values",
  "One test compares one pair with a stored value; symmetry, bounds and the border are not exercised.",
  ["neurogram_similiarity_index_measure.cc", "convolution_2d.cc", "amatrix.cc"],
  [("NSIM", "neurogram_similiarity_index_measure.cc"), ("windowed sums with replicated border", "convolution_2d.cc")],
  ["NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity", "Convolution2D::Valid2DConvWithBoundary"])

p("C25", "Per-band features aggregate the patches as defined",
  "FVNSIM and degraded energy are the per-band means over patches, FVNSIM10 the mean of the lowest tenth of the patch values (at least one), and FSTDNSIM the pooled standard deviation weighted by patch length; VNSIM is the mean of FVNSIM. Reordering the patches changes none of them, and an undefined (negative) variance is reported as zero.",
  ["inputs"], "all numbers of patches and bands, values, patch durations",
  "Tests check one quantile example and one stored deviation.",
  ["visqol.cc"], [("aggregation functions", "visqol.cc CalcPerPatch*")],
  ["Visqol::CalculateSimilarity through stubbed components"])

p("C26", "The speech quality mapping is monotone, clamped, and anchored",
  "The exponential mapping sends the mean similarity to a score in [1, 5] that never decreases when the similarity increases: a perfect similarity scores 5.0 scaled and about 4.016 unscaled, and between the clamps the scaled and unscaled scores keep a fixed ratio. Only the mean of the band similarities matters. Comparisons whose overall similarity is below 0.15 score 1 in every mode.",
  ["inputs", "configurations"], "all similarity vectors, both scalings",
  "Tests check two anchor values.",
  ["speech_similarity_to_quality_mapper.cc", "visqol.cc"],
  [("exponential fit", "speech_similarity_to_quality_mapper.cc PredictQuality"), ("dissimilarity rule", "visqol.cc AlterForSimilarityExtremes")],
  ["SpeechSimilarityToQualityMapper::PredictQuality", "Visqol::CalculateSimilarity"])

p("C27", "Support-vector models load or fail cleanly, and predict consistently",
  "Loading a model file that is missing or not a model returns an invalid-argument error; loading a valid one gives predictions equal to the model's decision function on exactly the given observations in order, limited to [1, 5] for quality scores. A model trained from data is the nu-support-vector regression of that data with an RBF kernel and the documented parameters (C 0.4, nu 0.6, gamma one over the number of features, tolerance 0.001), and predictions do not depend on earlier predictions or other instances.",
  ["inputs", "histories", "fault_sequences"], "all observation vectors (including zeros), all training sets, all orders of load/train/predict, missing or corrupt files",
  "Tests make one prediction from one model and train one model.",
  ["support_vector_regression_model.cc", "svr_similarity_to_quality_mapper.cc", "libsvm_target_observation_convertor.cc", "svr_training/training_data_file_reader.h"],
  [("model wrapper", "support_vector_regression_model.cc"), ("clamp", "svr_similarity_to_quality_mapper.cc"), ("observation conversion", "libsvm_target_observation_convertor.cc")],
  ["SupportVectorRegressionModel", "SvrSimilarityToQualityMapper", "TrainingDataFileReader"])

p("C28", "The lattice mapping feeds every feature to its own input",
  "The lattice mapping fails with an error when its model cannot be loaded; otherwise each prediction sets, for every band, the mean, low-quantile, deviation and energy inputs of that band to the corresponding feature and the quantile input to 0.5, runs the model once, and returns its prediction unchanged by earlier predictions.",
  ["inputs", "histories"], "all feature vectors and prediction sequences",
  "One test compares one prediction and cannot run here.",
  ["tflite_quality_mapper.cc"], [("tensor filling by name", "tflite_quality_mapper.cc PredictQuality")],
  ["TFLiteQualityMapper against a recording stand-in for TFLite"])

p("C29", "Transforms and cross-correlation are exact up to rounding",
  "Transforming a signal of any length to the frequency domain and back returns the signal, zero-padded as requested; the forward transform is the discrete Fourier transform with conjugate-symmetric mirror. The cross-correlation lag is the shift that maximises the correlation of the two signals, with the documented sign, for all lengths of at least nine samples.",
  ["inputs"], "all signal lengths (powers of two or not), pairs of unequal length, shifts in both directions",
  "Tests use one or two fixed vectors and cannot run here.",
  ["fft_manager.cc", "fast_fourier_transform.cc", "xcorr.cc"],
  [("transform wrapper", "fft_manager.cc, fast_fourier_transform.cc"), ("lag search", "xcorr.cc")],
  ["FastFourierTransform::Forward1d / Inverse1d / Inverse1dConjSym", "XCorr::FindLowestLagIndex"])

p("C30", "Matrix operations obey their definitions for every shape",
  "For all shapes, element access, row/column extraction and replacement, joining, transposition, flipping, resizing, per-dimension mean and standard deviation, arithmetic and comparison return what their definitions say and leave operands unchanged; two matrices are equal only if shapes and elements are; a matrix built from a buffer owns its data.",
  ["inputs"], "all shapes including single rows/columns and non-square ones",
  "Tests use one 3x3-like example per operation.",
  ["amatrix.cc", "include/amatrix.h", "misc_math.cc", "misc_vector.cc"],
  [("matrix wrapper", "amatrix.cc"), ("helpers", "misc_math.cc, misc_vector.cc, include/misc_math.h")],
  ["AMatrix public operations", "MiscMath, MiscVector functions"])

p("C31", "A signal compared with itself scores as identical",
  "Comparing any scoreable signal with itself (or with itself at another level) gives a similarity of 1 in every band and patch, zero lag and matches at the reference positions, the scaled speech score 5 and unscaled about 4.016; comparing it with a delayed copy of itself reports that delay and still gives a similarity close to 1.",
  ["inputs", "configurations"], "all signals, sample rates, modes and delays",
  "Tests check the identity score of two recordings and cannot run here.",
  ["visqol_manager.cc", "visqol.cc", "comparison_patches_selector.cc", "alignment.cc"],
  [("whole pipeline", "visqol_manager.cc Run")],
  ["VisqolManager::Run"])

p("C32", "Published reference scores are reproduced",
  "For the bundled recordings, the default models and options reproduce the published conformance scores for audio mode and for speech mode with the exponential mapping.",
  ["configurations"], "the published conformance table (finite)",
  "The conformance tests are not runnable in the offline build (they need pffft and TFLite).",
  ["include/conformance.h", "visqol_manager.cc", "visqol.cc"],
  [("whole pipeline", "visqol_manager.cc Run")],
  ["VisqolManager::Run on testdata"])

p("C33", "Scores agree with human listeners",
  "Scores track the mean opinion of human listeners on material similar to the training data.",
  ["inputs"], "all recordings and listeners",
  "No oracle exists in the repository.",
  ["visqol.cc"], [("model", "model/")], ["MOS-LQO"])

p("C34", "Resource use is bounded by the live objects and the input; accesses in bounds",
  "What the process holds (heap memory, open files) depends only on which objects are alive and what they were last initialised with: repeating any "
  "sequence of operations - loading audio, comparing, initialising again, loading or training models, predicting, reading batches, writing results - with good or "
  "failing inputs does not make it grow, and destroying an object gives back what it held. The peak memory and CPU time of one comparison grow "
  "no faster than the product of the two lengths, those of loading, alignment, spectrograms and segmentation no faster than the length (up to a logarithm), and a batch needs "
  "no more than its largest pair plus the list of pairs. No operation, whatever its input, reads or writes memory out of bounds or after it was freed.",
  ["inputs", "histories"], "all inputs and all histories of operations on objects, however often repeated",
  "Unit tests run each operation once in a short-lived process and assert on values only; leaks, growth with repetition and stray reads leave the values unchanged.",
  ["support_vector_regression_model.cc", "amatrix.cc", "comparison_patches_selector.cc", "misc_audio.cc", "wav_reader.cc", "fft_manager.cc", "similarity_results_writer.cc", "visqol_manager.cc"],
  [("model ownership", "support_vector_regression_model.cc destructor and Init"), ("transform buffers", "fft_manager.cc, include/audio_channel.h"),
   ("bounds-checked matrices", "amatrix.cc"), ("matching tables", "comparison_patches_selector.cc FindMostOptimalDegPatches"), ("per-pair loop", "main.cc")],
  ["heap blocks and bytes, open files, peak memory and CPU time of the process"],
  [("what objects own", "nothing, a loaded or trained model, or a pipeline", "spec/Resources.tla Owns")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
