From be03741998bad22c0cae58a78dc431364d887235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 01/23] fix: do not read past the WAV data chunk in ReadSamples

ReadSamples clamped the request to the remaining samples but then read the
unclamped count, returning bytes that follow the data chunk as samples and
underflowing the remaining-sample counter.
---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..da9672f 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -239,7 +239,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From 0f2454e7447b87a4c17c730577d433e9e29a1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 02/23] fix: do not index before the first patch when every
 reference patch is dropped

---
 src/comparison_patches_selector.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..06eab72 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -121,9 +121,9 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
 
   if (num_patches) {
     // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
+    while (num_patches && ref_patch_indices[num_patches - 1] -
+                                  floor(num_frames_per_patch / 2) >
+                              num_frames_in_deg_spectro) {
       num_patches--;
     }
   }
-- 
2.43.0


From 65398131fc9d07f8c9a9e3b48ea426255a534de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 03/23] fix: report an error instead of crashing when there are
 no reference patches

---
 src/comparison_patches_selector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 06eab72..a73db16 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -137,6 +137,10 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
+  if (ref_patches.empty()) {
+    return absl::Status(absl::StatusCode::kCancelled,
+                        "There are no reference patches to score.");
+  }
   const size_t num_frames_per_patch = ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
-- 
2.43.0


From 6db1fb733539038858d8bfe96c93f5b061750e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 04/23] fix: drop reference patches whose search window holds
 no degraded patch

---
 src/comparison_patches_selector.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index a73db16..00759d0 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -145,8 +145,14 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
   const int search_window = search_window_radius * num_frames_per_patch;
-  const size_t num_patches = CalcMaxNumPatches(
+  size_t num_patches = CalcMaxNumPatches(
       ref_patch_indices, num_frames_in_deg_spectro, num_frames_per_patch);
+  // A patch whose whole search window lies past the end of the degraded
+  // spectrogram has nothing to be compared with.
+  while (num_patches && ref_patch_indices[num_patches - 1] >=
+                            num_frames_in_deg_spectro + search_window) {
+    num_patches--;
+  }
 
   if (!num_patches) {
     return absl::Status(
-- 
2.43.0


From 511b01ef7de6ff6937709b47bcda4e8302dd0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 05/23] fix: reject a negative search window radius instead of
 reading an unset offset

---
 src/comparison_patches_selector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 00759d0..2ae55e6 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -137,6 +137,10 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
+  if (search_window_radius < 0) {
+    return absl::InvalidArgumentError(
+        "The search window radius must not be negative.");
+  }
   if (ref_patches.empty()) {
     return absl::Status(absl::StatusCode::kCancelled,
                         "There are no reference patches to score.");
-- 
2.43.0


From 9eca38686ecdabf9b6ff13de2ac02fc443804f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:03 +0000
Subject: [PATCH 06/23] fix: report an error for a reference too short for one
 speech patch

---
 src/vad_patch_creator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..c84c930 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -18,6 +18,7 @@
 #include <numeric>
 #include <vector>
 
+#include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "amatrix.h"
 #include "analysis_window.h"
@@ -63,6 +64,10 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
+  if (spectrum_length < first_patch_idx + patch_size_) {
+    return absl::InvalidArgumentError(
+        "The reference signal is too short for a single patch.");
+  }
   const size_t patch_count = (spectrum_length - first_patch_idx) / patch_size_;
   const size_t total_sample_count = patch_count * patch_sample_len;
   std::vector<size_t> refPatchIndices;
-- 
2.43.0


From 512613e67a0a051522c46dd0e0d489b7ccc2e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 07/23] fix: do not scale a silent degraded signal by infinity

---
 src/misc_audio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/misc_audio.cc b/src/misc_audio.cc
index 9fb14a6..04479c1 100644
--- a/src/misc_audio.cc
+++ b/src/misc_audio.cc
@@ -40,6 +40,10 @@ AudioSignal MiscAudio::ScaleToMatchSoundPressureLevel(
   const double ref_spl = MiscAudio::CalcSoundPressureLevel(reference);
   const double deg_spl = MiscAudio::CalcSoundPressureLevel(degraded);
   const double scale_factor = std::pow(10, (ref_spl - deg_spl) / 20);
+  if (!std::isfinite(scale_factor)) {
+    // A silent degraded signal has no level that could be matched.
+    return degraded;
+  }
   const auto scaled_mat = degraded.data_matrix * scale_factor;
   AudioSignal scaled_sig{std::move(scaled_mat), degraded.sample_rate};
   return scaled_sig;
-- 
2.43.0


From 0665908c08fb0e60029f069e2fe4f3d52c4d1a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 08/23] fix: a failed re-initialization leaves VisqolManager
 uninitialized

---
 src/visqol_manager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..859a65b 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -53,6 +53,8 @@ absl::Status VisqolManager::Init(
     const FilePath& similarity_to_quality_mapper_model, bool use_speech_mode,
     bool use_unscaled_speech, int search_window, bool use_lattice_model,
     bool disable_global_alignment, bool disable_realignment) {
+  // Not usable until this initialization has succeeded.
+  is_initialized_ = false;
   use_speech_mode_ = use_speech_mode;
   use_unscaled_speech_mos_mapping_ = use_unscaled_speech;
   search_window_ = search_window;
-- 
2.43.0


From 2a9cd3716e012fa9cc9dfd727a802c24486153ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 09/23] fix: reject empty and unreadable input signals instead
 of crashing

---
 src/include/audio_signal.h | 2 +-
 src/visqol_manager.cc      | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 859a65b..03e4a07 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -241,6 +241,14 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if there is nothing to compare, e.g. a file could not be read.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0 ||
+      ref_signal.sample_rate == 0) {
+    return absl::InvalidArgumentError(
+        "Input audio signals must not be empty or have no sample rate.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From 1e53cb6bd9002a37b5c373c6b61f7215bd550b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:48 +0000
Subject: [PATCH 10/23] fix: do not free an uninitialized SVR model pointer

---
 src/include/support_vector_regression_model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/support_vector_regression_model.h b/src/include/support_vector_regression_model.h
index 57c131a..db9d880 100644
--- a/src/include/support_vector_regression_model.h
+++ b/src/include/support_vector_regression_model.h
@@ -75,7 +75,7 @@ class SupportVectorRegressionModel {
   /**
    * The svm model provided by the LIBSVM library.
    */
-  svm_model* model_;
+  svm_model* model_ = nullptr;
 
   /**
    * Accessing the LibSVM external libraries for loading the model must be
-- 
2.43.0


From d842c940cbc40fd1b6a43d1ce5fb8b2c6e069efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:48 +0000
Subject: [PATCH 11/23] fix: a failed VisqolApi::Create leaves the instance
 unusable

---
 src/visqol_api.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 42a6b17..080f642 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -32,6 +32,9 @@ namespace Visqol {
 const size_t VisqolApi::k48kSampleRate = 48000;
 
 absl::Status VisqolApi::Create(const VisqolConfig config) {
+  // Not usable until this creation has succeeded.
+  visqol_ = VisqolManager();
+
   // If audio info was not supplied, return error.
   if (!config.has_audio()) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
-- 
2.43.0


From da2a0bad8f932c1d3e19881d206dda9ea2f2087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 12/23] fix: AMatrix built from an rvalue vector owns its data

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 5697821..6741a27 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -62,7 +62,7 @@ inline AMatrix<T>::AMatrix(const std::vector<std::vector<T>>& vecOfCols) {
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols, std::vector<T>&& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols, false);
+  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
-- 
2.43.0


From 48b18d11df4b681815657682ad4704d431a0490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 13/23] fix: AMatrix objects with different column counts are
 not equal

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 6741a27..8754efc 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -125,7 +125,7 @@ inline AMatrix<T>& AMatrix<T>::operator=(const AMatrix<T>& other) {
 template <typename T>
 inline bool AMatrix<T>::operator==(const AMatrix<T>& other) const {
   if (matrix_.n_rows != other.matrix_.n_rows) return false;
-  if (matrix_.n_cols != other.matrix_.n_cols) return true;
+  if (matrix_.n_cols != other.matrix_.n_cols) return false;
   return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());
   // Why doesn't == work when documentation says it does? matrix_ ==
   // other.matrix_;
-- 
2.43.0


From e2a82f9eaf4695515eb460a48a79f227d27c51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 14/23] fix: skip blank and incomplete lines of a batch file
 instead of crashing

---
 src/commandline_parser.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..05989cd 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,7 +200,7 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
       std::istringstream in(line);
@@ -208,7 +208,10 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      // Skip lines that do not name a pair of files, e.g. blank lines.
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      }
       line_file_paths.clear();
     }
     fin.close();
-- 
2.43.0


From ad6b87bd0172f0591bf82ece4e55191185007aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 15/23] fix: AlignAndTruncate drops exactly the lag, not one
 sample less after rounding

---
 src/alignment.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..edcaa11 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -14,6 +14,7 @@
 
 #include "alignment.h"
 
+#include <cmath>
 #include <memory>
 #include <utility>
 
@@ -45,11 +46,11 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
     // For positive lag, the beginning of ref is now aligned with zeros, so
     // that amount should be truncated.
     new_reference_matrix = reference_matrix.GetRows(
-        static_cast<int>(lag * reference_signal.sample_rate),
+        std::lround(lag * reference_signal.sample_rate),
         reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
     new_degraded_matrix = degraded_matrix.GetRows(
-        static_cast<int>(lag * degraded_signal.sample_rate),
+        std::lround(lag * degraded_signal.sample_rate),
         reference_matrix.NumRows() - 1);
   }
 
-- 
2.43.0


From 53aaa556d88e2b78c8d1e2b5eb71b3d1b5dad0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:30 +0000
Subject: [PATCH 16/23] fix: GloballyAlign keeps a degraded signal that the lag
 would remove entirely

---
 src/alignment.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index edcaa11..d235dae 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -74,7 +74,8 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   // Limit the lag to half a patch.
   if (best_lag == 0 ||
       std::abs(best_lag) >
-          static_cast<double>(reference_matrix.NumRows()) / 2.0) {
+          static_cast<double>(reference_matrix.NumRows()) / 2.0 ||
+      -best_lag >= static_cast<int64_t>(degraded_matrix.NumRows())) {
     return std::make_tuple(degraded_signal, 0);
   } else {
     // align degraded matrix
-- 
2.43.0


From 176cf053f500e36bced4f6eb24dae44c8b794a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:10 +0000
Subject: [PATCH 17/23] fix: reject negative sample rates in VisqolApi::Create

---
 src/visqol_api.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 080f642..6349b7d 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -44,13 +44,13 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   // Read the sample rate for the input signals.
   // The sample rate must be the same for both signals.
   auto audio_info = config.audio();
-  sample_rate_ = audio_info.sample_rate();
 
-  // Ensure a sample rate value was provided.
-  if (sample_rate_ == 0) {
+  // Ensure a valid sample rate value was provided.
+  if (audio_info.sample_rate() <= 0) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
                         "The sample rate for the signals must be set.");
   }
+  sample_rate_ = audio_info.sample_rate();
 
   // Read the config options if they were set. Else, use default values.
   bool speech_mode = false;
-- 
2.43.0


From a308df0463c6df347a45d315cc3500a7ed75a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:28 +0000
Subject: [PATCH 18/23] fix: keep offsets outside of the search window out of
 the patch matching

---
 src/comparison_patches_selector.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 2ae55e6..8d796fd 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -173,9 +173,12 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   }
   // The vector to store the similarity results
   std::vector<PatchSimilarityResult> bestDegPatches(num_patches);
+  // Offsets outside of a patch's search window stay at the lowest score, so
+  // that they are never preferred to a match, whose score may be negative.
   std::vector<std::vector<double>> cumulative_similarity_dp(
       ref_patch_indices.size(),
-      std::vector<double>(spectrogram_data.NumCols()));
+      std::vector<double>(spectrogram_data.NumCols(),
+                          std::numeric_limits<double>::lowest()));
   std::vector<std::vector<int>> backtrace(
       ref_patch_indices.size(), std::vector<int>(spectrogram_data.NumCols()));
   std::vector<ImagePatch> deg_patches(spectrogram_data.NumCols());
-- 
2.43.0


From 48732741fb096b414331f7f664d38ba8f90eb7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:03 +0000
Subject: [PATCH 19/23] fix: truncate an aligned pair whose degraded part is
 longer and early

---
 src/alignment.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index d235dae..e0387eb 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -44,14 +44,14 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
         reference_matrix.GetRows(0, degraded_matrix.NumRows() - 1);
   } else if (reference_matrix.NumRows() < degraded_matrix.NumRows()) {
     // For positive lag, the beginning of ref is now aligned with zeros, so
-    // that amount should be truncated.
-    new_reference_matrix = reference_matrix.GetRows(
-        std::lround(lag * reference_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    // that amount should be truncated. For negative lag there are no zeros.
+    const int64_t num_zeros = std::max<int64_t>(
+        0, std::lround(lag * reference_signal.sample_rate));
+    new_reference_matrix =
+        reference_matrix.GetRows(num_zeros, reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
-    new_degraded_matrix = degraded_matrix.GetRows(
-        std::lround(lag * degraded_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    new_degraded_matrix =
+        degraded_matrix.GetRows(num_zeros, reference_matrix.NumRows() - 1);
   }
 
   AudioSignal new_degraded_signal{new_degraded_matrix,
-- 
2.43.0


From df2bd861b41c379efb3b908debfc47977205d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 20/23] fix: reject WAV sample depths of 17 to 23 bits, which
 were read as 16

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index da9672f..f087409 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -173,7 +173,7 @@ bool WavReader::ParseHeader() {
   sample_rate_hz_ = header.format.samples_rate;
 
   bytes_per_sample_ = header.format.bits_per_sample / 8;
-  if (bytes_per_sample_ == 0 || bytes_per_sample_ != sizeof(int16_t)) {
+  if (header.format.bits_per_sample != 8 * sizeof(int16_t)) {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Expected 16bit samples.");
     return false;
   }
-- 
2.43.0


From 07ff4cc552057a78f978b4c33e7968f78afbb3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:09 +0000
Subject: [PATCH 21/23] fix: free the previous model when an SVR model object
 is initialised again

---
 src/include/support_vector_regression_model.h |  5 +++++
 src/support_vector_regression_model.cc        | 20 +++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/include/support_vector_regression_model.h b/src/include/support_vector_regression_model.h
index db9d880..04289f6 100644
--- a/src/include/support_vector_regression_model.h
+++ b/src/include/support_vector_regression_model.h
@@ -72,6 +72,11 @@ class SupportVectorRegressionModel {
   double Predict(const MlObservation& observation) const;
 
  private:
+  /**
+   * Frees the LIBSVM model and the observations, if there are any.
+   */
+  void Clear();
+
   /**
    * The svm model provided by the LIBSVM library.
    */
diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index aba8435..18a0e14 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -30,21 +30,27 @@ absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 SupportVectorRegressionModel::SupportVectorRegressionModel()
     : observations_ptr_{nullptr}, num_observations_{0} {}
 
-SupportVectorRegressionModel::~SupportVectorRegressionModel() {
+SupportVectorRegressionModel::~SupportVectorRegressionModel() { Clear(); }
+
+void SupportVectorRegressionModel::Clear() {
   if (model_) {
     svm_free_model_content(model_);
     svm_free_and_destroy_model(&model_);
-    // Free the 2D array of observations.
-    for (size_t i = 0; i < num_observations_; ++i) {
-      free(observations_ptr_[i]);
-    }
-    free(observations_ptr_);
   }
+  // Free the 2D array of observations.
+  for (size_t i = 0; i < num_observations_; ++i) {
+    free(observations_ptr_[i]);
+  }
+  free(observations_ptr_);
+  observations_ptr_ = nullptr;
+  num_observations_ = 0;
 }
 
 void SupportVectorRegressionModel::Init(
     const std::vector<MlObservation>& observations,
     const std::vector<MlTarget>& targets) {
+  Clear();
+
   // Assumes all observations have same number of features
   size_t num_features = observations[0].size();
 
@@ -97,6 +103,8 @@ double SupportVectorRegressionModel::Predict(
 }
 
 absl::Status SupportVectorRegressionModel::Init(const FilePath& model_path) {
+  Clear();
+
   absl::MutexLock lock(&load_model_mutex_);
   model_ = svm_load_model(model_path.Path().c_str());
 
-- 
2.43.0


From e0701743240aba0a5b205c407fa46a5dc6ac7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:23 +0000
Subject: [PATCH 22/23] fix: a path that cannot be looked up does not exist,
 rather than ending the program

---
 src/include/file_path.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/file_path.h b/src/include/file_path.h
index 5a9a9c3..688c120 100644
--- a/src/include/file_path.h
+++ b/src/include/file_path.h
@@ -20,6 +20,7 @@
 #include <filesystem>
 #include <fstream>
 #include <string>
+#include <system_error>
 
 #include "absl/strings/string_view.h"
 
@@ -36,7 +37,11 @@ class FilePath {
 
   const std::string Path() const { return path_; }
 
-  bool Exists() const { return std::filesystem::exists(path_); }
+  bool Exists() const {
+    // A path that cannot be looked up, e.g. as it is too long, names no file.
+    std::error_code error;
+    return std::filesystem::exists(path_, error);
+  }
 
   static std::string currentWorkingDir() {
     return std::filesystem::current_path().string();
-- 
2.43.0


From 97707e22ae73f208b059ddd721dc2b0355017091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:55 +0000
Subject: [PATCH 23/23] fix: a working directory that was removed no longer
 ends the program

---
 src/include/file_path.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/file_path.h b/src/include/file_path.h
index 688c120..15bcecf 100644
--- a/src/include/file_path.h
+++ b/src/include/file_path.h
@@ -44,7 +44,9 @@ class FilePath {
   }
 
   static std::string currentWorkingDir() {
-    return std::filesystem::current_path().string();
+    // Empty where there is none, e.g. as the directory was removed.
+    std::error_code error;
+    return std::filesystem::current_path(error).string();
   }
 
  private:
-- 
2.43.0

