From 6883ce2011301cf74df7b6ee996a2b3362fa689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 01/48] fix: mlsd_comparator: compare recordings that have a
 single frame

np.squeeze() turned the distances of a recording shorter than one hop into a
0-dimensional array, on which the detectors raise a TypeError.
---
 validation/mlsd_comparator/mlsd_comparator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validation/mlsd_comparator/mlsd_comparator.py b/validation/mlsd_comparator/mlsd_comparator.py
index b23c684..d9e73be 100644
--- a/validation/mlsd_comparator/mlsd_comparator.py
+++ b/validation/mlsd_comparator/mlsd_comparator.py
@@ -76,8 +76,8 @@ def calc_per_channel_mlsd_pcm(
     # Average across mel bins, which is the 0th dimension
     mlsd_per_frame = np.sqrt(np.mean(diff_squared, axis=0))
 
-    # shape: (1, num_frames) -> (num_frames,)
-    mlsd_per_frame = np.squeeze(mlsd_per_frame)
+    # shape: (1, num_frames) -> (num_frames,), also when there is one frame.
+    mlsd_per_frame = np.atleast_1d(np.squeeze(mlsd_per_frame))
 
     mlsd_list.append(mlsd_per_frame)
 
-- 
2.43.0


From 91cc8d1dec01016c35997db6cef0f2ee8649ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 02/48] fix: numeric_utils: compare by value in
 StaticCastIfInRange

A conversion between types of different signedness compared after the usual
arithmetic conversions: -1 was accepted as a uint32_t and 5u was refused as an
int32_t.
---
 iamf/common/utils/numeric_utils.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/iamf/common/utils/numeric_utils.h b/iamf/common/utils/numeric_utils.h
index b284e90..db73b37 100644
--- a/iamf/common/utils/numeric_utils.h
+++ b/iamf/common/utils/numeric_utils.h
@@ -98,7 +98,20 @@ absl::Status StaticCastIfInRange(absl::string_view field_name, InputType input,
       std::is_same_v<InputType, char> && std::is_same_v<OutputType, uint8_t>;
   constexpr OutputType kMinOutput = std::numeric_limits<OutputType>::min();
   constexpr OutputType kMaxOutput = std::numeric_limits<OutputType>::max();
-  bool is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  // Compare by value. The usual arithmetic conversions could change the value
+  // of a negative operand when the types differ in signedness.
+  bool is_in_range;
+  if constexpr (std::is_signed_v<InputType> && !std::is_signed_v<OutputType>) {
+    is_in_range =
+        input >= 0 &&
+        static_cast<std::make_unsigned_t<InputType>>(input) <= kMaxOutput;
+  } else if constexpr (!std::is_signed_v<InputType> &&
+                       std::is_signed_v<OutputType>) {
+    is_in_range = input <= static_cast<std::make_unsigned_t<OutputType>>(
+                               kMaxOutput);
+  } else {
+    is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  }
 
   if (is_in_range || is_char_to_raw_bytes) [[likely]] {
     output = static_cast<OutputType>(input);
-- 
2.43.0


From 4a3c02688f3e04bdb52cfd486ecd91291cd35a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 03/48] fix: validation_utils: do not narrow a size before
 comparing it

A container of 256 + n elements passed as having a uint8_t count of n.
---
 iamf/common/utils/validation_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/common/utils/validation_utils.h b/iamf/common/utils/validation_utils.h
index e35681c..05c72c0 100644
--- a/iamf/common/utils/validation_utils.h
+++ b/iamf/common/utils/validation_utils.h
@@ -41,7 +41,7 @@ absl::Status ValidateContainerSizeEqual(absl::string_view field_name,
                                         const Container& container,
                                         ReportedSize reported_size) {
   const auto actual_size = container.size();
-  if (static_cast<ReportedSize>(actual_size) == reported_size) [[likely]] {
+  if (std::cmp_equal(actual_size, reported_size)) [[likely]] {
     return absl::OkStatus();
   }
   return absl::InvalidArgumentError(absl::StrCat(
-- 
2.43.0


From 2064466d74b597663c183b77804a101c2df979cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 04/48] fix: refuse to encode after Finalize() while frames are
 still pending

---
 iamf/cli/codec/encoder_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/codec/encoder_base.h b/iamf/cli/codec/encoder_base.h
index be14cda..a0e4cd5 100644
--- a/iamf/cli/codec/encoder_base.h
+++ b/iamf/cli/codec/encoder_base.h
@@ -169,7 +169,8 @@ class EncoderBase {
    * \return `absl::OkStatus()` on success. A specific status on failure.
    */
   absl::Status ValidateNotFinalized() {
-    if (Finished()) {
+    absl::MutexLock lock(mutex_);
+    if (finished_) {
       return absl::InvalidArgumentError(
           "Encoding is disallowed after `Finalize()` has been called");
     }
-- 
2.43.0


From 92149c13d273baf160f0e79708bdab52613abb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 05/48] fix: check the length of every channel before encoding
 a frame

---
 iamf/cli/codec/encoder_base.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/codec/encoder_base.cc b/iamf/cli/codec/encoder_base.cc
index 307d34c..f26adb2 100644
--- a/iamf/cli/codec/encoder_base.cc
+++ b/iamf/cli/codec/encoder_base.cc
@@ -41,11 +41,13 @@ absl::Status EncoderBase::ValidateInputSamples(
     return absl::InvalidArgumentError("samples cannot be empty.");
   }
 
-  if (samples[0].size() != num_samples_per_frame_) {
-    auto error_message = absl::StrCat("Found ", samples[0].size(),
-                                      " samples per channels. Expected ",
-                                      num_samples_per_frame_, ".");
-    return absl::InvalidArgumentError(error_message);
+  for (const auto& channel : samples) {
+    if (channel.size() != num_samples_per_frame_) {
+      auto error_message = absl::StrCat("Found ", channel.size(),
+                                        " samples per channels. Expected ",
+                                        num_samples_per_frame_, ".");
+      return absl::InvalidArgumentError(error_message);
+    }
   }
 
   return absl::OkStatus();
-- 
2.43.0


From 7900c1cbcf6c5baaa980bd44e328896c006cad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 06/48] fix: wav_file_splicer: remove the metadata of the LFE
 channel, not of the next one

---
 iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 742cd50..f69eaca 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -595,8 +595,9 @@ absl::Status SeparateLfeAndConvertTo3OA(
   // ADM.
   ADM non_lfe_adm = reader.adm_;
   for (int index = lfe_count - 1; index >= 0; --index) {
+    // The LFE IDs are 1-indexed.
     non_lfe_adm.audio_channels.erase(non_lfe_adm.audio_channels.begin() +
-                                     lfe_ids[index]);
+                                     lfe_ids[index] - 1);
   }
 
   // Modify FormatInfoChunk with non-LFE channel count before invoking the
-- 
2.43.0


From bb976c185daf9a5aec7694316df74a25063da508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 07/48] fix: wav_file_splicer: refuse a data chunk that ends
 within a frame

---
 .../adm_to_user_metadata/adm/wav_file_splicer.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index f69eaca..ee2f1eb 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -647,12 +647,23 @@ absl::Status SpliceWavFilesFromAdm(
       return absl::NotFoundError("No audioObject present.");
     };
 
+    // Frames which are only partially in the `data` chunk can not be spliced.
+    const FormatInfoChunk& wav_file_fmt = reader.format_info_;
+    const int32_t bytes_per_sample =
+        static_cast<int32_t>(wav_file_fmt.bits_per_sample) / kBitsPerByte;
+    const int32_t channels = wav_file_fmt.num_channels;
+    const auto total_samples_per_channel = CalculateTotalSamplesPerChannel(
+        data_chunk_info->size,
+        static_cast<size_t>(bytes_per_sample) * channels);
+    if (!total_samples_per_channel.ok()) {
+      return total_samples_per_channel.status();
+    }
+
     // Construct the wav writers to use a file name of the form 'converted'
     // followed by the 1-indexed content.
     std::vector<std::unique_ptr<WavWriter>> audio_object_index_to_wav_writer;
     audio_object_index_to_wav_writer.reserve(
         audio_tracks_for_audio_objects.size());
-    const FormatInfoChunk& wav_file_fmt = reader.format_info_;
     for (size_t audio_object_index = 0;
          audio_object_index < audio_tracks_for_audio_objects.size();
          ++audio_object_index) {
@@ -680,9 +691,6 @@ absl::Status SpliceWavFilesFromAdm(
     // audio tracks, based on the mapping specified in
     // 'audio_tracks_for_audio_objects'. Write the audio track data to
     // corresponding `WavWriter`s.
-    const int32_t bytes_per_sample =
-        static_cast<int32_t>(wav_file_fmt.bits_per_sample) / kBitsPerByte;
-    const int32_t channels = wav_file_fmt.num_channels;
     for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info->size;
          data_chunk_pos += static_cast<size_t>(bytes_per_sample) * channels) {
       for (size_t audio_object_index = 0;
-- 
2.43.0


From cafeb536dee84fe3f9e0e6b8995eaf0eff0d999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 08/48] fix: adm: keep the tracks of an audioObject when other
 objects are ignored

---
 .../adm_to_user_metadata/adm/adm_elements.h   |  3 ++
 .../adm/wav_file_splicer.cc                   | 47 +++++++++++--------
 .../adm_to_user_metadata/adm/xml_to_adm.cc    |  7 +++
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
index da90e4a..b465e05 100644
--- a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
+++ b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
@@ -94,6 +94,9 @@ struct AudioObject {
   std::vector<std::string> audio_pack_format_id_refs;
   std::vector<std::string> audio_comple_object_id_ref;
   std::vector<std::string> audio_track_uid_ref;
+  // Index of the first track of this object among the tracks of the file. The
+  // tracks of all objects are consecutive, including those of ignored objects.
+  int32_t first_audio_track_index = 0;
 };
 
 // This structure holds the attributes of an audio pack format in ADM.
diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index ee2f1eb..6d84015 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -74,12 +74,12 @@ std::vector<std::vector<int32_t>> GetAudioTracksForAudioObjects(
   std::vector<std::vector<int32_t>> audio_tracks_for_audio_objects(
       audio_objects.size(), std::vector<int32_t>());
   int32_t audio_object_index = -1;
-  int32_t audio_track_index = -1;
   for (const auto& audio_object : audio_objects) {
     auto& audio_tracks_for_audio_object =
         audio_tracks_for_audio_objects[++audio_object_index];
+    int32_t audio_track_index = audio_object.first_audio_track_index;
     for (auto unused_audio_track : audio_object.audio_track_uid_ref) {
-      audio_tracks_for_audio_object.push_back(++audio_track_index);
+      audio_tracks_for_audio_object.push_back(audio_track_index++);
     }
   }
   return audio_tracks_for_audio_objects;
@@ -658,6 +658,13 @@ absl::Status SpliceWavFilesFromAdm(
     if (!total_samples_per_channel.ok()) {
       return total_samples_per_channel.status();
     }
+    for (const auto& audio_tracks : audio_tracks_for_audio_objects) {
+      if (!audio_tracks.empty() && audio_tracks.back() >= channels) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "The audioObject(s) refer to more tracks than the ", channels,
+            " channels in the wav file."));
+      }
+    }
 
     // Construct the wav writers to use a file name of the form 'converted'
     // followed by the 1-indexed content.
@@ -691,29 +698,31 @@ absl::Status SpliceWavFilesFromAdm(
     // audio tracks, based on the mapping specified in
     // 'audio_tracks_for_audio_objects'. Write the audio track data to
     // corresponding `WavWriter`s.
+    std::vector<char> frame(static_cast<size_t>(bytes_per_sample) * channels);
     for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info->size;
-         data_chunk_pos += static_cast<size_t>(bytes_per_sample) * channels) {
+         data_chunk_pos += frame.size()) {
+      // Read in the samples of all tracks.
+      if (!input_stream.read(frame.data(), frame.size())) {
+        AbortAllWavWriters(audio_object_index_to_wav_writer);
+        return absl::OutOfRangeError(
+            "Reached end of stream before the implied end of the `data` "
+            "chunk.");
+      }
       for (size_t audio_object_index = 0;
            audio_object_index < audio_tracks_for_audio_objects.size();
            ++audio_object_index) {
-        // Read in the samples for the current audio object.
-        std::vector<char> sample(
-            static_cast<size_t>(bytes_per_sample) *
-            audio_tracks_for_audio_objects[audio_object_index].size());
-
-        if (!input_stream.read(sample.data(), sample.size())) {
-          AbortAllWavWriters(audio_object_index_to_wav_writer);
-          return absl::OutOfRangeError(
-              "Reached end of stream before the implied end of the `data` "
-              "chunk.");
-        }
-
-        // Store the samples in the buffer.
+        // Store the samples for the current audio object in the buffer.
         auto& samples_for_audio_object =
             interlaced_samples_for_audio_objects[audio_object_index];
-        std::transform(sample.begin(), sample.end(),
-                       std::back_inserter(samples_for_audio_object),
-                       [](char c) { return static_cast<uint8_t>(c); });
+        for (const auto audio_track :
+             audio_tracks_for_audio_objects[audio_object_index]) {
+          const auto sample =
+              frame.begin() +
+              static_cast<size_t>(bytes_per_sample) * audio_track;
+          std::transform(sample, sample + bytes_per_sample,
+                         std::back_inserter(samples_for_audio_object),
+                         [](char c) { return static_cast<uint8_t>(c); });
+        }
 
         // Occasionally flush the buffer to the corresponding wav writer.
         if (samples_for_audio_object.size() >= kSizeToFlush) {
diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 99bbfb3..b79d9bc 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -281,6 +281,13 @@ absl::Status SetAudioBlockValue(absl::string_view key, absl::string_view value,
 void RemoveLowImportanceAndInvalidAudioObjects(int32_t importance_threshold,
                                                Handler& handler) {
   std::vector<AudioObject>& audio_object_list = handler.adm.audio_objects;
+  // Removing an object does not move the tracks of the remaining ones.
+  int32_t audio_track_index = 0;
+  for (auto& audio_object : audio_object_list) {
+    audio_object.first_audio_track_index = audio_track_index;
+    audio_track_index +=
+        static_cast<int32_t>(audio_object.audio_track_uid_ref.size());
+  }
   audio_object_list.erase(
       std::remove_if(audio_object_list.begin(), audio_object_list.end(),
                      [&](AudioObject value) {
-- 
2.43.0


From 7f2920ccb73ecdb835192ed77c8afc9e06e16fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 09/48] fix: adm: refuse Dolby ADM files whose metadata does
 not describe every channel

---
 iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 11 ++++++++++-
 iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc       |  9 ++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 6d84015..07ed603 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -276,7 +276,7 @@ void UpdateWavSplicingParams(
     const std::vector<AudioChannelFormat>& audio_channels,
     std::vector<double>& seg_duration,
     std::vector<size_t>& audio_block_indices) {
-  for (size_t ch = 0; ch < audio_channels.size(); ++ch) {
+  for (size_t ch = 0; ch < seg_duration.size(); ++ch) {
     if (seg_duration[ch] > kErrorTolerance)
       seg_duration[ch] -= this_seg_duration;
     if (seg_duration[ch] <= kErrorTolerance) {
@@ -352,6 +352,15 @@ absl::Status ConvertFromObjectsTo3OA(
   // Initialize segment duration for all channels with the corresponding first
   // audio block duration.
   auto& audio_channels = input_adm.audio_channels;
+  if (audio_channels.size() < static_cast<size_t>(total_channels) ||
+      std::any_of(audio_channels.begin(), audio_channels.end(),
+                  [](const AudioChannelFormat& audio_channel) {
+                    return audio_channel.audio_blocks.empty();
+                  })) {
+    return absl::InvalidArgumentError(
+        "Each channel in the wav file needs an audioChannelFormat with at "
+        "least one audioBlockFormat.");
+  }
   for (int ch = 0; ch < total_channels; ++ch) {
     seg_duration[ch] =
         CalculateBlockDuration(audio_channels[ch].audio_blocks, 0);
diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index b79d9bc..73c77d3 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -452,9 +452,12 @@ absl::Status ValidateAdmObjectForDolbyAdm(const ADM& adm,
                               [&audio_pack_id](const AudioPackFormat& pack) {
                                 return pack.id == audio_pack_id;
                               });
-  size_t pack_index = (pack_id != adm.audio_packs.end())
-                          ? std::distance(adm.audio_packs.begin(), pack_id)
-                          : 0;
+  if (pack_id == adm.audio_packs.end()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("audioPackFormatIDRef= ", audio_pack_id,
+                     " does not resolve to a known audioPackFormat."));
+  }
+  const size_t pack_index = std::distance(adm.audio_packs.begin(), pack_id);
 
   auto num_channels_in_pack =
       adm.audio_packs[pack_index].audio_channel_format_id_refs_map.size();
-- 
2.43.0


From bfa2b23949e1a0af1cd68d1ec186a5792f469a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 10/48] fix: read_bit_buffer: a new reader's position is valid

---
 iamf/common/read_bit_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/common/read_bit_buffer.h b/iamf/common/read_bit_buffer.h
index f73c561..8165a10 100644
--- a/iamf/common/read_bit_buffer.h
+++ b/iamf/common/read_bit_buffer.h
@@ -299,7 +299,7 @@ class ReadBitBuffer {
   int64_t source_bit_offset_ = 0;
 
   // Specifies whether a position returned by Tell() is valid.
-  bool is_position_valid_;
+  bool is_position_valid_ = true;
 };
 
 /*!\brief Memory-based read bit buffer.
-- 
2.43.0


From ee3dc2fa8fa115e73c3f23a0f0d32bca1338a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 11/48] fix: obu_header: do not wrap the total size of a peeked
 OBU

---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..0c5fd8a 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -211,7 +211,8 @@ absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
   int8_t size_of_obu_size = 0;
   RETURN_IF_NOT_OK(rb.ReadULeb128(obu_size, size_of_obu_size));
   // The extra byte is for the `obu_type` field + the three boolean fields.
-  output_header_metadata.total_obu_size = obu_size + size_of_obu_size + 1;
+  output_header_metadata.total_obu_size =
+      static_cast<int64_t>(obu_size) + size_of_obu_size + 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From cdd6a569acb6e9fbbc7ff67a017e7d287f344434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 12/48] fix: obu_header: do not wrap the size of the fields
 after obu_size

The sum was computed in 32 bits, so an extension_header_size near 2^32
passed the plausibility check and a buffer of that size was allocated.
---
 iamf/obu/obu_header.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index 0c5fd8a..096aa4a 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -193,8 +193,9 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           int8_t extension_header_size_size,
                           DecodedUleb128 extension_header_bytes_size) {
   return static_cast<int64_t>(obu_size) -
-         (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+         (static_cast<int64_t>(num_samples_to_trim_at_end_size) +
+          num_samples_to_trim_at_start_size + extension_header_size_size +
+          extension_header_bytes_size);
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
-- 
2.43.0


From 1387a9318d344bc0dbecc4a7b94b47633b6fb7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 13/48] fix: keep the pending temporal unit when the output
 buffer is too small

GetOutputTemporalUnit() went on to decode the next temporal unit over the one
it had failed to write, so a retry with a larger buffer returned other samples.
---
 iamf/api/decoder/iamf_decoder.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4c4d980..9fbed5e 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -449,20 +449,18 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   IamfStatus status = WriteFrameToSpan(
       state_->rendered_samples, output_sample_type,
       absl::MakeSpan(output_buffer, output_buffer_size), bytes_written);
-  if (status.ok()) {
-    state_->rendered_samples.clear();
+  if (!status.ok()) {
+    // The temporal unit stays available, it must not be replaced.
+    return status;
   }
+  state_->rendered_samples.clear();
 
   // Refill the rendered samples with the next temporal unit.
-  auto decode_status = DecodeOneTemporalUnit(
+  return DecodeOneTemporalUnit(
       state_->read_bit_buffer.get(), state_->obu_processor.get(),
       state_->created_from_descriptors ||
           state_->status == DecoderStatus::kEndOfStream,
       state_->rendered_samples, state_->channel_reorderer);
-  if (!decode_status.ok()) {
-    return decode_status;
-  }
-  return status;
 }
 
 bool IamfDecoder::IsTemporalUnitAvailable() const {
-- 
2.43.0


From 5e82621d9c2e46291f384333fc2828dac7b47d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 14/48] fix: do not stop decoding at a temporal unit without
 audio

A delimiter after an empty temporal unit, or a temporal unit which only has
parameter blocks, ended the decoding of the available data. Data after it was
delayed until the next call, or lost at the end of decoding.
---
 iamf/api/decoder/iamf_decoder.cc | 47 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 9fbed5e..d344865 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -213,28 +213,33 @@ IamfStatus DecodeOneTemporalUnit(
   if (obu_processor == nullptr) {
     return IamfStatus::ErrorStatus("Internal Error: Obu processor is null.");
   }
-  std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
-  bool unused_continue_processing = true;
-  absl::Status absl_status = obu_processor->ProcessTemporalUnit(
-      eos_is_end_of_sequence, output_temporal_unit, unused_continue_processing);
-  if (!absl_status.ok()) {
-    return AbslToIamfStatus(absl_status);
-  }
-  // We may have processed bytes but not a full temporal unit.
-  if (output_temporal_unit.has_value()) {
-    absl::StatusOr<absl::Span<const absl::Span<const InternalSampleType>>>
-        rendered_samples_for_temporal_unit =
-            obu_processor->RenderTemporalUnitAndMeasureLoudness(
-                output_temporal_unit->output_timestamp,
-                output_temporal_unit->output_parameter_blocks,
-                output_temporal_unit->output_audio_frames);
-    if (!rendered_samples_for_temporal_unit.ok()) {
-      return AbslToIamfStatus(rendered_samples_for_temporal_unit.status());
+  // The processor stops at the end of each temporal unit, which may have no
+  // audio. Continue until there is something to output, or no more data.
+  bool continue_processing = true;
+  while (rendered_samples.empty() && continue_processing) {
+    std::optional<ObuProcessor::OutputTemporalUnit> output_temporal_unit;
+    absl::Status absl_status = obu_processor->ProcessTemporalUnit(
+        eos_is_end_of_sequence, output_temporal_unit, continue_processing);
+    if (!absl_status.ok()) {
+      return AbslToIamfStatus(absl_status);
     }
-    rendered_samples = std::vector(rendered_samples_for_temporal_unit->begin(),
-                                   rendered_samples_for_temporal_unit->end());
-    if (channel_reorderer.has_value()) {
-      ABSL_CHECK_OK(channel_reorderer->Reorder(rendered_samples));
+    // We may have processed bytes but not a full temporal unit.
+    if (output_temporal_unit.has_value()) {
+      absl::StatusOr<absl::Span<const absl::Span<const InternalSampleType>>>
+          rendered_samples_for_temporal_unit =
+              obu_processor->RenderTemporalUnitAndMeasureLoudness(
+                  output_temporal_unit->output_timestamp,
+                  output_temporal_unit->output_parameter_blocks,
+                  output_temporal_unit->output_audio_frames);
+      if (!rendered_samples_for_temporal_unit.ok()) {
+        return AbslToIamfStatus(rendered_samples_for_temporal_unit.status());
+      }
+      rendered_samples =
+          std::vector(rendered_samples_for_temporal_unit->begin(),
+                      rendered_samples_for_temporal_unit->end());
+      if (channel_reorderer.has_value()) {
+        ABSL_CHECK_OK(channel_reorderer->Reorder(rendered_samples));
+      }
     }
   }
   // Empty the buffer of the data that was processed thus far.
-- 
2.43.0


From 734714c796220ba1b9c6e1f4aec2e9b168aebcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 15/48] fix: order the channels of every decoded temporal unit

The channel reorderer was only created by a call to Decode() after the
descriptors were complete. When SignalEndOfDecoding() followed the Decode()
which completed them, the output was not reordered.
---
 iamf/api/decoder/iamf_decoder.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index d344865..344465d 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -173,6 +173,16 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
   }
   actual_layout = *new_layout;
 
+  channel_reorderer = std::nullopt;
+  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
+          actual_layout.specific_layout)) {
+    auto sound_system =
+        std::get<LoudspeakersSsConventionLayout>(actual_layout.specific_layout)
+            .sound_system;
+    channel_reorderer =
+        ChannelReorderer::Create(sound_system, channel_rearrangement_scheme);
+  }
+
   // Copy over fields at the end, now that everything is successful.
   obu_processor = std::move(temp_obu_processor);
 
@@ -422,14 +432,6 @@ IamfStatus IamfDecoder::Decode(const uint8_t* input_buffer,
   }
 
   // At this stage, we know that we've processed all descriptor OBUs.
-  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
-          state_->actual_layout.specific_layout)) {
-    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
-                            state_->actual_layout.specific_layout)
-                            .sound_system;
-    state_->channel_reorderer = ChannelReorderer::Create(
-        sound_system, state_->channel_rearrangement_scheme);
-  }
   if (state_->rendered_samples.empty()) {
     // We only try to actually decode a temporal unit if we have no currently
     // decoded temporal units. If we do, we'll decode the next temporal unit in
-- 
2.43.0


From 2f5cfb848122338e9b1742db5b273bdeb80cc056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 16/48] fix: do not mix the previous frame of an audio element
 without a frame

When a temporal unit had no frame for an audio element of the mix, its samples
of the previous temporal unit were mixed again, with the gain applied twice.
---
 iamf/cli/renderer/default_layout_renderer.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/iamf/cli/renderer/default_layout_renderer.cc b/iamf/cli/renderer/default_layout_renderer.cc
index 91471bd..8d79417 100644
--- a/iamf/cli/renderer/default_layout_renderer.cc
+++ b/iamf/cli/renderer/default_layout_renderer.cc
@@ -255,15 +255,17 @@ absl::Status DefaultLayoutRenderer::Render(
   for (size_t i = 0; i < num_audio_elements; i++) {
     const auto& audio_element_id = audio_element_ids_[i];
     const auto& element_mix_gain = element_mix_gains_[i];
-    if (id_to_labeled_frame.find(audio_element_id) !=
-        id_to_labeled_frame.end()) {
-      const auto& labeled_frame = id_to_labeled_frame.at(audio_element_id);
-      // Render the frame to the specified `loudness_layout` and apply element
-      // mix gain.
-      RETURN_IF_NOT_OK(RenderLabeledFrameToLayout(
-          labeled_frame, common_num_samples_per_frame_, *renderers_[i],
-          rendered_audio_elements_[i]));
+    const auto labeled_frame_iter = id_to_labeled_frame.find(audio_element_id);
+    if (labeled_frame_iter == id_to_labeled_frame.end()) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("Missing frame to render for audio element ID= ",
+                       audio_element_id));
     }
+    // Render the frame to the specified `loudness_layout` and apply element
+    // mix gain.
+    RETURN_IF_NOT_OK(RenderLabeledFrameToLayout(
+        labeled_frame_iter->second, common_num_samples_per_frame_,
+        *renderers_[i], rendered_audio_elements_[i]));
 
     RETURN_IF_NOT_OK(GetAndApplyMixGain(
         common_sample_rate_, id_to_parameter_block, element_mix_gain,
-- 
2.43.0


From 312d2fc1cf6360930958973eacdc8d564dc6fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 17/48] fix: do not abort when reordering a temporal unit
 without audio

A temporal unit with only parameter blocks renders no channels. Reordering them
for Android failed a CHECK when the layout has seven or more channels.
---
 iamf/api/decoder/iamf_decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 344465d..151e9db 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -247,7 +247,7 @@ IamfStatus DecodeOneTemporalUnit(
       rendered_samples =
           std::vector(rendered_samples_for_temporal_unit->begin(),
                       rendered_samples_for_temporal_unit->end());
-      if (channel_reorderer.has_value()) {
+      if (!rendered_samples.empty() && channel_reorderer.has_value()) {
         ABSL_CHECK_OK(channel_reorderer->Reorder(rendered_samples));
       }
     }
-- 
2.43.0


From c97edbaecbc8707dd0dc94fe7a46ae4872d14db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 18/48] fix: only accept an expanded layout in a single layer

---
 iamf/cli/obu_with_data_generator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/obu_with_data_generator.cc b/iamf/cli/obu_with_data_generator.cc
index 57595ba..9f7b32e 100644
--- a/iamf/cli/obu_with_data_generator.cc
+++ b/iamf/cli/obu_with_data_generator.cc
@@ -183,13 +183,13 @@ absl::Status CollectBaseChannelGroupLabels(
 }
 
 absl::Status CollectChannelLayersAndLabelsForExpandedLoudspeakerLayout(
-    int layer_index,
+    size_t num_layers, int layer_index,
     std::optional<ChannelAudioLayerConfig::ExpandedLoudspeakerLayout>
         expanded_loudspeaker_layout,
     ChannelNumbers& channel_numbers,
     std::list<ChannelLabel::Label>& coupled_substream_labels,
     std::list<ChannelLabel::Label>& non_coupled_substream_labels) {
-  if (layer_index != 0) {
+  if (num_layers != 1) {
     return absl::InvalidArgumentError(
         "Expanded layout is only permitted when there is a single layer.");
   }
@@ -726,7 +726,8 @@ absl::Status ObuWithDataGenerator::FinalizeScalableChannelLayoutConfig(
         ChannelAudioLayerConfig::kLayoutExpanded) {
       RETURN_IF_NOT_OK(
           CollectChannelLayersAndLabelsForExpandedLoudspeakerLayout(
-              i, layer_config.expanded_loudspeaker_layout, layer_channels,
+              config.GetNumLayers(), i,
+              layer_config.expanded_loudspeaker_layout, layer_channels,
               coupled_substream_labels, non_coupled_substream_labels));
     } else {
       RETURN_IF_NOT_OK(CollectChannelLayersAndLabelsForLoudspeakerLayout(
-- 
2.43.0


From 862d37efe5663a57c2a66e93749fa408737dab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 19/48] fix: refuse reserved ambisonics modes

---
 iamf/obu/ambisonics_config.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/ambisonics_config.cc b/iamf/obu/ambisonics_config.cc
index 716f16b..c227194 100644
--- a/iamf/obu/ambisonics_config.cc
+++ b/iamf/obu/ambisonics_config.cc
@@ -295,7 +295,10 @@ absl::Status AmbisonicsConfig::ReadAndValidate(ReadBitBuffer& rb) {
       return absl::OkStatus();
     }
     default:
-      return absl::OkStatus();
+      // The contents of reserved modes are unknown. Holding on to the previous
+      // config would misrepresent them.
+      return absl::UnimplementedError(absl::StrCat(
+          "Unsupported ambisonics_mode= ", ambisonics_mode_uleb));
   }
 }
 
-- 
2.43.0


From e5ef6b60346f8f6b709c0a2435b7b2f62101d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 20/48] fix: keep the config of audio elements of unknown type

---
 iamf/obu/audio_element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 6da0505..2c2c2a7 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -594,6 +594,7 @@ absl::Status AudioElementObu::ReadAndValidatePayloadDerived(
         RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(8, config_bytes));
         extension_config.audio_element_config_bytes.push_back(config_bytes);
       }
+      config_ = std::move(extension_config);
 
       return absl::OkStatus();
     }
-- 
2.43.0


From 17f85d1cd601dc7e56fc57fb7f3b03dc6ef62c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 21/48] fix: let audio elements share a demixing or recon gain
 parameter

---
 iamf/cli/parameters_manager.cc | 53 +++++++++++++++++++---------------
 iamf/cli/parameters_manager.h  | 12 ++++----
 2 files changed, 35 insertions(+), 30 deletions(-)

diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index eeded8b..d318bf5 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -63,11 +63,9 @@ absl::Status UpdateParameterState(
   parameter_state = &parameter_states_iter->second;
 
   // Using `.at()` here is safe because if the parameter state exists for the
-  // `audio_element_id`, an entry in `parameter_blocks` with the key
-  // `parameter_state->param_definition->GetParameterId()` has already been
-  // created during `Initialize()`.
-  auto& parameter_block = parameter_blocks.at(
-      (*parameter_state)->param_definition->GetParameterId());
+  // `audio_element_id`, an entry in `parameter_blocks` with the same key has
+  // already been created during `Create()`.
+  auto& parameter_block = parameter_blocks.at(audio_element_id);
   if (parameter_block == nullptr) {
     // No parameter block found for this ID. Do not validate the timestamp
     // or update anything else. Setting `parameter_state` to `std::nullopt`
@@ -98,10 +96,12 @@ ParametersManager::Create(
   // Collect all `DemixingParamDefinition`s and all `ReconGainParamDefinitions`
   // in all Audio Elements. Validate there is no more than one per Audio
   // Element.
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks. Several
+  // Audio Elements may share one parameter.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks;
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks. Several
+  // Audio Elements may share one parameter.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks;
   // Mapping from Audio Element ID to the demixing state.
@@ -140,11 +140,10 @@ ParametersManager::Create(
     }
 
     if (demixing_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
-      // be used.
-      demixing_parameter_blocks.insert(
-          {demixing_param_definition->GetParameterId(), nullptr});
+      // Insert a `nullptr` for an audio element ID. If no parameter blocks have
+      // its parameter ID, then it will remain null and default values will be
+      // used.
+      demixing_parameter_blocks.insert({audio_element_id, nullptr});
       demixing_states[audio_element_id] = {
           .param_definition = demixing_param_definition,
           .previous_w_idx = 0,
@@ -153,11 +152,10 @@ ParametersManager::Create(
       };
     }
     if (recon_gain_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
-      // be used.
-      recon_gain_parameter_blocks.insert(
-          {recon_gain_param_definition->GetParameterId(), nullptr});
+      // Insert a `nullptr` for an audio element ID. If no parameter blocks have
+      // its parameter ID, then it will remain null and default values will be
+      // used.
+      recon_gain_parameter_blocks.insert({audio_element_id, nullptr});
       recon_gain_states[audio_element_id] = {
           .param_definition = recon_gain_param_definition,
           .next_timestamp = 0,
@@ -201,7 +199,7 @@ absl::Status ParametersManager::GetDownMixingParameters(
   auto& demixing_state = demixing_states_iter->second;
   const auto* param_definition = demixing_state.param_definition;
   const auto* demixing_parameter_block =
-      demixing_parameter_blocks_.at(param_definition->GetParameterId());
+      demixing_parameter_blocks_.at(audio_element_id);
   if (demixing_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. Use the
     // default value from the parameter definition. This is OK when there are
@@ -254,9 +252,8 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
   }
 
   auto& recon_gain_state = recon_gain_states_iter->second;
-  const auto* param_definition = recon_gain_state.param_definition;
   const auto* recon_gain_parameter_block =
-      recon_gain_parameter_blocks_.at(param_definition->GetParameterId());
+      recon_gain_parameter_blocks_.at(audio_element_id);
   if (recon_gain_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. A default
     // recon gain value of 0 dB is implied when there are no Parameter Block
@@ -311,14 +308,22 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
 
 void ParametersManager::AddDemixingParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  demixing_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  for (const auto& [audio_element_id, state] : demixing_states_) {
+    if (state.param_definition->GetParameterId() ==
+        parameter_block->obu->parameter_id_) {
+      demixing_parameter_blocks_.at(audio_element_id) = parameter_block;
+    }
+  }
 }
 
 void ParametersManager::AddReconGainParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  recon_gain_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  for (const auto& [audio_element_id, state] : recon_gain_states_) {
+    if (state.param_definition->GetParameterId() ==
+        parameter_block->obu->parameter_id_) {
+      recon_gain_parameter_blocks_.at(audio_element_id) = parameter_block;
+    }
+  }
 }
 
 absl::Status ParametersManager::UpdateDemixingState(
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index bdfbfa7..470ae6b 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -156,10 +156,10 @@ class ParametersManager {
    *
    * Used only by factory function.
    *
-   * \param demixing_parameter_blocks Mapping from Parameter ID to demixing
-   *        parameter blocks.
-   * \param recon_gain_parameter_blocks Mapping from Parameter ID to recon gain
-   *        parameter blocks.
+   * \param demixing_parameter_blocks Mapping from Audio Element ID to
+   *        demixing parameter blocks.
+   * \param recon_gain_parameter_blocks Mapping from Audio Element ID to
+   *        recon gain parameter blocks.
    * \param demixing_states Mapping from Audio Element ID to the demixing
    *        state.
    * \param recon_gain_states Mapping from Audio Element ID to the recon gain
@@ -177,11 +177,11 @@ class ParametersManager {
         demixing_states_(demixing_states),
         recon_gain_states_(recon_gain_states) {}
 
-  // Mapping from Parameter ID to demixing parameter blocks.
+  // Mapping from Audio Element ID to demixing parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       demixing_parameter_blocks_;
 
-  // Mapping from Parameter ID to recon gain parameter blocks.
+  // Mapping from Audio Element ID to recon gain parameter blocks.
   absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
       recon_gain_parameter_blocks_;
 
-- 
2.43.0


From c0b15638ea55be16e279c675e0b2a3c964c2e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:23 +0000
Subject: [PATCH 22/48] fix: apply demixing and recon gain parameter blocks
 when decoding

---
 iamf/cli/obu_processor.cc      | 29 +++++++++++++++++++++++++++++
 iamf/cli/parameters_manager.cc | 18 +++++++++++++-----
 iamf/cli/parameters_manager.h  |  6 ++++++
 3 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/obu_processor.cc b/iamf/cli/obu_processor.cc
index 85cf99a..de17fda 100644
--- a/iamf/cli/obu_processor.cc
+++ b/iamf/cli/obu_processor.cc
@@ -54,8 +54,10 @@
 #include "iamf/obu/ia_sequence_header.h"
 #include "iamf/obu/mix_presentation.h"
 #include "iamf/obu/obu_header.h"
+#include "iamf/obu/param_definitions/demixing_param_definition.h"
 #include "iamf/obu/param_definitions/param_definition_base.h"
 #include "iamf/obu/param_definitions/param_definition_variant.h"
+#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
 #include "iamf/obu/parameter_block.h"
 #include "iamf/obu/temporal_delimiter.h"
 #include "iamf/obu/types.h"
@@ -124,6 +126,28 @@ absl::Status GetAndStoreAudioFrameWithData(
   return absl::OkStatus();
 }
 
+// Makes the parameters manager aware of exactly the parameter blocks of the
+// current temporal unit.
+void ReplaceParameterBlocks(
+    const std::list<ParameterBlockWithData>& parameter_blocks,
+    const absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant>&
+        param_definition_variants,
+    ParametersManager& parameters_manager) {
+  parameters_manager.ClearParameterBlocks();
+  for (const auto& parameter_block : parameter_blocks) {
+    const auto iter =
+        param_definition_variants.find(parameter_block.obu->parameter_id_);
+    if (iter == param_definition_variants.end()) {
+      continue;
+    }
+    if (std::holds_alternative<DemixingParamDefinition>(iter->second)) {
+      parameters_manager.AddDemixingParameterBlock(&parameter_block);
+    } else if (std::holds_alternative<ReconGainParamDefinition>(iter->second)) {
+      parameters_manager.AddReconGainParameterBlock(&parameter_block);
+    }
+  }
+}
+
 const ParamDefinition* PeekParameterIdAndLookupParamDefinition(
     const absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant>&
         param_definition_variants,
@@ -609,6 +633,8 @@ absl::Status ObuProcessor::ProcessTemporalUnit(
       TemporalUnitData::AddDataToCorrectTemporalUnit(
           current_temporal_unit_, next_temporal_unit_,
           *std::move(parameter_block_with_data));
+      ReplaceParameterBlocks(current_temporal_unit_.parameter_blocks,
+                             param_definition_variants_, *parameters_manager_);
     } else if (temporal_delimiter.has_value()) {
       if (current_temporal_unit_.temporal_delimiter.has_value()) {
         delimiter_end_condition = true;
@@ -639,6 +665,9 @@ absl::Status ObuProcessor::ProcessTemporalUnit(
       }
       current_temporal_unit_ = std::move(next_temporal_unit_);
       next_temporal_unit_ = TemporalUnitData();
+      // The output blocks now belong to the caller.
+      ReplaceParameterBlocks(current_temporal_unit_.parameter_blocks,
+                             param_definition_variants_, *parameters_manager_);
       break;
     }
   }
diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index d318bf5..da39676 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -76,16 +76,15 @@ absl::Status UpdateParameterState(
 
   // Update the next timestamp for the next frame.
   (*parameter_state)->next_timestamp = parameter_block->end_timestamp;
-  RETURN_IF_NOT_OK(CompareTimestamps(
-      expected_next_timestamp, (*parameter_state)->next_timestamp,
-      absl::StrCat("When updating states for ", parameter_name,
-                   " parameters: ")));
 
   // Clear out the parameter block, which should not be used before a new
   // one is added via `Add*ParameterBlock()`.
   parameter_block = nullptr;
 
-  return absl::OkStatus();
+  return CompareTimestamps(
+      expected_next_timestamp, (*parameter_state)->next_timestamp,
+      absl::StrCat("When updating states for ", parameter_name,
+                   " parameters: "));
 }
 
 }  // namespace
@@ -326,6 +325,15 @@ void ParametersManager::AddReconGainParameterBlock(
   }
 }
 
+void ParametersManager::ClearParameterBlocks() {
+  for (auto& [unused_id, parameter_block] : demixing_parameter_blocks_) {
+    parameter_block = nullptr;
+  }
+  for (auto& [unused_id, parameter_block] : recon_gain_parameter_blocks_) {
+    parameter_block = nullptr;
+  }
+}
+
 absl::Status ParametersManager::UpdateDemixingState(
     DecodedUleb128 audio_element_id, InternalTimestamp expected_timestamp) {
   std::optional<DemixingState*> demixing_state = std::nullopt;
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index 470ae6b..d424466 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -100,6 +100,12 @@ class ParametersManager {
   void AddReconGainParameterBlock(
       const ParameterBlockWithData* absl_nonnull parameter_block);
 
+  /*!\brief Forgets all parameter blocks that were added.
+   *
+   * Must be called before any of the added blocks is destroyed or moved.
+   */
+  void ClearParameterBlocks();
+
   /*!\brief Updates the state of demixing parameters for an audio element.
    *
    * Also validates the timestamp is as expected.
-- 
2.43.0


From ac41e632e205fddeef8080c82197c53555dc5129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:26 +0000
Subject: [PATCH 23/48] fix: apply output gains when demixing decoded samples

---
 iamf/cli/demixing_manager.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/demixing_manager.cc b/iamf/cli/demixing_manager.cc
index 20353b5..7c7517a 100644
--- a/iamf/cli/demixing_manager.cc
+++ b/iamf/cli/demixing_manager.cc
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <climits>
+#include <cmath>
 #include <cstddef>
 #include <list>
 #include <optional>
@@ -232,7 +233,7 @@ absl::Status StoreSamplesForAudioElementId(
     bool use_decoded_samples,
     const std::list<AudioFrameWithData>& audio_frames_or_decoded_audio_frames,
     const SubstreamIdLabelsMap& substream_id_to_labels,
-    LabeledFrame& labeled_frame) {
+    const LabelGainMap& label_to_output_gain, LabeledFrame& labeled_frame) {
   if (audio_frames_or_decoded_audio_frames.empty()) {
     return absl::OkStatus();
   }
@@ -285,8 +286,20 @@ absl::Status StoreSamplesForAudioElementId(
 
     int channel_index = 0;
     for (const auto& label : labels) {
-      labeled_frame.label_to_samples[label] = input_samples[channel_index];
+      auto& samples = labeled_frame.label_to_samples[label];
+      samples = input_samples[channel_index];
       channel_index++;
+
+      // Coded channels were attenuated by their output gain; undo it. The
+      // original samples are not attenuated.
+      const auto gain_iter = label_to_output_gain.find(label);
+      if (use_decoded_samples && gain_iter != label_to_output_gain.end()) {
+        const double output_gain_linear =
+            std::pow(10.0, gain_iter->second / 20.0);
+        for (auto& sample : samples) {
+          sample *= output_gain_linear;
+        }
+      }
     }
     if (use_decoded_samples) {
       RETURN_IF_NOT_OK(PassThroughReconGainDataForDecodedAudioFrame(
@@ -421,7 +434,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixOriginalAudioSamples(
     LabeledFrame labeled_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/false, audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_frame));
     if (!labeled_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_frame));
@@ -443,7 +457,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixDecodedAudioSamples(
     LabeledFrame labeled_decoded_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/true, decoded_audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_decoded_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_decoded_frame));
     if (!labeled_decoded_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_decoded_frame));
-- 
2.43.0


From 8acd4f51c3e7b40840ec21374cc6ccedbaa93195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:41 +0000
Subject: [PATCH 24/48] fix: refuse a parameter rate of zero when the schedule
 is in the parameter block

---
 iamf/obu/param_definitions/param_definition_base.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/param_definitions/param_definition_base.cc b/iamf/obu/param_definitions/param_definition_base.cc
index 9934629..71fb5eb 100644
--- a/iamf/obu/param_definitions/param_definition_base.cc
+++ b/iamf/obu/param_definitions/param_definition_base.cc
@@ -124,7 +124,8 @@ absl::Status ParamDefinition::ReadAndValidate(ReadBitBuffer& rb) {
   RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(7, reserved_));
   if (mode != kModeScheduleInParamDefinition) {
     schedule_ = std::nullopt;
-    return absl::OkStatus();
+    return ValidateNotEqual(parameter_rate_, DecodedUleb128{0},
+                            "`parameter_rate`");
   }
 
   auto temp_schedule = SubblockSchedule::CreateFromBuffer(rb);
-- 
2.43.0


From 170b99d0ac973ac810fb191d552507b35e57214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 25/48] fix: refuse FLAC STREAMINFO blocks whose length is not
 34 bytes

The block length was read and stored but ignored while parsing, so a codec
config whose STREAMINFO block claims any other length was accepted and
could not be written back.
---
 iamf/obu/decoder_config/flac_decoder_config.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/obu/decoder_config/flac_decoder_config.cc b/iamf/obu/decoder_config/flac_decoder_config.cc
index 9b7db33..5d27ec2 100644
--- a/iamf/obu/decoder_config/flac_decoder_config.cc
+++ b/iamf/obu/decoder_config/flac_decoder_config.cc
@@ -272,6 +272,10 @@ absl::Status FlacDecoderConfig::ReadAndValidate(uint32_t num_samples_per_frame,
 
     switch (metadata_block.header.block_type) {
       case FlacMetaBlockHeader::kFlacStreamInfo:
+        RETURN_IF_NOT_OK(ValidateEqual(
+            metadata_data_block_length,
+            uint32_t{StrictCons::kStreamInfoBlockLength},
+            "STREAMINFO metadata_data_block_length"));
         RETURN_IF_NOT_OK(ReadStreamInfo(
             std::get<FlacMetaBlockStreamInfo>(metadata_block.payload), rb));
         break;
-- 
2.43.0


From ac8b9e11a1c1c8d139e821df07d28e8f6da66a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 26/48] fix: refuse ambisonics mono configs whose counts do not
 fit in a byte

---
 iamf/obu/ambisonics_config.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iamf/obu/ambisonics_config.cc b/iamf/obu/ambisonics_config.cc
index c227194..84fe7c9 100644
--- a/iamf/obu/ambisonics_config.cc
+++ b/iamf/obu/ambisonics_config.cc
@@ -15,6 +15,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <type_traits>
 #include <variant>
@@ -108,6 +109,10 @@ absl::Status WriteAmbisonicsProjection(
 absl::StatusOr<AmbisonicsMonoConfig> AmbisonicsMonoConfig::Create(
     uint8_t substream_count, absl::Span<const uint8_t> channel_mapping) {
   const size_t output_channel_count = channel_mapping.size();
+  RETURN_IF_NOT_OK(ValidateInRange(
+      output_channel_count,
+      {size_t{1}, size_t{std::numeric_limits<uint8_t>::max()}},
+      "output_channel_count"));
   MAYBE_RETURN_IF_NOT_OK(ValidateOutputChannelCount(output_channel_count));
   RETURN_IF_NOT_OK(ValidateContainerSizeEqual(
       "channel_mapping", channel_mapping, output_channel_count));
-- 
2.43.0


From 927a6e9e11f95bc96ee40deb42c6904ef16db8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:32 +0000
Subject: [PATCH 27/48] fix: parse rendering config extensions only within
 their declared size

---
 iamf/obu/rendering_config.cc | 40 +++++++++++++++---------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/iamf/obu/rendering_config.cc b/iamf/obu/rendering_config.cc
index 2622982..28155f9 100644
--- a/iamf/obu/rendering_config.cc
+++ b/iamf/obu/rendering_config.cc
@@ -273,40 +273,34 @@ absl::StatusOr<RenderingConfig> RenderingConfig::CreateFromBuffer(
         .reserved = reserved};
   }
 
-  const auto position_after_rendering_config_extension_size = rb.Tell();
+  // The extension is self-contained. Read it from its own buffer, so nothing
+  // past its declared size affects how it is interpreted.
+  std::vector<uint8_t> rendering_config_extension_bytes(
+      rendering_config_extension_size);
+  RETURN_IF_NOT_OK(
+      rb.ReadUint8Span(absl::MakeSpan(rendering_config_extension_bytes)));
+  auto extension_rb = MemoryBasedReadBitBuffer::CreateFromSpan(
+      absl::MakeConstSpan(rendering_config_extension_bytes));
+
   // Read in the well-defined fields. These are related to parameters, and
   // (optionally), the element gain offset config.
   std::vector<RenderingConfigParamDefinition>
       rendering_config_param_definitions;
   std::optional<ElementGainOffsetConfig> element_gain_offset_config;
-  auto status = ReadRenderingConfigExtension(element_gain_offset_flag, rb,
-                                             rendering_config_param_definitions,
-                                             element_gain_offset_config);
+  auto status = ReadRenderingConfigExtension(
+      element_gain_offset_flag, *extension_rb,
+      rendering_config_param_definitions, element_gain_offset_config);
 
-  int64_t extension_bytes_to_read = rendering_config_extension_size;
   if (status.ok()) {
-    extension_bytes_to_read =
-        rendering_config_extension_size -
-        ((rb.Tell() - position_after_rendering_config_extension_size) / 8);
-    if (extension_bytes_to_read < 0) {
-      return absl::InvalidArgumentError(absl::StrCat(
-          "Expected `rendering_config_extension_size` to be greater than or "
-          "equal to the size of `rendering_config_param_definitions`., but "
-          "got: ",
-          extension_bytes_to_read));
-    }
+    // Only what follows the well-defined fields is a generic extension.
+    rendering_config_extension_bytes.erase(
+        rendering_config_extension_bytes.begin(),
+        rendering_config_extension_bytes.begin() + extension_rb->Tell() / 8);
   } else {
+    // Failed to read the extension. Keep all of it as generic extension bytes.
     rendering_config_param_definitions.clear();
     element_gain_offset_config = std::nullopt;
-    // Failed to read extension, so seek back to the position before reading the
-    // extension size so we can read these bytes as generic extension bytes
-    // instead.
-    RETURN_IF_NOT_OK(rb.Seek(position_after_rendering_config_extension_size));
   }
-  std::vector<uint8_t> rendering_config_extension_bytes(
-      extension_bytes_to_read);
-  RETURN_IF_NOT_OK(
-      rb.ReadUint8Span(absl::MakeSpan(rendering_config_extension_bytes)));
   return RenderingConfig{
       .headphones_rendering_mode = headphones_rendering_mode_enum,
       .binaural_filter_profile = binaural_filter_profile_enum,
-- 
2.43.0


From 10e0ec570a404210211952ae393789612f05e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:56 +0000
Subject: [PATCH 28/48] fix: report descriptors of a probe in a stable order,
 and the duration at the rate of the longest substream

---
 iamf/cli/probe.cc | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index 5dd8e41..728bc22 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -1283,17 +1283,23 @@ void ScanTemporalUnits(
   std::sort(substream_ids.begin(), substream_ids.end());
   out.audio_frames_by_substream.reserve(substream_ids.size());
   uint64_t max_samples = 0;
+  DecodedUleb128 longest_codec_config_id = 0;
   for (auto id : substream_ids) {
-    out.audio_frames_by_substream.push_back(per_substream[id]);
-    max_samples = std::max(max_samples, per_substream[id].total_samples);
+    const auto& summary = per_substream[id];
+    out.audio_frames_by_substream.push_back(summary);
+    if (summary.total_samples > max_samples) {
+      max_samples = summary.total_samples;
+      longest_codec_config_id = summary.codec_config_id;
+    }
   }
   if (max_samples > 0) {
     out.total_samples = max_samples;
-    // Pick an output sample rate from the first codec config.
-    if (!descriptors.codec_config_obus.empty()) {
-      const auto& [unused_id, codec_cfg] =
-          *descriptors.codec_config_obus.begin();
-      const uint32_t rate = codec_cfg.GetOutputSampleRate();
+    // The samples were counted at the rate of the longest substream's codec
+    // config.
+    if (const auto codec_config_it =
+            descriptors.codec_config_obus.find(longest_codec_config_id);
+        codec_config_it != descriptors.codec_config_obus.end()) {
+      const uint32_t rate = codec_config_it->second.GetOutputSampleRate();
       if (rate > 0) {
         out.output_sample_rate = rate;
         out.duration_seconds =
@@ -1352,6 +1358,13 @@ absl::StatusOr<ProbeReport> ProbeFromBuffer(ReadBitBuffer& read_bit_buffer,
         BuildAudioElementReport(element_with_data.obu));
   }
 
+  // The descriptors are held in hash maps; report them in a stable order.
+  const auto by_id = [](const auto& lhs, const auto& rhs) {
+    return lhs.id < rhs.id;
+  };
+  std::sort(report.codec_configs.begin(), report.codec_configs.end(), by_id);
+  std::sort(report.audio_elements.begin(), report.audio_elements.end(), by_id);
+
   report.mix_presentations.reserve(descriptors.mix_presentation_obus.size());
   for (const auto& mp : descriptors.mix_presentation_obus) {
     report.mix_presentations.push_back(BuildMixPresentationReport(mp));
-- 
2.43.0


From 5f2f9c682f22ef7452ed4166e34f31b03af049ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:15 +0000
Subject: [PATCH 29/48] fix: a probe counts a parameter block without room for
 its id as malformed

---
 iamf/cli/probe.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index 728bc22..ecc9ecc 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -1145,13 +1145,19 @@ void ScanTemporalUnits(
       case kObuIaParameterBlock: {
         const size_t block_start_offset =
             static_cast<size_t>((position_before_header - scan_start_bits) / 8);
-        auto peek_id = ParameterBlockObu::PeekParameterId(read_bit_buffer);
-        if (!peek_id.ok()) {
+        const int64_t payload_start = read_bit_buffer.Tell();
+        DecodedUleb128 parameter_id = 0;
+        int8_t encoded_uleb128_size = 0;
+        if (!read_bit_buffer.ReadULeb128(parameter_id, encoded_uleb128_size)
+                 .ok() ||
+            payload_size < encoded_uleb128_size ||
+            !read_bit_buffer.Seek(payload_start).ok()) {
+          // The ID would extend into the next OBU.
           ++out.parameter_block_parse_errors;
           break;
         }
         note_tu_start(block_start_offset);
-        auto def_it = param_definition_variants.find(*peek_id);
+        auto def_it = param_definition_variants.find(parameter_id);
         if (def_it == param_definition_variants.end()) {
           // Descriptors didn't declare this parameter id; we can't parse the
           // body, so count it as a skipped block.
@@ -1182,16 +1188,16 @@ void ScanTemporalUnits(
           ++out.parameter_block_parse_errors;
           break;
         }
-        auto type_it = parameter_id_to_type.find(*peek_id);
+        auto type_it = parameter_id_to_type.find(parameter_id);
         const bool type_known = type_it != parameter_id_to_type.end();
         const std::string param_type =
             type_known ? ParamDefinitionTypeToString(type_it->second)
                        : "unknown";
         const uint32_t param_type_raw =
             type_known ? static_cast<uint32_t>(type_it->second) : 0;
-        const uint64_t start_ts = per_parameter_timestamp[*peek_id];
+        const uint64_t start_ts = per_parameter_timestamp[parameter_id];
         const uint64_t end_ts = start_ts + (*block_or)->GetDuration();
-        per_parameter_timestamp[*peek_id] = end_ts;
+        per_parameter_timestamp[parameter_id] = end_ts;
         out.parameter_blocks.push_back(BuildParameterBlockReport(
             **block_or, param_type, param_type_raw, start_ts, end_ts));
         ++out.parameter_block_count;
-- 
2.43.0


From b198c525a72ee86be147dc50d884c3dc1559668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:15 +0000
Subject: [PATCH 30/48] fix: parameter blocks between temporal units of a probe
 belong to the unit that follows

---
 iamf/cli/probe.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index ecc9ecc..5557e32 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -978,6 +978,10 @@ void ScanTemporalUnits(
     absl::flat_hash_set<DecodedUleb128> substreams_seen;
   };
   PendingTu pending_tu;
+  // Start of the parameter blocks after the frames of the pending temporal
+  // unit. They belong to the next one, when that follows without a temporal
+  // delimiter.
+  int64_t next_tu_byte_offset = -1;
   uint64_t cumulative_timestamp = 0;
   uint32_t finalized_tu_count = 0;
   auto note_tu_start = [&](size_t byte_offset) {
@@ -1111,7 +1115,11 @@ void ScanTemporalUnits(
         // frame to the new one.
         if (pending_tu.substreams_seen.contains(substream_id)) {
           finalize_tu();
+          if (next_tu_byte_offset >= 0) {
+            note_tu_start(static_cast<size_t>(next_tu_byte_offset));
+          }
         }
+        next_tu_byte_offset = -1;
         note_tu_start(frame_start_offset);
         // First audio frame in a new TU supplies the canonical trim values.
         // Subsequent frames in the same TU carry identical values in
@@ -1156,7 +1164,11 @@ void ScanTemporalUnits(
           ++out.parameter_block_parse_errors;
           break;
         }
-        note_tu_start(block_start_offset);
+        if (pending_tu.substreams_seen.empty()) {
+          note_tu_start(block_start_offset);
+        } else if (next_tu_byte_offset < 0) {
+          next_tu_byte_offset = static_cast<int64_t>(block_start_offset);
+        }
         auto def_it = param_definition_variants.find(parameter_id);
         if (def_it == param_definition_variants.end()) {
           // Descriptors didn't declare this parameter id; we can't parse the
@@ -1211,6 +1223,7 @@ void ScanTemporalUnits(
         // finalise whatever pending frames preceded it, then begin the next
         // TU at the TD's byte offset.
         finalize_tu();
+        next_tu_byte_offset = -1;
         note_tu_start(td_start_offset);
         ++out.temporal_delimiter_count;
         // Header parsed and the OBU size fit in the buffer, so a skip failure
-- 
2.43.0


From 67d969f320e4f28b3be3022e910122661808fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:30 +0000
Subject: [PATCH 31/48] fix: split a linear mix gain at the limit of Q7.8

Interpolating between two points of 32767/256 dB can round to a value just
above them, which does not fit in Q7.8: the parameter block could not be
partitioned. Clamp the interpolated value.
---
 iamf/cli/parameter_block_partitioner.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iamf/cli/parameter_block_partitioner.cc b/iamf/cli/parameter_block_partitioner.cc
index 8ea88f0..d63bf47 100644
--- a/iamf/cli/parameter_block_partitioner.cc
+++ b/iamf/cli/parameter_block_partitioner.cc
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <limits>
 #include <list>
 #include <vector>
 
@@ -73,6 +74,13 @@ absl::Status InterpolateMixGainParameterData(
       },
       start_time, end_time, target_time, target_mix_gain_db));
 
+  // Rounding can put a value between two points just outside of the range of
+  // Q7.8, when the points are at its limits.
+  target_mix_gain_db =
+      std::clamp(target_mix_gain_db,
+                 Q7_8ToFloat(std::numeric_limits<int16_t>::min()),
+                 Q7_8ToFloat(std::numeric_limits<int16_t>::max()));
+
   // Interpolated values are in dB in float; convert back to Q7.8 to store in
   // the partitioned parameter block.
   return FloatToQ7_8(target_mix_gain_db, target_mix_gain);
-- 
2.43.0


From d3dc0a1d4e8421fdc77ace938a5c577014f30e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 32/48] fix: push delayed temporal units when an OBU sequencer
 is closed

Temporal units which come before the first untrimmed sample are held back with
the descriptors. Closing the sequencer pushed the descriptors but dropped these
temporal units, and updating the descriptors at closing pushed the finalized
ones although none had been pushed before.
---
 iamf/cli/obu_sequencer_base.cc | 68 ++++++++++++++++++----------------
 iamf/cli/obu_sequencer_base.h  |  6 +++
 2 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 6dd37e0..da92384 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -516,8 +516,12 @@ absl::Status ObuSequencerBase::UpdateDescriptorObusAndClose(
           "Descriptor OBUs have changed size between finalizing and closing.");
     }
 
+    // The original OBUs may still be delayed. Push them first, so there is
+    // something to finalize.
+    if (state_ == kPushDescriptorObusCalled) {
+      RETURN_IF_NOT_OK(PushDelayedObus());
+    }
     RETURN_IF_NOT_OK(PushFinalizedDescriptorObus(updated_descriptor_obus));
-    state_ = kPushSerializedDescriptorsCalled;
   }
   // OK, regardless of whether the descriptors actually changed, obey the
   // request to close.
@@ -533,18 +537,10 @@ absl::Status ObuSequencerBase::Close() {
     case kInitialized:
       break;
     case kPushDescriptorObusCalled: {
-      // Ok, trivial IA sequences don't have a first untrimmed timestamp. So
-      // we will simply push the descriptors with a fallback PTS of 0.
-      descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
-
-      RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
-          descriptor_statistics_->common_samples_per_frame,
-          descriptor_statistics_->common_sample_rate,
-          descriptor_statistics_->common_bit_depth,
-          descriptor_statistics_->first_untrimmed_timestamp,
-          descriptor_statistics_->num_channels,
-          descriptor_statistics_->descriptor_obus));
-      state_ = kPushSerializedDescriptorsCalled;
+      // Avoid leaving the output open, if it cannot be completed.
+      AbortOnDestruct abort_on_destruct(this);
+      RETURN_IF_NOT_OK(PushDelayedObus());
+      abort_on_destruct.CancelAbort();
       break;
     }
     case kPushSerializedDescriptorsCalled:
@@ -563,6 +559,33 @@ void ObuSequencerBase::Abort() {
   state_ = kClosed;
 }
 
+absl::Status ObuSequencerBase::PushDelayedObus() {
+  // Ok, trivial IA sequences don't have a first untrimmed timestamp. So we will
+  // simply push the descriptors with a fallback PTS of 0.
+  if (!descriptor_statistics_->first_untrimmed_timestamp.has_value()) {
+    descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
+  }
+  RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
+      descriptor_statistics_->common_samples_per_frame,
+      descriptor_statistics_->common_sample_rate,
+      descriptor_statistics_->common_bit_depth,
+      descriptor_statistics_->first_untrimmed_timestamp,
+      descriptor_statistics_->num_channels,
+      descriptor_statistics_->descriptor_obus));
+  state_ = kPushSerializedDescriptorsCalled;
+
+  // Flush any delayed temporal units.
+  for (const auto& delayed_temporal_unit : delayed_temporal_units_) {
+    RETURN_IF_NOT_OK(PushSerializedTemporalUnit(
+        delayed_temporal_unit.start_timestamp,
+        delayed_temporal_unit.num_untrimmed_samples,
+        delayed_temporal_unit.is_key_frame,
+        absl::MakeConstSpan(delayed_temporal_unit.data)));
+  }
+  delayed_temporal_units_.clear();
+  return absl::OkStatus();
+}
+
 absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
     const TemporalUnitView& temporal_unit,
     absl::Span<const uint8_t> serialized_temporal_unit, bool is_key_frame) {
@@ -595,24 +618,7 @@ absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
   }
 
   // Found the first untrimmed sample. Push out all delayed OBUs.
-  RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
-      descriptor_statistics_->common_samples_per_frame,
-      descriptor_statistics_->common_sample_rate,
-      descriptor_statistics_->common_bit_depth,
-      descriptor_statistics_->first_untrimmed_timestamp,
-      descriptor_statistics_->num_channels,
-      descriptor_statistics_->descriptor_obus));
-  state_ = kPushSerializedDescriptorsCalled;
-
-  // Flush any delayed temporal units.
-  for (const auto& delayed_temporal_unit : delayed_temporal_units_) {
-    RETURN_IF_NOT_OK(PushSerializedTemporalUnit(
-        delayed_temporal_unit.start_timestamp,
-        delayed_temporal_unit.num_untrimmed_samples,
-        delayed_temporal_unit.is_key_frame,
-        absl::MakeConstSpan(delayed_temporal_unit.data)));
-  }
-  delayed_temporal_units_.clear();
+  RETURN_IF_NOT_OK(PushDelayedObus());
   // Then finally, flush the current temporal unit.
   return PushSerializedTemporalUnit(temporal_unit.start_timestamp_,
                                     temporal_unit.num_untrimmed_samples_,
diff --git a/iamf/cli/obu_sequencer_base.h b/iamf/cli/obu_sequencer_base.h
index f49d72e..14e90ae 100644
--- a/iamf/cli/obu_sequencer_base.h
+++ b/iamf/cli/obu_sequencer_base.h
@@ -200,6 +200,12 @@ class ObuSequencerBase {
   const LebGenerator leb_generator_;
 
  private:
+  /*!\brief Pushes the delayed descriptor OBUs and temporal units.
+   *
+   * \return `absl::OkStatus()` on success. A specific status on failure.
+   */
+  absl::Status PushDelayedObus();
+
   /*!\brief Handles the initial temporal units.
    *
    * This function manages state to help process the initial temporal units up
-- 
2.43.0


From 2d41a360b97b3d132fe098e1d592131333eee4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:32 +0000
Subject: [PATCH 33/48] fix: refuse a temporal unit whose trims overflow

The sum of both trims wrapped around, so frames which trim more samples than
they have were accepted.
---
 iamf/cli/temporal_unit_view.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/temporal_unit_view.cc b/iamf/cli/temporal_unit_view.cc
index b9922a1..d8fbfe8 100644
--- a/iamf/cli/temporal_unit_view.cc
+++ b/iamf/cli/temporal_unit_view.cc
@@ -27,6 +27,7 @@
 #include "iamf/cli/audio_frame_with_data.h"
 #include "iamf/cli/parameter_block_with_data.h"
 #include "iamf/common/utils/macros.h"
+#include "iamf/common/utils/numeric_utils.h"
 #include "iamf/common/utils/validation_utils.h"
 #include "iamf/obu/arbitrary_obu.h"
 #include "iamf/obu/types.h"
@@ -69,8 +70,11 @@ ComputeTemporalUnitStatisticsFromAudioFrame(
 
   // Check the trim in the first frame is plausible. I.e. there are not at least
   // 0 samples. This also prevents underflow when subtracting later.
-  const uint32_t cumulative_trim = statistics.num_samples_to_trim_at_start +
-                                   statistics.num_samples_to_trim_at_end;
+  uint32_t cumulative_trim = 0;
+  RETURN_IF_NOT_OK(
+      AddUint32CheckOverflow(statistics.num_samples_to_trim_at_start,
+                             statistics.num_samples_to_trim_at_end,
+                             cumulative_trim));
   RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint32_t>(),
                             statistics.num_samples_per_frame,
                             "cumulative trim is <= `num_samples_per_frame`"));
-- 
2.43.0


From d4d172a21ee51b804f1329e05860e1a4e9c2c54e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 34/48] fix: flush audio elements without audio frames or
 without any samples

Without audio frame metadata the generator held a reference to a temporary
map. With a codec delay, finalizing without samples never terminated.
---
 .../proto_to_obu/audio_frame_generator.cc     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 91ad44c..c9ccb11 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -652,7 +652,7 @@ AudioFrameGenerator::Create(
     // Ok, nothing will be generated. This state helps clients handle trivial IA
     // Sequences.
     return absl::WrapUnique(new AudioFrameGenerator(
-        {}, {}, std::move(downmixer_manager), parameters_manager,
+        {}, audio_elements, std::move(downmixer_manager), parameters_manager,
         global_timing_module, {}, {}, {},
         /*max_codec_delay=*/0));
   }
@@ -877,10 +877,25 @@ absl::Status AudioFrameGenerator::OutputFrames(
     // time.
     for (const auto& [audio_element_id, audio_element_with_data] :
          audio_elements_) {
+      const auto labels_iter =
+          audio_element_id_to_labels_.find(audio_element_id);
+      if (labels_iter == audio_element_id_to_labels_.end()) {
+        // No audio frames are generated for this audio element.
+        continue;
+      }
+      // There will be no further samples. Labels which never had any are empty.
+      auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
+      for (const auto& label : labels_iter->second) {
+        labeled_samples.try_emplace(label);
+      }
+      if (!SamplesReadyForAudioElement(labeled_samples, labels_iter->second)) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Labels have different numbers of samples. audio_element_id= ",
+            audio_element_id));
+      }
       RETURN_IF_NOT_OK(MaybeEncodeFramesForAudioElement(
-          audio_element_id, audio_element_with_data,
-          audio_element_id_to_labels_.at(audio_element_id), *downmixer_manager_,
-          id_to_labeled_samples_[audio_element_id],
+          audio_element_id, audio_element_with_data, labels_iter->second,
+          *downmixer_manager_, labeled_samples,
           substream_id_to_trimming_state_, parameters_manager_,
           substream_id_to_encoder_, substream_id_to_substream_data_,
           global_timing_module_));
-- 
2.43.0


From 830b28b6b3d90b5e71977500fead90c54624a4c6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 35/48] fix: refuse samples after a partial frame was padded

They were given out after the padding, so real samples were trimmed away or
later samples became misaligned.
---
 .../proto_to_obu/audio_frame_generator.cc          | 14 ++++++++++++++
 .../proto_to_obu/audio_frame_generator.h           |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index c9ccb11..ca5be57 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -326,6 +326,18 @@ absl::Status GetNextFrameSubstreamData(
     return absl::OkStatus();
   }
 
+  if (!no_sample_added &&
+      std::any_of(
+          substream_id_to_labels.begin(), substream_id_to_labels.end(),
+          [&](const auto& entry) {
+            return substream_id_to_trimming_state.at(entry.first).padded;
+          })) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Samples were added after a partial frame was padded. Only the last "
+        "frame may be partial. audio_element_id= ",
+        audio_element_id));
+  }
+
   RETURN_IF_NOT_OK(DownMixSamples(
       audio_element_id, downmixer_manager, label_to_samples, parameters_manager,
       substream_id_to_substream_data, down_mixing_params));
@@ -344,6 +356,7 @@ absl::Status GetNextFrameSubstreamData(
           trimming_state.user_samples_left_to_trim_at_end,
           num_samples_to_pad_at_end));
 
+      trimming_state.padded = true;
       substream_data.frames_in_obu.PadZeros(num_samples_to_pad_at_end);
       substream_data.frames_to_encode.PadZeros(num_samples_to_pad_at_end);
 
@@ -362,6 +375,7 @@ absl::Status GetNextFrameSubstreamData(
       // need to be added. These samples will be "left in" the decoder
       // after all OBUs are processed, but they should not count as being
       // trimmed.
+      substream_id_to_trimming_state.at(substream_id).padded = true;
       substream_data.frames_to_encode.PadZeros(num_samples_to_pad);
     }
   }
diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h
index 6eac332..f903957 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h
@@ -84,6 +84,9 @@ class AudioFrameGenerator {
 
     int64_t user_samples_left_to_trim_at_end;
     int64_t user_samples_left_to_trim_at_start;
+
+    // Set once padding was inserted after the samples; no more may follow.
+    bool padded = false;
   };
 
   /*!\brief Factory function to create an `AudioFrameGenerator`.
-- 
2.43.0


From 618cb52291f72cda420b4f9777d967edfd1f0a02 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 36/48] fix: refuse to overwrite samples that wait for the
 temporal unit

---
 iamf/cli/iamf_encoder.cc                                    | 6 ++++++
 .../proto_conversion/proto_to_obu/audio_frame_generator.cc  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 2b7895b..0b72fa6 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -520,6 +520,12 @@ absl::Status IamfEncoder::Encode(
       // Cache the samples as the internal type.
       auto& cached_samples =
           id_to_labeled_samples_[audio_element_id][*internal_label];
+      if (!cached_samples.empty()) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Samples were already provided for this temporal unit. "
+            "audio_element_id= ",
+            audio_element_id));
+      }
       cached_samples.resize(samples.size());
       // Cast double to InternalSampleType.
       std::transform(samples.begin(), samples.end(), cached_samples.begin(),
diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index ca5be57..05d4e9c 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -849,6 +849,12 @@ absl::Status AudioFrameGenerator::AddSamples(
   }
 
   auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
+  if (!labeled_samples[label].empty()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Samples were added twice for a label before the other "
+                     "labels had theirs. audio_element_id= ",
+                     audio_element_id));
+  }
   labeled_samples[label] =
       std::vector<InternalSampleType>(samples.begin(), samples.end());
 
-- 
2.43.0


From 199a3fca4c5102f9e59e178bfd59731ad928d72a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 37/48] fix: clear the output buffer when there is no temporal
 unit to output

---
 iamf/cli/iamf_encoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 0b72fa6..d0705b2 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -540,6 +540,9 @@ absl::Status IamfEncoder::Encode(
 
 absl::Status IamfEncoder::OutputTemporalUnit(
     std::vector<uint8_t>& temporal_unit_obus) {
+  // The buffer may be reused; there may be nothing to output this time.
+  temporal_unit_obus.clear();
+
   std::list<AudioFrameWithData> audio_frames;
   std::list<ParameterBlockWithData> parameter_blocks;
   std::list<ArbitraryObu> temporal_unit_arbitrary_obus;
-- 
2.43.0


From b91376ac3c6764e5c2745354878e94518f023b76 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:05:17 +0000
Subject: [PATCH 38/48] fix: keep arbitrary OBUs while delayed frames are still
 to come

---
 iamf/cli/iamf_encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index d0705b2..12248a0 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -583,7 +583,7 @@ absl::Status IamfEncoder::OutputTemporalUnit(
     // retrieve it.
     ABSL_VLOG(1) << "No audio frames generated for this temporal unit.";
 
-    if (finalize_encode_called_) {
+    if (finalize_encode_called_ && !audio_frame_generator_->GeneratingFrames()) {
       // At the end of the sequence, there could be some extraneous arbitrary
       // OBUs that are not associated with any audio frames. Pop the next set.
       SpliceArbitraryObus(timestamp_to_arbitrary_obus_.begin(),
-- 
2.43.0


From 36615b61380525533e93378487ee2303deab508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 39/48] fix: keep the reserved bits of a scalable channel
 layout

---
 .../proto_conversion/proto_to_obu/audio_element_generator.cc   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index 252f7c0..2fea00f 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -351,6 +351,9 @@ absl::StatusOr<AudioElementWithData> CreateChannelBasedAudioElementWithData(
       audio_element_metadata.scalable_channel_layout_config();
 
   auto config = ScalableChannelLayoutConfig();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "ScalableChannelLayoutConfig.reserved", input_config.reserved(),
+      config.reserved));
   config.channel_audio_layer_configs.reserve(
       input_config.channel_audio_layer_configs_size());
   for (const auto& input_layer_config :
-- 
2.43.0


From 828b43b1246080b37d00351fdd859da4d4563ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 40/48] fix: refuse reserved bits of an audio element that do
 not fit

---
 .../proto_to_obu/audio_element_generator.cc   | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index 2fea00f..ebab0b1 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -254,6 +254,17 @@ absl::Status ValidateReconGainDefined(
   return absl::OkStatus();
 }
 
+// Gets the `reserved` field of the `AudioElementObu` based on the input data.
+absl::StatusOr<uint8_t> GetReserved(
+    const iamf_tools_cli_proto::AudioElementObuMetadata&
+        audio_element_metadata) {
+  uint8_t reserved;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "AudioElementObuMetadata.reserved", audio_element_metadata.reserved(),
+      reserved));
+  return reserved;
+}
+
 // Copies the `LoudspeakerLayout` based on the input data.
 absl::Status CopyLoudspeakerLayout(
     const iamf_tools_cli_proto::ChannelAudioLayerConfig&
@@ -396,10 +407,14 @@ absl::StatusOr<AudioElementWithData> CreateChannelBasedAudioElementWithData(
     config.channel_audio_layer_configs.emplace_back(std::move(layer_config));
   }
 
+  const auto reserved = GetReserved(audio_element_metadata);
+  if (!reserved.ok()) {
+    return reserved.status();
+  }
   auto obu = AudioElementObu::CreateForScalableChannelLayout(
       GetHeaderFromMetadata(audio_element_metadata.obu_header()),
       audio_element_metadata.audio_element_id(),
-      audio_element_metadata.reserved(),
+      *reserved,
       audio_element_metadata.codec_config_id(),
       MakeConstSpan(audio_element_metadata.audio_substream_ids()), config);
   if (!obu.ok()) {
@@ -564,10 +579,14 @@ absl::StatusOr<AudioElementWithData> CreateAmbisonicsAudioElementWithData(
     return ambisonics_config.status();
   }
 
+  const auto reserved = GetReserved(audio_element_metadata);
+  if (!reserved.ok()) {
+    return reserved.status();
+  }
   auto obu = AudioElementObu::CreateForAmbisonics(
       GetHeaderFromMetadata(audio_element_metadata.obu_header()),
       audio_element_metadata.audio_element_id(),
-      audio_element_metadata.reserved(),
+      *reserved,
       audio_element_metadata.codec_config_id(),
       audio_element_metadata.audio_substream_ids(), *ambisonics_config);
   if (!obu.ok()) {
@@ -606,10 +625,14 @@ absl::StatusOr<AudioElementWithData> CreateObjectsAudioElementWithData(
         audio_element_metadata.audio_substream_ids_size(), " substreams."));
   }
 
+  const auto reserved = GetReserved(audio_element_metadata);
+  if (!reserved.ok()) {
+    return reserved.status();
+  }
   absl::StatusOr<AudioElementObu> obu = AudioElementObu::CreateForObjects(
       GetHeaderFromMetadata(audio_element_metadata.obu_header()),
       audio_element_metadata.audio_element_id(),
-      audio_element_metadata.reserved(),
+      *reserved,
       audio_element_metadata.codec_config_id(),
       audio_element_metadata.audio_substream_ids()[0], *objects_config);
 
-- 
2.43.0


From db687755ca9d4a860c5f026d206648261ed15e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 41/48] fix: refuse a number of objects that does not fit

---
 .../proto_to_obu/audio_element_generator.cc                | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index ebab0b1..7ceae17 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -611,8 +611,11 @@ absl::StatusOr<AudioElementWithData> CreateObjectsAudioElementWithData(
   std::vector<uint8_t> objects_config_extension_bytes = {
       input_config.objects_config_extension_bytes().begin(),
       input_config.objects_config_extension_bytes().end()};
-  auto objects_config = ObjectsConfig::Create(input_config.num_objects(),
-                                              objects_config_extension_bytes);
+  uint8_t num_objects;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "ObjectsConfig.num_objects", input_config.num_objects(), num_objects));
+  auto objects_config =
+      ObjectsConfig::Create(num_objects, objects_config_extension_bytes);
   if (!objects_config.ok()) {
     return objects_config.status();
   }
-- 
2.43.0


From 722d2d754f408318ccda145e33dc92d1a7fa5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 42/48] fix: generate the parameters of object-based audio
 elements

---
 .../proto_conversion/proto_to_obu/audio_element_generator.cc    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index 7ceae17..69a9551 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -642,6 +642,8 @@ absl::StatusOr<AudioElementWithData> CreateObjectsAudioElementWithData(
   if (!obu.ok()) {
     return obu.status();
   }
+  RETURN_IF_NOT_OK(GenerateParameterDefinitions(audio_element_metadata,
+                                                codec_config_obu, *obu));
 
   SubstreamIdLabelsMap substream_id_to_labels;
   RETURN_IF_NOT_OK(ObuWithDataGenerator::FinalizeObjectsConfig(
-- 
2.43.0


From d30ae816f540320e060526f30cc2a85a1ab55ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 43/48] fix: refuse default positions that do not fit

---
 .../mix_presentation_generator.cc             | 122 ++++++++++++------
 1 file changed, 81 insertions(+), 41 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
index ec06f29..fcd540a 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
@@ -89,11 +89,15 @@ absl::StatusOr<PolarParamDefinition> CreatePolarParamDefinition(
     return base_args.status();
   }
   PolarParamDefinition param_definition(*base_args);
-  param_definition.default_azimuth_ = input_param_definition.default_azimuth();
-  param_definition.default_elevation_ =
-      input_param_definition.default_elevation();
-  param_definition.default_distance_ =
-      input_param_definition.default_distance();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("PolarParamDefinition.default_azimuth",
+                                       input_param_definition.default_azimuth(),
+                                       param_definition.default_azimuth_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("PolarParamDefinition.default_elevation",
+                                       input_param_definition.default_elevation(),
+                                       param_definition.default_elevation_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("PolarParamDefinition.default_distance",
+                                       input_param_definition.default_distance(),
+                                       param_definition.default_distance_));
   return param_definition;
 }
 
@@ -105,9 +109,15 @@ absl::StatusOr<Cart8ParamDefinition> CreateCart8ParamDefinition(
     return base_args.status();
   }
   Cart8ParamDefinition param_definition(*base_args);
-  param_definition.default_x_ = input_param_definition.default_x();
-  param_definition.default_y_ = input_param_definition.default_y();
-  param_definition.default_z_ = input_param_definition.default_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("Cart8ParamDefinition.default_x",
+                                       input_param_definition.default_x(),
+                                       param_definition.default_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("Cart8ParamDefinition.default_y",
+                                       input_param_definition.default_y(),
+                                       param_definition.default_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("Cart8ParamDefinition.default_z",
+                                       input_param_definition.default_z(),
+                                       param_definition.default_z_));
   return param_definition;
 }
 
@@ -119,9 +129,15 @@ absl::StatusOr<Cart16ParamDefinition> CreateCart16ParamDefinition(
     return base_args.status();
   }
   Cart16ParamDefinition param_definition(*base_args);
-  param_definition.default_x_ = input_param_definition.default_x();
-  param_definition.default_y_ = input_param_definition.default_y();
-  param_definition.default_z_ = input_param_definition.default_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("Cart16ParamDefinition.default_x",
+                                       input_param_definition.default_x(),
+                                       param_definition.default_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("Cart16ParamDefinition.default_y",
+                                       input_param_definition.default_y(),
+                                       param_definition.default_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("Cart16ParamDefinition.default_z",
+                                       input_param_definition.default_z(),
+                                       param_definition.default_z_));
   return param_definition;
 }
 
@@ -134,18 +150,24 @@ absl::StatusOr<DualPolarParamDefinition> CreateDualPolarParamDefinition(
     return base_args.status();
   }
   DualPolarParamDefinition param_definition(*base_args);
-  param_definition.default_first_azimuth_ =
-      input_param_definition.default_first_azimuth();
-  param_definition.default_first_elevation_ =
-      input_param_definition.default_first_elevation();
-  param_definition.default_first_distance_ =
-      input_param_definition.default_first_distance();
-  param_definition.default_second_azimuth_ =
-      input_param_definition.default_second_azimuth();
-  param_definition.default_second_elevation_ =
-      input_param_definition.default_second_elevation();
-  param_definition.default_second_distance_ =
-      input_param_definition.default_second_distance();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualPolarParamDefinition.default_first_azimuth",
+                                       input_param_definition.default_first_azimuth(),
+                                       param_definition.default_first_azimuth_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualPolarParamDefinition.default_first_elevation",
+                                       input_param_definition.default_first_elevation(),
+                                       param_definition.default_first_elevation_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualPolarParamDefinition.default_first_distance",
+                                       input_param_definition.default_first_distance(),
+                                       param_definition.default_first_distance_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualPolarParamDefinition.default_second_azimuth",
+                                       input_param_definition.default_second_azimuth(),
+                                       param_definition.default_second_azimuth_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualPolarParamDefinition.default_second_elevation",
+                                       input_param_definition.default_second_elevation(),
+                                       param_definition.default_second_elevation_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualPolarParamDefinition.default_second_distance",
+                                       input_param_definition.default_second_distance(),
+                                       param_definition.default_second_distance_));
   return param_definition;
 }
 
@@ -158,15 +180,24 @@ absl::StatusOr<DualCart8ParamDefinition> CreateDualCart8ParamDefinition(
     return base_args.status();
   }
   DualCart8ParamDefinition param_definition(*base_args);
-  param_definition.default_first_x_ = input_param_definition.default_first_x();
-  param_definition.default_first_y_ = input_param_definition.default_first_y();
-  param_definition.default_first_z_ = input_param_definition.default_first_z();
-  param_definition.default_second_x_ =
-      input_param_definition.default_second_x();
-  param_definition.default_second_y_ =
-      input_param_definition.default_second_y();
-  param_definition.default_second_z_ =
-      input_param_definition.default_second_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart8ParamDefinition.default_first_x",
+                                       input_param_definition.default_first_x(),
+                                       param_definition.default_first_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart8ParamDefinition.default_first_y",
+                                       input_param_definition.default_first_y(),
+                                       param_definition.default_first_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart8ParamDefinition.default_first_z",
+                                       input_param_definition.default_first_z(),
+                                       param_definition.default_first_z_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart8ParamDefinition.default_second_x",
+                                       input_param_definition.default_second_x(),
+                                       param_definition.default_second_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart8ParamDefinition.default_second_y",
+                                       input_param_definition.default_second_y(),
+                                       param_definition.default_second_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart8ParamDefinition.default_second_z",
+                                       input_param_definition.default_second_z(),
+                                       param_definition.default_second_z_));
   return param_definition;
 }
 
@@ -179,15 +210,24 @@ absl::StatusOr<DualCart16ParamDefinition> CreateDualCart16ParamDefinition(
     return base_args.status();
   }
   DualCart16ParamDefinition param_definition(*base_args);
-  param_definition.default_first_x_ = input_param_definition.default_first_x();
-  param_definition.default_first_y_ = input_param_definition.default_first_y();
-  param_definition.default_first_z_ = input_param_definition.default_first_z();
-  param_definition.default_second_x_ =
-      input_param_definition.default_second_x();
-  param_definition.default_second_y_ =
-      input_param_definition.default_second_y();
-  param_definition.default_second_z_ =
-      input_param_definition.default_second_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart16ParamDefinition.default_first_x",
+                                       input_param_definition.default_first_x(),
+                                       param_definition.default_first_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart16ParamDefinition.default_first_y",
+                                       input_param_definition.default_first_y(),
+                                       param_definition.default_first_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart16ParamDefinition.default_first_z",
+                                       input_param_definition.default_first_z(),
+                                       param_definition.default_first_z_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart16ParamDefinition.default_second_x",
+                                       input_param_definition.default_second_x(),
+                                       param_definition.default_second_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart16ParamDefinition.default_second_y",
+                                       input_param_definition.default_second_y(),
+                                       param_definition.default_second_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange("DualCart16ParamDefinition.default_second_z",
+                                       input_param_definition.default_second_z(),
+                                       param_definition.default_second_z_));
   return param_definition;
 }
 
-- 
2.43.0


From e84c1a2103f60857ca103ad53d35453b3935aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 44/48] fix: refuse ITU-T T.35 country codes that do not fit

---
 iamf/cli/proto_conversion/proto_to_obu/BUILD   |  2 ++
 .../proto_to_obu/metadata_obu_generator.cc     | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/BUILD b/iamf/cli/proto_conversion/proto_to_obu/BUILD
index c1de01c..87c2dcf 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/BUILD
+++ b/iamf/cli/proto_conversion/proto_to_obu/BUILD
@@ -157,6 +157,8 @@ cc_library(
     hdrs = ["metadata_obu_generator.h"],
     deps = [
         "//iamf/cli/proto:metadata_obu_cc_proto",
+        "//iamf/common/utils:macros",
+        "//iamf/common/utils:numeric_utils",
         "//iamf/obu:metadata_obu",
         "//iamf/obu:obu_header",
         "@abseil-cpp//absl/status",
diff --git a/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc
index 80b9b11..cd847a0 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc
@@ -12,12 +12,15 @@
 
 #include "iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.h"
 
+#include <cstdint>
 #include <list>
 #include <utility>
 
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "iamf/cli/proto/metadata_obu.pb.h"
+#include "iamf/common/utils/macros.h"
+#include "iamf/common/utils/numeric_utils.h"
 #include "iamf/obu/metadata_obu.h"
 #include "iamf/obu/obu_header.h"
 
@@ -25,15 +28,22 @@ namespace iamf_tools {
 
 namespace {
 
-MetadataObu CreateMetadataITUTT35(
+absl::StatusOr<MetadataObu> CreateMetadataITUTT35(
     const iamf_tools_cli_proto::MetadataITUTT35& metadata_itu_t_t35) {
   MetadataITUTT35 metadata_itu_t_t35_obu;
-  metadata_itu_t_t35_obu.itu_t_t35_country_code =
-      metadata_itu_t_t35.itu_t_t35_country_code();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "MetadataITUTT35.itu_t_t35_country_code",
+      metadata_itu_t_t35.itu_t_t35_country_code(),
+      metadata_itu_t_t35_obu.itu_t_t35_country_code));
   if (metadata_itu_t_t35.has_itu_t_t35_country_code_extension_byte() &&
       metadata_itu_t_t35.itu_t_t35_country_code() == 0xff) {
+    uint8_t extension_byte;
+    RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+        "MetadataITUTT35.itu_t_t35_country_code_extension_byte",
+        metadata_itu_t_t35.itu_t_t35_country_code_extension_byte(),
+        extension_byte));
     metadata_itu_t_t35_obu.itu_t_t35_country_code_extension_byte =
-        metadata_itu_t_t35.itu_t_t35_country_code_extension_byte();
+        extension_byte;
   }
   metadata_itu_t_t35_obu.itu_t_t35_payload_bytes = {
       metadata_itu_t_t35.itu_t_t35_payload_bytes().begin(),
-- 
2.43.0


From f0a1c152d656795e8811fdc7049dd5bae753a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 45/48] fix: copy extension header bytes from 128 on into
 metadata

---
 iamf/cli/proto_conversion/obu_to_proto/BUILD      |  3 ---
 .../obu_to_proto/obu_header_metadata_generator.cc | 15 +++++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/iamf/cli/proto_conversion/obu_to_proto/BUILD b/iamf/cli/proto_conversion/obu_to_proto/BUILD
index ad0ebec..5f6e546 100644
--- a/iamf/cli/proto_conversion/obu_to_proto/BUILD
+++ b/iamf/cli/proto_conversion/obu_to_proto/BUILD
@@ -30,11 +30,8 @@ cc_library(
     hdrs = ["obu_header_metadata_generator.h"],
     deps = [
         "//iamf/cli/proto:obu_header_cc_proto",
-        "//iamf/common/utils:macros",
-        "//iamf/common/utils:numeric_utils",
         "//iamf/obu:obu_header",
         "@abseil-cpp//absl/status:statusor",
-        "@abseil-cpp//absl/types:span",
     ],
 )
 
diff --git a/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc b/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc
index 685a3c1..9cf50dd 100644
--- a/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc
+++ b/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc
@@ -12,10 +12,7 @@
 #include "iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.h"
 
 #include "absl/status/statusor.h"
-#include "absl/types/span.h"
 #include "iamf/cli/proto/obu_header.pb.h"
-#include "iamf/common/utils/macros.h"
-#include "iamf/common/utils/numeric_utils.h"
 #include "iamf/obu/obu_header.h"
 
 namespace iamf_tools {
@@ -31,13 +28,11 @@ ObuHeaderMetadataGenerator::Generate(const ObuHeader& obu_header) {
   result.set_num_samples_to_trim_at_end(obu_header.num_samples_to_trim_at_end);
   result.set_num_samples_to_trim_at_start(
       obu_header.num_samples_to_trim_at_start);
-  result.mutable_extension_header_bytes()->resize(
-      obu_header.GetExtensionHeaderSize());
-  if (obu_header.GetExtensionHeaderFlag()) {
-    RETURN_IF_NOT_OK(StaticCastSpanIfInRange(
-        "extension_header_bytes",
-        absl::MakeConstSpan(*obu_header.extension_header_bytes),
-        absl::MakeSpan(*result.mutable_extension_header_bytes())));
+  if (obu_header.extension_header_bytes.has_value()) {
+    // The bytes of a proto may be signed; copy them without regard to range.
+    result.mutable_extension_header_bytes()->assign(
+        obu_header.extension_header_bytes->begin(),
+        obu_header.extension_header_bytes->end());
   }
 
   return result;
-- 
2.43.0


From 515d69bc01123d39df5a80ada9f0ae5cd7f61faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 46/48] fix: refuse more than one subblock of demixing or recon
 gain

---
 .../proto_to_obu/parameter_block_generator.cc                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index 1708be4..a4a6aa7 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -438,7 +438,7 @@ absl::Status GenerateParameterBlockSubblock(
       break;
     }
     case kParameterDefinitionDemixing: {
-      if (subblock_index > 1) {
+      if (subblock_index > 0) {
         return absl::InvalidArgumentError(
             "There should be only one subblock for demixing info.");
       }
@@ -453,7 +453,7 @@ absl::Status GenerateParameterBlockSubblock(
       break;
     }
     case kParameterDefinitionReconGain: {
-      if (subblock_index > 1) {
+      if (subblock_index > 0) {
         return absl::InvalidArgumentError(
             "There should be only one subblock for recon gain info.");
       }
-- 
2.43.0


From 894a380556f5209bd00b5d0a4c107aaa3d515387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 47/48] fix: refuse recon gains for fewer layers than the
 element has

---
 .../proto_to_obu/parameter_block_generator.cc              | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index a4a6aa7..e97cb7c 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -337,6 +337,13 @@ absl::Status GenerateReconGainSubblock(
     }
     output_recon_gain_element.emplace(ReconGainElement{});
 
+    if (layer_index >= user_recon_gains_layers.size()) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "Recon gain is present for layer ", layer_index,
+          ", but the user only specifies ", user_recon_gains_layers.size(),
+          " layers."));
+    }
+
     // Construct the bitmask indicating the channels where recon gains are
     // present.
     std::vector<uint8_t> user_recon_gains(12, 0);
-- 
2.43.0


From 2ce9fa71ad08dff03c3b78af503be0919684481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:39 +0000
Subject: [PATCH 48/48] fix: refuse recon gains of channels or values that do
 not fit

---
 .../proto_to_obu/parameter_block_generator.cc            | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index e97cb7c..6c4c695 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -350,8 +350,15 @@ absl::Status GenerateReconGainSubblock(
     DecodedUleb128 user_recon_gain_flag = 0;
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
+      if (bit_position >= user_recon_gains.size()) {
+        return absl::InvalidArgumentError(
+            absl::StrCat("Recon gain bit position is out of range: ",
+                         bit_position));
+      }
       user_recon_gain_flag |= 1 << bit_position;
-      user_recon_gains[bit_position] = user_recon_gain;
+      RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+          "ReconGains.recon_gain", user_recon_gain,
+          user_recon_gains[bit_position]));
     }
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
-- 
2.43.0

