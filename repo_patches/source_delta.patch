From c80bd336715c6180d421860c40ccdab7ff4a94ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 01/49] fix: initialize the position-validity flag of read bit
 buffers

Seeking a freshly created ReadBitBuffer read an uninitialized bool.
---
 iamf/common/read_bit_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iamf/common/read_bit_buffer.h b/iamf/common/read_bit_buffer.h
index f73c561..8165a10 100644
--- a/iamf/common/read_bit_buffer.h
+++ b/iamf/common/read_bit_buffer.h
@@ -299,7 +299,7 @@ class ReadBitBuffer {
   int64_t source_bit_offset_ = 0;
 
   // Specifies whether a position returned by Tell() is valid.
-  bool is_position_valid_;
+  bool is_position_valid_ = true;
 };
 
 /*!\brief Memory-based read bit buffer.
-- 
2.43.0


From 6fc72a1150fc5385ac14b2c1b33639ec25e0685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 02/49] fix: compare mixed-sign values correctly in
 StaticCastIfInRange

A negative int was accepted (wrapped) for a uint32_t output and a small
uint32_t was refused for an int32_t output, because both sides of the range
check were converted to unsigned.
---
 iamf/common/utils/numeric_utils.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/iamf/common/utils/numeric_utils.h b/iamf/common/utils/numeric_utils.h
index b284e90..38157bb 100644
--- a/iamf/common/utils/numeric_utils.h
+++ b/iamf/common/utils/numeric_utils.h
@@ -98,7 +98,22 @@ absl::Status StaticCastIfInRange(absl::string_view field_name, InputType input,
       std::is_same_v<InputType, char> && std::is_same_v<OutputType, uint8_t>;
   constexpr OutputType kMinOutput = std::numeric_limits<OutputType>::min();
   constexpr OutputType kMaxOutput = std::numeric_limits<OutputType>::max();
-  bool is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  bool is_in_range;
+  if constexpr (std::is_integral_v<InputType> &&
+                std::is_integral_v<OutputType> &&
+                std::is_signed_v<InputType> && !std::is_signed_v<OutputType>) {
+    is_in_range =
+        input >= 0 &&
+        static_cast<std::make_unsigned_t<InputType>>(input) <= kMaxOutput;
+  } else if constexpr (std::is_integral_v<InputType> &&
+                       std::is_integral_v<OutputType> &&
+                       !std::is_signed_v<InputType> &&
+                       std::is_signed_v<OutputType>) {
+    is_in_range =
+        input <= static_cast<std::make_unsigned_t<OutputType>>(kMaxOutput);
+  } else {
+    is_in_range = kMinOutput <= input && input <= kMaxOutput;
+  }
 
   if (is_in_range || is_char_to_raw_bytes) [[likely]] {
     output = static_cast<OutputType>(input);
-- 
2.43.0


From 6b5e5a632e72bca2a747cb326f664590509c4994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 03/49] fix: do not wrap the OBU payload size for huge
 extension header sizes

A five byte extension_header_size near 2^32 wrapped the uint32_t sum, passed
the plausibility check and allocated gigabytes for a few input bytes.
---
 iamf/obu/obu_header.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index e2444f2..d07cef0 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -192,9 +192,11 @@ int64_t GetObuPayloadSize(DecodedUleb128 obu_size,
                           int8_t num_samples_to_trim_at_start_size,
                           int8_t extension_header_size_size,
                           DecodedUleb128 extension_header_bytes_size) {
+  // Sum as `int64_t`; a large `extension_header_bytes_size` may not wrap.
   return static_cast<int64_t>(obu_size) -
-         (num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
-          extension_header_size_size + extension_header_bytes_size);
+         (static_cast<int64_t>(extension_header_bytes_size) +
+          num_samples_to_trim_at_end_size + num_samples_to_trim_at_start_size +
+          extension_header_size_size);
 }
 
 absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
-- 
2.43.0


From 4fd115a4f7a555f6031117798042fb42d6b149b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 04/49] fix: compute the peeked total OBU size without uint32_t
 wrap-around

---
 iamf/obu/obu_header.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/obu_header.cc b/iamf/obu/obu_header.cc
index d07cef0..0daddbc 100644
--- a/iamf/obu/obu_header.cc
+++ b/iamf/obu/obu_header.cc
@@ -213,7 +213,8 @@ absl::Status FillHeaderMetadata(ReadBitBuffer& rb,
   int8_t size_of_obu_size = 0;
   RETURN_IF_NOT_OK(rb.ReadULeb128(obu_size, size_of_obu_size));
   // The extra byte is for the `obu_type` field + the three boolean fields.
-  output_header_metadata.total_obu_size = obu_size + size_of_obu_size + 1;
+  output_header_metadata.total_obu_size =
+      static_cast<int64_t>(obu_size) + size_of_obu_size + 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From c214a7c22b00344eadc880a62b27b0519c4d8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 05/49] fix: refuse to encode after Finalize while frames are
 still pending

EncoderBase documents that EncodeAudioFrame() fails after Finalize(), but
ValidateNotFinalized() asked Finished(), which is false until the last
pending frame was popped.
---
 iamf/cli/codec/encoder_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/codec/encoder_base.h b/iamf/cli/codec/encoder_base.h
index be14cda..a0e4cd5 100644
--- a/iamf/cli/codec/encoder_base.h
+++ b/iamf/cli/codec/encoder_base.h
@@ -169,7 +169,8 @@ class EncoderBase {
    * \return `absl::OkStatus()` on success. A specific status on failure.
    */
   absl::Status ValidateNotFinalized() {
-    if (Finished()) {
+    absl::MutexLock lock(mutex_);
+    if (finished_) {
       return absl::InvalidArgumentError(
           "Encoding is disallowed after `Finalize()` has been called");
     }
-- 
2.43.0


From 6d109ced4cbe45b8b10bd6bee6aa9f5490dcbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 06/49] fix: validate the tick count of every channel passed to
 an encoder

Only the first channel was checked; a shorter second channel was read out
of bounds.
---
 iamf/cli/codec/encoder_base.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/codec/encoder_base.cc b/iamf/cli/codec/encoder_base.cc
index 307d34c..46cc66d 100644
--- a/iamf/cli/codec/encoder_base.cc
+++ b/iamf/cli/codec/encoder_base.cc
@@ -41,11 +41,13 @@ absl::Status EncoderBase::ValidateInputSamples(
     return absl::InvalidArgumentError("samples cannot be empty.");
   }
 
-  if (samples[0].size() != num_samples_per_frame_) {
-    auto error_message = absl::StrCat("Found ", samples[0].size(),
-                                      " samples per channels. Expected ",
-                                      num_samples_per_frame_, ".");
-    return absl::InvalidArgumentError(error_message);
+  for (const auto& channel_samples : samples) {
+    if (channel_samples.size() != num_samples_per_frame_) {
+      auto error_message = absl::StrCat("Found ", channel_samples.size(),
+                                        " samples per channels. Expected ",
+                                        num_samples_per_frame_, ".");
+      return absl::InvalidArgumentError(error_message);
+    }
   }
 
   return absl::OkStatus();
-- 
2.43.0


From ffaafc46dd44424fe37b3a74b14b4a76283fd9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 07/49] fix: convert OBU extension header bytes above 127 to
 the proto

---
 .../obu_to_proto/obu_header_metadata_generator.cc  | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc b/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc
index 685a3c1..ff5d674 100644
--- a/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc
+++ b/iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.cc
@@ -12,10 +12,7 @@
 #include "iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.h"
 
 #include "absl/status/statusor.h"
-#include "absl/types/span.h"
 #include "iamf/cli/proto/obu_header.pb.h"
-#include "iamf/common/utils/macros.h"
-#include "iamf/common/utils/numeric_utils.h"
 #include "iamf/obu/obu_header.h"
 
 namespace iamf_tools {
@@ -31,13 +28,12 @@ ObuHeaderMetadataGenerator::Generate(const ObuHeader& obu_header) {
   result.set_num_samples_to_trim_at_end(obu_header.num_samples_to_trim_at_end);
   result.set_num_samples_to_trim_at_start(
       obu_header.num_samples_to_trim_at_start);
-  result.mutable_extension_header_bytes()->resize(
-      obu_header.GetExtensionHeaderSize());
   if (obu_header.GetExtensionHeaderFlag()) {
-    RETURN_IF_NOT_OK(StaticCastSpanIfInRange(
-        "extension_header_bytes",
-        absl::MakeConstSpan(*obu_header.extension_header_bytes),
-        absl::MakeSpan(*result.mutable_extension_header_bytes())));
+    result.mutable_extension_header_bytes()->assign(
+        obu_header.extension_header_bytes->begin(),
+        obu_header.extension_header_bytes->end());
+  } else {
+    result.mutable_extension_header_bytes()->clear();
   }
 
   return result;
-- 
2.43.0


From f8ab96bbeb4e7add09028b185439cb07e4a67b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 08/49] fix: keep the per-frame MLSD one-dimensional for audio
 shorter than a hop

---
 validation/mlsd_comparator/mlsd_comparator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validation/mlsd_comparator/mlsd_comparator.py b/validation/mlsd_comparator/mlsd_comparator.py
index b23c684..168eaaa 100644
--- a/validation/mlsd_comparator/mlsd_comparator.py
+++ b/validation/mlsd_comparator/mlsd_comparator.py
@@ -76,8 +76,9 @@ def calc_per_channel_mlsd_pcm(
     # Average across mel bins, which is the 0th dimension
     mlsd_per_frame = np.sqrt(np.mean(diff_squared, axis=0))
 
-    # shape: (1, num_frames) -> (num_frames,)
-    mlsd_per_frame = np.squeeze(mlsd_per_frame)
+    # shape: (1, num_frames) -> (num_frames,). Audio shorter than one hop has a
+    # single frame, which must not collapse to a scalar.
+    mlsd_per_frame = np.atleast_1d(np.squeeze(mlsd_per_frame))
 
     mlsd_list.append(mlsd_per_frame)
 
-- 
2.43.0


From ec1aefaf27502fc684aa68cb55b31f180fb5785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 09/49] fix: keep the config bytes of an audio element of an
 extension type

---
 iamf/obu/audio_element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iamf/obu/audio_element.cc b/iamf/obu/audio_element.cc
index 6da0505..2c2c2a7 100644
--- a/iamf/obu/audio_element.cc
+++ b/iamf/obu/audio_element.cc
@@ -594,6 +594,7 @@ absl::Status AudioElementObu::ReadAndValidatePayloadDerived(
         RETURN_IF_NOT_OK(rb.ReadUnsignedLiteral(8, config_bytes));
         extension_config.audio_element_config_bytes.push_back(config_bytes);
       }
+      config_ = std::move(extension_config);
 
       return absl::OkStatus();
     }
-- 
2.43.0


From 6f9261b5f6c2f437cc3dd138dde99db505a5a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 10/49] fix: do not abort on a temporal unit without audio when
 reordering channels

---
 iamf/api/decoder/iamf_decoder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 4c4d980..cc31dbf 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -233,7 +233,8 @@ IamfStatus DecodeOneTemporalUnit(
     }
     rendered_samples = std::vector(rendered_samples_for_temporal_unit->begin(),
                                    rendered_samples_for_temporal_unit->end());
-    if (channel_reorderer.has_value()) {
+    // There are no channels to reorder in a temporal unit without audio frames.
+    if (channel_reorderer.has_value() && !rendered_samples.empty()) {
       ABSL_CHECK_OK(channel_reorderer->Reorder(rendered_samples));
     }
   }
-- 
2.43.0


From 60288e0ebcc92339d09c1c1ec2fad67be0217e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 11/49] fix: set up channel reordering as soon as the output
 layout is known

---
 iamf/api/decoder/iamf_decoder.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index cc31dbf..9214382 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -172,6 +172,14 @@ absl::Status IamfDecoder::DecoderState::CreateObuProcessor() {
     return new_layout.status();
   }
   actual_layout = *new_layout;
+  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
+          actual_layout.specific_layout)) {
+    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
+                            actual_layout.specific_layout)
+                            .sound_system;
+    channel_reorderer =
+        ChannelReorderer::Create(sound_system, channel_rearrangement_scheme);
+  }
 
   // Copy over fields at the end, now that everything is successful.
   obu_processor = std::move(temp_obu_processor);
@@ -418,14 +426,6 @@ IamfStatus IamfDecoder::Decode(const uint8_t* input_buffer,
   }
 
   // At this stage, we know that we've processed all descriptor OBUs.
-  if (std::holds_alternative<LoudspeakersSsConventionLayout>(
-          state_->actual_layout.specific_layout)) {
-    auto sound_system = std::get<LoudspeakersSsConventionLayout>(
-                            state_->actual_layout.specific_layout)
-                            .sound_system;
-    state_->channel_reorderer = ChannelReorderer::Create(
-        sound_system, state_->channel_rearrangement_scheme);
-  }
   if (state_->rendered_samples.empty()) {
     // We only try to actually decode a temporal unit if we have no currently
     // decoded temporal units. If we do, we'll decode the next temporal unit in
-- 
2.43.0


From 85b966980aa791d93840d4f961cb97217fc18062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 12/49] fix: keep the temporal unit when the output buffer is
 too small

---
 iamf/api/decoder/iamf_decoder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 9214382..6e6d8b1 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -450,9 +450,11 @@ IamfStatus IamfDecoder::GetOutputTemporalUnit(uint8_t* output_buffer,
   IamfStatus status = WriteFrameToSpan(
       state_->rendered_samples, output_sample_type,
       absl::MakeSpan(output_buffer, output_buffer_size), bytes_written);
-  if (status.ok()) {
-    state_->rendered_samples.clear();
+  if (!status.ok()) {
+    // Keep the temporal unit, so the user can retry with a suitable buffer.
+    return status;
   }
+  state_->rendered_samples.clear();
 
   // Refill the rendered samples with the next temporal unit.
   auto decode_status = DecodeOneTemporalUnit(
-- 
2.43.0


From 33f075061d12ce4505fe570b1d6a889eee64d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 13/49] fix: drop the OBU processor before replacing the buffer
 it reads from

When a reset could not create a new OBU processor, the old one was kept with a
pointer to the freed read bit buffer, and the next Decode() used it.
---
 iamf/api/decoder/iamf_decoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/api/decoder/iamf_decoder.cc b/iamf/api/decoder/iamf_decoder.cc
index 6e6d8b1..0f27cd5 100644
--- a/iamf/api/decoder/iamf_decoder.cc
+++ b/iamf/api/decoder/iamf_decoder.cc
@@ -548,6 +548,10 @@ IamfStatus IamfDecoder::Reset() {
   // Clear the rendered samples.
   state_->rendered_samples = {};
 
+  // Clear the OBU processor. It refers to the read bit buffer, which is about to
+  // be replaced, and must not outlive it when a new one cannot be created.
+  state_->obu_processor = nullptr;
+
   // Clear the channel reorderer.
   state_->channel_reorderer = std::nullopt;
 
-- 
2.43.0


From 00e70bf38951ac372f441ba691903e422832fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 14/49] fix: evaluate mix gain animations over durations beyond
 32-bit and float precision

The interpolation narrowed 64-bit timestamps to int and did the Bezier
root in float. A legal sub-block duration of 2^30 or more overflowed a
signed int (undefined behaviour), one of 2^31 or more gave a wrong linear
gain or NaN.
---
 iamf/common/utils/obu_util.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/iamf/common/utils/obu_util.h b/iamf/common/utils/obu_util.h
index dcdc2f0..80f069a 100644
--- a/iamf/common/utils/obu_util.h
+++ b/iamf/common/utils/obu_util.h
@@ -78,10 +78,10 @@ absl::Status InterpolateMixGainValue(
   start_time = 0;
 
   // TODO(b/283281856): Support resampling parameter blocks.
-  const int sample_rate_ratio = 1;
-  const int n_0 = start_time * sample_rate_ratio;
-  const int n = target_time * sample_rate_ratio;
-  const int n_2 = end_time * sample_rate_ratio;
+  const InternalTimestamp sample_rate_ratio = 1;
+  const InternalTimestamp n_0 = start_time * sample_rate_ratio;
+  const InternalTimestamp n = target_time * sample_rate_ratio;
+  const InternalTimestamp n_2 = end_time * sample_rate_ratio;
 
   if (animation_type == step_enum) {
     // No interpolation is needed for step.
@@ -96,15 +96,17 @@ absl::Status InterpolateMixGainValue(
     const float control_point_float =
         Q0_8ToFloat(bezier_control_point_relative_time_getter());
     // Using the definition of `round` in the IAMF spec.
-    const int n_1 = std::floor((end_time * control_point_float) + 0.5);
+    const InternalTimestamp n_1 =
+        std::floor((static_cast<double>(end_time) * control_point_float) + 0.5);
 
     const float p_0 = Q7_8ToFloat(bezier_start_point_getter());
     const float p_1 = Q7_8ToFloat(bezier_control_point_getter());
     const float p_2 = Q7_8ToFloat(bezier_end_point_getter());
 
-    const float alpha = n_0 - 2 * n_1 + n_2;
-    const float beta = 2 * (n_1 - n_0);
-    const float gamma = n_0 - n;
+    // Durations can exceed the integers a `float` can represent.
+    const double alpha = n_0 - 2 * n_1 + n_2;
+    const double beta = 2 * (n_1 - n_0);
+    const double gamma = n_0 - n;
     const float a = alpha == 0
                         ? -gamma / beta
                         : (-beta + std::sqrt(beta * beta - 4 * alpha * gamma)) /
-- 
2.43.0


From f326948e48e5a95a7c3c46f8d6d5ffc20a929522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 15/49] fix: refuse ambisonics mono mappings whose size does
 not fit the channel count field

---
 iamf/obu/ambisonics_config.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iamf/obu/ambisonics_config.cc b/iamf/obu/ambisonics_config.cc
index 716f16b..13d71b3 100644
--- a/iamf/obu/ambisonics_config.cc
+++ b/iamf/obu/ambisonics_config.cc
@@ -15,6 +15,7 @@
 #include <array>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <type_traits>
 #include <variant>
@@ -60,7 +61,12 @@ void LogAmbisonicsProjectionConfig(const AmbisonicsProjectionConfig& config) {
                << absl::StrJoin(config.GetDemixingMatrixView(), ", ") << "]";
 }
 
-absl::Status ValidateOutputChannelCount(const uint8_t channel_count) {
+absl::Status ValidateOutputChannelCount(const size_t channel_count) {
+  // The count is checked before it is narrowed to the type of the field.
+  if (channel_count > std::numeric_limits<uint8_t>::max()) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Invalid Ambisonics output channel_count = ", channel_count));
+  }
   uint8_t next_valid_output_channel_count;
   RETURN_IF_NOT_OK(AmbisonicsConfig::GetNextValidOutputChannelCount(
       channel_count, next_valid_output_channel_count));
-- 
2.43.0


From 2d5249d133f2a3a90a330422a693464e1240cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 16/49] fix: start a temporal unit's probe entry at its leading
 parameter blocks

---
 iamf/cli/probe.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/iamf/cli/probe.cc b/iamf/cli/probe.cc
index 5dd8e41..b4741e6 100644
--- a/iamf/cli/probe.cc
+++ b/iamf/cli/probe.cc
@@ -976,6 +976,10 @@ void ScanTemporalUnits(
     uint32_t trim_at_start = 0;
     uint32_t trim_at_end = 0;
     absl::flat_hash_set<DecodedUleb128> substreams_seen;
+    // First parameter block since the last audio frame of this TU. Parameter
+    // blocks lead the frames they apply to, so if the next audio frame turns
+    // out to begin a new TU, that TU begins here.
+    int64_t next_start_byte_offset = -1;
   };
   PendingTu pending_tu;
   uint64_t cumulative_timestamp = 0;
@@ -1110,8 +1114,11 @@ void ScanTemporalUnits(
         // a new TU has begun. Finalise the pending TU before attributing this
         // frame to the new one.
         if (pending_tu.substreams_seen.contains(substream_id)) {
+          const int64_t next_start = pending_tu.next_start_byte_offset;
           finalize_tu();
+          pending_tu.start_byte_offset = next_start;
         }
+        pending_tu.next_start_byte_offset = -1;
         note_tu_start(frame_start_offset);
         // First audio frame in a new TU supplies the canonical trim values.
         // Subsequent frames in the same TU carry identical values in
@@ -1151,6 +1158,11 @@ void ScanTemporalUnits(
           break;
         }
         note_tu_start(block_start_offset);
+        if (!pending_tu.substreams_seen.empty() &&
+            pending_tu.next_start_byte_offset < 0) {
+          pending_tu.next_start_byte_offset =
+              static_cast<int64_t>(block_start_offset);
+        }
         auto def_it = param_definition_variants.find(*peek_id);
         if (def_it == param_definition_variants.end()) {
           // Descriptors didn't declare this parameter id; we can't parse the
-- 
2.43.0


From f89660000bd17d836b936acaf009e2dee4e04cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:24 +0000
Subject: [PATCH 17/49] fix: ignore a layout's reserved bits when selecting a
 mix presentation

---
 iamf/cli/obu_processor_utils.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/obu_processor_utils.cc b/iamf/cli/obu_processor_utils.cc
index 569481c..3bff72c 100644
--- a/iamf/cli/obu_processor_utils.cc
+++ b/iamf/cli/obu_processor_utils.cc
@@ -73,11 +73,28 @@ bool HasOneAudioElementWithLayout(
              .loudspeaker_layout == loudspeaker_layout;
 }
 
+// Returns true when both layouts describe the same loudspeakers or headphones.
+// The reserved bits of a layout are to be ignored by parsers, so they have no
+// say in which layout is selected.
+bool IsSameLayout(const Layout& lhs, const Layout& rhs) {
+  if (lhs.layout_type != rhs.layout_type) {
+    return false;
+  }
+  const auto* lhs_ss =
+      std::get_if<LoudspeakersSsConventionLayout>(&lhs.specific_layout);
+  const auto* rhs_ss =
+      std::get_if<LoudspeakersSsConventionLayout>(&rhs.specific_layout);
+  if (lhs_ss == nullptr || rhs_ss == nullptr) {
+    return lhs_ss == rhs_ss;
+  }
+  return lhs_ss->sound_system == rhs_ss->sound_system;
+}
+
 bool MixPresentationContainsLayout(const MixPresentationObu& candidate_mix,
                                    const Layout& desired_layout) {
   for (const auto& sub_mix : candidate_mix.sub_mixes_) {
     for (const auto& layout : sub_mix.layouts) {
-      if (layout.loudness_layout == desired_layout) {
+      if (IsSameLayout(layout.loudness_layout, desired_layout)) {
         return true;
       }
     }
@@ -254,7 +271,7 @@ absl::StatusOr<SelectedMixPresentation> FindMixPresentationAndLayout(
     for (size_t layout_index = 0; layout_index < sub_mix.layouts.size();
          ++layout_index) {
       const auto& layout = sub_mix.layouts[layout_index];
-      if (desired_layout == layout.loudness_layout) {
+      if (IsSameLayout(layout.loudness_layout, *desired_layout)) {
         return SelectedMixPresentation{
             mix_presentation,
             layout.loudness_layout,
-- 
2.43.0


From 2fa165ed82671b3533cdff8f9e7716ae51db2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 18/49] fix: give a demixing or recon gain block to every audio
 element sharing its parameter ID

---
 iamf/cli/parameters_manager.cc | 71 +++++++++++++++-------------------
 iamf/cli/parameters_manager.h  | 28 +++++---------
 2 files changed, 40 insertions(+), 59 deletions(-)

diff --git a/iamf/cli/parameters_manager.cc b/iamf/cli/parameters_manager.cc
index eeded8b..84c8a81 100644
--- a/iamf/cli/parameters_manager.cc
+++ b/iamf/cli/parameters_manager.cc
@@ -48,8 +48,6 @@ template <typename StateType>
 absl::Status UpdateParameterState(
     DecodedUleb128 audio_element_id, InternalTimestamp expected_next_timestamp,
     absl::flat_hash_map<DecodedUleb128, StateType>& parameter_states,
-    absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>&
-        parameter_blocks,
     absl::string_view parameter_name,
     std::optional<StateType*>& parameter_state) {
   const auto parameter_states_iter = parameter_states.find(audio_element_id);
@@ -62,12 +60,7 @@ absl::Status UpdateParameterState(
   // Validate the timestamps before updating.
   parameter_state = &parameter_states_iter->second;
 
-  // Using `.at()` here is safe because if the parameter state exists for the
-  // `audio_element_id`, an entry in `parameter_blocks` with the key
-  // `parameter_state->param_definition->GetParameterId()` has already been
-  // created during `Initialize()`.
-  auto& parameter_block = parameter_blocks.at(
-      (*parameter_state)->param_definition->GetParameterId());
+  auto& parameter_block = (*parameter_state)->parameter_block;
   if (parameter_block == nullptr) {
     // No parameter block found for this ID. Do not validate the timestamp
     // or update anything else. Setting `parameter_state` to `std::nullopt`
@@ -90,6 +83,20 @@ absl::Status UpdateParameterState(
   return absl::OkStatus();
 }
 
+// Makes the parameter block available to every audio element which refers to
+// its parameter ID.
+template <typename StateType>
+void AddParameterBlock(
+    const ParameterBlockWithData* absl_nonnull parameter_block,
+    absl::flat_hash_map<DecodedUleb128, StateType>& parameter_states) {
+  for (auto& [unused_id, parameter_state] : parameter_states) {
+    if (parameter_state.param_definition->GetParameterId() ==
+        parameter_block->obu->parameter_id_) {
+      parameter_state.parameter_block = parameter_block;
+    }
+  }
+}
+
 }  // namespace
 
 absl::StatusOr<std::unique_ptr<ParametersManager> absl_nonnull>
@@ -98,12 +105,6 @@ ParametersManager::Create(
   // Collect all `DemixingParamDefinition`s and all `ReconGainParamDefinitions`
   // in all Audio Elements. Validate there is no more than one per Audio
   // Element.
-  // Mapping from Parameter ID to demixing parameter blocks.
-  absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
-      demixing_parameter_blocks;
-  // Mapping from Parameter ID to recon gain parameter blocks.
-  absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
-      recon_gain_parameter_blocks;
   // Mapping from Audio Element ID to the demixing state.
   absl::flat_hash_map<DecodedUleb128, DemixingState> demixing_states;
   // Mapping from Audio Element ID to the recon gain state.
@@ -140,34 +141,29 @@ ParametersManager::Create(
     }
 
     if (demixing_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
-      // be used.
-      demixing_parameter_blocks.insert(
-          {demixing_param_definition->GetParameterId(), nullptr});
+      // If no parameter blocks have this parameter ID, then the parameter block
+      // will remain null and default values will be used.
       demixing_states[audio_element_id] = {
           .param_definition = demixing_param_definition,
+          .parameter_block = nullptr,
           .previous_w_idx = 0,
           .next_timestamp = 0,
           .update_rule = DemixingInfoParameterData::kFirstFrame,
       };
     }
     if (recon_gain_param_definition != nullptr) {
-      // Insert a `nullptr` for a parameter ID. If no parameter blocks have
-      // this parameter ID, then it will remain null and default values will
-      // be used.
-      recon_gain_parameter_blocks.insert(
-          {recon_gain_param_definition->GetParameterId(), nullptr});
+      // If no parameter blocks have this parameter ID, then the parameter block
+      // will remain null and default values will be used.
       recon_gain_states[audio_element_id] = {
           .param_definition = recon_gain_param_definition,
+          .parameter_block = nullptr,
           .next_timestamp = 0,
       };
     }
   }
 
-  return absl::WrapUnique(new ParametersManager(
-      demixing_parameter_blocks, recon_gain_parameter_blocks, demixing_states,
-      recon_gain_states));
+  return absl::WrapUnique(
+      new ParametersManager(demixing_states, recon_gain_states));
 }
 
 bool ParametersManager::DemixingParamDefinitionAvailable(
@@ -200,8 +196,7 @@ absl::Status ParametersManager::GetDownMixingParameters(
   }
   auto& demixing_state = demixing_states_iter->second;
   const auto* param_definition = demixing_state.param_definition;
-  const auto* demixing_parameter_block =
-      demixing_parameter_blocks_.at(param_definition->GetParameterId());
+  const auto* demixing_parameter_block = demixing_state.parameter_block;
   if (demixing_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. Use the
     // default value from the parameter definition. This is OK when there are
@@ -254,9 +249,7 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
   }
 
   auto& recon_gain_state = recon_gain_states_iter->second;
-  const auto* param_definition = recon_gain_state.param_definition;
-  const auto* recon_gain_parameter_block =
-      recon_gain_parameter_blocks_.at(param_definition->GetParameterId());
+  const auto* recon_gain_parameter_block = recon_gain_state.parameter_block;
   if (recon_gain_parameter_block == nullptr) {
     // Failed to find a parameter block that overlaps this frame. A default
     // recon gain value of 0 dB is implied when there are no Parameter Block
@@ -311,22 +304,20 @@ absl::Status ParametersManager::GetReconGainInfoParameterData(
 
 void ParametersManager::AddDemixingParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  demixing_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  AddParameterBlock(parameter_block, demixing_states_);
 }
 
 void ParametersManager::AddReconGainParameterBlock(
     const ParameterBlockWithData* absl_nonnull parameter_block) {
-  recon_gain_parameter_blocks_[parameter_block->obu->parameter_id_] =
-      parameter_block;
+  AddParameterBlock(parameter_block, recon_gain_states_);
 }
 
 absl::Status ParametersManager::UpdateDemixingState(
     DecodedUleb128 audio_element_id, InternalTimestamp expected_timestamp) {
   std::optional<DemixingState*> demixing_state = std::nullopt;
   RETURN_IF_NOT_OK(UpdateParameterState(
-      audio_element_id, expected_timestamp, demixing_states_,
-      demixing_parameter_blocks_, "down-mixing", demixing_state));
+      audio_element_id, expected_timestamp, demixing_states_, "down-mixing",
+      demixing_state));
 
   // Additional updating steps to perform after `UpdateParameterState()`.
   if (demixing_state.has_value()) {
@@ -348,8 +339,8 @@ absl::Status ParametersManager::UpdateReconGainState(
 
   // No additional updating needed.
   return UpdateParameterState(audio_element_id, expected_timestamp,
-                              recon_gain_states_, recon_gain_parameter_blocks_,
-                              "down-mixing", recon_gain_state);
+                              recon_gain_states_, "down-mixing",
+                              recon_gain_state);
 }
 
 }  // namespace iamf_tools
diff --git a/iamf/cli/parameters_manager.h b/iamf/cli/parameters_manager.h
index bdfbfa7..25657bf 100644
--- a/iamf/cli/parameters_manager.h
+++ b/iamf/cli/parameters_manager.h
@@ -131,6 +131,10 @@ class ParametersManager {
   struct DemixingState {
     const DemixingParamDefinition* absl_nonnull param_definition;
 
+    // Parameter block for the current frame; null if there is none. Held per
+    // audio element, because several may refer to the same parameter ID.
+    const ParameterBlockWithData* absl_nullable parameter_block;
+
     // `w_idx` for the frame just processed, i.e. `wIdx(k - 1)` in the Spec.
     int previous_w_idx;
 
@@ -148,6 +152,10 @@ class ParametersManager {
   struct ReconGainState {
     const ReconGainParamDefinition* absl_nonnull param_definition;
 
+    // Parameter block for the current frame; null if there is none. Held per
+    // audio element, because several may refer to the same parameter ID.
+    const ParameterBlockWithData* absl_nullable parameter_block;
+
     // Timestamp for the next frame to be processed.
     InternalTimestamp next_timestamp;
   };
@@ -156,35 +164,17 @@ class ParametersManager {
    *
    * Used only by factory function.
    *
-   * \param demixing_parameter_blocks Mapping from Parameter ID to demixing
-   *        parameter blocks.
-   * \param recon_gain_parameter_blocks Mapping from Parameter ID to recon gain
-   *        parameter blocks.
    * \param demixing_states Mapping from Audio Element ID to the demixing
    *        state.
    * \param recon_gain_states Mapping from Audio Element ID to the recon gain
    *        state.
    */
   ParametersManager(
-      absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
-          demixing_parameter_blocks,
-      absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
-          recon_gain_parameter_blocks,
       absl::flat_hash_map<DecodedUleb128, DemixingState> demixing_states,
       absl::flat_hash_map<DecodedUleb128, ReconGainState> recon_gain_states)
-      : demixing_parameter_blocks_(demixing_parameter_blocks),
-        recon_gain_parameter_blocks_(recon_gain_parameter_blocks),
-        demixing_states_(demixing_states),
+      : demixing_states_(demixing_states),
         recon_gain_states_(recon_gain_states) {}
 
-  // Mapping from Parameter ID to demixing parameter blocks.
-  absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
-      demixing_parameter_blocks_;
-
-  // Mapping from Parameter ID to recon gain parameter blocks.
-  absl::flat_hash_map<DecodedUleb128, const ParameterBlockWithData*>
-      recon_gain_parameter_blocks_;
-
   // Mapping from Audio Element ID to the demixing state.
   absl::flat_hash_map<DecodedUleb128, DemixingState> demixing_states_;
 
-- 
2.43.0


From 57b061f951326fe33f4b9e2aba3fedd3c3e0953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 19/49] fix: sum a frame's trims without wrapping when checking
 them against the frame size

---
 iamf/cli/temporal_unit_view.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/temporal_unit_view.cc b/iamf/cli/temporal_unit_view.cc
index b9922a1..7618dd3 100644
--- a/iamf/cli/temporal_unit_view.cc
+++ b/iamf/cli/temporal_unit_view.cc
@@ -68,14 +68,16 @@ ComputeTemporalUnitStatisticsFromAudioFrame(
   };
 
   // Check the trim in the first frame is plausible. I.e. there are not at least
-  // 0 samples. This also prevents underflow when subtracting later.
-  const uint32_t cumulative_trim = statistics.num_samples_to_trim_at_start +
-                                   statistics.num_samples_to_trim_at_end;
-  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint32_t>(),
-                            statistics.num_samples_per_frame,
+  // 0 samples. This also prevents underflow when subtracting later. Sum in 64
+  // bits, because the fields may hold any `uint32_t`.
+  const uint64_t cumulative_trim =
+      static_cast<uint64_t>(statistics.num_samples_to_trim_at_start) +
+      statistics.num_samples_to_trim_at_end;
+  RETURN_IF_NOT_OK(Validate(cumulative_trim, std::less_equal<uint64_t>(),
+                            uint64_t{statistics.num_samples_per_frame},
                             "cumulative trim is <= `num_samples_per_frame`"));
   statistics.num_untrimmed_samples =
-      statistics.num_samples_per_frame - cumulative_trim;
+      statistics.num_samples_per_frame - static_cast<uint32_t>(cumulative_trim);
 
   return statistics;
 }
-- 
2.43.0


From cbe7df8c30e156589f9c1bf81d4daea96116fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:59 +0000
Subject: [PATCH 20/49] fix: refuse audio which leaves channels or audio
 elements without all of their samples

A channel that is missing from a temporal unit, or whose samples do not
arrive, silently dropped or misaligned the samples of the other channels, or
left the encoder generating temporal units forever. An audio element without
audio frame metadata threw when flushing.
---
 .../proto_to_obu/audio_frame_generator.cc     | 73 +++++++++++++++++--
 1 file changed, 68 insertions(+), 5 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 91ad44c..0584d8a 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -542,6 +542,40 @@ absl::Status MaybeEncodeFramesForAudioElement(
   return absl::OkStatus();
 }
 
+// Validates that no samples are left waiting for the other channels of the
+// audio element, when no more samples will be added.
+absl::Status ValidateNoIncompleteFrame(
+    const DecodedUleb128 audio_element_id,
+    const AudioElementWithData& audio_element_with_data,
+    const absl::flat_hash_set<ChannelLabel::Label>&
+        channel_labels_for_audio_element,
+    const LabelSamplesMap& label_to_samples,
+    const absl::flat_hash_map<uint32_t, SubstreamData>&
+        substream_id_to_substream_data) {
+  if (SamplesReadyForAudioElement(label_to_samples,
+                                  channel_labels_for_audio_element)) {
+    return absl::OkStatus();
+  }
+
+  const bool samples_waiting = absl::c_any_of(
+      channel_labels_for_audio_element, [&](ChannelLabel::Label label) {
+        const auto iter = label_to_samples.find(label);
+        return iter != label_to_samples.end() && !iter->second.empty();
+      });
+  const bool frames_waiting = absl::c_any_of(
+      audio_element_with_data.substream_id_to_labels, [&](const auto& entry) {
+        const auto iter = substream_id_to_substream_data.find(entry.first);
+        return iter != substream_id_to_substream_data.end() &&
+               !iter->second.frames_in_obu.Empty();
+      });
+  if (samples_waiting || frames_waiting) {
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Some channels are missing samples in Audio Element ID= ",
+        audio_element_id));
+  }
+  return absl::OkStatus();
+}
+
 // Validates that all substreams share the same trimming information.
 absl::Status ValidateSubstreamsShareTrimming(
     const iamf_tools_cli_proto::AudioFrameObuMetadata& audio_frame_metadata,
@@ -694,6 +728,17 @@ AudioFrameGenerator::Create(
         std::max(max_codec_delay, encoder->GetNumberOfSamplesToDelayAtStart());
   }
 
+  // Validate that each audio element will have audio frames.
+  for (const auto& [audio_element_id, unused_audio_element] : audio_elements) {
+    if (absl::c_none_of(audio_frame_metadatas, [&](const auto& metadata) {
+          return metadata.audio_element_id() == audio_element_id;
+        })) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("No audio frame metadata found for Audio Element ID= ",
+                       audio_element_id));
+    }
+  }
+
   const auto& first_audio_frame_metadata = *audio_frame_metadatas.begin();
   const int64_t common_samples_to_trim_at_start = static_cast<int64_t>(
       first_audio_frame_metadata.samples_to_trim_at_start());
@@ -835,6 +880,13 @@ absl::Status AudioFrameGenerator::AddSamples(
   }
 
   auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
+  if (audio_element_labels_iter->second.contains(label) &&
+      !labeled_samples[label].empty()) {
+    // The previous samples would be lost, and the channels misaligned.
+    return absl::InvalidArgumentError(absl::StrCat(
+        "Samples were added twice for a channel before the other channels of ",
+        "Audio Element ID= ", audio_element_id, " were complete."));
+  }
   labeled_samples[label] =
       std::vector<InternalSampleType>(samples.begin(), samples.end());
 
@@ -877,10 +929,14 @@ absl::Status AudioFrameGenerator::OutputFrames(
     // time.
     for (const auto& [audio_element_id, audio_element_with_data] :
          audio_elements_) {
+      const auto& labels = audio_element_id_to_labels_.at(audio_element_id);
+      auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
+      RETURN_IF_NOT_OK(ValidateNoIncompleteFrame(
+          audio_element_id, audio_element_with_data, labels, labeled_samples,
+          substream_id_to_substream_data_));
       RETURN_IF_NOT_OK(MaybeEncodeFramesForAudioElement(
-          audio_element_id, audio_element_with_data,
-          audio_element_id_to_labels_.at(audio_element_id), *downmixer_manager_,
-          id_to_labeled_samples_[audio_element_id],
+          audio_element_id, audio_element_with_data, labels,
+          *downmixer_manager_, labeled_samples,
           substream_id_to_trimming_state_, parameters_manager_,
           substream_id_to_encoder_, substream_id_to_substream_data_,
           global_timing_module_));
@@ -921,8 +977,15 @@ absl::Status AudioFrameGenerator::OutputFrames(
   }
 
   // Clean up any finished encoders.
-  absl::erase_if(substream_id_to_encoder_,
-                 [](const auto& pair) { return pair.second->Finished(); });
+  const auto num_finished_encoders =
+      absl::erase_if(substream_id_to_encoder_, [](const auto& pair) {
+        return pair.second->Finished();
+      });
+  if (can_pop_frames && num_finished_encoders != 0 &&
+      !substream_id_to_encoder_.empty()) {
+    return absl::InvalidArgumentError(
+        "Some substreams ended before the others.");
+  }
 
   return absl::OkStatus();
 }
-- 
2.43.0


From 50dff67e110cd46d6b40478e6e71cbb31fabae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 21/49] fix: refuse a temporal unit which lacks the audio frame
 of a substream

---
 iamf/cli/iamf_encoder.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iamf/cli/iamf_encoder.cc b/iamf/cli/iamf_encoder.cc
index 2b7895b..759726d 100644
--- a/iamf/cli/iamf_encoder.cc
+++ b/iamf/cli/iamf_encoder.cc
@@ -12,6 +12,7 @@
 #include "iamf/cli/iamf_encoder.h"
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <list>
 #include <memory>
@@ -608,6 +609,16 @@ absl::Status IamfEncoder::OutputTemporalUnit(
     }
     return absl::OkStatus();
   }
+  // Each substream must have an audio frame in each temporal unit. Some could be
+  // missing if the user did not provide all of the samples.
+  size_t num_substreams = 0;
+  for (const auto& [unused_id, audio_element] : *audio_elements_) {
+    num_substreams += audio_element.substream_id_to_labels.size();
+  }
+  RETURN_IF_NOT_OK(
+      ValidateEqual(audio_frames.size(), num_substreams,
+                    "number of audio frames in the temporal unit"));
+
   // All generated audio frame should be in the same temporal unit; they all
   // have the same timestamps.
   const InternalTimestamp output_start_timestamp =
-- 
2.43.0


From eca44995dcc3f5d629a1eb7d918169e169d20698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 22/49] fix: refuse recon gains for channels or layers which do
 not exist

---
 .../proto_to_obu/parameter_block_generator.cc      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index 1708be4..b00f8ab 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -336,6 +336,12 @@ absl::Status GenerateReconGainSubblock(
       continue;
     }
     output_recon_gain_element.emplace(ReconGainElement{});
+    if (layer_index >= user_recon_gains_layers.size()) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("Recon gain is present for layer ", layer_index,
+                       ", but the user only specifies ",
+                       user_recon_gains_layers.size(), " layers."));
+    }
 
     // Construct the bitmask indicating the channels where recon gains are
     // present.
@@ -343,8 +349,14 @@ absl::Status GenerateReconGainSubblock(
     DecodedUleb128 user_recon_gain_flag = 0;
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
+      if (bit_position >= user_recon_gains.size()) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "Recon gain bit position is out of range: ", bit_position));
+      }
       user_recon_gain_flag |= 1 << bit_position;
-      user_recon_gains[bit_position] = user_recon_gain;
+      RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+          "ReconGains.recon_gain", user_recon_gain,
+          user_recon_gains[bit_position]));
     }
     for (const auto& [bit_position, user_recon_gain] :
          user_recon_gains_layers[layer_index].recon_gain()) {
-- 
2.43.0


From 4a86eed519942d9c7a499a2c128a704a992f71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 23/49] fix: refuse user values which do not fit the fields of
 the OBUs

Silently truncated: the reserved bits and number of objects of an audio
element, positions in rendering configs, and ITU-T T.35 country codes.
---
 iamf/cli/proto_conversion/proto_to_obu/BUILD  |   2 +
 .../proto_to_obu/audio_element_generator.cc   |  28 +++-
 .../proto_to_obu/metadata_obu_generator.cc    |  18 ++-
 .../mix_presentation_generator.cc             | 143 +++++++++++++-----
 4 files changed, 137 insertions(+), 54 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/BUILD b/iamf/cli/proto_conversion/proto_to_obu/BUILD
index c1de01c..87c2dcf 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/BUILD
+++ b/iamf/cli/proto_conversion/proto_to_obu/BUILD
@@ -157,6 +157,8 @@ cc_library(
     hdrs = ["metadata_obu_generator.h"],
     deps = [
         "//iamf/cli/proto:metadata_obu_cc_proto",
+        "//iamf/common/utils:macros",
+        "//iamf/common/utils:numeric_utils",
         "//iamf/obu:metadata_obu",
         "//iamf/obu:obu_header",
         "@abseil-cpp//absl/status",
diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
index 252f7c0..cb9a27a 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.cc
@@ -393,10 +393,13 @@ absl::StatusOr<AudioElementWithData> CreateChannelBasedAudioElementWithData(
     config.channel_audio_layer_configs.emplace_back(std::move(layer_config));
   }
 
+  uint8_t reserved = 0;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "AudioElementObuMetadata.reserved", audio_element_metadata.reserved(),
+      reserved));
   auto obu = AudioElementObu::CreateForScalableChannelLayout(
       GetHeaderFromMetadata(audio_element_metadata.obu_header()),
-      audio_element_metadata.audio_element_id(),
-      audio_element_metadata.reserved(),
+      audio_element_metadata.audio_element_id(), reserved,
       audio_element_metadata.codec_config_id(),
       MakeConstSpan(audio_element_metadata.audio_substream_ids()), config);
   if (!obu.ok()) {
@@ -561,10 +564,13 @@ absl::StatusOr<AudioElementWithData> CreateAmbisonicsAudioElementWithData(
     return ambisonics_config.status();
   }
 
+  uint8_t reserved = 0;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "AudioElementObuMetadata.reserved", audio_element_metadata.reserved(),
+      reserved));
   auto obu = AudioElementObu::CreateForAmbisonics(
       GetHeaderFromMetadata(audio_element_metadata.obu_header()),
-      audio_element_metadata.audio_element_id(),
-      audio_element_metadata.reserved(),
+      audio_element_metadata.audio_element_id(), reserved,
       audio_element_metadata.codec_config_id(),
       audio_element_metadata.audio_substream_ids(), *ambisonics_config);
   if (!obu.ok()) {
@@ -589,8 +595,11 @@ absl::StatusOr<AudioElementWithData> CreateObjectsAudioElementWithData(
   std::vector<uint8_t> objects_config_extension_bytes = {
       input_config.objects_config_extension_bytes().begin(),
       input_config.objects_config_extension_bytes().end()};
-  auto objects_config = ObjectsConfig::Create(input_config.num_objects(),
-                                              objects_config_extension_bytes);
+  uint8_t num_objects = 0;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "ObjectsConfig.num_objects", input_config.num_objects(), num_objects));
+  auto objects_config =
+      ObjectsConfig::Create(num_objects, objects_config_extension_bytes);
   if (!objects_config.ok()) {
     return objects_config.status();
   }
@@ -603,10 +612,13 @@ absl::StatusOr<AudioElementWithData> CreateObjectsAudioElementWithData(
         audio_element_metadata.audio_substream_ids_size(), " substreams."));
   }
 
+  uint8_t reserved = 0;
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "AudioElementObuMetadata.reserved", audio_element_metadata.reserved(),
+      reserved));
   absl::StatusOr<AudioElementObu> obu = AudioElementObu::CreateForObjects(
       GetHeaderFromMetadata(audio_element_metadata.obu_header()),
-      audio_element_metadata.audio_element_id(),
-      audio_element_metadata.reserved(),
+      audio_element_metadata.audio_element_id(), reserved,
       audio_element_metadata.codec_config_id(),
       audio_element_metadata.audio_substream_ids()[0], *objects_config);
 
diff --git a/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc
index 80b9b11..920bffe 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.cc
@@ -12,12 +12,15 @@
 
 #include "iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.h"
 
+#include <cstdint>
 #include <list>
 #include <utility>
 
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "iamf/cli/proto/metadata_obu.pb.h"
+#include "iamf/common/utils/macros.h"
+#include "iamf/common/utils/numeric_utils.h"
 #include "iamf/obu/metadata_obu.h"
 #include "iamf/obu/obu_header.h"
 
@@ -25,15 +28,20 @@ namespace iamf_tools {
 
 namespace {
 
-MetadataObu CreateMetadataITUTT35(
+absl::StatusOr<MetadataObu> CreateMetadataITUTT35(
     const iamf_tools_cli_proto::MetadataITUTT35& metadata_itu_t_t35) {
   MetadataITUTT35 metadata_itu_t_t35_obu;
-  metadata_itu_t_t35_obu.itu_t_t35_country_code =
-      metadata_itu_t_t35.itu_t_t35_country_code();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+      "MetadataITUTT35.itu_t_t35_country_code",
+      metadata_itu_t_t35.itu_t_t35_country_code(),
+      metadata_itu_t_t35_obu.itu_t_t35_country_code));
   if (metadata_itu_t_t35.has_itu_t_t35_country_code_extension_byte() &&
       metadata_itu_t_t35.itu_t_t35_country_code() == 0xff) {
-    metadata_itu_t_t35_obu.itu_t_t35_country_code_extension_byte =
-        metadata_itu_t_t35.itu_t_t35_country_code_extension_byte();
+    RETURN_IF_NOT_OK(StaticCastIfInRange<uint32_t, uint8_t>(
+        "MetadataITUTT35.itu_t_t35_country_code_extension_byte",
+        metadata_itu_t_t35.itu_t_t35_country_code_extension_byte(),
+        metadata_itu_t_t35_obu.itu_t_t35_country_code_extension_byte
+            .emplace()));
   }
   metadata_itu_t_t35_obu.itu_t_t35_payload_bytes = {
       metadata_itu_t_t35.itu_t_t35_payload_bytes().begin(),
diff --git a/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
index ec06f29..f521225 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.cc
@@ -89,11 +89,18 @@ absl::StatusOr<PolarParamDefinition> CreatePolarParamDefinition(
     return base_args.status();
   }
   PolarParamDefinition param_definition(*base_args);
-  param_definition.default_azimuth_ = input_param_definition.default_azimuth();
-  param_definition.default_elevation_ =
-      input_param_definition.default_elevation();
-  param_definition.default_distance_ =
-      input_param_definition.default_distance();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "PolarParamDefinition.default_azimuth",
+      input_param_definition.default_azimuth(),
+      param_definition.default_azimuth_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "PolarParamDefinition.default_elevation",
+      input_param_definition.default_elevation(),
+      param_definition.default_elevation_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, uint8_t>(
+      "PolarParamDefinition.default_distance",
+      input_param_definition.default_distance(),
+      param_definition.default_distance_));
   return param_definition;
 }
 
@@ -105,9 +112,15 @@ absl::StatusOr<Cart8ParamDefinition> CreateCart8ParamDefinition(
     return base_args.status();
   }
   Cart8ParamDefinition param_definition(*base_args);
-  param_definition.default_x_ = input_param_definition.default_x();
-  param_definition.default_y_ = input_param_definition.default_y();
-  param_definition.default_z_ = input_param_definition.default_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "Cart8ParamDefinition.default_x", input_param_definition.default_x(),
+      param_definition.default_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "Cart8ParamDefinition.default_y", input_param_definition.default_y(),
+      param_definition.default_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "Cart8ParamDefinition.default_z", input_param_definition.default_z(),
+      param_definition.default_z_));
   return param_definition;
 }
 
@@ -119,9 +132,15 @@ absl::StatusOr<Cart16ParamDefinition> CreateCart16ParamDefinition(
     return base_args.status();
   }
   Cart16ParamDefinition param_definition(*base_args);
-  param_definition.default_x_ = input_param_definition.default_x();
-  param_definition.default_y_ = input_param_definition.default_y();
-  param_definition.default_z_ = input_param_definition.default_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "Cart16ParamDefinition.default_x", input_param_definition.default_x(),
+      param_definition.default_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "Cart16ParamDefinition.default_y", input_param_definition.default_y(),
+      param_definition.default_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "Cart16ParamDefinition.default_z", input_param_definition.default_z(),
+      param_definition.default_z_));
   return param_definition;
 }
 
@@ -134,18 +153,30 @@ absl::StatusOr<DualPolarParamDefinition> CreateDualPolarParamDefinition(
     return base_args.status();
   }
   DualPolarParamDefinition param_definition(*base_args);
-  param_definition.default_first_azimuth_ =
-      input_param_definition.default_first_azimuth();
-  param_definition.default_first_elevation_ =
-      input_param_definition.default_first_elevation();
-  param_definition.default_first_distance_ =
-      input_param_definition.default_first_distance();
-  param_definition.default_second_azimuth_ =
-      input_param_definition.default_second_azimuth();
-  param_definition.default_second_elevation_ =
-      input_param_definition.default_second_elevation();
-  param_definition.default_second_distance_ =
-      input_param_definition.default_second_distance();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualPolarParamDefinition.default_first_azimuth",
+      input_param_definition.default_first_azimuth(),
+      param_definition.default_first_azimuth_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualPolarParamDefinition.default_first_elevation",
+      input_param_definition.default_first_elevation(),
+      param_definition.default_first_elevation_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, uint8_t>(
+      "DualPolarParamDefinition.default_first_distance",
+      input_param_definition.default_first_distance(),
+      param_definition.default_first_distance_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualPolarParamDefinition.default_second_azimuth",
+      input_param_definition.default_second_azimuth(),
+      param_definition.default_second_azimuth_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualPolarParamDefinition.default_second_elevation",
+      input_param_definition.default_second_elevation(),
+      param_definition.default_second_elevation_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, uint8_t>(
+      "DualPolarParamDefinition.default_second_distance",
+      input_param_definition.default_second_distance(),
+      param_definition.default_second_distance_));
   return param_definition;
 }
 
@@ -158,15 +189,30 @@ absl::StatusOr<DualCart8ParamDefinition> CreateDualCart8ParamDefinition(
     return base_args.status();
   }
   DualCart8ParamDefinition param_definition(*base_args);
-  param_definition.default_first_x_ = input_param_definition.default_first_x();
-  param_definition.default_first_y_ = input_param_definition.default_first_y();
-  param_definition.default_first_z_ = input_param_definition.default_first_z();
-  param_definition.default_second_x_ =
-      input_param_definition.default_second_x();
-  param_definition.default_second_y_ =
-      input_param_definition.default_second_y();
-  param_definition.default_second_z_ =
-      input_param_definition.default_second_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualCart8ParamDefinition.default_first_x",
+      input_param_definition.default_first_x(),
+      param_definition.default_first_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualCart8ParamDefinition.default_first_y",
+      input_param_definition.default_first_y(),
+      param_definition.default_first_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualCart8ParamDefinition.default_first_z",
+      input_param_definition.default_first_z(),
+      param_definition.default_first_z_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualCart8ParamDefinition.default_second_x",
+      input_param_definition.default_second_x(),
+      param_definition.default_second_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualCart8ParamDefinition.default_second_y",
+      input_param_definition.default_second_y(),
+      param_definition.default_second_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int8_t>(
+      "DualCart8ParamDefinition.default_second_z",
+      input_param_definition.default_second_z(),
+      param_definition.default_second_z_));
   return param_definition;
 }
 
@@ -179,15 +225,30 @@ absl::StatusOr<DualCart16ParamDefinition> CreateDualCart16ParamDefinition(
     return base_args.status();
   }
   DualCart16ParamDefinition param_definition(*base_args);
-  param_definition.default_first_x_ = input_param_definition.default_first_x();
-  param_definition.default_first_y_ = input_param_definition.default_first_y();
-  param_definition.default_first_z_ = input_param_definition.default_first_z();
-  param_definition.default_second_x_ =
-      input_param_definition.default_second_x();
-  param_definition.default_second_y_ =
-      input_param_definition.default_second_y();
-  param_definition.default_second_z_ =
-      input_param_definition.default_second_z();
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualCart16ParamDefinition.default_first_x",
+      input_param_definition.default_first_x(),
+      param_definition.default_first_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualCart16ParamDefinition.default_first_y",
+      input_param_definition.default_first_y(),
+      param_definition.default_first_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualCart16ParamDefinition.default_first_z",
+      input_param_definition.default_first_z(),
+      param_definition.default_first_z_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualCart16ParamDefinition.default_second_x",
+      input_param_definition.default_second_x(),
+      param_definition.default_second_x_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualCart16ParamDefinition.default_second_y",
+      input_param_definition.default_second_y(),
+      param_definition.default_second_y_));
+  RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+      "DualCart16ParamDefinition.default_second_z",
+      input_param_definition.default_second_z(),
+      param_definition.default_second_z_));
   return param_definition;
 }
 
-- 
2.43.0


From 85fc2e7dcb95b9ac9e9f1b3f575ec290e1a4ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 24/49] fix: refuse to partition mix gains which do not fit in
 Q7.8

---
 iamf/cli/parameter_block_partitioner.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/iamf/cli/parameter_block_partitioner.cc b/iamf/cli/parameter_block_partitioner.cc
index 8ea88f0..27c4e2f 100644
--- a/iamf/cli/parameter_block_partitioner.cc
+++ b/iamf/cli/parameter_block_partitioner.cc
@@ -38,6 +38,25 @@ using iamf_tools_cli_proto::ParameterBlockObuMetadata;
 
 namespace {
 
+// Validates that the points used when partitioning fit in Q7.8 format.
+absl::Status ValidatePointsFitInQ7_8(
+    const iamf_tools_cli_proto::AnimatedParameterDataInt16& param_data) {
+  int16_t unused_value;
+  if (param_data.has_step()) {
+    RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+        "AnimationStepInt16.start_point_value",
+        param_data.step().start_point_value(), unused_value));
+  } else if (param_data.has_linear()) {
+    RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+        "AnimationLinearInt16.start_point_value",
+        param_data.linear().start_point_value(), unused_value));
+    RETURN_IF_NOT_OK(StaticCastIfInRange<int32_t, int16_t>(
+        "AnimationLinearInt16.end_point_value",
+        param_data.linear().end_point_value(), unused_value));
+  }
+  return absl::OkStatus();
+}
+
 absl::Status InterpolateMixGainParameterData(
     const iamf_tools_cli_proto::MixGainParameterData& mix_gain_parameter_data,
     InternalTimestamp start_time, InternalTimestamp end_time,
@@ -103,6 +122,8 @@ absl::Status PartitionMixGain(
   auto* mix_gain_param_data =
       partitioned_subblock.mutable_mix_gain_parameter_data();
 
+  RETURN_IF_NOT_OK(ValidatePointsFitInQ7_8(subblock_mix_gain.param_data()));
+
   // Partition the animated parameter.
   switch (subblock_mix_gain.param_data().parameter_data_case()) {
     using enum iamf_tools_cli_proto::AnimatedParameterDataInt16::
-- 
2.43.0


From f6102f7efbb7bf905f8c38fa8491d5b8870aa49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 25/49] fix: do not keep a reference to a temporary when there
 are no audio frames

AudioFrameGenerator::Create without audio_frame_metadata bound the
reference to the audio elements to a temporary, which OutputFrames read.
---
 .../proto_conversion/proto_to_obu/audio_frame_generator.cc  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 0584d8a..98aad28 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -686,7 +686,7 @@ AudioFrameGenerator::Create(
     // Ok, nothing will be generated. This state helps clients handle trivial IA
     // Sequences.
     return absl::WrapUnique(new AudioFrameGenerator(
-        {}, {}, std::move(downmixer_manager), parameters_manager,
+        {}, audio_elements, std::move(downmixer_manager), parameters_manager,
         global_timing_module, {}, {}, {},
         /*max_codec_delay=*/0));
   }
@@ -922,6 +922,10 @@ bool AudioFrameGenerator::GeneratingFrames() const {
 absl::Status AudioFrameGenerator::OutputFrames(
     std::list<AudioFrameWithData>& audio_frames) {
   absl::MutexLock lock(mutex_);
+  if (substream_id_to_encoder_.empty()) {
+    // There are no frames, or all of them were already output.
+    return absl::OkStatus();
+  }
 
   if (state_ == kFlushingRemaining) {
     // In this state, there might be some remaining samples queued in the
-- 
2.43.0


From 963fe1ea1c678583b85a7e03123b7240789680a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 26/49] fix: refuse samples for labels the audio frame metadata
 does not declare

A frame is encoded when all declared labels have arrived. Samples of others
were used or left for the next frame depending on the order of a hash map,
which misaligned channels and corrupted memory.
---
 .../proto_to_obu/audio_frame_generator.cc             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index 98aad28..e38a455 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -879,9 +879,16 @@ absl::Status AudioFrameGenerator::AddSamples(
                      audio_element_id));
   }
 
+  if (!audio_element_labels_iter->second.contains(label)) {
+    // Encoding a frame waits for the declared labels only; others could be
+    // left out of the frame they belong to.
+    return absl::InvalidArgumentError(
+        absl::StrCat("Label ", label, " was not declared in the audio frame ",
+                     "metadata of Audio Element ID= ", audio_element_id));
+  }
+
   auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
-  if (audio_element_labels_iter->second.contains(label) &&
-      !labeled_samples[label].empty()) {
+  if (!labeled_samples[label].empty()) {
     // The previous samples would be lost, and the channels misaligned.
     return absl::InvalidArgumentError(absl::StrCat(
         "Samples were added twice for a channel before the other channels of ",
-- 
2.43.0


From 051d8b4ab8ecd3901b161e7ea7650f20501dd673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:21 +0000
Subject: [PATCH 27/49] fix: refuse incomplete samples of the last frame when
 encoding is finalized

ValidateNoIncompleteFrame ran one call too late: encoders without samples are
finalized in the call before, which dropped the last frame silently.
---
 .../proto_to_obu/audio_frame_generator.cc          | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
index e38a455..b78d3ab 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc
@@ -934,6 +934,17 @@ absl::Status AudioFrameGenerator::OutputFrames(
     return absl::OkStatus();
   }
 
+  if (state_ != kTakingSamples) {
+    for (const auto& [audio_element_id, audio_element_with_data] :
+         audio_elements_) {
+      RETURN_IF_NOT_OK(ValidateNoIncompleteFrame(
+          audio_element_id, audio_element_with_data,
+          audio_element_id_to_labels_.at(audio_element_id),
+          id_to_labeled_samples_[audio_element_id],
+          substream_id_to_substream_data_));
+    }
+  }
+
   if (state_ == kFlushingRemaining) {
     // In this state, there might be some remaining samples queued in the
     // encoders waiting to be encoded; continue to encode them one frame at a
@@ -942,9 +953,6 @@ absl::Status AudioFrameGenerator::OutputFrames(
          audio_elements_) {
       const auto& labels = audio_element_id_to_labels_.at(audio_element_id);
       auto& labeled_samples = id_to_labeled_samples_[audio_element_id];
-      RETURN_IF_NOT_OK(ValidateNoIncompleteFrame(
-          audio_element_id, audio_element_with_data, labels, labeled_samples,
-          substream_id_to_substream_data_));
       RETURN_IF_NOT_OK(MaybeEncodeFramesForAudioElement(
           audio_element_id, audio_element_with_data, labels,
           *downmixer_manager_, labeled_samples,
-- 
2.43.0


From f119200a3d7d1da40b009649ae02fbce78d53a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 28/49] fix: clamp computed recon gains to what 8 bits can hold

A recon gain above 1 (or infinite, when the demixed channel is silent) was
cast to uint8_t, which is undefined.
---
 .../proto_conversion/proto_to_obu/parameter_block_generator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index b00f8ab..537ce7f 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -11,6 +11,7 @@
  */
 #include "iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <list>
 #include <memory>
@@ -252,7 +253,7 @@ absl::Status ConvertReconGainsAndFlags(
     }
     computed_recon_gain_flag |= 1 << bit_position;
     computed_recon_gains[bit_position] =
-        static_cast<uint8_t>(recon_gain * 255.0);
+        static_cast<uint8_t>(std::clamp(recon_gain, 0.0, 1.0) * 255.0);
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 6faf20fe5d523b488ed7016247b017a35fcc01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:21 +0000
Subject: [PATCH 29/49] fix: apply output gains to decoded samples

---
 iamf/cli/demixing_manager.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/demixing_manager.cc b/iamf/cli/demixing_manager.cc
index 20353b5..29f1c36 100644
--- a/iamf/cli/demixing_manager.cc
+++ b/iamf/cli/demixing_manager.cc
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <climits>
+#include <cmath>
 #include <cstddef>
 #include <list>
 #include <optional>
@@ -232,7 +233,7 @@ absl::Status StoreSamplesForAudioElementId(
     bool use_decoded_samples,
     const std::list<AudioFrameWithData>& audio_frames_or_decoded_audio_frames,
     const SubstreamIdLabelsMap& substream_id_to_labels,
-    LabeledFrame& labeled_frame) {
+    const LabelGainMap& label_to_output_gain, LabeledFrame& labeled_frame) {
   if (audio_frames_or_decoded_audio_frames.empty()) {
     return absl::OkStatus();
   }
@@ -285,8 +286,19 @@ absl::Status StoreSamplesForAudioElementId(
 
     int channel_index = 0;
     for (const auto& label : labels) {
-      labeled_frame.label_to_samples[label] = input_samples[channel_index];
+      auto& samples = labeled_frame.label_to_samples[label];
+      samples = input_samples[channel_index];
       channel_index++;
+
+      // The encoded signals were attenuated by the output gain. Undo this for
+      // decoded samples; the original samples were never attenuated.
+      const auto gain_iter = label_to_output_gain.find(label);
+      if (use_decoded_samples && gain_iter != label_to_output_gain.end()) {
+        const double linear_gain = std::pow(10.0, gain_iter->second / 20.0);
+        for (auto& sample : samples) {
+          sample *= linear_gain;
+        }
+      }
     }
     if (use_decoded_samples) {
       RETURN_IF_NOT_OK(PassThroughReconGainDataForDecodedAudioFrame(
@@ -421,7 +433,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixOriginalAudioSamples(
     LabeledFrame labeled_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/false, audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_frame));
     if (!labeled_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_frame));
@@ -443,7 +456,8 @@ absl::StatusOr<IdLabeledFrameMap> DemixingManager::DemixDecodedAudioSamples(
     LabeledFrame labeled_decoded_frame;
     RETURN_IF_NOT_OK(StoreSamplesForAudioElementId(
         /*use_decoded_samples=*/true, decoded_audio_frames,
-        demixing_metadata.substream_id_to_labels, labeled_decoded_frame));
+        demixing_metadata.substream_id_to_labels,
+        demixing_metadata.label_to_output_gain, labeled_decoded_frame));
     if (!labeled_decoded_frame.label_to_samples.empty()) {
       RETURN_IF_NOT_OK(
           ApplyDemixers(demixing_metadata.demixers, labeled_decoded_frame));
-- 
2.43.0


From f3201f763d5bec000bd64513d781d648b284f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 30/49] fix: compute recon gains that share a position
 independently of hashing order

---
 .../proto_to_obu/parameter_block_generator.cc        | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
index 537ce7f..affe99c 100644
--- a/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
+++ b/iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc
@@ -197,7 +197,8 @@ absl::Status FindDemixedChannels(
 
 absl::Status ConvertReconGainsAndFlags(
     const bool additional_logging,
-    const absl::flat_hash_map<ChannelLabel::Label, double>& label_to_recon_gain,
+    const std::vector<std::pair<ChannelLabel::Label, double>>&
+        label_to_recon_gain,
     std::vector<uint8_t>& computed_recon_gains,
     DecodedUleb128& computed_recon_gain_flag) {
   computed_recon_gains.resize(12, 0);
@@ -270,7 +271,10 @@ absl::Status ComputeReconGains(
   if (additional_recon_gains_logging) {
     LogChannelNumbers(absl::StrCat("Layer[", layer_index, "]"), layer_channels);
   }
-  absl::flat_hash_map<ChannelLabel::Label, double> label_to_recon_gain;
+  // Kept in the order of the demixed channels, from lower to higher channel
+  // numbers. Several of them may share a recon gain, where the last one, which
+  // is present in the layout of this layer, is used.
+  std::vector<std::pair<ChannelLabel::Label, double>> label_to_recon_gain;
   if (layer_index > 0) {
     std::list<ChannelLabel::Label> demixed_channel_labels;
     RETURN_IF_NOT_OK(FindDemixedChannels(accumulated_channels, layer_channels,
@@ -278,9 +282,11 @@ absl::Status ComputeReconGains(
 
     ABSL_LOG_IF(INFO, additional_recon_gains_logging) << "Demixed channels: ";
     for (const auto& label : demixed_channel_labels) {
+      double recon_gain;
       RETURN_IF_NOT_OK(ReconGainGenerator::ComputeReconGain(
           label, labeled_samples, label_to_decoded_samples,
-          additional_recon_gains_logging, label_to_recon_gain[label]));
+          additional_recon_gains_logging, recon_gain));
+      label_to_recon_gain.emplace_back(label, recon_gain);
     }
   }
 
-- 
2.43.0


From cbd36425df097c6d633ff6c52033d36ab6648eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 31/49] fix: report wav files which could not be finalized

---
 iamf/cli/wav_writer.cc | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index cbc90e2..ef4c9d1 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -100,22 +100,26 @@ absl::Status WriteSamplesInternal(FILE* absl_nullable file, size_t num_channels,
   return absl::OkStatus();
 }
 
-void MaybeFinalizeFile(size_t sample_rate_hz, size_t num_channels,
-                       auto& wav_header_writer, FILE*& file,
-                       size_t& total_samples_written) {
+absl::Status MaybeFinalizeFile(size_t sample_rate_hz, size_t num_channels,
+                               auto& wav_header_writer, FILE*& file,
+                               size_t& total_samples_written) {
   if (file == nullptr) {
-    return;
+    return absl::OkStatus();
   }
 
   // Finalize the temporary header based on the total number of samples written
-  // and close the file.
+  // and close the file. Samples may still be buffered, so any of these steps can
+  // be the first to find out that the file cannot be written.
+  bool success = true;
   if (wav_header_writer) {
-    std::fseek(file, 0, SEEK_SET);
-    wav_header_writer(file, total_samples_written, sample_rate_hz,
-                      num_channels);
+    success = std::fseek(file, 0, SEEK_SET) == 0 &&
+              wav_header_writer(file, total_samples_written, sample_rate_hz,
+                                num_channels) != kAudioToTactileResultFailure;
   }
-  std::fclose(file);
+  success = std::fclose(file) == 0 && success;
   file = nullptr;
+  return success ? absl::OkStatus()
+                 : absl::UnknownError("Failed to finalize the wav file.");
 }
 
 }  // namespace
@@ -172,8 +176,12 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
 
 WavWriter::~WavWriter() {
   // Finalize the header, in case the user did not call `Flush()`.
-  MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_, file_,
-                    total_samples_written_);
+  const auto status =
+      MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_,
+                        file_, total_samples_written_);
+  if (!status.ok()) {
+    ABSL_LOG(ERROR) << status;
+  }
 }
 
 absl::Status WavWriter::PushFrameDerived(
@@ -212,9 +220,8 @@ absl::Status WavWriter::PushFrameDerived(
 
 absl::Status WavWriter::FlushDerived() {
   // No more samples are coming, finalize the header and close the file.
-  MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_, file_,
-                    total_samples_written_);
-  return absl::OkStatus();
+  return MaybeFinalizeFile(sample_rate_hz_, num_channels_, wav_header_writer_,
+                           file_, total_samples_written_);
 }
 
 absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
-- 
2.43.0


From 5a37e744aa409eead46a6a913a8fa4d8626a50f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:20 +0000
Subject: [PATCH 32/49] fix: detect all failures when writing a bit buffer to a
 file

---
 iamf/common/write_bit_buffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iamf/common/write_bit_buffer.cc b/iamf/common/write_bit_buffer.cc
index 553a389..79fa8f8 100644
--- a/iamf/common/write_bit_buffer.cc
+++ b/iamf/common/write_bit_buffer.cc
@@ -132,8 +132,10 @@ absl::Status WriteBufferToFile(const std::vector<uint8_t>& buffer,
   }
   output_file.write(reinterpret_cast<const char*>(buffer.data()),
                     buffer.size());
+  // Flush so any failure to write the data is detected here.
+  output_file.flush();
 
-  if (output_file.bad()) {
+  if (!output_file.good()) {
     return absl::UnknownError("Writing to file failed.");
   }
 
-- 
2.43.0


From f8b29810843c6a6df29fa058e612efda7ee06da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:28 +0000
Subject: [PATCH 33/49] fix: push delayed OBUs when closing a sequence without
 untrimmed samples

---
 iamf/cli/obu_sequencer_base.cc | 29 ++++++++++++++++-------------
 iamf/cli/obu_sequencer_base.h  |  6 ++++++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/iamf/cli/obu_sequencer_base.cc b/iamf/cli/obu_sequencer_base.cc
index 6dd37e0..8e4be56 100644
--- a/iamf/cli/obu_sequencer_base.cc
+++ b/iamf/cli/obu_sequencer_base.cc
@@ -516,8 +516,13 @@ absl::Status ObuSequencerBase::UpdateDescriptorObusAndClose(
           "Descriptor OBUs have changed size between finalizing and closing.");
     }
 
+    if (state_ == kPushDescriptorObusCalled) {
+      // The original descriptors (and possibly some fully trimmed temporal
+      // units) are still delayed. Push them before they are finalized.
+      descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
+      RETURN_IF_NOT_OK(PushDelayedObus());
+    }
     RETURN_IF_NOT_OK(PushFinalizedDescriptorObus(updated_descriptor_obus));
-    state_ = kPushSerializedDescriptorsCalled;
   }
   // OK, regardless of whether the descriptors actually changed, obey the
   // request to close.
@@ -537,14 +542,7 @@ absl::Status ObuSequencerBase::Close() {
       // we will simply push the descriptors with a fallback PTS of 0.
       descriptor_statistics_->first_untrimmed_timestamp = kFallbackFirstPts;
 
-      RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
-          descriptor_statistics_->common_samples_per_frame,
-          descriptor_statistics_->common_sample_rate,
-          descriptor_statistics_->common_bit_depth,
-          descriptor_statistics_->first_untrimmed_timestamp,
-          descriptor_statistics_->num_channels,
-          descriptor_statistics_->descriptor_obus));
-      state_ = kPushSerializedDescriptorsCalled;
+      RETURN_IF_NOT_OK(PushDelayedObus());
       break;
     }
     case kPushSerializedDescriptorsCalled:
@@ -595,6 +593,14 @@ absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
   }
 
   // Found the first untrimmed sample. Push out all delayed OBUs.
+  RETURN_IF_NOT_OK(PushDelayedObus());
+  // Then finally, flush the current temporal unit.
+  return PushSerializedTemporalUnit(temporal_unit.start_timestamp_,
+                                    temporal_unit.num_untrimmed_samples_,
+                                    is_key_frame, serialized_temporal_unit);
+}
+
+absl::Status ObuSequencerBase::PushDelayedObus() {
   RETURN_IF_NOT_OK(PushSerializedDescriptorObus(
       descriptor_statistics_->common_samples_per_frame,
       descriptor_statistics_->common_sample_rate,
@@ -613,10 +619,7 @@ absl::Status ObuSequencerBase::HandleInitialTemporalUnits(
         absl::MakeConstSpan(delayed_temporal_unit.data)));
   }
   delayed_temporal_units_.clear();
-  // Then finally, flush the current temporal unit.
-  return PushSerializedTemporalUnit(temporal_unit.start_timestamp_,
-                                    temporal_unit.num_untrimmed_samples_,
-                                    is_key_frame, serialized_temporal_unit);
+  return absl::OkStatus();
 }
 
 }  // namespace iamf_tools
diff --git a/iamf/cli/obu_sequencer_base.h b/iamf/cli/obu_sequencer_base.h
index f49d72e..fe19b5d 100644
--- a/iamf/cli/obu_sequencer_base.h
+++ b/iamf/cli/obu_sequencer_base.h
@@ -215,6 +215,12 @@ class ObuSequencerBase {
       const TemporalUnitView& temporal_unit,
       absl::Span<const uint8_t> serialized_temporal_unit, bool is_key_frame);
 
+  /*!\brief Pushes the delayed descriptors and temporal units.
+   *
+   * \return `absl::OkStatus()` on success. A specific status on failure.
+   */
+  absl::Status PushDelayedObus();
+
   enum State {
     // Initial state.
     kInitialized,
-- 
2.43.0


From 83d33c55cb1a583c2579b1f637e869b73f656031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 34/49] fix: render trimmed frames of projected ambisonics for
 headphones

---
 iamf/cli/renderer/audio_element_renderer_binaural.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iamf/cli/renderer/audio_element_renderer_binaural.cc b/iamf/cli/renderer/audio_element_renderer_binaural.cc
index 278b06a..040b959 100644
--- a/iamf/cli/renderer/audio_element_renderer_binaural.cc
+++ b/iamf/cli/renderer/audio_element_renderer_binaural.cc
@@ -307,6 +307,11 @@ absl::Status AudioElementRendererBinaural::RenderSamples(
   // Copy samples to the input audio buffer; optionally project the input
   // samples first.
   if (demixing_matrix_.has_value()) {
+    // The frame may be shorter than usual, e.g. when samples were trimmed.
+    for (size_t c = 0; c < projected_samples_.size(); c++) {
+      projected_samples_[c].resize(samples_to_render[0].size());
+      projected_samples_spans_[c] = absl::MakeSpan(projected_samples_[c]);
+    }
     RETURN_IF_NOT_OK(
         ProjectSamplesToRender(samples_to_render, *demixing_matrix_,
                                absl::MakeSpan(projected_samples_spans_)));
-- 
2.43.0


From 5ed40591dcb819a7f623140adf0c517e31c7a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:13 +0000
Subject: [PATCH 35/49] fix: do not measure layouts which cannot be rendered

---
 iamf/cli/rendering_mix_presentation_finalizer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/rendering_mix_presentation_finalizer.cc b/iamf/cli/rendering_mix_presentation_finalizer.cc
index a7dc81b..2525931 100644
--- a/iamf/cli/rendering_mix_presentation_finalizer.cc
+++ b/iamf/cli/rendering_mix_presentation_finalizer.cc
@@ -220,6 +220,10 @@ absl::Status GenerateRenderingMetadataForLayouts(
             audio_elements_in_sub_mix, sub_mix.audio_elements,
             sub_mix.output_mix_gain, layout.loudness_layout, num_channels,
             common_sample_rate, common_num_samples_per_frame);
+    if (layout_rendering_metadata.layout_renderer == nullptr) {
+      // Layouts which cannot be rendered are not measured or post-processed.
+      continue;
+    }
 
     if (loudness_calculator_factory != nullptr) {
       // Optionally create a loudness calculator.
-- 
2.43.0


From d890827954c8eca56e15c3f13dcc4cb4a20166ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:41 +0000
Subject: [PATCH 36/49] fix: match ADM audio elements with the layout and wav
 file of their object

---
 .../iamf/user_metadata_generator.cc           | 37 ++++++++++++++++---
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index 7bf3d6a..b2f41be 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -12,6 +12,7 @@
 
 #include "iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.h"
 
+#include <cstddef>
 #include <cstdint>
 #include <filesystem>
 #include <fstream>
@@ -39,8 +40,22 @@ namespace adm_to_user_metadata {
 
 namespace {
 constexpr DecodedUleb128 kCodecConfigId = 0;
+
+// Gets the position of an audio object in the ADM. The layouts and the output
+// ".wav" files are in the same order.
+absl::StatusOr<size_t> GetAudioObjectIndex(const ADM& adm,
+                                           absl::string_view audio_object_id) {
+  for (size_t i = 0; i < adm.audio_objects.size(); ++i) {
+    if (adm.audio_objects[i].id == audio_object_id) {
+      return i;
+    }
+  }
+  return absl::InvalidArgumentError(
+      absl::StrCat("Unknown audioObject with id= ", audio_object_id));
 }
 
+}  // namespace
+
 absl::Status UserMetadataGenerator::WriteUserMetadataToFile(
     bool write_binary_proto, const std::filesystem::path& file_path,
     const iamf_tools_cli_proto::UserMetadata& user_metadata) {
@@ -109,13 +124,18 @@ UserMetadataGenerator::GenerateUserMetadata(
       return status;
     };
   } else {
-    for (const auto& [unused_audio_object_id, audio_element_id] :
+    for (const auto& [audio_object_id, audio_element_id] :
          iamf->audio_object_to_audio_element_) {
+      const auto audio_object_index =
+          GetAudioObjectIndex(adm_, audio_object_id);
+      if (!audio_object_index.ok()) {
+        return audio_object_index.status();
+      }
       if (const auto status =
               iamf->audio_element_metadata_builder_
                   .PopulateAudioElementMetadata(
                       audio_element_id, kCodecConfigId,
-                      iamf->input_layouts_[audio_element_id],
+                      iamf->input_layouts_[*audio_object_index],
                       *user_metadata.add_audio_element_metadata());
           !status.ok()) {
         return status;
@@ -169,16 +189,21 @@ UserMetadataGenerator::GenerateUserMetadata(
       return status;
     }
   } else {
-    int32_t audio_pack_index = 0;
-    for (const auto& [unused_audio_object_id, audio_element_id] :
+    for (const auto& [audio_object_id, audio_element_id] :
          iamf->audio_object_to_audio_element_) {
+      const auto audio_object_index =
+          GetAudioObjectIndex(adm_, audio_object_id);
+      if (!audio_object_index.ok()) {
+        return audio_object_index.status();
+      }
       // The output files have suffixes starting from 1.
       const std::string wav_file_name =
-          absl::StrCat(file_prefix, "_converted", audio_pack_index + 1, ".wav");
+          absl::StrCat(file_prefix, "_converted", *audio_object_index + 1,
+                       ".wav");
       if (const auto& status =
               AudioFrameMetadataBuilder::PopulateAudioFrameMetadata(
                   wav_file_name, audio_element_id,
-                  iamf->input_layouts_[audio_pack_index++],
+                  iamf->input_layouts_[*audio_object_index],
                   *user_metadata.add_audio_frame_metadata());
           !status.ok()) {
         return status;
-- 
2.43.0


From f8957dba48a2bee989098d057e69c627b4f3b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:41 +0000
Subject: [PATCH 37/49] fix: derive the mixes of each ADM programme from its
 own present objects

---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc | 39 ++++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index 857e781..5709ab3 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -12,6 +12,7 @@
 
 #include "iamf/cli/adm_to_user_metadata/iamf/iamf.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <iostream>
 #include <map>
@@ -43,7 +44,7 @@ struct HasComplementaryObjectIdAndAudioObjectGroup {
 // mix. This function returns a 2D vector, where the first dimension represents
 // the audio object group.
 std::vector<std::vector<std::string>> GenerateAudioObjectGroups(
-    std::vector<HasComplementaryObjectIdAndAudioObjectGroup>&
+    std::vector<HasComplementaryObjectIdAndAudioObjectGroup>
         audio_object_groups) {
   std::vector<std::vector<std::string>> output = {};
 
@@ -90,6 +91,13 @@ std::vector<std::vector<std::string>> GenerateAudioObjectGroups(
   return output;
 }
 
+bool HasAudioObject(const ADM& adm, absl::string_view audio_object_id) {
+  return std::any_of(adm.audio_objects.begin(), adm.audio_objects.end(),
+                     [&audio_object_id](const AudioObject& audio_object) {
+                       return audio_object.id == audio_object_id;
+                     });
+}
+
 // This method computes the number of audioProgramme(s) and the associated
 // audioObject(s). If an audioProgramme contains an audioObject with a
 // complementary audioObject, the complementary audioObject should be considered
@@ -113,6 +121,8 @@ void GenerateAudioObjectsMap(
   for (uint64_t original_program_index = 0;
        original_program_index < adm.audio_programmes.size();
        ++original_program_index) {
+    audio_object_ids_to_ignore.clear();
+    audio_object_groups.clear();
     const auto& audio_programme = adm.audio_programmes[original_program_index];
 
     // Loop over the audioContent(s) within an audioProgramme.
@@ -148,12 +158,26 @@ void GenerateAudioObjectsMap(
 
               for (const auto& complementary_audio_object_id :
                    audio_object.audio_comple_object_id_ref) {
-                audio_object_group.audio_objects_ref_ids.push_back(
-                    complementary_audio_object_id);
                 audio_object_ids_to_ignore.insert(
                     complementary_audio_object_id);
+                // The complementary object may have been found first, in which
+                // case it belongs to this group instead.
+                std::erase_if(
+                    audio_object_groups,
+                    [&complementary_audio_object_id](const auto& group) {
+                      return !group.has_complementary_object_group &&
+                             group.audio_objects_ref_ids.front() ==
+                                 complementary_audio_object_id;
+                    });
+                // Objects may have been removed, e.g. based on importance.
+                if (!HasAudioObject(adm, complementary_audio_object_id)) {
+                  continue;
+                }
+                audio_object_group.audio_objects_ref_ids.push_back(
+                    complementary_audio_object_id);
               }
             }
+            audio_object_ids_to_ignore.insert(audio_object.id);
             audio_object_groups.push_back(audio_object_group);
           }
         }
@@ -162,14 +186,17 @@ void GenerateAudioObjectsMap(
 
     // Remove the unsupported audio programme.
     if (audio_object_groups.size() > kMaxAudioElementPerMix) {
-      // TODO(b/331198492): Fix a bug where all subsequent programmes are
-      //                    skipped - even if they would otherwise be valid.
       std::cout << "Skipping the audioProgramme" << audio_programme.id
                 << "as the number of audioObjects is greater than "
                    "kMaxAudioElementPerMix"
                 << std::endl;
       continue;
     }
+    // Skip the audio programme when none of its objects are present. A mix
+    // needs at least one audio element.
+    if (audio_object_groups.empty()) {
+      continue;
+    }
     // Generate the audio object groups for the given audio programme.
     const auto& audio_program_to_audio_object_ids_map =
         GenerateAudioObjectGroups(audio_object_groups);
@@ -195,8 +222,6 @@ void GenerateAudioObjectsMap(
           [mix_presentation_id_to_audio_objects_and_metadata.size()] = {
               audio_objects_list, static_cast<int32_t>(original_program_index)};
     }
-    audio_object_ids_to_ignore.clear();
-    audio_object_groups.clear();
   }
 }
 
-- 
2.43.0


From 2eeae55943b453324fd3d72b4320172e4d5cf7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:52 +0000
Subject: [PATCH 38/49] fix: refuse ADM objects without a pack format and
 documents without objects

---
 iamf/cli/adm_to_user_metadata/iamf/iamf.cc                  | 6 ++++++
 .../adm_to_user_metadata/iamf/user_metadata_generator.cc    | 6 ++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
index 5709ab3..464fa29 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/iamf.cc
@@ -22,6 +22,7 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "iamf/cli/adm_to_user_metadata/adm/adm_elements.h"
 #include "iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.h"
@@ -271,6 +272,11 @@ absl::StatusOr<IAMF> IAMF::Create(const ADM& adm, int32_t max_frame_duration_ms,
   std::vector<IamfInputLayout> input_layouts;
   input_layouts.reserve(adm.audio_objects.size());
   for (auto audio_object : adm.audio_objects) {
+    if (audio_object.audio_pack_format_id_refs.empty()) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("Missing audioPackFormatIDRef for audioObject with id= ",
+                       audio_object.id));
+    }
     const auto input_layout = LookupInputLayoutFromAudioPackFormatId(
         audio_object.audio_pack_format_id_refs[0]);
     if (!input_layout.ok()) {
diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index b2f41be..e2d69bf 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -86,10 +86,8 @@ absl::StatusOr<iamf_tools_cli_proto::UserMetadata>
 UserMetadataGenerator::GenerateUserMetadata(
     iamf_tools_cli_proto::ProfileVersion profile_version,
     absl::string_view file_prefix) const {
-  std::vector<std::string> audio_pack_format_ids;
-  audio_pack_format_ids.reserve(adm_.audio_objects.size());
-  for (auto audio_object : adm_.audio_objects) {
-    audio_pack_format_ids.push_back(audio_object.audio_pack_format_id_refs[0]);
+  if (adm_.audio_objects.empty()) {
+    return absl::InvalidArgumentError("No audioObject present.");
   }
 
   auto iamf =
-- 
2.43.0


From 5ab001abe8ea96eb11fc96f3b88fb6284f83061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:52 +0000
Subject: [PATCH 39/49] fix: give element mix gains with their own default
 their own parameter id

---
 .../adm_to_user_metadata/iamf/mix_presentation_handler.cc    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc b/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc
index e6c7cd6..b44c7b1 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/mix_presentation_handler.cc
@@ -156,7 +156,10 @@ absl::Status SubMixAudioElementMetadataBuilder(
 
   auto* param_definition =
       mix_gain_param_definition->mutable_param_definition();
-  param_definition->set_parameter_id(0);
+  // Parameters which share an ID must have equivalent definitions. Only share
+  // the ID among those which have the same default as the output mix gain.
+  param_definition->set_parameter_id(
+      mix_gain_q7_8 == 0 ? 0 : audio_element_id + 1);
   param_definition->set_parameter_rate(common_parameter_rate);
   param_definition->set_param_definition_mode(1);
 
-- 
2.43.0


From ac93bea481df2bf6b12145fca2e463cb6cdc98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:52 +0000
Subject: [PATCH 40/49] fix: keep the tracks of removed ADM objects from
 shifting the audio of the others

---
 .../adm_to_user_metadata/adm/adm_elements.h   |  4 ++
 .../adm/wav_file_splicer.cc                   | 59 ++++++++++---------
 .../adm_to_user_metadata/adm/xml_to_adm.cc    | 12 ++++
 3 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
index da90e4a..504eb57 100644
--- a/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
+++ b/iamf/cli/adm_to_user_metadata/adm/adm_elements.h
@@ -94,6 +94,10 @@ struct AudioObject {
   std::vector<std::string> audio_pack_format_id_refs;
   std::vector<std::string> audio_comple_object_id_ref;
   std::vector<std::string> audio_track_uid_ref;
+  // Position of each track among the channels of the input wav file. Tracks are
+  // numbered across all of the objects of the ADM, including those which are
+  // later removed (e.g. because of their importance).
+  std::vector<int32_t> audio_track_indices;
 };
 
 // This structure holds the attributes of an audio pack format in ADM.
diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 742cd50..0bf0e23 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -71,16 +71,10 @@ constexpr int kMaxLfeChannelsAllowed =
 // Creates a map for the audioObject(s) and the audioTrack(s) present within.
 std::vector<std::vector<int32_t>> GetAudioTracksForAudioObjects(
     const std::vector<struct AudioObject>& audio_objects) {
-  std::vector<std::vector<int32_t>> audio_tracks_for_audio_objects(
-      audio_objects.size(), std::vector<int32_t>());
-  int32_t audio_object_index = -1;
-  int32_t audio_track_index = -1;
+  std::vector<std::vector<int32_t>> audio_tracks_for_audio_objects;
+  audio_tracks_for_audio_objects.reserve(audio_objects.size());
   for (const auto& audio_object : audio_objects) {
-    auto& audio_tracks_for_audio_object =
-        audio_tracks_for_audio_objects[++audio_object_index];
-    for (auto unused_audio_track : audio_object.audio_track_uid_ref) {
-      audio_tracks_for_audio_object.push_back(++audio_track_index);
-    }
+    audio_tracks_for_audio_objects.push_back(audio_object.audio_track_indices);
   }
   return audio_tracks_for_audio_objects;
 }
@@ -646,6 +640,15 @@ absl::Status SpliceWavFilesFromAdm(
       return absl::NotFoundError("No audioObject present.");
     };
 
+    const int32_t channels = reader.format_info_.num_channels;
+    for (const auto& audio_tracks : audio_tracks_for_audio_objects) {
+      if (std::any_of(audio_tracks.begin(), audio_tracks.end(),
+                      [&channels](int32_t track) { return track >= channels; })) {
+        return absl::InvalidArgumentError(
+            "The tracks of an audioObject are not present in the wav file.");
+      }
+    }
+
     // Construct the wav writers to use a file name of the form 'converted'
     // followed by the 1-indexed content.
     std::vector<std::unique_ptr<WavWriter>> audio_object_index_to_wav_writer;
@@ -681,30 +684,32 @@ absl::Status SpliceWavFilesFromAdm(
     // corresponding `WavWriter`s.
     const int32_t bytes_per_sample =
         static_cast<int32_t>(wav_file_fmt.bits_per_sample) / kBitsPerByte;
-    const int32_t channels = wav_file_fmt.num_channels;
+    // Buffer to store one sample of each channel.
+    std::vector<char> samples(static_cast<size_t>(bytes_per_sample) * channels);
     for (size_t data_chunk_pos = 0; data_chunk_pos < data_chunk_info->size;
-         data_chunk_pos += static_cast<size_t>(bytes_per_sample) * channels) {
+         data_chunk_pos += samples.size()) {
+      if (!input_stream.read(samples.data(), samples.size())) {
+        AbortAllWavWriters(audio_object_index_to_wav_writer);
+        return absl::OutOfRangeError(
+            "Reached end of stream before the implied end of the `data` "
+            "chunk.");
+      }
+
       for (size_t audio_object_index = 0;
            audio_object_index < audio_tracks_for_audio_objects.size();
            ++audio_object_index) {
-        // Read in the samples for the current audio object.
-        std::vector<char> sample(
-            static_cast<size_t>(bytes_per_sample) *
-            audio_tracks_for_audio_objects[audio_object_index].size());
-
-        if (!input_stream.read(sample.data(), sample.size())) {
-          AbortAllWavWriters(audio_object_index_to_wav_writer);
-          return absl::OutOfRangeError(
-              "Reached end of stream before the implied end of the `data` "
-              "chunk.");
-        }
-
-        // Store the samples in the buffer.
+        // Store the samples for the current audio object in the buffer.
         auto& samples_for_audio_object =
             interlaced_samples_for_audio_objects[audio_object_index];
-        std::transform(sample.begin(), sample.end(),
-                       std::back_inserter(samples_for_audio_object),
-                       [](char c) { return static_cast<uint8_t>(c); });
+        for (const int32_t audio_track :
+             audio_tracks_for_audio_objects[audio_object_index]) {
+          const auto sample =
+              samples.begin() +
+              static_cast<size_t>(bytes_per_sample) * audio_track;
+          std::transform(sample, sample + bytes_per_sample,
+                         std::back_inserter(samples_for_audio_object),
+                         [](char c) { return static_cast<uint8_t>(c); });
+        }
 
         // Occasionally flush the buffer to the corresponding wav writer.
         if (samples_for_audio_object.size() >= kSizeToFlush) {
diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 99bbfb3..6ca868a 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -275,6 +275,17 @@ absl::Status SetAudioBlockValue(absl::string_view key, absl::string_view value,
   return absl::OkStatus();
 }
 
+// Sets the position of each track of the audio objects in the input wav file.
+void SetAudioTrackIndices(ADM& adm) {
+  int32_t audio_track_index = 0;
+  for (auto& audio_object : adm.audio_objects) {
+    audio_object.audio_track_indices.clear();
+    for (size_t i = 0; i < audio_object.audio_track_uid_ref.size(); ++i) {
+      audio_object.audio_track_indices.push_back(audio_track_index++);
+    }
+  }
+}
+
 // Removes objects from the ADM structure based on the given importance
 // threshold. Also, removes audio objects with IDs found in the set of invalid
 // audio objects.
@@ -926,6 +937,7 @@ absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml_data,
     case XML_STATUS_OK:
       SetChannelIndices(handler.adm);
       ValidateAudioObjects(handler.adm, handler);
+      SetAudioTrackIndices(handler.adm);
       RemoveLowImportanceAndInvalidAudioObjects(importance_threshold, handler);
       if (!handler.status.ok()) {
         return handler.status;
-- 
2.43.0


From 4ab0e9a41c7901cec6d4fdfd7af5c4f52494434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:52 +0000
Subject: [PATCH 41/49] fix: return an error when a wav file of an ADM
 conversion cannot be created

---
 .../adm/wav_file_splicer.cc                   | 86 ++++++++++++-------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 0bf0e23..1fd3776 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -86,6 +86,20 @@ void AbortAllWavWriters(
   }
 }
 
+// Creates a wav writer, or returns an error if it cannot be created.
+absl::StatusOr<std::unique_ptr<WavWriter>> CreateWavWriter(
+    const std::filesystem::path& wav_file_path, int num_channels,
+    const FormatInfoChunk& wav_file_fmt) {
+  auto wav_writer = WavWriter::Create(
+      wav_file_path.string(), num_channels, wav_file_fmt.samples_per_sec,
+      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  if (wav_writer == nullptr) {
+    return absl::FailedPreconditionError(absl::StrCat(
+        "Failed to create wav file= ", wav_file_path.string()));
+  }
+  return wav_writer;
+}
+
 absl::Status FlushToWavWriter(std::vector<uint8_t>& samples_to_flush,
                               WavWriter& wav_writer) {
   RETURN_IF_NOT_OK(wav_writer.WritePcmSamples(samples_to_flush));
@@ -313,9 +327,11 @@ absl::Status ConvertFromObjectsTo3OA(
       output_file_path / absl::StrCat(file_prefix, "_converted1.wav");
 
   // Output channels set to 16 as objects get panned to 3OA.
-  auto output_wav_writer = WavWriter::Create(
-      output_file.string(), kOutputWavChannels, wav_file_fmt.samples_per_sec,
-      wav_file_fmt.bits_per_sample, kMaxNumSamplesPerFrame);
+  auto output_wav_writer =
+      CreateWavWriter(output_file, kOutputWavChannels, wav_file_fmt);
+  if (!output_wav_writer.ok()) {
+    return output_wav_writer.status();
+  }
 
   // Calculate number of bytes per sample based on bits per sample.
   const int32_t bytes_per_sample =
@@ -393,10 +409,11 @@ absl::Status ConvertFromObjectsTo3OA(
     // and write to an intermediate wav file which will be input to the
     // panner.
     {
-      auto wav_writer = WavWriter::Create(
-          input_file.string(), wav_file_fmt.num_channels,
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame);
+      auto wav_writer = CreateWavWriter(input_file, wav_file_fmt.num_channels,
+                                        wav_file_fmt);
+      if (!wav_writer.ok()) {
+        return wav_writer.status();
+      }
       // Compute the length of audio samples corresponding to the current
       // segment duration. The samples excluded due the rounding error at each
       // segment is accounted in the next segment.
@@ -422,13 +439,13 @@ absl::Status ConvertFromObjectsTo3OA(
 
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, processed_seg_length,
                                         total_channel_size, samples_buffer,
-                                        *wav_writer));
+                                        **wav_writer));
     }
 
     // Pan the current wav segment to 3OA and append the output wav.
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
-                                            *output_wav_writer));
+                                            **output_wav_writer));
 
     UpdateWavSplicingParams(this_seg_duration, audio_channels, seg_duration,
                             audio_block_indices);
@@ -455,17 +472,18 @@ absl::Status ConvertFromObjectsTo3OA(
   }
   if (sample_count_drift > 0) {
     {
-      auto wav_writer = WavWriter::Create(
-          input_file.string(), wav_file_fmt.num_channels,
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame);
+      auto wav_writer = CreateWavWriter(input_file, wav_file_fmt.num_channels,
+                                        wav_file_fmt);
+      if (!wav_writer.ok()) {
+        return wav_writer.status();
+      }
       RETURN_IF_NOT_OK(SpliceWavSegment(input_stream, sample_count_drift,
                                         total_channel_size, samples_buffer,
-                                        *wav_writer));
+                                        **wav_writer));
     }
     RETURN_IF_NOT_OK(PanObjectsToAmbisonics(input_file.string(), input_adm,
                                             audio_block_indices,
-                                            *output_wav_writer));
+                                            **output_wav_writer));
   }
 
   // Delete the temporary files.
@@ -487,7 +505,6 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   const size_t bits_per_sample = wav_file_fmt.bits_per_sample;
   const int32_t bytes_per_sample = bits_per_sample / kBitsPerByte;
   const int num_channels = wav_file_fmt.num_channels;
-  const size_t samples_per_sec = wav_file_fmt.samples_per_sec;
   const int lfe_count = lfe_ids.size();
   const int non_lfe_count = num_channels - lfe_count;
 
@@ -495,15 +512,21 @@ absl::Status SeparateLfeChannels(const std::filesystem::path& output_file_path,
   // the wav writer corresponding to non-LFE channels and subsequent indices
   // correspond to each LFE channel present.
   std::vector<std::unique_ptr<WavWriter>> nonlfe_lfe_wav_writer;
-  nonlfe_lfe_wav_writer.emplace_back(
-      WavWriter::Create(non_lfe_file_path, non_lfe_count, samples_per_sec,
-                        bits_per_sample, kMaxNumSamplesPerFrame));
+  auto non_lfe_wav_writer =
+      CreateWavWriter(non_lfe_file_path, non_lfe_count, wav_file_fmt);
+  if (!non_lfe_wav_writer.ok()) {
+    return non_lfe_wav_writer.status();
+  }
+  nonlfe_lfe_wav_writer.push_back(*std::move(non_lfe_wav_writer));
   for (size_t lfe_index = 1; lfe_index <= lfe_ids.size(); ++lfe_index) {
-    nonlfe_lfe_wav_writer.emplace_back(WavWriter::Create(
-        (output_file_path /
-         absl::StrCat(file_prefix, "_converted", lfe_index + 1, ".wav"))
-            .string(),
-        1, samples_per_sec, bits_per_sample, kMaxNumSamplesPerFrame));
+    auto lfe_wav_writer = CreateWavWriter(
+        output_file_path /
+            absl::StrCat(file_prefix, "_converted", lfe_index + 1, ".wav"),
+        1, wav_file_fmt);
+    if (!lfe_wav_writer.ok()) {
+      return lfe_wav_writer.status();
+    }
+    nonlfe_lfe_wav_writer.push_back(*std::move(lfe_wav_writer));
   }
 
   // The samples in the input wav are packed in a channel-interleaved fashion.
@@ -658,13 +681,16 @@ absl::Status SpliceWavFilesFromAdm(
     for (size_t audio_object_index = 0;
          audio_object_index < audio_tracks_for_audio_objects.size();
          ++audio_object_index) {
-      audio_object_index_to_wav_writer.emplace_back(WavWriter::Create(
-          (output_file_path / absl::StrCat(file_prefix, "_converted",
-                                           audio_object_index + 1, ".wav"))
-              .string(),
+      auto wav_writer = CreateWavWriter(
+          output_file_path / absl::StrCat(file_prefix, "_converted",
+                                          audio_object_index + 1, ".wav"),
           audio_tracks_for_audio_objects[audio_object_index].size(),
-          wav_file_fmt.samples_per_sec, wav_file_fmt.bits_per_sample,
-          kMaxNumSamplesPerFrame));
+          wav_file_fmt);
+      if (!wav_writer.ok()) {
+        AbortAllWavWriters(audio_object_index_to_wav_writer);
+        return wav_writer.status();
+      }
+      audio_object_index_to_wav_writer.push_back(*std::move(wav_writer));
     }
 
     // Write audio samples into the corresponding output wav file(s).
-- 
2.43.0


From fd017840c4d57d4fe991c8c8ce2fa49b9c1fc923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:52 +0000
Subject: [PATCH 42/49] fix: remove the LFE channel, not the one after it,
 before panning

---
 iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 1fd3776..126b4c1 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -612,8 +612,9 @@ absl::Status SeparateLfeAndConvertTo3OA(
   // ADM.
   ADM non_lfe_adm = reader.adm_;
   for (int index = lfe_count - 1; index >= 0; --index) {
+    // `lfe_ids` are one-based.
     non_lfe_adm.audio_channels.erase(non_lfe_adm.audio_channels.begin() +
-                                     lfe_ids[index]);
+                                     lfe_ids[index] - 1);
   }
 
   // Modify FormatInfoChunk with non-LFE channel count before invoking the
-- 
2.43.0


From b8dc093185b3599b00a75439c048fe3a0a2e8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 43/49] fix: refuse Dolby ADM documents whose channels do not
 match the wav file

---
 .../adm/wav_file_splicer.cc                   | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
index 126b4c1..3945a58 100644
--- a/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc
@@ -301,6 +301,27 @@ void UpdateWavSplicingParams(
   }
 }
 
+// Checks that there is positional metadata for each channel of the wav file.
+absl::Status ValidateAudioChannels(
+    const std::vector<AudioChannelFormat>& audio_channels, size_t num_channels) {
+  if (audio_channels.size() != num_channels) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("The number of audioChannelFormat(s) (",
+                     audio_channels.size(),
+                     ") does not match the number of channels in the wav file (",
+                     num_channels, ")."));
+  }
+  for (const auto& audio_channel : audio_channels) {
+    if (audio_channel.audio_blocks.empty()) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("Missing audioBlockFormat for audioChannelFormat with "
+                       "id= ",
+                       audio_channel.id));
+    }
+  }
+  return absl::OkStatus();
+}
+
 // This function handles the splicing of wav data into segments to respect the
 // positional metadata defined by audioBlockFormat and invokes the panner to
 // obtain 3OA. The panned wav for each segment is appended to obtain the final
@@ -311,6 +332,8 @@ absl::Status ConvertFromObjectsTo3OA(
     const FormatInfoChunk& wav_file_fmt, std::istream& input_stream,
     const iamf_tools::adm_to_user_metadata::Bw64Reader::ChunkInfo&
         data_chunk_info) {
+  RETURN_IF_NOT_OK(ValidateAudioChannels(input_adm.audio_channels,
+                                         wav_file_fmt.num_channels));
   const std::streamoff audio_data_position =
       data_chunk_info.offset + Bw64Reader::kChunkHeaderOffset;
   input_stream.seekg(audio_data_position);
@@ -593,7 +616,12 @@ absl::Status SeparateLfeAndConvertTo3OA(
                                    data_chunk_info);
   }
 
-  ABSL_CHECK_LT(lfe_count, num_channels);
+  RETURN_IF_NOT_OK(
+      ValidateAudioChannels(reader.adm_.audio_channels, num_channels));
+  if (lfe_count >= num_channels) {
+    return absl::InvalidArgumentError(
+        "Expected at least one channel other than LFE.");
+  }
   const int non_lfe_count = num_channels - lfe_count;
   const auto& non_lfe_file_path =
       (output_file_path / non_lfe_file_name).string();
@@ -765,8 +793,9 @@ absl::Status SpliceWavFilesFromAdm(
           output_file_path, file_prefix, reader.adm_, reader.format_info_,
           input_stream, data_chunk_info.value()));
     } else {
-      ABSL_CHECK_EQ(static_cast<int>(profile_version),
-                    static_cast<int>(kIamfBaseEnhancedProfile));
+      if (profile_version != kIamfBaseEnhancedProfile) {
+        return absl::InvalidArgumentError("Unsupported profile version.");
+      }
       // For base enhanced profile version, convert the LFE channel(s) (if
       // present) to separate wav file(s) and the remaining channels to 3OA (16
       // channels) to facilitate IAMF encoding.
-- 
2.43.0


From 51a2740ff43c974d56554b0d5a59e4fd5bf634d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 44/49] fix: refuse references to packs of a Dolby ADM document
 without packs

---
 iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 6ca868a..2c5d8b6 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -456,6 +456,11 @@ absl::Status ValidateAdmObjectForDolbyAdm(const ADM& adm,
                               [&audio_pack_id](const AudioPackFormat& pack) {
                                 return pack.id == audio_pack_id;
                               });
+  if (adm.audio_packs.empty()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("audioPackFormatIDRef= ", audio_pack_id,
+                     " does not resolve to a known audioPackFormat."));
+  }
   size_t pack_index = (pack_id != adm.audio_packs.end())
                           ? std::distance(adm.audio_packs.begin(), pack_id)
                           : 0;
-- 
2.43.0


From 1ba4c158b191782f0021a561c9ce97ede7a51c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 45/49] fix: describe the separated LFE channels when there are
 fewer objects

---
 .../app/adm_to_user_metadata_main_lib.cc      | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc b/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
index 18b3653..ef952b1 100644
--- a/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
+++ b/iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.cc
@@ -11,12 +11,14 @@
  */
 
 #include <algorithm>
+#include <cstddef>
 #include <cstdint>
 #include <filesystem>
 #include <istream>
 
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "iamf/cli/adm_to_user_metadata/adm/adm_elements.h"
 #include "iamf/cli/adm_to_user_metadata/adm/bw64_reader.h"
@@ -37,10 +39,39 @@ constexpr char kAudioPackFormatIdFor3OA[] = "AP_00040003";
 // DirectSpeakers (0001) and layout as LFE (1FFF).
 constexpr char kAudioPackFormatIdForLfe[] = "AP_00011FFF";
 
-void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
+// Adds audio objects until there are at least `num_audio_objects`. Useful when
+// LFE channels are separated from an ADM with fewer objects, e.g. one which only
+// has a channel bed.
+void AddAudioObjectsForLfe(size_t num_audio_objects, ADM& adm_metadata) {
+  while (adm_metadata.audio_objects.size() < num_audio_objects) {
+    AudioObject lfe_object = adm_metadata.audio_objects[0];
+    lfe_object.id = absl::StrCat(lfe_object.id, "_lfe",
+                                 adm_metadata.audio_objects.size());
+    for (auto& audio_content : adm_metadata.audio_contents) {
+      auto& id_refs = audio_content.audio_object_id_ref;
+      if (std::find(id_refs.begin(), id_refs.end(),
+                    adm_metadata.audio_objects[0].id) != id_refs.end()) {
+        id_refs.push_back(lfe_object.id);
+      }
+    }
+    adm_metadata.audio_objects.push_back(lfe_object);
+  }
+}
+
+absl::Status ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
     const ProfileVersion profile_version, const int lfe_count,
     ADM& adm_metadata) {
   using enum ProfileVersion;
+  if (adm_metadata.audio_objects.empty()) {
+    return absl::NotFoundError("No audioObject present.");
+  }
+  for (const auto& audio_object : adm_metadata.audio_objects) {
+    if (audio_object.audio_pack_format_id_refs.empty()) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("Missing audioPackFormatIDRef for audioObject with id= ",
+                       audio_object.id));
+    }
+  }
   if (profile_version == kIamfBaseProfile) {
     // For IA Base Profile, max channels allowed per mix is 18, hence pan all
     // audio objects(both channel beds and objects) to 3OA (16 channels).
@@ -52,6 +83,7 @@ void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
     // For IA Base Enhanced Profile, max channels allowed per mix is 28, hence
     // pan all non-LFE channels(both channel beds and objects) in the to 3OA (16
     // channels) and keep the LFE(s) as separate audio element(s).
+    AddAudioObjectsForLfe(1 + lfe_count, adm_metadata);
     adm_metadata.audio_objects.erase(
         adm_metadata.audio_objects.begin() + 1 + lfe_count,
         adm_metadata.audio_objects.end());
@@ -62,6 +94,7 @@ void ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
           kAudioPackFormatIdForLfe;
     }
   }
+  return absl::OkStatus();
 }
 
 }  // namespace
@@ -88,8 +121,8 @@ GenerateUserMetadataAndSpliceWavFiles(
   ADM adm_metadata = reader->adm_;
 
   if (reader->adm_.file_type == kAdmFileTypeDolby) {
-    ModifyAdmToPanObjectsTo3OAAndSeparateLfe(profile_version, lfe_count,
-                                             adm_metadata);
+    RETURN_IF_NOT_OK(ModifyAdmToPanObjectsTo3OAAndSeparateLfe(
+        profile_version, lfe_count, adm_metadata));
   }
 
   // Generate the user metadata.
-- 
2.43.0


From 80564a0dd90946ceec0afe54a4a8800b9d75d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 46/49] fix: keep the whole text of ADM elements whose text
 contains entities

---
 .../adm_to_user_metadata/adm/xml_to_adm.cc    | 43 ++++++++++++++++---
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
index 2c5d8b6..59ec46c 100644
--- a/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
+++ b/iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc
@@ -20,6 +20,7 @@
 #include <sstream>
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "absl/base/no_destructor.h"
@@ -105,6 +106,8 @@ struct Handler {
   ADM adm;
   absl::flat_hash_set<std::string> invalid_audio_objects;
   std::string audio_object_id;
+  // Text of the current element which was encountered so far.
+  std::string character_data;
 
   AdmElement parent = kElementDefault;
   AdmProgrammeElement audio_programme_tag = kProgrammeDefault;
@@ -557,12 +560,13 @@ void ValidateAudioObjects(const ADM& adm, Handler& handler) {
   }
 }
 
-//  A function to use with `expat::XML_SetCharacterDataHandler`. This function
-//  is responsible for storing character data encountered while parsing an AXML
-//  chunk in their respective handler.adm class attributes.
-void XMLCharacterDataHandlerForExpat(void* parser_data, const XML_Char* text,
-                                     int32_t len) {
-  Handler& handler = *static_cast<Handler*>(parser_data);
+// This function is responsible for storing character data encountered while
+// parsing an AXML chunk in their respective handler.adm class attributes.
+void StoreCharacterData(Handler& handler) {
+  const std::string character_data = std::move(handler.character_data);
+  handler.character_data.clear();
+  const char* text = character_data.data();
+  const size_t len = character_data.size();
 
   int32_t idx = 0;
   switch (handler.parent) {
@@ -786,11 +790,35 @@ void XMLCharacterDataHandlerForExpat(void* parser_data, const XML_Char* text,
   }
 }
 
+// A function to use with `expat::XML_SetCharacterDataHandler`. The text of an
+// element may arrive in several pieces (e.g. when it contains entities). It is
+// stored when the element ends.
+void XMLCharacterDataHandlerForExpat(void* parser_data, const XML_Char* text,
+                                     int32_t len) {
+  static_cast<Handler*>(parser_data)->character_data.append(text, len);
+}
+
+// A function to use with `expat::XML_SetEndElementHandler`. It stores the text
+// of the element. Any text that follows does not belong to the element.
+void XMLEndTagHandlerForExpat(void* parser_data, const char* /*name*/) {
+  Handler& handler = *static_cast<Handler*>(parser_data);
+  StoreCharacterData(handler);
+  handler.audio_programme_tag = kProgrammeDefault;
+  handler.audio_content_tag = kContentDefault;
+  handler.audio_object_tag = kObjectDefault;
+  handler.audio_pack_tag = kPackDefault;
+  handler.audio_channel_tag = kChannelDefault;
+  handler.audio_block_tag = kBlockDefault;
+}
+
 // A function to use with `expat::XML_SetStartElementHandler`. It sets the
 // handler's parent tag depending on the name attribute.
 void XMLStartTagHandlerForExpat(void* parser_data, const char* name,
                                 const char** atts) {
   Handler& handler = *static_cast<Handler*>(parser_data);
+  if (!handler.character_data.empty()) {
+    StoreCharacterData(handler);
+  }
   absl::string_view adm_element(name);
   if (adm_element == "audioProgramme") {
     // If the tag 'audioProgramme' is encountered while parsing the axml, create
@@ -933,7 +961,8 @@ absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml_data,
   handler.parser = XML_ParserCreate(nullptr);
   XML_SetUserData(handler.parser, &handler);
   handler.adm.file_type = file_type;
-  XML_SetStartElementHandler(handler.parser, XMLStartTagHandlerForExpat);
+  XML_SetElementHandler(handler.parser, XMLStartTagHandlerForExpat,
+                        XMLEndTagHandlerForExpat);
   XML_SetCharacterDataHandler(handler.parser, XMLCharacterDataHandlerForExpat);
   XML_SetEntityDeclHandler(handler.parser, EntityDeclHandlerForExpat);
 
-- 
2.43.0


From 59e01cff19dfca68a264b5fa2beaf762c5e0ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:14 +0000
Subject: [PATCH 47/49] fix: Report user metadata files that could not be
 written

---
 iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
index e2d69bf..2740830 100644
--- a/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
+++ b/iamf/cli/adm_to_user_metadata/iamf/user_metadata_generator.cc
@@ -77,6 +77,10 @@ absl::Status UserMetadataGenerator::WriteUserMetadataToFile(
   }
 
   output_file.close();
+  if (!output_file.good()) {
+    return absl::UnknownError(
+        absl::StrCat("Failed to write file_name= ", file_name.string()));
+  }
   ABSL_LOG(INFO) << file_name.string() << " generated successfully.";
 
   return absl::OkStatus();
-- 
2.43.0


From ef0532d5a46afbfd6d89861d9930bb7449a3b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:47 +0000
Subject: [PATCH 48/49] fix: Allow aborting a WAV writer that was flushed or
 aborted

---
 iamf/cli/wav_writer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index ef4c9d1..0f67d4d 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -231,7 +231,10 @@ absl::Status WavWriter::WritePcmSamples(absl::Span<const uint8_t> buffer) {
 }
 
 void WavWriter::Abort() {
-  std::fclose(file_);
+  // The file is already closed after `Flush()` or an earlier `Abort()`.
+  if (file_ != nullptr) {
+    std::fclose(file_);
+  }
   std::remove(filename_to_remove_.c_str());
   file_ = nullptr;
 }
-- 
2.43.0


From 76ca120476e7132ab18c590f735e27609c1f2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:47 +0000
Subject: [PATCH 49/49] fix: Leave neither file nor descriptor when a WAV
 header cannot be written

---
 iamf/cli/wav_writer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iamf/cli/wav_writer.cc b/iamf/cli/wav_writer.cc
index 0f67d4d..2198269 100644
--- a/iamf/cli/wav_writer.cc
+++ b/iamf/cli/wav_writer.cc
@@ -166,6 +166,8 @@ std::unique_ptr<WavWriter> WavWriter::Create(const std::string& wav_filename,
              kAudioToTactileResultFailure) {
     ABSL_LOG(ERROR) << "Error writing header of file \"" << wav_filename
                     << "\"";
+    std::fclose(file);
+    std::remove(wav_filename.c_str());
     return nullptr;
   }
 
-- 
2.43.0

