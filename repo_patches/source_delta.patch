From 69db5d4f3c7669f0ee26f2b8644e93542492250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 01/12] fix: do not let a rejected move event change the model

A move event that was rejected for being too far from the previous input had
already been fed to the wobble smoother and the stylus state modeler.
---
 ink_stroke_modeler/stroke_modeler.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..e836317 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,16 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  // This must come before any of the sub-modelers are updated, so that they are
+  // not affected if the input is rejected.
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +303,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From c6f67c21b2805a174821f2ca7c0cd9f260cb87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:25 +0000
Subject: [PATCH 02/12] fix: do not restore a state saved during an earlier
 stroke

Restoring in a later stroke combined the last input and predictor of the earlier
stroke with the sub-modelers of the current one.
---
 ink_stroke_modeler/stroke_modeler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e836317..5c39970 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -192,6 +192,9 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
         "Received down event while stroke is in-progress");
   }
 
+  // A state that was saved during an earlier stroke does not apply to this one.
+  if (saved_last_input_.has_value()) save_active_ = false;
+
   // Note that many of the sub-modelers require some knowledge about the stroke
   // (e.g. start position, input type) when resetting, and as such are reset
   // here instead of in Reset().
-- 
2.43.0


From 57329b4a0056408becd809933e25bef96b4e8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:29 +0000
Subject: [PATCH 03/12] fix: do not restore a predictor saved under earlier
 parameters

With prediction disabled, Save() kept the copy of the predictor that was saved
before the last Reset(), and Restore() brought it back.
---
 ink_stroke_modeler/stroke_modeler.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 5c39970..0eedca0 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -329,9 +329,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
@@ -343,9 +341,8 @@ void StrokeModeler::Restore() {
   stylus_state_modeler_.Restore();
   loop_contraction_mitigation_modeler_.Restore();
   last_input_ = saved_last_input_;
-  if (saved_predictor_ != nullptr) {
-    predictor_ = saved_predictor_->MakeCopy();
-  }
+  predictor_ =
+      saved_predictor_ != nullptr ? saved_predictor_->MakeCopy() : nullptr;
 }
 
 }  // namespace stroke_model
-- 
2.43.0


From 7fe803a357aca5b3025968a9bebde339d7a6a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 04/12] fix: do not hang when interpolating huge or infinite
 orientations

---
 ink_stroke_modeler/internal/utils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..0ea9830 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,8 +67,9 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
-    while (angle < 0) angle += 2 * kPi;
-    while (angle > 2 * kPi) angle -= 2 * kPi;
+    angle = std::fmod(angle, 2 * kPi);
+    if (angle < 0) angle += 2 * kPi;
+    if (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
   };
 
-- 
2.43.0


From b22736097b46194ee3689428577aaa66b1c286d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:47 +0000
Subject: [PATCH 05/12] fix: reject NaN and infinity in all parameters that are
 in use

The loop contraction mitigation parameters and the Kalman predictor's
baseline_linearity_confidence were accepted when NaN.
---
 ink_stroke_modeler/params.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..5bdf957 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,6 +48,23 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_lower_bound,
+      "LoopContractionMitigationParameters::speed_lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_upper_bound,
+      "LoopContractionMitigationParameters::speed_upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_lower_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_upper_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.min_speed_sampling_window.Value(),
+      "LoopContractionMitigationParameters::min_speed_sampling_window"));
   if (params.speed_lower_bound > params.speed_upper_bound ||
       params.speed_lower_bound < 0) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -223,6 +240,10 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
+  RETURN_IF_ERROR(
+      ValidateIsFiniteNumber(confidence_params.baseline_linearity_confidence,
+                             "KalmanPredictorParams::ConfidenceParams::"
+                             "baseline_linearity_confidence"));
   if (confidence_params.baseline_linearity_confidence < 0 ||
       confidence_params.baseline_linearity_confidence > 1) {
     return absl::InvalidArgumentError(absl::Substitute(
-- 
2.43.0


From 28bdee54dc3e15ff9cfe6cc6e616caf36f39e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:50 +0000
Subject: [PATCH 06/12] fix: produce a result for a move with the same time as
 the previous input

Update promises at least one Result whenever it does not return an error.
---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 0eedca0..6c1235b 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -313,6 +313,12 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
       corrected_position, input.time, *n_steps,
       std::back_inserter(tip_state_buffer_));
 
+  if (tip_state_buffer_.empty()) {
+    // If we haven't generated any new states, add the current state. This can
+    // happen if the move has the same timestamp as the previous input.
+    tip_state_buffer_.push_back(position_modeler_.CurrentState());
+  }
+
   if (predictor_ != nullptr) {
     predictor_->Update(corrected_position, input.time);
   }
-- 
2.43.0


From c0d0f749136489355451df20986c7f8fbf250c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:08 +0000
Subject: [PATCH 07/12] fix: make interpolation by 1 yield exactly the end
 value

Without loop contraction mitigation, results are interpolated by 1 between the
projection to the raw input and the tip state. With nearly coincident inputs, the
velocity and acceleration of the raw input are huge, and those of the tip state
were lost to cancellation.
---
 ink_stroke_modeler/internal/utils.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index 0ea9830..999eece 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -47,6 +47,9 @@ inline float Normalize01(float start, float end, float value) {
 // value to the range [0, 1].
 template <typename ValueType>
 inline ValueType Interp(ValueType start, ValueType end, float interp_amount) {
+  // `start + (end - start)` is not always equal to `end`, and can be wildly
+  // different if `start` is much larger than `end`.
+  if (interp_amount >= 1) return end;
   return start + (end - start) * Clamp01(interp_amount);
 }
 
-- 
2.43.0


From 53d34350df6752fd6e4bdda2dd3159f447d62519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 08/12] fix: do not predict from inputs that all have the same
 timestamp

The average time between inputs is zero then, and the prediction was NaN.
---
 .../internal/prediction/kalman_predictor.cc               | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..fb6948b 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -103,6 +103,14 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
   estimated_state.acceleration *= predictor_params_.acceleration_weight;
   estimated_state.jerk *= predictor_params_.jerk_weight;
 
+  // If all of the inputs have (nearly) the same timestamp, there's no
+  // meaningful estimate of the velocity.
+  if (!estimated_state.velocity.IsFinite() ||
+      !estimated_state.acceleration.IsFinite() ||
+      !estimated_state.jerk.IsFinite()) {
+    return std::nullopt;
+  }
+
   return estimated_state;
 }
 
-- 
2.43.0


From 4def29fc3a8cafc6242177875bfe3f8726f13e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 09/12] fix: limit Kalman predictions to max_outputs_per_call

The number of predicted points was unbounded, and converting it to int was
undefined behavior when it exceeded the range of int.
---
 .../internal/prediction/kalman_predictor.cc   | 27 ++++++++++++-------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index fb6948b..ae34589 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -124,12 +124,16 @@ void KalmanPredictor::ConstructPrediction(
   }
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
+  const int max_outputs = sampling_params_.max_outputs_per_call;
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, max_outputs, &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
   ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
+                           sample_dt,
+                           std::min(NumberOfPointsToPredict(*estimated_state),
+                                    max_outputs -
+                                        static_cast<int>(prediction.size())),
                            &prediction);
 }
 
@@ -154,7 +158,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_outputs,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -170,9 +174,11 @@ void KalmanPredictor::ConstructCubicConnector(
 
   // Determine how many samples this will give us, ensuring that there's always
   // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  int n_points = std::fmin(
+      std::fmax(std::ceil(static_cast<float>(target_duration.Value() /
+                                             sample_dt.Value())),
+                1.f),
+      static_cast<double>(std::numeric_limits<int>::max()));
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -217,8 +223,10 @@ void KalmanPredictor::ConstructCubicConnector(
   Vec2 c = last_tip_state.velocity * float_duration;
   Vec2 d = last_tip_state.position;
 
-  output->reserve(output->size() + n_points);
-  for (int i = 1; i <= n_points; ++i) {
+  // If there are more samples than we're allowed to output, we stop short.
+  const int n_outputs = std::min(n_points, max_outputs);
+  output->reserve(output->size() + n_outputs);
+  for (int i = 1; i <= n_outputs; ++i) {
     float t = static_cast<float>(i) / n_points;
     float t_squared = t * t;
     float t_cubed = t_squared * t;
@@ -287,7 +295,8 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  return std::fmin(std::fmax(0.f, std::ceil(target_number * confidence)),
+                   static_cast<double>(std::numeric_limits<int>::max()));
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..f15f55c 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_outputs,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
-- 
2.43.0


From a000aab9421092859e16cbaca92f26609e4294ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 10/12] fix: count end-of-stroke results towards
 max_outputs_per_call

Update and Predict could return up to end_of_stroke_max_iterations more results
than the documented maximum.
---
 .../internal/prediction/stroke_end_predictor.cc       |  8 ++++++--
 ink_stroke_modeler/stroke_modeler.cc                  | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
index aedde93..fc384e1 100644
--- a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
 
+#include <algorithm>
 #include <iterator>
 #include <optional>
 #include <vector>
@@ -37,12 +38,15 @@ void StrokeEndPredictor::ConstructPrediction(
     return;
   }
 
-  prediction.reserve(sampling_params_.end_of_stroke_max_iterations);
+  const int max_iterations =
+      std::min(sampling_params_.end_of_stroke_max_iterations,
+               sampling_params_.max_outputs_per_call);
+  prediction.reserve(max_iterations);
   PositionModeler modeler;
   modeler.Reset(last_state, position_modeler_params_);
   modeler.ModelEndOfStroke(*last_position_,
                            Duration(1. / sampling_params_.min_output_rate),
-                           sampling_params_.end_of_stroke_max_iterations,
+                           max_iterations,
                            sampling_params_.end_of_stroke_stopping_distance,
                            std::back_inserter(prediction));
 }
diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 6c1235b..a7f9505 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/stroke_modeler.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
@@ -246,10 +247,12 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   if (!n_steps.ok()) {
     return n_steps.status();
   }
+  const int end_of_stroke_max_iterations = std::min(
+      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      stroke_model_params_->sampling_params.max_outputs_per_call - *n_steps);
   tip_state_buffer_.clear();
-  tip_state_buffer_.reserve(
-      static_cast<size_t>(*n_steps) +
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations);
+  tip_state_buffer_.reserve(static_cast<size_t>(*n_steps) +
+                            end_of_stroke_max_iterations);
   position_modeler_.UpdateAlongLinearPath(
       last_input_->corrected_position, last_input_->input.time, input.position,
       input.time, *n_steps, std::back_inserter(tip_state_buffer_));
@@ -257,7 +260,7 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   position_modeler_.ModelEndOfStroke(
       input.position,
       Duration(1. / stroke_model_params_->sampling_params.min_output_rate),
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      end_of_stroke_max_iterations,
       stroke_model_params_->sampling_params.end_of_stroke_stopping_distance,
       std::back_inserter(tip_state_buffer_));
 
-- 
2.43.0


From 0414abc177d996d2354ec3a5e81b54d3730a0d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 11/12] fix: do not predict past prediction_interval

The number of predicted points was rounded up even at full confidence, so the
prediction could exceed the documented maximum duration by most of a sample.
---
 ink_stroke_modeler/internal/prediction/kalman_predictor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index ae34589..db741d4 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -295,7 +295,10 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmin(std::fmax(0.f, std::ceil(target_number * confidence)),
+  // Rounding up must not extend the prediction past `prediction_interval`.
+  float number_of_points = std::fmin(std::ceil(target_number * confidence),
+                                     std::floor(target_number));
+  return std::fmin(std::fmax(0.f, number_of_points),
                    static_cast<double>(std::numeric_limits<int>::max()));
 }
 
-- 
2.43.0


From c02dc050c9d46bcd96ee9e7e31df71b686b67e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 12/12] fix: do not accumulate rounding errors in the wobble
 smoother

The running sums kept the rounding errors of samples that had long left the
window: after a pause the error could be as large as the durations and
distances that remained, giving a wrong (even negative) average.
---
 ink_stroke_modeler/internal/wobble_smoother.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/internal/wobble_smoother.cc b/ink_stroke_modeler/internal/wobble_smoother.cc
index 53fcc2d..4d8c2f0 100644
--- a/ink_stroke_modeler/internal/wobble_smoother.cc
+++ b/ink_stroke_modeler/internal/wobble_smoother.cc
@@ -49,15 +49,20 @@ Vec2 WobbleSmoother::Update(Vec2 position, Time time) {
        .distance = Distance(position, state_.samples.back().position),
        .duration = delta_time,
        .time = time});
-  state_.weighted_position_sum += state_.samples.back().weighted_position;
-  state_.distance_sum += state_.samples.back().distance;
-  state_.duration_sum += state_.samples.back().duration.Value();
   while (state_.samples.front().time < time - params_.timeout) {
-    state_.weighted_position_sum -= state_.samples.front().weighted_position;
-    state_.distance_sum -= state_.samples.front().distance;
-    state_.duration_sum -= state_.samples.front().duration.Value();
     state_.samples.pop_front();
   }
+  // We sum over the whole window, instead of adding the new sample and
+  // subtracting the dropped ones, so that the rounding errors of samples that
+  // are no longer in the window don't accumulate.
+  state_.weighted_position_sum = Vec2{0, 0};
+  state_.distance_sum = 0;
+  state_.duration_sum = 0;
+  for (const Sample &sample : state_.samples) {
+    state_.weighted_position_sum += sample.weighted_position;
+    state_.distance_sum += sample.distance;
+    state_.duration_sum += sample.duration.Value();
+  }
 
   if (state_.duration_sum == 0) {
     return position;
-- 
2.43.0

