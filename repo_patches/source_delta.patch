From 1901ef171273a4cda2272c7098cf78364b3c84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 01/10] fix: a rejected Move must not update the wobble
 smoother or stylus modeler

Update() returns an error when an input is too far from the previous one,
but it had already fed the rejected input to two of the sub-modelers, so the
results of later, accepted inputs depended on it.
---
 ink_stroke_modeler/stroke_modeler.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..440ff24 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,15 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  // This can fail, so it must come before any of the sub-modelers are updated.
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +302,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From 6a072f07aa104c559d06f47ac1c4dc3eb5a29cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 02/10] fix: Restore must not bring back a predictor saved
 under earlier params

Save() kept the predictor from an earlier Save() when prediction was
disabled, so Restore() re-enabled prediction with stale parameters and
state.
---
 ink_stroke_modeler/stroke_modeler.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 440ff24..e60ffd5 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -325,9 +325,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
@@ -339,9 +337,8 @@ void StrokeModeler::Restore() {
   stylus_state_modeler_.Restore();
   loop_contraction_mitigation_modeler_.Restore();
   last_input_ = saved_last_input_;
-  if (saved_predictor_ != nullptr) {
-    predictor_ = saved_predictor_->MakeCopy();
-  }
+  predictor_ =
+      saved_predictor_ != nullptr ? saved_predictor_->MakeCopy() : nullptr;
 }
 
 }  // namespace stroke_model
-- 
2.43.0


From 9182e71f0e17cf4e2baabdd6fc62294c7e28fff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 03/10] fix: Restore does nothing if Save was not called for
 the current stroke

A state saved during an earlier stroke stayed active after the next Down,
but the sub-modelers had already dropped their part of it, so Restore()
combined the previous stroke's last input with the current stroke's state.
---
 ink_stroke_modeler/stroke_modeler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e60ffd5..6896993 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -192,6 +192,9 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
         "Received down event while stroke is in-progress");
   }
 
+  // A state that was saved during an earlier stroke does not apply to this one.
+  if (saved_last_input_.has_value()) save_active_ = false;
+
   // Note that many of the sub-modelers require some knowledge about the stroke
   // (e.g. start position, input type) when resetting, and as such are reset
   // here instead of in Reset().
-- 
2.43.0


From ac5651689df457216066fc557281cf3c27afb83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 04/10] fix: normalizing an angle must terminate for every
 value

Input.orientation is not restricted to finite or small values, and for huge
or infinite ones the normalization loop never ended, hanging Update() and
Predict().
---
 ink_stroke_modeler/internal/utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..d879459 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,6 +67,9 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
+    // Huge angles can't be normalized by repeatedly adding or subtracting a
+    // turn, since a turn may be less than the precision of the angle.
+    angle = std::fmod(angle, 2 * kPi);
     while (angle < 0) angle += 2 * kPi;
     while (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
-- 
2.43.0


From d7c8ea94013dc5416f1bb3fe596259506f6a1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 05/10] fix: honor max_outputs_per_call for Up events and
 predictions

The limit was only applied to the upsampling between inputs: the outputs
added at the end of the stroke, and all predicted outputs, ignored it. The
Kalman predictor could also overflow the conversion to int.
---
 .../internal/prediction/kalman_predictor.cc   | 24 ++++++++++++-------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 .../prediction/stroke_end_predictor.cc        |  8 +++++--
 ink_stroke_modeler/stroke_modeler.cc          |  7 +++++-
 4 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..4303faa 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -117,11 +117,15 @@ void KalmanPredictor::ConstructPrediction(
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, sampling_params_.max_outputs_per_call,
+                          &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
   ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
+                           sample_dt,
+                           std::min(NumberOfPointsToPredict(*estimated_state),
+                                    sampling_params_.max_outputs_per_call -
+                                        static_cast<int>(prediction.size())),
                            &prediction);
 }
 
@@ -146,7 +150,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_samples,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -161,10 +165,13 @@ void KalmanPredictor::ConstructCubicConnector(
       std::max(max_velocity_at_ends, params.min_catchup_velocity)};
 
   // Determine how many samples this will give us, ensuring that there's always
-  // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  // at least one, and no more than the maximum. Then, pick a duration that's a
+  // multiple of the sample dt.
+  int n_points =
+      std::fmin(std::fmax(std::ceil(static_cast<float>(
+                              target_duration.Value() / sample_dt.Value())),
+                          1.f),
+                static_cast<double>(max_samples));
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -279,7 +286,8 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  return std::fmin(std::fmax(0.f, std::ceil(target_number * confidence)),
+                   static_cast<double>(sampling_params_.max_outputs_per_call));
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..cbd5df9 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_samples,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
diff --git a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
index aedde93..fc384e1 100644
--- a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
 
+#include <algorithm>
 #include <iterator>
 #include <optional>
 #include <vector>
@@ -37,12 +38,15 @@ void StrokeEndPredictor::ConstructPrediction(
     return;
   }
 
-  prediction.reserve(sampling_params_.end_of_stroke_max_iterations);
+  const int max_iterations =
+      std::min(sampling_params_.end_of_stroke_max_iterations,
+               sampling_params_.max_outputs_per_call);
+  prediction.reserve(max_iterations);
   PositionModeler modeler;
   modeler.Reset(last_state, position_modeler_params_);
   modeler.ModelEndOfStroke(*last_position_,
                            Duration(1. / sampling_params_.min_output_rate),
-                           sampling_params_.end_of_stroke_max_iterations,
+                           max_iterations,
                            sampling_params_.end_of_stroke_stopping_distance,
                            std::back_inserter(prediction));
 }
diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 6896993..7fa6e66 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/stroke_modeler.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
@@ -254,10 +255,14 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
       last_input_->corrected_position, last_input_->input.time, input.position,
       input.time, *n_steps, std::back_inserter(tip_state_buffer_));
 
+  // The outputs modeled so far count towards the limit for this call.
   position_modeler_.ModelEndOfStroke(
       input.position,
       Duration(1. / stroke_model_params_->sampling_params.min_output_rate),
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      std::min(
+          stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+          stroke_model_params_->sampling_params.max_outputs_per_call -
+              *n_steps),
       stroke_model_params_->sampling_params.end_of_stroke_stopping_distance,
       std::back_inserter(tip_state_buffer_));
 
-- 
2.43.0


From cf96edb359c6e48f29ab58bdf4aae548737cdef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 06/10] fix: reject NaN and infinite loop mitigation and
 linearity parameters

NaN passed every comparison in the validation of the loop contraction
mitigation parameters and of baseline_linearity_confidence, and then turned
the modeled results into NaN.
---
 ink_stroke_modeler/params.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..fb99bdf 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,6 +48,23 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_lower_bound,
+      "LoopContractionMitigationParameters::speed_lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_upper_bound,
+      "LoopContractionMitigationParameters::speed_upper_bound"));
+  RETURN_IF_ERROR(
+      ValidateIsFiniteNumber(params.interpolation_strength_at_speed_lower_bound,
+                             "LoopContractionMitigationParameters::"
+                             "interpolation_strength_at_speed_lower_bound"));
+  RETURN_IF_ERROR(
+      ValidateIsFiniteNumber(params.interpolation_strength_at_speed_upper_bound,
+                             "LoopContractionMitigationParameters::"
+                             "interpolation_strength_at_speed_upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.min_speed_sampling_window.Value(),
+      "LoopContractionMitigationParameters::min_speed_sampling_window"));
   if (params.speed_lower_bound > params.speed_upper_bound ||
       params.speed_lower_bound < 0) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -223,6 +240,10 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      confidence_params.baseline_linearity_confidence,
+      "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
+      "confidence"));
   if (confidence_params.baseline_linearity_confidence < 0 ||
       confidence_params.baseline_linearity_confidence > 1) {
     return absl::InvalidArgumentError(absl::Substitute(
-- 
2.43.0


From 2b825cf17e93bec1e681e04285817497f2a36645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 07/10] fix: an accepted Move always produces at least one
 Result

A Move with the same timestamp as the previous input was accepted but
generated no results; Up already handles this case.
---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 7fa6e66..0678d5e 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -317,6 +317,12 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
       corrected_position, input.time, *n_steps,
       std::back_inserter(tip_state_buffer_));
 
+  if (tip_state_buffer_.empty()) {
+    // If we haven't generated any new states, add the current state. This can
+    // happen if the input has the same timestamp as the previous one.
+    tip_state_buffer_.push_back(position_modeler_.CurrentState());
+  }
+
   if (predictor_ != nullptr) {
     predictor_->Update(corrected_position, input.time);
   }
-- 
2.43.0


From 4fe76992b003a94007d6324f48e069989236c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:41 +0000
Subject: [PATCH 08/10] fix: the Kalman predictor must not predict NaN when all
 timestamps match

Inputs may share a timestamp; when all of the sampled ones do, the average
time delta is zero and the prediction consisted of NaN and infinite values.
---
 .../internal/prediction/kalman_predictor.cc               | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 4303faa..646a45f 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -98,6 +98,14 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
   estimated_state.acceleration /= dt_squared;
   estimated_state.jerk /= dt_cubed;
 
+  // If the timestamps are (nearly) identical, then we can't make a meaningful
+  // estimate.
+  if (!estimated_state.velocity.IsFinite() ||
+      !estimated_state.acceleration.IsFinite() ||
+      !estimated_state.jerk.IsFinite()) {
+    return std::nullopt;
+  }
+
   // We want our predictions to tend more towards linearity -- to achieve this,
   // we reduce the acceleration and jerk.
   estimated_state.acceleration *= predictor_params_.acceleration_weight;
-- 
2.43.0


From 492c6f0e7a33d956f0a076851853ac409d046808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:44 +0000
Subject: [PATCH 09/10] fix: the loop mitigation speed average must cover the
 sampling window

The moving average is documented to use the smallest number of samples that
spans at least min_speed_sampling_window, but the oldest sample was dropped
as soon as the samples spanned more than the window, leaving a shorter span.
---
 .../internal/loop_contraction_mitigation_modeler.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc b/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc
index 7eb06db..0207e82 100644
--- a/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc
+++ b/ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc
@@ -37,11 +37,14 @@ float LoopContractionMitigationModeler::Update(Vec2 velocity, Time time) {
   // The moving average acts as a low-pass signal filter, removing
   // high-frequency fluctuations in the velocity.
   speed_samples_.push_back({.speed = velocity.Magnitude(), .time = time});
-  while (!speed_samples_.empty() &&
-         speed_samples_.back().time - speed_samples_.front().time >
-             params_.min_speed_sampling_window &&
-         static_cast<int>(speed_samples_.size()) >
-             params_.min_discrete_speed_samples) {
+  // Check the difference between the newest and second-oldest samples -- the
+  // oldest can only be dropped if the rest still cover the sampling window.
+  // Since `min_discrete_speed_samples` > 0, the first clause guarantees that we
+  // have at least two samples.
+  while (static_cast<int>(speed_samples_.size()) >
+             params_.min_discrete_speed_samples &&
+         speed_samples_.back().time - speed_samples_[1].time >=
+             params_.min_speed_sampling_window) {
     speed_samples_.pop_front();
   }
   return GetInterpolationValue();
-- 
2.43.0


From aac45af0df32394be421dee72821bc11b3d27258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:18 +0000
Subject: [PATCH 10/10] fix: compute the angle between vectors in double
 precision

AbsoluteAngleTo returned pi/2 for any two vectors whose magnitude overflows a
float, and wrong angles for subnormal ones.
---
 ink_stroke_modeler/types.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/types.cc b/ink_stroke_modeler/types.cc
index 645d6d7..ad43ad9 100644
--- a/ink_stroke_modeler/types.cc
+++ b/ink_stroke_modeler/types.cc
@@ -27,14 +27,15 @@ absl::StatusOr<float> Vec2::AbsoluteAngleTo(Vec2 other) const {
     return absl::InvalidArgumentError(
         absl::StrFormat("Non-finite inputs: this=%v; other=%v.", *this, other));
   }
-  float magnitude = Magnitude();
-  float other_magnitude = other.Magnitude();
+  // This is computed in double precision, because the magnitude of a finite
+  // vector might not be representable as a float.
+  double magnitude = std::hypot(double{x}, double{y});
+  double other_magnitude = std::hypot(double{other.x}, double{other.y});
   if (magnitude == 0 || other_magnitude == 0) return 0;
 
-  Vec2 unit_vec = *this / magnitude;
-  Vec2 other_unit_vec = other / other_magnitude;
-  float dot = DotProduct(unit_vec, other_unit_vec);
-  return std::acos(std::clamp(dot, -1.f, 1.f));
+  double dot = (x / magnitude) * (other.x / other_magnitude) +
+               (y / magnitude) * (other.y / other_magnitude);
+  return static_cast<float>(std::acos(std::clamp(dot, -1., 1.)));
 }
 
 std::string ToFormattedString(Vec2 vec) {
-- 
2.43.0

