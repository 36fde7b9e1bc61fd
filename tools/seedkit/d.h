// Helpers of the demonstrations.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <vector>

#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"
using namespace ink::stroke_model;

inline StrokeModelParams Cfg() {
  StrokeModelParams p;
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.04), .speed_floor = 1.31, .speed_ceiling = 1.44};
  p.position_modeler_params.spring_mass_constant = 11.f / 32400;
  p.position_modeler_params.drag_constant = 72.f;
  p.sampling_params = {.min_output_rate = 180, .end_of_stroke_stopping_distance = .001,
                       .end_of_stroke_max_iterations = 20, .max_outputs_per_call = 10000};
  p.stylus_state_modeler_params.max_input_samples = 20;
  p.prediction_params = StrokeEndPredictorParams();
  return p;
}
inline KalmanPredictorParams Kalman() {
  KalmanPredictorParams k;
  k.process_noise = .0026458;
  k.measurement_noise = .026458;
  k.min_stable_iteration = 4;
  k.max_time_samples = 20;
  k.min_catchup_velocity = .01;
  k.acceleration_weight = .5;
  k.jerk_weight = .1;
  k.prediction_interval = Duration(.02);
  k.confidence_params = {.desired_number_of_samples = 20, .max_estimation_distance = .04, .min_travel_speed = 3,
                         .max_travel_speed = 15, .max_linear_deviation = .2, .baseline_linearity_confidence = .4};
  return k;
}
constexpr auto D = Input::EventType::kDown, M = Input::EventType::kMove, U = Input::EventType::kUp;
inline Input In(Input::EventType e, float x, float y, double t, float pr = .5, float ti = .3, float o = 1) {
  Input i;
  i.event_type = e;
  i.position = {x, y};
  i.time = Time(t);
  i.pressure = pr;
  i.tilt = ti;
  i.orientation = o;
  return i;
}
inline void Fail(const char* what, int line) {
  std::printf("demo.cc:%d: broken: %s\n", line, what);
  std::exit(1);
}
#define EXPECT(c) do { if (!(c)) Fail(#c, __LINE__); } while (0)
inline std::vector<Result> Go(StrokeModeler& m, const Input& i) {
  std::vector<Result> r;
  if (!m.Update(i, r).ok()) Fail("input refused", 0);
  return r;
}
inline std::vector<Result> Pr(StrokeModeler& m) {
  std::vector<Result> r;
  if (!m.Predict(r).ok()) Fail("prediction refused", 0);
  return r;
}
inline void Init(StrokeModeler& m, const StrokeModelParams& p) {
  if (!m.Reset(p).ok()) Fail("parameters refused", 0);
}
inline bool Near(double a, double b, double eps = 1e-4) { return std::abs(a - b) <= eps * (1 + std::abs(a) + std::abs(b)); }
