// Shared by the harness programs: parsing of scenario files, JSON logging.
// Uses only the public API of ink-stroke-modeler.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"

namespace vf {
using namespace ink::stroke_model;

inline std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> out;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r')) ++i;
    size_t j = i;
    while (j < s.size() && s[j] != ' ' && s[j] != '\n' && s[j] != '\r') ++j;
    if (j > i) out.push_back(s.substr(i, j - i));
    i = j;
  }
  return out;
}
inline double D(const std::string& s) { return std::strtod(s.c_str(), nullptr); }
inline float F(const std::string& s) { return std::strtof(s.c_str(), nullptr); }
inline int I(const std::string& s) { return std::atoi(s.c_str()); }

inline StrokeModelParams ParseParams(const std::vector<std::string>& tok, size_t from) {
  StrokeModelParams p;
  std::map<std::string, std::string> m;
  for (size_t i = from; i < tok.size(); ++i) {
    size_t e = tok[i].find('=');
    m[tok[i].substr(0, e)] = tok[i].substr(e + 1);
  }
  auto has = [&](const char* k) { return m.count(k) > 0; };
  auto& w = p.wobble_smoother_params;
  w.is_enabled = I(m["wob.on"]) != 0;
  if (has("wob.timeout")) w.timeout = Duration(D(m["wob.timeout"]));
  if (has("wob.floor")) w.speed_floor = F(m["wob.floor"]);
  if (has("wob.ceil")) w.speed_ceiling = F(m["wob.ceil"]);
  auto& q = p.position_modeler_params;
  if (has("M")) q.spring_mass_constant = F(m["M"]);
  if (has("K")) q.drag_constant = F(m["K"]);
  auto& l = q.loop_contraction_mitigation_params;
  l.is_enabled = I(m["loop.on"]) != 0;
  if (has("loop.lo")) l.speed_lower_bound = F(m["loop.lo"]);
  if (has("loop.hi")) l.speed_upper_bound = F(m["loop.hi"]);
  if (has("loop.slo")) l.interpolation_strength_at_speed_lower_bound = F(m["loop.slo"]);
  if (has("loop.shi")) l.interpolation_strength_at_speed_upper_bound = F(m["loop.shi"]);
  if (has("loop.win")) l.min_speed_sampling_window = Duration(D(m["loop.win"]));
  if (has("loop.n")) l.min_discrete_speed_samples = I(m["loop.n"]);
  auto& s = p.sampling_params;
  if (has("rate")) s.min_output_rate = D(m["rate"]);
  if (has("stop")) s.end_of_stroke_stopping_distance = F(m["stop"]);
  if (has("iters")) s.end_of_stroke_max_iterations = I(m["iters"]);
  if (has("maxout")) s.max_outputs_per_call = I(m["maxout"]);
  if (has("angle")) s.max_estimated_angle_to_traverse_per_input = D(m["angle"]);
  auto& y = p.stylus_state_modeler_params;
  y.use_stroke_normal_projection = I(m["sty.proj"]) != 0;
  if (has("sty.max")) y.max_input_samples = I(m["sty.max"]);
  if (has("sty.min")) y.min_input_samples = I(m["sty.min"]);
  if (has("sty.dur")) y.min_sample_duration = Duration(D(m["sty.dur"]));
  const std::string kind = m["pred"];
  if (kind == "kal") {
    KalmanPredictorParams k;
    if (has("k.pn")) k.process_noise = D(m["k.pn"]);
    if (has("k.mn")) k.measurement_noise = D(m["k.mn"]);
    if (has("k.stable")) k.min_stable_iteration = I(m["k.stable"]);
    if (has("k.times")) k.max_time_samples = I(m["k.times"]);
    if (has("k.vel")) k.min_catchup_velocity = F(m["k.vel"]);
    if (has("k.aw")) k.acceleration_weight = F(m["k.aw"]);
    if (has("k.jw")) k.jerk_weight = F(m["k.jw"]);
    if (has("k.int")) k.prediction_interval = Duration(D(m["k.int"]));
    auto& c = k.confidence_params;
    if (has("k.des")) c.desired_number_of_samples = I(m["k.des"]);
    if (has("k.dist")) c.max_estimation_distance = F(m["k.dist"]);
    if (has("k.vmin")) c.min_travel_speed = F(m["k.vmin"]);
    if (has("k.vmax")) c.max_travel_speed = F(m["k.vmax"]);
    if (has("k.dev")) c.max_linear_deviation = F(m["k.dev"]);
    if (has("k.base")) c.baseline_linearity_confidence = F(m["k.base"]);
    p.prediction_params = k;
  } else if (kind == "off") {
    p.prediction_params = DisabledPredictorParams{};
  } else {
    p.prediction_params = StrokeEndPredictorParams{};
  }
  return p;
}

// e x y t pressure tilt orientation
inline Input ParseInput(const std::vector<std::string>& tok, size_t from) {
  Input in;
  const std::string& e = tok[from];
  in.event_type = e == "D"   ? Input::EventType::kDown
                  : e == "M" ? Input::EventType::kMove
                  : e == "U" ? Input::EventType::kUp
                             : static_cast<Input::EventType>(I(e));
  in.position = {F(tok[from + 1]), F(tok[from + 2])};
  in.time = Time(D(tok[from + 3]));
  in.pressure = F(tok[from + 4]);
  in.tilt = F(tok[from + 5]);
  in.orientation = F(tok[from + 6]);
  return in;
}

inline const char* Status(const absl::Status& s) {
  switch (s.code()) {
    case absl::StatusCode::kOk: return "ok";
    case absl::StatusCode::kFailedPrecondition: return "fp";
    case absl::StatusCode::kInvalidArgument: return "ia";
    default: return "other";
  }
}

// ---- JSON ----
struct Json {
  std::string s;
  void Num(double v) {
    if (std::isnan(v)) v = std::nan("");
    uint64_t b;
    std::memcpy(&b, &v, 8);
    if (std::isnan(v)) b = 0x7ff8000000000000ull;
    char buf[64];
    std::snprintf(buf, sizeof buf, "[%d,%d]", static_cast<int32_t>(b >> 32),
                  static_cast<int32_t>(b & 0xffffffffu));
    s += buf;
  }
  void KNum(const char* k, double v) { Key(k); Num(v); }
  void KInt(const char* k, long v) { Key(k); s += std::to_string(v); }
  void KBool(const char* k, bool v) { Key(k); s += v ? "true" : "false"; }
  void KStr(const char* k, const std::string& v) { Key(k); s += "\"" + v + "\""; }
  void Key(const char* k) {
    if (s.back() != '{' && s.back() != '[') s += ",";
    s += "\"";
    s += k;
    s += "\":";
  }
  void V2(const char* k, Vec2 v) { Key(k); s += "["; Num(v.x); s += ","; Num(v.y); s += "]"; }
  void Open() { s += "{"; }
  void Close() { s += "}"; }
};

inline void LogInput(Json& j, const Input& in) {
  j.Key("i");
  j.Open();
  j.KStr("e", in.event_type == Input::EventType::kDown   ? "D"
              : in.event_type == Input::EventType::kMove ? "M"
              : in.event_type == Input::EventType::kUp   ? "U"
                                                         : "X");
  j.V2("p", in.position);
  j.KNum("t", in.time.Value());
  j.KNum("pr", in.pressure);
  j.KNum("ti", in.tilt);
  j.KNum("or", in.orientation);
  j.Close();
}
inline void LogResults(Json& j, const std::vector<Result>& r, size_t from) {
  static const size_t kMaxLogged = std::getenv("VF_MAXLOG") ? std::atoi(std::getenv("VF_MAXLOG")) : 2000;
  j.KInt("k", r.size() - from);  // how many there were; only so many are written out
  j.Key("r");
  j.s += "[";
  for (size_t i = from; i < r.size() && i < from + kMaxLogged; ++i) {
    if (i > from) j.s += ",";
    j.Open();
    j.V2("p", r[i].position);
    j.V2("v", r[i].velocity);
    j.V2("a", r[i].acceleration);
    j.KNum("t", r[i].time.Value());
    j.KNum("pr", r[i].pressure);
    j.KNum("ti", r[i].tilt);
    j.KNum("or", r[i].orientation);
    j.Close();
  }
  j.s += "]";
}
inline void LogParams(Json& j, const StrokeModelParams& p) {
  j.Key("c");
  j.Open();
  j.Key("wob"); j.Open();
  j.KBool("on", p.wobble_smoother_params.is_enabled);
  j.KNum("timeout", p.wobble_smoother_params.timeout.Value());
  j.KNum("floor", p.wobble_smoother_params.speed_floor);
  j.KNum("ceil", p.wobble_smoother_params.speed_ceiling);
  j.Close();
  const auto& q = p.position_modeler_params;
  j.KNum("M", q.spring_mass_constant);
  j.KNum("K", q.drag_constant);
  const auto& l = q.loop_contraction_mitigation_params;
  j.Key("loop"); j.Open();
  j.KBool("on", l.is_enabled);
  j.KNum("lo", l.speed_lower_bound);
  j.KNum("hi", l.speed_upper_bound);
  j.KNum("slo", l.interpolation_strength_at_speed_lower_bound);
  j.KNum("shi", l.interpolation_strength_at_speed_upper_bound);
  j.KNum("win", l.min_speed_sampling_window.Value());
  j.KInt("n", l.min_discrete_speed_samples);
  j.Close();
  const auto& s = p.sampling_params;
  j.KNum("rate", s.min_output_rate);
  j.KNum("stop", s.end_of_stroke_stopping_distance);
  j.KInt("iters", s.end_of_stroke_max_iterations);
  j.KInt("maxout", s.max_outputs_per_call);
  j.KNum("angle", s.max_estimated_angle_to_traverse_per_input);
  const auto& y = p.stylus_state_modeler_params;
  j.Key("sty"); j.Open();
  j.KBool("proj", y.use_stroke_normal_projection);
  j.KInt("max", y.max_input_samples);
  j.KInt("min", y.min_input_samples);
  j.KNum("dur", y.min_sample_duration.Value());
  j.Close();
  j.Key("pred"); j.Open();
  if (const auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    j.KStr("kind", "kal");
    j.KNum("pn", k->process_noise);
    j.KNum("mn", k->measurement_noise);
    j.KInt("stable", k->min_stable_iteration);
    j.KInt("times", k->max_time_samples);
    j.KNum("vel", k->min_catchup_velocity);
    j.KNum("aw", k->acceleration_weight);
    j.KNum("jw", k->jerk_weight);
    j.KNum("int", k->prediction_interval.Value());
    const auto& c = k->confidence_params;
    j.KInt("des", c.desired_number_of_samples);
    j.KNum("dist", c.max_estimation_distance);
    j.KNum("vmin", c.min_travel_speed);
    j.KNum("vmax", c.max_travel_speed);
    j.KNum("dev", c.max_linear_deviation);
    j.KNum("base", c.baseline_linearity_confidence);
  } else if (std::holds_alternative<DisabledPredictorParams>(p.prediction_params)) {
    j.KStr("kind", "off");
  } else {
    j.KStr("kind", "end");
  }
  j.Close();
  j.Close();
}

// Bit equality, all NaNs being the same.
inline bool SameF(float a, float b) {
  return std::memcmp(&a, &b, 4) == 0 || (std::isnan(a) && std::isnan(b));
}
inline bool SameD(double a, double b) {
  return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b));
}
inline bool SameResult(const Result& a, const Result& b) {
  return SameF(a.position.x, b.position.x) && SameF(a.position.y, b.position.y) &&
         SameF(a.velocity.x, b.velocity.x) && SameF(a.velocity.y, b.velocity.y) &&
         SameF(a.acceleration.x, b.acceleration.x) &&
         SameF(a.acceleration.y, b.acceleration.y) &&
         SameD(a.time.Value(), b.time.Value()) && SameF(a.pressure, b.pressure) &&
         SameF(a.tilt, b.tilt) && SameF(a.orientation, b.orientation);
}

}  // namespace vf
#endif
