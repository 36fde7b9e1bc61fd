#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=("StrokeModeler::Update", "StrokeModeler::Predict")):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
SM = "ink_stroke_modeler/stroke_modeler.cc"
PM = "ink_stroke_modeler/internal/position_modeler.cc"
PMH = "ink_stroke_modeler/internal/position_modeler.h"
WS = "ink_stroke_modeler/internal/wobble_smoother.cc"
ST = "ink_stroke_modeler/internal/stylus_state_modeler.cc"
LC = "ink_stroke_modeler/internal/loop_contraction_mitigation_modeler.cc"
UT = "ink_stroke_modeler/internal/utils.cc"
UTH = "ink_stroke_modeler/internal/utils.h"
KP = "ink_stroke_modeler/internal/prediction/kalman_predictor.cc"
KF = "ink_stroke_modeler/internal/prediction/kalman_filter/kalman_filter.cc"
AX = "ink_stroke_modeler/internal/prediction/kalman_filter/axis_predictor.cc"
SE = "ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc"
PA = "ink_stroke_modeler/params.cc"
TY = "ink_stroke_modeler/types.cc"
TYH = "ink_stroke_modeler/types.h"

p("C01", "The input-stream protocol is enforced on every history",
  "An input is accepted exactly when the modeler has been configured, its event type is known, its position and time are finite, it is a Down with no stroke in progress or a Move/Up with one in progress, it is not identical to and not earlier than the previous input of the stroke, and it is close enough to be modeled within the output limit; every other input gets an error (failed-precondition before configuration, invalid-argument for bad, duplicate, backward or too distant inputs). An accepted input appends at least one result after whatever the caller's vector already holds, and only an accepted Up or a Reset ends a stroke. The first result of a stroke carries exactly the Down input's position, time, pressure, tilt and orientation, with zero velocity and acceleration.",
  ["histories", "inputs"], "all finite sequences of Reset/Update/Predict/Save/Restore calls, with valid, malformed, duplicated, backward and far inputs, and any prior content of the result vector",
  "Tests try a handful of fixed short sequences; the protocol must hold after every history, including ones with failed calls and restores in between (and stroke_modeler_test is not even part of the runnable suite here).",
  [SM, TY], [("order of the checks in Update", SM), ("input validation", TY), ("step count limit", PM)],
  [("last input", "present iff a stroke is in progress", SM)])

p("C02", "A rejected call leaves no trace",
  "A call that returns an error leaves the modeler in exactly the state it had: every later call returns the same statuses and bit-identical results as if the rejected call had never been made, and a saved state stays usable. The result vector passed to a rejected input is left unmodified, and the one passed to a rejected prediction is left empty. A configuration that is refused changes neither the parameters in force nor the stroke in progress.",
  ["histories", "fault_sequences"], "every kind of rejected call, inserted at every point of every call history",
  "Tests check the status of rejected calls, not the behaviour of what follows; the effect only shows in later results.",
  [SM, PM, PA], [("validation before mutation", SM)], (), ("StrokeModeler::Update", "StrokeModeler::Predict", "StrokeModeler::Reset"))

p("C03", "Results depend only on the parameters and the current stroke",
  "The results of every call are a deterministic function of the parameters in force and the inputs accepted since the stroke's Down: nothing carries over from earlier strokes, earlier parameters, abandoned strokes, other modeler instances or the number and timing of predictions. A modeler that has been used and reset behaves bit-identically to a new one, and one that is moved to another object carries on there unchanged. Results already returned are never changed by later calls.",
  ["histories", "configurations"], "all call histories before a stroke (including reconfiguration between all predictor kinds, abandoned strokes, saves and restores) and all strokes",
  "It compares two histories; a unit test fixes one. Residual state in any of six components would only show for particular histories.",
  [SM, WS, ST, LC, KP, SE], [("per-stroke reset of every component at Down", SM), ("predictor re-created on configuration", SM)],
  [("component states", "must all be re-initialised at Down", SM)])

p("C04", "Restore undoes exactly what happened since Save",
  "After a restore the modeler behaves bit-identically to how it behaved when the state was saved, including predictions and whether a stroke is in progress, however many inputs were accepted since and however often it is restored. Saving has no other observable effect, a newer save replaces an older one, and an Up that followed the save is undone too. Restoring has no effect if nothing was saved, if the modeler has been reset since the save, or if the state was saved during an earlier stroke and a new stroke has begun; a state saved while no stroke was in progress restores to no stroke.",
  ["histories"], "all interleavings of saves and restores with accepted and rejected inputs, predictions, Ups, new strokes and resets",
  "The saved state is spread over six components; only particular interleavings (save, Up, new Down, restore; two restores; save with another predictor) expose one that is missed.",
  [SM, WS, ST, LC, PMH, KP, SE], [("component-wise Save/Restore", SM), ("save validity flag", SM)],
  [("saved state", "copy of every component's state", SM)], ("StrokeModeler::Save", "StrokeModeler::Restore", "StrokeModeler::Update"))

p("C05", "Prediction is a pure query",
  "Predicting never changes what any later call returns, and repeating it gives bit-identical results. It replaces the content of the caller's vector. It fails (failed-precondition, empty result) exactly when the modeler is not configured, prediction is disabled, or no stroke is in progress, and succeeds otherwise, possibly with an empty prediction.",
  ["histories", "configurations"], "all points of all call histories, for every prediction strategy, any number of predictions in a row",
  "Tests do not compare the stroke that continues after a prediction with one that never predicted.",
  [SM, KP, SE], [("prediction works on copies", SM)], (), ("StrokeModeler::Predict",))

p("C06", "Result times: even upsampling at no less than the minimum rate",
  "The results of an accepted Move lie evenly spaced in the interval from the previous input's time (exclusive) to its own time (inclusive), one at a minimum when time has advanced, and exactly as many as needed for the spacing not to exceed one over the minimum output rate or for the estimated change of direction per step not to exceed the configured maximum angle, whichever needs more. The results of an Up begin the same way and continue with strictly increasing times, each at most one output period later. Result times never decrease within a stroke, and predicted results follow strictly after the last modeled one.",
  ["inputs", "configurations"], "all valid parameters and all strokes, including inputs at equal times, slow and fast input rates and sharp turns",
  "Depends on the relation between input rate, output rate, tip velocity and angle limit; tests sample a few fixed rates.",
  [PM, PMH, SM], [("step count between inputs", PM), ("linear path interpolation", PMH)])

p("C07", "The per-call output limit bounds every call",
  "No call to Update or Predict ever produces more results than the configured maximum number of outputs per call. An input that would need more than that many interpolated results is refused with an invalid-argument error, one that needs exactly that many is accepted, and end-of-stroke and predicted results are cut off at the limit rather than refused.",
  ["inputs", "configurations"], "all limits, all parameters and all inputs, including long pauses, time jumps, sharp turns and tiny limits",
  "Needs the combination of a small limit with Up, with either predictor, or with angle upsampling; tests only try one Move.",
  [PM, SM, SE, KP], [("step count limit", PM), ("limit on end-of-stroke iterations", SM), ("limit on predicted points", KP)])

p("C08", "The tip follows the spring-and-drag model of its anchor",
  "Each modeled result is obtained from the previous one by one step of the documented model: acceleration is the displacement from the anchor divided by the spring-mass constant minus the drag constant times the velocity, velocity changes by acceleration times the time step, and position by the new velocity times the time step. The anchor moves linearly from the previous smoothed input to the current one, reaching it at the last step, and an Up's anchor ends at its unsmoothed position. Without loop mitigation the reported position, velocity and acceleration are those of the tip.",
  ["inputs", "configurations"], "all parameters, all strokes of any length, sampling rate and shape, after any save/restore",
  "A numeric recurrence over unbounded strokes; the golden values in the tests pin a few strokes with one parameter set (and those tests are not part of the runnable suite here).",
  [PM, PMH, SM], [("spring update", PM), ("linear anchor path", PMH)], [("tip state", "position, velocity, acceleration, time", PMH)])

p("C09", "At Up the tip catches up with the last input and never overshoots",
  "After the interpolated results, an Up adds results that step the tip towards the Up's position with a step of one output period, retrying with half the step whenever a step would carry the tip past its closest approach to that position, so no added segment passes the point nearest to the anchor. It stops when a step moves less than the stopping distance (that step is not output), when the tip is within the stopping distance of the Up's position (that step is output), or when the iteration limit (or output limit) is used up. An Up that adds nothing still yields one result, the tip's current state.",
  ["inputs", "configurations"], "all tip states and velocities, stopping distances, iteration limits and anchor positions",
  "The loop has three exits and a retry whose interplay depends on velocity, damping and distance; tests sample few trajectories.",
  [PMH, SM], [("end-of-stroke loop with step halving", PMH)])

p("C10", "Wobble smoothing is the documented moving average",
  "When enabled, each Move's anchor position is the blend between the duration-weighted average of the raw positions of the inputs within the timeout before it and its own raw position, weighted by where the average speed over those same inputs lies between the speed floor (only the average) and the speed ceiling (only the raw position). Inputs exactly at the timeout still count, older ones do not, the Down position has no weight, and if no time is covered the raw position is used. When disabled, and for Down and Up, the raw position is used.",
  ["inputs", "configurations"], "all timeouts, speed ranges (including equal floor and ceiling), input rates, and strokes of any length",
  "A sliding window with running sums: errors need long strokes, windows that empty, equal timestamps or bounds that coincide.",
  [WS, UTH, SM], [("sliding window sums", WS), ("normalize and interpolate", UTH)], [("window", "samples within the timeout and their sums", WS)])

p("C11", "Stylus values are interpolated at the closest point of the recent input path",
  "With closest-point projection, each result's pressure, tilt and orientation are those of the closest point to its tip on the polyline through the most recent inputs (at most the configured number, positions as smoothed), the most recent segment winning ties, linearly interpolated between the segment's two inputs. Orientation is interpolated the short way around the circle and reported in [0, 2π). A stroke that has only one remembered input uses that input's values.",
  ["inputs", "configurations"], "all polylines (crossing, repeated points, zero-length segments), window sizes and stylus values including angles across the 0/2π seam",
  "Depends on geometry and on how many inputs are remembered when; tests use a few axis-aligned polylines.",
  [ST, UTH, UT], [("closest point projection", ST), ("angle interpolation", UTH)], [("remembered inputs", "window of recent inputs", ST)])

p("C12", "An unknown stylus value makes that field unknown for the rest of the stroke",
  "Once an accepted input of a stroke has a negative or NaN pressure, tilt or orientation, that field is reported as -1 in every later result and prediction of the stroke, including the results of that same input (the Down's own result echoes the Down's value). The three fields are tracked independently: the other two keep their interpolated, never negative, values. The next stroke starts with all fields known again.",
  ["inputs", "histories"], "all patterns of known, negative and NaN values over the inputs of a stroke, with rejected inputs, saves and restores in between",
  "Needs combinations of fields, positions in the stroke and undo; tests sample one pattern per field.",
  [ST, UT, SM], [("per-field unknown flags", ST)], [("unknown flags", "one per field, cleared at Down", ST)])

p("C13", "Stroke-normal projection picks the right raw point",
  "With stroke-normal projection, stylus values are taken where the line through the tip along the stroke's normal crosses the polyline of the recent inputs, the nearest crossing on each side being considered; when there are crossings on both sides the one on the outside of the turn (opposite the acceleration) is used, and with no crossing the nearer end of the polyline is used. If the tip has neither velocity nor acceleration the closest point is used. The polyline holds the fewest most recent inputs that number at least the configured minimum and span more than the configured duration, or all inputs of the stroke if there are too few.",
  ["inputs", "configurations"], "all polylines, velocities and accelerations (including zero and parallel ones), window parameters and strokes",
  "Case analysis over geometry (parallel, behind, both sides, none) that tests sample with a handful of hand-made polylines.",
  [ST, UT], [("projection along the normal", ST), ("stroke normal", UT), ("input window", ST)])

p("C14", "Loop mitigation blends tip and raw path by the moving average of speed",
  "With loop mitigation enabled, each result's position, velocity and acceleration are interpolated between the projected raw input and the modeled tip with the strength the configuration assigns to the current average speed: the strength at the lower bound for speeds at or below it, that at the upper bound at or above it, linear in between, and 1 (tip only) before any speed is known. The average is taken over the speeds of the fewest most recent results that number at least the configured minimum and span at least the configured window (all results of the stroke if there are too few). Predictions continue from, but do not change, this average, and when disabled results are the tip's.",
  ["inputs", "configurations"], "all bounds (including equal ones), strengths, window parameters, strokes and predictions",
  "Feedback loop from results to later results through a sliding window; tests drive the helper class with three samples.",
  [LC, SM, UT], [("speed window", LC), ("interpolation of results", UT)], [("speed samples", "window of recent result speeds", LC)])

p("C15", "Stroke-end prediction is what an Up would add",
  "With the stroke-end strategy, a prediction consists of exactly the results that end-of-stroke modeling would add from the current tip towards the last smoothed input position, with stylus values and mitigation applied as for ordinary results. Hence, without wobble smoothing, predicting after a Move gives the same results as an Up at the Move's place would have added after its interpolated ones. The prediction may be empty if the tip has already arrived.",
  ["inputs", "configurations"], "all strokes and parameters, at every point of a stroke",
  "Relates two executions (one ending with Move and prediction, one with Up).",
  [SE, PMH, SM], [("end-of-stroke loop on a copy of the tip", SE)])

p("C16", "Kalman prediction: stable, continuous and bounded by confidence",
  "With the Kalman strategy, nothing is predicted until the minimum number of inputs has been received since Down or when the inputs' timestamps do not allow an estimate; otherwise the prediction is a cubic curve leaving the last tip state with its position and velocity and arriving at the filter's estimate, sampled at the output rate, followed by the cubic extrapolation of that estimate (with the configured acceleration and jerk weights). The estimate is that of a constant-jerk Kalman filter per axis over the smoothed inputs, rescaled by the average spacing of the remembered timestamps. The extrapolation has the number of samples of the prediction interval scaled by the product of the four documented confidence factors, rounded up, so it never exceeds the interval by a full sample.",
  ["inputs", "configurations"], "all parameters and strokes, at every point of a stroke, after any save/restore",
  "A filter whose state depends on the whole stroke; tests check two short sequences and not the confidence product.",
  [KP, KF, AX], [("filter update", KF), ("connector and extrapolation", KP), ("confidence product", KP)], [("filter state", "estimate and covariance per axis", KF)])

p("C17", "Parameters are accepted exactly when they are valid",
  "A configuration is accepted exactly when every parameter that its enabled features use is finite and within its documented range, and otherwise refused with an invalid-argument error; parameters of disabled features do not matter. Loop mitigation requires stroke-normal projection. Every accepted configuration is usable: strokes of ordinary size modeled with it give no crash, hang or limit violation.",
  ["configurations"], "all combinations of parameter values, including NaN, infinities, zero, negative, boundary and extreme values",
  "Tests sample single bad values per field, not combinations or which fields are ignored when a feature is off.",
  [PA, "ink_stroke_modeler/internal/validation.h"], [("range checks", PA)], (), ("StrokeModeler::Reset", "ValidateStrokeModelParams"))

p("C18", "The modeler is agnostic to units and coordinate systems",
  "Scaling all positions together with all distance- and speed-valued parameters, or all times together with all time- and rate-valued parameters, scales the results accordingly and changes nothing else. Rotating the input by a quarter turn rotates the results, mirroring it mirrors them (with closest-point stylus projection), and shifting all positions or all times shifts the results. (The Kalman noise parameters stay as they are.)",
  ["inputs", "configurations"], "all strokes, parameters, prediction strategies and unit choices; exact for powers of two, within rounding otherwise",
  "A relation between two runs; any hard-coded threshold, epsilon or axis mix-up breaks it only at some scale or direction.",
  [SM, PM, WS, ST, LC, KP, UT, UTH], [("no absolute constants in the model", UT)])

p("C19", "Every call terminates cleanly on every input",
  "Every call with any configuration that was accepted and any input, however extreme (huge or tiny coordinates, times and parameters, NaN or infinite stylus values, equal timestamps), returns without crashing, hanging, undefined behaviour or unbounded memory. With inputs of ordinary magnitude all results are finite. Instances are independent of each other and can be destroyed at any point.",
  ["inputs", "histories", "configurations"], "all call histories with arbitrary bit patterns for numbers in inputs and accepted parameters",
  "Extreme values reach conversions, loops and divisions that ordinary tests never do; the fuzz test in the tree is not built.",
  [SM, PM, UTH, KP, ST, WS], [("validation and clamping before conversions", PM), ("bounded loops", PMH)])

p("C20", "Value types obey their arithmetic",
  "Vectors, durations and times form consistent arithmetic: component-wise vector operations with compound forms equal to simple ones, time differences and offsets as on the real line, and comparison operators that agree with each other and with the underlying numbers. Inputs and results are equal exactly when all their fields are equal. The magnitude is the Euclidean length. The absolute angle between vectors is the true angle, in [0, π], symmetric, zero when either vector is zero, and an error exactly when a component is not finite. Formatting shows every field.",
  ["inputs"], "all values of the public value types, including zeros, infinities and NaN",
  "Tests sample a few literals; types_test is not part of the runnable suite here.",
  [TYH, TY], [("operators", TYH)], (), ("types.h operators", "Vec2::AbsoluteAngleTo", "ToFormattedString"))

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
