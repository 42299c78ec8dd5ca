#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
I = "ink_stroke_modeler/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I + f for f in files],
            state=[dict(name=a, meaning=b, where=I + c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=I + b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

SM = "stroke_modeler.cc"
ALL = ["stroke_modeler.cc", "stroke_modeler.h"]
prop("C01", "No crash, undefined behaviour, hang or runaway allocation, ever",
 "With any parameters that Reset accepts and any sequence of calls carrying any field values (huge, denormal, infinite, NaN, coincident or far-apart times), every call returns promptly with a status: no crash, no undefined behaviour, no read of uninitialised or freed memory, no endless loop. In particular absurd stylus angles, absurd time gaps and absurd coordinates are either processed or rejected with an error, and one call never produces more output than its configured limit allows.",
 ["inputs", "histories", "configurations"],
 "every call sequence over Reset/Update/Predict/Save/Restore with every bit pattern in Input fields and every accepted StrokeModelParams (max_outputs_per_call up to 100000)",
 "Unit tests use a dozen well-behaved strokes; the repository's own fuzz test is not built in the default configuration, and no test runs under a sanitizer.",
 ALL + ["internal/utils.h", "internal/position_modeler.cc", "internal/stylus_state_modeler.cc", "internal/wobble_smoother.cc", "internal/prediction/kalman_predictor.cc"],
 [("input and parameter validation", "types.cc ValidateInput; params.cc"), ("step-count limit", "internal/position_modeler.cc NumberOfStepsBetweenInputs"), ("angle normalisation", "internal/utils.h InterpAngle")],
 ["return of every public call", "sanitizer reports", "process exit", "CPU time per case"])

prop("C02", "The stream protocol accepts exactly the well-formed input streams",
 "Update succeeds exactly when the modeler has been initialised, the input's event type, position and time are valid, it continues a well-formed stream (Down only between strokes; Move and Up only during one; time not before the previous input of the stroke; not an exact repeat of the previous input), and it is not too far from the previous input to be upsampled within the configured limit. Predict succeeds exactly when prediction is enabled and a stroke is in progress; Reset without parameters succeeds exactly when parameters were accepted before. Misuse of the call order is reported as FAILED_PRECONDITION and bad input data as INVALID_ARGUMENT.",
 ["histories", "inputs"],
 "every interleaving of Reset(params), Reset(), Update, Predict, Save and Restore with well-formed and malformed inputs",
 "Tests check each rejection once, from one state, and none after Save/Restore, a failed Reset, or a second stroke.",
 ALL + ["types.cc"],
 [("protocol checks", "stroke_modeler.cc StrokeModeler::Update / Process*Event"), ("input validation", "types.cc ValidateInput")],
 ["absl::Status of each call"],
 [("last_input_", "the previous input of the stroke, absent between strokes", "stroke_modeler.h")])

prop("C03", "A rejected call leaves no trace",
 "A call to Update, Predict or Reset that returns an error changes nothing about the modeler: every later call returns exactly what it would have returned had the rejected call never been made. A rejected Update leaves the caller's result vector untouched, and a rejected Reset keeps the previous parameters, stroke and saved state.",
 ["histories", "inputs"],
 "every history with rejected calls of every kind (malformed, duplicate, backwards, wrong order, non-finite, too far apart, invalid parameters) inserted anywhere",
 "Tests check the returned status and then stop, or look only at the next status; none compares the remaining stroke with an undisturbed one.",
 ALL, [("validate before mutate", "stroke_modeler.cc Update, ProcessMoveEvent, ProcessUpEvent, Reset")],
 ["results and statuses of all later calls, compared bit for bit with a twin"])

prop("C04", "Predict is a pure query",
 "Calling Predict any number of times, at any point, changes no later result of Update, Predict, Save or Restore, and repeated Predict calls with no Update between them return identical predictions. The prediction depends only on the modeler's state, not on what the caller's vector held.",
 ["histories", "configurations"],
 "every history, predictor, and placement of Predict calls (including inside saved/restored regions and with loop mitigation on)",
 "Tests call Predict in a fixed rhythm; none compares a stroke with predictions to the same stroke without.",
 ALL + ["internal/prediction/kalman_predictor.cc", "internal/prediction/stroke_end_predictor.cc"],
 [("const Predict on a copy of the mutable sub-modeler", "stroke_modeler.cc StrokeModeler::Predict")],
 ["results of all calls, compared bit for bit with a twin that makes no or other Predict calls"],
 [("tip_state_buffer_", "scratch buffer shared by Update and Predict", "stroke_modeler.h")])

prop("C05", "Save and Restore undo exactly",
 "Restore brings the modeler back to the state it had at the last Save of the same stroke: every later Update and Predict returns exactly what it would have returned had the updates in between never happened, however many and of whatever kind they were (including the Up that ends the stroke), and however often Restore is repeated. Save itself changes nothing, and Restore does nothing if no Save was made since the last Reset or during the current stroke.",
 ["histories", "configurations"],
 "every history of Save, Restore, Update, Predict and Reset, with every predictor and every sub-modeler enabled",
 "Tests cover one or two save points with one parameter set, a single predictor, and short strokes.",
 ALL + ["internal/wobble_smoother.cc", "internal/position_modeler.h", "internal/stylus_state_modeler.cc", "internal/loop_contraction_mitigation_modeler.cc", "internal/prediction/input_predictor.h"],
 [("per-sub-modeler saved state", "stroke_modeler.cc Save/Restore"), ("predictor copy", "internal/prediction/kalman_predictor.h MakeCopy")],
 ["results of later calls, compared bit for bit with a twin that never took the discarded branch"],
 [("save_active_", "whether a saved state belongs to this stroke", "stroke_modeler.h"), ("saved_predictor_", "copy of the predictor", "stroke_modeler.h")])

prop("C06", "Every stroke starts from a clean slate",
 "After Reset, or after an Up followed by a new Down, the modeler behaves exactly like a newly constructed one given the same parameters: nothing of earlier strokes, saves, predictions, rejected calls or earlier parameters influences any later result. Reset also discards an unfinished stroke.",
 ["histories", "configurations"],
 "every history before the Reset or new Down, and every stroke after it",
 "Tests reset between two hand-written strokes; none compares a used modeler with a fresh one.",
 ALL + ["internal/wobble_smoother.cc", "internal/stylus_state_modeler.cc", "internal/loop_contraction_mitigation_modeler.cc", "internal/prediction/kalman_predictor.cc"],
 [("sub-modelers reset on Down", "stroke_modeler.cc ProcessDownEvent"), ("ResetInternal", "stroke_modeler.cc")],
 ["results and statuses after the reset, compared bit for bit with a fresh modeler"])

prop("C07", "Results are deterministic and modelers are independent",
 "The results of a modeler are a function of the calls made to it: replaying the same calls gives bit-identical results, whatever memory it lives in, and whether or not other modelers are used in between or concurrently on other threads. Distinct modelers share no mutable state (no data race), and a modeler that was moved mid-stroke continues as if it had not been. What the caller does with its own copies of parameters and inputs after a call has no effect.",
 ["schedules", "histories"],
 "every interleaving of calls to different modelers on one or several threads, every memory placement",
 "All tests use one modeler on one thread.",
 ALL + ["internal/stylus_state_modeler.cc", "internal/wobble_smoother.cc"],
 [("no globals or statics; all state in members with initialisers", "stroke_modeler.h")],
 ["results per modeler compared bit for bit with an isolated replay", "ThreadSanitizer reports"])

prop("C08", "Update appends at least one result; Predict replaces",
 "A successful Update appends at least one result to the caller's vector, whatever it held before, and alters none of the results already there; what is appended does not depend on the vector's contents. A failed Update leaves the vector as it was. Predict always discards the vector's old contents and leaves it holding only the prediction, empty when the call fails.",
 ["inputs", "histories"],
 "every input accepted in every state, including coincident timestamps, and every prior content of the result vector",
 "Tests mostly pass an empty vector and look at strokes with distinct timestamps.",
 ALL, [("append without examining", "stroke_modeler.cc ModelStylus"), ("fallback when no state was produced", "stroke_modeler.cc ProcessUpEvent")],
 ["result vector before and after each call"])

prop("C09", "Result times follow the input timeline without gaps",
 "A stroke's first result carries the Down event's exact position, time and stylus values, with zero velocity and acceleration. After that, result times never decrease, results modelled for an input are evenly spaced after the previous input's time and end exactly at the input's own time, and consecutive results are never further apart than one period of the minimum output rate. Results after the time of the Up event continue from it in steps of at most one such period, and predicted results continue in the same way from the last result.",
 ["inputs", "histories", "configurations"],
 "every accepted stroke, sampling parameters and input timing (slower or faster than the output rate, irregular, coincident, large time offsets)",
 "Tests check the times of a few strokes at 60-180 Hz against golden values.",
 ALL + ["internal/position_modeler.h", "internal/position_modeler.cc"],
 [("time interpolation", "internal/position_modeler.h UpdateAlongLinearPath"), ("end-of-stroke steps", "internal/position_modeler.h ModelEndOfStroke")],
 ["Result::time of all results of a stroke"])

prop("C10", "Upsampling yields the required number of results, within the limit",
 "For each Move the number of results is the smallest that keeps both the output rate at or above the minimum and the estimated turning angle per result at or below the configured maximum (when one is set), and it is one when neither asks for more; the same number precedes the end-of-stroke results of an Up. An input that would need more than the maximum outputs per call is rejected, and no call to Update or Predict ever returns more results than that maximum.",
 ["inputs", "histories", "configurations"],
 "every accepted input in every tip state, every sampling configuration including tiny output limits",
 "Tests check a handful of step counts with fixed tip states.",
 ["internal/position_modeler.cc", "stroke_modeler.cc", "internal/prediction/kalman_predictor.cc"],
 [("step count", "internal/position_modeler.cc NumberOfStepsBetweenInputs"), ("prediction length", "internal/prediction/kalman_predictor.cc ConstructPrediction")],
 ["number of results per call; rejections"])

prop("C11", "The tip moves as a damped mass on a spring pulled by the input",
 "Without loop mitigation, each result follows from the previous one by the documented law: acceleration is (anchor - position) / spring_mass_constant minus drag_constant times velocity, velocity changes by acceleration times the elapsed time, and position by the new velocity times the elapsed time. The anchor moves linearly in equal steps from the previous (smoothed) input position to the new one, reaching it at the input's time, and goes to the unsmoothed position for an Up.",
 ["inputs", "histories", "configurations"],
 "every accepted stroke and every stable spring, drag and sampling configuration",
 "Tests compare a few strokes to golden values with one parameter set.",
 ["internal/position_modeler.cc", "internal/position_modeler.h", "stroke_modeler.cc"],
 [("integration step", "internal/position_modeler.cc PositionModeler::Update"), ("anchor path", "internal/position_modeler.h UpdateAlongLinearPath")],
 ["position, velocity, acceleration and time of consecutive results"])

prop("C12", "Wobble smoothing averages slow input and leaves fast input alone",
 "With smoothing on, the position that each Move pulls the tip towards lies between the duration-weighted average of the raw positions in the timeout window and the raw position itself, weighted by where the window's average speed lies between the speed floor (average only) and the speed ceiling (raw position only). With smoothing off, and for Down and Up events, it is the raw position. This holds throughout the stroke, with no drift accumulated from inputs that have left the window.",
 ["inputs", "histories", "configurations"],
 "every raw input sequence, window length, speed range (including floor equal to ceiling) and timing, including long pauses and coincident inputs",
 "Tests run three short sequences with one parameter set.",
 ["internal/wobble_smoother.cc", "internal/wobble_smoother.h", "stroke_modeler.cc"],
 [("moving averages", "internal/wobble_smoother.cc WobbleSmoother::Update")],
 ["anchor position recovered from acceleration, velocity and position of consecutive results"],
 [("samples / weighted_position_sum", "window contents and running sums", "internal/wobble_smoother.h")])

prop("C13", "The end of the stroke catches up with the pen without overshooting",
 "After the Up event's time, each result continues the spring motion towards the raw Up position, starting with steps of one output period and halving the step, for good, whenever a step would carry the tip past its closest approach to that position. Every such result moves at least the stopping distance; modelling stops exactly when the tip is within the stopping distance, when a step would move it less than that, or when the configured number of attempts (including discarded ones) or the output limit is used up.",
 ["inputs", "histories", "configurations"],
 "every tip state an accepted stroke can end in, every spring, stopping distance and iteration limit",
 "Tests check one or two strokes against golden values.",
 ["internal/position_modeler.h", "stroke_modeler.cc"],
 [("end-of-stroke iteration", "internal/position_modeler.h ModelEndOfStroke")],
 ["results of the Up event after the input's time"])

prop("C14", "Stroke-end prediction shows what lifting the pen now would give",
 "With stroke-end prediction, Predict returns the results that an Up event at the position the tip is currently pulled towards and at the current time would append (none if the tip has already caught up): same times, positions, velocities and accelerations, with stylus values taken from the input so far. Before the first Move it is empty or stays at the Down position.",
 ["inputs", "histories", "configurations"],
 "every in-progress stroke (loop mitigation off) and every position, sampling and wobble configuration",
 "Tests check the prediction after a few inputs against golden values.",
 ["internal/prediction/stroke_end_predictor.cc", "stroke_modeler.cc", "internal/position_modeler.h"],
 [("shared end-of-stroke modelling", "internal/prediction/stroke_end_predictor.cc ConstructPrediction")],
 ["Predict results compared with the Up results of a twin and with a reference simulation"])

prop("C15", "Kalman prediction: estimate, connect, extend by confidence",
 "With Kalman prediction, the prediction is empty until the minimum number of inputs has arrived and while the recent inputs span no time; after that it connects the last tip state to the filter's current estimate by a cubic matching position and velocity at both ends, then extends the estimate as a cubic in time for as many output periods as the four documented confidence heuristics allow, never beyond the prediction interval. The estimate is that of a constant-jerk Kalman filter per axis over the (smoothed) inputs, scaled by the average input interval (the time spanned by the last max_time_samples inputs over their number), with acceleration and jerk reduced by their weights. The connector has as many output periods as the faster of tip and estimate (but at least min_catchup_velocity) needs for the distance, at least one; connector and extension together never exceed max_outputs_per_call.",
 ["inputs", "histories", "configurations"],
 "every in-progress stroke and every Kalman, confidence and sampling configuration (loop mitigation off)",
 "Tests check a handful of inputs with one parameter set; confidence heuristics are tested at a few points.",
 ["internal/prediction/kalman_predictor.cc", "internal/prediction/kalman_predictor.h", "internal/prediction/kalman_filter/kalman_filter.cc", "internal/prediction/kalman_filter/axis_predictor.cc", "internal/prediction/kalman_filter/matrix.h"],
 [("estimate", "internal/prediction/kalman_predictor.cc GetEstimatedState"), ("connector", "internal/prediction/kalman_predictor.cc ConstructCubicConnector"), ("confidence", "internal/prediction/kalman_predictor.cc NumberOfPointsToPredict")],
 ["Predict results compared with a reference filter"])

prop("C16", "Stylus values are those of the closest recent input point",
 "Without normal projection, each result's pressure, tilt and orientation are the linear interpolation, at the point closest to the tip, along the polyline of the last max_input_samples inputs (smoothed positions for Moves), with orientation taking the shorter way round and staying in [0, 2pi]; of several inputs at the same closest place, the latest counts. Once an input of the stroke reports a value as unknown (negative or NaN), that value alone is reported as -1 for the rest of the stroke; the Down result repeats the Down's own values.",
 ["inputs", "histories", "configurations"],
 "every stroke, window size and stylus data, including values that appear and disappear, wrap around, or arrive for a stationary pen; for modelled and predicted results",
 "Tests query a few tips against hand-made polylines.",
 ["internal/stylus_state_modeler.cc", "internal/utils.h", "internal/utils.cc", "stroke_modeler.cc"],
 [("closest-point projection", "internal/stylus_state_modeler.cc ProjectToClosestPoint"), ("interpolation", "internal/utils.cc InterpResult"), ("unknown-value latch", "internal/stylus_state_modeler.cc Update")],
 ["pressure, tilt, orientation of all results"])

prop("C17", "Normal projection reads stylus values off the input across the stroke",
 "With normal projection, each result's pressure, tilt and orientation are interpolated at the nearest intersection of the recent input polyline with the line through the tip perpendicular to the stroke direction; if both sides are hit, on the outside of the turn; if neither, at the polyline's nearer endpoint. The polyline keeps every input needed to span at least min_input_samples samples and more than min_sample_duration, and unknown values are handled as without normal projection.",
 ["inputs", "histories", "configurations"],
 "every stroke and window configuration with normal projection enabled (loop mitigation off), for modelled and predicted results",
 "Tests query a few tips against hand-made polylines.",
 ["internal/stylus_state_modeler.cc", "internal/utils.cc", "stroke_modeler.cc"],
 [("normal projection", "internal/stylus_state_modeler.cc ProjectAlongStrokeNormal"), ("stroke normal", "internal/utils.cc GetStrokeNormal"), ("window", "internal/stylus_state_modeler.cc ShouldDropOldestInput")],
 ["pressure, tilt, orientation of all results"])

prop("C18", "Loop mitigation blends towards the raw input by recent speed",
 "With loop mitigation on, each result after the Down is a linear blend, in position, velocity and acceleration alike, between the spring model's result and its projection onto the recent (smoothed) input polyline, the one its stylus values are read off. The spring model's share is the configured strength interpolated (and clamped) over the configured speed range by the average speed of the preceding (blended) results after the Down in the sampling window (min_speed_sampling_window, but at least min_discrete_speed_samples results), and is 1 while there are none; the underlying spring motion, the result times, the number of results and the stylus values are those the modeler gives without mitigation. With mitigation off the results are exactly the spring model's.",
 ["inputs", "histories", "configurations"],
 "every stroke and every accepted mitigation configuration, for modelled and predicted results",
 "Tests cover the mitigation sub-modeler alone plus two golden strokes.",
 ["internal/loop_contraction_mitigation_modeler.cc", "stroke_modeler.cc", "internal/utils.cc"],
 [("moving average of speed", "internal/loop_contraction_mitigation_modeler.cc"), ("blend", "stroke_modeler.cc ModelStylus")],
 ["results of a mitigated modeler compared with a mitigation-free twin and the reference projection"])

prop("C19", "Units and coordinate system do not matter",
 "Expressing input and parameters in other units of length or time, or in a shifted, rotated (by quarter turns) or mirrored coordinate system, or with another time origin, gives the same results expressed in those units and coordinates, with stylus values unchanged. (Kalman prediction, whose filter fixes a length scale, is exempt from the change of length unit; mirroring is exempt where left and right sides of the stroke are told apart.)",
 ["inputs", "configurations"],
 "every stroke and parameter set and every such change of units and coordinates that keeps the numbers in range",
 "Every test uses one coordinate system; the header's unit-agnosticism claim is not tested at all.",
 ["stroke_modeler.h", "stroke_modeler.cc", "internal/utils.h", "internal/position_modeler.cc", "internal/wobble_smoother.cc"],
 [("no absolute thresholds in the pipeline", "internal/utils.cc; internal/wobble_smoother.cc; internal/position_modeler.h")],
 ["all results of a run and of its transformed twin"])

prop("C20", "Parameters are accepted exactly when they are in the documented domain",
 "Reset with parameters succeeds exactly when every parameter that is in use lies in its documented domain (finite, positive or non-negative, ordered, capped, mitigation only with normal projection), and otherwise returns INVALID_ARGUMENT. Parameters of disabled features are ignored, and NaN or infinity never passes for a parameter in use.",
 ["configurations"],
 "every combination of parameter values, including boundary values, NaN, infinities and disabled features",
 "Tests perturb one parameter at a time to one bad value and never try NaN in most fields.",
 ["params.cc", "params.h", "internal/validation.h"],
 [("validation", "params.cc Validate*"), ("finite/positive helpers", "internal/validation.h")],
 ["status of Reset(params) and of the Validate functions"])

prop("C21", "Stylus data and prediction never influence the modelled motion",
 "Without loop mitigation, the position, velocity, acceleration, time and number of the results are bit-identical whatever prediction method is chosen, whatever pressure, tilt and orientation the inputs carry, and however stylus values are projected. With loop mitigation the same holds for prediction method and stylus data, though not for the projection. The three stylus values do not influence each other, and the prediction method influences no stylus value.",
 ["inputs", "configurations"],
 "every stroke, compared across every choice of predictor, stylus data and stylus projection parameters",
 "Tests never compare the same stroke across such configurations.",
 ["stroke_modeler.cc", "internal/utils.h", "internal/stylus_state_modeler.cc"],
 [("tip state copied into the result", "stroke_modeler.cc MakeResultFromTipState / ModelStylus")],
 ["results of twins that differ only in stylus data, projection or predictor"])

prop("C22", "Finite input gives finite results",
 "For a stable spring configuration and inputs of ordinary magnitude, every result of Update and Predict is finite in every field, times included, and every stylus value is -1 or lies within the range spanned by the stroke's input values (orientation in [0, 2pi]). This includes coincident or nearly coincident timestamps, stationary input, duplicate positions and single-sample windows.",
 ["inputs", "histories", "configurations"],
 "every stroke with ordinary magnitudes (coordinates up to about 1e6, times up to about 1e9 s), any timing, any accepted parameters with a stable spring",
 "Tests never look for NaN or infinity outside two error cases.",
 ["stroke_modeler.cc", "internal/utils.cc", "internal/utils.h", "internal/stylus_state_modeler.cc", "internal/wobble_smoother.cc", "internal/prediction/kalman_predictor.cc"],
 [("guards against zero duration, distance and speed", "internal/wobble_smoother.cc Update; internal/stylus_state_modeler.cc Update; internal/utils.cc GetStrokeNormal")],
 ["every field of every result"])

prop("C23", "The value types obey their arithmetic",
 "Vec2, Duration and Time behave as component-wise or scalar arithmetic (compound assignment equals the plain operator; scaling commutes; differences invert sums; comparisons agree with the values); equality of inputs and results means equality of every field; the angle between two vectors is symmetric, in [0, pi], independent of their lengths (while a float represents them to full precision), and an error exactly when a component is not finite. Formatted strings show every field's value.",
 ["inputs"],
 "every pair of values, including zero, negative, tiny, huge, infinite and NaN components",
 "Tests check a few literal values per operator; several operators are never exercised and types_test is not even built in the default configuration.",
 ["types.h", "types.cc"],
 [("operators", "types.h"), ("AbsoluteAngleTo, ToFormattedString", "types.cc")],
 ["return values of the public operators"])

prop("C24", "Memory is bounded by the configured windows and fully released",
 "The memory a modeler holds does not grow with the length of the stroke, the number of strokes, or the number of saves, restores, predictions and resets; it is bounded by the configured window sizes and the largest single call. The work per call is bounded likewise, and destroying the modeler releases everything.",
 ["histories"],
 "every long history: strokes of many thousands of inputs, thousands of strokes, save/restore/predict cycles",
 "Test strokes have at most a few dozen inputs, and nothing measures memory.",
 ["internal/wobble_smoother.cc", "internal/stylus_state_modeler.cc", "internal/loop_contraction_mitigation_modeler.cc", "internal/prediction/kalman_predictor.cc", "stroke_modeler.cc"],
 [("window trimming", "internal/*.cc pop_front loops"), ("scratch buffers cleared per call", "stroke_modeler.cc")],
 ["live heap bytes and allocations attributed to the modeler", "LeakSanitizer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
