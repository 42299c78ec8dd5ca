import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
def commit(sub):
    m = [l.split()[0] for l in log if sub in l]
    assert len(m) == 1, (sub, m)
    return m[0]
F = [
 ("C03", "rejected move event", "a Move rejected as too far apart still updated the wobble smoother and the stylus modeler, so later results differed from those without the rejected call (its pressure and position leaked in)"),
 ("C05", "saved during an earlier stroke", "Restore in a later stroke brought back the predictor, last input and save of an earlier stroke, e.g. Down Save Move Up Down Move Restore"),
 ("C06", "saved under earlier parameters", "Save, Reset(other parameters), Save, Restore could revive a predictor of the earlier parameters"),
 ("C01", "huge or infinite orientations", "an infinite or huge orientation made Update loop forever in InterpAngle"),
 ("C20", "NaN and infinity in all parameters", "NaN or infinite parameters that are in use passed validation"),
 ("C08", "same time as the previous input", "a Move with the time of the previous input succeeded without appending any result"),
 ("C22", "interpolation by 1", "Interp(a, b, 1) was not exactly b: result times and stylus values could miss or exceed the input's own"),
 ("C22", "all have the same timestamp", "Kalman prediction from inputs with coincident times was NaN or infinite"),
 ("C01", "limit Kalman predictions", "Kalman prediction could be arbitrarily long (out-of-memory, int overflow), ignoring max_outputs_per_call"),
 ("C10", "count end-of-stroke results", "an Up could return more results than max_outputs_per_call, and so could a stroke-end prediction"),
 ("C15", "past prediction_interval", "rounding up extended Kalman prediction past prediction_interval"),
 ("C12", "accumulate rounding errors", "running float sums in the wobble smoother drifted, e.g. after a long pause, giving a wrong average position"),
]
out = {"findings": []}
for prop, sub, what in F:
    c = commit(sub)
    out["findings"].append({"property": prop, "status": "fixed", "commit": c, "entry": "fixed: property=%s %s %s" % (prop, c, what)})
K = [
 ("C17", "first-result-normal", "Move results: the stroke normal of the first result of each Move is computed with the new input's time as previous time (time step of the wrong sign and size), in the directed history of harness/c17.cc",
  "ProcessMoveEvent passes last_input_->input.time to ModelStylus after last_input_ was overwritten. Repairing it changes values pinned by an existing test (StrokeModelerTest goldens), so it is recorded, not fixed."),
]
for prop, key, what, why in K:
    out["findings"].append({"property": prop, "status": "known", "key": key, "what": what, "why_not_fixed": why})
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
