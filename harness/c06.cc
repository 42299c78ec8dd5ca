// C06: every stroke starts from a clean slate.
#include "gen.h"
namespace vf {
const char* kProperty = "C06";
const char* kRule =
    "Modeler A lives through a random past (other parameters, finished and unfinished strokes, "
    "saves, restores, predictions, rejected calls), then is Reset (with or without parameters) or "
    "just starts a new stroke; B is freshly constructed with the same parameters. The same future "
    "(strokes, Predict, Save, Restore) must give bit-identical results on both. Non-trivial: the "
    "past contained accepted Moves and the future produced compared results.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"future.reset_params", 100}, {"future.reset_noargs", 100}, {"future.new_stroke", 100},
          {"future.after_unfinished", 50}, {"compared_results", 5000}, {"future.predicts_nonempty", 200},
          {"future.restores", 50}, {"future.restore_between", 50}, {"past.before_params", 500}, {"past.other_params", 5000}};
}
namespace {
// Gives some of w's parameters the values they have in f.
void Blend(Rng& rng, World& w, const World& f) {
  StrokeModelParams& p = w.p;
  const StrokeModelParams& q = f.p;
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  const auto& m = q.position_modeler_params.loop_contraction_mitigation_params;
  for (int n = rng.I(1, 3); n > 0; --n) {
    switch (rng.I(0, 14)) {
      case 0: p.position_modeler_params.drag_constant *= rng.U(.7, 1); break;
      case 1: p.position_modeler_params.spring_mass_constant *= rng.U(1, 1.5); break;
      case 2: p.sampling_params.end_of_stroke_stopping_distance *= rng.Pick({.1, 2., 10.}); break;
      case 3: p.sampling_params.end_of_stroke_max_iterations = rng.I(1, 30); break;
      case 4: p.sampling_params.max_estimated_angle_to_traverse_per_input = q.sampling_params.max_estimated_angle_to_traverse_per_input; break;
      case 5: p.wobble_smoother_params = q.wobble_smoother_params; break;
      case 6: p.wobble_smoother_params.timeout = q.wobble_smoother_params.timeout; break;
      case 7:
        // A predictor fit for another speed could take forever to catch up.
        if (std::holds_alternative<KalmanPredictorParams>(p.prediction_params)) p.prediction_params = StrokeEndPredictorParams{};
        else if (std::holds_alternative<StrokeEndPredictorParams>(p.prediction_params)) p.prediction_params = DisabledPredictorParams{};
        break;
      case 8: p.stylus_state_modeler_params.max_input_samples = rng.I(1, 20); break;
      case 9: p.stylus_state_modeler_params.min_input_samples = rng.I(1, 20); break;
      case 10: if (!l.is_enabled) p.stylus_state_modeler_params.use_stroke_normal_projection = q.stylus_state_modeler_params.use_stroke_normal_projection; break;
      case 11: l.speed_upper_bound *= rng.Pick({1., 2., 5.}); break;
      case 12: if (m.is_enabled && p.stylus_state_modeler_params.use_stroke_normal_projection) l = m, l.min_speed_sampling_window = Duration(rng.U(1, 100) / p.sampling_params.min_output_rate); else l.is_enabled = false; break;
      case 13: l.min_discrete_speed_samples = rng.I(1, 20); break;
      case 14:
        if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params))
          switch (rng.I(0, 5)) {
            case 0: k->process_noise *= 2; break;
            case 1: k->measurement_noise *= 2; break;
            case 2: k->max_time_samples = rng.I(1, 20); break;
            case 3: k->min_stable_iteration = rng.I(1, 8); break;
            case 4: k->confidence_params.max_estimation_distance *= 3; break;
            case 5: k->prediction_interval = Duration(k->prediction_interval.Value() * 2); break;
          }
        else p.sampling_params.min_output_rate *= 1.25;
        break;
    }
  }
}
}  // namespace
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.small_max = rng.P(.3);
  World w = GenWorld(rng, wo);
  Mon a("A"), b("B");
  int mode = rng.I(0, 2);
  bool moves = false;
  bool open = false;
  int past = rng.I(1, 3);
  // Now and then many strokes without any Reset.
  const int more = rng.P(.03) ? rng.P(.02) ? rng.I(250, 300) : rng.I(3, 24) : 0;
  if (more) COUNT("past.many_strokes");
  const bool same_params = mode != 0;
  // For Reset() and plain new strokes the parameters must be those in force.
  std::vector<World> others;
  for (int s = 0; s < past; ++s) {
    World o = GenWorld(rng, wo);
    if (rng.P(.4)) {
      // Parameters that differ in little only.
      World f = w;
      Blend(rng, f, o);
      o = f;
    }
    others.push_back(o);
  }
  if (rng.P(.15)) {
    COUNT("past.before_params");
    for (int n = rng.I(1, 3); n > 0; --n) {
      switch (rng.I(0, 3)) {
        case 0: a.Restore(); break;
        case 1: a.Save(); break;
        case 2: a.Predict(); break;
        case 3: a.Update(In(EventType::kDown, 0, 0, 0)); break;
      }
    }
  }
  for (int s = 0; s < past + more; ++s) {
    bool last_one = s >= past - 1;
    World& ow = same_params && last_one ? w : (rng.P(.3) ? w : others[std::min(s, past - 1)]);
    if (s >= past) {
      if (open) a.Reset0();
      open = false;
    } else if (s == 0 || open || rng.P(.7) || (same_params && last_one)) {
      if (a.ResetP(ow.p).ok() && &ow != &w) COUNT("past.other_params");
      open = false;
    } else {
      // Still the previous world's parameters; fine, it is only the past.
    }
    StrokeOpts so;
    so.max_moves = more ? 6 : 16;
    if (more) so.may_be_long = false;
    so.max_dt_steps = 60;
    so.up = mode == 2 && last_one ? true : rng.P(.6);
    std::vector<Input> st = GenStroke(rng, ow, so);
    std::optional<Input> last;
    for (size_t i = 0; i < st.size(); ++i) {
      Obs o = a.Update(st[i]);
      if (o.ok() && st[i].event_type == EventType::kMove) moves = true;
      if (o.ok()) last = st[i];
      if (o.ok() && st[i].event_type == EventType::kUp) last.reset();
      if (rng.P(.2)) a.Predict();
      if (rng.P(.1) && last && last->event_type != EventType::kUp) { a.Save(); }
      if (rng.P(.1)) {
        std::string why;
        a.Update(GenBadInput(rng, ow, last ? &*last : nullptr, &why));
      }
      // Restores in the past may undo parts of it.
      if (rng.P(.05) && last && i + 2 < st.size()) { a.Restore(); }
    }
    open = !so.up;
    if (mode == 2 && last_one) {
      // Make sure the stroke really ended.
      a.Predict();
      Input up = last ? *last : st.back();
      up.event_type = EventType::kUp;
      Obs o = a.Update(up);
      if (last && !o.ok()) mode = 1;
      open = false;
    }
  }
  if (mode == 0) {
    COUNT("future.reset_params");
    if (open) COUNT("future.after_unfinished");
    Obs o = a.ResetP(w.p);
    if (!o.ok()) Die("valid params rejected");
  } else if (mode == 1) {
    COUNT("future.reset_noargs");
    if (open) COUNT("future.after_unfinished");
    a.Reset0();
  } else {
    COUNT("future.new_stroke");
  }
  LOG("---- the future ----");
  b.ResetP(w.p);
  auto cmp = [&](const Op& op) {
    Obs oa = a.Do(op), ob = b.Do(op);
    Observe(HashObs(oa));
    COUNTN("compared_results", oa.r.size());
    if (op.kind == Op::kPredict && !oa.r.empty()) COUNT("future.predicts_nonempty");
    if (op.kind == Op::kRestore) COUNT("future.restores");
    if (moves && oa.r.size() > 0) NonTrivial();
    ExpectSame("clean", oa, ob, Sf("%s on a used modeler (A) vs a fresh one (B)", OpName(op.kind)));
    return oa;
  };
  int strokes = more && rng.P(.2) ? rng.I(3, 12) : rng.I(1, 2);
  for (int s = 0; s < strokes; ++s) {
    StrokeOpts so;
    so.max_moves = 20;
    so.max_dt_steps = 60;
    std::vector<Input> st = GenStroke(rng, w, so);
    if (mode != 2 && rng.P(.1)) cmp({Op::kPredict});
    // Between strokes; right after a Reset there is nothing to restore. After
    // an Up, a Save of the past may still be restored (it undoes the Up), so
    // there a new Save comes first.
    if (rng.P(.15)) {
      if (s == 0 && (mode == 2 || rng.P(.3))) cmp({Op::kSave});
      cmp({Op::kRestore});
      COUNT("future.restore_between");
      if (rng.P(.3)) cmp({Op::kPredict});
    }
    for (const Input& in : st) {
      cmp(UpdateOp(in));
      if (rng.P(.25)) cmp({Op::kPredict});
      if (rng.P(.08)) cmp({Op::kSave});
      // A Restore before any Save of this stroke must do nothing; saves of the
      // past were all made inside strokes.
      if (rng.P(.08)) cmp({Op::kRestore});
    }
    if (rng.P(.2)) cmp({Op::kReset0});
  }
}
}  // namespace vf
