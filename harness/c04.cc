// C04: Predict is a pure query.
#include "gen.h"
namespace vf {
const char* kProperty = "C04";
const char* kRule =
    "Twin modelers run the same history (strokes with Save/Restore/Reset); A also calls Predict, "
    "repeatedly and into dirty vectors, at random points; B only where both are compared. Update and "
    "Predict results must be bit-identical. Non-trivial: A made at least one successful non-empty "
    "prediction that B did not make, and an Update after it was compared.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"extra_predicts.nonempty", 1000}, {"repeat_predicts", 500}, {"compared_after_predict", 1000},
          {"predict.kalman_nonempty", 100}, {"predict.loop_nonempty", 100}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  if (!rng.P(.05)) wo.pred = rng.P(.5) ? kPredEnd : kPredKalman;
  World w = GenWorld(rng, wo);
  Mon a("A"), b("B");
  a.ResetP(w.p);
  b.ResetP(w.p);
  bool extra = false;
  bool kalman = std::holds_alternative<KalmanPredictorParams>(w.p.prediction_params);
  bool loop = w.p.position_modeler_params.loop_contraction_mitigation_params.is_enabled;
  auto extra_predicts = [&] {
    int n = rng.P(.6) ? rng.I(1, 3) : 0;
    Obs first;
    for (int i = 0; i < n; ++i) {
      std::vector<Result> dirty(rng.I(0, 2));
      for (Result& r : dirty) r.position = {5, static_cast<float>(rng.U())};
      Obs o = a.PredictInto(dirty);
      if (!o.r.empty()) {
        extra = true;
        COUNT("extra_predicts.nonempty");
        if (kalman) COUNT("predict.kalman_nonempty");
        if (loop) COUNT("predict.loop_nonempty");
      }
      if (i == 0) {
        first = o;
      } else {
        COUNT("repeat_predicts");
        ExpectSame("repeat", first, o, "repeated Predict without Update in between");
      }
    }
  };
  auto cmp = [&](const Op& op) {
    Obs oa = a.Do(op), ob = b.Do(op);
    Observe(HashObs(oa));
    if (extra) COUNT("compared_after_predict");
    ExpectSame("pure", oa, ob, Sf("%s with (A) and without (B) earlier Predict calls", OpName(op.kind)));
    if (extra && op.kind == Op::kUpdate && oa.ok()) NonTrivial();
  };
  int strokes = rng.I(1, 2);
  for (int s = 0; s < strokes; ++s) {
    StrokeOpts so;
    so.very_long_moves = 20000;
    so.max_moves = 24;
    so.max_dt_steps = 60;
    so.up = rng.P(.8);
    for (const Input& in : GenStroke(rng, w, so)) {
      cmp(UpdateOp(in));
      extra_predicts();
      if (rng.P(.15)) cmp({Op::kPredict});
      if (rng.P(.06)) { a.Save(); b.Save(); extra_predicts(); }
      if (rng.P(.05)) { a.Restore(); b.Restore(); extra_predicts(); }
    }
    extra_predicts();
    if (!so.up || rng.P(.3)) cmp({Op::kReset0});
  }
}
}  // namespace vf
