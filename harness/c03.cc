// C03: a rejected call leaves no trace.
#include "gen.h"
namespace vf {
const char* kProperty = "C03";
const char* kRule =
    "Twin modelers: A gets a random history (1-3 strokes, Predict/Save/Restore/Reset mixed in) with "
    "malformed inputs, too-far-apart and enormous inputs, invalid parameters and out-of-order calls "
    "inserted; B gets only the calls A accepted. Every accepted call must return bit-identical "
    "results on both, and a rejected Update must leave the result vector intact. Non-trivial: at "
    "least one call was rejected mid-stroke and later results were compared.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"rejected.update", 200}, {"rejected.reset", 20}, {"rejected.predict", 20},
          {"rejected.too_far", 50}, {"compared_after_reject", 1000}};
}
void RunCase(uint64_t, Rng rng) {
  WorldOpts wo;
  wo.small_max = true;
  World w = GenWorld(rng, wo);
  Mon a("A"), b("B");
  bool rejected_in_stroke = false, rejected_any = false;
  std::optional<Input> last, saved;
  bool have_save = false;
  // Runs the call on A; if A accepts it, on B as well, and compares.
  auto both = [&](const Op& op, const char* tag) {
    std::vector<Result> pre;
    Obs oa;
    if (op.kind == Op::kUpdate && rng.P(.5)) {
      pre.resize(rng.I(1, 3));
      for (Result& r : pre) r.position = {static_cast<float>(rng.U()), 7};
      std::vector<Result> v = pre;
      LOG("A.Update(%s) into a vector of %zu", Str(op.in).c_str(), v.size());
      absl::Status s = a.m.Update(op.in, v);
      oa.code = s.code();
      LOG(" -> %s", absl::StatusCodeToString(oa.code).c_str());
      if (v.size() < pre.size() ||
          !Same(std::vector<Result>(v.begin(), v.begin() + pre.size()), pre))
        Fail("vector", "Update altered earlier results in the vector");
      oa.r.assign(v.begin() + pre.size(), v.end());
    } else {
      oa = a.Do(op);
    }
    if (!oa.ok()) {
      if (op.kind == Op::kUpdate) {
        COUNT("rejected.update");
        if (!oa.r.empty()) Fail("vector", "rejected Update (%s) appended %zu results", tag, oa.r.size());
        if (!strcmp(tag, "too far apart")) COUNT("rejected.too_far");
        if (last) rejected_in_stroke = true;
      } else if (op.kind == Op::kPredict) {
        COUNT("rejected.predict");
        if (!oa.r.empty()) Fail("vector", "rejected Predict returned %zu results", oa.r.size());
      } else {
        COUNT("rejected.reset");
      }
      rejected_any = true;
      return oa;
    }
    Obs ob = b.Do(op);
    if (rejected_any) {
      COUNT("compared_after_reject");
      if (rejected_in_stroke && !oa.r.empty()) NonTrivial();
    }
    Observe(HashObs(oa));
    ExpectSame("trace", oa, ob, Sf("%s after rejected calls (A) vs without (B)", OpName(op.kind)));
    if (op.kind == Op::kUpdate)
      last = op.in.event_type == EventType::kUp ? std::nullopt : std::optional<Input>(op.in);
    if (op.kind == Op::kSave) { saved = last; have_save = true; }
    if (op.kind == Op::kRestore && have_save) last = saved;
    if (op.kind == Op::kReset0 || op.kind == Op::kResetP) { last.reset(); have_save = false; }
    return oa;
  };
  auto noise = [&](bool initialised) {
    int k = rng.P(.45) ? 1 : 0;
    if (k && rng.P(.05)) k = rng.I(2, 12);
    if (k > 2) COUNT("rejected.bursts");
    StrokeModelParams bad;
    const bool same = rng.P(.4);  // the same bad call again and again
    Op op{Op::kUpdate};
    std::string why = "?";
    for (int n = 0; n < k; ++n) {
      if (same && n > 0) {
        both(op, why.c_str());
        continue;
      }
      why = "?";
      op = Op{Op::kUpdate};
      int c = rng.I(0, 9);
      if (c < 6) {
        op.in = GenBadInput(rng, w, last ? &*last : nullptr, &why);
      } else if (c == 6 && last) {
        op.in = *last;
        op.in.event_type = rng.P(.7) ? EventType::kMove : EventType::kUp;
        op.in.position = {3e38f * (rng.P(.5) ? 1 : -1), 1e38f};
        op.in.time = Time(last->time.Value() + .5 / w.p.sampling_params.min_output_rate);
        why = "enormous";
        // If it is accepted the twins simply both get it.
        if (rng.P(.7)) op.in.position.y = -3e38f;
      } else if (c == 7) {
        if (!last || std::holds_alternative<DisabledPredictorParams>(w.p.prediction_params)) op.kind = Op::kPredict;
        else op.in = GenBadInput(rng, w, &*last, &why);
      } else {
        op.kind = Op::kResetP;
        bad = GenBadParams(rng, w.p);
        op.params = &bad;
      }
      (void)initialised;
      both(op, why.c_str());
    }
  };
  if (rng.P(.1)) {
    Op op{Op::kUpdate, In(EventType::kDown, 0, 0, 0)};
    both(op, "uninitialised");
    both({Op::kReset0}, "uninitialised");
    both({Op::kPredict}, "uninitialised");
  }
  both({Op::kResetP, {}, &w.p}, "init");
  int strokes = rng.I(1, 3);
  for (int s = 0; s < strokes; ++s) {
    StrokeOpts so;
    so.max_moves = 14;
    so.max_dt_steps = std::min(400, w.p.sampling_params.max_outputs_per_call);
    std::vector<Input> st = GenStroke(rng, w, so);
    for (const Input& in : st) {
      noise(true);
      Input i = in;
      // Only continue a protocol-conforming stream (a Restore may have moved
      // us back between strokes).
      if (!last && i.event_type != EventType::kDown) break;
      if (last && i.event_type == EventType::kDown) break;
      if (last && i.time.Value() < last->time.Value()) i.time = last->time;
      both(UpdateOp(i), "good");
      if (rng.P(.3)) both({Op::kPredict}, "good");
      if (rng.P(.1)) both({Op::kSave}, "good");
      if (rng.P(.07)) both({Op::kRestore}, "good");
    }
    noise(true);
    if (last && rng.P(.7)) both({Op::kReset0}, "good");
    if (last) break;
  }
}
}  // namespace vf
