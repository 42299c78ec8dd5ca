// C08: Update appends at least one result; Predict replaces.
#include "gen.h"
namespace vf {
const char* kProperty = "C08";
const char* kRule =
    "Twin modelers run the same calls; A appends to / predicts into a caller vector with arbitrary "
    "prior contents, size and capacity (sometimes its own accumulated results), B into an empty one. "
    "Monitor: at least one result appended per accepted Update, earlier contents bit-identical, "
    "appended part equal to B's, nothing appended on error, Predict leaves only the prediction. "
    "Non-trivial: an accepted Move and a Predict were observed with a non-empty prior vector.";
int DirectedCases() { return 2; }
std::vector<Floor> Floors() {
  return {{"update.ok_nonempty_prior", 2000}, {"update.coincident_time_ok", 200}, {"update.error", 200},
          {"predict.dirty_ok", 500}, {"predict.dirty_error", 20}};
}
namespace {
std::vector<Result> Prior(Rng& rng, const std::vector<Result>& acc) {
  std::vector<Result> v;
  int k = rng.I(0, 3);
  if (k == 0) return v;
  if (k == 1) v = acc;
  else {
    v.resize(rng.I(1, 5));
    for (Result& r : v) {
      r.position = {static_cast<float>(rng.U(-1, 1)), std::nanf("")};
      r.velocity = {3e38f, -0.f};
      r.time = Time(rng.Pick({0., -5., 1e9}));
      r.pressure = rng.U();
    }
  }
  if (rng.P(.5)) v.reserve(v.size() + rng.I(0, 50));
  else v.shrink_to_fit();
  return v;
}
}  // namespace
void RunCase(uint64_t index, Rng rng) {
  WorldOpts wo;
  wo.small_max = true;
  World w = GenWorld(rng, wo);
  Mon b("B");
  StrokeModeler a;
  if (!a.Reset(w.p).ok()) Die("valid params rejected");
  b.ResetP(w.p);
  std::vector<Result> acc;
  std::optional<Input> last;
  bool dirty_move = false, dirty_predict = false;
  auto update = [&](const Input& in) {
    std::vector<Result> v = Prior(rng, acc), pre = v;
    absl::Status s = a.Update(in, v);
    LOG("A.Update(%s) into %zu prior -> %s, now %zu", Str(in).c_str(), pre.size(),
        absl::StatusCodeToString(s.code()).c_str(), v.size());
    Obs ob = b.Update(in);
    if (v.size() < pre.size()) Fail("shrunk", "Update removed results from the caller's vector (%zu -> %zu)", pre.size(), v.size());
    for (size_t i = 0; i < pre.size(); ++i)
      if (!Same(pre[i], v[i])) Fail("altered", "Update altered result %zu of the caller's vector", i);
    Obs oa{s.code(), "", std::vector<Result>(v.begin() + pre.size(), v.end())};
    if (!s.ok()) {
      COUNT("update.error");
      if (!oa.r.empty()) Fail("error-append", "failed Update appended %zu results", oa.r.size());
    } else {
      if (oa.r.empty()) Fail("no-result", "accepted Update (%s) appended no result", Str(in).c_str());
      if (!pre.empty()) COUNT("update.ok_nonempty_prior");
      if (last && last->time.Value() == in.time.Value()) COUNT("update.coincident_time_ok");
      if (!pre.empty() && in.event_type == EventType::kMove) dirty_move = true;
      acc.insert(acc.end(), oa.r.begin(), oa.r.end());
      if (in.event_type == EventType::kUp) last.reset();
      else last = in;
    }
    Observe(HashObs(oa));
    ExpectSame("contents", oa, ob, "Update into a used vector (A) vs an empty one (B)");
  };
  auto predict = [&] {
    std::vector<Result> v = Prior(rng, acc);
    bool dirty = !v.empty();
    absl::Status s = a.Predict(v);
    LOG("A.Predict -> %s, %zu", absl::StatusCodeToString(s.code()).c_str(), v.size());
    Obs oa{s.code(), "", v};
    Obs ob = b.Predict();
    if (!s.ok() && !v.empty()) Fail("predict-error", "failed Predict left %zu results", v.size());
    if (dirty && s.ok()) { COUNT("predict.dirty_ok"); dirty_predict = true; }
    if (dirty && !s.ok()) COUNT("predict.dirty_error");
    ExpectSame("predict", oa, ob, "Predict into a used vector (A) vs an empty one (B)");
  };
  if (index < 2) {
    // Several inputs at one instant.
    double t = index ? 3 : 0;
    update(In(EventType::kDown, 0, 0, t));
    update(In(EventType::kMove, 1, 0, t));
    update(In(EventType::kMove, 2, 0, t));
    update(In(EventType::kMove, 3, 0, t + 1 / w.p.sampling_params.min_output_rate));
    update(In(EventType::kMove, 4, 0, t + 1 / w.p.sampling_params.min_output_rate));
    update(In(EventType::kUp, 4, 0, t + 1 / w.p.sampling_params.min_output_rate));
    NonTrivial();
    return;
  }
  if (rng.P(.1)) { predict(); }
  int strokes = rng.I(1, 2);
  for (int s = 0; s < strokes; ++s) {
    StrokeOpts so;
    so.very_long_moves = 1000;
    so.max_moves = 16;
    so.max_dt_steps = std::min(60, w.p.sampling_params.max_outputs_per_call);
    if (rng.P(.3)) so.time_style = kTBurst;
    for (const Input& in : GenStroke(rng, w, so)) {
      if (rng.P(.15)) {
        std::string why;
        update(GenBadInput(rng, w, last ? &*last : nullptr, &why));
      }
      if (!last && in.event_type != EventType::kDown) break;
      update(in);
      if (rng.P(.3)) predict();
    }
    predict();
    if (last) { if (!a.Reset().ok()) Die("reset"); b.Reset0(); last.reset(); }
  }
  if (dirty_move && dirty_predict) NonTrivial();
}
}  // namespace vf
