// C05: Save/Restore undo exactly.
#include <memory>
#include "gen.h"
namespace vf {
const char* kProperty = "C05";
const char* kRule =
    "Modeler A runs random histories with Save, Restore, discarded branches (further Moves, an Up, "
    "predictions, rejected inputs), Resets and new strokes. The monitor keeps the effective history "
    "(what Restore did not undo); after each Restore a fresh modeler B replays it without any "
    "Save/Restore, and every later Update/Predict must be bit-identical on both. Non-trivial: at "
    "least one valid Restore discarded an accepted Update and later results were compared.";
int DirectedCases() { return 4; }
std::vector<Floor> Floors() {
  return {{"restore.valid", 300}, {"restore.discarded_updates", 300}, {"restore.undid_up", 50},
          {"restore.noop_no_save", 50}, {"restore.noop_after_new_stroke", 50},
          {"compared_after_restore", 1000}, {"compared_predicts_after_restore", 200}};
}
namespace {
struct Runner {
  explicit Runner(Rng& r) : rng(r) {}
  Rng& rng;
  Mon a{"A"};
  std::vector<StrokeModelParams> params;
  std::vector<Op> hist;  // effective history (accepted mutating calls)
  struct Twin { std::vector<Op> hist; std::unique_ptr<Mon> m; };
  std::vector<Twin> twins;  // alternatives still consistent with A
  bool save_valid = false, save_between = false;
  size_t saved_len = 0;
  bool in_stroke = false, saved_in_stroke = false;
  std::optional<Input> last, saved_last;
  bool down_since_save = false;
  bool restored = false;

  std::unique_ptr<Mon> Replay(const std::vector<Op>& h) {
    auto m = std::make_unique<Mon>("B");
    bool v = g_verbose;
    g_verbose = false;
    for (const Op& op : h) m->Do(op);
    g_verbose = v;
    LOG("B = fresh modeler replaying the %zu effective calls", h.size());
    return m;
  }
  void Start(const StrokeModelParams* p) {
    a.ResetP(*p);
    hist = {Op{Op::kResetP, {}, p}};
    twins.clear();
    twins.push_back({hist, Replay(hist)});
    save_valid = false;
    last.reset();
    restored = false;
  }
  void Reset0() {
    a.Reset0();
    for (auto& t : twins) { t.m->Reset0(); t.hist.push_back({Op::kReset0}); }
    save_valid = false;
    last.reset();
  }
  void Save() {
    a.Save();
    // B never saves: Save must change nothing.
    if (twins.size() > 1) { ambiguous_save = true; save_valid = false; return; }
    ambiguous_save = false;
    save_valid = true;
    saved_len = twins[0].hist.size();
    saved_last = last;
    save_between = !last;
    down_since_save = false;
  }
  bool ambiguous_save = false;
  bool CanRestore() { return twins.size() == 1 && !ambiguous_save; }
  void Restore() {
    a.Restore();
    Twin& t = twins[0];
    if (!save_valid) {
      COUNT("restore.noop_no_save");
      restored = true;
      return;
    }
    if (down_since_save && !save_between) {
      COUNT("restore.noop_after_new_stroke");
      restored = true;
      return;
    }
    std::vector<Op> h(t.hist.begin(), t.hist.begin() + saved_len);
    size_t dropped = t.hist.size() - saved_len;
    if (down_since_save) {
      // Saved between strokes, then a stroke began: the documentation supports
      // both undoing the Down and doing nothing; accept either, but nothing
      // else.
      COUNT("restore.between_strokes");
      Twin undo{h, Replay(h)};
      twins.push_back(std::move(undo));
      restored = true;
      ambiguous_save = true;
      save_valid = false;
      return;
    }
    COUNT("restore.valid");
    if (dropped) { COUNT("restore.discarded_updates"); nontrivial_ready = true; }
    if (!last && saved_last) COUNT("restore.undid_up");
    t.hist = h;
    t.m = Replay(h);
    last = saved_last;
    restored = true;
  }
  bool nontrivial_ready = false;
  void RecomputeLast() {
    last.reset();
    for (const Op& op : twins[0].hist) {
      if (op.kind == Op::kReset0) last.reset();
      if (op.kind == Op::kUpdate) {
        if (op.in.event_type == EventType::kUp) last.reset();
        else last = op.in;
      }
    }
  }
  Obs Call(const Op& op, bool compare = true) {
    Obs oa = a.Do(op);
    Observe(HashObs(oa));
    std::vector<Twin> alive;
    Obs first_ob;
    bool have = false;
    for (auto& t : twins) {
      Obs ob = t.m->Do(op);
      if (!have) { first_ob = ob; have = true; }
      bool same = oa.code == ob.code && Same(oa.r, ob.r);
      if (same) {
        if (op.kind == Op::kUpdate && oa.ok()) t.hist.push_back(op);
        alive.push_back(std::move(t));
      }
    }
    if (restored) {
      COUNT("compared_after_restore");
      if (op.kind == Op::kPredict) COUNT("compared_predicts_after_restore");
      if (nontrivial_ready && op.kind == Op::kUpdate && oa.ok()) NonTrivial();
    }
    if (alive.empty()) {
      ExpectSame("undo", oa, first_ob, Sf("%s after Save/Restore (A) vs effective history replayed (B)", OpName(op.kind)));
      Fail("undo", "%s agrees with no admissible history", OpName(op.kind));
    }
    const bool collapsed = twins.size() > 1 && alive.size() == 1;
    twins = std::move(alive);
    if (op.kind == Op::kUpdate && oa.ok()) {
      if (op.in.event_type == EventType::kUp) last.reset();
      else last = op.in;
      if (op.in.event_type == EventType::kDown) down_since_save = true;
    }
    if (collapsed) RecomputeLast();
    return oa;
  }
};
void Directed(uint64_t idx, Rng& rng) {
  // Saves that must not leak into a later stroke or parameter set.
  StrokeModelParams p;
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.04), .speed_floor = 1.31f, .speed_ceiling = 1.44f};
  p.sampling_params = {.min_output_rate = 180, .end_of_stroke_stopping_distance = .001f};
  KalmanPredictorParams k;
  k.process_noise = .00026458; k.measurement_noise = .026458; k.min_catchup_velocity = .01f;
  k.prediction_interval = Duration(1. / 60);
  k.confidence_params.max_estimation_distance = .04f;
  k.confidence_params.min_travel_speed = 3; k.confidence_params.max_travel_speed = 15;
  k.confidence_params.max_linear_deviation = .2f;
  p.prediction_params = k;
  StrokeModelParams q = p;
  q.prediction_params = DisabledPredictorParams{};
  StrokeModelParams e = p;
  e.prediction_params = StrokeEndPredictorParams{};
  Runner r(rng);
  r.Start(idx == 3 ? &e : &p);
  auto mv = [&](int i, double t) { r.Call(UpdateOp(In(EventType::kMove, i, i * .5, t, .5, .2, .3))); };
  r.Call(UpdateOp(In(EventType::kDown, 0, 0, 0, .5, .2, .3)));
  for (int i = 1; i < 8; ++i) mv(i, i * .008);
  r.Save();
  if (idx == 0 || idx == 3) {
    // Save in stroke 1; Restore in stroke 2 must do nothing.
    mv(9, .1);
    r.Call(UpdateOp(In(EventType::kUp, 9, 9, .11, .5, .2, .3)));
    r.Call(UpdateOp(In(EventType::kDown, 100, 100, 5, .9, .9, .9)));
    r.Call(UpdateOp(In(EventType::kMove, 101, 100, 5.008, .9, .9, .9)));
    r.Restore();
    r.Call({Op::kPredict});
    r.Call(UpdateOp(In(EventType::kMove, 102, 100, 5.016, .9, .9, .9)));
    r.Call({Op::kPredict});
    r.Call(UpdateOp(In(EventType::kUp, 103, 100, 5.03, .9, .9, .9)));
    return;
  }
  // A predictor saved under other parameters must not come back.
  r.Start(&q);
  r.Call(UpdateOp(In(EventType::kDown, 0, 0, 10, .5, .2, .3)));
  mv(1, 10.01);
  if (idx == 1) r.Save();
  mv(2, 10.02);
  r.Restore();
  r.Call({Op::kPredict});
  mv(3, 10.03);
  r.Call({Op::kPredict});
}
}  // namespace
void RunCase(uint64_t index, Rng rng) {
  if (index < 4) { Directed(index, rng); NonTrivial(); return; }
  std::vector<World> ws;
  WorldOpts wo;
  int nw = rng.P(.3) ? 2 : 1;
  for (int i = 0; i < nw; ++i) ws.push_back(GenWorld(rng, wo));
  Runner r(rng);
  if (rng.P(.05)) { r.a.Save(); r.a.Restore(); }
  int phases = rng.I(1, 3);
  for (int ph = 0; ph < phases; ++ph) {
    World& w = ws[rng.I(0, nw - 1)];
    if (ph == 0 || rng.P(.6)) r.Start(&w.p);
    else if (rng.P(.5)) r.Reset0();
    else if (r.last) r.Reset0();
    const World& cw = *[&]() -> const World* {
      for (auto& x : ws) if (&x.p == r.twins[0].hist[0].params) return &x;
      Die("params");
    }();
    StrokeOpts so;
    so.max_moves = 12;
    so.max_dt_steps = 60;
    std::vector<Input> st = GenStroke(rng, cw, so);
    double t = st[0].time.Value();
    size_t i = 0;
    int steps = 0;
    auto per = 1 / cw.p.sampling_params.min_output_rate;
    // Rarely a long history, with a save that lies far back.
    const bool far_back = rng.P(.001);
    if (far_back) COUNT("far_back");
    const double often = far_back ? .01 : .12;
    while (steps++ < (far_back ? 1500 : 60)) {
      if (rng.P(often)) r.Save();
      if (rng.P(often) && r.CanRestore()) {
        r.Restore();
        if (rng.P(.3) && r.CanRestore()) r.Restore();
        if (rng.P(.4)) r.Call({Op::kPredict});
      }
      if (rng.P(.2)) r.Call({Op::kPredict});
      if (rng.P(.05) && r.last) {
        std::string why;
        Input bad = GenBadInput(rng, cw, &*r.last, &why);
        r.Call(UpdateOp(bad));
      }
      if (rng.P(far_back ? .001 : .02)) { r.Reset0(); }
      Input in;
      if (r.twins.size() > 1) {
        // Unknown whether a stroke is in progress: Predict and an early Move
        // tell the alternatives apart.
        r.Call({Op::kPredict});
        if (r.twins.size() > 1) {
          Input probe = r.last ? *r.last : st[0];
          probe.event_type = EventType::kMove;
          probe.position.x += static_cast<float>(cw.speed / cw.rate_in);
          probe.time = Time(probe.time.Value() + per);
          Obs o = r.Call(UpdateOp(probe));
          if (!o.ok()) { r.last.reset(); }
        }
        if (r.twins.size() > 1) {
          // Both between strokes (the stroke begun after the Save has ended):
          // there is nothing left that could differ.
          for (auto& t : r.twins) {
            bool open = false;
            for (const Op& op : t.hist)
              open = op.kind == Op::kUpdate && op.in.event_type != EventType::kUp;
            if (open) Die("twins not told apart");
          }
          r.twins.resize(1);
        }
        r.ambiguous_save = true;  // wait for the next Save
        r.RecomputeLast();
        continue;
      }
      if (!r.last) {
        if (i >= st.size() && rng.P(.3)) break;
        in = st[0];
        if (rng.P(.5)) in.time = Time(t + rng.U(0, 3) * cw.tu);
        i = 1;
      } else {
        if (i == 0 || i >= st.size()) i = 1 % st.size();
        in = st[i++];
        if (in.event_type == EventType::kDown) in.event_type = EventType::kMove;
        if (in.event_type == EventType::kUp && rng.P(far_back ? .98 : .4)) in.event_type = EventType::kMove;
        if (in.time.Value() < r.last->time.Value() || in.time.Value() > r.last->time.Value() + 60 * per)
          in.time = Time(r.last->time.Value() + per * rng.U(.1, 3));
      }
      r.Call(UpdateOp(in));
    }
  }
}
}  // namespace vf
