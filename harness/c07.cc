// C07: determinism and independence of modelers.
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <new>
#include <thread>
#include <type_traits>
#include "gen.h"
namespace vf {
const char* kProperty = "C07";
const char* kRule =
    "Each case generates 2-6 scripts (parameters + calls), runs each alone on a modeler to record "
    "its results, then runs them again (a) in memory pre-filled with different bytes, (b) call-wise "
    "interleaved on one thread, (c) concurrently on one thread per modeler, (d) with the modeler "
    "moved to another object mid-stroke, (e) as the only modeler of a newly forked process that has "
    "never run any of the code under test. Every result must be bit-identical to the recorded one; "
    "the same binary runs under ThreadSanitizer. Non-trivial: at least two scripts with Moves ran "
    "interleaved or concurrently.";
int DirectedCases() { return 0; }
std::vector<Floor> Floors() {
  return {{"mode.memory", 20}, {"mode.interleaved", 20}, {"mode.threads", 20}, {"mode.move", 20}, {"mode.fresh_process", 20},
          {"threads.started", 60}, {"interleavings.switches", 500}, {"moves", 1000}, {"moves.assigned", 300}};
}
namespace {
struct Script {
  World w;
  std::vector<Op> ops;
  std::vector<Obs> expect;
  bool moves = false;
};
Obs Raw(StrokeModeler& m, const Op& op) {
  Obs o;
  switch (op.kind) {
    case Op::kResetP: {
      // What the caller does with its parameters afterwards is its business.
      StrokeModelParams mine = *op.params;
      o.code = m.Reset(mine).code();
      mine.wobble_smoother_params = {.is_enabled = !mine.wobble_smoother_params.is_enabled, .timeout = Duration(3), .speed_floor = 1, .speed_ceiling = 1e6};
      mine.position_modeler_params = {.spring_mass_constant = 1, .drag_constant = .1};
      mine.sampling_params = {.min_output_rate = 1e4, .end_of_stroke_stopping_distance = 1e-9, .end_of_stroke_max_iterations = 2};
      mine.stylus_state_modeler_params = {.max_input_samples = 1, .use_stroke_normal_projection = !mine.stylus_state_modeler_params.use_stroke_normal_projection, .min_input_samples = 1};
      mine.prediction_params = DisabledPredictorParams{};
      break;
    }
    case Op::kReset0: o.code = m.Reset().code(); break;
    case Op::kUpdate: o.code = m.Update(op.in, o.r).code(); break;
    case Op::kPredict: o.code = m.Predict(o.r).code(); break;
    case Op::kSave: m.Save(); break;
    case Op::kRestore: m.Restore(); break;
  }
  return o;
}
template <typename M>
bool MoveOver(M*& m, void* mem, Rng& rng) {
  if constexpr (std::is_move_constructible_v<M>) {
    // Into new memory, or over a modeler in the midst of something else.
    M* n;
    bool assigned = false;
    if constexpr (std::is_move_assignable_v<M>) {
      if (rng.P(.4)) {
        n = new (mem) M;
        std::vector<Result> r;
        World w = GenWorld(rng, WorldOpts());
        (void)n->Reset(w.p);
        StrokeOpts so;
        so.max_moves = 6;
        so.max_dt_steps = 40;
        so.up = rng.P(.5);
        for (const Input& in : GenStroke(rng, w, so)) {
          (void)n->Update(in, r);
          if (rng.P(.3)) n->Save();
          if (rng.P(.3)) (void)n->Predict(r);
        }
        *n = std::move(*m);
        assigned = true;
        COUNT("moves.assigned");
      }
    }
    if (!assigned) n = new (mem) M(std::move(*m));
    // The moved-from modeler is still one: it can be destroyed or used anew.
    if (rng.P(.3)) {
      World w = GenWorld(rng, WorldOpts());
      std::vector<Result> r;
      (void)m->Reset(w.p);
      for (const Input& in : GenStroke(rng, w, StrokeOpts())) (void)m->Update(in, r);
    }
    m->~M();
    // Nothing may still refer to where it was.
    const int fill = rng.P(.5) ? 0xff : rng.I(0, 255);
    for (size_t i = 0; i < sizeof(M); ++i) reinterpret_cast<volatile unsigned char*>(m)[i] = fill;
    m = n;
    return true;
  } else {
    return false;
  }
}
std::vector<Script> Generate(Rng& rng) {
  int n = rng.I(2, 6);
  std::vector<Script> sc(n);
  bool share = rng.P(.3);
  // Half of the groups share one feature set, so that its state is live in
  // every modeler at the same time.
  WorldOpts wo;
  if (rng.P(.3)) wo.pred = kPredKalman;
  if (rng.P(.3)) wo.wobble = kOn;
  if (rng.P(.3)) wo.loop = kOn, wo.normal = kOn;
  for (int i = 0; i < n; ++i) sc[i].w = share && i ? sc[0].w : GenWorld(rng, wo);
  for (Script& s : sc) {
    if (rng.P(.15))
      for (int n = rng.I(1, 3); n > 0; --n) s.ops.push_back({rng.Pick({Op::kRestore, Op::kSave, Op::kPredict, Op::kReset0})});
    s.ops.push_back({Op::kResetP, {}, &s.w.p});
    int strokes = rng.I(1, 2);
    for (int k = 0; k < strokes; ++k) {
      StrokeOpts so;
      so.max_moves = 14;
      so.max_dt_steps = 40;
      for (const Input& in : GenStroke(rng, s.w, so)) {
        s.ops.push_back(UpdateOp(in));
        s.moves |= in.event_type == EventType::kMove;
        if (rng.P(.3)) s.ops.push_back({Op::kPredict});
        if (rng.P(.08)) s.ops.push_back({Op::kSave});
        if (rng.P(.08)) s.ops.push_back({Op::kRestore});
      }
      s.ops.push_back({Op::kReset0});
    }
  }
  return sc;
}
// A server process forked before any code under test ran; it forks one child
// per request, which runs a single script and sends back what it observed.
struct Request { Rng rng{0}; int script = 0; };
static_assert(std::is_trivially_copyable_v<Result> && std::is_trivially_copyable_v<Request>);
void PutAll(int fd, const void* p, size_t n) {
  for (const char* c = static_cast<const char*>(p); n;) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) _exit(98);
    c += k;
    n -= k;
  }
}
bool GetAll(int fd, void* p, size_t n) {
  for (char* c = static_cast<char*>(p); n;) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
struct Zygote {
  int fd = -1;
  Zygote() {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return;
    pid_t pid = fork();
    if (pid < 0) return;
    if (pid) {
      close(sv[1]);
      fd = sv[0];
      return;
    }
    close(sv[0]);
    Request q;
    while (GetAll(sv[1], &q, sizeof q)) {
      pid_t c = fork();
      if (c == 0) {
        std::vector<Script> sc = Generate(q.rng);
        const Script& s = sc[q.script];
        StrokeModeler m;
        uint64_t n = s.ops.size();
        PutAll(sv[1], &n, sizeof n);
        for (const Op& op : s.ops) {
          Obs o = Raw(m, op);
          uint64_t h[2] = {static_cast<uint64_t>(o.code), o.r.size()};
          PutAll(sv[1], h, sizeof h);
          PutAll(sv[1], o.r.data(), o.r.size() * sizeof(Result));
        }
        _exit(0);
      }
      int st = 0;
      if (c < 0) _exit(98);
      waitpid(c, &st, 0);
      if (st) _exit(98);
    }
    _exit(0);
  }
  std::vector<Obs> Run(const Request& q) {
    if (fd < 0) Die("no fresh-process server");
    PutAll(fd, &q, sizeof q);
    uint64_t n;
    if (!GetAll(fd, &n, sizeof n)) Die("fresh process failed");
    std::vector<Obs> r(n);
    for (Obs& o : r) {
      uint64_t h[2];
      if (!GetAll(fd, h, sizeof h)) Die("fresh process failed");
      o.code = static_cast<absl::StatusCode>(h[0]);
      o.r.resize(h[1]);
      if (!GetAll(fd, o.r.data(), h[1] * sizeof(Result))) Die("fresh process failed");
    }
    return r;
  }
} zygote;
struct Slab {
  Slab(int fill, Rng& rng) {
    mem = static_cast<unsigned char*>(::operator new(sizeof(StrokeModeler), std::align_val_t(alignof(StrokeModeler))));
    for (size_t i = 0; i < sizeof(StrokeModeler); ++i)
      mem[i] = fill >= 0 ? fill : static_cast<unsigned char>(rng.Next());
  }
  ~Slab() { ::operator delete(mem, std::align_val_t(alignof(StrokeModeler))); }
  unsigned char* mem;
};
}  // namespace
void RunCase(uint64_t, Rng rng) {
  Request q{rng, 0};
  std::vector<Script> sc = Generate(rng);
  int n = sc.size();
  int with_moves = 0;
  for (Script& s : sc) {
    with_moves += s.moves;
    Mon m("alone");
    for (const Op& op : s.ops) s.expect.push_back(m.Do(op));
    for (const Obs& o : s.expect) Observe(HashObs(o));
  }
  auto check = [&](const Script& s, size_t k, const Obs& o, const char* how) {
    ExpectSame(how, o, s.expect[k], Sf("%s, call %zu (%s): repeated (A) vs recorded alone (B)", how, k, OpName(s.ops[k].kind)));
  };
  if (rng.P(.25)) {
    COUNT("mode.fresh_process");
    q.script = rng.I(0, n - 1);
    const Script& s = sc[q.script];
    std::vector<Obs> got = zygote.Run(q);
    if (got.size() != s.ops.size()) Die("fresh process ran another script");
    for (size_t k = 0; k < got.size(); ++k) check(s, k, got[k], "fresh process");
  }
  int mode = rng.I(0, 3);
  if (mode == 0) {
    COUNT("mode.memory");
    for (Script& s : sc) {
      for (int fill : {0, 0xff, -1, 0x01}) {
        Slab slab(fill, rng);
        // Default-initialised on purpose: members without initialisers would
        // keep the fill bytes.
        StrokeModeler* m = new (slab.mem) StrokeModeler;
        struct D { StrokeModeler* m; ~D() { m->~StrokeModeler(); } } d{m};
        for (size_t k = 0; k < s.ops.size(); ++k) check(s, k, Raw(*m, s.ops[k]), "memory");
      }
    }
    NonTrivial();
  } else if (mode == 1) {
    COUNT("mode.interleaved");
    std::vector<std::unique_ptr<StrokeModeler>> ms;
    std::vector<size_t> at(n, 0);
    for (int i = 0; i < n; ++i) ms.push_back(std::make_unique<StrokeModeler>());
    int prev = -1;
    for (;;) {
      std::vector<int> live;
      for (int i = 0; i < n; ++i) if (at[i] < sc[i].ops.size()) live.push_back(i);
      if (live.empty()) break;
      int i = rng.Of(live);
      if (i != prev) COUNT("interleavings.switches");
      prev = i;
      check(sc[i], at[i], Raw(*ms[i], sc[i].ops[at[i]]), "interleaved");
      ++at[i];
    }
    if (with_moves >= 2) NonTrivial();
  } else if (mode == 2) {
    COUNT("mode.threads");
    std::vector<std::vector<Obs>> got(n);
    std::vector<std::thread> th;
    std::atomic<int> ready{0};
    for (int i = 0; i < n; ++i) {
      COUNT("threads.started");
      th.emplace_back([&, i] {
        ready.fetch_add(1);
        while (ready.load() < n) std::this_thread::yield();
        StrokeModeler m;
        for (int rep = 0; rep < 3; ++rep) {
          std::vector<Obs> g;
          bool fresh = rep == 0;
          for (size_t k = 0; k < sc[i].ops.size(); ++k) {
            // What precedes the first Reset says nothing about a used modeler.
            fresh |= sc[i].ops[k].kind == Op::kResetP;
            g.push_back(fresh ? Raw(m, sc[i].ops[k]) : sc[i].expect[k]);
          }
          got[i] = std::move(g);
        }
      });
    }
    for (auto& t : th) t.join();
    for (int i = 0; i < n; ++i)
      for (size_t k = 0; k < got[i].size(); ++k) check(sc[i], k, got[i][k], "threads");
    if (with_moves >= 2) NonTrivial();
  } else {
    COUNT("mode.move");
    for (Script& s : sc) {
      Slab s1(-1, rng), s2(0xff, rng);
      StrokeModeler* m = new (s1.mem) StrokeModeler;
      struct D { StrokeModeler*& m; ~D() { m->~StrokeModeler(); } } d{m};
      for (size_t k = 0; k < s.ops.size(); ++k) {
        if (rng.P(.15)) {
          void* to = m == reinterpret_cast<StrokeModeler*>(s1.mem) ? s2.mem : s1.mem;
          if (MoveOver(m, to, rng)) COUNT("moves");
        }
        check(s, k, Raw(*m, s.ops[k]), "move");
      }
    }
    NonTrivial();
  }
}
}  // namespace vf
