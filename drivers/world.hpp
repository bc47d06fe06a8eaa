// The world the specification talks about, made of the real library: path
// builders, generators (each Generate() on its own thread, stepped through the
// scripted solver), a virtual clock, and observations of all of it.
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include <sleipnir/optimization/OptimizationProblem.hpp>
#include <trajopt/SwerveTrajectoryGenerator.hpp>
#include <trajopt/path/SwervePathBuilder.hpp>
#include <trajopt/util/Cancellation.hpp>

#include "common.hpp"

/// Virtual time in nanoseconds; the std clocks of this program return it.
std::atomic<int64_t>& VirtualNow();
/// A clock of this thread's own (none: the one all others share).
std::atomic<int64_t>*& ClockOfThread();

namespace tj = trajopt;

/// Probes are judged up to this many times the error that rounding may have made.
inline constexpr double kSlack = 1e5;

/// Where a decision variable shows up in a solution.
struct Slot {
  int field;   // 0..9: x y c s vx vy w ax ay al; 10: fx; 11: fy; 12: dt
  int sample;  // sample (or segment for dt)
  int module;
};
/// All slots of a layout in a canonical order, and for each the ordinal of the
/// decision variable found there (-1: none).
struct Layout {
  std::vector<size_t> counts;
  size_t modules = 0;
  std::vector<Slot> slots;
  std::vector<int> var;
  size_t nvars = 0;
  bool ok = true;
};

inline std::vector<Slot> CanonicalSlots(const std::vector<size_t>& counts, size_t modules) {
  std::vector<Slot> s;
  size_t n = 1;
  for (auto c : counts) n += c;
  for (int f = 0; f < 10; ++f)
    for (size_t i = 0; i < n; ++i) s.push_back({f, int(i), 0});
  for (int f = 10; f < 12; ++f)
    for (size_t i = 0; i < n; ++i)
      for (size_t m = 0; m < modules; ++m) s.push_back({f, int(i), int(m)});
  for (size_t g = 0; g < counts.size(); ++g) s.push_back({12, int(g), 0});
  return s;
}

/// Value of a solution at a slot; NaN if the solution has no such entry.
inline double SolutionAt(const tj::SwerveSolution& sol, const std::vector<size_t>& counts, const Slot& s) {
  auto get = [](const std::vector<double>& v, size_t i) { return i < v.size() ? v[i] : std::nan(""); };
  switch (s.field) {
    case 0: return get(sol.x, s.sample);
    case 1: return get(sol.y, s.sample);
    case 2: return get(sol.thetacos, s.sample);
    case 3: return get(sol.thetasin, s.sample);
    case 4: return get(sol.vx, s.sample);
    case 5: return get(sol.vy, s.sample);
    case 6: return get(sol.omega, s.sample);
    case 7: return get(sol.ax, s.sample);
    case 8: return get(sol.ay, s.sample);
    case 9: return get(sol.alpha, s.sample);
    case 10: return size_t(s.sample) < sol.moduleFX.size() ? get(sol.moduleFX[s.sample], s.module) : std::nan("");
    case 11: return size_t(s.sample) < sol.moduleFY.size() ? get(sol.moduleFY[s.sample], s.module) : std::nan("");
    default: {
      size_t off = 0;
      for (int g = 0; g < s.sample; ++g) off += counts[g];
      return get(sol.dt, off);
    }
  }
}

struct SolveHookGuard {
  explicit SolveHookGuard(sleipnir::shim::Solver s) : old{sleipnir::shim::SolveHook()} {
    sleipnir::shim::SolveHook() = std::move(s);
  }
  ~SolveHookGuard() { sleipnir::shim::SolveHook() = old; }
  sleipnir::shim::Solver old;
};

/// Finds, through the public interface only, which decision variable is
/// reported where: a private generator of the same layout is "solved" with
/// every variable set to a unique number.
inline Layout MakeLayout(const std::vector<size_t>& counts, size_t modules) {
  Layout L;
  L.counts = counts;
  L.modules = modules;
  L.slots = CanonicalSlots(counts, modules);
  L.var.assign(L.slots.size(), -1);
  int flag = tj::GetCancellationFlag();
  tj::SwervePathBuilder b;
  for (size_t i = 0; i <= counts.size(); ++i) b.WptInitialGuessPoint(i, tj::Pose2d{0.0, 0.0, {0.0}});
  b.ControlIntervalCounts(std::vector<size_t>(counts));
  tj::SwerveDrivetrain d{1.0, 1.0, {}};
  for (size_t m = 0; m < modules; ++m)
    d.modules.push_back(tj::SwerveModule{{1.0 + m, 2.0 + 3.0 * m}, 1.0, 1.0, 1.0});
  b.SetDrivetrain(d);
  size_t nv = 0;
  SolveHookGuard guard{[&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    auto& v = p.shim_vars();
    nv = v.size();
    for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(double(i) + 1.0);
    return sleipnir::SolverStatus{};
  }};
  tj::SwerveTrajectoryGenerator g{b};
  auto r = g.Generate();
  tj::GetCancellationFlag() = flag;
  L.nvars = nv;
  if (!r.has_value()) { L.ok = false; return L; }
  for (size_t k = 0; k < L.slots.size(); ++k) {
    double d0 = SolutionAt(r.value(), counts, L.slots[k]);
    if (!std::isfinite(d0) || d0 < 1 || d0 > double(nv) || d0 != std::floor(d0)) { L.ok = false; continue; }
    L.var[k] = int(d0) - 1;
  }
  std::vector<int> seen(nv, 0);
  for (int v : L.var) if (v >= 0 && seen[v]++) L.ok = false;
  return L;
}

/// A generation of its own, begun and ended within another one's callback,
/// while (for it) time passes.
inline void Nest() {
  const int flag = tj::GetCancellationFlag();
  const int64_t now = VirtualNow();
  tj::SwervePathBuilder b;
  b.WptInitialGuessPoint(1, tj::Pose2d{1.0, 2.0, {3.0}});
  b.ControlIntervalCounts({2});
  b.AddIntermediateCallback([](tj::SwerveSolution&, int64_t) {});
  SolveHookGuard guard{[&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    for (int n = 0; n < 3; ++n) {
      p.shim_iterate({});
      VirtualNow() += 20'000'000;
    }
    return sleipnir::SolverStatus{};
  }};
  tj::SwerveTrajectoryGenerator g{b, 77};
  (void)g.Generate();
  VirtualNow() = now;
  tj::GetCancellationFlag() = flag;
}

/// Threads that one job after the other runs on: as in an application that
/// keeps its own, a generation may meet what an earlier one left there.
class Crew {
 public:
  struct Task {
    std::mutex mu;
    std::condition_variable cv;
    bool done = false;
  };
  /// A job under way, used like a std::thread.
  class Handle {
   public:
    bool joinable() const { return t != nullptr; }
    void join() {
      std::unique_lock lk{t->mu};
      t->cv.wait(lk, [&] { return t->done; });
      lk.unlock();
      t.reset();
    }
    std::shared_ptr<Task> t;
  };
  static Handle Go(std::function<void()> job) {
    static auto& crew = *new Crew;
    Handle h;
    h.t = std::make_shared<Task>();
    Member* m = nullptr;
    {
      std::scoped_lock lk{crew.mu};
      if (!crew.idle.empty()) m = crew.idle.back(), crew.idle.pop_back();
    }
    if (!m) {
      m = new Member;
      std::thread{[m] {
        while (true) {
          std::unique_lock lk{m->mu};
          m->cv.wait(lk, [&] { return m->task != nullptr; });
          lk.unlock();
          m->job();
          m->job = nullptr;
          auto t = std::move(m->task);
          m->task = nullptr;
          {
            std::scoped_lock idle{crew.mu};
            crew.idle.push_back(m);
          }
          std::scoped_lock done{t->mu};
          t->done = true;
          t->cv.notify_all();
        }
      }}.detach();
    }
    std::scoped_lock lk{m->mu};
    m->job = std::move(job);
    m->task = h.t;
    m->cv.notify_all();
    return h;
  }

 private:
  struct Member {
    std::mutex mu;
    std::condition_variable cv;
    std::function<void()> job;
    std::shared_ptr<Task> task;
  };
  std::mutex mu;
  std::vector<Member*> idle;
};

/// A generator and the thread its Generate() runs on.
struct Gen {
  std::unique_ptr<tj::SwerveTrajectoryGenerator> gen;
  std::vector<size_t> counts;
  size_t modules = 0;
  tj::SwerveSolution guess;  // the builder's guess when the generator was made
  int64_t handle = 0;
  Crew::Handle th;
  std::mutex mu;
  std::condition_variable cv;
  // protocol: main sets `cmd`, the generator thread answers with `state`
  enum State { kIdle, kSolving, kDone } state = kIdle;
  std::function<void()> job;  // run on the generator thread while solving
  bool jobReady = false, jobDone = false, finish = false;
  sleipnir::SolverStatus status;
  sleipnir::OptimizationProblem* problem = nullptr;
  sleipnir::SolverConfig config;
  bool hasResult = false, isValue = false;
  std::string error;
  tj::SwerveSolution solution;
  std::string exc;
};

struct Delivery { int cb; int64_t handle; long tag; };

struct World {
  virtual ~World() = default;
  std::map<int, tj::SwervePathBuilder> b;
  virtual tj::SwervePathBuilder& BuilderAt(const Value& cmd) { return b[int(cmd.i("b", 0))]; }
  // units of the numbers in commands and observations: lengths 1/ul metres,
  // times ut seconds, masses um kilograms
  double ul = 1, ut = 1, um = 1;
  double Length(const Value& v) const { return Num(v) / ul; }
  std::map<int, std::unique_ptr<Gen>> g;
  std::map<int, tj::SwerveSolution> kept;
  std::map<std::string, Layout> layouts;
  std::mutex dmu;
  std::vector<std::pair<Delivery, tj::SwerveSolution>> deliveries;
  int iterTag = 0;

  const Layout& LayoutFor(const std::vector<size_t>& counts, size_t modules) {
    std::string key = std::to_string(modules) + ":";
    for (auto c : counts) key += std::to_string(c) + ",";
    auto it = layouts.find(key);
    if (it == layouts.end()) it = layouts.emplace(key, MakeLayout(counts, modules)).first;
    return it->second;
  }

  tj::Pose2d Pose(const Value& v) const {
    return tj::Pose2d{Length(v.at(0)), Length(v.at(1)), tj::Rotation2d{Num(v.at(2))}};
  }
  std::vector<tj::Translation2d> Points(const Value& v) const {
    std::vector<tj::Translation2d> r;
    for (auto& p : v.a) r.emplace_back(Length(p.at(0)), Length(p.at(1)));
    return r;
  }
  tj::Constraint MakeConstraint(const Value& c) const {
    const std::string& t = c["t"].s;
    auto T = [&](const char* k) { return tj::Translation2d{Length(c[k].at(0)), Length(c[k].at(1))}; };
    if (t == "angvel") return tj::AngularVelocityMaxMagnitudeConstraint{Num(c["m"]) / ut};
    if (t == "linvel") return tj::LinearVelocityMaxMagnitudeConstraint{Length(c["m"]) / ut};
    if (t == "linacc") return tj::LinearAccelerationMaxMagnitudeConstraint{Length(c["m"]) / (ut * ut)};
    if (t == "veldir") return tj::LinearVelocityDirectionConstraint{Num(c["a"])};
    if (t == "pointat") return tj::PointAtConstraint{T("f"), Num(c["m"])};
    if (t == "pp") return tj::PointPointConstraint{T("r"), T("f"), Length(c["m"])};
    if (t == "lp") return tj::LinePointConstraint{T("r"), T("r2"), T("f"), Length(c["m"])};
    if (t == "pl") return tj::PointLineConstraint{T("r"), T("f"), T("f2"), Length(c["m"])};
    if (t == "pose") return tj::PoseEqualityConstraint{Length(c["x"]), Length(c["y"]), Num(c["h"])};
    if (t == "trans") return tj::TranslationEqualityConstraint{Length(c["x"]), Length(c["y"])};
    throw std::runtime_error{"driver: constraint type " + t};
  }
  tj::SwerveDrivetrain Drive(const Value& v) const {
    // with "ang", lengths are in units of 1/phi, the moment of inertia of 1/phi^2
    double phi = v.has("ang") ? std::atan2(Num(v["ang"].at(1)), Num(v["ang"].at(0))) : 1.0;
    const double l = 1 / ul;
    tj::SwerveDrivetrain d{Num(v["mass"]) * um, Num(v["moi"]) / phi / phi * (um * l * l), {}};
    for (auto& m : v["mods"].a)
      d.modules.push_back(tj::SwerveModule{{Num(m["x"]) / phi * l, Num(m["y"]) / phi * l}, Num(m["r"]) * l, Num(m["w"]) / ut,
                                           Num(m["t"]) * (um * l * l / (ut * ut))});
    return d;
  }

  /// Assigns a trajectory to the decision variables of problem p.
  bool Assign(sleipnir::OptimizationProblem& p, const Layout& L, const Value& t) {
    static const char* names[] = {"x", "y", "c", "s", "vx", "vy", "w", "ax", "ay", "al", "fx", "fy", "dt"};
    if (!L.ok || p.shim_vars().size() != L.nvars) return false;
    double uc = t.has("uc") ? Num(t["uc"]) : 1.0;             // unit of c, s
    double uw = 1.0;                                          // unit of w, al
    if (t.has("q") && t["q"].b) uw = std::numbers::pi / 2;
    if (t.has("ang")) uw = std::atan2(Num(t["ang"].at(1)), Num(t["ang"].at(0)));
    double ud = t.has("ud") ? Num(t["ud"]) : 1.0;             // unit of lengths and forces
    const double l = 1 / (ud * ul);
    // x y  c s  vx vy  w  ax ay  al  fx fy  dt
    const double unit[] = {l, l, 1 / uc, 1 / uc, l / ut, l / ut, uw / ut, l / (ut * ut), l / (ut * ut), uw / (ut * ut),
                           um * l / (ut * ut), um * l / (ut * ut), ut};
    for (size_t k = 0; k < L.slots.size(); ++k) {
      const Slot& s = L.slots[k];
      if (!t.has(names[s.field])) continue;
      const Value& arr = t[names[s.field]];
      double v;
      if (s.field == 10 || s.field == 11) v = Num(arr.at(s.sample).at(s.module));
      else v = Num(arr.at(s.sample));
      v *= unit[s.field];
      p.shim_vars().at(L.var[k]).SetValue(v);
    }
    return true;
  }

  struct Verdict { long adm; double worst; };
  /// 1: all constraints hold, 0: some constraint does not (or has no finite
  /// value, which the real solver refuses).
  Verdict Admits(sleipnir::OptimizationProblem& p) {
    double worst = 0;  // in units of what is let pass
    bool nan = false;
    auto judge = [&](const sleipnir::Variable& c, double off) {
      if (!std::isfinite(off)) nan = true;
      else if (off > 0) worst = std::max(worst, off / (kSlack * c.shim_error()));
    };
    for (auto& c : p.shim_eq()) judge(c, std::abs(c.Value()));
    for (auto& c : p.shim_ineq()) judge(c, -c.Value());
    if (nan) return {0, std::nan("")};
    return {worst <= 1 ? 1 : 0, worst};
  }

  void BuilderOp(const Value& c) {
    auto& B = BuilderAt(c);
    const std::string& op = c["op"].s;
    auto I = [&](const char* k) { return static_cast<size_t>(c[k].i()); };
    if (op == "pose_wpt") B.PoseWpt(I("i"), Length(c["x"]), Length(c["y"]), Num(c["h"]));
    else if (op == "trans_wpt") {
      if (c.has("h")) B.TranslationWpt(I("i"), Length(c["x"]), Length(c["y"]), Num(c["h"]));
      else B.TranslationWpt(I("i"), Length(c["x"]), Length(c["y"]));
    } else if (op == "wpt_guess") B.WptInitialGuessPoint(I("i"), Pose(c["p"]));
    else if (op == "seg_guess") {
      std::vector<tj::Pose2d> v;
      for (auto& p : c["pts"].a) v.push_back(Pose(p));
      B.SgmtInitialGuessPoints(I("i"), v);
    } else if (op == "bumpers") B.AddBumpers(tj::Bumpers{Length(c["sd"]), Points(c["pts"])});
    else if (op == "wpt_obs") B.WptObstacle(I("i"), tj::Obstacle{Length(c["sd"]), Points(c["pts"])});
    else if (op == "seg_obs") B.SgmtObstacle(I("i"), I("j"), tj::Obstacle{Length(c["sd"]), Points(c["pts"])});
    else if (op == "wpt_con") B.WptConstraint(I("i"), MakeConstraint(c["c"]));
    else if (op == "seg_con") B.SgmtConstraint(I("i"), I("j"), MakeConstraint(c["c"]));
    else if (op == "counts") {
      std::vector<size_t> v;
      for (auto& n : c["ns"].a) v.push_back(n.i());
      B.ControlIntervalCounts(std::move(v));
    } else if (op == "drive") B.SetDrivetrain(Drive(c));
    else if (op == "cb") {
      int id = int(c["id"].i());
      B.AddIntermediateCallback([this, id, takes = int64_t(c.i("takes", 0)), asks = c.has("asks") && c["asks"].b,
                                 nests = c.has("nests") && c["nests"].b](tj::SwerveSolution& s, int64_t h) {
        if (nests) Nest();
        std::scoped_lock lk{dmu};
        deliveries.push_back({Delivery{id, h, -1}, s});
        VirtualNow() += takes * 100'000;
        if (asks) tj::GetCancellationFlag() = 1;
      });
    } else if (op == "copy_builder") {
      auto from = b[int(c["from"].i())];
      b[int(c.i("b", 0))] = from;
    } else throw std::runtime_error{"driver: unknown op " + op};
  }

  // ---------- generators ----------
  Value NewGen(const Value& c) {
    int id = int(c["g"].i());
    auto& B = BuilderAt(c);
    auto G = std::make_unique<Gen>();
    G->counts = B.GetControlIntervalCounts();
    G->modules = B.GetPath().drivetrain.modules.size();
    G->guess = B.CalculateInitialGuess();
    LayoutFor(G->counts, G->modules);
    if (c.has("handle")) {
      G->handle = Handle(c["handle"].i());
      G->gen = std::make_unique<tj::SwerveTrajectoryGenerator>(B, G->handle);
    } else {
      G->gen = std::make_unique<tj::SwerveTrajectoryGenerator>(B);
    }
    g[id] = std::move(G);
    return Value::Obj();
  }

  /// The generation itself, on the generator's thread.
  virtual void Run(Gen& G, bool diag) {
    auto r = G.gen->Generate(diag);
    std::scoped_lock lk{G.mu};
    G.hasResult = true;
    G.isValue = r.has_value();
    if (r.has_value()) G.solution = r.value();
    else G.error = r.error();
  }

  /// Starts Generate() on a thread and waits until the solver is entered (or
  /// generation returned without it).
  Value Start(Gen& G, bool diag) {
    G.state = Gen::kIdle;
    G.finish = G.jobReady = G.jobDone = false;
    G.hasResult = G.isValue = false;
    G.error.clear();
    G.exc.clear();
    if (G.th.joinable()) G.th.join();
    G.th = Crew::Go([this, &G, diag, clock = ClockOfThread()] {
      ClockOfThread() = clock;
      sleipnir::shim::SolveHook() = [&G](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& cfg) {
        std::unique_lock lk{G.mu};
        G.problem = &p;
        G.config = cfg;
        G.state = Gen::kSolving;
        G.cv.notify_all();
        while (true) {
          G.cv.wait(lk, [&] { return G.jobReady || G.finish; });
          if (G.finish) break;
          G.jobReady = false;
          G.job();
          G.jobDone = true;
          G.cv.notify_all();
        }
        G.problem = nullptr;
        return G.status;
      };
      try {
        Run(G, diag);
      } catch (const std::exception& e) {
        G.exc = e.what();
      }
      std::scoped_lock lk{G.mu};
      G.state = Gen::kDone;
      G.cv.notify_all();
    });
    std::unique_lock lk{G.mu};
    G.cv.wait(lk, [&] { return G.state != Gen::kIdle; });
    Value o = Value::Obj();
    o.set("entered", Value{G.state == Gen::kSolving});
    if (G.state == Gen::kSolving) {
      o.set("diag", Value{G.config.diagnostics});
      o.set("tol9", Fx(G.config.tolerance, 1e9));
    }
    return o;
  }

  void OnGen(Gen& G, std::function<void()> job) {
    std::unique_lock lk{G.mu};
    if (G.state != Gen::kSolving) throw std::runtime_error{"driver: generator is not solving"};
    G.job = std::move(job);
    G.jobDone = false;
    G.jobReady = true;
    G.cv.notify_all();
    G.cv.wait(lk, [&] { return G.jobDone; });
  }

  // (needs more than single precision)
  static constexpr double kTag = 0x1p32;
  static double Pattern(long tag, size_t k) { return double(tag) * kTag + double(k) + 1.0; }
  void SetPattern(Gen& G, long tag) {
    const Layout& L = LayoutFor(G.counts, G.modules);
    auto& v = G.problem->shim_vars();
    for (size_t k = 0; k < L.slots.size(); ++k)
      if (L.var[k] >= 0 && size_t(L.var[k]) < v.size()) v[L.var[k]].SetValue(Pattern(tag, k));
  }
  /// The tag whose pattern the solution shows, or -1; checks every entry and
  /// that there are no others.
  long TagOf(const tj::SwerveSolution& s, const std::vector<size_t>& counts, size_t modules) {
    const Layout& L = LayoutFor(counts, modules);
    if (s.x.empty()) return -1;
    double t = (s.x[0] - 1.0) / kTag;
    if (!std::isfinite(t) || t != std::floor(t) || std::abs(t) > 1e6) return -1;
    long tag = long(t);
    for (size_t k = 0; k < L.slots.size(); ++k)
      if (SolutionAt(s, counts, L.slots[k]) != Pattern(tag, k)) return -1;
    size_t n = 1, tot = 0;
    for (auto c : counts) n += c, tot += c;
    for (auto* v : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha})
      if (v->size() != n) return -1;
    if (s.dt.size() != tot || s.moduleFX.size() != n || s.moduleFY.size() != n) return -1;
    size_t seg = 0, in = 0;
    for (size_t i = 0; i < tot; ++i) {
      while (in >= counts[seg]) ++seg, in = 0;
      ++in;
      // slot index of dt of this segment
      if (s.dt[i] != Pattern(tag, L.slots.size() - counts.size() + seg)) return -1;
    }
    for (size_t i = 0; i < n; ++i)
      if (s.moduleFX[i].size() != modules || s.moduleFY[i].size() != modules) return -1;
    return tag;
  }

  Value Iterate(Gen& G, long tag) {
    Value o = Value::Obj();
    bool stop = false, same = true;
    size_t before;
    { std::scoped_lock lk{dmu}; before = deliveries.size(); }
    OnGen(G, [&] {
      SetPattern(G, tag);
      sleipnir::SolverIterationInfo info;
      info.iteration = int(tag);
      auto values = [&] {
        std::vector<double> r;
        for (auto& v : G.problem->shim_vars()) r.push_back(v.Value());
        return r;
      };
      auto was = values();
      stop = G.problem->shim_iterate(info);
      same = values() == was;
    });
    o.set("stop", Value{stop});
    o.set("same", Value{same});
    Value dl = Value::Arr();
    std::scoped_lock lk{dmu};
    for (size_t i = before; i < deliveries.size(); ++i) {
      auto& [d, s] = deliveries[i];
      Value x = Value::Obj();
      x.set("cb", Value{d.cb});
      x.set("h", HandleToken(d.handle));
      x.set("tag", Value{TagOf(s, G.counts, G.modules)});
      dl.push(x);
    }
    o.set("del", dl);
    return o;
  }

  Value Finish(Gen& G, int code, double cost = 0, int kind = 0) {
    {
      std::unique_lock lk{G.mu};
      G.status.exitCondition = static_cast<sleipnir::SolverExitCondition>(code);
      G.status.cost = cost;
      G.status.costFunctionType = G.status.equalityConstraintType = G.status.inequalityConstraintType =
          static_cast<sleipnir::ExpressionType>(kind);
      G.finish = true;
      G.cv.notify_all();
      G.cv.wait(lk, [&] { return G.state == Gen::kDone; });
    }
    G.th.join();
    return Ending(G);
  }

  /// What generation returned.
  Value Ending(Gen& G) {
    Value o = Value::Obj();
    if (!G.exc.empty()) { o.set("res", Value{"exc"}); o.set("tag", Value{-1}); o.set("msg", Value{G.exc}); return o; }
    o.set("res", Value{G.isValue ? "ok" : "err"});
    o.set("tag", Value{G.isValue ? TagOf(G.solution, G.counts, G.modules) : -1L});
    // which outcomes' messages the failure text equals
    Value m = Value::Arr();
    if (!G.isValue)
      for (int e = -7; e <= 2; ++e)
        if (G.error == std::string{sleipnir::ToMessage(static_cast<sleipnir::SolverExitCondition>(e))}) m.push(Value{e});
    o.set("msgs", m);
    return o;
  }

  /// All these generators are solved at once, each as fast as it can, until
  /// it is told to stop; meanwhile this thread asks for cancellation.
  Value Storm(const std::vector<int>& ids, long when) {
    std::atomic<int> entered{0};
    std::atomic<long> polls{0};
    std::atomic<bool> asking{false}, asked{false};
    std::vector<std::thread> threads;
    std::vector<char> late(ids.size(), 0), early(ids.size(), 0);
    for (size_t k = 0; k < ids.size(); ++k) {
      Gen& G = *g.at(ids[k]);
      if (G.th.joinable()) G.th.join();
      G.hasResult = G.isValue = false;
      G.error.clear();
      G.exc.clear();
      threads.emplace_back([&, k, clock = ClockOfThread()] {
        ClockOfThread() = clock;
        Gen& G = *g.at(ids[k]);
        bool in = false;
        sleipnir::shim::SolveHook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
          in = true;
          ++entered;
          while (entered < int(ids.size())) std::this_thread::yield();
          sleipnir::SolverStatus s;
          s.exitCondition = sleipnir::SolverExitCondition::kMaxIterationsExceeded;
          for (long n = 0;; ++n) {
            bool after = asked;
            ++polls;
            if (n % 64 == 0 && n < 6400) VirtualNow() += 20'000'000;
            if (p.shim_iterate({})) {
              early[k] = !asking;
              s.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
              break;
            }
            if (after) { late[k] = 1; break; }
          }
          return s;
        };
        try {
          Run(G, false);
        } catch (const std::exception& e) {
          G.exc = e.what();
        }
        if (!in) ++entered;
      });
    }
    while (entered < int(ids.size())) std::this_thread::yield();
    while (polls < when) std::this_thread::yield();
    asking = true;
    tj::GetCancellationFlag() = 1;
    asked = true;
    for (auto& t : threads) t.join();
    Value all = Value::Arr();
    for (size_t k = 0; k < ids.size(); ++k) {
      Value o = Ending(*g.at(ids[k]));
      o.set("late", Value{bool(late[k])});
      o.set("early", Value{bool(early[k])});
      all.push(o);
    }
    Value o = Value::Obj();
    o.set("ends", all);
    return o;
  }

  /// Runs Generate() to the solver, applies f to the problem there, and ends
  /// the solve as failed.
  void InSolver(Gen& G, const std::function<void(sleipnir::OptimizationProblem&)>& f) {
    bool solving = G.state == Gen::kSolving;
    if (!solving) Start(G, false);
    if (G.state != Gen::kSolving) throw std::runtime_error{"driver: solver was not entered"};
    OnGen(G, [&] { f(*G.problem); });
    if (!solving) Finish(G, -2);
  }

  Value Probe(Gen& G, const Value& trajs) {
    const Layout& L = LayoutFor(G.counts, G.modules);
    Value adm = Value::Arr(), worst = Value::Arr();
    InSolver(G, [&](sleipnir::OptimizationProblem& p) {
      std::vector<double> old;
      for (auto& v : p.shim_vars()) old.push_back(v.Value());
      for (auto& t : trajs.a) {
        if (!Assign(p, L, t)) { adm.push(Value{-1}); worst.push(Value{kNaN}); continue; }
        auto v = Admits(p);
        adm.push(Value{v.adm});
        worst.push(Fx(v.worst));
      }
      for (size_t i = 0; i < old.size(); ++i) p.shim_vars()[i].SetValue(old[i]);
    });
    Value o = Value::Obj();
    o.set("adm", adm);
    o.set("worst", worst);
    return o;
  }

  Value Cost(Gen& G, const Value& trajs) {
    const Layout& L = LayoutFor(G.counts, G.modules);
    Value cost = Value::Arr();
    InSolver(G, [&](sleipnir::OptimizationProblem& p) {
      for (auto& t : trajs.a) {
        if (!Assign(p, L, t) || !p.shim_cost()) { cost.push(Value{kNaN}); continue; }
        cost.push(Fx(p.shim_cost()->Value(), 1e3 / ut));
      }
    });
    Value o = Value::Obj();
    o.set("cost", cost);
    return o;
  }

  /// Values of the decision variables when the solver is entered.
  Value StartPoint(Gen& G) {
    const Layout& L = LayoutFor(G.counts, G.modules);
    static const char* names[] = {"x", "y", "c", "s", "vx", "vy", "w", "ax", "ay", "al", "fx", "fy", "dt"};
    Value o = Value::Obj();
    bool finite = true;
    InSolver(G, [&](sleipnir::OptimizationProblem& p) {
      std::vector<Value> arr(13, Value::Arr());
      for (size_t k = 0; k < L.slots.size(); ++k) {
        const Slot& s = L.slots[k];
        if (s.field == 10 || s.field == 11) continue;
        const double unit = 1e6 * (s.field < 2 || s.field == 4 || s.field == 5 || s.field == 7 || s.field == 8 ? ul : 1);
        Value v = (L.var[k] >= 0 && size_t(L.var[k]) < p.shim_vars().size()) ? Fx(p.shim_vars()[L.var[k]].Value(), unit) : Value{kNaN};
        arr[s.field].push(v);
      }
      for (int f = 0; f < 13; ++f) if (f != 10 && f != 11) o.set(names[f], arr[f]);
      for (auto& v : p.shim_vars()) finite = finite && std::isfinite(v.Value());
    });
    o.set("finite", Value{finite});
    o.set("gx", FxArr(G.guess.x, 1e6 * ul)); o.set("gy", FxArr(G.guess.y, 1e6 * ul));
    o.set("gc", FxArr(G.guess.thetacos)); o.set("gs", FxArr(G.guess.thetasin));
    o.set("gh", FxArr(Degrees(G.guess), 1e3));
    return o;
  }

  static std::vector<double> Degrees(const tj::SwerveSolution& s) {
    std::vector<double> a;
    for (size_t i = 0; i < s.thetacos.size() && i < s.thetasin.size(); ++i)
      a.push_back(std::atan2(s.thetasin[i], s.thetacos[i]) * 180.0 / std::numbers::pi);
    return a;
  }
  /// Sizes of a solution's arrays.
  static Value Shape(const tj::SwerveSolution& s) {
    Value o = Value::Obj();
    Value a = Value::Arr();
    for (auto* v : {&s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha}) a.push(Value{v->size()});
    o.set("arr", a);
    o.set("dt", Value{s.dt.size()});
    Value fx = Value::Arr(), fy = Value::Arr();
    for (auto& f : s.moduleFX) fx.push(Value{f.size()});
    for (auto& f : s.moduleFY) fy.push(Value{f.size()});
    o.set("fx", fx);
    o.set("fy", fy);
    return o;
  }
  static Value DumpSolution(const tj::SwerveSolution& s) {
    Value o = Value::Obj();
    o.set("dt", ExactArr(s.dt, 1));
    o.set("x", ExactArr(s.x, 1)); o.set("y", ExactArr(s.y, 1));
    o.set("c", ExactArr(s.thetacos, 1)); o.set("s", ExactArr(s.thetasin, 1));
    o.set("vx", ExactArr(s.vx, 1)); o.set("vy", ExactArr(s.vy, 1)); o.set("w", ExactArr(s.omega, 1));
    o.set("ax", ExactArr(s.ax, 1)); o.set("ay", ExactArr(s.ay, 1)); o.set("al", ExactArr(s.alpha, 1));
    Value fx = Value::Arr(), fy = Value::Arr();
    for (auto& f : s.moduleFX) fx.push(ExactArr(f, 1));
    for (auto& f : s.moduleFY) fy.push(ExactArr(f, 1));
    o.set("fx", fx); o.set("fy", fy);
    return o;
  }

  /// Is a state admitted by one constraint alone?
  bool Accepts(const tj::Constraint& con, double x, double y, double c, double s, double vx, double vy, double w,
                      double ax, double ay, double al) {
    sleipnir::OptimizationProblem p;
    tj::Pose2v pose{sleipnir::Variable{x / ul}, sleipnir::Variable{y / ul}, tj::Rotation2v{sleipnir::Variable{c}, sleipnir::Variable{s}}};
    tj::Translation2v v{sleipnir::Variable{vx}, sleipnir::Variable{vy}};
    tj::Translation2v a{sleipnir::Variable{ax}, sleipnir::Variable{ay}};
    sleipnir::Variable om{w}, alp{al};
    tj::Constraint copy = con;
    std::visit([&](auto&& arg) { arg.Apply(p, pose, v, om, a, alp); }, copy);
    return Admits(p).adm == 1;
  }

  /// Describes each constraint of the path by what it does to the probe
  /// states: lane k (pose (0, 10k)) or target k (pose (1000+k, k)).
  Value PathTags(tj::SwervePathBuilder& B, int lanes, int targets) {
    Value w = Value::Arr();
    for (auto& wp : B.GetPath().waypoints) {
      auto tags = [&](std::vector<tj::Constraint>& list) {
        Value r = Value::Arr();
        for (auto& con : list) {
          std::vector<int> rej;
          for (int k = 1; k <= lanes; ++k)
            if (!Accepts(con, 0, 10.0 * k, 1, 0, 0, 0, 0, 0, 0, 0)) rej.push_back(k);
          if (rej.size() == 1) r.push(Value{rej[0]});
          else if (int(rej.size()) == lanes) {
            // an equality: which target, position only or with heading
            long t = 0;
            for (int k = 1; k <= targets; ++k) {
              double hc = 0.6, hs = 0.8;
              bool with = Accepts(con, 1000.0 + k, k, hc, hs, 0, 0, 0, 0, 0, 0);
              bool without = Accepts(con, 1000.0 + k, k, 0.8, 0.6, 0, 0, 0, 0, 0, 0);
              if (with && without) t = 2000 + k;       // translation only
              else if (with) t = 1000 + k;             // pose with heading (0.6, 0.8)
            }
            r.push(Value{t ? t : -1L});
          } else r.push(Value{-2});
        }
        return r;
      };
      Value o = Value::Obj();
      o.set("w", tags(wp.waypointConstraints));
      o.set("s", tags(wp.segmentConstraints));
      w.push(o);
    }
    return w;
  }

  /// Questions about a builder; false: not one of them.
  bool Query(const Value& cmd, Value& obs) {
    const std::string& op = cmd["op"].s;
    if (op == "q_path") obs.set("wpts", PathTags(BuilderAt(cmd), int(cmd.i("lanes", 0)), int(cmd.i("targets", 0))));
    else if (op == "q_counts") {
      Value a = Value::Arr();
      for (auto n : BuilderAt(cmd).GetControlIntervalCounts()) a.push(Value{n});
      obs.set("ns", a);
    } else if (op == "q_guess") {
      auto s = BuilderAt(cmd).CalculateInitialGuess();
      obs.set("x", FxArr(s.x, 1e3 * ul)); obs.set("y", FxArr(s.y, 1e3 * ul));
      obs.set("xr", RestArr(s.x, 1e3 * ul)); obs.set("yr", RestArr(s.y, 1e3 * ul));
      obs.set("h", FxArr(Degrees(s), 1e3));
      obs.set("hr", RestArr(Degrees(s), 1e3));
      Value n2 = Value::Arr();
      for (size_t i = 0; i < s.thetacos.size() && i < s.thetasin.size(); ++i)
        n2.push(Fx(s.thetacos[i] * s.thetacos[i] + s.thetasin[i] * s.thetasin[i] - 1.0, 1e12));
      obs.set("n2", n2);
    } else if (op == "q_drive") {
      auto& d = BuilderAt(cmd).GetPath().drivetrain;
      obs.set("mass", Fx(d.mass / um)); obs.set("moi", Fx(d.moi * ul * ul / um));
      Value m = Value::Arr();
      for (auto& x : d.modules) {
        Value o = Value::Arr();
        for (double v : {x.translation.X() * ul, x.translation.Y() * ul, x.wheelRadius * ul, x.wheelMaxAngularVelocity * ut,
                         x.wheelMaxTorque * ul * ul * (ut * ut / um)}) o.push(Fx(v));
        m.push(o);
      }
      obs.set("mods", m);
    } else if (op == "q_cbs") obs.set("n", Value{BuilderAt(cmd).GetPath().callbacks.size()});
    else return false;
    return true;
  }
};
