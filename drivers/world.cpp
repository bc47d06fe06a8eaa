// Executes command histories on the real library and records, after every
// command, what can be observed.  usage: world CASES OUT
#include "world.hpp"

/// All the solution's entries times 2^e.
static tj::SwerveSolution Scaled(tj::SwerveSolution s, int e) {
  for (auto* r : {&s.dt, &s.x, &s.y, &s.thetacos, &s.thetasin, &s.vx, &s.vy, &s.omega, &s.ax, &s.ay, &s.alpha})
    for (auto& v : *r) v = std::ldexp(v, e);
  for (auto* m : {&s.moduleFX, &s.moduleFY})
    for (auto& r : *m) for (auto& v : r) v = std::ldexp(v, e);
  return s;
}

static void RunWorld(const Value& c, const std::function<void(Value)>& emit) {
  auto W = std::make_unique<World>();
  for (auto& cmd : c["cmds"].a) {
    const std::string& op = cmd["op"].s;
    Value obs = Value::Obj();
    auto gen = [&]() -> Gen& { return *W->g.at(int(cmd["g"].i())); };
    try {
      if (op == "units") {
        W->ul = std::ldexp(1.0, -int(cmd["l"].i()));
        W->ut = std::ldexp(1.0, int(cmd["t"].i()));
        W->um = std::ldexp(1.0, int(cmd["m"].i()));
      } else if (op == "new_gen") obs = W->NewGen(cmd);
      else if (op == "move_gen") {
        // move-construct into a new object; the old one is destroyed and its
        // storage reused
        Gen& G = gen();
        auto fresh = std::make_unique<tj::SwerveTrajectoryGenerator>(std::move(*G.gen));
        G.gen.reset();
        auto filler = std::make_unique<char[]>(sizeof(tj::SwerveTrajectoryGenerator));
        std::fill_n(filler.get(), sizeof(tj::SwerveTrajectoryGenerator), char(0x5a));
        G.gen = std::move(fresh);
      } else if (op == "start") obs = W->Start(gen(), cmd.has("diag") && cmd["diag"].b);
      else if (op == "iter") obs = W->Iterate(gen(), long(cmd["tag"].i()));
      else if (op == "finish") obs = W->Finish(gen(), int(cmd["code"].i()), double(cmd.i("cost", 0)), int(cmd.i("kind", 0)));
      else if (op == "finish_keep") {
        obs = W->Finish(gen(), int(cmd["code"].i()), double(cmd.i("cost", 0)), int(cmd.i("kind", 0)));
        W->kept[int(cmd["r"].i())] = gen().solution;
      } else if (op == "kept_tag") {
        Gen& G = gen();
        obs.set("tag", Value{W->TagOf(W->kept.at(int(cmd["r"].i())), G.counts, G.modules)});
      } else if (op == "adv") VirtualNow() += int64_t(cmd["d"].i()) * 100'000;  // tenths of a millisecond
      else if (op == "cancel") tj::GetCancellationFlag() = 1;
      else if (op == "storm") {
        std::vector<int> ids;
        for (auto& x : cmd["gs"].a) ids.push_back(int(x.i()));
        obs = W->Storm(ids, long(cmd["when"].i()));
      }
      else if (W->Query(cmd, obs)) {
      }
      else if (op == "probe") obs = W->Probe(gen(), cmd["trajs"]);
      else if (op == "cost") obs = W->Cost(gen(), cmd["trajs"]);
      else if (op == "q_start") obs = W->StartPoint(gen());
      else if (op == "assign_finish") {
        // the solver ends with the given assignment: what is returned?
        Gen& G = gen();
        obs.set("assigned", Value{false});
        W->Start(G, false);
        bool ok = false;
        W->ul = W->ut = W->um = 1;  // the solution's numbers as they are
        W->OnGen(G, [&] { ok = W->Assign(*G.problem, W->LayoutFor(G.counts, G.modules), cmd["traj"]);
          for (auto& v : G.problem->shim_vars()) v.SetValue(std::ldexp(v.Value(), int(cmd.i("e", 0)))); });
        W->Finish(G, int(cmd.i("code", 0)), double(cmd.i("cost", 0)), int(cmd.i("kind", 0)));
        obs = Value::Obj();
        obs.set("assigned", Value{ok});
        obs.set("has", Value{G.isValue});
        if (G.isValue) { obs.set("shape", World::Shape(G.solution)); obs.set("sol", World::DumpSolution(Scaled(G.solution, -int(cmd.i("e", 0))))); }
      } else W->BuilderOp(cmd);
      if (!obs.has("ok")) obs.set("ok", Value{true});
    } catch (const std::exception& e) {
      if (std::string{e.what()}.rfind("driver:", 0) == 0) throw;
      obs = Value::Obj();
      obs.set("ok", Value{false});
      obs.set("exc", Value{e.what()});
    }
    Value ev = Value::Obj();
    ev.set("ev", Value{"cmd"});
    ev.set("cmd", cmd);
    ev.set("obs", obs);
    emit(ev);
  }
  (void)W.release();  // generators may still be solving
}

/// One world, or several at the same time: each on a thread of its own and
/// with a clock of its own, at every command waiting for nobody.
static void RunCase(const Value& c, const std::function<void(Value)>& emit) {
  if (!c.has("worlds")) return RunWorld(c, emit);
  auto& worlds = c["worlds"].a;
  std::vector<std::vector<Value>> events(worlds.size());
  std::vector<std::string> trouble(worlds.size());
  std::vector<std::thread> threads;
  std::atomic<size_t> ready{0};
  for (size_t k = 0; k < worlds.size(); ++k)
    threads.emplace_back([&, k] {
      ClockOfThread() = new std::atomic<int64_t>{1'000'000'000'000};
      for (++ready; ready < worlds.size();) std::this_thread::yield();
      try {
        RunWorld(worlds[k], [&](Value e) { events[k].push_back(std::move(e)); });
      } catch (const std::exception& e) {
        trouble[k] = e.what();
      }
    });
  for (auto& t : threads) t.join();
  for (size_t k = 0; k < worlds.size(); ++k) {
    if (!trouble[k].empty()) throw std::runtime_error{trouble[k]};
    Value reset = Value::Obj();
    reset.set("ev", Value{"reset"});
    emit(reset);
    for (auto& e : events[k]) emit(std::move(e));
  }
}

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  return RunCases(argv[1], argv[2], RunCase);
}
