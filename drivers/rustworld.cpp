// The same world, driven through the Rust interface.  usage: rustworld CASES OUT
// "rs" commands are calls of the Rust library, lengths in hundredths of a
// metre (so that the fixed 0.01 m margin is 1); a generation runs the Rust
// generate() against the scripted solver.
#include "world.hpp"

#include "RustFFI.hpp"
#include "solution_view.hpp"

extern "C" {
void* rs_new(bool dflt);
void rs_free(void* b);
void rs_cancel_all();
void rs_generate(void* b, bool diag, int64_t handle, void* ctx);
int rs_call(void* b, const char* f, const size_t* i, const double* a, const double* p1, size_t n1, const double* p2, size_t n2);
}
extern void* vpx_last_made;

struct RustBuilder {
  void* rs;
  tj::SwervePathBuilder* inner;
};
struct RustGen {
  int builder = 0;
  std::vector<double> flat;
};

struct RustWorld : World {
  std::map<int, RustBuilder> rb;
  std::map<Gen*, RustGen> rg;
  std::vector<std::tuple<int, int64_t, std::vector<double>>> got;

  RustWorld() { ul = 100; }
  RustBuilder& RB(int id) {
    auto it = rb.find(id);
    if (it == rb.end()) {
      void* r = rs_new(id % 2 == 1);
      // the interface class holds the C++ builder and nothing else
      if (sizeof(tj::rsffi::SwervePathBuilder) != sizeof(tj::SwervePathBuilder))
        throw std::runtime_error{"driver: cannot look into the Rust interface's builder"};
      it = rb.emplace(id, RustBuilder{r, reinterpret_cast<tj::SwervePathBuilder*>(vpx_last_made)}).first;
    }
    return it->second;
  }
  tj::SwervePathBuilder& BuilderAt(const Value& cmd) override { return *RB(int(cmd.i("b", 0))).inner; }
  void Run(Gen& G, bool diag) override { rs_generate(RB(rg[&G].builder).rs, diag, G.handle, &G); }

  void Call(const Value& c) {
    const std::string& f = c["f"].s;
    const double L = 1 / ul;
    size_t i[2] = {0, 0};
    double a[4] = {0, 0, 0, 0};
    std::vector<double> p1, p2;
    auto I = [&](int k, const char* n) { i[k] = size_t(c[n].i()); };
    auto N = [&](int k, const char* n, double unit) { a[k] = Num(c[n]) * unit; };
    bool seg = f.rfind("sgmt_", 0) == 0;
    if (seg && f != "sgmt_initial_guess_points") { I(0, "from_index"); I(1, "to_index"); }
    if (f.rfind("wpt_", 0) == 0 || f == "pose_wpt" || f == "translation_wpt" || f == "empty_wpt") I(0, "index");
    auto ends = [&](const char* e) { return f.size() > std::strlen(e) && f.compare(f.size() - std::strlen(e), std::string::npos, e) == 0; };
    if (f == "set_drivetrain") {
      double phi = c.has("ang") ? std::atan2(Num(c["ang"].at(1)), Num(c["ang"].at(0))) : 1.0;
      a[0] = Num(c["mass"]);
      a[1] = Num(c["moi"]) * L * L / phi / phi;
      for (auto& m : c["modules"].a)
        for (double v : {Num(m["x"]) / phi * L, Num(m["y"]) / phi * L, Num(m["wheel_radius"]) * L, Num(m["wheel_max_angular_velocity"]),
                         Num(m["wheel_max_torque"]) * L * L}) p1.push_back(v);
    } else if (f == "set_bumpers") { N(0, "length", L); N(1, "width", L); }
    else if (f == "set_control_interval_counts") { for (auto& n : c["counts"].a) p1.push_back(Num(n)); }
    else if (f == "pose_wpt") { N(0, "x", L); N(1, "y", L); N(2, "heading", 1); }
    else if (f == "translation_wpt") { N(0, "x", L); N(1, "y", L); N(2, "heading_guess", 1); }
    else if (f == "empty_wpt") { N(0, "x_guess", L); N(1, "y_guess", L); N(2, "heading_guess", 1); }
    else if (f == "sgmt_initial_guess_points") {
      I(0, "from_index");
      for (auto& p : c["guess_points"].a) { p1.push_back(Num(p.at(0)) * L); p1.push_back(Num(p.at(1)) * L); p1.push_back(Num(p.at(2))); }
    } else if (ends("_linear_velocity_direction")) N(0, "angle", 1);
    else if (ends("_linear_velocity_max_magnitude") || ends("_linear_acceleration_max_magnitude")) N(0, "magnitude", L);
    else if (ends("_angular_velocity_max_magnitude")) N(0, "angular_velocity", 1);
    else if (ends("_point_at")) { N(0, "field_point_x", L); N(1, "field_point_y", L); N(2, "heading_tolerance", 1); }
    else if (f == "sgmt_circle_obstacle") { N(0, "x", L); N(1, "y", L); N(2, "radius", L); }
    else if (f == "sgmt_polygon_obstacle") {
      for (auto& v : c["x"].a) p1.push_back(Num(v) * L);
      for (auto& v : c["y"].a) p2.push_back(Num(v) * L);
      N(0, "radius", L);
    } else if (f == "add_progress_callback") I(0, "callback");
    else throw std::runtime_error{"driver: Rust function " + f};
    if (!rs_call(RB(int(c.i("b", 0))).rs, f.c_str(), i, a, p1.data(), p1.size(), p2.data(), p2.size()))
      throw std::runtime_error{"driver: no Rust function " + f};
  }

  Value Deliveries() {
    Value dl = Value::Arr();
    for (auto& [id, h, f] : got) {
      Value x = Value::Obj();
      x.set("cb", Value{id});
      x.set("h", HandleToken(h));
      x.set("traj", LookFlat(f));
      dl.push(x);
    }
    got.clear();
    return dl;
  }
  /// The solver's iterate is the given trajectory.
  Value IterateTraj(Gen& G, const Value& t) {
    Value o = Value::Obj();
    bool stop = false, ok = false;
    { std::scoped_lock lk{dmu}; got.clear(); }
    OnGen(G, [&] {
      ok = Raw(*G.problem, G, t);
      sleipnir::SolverIterationInfo info;
      stop = G.problem->shim_iterate(info);
    });
    o.set("assigned", Value{ok});
    o.set("stop", Value{stop});
    std::scoped_lock lk{dmu};
    o.set("del", Deliveries());
    return o;
  }
  bool Raw(sleipnir::OptimizationProblem& p, Gen& G, const Value& t) {
    ul = 1;
    bool ok = Assign(p, LayoutFor(G.counts, G.modules), t);
    ul = 100;
    return ok;
  }
};
static RustWorld* theWorld;

extern "C" void vpx_result(void* ctx, bool ok, const double* d, size_t n, const unsigned char* msg, size_t len) {
  Gen& G = *static_cast<Gen*>(ctx);
  std::scoped_lock lk{G.mu};
  G.hasResult = true;
  G.isValue = ok;
  if (ok) theWorld->rg[&G].flat.assign(d, d + n);
  else G.error.assign(reinterpret_cast<const char*>(msg), len);
}
extern "C" void vpx_delivery(int id, int64_t handle, const double* d, size_t n) {
  std::scoped_lock lk{theWorld->dmu};
  theWorld->got.emplace_back(id, handle, std::vector<double>(d, d + n));
}

static void RunCase(const Value& c, const std::function<void(Value)>& emit) {
  theWorld = new RustWorld;
  RustWorld* W = theWorld;
  for (auto& cmd : c["cmds"].a) {
    const std::string& op = cmd["op"].s;
    Value obs = Value::Obj();
    auto gen = [&]() -> Gen& { return *W->g.at(int(cmd["g"].i())); };
    try {
      if (op == "rs") W->Call(cmd);
      else if (op == "new_gen") {
        int b = int(cmd.i("b", 0));
        auto& B = W->BuilderAt(cmd);
        auto G = std::make_unique<Gen>();
        G->counts = B.GetControlIntervalCounts();
        G->modules = B.GetPath().drivetrain.modules.size();
        G->guess = B.CalculateInitialGuess();
        G->handle = Handle(cmd.i("handle", 0));
        W->LayoutFor(G->counts, G->modules);
        W->rg[G.get()].builder = b;
        W->g[int(cmd["g"].i())] = std::move(G);
      } else if (op == "start") obs = W->Start(gen(), cmd.has("diag") && cmd["diag"].b);
      else if (op == "iter") obs = W->IterateTraj(gen(), cmd["traj"]);
      else if (op == "finish") {
        Gen& G = gen();
        bool ok = true;
        if (cmd.has("traj")) W->OnGen(G, [&] { ok = W->Raw(*G.problem, G, cmd["traj"]); });
        obs = W->Finish(G, int(cmd["code"].i()), double(cmd.i("cost", 0)), int(cmd.i("kind", 0)));
        obs.set("assigned", Value{ok});
        if (G.isValue) obs.set("traj", LookFlat(W->rg[&G].flat));
      } else if (op == "adv") VirtualNow() += int64_t(cmd["d"].i()) * 100'000;
      else if (op == "cancel") rs_cancel_all();
      else if (op == "drop") { auto& B = W->RB(int(cmd.i("b", 0))); rs_free(B.rs); W->rb.erase(int(cmd.i("b", 0))); }
      else if (op == "probe") obs = W->Probe(gen(), cmd["trajs"]);
      else if (op == "q_start") obs = W->StartPoint(gen());
      else if (!W->Query(cmd, obs)) throw std::runtime_error{"driver: unknown op " + op};
      if (!obs.has("ok")) obs.set("ok", Value{true});
    } catch (const std::exception& e) {
      if (std::string{e.what()}.rfind("driver:", 0) == 0) throw;
      obs = Value::Obj();
      obs.set("ok", Value{false});
      obs.set("exc", Value{e.what()});
    }
    Value ev = Value::Obj();
    ev.set("ev", Value{"cmd"});
    ev.set("cmd", cmd);
    ev.set("obs", obs);
    emit(ev);
  }
}

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  return RunCases(argv[1], argv[2], RunCase);
}
