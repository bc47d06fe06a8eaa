// Solutions turned into timed trajectories.  usage: convert CASES OUT
#include <trajopt/trajectory/HolonomicTrajectory.hpp>

#include "solution_view.hpp"

namespace tj = trajopt;

static std::vector<double> Nums(const Value& v, double unit) {
  std::vector<double> r;
  for (auto& x : v.a) r.push_back(x.n / unit);
  return r;
}
static std::vector<std::vector<double>> Rows(const Value& v, double unit) {
  std::vector<std::vector<double>> r;
  for (auto& x : v.a) r.push_back(Nums(x, unit));
  return r;
}
static Value Look(const tj::HolonomicTrajectory& t, double unit) {
  Value a = Value::Arr();
  for (auto& s : t.samples) {
    Value o = Value::Obj();
    o.set("t", Exact(s.timestamp, unit));
    o.set("x", Exact(s.x, unit));
    o.set("y", Exact(s.y, unit));
    o.set("vx", Exact(s.velocityX, unit));
    o.set("vy", Exact(s.velocityY, unit));
    o.set("w", Exact(s.angularVelocity, unit));
    o.set("hc", Fx(std::cos(s.heading)));
    o.set("hs", Fx(std::sin(s.heading)));
    o.set("fx", ExactArr(s.moduleForcesX, unit));
    o.set("fy", ExactArr(s.moduleForcesY, unit));
    a.push(o);
  }
  return a;
}
static void RunCase(const Value& c, const std::function<void(Value)>& emit) {
  for (auto& cmd : c["cmds"].a) {
    const double u = cmd["unit"].n;
    tj::SwerveSolution sol;
    sol.dt = Nums(cmd["dt"], u);
    sol.x = Nums(cmd["x"], u);
    sol.y = Nums(cmd["y"], u);
    sol.thetacos = Nums(cmd["c"], cmd["uc"].n);
    sol.thetasin = Nums(cmd["s"], cmd["uc"].n);
    sol.vx = Nums(cmd["vx"], u);
    sol.vy = Nums(cmd["vy"], u);
    sol.omega = Nums(cmd["w"], u);
    sol.ax = Nums(cmd["ax"], u);
    sol.ay = Nums(cmd["ay"], u);
    sol.alpha = Nums(cmd["al"], u);
    sol.moduleFX = Rows(cmd["fx"], u);
    sol.moduleFY = Rows(cmd["fy"], u);
    const tj::SwerveSolution keep = sol;
    tj::HolonomicTrajectory t{sol};
    bool same = keep.dt == sol.dt && keep.x == sol.x && keep.y == sol.y && keep.thetacos == sol.thetacos &&
                keep.thetasin == sol.thetasin && keep.vx == sol.vx && keep.vy == sol.vy && keep.omega == sol.omega &&
                keep.ax == sol.ax && keep.ay == sol.ay && keep.alpha == sol.alpha && keep.moduleFX == sol.moduleFX &&
                keep.moduleFY == sol.moduleFY;
    // what was converted does not depend on the solution any more
    sol = tj::SwerveSolution{};
    Value obs = Value::Obj();
    obs.set("traj", Look(t, u));
    obs.set("again", Look(tj::HolonomicTrajectory{t.samples}, u));
    obs.set("same", Value{same});
    // the same from parts
    std::vector<tj::HolonomicTrajectorySample> made, bare;
    for (auto& s : t.samples) {
      made.emplace_back(s.timestamp, s.x, s.y, s.heading, s.velocityX, s.velocityY, s.angularVelocity, s.moduleForcesX, s.moduleForcesY);
      bare.emplace_back(s.timestamp, s.x, s.y, s.heading, s.velocityX, s.velocityY, s.angularVelocity);
    }
    obs.set("made", Look(tj::HolonomicTrajectory{made}, u));
    obs.set("bare", Look(tj::HolonomicTrajectory{bare}, u));
    tj::HolonomicTrajectory empty;
    obs.set("empty", Look(empty, u));
    empty.samples.resize(1);
    obs.set("blank", Look(empty, u));
    Value ev = Value::Obj();
    ev.set("ev", Value{"cmd"});
    ev.set("cmd", cmd);
    ev.set("obs", obs);
    emit(ev);
  }
}

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  return RunCases(argv[1], argv[2], RunCase);
}
