// usage: geometry CASES OUT
#include "geometry.hpp"

static double Val(double d) { return d; }
static double Val(const Var& v) { Var c = v; return c.Value(); }

/// Angles in commands: [[c, s, turns], ...], the sum of the angles of <c, s> plus whole turns.
static double Angle(const Value& v) {
  double a = 0;
  for (auto& x : v.a) a += std::atan2(x.at(1).n, x.at(0).n) + 2 * std::numbers::pi * x.at(2).n;
  return a;
}

struct Machine {
  std::vector<Obj> o;
  std::vector<std::vector<Var>> leaf;  // the variables of leaves, in their order

  static std::vector<double> Numbers(const Value& c) {
    const std::string& op = c["op"].s;
    double d = std::ldexp(double(c.i("d", 1)), -int(c.i("e", 0)));
    if (op == "s") return {c["n"].at(0).n / d};
    if (op == "t") return {c["n"].at(0).n / d, c["n"].at(1).n / d};
    if (op == "rcs") return {c["n"].at(0).n / d, c["n"].at(1).n / d};
    // (rotations have no unit)
    return {Angle(c["ang"])};
  }
  Obj Leaf(const Value& c) {
    const std::string& op = c["op"].s;
    auto n = Numbers(c);
    if (c["k"].s == "d") {
      if (op == "s") return n[0];
      if (op == "t") return T2d{n[0], n[1]};
      if (op == "rcs") return R2d{n[0], n[1]};
      return R2d{n[0]};
    }
    std::vector<Var>& v = leaf.back();
    for (double x : n) { v.emplace_back(); v.back().SetValue(x); }
    if (op == "s") return v[0];
    if (op == "t") return T2v{v[0], v[1]};
    if (op == "rcs") return R2v{v[0], v[1]};
    return R2v{v[0]};
  }
  Obj Pose3(const Obj& a, const Obj& b, const Obj& c) {
    if (IsV(c)) return P2v{std::get<Var>(a), std::get<Var>(b), std::get<R2v>(c)};
    return P2d{std::get<double>(a), std::get<double>(b), std::get<R2d>(c)};
  }
  void Exec(const Value& c) {
    const std::string& op = c["op"].s;
    if (op == "set") {
      auto n = Numbers(c["to"]);
      auto& v = leaf.at(c["r"].i());
      for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(n.at(i));
      return;
    }
    leaf.emplace_back();
    if (op == "s" || op == "t" || op == "rcs" || op == "rang") { Obj x = Leaf(c); o.push_back(x); }
    else if (op == "t0") o.push_back(c["k"].s == "d" ? Obj{T2d{}} : Obj{T2v{}});
    else if (op == "r0") o.push_back(c["k"].s == "d" ? Obj{R2d{}} : Obj{R2v{}});
    else if (op == "p0") o.push_back(c["k"].s == "d" ? Obj{P2d{}} : Obj{P2v{}});
    else if (op == "pose3") o.push_back(Pose3(o.at(c["a"].i()), o.at(c["b"].i()), o.at(c["c"].i())));
    else if (c["b"].i() < 0) {
      const Obj a = o.at(c["a"].i());
      o.push_back(op == "conv" ? Coerce(a) : IsV(a) ? UnaryVars(op, a) : UnaryPlain(op, a));
    } else {
      const Obj a = o.at(c["a"].i()), b = o.at(c["b"].i());
      if (op == "xyv" && !IsV(a) && !IsV(b)) o.push_back(CoerceXY(std::get<double>(a), std::get<double>(b)));
      else o.push_back(IsV(a) != IsV(b) ? BinaryMixed(op, a, b) : IsV(a) ? BinaryVars(op, a, b) : BinaryPlain(op, a, b));
    }
  }
  /// Every number times its den and 2^exp: the nearest integer and what is left, in millionths.
  Value Look(const Obj& x, const Value& dens, const Value& exps) {
    std::vector<double> n;
    std::visit([&](auto& x) {
      using A = std::decay_t<decltype(x)>;
      if constexpr (kS<A>) n = {Val(x)};
      else if constexpr (kT<A>) n = {Val(x.X()), Val(x.Y())};
      else if constexpr (kR<A>) n = {Val(x.Cos()), Val(x.Sin())};
      else if constexpr (kP<A>) n = {Val(x.X()), Val(x.Y()), Val(x.Rotation().Cos()), Val(x.Rotation().Sin())};
      else if constexpr (std::is_same_v<A, Seen>) {
        for (auto& v : x.v) n.push_back(std::visit([](auto& y) { return Val(y); }, v));
        if (x.how == "root") n.push_back(std::signbit(n[0]) ? -1 : 1);
        if (x.how == "rad") n = {std::cos(n[0]), std::sin(n[0]), 1e6 * (n[0] - n[1] * std::numbers::pi / 180)};
        if (x.how == "deg") n = {std::cos(n[0] * std::numbers::pi / 180), std::sin(n[0] * std::numbers::pi / 180), 1e6 * (n[0] * std::numbers::pi / 180 - n[1])};
      } else {
        // equality constraints: 1 when they hold, 0 when not
        double worst = 0;
        for (auto& k : x.constraints) worst = std::max(worst, std::isfinite(Val(k)) ? std::abs(Val(k)) : 1.0);
        n = {worst < 1e-10 ? 1.0 : 0.0};
      }
    }, x);
    Value a = Value::Arr();
    for (size_t i = 0; i < n.size(); ++i) {
      double v = i < dens.a.size() ? std::ldexp(n[i] * dens.at(i).n, int(exps.at(i).n)) : n[i];
      Value p = Value::Arr();
      p.push(Fx(v, 1));
      p.push(std::isfinite(v) ? Fx(v - std::llround(v)) : Value{kNaN});
      a.push(p);
    }
    return a;
  }
};

static void RunCase(const Value& c, const std::function<void(Value)>& emit) {
  Machine m;
  for (auto& cmd : c["cmds"].a) {
    m.Exec(cmd);
    Value obs = Value::Arr();
    if (cmd["op"].s == "set") for (size_t i = 0; i < m.o.size(); ++i) obs.push(m.Look(m.o[i], cmd["dens"].at(i), cmd["exps"].at(i)));
    else obs.push(m.Look(m.o.back(), cmd["dens"].at(0), cmd["exps"].at(0)));
    Value ev = Value::Obj();
    ev.set("ev", Value{"cmd"});
    ev.set("cmd", cmd);
    ev.set("obs", obs);
    emit(ev);
  }
}

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  return RunCases(argv[1], argv[2], RunCase);
}
