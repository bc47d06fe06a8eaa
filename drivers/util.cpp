// The Sleipnir-free helpers: sample layout and interpolation.
#include <cstddef>
#include <cstdint>

#include <trajopt/util/TrajoptUtil.hpp>

#include "common.hpp"

static void RunCase(const Value& c, const std::function<void(Value)>& emit) {
  for (auto& cmd : c["cmds"].a) {
    const std::string& op = cmd["op"].s;
    Value obs = Value::Obj();
    try {
      if (op == "index") {
        std::vector<size_t> N;
        for (auto& n : cmd["ns"].a) N.push_back(n.i());
        Value tab = Value::Arr(), def = Value::Arr(), far = Value::Arr();
        for (size_t w = 0; w <= N.size() + 1; ++w) {
          Value row = Value::Arr();
          size_t own = (w >= 1 && w <= N.size()) ? N[w - 1] : 1;
          for (size_t i = 0; i <= std::min<size_t>(own, 12); ++i) row.push(Value{trajopt::GetIndex(N, w, i)});
          tab.push(row);
          def.push(Value{trajopt::GetIndex(N, w)});
          far.push(Value{trajopt::GetIndex(N, w, 1'000'000)});
        }
        obs.set("tab", tab);
        obs.set("def", def);
        obs.set("far", far);
      } else if (op == "linspace" || op == "anglespace") {
        auto f = op == "linspace" ? &trajopt::Linspace : &trajopt::AngleLinspace;
        auto v = f(Num(cmd["a"]), Num(cmd["b"]), static_cast<size_t>(cmd["n"].i()));
        double unit = cmd.has("unit") ? Num(cmd["unit"]) : 1.0;
        for (double& d : v) d /= unit;
        obs.set("v", FxArr(v, 1e3));
        obs.set("lo", RestArr(v, 1e3));
      } else throw std::runtime_error{"driver: unknown op " + op};
      obs.set("ok", Value{true});
    } catch (const std::exception& e) {
      if (std::string{e.what()}.rfind("driver:", 0) == 0) throw;
      obs = Value::Obj();
      obs.set("ok", Value{false});
      obs.set("exc", Value{e.what()});
    }
    Value ev = Value::Obj();
    ev.set("ev", Value{"cmd"});
    ev.set("cmd", cmd);
    ev.set("obs", obs);
    emit(ev);
  }
}

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  return RunCases(argv[1], argv[2], RunCase);
}
