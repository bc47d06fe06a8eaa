#include "geometry.hpp"

Obj UnaryVars(const std::string& op, const Obj& a) {
  return Visit1(a, [&](auto& x) -> Obj {
    if constexpr (kV<std::decay_t<decltype(x)>> == true) return Apply1(op, x);
    else throw std::runtime_error{"driver: operand"};
  });
}
Obj BinaryVars(const std::string& op, const Obj& a, const Obj& b) {
  return Visit2<true, true>(a, b, [&](auto& x, auto& y) { return Apply2(op, x, y); });
}
