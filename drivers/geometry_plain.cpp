#include "geometry.hpp"

Obj UnaryPlain(const std::string& op, const Obj& a) {
  return Visit1(a, [&](auto& x) -> Obj {
    if constexpr (kV<std::decay_t<decltype(x)>> == false) return Apply1(op, x);
    else throw std::runtime_error{"driver: operand"};
  });
}
Obj BinaryPlain(const std::string& op, const Obj& a, const Obj& b) {
  return Visit2<false, false>(a, b, [&](auto& x, auto& y) { return Apply2(op, x, y); });
}
