#include "geometry.hpp"

Obj Coerce(const Obj& a) {
  return Visit1(a, [&](auto& x) -> Obj {
    using A = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<A, T2d>) return T2v{x};
    else if constexpr (std::is_same_v<A, R2d>) return R2v{x};
    else if constexpr (std::is_same_v<A, P2d>) return P2v{x};
    else throw std::runtime_error{"driver: operand"};
  });
}
Obj CoerceXY(double x, double y) { return T2v{x, y}; }
Obj BinaryMixed(const std::string& op, const Obj& a, const Obj& b) {
  if (IsV(a)) return Visit2<true, false>(a, b, [&](auto& x, auto& y) { return Apply2(op, x, y); });
  return Visit2<false, true>(a, b, [&](auto& x, auto& y) { return Apply2(op, x, y); });
}
