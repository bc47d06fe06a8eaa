// Geometry expressions over plain numbers and optimization variables.
#pragma once
#include <tuple>
#include <type_traits>
#include <variant>

#include <trajopt/geometry/Pose2.hpp>
#include <trajopt/geometry/Rotation2.hpp>
#include <trajopt/geometry/Translation2.hpp>

#include "common.hpp"

namespace tj = trajopt;
using Var = sleipnir::Variable;
using T2d = tj::Translation2d;
using T2v = tj::Translation2v;
using R2d = tj::Rotation2d;
using R2v = tj::Rotation2v;
using P2d = tj::Pose2d;
using P2v = tj::Pose2v;

/// Numbers that are only looked at; how: what is made of them first.
struct Seen {
  std::vector<std::variant<double, Var>> v;
  std::string how;
};
using Obj = std::variant<double, Var, T2d, T2v, R2d, R2v, P2d, P2v, Seen, sleipnir::EqualityConstraints>;

template <class A> constexpr bool kS = std::is_same_v<A, double> || std::is_same_v<A, Var>;
template <class A> constexpr bool kT = std::is_same_v<A, T2d> || std::is_same_v<A, T2v>;
template <class A> constexpr bool kR = std::is_same_v<A, R2d> || std::is_same_v<A, R2v>;
template <class A> constexpr bool kP = std::is_same_v<A, P2d> || std::is_same_v<A, P2v>;
template <class A> constexpr bool kV = std::is_same_v<A, Var> || std::is_same_v<A, T2v> || std::is_same_v<A, R2v> || std::is_same_v<A, P2v>;

inline bool IsV(const Obj& o) { return std::visit([](auto& x) { return kV<std::decay_t<decltype(x)>>; }, o); }

/// Op on one object.
template <class A>
Obj Apply1(const std::string& op, const A& x) {
  if constexpr (kT<A>) {
    if (op == "neg") return -x;
    if (op == "x") return x.X();
    if (op == "y") return x.Y();
    if (op == "get0") { using std::get; return get<0>(x); }
    if (op == "get1") { const auto& [p, q] = x; return q; }
    if (op == "sqnorm") return x.SquaredNorm();
    if (op == "norm") return Seen{{x.Norm()}, "root"};
    if (op == "angle") { auto r = x.Angle(); return Seen{{r.Cos(), r.Sin()}, ""}; }
    if (op == "same") return A{x};
  }
  if constexpr (kR<A>) {
    if (op == "neg") return -x;
    if (op == "cos") return x.Cos();
    if (op == "sin") return x.Sin();
    if (op == "radians") return Seen{{x.Radians(), x.Degrees()}, "rad"};
    if (op == "degrees") return Seen{{x.Degrees(), x.Radians()}, "deg"};
    if (op == "again") return A{x.Radians()};
    if (op == "same") return A{x};
  }
  if constexpr (kP<A>) {
    if (op == "tr") return x.Translation();
    if (op == "ro") return x.Rotation();
    if (op == "x") return x.X();
    if (op == "y") return x.Y();
    if (op == "same") return A{x};
  }
  throw std::runtime_error{"driver: no unary " + op};
}

/// Op on two objects.  Only the combinations the interface offers.
template <class A, class B>
Obj Apply2(const std::string& op, const A& a, const B& b) {
  constexpr bool same = kV<A> == kV<B>;
  if constexpr (kT<A> && kT<B>) {
    if (op == "add") return a + b;
    if (op == "sub") return a - b;
    if (op == "dot") return a.Dot(b);
    if (op == "cross") return a.Cross(b);
    if (op == "dist") return Seen{{a.Distance(b)}, "root"};
    if constexpr (kV<A> || kV<B>) if (op == "eq") return a == b;
  }
  if constexpr (kT<A> && kS<B>) {
    if (op == "mul") return a * b;
    if (op == "div") return a / b;
    // whole numbers are scalars, too
    if constexpr (!kV<B>) {
      if (op == "muli") return a * static_cast<int>(b);
      if (op == "divi") return a / static_cast<int>(b);
    }
  }
  if constexpr (kT<A> && kR<B>) {
    if (op == "rot") return a.RotateBy(b);
    if constexpr (same) if (op == "pose") return tj::Pose2{a, b};
  }
  if constexpr (kS<A> && kR<B> && (kV<A> || !kV<B>)) {
    if (op == "polar") return tj::Translation2<A>(a, b);
  }
  if constexpr (kS<A> && kS<B>) {
    if (op == "xy") {
      if constexpr (kV<A> || kV<B>) return T2v{a, b};
      else return T2d{a, b};
    }
    if constexpr (kV<A> || kV<B>) if (op == "xyv") return T2v{a, b};
  }
  if constexpr (kR<A> && kR<B>) {
    if (op == "rot") return a.RotateBy(b);
    if constexpr (same) {
      if (op == "add") return a + b;
      if (op == "sub") return a - b;
    }
    if constexpr (kV<A> || kV<B>) if (op == "eq") return a == b;
  }
  if constexpr (kP<A> && kR<B> && same) {
    if (op == "rot") return a.RotateBy(b);
  }
  if constexpr (kP<A> && kP<B> && (kV<A> || kV<B>)) {
    if (op == "eq") return a == b;
  }
  throw std::runtime_error{"driver: no binary " + op};
}
// plain numbers only
Obj UnaryPlain(const std::string& op, const Obj& a);
Obj BinaryPlain(const std::string& op, const Obj& a, const Obj& b);
// optimization variables only
Obj UnaryVars(const std::string& op, const Obj& a);
Obj BinaryVars(const std::string& op, const Obj& a, const Obj& b);
// both
Obj Coerce(const Obj& a);
Obj CoerceXY(double x, double y);
Obj BinaryMixed(const std::string& op, const Obj& a, const Obj& b);

template <class A> constexpr bool kOperand = kS<A> || kT<A> || kR<A> || kP<A>;
template <class F>
Obj Visit1(const Obj& a, F&& f) {
  return std::visit([&](auto& x) -> Obj { if constexpr (kOperand<std::decay_t<decltype(x)>>) return f(x); else throw std::runtime_error{"driver: operand"}; }, a);
}
/// f on a and b when their kinds are as wanted.
template <bool AV, bool BV, class F>
Obj Visit2(const Obj& a, const Obj& b, F&& f) {
  return std::visit([&](auto& x, auto& y) -> Obj {
    using A = std::decay_t<decltype(x)>;
    using B = std::decay_t<decltype(y)>;
    if constexpr (kOperand<A> && kOperand<B> && kV<A> == AV && kV<B> == BV) return f(x, y);
    else throw std::runtime_error{"driver: operands"};
  }, a, b);
}
