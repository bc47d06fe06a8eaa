// Stand-in for the Sleipnir autodiff scalar (the real solver is not installed
// here).  A Variable is a node of an expression DAG that can be evaluated at
// any assignment of its leaves; there is no differentiation.
#pragma once

#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace sleipnir {

enum class ExpressionType : uint8_t { kNone, kConstant, kLinear, kQuadratic, kNonlinear };

namespace detail {

enum class Op : uint8_t {
  kLeaf, kAdd, kSub, kMul, kDiv, kNeg, kAbs, kAcos, kAsin, kAtan, kAtan2, kCos,
  kCosh, kErf, kExp, kHypot, kLog, kLog10, kPow, kSign, kSin, kSinh, kSqrt,
  kTan, kTanh, kMax, kMin
};

inline std::atomic<uint64_t>& Epoch() {
  static std::atomic<uint64_t> e{1};
  return e;
}

struct Node {
  Op op = Op::kLeaf;
  double value = 0.0;
  std::shared_ptr<Node> a;
  std::shared_ptr<Node> b;
  uint64_t stamp = 0;
  bool decision = false;  // made by OptimizationProblem::DecisionVariable()

  // how far rounding may have moved the value, in units of the machine's
  // epsilon (running error analysis; leaves may themselves be rounded)
  double error = 0.0;

  double Eval(uint64_t epoch) {
    if (op == Op::kLeaf || stamp == epoch) return value;
    double x = a ? a->Eval(epoch) : 0.0;
    double y = b ? b->Eval(epoch) : 0.0;
    double ex = a ? a->Error() : 0.0;
    double ey = b ? b->Error() : 0.0;
    double r = 0.0;
    double e = 0.0;
    switch (op) {
      case Op::kLeaf: r = value; break;
      case Op::kAdd: r = x + y; e = ex + ey; break;
      case Op::kSub: r = x - y; e = ex + ey; break;
      case Op::kMul: r = x * y; e = std::abs(x) * ey + std::abs(y) * ex; break;
      case Op::kDiv: r = x / y; e = (ex + std::abs(r) * ey) / std::abs(y); break;
      case Op::kNeg: r = -x; e = ex; break;
      case Op::kAbs: r = std::abs(x); e = ex; break;
      case Op::kAcos: r = std::acos(x); e = ex / std::sqrt(std::max(1e-12, 1 - x * x)); break;
      case Op::kAsin: r = std::asin(x); e = ex / std::sqrt(std::max(1e-12, 1 - x * x)); break;
      case Op::kAtan: r = std::atan(x); e = ex / (1 + x * x); break;
      case Op::kAtan2:
        r = std::atan2(x, y);
        e = (std::abs(y) * ex + std::abs(x) * ey) / (x * x + y * y);
        break;
      case Op::kCos: r = std::cos(x); e = ex; break;
      case Op::kCosh: r = std::cosh(x); e = std::abs(std::sinh(x)) * ex; break;
      case Op::kErf: r = std::erf(x); e = 2 * ex; break;
      case Op::kExp: r = std::exp(x); e = r * ex; break;
      case Op::kHypot: r = std::hypot(x, y); e = ex + ey; break;
      case Op::kLog: r = std::log(x); e = ex / std::abs(x); break;
      case Op::kLog10: r = std::log10(x); e = ex / std::abs(x); break;
      case Op::kPow:
        r = std::pow(x, y);
        e = y == 2.0 ? 2 * std::abs(x) * ex : std::abs(r) * (std::abs(y / x) * ex + std::abs(std::log(std::abs(x))) * ey);
        break;
      case Op::kSign: r = x < 0.0 ? -1.0 : (x == 0.0 ? 0.0 : (x > 0.0 ? 1.0 : x)); break;
      case Op::kSin: r = std::sin(x); e = ex; break;
      case Op::kSinh: r = std::sinh(x); e = std::cosh(x) * ex; break;
      // (near zero the root's slope is without bounds)
      case Op::kSqrt: r = std::sqrt(x); e = r > 0 ? ex / (2 * r) : ex; break;
      case Op::kTan: r = std::tan(x); e = (1 + r * r) * ex; break;
      case Op::kTanh: r = std::tanh(x); e = ex; break;
      case Op::kMax: r = std::fmax(x, y); e = std::max(ex, ey); break;
      case Op::kMin: r = std::fmin(x, y); e = std::max(ex, ey); break;
    }
    value = r;
    error = std::isfinite(e) ? e + std::abs(r) : std::abs(r);
    stamp = epoch;
    return r;
  }
  // (a constant may be what is left of a cancellation, like the cosine of pi/2)
  double Error() const { return op == Op::kLeaf ? std::max(decision ? 0.0 : 0x1p-10, std::abs(value)) : error; }
};

using ExpressionPtr = std::shared_ptr<Node>;

inline ExpressionPtr MakeLeaf(double v) {
  auto n = std::make_shared<Node>();
  n->value = v;
  return n;
}

inline ExpressionPtr MakeNode(Op op, ExpressionPtr a, ExpressionPtr b = nullptr) {
  auto n = std::make_shared<Node>();
  n->op = op;
  n->a = std::move(a);
  n->b = std::move(b);
  return n;
}

}  // namespace detail

class VariableMatrix;

class Variable {
 public:
  Variable() : expr{detail::MakeLeaf(0.0)} {}
  template <typename T>
    requires std::is_arithmetic_v<T>
  Variable(T value) : expr{detail::MakeLeaf(static_cast<double>(value))} {}  // NOLINT
  explicit Variable(detail::ExpressionPtr e) : expr{std::move(e)} {}
  Variable(const VariableMatrix& m);  // NOLINT (1x1)

  template <typename T>
    requires std::is_arithmetic_v<T>
  Variable& operator=(T value) {
    expr = detail::MakeLeaf(static_cast<double>(value));
    return *this;
  }

  void SetValue(double value) {
    expr->value = value;
    ++detail::Epoch();
  }

  double Value() const { return expr->Eval(detail::Epoch().load()); }
  /// How far rounding may have moved Value().
  double shim_error() const {
    Value();
    return expr->Error() * std::numeric_limits<double>::epsilon();
  }
  void Update() {}
  ExpressionType Type() const {
    return expr->op == detail::Op::kLeaf ? ExpressionType::kLinear
                                         : ExpressionType::kNonlinear;
  }

  friend Variable operator+(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kAdd, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kSub, l.expr, r.expr)};
  }
  friend Variable operator*(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kMul, l.expr, r.expr)};
  }
  friend Variable operator/(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kDiv, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l) {
    return Variable{detail::MakeNode(detail::Op::kNeg, l.expr)};
  }
  friend Variable operator+(const Variable& l) { return l; }

  Variable& operator+=(const Variable& r) { return *this = *this + r; }
  Variable& operator-=(const Variable& r) { return *this = *this - r; }
  Variable& operator*=(const Variable& r) { return *this = *this * r; }
  Variable& operator/=(const Variable& r) { return *this = *this / r; }

  detail::ExpressionPtr expr;
};

#define SLP_UNARY(name, OP)                                          \
  inline Variable name(const Variable& x) {                          \
    return Variable{detail::MakeNode(detail::Op::OP, x.expr)};       \
  }
SLP_UNARY(abs, kAbs)
SLP_UNARY(acos, kAcos)
SLP_UNARY(asin, kAsin)
SLP_UNARY(atan, kAtan)
SLP_UNARY(cos, kCos)
SLP_UNARY(cosh, kCosh)
SLP_UNARY(erf, kErf)
SLP_UNARY(exp, kExp)
SLP_UNARY(log, kLog)
SLP_UNARY(log10, kLog10)
SLP_UNARY(sign, kSign)
SLP_UNARY(sin, kSin)
SLP_UNARY(sinh, kSinh)
SLP_UNARY(sqrt, kSqrt)
SLP_UNARY(tan, kTan)
SLP_UNARY(tanh, kTanh)
#undef SLP_UNARY
#define SLP_BINARY(name, OP)                                         \
  inline Variable name(const Variable& x, const Variable& y) {       \
    return Variable{detail::MakeNode(detail::Op::OP, x.expr, y.expr)}; \
  }
SLP_BINARY(atan2, kAtan2)
SLP_BINARY(hypot, kHypot)
SLP_BINARY(pow, kPow)
SLP_BINARY(max, kMax)
SLP_BINARY(min, kMin)
#undef SLP_BINARY
inline Variable hypot(const Variable& x, const Variable& y, const Variable& z) {
  return sqrt(x * x + y * y + z * z);
}

}  // namespace sleipnir
