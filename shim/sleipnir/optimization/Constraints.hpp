// Stand-in for Sleipnir's constraint types and comparison operators.
#pragma once

#include <concepts>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/Variable.hpp>
#include <sleipnir/autodiff/VariableMatrix.hpp>

namespace sleipnir {

template <typename T>
concept ScalarLike = std::same_as<std::remove_cvref_t<T>, Variable> ||
                     std::is_arithmetic_v<std::remove_cvref_t<T>>;
template <typename T>
concept MatrixLike = std::same_as<std::remove_cvref_t<T>, VariableMatrix>;
template <typename L, typename R>
concept ComparablePair =
    ((ScalarLike<L> && ScalarLike<R>) &&
     (std::same_as<std::remove_cvref_t<L>, Variable> ||
      std::same_as<std::remove_cvref_t<R>, Variable>)) ||
    (MatrixLike<L> && (MatrixLike<R> || ScalarLike<R>)) ||
    (ScalarLike<L> && MatrixLike<R>);

namespace detail {
template <typename L, typename R>
std::vector<Variable> Differences(const L& lhs, const R& rhs) {
  std::vector<Variable> out;
  if constexpr (ScalarLike<L> && ScalarLike<R>) {
    out.push_back(Variable{lhs} - Variable{rhs});
  } else if constexpr (MatrixLike<L> && ScalarLike<R>) {
    for (const auto& e : lhs) out.push_back(e - Variable{rhs});
  } else if constexpr (ScalarLike<L> && MatrixLike<R>) {
    for (const auto& e : rhs) out.push_back(Variable{lhs} - e);
  } else {
    assert(lhs.Rows() == rhs.Rows() && lhs.Cols() == rhs.Cols());
    for (int i = 0; i < lhs.Rows(); ++i)
      for (int j = 0; j < lhs.Cols(); ++j) out.push_back(lhs(i, j) - rhs(i, j));
  }
  return out;
}
}  // namespace detail

/// A list of expressions required to be zero.
struct EqualityConstraints {
  std::vector<Variable> constraints;

  EqualityConstraints(std::initializer_list<EqualityConstraints> list) {
    for (const auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& list) {
    for (const auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  template <typename L, typename R>
    requires ComparablePair<L, R>
  EqualityConstraints(L&& lhs, R&& rhs)
      : constraints{detail::Differences(lhs, rhs)} {}

  operator bool() const {  // NOLINT
    for (const auto& c : constraints)
      if (c.Value() != 0.0) return false;
    return true;
  }
};

/// A list of expressions required to be nonnegative.
struct InequalityConstraints {
  std::vector<Variable> constraints;

  InequalityConstraints(std::initializer_list<InequalityConstraints> list) {
    for (const auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& list) {
    for (const auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  template <typename L, typename R>
    requires ComparablePair<L, R>
  InequalityConstraints(L&& lhs, R&& rhs)
      : constraints{detail::Differences(lhs, rhs)} {}

  operator bool() const {  // NOLINT
    for (const auto& c : constraints)
      if (!(c.Value() >= 0.0)) return false;
    return true;
  }
};

template <typename L, typename R>
  requires ComparablePair<L, R>
EqualityConstraints operator==(L&& lhs, R&& rhs) {
  return EqualityConstraints{lhs, rhs};
}
template <typename L, typename R>
  requires ComparablePair<L, R>
InequalityConstraints operator>=(L&& lhs, R&& rhs) {
  return InequalityConstraints{lhs, rhs};
}
template <typename L, typename R>
  requires ComparablePair<L, R>
InequalityConstraints operator>(L&& lhs, R&& rhs) {
  return InequalityConstraints{lhs, rhs};
}
template <typename L, typename R>
  requires ComparablePair<L, R>
InequalityConstraints operator<=(L&& lhs, R&& rhs) {
  return InequalityConstraints{rhs, lhs};
}
template <typename L, typename R>
  requires ComparablePair<L, R>
InequalityConstraints operator<(L&& lhs, R&& rhs) {
  return InequalityConstraints{rhs, lhs};
}

}  // namespace sleipnir
