// Stand-in for sleipnir::OptimizationProblem: records the problem and leaves
// solving to a scripted environment (sleipnir::shim::SolveHook()).
#pragma once

#include <chrono>
#include <concepts>
#include <cstdint>
#include <functional>
#include <limits>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/Variable.hpp>
#include <sleipnir/autodiff/VariableMatrix.hpp>
#include <sleipnir/optimization/Constraints.hpp>
#include <sleipnir/optimization/SolverConfig.hpp>
#include <sleipnir/optimization/SolverExitCondition.hpp>
#include <sleipnir/optimization/SolverIterationInfo.hpp>
#include <sleipnir/optimization/SolverStatus.hpp>

namespace sleipnir {

class OptimizationProblem;

namespace shim {
using Solver = std::function<SolverStatus(OptimizationProblem&, const SolverConfig&)>;
/// The environment: decides what each Solve() of this thread does.
inline Solver& SolveHook() {
  thread_local Solver hook;
  return hook;
}
}  // namespace shim

class OptimizationProblem {
 public:
  OptimizationProblem() noexcept = default;

  [[nodiscard]] Variable DecisionVariable() {
    Variable v;
    v.expr->decision = true;
    m_vars.push_back(v);
    return v;
  }
  [[nodiscard]] VariableMatrix DecisionVariable(int rows, int cols = 1) {
    VariableMatrix m{rows, cols};
    for (auto& v : m) {
      v.expr->decision = true;
      m_vars.push_back(v);
    }
    return m;
  }

  void Minimize(const Variable& cost) { m_cost = cost; }
  void Minimize(Variable&& cost) { m_cost = std::move(cost); }
  void Maximize(const Variable& objective) { m_cost = -objective; }
  void Maximize(Variable&& objective) { m_cost = -objective; }

  void SubjectTo(const EqualityConstraints& c) {
    m_eq.insert(m_eq.end(), c.constraints.begin(), c.constraints.end());
  }
  void SubjectTo(EqualityConstraints&& c) {
    m_eq.insert(m_eq.end(), c.constraints.begin(), c.constraints.end());
  }
  void SubjectTo(const InequalityConstraints& c) {
    m_ineq.insert(m_ineq.end(), c.constraints.begin(), c.constraints.end());
  }
  void SubjectTo(InequalityConstraints&& c) {
    m_ineq.insert(m_ineq.end(), c.constraints.begin(), c.constraints.end());
  }

  template <typename F>
    requires std::invocable<F, const SolverIterationInfo&>
  void Callback(F&& callback) {
    if constexpr (std::same_as<std::invoke_result_t<F, const SolverIterationInfo&>, void>) {
      m_callback = [cb = std::forward<F>(callback)](const SolverIterationInfo& i) mutable -> bool {
        cb(i);
        return false;
      };
    } else {
      m_callback = [cb = std::forward<F>(callback)](const SolverIterationInfo& i) mutable -> bool {
        return static_cast<bool>(cb(i));
      };
    }
  }

  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    auto& hook = shim::SolveHook();
    if (!hook) return SolverStatus{};
    return hook(*this, config);
  }

  // ---- observation interface (not part of Sleipnir) ----
  std::vector<Variable>& shim_vars() { return m_vars; }
  std::vector<Variable>& shim_eq() { return m_eq; }
  std::vector<Variable>& shim_ineq() { return m_ineq; }
  std::optional<Variable>& shim_cost() { return m_cost; }
  /// One solver iteration's callback; false when none is set.
  bool shim_iterate(const SolverIterationInfo& info) {
    return m_callback ? m_callback(info) : false;
  }

 private:
  std::vector<Variable> m_vars;
  std::optional<Variable> m_cost;
  std::vector<Variable> m_eq;
  std::vector<Variable> m_ineq;
  std::function<bool(const SolverIterationInfo&)> m_callback;
};

}  // namespace sleipnir
