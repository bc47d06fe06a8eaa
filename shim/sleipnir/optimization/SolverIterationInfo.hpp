#pragma once
#include <vector>
namespace sleipnir {
struct SolverIterationInfo {
  int iteration = 0;
  std::vector<double> x;
  std::vector<double> s;
};
}  // namespace sleipnir
