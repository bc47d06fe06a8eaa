// Stand-in for sleipnir::VariableMatrix: a dense matrix of Variables.
#pragma once

#include <cassert>
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>

#include <sleipnir/autodiff/Variable.hpp>

namespace sleipnir {

class VariableMatrix {
 public:
  VariableMatrix() = default;
  explicit VariableMatrix(int rows) : VariableMatrix(rows, 1) {}
  VariableMatrix(int rows, int cols) : m_rows{rows}, m_cols{cols} {
    for (int i = 0; i < rows * cols; ++i) m_v.emplace_back();
  }
  VariableMatrix(std::initializer_list<std::initializer_list<Variable>> list) {
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list.begin()->size()) : 0;
    for (const auto& row : list) {
      assert(static_cast<int>(row.size()) == m_cols);
      for (const auto& e : row) m_v.push_back(e);
    }
  }
  VariableMatrix(const std::vector<std::vector<Variable>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list.front().size()) : 0;
    for (const auto& row : list)
      for (const auto& e : row) m_v.push_back(e);
  }
  VariableMatrix(const std::vector<std::vector<double>>& list) {  // NOLINT
    m_rows = static_cast<int>(list.size());
    m_cols = m_rows ? static_cast<int>(list.front().size()) : 0;
    for (const auto& row : list)
      for (const auto& e : row) m_v.emplace_back(e);
  }
  VariableMatrix(const Variable& v) : m_rows{1}, m_cols{1} { m_v.push_back(v); }  // NOLINT

  int Rows() const { return m_rows; }
  int Cols() const { return m_cols; }
  Variable& operator()(int r, int c) { return m_v.at(r * m_cols + c); }
  const Variable& operator()(int r, int c) const { return m_v.at(r * m_cols + c); }
  Variable& operator()(int i) { return m_v.at(i); }
  const Variable& operator()(int i) const { return m_v.at(i); }
  VariableMatrix T() const {
    VariableMatrix r{m_cols, m_rows};
    for (int i = 0; i < m_rows; ++i)
      for (int j = 0; j < m_cols; ++j) r(j, i) = (*this)(i, j);
    return r;
  }
  VariableMatrix Row(int i) const {
    VariableMatrix r{1, m_cols};
    for (int j = 0; j < m_cols; ++j) r(0, j) = (*this)(i, j);
    return r;
  }
  VariableMatrix Col(int j) const {
    VariableMatrix r{m_rows, 1};
    for (int i = 0; i < m_rows; ++i) r(i, 0) = (*this)(i, j);
    return r;
  }
  double Value(int r, int c) const { return (*this)(r, c).Value(); }
  double Value(int i) const { return (*this)(i).Value(); }

  auto begin() { return m_v.begin(); }
  auto end() { return m_v.end(); }
  auto begin() const { return m_v.begin(); }
  auto end() const { return m_v.end(); }

  friend VariableMatrix operator+(const VariableMatrix& l, const VariableMatrix& r) {
    VariableMatrix o{l.m_rows, l.m_cols};
    for (size_t i = 0; i < l.m_v.size(); ++i) o.m_v[i] = l.m_v[i] + r.m_v.at(i);
    return o;
  }
  friend VariableMatrix operator-(const VariableMatrix& l, const VariableMatrix& r) {
    VariableMatrix o{l.m_rows, l.m_cols};
    for (size_t i = 0; i < l.m_v.size(); ++i) o.m_v[i] = l.m_v[i] - r.m_v.at(i);
    return o;
  }
  friend VariableMatrix operator-(const VariableMatrix& l) {
    VariableMatrix o{l.m_rows, l.m_cols};
    for (size_t i = 0; i < l.m_v.size(); ++i) o.m_v[i] = -l.m_v[i];
    return o;
  }
  friend VariableMatrix operator*(const VariableMatrix& l, const VariableMatrix& r) {
    VariableMatrix o{l.m_rows, r.m_cols};
    for (int i = 0; i < l.m_rows; ++i)
      for (int j = 0; j < r.m_cols; ++j) {
        Variable s = 0.0;
        for (int k = 0; k < l.m_cols; ++k) s += l(i, k) * r(k, j);
        o(i, j) = s;
      }
    return o;
  }
  friend VariableMatrix operator*(const VariableMatrix& l, const Variable& s) {
    VariableMatrix o{l.m_rows, l.m_cols};
    for (size_t i = 0; i < l.m_v.size(); ++i) o.m_v[i] = l.m_v[i] * s;
    return o;
  }
  friend VariableMatrix operator*(const Variable& s, const VariableMatrix& l) { return l * s; }
  friend VariableMatrix operator/(const VariableMatrix& l, const Variable& s) {
    VariableMatrix o{l.m_rows, l.m_cols};
    for (size_t i = 0; i < l.m_v.size(); ++i) o.m_v[i] = l.m_v[i] / s;
    return o;
  }

 private:
  int m_rows = 0;
  int m_cols = 0;
  std::vector<Variable> m_v;
};

inline Variable::Variable(const VariableMatrix& m) : expr{m(0, 0).expr} {}

}  // namespace sleipnir
