// Timed trajectories and handles as observations.
#pragma once
#include "common.hpp"

/// A trajectory written out by harness.rs.
inline Value LookFlat(const std::vector<double>& f, double unit = 1) {
  size_t at = 0;
  auto next = [&] { return at < f.size() ? f[at++] : std::nan(""); };
  Value a = Value::Arr();
  for (double n = next(); n > 0; --n) {
    Value o = Value::Obj();
    o.set("t", Exact(next(), unit));
    o.set("x", Exact(next(), unit));
    o.set("y", Exact(next(), unit));
    double h = next();
    o.set("hc", Fx(std::cos(h)));
    o.set("hs", Fx(std::sin(h)));
    o.set("vx", Exact(next(), unit));
    o.set("vy", Exact(next(), unit));
    o.set("w", Exact(next(), unit));
    for (const char* k : {"fx", "fy"}) {
      std::vector<double> v;
      for (double m = next(); m > 0; --m) v.push_back(next());
      o.set(k, ExactArr(v, unit));
    }
    a.push(o);
  }
  return a;
}
