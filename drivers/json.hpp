// Minimal JSON value, parser and writer for the drivers.
#pragma once
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace js {

struct Value {
  enum Kind { kNull, kBool, kNum, kStr, kArr, kObj } kind = kNull;
  bool b = false;
  double n = 0;
  std::string s;
  std::vector<Value> a;
  std::vector<std::pair<std::string, Value>> o;

  Value() = default;
  Value(bool v) : kind{kBool}, b{v} {}                      // NOLINT
  Value(int v) : kind{kNum}, n{double(v)} {}                // NOLINT
  Value(long v) : kind{kNum}, n{double(v)} {}               // NOLINT
  Value(long long v) : kind{kNum}, n{double(v)} {}          // NOLINT
  Value(size_t v) : kind{kNum}, n{double(v)} {}             // NOLINT
  Value(double v) : kind{kNum}, n{v} {}                     // NOLINT
  Value(const char* v) : kind{kStr}, s{v} {}                // NOLINT
  Value(std::string v) : kind{kStr}, s{std::move(v)} {}     // NOLINT
  static Value Arr() { Value v; v.kind = kArr; return v; }
  static Value Obj() { Value v; v.kind = kObj; return v; }

  bool has(const std::string& k) const {
    for (auto& [x, y] : o) if (x == k) return true;
    return false;
  }
  const Value& operator[](const std::string& k) const {
    for (auto& [x, y] : o) if (x == k) return y;
    throw std::runtime_error{"driver: no field " + k};
  }
  const Value& at(size_t i) const { return a.at(i); }
  size_t size() const { return kind == kObj ? o.size() : a.size(); }
  int64_t i() const { return static_cast<int64_t>(std::llround(n)); }
  int64_t i(const std::string& k, int64_t dflt) const { return has(k) ? (*this)[k].i() : dflt; }
  Value& push(Value v) { kind = kArr; a.push_back(std::move(v)); return *this; }
  Value& set(const std::string& k, Value v) {
    kind = kObj;
    for (auto& [x, y] : o) if (x == k) { y = std::move(v); return *this; }
    o.emplace_back(k, std::move(v));
    return *this;
  }
};

struct Parser {
  const std::string& t;
  size_t p = 0;
  explicit Parser(const std::string& text) : t{text} {}
  void ws() { while (p < t.size() && std::isspace(static_cast<unsigned char>(t[p]))) ++p; }
  [[noreturn]] void fail() { throw std::runtime_error{"json parse error at " + std::to_string(p)}; }
  Value parse() {
    ws();
    if (p >= t.size()) fail();
    char c = t[p];
    if (c == '{') {
      Value v = Value::Obj(); ++p; ws();
      if (t[p] == '}') { ++p; return v; }
      while (true) {
        ws(); Value k = parse(); ws();
        if (t[p] != ':') fail();
        ++p; v.o.emplace_back(k.s, parse()); ws();
        if (t[p] == ',') { ++p; continue; }
        if (t[p] == '}') { ++p; return v; }
        fail();
      }
    }
    if (c == '[') {
      Value v = Value::Arr(); ++p; ws();
      if (t[p] == ']') { ++p; return v; }
      while (true) {
        v.a.push_back(parse()); ws();
        if (t[p] == ',') { ++p; continue; }
        if (t[p] == ']') { ++p; return v; }
        fail();
      }
    }
    if (c == '"') {
      Value v{""}; ++p;
      while (p < t.size() && t[p] != '"') {
        if (t[p] == '\\') { ++p; char e = t[p++]; v.s += e == 'n' ? '\n' : e == 't' ? '\t' : e; }
        else v.s += t[p++];
      }
      ++p; return v;
    }
    if (t.compare(p, 4, "true") == 0) { p += 4; return Value{true}; }
    if (t.compare(p, 5, "false") == 0) { p += 5; return Value{false}; }
    if (t.compare(p, 4, "null") == 0) { p += 4; return Value{}; }
    char* e = nullptr;
    double d = std::strtod(t.c_str() + p, &e);
    if (e == t.c_str() + p) fail();
    p = e - t.c_str();
    return Value{d};
  }
};

inline Value Parse(const std::string& s) { return Parser{s}.parse(); }

inline void Dump(const Value& v, std::string& out) {
  switch (v.kind) {
    case Value::kNull: out += "null"; break;
    case Value::kBool: out += v.b ? "true" : "false"; break;
    case Value::kNum: {
      char buf[40];
      if (v.n == std::floor(v.n) && std::abs(v.n) < 1e15) std::snprintf(buf, sizeof buf, "%lld", static_cast<long long>(v.n));
      else std::snprintf(buf, sizeof buf, "%.17g", v.n);
      out += buf; break;
    }
    case Value::kStr:
      out += '"';
      for (char c : v.s) {
        if (c == '"' || c == '\\') { out += '\\'; out += c; }
        else if (static_cast<unsigned char>(c) < 0x20) out += ' ';
        else out += c;
      }
      out += '"'; break;
    case Value::kArr:
      out += '[';
      for (size_t i = 0; i < v.a.size(); ++i) { if (i) out += ','; Dump(v.a[i], out); }
      out += ']'; break;
    case Value::kObj:
      out += '{';
      for (size_t i = 0; i < v.o.size(); ++i) {
        if (i) out += ',';
        out += '"'; out += v.o[i].first; out += "\":";
        Dump(v.o[i].second, out);
      }
      out += '}'; break;
  }
}
inline std::string Dump(const Value& v) { std::string s; Dump(v, s); return s; }

}  // namespace js
