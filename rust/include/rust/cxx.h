// Stand-in for cxx's C++ header; see ../../cxx.rs.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace rust {
inline namespace cxxbridge1 {
template <typename T>
class Vec : public std::vector<T> {
 public:
  using std::vector<T>::vector;
  using value_type = T;
};
class String : public std::string {
 public:
  using std::string::string;
  String(const std::string& s) : std::string{s} {}
};
using isize = std::ptrdiff_t;
template <typename S>
class Fn;
}  // namespace cxxbridge1
}  // namespace rust

namespace vpx {
using Words = std::vector<uint64_t>;
template <typename T>
struct Wire;
template <typename T>
  requires std::is_integral_v<T>
struct Wire<T> {
  static void put(Words& b, T v) { b.push_back(static_cast<uint64_t>(static_cast<int64_t>(v))); }
  static T get(const uint64_t*& r) { return static_cast<T>(*r++); }
};
template <typename T>
  requires std::is_floating_point_v<T>
struct Wire<T> {
  static void put(Words& b, T v) { double d = v; uint64_t w; std::memcpy(&w, &d, 8); b.push_back(w); }
  static T get(const uint64_t*& r) { double d; std::memcpy(&d, r++, 8); return static_cast<T>(d); }
};
template <typename T>
struct Wire<rust::Vec<T>> {
  static void put(Words& b, const rust::Vec<T>& v) { b.push_back(v.size()); for (const auto& x : v) Wire<T>::put(b, x); }
  static rust::Vec<T> get(const uint64_t*& r) {
    rust::Vec<T> v;
    for (uint64_t n = *r++; n > 0; --n) v.push_back(Wire<T>::get(r));
    return v;
  }
};
template <>
struct Wire<rust::String> {
  static void put(Words& b, const std::string& v) { b.push_back(v.size()); for (unsigned char c : v) b.push_back(c); }
  static rust::String get(const uint64_t*& r) {
    rust::String s;
    for (uint64_t n = *r++; n > 0; --n) s.push_back(static_cast<char>(*r++));
    return s;
  }
};
inline uint64_t* Answer(const Words& b, size_t* n) {
  auto* p = static_cast<uint64_t*>(std::malloc(b.size() * 8 + 8));
  std::copy(b.begin(), b.end(), p);
  *n = b.size();
  return p;
}
inline uint64_t* Failure(const char* what, size_t* n) {
  Words b{1};
  Wire<rust::String>::put(b, what);
  return Answer(b, n);
}
}  // namespace vpx

namespace rust {
inline namespace cxxbridge1 {
template <typename... Args>
class Fn<void(Args...)> {
 public:
  using Tramp = void (*)(uint64_t, const uint64_t*, size_t);
  Fn(uint64_t t, uint64_t f) : tramp{reinterpret_cast<Tramp>(t)}, fn{f} {}
  void operator()(Args... args) const noexcept {
    vpx::Words b;
    (vpx::Wire<std::remove_cvref_t<Args>>::put(b, args), ...);
    tramp(fn, b.data(), b.size());
  }
  Fn operator*() const noexcept { return *this; }

 private:
  Tramp tramp;
  uint64_t fn;
};
}  // namespace cxxbridge1
}  // namespace rust
namespace vpx {
template <typename S>
struct Wire<rust::Fn<S>> {
  static rust::Fn<S> get(const uint64_t*& r) { auto t = *r++; auto f = *r++; return {t, f}; }
};
}  // namespace vpx
