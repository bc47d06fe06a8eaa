#pragma once
// Histories of operations on the result type, with elements that watch their
// own lifetimes and may throw.  usage: expected CASES OUT
#include <cstdlib>
#include <optional>
#include <set>

#include <trajopt/util/expected>

#include "common.hpp"

namespace tj = trajopt;

struct ElemError {};

/// Lifetime bookkeeping of one class of elements.
struct Watch {
  std::set<const void*> live;
  long errors = 0;
  void born(const void* p) { if (!live.insert(p).second) ++errors; }
  void dead(const void* p) { if (live.erase(p) == 0) ++errors; }
  void used(const void* p) { if (!live.count(p)) ++errors; }
};
inline long gArm = 0;  // the gArm-th operation that may throw does
inline void MayThrow() { if (gArm > 0 && --gArm == 0) throw ElemError{}; }

constexpr long kDefault = 7777;

/// What elements convert from.
template <int Tag>
struct Src { long id; };

/// Copying throws unless NC, moving throws unless NM; leaves 0 when moved from.
template <int Tag, bool NC, bool NM>
struct El {
  static Watch& W() { static Watch w; return w; }
  long id;
  El() noexcept(NC) : id{kDefault} { W().born(this); }
  explicit El(long i) noexcept : id{i} { W().born(this); }
  El(const Src<Tag>& s) noexcept(NC) : id{s.id} { if (!NC) MayThrow(); W().born(this); }  // NOLINT
  El(std::initializer_list<long> l, long b) noexcept(NC) : id{b} {
    for (long x : l) id += x;
    if (!NC) MayThrow();
    W().born(this);
  }
  El(const El& o) noexcept(NC) : id{o.id} { W().used(&o); if (!NC) MayThrow(); W().born(this); }
  El(El&& o) noexcept(NM) : id{o.id} { W().used(&o); if (!NM) MayThrow(); W().born(this); o.id = 0; }
  El& operator=(const El& o) noexcept(NC) {
    W().used(this); W().used(&o);
    if (!NC) MayThrow();
    id = o.id;
    return *this;
  }
  El& operator=(El&& o) noexcept(NM) {
    W().used(this); W().used(&o);
    if (!NM) MayThrow();
    if (this != &o) { id = o.id; o.id = 0; }
    return *this;
  }
  ~El() { W().dead(this); id = -99; }
  friend bool operator==(const El& a, const El& b) { W().used(&a); W().used(&b); return a.id == b.id; }
  friend bool operator!=(const El& a, const El& b) { W().used(&a); W().used(&b); return a.id != b.id; }
  friend bool operator<(const El& a, const El& b) { return a.id < b.id; }
  friend bool operator<=(const El& a, const El& b) { return a.id <= b.id; }
  friend bool operator>(const El& a, const El& b) { return a.id > b.id; }
  friend bool operator>=(const El& a, const El& b) { return a.id >= b.id; }
};
template <int Tag>
struct Triv {
  long id = kDefault;
  Triv() = default;
  explicit Triv(long i) noexcept : id{i} {}
  Triv(const Src<Tag>& s) noexcept : id{s.id} {}  // NOLINT
  Triv(std::initializer_list<long> l, long b) noexcept : id{b} { for (long x : l) id += x; }
  friend auto operator<=>(const Triv&, const Triv&) = default;
};

template <class T> struct WatchOf { static Watch* get() { return nullptr; } };
template <int G, bool A, bool B> struct WatchOf<El<G, A, B>> { static Watch* get() { return &El<G, A, B>::W(); } };

inline long Id(long v) { return v; }
inline long Id(tj::monostate) { return 0; }
template <int G> long Id(const Triv<G>& t) { return t.id; }
template <int G, bool A, bool B> long Id(const El<G, A, B>& e) { El<G, A, B>::W().used(&e); return e.id; }

inline Value Pair(long alt, long id) { Value v = Value::Arr(); v.push(Value{alt}); v.push(Value{id}); return v; }
template <class T, class E>
Value Dump(const tj::expected<T, E>& r) {
  if (r.has_value() != static_cast<bool>(r)) return Pair(9, 9);
  if (!r.has_value()) return Pair(2, Id(r.error()));
  if constexpr (std::is_void_v<T>) return Pair(1, 0);
  else return Pair(1, Id(*r));
}

// so that a terminating operation is an event like any other
inline std::function<void()> gOnTerminate;

template <class T, class E>
struct Machine {
  using R = tj::expected<T, E>;
  static constexpr bool kVoid = std::is_void_v<T>;
  static constexpr bool kNMoveE = std::is_nothrow_move_constructible_v<E>;
  static constexpr bool kNCopyE = std::is_nothrow_copy_constructible_v<E>;
  std::array<std::optional<R>, 4> r;
  Value ret = Value::Arr();
  long calls = 0, arg = 0;
  bool na = false;

  template <class F>
  static Value Ret(F&& v) { return Dump(v); }
  /// Calls f on the register with the wanted value category.
  template <class F>
  void With(int i, int q, F&& f) {
    R& x = *r[i];
    switch (q) {
      case 0: f(x); break;
      case 1: f(std::as_const(x)); break;
      case 2: f(std::move(x)); break;
      default: f(std::move(std::as_const(x)));
    }
  }

  void Op(const Value& c) {
    const std::string& op = c["op"].s;
    int i = int(c.i("r", 0)), j = int(c.i("s", 0)), q = int(c.i("q", 0));
    long id = long(c.i("id", 0));
    long arm = long(c.i("arm", 0));
    auto& A = r.at(i);
    std::initializer_list<long> il = {long(c.i("a", 0))};
    struct Arm { Arm(long k) { gArm = k; } ~Arm() { gArm = 0; } };
    if (op == "mk_def") { A.emplace(); }
    else if (op == "mk_err") { A.reset(); E e(id); Arm a{arm}; switch (q) { case 0: A.emplace(tj::unexpect, e); break; default: A.emplace(tj::unexpect, std::move(e)); } }
    else if (op == "mk_err_u") { A.reset(); tj::unexpected<E> u{E(id)}; Arm a{arm}; if (q == 0) A.emplace(std::as_const(u)); else A.emplace(std::move(u)); }
    else if (op == "mk_err_conv") { A.reset(); Src<2> s{id}; Arm a{arm}; if (q == 0) { tj::unexpected<Src<2>> u{s}; A.emplace(u); } else A.emplace(tj::unexpected<Src<2>>{s}); }
    else if (op == "mk_err_il") { A.reset(); Arm a{arm}; A.emplace(tj::unexpect, il, long(c["b"].i())); }
    else if (op == "copy_new") { A.reset(); Arm a{arm}; A.emplace(std::as_const(*r.at(j))); }
    else if (op == "move_new") { A.reset(); Arm a{arm}; A.emplace(std::move(*r.at(j))); }
    else if (op == "destroy") { A.reset(); }
    else if (op == "assign_copy") { Arm a{arm}; *A = std::as_const(*r.at(j)); }
    else if (op == "assign_move") { Arm a{arm}; *A = std::move(*r.at(j)); }
    else if (op == "assign_err_c") {
      if constexpr (kNCopyE) { tj::unexpected<E> u{E(id)}; *A = std::as_const(u); } else na = true;
    } else if (op == "assign_err_m") {
      if constexpr (kNMoveE) { tj::unexpected<E> u{E(id)}; *A = std::move(u); } else na = true;
    } else if (op == "error") {
      With(i, q, [&](auto&& x) { E e = std::forward<decltype(x)>(x).error(); ret = Pair(2, Id(e)); });
    } else if (op == "set_error") { A->error() = E(id); }
    else if (op == "unexp_cmp") {
      tj::unexpected<E> a{E(long(c["a"].i()))}, b{E(long(c["b"].i()))};
      ret = Value::Arr();
      for (bool v : {a == b, a != b, a < b, a <= b, a > b, a >= b}) ret.push(Value{v});
    } else if (op == "cmp") {
      ret = Value::Arr();
      for (bool v : {*A == *r.at(j), *A != *r.at(j)}) ret.push(Value{v});
    } else if (op == "cmp_err") {
      tj::unexpected<E> u{E(id)};
      ret = Value::Arr();
      for (bool v : {*A == u, u == *A, *A != u, u != *A}) ret.push(Value{v});
    } else if (op == "conv_err") {
      // from a result of other types holding an error
      if constexpr (kVoid) {
        na = true;
      } else {
        A.reset();
        Arm a{arm};
        tj::expected<Src<1>, Src<2>> o{tj::unexpect, Src<2>{id}};
        if (q == 0) A.emplace(std::as_const(o)); else A.emplace(std::move(o));
      }
    } else if (op == "map_error") {
      With(i, q, [&](auto&& x) {
        auto f = [&](auto&& e) -> long { ++calls; arg = Id(e); return Id(e) + 100; };
        ret = c["alt"].i() == 0 ? Dump(std::forward<decltype(x)>(x).map_error(f)) : Dump(std::forward<decltype(x)>(x).transform_error(f));
      });
    } else if (op == "map_error_void") {
      With(i, q, [&](auto&& x) {
        auto f = [&](auto&& e) { ++calls; arg = Id(e); };
        auto res = std::forward<decltype(x)>(x).map_error(f);
        if constexpr (kVoid) ret = Pair(res.has_value() ? 1 : 2, 0);
        else ret = res.has_value() ? Pair(1, Id(*res)) : Pair(2, 0);
      });
    } else if (op == "or_else") {
      With(i, q, [&](auto&& x) {
        auto f = [&](auto&& e) -> R { ++calls; arg = Id(e); return Other(c["to"]); };
        ret = Dump(std::forward<decltype(x)>(x).or_else(f));
      });
    } else if (op == "or_else_void") {
      With(i, q, [&](auto&& x) {
        auto f = [&](auto&& e) { ++calls; arg = Id(e); };
        ret = Dump(std::forward<decltype(x)>(x).or_else(f));
      });
    } else if (op == "and_then") {
      With(i, q, [&](auto&& x) {
        if constexpr (kVoid) {
          auto f = [&]() -> R { ++calls; return Other(c["to"]); };
          ret = Dump(std::forward<decltype(x)>(x).and_then(f));
        } else {
          auto f = [&](auto&& v) -> R { ++calls; arg = Id(v); return Other(c["to"]); };
          ret = Dump(std::forward<decltype(x)>(x).and_then(f));
        }
      });
    } else if (op == "map") {
      With(i, q, [&](auto&& x) {
        bool tr = c["alt"].i() != 0;
        if constexpr (kVoid) {
          auto f = [&]() -> long { ++calls; return 100; };
          ret = tr ? Dump(std::forward<decltype(x)>(x).transform(f)) : Dump(std::forward<decltype(x)>(x).map(f));
        } else {
          auto f = [&](auto&& v) -> long { ++calls; arg = Id(v); return Id(v) + 100; };
          ret = tr ? Dump(std::forward<decltype(x)>(x).transform(f)) : Dump(std::forward<decltype(x)>(x).map(f));
        }
      });
    } else if (op == "map_void") {
      With(i, q, [&](auto&& x) {
        if constexpr (kVoid) {
          auto f = [&]() { ++calls; };
          ret = Dump(std::forward<decltype(x)>(x).map(f));
        } else {
          auto f = [&](auto&& v) { ++calls; arg = Id(v); };
          ret = Dump(std::forward<decltype(x)>(x).map(f));
        }
      });
    } else if constexpr (!kVoid) {
      if (op == "mk_val") { A.reset(); T v(id); Arm a{arm}; if (q == 0) A.emplace(std::as_const(v)); else if (q == 1) A.emplace(std::move(v)); else A.emplace(tj::in_place, v); }
      else if (op == "mk_conv") { A.reset(); Src<1> s{id}; Arm a{arm}; A.emplace(s); }
      else if (op == "mk_il") { A.reset(); Arm a{arm}; A.emplace(tj::in_place, il, long(c["b"].i())); }
      else if (op == "conv_val") {
        A.reset();
        tj::expected<Src<1>, Src<2>> o{Src<1>{id}};
        Arm a{arm};
        if (q == 0) A.emplace(std::as_const(o)); else A.emplace(std::move(o));
      } else if (op == "assign_val") {
        if constexpr (kNMoveE) { T v(id); Arm a{arm}; if (q == 0) *A = v; else *A = std::move(v); } else na = true;
      } else if (op == "assign_conv") {
        if constexpr (kNMoveE) { Src<1> s{id}; Arm a{arm}; *A = s; } else na = true;
      } else if (op == "emplace") {
        Src<1> s{id};
        T v(id);
        Arm a{arm};
        if (q == 0) A->emplace(s); else if (q == 1) A->emplace(std::as_const(v)); else A->emplace(id);
      } else if (op == "emplace_il") {
        Arm a{arm};
        A->emplace(il, long(c["b"].i()));
      } else if (op == "swap") {
        if constexpr (std::is_nothrow_move_constructible_v<T> || kNMoveE) {
          Arm a{arm};
          if (q == 0) A->swap(*r.at(j)); else { using std::swap; swap(*A, *r.at(j)); }
        } else na = true;
      } else if (op == "value") {
        With(i, q, [&](auto&& x) { T v = std::forward<decltype(x)>(x).value(); ret = Pair(1, Id(v)); });
      } else if (op == "deref") {
        With(i, q, [&](auto&& x) { T v = *std::forward<decltype(x)>(x); ret = Pair(1, Id(v)); });
      } else if (op == "arrow") {
        ret = Pair(1, q == 0 ? (*A)->id : std::as_const(*A)->id);
      } else if (op == "set_value") { if (q == 0) **A = T(id); else A->value() = T(id); }
      else if (op == "value_or") {
        if (q == 1) { T v = std::as_const(*A).value_or(T(id)); ret = Pair(1, Id(v)); }
        else { T v = std::move(*A).value_or(T(id)); ret = Pair(1, Id(v)); }
      } else if (op == "cmp_val") {
        T v(id);
        ret = Value::Arr();
        for (bool b : {*A == v, v == *A, *A != v, v != *A}) ret.push(Value{b});
      } else throw std::runtime_error{"driver: unknown op " + op};
    } else na = true;
  }
  static R Other(const Value& to) {
    if (to.at(0).i() == 2) return R{tj::unexpect, E(long(to.at(1).i()))};
    if constexpr (kVoid) return R{};
    else return R{tj::in_place, T(long(to.at(1).i()))};
  }

  Value Look(const char* threw, long thrownId) {
    Value o = Value::Obj();
    o.set("threw", Value{threw});
    o.set("tid", Value{thrownId});
    o.set("ret", ret);
    o.set("calls", Value{calls});
    o.set("arg", Value{arg});
    o.set("na", Value{na});
    Value a = Value::Arr();
    for (auto& x : r) a.push(x ? Dump(*x) : Pair(0, 0));
    o.set("regs", a);
    Watch* w[2] = {WatchOf<T>::get(), WatchOf<E>::get()};
    long err = 0;
    Value live = Value::Arr();
    for (auto* k : w) { live.push(Value{k ? long(k->live.size()) : -1L}); if (k) err += k->errors; }
    o.set("live", live);
    o.set("errs", Value{err});
    return o;
  }

  void Run(const Value& c, const std::function<void(Value)>& emit) {
    for (auto& cmd : c["cmds"].a) {
      auto event = [&](Value obs) {
        Value ev = Value::Obj();
        ev.set("ev", Value{"cmd"});
        ev.set("cmd", cmd);
        ev.set("obs", obs);
        emit(ev);
      };
      ret = Pair(0, 0);
      calls = arg = 0;
      na = false;
      gOnTerminate = [&] { gArm = 0; Value o = Look("terminate", 0); event(o); };
      if (cmd["op"].s == "kind") { event(Look("no", 0)); continue; }
      const char* threw = "no";
      long tid = 0;
      try { Op(cmd); }
      catch (const ElemError&) { threw = "elem"; }
      catch (const tj::bad_expected_access<E>& e) { threw = "bad"; tid = Id(e.error()); }
      catch (const std::runtime_error& e) { throw; }
      gArm = 0;
      event(Look(threw, tid));
    }
    for (auto& x : r) x.reset();
    Value fin = Value::Obj();
    fin.set("op", Value{"end"});
    Value ev = Value::Obj();
    ev.set("ev", Value{"cmd"});
    ev.set("cmd", fin);
    ret = Pair(0, 0);
    ev.set("obs", Look("no", 0));
    emit(ev);
  }
};

template <class T>
void PickE(const std::string& e, const Value& c, const std::function<void(Value)>& emit) {
  if (e == "triv") Machine<T, Triv<2>>{}.Run(c, emit);
  else if (e == "nothrow") Machine<T, El<2, true, true>>{}.Run(c, emit);
  else if (e == "throwcopy") Machine<T, El<2, false, true>>{}.Run(c, emit);
  else Machine<T, El<2, false, false>>{}.Run(c, emit);
}
using Emit = std::function<void(Value)>;
void RunTriv(const std::string& e, const Value& c, const Emit& emit);
void RunNothrow(const std::string& e, const Value& c, const Emit& emit);
void RunThrowCopy(const std::string& e, const Value& c, const Emit& emit);
void RunThrowMove(const std::string& e, const Value& c, const Emit& emit);
void RunVoid(const std::string& e, const Value& c, const Emit& emit);
