// What all drivers share: number encodings, fixed-point observations, and the
// case runner (each case in a forked child, so that a crash or a hang of the
// code under test is itself an observation).
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <numbers>
#include <string>

#include "json.hpp"

using js::Value;

constexpr long kNaN = 1999999999;  // observation of a non-finite / huge number

/// Numbers in commands: integer, or {"n":a,"d":b}, {"deg":k}, {"q":k} (quarter
/// turns), {"cs":[c,s]} (angle), {"ia":[m,p,q]} (m/phi) and {"iaa":[j,p,q]}
/// (j/phi^2) with phi = atan2(q, p).
inline double Num(const Value& v) {
  if (v.kind == Value::kNum) return v.n;
  if (v.kind == Value::kArr) throw std::runtime_error{"driver: number expected"};
  double r = 0;
  if (v.has("n")) r = std::ldexp(Num(v["n"]) / (v.has("d") ? Num(v["d"]) : 1.0), int(v.i("e", 0)));
  else if (v.has("deg")) r = v["deg"].n * std::numbers::pi / 180.0 / (v.has("d") ? Num(v["d"]) : 1.0);
  else if (v.has("q")) r = v["q"].n * std::numbers::pi / 2.0;
  else if (v.has("ia")) r = Num(v["ia"].at(0)) / std::atan2(Num(v["ia"].at(2)), Num(v["ia"].at(1)));
  else if (v.has("iaa")) r = Num(v["iaa"].at(0)) / std::pow(std::atan2(Num(v["iaa"].at(2)), Num(v["iaa"].at(1))), 2);
  else if (v.has("cs")) r = std::atan2(Num(v["cs"].at(1)), Num(v["cs"].at(0)));
  else throw std::runtime_error{"driver: bad number"};
  return r;
}

/// Fixed-point observation in millionths.
inline Value Fx(double d, double unit = 1e6) {
  if (!std::isfinite(d) || std::abs(d * unit) > 1.9e9) return Value{kNaN};
  return Value{static_cast<long>(std::llround(d * unit))};
}
inline Value FxArr(const std::vector<double>& v, double unit = 1e6) {
  Value a = Value::Arr();
  for (double d : v) a.push(Fx(d, unit));
  return a;
}
/// v in units of 1/unit when it is exactly that, else "not a number".
inline Value Exact(double v, double unit) {
  double x = v * unit;
  return std::isfinite(x) && std::abs(x) < 1.9e9 && x == std::floor(x) ? Value{static_cast<long>(x)} : Value{kNaN};
}
inline Value ExactArr(const std::vector<double>& v, double unit) {
  Value a = Value::Arr();
  for (double d : v) a.push(Exact(d, unit));
  return a;
}
/// What rounding to fixed point leaves, in millionths.
inline Value RestArr(const std::vector<double>& v, double unit) {
  Value a = Value::Arr();
  for (double d : v) {
    double x = d * unit;
    a.push(std::isfinite(x) && std::abs(x) < 1.9e9 ? Fx(x - std::llround(x)) : Value{kNaN});
  }
  return a;
}

/// Runs every case of `in` (one JSON object per line) in a child process and
/// writes the events to `out`.
inline int RunCases(const std::string& in, const std::string& out,
                    const std::function<void(const Value&, const std::function<void(Value)>&)>& run,
                    int limitSeconds = 60) {
  std::ifstream f{in};
  FILE* o = std::fopen(out.c_str(), "w");
  if (!f || !o) { std::cerr << "driver: cannot open files\n"; return 2; }
  std::string line;
  long k = 0;
  int crashes = 0, hangs = 0;
  while (std::getline(f, line)) {
    if (line.empty()) continue;
    Value c = js::Parse(line);
    ++k;
    std::fprintf(o, "{\"k\":%ld,\"ev\":\"reset\"}\n", k);
    int fd[2];
    if (pipe(fd) != 0) return 2;
    std::fflush(o);
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(fd[0]);
      FILE* w = fdopen(fd[1], "w");
      auto emit = [&](Value e) {
        Value x = Value::Obj();
        x.set("k", Value{k});
        for (auto& [a, b] : e.o) x.set(a, b);
        std::string s = js::Dump(x);
        s += '\n';
        std::fwrite(s.data(), 1, s.size(), w);
        std::fflush(w);
      };
      // Cases take milliseconds: a runaway is stopped by the time it computes,
      // a deadlock by the clock
      rlimit cpu{15, 16};
      setrlimit(RLIMIT_CPU, &cpu);
      alarm(limitSeconds);
      int rc = 0;
      try {
        run(c, emit);
      } catch (const std::exception& e) {
        std::cerr << "driver error in case " << k << ": " << e.what() << "\n";
        rc = 99;
      }
      std::fclose(w);
      _exit(rc);
    }
    close(fd[1]);
    char buf[65536];
    ssize_t n;
    std::string tail;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) {
      tail.append(buf, n);
      size_t nl = tail.rfind('\n');
      if (nl != std::string::npos) {
        std::fwrite(tail.data(), 1, nl + 1, o);
        tail.erase(0, nl + 1);
      }
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return 2;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
      std::fprintf(o, "{\"k\":%ld,\"ev\":\"crash\",\"sig\":%d}\n", k, sig);
      if (sig == SIGALRM || sig == SIGXCPU || sig == SIGKILL) ++hangs;
      if (++crashes >= 20 || hangs >= 3) break;  // enough evidence
    }
  }
  std::fclose(o);
  return 0;
}

/// Handles in commands and observations are small numbers that stand for
/// 64-bit values of all sizes.
inline const std::vector<int64_t>& Handles() {
  static const std::vector<int64_t> h{0, 1, -1, 5, 5 + (int64_t{1} << 32), 5 - (int64_t{1} << 32), (int64_t{1} << 53) + 1, (int64_t{1} << 53),
                                      INT64_MAX, INT64_MIN, -(int64_t{1} << 31), int64_t{1} << 31};
  return h;
}
inline int64_t Handle(long token) { return Handles().at(size_t(token)); }
inline Value HandleToken(int64_t h) {
  for (size_t i = 0; i < Handles().size(); ++i)
    if (Handles()[i] == h) return Value{static_cast<long>(i)};
  return Value{-1L};
}
