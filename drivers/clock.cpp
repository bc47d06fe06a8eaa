// The virtual clock: this program's std clocks and clock_gettime return it.
#include <time.h>

#include <atomic>
#include <chrono>
#include <cstdint>

std::atomic<int64_t>*& ClockOfThread() {
  thread_local std::atomic<int64_t>* clock = nullptr;
  return clock;
}
std::atomic<int64_t>& VirtualNow() {
  static std::atomic<int64_t> t{1'000'000'000'000};
  return ClockOfThread() ? *ClockOfThread() : t;
}

namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point{duration{VirtualNow().load()}};
}
system_clock::time_point system_clock::now() noexcept {
  return time_point{duration_cast<duration>(nanoseconds{VirtualNow().load()})};
}
}  // namespace _V2
}  // namespace std::chrono
