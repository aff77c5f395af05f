// A virtual clock: the program's own definitions of the standard clocks take precedence over the library's.
#pragma once
#include <chrono>
namespace vclock { inline long long ns = 1'000'000'000'000'000'000LL; }
namespace std::chrono {
  inline namespace _V2 {
    __attribute__((used)) system_clock::time_point system_clock::now() noexcept { return time_point(duration(vclock::ns)); }
    __attribute__((used)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vclock::ns)); }
  }
}
