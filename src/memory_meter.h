// Memory used by a piece of code, from the sanitizer's allocation hooks.
#pragma once
#include <sanitizer/allocator_interface.h>
#include <time.h>

#include <algorithm>

extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=512:hard_rss_limit_mb=3000"; }

namespace meter {

inline bool counting = false;
inline long live = 0, peak = 0;
inline void on_malloc(const volatile void*, std::size_t n) {
  if (counting) {
    live += long(n);
    peak = std::max(peak, live);
  }
}
inline void on_free(const volatile void* p) {
  if (counting && p != nullptr) {
    live -= long(__sanitizer_get_allocated_size(const_cast<const void*>(p)));
  }
}
inline double cpu() {
  timespec t{};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
inline double started = 0;
inline void start() {
  static bool hooked = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) != 0;
  (void)hooked;
  live = peak = 0;
  counting = true;
  started = cpu();
}
inline void stop() { counting = false; }
struct Scope {
  Scope() { start(); }
  ~Scope() { stop(); }
};
// Fails if reading n bytes took too much.
inline void check(std::size_t n) {
  auto t = cpu() - started;
  if (peak > (1L << 20) + 1000L * long(n)) {
    pbt::fail("memory", "reading " + std::to_string(n) + " bytes took " + std::to_string(peak) + " bytes of memory");
  }
  if (t > 5) {
    pbt::fail("time", "reading " + std::to_string(n) + " bytes took " + std::to_string(t) + " s");
  }
}

}  // namespace meter
