// Largest allocation seen since Reset(): an observer for allocation out of proportion to the input.
#ifndef VERIF_ALLOC_H_
#define VERIF_ALLOC_H_
#include <atomic>
#include <cstddef>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ALLOC_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
#endif
#endif
namespace vlib {
struct AllocWatch {
  static inline std::atomic<size_t> largest{0};
  static void Install() {
#ifdef VERIF_ALLOC_ASAN
    static bool once = [] { __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t n) { size_t p = largest.load(std::memory_order_relaxed); while (n > p && !largest.compare_exchange_weak(p, n)) {} }, [](const volatile void*) {}); return true; }();
    (void)once;
#endif
  }
  static void Reset() { Install(); largest = 0; }
  static size_t Largest() { return largest; }
};
}  // namespace vlib
#endif
