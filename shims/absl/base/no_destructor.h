#ifndef VERIF_SHIM_NO_DESTRUCTOR_H_
#define VERIF_SHIM_NO_DESTRUCTOR_H_
#include <new>
#include <type_traits>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
    requires(!std::is_same_v<void(std::decay_t<A>&...), void(NoDestructor&)> &&
             std::is_constructible_v<T, A...>)
  explicit NoDestructor(A&&... a) {
    new (s_) T(std::forward<A>(a)...);
  }
  explicit NoDestructor(const T& x) { new (s_) T(x); }
  explicit NoDestructor(T&& x) { new (s_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  T* get() { return std::launder(reinterpret_cast<T*>(s_)); }
  const T* get() const { return std::launder(reinterpret_cast<const T*>(s_)); }
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }

 private:
  alignas(T) unsigned char s_[sizeof(T)];
};
template <typename T>
NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
#endif
