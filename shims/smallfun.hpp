#pragma once
// Stand-in for the SmallFunction submodule: a type-erased callable.
#include <cstddef>
#include <functional>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace smallfun
{
enum class methods { Copy, Move };
template <class Signature, std::size_t size = 128, typename... Opts>
struct function;

template <class R, class... Xs, std::size_t size, typename... Opts>
struct function<R(Xs...), size, Opts...>
{
  struct base
  {
    virtual ~base() = default;
    virtual R call(Xs... xs) = 0;
    virtual std::unique_ptr<base> clone() const = 0;
  };
  template <typename F>
  struct impl final : base
  {
    F f;
    template <typename G>
    explicit impl(G&& g) : f(std::forward<G>(g))
    {
    }
    R call(Xs... xs) override { return f(std::forward<Xs>(xs)...); }
    std::unique_ptr<base> clone() const override
    {
      if constexpr (std::is_copy_constructible_v<F>)
        return std::make_unique<impl>(f);
      else
        throw std::logic_error("not copyable");
    }
  };
  std::unique_ptr<base> m;

  function() = default;
  function(std::nullptr_t) { }
  template <
      class F,
      typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, function>>,
      typename = std::enable_if_t<std::is_invocable_v<std::decay_t<F>&, Xs...>>>
  function(F&& f) : m(std::make_unique<impl<std::decay_t<F>>>(std::forward<F>(f)))
  {
    static_assert(size == 0 || sizeof(std::decay_t<F>) <= size + sizeof(void*));
  }
  function(const function& o) : m(o.m ? o.m->clone() : nullptr) { }
  function(function&& o) noexcept = default;
  function& operator=(const function& o)
  {
    m = o.m ? o.m->clone() : nullptr;
    return *this;
  }
  function& operator=(function&& o) noexcept = default;

  template <class... Ys>
  R operator()(Ys&&... ys) const
  {
    if (!m)
      throw std::bad_function_call();
    return m->call(std::forward<Ys>(ys)...);
  }
  explicit operator bool() const noexcept { return bool(m); }
  bool allocated() const noexcept { return bool(m); }
};
}
