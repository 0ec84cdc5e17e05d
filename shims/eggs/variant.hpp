#pragma once
// Stand-in for the eggs-cpp/variant submodule (empty in this checkout).
// Same observable semantics as far as libossia uses it: a possibly-empty
// tagged union, target<T>(), which(), npos, in_place<T>, apply.
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <sstream>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <algorithm>

namespace eggs
{
namespace variants
{
template <typename... Ts>
class variant;

struct bad_variant_access : std::logic_error
{
  bad_variant_access() : std::logic_error("bad_variant_access") { }
};

template <typename T>
struct in_place_tag_t
{
};
template <typename T>
inline constexpr in_place_tag_t<T> in_place{};

struct nullvariant_t
{
  explicit constexpr nullvariant_t(int) { }
};
inline constexpr nullvariant_t nullvariant{0};

namespace detail
{
template <std::size_t I, typename... Ts>
struct nth;
template <typename T, typename... Ts>
struct nth<0, T, Ts...>
{
  using type = T;
};
template <std::size_t I, typename T, typename... Ts>
struct nth<I, T, Ts...> : nth<I - 1, Ts...>
{
};
template <typename T, typename... Ts>
constexpr std::size_t index_of()
{
  constexpr bool b[] = {std::is_same_v<T, Ts>...};
  for (std::size_t i = 0; i < sizeof...(Ts); i++)
    if (b[i])
      return i;
  return std::size_t(-1);
}
// overload set used for converting construction
template <std::size_t I, typename T>
struct ctor_leaf
{
  std::integral_constant<std::size_t, I> operator()(T) const;
};
template <typename Seq, typename... Ts>
struct ctor_set;
template <std::size_t... I, typename... Ts>
struct ctor_set<std::index_sequence<I...>, Ts...> : ctor_leaf<I, Ts>...
{
  using ctor_leaf<I, Ts>::operator()...;
};
template <typename U, typename... Ts>
using best_match = decltype(
    std::declval<ctor_set<std::index_sequence_for<Ts...>, Ts...>>()(
        std::declval<U>()));
template <typename T>
struct is_variant : std::false_type
{
};
template <typename... Ts>
struct is_variant<variant<Ts...>> : std::true_type
{
};
template <typename T>
struct is_in_place : std::false_type
{
};
template <typename T>
struct is_in_place<in_place_tag_t<T>> : std::true_type
{
};
}

template <std::size_t I, typename V>
struct variant_element;
template <std::size_t I, typename... Ts>
struct variant_element<I, variant<Ts...>>
{
  using type = typename detail::nth<I, Ts...>::type;
};
template <typename V>
struct variant_size;
template <typename... Ts>
struct variant_size<variant<Ts...>>
    : std::integral_constant<std::size_t, sizeof...(Ts)>
{
};

template <typename... Ts>
class variant
{
  static constexpr std::size_t max_size() { return std::max({sizeof(Ts)...}); }
  static constexpr std::size_t max_align()
  {
    return std::max({alignof(Ts)...});
  }
  alignas(max_align()) unsigned char m_buf[max_size()];
  std::size_t m_which = npos;

  template <typename F>
  void dispatch(F&& f)
  {
    std::size_t i = 0;
    ((i++ == m_which ? (f(*reinterpret_cast<Ts*>(m_buf)), void()) : void()),
     ...);
  }
  template <typename F>
  void dispatch(F&& f) const
  {
    std::size_t i = 0;
    ((i++ == m_which ? (f(*reinterpret_cast<const Ts*>(m_buf)), void())
                     : void()),
     ...);
  }
  void reset() noexcept
  {
    dispatch([](auto& t) {
      using T = std::decay_t<decltype(t)>;
      t.~T();
    });
    m_which = npos;
  }
  template <typename T, typename... Args>
  void construct(Args&&... args)
  {
    ::new (static_cast<void*>(m_buf)) T(std::forward<Args>(args)...);
    m_which = detail::index_of<T, Ts...>();
  }
  static constexpr bool all_copyable = (std::is_copy_constructible_v<Ts> && ...);

public:
  static constexpr std::size_t npos = std::size_t(-1);

  constexpr variant() noexcept { }
  constexpr variant(nullvariant_t) noexcept { }

  variant(const variant& o) requires all_copyable
  {
    o.dispatch([this](const auto& t) {
      this->template construct<std::decay_t<decltype(t)>>(t);
    });
  }
  variant(variant&& o) noexcept
  {
    o.dispatch([this](auto& t) {
      this->template construct<std::decay_t<decltype(t)>>(std::move(t));
    });
  }
  template <
      typename U,
      typename = std::enable_if_t<
          !std::is_same_v<std::decay_t<U>, variant>
          && !detail::is_in_place<std::decay_t<U>>::value>,
      typename M = detail::best_match<U, Ts...>>
  variant(U&& u)
  {
    construct<typename detail::nth<M::value, Ts...>::type>(std::forward<U>(u));
  }
  template <typename T, typename... Args>
  explicit variant(in_place_tag_t<T>, Args&&... args)
  {
    construct<T>(std::forward<Args>(args)...);
  }
  ~variant() { reset(); }

  variant& operator=(const variant& o) requires all_copyable
  {
    if (this != &o)
    {
      variant tmp(o);
      *this = std::move(tmp);
    }
    return *this;
  }
  variant& operator=(variant&& o) noexcept
  {
    if (this != &o)
    {
      reset();
      o.dispatch([this](auto& t) {
        this->template construct<std::decay_t<decltype(t)>>(std::move(t));
      });
    }
    return *this;
  }
  template <
      typename U,
      typename = std::enable_if_t<!std::is_same_v<std::decay_t<U>, variant>>,
      typename M = detail::best_match<U, Ts...>>
  variant& operator=(U&& u)
  {
    variant tmp(std::forward<U>(u));
    return *this = std::move(tmp);
  }
  template <typename T, typename... Args>
  T& emplace(Args&&... args)
  {
    reset();
    construct<T>(std::forward<Args>(args)...);
    return *reinterpret_cast<T*>(m_buf);
  }
  explicit constexpr operator bool() const noexcept { return m_which != npos; }
  constexpr std::size_t which() const noexcept { return m_which; }

  template <typename F>
  void visit_value(F&& f) const
  {
    dispatch(std::forward<F>(f));
  }
  template <typename T>
  T* target() noexcept
  {
    return m_which == detail::index_of<std::remove_const_t<T>, Ts...>()
               ? reinterpret_cast<T*>(m_buf)
               : nullptr;
  }
  template <typename T>
  const T* target() const noexcept
  {
    return m_which == detail::index_of<std::remove_const_t<T>, Ts...>()
               ? reinterpret_cast<const T*>(m_buf)
               : nullptr;
  }
  void* target() noexcept { return m_which == npos ? nullptr : m_buf; }
  const void* target() const noexcept
  {
    return m_which == npos ? nullptr : m_buf;
  }

};

template <typename... Ts>
bool operator==(const variant<Ts...>& a, const variant<Ts...>& b)
  {
    if (a.which() != b.which())
      return false;
    bool r = true;
    a.visit_value([&](const auto& t) {
      using T = std::decay_t<decltype(t)>;
      r = t == *b.template target<T>();
    });
    return r;
  }
template <typename... Ts>
bool operator!=(const variant<Ts...>& a, const variant<Ts...>& b)
  {
    return !(a == b);
  }
template <typename... Ts>
bool operator<(const variant<Ts...>& a, const variant<Ts...>& b)
  {
    if (!b)
      return false;
    if (!a)
      return true;
    if (a.which() != b.which())
      return a.which() < b.which();
    bool r = false;
    a.visit_value([&](const auto& t) {
      using T = std::decay_t<decltype(t)>;
      r = t < *b.template target<T>();
    });
    return r;
  }

// variant <-> element comparisons, as upstream provides
template <typename T, typename... Ts>
requires((std::is_same_v<T, Ts> || ...)) bool
operator==(const variant<Ts...>& a, const T& b)
{
  auto p = a.template target<T>();
  return p && *p == b;
}

template <typename T, typename... Ts>
T& get(variant<Ts...>& v)
{
  if (auto p = v.template target<T>())
    return *p;
  throw bad_variant_access{};
}
template <typename T, typename... Ts>
const T& get(const variant<Ts...>& v)
{
  if (auto p = v.template target<T>())
    return *p;
  throw bad_variant_access{};
}
template <typename T, typename... Ts>
T&& get(variant<Ts...>&& v)
{
  if (auto p = v.template target<T>())
    return std::move(*p);
  throw bad_variant_access{};
}

namespace detail
{
template <typename V, std::size_t I>
using elem_t = typename variant_element<I, std::decay_t<V>>::type;
template <typename V, typename T>
using like_t = std::conditional_t<
    std::is_lvalue_reference_v<V>,
    std::conditional_t<
        std::is_const_v<std::remove_reference_t<V>>, const T&, T&>,
    std::conditional_t<
        std::is_const_v<std::remove_reference_t<V>>, const T&&, T&&>>;

template <typename R, std::size_t I, typename F, typename V>
R apply1(F&& f, V&& v)
{
  if constexpr (I < variant_size<std::decay_t<V>>::value)
  {
    using T = elem_t<V, I>;
    if (v.which() == I)
      return std::forward<F>(f)(
          static_cast<like_t<V&&, T>>(*v.template target<T>()));
    return apply1<R, I + 1>(std::forward<F>(f), std::forward<V>(v));
  }
  else
    throw bad_variant_access{};
}

template <typename F, typename V>
using res1 = decltype(std::declval<F>()(
    std::declval<like_t<V, elem_t<V, 0>>>()));
template <typename F, typename V, typename W>
using res2 = decltype(std::declval<F>()(
    std::declval<like_t<V, elem_t<V, 0>>>(),
    std::declval<like_t<W, elem_t<W, 0>>>()));
}

template <typename F, typename V>
requires detail::is_variant<std::decay_t<V>>::value decltype(auto)
apply(F&& f, V&& v)
{
  using R = detail::res1<F, V&&>;
  return detail::apply1<R, 0>(std::forward<F>(f), std::forward<V>(v));
}
template <typename R, typename F, typename V>
requires detail::is_variant<std::decay_t<V>>::value R apply(F&& f, V&& v)
{
  return detail::apply1<R, 0>(std::forward<F>(f), std::forward<V>(v));
}
template <typename F, typename V, typename W>
requires detail::is_variant<std::decay_t<V>>::value&& detail::is_variant<
    std::decay_t<W>>::value decltype(auto)
apply(F&& f, V&& v, W&& w)
{
  using R = detail::res2<F, V&&, W&&>;
  return detail::apply1<R, 0>(
      [&](auto&& a) -> R {
        return detail::apply1<R, 0>(
            [&](auto&& b) -> R {
              return f(
                  std::forward<decltype(a)>(a), std::forward<decltype(b)>(b));
            },
            std::forward<W>(w));
      },
      std::forward<V>(v));
}
}
using variants::variant;
using variants::get;
}
namespace std
{
template <typename... Ts>
struct hash<eggs::variants::variant<Ts...>>
{
  std::size_t operator()(const eggs::variants::variant<Ts...>& v) const
  {
    if (!v)
      return 0;
    return eggs::variants::apply(
        [](const auto& t) -> std::size_t {
          return std::hash<std::decay_t<decltype(t)>>{}(t);
        },
        v);
  }
};
}
