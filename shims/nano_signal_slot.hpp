#pragma once
// Stand-in for the nano-signal-slot submodule (libossia's copy-on-emit fork).
// Slots are identified by (object, function); a slot is called at most once
// per connection; emission works on a snapshot taken when it starts and skips
// the slots disconnected while it runs.
#include <algorithm>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

namespace Nano
{
using DelegateKey = std::pair<const void*, const void*>;
class Observer;
namespace detail
{
struct signal_base
{
  virtual ~signal_base() = default;
  virtual void drop_observer(Observer*) = 0;
};
template <auto F>
struct fn_id
{
  static inline const char id{};
};
}

class Observer
{
public:
  std::vector<detail::signal_base*> m_signals;
  Observer() = default;
  Observer(const Observer&) { }
  Observer& operator=(const Observer&) { return *this; }
  virtual ~Observer() { disconnect_all(); }
  void disconnect_all()
  {
    auto s = std::move(m_signals);
    m_signals.clear();
    for (auto x : s)
      x->drop_observer(this);
  }
  void removeAll() { disconnect_all(); }
};

template <typename Sig>
class Signal;
template <typename R, typename... Args>
class Signal<R(Args...)> : public detail::signal_base
{
  struct slot
  {
    const void* obj;
    const void* fn;
    Observer* obs;
    std::function<R(Args...)> f;
    bool alive = true;
  };
  std::vector<std::shared_ptr<slot>> m_slots;

  template <typename T>
  static Observer* to_obs(T* t)
  {
    if constexpr (std::is_base_of_v<Observer, T>)
      return static_cast<Observer*>(t);
    else
      return nullptr;
  }
  void add(const void* o, const void* fn, Observer* obs, std::function<R(Args...)> f)
  {
    auto s = std::make_shared<slot>();
    s->obj = o;
    s->fn = fn;
    s->obs = obs;
    s->f = std::move(f);
    m_slots.push_back(std::move(s));
    if (obs)
      if (std::find(obs->m_signals.begin(), obs->m_signals.end(), this)
          == obs->m_signals.end())
        obs->m_signals.push_back(this);
  }
  void del(const void* o, const void* fn)
  {
    Observer* obs{};
    for (auto it = m_slots.begin(); it != m_slots.end();)
      if ((*it)->obj == o && (*it)->fn == fn)
      {
        obs = (*it)->obs;
        (*it)->alive = false;
        it = m_slots.erase(it);
      }
      else
        ++it;
    if (obs)
    {
      for (auto& s : m_slots)
        if (s->obs == obs)
          return;
      auto& v = obs->m_signals;
      v.erase(std::remove(v.begin(), v.end(), this), v.end());
    }
  }

public:
  Signal() = default;
  Signal(const Signal&) = delete;
  Signal& operator=(const Signal&) = delete;
  ~Signal()
  {
    for (auto& s : m_slots)
    {
      s->alive = false;
      if (s->obs)
      {
        auto& v = s->obs->m_signals;
        v.erase(std::remove(v.begin(), v.end(), this), v.end());
      }
    }
  }
  void drop_observer(Observer* o) override
  {
    for (auto it = m_slots.begin(); it != m_slots.end();)
      if ((*it)->obs == o)
      {
        (*it)->alive = false;
        it = m_slots.erase(it);
      }
      else
        ++it;
  }

  // functor object
  template <typename L>
  void connect(L* l)
  {
    add(l, nullptr, to_obs(l),
        [l](Args... a) -> R { return (*l)(std::forward<Args>(a)...); });
  }
  template <typename L>
  requires (!std::is_pointer_v<std::remove_reference_t<L>>)
  void connect(L& l) { connect(std::addressof(l)); }
  template <typename L>
  void disconnect(L* l) { del(l, nullptr); }
  template <typename L>
  requires (!std::is_pointer_v<std::remove_reference_t<L>>)
  void disconnect(L& l) { del(std::addressof(l), nullptr); }

  // free functions
  template <auto F>
  void connect()
  {
    add(nullptr, &detail::fn_id<F>::id, nullptr,
        [](Args... a) -> R { return F(std::forward<Args>(a)...); });
  }
  template <auto F>
  void disconnect() { del(nullptr, &detail::fn_id<F>::id); }

  // member functions
  template <auto F, typename T>
  void connect(T* t)
  {
    add(t, &detail::fn_id<F>::id, to_obs(t),
        [t](Args... a) -> R { return (t->*F)(std::forward<Args>(a)...); });
  }
  template <auto F, typename T>
  requires (!std::is_pointer_v<std::remove_reference_t<T>>)
  void connect(T& t) { this->template connect<F>(std::addressof(t)); }
  template <auto F, typename T>
  void disconnect(T* t) { del(t, &detail::fn_id<F>::id); }
  template <auto F, typename T>
  requires (!std::is_pointer_v<std::remove_reference_t<T>>)
  void disconnect(T& t) { del(std::addressof(t), &detail::fn_id<F>::id); }

  template <typename... A>
  void operator()(A&&... args) const
  {
    auto copy = m_slots;
    for (auto& s : copy)
      if (s->alive)
        s->f(args...);
  }
  template <typename... A>
  void fire(A&&... args) const { (*this)(std::forward<A>(args)...); }
  bool empty() const noexcept { return m_slots.empty(); }
  std::size_t size() const noexcept { return m_slots.size(); }
};
}
