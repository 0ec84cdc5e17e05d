#pragma once
// Stand-in for the "flat" submodule (pubby/flat): sorted contiguous
// associative containers.
#include <algorithm>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace fc
{
struct container_construct_t
{
};
inline constexpr container_construct_t container_construct{};
enum class delay_sort_t
{
};
inline constexpr delay_sort_t delay_sort{};

namespace impl
{
struct identity_key
{
  template <typename T>
  const auto& operator()(const T& t) const
  {
    return t;
  }
};
struct first_key
{
  template <typename T>
  const auto& operator()(const T& t) const
  {
    return t.first;
  }
};

template <typename Container, typename Compare, typename KeyOf, bool Multi>
class flat_base
{
public:
  Container container;
  using value_type = typename Container::value_type;
  using iterator = typename Container::iterator;
  using const_iterator = typename Container::const_iterator;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = value_type&;
  using const_reference = const value_type&;
  using container_type = Container;

protected:
  template <typename A, typename B>
  static bool less(const A& a, const B& b)
  {
    return Compare{}(a, b);
  }
  static const auto& key(const value_type& v) { return KeyOf{}(v); }

public:
  flat_base() = default;
  flat_base(std::initializer_list<value_type> l)
  {
    for (auto& v : l)
      insert(v);
  }
  template <typename It>
  flat_base(It a, It b)
  {
    insert(a, b);
  }
  iterator begin() { return container.begin(); }
  iterator end() { return container.end(); }
  const_iterator begin() const { return container.begin(); }
  const_iterator end() const { return container.end(); }
  const_iterator cbegin() const { return container.begin(); }
  const_iterator cend() const { return container.end(); }
  reverse_iterator rbegin() { return reverse_iterator(end()); }
  reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  size_type size() const { return container.size(); }
  bool empty() const { return container.empty(); }
  void clear() { container.clear(); }
  void reserve(size_type n) { container.reserve(n); }
  size_type capacity() const { return container.capacity(); }
  value_type& front() { return *begin(); }
  value_type& back() { return *std::prev(end()); }
  const value_type& front() const { return *begin(); }
  const value_type& back() const { return *std::prev(end()); }

  template <typename K>
  iterator lower_bound(const K& k)
  {
    return std::partition_point(begin(), end(), [&](const value_type& v) {
      return less(key(v), k);
    });
  }
  template <typename K>
  const_iterator lower_bound(const K& k) const
  {
    return std::partition_point(begin(), end(), [&](const value_type& v) {
      return less(key(v), k);
    });
  }
  template <typename K>
  iterator upper_bound(const K& k)
  {
    return std::partition_point(begin(), end(), [&](const value_type& v) {
      return !less(k, key(v));
    });
  }
  template <typename K>
  const_iterator upper_bound(const K& k) const
  {
    return std::partition_point(begin(), end(), [&](const value_type& v) {
      return !less(k, key(v));
    });
  }
  template <typename K>
  std::pair<iterator, iterator> equal_range(const K& k)
  {
    return {lower_bound(k), upper_bound(k)};
  }
  template <typename K>
  std::pair<const_iterator, const_iterator> equal_range(const K& k) const
  {
    return {lower_bound(k), upper_bound(k)};
  }
  template <typename K>
  iterator find(const K& k)
  {
    auto it = lower_bound(k);
    return (it != end() && !less(k, key(*it))) ? it : end();
  }
  template <typename K>
  const_iterator find(const K& k) const
  {
    auto it = lower_bound(k);
    return (it != end() && !less(k, key(*it))) ? it : end();
  }
  template <typename K>
  size_type count(const K& k) const
  {
    auto r = equal_range(k);
    return r.second - r.first;
  }
  template <typename K>
  bool contains(const K& k) const
  {
    return find(k) != end();
  }

  auto insert(value_type v)
  {
    if constexpr (Multi)
    {
      auto it = upper_bound(key(v));
      return container.insert(it, std::move(v));
    }
    else
    {
      auto it = lower_bound(key(v));
      if (it != end() && !less(key(v), key(*it)))
        return std::pair<iterator, bool>(it, false);
      it = container.insert(it, std::move(v));
      return std::pair<iterator, bool>(it, true);
    }
  }
  template <typename It>
  requires (!std::is_convertible_v<It, value_type>)
  void insert(It a, It b)
  {
    for (; a != b; ++a)
      insert(value_type(*a));
  }
  iterator insert(const_iterator, value_type v)
  {
    if constexpr (Multi)
      return insert(std::move(v));
    else
      return insert(std::move(v)).first;
  }
  void insert(std::initializer_list<value_type> l)
  {
    for (auto& v : l)
      insert(v);
  }
  template <typename It>
  void insert(It a, It b, delay_sort_t)
  {
    insert(a, b);
  }
  template <typename... Args>
  auto emplace(Args&&... args)
  {
    return insert(value_type(std::forward<Args>(args)...));
  }

  iterator erase(const_iterator it) { return container.erase(it); }
  iterator erase(iterator it) requires (!std::is_same_v<iterator, const_iterator>)
  {
    return container.erase(it);
  }
  iterator erase(const_iterator a, const_iterator b)
  {
    return container.erase(a, b);
  }
  template <typename K>
  requires (!std::is_convertible_v<const K&, const_iterator>)
  size_type erase(const K& k)
  {
    auto r = equal_range(k);
    size_type n = r.second - r.first;
    container.erase(r.first, r.second);
    return n;
  }
  void swap(flat_base& o) { std::swap(container, o.container); }

  friend bool operator==(const flat_base& a, const flat_base& b)
  {
    return std::equal(a.begin(), a.end(), b.begin(), b.end());
  }
  friend bool operator!=(const flat_base& a, const flat_base& b)
  {
    return !(a == b);
  }
  friend bool operator<(const flat_base& a, const flat_base& b)
  {
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  }
};
}

template <typename Container, typename Compare = std::less<void>>
class flat_set : public impl::flat_base<Container, Compare, impl::identity_key, false>
{
public:
  using base = impl::flat_base<Container, Compare, impl::identity_key, false>;
  using key_type = typename Container::value_type;
  using base::base;
  flat_set() = default;
  template <typename K>
  const key_type* has(const K& k) const
  {
    auto it = this->find(k);
    return it == this->end() ? nullptr : &*it;
  }
};
template <typename Container, typename Compare = std::less<void>>
class flat_multiset : public impl::flat_base<Container, Compare, impl::identity_key, true>
{
public:
  using base = impl::flat_base<Container, Compare, impl::identity_key, true>;
  using key_type = typename Container::value_type;
  using base::base;
  flat_multiset() = default;
};
template <typename Container, typename Compare = std::less<void>>
class flat_map : public impl::flat_base<Container, Compare, impl::first_key, false>
{
public:
  using base = impl::flat_base<Container, Compare, impl::first_key, false>;
  using value_type = typename base::value_type;
  using iterator = typename base::iterator;
  using key_type = decltype(value_type::first);
  using mapped_type = decltype(value_type::second);
  using base::base;
  flat_map() = default;

  template <typename K>
  mapped_type* has(const K& k)
  {
    auto it = this->find(k);
    return it == this->end() ? nullptr : &it->second;
  }
  template <typename K>
  const mapped_type* has(const K& k) const
  {
    auto it = this->find(k);
    return it == this->end() ? nullptr : &it->second;
  }
  template <typename K>
  mapped_type& operator[](const K& k)
  {
    auto it = this->lower_bound(k);
    if (it == this->end() || this->less(k, it->first))
      it = this->container.insert(it, value_type{k, mapped_type{}});
    return it->second;
  }
  template <typename K>
  mapped_type& at(const K& k)
  {
    auto it = this->find(k);
    if (it == this->end())
      throw std::out_of_range("flat_map::at");
    return it->second;
  }
  template <typename K>
  const mapped_type& at(const K& k) const
  {
    auto it = this->find(k);
    if (it == this->end())
      throw std::out_of_range("flat_map::at");
    return it->second;
  }
  template <typename M>
  std::pair<iterator, bool> insert_or_assign(const key_type& k, M&& m)
  {
    auto it = this->lower_bound(k);
    if (it == this->end() || this->less(k, it->first))
      return {this->container.insert(it, value_type{k, std::forward<M>(m)}), true};
    it->second = std::forward<M>(m);
    return {it, false};
  }
  template <typename... Args>
  std::pair<iterator, bool> try_emplace(const key_type& k, Args&&... args)
  {
    auto it = this->lower_bound(k);
    if (it == this->end() || this->less(k, it->first))
      return {this->container.insert(it, value_type{k, mapped_type(std::forward<Args>(args)...)}), true};
    return {it, false};
  }
};
template <typename Container, typename Compare = std::less<void>>
class flat_multimap : public impl::flat_base<Container, Compare, impl::first_key, true>
{
public:
  using base = impl::flat_base<Container, Compare, impl::first_key, true>;
  using value_type = typename base::value_type;
  using key_type = decltype(value_type::first);
  using mapped_type = decltype(value_type::second);
  using base::base;
  flat_multimap() = default;
};

template <typename T, typename C = std::less<void>>
using vector_set = flat_set<std::vector<T>, C>;
template <typename T, typename C = std::less<void>>
using vector_multiset = flat_multiset<std::vector<T>, C>;
template <typename K, typename V, typename C = std::less<void>>
using vector_map = flat_map<std::vector<std::pair<K, V>>, C>;
template <typename K, typename V, typename C = std::less<void>>
using vector_multimap = flat_multimap<std::vector<std::pair<K, V>>, C>;
}
