// ossia::domain <-> the records of spec/Domain.tla
#pragma once
#include "values.hpp"
#include <ossia/network/domain/domain.hpp>
namespace vp
{
inline J dom_rec(const char* k, const J& mn, const J& mx, const J& vs) { return J().kv("k", k).kv("mn", mn).kv("mx", mx).kv("vs", vs); }
inline J list_rec(const A& l) { return rec("LIST", "0", "", l); }
inline J none_rec() { return rec("NONE", "0", "", A{}); }
struct to_dom_rec
{
  template <typename O> static J opt(const O& o) { return o ? val(ossia::value(*o)) : none_rec(); }
  J operator()() const { return dom_rec("NONE", none_rec(), none_rec(), list_rec({})); }
  template <typename T> J operator()(const ossia::domain_base<T>& d) const
  {
    A a; for (auto x : d.values) a.el(val(ossia::value(x)));
    return dom_rec(type_name(ossia::value(T{}).get_type()), opt(d.min), opt(d.max), list_rec(a));
  }
  J operator()(const ossia::domain_base<ossia::value>& d) const
  {
    A a; for (auto& x : d.values) a.el(val(x));
    return dom_rec("ANY", opt(d.min), opt(d.max), list_rec(a));
  }
  J operator()(const ossia::domain_base<bool>&) const { return dom_rec("BOOL", val(ossia::value(false)), val(ossia::value(true)), list_rec({})); }
  J operator()(const ossia::domain_base<ossia::impulse>&) const { return dom_rec("IMPULSE", val(ossia::value(ossia::impulse{})), val(ossia::value(ossia::impulse{})), list_rec({})); }
  J operator()(const ossia::domain_base<std::string>& d) const
  {
    A a; for (auto& x : d.values) a.el(val(ossia::value(x)));
    return dom_rec("STRING", none_rec(), none_rec(), list_rec(a));
  }
  J operator()(const ossia::vector_domain& d) const
  {
    A a;
    for (auto& s : d.values) { A b; for (auto& x : s) b.el(val(x)); a.el(list_rec(b)); }
    return dom_rec("LIST", val(ossia::value(d.min)), val(ossia::value(d.max)), list_rec(a));
  }
  template <std::size_t N> J operator()(const ossia::vecf_domain<N>& d) const
  {
    A a, mn, mx;
    for (auto& s : d.values) { A b; for (float x : s) b.el(val(ossia::value(x))); a.el(list_rec(b)); }
    for (auto& x : d.min) mn.el(opt(x));
    for (auto& x : d.max) mx.el(opt(x));
    return dom_rec(N == 2 ? "VEC2F" : N == 3 ? "VEC3F" : "VEC4F", list_rec(mn), list_rec(mx), list_rec(a));
  }
};
inline J dom(const ossia::domain& d) { return ossia::apply(to_dom_rec{}, d); }

template <typename T> ossia::domain num_dom(const ossia::value& mn, const ossia::value& mx, const std::vector<ossia::value>& vs)
{
  ossia::domain_base<T> d;
  if (mn.valid()) d.min = mn.get<T>();
  if (mx.valid()) d.max = mx.get<T>();
  for (auto& v : vs) d.values.push_back(v.get<T>());
  return d;
}
template <std::size_t N> ossia::domain vec_dom(const std::vector<ossia::value>& mn, const std::vector<ossia::value>& mx, const std::vector<ossia::value>& vs)
{
  ossia::vecf_domain<N> d;
  for (std::size_t i = 0; i < N; i++)
  {
    if (i < mn.size() && mn[i].valid()) d.min[i] = mn[i].get<float>();
    if (i < mx.size() && mx[i].valid()) d.max[i] = mx[i].get<float>();
    if (i < vs.size()) for (auto& v : vs[i].get<std::vector<ossia::value>>()) d.values[i].insert(v.get<float>());
  }
  return d;
}
inline ossia::domain dom(const std::string& k, const ossia::value& mn, const ossia::value& mx, const ossia::value& vs)
{
  using L = std::vector<ossia::value>;
  const L& vals = vs.get<L>();
  if (k == "NONE") return {};
  if (k == "INT") return num_dom<int>(mn, mx, vals);
  if (k == "FLOAT") return num_dom<float>(mn, mx, vals);
  if (k == "CHAR") return num_dom<char>(mn, mx, vals);
  if (k == "BOOL") return ossia::domain_base<bool>{};
  if (k == "IMPULSE") return ossia::domain_base<ossia::impulse>{};
  if (k == "STRING") { ossia::domain_base<std::string> d; for (auto& v : vals) d.values.push_back(v.get<std::string>()); return d; }
  if (k == "ANY")
  {
    ossia::domain_base<ossia::value> d;
    if (mn.valid()) d.min = mn;
    if (mx.valid()) d.max = mx;
    d.values = vals; return d;
  }
  if (k == "LIST")
  {
    ossia::vector_domain d; d.min = mn.get<L>(); d.max = mx.get<L>();
    for (auto& s : vals) { ossia::flat_set<ossia::value> f; for (auto& v : s.get<L>()) f.insert(v); d.values.push_back(f); }
    return d;
  }
  if (k == "VEC2F") return vec_dom<2>(mn.get<L>(), mx.get<L>(), vals);
  if (k == "VEC3F") return vec_dom<3>(mn.get<L>(), mx.get<L>(), vals);
  if (k == "VEC4F") return vec_dom<4>(mn.get<L>(), mx.get<L>(), vals);
  std::cerr << "bad domain kind " << k << std::endl; fflush(stdout); _Exit(3);
}
inline ossia::bounding_mode mode_of(const std::string& s)
{
  using ossia::bounding_mode;
  return s == "CLIP" ? bounding_mode::CLIP : s == "WRAP" ? bounding_mode::WRAP : s == "FOLD" ? bounding_mode::FOLD
       : s == "LOW" ? bounding_mode::LOW : s == "HIGH" ? bounding_mode::HIGH : bounding_mode::FREE;
}
}
