// ossia::value <-> the records of spec/Value.tla
#pragma once
#include "vp.hpp"
#include <cmath>
#include <ossia/network/value/value.hpp>
namespace vp
{
inline const char* type_name(ossia::val_type t)
{
  using ossia::val_type;
  switch (t)
  {
    case val_type::FLOAT: return "FLOAT"; case val_type::INT: return "INT"; case val_type::VEC2F: return "VEC2F";
    case val_type::VEC3F: return "VEC3F"; case val_type::VEC4F: return "VEC4F"; case val_type::IMPULSE: return "IMPULSE";
    case val_type::BOOL: return "BOOL"; case val_type::STRING: return "STRING"; case val_type::LIST: return "LIST";
    case val_type::CHAR: return "CHAR"; default: return "NONE";
  }
}
inline ossia::val_type type_of(const std::string& s)
{
  using ossia::val_type;
  for (auto t : {val_type::FLOAT, val_type::INT, val_type::VEC2F, val_type::VEC3F, val_type::VEC4F, val_type::IMPULSE,
                 val_type::BOOL, val_type::STRING, val_type::LIST, val_type::CHAR, val_type::NONE})
    if (s == type_name(t)) return t;
  std::cerr << "bad type " << s << std::endl; fflush(stdout); _Exit(3);
}
inline J rec(const char* t, const std::string& q, const std::string& s, const A& l)
{
  return J().raw("q", q).kv("t", t).kv("s", s).kv("l", l);
}
struct to_rec
{
  static J fl(double d)
  {
    double q = d * 4;
    if (!(std::abs(q) < 1e9) || q != std::floor(q)) { char b[64]; snprintf(b, sizeof b, "odd:%.9g", d); return rec("FLOAT", "0", b, A{}); }
    return rec("FLOAT", std::to_string((long)q), "", A{});
  }
  J operator()() const { return rec("NONE", "0", "", A{}); }
  J operator()(ossia::impulse) const { return rec("IMPULSE", "0", "", A{}); }
  J operator()(int v) const { return (v > 500000000 || v < -500000000) ? rec("INT", "0", "big:" + std::to_string(v), A{}) : rec("INT", std::to_string(4 * v), "", A{}); }
  J operator()(bool v) const { return rec("BOOL", v ? "4" : "0", "", A{}); }
  J operator()(char v) const { return rec("CHAR", std::to_string(4 * int(v)), "", A{}); }
  J operator()(float v) const { return fl(v); }
  J operator()(const std::string& v) const { return rec("STRING", "0", v, A{}); }
  template <std::size_t N> J operator()(const std::array<float, N>& v) const
  {
    A a; for (float f : v) a.el(fl(f));
    return rec(N == 2 ? "VEC2F" : N == 3 ? "VEC3F" : "VEC4F", "0", "", a);
  }
  J operator()(const std::vector<ossia::value>& v) const
  {
    A a; for (auto& x : v) a.el(x.apply(*this));
    return rec("LIST", "0", "", a);
  }
};
inline J val(const ossia::value& v) { return v.apply(to_rec{}); }

struct val_parser
{
  const char* p;
  [[noreturn]] void bad() { std::cerr << "bad value text at " << p << std::endl; fflush(stdout); _Exit(3); }
  void eat(char c) { if (*p != c) bad(); ++p; }
  std::string str()
  {
    std::string r; eat('"');
    while (*p && *p != '"')
    {
      if (*p == '\\')
      {
        ++p;
        if (*p == 'u') { r += (char)strtol(std::string(p + 1, 4).c_str(), nullptr, 16); p += 5; }
        else { r += *p == 'n' ? '\n' : *p == 't' ? '\t' : *p; ++p; }
      }
      else r += *p++;
    }
    eat('"'); return r;
  }
  ossia::value value()
  {
    long q = 0; std::string t, s; std::vector<ossia::value> l;
    eat('{');
    while (*p != '}')
    {
      auto k = str(); eat(':');
      if (k == "q") q = strtol(p, const_cast<char**>(&p), 10);
      else if (k == "t") t = str();
      else if (k == "s") s = str();
      else { eat('['); while (*p != ']') { l.push_back(value()); if (*p == ',') ++p; } eat(']'); }
      if (*p == ',') ++p;
    }
    eat('}');
    auto f = [&](std::size_t i) { return i < l.size() ? l[i].get<float>() : 0.f; };
    if (t == "NONE") return {};
    if (t == "IMPULSE") return ossia::impulse{};
    if (t == "INT") return int(q / 4);
    if (t == "FLOAT") return float(q / 4.);
    if (t == "BOOL") return q != 0;
    if (t == "CHAR") return char(q / 4);
    if (t == "STRING") return s;
    if (t == "LIST") return ossia::value(l);
    if (t == "VEC2F") return std::array<float, 2>{f(0), f(1)};
    if (t == "VEC3F") return std::array<float, 3>{f(0), f(1), f(2)};
    if (t == "VEC4F") return std::array<float, 4>{f(0), f(1), f(2), f(3)};
    bad();
  }
};
inline ossia::value val(const std::string& s) { return val_parser{s.c_str()}.value(); }
}
