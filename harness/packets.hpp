// OSC packets, written and read independently of the library
#pragma once
#include "values.hpp"
#include <cstring>
namespace vp
{
struct Arg { char g; ossia::value v; };
struct Msg { std::string a; std::vector<Arg> args; };
static void put(std::string& s, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) s += char(v >> (8 * i)); }
static void pad(std::string& s) { while (s.size() % 4) s += '\0'; }
static void text(std::string& s, const std::string& t) { s += t; s += '\0'; pad(s); }
static float f32(const ossia::value& v) { return v.get<float>(); }
static std::string encode(const Msg& m)
{
  std::string s, t = ",", d;
  text(s, m.a);
  for (auto& x : m.args)
  {
    t += x.g;
    switch (x.g)
    {
      case 'i': put(d, (uint32_t)x.v.get<int>(), 4); break;
      case 'c': put(d, (uint32_t)(int)x.v.get<char>(), 4); break;
      case 'h': put(d, (uint64_t)(int64_t)x.v.get<int>(), 8); break;
      case 't': put(d, (uint64_t)x.v.get<int>(), 8); break;
      case 'f': { float f = f32(x.v); uint32_t u; memcpy(&u, &f, 4); put(d, u, 4); break; }
      case 'd': { double f = f32(x.v); uint64_t u; memcpy(&u, &f, 8); put(d, u, 8); break; }
      case 's': case 'S': text(d, x.v.get<std::string>()); break;
      case 'b': { auto& b = x.v.get<std::string>(); put(d, b.size(), 4); d += b; pad(d); break; }
      case 'r': { auto& w = x.v.get<ossia::vec4f>(); for (float f : w) d += char((int)f); break; }
      default: break;
    }
  }
  text(s, t);
  return s + d;
}
static std::string pack(const std::vector<std::string>& els)
{
  std::string s("#bundle\0\0\0\0\0\0\0\0\1", 16);
  for (auto& e : els) { put(s, e.size(), 4); s += e; }
  return s;
}
struct Bad {};
static std::vector<Msg> decode(const std::string& s)
{
  std::size_t i = 0;
  auto need = [&](std::size_t n) { if (s.size() - i < n) throw Bad{}; };
  auto get = [&](int n) { need(n); uint64_t v = 0; for (int k = 0; k < n; k++) v = v << 8 | (unsigned char)s[i++]; return v; };
  auto txt = [&] { auto z = s.find('\0', i); if (z == s.npos) throw Bad{}; auto r = s.substr(i, z - i); std::size_t e = (z / 4 + 1) * 4; if (e > s.size()) throw Bad{};
                   for (auto k = z; k < e; k++) if (s[k]) throw Bad{}; i = e; return r; };
  if (s.empty() || s.size() % 4) throw Bad{};
  std::vector<Msg> r;
  if (s[0] == '#')
  {
    if (s.compare(0, 16, std::string("#bundle\0\0\0\0\0\0\0\0\1", 16))) throw Bad{};
    i = 16;
    while (i < s.size()) { auto n = get(4); need(n); for (auto& m : decode(s.substr(i, n))) r.push_back(m); i += n; }
    return r;
  }
  Msg m; m.a = txt();
  auto tags = txt();
  if (tags.empty() || tags[0] != ',') throw Bad{};
  for (char g : tags.substr(1))
  {
    Arg x{g, {}};
    switch (g)
    {
      case 'i': x.v = (int)(int32_t)get(4); break;
      case 'c': x.v = (char)(int32_t)get(4); break;
      case 'f': { uint32_t u = get(4); float f; memcpy(&f, &u, 4); x.v = f; break; }
      case 'd': { uint64_t u = get(8); double f; memcpy(&f, &u, 8); x.v = (float)f; break; }
      case 's': x.v = txt(); break;
      case 'b': { auto n = get(4); need(n); x.v = s.substr(i, n); i += n; while (i % 4) { need(1); if (s[i++]) throw Bad{}; } break; }
      case 'r': { ossia::vec4f w; for (float& f : w) f = (unsigned char)get(1); x.v = w; break; }
      case 'T': case 'F': case 'I': case 'N': case '[': case ']': break;
      default: throw Bad{};
    }
    m.args.push_back(x);
  }
  if (i != s.size()) throw Bad{};
  r.push_back(m);
  return r;
}
static A args_json(const std::vector<Arg>& v) { A a; for (auto& x : v) a.el(J().kv("g", std::string(1, x.g)).kv("v", val(x.v))); return a; }
static A packet_json(const std::string& s)
{
  A a;
  try { for (auto& m : decode(s)) a.el(J().kv("a", m.a).kv("args", args_json(m.args))); }
  catch (Bad) { a.el(J().kv("a", "(malformed packet)").kv("args", A{})); }
  return a;
}
}
