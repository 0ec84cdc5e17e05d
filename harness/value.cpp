#include "values.hpp"
#include <ossia/network/value/value_conversion.hpp>
#include <ossia/network/value/detail/value_conversion_impl.hpp>
using namespace vp;
template <typename T> static ossia::value typed(const ossia::value& v) { return ossia::convert<T>(v); }
static ossia::value typed(const ossia::value& v, ossia::val_type t)
{
  using ossia::val_type;
  switch (t)
  {
    case val_type::INT: return typed<int>(v); case val_type::FLOAT: return typed<float>(v); case val_type::BOOL: return typed<bool>(v);
    case val_type::CHAR: return typed<char>(v); case val_type::STRING: return typed<std::string>(v);
    case val_type::LIST: return ossia::value(ossia::convert<std::vector<ossia::value>>(v));
    case val_type::VEC2F: return typed<ossia::vec2f>(v); case val_type::VEC3F: return typed<ossia::vec3f>(v); case val_type::VEC4F: return typed<ossia::vec4f>(v);
    case val_type::IMPULSE: return ossia::impulse{};
    default: return {};
  }
}
int main(int argc, char** argv)
{
  return drive(argc, argv, [&](const Cmd&) { J j; j.kv("e", "Reset"); emit(j); },
    [&](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      auto x = val(c.s(1));
      j.kv("x", val(x));
      if (o == "conv") { auto t = type_of(c.s(2)); emit(j.kv("t", c.s(2)).kv("r1", val(typed(x, t))).kv("r2", val(ossia::convert(x, t))).kv("x2", val(x))); return; }
      auto y = val(c.s(2));
      if (o == "cconv") { auto r = ossia::convert(x, y); emit(j.kv("c", val(y)).kv("r", val(r)).kv("x2", val(x)).kv("c2", val(y))); return; }
      if (o == "copy") // construction, assignment over a value of another type, moves, self-assignment
      {
        ossia::value a = x, b = y, d;
        d = a; a = b; b = std::move(d); ossia::value f{std::move(a)}; a = f; a = a;
        ossia::value g; g = std::move(b); b = g; std::swap(a, b);
        emit(j.kv("y", val(y)).kv("r", A{}.el(val(a)).el(val(b)).el(val(f)).el(val(g)))); return;
      }
      if (o == "cmp") { A a; a.el(x == y).el(x != y).el(x < y).el(x <= y).el(x > y).el(x >= y); emit(j.kv("y", val(y)).kv("r", a)); return; }
      c.misuse("op");
    });
}
