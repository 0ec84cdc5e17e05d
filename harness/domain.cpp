#include "domains.hpp"
#include <ossia/network/domain/domain_conversion.hpp>
using namespace vp;
using L = std::vector<ossia::value>;
int main(int argc, char** argv)
{
  ossia::domain d;
  return drive(argc, argv, [&](const Cmd&) { d = ossia::domain{}; J j; j.kv("e", "Reset"); emit(j); },
    [&](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      if (o == "apply")
      {
        auto v = val(c.s(2)); const auto b = mode_of(c.s(1));
        auto r1 = ossia::apply_domain(d, b, v);
        auto r2 = ossia::apply_domain(d, b, ossia::value{v});
        auto r3 = d.apply(b, v);
        emit(j.kv("b", c.s(1)).kv("v", val(val(c.s(2)))).kv("v2", val(v)).kv("r1", val(r1)).kv("r2", val(r2)).kv("r3", val(r3)).kv("again", val(ossia::apply_domain(d, b, r1))));
        return;
      }
      if (o == "num") // integers over the whole range
      {
        ossia::domain i = ossia::domain_base<int32_t>((int)c.i(3), (int)c.i(4));
        auto r = ossia::apply_domain(i, mode_of(c.s(1)), ossia::value((int)c.i(2)));
        emit(j.kv("b", c.s(1)).kv("n", c.i(2)).kv("lo", c.i(3)).kv("hi", c.i(4)).kv("r", r.valid() ? r.get<int>() : 0));
        return;
      }
      if (o == "dom") { d = dom(c.s(1), val(c.s(2)), val(c.s(3)), val(c.s(4))); j.kv("k", c.s(1)).kv("mn", val(val(c.s(2)))).kv("mx", val(val(c.s(3)))).kv("vs", val(val(c.s(4)))); }
      else if (o == "make")
      {
        auto mn = val(c.s(1)), mx = val(c.s(2)); auto vs = val(c.s(3)).get<L>();
        d = vs.empty() ? ossia::make_domain(mn, mx) : (!mn.valid() && !mx.valid()) ? ossia::make_domain(vs) : ossia::make_domain(mn, mx, vs);
        j.kv("mn", val(mn)).kv("mx", val(mx)).kv("vs", val(ossia::value(vs)));
      }
      else if (o == "init") { d = ossia::init_domain(type_of(c.s(1))); j.kv("t", c.s(1)); }
      else if (o == "convd") { ossia::convert_compatible_domain(d, type_of(c.s(1))); j.kv("t", c.s(1)); }
      else
      {
        auto v = val(c.s(1)); j.kv("v", val(v));
        if (o == "setmin") d.set_min(v);
        else if (o == "setmax") d.set_max(v);
        else if (o == "setvals") ossia::set_values(d, v.get<L>());
        else c.misuse("op");
      }
      ossia::domain copy = d; ossia::domain moved = std::move(copy);
      emit(j.kv("d", dom(moved)).kv("min", val(moved.get_min())).kv("max", val(moved.get_max())));
    });
}
