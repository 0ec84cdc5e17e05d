// Conformance harness of StateMerge.tla: ossia::state on a device's parameters.
#include "values.hpp"
#include <ossia/editor/state/state_element.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
using namespace vp;
using ossia::net::parameter_base;
struct null_protocol : ossia::net::protocol_base
{
  null_protocol() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const ossia::net::full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(ossia::net::node_base&) override { return true; }
};
static const int NP = 6, NS = 3;
static A writes;
struct World
{
  ossia::net::generic_device d{std::make_unique<null_protocol>(), "d"};
  parameter_base* p[NP + 1]{};
  ossia::state s[NS + 1];
  World()
  {
    using t = ossia::val_type;
    const t types[] = {t::INT, t::FLOAT, t::STRING, t::LIST, t::VEC2F, t::VEC3F};
    for (int i = 1; i <= NP; i++)
      p[i] = d.create_child("p" + std::to_string(i))->create_parameter(types[i - 1]);
    p[4]->set_value(std::vector<ossia::value>{0, std::vector<ossia::value>{0, 0}, 0});
    for (int i = 1; i <= NP; i++)
      p[i]->add_callback([i](const ossia::value& v) { writes.el(J().kv("p", i).kv("v", vp::val(v))); });
  }
};
static std::unique_ptr<World> W;
static J rec_el(const char* k, int p, const A& i, const J& v, const A& u, const A& c)
{
  return J().kv("k", k).kv("p", p).kv("i", i).kv("v", v).kv("u", u).kv("c", c);
}
struct Parser
{
  const Cmd& c;
  std::size_t k;
  std::string next() { return c.s(k++); }
  int num() { return atoi(next().c_str()); }
  template <std::size_t N> ossia::state_element vec(int p, J& j)
  {
    std::bitset<N> u; A ua;
    for (std::size_t n = 0; n < N; n++) { u[n] = num(); ua.el(bool(u[n])); }
    auto v = vp::val(next());
    j = rec_el("vec", p, A{}, vp::val(v), ua, A{});
    return ossia::piecewise_vec_message<N>{*W->p[p], v.get<std::array<float, N>>(), {}, u};
  }
  ossia::state_element el(J& j)
  {
    auto t = next();
    if (t == "msg")
    {
      int p = num(), n = num(); ossia::destination_index ix; A i;
      while (n-- > 0) { ix.push_back(num()); i.el((int)ix.back()); }
      auto v = vp::val(next());
      j = rec_el("msg", p, i, vp::val(v), A{}, A{});
      return ossia::message{ossia::destination{*W->p[p], ix}, v};
    }
    if (t == "pw")
    {
      int p = num(); auto v = vp::val(next());
      j = rec_el("pw", p, A{}, vp::val(v), A{}, A{});
      return ossia::piecewise_message{*W->p[p], v.get<std::vector<ossia::value>>(), {}};
    }
    if (t == "vec") { int p = num(); return p == 5 ? vec<2>(p, j) : vec<3>(p, j); }
    if (t != "st") c.misuse("element");
    ossia::state s; A ch;
    for (int n = num(); n-- > 0;) { J x; s.add(el(x)); ch.el(x); }
    j = rec_el("st", 0, A{}, vp::val(ossia::value{}), A{}, ch);
    return s;
  }
};
static void report(J& j)
{
  A v, n;
  for (int i = 1; i <= NP; i++) v.el(vp::val(W->p[i]->value()));
  for (int i = 1; i <= NS; i++) n.el((int)W->s[i].size());
  emit(j.kv("vals", v).kv("n", n));
}
int main(int argc, char** argv)
{
  return drive(argc, argv,
    [](const Cmd&) { W.reset(); W = std::make_unique<World>(); J j; j.kv("e", "Reset"); report(j); },
    [](const Cmd& c)
    {
      auto op = c.op(); J j, x; Parser ps{c, 2}; int s = c.i(1);
      j.kv("e", op).kv("s", s); writes = A{};
      ossia::state& S = W->s[s];
      auto merge = [&](bool all, bool mv, ossia::state_element e) {
        if (all) mv ? merge_flatten_and_filter(S, std::move(e)) : merge_flatten_and_filter(S, e);
        else mv ? flatten_and_filter(S, std::move(e)) : flatten_and_filter(S, e);
      };
      if (op == "set") { auto v = vp::val(c.s(2)); j.kv("v", vp::val(v)); W->p[s]->push_value(v); }
      else if (op == "add") { auto e = ps.el(x); S.add(std::move(e)); j.kv("el", x); }
      else if (op == "remove") { auto e = ps.el(x); S.remove(e); j.kv("el", x); }
      else if (op == "merge" || op == "filter") { bool mv = ps.next() == "m"; auto e = ps.el(x); merge(op == "merge", mv, e); j.kv("el", x); }
      else if (op == "mergest" || op == "filterst")
      {
        int t = ps.num(); bool mv = ps.next() == "m";
        j.kv("t", t).kv("mv", mv);
        if (mv) { merge(op == "mergest", true, std::move(W->s[t])); W->s[t].clear(); }
        else merge(op == "mergest", false, W->s[t]);
      }
      else if (op == "addst") { j.kv("t", (int)c.i(2)); S.add(ossia::state_element{W->s[c.i(2)]}); }
      else if (op == "copy") { j.kv("t", (int)c.i(2)); S = W->s[c.i(2)]; }
      else if (op == "equal") { j.kv("t", (int)c.i(2)).kv("eq", S == W->s[c.i(2)]).kv("ne", S != W->s[c.i(2)]); }
      else if (op == "clear") S.clear();
      else if (op == "launch") S.launch();
      else c.misuse("op");
      j.kv("w", writes); report(j);
    });
}
