// Conformance harness of Expr.tla: expressions over the parameters of a device.
#include "values.hpp"
#include <ossia/editor/expression/expression.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <map>
using namespace vp;
using namespace ossia::expressions;
using ossia::net::parameter_base;
struct rep { int x, c; bool r; };
static std::vector<rep> reps;
static std::map<const parameter_base*, ossia::value> remote_;
struct pull_protocol : ossia::net::protocol_base
{
  pull_protocol() : protocol_base{flags{}} {}
  bool pull(parameter_base& p) override { if (auto& v = remote_[&p]; v.valid()) p.set_value(v); return true; }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const ossia::net::full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(ossia::net::node_base&) override { return true; }
};
static const int NP = 6, NX = 3;
struct World
{
  ossia::net::generic_device d{std::make_unique<pull_protocol>(), "d"};
  parameter_base* p[NP + 1]{};
  ossia::expression_ptr x[NX + 1];
  std::map<std::pair<int, int>, expression_callback_iterator> cbs;
  World()
  {
    using t = ossia::val_type;
    const t types[] = {t::INT, t::FLOAT, t::BOOL, t::VEC3F, t::STRING, t::LIST};
    for (int i = 1; i <= NP; i++)
      p[i] = d.create_child("p" + std::to_string(i))->create_parameter(types[i - 1]);
    p[6]->set_value(std::vector<ossia::value>{0, 0});
  }
};
static std::unique_ptr<World> W;
struct Parser
{
  const Cmd& c;
  std::size_t k;
  std::string next() { return c.s(k++); }
  ossia::destination dest(J& j)
  {
    int p = atoi(next().c_str()), i = atoi(next().c_str());
    j.kv("k", "dest").kv("p", p).kv("i", i);
    ossia::destination_index ix;
    if (i) ix.push_back(i - 1);
    return ossia::destination{*W->p[p], ix};
  }
  expression_atom::val_t operand(J& j)
  {
    auto t = next();
    if (t == "d") return dest(j);
    auto v = vp::val(next());
    j.kv("k", "val").kv("v", vp::val(v));
    return v;
  }
  ossia::expression_ptr expr(J& j)
  {
    auto t = next();
    if (t == "T" || t == "F") { j.kv("k", "bool").kv("b", t == "T"); return t == "T" ? make_expression_true() : make_expression_false(); }
    if (t == "P") { int p = atoi(next().c_str()); j.kv("k", "pulse").kv("p", p); return make_expression_pulse(ossia::destination{*W->p[p]}); }
    if (t == "N") { J a; auto e = expr(a); j.kv("k", "not").kv("x", a); return make_expression_not(std::move(e)); }
    if (t == "A")
    {
      auto o = next();
      J a, b;
      const auto l = operand(a); const auto r = operand(b);
      j.kv("k", "atom").kv("op", o).kv("x", a).kv("y", b);
      const auto op = o == "eq" ? comparator::EQUAL : o == "ne" ? comparator::DIFFERENT : o == "gt" ? comparator::GREATER
              : o == "lt" ? comparator::LOWER : o == "ge" ? comparator::GREATER_EQUAL : comparator::LOWER_EQUAL;
      return make_expression_atom(l, op, r);
    }
    auto op = t == "and" ? binary_operator::AND : t == "or" ? binary_operator::OR : binary_operator::XOR;
    if (t != "and" && t != "or" && t != "xor") c.misuse("bad expression");
    J a, b;
    auto l = expr(a); auto r = expr(b);
    j.kv("k", t).kv("x", a).kv("y", b);
    return make_expression_composition(std::move(l), op, std::move(r));
  }
};
int main(int argc, char** argv)
{
  return drive(argc, argv,
    [](const Cmd&) { W.reset(); remote_.clear(); reps.clear(); W = std::make_unique<World>(); emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      auto& w = *W;
      auto& op = c.op();
      J j;
      j.kv("e", op);
      reps.clear();
      if (op == "set") { auto v = vp::val(c.s(2)); j.kv("p", c.i(1)).kv("v", vp::val(v)); w.p[c.i(1)]->push_value(v); }
      else if (op == "remote") { auto v = vp::val(c.s(2)); j.kv("p", c.i(1)).kv("v", vp::val(v)); remote_[w.p[c.i(1)]] = v; }
      else
      {
        int x = c.i(1);
        j.kv("x", x);
        auto clear = [&] { for (auto it = w.cbs.begin(); it != w.cbs.end();) if (it->first.first == x) it = w.cbs.erase(it); else ++it; };
        if (op != "make" && !w.x[x]) c.misuse("no expression");
        if (op == "make") { J t; clear(); w.x[x].reset(); Parser p{c, 2}; w.x[x] = p.expr(t); j.kv("t", t); }
        else if (op == "destroy") { clear(); w.x[x].reset(); }
        else if (op == "cb")
        {
          int k = c.i(2);
          if (w.cbs.count({x, k})) c.misuse("callback twice");
          w.cbs[{x, k}] = add_callback(*w.x[x], [x, k](bool r) { reps.push_back({x, k, r}); });
          j.kv("c", k);
        }
        else if (op == "uncb")
        {
          int k = c.i(2);
          if (!w.cbs.count({x, k})) c.misuse("no callback");
          remove_callback(*w.x[x], w.cbs[{x, k}]);
          w.cbs.erase({x, k});
          j.kv("c", k);
        }
        else if (op == "update") update(*w.x[x]);
        else if (op == "eval") { }
        else if (op == "equal")
        {
          if (!w.x[c.i(2)]) c.misuse("no expression");
          j.kv("y", c.i(2)).kv("eq", *w.x[x] == *w.x[c.i(2)]).kv("ne", *w.x[x] != *w.x[c.i(2)]);
        }
        else c.misuse("unknown op");
      }
      A r, lis, vals, ev;
      for (auto& q : reps) r.el(J().kv("x", q.x).kv("c", q.c).kv("r", q.r));
      for (int i = 1; i <= NP; i++) { lis.el((long long)w.p[i]->callback_count()); vals.el(vp::val(w.p[i]->value())); }
      for (int i = 1; i <= NX; i++) ev.el(w.x[i] ? (int)evaluate(*w.x[i]) : -1);
      emit(j.kv("rep", r).kv("lis", lis).kv("vals", vals).kv("ev", ev));
    });
}
