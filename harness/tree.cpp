// Conformance harness of Tree.tla: a generic_device with a protocol that does
// nothing; every notification of the device is logged, and after every
// operation the whole tree is read back.
#include "vp.hpp"
#include <ossia/network/base/device.hpp>
#include <ossia/network/base/node.hpp>
#include <ossia/network/base/node_functions.hpp>
#include <ossia/network/base/osc_address.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <ossia/network/generic/generic_node.hpp>
#include <ossia/network/generic/generic_parameter.hpp>
#include <set>
#include <map>
using namespace vp;
using namespace ossia::net;
struct null_protocol : protocol_base
{
  null_protocol() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base&, const ossia::value&) override { return true; }
  bool push_raw(const full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(node_base&) override { return true; }
};
static std::string dec(const std::string& s)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size()) { r += (char)std::stoi(s.substr(i + 1, 2), nullptr, 16); i += 2; }
    else r += s[i];
  return r;
}
// ["a","b"] or @k (k-th node of the tree) or a plain /-separated path
static std::vector<std::string> parts(const std::string& s)
{
  std::vector<std::string> r;
  if (s[0] == '[')
  {
    std::size_t i = 1;
    while ((i = s.find('"', i)) != std::string::npos) { auto k = s.find('"', i + 1); r.push_back(dec(s.substr(i + 1, k - i - 1))); i = k + 1; }
    return r;
  }
  std::string cur; bool any = false;
  for (char c : s) if (c == '/') { if (any) r.push_back(dec(cur)); cur.clear(); any = false; } else { cur += c; any = true; }
  if (any) r.push_back(dec(cur));
  return r;
}
static A pathOf(const node_base& n)
{
  std::vector<std::string> v;
  for (auto p = &n; p->get_parent(); p = p->get_parent()) v.push_back(p->get_name());
  A a; for (auto it = v.rbegin(); it != v.rend(); ++it) a.el(*it);
  return a;
}
static A arr(const std::vector<std::string>& v) { A a; for (auto& x : v) a.el(x); return a; }
struct World
{
  A log;
  int gone{};
  generic_device dev{std::make_unique<null_protocol>(), "dev"};
  bool inTree(const node_base& n)
  {
    for (auto p = &n; p != &dev.get_root_node(); p = p->get_parent())
    {
      auto up = p->get_parent(); bool f = false;
      if (!up) return false;
      for (auto& c : up->children()) f |= c.get() == p;
      if (!f) return false;
    }
    return true;
  }
  void created(node_base& n)
  {
    bool ok = n.get_parent() && inTree(n) && n.get_parent()->find_child(n.get_name()) == &n;
    n.about_to_be_deleted.connect<&World::deleted>(this);
    log.el(J().kv("k", "nc").kv("p", pathOf(n)).kv("alive", ok));
  }
  void removing(node_base& n) { log.el(J().kv("k", "nr").kv("p", pathOf(n)).kv("alive", !n.get_name().empty())); }
  void renamed(node_base& n, std::string old)
  { log.el(J().kv("k", "rn").kv("p", pathOf(n)).kv("old", old).kv("alive", inTree(n))); }
  void pcreated(const parameter_base& p)
  { log.el(J().kv("k", "pc").kv("p", pathOf(p.get_node())).kv("alive", p.get_node().get_parameter() == &p)); }
  void premoving(const parameter_base& p)
  { log.el(J().kv("k", "pr").kv("p", pathOf(p.get_node())).kv("alive", p.get_value_type() == ossia::val_type::INT && p.value().get<int>() == 42)); }
  void deleted(const node_base&) { gone++; }
  World()
  {
    dev.on_node_created.connect<&World::created>(this);
    dev.on_node_removing.connect<&World::removing>(this);
    dev.on_node_renamed.connect<&World::renamed>(this);
    dev.on_parameter_created.connect<&World::pcreated>(this);
    dev.on_parameter_removing.connect<&World::premoving>(this);
  }
  node_base& root() { return dev.get_root_node(); }
  void walk(node_base& n, std::vector<node_base*>& v) { v.push_back(&n); for (auto& c : n.children()) walk(*c, v); }
  std::vector<node_base*> all() { std::vector<node_base*> v; walk(root(), v); return v; }
  node_base* at(const std::string& s)
  {
    if (s[0] == '@') { auto v = all(); return v[std::stoi(s.substr(1)) % v.size()]; }
    node_base* n = &root();
    for (auto& x : parts(s))
    {
      node_base* f = nullptr;
      for (auto& c : n->children()) if (c->get_name() == x) { f = c.get(); break; }
      if (!f) return nullptr;
      n = f;
    }
    return n;
  }
  A snap()
  {
    A a;
    for (auto n : all())
    {
      auto osc = std::string(n->osc_address());
      bool up = n == &root() ? n->get_parent() == nullptr : n->get_parent()->has_child(*n);
      auto names = n->children_names(); auto copy = n->children_copy();
      bool kids = names.size() == copy.size();
      for (std::size_t i = 0; kids && i < names.size(); i++) kids = copy[i]->get_name() == names[i] && n->find_child(names[i]) == copy[i];
      a.el(J().kv("p", pathOf(*n)).kv("name", n->get_name()).kv("osc", osc).kv("full", address_string_from_node(*n))
        .kv("found", up && kids && find_node(root(), osc) == n && find_node(root(), osc + "/") == n).kv("par", n->get_parameter() != nullptr));
    }
    return a;
  }
};
static std::unique_ptr<World> w;
static std::string join(const std::vector<std::string>& v, int style)
{
  std::string s; for (auto& x : v) { if (!s.empty()) s += '/'; s += x; }
  if (style & 1) s = "/" + s;
  if (style & 2) s += "/";
  return s;
}
int main(int argc, char** argv)
{
  int style = 0;
  return drive(argc, argv,
    [&](const Cmd&) { w.reset(); w = std::make_unique<World>(); style = 0; emit(J().kv("e", "Reset")); },
    [&](const Cmd& c) {
      const auto& o = c.op();
      auto n = w->at(c.s(1));
      if (!n) return;                       // the node of a script is not there: skipped
      if (o == "rm" || o == "inst") if (n == &w->root()) return;
      J j; j.kv("e", o).kv("p", pathOf(*n));
      w->log = A{}; w->gone = 0;
      auto ret = [&](node_base* r) { if (r) j.kv("ret", pathOf(*r)); else j.kv("ret", A().el("(none)")); };
      if (o == "find")
      { auto p = parts(c.s(2)); ret(find_node(*n, join(p, style++))); emit(j.kv("path", arr(p))); return; }
      if (o == "inst")
      { auto up = n->get_parent(); emit(j.kv("ok", up->is_root_instance(*n)).kv("child", up->has_child(*n) && !n->has_child(*n) && !n->has_child(*up))); return; }
      if (o == "pat")
      {
        auto s = dec(c.s(2)); j.kv("pat", s).raw("ast", c.s(3)).kv("ispat", ossia::traversal::is_pattern(s));
        auto list = [](const std::vector<node_base*>& v) { A a; for (auto x : v) a.el(pathOf(*x)); return a; };
        j.kv("ret", list(find_nodes(*n, s)));
        auto path = ossia::traversal::make_path(s);
        j.kv("made", bool(path));
        if (path)
        {
          std::vector<node_base*> v{n};
          ossia::traversal::apply(*path, v);
          j.kv("app", list(v));
          std::vector<node_base*> m;
          for (auto x : w->all())
            if (n == &w->root() ? ossia::traversal::match(*path, *x) : ossia::traversal::match(*path, *x, *n)) m.push_back(x);
          j.kv("match", list(m));
        }
        emit(j); return;
      }
      if (o == "cnodes")
      {
        auto s = dec(c.s(2)); j.kv("pat", s).raw("ast", c.s(3));
        A a; for (auto x : create_nodes(*n, s)) a.el(pathOf(*x));
        j.kv("ret", a);
      }
      else if (o == "create") { auto s = dec(c.s(2)); j.kv("name", s); ret(n->create_child(s)); }
      else if (o == "add")
      { auto s = dec(c.s(2)); j.kv("name", s); ret(n->add_child(std::make_unique<generic_node>(s, w->dev, *n)));  }
      else if (o == "cnode" || o == "fnode")
      {
        auto p = parts(c.s(2)); bool cr = o == "cnode";
        auto s = join(p, style++);
        if (p.empty() && cr) p.push_back("node");
        j.kv("path", arr(p));
        ret(cr ? &create_node(*n, s) : &find_or_create_node(*n, s));
      }
      else if (o == "rmname") { auto s = dec(c.s(2)); j.kv("name", s).kv("ok", n->remove_child(s)); }
      else if (o == "rm") j.kv("ok", n->get_parent()->remove_child(*n));
      else if (o == "clear") n->clear_children();
      else if (o == "rename") { auto s = dec(c.s(2)); j.kv("name", s); if (n == &w->root()) w->dev.set_name(s); else n->set_name(s); }
      else if (o == "cparam") n->create_parameter(ossia::val_type::INT)->set_value(42);
      else if (o == "rparam") j.kv("ok", n->remove_parameter());
      else if (o == "sparam")
      {
        bool some = c.b(2); j.kv("some", some);
        std::unique_ptr<parameter_base> p;
        if (some) { p = std::make_unique<generic_parameter>(*n); p->set_value_type(ossia::val_type::INT); p->set_value(42); }
        n->set_parameter(std::move(p));
      }
      else c.misuse("unknown op");
      emit(j.kv("log", w->log).kv("gone", w->gone).kv("dev", w->dev.get_name()).kv("tree", w->snap()));
    });
}
