// Conformance harness of ExecState.tla: an execution state with two devices of
// integer, vector and audio parameters.
#include "vp.hpp"
#include <ossia/audio/audio_parameter.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph_utils.hpp>
#include <ossia/dataflow/port.hpp>
#include <ossia/editor/state/state.hpp>
#include <ossia/editor/state/state_element.hpp>
#include <ossia/network/base/message_queue.hpp>
#include <ossia/network/base/node_attributes.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/common/path.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <map>
using namespace vp;
using ossia::net::parameter_base;
static A out;
static std::map<const parameter_base*, int> ids;
static A seq(const ossia::value& v)
{
  A a;
  if (auto i = v.target<int>()) a.el(*i);
  else if (auto f = v.target<float>()) a.el((long long)*f);
  else if (auto x = v.target<ossia::vec3f>()) for (float y : *x) a.el((long long)y);
  else a.el("?").el((int)v.get_type());
  return a;
}
struct log_protocol : ossia::net::protocol_base
{
  log_protocol() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override { out.el(J().kv("p", ids[&p]).kv("v", seq(v))); return true; }
  bool push_raw(const ossia::net::full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(ossia::net::node_base&) override { return true; }
};
static A chans(const ossia::audio_vector& s) { A a; for (auto& c : s) { A b; for (auto x : c) b.el((long long)x); a.el(b); } return a; }
// the virtual parameters of an audio device, without its engine
struct audio_param : ossia::audio_parameter
{
  std::vector<ossia::float_vector> data;
  audio_param(ossia::net::node_base& n) : audio_parameter{n}, data(2, ossia::float_vector(4, 0.f))
  { for (auto& d : data) audio.push_back(gsl::span<float>(d.data(), d.size())); }
};
struct World
{
  ossia::net::generic_device d1{std::make_unique<log_protocol>(), "d1"}, d2{std::make_unique<log_protocol>(), "d2"};
  parameter_base* p[7]{};
  audio_param* a[3]{};
  std::map<int, std::unique_ptr<ossia::value_inlet>> in;
  ossia::execution_state st;
  World()
  {
    ids.clear();
    const char* names = "abcvef";
    for (int i = 1; i <= 6; i++)
    {
      auto t = i == 4 ? ossia::val_type::VEC3F : ossia::val_type::INT;
      p[i] = (i <= 4 ? d1 : d2).create_child(std::string(1, names[i - 1]))->create_parameter(t);
      if (i == 4) p[i]->set_value(ossia::vec3f{}); else p[i]->set_value(0);
      ids[p[i]] = i;
    }
    for (int i = 1; i <= 2; i++)
    {
      auto n = d1.create_child("x" + std::to_string(i));
      auto q = std::make_unique<audio_param>(*n);
      a[i] = q.get();
      n->set_parameter(std::move(q));
    }
  }
};
static std::unique_ptr<World> W;
static ossia::value val(const std::string& s)
{
  std::vector<int> r; std::stringstream ss(s); std::string w;
  while (std::getline(ss, w, '/')) r.push_back(atoi(w.c_str()));
  if (r.size() == 3) return ossia::make_vec(float(r[0]), float(r[1]), float(r[2]));
  return r.at(0);
}
static std::vector<std::string> split(const std::string& s)
{ std::vector<std::string> r; std::stringstream ss(s); std::string w; if (s != "-") while (std::getline(ss, w, ',')) r.push_back(w); return r; }
static ossia::value fl(const ossia::value& v, int idx) { return idx && v.target<int>() ? ossia::value{(float)*v.target<int>()} : v; }
static ossia::audio_vector samples(const std::string& s)
{
  ossia::audio_vector r;
  for (auto& c : split(s)) { r.emplace_back(); if (c != "_") { std::stringstream ss(c); std::string w; while (std::getline(ss, w, '/')) r.back().push_back(atoi(w.c_str())); } }
  return r;
}
static ossia::destination_t dest(const std::string& t, A& ids_, bool& path)
{
  path = t[0] == '/';
  if (!path) { ids_.el(atoi(t.c_str())); return W->p[atoi(t.c_str())]; }
  std::string names = "abcvef";
  for (char c : t.substr(2, t.size() - 3)) ids_.el((int)names.find(c) + 1);
  return *ossia::traversal::make_path(t);
}
static ossia::port::scope_t scope(int k) { return k == 0 ? ossia::port::none : k == 1 ? ossia::port::local : k == 2 ? ossia::port::global : ossia::port::both; }
int main(int argc, char** argv)
{
  return drive(argc, argv,
    [](const Cmd&) { W.reset(); W = std::make_unique<World>(); out = A(); emit(J().kv("e", "Reset")); },
    [](const Cmd& c) {
      auto& w = *W;
      auto& st = w.st;
      auto& op = c.op();
      J j;
      j.kv("e", op);
      out = A();
      auto cur = [&] { A a; for (int i = 1; i <= 6; i++) a.el(seq(w.p[i]->value())); j.kv("cur", a); };
      auto idx = [&](int i) { ossia::destination_index d; if (i) d.push_back(i - 1); return d; };
      if (op == "dev")
      {
        auto& d = c.i(1) == 1 ? w.d1 : w.d2;
        if (c.b(2)) st.register_device(&d); else st.unregister_device(&d);
        j.kv("d", c.i(1)).kv("add", c.b(2));
      }
      else if (op == "inlet")
      { // inlet i target scope event
        A t; bool path;
        auto in = std::make_unique<ossia::value_inlet>();
        in->address = dest(c.s(2), t, path);
        in->scope = scope(c.i(3));
        (**in).is_event = c.b(4);
        w.in[c.i(1)] = std::move(in);
        j.kv("i", c.i(1)).kv("t", t).kv("path", path).kv("loc", (c.i(3) & 1) != 0).kv("glob", (c.i(3) & 2) != 0).kv("ev", c.b(4));
      }
      else if (op == "reg" || op == "unreg")
      {
        if (!w.in.count(c.i(1))) c.misuse("no inlet");
        if (op == "reg") st.register_port(*w.in[c.i(1)]); else st.unregister_port(*w.in[c.i(1)]);
        j.kv("i", c.i(1));
      }
      else if (op == "in") { w.p[c.i(1)]->set_value(val(c.s(2))); j.kv("p", c.i(1)).kv("v", seq(val(c.s(2)))); cur(); }
      else if (op == "prio") { ossia::net::set_priority(w.p[c.i(1)]->get_node(), c.i(2) / 10.f); j.kv("p", c.i(1)).kv("x", c.i(2)); }
      else if (op == "tv")
      { // tv p value index timestamp rvalue
        ossia::typed_value v{ossia::timed_value{fl(val(c.s(2)), c.i(3)), c.i(4)}, idx(c.i(3)), {}};
        if (c.b(5)) st.insert(*w.p[c.i(1)], std::move(v)); else st.insert(*w.p[c.i(1)], v);
        j.kv("p", c.i(1)).kv("v", seq(val(c.s(2)))).kv("i", c.i(3)).kv("ts", c.i(4)); cur();
      }
      else if (op == "port" || op == "out")
      { // port p vals index replace rvalue | out target vals scope
        ossia::value_port p; ossia::value_outlet o;
        auto& vp = op == "port" ? p : *o;
        int ix = op == "port" ? c.i(3) : 0;
        if (op == "port") { p.index = idx(ix); p.mix_method = c.b(4) ? ossia::mix_replace : ossia::mix_append; }
        A vs;
        for (auto& x : split(c.s(2)))
        {
          auto k = x.find(':');
          auto v = fl(val(x.substr(0, k)), ix);
          int ts = atoi(x.c_str() + k + 1);
          vs.el(J().kv("v", seq(v)).kv("t", ts));
          if (ts % 2) vp.write_value(std::move(v), ts); else vp.write_value(v, ts);
        }
        j.kv("vs", vs);
        if (op == "port")
        {
          if (c.b(5)) st.insert(*w.p[c.i(1)], std::move(p)); else st.insert(*w.p[c.i(1)], (const ossia::value_port&)p);
          j.kv("p", c.i(1)).kv("i", c.i(3)).kv("rep", c.b(4));
        }
        else
        {
          A t; bool path;
          o.address = dest(c.s(1), t, path);
          o.scope = scope(c.i(3));
          o.write(st);
          j.kv("t", t).kv("path", path).kv("loc", (c.i(3) & 1) != 0).kv("glob", (c.i(3) & 2) != 0).kv("out", out);
        }
        cur();
      }
      else if (op == "state")
      { // state p:v:idx,.. nested
        ossia::state s, sub; A ms;
        auto all = split(c.s(1));
        for (std::size_t k = 0; k < all.size(); k++)
        {
          int p = atoi(all[k].c_str()), ix = atoi(all[k].substr(all[k].rfind(':') + 1).c_str());
          auto v = val(all[k].substr(all[k].find(':') + 1));
          ms.el(J().kv("p", p).kv("v", seq(v)).kv("i", ix));
          ossia::message m{ossia::destination{*w.p[p], idx(ix)}, fl(v, ix)};
          if (c.b(2) && k % 2) { if (k + 1 < all.size() && k % 3) { sub.add(m); continue; } sub.add(m); s.add(sub); sub = {}; }
          else { if (sub.size()) { s.add(sub); sub = {}; } s.add(m); }
        }
        if (sub.size()) s.add(sub);
        st.insert(s);
        j.kv("ms", ms); cur();
      }
      else if (op == "audio") { ossia::audio_port p; p.samples = samples(c.s(2)); st.insert(*w.a[c.i(1)], p); j.kv("a", c.i(1)).kv("s", chans(p.samples)); }
      else if (op == "aset")
      {
        auto s = samples(c.s(2));
        for (int k = 0; k < 2; k++) for (int f = 0; f < 4; f++) w.a[c.i(1)]->audio[k][f] = s[k][f];
        j.kv("a", c.i(1)).kv("s", chans(s));
      }
      else if (op == "begin")
      {
        st.begin_tick();
        A d; for (auto x : st.exec_devices()) d.el(x == &w.d1 ? 1 : 2);
        j.kv("devs", d); cur();
      }
      else if (op == "commit")
      {
        auto k = c.s(1);
        if (k == "plain") st.commit(); else if (k == "merged") st.commit_merged(); else if (k == "ordered") st.commit_ordered(); else st.commit_priorized();
        A au;
        for (int i = 1; i <= 2; i++) { A b; for (int ch = 0; ch < 2; ch++) { A f; for (float x : w.a[i]->audio[ch]) f.el((long long)x); b.el(f); } au.el(b); }
        j.kv("pol", k).kv("out", out).kv("aud", au); cur();
      }
      else if (op == "read")
      {
        if (!w.in.count(c.i(1))) c.misuse("no inlet");
        auto& in = *w.in[c.i(1)];
        ossia::graph_util::init_inlet(in, st);
        A v; for (auto& x : (*in).get_data()) v.el(seq(x.value));
        ossia::graph_util::teardown_inlet(in, st);
        j.kv("i", c.i(1)).kv("v", v);
      }
      else if (op == "aread")
      {
        ossia::audio_inlet in; in.address = (parameter_base*)w.a[c.i(1)]; in.scope = scope(c.i(2));
        ossia::graph_util::init_inlet(in, st);
        j.kv("a", c.i(1)).kv("loc", (c.i(2) & 1) != 0).kv("glob", (c.i(2) & 2) != 0).kv("s", chans((*in).samples));
      }
      else if (op == "scope") j.kv("p", c.i(1)).kv("r", st.in_local_scope(*w.p[c.i(1)]));
      else c.misuse("unknown op");
      emit(j);
    });
}
