// Conformance harness of Graph.tla: a graph of nodes that log what they are
// given and write numbered values, on any of the schedulers.
#include "vp.hpp"
#include <ossia/dataflow/bench_map.hpp>
#include <ossia/dataflow/execution_state.hpp>
#include <ossia/dataflow/graph/graph.hpp>
#include <ossia/dataflow/graph/graph_interface.hpp>
#include <ossia/dataflow/graph/graph_static.hpp>
#include <ossia/dataflow/graph_edge.hpp>
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/network/base/protocol.hpp>
#include <ossia/network/generic/generic_device.hpp>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>
#include <atomic>
#include <map>
#include <mutex>
#include <thread>
using namespace vp;
using ossia::net::parameter_base;
static std::mutex mut;
static std::vector<std::vector<int>> pushed;
static bool parallel;
struct log_protocol : ossia::net::protocol_base
{
  log_protocol() : protocol_base{flags{}} {}
  bool pull(parameter_base&) override { return true; }
  bool push(const parameter_base& p, const ossia::value& v) override
  { pushed[p.get_node().get_name()[0] - 'a'].push_back(v.get<int>()); return true; }
  bool push_raw(const ossia::net::full_parameter_data&) override { return true; }
  bool observe(parameter_base&, bool) override { return true; }
  bool update(ossia::net::node_base&) override { return true; }
};
template <typename T> static A arr(const T& v) { A a; for (auto& x : v) a.el((long long)x); return a; }
template <typename T> static A arr2(const T& v) { A a; for (auto& x : v) a.el(arr(x)); return a; }
static std::vector<long long> content(const ossia::value_port& p)
{ std::vector<long long> r; for (auto& v : p.get_data()) r.push_back(v.value.get<int>()); return r; }
static std::vector<long long> content(const ossia::midi_port& p)
{ std::vector<long long> r; for (auto& m : p.messages) r.push_back(m.bytes[1] * 128 + m.bytes[2]); return r; }
static std::vector<long long> content(const ossia::audio_port& p)
{
  std::vector<long long> r;
  for (std::size_t c = 1; c < p.samples.size(); c++) if (!p.samples[c].empty()) r.push_back(-1000000);
  if (!p.samples.empty()) for (auto x : p.samples[0]) r.push_back((long long)x);
  return r;
}
template <typename P> static std::vector<long long> contents(const P& p)
{
  if (auto v = p.template target<ossia::value_port>()) return content(*v);
  if (auto v = p.template target<ossia::midi_port>()) return content(*v);
  return content(*p.template target<ossia::audio_port>());
}
static int counter;
struct node final : ossia::graph_node
{
  int id; int runs{};
  void run(const ossia::token_request& t, ossia::exec_state_facade) noexcept override
  {
    std::vector<std::vector<int>> w;
    {
      std::lock_guard l{mut};
      std::vector<std::vector<long long>> in;
      for (auto i : m_inlets) in.push_back(contents(*i));
      emit(J().kv("e", "run").kv("n", id).kv("t", (long long)t.date.impl).kv("in", arr2(in)).kv("sd", t.start_discontinuous).kv("ed", t.end_discontinuous));
      for (std::size_t j = 0; j < m_outlets.size(); j++)
      {
        w.emplace_back();
        for (int k = (id + runs + j) % 3; k-- > 0;) w.back().push_back(++counter);
      }
      runs++;
    }
    if (parallel) std::this_thread::sleep_for(std::chrono::microseconds(20 + (id * 37 + runs * 11) % 90));
    for (std::size_t j = 0; j < w.size(); j++)
      for (int x : w[j])
      {
        if (auto v = m_outlets[j]->target<ossia::value_port>()) v->write_value(ossia::value{x}, x % 5);
        else if (auto m = m_outlets[j]->target<ossia::midi_port>()) { libremidi::message y; y.bytes = {0x90, (unsigned char)(x / 128), (unsigned char)(x % 128)}; m->messages.push_back(y); }
        else { auto& s = m_outlets[j]->target<ossia::audio_port>()->samples; if (s.empty()) s.resize(1); s[0].push_back(x); }
      }
    std::lock_guard l{mut};
    emit(J().kv("e", "end").kv("n", id).kv("w", arr2(w)));
  }
};
struct World
{
  ossia::net::generic_device dev{std::make_unique<log_protocol>(), "dev"};
  parameter_base* p[3];
  ossia::execution_state st;
  std::shared_ptr<ossia::graph_interface> g;
  std::map<int, std::shared_ptr<node>> nodes;
  std::map<int, std::shared_ptr<ossia::graph_edge>> edges;
  std::shared_ptr<ossia::bench_map> bench = std::make_shared<ossia::bench_map>();
  int token{};
  World()
  {
    for (int i = 0; i < 3; i++)
    {
      p[i] = dev.create_child(std::string(1, 'a' + i))->create_parameter(ossia::val_type::INT);
      p[i]->set_value(0);
    }
    st.register_device(&dev);
    st.apply_device_changes();
  }
  ~World() { g->clear(); edges.clear(); nodes.clear(); }
};
static std::unique_ptr<World> W;
static std::vector<int> ints(const std::string& s)
{ std::vector<int> r; std::string w; for (char c : s + ",") { if (isdigit(c) || c == '-') w += c; else if (!w.empty()) { if (w != "-") r.push_back(atoi(w.c_str())); w.clear(); } } return r; }
static void make_graph(const std::string& k)
{
  using O = ossia::graph_setup_options;
  O o;
  o.scheduling = k.find("bfs") != k.npos ? O::StaticBFS : k.find("tc") != k.npos ? O::StaticTC : k.find("dynamic") != k.npos ? O::Dynamic : O::StaticFixed;
  parallel = o.parallel = k.find("par") != k.npos;
  if (k.find("log") != k.npos) o.log = std::make_shared<spdlog::logger>("x", std::make_shared<spdlog::sinks::null_sink_mt>());
  if (k.find("bench") != k.npos) { o.bench = W->bench; W->bench->measure = k.find("measure") != k.npos; }
  W->g = ossia::make_graph(o);
}
static ossia::connection con(const std::string& k)
{
  using S = ossia::immediate_strict_connection;
  if (k == "G") return ossia::immediate_glutton_connection{};
  if (k == "S") return S{};
  if (k == "SI") return S{S::inbound};
  if (k == "SO") return S{S::outbound};
  if (k == "DG") return ossia::delayed_glutton_connection{};
  if (k == "DS") return ossia::delayed_strict_connection{};
  return ossia::dependency_connection{};
}
int main(int argc, char** argv)
{
  spdlog::set_level(spdlog::level::off);
  return drive(argc, argv,
    [](const Cmd& c) {
      W.reset(); W = std::make_unique<World>(); counter = 0;
      std::string k = c.n() > 1 ? c.s(1) : "tc";
      make_graph(k);
      emit(J().kv("e", "Reset").kv("kind", k).kv("ordered", k.find("bfs") != k.npos || k.find("tc") != k.npos));
    },
    [](const Cmd& c) {
      auto& w = *W;
      auto& op = c.op();
      J j;
      j.kv("e", op);
      auto live = [&](int k) -> std::shared_ptr<node>& { auto it = w.nodes.find(c.i(k)); if (it == w.nodes.end()) c.misuse("no such node"); return it->second; };
      if (op == "graph")
      {
        auto k = c.s(1);
        if (!w.nodes.empty()) c.misuse("late graph");
        make_graph(k);
        emit(J().kv("e", "graph").kv("kind", k).kv("ordered", k.find("bfs") != k.npos || k.find("tc") != k.npos));
        return;
      }
      if (op == "node")
      {
        auto n = std::make_shared<node>();
        n->id = c.i(1);
        auto t = c.s(2);
        auto ia = ints(c.s(3)), oa = ints(c.s(4));
        for (int a : ia)
        {
          ossia::inlet* x = t == "v" ? (ossia::inlet*)new ossia::value_inlet : t == "m" ? (ossia::inlet*)new ossia::midi_inlet : new ossia::audio_inlet;
          if (a) x->address = w.p[a - 1];
          n->root_inputs().push_back(x);
        }
        for (int a : oa)
        {
          ossia::outlet* x = t == "v" ? (ossia::outlet*)new ossia::value_outlet : t == "m" ? (ossia::outlet*)new ossia::midi_outlet : new ossia::audio_outlet;
          if (a) x->address = w.p[a - 1];
          n->root_outputs().push_back(x);
        }
        n->set_logging(c.n() > 5 && c.b(5));
        if (w.nodes.count(n->id)) c.misuse("node exists");
        w.nodes[n->id] = n;
        w.g->add_node(n);
        j.kv("n", n->id).kv("t", t).kv("ia", arr(ia)).kv("oa", arr(oa));
      }
      else if (op == "edge")
      {
        auto o = live(3), i = live(5);
        auto k = c.s(2);
        w.edges[c.i(1)] = k == "P" ? ossia::make_edge(con(k), ossia::outlet_ptr{}, ossia::inlet_ptr{}, o, i)
                                   : ossia::make_edge(con(k), o->root_outputs()[c.i(4) - 1], i->root_inputs()[c.i(6) - 1], o, i);
        w.g->connect(w.edges[c.i(1)]);
        j.kv("id", c.i(1)).kv("k", k).kv("o", c.i(3)).kv("op", c.i(4)).kv("i", c.i(5)).kv("ip", c.i(6));
      }
      else if (op == "del")
      {
        auto e = w.edges[c.i(1)];
        if (c.n() > 2 && c.b(2)) w.g->disconnect(e.get()); else w.g->disconnect(e);
        w.edges.erase(c.i(1));
        j.kv("id", c.i(1));
      }
      else if (op == "rm") { w.g->remove_node(live(1)); j.kv("n", c.i(1)); }
      else if (op == "add") { w.g->add_node(live(1)); j.kv("n", c.i(1)); }
      else if (op == "drop") { w.g->remove_node(live(1)); w.nodes.erase(c.i(1)); j.kv("n", c.i(1)); }
      else if (op == "clear")
      {
        auto in = w.g->get_nodes();
        w.g->clear();
        for (auto it = w.nodes.begin(); it != w.nodes.end();)
          it = std::find(in.begin(), in.end(), it->second.get()) != in.end() ? w.nodes.erase(it) : std::next(it);
        w.edges.clear();
      }
      else if (op == "mute") { live(1)->set_mute(c.b(2)); j.kv("n", c.i(1)).kv("b", c.b(2)); }
      else if (op == "disc") { live(1)->set_start_discontinuous(c.b(2)); live(1)->set_end_discontinuous(c.b(3)); j.kv("n", c.i(1)).kv("sd", c.b(2)).kv("ed", c.b(3)); }
      else if (op == "dirty") w.g->mark_dirty();
      else if (op == "set") { w.p[c.i(1) - 1]->set_value((int)c.i(2)); j.kv("p", c.i(1)).kv("v", c.i(2)); }
      else if (op == "req" || op == "tick")
      {
        for (int n : ints(c.s(1)))
        {
          if (!w.nodes.count(n)) c.misuse("no such node");
          ossia::token_request t; t.date = ossia::time_value{++w.token};
          w.nodes[n]->request(t);
          emit(J().kv("e", "req").kv("n", n).kv("t", w.token));
        }
        if (op == "req") return;
        pushed.assign(3, {});
        emit(J().kv("e", "tick"));
        w.st.begin_tick();
        w.g->state(w.st);
        w.st.commit();
        long long left = 0;
        for (auto& [id, n] : w.nodes)
        {
          for (auto x : n->root_inputs()) left += contents(*x).size();
          for (auto x : n->root_outputs()) left += contents(*x).size();
        }
        A v, en;
        for (auto x : w.p) v.el(x->value().get<int>());
        for (auto& [id, n] : w.nodes) if (n->enabled() || n->executed()) en.el(id);
        emit(J().kv("e", "tickend").kv("left", left).kv("push", arr2(pushed)).kv("pv", v).kv("en", en));
        return;
      }
      else c.misuse("unknown op");
      A in;
      for (auto n : w.g->get_nodes()) in.el(static_cast<node*>(n)->id);
      emit(j.kv("in", in));
    });
}
