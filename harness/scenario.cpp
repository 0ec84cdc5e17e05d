#include "vp.hpp"
#include <ossia/dataflow/graph_node.hpp>
#include <ossia/editor/expression/expression_generic.hpp>
#include <ossia/editor/scenario/scenario.hpp>
#include <ossia/editor/scenario/time_event.hpp>
#include <ossia/editor/scenario/time_interval.hpp>
#include <ossia/editor/scenario/time_sync.hpp>
#include <ossia/detail/json.hpp>
using namespace vp;
using namespace ossia;
using namespace ossia::expressions;

// an expression fed by the script; it reads its input in update() or, while
// somebody observes it, whenever the input changes
struct input_expr : expression_generic_base
{
  bool ext = false, cache = false, observed = false, refresh_on_observe = false;
  expression_generic* self{};
  static inline input_expr* made{};
  input_expr() { made = this; }
  void update() override { cache = ext; }
  bool evaluate() const override { return cache; }
  void on_first_callback_added(expression_generic& e) override { observed = true; self = &e; if (refresh_on_observe) cache = ext; }
  void on_removing_last_callback(expression_generic&) override { observed = false; }
  void set(bool v) { ext = v; if (observed) { cache = v; self->send(v); } }
};
static std::pair<expression_ptr, input_expr*> make_input()
{
  auto x = make_expression_generic<input_expr>();
  return {std::move(x), input_expr::made};
}
struct Log { std::vector<std::string> v; std::string str() const { std::string r = "["; for (auto& x : v) { if (r.size() > 1) r += ','; r += x; } return r + "]"; } };
static std::vector<Log> el, sl, pl;

struct probe : time_process
{
  int i; bool active = false;
  explicit probe(int n) : i{n} {}
  void start() override { active = true; pl[i].v.push_back("[\"start\"]"); }
  void stop() override { if (active) pl[i].v.push_back("[\"stop\"]"); active = false; }
  void state(const token_request& t) override
  {
    A a; a.el("tok").el((long)t.prev_date.impl).el((long)t.date.impl).el((long)t.offset.impl).el((long)t.parent_duration.impl);
    pl[i].v.push_back(a.str());
  }
  void offset_impl(time_value) override {}
  void transport_impl(time_value) override {}
};

static std::unique_ptr<scenario> S;
static std::vector<std::shared_ptr<time_sync>> syncs;
static std::vector<std::shared_ptr<time_event>> events;
static std::vector<std::shared_ptr<time_interval>> itvs;
static std::vector<input_expr*> conds, trigs;
static std::vector<int> lastst;
static long long date_ = 0;
static bool first = true;
static std::vector<time_value> dates;

static void clearlogs() { for (auto* v : {&el, &sl, &pl}) for (auto& x : *v) x.v.clear(); }
static int code(time_event::status s) { return int(s) & 3; }

static void make(const std::string& txt)
{
  rapidjson::Document d; d.Parse(txt);
  S = std::make_unique<scenario>();
  auto N = d["root"].Size();
  for (unsigned s = 0; s < N; s++)
  {
    auto t = s == 0 ? S->get_start_time_sync() : std::make_shared<time_sync>();
    syncs.push_back(t);
    sl.emplace_back();
    if (s) { t->set_start(d["root"][s].GetBool()); }
    t->set_autotrigger(d["auto"][s].GetBool());
    int k = d["trig"][s].GetInt();
    trigs.push_back(nullptr);
    if (k == 1) { auto [e, p] = make_input(); p->refresh_on_observe = d["root"][s].GetBool(); trigs.back() = p; t->set_expression(std::move(e)); }
    else if (k == 2) t->set_expression(make_expression_false());
    t->triggered.add_callback([s] { sl[s].v.push_back("\"triggered\""); });
    t->entered_evaluation.add_callback([s] { sl[s].v.push_back("\"entered\""); });
    t->entered_triggering.add_callback([s] { sl[s].v.push_back("\"triggering\""); });
    t->left_evaluation.add_callback([s] { sl[s].v.push_back("\"left\""); });
    t->finished_evaluation.add_callback([s](bool m) { sl[s].v.push_back(m ? "\"finished-max\"" : "\"finished\""); });
  }
  for (unsigned e = 0; e < d["es"].Size(); e++)
  {
    auto [x, p] = make_input();
    p->set(true);
    conds.push_back(p);
    el.emplace_back(); lastst.push_back(0);
    auto& t = *syncs[d["es"][e].GetInt() - 1];
    auto it = t.emplace(t.get_time_events().end(), [e](time_event::status st) {
      int c = int(st);
      if (c == 0 && lastst[e] == 0) return; // a reset of an event that did nothing
      lastst[e] = c;
      el[e].v.push_back(std::to_string(c));
    }, std::move(x));
    events.push_back(*it);
  }
  for (unsigned s = 1; s < N; s++) S->add_time_sync(syncs[s]);
  auto tv = [](long long x) { return x < 0 ? Infinite : time_value{x}; };
  for (unsigned i = 0; i < d["src"].Size(); i++)
  {
    auto c = time_interval::create({}, *events[d["src"][i].GetInt() - 1], *events[d["dst"][i].GetInt() - 1],
      tv(d["nom"][i].GetInt64()), tv(d["min"][i].GetInt64()), tv(d["max"][i].GetInt64()));
    pl.emplace_back();
    c->add_time_process(std::make_shared<probe>(i));
    S->add_time_interval(c);
    itvs.push_back(c);
  }
}
static J full(J j)
{
  A st, run, date, a, b, c;
  for (auto& e : events) st.el(code(e->get_status()));
  for (auto& i : itvs) { date.el((long)i->get_date().impl); }
  for (auto& i : itvs) run.el(i->running());
  for (auto& x : el) a.elraw(x.str());
  for (auto& x : sl) b.elraw(x.str());
  for (auto& x : pl) c.elraw(x.str());
  return j.kv("st", st).kv("run", run).kv("date", date).kv("el", a).kv("sl", b).kv("pl", c);
}
int main(int argc, char** argv)
{
  return drive(argc, argv,
    [](const Cmd&) {
      for (auto& i : itvs) i->cleanup();
      S.reset(); syncs.clear(); events.clear(); itvs.clear(); conds.clear(); trigs.clear(); el.clear(); sl.clear(); pl.clear(); lastst.clear();
      first = true; date_ = 0;
      J j; j.kv("e", "Reset"); emit(j);
    },
    [](const Cmd& c) {
      const auto& o = c.op();
      J j; j.kv("e", o);
      clearlogs();
      if (o == "graph") { make(c.s(1)); emit(j.raw("g", c.s(1))); }
      else if (o == "start") { S->start(); emit(full(j)); }
      else if (o == "stop") { S->stop(); first = true; date_ = 0; emit(full(j)); }
      else if (o == "tick")
      {
        token_request t;
        t.prev_date = time_value{date_};
        date_ += c.i(1);
        t.date = time_value{date_};
        t.offset = time_value{c.i(2)};
        t.parent_duration = time_value{1000000};
        t.speed = 1.;
        S->state(t);
        j.kv("d", c.i(1)).kv("off", c.i(2));
        emit(full(j));
      }
      else if (o == "cond") { conds.at(c.i(1) - 1)->set(c.b(2)); emit(j.kv("k", c.i(1)).kv("v", c.b(2))); }
      else if (o == "trig") { trigs.at(c.i(1) - 1)->set(c.b(2)); emit(j.kv("k", c.i(1)).kv("v", c.b(2))); }
      else if (o == "req") { syncs.at(c.i(1) - 1)->start_trigger_request(); emit(j.kv("k", c.i(1))); }
      else c.misuse("unknown");
    });
}
