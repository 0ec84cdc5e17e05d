#include "vp.hpp"
#include <ossia/detail/callback_container.hpp>
#include <atomic>
#include <chrono>
#include <functional>
#include <thread>
#include <map>
#include <memory>
#include <optional>
ossia::invalid_callback_error::~invalid_callback_error() = default;
using namespace vp;
using fn = std::function<void(std::string)>;
struct container : ossia::callback_container<fn>
{
  int first = 0, last = 0;
  void on_first_callback_added() override { first++; }
  void on_removing_last_callback() override { last++; }
};
using cc = ossia::callback_container<fn>;
static std::unique_ptr<container> C;
static std::map<int, cc::iterator> its;
static std::map<int, std::unique_ptr<cc::disabled_callback>> guards;
static std::vector<int> calls;
static bool argok;
static std::thread::id main_thread;
static std::vector<int> calls2; // made by another thread
static std::function<void()> during; // run by the first callback of a send
static fn mk(int t) { return [t](std::string a) { (std::this_thread::get_id() == main_thread ? calls : calls2).push_back(t); argok = argok && a == "seventy-seven, a long string that is not stored inline";
  if (during) { auto f = std::move(during); during = nullptr; f(); } }; }
static J ev(const Cmd& c)
{
  J j; j.kv("e", c.op()).kv("count", (long)C->callback_count()).kv("empty", C->callbacks_empty());
  A h; h.el(C->first).el(C->last); j.kv("hooks", h);
  return j;
}
int main(int argc, char** argv)
{
  main_thread = std::this_thread::get_id();
  return drive(argc, argv,
    [](const Cmd&) {
      guards.clear(); its.clear(); C = std::make_unique<container>(); calls.clear();
      J j; j.kv("e", "Reset"); emit(j);
    },
    [](const Cmd& c) {
      const auto& o = c.op();
      if (o == "add") { its[c.i(1)] = C->add_callback(mk(c.i(2))); emit(ev(c).kv("i", (long)c.i(1)).kv("t", (long)c.i(2))); }
      else if (o == "addempty") {
        bool th = false;
        try { C->add_callback(fn{}); } catch (const ossia::invalid_callback_error&) { th = true; }
        emit(ev(c).kv("threw", th)); }
      else if (o == "remove") { C->remove_callback(its.at(c.i(1))); emit(ev(c).kv("i", (long)c.i(1))); }
      else if (o == "replace") { C->replace_callback(its.at(c.i(1)), mk(c.i(2))); emit(ev(c).kv("i", (long)c.i(1)).kv("t", (long)c.i(2))); }
      else if (o == "clear") { C->callbacks_clear(); emit(ev(c)); }
      else if (o == "send") {
        calls.clear(); argok = true; C->send(std::string("seventy-seven, a long string that is not stored inline"));
        A a; for (int x : calls) a.el(x);
        emit(ev(c).kv("calls", a).kv("arg", argok)); }
      else if (o == "storm") {
        // sends in one thread, changes of the list in another one
        const int n = c.i(1); const auto op = c.s(2);
        calls.clear(); calls2.clear(); argok = true;
        std::atomic_int left{2};
        auto meet = [&] { left--; while (left > 0) ; };
        std::thread th([&] {
          meet();
          for (int k = 0; k < n; k++) {
            if (op == "remove") { auto it = C->add_callback(mk(99)); C->remove_callback(it); }
            else if (op == "replace") C->replace_callback(its.begin()->second, mk(c.i(3)));
            else if (op == "disable") { auto it = C->add_callback(mk(99)); { auto g = C->disable_callback(it); } C->remove_callback(it); }
            else if (op == "count") { (void)C->callback_count(); (void)C->callbacks_empty(); }
            else if (op == "clear") { C->callbacks_clear(); its.clear(); C->add_callback(mk(98)); }
            else if (op == "send") C->send(std::string("seventy-seven, a long string that is not stored inline"));
          }
        });
        meet();
        for (int k = 0; k < n; k++) C->send(std::string("seventy-seven, a long string that is not stored inline"));
        th.join();
        std::map<int, long> cnt; for (int x : calls) if (x != 99 && x != 98) cnt[x]++;
        A a; for (auto [t, k] : cnt) { A p; p.el((long)t).el(k); a.el(p); }
        J j; j.kv("e", "storm").kv("op", op).kv("n", (long)n).kv("counts", a).kv("arg", argok)
              .kv("count", (long)C->callback_count()).kv("empty", C->callbacks_empty()); emit(j);
        C->callbacks_clear(); its.clear(); }
      else if (o == "xsend") {
        // another thread changes the list while a send is in progress
        calls.clear(); calls2.clear(); argok = true;
        std::atomic_bool done{false}; bool inside = false; std::thread th;
        const auto op = c.s(1); const int i = c.i(2), t = c.i(3);
        during = [&] {
          th = std::thread([&] {
            if (op == "add") its[i] = C->add_callback(mk(t));
            else if (op == "remove") C->remove_callback(its.at(i));
            else if (op == "replace") C->replace_callback(its.at(i), mk(t));
            else if (op == "clear") C->callbacks_clear();
            else if (op == "send") C->send(std::string("seventy-seven, a long string that is not stored inline"));
            else if (op == "disable") guards[i].reset(new cc::disabled_callback(C->disable_callback(its.at(i))));
            else if (op == "restore") guards.erase(i);
            else if (op == "count") (void)C->callback_count();
            else if (op == "empty") (void)C->callbacks_empty();
            done = true;
          });
          for (int k = 0; k < 20 && !done; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
          inside = done;
        };
        C->send(std::string("seventy-seven, a long string that is not stored inline"));
        during = nullptr;
        if (th.joinable()) th.join();
        A a; for (int x : calls) a.el(x);
        J j; j.kv("e", "xsend").kv("calls", a).kv("arg", argok).kv("inside", inside); emit(j);
        A a2; for (int x : calls2) a2.el(x);
        J k; k.kv("e", op).kv("count", (long)C->callback_count()).kv("empty", C->callbacks_empty());
        A h; h.el(C->first).el(C->last); k.kv("hooks", h);
        emit(k.kv("i", (long)i).kv("t", (long)t).kv("calls", a2).kv("arg", argok)); }
      else if (o == "disable") { guards[c.i(1)].reset(new cc::disabled_callback(C->disable_callback(its.at(c.i(1))))); emit(ev(c).kv("i", (long)c.i(1))); }
      else if (o == "restore") { guards.erase(c.i(1)); emit(ev(c).kv("i", (long)c.i(1))); }
      else c.misuse("unknown");
    });
}
