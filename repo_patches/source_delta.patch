From 860a092ab28a9bc511ba9c3649227210b9b28d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 01/74] fix: callback_container: keep iterators and concurrent
 changes valid across disable_callback

---
 src/ossia/detail/callback_container.hpp | 26 +++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 3790d15..0a2ae5d 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -126,34 +126,44 @@ public:
     m_callbacks = std::move(cbs);
   }
 
+  /**
+   * @brief Keeps a callback silent for as long as this object lives.
+   *
+   * The function is moved out of its slot and put back afterwards : the slot
+   * stays in the list, so that every iterator (the disabled one included)
+   * stays valid and callbacks added or removed meanwhile are not affected.
+   */
   class disabled_callback
   {
   public:
-    explicit disabled_callback(callback_container& self)
-      : self{self}, old_callbacks{self.m_callbacks}
+    disabled_callback(callback_container& self, iterator it)
+      : self{self}, it{it}, callback{std::move(*it)}
     {
-
+      *it = T{};
     }
 
+    disabled_callback(const disabled_callback&) = delete;
+    disabled_callback& operator=(const disabled_callback&) = delete;
+
     ~disabled_callback()
     {
-      self.replace_callbacks(std::move(old_callbacks));
+      std::lock_guard<std::mutex> lck{self.m_mutx};
+      *it = std::move(callback);
     }
 
   private:
     callback_container& self;
-    callback_container::impl old_callbacks;
+    iterator it;
+    T callback;
   };
 
   disabled_callback disable_callback(iterator it)
   {
     std::lock_guard<std::mutex> lck{m_mutx};
-    disabled_callback dis{*this};
 
     // TODO should we also call on_removing_last_blah ?
     // I don't think so : it's supposed to be a short operation
-    m_callbacks.erase(it);
-    return dis;
+    return disabled_callback{*this, it};
   }
 
   /**
-- 
2.43.0


From 9f20f6f632782b552a4504a06524ac442c06abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 02/74] fix: scenario: an event that only disposed events lead
 to is disposed and stays so

---
 .../editor/scenario/detail/scenario_execution.cpp    | 10 ++++++++--
 .../detail/scenario_sync_musical_execution.cpp       | 12 ++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index cf3285b..14ab19e 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -26,6 +26,13 @@
 
 namespace ossia
 {
+// Once an event is processed, its status also carries the FINISHED bit
+static constexpr bool was_disposed(time_event::status st)
+{
+  return (uint8_t(st) & uint8_t(time_event::status::DISPOSED))
+         == uint8_t(time_event::status::DISPOSED);
+}
+
 small_sync_vec scenario::get_roots() const noexcept
 {
   small_sync_vec res;
@@ -104,8 +111,7 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
     {
-      if (previousTimeInterval->get_start_event().get_status()
-          != time_event::status::DISPOSED)
+      if (!was_disposed(previousTimeInterval->get_start_event().get_status()))
       {
         dispose = false;
         break;
diff --git a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
index 97990dd..64c2197 100644
--- a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
@@ -83,13 +83,18 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
     if(is_finished(status) || status == time_event::status::NONE)
     {
       bool minimalDurationReached = true;
+      // an event that only disposed events lead to cannot happen anymore
+      bool unreachable = !timeEvent->previous_time_intervals().empty();
 
       for (const std::shared_ptr<ossia::time_interval>& timeInterval :
            timeEvent->previous_time_intervals())
       {
         // ignore graphal intervals for the sake of allowing them to repeat
         if(timeInterval->graphal)
+        {
+          unreachable = false;
           continue;
+        }
 
         const auto& ev = timeInterval->get_start_event();
         const auto start_ev_status = ev.get_status();
@@ -99,6 +104,7 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
         {
           continue;
         }
+        unreachable = false;
 
         // previous TimeInterval with a not yet HAPPENED start event
         // can't have reached its minimal duration
@@ -117,6 +123,12 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
         }
       }
 
+      if (unreachable)
+      {
+        activeCount--;
+        continue;
+      }
+
       // access to PENDING status once all previous TimeIntervals allow it
       if (minimalDurationReached)
       {
-- 
2.43.0


From 0fe255de4b98254db959b04b7f97e8b8f1409735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 03/74] fix: scenario: triggering a root again resets the part
 of the scenario it started

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 14ab19e..2739001 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -300,7 +300,8 @@ void scenario::state_impl(const ossia::token_request& tk)
           {
             const auto st = e->get_status();
             if (st == ossia::time_event::status::HAPPENED
-                || st == ossia::time_event::status::DISPOSED)
+                || st == ossia::time_event::status::DISPOSED
+                || (uint8_t(st) & uint8_t(ossia::time_event::status::FINISHED)))
             {
               m_sg.reset_component(*n);
               break;
-- 
2.43.0


From 04654738e224a2fd4b3e229eeaa65fb9e00419b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 04/74] fix: scenario: dispose an event reached by two
 intervals only once

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 2739001..85b7f61 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -106,7 +106,9 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
   // dispose next TimeIntervals end event if everything is disposed before
   for (auto& nextTimeInterval : event.next_time_intervals())
   {
-    bool dispose = true;
+    // two intervals can lead to the same event: dispose it only once
+    bool dispose
+        = !was_disposed(nextTimeInterval->get_end_event().get_status());
 
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
-- 
2.43.0


From 143792af7de4a617a5b94cc3f6f81b81913081df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 05/74] fix: scenario: do not run on an interval that ended in
 the round it started

---
 src/ossia/editor/scenario/detail/scenario_execution.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 85b7f61..654d23d 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -392,7 +392,10 @@ void scenario::state_impl(const ossia::token_request& tk)
           const_cast<overtick&>(it->second).offset = offset;
           for (const auto& interval : ev.next_time_intervals())
           {
-            run_interval(*interval, tk, tick_ms, remaining_tick, offset);
+            // it can already be over, if it has no minimal duration
+            if (m_runningIntervals.find(interval.get())
+                != m_runningIntervals.end())
+              run_interval(*interval, tk, tick_ms, remaining_tick, offset);
           }
         }
       }
-- 
2.43.0


From 55f75c8e7498c90c6e6558a2ed319e1f0f51249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 06/74] fix: callback_container: give the same arguments to
 every callback

---
 src/ossia/detail/callback_container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 0a2ae5d..76fecbf 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -196,8 +196,9 @@ public:
     std::lock_guard<std::mutex> lck{m_mutx};
     for (auto& callback : m_callbacks)
     {
+      // not forwarded: every callback has to get the same arguments
       if (callback)
-        callback(std::forward<Args>(args)...);
+        callback(args...);
     }
   }
 
-- 
2.43.0


From 205ce387b0b3acd218ea180af70cda768a641a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 07/74] fix: time_value: exact mixed-sign sums, absorbing += on
 infinity, consistent comparisons, pure negation

---
 src/ossia/editor/scenario/time_value.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/ossia/editor/scenario/time_value.hpp b/src/ossia/editor/scenario/time_value.hpp
index 80a297f..d3acac2 100644
--- a/src/ossia/editor/scenario/time_value.hpp
+++ b/src/ossia/editor/scenario/time_value.hpp
@@ -48,7 +48,7 @@ struct OSSIA_EXPORT time_value
   constexpr time_value& operator+=(int64_t d) noexcept
   {
     if (infinite())
-      impl = 0;
+      impl = infinity;
     else
       impl += d;
 
@@ -87,12 +87,9 @@ struct OSSIA_EXPORT time_value
     return *this;
   }
 
-  constexpr time_value& operator-() noexcept
+  constexpr time_value operator-() const noexcept
   {
-    if (!infinite())
-      impl = -impl;
-
-    return *this;
+    return infinite() ? *this : time_value{-impl};
   }
 
   /*! addition operator */
@@ -138,13 +135,11 @@ struct OSSIA_EXPORT time_value
     }
     else if(lhs.impl >= 0 && rhs.impl < 0)
     {
-      uint64_t l = lhs.impl;
-      return l + rhs.impl >= infinite_min;
+      return lhs.impl + rhs.impl >= infinite_min;
     }
     else if(lhs.impl < 0 && rhs.impl >= 0)
     {
-      uint64_t r = rhs.impl;
-      return lhs.impl + r >= infinite_min;
+      return lhs.impl + rhs.impl >= infinite_min;
     }
     else if(lhs.impl < 0 && rhs.impl < 0)
     {
@@ -266,7 +261,7 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator!=(ossia::time_value rhs) const noexcept
   {
-    return (infinite() != rhs.infinite()) || (impl != rhs.impl);
+    return !(*this == rhs);
   }
   constexpr bool operator<(ossia::time_value rhs) const noexcept
   {
@@ -278,11 +273,11 @@ struct OSSIA_EXPORT time_value
   }
   constexpr bool operator<=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl <= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl <= rhs.impl);
   }
   constexpr bool operator>=(ossia::time_value rhs) const noexcept
   {
-    return !(infinite() && rhs.infinite()) && (impl >= rhs.impl);
+    return (infinite() && rhs.infinite()) || (impl >= rhs.impl);
   }
 
   int64_t impl;
-- 
2.43.0


From 16055b4cc552f87722d4b0ea2d2364c1f16d8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 08/74] fix: framing: read whole size prefixes, go on after
 empty messages, resynchronise SLIP

---
 src/ossia/network/sockets/size_prefix_framing.hpp | 11 ++++++++---
 src/ossia/network/sockets/slip_framing.hpp        |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 770ed4c..b42c6f3 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -27,9 +27,10 @@ struct size_prefix_decoder
   template <typename F>
   void receive(F f)
   {
-    // Receive the size prefix
-    socket.async_read_some(
+    // Receive the size prefix, which may come in several parts
+    boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
+        boost::asio::transfer_exactly(sizeof(int32_t)),
         [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
           read_size(std::move(f), ec, sz);
         });
@@ -42,9 +43,13 @@ struct size_prefix_decoder
       return;
 
     boost::endian::big_to_native_inplace(m_next_packet_size);
-    if (m_next_packet_size <= 0)
+    if (m_next_packet_size < 0)
       return;
 
+    // An empty message: nothing to process, go on with the next one
+    if (m_next_packet_size == 0)
+      return this->receive(std::move(f));
+
     m_data.resize(m_next_packet_size);
     boost::asio::async_read(socket,
         boost::asio::buffer(m_data.data(), m_next_packet_size),
diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index da3a4b3..9958c6a 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -90,9 +90,11 @@ struct slip_decoder
         {
           // End of a message, we can process it
           case slip::eot:
-            m_status = waiting;
+            // If there is nothing in it, it is actually the start of one
+            // (e.g. we took the end of the previous one for a start)
             if(m_decoded.size() > 0)
             {
+              m_status = waiting;
               f(m_decoded.data(), m_decoded.size());
             }
             m_decoded.clear();
-- 
2.43.0


From 7e4a15ceb2adfa71de7c1171937e1eb5f403d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 09/74] fix: name_validation: give a fresh instance number
 after the greatest int

A taken name whose brothers already hold the instance 2147483647 got the
overflowed number -2147483648 each time, so that siblings ended up with the
same name.
---
 src/ossia/network/base/name_validation.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/base/name_validation.cpp b/src/ossia/network/base/name_validation.cpp
index dd9150a..71ec053 100644
--- a/src/ossia/network/base/name_validation.cpp
+++ b/src/ossia/network/base/name_validation.cpp
@@ -9,6 +9,7 @@
 #include <boost/lexical_cast.hpp>
 
 #include <algorithm>
+#include <limits>
 namespace ossia
 {
 namespace net
@@ -60,6 +61,21 @@ std::string sanitize_name(const char* ret)
   return n;
 }
 
+//! An instance number that is not in the list: the one after the greatest,
+//! or the first free one when there is no greater number.
+template <typename T>
+static int next_instance(T& instance_num)
+{
+  std::sort(instance_num.begin(), instance_num.end());
+  if (instance_num.back() < std::numeric_limits<int>::max())
+    return instance_num.back() + 1;
+
+  int n = 1;
+  while (std::binary_search(instance_num.begin(), instance_num.end(), n))
+    n++;
+  return n;
+}
+
 std::string
 sanitize_name(std::string name, const std::vector<std::string>& brethren)
 {
@@ -133,9 +149,8 @@ sanitize_name(std::string name, const std::vector<std::string>& brethren)
     }
     else
     {
-      std::sort(instance_num.begin(), instance_num.end());
       return root_name + "."
-             + boost::lexical_cast<std::string>(instance_num.back() + 1);
+             + boost::lexical_cast<std::string>(next_instance(instance_num));
     }
   }
 }
@@ -209,10 +224,9 @@ void sanitize_name(
     }
     else
     {
-      std::sort(instance_num.begin(), instance_num.end());
       name = root_name;
       name += '.';
-      name += boost::lexical_cast<std::string>(instance_num.back() + 1);
+      name += boost::lexical_cast<std::string>(next_instance(instance_num));
     }
   }
 }
-- 
2.43.0


From 6311d86b419a750a7f9523a52928ea29dc384760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 10/74] fix: expand_ranges: count down to the first value with
 a negative step

{1..5..-2} was left as is, and {5..5..-1} added values until the memory ran
out.
---
 src/ossia/network/base/node_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 4a20c9c..8c514ac 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -434,7 +434,7 @@ void expand_ranges(std::string& str)
       }
       else
       {
-        for (int64_t v = it->last; v <= it->first; v += it->increment)
+        for (int64_t v = it->last; v >= it->first; v += it->increment)
         {
           rep += std::to_string(v);
           rep += ',';
-- 
2.43.0


From bf157b125e8cd0c1a9de5e5508988a4cf4e54d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 11/74] fix: create_nodes: a class or a range of one element is
 not a literal brace

foo.[1] and foo.{1..2..5} created foo._1_ instead of foo.1.
---
 src/ossia/network/base/node_functions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 8c514ac..f55d0d4 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -390,6 +390,16 @@ List expand(const Range& range)
   return expand<Iterator, String, List>(std::begin(range), std::end(range));
 }
 
+//! {a,} -> {a}, or only a when there is a single alternative: braces
+//! around a single element are not an expansion.
+static void close_alternatives(std::string& rep)
+{
+  if (rep.find(',') == rep.size() - 1)
+    rep = rep.substr(1, rep.size() - 2);
+  else
+    rep.back() = '}';
+}
+
 void expand_ranges(std::string& str)
 {
   {
@@ -443,7 +453,7 @@ void expand_ranges(std::string& str)
 
       if (rep.back() == ',')
       {
-        rep.back() = '}';
+        close_alternatives(rep);
         str.replace(it->start, it->length, rep);
       }
     }
@@ -563,7 +573,7 @@ std::string canonicalize_str(std::string str)
 
       if (rep.back() == ',')
       {
-        rep.back() = '}';
+        close_alternatives(rep);
         str.replace(it->start, it->length, rep);
       }
     }
-- 
2.43.0


From ce0918dcfd545beca0a95b187635a4f57eb5067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 12/74] fix: traversal: a dot in a pattern is a dot

/a.1/* also selected the children of ab1.
---
 src/ossia/network/common/path.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/common/path.cpp b/src/ossia/network/common/path.cpp
index 5cb23af..4843e18 100644
--- a/src/ossia/network/common/path.cpp
+++ b/src/ossia/network/common/path.cpp
@@ -169,7 +169,14 @@ std::string substitute_characters(const std::string& part)
       = "[" + std::string(ossia::net::name_characters()) + "]*";
   for (std::size_t i = 0, N = part.size(); i < N; i++)
   {
-    if (part[i] == '(')
+    if (part[i] == '\\' && i + 1 < N)
+    {
+      res += part[i];
+      res += part[++i];
+    }
+    else if (part[i] == '.')
+      res.append("\\.");
+    else if (part[i] == '(')
       res.append("\\(");
     else if (part[i] == ')')
       res.append("\\)");
-- 
2.43.0


From 87fc1e27fb74f610e97fee8f013a12ce3f147f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 13/74] fix: name_validation: = is a legal character in names
 for patterns too

A node called a=b was never selected by *, ? or !.
---
 src/ossia/network/base/name_validation.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/base/name_validation.hpp b/src/ossia/network/base/name_validation.hpp
index 1e2488b..e1c7b3a 100644
--- a/src/ossia/network/base/name_validation.hpp
+++ b/src/ossia/network/base/name_validation.hpp
@@ -42,7 +42,7 @@ bool is_valid_character_for_name(Char_T c)
  */
 constexpr ossia::string_view device_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~() .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~()= .-"));
 }
 
 /**
@@ -50,7 +50,7 @@ constexpr ossia::string_view device_characters() noexcept
  */
 constexpr ossia::string_view name_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~():= .-"));
 }
 
 /**
@@ -58,12 +58,12 @@ constexpr ossia::string_view name_characters() noexcept
  */
 constexpr ossia::string_view path_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~(): .-"));
+  constexpr_return(ossia::make_string_view("/a-zA-Z0-9_~():= .-"));
 }
 
 constexpr ossia::string_view name_characters_no_instance() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): -"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~():= -"));
 }
 /**
  * @brief Characters valid in an OSSIA pattern-matching part.
@@ -74,7 +74,7 @@ constexpr ossia::string_view name_characters_no_instance() noexcept
  */
 constexpr ossia::string_view pattern_match_characters() noexcept
 {
-  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~(): .*?,{}\\[\\]-"));
+  constexpr_return(ossia::make_string_view("a-zA-Z0-9_~():= .*?,{}\\[\\]-"));
 }
 
 /**
-- 
2.43.0


From 637979bab93f5dda137466469518a6b8e7dcbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 14/74] fix: a boolean converted to a string and back is
 unchanged

"true" was read back as false: lexical_cast<bool> only accepts 0 and 1.
---
 src/ossia/network/value/detail/value_conversion_impl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossia/network/value/detail/value_conversion_impl.hpp b/src/ossia/network/value/detail/value_conversion_impl.hpp
index 77e2da2..23134cc 100644
--- a/src/ossia/network/value/detail/value_conversion_impl.hpp
+++ b/src/ossia/network/value/detail/value_conversion_impl.hpp
@@ -165,6 +165,12 @@ struct value_converter<double> : public numeric_value_converter<double>
 template <>
 struct value_converter<bool> : public numeric_value_converter<bool>
 {
+  using numeric_value_converter<bool>::operator();
+  bool operator()(const std::string& v) const
+  {
+    // Booleans are written as "true" and "false" when converted to strings
+    return v == "true" || numeric_value_converter<bool>::operator()(v);
+  }
 };
 template <>
 struct value_converter<char> : public numeric_value_converter<char>
-- 
2.43.0


From 76d3437bc67a5921766b55f06ea401ed001812bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 15/74] fix: an empty list is neither less nor greater than an
 empty list

---
 src/ossia/network/value/value.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ossia/network/value/value.cpp b/src/ossia/network/value/value.cpp
index 3a2e64d..d62c88d 100644
--- a/src/ossia/network/value/value.cpp
+++ b/src/ossia/network/value/value.cpp
@@ -380,6 +380,9 @@ struct value_comparison_visitor2
   {
     if (lhs.size() != rhs.size())
       return false;
+    // Empty lists are equal: neither less nor greater
+    if (lhs.empty())
+      return Comparator{}(0, 0);
 
     bool result = true;
     auto tit = rhs.begin();
-- 
2.43.0


From 549173042304b806b874f26f0752b5e94afceacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 16/74] fix: free bounding leaves values untouched

apply_domain on a const value converted (or dropped) values of another type
than the domain's even when the bounding mode was FREE.
---
 src/ossia/network/domain/domain_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/domain_base.cpp b/src/ossia/network/domain/domain_base.cpp
index 63a9bed..85213d5 100644
--- a/src/ossia/network/domain/domain_base.cpp
+++ b/src/ossia/network/domain/domain_base.cpp
@@ -235,7 +235,7 @@ ossia::domain make_domain_from_minmax(
 
 value apply_domain(const domain& dom, bounding_mode b, const ossia::value& val)
 {
-  if (bool(dom) && bool(val.v))
+  if (bool(dom) && bool(val.v) && b != ossia::bounding_mode::FREE)
   {
     return ossia::apply(apply_domain_visitor{b}, val.v, dom.v);
   }
-- 
2.43.0


From 316455149f5e456a2011dbd42b5ba6e8c225efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 17/74] fix: wrap and fold stay inside their bounds

- a value a whole number of periods below low wrapped to high, which is the
  image of low, and then to low when wrapped again
- the differences of integers overflowed: wrap(INT_MAX, -10, 10) was below -10
- with equal bounds the result was not a number
---
 src/ossia/detail/math.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ossia/detail/math.hpp b/src/ossia/detail/math.hpp
index 8a6df35..d5a7428 100644
--- a/src/ossia/detail/math.hpp
+++ b/src/ossia/detail/math.hpp
@@ -116,10 +116,16 @@ OSSIA_INLINE constexpr T wrap(const T val, const T low, const T high) noexcept
 {
   if ((val >= low) && (val < high))
     return val;
-  else if (val >= low)
-    return low + std::fmod(val - low, std::fabs(low - high));
-  else
-    return high - std::fmod(low - val, std::fabs(low - high));
+  if (low == high)
+    return low;
+
+  // In double: the differences of integers may not fit in an integer
+  const double range = std::fabs(double(low) - double(high));
+  if (val >= low)
+    return low + std::fmod(double(val) - double(low), range);
+
+  const T res = high - std::fmod(double(low) - double(val), range);
+  return res < high ? res : low;
 }
 
 template <class T>
@@ -127,11 +133,14 @@ OSSIA_INLINE constexpr T fold(const T val, const T low, const T high) noexcept
 {
   if ((val >= low) && (val <= high))
     return val;
+  else if (low == high)
+    return low;
   else
   {
     return low
-           + std::fabs(
-                 ossia::remainder(val - low, 2. * std::fabs(low - high)));
+           + std::fabs(ossia::remainder(
+               double(val) - double(low),
+               2. * std::fabs(double(low) - double(high))));
   }
 }
 
-- 
2.43.0


From 6c114c233ef404d1589c4d481f84b7dec5a6df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 18/74] fix: wrapping does not turn true into false in a
 boolean domain

---
 src/ossia/network/domain/detail/domain_impl.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/domain/detail/domain_impl.cpp b/src/ossia/network/domain/detail/domain_impl.cpp
index abd1ae6..99c65e6 100644
--- a/src/ossia/network/domain/detail/domain_impl.cpp
+++ b/src/ossia/network/domain/detail/domain_impl.cpp
@@ -206,9 +206,8 @@ operator()(bounding_mode b, U&& val) const
   switch (b)
   {
     case bounding_mode::CLIP:
+    case bounding_mode::WRAP: // both booleans are inside the domain
       return bool(ossia::clamp(std::forward<U>(val), false, true));
-    case bounding_mode::WRAP:
-      return bool(ossia::wrap(std::forward<U>(val), false, true));
     case bounding_mode::FOLD:
       return bool(ossia::fold(std::forward<U>(val), false, true));
     case bounding_mode::LOW:
@@ -443,13 +442,10 @@ operator()(bounding_mode b, std::array<float, N> val) const
   switch (b)
   {
     case bounding_mode::CLIP:
+    case bounding_mode::WRAP: // both booleans are inside the domain
       for (std::size_t i = 0; i < N; i++)
         val[i] = ossia::clamp(bool(val[i]), min, max);
       break;
-    case bounding_mode::WRAP:
-      for (std::size_t i = 0; i < N; i++)
-        val[i] = ossia::wrap(bool(val[i]), min, max);
-      break;
     case bounding_mode::FOLD:
       for (std::size_t i = 0; i < N; i++)
         val[i] = ossia::fold(bool(val[i]), min, max);
-- 
2.43.0


From 9b165951f3063857b42d9fb13c3749dfed7bdaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 19/74] fix: values outside of a value set are rejected, not
 replaced by zero

This is what happens already for numbers, strings, and vectors in a domain
of numbers; vectors in a vector domain and integers in a domain of floats
(or the converse) became zero, which may not be in the set either.
---
 src/ossia/network/domain/detail/domain_impl.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/domain/detail/domain_impl.cpp b/src/ossia/network/domain/detail/domain_impl.cpp
index 99c65e6..89c6d9e 100644
--- a/src/ossia/network/domain/detail/domain_impl.cpp
+++ b/src/ossia/network/domain/detail/domain_impl.cpp
@@ -606,9 +606,11 @@ value vec_clamp<N>::operator()(bounding_mode b, std::array<float, N> val) const
   {
     if (!vals[i].empty())
     {
+      // Return a valid value only if it is in the given values
       auto it = vals[i].find(val[i]);
-      if (it != vals[i].end())
-        res[i] = val[i];
+      if (it == vals[i].end())
+        return {};
+      res[i] = val[i];
     }
     else
     {
@@ -1017,14 +1019,14 @@ value apply_domain_visitor::
 operator()(int32_t value, const domain_base<float>& domain) const
 {
   auto res = numeric_clamp<domain_base<float>>{domain}(b, float(value));
-  return convert(res, val_type::INT);
+  return res.valid() ? convert(res, val_type::INT) : res;
 }
 
 value apply_domain_visitor::
 operator()(float value, const domain_base<int32_t>& domain) const
 {
   auto res = numeric_clamp<domain_base<int32_t>>{domain}(b, int32_t(value));
-  return convert(res, val_type::FLOAT);
+  return res.valid() ? convert(res, val_type::FLOAT) : res;
 }
 
 value apply_domain_visitor::
-- 
2.43.0


From 1e6b475e73b657233f13dd44f93117a4a5b93f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 20/74] fix: a component without bound in a list domain is not
 bounded by zero

---
 src/ossia/network/domain/domain_conversion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/domain/domain_conversion.hpp b/src/ossia/network/domain/domain_conversion.hpp
index 434df4e..b3bb6ad 100644
--- a/src/ossia/network/domain/domain_conversion.hpp
+++ b/src/ossia/network/domain/domain_conversion.hpp
@@ -109,13 +109,15 @@ struct domain_conversion<vecf_domain<N>>
     const std::size_t min_size = std::min(N, t.min.size());
     for (std::size_t i = 0; i < min_size; i++)
     {
-      dom.min[i] = ossia::convert<float>(t.min[i]);
+      if (t.min[i].valid())
+        dom.min[i] = ossia::convert<float>(t.min[i]);
     }
 
     const std::size_t max_size = std::min(N, t.max.size());
     for (std::size_t i = 0; i < max_size; i++)
     {
-      dom.max[i] = ossia::convert<float>(t.max[i]);
+      if (t.max[i].valid())
+        dom.max[i] = ossia::convert<float>(t.max[i]);
     }
 
     const std::size_t vals_size = std::min(N, t.values.size());
-- 
2.43.0


From 0c8f78744ac1251544776bf53133d5b1a5da0a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 21/74] fix: set_values gives the values to every component of
 a list domain

---
 src/ossia/network/domain/detail/value_set_domain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/domain/detail/value_set_domain.hpp b/src/ossia/network/domain/detail/value_set_domain.hpp
index f35b672..c08344f 100644
--- a/src/ossia/network/domain/detail/value_set_domain.hpp
+++ b/src/ossia/network/domain/detail/value_set_domain.hpp
@@ -94,7 +94,7 @@ struct value_set_update_visitor
       set.clear();
       for (auto& value : values)
       {
-        dom.values[0].insert(value);
+        set.insert(value);
       }
     }
   }
-- 
2.43.0


From de253a97fbf49fcbba830ffaa44020e961138010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 22/74] fix: copying a domain of any values keeps its value set

With braces the vector of values was taken as the only element of a new one,
so that no member of the set was accepted any more by the copy.
---
 src/ossia/network/domain/domain_base_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/domain/domain_base_impl.hpp b/src/ossia/network/domain/domain_base_impl.hpp
index 0976e19..d45c3c3 100644
--- a/src/ossia/network/domain/domain_base_impl.hpp
+++ b/src/ossia/network/domain/domain_base_impl.hpp
@@ -317,14 +317,14 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(const domain_base<value_type>& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
   domain_base(domain_base<value_type>&& other) noexcept
       : min{std::move(other.min)}
       , max{std::move(other.max)}
-      , values{std::move(other.values)}
+      , values(std::move(other.values))
   {
   }
 
@@ -355,12 +355,12 @@ struct OSSIA_EXPORT domain_base<ossia::value>
   domain_base(
       const value_type& v1, const value_type& v2,
       const std::vector<value_type>& vals)
-      : min{v1}, max{v2}, values{vals}
+      : min{v1}, max{v2}, values(vals)
   {
   }
   domain_base(
       value_type&& v1, value_type&& v2, std::vector<value_type>&& vals)
-      : min{std::move(v1)}, max{std::move(v2)}, values{std::move(vals)}
+      : min{std::move(v1)}, max{std::move(v2)}, values(std::move(vals))
   {
   }
 
-- 
2.43.0


From 18292fc10a8408fd2c47f4a1bf4ebd76c4ab90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 23/74] fix: setting a parameter to an invalid value does not
 call its callbacks

---
 src/ossia/network/generic/generic_parameter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/generic/generic_parameter.cpp b/src/ossia/network/generic/generic_parameter.cpp
index 0b598da..6ddaa33 100644
--- a/src/ossia/network/generic/generic_parameter.cpp
+++ b/src/ossia/network/generic/generic_parameter.cpp
@@ -119,7 +119,8 @@ generic_parameter::set_value(const ossia::value& val)
       copy = m_value;
     }
   }
-  send(copy);
+  if (copy.valid())
+    send(copy);
 
   return copy;
 }
@@ -145,7 +146,9 @@ ossia::value generic_parameter::set_value(ossia::value&& val)
     }
   }
 
-  send(copy);
+  if (copy.valid())
+    send(copy);
+
   return copy;
 }
 
-- 
2.43.0


From d7e4aae9e66b81a28ad8db4fe20fa028a3de2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 24/74] fix: a parameter can be set to its own value

---
 src/ossia/network/generic/generic_parameter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/generic/generic_parameter.cpp b/src/ossia/network/generic/generic_parameter.cpp
index 6ddaa33..57794ec 100644
--- a/src/ossia/network/generic/generic_parameter.cpp
+++ b/src/ossia/network/generic/generic_parameter.cpp
@@ -108,9 +108,9 @@ generic_parameter::set_value(const ossia::value& val)
     {
       // TODO assess whether we would avoid an allocation on the return
       // if doing copy = std::move(m_previousValue)
+      copy = val; // before m_value is moved from: val may be m_value itself
       m_previousValue = std::move(m_value); // TODO also implement me for MIDI
-      m_value = val;
-      copy = val;
+      m_value = copy;
     }
     else
     {
@@ -163,9 +163,9 @@ ossia::value generic_parameter::set_value_quiet(const ossia::value& val)
     {
       // TODO assess whether we would avoid an allocation on the return
       // if doing copy = std::move(m_previousValue)
+      copy = val; // before m_value is moved from: val may be m_value itself
       m_previousValue = std::move(m_value); // TODO also implement me for MIDI
-      m_value = val;
-      copy = val;
+      m_value = copy;
     }
     else
     {
-- 
2.43.0


From 962c8c6dbdf6311b37cf61626f692330b937ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 25/74] fix: nodes without ports run after the nodes they
 depend on

---
 src/ossia/dataflow/graph/graph_static.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index 53371a1..4aa119e 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -43,12 +43,17 @@ public:
       m_topo_order_cache.reserve(m_nodes.size());
       boost::topological_sort(gr, std::back_inserter(m_topo_order_cache));
 
-      // First put the ones without any I/O (most likely states)
+      // The ones without any I/O (most likely states) come first,
+      // unless they depend on another node
+      auto goes_first = [&](graph_vertex_t vtx, const graph_node& node) {
+        return node.root_inputs().empty() && node.root_outputs().empty()
+               && boost::out_degree(vtx, gr) == 0;
+      };
       for (auto vtx : m_topo_order_cache)
       {
         auto node = gr[vtx].get();
         assert(node);
-        if(node->root_inputs().empty() && node->root_outputs().empty())
+        if(goes_first(vtx, *node))
         {
           m_all_nodes.push_back(node);
         }
@@ -59,7 +64,7 @@ public:
         auto node = gr[vtx].get();
         assert(node);
 
-        if(!(node->root_inputs().empty() && node->root_outputs().empty()))
+        if(!goes_first(vtx, *node))
         {
           m_all_nodes.push_back(node);
         }
-- 
2.43.0


From d7e4388775ef75d1e39901d45d347c8856a68aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:40 +0000
Subject: [PATCH 26/74] fix: a delayed glutton edge does not skip what is
 written later

---
 src/ossia/dataflow/graph/graph_ordering.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_ordering.hpp b/src/ossia/dataflow/graph/graph_ordering.hpp
index 3044e95..b860bdf 100644
--- a/src/ossia/dataflow/graph/graph_ordering.hpp
+++ b/src/ossia/dataflow/graph/graph_ordering.hpp
@@ -152,10 +152,13 @@ struct init_node_visitor
 
   bool operator()(delayed_glutton_connection& con) const
   {
-    // TODO If there is data...
-    // Else...
-    copy(con.buffer, con.pos, in);
-    con.pos++;
+    // If there is nothing to read yet, what gets written later
+    // still has to be read from there.
+    if (con.pos < ossia::apply(data_size{}, con.buffer))
+    {
+      copy(con.buffer, con.pos, in);
+      con.pos++;
+    }
     return false;
   }
 
-- 
2.43.0


From f1056cd1d40db0583103a9c00b7d8daf736d1be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 27/74] fix: the dynamic graph respects the edges which are not
 between ports

---
 src/ossia/dataflow/graph/graph.hpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph.hpp b/src/ossia/dataflow/graph/graph.hpp
index 5549939..e4861e1 100644
--- a/src/ossia/dataflow/graph/graph.hpp
+++ b/src/ossia/dataflow/graph/graph.hpp
@@ -26,12 +26,12 @@ public:
         auto node = *it;
         if (cur_it != end)
         {
-          if (!comp(*cur_it, node) && can_execute(*node, e))
+          if (!comp(*cur_it, node) && g.can_execute_now(*node, e))
             cur_it = it;
         }
         else
         {
-          if (can_execute(*node, e))
+          if (g.can_execute_now(*node, e))
           {
             cur_it = it;
           }
@@ -70,12 +70,12 @@ public:
         auto node = *it;
         if (cur_it != end)
         {
-          if (!comp(*cur_it, node) && can_execute(*node, e))
+          if (!comp(*cur_it, node) && g.can_execute_now(*node, e))
             cur_it = it;
         }
         else
         {
-          if (can_execute(*node, e))
+          if (g.can_execute_now(*node, e))
           {
             cur_it = it;
           }
@@ -259,6 +259,23 @@ public:
     }
   }
 
+  // Also takes into account the edges which are not between ports
+  bool can_execute_now(graph_node& node, const execution_state& e) const
+  {
+    if (!can_execute(node, e))
+      return false;
+
+    auto it = m_nodes.find(&node);
+    if (it == m_nodes.end())
+      return true;
+
+    auto edges = boost::out_edges(it->second, m_graph);
+    return std::all_of(edges.first, edges.second, [&] (const auto& edge) {
+      const auto& out = m_graph[edge]->out_node;
+      return out->executed() || !out->enabled();
+    });
+  }
+
 public:
   ~graph() override;
 
-- 
2.43.0


From 7d1730f06d5f062126e5cc3b9b102141a8fc0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 28/74] fix: values written on a port keep their timestamp

---
 src/ossia/dataflow/data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/data.cpp b/src/ossia/dataflow/data.cpp
index 3daa45b..0db0ddd 100644
--- a/src/ossia/dataflow/data.cpp
+++ b/src/ossia/dataflow/data.cpp
@@ -175,13 +175,13 @@ void value_port::write_value(const value& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(v);
+      data.emplace_back(v, timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(v);
+    this->data.emplace_back(v, timestamp);
     break;
   }
   case data_mix_method::mix_merge:
@@ -207,13 +207,13 @@ void value_port::write_value(value&& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(std::move(v));
+      data.emplace_back(std::move(v), timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(std::move(v));
+    this->data.emplace_back(std::move(v), timestamp);
     break;
   }
   case data_mix_method::mix_merge:
-- 
2.43.0


From d4cfc5e4030c6d48e06488014edcc737ba2a204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 29/74] fix: a vector committed again after another one is not
 dropped

---
 src/ossia/editor/state/flat_vec_state.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/state/flat_vec_state.hpp b/src/ossia/editor/state/flat_vec_state.hpp
index 49ca454..eb347be 100644
--- a/src/ossia/editor/state/flat_vec_state.hpp
+++ b/src/ossia/editor/state/flat_vec_state.hpp
@@ -32,10 +32,11 @@ struct flat_vec_state
     ossia::remove_erase(m_children, e);
   }
 
+  // Every element is kept, in the order in which it was added
   template <typename T>
-  auto find(const T& val) noexcept
+  auto find(const T&) noexcept
   {
-    return ossia::find(m_children, val);
+    return m_children.end();
   }
 
   void launch() noexcept
-- 
2.43.0


From 7b8a8cb6095e5a8996df20b11974a9e894b551a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 30/74] fix: priorities are not truncated when committing by
 priority

---
 src/ossia/dataflow/execution_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 7372d58..26e59d6 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -628,7 +628,7 @@ void execution_state::commit_priorized()
 
     int64_t cur_ts = 0; // timestamp
     int cur_ms = 0;     // message stamp
-    int cur_prio = 0;
+    ossia::net::priority cur_prio{};
     if (const auto& p = ossia::net::get_priority(it->first->get_node()))
       cur_prio = *p;
 
-- 
2.43.0


From d0f7ec3184940886fc2bfeae1662f7be35115f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 31/74] fix: a parameter registered twice stays registered
 after one unregistration

---
 src/ossia/dataflow/execution_state.cpp   | 2 +-
 src/ossia/network/base/message_queue.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 26e59d6..8dd5ff8 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -262,7 +262,7 @@ void execution_state::register_midi_parameter(net::midi::midi_protocol& p)
   auto it = m_receivedMidi.find(&p);
   if(it == m_receivedMidi.end())
   {
-    m_receivedMidi.insert({&p, {0, {}}});
+    m_receivedMidi.insert({&p, {1, {}}});
   }
   else
   {
diff --git a/src/ossia/network/base/message_queue.hpp b/src/ossia/network/base/message_queue.hpp
index 5710211..dc8670e 100644
--- a/src/ossia/network/base/message_queue.hpp
+++ b/src/ossia/network/base/message_queue.hpp
@@ -50,7 +50,7 @@ public:
       auto it = p.add_callback([this, ptr](const ossia::value& val) {
         m_queue.enqueue({ptr, val});
       });
-      m_reg.insert({&p, {0, it}});
+      m_reg.insert({&p, {1, it}});
     }
     else
     {
-- 
2.43.0


From 950b68ea84e02ad3f2b36e6646879a0717a85a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 32/74] fix: an audio inlet reads the parameter again once what
 was written to it is sent

---
 src/ossia/dataflow/execution_state.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 8dd5ff8..e31df1b 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -20,6 +20,13 @@
 
 namespace ossia
 {
+// Once the samples have been commited, only empty channels are left
+static bool has_samples(const audio_port& port)
+{
+  return ossia::any_of(
+      port.samples, [](const auto& chan) { return !chan.empty(); });
+}
+
 struct local_pull_visitor
 {
   execution_state& st;
@@ -40,7 +47,7 @@ struct local_pull_visitor
   {
     OSSIA_EXEC_STATE_LOCK_READ(st);
     auto it = st.m_audioState.find(static_cast<ossia::audio_parameter*>(addr));
-    if (it != st.m_audioState.end() && !it->second.samples.empty())
+    if (it != st.m_audioState.end() && has_samples(it->second))
     {
       copy_data{}(it->second, val);
       return true;
@@ -933,7 +940,7 @@ static bool is_in(
   auto it = container.find(static_cast<ossia::audio_parameter*>(&other));
   if (it == container.end())
     return false;
-  return !it->second.samples.empty();
+  return has_samples(it->second);
 }
 bool execution_state::in_local_scope(net::parameter_base& other) const
 {
-- 
2.43.0


From 7216236682e5d4621eb10e227f1f07ee5518ece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 33/74] fix: a whole vector merged after one of its components
 replaces it

---
 .../state/detail/state_flatten_visitor.hpp    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index c4dafa7..c90b59f 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -109,6 +109,22 @@ struct vec_merger
     return ossia::message{incoming_dest, incoming};
   }
 
+  template <std::size_t N>
+  ossia::state_element
+  operator()(float orig, const std::array<float, N>& incoming) const
+  {
+    auto& existing_index = existing_dest.index;
+    auto& incoming_index = incoming_dest.index;
+    if (!existing_index.empty() && !incoming_index.empty()
+        && existing_index != incoming_index && incoming_index[0] < (int64_t)N)
+    {
+      return make_piecewise_from_floats<N>(orig, incoming[incoming_index[0]]);
+    }
+
+    // The whole value is replaced
+    return ossia::message{incoming_dest, incoming};
+  }
+
   template <std::size_t N>
   ossia::state_element
   operator()(std::array<float, N>& orig, float incoming) const
@@ -151,6 +167,11 @@ struct vec_merger
     auto& incoming_index = incoming_dest.index;
     if (incoming_index.empty())
     {
+      if (!existing_index.empty())
+      {
+        // The message does not only set an index anymore
+        return ossia::message{incoming_dest, incoming};
+      }
       orig = incoming;
       return {};
     }
@@ -347,6 +368,7 @@ struct state_flatten_visitor_merger
         else
         {
           existing.message_value = incoming.message_value.get<vec_type>();
+          existing.used_values.set();
         }
         break;
       }
-- 
2.43.0


From d1ba995b850d96890461d3c11ac97c45442ea249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:28 +0000
Subject: [PATCH 34/74] fix: inserting a state in a locked execution state does
 not lock it twice

---
 src/ossia/dataflow/execution_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index e31df1b..2b56da2 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -879,9 +879,9 @@ struct state_exec_visitor
       ossia::apply(*this, msg);
   }
 
+  // The execution state is locked by its insert method
   void operator()(const ossia::message& msg)
   {
-    OSSIA_EXEC_STATE_LOCK_WRITE(e);
     e.m_valueState[&msg.dest.address()].emplace_back(
         ossia::typed_value{msg.message_value, msg.dest.index, msg.dest.unit},
         e.m_msgIndex++);
-- 
2.43.0


From 547df0f52fc380e3e1933e928ba79184272bc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 35/74] fix: a whole list merged in a state replaces the values
 before it

---
 .../state/detail/state_flatten_visitor.hpp    | 72 +++++++++++++++++--
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index c90b59f..cfd74bc 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -244,6 +244,17 @@ struct state_flatten_visitor_merger
   State_T& state;
   ExistingIt existing_it;
 
+  // The list set by a message without index, if it sets one
+  template <typename Message_T>
+  static auto whole_list(Message_T& m)
+  {
+    using list_type = decltype(
+        m.message_value.template target<std::vector<ossia::value>>());
+    return m.dest.index.empty()
+               ? m.message_value.template target<std::vector<ossia::value>>()
+               : list_type{};
+  }
+
   //// Const reference overloads
   //// Message incoming
   void operator()(message& existing, const message& incoming)
@@ -273,8 +284,8 @@ struct state_flatten_visitor_merger
       if (MergeSingleValues)
       {
         // Replace existing values
-        value_merger<true>::merge_value(
-            existing.message_value, incoming.message_value);
+        if (incoming.message_value.valid())
+          existing.message_value = incoming.message_value;
       }
       else
       {
@@ -282,6 +293,17 @@ struct state_flatten_visitor_merger
         state.add(incoming);
       }
     }
+    else if (auto list = whole_list(existing))
+    {
+      // A part of the list set by the existing message
+      value_merger<true>::insert_in_list(
+          *list, incoming.message_value, incoming.dest.index);
+    }
+    else if (whole_list(incoming))
+    {
+      // The whole list is replaced
+      existing = incoming;
+    }
     else
     {
       piecewise_message pw{incoming.dest.value, {}, incoming.dest.unit};
@@ -315,7 +337,13 @@ struct state_flatten_visitor_merger
 
   void operator()(piecewise_message& existing, const message& incoming)
   {
-    if (incoming.dest.index.empty())
+    if (whole_list(incoming))
+    {
+      // The whole list is replaced
+      state.remove(existing_it);
+      state.add(incoming);
+    }
+    else if (incoming.dest.index.empty())
     {
       // add it at [0]
       value_merger<true>::set_first_value(
@@ -380,6 +408,13 @@ struct state_flatten_visitor_merger
   //// Piecewise Message incoming
   void operator()(message& existing, const piecewise_message& incoming)
   {
+    if (auto list = whole_list(existing))
+    {
+      // A part of the list set by the existing message
+      value_merger<true>::merge_list(*list, incoming.message_value);
+      return;
+    }
+
     piecewise_message other = incoming;
     // Merge the message in the piecewise_message and replace it
     // If the message refers to an index in the piecewise_message we merge it
@@ -462,14 +497,26 @@ struct state_flatten_visitor_merger
       // Add the new message to the state
       if (MergeSingleValues)
       {
-        value_merger<true>::merge_value(
-            existing.message_value, std::move(incoming.message_value));
+        // Replace existing values
+        if (incoming.message_value.valid())
+          existing.message_value = std::move(incoming.message_value);
       }
       else
       {
         state.add(std::move(incoming));
       }
     }
+    else if (auto list = whole_list(existing))
+    {
+      // A part of the list set by the existing message
+      value_merger<true>::insert_in_list(
+          *list, std::move(incoming.message_value), incoming.dest.index);
+    }
+    else if (whole_list(incoming))
+    {
+      // The whole list is replaced
+      existing = std::move(incoming);
+    }
     else
     {
       piecewise_message pw{incoming.dest.value, {}, incoming.dest.unit};
@@ -505,7 +552,13 @@ struct state_flatten_visitor_merger
   }
   void operator()(piecewise_message& existing, message&& incoming)
   {
-    if (incoming.dest.index.empty())
+    if (whole_list(incoming))
+    {
+      // The whole list is replaced
+      state.remove(existing_it);
+      state.add(std::move(incoming));
+    }
+    else if (incoming.dest.index.empty())
     {
       // add it at [0]
       value_merger<true>::set_first_value(
@@ -523,6 +576,13 @@ struct state_flatten_visitor_merger
   //// Piecewise Message incoming
   void operator()(message& existing, piecewise_message&& incoming)
   {
+    if (auto list = whole_list(existing))
+    {
+      // A part of the list set by the existing message
+      value_merger<true>::merge_list(*list, incoming.message_value);
+      return;
+    }
+
     piecewise_message other = incoming;
     // Merge the message in the piecewise_message and replace it
     // If the message refers to an index in the piecewise_message we merge it
-- 
2.43.0


From 4d72ee6f7537c252363805a524bde92e41d4690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 36/74] fix: merging components past the end of a vector does
 not throw

---
 .../state/detail/state_flatten_visitor.hpp    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index cfd74bc..9299fa1 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -148,8 +148,10 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        if (existing_index[0] < (int64_t)N)
+          mess.used_values.set(existing_index[0]);
+        if (i < (int64_t)N)
+          mess.used_values.set(i);
         return mess;
       }
       else
@@ -188,8 +190,10 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        if (existing_index[0] < (int64_t)N)
+          mess.used_values.set(existing_index[0]);
+        if (i < (int64_t)N)
+          mess.used_values.set(i);
         return mess;
       }
       else
@@ -214,7 +218,7 @@ struct vec_merger
     else
     {
       auto i = incoming_index[0];
-      if (i < (int64_t)N)
+      if (i < (int64_t)N && i < (int64_t)incoming.size())
       {
         value_merger<true>::write_float(incoming[i], orig[i]);
       }
@@ -226,8 +230,10 @@ struct vec_merger
         // for instance
         piecewise_vec_message<N> mess{
             existing_dest.value, orig, incoming_dest.unit, {}};
-        mess.used_values.set(existing_index[0]);
-        mess.used_values.set(i);
+        if (existing_index[0] < (int64_t)N)
+          mess.used_values.set(existing_index[0]);
+        if (i < (int64_t)N)
+          mess.used_values.set(i);
         return mess;
       }
       else
-- 
2.43.0


From 966bb7592d9b4ed5ca233714331e8ea50c5922f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 37/74] fix: a state with a partial vector can be flattened in
 a state with a message on it

---
 .../state/detail/state_flatten_visitor.hpp    | 43 +++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index 9299fa1..21c8fe0 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -454,6 +454,41 @@ struct state_flatten_visitor_merger
   }
 
   //// Piecewise Vec Message incoming
+  template <std::size_t N>
+  void
+  operator()(message& existing, const piecewise_vec_message<N>& incoming)
+  {
+    const auto& index = existing.dest.index;
+    auto vec = existing.message_value.template target<std::array<float, N>>();
+
+    if (index.empty() && vec)
+    {
+      // The existing message sets the whole vector
+      for (std::size_t i = 0; i < N; i++)
+      {
+        if (incoming.used_values.test(i))
+          (*vec)[i] = incoming.message_value[i];
+      }
+    }
+    else
+    {
+      // The existing message sets at most one component
+      auto other = incoming;
+      if (!index.empty() && index[0] < (int64_t)N
+          && !other.used_values.test(index[0]))
+      {
+        auto flt = existing.message_value.template target<float>();
+        if (vec || flt)
+        {
+          other.message_value[index[0]] = vec ? (*vec)[index[0]] : *flt;
+          other.used_values.set(index[0]);
+        }
+      }
+      state.remove(existing_it);
+      state.add(other);
+    }
+  }
+
   template <std::size_t N>
   void operator()(
       piecewise_vec_message<N>& existing,
@@ -632,14 +667,6 @@ struct state_flatten_visitor_merger
         "impossible case (state <- *");
   }
 
-  template <std::size_t M>
-  void operator()(message& existing, const piecewise_vec_message<M>& incoming)
-  {
-    throw std::runtime_error(
-        "state_flatten_visitor_merger: "
-        "impossible case (message <- const piecewise_vec_message&");
-  }
-
   template <std::size_t M>
   void operator()(
       piecewise_message& existing, const piecewise_vec_message<M>& incoming)
-- 
2.43.0


From c143113a295a68133bf323739bf33898cac8ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 38/74] fix: launching a piecewise message keeps its values

---
 src/ossia/editor/state/message.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/state/message.cpp b/src/ossia/editor/state/message.cpp
index a627b27..9ed3d4e 100644
--- a/src/ossia/editor/state/message.cpp
+++ b/src/ossia/editor/state/message.cpp
@@ -87,7 +87,10 @@ void piecewise_message::launch()
   }
   else
   {
-    address.get().push_value(std::move(message_value));
+    // Create a list and put the existing value at [0]
+    std::vector<ossia::value> t{std::move(cur)};
+    value_merger<true>::merge_list(t, message_value);
+    address.get().push_value(std::move(t));
   }
 }
 
-- 
2.43.0


From 727db16000c0100c88f14306a44fdaaca8a22aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 39/74] fix: a message is merged with the last one on its
 address

---
 .../state/detail/state_flatten_visitor.hpp      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index 21c8fe0..3318a4b 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -729,12 +729,25 @@ struct state_flatten_visitor
   }
 
 private:
+  // The last one: what is merged comes after all the elements of the state
+  template <typename Fun>
+  static auto find_last(ossia::state& st, Fun fun)
+  {
+    auto it = st.end();
+    while (it != st.begin())
+    {
+      if (fun(*--it))
+        return it;
+    }
+    return st.end();
+  }
+
   template <typename T>
   static auto find_same_param(ossia::state& st, const T& incoming)
   {
     if constexpr (AssumeSameAddresses)
     {
-      return find_if(st, [&](const state_element& e) {
+      return find_last(st, [&](const state_element& e) {
         const auto tgt = e.target();
         switch (e.which())
         {
@@ -771,7 +784,7 @@ private:
     }
     else
     {
-      return find_if(st, [&](const state_element& e) {
+      return find_last(st, [&](const state_element& e) {
         const auto address = param_ptr(incoming);
         const auto tgt = e.target();
         switch (e.which())
-- 
2.43.0


From 9b9a3e5448249f0a154a67eb3706b4d3b5a54f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 40/74] fix: a component past the end of a vector does not
 replace another one

---
 src/ossia/editor/state/detail/state_flatten_visitor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/state/detail/state_flatten_visitor.hpp b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
index 3318a4b..075ef7d 100644
--- a/src/ossia/editor/state/detail/state_flatten_visitor.hpp
+++ b/src/ossia/editor/state/detail/state_flatten_visitor.hpp
@@ -116,8 +116,12 @@ struct vec_merger
     auto& existing_index = existing_dest.index;
     auto& incoming_index = incoming_dest.index;
     if (!existing_index.empty() && !incoming_index.empty()
-        && existing_index != incoming_index && incoming_index[0] < (int64_t)N)
+        && existing_index != incoming_index)
     {
+      // Nothing to set past the end
+      if (incoming_index[0] >= (int64_t)N)
+        return {};
+
       return make_piecewise_from_floats<N>(orig, incoming[incoming_index[0]]);
     }
 
-- 
2.43.0


From 8dc4611253915a229b79c52d1b1887876b8e1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 41/74] fix: OSC messages went to (and kept) listened
 parameters by the address they had before a rename

The listened parameters are looked up by address: after a rename, a message to
the old address still changed the renamed parameter, and removing it left a
dangling pointer behind.
---
 src/ossia/network/base/listening.hpp          | 21 +++++++++++++++++++
 .../osc/detail/osc_protocol_common.hpp        |  2 +-
 src/ossia/network/osc/detail/osc_receive.hpp  |  3 ++-
 src/ossia/network/osc/osc.cpp                 |  2 +-
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/base/listening.hpp b/src/ossia/network/base/listening.hpp
index 547117e..165b9ba 100644
--- a/src/ossia/network/base/listening.hpp
+++ b/src/ossia/network/base/listening.hpp
@@ -77,6 +77,27 @@ public:
     m_map.erase(m);
   }
 
+  //! Removes a value, even if it was inserted with another key than the
+  //! current one (e.g. when its node was renamed in-between).
+  void erase(const key_type& m, const mapped_type& v)
+  {
+    lock_t lock(m_mutex);
+    auto it = m_map.find(m);
+    if (it != m_map.end() && it->second == v)
+    {
+      m_map.erase(it);
+      return;
+    }
+
+    for (it = m_map.begin(); it != m_map.end();)
+    {
+      if (it->second == v)
+        it = m_map.erase(it);
+      else
+        ++it;
+    }
+  }
+
 private:
   mutable mutex_t m_mutex;
   map_type m_map;
diff --git a/src/ossia/network/osc/detail/osc_protocol_common.hpp b/src/ossia/network/osc/detail/osc_protocol_common.hpp
index 9cda05e..2702734 100644
--- a/src/ossia/network/osc/detail/osc_protocol_common.hpp
+++ b/src/ossia/network/osc/detail/osc_protocol_common.hpp
@@ -79,7 +79,7 @@ struct osc_protocol_common
       self.m_listening.insert(
           std::make_pair(address.get_node().osc_address(), &address));
     else
-      self.m_listening.erase(address.get_node().osc_address());
+      self.m_listening.erase(address.get_node().osc_address(), &address);
 
     return true;
   }
diff --git a/src/ossia/network/osc/detail/osc_receive.hpp b/src/ossia/network/osc/detail/osc_receive.hpp
index 7cbed04..8859370 100644
--- a/src/ossia/network/osc/detail/osc_receive.hpp
+++ b/src/ossia/network/osc/detail/osc_receive.hpp
@@ -83,7 +83,8 @@ void on_input_message(
 {
   auto addr = listening.find(addr_txt);
 
-  if (addr && *addr)
+  // The node may have been renamed since it is listened to
+  if (addr && *addr && (*addr)->get_node().osc_address() == addr_txt)
   {
     f.on_listened_value(**addr, dev, logger);
   }
diff --git a/src/ossia/network/osc/osc.cpp b/src/ossia/network/osc/osc.cpp
index aafbd29..2b64bc5 100644
--- a/src/ossia/network/osc/osc.cpp
+++ b/src/ossia/network/osc/osc.cpp
@@ -213,7 +213,7 @@ bool osc_protocol::observe(ossia::net::parameter_base& address, bool enable)
     m_listening.insert(
         std::make_pair(address.get_node().osc_address(), &address));
   else
-    m_listening.erase(address.get_node().osc_address());
+    m_listening.erase(address.get_node().osc_address(), &address);
 
   return true;
 }
-- 
2.43.0


From 06d1fa7b2b179d7ed47487ded42cca02fa44ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:05 +0000
Subject: [PATCH 42/74] fix: OSC blobs were written without their size, and
 never received

A string parameter with a blob type was sent with the string encoding under the
'b' tag (no size, so that the packet was malformed), and blob arguments were
ignored by string parameters.
---
 src/ossia/network/osc/detail/osc.hpp                   |  2 ++
 src/ossia/network/osc/detail/osc_common_policy.hpp     | 10 ++++++++--
 .../network/osc/detail/osc_value_write_visitor.hpp     |  4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc.hpp b/src/ossia/network/osc/detail/osc.hpp
index 52487c3..c8c3284 100644
--- a/src/ossia/network/osc/detail/osc.hpp
+++ b/src/ossia/network/osc/detail/osc.hpp
@@ -350,6 +350,8 @@ struct osc_inbound_visitor
         return std::string{cur_it->AsStringUnchecked()};
       case oscpack::SYMBOL_TYPE_TAG:
         return std::string{cur_it->AsSymbolUnchecked()};
+      case oscpack::BLOB_TYPE_TAG:
+        return osc_utilities::get_blob(cur_it);
       default:
         return str;
     }
diff --git a/src/ossia/network/osc/detail/osc_common_policy.hpp b/src/ossia/network/osc/detail/osc_common_policy.hpp
index b8c24ce..dad951d 100644
--- a/src/ossia/network/osc/detail/osc_common_policy.hpp
+++ b/src/ossia/network/osc/detail/osc_common_policy.hpp
@@ -6,6 +6,8 @@
 
 #include <boost/endian/conversion.hpp>
 
+#include <algorithm>
+
 namespace ossia::net
 {
 // Handling for types compatible with all OSC version
@@ -103,8 +105,12 @@ struct osc_common_outbound_static_policy
     buffer[2] = '\0';
     buffer[3] = '\0';
 
-    std::size_t written = write_string(std::string_view((const char *)v.data, v.size), buffer + 4);
-    return 4 + written;
+    boost::endian::endian_store<int32_t, 4, boost::endian::order::big>((unsigned char*) buffer + 4, v.size);
+
+    const std::size_t padded = oscpack::RoundUp4(v.size);
+    std::copy_n((const char*)v.data, v.size, buffer + 8);
+    std::fill_n(buffer + 8 + v.size, padded - v.size, '\0');
+    return 8 + padded;
   }
 
   std::size_t operator()(char* buffer, vec2f v) const noexcept
diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 8947d96..9f29af9 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -50,7 +50,7 @@ struct osc_value_send_visitor
 
   void operator()(const std::string& v) const noexcept try
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     if(sz < 16384) {
       char* buffer = (char*) alloca(sz);
       std::size_t i = write_string(address_pattern, buffer);
@@ -152,7 +152,7 @@ struct osc_value_write_visitor
 
   void operator()(const std::string& v) const noexcept
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     result.resize(sz);
     std::size_t i = write_string(address_pattern, result.data());
 
-- 
2.43.0


From bcbd920205a1b0bea6c7aec508437184c4b7f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:14 +0000
Subject: [PATCH 43/74] fix: OSC lists between 32 and 64 kB were silently lost

The buffer grew from 32799 bytes past the maximal size of a message, at which
point the loop was left without sending anything.
---
 .../network/osc/detail/osc_value_write_visitor.hpp   | 12 ++++++++----
 src/ossia/network/osc/detail/sender.hpp              |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 9f29af9..8227e15 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -90,7 +90,7 @@ struct osc_value_send_visitor
   {
     auto& pool = buffer_pool::instance();
     auto buf = pool.acquire();
-    while (buf.size() < max_osc_message_size)
+    while (buf.size() <= max_osc_message_size)
     {
       try
       {
@@ -106,8 +106,10 @@ struct osc_value_send_visitor
       catch(...)
       {
         auto n = buf.size();
+        if (n >= max_osc_message_size)
+          break;
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(std::min<std::size_t>(n * 2 + 1, max_osc_message_size));
       }
     }
 
@@ -167,7 +169,7 @@ struct osc_value_write_visitor
   void operator()(const std::vector<ossia::value>& v) const noexcept
   {
     // OPTIMIZEME
-    while (result.size() < max_osc_message_size)
+    while (result.size() <= max_osc_message_size)
     {
       try
       {
@@ -183,8 +185,10 @@ struct osc_value_write_visitor
       catch(...)
       {
         auto n = result.size();
+        if (n >= max_osc_message_size)
+          break;
         result.clear();
-        result.resize(n * 2 + 1);
+        result.resize(std::min<std::size_t>(n * 2 + 1, max_osc_message_size));
       }
     }
   }
diff --git a/src/ossia/network/osc/detail/sender.hpp b/src/ossia/network/osc/detail/sender.hpp
index e146a92..5155de6 100644
--- a/src/ossia/network/osc/detail/sender.hpp
+++ b/src/ossia/network/osc/detail/sender.hpp
@@ -91,7 +91,7 @@ private:
   void send_base(Args&&... args)
   {
     auto buf = m_pool.acquire();
-    while(buf.size() < ossia::net::max_osc_message_size) {
+    while(buf.size() <= ossia::net::max_osc_message_size) {
       try {
         oscpack::OutboundPacketStream p{buf.data(), buf.size()};
         oscpack::osc_message_generator<ossia::net::osc_1_0_outbound_stream_visitor> generate_message{p};
@@ -100,8 +100,10 @@ private:
         break;
       } catch(...) {
         auto n = buf.size();
+        if (n >= ossia::net::max_osc_message_size)
+          break;
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(std::min<std::size_t>(n * 2 + 1, ossia::net::max_osc_message_size));
       }
     }
 
-- 
2.43.0


From bce631dbdc4c88d3b7cdb698c96d771057fbdc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 44/74] fix: a protocol exposed late was not told of the
 listeners of the root parameter

---
 src/ossia/network/local/local.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/local/local.cpp b/src/ossia/network/local/local.cpp
index c03ebf1..a981c77 100644
--- a/src/ossia/network/local/local.cpp
+++ b/src/ossia/network/local/local.cpp
@@ -10,15 +10,16 @@ namespace ossia::net
 {
 static void observe_rec(protocol_base& proto, ossia::net::node_base& n)
 {
-  for (auto& cld : n.children())
+  if (auto addr = n.get_parameter())
   {
-    if (auto addr = cld->get_parameter())
+    if (!addr->callbacks_empty())
     {
-      if (!addr->callbacks_empty())
-      {
-        proto.observe_quietly(*addr, true);
-      }
+      proto.observe_quietly(*addr, true);
     }
+  }
+
+  for (auto& cld : n.children())
+  {
     observe_rec(proto, *cld);
   }
 }
-- 
2.43.0


From 78a042cb7cb4bbd901fa1a328be10b8215c664d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:03 +0000
Subject: [PATCH 45/74] fix: clearing a multiplex protocol kept the protocols
 that wait for the device

---
 src/ossia/network/local/local.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/network/local/local.cpp b/src/ossia/network/local/local.cpp
index a981c77..7633cf7 100644
--- a/src/ossia/network/local/local.cpp
+++ b/src/ossia/network/local/local.cpp
@@ -135,6 +135,7 @@ void multiplex_protocol::stop_expose_to(const protocol_base& p)
 
 void ossia::net::multiplex_protocol::clear()
 {
+  m_protocols_to_register.clear();
   m_protocols.clear();
 }
 }
-- 
2.43.0


From 2aaddadc6de94da049402bcc18ac086f02348ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 46/74] fix: changing the duration of a rate limiter had no
 effect

It was read once, when its thread started.
---
 src/ossia/network/rate_limiting_protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index d8f884a..caf60ba 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -12,11 +12,11 @@ struct rate_limiter
   void operator()() const noexcept {
     using namespace std::literals;
     using clock = rate_limiting_protocol::clock;
-    const auto duration = self.m_duration.load();
-    thread_local auto time_to_sleep = duration;
+    thread_local auto time_to_sleep = self.m_duration.load();
     while(self.m_running)
     {
       try {
+        const auto duration = self.m_duration.load();
         auto prev_time = clock::now();
         if(time_to_sleep > 1ms)
           std::this_thread::sleep_for(time_to_sleep);
-- 
2.43.0


From e7b637b7b5530037bd843301481ff42cb4eae69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 47/74] fix: operations that the rate limiter did not pass to
 its protocol

---
 src/ossia/network/rate_limiting_protocol.cpp | 47 ++++++++++++++++++++
 src/ossia/network/rate_limiting_protocol.hpp | 12 +++++
 2 files changed, 59 insertions(+)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index caf60ba..110a9ba 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -135,11 +135,58 @@ bool rate_limiting_protocol::observe(
   return m_protocol->observe(address, enable);
 }
 
+bool rate_limiting_protocol::observe_quietly(
+    ossia::net::parameter_base& address, bool enable)
+{
+  return m_protocol->observe_quietly(address, enable);
+}
+
+bool rate_limiting_protocol::echo_incoming_message(
+    const message_origin_identifier& id, const parameter_base& address, const ossia::value& v)
+{
+  return m_protocol->echo_incoming_message(id, address, v);
+}
+
 bool rate_limiting_protocol::update(ossia::net::node_base& node)
 {
   return m_protocol->update(node);
 }
 
+std::future<void> rate_limiting_protocol::pull_async(ossia::net::parameter_base& address)
+{
+  return m_protocol->pull_async(address);
+}
+
+void rate_limiting_protocol::request(ossia::net::parameter_base& address)
+{
+  m_protocol->request(address);
+}
+
+std::future<void> rate_limiting_protocol::update_async(ossia::net::node_base& node)
+{
+  return m_protocol->update_async(node);
+}
+
+bool rate_limiting_protocol::connected() const noexcept
+{
+  return m_protocol->connected();
+}
+
+void rate_limiting_protocol::connect()
+{
+  m_protocol->connect();
+}
+
+void rate_limiting_protocol::start_execution()
+{
+  m_protocol->start_execution();
+}
+
+void rate_limiting_protocol::stop_execution()
+{
+  m_protocol->stop_execution();
+}
+
 void rate_limiting_protocol::set_logger(const network_logger& l)
 {
   m_protocol->set_logger(l);
diff --git a/src/ossia/network/rate_limiting_protocol.hpp b/src/ossia/network/rate_limiting_protocol.hpp
index aebfc9a..952b035 100644
--- a/src/ossia/network/rate_limiting_protocol.hpp
+++ b/src/ossia/network/rate_limiting_protocol.hpp
@@ -28,8 +28,20 @@ private:
   bool push(const ossia::net::parameter_base& addr, const ossia::value& v) override;
   bool push_raw(const full_parameter_data&) override;
   bool observe(ossia::net::parameter_base&, bool) override;
+  bool observe_quietly(ossia::net::parameter_base&, bool) override;
+  bool echo_incoming_message(
+      const message_origin_identifier&, const parameter_base&, const ossia::value& v) override;
   bool update(ossia::net::node_base& node_base) override;
 
+  std::future<void> pull_async(ossia::net::parameter_base&) override;
+  void request(ossia::net::parameter_base&) override;
+  std::future<void> update_async(ossia::net::node_base& node_base) override;
+
+  bool connected() const noexcept override;
+  void connect() override;
+  void start_execution() override;
+  void stop_execution() override;
+
   void set_logger(const network_logger& l) override;
   const network_logger& get_logger() const noexcept override;
 
-- 
2.43.0


From e6467865ce3d1efeefe10b3bcff524abdeffae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:12 +0000
Subject: [PATCH 48/74] fix: the rate limiter pushed values of parameters that
 were removed

---
 src/ossia/network/rate_limiting_protocol.cpp | 48 +++++++++++---------
 src/ossia/network/rate_limiting_protocol.hpp |  5 ++
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index 110a9ba..4b82ccc 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -21,9 +21,9 @@ struct rate_limiter
         if(time_to_sleep > 1ms)
           std::this_thread::sleep_for(time_to_sleep);
 
-        // TODO find safe way to handle if a parameter is removed
         // TODO instead we should do the value filtering in the parameter ...
         // but still have to handle cases that can be optimized, such as midi
+        std::unique_lock thread_lock{self.m_threadMutex};
         {
           std::lock_guard lock{self.m_msgMutex};
           std::swap(self.m_buffer, self.m_userMessages);
@@ -38,34 +38,21 @@ struct rate_limiter
             msg.second.first = ossia::value{};
           }
         }
+        thread_lock.unlock();
 
-        // Push the actual messages
+        // Push the actual messages. A parameter cannot be removed while its
+        // value is being pushed; see parameter_removed.
         for(auto& v : self.m_threadMessages.container)
         {
-          auto val = v.second.first;
+          std::lock_guard thread_lock{self.m_threadMutex};
+          auto val = std::move(v.second.first);
+          v.second.first = ossia::value{};
           if(val.valid())
           {
-            self.m_protocol->push(*v.first, v.second.first);
+            self.m_protocol->push(*v.first, val);
           }
         }
 
-        // Clear both containers (while keeping memory allocated for sent messages
-        // so that it stays fast)
-        for(auto& v : self.m_buffer.container)
-        {
-          if(v.second.first.valid())
-          {
-            v.second.first = ossia::value{};
-          }
-        }
-
-        for(auto& v : self.m_threadMessages.container)
-        {
-          if(v.second.first.valid())
-          {
-            v.second.first = ossia::value{};
-          }
-        }
         auto new_time = clock::now();
         auto observed_duration = std::chrono::duration_cast<std::chrono::milliseconds>(new_time - prev_time);
         if(observed_duration > duration)
@@ -204,8 +191,27 @@ void rate_limiting_protocol::stop()
 
 void rate_limiting_protocol::set_device(device_base& dev)
 {
+  if(m_device)
+    m_device->on_parameter_removing.disconnect<&rate_limiting_protocol::parameter_removed>(*this);
+
   m_device = &dev;
+  m_device->on_parameter_removing.connect<&rate_limiting_protocol::parameter_removed>(*this);
   m_protocol->set_device(dev);
 }
 
+void rate_limiting_protocol::parameter_removed(const ossia::net::parameter_base& b)
+{
+  // Waits for the end of the push if the thread is doing one
+  std::lock_guard thread_lock{m_threadMutex};
+  std::lock_guard lock{m_msgMutex};
+
+  // The thread may be going through the containers: their elements must stay
+  for(auto map : {&m_userMessages, &m_buffer, &m_threadMessages})
+  {
+    auto it = map->find(&b);
+    if(it != map->end())
+      it->second.first = ossia::value{};
+  }
+}
+
 }
diff --git a/src/ossia/network/rate_limiting_protocol.hpp b/src/ossia/network/rate_limiting_protocol.hpp
index 952b035..12eb0b4 100644
--- a/src/ossia/network/rate_limiting_protocol.hpp
+++ b/src/ossia/network/rate_limiting_protocol.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <ossia/network/base/device.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/base/parameter_data.hpp>
 #include <ossia/network/base/message_queue.hpp>
@@ -14,6 +15,7 @@ namespace ossia::net
 struct rate_limiter;
 class OSSIA_EXPORT rate_limiting_protocol final
     : public ossia::net::protocol_base
+    , public Nano::Observer
 {
 public:
   using clock = std::chrono::high_resolution_clock;
@@ -71,6 +73,9 @@ private:
   map_t m_buffer;
   map_t m_threadMessages;
   std::mutex m_msgMutex;
+
+  // Held by the thread when it uses what it took out of m_userMessages
+  std::recursive_mutex m_threadMutex;
 };
 
 template<typename Protocol, typename... Args>
-- 
2.43.0


From edfc76516f6c3983bbe2396dfd6a063c94478712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 49/74] fix: JSON presets with lists that start with a decimal
 number, vectors with a null component and strings with a null character

---
 src/ossia/preset/preset.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index c7c7f30..bba3ca6 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -434,7 +434,7 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       }
       break;
     case rapidjson::kStringType:
-      val = std::string(value.GetString());
+      val = get_string(value);
       break;
     case rapidjson::kArrayType:
     {
@@ -451,21 +451,21 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       switch (N)
       {
         case 2:
-          if (value[0].IsDouble() && value[1].GetDouble())
+          if (value[0].IsDouble() && value[1].IsNumber())
             return ossia::make_vec(value[0].GetDouble(), value[1].GetDouble());
           else
             return handle_vec(value);
         case 3:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble())
+          if (value[0].IsDouble() && value[1].IsNumber()
+              && value[2].IsNumber())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble());
           else
             return handle_vec(value);
         case 4:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble() && value[3].GetDouble())
+          if (value[0].IsDouble() && value[1].IsNumber()
+              && value[2].IsNumber() && value[3].IsNumber())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble(), value[3].GetDouble());
-- 
2.43.0


From 9979e71114c8beb9228014f62fb9142e58bf0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 50/74] fix: writing a preset in which a parameter has children
 to JSON

---
 src/ossia/preset/preset.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index bba3ca6..7ebbb39 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -692,6 +692,20 @@ void insert_array(
   }
 }
 
+// A node which has both a value and children appears twice: once with its
+// value and once with its children
+static rapidjson::Value*
+find_member(rapidjson::Value& recipient, const std::string& key, bool object)
+{
+  for (auto& member : recipient.GetObject())
+  {
+    if (get_string_view(member.name) == key
+        && member.value.IsObject() == object)
+      return &member.value;
+  }
+  return nullptr;
+}
+
 template <typename Alloc>
 void insert(
     rapidjson::Value& recipient, const std::vector<std::string>& keys,
@@ -736,28 +750,30 @@ void insert(
       if (keys.size() == 1)
       {
         rapidjson::Value v = ossia_to_json_value(val, alloc);
-        if (!recipient.HasMember(currentkey))
+        if (auto member = find_member(recipient, currentkey, false))
         {
-          rapidjson::Value name(rapidjson::kStringType);
-          name.SetString(currentkey, alloc);
-          recipient.AddMember(name, v, alloc);
+          member->Swap(v);
         }
         else
         {
-          recipient[currentkey].Swap(v);
+          rapidjson::Value name(rapidjson::kStringType);
+          name.SetString(currentkey, alloc);
+          recipient.AddMember(name, v, alloc);
         }
       }
 
       else
       {
-        if (!recipient.HasMember(currentkey))
+        auto member = find_member(recipient, currentkey, true);
+        if (!member)
         {
           rapidjson::Value node(rapidjson::kObjectType);
           rapidjson::Value name(rapidjson::kStringType);
           name.SetString(currentkey, alloc);
           recipient.AddMember(name, node, alloc);
+          member = &(recipient.MemberEnd() - 1)->value;
         }
-        insert(recipient[currentkey], newkeys, val, alloc);
+        insert(*member, newkeys, val, alloc);
       }
     }
   }
-- 
2.43.0


From d4c0418d35c32e4203774be4cac386a52b1f2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:52 +0000
Subject: [PATCH 51/74] fix: presets with x.0 were applied to any node with a
 name as long as x, and crashed on nodes without parameter

---
 src/ossia/preset/preset.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 7ebbb39..16fb9f9 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1157,7 +1157,14 @@ void apply_preset_node(
     }
     else
     {
-      root.get_parameter()->push_value(val);
+      auto param = root.get_parameter();
+      if (!param && keeparch == ossia::presets::keep_arch_off)
+        param = root.create_parameter(val.get_type());
+      if (!param)
+        throw std::runtime_error(
+            "preset loading: can't change device architecture");
+
+      param->push_value(val);
     }
   }
   else
@@ -1167,6 +1174,7 @@ void apply_preset_node(
     keys.erase(keys.begin());
     bool child_exists = false;
 
+    ossia::net::node_base* found{};
     for (auto& child : root.children())
     {
       if (!child)
@@ -1179,26 +1187,30 @@ void apply_preset_node(
         const std::string childName = child->get_name();
         if (currentkey == childName)
         {
-          child_exists = true;
-          apply_preset_node(
-              *child, keys, val, keeparch, created_nodes, allow_nonterminal);
+          found = child.get();
+          break;
         }
         else
         {
           // Case of the 'bar.0' / 'bar'.
           const auto N = currentkey.size();
-          if ((childName.size() == (N - 2)) && currentkey[N - 2] == '.'
-              && currentkey[N - 1] == '0')
+          if ((childName.size() + 2 == N) && currentkey[N - 2] == '.'
+              && currentkey[N - 1] == '0' && currentkey.compare(0, N - 2, childName) == 0)
           {
-            currentkey.resize(currentkey.size() - 2);
-            child_exists = true;
-            apply_preset_node(
-                *child, keys, val, keeparch, created_nodes, allow_nonterminal);
+            // Unless there is also a 'bar.0'
+            found = child.get();
           }
         }
       }
     }
 
+    if (found)
+    {
+      child_exists = true;
+      apply_preset_node(
+          *found, keys, val, keeparch, created_nodes, allow_nonterminal);
+    }
+
     if (!child_exists)
     {
       if (keeparch == ossia::presets::keep_arch_on)
-- 
2.43.0


From dadeef07e78852c9b4068ec0e65e19def2d0089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 52/74] fix: text of values: strings starting with blanks or
 ending with a backslash, blank and quote characters, precision of decimals

---
 .../network/value/detail/value_parse_impl.hpp | 22 +++++++++++--------
 src/ossia/network/value/format_value.hpp      |  1 +
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/value/detail/value_parse_impl.hpp b/src/ossia/network/value/detail/value_parse_impl.hpp
index 8309351..47c2b62 100644
--- a/src/ossia/network/value/detail/value_parse_impl.hpp
+++ b/src/ossia/network/value/detail/value_parse_impl.hpp
@@ -50,20 +50,24 @@ struct EscapedChar : x3::symbols<const char>
 {
   EscapedChar()
   {
-    add("\\\"", '\"');
+    add("\\\"", '\"')("\\\\", '\\');
   }
 };
-using float_p = real_parser<float, x3::real_policies<float>>;
+// Parsed with double precision so that the nearest float is found
+using float_p = real_parser<double, x3::real_policies<double>>;
+const x3::rule<class float_, float> float_ = "float";
+const auto float__def = float_p();
+BOOST_SPIRIT_DEFINE(float_)
 
 const auto o_impulse__def
     = x3::lit("impulse")[([](auto&) { return ossia::impulse{}; })];
 const auto o_str__def
-    = "string: \"" >> (x3::lexeme[*(EscapedChar() | (char_ - '"'))]) >> '"';
-const auto o_vec2__def = "vec2f: [" >> float_p() >> "," >> float_p() >> "]";
+    = x3::lexeme["string: \"" >> *(EscapedChar() | (char_ - '"')) >> '"'];
+const auto o_vec2__def = "vec2f: [" >> float_ >> "," >> float_ >> "]";
 const auto o_vec3__def
-    = "vec3f: [" >> float_p() >> "," >> float_p() >> "," >> float_p() >> "]";
-const auto o_vec4__def = "vec4f: [" >> float_p() >> "," >> float_p() >> ","
-                         >> float_p() >> "," >> float_p() >> "]";
+    = "vec3f: [" >> float_ >> "," >> float_ >> "," >> float_ >> "]";
+const auto o_vec4__def = "vec4f: [" >> float_ >> "," >> float_ >> ","
+                         >> float_ >> "," >> float_ >> "]";
 const auto o_list__def = "list: [" >> *(value_ % x3::lit(",")) >> "]";
 
 BOOST_SPIRIT_DEFINE(o_impulse_)
@@ -73,8 +77,8 @@ BOOST_SPIRIT_DEFINE(o_vec3_)
 BOOST_SPIRIT_DEFINE(o_vec4_)
 BOOST_SPIRIT_DEFINE(o_list_)
 
-const auto value__def = ("float: " >> float_p())
-                        | ("char: '" >> (char_ - "'") >> "'")
+const auto value__def = ("float: " >> float_)
+                        | x3::lexeme["char: '" >> char_ >> "'"]
                         | ("int: " >> int_) | BoolParse_map{} | o_impulse_
                         | o_str_ | o_vec2_ | o_vec3_ | o_vec4_ | o_list_;
 
diff --git a/src/ossia/network/value/format_value.hpp b/src/ossia/network/value/format_value.hpp
index 648ee80..8a09ab5 100644
--- a/src/ossia/network/value/format_value.hpp
+++ b/src/ossia/network/value/format_value.hpp
@@ -32,6 +32,7 @@ struct value_prettyprint_visitor
   }
   auto operator()(std::string str) const
   {
+    boost::algorithm::replace_all(str, "\\", "\\\\");
     boost::algorithm::replace_all(str, "\"", "\\\"");
     return fmt::format_to(ctx.out(), "string: \"{}\"", str);
   }
-- 
2.43.0


From 502368f9c9522bd5f41f7cc62f28db354eac7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 53/74] fix: JSON presets turned lists of decimals and integers
 into vectors

---
 src/ossia/preset/preset.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 16fb9f9..c91221c 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -451,21 +451,21 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       switch (N)
       {
         case 2:
-          if (value[0].IsDouble() && value[1].IsNumber())
+          if (value[0].IsDouble() && value[1].IsDouble())
             return ossia::make_vec(value[0].GetDouble(), value[1].GetDouble());
           else
             return handle_vec(value);
         case 3:
-          if (value[0].IsDouble() && value[1].IsNumber()
-              && value[2].IsNumber())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble());
           else
             return handle_vec(value);
         case 4:
-          if (value[0].IsDouble() && value[1].IsNumber()
-              && value[2].IsNumber() && value[3].IsNumber())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble() && value[3].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble(), value[3].GetDouble());
-- 
2.43.0


From bd3d2174ee2d76ed183f6d53bbae6cd40a1d4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:26 +0000
Subject: [PATCH 54/74] fix: mirror the removal of OSCQuery attributes

---
 .../oscquery/detail/json_reader_detail.cpp    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9ca055f..41ded92 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -418,6 +418,16 @@ bool json_parser_impl::ReadValue(
 
 using map_setter_fun
     = void (*)(const rapidjson::Value&, ossia::net::node_base&);
+
+//! The metadata which a node may not have
+template <typename Attr>
+using is_unsettable = std::integral_constant<
+    bool,
+    !ossia::net::is_parameter_attribute<Attr>::value
+        && std::is_same<
+            decltype(Attr::getter(std::declval<ossia::net::node_base&>())),
+            std::optional<typename Attr::type>>::value>;
+
 template <typename Attr>
 static auto make_setter_pair()
 {
@@ -426,7 +436,15 @@ static auto make_setter_pair()
       [](const rapidjson::Value& val, ossia::net::node_base& node) {
         typename Attr::type res;
         if (json_parser_impl::ReadValue(val, res))
+        {
           Attr::setter(node, std::move(res));
+        }
+        else if constexpr (is_unsettable<Attr>::value)
+        {
+          // The attribute was removed on the other side
+          if (val.IsNull())
+            Attr::setter(node, std::nullopt);
+        }
       });
 }
 
@@ -438,7 +456,7 @@ auto make_setter_pair<ossia::net::domain_attribute>()
       metadata<Attr>::key(),
       [](const rapidjson::Value& val, ossia::net::node_base& node) {
         typename Attr::type res;
-        if (json_parser_impl::ReadValue(node, val, res))
+        if (json_parser_impl::ReadValue(node, val, res) || val.IsNull())
           Attr::setter(node, std::move(res));
       });
 }
-- 
2.43.0


From c98c86dd7a1df5a1c57e1324612795ba3329b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 55/74] fix: write valid OSCQuery JSON for generic domains

---
 src/ossia/network/oscquery/detail/domain_to_json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ossia/network/oscquery/detail/domain_to_json.hpp b/src/ossia/network/oscquery/detail/domain_to_json.hpp
index d0d2b8c..ca251b7 100644
--- a/src/ossia/network/oscquery/detail/domain_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/domain_to_json.hpp
@@ -224,6 +224,7 @@ struct domain_to_json
 
   void operator()(const ossia::domain_base<ossia::value>& dom)
   {
+    writer.Null();
     /* TODO this code is not correct
     if (dom.min)
     {
-- 
2.43.0


From 2b63e4735ce37dc721423361087479ac64ef4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:50 +0000
Subject: [PATCH 56/74] fix: read the accepted values of OSCQuery vector
 domains

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 41ded92..cc3c982 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -237,22 +237,21 @@ vecf_domain<N> parse_vecf(const rapidjson::Value& val)
     {
       auto min_it = elt.FindMember("MIN");
       auto max_it = elt.FindMember("MAX");
-      // auto values_it = elt.FindMember("VALS");
+      auto values_it = elt.FindMember("VALS");
 
       auto mem_end = elt.MemberEnd();
 
-      /* TODO values for vecf
       if (values_it != mem_end)
       {
         if (values_it->value.IsArray())
         {
           for (auto& val : values_it->value.GetArray())
           {
-            dom.values[i].insert(ReadValue(val));
+            if (val.IsNumber())
+              dom.values[i].insert((float)val.GetDouble());
           }
         }
       }
-      */
 
       if (min_it != mem_end)
       {
-- 
2.43.0


From 23fb80e1da5a57e27d4b775d75ddbb050c9b2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:49 +0000
Subject: [PATCH 57/74] fix: mirror the unit changes of OSCQuery parameters

---
 .../oscquery/detail/json_reader_detail.cpp    |  2 +
 .../oscquery/detail/json_writer_detail.cpp    | 45 +++++++++++++++++--
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index cc3c982..906c4f5 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -621,6 +621,8 @@ static void create_or_update_parameter_type(
     impl::ReadValue(unit_it->value, u);
     if (u)
       unit = std::move(u);
+    else if (unit_it->value.IsNull())
+      ossia::net::set_unit(node, u); // The unit was removed
   }
 
   if (auto ext_type_it = obj.FindMember(detail::attribute_extended_type());
diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.cpp b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
index 453fe37..87c0ed6 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
@@ -420,6 +420,45 @@ void json_writer::path_renamed_impl(
   wr.EndObject();
 }
 
+static void write_changed_attribute(
+    const detail::json_writer_impl& p, const net::node_base& n,
+    ossia::string_view key)
+{
+  if (key == detail::attribute_unit())
+  {
+    // Units are written like in the namespace so that they can be read back:
+    // depending on the unit, the key is not always the same.
+    if (auto unit = ossia::net::get_unit(n))
+    {
+      if (unit == ossia::rgba8_u{})
+      {
+        // Given by the OSC "r" type
+        write_json_key(p.writer, detail::attribute_typetag());
+        p.writeAttribute(n, detail::attribute_typetag());
+      }
+      else
+      {
+        ossia::apply_nonnull(
+            [&](const auto& d) {
+              if (d)
+                ossia::apply(detail::unit_writer{p}, d);
+            },
+            unit.v);
+      }
+    }
+    else
+    {
+      write_json_key(p.writer, key);
+      p.writer.Null();
+    }
+  }
+  else
+  {
+    write_json_key(p.writer, key);
+    p.writeAttribute(n, key);
+  }
+}
+
 void json_writer::attribute_changed_impl(
     detail::json_writer_impl& p, const net::node_base& n,
     ossia::string_view attr)
@@ -441,8 +480,7 @@ void json_writer::attribute_changed_impl(
     auto it = map.find(attr);
     if (it != map.end())
     {
-      write_json_key(wr, it.value());
-      p.writeAttribute(n, it.value());
+      write_changed_attribute(p, n, it.value());
 
       if(it.value() == detail::attribute_typetag())
       {
@@ -481,8 +519,7 @@ void json_writer::attributes_changed_impl(
       auto it = map.find(attr);
       if (it != map.end())
       {
-        write_json_key(wr, it.value());
-        p.writeAttribute(n, it.value());
+        write_changed_attribute(p, n, it.value());
       }
     }
     wr.EndObject();
-- 
2.43.0


From d0461316723b55f2510b42aa81b4ccafeca6f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:58 +0000
Subject: [PATCH 58/74] fix: keep the type of OSCQuery parameters when their
 extended type changes

---
 .../oscquery/detail/json_reader_detail.cpp    | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 906c4f5..a6c7d2a 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -626,7 +626,16 @@ static void create_or_update_parameter_type(
   }
 
   if (auto ext_type_it = obj.FindMember(detail::attribute_extended_type());
-      ext_type_it != obj.MemberEnd() && !ext_type_it->value.IsNull())
+      ext_type_it == obj.MemberEnd())
+  {
+    // Nothing to do
+  }
+  else if (ext_type_it->value.IsNull())
+  {
+    // The extended type was removed
+    ossia::net::set_extended_type(node, std::nullopt);
+  }
+  else
   {
     ossia::unit_t u;
     impl::ReadValue(ext_type_it->value, u);
@@ -677,9 +686,18 @@ static void create_or_update_parameter_type(
       }
       else if (ext_type)
       {
-        const auto t = detail::underlying_type(*ext_type, typetag);
-        if(t != addr->get_value_type())
-            addr->set_value_type(t);
+        // When only the extended type changes, or when it says nothing about
+        // the type, the type does not depend on it
+        if (ossia::underlying_type(*ext_type).empty())
+        {
+          setup_parameter(val_type, node);
+        }
+        else if (type_it != obj.MemberEnd())
+        {
+          const auto t = detail::underlying_type(*ext_type, typetag);
+          if(t != addr->get_value_type())
+              addr->set_value_type(t);
+        }
         ossia::net::set_extended_type(node, ext_type);
       }
       else if (val_type)
-- 
2.43.0


From 713cf058c69620c9ec9037e83ced95e23acb575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:00 +0000
Subject: [PATCH 59/74] fix: mirror the default values of OSCQuery parameters

---
 .../oscquery/detail/json_reader_detail.cpp    | 42 ++++++++++++++++++-
 .../oscquery/detail/json_writer_detail.cpp    | 13 +++---
 .../network/oscquery/detail/value_to_json.hpp | 21 ++++++++++
 3 files changed, 70 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index a6c7d2a..9f10be4 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -742,6 +742,42 @@ ossia::value parse_oscquery_value(
   return res;
 }
 
+//! The typetag describes the current value of the parameter:
+//! booleans and lists are read from the JSON instead.
+static ossia::value read_default_value(
+        ossia::net::node_base& node,
+        const rapidjson::Value& v,
+        std::string_view typetag,
+        bool& ok)
+{
+  switch (node.get_parameter()->get_value_type())
+  {
+    case ossia::val_type::BOOL:
+      ok = v.IsBool();
+      return ReadValue(v);
+    case ossia::val_type::LIST:
+      ok = v.IsArray();
+      return ReadValue(v);
+    default:
+      return parse_oscquery_value(node, v, typetag, ok);
+  }
+}
+
+//! Used when only the default value of a node is given
+static void
+update_default_value(const rapidjson::Value& val, ossia::net::node_base& node)
+{
+  if (auto typetag = get_osc_typetag(node))
+  {
+    bool ok = false;
+    auto res = read_default_value(node, val, *typetag, ok);
+    if (ok)
+      ossia::net::set_default_value(node, std::move(res));
+    else if (val.IsNull())
+      ossia::net::set_default_value(node, std::nullopt);
+  }
+}
+
 void json_parser_impl::readParameter(
     net::node_base& node, const rapidjson::Value& obj)
 {
@@ -836,7 +872,7 @@ void json_parser_impl::readParameter(
     if (default_value_it != obj.MemberEnd())
     {
       bool ok = false;
-      auto res = parse_oscquery_value(node, default_value_it->value, typetag, ok);
+      auto res = read_default_value(node, default_value_it->value, typetag, ok);
       if (ok)
       {
         if(value_it == obj.MemberEnd())
@@ -1285,6 +1321,10 @@ void json_parser::parse_attributes_changed(
             action.value()(it->value, *node);
           }
         }
+
+        auto default_it = dat.FindMember(detail::attribute_default_value());
+        if (default_it != memb_end)
+          detail::update_default_value(default_it->value, *node);
       }
     }
   }
diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.cpp b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
index 87c0ed6..db30207 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
@@ -172,12 +172,14 @@ struct attr_pair_writer<ossia::net::default_value_attribute>
   auto operator()()
   {
     return [](const json_writer_impl& self, const ossia::net::node_base& n) {
+      ossia::unit_t unit;
       if (auto p = n.get_parameter())
-        self.writeValue(
-            ossia::net::default_value_attribute::getter(n), p->get_unit());
+        unit = p->get_unit();
+
+      if (auto val = ossia::net::default_value_attribute::getter(n))
+        val->apply(default_value_to_json{{self.writer, unit}});
       else
-        self.writeValue(
-            ossia::net::default_value_attribute::getter(n), ossia::unit_t{});
+        self.writer.Null();
     };
   }
 };
@@ -295,7 +297,8 @@ struct node_attribute_writer
     if (ossia::net::valid(res))
     {
       writer.writeKey(metadata<Attr>::key());
-      writer.writeValue(res, p.get_unit());
+      const auto unit = p.get_unit();
+      res->apply(default_value_to_json{{writer.writer, unit}});
     }
   }
 };
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index b9d0171..bdeb669 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -87,6 +87,27 @@ struct value_to_json
   }
 };
 
+//! Nothing else gives the booleans of a default value:
+//! the typetag is the one of the current value.
+struct default_value_to_json : value_to_json
+{
+  using value_to_json::operator();
+  void operator()(bool v) const
+  {
+    writer.Bool(v);
+  }
+
+  void operator()(const std::vector<ossia::value>& vec) const
+  {
+    writer.StartArray();
+    for (const auto& sub : vec)
+    {
+      sub.apply(*this);
+    }
+    writer.EndArray();
+  }
+};
+
 static inline auto from_hex(char c)
 {
   // taken from
-- 
2.43.0


From 130743cb13c448a528b6da2322c50a347cd864a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:18 +0000
Subject: [PATCH 60/74] fix: OSCQuery answers to value requests go to the
 parameter they were asked for

---
 .../network/oscquery/oscquery_mirror.cpp      | 185 +++++++++++-------
 .../network/oscquery/oscquery_mirror.hpp      |   5 +-
 2 files changed, 114 insertions(+), 76 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_mirror.cpp b/src/ossia/network/oscquery/oscquery_mirror.cpp
index e61e2bf..5f6d057 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.cpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.cpp
@@ -37,6 +37,22 @@ struct http_answer
   }
 };
 
+//! The answer to a request for the value of a parameter
+struct http_value_answer
+{
+  oscquery_mirror_protocol& self;
+  std::shared_ptr<oscquery_mirror_protocol::get_ws_promise> promise;
+
+  template <typename T, typename S>
+  void operator()(T& req, const S& str)
+  {
+    if (self.on_valueReply(*promise, str))
+    {
+      req.close();
+    }
+  }
+};
+
 struct http_error
 {
   template <typename T>
@@ -47,6 +63,8 @@ struct http_error
 };
 
 using http_request = ossia::net::http_get_request<http_answer, http_error>;
+using http_value_request
+    = ossia::net::http_get_request<http_value_answer, http_error>;
 
 struct http_client_context
 {
@@ -176,6 +194,19 @@ void oscquery_mirror_protocol::http_send_message(
   hrq->resolve(m_httpHost, m_queryPort);
 }
 
+void oscquery_mirror_protocol::http_request_value(get_ws_promise p)
+{
+  auto text = p.address;
+  text += detail::query_value();
+
+  // The answer does not say which parameter it is about
+  auto promise = std::make_shared<get_ws_promise>(std::move(p));
+  auto hrq = std::make_shared<http_value_request>(
+      http_value_answer{*this, std::move(promise)}, http_error{},
+      m_http->context, m_httpHost, text);
+  hrq->resolve(m_httpHost, m_queryPort);
+}
+
 void oscquery_mirror_protocol::ws_send_message(const std::string& str)
 {
   if (m_hasWS)
@@ -222,7 +253,18 @@ bool oscquery_mirror_protocol::pull(net::parameter_base& address)
   auto t1 = std::chrono::high_resolution_clock::now();
 #endif
   auto fut = pull_async(address);
-  auto status = fut.wait_for(std::chrono::milliseconds(3000));
+  bool ok = fut.wait_for(std::chrono::milliseconds(3000))
+            == std::future_status::ready;
+  try
+  {
+    if (ok)
+      fut.get();
+  }
+  catch (const std::future_error&)
+  {
+    // The request failed
+    ok = false;
+  }
 
 #if defined(OSSIA_BENCHMARK)
   auto t2 = std::chrono::high_resolution_clock::now();
@@ -230,7 +272,7 @@ bool oscquery_mirror_protocol::pull(net::parameter_base& address)
       "Time taken: {}",
       std::chrono::duration_cast<std::chrono::microseconds>(t2 - t1).count());
 #endif
-  return status == std::future_status::ready;
+  return ok;
 }
 
 std::future<void>
@@ -238,24 +280,15 @@ oscquery_mirror_protocol::pull_async(net::parameter_base& address)
 {
   std::promise<void> promise;
   auto fut = promise.get_future();
-  auto text = address.get_node().osc_address();
-  m_getWSPromises.enqueue(get_ws_promise{std::move(promise), text});
-  /*
-  m_getOSCPromises.insert(
-        std::make_pair(
-          address.get_node().osc_address(),
-          get_promise{std::move(promise), &address}));
-  */
-  text += detail::query_value();
-  http_send_message(text);
+  http_request_value(
+      get_ws_promise{std::move(promise), address.get_node().osc_address()});
   return fut;
 }
 
 void oscquery_mirror_protocol::request(net::parameter_base& address)
 {
-  auto text = address.get_node().osc_address();
-  text += detail::query_value();
-  http_send_message(text);
+  http_request_value(get_ws_promise{
+      std::promise<void>{}, address.get_node().osc_address()});
 }
 
 bool oscquery_mirror_protocol::push(const net::parameter_base& addr, const ossia::value& v)
@@ -750,73 +783,31 @@ bool oscquery_mirror_protocol::on_WSMessage(
         }
         case message_type::Value:
         {
-          // TODO instead just put full path in reply ?
-          get_ws_promise p;
-          if (m_getWSPromises.try_dequeue(p))
-          {
-            auto node
-                = ossia::net::find_node(m_device->get_root_node(), p.address);
-
-            const rapidjson::Value* obj_value = data.get();
-            if(obj_value->IsObject())
-            {
-                if(auto it = obj_value->FindMember("VALUE");
-                        it != obj_value->MemberEnd())
-                {
-                    obj_value = &it->value;
-                }
-            }
-
-            if (node)
-            {
-              auto addr = node->get_parameter();
-              if (addr)
-              {
-                json_parser::parse_value(*addr, *obj_value);
-                m_device->on_message(*addr);
-              }
-              else
-              {
-                m_device->on_unhandled_message(
-                    p.address, detail::ReadValue(*obj_value));
-              }
-            }
-            else
-            {
-              m_device->on_unhandled_message(
-                  p.address, oscquery::detail::ReadValue(*obj_value));
-            }
-
-            p.promise.set_value();
-          }
-
-          else // if update from critical param
+          // Update from critical param
+          for (auto it = data->MemberBegin(), end = data->MemberEnd();
+               it != end; ++it)
           {
-            for (auto it = data->MemberBegin(), end = data->MemberEnd();
-                 it != end; ++it)
+            auto path = get_string_view(it->name);
+            if (!path.empty() && path[0] == '/')
             {
-              auto path = get_string_view(it->name);
-              if (!path.empty() && path[0] == '/')
+              auto node
+                  = ossia::net::find_node(m_device->get_root_node(), path);
+              if (node)
               {
-                auto node
-                    = ossia::net::find_node(m_device->get_root_node(), path);
-                if (node)
+                auto addr = node->get_parameter();
+                if (addr)
                 {
-                  auto addr = node->get_parameter();
-                  if (addr)
-                  {
-                    auto val = addr->value();
-                    json_parser::parse_value(*addr, it->value);
-                    // val.apply(detail::json_to_value_unchecked{it->value});
-                    m_device->on_message(*addr);
-                    continue;
-                  }
+                  auto val = addr->value();
+                  json_parser::parse_value(*addr, it->value);
+                  // val.apply(detail::json_to_value_unchecked{it->value});
+                  m_device->on_message(*addr);
+                  continue;
                 }
               }
-
-              m_device->on_unhandled_message(
-                  std::string(path), detail::ReadValue(it->value));
             }
+
+            m_device->on_unhandled_message(
+                std::string(path), detail::ReadValue(it->value));
           }
 
           break;
@@ -913,6 +904,50 @@ bool oscquery_mirror_protocol::on_WSMessage(
   return true;
 }
 
+bool oscquery_mirror_protocol::on_valueReply(
+    get_ws_promise& p, const std::string& message) try
+{
+  auto data = json_parser::parse(message);
+  if (data->HasParseError())
+    return false;
+
+  const rapidjson::Value* obj_value = data.get();
+  if (obj_value->IsObject())
+  {
+    if (auto it = obj_value->FindMember("VALUE");
+        it != obj_value->MemberEnd())
+    {
+      obj_value = &it->value;
+    }
+  }
+
+  auto node = ossia::net::find_node(m_device->get_root_node(), p.address);
+  auto addr = node ? node->get_parameter() : nullptr;
+  if (addr)
+  {
+    json_parser::parse_value(*addr, *obj_value);
+    m_device->on_message(*addr);
+  }
+  else
+  {
+    m_device->on_unhandled_message(
+        p.address, detail::ReadValue(*obj_value));
+  }
+
+  p.promise.set_value();
+
+  if (m_logger.inbound_logger)
+    m_logger.inbound_logger->info("HTTP In: {}", message);
+  return true;
+}
+catch (std::exception& e)
+{
+  if (m_logger.inbound_logger)
+    m_logger.inbound_logger->warn(
+        "Error while parsing: {} ==> {}", e.what(), message);
+  return false;
+}
+
 bool oscquery_mirror_protocol::on_BinaryWSMessage(
     oscquery_mirror_protocol::connection_handler hdl,
     const std::string& message)
diff --git a/src/ossia/network/oscquery/oscquery_mirror.hpp b/src/ossia/network/oscquery/oscquery_mirror.hpp
index adf1463..7672672 100644
--- a/src/ossia/network/oscquery/oscquery_mirror.hpp
+++ b/src/ossia/network/oscquery/oscquery_mirror.hpp
@@ -127,6 +127,7 @@ public:
   void connect() override;
 private:
   friend struct http_answer;
+  friend struct http_value_answer;
 
   void init();
   using connection_handler = std::weak_ptr<void>;
@@ -186,7 +187,9 @@ private:
   };
   using promises_map = locked_map<string_map<get_osc_promise>>;
 
-  ossia::spsc_queue<get_ws_promise> m_getWSPromises;
+  void http_request_value(get_ws_promise p);
+  bool on_valueReply(get_ws_promise& p, const std::string& message);
+
   ossia::spsc_queue<std::function<void()>> m_functionQueue;
   std::function<void()> m_commandCallback;
 
-- 
2.43.0


From 5670e15e23a2b50611a49f0fd9370e59389b759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:56 +0000
Subject: [PATCH 61/74] fix: answer OSCQuery value requests for booleans

---
 .../network/oscquery/detail/json_writer_detail.cpp | 14 ++++++++------
 .../network/oscquery/detail/value_to_json.hpp      |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/json_writer_detail.cpp b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
index db30207..68bc267 100644
--- a/src/ossia/network/oscquery/detail/json_writer_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_writer_detail.cpp
@@ -157,11 +157,13 @@ struct attr_pair_writer<ossia::net::value_attribute>
   auto operator()()
   {
     return [](const json_writer_impl& self, const ossia::net::node_base& n) {
+      ossia::unit_t unit;
       if (auto p = n.get_parameter())
-        self.writeValue(ossia::net::value_attribute::getter(n), p->get_unit());
-      else
-        self.writeValue(
-            ossia::net::value_attribute::getter(n), ossia::unit_t{});
+        unit = p->get_unit();
+
+      // There is no typetag along to tell the value of booleans
+      ossia::net::value_attribute::getter(n).apply(
+          explicit_value_to_json{{self.writer, unit}});
     };
   }
 };
@@ -177,7 +179,7 @@ struct attr_pair_writer<ossia::net::default_value_attribute>
         unit = p->get_unit();
 
       if (auto val = ossia::net::default_value_attribute::getter(n))
-        val->apply(default_value_to_json{{self.writer, unit}});
+        val->apply(explicit_value_to_json{{self.writer, unit}});
       else
         self.writer.Null();
     };
@@ -298,7 +300,7 @@ struct node_attribute_writer
     {
       writer.writeKey(metadata<Attr>::key());
       const auto unit = p.get_unit();
-      res->apply(default_value_to_json{{writer.writer, unit}});
+      res->apply(explicit_value_to_json{{writer.writer, unit}});
     }
   }
 };
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index bdeb669..7e7759b 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -87,9 +87,10 @@ struct value_to_json
   }
 };
 
-//! Nothing else gives the booleans of a default value:
-//! the typetag is the one of the current value.
-struct default_value_to_json : value_to_json
+//! Used when there is no typetag to tell the value of booleans:
+//! for the default values (it is the one of the current value) and when
+//! only the value is asked for.
+struct explicit_value_to_json : value_to_json
 {
   using value_to_json::operator();
   void operator()(bool v) const
-- 
2.43.0


From fb262f0565b51c614b4cce7298fa59f08cff3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:26 +0000
Subject: [PATCH 62/74] fix: OSCQuery mirrors keep following RGBA colors

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 3 ++-
 src/ossia/network/oscquery/detail/value_to_json.hpp      | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9f10be4..1e64f76 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -688,7 +688,8 @@ static void create_or_update_parameter_type(
       {
         // When only the extended type changes, or when it says nothing about
         // the type, the type does not depend on it
-        if (ossia::underlying_type(*ext_type).empty())
+        if (ossia::underlying_type(*ext_type).empty()
+            || val_type.target<ossia::unit_t>())
         {
           setup_parameter(val_type, node);
         }
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index 7e7759b..122b400 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -644,6 +644,12 @@ struct json_to_value_unchecked
           res[i] = arr[i].GetDouble();
         }
       }
+      else if constexpr (N == 4)
+      {
+        // RGBA colors are given as "#RRGGBBAA"
+        if (arr.Size() == 1)
+          json_to_single_value{arr[0], "r"}(res);
+      }
     }
   }
 
-- 
2.43.0


From 11728c7a75a64e84e4b4ac902e37ba04b9660638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 63/74] fix: keep the OSC port of OSCQuery clients when others
 come and go

---
 src/ossia/network/oscquery/oscquery_client.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/oscquery/oscquery_client.hpp b/src/ossia/network/oscquery/oscquery_client.hpp
index dab5e7f..b7a96a8 100644
--- a/src/ossia/network/oscquery/oscquery_client.hpp
+++ b/src/ossia/network/oscquery/oscquery_client.hpp
@@ -37,6 +37,7 @@ public:
       , listening{std::move(other.listening)}
       , client_ip{std::move(other.client_ip)}
       , sender{std::move(other.sender)}
+      , remote_sender_port{other.remote_sender_port}
   {
     // FIXME http://stackoverflow.com/a/29988626/1495627
   }
@@ -47,6 +48,7 @@ public:
     listening = std::move(other.listening);
     client_ip = std::move(other.client_ip);
     sender = std::move(other.sender);
+    remote_sender_port = other.remote_sender_port;
     return *this;
   }
 
-- 
2.43.0


From 95709876bd91c80ebbdb0c74fa2fd92adcb639d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:34 +0000
Subject: [PATCH 64/74] fix: do not echo critical values back to the OSCQuery
 client they come from

---
 .../network/oscquery/oscquery_server.cpp      | 26 +++++++++----------
 .../network/oscquery/oscquery_server.hpp      |  1 +
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/ossia/network/oscquery/oscquery_server.cpp b/src/ossia/network/oscquery/oscquery_server.cpp
index 578291d..cf53f8f 100644
--- a/src/ossia/network/oscquery/oscquery_server.cpp
+++ b/src/ossia/network/oscquery/oscquery_server.cpp
@@ -551,9 +551,15 @@ void oscquery_server_protocol::rename_node(
 }
 
 void oscquery_server_protocol::on_OSCMessage(
-    const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip) try
+    const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip)
 {
-  auto id = ossia::net::message_origin_identifier{*this, client_identifier(m_clients, ip)};
+  on_clientMessage(m, client_identifier(m_clients, ip));
+}
+
+void oscquery_server_protocol::on_clientMessage(
+    const oscpack::ReceivedMessage& m, uintptr_t client) try
+{
+  auto id = ossia::net::message_origin_identifier{*this, client};
   ossia::net::on_input_message<true>(
         m.AddressPattern(),
         ossia::net::osc_message_applier{id, m},
@@ -780,20 +786,12 @@ ossia::net::server_reply oscquery_server_protocol::on_BinaryWSrequest(
     const oscquery_server_protocol::connection_handler& hdl,
     const std::string& message)
 {
+  const auto client = (uintptr_t)hdl.lock().get();
   auto handler
-      = [this](const oscpack::ReceivedMessage& m,
-            const oscpack::IpEndpointName& ip) { this->on_OSCMessage(m, ip); };
+      = [this, client](const oscpack::ReceivedMessage& m,
+            const oscpack::IpEndpointName&) { this->on_clientMessage(m, client); };
   osc::listener<decltype(handler)> h{handler};
-  auto clt = find_client(hdl);
-  if (clt)
-  {
-    // TODO use proper ip / port
-    h.ProcessPacket(message.data(), message.size(), {});
-  }
-  else
-  {
-    h.ProcessPacket(message.data(), message.size(), {});
-  }
+  h.ProcessPacket(message.data(), message.size(), {});
 
   return {};
 }
diff --git a/src/ossia/network/oscquery/oscquery_server.hpp b/src/ossia/network/oscquery/oscquery_server.hpp
index 99e1f1e..e5a5ca2 100644
--- a/src/ossia/network/oscquery/oscquery_server.hpp
+++ b/src/ossia/network/oscquery/oscquery_server.hpp
@@ -90,6 +90,7 @@ private:
   // OSC callback
   void
   on_OSCMessage(const oscpack::ReceivedMessage& m, oscpack::IpEndpointName ip);
+  void on_clientMessage(const oscpack::ReceivedMessage& m, uintptr_t client);
 
   // Websocket callbacks
   void on_connectionOpen(const connection_handler& hdl);
-- 
2.43.0


From 96fdab8f5ed6c98f056594b44f2d8252c941babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 65/74] fix: unregister MIDI parameters that are not observed
 any more

---
 src/ossia/protocols/midi/midi_protocol.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 5a1669c..81b2c00 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -294,7 +294,6 @@ bool midi_protocol::push_raw(const full_parameter_data& parameter_base)
 
 bool midi_protocol::observe(parameter_base& address, bool enable)
 {
-  enable = true;
   midi_parameter& adrs = dynamic_cast<midi_parameter&>(address);
   if (m_info.type != midi_info::Type::Input)
     return false;
-- 
2.43.0


From a05559893e035a16c8e45aeb8855ada751e7126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 66/74] fix: observe the MIDI parameters of all the notes,
 controls and programs

---
 src/ossia/protocols/midi/midi_protocol.cpp | 29 +++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 81b2c00..b8e7569 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -336,8 +336,35 @@ bool midi_protocol::observe(parameter_base& address, bool enable)
       return true;
     }
 
+    case address_info::Type::NoteOn:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_note_on = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
+    case address_info::Type::NoteOff:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_note_off = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
+    case address_info::Type::CC:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_cc = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
+    case address_info::Type::PC:
+    {
+      midi_channel& chan = m_channels[adrinfo.channel - 1];
+      chan.callback_pc = enable ? adrs_ptr : nullptr;
+      return true;
+    }
+
     default:
-      // TODO do the non-N version
       return false;
   }
 
-- 
2.43.0


From 82685785ee17df485c83d1961051c8436d5b0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 67/74] fix: ignore MIDI notes and controls pushed without both
 numbers

---
 src/ossia/protocols/midi/midi_protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index b8e7569..7ef8ac2 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -199,6 +199,8 @@ bool midi_protocol::push(const parameter_base& address, const ossia::value& v)
       case address_info::Type::NoteOn:
       {
         auto& val = v.get<std::vector<ossia::value>>();
+        if (val.size() < 2)
+          return false;
         m_output->send_message(libremidi::message::note_on(
             adrinfo.channel, val[0].get<int32_t>(), val[1].get<int32_t>()));
         return true;
@@ -214,6 +216,8 @@ bool midi_protocol::push(const parameter_base& address, const ossia::value& v)
       case address_info::Type::NoteOff:
       {
         auto& val = v.get<std::vector<ossia::value>>();
+        if (val.size() < 2)
+          return false;
         m_output->send_message(libremidi::message::note_off(
             adrinfo.channel, val[0].get<int32_t>(), val[1].get<int32_t>()));
         return true;
@@ -229,6 +233,8 @@ bool midi_protocol::push(const parameter_base& address, const ossia::value& v)
       case address_info::Type::CC:
       {
         auto& val = v.get<std::vector<ossia::value>>();
+        if (val.size() < 2)
+          return false;
         m_output->send_message(libremidi::message::control_change(
             adrinfo.channel, val[0].get<int32_t>(), val[1].get<int32_t>()));
         return true;
-- 
2.43.0


From 640be6334313fac165194cbbb2756d8cc7e8b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 68/74] fix: do not create MIDI nodes for numbers out of 0..127

---
 src/ossia/protocols/midi/detail/midi_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/protocols/midi/detail/midi_impl.hpp b/src/ossia/protocols/midi/detail/midi_impl.hpp
index 05f9a24..c7190d0 100644
--- a/src/ossia/protocols/midi/detail/midi_impl.hpp
+++ b/src/ossia/protocols/midi/detail/midi_impl.hpp
@@ -70,7 +70,7 @@ public:
     } catch(...) {
     }
 
-    if(num == -1)
+    if(num < 0 || num > 127)
     {
       return nullptr;
     }
-- 
2.43.0


From 0b9688cd7bd53172121ee3141fb6f998a982deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 69/74] fix: do not read past the end of short MIDI messages
 when logging them

---
 src/ossia/protocols/midi/midi_protocol.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ossia/protocols/midi/midi_protocol.cpp b/src/ossia/protocols/midi/midi_protocol.cpp
index 7ef8ac2..65f51ea 100644
--- a/src/ossia/protocols/midi/midi_protocol.cpp
+++ b/src/ossia/protocols/midi/midi_protocol.cpp
@@ -397,7 +397,20 @@ void midi_protocol::midi_callback(const libremidi::message& mess)
 {
   if(m_logger.inbound_logger)
   {
-    m_logger.inbound_logger->info("MIDI in: {0} {1} {2}", mess.bytes[0], mess.bytes[1], mess.bytes[2]);
+    switch(mess.bytes.size())
+    {
+      case 0:
+        break;
+      case 1:
+        m_logger.inbound_logger->info("MIDI in: {0}", mess.bytes[0]);
+        break;
+      case 2:
+        m_logger.inbound_logger->info("MIDI in: {0} {1}", mess.bytes[0], mess.bytes[1]);
+        break;
+      default:
+        m_logger.inbound_logger->info("MIDI in: {0} {1} {2}", mess.bytes[0], mess.bytes[1], mess.bytes[2]);
+        break;
+    }
   }
 
   if(m_learning)
-- 
2.43.0


From b9f6ede814465d93cbdf2212f9003acfb4b42c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:15 +0000
Subject: [PATCH 70/74] fix: keep the extended types of OSCQuery parameters
 when reading a namespace

---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 1e64f76..666950a 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -849,6 +849,8 @@ void json_parser_impl::readParameter(
     else if (has_typetag)
     {
       addr = setup_parameter(val_type, node);
+      if (addr && ext_type)
+        ossia::net::set_extended_type(node, ext_type);
     }
     else if (ext_type)
     {
-- 
2.43.0


From 165a2eaf099cf4ae3d9c5ed353ecaf91529b9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 71/74] fix: minuit: a namespace answer for a node with a
 parameter names its children too

The container data answer only listed attributes: a mirror never learnt of
the children of a node that has a parameter.
---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 94afca2..297fa62 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -216,7 +216,7 @@ struct minuit_behavior<minuit_command::Request, minuit_operation::Namespace>
   {
     proto.sender().send(
         proto.name_table.get_action(minuit_action::NamespaceReply), address,
-        "Data", "attributes={", "type", "dataspace", "repetitionsFilter",
+        "Data", "nodes={", c, "}", "attributes={", "type", "dataspace", "repetitionsFilter",
         "service", "priority", "value", "rangeBounds", "rangeClipmode",
         "dataspaceUnit", "}");
     std::this_thread::sleep_for(std::chrono::milliseconds(1));
-- 
2.43.0


From f2f4e5e8fd90cc5c9400ccfeb5512d0ce9a0a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 72/74] fix: minuit: nodes without a parameter and without
 children are answered as containers

They were answered as data, so mirrors made them impulse parameters and asked
for attributes that are never answered. The mirror creates an empty container.
---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index 297fa62..ec18ac4 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -248,7 +248,7 @@ struct minuit_behavior<minuit_command::Request, minuit_operation::Namespace>
       if (!node)
         return;
 
-      if (node->children().empty())
+      if (node->children().empty() && node->get_parameter())
       {
         handle_data(proto, address);
       }
@@ -588,6 +588,9 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
       child_address += '/';
     const auto child_parameter_size = child_address.size();
 
+    // Create the actual node
+    ossia::net::find_or_create_node(dev.get_root_node(), address);
+
     for (auto child : get_nodes(beg_it, end_it))
     {
       child_address.resize(child_parameter_size);
@@ -595,9 +598,6 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Namespace>
       // Address of the node to create
       child_address.append(child.begin(), child.end());
 
-      // Create the actual node
-      ossia::net::find_or_create_node(dev.get_root_node(), address);
-
       // request children
       proto.namespace_refresh(sub_request, child_address);
     }
-- 
2.43.0


From 3a74614afe1645d4861070f3fa5e2e86f84cb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 73/74] fix: minuit: the priority attribute is sent as a float
 but was read as an integer

Reading it threw and the answer was dropped.
---
 src/ossia/network/minuit/detail/minuit_parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/minuit/detail/minuit_parser.hpp b/src/ossia/network/minuit/detail/minuit_parser.hpp
index ec18ac4..c054ed3 100644
--- a/src/ossia/network/minuit/detail/minuit_parser.hpp
+++ b/src/ossia/network/minuit/detail/minuit_parser.hpp
@@ -480,7 +480,8 @@ struct minuit_behavior<minuit_command::Answer, minuit_operation::Listen>
             }
             case minuit_attribute::Priority:
             {
-              ossia::net::set_priority(*node, mess_it->AsInt32());
+              if (const auto priority = AsNumber(mess_it))
+                ossia::net::set_priority(*node, (float)*priority);
               break;
             }
             case minuit_attribute::ValueStepSize:
-- 
2.43.0


From 416627e61c489c9e76a25c327c1622092cf8832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:51 +0000
Subject: [PATCH 74/74] fix: an interval given an empty time signature map
 dereferenced end()

---
 src/ossia/editor/scenario/time_interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/time_interval.cpp b/src/ossia/editor/scenario/time_interval.cpp
index fd24361..b61b6dd 100644
--- a/src/ossia/editor/scenario/time_interval.cpp
+++ b/src/ossia/editor/scenario/time_interval.cpp
@@ -67,7 +67,7 @@ void time_interval::tick_impl(
   {
     m_globalSpeed = m_parentSpeed * m_speed;
   }
-  if(m_hasSignature)
+  if(m_hasSignature && !m_timeSignature.empty())
   {
     // Compute the amount of bars for each signature change.
     // We need the exact amount of time that happens between two signature changes.
-- 
2.43.0

