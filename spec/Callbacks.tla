----------------------------- MODULE Callbacks -----------------------------
(* The callback container every parameter, expression and time_sync is built *)
(* on (detail/callback_container.hpp): an ordered collection of callbacks    *)
(* with stable handles, temporary disabling, and first/last notifications.   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Ids,      \* handles ever given out
          Tags      \* what a callback does (its observable identity)

VARIABLES
  order,     \* sequence of live handles, most recently added first
  tag,       \* [Ids -> Tags]: the function behind each handle
  dis,       \* set of live handles that are temporarily disabled
  lastcall,  \* tags invoked by the last Send, in invocation order
  hooks      \* <<number of on_first notifications, number of on_last ones>>

vars == <<order, tag, dis, lastcall, hooks>>

Live == {order[i] : i \in 1..Len(order)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Enabled == SelectSeq(order, LAMBDA y : y \notin dis)

Init == order = <<>> /\ tag = [i \in Ids |-> CHOOSE t \in Tags : TRUE] /\ dis = {}
        /\ lastcall = <<>> /\ hooks = <<0, 0>>

Add(i, t) ==
  /\ i \notin Live
  /\ order' = <<i>> \o order
  /\ tag' = [tag EXCEPT ![i] = t]
  /\ hooks' = IF order = <<>> THEN <<hooks[1] + 1, hooks[2]>> ELSE hooks
  /\ UNCHANGED <<dis, lastcall>>

\* an empty function is refused and nothing changes
AddEmpty == UNCHANGED vars

Remove(i) ==
  /\ i \in Live
  /\ i \notin dis
  /\ order' = Without(order, i)
  /\ hooks' = IF Len(order) = 1 THEN <<hooks[1], hooks[2] + 1>> ELSE hooks
  /\ UNCHANGED <<tag, dis, lastcall>>

Replace(i, t) ==
  /\ i \in Live
  /\ i \notin dis
  /\ tag' = [tag EXCEPT ![i] = t]
  /\ UNCHANGED <<order, dis, lastcall, hooks>>

Clear ==
  /\ dis = {}
  /\ order' = <<>>
  /\ hooks' = IF order # <<>> THEN <<hooks[1], hooks[2] + 1>> ELSE hooks
  /\ UNCHANGED <<tag, dis, lastcall>>

Send ==
  /\ lastcall' = [k \in 1..Len(Enabled) |-> tag[Enabled[k]]]
  /\ UNCHANGED <<order, tag, dis, hooks>>

\* disable_callback(it): suppressed until the returned guard dies
Disable(i) ==
  /\ i \in Live
  /\ i \notin dis
  /\ dis' = dis \cup {i}
  /\ UNCHANGED <<order, tag, lastcall, hooks>>

Restore(i) ==
  /\ i \in dis
  /\ dis' = dis \ {i}
  /\ UNCHANGED <<order, tag, lastcall, hooks>>

Next == \/ \E i \in Ids, t \in Tags : Add(i, t) \/ Replace(i, t)
        \/ \E i \in Ids : Remove(i) \/ Disable(i) \/ Restore(i)
        \/ Clear \/ Send \/ AddEmpty

(* ------------------------------ properties ------------------------------ *)
TypeOK == /\ \A i, j \in 1..Len(order) : i # j => order[i] # order[j]
          /\ dis \subseteq Live
\* first/last notifications alternate: the container is non-empty exactly
\* when one more "first" than "last" was notified
HooksBalanced == hooks[1] - hooks[2] = (IF order = <<>> THEN 0 ELSE 1)
\* a Send reaches each enabled callback exactly once and nothing else
SendExact == [][Send => Len(lastcall') = Cardinality(Live \ dis)]_vars
=============================================================================
