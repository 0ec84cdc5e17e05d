-------------------------------- MODULE Mux ---------------------------------
(* A device exposed through several protocols at once (multiplex_protocol):
   what each of them is told. *)
EXTENDS Value
CONSTANT Protos
VARIABLES pars,   \* address -> its type, value and number of listeners
          exp,    \* the protocols exposed, in order
          pend,   \* those that wait for the device
          yes,    \* Protos -> what the protocol answers
          dev,    \* the device exists
          echo,   \* the device echoes what comes in
          obs     \* what the last operation told each protocol, and its answer
mvars == <<pars, exp, pend, yes, dev, echo, obs>>

El(k, p, v) == [k |-> k, p |-> p, v |-> v]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Silent == [p \in Protos |-> <<>>]
\* f is told to every protocol exposed
All(s) == [p \in Protos |-> IF p \in RangeOf(exp) THEN s ELSE <<>>]
Answer == \A p \in RangeOf(exp) : yes[p]
Listened == {a \in DOMAIN pars : pars[a].n > 0}
\* (the order among the parameters is free: the entry stands for all of them)
Hello == << El("device", "", NoVal), [k |-> "observing", p |-> "", v |-> NoVal, as |-> Listened] >>
Obs(c, ok) == obs' = [c |-> c, ok |-> ok]

MInit == pars = <<>> /\ exp = <<>> /\ pend = <<>> /\ yes = [p \in Protos |-> TRUE] /\ dev = FALSE /\ echo = FALSE /\ obs = [c |-> Silent, ok |-> TRUE]

Known(p) == p \in RangeOf(exp) \cup RangeOf(pend)
Expose(p, b) ==
  /\ ~Known(p)
  /\ yes' = [yes EXCEPT ![p] = b] /\ UNCHANGED <<pars, dev, echo>>
  /\ IF dev THEN exp' = Append(exp, p) /\ pend' = pend /\ Obs([Silent EXCEPT ![p] = Hello], TRUE)
     ELSE pend' = Append(pend, p) /\ exp' = exp /\ Obs(Silent, TRUE)
\* a protocol that cannot be one among others
Refuse(p) == ~Known(p) /\ UNCHANGED <<pars, exp, pend, yes, dev, echo>> /\ Obs([Silent EXCEPT ![p] = << El("gone", "", NoVal) >>], TRUE)
Unexpose(p) ==
  /\ exp' = SelectSeq(exp, LAMBDA x : x # p) /\ pend' = SelectSeq(pend, LAMBDA x : x # p)
  /\ UNCHANGED <<pars, yes, dev, echo>>
  /\ Obs([Silent EXCEPT ![p] = IF Known(p) THEN << El("gone", "", NoVal) >> ELSE <<>>], TRUE)
Clear == /\ exp' = <<>> /\ pend' = <<>> /\ UNCHANGED <<pars, yes, dev, echo>>
         /\ Obs([p \in Protos |-> IF Known(p) THEN << El("gone", "", NoVal) >> ELSE <<>>], TRUE)
Attach == /\ ~dev /\ dev' = TRUE /\ exp' = exp \o pend /\ pend' = <<>> /\ UNCHANGED <<pars, yes, echo>>
          /\ Obs([p \in Protos |-> IF p \in RangeOf(pend) THEN Hello ELSE <<>>], TRUE)
Stop == UNCHANGED <<pars, exp, pend, yes, dev, echo>> /\ Obs(All(<< El("stop", "", NoVal) >>), TRUE)
SetEcho(b) == dev /\ echo' = b /\ UNCHANGED <<pars, exp, pend, yes, dev>> /\ Obs(Silent, TRUE)

Pars(P, c, ok) == pars' = P /\ UNCHANGED <<exp, pend, yes, dev, echo>> /\ Obs(c, ok)
Create(a, t) == dev /\ a \notin DOMAIN pars
  /\ Pars([x \in DOMAIN pars \cup {a} |-> IF x = a THEN [t |-> t, v |-> Zero(t), n |-> 0] ELSE pars[x]], Silent, TRUE)
\* its observation ends
Remove(a) == Pars([x \in DOMAIN pars \ {a} |-> pars[x]], All(<< [k |-> "removed", p |-> a, v |-> NoVal, was |-> pars[a].n > 0] >>), TRUE)
Listen(a) == Pars([pars EXCEPT ![a].n = @ + 1], IF pars[a].n = 0 THEN All(<< El("observe", a, V("BOOL", 4, "", <<>>)) >>) ELSE Silent, TRUE)
Unlisten(a) == pars[a].n > 0
  /\ Pars([pars EXCEPT ![a].n = @ - 1], IF pars[a].n = 1 THEN All(<< El("observe", a, V("BOOL", 0, "", <<>>)) >>) ELSE Silent, TRUE)
Holds(a, v) == [pars EXCEPT ![a].v = Conv(v, pars[a].t, @)]
Push(a, v) == LET P == Holds(a, v) IN Pars(P, All(<< El("push", a, P[a].v) >>), TRUE)
PushCurrent(a) == Pars(pars, All(<< El("push", a, pars[a].v) >>), TRUE)
\* through the protocol itself: the value of the parameter stays
Send(a, v) == Pars(pars, All(<< El("push", a, v) >>), Answer)
Raw(a, v) == Pars(pars, All(<< El("raw", a, v) >>), Answer)
Bundle(as) == Pars(pars, All([i \in 1..Len(as) |-> El("push", as[i], pars[as[i]].v)]), as # <<>> /\ Answer)
RawBundle(rs) == Pars(pars, All([i \in 1..Len(rs) |-> El("raw", rs[i].a, rs[i].v)]), rs # <<>> /\ Answer)
Incoming(a, v) == LET P == Holds(a, v) IN Pars(P, IF echo THEN All(<< El("echo", a, P[a].v) >>) ELSE Silent, TRUE)
\* it has nothing to fetch
Pull == Pars(pars, Silent, TRUE)
-----------------------------------------------------------------------------
\* a protocol that is not exposed is told nothing (but that it goes)
OnlyExposed == \A p \in Protos : obs.c[p] = <<>> \/ p \in RangeOf(exp) \/ (Len(obs.c[p]) = 1 /\ obs.c[p][1].k = "gone")
Distinct == Len(exp \o pend) = 0 \/ \A i, j \in 1..Len(exp \o pend) : i # j => (exp \o pend)[i] # (exp \o pend)[j]
PendingBefore == dev => pend = <<>>
=============================================================================
