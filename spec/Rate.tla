-------------------------------- MODULE Rate --------------------------------
(* A protocol behind a rate limiter: what is pushed, and what it is asked to
   send. *)
EXTENDS Value
CONSTANT Pars
VARIABLES live,   \* the parameters there are
          pend,   \* what was pushed on each of them after the value sent last
          obs     \* what the last other operation asked of the protocol
rvars == <<live, pend, obs>>
El(k, p, v) == [k |-> k, p |-> p, v |-> v]
RInit == live = {} /\ pend = [p \in Pars |-> <<>>] /\ obs = <<>>
Create(p) == p \notin live /\ live' = live \cup {p} /\ pend' = [pend EXCEPT ![p] = <<>>] /\ obs' = <<>>
\* what it had to send is forgotten
Remove(p) == p \in live /\ live' = live \ {p} /\ pend' = [pend EXCEPT ![p] = <<>>] /\ obs' = << El("observe", p, V("BOOL", 0, "", <<>>)) >>
Push(p, v) == p \in live /\ pend' = [pend EXCEPT ![p] = Append(@, v)] /\ UNCHANGED live /\ obs' = <<>>
\* a value that was pushed, no older one can follow
Send(p, v) == p \in live /\ obs' = <<>> /\ UNCHANGED live
  /\ \E i \in 1..Len(pend[p]) : Same(pend[p][i], v) /\ pend' = [pend EXCEPT ![p] = SubSeq(@, i + 1, Len(@))]
\* after some time without a push
Settled == (\A p \in Pars : pend[p] = <<>>) /\ UNCHANGED <<live, pend>> /\ obs' = <<>>
\* everything else goes to the protocol at once, and its answer comes back
Pass(k, p, v) == UNCHANGED <<live, pend>> /\ obs' = << El(k, p, v) >>
Nothing == UNCHANGED <<live, pend>> /\ obs' = <<>>
=============================================================================
