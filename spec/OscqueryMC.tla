---------------------------- MODULE OscqueryMC ----------------------------
(* Two clients of one server, every interleaving of edits and deliveries;   *)
(* messages are taken exactly as they were queued.                          *)
EXTENDS Oscquery, Json
CONSTANTS MaxLen, Names, Depth, MaxMsgs, Sample
VARIABLE hist
allvars == <<qvars, hist>>
H(c) == hist' = Append(hist, c)
RECURSIVE Str(_)
Str(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o Str(Tail(p))
S(p) == IF p = <<>> THEN "/" ELSE Str(p)
I(n) == [t |-> "INT", q |-> 4 * n, s |-> "", l |-> <<>>]
New(p) == [t |-> "INT", v |-> I(0), at |-> (IF p \in DOMAIN srv THEN srv[p].at ELSE {})]
MCInit ==
  /\ srv = Root /\ mir = <<Root, Root>> /\ synced = {1, 2} /\ heard = {1, 2} /\ pend = <<<<>>, <<>>>> /\ due = <<>> /\ echo = TRUE
  /\ stamp = (<<>> :> 0) /\ shown = <<(<<>> :> 0), (<<>> :> 0)>> /\ clock = 1
  /\ hist = <<<<"echo", 0, 1>>, <<"join">>, <<"join">>>>
Paths == {p \o <<n>> : p \in {q \in DOMAIN srv : Len(q) < Depth}, n \in Names}
\* the message at the head of the client's channel
Told(m, N) ==
  CASE N.k = "PATH_ADDED" -> ToldAdded(m, N.p, IF N.p \in DOMAIN mir[m] THEN mir[m] ELSE (N.p :> Bare) @@ mir[m])
    [] N.k = "PATH_REMOVED" -> ToldRemoved(m, N.p)
    [] N.k = "PATH_RENAMED" -> ToldRenamed(m, N.p, N.q)
    [] N.k = "ATTR" ->
       LET T == mir[m]
           new == N.q = <<"type">>
           P == IF ~ new THEN [T[N.p] EXCEPT !.at = N.n.at]
                ELSE [t |-> N.n.t, v |-> IF HasPar(srv, N.p) THEN srv[N.p].v ELSE N.n.v, at |-> T[N.p].at]
           R == IF N.p \in DOMAIN T THEN [T EXCEPT ![N.p] = P] ELSE T IN
       /\ pend' = [pend EXCEPT ![m] = Tail(@)]
       /\ mir' = [mir EXCEPT ![m] = R]
       /\ shown' = IF new /\ N.p \in DOMAIN T /\ HasPar(srv, N.p) THEN [shown EXCEPT ![m] = (N.p :> stamp[N.p]) @@ @] ELSE shown
       /\ UNCHANGED <<srv, synced, heard, due, echo, stamp, clock>>
Deliver(m) == pend[m] # <<>> /\ Told(m, Head(pend[m]))
\* the first datagram on its way
Arrive ==
  /\ due # <<>>
  /\ LET d == Head(due) IN
     IF d.to = 0 THEN ValueAtServer(d.p, d.from, d.tr, 1, d.v) ELSE ValueAtMirror(d.to, d.p, d.tr, 1, d.v)
Busy == Len(pend[1]) + Len(due) > MaxMsgs
MCNext ==
  /\ Len(hist) < MaxLen
  /\ \/ ~ Busy /\ \/ \E p \in Paths : ~ HasPar(srv, p) /\ Param(p, "INT", New(p)) /\ H(<<"param", S(p), "INT">>)
                  \/ \E p \in Paths : p \notin DOMAIN srv /\ Node(p) /\ H(<<"node", S(p)>>)
                  \/ \E p \in DOMAIN srv :
                       \/ p # <<>> /\ Remove(p) /\ H(<<"rmnode", S(p)>>)
                       \/ \E n \in Names : p # <<>> /\ Rename(p, n) /\ H(<<"rename", S(p), n>>)
                       \/ p # <<>> /\ At(srv, p, "desc") = "" /\ Attr(p, "desc", "x", Bare) /\ H(<<"attr", S(p), "desc", "x">>)
                       \/ HasPar(srv, p) /\ Len(due) = 0 /\ LET v == I(clock) IN SetServer(p, v, v) /\ H(<<"set", 0, S(p), v>>)
                  \/ \E p \in DOMAIN mir[1] : HasPar(mir[1], p) /\ LET v == I(clock) IN SetMirror(1, p, v, v) /\ H(<<"set", 1, S(p), v>>)
     \/ Deliver(1) /\ H(<<"wsto", 1>>)
     \/ Deliver(2) /\ H(<<"wsto", 2>>)
     \/ Arrive /\ H(<<"udp">>)
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<srv, mir, pend, due, stamp, shown>>
\* a sample of what was explored is run on the code
Emit == IF Len(hist') = MaxLen /\ RandomElement(1..Sample) = 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
MCConverged == (pend[1] = <<>> /\ pend[2] = <<>> /\ due = <<>>) => Image(1) /\ Image(2)
\* a mirror never shows a node that the server never had at that place, nor a type it did not have
TypeOK == \A m \in {1, 2} : \A p \in DOMAIN mir[m] : p = <<>> \/ Parent(p) \in DOMAIN mir[m]
=============================================================================
