------------------------------- MODULE MuxTrace ------------------------------
EXTENDS Mux, TLC, Json, IOUtils
LOCAL INSTANCE FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
SameEl(x, y) == x.k = y.k /\ x.p = y.p /\ Same(x.v, y.v)
IsObs(x, a, b) == x.k = "observe" /\ x.p = a /\ Same(x.v, V("BOOL", b, "", <<>>))
RECURSIVE SameCalls(_, _)
SameCalls(xs, ys) ==
  IF ys = <<>> THEN xs = <<>>
  ELSE LET y == Head(ys) IN
    CASE y.k = "observing" ->
           LET n == Cardinality(y.as) IN
           /\ Len(xs) >= n /\ {xs[i].p : i \in 1..n} = y.as /\ \A i \in 1..n : IsObs(xs[i], xs[i].p, 4)
           /\ SameCalls(SubSeq(xs, n + 1, Len(xs)), Tail(ys))
      [] y.k = "removed" ->
           \* (that it is not observed any more may be told twice, or without need)
           \E n \in (IF y.was THEN 1 ELSE 0)..2 : /\ Len(xs) >= n /\ \A i \in 1..n : IsObs(xs[i], y.p, 0)
                                                  /\ SameCalls(SubSeq(xs, n + 1, Len(xs)), Tail(ys))
      [] OTHER -> xs # <<>> /\ SameEl(Head(xs), y) /\ SameCalls(Tail(xs), Tail(ys))
Agree == /\ \A p \in Protos : SameCalls(e.c[p], obs'.c[p])
         /\ {e.pars[i].p : i \in 1..Len(e.pars)} = DOMAIN pars' /\ Len(e.pars) = Cardinality(DOMAIN pars')
         /\ \A i \in 1..Len(e.pars) : e.pars[i].t = pars'[e.pars[i].p].t /\ Same(e.pars[i].v, pars'[e.pars[i].p].v)
         /\ e.exp = exp'
Op ==
  \/ e.e = "expose" /\ Expose(e.p, e.b)
  \/ e.e = "refuse" /\ Refuse(e.p)
  \/ e.e = "unexpose" /\ Unexpose(e.p)
  \/ e.e = "clear" /\ Clear
  \/ e.e = "device" /\ Attach
  \/ e.e = "stop" /\ Stop
  \/ e.e = "echo" /\ SetEcho(e.b)
  \/ e.e = "new" /\ Create(e.a, e.t)
  \/ e.e = "del" /\ Remove(e.a)
  \/ e.e = "listen" /\ Listen(e.a)
  \/ e.e = "unlisten" /\ Unlisten(e.a)
  \/ e.e \in {"push", "pushr"} /\ Push(e.a, e.v)
  \/ e.e = "pushcur" /\ PushCurrent(e.a)
  \/ e.e = "send" /\ Send(e.a, e.v) /\ e.ok = obs'.ok
  \/ e.e = "raw" /\ Raw(e.a, e.v) /\ e.ok = obs'.ok
  \/ e.e = "bundle" /\ Bundle(e.as) /\ e.ok = obs'.ok
  \/ e.e = "rawbundle" /\ RawBundle(e.rs) /\ e.ok = obs'.ok
  \/ e.e \in {"incoming", "incomingq"} /\ Incoming(e.a, e.v) /\ e.msgs = 1
  \/ e.e = "pull" /\ Pull
TInit == MInit /\ l = 1
Step ==
  IF e.e = "Reset" THEN pars' = <<>> /\ exp' = <<>> /\ pend' = <<>> /\ yes' = [p \in Protos |-> TRUE] /\ dev' = FALSE /\ echo' = FALSE /\ obs' = [c |-> Silent, ok |-> TRUE]
  ELSE Op /\ (Agree = TRUE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<mvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
