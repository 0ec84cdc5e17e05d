------------------------------ MODULE RateTrace ------------------------------
EXTENDS Rate, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
SameCalls == /\ Len(e.calls) = Len(obs')
             /\ \A i \in 1..Len(obs') : e.calls[i].k = obs'[i].k /\ e.calls[i].p = obs'[i].p /\ Same(e.calls[i].v, obs'[i].v)
Op ==
  \/ e.e = "new" /\ Create(e.p)
  \/ e.e \in {"del", "delnode"} /\ Remove(e.p)
  \/ e.e = "push" /\ Push(e.p, e.v)
  \/ e.e = "sent" /\ Send(e.p, e.v)
  \/ e.e = "settle" /\ e.done /\ Settled
  \/ e.e \in {"duration", "answer"} /\ Nothing
  \/ e.e \in {"pull", "raw", "observe", "observeq", "echo", "update", "updateasync", "pullasync", "request", "connected", "connect", "start", "stopexec", "stop", "logger"}
     /\ Pass(e.k, e.p, e.v) /\ e.ok /\ (SameCalls = TRUE)
TInit == RInit /\ l = 1
Step == IF e.e \in {"Reset", "cfg"} THEN live' = {} /\ pend' = [p \in Pars |-> <<>>] /\ obs' = <<>> ELSE Op
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<rvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
