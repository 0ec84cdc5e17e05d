----------------------------- MODULE TokenTrace -----------------------------
EXTENDS Token, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
Near(a, b) == a - b \in {-1, 0, 1}
TInit == LoopInit([from |-> 0, to |-> 0, off |-> 0, start |-> 0, len |-> 1]) /\ l = 1
Step ==
  \/ e.e = "Reset"
  \* the other fields of the request are passed through unchanged
  \/ /\ e.e = "loop" /\ e.kept
     /\ e.subs = Loop(e.p)
  \/ /\ e.e = "quant"
     /\ LET q == Quantize(e.m, e.rate) IN
        IF e.rate.num <= 0 \/ e.m.end <= e.m.start THEN e.has /\ e.date = e.m.from
        ELSE /\ e.has = (q # -1)
             /\ e.has => /\ Near(e.date, Date(e.m, q)) /\ e.date >= e.m.from /\ e.date <= e.m.to
                         /\ Near(e.phys, Date(e.m, q) - e.m.from + e.m.off)
  \/ /\ e.e = "metro"
     /\ LET x == Metro(e.m) IN e.what = x[1] /\ (x[1] # "none" => Near(e.at, Date(e.m, x[2]) - e.m.from))
  \/ /\ e.e = "range"
     /\ e["in"] = (e.from <= e.t /\ e.t < e.to)
     /\ e.fwd = (e.to > e.from) /\ e.paused = (e.to = e.from) /\ e.back = (e.to < e.from)
     /\ e.phys = e.t - e.from + e.off
     /\ e.model = e.t - e.off + e.from     \* t read as a physical date
     /\ e.dur = e.to - e.from
     /\ e.moved = <<e.from + e.t, e.to + e.t>>
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1 /\ UNCHANGED lvars
TSpec == TInit /\ [][TNext]_<<l, lvars>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
