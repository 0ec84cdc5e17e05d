--------------------------- MODULE ParameterTrace ---------------------------
EXTENDS Parameter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Range(s) == {s[i] : i \in 1..Len(s)}
SetLike(k) == k \in VecTypes \cup {"LIST"}
SameDom(x, y) == /\ x.k = y.k /\ Same(x.mn, y.mn) /\ Same(x.mx, y.mx)
                 /\ IF SetLike(x.k) THEN Len(x.vs.l) = Len(y.vs.l) /\ \A i \in 1..Len(x.vs.l) : Range(x.vs.l[i].l) = Range(y.vs.l[i].l)
                    ELSE Same(x.vs, y.vs)
StateAgrees(x, o) ==
  /\ o.live = x.live /\ o.at = x.at /\ Same(o.def, x.def)
  /\ x.live => /\ o.t = x.t /\ Same(o.v, x.v) /\ Same(o.gv, x.v) /\ Same(o.cv, x.v) /\ o.acc = x.acc /\ o.bm = x.bm /\ SameDom(o.dom, x.dom)
               /\ o.unit = (IF x.unit = "" THEN "none" ELSE x.unit) /\ o.rep = x.rep /\ o.dis = x.dis /\ o.mut = x.mut /\ o.crit = x.crit /\ o.ncb = Len(x.cbs)
SameLog == /\ Len(e.log) = Len(log')
           /\ \A i \in 1..Len(e.log) : LET a == e.log[i]  b == log'[i] IN a.k = b.k /\ a.p = b.p /\ a.n = b.n /\ Same(a.v, b.v)
Ret == Same(e.r, IF e.v.t = "NONE" THEN NoVal ELSE ps'[e.p].v) /\ Same(e.v2, e.v)
Op ==
  \/ e.e = "new" /\ Create(e.p, e.t)
  \/ e.e = "del" /\ Remove(e.p)
  \/ e.e \in {"set", "setr"} /\ SetValue(e.p, e.v) /\ Ret
  \/ e.e \in {"quiet", "quietr"} /\ SetQuiet(e.p, e.v) /\ Ret
  \/ e.e \in {"push", "pushr"} /\ Push(e.p, e.v) /\ Same(e.v2, e.v)
  \/ e.e = "pushquiet" /\ PushQuiet(e.p, e.v) /\ Same(e.v2, e.v)
  \/ e.e = "pushcur" /\ PushCurrent(e.p)
  \/ e.e = "setself" /\ SetValue(e.p, ps[e.p].v)
  \/ e.e = "pushself" /\ Push(e.p, ps[e.p].v)
  \/ e.e = "incoming" /\ Incoming(e.p, e.v)
  \/ e.e = "incomingq" /\ IncomingQuiet(e.p, e.v)
  \/ e.e = "cb" /\ AddCb(e.p, e.i)
  \/ e.e = "rmcb" /\ RmCb(e.p, e.i)
  \/ e.e = "type" /\ SetType(e.p, e.t)
  \/ e.e = "unit" /\ SetUnit(e.p, e.u)
  \/ e.e = "dom" /\ SetDomain(e.p, e.d)
  \/ e.e = "bounding" /\ SetBounding(e.p, e.b)
  \/ e.e = "access" /\ SetAccess(e.p, e.b)
  \/ e.e = "rep" /\ SetRep(e.p, e.b)
  \/ e.e = "disabled" /\ SetDisabled(e.p, e.b)
  \/ e.e = "muted" /\ SetMuted(e.p, e.b)
  \/ e.e = "critical" /\ SetCritical(e.p, e.b)
  \/ e.e = "attr" /\ SetAttr(e.p, e.a, e.v)
  \/ e.e = "def" /\ SetDefault(e.p, e.v)
  \/ e.e = "echo" /\ SetEcho(e.b)
  \/ e.e = "filter" /\ Chg(e.p, ps[e.p], <<>>) /\ e.r = Filtered(ps[e.p], e.v)
  \/ e.e = "at" /\ Chg(e.p, ps[e.p], <<>>) /\ (Same(e.r, At(ps[e.p].v, e.i)) = TRUE) /\ (Same(e.rs, At(ps[e.p].v, e.i)) = TRUE)
  \* every thread: each of its pushes called the callback once and was transmitted once, in order, with its value
  \/ e.e = "conc" /\ e.reads /\ Range(e.calls) = {TRUE} /\ Range(e.pushes) = {TRUE}
     /\ LET w == e.s[e.p + 1].v IN w.s \in Range(e.lasts) /\ Chg(e.p, [ps[e.p] EXCEPT !.v = w, !.prev = V("ANY", 0, "", <<>>)], <<>>)
TInit == PInit /\ l = 1
Step == IF e.e = "Reset" THEN ps' = [p \in Ids |-> Dead(NoAttrs, NoVal)] /\ log' = <<>> /\ echo' = FALSE
        ELSE /\ Op
             /\ (SameLog = TRUE)
             /\ \A p \in Ids : (StateAgrees(ps'[p], e.s[p + 1]) = TRUE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<pvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
