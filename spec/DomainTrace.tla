---------------------------- MODULE DomainTrace -----------------------------
EXTENDS Domain, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES d, l
e == Trace[l]
Range(s) == {s[i] : i \in 1..Len(s)}
SetLike(k) == k \in VecTypes \cup {"LIST"}
SameDom(x, y) == /\ x.k = y.k /\ Same(x.mn, y.mn) /\ Same(x.mx, y.mx)
                 /\ IF SetLike(x.k) THEN Len(x.vs.l) = Len(y.vs.l) /\ \A i \in 1..Len(x.vs.l) : Range(x.vs.l[i].l) = Range(y.vs.l[i].l)
                    ELSE Same(x.vs, y.vs)
Obs == D(e.d.k, e.d.mn, e.d.mx, e.d.vs)
TInit == d = NoDom /\ l = 1
Becomes(x) == SameDom(Obs, x) /\ d' = x /\ Same(e.min, GetBound(x, x.mn)) /\ Same(e.max, GetBound(x, x.mx))
App(x, r) == /\ Same(e.r1, r) /\ Same(e.r2, r) /\ Same(e.r3, r) /\ Same(e.again, Apply(x, e.b, r)) /\ e.v2 = e.v
             /\ Idempotent(x, e.b, e.v)
\* integers over the whole range (the difference of two may not be a 32 bit integer)
Num(b, n, lo, hi) ==
  IF n >= lo /\ n <= hi /\ ~(b = "WRAP" /\ n = hi) THEN n
  ELSE CASE b \in {"CLIP", "LOW", "HIGH"} -> IF n < lo THEN (IF b = "HIGH" THEN n ELSE lo) ELSE IF b = "LOW" THEN n ELSE hi
         [] b = "FREE" -> n
         [] lo = hi -> lo
         [] b = "WRAP" -> lo + (((n % (hi - lo)) - (lo % (hi - lo))) % (hi - lo))
         [] b = "FOLD" -> LET p == 2 * (hi - lo)  r == ((n % p) - (lo % p)) % p IN IF r > hi - lo THEN lo + p - r ELSE lo + r
Step ==
  \/ e.e = "Reset" /\ d' = NoDom
  \/ e.e = "dom" /\ Becomes(D(e.k, e.mn, e.mx, e.vs))
  \/ e.e = "make" /\ Becomes(Make(e.mn, e.mx, e.vs.l))
  \/ e.e = "init" /\ Becomes(Init(e.t))
  \/ e.e = "setmin" /\ Becomes(SetMin(d, e.v))
  \/ e.e = "setmax" /\ Becomes(SetMax(d, e.v))
  \/ e.e = "setvals" /\ Becomes(SetValues(d, e.v.l))
  \/ e.e = "convd" /\ Becomes(ConvDom(d, e.t))
  \/ e.e = "apply" /\ (App(d, Apply(d, e.b, e.v)) = TRUE) /\ d' = d
  \/ e.e = "num" /\ d' = d /\ e.r = Num(e.b, e.n, e.lo, e.hi)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<d, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
