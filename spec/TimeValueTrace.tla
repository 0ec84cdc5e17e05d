--------------------------- MODULE TimeValueTrace ---------------------------
EXTENDS TimeValue, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES x, l
e == Trace[l]
V(p) == <<p[1], p[2], p[3]>>
TInit == x = Zero /\ l = 1
Step ==
  \/ e.e = "Reset" /\ x' = Zero
  \/ e.e = "set" /\ x' = V(e.x) /\ e.inf = Inf(x')
  \/ e.e = "cmp" /\ e.r = Cmp(x, V(e.y)) /\ e.inf = Inf(x) /\ V(e.x) = x /\ x' = x
  \/ e.e = "mul" /\ V(e.x) = Mul(x, e.n) /\ x' = V(e.x)
  \* the operand is not changed
  \/ /\ e.e \notin {"Reset", "set", "cmp", "mul"}
     /\ V(e.y2) = V(e.y) /\ (e.e \notin {"addeq", "subeq", "addieq", "subieq"} => V(e.x2) = x)
     /\ LET r == Res(e.e, x, V(e.y)) IN
        \/ Same(V(e.x), r) /\ e.inf = Inf(r)
        \/ ~Inf(x) /\ ~Inf(V(e.y)) /\ Le(r, Neg(InfMin))
     /\ x' = V(e.x)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<x, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
