----------------------------- MODULE ValueTrace -----------------------------
EXTENDS Value, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
TInit == l = 1
Ok ==
  \/ e.e = "Reset"
  \* the three ways to convert: typed, by type, keeping what a current value has
  \/ e.e = "conv" /\ Same(e.r1, Convert(e.x, e.t)) /\ Same(e.r2, Convert(e.x, e.t)) /\ e.x2 = e.x
  \/ e.e = "cconv" /\ Same(e.r, IF e.c.t = "NONE" THEN NoVal ELSE Conv(e.x, e.c.t, e.c)) /\ e.x2 = e.x /\ e.c2 = e.c
  \/ e.e = "cmp" /\ e.r = AllCmp(e.x, e.y)
  \* values are copied, assigned over each other, moved and swapped
  \/ e.e = "copy" /\ e.r = <<e.x, e.y, e.y, e.x>>
TNext == l <= Len(Trace) /\ (Ok = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
