---------------------------- MODULE PresetTrace ----------------------------
EXTENDS Preset, TLC, Json, IOUtils
LOCAL INSTANCE FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
AllNodes == << [n |-> "a", up |-> 0],
  [n |-> "b", up |-> 1],
  [n |-> "c", up |-> 2],
  [n |-> "x.1", up |-> 1],
  [n |-> "x.2", up |-> 1],
  [n |-> "x.10", up |-> 1],
  [n |-> "b c", up |-> 0],
  [n |-> "d", up |-> 0],
  [n |-> "Mid", up |-> 8],
  [n |-> "z", up |-> 8],
  [n |-> "e", up |-> 0],
  [n |-> "e.0", up |-> 0],
  [n |-> "k", up |-> 12],
  [n |-> "f", up |-> 0],
  [n |-> "g", up |-> 14],
  [n |-> "h", up |-> 15],
  [n |-> "g", up |-> 0],
  [n |-> "g", up |-> 17],
  [n |-> "k", up |-> 11] >>
MCNodes == << [n |-> "a", up |-> 0], [n |-> "b", up |-> 1], [n |-> "e", up |-> 0], [n |-> "e.0", up |-> 0] >>
VARIABLE l
e == Trace[l]
SameEnts(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].k = b[i].k /\ Same(a[i].v, b[i].v)
Op ==
  \/ e.e = "new" /\ New(e.i, e.t)
  \/ e.e = "drop" /\ Drop(e.i)
  \/ e.e = "set" /\ SetVal(e.i, e.v)
  \/ e.e = "access" /\ SetAcc(e.i, e.a)
  \/ e.e = "safe" /\ SetSafe(e.i, e.b)
  \/ e.e = "prio" /\ SetPrio(e.i, e.p)
  \/ e.e = "make" /\ Make(e.k, e.i) /\ (SameEnts(slot'[e.k], e.res) = TRUE)
  \/ e.e = "text" /\ Text(e.k) /\ (SameEnts(slot[e.k], e.res) = TRUE)
  \/ e.e = "doc" /\ Document(e.k, e.res)
  \/ e.e = "applytext" /\ ApplyTextAs(e.k, e.i, e.w)
  \/ e.e = "makejson" /\ MakeJson(e.k, e.i)
  \/ e.e = "applyjson" /\ ApplyJson(e.k, e.i, e.w)
  \/ e.e = "badjson" /\ BadJson
  \/ e.e \in {"applymem", "applyleaf"} /\ ApplyMemory(e.k, e.make, e.leaf)
Matches ==
  /\ e.ok = obs'.ok /\ Len(e.w) = Len(obs'.w) /\ e.c = obs'.c
  /\ \A i \in 1..Len(e.w) : e.w[i].i = obs'.w[i].i /\ Same(e.w[i].v, obs'.w[i].v)
  /\ {e.tree[i].i : i \in 1..Len(e.tree)} = DOMAIN tree' /\ Len(e.tree) = Cardinality(DOMAIN tree')
  /\ \A i \in 1..Len(e.tree) : LET n == tree'[e.tree[i].i] IN n.t = e.tree[i].t /\ Same(n.v, e.tree[i].v)
TInit == PInit /\ l = 1
Step == IF e.e = "Reset" THEN tree' = <<>> /\ slot' = <<>> /\ js' = <<>> /\ obs' = Out(TRUE, <<>>, <<>>) ELSE Op /\ (Matches = TRUE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<pvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
