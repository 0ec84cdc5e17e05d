--------------------------- MODULE StateMergeTrace ---------------------------
EXTENDS StateMerge, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
TStart(p) == CASE p = 1 -> IntV(0) [] p = 2 -> Float4(0) [] p = 3 -> Str("") [] p = 5 -> Vec(<<0, 0>>) [] p = 6 -> Vec(<<0, 0, 0>>)
               [] p = 4 -> List(<<IntV(0), List(<<IntV(0), IntV(0)>>), IntV(0)>>)
Nothing == e.w = <<>>
Op ==
  \/ e.e = "set" /\ Write(e.s, e.v) /\ e.w = <<[p |-> e.s, v |-> e.v]>>
  \/ e.e = "add" /\ Add(e.s, e.el) /\ Nothing
  \/ e.e = "addst" /\ Add(e.s, Nested(st[e.t].els)) /\ Nothing
  \/ e.e = "remove" /\ Remove(e.s, e.el) /\ Nothing
  \/ e.e = "merge" /\ Merge(e.s, e.el, "merged") /\ Nothing
  \/ e.e = "filter" /\ Merge(e.s, e.el, "filtered") /\ Nothing
  \/ /\ e.e \in {"mergest", "filterst"} /\ Nothing
     /\ \E m \in {IF e.e = "mergest" THEN "merged" ELSE "filtered"} :
          LET f == Flat(st[e.t].els)
              x == IF f = <<>> THEN st[e.s] ELSE [els |-> Flat(st[e.s].els) \o f, mode |-> NewMode(e.s, m)]
          IN st' = (IF e.mv THEN [[st EXCEPT ![e.t] = Empty] EXCEPT ![e.s] = x] ELSE [st EXCEPT ![e.s] = x]) /\ UNCHANGED vals
  \/ e.e = "copy" /\ Copy(e.s, e.t) /\ Nothing
  \/ /\ e.e = "equal" /\ UNCHANGED svars /\ Nothing /\ e.ne = ~e.eq
     /\ (st[e.s].mode = "raw" /\ st[e.t].mode = "raw") => e.eq = (st[e.s].els = st[e.t].els)
     /\ (st[e.s] = st[e.t]) => e.eq
  \/ e.e = "clear" /\ Clear(e.s) /\ Nothing
  \/ e.e = "launch" /\ Launch(e.s, e.w)
State == /\ \A p \in Params : e.vals[p] = vals'[p]
         /\ \A s \in States : SizeOk(st'[s], e.n[s])
TInit == l = 1 /\ SInit
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ \/ e.e = "Reset" /\ vals' = [p \in Params |-> Start0(p)] /\ st' = [s \in States |-> Empty]
            \/ e.e # "Reset" /\ Op
         /\ (State = TRUE)
TraceSpec == TInit /\ [][TNext]_<<svars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
