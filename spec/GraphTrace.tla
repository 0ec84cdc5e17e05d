----------------------------- MODULE GraphTrace -----------------------------
EXTENDS Graph, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Range(s) == {s[i] : i \in 1..Len(s)}
Op ==
  \/ e.e = "graph" /\ ~tk.on /\ ordered' = e.ordered /\ UNCHANGED <<nd, eds, pv, tk>>
  \/ /\ e.e \in {"node", "edge", "del", "rm", "add", "drop", "clear", "mute", "disc", "dirty", "set"}
     /\ \/ e.e = "node" /\ Create(e.n, e.t, e.ia, e.oa)
        \/ e.e = "edge" /\ Connect(Edge(e.id, e.k, e.o, e.op, e.i, e.ip))
        \/ e.e = "del" /\ Disconnect(e.id)
        \/ e.e = "rm" /\ Take(e.n)
        \/ e.e = "add" /\ Put(e.n)
        \/ e.e = "drop" /\ Destroy(e.n)
        \/ e.e = "clear" /\ Clear
        \/ e.e = "mute" /\ Mute(e.n, e.b)
        \/ e.e = "disc" /\ Discontinuous(e.n, e.sd, e.ed)
        \/ e.e = "dirty" /\ UNCHANGED gvars
        \/ e.e = "set" /\ SetParam(e.p, e.v)
     /\ Range(e.in) = {n \in Nodes : nd'[n].ing} /\ Len(e.in) = Cardinality(Range(e.in))
  \/ e.e = "req" /\ Request(e.n, e.t)
  \/ e.e = "tick" /\ TickStart
  \/ e.e = "run" /\ Begin(e.n, e.t, e.in, e.sd, e.ed)
  \/ e.e = "end" /\ End(e.n, e.w)
  \/ /\ e.e = "tickend" /\ TickEnd
     /\ e.left = 0 /\ \A p \in Params : e.push[p] = tk.loc[p] /\ e.pv[p] = pv'[p]
     /\ \A n \in Range(e.en) : ~nd[n].ing
TInit == GInit(TRUE) /\ l = 1
Step == IF e.e = "Reset" THEN /\ nd' = [n \in Nodes |-> NoNode] /\ eds' = <<>> /\ pv' = [p \in Params |-> 0]
                              /\ ordered' = e.ordered /\ tk' = Idle
        ELSE Op
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<gvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
