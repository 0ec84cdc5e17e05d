--------------------------- MODULE OscqueryTrace ---------------------------
EXTENDS Oscquery, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
SetOf(s) == {s[i] : i \in 1..Len(s)}
TreeOf(s) == LET P == {s[i].p : i \in 1..Len(s)} IN
  [q \in P |-> LET n == s[CHOOSE i \in 1..Len(s) : s[i].p = q] IN [t |-> n.t, v |-> n.v, at |-> SetOf(n.at)]]
S1 == TreeOf(e.srv)
M1 == [m \in {e.mirs[i].m : i \in 1..Len(e.mirs)} |-> TreeOf(e.mirs[CHOOSE i \in 1..Len(e.mirs) : e.mirs[i].m = m].tree)]
NodeOf(T, p) == IF p \in DOMAIN T THEN T[p] ELSE Bare
Op(S, M) ==
  \/ e.e = "join" /\ Join(e.m)
  \/ e.e = "leave" /\ Leave(e.m)
  \/ e.e = "echo" /\ e.m = 0 /\ SetEcho(e.b)
  \/ e.e = "node" /\ Node(e.p)
  \/ e.e = "param" /\ Param(e.p, e.t, NodeOf(S, e.p))
  \/ e.e = "rmnode" /\ Remove(e.p)
  \/ e.e = "rename" /\ Rename(e.p, e.s)
  \/ e.e = "attr" /\ Attr(e.p, e.k, e.x, NodeOf(S, e.p))
  \/ e.e = "set" /\ e.m = 0 /\ SetServer(e.p, e.v, NodeOf(S, e.p).v)
  \/ e.e = "set" /\ e.m > 0 /\ SetMirror(e.m, e.p, e.v, NodeOf(M[e.m], e.p).v)
  \/ e.e \in {"listen", "unlisten"} /\ UNCHANGED qvars
  \/ e.e = "pull" /\ Pull(e.m, e.p, e.ok, NodeOf(M[e.m], e.p).v)
  \/ e.e = "update" /\ Update(e.m, e.p, M[e.m])
  \/ e.e = "addreq" /\ AskAdd(e.p, e.s)
  \/ e.e = "rmreq" /\ AskRemove(e.p)
  \/ e.e = "renreq" /\ AskRename(e.p, e.s)
  \/ e.e = "ask" /\ Answer(e.p, e.k, e.n, e.n2, e.full, e.kids, e.keys, e.whole, e.alone) /\ UNCHANGED qvars
  \/ e.e = "ws" /\ e.k = "PATH_ADDED" /\ ToldAdded(e.m, e.p, M[e.m])
  \/ e.e = "ws" /\ e.k = "PATH_REMOVED" /\ ToldRemoved(e.m, e.p)
  \/ e.e = "ws" /\ e.k = "PATH_RENAMED" /\ ToldRenamed(e.m, e.p, e.q)
  \/ e.e = "ws" /\ e.k = "ATTRIBUTES_CHANGED" /\ ToldAttr(e.m, e.p, e.x, M[e.m])
  \/ e.e \in {"ws", "udp"} /\ e.k = "VAL" /\ e.m > 0 /\ \E i \in 1..Len(due) : ValueAtMirror(e.m, e.p, e.e, i, NodeOf(M[e.m], e.p).v)
  \/ e.e \in {"ws", "udp"} /\ e.k = "VAL" /\ e.m = 0 /\ \E i \in 1..Len(due) : ValueAtServer(e.p, IF e.e = "ws" THEN e.from ELSE 0, e.e, i, NodeOf(S, e.p).v)
  \/ e.e = "settle" /\ Quiet /\ due' = <<>> /\ pend' = [m \in DOMAIN pend |-> <<>>] /\ UNCHANGED <<srv, mir, synced, heard, echo, stamp, shown, clock>>
Matches(S, M) ==
  /\ srv' = S /\ mir' = M
  /\ \A i \in 1..Len(e.srv) : ~ e.srv[i].z
  /\ e.e = "settle" => Converged
TInit == QInit /\ l = 1
Fresh == /\ srv' = Root /\ mir' = <<>> /\ synced' = {} /\ heard' = {} /\ pend' = <<>> /\ due' = <<>> /\ echo' = FALSE
         /\ stamp' = (<<>> :> 0) /\ shown' = <<>> /\ clock' = 1
Step == IF e.e = "Reset" THEN Fresh ELSE \E S \in {TLCEval(S1)}, M \in {TLCEval(M1)} : Op(S, M) /\ (Matches(S, M) = TRUE)
TNext == l <= Len(Trace) /\ Step /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<qvars, l>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
