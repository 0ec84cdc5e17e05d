---------------------------- MODULE PatternTrace ----------------------------
EXTENDS Pattern, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
TInit == TreeInit("dev") /\ l = 1
Reset == e.e = "Reset" /\ tree' = {<<>>} /\ par' = {} /\ dev' = "dev" /\ log' = <<>>
\* the tree edits set the scene (they are checked by TreeTrace)
Setup == /\ e.e \notin {"Reset", "pat", "cnodes", "scope"}
         /\ tree' = {e.tree[i].p : i \in DOMAIN e.tree} /\ dev' = e.dev /\ UNCHANGED <<par, log>>
Exactly(seq, S) == Len(seq) = Cardinality(S) /\ ToSet(seq) = S
IsPattern(p) == (p.deep /\ p.dev = <<>>) \/ \E i \in 1..Len(Render(p)) : Ch(Render(p), i) \in {"?", "*", "[", "]", "{", "}", "!"}
Pat == /\ e.e = "pat"
       /\ e.pat = Render(e.ast)
       /\ e.ispat = IsPattern(e.ast)
       /\ LET S == Select(e.p, e.ast) IN
          /\ e.made
          /\ Exactly(e.app, S)
          /\ Exactly(e.match, S)
          /\ IsPattern(e.ast) => Exactly(e.ret, S)
          \* a plain address: the only node there is
          /\ ~IsPattern(e.ast) /\ e.ast.dev = <<>> /\ e.ast.parts # <<>> /\ (\A i \in DOMAIN e.ast.parts : ~IsUp(e.ast.parts[i])) => Exactly(e.ret, S)
Cnodes == /\ e.e = "cnodes"
          /\ LET m == Make(tree, e.p, XParts(e.ast.parts)) IN
             /\ e.pat = Render(e.ast)
             /\ e.ret = m.ret /\ tree' = m.tree
             /\ {e.tree[i].p : i \in DOMAIN e.tree} = m.tree
          /\ UNCHANGED <<par, dev, log>>
TNext == l <= Len(Trace) /\ (Reset \/ Setup \/ (Pat = TRUE /\ UNCHANGED tvars) \/ Cnodes) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, tvars>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
