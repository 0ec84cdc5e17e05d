----------------------------- MODULE TreeTrace ------------------------------
EXTENDS Tree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
CONSTANTS Names01, Notes02      \* which property is checked
e == Trace[l]
TInit == TreeInit("dev") /\ l = 1
\* the notifications sent
Sent == [i \in DOMAIN e.log |-> <<e.log[i].k, e.log[i].p>> \o (IF e.log[i].k = "rn" THEN <<e.log[i].old>> ELSE <<>>)]
Act ==
  CASE e.e = "create" -> CreateChild(e.p, e.name)
    [] e.e = "add" -> AddChild(e.p, e.name)
    [] e.e = "cnode" -> Create(e.p, e.path, TRUE)
    [] e.e = "fnode" -> Create(e.p, e.path, FALSE)
    [] e.e = "rmname" -> IF Notes02 THEN RemoveChild(e.p, e.name, Sent) ELSE RemoveSet(Doomed(e.p, e.name)) /\ log' = Sent
    [] e.e = "rm" -> LET up == Parent(e.p) n == Name(e.p) IN
                     IF Notes02 THEN RemoveChild(up, n, Sent) ELSE RemoveSet(Doomed(up, n)) /\ log' = Sent
    [] e.e = "clear" -> IF Notes02 THEN Clear(e.p, Sent) ELSE RemoveSet(Below(e.p)) /\ log' = Sent
    [] e.e = "rename" -> Rename(e.p, e.name)
    [] e.e = "cparam" -> CreateParam(e.p)
    [] e.e = "rparam" -> RemoveParam(e.p)
    [] e.e = "sparam" -> SetParam(e.p, e.some)
\* what the operation returned: the path of the node concerned, <<"(none)">> without one
Answer ==
  CASE e.e = "create" -> e.ret = Append(e.p, Fresh(e.name, Names(tree, e.p)))
    [] e.e = "add" -> e.ret = IF Addable(e.p, e.name) THEN Append(e.p, e.name) ELSE <<"(none)">>
    [] e.e \in {"cnode", "fnode"} ->
         LET w == Walk(tree, e.p, e.path, e.e = "cnode") IN
         e.ret = IF w.made = <<>> THEN e.p \o e.path ELSE w.made[Len(w.made)]
    [] e.e = "rmname" -> e.ok = (Append(e.p, Clean(e.name)) \in tree)
    [] e.e = "rm" -> e.ok
    [] e.e = "rparam" -> e.ok = (e.p \in par)
    [] OTHER -> TRUE
NodesIn == {e.tree[i] : i \in DOMAIN e.tree}
Snapshot ==
  /\ {n.p : n \in NodesIn} = tree' /\ Len(e.tree) = Cardinality(tree')
  /\ e.dev = dev'
  /\ \A n \in NodesIn :
       /\ n.osc = Address(n.p)                            \* cached address
       /\ n.full = dev' \o ":" \o Address(n.p)
       /\ n.found                                         \* looking the address up gives this very node
       /\ n.name = (IF n.p = <<>> THEN dev' ELSE Name(n.p))
SnapPar == {n.p : n \in {x \in NodesIn : x.par}} = par'
Op == /\ e.e \notin {"Reset", "find", "inst"}
      /\ Act
      /\ Names01 => Snapshot /\ Answer
      /\ Notes02 => /\ log' = Sent
                    /\ {n.p : n \in NodesIn} = tree' /\ SnapPar
                    \* created things exist when announced, removed ones still do, and know their place
                    /\ \A i \in DOMAIN e.log : e.log[i].alive
                    \* every removed node said so itself, once
                    /\ e.gone = Cardinality(tree) - Cardinality(tree \cap tree') - (IF e.e = "rename" THEN Cardinality(tree \ tree') ELSE 0)
Query ==
  /\ UNCHANGED tvars
  /\ \/ e.e = "find" /\ e.ret = (IF e.p \o e.path \in tree THEN e.p \o e.path ELSE <<"(none)">>)
     \/ e.e = "inst" /\ e.ok = RootInstance(e.p) /\ e.child
Reset == e.e = "Reset" /\ tree' = {<<>>} /\ par' = {} /\ dev' = "dev" /\ log' = <<>>
TNext == l <= Len(Trace) /\ (Reset \/ Op \/ Query) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, tvars>>
Track == TLCSet(1, IF TLCGet("level") <= 1 \/ l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == IF TLCGet(1) > Len(Trace) THEN PrintT("VP_ACCEPTED")
            ELSE PrintT("VP_STUCK " \o ToString(TLCGet(1)))
=============================================================================
