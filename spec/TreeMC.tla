------------------------------- MODULE TreeMC -------------------------------
EXTENDS Tree, TLC, Json
CONSTANTS MaxNodes, MaxDepth, NameSet, MaxLen
VARIABLES hist, prev
Init == TreeInit("dev") /\ hist = <<>> /\ prev = <<{<<>>}, {}>>
\* one possible order: deepest first
Order(D) ==
  LET s == SetToSortSeq(D, LAMBDA x, y : Len(x) > Len(y)) IN
  FlattenSeq([i \in DOMAIN s |-> (IF s[i] \in par THEN << <<"pr", s[i]>> >> ELSE <<>>) \o << <<"nr", s[i]>> >>])
H(c) == hist' = Append(hist, c)
Paths == {p \in {<<x>> : x \in NameSet} \cup {<<x, y>> : x \in NameSet, y \in NameSet} : TRUE}
Next ==
  /\ Len(hist) < MaxLen /\ prev' = <<tree, par>>
  /\ \/ \E p \in tree : \/ \E n \in NameSet : \/ Len(p) < MaxDepth /\ CreateChild(p, n) /\ H(<<"create", p, n>>)
                                              \/ Len(p) < MaxDepth /\ AddChild(p, n) /\ H(<<"add", p, n>>)
                                              \/ RemoveChild(p, n, Order(Doomed(p, n))) /\ H(<<"rmname", p, n>>)
                        \/ p # <<>> /\ \E n \in NameSet : Rename(p, n) /\ H(<<"rename", p, n>>)
                        \/ p # <<>> /\ RemoveChild(Parent(p), Name(p), Order({p} \cup Below(p))) /\ H(<<"rm", p>>)
                        \/ Clear(p, Order(Below(p))) /\ H(<<"clear", p>>)
                        \/ CreateParam(p) /\ H(<<"cparam", p>>)
                        \/ RemoveParam(p) /\ H(<<"rparam", p>>)
                        \/ \E b \in BOOLEAN : SetParam(p, b) /\ H(<<"sparam", p, b>>)
     \/ \E q \in Paths, always \in BOOLEAN : Len(q) = 2 /\ Create(<<>>, q, always) /\ H(<<IF always THEN "cnode" ELSE "fnode", <<>>, q>>)
Small == Cardinality(tree) <= MaxNodes /\ Len(dev) < 9 /\ \A p \in tree : Len(p) <= MaxDepth
Spec == Init /\ [][Next]_<<tvars, hist, prev>>
View == <<tree, par, dev>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* the notifications mirror the tree
Mirror == Replay(prev[1], prev[2], log) = <<tree, par>>
=============================================================================
