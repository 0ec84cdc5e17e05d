----------------------------- MODULE PatternMC ------------------------------
EXTENDS Pattern, TLC, Json
CONSTANTS NameSet, MaxNodes, Deep
VARIABLES pat, hist
C(x) == [t |-> "c", x |-> x]
Qm == [t |-> "any"]
Star == [t |-> "star"]
Inst == [t |-> "inst"]
Cls(w, x) == [t |-> "cls", w |-> w, x |-> x]
Alt(o) == [t |-> "alt", o |-> o]
Rng(a, b, s) == [t |-> "rng", lo |-> a, hi |-> b, by |-> s]
Up == << [t |-> "up"] >>
P1 == {<<Star>>, <<C("a"), Star>>, <<C("a"), Inst>>, <<Qm>>, <<Qm, C("b")>>, <<C("a"), Qm, Qm>>,
       <<Cls("ab", "ab")>>, <<Cls("a-c", "abc"), Star>>, <<Star, C("1")>>, <<C("a"), C("."), Star>>,
       <<Alt(<<Toks("a"), Toks("ab")>>)>>, <<Alt(<<Toks("b"), <<C("a"), Qm>>>>), Inst>>,
       <<C("a"), C("."), Rng(0, 2, 1)>>, <<C("a"), C("."), Rng(3, 1, 2)>>, <<C("a"), C("."), Cls("1-3", "123")>>}
P2 == {<<C("a")>>, Up} \cup (IF Deep THEN P1 ELSE {<<Star>>, <<C("a"), Inst>>, <<Qm>>, <<C("a"), C("."), C("1")>>})
Parts == {<<x>> : x \in P1} \cup {<<x, y>> : x \in P1, y \in P2} \cup {<<x, y>> : x \in P2, y \in P1}
         \cup {<<x, Up, y>> : x \in P2, y \in P2} \cup {<<x>> : x \in P2} \cup {<<>>}
Pats == {[dev |-> d, deep |-> g, abs |-> TRUE, parts |-> p] : d \in {<<>>}, g \in BOOLEAN, p \in Parts \ {<<>>}}
        \cup {[dev |-> d, deep |-> g, abs |-> TRUE, parts |-> p] : d \in {Toks("dev"), <<C("d"), Star>>, <<C("x"), Star>>}, g \in BOOLEAN, p \in {<<x>> : x \in P1}}
        \cup {[dev |-> <<>>, deep |-> TRUE, abs |-> TRUE, parts |-> <<>>]}
AllPaths == {<<x>> : x \in NameSet} \cup {<<x, y>> : x \in NameSet, y \in NameSet}
Trees == {T \cup {<<>>} : T \in {U \in UNION {kSubset(k, AllPaths) : k \in 1..MaxNodes} :
                                  \A q \in U : Len(q) = 2 => <<q[1]>> \in U}}
None == [dev |-> <<>>, deep |-> FALSE, abs |-> FALSE, parts |-> <<>>]
Init == /\ tree \in Trees /\ par = {} /\ dev = "dev" /\ log = <<>> /\ pat = None
        /\ hist = <<>>
Mk == LET s == SetToSortSeq(tree \ {<<>>}, LAMBDA x, y : Len(x) < Len(y)) IN [i \in DOMAIN s |-> <<"cnode", <<>>, s[i]>>]
Next == pat = None /\ pat' \in Pats /\ UNCHANGED tvars
        /\ hist' = <<tree, pat'>>
Spec == Init /\ [][Next]_<<tvars, pat, hist>>
Emit == PrintT("SCRIPT " \o ToJson(<<Mk, Render(pat'), pat'>>))
\* laws
Sub == pat # None => Select(<<>>, pat) \subseteq tree
Literal == \* without special characters: at most the node with that address
  \A q \in tree \ {<<>>} : Select(<<>>, [dev |-> <<>>, deep |-> FALSE, abs |-> TRUE, parts |-> [i \in DOMAIN q |-> Toks(q[i])]]) = {q}
DeepMore == pat # None /\ pat.deep => Select(<<>>, [pat EXCEPT !.deep = FALSE]) \subseteq Select(<<>>, pat)
Everything == Select(<<>>, [dev |-> <<>>, deep |-> TRUE, abs |-> TRUE, parts |-> << <<Star>> >>]) = tree \ {<<>>}
=============================================================================
