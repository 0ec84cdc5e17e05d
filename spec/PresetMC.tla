------------------------------ MODULE PresetMC ------------------------------
EXTENDS Preset, TLC, Json
CONSTANT MaxLen
VARIABLES hist, saved, js2 \* the tree when each preset was taken
allvars == <<pvars, hist, saved, js2>>
MCNodes == << [n |-> "a", up |-> 0], [n |-> "b", up |-> 1], [n |-> "e", up |-> 0], [n |-> "e.0", up |-> 0] >>
X == V("INT", 20, "", <<>>)
F == V("FLOAT", 10, "", <<>>)
C == V("CHAR", 400, "", <<>>)
H(c) == hist' = Append(hist, c)
Keep == UNCHANGED <<saved, js2>>
Start0 == [i \in {1, 2, 3} |-> [Bare EXCEPT !.t = <<"INT", "LIST", "STRING">>[i], !.v = Zero(<<"INT", "LIST", "STRING">>[i])]]
MCInit == /\ tree = Start0 /\ slot = <<>> /\ js = <<>> /\ obs = Out(TRUE, <<>>, <<>>) /\ saved = <<>> /\ js2 = <<>>
          /\ hist = << <<"new", 1, "INT">>, <<"new", 2, "LIST">>, <<"new", 3, "STRING">> >>
MCNext ==
  /\ Len(hist) < MaxLen
  /\ \/ \E i \in 1..N :
          \/ ~Has(i) /\ New(i, "FLOAT") /\ H(<<"new", i, "FLOAT">>) /\ Keep
          \/ In(i) /\ Drop(i) /\ H(<<"drop", i>>) /\ Keep
          \/ Has(i) /\ tree[i].v # Convert(C, tree[i].t) /\ SetVal(i, C) /\ H(<<"set", i, C>>) /\ Keep
          \/ Has(i) /\ tree[i].acc = "BI" /\ SetAcc(i, "GET") /\ H(<<"access", i, "GET">>) /\ Keep
          \/ In(i) /\ ~tree[i].safe /\ SetSafe(i, TRUE) /\ H(<<"safe", i, 1>>) /\ Keep
          \/ In(i) /\ tree[i].pr = -1000 /\ SetPrio(i, i) /\ H(<<"prio", i, i>>) /\ Keep
     \/ \E n \in {0, 1} : (n = 0 \/ In(n)) /\ Make(1, n) /\ saved' = <<tree, n>> /\ js2' = js2 /\ H(<<"make", 1, n>>)
     \/ \E n \in {0, 1} : (n = 0 \/ In(n)) /\ MakeJson(1, n) /\ js2' = <<tree, n>> /\ saved' = saved /\ H(<<"makejson", 1, n>>)
     \/ \E n \in {0, 1} : (n = 0 \/ In(n)) /\ ApplyText(1, n) /\ H(<<"applytext", 1, n>>) /\ Keep
     \/ \E n \in {0, 1} : (n = 0 \/ In(n)) /\ 1 \in DOMAIN js /\ Keep /\ H(<<"applyjson", 1, n>>) /\ UNCHANGED <<slot, js>>
           /\ LET es == JsonWrites(1, n) IN obs' = Out(TRUE, <<>>, <<>>)
              /\ tree' = [i \in DOMAIN tree |-> LET m == {e \in es : i \in Find(n, e.k)} IN
                   IF m = {} THEN tree[i] ELSE [tree[i] EXCEPT !.v = CHOOSE y \in Written((CHOOSE e \in m : TRUE).v, i) : TRUE]]
     \/ \E b \in {FALSE, TRUE} : slot # <<>> /\ saved[2] = 0 /\ ApplyMemory(1, b, FALSE) /\ H(<<"applymem", 1, b>>) /\ Keep
     \/ \E b \in {FALSE, TRUE} : slot # <<>> /\ saved[2] = 0 /\ ApplyMemory(1, b, TRUE) /\ H(<<"applyleaf", 1, b>>) /\ Keep
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<tree, slot, js, saved, js2>>
Emit == PrintT("SCRIPT " \o ToJson(hist'))
-----------------------------------------------------------------------------
\* what was saved comes back in every parameter that is still the same and not
\* protected, whichever the way, and nothing else changes
Before0(s) == s[1]
Unsafe(n, i) == ~tree[i].safe
Restores == [][
  /\ (hist'[Len(hist')][1] = "applytext" /\ hist'[Len(hist')][3] = saved[2]) =>
       \A i \in DOMAIN tree : IF i \in DOMAIN saved[1] /\ Below(saved[2], i) /\ saved[1][i].t \notin {"NONE", "IMPULSE"} /\ saved[1][i].acc = "BI"
                                   /\ saved[1][i].t = tree[i].t /\ ~tree[i].safe
                               THEN tree'[i].v = saved[1][i].v
                               ELSE (i \in DOMAIN saved[1] /\ Has(i)) \/ tree'[i] = tree[i]
  /\ (hist'[Len(hist')][1] = "applyjson" /\ hist'[Len(hist')][3] = js2[2]) =>
       \A i \in DOMAIN tree : IF i \in DOMAIN js2[1] /\ Below(js2[2], i) /\ js2[1][i].t \notin {"NONE", "IMPULSE"} /\ js2[1][i].acc = "BI"
                                   /\ js2[1][i].t = tree[i].t /\ ~Shielded(js2[2], i)
                               THEN Alike(tree'[i].v, js2[1][i].v)
                               ELSE (i \in DOMAIN js2[1] /\ Has(i)) \/ tree'[i] = tree[i]
  /\ (hist'[Len(hist')][1] = "applymem" /\ obs'.ok) =>
       \A i \in DOMAIN saved[1] : (saved[1][i].t # "NONE" /\ saved[1][i].acc = "BI" /\ i \in DOMAIN tree /\ tree[i].t = saved[1][i].t)
                                    => tree'[i].v = saved[1][i].v \/ i = 3
  ]_allvars
=============================================================================
