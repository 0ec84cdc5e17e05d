------------------------------ MODULE MinuitMC -------------------------------
(* A mirror reads the namespace of a small server while values are set, every
   interleaving of deliveries. *)
EXTENDS Minuit, Json
CONSTANTS Trees, MaxEdits, Sample
VARIABLES hist, edits, upd, stale   \* upd: 0 before, 1 during, 2 after the update
H(c) == hist' = Append(hist, c)
I(n) == V("INT", 4 * n, "", <<>>)
Build(k) ==
  CASE k = 1 -> << <<"new", "/a", "INT">>, <<"new", "/a/b", "FLOAT">> >>
    [] k = 2 -> << <<"node", "/e">>, <<"new", "/c", "INT">> >>
    [] k = 3 -> << <<"new", "/g/h", "INT">>, <<"new", "/c", "STRING">> >>
    [] k = 4 -> << <<"new", "/g/h/i", "LIST">> >>
    [] k = 5 -> << <<"node", "/e/f">>, <<"node", "/g">> >>
RECURSIVE Built(_, _)
Built(d, l) == IF l = <<>> THEN d
  ELSE LET c == Head(l)  e == Ensure(d, c[2]) IN Built(IF c[1] = "node" THEN e ELSE [e EXCEPT !.T[c[2]] = MPar(c[3])], Tail(l))
MCInit == /\ OInit("old", FALSE) /\ way = << <<>>, <<>> >> /\ pulled = {} /\ edits = 0 /\ upd = 0 /\ stale = {}
          /\ \E k \in Trees : Dv = << TLCEval(Built(Fresh0, Build(k))), Fresh0 >> /\ hist = Build(k)
Live1 == {a \in DOMAIN Dv[1].T : Dv[1].T[a].live /\ Dv[1].T[a].t = "INT"}
Live2 == {a \in DOMAIN Dv[2].T : IsLive(Dv[2], a) /\ Dv[2].T[a].t = "INT"}
Plain(i) == \E k \in 1..Len(way[i]) : C(way[i][k].a, 1) = "/"
Edit == edits < MaxEdits /\ edits' = edits + 1
MCNext ==
  \/ upd = 0 /\ Update /\ upd' = 1 /\ UNCHANGED <<edits, stale>> /\ H(<<"update">>)
  \/ upd = 1 /\ Silent /\ Updated /\ upd' = 2 /\ UNCHANGED <<edits, stale>> /\ H(<<"flush">>)
  \/ Deliver(1) /\ UNCHANGED <<edits, upd, stale>> /\ H(<<"server">>)
  \/ Deliver(2) /\ UNCHANGED <<edits, upd, stale>> /\ H(<<"mirror">>)
  \/ \E a \in Live1 : Edit /\ ~Plain(1) /\ stale' = stale \ {a} /\ UNCHANGED upd /\ PushOn(1, a, I(edits + 1)) /\ H(<<"push", a, I(edits + 1)>>)
  \/ \E a \in Live2 : Edit /\ upd = 2 /\ Silent /\ stale' = stale \ {a} /\ UNCHANGED upd /\ PushOn(2, a, I(edits + 1)) /\ H(<<"pushm", a, I(edits + 1)>>)
  \/ \E a \in Live2 : Edit /\ upd = 2 /\ ~Plain(1) /\ a \notin pulled /\ stale' = stale \ {a} /\ UNCHANGED upd /\ Pull(a) /\ H(<<"pull", a>>)
  \/ \E a \in Live1 : Edit /\ upd = 2 /\ Silent /\ stale' = stale \cup {a} /\ UNCHANGED upd /\ Quietly(a, I(edits + 1)) /\ H(<<"quiet", a, I(edits + 1)>>)
MCSpec == MCInit /\ [][MCNext]_<<mvars, hist, edits, upd, stale>>
View == <<Dv, way, pulled, edits, upd, stale>>
\* (a quiet value reaches the mirror when it asks for it)
Converged == upd = 2 /\ Silent /\ stale = {} => Alike
Emit == IF upd' = 2 /\ Silent' /\ RandomElement(1..Sample) = 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
=============================================================================
