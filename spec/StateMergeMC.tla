---------------------------- MODULE StateMergeMC -----------------------------
EXTENDS StateMerge, Json
CONSTANTS MaxLen
VARIABLES hist, fam
mvars == <<svars, hist, fam>>
I(n) == IntV(n)
Sub(a, b) == List(<<I(a), I(b)>>)
MStart(p) == CASE p = 1 -> I(0) [] p = 4 -> List(<<I(0), Sub(0, 0), I(0)>>) [] p = 5 -> Vec(<<0, 0>>)
Els(p) == CASE p = 1 -> {Msg(1, <<>>, I(1)), Msg(1, <<0>>, I(2)), Msg(1, <<1>>, I(3)), Pw(1, <<NoVal, I(4)>>), Pw(1, <<I(5), I(6)>>)}
            [] p = 4 -> {Msg(4, <<>>, List(<<I(1)>>)), Msg(4, <<>>, List(<<I(2), Sub(3, 4)>>)), Msg(4, <<0>>, I(5)), Msg(4, <<1, 0>>, I(6)),
                         Msg(4, <<1, 1>>, I(7)), Msg(4, <<3>>, I(8)), Pw(4, <<NoVal, Sub(7, 8)>>), Pw(4, <<I(9)>>)}
            [] p = 5 -> {Msg(5, <<>>, Vec(<<4, 8>>)), Msg(5, <<0>>, Float4(12)), Msg(5, <<1>>, Vec(<<16, 20>>)), Msg(5, <<1>>, Float4(24)),
                         Msg(5, <<2>>, Float4(28)), PVec(5, Vec(<<32, 36>>), <<FALSE, TRUE>>)}
Curs(p) == CASE p = 1 -> {I(0), I(-1)} [] p = 4 -> {MStart(4), List(<<>>), List(<<I(-1)>>), List(<<I(-1), Sub(-2, -3)>>)} [] p = 5 -> {Vec(<<0, -4>>)}
RECURSIVE Toks(_)
Toks(e) == CASE e.k = "msg" -> <<"msg", e.p, Len(e.i)>> \o e.i \o <<e.v>>
             [] e.k = "pw" -> <<"pw", e.p, e.v>>
             [] e.k = "vec" -> <<"vec", e.p, IF e.u[1] THEN 1 ELSE 0, IF e.u[2] THEN 1 ELSE 0, e.v>>
H(x) == hist' = Append(hist, x)
MCInit == SInit /\ hist = <<>> /\ fam \in {<<p, m>> : p \in Params, m \in {"merged", "filtered"}}
Op == IF fam[2] = "merged" THEN "merge" ELSE "filter"
MCNext ==
  /\ Len(hist) < MaxLen /\ UNCHANGED fam
  /\ \/ \E s \in States, e \in Els(fam[1]) : Merge(s, e, fam[2]) /\ H(<<Op, s, "c">> \o Toks(e))
     \/ \E e \in Els(fam[1]) : st[1].els # <<>> /\ Merge(1, e, fam[2]) /\ H(<<Op, 1, "m">> \o Toks(e))
     \/ st[1].els # <<>> /\ st[2].els # <<>> /\ Merge(1, Nested(st[2].els), fam[2]) /\ H(<<Op \o "st", 1, 2, "c">>)
     \/ st[1].els # <<>> /\ Launch(1, IF st[1].mode = "merged" THEN LET a == After(vals, st[1].els) IN <<[p |-> fam[1], v |-> a[fam[1]]]>>
                                        ELSE Writes(vals, st[1].els)) /\ H(<<"launch", 1>>)
View == <<svars, fam, Len(hist)>>
Emit == hist' = hist \/ hist'[Len(hist')][1] # "launch" \/ PrintT("SCRIPT " \o ToJson(hist'))
Merging == \A s \in States : st[s].els = <<>> \/ Faithful(st[s].els, Curs(fam[1]), fam[2])
OneEach == \A s \in States : st[s].mode = "merged" => Len(Rep(st[s].els, MStart(fam[1]), "merged")) <= 1
=============================================================================
