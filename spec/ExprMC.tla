------------------------------- MODULE ExprMC --------------------------------
EXTENDS Expr, TLC, Json, FiniteSets
CONSTANTS MaxLen, Big
VARIABLES hist, known
mvars == <<xvars, hist, known>>
N(p, n) == IF p = 1 THEN IntV(n) ELSE Float4(4 * n)
MStart(p) == N(p, 0)
D(p) == [k |-> "dest", p |-> p, i |-> 0]
A(op, x, y) == [k |-> "atom", op |-> op, x |-> x, y |-> y]
One == [k |-> "val", v |-> IntV(1)]
L0 == {A("eq", D(1), One), A("lt", D(1), D(2)), [k |-> "pulse", p |-> 1]} \cup (IF Big THEN {A("ne", D(2), D(2)), [k |-> "pulse", p |-> 2], [k |-> "bool", b |-> TRUE]} ELSE {})
Nots(S) == {[k |-> "not", x |-> t] : t \in S}
Trees == L0 \cup Nots(L0) \cup [k : {"and", "or", "xor"}, x : L0, y : L0 \cup (IF Big THEN Nots(L0) ELSE {})]
OpTok(o) == IF o.k = "val" THEN <<"v", o.v>> ELSE <<"d", o.p, o.i>>
RECURSIVE Toks(_)
Toks(t) == CASE t.k = "bool" -> <<IF t.b THEN "T" ELSE "F">>
             [] t.k = "pulse" -> <<"P", t.p>>
             [] t.k = "atom" -> <<"A", t.op>> \o OpTok(t.x) \o OpTok(t.y)
             [] t.k = "not" -> <<"N">> \o Toks(t.x)
             [] OTHER -> <<t.k>> \o Toks(t.x) \o Toks(t.y)
RECURSIVE Copies(_, _)
Copies(n, r) == IF n = 0 THEN <<>> ELSE Append(Copies(n - 1, r), r)
Reps(p, vs, f) == Copies(IF cbs[1] = {} THEN 0 ELSE Atoms(1, p) + Cardinality(Pulses(1, p)), [x |-> 1, c |-> 1, r |-> EvalFrom(ex[1], vs, f[1], 0)])
H(x) == hist' = Append(hist, x)
MSet(p, v) == LET vs == [vals EXCEPT ![p] = v]  f == [x \in Exprs |-> fired[x] \cup Pulses(x, p)]  r == Reps(p, vs, f) IN
              Set(p, v, r) /\ known' = IF r = <<>> THEN known ELSE IF r[1].r THEN "T" ELSE "F"
MUpdate == LET S == AllSteps(ex[1])  F == After(1)
               R[n \in 0..Len(S)] == IF n = 0 THEN <<>> ELSE IF S[n].k = "pull" /\ rem[S[n].p] # NoVal THEN R[n - 1] \o Reps(S[n].p, F[n].v, F[n].f) ELSE R[n - 1]
               r == R[Len(S)] IN
           /\ Update(1, r)
           /\ known' = IF \E n \in 1..Len(S) : S[n].k = "off" THEN "?" ELSE IF r = <<>> THEN known ELSE IF r[Len(r)].r THEN "T" ELSE "F"
MCInit == XInit /\ hist = <<>> /\ known = "?"
MCNext ==
  \/ hist = <<>> /\ \E t \in Trees : Make(1, t) /\ H(<<"make", 1>> \o Toks(t)) /\ UNCHANGED known
  \/ /\ hist # <<>> /\ Len(hist) < MaxLen
     /\ \/ \E p \in Params, n \in 0..1 : MSet(p, N(p, n)) /\ H(<<"set", p, N(p, n)>>)
        \/ \E p \in Params : rem[p] = NoVal /\ Remote(p, N(p, 1)) /\ H(<<"remote", p, N(p, 1)>>) /\ UNCHANGED known
        \/ cbs[1] = {} /\ Listen(1, 1) /\ H(<<"cb", 1, 1>>) /\ known' = "?"
        \/ cbs[1] # {} /\ Unlisten(1, 1) /\ H(<<"uncb", 1, 1>>) /\ known' = "?"
        \/ MUpdate /\ H(<<"update", 1>>)
MCSpec == MCInit /\ [][MCNext]_mvars
View == <<xvars, known, Len(hist)>>
Emit == hist' = hist \/ PrintT("SCRIPT " \o ToJson(hist'))
\* who follows the reports knows the truth value, until pulses are reset
Known == known = "?" \/ (known = "T") = Eval(1)
Fired == fired[1] \subseteq {n \in 1..Len(Leaves(ex[1])) : Leaves(ex[1])[n].k = "pulse"}
=============================================================================
