-------------------------------- MODULE Expr --------------------------------
(* Expressions over parameters (ossia/editor/expression): evaluation, pulses, *)
(* updates and the callbacks which report the truth value.                    *)
(*                                                                            *)
(* An expression is a tree:  [k |-> "bool", b], [k |-> "atom", op, x, y] with *)
(* operands [k |-> "val", v] or [k |-> "dest", p, i] (i: component, 0: none), *)
(* [k |-> "pulse", p], [k |-> "not", x], [k |-> "and" / "or" / "xor", x, y].  *)
EXTENDS Value
LOCAL INSTANCE FiniteSets
CONSTANTS Params, Exprs, Start0(_)
VARIABLES vals,  \* parameter -> its value
          rem,   \* parameter -> what pulling it gives (NoVal: it stays as it is)
          ex,    \* expression -> its tree (NoEx: none)
          fired, \* expression -> the pulses (by number of the leaf) that are true
          cbs    \* expression -> the set of its callbacks
xvars == <<vals, rem, ex, fired, cbs>>
NoEx == [k |-> "none"]
XInit == /\ vals = [p \in Params |-> Start0(p)] /\ rem = [p \in Params |-> NoVal] /\ ex = [x \in Exprs |-> NoEx]
         /\ fired = [x \in Exprs |-> {}] /\ cbs = [x \in Exprs |-> {}]

\* the leaves from left to right
RECURSIVE Leaves(_)
Leaves(t) == CASE t.k \in {"bool", "atom", "pulse"} -> <<t>>
               [] t.k = "none" -> <<>>
               [] t.k = "not" -> Leaves(t.x)
               [] OTHER -> Leaves(t.x) \o Leaves(t.y)
\* the components of lists and vectors
Read(vs, o) == IF o.k = "val" THEN o.v ELSE IF o.i = 0 THEN vs[o.p] ELSE vs[o.p].l[o.i]
Holds(op, a, b) == IF op = "ne" THEN ~Cmp("eq", a, b) ELSE Cmp(op, a, b)
RECURSIVE EvalFrom(_, _, _, _)
\* n: number of leaves on the left of t;  f: the pulses that are true
EvalFrom(t, vs, f, n) ==
  CASE t.k = "bool" -> t.b
    [] t.k = "atom" -> Holds(t.op, Read(vs, t.x), Read(vs, t.y))
    [] t.k = "pulse" -> n + 1 \in f
    [] t.k = "not" -> ~EvalFrom(t.x, vs, f, n)
    [] OTHER -> LET a == EvalFrom(t.x, vs, f, n)  b == EvalFrom(t.y, vs, f, n + Len(Leaves(t.x))) IN
                CASE t.k = "and" -> a /\ b [] t.k = "or" -> a \/ b [] t.k = "xor" -> a # b
Eval(x) == EvalFrom(ex[x], vals, fired[x], 0)

\* how often the parameter p stands in the leaf
Uses(t, p) == IF t.k # "atom" THEN 0 ELSE (IF t.x.k = "dest" THEN IF t.x.p = p THEN 1 ELSE 0 ELSE 0) + (IF t.y.k = "dest" THEN IF t.y.p = p THEN 1 ELSE 0 ELSE 0)
PulsesIn(t, p) == {n \in 1..Len(Leaves(t)) : Leaves(t)[n].k = "pulse" /\ Leaves(t)[n].p = p}
Pulses(x, p) == PulsesIn(ex[x], p)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
AtomsIn(t, p) == Total([n \in 1..Len(Leaves(t)) |-> Uses(Leaves(t)[n], p)])
Atoms(x, p) == AtomsIn(ex[x], p)
\* callbacks that the parameter has: pulses listen always, atoms when somebody listens to their expression
ListenersOf(p, E, C) ==
  LET n(x) == Cardinality(PulsesIn(E[x], p)) + IF C[x] = {} THEN 0 ELSE AtomsIn(E[x], p)
      F[S \in SUBSET Exprs] == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN n(x) + F[S \ {x}] IN F[Exprs]

Of(rep, x, c) == LET s == SelectSeq(rep, LAMBDA r : r.x = x /\ r.c = c) IN [k \in 1..Len(s) |-> s[k].r]
\* the reports which parameter p causes in expression x with the new state: one for each use,
\* the last one true to the state (all of them if no pulse is involved)
Reported(r, x, p, vs, f) ==
  /\ Len(r) = Atoms(x, p) + Cardinality(Pulses(x, p))
  /\ LET v == EvalFrom(ex[x], vs, f[x], 0) IN
     /\ (r # <<>> => r[Len(r)] = v)
     /\ Pulses(x, p) = {} => \A k \in 1..Len(r) : r[k] = v
\* a parameter is given a value
Set(p, v, rep) ==
  /\ vals' = [vals EXCEPT ![p] = v]
  /\ fired' = [x \in Exprs |-> fired[x] \cup Pulses(x, p)]
  /\ (\A x \in Exprs : \A c \in cbs[x] : Reported(Of(rep, x, c), x, p, vals', fired')) = TRUE
  /\ \A k \in 1..Len(rep) : rep[k].c \in cbs[rep[k].x]
  /\ UNCHANGED <<rem, ex, cbs>>
Remote(p, v) == rem' = [rem EXCEPT ![p] = v] /\ UNCHANGED <<vals, ex, fired, cbs>>
Make(x, t) == /\ ex' = [ex EXCEPT ![x] = t] /\ fired' = [fired EXCEPT ![x] = {}] /\ cbs' = [cbs EXCEPT ![x] = {}]
              /\ UNCHANGED <<vals, rem>>
Listen(x, c) == cbs' = [cbs EXCEPT ![x] = @ \cup {c}] /\ UNCHANGED <<vals, rem, ex, fired>>
Unlisten(x, c) == cbs' = [cbs EXCEPT ![x] = @ \ {c}] /\ UNCHANGED <<vals, rem, ex, fired>>
\* Update: from left to right, the operands of an atom are pulled and pulses become false
Steps(t, n) == IF t.k = "pulse" THEN <<[k |-> "off", n |-> n]>>
               ELSE IF t.k # "atom" THEN <<>>
               ELSE (IF t.x.k = "dest" THEN <<[k |-> "pull", p |-> t.x.p]>> ELSE <<>>) \o (IF t.y.k = "dest" THEN <<[k |-> "pull", p |-> t.y.p]>> ELSE <<>>)
AllSteps(t) == LET L == Leaves(t)  F[n \in 0..Len(L)] == IF n = 0 THEN <<>> ELSE F[n - 1] \o Steps(L[n], n) IN F[Len(L)]
AfterStep(S, x, s) ==
  IF s.k = "off" THEN [S EXCEPT !.f[x] = @ \ {s.n}]
  ELSE IF rem[s.p] = NoVal THEN S
  ELSE [v |-> [S.v EXCEPT ![s.p] = rem[s.p]], f |-> [y \in Exprs |-> S.f[y] \cup Pulses(y, s.p)]]
After(x) == LET A == AllSteps(ex[x])
                F[n \in 0..Len(A)] == IF n = 0 THEN [v |-> vals, f |-> fired] ELSE AfterStep(F[n - 1], x, A[n]) IN F
Update(x, rep) ==
  LET A == AllSteps(ex[x])  F == After(x)
      Pull == SelectSeq([n \in 1..Len(A) |-> n], LAMBDA n : A[n].k = "pull" /\ rem[A[n].p] # NoVal) IN
  /\ vals' = F[Len(A)].v /\ fired' = F[Len(A)].f
  /\ UNCHANGED <<rem, ex, cbs>>
  /\ \A k \in 1..Len(rep) : rep[k].c \in cbs[rep[k].x]
  /\ (\A y \in Exprs : \A c \in cbs[y] :
       LET r == Of(rep, y, c)
           len(n) == Atoms(y, A[n].p) + Cardinality(Pulses(y, A[n].p))
           at[k \in 0..Len(Pull)] == IF k = 0 THEN 0 ELSE at[k - 1] + len(Pull[k]) IN
       /\ Len(r) = at[Len(Pull)]
       /\ \A k \in 1..Len(Pull) : Reported(SubSeq(r, at[k - 1] + 1, at[k]), y, A[Pull[k]].p, F[Pull[k]].v, F[Pull[k]].f)) = TRUE
\* two expressions are equal when they have the same structure and equal operands
SameOp(a, b) == a.k = b.k /\ IF a.k = "val" THEN Cmp("eq", a.v, b.v) ELSE a.p = b.p /\ a.i = b.i
RECURSIVE Equal(_, _)
Equal(s, t) == s.k = t.k /\ CASE s.k = "bool" -> s.b = t.b
                              [] s.k = "atom" -> s.op = t.op /\ SameOp(s.x, t.x) /\ SameOp(s.y, t.y)
                              [] s.k = "pulse" -> s.p = t.p
                              [] s.k = "not" -> Equal(s.x, t.x)
                              [] OTHER -> Equal(s.x, t.x) /\ Equal(s.y, t.y)
=============================================================================
