----------------------------- MODULE StateMerge -----------------------------
(* ossia::state: elements added, flattened, merged, removed and launched.
   An element is a record of uniform shape
     k : "msg" (a value, whole or at an index), "pw" (some elements of a list),
         "vec" (some components of a vector) or "st" (a nested state),
     p : the parameter, i : the index (empty: the whole value), v : the value,
     u : the components used (vec), c : the children (st).
   Launching an element writes its parameter; launching a state launches its
   elements in order.  st[s] holds, in order, all that went into the state s:
   flattening and merging may change how a state is represented, never what
   launching it leaves in the parameters (the representation is below, Rep). *)
EXTENDS Value, FiniteSets, TLC
CONSTANTS Params, States, Start0(_)
VARIABLES vals, st
svars == <<vals, st>>

El(k, p, i, v, u, c) == [k |-> k, p |-> p, i |-> i, v |-> v, u |-> u, c |-> c]
Msg(p, i, v) == El("msg", p, i, v, <<>>, <<>>)
Pw(p, l) == El("pw", p, <<>>, List(l), <<>>, <<>>)
PVec(p, v, u) == El("vec", p, <<>>, v, u, <<>>)
Nested(c) == El("st", 0, <<>>, NoVal, <<>>, c)

\* one value over another: no value leaves what is there, lists go element by
\* element, a single value goes in the first element of a list
RECURSIVE Over(_, _), OverCells(_, _)
At(l, n) == IF n <= Len(l) THEN l[n] ELSE NoVal
Longest(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
OverCells(a, b) == TLCEval([n \in 1..Longest(a, b) |-> Over(At(a, n), At(b, n))])
Over(d, s) ==
  IF d = NoVal THEN s ELSE IF s = NoVal THEN d
  ELSE IF d.t = "LIST" THEN List(OverCells(d.l, IF s.t = "LIST" THEN s.l ELSE <<s>>))
  ELSE IF s.t = "LIST" THEN d ELSE s
\* a value at an index of a list, which grows as needed
RECURSIVE Insert(_, _, _)
Insert(l, v, i) ==
  LET n == i[1] + 1
      g == TLCEval([k \in 1..(IF Len(l) > n THEN Len(l) ELSE n) |-> At(l, k)])
  IN IF Len(i) = 1 THEN [g EXCEPT ![n] = Over(@, v)]
     ELSE [g EXCEPT ![n] = List(Insert(IF @.t = "LIST" THEN @.l ELSE <<@>>, v, Tail(i)))]
Comp(v, n) == IF IsVec(v) THEN v.l[n] ELSE v

\* what launching an element (not a nested state) leaves in its parameter
Effect(cur, e) == TLCEval(
  IF e.k = "msg" /\ e.i = <<>> THEN e.v
  ELSE IF IsVec(cur)
       THEN IF e.k = "vec" THEN [cur EXCEPT !.l = [n \in 1..Len(@) |-> IF e.u[n] THEN e.v.l[n] ELSE @[n]]]
            ELSE IF e.i[1] < Len(cur.l) THEN [cur EXCEPT !.l[e.i[1] + 1] = Comp(e.v, e.i[1] + 1)] ELSE cur
       ELSE LET l == IF cur.t = "LIST" THEN cur.l ELSE <<cur>>
                r == IF e.k = "pw" THEN OverCells(l, e.v.l) ELSE Insert(l, e.v, e.i)
            IN IF cur.t = "LIST" THEN List(r) ELSE r[1])

RECURSIVE Flat(_), Writes(_, _)
Flat(es) == IF es = <<>> THEN <<>>
            ELSE (IF Head(es).k = "st" THEN Flat(Head(es).c) ELSE <<Head(es)>>) \o Flat(Tail(es))
\* the writes of a launch: <<[p, v], ...>>
Writes(vs, es) == IF es = <<>> THEN <<>>
                  ELSE LET e == Head(es)  w == TLCEval(Effect(vs[e.p], e))
                       IN <<[p |-> e.p, v |-> w]>> \o Writes(TLCEval([vs EXCEPT ![e.p] = w]), Tail(es))
RECURSIVE After(_, _)
After(vs, es) == IF es = <<>> THEN vs ELSE After(TLCEval([vs EXCEPT ![Head(es).p] = Effect(@, Head(es))]), Tail(es))
On(es, p) == SelectSeq(es, LAMBDA e : e.p = p)
Named(es) == {es[n].p : n \in DOMAIN es}

\* how a state came about: added to only, merged only, or with flattened elements
Empty == [els |-> <<>>, mode |-> "raw"]
SInit == vals = [p \in Params |-> Start0(p)] /\ st = [s \in States |-> Empty]
Put(s, x) == st' = [st EXCEPT ![s] = x] /\ UNCHANGED vals
Write(p, v) == vals' = [vals EXCEPT ![p] = v] /\ UNCHANGED st
Add(s, e) == Put(s, [els |-> Append(st[s].els, e), mode |-> IF st[s].mode = "raw" THEN "raw" ELSE "mixed"])
NewMode(s, m) == IF st[s].els = <<>> THEN m ELSE IF st[s].mode = m THEN m ELSE "mixed"
\* m: "merged" or "filtered"
Merge(s, e, m) == LET f == Flat(<<e>>) IN
  Put(s, IF f = <<>> THEN st[s] ELSE [els |-> Flat(st[s].els) \o f, mode |-> NewMode(s, m)])
Remove(s, e) == st[s].mode = "raw" /\ Put(s, [st[s] EXCEPT !.els = SelectSeq(@, LAMBDA x : x # e)])
Clear(s) == Put(s, Empty)
Copy(s, t) == Put(s, st[t])
\* what a launch reports: every write in order; a merged state writes every
\* parameter once
Reported(s, w) ==
  LET f == Flat(st[s].els)  a == After(vals, f)
      Last(p) == LET o == On(w, p) IN o # <<>> /\ o[Len(o)].v = a[p]
  IN IF st[s].mode = "raw" THEN w = Writes(vals, f)
     ELSE /\ Named(w) = Named(f) /\ \A p \in Named(f) : Last(p)
          /\ (st[s].mode = "merged" => Len(w) = Cardinality(Named(f)))
          /\ \A p \in Named(f) : Len(On(w, p)) <= Len(On(f, p))
Launch(s, w) == (Reported(s, w) = TRUE) /\ vals' = After(vals, Flat(st[s].els)) /\ UNCHANGED st
SizeOk(x, n) ==
  CASE x.mode = "raw" -> n = Len(x.els)
    [] x.mode = "merged" -> n = Cardinality(Named(Flat(x.els)))
    [] OTHER -> n >= Cardinality(Named(Flat(x.els))) /\ n <= Len(Flat(x.els))

-----------------------------------------------------------------------------
(* The representation of a flattened state, on one parameter: the elements
   left by merging e in the elements r (the last one of which takes it). *)
Cells(v) == IF v.t = "LIST" THEN v.l ELSE <<v>>
VecOf(e, n) == [k \in 1..n |-> IF e.i = <<>> THEN e.u[k] ELSE e.i[1] + 1 = k]
AsVec(e, n) == PVec(e.p, [t |-> IF n = 2 THEN "VEC2F" ELSE IF n = 3 THEN "VEC3F" ELSE "VEC4F", q |-> 0, s |-> "",
                          l |-> [k \in 1..n |-> IF e.k = "vec" THEN e.v.l[k] ELSE IF e.i[1] + 1 = k THEN Comp(e.v, k) ELSE Float4(0)]], VecOf(e, n))
Both(a, b, cur, m) ==
  IF IsVec(cur)
  THEN IF b.k = "msg" /\ b.i = <<>> THEN <<b>>
       ELSE IF a.k = "msg" /\ a.i = <<>> THEN <<[a EXCEPT !.v = Effect(@, b)]>>
       ELSE LET n == Len(cur.l)  x == AsVec(a, n)  y == AsVec(b, n) IN
            <<[x EXCEPT !.v = Effect(@, y), !.u = [k \in 1..n |-> x.u[k] \/ y.u[k]]]>>
  ELSE IF a.k = "msg" /\ a.i = <<>>
       THEN IF b.k = "msg" /\ b.i = <<>> THEN (IF m = "merged" THEN <<b>> ELSE <<a, b>>)
            ELSE IF a.v.t = "LIST" THEN <<[a EXCEPT !.v = Effect(@, b)]>>
            ELSE <<Pw(a.p, IF b.k = "pw" THEN OverCells(<<a.v>>, b.v.l) ELSE Insert(<<a.v>>, b.v, b.i))>>
       ELSE LET l == IF a.k = "pw" THEN a.v.l ELSE Insert(<<>>, a.v, a.i) IN
            IF b.k = "pw" THEN <<Pw(a.p, OverCells(l, b.v.l))>>
            ELSE IF b.i # <<>> THEN <<Pw(a.p, Insert(l, b.v, b.i))>>
            ELSE IF b.v.t = "LIST" THEN <<b>>
            ELSE <<Pw(a.p, OverCells(l, <<b.v>>))>>
MergeRep(r, e, cur, m) == IF r = <<>> THEN <<e>> ELSE SubSeq(r, 1, Len(r) - 1) \o Both(r[Len(r)], e, cur, m)
RECURSIVE Rep(_, _, _)
Rep(es, cur, m) == IF es = <<>> THEN <<>> ELSE MergeRep(Rep(SubSeq(es, 1, Len(es) - 1), cur, m), es[Len(es)], cur, m)
\* merging is faithful: whatever the parameter holds (of the shapes Cur)
Faithful(es, Cur, m) == \A v \in Cur : LET vs == [p \in {es[1].p} |-> v] IN After(vs, Rep(es, v, m)) = After(vs, es)
=============================================================================
