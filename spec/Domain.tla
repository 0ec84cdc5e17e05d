------------------------------- MODULE Domain -------------------------------
(* Domains: what applying one does to a value, and how domains are made and
   changed.  A domain is a record
     k  : "NONE" (no domain), a value type, or "ANY" (domain_base<value>)
     mn, mx : the bounds.  Scalars: a value or NoVal.  LIST and VECnF: a LIST
          with NoVal where a component has no bound (a LIST may be shorter).
     vs : LIST of the accepted values; LIST and VECnF: LIST of one LIST per component *)
EXTENDS Value

Nil == List(<<>>)
D(k, mn, mx, vs) == [k |-> k, mn |-> mn, mx |-> mx, vs |-> vs]
NoDom == D("NONE", NoVal, NoVal, Nil)
Modes == {"FREE", "CLIP", "WRAP", "FOLD", "LOW", "HIGH"}
BoundedNum == {"INT", "FLOAT", "CHAR"}

-----------------------------------------------------------------------------
\* numbers (in quarters)
Wrap(q, lo, hi) == IF q >= lo /\ q < hi THEN q ELSE IF lo = hi THEN lo ELSE lo + ((q - lo) % (hi - lo))
Fold(q, lo, hi) ==
  IF q >= lo /\ q <= hi THEN q ELSE IF lo = hi THEN lo
  ELSE LET r == (q - lo) % (2 * (hi - lo)) IN IF r > hi - lo THEN lo + 2 * (hi - lo) - r ELSE lo + r
Clip(q, lo, hi) == IF q < lo THEN lo ELSE IF q > hi THEN hi ELSE q
\* mn, mx: values, NoVal where missing.  With a single bound only clipping means something.
BoundQ(b, q, mn, mx) ==
  LET has == mn.t # "NONE"  hasx == mx.t # "NONE"  lo == mn.q  hi == mx.q IN
  CASE b = "FREE" -> q
    [] has /\ hasx /\ b = "CLIP" -> Clip(q, lo, hi)
    [] has /\ hasx /\ b = "WRAP" -> Wrap(q, lo, hi)
    [] has /\ hasx /\ b = "FOLD" -> Fold(q, lo, hi)
    [] has /\ (b = "LOW" \/ (b = "CLIP" /\ ~hasx)) -> IF q < lo THEN lo ELSE q
    [] hasx /\ (b = "HIGH" \/ (b = "CLIP" /\ ~has)) -> IF q > hi THEN hi ELSE q
    [] OTHER -> q
InSet(v, l) == \E i \in 1..Len(l) : Cmp("eq", l[i], v)
\* bounds of the value's own type apply, others do not restrict it
BoundV(b, v, mn, mx) ==
  LET fits(m) == m.t = "NONE" \/ m.t = v.t
      used(m) == m.t # "NONE"
      \* the bounds that this mode looks at
      rel == IF b \in {"WRAP", "FOLD"} THEN (IF used(mn) /\ used(mx) THEN {mn, mx} ELSE {})
             ELSE IF b = "LOW" THEN {mn} ELSE IF b = "HIGH" THEN {mx} ELSE IF b = "CLIP" THEN {mn, mx} ELSE {}
  IN CASE IsNum(v) /\ (\A m \in rel : fits(m)) ->
            V(v.t, BoundQ(b, v.q, mn, mx), "", <<>>)
       [] IsVec(v) /\ (\A m \in rel : fits(m) \/ m.t = "FLOAT") /\
          (\A m, n \in rel : used(m) /\ used(n) => m.t = n.t) ->
            LET at(m, i) == IF m.t = v.t THEN m.l[i] ELSE m IN
            [v EXCEPT !.l = [i \in 1..Len(v.l) |-> Float4(BoundQ(b, v.l[i].q, at(mn, i), at(mx, i)))]]
       [] OTHER -> v

Comp(m, i) == IF i <= Len(m.l) THEN m.l[i] ELSE NoVal
\* a domain of any values
Generic(d, b, v) == IF d.vs.l # <<>> THEN (IF InSet(v, d.vs.l) THEN v ELSE NoVal) ELSE BoundV(b, v, d.mn, d.mx)
RECURSIVE Apply(_, _, _)
Apply(d, b, v) ==
  IF d.k = "NONE" \/ v.t = "NONE" \/ b = "FREE" THEN v
  ELSE CASE
    d.k = "ANY" -> IF v.t = "LIST" THEN List([i \in 1..Len(v.l) |-> Generic(d, b, v.l[i])]) ELSE Generic(d, b, v)
    \* a list in a domain of scalars: the elements of that type are restricted
    [] v.t = "LIST" /\ d.k \in Types \ (VecTypes \cup {"LIST"}) ->
       List([i \in 1..Len(v.l) |-> IF v.l[i].t = d.k THEN Apply(d, b, v.l[i]) ELSE v.l[i]])
    [] v.t = "LIST" /\ d.k = "LIST" ->
       List([i \in 1..Len(v.l) |-> IF Comp(d.vs, i).l # <<>> THEN (IF InSet(v.l[i], Comp(d.vs, i).l) THEN v.l[i] ELSE NoVal)
                                   ELSE IF v.l[i].t = "NONE" THEN NoVal ELSE BoundV(b, v.l[i], Comp(d.mn, i), Comp(d.mx, i))])
    [] IsVec(v) /\ (d.k = v.t \/ d.k = "LIST") ->
       IF \E i \in 1..Len(v.l) : Comp(d.vs, i).l # <<>> /\ ~InSet(v.l[i], Comp(d.vs, i).l) THEN NoVal
       ELSE LET n(m) == IF m.t = "NONE" THEN NoVal ELSE ConvNum(m, "FLOAT") IN
            [v EXCEPT !.l = [i \in 1..Len(v.l) |->
              IF Comp(d.vs, i).l # <<>> THEN v.l[i]
              ELSE Float4(BoundQ(b, v.l[i].q, n(Comp(d.mn, i)), n(Comp(d.mx, i))))]]
    [] IsVec(v) /\ d.k \in BoundedNum ->
       IF d.vs.l # <<>> THEN (IF \A i \in 1..Len(v.l) : InSet(v.l[i], d.vs.l) THEN v ELSE NoVal)
       ELSE [v EXCEPT !.l = [i \in 1..Len(v.l) |-> Float4(BoundQ(b, v.l[i].q, d.mn, d.mx))]]
    [] IsVec(v) /\ d.k = "BOOL" -> [v EXCEPT !.l = [i \in 1..Len(v.l) |-> Float4(IF v.l[i].q = 0 THEN 0 ELSE 4)]]
    [] v.t \in BoundedNum /\ d.k = v.t ->
       IF d.vs.l # <<>> THEN (IF InSet(v, d.vs.l) THEN v ELSE NoVal) ELSE V(v.t, BoundQ(b, v.q, d.mn, d.mx), "", <<>>)
    \* integers in a float domain and floats in an integer one
    [] v.t \in {"INT", "FLOAT"} /\ d.k \in {"INT", "FLOAT"} ->
       LET r == Apply(d, b, AsNum(d.k, v.q)) IN IF r.t = "NONE" THEN NoVal ELSE AsNum(v.t, r.q)
    [] v.t = "BOOL" /\ d.k = "BOOL" -> v
    [] v.t = "IMPULSE" /\ d.k = "IMPULSE" -> v
    [] v.t = "STRING" /\ d.k = "STRING" -> IF d.vs.l = <<>> \/ InSet(v, d.vs.l) THEN v ELSE NoVal
    \* a domain for another kind of values
    [] OTHER -> NoVal

-----------------------------------------------------------------------------
\* making and changing domains
NoneL(n) == List([i \in 1..n |-> NoVal])
Empties(n) == List([i \in 1..n |-> Nil])
Init(t) ==
  CASE t = "NONE" -> NoDom
    [] t = "BOOL" -> D("BOOL", BoolV(FALSE), BoolV(TRUE), Nil)
    [] t = "IMPULSE" -> D("IMPULSE", Impulse, Impulse, Nil)
    [] t = "LIST" -> D("LIST", Nil, Nil, Nil)
    [] t \in VecTypes -> D(t, NoneL(Size(t)), NoneL(Size(t)), Empties(Size(t)))
    [] OTHER -> D(t, NoVal, NoVal, Nil)
AsBound(k, v) == IF k \in VecTypes THEN List(v.l) ELSE v
NoBound(k) == IF k = "LIST" THEN Nil ELSE IF k \in VecTypes THEN NoneL(Size(k)) ELSE NoVal
Fixed == {"BOOL", "IMPULSE", "STRING"}
\* a bound of another type than the domain's removes the bound
NewBound(k, old, v) == IF k \in Fixed THEN old ELSE IF v.t # "NONE" /\ (v.t = k \/ k = "ANY") THEN AsBound(k, v) ELSE NoBound(k)
SetMin(d, v) == IF d.k = "NONE" THEN (IF v.t = "NONE" THEN d ELSE [Init(v.t) EXCEPT !.mn = NewBound(v.t, @, v)])
                ELSE [d EXCEPT !.mn = NewBound(d.k, @, v)]
SetMax(d, v) == IF d.k = "NONE" THEN (IF v.t = "NONE" THEN d ELSE [Init(v.t) EXCEPT !.mx = NewBound(v.t, @, v)])
                ELSE [d EXCEPT !.mx = NewBound(d.k, @, v)]
Filter(l, t) == SelectSeq(l, LAMBDA v : v.t = t)
SetValues(d, l) ==
  CASE d.k \in {"NONE", "BOOL", "IMPULSE"} -> d
    [] d.k = "ANY" -> [d EXCEPT !.vs = List(l)]
    [] d.k = "LIST" -> [d EXCEPT !.vs = List([i \in 1..Len(d.vs.l) |-> List(l)])]
    [] d.k \in VecTypes -> [d EXCEPT !.vs = List([i \in 1..Size(d.k) |-> List(Filter(l, "FLOAT"))])]
    [] OTHER -> [d EXCEPT !.vs = List(Filter(l, d.k))]
MinMax(mn, mx) == IF mn.t = mx.t THEN [Init(mn.t) EXCEPT !.mn = NewBound(mn.t, @, mn), !.mx = NewBound(mn.t, @, mx)] ELSE NoDom
Make(mn, mx, l) ==
  IF mn.t # "NONE" /\ mx.t # "NONE" THEN SetValues(MinMax(mn, mx), l)
  ELSE IF mn.t # "NONE" THEN SetValues(SetMax(MinMax(mn, mn), NoVal), l)
  ELSE IF mx.t # "NONE" THEN SetValues(SetMin(MinMax(mx, mx), NoVal), l)
  ELSE IF l # <<>> THEN SetValues(Init(l[1].t), l) ELSE NoDom
GetBound(d, m) == IF d.k \in VecTypes THEN (IF \A i \in 1..Len(m.l) : m.l[i].t # "NONE" THEN V(d.k, 0, "", m.l) ELSE NoVal) ELSE m
\* the domain kept when the type of the parameter becomes t
NumTo(t, v) == IF v.t = "NONE" THEN NoVal ELSE AsNum(t, v.q)
ConvDom(d, t) ==
  CASE d.k \in {"NONE", "ANY"} \cup VecTypes -> d
    [] d.k = "LIST" -> IF t \notin VecTypes THEN d ELSE
         LET c(m, i) == IF Comp(m, i).t = "NONE" THEN NoVal ELSE ConvNum(Comp(m, i), "FLOAT") IN
         D(t, List([i \in 1..Size(t) |-> c(d.mn, i)]), List([i \in 1..Size(t) |-> c(d.mx, i)]),
           List([i \in 1..Size(t) |-> List([j \in 1..Len(Comp(d.vs, i).l) |-> ConvNum(Comp(d.vs, i).l[j], "FLOAT")])]))
    [] d.k = "STRING" /\ t = "STRING" -> d
    [] d.k \in NumTypes /\ t \in BoundedNum ->
         D(t, NumTo(t, d.mn), NumTo(t, d.mx), List([i \in 1..Len(d.vs.l) |-> NumTo(t, d.vs.l[i])]))
    [] OTHER -> Init(t)

-----------------------------------------------------------------------------
\* what V02 says, for domains of the value's own type
Abs(n) == IF n < 0 THEN -n ELSE n
Bounds(d, i) == IF d.k \in VecTypes \cup {"LIST"} THEN <<Comp(d.mn, i), Comp(d.mx, i)>> ELSE <<d.mn, d.mx>>
InBounds(b, q, mn, mx) == /\ mn.t # "NONE" => q >= mn.q
                          /\ mx.t # "NONE" => q <= mx.q
                          \* wrapping is periodic: the maximum is the image of the minimum
                          /\ b = "WRAP" /\ mn.t # "NONE" /\ mx.t # "NONE" /\ mn.q < mx.q => q < mx.q
Ordered(mn, mx) == mn.t # "NONE" /\ mx.t # "NONE" => mn.q <= mx.q
Decides(b, mn, mx) == b = "CLIP" \/ (b \in {"WRAP", "FOLD"} /\ mn.t # "NONE" /\ mx.t # "NONE")
ScalarLaws(d, b, v) ==
  d.k = v.t /\ v.t \in BoundedNum => LET r == Apply(d, b, v) IN
    IF b = "FREE" THEN r = v
    ELSE IF d.vs.l # <<>> THEN r.t = "NONE" \/ InSet(r, d.vs.l)
    ELSE /\ Ordered(d.mn, d.mx) /\ Decides(b, d.mn, d.mx) => InBounds(b, r.q, d.mn, d.mx)
         /\ Ordered(d.mn, d.mx) /\ InBounds(b, v.q, d.mn, d.mx) => r = v
         /\ Ordered(d.mn, d.mx) => Apply(d, b, r) = r
         /\ Ordered(d.mn, d.mx) /\ b = "CLIP" /\ r # v => (d.mn.t # "NONE" /\ r.q = d.mn.q /\ v.q < r.q) \/ (d.mx.t # "NONE" /\ r.q = d.mx.q /\ v.q > r.q)
         /\ d.mn.t # "NONE" /\ d.mx.t # "NONE" /\ d.mn.q < d.mx.q =>
              /\ b = "WRAP" => (r.q - v.q) % (d.mx.q - d.mn.q) = 0
              /\ b = "FOLD" => LET p == 2 * (d.mx.q - d.mn.q) IN
                   (r.q - v.q) % p = 0 \/ (r.q + v.q - 2 * d.mn.q) % p = 0
\* vectors and lists: component by component
CompLaws(d, b, v) ==
  d.k = v.t /\ v.t \in VecTypes /\ (\A i \in 1..Len(v.l) : Comp(d.vs, i).l = <<>>) =>
    \A i \in 1..Len(v.l) : Apply(d, b, v).l[i] = Apply(D("FLOAT", Comp(d.mn, i), Comp(d.mx, i), Nil), b, v.l[i])
Untouched(d, b, v) == (b = "FREE" \/ d.k = "NONE") => Apply(d, b, v) = v
Idempotent(d, b, v) == (d.k = v.t /\ \A i \in 1..4 : Ordered(Bounds(d, i)[1], Bounds(d, i)[2])) => Apply(d, b, Apply(d, b, v)) = Apply(d, b, v)
=============================================================================
