------------------------------- MODULE Minuit --------------------------------
(* Minuit: two devices that answer each other's requests (?namespace, ?get),
   over two queues of datagrams.  Device 1 is the server (its name is srv),
   device 2 the mirror (mir); both run the same protocol.  The parameters, the
   encoding of values and what a value message does are those of Osc.tla. *)
EXTENDS Osc
VARIABLES Dv,      \* the devices: [T: path -> node, ord: order of creation, ns, gets: requests without an answer yet]
          way,    \* way[i]: the datagrams on their way to device i
          pulled  \* the addresses the mirror has pulled, until they are answered
mvars == <<ovars, Dv, way, pulled>>
Frame == UNCHANGED ovars

MPar(t) == [live |-> TRUE, t |-> t, v |-> Zero(t), prev |-> NoVal, dom |-> NoDom, bm |-> "FREE", acc |-> "BI", rep |-> FALSE,
            dis |-> FALSE, mut |-> FALSE, unit |-> "", blob |-> FALSE, cb |-> FALSE,
            ds |-> "", un |-> "", prio |-> -999, desc |-> "", step |-> -999]
MEmpty == [MPar("IMPULSE") EXCEPT !.live = FALSE]
Fresh0 == [T |-> <<>>, ord |-> <<>>, ns |-> {}, gets |-> {}]
Name(i) == IF i = 1 THEN "srv" ELSE "mir"
TextArg(s) == Arg("s", Str(s))
TextArgs(l) == [i \in 1..Len(l) |-> TextArg(l[i])]
MUp(a) == Join2(Parts(a), Len(Parts(a)) - 1)
Leaf(a) == Parts(a)[Len(Parts(a))]
\* the names of the children, in order of creation
Children(d, a) == LET up == IF a = "/" THEN "" ELSE a
                      l == SelectSeq(d.ord, LAMBDA p : MUp(p) = up)
                  IN [i \in 1..Len(l) |-> Leaf(l[i])]
RECURSIVE AddAll(_, _, _)
AddAll(d, a, n) ==
  IF n > Len(Parts(a)) THEN d
  ELSE LET p == Join2(Parts(a), n) IN
       AddAll(IF p \in DOMAIN d.T THEN d ELSE [d EXCEPT !.T = (p :> MEmpty) @@ @, !.ord = Append(@, p)], a, n + 1)
Ensure(d, a) == IF a = "/" THEN d ELSE AddAll(d, a, 1)

-----------------------------------------------------------------------------
\* texts of the protocol
TypeText(t) == CASE t = "IMPULSE" -> "none" [] t = "INT" -> "integer" [] t = "FLOAT" -> "decimal" [] t = "BOOL" -> "boolean"
                 [] t \in {"CHAR", "STRING"} -> "string" [] OTHER -> "array"
TypeOf(s) == CASE s = "none" -> "IMPULSE" [] s = "integer" -> "INT" [] s = "decimal" -> "FLOAT" [] s = "boolean" -> "BOOL"
               [] s = "string" -> "STRING" [] OTHER -> "LIST"
BoundText(b) == CASE b = "FREE" -> "none" [] b = "CLIP" -> "both" [] b = "WRAP" -> "wrap" [] b = "FOLD" -> "fold" [] b = "LOW" -> "low" [] OTHER -> "high"
BoundOf(s) == CASE s = "none" -> "FREE" [] s = "both" -> "CLIP" [] s = "wrap" -> "WRAP" [] s = "fold" -> "FOLD" [] s = "low" -> "LOW" [] OTHER -> "HIGH"
ServiceText(x) == CASE x = "BI" -> "parameter" [] x = "GET" -> "return" [] OTHER -> "message"
ServiceOf(s) == CASE s = "parameter" -> "BI" [] s = "return" -> "GET" [] OTHER -> "SET"
Attrs == << "type", "dataspace", "repetitionsFilter", "service", "priority", "value", "rangeBounds", "rangeClipmode", "dataspaceUnit" >>
Known == {Attrs[i] : i \in 1..Len(Attrs)} \cup {"description", "valueStepsize"}
Others == {"tags", "active", "valueDefault", "rampFunction", "rampDrive", "rampFunctionParameters"}

HasLimits(x) == x.dom.k \in {"INT", "FLOAT"} /\ x.dom.mn.t # "NONE" /\ x.dom.mx.t # "NONE"
\* the answer to a question about an attribute; <<>>: no answer, else << arguments >>
AttrAnswer(x, f) ==
  CASE f = "value" -> << Enc("old", x, x.v) >>
    [] f = "type" -> << << TextArg(TypeText(x.t)) >> >>
    [] f = "rangeBounds" -> << IF x.dom.k = "BOOL" THEN EncIn("old", "", BoolV(FALSE), 0) \o EncIn("old", "", BoolV(TRUE), 0)
                              ELSE IF HasLimits(x) THEN EncIn("old", "", x.dom.mn, 0) \o EncIn("old", "", x.dom.mx, 0) ELSE <<>> >>
    [] f = "rangeClipmode" -> << << TextArg(BoundText(x.bm)) >> >>
    [] f = "dataspace" -> << << TextArg(x.ds) >> >>
    [] f = "dataspaceUnit" -> << << TextArg(x.un) >> >>
    [] f = "repetitionsFilter" -> << << Arg("i", IntV(IF x.rep THEN 1 ELSE 0)) >> >>
    [] f = "service" -> << << TextArg(ServiceText(x.acc)) >> >>
    [] f = "priority" -> << << IF x.prio = -999 THEN Arg("i", IntV(0)) ELSE Arg("f", Float4(4 * x.prio)) >> >>
    [] f = "description" -> IF x.desc = "" THEN <<>> ELSE << << TextArg(x.desc) >> >>
    [] f = "valueStepsize" -> IF x.step = -999 THEN <<>> ELSE << << Arg("d", Float4(4 * x.step)) >> >>
    [] OTHER -> <<>>

Typed(x, t) == [x EXCEPT !.t = t, !.v = Zero(t), !.dom = IF @.k = "NONE" THEN @ ELSE ConvDom(@, t)]
\* what the answer about an attribute does to the parameter
WithUnit(x, ds, un) ==
  IF ds = "" THEN [x EXCEPT !.ds = "", !.un = ""]
  ELSE [x EXCEPT !.ds = ds, !.un = un, !.t = "FLOAT", !.v = Conv(@, "FLOAT", Zero("FLOAT")), !.dom = IF @.k = "NONE" THEN @ ELSE ConvDom(@, "FLOAT")]
Limits(x, args) ==
  LET n == [i \in 1..Len(args) |-> DecNum(args[i], x.t, x.v)] IN
  IF Len(args) = 2 THEN IF x.t = "IMPULSE" THEN Init(x.t) ELSE MinMax(n[1], n[2]) ELSE IF x.t = "IMPULSE" THEN NoDom ELSE Init(x.t)
Learnt(x, f, args) ==
  CASE f = "value" -> LET w == New(x, args) IN Stored(x, w)
    [] f = "type" -> Typed(x, TypeOf(args[1].v.s))
    [] f = "rangeBounds" -> [x EXCEPT !.dom = Limits(x, args)]
    [] f = "rangeClipmode" -> IF x.t = "BOOL" THEN x ELSE [x EXCEPT !.bm = BoundOf(args[1].v.s)]
    [] f = "dataspace" -> WithUnit(x, args[1].v.s, "")
    [] f = "dataspaceUnit" -> WithUnit(x, x.ds, args[1].v.s)
    [] f = "repetitionsFilter" -> [x EXCEPT !.rep = args[1].v.q # 0]
    [] f = "service" -> [x EXCEPT !.acc = ServiceOf(args[1].v.s)]
    [] f = "priority" -> [x EXCEPT !.prio = args[1].v.q \div 4]
    [] f = "description" -> [x EXCEPT !.desc = args[1].v.s]
    [] OTHER -> x

-----------------------------------------------------------------------------
\* what a datagram does to device i: [d: the device, out: what it sends to the other one]
Nothing(d) == [d |-> d, out |-> <<>>]
Reply(i, d, what, args) == [d |-> d, out |-> << Msg(Name(i) \o ":" \o what, args) >>]
IsLive(d, a) == a \in DOMAIN d.T /\ d.T[a].live
AttrList == << TextArg("attributes={") >> \o TextArgs(Attrs) \o << TextArg("}") >>
NodeList(d, a) == << TextArg("nodes={") >> \o TextArgs(Children(d, a)) \o << TextArg("}") >>
NsRequest(i, d, a) ==
  CASE a = "/" -> Reply(i, d, "namespace", << TextArg(a), TextArg("Application") >> \o NodeList(d, a) \o << TextArg("attributes={"), TextArg("}") >>)
    [] a # "/" /\ a \notin DOMAIN d.T -> Nothing(d)
    [] IsLive(d, a) -> Reply(i, d, "namespace", << TextArg(a), TextArg("Data") >> \o (IF Children(d, a) = <<>> THEN <<>> ELSE NodeList(d, a)) \o AttrList)
    [] OTHER -> Reply(i, d, "namespace", << TextArg(a), TextArg("Container") >> \o NodeList(d, a) \o << TextArg("attributes={"), TextArg("}") >>)
GetRequest(i, d, full) ==
  LET k == Find(full, ":", 1)
      a == IF k = 0 THEN full ELSE SubSeq(full, 1, k - 1)
      f == IF k = 0 THEN "value" ELSE Sub(full, k + 1)
  IN IF ~IsLive(d, a) THEN Nothing(d)
     ELSE LET r == AttrAnswer(d.T[a], f) IN IF r = <<>> THEN Nothing(d) ELSE Reply(i, d, "get", << TextArg(full) >> \o r[1])
ValueAnswer(i, d, full, args, get) ==
  LET k == Find(full, ":", 1)
      a == IF k = 0 THEN full ELSE SubSeq(full, 1, k - 1)
      f == IF k = 0 THEN "value" ELSE Sub(full, k + 1)
  IN IF f \notin Known \cup Others THEN Nothing(d)
     ELSE Nothing([d EXCEPT !.T = IF IsLive(d, a) THEN [@ EXCEPT ![a] = Learnt(@, f, args)] ELSE @,
                            !.gets = IF get THEN @ \ {full} ELSE @])
\* the elements between open and "}"
RECURSIVE Until(_)
Until(l) == IF l = <<>> \/ Head(l).v.s = "}" THEN <<>> ELSE << Head(l).v.s >> \o Until(Tail(l))
Between(args, open) == LET s == {i \in 1..Len(args) : args[i].g = "s" /\ args[i].v.s = open} IN
  IF s = {} THEN <<>> ELSE Until(SubSeq(args, (CHOOSE i \in s : \A j \in s : i <= j) + 1, Len(args)))
RECURSIVE Ask(_, _, _, _)
\* ask for each of the addresses, unless it is being asked already
Ask(i, r, what, l) ==
  IF l = <<>> THEN r
  ELSE LET a == Head(l)  new == IF what = "namespace" THEN a \notin r.d.ns ELSE a \notin r.d.gets IN
       Ask(i, IF ~new THEN r ELSE
              [d |-> IF what = "namespace" THEN [r.d EXCEPT !.ns = @ \cup {a}] ELSE [r.d EXCEPT !.gets = @ \cup {a}],
               out |-> Append(r.out, Msg(Name(i) \o "?" \o what, << TextArg(a) >>))], what, Tail(l))
Slash(a) == IF a = "/" THEN "/" ELSE a \o "/"
First(f) == f \in {"type", "dataspace"}
NsAnswer(i, d, a, kind, args) ==
  LET data == SubSeq(kind, 1, 1) = "D"
      d1 == Ensure(d, a)
      d2 == IF ~data \/ a = "/" THEN d1 ELSE [d1 EXCEPT !.T[a] = IF IsLive(d1, a) THEN Typed(@, "IMPULSE") ELSE MPar("IMPULSE")]
      nodes == Between(args, "nodes={")
      atts == Between(args, "attributes={")
      ask == SelectSeq(SelectSeq(atts, First) \o SelectSeq(atts, LAMBDA f : ~First(f)), LAMBDA f : f \in Known)
      r == Ask(i, Nothing(d2), "namespace", [k \in 1..Len(nodes) |-> Slash(a) \o nodes[k]])
      q == IF data THEN Ask(i, r, "get", [k \in 1..Len(ask) |-> a \o ":" \o ask[k]]) ELSE r
  IN [q EXCEPT !.d = [@ EXCEPT !.ns = @ \ {a}]]
Sep(a) == LET s == {k \in 1..Len(a) : C(a, k) \in {":", "?", "!"}} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A n \in s : k <= n
Handle(i, d, m) ==
  LET k == Sep(m.a)  c == C(m.a, k)  o == C(m.a, k + 1)  text == m.args # <<>> /\ m.args[1].g = "s" IN
  IF C(m.a, 1) = "/" THEN Nothing([d EXCEPT !.T = Recv(@, << m >>).r])
  ELSE IF k = 0 \/ k = Len(m.a) \/ o \notin {"n", "g", "l"} \/ ~text THEN Nothing(d)
  ELSE LET a == m.args[1].v.s IN
       CASE c = "?" /\ o = "n" -> NsRequest(i, d, a)
         [] c = "?" /\ o = "g" -> GetRequest(i, d, a)
         [] c = ":" /\ o \in {"g", "l"} -> ValueAnswer(i, d, a, Tail(m.args), o = "g")
         [] c = ":" /\ o = "n" -> IF Len(m.args) < 2 \/ m.args[2].g # "s" THEN Nothing(d) ELSE NsAnswer(i, d, a, m.args[2].v.s, Tail(m.args))
         [] c = "!" /\ o = "g" -> Nothing([d EXCEPT !.gets = @ \ {a}])
         [] OTHER -> Nothing(d)
Still == {a \in pulled : (a \o ":value") \in Dv'[2].gets}

\* out: the messages on their way to the other device, in the order they left
Take(i, r, w) == /\ Dv' = [Dv EXCEPT ![i] = r.d] /\ way' = [w EXCEPT ![3 - i] = @ \o r.out] /\ pulled' = Still /\ Frame
Deliver(i) == way[i] # <<>> /\ Take(i, Handle(i, Dv[i], Head(way[i])), [way EXCEPT ![i] = Tail(@)])
RawTo(i, m) == Take(i, Handle(i, Dv[i], m), way)
\* the user's operations
Do(i, d, out) == Take(i, [d |-> d, out |-> out], way)
NewPar(a, t) == LET d == Ensure(Dv[1], a) IN Do(1, [d EXCEPT !.T[a] = MPar(t)], <<>>)
NewMNode(a) == Do(1, Ensure(Dv[1], a), <<>>)
Without(d, a) == [d EXCEPT !.T = [n \in {n \in DOMAIN @ : ~IsUnder(n, a)} |-> @[n]], !.ord = SelectSeq(@, LAMBDA n : ~IsUnder(n, a))]
DropNode(a) == Do(1, Without(Dv[1], a), <<>>)
Cleared(d) == [d EXCEPT !.T = <<>>, !.ord = <<>>]
\* (a boolean has no bounds)
SetAttr(a, f, x) == Do(1, IF f = "bm" /\ Dv[1].T[a].t = "BOOL" THEN Dv[1] ELSE [Dv[1] EXCEPT !.T[a][f] = x], <<>>)
SetUnit(a, ds, un) == Do(1, [Dv[1] EXCEPT !.T[a] = WithUnit(@, ds, un)], <<>>)
Quietly(a, v) == Do(1, [Dv[1] EXCEPT !.T[a] = Stored(@, v)], <<>>)
PushOn(i, a, v) ==
  LET x == Stored(Dv[i].T[a], v)
      s == Send(a, x, x.v)
  IN Do(i, [Dv[i] EXCEPT !.T[a] = x], IF v.t = "NONE" \/ s = <<>> THEN <<>> ELSE << Msg(a, s[1][1].args) >>)
Update == LET r == Ask(2, Nothing(Cleared(Dv[2])), "namespace", <<"/">>) IN Take(2, r, way)
Updated == Do(2, [Dv[2] EXCEPT !.ns = {}, !.gets = {}], <<>>)
Pull(a) == LET r == Ask(2, Nothing(Dv[2]), "get", << a \o ":value" >>) IN
  /\ Dv' = [Dv EXCEPT ![2] = r.d] /\ way' = [way EXCEPT ![1] = @ \o r.out] /\ pulled' = pulled \cup {a} /\ Frame
Request(a) == Do(2, Dv[2], << Msg("mir?get", << TextArg(a \o ":value") >>) >>)
Observe(a, b) == Do(2, Dv[2], << Msg("mir?listen", << TextArg(a), TextArg(IF b THEN "enable" ELSE "disable") >>) >>)
MinuitInit == OInit("old", FALSE) /\ Dv = << Fresh0, Fresh0 >> /\ way = << <<>>, <<>> >> /\ pulled = {}

-----------------------------------------------------------------------------
\* K01.  The mirror describes the server: its nodes, and what the protocol tells about the parameters
Shown(x) == IF x.t \in VecTypes THEN List(x.v.l) ELSE x.v
Lim(x, hi) == IF HasLimits(x) THEN (IF hi THEN x.dom.mx.q ELSE x.dom.mn.q) ELSE -999999
Prio(x) == IF x.prio = -999 THEN 0 ELSE x.prio
SameParameter(x, y) ==
  /\ y.t = TypeOf(TypeText(x.t))
  /\ (x.t # "CHAR" => Same(Apply(x.dom, x.bm, Shown(x)), Apply(y.dom, y.bm, y.v)))
  /\ Lim(x, TRUE) = Lim(y, TRUE) /\ Lim(x, FALSE) = Lim(y, FALSE)
  /\ x.bm = y.bm /\ x.acc = y.acc /\ x.rep = y.rep /\ Prio(x) = Prio(y) /\ x.ds = y.ds /\ x.un = y.un
Alike == /\ DOMAIN Dv[1].T = DOMAIN Dv[2].T
         /\ \A a \in DOMAIN Dv[1].T : LET x == Dv[1].T[a]  y == Dv[2].T[a] IN x.live = y.live /\ (x.live => SameParameter(x, y))
\* nothing is left to be said
Silent == way = << <<>>, <<>> >> /\ Dv[2].ns = {} /\ Dv[2].gets = {}
\* a request stays pending only as long as it or its answer is on the way
Asked(m, what, a) == Len(m.args) >= 1 /\ m.args[1].g = "s" /\ m.args[1].v.s = a /\ m.a \in {"mir?" \o what, "srv:" \o what}
UnderWay == /\ \A a \in Dv[2].ns : \E i \in 1..2 : \E k \in 1..Len(way[i]) : Asked(way[i][k], "namespace", a)
            /\ \A a \in Dv[2].gets : \E i \in 1..2 : \E k \in 1..Len(way[i]) : Asked(way[i][k], "get", a)
Closed == \A i \in 1..2 : {Dv[i].ord[k] : k \in 1..Len(Dv[i].ord)} = DOMAIN Dv[i].T
=============================================================================
