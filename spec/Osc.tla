-------------------------------- MODULE Osc ---------------------------------
(* OSC: two devices; what is pushed on the first one travels to the second one
   as packets of typed messages.  The receiver finds the parameters by address
   or pattern, converts the arguments to their type and bounds the result.
   A node is a path (text); an argument of a message is [g : type tag, v : value]. *)
EXTENDS Domain, TLC
LOCAL INSTANCE FiniteSets
VARIABLES snd,    \* path -> parameter, on the sending device
          rcv,    \* path -> node (maybe without a parameter), on the receiving device
          cfg,    \* [ver, client]: the version of OSC, and whether GET parameters may not be sent
          learn,  \* the receiver is learning
          obs     \* what the last operation sent, and what it did at the receiver
ovars == <<snd, rcv, cfg, learn, obs>>
Vers == {"old", "1.0", "1.1", "ext"}

Par(t) == [live |-> TRUE, t |-> t, v |-> Zero(t), prev |-> NoVal, dom |-> NoDom, bm |-> "FREE", acc |-> "BI", rep |-> FALSE,
           dis |-> FALSE, mut |-> FALSE, unit |-> "", blob |-> FALSE, cb |-> FALSE]
Empty == [Par("IMPULSE") EXCEPT !.live = FALSE]
Arg(g, v) == [g |-> g, v |-> v]
Tag(g) == Arg(g, NoVal)
Msg(a, args) == [a |-> a, args |-> args]
MsgV(a, args, v) == [a |-> a, args |-> args, v |-> v]
Quiet == [sent |-> <<>>, vals |-> <<>>, ok |-> TRUE, got |-> <<>>, unh |-> <<>>]

-----------------------------------------------------------------------------
\* the arguments that carry a value
Q(t, q) == V(t, q, "", <<>>)
Floats(v) == [i \in 1..Len(v.l) |-> Arg("f", v.l[i])]
Int8(q) == LET n == Trunc4(q) IN n
RECURSIVE EncIn(_, _, _, _), Flat(_, _, _, _)
EncIn(ver, unit, v, depth) ==
  CASE v.t = "INT" -> << Arg("i", v) >>
    [] v.t = "FLOAT" -> << Arg("f", v) >>
    [] v.t = "STRING" -> << Arg("s", v) >>
    [] v.t = "BOOL" -> IF ver \in {"old", "1.0"} THEN << Arg("i", Q("INT", v.q)) >> ELSE << Tag(IF v.q = 0 THEN "F" ELSE "T") >>
    [] v.t = "CHAR" -> IF ver = "ext" THEN << Arg("c", v) >> ELSE << Arg("i", Q("INT", v.q)) >>
    [] v.t = "IMPULSE" -> IF ver \in {"old", "1.0"} THEN << Arg("i", IntV(0)) >> ELSE << Tag("I") >>
    [] v.t \in VecTypes ->
         (CASE ver = "ext" /\ v.t = "VEC4F" /\ unit = "color.rgba8" -> << Arg("r", Vec([i \in 1..4 |-> Int8(v.l[i].q)])) >>
            [] ver = "ext" /\ depth > 0 -> << Tag("[") >> \o Floats(v) \o << Tag("]") >>
            [] OTHER -> Floats(v))
    [] v.t = "LIST" -> IF ver = "ext" /\ depth > 0 THEN << Tag("[") >> \o Flat(ver, unit, v.l, depth + 1) \o << Tag("]") >>
                       ELSE Flat(ver, unit, v.l, depth + 1)
    [] v.t = "NONE" -> <<>>
Flat(ver, unit, l, depth) == IF l = <<>> THEN <<>> ELSE EncIn(ver, unit, Head(l), depth) \o Flat(ver, unit, Tail(l), depth)
\* a value in a message of its own
Enc(ver, p, v) ==
  CASE v.t = "IMPULSE" /\ ver \in {"old", "1.0"} -> <<>>
    [] v.t = "STRING" /\ p.blob /\ ver # "old" -> << Arg("b", v) >>
    [] OTHER -> EncIn(ver, p.unit, v, 0)
\* in a bundle
EncB(ver, p, v) == EncIn(ver, p.unit, v, 0)

\* texts that are numbers as a whole
Body(s) == SubSeq(s, Start(s), Len(s))
IsIntText(s) == LET n == DigitsFrom(s, Start(s)) IN n > 0 /\ Start(s) + n = Len(s) + 1
IsFloatText(s) ==
  LET i == Start(s)  n == DigitsFrom(s, i) IN
  \/ IsIntText(s)
  \/ n > 0 /\ i + n <= Len(s) /\ SubSeq(s, i + n, i + n) = "." /\ LET m == DigitsFrom(s, i + n + 1) IN m > 0 /\ i + n + m = Len(s)

\* the value of one argument, for a parameter of a numeric type with the current value cur
DecNum(a, t, cur) ==
  CASE a.g \in {"i", "h", "f", "d", "c", "t"} -> AsNum(t, a.v.q)
    [] a.g \in {"T", "F"} -> IF t = "CHAR" THEN CharV(IF a.g = "T" THEN 84 ELSE 70) ELSE AsNum(t, IF a.g = "T" THEN 4 ELSE 0)
    [] a.g \in {"s", "S"} ->
         (CASE t = "CHAR" -> IF a.v.s = "" THEN CharV(0) ELSE CharV(CharCode(SubSeq(a.v.s, 1, 1)))
            [] t = "INT" -> IF IsIntText(a.v.s) THEN AsNum("INT", ParseInt4(a.v.s)) ELSE cur
            [] t = "FLOAT" -> IF IsFloatText(a.v.s) THEN Float4(ParseFloat4(a.v.s)) ELSE cur
            [] t = "BOOL" -> IF a.v.s \in {"0", "1"} THEN BoolV(a.v.s = "1") ELSE cur)
    [] OTHER -> cur
DecStr(a, cur) ==
  CASE a.g \in {"i", "h"} -> Str(IntStr(a.v.q \div 4))
    [] a.g \in {"f", "d"} -> Str(FloatStr(a.v.q))
    [] a.g = "c" -> Str(CharStr(a.v.q \div 4))
    [] a.g = "T" -> Str("true")
    [] a.g = "F" -> Str("false")
    [] a.g \in {"s", "S", "b"} -> Str(a.v.s)
    [] OTHER -> cur
\* the value of an argument as it is
El(a) ==
  CASE a.g \in {"i", "h", "t"} -> Q("INT", Trunc4(a.v.q))
    [] a.g \in {"f", "d"} -> Float4(a.v.q)
    [] a.g = "c" -> Q("CHAR", a.v.q)
    [] a.g \in {"T", "F"} -> BoolV(a.g = "T")
    [] a.g \in {"s", "S", "b"} -> Str(a.v.s)
    [] a.g = "r" -> a.v
    [] OTHER -> Impulse
\* the elements from i on up to the end of the array; n: where they end
RECURSIVE Elems(_, _)
Elems(args, i) ==
  IF i > Len(args) \/ args[i].g = "]" THEN [l |-> <<>>, n |-> i]
  ELSE LET sub == IF args[i].g = "[" THEN Elems(args, i + 1) ELSE [l |-> <<>>, n |-> i]
           here == IF args[i].g = "[" THEN List(sub.l) ELSE El(args[i])
           rest == Elems(args, sub.n + 1)
       IN [l |-> <<here>> \o rest.l, n |-> rest.n]
ListOf(args) == List(Elems(args, 1).l)
Value1(args) == IF args = <<>> THEN Impulse ELSE IF Len(args) = 1 THEN El(args[1]) ELSE ListOf(args)

\* the value a message gives to a parameter; without arguments: its current one, again
Dec(p, args) ==
  IF args = <<>> THEN p.v
  ELSE CASE p.t = "IMPULSE" -> Impulse
         [] p.t \in NumTypes -> DecNum(args[1], p.t, p.v)
         [] p.t = "STRING" -> DecStr(args[1], p.v)
         [] p.t \in VecTypes ->
              IF Len(args) = Size(p.t) THEN Vec([i \in 1..Len(args) |-> DecNum(args[i], "FLOAT", p.v.l[i]).q])
              ELSE IF p.t = "VEC4F" /\ args[1].g = "r" THEN args[1].v ELSE p.v
         [] p.t = "LIST" -> ListOf(args)

-----------------------------------------------------------------------------
\* addresses and patterns: * any characters, ? at most one, [abc] one of them, {a,b} alternatives
C(s, i) == SubSeq(s, i, i)
Sub(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Find(_, _, _), Splits(_, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF C(s, i) = c THEN i ELSE Find(s, c, i + 1)
Splits(s, c) == LET i == Find(s, c, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Splits(Sub(s, i + 1), c)
Parts(a) == Tail(Splits(a, "/"))
IsPattern(a) == \E i \in 1..Len(a) : C(a, i) \in {"*", "?", "[", "{"}
RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF p = "" THEN s = ""
  ELSE LET c == C(p, 1) IN
       CASE c = "*" -> \E i \in 1..(Len(s) + 1) : Glob(Sub(p, 2), Sub(s, i))
         [] c = "?" -> Glob(Sub(p, 2), s) \/ (s # "" /\ Glob(Sub(p, 2), Sub(s, 2)))
         [] c = "[" -> LET e == Find(p, "]", 1) IN s # "" /\ (\E i \in 2..(e - 1) : C(p, i) = C(s, 1)) /\ Glob(Sub(p, e + 1), Sub(s, 2))
         [] c = "{" -> LET e == Find(p, "}", 1)  o == Splits(SubSeq(p, 2, e - 1), ",") IN
                       \E i \in 1..Len(o) : Glob(o[i] \o Sub(p, e + 1), s)
         [] OTHER -> s # "" /\ C(s, 1) = c /\ Glob(Sub(p, 2), Sub(s, 2))
Matches(pat, path) == LET a == Parts(pat)  b == Parts(path) IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : Glob(a[i], b[i])
\* the nodes a message is for
Target(R, a) == IF a \in DOMAIN R THEN {a} ELSE IF IsPattern(a) THEN {n \in DOMAIN R : Matches(a, n)} ELSE {}
Live(R, a) == {n \in Target(R, a) : R[n].live}

-----------------------------------------------------------------------------
Stored(x, w) == IF w.t = "NONE" THEN x ELSE [x EXCEPT !.prev = x.v, !.v = Conv(w, x.t, x.v)]
New(x, args) == Apply(x.dom, x.bm, Dec(x, args))
\* learning: a message to a new address creates its node and its parameter
RECURSIVE Join2(_, _)
Join2(ps, n) == IF n = 0 THEN "" ELSE Join2(ps, n - 1) \o "/" \o ps[n]
Prefixes(a) == {Join2(Parts(a), n) : n \in 1..Len(Parts(a))}
Learned(args) ==
  LET v == Value1(args) IN
  IF v.t = "LIST" /\ Len(args) \in 2..4 /\ Len(v.l) = Len(args) /\ \A i \in 1..Len(v.l) : v.l[i].t = "FLOAT"
  THEN Vec([i \in 1..Len(v.l) |-> v.l[i].q]) ELSE v
Grow(R, a, x) == [n \in DOMAIN R \cup Prefixes(a) |-> IF n = a THEN x ELSE IF n \in DOMAIN R THEN R[n] ELSE Empty]
\* one message after the other: the receiver, what each one did (path and value), what was unhandled
RECURSIVE Recv(_, _)
Recv(R, ms) ==
  IF ms = <<>> THEN [r |-> R, got |-> <<>>, unh |-> <<>>]
  ELSE LET m == Head(ms) IN
       IF learn THEN
         LET v == Learned(m.args)
             R2 == IF m.a \in DOMAIN R THEN R ELSE Grow(R, m.a, [Par(v.t) EXCEPT !.v = v, !.prev = V("ANY", 0, "", <<>>)])
         IN TLCEval(Recv(TLCEval(R2), Tail(ms)))
       ELSE
         LET hit == {n \in Live(R, m.a) : New(R[n], m.args).t # "NONE"}
             R2 == [n \in DOMAIN R |-> IF n \in hit THEN Stored(R[n], New(R[n], m.args)) ELSE R[n]]
             rest == TLCEval(Recv(TLCEval(R2), Tail(ms)))
         IN [rest EXCEPT !.got = << {[p |-> n, v |-> R2[n].v, cb |-> R[n].cb] : n \in hit} >> \o @,
                         !.unh = (IF Target(R, m.a) = {} THEN << Msg(m.a, << Value1(m.args) >>) >> ELSE <<>>) \o @]

\* mv: the messages sent, with the values they stand for
Out(S, packets, ok) ==
  LET mv == IF packets = <<>> THEN <<>> ELSE packets[1]
      ms == [i \in 1..Len(mv) |-> Msg(mv[i].a, mv[i].args)]
      r == TLCEval(Recv(rcv, ms))
  IN /\ snd' = S /\ rcv' = r.r /\ UNCHANGED <<cfg, learn>>
     /\ obs' = [sent |-> IF packets = <<>> THEN <<>> ELSE <<ms>>, vals |-> [i \in 1..Len(mv) |-> mv[i].v], ok |-> ok, got |-> r.got, unh |-> r.unh]
Into(ms) == LET r == TLCEval(Recv(rcv, ms)) IN
  rcv' = r.r /\ UNCHANGED <<snd, cfg, learn>> /\ obs' = [Quiet EXCEPT !.got = r.got, !.unh = r.unh]

Filtered(x, w) == x.dis \/ x.mut \/ (x.rep /\ Cmp("eq", w, x.prev))
\* the value that may leave, if any
Leaves(x, v) == LET w == Apply(x.dom, x.bm, v) IN
  IF w.t = "NONE" \/ Filtered(x, w) \/ (cfg.client /\ x.acc = "GET") THEN NoVal ELSE w
Send(a, x, v) == LET w == Leaves(x, v) IN IF w.t = "NONE" THEN <<>> ELSE << << MsgV(a, Enc(cfg.ver, x, w), w) >> >>

Push(a, v) == LET x == Stored(snd[a], v) IN
  Out([snd EXCEPT ![a] = x], IF v.t = "NONE" THEN <<>> ELSE Send(a, x, x.v), TRUE)
PushCurrent(a) == Out(snd, Send(a, snd[a], snd[a].v), TRUE)
\* data that stands for the parameter, with the values prev, then v
Raw(a, prev, v) == LET s == Send(a, [snd[a] EXCEPT !.prev = prev, !.v = v], v) IN Out(snd, s, s # <<>>)
RECURSIVE Bundled(_)
Bundled(xs) ==
  IF xs = <<>> THEN <<>>
  ELSE LET h == Head(xs)  w == Leaves(h.x, h.x.v) IN
       (IF w.t = "NONE" THEN <<>> ELSE << MsgV(h.a, EncB(cfg.ver, h.x, w), w) >>) \o Bundled(Tail(xs))
Bundle(as) == Out(snd, << Bundled([i \in 1..Len(as) |-> [a |-> as[i], x |-> snd[as[i]]]]) >>, TRUE)
RawBundle(rs) == Out(snd, << Bundled([i \in 1..Len(rs) |-> [a |-> rs[i].a, x |-> [snd[rs[i].a] EXCEPT !.prev = NoVal, !.v = rs[i].v]]]) >>, TRUE)

Incoming(ms) == Into(ms)
Malformed == UNCHANGED <<snd, rcv, cfg, learn>> /\ obs' = Quiet
Set(S, R) == snd' = S /\ rcv' = R /\ UNCHANGED <<cfg, learn>> /\ obs' = Quiet
NewSnd(a, t) == Set([n \in DOMAIN snd \cup {a} |-> IF n = a THEN Par(t) ELSE snd[n]], rcv)
NewRcv(a, t) == Set(snd, Grow(rcv, a, Par(t)))
NewNode(a) == Set(snd, Grow(rcv, a, Empty))
\* the listener of a parameter
Listen(a, b) == Set(snd, [rcv EXCEPT ![a].cb = b])
IsUnder(n, a) == n = a \/ (Len(n) > Len(a) /\ SubSeq(n, 1, Len(a) + 1) = a \o "/")
Drop(a) == Set(snd, [n \in {n \in DOMAIN rcv : ~IsUnder(n, a)} |-> rcv[n]])
DropPar(a) == Set(snd, [rcv EXCEPT ![a] = Empty])
Up(a) == Join2(Parts(a), Len(Parts(a)) - 1)
Rename(a, name) ==
  LET b == Up(a) \o "/" \o name
      to(n) == IF IsUnder(n, a) THEN b \o Sub(n, Len(a) + 1) ELSE n
      from(n) == CHOOSE x \in DOMAIN rcv : to(x) = n
  IN Set(snd, [n \in {to(x) : x \in DOMAIN rcv} |-> rcv[from(n)]])
SetLearn(b) == learn' = b /\ UNCHANGED <<snd, rcv, cfg>> /\ obs' = Quiet
\* attributes
AttrS(a, f, x) == Set([snd EXCEPT ![a] = [@ EXCEPT ![f] = x]], rcv)
AttrR(a, f, x) == Set(snd, [rcv EXCEPT ![a] = [@ EXCEPT ![f] = x]])
OInit(v, c) == snd = <<>> /\ rcv = <<>> /\ cfg = [ver |-> v, client |-> c] /\ learn = FALSE /\ obs = Quiet

-----------------------------------------------------------------------------
\* O01.  The values that a version can carry to a parameter of the same type
RECURSIVE CarriesIn(_, _, _)
CarriesIn(ver, unit, v) ==
  CASE v.t \in {"INT", "FLOAT", "STRING"} -> TRUE
    [] v.t = "BOOL" -> ver \in {"1.1", "ext"}
    [] v.t = "CHAR" -> ver = "ext"
    [] v.t = "IMPULSE" -> ver \in {"1.1", "ext"}
    [] v.t = "LIST" -> ver = "ext" /\ \A i \in 1..Len(v.l) : CarriesIn(ver, unit, v.l[i])
    [] OTHER -> FALSE
Carries(ver, p, v) ==
  CASE v.t = "LIST" -> v.l # <<>> /\ \A i \in 1..Len(v.l) : CarriesIn(ver, p.unit, v.l[i])
    [] v.t = "VEC4F" /\ p.unit = "color.rgba8" /\ ver = "ext" -> \A i \in 1..4 : v.l[i].q \in 0..1020 /\ v.l[i].q % 4 = 0
    [] v.t = "NONE" -> FALSE
    [] OTHER -> TRUE
\* a value that was sent alone is the one the mirror has
Mirrored == Len(obs.sent) = 1 =>
  \A i \in 1..Len(obs.sent[1]) : LET a == obs.sent[1][i].a  v == obs.vals[i] IN
    (/\ ~learn /\ a \in DOMAIN rcv /\ rcv[a].live /\ rcv[a].t = v.t /\ rcv[a].unit = snd[a].unit
     /\ rcv[a].dom = NoDom /\ Carries(cfg.ver, snd[a], v)
     /\ \A j \in (i + 1)..Len(obs.sent[1]) : obs.sent[1][j].a # a) => Same(rcv[a].v, v)
\* every message has an effect or is unhandled, and never both
OnePer == LET n == Len(obs.got) IN Len(obs.unh) <= n /\ Cardinality({i \in 1..n : obs.got[i] = {}}) >= Len(obs.unh)
RTyped == \A n \in DOMAIN rcv : rcv[n].v.t = rcv[n].t
=============================================================================
